"""Independent encoders / strict decoders for the file formats.

Written from the format descriptions, sharing no code with objutils.
``encode(codec, records, **style)`` writes one record per (address, bytes).
``decode(codec, blob)`` -> list of (address, bytes), raising FormatError for
anything a strict consumer of the format would refuse.
"""

import re
import xml.etree.ElementTree as ET
from hashlib import sha1


class FormatError(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise FormatError(msg)


def hx(data):
    return bytes(data).hex().upper()


def unhex(text, what="hex data"):
    need(re.fullmatch(r"(?:[0-9A-Fa-f]{2})*", text) is not None, f"bad {what}: {text!r}")
    return bytes.fromhex(text)


def nibbles(data):
    return sum((b >> 4) + (b & 15) for b in data) & 0xFF


def addr_bytes(a, n):
    return a.to_bytes(n, "big")


def min_bytes(a):
    return a.to_bytes(max(1, (a.bit_length() + 7) // 8), "big")


def rotxor(data):
    cs = 0
    for b in data:
        cs ^= b
        cs = ((cs << 1) | (cs >> 7)) & 0xFF
    return cs


# --- single records ------------------------------------------------------


def ihex_rec(rtype, addr, data):
    body = bytes([len(data)]) + addr_bytes(addr, 2) + bytes([rtype]) + bytes(data)
    return ":" + hx(body + bytes([-sum(body) & 0xFF]))


def srec_rec(kind, addr, data=b""):
    n = {0: 2, 1: 2, 2: 3, 3: 4, 5: 2, 6: 3, 7: 4, 8: 3, 9: 2}[kind]
    body = addr_bytes(addr, n) + bytes(data)
    body = bytes([len(body) + 1]) + body
    return f"S{kind}" + hx(body + bytes([~sum(body) & 0xFF]))


def tek_rec(addr, data):
    head = addr_bytes(addr, 2) + bytes([len(data)])
    return "/" + hx(head) + f"{nibbles(head):02X}" + hx(data) + f"{nibbles(data):02X}"


def etek_values(text):
    chars = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$%._abcdefghijklmnopqrstuvwxyz"
    return sum(map(chars.index, text)) & 0xFF


def etek_field(text):
    """Fields are preceded by the number of their characters, where 0 means 16."""
    need(1 <= len(text) <= 16, "length of field")
    return f"{len(text) & 15:X}{text}"


def etek_block(kind, body, length=None):
    length = len(body) + 5 if length is None else length
    return f"%{length:02X}{kind}{etek_values(f'{length:02X}{kind}{body}'):02X}{body}"


def etek_rec(addr, data, digits=4, length=None):
    """`digits`: at least so many digits of address."""
    return etek_block(6, etek_field(f"{addr:0{digits}X}") + hx(data), length)


def etek_symbols(section, items):
    """items: (0, base, length) of a section, or (type, name, value) of a symbol."""
    body = etek_field(section)
    for kind, a, b in items:
        body += f"{kind}" + etek_field(f"{a:X}" if kind == 0 else a) + etek_field(f"{b:X}")
    return etek_block(3, body)


def sig_rec(addr, data):
    head = min_bytes(addr) + bytes([len(data)])
    return f":{addr:04X}{len(data):02X}{rotxor(head):02X}{hx(data)}{rotxor(data):02X}"


def mostec_rec(addr, data):
    body = bytes([len(data)]) + addr_bytes(addr, 2) + bytes(data)
    return ";" + hx(body) + f"{sum(body) & 0xFFFF:04X}"


def emon_rec(addr, data):
    return f"{len(data):02X} {addr:04X}:{' '.join(f'{b:02X}' for b in data)} {sum(data) & 0xFFFF:04X}"


ALPHABET = [chr(c) for c in range(37, 123) if c != 42]
assert len(ALPHABET) == 85


def b85(word):
    s = ""
    for _ in range(5):
        s = ALPHABET[word % 85] + s
        word //= 85
    return s


def fpc_pack(hexline):
    need(len(hexline) % 8 == 0, "fpc line is not a multiple of four bytes")
    return "$" + "".join(b85(int(hexline[i : i + 8], 16)) for i in range(0, len(hexline), 8))


def fpc_hex(addr, data):
    body = bytes([len(data) + 4, 0, 0]) + addr_bytes(addr, 4) + bytes(data)
    cs = -sum(body) & 0xFF
    return hx(bytes([cs]) + body + bytes(-len(data) % 4))


def fpc_rec(addr, data):
    return fpc_pack(fpc_hex(addr, data))


RECORD = {
    "tek": tek_rec,
    "etek": etek_rec,
    "sig": sig_rec,
    "mostec": mostec_rec,
    "emon52": emon_rec,
    "fpc": fpc_rec,
    "rca": lambda a, d: f"{a:04X} {hx(d)};",
}


def ihex_lines(records, mode="linear", start=None, eof=True):
    """mode: linear (type 04), segment (type 02, below 1 MB), both alternating."""
    lines, base, flip = [], 0, 0
    for addr, data in records:
        use_seg = mode == "segment" or (mode == "both" and flip % 2 and addr + len(data) <= 0x100000)
        flip += 1
        if not (base <= addr and addr + len(data) <= base + 0x10000):
            if use_seg and addr < 0x100000:
                seg = min(addr >> 4, 0xFFFF)
                if mode == "segment" or (addr - (addr & ~0xFFFF)) + len(data) <= 0x10000:
                    if mode != "segment":
                        seg = (addr & 0xF0000) >> 4
                    base = seg << 4
                    lines.append(ihex_rec(2, 0, addr_bytes(seg, 2)))
            else:
                base = addr & ~0xFFFF
                lines.append(ihex_rec(4, 0, addr_bytes(base >> 16, 2)))
        off = addr - base
        if not (0 <= off and off + len(data) <= 0x10000):
            raise ValueError("record crosses a 64K boundary")
        lines.append(ihex_rec(0, off, data))
    if start is not None:
        lines.append(ihex_rec(start[0], 0, addr_bytes(start[1], 4)))
    if eof:
        lines.append(":00000001FF")
    return lines


def ash_lines(records, sep=" ", term=",", stx_line=False):
    lines = ["\x02 "] if stx_line else []
    cur, total = None, 0
    for i, (addr, data) in enumerate(records):
        if addr != cur:
            prefix = "\x02 " if (not stx_line and i == 0) else ""
            lines.append(f"{prefix}$A{addr:04X}{term}")
        lines.append(sep.join(f"{b:02X}" for b in data))
        total += sum(data)
        cur = addr + len(data)
    lines.append(f"\x03$${total & 0xFFFF:04X},")
    return lines


def titxt_lines(records, sep=" ", digits=4):
    lines, cur = [], None
    for addr, data in records:
        if addr != cur:
            lines.append(f"@{addr:0{digits}X}")
        lines.append(sep.join(f"{b:02X}" for b in data))
        cur = addr + len(data)
    lines.append("q")
    return lines


def cosmac_lines(records, styles=()):
    lines, cur = [], None
    for i, (addr, data) in enumerate(records):
        style = styles[i % len(styles)] if styles else 0
        if style == 3 and cur == addr:
            lines.append(hx(data))
        else:
            lines.append(("!M", "?M", "", "!M")[style] + f"{addr:04X} {hx(data)}")
        cur = addr + len(data)
    return lines


def shf_text(blocks, word_size=1, width=16, upper=False):
    out = ['<?xml version="1.0" encoding="UTF-8"?>', f'<dump name="ref" blocks="{len(blocks):04x}">']
    for i, (addr, data) in enumerate(blocks):
        ws = word_size if len(data) % word_size == 0 else 1
        digits = hx(data) if upper else bytes(data).hex()
        a, w, n, c = f"{addr:08x}", f"{ws:02x}", f"{len(data) // ws:08x}", sha1(bytes(data)).hexdigest()
        style = (len(data) + len(blocks) + i) % 8  # numbers are hexadecimal, however they are written
        if style == 0:
            a, w, n = f"{addr:x}", f"{ws:x}", f"{len(data) // ws:x}"
        elif style == 1:
            a, w, n, c = f"{addr:016X}", f"{ws:04X}", f"{len(data) // ws:016X}", c.upper()
        elif style == 2:
            a, w, n, c = f" {a} ", f"\n{w}", f"{n[:4]} {n[4:]}", f"{c[:20]} {c[20:]}\n"
        out.append(f'<block name="{"" if (i + len(data)) % 4 == 3 else f"b{i}"}" address="{a}" word_size="{w}" length="{n}" checksum="{c}">')
        for k in range(0, len(digits), 2 * width):
            row = digits[k : k + 2 * width]
            out.append("  " + " ".join(row[j : j + 2 * ws] for j in range(0, len(row), 2 * ws)))
        out.append("</block>")
    out.append("</dump>")
    return "\n".join(out)


# --- strict decoders -----------------------------------------------------


def _lines(blob):
    text = bytes(blob).decode("ascii")
    return [ln for ln in text.replace("\r\n", "\n").split("\n") if ln != ""]


def dec_ihex(blob):
    recs, base, eof = [], 0, False
    for ln in _lines(blob):
        need(not eof, "record after EOF")
        need(ln[0] == ":", f"bad start {ln!r}")
        raw = unhex(ln[1:])
        need(len(raw) >= 5, "short record")
        need(sum(raw) & 0xFF == 0, f"checksum {ln}")
        n, addr, rtype, data = raw[0], int.from_bytes(raw[1:3], "big"), raw[3], raw[4:-1]
        need(n == len(data), "length")
        if rtype == 0:
            need(addr + n <= 0x10000, "record crosses a 64K boundary")
            recs.append((base + addr, data))
        elif rtype == 1:
            need(n == 0, "EOF with data")
            eof = True
        elif rtype == 2:
            need(n == 2, "02 length")
            base = int.from_bytes(data, "big") << 4
        elif rtype == 4:
            need(n == 2, "04 length")
            base = int.from_bytes(data, "big") << 16
        elif rtype in (3, 5):
            need(n == 4, "start length")
        else:
            raise FormatError("type")
    need(eof, "no EOF record")
    return recs


def srec_parse(ln):
    need(ln[0] == "S" and ln[1] in "01235789", f"bad start {ln!r}")
    kind = int(ln[1])
    raw = unhex(ln[2:])
    need(len(raw) >= 4 and raw[0] == len(raw) - 1, f"count {ln}")
    need(sum(raw) & 0xFF == 0xFF, f"checksum {ln}")
    n = {0: 2, 1: 2, 2: 3, 3: 4, 7: 4, 8: 3, 9: 2}.get(kind, len(raw) - 2)
    need(len(raw) >= n + 2, "too short for its type")
    addr, data = int.from_bytes(raw[1 : 1 + n], "big"), raw[1 + n : -1]
    if kind in (5, 7, 8, 9):
        need(not data, "data in a count/termination record")
    return kind, addr, data


def dec_srec(blob):
    return [(a, d) for k, a, d in map(srec_parse, _lines(blob)) if k in (1, 2, 3)]


def dec_tek(blob):
    recs, eof = [], None
    for ln in _lines(blob):
        need(eof is None, "record after EOF")
        need(ln[0] == "/", "start")
        raw = unhex(ln[1:])
        need(len(raw) >= 4, "short")
        need(raw[3] == nibbles(raw[:3]), "address checksum")
        addr, n = int.from_bytes(raw[:2], "big"), raw[2]
        if n == 0:
            need(len(raw) == 4, "EOF with data")
            eof = addr
        else:
            data = raw[4:-1]
            need(len(data) == n, "length")
            need(raw[-1] == nibbles(data), "data checksum")
            recs.append((addr, data))
    need(eof is not None, "no EOF")
    return recs


def dec_etek(blob):
    recs = []
    for ln in _lines(blob):
        m = re.fullmatch(r"%([0-9A-F]{2})6([0-9A-F]{2})([0-9A-F]+)", ln)
        need(m, f"bad line {ln!r}")
        need(int(m[1], 16) == len(ln) - 1, "length")
        need(int(m[2], 16) == etek_values(m[1] + "6" + m[3]), "checksum")
        n = int(m[3][0], 16) or 16
        address, data = m[3][1 : 1 + n], m[3][1 + n :]
        need(len(address) == n and len(data) >= 2 and len(data) % 2 == 0, "fields")
        recs.append((int(address, 16), bytes.fromhex(data)))
    return recs


def dec_sig(blob):
    recs, eof = [], False
    for ln in _lines(blob):
        need(not eof, "record after EOF")
        need(ln[0] == ":", "start")
        raw = unhex(ln[1:])
        need(len(raw) >= 3, "short")
        addr, n = int.from_bytes(raw[:2], "big"), raw[2]
        if n == 0:
            need(len(raw) == 3, "EOF")
            eof = True
            continue
        need(raw[3] == rotxor(min_bytes(addr) + bytes([n])), "address checksum")
        data = raw[4:-1]
        need(len(data) == n, "length")
        need(raw[-1] == rotxor(data), "data checksum")
        recs.append((addr, data))
    need(eof, "no EOF")
    return recs


def dec_mostec(blob):
    recs, eof = [], False
    for ln in _lines(blob):
        need(not eof, "record after EOF")
        need(ln[0] == ";", "start")
        raw = unhex(ln[1:])
        n = raw[0]
        if n == 0:
            eof = True
            continue
        need(len(raw) == 3 + n + 2, "length")
        need(int.from_bytes(raw[-2:], "big") == sum(raw[:-2]) & 0xFFFF, "checksum")
        recs.append((int.from_bytes(raw[1:3], "big"), raw[3:-2]))
    need(eof, "no EOF")
    return recs


def dec_emon52(blob):
    recs = []
    for ln in _lines(blob):
        m = re.fullmatch(r"([0-9A-F]{2}) ([0-9A-F]{4}):((?:[0-9A-F]{2} )+)([0-9A-F]{4})", ln)
        need(m, f"bad line {ln!r}")
        data = bytes.fromhex(m[3])
        need(int(m[1], 16) == len(data), "length")
        need(int(m[4], 16) == sum(data) & 0xFFFF, "checksum")
        recs.append((int(m[2], 16), data))
    return recs


def dec_fpc(blob):
    recs, eof = [], False
    rev = {c: i for i, c in enumerate(ALPHABET)}
    for ln in _lines(blob):
        need(not eof, "record after EOF")
        need(ln[0] == "$" and (len(ln) - 1) % 5 == 0, f"bad line {ln!r}")
        raw = b""
        for i in range(1, len(ln), 5):
            v = 0
            for c in ln[i : i + 5]:
                need(c in rev, f"bad char {c!r}")
                v = v * 85 + rev[c]
            need(v < 1 << 32, "overflow")
            raw += v.to_bytes(4, "big")
        if raw == bytes(4):
            eof = True
            continue
        need(len(raw) >= 12, "short")
        n = raw[1] - 4
        need(raw[2:4] == b"\0\0", "format")
        addr, rest = int.from_bytes(raw[4:8], "big"), raw[8:]
        need(n >= 1 and n <= len(rest) < n + 4, "length")
        need(not any(rest[n:]), "padding")
        need((raw[0] + raw[1] + sum(raw[4:8]) + sum(rest[:n])) & 0xFF == 0, "checksum")
        recs.append((addr, rest[:n]))
    need(eof, "no EOF")
    return recs


def dec_rca(blob):
    text = bytes(blob).decode("ascii")
    lead = "\0" * 48
    need(text.startswith(lead + "\r\n!M\n"), "header")
    body = text[len(lead) + 5 :]
    need(body.rstrip("\r\n").endswith(lead), "trailer")
    body = body.rstrip("\r\n")[: -len(lead)]
    recs = []
    for ln in body.split("\n"):
        if not ln:
            continue
        m = re.fullmatch(r"([0-9A-F]{4}) ((?:[0-9A-F]{2})+);", ln)
        need(m, f"bad line {ln!r}")
        recs.append((int(m[1], 16), bytes.fromhex(m[2])))
    return recs


def dec_cosmac(blob):
    recs = []
    for ln in _lines(blob):
        m = re.fullmatch(r"!M([0-9A-F]{4}) ((?:[0-9A-F]{2})+)", ln)
        need(m, f"bad line {ln!r}")
        recs.append((int(m[1], 16), bytes.fromhex(m[2])))
    return recs


def dec_titxt(blob):
    recs, cur, end = [], None, False
    for ln in _lines(blob):
        need(not end, "line after q")
        if ln[0] == "@":
            need(re.fullmatch(r"@[0-9A-F]{2,8}", ln), f"address {ln!r}")
            cur = int(ln[1:], 16)
        elif ln == "q":
            end = True
        else:
            need(cur is not None, "data before address")
            need(re.fullmatch(r"[0-9A-F]{2}( [0-9A-F]{2})*", ln), f"data {ln!r}")
            data = bytes.fromhex(ln)
            recs.append((cur, data))
            cur += len(data)
    need(end, "no q")
    return recs


def dec_ash(blob, sep=" "):
    text = bytes(blob).decode("ascii")
    m = re.fullmatch(r"\x02 ?\n(.*)\n\x03\$\$([0-9A-F]{4}),\n?", text, re.DOTALL)
    need(m, "frame")
    recs, cur, total = [], None, 0
    for ln in m[1].split("\n"):
        a = re.fullmatch(r"\$A([0-9A-F]{2,8})[,.]", ln)
        if a:
            cur = int(a[1], 16)
        else:
            need(cur is not None, "data before address")
            toks = ln.split(sep)
            need(all(re.fullmatch("[0-9A-F]{2}", t) for t in toks), f"data {ln!r}")
            data = bytes(int(t, 16) for t in toks)
            recs.append((cur, data))
            cur += len(data)
            total += sum(data)
    need(int(m[2], 16) == total & 0xFFFF, "checksum")
    return recs


def dec_shf(blob):
    root = ET.fromstring(bytes(blob))
    need(root.tag == "dump" and "name" in root.attrib, "root")
    recs = []
    for b in root:
        need(b.tag == "block" and "name" in b.attrib, "block")
        data = unhex(re.sub(r"\s", "", b.text or ""))
        need(int(b.attrib["word_size"], 16) * int(b.attrib["length"], 16) == len(data), "length")
        need(b.attrib["checksum"] == sha1(data).hexdigest(), "checksum")
        recs.append((int(b.attrib["address"], 16), data))
    if "blocks" in root.attrib:
        need(int(root.attrib["blocks"], 16) == len(recs), "block count")
    return recs


DECODE = {
    "ihex": dec_ihex,
    "srec": dec_srec,
    "tek": dec_tek,
    "etek": dec_etek,
    "sig": dec_sig,
    "mostec": dec_mostec,
    "emon52": dec_emon52,
    "fpc": dec_fpc,
    "rca": dec_rca,
    "cosmac": dec_cosmac,
    "titxt": dec_titxt,
    "ash": dec_ash,
    "shf": dec_shf,
}
