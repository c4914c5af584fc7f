"""Generator of ELF files together with a description of what is in them.

A case is plain data (``spec``); ``build(spec)`` serialises it with struct and
returns the file image and a :class:`Want` with everything a reader must find.
Shares no code with objutils.
"""

import gc
import os
import struct

from hypothesis import strategies as st

from vf.core import HarnessError

SHT_NULL, PROGBITS, SYMTAB, STRTAB, NOTE, NOBITS, DYNSYM = 0, 1, 2, 3, 7, 8, 11
WRITE, ALLOC, EXEC = 1, 2, 4
SPECIAL = {0: "SHN_UNDEF", 0xFFF1: "SHN_ABS", 0xFFF2: "SHN_COMMON", 0xFF00: "SHN_LORESERVE", 0xFF01: "SHN_AFTER"}
SPECIAL |= {0xFF1F: "SHN_HIPROC", 0xFF20: "SHN_LOOS", 0xFF3F: "SHN_HIOS"}
RESERVED = [0, 0xFFF1, 0xFFF2] * 4 + [0xFF00, 0xFF01, 0xFF1F, 0xFF20, 0xFF3F, 0xFF02, 0xFF30, 0xFFF0, 0xFFF3]  # the last ones without a name

SECTION_NAMES = [".text", ".data", ".bss", ".rodata", ".init", ".vectors", ".text.main", ".fini", "code", ".debug_x", ".dwo", ".dwo.x", ".Debug_x", ".DWO", ".data.rel", "t", ""]
ident = st.one_of(
    st.text(st.sampled_from("abcXYZ_09.$@"), min_size=1, max_size=12),
    st.text(st.sampled_from("abcXYZ_09.$@"), min_size=1, max_size=12),
    st.text(st.sampled_from("abcXYZ_09.$@äßλ€😀"), min_size=1, max_size=8),
)
section_name = st.one_of(st.sampled_from(SECTION_NAMES), st.sampled_from(SECTION_NAMES), ident)
symbol_name = st.one_of(ident, st.sampled_from(["main", "_start", "__data_end", "_x", "x", "$a", "", "foo", "foobar", "x" * 300]))


def uint(bits):
    top = (1 << bits) - 1
    return st.one_of(
        st.integers(0, min(300, top)),
        st.integers(0, top),
        st.integers(0, bits).map(lambda k: min(top, 1 << k)),
        st.integers(max(0, top - 300), top),
    )


def machines():
    return st.one_of(st.sampled_from([0, 3, 8, 20, 40, 62, 83, 183, 0xFEED]), uint(16))


FLAGS = st.one_of(
    st.sampled_from([0, 2, 3, 6, 7, 0x32, 0x30]),
    st.lists(st.sampled_from([0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 1 << 20, 1 << 30, 1 << 31]), max_size=4).map(lambda fs: sum(set(fs))),
)
OTHER_TYPES = st.sampled_from([0, 1, 1, 3, 4, 5, 6, 9, 14, 15, 16, 17, 0x6FFFFFF6, 0x70000001, 0x70000003])

payload = st.one_of(st.binary(max_size=40), st.binary(max_size=8), st.tuples(st.binary(min_size=1, max_size=3), st.integers(1, 200)).map(lambda t: t[0] * t[1]))


def note():
    return st.tuples(
        uint(32),
        st.one_of(st.sampled_from(["GNU", "CORE", "", "stapsdt", "Go"]), ident),
        st.one_of(st.binary(max_size=21), st.binary(min_size=20, max_size=20)),
    )


def symbol(bits, nsec):
    return st.tuples(
        symbol_name,
        uint(bits),
        st.one_of(st.integers(0, 64), uint(bits)),
        st.one_of(st.integers(0, 2), st.integers(0, 2), st.sampled_from([10, 13, 15]), st.integers(0, 15)),
        st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(0, 15)),
        st.one_of(st.integers(0, 3), st.integers(0, 255)),
        st.one_of(st.integers(0, max(nsec, 1)), st.integers(0, max(nsec, 1)), st.sampled_from(RESERVED)),
    )


@st.composite
def specs(draw, disjoint=True, max_sections=6, with_symbols=True, simple_header=False, loaded=False, min_symbols=0):
    bits = draw(st.sampled_from([32, 64]))
    le = draw(st.booleans())
    hdr = {
        "osabi": 0 if simple_header else draw(uint(8)),
        "abiversion": 0 if simple_header else draw(uint(8)),
        "type": draw(st.one_of(st.integers(0, 4), uint(16))),
        "machine": draw(machines()),
        "version": draw(st.one_of(st.just(1), uint(32))),
        "entry": draw(uint(bits)),
        "flags": draw(uint(32)),
    }
    if hdr["machine"] == 83:  # AVR: number of the machine and a bit
        hdr["flags"] = draw(st.one_of(st.just(hdr["flags"]), st.tuples(st.sampled_from([0, 1, 5, 6, 25, 35, 51, 100, 107, 108, 127]), st.sampled_from([0, 0x80, 0x100, 0xFFFFFF80])).map(sum)))
    rare = draw(st.integers(0, 15))  # now and then something bigger than usual
    n = draw(st.integers(2 if loaded else 0, max_sections)) if rare != 1 else draw(st.integers(max_sections + 2, 14))
    big = draw(st.integers(0, n)) if rare == 2 else None
    far = draw(st.integers(0, n)) if rare in (3, 4, 5) else None
    secs = []
    # addresses of allocated sections: disjoint, anywhere in the address space, not in order of the table.
    base = draw(st.one_of(st.integers(0, 1 << 16), uint(bits)))
    cur = min(base, (1 << bits) - 20000 - 80000 * (big is not None))
    cur = max(cur, 0)
    if far is not None:
        cur &= (1 << bits - 1) - 1
    for nr in range(n):
        kind = draw(st.sampled_from(["data", "data", "data", "nobits", "note", "other"]))
        name = draw(section_name)
        flags = draw(FLAGS)
        if loaded and draw(st.integers(0, 3)):
            flags |= ALLOC
        cur += draw(st.sampled_from([0, 0, 1, 4, 16, 500]))
        if nr == far:  # into the upper half of the address space
            cur = max(cur, (1 << bits - 1) - draw(st.sampled_from([0, 0, 1, 8])))
        if kind == "note":
            body = draw(st.lists(note(), max_size=3))
            size = None
        elif kind == "nobits":
            body = draw(uint(bits))
            size = 0
        else:
            body = draw(payload)
            if nr == big:
                body = (body or b"\x5a") * (draw(st.integers(0x7FF0, 80000 - 1000)) // max(len(body), 1) + 1)
            size = len(body)
        addr = cur
        if size is None:
            cur += 400
        else:
            cur += size
        if not disjoint or not flags & ALLOC:
            addr = draw(st.one_of(st.just(0), uint(bits)))
        ty = {"data": PROGBITS, "nobits": NOBITS, "note": NOTE}.get(kind) or draw(OTHER_TYPES)
        align = draw(st.sampled_from([0, 1, 4, 4, 8, 8, 16]) if kind == "note" else uint(bits))
        secs.append((kind, name, ty, flags, addr, body, draw(uint(32)), draw(uint(32)), align, draw(uint(bits))))
    if len(secs) > 1:
        secs = draw(st.permutations(secs))
    if not simple_header and draw(st.integers(0, 2)) == 0:
        secs = list(secs) + [("comment", ".comment", PROGBITS, 0x30, 0, draw(st.lists(st.one_of(st.just(""), st.sampled_from([" GCC: 1 ", "\tclang\n"]), st.text(st.one_of(st.characters(min_codepoint=32, max_codepoint=126), st.sampled_from("©ü")), max_size=20)), min_size=1, max_size=3)), 0, 0, 1, 1)]
    tables = []
    if with_symbols:
        for ty in draw(st.sampled_from([[], [SYMTAB], [SYMTAB], [DYNSYM], [SYMTAB, DYNSYM]])):
            tables.append((ty, draw(st.lists(symbol(bits, len(secs)), min_size=min_symbols, max_size=7 + 2 * min_symbols))))
    segs = draw(
        st.lists(
            st.tuples(st.one_of(st.integers(0, 7), uint(32)), uint(bits), uint(bits), uint(bits), uint(bits), uint(bits), uint(32), uint(bits)),
            min_size=9 if rare == 6 else 0,
            max_size=12 if rare == 6 else 3,
        )
    )
    return {
        "bits": bits,
        "le": le,
        "hdr": hdr,
        "secs": list(secs),
        "tables": tables,
        "segs": segs,
        "share": draw(st.booleans()),
        "order": draw(st.integers(0, 10**6)),
        "pads": draw(st.lists(st.integers(0, 9), min_size=3, max_size=3)),
        "shape": "normal" if loaded else draw(st.sampled_from(["normal"] * 8 + ["no section table", "no section names"])),
        "names_at": draw(st.sampled_from(["last", "first"])),
    }


class Strtab:
    """share: suffixes are merged, as linkers do."""

    def __init__(self, share):
        self.data = bytearray(b"\0")
        self.share = share

    def add(self, s):
        b = s.encode() + b"\0"
        if not s:
            return 0
        if self.share:
            k = bytes(self.data).find(b)
            if k >= 0:
                return k
        k = len(self.data)
        self.data += b
        return k


def align4(b):
    return b + b"\0" * (-len(b) % 4)


class Want:
    pass


def build(spec):
    try:
        return _build(spec)
    except Exception as e:
        raise HarnessError(f"generator: {e!r}") from e


def _build(spec):
    bits, e = spec["bits"], "<" if spec["le"] else ">"
    b64 = bits == 64

    def pk(fmt, *a):
        return struct.pack(e + fmt, *a)

    A = "Q" if b64 else "I"
    w = Want()
    shape = spec.get("shape", "normal")
    if shape == "no section table":
        spec = dict(spec, secs=[], tables=[])
    nuser = len(spec["secs"])
    # section table: null, [shstrtab], user sections, (symtab, strtab)*, [shstrtab]
    first = spec["names_at"] == "first"
    start = 2 if first else 1
    table = [dict(name="", type=0, flags=0, addr=0, blob=None, size=0, link=0, info=0, align=0, entsize=0)]
    notes, comment = [], None
    for kind, name, ty, flags, addr, body, link, info, al, ents in spec["secs"]:
        size = None
        blob = None
        if kind == "nobits":
            size = body
        elif kind == "note":
            blob = b""
            for nt, nn, nd in body:
                nb = nn.encode() + b"\0" if nn else b""
                unit = 8 if al == 8 else 4
                blob += pk("III", len(nb), len(nd), nt) + nb
                blob += bytes(-len(blob) % unit) + nd
                blob += bytes(-len(blob) % unit)
                notes.append((name, nt, nn, nd.hex()))
        elif kind == "comment":
            blob = b"".join(c.encode() + b"\0" for c in body)
            comment = "\n".join(c for c in body if c) or None
        else:
            blob = body
        table.append(dict(name=name, type=ty, flags=flags, addr=addr, blob=blob, size=size, link=link, info=info, align=al, entsize=ents))
    symbols = []
    extra = []
    for i, (ty, syms) in enumerate(spec["tables"]):
        tab = Strtab(spec["share"])
        blob = b""
        for name, value, size, bind, typ, other, shndx in syms:
            if 0 < shndx < 0xFF00:
                shndx = start - 1 + shndx if shndx <= nuser else 0
            no = tab.add(name)
            if b64:
                blob += pk("IBBHQQ", no, bind << 4 | typ, other, shndx, value, size)
            else:
                blob += pk("IIIBBH", no, value, size, bind << 4 | typ, other, shndx)
            symbols.append(dict(symbol_name=name, st_name=no, st_value=value, st_size=size, st_bind=bind, st_type=typ, st_other=other, st_shndx=shndx))
        me = start + nuser + 2 * i
        nm = ".symtab" if ty == SYMTAB else ".dynsym"
        extra.append(dict(name=nm, type=ty, flags=0, addr=0, blob=blob, size=None, link=me + 1, info=0, align=8, entsize=24 if b64 else 16))
        extra.append(dict(name=".strtab" if ty == SYMTAB else ".dynstr", type=STRTAB, flags=0, addr=0, blob=bytes(tab.data), size=None, link=0, info=0, align=1, entsize=0))
    names = dict(name=".shstrtab", type=STRTAB, flags=0, addr=0, blob=b"", size=None, link=0, info=0, align=1, entsize=0)
    if first:
        table = [table[0], names] + table[1:] + extra
    else:
        table = table + extra + [names]
    tab = Strtab(spec["share"])
    for s in table:
        s["sh_name"] = tab.add(s["name"])
    names["blob"] = bytes(tab.data)
    shstrndx = table.index(names)
    if shape != "normal":
        shstrndx = 0
        for s in table:
            s["name"] = ""
    if shape == "no section table":
        table = []

    ehsize = 64 if b64 else 52
    shent = 64 if b64 else 40
    phent = 56 if b64 else 32
    # file layout: the pieces in an arbitrary order, with padding.
    pieces = [("sh", None), ("ph", None)] + [("sec", s) for s in table if s["blob"] is not None]
    k = spec["order"]
    laid = []
    rest = list(pieces)
    while rest:
        k, j = divmod(k * 7919 + 13, len(rest))
        laid.append(rest.pop(j))
    pos = ehsize
    off = {}
    for i, (what, s) in enumerate(laid):
        pos += spec["pads"][i % 3]
        size = shent * len(table) if what == "sh" else phent * len(spec["segs"]) if what == "ph" else len(s["blob"])
        if what == "sec":
            s["offset"] = pos
        else:
            off[what] = pos
        pos += size
    for s in table:
        s.setdefault("offset", 0)
        if s["size"] is None:
            s["size"] = len(s["blob"])
    h = spec["hdr"]
    ident = b"\x7fELF" + bytes([2 if b64 else 1, 1 if spec["le"] else 2, 1, h["osabi"], h["abiversion"]]) + b"\0" * 7
    head = ident + pk(
        "HHI" + A * 3 + "IHHHHHH",
        h["type"], h["machine"], h["version"], h["entry"], off["ph"] if spec["segs"] else 0, off["sh"] if table else 0, h["flags"],
        ehsize, phent, len(spec["segs"]), shent, len(table), shstrndx,
    )  # fmt: skip
    out = bytearray(pos)
    out[: len(head)] = head
    for what, s in laid:
        if what == "sec":
            out[s["offset"] : s["offset"] + len(s["blob"])] = s["blob"]
        elif what == "sh":
            b = b""
            for t in table:
                if b64:
                    b += pk("IIQQQQIIQQ", t["sh_name"], t["type"], t["flags"], t["addr"], t["offset"], t["size"], t["link"], t["info"], t["align"], t["entsize"])
                else:
                    b += pk("IIIIIIIIII", t["sh_name"], t["type"], t["flags"], t["addr"], t["offset"], t["size"], t["link"], t["info"], t["align"], t["entsize"])
            out[off["sh"] : off["sh"] + len(b)] = b
        else:
            b = b""
            for ty, po, va, pa, fs, ms, fl, al in spec["segs"]:
                b += pk("IIQQQQQQ", ty, fl, po, va, pa, fs, ms, al) if b64 else pk("IIIIIIII", ty, po, va, pa, fs, ms, fl, al)
            out[off["ph"] : off["ph"] + len(b)] = b
    w.blob = bytes(out)
    w.ident = ident
    w.header = dict(
        ei_class=2 if b64 else 1, ei_data=1 if spec["le"] else 2, ei_version=1, ei_osabi=h["osabi"], ei_abiversion=h["abiversion"],
        e_type=h["type"], e_machine=h["machine"], e_version=h["version"], e_entry=h["entry"], e_phoff=off["ph"] if spec["segs"] else 0,
        e_shoff=off["sh"] if table else 0, e_flags=h["flags"], e_ehsize=ehsize, e_phentsize=phent, e_phnum=len(spec["segs"]), e_shentsize=shent,
        e_shnum=len(table), e_shstrndx=shstrndx,
    )  # fmt: skip
    w.sections = [
        dict(
            index=i, section_name=s["name"], sh_name=s["sh_name"], sh_type=s["type"], sh_flags=s["flags"], sh_addr=s["addr"], sh_offset=s["offset"],
            sh_size=s["size"], sh_link=s["link"], sh_info=s["info"], sh_addralign=s["align"], sh_entsize=s["entsize"],
            section_image=s["blob"] if s["blob"] and s["type"] not in (SHT_NULL, NOBITS) else None,
        )
        for i, s in enumerate(table)
    ]  # fmt: skip
    for s in symbols:
        nd = s["st_shndx"]
        if nd in SPECIAL:
            s["section_name"], s["access"] = SPECIAL[nd], 0
        elif nd >= 0xFF00:
            s["section_name"], s["access"] = str(nd), 0
        else:
            s["section_name"], s["access"] = table[nd]["name"], table[nd]["flags"]
    w.symbols = symbols
    w.segments = [dict(p_type=t, p_offset=o, p_vaddr=v, p_paddr=p, p_filesz=f, p_memsz=m, p_flags=fl, p_align=al) for t, o, v, p, f, m, fl, al in spec["segs"]]
    w.notes = notes if shape == "normal" else [("",) + n[1:] for n in notes]
    w.comment = comment if shape == "normal" else None
    w.le, w.b64 = spec["le"], b64
    return w


class Opened:
    """with Opened(path) as parser: ... - leaves no open database behind."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        from objutils.elf import ElfParser

        try:
            self.parser = ElfParser(self.path)
        except BaseException:
            gc.collect()
            raise
        return self.parser

    def __exit__(self, *exc):
        close(self.parser)


def close(parser):
    try:
        parser.session.close()
    finally:
        parser.db.close()
    gc.collect(0)


def write(path, blob):
    with open(path, "wb") as f:
        f.write(blob)


def remove(path):
    for p in (path, path + "-journal"):
        if os.path.exists(p):
            os.unlink(p)
