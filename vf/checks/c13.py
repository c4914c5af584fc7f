"""C13: a hexdump shows exactly the bytes that are there."""

import io
import re

from hypothesis import strategies as st

from objutils import Image, Section
from objutils.hexdump import CanonicalDumper

from vf import gen
from vf.core import Sub, Violation, require, same

PROPERTY = "C13"
RULE = (
    "Case = sections made of random and repeated 16-byte rows with a ragged end, at arbitrary addresses. Oracle: an independent "
    "parser reads the dump back (addresses, hex and text column, elided rows, byte count). Non-trivial: more than one row."
)
ASSUMPTIONS = ["Addresses are shown modulo 2**32 (or the width requested)."]

ROW = re.compile(r"([0-9a-f]+)  ?((?:[0-9a-f]{2} )*) *\|(.{16})\|", re.DOTALL)


@st.composite
def sections(draw):
    rows = draw(st.lists(st.one_of(st.binary(min_size=16, max_size=16), st.sampled_from([b"\0" * 16, b"\xff" * 16, b"A" * 16])), max_size=3))
    reps = [draw(st.sampled_from([1, 1, 2, 3, 5])) for _ in rows]
    data = b"".join(r * n for r, n in zip(rows, reps)) + draw(st.one_of(st.just(b""), st.binary(max_size=15), st.sampled_from([b"\0" * 9, b"A" * 16])))
    return draw(gen.addresses(32)), data


def parse(text, start, what, bits=32):
    """-> bytes shown"""
    lines = text.split("\n")
    require(lines and lines[-1] == "", "{}: no final newline", what)
    lines.pop()
    out = bytearray()
    prev = None
    star = False
    it = iter(lines)
    for ln in it:
        if ln == "-" * 15:
            break
        if ln.strip() == "*":
            require(prev is not None and not star, "{}: misplaced '*'", what)
            star = True
            continue
        m = ROW.fullmatch(ln)
        require(m, "{}: cannot parse line {!r}", what, ln)
        same(len(m[1]), bits // 4, f"{what}: digits of address in {ln!r}")
        addr = int(m[1], 16)
        row = bytes.fromhex(m[2])
        pos = (addr - start) % (1 << bits)
        if star:
            require(pos > len(out) and (pos - len(out)) % 16 == 0, "{}: '*' stands for {} bytes", what, pos - len(out))
            require(pos - len(out) < 1 << 20, "{}: address 0x{:x} out of range", what, addr)
            while len(out) < pos:
                out += prev
            star = False
        same(pos, len(out), f"{what}: address of row {ln!r} (offset)")
        require(len(row) <= 16, "{}: row too long", what)
        for i in range(16):
            ch = m[3][i]
            if i >= len(row):
                require(ch == " ", "{}: text column of {!r}", what, ln)
            elif 0x20 <= row[i] < 0x7F:
                require(ch == chr(row[i]), "{}: text column of {!r}", what, ln)
            else:
                require(ch == ".", "{}: text column of {!r}", what, ln)
        out += row
        prev = row
    require(not star, "{}: dump ends with '*'", what)
    cnt = next(it, "")
    m = re.fullmatch(r" *(\d+) bytes", cnt)
    require(m and next(it, "") == "-" * 15, "{}: trailer {!r}", what, cnt)
    same(int(m[1]), len(out), f"{what}: byte count in the trailer")
    return bytes(out), list(it)


def section(case, ctx):
    addr, data = case
    fp = io.StringIO()
    sec = Section(addr, data)
    sec.hexdump(fp)
    out, rest = parse(fp.getvalue(), addr, "Section.hexdump")
    same(out, data, "bytes shown by the dump")
    same(rest, [], "lines after the trailer")
    same(bytes(sec.data), data, "section after the dump")
    fp2 = io.StringIO()
    sec.hexdump(fp2)
    same(fp2.getvalue(), fp.getvalue(), "second dump")
    ctx.event("elided rows", "          *" in fp.getvalue())
    ctx.nontrivial(len(data) > 16)


def image(case, ctx):
    secs = []
    cur = None
    for addr, data in sorted(case):
        if not data or (cur is not None and addr < cur):
            continue
        secs.append((addr, data))
        cur = addr + len(data) + 1
    img = Image([Section(a, d) for a, d in secs])
    fp = io.StringIO()
    img.hexdump(fp)
    text = fp.getvalue()
    parts = re.split(r"(?:^|\n)\nSection #(\d+)\n-+\n", text)
    if not secs:
        same(text.strip(), "", "dump of an empty image")
        return
    parts = re.split(r"\nSection #(\d+)\n-+\n", text)
    same(parts[0], "", "text before the first section")
    same([int(x) for x in parts[1::2]], list(range(len(secs))), "section numbers")
    for (addr, data), body in zip(secs, parts[2::2]):
        out, rest = parse(body, addr, f"Image.hexdump, section 0x{addr:x}")
        same(out, data, f"bytes shown for section 0x{addr:x}")
        same(rest, [], "lines after the trailer")
    same(len(parts[2::2]), len(secs), "number of sections")
    ctx.nontrivial(len(secs) > 1)


def reuse(case, ctx):
    """One dumper for several sections."""
    bits, secs = case
    fp = io.StringIO()
    dumper = CanonicalDumper(fp, bits)
    for addr, data in secs:
        fp.seek(0)
        fp.truncate()
        dumper.dump_data(Section(addr, data))
        out, rest = parse(fp.getvalue(), addr, f"section 0x{addr:x}, {bits} bits", bits)
        same(out, data, "bytes shown by the dump")
        same(rest, [], "lines after the trailer")
    ctx.event(f"{bits} bits")
    ctx.event("same row at end and beginning", any(len(a) > 16 and a[len(a) // 16 * 16 - 16 :][:16] == b[:16] for (_, a), (_, b) in zip(secs, secs[1:])))
    ctx.nontrivial(len(secs) > 1)


@st.composite
def huge(draw):
    """Many rows; long runs of the same row."""
    parts = draw(st.lists(st.tuples(st.integers(0, 1 << 32), st.sampled_from([1, 16, 100, 257, 4097]), st.booleans()), min_size=1, max_size=3))
    return draw(gen.addresses(32)), parts, draw(st.integers(0, 15))


def big(case, ctx):
    addr, parts, rest = case
    data = b"".join(gen.expand(s, 16) * n if rep else gen.expand(s, 16 * n) for s, n, rep in parts) + gen.expand(9, rest)
    fp = io.StringIO()
    Section(addr, data).hexdump(fp)
    out, tail = parse(fp.getvalue(), addr, "Section.hexdump")
    require(out == data, "{} bytes at 0x{:x}: the dump shows other bytes", len(data), addr)
    same(tail, [], "lines after the trailer")
    ctx.event("more than 64 KiB", len(data) > 1 << 16)
    ctx.nontrivial(len(data) > 256)


def subs():
    return [
        Sub("big", huge(), big, quick=120, thorough=6000, shards=4),
        Sub("reuse", st.tuples(st.sampled_from([16, 24, 32, 48, 64]), st.lists(sections(), min_size=1, max_size=4)), reuse, quick=2000, thorough=60000, shards=4),
        Sub("section", sections(), section, quick=4000, thorough=120000, shards=4),
        Sub("image", st.lists(sections(), max_size=4), image, quick=2000, thorough=60000, shards=4),
    ]
