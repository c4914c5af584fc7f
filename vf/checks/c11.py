"""C11: variable-length and fixed-size integer decoding."""

import io
import struct
import time

from hypothesis import strategies as st

from objutils.dwarf import encoding
from objutils.readers import PlainBinaryReader

from vf.core import Sub, raises, require, same

PROPERTY = "C11"
RULE = (
    "Case = a sequence of items (LEB128 of any size incl. padded encodings, fixed-size integers, strings) serialised independently "
    "and read back one after the other, byte order explicit; plus all encodings of up to two bytes. Non-trivial: a multi-byte LEB128."
)
ASSUMPTIONS = ["Truncated input is out of scope except that it must not decode to a value."]


def uleb(v, pad=0):
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        if v == 0:
            out.append(b)
            break
        out.append(b | 0x80)
    if pad:
        out[-1] |= 0x80
        out += b"\x80" * (pad - 1) + b"\0"
    return bytes(out)


def sleb(v, pad=0):
    out = bytearray()
    neg = v < 0
    while True:
        b = v & 0x7F
        v >>= 7
        if (v == 0 and not b & 0x40) or (v == -1 and b & 0x40):
            out.append(b)
            break
        out.append(b | 0x80)
    if pad:
        out[-1] |= 0x80
        fill = 0x7F if neg else 0
        out += bytes([fill | 0x80]) * (pad - 1) + bytes([fill])
    return bytes(out)


BIG = st.one_of(
    st.integers(0, 300),
    st.integers(0, 1 << 70),
    st.integers(0, 75).flatmap(lambda k: st.integers(-2, 2).map(lambda d: max(0, (1 << k) + d))),
)
SIGNED = st.one_of(BIG, BIG.map(lambda v: -v))
PAD = st.sampled_from([0, 0, 0, 1, 2, 5])
FIXED = {"u8": "B", "s8": "b", "u16": "H", "s16": "h", "u32": "I", "s32": "i", "u64": "Q", "s64": "q"}


def fixed(name):
    n = struct.calcsize("=" + FIXED[name])
    lo, hi = (0, (1 << 8 * n) - 1) if name[0] == "u" else (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    return st.tuples(st.just(name), st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, 0, hi // 2, hi // 2 + 1])), st.just(0))


ITEM = st.one_of(
    st.tuples(st.just("uleb"), BIG, PAD),
    st.tuples(st.just("sleb"), SIGNED, PAD),
    st.tuples(st.just("sleb"), SIGNED, PAD),
    st.sampled_from(sorted(FIXED)).flatmap(fixed),
    st.tuples(st.just("asciiz"), st.binary(max_size=12).map(lambda b: b.replace(b"\0", b"x")), st.just(0)),
)


def serialise(item, order):
    kind, v, pad = item
    if kind == "uleb":
        return uleb(v, pad)
    if kind == "sleb":
        return sleb(v, pad)
    if kind == "asciiz":
        return v + b"\0"
    n = struct.calcsize("=" + FIXED[kind])
    bo = {"<": "little", ">": "big"}.get(order)
    if bo is None:
        import sys

        bo = sys.byteorder
    return v.to_bytes(n, bo, signed=kind[0] == "s")


def reader(case, ctx):
    items, order = case
    parts = [serialise(i, order) for i in items]
    blob = b"".join(parts)
    rd = PlainBinaryReader(io.BytesIO(blob), order) if order is not None else PlainBinaryReader(io.BytesIO(blob))
    same(rd.size, len(blob), "size")
    pos = 0
    for (kind, v, pad), raw in zip(items, parts):
        same(rd.pos, pos, "position")
        got = getattr(rd, kind)()
        if kind == "asciiz":
            v = v.decode("latin1")
        same(got, v, f"{kind} of {raw.hex()} (byte order {order})")
        require(type(got) is type(v), "{}: type {}", kind, type(got))
        pos += len(raw)
    same(rd.pos, len(blob), "position at the end")
    # random access: every item can be read again on its own
    for k in (len(items) - 1, 0):
        rd.pos = sum(map(len, parts[:k]))
        v = items[k][1]
        same(getattr(rd, items[k][0])(), v.decode("latin1") if isinstance(v, bytes) else v, f"item {k} read again")
    rd.pos = len(blob)
    same(rd.pos, len(blob), "position moved to the end")
    require(raises((struct.error, TypeError, EOFError), rd.next_byte), "a byte beyond the end")
    rd.reset()
    same(rd.next_byte(), blob[0], "first byte after reset()")
    ctx.event("order %s" % order)
    ctx.nontrivial(any(k in ("uleb", "sleb") and len(p) > 1 for (k, _, _), p in zip(items, parts)))


def leb_constructs(case, ctx):
    v, pad, tail = case
    for name, con, ser, val in (
        ("ULEB", encoding.ULEB, uleb, abs(v)),
        ("SLEB", encoding.SLEB, sleb, v),
    ):
        raw = ser(val, pad)
        stream = io.BytesIO(raw + tail)
        same(con.parse_stream(stream), val, f"{name} of {raw.hex()}")
        same(stream.tell(), len(raw), f"{name} of {raw.hex()}: bytes consumed")
        same(con.build(val), ser(val), f"{name}: encoding of {val}")
        same(con.parse(con.build(val)), val, f"{name} round trip of {val}")
        if len(raw) > 1:
            require(
                raises(Exception, con.parse, raw[:-1]),
                "{}: truncated {} decodes to a value",
                name,
                raw[:-1].hex(),
            )
    if v < 0:
        require(raises(Exception, encoding.ULEB.build, v), "ULEB: negative number {} encoded", v)
    ctx.nontrivial(len(uleb(abs(v))) > 1)


def short_cases():
    return range(256)


def short(first, ctx):
    """All encodings of one and two bytes."""
    seqs = [bytes([first])] if first < 0x80 else [bytes([first, b]) for b in range(0x80)]
    for raw in seqs:
        u = sum((b & 0x7F) << (7 * i) for i, b in enumerate(raw))
        s = u - (1 << (7 * len(raw))) if raw[-1] & 0x40 else u
        same(encoding.ULEB.parse(raw), u, f"ULEB {raw.hex()}")
        same(encoding.SLEB.parse(raw), s, f"SLEB {raw.hex()}")
        same(PlainBinaryReader(io.BytesIO(raw)).uleb(), u, f"uleb {raw.hex()}")
        same(PlainBinaryReader(io.BytesIO(raw)).sleb(), s, f"sleb {raw.hex()}")
    ctx.nontrivial()


def blocks(case, ctx):
    """Length-prefixed DWARF blocks, addresses and string references."""
    kind, big, dat, tail, num = case
    bo = "big" if big else "little"
    endian = encoding.Endianess.Big if big else encoding.Endianess.Little
    if kind in ("block1", "block2", "block4", "uleb"):
        if kind != "block1":
            dat = dat * (1, 1, 1, 2, 40, 257)[num % 6]
        con, width = {
            "block1": (encoding.Block1, 1),
            "block2": (encoding.Block2b if big else encoding.Block2l, 2),
            "block4": (encoding.Block4b if big else encoding.Block4l, 4),
            "uleb": (encoding.BlockUleb, 0),
        }[kind]
        raw, want = (len(dat).to_bytes(width, bo) if width else uleb(len(dat))) + dat, dat
        got = lambda s: bytes(con.parse_stream(s))  # noqa: E731
        same(con.build(dat), raw, f"{kind} ({bo}-endian): encoding of {len(dat)} bytes")
        if dat:
            require(raises(Exception, con.parse, raw[:-1]), "{}: truncated block decodes to a value", kind)
    elif kind.startswith("addr"):
        n = int(kind[4:])
        con = encoding.Address(n, endian)
        want = num % (1 << (8 * n))
        raw = want.to_bytes(n, bo)
        got = con.parse_stream
        same(con.build(want), raw, f"{kind}: build")
    elif kind == "strings":
        want = [t.hex() for t in dat.split(b"z") if t]
        raw = b"".join(t.encode() + b"\0" for t in want) + b"\0"
        got = encoding.ArrayOfCStrings().parse_stream
    else:
        table = b"".join(t + b"\0" for t in (b"", dat.replace(b"\0", b"y").hex().encode(), b"end"))
        offs = num % (table.index(b"\0end") + 1)
        want = table[offs : table.index(b"\0", offs)].decode()
        raw = offs.to_bytes(4, bo)
        got = encoding.StrP(table, endian).parse_stream
    stream = io.BytesIO(raw + tail)
    same(got(stream), want, f"{kind} ({bo}-endian) of {raw[:40].hex()}")
    same(stream.tell(), len(raw), f"{kind}: bytes consumed")
    ctx.event(kind)
    ctx.nontrivial(len(raw) > 1)


def filenames(case, ctx):
    """File tables of line programs."""
    entries, tail = case
    raw = b"".join(name.encode() + b"\0" + uleb(d, p) + uleb(t) + uleb(n) for name, d, t, n, p in entries) + b"\0"
    stream = io.BytesIO(raw + tail)
    got = encoding.FilenameSequence().parse_stream(stream)
    same(sorted(got), list(range(1, len(entries) + 1)), "file numbers")
    for i, (name, d, t, n, _) in enumerate(entries, 1):
        same((got[i].name, got[i].dir_index, got[i].length), (name, d, n), f"file #{i}")
        require(isinstance(got[i].last_modified, str) and time.ctime(t) == got[i].last_modified, "file #{}: time {!r}", i, got[i].last_modified)
    same(stream.tell(), len(raw), "bytes consumed")
    ctx.nontrivial(len(entries) > 1)


def subs():
    return [
        Sub(
            "filenames",
            st.tuples(
                st.lists(st.tuples(st.text("abcXYZ._/-019 ", min_size=1, max_size=12), BIG, st.integers(0, 1 << 31), BIG, PAD), max_size=5),
                st.binary(max_size=3),
            ),
            filenames,
            quick=1000,
            thorough=20000,
            shards=1,
        ),
        Sub("reader", st.tuples(st.lists(ITEM, min_size=1, max_size=8), st.sampled_from(["<", ">", "<", ">", "@", None])), reader, quick=6000, thorough=200000, shards=4),
        Sub("leb_constructs", st.tuples(SIGNED, PAD, st.binary(max_size=3)), leb_constructs, quick=4000, thorough=150000, shards=2),
        Sub("short_encodings", None, short, cases=short_cases, shards=2),
        Sub(
            "blocks",
            st.tuples(
                st.sampled_from(["block1", "block2", "block4", "uleb", "addr1", "addr2", "addr4", "addr8", "strp", "strings"]),
                st.booleans(),
                st.one_of(st.binary(max_size=40), st.integers(100, 255).map(lambda n: b"z" * n)),
                st.binary(max_size=4),
                st.one_of(st.integers(0, 1 << 64), st.integers(0, 100)),
            ),
            blocks,
            quick=3000,
            thorough=100000,
            shards=2,
        ),
    ]
