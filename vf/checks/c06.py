"""C06: writer options and meta data mean what they say."""

from hypothesis import strategies as st

import objutils
from objutils.hexfile import MetaRecord
from objutils.srec import S0, S5, S7, S8, S9

from vf import gen
from vf import refcodecs as rc
from vf.core import Sub, Violation, raises, require, same
from vf.hexutil import dumps, image

PROPERTY = "C06"
RULE = (
    "Case = blocks x row length x S-record options (record type, count record, start address, header records, up to 65536 records) or ash/titxt "
    "separator, or an option the format doesn't have. Oracle: independent record parser. Non-trivial: at least one option set."
)
ASSUMPTIONS = ["The start address fits the record type in use."]


@st.composite
def srec_case(draw):
    bits = draw(st.sampled_from([16, 24, 32]))
    blks = draw(gen.blocks(bits, 3, max_size=30))
    highest = max(a + len(d) - 1 for a, d in blks)
    least = 1 if highest < 1 << 16 else 2 if highest < 1 << 24 else 3
    rt = draw(st.one_of(st.none(), st.integers(least, 3)))
    eff = rt or least
    start = draw(st.one_of(st.none(), st.integers(0, (1 << (8 * (eff + 1))) - 1), st.integers(0, 300)))
    s5 = draw(st.one_of(st.none(), st.booleans()))
    heads = draw(st.lists(st.tuples(st.sampled_from([0, 0, 1, 0x1234, 0xFFFF]), st.binary(min_size=1, max_size=20)), max_size=2))
    return blks, draw(st.integers(1, 250)), rt, s5, start, heads, least


def srec(case, ctx):
    blks, row, rt, s5, start, heads, least = case
    eff = rt or least
    opts = {}
    if rt is not None:
        opts["record_type"] = rt
    if s5 is not None:
        opts["s5record"] = s5
    if start is not None:
        opts["start_address"] = start
    meta = {S0: [MetaRecord(S0, a, bytearray(d)) for a, d in heads]} if heads else {}
    img = image(blks, meta=meta)
    blob = dumps("srec", img, row, **opts)
    try:
        recs = [rc.srec_parse(ln) for ln in blob.decode("ascii").split("\n") if ln]
    except (rc.FormatError, ValueError) as e:
        raise Violation(f"not well-formed: {e}: {blob[:300]!r}") from e
    datar = [r for r in recs if r[0] in (1, 2, 3)]
    same({k for k, _, _ in datar}, {eff}, "type of the data records")
    same(gen.canonical([(a, d) for _, a, d in datar]), gen.canonical(blks), "content")
    require(all(len(d) <= row for _, _, d in datar), "row length exceeded")
    same([(a, bytes(d)) for k, a, d in recs if k == 0], heads, "header records")
    same([k for k, _, _ in recs[: len(heads)]], [0] * len(heads), "header records come first")
    tail = recs[len(heads) + len(datar) :]
    want_tail = []
    if s5:
        want_tail.append((5, len(datar), b""))
    if start is not None:
        want_tail.append((10 - eff, start, b""))
    same(tail, want_tail, "trailing records")
    # ... and the reader hands the meta data back.
    back = objutils.loads("srec", blob)
    same(gen.content(back), gen.canonical(blks), "read back")
    got = {k: [(m.address, None if m.chunk is None else bytes(m.chunk)) for m in v] for k, v in back.meta.items() if v}
    want = {}
    if heads:
        want[S0] = heads
    if s5:
        want[S5] = [(len(datar), None)]
    if start is not None:
        want[{1: S9, 2: S8, 3: S7}[eff]] = [(start, None)]
    same(got, want, "meta data read back")
    # Written once more (with the same options) it is the same file.
    again = dumps("srec", back, row, **opts)
    same(again, dumps("srec", image(gen.canonical(blks), meta=meta), row, **opts), "second generation file")
    ctx.event("count record", bool(s5))
    ctx.event("start record", start is not None)
    ctx.event("header", bool(heads))
    ctx.event("record type wider than necessary", eff > least)
    ctx.nontrivial(bool(opts) or bool(heads))


def termination(case, ctx):
    """A termination record of the image's meta data doesn't leak into one of another type."""
    blks, was, rt, address, start = case
    meta = {{1: S9, 2: S8, 3: S7}[was]: [MetaRecord({1: S9, 2: S8, 3: S7}[was], address, None)]}
    lines = dumps("srec", image(blks, meta=meta), 16, record_type=rt, start_address=start).decode("ascii").split()
    kind, got, data = rc.srec_parse(lines[-1])
    same((kind, bytes(data)), (10 - rt, b""), "termination record")
    if was == rt:
        require(got in (start, address), "start address {:x}: neither as requested ({:x}) nor as in the meta data ({:x})", got, start, address)
    else:
        same(got, start, "start address")
        ctx.nontrivial(address != start)


def many(case, ctx):
    """Count records of files with many records."""
    rt, rows, row, extra = case
    size = rows * row - extra % row
    start = 0 if rt == 1 else 0x1F000
    if rt == 1 and size > 0x10000:
        size, rows = 0x10000, -(-0x10000 // row)
    blob = dumps("srec", image([(start, bytes(size))]), row, record_type=rt, s5record=True)
    lines = blob.decode("ascii").split()
    same(len(lines), rows + 1, "number of records")
    try:
        same(rc.srec_parse(lines[-1]), (5, rows, b""), "count record")
    except (rc.FormatError, ValueError) as e:
        raise Violation(f"not well-formed: {e}: {lines[-1]!r}") from e
    back = objutils.loads("srec", blob)
    same([(a, len(d)) for a, d in gen.content(back)], [(start, size)], "read back")
    same([m.address for m in back.meta[S5]], [rows], "count record read back")
    ctx.event("more than 255 records", rows > 255)
    ctx.event("more than 65535 records", rows > 0xFFFF)
    ctx.nontrivial(rows > 255)


MANY = st.tuples(
    st.integers(1, 3),
    st.one_of(st.integers(1, 400), st.sampled_from([255, 256, 257, 511, 512]), st.integers(400, 3000)),
    st.integers(1, 5),
    st.integers(0, 4),
)
HUGE = st.tuples(st.integers(1, 3), st.sampled_from([0xFFFF, 0x10000, 0x10001]), st.just(1), st.just(0))


def separators(case, ctx):
    codec, sep, blks, row = case
    blob = dumps(codec, image(blks), row, separator=sep)
    try:
        if codec == "ash":
            recs = rc.dec_ash(blob, sep)
        else:
            recs = rc.dec_titxt(blob.replace(b",", b" ") if sep == "," else blob)
            require(sep != "," or b" " not in blob, "separator not honoured: {}", blob[:200])
    except (rc.FormatError, ValueError) as e:
        raise Violation(f"{codec} with separator {sep!r}: {e}: {blob[:300]!r}") from e
    same(gen.canonical(recs), gen.canonical(blks), f"{codec} with separator {sep!r}")
    same(gen.content(objutils.loads(codec, blob)), gen.canonical(blks), f"{codec} with separator {sep!r} read back")
    same(dumps(codec, image(blks), row), dumps(codec, image(blks), row, separator=" "), "default separator")
    ctx.nontrivial(sep != " ")


OPTIONS = {"srec": {"record_type", "s5record", "start_address"}, "ash": {"separator"}, "titxt": {"separator"}}


def unknown(case, ctx):
    codec, name, blks = case
    img = image(blks)
    require(
        raises(AttributeError, dumps, codec, img, None, **{name: 1}),
        "{}: unknown option {!r} silently accepted",
        codec,
        name,
    )
    # ... and nothing sticks.
    same(gen.content(objutils.loads(codec, dumps(codec, img))), gen.canonical(blks), "write after a refused option")
    ctx.nontrivial()


def subs():
    return [
        Sub("srec", srec_case(), srec, quick=3000, thorough=100000, shards=6),
        Sub(
            "termination",
            st.tuples(gen.blocks(16, 2), st.integers(1, 3), st.integers(1, 3), st.integers(0, 0xFFFF), st.integers(0, 0xFFFF)),
            termination,
            quick=200,
            thorough=4000,
        ),
        Sub("many", MANY, many, quick=300, thorough=6000, shards=2),
        Sub("huge", HUGE, many, quick=8, thorough=20, shards=2),
        Sub(
            "separator",
            st.one_of(
                st.tuples(st.just("ash"), st.sampled_from([" ", "%", "'", ","]), gen.blocks(16, 3), st.integers(1, 60)),
                st.tuples(st.just("titxt"), st.sampled_from([" ", ","]), gen.blocks(16, 3), st.integers(1, 60)),
            ),
            separators,
            quick=1000,
            thorough=30000,
        ),
        Sub(
            "unknown_option",
            st.tuples(
                st.sampled_from(gen.ROW_CODECS),
                st.one_of(st.sampled_from(["nonsense", "s5records", "recordtype", "startaddress", "filler", "rowlength", "valid"]), st.text("abcdefghijkl", min_size=9, max_size=12)),
                gen.blocks(16, 2),
            ),
            unknown,
            quick=400,
            thorough=4000,
            shards=2,
        ),
    ]
