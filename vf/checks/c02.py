"""C02: written files conform to their format (independent strict decoders)."""

from hypothesis import strategies as st

from vf import gen, refcodecs
from vf.core import Sub, Violation, require, same
from vf.hexutil import dumps, image

PROPERTY = "C02"
RULE = (
    "Case = disjoint blocks x row length per codec. Oracle: a strict decoder written from the format description, sharing no "
    "code with objutils; it checks framing, counts, checksums, end records and yields the records. Non-trivial: several records."
)
ASSUMPTIONS = ["Blocks are non-empty and do not overlap; row length fits the count field of the format."]


def check_records(codec, recs, want, row):
    cells = 0
    if row is not None:
        for a, d in recs:
            require(1 <= len(d) <= row, "{}: record of {} bytes at 0x{:x}, row length is {}", codec, len(d), a, row)
    prev = None
    for a, d in sorted(recs):
        require(prev is None or a >= prev, "{}: records overlap at 0x{:x}", codec, a)
        prev = a + len(d)
        cells += len(d)
    same(gen.canonical(recs), want, f"{codec}: content according to an independent decoder")


def conform(codec):
    def fn(case, ctx):
        blks, row, join = case
        want = gen.canonical(blks)
        blob = dumps(codec, image(blks, join=join), row)
        try:
            recs = refcodecs.DECODE[codec](blob)
        except (refcodecs.FormatError, ValueError) as e:
            raise Violation(f"{codec}: file is not well-formed: {e}; {blob[:200]!r}") from e
        check_records(codec, recs, want, None if codec == "shf" else row)
        ctx.event("several records", len(recs) > 1)
        ctx.event("above 64K", want[-1][0] + len(want[-1][1]) > 0x10000)
        ctx.nontrivial(len(recs) > 1)

    return fn


def strat(codec):
    bits = gen.CODECS[codec][0] or 64
    return st.tuples(gen.blocks(bits, 4), gen.rowlens(codec), st.booleans())


def big_strategy(codec):
    bits = gen.CODECS[codec][0] or 40
    top = (1 << bits) - 1
    return st.tuples(
        st.lists(st.tuples(gen.addresses(bits, 0x8000), st.integers(-2, 6), gen.data(1, 64, 0x14000 if codec == "shf" else 0x9000)), min_size=1, max_size=2).map(
            lambda raw: gen._layout(raw, top)
        ),
        gen.rowlens(codec),
        st.just(True),
    )


def subs():
    res = [Sub(f"wr_{c}", strat(c), conform(c), quick=500, thorough=20000, shards=2) for c in gen.TEXT_CODECS]
    res += [Sub(f"big_{c}", big_strategy(c), conform(c), quick=60, thorough=1500, shards=2) for c in ("ihex", "srec", "etek", "ash", "shf")]
    return res
