"""C01: what is written can be read back, for every codec."""

from hypothesis import strategies as st

import objutils
from objutils import Section

from vf import gen
from vf.core import Sub, same
from vf.hexutil import READ_VIAS, WRITE_VIAS, dumps, expect_content, image, read_via, write_via

PROPERTY = "C01"
RULE = (
    "Case = disjoint blocks (addresses uniform, near powers of two / 64K boundaries / top of the codec's address space; "
    "random, constant and large data; any order; adjacent or gapped) x row length x input/output variant. Non-trivial: more than "
    "one block, more than one row, an address above 0xFFFF, a file ending at the top of the address space, or a non-default route."
)
ASSUMPTIONS = [
    "Blocks are non-empty and do not overlap; row length fits the format's count field; shf/bin have no row length.",
]


def case_strategy(codec):
    bits = gen.CODECS[codec][0] or 64
    return st.tuples(
        gen.blocks(bits, 4),
        gen.rowlens(codec),
        st.booleans(),
        st.sampled_from(WRITE_VIAS + ["dumps"] * 4),
        st.sampled_from(READ_VIAS + ["bytes"] * 4),
    )


def roundtrip(codec):
    bits = gen.CODECS[codec][0] or 64

    def fn(case, ctx):
        blks, row, join, wvia, rvia = case
        want = gen.canonical(blks)
        img = image(blks, join=join)
        blob = write_via(wvia, codec, img, row)
        back = read_via(rvia, codec, blob)
        expect_content(back, want, f"{codec} round trip")
        if len(blks) == 1 and codec != "shf":  # a bare section is accepted as well
            one = dumps(codec, Section(*blks[0]), row)
            expect_content(objutils.loads(codec, one), want, f"{codec} round trip of a Section")
        # canonical: what was read writes the same file again
        same(dumps(codec, back, row), dumps(codec, image(want), row), f"{codec}: second generation file")
        top = want[-1][0] + len(want[-1][1])
        ctx.event("top of address space", top == 1 << bits)
        ctx.event("above 64K", top > 0x10000)
        ctx.event("several blocks", len(blks) > 1)
        ctx.event("several rows", any(len(d) > row for _, d in want))
        ctx.event("via " + wvia)
        ctx.event("via " + rvia)
        ctx.nontrivial(
            len(blks) > 1 or top > 0x10000 or top == 1 << bits or any(len(d) > row for _, d in want) or wvia != "dumps" or rvia != "bytes"
        )

    return fn


def big_strategy():
    def mk(codec):
        bits = gen.CODECS[codec][0] or 40
        top = (1 << bits) - 1
        return st.tuples(
            st.just(codec),
            st.lists(
                st.tuples(gen.addresses(bits, 0x8000), st.integers(-2, 6), gen.data(1, 64, 0x8000 if bits == 16 else 0x14000)),
                min_size=1,
                max_size=2,
            ).map(lambda raw: gen._layout(raw, top)),
            st.sampled_from([16, 32, 64, gen.CODECS[codec][1]]),
        )

    return st.sampled_from(gen.TEXT_CODECS + ["ihex", "srec", "etek"]).flatmap(mk)


def big(case, ctx):
    codec, blks, row = case
    want = gen.canonical(blks)
    back = objutils.loads(codec, dumps(codec, image(blks), row))
    expect_content(back, want, f"{codec} round trip (large)")
    crossing = any(a >> 16 != (a + len(d) - 1) >> 16 for a, d in want)
    ctx.event("crosses a 64K boundary", crossing)
    ctx.event("more than 16K bytes", sum(len(d) for _, d in want) > 0x4000)
    ctx.nontrivial(crossing or sum(len(d) for _, d in want) > 1000)


@st.composite
def chain_strategy(draw):
    codecs = draw(st.lists(st.sampled_from(gen.TEXT_CODECS), min_size=2, max_size=5))
    bits = min(gen.CODECS[c][0] or 64 for c in codecs)
    return codecs, draw(gen.blocks(bits, 3)), draw(st.integers(1, 122))


def chain(case, ctx):
    codecs, blks, row = case
    img = image(blks)
    want = gen.canonical(blks)
    for codec in codecs:
        img = objutils.loads(codec, dumps(codec, img, row))
        expect_content(img, want, f"conversion chain {codecs} at {codec}")
    ctx.nontrivial(len(set(codecs)) > 1)


def subs():
    res = [Sub(f"rt_{c}", case_strategy(c), roundtrip(c), quick=500, thorough=20000, shards=2) for c in gen.TEXT_CODECS]
    res.append(Sub("big", big_strategy(), big, quick=160, thorough=4000, shards=4))
    res.append(Sub("chain", chain_strategy(), chain, quick=400, thorough=10000, shards=2))
    return res
