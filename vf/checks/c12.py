"""C12: a binary diff is a complete, minimal and reversible account of the change."""

from hypothesis import strategies as st

from objutils.utils.diff import diff_bin

from vf import gen
from vf.core import Sub, Violation, raises, require, same

PROPERTY = "C12"
RULE = (
    "Case = two byte strings, the second often derived from the first by edits (point changes, runs, at the very start/end, "
    "truncation, extension). Oracle: positionwise comparison; patching both ways. Non-trivial: at least one modification run."
)
ASSUMPTIONS = []


@st.composite
def pairs(draw):
    a = bytearray(draw(st.one_of(st.binary(max_size=60), st.lists(st.sampled_from([0, 1, 0xFF]), max_size=40).map(bytes))))
    if draw(st.integers(0, 4)) == 0:
        b = bytearray(draw(st.one_of(st.binary(max_size=60), st.lists(st.sampled_from([0, 1, 0xFF]), max_size=40).map(bytes))))
    else:
        b = bytearray(a)
        for pos, run in draw(st.lists(st.tuples(st.integers(-4, 60), st.binary(min_size=1, max_size=4)), max_size=5)):
            if b:
                pos = pos % len(b)
                for i, x in enumerate(run):
                    if pos + i < len(b):
                        b[pos + i] = x
        cut = draw(st.integers(-3, 5))
        if cut < 0:
            b = b[: len(b) + cut]
        elif cut > 2:
            b += draw(st.binary(min_size=1, max_size=6))
    return bytes(a), bytes(b), draw(st.booleans()), draw(st.booleans())


def expected(a, b):
    res = []
    n = min(len(a), len(b))
    i = 0
    while i < n:
        if a[i] != b[i]:
            j = i
            while j < n and a[j] != b[j]:
                j += 1
            res.append(("M", i, a[i:j], b[i:j]))
            i = j
        else:
            i += 1
    if len(b) > len(a):
        res.append(("A", len(a), None, b[len(a) :]))
    elif len(a) > len(b):
        res.append(("D", len(b), a[len(b) :], None))
    return res


def norm(diffs):
    return [(d.type, d.offset, None if d.a is None else bytes(d.a), None if d.b is None else bytes(d.b)) for d in diffs]


def patch(src, diffs, which):
    out = bytearray(src)
    for typ, off, a, b in diffs:
        old, new = (a, b) if which == "b" else (b, a)
        old, new = old or b"", new or b""
        require(bytes(out[off : off + len(old)]) == old, "entry at {} doesn't match the original", off)
        out[off : off + len(old)] = new
    return bytes(out)


def diff(case, ctx):
    a, b, ba, bb = case
    got = norm(diff_bin(bytearray(a) if ba else a, bytearray(b) if bb else b))
    same(patch(a, got, "b"), b, "a, patched with the diff")
    same(patch(b, got, "a"), a, "b, patched backwards")
    same(got, expected(a, b), f"diff_bin({a.hex()[:200]}, {b.hex()[:200]})")
    same(got == [], a == b, "empty diff")
    ctx.event("runs %d" % min(4, sum(1 for d in got if d[0] == "M")))
    ctx.event("tail " + (got[-1][0] if got and got[-1][0] != "M" else "-"))
    ctx.nontrivial(any(d[0] == "M" for d in got))


@st.composite
def huge(draw):
    """Big images: few differences, far apart; long runs; long tails."""
    size = draw(st.sampled_from([255, 257, 4095, 4096, 65535, 65536, 65537, 200001]))
    seed = draw(st.integers(0, 1 << 32))
    edits = draw(st.lists(st.tuples(st.one_of(st.integers(0, size - 1), st.sampled_from([0, size - 1])), st.sampled_from([1, 1, 2, 255, 256, 257, 70000])), max_size=4))
    return size, seed, edits, draw(st.sampled_from([0, 0, 1, -1, 300, -300, 70000, -size])), draw(st.booleans())


def big(case, ctx):
    size, seed, edits, tail, swap = case
    a = gen.expand(seed, size)
    b = bytearray(a)
    for pos, n in edits:
        for i in range(pos, min(size, pos + n)):
            b[i] ^= 1 + (i + n) % 255
    b = bytes(b) + gen.expand(seed + 1, tail) if tail > 0 else bytes(b[: max(0, size + tail)])
    if swap:
        a, b = b, a
    diff((a, b, False, False), ctx)


def subs():
    return [
        Sub("big", huge(), big, quick=160, thorough=8000, shards=4),
        Sub("diff", pairs(), diff, quick=8000, thorough=300000, shards=8),
    ]
