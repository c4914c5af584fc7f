"""C21: plain binary files: gaps filled, everything at its offset."""

import io

from hypothesis import strategies as st

import objutils

from vf import gen
from vf.core import Sub, Violation, raises, require, same
from vf.hexutil import KeepOpen, Scratch, image

PROPERTY = "C21"
RULE = (
    "Case = disjoint blocks within a window (gaps of 0..300 bytes, any base address, any order) x filler (int, one byte, default, "
    "or invalid) x route. Oracle: byte array painted by address. Non-trivial: at least one gap."
)
ASSUMPTIONS = ["Blocks don't overlap."]


@st.composite
def cases(draw):
    base = draw(gen.addresses(40))
    n = draw(st.integers(1, 5))
    blks, cur = [], base
    for _ in range(n):
        cur += draw(st.sampled_from([0, 0, 1, 2, 15, 16, 300])) if blks else 0
        d = draw(gen.data(1, 20))
        blks.append((cur, d))
        cur += len(d)
    if draw(st.booleans()):
        blks = draw(st.permutations(blks))
    filler = draw(st.one_of(st.none(), st.integers(0, 255), st.binary(min_size=1, max_size=1)))
    nulls = draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, cur - base - 1), min_size=1, max_size=3)))
    return list(blks), filler, draw(st.sampled_from(["dumps", "dump-fp", "dump-path", "dump-over"])), draw(st.booleans()), nulls


def write(case, ctx):
    blks, filler, how, join, nulls = case
    base = min(a for a, _ in blks)
    end = max(a + len(d) for a, d in blks)
    fill = 0xFF if filler is None else filler if isinstance(filler, int) else filler[0]
    want = bytearray([fill]) * (end - base)
    for a, d in blks:
        want[a - base : a - base + len(d)] = d
    want = bytes(want)
    # sections without data within the area don't count
    img = image([*((base + p, b"") for p in nulls), *blks] if len(blks) % 2 else [*blks, *((base + p, b"") for p in nulls)], join=join)
    kws = {} if filler is None else {"filler": filler}
    if how == "dumps":
        got = bytes(objutils.dumps("bin", img, **kws))
    elif how == "dump-fp":
        fp = KeepOpen()
        objutils.dump("bin", fp, img, **kws)
        got = fp.final if fp.closed else fp.getvalue()
    else:
        with Scratch() as tmp:
            if how == "dump-over":
                with open(tmp.path("x.bin"), "wb") as f:
                    f.write(want + b"longer" * 10)
            objutils.dump("bin", tmp.path("x.bin"), img, **kws)
            with open(tmp.path("x.bin"), "rb") as f:
                got = f.read()
            back = objutils.load("bin", tmp.path("x.bin"), base)
            same(gen.content(back), [(base, want)], "file read back")
    same(got, want, f"binary file of {blks!r} with filler {filler!r}")
    same(gen.content(objutils.loads("bin", got, base)), [(base, want)], "read back at the original address")
    same(gen.content(objutils.loads("bin", got)), [(0, want)], "read back without address")
    gaps = end - base != sum(len(d) for _, d in blks)
    ctx.event("gaps", gaps)
    ctx.event("empty sections", bool(nulls))
    ctx.event("filler " + type(filler).__name__)
    ctx.nontrivial(gaps)


def read(case, ctx):
    data, text, address, how, form = case
    if how == "str":
        data = text.encode("ascii")
    kws, args = {"kw": ({"address": address}, ()), "pos": ({}, (address,)), "none": ({}, ())}[form]
    want = [(address if args or kws else 0, data)]
    if how == "str":
        img = objutils.loads("bin", text, *args, **kws)
    elif how in ("bytes", "bytearray", "memoryview"):
        img = objutils.loads("bin", {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}[how](data), *args, **kws)
    elif how == "fp":
        img = objutils.load("bin", io.BytesIO(data), *args, **kws)
    else:
        with Scratch() as tmp:
            with open(tmp.path("x.bin"), "wb") as f:
                f.write(data)
            if how == "path":
                img = objutils.load("bin", tmp.path("x.bin"), *args, **kws)
            else:
                with open(tmp.path("x.bin"), "rb") as f:
                    img = objutils.load("bin", f, *args, **kws)
    same(gen.content(img), want, f"bin data given as {how}, {args} {kws}")
    ctx.event(how)
    ctx.nontrivial(want[0][0] != 0)


def invalid(case, ctx):
    blks, filler = case
    require(
        raises((TypeError, ValueError), objutils.dumps, "bin", image(blks), filler=filler),
        "filler {!r} accepted",
        filler,
    )
    ctx.nontrivial()


def subs():
    return [
        Sub("write", cases(), write, quick=4000, thorough=100000, shards=6),
        Sub(
            "read",
            st.tuples(
                gen.data(1, 60),
                st.text(st.characters(max_codepoint=127), min_size=1, max_size=30),
                gen.addresses(40),
                st.sampled_from(["str", "str", "bytes", "bytearray", "memoryview", "fp", "path", "file"]),
                st.sampled_from(["kw", "pos", "pos", "none"]),
            ),
            read,
            quick=800,
            thorough=20000,
            shards=1,
        ),
        Sub(
            "invalid_filler",
            st.tuples(gen.blocks(16, 3), st.one_of(st.integers(256, 70000), st.integers(-500, -1), st.just(b""), st.binary(min_size=2, max_size=5), st.text(min_size=1, max_size=2), st.floats(0, 255))),
            invalid,
            quick=300,
            thorough=4000,
            shards=1,
        ),
    ]
