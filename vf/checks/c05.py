"""C05: images outside a format's address space are refused, all others are written."""

import os

from hypothesis import strategies as st

import objutils
from objutils.hexfile import AddressRangeToLargeError

from vf import gen
from vf.core import Sub, Violation, require
from vf.hexutil import Scratch, dumps, expect_content, image

PROPERTY = "C05"
RULE = (
    "Case = codec (and S-record type) x blocks whose last byte lies at the top of the address space + delta, delta in -40..+40 or "
    "far away. Expected: refused with AddressRangeToLargeError iff some byte lies beyond the address space, target file untouched; "
    "otherwise the file reads back identically. Non-trivial: the last byte is within 40 bytes of the limit, or beyond it."
)
ASSUMPTIONS = ["Address spaces: 16 bits (ash, cosmac, emon52, fpc, mostec, rca, sig, tek, titxt, S1), 64 (etek), 24 (S2), 32 (ihex, S3)."]

VARIANTS = [(c, None, gen.CODECS[c][0]) for c in gen.ROW_CODECS] + [("srec", 1, 16), ("srec", 2, 24), ("srec", 3, 32)]


@st.composite
def cases(draw):
    codec, rt, bits = draw(st.sampled_from(VARIANTS))
    top = (1 << bits) - 1
    last = draw(
        st.one_of(
            st.integers(-40, 40).map(lambda d: top + d),
            st.integers(0, 3).map(lambda d: top + d),
            st.integers(top + 1, top * 256 + 5),
            st.sampled_from([1, 2, 4, 8, 16]).map(lambda k: top + (1 << (bits + k))),
            st.integers(0, top),
        )
    )
    dat = draw(st.binary(min_size=1, max_size=60))
    dat = dat[: last + 1]
    blks = [(last + 1 - len(dat), dat)]
    for a, d in draw(gen.blocks(bits, 2, max_size=12, min_blocks=0)):
        if a + len(d) <= blks[0][0]:
            blks.append((a, d))
    if draw(st.booleans()):
        blks.reverse()
    return codec, rt, bits, blks, draw(gen.rowlens(codec)), draw(st.integers(0, 3)), draw(st.booleans())


def limits(case, ctx):
    codec, rt, bits, blks, row, to_file, join = case
    highest = max(a + len(d) - 1 for a, d in blks)
    img = image(blks, join=join)
    opts = {} if rt is None else {"record_type": rt}
    ctx.event("%s within 40 bytes of the limit" % codec, abs(highest - (1 << bits)) <= 40)
    ctx.nontrivial(highest >= (1 << bits) - 40)
    if highest < 1 << bits:
        expect_content(objutils.loads(codec, dumps(codec, img, row, **opts)), gen.canonical(blks), f"{codec} (highest 0x{highest:x})")
        return
    ctx.event("beyond")
    try:
        out = dumps(codec, img, row, **opts)
    except AddressRangeToLargeError:
        pass
    else:
        raise Violation(f"{codec} (record type {rt}): image up to 0x{highest:x} written as {out[-200:]!r}")
    if to_file == 0:
        with Scratch() as tmp:
            p = tmp.path("precious.hex")
            with open(p, "wb") as f:
                f.write(b"precious")
            try:
                objutils.dump(codec, p, img, row_length=row, **opts)
            except AddressRangeToLargeError:
                pass
            else:
                raise Violation(f"{codec}: dump() of an image up to 0x{highest:x} was not refused")
            with open(p, "rb") as f:
                require(f.read() == b"precious", "{}: refused dump() destroyed the existing file", codec)
            require(os.listdir(tmp.dir) == ["precious.hex"], "{}: refused dump() left files behind", codec)
        ctx.event("file untouched")


def subs():
    return [Sub("limits", cases(), limits, quick=6000, thorough=200000, shards=8)]
