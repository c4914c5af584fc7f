"""Generators for memory images and files (plain data only)."""

import hashlib

from hypothesis import strategies as st

# codec -> (address bits of the writer or None, largest row length its count field can express)
CODECS = {
    "ihex": (32, 255),
    "srec": (32, 250),
    "tek": (16, 255),
    "etek": (64, 116),
    "sig": (16, 255),
    "mostec": (16, 255),
    "emon52": (16, 255),
    "fpc": (16, 251),
    "rca": (16, 300),
    "cosmac": (16, 300),
    "titxt": (16, 300),
    "ash": (16, 300),
    "shf": (None, 300),
}
TEXT_CODECS = sorted(CODECS)
ROW_CODECS = [c for c in TEXT_CODECS if c != "shf"]


def expand(seed, length):
    """Deterministic pseudo-random bytes."""
    return hashlib.shake_128(seed.to_bytes(8, "big")).digest(length)


def _big(t):
    return expand(*t)


def _run(t):
    return bytes([t[0]]) * t[1]


def data(min_size=1, max_size=48, big=0):
    opts = [
        st.binary(min_size=min_size, max_size=max_size),
        st.binary(min_size=min_size, max_size=min(8, max(min_size, max_size))),
        st.tuples(st.sampled_from([0, 0xFF, 0x20, 0x53, 1, 0x80]), st.integers(min_size, max_size)).map(_run),
    ]
    if big:
        opts.append(st.tuples(st.integers(0, 2**32), st.one_of(st.integers(max_size, big), st.integers(big - big // 5, big))).map(_big))
    return st.one_of(opts)


def boundaries(bits):
    pts = {0, 0x10, 0x100, 0xFFF, 0x1000, 0x8000}
    for b in (8, 12, 16, 17, 20, 24, 28, 31, 32, 33, 36, 40, 48):
        if b <= bits:
            pts.add(1 << b)
            pts.add((1 << b) - 1)
    for m in (0x20000, 0xF0000, 0x100000, 0x12340000, 0xFFFF0000):
        if m < 1 << bits:
            pts.add(m)
    return sorted(p for p in pts if p < 1 << bits)


def addresses(bits, back=64):
    top = (1 << bits) - 1
    near = st.tuples(st.sampled_from(boundaries(bits) + [top]), st.integers(-back, 8)).map(
        lambda t: min(top, max(0, t[0] + t[1]))
    )
    return st.one_of(st.integers(0, top), near, st.integers(0, min(top, 0x300)), near)


def _layout(raw, top):
    """Turn (address, gapmode, data) draws into disjoint blocks, by construction."""
    blocks = []
    cursor = None
    for addr, mode, dat in sorted(raw, key=lambda r: (r[0], r[1])):
        if cursor is not None:
            if mode < 0 or addr < cursor:  # adjacent or small gap
                addr = cursor + (0 if mode < 2 else mode - 1)
        if addr + len(dat) - 1 > top:
            addr = top + 1 - len(dat)
            if addr < 0 or (cursor is not None and addr < cursor):
                continue
        blocks.append((addr, dat))
        cursor = addr + len(dat)
    return blocks


@st.composite
def blocks(draw, bits, max_blocks=4, max_size=48, big=0, shuffled=True, min_blocks=1):
    """Disjoint, possibly adjacent, non-empty blocks [(address, bytes)], in any order."""
    raw = draw(
        st.lists(
            st.tuples(addresses(bits), st.integers(-2, 6), data(1, max_size, big)), min_size=min_blocks, max_size=max_blocks
        )
    )
    rare = draw(st.integers(0, 39)) if max_blocks > 2 else None
    if rare in (1, 2):  # one of many rows
        size = draw(st.integers(100, 700))
        raw.append((max(0, draw(st.sampled_from(boundaries(bits))) - draw(st.integers(0, size))), 0, expand(draw(st.integers(0, 1 << 30)), size)))
    if rare == 0:  # many of them
        n, size, mode = draw(st.tuples(st.integers(7, 40), st.integers(1, 5), st.sampled_from([-1, 2, 3, 6])))
        raw += [(0, mode, bytes([i] * size)) for i in range(n)]
    res = _layout(raw, (1 << bits) - 1)
    if shuffled and len(res) > 1 and draw(st.booleans()):
        res = draw(st.permutations(res))
    return list(res)


def runs(cells):
    """dict address->byte -> maximal runs [(address, bytes)]."""
    out = []
    for a in sorted(cells):
        if out and out[-1][0] + len(out[-1][1]) == a:
            out[-1][1].append(cells[a])
        else:
            out.append((a, bytearray([cells[a]])))
    return [(a, bytes(d)) for a, d in out]


def canonical(blks):
    """Maximal runs of disjoint blocks (no per-byte dict: blocks may be large)."""
    out = []
    for a, d in sorted((a, bytes(d)) for a, d in blks):
        if not d:
            continue
        if out and out[-1][0] + len(out[-1][1]) == a:
            out[-1] = (out[-1][0], out[-1][1] + d)
        else:
            out.append((a, d))
    return out


def content(img):
    """Observable content of an Image: [(address, bytes)] in iteration order."""
    return [(s.start_address, bytes(s.data)) for s in img]


def rowlens(codec):
    top = CODECS[codec][1]
    return st.one_of(st.just(16), st.integers(1, 8), st.sampled_from([16, 32, min(64, top), top, top - 1]), st.integers(1, top))
