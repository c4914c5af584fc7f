"""C10: checksums agree with bit-serial / arithmetic definitions."""

from hypothesis import strategies as st

from objutils import checksums as cs

from vf.core import Sub, raises, require, same

PROPERTY = "C10"
RULE = (
    "Case = algorithm x frame (0..300 random bytes, sparse and constant frames included; plus all 65536 two-byte and all 256 "
    "one-byte frames for the CRCs), large frames whose sums wrap around, and CRCs with polynomials, reflections and final values of one's own. Oracle: bit-serial CRC, modular arithmetic written from the definitions. Non-trivial: frame "
    "longer than one byte. Error detection: CRCs differ for any two frames that differ in one bit or in a burst of up to 16 bits."
)
ASSUMPTIONS = ["Word sums (ADD22/24/44) are defined for frames that are a whole number of words, given as bytes."]


def crc_bits(data, width, poly, init, refin, refout, xorout):
    top = 1 << (width - 1)
    mask = (1 << width) - 1
    reg = init
    for byte in data:
        for i in range(8):
            bit = (byte >> (i if refin else 7 - i)) & 1
            fb = bit ^ ((reg & top) != 0)
            reg = (reg << 1) & mask
            if fb:
                reg ^= poly
    if refout:
        reg = int(f"{reg:0{width}b}"[::-1], 2)
    return reg ^ xorout


REF = {
    "CHK_ADD_11": lambda d: sum(d) % 2**8,
    "CHK_ADD_12": lambda d: sum(d) % 2**16,
    "CHK_ADD_14": lambda d: sum(d) % 2**32,
    "CHK_ADD_22": lambda d: sum(d[i] + 256 * d[i + 1] for i in range(0, len(d), 2)) % 2**16,
    "CHK_ADD_24": lambda d: sum(d[i] + 256 * d[i + 1] for i in range(0, len(d), 2)) % 2**32,
    "CHK_ADD_44": lambda d: sum(int.from_bytes(d[i : i + 4], "little") for i in range(0, len(d), 4)) % 2**32,
    "CHK_CRC_16": lambda d: crc_bits(d, 16, 0x8005, 0, True, True, 0),
    "CHK_CRC_16_CCITT": lambda d: crc_bits(d, 16, 0x1021, 0xFFFF, False, False, 0),
    "CHK_CRC_32": lambda d: crc_bits(d, 32, 0x04C11DB7, 0xFFFFFFFF, True, True, 0xFFFFFFFF),
}
WORD = {"CHK_ADD_22": 2, "CHK_ADD_24": 2, "CHK_ADD_44": 4}

FRAMES = st.one_of(
    st.binary(max_size=300),
    st.binary(max_size=20),
    st.tuples(st.sampled_from([0, 0xFF, 0x80]), st.integers(0, 600)).map(lambda t: bytes([t[0]]) * t[1]),
)


def algo(case, ctx):
    name, frame, as_list = case
    k = WORD.get(name, 1)
    frame = frame[: len(frame) // k * k]
    arg = list(frame) if as_list else frame
    same(cs.check(arg, name), REF[name](frame), f"{name}({frame.hex()})")
    same(cs.check(bytearray(frame), name), REF[name](frame), f"{name} of a bytearray")
    ctx.event(name)
    ctx.nontrivial(len(frame) > 1)


def burst(case, ctx):
    name, frame, pos, pattern = case
    if not frame:
        frame = b"\0"
    width = 32 if name.endswith("32") else 16
    pattern = (pattern % ((1 << width) - 1)) + 1
    while not pattern & 1:
        pattern >>= 1
    # A burst is contiguous in transmission order, which is LSB first for the reflected CRCs.
    order = "big" if "CCITT" in name else "little"
    nbits = 8 * len(frame)
    span = pattern.bit_length()
    if span > nbits:
        pattern, span = 1, 1
    shift = pos % (nbits - span + 1)
    value = int.from_bytes(frame, order) ^ (pattern << shift)
    other = value.to_bytes(len(frame), order)
    require(cs.check(frame, name) != cs.check(other, name), "{}: {} and {} (burst error) collide", name, frame.hex(), other.hex())
    ctx.nontrivial()


def short_cases():
    for name in ("CHK_CRC_16", "CHK_CRC_16_CCITT", "CHK_CRC_32"):
        for hi in range(256):
            yield name, hi


def short_frames(case, ctx):
    name, hi = case
    same(cs.check(bytes([hi]), name), REF[name](bytes([hi])), f"{name}({hi:02x})")
    for lo in range(256):
        frame = bytes([hi, lo])
        same(cs.check(frame, name), REF[name](frame), f"{name}({frame.hex()})")
    ctx.nontrivial()


def simple(case, ctx):
    frame, width, comp, inv, left = case
    s = sum(frame) % (1 << width)
    want = {"none": s, "ones": (1 << width) - 1 - s, "twos": -s % (1 << width)}[comp]
    code = {"none": cs.COMPLEMENT_NONE, "ones": cs.COMPLEMENT_ONES, "twos": cs.COMPLEMENT_TWOS}[comp]
    same(cs.lrc(list(frame), width, code), want, f"lrc({frame.hex()}, {width}, {comp})")
    same(cs.lrc(frame, width, code), want, f"lrc({frame.hex()}, {width}, {comp}) of bytes")
    x = 0xFF if inv else 0
    for b in frame:
        x ^= b
    same(cs.xor(list(frame), inv), x, f"xor({frame.hex()}, {inv})")
    r = 0
    for b in frame:
        r ^= b
        r = ((r << 1) | (r >> 7)) & 0xFF if left else ((r >> 1) | (r << 7)) & 0xFF
    for bits in {8, min(width, 8)}:
        got = cs.rotatedXOR(list(frame), bits, cs.ROTATE_LEFT if left else cs.ROTATE_RIGHT)
        same(got, r % (1 << bits), f"rotatedXOR({frame.hex()}, {bits}, left={left})")
    same(cs.nibble_sum(list(frame)), sum(int(c, 16) for c in frame.hex()) & 0xFF, f"nibble_sum({frame.hex()})")
    ctx.nontrivial(len(frame) > 1)


def rot_cases():
    return range(256)


def rotate(v, ctx):
    same(cs.ROTATE_LEFT(v), ((v << 1) | (v >> 7)) & 0xFF, f"rotate left {v:02x}")
    same(cs.ROTATE_RIGHT(v), ((v >> 1) | (v << 7)) & 0xFF, f"rotate right {v:02x}")
    ctx.nontrivial(v > 0)


def large_cases():
    for name in sorted(REF):
        for size, kind in ((0xFFFF, "ff"), (0x10004, "mixed"), (0x20010, "ff"), (0x11000, "80")):
            yield name, size, kind
    for name in ("CHK_ADD_11", "CHK_ADD_12", "CHK_ADD_14", "CHK_ADD_24"):
        yield name, 0x1010110, "ff"  # sum of bytes beyond 2**32


def large(case, ctx):
    name, size, kind = case
    size -= size % WORD.get(name, 1)
    frame = {"ff": b"\xff" * size, "80": b"\x80" * size, "mixed": bytes(i * i * 7 + (i >> 8) & 0xFF for i in range(size)) if kind == "mixed" else b""}[kind]
    if kind == "ff" and name.startswith("CHK_ADD"):
        k = WORD.get(name, 1)
        want = (size // k) * (256**k - 1) % {"11": 2**8, "12": 2**16, "22": 2**16}.get(name[-2:], 2**32)
    else:
        want = REF[name](frame)
    same(cs.check(frame, name), want, f"{name} of {size} bytes ({kind})")
    ctx.nontrivial()


def custom(case, ctx):
    poly, init, final, refin, refout, frame, modulus = case
    table = [crc_bits(bytes([i]), 16, poly, 0, False, False, 0) for i in range(256)]
    crc = cs.Crc16(table, init, final, refin, refout)
    for _ in range(2):
        same(crc(frame), crc_bits(frame, 16, poly, init, refin, refout, final), f"CRC {poly:04x} {init:04x} {refin} {refout} {final:04x} of {frame.hex()}")
    for bits in (1, 7, 8, 16, 32):
        same(cs.reflect(poly & ((1 << bits) - 1), bits), int(f"{poly & ((1 << bits) - 1):0{bits}b}"[::-1], 2), f"reflect({poly}, {bits})")
    same(cs.adder(modulus)(frame), sum(frame) % modulus, f"adder({modulus})({frame.hex()})")
    words = frame[: len(frame) // 4 * 4]
    for step in (2, 4):
        want = sum(int.from_bytes(words[i : i + step], "little") for i in range(0, len(words), step)) % modulus
        same(cs.wordSum(modulus, step)(words), want, f"wordSum({modulus}, {step})({words.hex()})")
    for bad in ("CHK_CRC_8", "chk_crc_16", "", "CHK_USER_DEFINED"):
        require(raises(NotImplementedError, cs.check, frame, bad), "algorithm {!r} isn't refused", bad)
    same(sorted(cs.ALGO), sorted(cs.Algorithm.__members__), "offered algorithms")
    ctx.nontrivial(len(frame) > 1 and (refin != refout or final))


U16 = st.integers(0, 0xFFFF)


def subs():
    return [
        Sub("large", None, large, cases=large_cases, shards=8),
        Sub(
            "custom",
            st.tuples(U16, U16, U16, st.booleans(), st.booleans(), st.binary(max_size=40), st.one_of(st.integers(1, 1 << 33), st.sampled_from([1, 255, 256, 65535, 65536, 1 << 32]))),
            custom,
            quick=1500,
            thorough=60000,
            shards=4,
        ),
        Sub("algorithms", st.tuples(st.sampled_from(sorted(REF)), FRAMES, st.booleans()), algo, quick=4000, thorough=150000, shards=4),
        Sub("short_frames", None, short_frames, cases=short_cases, shards=8),
        Sub("rotate", None, rotate, cases=rot_cases, shards=1),
        Sub(
            "burst_errors",
            st.tuples(
                st.sampled_from(["CHK_CRC_16", "CHK_CRC_16_CCITT", "CHK_CRC_32"]),
                st.binary(min_size=1, max_size=60),
                st.integers(0, 1 << 20),
                st.integers(0, 1 << 32),
            ),
            burst,
            quick=3000,
            thorough=100000,
            shards=2,
        ),
        Sub(
            "simple",
            st.tuples(FRAMES, st.one_of(st.sampled_from([8, 16, 32]), st.integers(1, 40)), st.sampled_from(["none", "ones", "twos"]), st.booleans(), st.booleans()),
            simple,
            quick=3000,
            thorough=100000,
            shards=2,
        ),
    ]
