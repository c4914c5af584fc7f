"""Reference model of typed memory access: ops on a bytearray, with struct."""

import struct
from array import array

from hypothesis import strategies as st

INTS = {"uint8": (1, False), "int8": (1, True), "uint16": (2, False), "int16": (2, True), "uint32": (4, False), "int32": (4, True), "uint64": (8, False), "int64": (8, True)}
FLOATS = {"float32": (4, "f"), "float64": (8, "d")}
SIZES = {**{k: v[0] for k, v in INTS.items()}, **{k: v[0] for k, v in FLOATS.items()}, "byte": 1}
KINDS = sorted(SIZES)


def limits(kind):
    if kind == "byte":
        return 0, 255
    n, signed = INTS[kind]
    return (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)


def name(kind, order):
    return kind if kind == "byte" else f"{kind}_{order}"


def spelled(addr, kind, order):
    """Types are named without regard to case and surrounding blanks."""
    n = name(kind, order)
    return {5: n.upper(), 6: " " + n.title(), 7: n + " "}.get(addr % 11, n)


def to_bytes(value, kind, order):
    if kind in FLOATS:
        return struct.pack((">" if order == "be" else "<") + FLOATS[kind][1], value)
    n, signed = INTS.get(kind, (1, False))
    return int(value).to_bytes(n, "big" if order == "be" else "little", signed=signed)


def from_bytes(raw, kind, order):
    if kind in FLOATS:
        return struct.unpack((">" if order == "be" else "<") + FLOATS[kind][1], raw)[0]
    return int.from_bytes(raw, "big" if order == "be" else "little", signed=INTS.get(kind, (1, False))[1])


def mask_bytes(raw, mask, order):
    bo = "big" if order == "be" else "little"
    return (int.from_bytes(raw, bo) & mask).to_bytes(len(raw), bo)


def same_value(a, b, kind):
    if kind in FLOATS:
        return isinstance(a, float) and struct.pack("<d", a) == struct.pack("<d", b)
    return type(a) is int and a == b


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def values(kind):
    if kind == "float32":
        return st.one_of(st.floats(width=32, allow_nan=False), st.sampled_from([0.0, -0.0, 1.5, float("inf"), 1e-45]))
    if kind == "float64":
        return st.floats(allow_nan=False)
    lo, hi = limits(kind)
    return st.one_of(st.integers(lo, hi), st.sampled_from(sorted({lo, hi, 0, 1, lo + 1, hi - 1, hi // 2, hi // 3})))


def bad_values(kind):
    if kind in FLOATS:
        return st.sampled_from(["x", None])
    lo, hi = limits(kind)
    return st.one_of(st.sampled_from([lo - 1, hi + 1, hi * 2 + 5]), st.sampled_from(["x", None]))


KIND = st.sampled_from(KINDS)
ORDER = st.sampled_from(["le", "be"])


TEXT = st.one_of(
    st.text(st.characters(min_codepoint=1, max_codepoint=0x7F), max_size=12),
    st.text(st.characters(min_codepoint=1, max_codepoint=0xFF), max_size=12),
    st.text(st.characters(min_codepoint=1, max_codepoint=0x20AC, exclude_categories=("Cs",)), max_size=6),
)
NAMES = (
    ["rnum"] * 4 + ["wnum"] * 5 + ["rarr"] * 3 + ["warr"] * 3 + ["read", "write"] * 2 + ["rstr"] * 2 + ["wstr"] * 2
    + ["rnd", "wnd"] * 2 + ["wnumbad", "warrbad", "baddtype"]
)


def op_strategy(rel):
    """One typed operation at a relative address drawn from `rel`."""

    @st.composite
    def op(draw):
        name_ = draw(st.sampled_from(NAMES))
        at = draw(rel)
        order = draw(ORDER)
        kind = draw(KIND)
        if name_ in ("rnum", "wnum"):
            mask = None
            if kind not in FLOATS and draw(st.integers(0, 2)) == 0:
                mask = draw(st.integers(0, (1 << (8 * SIZES[kind])) - 1))
            if name_ == "rnum":
                return name_, at, kind, order, mask
            return name_, at, kind, order, draw(values(kind)), mask
        if name_ == "wnumbad":
            return name_, at, kind, order, draw(bad_values(kind))
        few = max(1, 12 // SIZES[kind])
        if name_ == "rarr":
            return name_, at, kind, order, draw(st.integers(0, few))
        if name_ == "warr":
            return name_, at, kind, order, draw(st.lists(values(kind), max_size=few)), draw(st.sampled_from(["list", "tuple"]))
        if name_ == "warrbad":
            return name_, at, kind, order, draw(st.lists(values(kind), max_size=3)), draw(bad_values(kind))
        if name_ == "read":
            return name_, at, draw(st.integers(0, 24))
        if name_ == "write":
            return name_, at, draw(st.binary(max_size=16)), draw(st.sampled_from(["bytes", "bytearray", "list", "array B", "array H", "view", "view I", "numpy"]))
        if name_ == "rstr":
            return name_, at, draw(st.sampled_from(["latin1", "latin1", "ascii", "utf8"])), draw(st.one_of(st.just(-1), st.integers(0, 12)))
        if name_ == "wstr":
            return name_, at, draw(TEXT), draw(st.sampled_from(["latin1", "ascii", "utf8", "utf8"]))
        if name_ == "rnd":
            shape = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3 if SIZES[kind] > 2 else 4))
            return name_, at, kind, order, shape, draw(st.sampled_from([None, "C", "F"]))
        if name_ == "wnd":
            return name_, at, kind, order, draw(st.lists(values(kind), min_size=1, max_size=few)), draw(st.sampled_from([0, 1, 2, 3, 3, 4, 5, 5, 6, 6]))
        dt = draw(st.sampled_from(["uint16", "uint24_le", "uint16_me", "int_le", "float16_le", "", "foo_be"]))
        return name_, at, dt, draw(st.booleans())

    return op()


def plan(op, mem, offset):
    """-> (kind, payload, new_mem or None).

    kind: 'ok' (payload = expected result or checker), 'bounds' (InvalidAddressError), 'error' (some Exception).
    `mem` is the memory of the section that contains the address; offset relative to it.
    """
    name_ = op[0]
    size = len(mem)

    def fits(n):
        return 0 <= offset and offset + n <= size

    if name_ == "read":
        n = op[2]
        return ("ok", bytes(mem[offset : offset + n]), None) if fits(n) else ("bounds", None, None)
    if name_ == "write":
        dat = op[2]
        if not fits(len(dat)):
            return "bounds", None, None
        return "ok", None, mem[:offset] + dat + mem[offset + len(dat) :]
    if name_ == "rnum":
        _, _, kind, order, mask = op
        n = SIZES[kind]
        if not fits(n):
            return "bounds", None, None
        raw = bytes(mem[offset : offset + n])
        if mask is not None:
            raw = mask_bytes(raw, mask, order)
        return "ok", from_bytes(raw, kind, order), None
    if name_ == "wnum":
        _, _, kind, order, value, mask = op
        n = SIZES[kind]
        if not fits(n):
            return "bounds", None, None
        new = to_bytes(value, kind, order)
        if mask is not None:
            old = bytes(mem[offset : offset + n])
            keep = mask_bytes(old, ~mask, order)
            new = bytes(a | b for a, b in zip(mask_bytes(new, mask, order), keep))
        return "ok", None, mem[:offset] + new + mem[offset + n :]
    if name_ == "wnumbad":
        n = SIZES[op[2]]
        return ("error", None, None) if fits(n) else ("anyerror", None, None)
    if name_ == "rarr":
        _, _, kind, order, cnt = op
        n = SIZES[kind]
        if not fits(n * cnt):
            return "bounds", None, None
        return "ok", tuple(from_bytes(bytes(mem[offset + i * n : offset + (i + 1) * n]), kind, order) for i in range(cnt)), None
    if name_ == "warr":
        _, _, kind, order, vals, _ = op
        new = b"".join(to_bytes(v, kind, order) for v in vals)
        if not fits(len(new)):
            return "bounds", None, None
        return "ok", None, mem[:offset] + new + mem[offset + len(new) :]
    if name_ == "warrbad":
        return "anyerror", None, None
    if name_ == "rstr":
        _, _, encoding, length = op
        if offset < 0:
            return "bounds", None, None
        if length == -1:
            end = bytes(mem).find(b"\0", offset)
            if end == -1:
                return ("unterminated", None, None)
            raw = bytes(mem[offset:end])
        else:
            if not fits(length):
                return "bounds", None, None
            raw = bytes(mem[offset : offset + length])
        try:
            return "ok", raw.decode(encoding), None
        except UnicodeDecodeError:
            return "error", None, None
    if name_ == "wstr":
        _, _, text, encoding = op
        try:
            new = text.encode(encoding) + b"\0"
        except UnicodeEncodeError:
            return "anyerror", None, None
        if not fits(len(new)):
            return "bounds", None, None
        return "ok", None, mem[:offset] + new + mem[offset + len(new) :]
    if name_ == "rnd":
        _, _, kind, order, shape, how = op
        cnt = 1
        for s in shape:
            cnt *= s
        n = SIZES[kind]
        if not fits(n * cnt):
            return "bounds", None, None
        flat = [from_bytes(bytes(mem[offset + i * n : offset + (i + 1) * n]), kind, order) for i in range(cnt)]
        return "ok", flat, None
    if name_ == "wnd":
        _, _, kind, order, vals, _ = op
        new = b"".join(to_bytes(v, kind, order) for v in vals)
        if not fits(len(new)):
            return "bounds", None, None
        return "ok", None, mem[:offset] + new + mem[offset + len(new) :]
    if name_ == "baddtype":
        return "anyerror", None, None
    raise KeyError(name_)


def as_container(kind, raw):
    """The bytes as one or another kind of buffer or sequence (items may be wider than a byte)."""
    if kind in ("array H", "view I") and len(raw) % 4 == 0:
        items = array("H" if kind == "array H" else "I")
        items.frombytes(raw)
        return items if kind == "array H" else memoryview(items)
    if kind == "numpy":
        import numpy as np

        return np.frombuffer(raw, dtype="<u2" if len(raw) % 2 == 0 else "u1")
    conv = {"bytes": bytes, "bytearray": bytearray, "list": list, "array B": lambda r: array("B", r)}
    return conv.get(kind, memoryview)(raw)


def perform(obj, op, addr):
    """Run the op on a Section or Image."""
    name_ = op[0]
    if name_ == "read":
        return bytes(obj.read(addr, op[2]))
    if name_ == "write":
        return obj.write(addr, as_container(op[3], op[2]))
    if name_ == "rnum":
        _, _, kind, order, mask = op
        kws = {} if mask is None else {"bit_mask": mask}
        return obj.read_numeric(addr, spelled(addr, kind, order), **kws)
    if name_ == "wnum":
        _, _, kind, order, value, mask = op
        kws = {} if mask is None else {"bit_mask": mask}
        return obj.write_numeric(addr, value, spelled(addr, kind, order), **kws)
    if name_ == "wnumbad":
        return obj.write_numeric(addr, op[4], spelled(addr, op[2], op[3]))
    if name_ == "rarr":
        return obj.read_numeric_array(addr, op[4], spelled(addr, op[2], op[3]))
    if name_ == "warr":
        return obj.write_numeric_array(addr, (list if op[5] == "list" else tuple)(op[4]), spelled(addr, op[2], op[3]))
    if name_ == "warrbad":
        return obj.write_numeric_array(addr, op[4] + [op[5]], spelled(addr, op[2], op[3]))
    if name_ == "rstr":
        style = addr % 4  # Default values, positional and keyword arguments have to mean the same.
        if style == 0:
            return obj.read_string(addr, op[2], op[3])
        kws = {}
        if op[2] != "latin1" or style == 1:
            kws["encoding"] = op[2]
        if op[3] != -1 or style == 2:
            kws["length"] = op[3]
        return obj.read_string(addr, **kws)
    if name_ == "wstr":
        if addr % 3 == 0:
            return obj.write_string(addr, op[2], op[3])
        if op[3] == "latin1" and addr % 3 == 1:
            return obj.write_string(addr, op[2])
        return obj.write_string(addr, op[2], encoding=op[3])
    if name_ == "rnd":
        _, _, kind, order, shape, how = op
        n = SIZES[kind]
        for s in shape:
            n *= s
        if addr % 3 == 0:
            return obj.read_ndarray(addr, n, spelled(addr, kind, order), tuple(shape), how)
        kws = {} if how is None and addr % 3 == 1 else {"order": how}
        if len(shape) == 1 and addr % 2:
            return obj.read_ndarray(addr, n, spelled(addr, kind, order), **kws)
        return obj.read_ndarray(addr, n, spelled(addr, kind, order), shape=tuple(shape), **kws)
    if name_ == "wnd":
        import numpy as np

        _, _, kind, order, vals, layout = op
        dt = np.dtype("uint8" if kind == "byte" else kind).newbyteorder("<" if order == "le" else ">")
        arr = np.array(vals, dtype=dt)
        if layout == 1 and len(vals) % 2 == 0:
            arr = arr.reshape((2, len(vals) // 2))
        elif layout == 2:
            arr = np.repeat(arr, 2)[::2]  # not contiguous
        elif layout == 3:
            arr = np.asfortranarray(arr.reshape((2, -1) if len(vals) % 2 == 0 else (-1, 1)))  # same values, other memory layout
        elif layout == 4:
            arr = arr[::-1].copy()[::-1]
        elif layout == 5:  # column by column
            arr = arr.reshape((-1, 2) if len(vals) % 2 == 0 else (-1, 1)).T
            return obj.write_ndarray(addr, arr.copy() if addr % 2 else arr, order="F")
        elif layout == 6:  # the same with three or four dimensions
            arr = arr.reshape(next(s for s in ((-1, 2, 2), (-1, 3, 2), (-1, 1, 2), (1, -1, 1)) if not len(vals) % (s[1] * s[2]) or s[1] == -1))
            if addr % 3 == 0:
                arr = arr.reshape((arr.shape[0], 1) + arr.shape[1:])
            arr = arr.transpose()
            return obj.write_ndarray(addr, arr.copy() if addr % 2 else arr, order="F")
        if addr % 5 == 2:
            return obj.write_ndarray(addr, arr, "C")
        return obj.write_ndarray(addr, arr)
    if name_ == "baddtype":
        if op[3]:
            return obj.read_numeric(addr, op[2])
        return obj.write_numeric(addr, 0, op[2])
    raise KeyError(name_)


def same_result(op, got, want):
    name_ = op[0]
    if name_ == "rnum":
        if want != want:
            return got != got
        return same_value(got, want, op[2])
    if name_ == "rarr":
        return isinstance(got, tuple) and len(got) == len(want) and all(same_value(g, w, op[2]) or (g != g and w != w) for g, w in zip(got, want))
    if name_ == "rnd":
        import numpy as np

        _, _, kind, order, shape, how = op
        kind = "uint8" if kind == "byte" else kind
        ref = np.array(want, dtype=kind).reshape(shape)
        if how == "F":
            ref = ref.T
        return got.shape == ref.shape and got.dtype.itemsize == np.dtype(kind).itemsize and got.dtype.kind == np.dtype(kind).kind and np.array_equal(got, ref, equal_nan=got.dtype.kind == "f")
    return got == want
