"""C08: typed access to a section means what struct says, in bounds, all or nothing."""

from hypothesis import strategies as st

from objutils import Section
from objutils.exceptions import InvalidAddressError

from vf import gen, typed
from vf.core import Sub, Violation, require, same

PROPERTY = "C08"
RULE = (
    "Case = a section (address, initial bytes) and a history of typed operations (all dtypes, both byte orders, bit masks, "
    "arrays, strings, ndarrays, raw access; in and out of bounds; unencodable values), each compared with a struct-based model; "
    "after every operation the whole section is compared. Non-trivial: at least one successful write and one read."
)
ASSUMPTIONS = ["Lengths are non-negative; strings don't contain NUL; bit masks apply to integer types and fit the type."]


def history_step(sec, mem, start, op, what, ctx):
    """One operation, on the section and its model -> 'read', 'write' or None (refused)."""
    kind, want, new = typed.plan(op, mem, op[1])
    done = None
    try:
        got = typed.perform(sec, op, start + op[1])
    except InvalidAddressError:
        require(kind in ("bounds", "anyerror") or (kind == "unterminated" and op[1] > len(mem)), "{}: refused as out of bounds", what)
        ctx.event("refused: bounds")
    except Exception as e:
        if kind == "unterminated":
            require(isinstance(e, TypeError), "{}: {!r}", what, e)
        elif kind not in ("error", "anyerror"):
            raise Violation(f"{what}: raised {e!r}, expected {kind}") from e
        ctx.event("refused: value")
    else:
        require(kind == "ok", "{}: returned {}, expected {}", what, repr(got)[:80], kind)
        if new is None:
            if op[0] == "rnd" and got.size and len(mem) % 2:  # one's own copy, to be changed at will
                before = got.copy()
                for j, b in enumerate(mem):
                    sec.write(start + j, bytes([b ^ 0xFF]))
                require(got.tobytes() == before.tobytes(), "{}: the array changes along with the section", what)
                sec.write(start, bytes(mem))
                got[...] = 1
                same(bytes(sec.data), bytes(mem), f"{what}: section after changing the array")
                got = before
            require(typed.same_result(op, got, want), "{}: got {}, expected {}", what, repr(got)[:2000], repr(want)[:2000])
            done = "read"
        else:
            mem[:] = new
            done = "write"
        ctx.event("ok " + op[0])
        if op[0] in ("rnum", "wnum") and op[-1] is not None:
            ctx.event("ok with bit mask")
    same((sec.start_address, bytes(sec.data)), (start, bytes(mem)), f"{what}: section afterwards")
    return done


def history(case, ctx):
    start, init, ops = case
    sec = Section(start, init)
    mem = bytearray(init)
    done = set()
    for i, op in enumerate(ops):
        done.add(history_step(sec, mem, start, op, f"step {i}: {op!r} on {len(mem)} bytes at 0x{start:x}", ctx))
    ctx.nontrivial({"read", "write"} <= done)


@st.composite
def bulk(draw):
    """Operations on many bytes of a big section."""
    size = draw(st.sampled_from([300, 1000, 4097, 1 << 16, (1 << 16) + 77, 200000]))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(typed.KIND)
        n = typed.SIZES[kind]
        at = draw(st.one_of(st.sampled_from([0, 1, size - 1, size // 2]), st.integers(0, size)))
        room = size - at + draw(st.sampled_from([0, 0, 0, 0, 1, 9]))  # sometimes too much
        amount = max(0, room if draw(st.booleans()) else draw(st.integers(0, max(room, 0))))
        order = draw(typed.ORDER)
        what = draw(st.sampled_from(["read", "write", "rarr", "warr", "rstr", "rstr", "wstr", "wstr", "rnd", "wnd"]))
        ops.append((what, at, kind, order, amount // n, amount, draw(st.integers(0, 1 << 32))))
    return draw(gen.addresses(32)), draw(st.integers(0, 1 << 32)), size, ops


def big(case, ctx):
    """The same with many elements at once: compared with slices of the bytes."""
    start, seed, size, ops = case
    init = gen.expand(seed, size - 1).replace(b"\0", b"\1") + b"\2\0\0"[seed % 3 :][:1]  # one long string, mostly
    sec = Section(start, init)
    mem = bytearray(init)
    for i, (what, at, kind, order, count, amount, s2) in enumerate(ops):
        n = typed.SIZES[kind]
        raw = gen.expand(s2, count * n)
        if kind in typed.FLOATS:
            raw = b"".join(b"\x3f\x00\x12\x34\x56\x78\x9a\xbc"[:n] for _ in range(count)) if order == "be" else b"\x01" * (count * n)
        vals = [typed.from_bytes(raw[k : k + n], kind, order) for k in range(0, len(raw), n)]
        if what == "read":
            op, new = ("read", at, amount), None
        elif what == "write":
            op = ("write", at, raw, "bytes")
        elif what in ("rarr", "rnd") and kind in typed.FLOATS:
            op = ("read", at, count * n)
        elif what == "rarr":
            op = ("rarr", at, kind, order, count)
        elif what == "warr":
            op = ("warr", at, kind, order, vals, "list")
        elif what == "rnd":
            op = ("rnd", at, kind, order, [count], None)
        elif what == "wnd":
            op = ("wnd", at, kind, order, vals, 0)
        elif what == "rstr":
            op = ("rstr", at, "latin1", -1 if s2 % 2 else amount)
        else:
            op = ("wstr", at, "".join(chr(1 + b % 127) for b in gen.expand(s2, max(0, amount - 1))), "ascii")
        history_step(sec, mem, start, op, f"step {i}: {what} {kind}_{order}, {count} elements, {amount} bytes at +{at} of {size}", ctx)
    ctx.nontrivial(any(o[5] > 256 for o in ops))


def find(case, ctx):
    start, data, needle = case
    import re

    sec = Section(start, data)
    expect = []
    pos = 0
    while needle:
        k = data.find(needle, pos)
        if k < 0:
            break
        expect.append((start + k, len(needle)))
        pos = k + len(needle)
    got = [tuple(x) for x in sec.find(re.escape(needle))]
    same(got, expect, f"find({needle!r})")
    same(bytes(sec.data), data, "section after find")
    ctx.nontrivial(len(expect) > 1)


def pattern(case, ctx):
    """Expressions with wildcards, classes, ... in sections of any size."""
    import re

    start, data, (at, extra), expr = case
    data = (data * (1 + at // max(1, len(data))))[:at] + extra + data
    sec = Section(start, data)
    want = [(start + m.start(), m.end() - m.start()) for m in re.finditer(expr, data)]
    same([tuple(x) for x in sec.find(expr)], want, f"find({expr!r}) in {len(data)} bytes")
    ctx.event("beyond 64K", bool(want) and want[-1][0] - start > 65536)
    ctx.nontrivial(bool(want))


def convert(case, ctx):
    """Whatever is convertible to bytes becomes exactly these bytes."""
    from array import array

    kind, raw, addr = case
    if kind.startswith("array"):
        code = kind[-1]
        n = array(code).itemsize
        raw = raw[: len(raw) // n * n]
        arr = array(code)
        arr.frombytes(raw)
        src = arr
    else:
        src = {
            "bytes": lambda: raw,
            "bytearray": lambda: bytearray(raw),
            "list": lambda: list(raw),
            "tuple": lambda: tuple(raw),
            "generator": lambda: (b for b in raw),
            "memoryview": lambda: memoryview(raw),
            "str": lambda: bytes(b & 0x7F for b in raw).decode("ascii"),
            "section": lambda: Section(7, raw),
        }[kind]()
        if kind == "str":
            raw = bytes(b & 0x7F for b in raw)
    sec = Section(addr, src)
    same(bytes(sec.data), raw, f"Section from {kind}")
    same((len(sec), sec.length, sec.address, sec.tobytes(), sec.tolist()), (len(raw), len(raw), addr, raw, list(raw)), "section attributes")
    for a in (addr - 1, addr, addr + len(raw) - 1, addr + len(raw)):
        same(a in sec, addr <= a < addr + len(raw), f"0x{a:x} in section")
    if kind == "section" and raw:
        sec.write(addr, bytes([raw[0] ^ 0xFF]))
        same(bytes(src.data), raw, "writing to a copy of a section changed the original")
    ctx.event("from " + kind)
    ctx.nontrivial(len(raw) > 1)


def subs():
    rel = st.sampled_from([0, 1, 1, 1, 1, 2]).flatmap(lambda k: (st.integers(0, 8), st.integers(0, 24), st.integers(-3, 66))[k])
    init = st.tuples(st.integers(0, 1 << 40), st.sampled_from([1, 2, 7, 8, 9, 17] + [32, 33, 40, 48, 63, 64] * 3)).map(lambda t: gen.expand(*t))
    return [
        Sub("history", st.tuples(gen.addresses(48), init, st.lists(typed.op_strategy(rel), min_size=2, max_size=14)), history, quick=24000, thorough=600000, shards=8),
        Sub("big", bulk(), big, quick=600, thorough=20000, shards=4),
        Sub(
            "find",
            st.tuples(
                gen.addresses(40),
                st.one_of(st.binary(max_size=40), st.lists(st.sampled_from([65, 66]), max_size=30).map(bytes)),
                st.one_of(st.binary(min_size=1, max_size=3), st.lists(st.sampled_from([65, 66]), min_size=1, max_size=3).map(bytes)),
            ),
            find,
            quick=1000,
            thorough=30000,
            shards=2,
        ),
        Sub(
            "pattern",
            st.tuples(
                gen.addresses(40),
                st.one_of(st.just(b"\0"), st.just(b"\xff\xfe"), st.lists(st.sampled_from(b"AB\n\0"), max_size=12).map(bytes)),
                st.tuples(st.sampled_from([0, 1, 15, 255, 256, 4095, 65535, 65536, 70000]), st.lists(st.sampled_from(b"ABab\n\0\xff"), max_size=6).map(bytes)),
                st.sampled_from([b"A.", b".B", b"^A", b"A$", b"[AB]+", b"[^\0\xff\xfe]+", b"A|\n", b"(A)(B)", b"A{2,}?", b"\\n.", b"ab", b"A\\Z", b"\\bA", b"A B"]),
            ),
            pattern,
            quick=400,
            thorough=10000,
            shards=2,
        ),
        Sub(
            "convert",
            st.tuples(
                st.sampled_from(["bytes", "bytearray", "list", "tuple", "generator", "memoryview", "str", "section", "arrayB", "arrayH", "arrayI", "arrayQ", "arrayb", "arrayd"]),
                st.binary(max_size=40),
                st.integers(1, 2**40),
            ),
            convert,
            quick=1000,
            thorough=30000,
            shards=2,
        ),
    ]
