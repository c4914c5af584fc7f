"""C07: an image behaves like a sparse memory under any history of operations."""

import re
from array import array

from hypothesis import strategies as st

import objutils
from objutils import Image, Section
from objutils.exceptions import InvalidAddressError

from vf import gen, typed
from vf.core import Sub, Violation, raises, require, same

PROPERTY = "C07"
RULE = (
    "Case = an initial list of blocks plus a history of insert (all data kinds, explicit or continued address, joining or not, "
    "overlapping or not), typed reads/writes across gaps and section borders, joins, look-ups. Oracle: list of byte blocks; after "
    "every operation sections, order, lengths, membership and section look-up are compared. Non-trivial: at least two successful "
    "inserts/writes and one refused operation."
)
ASSUMPTIONS = ["Initial blocks don't overlap; empty sections only occur in the sub-check of that name (where they must not show)."]


class Model:
    def __init__(self, blocks, join):
        self.secs = sorted(((a, bytearray(d)) for a, d in blocks), key=lambda s: s[0])
        self.next = 0
        if join:
            self.join()

    def join(self):
        self.secs = [(a, bytearray(d)) for a, d in gen.canonical(self.secs)]

    def at(self, addr):
        for a, d in self.secs:
            if a <= addr < a + len(d):
                return a, d
        return None

    def overlaps(self, addr, n):
        return any(addr < a + len(d) and a < addr + n for a, d in self.secs)

    def insert(self, addr, data, join):
        self.secs.append((addr, bytearray(data)))
        self.secs.sort(key=lambda s: s[0])
        if join:
            self.join()
        self.next = addr + len(data)

    def content(self):
        return [(a, bytes(d)) for a, d in self.secs]


def source(kind, raw):
    """-> (object to insert, the bytes it stands for)"""
    if kind == "arrayH":
        raw = raw + raw[:1] if len(raw) % 2 else raw
        a = array("H")
        a.frombytes(raw)
        return a, raw
    if kind == "arrayI":
        raw = (raw * 4)[: (len(raw) + 3) // 4 * 4]
        a = array("I")
        a.frombytes(raw)
        return a, raw
    if kind == "str":
        return raw.decode("latin1"), raw
    if kind == "section":
        return Section(0x12345, raw), raw
    return {"bytes": bytes, "bytearray": bytearray, "list": list, "tuple": tuple, "arrayB": lambda r: array("B", r)}[kind](raw), raw


def compare(img, model, base, what):
    want = model.content()
    same(gen.content(img), want, f"{what}: sections")
    same(len(img), sum(len(d) for _, d in want), f"{what}: len")
    same([s.start_address for s in img.sections], [a for a, _ in want], f"{what}: section order")
    same([(s.start_address, bytes(s.data)) for s in img], want, f"{what}: iteration")
    same([(img[i].start_address, bytes(img[i].data)) for i in range(len(want))], want, f"{what}: sections by number")
    shown = re.findall(r"address = 0X([0-9A-F]+), length = (\d+)", repr(img))
    same([(int(a, 16), int(n)) for a, n in shown], [(a, len(d)) for a, d in want], f"{what}: repr")
    probes = {base}
    for a, d in want:
        probes.update((a - 1, a, a + len(d) - 1, a + len(d)))
    for p in probes:
        if p < 0:
            continue
        hit = model.at(p)
        require((p in img) == (hit is not None), "{}: membership of 0x{:x}", what, p)
        if hit is None:
            require(raises(InvalidAddressError, img.get_section, p), "{}: get_section(0x{:x}) of an unmapped address", what, p)
        else:
            sec = img.get_section(p)
            same((sec.start_address, bytes(sec.data)), (hit[0], bytes(hit[1])), f"{what}: get_section(0x{p:x})")


def resolve(model, base, rel):
    """An address: relative to base, or to the start/end of some existing section."""
    if isinstance(rel, int) or not model.secs:
        return base + (rel if isinstance(rel, int) else rel[2])
    where, k, off = rel
    a, d = model.secs[k % len(model.secs)]
    return a + off if where == "s" else a + len(d) + off


def history(case, ctx):
    base, blocks, join, ops = case
    img = Image([Section(base + a, bytearray(d)) for a, d in blocks], join=join)
    model = Model([(base + a, d) for a, d in blocks], join)
    compare(img, model, base, "initially")
    changed = refused = 0
    for i, op in enumerate(ops):
        what = f"step {i}: {op!r}"
        if op[0] == "insert":
            _, rel, kind, raw, jn = op
            obj, raw = source(kind, raw)
            addr = model.next if rel is None else max(0, resolve(model, base, rel))
            args = {} if rel is None else {"start_address": addr}
            if not jn:
                args["join"] = False
            clash = model.overlaps(addr, len(raw))
            try:
                img.insert_section(obj, **args)
            except InvalidAddressError:
                require(clash, "{}: free block refused", what)
                refused += 1
                ctx.event("insert refused")
            else:
                require(not clash, "{}: overlapping block accepted", what)
                model.insert(addr, raw, jn)
                changed += 1
                ctx.event("insert " + ("continued" if rel is None else "explicit"))
        elif op[0] == "join":
            img.join_sections()
            model.join()
        elif op[0] == "codec":
            # any image can be saved and loaded at any time without changing it
            if model.secs:
                codec = op[1] if max(a + len(d) for a, d in model.secs) <= 1 << 32 else "shf"
                back = objutils.loads(codec, objutils.dumps(codec, img))
                same(gen.content(back), gen.canonical(model.content()), f"{what}: saved and loaded")
        elif op[0] == "equal":
            other = Image([Section(a, bytearray(d)) for a, d in model.content()], join=False)
            require(img == other and not (img != other), "{}: image differs from its own content", what)
            if model.secs:
                pos = op[1] % sum(len(d) for _, d in model.secs)
                blks = [(a, bytearray(d)) for a, d in model.content()]
                for _, d in blks:
                    if pos < len(d):
                        d[pos] ^= 0x41
                        break
                    pos -= len(d)
                other = Image([Section(a, d) for a, d in blks], join=False)
                require(img != other and not (img == other), "{}: image equals a different one", what)
                for part in (model.content()[:-1], model.content()[1:]):
                    other = Image([Section(a, d) for a, d in part], join=False)
                    require(not (img == other) and not (other == img) and img != other, "{}: image equals a part of it", what)
                blks = model.content()
                k = op[1] % len(blks)
                blks[k:] = [(a + 1, d) for a, d in blks[k:]]
                other = Image([Section(a, d) for a, d in blks], join=False)
                require(img != other and not (img == other), "{}: image equals the same bytes somewhere else", what)
        else:
            addr = resolve(model, base, op[1])
            if addr < 0:
                continue
            hit = model.at(addr)
            if hit is None:
                kind, want, new = "nowhere", None, None
            else:
                kind, want, new = typed.plan(op, hit[1], addr - hit[0])
            try:
                got = typed.perform(img, op, addr)
            except InvalidAddressError:
                require(kind in ("nowhere", "bounds", "anyerror"), "{}: refused as out of range", what)
                refused += 1
                ctx.event("access refused: " + kind + (" (empty image)" if not model.secs else ""))
            except Exception as e:
                if kind == "unterminated":
                    require(isinstance(e, TypeError), "{}: {!r}", what, e)
                elif kind not in ("error", "anyerror"):
                    raise Violation(f"{what}: raised {e!r}, expected {kind}") from e
                refused += 1
            else:
                require(kind == "ok", "{}: returned {}, expected {}", what, repr(got)[:80], kind)
                if new is None:
                    require(typed.same_result(op, got, want), "{}: got {!r}, expected {!r}", what, got, want)
                else:
                    hit[1][:] = new
                    changed += 1
                ctx.event("access ok")
        compare(img, model, base, what)
    ctx.nontrivial(changed >= 2 and refused >= 1)


def bytes_of(img):
    return {s.start_address + i: b for s in img.sections for i, b in enumerate(s.data)}


def empties(case, ctx):
    """Sections without data neither hide the others nor make any address accessible."""
    base, blocks, join, given, ops = case
    real = [(base + a, bytearray(d)) for a, d in blocks]
    nulls = [max(0, resolve(Model(real, False), base, r)) for r in given]
    secs = [Section(a, d) for a, d in real]
    for i, a in enumerate(nulls):
        secs.insert((i * 7 + a) % (len(secs) + 1), Section(a, b""))
    img = Image(secs, join=join)
    model = Model(real, False)
    done = 0
    for i, op in enumerate([None] + ops):
        what = f"step {i}: {op!r}"
        if op is None:
            pass
        elif op[0] == "null":
            try:
                img.insert_section(b"", max(0, resolve(model, base, op[1])), join=op[2])
            except InvalidAddressError:
                ctx.event("empty block refused")
        elif op[0] == "save":
            want = gen.canonical(model.content())
            codec = op[1]
            if want and max(want[-1][0] + len(want[-1][1]), *nulls) <= 1 << (gen.CODECS[codec][0] or 64):
                back = objutils.loads(codec, objutils.dumps(codec, img))
                same(bytes_of(back), bytes_of(img), f"{what}: saved and loaded")
                ctx.event("saved as " + codec)
        elif op[0] == "join":
            img.join_sections()
        else:
            addr = resolve(model, base, op[1])
            if addr < 0:
                continue
            where = [s for s in img.sections if s.start_address <= addr < s.start_address + len(s.data)]
            hit = (where[0].start_address, bytearray(where[0].data)) if where else None
            kind, want, new = ("nowhere", None, None) if hit is None else typed.plan(op, hit[1], addr - hit[0])
            try:
                got = typed.perform(img, op, addr)
            except InvalidAddressError:
                require(kind in ("nowhere", "bounds", "anyerror"), "{}: refused as out of range", what)
            except Exception as e:
                require(kind in ("unterminated", "error", "anyerror"), "{}: raised {!r}, expected {}", what, e, kind)
            else:
                require(kind == "ok", "{}: returned {}, expected {}", what, repr(got)[:80], kind)
                if new is None:
                    require(typed.same_result(op, got, want), "{}: got {!r}, expected {!r}", what, got, want)
                else:
                    for j, b in enumerate(new):
                        a, d = model.at(hit[0] + j)
                        d[hit[0] + j - a] = b
                done += 1
        want = {a + i: b for a, d in model.secs for i, b in enumerate(d)}
        same(bytes_of(img), want, f"{what}: bytes of the image")
        same(len(img), len(want), f"{what}: len")
        for p in sorted({x for a, d in model.secs for x in (a - 1, a, a + len(d) - 1, a + len(d))} | {base} | set(nulls)):
            if p < 0:
                continue
            require((p in img) == (p in want), "{}: membership of 0x{:x}", what, p)
            if p in want:
                sec = img.get_section(p)
                require(sec.start_address <= p < sec.start_address + len(sec.data), "{}: get_section(0x{:x}) gives {!r}", what, p, sec)
                same(sec.data[p - sec.start_address], want[p], f"{what}: byte 0x{p:x} of the section found")
            else:
                require(raises(InvalidAddressError, img.get_section, p), "{}: get_section(0x{:x}) of an unmapped address", what, p)
    ctx.event("with empty sections", any(not len(s.data) for s in img.sections))
    ctx.nontrivial(bool(nulls) and bool(real) and done > 0)


@st.composite
def empty_cases(draw):
    base, blocks, join, ops = draw(cases())
    spots = st.one_of(
        st.tuples(st.just("s"), st.integers(0, 5), st.integers(-1, 4)), st.tuples(st.just("e"), st.integers(0, 5), st.integers(-2, 1)), st.integers(0, 40)
    )
    codecs = st.sampled_from(sorted(gen.CODECS))
    steps = []
    for op in ops:
        if op[0] == "insert":
            op = ("null", draw(spots), op[4])
        elif op[0] in ("equal", "codec"):
            op = ("save", draw(codecs))
        steps.append(op)
    return base, blocks, join, draw(st.lists(spots, min_size=1, max_size=4)), steps


@st.composite
def cases(draw):
    base = draw(st.sampled_from([0, 0x1000, 0xFFE0, 0xFFFFFFE0, 0x80000000, 1 << 40]))
    rel = st.sampled_from([0, 0, 0, 1, 1, 2]).flatmap(lambda k: (st.integers(0, 24), st.integers(0, 100), st.integers(-3, 120))[k])
    dat = st.one_of(
        st.binary(min_size=1, max_size=8), st.tuples(st.integers(0, 1 << 30), st.sampled_from([8, 12, 16, 20, 24])).map(lambda t: gen.expand(*t))
    )
    raw = draw(st.lists(st.tuples(st.integers(0, 80), st.integers(-2, 4), dat), min_size=draw(st.sampled_from([0, 1, 2, 3, 4])), max_size=4))
    blocks = gen._layout(raw, 10**6)
    if draw(st.integers(0, 19)) == 0:  # many of them
        n, step = draw(st.integers(14, 70)), draw(st.sampled_from([1, 2, 5]))
        start = blocks[-1][0] + len(blocks[-1][1]) + step if blocks else 0
        blocks = blocks + [(start + i * step, bytes([i])) for i in range(n)]
    kinds = st.sampled_from(["bytes", "bytearray", "list", "tuple", "arrayB", "arrayH", "arrayI", "str", "section"])
    near = st.one_of(
        rel,
        st.tuples(st.just("s"), st.one_of(st.integers(0, 5), st.integers(0, 90)), st.integers(0, 6)),
        st.tuples(st.just("s"), st.one_of(st.integers(0, 5), st.integers(0, 90)), st.integers(0, 6)),
        st.tuples(st.just("s"), st.one_of(st.integers(0, 5), st.integers(0, 90)), st.integers(0, 30)),
        st.tuples(st.just("e"), st.one_of(st.integers(0, 5), st.integers(0, 90)), st.integers(-6, 0)),
    )
    spot = st.one_of(rel, rel, st.tuples(st.just("e"), st.one_of(st.integers(0, 5), st.integers(0, 90)), st.integers(-1, 2)), st.tuples(st.just("s"), st.one_of(st.integers(0, 5), st.integers(0, 90)), st.integers(-18, 0)))
    typ = typed.op_strategy(near)
    kind = {
        "insert": st.tuples(st.just("insert"), st.one_of(st.none(), spot), kinds, dat, st.sampled_from([True, True, False])),
        "typed": typ,
        "join": st.just(("join",)),
        "equal": st.tuples(st.just("equal"), st.integers(0, 1000)),
        "codec": st.tuples(st.just("codec"), st.sampled_from(["srec", "ihex", "shf"])),
    }
    names = ["insert"] * 5 + ["typed"] * 6 + ["join", "equal", "codec"]
    ops = st.lists(st.sampled_from(names).flatmap(lambda n: kind[n]), min_size=3, max_size=16)
    return base, blocks, draw(st.booleans()), draw(ops)


def subs():
    return [Sub("history", cases(), history, quick=16000, thorough=400000, shards=8), Sub("empties", empty_cases(), empties, quick=1600, thorough=60000, shards=8)]
