"""C09: building an image from sections is canonical and leaves its inputs alone."""

from operator import attrgetter

from hypothesis import strategies as st
from sortedcontainers import SortedList

from objutils import Image, Section
from objutils.section import join_sections

from vf import gen
from vf.core import Sub, Violation, raises, require, same

PROPERTY = "C09"
RULE = (
    "Case = disjoint blocks, many of them adjacent, in any order x container kind x join flag, followed by writes to the result "
    "and to other objects. Non-trivial: at least one adjacent pair."
)
ASSUMPTIONS = ["Blocks don't overlap; a section that needed no joining may share its buffer with the section it was made from."]


def adjacent_blocks():
    block = st.tuples(gen.addresses(33), st.sampled_from([-2, -1, 0, 0, 1, 2, 3]), gen.data(1, 12))
    few = st.lists(block, min_size=1, max_size=7)
    big = st.tuples(gen.addresses(33), st.sampled_from([-2, -1, 0]), gen.data(1, 12, big=20000))
    large = st.lists(big, min_size=2, max_size=4)
    many = st.tuples(few, st.integers(2, 9)).map(lambda t: t[0] * t[1])
    return st.one_of(*[few] * 9, many, large).map(lambda raw: gen._layout(raw, 1 << 34))


def by_address(secs):
    return SortedList(secs, key=attrgetter("start_address"))


CONTAINERS = {
    "sorted list": by_address,  # As Image.sections delivers them.
    "image": lambda s: Image(s, join=False),
    "sections of an image": lambda s: Image(s, join=False).sections,
    "dict values": lambda s: {i: x for i, x in enumerate(s)}.values(),
    "list": list, "tuple": tuple, "generator": lambda s: (x for x in s), "iterator": iter,
}


def build(case, ctx):
    blocks, order, container, join = case
    blocks = [b for _, b in sorted(zip(order, blocks))] if len(order) >= len(blocks) else blocks[:: 1 if order[0] & 1 else -1] if order[1] & 1 else blocks[::2] + blocks[1::2]
    secs = [Section(a, bytearray(d)) for a, d in blocks]
    keep = list(secs)
    src = CONTAINERS[container](secs)
    img = Image(src, join=join)
    want = gen.canonical(blocks) if join else sorted(blocks)
    same(gen.content(img), want, f"Image(join={join})")
    same([(s.start_address, bytes(s.data)) for s in keep], blocks, "the sections handed over afterwards")
    require(len(secs) == len(keep) and all(x is y for x, y in zip(secs, keep)), "the container handed over was changed")
    if container not in ("generator", "iterator"):
        # Changing the new image's set of sections has no effect on where they came from, and vice versa.
        members = lambda c: [(s.start_address, bytes(s.data)) for s in c]
        was = members(src)
        same(sorted(was), sorted(blocks), f"the {container} handed over")
        second = Image(src, join=join)
        second.insert_section(b"new", 1 << 50, join=join)
        same(gen.content(second), want + [(1 << 50, b"new")], "image after an insertion")
        same(members(src), was, f"the {container} handed over, after inserting into the image made from it")
        same(gen.content(img), want, "another image made from the same sections, after the insertion")
        if container in ("image", "sorted list", "list"):
            if container == "image":
                src.insert_section(b"later", 1 << 51, join=False)
            else:
                getattr(src, {"sorted list": "add", "list": "append"}[container])(Section(1 << 51, b"later"))
            same(gen.content(img), want, f"the image after adding to the {container} it was made from")
            same(len(second.sections), len(want) + 1, f"sections of the image after adding to the {container} it was made from")
    # joined buffers are the image's own: merging must not have extended anybody else's data
    other = Image([Section(a, bytearray(d)) for a, d in reversed(blocks)], join=join)
    require(img == other and not img != other, "images built from permuted blocks differ")
    merged = [(a, d) for a, d in want if (a, d) not in blocks]
    for a, d in merged:
        img.write(a, bytes([d[0] ^ 0x55]))
    same([(s.start_address, bytes(s.data)) for s in keep], blocks, "the sections handed over, after writing to the joined image")
    for a, d in merged:
        img.write(a, d[:1])
    img.join_sections()
    same(gen.content(img), gen.canonical(blocks), "join_sections()")
    img.join_sections()
    same(gen.content(img), gen.canonical(blocks), "join_sections() twice")
    n = len(blocks) - len(gen.canonical(blocks))
    ctx.event("adjacent pairs %d" % min(n, 4))
    ctx.nontrivial(n > 0)


def joinfn(case, ctx):
    blocks, as_copy = case
    blocks = sorted(blocks)
    secs = [Section(a, bytearray(d)) for a, d in blocks]
    given = list(secs)
    res = join_sections(given)
    same([(s.start_address, bytes(s.data)) for s in res], gen.canonical(blocks), "join_sections(list)")
    require(given == secs and len(given) == len(blocks), "join_sections() consumed its argument")
    same([(s.start_address, bytes(s.data)) for s in secs], blocks, "arguments of join_sections() afterwards")
    res2 = join_sections(res)
    same([(s.start_address, bytes(s.data)) for s in res2], gen.canonical(blocks), "join_sections() is idempotent")
    ctx.nontrivial(len(res) < len(blocks))


def unrelated(case, ctx):
    """An object made from another one's data is independent of it."""
    a, d, b, how, k = case
    src = Section(a, bytearray(d)) if how != "array" else None
    if how == "section":
        new = Section(b, src)
        write = new.write
    elif how == "insert":
        new = Image()
        new.insert_section(src, b)
        write = new.write
    elif how == "insert joined":
        new = Image([Section(b + len(d), b"tail")])
        new.insert_section(src, b)
        write = new.write
    elif how == "image of section":
        new = Image([Section(b, src)])
        write = new.write
    else:
        import array

        src = array.array("H", d + d)
        d = bytes(src.tobytes())
        new = Section(b, src)
        write = new.write
    k %= len(d)
    old = bytes(new.read(b, len(d)))
    same(old, d, "data taken over")
    write(b + k, bytes([d[k] ^ 0xA5]))
    same(src.tobytes(), d, f"the source after writing to the object made from it ({how})")
    changed = bytes(new.read(b, len(d)))
    same(changed, d[:k] + bytes([d[k] ^ 0xA5]) + d[k + 1 :], "the new object")
    if isinstance(src, Section):
        src.write(a + k, bytes([d[k] ^ 0x0F]))
        same(bytes(new.read(b, len(d))), changed, f"the new object after writing to its source ({how})")
    ctx.event(how)
    ctx.nontrivial()


def fresh(case, ctx):
    """Default-constructed sections/images are independent of each other."""
    n, data, addr = case
    secs = [Section() for _ in range(n)]
    imgs = [Image() for _ in range(n)]
    secs[0].data.extend(data)
    imgs[0].insert_section(data, addr)
    imgs[0].meta["key"] = 1
    for s in secs[1:] + [Section()]:
        same((s.start_address, bytes(s.data)), (0, b""), "another fresh section")
    for i in imgs[1:] + [Image()]:
        same((gen.content(i), dict(i.meta)), ([], {}), "another fresh image")
    same(gen.content(imgs[0]), [(addr, data)], "image")
    ctx.nontrivial(n > 1)


def order(case, ctx):
    """Sections compare like (address, data) pairs."""
    (a1, d1), (a2, d2) = case
    s1, s2 = Section(a1, d1), Section(a2, d2)
    p1, p2 = (a1, bytearray(d1)), (a2, bytearray(d2))
    same((s1 == s2, s1 != s2, s1 < s2, s1 <= s2, s1 > s2, s1 >= s2), (p1 == p2, p1 != p2, p1 < p2, p1 <= p2, p1 > p2, p1 >= p2), f"{p1} <=> {p2}")
    i1, i2 = Image([s1]), Image([s2])
    same(i1 == i2, p1 == p2, "equality of images")
    ctx.nontrivial(a1 == a2)


def rejects(case, ctx):
    kind, data = case
    bad = {"int": 5, "bytes": [data], "str": ["abc"], "none": [None], "mixed": [Section(0, b"a"), data]}[kind]
    for join in (True, False):
        require(raises((TypeError, AttributeError), Image, bad, join), "Image({!r}, join={}) accepted", bad, join)
    ctx.nontrivial()


def subs():
    small = st.tuples(st.integers(0, 3), st.binary(max_size=3))
    return [
        Sub(
            "build",
            st.tuples(
                adjacent_blocks(),
                st.lists(st.integers(0, 1000), min_size=7, max_size=7, unique=True),
                st.sampled_from(sorted(CONTAINERS)),
                st.booleans(),
            ),
            build,
            quick=5000,
            thorough=200000,
            shards=5,
        ),
        Sub("join_function", st.tuples(adjacent_blocks(), st.booleans()), joinfn, quick=2000, thorough=60000, shards=2),
        Sub(
            "unrelated",
            st.tuples(gen.addresses(33), gen.data(1, 12), gen.addresses(33), st.sampled_from(["section", "insert", "insert joined", "image of section", "array"]), st.integers(0, 11)),
            unrelated,
            quick=600,
            thorough=10000,
            shards=1,
        ),
        Sub("fresh", st.tuples(st.integers(1, 4), st.binary(min_size=1, max_size=9), st.integers(0, 1 << 33)), fresh, quick=300, thorough=3000, shards=1),
        Sub("order", st.tuples(small, small), order, quick=1500, thorough=30000, shards=2),
        Sub("rejects", st.tuples(st.sampled_from(["int", "bytes", "str", "none", "mixed"]), st.binary(max_size=4)), rejects, quick=100, thorough=500, shards=1),
    ]
