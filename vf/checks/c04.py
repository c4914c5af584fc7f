"""C04: a corrupted record is reported, never delivered as data."""

from hypothesis import strategies as st

import objutils
from objutils.hexfile import InvalidRecordChecksumError, InvalidRecordLengthError

from vf import gen
from vf import refcodecs as rc
from vf.core import Sub, Violation, require
from vf.hexutil import dumps, image

PROPERTY = "C04"
RULE = (
    "Case = a file of several records (written by objutils and by an independent encoder) x one corruption of one record: a hex "
    "digit of the count/address/data/checksum field replaced by another one, characters cut off the record's end, or a count that "
    "disagrees with the data although all checksums are right. "
    "Non-trivial: the corrupted text differs from the original and lies in a field the format's check covers."
)
ASSUMPTIONS = [
    "Only fields covered by the format's own check: start character and record type digits, emon52 addresses, shf addresses and "
    "the formats without checks (rca, cosmac, titxt, ash) are excluded; so are end and header records without data, which the readers ignore.",
]

# (offset of first covered character, excluded offsets) per record kind
LAYOUT = {
    "ihex": (1, {7, 8}),
    "srec": (2, set()),
    "tek": (1, set()),
    "etek": (1, {3}),
    "sig": (1, set()),
    "mostec": (1, set()),
    "emon52": (0, {2, 3, 4, 5, 6, 7}),
}

HEX = "0123456789ABCDEF"


@st.composite
def cases(draw, codec):
    bits, maxrow = gen.CODECS[codec]
    blks = draw(gen.blocks(bits, 3, max_size=40))
    row = draw(st.integers(1, min(maxrow, 40)))
    own = draw(st.booleans())
    return blks, row, own, draw(st.integers(0, 10**6)), draw(st.integers(0, 10**6)), draw(st.integers(1, 15)), draw(st.booleans())


def build(codec, blks, row, own):
    """-> list of lines; the corruptible ones come first in the second value."""
    if own:
        lines = dumps(codec, image(blks), row).decode("ascii").split("\n")
    else:
        recs = [(a + i, d[i : i + row]) for a, d in blks for i in range(0, len(d), row)]
        if codec == "ihex":
            cut = []
            for a, d in recs:
                k = 0x10000 - (a & 0xFFFF)
                cut += [(a, d[:k]), (a + k, d[k:])] if len(d) > k else [(a, d)]
            lines = rc.ihex_lines(cut)
        elif codec == "srec":
            lines = [rc.srec_rec(3 if a + len(d) > 1 << 16 else 1, a, d) for a, d in recs] + [rc.srec_rec(5, len(recs))]
        else:
            lines = [rc.RECORD[codec](a, d) for a, d in recs]
    lines = [ln for ln in lines if ln]
    victims = []
    for i, ln in enumerate(lines):
        if codec == "ihex" and ln.startswith(":00"):
            continue  # end record: not a data carrying record
        if codec == "tek" and ln[5:7] == "00":
            continue
        if codec == "sig" and len(ln) == 7:
            continue
        if codec == "mostec" and ln == ";00":
            continue
        victims.append(i)
    return lines, victims


def corrupt(codec):
    def fn(case, ctx):
        blks, row, own, li, ci, shift, truncate = case
        lines, victims = build(codec, blks, row, own)
        i = victims[li % len(victims)]
        line = lines[i]
        first, excluded = LAYOUT[codec]
        before = objutils.loads(codec, "\n".join(lines).encode("ascii"))
        orig = dict(cells(before))
        if truncate:
            if codec == "ihex" and line[7:9] in ("02", "04"):
                return  # losing an address record is a loss of data records for the format
            bad = line[: len(line) - 1 - ci % (len(line) - 1)]
        else:
            pos = [k for k in range(first, len(line)) if k not in excluded and line[k] in HEX]
            k = pos[ci % len(pos)]
            bad = line[:k] + HEX[(HEX.index(line[k]) + shift) % 16] + line[k + 1 :]
        text = "\n".join(lines[:i] + [bad] + lines[i + 1 :]).encode("ascii")
        try:
            after = objutils.loads(codec, text)
        except (InvalidRecordChecksumError, InvalidRecordLengthError):
            ctx.event("reported")
            ctx.nontrivial()
            return
        except ValueError:
            require(truncate, "{}: digit corruption of {!r} to {!r}: not reported as a record error", codec, line, bad)
            ctx.event("reported (not hexadecimal)")
            ctx.nontrivial()
            return
        if not truncate:
            raise Violation(f"{codec}: {line!r} corrupted to {bad!r} was accepted: {gen.content(after)!r}"[:600])
        for a, v in cells(after):
            require(orig.get(a) == v, "{}: {!r} cut to {!r}: address 0x{:x} now reads 0x{:02x}", codec, line, bad, a, v)
        ctx.event("record dropped")
        ctx.nontrivial()

    return fn


def cells(img):
    for a, d in gen.content(img):
        for i, b in enumerate(d):
            yield a + i, b


def miscounted(codec, addr, data, n, kind):
    """A record stating `n` units more than there are, with valid checks (None: can't be stated)."""
    m = len(data) + n
    if codec == "etek":  # counts digits
        m = 2 * len(data) + 6 + len(f"{addr:04X}") + n
    elif codec == "srec":
        m += kind + 2
    elif codec == "fpc":
        m += 4
    if not 0 <= m <= 255 or n == 0:
        return None
    if codec == "ihex":
        body = bytes([m]) + rc.addr_bytes(addr, 2) + b"\0" + data
        return ":" + rc.hx(body + bytes([-sum(body) & 255]))
    if codec == "srec":
        body = bytes([m]) + rc.addr_bytes(addr, kind + 1) + data
        return f"S{kind}" + rc.hx(body + bytes([~sum(body) & 255]))
    if codec in ("tek", "sig"):
        check = rc.nibbles if codec == "tek" else rc.rotxor
        head = (rc.addr_bytes(addr, 2) if codec == "tek" else rc.min_bytes(addr)) + bytes([m])
        if m == 0:
            return None  # end record
        return f"{'/' if codec == 'tek' else ':'}{addr:04X}{m:02X}{check(head):02X}{rc.hx(data)}{check(data):02X}"
    if codec == "etek":
        return rc.etek_rec(addr, data, 4, m)
    if codec == "mostec":
        if m == 0:
            return None
        body = bytes([m]) + rc.addr_bytes(addr, 2) + data
        return ";" + rc.hx(body) + f"{sum(body) & 0xFFFF:04X}"
    if codec == "emon52":
        return f"{m:02X}" + rc.emon_rec(addr, data)[2:]
    if -(-len(data) // 4) * 4 - 4 < len(data) + n <= -(-len(data) // 4) * 4:
        return None  # differs in padding only
    body = bytes([m, 0, 0]) + rc.addr_bytes(addr, 4) + data
    return rc.fpc_pack(rc.hx(bytes([-sum(body) & 255]) + body + bytes(-len(data) % 4)))


def count(codec):
    def fn(case, ctx):
        recs, li, n, kind = case
        i = li % len(recs)
        if codec == "srec":
            lines = [rc.srec_rec(kind, a, d) for a, d in recs]
        elif codec == "ihex":
            lines = [rc.ihex_rec(0, a, d) for a, d in recs]
        else:
            lines = [rc.RECORD[codec](a, d) for a, d in recs]
        a, d = recs[i]
        n = -len(d) if n is None else n  # No data at all.
        bad = miscounted(codec, a, d, n, kind)
        if bad is None:
            return
        require(gen.content(objutils.loads(codec, "\n".join(lines).encode("ascii"))) == gen.canonical(recs), "{}: {}", codec, lines)
        lines[i] = bad
        ctx.nontrivial()
        ctx.event("too many" if n > 0 else "too few")
        try:
            after = objutils.loads(codec, "\n".join(lines).encode("ascii"))
        except (InvalidRecordChecksumError, InvalidRecordLengthError):
            return
        raise Violation(f"{codec}: record {bad!r} states {n} more than its {len(d)} bytes and was accepted: {gen.content(after)!r}"[:600])

    return fn


@st.composite
def sized_cases(draw):
    recs, a = [], draw(st.integers(0, 0x100))
    for d in draw(st.lists(st.binary(min_size=1, max_size=24), min_size=1, max_size=4)):
        recs.append((a, d))
        a += len(d) + draw(st.sampled_from([0, 1, 0x100, 0x3000]))
    kind = draw(st.integers(2, 5))
    data = draw(st.binary(max_size=12).filter(lambda d: len(d) != (2 if kind in (2, 4) else 4)))
    # What follows a bad base address belongs to no known address: such records are last.
    return recs, kind, data, len(recs) if kind in (2, 4) else draw(st.integers(0, len(recs)))


def sized(case, ctx):
    """Extended and start address records of a wrong size, although count and checksum agree."""
    recs, kind, data, pos = case
    lines = [rc.ihex_rec(0, a, d) for a, d in recs] + [rc.ihex_rec(1, 0, b"")]
    lines.insert(pos, rc.ihex_rec(kind, 0, data))
    ctx.nontrivial()
    try:
        after = objutils.loads("ihex", "\n".join(lines).encode("ascii"))
    except (InvalidRecordChecksumError, InvalidRecordLengthError):
        ctx.event("reported")
        return
    got = gen.content(after)
    require(got == gen.canonical(recs), "ihex: record {} changes the loaded data: {}", lines[pos], got)


@st.composite
def count_cases(draw):
    recs, a = [], draw(st.integers(1, 0x100))
    for d in draw(st.lists(st.binary(min_size=1, max_size=24), min_size=1, max_size=3)):
        recs.append((a, d))
        a += len(d) + draw(st.integers(0, 0x3000))
    n = draw(st.one_of(st.none(), st.integers(-6, 6), st.integers(-255, 255)))
    return recs, draw(st.integers(0, 5)), n, draw(st.integers(1, 3))


def fpc_cut(case, ctx):
    blks, row, li = case
    recs = [(a + i, d[i : i + row]) for a, d in blks for i in range(0, len(d), row)]
    lines = [rc.fpc_rec(a, d) for a, d in recs]
    i = li % len(lines)
    orig = {a + k: b for a, d in recs for k, b in enumerate(d)}
    ctx.nontrivial()
    for size in range(1, len(lines[i])):
        bad = lines[i][:size]
        text = "\n".join(lines[:i] + [bad] + lines[i + 1 :] + [rc.fpc_pack("00000000")]).encode("ascii")
        try:
            after = objutils.loads("fpc", text)
        except (InvalidRecordChecksumError, InvalidRecordLengthError, ValueError):
            continue
        for a, v in cells(after):
            require(orig.get(a) == v, "fpc: {!r} cut to {!r}: address 0x{:x} now reads 0x{:02x}", lines[i], bad, a, v)
        ctx.event("record dropped")


def fpc(case, ctx):
    blks, row, li, ci, shift = case
    recs = [(a + i, d[i : i + row]) for a, d in blks for i in range(0, len(d), row)]
    lines = [rc.fpc_hex(a, d) for a, d in recs]
    i = li % len(lines)
    n = len(recs[i][1])
    pos = [0, 1] + list(range(8, 16 + 2 * n))  # checksum, address, data; neither type nor length nor padding.
    k = pos[ci % len(pos)]
    ln = lines[i]
    bad = ln[:k] + HEX[(HEX.index(ln[k]) + shift) % 16] + ln[k + 1 :]
    text = "\n".join(rc.fpc_pack(x) for x in lines[:i] + [bad] + lines[i + 1 :] + ["00000000"]).encode("ascii")
    try:
        after = objutils.loads("fpc", text)
    except (InvalidRecordChecksumError, InvalidRecordLengthError):
        ctx.nontrivial()
        return
    raise Violation(f"fpc: record {ln} corrupted to {bad} was accepted: {gen.content(after)!r}"[:600])


def shf(case, ctx):
    blks, which, ci, shift, kind = case
    want = gen.canonical(blks)
    lines = dumps("shf", image(blks)).decode("ascii").split("\n")
    starts = [i for i, ln in enumerate(lines) if "<block" in ln]
    b = which % len(starts)
    i0 = starts[b]
    i1 = next(i for i in range(i0, len(lines)) if "</block>" in lines[i])
    if kind > 3:  # a required attribute is missing (or empty)
        name = ("name", "address", "length", "word_size", "checksum")[ci % 5]
        k0 = lines[i0].index(f" {name}=")
        k1 = lines[i0].index('"', k0 + len(name) + 3)
        empty = kind == 5 and name != "name"
        lines[i0] = lines[i0][:k0] + f' {name}=""' * empty + lines[i0][k1 + 1 :]
        after = objutils.loads("shf", "\n".join(lines).encode("ascii"))
        got = gen.content(after)
        require(got == want[:b] + want[b + 1 :], "shf: block {} with {} {}: got {}", b, name, "empty" if empty else "missing", got)
        ctx.event("attribute missing")
        ctx.nontrivial(len(want) > 1)
        return
    if kind == 0:  # data
        tgt = i0 + 1 + ci % (i1 - i0 - 1)
        pos = [k for k, c in enumerate(lines[tgt]) if c.upper() in HEX]
    else:
        tgt = i0
        attr = ("checksum", "length", "word_size")[kind - 1] + '="'
        k0 = lines[tgt].index(attr) + len(attr)
        pos = list(range(k0, lines[tgt].index('"', k0)))
    k = pos[(ci // 7) % len(pos)]
    ln = lines[tgt]
    new = HEX[(HEX.index(ln[k].upper()) + shift) % 16].lower()
    lines[tgt] = ln[:k] + new + ln[k + 1 :]
    after = objutils.loads("shf", "\n".join(lines).encode("ascii"))
    rest = want[:b] + want[b + 1 :]
    got = gen.content(after)
    require(got == rest, "shf: block {} with a corrupted {} : got {}, expected {}", b, ("data", "checksum", "length", "word_size")[kind], got, rest)
    ctx.event(("data", "checksum", "length", "word_size")[kind])
    ctx.nontrivial()


def subs():
    res = [Sub(f"flip_{c}", cases(c), corrupt(c), quick=900, thorough=40000, shards=3) for c in LAYOUT]
    res += [Sub(f"count_{c}", count_cases(), count(c), quick=300, thorough=15000, shards=1) for c in (*LAYOUT, "fpc")]
    res.append(Sub("sized_ihex", sized_cases(), sized, quick=400, thorough=20000, shards=1))
    res.append(
        Sub(
            "cut_fpc",
            st.tuples(gen.blocks(16, 3, max_size=40), st.integers(1, 40), st.integers(0, 10**6)),
            fpc_cut,
            quick=500,
            thorough=20000,
            shards=1,
        )
    )
    res.append(
        Sub(
            "flip_fpc",
            st.tuples(gen.blocks(16, 3, max_size=40), st.integers(1, 40), st.integers(0, 10**6), st.integers(0, 10**6), st.integers(1, 15)),
            fpc,
            quick=900,
            thorough=40000,
            shards=2,
        )
    )
    res.append(
        Sub(
            "flip_shf",
            st.tuples(gen.blocks(40, 3, max_size=40), st.integers(0, 100), st.integers(0, 10**6), st.integers(1, 15), st.integers(0, 5)),
            shf,
            quick=900,
            thorough=40000,
            shards=2,
        )
    )
    return res
