"""C03: readers deliver exactly what a conforming file says."""

from hypothesis import strategies as st

import objutils

from vf import gen
from vf import refcodecs as rc
from vf.core import Sub
from vf.hexutil import READ_VIAS, expect_content, read_via

PROPERTY = "C03"
RULE = (
    "Case = disjoint records of individual lengths in any order, encoded by an independent encoder with format variants "
    "(letter case, line ends, missing final newline, ihex segment/linear/mixed addressing and start records, mixed S1/S2/S3 "
    "and S0/S5/S7-9, cosmac continuation lines, ash/titxt separators, shf word sizes). Non-trivial: several records or a variant."
)
ASSUMPTIONS = ["Records do not overlap; only record types the reader documents; no comments between records (see C23)."]


@st.composite
def records(draw, bits, maxlen, max_blocks=3):
    """Blocks cut into records of individual lengths, possibly permuted."""
    blks = draw(gen.blocks(bits, max_blocks, max_size=60, big=2 * maxlen if maxlen > 60 and draw(st.integers(0, 5)) == 0 else 0))
    recs = []
    for a, d in blks:
        while d:
            n = min(len(d), draw(st.one_of(st.integers(1, min(maxlen, len(d))), st.integers(1, 5), st.just(maxlen))))
            recs.append((a, d[:n]))
            a, d = a + n, d[n:]
    if len(recs) > 1 and draw(st.integers(0, 3)) == 0:
        recs = draw(st.permutations(recs))
    return list(recs)


STYLE = st.fixed_dictionaries(
    {
        "case": st.sampled_from(["upper", "upper", "lower", "mixed"]),
        "eol": st.sampled_from(["\n", "\n", "\r\n"]),
        "final": st.booleans(),
        "via": st.sampled_from(READ_VIAS + ["bytes"] * 4),
    }
)


def finish(lines, style, keep=0):
    """keep: leading characters of a line whose letter case is fixed."""
    out = []
    for i, ln in enumerate(lines):
        head, tail = ln[:keep], ln[keep:]
        if style["case"] == "lower" or (style["case"] == "mixed" and i % 2):
            tail = tail.lower()
        out.append(head + tail)
    text = style["eol"].join(out)
    if style["final"]:
        text += style["eol"]
    return text.encode("ascii")


def deliver(codec, blob, recs, style, ctx, variant=False):
    back = read_via(style["via"], codec, blob)
    expect_content(back, gen.canonical(recs), f"{codec} reader on {blob[:300]!r}")
    ctx.event("several records", len(recs) > 1)
    ctx.event("lower case", style["case"] != "upper")
    ctx.event("crlf", style["eol"] != "\n")
    ctx.nontrivial(len(recs) > 1 or variant or style["case"] != "upper" or style["eol"] != "\n")


def simple(codec):
    def fn(case, ctx):
        recs, style = case
        lines = [rc.RECORD[codec](a, d) for a, d in recs]
        keep = 0
        if codec == "tek":
            lines.append("/00000000" if len(recs) % 2 else f"/{recs[0][0]:04X}00{rc.nibbles(rc.addr_bytes(recs[0][0], 2)):02X}")
        elif codec == "mostec":
            lines.append(";00" if len(recs) % 2 else f";00{len(recs):04X}{sum(len(recs).to_bytes(2, 'big')):04X}")
        elif codec == "sig":
            lines.append(":000000" if len(recs) % 2 else f":{recs[0][0]:04X}00")
        elif codec == "fpc":
            lines.append("$%%%%%")
            style = dict(style, case="upper")
        deliver(codec, finish(lines, style, keep), recs, style, ctx)

    bits, maxlen = gen.CODECS[codec]
    if codec == "fpc":
        bits = 32
    return Sub(f"rd_{codec}", st.tuples(records(bits, maxlen), STYLE), fn, quick=600, thorough=20000, shards=2)


@st.composite
def ihex_case(draw):
    mode = draw(st.sampled_from(["linear", "segment", "both", "linear"]))
    bits = 20 if mode == "segment" else draw(st.sampled_from([16, 20, 24, 32]))
    recs = draw(records(bits, 255))
    out = []
    for a, d in recs:  # a record must not cross a 64K boundary (of its own base)
        while mode != "segment" and (a & 0xFFFF) + len(d) > 0x10000:
            n = 0x10000 - (a & 0xFFFF)
            out.append((a, d[:n]))
            a, d = a + n, d[n:]
        out.append((a, d))
    start = draw(st.one_of(st.none(), st.tuples(st.sampled_from([3, 5]), st.integers(0, 2**32 - 1))))
    return out, mode, start, draw(st.booleans()), draw(STYLE)


def ihex(case, ctx):
    recs, mode, start, eof, style = case
    lines = rc.ihex_lines(recs, mode, start, eof)
    ctx.event("mode " + mode)
    ctx.event("start record", start is not None)
    deliver("ihex", finish(lines, style), recs, style, ctx, mode != "linear" or start is not None)


@st.composite
def srec_case(draw):
    bits = draw(st.sampled_from([16, 24, 32]))
    recs = []
    for a, d in draw(records(bits, 252)):  # The count has room for 255 bytes: address, data and checksum.
        most = 252 if a + len(d) <= 1 << 16 else 251 if a + len(d) <= 1 << 24 else 250
        recs += [(a + i, d[i : i + most]) for i in range(0, len(d), most)]
    kinds = [draw(st.integers({True: 1, False: 2 if a + len(d) <= 1 << 24 else 3}[a + len(d) <= 1 << 16], min(3, 253 - len(d)))) for a, d in recs]
    head = draw(st.one_of(st.none(), st.binary(min_size=1, max_size=20)))
    count = draw(st.booleans())
    term = draw(st.one_of(st.none(), st.tuples(st.sampled_from([7, 8, 9]), st.integers(0, 0xFFFF))))
    return recs, kinds, head, count, term, draw(STYLE)


def srec(case, ctx):
    recs, kinds, head, count, term, style = case
    lines = []
    if head is not None:
        lines.append(rc.srec_rec(0, 0, head))
    lines += [rc.srec_rec(k, a, d) for k, (a, d) in zip(kinds, recs)]
    if count:
        lines.append(rc.srec_rec(5, len(recs)))
    if term:
        lines.append(rc.srec_rec(*term))
    ctx.event("mixed kinds", len(set(kinds)) > 1)
    ctx.event("header/count/termination", bool(head or count or term))
    deliver("srec", finish(lines, style, 1), recs, style, ctx, True)


def ash(case, ctx):
    recs, sep, term, stx_line, style = case
    deliver("ash", finish(rc.ash_lines(recs, sep, term, stx_line), dict(style, case="upper")), recs, style, ctx, True)
    ctx.event("separator " + sep)


def titxt(case, ctx):
    recs, sep, digits, style = case
    ctx.event("address digits %d" % digits)
    deliver("titxt", finish(rc.titxt_lines(recs, sep, digits), style, keep=0), recs, style, ctx, True)


def cosmac(case, ctx):
    recs, styles, style = case
    deliver("cosmac", finish(rc.cosmac_lines(recs, styles), dict(style, case="upper")), recs, style, ctx, True)
    ctx.event("continuation lines", 3 in styles)


def shf(case, ctx):
    recs, ws, width, upper, via = case
    blob = rc.shf_text(recs, ws, width, upper).encode("ascii")
    deliver("shf", blob, recs, {"via": via, "case": "upper", "eol": "\n"}, ctx, True)
    ctx.event("word size > 1", ws > 1 and any(len(d) % ws == 0 for _, d in recs))


@st.composite
def etek_case(draw):
    recs = draw(records(draw(st.sampled_from([16, 16, 20, 24, 32, 64])), 116))
    digits = [draw(st.sampled_from([1, 4, 4, 4, 8, 16])) for _ in range(draw(st.integers(1, 3)))]
    name = st.text("ABCXYZabcdefghmnz0189$._", min_size=1, max_size=16)
    number = st.one_of(st.integers(0, 300), st.integers(0, 1 << 32))
    items = st.lists(st.one_of(st.tuples(st.just(0), number, number), st.tuples(st.integers(1, 8), name, number)), max_size=3)
    symbols = draw(st.lists(st.tuples(st.integers(0, 5), name, items), max_size=2))
    return recs, digits, symbols, draw(st.one_of(st.none(), number)), draw(STYLE)


def etek(case, ctx):
    recs, digits, symbols, start, style = case
    lines = [rc.etek_rec(a, d, digits[i % len(digits)]) for i, (a, d) in enumerate(recs)]
    if symbols or start is not None:
        style = dict(style, case="upper")
    for at, section, items in symbols:
        lines.insert(at, rc.etek_symbols(section, items))
    if start is not None:
        lines.append(rc.etek_block(8, rc.etek_field(f"{start:X}")))
    ctx.event("symbols", len(symbols) > 0)
    ctx.event("address digits %s" % ("16" if 16 in digits else "8" if 8 in digits else "1" if 1 in digits else "4"))
    deliver("etek", finish(lines, style), recs, style, ctx, True)


@st.composite
def long_case(draw):
    """Files of many records; built from a few draws."""
    codec = draw(st.sampled_from(["ihex", "srec", "tek", "etek", "sig", "mostec", "emon52", "fpc", "rca", "ash", "titxt", "cosmac"]))
    bits = gen.CODECS[codec][0] or 32
    return codec, draw(st.integers(1, 3000)), draw(st.integers(1, 32)), draw(st.integers(0, (1 << min(bits, 32)) - 1)), draw(st.integers(0, 2**32)), draw(st.integers(0, 3))


def long(case, ctx):
    codec, number, row, addr, seed, order = case
    bits = gen.CODECS[codec][0] or 32
    number = min(number, 0xE000 // row)
    addr = min(addr, (1 << bits) - number * (row + 1))
    content = gen.expand(seed, number * row)
    recs, a = [], addr
    for i in range(number):
        recs.append((a, content[i * row : (i + 1) * row]))
        a += row + (i % 50 == seed % 50 and order < 3)
    if codec == "ihex":
        recs = [(x + i, bytes([b])) for x, d in recs for i, b in enumerate(d)] if row < 3 else [r for r in recs if (r[0] & 0xFFFF) + row <= 0x10000]
    if order == 1:
        recs.reverse()
    elif order == 2:
        recs = recs[1::2] + recs[::2]
    if not recs:
        return
    if codec == "ihex":
        lines = rc.ihex_lines(recs)
    elif codec == "srec":
        lines = [rc.srec_rec(3, x, d) for x, d in recs]
    elif codec in ("ash", "titxt", "cosmac"):
        lines = {"ash": rc.ash_lines, "titxt": rc.titxt_lines, "cosmac": lambda r: rc.cosmac_lines(r, [0, 3, 3, 3, 3])}[codec](recs)
    elif codec == "etek":
        lines = [rc.etek_rec(x, d) for x, d in recs]
    else:
        lines = [rc.RECORD[codec](x, d) for x, d in recs]
    expect_content(objutils.loads(codec, "\n".join(lines).encode("ascii")), gen.canonical(recs), f"{codec}: file of {len(recs)} records")
    ctx.event("more than 256 records", len(recs) > 256)
    ctx.event("not in order", order in (1, 2))
    ctx.nontrivial(len(recs) > 64)


def binary(case, ctx):
    blob, addr, via = case
    import io

    if via == "fp":
        img = objutils.load("bin", io.BytesIO(blob), addr)
    else:
        img = objutils.loads("bin", blob, addr)
    expect_content(img, gen.canonical([(addr, blob)]), "bin reader")
    ctx.nontrivial(addr != 0)


def subs():
    res = [simple(c) for c in ("tek", "sig", "mostec", "emon52", "fpc", "rca")]
    res += [
        Sub("rd_etek", etek_case(), etek, quick=600, thorough=20000, shards=2),
        Sub("rd_ihex", ihex_case(), ihex, quick=1500, thorough=40000, shards=4),
        Sub("rd_srec", srec_case(), srec, quick=1500, thorough=40000, shards=4),
        Sub(
            "rd_ash",
            st.tuples(records(16, 400), st.sampled_from([" ", "%", "'", ","]), st.sampled_from(",."), st.booleans(), STYLE),
            ash,
            quick=600,
            thorough=20000,
            shards=2,
        ),
        Sub(
            "rd_titxt",
            st.one_of(
                st.tuples(records(16, 400), st.sampled_from([" ", ","]), st.sampled_from([4, 5, 8]), STYLE),
                st.tuples(records(32, 400), st.sampled_from([" ", ","]), st.just(8), STYLE),
            ),
            titxt,
            quick=600,
            thorough=20000,
            shards=2,
        ),
        Sub("rd_cosmac", st.tuples(records(16, 400), st.one_of(st.lists(st.integers(0, 3), max_size=4), st.lists(st.sampled_from([0, 2, 3, 3, 3, 3]), min_size=1, max_size=6)), STYLE), cosmac, quick=600, thorough=20000, shards=2),
        Sub(
            "rd_shf",
            st.tuples(records(64, 60), st.sampled_from([1, 1, 2, 3, 4, 8, 10, 16, 24, 32]), st.sampled_from([8, 16, 32]), st.booleans(), st.sampled_from(READ_VIAS)),
            shf,
            quick=600,
            thorough=20000,
            shards=2,
        ),
        Sub("long", long_case(), long, quick=240, thorough=6000, shards=4),
        Sub("rd_bin", st.tuples(st.binary(min_size=1, max_size=300), gen.addresses(48), st.sampled_from(["fp", "bytes"])), binary, quick=300, shards=1),
    ]
    return res
