"""C26: an IEEE-695 module is read completely, record by record."""

import io
from datetime import datetime

from hypothesis import strategies as st

from objutils import ieee695

from vf.core import Sub, Violation, raises, require, same

PROPERTY = "C26"
RULE = (
    "Case = an IEEE-695 module: header, address descriptor, part pointers, environment, absolute sections, public and external "
    "symbols, nested debug blocks, data, trailer; every number in every legal width, every string in every legal form. Oracle: "
    "the generator's own model of what the records say. Sub `cut`: the same file cut off anywhere, or with an unassigned record "
    "header, raises instead of returning. Non-trivial: at least one section, symbol, block or data record."
)
ASSUMPTIONS = [
    "Absolute sections only (ASP, ASR, ASD): types of relocatable sections aren't implemented by the package; same for library blocks "
    "(BB20), relocation (IR, LR, RE, LT) and complex expressions.",
    "MAUs are multiples of eight bits.",
]

WIDTHS = [0, 1, 127, 128, 129, 255, 256, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, 0xFFFFFFFF, 1 << 32, (1 << 40) - 1, 1 << 56, 1 << 63, (1 << 64) - 1]


def nums(limit=(1 << 64) - 1, low=0):
    pts = [w for w in WIDTHS if low <= w <= limit]
    v = st.one_of(st.sampled_from(pts) if pts else st.nothing(), st.integers(low, min(limit, 0xFFFFFFFF)), st.integers(low, min(limit, low + 200)))
    return st.tuples(v, st.integers(0, 5))


def enc_num(n):
    """n = (value, form): form 0-2 = shortest, 3-4 = counted number, so many leading zeros, 5 = all eight bytes."""
    v, form = n
    if v is None:
        return b"\x80"
    if form <= 2 and v <= 0x7F:
        return bytes([v])
    need = max(1, (v.bit_length() + 7) // 8)
    size = need if form <= 3 else min(8, need + 1) if form == 4 else 8
    return bytes([0x80 + size]) + v.to_bytes(size, "big")


@st.composite
def texts(draw, max_size=12):
    if draw(st.integers(0, 24)) == 0:
        raw = bytes([draw(st.integers(0x20, 0xFF))]) * draw(st.sampled_from([127, 128, 200, 254, 255, 256, 300]))
    else:
        raw = draw(st.one_of(st.text("abcXYZ_.019", max_size=max_size).map(lambda s: s.encode()), st.binary(max_size=max_size)))
    return raw, draw(st.integers(0, 5))


def enc_str(s):
    raw, form = s
    n = len(raw)
    if n <= 127 and form <= 2:
        return bytes([n]) + raw
    if n <= 255 and form <= 4:
        return b"\xde" + bytes([n]) + raw
    return b"\xdf" + n.to_bytes(2, "big") + raw


NUM, TXT = nums(), texts()
IDX = nums(0x3000)


OMITTED = (None, 0)  # Place holder of an optional field.


def opt(draw, strategies):
    """Leading ones of a list of optional fields; place holders instead of some of them."""
    return [OMITTED if draw(st.integers(0, 5)) == 0 else draw(s) for s in strategies[: draw(st.integers(0, len(strategies)))]]


@st.composite
def environment(draw):
    kind = draw(st.sampled_from([37, 38, 39, 40, 50, 51, 52, 53, 54, 55, 64, 65, "NN"]))
    if kind == "NN":
        return ("NN", draw(IDX), draw(TXT))
    fields = {
        37: (NUM, NUM),
        38: (nums(4, 1),),
        39: (nums(2, 1),),
        40: (nums(6),),
        50: (nums(9999, 1), nums(12, 1), nums(28, 1), nums(23), nums(59), nums(59)),
        51: (TXT,),
        52: (NUM,),
        53: (NUM,),
        54: (NUM, NUM, NUM),
        55: (TXT,),
        64: (NUM, NUM),
        65: (TXT,),
    }[kind]
    vals = [draw(f) for f in fields]
    if kind == 54 and draw(st.booleans()):
        vals.append(draw(NUM))
    return ("ATN", draw(IDX), draw(IDX), kind, vals)


@st.composite
def atn_debug(draw):
    kind = draw(st.sampled_from([1, 2, 3, 7, 8, 9, 10, 19]))
    n, o = {1: (1, 0), 2: (1, 0), 3: (0, 0), 7: (2, 2), 8: (0, 0), 9: (1, 0), 10: (2, 0), 19: (1, 1)}[kind]
    return ("ATN", draw(IDX), draw(IDX), kind, [draw(NUM) for _ in range(n)] + opt(draw, [NUM] * o))


@st.composite
def section(draw, index):
    name, parent = (opt(draw, [TXT, IDX]) + [None, None])[:2] if draw(st.integers(0, 3)) == 0 else (
        draw(TXT), draw(st.one_of(st.none(), st.just(OMITTED), IDX)))
    recs = [("ST", index, "AS" + draw(st.sampled_from("PRD")), name, parent)]
    used = set()
    for _ in range(draw(st.integers(0, 6))):
        kind = draw(st.sampled_from(["SA", "ASS", "ASS", "ASL", "ASL", "ASA", "ASB", "ASR", "ASF", "ASM"]))
        if kind in used and kind not in ("ASA", "ASB", "ASR"):
            continue
        used.add(kind)
        if kind == "SA":
            recs.append(("SA", index, *(opt(draw, [nums(40), NUM]) + [None, None])[:2]))
        else:
            recs.append((kind, index, draw(NUM)))
    return recs


@st.composite
def block(draw, depth=0):
    kind = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 10, 11]))
    date = [nums(9999), nums(12), nums(31), nums(23), nums(59), nums(59)]
    if kind in (1, 2, 3):
        vals = [draw(TXT)]
    elif kind in (4, 6):
        vals = [draw(TXT), draw(NUM), draw(NUM), draw(NUM)]
    elif kind == 5:
        vals = [draw(TXT)] + opt(draw, date)
    elif kind == 10:
        vals = [draw(TXT), draw(TXT), draw(NUM)] + opt(draw, [TXT] + date)
    else:
        vals = [draw(TXT), draw(NUM), draw(NUM), draw(NUM), draw(NUM)]
    end = draw(NUM) if kind in (4, 6) or (kind == 11 and draw(st.booleans())) else None
    inner = []
    for _ in range(draw(st.integers(0, 3 if depth < 3 else 0))):
        what = draw(st.integers(0, 4))
        if what <= 1:
            inner.append(draw(block(depth + 1)))
        elif what == 2:
            inner.append(("NN", draw(IDX), draw(TXT)))
        elif what == 3:
            inner.append(draw(atn_debug()))
        else:
            letters = st.integers(0xC1, 0xDA).map(chr)
            inner.append(("TY", draw(IDX), draw(IDX), draw(st.lists(st.one_of(NUM, letters, st.just(OMITTED)), max_size=5))))
    return ("BB", kind, draw(NUM), vals, inner, end)


def spread(draw, groups):
    """One group of records after the other, or - each still in its order - interleaved."""
    if draw(st.booleans()):
        return [r for g in groups for r in g]
    out, groups = [], [list(g) for g in groups]
    while any(groups):
        g = draw(st.sampled_from([g for g in groups if g]))
        out.append(g.pop(0))
    return out


@st.composite
def modules(draw):
    bits, maus = draw(st.sampled_from([8, 8, 8, 16, 32])), draw(nums(8, 1))
    recs = [("MB", draw(TXT), draw(TXT)), ("AD", (bits, draw(st.integers(0, 5))), maus, draw(st.sampled_from([None, "L", "M"])))]
    for i in range(8):
        if draw(st.integers(0, 3)):
            recs.append(("ASW", i, draw(NUM)))
    recs += draw(st.lists(environment(), max_size=4))
    indexes = draw(st.lists(IDX, max_size=4, unique_by=lambda n: n[0]))
    groups = [draw(section(i)) for i in indexes]
    recs += spread(draw, groups)
    groups = []
    for n in draw(st.lists(nums(0x3000, 32), max_size=4, unique_by=lambda n: n[0])):
        groups.append([("NI", n, draw(TXT))])
        if draw(st.booleans()):
            kind = draw(st.sampled_from([8, 16, 19]))
            typ = (0, draw(st.integers(0, 5))) if kind == 16 else draw(IDX)
            vals = [draw(NUM)] + opt(draw, [NUM, NUM, TXT]) if kind == 16 else []
            groups[-1].append(("ATI", n, typ, kind, vals, draw(NUM) if typ[0] else None))
        for _ in range(draw(st.integers(0, 2))):
            groups[-1].append(("ASI", n, draw(NUM)))
    recs += spread(draw, groups)
    groups = []
    for n in draw(st.lists(IDX, max_size=3, unique_by=lambda n: n[0])):
        groups.append([("NX", n, draw(TXT))])
        if draw(st.booleans()):
            groups[-1].append(("ATX", n, draw(NUM), draw(NUM), draw(NUM)))
        if draw(st.booleans()):
            groups[-1].append(("WX", n, draw(NUM), draw(NUM)))
    recs += spread(draw, groups)
    for n in draw(st.lists(IDX, max_size=3, unique_by=lambda n: n[0])):
        recs.append(("NC", n, draw(TXT)))
    recs += draw(st.lists(block(), max_size=3))
    for i in indexes:
        if draw(st.integers(0, 3)) == 0:
            continue
        recs.append(("SB", i))
        if draw(st.booleans()):
            recs.append(("ASP", i, draw(NUM)))
        for _ in range(draw(st.integers(0, 3))):
            raw = draw(st.one_of(st.binary(max_size=24), st.integers(0, 255).map(lambda b: bytes([b]) * 200)))
            raw = raw[: len(raw) * 8 // bits * bits // 8]
            recs.append(("LD", (len(raw) * 8 // bits, draw(st.integers(0, 5))), raw))
    if draw(st.booleans()):
        recs.append(("ASG", draw(NUM)))
    return recs


E2 = {"ASS": 0xD3, "ASA": 0xC1, "ASB": 0xC2, "ASR": 0xD2, "ASF": 0xC6, "ASL": 0xCC, "ASM": 0xCD, "ASI": 0xC9, "ASP": 0xD0}


def enc(v):
    if v is None:
        return b""
    if isinstance(v, str):
        return v.encode("latin1")
    return enc_str(v) if isinstance(v[0], bytes) else enc_num(v)


def encode(recs):
    out = bytearray()
    for r in recs:
        k = r[0]
        if k == "MB":
            out += b"\xe0" + enc(r[1]) + enc(r[2])
        elif k == "AD":
            out += b"\xec" + enc(r[1]) + enc(r[2]) + (bytes([ord(r[3]) + 0x80]) if r[3] else b"")
        elif k == "ASW":
            out += b"\xe2\xd7" + bytes([r[1]]) + enc(r[2])
        elif k == "NN":
            out += b"\xf0" + enc(r[1]) + enc(r[2])
        elif k == "ATN":
            out += b"\xf1\xce" + enc(r[1]) + enc(r[2]) + bytes([r[3]]) + b"".join(map(enc, r[4]))
        elif k == "ST":
            out += b"\xe6" + enc(r[1]) + bytes(ord(c) + 0x80 for c in r[2]) + enc(r[3]) + enc(r[4])
        elif k == "SA":
            out += b"\xe7" + enc(r[1]) + enc(r[2]) + enc(r[3])
        elif k in E2:
            out += b"\xe2" + bytes([E2[k]]) + enc(r[1]) + enc(r[2])
        elif k == "NI":
            out += b"\xe8" + enc(r[1]) + enc(r[2])
        elif k == "ATI":
            out += b"\xf1\xc9" + enc(r[1]) + enc(r[2]) + bytes([r[3]]) + b"".join(map(enc, r[4])) + enc(r[5])
        elif k == "NX":
            out += b"\xe9" + enc(r[1]) + enc(r[2])
        elif k == "ATX":
            out += b"\xf1\xd8" + b"".join(map(enc, r[1:]))
        elif k == "WX":
            out += b"\xf4" + b"".join(map(enc, r[1:]))
        elif k == "NC":
            out += b"\xfb" + enc(r[1]) + enc(r[2])
        elif k == "BB":
            vals = [enc(v) for v in r[3]]
            if r[1] == 11:
                vals.insert(4, b"\x90")
            out += b"\xf8" + bytes([r[1]]) + enc(r[2]) + b"".join(vals) + encode(r[4]) + b"\xf9" + enc(r[5])
        elif k == "TY":
            out += b"\xf2" + enc(r[1]) + b"\xce" + enc(r[2]) + b"".join(map(enc, r[3]))
        elif k == "SB":
            out += b"\xe5" + enc(r[1])
        elif k == "LD":
            out += b"\xed" + enc(r[1]) + r[2]
        elif k == "ASG":
            out += b"\xe2\xc7\xbe" + enc(r[1]) + b"\xbf"
    return bytes(out)


PARTS = ["AD Extension", "Environment", "Section", "External", "Debug", "Data", "Trailer", "Module End"]
FORMATS = {1: "Absolute (not relinkable)", 2: "Relocatable", 3: "Loadable", 4: "Library"}
MODELS = ["tiny", "small", "medium", "compact", "large", "big", "huge"]
CASES = {1: "case insensitiv", 2: "case sensitiv"}
BLOCK_FIELDS = {
    1: ("module_name",),
    2: ("zeroLengthName",),
    3: ("module_name",),
    4: ("functionName", "stackSpaceRequired", "typeIndexOfReturnValue", "offsetExpr"),
    5: ("sourceFilename", "year", "month", "day", "hour", "minute", "second"),
    6: ("functionName", "stackRequired", "typeIndexForReturnValue", "offsetExpr"),
    10: ("module_name", "objFileName", "toolType", "versionRevision", "year", "month", "day", "hour", "minute", "second"),
    11: ("zeroLengthName", "sectionType", "sectionIndex", "offsetExpr", "sectionMapping"),
}


def tree(recs, names):
    res = []
    for r in recs:
        if r[0] == "BB":
            vals = [v[0] for v in r[3]]
            vals += [None] * (len(BLOCK_FIELDS[r[1]]) - len(vals))
            res.append((f"BB{r[1]}", r[1], r[2][0], vals, tree(r[4], names)))
        elif r[0] == "NN":
            names[r[1][0]] = r[2][0]
    return res


def model(recs):
    m = {"info": {"ASWs": {}}, "sections": {}, "symbols": {}, "external": {}, "contexts": {}, "names": {}, "data": b""}
    info = m["info"]
    for r in recs:
        k = r[0]
        if k == "MB":
            info["processor"], info["module"] = r[1][0], r[2][0]
        elif k == "AD":
            info["numberOfBits"], info["numberOfMAUs"], info["byteOrder"] = r[1][0], r[2][0], r[3]
            info["adressWidth"] = r[1][0] * r[2][0]
        elif k == "ASW":
            info["ASWs"][r[1]] = (PARTS[r[1]], r[2][0])
        elif k == "ATN":
            v = [x[0] for x in r[4]]
            if r[3] == 37:
                info["objectFormatVersionNumber"], info["objectFormatRevisionLevel"] = v
            elif r[3] == 38:
                info["objectFormatType"] = FORMATS[v[0]]
            elif r[3] == 39:
                info["symbolCaseSensitivity"] = CASES[v[0]]
            elif r[3] == 40:
                info["memoryModel"] = MODELS[v[0]]
            elif r[3] == 50:
                info["creationDate"] = datetime(*v)
            elif r[3] in (51, 52, 53, 55):
                info[{51: "commandLine", 52: "executionStatus", 53: "hostEnvironment", 55: "comments"}[r[3]]] = v[0]
        elif k == "ST":
            m["sections"][r[1][0]] = {
                "sectionType": r[2], "sectionName": r[3][0] if r[3] else None, "parentSectionIndex": r[4][0] if r[4] else None,
                "regionSize": [], "physicalAddress": [], "sectionOffset": [], "mauSize": 0, "mValue": None,
            }  # fmt: skip
        elif k == "SA":
            s = m["sections"][r[1][0]]
            align, page = [f[0] if f else None for f in r[2:]]
            s["boundaryAlignment"], s["pageSize"] = None if align is None else 2**align, page
        elif k in ("ASA", "ASB", "ASR"):
            m["sections"][r[1][0]][{"ASA": "regionSize", "ASB": "physicalAddress", "ASR": "sectionOffset"}[k]].append(r[2][0])
        elif k in ("ASS", "ASF", "ASL", "ASM"):
            m["sections"][r[1][0]][{"ASS": "sectionSize", "ASF": "mauSize", "ASL": "sectionBaseAddr", "ASM": "mValue"}[k]] = r[2][0]
        elif k == "NI":
            m["symbols"][r[1][0]] = {"nameIndex": r[1][0], "symbolName": r[2][0]}
        elif k == "ASI":
            m["symbols"][r[1][0]]["expr"] = r[2][0]
        elif k == "ATI":
            s = m["symbols"][r[1][0]]
            s.update(symbolTypeIndex=r[2][0], attrDef=r[3], numberOfElements=r[5][0] if r[5] else 0)
            if r[3] == 16:
                v = [x[0] for x in r[4]] + [None] * (4 - len(r[4]))
                s.update(symbolClass=v[0], publicLocalIndicator=v[1], numericValue=v[2], stringValue=v[3])
        elif k == "NX":
            m["external"][r[1][0]] = {"symbolName": r[2][0]}
        elif k == "ATX":
            m["external"][r[1][0]].update(typeIndex=r[2][0], sectionIndex=r[3][0], shortExternalFlag=r[4][0])
        elif k == "WX":
            m["external"][r[1][0]].update(defaultSize=r[2][0], defaultValue=r[3][0])
        elif k == "NC":
            m["contexts"][r[1][0]] = r[2][0]
        elif k == "NN":
            m["names"][r[1][0]] = r[2][0]
        elif k == "BB":
            tree([r], m["names"])
        elif k == "LD":
            m["data"] += r[2]
        elif k == "ASG":
            info["executionStartingAddr"] = r[1][0]
    m["tree"] = tree(recs, {})
    return m


def got_tree(node):
    res = []
    for c in node.children:
        require(c.parent is node, "block {} has another parent", c.name)
        res.append((c.name, c.blockType, c.blockSize, [getattr(c, f) for f in BLOCK_FIELDS[c.blockType]], got_tree(c)))
    return res


def pick(obj, like):
    return {k: getattr(obj, k, "-missing-") for k in like}


def read(case, ctx):
    raw = encode(case) + b"\xe1"
    want = model(case)
    rd = ieee695.Reader(io.BytesIO(raw))
    same(pick(rd.info, want["info"]), want["info"], "module information")
    extra = set(vars(rd.info)) - set(want["info"]) - {"objectFormatRevisionLevel"}
    require(not extra, "values out of nowhere: {}", sorted(extra))
    for what, have in (("sections", rd.sections), ("symbols", rd.symbols), ("external", rd.externalSymbols)):
        same(sorted(have), sorted(want[what]), what)
        for i, w in want[what].items():
            same(pick(have[i], w), w, f"{what} #{i}")
    same(rd.contexts, want["contexts"], "contexts")
    same({k: v.name for k, v in rd.nnRecords.items()}, want["names"], "names")
    same(len(rd.debugInformation), 1, "roots")
    same(got_tree(rd.debugInformation[0]), want["tree"], "blocks")
    same(bytes(rd.dbCollection), want["data"], "data")
    kinds = {r[0] for r in case}
    for k in kinds:
        ctx.event(k)
    ctx.nontrivial(bool(kinds & {"ST", "NI", "NX", "BB", "LD"}))


@st.composite
def broken(draw):
    return draw(modules()), draw(st.integers(0, 4)), draw(st.integers(0, 10**6)), draw(st.sampled_from([0x00, 0x41, 0x7F, 0x80, 0xDE, 0xE4, 0xEE, 0xFC, 0xFF]))


def cut(case, ctx):
    recs, how, where, code = case
    raw = encode(recs)
    if how:
        raw = raw[: where % (len(raw) + 1)]
        what = f"file cut off after {len(raw)} bytes"
    else:
        at = where % (len(recs) + 1)
        if at == 0:
            at = len(recs)
        if recs[at - 1][0] in ("TY", "ATN", "ATI", "AD", "ST", "SA", "BB") and code < 0xE0:
            code = 0xFF  # else an optional field.
        raw = encode(recs[:at]) + bytes([code]) + encode(recs[at:]) + b"\xe1"
        what = f"record header 0x{code:02x}"
    try:
        ieee695.Reader(io.BytesIO(raw))
    except Exception as e:
        ctx.event(type(e).__name__)
    else:
        raise Violation(f"{what} isn't noticed")
    ctx.event("cut" if how else "header")
    ctx.nontrivial(True)


def subs():
    return [
        Sub("read", modules(), read, quick=5000, thorough=80000, shards=8),
        Sub("cut", broken(), cut, quick=2000, thorough=30000, shards=4),
    ]
