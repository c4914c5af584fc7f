"""Generator of DWARF debugging information, serialised here, together with what a reader must find.

A case is plain data; ``build`` returns the debug sections and, per unit, the tree of
:class:`Node`. Shares no code (and no constants) with objutils.
"""

import struct

from hypothesis import strategies as st

from vf.core import HarnessError
from vf.dwarfnames import AT, ATE, LANG, OP, TAG, VENDOR_AT, VENDOR_TAG

# ---------------------------------------------------------------- LEB128


def uleb(v, pad=0):
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        out.append(b | (0x80 if v else 0))
        if not v:
            break
    if pad > len(out):
        out[-1] |= 0x80
        out += b"\x80" * (pad - len(out) - 1) + b"\0"
    return bytes(out)


def sleb(v):
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        if (v == 0 and not b & 0x40) or (v == -1 and b & 0x40):
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)


def num(bits, signed=False):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    edges = [lo, hi, 0, 1, lo + 1, hi - 1, hi // 2, hi // 2 + 1, 127, 128] + ([-1, -64, -65, -128] if signed else [])
    return st.one_of(st.integers(max(lo, -9), min(hi, 200)), st.integers(lo, hi), st.sampled_from([e for e in edges if lo <= e <= hi]))


ULEB = st.one_of(num(7), num(14), num(32), num(64))
SLEB = st.one_of(num(7, True), num(14, True), num(32, True), num(64, True))

# ---------------------------------------------------------------- expressions
# operand kinds: 1 2 4 8 (unsigned), -1 -2 -4 -8 (signed), u, s (LEB128), a (target address), o (offset in 32-bit DWARF), B (block, ULEB size), b (block, 1 byte size)

OPERANDS = {
    "addr": "a", "const1u": "1", "const1s": "w", "const2u": "2", "const2s": "x", "const4u": "4", "const4s": "y", "const8u": "8", "const8s": "z",
    "constu": "u", "consts": "s", "pick": "1", "plus_uconst": "u", "bra": "x", "skip": "x", "regx": "u", "fbreg": "s", "bregx": "us", "piece": "u",
    "deref_size": "1", "xderef_size": "1", "call2": "2", "call4": "4", "call_ref": "4", "bit_piece": "uu", "implicit_value": "B",
    "implicit_pointer": "4s", "addrx": "u", "constx": "u", "entry_value": "B", "const_type": "ub", "regval_type": "uu", "deref_type": "1u",
    "xderef_type": "1u", "convert": "u", "reinterpret": "u",
}  # fmt: skip
OPS = {code: (name, OPERANDS.get(name, "")) for code, name in OP.items()}
for _i in range(32):
    OPS[0x30 + _i] = (f"lit{_i}", "")
    OPS[0x50 + _i] = (f"reg{_i}", "")
    OPS[0x70 + _i] = (f"breg{_i}", "s")
OPS.update({
    0xF2: ("GNU_implicit_pointer", "4s"), 0xF3: ("GNU_entry_value", "B"), 0xF4: ("GNU_const_type", "ub"), 0xF5: ("GNU_regval_type", "uu"),
    0xF6: ("GNU_deref_type", "1u"), 0xF7: ("GNU_convert", "u"), 0xF9: ("GNU_reinterpret", "u"), 0xFA: ("GNU_parameter_ref", "4"),
    0xFB: ("GNU_addr_index", "u"), 0xFC: ("GNU_const_index", "u"), 0xFD: ("GNU_variable_value", "4"), 0xF0: ("GNU_uninit", ""),
    0xF8: ("PGI_omp_thread_num", ""),
})  # fmt: skip
FIXED = {"1": "B", "2": "H", "4": "I", "8": "Q", "w": "b", "x": "h", "y": "i", "z": "q"}
FIXED_VALUES = {"1": num(8), "2": num(16), "4": num(32), "8": num(64), "w": num(8, True), "x": num(16, True), "y": num(32, True), "z": num(64, True)}
CODES = sorted(OPS)
WITH_OPERANDS = [c for c in CODES if OPS[c][1] and not 0x70 <= c < 0x90]
BLOCK = st.one_of(st.binary(max_size=6), st.binary(min_size=100, max_size=200))


@st.composite
def operation(draw, bits):
    code = draw(st.one_of(st.sampled_from(CODES), st.sampled_from(WITH_OPERANDS), st.sampled_from(WITH_OPERANDS)))
    vals = []
    for k in OPS[code][1]:
        if k == "u":
            vals.append(draw(ULEB))
        elif k == "s":
            vals.append(draw(SLEB))
        elif k == "a":
            vals.append(draw(num(bits)))
        elif k in "Bb":
            vals.append(draw(BLOCK))
        else:
            vals.append(draw(FIXED_VALUES[k]))
    return (code, vals)


def expression(bits, max_size=6):
    return st.lists(operation(bits), max_size=max_size)


def encode_expr(ops, bits, le):
    e = "<" if le else ">"
    out = b""
    for code, vals in ops:
        out += bytes([code])
        for k, v in zip(OPS[code][1], vals):
            if k == "u":
                out += uleb(v)
            elif k == "s":
                out += sleb(v)
            elif k == "a":
                out += struct.pack(e + {32: "I", 64: "Q"}[bits], v)
            elif k == "B":
                out += uleb(len(v)) + v
            elif k == "b":
                out += bytes([len(v)]) + v
            else:
                out += struct.pack(e + FIXED[k], v)
    return out


def text_of(v):
    if isinstance(v, bytes):
        return f"[{v.hex(' ')}]"
    return f"0x{v:08x}" if v > 0 else f"{v}"


def expr_text(ops):
    """Names are compared without the trailing underscore some of them need in Python."""
    return "; ".join(f"{OPS[code][0]}({', '.join(text_of(v) for v in vals)})" for code, vals in ops)


def normal_text(text):
    return "; ".join(part[: part.index("(")].rstrip("_") + part[part.index("(") :] if "(" in part else part for part in text.split("; "))


# ---------------------------------------------------------------- attributes

ACCESS = {1: "public", 2: "protected", 3: "private"}
ENCODED = {
    0x3E: ATE, 0x13: LANG, 0x32: ACCESS, 0x17: {1: "local", 2: "exported", 3: "qualified"}, 0x4C: {0: "none", 1: "virtual", 2: "pure_virtual"},
    0x42: {0: "case_sensitive", 1: "up_case", 2: "down_case", 3: "case_insensitive"}, 0x36: {1: "normal", 2: "program", 3: "nocall", 4: "pass_by_reference", 5: "pass_by_value"},
    0x20: {0: "not_inlined", 1: "inlined", 2: "declared_not_inlined", 3: "declared_inlined"}, 0x09: {0: "row_major", 1: "col_major"},
    0x65: {0: "default", 1: "big", 2: "little"}, 0x8B: {0: "no", 1: "in_class", 2: "out_of_class"},
    0x5E: {1: "unsigned", 2: "leading_overpunch", 3: "trailing_overpunch", 4: "leading_separate", 5: "trailing_separate"},
}  # fmt: skip
LOCATIONS = (0x02, 0x40, 0x2A, 0x38, 0x4D, 0x2111, 0x2113)
GENERIC = [a for a in [*AT, *VENDOR_AT] if a not in ENCODED and a not in LOCATIONS and a != 0x3D]  # discr_list: a block by definition
UNKNOWN_AT = [0x0E, 0x8D, 0xFF, 0x1234, 0x1FFF, 0x2E00, 0x3FFE]
UNKNOWN_TAG = [0x4C, 0x100, 0x4200, 0x5555, 0xB123]

(ADDR, BLOCK2, BLOCK4, DATA2, DATA4, DATA8, STRING, BLOCKU, BLOCK1, DATA1, FLAG, SDATA, STRP, UDATA, REF_ADDR, REF1, REF2, REF4, REF8, REF_UDATA) = (
    0x01, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15)  # fmt: skip
SEC_OFFSET, EXPRLOC, FLAG_PRESENT, LINE_STRP, REF_SIG8, IMPLICIT = 0x17, 0x18, 0x19, 0x1F, 0x20, 0x21
LOCAL_REFS = {REF1: 1, REF2: 2, REF4: 4, REF8: 8, REF_UDATA: 0}
BLOCKS = (BLOCKU, BLOCK1, BLOCK2, BLOCK4, EXPRLOC)
INTS = (DATA1, DATA2, DATA4, DATA8, UDATA, SDATA, IMPLICIT)
WIDTH = {DATA1: 1, DATA2: 2, DATA4: 4, DATA8: 8, FLAG: 1, SEC_OFFSET: 4, REF_SIG8: 8, REF_ADDR: 4}
FMT = {1: "B", 2: "H", 4: "I", 8: "Q"}
ALL_FORMS = [ADDR, BLOCK2, BLOCK4, DATA2, DATA4, DATA8, STRING, BLOCKU, BLOCK1, DATA1, FLAG, SDATA, STRP, UDATA, SEC_OFFSET, EXPRLOC, FLAG_PRESENT, LINE_STRP,
             REF_SIG8, IMPLICIT, REF_ADDR, REF1, REF2, REF4, REF8, REF_UDATA]  # fmt: skip
NAMES = st.one_of(
    st.sampled_from(["", "x", "int", "main", "/src/a.c", "GNU C17 13.3.0 -mtune=generic -g -O2", "unsigned int", "signed int"]),
    st.text(st.characters(min_codepoint=1, max_codepoint=0x2FFF, exclude_categories=["Cs"]), max_size=10),
    st.one_of(  # Names of templates' instances are long.
        [st.text("ab<:é ", max_size=6)] * 3
        + [st.tuples(st.text("abZ_é", min_size=1, max_size=9), st.sampled_from([15, 31, 99, 513])).map(lambda t: t[0] * t[1])]
    ),
)


FAR_CODES = st.sampled_from([(DATA8, 64), (UDATA, 64), (SDATA, 63), (IMPLICIT, 63), (DATA4, 32)]).flatmap(lambda f: st.tuples(st.just(f[0]), num(f[1]).map(lambda v: v | 1 << 17)))


@st.composite
def attribute(draw, bits, addr_size):
    kind = draw(st.sampled_from(["generic"] * 6 + ["encoded", "location", "location", "unknown", "list"]))
    if kind == "encoded":
        at = draw(st.sampled_from(sorted(ENCODED)))
        form = draw(st.sampled_from(INTS))
        v = draw(st.one_of(st.sampled_from(sorted(ENCODED[at])), st.sampled_from(sorted(ENCODED[at])), st.sampled_from([0x2C, 0x58, 0x79])))
        if form == DATA1 and v > 255:
            form = DATA2
        if draw(st.integers(0, 9)) == 0:  # not one of the known ones
            form, v = draw(FAR_CODES)
        return (at, form, v)
    if kind == "location":
        at = draw(st.sampled_from(LOCATIONS))
        form = draw(st.sampled_from(BLOCKS + (EXPRLOC, EXPRLOC, SEC_OFFSET, DATA4, DATA1, UDATA, IMPLICIT)))
        if form in BLOCKS:
            ops = draw(expression(bits, 4))
            if addr_size * 8 != bits:
                ops = [o for o in ops if OPS[o[0]][0] != "addr"]
            if form == BLOCK1 and len(encode_expr(ops, bits, True)) > 255:
                form = BLOCK2
            return (at, form, ops)
        if form == IMPLICIT:
            return (at, form, draw(num(20)))
        return (at, form, draw(form_value(form, addr_size)))
    if kind == "list":
        form = draw(st.sampled_from([BLOCKU, BLOCK1, BLOCK2, BLOCK4]))
        return (0x3D, form, draw(st.binary(max_size=9)))
    at = draw(st.sampled_from(GENERIC) if kind == "generic" else st.sampled_from(UNKNOWN_AT))
    form = draw(st.sampled_from(ALL_FORMS))
    return (at, form, draw(form_value(form, addr_size)))


def form_value(form, addr_size):
    if form == ADDR:
        return num(8 * addr_size)
    if form in WIDTH and form != REF_ADDR:
        return num(8 * WIDTH[form])
    if form == UDATA:
        return ULEB
    if form in (SDATA, IMPLICIT):
        return SLEB
    if form in (STRING, STRP, LINE_STRP):
        return NAMES
    if form in BLOCKS:
        huge = st.tuples(st.integers(0, 255), st.just(255 if form == BLOCK1 else 65535 if form == BLOCK2 else 66000)).map(lambda t: bytes([t[0]]) * t[1])
        return st.integers(0, 11).flatmap(lambda k: huge if k == 11 else st.binary(min_size=120, max_size=140) if k > 5 else st.binary(max_size=5))
    if form == FLAG_PRESENT:
        return st.just(1)
    return st.integers(0, 60)  # references: number of the DIE, modulo


@st.composite
def unit(draw, bits):
    version = draw(st.sampled_from([2, 3, 4, 4, 5, 5, 5]))
    addr_size = draw(st.sampled_from([bits // 8] * 6 + [1, 2, 4, 8]))
    n = draw(st.integers(1, draw(st.sampled_from([2, 6, 14]))))
    nattr = draw(st.sampled_from([0, 2, 4]))
    deep = draw(st.integers(0, 24)) == 0
    if deep:
        n, nattr = draw(st.integers(16, 60)), 1
    dies = []
    for i in range(n):
        tag = draw(st.sampled_from(sorted(TAG) * 4 + sorted(VENDOR_TAG) * 2 + UNKNOWN_TAG))
        attrs = draw(st.lists(attribute(bits, addr_size), max_size=nattr))
        if version == 2 and addr_size < 4:  # a reference of the size of an address, which may not reach its target
            attrs = [a for a in attrs if a[1] != REF_ADDR]
        # position in the tree: how many levels up from the previous DIE
        dies.append((draw(st.sampled_from([0] * 20 + [1, 2, 9] if deep else [0, 0, 0, 1, 1, 2, 3])) if i else 0, tag, attrs, draw(st.sampled_from([False, False, True]))))
    return {
        "version": version,
        "type": draw(st.sampled_from([1, 1, 1, 2, 3, 4, 5, 6])) if version == 5 else 1,
        "addr": addr_size,
        "dies": dies,
        "table": draw(st.integers(0, 2)),
        "pad": draw(st.sampled_from([0, 0, 0, 1, 2, 5])),
        "ids": (draw(num(64)), draw(num(32))),
    }


@st.composite
def specs(draw, max_units=3):
    bits = draw(st.sampled_from([32, 64]))
    return {
        "bits": bits,
        "le": draw(st.booleans()),
        "units": draw(st.lists(unit(bits), min_size=1, max_size=max_units)),
        "codes": draw(st.sampled_from([1, 1, 2, 37, 127, 128, 256, 1000, 1 << 14, 1 << 15, 1 << 16, 1 << 31])),
        "order": draw(st.integers(0, 10**6)),
        "decoys": draw(st.integers(0, 2)),
        "dup": draw(st.booleans()),
        "share": draw(st.booleans()),
        "global": draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3])),  # other names of the sections
        # how far from the beginning the tables are
        "far": draw(st.sampled_from([(0, 0)] * 4 + [(1, 1), (300, 255), (65535, 70000), (66000, 300), (1 << 16, 1 << 16)])),
    }


# ---------------------------------------------------------------- serialisation


class Node:
    def __init__(self, tag, offset):
        self.tag = tag
        self.offset = offset
        self.attrs = []  # (at, form, raw, display)
        self.kids = []

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


class Strings:
    def __init__(self, share, far=0):
        self.data = bytearray(b"#" * far + (b"\0" if share else b"junk\0"))
        self.share = share

    def add(self, s):
        b = s.encode("utf-8") + b"\0"
        if self.share:
            i = bytes(self.data).find(b)
            if i >= 0:
                return i
        i = len(self.data)
        self.data += b
        return i


def build(spec):
    try:
        return _build(spec)
    except Exception as e:
        raise HarnessError(f"generator: {e!r}") from e


def _build(spec):
    e = "<" if spec["le"] else ">"
    bits = spec["bits"]
    far = spec.get("far", (0, 0))
    strs, lstrs = Strings(spec["share"], far[1]), Strings(not spec["share"], far[1])

    # 1. trees
    trees = []
    for u in spec["units"]:
        nodes = []
        stack = []
        for up, tag, attrs, leaf in u["dies"]:
            item = dict(tag=tag, attrs=attrs, kids=[], leaf=leaf)
            if stack:
                del stack[max(1, len(stack) - up) :]
                stack[-1]["kids"].append(item)
            stack.append(item)
            nodes.append(item)
        trees.append(nodes)

    # 2. abbreviation tables
    tables = {}
    for u, nodes in zip(spec["units"], trees):
        tab = tables.setdefault(u["table"], {})
        for n in nodes:
            has = bool(n["kids"]) or n["leaf"]
            decl = (n["tag"], has, tuple((at, form, v if form == IMPLICIT else None) for at, form, v in n["attrs"]))
            key = (decl, len(tab) if spec["dup"] else 0)
            tab.setdefault(key, None)
            n["key"], n["has"] = key, has
    blob = b"\xff" * far[0]
    offsets = {}
    rnd = spec["order"]
    for t in sorted(tables, key=lambda t: (rnd >> t) & 1):
        tab = tables[t]
        keys = list(tab)
        for d in range(spec["decoys"]):
            keys.insert((rnd + d) % (len(keys) + 1), ((0x2E + d, True, ((3, STRING, None), (0x3B, IMPLICIT, -3 - d))), ("decoy", d)))
        shuffled = []
        k = rnd
        while keys:
            k, j = divmod(k * 7919 + 13, len(keys))
            shuffled.append(keys.pop(j))
        codes = [1 + ((i * 5 + rnd) % (len(shuffled) * 7 + 1)) * spec["codes"] for i in range(len(shuffled))]
        if len(set(codes)) != len(codes):
            codes = [1 + i * spec["codes"] for i in range(len(shuffled))]
        offsets[t] = len(blob)
        for key, code in zip(shuffled, codes):
            tab[key] = code
            tag, has, attrs = key[0]
            blob += uleb(code) + uleb(tag) + bytes([has])
            for at, form, const in attrs:
                blob += uleb(at) + uleb(form) + (sleb(const) if form == IMPLICIT else b"")
            blob += b"\0\0"
        blob += b"\0"

    # 3. units: layout (all sizes are known beforehand), then references are filled in
    info = bytearray()
    fixups = []
    units = []
    every = []
    for u, nodes in zip(spec["units"], trees):
        start = len(info)
        head = struct.pack(e + "IH", 0, u["version"])
        if u["version"] < 5:
            head += struct.pack(e + "IB", offsets[u["table"]], u["addr"])
        else:
            head += struct.pack(e + "BBI", u["type"], u["addr"], offsets[u["table"]])
            if u["type"] in (2, 6):
                head += struct.pack(e + "QI", *u["ids"])
            elif u["type"] in (4, 5):
                head += struct.pack(e + "Q", u["ids"][0])
        info += head
        mine = []

        def emit(n):
            node = Node(n["tag"], len(info))
            mine.append(node)
            info.extend(uleb(tables[u["table"]][n["key"]]))
            for at, form, v in n["attrs"]:
                raw, disp = v, None
                if form == ADDR:
                    info.extend(struct.pack(e + FMT[u["addr"]], v))
                elif form in WIDTH and form != REF_ADDR:
                    info.extend(struct.pack(e + FMT[WIDTH[form]], v))
                elif form == UDATA:
                    info.extend(uleb(v))
                elif form == SDATA:
                    info.extend(sleb(v))
                elif form == STRING:
                    info.extend(v.encode("utf-8") + b"\0")
                elif form == STRP:
                    info.extend(struct.pack(e + "I", strs.add(v)))
                elif form == LINE_STRP:
                    info.extend(struct.pack(e + "I", lstrs.add(v)))
                elif form in BLOCKS:
                    if isinstance(v, list):
                        raw = encode_expr(v, bits, spec["le"])
                        disp = ("expr", expr_text(v))
                    size = {BLOCK1: "B", BLOCK2: "H", BLOCK4: "I"}.get(form)
                    info.extend(struct.pack(e + size, len(raw)) if size else uleb(len(raw)))
                    info.extend(raw)
                elif form == REF_ADDR or form in LOCAL_REFS:
                    fixups.append((len(info), form, v, start, mine, node, len(node.attrs), u["addr"] if u["version"] == 2 else 4))
                    info.extend(b"\0" * (u["addr"] if form == REF_ADDR and u["version"] == 2 else 4 if form == REF_ADDR else LOCAL_REFS[form] or 3))
                elif form not in (FLAG_PRESENT, IMPLICIT):
                    raise HarnessError(f"form {form}")
                if disp is None:
                    if at in ENCODED and isinstance(raw, int):
                        name = ENCODED[at].get(raw)
                        disp = ("enc", name, f"(0x{raw:08x})" if name is not None else f"({raw}) (0x{raw:08x})")
                    elif at in LOCATIONS:
                        disp = ("text", f"0x{raw:08x}")
                    else:
                        disp = ("same",)
                node.attrs.append((at, form, raw, disp))
            if n["has"]:
                for k in n["kids"]:
                    node.kids.append(emit(k))
                info.append(0)
            return node

        root = emit(nodes[0])
        info += b"\0" * u["pad"]
        struct.pack_into(e + "I", info, start, len(info) - start - 4)
        units.append(root)
        every += mine
    for pos, form, k, start, mine, node, i, refsize in fixups:
        if form == REF_ADDR:
            target = every[k % len(every)].offset
            struct.pack_into(e + FMT[refsize], info, pos, target)
        else:
            target = mine[k % len(mine)].offset
            rel = target - start
            if (form == REF1 and rel > 255) or (form == REF2 and rel > 65535):
                target = mine[0].offset
                rel = target - start
            if form == REF_UDATA:
                info[pos : pos + 3] = uleb(rel, 3)
            else:
                struct.pack_into(e + FMT[LOCAL_REFS[form]], info, pos, rel)
        at, form, _, _ = node.attrs[i]
        node.attrs[i] = (at, form, target, ("text", f"0x{target:08x}"))
    g = int(spec["global"])
    return {".debug_global_info" if g & 1 else ".debug_info": bytes(info), ".debug_global_abbrev" if g & 2 else ".debug_abbrev": blob, ".debug_str": bytes(strs.data), ".debug_line_str": bytes(lstrs.data)}, units


def elf_spec(sections, bits, le, order=0):
    """The spec of an ELF file (see elfgen) with these debug sections."""
    secs = [("data", name, 1, 0, 0, body, 0, 0, 1, 0) for name, body in sections.items()]
    text = ("data", ".text", 1, 6, 0x1000, b"\x90" * 16, 0, 0, 1, 0)
    secs.insert(order % (len(secs) + 1), text)
    return {
        "bits": bits, "le": le, "hdr": {"osabi": 0, "abiversion": 0, "type": 2, "machine": 62 if bits == 64 else 40, "version": 1, "entry": 0x1000, "flags": 0},
        "secs": secs, "tables": [], "segs": [], "share": True, "order": order, "pads": [0, 1, 2], "shape": "normal", "names_at": "last",
    }  # fmt: skip
