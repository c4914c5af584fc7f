"""C24: build attributes of ARM files."""

import gc
import json
import os
import struct

from hypothesis import strategies as st

from objutils.elf.arm import attributes

from vf import elfgen
from vf.core import Sub, known_findings, same
from vf.hexutil import Scratch

PROPERTY = "C24"
RULE = (
    "Case = attribute section generated from its parts: 0-3 vendors (repeated ones too) x subsections for file, sections and symbols with their number "
    "lists x attributes (every tag of the ABI, every listed value, values and tags beyond the tables) x byte order; parsed directly and from an "
    "ELF file. Plus every (tag, listed value) pair. Oracle: the parts and a table of the ABI. Non-trivial: more than one attribute."
)
ASSUMPTIONS = ["One attribute section per file, ASCII strings; meanings are only checked for the vendor 'aeabi'."]

with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "armattrs.json")) as f:
    TABLE = {int(k): (n, r, {int(a): b for a, b in v.items()}) for k, (n, r, v) in json.load(f).items()}

TAGS = sorted(set(TABLE) - {1, 2, 3})
DENORMAL = 20  # known finding: described by the texts of Tag_ABI_FP_rounding (19).


def kind(tag):
    if tag in TABLE:
        return TABLE[tag][1]
    return "CSTRING" if tag > 32 and tag & 1 else "ULEB"


TEXT = st.text(st.characters(min_codepoint=1, max_codepoint=126), max_size=12)
UINT = st.one_of(st.integers(0, 20), st.integers(0, 300), st.integers(0, 1 << 40))


@st.composite
def attribute(draw):
    tag = draw(st.one_of(st.sampled_from(TAGS), st.sampled_from(TAGS), st.sampled_from(TAGS), st.integers(4, 80), st.integers(4, 1 << 20)))
    k = kind(tag)
    if k == "CSTRING":
        return tag, draw(TEXT)
    if k == "ULEB_CSTRING":
        return tag, (draw(UINT), draw(TEXT))
    values = sorted(TABLE[tag][2]) if tag in TABLE else []
    return tag, draw(st.one_of(st.sampled_from(values), UINT) if values else UINT)


VENDOR = st.sampled_from(["aeabi", "aeabi", "aeabi", "gnu", "ARM", "A"])
NUMBERS = st.lists(st.one_of(st.integers(1, 9), st.integers(1, 1 << 20)), max_size=3)
SUBSECTION = st.one_of(
    st.tuples(st.just(1), st.just([]), st.lists(attribute(), max_size=8)),
    st.tuples(st.sampled_from([2, 3]), NUMBERS, st.lists(attribute(), max_size=4)),
)
PARTS = st.lists(st.tuples(VENDOR, st.lists(SUBSECTION, max_size=3)), max_size=3)


def uleb(v):
    out = bytearray()
    while True:
        v, b = v >> 7, v & 0x7F
        out.append(b | (0x80 if v else 0))
        if not v:
            return bytes(out)


def encode(parts, le):
    u32 = (lambda v: struct.pack("<I", v)) if le else (lambda v: struct.pack(">I", v))
    out = b"A"
    for vendor, subs_ in parts:
        body = vendor.encode() + b"\0"
        for tag, numbers, attrs in subs_:
            data = b"".join(map(uleb, numbers + [0])) if tag != 1 else b""
            for t, v in attrs:
                data += uleb(t)
                k = kind(t)
                if k == "ULEB":
                    data += uleb(v)
                elif k == "CSTRING":
                    data += v.encode() + b"\0"
                else:
                    data += uleb(v[0]) + v[1].encode() + b"\0"
            body += bytes([tag]) + u32(len(data) + 5) + data
        out += u32(len(body) + 4) + body
    return out


def expected(parts):
    res = {}
    for vendor, subs_ in parts:
        rows = res.setdefault(vendor, [])
        for _, _, attrs in subs_:
            rows.extend(attrs)
    return res


def known_denormal(value, description):
    return description == TABLE[19][2].get(value, value) and "arm-fp-denormal" in known_findings(PROPERTY)


def compare(got, want, what):
    same(sorted(got), sorted(want), f"{what}: vendors")
    for vendor, rows in want.items():
        same([(a.tag, a.value) for a in got[vendor]], rows, f"{what}: attributes of {vendor!r}")
        if vendor != "aeabi":
            continue
        for a in got[vendor]:
            name, _, meaning = TABLE.get(a.tag, (None, None, {}))
            where = f"{what}: tag {a.tag} value {a.value!r}"
            if name is not None:
                same(a.tag_name, name, f"{where}: name")
            right = meaning.get(a.value, a.value) if isinstance(a.value, int) else a.value
            if a.description != right and a.tag == DENORMAL and known_denormal(a.value, a.description):
                continue
            same(a.description, right, f"{where}: meaning")


def parse(case, ctx):
    parts, le = case
    blob = encode(parts, le)
    compare(attributes.parse(blob, byteorder="<" if le else ">"), expected(parts), "section")
    ctx.event("little endian" if le else "big endian")
    ctx.event("several vendors", len(parts) > 1)
    ctx.event("several subsections", any(len(s) > 1 for _, s in parts))
    ctx.event("unknown tag", any(t not in TABLE for _, s in parts for _, _, a in s for t, _ in a))
    ctx.nontrivial(sum(len(a) for _, s in parts for _, _, a in s) > 1)


@st.composite
def files(draw):
    spec = draw(elfgen.specs(max_sections=3, with_symbols=False, simple_header=True, loaded=True))
    spec["secs"] = [s for s in spec["secs"] if s[1] != ".ARM.attributes"]
    parts = draw(st.one_of(st.none(), PARTS, PARTS, PARTS))
    empty = draw(st.integers(0, 9)) == 0
    return spec, parts, empty, draw(st.integers(0, 3))


def elf(case, ctx):
    spec, parts, empty, at = case
    want = {}
    if parts is not None:
        blob = b"" if empty else encode(parts, spec["le"])
        want = {} if empty else expected(parts)
        secs = list(spec["secs"])
        secs.insert(min(at, len(secs)), ("other", ".ARM.attributes", 0x70000003, 0, 0, blob, 0, 0, 1, 0))
        spec = dict(spec, secs=secs)
    w = elfgen.build(spec)
    with Scratch() as tmp:
        path = tmp.path("f.elf")
        elfgen.write(path, w.blob)
        for turn in ("parsed", "cached"):
            with elfgen.Opened(path) as p:
                compare(p.arm_attributes, want, f"file ({turn})")
    gc.collect(0)
    ctx.event("no attributes" if parts is None else "attributes")
    ctx.nontrivial(sum(map(len, want.values())) > 1)


def single(le, ctx):
    """Every listed value of every tag, and those next to the list."""
    for tag in TAGS:
        one_tag(tag, le)
    ctx.nontrivial()


def one_tag(tag, le):
    k = kind(tag)
    values = sorted(set(TABLE[tag][2]) | {0, 1, max(TABLE[tag][2], default=0) + 1, 1 << 33})
    if k == "CSTRING":
        values = ["", "x", "Cortex-M4"]
    elif k == "ULEB_CSTRING":
        values = [(0, ""), (1, "gnu"), (1 << 20, "ARM")]
    parts = [("aeabi", [(1, [], [(tag, v) for v in values])])]
    compare(attributes.parse(encode(parts, le), byteorder="<" if le else ">"), expected(parts), "single")


def probe_denormal():
    blob = encode([("aeabi", [(1, [], [(DENORMAL, 0)])])], True)
    return attributes.parse(blob)["aeabi"][0].description == TABLE[19][2][0]


KNOWN = {"arm-fp-denormal": probe_denormal}


def subs():
    return [
        Sub("parse", st.tuples(PARTS, st.booleans()), parse, quick=4000, thorough=200000, shards=8),
        Sub("elf", files(), elf, quick=800, thorough=30000, shards=8),
        Sub("single", st.booleans(), single, quick=2, thorough=2, shards=2),
    ]
