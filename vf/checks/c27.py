"""C27: look-up tables, line number headers and macro information beside the entries."""

import contextlib
import gc
import io
import re
import struct
import time

from hypothesis import strategies as st

from objutils.dwarf import DwarfProcessor

from vf import dwarfgen, elfgen
from vf.checks.c18 import check_info
from vf.core import HarnessError, Sub, require, same
from vf.dwarfgen import sleb, uleb
from vf.hexutil import Scratch

PROPERTY = "C27"
RULE = (
    "Case = ELF file with debugging information plus generated .debug_pubnames (1-3 sets), .debug_aranges (1-3 sets, any address size), .debug_line "
    "(versions 2-5), .debug_macinfo or .debug_macro, possibly empty, in any class and byte order; the functions of the processor are called in a "
    "generated order. Oracle: the parts the sections were made of. Non-trivial: two sets of public names, or a line header and another table."
)
ASSUMPTIONS = ["32-bit DWARF; text is UTF-8; only the first line number header is shown by the module; file times fit 32 bits."]


def num(bits):
    return st.one_of(st.integers(0, 40), st.integers(0, (1 << bits) - 1), st.integers(0, bits).map(lambda k: min((1 << k), (1 << bits) - 1)))


NAME = st.one_of(
    st.text(st.sampled_from("abcxyz_019.:<>~ "), min_size=1, max_size=12),
    st.text(st.characters(min_codepoint=0x20, max_codepoint=0x2FF, exclude_characters="\x7f"), min_size=1, max_size=16),
    st.sampled_from(["main", "über", "'", '"', "a'b\"c", "\\n", "größe::λ", "x" * 17, "y" * 300]),
)
PUBS = st.lists(
    st.fixed_dictionaries({
        "version": st.one_of(st.just(2), num(16)),
        "info": num(32),
        "size": num(32),
        "entries": st.lists(st.tuples(num(32).map(lambda v: v or 1), NAME), max_size=5),
        "pad": st.sampled_from([0, 0, 0, 1, 2, 3, 4, 8]),
    }),
    min_size=0, max_size=3,
)  # fmt: skip


@st.composite
def aranges(draw):
    out = []
    for _ in range(draw(st.integers(0, 3))):
        size = draw(st.sampled_from([4, 8, 4, 8, 2, 1]))
        n = draw(st.integers(0, 4))
        rows = []
        for _ in range(n):
            row = (draw(num(8 * size)), draw(num(8 * size)))
            rows.append(row if any(row) else (0, 1))
        out.append({"info": draw(num(32)), "size": size, "seg": draw(st.sampled_from([0, 0, 0, 0, 2, 4])), "rows": rows})
    return out


LINE = st.fixed_dictionaries({
    "version": st.sampled_from([2, 3, 4, 5]),
    "min": num(8), "ops": num(8), "stmt": num(8), "base": st.integers(-128, 127), "range": num(8),
    "lengths": st.lists(st.integers(0, 255), max_size=14) | st.lists(st.integers(0, 3), min_size=9, max_size=12) | st.lists(st.integers(0, 3), min_size=127, max_size=254),
    "dirs": st.lists(NAME, max_size=3),
    "files": st.lists(st.tuples(NAME, num(20), num(32), num(40)), max_size=3),
    "program": st.binary(max_size=20),
    "more": st.booleans(),
})  # fmt: skip
MACRO = st.one_of(
    st.tuples(st.sampled_from([1, 2, 255]), num(32), NAME),
    st.tuples(st.just(3), num(20), num(10)),
    st.tuples(st.just(4)),
    st.tuples(st.just(0)),
)
CASE = st.fixed_dictionaries({
    "info": dwarfgen.specs(max_units=1),
    "global": st.sampled_from([False, False, False, True]),
    "pubs": st.one_of(st.none(), PUBS),
    "aranges": st.one_of(st.none(), aranges()),
    "line": st.one_of(st.none(), LINE, LINE),
    "empty": st.lists(st.sampled_from([".debug_line", ".debug_macinfo", ".debug_ranges", ".debug_pubnames", ".debug_aranges", ".debug_loc"]), max_size=2, unique=True),
    "macro": st.one_of(st.none(), st.lists(MACRO, max_size=6), st.tuples(num(16), st.integers(0, 7), num(32), st.binary(max_size=9))),
    "calls": st.permutations(["pubnames", "aranges", "lines", "macros", "info"]),
    "again": st.booleans(),
})  # fmt: skip


def sections(case):
    e = "<" if case["info"]["le"] else ">"

    def pk(fmt, *a):
        return struct.pack(e + fmt, *a)

    out = {}
    if case["pubs"] is not None:
        b = b""
        for s in case["pubs"]:
            body = pk("HII", s["version"], s["info"], s["size"]) + b"".join(pk("I", o) + n.encode() + b"\0" for o, n in s["entries"]) + pk("I", 0) + bytes(s["pad"])
            b += pk("I", len(body)) + body
        out[".debug_pubnames"] = b
    if case["aranges"] is not None:
        b = b""
        fmt = {1: "B", 2: "H", 4: "I", 8: "Q"}
        for s in case["aranges"]:
            unit = 2 * s["size"] + s["seg"]
            body = b"\0" * (-12 % unit)
            for a, n in s["rows"]:
                body += b"\0" * s["seg"] + pk(fmt[s["size"]] * 2, a, n)
            body += b"\0" * unit
            body = pk("HIBB", 2, s["info"], s["size"], s["seg"]) + body
            b += pk("I", len(body)) + body
        out[".debug_aranges"] = b
    if case["line"] is not None:
        out[".debug_global_line" if case["global"] else ".debug_line"] = line_unit(case["line"], pk, case["info"]["bits"]) * (2 if case["line"]["more"] else 1)
    m = case["macro"]
    if isinstance(m, list):
        b = b""
        for t in m:
            b += bytes([t[0]]) if t[0] != 255 else uleb(255)
            b += b"".join(uleb(x) if isinstance(x, int) else x.encode() + b"\0" for x in t[1:])
        out[".debug_macinfo"] = b + b"\0"
    elif m is not None:
        version, flags, off, rest = m
        flags &= 2  # 32-bit offsets, no operand table
        out[".debug_macro"] = pk("HB", version, flags) + (pk("I", off) if flags & 2 else b"") + rest
    for name in case["empty"]:
        if name != ".debug_line" or case["line"] is None:
            out.setdefault(name, b"")
    return out


def line_unit(s, pk, bits):
    v = s["version"]
    rest = pk("BB" if v >= 4 else "B", *([s["min"], s["ops"]] if v >= 4 else [s["min"]]))
    rest += pk("BbBB", s["stmt"], s["base"], s["range"], len(s["lengths"]) + 1) + bytes(s["lengths"])
    if v < 5:
        rest += b"".join(d.encode() + b"\0" for d in s["dirs"]) + b"\0"
        rest += b"".join(n.encode() + b"\0" + uleb(d) + uleb(t) + uleb(n2) for n, d, t, n2 in s["files"]) + b"\0"
    else:
        rest += b"\x01\x01\x08\x01/\0" + b"\x01\x01\x08\x01f\0"
    body = pk("H", v) + (bytes([bits // 8, 0]) if v >= 5 else b"") + pk("I", len(rest)) + rest + s["program"]
    return pk("I", len(body)) + body


FIELD = re.compile(r"^    (\w+) = (.*)$", re.M)


def values(text):
    return {k: v for k, v in FIELD.findall(text)}


def text_is(got, name):
    """construct shows at most 16 characters and the length."""
    m = re.fullmatch(r"u?('(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\")(?:\.\.\. \(truncated, total (\d+)\)| \(total (\d+)\))?", got)
    if not m:
        return False
    import ast

    shown = ast.literal_eval(m.group(1))
    total = m.group(2) or m.group(3)
    if total and int(total) != len(name):
        return False
    return name.startswith(shown) and (len(shown) == len(name) or len(shown) >= 16)


def check_pubs(text, sets):
    blocks = re.split(r"^(?=ENTRY |\d+ Container)", text, flags=re.M)
    blocks = [b for b in blocks if b.strip()]
    want = []
    for s in sets or ():
        want.append(("set", s))
        want += [("entry", en) for en in s["entries"]]
    same(len(blocks), len(want), "public names: number of sets and entries shown")
    for block, (kind, item) in zip(blocks, want):
        got = values(block)
        if kind == "set":
            require(re.match(r"\d+ ", block), "public names: entry shown where a set begins: {}", block)
            same((got.get("version"), got.get("debug_info_offset"), got.get("debug_info_length")), (str(item["version"]), str(item["info"]), str(item["size"])), "public names: set")
        else:
            require(block.startswith("ENTRY"), "public names: set shown instead of an entry: {}", block)
            same(got.get("offset"), str(item[0]), f"public names: offset of {item[1]!r}")
            require(text_is(got.get("name", ""), item[1]), "public names: {} shown for {!r}", got.get("name"), item[1])


def check_line(text, s):
    if s is None:
        same("LineNumber" in text, False, "line header shown though there is none")
        return
    got = values(text)
    v = s["version"]
    want = {"minimum_instruction_length": s["min"], "default_is_stmt": s["stmt"], "line_base": s["base"], "line_range": s["range"], "opcode_base": len(s["lengths"]) + 1}
    if v >= 4:
        want["maximum_operations_per_instruction"] = s["ops"]
    for k, x in want.items():
        same(got.get(k), str(x), f"line header of version {v}: {k}")
    if v == 2:
        lengths = re.search(r"standard_opcode_lengths = ListContainer: ?\n((?:        \d+\n)*)", text)
        got_lengths = [int(x) for x in lengths.group(1).split()] if lengths else []
        same(got_lengths, list(s["lengths"]), "line header: opcode lengths")
        require(f"include_directories = {s['dirs']!r}\n" in text + "\n", "line header: directories {!r} not in {}", s["dirs"], text)
        files = [f"Filename(name={n!r}, dir_index={d}, last_modified={time.ctime(t)!r}, length={k})" for n, d, t, k in s["files"]]
        shown = "{" + ", ".join(f"{i}: {f}" for i, f in enumerate(files, 1)) + "}"
        require(f"file_names = {shown}\n" in text + "\n", "line header: files {} not in {}", shown, text)


def run(case, ctx):
    try:
        sec, units = dwarfgen.build(case["info"])
        extra = sections(case)
        w = elfgen.build(dwarfgen.elf_spec({**sec, **extra}, case["info"]["bits"], case["info"]["le"], case["info"]["order"]))
    except HarnessError:
        raise
    except Exception as e:
        raise HarnessError(f"generator: {e!r}") from e
    with Scratch() as tmp:
        path = tmp.path("f.elf")
        elfgen.write(path, w.blob)
        with contextlib.redirect_stdout(io.StringIO()), elfgen.Opened(path) as parser:
            proc = DwarfProcessor(parser)
            for turn in range(2 if case["again"] else 1):
                for call in case["calls"]:
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        if call == "pubnames":
                            proc.pubnames()
                        elif call == "aranges":
                            proc.aranges()
                        elif call == "lines":
                            proc.do_lines()
                        elif call == "macros":
                            proc.do_mac_info()
                        else:
                            check_info(proc.do_dbg_info(), units, "entries")
                    if call == "pubnames":
                        check_pubs(out.getvalue(), case["pubs"])
                    elif call == "lines":
                        check_line(out.getvalue(), case["line"])
            del proc
    gc.collect(0)
    ctx.event("public names", bool(case["pubs"]))
    ctx.event("several sets", len(case["pubs"] or ()) > 1)
    ctx.event("aranges", bool(case["aranges"]))
    ctx.event("line header", case["line"] is not None)
    ctx.event("macinfo", isinstance(case["macro"], list))
    ctx.event("empty section", any(not v for v in extra.values()))
    ctx.nontrivial(len(case["pubs"] or ()) > 1 or (case["line"] is not None and bool(case["pubs"] or case["aranges"] or case["macro"])))


def subs():
    return [Sub("tables", CASE, run, quick=1200, thorough=40000, shards=8)]
