"""C25: the command line tools show what is in the file."""

import gc
import importlib
import os
import re
import shutil
import subprocess
import sys

from hypothesis import strategies as st

import objutils.elf  # noqa: F401 - loaded once, not in every child

from vf import dwarfgen, elfgen, gen
from vf.checks import c13, c16, c18, c24, c27
from vf.core import HarnessError, Sub, require, same
from vf.hexutil import Scratch, dumps, image

PROPERTY = "C25"
RULE = (
    "Case = a generated hex or ELF file and command line options; the tool runs in a child process, its output is parsed. Oracle: the parts the file "
    "was made of (for compiled programs: readelf). Non-trivial: several sections or symbols, a filter, or a dump."
)
ASSUMPTIONS = ["Names contain no blanks or control characters. The layout of the tools' tables is taken as given, except for white space."]

STDOUT = sys.stdout  # the stream the library saw when it was imported


def run_tool(tmp, name, *args):
    """-> (exit code, standard output)"""
    out = tmp.path("stdout.txt")
    STDOUT.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        gc.disable()
        try:
            fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, STDOUT.fileno())
            sys.stdout = STDOUT
            sys.argv = [name, *args]
            os.chdir(tmp.dir)
            module = importlib.import_module(f"objutils.scripts.{name}")
            try:
                module.main()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            STDOUT.flush()
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    with open(out, encoding="utf-8", newline="") as f:
        text = f.read()
    return os.waitstatus_to_exitcode(status), text


# --- hex files -----------------------------------------------------------

HEX = sorted(gen.CODECS)


def hex_case():
    return st.sampled_from(HEX).flatmap(
        lambda codec: st.tuples(st.just(codec), gen.blocks(gen.CODECS[codec][0] or 64, 4), st.booleans(), st.sampled_from([8, 16, 32]))
    )


def hex_info(case, ctx):
    codec, blks, dump, row = case
    want = gen.canonical(blks)
    with Scratch() as tmp:
        path = tmp.path("f.hex")
        elfgen.write(path, dumps(codec, image(blks), row))
        code, text = run_tool(tmp, "oj_hex_info", codec, path, *(["-d"] if dump else []))
        same(code, 0, f"exit code of oj-hex-info {codec}")
        missing, _ = run_tool(tmp, "oj_hex_info", codec, tmp.path("missing.hex"))
        require(missing not in (0, 99), "missing file: exit code {}", missing)
    what = f"oj-hex-info {codec}"
    m = re.search(r"^ *(\d+) total bytes\n", text, re.M)
    require(m, "{}: no total in {!r}", what, text[-300:])
    head, rest = text[: m.start()], text[m.end() :]
    rows = re.findall(r"^(\d+) +0x([0-9a-f]+) +(\d+) *$", head, re.M)
    same([(int(i), int(a, 16), int(n)) for i, a, n in rows], [(i, a, len(d)) for i, (a, d) in enumerate(want)], f"{what}: sections listed")
    same(int(m[1]), sum(len(d) for _, d in want), f"{what}: total")
    if dump:
        parts = re.split(r"\nSection #(\d+)\n-+\n", rest)
        same(len(parts[2::2]), len(want), f"{what} -d: number of sections dumped")
        for (addr, data), body in zip(want, parts[2::2]):
            same(c13.parse(body, addr, what)[0], data, f"{what} -d: bytes of the section at 0x{addr:x}")
    else:
        same(rest.strip(), "", f"{what}: text after the total")
    ctx.event(codec)
    ctx.event("dump", dump)
    ctx.nontrivial(dump or len(want) > 1)


# --- ELF symbols ---------------------------------------------------------

BINDS = {0: "LOCAL", 1: "GLOBAL", 2: "WEAK", 10: "GNU_UNIQUE"}
STYPES = {0: "NOTYPE", 1: "OBJECT", 2: "FUNC", 3: "SECTION", 4: "FILE", 5: "COMMON", 6: "TLS", 10: "GNU_IFUNC"}


def parse_syms(text):
    """-> [(section, [(name, value, size, bind, type, access)])] in order of appearance"""
    lines = text.split("\n")
    heads = [i for i in range(4, len(lines) - 1) if lines[i] == "Name" and re.fullmatch(r"Value +Size +Bind +Type +Access", lines[i + 1])]
    res = []
    for k, i in enumerate(heads):
        end = heads[k + 1] - 5 if k + 1 < len(heads) else len(lines) - 1
        rows = []
        body = lines[i + 3 : end]
        same(len(body) % 3, 0, f"oj-elf-syms: lines of section {lines[i - 3]!r}: {body[-3:]!r}, remainder")
        for j in range(0, len(body), 3):
            m = re.fullmatch(r"([0-9a-f]+) +(\d+) (\S+) +(\S+) +([ A][ W][ X])", body[j + 1])
            require(m, "oj-elf-syms: line {!r}", body[j + 1])
            rows.append((body[j].rstrip(), int(m[1], 16), int(m[2]), m[3], m[4], m[5]))
        res.append((lines[i - 3], rows))
    return res


def sym_row(s, loose=False):
    a = s["access"]
    acc = "".join(c if a & b else " " for c, b in (("A", 2), ("W", 1), ("X", 4)))
    return s["symbol_name"], s["st_value"], s["st_size"], BINDS.get(s["st_bind"]), STYPES.get(s["st_type"]), acc


OPTS = st.fixed_dictionaries(
    {
        "q": c16.QUERY,
        "order": st.sampled_from([None, "N", "V"]),
        "long": st.booleans(),
    }
)


def selection(q, symbols):
    """-> options of oj-elf-syms, symbols selected"""
    args, want = [], list(symbols)
    if q["name_pattern"]:
        args.append(("p", "pattern", q["name_pattern"]))
        want = [s for s in want if re.match(q["name_pattern"], s["symbol_name"])]
    if q["sections"]:
        args.append(("s", "sections", c16.joined(q["sections"], upper=False)))
        want = [s for s in want if s["section_name"] in q["sections"][0]]
    if q["bindings"]:
        args.append(("b", "bindings", c16.joined(q["bindings"])))
        want = [s for s in want if s["st_bind"] in [c16.BIND[b] for b in q["bindings"][0]]]
    if q["access"]:
        args.append(("a", "access", c16.joined(q["access"])))
        want = [s for s in want if any(s["access"] & c16.ACC[a] for a in q["access"][0])]
    if q["types_str"]:
        args.append(("t", "types", c16.joined(q["types_str"])))
        want = [s for s in want if s["st_type"] in [c16.TYPES[t] for t in q["types_str"][0]]]
    return args, want


def compare_syms(text, want, by_value, what):
    got = parse_syms(text)
    names = [sec for sec, _ in got]
    same(names, sorted({s["section_name"] for s in want}), f"{what}: sections")
    key = (lambda r: r[1]) if by_value else (lambda r: r[0])
    for sec, rows in got:
        same([key(r) for r in rows], sorted(key(r) for r in rows), f"{what}: order in {sec!r}")
        left = [sym_row(s) for s in want if s["section_name"] == sec]
        for r in rows:
            m = next((w for w in left if w[:3] == r[:3] and w[5] == r[5] and w[3] in (None, r[3]) and w[4] in (None, r[4])), None)
            require(m is not None, "{}: section {!r} shows {!r}, which isn't there (again)", what, sec, r)
            left.remove(m)
        same(left, [], f"{what}: symbols of {sec!r} that are missing")


def elf_syms(case, ctx):
    spec, opts = case
    w = elfgen.build(spec)
    args, want = selection(opts["q"], w.symbols)
    argv = []
    for short, long, value in args:
        argv += [f"--{long}={value}"] if opts["long"] else [f"-{short}{value}"]
    if opts["order"]:
        argv += [f"--order-by={opts['order']}"] if opts["long"] else ["-o", opts["order"]]
    with Scratch() as tmp:
        path = tmp.path("f.elf")
        elfgen.write(path, w.blob)
        code, text = run_tool(tmp, "oj_elf_syms", path, *argv)
    what = f"oj-elf-syms {' '.join(argv)}"
    same(code, 0, f"{what}: exit code")
    compare_syms(text, want, opts["order"] != "N", what)
    ctx.event("filtered", bool(args))
    ctx.event("ordered by name", opts["order"] == "N")
    ctx.nontrivial(len(want) > 1)


# --- ELF info ------------------------------------------------------------

SEC_TYPES = {0: "NULL", 1: "PROGBITS", 2: "SYMTAB", 3: "STRTAB", 4: "RELA", 5: "HASH", 6: "DYNAMIC", 7: "NOTE", 8: "NOBITS", 9: "REL", 11: "DYNSYM", 14: "INIT_ARRAY", 15: "FINI_ARRAY", 16: "PREINIT_ARRAY", 17: "GROUP", 0x6FFFFFF6: "GNU_HASH"}  # fmt: skip
SEG_TYPES = {0: "NULL", 1: "LOAD", 2: "DYNAMIC", 3: "INTERP", 4: "NOTE", 6: "PHDR", 7: "TLS", 0x6474E551: "GNU_STACK"}
FILE_TYPES = {0: "NONE", 1: "REL", 2: "EXEC", 3: "DYN", 4: "CORE"}
OSABI = {0: "NONE", 3: "GNU", 9: "FREEBSD", 97: "ARM", 255: "STANDALONE"}


def chapters(text):
    """-> {title: [lines]} in order; "" = what comes first."""
    lines = text.split("\n")
    res, title, cur = [], "", []
    i = 0
    while i < len(lines):
        if i + 2 < len(lines) and re.fullmatch("=+", lines[i]) and lines[i + 2] == lines[i] and len(lines[i + 1]) == len(lines[i]):
            res.append((title, cur))
            title, cur = lines[i + 1], []
            i += 3
            continue
        if lines[i] == "" and lines[i + 1 : i + 5] == [""] * 3 + ["Type Name            Desc"]:  # a note section without a name
            res.append((title, cur))
            title, cur = None, []
            i += 4
            continue
        cur.append(lines[i])
        i += 1
    res.append((title, cur))
    return [(t, [ln for ln in body if ln.strip()]) for t, body in res]


def known(table, number, text, what):
    require(table.get(number, text) == text, "{}: {:#x} shown as {!r}", what, number, text)


def check_sections(body, sections):
    rows = body[2:]
    same(len(rows), len(sections), "oj-elf-info: number of sections")
    for ln, s in zip(rows, sections):
        m = re.fullmatch(r"(\S*) +(\S+) +([0-9a-f]+) +([0-9a-f]+) +([0-9a-f]+) +(\d+)", ln)
        require(m, "oj-elf-info: section line {!r}", ln)
        same((m[1], int(m[3], 16), int(m[4], 16), int(m[5], 16), int(m[6])), (s["section_name"], s["sh_addr"], s["sh_offset"], s["sh_size"], s["sh_addralign"]), "oj-elf-info: section")
        if "sh_type" in s:
            known(SEC_TYPES, s["sh_type"], m[2], "oj-elf-info: section type")
        elif s["type_name"] in SEC_TYPES.values():
            same(m[2].upper(), s["type_name"], "oj-elf-info: section type")


def check_segments(body, segments):
    rows = body[2:]
    same(len(rows), len(segments), "oj-elf-info: number of segments")
    for ln, s in zip(rows, segments):
        m = re.fullmatch(r"(\S+) +0x([0-9a-f]+) +0x([0-9a-f]+) +0x([0-9a-f]+) +0x([0-9a-f]+) +0x([0-9a-f]+) +([R-][W-][X-]) +(\d+)", ln)
        require(m, "oj-elf-info: segment line {!r}", ln)
        f = s["p_flags"]
        flags = "".join(c if f & b else "-" for c, b in (("R", 4), ("W", 2), ("X", 1)))
        same(
            [int(m[i], 16) for i in range(2, 7)] + [m[7], int(m[8])],
            [s[k] for k in ("p_offset", "p_vaddr", "p_paddr", "p_filesz", "p_memsz")] + [flags, s["p_align"]],
            "oj-elf-info: segment",
        )
        known(SEG_TYPES, s["p_type"], m[1], "oj-elf-info: segment type")


def elf_info(case, ctx):
    w = elfgen.build(case)
    with Scratch() as tmp:
        path = tmp.path("f.elf")
        elfgen.write(path, w.blob)
        code, text = run_tool(tmp, "oj_elf_info", path)
    same(code, 0, "oj-elf-info: exit code")
    if any(x["section_name"].startswith(".debug") for x in w.sections):
        text = re.split(r"^SIZE-INFO ", text, flags=re.M)[0]  # debugging information follows
        ctx.event("debug sections")
    parts = chapters(text)
    head = dict(re.match(r"([A-Za-z/]+):? +(.*)", ln).groups() for ln in parts[0][1])
    same(head["Class"], "64-bit objects" if w.b64 else "32-bit objects", "oj-elf-info: class")
    same(head["Data"], "Little-Endian" if w.le else "Big-Endian", "oj-elf-info: byte order")
    known(FILE_TYPES, w.header["e_type"], head["Type"].split(" ")[0], "oj-elf-info: file type")
    known(OSABI, w.header["ei_osabi"], head["OS/ABI"].split(" ")[0], "oj-elf-info: OS/ABI")
    require(head["OS/ABI"].endswith(f" v{w.header['ei_abiversion']}"), "oj-elf-info: ABI version {}", head["OS/ABI"])
    require("Machine" in head, "oj-elf-info: no machine")
    same([t for t, _ in parts[1:3]], ["Sections", "Segments"], "oj-elf-info: chapters")
    check_sections(parts[1][1], w.sections)
    check_segments(parts[2][1], w.segments)
    rest = parts[3:]
    if w.comment:
        same(rest[0] if rest else None, (".comment", [ln for ln in w.comment.split("\n") if ln.strip()]), "oj-elf-info: comment")
        rest = rest[1:]
    notes = sorted(w.notes, key=lambda n: n[0])
    same(len(rest), len(notes), "oj-elf-info: number of notes")
    for (title, body), (sec, ty, name, desc) in zip(rest, notes):
        same(title or "", sec, "oj-elf-info: section of the note")
        same(" ".join(body[2].split()), " ".join(f"{ty} {name} {desc}".split()), f"oj-elf-info: note of {sec!r}")
    ctx.event("segments", bool(w.segments))
    ctx.event("notes", bool(notes))
    ctx.event("comment", bool(w.comment))
    ctx.nontrivial(len(w.sections) > 2)


# --- debugging information ------------------------------------------------

DIE_LINE = re.compile(r"^ *<(\d+)><([0-9a-f]+)>: Abbrev Number: (\d+) \(([^()\n]*)\)$", re.M)
ATTR_LINE = re.compile(r"^ *<([0-9a-f]+)> (\w+|Unknown AT value [(]0x[0-9a-f]+[)]): ", re.M)
CU_LINE = re.compile(r"^ *Compilation Unit @ offset 0x([0-9a-f]+):$", re.M)


def depths(units):
    def walk(n, level):
        yield level, n
        for k in n.kids:
            yield from walk(k, level + 1)

    for u in units:
        yield from walk(u, 0)


def dwarf_info(case, ctx):
    """What oj-elf-info tells about debugging information."""
    try:
        sec, units = dwarfgen.build(case["info"])
        extra = c27.sections(case)
        w = elfgen.build(dwarfgen.elf_spec({**sec, **extra}, case["info"]["bits"], case["info"]["le"], case["info"]["order"]))
    except HarnessError:
        raise
    except Exception as e:
        raise HarnessError(f"generator: {e!r}") from e
    with Scratch() as tmp:
        path = tmp.path("f.elf")
        elfgen.write(path, w.blob)
        code, text = run_tool(tmp, "oj_elf_info", path)
    same(code, 0, "oj-elf-info: exit code for a file with debugging information")
    want = list(depths(units))
    if any(isinstance(x, str) and (set(x) & set("\n\r\v\f<>\x1c\x1d\x1e\x85\u2028\u2029")) for _, n in want for a in n.attrs for x in (a[2],)):
        ctx.event("text that may look like the listing")
        return
    same(len(CU_LINE.findall(text)), len(units), "oj-elf-info: units shown")
    got = DIE_LINE.findall(text)
    same([(int(lv), int(off, 16)) for lv, off, _, _ in got], [(lv, n.offset) for lv, n in want], "oj-elf-info: level and position of the entries shown")
    for (_, off, _, tag), (_, n) in zip(got, want):
        require(c18.tag_ok(tag, n.tag), "oj-elf-info: tag {:#x} of <{}> shown as {!r}", n.tag, off, tag)
    names = [m[1] for m in ATTR_LINE.findall(text)]
    ats = [a[0] for _, n in want for a in n.attrs]
    same(len(names), len(ats), "oj-elf-info: number of attributes shown")
    for name, at in zip(names, ats):
        require(c18.at_ok(name, at), "oj-elf-info: attribute {:#x} shown as {!r}", at, name)
    ctx.event("attributes", bool(ats))
    ctx.event("several levels", any(lv > 1 for lv, _ in want))
    ctx.nontrivial(len(want) > 1)


# --- attributes, other files ---------------------------------------------


def arm_attrs(case, ctx):
    spec, parts, empty, at = case
    arm = at > 0
    spec = dict(spec, hdr=dict(spec["hdr"], machine=(8, 40, 183, 40)[at]))
    want = {}
    if parts is not None and not empty:
        parts = [(v, [(t, n, [(k, tidy(x)) for k, x in a]) for t, n, a in s]) for v, s in parts]
        secs = list(spec["secs"])
        secs.insert(0, ("other", ".ARM.attributes", 0x70000003, 0, 0, c24.encode(parts, spec["le"]), 0, 0, 1, 0))
        spec = dict(spec, secs=secs)
        want = c24.expected(parts)
    w = elfgen.build(spec)
    with Scratch() as tmp:
        path = tmp.path("f.elf")
        elfgen.write(path, w.blob)
        code, text = run_tool(tmp, "oj_elf_arm_attrs", path)
        bad = tmp.path("bad.elf")
        elfgen.write(bad, w.blob[1:])
        badcode, badtext = run_tool(tmp, "oj_elf_arm_attrs", bad)
        badcode2, _ = run_tool(tmp, "oj_elf_syms", bad)
    require(badcode not in (0, 99) and "bad.elf" in badtext, "oj-elf-arm-attrs, invalid file: exit code {}, {!r}", badcode, badtext[:200])
    require(badcode2 not in (0, 99), "oj-elf-syms, invalid file: exit code {}", badcode2)
    if not arm:
        require(code not in (0, 99), "oj-elf-arm-attrs: exit code {} for another machine's file", code)
        return
    same(code, 0, "oj-elf-arm-attrs: exit code")
    if not want:
        require("No .ARM.attributes section" in text, "oj-elf-arm-attrs: {!r}", text[:200])
        return
    parts = chapters(text)[1:]
    same([t for t, _ in parts], list(want), "oj-elf-arm-attrs: vendors")
    for (vendor, body), rows in zip(parts, want.values()):
        lines = body[3:]
        for tag, value in rows:
            name, _, meaning = c24.TABLE.get(tag, (None, None, {}))
            if vendor != "aeabi":
                name = meaning = None
            shown = lines.pop(0) if lines else None
            require(shown is not None and shown.endswith(f" {value}".rstrip()), "oj-elf-arm-attrs: {} tag {} value {!r} shown as {!r}", vendor, tag, value, shown)
            require(name is None or shown.startswith(name), "oj-elf-arm-attrs: {} tag {} shown as {!r}", vendor, tag, shown)
            if str(value).strip() == "":
                continue
            text = lines.pop(0) if lines else None
            if meaning is None:
                continue
            right = meaning.get(value, value) if isinstance(value, int) else value
            if tag == c24.DENORMAL and c24.known_denormal(value, text if value not in c24.TABLE[19][2] else text):
                continue
            same((text or "").strip(), str(right).strip(), f"oj-elf-arm-attrs: meaning of {tag} {value!r}")
        same(lines, [], "oj-elf-arm-attrs: further lines")
    ctx.event("attributes")
    ctx.nontrivial(sum(map(len, want.values())) > 1)


def tidy(x):
    """Strings without blanks or control characters."""
    if isinstance(x, tuple):
        return x[0], tidy(x[1])
    return "".join(c for c in x if c.isalnum() or c in "-.") if isinstance(x, str) else x


# --- compiled programs ---------------------------------------------------

READELF_SEC = re.compile(r"^ *\[ *(\d+)\] (\S*) +([A-Z0-9_]+) +([0-9a-f]+) ([0-9a-f]+) ([0-9a-f]+) [0-9a-f]+ +[A-Za-z]* +\d+ +\d+ +(\d+)$")


def compiled(case, ctx):
    if not all(shutil.which(t) for t in ("gcc", "clang", "readelf")):
        ctx.event("tools missing")
        return
    with Scratch() as tmp:
        src, out = tmp.path("u.c"), tmp.path("a.elf")
        with open(src, "w") as f:
            f.write(c18.source(case["decls"], 0))
        # position of -g: the tool shows debugging information as well
        version = 4 if case["compiler"] == "clang" else case["version"]
        cmd = [case["compiler"], "-w", "-g", f"-gdwarf-{version}", case["opt"], "-nostdlib", "-static", "-o", out, src]
        if subprocess.run(cmd, capture_output=True, timeout=120).returncode:
            raise HarnessError(f"{cmd}")
        env = dict(os.environ, LC_ALL="C")
        listing = subprocess.run(["readelf", "-SW", out], capture_output=True, timeout=60, check=True, env=env).stdout.decode()
        symlist = subprocess.run(["readelf", "-sW", out], capture_output=True, timeout=60, check=True, env=env).stdout.decode()
        code, text = run_tool(tmp, "oj_elf_info", out)
        code2, symtext = run_tool(tmp, "oj_elf_syms", out)
    sections = []
    for ln in listing.splitlines():
        m = READELF_SEC.match(ln)
        if m:
            sections.append(dict(section_name=m[2], type_name=m[3], sh_addr=int(m[4], 16), sh_offset=int(m[5], 16), sh_size=int(m[6], 16), sh_addralign=int(m[7])))
    same(code, 0, "oj-elf-info: exit code for a compiled program")
    check_sections(chapters(text)[1][1], sections)
    same(code2, 0, "oj-elf-syms: exit code for a compiled program")
    want = []
    for ln in symlist.splitlines():
        m = re.match(r"^ *\d+: ([0-9a-f]+) +(\d+|0x[0-9a-f]+) (\S+) +(\S+) +\S+ +(\S+) ?(\S*)$", ln)
        if m:
            want.append((m[6] if m[3] != "SECTION" else "", int(m[1], 16), int(m[2], 0), m[4], m[3]))
    got = sorted(r[:5] for _, rows in parse_syms(symtext) for r in rows)
    same(got, sorted(want), "oj-elf-syms: symbols of a compiled program")
    gc.collect(0)
    ctx.nontrivial()


def subs():
    elf = elfgen.specs(disjoint=False, loaded=False)
    return [
        Sub("hex_info", hex_case(), hex_info, quick=600, thorough=20000, shards=8),
        Sub("elf_syms", st.tuples(elfgen.specs(disjoint=False, simple_header=True, min_symbols=2), OPTS), elf_syms, quick=600, thorough=20000, shards=8),
        Sub("elf_info", elf, elf_info, quick=600, thorough=20000, shards=8),
        Sub("arm_attrs", c24.files(), arm_attrs, quick=400, thorough=10000, shards=8),
        Sub("dwarf_info", c27.CASE, dwarf_info, quick=400, thorough=12000, shards=8),
        Sub("compiled", c18.PROGRAMS, compiled, quick=48, thorough=1600, shards=8),
    ]
