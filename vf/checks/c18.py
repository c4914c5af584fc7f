"""C18: the tree of debugging information entries."""

import contextlib
import gc
import io
import json
import re
import shutil
import subprocess

from hypothesis import strategies as st

from objutils.dwarf import DwarfProcessor
from objutils.elf import model

from vf import dwarfgen, elfgen
from vf.core import HarnessError, Sub, require, same
from vf.dwarfnames import AT, TAG, VENDOR_AT, VENDOR_TAG
from vf.hexutil import Scratch

PROPERTY = "C18"
RULE = (
    "Case = debugging information generated from its parts: 1-3 units (versions 2-5, all unit types, address sizes) x trees of DIEs x attributes "
    "of every supported form x abbreviation tables (shared, sparse codes, any order) x string tables x class/byte order, wrapped in an ELF "
    "file. Oracle: the parts. Non-trivial: a tree of depth two or more, or a reference."
)
ASSUMPTIONS = ["32-bit DWARF, every abbreviation code used is declared, forms known to the module."]


def tag_ok(got, tag):
    if tag in TAG:
        return isinstance(got, str) and got.replace("_parameter", "_param") == TAG[tag].replace("_parameter", "_param")
    if tag in VENDOR_TAG:
        return isinstance(got, str) and got.lower() in [n.lower() for n in VENDOR_TAG[tag]]
    return got == f"User TAG value: 0x{tag:04x}"


def at_ok(got, at):
    if at in AT:
        return got.rstrip("_") == AT[at]
    if at in VENDOR_AT:
        return got.rstrip("_").lower() in [n.lower() for n in VENDOR_AT[at]]
    return got == f"Unknown AT value (0x{at:04x})"


def display_ok(got, raw, disp):
    if disp[0] == "same":
        return got == raw and type(got) is type(raw)
    if disp[0] == "text":
        return got == disp[1]
    if disp[0] == "expr":
        return dwarfgen.normal_text(got) == disp[1]
    name, rest = disp[1:]
    if name is None:
        return got == f"Unknown encoding value {rest}"
    return got in (f"{name} {rest}", f"DW_DEFAULTED_{name} {rest}")


def compare(got, want, path, die_map, seen):
    require(tag_ok(got.name, want.tag), "{}: tag {:#x} shown as {!r}", path, want.tag, got.name)
    require(die_map.get(want.offset) is got, "{}: no entry (or another one) in the map of DIEs for offset {:#x}", path, want.offset)
    seen.append(want.offset)
    same(len(got.attributes), len(want.attrs), f"{path}: number of attributes")
    for i, ((name, attr), (at, form, raw, disp)) in enumerate(zip(got.attributes, want.attrs)):
        where = f"{path} attribute {i} ({AT.get(at, hex(at))}, form {form:#x})"
        require(at_ok(name, at), "{}: named {!r}", where, name)
        require(attr.raw_value == raw and type(attr.raw_value) is type(raw), "{}: value {!r} instead of {!r}", where, attr.raw_value, raw)
        require(display_ok(attr.display_value, raw, disp), "{}: displayed as {!r}, expected {!r}", where, attr.display_value, disp if disp[0] != "same" else raw)
    same(len(got.children), len(want.kids), f"{path}: number of children")
    for i, (g, w) in enumerate(zip(got.children, want.kids)):
        compare(g, w, f"{path}/{i}", die_map, seen)


def check_info(info, units, what):
    same(len(info.die_entries), len(units), f"{what}: number of units")
    seen = []
    for i, (g, w) in enumerate(zip(info.die_entries, units)):
        compare(g, w, f"{what} unit {i}", info.die_map, seen)
    require(len(seen) == len(info.die_map), "{}: map of DIEs has {} entries for {} DIEs: extra offsets {}", what, len(info.die_map), len(seen), sorted(set(info.die_map) - set(seen)))


def json_tree(node, doc, where):
    """A DIE in JSON: the same tag, attributes and children (blocks are written as text)."""
    require(isinstance(doc, dict) and tag_ok(doc.get("name"), node.tag), "{}: tag {:#x} is {!r} in JSON", where, node.tag, doc)
    attrs, kids = doc.get("attributes"), doc.get("children")
    same(len(attrs), len(node.attrs), f"{where}: number of attributes in JSON")
    for (name, a), (at, form, raw, disp) in zip(attrs, node.attrs):
        require(at_ok(name, at), "{}: attribute {:#x} is {!r} in JSON", where, at, name)
        got = a["raw_value"]
        if isinstance(raw, (bytes, bytearray)):
            ok = isinstance(got, str) and got.lower().replace(" ", "").replace("0x", "") == raw.hex() or got == list(raw)
        else:
            ok = got == raw and type(got) is type(raw)
        require(ok, "{}: attribute {:#x} (form {:#x}) is {!r} in JSON instead of {!r}", where, at, form, got, raw)
        if disp[0] == "expr":
            require(display_ok(a["display_value"], raw, disp), "{}: attribute {:#x} displayed as {!r} in JSON", where, at, a["display_value"])
    same(len(kids), len(node.kids), f"{where}: number of children in JSON")
    for i, (g, w) in enumerate(zip(kids, node.kids)):
        json_tree(w, g, f"{where}/{i}")


def in_json(info, units):
    for i, (root, want) in enumerate(zip(info.die_entries, units)):
        json_tree(want, json.loads(root.toJSON()), f"unit {i}")
    if sum(len(list(u.walk())) for u in units) > 120:
        return
    doc = json.loads(info.toJSON())
    same(len(doc["die_entries"]), len(units), "number of units in JSON")
    for i, (g, w) in enumerate(zip(doc["die_entries"], units)):
        json_tree(w, g, f"unit {i} of all")
    nodes = {str(n.offset): n for u in units for n in u.walk()}
    same(sorted(doc["die_map"]), sorted(nodes), "offsets of the map of DIEs in JSON")
    for off, n in nodes.items():
        json_tree(n, doc["die_map"][off], f"map entry {off}")


def stored(parser, units):
    """Tags and attributes in the database."""
    rows = parser.query(model.DebugInformationEntry).order_by(model.DebugInformationEntry.rid).all()
    nodes = [n for u in units for n in u.walk()]
    same(len(rows), len(nodes), "number of DIEs in the database")
    for row, node in zip(rows, nodes):
        require(tag_ok(row.tag, node.tag), "tag {:#x} stored as {!r}", node.tag, row.tag)
        attrs = sorted(row.attributes, key=lambda a: a.rid)
        same(len(attrs), len(node.attrs), "number of attributes in the database")
        for a, (at, form, raw, disp) in zip(attrs, node.attrs):
            require(at_ok(a.name, at), "attribute {:#x} stored as {!r}", at, a.name)
            want = str(raw) if isinstance(raw, int) else raw
            require(a.raw_value == want, "attribute {:#x} (form {:#x}): {!r} stored for {!r}", at, form, a.raw_value, want)


def run(case, ctx):
    files = [(spec,) + dwarfgen.build(spec) for spec in case["files"]]
    with Scratch() as tmp, contextlib.ExitStack() as stack, contextlib.redirect_stdout(io.StringIO()):
        procs = []
        for i, (spec, sections, units) in enumerate(files):
            w = elfgen.build(dwarfgen.elf_spec(sections, spec["bits"], spec["le"], spec["order"]))
            path = tmp.path(f"f{i}.elf")
            elfgen.write(path, w.blob)
            parser = stack.enter_context(elfgen.Opened(path))
            procs.append((f"file {i}", DwarfProcessor(parser), units, parser))
        for turn in case["turns"]:
            what, proc, units, parser = procs[turn % len(procs)]
            info = proc.do_dbg_info()
            check_info(info, units, what)
        in_json(info, units)
        if len(case["turns"]) == 1:
            what, proc, units, parser = procs[case["turns"][0] % len(procs)]
            stored(parser, units)
        del procs
    gc.collect(0)
    nodes = [n for _, _, units in files for u in units for n in u.walk()]
    deep = any(k.kids for _, _, units in files for u in units for k in u.kids)
    refs = any(a[1] in dwarfgen.LOCAL_REFS or a[1] == dwarfgen.REF_ADDR for n in nodes for a in n.attrs)
    for spec, _, units in files:
        for u in spec["units"]:
            ctx.event(f"version {u['version']}")
            ctx.event("unit type with longer header", u["type"] not in (1, 3))
            ctx.event("address size differs from class", u["addr"] * 8 != spec["bits"])
    ctx.event("two processors", len(files) > 1)
    ctx.event("same processor twice", len(case["turns"]) > len(set(case["turns"])))
    ctx.event("depth", deep)
    ctx.event("references", refs)
    for n in nodes:
        for a in n.attrs:
            ctx.event(f"form {a[1]:#04x}")
    ctx.nontrivial(deep or refs)


# ---------------------------------------------------------------- compilers
# Programs made of generated declarations, compiled and linked; oracle: readelf.

SCALARS = ["int", "unsigned char", "short", "long long", "double", "float", "char *", "_Bool", "unsigned long", "void *", "const volatile int *"]
INTEGRAL = SCALARS[:4] + ["unsigned long", "char"]
member = st.tuples(st.sampled_from(SCALARS), st.integers(0, 3), st.integers(0, 5))
decl = st.one_of(
    st.tuples(st.just("enum"), st.lists(st.one_of(st.integers(-9, 300), st.integers(-(1 << 31), (1 << 31) - 1), st.sampled_from([1 << 40, -(1 << 40), (1 << 63) - 1])), min_size=1, max_size=4)),
    st.tuples(st.just("struct"), st.lists(member, min_size=1, max_size=4)),
    st.tuples(st.just("union"), st.lists(member, min_size=1, max_size=4)),
    st.tuples(st.just("var"), st.tuples(st.sampled_from(SCALARS), st.integers(0, 3))),
    st.tuples(st.just("inline"), st.integers(0, 3)),
    st.tuples(st.just("func"), st.integers(0, 4)),
)
PROGRAMS = st.fixed_dictionaries({
    "decls": st.lists(decl, min_size=1, max_size=7),
    "version": st.sampled_from([2, 3, 4, 5]),
    "opt": st.sampled_from(["-O0", "-O1", "-O2", "-Os"]),
    "compiler": st.sampled_from(["gcc", "gcc", "clang"]),
    "units": st.integers(1, 2),
    "extra": st.sampled_from([[], [], ["-fdebug-types-section"], ["-gno-column-info"], ["-fno-eliminate-unused-debug-types"], ["-g3"]]),
})  # fmt: skip


def source(decls, unit):
    out = []
    inlines, structs = [], []
    for i, (kind, arg) in enumerate(decls):
        n = f"{unit}_{i}"
        if kind == "enum":
            out.append(f"enum e{n} {{ {', '.join(f'E{n}_{j} = {v}ll' if v != -(1 << 31) else f'E{n}_{j} = -2147483647-1' for j, v in enumerate(arg))} }};\nenum e{n} ev{n};")
        elif kind in ("struct", "union"):
            body = ""
            for j, (ty, array, bits) in enumerate(arg):
                if bits and ty in INTEGRAL and not array:
                    body += f" {ty} m{j} : {bits};"
                else:
                    body += f" {ty} m{j}{f'[{array}]' if array else ''};"
            out.append(f"{kind} s{n} {{{body} {kind} s{n} *next; }};\ntypedef {kind} s{n} T{n};\nT{n} sv{n}[2];")
            structs.append(n)
        elif kind == "var":
            ty, array = arg
            out.append(f"{ty} v{n}{f'[{array}]' if array else ''};\nextern int x{n}(int, {ty});")
        elif kind == "inline":
            out.append(f"static inline int i{n}(int a, int b) {{ int c = a * {arg + 2}; if (c > b) {{ int d = c - b; return d ^ a; }} return c + b; }}")
            inlines.append(f"i{n}")
        else:
            call = "".join(f"r += {f}(r, n); " for f in inlines[-2:])
            loc = f"T{structs[-1]} *p = &sv{structs[-1]}[n & 1]; r += p->next != 0; " if structs else ""
            out.append(f"int f{n}(int n, const char *s, double d) {{ int r = {arg}; static int calls; {call}{loc}for (int i = 0; i < n; i++) {{ r += s[i]; calls++; }} return r * (int)d; }}")
    out.append(f"int last{unit}(void) {{ return {unit}; }}")
    return "\n".join(out) + "\n" + ("void _start(void) {}\n" if unit == 0 else "")


DIE_LINE = re.compile(r"^ <([0-9a-f]+)><([0-9a-f]+)>: Abbrev Number: (\d+)(?: \((\S+)\))?")
AT_LINE = re.compile(r"^    <[0-9a-f]+>   (DW_AT_\S+|Unknown AT value: [0-9a-f]+)\s*: ?(.*)$")
NAMES = {f"DW_AT_{v}": k for k, v in AT.items()} | {"DW_AT_GNU_locviews": 0x2137, "DW_AT_GNU_entry_view": 0x2138}
TAGS = {f"DW_TAG_{v}": k for k, v in TAG.items()} | {"DW_TAG_template_type_param": 0x2F, "DW_TAG_template_value_param": 0x30}


def readelf(path):
    text = subprocess.run(["readelf", "--debug-dump=info", path], capture_output=True, timeout=60, check=True).stdout.decode("utf-8")
    units, stack = [], []
    for line in text.splitlines():
        m = DIE_LINE.match(line)
        if m:
            level, off, abbrev, tag = int(m[1]), int(m[2], 16), int(m[3]), m[4]
            if not abbrev:
                continue
            if tag not in TAGS:
                raise HarnessError(f"tag {tag}")
            node = dwarfgen.Node(TAGS[tag], off)
            del stack[level:]
            (stack[-1].kids if stack else units).append(node)
            stack.append(node)
            continue
        m = AT_LINE.match(line)
        if m and stack:
            stack[-1].attrs.append((m[1], m[2]))
    return units


def readelf_value_ok(raw, text):
    if isinstance(raw, str):
        return re.sub(r"^(?:\([^()]*\) ?)+: ", "", text).rstrip() == raw.rstrip()
    if isinstance(raw, bytes):
        m = re.match(r"(\d+) byte block: ((?:[0-9a-f]+ )*)", text)
        return bool(m) and int(m[1]) == len(raw) and bytes(int(b, 16) for b in m[2].split()) == raw
    m = re.match(r"(?:signature: )?<?(-?(?:0x)?[0-9a-f]+)", text)
    if not m:
        return text == ""
    return raw in (int(m[1], 0), int(m[1], 0) % (1 << 64)) or (text.startswith("signature") and raw == int(m[1], 16))


def against(got, want, path, die_map, seen):
    require(tag_ok(got.name, want.tag), "{}: tag {:#x} shown as {!r}", path, want.tag, got.name)
    require(die_map.get(want.offset) is got, "{}: map of DIEs at offset {:#x}", path, want.offset)
    seen.append(want.offset)
    same(len(got.attributes), len(want.attrs), f"{path}: number of attributes")
    for (name, attr), (label, text) in zip(got.attributes, want.attrs):
        at = NAMES.get(label)
        require(at is None or at_ok(name, at), "{}: {} named {!r}", path, label, name)
        require(readelf_value_ok(attr.raw_value, text), "{}: {} is {!r}, readelf: {!r}", path, label, attr.raw_value, text)
    same(len(got.children), len(want.kids), f"{path}: number of children")
    for i, (g, w) in enumerate(zip(got.children, want.kids)):
        against(g, w, f"{path}/{i}", die_map, seen)


def compiled(case, ctx):
    if not all(shutil.which(t) for t in ("gcc", "clang", "readelf")):
        ctx.event("tools missing")
        return
    version = case["version"]
    if case["compiler"] == "clang" and version == 5:
        version = 4  # clang's DWARF 5 uses index forms, which the module doesn't know.
    with Scratch() as tmp:
        args = []
        for u in range(case["units"]):
            src = tmp.path(f"u{u}.c")
            with open(src, "w") as f:
                f.write(source(case["decls"] if u == 0 else case["decls"][::-1], u))
            args.append(src)
        out = tmp.path("a.elf")
        extra = case["extra"]
        if case["compiler"] == "clang" and extra != ["-gno-column-info"]:
            extra = []
        if version != 5 and extra == ["-fdebug-types-section"]:
            extra = []  # .debug_types is a section of its own before DWARF 5
        cmd = [case["compiler"], "-w", "-g", f"-gdwarf-{version}", case["opt"], *extra, "-nostdlib", "-static", "-o", out, *args]
        res = subprocess.run(cmd, capture_output=True, timeout=120)
        if res.returncode:
            raise HarnessError(f"{cmd}: {res.stderr.decode()[:500]}")
        units = readelf(out)
        if not units:
            raise HarnessError("no units in readelf's output")
        with contextlib.redirect_stdout(io.StringIO()), elfgen.Opened(out) as parser:
            info = DwarfProcessor(parser).do_dbg_info()
        same(len(info.die_entries), len(units), "number of units")
        seen = []
        for i, (g, w) in enumerate(zip(info.die_entries, units)):
            against(g, w, f"unit {i}", info.die_map, seen)
        same(len(seen), len(info.die_map), "entries of the map of DIEs")
    gc.collect(0)
    ctx.event(f"{case['compiler']} DWARF {version}")
    ctx.event("type units", "-fdebug-types-section" in extra and version == 5)
    ctx.nontrivial(True)


CASES = st.one_of(
    st.fixed_dictionaries({"files": st.lists(dwarfgen.specs(), min_size=1, max_size=1), "turns": st.sampled_from([[0], [0], [0], [0, 0]])}),
    st.fixed_dictionaries({"files": st.lists(dwarfgen.specs(1), min_size=2, max_size=2), "turns": st.sampled_from([[0, 1], [1, 0], [0, 1, 0]])}),
)


def subs():
    return [
        Sub("tree", CASES, run, quick=2000, thorough=60000, shards=8),
        Sub("compiled", PROGRAMS, compiled, quick=160, thorough=6000, shards=8),
    ]
