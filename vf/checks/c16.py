"""C16: queries for ELF symbols and sections return exactly the matching ones, in order."""

import contextlib
import io
import re

from hypothesis import strategies as st

from objutils.elf import model

from vf import elfgen
from vf.core import Sub, require, same
from vf.elfcheck import SYM, by, check_symbols, fields, near, sym_rows
from vf.hexutil import Scratch

PROPERTY = "C16"
RULE = (
    "Case = generated ELF file with symbol tables x several queries (sections, name pattern, bindings, access, types, order - alone and "
    "combined; section queries; attribute filters evaluated by the database). Oracle: filter over the generator's symbol list. "
    "Non-trivial: some query selects some but not all symbols."
)
ASSUMPTIONS = ["Lists are separated by commas or blanks; a list means any of its items; patterns are matched from the start of the name."]

BIND = {"l": 0, "g": 1, "w": 2}
ACC = {"a": 2, "w": 1, "x": 4}
FLAGS = {
    "writeable": 1, "alloc": 2, "executable": 4, "merge": 16, "strings": 32, "info_link": 64, "link_order": 128, "os_nonconforming": 256,
    "group": 512, "tls": 1024, "ordered": 1 << 30, "exclude": 1 << 31,
}  # fmt: skip
TYPES = {"notype": 0, "object": 1, "func": 2, "section": 3, "file": 4, "common": 5, "tls": 6}


def listing(items, min_size=1, most=8):
    return st.tuples(
        st.one_of(*[st.lists(items, min_size=min_size, max_size=3)] * 5, st.lists(items, min_size=min(8, most), max_size=24, unique=True)),
        st.sampled_from([",", " ", ", "]),
        st.booleans(),
    )


QUERY = st.fixed_dictionaries(
    {
        "sections": st.one_of(st.none(), listing(st.sampled_from([".text", ".data", ".bss", ".rodata", "SHN_ABS", "SHN_UNDEF", "SHN_COMMON", "nope", "code", ".init", "t", ".fini", ".vectors", ".TEXT", ".text.main"]))),
        "name_pattern": st.sampled_from([None, None, "", "main", "_", ".*x", "foo$", "[a-m]", r"\$", "^_?start", ".*", "X|Y", "x|y", "_?FOO", r"\w+$", r"\W", r"\S*$", r"\s", ".*[^\x00-\x7f]"]),
        "bindings": st.one_of(st.none(), st.none(), listing(st.sampled_from(list(BIND)), most=3)),
        "access": st.one_of(st.none(), st.none(), st.none(), listing(st.sampled_from(list(ACC)), most=3)),
        "types_str": st.one_of(st.none(), st.none(), listing(st.sampled_from(list(TYPES)), most=7)),
        "order_by_value": st.booleans(),
    }
)


def joined(lst, upper=True):
    items, sep, up = lst
    s = sep.join(items)
    return s.upper() if up and upper else s


def query(case, ctx):
    spec, queries, secqs = case
    w = elfgen.build(spec)
    with Scratch() as tmp:
        path = tmp.path("f.elf")
        elfgen.write(path, w.blob)
        for turn in range(2):
            with elfgen.Opened(path) as p:
                for q in queries:
                    one(p, w, q, ctx)
                for q in secqs:
                    section_query(p, w, q)
                check_symbols(p, w)
                database(p, w)
                debug(p, w)


def one(p, w, q, ctx):
    kws = {"order_by_value": q["order_by_value"]}
    want = list(w.symbols)
    if q["name_pattern"] is not None:
        kws["name_pattern"] = q["name_pattern"]
        if q["name_pattern"]:
            want = [s for s in want if re.match(q["name_pattern"], s["symbol_name"])]
    if q["sections"]:
        kws["sections"] = joined(q["sections"], upper=False)
        want = [s for s in want if s["section_name"] in q["sections"][0]]
    if q["bindings"]:
        kws["bindings"] = joined(q["bindings"])
        want = [s for s in want if s["st_bind"] in [BIND[b] for b in q["bindings"][0]]]
    if q["access"]:
        kws["access"] = joined(q["access"])
        want = [s for s in want if any(s["access"] & ACC[a] for a in q["access"][0])]
    if q["types_str"]:
        kws["types_str"] = joined(q["types_str"])
        want = [s for s in want if s["st_type"] in [TYPES[t] for t in q["types_str"][0]]]
    res = p.symbols.fetch(**kws)
    what = f"symbols.fetch({kws})"
    same(by(sym_rows(res), *SYM), by(want, *SYM), what)
    same(list(res), sorted(res), what + ": order of sections")
    key = (lambda s: s.st_value) if q["order_by_value"] else (lambda s: s.symbol_name)
    for sec, syms in res.items():
        same([key(s) for s in syms], sorted(key(s) for s in syms), what + f": order in {sec}")
    if 0 < len(want) < len(w.symbols):
        ctx.nontrivial()
        ctx.event("selective query")


def section_query(p, w, q):
    pattern, names, by_addr = q
    kws = {"order_by_address": by_addr}
    want = list(w.sections)
    if pattern is not None:
        kws["name_pattern"] = pattern
        if pattern:
            want = [s for s in want if re.match(pattern, s["section_name"])]
    if names:
        kws["sections"] = joined(names, upper=False)
        want = [s for s in want if s["section_name"] in names[0]]
    res = p.sections.fetch(**kws)
    what = f"sections.fetch({kws})"
    got = [fields(s, w.sections[0]) for s in res] if w.sections else list(res)
    same(sorted(got, key=lambda s: s["index"]), want, what)
    keys = [s["sh_addr"] if by_addr else s["section_name"] for s in got]
    same(keys, sorted(keys), what + ": order")
    for s in w.sections:
        got = p.sections.get(s["section_name"])
        require(got is not None and fields(got, s) in [x for x in w.sections if x["section_name"] == s["section_name"]], "sections.get({!r}): {}", s["section_name"], got)
    for name in ["no such section", *near({s["section_name"] for s in w.sections})]:
        same(p.sections.get(name), None, f"sections.get({name!r})")


def database(p, w):
    """Attributes mean the same if evaluated by the database."""
    S, Y = model.Elf_Section, model.Elf_Symbol
    for expr, pred, what in (
        *((getattr(S, "flag_" + name), lambda s, m=mask: s["sh_flags"] & m, "flag_" + name) for name, mask in FLAGS.items()),
        (S.has_content, lambda s: s["sh_type"] not in (0, 8) and s["sh_size"] > 0, "has_content"),
        (S.is_debug, lambda s: s["section_name"].startswith(".debug"), "is_debug"),
        (S.is_dwo, lambda s: s["section_name"].startswith(".dwo"), "is_dwo"),
        (S.section_type == 1, lambda s: s["sh_type"] == 1, "section_type PROGBITS"),
        (S.section_type == 8, lambda s: s["sh_type"] == 8, "section_type NOBITS"),
        (S.test_flags(6), lambda s: s["sh_flags"] & 6 == 6, "test_flags(6)"),
    ):
        got = sorted(s.index for s in p.query(S).filter(expr).all())
        want = [s["index"] for s in w.sections if pred(s)]
        same(got, want, f"sections with {what}")
        if hasattr(S, what):
            with contextlib.redirect_stdout(io.StringIO()):
                same(sorted(s.index for s in p.query(S).all() if getattr(s, what)), want, f"section objects with {what}")
    with contextlib.redirect_stdout(io.StringIO()):
        for mask in (1, 2, 3, 6, 0x30, 0x406):
            same(sorted(s.index for s in p.query(S).all() if s.test_flags(mask)), [s["index"] for s in w.sections if s["sh_flags"] & mask == mask], f"section objects: test_flags({mask})")
            same(sorted(s.index for s in p.query(S).filter(S.test_flags(mask))), [s["index"] for s in w.sections if s["sh_flags"] & mask == mask], f"sections: test_flags({mask})")
            got = [fields(s, SYM) for s in p.query(Y).all() if s.test_access(mask)]
            same(by(got, *SYM), by([s for s in w.symbols if s["access"] & mask == mask], *SYM), f"symbol objects: test_access({mask})")
    for expr, pred, what in (
        (Y.weak, lambda s: s["st_bind"] == 2, "weak"),
        (Y.local, lambda s: s["st_bind"] == 0, "local"),
        (Y.global_, lambda s: s["st_bind"] == 1, "global_"),
        (Y.undefined, lambda s: s["st_shndx"] == 0, "undefined"),
        (Y.absolute, lambda s: s["st_shndx"] == 0xFFF1, "absolute"),
        (Y.hidden, lambda s: s["st_other"] & 3 in (1, 2), "hidden"),
        (Y.allocate, lambda s: s["access"] & 2, "allocate"),
        (Y.writeable, lambda s: s["access"] & 1, "writeable"),
        (Y.executeable, lambda s: s["access"] & 4, "executeable"),
        (Y.test_access(3), lambda s: s["access"] & 3 == 3, "test_access(3)"),
        (Y.symbol_bind == 2, lambda s: s["st_bind"] == 2, "symbol_bind WEAK"),
        (Y.symbol_type == 2, lambda s: s["st_type"] == 2, "symbol_type FUNC"),
    ):
        got = [fields(s, SYM) for s in p.query(Y).filter(expr).all()]
        want = by([s for s in w.symbols if pred(s)], *SYM)
        same(by(got, *SYM), want, f"symbols with {what}")
        if hasattr(Y, what):
            same(by([fields(s, SYM) for s in p.query(Y).all() if getattr(s, what)], *SYM), want, f"symbol objects with {what}")
    got = [fields(s, SYM) for s in p.symbols.fetch_gcc_special_symbols()]
    want = [s for s in w.symbols if s["st_shndx"] == 0xFFF1 and s["symbol_name"].startswith("_") and s["st_type"] == 0]
    same(by(got, *SYM), by(want, *SYM), "GCC special symbols")
    keys = [s["st_value"] for s in got]
    same(keys, sorted(keys), "GCC special symbols: order")


def debug(p, w):
    want = {}
    for s in sorted(w.sections, key=lambda s: s["sh_addr"]):
        if s["section_name"].startswith(".debug"):
            want.setdefault(s["section_name"], []).append(s["section_image"])
    got = p.debug_sections()
    same(sorted(got), sorted(want), "debug sections")
    for name, info in got.items():
        require(info.image in want[name] and info.section.section_name == name, "image of debug section {}", name)


def case():
    return st.tuples(
        elfgen.specs(disjoint=False, simple_header=True, loaded=True, min_symbols=3).filter(lambda s: bool(s["tables"])),
        st.lists(QUERY, min_size=1, max_size=4),
        st.lists(
            st.tuples(
                st.sampled_from([None, "", r"\.text", ".*data", "[a-z]", "$"]),
                st.one_of(st.none(), st.none(), listing(st.sampled_from([".text", ".data", ".bss", "nope", ".symtab", ".strtab", ".shstrtab", "code", ".DATA", ".rodata", ".init", ".vectors", ".fini", "t", ".debug_x", ".dwo", ".data.rel"]))),
                st.booleans(),
            ),
            max_size=2,
        ),
    )


def subs():
    return [Sub("query", case(), query, quick=1000, thorough=40000, shards=8)]
