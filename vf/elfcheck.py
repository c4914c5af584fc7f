"""Comparison of an ElfParser with what elfgen says is in the file."""

from vf.core import require, same


def fields(obj, names):
    return {n: getattr(obj, n) for n in names}


def by(rows, *keys):
    return sorted(rows, key=lambda r: tuple(str(r[k]).zfill(24) if isinstance(r[k], int) else str(r[k]) for k in keys) + (repr(sorted(r.items(), key=str)),))


def check_header(p, w):
    same(fields(p, w.header), w.header, "header fields")
    same(p.header_bytes, w.ident, "identification bytes")
    same(p.b64, w.b64, "64 bit class")
    same(p.endianess, "<" if w.le else ">", "byte order")


def check_sections(p, w):
    names = w.sections[0].keys() if w.sections else ["index"]
    got = [fields(s, names) for s in p.sections.fetch(order_by_address=False)]
    same(sorted(got, key=lambda s: s["index"]), w.sections, "sections")
    for s in p.sections.fetch():
        want = w.sections[s.index]
        for prop, mask in (
            ("flag_writeable", 1), ("flag_alloc", 2), ("flag_executable", 4), ("flag_merge", 16), ("flag_strings", 32), ("flag_info_link", 64),
            ("flag_link_order", 128), ("flag_os_nonconforming", 256), ("flag_group", 512), ("flag_tls", 1024), ("flag_ordered", 1 << 30), ("flag_exclude", 1 << 31),
        ):  # fmt: skip
            same(bool(getattr(s, prop)), want["sh_flags"] & mask == mask, f"section {s.index}: {prop}")
        same(bool(s.has_content), want["sh_type"] not in (0, 8) and want["sh_size"] > 0, f"section {s.index}: has_content")
        same(bool(s.is_debug), want["section_name"].startswith(".debug"), f"section {s.index}: is_debug")
        same(bool(s.is_dwo), want["section_name"].startswith(".dwo"), f"section {s.index}: is_dwo")


def check_segments(p, w):
    got = [fields(s, ("p_type", "p_offset", "p_vaddr", "p_paddr", "p_filesz", "p_memsz", "p_flags", "p_align")) for s in p.segments]
    same(got, w.segments, "segments")


SYM = ("symbol_name", "section_name", "access", "st_name", "st_value", "st_size", "st_bind", "st_type", "st_other", "st_shndx")


def sym_rows(fetched):
    rows = []
    for sec, syms in fetched.items():
        for s in syms:
            row = fields(s, SYM)
            same(row["section_name"], sec, "symbol filed under its section")
            rows.append(row)
    return rows


def near(names):
    """Names which differ a little from these (nothing but equality is a match)."""
    found = []
    for n in sorted(names)[:4]:
        for m in (n.swapcase(), n + " ", n[:-1], n[:1] + "_" * (len(n) - 1), n[:1] + "%", "*" + n[1:], f"^{n}$"):
            if m and m not in names and m not in found:
                found.append(m)
    return found


def check_symbols(p, w):
    fetched = p.symbols.fetch()
    same(by(sym_rows(fetched), *SYM), by(w.symbols, *SYM), "symbols")
    for syms in fetched.values():
        for s in syms:
            what = f"symbol {s.symbol_name!r}"
            same(bool(s.local), s.st_bind == 0, what + " local")
            same(bool(s.global_), s.st_bind == 1, what + " global")
            same(bool(s.weak), s.st_bind == 2, what + " weak")
            same(bool(s.undefined), s.st_shndx == 0, what + " undefined")
            same(bool(s.hidden), s.st_other & 3 in (1, 2), what + " hidden")
            same(bool(s.absolute), s.st_shndx == 0xFFF1, what + " absolute")
            same(bool(s.writeable), s.access & 1 == 1, what + " writeable")
            same(bool(s.allocate), s.access & 2 == 2, what + " allocated")
            same(bool(s.executeable), s.access & 4 == 4, what + " executable")
            same(int(s.symbol_bind), s.st_bind, what + " binding")
            same(int(s.symbol_type), s.st_type, what + " type")
    for s in w.symbols:
        got = p.symbols.get(s["symbol_name"])
        require(got is not None, "symbol {!r} not found", s["symbol_name"])
        require(fields(got, SYM) in w.symbols and got.symbol_name == s["symbol_name"], "symbols.get({!r}): {}", s["symbol_name"], got)
        got = p.symbols.get(s["symbol_name"], s["section_name"])
        if s["section_name"]:
            require(got is not None and (got.symbol_name, got.section_name) == (s["symbol_name"], s["section_name"]), "symbols.get({!r}, {!r}): {}", s["symbol_name"], s["section_name"], got)
    names = {s["symbol_name"] for s in w.symbols}
    for name in ["no such symbol", *near(names)]:
        got = p.symbols.get(name)
        require(got is None, "symbols.get({!r}) found {!r}", name, getattr(got, "symbol_name", got))
    for s in w.symbols[:3]:
        for section in ("nope", s["section_name"].swapcase() + "%"):
            same(p.symbols.get(s["symbol_name"], section), None, f"symbols.get({s['symbol_name']!r}, {section!r})")


def check_notes(p, w):
    same(sorted((n.section_name, n.type, n.name, n.desc) for n in p.notes), sorted(w.notes), "notes")
    for name in {n[0] for n in w.notes}:
        if sum(1 for s in w.sections if s["section_name"] == name) == 1:
            got = [(n.type, n.name, n.desc) for n in p.notes if n.section_name == name]
            same(got, [n[1:] for n in w.notes if n[0] == name], f"notes of {name}, in file order")


def check_comment(p, w):
    same(p.comment or None, w.comment, "comment")


def check_all(p, w):
    check_header(p, w)
    check_sections(p, w)
    check_segments(p, w)
    check_symbols(p, w)
    check_notes(p, w)
    check_comment(p, w)
