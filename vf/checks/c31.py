"""C31: a damaged ELF file is refused, or shown as it is."""

import contextlib
import gc
import io
import struct

from hypothesis import strategies as st

from objutils.dwarf import DwarfProcessor

from vf import dwarfgen, elfcheck, elfgen, elfref
from vf.checks import c27
from vf.checks.c18 import check_info
from vf.core import HarnessError, Sub, require, same
from vf.hexutil import Scratch

PROPERTY = "C31"
RULE = (
    "Case = a generated ELF file and 1-3 damages: a field of the header, a section, segment or symbol entry set to another value (0, "
    "maximum, near the file's size, one more or less), bytes changed, inserted or removed anywhere, the end cut off, something appended. "
    "Oracle: an independent reading of the very bytes. Opened twice, then an intact file at the same path. Non-trivial: the reading "
    "differs from that of the intact file, or there is none."
)
# tables: debugging information whose look-up tables, line programs or macros are damaged; the entries and the intact tables have to be delivered
# as they are, whatever the damaged ones led to.
ASSUMPTIONS = ["Files are at most some 100 KB; no extended section numbering."]

VALUES = st.one_of(
    st.sampled_from(["zero", "max", "half", "plus", "minus", "size", "size-1", "double", "far"]),
    st.integers(0, 300),
    st.integers(0, (1 << 64) - 1),
)
FIELDS = [("header", f) for f in elfref.HEADER] + [("section", f) for f in elfref.SECTION] * 2 + [("segment", f) for f in elfref.SEGMENT32]
FIELDS += [("symbol", f) for f in ("st_name", "info", "st_other", "st_shndx", "st_value", "st_size")]
DAMAGE = st.one_of(
    st.tuples(st.just("field"), st.sampled_from(FIELDS), st.integers(0, 30), VALUES),
    st.tuples(st.just("field"), st.sampled_from(FIELDS), st.integers(0, 30), VALUES),
    st.tuples(st.just("ident"), st.integers(0, 15), st.integers(0, 255)),
    st.tuples(st.just("byte"), st.integers(0, 10**5), st.integers(0, 255)),
    st.tuples(st.just("insert"), st.integers(0, 10**5), st.binary(min_size=1, max_size=9)),
    st.tuples(st.just("remove"), st.integers(0, 10**5), st.integers(1, 40)),
    st.tuples(st.just("cut"), st.integers(1, 10**5)),
    st.tuples(st.just("cut"), st.integers(1, 90)),
    st.tuples(st.just("append"), st.binary(min_size=1, max_size=30)),
)
CASE = st.fixed_dictionaries({"file": elfgen.specs(), "damage": st.lists(DAMAGE, min_size=1, max_size=3), "again": st.booleans()})


def entry_at(w, kind, nr):
    """Offset of an entry of this kind in the intact file (None: there isn't any)."""
    lay = {k: struct.calcsize(v[0]) for k, v in elfref.layouts(w.b64, w.le).items()}
    if kind == "header":
        return 16
    if kind == "section":
        return w.header["e_shoff"] + nr % len(w.sections) * lay[kind] if w.sections else None
    if kind == "segment":
        return w.header["e_phoff"] + nr % len(w.segments) * lay[kind] if w.segments else None
    for s in w.sections:
        if s["sh_type"] in (elfref.SYMTAB, elfref.DYNSYM) and s["section_image"]:
            return s["sh_offset"] + nr % (len(s["section_image"]) // lay[kind]) * lay[kind]
    return None


def value(old, v, fmt, size):
    top = (1 << 8 * struct.calcsize(fmt)) - 1
    new = {"zero": 0, "max": top, "half": top // 2 + 1, "plus": old + 1, "minus": old - 1, "size": size, "size-1": size - 1, "double": 2 * old, "far": top - size}.get(v, v)
    return new & top


def damaged(w, steps):
    blob = bytearray(w.blob)
    for step in steps:
        n = len(blob)
        if step[0] == "field":
            (kind, name), nr, v = step[1:]
            base = entry_at(w, kind, nr)
            if base is None:
                continue
            at, fmt = elfref.field_at(kind, w.b64, w.le, base, name)
            if at + struct.calcsize(fmt) > n:
                continue
            struct.pack_into(fmt, blob, at, value(struct.unpack_from(fmt, blob, at)[0], v, fmt, n))
        elif not n:
            continue
        elif step[0] == "ident":
            if step[1] < n:
                blob[step[1]] = step[2]
        elif step[0] == "byte":
            blob[step[1] % n] = step[2]
        elif step[0] == "insert":
            at = step[1] % n
            blob[at:at] = step[2]
        elif step[0] == "remove":
            at = step[1] % n
            del blob[at : at + step[2]]
        elif step[0] == "cut":
            del blob[max(1, n - step[1] % n) :]
        else:
            blob += step[1]
    return bytes(blob)


def opened(path, w, what):
    """-> None, or the error's type."""
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            o = elfgen.Opened(path)
            p = o.__enter__()
        except Exception as e:
            require(w is None or w.problems, "{}: refused, but there's nothing wrong with it: {!r}", what, e)
            return type(e)
        try:
            require(w is not None, "{}: opened, though it can't be read", what)
            elfcheck.check_header(p, w)
            if "size of table entries" not in w.problems:
                elfcheck.check_sections(p, w)
                elfcheck.check_segments(p, w)
                elfcheck.check_symbols(p, w)
                if "note" not in w.problems:
                    elfcheck.check_notes(p, w)
                if w.comment != "?":
                    elfcheck.check_comment(p, w)
        finally:
            elfgen.close(p)
    return None


def run(case, ctx):
    intact = elfgen.build(case["file"])
    try:
        blob = damaged(intact, case["damage"])
        try:
            w = elfref.read(blob)
        except elfref.Unreadable as e:
            w, why = None, str(e)
    except Exception as e:
        raise HarnessError(f"generator: {e!r}") from e
    with Scratch() as tmp:
        path = tmp.path("f.elf")
        elfgen.write(path, blob)
        first = opened(path, w, "damaged file")
        with open(path, "rb") as f:
            same(f.read(), blob, "the ELF file afterwards")
        same(opened(path, w, "damaged file, opened again"), first, "outcome of opening the damaged file again")
        if case["again"]:
            elfgen.write(path, intact.blob)
            with contextlib.redirect_stdout(io.StringIO()), elfgen.Opened(path) as p:
                elfcheck.check_all(p, intact)
    gc.collect(0)
    ctx.event("unreadable: " + why if w is None else "shown" if first is None else "refused")
    for k in w.problems if w else ():
        ctx.event("problem: " + k)
    for d in case["damage"]:
        ctx.event("damage: " + (" ".join(d[1]) if d[0] == "field" else d[0]))
    ctx.nontrivial(w is None or any(getattr(w, k) != getattr(intact, k) for k in ("header", "sections", "segments", "symbols", "notes", "comment")))


EDIT = st.one_of(
    st.tuples(st.just("byte"), st.integers(0, 400), st.integers(0, 255)),
    st.tuples(st.just("byte"), st.integers(0, 15), st.sampled_from([0, 1, 0x7F, 0x80, 0xFF])),
    st.tuples(st.just("insert"), st.integers(0, 400), st.binary(min_size=1, max_size=9)),
    st.tuples(st.just("remove"), st.integers(0, 400), st.integers(1, 9)),
    st.tuples(st.just("cut"), st.integers(1, 400)),
    st.tuples(st.just("append"), st.binary(min_size=1, max_size=30)),
)
TABLES = st.fixed_dictionaries({
    "case": c27.CASE,
    "hit": st.lists(st.tuples(st.integers(0, 9), st.lists(EDIT, min_size=1, max_size=3)), min_size=1, max_size=2),
    "calls": st.lists(st.sampled_from(["pubnames", "aranges", "lines", "macros", "info"]), min_size=2, max_size=8),
})  # fmt: skip


def tables(case, ctx):
    base = case["case"]
    try:
        sec, units = dwarfgen.build(base["info"])
        extra = c27.sections(base)
        hit = set()
        for nr, steps in case["hit"]:
            if extra:
                name = sorted(extra)[nr % len(extra)]
                w = elfgen.Want()
                w.blob = extra[name]
                new = damaged(w, steps)
                if new != extra[name]:
                    hit.add(name.replace("_global", ""))
                    extra[name] = new
        blob = elfgen.build(dwarfgen.elf_spec({**sec, **extra}, base["info"]["bits"], base["info"]["le"], base["info"]["order"])).blob
    except HarnessError:
        raise
    except Exception as e:
        raise HarnessError(f"generator: {e!r}") from e
    failed = 0
    with Scratch() as tmp:
        path = tmp.path("f.elf")
        elfgen.write(path, blob)
        with contextlib.redirect_stdout(io.StringIO()), elfgen.Opened(path) as parser:
            proc = DwarfProcessor(parser)
            for call in [*case["calls"], "info"]:
                section = {"pubnames": ".debug_pubnames", "aranges": ".debug_aranges", "lines": ".debug_line"}.get(call)
                bad = {".debug_macinfo", ".debug_macro"} & hit if call == "macros" else section in hit
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    if call == "info":
                        check_info(proc.do_dbg_info(), units, f"entries (after {case['calls']}, damaged: {sorted(hit)})")
                        continue
                    try:
                        getattr(proc, {"pubnames": "pubnames", "aranges": "aranges", "lines": "do_lines", "macros": "do_mac_info"}[call])()
                    except Exception:
                        if not bad:
                            raise
                        failed += 1
                if not bad and call == "pubnames":
                    c27.check_pubs(out.getvalue(), base["pubs"])
                elif not bad and call == "lines":
                    c27.check_line(out.getvalue(), base["line"])
            del proc
    gc.collect(0)
    for name in hit:
        ctx.event("damaged " + name)
    ctx.event("an error", bool(failed))
    ctx.nontrivial(bool(hit))


def subs():
    return [
        Sub("tables", TABLES, tables, quick=1200, thorough=20000, shards=8),
        Sub("damaged", CASE, run, quick=2400, thorough=60000, shards=8),
    ]
