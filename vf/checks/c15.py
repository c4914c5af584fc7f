"""C15: the memory image of an ELF file consists of exactly its allocated contents."""

import gc
import io
import re
import sys

from hypothesis import strategies as st

import objutils
from objutils.scripts import oj_elf_extract

from vf import elfgen, gen
from vf.core import HarnessError, Sub, require, same
from vf.hexutil import Scratch

PROPERTY = "C15"
RULE = (
    "Case = generated ELF file whose allocated sections are disjoint (any order in the table, adjacent or gapped, unallocated and NOBITS "
    "sections in between) x join x include/exclude pattern; also through the extraction tool to ihex/srec/shf/titxt and back. Oracle: "
    "sections the generator put in. Non-trivial: at least two contributing sections or one filtered out."
)
ASSUMPTIONS = ["Allocated sections don't overlap and don't wrap around the address space."]

PATTERNS = st.sampled_from([None, None, "", r"\.text", r"\.", ".*data", "^code$", "[a-z]", r"\.(text|rodata)$", "t", "nothing", r"\.data", ".*", "$"])


def case():
    return st.tuples(elfgen.specs(disjoint=True, max_sections=7, with_symbols=False, loaded=True), st.booleans(), PATTERNS, PATTERNS)


def contributing(w, inc, exc):
    secs = [
        s
        for s in w.sections
        if s["section_image"] is not None
        and s["sh_flags"] & elfgen.ALLOC
        and (not inc or re.match(inc, s["section_name"]))
        and (not exc or not re.match(exc, s["section_name"]))
    ]
    return sorted(secs, key=lambda s: s["sh_addr"])


def extract(case, ctx):
    spec, join, inc, exc = case
    w = elfgen.build(spec)
    secs = contributing(w, inc, exc)
    blocks = [(s["sh_addr"], s["section_image"]) for s in secs]
    calls = []

    def callback(state, section):
        calls.append((state, section.index if section is not None else None))

    with Scratch() as tmp:
        path = tmp.path("f.elf")
        elfgen.write(path, w.blob)
        for turn in range(2):
            del calls[:]
            with elfgen.Opened(path) as p:
                img = p.create_image(join=join, include_pattern=inc or "", exclude_pattern=exc or "", callback=callback)
                same(gen.content(img), gen.canonical(blocks) if join else blocks, "image")
                same([c[0] for c in calls], ["start"] + ["section"] * len(secs) + ["stop"], "callback states")
                same([c[1] for c in calls[1:-1]], [s["index"] for s in secs], "sections reported")
    everything = contributing(w, None, None)
    ctx.event("filtered out", len(secs) < len(everything))
    ctx.event("joined", len(gen.canonical(blocks)) < len(blocks))
    ctx.event("two or more", len(secs) > 1)
    ctx.nontrivial(len(secs) > 1 or len(secs) < len(everything))


def tool(case, ctx):
    spec, join, inc, exc, ftype = case
    w = elfgen.build(spec)
    secs = contributing(w, inc, exc)
    want = gen.canonical([(s["sh_addr"], s["section_image"]) for s in secs])
    if not want:
        return
    limit = {"titxt": 16, "ihex": 32, "srec": 32, "shf": 64}[ftype]
    if want[-1][0] + len(want[-1][1]) > 1 << limit:
        return
    if any(a + len(d) > b for (a, d), (b, _) in zip(want, want[1:])):  # overlapping: the order of blocks is anybody's
        return
    argv, out = sys.argv, sys.stdout
    with Scratch() as tmp:
        path, target = tmp.path("f.elf"), tmp.path("out.hex")
        elfgen.write(path, w.blob)
        args = ["oj-elf-extract", path, target, "-t", ftype]
        args += ["-j"] if join else []
        args += ["-i", inc] if inc else []
        args += ["-e", exc] if exc else []
        sys.argv, sys.stdout = args, io.StringIO()
        try:
            oj_elf_extract.main()
            said = sys.stdout.getvalue()
        except SystemExit as e:
            raise HarnessError(f"{args}: exit {e.code}") if e.code == 2 else AssertionError(f"{args}: exit {e.code}") from e
        finally:
            sys.argv, sys.stdout = argv, out
            gc.collect()
        with open(target, "rb") as f:
            blob = f.read()
    same(gen.content(objutils.loads(ftype, blob)), want, f"{' '.join(args[3:])}: file read back")
    if ftype == "shf":  # the format keeps sections apart
        same(blob.count(b"<block "), len(want) if join else len([s for s in secs if s["section_image"]]), f"{' '.join(args[3:])}: blocks in the file")
    for s in secs:
        require(re.search(rf"0x0*{s['sh_addr']:x} {s['sh_size']}\n", said), "section at 0x{:x} is not listed", s["sh_addr"])
    require(f"[{sum(len(d) for _, d in want)} total bytes]" in said, "total: {}", said[-100:])
    ctx.event(ftype)
    ctx.nontrivial()


def low_specs():
    """Addresses every format can express."""

    def lower(spec):
        base = min([s[4] for s in spec["secs"]] or [0])
        return dict(spec, secs=[s[:4] + ((s[4] - base) % 0x10000,) + s[5:] if s[3] & elfgen.ALLOC else s for s in spec["secs"]])

    return elfgen.specs(disjoint=True, max_sections=5, with_symbols=False, loaded=True).map(lower)


def tool_case():
    return st.tuples(low_specs(), st.booleans(), PATTERNS, st.sampled_from([None, None, r"\.text", "code"]), st.sampled_from(["ihex", "srec", "shf", "titxt"]))


def subs():
    return [
        Sub("extract", case(), extract, quick=1200, thorough=40000, shards=8),
        Sub("tool", tool_case(), tool, quick=600, thorough=20000, shards=4),
    ]
