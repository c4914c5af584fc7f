"""C28: which sections lie in which segments."""

import contextlib
import gc
import io
import re
import shutil
import subprocess

from hypothesis import strategies as st

from vf import elfgen
from vf.core import HarnessError, Sub, require, same
from vf.hexutil import Scratch

PROPERTY = "C28"
RULE = (
    "geometry: ELF file whose sections and segments are placed around common borders (equal, one off, inside, across, empty) x types x flags; "
    "oracle: containment of intervals as the statement says. programs: generated C programs linked by gcc/clang's toolchain; oracle: the "
    "section to segment mapping of readelf. Non-trivial: some section lies in a segment and some doesn't."
)
ASSUMPTIONS = ["A section contained by one byte more or less is judged by exact interval arithmetic without wrap-around."]

NULL, LOAD, DYNAMIC, INTERP, NOTE, SHLIB, PHDR, TLS = range(8)
EH_FRAME, STACK, RELRO = 0x6474E550, 0x6474E551, 0x6474E552
NOBITS = 8
SHF_ALLOC, SHF_TLS = 2, 0x400


def belongs(s, g, check_vma, strict):
    """s: (type, flags, addr, offset, size); g: (type, offset, vaddr, filesz, memsz)"""
    ty, flags, addr, off, size = s
    pt, po, pv, fs, ms = g
    tls = bool(flags & SHF_TLS)
    if tls and pt not in (TLS, RELRO, LOAD):
        return False
    if not tls and pt in (TLS, PHDR):
        return False
    room = 0 if tls and ty == NOBITS and pt != TLS else size

    def inside(start, lo, length):
        if start < lo or start + room > lo + length:
            return False
        return not strict or start < lo + length

    if ty != NOBITS and not inside(off, po, fs):
        return False
    if check_vma and flags & SHF_ALLOC and not inside(addr, pv, ms):
        return False
    if pt == DYNAMIC and size == 0 and ms != 0:
        if ty != NOBITS and not po < off < po + fs:
            return False
        if flags & SHF_ALLOC and not pv < addr < pv + ms:
            return False
    return True



@st.composite
def cases(draw):
    bits = draw(st.sampled_from([32, 64]))
    top = (1 << bits) - 1
    base_o = draw(st.integers(0x100, 0x400))
    base_a = draw(st.one_of(st.integers(0, 64), st.integers(0, top - 4096), st.just(top - 4096)))
    length = draw(st.integers(0, 24))
    near = st.integers(-3, 30)

    def pos(b):
        return min(max(b + draw(near), 0), top)

    secs = []
    for _ in range(draw(st.integers(1, 4))):
        # the address follows the offset most of the time
        k = draw(st.one_of(st.just(0), st.integers(0, length + 1), near))
        k2 = draw(st.one_of(st.just(k), st.just(k), near))
        secs.append((
            draw(st.sampled_from([1, 1, 1, 8, 8, 6, 7, 14])),
            draw(st.sampled_from([0, 2, 2, 3, 6, 0x402, 0x403, 0x403, 0x400])),
            max(base_a + k2, 0), max(base_o + k, 0),
            draw(st.one_of(st.just(0), st.integers(0, 25), st.integers(0, length + 1).map(lambda n: max(n - max(k, 0), 0)), st.just(max(length - max(k, 0), 0)))),
        ))  # fmt: skip
    segs = []
    for _ in range(draw(st.integers(1, 4))):
        fs = draw(st.one_of(st.just(length), st.integers(0, 25)))
        segs.append((
            draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4, 6, 7, 7, EH_FRAME, STACK, RELRO, 0x70000001])),
            base_o if draw(st.integers(0, 3)) else pos(base_o), base_a if draw(st.integers(0, 3)) else pos(base_a),
            fs, draw(st.one_of(st.just(fs), st.just(length), st.integers(0, 30))),
        ))  # fmt: skip
    return {"bits": bits, "le": draw(st.booleans()), "secs": secs, "segs": segs}


def geometry(case, ctx):
    e = "<" if case["le"] else ">"
    import struct

    b64 = case["bits"] == 64
    A = "Q" if b64 else "I"

    def pk(f, *a):
        return struct.pack(e + f, *a)

    eh, ph, sh = (64, 56, 64) if b64 else (52, 32, 40)
    secs, segs = case["secs"], case["segs"]
    at_ph = 0x800
    at_sh = at_ph + ph * len(segs)
    blob = bytearray(at_sh + sh * (len(secs) + 1))
    try:
        blob[:16] = b"\x7fELF" + bytes([2 if b64 else 1, 1 if case["le"] else 2, 1]) + b"\0" * 9
        blob[16:eh] = pk("HHI" + A * 3 + "IHHHHHH", 2, 62 if b64 else 40, 1, 0, at_ph, at_sh, 0, eh, ph, len(segs), sh, len(secs) + 1, 0)
        for i, (pt, po, pv, fs, ms) in enumerate(segs):
            blob[at_ph + i * ph : at_ph + (i + 1) * ph] = pk("IIQQQQQQ", pt, 4, po, pv, pv, fs, ms, 1) if b64 else pk("IIIIIIII", pt, po, pv, pv, fs, ms, 4, 1)
        for i, (ty, fl, ad, of, sz) in enumerate(secs, 1):
            blob[at_sh + i * sh : at_sh + (i + 1) * sh] = pk("IIQQQQIIQQ", 0, ty, fl, ad, of, sz, 0, 0, 1, 0) if b64 else pk("IIIIIIIIII", 0, ty, fl, ad, of, sz, 0, 0, 1, 0)
    except struct.error as x:
        raise HarnessError(str(x)) from x
    yes = no = 0
    with Scratch() as tmp:
        path = tmp.path("f.elf")
        elfgen.write(path, bytes(blob))
        for turn in ("parsed", "cached"):
            with contextlib.redirect_stdout(io.StringIO()), elfgen.Opened(path) as p:
                have = {s.index: s for s in p.sections.fetch()}
                same(len(list(p.segments)), len(segs), "segments")
                for i, s in enumerate(secs, 1):
                    for g, seg in zip(segs, p.segments):
                        for name, fn, strict in (("section_in_segment", p.section_in_segment, False), ("section_in_segment_strict", p.section_in_segment_strict, True)):
                            want = belongs(s, g, True, strict)
                            same(bool(fn(have[i], seg)), want, f"{turn}: {name}: section (type, flags, addr, offset, size) {s} in segment (type, offset, vaddr, filesz, memsz) {g}")
                            same(bool(p.section_in_segment1(have[i], seg, 0, strict)), belongs(s, g, False, strict), f"{turn}: section_in_segment1, addresses ignored, strict {strict}: {s} in {g}")
                            yes, no = yes + want, no + (not want)
                        tls_bss = s[0] == NOBITS and bool(s[1] & SHF_TLS) and g[0] != TLS
                        same(bool(p.tbss_special(have[i], seg)), tls_bss, f"tbss_special({s}, {g})")
                        same(p.section_size(have[i], seg), 0 if tls_bss else s[4], f"section_size({s}, {g})")
    gc.collect(0)
    ctx.event("contained", yes > 0)
    ctx.event("thread local", any(s[1] & SHF_TLS for s in secs))
    ctx.event("dynamic segment", any(g[0] == DYNAMIC for g in segs))
    ctx.nontrivial(bool(yes and no))


# ---------------------------------------------------------------- toolchain

PROGRAMS = st.fixed_dictionaries({
    "cc": st.sampled_from(["gcc", "clang"]),
    "bits": st.sampled_from(["-m64", "-m32"]),
    "link": st.sampled_from([["-static"], ["-static"], ["-shared", "-fPIC"], ["-static", "-Wl,-z,norelro"], ["-static", "-Wl,-z,noseparate-code"], ["-shared", "-fPIC", "-Wl,-z,relro,-z,now"]]),
    "vars": st.lists(st.tuples(st.sampled_from(["int v%d = 3;", "static char b%d[%d]; char *p%d = b%d;", "__thread int t%d = 4;", "__thread char u%d[%d];", "const char k%d[] = \"abc\";", "int s%d __attribute__((section(\".sec%d\"))) = 1;", "char z%d[0];"]), st.integers(1, 5000)), max_size=8),
})  # fmt: skip


def programs(case, ctx):
    for tool in (case["cc"], "readelf"):
        if shutil.which(tool) is None:
            raise HarnessError(f"{tool} is missing")
    src = "int main(void) { return 0; }\n"
    for i, (text, n) in enumerate(case["vars"]):
        k = text.count("%d")
        args = {1: (i,), 2: (i, n), 4: (i, n, i, i)}[k]
        src += text % args + "\n"
    with Scratch() as tmp:
        c, exe = tmp.path("p.c"), tmp.path("p.elf")
        with open(c, "w") as f:
            f.write(src)
        cmd = [case["cc"], case["bits"], "-nostdlib", "-w", "-Wl,-e,main", *case["link"], "-o", exe, c]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise HarnessError(f"{cmd}: {r.stderr[:300]}")
        out = subprocess.run(["readelf", "-lW", exe], capture_output=True, text=True).stdout
        rows = {int(a): b.split() for a, b in re.findall(r"^   (\d+) *(.*)$", out[out.index("Section to Segment") :], re.M)}
        with contextlib.redirect_stdout(io.StringIO()), elfgen.Opened(exe) as p:
            secs = sorted(p.sections.fetch(), key=lambda s: s.index)[1:]
            segs = list(p.segments)
            same(len(segs), len(rows), "number of segments")
            for i, seg in enumerate(segs):
                got = [s.section_name for s in secs if s.sh_flags & SHF_ALLOC and not p.tbss_special(s, seg) and p.section_in_segment_strict(s, seg)]
                want = rows[i]
                same(got, want, f"sections of segment {i} (type {seg.p_type:#x})")
    gc.collect(0)
    ctx.nontrivial(any(rows.values()))


def subs():
    return [
        Sub("geometry", cases(), geometry, quick=1500, thorough=60000, shards=8),
        Sub("programs", PROGRAMS, programs, quick=40, thorough=800, shards=4),
    ]
