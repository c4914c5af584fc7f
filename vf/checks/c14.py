"""C14: an opened ELF file is exactly what is in the file."""

import contextlib
import gc
import io
import re

import objutils.elf  # noqa: F401
from objutils.elf import defs

from vf import elfcheck, elfgen
from vf.core import Sub, require, same
from vf.hexutil import Scratch

PROPERTY = "C14"
RULE = (
    "Case = an ELF file generated from its parts: class x byte order x header fields x sections (contents, NOBITS, notes, comment, "
    "duplicate and shared-suffix names) x segments x symbol tables (.symtab/.dynsym, special section indices) x file layout. Oracle: the "
    "parts. Opened twice (parsed, then from the cache). Non-trivial: at least two sections of its own or a symbol table."
)
ASSUMPTIONS = ["Well-formed files, UTF-8 names, fewer than 0xff00 sections, at most one .comment section."]


AVR = 83
AVR_MACHINES = {1, 2, 3, 4, 5, 6, 25, 31, 35, 51, *range(100, 108)}  # binutils' include/elf/avr.h


def check_machine(text, header):
    code, flags = header["e_machine"], header["e_flags"]
    try:
        name = defs.ELFMachineType(code).name
    except ValueError:
        name = None
    require(text.startswith("???" if name is None else name[3:] if name.startswith("EM_") else ""), "machine {}: {}", code, text)
    if code == AVR:
        number = flags & 0x7F
        same(re.findall(r"avr:(\d+)", text), [str(number)] if number in AVR_MACHINES else [], f"AVR machine of flags {flags:#x} in {text!r}")
        same("link-relax" in text, bool(flags & 0x80), f"prepared for link-time relaxation, flags {flags:#x}: {text!r}")


def parse(spec, ctx):
    w = elfgen.build(spec)
    with Scratch() as tmp:
        path = tmp.path("f.elf")
        elfgen.write(path, w.blob)
        for turn in ("parsed", "cached"):
            with elfgen.Opened(path) as p:
                elfcheck.check_all(p, w)
                with contextlib.redirect_stdout(io.StringIO()) as printed:
                    text = str(p.machine_data)
                    same(str(p.machine_data), text, "machine data, asked again")
                same(printed.getvalue(), "", "printed while asking for the machine data")
                check_machine(text, w.header)
        with open(path, "rb") as f:
            same(f.read(), w.blob, "the ELF file afterwards")
    gc.collect(0)
    ctx.event("64 bit" if w.b64 else "32 bit")
    ctx.event("little endian" if w.le else "big endian")
    ctx.event("symbols", bool(w.symbols))
    ctx.event("notes", bool(w.notes))
    ctx.event("comment", bool(w.comment))
    ctx.event("segments", bool(w.segments))
    ctx.event("values above 2**63", any(v >= 1 << 63 for s in w.sections + w.symbols + w.segments for v in s.values() if isinstance(v, int)))
    ctx.nontrivial(len(spec["secs"]) > 1 or bool(w.symbols))


def subs():
    return [Sub("parse", elfgen.specs(disjoint=False), parse, quick=1600, thorough=60000, shards=8)]
