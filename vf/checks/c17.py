"""C17: what a reopened ELF file shows never depends on what happened to its cache."""

import contextlib
import gc
import io
import os

from hypothesis import strategies as st

from vf import elfcheck, elfgen
from vf.core import HarnessError, Sub, Violation, same
from vf.hexutil import Scratch

PROPERTY = "C17"
RULE = (
    "Case = 2..3 generated ELF files (up to 300 KB) and a history of: write one of them (or damaged bytes) to a path, change a single byte "
    "of the file (keeping its size, possibly its time stamp), open and compare everything, open "
    "with patterns, cut off its end, open in a child process that dies at the n-th database statement or commit, remove or empty the cache. Two paths "
    "share one cache file name. Every open is compared with what is in the file at that time. Non-trivial: an open after a "
    "crash, or after the file changed behind an existing cache."
)
ASSUMPTIONS = ["One process uses the file at a time; the cache file itself is only created, removed or emptied, not edited."]

PATHS = ["prog.elf", "prog.o", "other.elf"]

OPS = st.one_of(
    st.tuples(st.just("write"), st.integers(0, 2), st.integers(0, 2)),
    st.tuples(st.just("patch"), st.integers(0, 2), st.integers(0, 10**6), st.booleans()),
    st.tuples(st.just("open"), st.integers(0, 2)),
    st.tuples(st.just("open"), st.integers(0, 2)),
    st.tuples(st.just("crash"), st.integers(0, 2), st.integers(1, 60)),
    st.tuples(st.just("crash"), st.integers(0, 2), st.integers(1, 25)),
    st.tuples(st.just("crash commit"), st.integers(0, 2), st.integers(1, 4)),
    st.tuples(st.just("fail"), st.integers(0, 2), st.integers(1, 40)),
    st.tuples(st.just("garbage"), st.integers(0, 2), st.integers(0, 200)),
    st.tuples(st.just("damage"), st.integers(0, 2), st.integers(0, 1000)),
    st.tuples(st.just("drop cache"), st.integers(0, 2)),
    st.tuples(st.just("empty cache"), st.integers(0, 2)),
)


HEADER = ("ei_class", "ei_data", "e_type", "e_machine", "e_entry", "e_phoff", "e_shoff", "e_flags", "e_phnum", "e_shnum", "e_shstrndx")
SECTION = ("index", "section_name", "sh_type", "sh_flags", "sh_addr", "sh_offset", "sh_size", "sh_link", "sh_info", "section_image")
SEGMENT = ("p_type", "p_offset", "p_vaddr", "p_paddr", "p_filesz", "p_memsz", "p_flags", "p_align")


class Injected(Exception):
    pass


def child(path, kind, n):
    """Open path in a forked process which dies at the n-th statement/commit. -> died?"""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            from sqlalchemy import event
            from sqlalchemy.engine import Engine

            from objutils.elf import ElfParser

            count = [0]

            def tick(*_a, **_k):
                count[0] += 1
                if count[0] >= n:
                    os._exit(9)

            event.listen(Engine, "before_cursor_execute" if kind == "crash" else "commit", tick)
            ElfParser(path)
            code = 0
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code not in (0, 1, 9):
        raise HarnessError(f"child ended with {code}")
    return code == 9


def failing_open(path, n):
    """An exception is raised at the n-th database statement; the process goes on. -> raised?"""
    from sqlalchemy import event
    from sqlalchemy.engine import Engine

    count = [0]

    def tick(*_a, **_k):
        count[0] += 1
        if count[0] == n:
            raise Injected()

    event.listen(Engine, "before_cursor_execute", tick)
    try:
        with elfgen.Opened(path):
            pass
    except Injected:
        return True
    finally:
        event.remove(Engine, "before_cursor_execute", tick)
        gc.collect()
    return False


def bodies(spec):
    """Sections whose contents have no structure of their own."""
    return [k for k, s in enumerate(spec["secs"]) if s[0] == "data" and s[5]]


def enlarged(spec, size):
    for k in bodies(spec)[:1] if size else ():
        s = spec["secs"][k]
        body = (s[5] * (size // len(s[5]) + 1))[:size]
        spec = dict(spec, secs=spec["secs"][:k] + [s[:5] + (body,) + s[6:]] + spec["secs"][k + 1 :])
    return spec


def patched(spec, where):
    """One byte of one section differs."""
    ks = bodies(spec)
    if not ks:
        return spec
    k = ks[where % len(ks)] if where % 3 else max(ks, key=lambda k: len(spec["secs"][k][5]))
    s = spec["secs"][k]
    body = bytearray(s[5])
    body[-1 - where // 35 % 16 if where % 5 == 0 and len(body) > 16 else where // 7 % len(body)] ^= 1 + where % 255
    return dict(spec, secs=spec["secs"][:k] + [s[:5] + (bytes(body),) + s[6:]] + spec["secs"][k + 1 :])


def make(spec):
    w = elfgen.build(spec)
    w.spec = spec
    return w


def shown(path):
    """Everything an opened file shows; None: it can't be opened."""
    try:
        with contextlib.redirect_stdout(io.StringIO()), elfgen.Opened(path) as p:
            return [
                [getattr(p, n) for n in HEADER],
                sorted(([getattr(s, n) for n in SECTION] for s in p.sections.fetch()), key=repr),
                sorted(elfcheck.sym_rows(p.symbols.fetch()), key=repr),
                [[getattr(s, n) for n in SEGMENT] for s in p.segments],
                sorted((n.section_name, n.type, n.name, n.desc) for n in p.notes),
                p.comment,
            ]
    except Exception:
        gc.collect()
        return None


def history(case, ctx):
    specs, ops, size, where = case
    wants = [make(enlarged(s, size)) for s in specs]
    with Scratch() as tmp:
        present = {}
        damaged = {}  # what such a file shows with no cache around
        opened = {}  # cache name -> content it was made from
        disturbed = set()
        paths = [tmp.path(n) for n in PATHS]
        caches = [os.path.splitext(p)[0] + ".prgdb" for p in paths]
        for i in range(3):
            elfgen.write(paths[i], wants[i % len(wants)].blob)
            present[i] = wants[i % len(wants)]
        for step, op in enumerate(list(ops) + [("open", 0), ("patch", 0, where, bool(where & 1)), ("open", 0), ("open", 2)]):
            kind, i = op[0], op[1]
            what = f"step {step} {op}"
            if kind == "write":
                w = wants[op[2] % len(wants)]
                elfgen.write(paths[i], w.blob)
                present[i] = w
            elif kind == "patch":
                if present[i] is not None:
                    stamp = os.stat(paths[i])
                    present[i] = make(patched(present[i].spec, op[2]))
                    elfgen.write(paths[i], present[i].blob)
                    if op[3]:
                        os.utime(paths[i], ns=(stamp.st_atime_ns, stamp.st_mtime_ns))
            elif kind == "garbage":
                blob = present[i].blob if present[i] else wants[0].blob
                elfgen.write(paths[i], b"\x7fELG" + blob[4 : 4 + op[2]])
                present[i] = None
                damaged.pop(i, None)
            elif kind == "damage":  # the end is missing
                blob = present[i].blob if present[i] else wants[0].blob
                blob = blob[: max(16, len(blob) * op[2] // 1001)]
                elfgen.write(paths[i], blob)
                present[i] = None
                os.mkdir(tmp.path(f"alone{step}"))
                other = os.path.join(tmp.path(f"alone{step}"), "f.elf")
                elfgen.write(other, blob)
                damaged[i] = shown(other)
                ctx.event("damaged file fails" if damaged[i] is None else "damaged file can be read")
                if damaged[i] is None:
                    same(shown(paths[i]), None, f"{what}: damaged file")
                    same(shown(paths[i]), None, f"{what}: damaged file, opened again")
                    ctx.nontrivial()
            elif kind == "drop cache":
                if os.path.exists(caches[i]):
                    elfgen.remove(caches[i])
            elif kind == "empty cache":
                elfgen.remove(caches[i])
                elfgen.write(caches[i], b"")
            elif kind in ("crash", "crash commit"):
                if child(paths[i], kind, op[2]):
                    disturbed.add(caches[i])
                    ctx.event("died")
                opened[caches[i]] = None
            elif kind == "fail":
                if present[i] is not None and failing_open(paths[i], op[2]):
                    disturbed.add(caches[i])
                    ctx.event("failed half-way")
                    gc.collect()
            elif present[i] is None and i in damaged:
                same(shown(paths[i]), damaged[i], f"{what}: damaged file")
            elif present[i] is None:
                try:
                    with elfgen.Opened(paths[i]):
                        pass
                except Exception:
                    ctx.event("damaged file refused")
                    gc.collect()
                else:
                    raise Violation(f"{what}: a file without ELF magic was opened")
            else:
                w = present[i]
                try:
                    with elfgen.Opened(paths[i]) as p:
                        elfcheck.check_all(p, w)
                except Violation as e:
                    raise Violation(f"{what}: {e}") from e
                if caches[i] in disturbed:
                    ctx.event("open after a crash")
                    ctx.nontrivial()
                    disturbed.discard(caches[i])
                old = opened.get(caches[i])
                if old is not None and old is not w:
                    ctx.event("open after a change")
                    ctx.nontrivial()
                elif old is w:
                    ctx.event("cached")
                opened[caches[i]] = w
                with open(paths[i], "rb") as f:
                    same(f.read(), w.blob, f"{what}: the ELF file itself")


def subs():
    return [
        Sub(
            "history",
            st.tuples(
                st.lists(elfgen.specs(disjoint=False, simple_header=True, loaded=True, min_symbols=1), min_size=2, max_size=3),
                st.lists(OPS, min_size=1, max_size=7),
                st.sampled_from([0] * 8 + [700, 700, 4600, 9000, 9000, 70000, 140000, 300000]),
                st.integers(0, 10**6),
            ),
            history,
            quick=640,
            thorough=20000,
            shards=8,
        )
    ]
