"""C29: the helper functions do exactly what they say."""

import ctypes
import enum
import io
import itertools
import logging
import sys
import threading
import time

from hypothesis import strategies as st

from objutils import utils
from objutils.logger import Logger
from objutils.section import filler

from vf.core import Sub, require, same
from vf.hexutil import Scratch

PROPERTY = "C29"
RULE = (
    "slices: sequences (bytes, bytearray, memoryview, list, tuple, str, array) x lengths x converters. numbers: integers of up to 200 bits. "
    "calls: argument lists and keywords of curried functions, called repeatedly. files: contents x offsets x lengths, mapped views read and "
    "written. enums: structures of all integer types with enumerated members and arrays. singletons: class families instantiated by racing threads. "
    "logging: histories of messages and level changes of several loggers, some of the same name. fillers: any byte and length, and what is neither. paths: cygwin and other paths. "
    "Oracle: the definition. Non-trivial: a last piece that's short; a number of several bytes; both kinds of arguments; an extract inside the file; "
    "an enumerated array; several threads; a message suppressed."
)
ASSUMPTIONS = [
    "Subclasses of a singleton class that has already been instantiated are out of scope.",
    "Enumerated members contain values the enumeration knows.",
]


# --- slicer ---------------------------------------------------------------

KINDS = {
    "bytes": bytes, "bytearray": bytearray, "memoryview": lambda b: memoryview(bytes(b)), "list": list, "tuple": tuple,
    "str": lambda b: bytes(b).decode("latin1"),
}
CONVERTERS = {"none": None, "list": list, "tuple": tuple, "sum": lambda p: sum(p), "bytes": bytes}


def slices(case, ctx):
    data, n, kind, conv, extra = case
    seq = KINDS[kind](data)
    if kind == "str" and conv in ("sum", "bytes"):
        conv = "list"
    pieces = utils.slicer(seq, n, CONVERTERS[conv])
    items = list(seq)
    want = [items[i:i + n] for i in range(0, len(items), n)]
    require(isinstance(pieces, list), "slicer() returned {!r}", type(pieces))
    same(len(pieces), len(want), f"number of pieces of {n} of {len(items)}")
    for got, w in zip(pieces, want):
        if conv == "sum":
            same(got, sum(w), "converted piece")
        elif conv == "bytes":
            same(got, bytes(w), "converted piece")
        else:
            want_type = type(seq) if conv == "none" else CONVERTERS[conv]
            require(type(got) is want_type, "piece is {}, expected {}", type(got), want_type)
            same(list(got), w, "piece")
    same(list(seq), items, "the sequence afterwards")

    args = [KINDS[k](d) if k else d for k, d in extra]
    before = [list(a) if hasattr(a, "__iter__") else a for a in args]
    flat = []
    for a in args:
        flat.extend(a) if hasattr(a, "__iter__") else flat.append(a)
    got = utils.make_list(*args)
    require(type(got) is list, "make_list() returned {!r}", type(got))
    same(got, flat, f"make_list of {len(args)} things")
    require(all(got is not a for a in args), "make_list() returned its argument")
    same([list(a) if hasattr(a, "__iter__") else a for a in args], before, "arguments afterwards")
    ctx.event(f"of {kind}")
    ctx.nontrivial(bool(items) and len(items) % n != 0)


slice_cases = st.tuples(
    st.binary(max_size=50), st.one_of(st.integers(1, 9), st.integers(1, 60)), st.sampled_from(sorted(KINDS)), st.sampled_from(sorted(CONVERTERS)),
    st.lists(st.one_of(
        st.tuples(st.sampled_from(["list", "tuple", "bytes", "bytearray"]), st.binary(max_size=5)),
        st.tuples(st.none(), st.integers(-5, 1 << 40)),
    ), max_size=5),
)


# --- numbers --------------------------------------------------------------


def numbers(case, ctx):
    v, zeros = case
    arr = utils.int_to_array(v)
    require(type(arr) is list and all(type(b) is int and 0 <= b <= 255 for b in arr), "int_to_array({:#x}): {!r}", v, arr)
    same(int.from_bytes(bytes(arr), "big"), v, "bytes of the number, highest first")
    same(len(arr), max((v.bit_length() + 7) // 8, 1), f"number of bytes of {v:#x}")
    w = v << zeros
    same(utils.ffs(w), 0 if w == 0 else (w & -w).bit_length() - 1, f"ffs({w:#x})")
    same(utils.ffs(-w), 0 if w == 0 else (w & -w).bit_length() - 1, f"ffs({-w:#x})")
    ctx.nontrivial(v > 255)


number_cases = st.tuples(
    st.one_of(st.integers(0, 300), st.integers(0, (1 << 200) - 1), st.tuples(st.integers(0, 200), st.integers(-2, 2)).map(lambda t: max((1 << t[0]) + t[1], 0))),
    st.integers(0, 130),
)


# --- Curry ----------------------------------------------------------------

kwargs = st.dictionaries(st.sampled_from(["a", "b", "c", "fmt", "x"]), st.integers(0, 9), max_size=3)
args_ = st.lists(st.integers(0, 9), max_size=3)
curry_cases = st.tuples(args_, kwargs, st.lists(st.tuples(args_, kwargs), min_size=1, max_size=5), st.booleans())


def calls(case, ctx):
    first, kw, later, nested = case
    seen = []

    def target(*a, **k):
        seen.append((a, dict(k)))
        k.clear()  # must not reach the stored ones
        return len(seen)

    given = dict(kw)
    fun = utils.Curry(target, *first, **given)
    if nested:
        given2 = {"x": 77}
        fun = utils.Curry(fun, 5, **given2)
    given["zz"] = 1  # neither must this
    for i, (a, k) in enumerate(later):
        mine = dict(k)
        same(fun(*a, **mine), i + 1, "result of the call")
        want = (tuple(first) + ((5,) if nested else ()) + tuple(a), {**kw, **({"x": 77} if nested else {}), **k})
        same(seen[-1], want, f"arguments of call {i}")
        same(mine, k, "the keywords afterwards")
    same(len(seen), len(later), "number of calls")
    ctx.nontrivial(bool(first) and any(a for a, _ in later) and bool(kw) and any(k for _, k in later))


# --- files ----------------------------------------------------------------

file_cases = st.tuples(
    st.one_of(
        st.binary(min_size=1, max_size=80),
        st.lists(st.sampled_from([b"\r\n", b"\n", b"\r", b"\x1a", b"\xff", b"\xc3\xa4", b"ab", b"\0"]), min_size=1, max_size=20).map(b"".join),
        st.tuples(st.binary(min_size=1, max_size=9), st.integers(1, 3000)).map(lambda t: t[0] * t[1]),
    ),
    st.lists(st.tuples(st.integers(0, 100), st.integers(0, 100)), min_size=1, max_size=4),
    st.lists(st.tuples(st.integers(0, 1 << 20), st.binary(min_size=1, max_size=6)), max_size=4),
    st.lists(st.tuples(st.sampled_from(["read", "seek", "write"]), st.integers(0, 90), st.binary(max_size=5)), max_size=6),
)


def files(case, ctx):
    blob, extracts, writes, ops = case
    with Scratch() as tmp:
        path = tmp.path("f.bin")
        with open(path, "wb") as f:
            f.write(blob)
        for off, n in extracts:
            got = utils.bin_extractor(path, off, n)
            same(got, blob[off:off + n], f"{n} bytes at {off} of {len(blob)}")
            if n and off + n < len(blob):
                ctx.nontrivial()
        view = utils.create_memorymapped_fileview(path)
        same(len(view), len(blob), "length of the view")
        same(bytes(view), blob, "contents of the view")
        try:
            view[0] = 1
        except TypeError:
            pass
        else:
            require(False, "a view that isn't writeable was written to")
        for off, n in extracts:
            same(bytes(view[off:off + n]), blob[off:off + n], "part of the view")
        del view
        view = utils.create_memorymapped_fileview(path, writeable=True)
        model = bytearray(blob)
        for off, data in writes:
            off %= len(blob)
            data = data[:len(blob) - off]
            view[off:off + len(data)] = data
            model[off:off + len(data)] = data
        same(bytes(view), bytes(model), "contents of the view after writing")
        del view
        with open(path, "rb") as f:
            same(f.read(), bytes(model), "the file after writing")
        same(bytes(utils.create_memorymapped_fileview(path)), bytes(model), "a new view")
    mine, ref = utils.create_string_buffer(blob), io.BytesIO(blob)
    for op, n, data in ops:
        if op == "read":
            same(mine.read(n), ref.read(n), "read from a buffer")
        elif op == "seek":
            same(mine.seek(n), ref.seek(n), "seek in a buffer")
        else:
            mine.write(data)
            ref.write(data)
    same(mine.getvalue(), ref.getvalue(), "the buffer")
    same(utils.create_string_buffer().getvalue(), b"", "a new buffer")


# --- enumerated structures ------------------------------------------------

C_TYPES = {"u8": ctypes.c_uint8, "s8": ctypes.c_int8, "u16": ctypes.c_uint16, "u32": ctypes.c_uint32, "s32": ctypes.c_int32, "u64": ctypes.c_uint64}
COLOURS = enum.IntEnum("Colour", {"RED": 0, "GREEN": 1, "BLUE": 2, "BLACK": 100})
STATES = enum.Enum("State", {"OFF": 0, "ON": 1, "BROKEN": 2, "LOST": 100})


@st.composite
def structures(draw):
    fields = []
    for i in range(draw(st.integers(1, 5))):
        count = draw(st.sampled_from([0, 0, 1, 2, 5]))
        which = draw(st.sampled_from(["", "colour", "state"]))
        values = draw(st.lists(st.sampled_from([0, 1, 2, 100]) if which else st.integers(0, 127), min_size=max(count, 1), max_size=max(count, 1)))
        fields.append((f"{'abcde'[i]}{draw(st.sampled_from(['', 'Field', '_map', '1']))}", draw(st.sampled_from(sorted(C_TYPES))), count, which, values))
    return fields, draw(st.booleans())


def structs(case, ctx):
    fields, plain = case
    spec = [(n, C_TYPES[t] * c if c else C_TYPES[t]) for n, t, c, _, _ in fields]
    mapping = {n: COLOURS if w == "colour" else STATES for n, _, _, w, _ in fields if w}
    cls = type("S", (utils.StructureWithEnums,), {"_fields_": spec, **({} if plain and not mapping else {"_map": mapping})})
    other = type("Plain", (ctypes.Structure,), {"_fields_": spec})
    obj, ref = cls(), other()
    for n, _, c, _, values in fields:
        if c:
            for i, v in enumerate(values):
                getattr(ref, n)[i] = v
        else:
            setattr(ref, n, values[0])
    same(ctypes.sizeof(obj), ctypes.sizeof(ref), "size of the structure")
    ctypes.memmove(ctypes.addressof(obj), ctypes.addressof(ref), ctypes.sizeof(ref))
    for n, t, c, w, values in fields:
        got = getattr(obj, n)
        conv = {"": lambda v: v, "colour": COLOURS, "state": STATES}[w]
        want = [conv(v) for v in values] if c else conv(values[0])
        if w or not c:
            same(got, want, f"member {n}")
            kinds = [type(g) for g in got] if c else [type(got)]
            require(all(k is type(conv(0)) for k in kinds), "member {}: {!r}", n, got)
        else:
            same(list(got), want, f"member {n}")
    text = str(obj)
    if all(w or not c for _, _, c, w, _ in fields):
        same(repr(obj), text, "repr()")
    lines = text.splitlines()
    same(len(lines), len(fields) + 2, f"lines of {text!r}")
    for line, (n, _, c, w, values) in zip(lines[1:], fields):
        require(line.split()[0] == n, "line {!r} for member {}", line, n)
        if w:
            members = [{"colour": COLOURS, "state": STATES}[w](v) for v in values]
            for m in members:
                require(m.name in line, "{} missing in {!r}", m, line)
        elif not c:
            require(line.rstrip("; ").endswith(f"= {values[0]}"), "value {} in {!r}", values[0], line)
    same(bytes(obj), bytes(ref), "bytes of the structure")
    ctx.nontrivial(any(w and c for _, _, c, w, _ in fields))


# --- singletons -----------------------------------------------------------

singleton_cases = st.tuples(
    st.integers(1, 3),  # classes
    st.lists(st.tuples(st.integers(0, 2), st.integers(1, 6)), min_size=1, max_size=3),  # (class, threads) one after the other
    st.booleans(),
)


def singletons(case, ctx):
    n, rounds, slow = case
    created = []

    class Slow:
        def __new__(cls):
            if slow:
                time.sleep(0.001)
            created.append(cls)
            return super().__new__(cls)

    classes = [type(f"Single{i}", (utils.SingletonBase, Slow), {"__init__": lambda self, *args, **kws: None}) for i in range(n)]
    known = {}
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for which, threads in rounds:
            cls = classes[which % n]
            got, barrier = [], threading.Barrier(threads)

            def work():
                barrier.wait()
                got.append(cls(1, key="x"))

            ts = [threading.Thread(target=work) for _ in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            same(len(got), threads, "instances obtained")
            first = known.setdefault(which % n, got[0])
            require(all(g is first for g in got), "several instances of a singleton")
            require(type(first) is cls, "instance of {} is a {}", cls, type(first))
            if threads > 1:
                ctx.nontrivial()
    finally:
        sys.setswitchinterval(old)
    same(len(created), len(known), "objects created")
    require(len({id(o) for o in known.values()}) == len(known), "different classes share an instance")


# --- logging --------------------------------------------------------------

LEVELS = {"DEBUG": 10, "INFO": 20, "WARN": 30, "ERROR": 40, "CRITICAL": 50}
SEVERITIES = ["debug", "info", "warn", "error", "critical"]
_serial = itertools.count()


@st.composite
def conversations(draw):
    names = draw(st.lists(st.sampled_from(["r", "s", "r-sub", "R"]), min_size=1, max_size=3))
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.integers(0, len(names) - 1))
        op = draw(st.sampled_from(["say", "say", "say", "say", "log", "last", "level", "level", "verbose", "silent", "new"]))
        if op == "say":
            arg = draw(st.sampled_from(SEVERITIES))
        elif op in ("log", "new"):
            arg = draw(st.sampled_from([10, 20, 30, 40, 50, 15, 35, 60]))
        elif op == "level":
            arg = draw(st.one_of(
                st.sampled_from(sorted(LEVELS)).flatmap(lambda n: st.sampled_from([n, n.lower(), n.title()])), st.sampled_from([10, 20, 30, 40, 50, 45]),
                st.sampled_from(["loud", "", "WARNING?"]),
            ))
        else:
            arg = None
        ops.append((k, op, arg))
    return names, ops, draw(st.lists(st.sampled_from([None, 10, 20, 30, 50]), min_size=len(names), max_size=len(names)))


def logging_(case, ctx):
    names, ops, initial = case
    run = f"vf{next(_serial)}"
    capture = io.StringIO()
    levels, last, made = {}, {}, []
    disabled, err = logging.root.manager.disable, sys.stderr
    logging.disable(logging.NOTSET)
    sys.stderr = capture
    try:
        def create(name, level):
            made.append(Logger(f"{run}.{name}") if level is None else Logger(f"{run}.{name}", level))
            levels[name] = 30 if level is None else level
            last[len(made) - 1] = (None, None)
            return len(made) - 1

        slots = [create(n, lv) for n, lv in zip(names, initial)]
        for i, (k, op, arg) in enumerate(ops):
            name, log = names[k], made[slots[k]]
            mark = f"message {i // (1 + len(ops) % 4)} %s {{}} {run}"  # Some are repeated.
            capture.seek(0)
            capture.truncate()
            if op in ("say", "log"):
                sev = LEVELS[arg.upper()] if op == "say" else arg
                if op == "say":
                    getattr(log, arg)(mark)
                else:
                    log.log(mark, arg)
                last[slots[k]] = (sev, mark)
                text = capture.getvalue()
                if sev >= levels[name]:
                    require(mark in text, "message of severity {} isn't emitted by a logger of level {}: {!r}", sev, levels[name], text)
                    same(text.count(mark), 1, "times the message is emitted")
                    if op == "say":
                        require(text.split()[0].strip("[").startswith(arg.upper()), "severity {} in {!r}", arg, text)
                    require(f"{run}.{name}" in text, "name of the logger in {!r}", text)
                else:
                    same(text, "", f"emitted though severity {sev} is below level {levels[name]}")
                    ctx.nontrivial()
            elif op == "last":
                same(log.getLastError(), last[slots[k]], "last error")
                last[slots[k]] = (None, None)
                same(log.getLastError(), (None, None), "last error, asked again")
            elif op == "level":
                log.setLevel(arg)
                levels[name] = LEVELS.get(arg.upper(), 30) if isinstance(arg, str) else arg
            elif op == "verbose":
                log.verbose()
                levels[name] = 10
            elif op == "silent":
                log.silent()
                levels[name] = 50
            else:
                slots[k] = create(name, arg)
            if op not in ("say", "log"):
                same(capture.getvalue(), "", f"printed by {op}")
    finally:
        sys.stderr = err
        logging.disable(disabled)
        for name in [n for n in logging.root.manager.loggerDict if run in n]:
            del logging.root.manager.loggerDict[name]


# --- paths ----------------------------------------------------------------

component = st.text("abcXYZ 0._-", min_size=1, max_size=6)


def paths(case, ctx):
    drive, parts, other, slash = case
    cyg = f"/cygdrive/{drive}/" + "/".join(parts) + ("/" if slash and parts else "")
    want = f"{drive}:\\" + "\\".join(parts) + ("\\" if slash and parts else "")
    same(utils.cygpath_to_win(cyg), want, f"windows path of {cyg!r}")
    if not other.startswith("/cygdrive/"):
        same(utils.cygpath_to_win(other), other, "another path")
    ctx.nontrivial(len(parts) > 1)


path_cases = st.tuples(
    st.sampled_from("abcdzCDZ"), st.lists(component, max_size=5),
    st.one_of(
        st.lists(component, max_size=4).map("/".join), st.lists(component, max_size=4).map(lambda p: "/" + "/".join(p)),
        st.sampled_from(["/cygdriv/c/x", "cygdrive/c/x", "./cygdrive/c/a", "/x/cygdrive/c/a", "C:\\a/b", "", "/", "/Cygdrive/c/x"]),
    ),
    st.booleans(),
)


# --- filler ---------------------------------------------------------------


def fillers(case, ctx):
    ch, n = case
    bad = TypeError if not isinstance(ch, int) or not isinstance(n, int) else None
    low = not bad and (not 0 <= ch <= 255 or n < 1)
    try:
        got = filler(ch, n)
    except (TypeError, ValueError) as e:
        require(bad or low, "filler({!r}, {!r}) raised {!r}", ch, n, e)
        ctx.event("refused")
    else:
        require(not bad and not low, "filler({!r}, {!r}) accepted: {!r}", ch, n, got[:20])
        require(isinstance(got, bytearray), "filler() returned {!r}", type(got))
        same(bytes(got), bytes([ch]) * n, f"filler({ch}, {n})")
        got[0] ^= 1
        same(bytes(filler(ch, n)), bytes([ch]) * n, "another filler after the first has been changed")
        ctx.nontrivial(n > 1)


filler_cases = st.tuples(
    st.one_of(st.integers(0, 255), st.integers(0, 255), st.sampled_from([0, 255, 256, -1, 1000, 1.5, "x", None, b"A"])),
    st.one_of(st.integers(1, 300), st.integers(1, 300), st.sampled_from([0, 1, -1, 70000, 2.0, "4", None])),
)


def subs():
    return [
        Sub("slices", slice_cases, slices, quick=1500, thorough=40000, shards=2),
        Sub("numbers", number_cases, numbers, quick=1500, thorough=40000, shards=1),
        Sub("calls", curry_cases, calls, quick=1000, thorough=30000, shards=1),
        Sub("files", file_cases, files, quick=800, thorough=20000, shards=2),
        Sub("structs", structures(), structs, quick=800, thorough=20000, shards=2),
        Sub("singletons", singleton_cases, singletons, quick=300, thorough=6000, shards=2),
        Sub("logging", conversations(), logging_, quick=1200, thorough=30000, shards=2),
        Sub("fillers", filler_cases, fillers, quick=400, thorough=8000, shards=1),
        Sub("paths", path_cases, paths, quick=800, thorough=20000, shards=1),
    ]
