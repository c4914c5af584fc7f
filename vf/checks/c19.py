"""C19: DWARF expressions are decoded operation by operation."""

import contextlib
import gc
import io

from hypothesis import strategies as st

from objutils.dwarf import DwarfProcessor
from objutils.dwarf.sm import StackMachine

from vf import dwarfgen, elfgen
from vf.core import Sub, same
from vf.hexutil import Scratch

PROPERTY = "C19"
RULE = (
    "Case = expressions generated as lists of (operation, operands) - all standard and GNU operations, operands at the limits of their "
    "encodings - serialised independently for two processors of different class or byte order, decoded in an arbitrary interleaving. Oracle: "
    "the lists. Plus every single-operation expression. Non-trivial: an operation with operands followed by another operation."
)
ASSUMPTIONS = ["32-bit DWARF; operations of the standard and the GNU extensions (0xe0-0xef and 0xf1 are ambiguous or undefined)."]


def processors(tmp, stack, targets):
    out = []
    for i, (bits, le) in enumerate(targets):
        w = elfgen.build(dwarfgen.elf_spec({".debug_str": b"x\0"}, bits, le))
        path = tmp.path(f"f{i}.elf")
        elfgen.write(path, w.blob)
        out.append(DwarfProcessor(stack.enter_context(elfgen.Opened(path))))
    return out


def fit(ops, bits):
    return [(c, [v & 0xFFFFFFFF if k == "a" and bits == 32 else v for k, v in zip(dwarfgen.OPS[c][1], vals)]) for c, vals in ops]


def check(procs, targets, which, ops):
    bits, le = targets[which]
    ops = fit(ops, bits)
    got = procs[which].dwarf_expression(dwarfgen.encode_expr(ops, bits, le))
    same(dwarfgen.normal_text(got), dwarfgen.expr_text(ops), f"expression {ops!r} ({bits} bit, {'little' if le else 'big'} endian)")


def run(case, ctx):
    with Scratch() as tmp, contextlib.ExitStack() as stack, contextlib.redirect_stdout(io.StringIO()):
        procs = processors(tmp, stack, case["targets"])
        for which, ops in case["exprs"]:
            check(procs, case["targets"], which % len(procs), ops)
        del procs
    gc.collect(0)
    ctx.event("processors", len(case["targets"]) > 1)
    for _, ops in case["exprs"]:
        for c, vals in ops:
            ctx.event(f"op {dwarfgen.OPS[c][0]}", bool(dwarfgen.OPS[c][1]))
    ctx.nontrivial(any(any(vals for _, vals in ops[:-1]) for _, ops in case["exprs"]))


def single(case, ctx):
    """One expression per operation, operands at their limits."""
    bits, le = case
    with Scratch() as tmp, contextlib.ExitStack() as stack, contextlib.redirect_stdout(io.StringIO()):
        procs = processors(tmp, stack, [(bits, le)])
        for code in dwarfgen.CODES:
            kinds = dwarfgen.OPS[code][1]
            for n in range(8):
                vals = []
                for j, k in enumerate(kinds):
                    vals.append(LIMITS[k][(n + 3 * j) % len(LIMITS[k])])
                check(procs, [(bits, le)], 0, [(code, vals)])
                check(procs, [(bits, le)], 0, [(0x12, []), (code, vals), (0x9F, [])])
        del procs
    ctx.nontrivial(True)


PUSHING = [0x03, *range(0x08, 0x12), *range(0x30, 0x50)]


@st.composite
def pushing(draw):
    """Expressions which push constants, interleaved with direct use of the stack."""
    bits = draw(st.sampled_from([32, 64]))
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["eval", "eval", "eval", "pop", "push", "set"]))
        if kind == "eval":
            codes = draw(st.lists(st.sampled_from(PUSHING), min_size=1, max_size=6))
            steps.append((kind, [(c, [draw(st.sampled_from(LIMITS[k]) | dwarfgen.FIXED_VALUES.get(k, st.sampled_from(LIMITS[k]))) for k in dwarfgen.OPS[c][1]]) for c in codes]))
        else:
            steps.append((kind, draw(st.integers(-(1 << 63), 1 << 64))))
    return bits, draw(st.booleans()), steps


def stack_(case, ctx):
    bits, le, steps = case
    pushed = 0
    with Scratch() as tmp, contextlib.ExitStack() as stack, contextlib.redirect_stdout(io.StringIO()):
        machine = StackMachine(processors(tmp, stack, [(bits, le)])[0].readers)
        model = []
        for i, (kind, arg) in enumerate(steps):
            what = f"step {i}: {kind} {arg!r}"
            if kind == "eval":
                ops = fit(arg, bits)
                got = machine.evaluate(dwarfgen.encode_expr(ops, bits, le))
                same(dwarfgen.normal_text(got), dwarfgen.expr_text(ops), f"{what}: text")
                model += [v[0] if v else c - 0x30 for c, v in ops]
                pushed += len(ops)
            elif kind == "push":
                machine.stack.push(arg)
                model.append(arg)
            elif model and kind == "pop":
                same(machine.stack.pop(), model.pop(), what)
            elif model:
                machine.stack.tos = arg
                model[-1] = arg
            same(machine.stack.empty(), not model, f"{what}: empty")
            if model:
                same(machine.stack.tos, model[-1], f"{what}: top of the stack")
        left = []
        while not machine.stack.empty() and len(left) <= len(model):
            left.append(machine.stack.pop())
        same(left[::-1], model, "the stack in the end")
        del machine
    gc.collect(0)
    ctx.nontrivial(pushed > 1)


def _ints(bits, signed=False):
    return [0, 1, -1, -(1 << (bits - 1)), (1 << (bits - 1)) - 1] if signed else [0, 1, 1 << (bits - 1), (1 << bits) - 1]


LIMITS = {
    "1": _ints(8), "2": _ints(16), "4": _ints(32), "8": _ints(64), "w": _ints(8, True), "x": _ints(16, True), "y": _ints(32, True), "z": _ints(64, True),
    "u": [0, 1, 127, 128, 1 << 32, (1 << 64) - 1], "s": [0, 1, -1, 63, 64, -64, -65, 1 << 40, -(1 << 63)], "a": [0, 1, 0x80000000, 0xFFFFFFFF],
    "B": [b"", b"\x55", b"\x9f" * 130], "b": [b"", b"\x01\x02\x03\x04", b"\x9f" * 255],
}  # fmt: skip

TARGET = st.tuples(st.sampled_from([32, 64]), st.booleans())
CASES = st.fixed_dictionaries({
    "targets": st.lists(TARGET, min_size=1, max_size=2),
    "exprs": st.lists(st.tuples(st.integers(0, 1), dwarfgen.expression(64)), min_size=1, max_size=8),
})  # fmt: skip


def subs():
    return [
        Sub("expressions", CASES, run, quick=1500, thorough=60000, shards=8),
        Sub("stack", pushing(), stack_, quick=600, thorough=20000, shards=4),
        Sub("operations", st.tuples(st.sampled_from([32, 64]), st.booleans()), single, quick=16, thorough=16, shards=4),
    ]
