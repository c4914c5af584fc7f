"""C20: format probing recognises every file the package writes; codec registry."""

import io

from hypothesis import strategies as st

import objutils
from objutils.registry import CodecAlreadyExistError, CodecDoesNotExistError, Registry, registry

from vf import gen
from vf.core import Sub, Violation, raises, require, same
from vf.hexutil import dumps, image

PROPERTY = "C20"
RULE = (
    "Case = blocks written with a text codec, probed from bytes, str and file; binary rubbish; and histories of codec "
    "registrations/look-ups against a dict. Non-trivial: every probed file; registry histories with a duplicate or a miss."
)
ASSUMPTIONS = ["shf, bin and binzip offer no probing.", "Files are written by the package itself with default options."]


def probing(case, ctx):
    codec, blks, row, how = case
    blob = dumps(codec, image(blks), row)
    if how == "bytes":
        got = objutils.probes(blob)
    elif how == "str":
        got = objutils.probes(blob.decode("ascii"))
    else:
        got = objutils.probe(io.BytesIO(blob))
    same(got, codec, f"probing {blob[:120]!r} ({how})")
    same(gen.content(objutils.loads(got, blob)), gen.canonical(blks), f"loading with the probed codec {got}")
    ctx.event(codec)
    ctx.nontrivial()


def rubbish(case, ctx):
    blob = case
    got = objutils.probes(blob)
    same(got, None, f"probing of binary data {blob[:60].hex()}")
    ctx.nontrivial(len(blob) > 8)


def codec_classes(calls):
    """Classes of a codec that record how they're called."""

    def method(kind):
        return lambda self, *args, **kws: calls.append((kind, args, kws)) or f"{kind}: result"

    return type("R", (), {k: method(k) for k in ("load", "loads")}), type("W", (), {k: method(k) for k in ("dump", "dumps")})


@st.composite
def histories(draw):
    """Registrations and look-ups; most names are related to each other (case, separators, affixes, parts)."""
    text = st.text("abcxyzABXYZ0179-_. +/", min_size=1, max_size=8)
    base = draw(st.lists(st.one_of(text, st.sampled_from(["vfA", "my-fmt", "a", "hex.2"])), min_size=1, max_size=3))
    related = st.tuples(st.sampled_from(base), st.integers(0, 9)).map(
        lambda t: [
            t[0], t[0], t[0].upper(), t[0].lower(), t[0].swapcase(), t[0].replace("-", ""), t[0] + t[0][:1], t[0][:-1] or "a",
            " " + t[0], t[0].replace("-", "_"),
        ][t[1]]
    )
    name = st.one_of(related, related, related, st.sampled_from(["srec", "SREC", "ihex", "IHex", "i-hex", "nosuch", "srec ", "s19", "bi"]))
    op = st.sampled_from(["register", "register", "get", "get", "use", "again"])
    return draw(st.lists(st.tuples(op, name), max_size=14))


def registering(ops, ctx):
    model = {}
    log = {}
    names = set(registry.formats)
    interesting = False
    try:
        for op, name in ops:
            if op == "register":
                calls = []
                codec = (*codec_classes(calls), "descr " + name)
                taken = name.lower() in model or name.lower() in names
                ok = not raises(CodecAlreadyExistError, registry.register, name, *codec)
                require(ok != taken, "register({!r}): accepted {}, name in use {}", name, ok, taken)
                if ok:
                    model[name.lower()] = codec
                    log[name.lower()] = calls
                interesting |= taken
            elif op == "get":
                want = model.get(name.lower())
                if want is None and name.lower() in names:
                    require(registry.get(name) is registry.get(name.lower()), "get({!r})", name)
                    continue
                try:
                    got = registry.get(name)
                except CodecDoesNotExistError:
                    require(want is None, "registered codec {!r} not found", name)
                    interesting = True
                else:
                    require(want is not None and tuple(got) == want, "get({!r}): {!r}", name, got)
            elif op == "use":
                if name.lower() in model:
                    for kind in ("load", "loads", "dump", "dumps"):
                        got = getattr(objutils, kind)(name, 1, "x", option=2)
                        if kind != "dump":
                            same(got, f"{kind}: result", f"{kind}({name!r})")
                    want = [(kind, (1, "x"), {"option": 2}) for kind in ("load", "loads", "dump", "dumps")]
                    same(log[name.lower()][-4:], want, f"calls of the codec {name!r}")
                elif name.lower() not in names:
                    for kind in ("load", "loads", "dump", "dumps"):
                        require(raises(CodecDoesNotExistError, getattr(objutils, kind), name, b"x"), "{} with unknown codec {!r}", kind, name)
            else:
                Registry()  # a singleton: nothing may get lost
        same(sorted(registry.formats), sorted(names | set(model)), "formats")
        same([k for k, _ in registry if k in model], list(model), "iteration order of the registered codecs")
    finally:
        for name in list(registry.codecs):
            if name not in names:
                registry.codecs.pop(name)
    ctx.nontrivial(interesting)


def subs():
    res = []
    for c in gen.ROW_CODECS:
        strat = st.tuples(st.just(c), gen.blocks(gen.CODECS[c][0], 3), gen.rowlens(c), st.sampled_from(["bytes", "str", "file"]))
        res.append(Sub(f"probe_{c}", strat, probing, quick=300, thorough=8000, shards=1))
    res.append(
        Sub("binary", st.binary(min_size=0, max_size=60).map(lambda b: b"\x7fELF\x01\x01\xfe\xff" + b), rubbish, quick=300, thorough=4000, shards=1)
    )
    res.append(
        Sub(
            "registry",
            histories(),
            registering,
            quick=1500,
            thorough=40000,
            shards=2,
        )
    )
    return res
