"""C30: formats of a user's own, described by record layouts and hooks."""

import io

from hypothesis import strategies as st

import objutils
from objutils import Image, Section, hexfile
from objutils.registry import registry

from vf import gen
from vf.core import Sub, raises, require, same
from vf.hexutil import Scratch, read_via

PROPERTY = "C30"
RULE = (
    "reading: record layouts (fields of any width and order, fixed characters, separated data, several kinds of records) x blocks cut into records in "
    "any order x other records x foreign lines x hooks (relocation, checksums that fail). writing: images x row lengths x headers x footers x options x "
    "address ranges x destinations. Oracle: the fields the lines were made of; the rows the image consists of. Non-trivial: several kinds of records or "
    "fields in an unusual order; several rows."
)
ASSUMPTIONS = [
    "Fixed characters that mean something in regular expressions are escaped by the author of the layout, as the package's own layouts do.",
    "Layouts are unambiguous: fields of variable length are limited by what follows.",
]

NAME = "vf-own"
LITERALS = ":;/%=~#&,xqyz@"


@st.composite
def layouts(draw, kind, start):
    """-> list of (letter or '', text, width): the parts of one record."""
    parts = [("", start, 0)] if start else []
    fields = []
    if kind == "data":
        fields += [("A", draw(st.sampled_from([2, 3, 4, 4, 5, 6, 8, 8, 16]))), ("D", 0)]
    elif draw(st.booleans()):
        fields.append(("A", draw(st.sampled_from([2, 4, 8]))))
    for letter, widths in (("L", (1, 2, 4)), ("T", (1, 2)), ("C", (1, 2, 4, 8)), ("B", (2, 4))):
        if draw(st.integers(0, 2)):
            fields.append((letter, draw(st.sampled_from(widths))))
    fields = draw(st.permutations(fields))
    if kind == "other":
        if draw(st.booleans()):
            fields.append((draw(st.sampled_from("UD")), 0))
    for letter, width in fields:
        lit = draw(st.sampled_from(["", "", "", ":", ";", "=", "::", " ", "  ", "x", "00", "q,"]))
        if lit and not (parts and parts[-1][1][-1:] == lit[0] and not parts[-1][0]):
            parts.append(("", lit, 0))
        parts.append((letter, "", width))
    return parts


@st.composite
def reading_cases(draw):
    single = draw(st.integers(0, 3)) == 0  # FORMAT_SPEC is just a string
    n = 1 if single else draw(st.integers(1, 4))
    starts = draw(st.permutations(list(":;/%=~#&@")))[:n]
    kinds = ["data"] + [draw(st.sampled_from(["data", "other"])) for _ in range(n - 1)]
    sep = draw(st.sampled_from([None, None, " ", ","]))
    if single:
        starts[0] = draw(st.sampled_from(["", starts[0]]))
    recs = [draw(layouts(k, s + draw(st.sampled_from(["", "S", "1"])) if s else s)) for k, s in zip(kinds, starts)]
    width = min(w for r, k in zip(recs, kinds) if k == "data" for c, _, w in r if c == "A")
    blks = draw(gen.blocks(4 * width, 3, max_size=40))
    return {
        "single": single, "sep": sep, "recs": list(zip(kinds, recs)), "blocks": blks, "row": draw(st.integers(1, 20)),
        "shuffle": draw(st.integers(0, 1 << 20)), "numbers": draw(st.lists(st.integers(0, (1 << 32) - 1), min_size=8, max_size=8)),
        "case": draw(st.sampled_from(["upper", "lower", "mixed"])), "foreign": draw(st.lists(st.tuples(st.integers(0, 20), st.sampled_from(["", "?comment", "? :00", "!", "?\t"])), max_size=3)),
        "cuts": draw(st.lists(st.tuples(st.integers(0, 20), st.integers(0, 20), st.integers(0, 40)), max_size=2)), "extra": draw(st.integers(0, 5)), "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])), "junk": draw(st.sampled_from(["", "", "! note", "|", "!;00"])),
        "text": draw(st.sampled_from(["", "symbol 12", "12ab", "x:y;z"])), "move": draw(st.sampled_from([0, 0, 1, 256, 1 << 20])),
        "fail": draw(st.one_of(st.just(-1), st.just(-1), st.integers(0, 6))), "via": draw(st.sampled_from(["bytes", "bytearray", "str", "fp", "open", "path"])),
    }


ATTR = {"A": "address", "L": "length", "T": "type", "C": "checksum", "B": "addrChecksum"}


def reading(case, ctx):
    recs = case["recs"]
    sep = case["sep"]
    state = [case["shuffle"]]

    def rnd(n):
        state[0] = (state[0] * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (state[0] >> 33) % n

    def hexa(v, width):
        s = f"{v:0{width}X}"
        if case["case"] == "lower":
            s = s.lower()
        elif case["case"] == "mixed":
            s = "".join(c.lower() if rnd(2) else c for c in s)
        return s

    lines, count = [], 0

    def line(which, address=None, data=None):
        nonlocal count
        kind, parts = recs[which]
        text, want = "", {}
        for j, (letter, lit, width) in enumerate(parts):
            if not letter:
                text += lit
            elif letter == "D":
                chunk = bytes([rnd(256)]) * (1 + rnd(3)) if data is None else data
                text += (sep if sep == " " else "").join(hexa(b, 2) for b in chunk)
                want["chunk"] = chunk
            elif letter == "U":
                text += case["text"]
                want["chunk"] = case["text"]
            else:
                v = address if letter == "A" and address is not None else case["numbers"][(count + j) % 8] % (10 if letter == "T" and width == 1 else 16 ** width)
                if letter == "T":
                    s = f"{v % 10 ** width:0{width}d}"
                    v = int(s, 16)
                else:
                    s = hexa(v, width)
                text += s
                want[ATTR[letter]] = v
        if parts[-1][0] == "U":
            pass
        else:
            text += case["junk"]
            want["junk"] = case["junk"]
        count += 1
        lines.append([text, which, want])

    datas = [i for i, (k, _) in enumerate(recs) if k == "data"]
    others = [i for i, (k, _) in enumerate(recs) if k == "other"]
    for a, d in case["blocks"]:
        for i in range(0, len(d), case["row"]):
            line(datas[rnd(len(datas))], a + i, d[i:i + case["row"]])
    if others:
        for _ in range(case["extra"]):
            line(others[rnd(len(others))])
    for i in range(len(lines) - 1, 0, -1):
        j = rnd(i + 1)
        if case["shuffle"] % 3:
            lines[i], lines[j] = lines[j], lines[i]
    fail = case["fail"] if case["fail"] < len(lines) else -1
    stumps = []
    for pos, which, n in case["cuts"]:  # too short to be of that layout
        text, which, _ = lines[which % len(lines)]
        shortest = sum(len(lit.replace(" ", "")) + (width if letter else 0) + (letter == "D" and not sep) for letter, lit, width in recs[which][1])
        if text[:n % shortest].strip():
            stumps.append((pos, text[:n % shortest].rstrip()))
    ctx.event("cut records", bool(stumps))
    for pos, text in case["foreign"] + stumps:
        lines.insert(min(pos, len(lines)), [text, None, None])
    known = [(n, *rest) for n, rest in enumerate(lines, 1) if rest[1] is not None]
    blob = "".join(t + case["eol"] for t, _, _ in lines).encode("ascii")

    spec = [("data" if k == "data" else "other" + str(i), "".join(lit if not c else c * (w or 2) for c, lit, w in parts)) for i, (k, parts) in enumerate(recs)]
    # Records of several layouts may have the same type.
    seen = []

    class Boom(Exception):
        pass

    class Reader(hexfile.Reader):
        FORMAT_SPEC = spec[0][1] if case["single"] else tuple(spec)
        DATA_SEPARATOR = sep

        def check_line(self, rec, format_type):
            if len(seen) == fail:
                raise Boom()
            seen.append((format_type, {k: v for k, v in vars(rec).items()}))

        def special_processing(self, rec, format_type):
            if hasattr(rec, "address"):
                rec.address += case["move"]

        def parseData(self, rec, format_type):
            return case["single"] or not any(c == "U" for c, _, _ in recs[int(format_type[5:])][1]) if str(format_type).startswith("other") else True

        def is_data_line(self, rec, format_type):
            return case["single"] or format_type == "data"

    class Writer(hexfile.Writer):
        pass

    registry.register(NAME, Reader, Writer, "")
    try:
        if fail >= 0:
            require(raises(Boom, read_via, case["via"], NAME, blob), "a record refused by the format was accepted")
        else:
            img = read_via(case["via"], NAME, blob)
    finally:
        registry.codecs.pop(NAME)
    upto = known[:fail] if fail >= 0 else known
    same(len(seen), len(upto), "records recognised")
    for (n, text, which, want), (ft, got) in zip(upto, seen):
        what = f"line {n}: {text!r}, layouts {spec!r}"
        if not case["single"]:
            same(ft, spec[which][0], "record type of " + what)
        for k, v in want.items():
            g = got.get(k)
            if k == "junk" or isinstance(v, str):
                g = g.rstrip("\r\n") if isinstance(g, str) else g
            elif k == "chunk":
                g = bytes(g) if not isinstance(g, str) else g
            same(g, v, f"{k} of {what}")
        same(got.get("line_number"), n, "line number of " + what)
        for k in ATTR.values():
            require(k in want or k not in got, "{} of {}", k, what)
    if fail >= 0:
        return
    same(gen.content(img), gen.canonical([(a + case["move"], d) for a, d in case["blocks"]]), f"contents read from {blob[:200]!r}")
    for i, (k, _) in enumerate(recs):
        if k == "other":
            got = [(m.address, m.chunk if not isinstance(m.chunk, str) else m.chunk.rstrip("\r\n")) for m in img.meta.get(spec[i][0], [])]
            want = [(w["address"] + case["move"] if "address" in w else None, w.get("chunk")) for _, _, which, w in known if which == i]
            same(got, want, f"other records of type {spec[i][0]}")
    ctx.event("single", case["single"])
    ctx.event("kinds", len(recs))
    ctx.nontrivial(len(recs) > 1 or [c for c, _, _ in recs[0][1] if c in "AD"] == ["D", "A"])


# --- writing --------------------------------------------------------------


@st.composite
def writing_cases(draw):
    bits = draw(st.sampled_from([8, 12, 16, 20, 24, 32, 33, 64]))
    blks = draw(gen.blocks(min(bits + draw(st.sampled_from([0, 0, 0, 1])), 64), 3, max_size=60))
    return {
        "bits": bits, "blocks": blks if draw(st.integers(0, 9)) else [], "row": draw(st.one_of(st.just(None), st.integers(1, 40))),
        "header": draw(st.sampled_from([None, "", "HDR", "h1\nh2"])), "footer": draw(st.sampled_from([None, "", "END", "e\n"])),
        "options": draw(st.dictionaries(st.sampled_from(["colour", "size", "mode", "nosuch"]), st.integers(0, 9), max_size=2)),
        "via": draw(st.sampled_from(["dumps", "fp", "path", "path"])), "join": draw(st.booleans()),
        "as": draw(st.sampled_from(["image", "image", "image", "section"])), "post": draw(st.booleans()), "meta": draw(st.sampled_from([None, {"x": [1]}])),
        "before": draw(st.binary(max_size=5)),
    }


def writing(case, ctx):
    hooks = []

    class Writer(hexfile.Writer):
        MAX_ADDRESS_BITS = case["bits"]
        colour = 100
        size = None
        mode = ""

        def pre_processing(self, image):
            hooks.append(("pre", image))

        def compose_header(self, meta):
            hooks.append(("header", meta))
            return case["header"]

        def compose_footer(self, meta):
            hooks.append(("footer", meta))
            return case["footer"]

        def compose_row(self, address, length, row):
            hooks.append(("row", address, length, list(row)))
            return f"{address:X}/{length}={self.hex_bytes(row)};{self.hex_bytes(row, spaced=True)}!{self.colour}{self.size}{self.mode}"

    if case["post"]:
        def post(self, data):
            hooks.append(("post",))
            return hexfile.Writer.post_processing(self, data) + b"<"

        Writer.post_processing = post

    class Reader(hexfile.Reader):
        FORMAT_SPEC = (("x", "AAAA"),)

    blks = sorted(case["blocks"])
    single = case["as"] == "section" and blks
    if single:
        obj = Section(blks[0][0], blks[0][1])
        want_blocks = blks[:1]
    else:
        obj = Image([Section(a, d) for a, d in blks], join=case["join"], meta=case["meta"])
        want_blocks = gen.canonical(blks) if case["join"] else blks
    kws = dict(case["options"])
    row = 16
    if case["row"] is not None:
        kws["row_length"] = row = case["row"]
    meta = obj.meta if not single else {}
    top = max((a + len(d) - 1 for a, d in want_blocks), default=0)
    refuses = None
    if want_blocks and top.bit_length() > case["bits"]:
        refuses = hexfile.AddressRangeToLargeError
    elif want_blocks and "nosuch" in kws:
        refuses = AttributeError

    registry.register(NAME, Reader, Writer, "")
    try:
        with Scratch() as tmp:
            path = tmp.path("out")
            with open(path, "wb") as f:
                f.write(case["before"])
            fp = io.BytesIO()
            closed = []
            fp.close = lambda: closed.append(1)

            def act():
                if case["via"] == "dumps":
                    return objutils.dumps(NAME, obj, **kws)
                objutils.dump(NAME, fp if case["via"] == "fp" else path, obj, **kws)

            try:
                out = act()
            except (hexfile.AddressRangeToLargeError, AttributeError) as e:
                require(refuses is type(e), "image up to {:#x}, {} address bits, options {}: {!r}", top, case["bits"], kws, e)
                same(fp.getvalue(), b"", "written though the image can't be encoded")
                with open(path, "rb") as f:
                    same(f.read(), case["before"], "the file after an image that can't be encoded")
                ctx.event("refused")
                return
            require(refuses is None, "image up to {:#x}, {} address bits, options {}: accepted", top, case["bits"], kws)
            if case["via"] == "fp":
                out = fp.getvalue()
            elif case["via"] == "path":
                with open(path, "rb") as f:
                    out = f.read()
    finally:
        registry.codecs.pop(NAME)

    same(gen.content(obj), want_blocks, "the image afterwards")
    if not want_blocks:
        same(bytes(out), b"", "an image without sections")
        return
    rows = [(a + i, d[i:i + row]) for a, d in want_blocks for i in range(0, len(d), row)]
    opts = f"{kws.get('colour', 100)}{kws.get('size')}{kws.get('mode', '')}"
    lines = [f"{a:X}/{len(d)}={d.hex().upper()};{d.hex(' ').upper()}!{opts}" for a, d in rows]
    text = "\n".join(([case["header"]] if case["header"] else []) + lines + ([case["footer"]] if case["footer"] else []))
    if not text.endswith("\n"):
        text += "\n"
    same(bytes(out), text.encode("ascii") + (b"<" if case["post"] else b""), "output")
    want = [("pre", obj), ("header", meta)] + [("row", a, len(d), list(d)) for a, d in rows] + [("footer", meta)] + ([("post",)] if case["post"] else [])
    same(hooks[1:], want[1:], "calls of the hooks")
    require(hooks[0][0] == "pre" and hooks[0][1] is obj, "first call: {!r}", hooks[0])
    ctx.nontrivial(len(rows) > 1)


def subs():
    return [
        Sub("reading", reading_cases(), reading, quick=2500, thorough=60000, shards=4),
        Sub("writing", writing_cases(), writing, quick=1500, thorough=40000, shards=2),
    ]
