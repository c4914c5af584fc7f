"""C23: foreign lines are ignored, in bounded time."""

from hypothesis import strategies as st

import objutils

from vf import gen
from vf import refcodecs as rc
from vf.core import Sub, require, same

PROPERTY = "C23"
RULE = (
    "Case = valid records of a codec interleaved with lines that cannot be records of it (comments, prose in any alphabet and encoding, "
    "blank lines, records of other formats, very long and repetitive lines up to 5000 characters), handed over as bytes or text. "
    "Expected: same image as without them. A case that needs more than 30 s CPU (ordinary: milliseconds) does not terminate. "
    "Non-trivial: at least one foreign line."
)
ASSUMPTIONS = ["Foreign lines do not start like a record of the format; where records start with a plain hex digit they start with a #, or are blank."]

# What records of a format start with (None: hex digits etc.).
START = {
    "ihex": ":", "srec": "S", "tek": "/", "etek": "%", "sig": ":", "mostec": ";", "fpc": "$",
    "emon52": None, "rca": None, "cosmac": None, "titxt": None, "ash": None,
}  # fmt: skip
ASCII = st.text(st.characters(min_codepoint=0x20, max_codepoint=0x7E), max_size=40)
ANY = st.text(st.one_of(st.characters(exclude_categories=["Cs"], exclude_characters="\n\r"), st.sampled_from("\u00e4\u00d6\u00c5\u00a7\u2026\x85\x0c\x0b\x1c\u2028 AB09")), max_size=20)
PROSE = st.one_of(ASCII, ANY)
LONG = st.tuples(st.sampled_from(["0", "00 ", "A", "0A", "12,", "FF FF", "#", "-", "00:", "@", "\u00e4"]), st.integers(1, 2500)).map(lambda t: (t[0] * t[1])[:5000])


def foreign(codec):
    first = START[codec]

    def ok(line):
        if first is None:
            return line if not line.strip(" \t") else "#" + line
        return "#" + line if line.lstrip()[:1] == first or (codec == "srec" and line[:1] in "sS") else line

    others = st.sampled_from([":0100000041BE", "S10400004 1BA", "S104000041BA", "/000001014105", "%0C6140000041", ";010000410042", "@F000", "q", "$%%%%%", "!M0000 41", "// comment", "", "", "   ", "\t"])
    known = st.one_of(PROSE, LONG, others).map(ok)
    if codec == "ihex":  # well-formed, but of a type that isn't assigned
        unassigned = st.tuples(st.integers(6, 255), st.integers(0, 0xFFFF), st.binary(max_size=20)).map(lambda t: rc.ihex_rec(*t))
        return st.one_of(known, known, known, unassigned)
    return known


@st.composite
def cases(draw, codec):
    bits, maxrow = gen.CODECS[codec]
    blks = draw(gen.blocks(min(bits, 16), 3, max_size=30))
    row = draw(st.integers(1, 16))
    items = [(a + i, d[i : i + row]) for a, d in blks for i in range(0, len(d), row)]
    end = len(items) * (2 if codec in ("titxt", "ash") else 1) + 1
    lines = draw(st.lists(st.tuples(st.integers(0, end), foreign(codec)), max_size=5))
    return blks, items, lines, draw(st.sampled_from(["latin1", "utf-8", "str"])), draw(st.sampled_from(["\n", "\n", "\r\n"]))


def ignored(codec):
    def fn(case, ctx):
        blks, items, lines, encoding, eol = case
        if codec == "ihex":
            text = [rc.ihex_rec(0, a, d) for a, d in items]
        elif codec == "srec":
            text = [rc.srec_rec(2, a, d) for a, d in items]
        elif codec in ("titxt", "ash"):
            first = ["@%04X", "$A%04X,"][codec == "ash"]
            text = []
            for a, d in items:
                text += [first % a, " ".join("%02X" % x for x in d)]
            text.append("q" if codec == "titxt" else "\x03")
        elif codec == "cosmac":
            text = ["!M%04X %s" % (a, d.hex().upper()) for a, d in items]
        else:
            text = [rc.RECORD[codec](a, d) for a, d in items]
        for pos, line in sorted(lines, reverse=True):
            text.insert(pos, line)
        text = eol.join(text)
        back = objutils.loads(codec, text if encoding == "str" else text.encode(encoding, "replace"))
        same(gen.content(back), gen.canonical(blks), f"{codec} file with foreign lines {lines!r}")
        ctx.event("foreign lines", bool(lines))
        ctx.event("not ASCII", any(not x.isascii() for _, x in lines))
        ctx.event("long foreign line", any(len(x) > 500 for _, x in lines))
        ctx.nontrivial(bool(lines))

    return fn


def terminates(case, ctx):
    """Any text is either loaded or refused in bounded time, by every reader."""
    codec, parts, eol = case
    text = eol.join((t * n)[:5000] for t, n in parts)
    try:
        img = objutils.loads(codec, text.encode("utf-8"))
    except Exception:
        ctx.event("refused")
    else:
        # whatever was understood is a proper image
        prev = None
        for a, d in gen.content(img):
            require(prev is None or a >= prev, "{}: sections out of order", codec)
            prev = a
        ctx.event("loaded")
    try:
        objutils.probes(text.encode("utf-8"))
    except Exception as e:
        require(False, "probes() of a text raised {!r}", e)
    ctx.nontrivial(len(text) > 100)


def subs():
    res = [Sub(f"ignored_{c}", cases(c), ignored(c), quick=400, thorough=10000, shards=1) for c in START]
    frag = st.one_of(
        st.sampled_from(["0", "00", "00 ", "00,", "A", "@0000", "$A0000,", "\x02 ", "%", "'", ":", ";", "/", "S1", "S0", "!M", "$", "%%%%%", "$%%%%%\n", "$%*\n", "z", " ", "FF ", "0 "]),
        st.text("0123456789ABCDEFabcdef @$%,';:/S!Mqz\x02\x03\n\u00c5\u20ac", min_size=1, max_size=6),
    )
    res.append(
        Sub(
            "terminates",
            st.tuples(
                st.sampled_from(gen.ROW_CODECS),
                st.lists(st.tuples(frag, st.sampled_from([1, 1, 2, 30, 300, 2000])), min_size=1, max_size=5),
                st.sampled_from(["", "\n", " "]),
            ),
            terminates,
            quick=2500,
            thorough=60000,
            shards=5,
        )
    )
    return res
