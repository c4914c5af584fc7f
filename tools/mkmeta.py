#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ALL_CODECS = [
    "objutils/hexfile.py", "objutils/ihex.py", "objutils/srec.py", "objutils/tek.py", "objutils/etek.py", "objutils/sig.py",
    "objutils/mostec.py", "objutils/emon52.py", "objutils/rca.py", "objutils/cosmac.py", "objutils/titxt.py", "objutils/ash.py",
    "objutils/fpc.py", "objutils/shf.py",
]  # fmt: skip

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, state=state))  # fmt: skip


EXPL = "Random exploration with shrinking; no exhaustiveness beyond what the technique field says. Trusted: hypothesis, CPython, "

prop(
    "C01", "Whatever is written in a hex format can be read back unchanged",
    "For every supported file format, writing an image and loading the result gives an image with exactly the same bytes at exactly the "
    "same addresses, for every image within the format's address space and every row length the format can express. This holds no matter "
    "whether text, bytes, an open file or a file path is used on either side, and no matter in which order or how finely the image was "
    "cut into sections.",
    ["inputs", "configurations"],
    "all images (any number of non-overlapping, non-empty sections, any addresses) x 14 formats x row lengths x I/O routes",
    "The tests compare a handful of fixed images at low addresses with one row length; carries into upper address bits, 64K borders, "
    "ragged rows and gaps only show for particular addresses and lengths.",
    ALL_CODECS + ["objutils/__init__.py", "objutils/image.py", "objutils/section.py"],
    [("Writer row splitting and record composition", "objutils/hexfile.py: Writer.dumps/compose_row"),
     ("Reader record parsing and joining", "objutils/hexfile.py: Reader.read/load/loads"),
     ("per-format compose_row/check_line/special_processing", "objutils/<format>.py")],
    ["objutils.loads(codec, objutils.dumps(codec, image))"],
    "property-based testing: generated images, round trip through every codec and I/O route",
    "the harness' address/byte map of an image.",
)

prop(
    "C02", "Written files conform to their format",
    "Every file the package writes is well-formed according to the published format: framing, byte counts, addresses, checksums, record "
    "order and end records are right, no record carries more data bytes than the requested row length, and an independent decoder gets "
    "exactly the image that was written. Records do not overlap.",
    ["inputs", "configurations"],
    "all images x formats x row lengths",
    "The tests compare against a few golden files; a checksum or count that is wrong only for particular values, or an error mirrored "
    "by reader and writer, is not visible to them.",
    ALL_CODECS,
    [("compose_row/compose_header/compose_footer", "objutils/<format>.py"), ("lrc/nibble checksums", "objutils/checksums.py")],
    ["output of objutils.dumps(codec, image, row_length=n)"],
    "property-based testing: differential against independently written strict decoders",
    "the strict decoders in vf/refcodecs.py (written from the format descriptions, share no code with the package).",
)

prop(
    "C03", "Readers deliver exactly what a conforming file says",
    "Loading a conforming file yields precisely the bytes its records describe, at the addresses they describe, regardless of record "
    "lengths, record order, letter case of hex digits, line ends, a missing final newline or the encoding variant chosen by the "
    "producer (segment or linear addressing, mixed record widths, optional header, count and start records, continuation lines).",
    ["inputs"],
    "all conforming files a foreign producer may emit for any image",
    "The tests read files of one style each, nearly all with contiguous records in ascending order.",
    ALL_CODECS,
    [("Reader.FORMAT_SPEC pattern compilation and matching", "objutils/hexfile.py: FormatParser, Reader.read"),
     ("address state across records", "objutils/ihex.py, objutils/cosmac.py, objutils/titxt.py, objutils/ash.py")],
    ["objutils.loads(codec, file)"],
    "property-based testing: differential against independent encoders with format variants",
    "the encoders in vf/refcodecs.py.",
)

prop(
    "C04", "A corrupted record is reported, never delivered as data",
    "If one digit of a record's count, address, data or checksum field (as far as the format's own check covers it) is replaced by another "
    "one, or a record's count disagrees with its data although all checksums are right, loading the file reports a checksum or length error, whichever record of the file - end records without data aside - it was. In the block-structured format the damaged "
    "block is left out and all others are delivered. A record cut short never changes any loaded byte: it is reported or left out.",
    ["inputs", "fault_sequences"],
    "all files of the checked formats (ihex, srec, tek, etek, sig, mostec, emon52, fpc, shf) x every single-digit corruption or truncation of a record",
    "The tests corrupt two or three records by hand; weak checks (ignored low bits, unchecked fields) show only for particular digits.",
    ["objutils/hexfile.py", "objutils/ihex.py", "objutils/srec.py", "objutils/tek.py", "objutils/etek.py", "objutils/sig.py",
     "objutils/mostec.py", "objutils/emon52.py", "objutils/fpc.py", "objutils/shf.py", "objutils/checksums.py"],
    [("check_line: length and checksum comparison", "objutils/<format>.py")],
    ["exceptions raised by objutils.loads"],
    "property-based testing: fault injection into generated files",
    "the list of characters each format's check covers (vf/checks/c04.py: LAYOUT).",
)

prop(
    "C05", "Images outside a format's address space are refused, all others are written",
    "Saving an image succeeds exactly when its last byte lies within the address space of the chosen format (or of the requested record "
    "type); otherwise an address range error is raised. A refused save neither creates a damaged file nor touches an existing one.",
    ["inputs", "configurations"],
    "all images with addresses around and beyond 16/20/24/32 bit limits x formats x S-record types",
    "The tests exercise one far-out address for some formats, never the limits themselves.",
    ALL_CODECS,
    [("address range check before composing", "objutils/hexfile.py: Writer.dumps/pre_processing"), ("record width selection", "objutils/srec.py")],
    ["objutils.dumps/dump and the target file's content"],
    "property-based testing: boundary-biased generation, exact accept/refuse oracle",
    "the table of address widths in vf/gen.py.",
)

prop(
    "C06", "Writer options mean what they say",
    "S-record options (record type, count record, start address, header records) appear in the file exactly as requested and are readable "
    "as meta data; without a requested type the narrowest sufficient one is used; the separator of ash and titxt files is the requested "
    "one. Options a record format doesn't have are refused instead of ignored.",
    ["inputs", "configurations"],
    "all combinations of writer options x images x row lengths",
    "Hardly any test passes an option; interactions (count record width, start record type, header padding) are combinatorial.",
    ["objutils/srec.py", "objutils/ash.py", "objutils/titxt.py", "objutils/hexfile.py"],
    [("set_parameters", "objutils/hexfile.py: Writer.set_parameters"), ("S0/S5/S7-S9 composition", "objutils/srec.py: Writer.compose_header/compose_footer")],
    ["output of objutils.dumps(codec, image, **options)"],
    "property-based testing: generated options, independent record parser",
    "the S-record parser in vf/refcodecs.py.",
)

prop(
    "C07", "An image behaves like a sparse memory under any history of operations",
    "After any sequence of insertions, typed writes, joins and failed operations, an image holds exactly the bytes a byte-addressed sparse "
    "memory would hold; sections stay sorted and disjoint. Reads and writes that leave a section, and insertions that overlap one (where "
    "joining is not to replace anything), are refused and change nothing.",
    ["histories"],
    "all histories of insert/write/read/join/look-up operations on all initial images",
    "The tests insert a few sections by hand; overlap classes (enclosing, touching, straddling), automatic addresses and failed operations "
    "in between multiply.",
    ["objutils/image.py", "objutils/section.py"],
    [("Image.insert_section/join_sections/get_section/_call_address_function", "objutils/image.py"), ("join_sections", "objutils/section.py")],
    ["Image iteration, len, in, get_section, read*/write*"],
    "stateful model-based testing against a list-of-blocks reference model",
    "the reference model in vf/checks/c07.py and vf/typed.py (struct based).",
    state=[("sections", "sorted list of disjoint sections", "objutils/image.py: Image._sections")],
)

prop(
    "C08", "Typed access to section data is exact, bounded and all-or-nothing",
    "Reading and writing numbers, arrays, strings and multi-dimensional arrays at an address has exactly the effect the declared type and "
    "byte order prescribe, on exactly the addressed bytes; reading returns what was written. An access that doesn't fit into the section, "
    "or a value that doesn't fit the type, is refused and leaves every byte unchanged.",
    ["histories", "inputs"],
    "all types x byte orders x addresses (in and out of bounds) x values x bit masks, in any sequence",
    "The tests use fixed addresses well inside a section and small values.",
    ["objutils/section.py"],
    [("read_/write_ numeric, array, string, ndarray", "objutils/section.py: Section"), ("find", "objutils/section.py: Section.find")],
    ["Section.read*/write*, Section.data"],
    "stateful model-based testing against struct",
    "python's struct module; reading an array in column-major order is modelled as implemented (transposed view).",
)

prop(
    "C09", "Building an image from sections is canonical and leaves its inputs alone",
    "The image built from a set of non-overlapping sections doesn't depend on their order or container; joined sections are exactly the "
    "maximal runs of adjacent bytes. Neither building nor joining changes the sections handed over, and writing to one image or section "
    "never changes an unrelated one.",
    ["inputs", "histories"],
    "all sets of sections, orders, containers, join flags, followed by writes",
    "The tests never write after joining and only use one order.",
    ["objutils/section.py", "objutils/image.py"],
    [("join_sections", "objutils/section.py"), ("Section converters/defaults", "objutils/section.py: Section.__init__"), ("Image.__init__", "objutils/image.py")],
    ["Image iteration, Section.data"],
    "property-based testing: permutation/metamorphic relations and aliasing probes",
    "the reference merge in vf/gen.py: canonical.",
)

prop(
    "C10", "Checksums and CRCs match their definitions",
    "Every offered checksum and CRC gives, for every byte string, the value its definition (polynomial, initial value, reflection, final "
    "complement; sum, complement, rotation) prescribes. CRCs distinguish any two frames that differ in one bit or one burst no longer than the CRC.",
    ["inputs"],
    "all byte strings x all algorithms",
    "The tests use one check string per algorithm; a damaged table entry goes unnoticed unless that entry is used.",
    ["objutils/checksums.py"],
    [("lookup tables and loops", "objutils/checksums.py")],
    ["objutils.checksums functions"],
    "property-based testing plus exhaustive enumeration of one- and two-byte frames: differential against bit-serial definitions",
    "bit-serial reference in vf/checks/c10.py; CRCs are exhausted for frames of up to two bytes (covers every table entry).",
)

prop(
    "C11", "Variable-length and fixed-size integer decoding is exact",
    "Any integer encoded as (padded or minimal) LEB128, or as fixed-size integer of either byte order, any length-prefixed block and any NUL terminated string is "
    "decoded to the same value, consuming exactly its own bytes, so that arbitrary sequences of items can be decoded one after another. "
    "Truncated items are never decoded to a value.",
    ["inputs"],
    "all integers, encodings and sequences",
    "The tests cover the specification's examples, none with negative short numbers or sequences.",
    ["objutils/dwarf/encoding.py", "objutils/readers.py"],
    [("ULEB128/SLEB128 adapters", "objutils/dwarf/encoding.py"), ("PlainBinaryReader.uleb/sleb/u8..u64", "objutils/readers.py")],
    ["PlainBinaryReader methods, construct adapters' parse/build"],
    "property-based testing: differential against independent encoders, exhaustive up to two bytes",
    "the encoders in vf/checks/c11.py.",
)

prop(
    "C12", "A binary diff is a complete, minimal and reversible account of the change",
    "For any two byte strings the diff lists exactly the maximal runs of differing positions, in order, plus what one string has beyond "
    "the other; applying it forward and backward yields the other string. Equal inputs give an empty diff.",
    ["inputs"],
    "all pairs of byte strings",
    "The tests check a few pairs; runs touching either end and unequal lengths interact.",
    ["objutils/utils/diff.py"],
    [("diff_bin", "objutils/utils/diff.py")],
    ["diff_bin(a, b)"],
    "property-based testing: positionwise reference and patching both ways",
    "the reference in vf/checks/c12.py.",
)

prop(
    "C13", "A hexdump shows exactly the bytes that are there",
    "Reading a hexdump back - addresses, hex columns, text columns, elided repetitions and byte totals - gives precisely the data of the "
    "section or image that was dumped. Rows are elided only if they repeat the row before.",
    ["inputs"],
    "all sections/images",
    "The tests compare a few literal dumps.",
    ["objutils/hexdump.py", "objutils/image.py", "objutils/section.py"],
    [("Dumper.dump_row/dump", "objutils/hexdump.py")],
    ["text written by hexdump()"],
    "property-based testing: independent parser reads the dump back",
    "the parser in vf/checks/c13.py.",
)

prop(
    "C20", "Format probing recognises what the package writes; codec registry is exact",
    "Probing any file the package writes in a text format names that format, whether it is handed over as text, bytes or open file; binary "
    "rubbish is recognised as no format at all. A codec can be looked up exactly if it was registered, once, under that name.",
    ["inputs", "histories"],
    "all images x text formats x row lengths; all registration histories",
    "No test probes at all beyond a few cases; formats resemble each other only for particular contents.",
    ["objutils/__init__.py", "objutils/registry.py", "objutils/hexfile.py"],
    [("probe/probes", "objutils/__init__.py, objutils/hexfile.py: Reader.probe"), ("Registry", "objutils/registry.py")],
    ["objutils.probe/probes, registry.get/register"],
    "property-based testing; stateful testing of the registry against a dict",
    "shf, bin and binzip offer no probing and are excluded.",
)

prop(
    "C21", "Plain binary output: gaps filled, everything at its offset",
    "A binary file written from an image has, at offset a-base, the byte the image has at address a, and the filler everywhere else; its "
    "length is the image's extent. Loading a binary file gives its bytes at the requested address.",
    ["inputs", "configurations"],
    "all images x fillers x base addresses x I/O routes",
    "Two tests with one gap each.",
    ["objutils/binfile.py"],
    [("Writer.dumps gap filling", "objutils/binfile.py"), ("Reader.load", "objutils/binfile.py")],
    ["objutils.dumps('bin', ...), objutils.load('bin', ...)"],
    "property-based testing: byte array painted by address as oracle",
    "the painted array in vf/checks/c21.py.",
)

prop(
    "C22", "Saving leaves the image alone and no call influences a later one",
    "Saving or dumping never changes an image. The result of a load or save depends on its own arguments only: repeating it after any other "
    "calls - with other options, other formats, or failing half-way - gives the identical result.",
    ["histories"],
    "all histories of loads and saves over all formats, including failing ones",
    "Tests use every writer once per process; leftovers of a previous call are invisible to them.",
    ["objutils/hexfile.py", "objutils/srec.py", "objutils/ihex.py", "objutils/__init__.py", "objutils/registry.py"],
    [("fresh reader/writer per call", "objutils/registry.py, objutils/__init__.py"), ("mutable codec state", "objutils/srec.py, objutils/ihex.py")],
    ["objutils.loads/dumps"],
    "stateful testing: histories of calls with purity and repeatability oracle",
    "Codec instances held by the caller and reused are outside the domain.",
)

prop(
    "C23", "Foreign lines are ignored, and reading terminates",
    "Lines in a hex file that aren't records of its format - comments, blank lines, prose, other formats' records, however long or "
    "repetitive - have no influence on the loaded image. Reading and probing take bounded time on any text.",
    ["inputs"],
    "all interleavings of records with foreign lines; all texts",
    "The tests contain one file with blank lines; pathological lines need to be searched.",
    ALL_CODECS,
    [("line patterns", "objutils/hexfile.py: FormatParser"), ("ash/titxt line patterns", "objutils/ash.py, objutils/titxt.py")],
    ["objutils.loads/probes"],
    "property-based testing: metamorphic (with/without foreign lines), CPU-time watchdog",
    "30 s of CPU time per case counts as non-termination (normal: milliseconds).",
)

NOT_APPLICABLE = []

exec(open(os.path.join(HERE, "tools", "mkmeta_elf.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "mkmeta_elf.py")) else None


def main():
    P.sort(key=lambda p: p["pid"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a,
            }) + "\n")  # fmt: skip
    m = {
        "version": 1,
        "setup_cmd": "python3-vt -c 'import hypothesis'",
        "checks": [
            {"property": p["pid"], "quick_cmd": f"./check {p['pid']} --tier quick", "thorough_cmd": f"./check {p['pid']} --tier thorough",
             "evidence_file": f"evidence/{p['pid']}.json", "technique": p["technique"], "level": "exploration",
             "level_note": EXPL + p["note"]}
            for p in P
        ],
        "not_applicable": NOT_APPLICABLE,
    }  # fmt: skip
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
