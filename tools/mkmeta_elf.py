ELF = ["objutils/elf/__init__.py", "objutils/elf/model.py", "objutils/elf/defs.py"]

prop(
    "C14", "An opened ELF file shows exactly what is in the file",
    "For every well-formed ELF file - 32 or 64 bit, either byte order, any layout - header fields, sections with their contents, segments, "
    "symbols with name, section and attributes, notes and comments are reported exactly as stored: nothing lost, nothing invented. The same "
    "holds when the file is opened again, and the file itself is never modified.",
    ["inputs"],
    "all well-formed ELF files x first/repeated opening",
    "The existing suite contains no ELF file at all.",
    ELF + ["objutils/utils/__init__.py"],
    [("header, section, segment, symbol, note and comment parsers", "objutils/elf/__init__.py: ElfParser.load_data and _parse_*"),
     ("storage of parsed items", "objutils/elf/model.py")],
    ["ElfParser(...).sections/symbols/segments/notes/comment, e_* and ei_* attributes"],
    "property-based testing: generated ELF files, comparison with the parts they were made of",
    "the ELF writer in vf/elfgen.py. Names are UTF-8; fewer than 0xff00 sections.",
)

prop(
    "C15", "The memory image of an ELF file is exactly its allocated contents",
    "The image made from an ELF file consists of precisely the non-empty allocated sections with contents, at their addresses, restricted by the include "
    "and exclude patterns, joined or not as requested; progress is reported once per contributing section in address order. The extraction tool "
    "writes a hex file that reads back as that image.",
    ["inputs", "configurations"],
    "all ELF files with disjoint allocated sections x patterns x join x output formats",
    "No test creates an image from an ELF file.",
    ELF + ["objutils/scripts/oj_elf_extract.py"],
    [("create_image", "objutils/elf/__init__.py: ElfParser.create_image"), ("command line tool", "objutils/scripts/oj_elf_extract.py")],
    ["ElfParser.create_image(...), output of oj-elf-extract"],
    "property-based testing: generated ELF files, reference selection and merge",
    "the ELF writer in vf/elfgen.py; overlapping allocated sections are outside the domain.",
)

prop(
    "C16", "Symbol and section queries return exactly the matching items, in order",
    "A query for symbols by section, name pattern, binding, access or type - alone or combined - returns all symbols satisfying every given criterion and no others, "
    "grouped by section and ordered as requested; the same holds for section queries by name or pattern. Attributes of symbols "
    "and sections mean the same whether evaluated on an object or used as a filter.",
    ["inputs", "configurations"],
    "all ELF files x all combinations of query criteria",
    "No test queries symbols.",
    ELF,
    [("SymbolAPI.fetch/get, SectionAPI.fetch/get", "objutils/elf/__init__.py"), ("hybrid attributes, regular expressions", "objutils/elf/model.py")],
    ["ElfParser.symbols.fetch/get, ElfParser.sections.fetch/get"],
    "property-based testing: generated files and queries, reference filter",
    "a list of criteria of one kind is taken as alternatives; patterns match from the start of the name.",
)

prop(
    "C17", "What an ELF file shows never depends on the history of its cache",
    "Opening an ELF file always shows the file's present contents, regardless of what an existing cache holds: an older version of the file, another "
    "file of the same base name, nothing, or the remains of an opening that was interrupted at any point. A failed opening doesn't prevent a later one.",
    ["histories", "crash_points", "fault_sequences"],
    "all histories of writing, opening, interrupted opening (any database statement or commit), damaging files, removing caches",
    "No test opens an ELF file, let alone twice or after a crash.",
    ELF,
    [("hash comparison, commit after complete load", "objutils/elf/__init__.py: ElfParser.create_db_on_demand/load_data"), ("database set-up", "objutils/elf/model.py: Model")],
    ["ElfParser(...) after any history"],
    "stateful testing with crash injection in child processes at every database statement/commit, reference model of file contents",
    "Crashes are process deaths (not power loss); one process at a time; the cache file is not edited by others.",
    state=[("cache", "database next to the ELF file, holding everything parsed plus the file's hash", "<file>.prgdb")],
)

DWARF = ["objutils/dwarf/__init__.py", "objutils/dwarf/encoding.py", "objutils/dwarf/constants.py"]

prop(
    "C18", "Debugging information comes out as the tree that is in the file",
    "For every ELF file with DWARF information (versions 2 to 5), processing it yields every unit and every entry exactly once, at its offset, below its parent and "
    "in order, with its tag and all its attributes in order with their stored values, resolved strings and displayed meanings; references lead to the "
    "entry they name. The same tree is returned and stored in the database, and the result doesn't depend on what was processed before.",
    ["inputs", "histories"],
    "all DIE trees x attribute forms x unit types x address sizes x byte orders; compiled C programs",
    "No test processes DWARF information.",
    DWARF + ["objutils/elf/model.py"],
    [("unit headers, DIE tree, abbreviations", "objutils/dwarf/__init__.py: DwarfProcessor.do_dbg_info/get_abbreviations"),
     ("attribute forms and values", "objutils/dwarf/__init__.py: DwarfReaders/AbbreviationEnumeration, objutils/dwarf/encoding.py"),
     ("storage", "objutils/elf/model.py: DebugInformationEntry, DIEAttribute")],
    ["DwarfProcessor.do_dbg_info(): die_entries, die_map; tables of the database"],
    "property-based testing: generated DIE trees compared with their parts; generated C programs compiled by gcc/clang, differential against readelf",
    "the DWARF writer in vf/dwarfgen.py and readelf; 32-bit DWARF without index forms, .debug_types or undeclared abbreviation codes.",
)

prop(
    "C19", "DWARF expressions are shown operation by operation with their operands",
    "Every DWARF expression is decoded into exactly its operations, in order, each with its operands' values, for both byte orders and address sizes; "
    "data blocks inside an expression are not taken for operations, and operations which push a constant leave precisely its value on the stack. Decoding for one "
    "file never depends on another file that is open.",
    ["inputs", "configurations", "histories"],
    "all sequences of standard and GNU operations x operand values x class/byte order x interleavings of several files",
    "No test decodes an expression.",
    DWARF,
    [("operation tables and operand readers", "objutils/dwarf/__init__.py: DwarfProcessor.dwarf_expression and its operation table")],
    ["DwarfProcessor.dwarf_expression(bytes)"],
    "property-based testing: generated operation lists, independent encoder; every single operation at its operand limits",
    "the expression encoder in vf/dwarfgen.py; operations with ambiguous or undefined codes are left out.",
)

prop(
    "C24", "ARM build attributes are read completely and with their meanings",
    "For every attribute section - any number of vendors and of subsections for file, sections or symbols, either byte order - all attributes are listed "
    "per vendor in order with their values; those of the ABI with name and meaning, unknown ones without disturbing the others.",
    ["inputs"],
    "all attribute sections built of the ABI's tags, unknown tags, all values; directly and from an ELF file",
    "The tests read three fixed sections of one vendor with one subsection.",
    ["objutils/elf/arm/attributes.py", "objutils/elf/__init__.py"],
    [("section parser and tables", "objutils/elf/arm/attributes.py: parse, ATTRIBUTES"), ("access from ELF files", "objutils/elf/__init__.py: ElfParser.arm_attributes")],
    ["attributes.parse(...), ElfParser.arm_attributes"],
    "property-based testing: generated attribute sections compared with their parts; every (tag, listed value) pair",
    "the table of tags in vf/armattrs.json and the encoder in vf/checks/c24.py. One section per file; meanings only for the vendor aeabi.",
)

prop(
    "C25", "The command line tools show exactly what is in the file",
    "For every hex file oj-hex-info lists precisely its sections, total size and, on request, all bytes; oj-elf-info, oj-elf-syms and oj-elf-arm-attrs show "
    "precisely the header, sections, segments, comment, notes, (selected, ordered) symbols and attributes of an ELF file. They end with a non-zero exit "
    "code for files they can't read.",
    ["inputs", "configurations"],
    "all hex files of 13 formats, all ELF files, compiled programs x command line options",
    "No test runs a tool.",
    ["objutils/scripts/oj_hex_info.py", "objutils/scripts/oj_elf_info.py", "objutils/scripts/oj_elf_syms.py", "objutils/scripts/oj_elf_arm_attrs.py"] + ELF,
    [("tools", "objutils/scripts/*.py: main()"), ("names of types and flags", "objutils/elf/defs.py")],
    ["standard output and exit code of the tools"],
    "property-based testing: generated files and options, parsed output compared with the parts; compiled programs, differential against readelf",
    "the writers in vf/elfgen.py, the parsers in vf/checks/c25.py, readelf. Machine descriptions and processor-specific names are not checked.",
)

prop(
    "C26", "An IEEE-695 module is read completely, record by record",
    "For every absolute IEEE-695 module - numbers and strings in any of their legal encodings, optional fields present or not - module information, "
    "sections with all their attributes, public and external symbols, contexts, type names, the nesting of debug blocks and the data bytes are collected "
    "exactly as stated by the records. A file that ends early or contains an unassigned record header is refused.",
    ["inputs"],
    "all modules of absolute sections built of the implemented record types; all cuts of such files",
    "There is no test of this reader at all.",
    ["objutils/ieee695.py"],
    [("record dispatch and handlers", "objutils/ieee695.py: Reader"), ("numbers, strings, optional fields", "objutils/ieee695.py: Reader.readNumber/readString/checkOptional")],
    ["ieee695.Reader(file): info, sections, symbols, externalSymbols, contexts, nnRecords, debugInformation, dbCollection"],
    "property-based testing: generated modules compared with the generator's model; truncation at every kind of place",
    "encoder and model in vf/checks/c26.py. Relocatable sections, relocation records, library blocks and expressions aren't implemented by the package.",
)

prop(
    "C27", "Public names, line headers and the other debug tables are digested completely",
    "For every ELF file with debugging information, all sets of public names are shown with every entry's offset and name, and the (first) line number header "
    "of versions 2 to 5 with its stored values, directories and files. Address ranges, macro information and empty debug sections of any class, byte order and "
    "address size are accepted; calling these functions in any order leaves the tree of entries as it is.",
    ["inputs", "histories"],
    "all .debug_pubnames, .debug_aranges, .debug_line, .debug_macinfo/.debug_macro contents x call orders",
    "No test processes DWARF information.",
    DWARF,
    [("tables", "objutils/dwarf/__init__.py: DwarfProcessor.pubnames/aranges/do_lines/do_mac_info"), ("directories and files", "objutils/dwarf/encoding.py: ArrayOfCStrings, FilenameSequence")],
    ["output of DwarfProcessor.pubnames() and do_lines(); result of do_dbg_info() afterwards"],
    "property-based testing: generated tables, output parsed and compared with the parts",
    "the writer and the output parser in vf/checks/c27.py; 32-bit DWARF; directories and files are shown for version 2 only.",
)

prop(
    "C28", "Which sections lie in which segments is decided exactly",
    "A section belongs to a segment precisely if its file contents lie within the segment's bytes, and its addresses - if it is allocated - within its memory; "
    "thread-local sections belong to TLS, RELRO and LOAD segments only, other ones never to TLS or PHDR, uninitialised thread-local ones occupy nothing outside TLS "
    "segments, and empty ones at the borders of DYNAMIC don't count. The strict variant also requires that the section begins before the segment's end.",
    ["inputs"],
    "all geometries of sections and segments x types x flags; linked programs",
    "No test opens an ELF file.",
    ELF,
    [("geometry", "objutils/elf/__init__.py: ElfParser.section_in_segment1, section_in_segment, section_in_segment_strict, tbss_special, section_size")],
    ["ElfParser.section_in_segment(...), section_in_segment_strict(...)"],
    "property-based testing: generated geometries against interval arithmetic; linked programs, differential against readelf",
    "interval arithmetic in vf/checks/c28.py, readelf's section to segment mapping.",
)

prop(
    "C29", "The helper functions do exactly what they are for",
    "Slicing loses, repeats and reorders nothing and only the last piece is short; numbers survive their conversion to bytes; curried functions pass all arguments "
    "on, however often they are called; fillers consist of the byte asked for; parts of files and mapped views are the file's bytes, a writeable view changes exactly what is written. Enumerated members of "
    "structures read as members of their enumeration, a singleton exists once however many threads ask for it. A logger emits precisely the messages its current "
    "level lets through and remembers the last one once.",
    ["inputs", "histories", "schedules"],
    "all sequences x lengths, numbers, argument lists, files x ranges, structures, racing threads, histories of messages and levels",
    "The tests call cygpath_to_win() on a few paths.",
    ["objutils/utils/__init__.py", "objutils/logger.py", "objutils/section.py"],
    [("helpers", "objutils/utils/__init__.py: slicer, make_list, int_to_array, ffs, Curry, bin_extractor, create_memorymapped_fileview, StructureWithEnums, SingletonBase, "
      "cygpath_to_win, create_string_buffer"), ("logging", "objutils/logger.py: Logger")],
    ["results of the functions; what a Logger writes to stderr"],
    "property-based testing: generated arguments, files, class families, threads and histories against the definitions",
    "the definitions in vf/checks/c29.py.",
)

prop(
    "C30", "Formats of one's own work as described by their record layouts",
    "A reader described by record layouts - fields of any width in any order, fixed characters, separated data, several kinds of records - recognises exactly the "
    "lines of these layouts with exactly the values they carry, lets the hooks refuse or relocate them, and delivers data records as image and others as meta "
    "information. A writer defined by hooks gets every row of the image once, in order, with its address and length and no row longer than requested, between header "
    "and footer, and refuses images beyond its address space and unknown options without touching the destination.",
    ["inputs", "configurations"],
    "all record layouts x images x orders of records x foreign lines; all images x row lengths x hooks x options x destinations",
    "The tests only use the layouts of the formats that come with the package.",
    ["objutils/hexfile.py", "objutils/registry.py", "objutils/__init__.py"],
    [("record layouts", "objutils/hexfile.py: FormatParser"), ("reading", "objutils/hexfile.py: Reader.read"), ("writing", "objutils/hexfile.py: Writer.dumps, dump")],
    ["loads/load/dumps/dump of a registered format of one's own"],
    "property-based testing: generated record layouts and writers, registered and used through the public functions, against the parts",
    "the line composer in vf/checks/c30.py. Layouts are unambiguous, characters special to regular expressions excluded.",
)

prop(
    "C31", "A damaged ELF file is refused, or shown as it is",
    "Whatever the bytes of an ELF file - a changed field, bytes altered, inserted or missing, a cut end - opening it either fails with an error or shows exactly what "
    "these bytes say (header, sections with the contents present, segments, symbols, notes); a file without anything wrong is never refused. The outcome is the same "
    "the next time, the file stays untouched, and an intact file in its place is shown as if nothing had been. A damaged look-up, line or macro table changes neither "
    "the debugging entries nor what the intact tables give.",
    ["inputs", "faults", "histories"],
    "all ELF files x damages of their fields, bytes and length; all debugging information x damages of its look-up tables",
    "No test opens an ELF file.",
    ["objutils/elf/__init__.py", "objutils/elf/model.py", "objutils/elf/defs.py", "objutils/dwarf/__init__.py"],
    [("parsing", "objutils/elf/__init__.py: ElfParser.create_db_on_demand, load_data, _parse_section_headers, _parse_program_headers, _parse_symbol_section, get_string"),
     ("tables", "objutils/dwarf/__init__.py: DwarfProcessor.pubnames, aranges, do_lines, do_mac_info, do_dbg_info")],
    ["what ElfParser reports after the damage, or the error it raises"],
    "property-based testing: fault injection into generated files; differential against an independent tolerant reading of the damaged bytes",
    "the reader in vf/elfref.py.",
)
