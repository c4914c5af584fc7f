"""What any sequence of bytes says as an ELF file - an independent, tolerant reading. Deviations from the rules are noted in `problems`."""

import struct

from vf.elfgen import SPECIAL, Want

NULL, NOBITS, NOTE, SYMTAB, DYNSYM = 0, 8, 7, 2, 11
RESERVED = {**SPECIAL, 0xFFFF: "SHN_XINDEX"}
HEADER = ("e_type", "e_machine", "e_version", "e_entry", "e_phoff", "e_shoff", "e_flags", "e_ehsize", "e_phentsize", "e_phnum", "e_shentsize", "e_shnum", "e_shstrndx")
SECTION = ("sh_name", "sh_type", "sh_flags", "sh_addr", "sh_offset", "sh_size", "sh_link", "sh_info", "sh_addralign", "sh_entsize")
SEGMENT32 = ("p_type", "p_offset", "p_vaddr", "p_paddr", "p_filesz", "p_memsz", "p_flags", "p_align")
SEGMENT64 = ("p_type", "p_flags", "p_offset", "p_vaddr", "p_paddr", "p_filesz", "p_memsz", "p_align")


def layouts(b64, le):
    e, a = ("<" if le else ">"), ("Q" if b64 else "I")
    return {
        "header": (e + "HHI" + a * 3 + "IHHHHHH", HEADER),
        "section": (e + "II" + a * 4 + "II" + a * 2, SECTION),
        "segment": (e + "IIQQQQQQ", SEGMENT64) if b64 else (e + "IIIIIIII", SEGMENT32),
        "symbol": (e + "IBBHQQ", ("st_name", "info", "st_other", "st_shndx", "st_value", "st_size"))
        if b64
        else (e + "IIIBBH", ("st_name", "st_value", "st_size", "info", "st_other", "st_shndx")),
    }


def field_at(kind, b64, le, base, name):
    """-> offset, format of a field of the entry at base."""
    fmt, names = layouts(b64, le)[kind]
    i = names.index(name)
    return base + struct.calcsize(fmt[0] + fmt[1 : 1 + i]), fmt[0] + fmt[1 + i]


class Unreadable(Exception):
    pass


def entry(layout, blob, at):
    fmt, names = layout
    if at + struct.calcsize(fmt) > len(blob):
        raise Unreadable(f"entry at {at} lies beyond the end of the file")
    return dict(zip(names, struct.unpack_from(fmt, blob, at)))


def text(blob, at, w):
    if not blob or at >= len(blob):
        w.problems.append("name outside of the string table") if at else None
        return ""
    end = blob.find(b"\0", at)
    if end < 0:
        raise Unreadable("string isn't terminated")
    try:
        return blob[at:end].decode("utf8")
    except UnicodeDecodeError:
        raise Unreadable("not UTF-8") from None


def read(blob):
    """-> Want, or raises Unreadable if there's no sensible reading."""
    w = Want()
    w.problems = []
    w.blob = blob
    if blob[:4] != b"\x7fELF" or len(blob) < 16:
        raise Unreadable("no ELF file")
    w.ident = blob[:16]
    cls, data, version, osabi, abiversion = blob[4:9]
    if data not in (1, 2):
        raise Unreadable("byte order")
    w.b64, w.le = cls == 2, data == 1
    if cls not in (1, 2):
        w.problems.append("class")
    if any(blob[9:16]):
        w.problems.append("padding")
    lay = layouts(w.b64, w.le)
    head = entry(lay["header"], blob, 16)
    w.header = dict(ei_class=cls, ei_data=data, ei_version=version, ei_osabi=osabi, ei_abiversion=abiversion, **head)
    shent, phent = struct.calcsize(lay["section"][0]), struct.calcsize(lay["segment"][0])
    if head["e_shnum"] and head["e_shentsize"] != shent or head["e_phnum"] and head["e_phentsize"] != phent:
        w.problems.append("size of table entries")
    raw = [entry(lay["section"], blob, head["e_shoff"] + i * shent) for i in range(head["e_shnum"])]
    w.segments = [entry(lay["segment"], blob, head["e_phoff"] + i * phent) for i in range(head["e_phnum"])]
    for s in raw:
        s["section_image"] = None
        if s["sh_type"] not in (NULL, NOBITS) and s["sh_size"]:
            s["section_image"] = blob[s["sh_offset"] : s["sh_offset"] + s["sh_size"]]
            if len(s["section_image"]) < s["sh_size"]:
                w.problems.append("contents beyond the end of the file")
    if raw and head["e_shstrndx"] >= len(raw):
        raise Unreadable("no table of section names")
    w.sections, w.symbols, w.notes, comments = [], [], [], []
    for i, s in enumerate(raw):
        name = text(raw[head["e_shstrndx"]]["section_image"], s["sh_name"], w)
        w.sections.append(dict(index=i, section_name=name, **s))
        if s["sh_type"] == NOTE:
            notes(s["section_image"] or b"", name, w, 8 if s["sh_addralign"] == 8 else 4)
        elif name == ".comment" and s["sh_type"] not in (SYMTAB, DYNSYM):
            comments.append(s["section_image"] or b"")
    for s in raw:
        if s["sh_type"] in (SYMTAB, DYNSYM):
            symbols(s, raw, lay["symbol"], w)
    w.comment = None
    if len(comments) > 1:
        w.comment = "?"
    elif comments and comments[0]:
        body = comments[0]
        if b"\0" in body and not body.endswith(b"\0"):
            raise Unreadable("comment isn't terminated")
        try:
            w.comment = "\n".join(t.decode("utf8") for t in body.split(b"\0") if t) or None
        except UnicodeDecodeError:
            raise Unreadable("not UTF-8") from None
    return w


def notes(body, name, w, unit):
    e = "<" if w.le else ">"
    at = 0
    while at < len(body):
        if len(body) - at < 12:
            return w.problems.append("note")
        nsz, dsz, ty = struct.unpack_from(e + "III", body, at)
        n0, d0 = at + 12, at + 12 + nsz + -(12 + nsz) % unit
        if d0 + dsz > len(body):
            return w.problems.append("note")
        try:
            w.notes.append((name, ty, body[n0 : n0 + nsz].partition(b"\0")[0].decode("utf8"), body[d0 : d0 + dsz].hex()))
        except UnicodeDecodeError:
            raise Unreadable("not UTF-8") from None
        at = d0 + dsz
        at += -at % unit


def symbols(s, raw, layout, w):
    body = s["section_image"] or b""
    size = struct.calcsize(layout[0])
    if len(body) % size:
        w.problems.append("part of a symbol")
    for at in range(0, len(body) - size + 1, size):
        sym = entry(layout, body, at)
        info = sym.pop("info")
        if s["sh_link"] >= len(raw):
            raise Unreadable("no table of symbol names")
        nd = sym["st_shndx"]
        names = raw[s["sh_link"]]["section_image"] or b""
        if sym["st_name"] < len(names) and b"\0" not in names[sym["st_name"] :]:
            w.problems.append("symbol without a name")  # left out
            continue
        sym.update(st_bind=info >> 4, st_type=info & 15, symbol_name=text(names, sym["st_name"], w))
        if nd in RESERVED:
            sym.update(section_name=RESERVED[nd], access=0)
        elif nd < len(raw):
            sym.update(section_name=w.sections[nd]["section_name"], access=raw[nd]["sh_flags"])
        else:
            w.problems.append("section of a symbol")
            sym.update(section_name=str(nd), access=0)
        w.symbols.append(sym)
