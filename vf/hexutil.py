import io
import os
import shutil
import tempfile

import objutils
from objutils import Image, Section

from vf import gen
from vf.core import Violation, same

NO_ROW = {"shf"}


def image(blocks, join=True, meta=None):
    return Image([Section(a, d) for a, d in blocks], join=join, meta=meta)


def dumps(codec, img, row=None, **opts):
    """Output as bytes through the public API."""
    if row is not None and codec not in NO_ROW:
        opts["row_length"] = row
    out = objutils.dumps(codec, img, **opts)
    if not isinstance(out, (bytes, bytearray)):
        raise Violation(f"dumps({codec}) returned {type(out)}")
    return bytes(out)


class Scratch:
    """A scratch directory per case."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vfhex-")
        return self

    def path(self, name):
        return os.path.join(self.dir, name)

    def __exit__(self, *_):
        shutil.rmtree(self.dir, ignore_errors=True)


class KeepOpen(io.BytesIO):
    def close(self):
        self.final = self.getvalue()
        super().close()


def write_via(via, codec, img, row=None, **opts):
    if via == "dumps":
        return dumps(codec, img, row, **opts)
    if row is not None and codec not in NO_ROW:
        opts["row_length"] = row
    if via == "dump-fp":
        fp = KeepOpen()
        objutils.dump(codec, fp, img, **opts)
        return fp.final if fp.closed else fp.getvalue()
    with Scratch() as tmp:
        p = tmp.path("out.hex")
        if via == "dump-over":  # There's a longer file already.
            with open(p, "wb") as f:
                f.write(b"S10412345500:\n" * 20000)
        objutils.dump(codec, p, img, **opts)
        with open(p, "rb") as f:
            return f.read()


def read_via(via, codec, blob):
    if via == "bytes":
        return objutils.loads(codec, blob)
    if via == "bytearray":
        return objutils.loads(codec, bytearray(blob))
    if via == "str":
        return objutils.loads(codec, blob.decode("ascii"))
    if via == "fp":
        return objutils.load(codec, io.BytesIO(blob))
    with Scratch() as tmp:
        p = tmp.path("in.hex")
        with open(p, "wb") as f:
            f.write(blob)
        if via == "open":
            return objutils.load(codec, open(p, "rb"))
        return objutils.load(codec, p)


READ_VIAS = ["bytes", "bytearray", "str", "fp", "path", "open"]
WRITE_VIAS = ["dumps", "dump-fp", "dump-path", "dump-over"]


def expect_content(img, want, what):
    same(gen.content(img), want, what)
    same(len(img), sum(len(d) for _, d in want), what + ": len(image)")
