"""C22: saving doesn't change the image, and every call is independent of what happened before."""

from hypothesis import strategies as st

import objutils
from objutils.hexfile import AddressRangeToLargeError

from vf import gen
from vf import refcodecs as rc
from vf.core import Sub, Violation, require, same
from vf.hexutil import dumps, image

PROPERTY = "C22"
RULE = (
    "Case = two or three images and a history of loads/dumps calls over all codecs, with options, failing calls (image too large, "
    "unknown option, corrupt or garbage file), writes to the images and to loaded ones interleaved. After every call: the image is unchanged, an identical earlier call gave "
    "identical output, the output means the image (independent decoder), S-record type and count record depend on this call's "
    "options only. Non-trivial: a call repeated after another call in between, or following a failed one."
)
ASSUMPTIONS = ["Calls go through the module level functions (a codec instance is not reused by the caller)."]

OPS = st.one_of(
    st.tuples(st.just("dump"), st.sampled_from(gen.TEXT_CODECS + ["bin"]), st.integers(0, 2), st.sampled_from([None, 1, 7, 16, 32])),
    st.tuples(
        st.just("srec"),
        st.integers(0, 2),
        st.sampled_from([{}, {"record_type": 3}, {"s5record": True}, {"start_address": 0x12}, {"record_type": 2, "s5record": True, "start_address": 0}]),
    ),
    st.tuples(st.just("sep"), st.sampled_from(["ash", "titxt"]), st.integers(0, 2), st.sampled_from([",", " "])),
    st.tuples(st.just("garbage"), st.sampled_from(gen.TEXT_CODECS), st.integers(0, 2), st.integers(0, 400)),
    st.tuples(st.just("write"), st.integers(0, 2), st.integers(0, 60), st.integers(0, 255)),
    st.tuples(st.just("badopt"), st.sampled_from(gen.ROW_CODECS), st.integers(0, 2)),
    st.tuples(st.just("toolarge"), st.sampled_from(gen.ROW_CODECS)),
)


def history(case, ctx):
    imgs_raw, ops = case
    imgs = [image(b) for b in imgs_raw]
    want = [gen.canonical(b) for b in imgs_raw]
    seen = {}
    failed = False
    for i, op in enumerate(ops):
        what = f"step {i}: {op!r}"
        kind = op[0]
        out = None
        if kind in ("dump", "srec", "sep"):
            k = op[2] if kind != "srec" else op[1]
            k %= len(imgs)
            if kind == "dump":
                codec, opts, row = op[1], {}, op[3]
                if codec == "bin":
                    if want[k][-1][0] - want[k][0][0] > 1 << 16:
                        continue
                    row = None
                    opts = {"filler": 0xA5}
            elif kind == "srec":
                codec, opts, row = "srec", dict(op[2]), None
            else:
                codec, opts, row = op[1], {"separator": op[3]}, None
            out = dumps(codec, imgs[k], row, **opts)
            key = (codec, k, row, tuple(sorted(opts.items())))
            if key in seen:
                same(out, seen[key][1], f"{what}: differs from the same call at step {seen[key][0]}")
                ctx.nontrivial(seen[key][0] < i - 1 or failed)
            else:
                seen[key] = (i, out)
            if failed:
                ctx.nontrivial()
            if codec == "bin":
                base, end = want[k][0][0], want[k][-1][0] + len(want[k][-1][1])
                painted = bytearray(b"\xa5" * (end - base))
                for a, d in want[k]:
                    painted[a - base : a - base + len(d)] = d
                same(out, bytes(painted), what)
            else:
                try:
                    if codec == "titxt":
                        recs = rc.dec_titxt(out.replace(b",", b" "))
                        require(opts.get("separator", " ") == "," or b"," not in out, "{}: separator", what)
                    elif codec == "ash":
                        recs = rc.dec_ash(out, opts.get("separator", " "))
                    else:
                        recs = rc.DECODE[codec](out)
                except (rc.FormatError, ValueError) as e:
                    raise Violation(f"{what}: {e}: {out[:200]!r}") from e
                same(gen.canonical(recs), want[k], f"{what}: content")
                if codec == "srec":
                    parsed = [rc.srec_parse(ln) for ln in out.decode().split("\n") if ln]
                    high = max(a + len(d) - 1 for a, d in want[k])
                    typ = opts.get("record_type", 1 if high < 1 << 16 else 2 if high < 1 << 24 else 3)
                    same(
                        (
                            {p[0] for p in parsed if p[0] in (1, 2, 3)},
                            [p[1] for p in parsed if p[0] == 5],
                            [p[1] for p in parsed if p[0] in (7, 8, 9)],
                        ),
                        (
                            {typ},
                            [len(recs)] if opts.get("s5record") else [],
                            [opts["start_address"]] if "start_address" in opts else [],
                        ),
                        f"{what}: record types, count record, start record",
                    )
                for turn in ("read back", "read back again, after overwriting the image read first"):
                    loaded = objutils.loads(codec, out)
                    same(gen.content(loaded), want[k], f"{what}: {turn}")
                    for sec in list(loaded.sections):
                        sec.write(sec.start_address, bytes(b ^ 0xFF for b in sec.data))
                    loaded.insert_section(b"xyz", 1 << 40)
                    if loaded.meta is not None:
                        loaded.meta["vf"] = 1
        elif kind == "garbage":
            _, codec, k, pos = op
            blob = bytearray(dumps(codec, imgs[k % len(imgs)]))
            p = pos % len(blob)
            blob[p] = ord("0") if blob[p] != ord("0") else ord("7")
            try:
                objutils.loads(codec, bytes(blob))
            except Exception:
                failed = True
                ctx.event("failed load")
        elif kind == "write":
            k = op[1] % len(imgs)
            a, d = want[k][op[2] % len(want[k])]
            p = op[2] % len(d)
            imgs[k].write(a + p, bytes([op[3]]))
            want[k] = [(x, y[:p] + bytes([op[3]]) + y[p + 1 :]) if x == a else (x, y) for x, y in want[k]]
            seen = {key: v for key, v in seen.items() if key[1] != k}
            ctx.event("image modified between saves")
        elif kind == "badopt":
            try:
                dumps(op[1], imgs[op[2] % len(imgs)], None, nonsense=1)
            except AttributeError:
                failed = True
            else:
                raise Violation(f"{what}: unknown option accepted")
        else:
            try:
                dumps(op[1], image([((1 << 65) + 5, b"abc")]))
            except AddressRangeToLargeError:
                failed = True
                ctx.event("failed dump")
            else:
                raise Violation(f"{what}: image beyond 32 bits written")
        for im, w in zip(imgs, want):
            same(gen.content(im), w, f"{what}: image afterwards")
            same(dict(im.meta), {}, f"{what}: meta data afterwards")


def subs():
    imgs = st.lists(gen.blocks(16, 3, max_size=40), min_size=1, max_size=3)
    return [Sub("history", st.tuples(imgs, st.lists(OPS, min_size=2, max_size=14)), history, quick=4000, thorough=120000, shards=8)]
