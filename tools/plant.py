"""Plant a bug: write /verif/seeded/<id>/ from a specification and confirm it in a scratch copy of /repo.

A specification file is Python: ID, PROPERTY, EDITS = [(file, old, new), ...], NEEDS, BREAKS, DEMO (source of demo.py).
    python3 tools/plant.py SPEC...            write and confirm
    python3 tools/plant.py --confirm ID...    confirm again (after /repo has changed)
    python3 tools/plant.py --check ID...      additionally run the property's quick check against the scratch copy
"""
import json
import os
import re
import shutil
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
BASE = "965d368"
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\n# exit 0: the property holds here; nonzero: it is broken.\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def run(cmd, cwd, **kws):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kws)


def scratch(name):
    dst = Path(f"/tmp/plant_{name}")
    if dst.exists():
        shutil.rmtree(dst)
    subprocess.run(["cp", "-a", "/repo", str(dst)], check=True)
    return dst


def tests(repo):
    r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x", "--deselect",
             "objutils/tests/test_fpc.py::TestRoundTrip::testFromFPC", "objutils/tests"], repo, env=dict(os.environ, PYTHONPATH=str(repo)))
    return r.returncode == 0, ("\n".join(l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR", "E  ")))[-600:] + r.stderr[-300:])


def demo(repo, folder):
    r = run(["bash", str(folder / "demo.sh")], repo, timeout=300)
    return r.returncode, (r.stdout[-600:] + r.stderr[-900:])


def write(spec):
    ns = {}
    exec(compile(Path(spec).read_text(), spec, "exec"), ns)
    ident = ns["ID"]
    repo = scratch(ident)
    try:
        for file, old, new in ns["EDITS"]:
            p = repo / file
            text = p.read_text()
            assert text.count(old) == 1, f"{ident}: {file}: {old!r} found {text.count(old)} times"
            p.write_text(text.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        assert diff
        folder = SEEDED / ident
        folder.mkdir(parents=True, exist_ok=True)
        (folder / "patch.diff").write_text(diff)
        (folder / "demo.sh").write_text(DEMO_SH)
        (folder / "demo.py").write_text(ns["DEMO"].lstrip("\n"))
        (folder / "meta.json").write_text(json.dumps(
            {"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=2) + "\n")
    finally:
        shutil.rmtree(repo)
    return ident


def confirm(ident, check):
    folder = SEEDED / ident
    meta = json.loads((folder / "meta.json").read_text())
    repo = scratch(ident)
    ok = True
    try:
        rc, out = demo(repo, folder)
        if rc:
            ok = False
            print(f"{ident}: demo fails on the unchanged tree\n{out}")
        r = run(["git", "apply", str(folder / "patch.diff")], repo)
        if r.returncode:
            print(f"{ident}: patch doesn't apply\n{r.stderr}")
            return False
        # changed lines must be the original repository's.
        base_lines = 0
        for file in run(["git", "diff", "--name-only"], repo).stdout.split():
            hunks = run(["git", "diff", "-U0", "--", file], repo).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunks, re.M):
                start, n = int(m[1]), int(m[2] or 1)
                if n:
                    blame = run(["git", "blame", "-s", "-L", f"{start},{start + n - 1}", "HEAD", "--", file], repo).stdout
                    base_lines += sum(1 for b in blame.splitlines() if b.startswith("^"))
        if not base_lines:
            ok = False
            print(f"{ident}: changes no original line")
        good, out = tests(repo)
        if not good:
            ok = False
            print(f"{ident}: the test suite notices\n{out}")
        rc, out = demo(repo, folder)
        if not rc:
            ok = False
            print(f"{ident}: demo doesn't notice\n{out}")
        elif "Assertion" not in out:
            print(f"{ident}: demo fails with\n{out}")
        line = f"{ident}: {'confirmed' if ok else 'NOT CONFIRMED'}"
        if check:
            env = dict(os.environ, VERIF_REPO=str(repo), VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            r = run(["./check", meta["property"]], VERIF, env=env)
            hit = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            line += f"; check {meta['property']} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and hit else 'MISSED'}"
            if r.returncode not in (0, 1):
                line += r.stdout[-500:] + r.stderr[-500:]
        print(line, flush=True)
    finally:
        shutil.rmtree(repo)
    return ok


if __name__ == "__main__":
    args = sys.argv[1:]
    check = "--check" in args
    by_id = check or "--confirm" in args
    args = [a for a in args if not a.startswith("--")]
    if by_id:
        idents = args or sorted(p.name for p in SEEDED.iterdir())
    else:
        idents = [write(a) for a in args]
        check = True
    bad = [i for i in idents if not confirm(i, check)]
    sys.exit(1 if bad else 0)
