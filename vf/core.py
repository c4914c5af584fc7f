"""Runner shared by all checks.

A check module defines ``PROPERTY``, ``RULE`` and ``subs()`` -> list of
:class:`Sub`.  A Sub is a generator (a Hypothesis strategy producing plain
data) plus an oracle function ``fn(case, ctx)`` that raises on a violation.
Every Sub is run in several forked shards, each a pure function of VERIF_SEED
and of the code under test.  The first failure of a Sub is shrunk by
Hypothesis and written to a replay file, which ``--replay`` feeds straight to
``fn`` without the library.
"""

import argparse
import hashlib
import importlib
import io
import json
import math
import os
import resource
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/python3.12/site-packages"
OUT = sys.stdout  # VIOLATION / KNOWN-FINDING lines go here.


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    """The check itself is broken (not the code under test)."""


class Hang(BaseException):
    """A single case used up its CPU budget."""


class StopSearch(BaseException):
    """The wall budget of this shard is used up (not a violation)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[: n - 20] + "...(%d chars)" % len(r)


def same(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {short(got)}, expected {short(want)}")


def raises(exc, fn, *args, **kws):
    """True if fn raises (a subclass of) exc; any other exception propagates."""
    try:
        fn(*args, **kws)
    except exc:
        return True
    return False


# --- plain data <-> JSON -------------------------------------------------


def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {"$b": bytes(x).hex()}
    if isinstance(x, tuple):
        return {"$t": [enc(i) for i in x]}
    if isinstance(x, list):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {"$d": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
        return {"$f": repr(x)}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    raise HarnessError(f"case contains {type(x)}")


def dec(x):
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        ((k, v),) = x.items()
        if k == "$b":
            return bytes.fromhex(v)
        if k == "$t":
            return tuple(dec(i) for i in v)
        if k == "$f":
            return float(v)
        return {dec(a): dec(b) for a, b in v}
    return x


def case_id(case):
    return hashlib.blake2b(json.dumps(enc(case)).encode(), digest_size=8).hexdigest()


# --- subs ----------------------------------------------------------------


class Sub:
    def __init__(self, name, strategy, fn, quick=400, thorough=None, shards=4, tshards=8, cpu=30, cases=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 12
        self.shards, self.tshards = shards, tshards
        self.cpu = cpu  # CPU seconds one case may take (ordinary: milliseconds)
        self.cases = cases  # () -> iterable of cases: exhaustive enumeration instead of a strategy.


class Ctx:
    def __init__(self):
        self.evaluations = 0
        self.events = {}
        self.ids = set()
        self.samples = []
        self.case = None
        self._counted = False

    def start(self, case):
        self.evaluations += 1
        self.case = case
        self._counted = False

    def event(self, label, n=1):
        self.events[label] = self.events.get(label, 0) + n

    def nontrivial(self, cond=True):
        if not cond or self._counted:
            return
        self._counted = True
        cid = case_id(self.case)
        if cid not in self.ids:
            self.ids.add(cid)
            k = len(self.ids)
            if k in (1, 10, 100):
                text = json.dumps(enc(self.case))
                self.samples.append(text if len(text) <= 1500 else text[:1500] + "...")


def _sink():
    return open(os.devnull, "w")


def setup_imports():
    """Make `import objutils` resolve to the tree under test, silently."""
    sys.dont_write_bytecode = True
    for p in (SITE, REPO):
        if p in sys.path:
            sys.path.remove(p)
    # hypothesis & co. come from the tooling venv; objutils' dependencies from the build venv.
    sys.path.append(SITE)
    sys.path.insert(0, REPO)
    import logging

    logging.disable(logging.CRITICAL)
    null = _sink()
    sys.stdout = null
    sys.stderr = null
    import objutils

    src = os.path.realpath(objutils.__file__)
    if not src.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"objutils imported from {src}")


def run_case(sub, case, ctx):
    """Run one case; translate a CPU-budget overrun to Hang."""
    ctx.start(case)

    def onprof(*_):
        raise Hang(f"case used more than {sub.cpu} CPU seconds")

    old = signal.signal(signal.SIGPROF, onprof)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu)
    try:
        sub.fn(case, ctx)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def is_harness_fault(e):
    return isinstance(e, HarnessError)


def run_shard(sub, seed, n, deadline, shard, nshards):
    """-> dict with counters and, possibly, 'failure'."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis import errors as herr

    ctx = Ctx()
    last_fail = [None]
    shrink_until = [deadline]
    out = {}

    def failed(case, tb, msg):
        if last_fail[0] is None:
            shrink_until[0] = time.monotonic() + float(os.environ.get("VERIF_SHRINK", "40"))
        last_fail[0] = (case, tb, msg)

    def body(case):
        if time.monotonic() > (deadline if last_fail[0] is None else shrink_until[0]):
            raise StopSearch()
        try:
            run_case(sub, case, ctx)
        except herr.UnsatisfiedAssumption:
            raise
        except Exception as e:
            if not is_harness_fault(e):
                failed(case, "".join(traceback.format_exception(e))[-3500:], f"{type(e).__name__}: {e}"[:600])
            raise
        except Hang as e:
            failed(case, "", str(e))
            raise

    try:
        if sub.cases is not None:
            for i, case in enumerate(sub.cases()):
                if i % nshards == shard:
                    body(case)
            out["enumerated"] = True
        else:
            test = hypothesis.given(sub.strategy)(body)
            test = settings(
                max_examples=n,
                database=None,
                deadline=None,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
                print_blob=False,
                verbosity=hypothesis.Verbosity.quiet,
            )(test)
            test = hypothesis.seed(seed)(test)
            test()
    except BaseException as e:
        if isinstance(e, StopSearch) and last_fail[0] is None:
            out["budget_reached"] = True
        elif last_fail[0] is None or is_harness_fault(e):
            out["error"] = "".join(traceback.format_exception(e))[-4000:]
        else:
            case, tb, msg = last_fail[0]
            out["failure"] = {"case": enc(case), "traceback": tb, "message": msg}
    out.update(
        evaluations=ctx.evaluations, events=ctx.events, ids=sorted(ctx.ids), samples=ctx.samples, shard=shard, sub=sub.name
    )
    return out


def run_jobs(jobs, nproc):
    """jobs: list of zero-arg callables -> list of results, forked, at most nproc at a time."""
    results = [None] * len(jobs)
    running = {}
    todo = list(range(len(jobs)))
    tmp = tempfile.mkdtemp(prefix="vf-")
    try:
        while todo or running:
            while todo and len(running) < nproc:
                i = todo.pop(0)
                path = os.path.join(tmp, f"{i}.json")
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                        res = jobs[i]()
                        with open(path, "w") as f:
                            json.dump(res, f)
                    except BaseException:
                        traceback.print_exc(file=sys.__stderr__)
                        code = 3
                    finally:
                        os._exit(code)
                running[pid] = (i, path)
            pid, status = os.wait()
            if pid in running:
                i, path = running.pop(pid)
                try:
                    with open(path) as f:
                        results[i] = json.load(f)
                except (OSError, ValueError):
                    results[i] = {"error": f"shard process ended with status {status}"}
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
    return results


def known_findings(prop):
    """Lines `finding: property=<id> key=<key> <text>` of known_findings.txt."""
    res = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                parts = line.strip().split(None, 3)
                if len(parts) == 4 and parts[0] == "finding:" and parts[1] == f"property={prop}":
                    res[parts[2].split("=", 1)[1]] = parts[3]
    except FileNotFoundError:
        pass
    return res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--sub", help="only this sub-check (development)")
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args(argv)
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = args.property
    stdout, stderr = sys.stdout, sys.stderr

    def say(line, stream=stdout):
        print(line, file=stream, flush=True)

    try:
        setup_imports()
        mod = importlib.import_module(f"vf.checks.{prop.lower()}")
        subs = mod.subs()
    except BaseException as e:
        say("ERROR: check could not be set up\n" + "".join(traceback.format_exception(e)), stderr)
        return 2

    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        sub = next(s for s in subs if s.name == rec["sub"])
        case = dec(rec["case"])
        ctx = Ctx()
        try:
            run_case(sub, case, ctx)
        except (Exception, Hang) as e:
            if is_harness_fault(e):
                say("ERROR " + "".join(traceback.format_exception(e)), stderr)
                return 2
            say("".join(traceback.format_exception(e))[-3000:])
            say(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        say("replay passed")
        return 0

    if args.sub:
        subs = [s for s in subs if s.name == args.sub]
    quick = args.tier == "quick"
    budget = float(os.environ.get("VERIF_BUDGET", "240" if quick else "780"))
    deadline = t0 + budget
    jobs = []
    for sub in subs:
        n = sub.quick if quick else sub.thorough
        n = max(1, int(n * args.scale))
        shards = sub.shards if quick else sub.tshards
        shards = max(1, min(shards, n))
        per = -(-n // shards)
        for sh in range(shards):
            key = int.from_bytes(hashlib.blake2b(f"{prop}/{sub.name}/{seed}/{sh}".encode(), digest_size=6).digest(), "big")
            jobs.append(lambda sub=sub, key=key, per=per, sh=sh, shards=shards: run_shard(sub, key, per, deadline, sh, shards))
    results = run_jobs(jobs, min(8, os.cpu_count() or 1))

    errors = [r["error"] for r in results if "error" in r]
    failures = {}
    for r in results:
        if "failure" in r:
            cur = failures.get(r["sub"])
            if cur is None or len(json.dumps(r["failure"]["case"])) < len(json.dumps(cur["case"])):
                failures[r["sub"]] = r["failure"]

    # evidence
    ids = set()
    events = {}
    per_sub = {}
    samples = []
    for r in results:
        if "evaluations" not in r:
            continue
        ids.update(f"{r['sub']}:{i}" for i in r["ids"])
        for k, v in r["events"].items():
            key = f"{r['sub']}: {k}"
            events[key] = events.get(key, 0) + v
        ps = per_sub.setdefault(r["sub"], {"evaluations": 0, "budget_reached": False})
        ps["evaluations"] += r["evaluations"]
        ps["budget_reached"] |= bool(r.get("budget_reached"))
        if r["samples"] and r["shard"] == 0:
            samples.extend({"sub": r["sub"], "case": s} for s in r["samples"][:2])
    known = known_findings(prop)
    known_hits = []
    probes = getattr(mod, "KNOWN", {})
    for key, text in known.items():
        probe = probes.get(key)
        if probe is None:
            errors.append(f"known finding {key} has no probe in the check")
            continue
        if probe():
            known_hits.append((key, text))
    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in per_sub.values()),
            "distinct_nontrivial": len(ids),
            "rule": mod.RULE,
            "samples": samples[:24],
            "sub_checks": per_sub,
            "classes": dict(sorted(events.items())),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
    }
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    with open(os.path.join(ev_dir, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for key, text in known_hits:
        say(f"KNOWN-FINDING: property={prop} {text}")
    if failures:
        for name, fl in sorted(failures.items()):
            rdir = os.path.join(ev_dir, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{prop}-{name}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "sub": name, "seed": seed, **fl}, f, indent=1)
            say(f"[{prop}/{name}] {fl['message']}")
            text = json.dumps(fl["case"])
            say(f"  case: {text[:800]}")
            say(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        say("ERROR: " + "\n".join(errors[:3]), stderr)
        return 2
    ev = evidence["coverage"]
    say(f"{prop} ok: {ev['evaluations']} cases, {ev['distinct_nontrivial']} distinct non-trivial, {evidence['wall_s']} s")
    return 0
