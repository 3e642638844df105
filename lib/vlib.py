"""Shared machinery of the checks: parts run as sub-processes, evidence, verdicts.

A check is a list of parts.  Each part is a function part(ctx) run in its own
Python process (so that it can have its own float precision, its own fakes and
its own fault containment).  A part enumerates a bounded space completely and
reports through ctx; the parent process merges the reports, writes
evidence/<id>.json and prints the verdict.
"""

import argparse
import hashlib
import json
import os
import pathlib
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
MAXFAIL = 12


def to_json(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): to_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_json(v) for v in x]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, bytes):
        return x.decode("latin1")
    try:
        a = np.asarray(x)
        if a.dtype.kind in "fiub":
            if a.size > 400:
                return {"shape": list(a.shape), "head": to_json(a.ravel()[:40].tolist())}
            return to_json(a.tolist())
    except Exception:
        pass
    return repr(x)[:400]


class Stop(Exception):
    """Enough violations in this part."""


class Ctx:
    def __init__(self, pid, part, tier, seed):
        self.pid, self.part, self.tier, self.seed = pid, part, tier, seed
        self.thorough = tier == "thorough"
        self.evaluations = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self._seen = set()
        self.samples = []
        self.fails = []
        self.notes = []
        self.extra = {}

    def count(self, n=1):
        self.evaluations += int(n)

    def nontrivial(self, *key):
        self._seen.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def nontrivial_n(self, *key, n=1):
        """n distinct non-trivial cases that share one key."""
        for i in range(int(n)):
            self.nontrivial(*key, i)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(to_json(dict(part=self.part, **kw)))

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def fail(self, key, msg, /, **data):
        """Report a violation; key identifies the failing behaviour."""
        if any(f["key"] == f"{self.part}:{key}" for f in self.fails):
            return
        self.fails.append(dict(key=f"{self.part}:{key}", msg=msg, data=to_json(data)))
        if len(self.fails) >= MAXFAIL:
            raise Stop

    def call(self, key, fn, /, *args, **kw):
        """Call code under test; an exception on an in-domain input is a violation."""
        try:
            return True, fn(*args, **kw)
        except (Stop, KeyboardInterrupt):
            raise
        except Exception as e:
            gone = _missing_private(e)
            if gone:
                self.note("skipped: " + gone)
                return False, None
            tb = traceback.format_exc().strip().splitlines()
            self.fail(f"{key}:raised:{type(e).__name__}", f"raised {e!r}"[:300], trace=tb[-6:])
            return False, None

    def dump(self):
        return dict(
            evaluations=self.evaluations, states=self.states, transitions=self.transitions,
            traces=self.traces, nontrivial=len(self._seen), samples=self.samples,
            fails=self.fails, notes=self.notes, extra=to_json(self.extra))


def _setup_repo():
    """Import the code under test from the working tree, and nothing else."""
    sys.path[:] = [p for p in sys.path if p != REPO]
    sys.path.insert(0, REPO)
    if not os.path.isfile(os.path.join(REPO, "diffmah", "_version.py")):
        import types

        m = types.ModuleType("diffmah._version")
        m.__version__ = "0.0.0"
        sys.modules["diffmah._version"] = m


def _from_repo(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def _missing_private(e):
    """The check asked for a private helper that the code no longer has: nothing to check there."""
    m = re.match(r"module '(diffmah[\w.]*|smdpl_\w+)' has no attribute '(_\w+)'", str(e)) if isinstance(e, AttributeError) else \
        re.match(r"cannot import name '(_\w+)' from '(diffmah[\w.]*)", str(e)) if isinstance(e, ImportError) else None
    return m.group(0) if m and not _from_repo(e) else None


def _run_part(pid, name, fn, tier, seed, out):
    _setup_repo()
    ctx = Ctx(pid, name, tier, seed)
    try:
        fn(ctx)
    except Stop:
        pass
    except Exception as e:
        gone = _missing_private(e)
        if gone:
            ctx.note("rest of the part skipped: " + gone)
            pathlib.Path(out).write_text(json.dumps(ctx.dump()))
            return
        if not _from_repo(e) and not ctx.fails and not isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError)):
            raise          # no answer; the listed types mean that a result of the code has not the documented form
        tb = traceback.format_exc().strip().splitlines()
        try:
            ctx.fail(f"raised:{type(e).__name__}", f"raised {e!r}"[:300], trace=tb[-12:])
        except Stop:
            pass
    pathlib.Path(out).write_text(json.dumps(ctx.dump()))


def load_known():
    """KNOWN_FINDINGS.txt: 'finding: property=<id> key=<key> <what>' lines."""
    known = {}
    fn = VERIF / "KNOWN_FINDINGS.txt"
    if fn.is_file():
        for line in fn.read_text().splitlines():
            if line.startswith("finding:"):
                w = line.split()
                d = dict(x.split("=", 1) for x in w[1:3])
                known[(d["property"], d["key"])] = " ".join(w[3:])
    return known


def main(pid, parts, level, rule, assumptions=(), timeout=600, exhaustive=True):
    """parts: list of (name, fn, options); options: x64=bool, thorough_only=bool."""
    ap = argparse.ArgumentParser()
    ap.add_argument("--part")
    ap.add_argument("--out")
    ap.add_argument("--only", help="run one part only (debugging)")
    args = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    parts = [(p[0], p[1], p[2] if len(p) > 2 else {}) for p in parts]
    if args.part:
        name, fn, opt = [p for p in parts if p[0] == args.part][0]
        _run_part(pid, name, fn, tier, seed, args.out)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)

    t0 = time.time()
    todo = [p for p in parts if tier == "thorough" or not p[2].get("thorough_only")]
    if args.only:
        todo = [p for p in todo if p[0] == args.only]
    tmo = timeout if tier == "quick" else 6 * 3600
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    script = os.path.abspath(sys.argv[0])
    res, errors, running, queue = {}, [], [], list(todo)
    maxpar = int(os.environ.get("VERIF_JOBS", "6"))
    with tempfile.TemporaryDirectory(prefix=f"verif_{pid}_") as tmp:
        while queue or running:
            while queue and len(running) < maxpar:
                name, fn, opt = queue.pop(0)
                env = dict(os.environ)
                env["VERIF_SCRATCH"] = os.path.join(tmp, "scratch_" + name)
                env["TMPDIR"] = env["VERIF_SCRATCH"]
                os.makedirs(env["VERIF_SCRATCH"])
                if opt.get("x64"):
                    env["JAX_ENABLE_X64"] = "1"
                env.update(opt.get("env", {}))
                out = os.path.join(tmp, name + ".json")
                log = open(os.path.join(tmp, name + ".log"), "w")
                p = subprocess.Popen(
                    [sys.executable, script, "--part", name, "--out", out],
                    stdout=log, stderr=subprocess.STDOUT, env=env,
                    cwd=env["VERIF_SCRATCH"], start_new_session=True)
                running.append((name, p, out, log, time.time()))
            time.sleep(0.05)
            for item in list(running):
                name, p, out, log, ts = item
                rc = p.poll()
                late = time.time() - ts > tmo
                if rc is None and not late:
                    continue
                running.remove(item)
                if rc is None:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                log.close()
                text = pathlib.Path(log.name).read_text(errors="replace")
                if rc is None:
                    # every part finishes in a fraction of its limit on correct code
                    res[name] = dict(evaluations=0, states=0, transitions=0, traces=0,
                                     nontrivial=0, samples=[], notes=[], extra={},
                                     fails=[dict(key=f"{name}:no-termination",
                                                 msg=f"did not finish in {tmo} s",
                                                 data={"log": text[-1500:]})])
                elif os.path.isfile(out):
                    res[name] = json.loads(pathlib.Path(out).read_text())
                    if os.environ.get("VERIF_VERBOSE"):
                        print(f"[{name}] {time.time()-ts:.1f}s", {k: v for k, v in res[name].items() if k not in ("samples", "fails")})
                        if text.strip():
                            print(text[-3000:])
                else:
                    errors.append((name, rc, text[-3000:]))

    tot = {k: sum(r[k] for r in res.values())
           for k in ("evaluations", "states", "transitions", "traces", "nontrivial")}
    samples = [s for r in res.values() for s in r["samples"]]
    known = load_known()
    viols, knowns = [], []
    for r in res.values():
        for f in r["fails"]:
            (knowns if (pid, f["key"]) in known else viols).append(f)
    cov = dict(samples=samples[:24], rule=rule, exhaustive=bool(exhaustive),
               parts={n: dict(evaluations=r["evaluations"], distinct_nontrivial=r["nontrivial"],
                              states=r["states"], transitions=r["transitions"],
                              traces=r["traces"], notes=r["notes"], **r["extra"])
                      for n, r in res.items()})
    if level == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"],
                   traces_validated_against_impl=tot["traces"])
    cov.update(evaluations=tot["evaluations"], distinct_nontrivial=tot["nontrivial"])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(assumptions), wall_s=round(time.time() - t0, 2),
              violations=len(viols))
    (evdir / f"{pid}.json").write_text(json.dumps(ev, indent=1))

    for f in knowns:
        print(f"KNOWN-FINDING: property={pid} {f['key']} {known[(pid, f['key'])]}")
    rdir = evdir / "replay"
    rdir.mkdir(exist_ok=True)
    for old in rdir.glob(f"{pid}_*.json"):
        old.unlink()
    for i, f in enumerate(viols):
        path = rdir / f"{pid}_{i}.json"
        path.write_text(json.dumps(dict(
            property=pid, rerun=f"VERIF_TIER={tier} bash /verif/run.sh {pid} {tier}",
            part=f["key"].split(":")[0], **f), indent=1))
        if i < 6:
            print(f"VIOLATION property={pid} replay={path}")
            print(f"   {f['key']}: {f['msg'][:300]}")
    for name, rc, text in errors:
        print(f"ERROR in part {name} (rc {rc}):\n{text}")
    print(f"{pid} {tier}: {len(viols)} violations, evaluations={tot['evaluations']} "
          f"nontrivial={tot['nontrivial']} states={tot['states']} "
          f"transitions={tot['transitions']} traces={tot['traces']} "
          f"wall={time.time()-t0:.1f}s")
    sys.exit(1 if viols else (2 if errors else 0))
