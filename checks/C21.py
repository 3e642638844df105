"""C21 no hidden state: every call sequence up to a depth, and every single preemption of one call by another, on the real code."""
import itertools
import json
import os
import random
import subprocess
import sys
import threading
import time

import numpy as np
import seqops
import vlib

ENV = dict(JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0", JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1")
HEAVY = ("loss",)
FILES = {"collated": {"out.h5", "other.h5"}, "flat": {"flat.h5"}, "named": {"named.h5"}, "tng": {"tng_diffmah.npy", "tng_cosmic_time.npy"},
         "published": {"bpl_diffmah_cens.npy", "bpl_cosmic_time.npy"}, "galacticus": {"gal.h5"}}


def globals_state():
    s = np.random.get_state()
    return hash((s[1].tobytes(), s[2], s[3], s[4])), hash(random.getstate()), os.getcwd()


def published_defaults():
    """Digest of every public constant of the library's modules."""
    out = {}
    for mn, m in list(sys.modules.items()):
        if mn == "diffmah" or mn.startswith("diffmah."):
            for k, v in list(vars(m).items()):
                if k.isupper() and not k.startswith("_") and not callable(v) and ("DEFAULT" in k or "BOUNDS" in k or "PDICT" in k or
                                                                                  isinstance(v, (int, float, str, tuple))):
                    out[f"{mn}.{k}"] = seqops.digest(v)
    return out


def listing():
    return {f for f in os.listdir(".")}


class Runner:
    def __init__(self):
        self.seen, self.fails, self.calls, self.seqs = {}, [], 0, 0
        self.defaults = None

    def fail(self, key, msg):
        if not any(f[0] == key for f in self.fails):
            self.fails.append((key, msg))

    def step(self, name, hist):
        import warnings

        before_files = listing()
        fn, args, kw = seqops.prepare(name)
        made = listing()
        a0 = seqops.digest((args, kw))
        g0 = globals_state()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = fn(*args, **kw)
            except Exception as e:
                r = f"{type(e).__name__}"
        self.calls += 1
        g1 = globals_state()
        if g1 != g0:
            what = "numpy's" if g1[0] != g0[0] else "python's" if g1[1] != g0[1] else "the working directory, not the"
            self.fail(f"global:{name.split(':')[0]}", f"{name} changes {what} global random state")
        if seqops.digest((args, kw)) != a0:
            self.fail(f"arguments:{name.split(':')[0]}", f"{name} changes its arguments")
        extra = listing() - made - FILES.get(name.split(":")[0], set())
        if extra or before_files - listing():
            self.fail(f"files:{name.split(':')[0]}", f"{name} leaves other files {sorted(extra)[:3]}")
        d = seqops.digest(r)
        self.seen.setdefault(name, {})
        if d not in self.seen[name]:
            self.seen[name][d] = list(hist)
        return r, d, (args, kw)

    def sequence(self, names):
        held = []
        for i, n in enumerate(names):
            r, d, a = self.step(n, names[:i])
            held.append((n, r, d, a))
        for i, (n, r, d, a) in enumerate(held):
            if seqops.digest(r) != d:
                self.fail(f"alias:{n.split(':')[0]}", f"the result of {n} changed when {names[i + 1:]} were called")
        for n, r, d, a in held:
            seqops.scribble(r)
            seqops.scribble(a)
        self.seqs += 1


def sequences_of(thorough):
    names = list(seqops.OPS)
    fam = {}
    for n in names:
        fam.setdefault(seqops.OPS[n][0], []).append(n)
    light = [n for n in names if seqops.OPS[n][0] not in HEAVY]
    out = [(a, b) for a in names for b in names if (seqops.OPS[a][0] not in HEAVY or seqops.OPS[b][0] == seqops.OPS[a][0] or b.endswith(":a"))]
    # every triple of variants of related operations: x, y, x again is part of it
    trip = []
    for f, ns in fam.items():
        if f in HEAVY and not thorough:
            continue
        base = [n for n in ns if thorough or n.split(":")[1] in ("a", "b", "skip")]
        trip += [(a, b, c) for a in base for b in base for c in base if a.split(":")[0] != b.split(":")[0] or b != c]
    if not thorough:
        trip = [t for t in trip if len({x.split(":")[0] for x in t}) < 3]
    return out + trip, light


def worker(out, k, n, thorough):
    t0 = time.time()
    seqs, _ = sequences_of(thorough)
    r = Runner()
    mine = seqs[k::n]
    base = None
    for i, s in enumerate(mine):
        r.sequence(s)
        if i % 200 == 0 or i == len(mine) - 1:
            d = published_defaults()
            if base is not None:
                for key in set(base) & set(d):
                    if base[key] != d[key]:
                        r.fail(f"defaults:{key}", f"{key} changed while calls were made, the last {s}")
            base = {**d, **(base or {})}
        if len(r.fails) > 30:
            break
    json.dump(dict(seen=r.seen, fails=r.fails, calls=r.calls, seqs=r.seqs, defaults=len(base or {}), wall=time.time() - t0), open(out, "w"))


def sequences(ctx):
    tmp = os.environ.get("VERIF_SCRATCH", "/tmp")
    env = dict(os.environ, JAX_COMPILATION_CACHE_DIR=os.path.join(tmp, "xla"), **ENV)
    jobs = []
    names = list(seqops.OPS)
    if ctx.thorough:
        for i, n in enumerate(names):
            jobs.append((f"fresh:{n}", [seqops.__file__, None, n]))
    else:
        for v in sorted({n.split(":")[1] for n in names}):
            g = [n for n in names if n.endswith(":" + v)]
            jobs.append((f"fresh-forward:{v}", [seqops.__file__, None] + g))
            if len(g) > 1:
                jobs.append((f"fresh-backward:{v}", [seqops.__file__, None] + g[::-1]))
    n = 6
    work = [(f"sequences:{k}", [os.path.abspath(__file__), "--worker", None, str(k), str(n), str(int(ctx.thorough))]) for k in range(n)]
    jobs = jobs[:2] + work + jobs[2:]
    run, res, q = [], {}, list(jobs)
    while q or run:
        while q and len(run) < 8:
            name, cmd = q.pop(0)
            d = os.path.join(tmp, f"job_{len(res) + len(run)}_{len(q)}")
            os.makedirs(d)
            out = os.path.join(d, "..", os.path.basename(d) + ".json")
            p = subprocess.Popen([sys.executable] + [out if c is None else c for c in cmd], cwd=d, env=env,
                                 stdout=open(d + ".log", "w"), stderr=subprocess.STDOUT)
            run.append((name, p, out, d))
        time.sleep(0.05)
        for it in list(run):
            if it[1].poll() is None:
                continue
            run.remove(it)
            name, p, out, d = it
            if not os.path.isfile(out):
                tail = open(d + ".log").read()[-1500:]
                if vlib.REPO + "/" in tail:
                    ctx.fail("import", "the library raised outside any call", trace=tail.splitlines()[-6:])
                    res[name] = None
                    continue
                raise RuntimeError(f"{name} rc={p.returncode}: {tail}")
            res[name] = json.load(open(out))
    fresh = {}
    for name, r in res.items():
        if r is None or not name.startswith("fresh"):
            continue
        for o, v in r.items():
            fresh.setdefault(o, {}).setdefault(v["digest"], name)
    for o, ds in fresh.items():
        if len(ds) > 1:
            ctx.fail(f"fresh:{o.split(':')[0]}", f"{o} differs between two new processes that made other calls before it", runs=list(ds.values()))
    for name, r in res.items():
        if r is None or name.startswith("fresh"):
            continue
        ctx.count(r["calls"])
        ctx.states += r["seqs"]
        ctx.transitions += r["calls"]
        ctx.extra["public constants watched"] = max(ctx.extra.get("public constants watched", 0), r["defaults"])
        for key, msg in r["fails"]:
            ctx.fail(key, msg)
        for o, ds in r["seen"].items():
            for d, hist in ds.items():
                if o in fresh and d not in fresh[o]:
                    ctx.fail(f"history:{o.split(':')[0]}", f"{o} returns something else than in a new process", after=hist)
        ctx.extra.setdefault("seconds", []).append(round(r["wall"], 1))
    ctx.nontrivial_n("seq", n=min(ctx.states, 20000))
    ctx.traces += ctx.states
    ctx.extra["operations"] = len(names)
    ctx.sample(sequence=["fitter:a", "fitter:b", "fitter:a"])


# ---------------------------------------------------------------- interleavings

ROOT = os.path.join(os.path.realpath(vlib.REPO), "diffmah") + os.sep


class Interleave:
    """Runs x in a traced thread; at its k-th source line inside the library, runs y to completion in another thread."""

    def __init__(self, eager):
        self.eager = eager
        self.where = {}

    def is_lib(self, fn):
        if fn not in self.where:
            self.where[fn] = os.path.realpath(fn).startswith(ROOT)
        return self.where[fn]

    def call(self, prep):
        import warnings

        import jax

        fn, args, kw = prep
        ctxm = jax.disable_jit() if self.eager else warnings.catch_warnings()
        with ctxm:
            try:
                return fn(*args, **kw)
            except Exception as e:
                return f"{type(e).__name__}"

    def run(self, x, y=None, stop=None, record=None, second_stop=None):
        """One schedule; returns (result x, result y, lines of x executed)."""
        px = seqops.prepare(x)
        py = seqops.prepare(y) if y else None
        res = [None, None]
        count = [0]
        go, done = threading.Event(), threading.Event()
        mid, cont = threading.Event(), threading.Event()
        count2 = [0]

        def tr(frame, event, arg):
            if not self.is_lib(frame.f_code.co_filename):
                return None
            if event == "line":
                if record is not None:
                    record.append((frame.f_code.co_filename, frame.f_lineno))
                elif count[0] == stop:
                    go.set()
                    while not (done.wait(0.001) or mid.is_set()):
                        pass
                count[0] += 1
            return tr

        def tr2(frame, event, arg):
            if not self.is_lib(frame.f_code.co_filename):
                return None
            if event == "line":
                if count2[0] == second_stop:
                    mid.set()
                    cont.wait()
                count2[0] += 1
            return tr2

        def t1():
            sys.settrace(tr)
            try:
                res[0] = self.call(px)
            finally:
                sys.settrace(None)
                go.set()
                cont.set()

        def t2():
            go.wait()
            if second_stop is not None:
                sys.settrace(tr2)
            try:
                res[1] = self.call(py)
            finally:
                sys.settrace(None)
                done.set()

        ts = [threading.Thread(target=t1)] + ([threading.Thread(target=t2)] if y else [])
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return res[0], res[1], count[0]


def positions(rec, per_line):
    """Positions of each distinct source line: its first executions, and its last; "file": each first passage from one file to another."""
    by = {}
    if per_line == "file":
        last, seen, out = None, set(), set()
        for i, (f, l_) in enumerate(rec):
            if f != last and (last, f) not in seen:
                seen.add((last, f))
                out.add(i)
            last = f
        return sorted(out | {0, len(rec) // 2, len(rec) - 1})
    for i, w in enumerate(rec):
        by.setdefault(w, []).append(i)
    out = set()
    for w, p in by.items():
        if per_line is None:
            out |= set(p)
        else:
            out |= set(p[:per_line]) | {p[-1]}
    return sorted(out)


def interleave(ctx, pairs, eager, per_line, second=False, budget=None):
    import warnings

    warnings.simplefilter("ignore")
    I = Interleave(eager)
    base = {}
    t_end = time.time() + budget if budget else None
    for n in sorted({n for p in pairs for n in p}):
        first, _, _ = I.run(n)
        base[n] = seqops.digest(first)
        again, _, _ = I.run(n)
        if seqops.digest(again) != base[n]:
            ctx.fail(f"again:{n.split(':')[0]}", f"{n} called twice gives two results")
    total = 0
    for x, y in pairs:
        rec = []
        I.run(x, record=rec)
        ps = positions(rec, per_line)
        seconds = [None]
        if second:
            rec2 = []
            I.run(y, record=rec2)
            q = positions(rec2, 1)
            seconds = [None] + q
        ctx.states += len(rec)
        for k, j in itertools.product(ps, seconds):
            if len({x.split(":")[0], y.split(":")[0]} & set(FILES)) and FILES.get(x.split(":")[0], set()) & FILES.get(y.split(":")[0], set()):
                break
            rx, ry, n = I.run(x, y, stop=k, second_stop=j)
            total += 1
            ctx.count(2)
            f, l_ = rec[k]
            at = f"{os.path.relpath(f, vlib.REPO)}:{l_}"
            if seqops.digest(rx) != base[x]:
                ctx.fail(f"interrupted:{x.split(':')[0]}", f"{x} interrupted at {at} by {y} returns something else than alone", step=k, second=j)
            if seqops.digest(ry) != base[y]:
                ctx.fail(f"interrupting:{y.split(':')[0]}", f"{y} run while {x} is stopped at {at} returns something else than alone", step=k, second=j)
            ctx.nontrivial(x, y, k, j)
        if t_end and time.time() > t_end:
            ctx.note("stopped at its time budget")
            break
    ctx.transitions += total
    ctx.traces += total
    ctx.extra.update(schedules=ctx.extra.get("schedules", 0) + total, pairs=ctx.extra.get("pairs", 0) + len(pairs))
    ctx.sample(pair=list(pairs[0]), scheduling_points=len(rec))


def others(x, pool):
    """The other variants of the same operation, and one of each other operation."""
    f, v = x.split(":")
    out = [n for n in pool if n.split(":")[0] == f and n != x][:3]
    out += [n for n in pool if n.split(":")[0] != f and n.endswith(":a")]
    return out


def threads_host(ctx):
    """Operations that run Python code: fitting front end, optimisers, files, statistics."""
    fast = [n for n in seqops.OPS if n.split(":")[0] in ("loss_data", "outline", "flat", "tng", "published", "galacticus", "widths",
                                                         "arrays", "outliers", "targets", "collated", "varied", "named")]
    pairs = [(x, y) for x in fast for y in others(x, fast) if ctx.thorough or x.split(":")[1] in ("a", "b", "skip")]
    interleave(ctx, pairs, False, 2 if not ctx.thorough else None)


def threads_fit(ctx):
    fit = ["fitter:a", "fitter:b", "fitter:skip", "adam:a", "adam:c", "fallback:a", "fallback:b", "lbfgs:a", "lbfgs:b"]
    pairs = [(x, y) for x in fit for y in fit if x != y and (x.split(":")[0] == y.split(":")[0] or {x, y} & {"fitter:a"})]
    if not ctx.thorough:
        pairs = [("fitter:a", "fitter:b"), ("fitter:b", "fitter:skip"), ("adam:c", "adam:a"), ("adam:b", "fitter:a"), ("fallback:b", "fallback:a"),
                 ("lbfgs:a", "lbfgs:b")]
    interleave(ctx, pairs, False, 1 if not ctx.thorough else 6)


def threads_two(ctx):
    """Two preemptions: x stopped, y stopped, x finishes, y finishes."""
    pairs = [("loss_data:a", "loss_data:b"), ("loss_data:b", "loss_data:skip"), ("outline:a", "outline:b"), ("flat:c", "flat:d"),
             ("outliers:a", "outliers:b"), ("targets:a", "targets:b"), ("widths:a", "widths:b"), ("adam:a", "adam:b"), ("fitter:a", "fitter:b")]
    interleave(ctx, pairs if ctx.thorough else pairs[:2] + pairs[3:7], False, 1, second=True)


def threads_kernels(ctx):
    """Kernels run without compilation, so that every source line is a scheduling point."""
    fast = ["singlehalo:a", "singlehalo:b", "halopop:a", "halopop:b", "at_t_obs:a", "bounded:a", "bounded:b", "unbounded:a", "unbounded:b",
            "trimmed:a", "trimmed:b", "cholesky:a", "cholesky:b", "correlation:a", "correlation:b", "tp_cens:a", "tp_cens:c", "tp_sats:a", "tp_sats:b"]
    pairs = [(x, y) for x in fast for y in fast if x != y and x.split(":")[0] == y.split(":")[0]]
    pairs = [p for p in pairs if p[0][:3] != "tp_"] if not ctx.thorough else pairs
    interleave(ctx, pairs, True, 1 if not ctx.thorough else 3)
    if not ctx.thorough:
        interleave(ctx, [("tp_cens:a", "tp_cens:c"), ("tp_sats:b", "tp_sats:a")], True, "file")


def threads_cens(ctx):
    interleave(ctx, [("cen_params:a", "cen_params:c")], True, 1 if ctx.thorough else "file")


def threads_sats(ctx):
    pairs = [("sat_params:b", "sat_params:a")]
    if ctx.thorough:
        pairs += [("cen_params:a", "sat_params:a"), ("cenpop:a", "cenpop:c"), ("satpop:a", "satpop:b"), ("pop_unbounded:a", "pop_unbounded:b"),
                  ("pop_bounded:a", "pop_bounded:b")]
    interleave(ctx, pairs, True, 1 if ctx.thorough else "file")


if len(sys.argv) > 1 and sys.argv[1] == "--worker":
    worker(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), bool(int(sys.argv[5])))
    sys.stdout.flush()
    os._exit(0)

vlib.main(
    "C21", [("sequences", sequences), ("threads_cens", threads_cens), ("threads_sats", threads_sats), ("threads_kernels", threads_kernels), ("threads_fit", threads_fit),
            ("threads_host", threads_host), ("threads_two", threads_two)],
    level="model_checking",
    rule="every pair of 105 library operations and every triple within a family, each step compared bit for bit with the same call in a new "
         "process, with arguments, public constants, random state, files and earlier results watched and everything the caller holds "
         "overwritten after each sequence; every schedule in which one call is interrupted at a source line by another call (each distinct "
         "line at its first and last execution), and selected pairs with two interruptions; states = sequences plus scheduling points, "
         "transitions = calls plus schedules",
    assumptions=["load_diffmahpop_targets draws from numpy's global state by design and is not among the operations",
                 "in interleavings compiled kernels are replaced by their uncompiled form; XLA's own thread safety is trusted"])
