"""C08 optimiser fault handling: faults injected at every evaluation of every stage, judged against the trace."""
import itertools
import warnings

import numpy as np
import vlib

warnings.filterwarnings("ignore")
NAN, INF = float("nan"), float("inf")
KINDS = {"loss-nan": (NAN, None), "loss+inf": (INF, None), "loss-inf": (-INF, None),
         "grad0-nan": (None, "0nan"), "grad1-inf": (None, "1inf"), "grads-nan": (None, "all"), "both": (NAN, "all")}
P0 = np.array([1.5, -2.0, 0.75])
C = np.array([0.9, -1.1, 0.1])


class Script:
    """val_and_grads callable: a smooth bowl (or a scripted loss per call) with faults by call number."""

    def __init__(self, faults, losses=None, count_from=0):
        self.faults, self.losses = dict(faults), losses
        self.trace, self.n, self.on = [], 0, True

    def __call__(self, p, data):
        p = np.array([float(x) for x in p])
        k = self.n
        d = p - C
        loss = float((d ** 2).sum() + 0.04 + 5 * (d[0] * d[1]) ** 2 + d[2] ** 4)
        if self.losses is not None and k < len(self.losses):
            loss = self.losses[k]
        g = 2 * d + 0.01 + np.array([10 * d[0] * d[1] ** 2, 10 * d[1] * d[0] ** 2, 4 * d[2] ** 3])
        if self.on:
            self.n += 1
            if k in self.faults:
                fl, fg = KINDS[self.faults[k]]
                loss = loss if fl is None else fl
                if fg == "all":
                    g = np.full(3, NAN)
                elif fg == "0nan":
                    g[0] = NAN
                elif fg == "1inf":
                    g[1] = -INF
            self.trace.append((p.copy(), float(np.float32(loss)), bool(np.isfinite(loss) and np.isfinite(g).all())))
        return np.float32(loss), g.astype(np.float32)


def expect(trace, p_start, n_warm, wn, n, tol):
    """Walk the trace of evaluations: stage boundaries, early stops, best-so-far, termination."""
    pos, p0, prev = 0, p_start, INF
    out = None
    problems = []
    stages = [wn] * n_warm + [n]
    for i, steps in enumerate(stages):
        final = i == len(stages) - 1
        if final and not prev > tol:
            break
        seg, fault, hit = [], False, False
        for s in range(steps):
            if pos >= len(trace):
                problems.append(f"stage {i} stopped after {s} of {steps} steps")
                break
            p, l, good = trace[pos]
            pos += 1
            if s == 0 and not np.allclose(p, p0, rtol=1e-6, atol=1e-6):
                problems.append(f"stage {i} starts at {p}, not at {p0}")
            if not good:
                fault = True
                break
            seg.append((p, l))
            if l < tol:
                hit = True
                break
        if seg:
            b = min(range(len(seg)), key=lambda q: seg[q][1])
            best, loss = seg[b]
        else:
            best, loss = p0, 999.99
        out = dict(p=best, loss=loss, term=0 if fault else 1, losses=[x[1] for x in seg], points=[x[0] for x in seg], first=not seg, stage=i)
        p0, prev = best, loss
    if pos != len(trace):
        problems.append(f"{len(trace) - pos} evaluations after the run should have stopped")
    return out, problems, prev


def same(a, b):
    return np.allclose(np.asarray(a, float), b, rtol=1e-6, atol=1e-6)


def judge(ctx, label, key, got, s, p_start, n_warm, wn, n, tol, history=True):
    ctx.count()
    e, problems, _ = expect(s.trace, p_start, n_warm, wn, n, tol)
    case = dict(faults=s.faults, n_warmup=n_warm, warmup_steps=wn, n_step=n, tol=tol, losses=s.losses)
    ctx.transitions += len(s.trace)
    if problems:
        ctx.fail(f"{label}:trace", problems[0], **case)
        return
    p, loss, larr, parr, term = got
    p = np.array([float(x) for x in p])
    ok = same(p, e["p"]) and abs(float(loss) - e["loss"]) <= 1e-5 * abs(e["loss"])
    if not ok and e["first"] and e["stage"] > 0:
        # warm-up succeeded, final run could not evaluate at all: its best with its own loss is as good
        ok = any(g and same(p, q) and abs(float(loss) - l) <= 1e-5 * abs(l) for q, l, g in s.trace)
    if not ok:
        which = "first-evaluation" if e["first"] else ("faulted" if e["term"] == 0 else "clean")
        ctx.fail(f"{label}:result:{which}", f"returned {p} loss {float(loss)}, expected {e['p']} loss {e['loss']}", **case)
    if int(term) != e["term"]:
        ctx.fail(f"{label}:termination:{'fault' if e['term'] == 0 else 'clean'}", f"flag {term} expected {e['term']}", **case)
    if history:
        la = np.asarray(larr, float)
        if not np.isfinite(la).all():
            ctx.fail(f"{label}:history-nonfinite", "loss history holds non-finite values", got=la, **case)
        elif la.shape != (len(e["losses"]),) or not np.allclose(la, e["losses"], rtol=1e-6):
            ctx.fail(f"{label}:history", "loss history differs from the evaluations", got=la, want=e["losses"], **case)
        pa = np.asarray(parr, float)
        if pa.ndim != 2 or pa.shape[0] < len(e["points"]) or any(not same(a, b) for a, b in zip(pa, e["points"])):
            ctx.fail(f"{label}:parameter-history", "parameter history differs from the evaluated points", got=pa[:5], **case)
    if s.faults and any(k < len(s.trace) for k in s.faults):
        ctx.nontrivial(label, key)


def run_adam(ctx, label, key, faults, n_warm, wn, n, tol=0.0, losses=None, **kw):
    from diffmah.fitting_helpers.fit_utils import jax_adam_wrapper

    s = Script(faults, losses)
    start = P0.copy()
    ok, r = ctx.call(label, jax_adam_wrapper, s, start, None, n, n_warm, warmup_n_step=wn, tol=tol, **kw)
    if not ok:
        return
    if start.tobytes() != P0.tobytes():
        ctx.fail(f"{label}:mutated", "starting parameters modified")
    if len(r) != 5:
        ctx.fail(f"{label}:result-shape", f"{len(r)} results")
        return
    judge(ctx, label, key, r, s, np.float32(P0).astype(float), n_warm, wn, n, tol)


def _singles(n_warm, wn, n):
    def part(ctx):
        tot = n_warm * wn + n
        run_adam(ctx, "adam", ("none",), {}, n_warm, wn, n)
        for k in range(tot + 1):
            for kind in KINDS:
                run_adam(ctx, "adam", (k, kind), {k: kind}, n_warm, wn, n)
        pk = list(KINDS) if ctx.thorough else ["loss-nan", "loss-inf", "grad0-nan", "both"]
        for k1, k2 in itertools.combinations(range(tot), 2):
            for a, b in itertools.product(pk, repeat=2):
                run_adam(ctx, "adam2", (k1, k2, a, b), {k1: a, k2: b}, n_warm, wn, n)
        ctx.sample(n_warmup=n_warm, warmup_steps=wn, n_step=n, faults=[k1, k2])

    return part


def scripted(ctx):
    """Every order of the losses (best evaluation anywhere), fault after it, tolerance reached at every point."""
    vals = (0.9, 0.3, 2.0, 0.5)
    for perm in itertools.permutations(vals):
        run_adam(ctx, "order", (perm,), {}, 0, 3, 4, losses=perm)
        for k in range(4):
            for kind in ("loss-nan", "grads-nan"):
                run_adam(ctx, "order", (perm, k, kind), {k: kind}, 0, 3, 4, losses=perm)
        # tolerance between any two values
        for tol in (0.4, 0.7, 1.5):
            run_adam(ctx, "tol", (perm, tol), {}, 0, 3, 4, tol=tol, losses=perm)
            for k in range(3):
                run_adam(ctx, "tol", (perm, tol, k), {k: "grad0-nan"}, 0, 3, 4, tol=tol, losses=perm)
    # warm-up (2 steps) then final run (3 steps), each evaluation above or below the tolerance
    for bits in itertools.product((0.2, 1.0), repeat=5):
        ls = [b + 0.01 * i for i, b in enumerate(bits)]
        for nw in (1, 2):
            run_adam(ctx, "warmtol", (bits, nw), {}, nw, 2, 3, tol=0.5, losses=ls)
            for k in range(4):
                run_adam(ctx, "warmtol", (bits, nw, k), {k: "loss-nan"}, nw, 2, 3, tol=0.5, losses=ls)
    # near-perfect fits: positive losses of any size never count as reaching a tolerance of zero (or a smaller one)
    for scale in (1e-7, 1e-11, 1e-20, 1e-35):
        for perm in itertools.permutations((0.9, 0.3, 2.0)):
            for nw, tol in itertools.product((0, 1, 2), (0.0, scale * 0.1, scale * 0.5)):
                ls = [scale * x for x in perm * 3]
                run_adam(ctx, "tiny", (scale, perm, nw, tol), {}, nw, 3, 3, tol=tol, losses=ls)
                for k in range(1, 6, 2):
                    run_adam(ctx, "tiny", (scale, perm, nw, tol, k), {k: "loss-nan"}, nw, 3, 3, tol=tol, losses=ls)
    ctx.sample(losses=vals)


class Patched:
    """Quasi-Newton stage: real (recorded) or replaced by a scripted outcome."""

    def __init__(self):
        import scipy.optimize as so

        self.so, self.orig = so, so.minimize
        self.script, self.last, self.target = None, None, None
        so.minimize = self

    def __call__(self, *a, **k):
        if self.script is None:
            r = self.orig(*a, **k)
        else:
            from scipy.optimize import OptimizeResult

            r = OptimizeResult(x=np.array([0.91, -1.2, 0.2]), fun=self.script[0], success=self.script[1], nit=3, nfev=4,
                               message="", status=0, jac=np.zeros(3))
        self.last = (np.array(r.x, float), float(r.fun), bool(r.success))
        if self.target is not None:
            self.target.trace, self.target.n = [], 0
            if self.target.after is not None:
                self.target.faults = self.target.after
        return r


def fallback(ctx):
    """Every quasi-Newton outcome x every fault in the gradient-descent stage."""
    pat = Patched()
    from diffmah.fitting_helpers.bfgs_wrapper import bfgs_adam_fallback

    outcomes = [(f, ok) for f in (0.04, 1e-30, 0.0, -1.0, NAN, INF, -INF) for ok in (True, False)]
    for pat.script in outcomes:
        good = pat.script[1] and np.isfinite(pat.script[0]) and pat.script[0] > 0
        for nstep, nw in ((3, 0), (2, 1)) if not good else ((3, 0), (2, 1), (200, 1)):
            tot = nw * 50 + nstep
            places = [None] if good else [None] + list(range(tot + 1))
            for k in places:
                kinds = ["loss-nan"] if k is None else (["loss-nan", "grad0-nan"] if pat.script != (0.04, False) and not
                                                        ctx.thorough else list(KINDS))
                if nw and pat.script != (0.04, False) and not ctx.thorough and k is not None and k % 10:
                    continue
                for kind in kinds:
                    s = Script({})
                    s.after = {} if k is None else {k: kind}
                    pat.target, pat.last = s, None
                    ok, r = ctx.call("fallback", bfgs_adam_fallback, s, P0.copy(), None, nstep, nw)
                    if not ok:
                        continue
                    judge_fallback(ctx, "fallback", (pat.script, nstep, nw, k, kind), r, s, pat, nstep, nw)
    ctx.sample(outcomes=[[repr(a), b] for a, b in outcomes])


def judge_fallback(ctx, label, key, r, s, pat, nstep, nw):
    if pat.last is None:
        ctx.note("quasi-Newton stage could not be observed")
        return
    r = list(r)
    if len(r) != 4:
        ctx.fail(f"{label}:shape", f"{len(r)} results")
        return
    x, fun, success = pat.last
    good = success and np.isfinite(fun) and fun > 0
    p = np.array([float(q) for q in r[0]])
    case = dict(outcome=[repr(fun), success], faults=s.faults, nstep=nstep, n_warmup=nw)
    if good:
        ctx.count()
        if int(r[3]) != 0 or not np.array_equal(p, x) or float(r[1]) != fun or not bool(r[2]):
            ctx.fail(f"{label}:accept", f"converged quasi-Newton result not returned: {r}", **case)
        if s.trace:
            ctx.fail(f"{label}:extra", "gradient descent run although the quasi-Newton stage converged", **case)
        ctx.nontrivial(label, key)
        return
    if int(r[3]) != 1:
        ctx.count()
        ctx.fail(f"{label}:reject", f"failed quasi-Newton outcome (loss {fun}, converged {success}) not replaced", **case)
        return
    judge(ctx, label, key, (p, r[1], [], None, r[2]), s, np.float32(P0).astype(float), nw, 50, nstep, 0.0, history=False)


def bfgs_faults(ctx):
    """The real quasi-Newton stage with a fault at every one of its evaluations."""
    pat = Patched()
    from diffmah.fitting_helpers.bfgs_wrapper import bfgs_adam_fallback

    s = Script({})
    s.after = {}
    n0 = [0]
    pat.target = None
    bfgs_adam_fallback(s, P0.copy(), None, 3, 0)
    n = len(s.trace)
    ks = range(n + 2)
    pairs = [()] + [(k,) for k in ks] + list(itertools.combinations(ks, 2))
    for pl in pairs:
        for kinds in itertools.product(KINDS if len(pl) < 2 or ctx.thorough else ("loss-nan", "grads-nan", "loss+inf"), repeat=len(pl)):
            s = Script(dict(zip(pl, kinds)))
            s.after = {}
            pat.target, pat.last = s, None
            ok, r = ctx.call("bfgs", bfgs_adam_fallback, s, P0.copy(), None, 2, 0)
            if ok:
                s.faults0 = dict(zip(pl, kinds))
                judge_fallback(ctx, "bfgs", (pl, kinds), r, s, pat, 2, 0)
                ctx.nontrivial("bfgs", pl, kinds)
                # whatever happened, the result is finite and no worse than the start
                p = np.array([float(q) for q in r[0]])
                if not np.isfinite(p).all() or not np.isfinite(float(r[1])):
                    ctx.fail("bfgs:nonfinite", "non-finite result", placement=list(pl), kinds=list(kinds), p=p, loss=float(r[1]))
    # persistent faults: every evaluation from k on (both stages)
    for k in range(n + 6):
        for kind in KINDS:
            s = Script({i: kind for i in range(k, n + 400)})
            s.after = {i: kind for i in range(0, 400)}
            pat.target, pat.last = s, None
            ok, r = ctx.call("persist", bfgs_adam_fallback, s, P0.copy(), None, 3, 1)
            if ok:
                judge_fallback(ctx, "persist", (k, kind), r, s, pat, 3, 1)
    ctx.extra["quasi_newton_evaluations"] = n
    ctx.sample(evaluations=n)


vlib.main("C08", [("adam_0_6", _singles(0, 3, 6)), ("adam_1_4", _singles(1, 4, 4)), ("adam_2_3", _singles(2, 3, 3)),
                  ("adam_3_2", _singles(3, 2, 2)), ("adam_1_12", _singles(1, 10, 12), dict(thorough_only=True)),
                  ("scripted", scripted), ("fallback", fallback), ("bfgs_faults", bfgs_faults)],
          level="fault_enumeration",
          rule="every single placement of 7 fault kinds and every pair of placements over all evaluations of the warm-up "
               "and final gradient-descent stages and of the real quasi-Newton stage; every quasi-Newton outcome; every "
               "order of losses and every point of reaching the tolerance; non-trivial: a fault was actually delivered",
          assumptions=["the loss evaluated equals exactly the tolerance is not explored"])
