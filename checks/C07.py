"""C07 coherence of every fit result, over histories x option sets."""
import itertools
import warnings

import numpy as np
import ref
import vlib

warnings.filterwarnings("ignore")
INF = float("inf")
T = np.array([0.5, 0.9, 1.4, 2.0, 2.9, 4.0, 5.3, 6.9, 8.5, 10.0, 11.4, 12.7, 13.8])
LGT0 = float(np.log10(13.8))


def model(lgm, logtc, early, late, tp, t=T):
    return 10 ** ref.log_mah((lgm, logtc, early, late, tp), t, float(np.log10(t[-1])))


def histories(thorough):
    H = []
    for lgm, (tc, e, l), tp in itertools.product((9.5, 12.0, 14.8), ((0.05, 2.6, 0.13), (0.5, 6.0, 1.5), (-0.5, 3.0, 1.0),
                                                                    (0.8, 8.0, 0.2)), (3.0, 8.5, 13.8)):
        H.append(("model", (lgm, tc, e, l, tp), model(lgm, tc, e, l, tp)))
    wig = np.array([0, .2, -.3, .1, .25, -.2, .15, 0, -.1, .3, -.05, .1, 0])
    for lgm, tp in itertools.product((11.0, 14.0), (5.3, 13.8)):
        m = model(lgm, 0.05, 2.6, 0.13, tp)
        H.append(("noisy", (lgm, tp), m * 10 ** wig))
        H.append(("peakhist", (lgm, tp), np.maximum.accumulate(m * 10 ** wig)))
        z = m.copy()
        z[:4] = 0
        H.append(("zeros", (lgm, tp), z))
        H.append(("dip", (lgm, tp), np.where(np.arange(13) == 9, m / 3, m)))
        H.append(("declining", (lgm, tp), np.where(T > 8, m * 0.7, m)))
        H.append(("steps", (lgm, tp), 10 ** (np.floor(np.log10(m) * 2) / 2)))
    H.append(("flat", (), np.full(13, 1e12)))
    H.append(("jump", (), np.where(T < 11, 1e9, 1e12) * 1.0))
    H.append(("latejump", (), np.where(T < 13.8, 1e11, 1e12) * 1.0))
    for k in (1, 2, 3, 4):
        H.append(("twolevel", (k,), np.where(np.arange(13) < 13 - k, 2e11, 2e12) * (1 + 0.0 * T)))
        H.append(("ramp", (k,), 10 ** np.linspace(12 - k, 12, 13)))
        H.append(("onlylast", (k,), np.where(np.arange(13) < 13 - k, 0.0, 10 ** np.linspace(10.5, 12, 13))))
    H.append(("falling", (), 10 ** np.linspace(13, 12, 13)))
    H.append(("tiny", (), 10 ** np.linspace(2, 5, 13)))
    H.append(("huge", (), 10 ** np.linspace(14, 16.7, 13)))
    return H


OPTS = [{}, dict(lgm_min=10.8), dict(dlogm_cut=1.0), dict(dlogm_cut=INF, t_fit_min=0.0), dict(t_fit_min=7.0),
        dict(tpeak_fixed=6.0), dict(tpeak_fixed=13.0, nstep=60, n_warmup=0), dict(force_skip_fit=True),
        dict(nstep=30, n_warmup=2, t_fit_min=2.5, dlogm_cut=4.0), dict(t_fit_min=13.0),
        dict(force_skip_fit=True, tpeak_fixed=6.0), dict(force_skip_fit=True, lgm_min=10.8, dlogm_cut=1.0, t_fit_min=2.5,
                                                         tpeak_fixed=13.8, nstep=30, n_warmup=0)]


def judge(ctx, dk, key, t, m, kw, r, exact_model):
    ctx.count()
    case = dict(mass=m.tolist(), options={k: repr(v) for k, v in kw.items()}, t=t.tolist())
    names = ("p_best", "loss_best", "skip_fit", "fit_terminates", "code_used", "loss_data")
    if tuple(getattr(r, "_fields", ())) != names:
        ctx.fail("fields", f"result fields {getattr(r, '_fields', None)}")
        return
    p = np.array([float(x) for x in r.p_best])
    loss = float(r.loss_best)
    tt, yy = np.asarray(r.loss_data.t_target, float), np.asarray(r.loss_data.log_mah_target, float)
    npts = int((yy < yy[-1]).sum()) if yy.size else 0
    must_skip = bool(kw.get("force_skip_fit")) or npts < 3
    if tuple(r.p_best._fields) != ref.PNAMES:
        ctx.fail("pfields", f"parameter fields {r.p_best._fields}")
    if bool(r.skip_fit) != must_skip:
        ctx.fail("skip-flag", f"skip_fit={r.skip_fit} with {npts} usable points", **case)
        return
    if must_skip:
        if not (np.all(p == -99) and loss == -99 and int(r.code_used) == -1 and not bool(r.fit_terminates)):
            ctx.fail("skip-record", "skipped fit does not carry the no-fit record", p=p, loss=loss,
                     code=int(r.code_used), terminates=bool(r.fit_terminates), **case)
        return
    if int(r.code_used) not in (0, 1) or int(r.code_used) != r.code_used:
        ctx.fail("code", f"algorithm code {r.code_used}", **case)
    if not np.isfinite(p).all() or not np.isfinite(loss):
        ctx.fail("finite", "fit returned non-finite values", p=p, loss=loss, **case)
        return
    for k, nm in enumerate(ref.PNAMES):
        lo, hi = ref.BOUNDS[nm]
        if not lo - 1e-5 <= p[k] <= hi + 1e-5:
            ctx.fail(f"bounds:{nm}", "fitted parameter outside its bounds", p=p, **case)
    if p[2] < p[3] - 1e-5:
        ctx.fail("early<late", "early index below late index", p=p, **case)
    want_tp = kw.get("tpeak_fixed")
    if want_tp is None:
        want_tp = t[np.flatnonzero(m == m[-1])[0]]
    if abs(p[4] - want_tp) > 3e-4:
        ctx.fail("t_peak", f"peak time {p[4]} expected {want_tp}", **case)
    lgt0 = float(np.log10(t[-1]))

    def mse(q):
        return float(np.mean((ref.log_mah(q, tt, lgt0) - yy) ** 2))

    e = mse(p)
    # parameters are single precision and so is the loss
    if not abs(np.sqrt(max(loss, 0)) - np.sqrt(e)) <= 2e-3 * np.sqrt(e) + 3e-5:
        ctx.fail("loss", f"reported loss {loss:.4e}, parameters give {e:.4e}", p=p, **case)
    d = [float(x) for x in dk.DEFAULT_MAH_PARAMS]
    start = mse((np.log10(m[-1]), d[1], d[2], d[3], want_tp))
    if not e <= start * 1.002 + 1e-8:
        ctx.fail("no-improvement", f"loss {e:.4e} worse than the starting guess {start:.4e}", p=p, **case)
    ctx.nontrivial(key)
    ctx.extra.setdefault("codes", {})
    k = str(int(r.code_used))
    ctx.extra["codes"][k] = ctx.extra["codes"].get(k, 0) + 1
    lim = 0.25 if kw.get("dlogm_cut") == INF else 0.15
    if exact_model is not None and not np.sqrt(e) < lim:
        ctx.fail("recover", f"model-generated history fitted with rms error {np.sqrt(e):.3f} dex", p=p,
                 truth=exact_model, **case)


def _explore(ctx, hist, opts):
    from diffmah import diffmah_kernels as dk
    from diffmah.fitting_helpers.diffmah_fitter_helpers import diffmah_fitter

    for ih, (kind, pr, m) in enumerate(hist):
        for io, kw in enumerate(opts):
            if "tpeak_fixed" not in kw and kind == "tiny":
                kw = dict(kw, lgm_min=-INF)
            t, mm = T.copy(), m.copy()
            ok, r = ctx.call("diffmah_fitter", diffmah_fitter, t, mm, **kw)
            if not ok:
                continue
            if t.tobytes() != T.tobytes() or mm.tobytes() != m.tobytes():
                ctx.fail("mutated", "caller's arrays modified")
            exact = pr if kind == "model" and "tpeak_fixed" not in kw else None
            judge(ctx, dk, (ih, io), T, m, kw, r, exact)
            if io in (0, 5) or ctx.thorough:
                ok, r2 = ctx.call("diffmah_fitter:again", diffmah_fitter, T.copy(), m.copy(), **kw)
                ctx.count()
                if ok:
                    a = [np.asarray(x).tobytes() for x in (*r.p_best, r.loss_best, *r.loss_data)]
                    b = [np.asarray(x).tobytes() for x in (*r2.p_best, r2.loss_best, *r2.loss_data)]
                    if a != b or (r.code_used, bool(r.fit_terminates)) != (r2.code_used, bool(r2.fit_terminates)):
                        ctx.fail("repeat", "repeating the fit gives another result", mass=m.tolist())
    ctx.sample(history=hist[0][2], options={k: repr(v) for k, v in opts[-1].items()})


def _slice(i, n):
    def part(ctx):
        _explore(ctx, histories(ctx.thorough)[i::n], OPTS)

    return part


def peaks(ctx):
    """Caller-fixed peak times: the parameter domain, incl. before the first fitted point and after the last snapshot."""
    from diffmah import diffmah_kernels as dk
    from diffmah.fitting_helpers.diffmah_fitter_helpers import diffmah_fitter

    H = [("model", model(12.0, 0.05, 2.6, 0.13, 13.8)), ("peaked", model(13.5, 0.4, 5.0, 1.0, 6.0)),
         ("flat", np.full(13, 1e12)), ("ramp", 10 ** np.linspace(10, 12, 13))]
    for (nm, m), tp in itertools.product(H, (0.6, 0.95, 1.4, 3.0, 5.55, 9.0, 12.7, 13.5, 13.8, 13.9, 15.0, 18.0, np.float32(7.1), 9)):
        for t in (T, T[3:], T[:-3]):
            mm = m[np.isin(T, t)]
            for kw in ({}, dict(t_fit_min=4.0), dict(dlogm_cut=0.7)):
                kw = dict(kw, tpeak_fixed=tp)
                ok, r = ctx.call("diffmah_fitter", diffmah_fitter, t.copy(), mm.copy(), **kw)
                if ok:
                    judge(ctx, dk, (nm, float(tp), len(t), tuple(kw)), t, mm, kw, r, None)
    ctx.sample(fixed_peaks=14, histories=len(H))


def lengths(ctx):
    """Every history length from 1 to 12: too-short histories are skipped, others coherent."""
    from diffmah import diffmah_kernels as dk
    from diffmah.fitting_helpers.diffmah_fitter_helpers import diffmah_fitter

    for n in range(1, 13):
        t = T[-n:].copy()
        for pr in ((12.0, 0.05, 2.6, 0.13, 13.8), (13.5, 0.4, 5.0, 1.0, 10.0)):
            m = 10 ** ref.log_mah(pr, t, float(np.log10(t[-1])))
            for kw in ({}, dict(tpeak_fixed=9.0), dict(t_fit_min=t[n // 2])):
                for dt in (np.float64, np.float32):
                    ok, r = ctx.call("diffmah_fitter", diffmah_fitter, t.astype(dt), m.astype(dt), **kw)
                    if ok:
                        judge(ctx, dk, (n, pr, tuple(kw)), t.astype(dt), m.astype(dt), kw, r, None)
        # another present-day age
        t2 = np.linspace(0.7, 5.9, n) if n > 1 else np.array([5.9])
        m = 10 ** ref.log_mah((12.5, 0.1, 3.0, 0.5, 4.4), t2, float(np.log10(5.9)))
        ok, r = ctx.call("diffmah_fitter", diffmah_fitter, t2, m)
        if ok:
            judge(ctx, dk, (n, "young"), t2, m, {}, r, None)
    ctx.sample(lengths=12)


def adam(ctx):
    """The same coherence when the quasi-Newton stage is made to fail (every failure mode of its result)."""
    import scipy.optimize as so

    orig = so.minimize
    mode = ["fail"]

    def stage(*a, **k):
        r = orig(*a, **k)
        if mode[0] == "fail":
            r.success = False
        elif mode[0] == "nan":
            r.fun = float("nan")
        elif mode[0] == "zero":
            r.fun = 0.0
        return r

    so.minimize = stage
    from diffmah import diffmah_kernels as dk
    from diffmah.fitting_helpers.diffmah_fitter_helpers import diffmah_fitter

    H = histories(ctx.thorough)
    H = H if ctx.thorough else H[:36:5] + H[36:]
    for mode[0] in ("fail", "nan", "zero"):
        for ih, (kind, pr, m) in enumerate(H if mode[0] == "fail" else H[::4]):
            for io, kw in enumerate((OPTS[0], OPTS[6], OPTS[8]) if mode[0] == "fail" else OPTS[6:7]):
                ok, r = ctx.call("diffmah_fitter", diffmah_fitter, T.copy(), m.copy(), **kw)
                if ok:
                    judge(ctx, dk, (mode[0], ih, io), T, m, kw, r, None)
                    if not bool(r.skip_fit) and (int(r.code_used) != 1 or not bool(r.fit_terminates)):
                        ctx.note("quasi-Newton failure could not be injected, or fallback not terminated")
                        if int(r.code_used) == 1:
                            ctx.fail("adam-terminates", "fallback ran without faults but is not reported as terminated")
    so.minimize = orig
    ctx.sample(mode=mode[0], history=H[0][2])


vlib.main("C07", [(f"fits{i}", _slice(i, 5)) for i in range(5)] + [("lengths", lengths), ("peaks", peaks), ("adam", adam)], level="exploration",
          rule="every history of the list (model-generated, noisy, zeroed, dipping, stepped, degenerate) x every option "
               "set, every fixed peak time of a lattice, and every history length 1-12; non-trivial: the fit was not skipped",
          assumptions=["'reproduced closely' means rms error below 0.15 dex (0.25 dex without a mass-range cut)"])
