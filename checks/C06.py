"""C06 snapshot selection: every mass history over a small alphabet x every setting of the cuts."""
import itertools
import warnings

import numpy as np
import vlib

warnings.filterwarnings("ignore")
INF = float("inf")
T7 = np.array([0.6, 1.0, 2.3, 4.1, 7.7, 11.2, 13.8])


def expected(t, m, lgm_min, cut, tmin, npts_min):
    with np.errstate(divide="ignore"):
        lg = np.log10(np.asarray(m, float))
    keep = [i for i in range(len(t)) if t[i] >= tmin and lg[i] > lgm_min and lg[i] > lg[-1] - cut]
    run, out = -INF, []
    for i in keep:
        run = max(run, lg[i])
        out.append(run)
    below = sum(1 for x in out if x < out[-1]) if out else 0
    tpk = t[[i for i in range(len(m)) if m[i] == m[-1]][0]]
    return np.array([t[i] for i in keep]), np.array(out), below < npts_min, tpk, lg


class Judge:
    def __init__(self, ctx):
        import diffmah.fitting_helpers.diffmah_fitter_helpers as dfh
        from diffmah import diffmah_kernels as dk

        self.ctx, self.dfh, self.dk = ctx, dfh, dk
        self.bounds = {}

    def tpeak_of(self, u):
        k = float(u)
        if k not in self.bounds:
            p = self.dk.get_bounded_mah_params(self.dk.DEFAULT_MAH_U_PARAMS._replace(u_t_peak=k))
            self.bounds[k] = float(p.t_peak)
        return self.bounds[k]

    def judge(self, label, t, m, lgm_min, cut, tmin, npts_min, tfix, skip, data, u_p_init=None):
        ctx = self.ctx
        et, el, eskip, etp, lg = expected(t, m, lgm_min, cut, tmin, npts_min)
        tol = 1e-6 if m.dtype == np.float32 else 1e-10
        tt, ll = np.asarray(data.t_target, float), np.asarray(data.log_mah_target, float)
        case = dict(t=t.tolist(), mass=m.tolist(), lgm_min=lgm_min, dlogm_cut=cut, t_fit_min=tmin,
                    tpeak_fixed=tfix, npts_min=npts_min)
        ctx.count()
        if tt.shape != et.shape or ll.shape != tt.shape:
            ctx.fail(f"{label}:selection", f"{tt.size} snapshots used instead of {et.size}", used=tt, expected=et, **case)
            return
        if not np.allclose(tt, et, rtol=1e-6, atol=0):
            ctx.fail(f"{label}:times", "snapshots paired with other times", used=tt, expected=et, **case)
        if not np.allclose(ll, el, rtol=tol, atol=tol):
            ctx.fail(f"{label}:running-max", "target is not the running maximum of the selected log-masses", used=ll,
                     expected=el, **case)
        if skip is not None and bool(skip) != eskip:
            ctx.fail(f"{label}:skip", f"skip={bool(skip)} expected {eskip}", **case)
            return
        if eskip or skip is None and float(data.logt0) < 0:
            return
        if not abs(float(data.logt0) - np.log10(t[-1])) < 2e-6:
            ctx.fail(f"{label}:age", "present-day age is not the last input time", got=float(data.logt0), **case)
        if tfix is not None or (lg[-1] > lgm_min and np.isfinite(lg[-1])):
            want = tfix if tfix is not None else etp
            got = self.tpeak_of(data.u_t_peak)
            if not abs(got - want) <= 2e-4:
                ctx.fail(f"{label}:t_peak:{'fixed' if tfix is not None else 'measured'}",
                         f"peak time {got} expected {want}", **case)
        if u_p_init is not None and np.isfinite(lg[-1]) and lg[-1] > lgm_min:
            u = np.array([float(x) for x in u_p_init])
            if not np.isfinite(u).all():
                ctx.fail(f"{label}:start", "starting guess not finite", got=u, **case)


def _run(ctx, J, hist, t, settings, dtype=np.float64, every=7):
    g = J.dfh.get_loss_data
    for ih, h in enumerate(hist):
        m = np.array(h, dtype=dtype)
        m.flags.writeable = False
        t.flags.writeable = False
        raw = (m.tobytes(), t.tobytes())
        for js, (a, b, c, npt, tf) in enumerate(settings):
            ok, r = ctx.call("get_loss_data", g, t, m, a, b, c, npt, tf)
            if not ok:
                continue
            u, data, skip = r
            J.judge("get_loss_data", t, m, a, b, c, npt, tf, skip, data, None if skip else u)
            et = expected(t, m, a, b, c, npt)
            if 0 < et[0].size < len(t):
                ctx.nontrivial(h, a, b, c, npt, tf)
        if (m.tobytes(), t.tobytes()) != raw:
            ctx.fail("mutated", "caller's arrays were modified", mass=h)


CUTS = [(a, b, c) for a in (-INF, 11.0, 11.7) for b in (0.5, 2.0, 2.5, INF) for c in (0.0, 1.0, 3.0)]


def len5(ctx):
    J = Judge(ctx)
    al = (0.0, 1e11, 1e12, 3e12, 1e14)
    t = T7[[0, 1, 3, 5, 6]].copy()
    cuts = CUTS if ctx.thorough else [x for i, x in enumerate(CUTS) if x[2] != 0.0 or x[1] == 2.5]
    sets = [(a, b, c, 3, None) for a, b, c in cuts]
    _run(ctx, J, itertools.product(al, repeat=5), t, sets)
    ctx.sample(alphabet=al, settings=len(sets))


def short_and_options(ctx):
    """Lengths 1-4, all minimum counts, fixed peak times, 32-bit input."""
    J = Judge(ctx)
    al = (0.0, 1e11, 2e12, 1e13)
    for n in (1, 2, 3, 4):
        t = T7[7 - n:].copy()
        sets = [(a, b, c, npt, tf) for a in (-INF, 11.0) for b in (2.5, INF) for c in (0.0, float(t[-1]), 20.0)
                for npt in (1, 2, 3) for tf in (None, 4.4)]
        _run(ctx, J, itertools.product(al, repeat=n), t, sets)
    t = T7[1:].copy()
    sets = [(a, 2.5, c, npt, tf) for a in (-INF, 11.5) for c in (0.0, 2.3, 5.0) for npt in (1, 2, 3, 4) for tf in (None, 9.1)]
    _run(ctx, J, [h for h in itertools.product((1e11, 2e12, 1e13), repeat=6)][:: 1 if ctx.thorough else 5], t, sets)
    ctx.sample(lengths=[1, 2, 3, 4, 6])


def single_precision(ctx):
    """float32 masses near minimum masses that are not exactly representable."""
    J = Judge(ctx)
    t = T7[1:].copy()
    for lgm in (8.03, 8.24, 9.1, 10.0, 10.57, 11.3, 12.04):
        m0 = 10**lgm
        al = [0.0, m0 / 10, m0 / 1.2, m0 * 1.2, m0 * 30]
        hs = list(itertools.product(al, repeat=4))
        hs = [(al[0], al[1]) + h for h in hs] + [h[:2] + (al[3],) + h[2:] + (al[4],) for h in hs]
        sets = [(lgm, b, c, 3, None) for b in (2.5, INF) for c in (0.0, 2.3)]
        if not ctx.thorough:
            hs = hs[::3]
        _run(ctx, J, hs, t, sets, dtype=np.float32)
    ctx.sample(lgm_min=lgm, masses=al)


def through_fitter(ctx):
    """The same selection seen through diffmah_fitter with keyword settings and its defaults."""
    J = Judge(ctx)
    al = (0.0, 1e11, 1e12, 1e13, 1e14)
    t = T7[1:].copy()
    hs = list(itertools.product(al, repeat=6))[3:: 5 if ctx.thorough else 23]
    D = dict(lgm_min=-INF, dlogm_cut=2.5, t_fit_min=1.0)
    for h in hs:
        m = np.array(h)
        for kw in ({}, dict(lgm_min=11.5), dict(dlogm_cut=1.5), dict(t_fit_min=3.0), dict(tpeak_fixed=5.5),
                   dict(lgm_min=10.5, dlogm_cut=INF, t_fit_min=2.0, tpeak_fixed=9.0)):
            ok, r = ctx.call("diffmah_fitter", J.dfh.diffmah_fitter, t, m, force_skip_fit=True, **kw)
            if not ok:
                continue
            full = dict(D, **kw)
            tf = full.pop("tpeak_fixed", None)
            J.judge("diffmah_fitter", t, m, full["lgm_min"], full["dlogm_cut"], full["t_fit_min"], 3, tf, None, r.loss_data)
            ctx.nontrivial(h, tuple(sorted(kw.items())))
    ctx.sample(history=hs[9])


def time_tables(ctx):
    """Other time tables: past 14 Gyr, dense, starting early; cuts exactly on a snapshot or just beside it;
    prescribed peak times anywhere within the bounds, also before the first and after the last snapshot."""
    J = Judge(ctx)
    al = (1e11, 2e12, 1e13)
    tabs = [np.array([0.9, 3.0, 9.0, 14.5, 17.2, 19.8]), np.array([0.06, 0.11, 0.4, 0.9, 1.02, 1.9]),
            13.0 + 0.01 * np.arange(6), np.array([2.2, 3.7, 4.1, 6.3, 8.8, 9.1]), np.linspace(0.3, 20, 6)]
    for t in tabs:
        hs = list(itertools.product(al, repeat=6))
        sets = []
        for i in (1, 3):
            for tm in (t[i], t[i] * (1 + 1e-9), t[i] * (1 - 1e-9)):
                sets += [(a, b, float(tm), 3, tf) for a, b in ((-INF, 2.5), (11.5, INF)) for tf in (None, 12.7)]
        sets += [(-INF, 2.5, 0.0, 3, tf) for tf in (0.2, 1.0, 7.3, 13.8, 16.5, 19.5)]
        _run(ctx, J, hs[:: 3 if ctx.thorough else 17], t, sets)
    ctx.sample(table=tabs[0])


vlib.main("C06", [("len5", len5), ("time_tables", time_tables), ("short_and_options", short_and_options), ("single_precision", single_precision),
                  ("through_fitter", through_fitter)], level="exploration",
          rule="every history over the mass alphabet up to the length bound x every setting of the cuts, judged by an "
               "independent re-statement of the selection rule; non-trivial: some but not all snapshots are selected",
          assumptions=["masses that differ by less than single-precision resolution count as equal",
                       "peak time judged when the final mass is above the minimum mass"])
