"""C19 peak-time models: CDF/PDF laws on a complete lattice, and sampling with every value of the random draw."""
import itertools
import os

import numpy as np
import vlib

F64 = bool(os.environ.get("JAX_ENABLE_X64"))
LGM = (8.2, 10.5, 11.7, 12.4, 13.3, 15.0, 16.4)
TOBS = (0.4, 1.2, 4.0, 7.5, 10.0, 13.7)
US = (0.0, 1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.03, 0.08, 0.15, 0.25, 0.35, 0.45, 0.5, 0.6, 0.7, 0.8, 0.88, 0.94, 0.98, 0.995, 0.9995,
      1 - 1e-5, 1 - 2.0 ** -23)


def have(ctx, mod, *names):
    """Whether the internal functions of the models are still there under these names (a rename is no defect)."""
    gone = [n for n in names if not hasattr(mod, n)]
    if gone:
        ctx.note(f"{mod.__name__.split('.')[-1]}: internal {', '.join(gone)} not found; judged through the samplers only")
    return not gone


def corner_params(m_bounds, cls, extra=()):
    lo = [float(b[0]) for b in m_bounds]
    hi = [float(b[1]) for b in m_bounds]
    n = len(lo)
    f = []
    for bits in itertools.product((0.0, 1.0), repeat=n):
        f.append(bits)
    f += [[0.5] * n] + list(extra)
    return [cls(*[l_ + q * (h - l_) for l_, h, q in zip(lo, hi, x)]) for x in f]


def laws(ctx, label, cdf, pdf, lo, hi, npts, tolc, tolp, case, scale):
    """cdf, pdf: array functions over x; the density is the derivative of the CDF, non-negative, normalised; 0 -> 1."""
    # grid with extra resolution so that the integral is accurate: composite Gauss-Legendre per cell
    g, w = np.polynomial.legendre.leggauss(12)
    edges = np.linspace(lo, hi, npts + 1)
    h = np.diff(edges)
    X = edges[:-1, None] + 0.5 * h[:, None] * (g + 1)
    C = np.asarray(cdf(edges), float)
    P = np.asarray(pdf(X.ravel()), float).reshape(X.shape)
    I = (P * w).sum(1) * 0.5 * h
    ctx.count(C.size + P.size)
    if not (np.isfinite(C).all() and np.isfinite(P).all()):
        ctx.fail(f"{label}:nonfinite", "non-finite density or cumulative distribution", **case)
        return
    if (np.diff(C) < -tolc).any():
        ctx.fail(f"{label}:decreasing", "cumulative distribution decreases", **case)
    if abs(C[0]) > tolc or abs(C[-1] - 1) > tolc:
        ctx.fail(f"{label}:ends", f"cumulative distribution goes from {C[0]} to {C[-1]} over its range", **case)
    if (P < 0).any():
        ctx.fail(f"{label}:negative", "negative density", **case)
    if not (abs(np.cumsum(I) - (C[1:] - C[0])) <= tolp).all():
        j = int(np.argmax(abs(np.cumsum(I) - (C[1:] - C[0]))))
        ctx.fail(f"{label}:integral", f"integral of the density up to {edges[j + 1]:.4f} is {np.cumsum(I)[j]:.6f}, the cumulative "
                 f"distribution {C[j + 1]:.6f}", **case)
    out = np.array([lo - 0.3 * (hi - lo), lo - 1e-3 * (hi - lo), hi + 1e-3 * (hi - lo), hi * 1.5])
    po, co = np.asarray(pdf(out), float), np.asarray(cdf(out), float)
    if (abs(po) > 1e-9).any() or (abs(co - [0, 0, 1, 1]) > tolc).any():
        ctx.fail(f"{label}:outside", f"outside the range the density is {po} and the cumulative distribution {co}", **case)


def truncated(ctx):
    """The truncated normal in t_peak/t_obs for every location and scale of a lattice, and its use for centrals in t_peak."""
    import jax.numpy as jnp
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens as tc
    from diffmah.diffmahpop_kernels.t_peak_kernels import utp_pdf_kernels as tpk
    from scipy.stats import truncnorm

    (l0, l1), (s0, s1) = [tuple(map(float, b)) for b in tpk.UTP_PBOUNDS]
    nl, ns = (9, 9) if not ctx.thorough else (41, 41)
    locs = np.linspace(l0, l1, nl)
    smin = max(s0, 0.01) if F64 else 0.03
    scales = np.geomspace(smin, s1, ns)
    tolc, tolp = (1e-8, 1e-6) if F64 else (3e-5, 3e-4)
    a, b = tpk.X_MIN, tpk.X_MAX
    utp = have(ctx, tpk, "_tp_cdf_kern", "_tp_pdf_kern")
    for loc, sc in itertools.product(locs, scales) if utp else ():
        p = tpk.UTP_Params(loc, sc)
        case = dict(loc=loc, scale=sc)
        npts = int(np.clip(8 / sc, 40, 400))
        npts = 40 if npts <= 40 else 200 if npts <= 200 else 400
        laws(ctx, "utp", lambda x: tpk._tp_cdf_kern(jnp.asarray(x), p), lambda x: tpk._tp_pdf_kern(jnp.asarray(x), p), a, b, npts,
             tolc, tolp, case, sc)
        x = np.linspace(a, b, 57)
        e = truncnorm.cdf(x, (a - loc) / sc, (b - loc) / sc, loc, sc)
        got = np.asarray(tpk._tp_cdf_kern(jnp.asarray(x), p), float)
        if not (abs(got - e) < (1e-7 if F64 else 1e-4)).all():
            ctx.fail("utp:truncated-normal", "cumulative distribution is not that of the truncated normal", got=got[::8], want=e[::8], **case)
        ctx.nontrivial("utp", loc, sc)
    # other truncation ranges
    for lo, hi in ((0.0, 1.0), (0.2, 0.7)) if utp else ():
        p = tpk.UTP_Params(0.6, 0.3)
        laws(ctx, "utp:range", lambda x: tpk._tp_cdf_kern(jnp.asarray(x), p, lo, hi), lambda x: tpk._tp_pdf_kern(jnp.asarray(x), p, lo, hi),
             lo, hi, 40, tolc, tolp, dict(lo=lo, hi=hi), 0.3)
    pars = corner_params(tc.TPCENS_PBOUNDS, tc.TPCens_Params)
    if not have(ctx, tc, "_t_peak_cen_cdf_singlehalo_kern", "_t_peak_cen_pdf_singlehalo_kern"):
        pars = []
    for par, lg, tob, t0 in itertools.product(pars, LGM, TOBS, (13.8, 9.0)):
        if tob > t0:
            continue
        case = dict(params=par, lgm_obs=lg, t_obs=tob, t_0=t0)
        laws(ctx, "cens", lambda x: tc._t_peak_cen_cdf_singlehalo_kern(par, lg, tob, jnp.asarray(x), t0),
             lambda x: tc._t_peak_cen_pdf_singlehalo_kern(par, lg, tob, jnp.asarray(x), t0), a * t0, b * t0, 40, tolc, tolp, case, 1)
        ctx.nontrivial("cens", par, lg, tob, t0)
    ctx.extra.update(locations=nl, scales=ns)
    ctx.sample(loc=locs[1], scale=scales[1])


def flex(ctx):
    """The sigmoid model of centrals: its cumulative fraction is non-decreasing inside [0, 1] for every corner of its box."""
    import jax.numpy as jnp
    from diffmah.diffmahpop_kernels import ftpt0_cens as ft
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens_flex as fx

    pars = corner_params(fx.TPCENS_PBOUNDS, fx.TPCens_Params)
    x = np.linspace(0, 1, 101)
    if not have(ctx, fx, "_frac_peaked_vs_lgm"):
        pars = []
    hx0, hk = have(ctx, fx, "_get_utp_x0_from_lgm"), have(ctx, fx, "_get_utp_x0_from_lgm", "_frac_peaked_kern")
    for par, lg, tob in itertools.product(pars, LGM, TOBS):
        C = np.asarray(fx._frac_peaked_vs_lgm(par, jnp.asarray(x), lg, tob), float)
        ctx.count(C.size)
        ctx.nontrivial("flex", par, lg, tob)
        lo = min(par.cen_tp_x0_ylo_early, par.cen_tp_x0_ylo_late)
        hi = max(par.cen_tp_x0_yhi_early, par.cen_tp_x0_yhi_late)
        if not (np.diff(C) > 0).all() or C.min() < 0 or C.max() > 1:
            ctx.fail("flex:cdf", "cumulative fraction is not increasing inside [0, 1]", params=par, lgm_obs=lg, t_obs=tob)
        if not hx0:
            continue
        x0 = float(fx._get_utp_x0_from_lgm(par, lg, tob))
        if not lo - 1e-5 <= x0 <= hi + 1e-5:
            ctx.fail("flex:x0", f"transition {x0} outside its early/late values", params=par, lgm_obs=lg, t_obs=tob)
        if not hk:
            continue
        K = np.asarray(fx._frac_peaked_kern(jnp.asarray(x), x0), float)
        if not np.allclose(K, C, atol=1e-5):
            ctx.fail("flex:kernel", "the two cumulative fractions of the same transition differ", params=par, lgm_obs=lg, t_obs=tob)
    pars = corner_params(ft.FTPT0_PBOUNDS, ft.FTPT0_Params)
    for par, lg, tob in itertools.product(pars, LGM + (9.0, 16.0), TOBS + (0.3,)):
        v = float(ft._ftpt0_kernel(par, lg, tob))
        lo, hi = ft.FTPT0_BOUNDS
        ctx.count()
        ctx.nontrivial("ftpt0", par, lg, tob)
        if not lo - 1e-6 <= v <= hi + 1e-6:
            ctx.fail("ftpt0:bounds", f"fraction peaking today is {v}", params=par, lgm_obs=lg, t_obs=tob)
    ctx.sample(params=list(pars[3]))


class Draw:
    """Replaces jax.random.uniform by a prescribed value; counts its uses."""

    def __init__(self):
        import jax.random as jran

        self.mod, self.orig, self.n, self.u = jran, jran.uniform, 0, 0.5

    def __enter__(self):
        def uniform(key, shape=(), *a, **kw):
            import jax.numpy as jnp

            self.n += 1
            mn = kw.get("minval", a[1] if len(a) > 1 else 0.0)
            mx = kw.get("maxval", a[2] if len(a) > 2 else 1.0)
            return jnp.full(shape, mn + (mx - mn) * self.u)

        self.mod.uniform = uniform
        return self

    def __exit__(self, *a):
        self.mod.uniform = self.orig


def sampling(ctx):
    """Every sampler with every value of the draw: inverse of the model's CDF, in range, monotone, halo by halo."""
    import jax
    import jax.numpy as jnp
    import jax.random as jran
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens as tc
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens_flex as fx
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_sats as ts
    from diffmah.diffmahpop_kernels.t_peak_kernels import utp_pdf_kernels as tpk

    grid = np.array(list(itertools.product(LGM, TOBS)))
    lg, tob = grid[:, 0].copy(), grid[:, 1].copy()
    n = len(lg)
    t0 = 15.1   # not the default age, so that a built-in one shows
    a, b = tpk.X_MIN, tpk.X_MAX
    slack = 3e-4 if not F64 else 2e-4   # the table leaves out EPS at both ends of the range
    key = jran.key(0)

    from scipy.stats import truncnorm

    def truncated_cdf(loc, sc):
        return lambda x: truncnorm.cdf(np.asarray(x, float), (a - loc) / sc, (b - loc) / sc, loc, sc)

    def quick_corners(bounds, cls, k):
        ps = corner_params(bounds, cls)
        return ps if ctx.thorough else ps[:: max(1, len(ps) // k)] + [ps[-1], ps[-2]]

    cases = []
    hc, hf = have(ctx, tc, "_t_peak_cen_cdf_singlehalo_kern"), have(ctx, fx, "_frac_peaked_vs_lgm")
    for p in quick_corners(ts.TP_SATS_BOUNDS, ts.TP_Sats_Params, 12) + [ts.DEFAULT_TP_SATS_PARAMS]:
        loc, sc = np.asarray(ts._get_utp_loc(p, lg, tob), float), np.asarray(ts._get_utp_scale(p, lg, tob), float)
        c = truncated_cdf(loc, sc)
        cases.append(("sats", p, lambda p=p: ts.mc_tpeak_sats(p, key, lg, tob), tob, a, b, c,
                      lambda i, p=p: ts.mc_tpeak_singlesat(p, key, lg[i], tob[i])))
    for p in quick_corners(tc.TPCENS_PBOUNDS, tc.TPCens_Params, 8) + [tc.DEFAULT_TPCENS_PARAMS]:
        c = (lambda x, p=p: np.asarray(tc._t_peak_cen_cdf_singlehalo_kern(p, lg, tob, jnp.asarray(x) * t0, t0), float)) if hc else None
        cases.append(("cens", p, lambda p=p: tc.mc_tpeak_cens(p, key, lg, tob, t0), np.full(n, t0), a, b, c,
                      lambda i, p=p: tc.mc_tpeak_singlecen(p, key, lg[i], tob[i], t0)))
    for p in quick_corners(fx.TPCENS_PBOUNDS, fx.TPCens_Params, 10) + [fx.DEFAULT_TPCENS_PARAMS]:
        c = (lambda x, p=p: np.asarray(fx._frac_peaked_vs_lgm(p, jnp.asarray(x), lg, tob), float)) if hf else None
        cases.append(("cens-flex", p, lambda p=p: fx.mc_t_peak_cenpop(p, lg, tob, key, t0), np.full(n, t0), fx.UTP_MIN, 1.0, c,
                      lambda i, p=p: fx.mc_tpeak_singlecen(p, lg[i], tob[i], key, t0)))
    locs, scs = [q.ravel() for q in np.meshgrid(np.linspace(0.11, 0.99, 8), np.geomspace(0.02, 1.0, 6))]
    P = tpk.UTP_Params(locs, scs)
    cases.append(("utp", "lattice", lambda: tpk.mc_tp_pdf_satpop(key, P), np.ones(len(locs)), a, b, truncated_cdf(locs, scs),
                  lambda i: tpk.mc_tp_pdf_singlesat(key, tpk.UTP_Params(locs[i], scs[i]))))
    for name, p, f, unit, lo, hi, cdf, single in cases:
        with jax.disable_jit(), Draw() as d:
            def at(u):
                d.u = u
                return f()

            got = None
            try:
                got = list(np.asarray(jax.vmap(at)(jnp.asarray(US)), float))   # all draws at once
                ok = True
            except Exception:
                pass
            if got is None:
                got = []
                for u in US:
                    ok, x = ctx.call(f"{name}:sample", at, u)
                    if not ok:
                        break
                    got.append(np.asarray(x, float))
            for u in (0.25, 0.94) if ok else ():
                d.u = u
                x = got[US.index(u)]
                for i in (0, len(unit) // 2, len(unit) - 1):
                    ok1, y = ctx.call(f"{name}:single", single, i)
                    if ok1 and abs(float(y) - x[i]) > 1e-4 * unit[i]:
                        ctx.fail(f"{name}:single", f"halo {i} alone is given t_peak {y}, in a population {x[i]}", params=p, draw=u)
        if not ok:
            continue
        if not d.n:
            ctx.note("uniform draws not interceptable")
            continue
        T = np.array(got)
        if T.shape != (len(US), len(unit)):
            ctx.fail(f"{name}:shape", f"sample has shape {T.shape[1:]} for {len(unit)} halos")
            continue
        X = T / unit
        ctx.count(X.size)
        ctx.nontrivial(name, p)
        if not np.isfinite(X).all() or (X < lo - 1e-6).any() or (X > hi + 1e-6).any():
            i, j = np.argwhere(~(np.isfinite(X) & (X >= lo - 1e-6) & (X <= hi + 1e-6)))[0]
            ctx.fail(f"{name}:range", f"sampled fraction {X[i, j]} outside ({lo}, {hi}) at draw {US[i]}", params=p)
            continue
        if (np.diff(X, axis=0) < -1e-6).any():
            i, j = np.argwhere(np.diff(X, axis=0) < -1e-6)[0]
            ctx.fail(f"{name}:not-monotone", f"peak time falls from {X[i, j]} to {X[i + 1, j]} as the draw grows from {US[i]} to {US[i + 1]}", params=p)
        for i, u in enumerate(US) if cdf is not None else ():
            x = X[i]
            c = cdf(x)
            tol = 5e-4 if u <= 1e-3 or u >= 0.9995 else 3e-3   # in the tails the table is finer than the draw
            # either the CDF at the sample is the draw, or the sample sits at the end of the range on the right side
            low = (x <= lo + slack) & (c >= u - tol)
            high = (x >= hi - slack) & (c <= u + tol)
            bad = ~((abs(c - u) <= tol) | low | high)
            if bad.any():
                j = int(np.flatnonzero(bad)[0])
                ctx.fail(f"{name}:inverse", f"at draw {u} halo {j} gets fraction {x[j]:.5f} whose cumulative distribution is {c[j]:.5f}",
                         params=p, halo=j)
                break
    ctx.extra.update(samplers=4, draws=len(US), cases=len(cases))
    ctx.sample(draws=list(US)[:8], sampler=cases[0][0])


def keys(ctx):
    """Real keys: every halo of a population follows its own parameters' distribution, and only its own inputs matter."""
    import jax.random as jran
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens as tc
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens_flex as fx
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_sats as ts
    from diffmah.diffmahpop_kernels.t_peak_kernels import utp_pdf_kernels as tpk

    N = 3000 if not ctx.thorough else 50000
    cells = [(lg, t) for lg in (11.2, 12.8, 14.2) for t in (2.0, 6.0, 12.0)]
    lg = np.repeat([c[0] for c in cells], N)
    tob = np.repeat([c[1] for c in cells], N)
    perm = np.random.RandomState(0).permutation(len(lg))
    lg, tob = lg[perm], tob[perm]
    t0 = 15.1   # not the default age, so that a built-in one shows
    a, b = tpk.X_MIN, tpk.X_MAX
    from scipy.stats import truncnorm

    def tn(x, loc, sc):
        return truncnorm.cdf(x, (a - loc) / sc, (b - loc) / sc, loc, sc)

    S = [("sats", lambda k: ts.mc_tpeak_sats(ts.DEFAULT_TP_SATS_PARAMS, k, lg, tob) / tob,
          lambda x, l_, t: tn(x, float(ts._get_utp_loc(ts.DEFAULT_TP_SATS_PARAMS, l_, t)),
                              float(ts._get_utp_scale(ts.DEFAULT_TP_SATS_PARAMS, l_, t))), 0.1),
         ("cens", lambda k: tc.mc_tpeak_cens(tc.DEFAULT_TPCENS_PARAMS, k, lg, tob, t0) / t0,
          lambda x, l_, t: np.asarray(tc._t_peak_cen_cdf_singlehalo_kern(tc.DEFAULT_TPCENS_PARAMS, l_, t, x * t0, t0)), 0.1),
         ("cens-flex", lambda k: fx.mc_t_peak_cenpop(fx.DEFAULT_TPCENS_PARAMS, lg, tob, k, t0) / t0,
          lambda x, l_, t: np.asarray(fx._frac_peaked_vs_lgm(fx.DEFAULT_TPCENS_PARAMS, x, l_, t)), 0.05)]
    present = dict(zip(("sats", "cens", "cens-flex"), (True, have(ctx, tc, "_t_peak_cen_cdf_singlehalo_kern"),
                                                       have(ctx, fx, "_frac_peaked_vs_lgm"))))
    for name, f, cdf, lo in [q for q in S if present[q[0]]]:
        for k in (0, 1) if not ctx.thorough else range(5):
            ok, x = ctx.call(f"{name}:keys", f, jran.key(k))
            if not ok:
                break
            x = np.asarray(x, float)
            ctx.count(len(x))
            if (x <= 0).any() or (x > 1 + 1e-9).any():
                ctx.fail(f"{name}:keys:range", f"sampled fractions {x.min()}..{x.max()}")
            for c in cells:
                s = (lg == c[0]) & (tob == c[1])
                y = np.sort(x[s])
                ctx.nontrivial(name, k, c)
                q = np.linspace(lo + 0.05, 0.98, 30)
                emp = np.searchsorted(y, q) / len(y)
                e = np.array([float(cdf(v, *c)) for v in q])
                ks = np.max(abs(emp - e))
                if ks > 2.7 / np.sqrt(s.sum()) + 2e-3:
                    ctx.fail(f"{name}:keys:distribution", f"sampled distribution departs from the model by {ks:.3f}", cell=c)
    ctx.sample(cells=cells[:3], halos=len(lg))


X = dict(x64=True)
vlib.main(
    "C19", [("sampling64", sampling, X), ("truncated64", truncated, X), ("sampling32", sampling), ("truncated32", truncated), ("flex", flex),
            ("keys", keys, X)],
    level="exploration",
    rule="distribution laws for every (location, scale) of a lattice and every corner of every parameter box x mass x time; every "
         "sampler run with each of 23 prescribed draws from 0 to 1-2^-23 for every parameter corner and halo of the lattice, plus "
         "large keyed populations; a case is non-trivial per distinct parameter set",
    assumptions=["the uniform draw is intercepted at jax.random.uniform", "tabulated inverses agree with the CDF to 3e-3, to 5e-4 in the tails"])
