"""C15 independence of Monte Carlo draws: whole-population correlation matrices over every key of an enumerated range."""
import importlib

import numpy as np
import pop
import ref
import vlib

T0 = 13.8
LGT0 = float(np.log10(T0))
RHO = dict(rho_logtc_logm0=-0.29, rho_early_logm0=0.28, rho_early_logtc=-0.17, rho_late_logm0=0.18, rho_late_logtc=-0.05,
           rho_late_early=0.08)
QN = ("logm0", "logtc", "early", "late")
SIG = 6.0
SEED = 0


def api(kind):
    m = importlib.import_module("diffmah.diffmahpop_kernels.mc_bimod_" + kind)
    c = kind[:3]
    return getattr(m, f"mc_diffmah_{c}pop"), getattr(m, f"mc_{c}pop")


def corr_of(par):
    R = np.eye(4)
    for i in range(4):
        for j in range(i):
            R[i, j] = R[j, i] = getattr(par, f"rho_{QN[i]}_{QN[j]}")
    return R


def unbound(P):
    """(5, ...) bounded -> (4, ...) unbounded, reference definition in float64."""
    P = np.asarray(P, dtype=float)
    out = []
    for i, n in enumerate(ref.PNAMES[:4]):
        lo, hi = ref.BOUNDS[n]
        if n == "early_index":
            out.append(ref.inv_sigmoid(P[i], 0.0, 0.1, P[3], hi))
        else:
            out.append(ref.inv_sigmoid(P[i], 0.5 * (lo + hi), 0.1, lo, hi))
    return np.array(out)


def far():
    """Early and late populations far apart in the early index, so that a draw tells its population."""
    f = pop.bounds_by_family()["early_index"]
    return pop.at_fracs({k: (0.98 if k.endswith("_alpha") else 0.02) for k in f if "_x0" not in k})


def unit(base=None, rho=True):
    cov = pop.bounds_by_family()["cov"]
    v = {k: 1.0 for k in cov if k.startswith("std_")}
    v.update(RHO if rho else {k: 0.0 for k in RHO})
    return pop.at_fracs({}, base, **v)


def rank(x):
    """Ranks, equal values sharing their mean rank."""
    u, inv, n = np.unique(x, return_inverse=True, return_counts=True)
    return (np.cumsum(n) - 0.5 * (n + 1))[inv]


def independence(ctx, label, V, names, expect, what):
    """V: (variables, samples). Correlations of values, ranks and sizes equal the expected ones within SIG sigmas."""
    N = V.shape[1]
    R = np.array([rank(v) / N - 0.5 for v in V])
    A = np.array([abs(r) for r in R])
    for kind, X, Y in (("value", V, V), ("rank", R, R), ("rank-size", R, A), ("size", A, A)):
        with np.errstate(invalid="ignore"):
            C = np.corrcoef(np.concatenate([X, Y]))[: len(X), len(X):] if X is not Y else np.corrcoef(X)
        for i in range(len(names)):
            for j in range(len(names)):
                if i == j or (j > i and X is Y):
                    continue
                e = expect.get((names[i], names[j]), expect.get((names[j], names[i])))
                ctx.count()
                if e is not None and kind != "value":
                    continue
                e = 0.0 if e is None else e
                c = C[i, j]
                if not np.isfinite(c) and "flag" in names[i] + names[j] and kind != "value":
                    continue
                if not abs(c - e) < SIG / np.sqrt(N) + (0.02 if e else 0):
                    ctx.fail(f"{label}:dependent:{_strip(names[i])}~{_strip(names[j])}",
                             f"{kind} correlation of {names[i]} and {names[j]} over {N} {what} is {c:.3f}, expected {e:.3f}")
        for i in range(len(names)):
            ctx.nontrivial(label, names[i])


def _strip(n):
    return n.split("@")[0]


def _joint(ctx, kind):
    """All draws of a small population, over an enumerated range of keys."""
    import jax
    import jax.random as jran

    mc, _ = api(kind)
    n, K = 3, 10000 if not ctx.thorough else 40000
    lg, tob = np.array([12.0, 13.1, 12.0]), np.array([9.0, 6.0, 9.0])
    A, B = unit(), pop.calm(unit(), std=0.0101)
    keys = jran.split(jran.key(SEED), 2 * K)
    fA = jax.jit(jax.vmap(lambda k: tuple(mc(A, lg, tob, k, LGT0))))
    fB = jax.jit(jax.vmap(lambda k, t: tuple(mc(B, lg, tob, k, LGT0, t_peak=t))))
    fG = jax.jit(jax.vmap(lambda k: tuple(mc(A, lg, tob, k, LGT0, t_peak=0.8 * tob))))
    ok, r = ctx.call("joint", fA, keys[:K])
    if not ok:
        return
    E, L = np.array([np.asarray(x, float) for x in r[1]]), np.array([np.asarray(x, float) for x in r[2]])
    fl, tp = np.asarray(r[4]), E[4]
    ok, b = ctx.call("joint", fB, keys[K:], tp)
    ok2, g = ctx.call("joint", fG, keys[:K])
    if not (ok and ok2):
        return
    zE = unbound(E) - unbound([np.asarray(x, float) for x in b[1]])
    zL = unbound(L) - unbound([np.asarray(x, float) for x in b[2]])
    V, names, expect = [], [], {}
    R = corr_of(A)
    for h in range(n):
        for q, z in (("E", zE), ("L", zL)):
            for i in range(4):
                V.append(z[i, :, h])
                names.append(f"{q}:{QN[i]}@{h}")
            for i in range(4):
                for j in range(i):
                    expect[(f"{q}:{QN[i]}@{h}", f"{q}:{QN[j]}@{h}")] = R[i, j]
        V += [tp[:, h], fl[:, h].astype(float)]
        names += [f"t_peak@{h}", f"flag@{h}"]
    V = np.array(V)
    if not np.isfinite(V).all():
        ctx.fail("joint:nonfinite", "non-finite draws")
        return
    independence(ctx, "joint", V, names, expect, "keys")
    for i, nm in enumerate(names):
        if "t_peak" in nm or "flag" in nm:
            continue
        m, s = V[i].mean(), V[i].std()
        ctx.count()
        if abs(m) > SIG / np.sqrt(K) or abs(s - 1) > SIG / np.sqrt(2 * K):
            ctx.fail(f"joint:marginal:{_strip(nm)}", f"scatter of {nm} has mean {m:.3f} and spread {s:.3f}, expected 0 and 1")
    # given peak times: same requirements
    EG, LG_ = np.array([np.asarray(x, float) for x in g[1]]), np.array([np.asarray(x, float) for x in g[2]])
    flg = np.asarray(g[4]).astype(float)
    V2, n2 = [], []
    uE, uL = unbound(EG), unbound(LG_)
    for h in range(n):
        for q, z in (("E", uE), ("L", uL)):
            for i in range(4):
                V2.append(z[i, :, h])
                n2.append(f"{q}:{QN[i]}@{h}")
        V2.append(flg[:, h])
        n2.append(f"flag@{h}")
    independence(ctx, "joint-given", np.array(V2), n2, expect, "keys")
    # halos 0 and 2 have identical inputs: never identical draws; different keys never repeat a draw
    for q, P in (("early", E), ("late", L)):
        same = (P[:4, :, 0] == P[:4, :, 2]).all(axis=0)
        ctx.count(K)
        if same.any():
            ctx.fail(f"joint:identical-halos:{q}", f"halos with identical inputs get identical parameters for {same.sum()} of {K} keys")
        u = np.unique(P[:4, :, 0], axis=1).shape[1]
        if u < K * 0.99:
            ctx.fail(f"joint:repeated-keys:{q}", f"only {u} distinct draws over {K} keys")
    if (tp[:, 0] == tp[:, 2]).mean() > 0.5:
        ctx.fail("joint:identical-t_peak", "halos with identical inputs get identical peak times")
    ctx.extra.update(keys=K, variables=len(names))
    ctx.sample(lgm_obs=lg.tolist(), t_obs=tob.tolist(), keys=K, correlations=len(names) * (len(names) - 1) // 2)


def joint_cens(ctx):
    _joint(ctx, "cens")


def joint_sats(ctx):
    _joint(ctx, "sats")


def _hist(ctx, kind):
    """The same for the populations with histories, where only the selected draw is visible."""
    import jax
    import jax.random as jran

    mc, mch = api(kind)
    n, K = 3, 10000 if not ctx.thorough else 40000
    lg, tob = np.array([12.2, 13.0, 12.2]), np.array([9.0, 6.0, 9.0])
    tarr = np.array([5.0])
    A = unit(far(), rho=False)
    B = pop.calm(A, std=0.0101)
    keys = jran.split(jran.key(SEED + 1), 2 * K)
    fA = jax.jit(jax.vmap(lambda k: tuple(mch(A, tarr, lg, tob, k, LGT0)[0])))
    fB = jax.jit(jax.vmap(lambda k, t: tuple(mc(B, lg, tob, k, LGT0, t_peak=t))))
    ok, r = ctx.call("hist", fA, keys[:K])
    if not ok:
        return
    P = np.array([np.asarray(x, float) for x in r])
    tp = P[4]
    ok, b = ctx.call("hist", fB, keys[K:], tp)
    if not ok:
        return
    mE, mL = unbound([np.asarray(x, float) for x in b[1]]), unbound([np.asarray(x, float) for x in b[2]])
    u = unbound(P)
    sep = abs(mE[2] - mL[2])
    if np.median(sep) < 6:
        ctx.note(f"early and late populations only {np.median(sep):.1f} sigmas apart")
        return
    fl = abs(u[2] - mE[2]) < abs(u[2] - mL[2])
    z = u - np.where(fl[None], mE, mL)
    V, names = [], []
    for h in range(n):
        for i in range(4):
            V.append(z[i, :, h])
            names.append(f"z:{QN[i]}@{h}")
        V += [tp[:, h], fl[:, h].astype(float)]
        names += [f"t_peak@{h}", f"flag@{h}"]
    V = np.array(V)
    independence(ctx, "hist", V, names, {}, "keys")
    fe = np.asarray(b[3], float)[0]
    for h in range(n):
        f = fl[:, h].mean()
        ctx.count()
        if abs(f - fe[h]) > SIG * np.sqrt(fe[h] * (1 - fe[h]) / K) + 0.004:
            ctx.fail("hist:fraction", f"fraction assigned early is {f:.3f}, modelled {fe[h]:.3f}", halo=h)
    same = (P[:4, :, 0] == P[:4, :, 2]).all(axis=0)
    if same.any():
        ctx.fail("hist:identical-halos", f"halos with identical inputs get identical parameters for {same.sum()} of {K} keys")
    ctx.extra.update(keys=K, separation=float(np.median(sep)))
    ctx.sample(lgm_obs=lg.tolist(), keys=K)


def hist_cens(ctx):
    _hist(ctx, "cens")


def hist_sats(ctx):
    _hist(ctx, "sats")


def _scatter(ctx, kind):
    """Sample covariance and early fraction of large populations at every mass/time of a lattice; all halo lags."""
    import jax.random as jran

    mc, _ = api(kind)
    masses = (9.2, 10.8, 12.0, 12.9, 13.6, 14.6, 15.7)
    n = 24500 if not ctx.thorough else 200000
    std = dict(logm0=(0.4, 1.3), logtc=(0.7, 0.3), early=(1.6, 0.9), late=(0.5, 2.2))
    x0 = dict(logm0=12.0, logtc=12.6, early=13.2, late=13.7)
    v = dict(RHO)
    for q in QN:
        v[f"std_u_{q}_ylo"], v[f"std_u_{q}_yhi"] = std[q]
        v[f"cov_lgm_x0_{q}"] = x0[q]
    par = pop.at_fracs({}, **v)
    calm = pop.calm(par, std=0.0101)
    R = corr_of(par)
    lg_all = np.repeat(masses, n // len(masses)).astype(float)
    nn = len(lg_all)
    tob = np.full(nn, 9.0)
    tp = np.full(nn, 6.0)
    for k in (0, 1) if not ctx.thorough else range(6):
        ok, r = ctx.call("scatter", mc, par, lg_all, tob, jran.key(k), LGT0, t_peak=tp)
        ok2, b = ctx.call("scatter", mc, calm, lg_all, tob, jran.key(1000 + k), LGT0, t_peak=tp)
        if not (ok and ok2):
            return
        for q, idx in (("early", 1), ("late", 2)):
            U = unbound([np.asarray(x, float) for x in r[idx]])
            M = unbound([np.asarray(x, float) for x in b[idx]])
            for m in masses:
                s = lg_all == m
                z = U[:, s] - M[:, s].mean(axis=1, keepdims=True)
                sd = np.array([float(ref.sigmoid(m, x0[a], 2.0, *std[a])) for a in QN])
                S = z @ z.T / s.sum()
                N = s.sum()
                for i in range(4):
                    for j in range(i + 1):
                        e = R[i, j] * sd[i] * sd[j]
                        tol = SIG * np.sqrt((1 + R[i, j] ** 2) / N) * sd[i] * sd[j]
                        ctx.count()
                        if not abs(S[i, j] - e) < tol + 2e-3:
                            ctx.fail(f"scatter:{q}:{QN[i]}-{QN[j]}", f"sample covariance {S[i, j]:.3f}, modelled {e:.3f} at lgm {m}", prng=k)
                ctx.nontrivial(k, q, m)
            # halos at all lags, and no repeated draws
            for i in range(4):
                z = (U[i] - U[i].mean()) / U[i].std()
                w = np.concatenate([(z[lg_all == m] - z[lg_all == m].mean()) / z[lg_all == m].std() for m in masses])
                F = np.fft.rfft(w, 2 * nn)
                ac = np.fft.irfft(abs(F) ** 2)[1: nn - 50] / np.sqrt(nn - np.arange(1, nn - 50)) / 1.0
                ctx.count(len(ac))
                if np.max(abs(ac)) > SIG + 1.5:
                    ctx.fail(f"lag:{q}:{QN[i]}", f"draws of halos at distance {int(np.argmax(abs(ac))) + 1} are correlated ({ac[np.argmax(abs(ac))]:.1f} sigma)")
            u = np.unique(np.round(U, 10), axis=1).shape[1]
            if u < nn * 0.999:
                ctx.fail(f"repeat:{q}", f"only {u} distinct parameter draws among {nn} halos")
        fl = np.asarray(r[4]).astype(float)
        a = fl - np.asarray(r[3], float)
        F = np.fft.rfft(a / a.std(), 2 * nn)
        ac = np.fft.irfft(abs(F) ** 2)[1: nn - 50] / np.sqrt(nn - np.arange(1, nn - 50))
        if np.max(abs(ac)) > SIG + 1.5:
            ctx.fail("lag:flag", f"assignments of halos at distance {int(np.argmax(abs(ac))) + 1} are correlated")
    # early fraction follows the modelled fraction at every mass and time
    cells = [(m, t) for m in (11.0, 12.2, 12.8, 14.0) for t in (2.0, 5.0, 8.0, 13.5)]
    rep = 800 if not ctx.thorough else 8000
    lg = np.repeat([c[0] for c in cells], rep)
    tt = np.repeat([c[1] for c in cells], rep)
    hi, lo = 0.73, 0.27
    for pn, fr in (("default", {}), ("rise", dict(fec_lgm_ylo_early=lo, fec_lgm_ylo_late=lo, fec_lgm_yhi_early=hi, fec_lgm_yhi_late=hi)),
                   ("time", dict(fec_lgm_ylo_early=lo, fec_lgm_ylo_late=hi, fec_lgm_yhi_early=hi, fec_lgm_yhi_late=lo))):
        par = pop.at_fracs({}, **fr)
        for k in range(4):
            ok, r = ctx.call("fraction", mc, par, lg, tt, jran.key(50 + k), LGT0)
            if not ok:
                return
            fe, fl = np.asarray(r[3], float).reshape(len(cells), rep), np.asarray(r[4]).reshape(len(cells), rep)
            ylo = ref.sigmoid(tt, par.fec_t_obs_x0, 1.0, par.fec_lgm_ylo_early, par.fec_lgm_ylo_late)
            yhi = ref.sigmoid(tt, par.fec_t_obs_x0, 1.0, par.fec_lgm_yhi_early, par.fec_lgm_yhi_late)
            want = (ylo + (yhi - ylo) / (1 + np.exp(-4.0 * (lg - par.fec_lgm_x0)))).reshape(len(cells), rep)
            for c, cell in enumerate(cells):
                f, e = fl[c].mean(), want[c, 0]
                ctx.count()
                ctx.nontrivial(pn, k, cell)
                if abs(f - e) > SIG * np.sqrt(e * (1 - e) / rep) or np.max(abs(fe[c] - e)) > 1e-4:
                    ctx.fail("fraction", f"assigned early {f:.3f}, reported {fe[c, 0]:.4f}, modelled {e:.4f} at (lgm, t)={cell}", params=pn)
    ctx.extra.update(halos=nn, masses=len(masses), cells=len(cells))
    ctx.sample(masses=list(masses), rho=RHO, std=std)


def scatter_cens(ctx):
    _scatter(ctx, "cens")


def scatter_sats(ctx):
    _scatter(ctx, "sats")


def tpeak(ctx):
    """Stand-alone peak-time samplers: draws of different halos are independent and distinct."""
    import jax
    import jax.random as jran
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens as c1
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens_flex as c2
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_sats as s1
    from diffmah.diffmahpop_kernels.t_peak_kernels import utp_pdf_kernels as ut

    n, K = 4, 10000 if not ctx.thorough else 40000
    lg, tob = np.array([12.0, 13.1, 11.2, 12.0]), np.array([9.0, 6.0, 12.0, 9.0])
    keys = jran.split(jran.key(SEED + 2), K)
    tests = [("sats", lambda k: s1.mc_tpeak_sats(s1.DEFAULT_TP_SATS_PARAMS, k, lg, tob)),
             ("cens-flex", lambda k: c2.mc_t_peak_cenpop(c2.DEFAULT_TPCENS_PARAMS, lg, tob, k, T0)),
             ("utp", lambda k: ut.mc_tp_pdf_satpop(k, ut.UTP_Params(np.array([.3, .5, .8, .3]), np.array([.2, .3, .1, .2]))))]
    if hasattr(c1, "mc_tpeak_cens"):
        tests.append(("cens", lambda k: c1.mc_tpeak_cens(c1.DEFAULT_TPCENS_PARAMS, k, lg, tob, T0)))
    for name, f in tests:
        ok, x = ctx.call(f"tpeak:{name}", jax.jit(jax.vmap(f)), keys)
        if not ok:
            continue
        x = np.asarray(x, float)
        if x.shape != (K, n):
            ctx.fail(f"tpeak:{name}:shape", f"population sample has shape {x.shape[1:]} for {n} halos")
            continue
        independence(ctx, f"tpeak:{name}", x.T, [f"t{h}@{h}" for h in range(n)], {}, "keys")
        inner = (x[:, 0] > x[:, 0].min() + 1e-6) & (x[:, 0] < x[:, 0].max() - 1e-6)
        if (x[inner, 0] == x[inner, 3]).mean() > 0.01:
            ctx.fail(f"tpeak:{name}:identical", "halos with identical inputs get identical peak times")
    ctx.sample(lgm_obs=lg.tolist(), keys=K)


def sample(ctx):
    """The sample behind one bin of the predictions: all halos distinct and independent (all lags)."""
    import jax.random as jran

    for kind in ("cens", "sats"):
        m = importlib.import_module("diffmah.diffmahpop_kernels.mc_bimod_" + kind)
        f = getattr(m, "_mc_diffmah_halo_sample", None)
        if f is None:
            ctx.note("no sample function")
            continue
        A = unit(rho=False)
        pooled = []
        for k in range(8 if not ctx.thorough else 100):
            ok, r = ctx.call(f"sample:{kind}", f, A, np.array([5.0, 9.0]), 12.3, 9.0, jran.key(k), LGT0)
            if not ok:
                break
            for q, P in (("early", r[0]), ("late", r[3])):
                u = unbound([np.asarray(x, float) for x in P])
                n = u.shape[1]
                ctx.count(n)
                ctx.nontrivial(kind, k, q)
                if np.unique(u, axis=1).shape[1] < n:
                    ctx.fail(f"sample:{kind}:repeat:{q}", f"only {np.unique(u, axis=1).shape[1]} distinct halos in a sample of {n}")
                    continue
                # scatter in mass is not explained by the peak time
                pooled.append((q, u, np.asarray(P[4], float)))
        for q in ("early", "late"):
            uu = np.concatenate([u for w, u, t in pooled if w == q], axis=1)
            rows = np.array([np.concatenate([(u - u.mean(1, keepdims=True))[3] for w, u, t in pooled if w == q]),
                             np.concatenate([t for w, u, t in pooled if w == q])])
            independence(ctx, f"sample:{kind}:{q}", rows, ["late", "t_peak"], {}, "halos")
        e = np.concatenate([u for w, u, t in pooled if w == "early"], axis=1)
        l_ = np.concatenate([u for w, u, t in pooled if w == "late"], axis=1)
        rows = np.array([e[3], l_[3]])
        independence(ctx, f"sample:{kind}:early-late", rows, ["E:late", "L:late"], {}, "halos")
    ctx.sample(n_mc=n)


X = dict(x64=True)
vlib.main(
    "C15", [("scatter_cens", scatter_cens, X), ("scatter_sats", scatter_sats, X), ("joint_cens", joint_cens, X),
            ("joint_sats", joint_sats, X), ("hist_cens", hist_cens, X), ("hist_sats", hist_sats, X), ("tpeak", tpeak, X),
            ("sample", sample, X)],
    level="exploration",
    rule="the complete correlation matrix (values, ranks and magnitudes) of every random quantity of a 3-halo population over "
         "every one of the enumerated keys; sample covariance, early fraction and all-lag autocorrelation of 20000-halo "
         "populations at every mass/time cell. A case is non-trivial per distinct random quantity or cell",
    assumptions=["dependence that leaves values, ranks and magnitudes pairwise uncorrelated is not seen",
                 "thresholds of 6 standard errors on a fixed, enumerated set of keys: verdicts are deterministic"])
