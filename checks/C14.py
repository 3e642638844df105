"""C14 Monte Carlo populations: lattice of inputs x keys x parameters x peak-time mode, both populations."""
import itertools
import os

import numpy as np
import pop
import ref
import vlib

F64 = bool(os.environ.get("JAX_ENABLE_X64"))
TINY = 1e-9 if F64 else 1e-4
T0 = 13.8
LGT0 = float(np.log10(T0))
LGM = (8.4, 10.5, 11.4, 12.3, 13.2, 14.1, 15.0, 16.3)
TOBS = (0.5, 1.5, 3.0, 5.5, 9.0, 13.0, 13.7)


def api(kind):
    import importlib

    m = importlib.import_module("diffmah.diffmahpop_kernels.mc_bimod_" + kind)
    c = kind[:3]
    return getattr(m, f"mc_diffmah_{c}pop"), getattr(m, f"mc_{c}pop")


def param_points(thorough):
    pts = [("default", pop.default()), ("calm", pop.calm()), ("spread0", pop.spread(0)), ("spread1", pop.spread(1)),
           ("wide", pop.at_fracs({}, pop.spread(2), **{k: 60.0 for k in pop.bounds() if k.startswith("std_")}))]
    if thorough:
        fam = pop.bounds_by_family()
        for f in fam:
            if f in ("cov",) or f.startswith("logm0"):
                continue
            pts += [(f"{f}-{q}", pop.at_fracs({k: q for k in fam[f]})) for q in (0.03, 0.97)]
        pts += [(f"spread{s}", pop.spread(s)) for s in range(3, 12)]
        pts += [(f"rho{s}", pop.at_fracs({k: f for k in fam["cov"] if k.startswith("rho")})) for s, f in enumerate((.02, .98))]
    return pts


def cols(p):
    return np.array([np.asarray(x, dtype=float) for x in p])


def judge_params(ctx, label, P, n, tmax, case, t_peak=None):
    """Bounds, index order, peak-time range; P has shape (5, n)."""
    if P.shape != (5, n):
        ctx.fail(f"{label}:shape", f"parameters have shape {P.shape} for {n} halos", **case)
        return False
    ctx.count(n)
    if not np.isfinite(P).all():
        ctx.fail(f"{label}:nonfinite", f"{np.sum(~np.isfinite(P))} non-finite parameters", **case)
        return False
    for i, name in enumerate(ref.PNAMES):
        lo, hi = ref.BOUNDS[name]
        w = TINY * (hi - lo)
        bad = (P[i] < lo - w) | (P[i] > hi + w)
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            ctx.fail(f"{label}:bounds:{name}", f"{name}={P[i, j]} outside {lo, hi}", halo=j, **case)
    bad = P[2] < P[3] - 10 * TINY
    if bad.any():
        j = int(np.flatnonzero(bad)[0])
        ctx.fail(f"{label}:index-order", f"early index {P[2, j]} below late index {P[3, j]}", halo=j, **case)
    bad = (P[4] <= 0) | (P[4] > np.asarray(tmax) * (1 + 10 * TINY))
    if t_peak is None and bad.any():
        j = int(np.flatnonzero(bad)[0])
        ctx.fail(f"{label}:t_peak-range", f"peak time {P[4, j]} not in (0, {np.broadcast_to(tmax, (n,))[j]}]", halo=j, **case)
    if t_peak is not None and not np.allclose(P[4], t_peak, rtol=20 * TINY, atol=20 * TINY):
        j = int(np.argmax(abs(P[4] - t_peak)))
        ctx.fail(f"{label}:t_peak-given", f"peak time {P[4, j]} but the caller gave {t_peak[j]}", halo=j, **case)
    return True


def _pops(ctx, kind):
    import jax
    import jax.random as jran

    mc, _ = api(kind)
    dt = np.float64 if F64 else np.float32
    grid = np.array(list(itertools.product(LGM, TOBS)), dtype=dt)
    grid = np.concatenate([grid, grid[::5]])          # repeated inputs too
    lg, tob = np.ascontiguousarray(grid[:, 0]), np.ascontiguousarray(grid[:, 1])
    n = len(lg)
    given = (0.06 + 0.93 * np.modf(0.37 + 0.618034 * np.arange(n))[0]) * tob
    # also after the observation time and the present day
    given = np.where(np.arange(n) % 3 == 1, np.minimum(given + 0.9 * tob, 19.0), np.maximum(given, 0.08)).astype(dt)
    keys = (0, 1, 2, 3) if not ctx.thorough else tuple(range(24))
    fam = pop.bounds_by_family()["fec"]
    flags = []
    for (pn, par), t_0 in itertools.product(param_points(ctx.thorough), (T0, 14.3)):
        if t_0 != T0 and pn != "default":
            continue
        lgt0 = float(np.log10(t_0))
        tmax = t_0 if kind == "cens" else tob
        fr_lo = min(getattr(par, k) for k in fam if "_lgm_y" in k)
        fr_hi = max(getattr(par, k) for k in fam if "_lgm_y" in k)
        for k, mode in itertools.product(keys, ("drawn", "given")):
            case = dict(params=pn, key=k, mode=mode, t_0=t_0)
            tp = given if mode == "given" else None
            ok, r = ctx.call(f"{mode}", mc, par, lg, tob, jran.key(k), lgt0, t_peak=tp)
            if not ok:
                return
            E, L, M = cols(r.mah_params_early), cols(r.mah_params_late), cols(r.mah_params)
            fe, fl = np.asarray(r.frac_early_cens, float), np.asarray(r.mc_early)
            for q, A in (("early", E), ("late", L), ("selected", M)):
                if not judge_params(ctx, f"{mode}:{q}", A, n, tmax, case, tp):
                    return
            if fl.shape != (n,) or fl.dtype != bool or fe.shape != (n,):
                ctx.fail(f"{mode}:flags", f"selection flag {fl.dtype} {fl.shape}, fraction {fe.shape}", **case)
                return
            want = np.where(fl[None], E, L)
            if not np.array_equal(M, want):
                i, j = np.argwhere(M != want)[0]
                ctx.fail(f"{mode}:mixed:{ref.PNAMES[i]}", f"halo {j}: {ref.PNAMES[i]}={M[i, j]}, early draw {E[i, j]}, "
                         f"late draw {L[i, j]}, flag {fl[j]}", **case)
            if not ((fe > 0) & (fe < 1)).all() or fe.min() < fr_lo - 1e-5 or fe.max() > fr_hi + 1e-5:
                ctx.fail(f"{mode}:fraction", f"early fraction {fe.min()}..{fe.max()}, parameters {fr_lo}..{fr_hi}", **case)
            flags.append(fl)
            # halos with the same inputs have the same early fraction, and distinct draws
            ctx.nontrivial(pn, k, mode, t_0)
            ok, r2 = ctx.call("again", mc, par, lg, tob, jran.key(k), lgt0, t_peak=tp)
            if ok and not all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in
                              zip(jax.tree_util.tree_leaves(r), jax.tree_util.tree_leaves(r2))):
                ctx.fail(f"{mode}:not-reproducible", "same key and inputs, different population", **case)
    flags = np.array(flags)
    if not (flags.any(axis=0) & ~flags.all(axis=0)).any():
        ctx.fail("flags-constant", "no halo is ever assigned to both populations over all keys")
    ctx.extra.update(halos=n, keys=len(keys), flags_true=float(flags.mean()))
    ctx.sample(lgm_obs=lg[:6].tolist(), t_obs=tob[:6].tolist(), key=0)


def pops_cens(ctx):
    _pops(ctx, "cens")


def pops_sats(ctx):
    _pops(ctx, "sats")


def _order(ctx, kind):
    """Changing one halo's inputs changes that halo only; one halo per input in order; sizes 1-5."""
    import jax.random as jran

    mc, mch = api(kind)
    par = pop.default()
    tarr = np.linspace(0.6, 13.5, 7)
    sizes = (1, 2, 3, 5) if not ctx.thorough else (1, 2, 3, 4, 5, 7, 9)
    for n, k in itertools.product(sizes, (0, 5)):
        lg = np.array([12.0, 14.2, 11.1, 13.0, 12.5, 11.7, 14.9, 12.9, 11.3][:n])
        tob = np.array([9.0, 4.0, 12.0, 6.0, 13.2, 2.0, 10.0, 5.0, 7.7][:n])
        tp = 0.8 * tob
        for mode in ("drawn", "given", "history"):
            def run(a, b, c):
                if mode == "history":
                    r = mch(par, tarr, a, b, jran.key(k), LGT0)
                    return np.concatenate([cols(r.mah_params), np.asarray(r.log_mah, float).T, np.asarray(r.dmhdt, float).T])
                r = mc(par, a, b, jran.key(k), LGT0, t_peak=c if mode == "given" else None)
                return np.concatenate([cols(r.mah_params), cols(r.mah_params_early), cols(r.mah_params_late),
                                       np.asarray(r.frac_early_cens, float)[None], np.asarray(r.mc_early, float)[None]])
            ok, base = ctx.call(f"{mode}:n{n}", run, lg, tob, tp)
            if not ok:
                return
            ctx.count()
            if base.shape[1] != n:
                ctx.fail(f"{mode}:size", f"{base.shape[1]} halos for {n} inputs")
                return
            for j in range(n):
                ch = np.arange(n) == j
                variants = [("lgm_obs", lg + 0.4 * ch, tob, tp), ("t_obs", lg, tob + 0.7 * ch, tp)]
                if mode == "given":
                    variants.append(("t_peak", lg, tob, tp - 0.3 * ch))
                for what, a, b, c in variants:
                    ok, r = ctx.call(f"{mode}:n{n}", run, a, b, c)
                    if not ok:
                        return
                    ctx.count()
                    if not np.allclose(np.delete(r, j, 1), np.delete(base, j, 1), rtol=1e-6, atol=0):
                        ctx.fail(f"{mode}:other-halo:{what}", f"changing {what} of halo {j} of {n} changes another halo", key=k)
                    if np.array_equal(r[:5, j], base[:5, j]):
                        ctx.fail(f"{mode}:no-effect:{what}", f"changing {what} of halo {j} of {n} does not change that halo", key=k)
                    ctx.nontrivial(n, k, mode, j, what)
    ctx.sample(sizes=list(sizes))


def order_cens(ctx):
    _order(ctx, "cens")


def order_sats(ctx):
    _order(ctx, "sats")


def _hist(ctx, kind):
    """mc_cenpop / mc_satpop: histories are those of the returned parameters, which come whole from one draw."""
    import jax.random as jran

    mc, mch = api(kind)
    lg = np.array(list(LGM) * 3)
    tob = np.repeat([3.0, 8.0, 13.0], len(LGM))
    n = len(lg)
    tarr = np.concatenate([[0.2, 0.5, 1.0, 2.0], np.linspace(3, 14.5, 8)])
    keys = (0, 1, 2) if not ctx.thorough else tuple(range(20))
    b = pop.bounds()
    # early and late means as far apart as the bounds allow, with the smallest scatter
    far = {k: (0.97 if k.endswith(("_alpha", "_early", "_early_sats")) else 0.03) for f in ("early_index", "late_index", "logtc")
           for k in pop.bounds_by_family()[f] if "_x0" not in k}
    sep = pop.calm(pop.at_fracs(far), std=0.011)
    pts = param_points(ctx.thorough) + [("separated", sep)]
    both = 0
    for (pn, par), k in itertools.product(pts, keys):
        t_0 = (T0, 14.3, 13.2)[k % 3]
        lgt0 = float(np.log10(t_0))
        case = dict(params=pn, key=k, today=t_0)
        ok, r = ctx.call("hist", mch, par, tarr, lg, tob, jran.key(k), lgt0)
        if not ok:
            return
        P = cols(r.mah_params)
        if not judge_params(ctx, "hist", P, n, t_0 if kind == "cens" else tob, case):
            return
        lgm, rate = np.asarray(r.log_mah, float), np.asarray(r.dmhdt, float)
        if lgm.shape != (n, len(tarr)) or rate.shape != lgm.shape:
            ctx.fail("hist:shape", f"history shapes {lgm.shape} {rate.shape}")
            return
        p = [x[:, None] for x in P]
        el, er = ref.log_mah(p, tarr[None], lgt0), ref.dmhdt(p, tarr[None], lgt0)
        bad = ~(abs(lgm - el) <= (1e-8 if F64 else 2e-5) * (60 + abs(el)))
        if bad.any():
            i, j = np.argwhere(bad)[0]
            ctx.fail("hist:log_mah", f"history {lgm[i, j]} but the returned parameters give {el[i, j]}", halo=int(i), t=tarr[j], **case)
        edge = abs(tarr[None] - p[4]) < 1e-3
        bad = ~(abs(rate - er) <= (1e-6 if F64 else 5e-3) * abs(er) + 1e-6 * 10.0 ** (P[0][:, None] - 10)) & ~edge
        if bad.any():
            i, j = np.argwhere(bad)[0]
            ctx.fail("hist:dmhdt", f"rate {rate[i, j]} but the returned parameters give {er[i, j]}", halo=int(i), t=tarr[j], **case)
        ctx.nontrivial(pn, k)
        ok, r2 = ctx.call("hist", mch, par, tarr, lg, tob, jran.key(k), lgt0)
        if ok and not (np.array_equal(r2.log_mah, r.log_mah) and np.array_equal(cols(r2.mah_params), P)):
            ctx.fail("hist:not-reproducible", "same key, different histories", **case)
        if pn == "separated":
            # reference draws give each population's band per halo and parameter
            E, L = [], []
            for kk in range(12):
                q = mc(par, lg, tob, jran.key(100 + kk), lgt0, t_peak=P[4])
                E.append(cols(q.mah_params_early)[:4])
                L.append(cols(q.mah_params_late)[:4])
            E, L = np.array(E), np.array(L)
            votes = []
            for i in range(4):
                for j in range(n):
                    e, l_, x = E[:, i, j], L[:, i, j], P[i, j]
                    gap = abs(e.mean() - l_.mean()) / (e.std() + l_.std() + 1e-9)
                    if gap > 12:
                        votes.append((j, i, abs(x - e.mean()) < abs(x - l_.mean())))
            for j in range(n):
                v = [w for q, i, w in votes if q == j]
                ctx.count(len(v))
                if len(v) > 1:
                    both += 1
                if len(set(v)) > 1:
                    ctx.fail("hist:mixed", "parameters of one halo come partly from the early and partly from the late draw",
                             halo=j, votes=[(ref.PNAMES[i], bool(w)) for q, i, w in votes if q == j], **case)
    ctx.extra.update(separable_halos=both)
    if not both:
        ctx.note("no halo with separable early and late draws")
    ctx.sample(t=tarr.tolist())


def hist_cens(ctx):
    _hist(ctx, "cens")


def hist_sats(ctx):
    _hist(ctx, "sats")


def select(ctx):
    """mc_select_diffmah_params for every flag pattern of up to 6 halos."""
    from diffmah import DEFAULT_MAH_PARAMS
    from diffmah.diffmahpop_kernels.param_utils import mc_select_diffmah_params as sel

    for n in range(1, 7):
        A = np.arange(5 * n).reshape(5, n) + 1.25
        B = -A - 0.5
        p1, p0 = DEFAULT_MAH_PARAMS._make(A), DEFAULT_MAH_PARAMS._make(B)
        flag_patterns(ctx, sel, DEFAULT_MAH_PARAMS, n, A, B, p1, p0)
    # scalars
    for b in (True, False):
        ok, r = ctx.call("select", sel, DEFAULT_MAH_PARAMS._make(A[:, 0]), DEFAULT_MAH_PARAMS._make(B[:, 0]), b)
        if ok and not np.array_equal(cols(r), (A if b else B)[:, 0]):
            ctx.fail("select:scalar", "scalar selection wrong", flag=b)
    ctx.sample(n=6)


def flag_patterns(ctx, sel, DEFAULT_MAH_PARAMS, n, A, B, p1, p0):
    for bits in itertools.product((False, True), repeat=n):
        for f in (np.array(bits), np.array(bits).astype(int)):
            ok, r = ctx.call("select", sel, p1, p0, f)
            if not ok:
                return
            ctx.count()
            if r._fields != DEFAULT_MAH_PARAMS._fields or not np.array_equal(cols(r), np.where(np.array(bits), A, B)):
                ctx.fail("select", "selected parameters differ from the flagged ones", flags=bits, got=cols(r))
        if 0 < sum(bits) < n:
            ctx.nontrivial(n, bits)


X = dict(x64=True)
vlib.main(
    "C14", [("hist_cens32", hist_cens), ("hist_sats32", hist_sats), ("order_cens", order_cens, X), ("order_sats", order_sats, X),
            ("pops_cens32", pops_cens), ("pops_sats32", pops_sats), ("pops_cens64", pops_cens, X),
            ("pops_sats64", pops_sats, X), ("select", select), ("hist_cens64", hist_cens, dict(x64=True, thorough_only=True)),
            ("hist_sats64", hist_sats, dict(x64=True, thorough_only=True))],
    level="exploration",
    rule="every combination of 36+8 (mass, time) inputs x random keys x parameter points x drawn/given peak times x both "
         "populations; every single-input change at every position for every size; every flag pattern of up to 6 halos. A case "
         "is non-trivial when it is a distinct (parameters, key, mode) population or a distinct flag pattern with both values",
    assumptions=["random keys enumerated from 0; parameters on a lattice of points",
                 "the peak time passes through the unbounded space, so given values are compared to rounding"])
