"""C05 gradients of histories and fit losses: finite everywhere, equal to slopes where smooth."""
import itertools
import os

import numpy as np
import vlib

LOGM0 = (0.5, 8.0, 12.0, 15.7, 16.99)
LOGTC = (-0.98, -0.4, 0.05, 0.6, 0.99)
EL = ((2.6, 0.13), (9.9, 0.11), (9.9, 4.95), (1.2, 1.2), (0.11, 0.105), (5.0, 1.0), (0.4, 3.0))
TP = (0.06, 0.5, 2.0, 5.0, 9.7, 13.8, 19.9)
TIMES = (0.03, 0.2, 0.5, 1.0, 2.0, 3.7, 5.0, 9.7, 12.0, 13.8, 15.0)
LGT0 = tuple(float(np.log10(x)) for x in (13.8, 9.7, 2.0))


def x64():
    return bool(os.environ.get("JAX_ENABLE_X64"))


def histories(ctx):
    import jax
    import ref
    from diffmah import DiffmahParams, logmh_at_t_obs, mah_halopop, mah_singlehalo

    dt = np.float64 if x64() else np.float32
    rows = np.array([(a, b, e, l, tp) for a, b, (e, l), tp in itertools.product(LOGM0, LOGTC, EL, TP)], dtype=dt)
    times = np.array(TIMES, dt)
    if ctx.thorough:
        times = np.unique(np.concatenate([times, np.geomspace(0.02, 20, 60).astype(dt)]))
    P = DiffmahParams(*[rows[:, i].copy() for i in range(5)])

    def f_rate(p, t, l):
        return mah_singlehalo(p, t.reshape(1), l)[0][0]

    def f_mass(p, t, l):
        return mah_singlehalo(p, t.reshape(1), l)[1][0]

    def f_obs(p, t, l):
        return logmh_at_t_obs(p, t, l)

    rtol, atol = (2e-5, 1e-7) if x64() else (3e-3, 3e-4)
    for name, fn in (("rate", f_rate), ("log_mah", f_mass), ("logmh_at_t_obs", f_obs)):
        reff = ref.dmhdt if name == "rate" else ref.log_mah
        for mode in ("rev", "fwd"):
            if mode == "fwd" and name != "log_mah":
                continue
            g = jax.grad(fn) if mode == "rev" else jax.jacfwd(fn)
            bulk = jax.jit(jax.vmap(jax.vmap(g, in_axes=(None, 0, None)), in_axes=(0, None, None)))
            for lgt0 in LGT0:
                ok, J = ctx.call(f"{name}:grad", bulk, P, times, lgt0)
                if not ok:
                    continue
                J = np.stack([np.asarray(x, float) for x in J], -1)  # halo, time, param
                lg = float(dt(lgt0))
                p64 = rows.astype(float)
                cols = [p64[:, i:i + 1] for i in range(5)]
                tt = times.astype(float)[None, :]
                tp = cols[4]
                ctx.count(J.size)
                for i in range(0, len(rows), 2):
                    ctx.nontrivial(name, mode, lgt0, i)
                v0 = np.abs(reff(cols, tt, lg))
                scale0 = v0 + (10.0 ** ref.log_mah_noq(cols, tt, lg) / tt / 1e9 if name == "rate" else 1.0)
                for k in range(5):
                    jk = J[..., k]
                    if not np.isfinite(jk).all():
                        # values beyond float32 range are not representable at all
                        bad = ~np.isfinite(jk) & (scale0 < 1e30)
                        if bad.any():
                            i, j = np.argwhere(bad)[0]
                            ctx.fail(f"{name}:{mode}:nonfinite:{ref.PNAMES[k]}", "gradient not finite",
                                     halo=rows[i], t=times[j], lgt0=lgt0)
                            continue
                    h = 1e-5 * np.maximum(1.0, np.abs(cols[k]))
                    if k == 4:
                        h = 1e-6 * cols[4]
                    up, dn = list(cols), list(cols)
                    up[k], dn[k] = cols[k] + h, cols[k] - h
                    fd = (reff(up, tt, lg) - reff(dn, tt, lg)) / (2 * h)
                    fd = np.broadcast_to(fd, jk.shape)
                    smooth = np.broadcast_to(np.abs(tt - tp) > 5e-6 * tp, jk.shape) if k == 4 else np.ones(jk.shape, bool)
                    scale = np.broadcast_to(scale0, jk.shape) * (20 if not x64() else 1)
                    bad = smooth & ~(np.abs(jk - fd) <= rtol * np.abs(fd) + (atol + rtol * 0.02) * scale + 1e-30)
                    if bad.any():
                        i, j = np.argwhere(bad)[0]
                        reg = "before" if tt[0, j] < tp[i, 0] else ("at" if tt[0, j] == tp[i, 0] else "after")
                        ctx.fail(f"{name}:{mode}:{ref.PNAMES[k]}:{reg}", "gradient is not the slope of the function",
                                 halo=rows[i], t=times[j], lgt0=lgt0, grad=jk[i, j], slope=fd[i, j])
    # gradient of a whole population evaluation with respect to per-halo parameters
    sub = rows[:: 97]
    Q = DiffmahParams(*[sub[:, i].copy() for i in range(5)])
    ok, G = ctx.call("halopop:grad", jax.grad(lambda q: (mah_halopop(q, times, LGT0[0])[1]).sum()), Q)
    if ok:
        G = np.stack([np.asarray(x, float) for x in G], -1)
        S = np.stack([np.asarray(x, float) for x in jax.vmap(jax.grad(lambda q: mah_singlehalo(q, times, LGT0[0])[1].sum()))(Q)], -1)
        ctx.count(G.size)
        if not (np.isfinite(G).all() and np.allclose(G, S, rtol=1e-3, atol=1e-3)):
            ctx.fail("halopop", "population gradient differs from single-halo gradients")
    ctx.sample(halo=rows[33], times=times[:6])


def fitloss(ctx):
    """value-and-gradient that drives the individual fit, for targets x starting points."""
    import jax
    import diffmah.fitting_helpers.diffmah_fitter_helpers as dfh
    from diffmah import diffmah_kernels as dk

    fn = dfh.loss_and_grads_kern
    t = np.array([1.0, 1.9, 3.3, 5.2, 7.7, 10.1, 12.0, 13.8])
    logt0 = float(np.log10(13.8))
    pn = dfh.VARIED_MAH_PARAMS._fields
    upn = dfh.VariedDiffmahUParams._fields
    targets = []
    for lgm, shape, tpk in itertools.product((9.0, 12.3, 15.0), ((2.6, 0.13, 0.05), (6.0, 1.5, 0.5), (1.5, 1.0, -0.7)),
                                             (2.5, 9.0, 13.8)):
        p = dk.DiffmahParams(lgm, shape[2], shape[0], shape[1], tpk)
        y = np.asarray(dk.mah_singlehalo(p, t, logt0)[1], float)
        targets.append((t, y, tpk))
        if ctx.thorough:
            for n in (3, 5):
                targets.append((t[-n:], y[-n:], tpk))
    targets += [(t[:3], np.array([11.0, 11.5, 12.0]), 3.3), (t, np.full(8, 12.0), 1.0),
                (t, np.linspace(2, 14, 8), 13.8)]
    fr = (0.03, 0.35, 0.72, 0.97)
    starts = []
    for f in itertools.product(fr, (0.05, 0.5, 0.9), (0.05, 0.4, 0.95), (0.01, 0.3, 0.95)):
        late = 0.1 + 4.9 * f[3]
        starts.append((17 * f[0], -1 + 2 * f[1], late + f[2] * (10 - late), late))
    starts.append(tuple(float(getattr(dk.DEFAULT_MAH_PARAMS, k)) for k in pn))
    U0 = []
    for s in starts:
        for tpk in (13.8,):
            u = dk.get_unbounded_mah_params(dk.DiffmahParams(*s, tpk))
            U0.append([float(x) for x in u[:4]])
    U0 = np.array(U0)
    far = np.array([(a, b, c, d) for a in (-500.0, 0.0, 600.0) for b in (-800.0, 3.0, 900.0)
                    for c in (-700.0, 5.0, 800.0) for d in (-300.0, -5.0, 900.0)])
    far = np.concatenate([far, [q for q in itertools.product((-3e4, 5.0, 3e4), repeat=4)],
                          [q for q in itertools.product((-1e6, 1e6), repeat=4)]])
    tptab = {}
    for tpk in sorted({x[2] for x in targets}):
        tptab[tpk] = float(dk.get_unbounded_mah_params(dk.DEFAULT_MAH_PARAMS._replace(t_peak=tpk)).u_t_peak)
    dt = np.float64 if x64() else np.float32
    allu = np.concatenate([U0, far])

    def one(u, tt, y, utp, l0):
        return fn(dfh.VariedDiffmahUParams(*[u[k] for k in range(4)]), dfh.DiffmahFitLossData(tt, y, utp, l0))

    ax = (0, None, None, None, None)
    f = jax.jit(jax.vmap(one, in_axes=ax))
    fv = jax.jit(jax.vmap(lambda *a: one(*a)[0], in_axes=ax))
    for it, (tt, y, tpk) in enumerate(targets):
        data = dfh.DiffmahFitLossData(tt, y, tptab[tpk], logt0)
        ok, r = ctx.call("loss_and_grads", f, allu.astype(dt), *[np.asarray(q, dt) for q in data])
        if not ok:
            return
        v = np.asarray(r[0], float)
        g = np.stack([np.asarray(x, float) for x in r[1]], -1)
        ctx.count(g.size)
        for i in range(len(U0)):
            ctx.nontrivial("fit", it, i)
        if not (np.isfinite(v).all() and np.isfinite(g).all()):
            i = int(np.flatnonzero(~(np.isfinite(v) & np.isfinite(g).all(1)))[0])
            ctx.fail("fit:nonfinite", "loss or gradient not finite", u=allu[i], loss=v[i], grad=g[i], target=y)
        # slopes, always evaluated in double precision
        with jax.enable_x64(True):
            d64 = [np.asarray(np.asarray(q, dt), np.float64) for q in data]
            base = allu.astype(dt).astype(np.float64)
            for k in range(4):
                h = np.zeros(4)
                h[k] = 2e-4
                fd = (np.asarray(fv(base + h, *d64), float) - np.asarray(fv(base - h, *d64), float)) / 4e-4
                gs = np.abs(g).max(1)
                tol = (2e-5 * np.abs(fd) + 1e-7 * (1 + v) + 1e-6 * gs) if x64() else \
                    (5e-3 * np.abs(fd) + 2e-5 * (1 + v) + 1e-3 * gs)
                bad = ~(np.abs(g[:, k] - fd) <= tol)
                if bad.any():
                    i = int(np.flatnonzero(bad)[0])
                    ctx.fail(f"fit:slope:{upn[k]}", "gradient is not the slope of the fit loss", u=allu[i],
                             grad=g[i, k], slope=fd[i], target=y, t=tt)
        # plain calls as the optimiser makes them
        for i in (0, len(U0) - 1, len(allu) - 1):
            ok, r1 = ctx.call("loss_and_grads:plain", fn, allu[i], data)
            ctx.count()
            if ok:
                g1 = np.asarray(r1[1], float)
                if g1.shape != (4,) or not np.allclose(g1, g[i], rtol=1e-3, atol=1e-4 * (1 + np.abs(g[i]).max())) \
                        or not np.isclose(float(r1[0]), v[i], rtol=1e-3, atol=1e-6):
                    ctx.fail("fit:plain", "plain call differs from bulk", plain=g1, bulk=g[i])
    # starting points that reproduce their target to the last bit (and their neighbours)
    nzero = 0
    full = np.linspace(0.8, 13.8, 12)
    for u in list(allu[::5][:30]) + [U0[-1]]:
        for tt in (t, t[-3:], full):
            for tpk in (2.5, 13.8):
                utp = tptab.get(tpk) or float(dk.get_unbounded_mah_params(dk.DEFAULT_MAH_PARAMS._replace(t_peak=tpk)).u_t_peak)
                up = dk.DiffmahUParams(*[float(x) for x in u], utp)
                y = np.asarray(dk._log_mah_kern_u_params(up, tt, logt0))
                for y0 in (y, np.nextafter(y, np.inf)):
                    ok, r1 = ctx.call("loss_and_grads:exact", fn, u, dfh.DiffmahFitLossData(tt, y0, utp, logt0))
                    ctx.count()
                    if ok:
                        g1 = np.asarray(r1[1], float)
                        nzero += float(r1[0]) == 0.0
                        if not (np.isfinite(g1).all() and np.isfinite(float(r1[0])) and abs(float(r1[0])) < 1e-8
                                and np.abs(g1).max() < 1e-2):
                            ctx.fail("fit:exact", "loss or gradient wrong where the start reproduces the target", u=u,
                                     grad=g1, loss=float(r1[0]), target=y0, t=tt)
    if nzero < 20:
        ctx.note("fewer than 20 starts with exactly zero loss")
    ctx.extra.update(targets=len(targets), starts=len(allu), exact_zero_losses=nzero)
    ctx.sample(u=U0[5], target=targets[3][1])


def _pop_data(kind):
    import jax.random as jran

    nt = 5
    lg = np.array([11.3, 13.2, 14.8])
    tob = np.array([13.0, 6.0, 3.0])
    tarr = np.array([np.linspace(0.8, x, nt) for x in tob])
    mu = lg[:, None] + np.linspace(-2.2, 0, nt)[None, :]
    sd = np.tile(np.linspace(0.6, 0.08, nt), (3, 1))
    fp = np.full((3, nt), 0.5)
    key = jran.key(3)
    lgt0 = float(np.log10(13.8))
    if kind == "censat":
        return (tarr, lg, tob, tarr[:2] * 1.0, lg[:2] - 0.3, tob[:2], key, lgt0, mu, sd, fp, mu[:2] - 0.2, sd[:2], fp[:2])
    return (tarr, lg, tob, key, lgt0, mu, sd, fp)


def _pop(ctx, kind):
    import jax
    from diffmah.diffmahpop_kernels import (bimod_cens_fithelp, bimod_censat_fithelp, bimod_sats_fithelp)
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp

    U0 = bcp.DEFAULT_DIFFMAHPOP_U_PARAMS
    names = U0._fields
    n = len(names)
    data = _pop_data(kind)
    unb = True
    if kind == "cens":
        vg = lambda p: bimod_cens_fithelp.loss_and_grads_mah_moments_multibin(p, data)
        val = lambda p: bimod_cens_fithelp.loss_mah_moments_multibin_u_params(p, data)
    elif kind == "sats":
        vg = lambda p: bimod_sats_fithelp.loss_and_grads_mah_moments_multibin(p, *data)
        val = lambda p: bimod_sats_fithelp.loss_mah_moments_multibin(p, *data)
        unb = False
    else:
        vg = lambda p: bimod_censat_fithelp.loss_and_grads_mah_moments_multibin_censat_u_params(p, data)
        val = lambda p: bimod_censat_fithelp.loss_mah_moments_multibin_censat_u_params(p, data)
    jvg = jax.jit(vg)
    bulk = jax.jit(jax.vmap(lambda row: val(type(P0)(*[row[i] for i in range(n)]))))
    u0 = np.array([float(x) for x in U0])
    pts = [u0]
    f = np.modf(0.37 + 0.6180339887 * np.arange(n))[0] - 0.5
    pts += [u0 + 6 * f, u0 - 9 * f]
    if ctx.thorough:
        pts += [u0 + 14 * np.roll(f, 11), u0 - 14 * np.roll(f, 29), u0 + 3 * np.roll(f, 50)]
    nslope = len(pts)
    if unb:   # far out, where only finiteness can be judged
        pts += [u0 + 3000 * f, u0 + np.where(np.arange(n) % 2, -1e4, 1e4), u0 - np.where(np.arange(n) % 3, -1e4, 1e4)]
    P0 = U0 if unb else bcp.DEFAULT_DIFFMAHPOP_PARAMS
    names = P0._fields
    for ip, u in enumerate(pts):
        if unb:
            x, hs = u, np.ones(n)
        else:
            p = bcp.get_diffmahpop_params_from_u_params(type(U0)(*u))
            x = np.array([float(v) for v in p])
            hs = np.maximum(0.02, np.abs(x)) * 0.02
        ok, r = ctx.call(f"{kind}:grad", jvg, type(P0)(*x))
        if not ok:
            return
        v, g = float(r[0]), np.array([float(q) for q in r[1]])
        ctx.count(n)
        for i in range(n):
            ctx.nontrivial(kind, ip, i)
        if not np.isfinite(v) or not np.isfinite(g).all():
            ctx.fail(f"{kind}:nonfinite", "population loss or gradient not finite", point=ip, loss=v,
                     params=[names[i] for i in np.flatnonzero(~np.isfinite(g))])
            continue
        if not x64() or ip >= nslope:
            continue
        good = np.zeros(n, bool)
        slopes = []
        for h in (1e-3, 1e-4, 1e-5):
            H = np.diag(hs * h)
            up = np.asarray(bulk(x + H), float)
            dn = np.asarray(bulk(x - H), float)
            fd = (up - dn) / (2 * hs * h)
            slopes.append(fd)
            good |= np.abs(g - fd) <= 2e-3 * np.abs(fd) + 1e-6 * (np.abs(g).max()) + 1e-9 / h * 1e-4
        for i in np.flatnonzero(~good):
            ctx.fail(f"{kind}:slope:{names[i]}", "gradient is not the slope of the population loss", point=ip,
                     grad=g[i], slopes=[s[i] for s in slopes])
    ctx.sample(kind=kind, loss=v, grad=g[:6])


def pop_cens(ctx):
    _pop(ctx, "cens")


def pop_sats(ctx):
    _pop(ctx, "sats")


def pop_censat(ctx):
    _pop(ctx, "censat")


P = []
for nm, fn in (("pop_censat", pop_censat), ("pop_cens", pop_cens), ("pop_sats", pop_sats)):
    P += [(nm + "64", fn, dict(x64=True))]
for nm, fn in (("histories", histories), ("fitloss", fitloss)):
    P += [(nm + "32", fn), (nm + "64", fn, dict(x64=True))]
P.append(("pop_censat32", pop_censat, dict(thorough_only=True)))
vlib.main("C05", P, level="exploration",
          rule="complete lattice halos x times x parameters (reverse and forward mode), fit targets x starting points x "
               "varied parameters, and all 113 population parameters x points; slopes by central differences of the "
               "double-precision function; non-trivial: every (halo, age), (target, start) and (point, parameter)",
          assumptions=["the derivative with respect to the peak time exactly at the kink is only required to be finite"])
