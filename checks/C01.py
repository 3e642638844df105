"""C01 rolling power-law growth law: complete lattice of halos x times x ages, both precisions."""
import itertools
import os

import numpy as np
import ref
import vlib

LOGM0 = (0.0, 0.7, 5.0, 8.5, 11.3, 12.0, 13.9, 15.2, 17.0)
LOGTC = (-1.0, -0.93, -0.4, 0.0, 0.05, 0.37, 0.8, 0.97, 1.0)
EARLY = (0.1, 0.35, 1.0, 2.6137643, 4.9, 7.7, 10.0)
LATE = (0.1, 0.12692805, 0.35, 1.0, 2.9, 5.0)
TPEAK = (0.05, 0.31, 1.0, 2.2, 5.0, 9.7, 12.5, 13.8, 14.0, 20.0)
T0 = (1.0, 4.5, 10.0, 13.5, 13.8, 14.0, 19.0)
TIMES = (1e-4, 0.003, 0.02, 0.05, 0.2, 0.31, 0.6, 1.0, 1.5, 2.2, 3.3, 5.0, 7.1, 9.7, 11.0, 12.5,
         13.2, 13.8, 14.0, 17.0, 20.0, 35.0, 300.0)


def _dtype():
    return np.float64 if os.environ.get("JAX_ENABLE_X64") else np.float32


def _scale_rate(p, t, lgt0):
    lgt = np.log10(t)
    s = 1 / (1 + np.exp(-ref.MAH_K * (lgt - p[1])))
    alpha = p[2] + (p[3] - p[2]) * s
    dal = (p[3] - p[2]) * ref.MAH_K * s * (1 - s)
    return 10 ** ref.log_mah_noq(p, t, lgt0) / t / 1e9 * (np.abs(dal * (lgt - lgt0)) + np.abs(alpha))


def check_arrays(ctx, label, p, t, lgt0, rate, lgm, dt):
    """p: 5 arrays (n,1); t (nt,); rate,lgm (n,nt)."""
    tol_m, tol_r = (2e-5, 3e-4) if dt == np.float32 else (1e-10, 1e-8)
    n, nt = np.broadcast_shapes(p[0].shape, t.shape)
    for nm, a in (("rate", rate), ("log_mah", lgm)):
        if a.shape != (n, nt):
            ctx.fail(f"{label}:{nm}:shape", f"shape {a.shape} expected {(n, nt)}")
            return
    pd = [x.astype(float) for x in p]
    td = t.astype(float)
    r_m, r_r = ref.log_mah(pd, td, lgt0), ref.dmhdt(pd, td, lgt0)
    span = 1 + np.abs(r_m) + np.abs(ref.log_mah_noq(pd, td, lgt0) - pd[0]) \
        + np.abs(ref.log_mah_noq(pd, pd[4], lgt0) - pd[0])
    bad = ~(np.abs(lgm - r_m) <= tol_m * span)
    regions = np.where(td < pd[4], "before", np.where(td == pd[4], "at", "after"))
    for reg in np.unique(regions[bad]):
        i, j = np.argwhere(bad & (regions == reg))[0]
        ctx.fail(f"{label}:log_mah:{reg}", "log-mass differs from the rolling power law",
                 params=[x[i, 0] for x in pd], t=td[j], lgt0=lgt0, got=lgm[i, j], expected=r_m[i, j])
    scale = np.broadcast_to(_scale_rate(pd, td, lgt0), r_r.shape)
    bad = ~(np.abs(rate - r_r) <= tol_r * span * scale + 1e-36)
    bad |= (td > pd[4]) & (rate != 0)
    for reg in np.unique(regions[bad]):
        i, j = np.argwhere(bad & (regions == reg))[0]
        ctx.fail(f"{label}:rate:{reg}", "rate is not the time derivative of the mass",
                 params=[x[i, 0] for x in pd], t=td[j], lgt0=lgt0, got=rate[i, j], expected=r_r[i, j])
    grow = (pd[2] >= pd[3])[:, 0]
    inage = td <= 10**lgt0
    bad = (rate < 0) & inage & grow[:, None]
    if bad.any():
        i, j = np.argwhere(bad)[0]
        ctx.fail(f"{label}:negative-rate", "negative accretion rate before today",
                 params=[x[i, 0] for x in pd], t=td[j], lgt0=lgt0, got=rate[i, j])
    order = np.argsort(td, kind="stable")
    order = order[inage[order]]
    d = np.diff(lgm[:, order], axis=1)
    bad = (d < -tol_m * span[:, order][:, 1:]) & grow[:, None]
    if bad.any():
        i, j = np.argwhere(bad)[0]
        ctx.fail(f"{label}:mass-decreases", "log-mass decreases with time",
                 params=[x[i, 0] for x in pd], lgt0=lgt0, step=d[i, j])
    ctx.count(n * nt)
    return regions


def lattice(ctx):
    import diffmah
    from diffmah import DiffmahParams, logmh_at_t_obs, mah_halopop

    dt = _dtype()
    grid = np.array(list(itertools.product(LOGM0, LOGTC, EARLY, LATE, TPEAK)), dtype=dt)
    base = np.array(TIMES, dtype=dt)
    edges = np.array(TPEAK, dtype=dt)
    times = np.unique(np.concatenate([base, np.nextafter(edges, dt(0)), np.nextafter(edges, dt(99))]
                                     + [(edges * (1 + s * q)).astype(dt) for s in (-1, 1) for q in (1e-4, 2e-3, 2e-2)]))
    if ctx.thorough:
        fine = np.concatenate([np.geomspace(0.01, 40, 90), np.linspace(0.1, 21, 60)]).astype(dt)
        times = np.unique(np.concatenate([times, fine]))
    cols = [grid[:, i:i + 1] for i in range(5)]
    mp = DiffmahParams(*[np.ascontiguousarray(c[:, 0]) for c in cols])
    for t0 in T0:
        lgt0 = float(np.log10(t0))
        ok, r = ctx.call(f"mah_halopop:t0={t0}", mah_halopop, mp, times, lgt0)
        if not ok:
            continue
        rate, lgm = np.asarray(r[0], dtype=float), np.asarray(r[1], dtype=float)
        for s in range(0, len(grid), 4000):
            sl = slice(s, s + 4000)
            check_arrays(ctx, "mah_halopop", [c[sl] for c in cols], times, float(dt(lgt0)), rate[sl], lgm[sl], dt)
        # a halo is non-trivial when the lattice of times straddles its peak time
        for i in np.flatnonzero((grid[:, 4] > times[0]) & (grid[:, 4] < times[-1])):
            ctx.nontrivial(i, t0)
        for j in range(0, times.size, 3):
            ok, v = ctx.call("logmh_at_t_obs", logmh_at_t_obs, mp, times[j], lgt0)
            if not ok:
                break
            v = np.asarray(v, dtype=float)
            e = ref.log_mah([c[:, 0].astype(float) for c in cols], float(times[j]), float(dt(lgt0)))
            tol = (2e-5 if dt == np.float32 else 1e-10) * (60 + np.abs(e))
            ctx.count(e.size)
            bad = ~(np.abs(v - e) <= tol) if v.shape == e.shape else np.ones(1, bool)
            if bad.any():
                i = int(np.flatnonzero(bad)[0])
                ctx.fail("logmh_at_t_obs", "mass at one time differs from the law",
                         params=grid[i].tolist(), t=float(times[j]), t0=t0)
    ctx.extra.update(halos=len(grid), times=int(times.size), ages=len(T0))
    ctx.sample(halo=grid[7].tolist(), times=times.tolist()[:8], t0=T0[3])


SINGLE = list(itertools.product((3.0, 12.0, 15.5), (-0.8, 0.05, 0.9),
                                ((2.6, 0.13), (9.5, 4.8), (1.2, 1.2), (0.4, 3.0)),
                                (0.31, 3.3, 9.7, 13.8, 20.0)))


def single(ctx):
    """One halo at a time: every order, subset length and duplicate pattern of a small time set."""
    from diffmah import DiffmahParams, mah_singlehalo

    dt = _dtype()
    pool = (0.31, 2.0, 9.7, 13.8)
    arrays = []
    for n in range(1, 5):
        arrays += [np.array(a, dtype=dt) for a in itertools.product(pool, repeat=n)] if n <= 3 else \
            [np.array(a, dtype=dt) for a in itertools.permutations(pool)]
    ages = (13.8, 6.0) if not ctx.thorough else (13.8, 6.0, 13.0, 2.0, 20.0)
    halos = SINGLE if ctx.thorough else SINGLE[::3]
    for t0 in ages:
        lgt0 = float(np.log10(t0))
        for h in halos:
            p = [dt(h[0]), dt(h[1]), dt(h[2][0]), dt(h[2][1]), dt(h[3])]
            col = [np.array([[x]]) for x in p]
            for a in arrays:
                ok, r = ctx.call("mah_singlehalo", mah_singlehalo, DiffmahParams(*p), a, lgt0)
                if not ok:
                    continue
                rate, lgm = np.asarray(r[0], dtype=float), np.asarray(r[1], dtype=float)
                if rate.shape != a.shape or lgm.shape != a.shape:
                    ctx.fail("mah_singlehalo:shape", f"{rate.shape} {lgm.shape} for times {a.shape}")
                    continue
                check_arrays(ctx, "mah_singlehalo", col, a, float(dt(lgt0)), rate[None], lgm[None], dt)
                if len(set(a)) > 1:
                    ctx.nontrivial(h, tuple(a.tolist()), t0)
    # long sorted / reversed / fine grids and a one-element grid, default halo and others
    for n in (1, 2, 17, 100, 501):
        for rev in (False, True):
            a = np.linspace(0.05, 15, n).astype(dt)[:: -1 if rev else 1]
            for h in SINGLE:
                p = [dt(h[0]), dt(h[1]), dt(h[2][0]), dt(h[2][1]), dt(h[3])]
                ok, r = ctx.call("mah_singlehalo", mah_singlehalo, DiffmahParams(*p), a, float(np.log10(13.8)))
                if ok:
                    check_arrays(ctx, "mah_singlehalo:grid", [np.array([[x]]) for x in p], a,
                                 float(dt(np.log10(13.8))), np.atleast_2d(np.asarray(r[0], float)),
                                 np.atleast_2d(np.asarray(r[1], float)), dt)
    # parameters given as python floats, numpy scalars or jax arrays give the same law
    import jax.numpy as jnp
    a = np.array([0.3, 2.0, 9.7, 13.8], dtype=dt)
    for h in SINGLE:
        raw = [float(h[0]), float(h[1]), float(h[2][0]), float(h[2][1]), float(h[3])]
        for cast in (float, np.float64, np.float32, jnp.asarray):
            for ta in (a, jnp.asarray(a), a.astype(np.float64)):
                ok, r = ctx.call("mah_singlehalo:types", mah_singlehalo,
                                 DiffmahParams(*[cast(x) for x in raw]), ta, np.log10(13.8))
                if ok:
                    f32 = dt == np.float32 or cast is np.float32
                    q = [np.array([[float(np.float32(x) if f32 else x)]]) for x in raw]
                    aa = np.asarray(ta, dtype=dt).astype(float)
                    check_arrays(ctx, "mah_singlehalo:types", q, aa, float(dt(np.log10(13.8))),
                                 np.asarray(r[0], float)[None], np.asarray(r[1], float)[None],
                                 np.float32)
    ctx.sample(halo=SINGLE[0], times=arrays[40].tolist())


vlib.main(
    "C01", [("lattice32", lattice), ("lattice64", lattice, dict(x64=True)),
            ("single32", single), ("single64", single, dict(x64=True))],
    level="exploration",
    rule="complete product lattice over (logm0, logtc, early, late, t_peak) x times x age, in float32 and "
         "float64, plus every sequence of length<=3 and every permutation of length 4 over a 4-value time "
         "alphabet for single halos; a case (halo, age) is non-trivial when its times straddle the peak time",
    assumptions=["values between lattice points are not explored",
                 "tolerances: float32 2e-5 x magnitude, float64 1e-10 x magnitude"])
