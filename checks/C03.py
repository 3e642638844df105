"""C03 bounded <-> unbounded halo parameters: full-factorial lattice, scalar and array evaluation."""
import itertools
import os

import numpy as np
import ref
import vlib

NAMES = ref.PNAMES
B = [ref.BOUNDS[k] for k in NAMES]


def _dt():
    return np.float64 if os.environ.get("JAX_ENABLE_X64") else np.float32


def _mods():
    import diffmah.diffmah_kernels as dk

    return dk


def _ulat(big):
    u = [-1e6, -3e4, -400.0, -150.0, -60.0, -31.0, -12.0, -3.3, 0.0, 0.4, 2.1, 7.7, 19.0, 44.0, 90.0, 260.0, 5e4, 1e6]
    return u if big else [-400.0, -60.0, -12.0, 0.4, 7.7, 44.0, 260.0]


def forward(ctx):
    """Every unbounded vector of the lattice: bounds, floor, monotonicity and independence."""
    dk = _mods()
    dt = _dt()
    axes = [_ulat(ctx.thorough)] * 5
    if not ctx.thorough:
        axes = [[-400.0, -31.0, 0.4, 12.0, 44.0, 260.0, 5e4]] * 5
    g = np.array(list(itertools.product(*axes)), dtype=dt)
    ok, p = ctx.call("bounded", dk.get_bounded_mah_params, dk.DiffmahUParams(*[g[:, i].copy() for i in range(5)]))
    if not ok:
        return
    if getattr(p, "_fields", None) != NAMES:
        ctx.fail("fields", f"result fields {getattr(p, '_fields', None)}")
        return
    a = np.stack([np.asarray(x, float) for x in p], axis=1)
    ctx.count(len(g))
    for i in range(0, len(g), 3):
        ctx.nontrivial("f", i)
    eps = 2e-6 if dt == np.float32 else 1e-12
    for k in range(5):
        lo, hi = B[k]
        w = hi - lo
        bad = ~((a[:, k] >= lo - eps * w) & (a[:, k] <= hi + eps * w))
        if bad.any():
            ctx.fail(f"bounds:{NAMES[k]}", "unbounded vector maps outside the bounds", u=g[bad][0], p=a[bad][0])
    bad = ~(a[:, 2] >= a[:, 3] - eps)
    if bad.any():
        ctx.fail("early<late", "early index below late index", u=g[bad][0], p=a[bad][0])
    shp = tuple(len(x) for x in axes)
    cube = a.reshape(shp + (5,))
    for k in range(5):
        lo, hi = B[k]
        d = np.diff(cube[..., k], axis=k)
        tol = eps * (hi - lo)
        if (d < -tol).any():
            ctx.fail(f"monotone:{NAMES[k]}", "not increasing with its own unbounded counterpart")
        # strictly increasing where neither end is saturated
        v0 = np.take(cube[..., k], range(shp[k] - 1), axis=k)
        v1 = np.take(cube[..., k], range(1, shp[k]), axis=k)
        flo = cube[..., 3] if k == 2 else np.full(shp, lo)
        flo = np.take(flo, range(1, shp[k]), axis=k)
        inner = (v1 > flo + 1e-3 * (hi - flo)) & (v0 < hi - 1e-3 * (hi - flo))
        if (inner & (d <= 0)).any():
            ctx.fail(f"strict:{NAMES[k]}", "constant although not at a bound")
        for j in range(5):
            if j == k or (k == 2 and j == 3):
                continue
            dj = np.abs(np.diff(cube[..., k], axis=j))
            if (dj > tol).any():
                ctx.fail(f"coupling:{NAMES[k]}<-{NAMES[j]}", f"{NAMES[k]} depends on u_{NAMES[j]}",
                         size=float(dj.max()))
    # early index depends on the late one only through its floor: early->late as u_early -> -inf, ->10 as +inf
    lo_end = cube[:, :, 0, :, :, 2] - cube[:, :, 0, :, :, 3]
    hi_end = cube[:, :, -1, :, :, 2]
    if np.abs(lo_end).max() > 1e-3 or np.abs(hi_end - B[2][1]).max() > 1e-3:
        ctx.fail("floor", "late index is not the floor (or 10 not the ceiling) of the early index")
    d = np.diff(cube[..., 2], axis=3)
    if (d < -1e-5).any():
        ctx.fail("floor-monotone", "raising the floor lowers the early index")
    # scalars: same values as the array evaluation
    step = max(1, len(g) // 600)
    for i in range(0, len(g), step):
        ok, q = ctx.call("bounded:scalar", dk.get_bounded_mah_params, dk.DiffmahUParams(*[dt(x) for x in g[i]]))
        ctx.count()
        if ok:
            v = np.array([np.asarray(x, float) for x in q])
            if v.shape != (5,) or not np.allclose(v, a[i], rtol=0, atol=4 * eps * 20):
                ctx.fail("scalar-vs-array", "scalar and array evaluation differ", u=g[i], scalar=v, array=a[i])
    ctx.sample(u=g[1234], p=a[1234])


def roundtrip(ctx):
    dk = _mods()
    dt = _dt()
    fr = (0.004, 0.02, 0.11, 0.27, 0.5, 0.63, 0.81, 0.97, 0.996)
    fe = (0.004, 0.02, 0.2, 0.5, 0.77, 0.98, 0.996)
    rows = []
    for f in itertools.product(fr, fr, fe, fr, fr):
        v = [lo + x * (hi - lo) for (lo, hi), x in zip(B, f)]
        v[2] = v[3] + f[2] * (B[2][1] - v[3])  # early above late
        rows.append(v)
    g = np.array(rows, dtype=dt)
    if not ctx.thorough:
        g = g[:: 2]
    # right up to the bounds: one, two or all parameters close to an end of their range
    near = [1e-4, 1e-3] + ([1e-9, 1e-7, 1e-5] if dt == np.float64 else [])
    near = sorted(near + [1 - x for x in near])
    base = (0.37, 0.55, 0.3, 0.45, 0.61)
    rows = [[12.0, 0.05, 2.6137643, 0.12692805, 14.0]]
    for ks in [c for n in (1, 2) for c in itertools.combinations(range(5), n)] + [tuple(range(5))]:
        for f in itertools.product(near, repeat=len(ks)) if len(ks) < 5 else [(x,) * 5 for x in near]:
            v = list(base)
            for k, x in zip(ks, f):
                v[k] = x
            v = [lo + x * (hi - lo) for (lo, hi), x in zip(B, v)]
            x = f[ks.index(2)] if 2 in ks else base[2]
            v[2] = v[3] + x * (B[2][1] - v[3])
            rows.append(v)
    g = np.concatenate([g, np.array(rows, dtype=dt)])
    tol = 3e-5 if dt == np.float32 else 1e-10
    P = dk.DiffmahParams(*[g[:, i].copy() for i in range(5)])
    ok, u = ctx.call("unbounded", dk.get_unbounded_mah_params, P)
    if not ok:
        return
    if getattr(u, "_fields", None) != tuple("u_" + n for n in NAMES):
        ctx.fail("ufields", f"result fields {getattr(u, '_fields', None)}")
    ok, q = ctx.call("bounded", dk.get_bounded_mah_params, u)
    if not ok:
        return
    q = np.stack([np.asarray(x, float) for x in q], axis=1)
    ua = np.stack([np.asarray(x, float) for x in u], axis=1)
    ctx.count(len(g))
    for i in range(0, len(g), 5):
        ctx.nontrivial("r", i)
    if not np.isfinite(ua).all():
        i = np.argwhere(~np.isfinite(ua))[0]
        ctx.fail("nonfinite-u", "in-bounds parameters map to non-finite unbounded ones", p=g[i[0]], u=ua[i[0]])
    for k in range(5):
        w = B[k][1] - B[k][0]
        bad = ~(np.abs(q[:, k] - g[:, k].astype(float)) <= tol * w)
        if bad.any():
            ctx.fail(f"roundtrip:{NAMES[k]}", "bounded->unbounded->bounded does not return the value",
                     p=g[bad][0], back=q[bad][0])
    step = max(1, len(g) // 500)
    for i in range(0, len(g), step):
        ok, us = ctx.call("unbounded:scalar", dk.get_unbounded_mah_params, dk.DiffmahParams(*[dt(x) for x in g[i]]))
        ctx.count()
        if not ok:
            continue
        back = np.array([np.asarray(x, float) for x in dk.get_bounded_mah_params(us)])
        if back.shape != (5,) or not np.all(np.abs(back - g[i].astype(float)) <= tol * np.array([b[1] - b[0] for b in B])):
            ctx.fail("roundtrip:scalar", "scalar round trip differs", p=g[i], back=back)
    # every array length up to 8 gives the same element-wise result
    for n in range(1, 9):
        sub = g[100:100 + n]
        u1 = dk.get_unbounded_mah_params(dk.DiffmahParams(*[sub[:, i].copy() for i in range(5)]))
        b1 = dk.get_bounded_mah_params(u1)
        arr = np.stack([np.asarray(x, float) for x in b1], axis=1)
        ctx.count()
        if arr.shape != sub.shape or not np.allclose(arr, sub.astype(float), atol=20 * tol, rtol=0):
            ctx.fail(f"roundtrip:n{n}", f"array of {n} halos does not round-trip", got=arr, want=sub)
    # unbounded -> bounded -> unbounded where the map is well conditioned
    ug = np.array(list(itertools.product((-25.0, -8.0, 0.0, 3.0, 14.0, 30.0), repeat=5)), dtype=dt)
    bb = dk.get_bounded_mah_params(dk.DiffmahUParams(*[ug[:, i].copy() for i in range(5)]))
    u2 = dk.get_unbounded_mah_params(bb)
    u2 = np.stack([np.asarray(x, float) for x in u2], axis=1)
    d = np.abs(u2 - ug.astype(float))
    ctx.count(len(ug))
    lim = 2e-2 if dt == np.float32 else 1e-8
    if not (d <= lim).all():
        i = np.argwhere(~(d <= lim))[0]
        ctx.fail(f"uroundtrip:{NAMES[i[1]]}", "unbounded->bounded->unbounded does not return the value",
                 u=ug[i[0]], back=u2[i[0]])
    ctx.sample(p=g[77], u=ua[77], back=q[77])


def histories(ctx):
    """Histories from unbounded parameters equal those of the bounded parameters they map to."""
    dk = _mods()
    dt = _dt()
    t = np.array([0.01, 0.1, 0.7, 2.0, 5.0, 9.7, 13.8, 16.5, 25.0], dt)
    fns = {n: getattr(dk, n, None) for n in ("_log_mah_kern_u_params", "_dmhdt_kern_u_params", "_diffmah_kern_u_params")}
    missing = [n for n, f in fns.items() if f is None]
    if missing:
        ctx.note(f"not present, skipped: {missing}")
    vals = (-40.0, -10.0, 0.0, 6.0, 25.0)

    def one(u, lgt0):
        U = dk.DiffmahUParams(*[dt(x) for x in u])
        rate, lgm = [np.asarray(x, float) for x in dk.mah_singlehalo(dk.get_bounded_mah_params(U), t, lgt0)]
        ctx.count()
        ctx.nontrivial(u)
        tol = 2e-5 if dt == np.float32 else 1e-10
        for n, f in fns.items():
            if f is None:
                continue
            ok, r = ctx.call(n, f, U, t, lgt0)
            if not ok:
                continue
            pairs = dict(_log_mah_kern_u_params=[(r, lgm)], _dmhdt_kern_u_params=[(r, rate)]).get(n) or list(zip(r, (rate, lgm)))
            for got, want in pairs:
                got = np.asarray(got, float)
                if got.shape != want.shape or not np.all(np.abs(got - want) <= 20 * tol * np.abs(want) + tol * (want is lgm)):
                    ctx.fail(n, "history from unbounded parameters differs", u=u, got=got, want=want)

    for u in itertools.product(vals, (-12.0, 0.0, 9.0), vals[1:], vals[:4], (-15.0, 8.0, 12.0, 45.0)):
        for lgt0 in [float(np.log10(x)) for x in ((13.8, 6.0) if sum(u) % 3 else (13.8,))]:
            one(u, lgt0)
    # published defaults are consistent with each other
    back = dk.get_bounded_mah_params(dk.DEFAULT_MAH_U_PARAMS)
    if not np.allclose(np.array(back, float), np.array(dk.DEFAULT_MAH_PARAMS, float), atol=1e-4):
        ctx.fail("defaults", "default unbounded parameters do not map to the defaults", got=back)
    ctx.sample(u=u)


P = []
for nm, fn in (("forward", forward), ("roundtrip", roundtrip), ("histories", histories)):
    P += [(nm + "32", fn), (nm + "64", fn, dict(x64=True))]
vlib.main("C03", P, level="exploration",
          rule="full-factorial lattice of unbounded vectors (7^5, thorough 18^5/..) and of in-bounds parameter sets, "
               "scalar and array; a case is non-trivial when counted on a distinct lattice point (subsampled 1/3, 1/5 "
               "for hashing)",
          assumptions=["lattice values; exact bound values themselves are excluded from the inverse map"])
