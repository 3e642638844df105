"""C17 scatter covariance: every sign/size pattern of correlations, every mass, every name at its place; triangular builder."""
import itertools
import os
from collections import namedtuple

import numpy as np
import ref
import vlib

F64 = bool(os.environ.get("JAX_ENABLE_X64"))
QN = ("logm0", "logtc", "early", "late")
RHO = tuple(f"rho_{QN[i]}_{QN[j]}" for i in range(4) for j in range(i))
MASSES = (-5.0, 5.0, 9.0, 10.5, 11.5, 12.0, 12.4, 12.9, 13.3, 13.7, 14.0, 14.6, 15.5, 17.0, 30.0)
TOL = 1e-10 if F64 else 3e-5


def expected(p, lgm):
    sd = np.array([float(ref.sigmoid(lgm, p[f"cov_lgm_x0_{q}"], 2.0, p[f"std_u_{q}_ylo"], p[f"std_u_{q}_yhi"])) for q in QN])
    R = np.eye(4)
    for i in range(4):
        for j in range(i):
            R[i, j] = R[j, i] = p[f"rho_{QN[i]}_{QN[j]}"]
    return sd, R


def cov(ctx):
    import jax
    import jax.numpy as jnp
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp
    from diffmah.diffmahpop_kernels import covariance_kernels as ck

    P = ck.CovParams
    d0 = {k: float(v) for k, v in ck.DEFAULT_COV_PARAMS._asdict().items()}
    names = list(d0)
    B = {k: v for k, v in ck.COV_PBOUNDS._asdict().items()}
    rows = [d0]
    # every level combination of the six correlations with two patterns of scatters
    s1 = {f"std_u_{q}_{e}": v for (q, e), v in zip(itertools.product(QN, ("ylo", "yhi")), (.01, 100., 3., .2, 40., .5, .07, 9.))}
    x1 = {f"cov_lgm_x0_{q}": v for q, v in zip(QN, (11.5, 14.0, 12.3, 13.1))}
    lv = (-0.3, 0.0, 0.3) if not ctx.thorough else (-0.3, -0.11, 0.0, 0.2, 0.3)
    for r in itertools.product(lv, repeat=6):
        rows.append({**d0, **dict(zip(RHO, r))})
        rows.append({**d0, **s1, **x1, **dict(zip(RHO, r))})
    # every single parameter, and every pair of scatter parameters, at low / middle / high
    lines = {k: [B[k][0], 0.5 * (B[k][0] + B[k][1]), B[k][1]] if "std" not in k else [0.01, 0.3, 2.0, 100.0] for k in names}
    for k in names:
        rows += [{**d0, k: v} for v in lines[k]]
    for a, b in itertools.combinations(names, 2):
        rows += [{**d0, a: u, b: v} for u in lines[a][::2] for v in lines[b][::2]]
    X = np.array([[r[k] for k in names] for r in rows])
    f = jax.jit(jax.vmap(jax.vmap(lambda x, m: ck._get_diffmahpop_cov(P(*[x[i] for i in range(len(names))]), m), (None, 0)), (0, None)))
    ok, C = ctx.call("cov", f, jnp.asarray(X), jnp.asarray(MASSES))
    if not ok:
        return
    C = np.asarray(C, float)
    if C.shape != (len(rows), len(MASSES), 4, 4):
        ctx.fail("cov:shape", f"covariance has shape {C.shape[2:]}")
        return
    for a, r in enumerate(rows):
        for b, m in enumerate(MASSES):
            sd, R = expected(r, m)
            E = R * np.outer(sd, sd)
            c = C[a, b]
            ctx.count()
            if not np.isfinite(c).all():
                ctx.fail("cov:nonfinite", "non-finite covariance", params=r, lgm=m)
                continue
            s = np.outer(sd, sd)
            if not (abs(c - E) <= TOL * 10 * s).all():
                i, j = np.unravel_index(np.argmax(abs(c - E) / s), (4, 4))
                ctx.fail(f"cov:entry:{QN[i]}-{QN[j]}", f"covariance of {QN[i]} and {QN[j]} is {c[i, j]:.6g}, by name it is {E[i, j]:.6g}",
                         params=r, lgm=m)
            if not np.allclose(c, c.T, rtol=TOL, atol=0):
                ctx.fail("cov:asymmetric", "covariance not symmetric", params=r, lgm=m)
            w = np.linalg.eigvalsh(c / np.sqrt(np.outer(np.diag(c), np.diag(c))))
            if not w.min() > 0:
                ctx.fail("cov:not-positive", f"smallest eigenvalue of the correlation matrix is {w.min():.4f}", params=r, lgm=m)
        ctx.nontrivial(a)
    # the factor used for sampling exists
    L = np.asarray(jnp.linalg.cholesky(jnp.asarray(C, dtype=jnp.zeros(1).dtype)))
    if not np.isfinite(L).all():
        a, b = np.argwhere(~np.isfinite(L).all(axis=(2, 3)))[0]
        ctx.fail("cov:no-factor", "the covariance has no Cholesky factor", params=rows[a], lgm=MASSES[b])
    # parameters are used by name: any field order, and the full parameter set
    full = bcp.DEFAULT_DIFFMAHPOP_PARAMS
    r = rows[700 % len(rows)]
    r = {**d0, **s1, **x1, **dict(zip(RHO, (-.29, .28, -.17, .18, -.05, .08)))}
    orders = [names[::-1], sorted(names), names[7:] + names[:7], names[::2] + names[1::2]]
    cands = [namedtuple("Q", o)(*[r[k] for k in o]) for o in orders] + [full._replace(**r), P(**r)]
    fr = {**full._asdict(), **r}
    o = sorted(fr)
    cands.append(namedtuple("Q", o)(*[fr[k] for k in o]))
    for i, q in enumerate(cands):
        for m in MASSES:
            ok, c = ctx.call("cov:named", ck._get_diffmahpop_cov, q, m)
            if not ok:
                return
            sd, R = expected(r, m)
            ctx.count()
            if not (abs(np.asarray(c, float) - R * np.outer(sd, sd)) <= TOL * 10 * np.outer(sd, sd)).all():
                ctx.fail("cov:field-order", "covariance depends on the order in which the parameters are listed", fields=q._fields[:8], lgm=m)
        ctx.nontrivial("order", i)
    v = getattr(ck, "_get_diffmahpop_cov_vmap", None)
    if v is not None:
        c = np.asarray(v(P(**r), np.array(MASSES)), float)
        for b, m in enumerate(MASSES):
            sd, R = expected(r, m)
            if not (abs(c[b] - R * np.outer(sd, sd)) <= TOL * 10 * np.outer(sd, sd)).all():
                ctx.fail("cov:vmap", "covariances of an array of masses differ from those of each mass", lgm=m)
    ctx.extra.update(parameter_sets=len(rows), masses=len(MASSES))
    ctx.sample(params=rows[1], lgm=MASSES[3])


def triangle(ctx):
    """get_cholesky_from_params for every dimension, with distinct entries and every unit vector."""
    from diffmah.utils import get_cholesky_from_params

    unit = 9 if not ctx.thorough else 15
    for n in [*range(1, unit + 8), *range(unit + 8, 73, 1 if ctx.thorough else 7)]:
        size = n * (n + 1) // 2
        vecs = [np.arange(1, size + 1), -np.arange(1, size + 1) * 0.5, np.zeros(size)]
        vecs += list(np.eye(size)) if n < unit else []
        for v in vecs:
            for cast in (float, "f4", int):
                x = v.astype(cast)
                ok, M = ctx.call("triangle", get_cholesky_from_params, x)
                if not ok:
                    return
                E = np.zeros((n, n))
                E[np.diag_indices(n)] = x[:n]
                E[np.tril_indices(n, -1)] = x[n:]
                M = np.asarray(M, float)
                ctx.count()
                if M.shape != (n, n) or not np.array_equal(M, E):
                    ctx.fail("triangle", f"dimension {n}: parameters {x[:8]} give {M.tolist() if M.size < 40 else M.shape}", want=E)
            ctx.nontrivial(n, v.tolist())
    ctx.sample(params=[1, 2, 3, 4, 5, 6])


def roundtrip(ctx):
    """covariance <-> correlation for every matrix of a lattice of valid ones, dimensions 1-4."""
    from diffmah.utils import correlation_from_covariance, covariance_from_correlation

    lv = (-0.6, 0.0, 0.45) if not ctx.thorough else (-0.9, -0.6, -0.1, 0.0, 0.45, 0.95)
    sc = (1e-6, 1.0, 40.0)
    for n in (1, 2, 3, 4):
        k = n * (n - 1) // 2
        scales = [[sc[(i + s) % 3] for i in range(n)] for s in range(3)]
        fine = (-0.9995, -3e-7, 2e-5, 0.9995)
        for r in [*itertools.product(lv if n < 4 or not ctx.thorough else lv[1::2] + (0.0,), repeat=k),
                  *(itertools.product(fine + lv, repeat=k) if n < 4 else [])]:
            R = np.eye(n)
            R[np.tril_indices(n, -1)] = r
            R = np.maximum(R, R.T) + np.minimum(R, R.T) - np.diag(np.diag(R))
            if np.linalg.eigvalsh(R).min() < 1e-6:
                continue
            for s in scales:
                s = np.array(s)
                ok, C = ctx.call("cov_from_corr", covariance_from_correlation, R, s)
                if not ok:
                    return
                C = np.asarray(C, float)
                E = R * np.outer(s, s)
                ctx.count()
                if C.shape != E.shape or not np.allclose(C, E, rtol=TOL, atol=0):
                    ctx.fail("cov_from_corr", "covariance is not correlation times the scatters", corr=R, scatter=s, got=C)
                ok, R2 = ctx.call("corr_from_cov", correlation_from_covariance, E)
                if not ok:
                    return
                R2 = np.asarray(R2, float)
                if R2.shape != R.shape or not np.allclose(R2, R, rtol=0, atol=10 * TOL):
                    ctx.fail("corr_from_cov", "correlation of a covariance is wrong", corr=R, scatter=s, got=R2)
                    continue
                C2 = np.asarray(covariance_from_correlation(R2, np.sqrt(np.diag(E))), float)
                if not np.allclose(C2, E, rtol=10 * TOL, atol=TOL * np.outer(s, s).max() * 0):
                    bad = abs(C2 - E) > 10 * TOL * np.outer(s, s)
                    if bad.any():
                        ctx.fail("roundtrip", "covariance -> correlation -> covariance does not return the original", corr=R, scatter=s)
                ctx.nontrivial(n, r, s.tolist())
    ctx.sample(corr=R.tolist())


X = dict(x64=True)
vlib.main(
    "C17", [("cov32", cov), ("cov64", cov, X), ("triangle32", triangle), ("triangle64", triangle, X), ("roundtrip32", roundtrip),
            ("roundtrip64", roundtrip, X)],
    level="exploration",
    rule="all 3^6 level combinations of the six correlations x two scatter patterns, every single scatter parameter and every pair, "
         "each at 15 masses from far below to far above the transitions; triangular builder for every dimension 1-8 and unit vector, larger ones to 72; "
         "round trips for every valid matrix of a lattice in dimensions 1-4",
    assumptions=["values between lattice points are not explored"])
