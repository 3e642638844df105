"""C18 influence matrix: every population parameter moved alone, in both populations; what may and must change."""
import importlib
import itertools

import numpy as np
import pop
import ref
import vlib

T0 = 13.8
LGT0 = float(np.log10(T0))
PROBE = 1e-7          # scatter small enough for a population to show its mean relations
NOISE = 3e-6
QN = ("logm0", "logtc", "early_index", "late_index")
LGM = (8.6, 10.6, 11.6, 12.4, 13.2, 14.2, 14.9, 16.2)
TOBS = (1.6, 4.0, 7.5, 13.3)
TPEAK = (0.4, 2.2, 6.0, 10.5, 13.5)


def api(kind):
    m = importlib.import_module("diffmah.diffmahpop_kernels.mc_bimod_" + kind)
    return getattr(m, f"mc_diffmah_{kind[:3]}pop")


def expected(fam, name):
    """Set of (population, output) the parameter may change with peak times given."""
    own = dict(logm0_cens=("cens",), logm0_sats=("sats",)).get(fam, ("cens", "sats"))
    if fam in ("tp_cens", "tp_sats", "cov"):
        return set()
    if fam == "fec":
        return {(k, "frac") for k in own}
    q = {"logm0_cens": "logm0", "logm0_sats": "logm0"}.get(fam, fam)
    stem = name[:-5] if name.endswith("_sats") else name
    side = "E" if stem.endswith(("_early", "_alpha")) else "L"
    return {(k, f"{side}.{q}") for k in own}


def evaluator(kind, given):
    import jax
    import jax.numpy as jnp
    import jax.random as jran

    f = api(kind)
    names = pop.default()._fields
    P = type(pop.default())
    grid = np.array([c for c in itertools.product(LGM, TOBS, TPEAK)])
    if not given:
        grid = np.array([c for c in itertools.product(LGM, TOBS, range(4))], dtype=float)
    lg, tob, tp = (np.ascontiguousarray(grid[:, i]) for i in range(3))

    def one(x):
        r = f(P(*[x[i] for i in range(len(names))]), lg, tob, jran.key(4), LGT0, t_peak=tp if given else None)
        return jnp.array(list(r.mah_params_early[:4]) + list(r.mah_params_late[:4]) + [r.mah_params_early[4], r.mah_params_late[4],
                                                                                   r.frac_early_cens])

    g = jax.jit(jax.vmap(one))

    def run(X):
        return np.concatenate([np.asarray(g(X[i:i + 256]), float) for i in range(0, len(X), 256)])

    return run, grid


OUT = [f"E.{q}" for q in QN] + [f"L.{q}" for q in QN] + ["E.t_peak", "L.t_peak", "frac"]


def probe(p):
    return p._replace(**{k: PROBE for k in p._fields if k.startswith("std_u_")})


def strictly_inside(ctx, label, Y, rows):
    """Y: (rows, outputs, halos) of probe populations."""
    for i, o in enumerate(OUT):
        if o == "frac":
            lo, hi = 0.0, 1.0
        else:
            lo, hi = ref.BOUNDS[o.split(".")[1]]
        bad = ~((Y[:, i] > lo) & (Y[:, i] < hi))
        ctx.count(Y[:, i].size)
        if bad.any():
            a, b = np.argwhere(bad)[0]
            ctx.fail(f"{label}:bounds:{o}", f"mean {o} is {Y[a, i, b]}, not inside ({lo}, {hi})", params=rows[a], halo=int(b))
    e = OUT.index("E.early_index")
    for s in (0, 4):
        bad = ~(Y[:, s + 2] > Y[:, s + 3])
        if bad.any():
            a, b = np.argwhere(bad)[0]
            ctx.fail(f"{label}:order", "mean early index not above mean late index", params=rows[a], halo=int(b))
    return e


def bases(thorough):
    b = [("default", pop.default()), ("spread0", pop.spread(0, skip=("cov",))), ("mid", pop.at_fracs({k: 0.5 for k in pop.bounds()}))]
    if thorough:
        b += [(f"spread{s}", pop.spread(s, skip=("cov",))) for s in range(1, 10)]
    return [(n, probe(p)) for n, p in b]


def influence(ctx):
    """All 113 parameters x levels x base points x populations x drawn/given peak times."""
    fams = pop.bounds_by_family()
    names = pop.default()._fields
    levels = (0.02, 0.3, 0.7, 0.98) if not ctx.thorough else tuple(np.linspace(0.01, 0.99, 15))
    B = bases(ctx.thorough)
    rows, meta = [], []
    for bn, b in B:
        x0 = np.array([float(v) for v in b])
        ib = len(rows)
        rows.append(x0)
        meta.append((bn, None, None, ib))
        for fam, d in fams.items():
            for nm in d:
                if nm.startswith("std_u_"):
                    continue
                for f in levels:
                    x = x0.copy()
                    x[names.index(nm)] = d[nm][0] + f * (d[nm][1] - d[nm][0])
                    rows.append(x)
                    meta.append((bn, fam, nm, ib))
    X = np.array(rows)
    acted = {}
    for kind, given in itertools.product(("cens", "sats"), (True, False)):
        run, grid = evaluator(kind, given)
        ok, Y = ctx.call(f"{kind}:population", run, X)
        if not ok:
            continue
        mode = "given" if given else "drawn"
        if not np.isfinite(Y).all():
            a = np.argwhere(~np.isfinite(Y))[0]
            ctx.fail(f"{kind}:{mode}:nonfinite", "non-finite mean relation", moved=meta[a[0]][:3], output=OUT[a[1]], halo=grid[a[2]])
            continue
        strictly_inside(ctx, f"{kind}:{mode}", Y, [m[:3] for m in meta])
        for a, (bn, fam, nm, ib) in enumerate(meta):
            if nm is None:
                continue
            d = abs(Y[a] - Y[ib]).max(axis=1)
            allow = {o for k, o in expected(fam, nm) if k == kind}
            if not given and fam == "tp_" + kind:
                allow = {o for o in OUT if o != "frac" and "late_index" not in o}
            for i, o in enumerate(OUT):
                ctx.count()
                if d[i] > NOISE and o not in allow:
                    h = int(np.argmax(abs(Y[a, i] - Y[ib, i])))
                    ctx.fail(f"{kind}:{mode}:{nm}->{o}", f"moving {nm} alone changes {o} of the {kind} population by {d[i]:.3g}",
                             base=bn, halo=grid[h])
                if d[i] > 1e-4 and o in allow:
                    acted.setdefault(nm, set()).add((kind, o))
            ctx.nontrivial(bn, nm, kind, mode)
    if not ctx.fails:
        for fam, d in fams.items():
            for nm in d:
                if fam == "cov":
                    continue
                want = expected(fam, nm) if not fam.startswith("tp_") else {(fam[3:], "E.t_peak"), (fam[3:], "L.t_peak")}
                miss = want - acted.get(nm, set())
                ctx.count()
                if miss:
                    ctx.fail(f"inert:{nm}", f"{nm} acts nowhere on {sorted(miss)}")
    ctx.extra.update(parameters=len(names), rows=len(rows), halos=len(LGM) * len(TOBS) * len(TPEAK))
    ctx.sample(parameter="late_index_yhi_beta", levels=list(levels), base=B[0][0])


def corners(ctx):
    """Every corner of every family's parameter box (both populations' share of it), with the others at default."""
    fams = pop.bounds_by_family()
    names = pop.default()._fields
    groups = []
    for fam, d in fams.items():
        if fam in ("cov", "tp_cens", "tp_sats"):
            continue
        ks = list(d)
        e = [k for k in ks if k.replace("_sats", "").endswith(("_early", "_alpha"))]
        l_ = [k for k in ks if k not in e]
        groups += [e, l_] if fam != "fec" else [ks]
    rows, desc = [], []
    x0 = np.array([float(v) for v in probe(pop.default())])
    b = pop.bounds()
    for g in groups:
        for bits in itertools.product((0, 1), repeat=len(g)):
            if len(g) > 9 and not ctx.thorough and sum(bits) not in (0, 1, 2, 5, len(g) - 2, len(g) - 1, len(g)):
                continue
            x = x0.copy()
            for k, v in zip(g, bits):
                x[names.index(k)] = b[k][v]
            rows.append(x)
            desc.append((g[0], bits))
    X = np.array(rows)
    for kind in ("cens", "sats"):
        run, grid = evaluator(kind, True)
        ok, Y = ctx.call(f"{kind}:corners", run, X)
        if not ok:
            continue
        if not np.isfinite(Y).all():
            a = np.argwhere(~np.isfinite(Y))[0]
            ctx.fail(f"{kind}:corner:nonfinite", "non-finite mean relation", corner=desc[a[0]], output=OUT[a[1]], halo=grid[a[2]])
            continue
        strictly_inside(ctx, f"{kind}:corner", Y, desc)
        for d in desc:
            ctx.nontrivial(kind, d)
    ctx.extra.update(corners=len(rows))
    ctx.sample(corner=desc[5])


def scatter(ctx):
    """Scatter parameters: change the spread of their own quantity only, never a mean."""
    import jax
    import jax.random as jran

    names = pop.default()._fields
    P = type(pop.default())
    fam = pop.bounds_by_family()["cov"]
    base = pop.at_fracs({}, **{k: 0.05 for k in fam if k.startswith("std_")}, **{k: 0.0 for k in fam if k.startswith("rho")},
                        **{k: 12.6 for k in fam if "_x0_" in k})
    n = 3000 if not ctx.thorough else 30000
    masses = (9.0, 12.6, 16.0)
    short = dict(logm0=0, logtc=1, early=2, late=3)

    def unbound(p):
        out = []
        for i, nm in enumerate(ref.PNAMES[:4]):
            lo, hi = ref.BOUNDS[nm]
            if nm == "early_index":
                out.append(ref.inv_sigmoid(p[i], 0.0, 0.1, p[3], hi))
            else:
                out.append(ref.inv_sigmoid(p[i], 0.5 * (lo + hi), 0.1, lo, hi))
        return np.array(out)

    for kind in ("cens", "sats"):
        f = api(kind)
        lg, tob, tp = np.repeat(masses, n).astype(float), np.full(3 * n, 9.0), np.full(3 * n, 6.0)
        g = jax.jit(lambda x, k: tuple(f(P(*[x[i] for i in range(len(names))]), lg, tob, jran.key(k), LGT0, t_peak=tp))[1:4])

        def stats(p):
            r = g(np.array([float(v) for v in p]), 11)
            U = [unbound([np.asarray(v, float) for v in r[i]]).reshape(4, 3, n) for i in (0, 1)]
            U = np.array(U)                                   # pop, quantity, mass, halo
            C = np.array([[np.corrcoef(U[a, :, m]) for m in range(3)] for a in range(2)])
            return U.mean(-1), U.std(-1), C, np.asarray(r[2], float)

        ok, b = ctx.call("scatter", stats, base)
        if not ok:
            return
        bm, bs, bc, bf = b
        for nm in fam:
            if "_x0_" in nm:
                q = nm.rsplit("_", 1)[1]
                start = base._replace(**{f"std_u_{q}_yhi": 0.5})
                p = start._replace(**{nm: 13.9})
                ok, (m0, s0, c0, f0) = ctx.call("scatter", stats, start)
            else:
                m0, s0, c0, f0 = bm, bs, bc, bf
                p = base._replace(**{nm: 0.5 if nm.startswith("std") else 0.29})
            ok, r = ctx.call("scatter", stats, p)
            if not ok:
                return
            m, s, c, fe = r
            ctx.nontrivial(kind, nm)
            big = np.maximum(s, s0)
            ctx.count(m.size * 2)
            if not (abs(m - m0) < 7 * big / np.sqrt(n)).all() or not np.array_equal(fe, f0):
                a = np.argwhere(abs(m - m0) >= 7 * big / np.sqrt(n))
                ctx.fail(f"{kind}:{nm}->mean", f"scatter parameter {nm} changes a mean relation", where=a[:3])
            rel = s / s0
            tol = 7 / np.sqrt(n)
            own = short[nm.split("_")[2] if nm.startswith("std") else nm.rsplit("_", 1)[1]] if not nm.startswith("rho") else None
            for a, q, k in np.ndindex(2, 4, 3):
                ctx.count()
                if q != own and abs(rel[a, q, k] - 1) > tol:
                    ctx.fail(f"{kind}:{nm}->spread:{ref.PNAMES[q]}", f"{nm} changes the spread of {ref.PNAMES[q]} by {rel[a, q, k]:.3f}")
            if nm.startswith("std"):
                k = 0 if nm.endswith("ylo") else 2
                if not (rel[:, own, k] > 5).all() or not (abs(rel[:, own, 2 - k] - 1) < tol + 0.03).all():
                    ctx.fail(f"{kind}:{nm}:own", f"{nm} x10: spread of its quantity changes by {rel[:, own, 0]} at low and {rel[:, own, 2]} at high mass")
            elif "_x0_" in nm:
                if not (rel[:, own, 1] < 0.6).all():
                    ctx.fail(f"{kind}:{nm}:own", f"moving {nm} up does not move the transition of the spread: {rel[:, own, 1]}")
            else:
                _, x, y = nm.split("_")
                i, j = short[x], short[y]
                d = c - c0
                for a, k in np.ndindex(2, 3):
                    if abs(d[a, k, i, j] - 0.29) > 7 / np.sqrt(n):
                        ctx.fail(f"{kind}:{nm}:own", f"{nm}=0.29 gives a correlation of {c[a, k, i, j]:.3f} between {x} and {y}")
                    w = abs(d[a, k]).copy()
                    w[i, j] = w[j, i] = 0
                    if w.max() > 7 / np.sqrt(n):
                        ctx.fail(f"{kind}:{nm}->corr", f"{nm} changes another correlation", where=np.argwhere(w > 7 / np.sqrt(n))[0])
    ctx.extra.update(draws=n)
    ctx.sample(parameter="std_u_late_yhi", masses=list(masses))


X = dict(x64=True)
vlib.main(
    "C18", [("influence", influence, X), ("corners", corners, X), ("scatter", scatter, X)],
    level="exploration",
    rule="each of the 113 population parameters moved alone to every level from every base point, all outputs of both populations at "
         "every mass x time x peak-time lattice point compared with the unmoved ones; every corner of every component's parameter "
         "box; a case is non-trivial per distinct (base, parameter, population, mode) or corner",
    assumptions=["mean relations are read off populations with scatter 1e-7", "values between lattice points are not explored"])
