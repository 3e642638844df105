"""C04 population-model transforms: every named parameter, every pair, every family and the full model."""
import importlib
import itertools
import os
from collections import namedtuple

import numpy as np
import vlib

D = "diffmah.diffmahpop_kernels."
# module, get_bounded_X / get_unbounded_X, bounds, params class, u-params class
FAM = [(D + "covariance_kernels", "cov_params", "COV_PBOUNDS", "CovParams", "CovUParams")]
for m in ("alpha", "beta", "bimod", "pop"):
    FAM.append((D + "early_index_" + m, "early_index_params", "EARLY_INDEX_PBOUNDS", "EarlyIndex_Params", "EarlyIndex_UParams"))
for m in ("alpha", "beta", "bimod"):
    FAM.append((D + "late_index_" + m, "late_index_params", "LATE_INDEX_PBOUNDS", "LateIndex_Params", "LateIndex_UParams"))
for m in ("early", "late", "bimod"):
    FAM.append((D + "logtc_" + m, "logtc_params", "LOGTC_PBOUNDS", "Logtc_Params", "Logtc_UParams"))
FAM.append((D + "frac_early_cens", "fec_params", "FEC_PBOUNDS", "FEC_Params", "FEC_UParams"))
FAM.append((D + "ftpt0_cens", "ftpt0_params", "FTPT0_PBOUNDS", "FTPT0_Params", "FTPT0_UParams"))
for pk, tail in (("bimod_logm0_kernels", ""), ("bimod_logm0_sats", "_sats")):
    for m in ("early", "late"):
        FAM.append((D + f"{pk}.logm0_c0_{m}", "c0_params", "LGM0POP_C0_BOUNDS", "LGM0Pop_C0_Params", "LGM0Pop_C0_UParams"))
        FAM.append((D + f"{pk}.logm0_c1_{m}", "c1_params", "LGM0POP_C1_BOUNDS", "LGM0Pop_C1_Params", "LGM0Pop_C1_UParams"))
        FAM.append((D + f"{pk}.logm0_pop_{m}", "m0pop_params", "LGM0POP_BOUNDS", "LGM0Pop_Params", "LGM0Pop_UParams"))
    FAM.append((D + f"{pk}.logm0_pop_bimod{tail}", "m0pop_params", "LGM0POP_BOUNDS", "LGM0Pop_Params", "LGM0Pop_UParams"))
T = D + "t_peak_kernels."
for m in ("tp_pdf_cens", "tp_pdf_cens_flex"):
    FAM.append((T + m, "tp_cens_params", "TPCENS_PBOUNDS", "TPCens_Params", "TPCens_UParams"))
FAM.append((T + "tp_pdf_sats", "tp_sat_params", "TP_SATS_BOUNDS", "TP_Sats_Params", "TP_Sats_UParams"))
FAM.append((T + "utp_pdf_kernels", "utp_params", "UTP_PBOUNDS", "UTP_Params", "UTP_UParams"))
PAIR_F = (0.21, 0.78)
LINE_F = (2e-4, 0.002, 0.02, 0.07, 0.19, 0.36, 0.5, 0.61, 0.83, 0.93, 0.98, 0.998, 0.9998)


def _f64():
    return bool(os.environ.get("JAX_ENABLE_X64"))


def _load(fam):
    mod, stem, bnd, pc, uc = fam
    m = importlib.import_module(mod)
    return (getattr(m, "get_bounded_" + stem), getattr(m, "get_unbounded_" + stem),
            getattr(m, bnd), getattr(m, pc), getattr(m, uc))


def base_fracs(n):
    f = 0.13 + 0.74 * np.modf(0.37 + 0.6180339887 * np.arange(n))[0]
    return f


def explore(ctx, label, fb, fu, names, B, P, U, pair_f):
    """Complete single-parameter sweeps and all pairs, starting from a point with distinct entries."""
    import jax

    n = len(names)
    lo, w = B[:, 0], B[:, 1] - B[:, 0]
    tol = 1e-8 if _f64() else 3e-4
    f0 = base_fracs(n)
    rows = [f0]
    for i in range(n):
        for f in LINE_F:
            r = f0.copy()
            r[i] = f
            rows.append(r)
    for i, j in itertools.combinations(range(n), 2):
        for a, b in itertools.product(pair_f, repeat=2):
            r = f0.copy()
            r[i], r[j] = a, b
            rows.append(r)
    F = np.array(rows)
    X = lo + F * w
    unames = ["u_" + k for k in names]
    bulk_b = jax.jit(jax.vmap(fb))
    bulk_u = jax.jit(jax.vmap(fu))
    ok, u = ctx.call(f"{label}:unbounded", bulk_u, P(*[X[:, k] for k in range(n)]))
    if not ok:
        return
    if list(u._fields) != unames:
        ctx.fail(f"{label}:ufields", f"unbounded fields {u._fields}")
        return
    ok, p = ctx.call(f"{label}:bounded", bulk_b, u)
    if not ok:
        return
    if list(p._fields) != names:
        ctx.fail(f"{label}:fields", f"bounded fields {p._fields}")
        return
    ua = np.stack([np.asarray(getattr(u, k), float) for k in unames], 1)
    pa = np.stack([np.asarray(getattr(p, k), float) for k in names], 1)
    ctx.count(len(F))
    for i in range(0, len(F), 4):
        ctx.nontrivial(label, i)
    for k, nm in enumerate(names):
        # near a bound the distance to the bound is what has to survive
        edge = 0.03 * np.minimum(F[:, k], 1 - F[:, k]) + (1e-11 if _f64() else 2e-6) * max(abs(B[k]).max() / w[k], 1)
        bad = ~(np.abs(pa[:, k] - X[:, k]) <= np.minimum(tol, edge) * w[k])
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            ctx.fail(f"{label}:roundtrip:{nm}", f"{nm}={X[i, k]:.6g} comes back as {pa[i, k]:.6g}",
                     varied=[names[q] for q in np.flatnonzero(F[i] != f0)])
    # inverse map: own parameter only, increasing
    for k, nm in enumerate(names):
        same = F[:, k] == f0[k]
        d = np.abs(ua[same, k] - ua[0, k])
        if (d > 1e-3 * (1 + abs(ua[0, k]))).any():
            i = int(np.flatnonzero(same)[np.argmax(d)])
            ctx.fail(f"{label}:ucoupling:{nm}", f"u_{nm} changes with another parameter",
                     varied=[names[q] for q in np.flatnonzero(F[i] != f0)])
        line = ua[1 + k * len(LINE_F): 1 + (k + 1) * len(LINE_F), k]
        if (np.diff(line) <= 0).any() or not np.isfinite(line).all():
            ctx.fail(f"{label}:uincreasing:{nm}", "unbounded value not increasing with the parameter", got=line)
    # forward map from unbounded vectors: distinct entries, extremes, all single and pair moves
    mid = ua[0]
    mv = [-3000.0, -300.0, -40.0, -7.0, 0.0, 5.0, 60.0, 200.0, 4000.0]
    rows = [mid]
    for i in range(n):
        for d in mv:
            r = mid.copy()
            r[i] += d
            rows.append(r)
    for i, j in itertools.combinations(range(n), 2):
        for a, b in ((-25.0, 9.0), (30.0, 30.0)) if len(pair_f) > 1 else ((-25.0, 9.0),):
            r = mid.copy()
            r[i] += a
            r[j] += b
            rows.append(r)
    rows += [np.full(n, -1e4), np.full(n, 1e4), np.zeros(n)]
    R = np.array(rows)
    ok, p = ctx.call(f"{label}:bounded", bulk_b, U(*[R[:, k] for k in range(n)]))
    if not ok:
        return
    pa = np.stack([np.asarray(getattr(p, k), float) for k in names], 1)
    ctx.count(len(R))
    for i in range(0, len(R), 4):
        ctx.nontrivial(label, "u", i)
    for k, nm in enumerate(names):
        v = pa[:, k]
        bad = ~((v >= lo[k] - tol * w[k]) & (v <= lo[k] + w[k] * (1 + tol)))
        if bad.any():
            ctx.fail(f"{label}:bounds:{nm}", f"{nm} maps outside its bounds {B[k].tolist()}", got=v[bad][0])
        same = R[:, k] == mid[k]
        d = np.abs(v[same] - v[0])
        if (d > tol * w[k]).any():
            i = int(np.flatnonzero(same)[np.argmax(d)])
            ctx.fail(f"{label}:coupling:{nm}", f"{nm} changes with another unbounded parameter",
                     varied=[names[q] for q in np.flatnonzero(R[i] != mid)])
        line = v[1 + k * len(mv): 1 + (k + 1) * len(mv)]
        if (np.diff(line) < -tol * w[k]).any() or not line[-1] - line[0] > 0.5 * w[k]:
            ctx.fail(f"{label}:increasing:{nm}", "parameter not increasing over its range with its unbounded counterpart",
                     got=line)
    # plain (un-vmapped) calls give the same as the bulk ones, incl. python floats
    for i in (0, 1, n, len(F) - 1):
        ok, u1 = ctx.call(f"{label}:single", fu, P(*[float(x) for x in X[i]]))
        if ok:
            v = np.array([float(getattr(u1, k)) for k in unames])
            if not np.allclose(v, ua[i], rtol=1e-3, atol=1e-3):
                ctx.fail(f"{label}:single", "single call differs from the same call in bulk")
            b = fb(u1)
            v = np.array([float(getattr(b, k)) for k in names])
            if not np.all(np.abs(v - X[i]) <= tol * w):
                ctx.fail(f"{label}:single-roundtrip", "single round trip differs",
                         bad=[names[q] for q in np.flatnonzero(~(np.abs(v - X[i]) <= tol * w))])
            ctx.count()


def families(ctx):
    for fam in FAM:
        fb, fu, bnd, P, U = _load(fam)
        label = fam[0].replace(D, "")
        names = list(P._fields)
        if list(U._fields) != ["u_" + x for x in names] or list(bnd._fields) != names:
            ctx.fail(f"{label}:names", "parameter, unbounded and bounds names disagree")
            continue
        B = np.array([getattr(bnd, x) for x in names], float)
        n = len(names)
        explore(ctx, label, fb, fu, names, B, P, U, PAIR_F)
        # any order of the supplied fields
        f0 = base_fracs(n)
        x = dict(zip(names, B[:, 0] + f0 * (B[:, 1] - B[:, 0])))
        orders = [names[::-1], names[n // 2:] + names[: n // 2]]
        for k, o in enumerate(orders):
            Q = namedtuple("Q", o)
            ok, u1 = ctx.call(f"{label}:order", fu, Q(**x))
            if not ok:
                continue
            UQ = namedtuple("UQ", ["u_" + y for y in o])
            ok, p1 = ctx.call(f"{label}:order", fb, UQ(**{y: getattr(u1, y) for y in UQ._fields}))
            ctx.count()
            ctx.nontrivial(label, "order", k)
            if ok:
                for y in names:
                    if not abs(float(getattr(p1, y)) - x[y]) <= 3e-4 * (B[names.index(y), 1] - B[names.index(y), 0]):
                        ctx.fail(f"{label}:order:{y}", "value lost when fields come in another order")
    ctx.extra["families"] = len(FAM)
    ctx.sample(family=FAM[0][0], fracs=f0.tolist()[:6])


FULL_FAMS = [0, 3, 7, 10, 11, 19, 26, 28, 29]  # reset below by name


def _full():
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp

    want = ("covariance_kernels", "early_index_bimod", "late_index_bimod", "logtc_bimod", "frac_early_cens",
            "logm0_pop_bimod", "logm0_pop_bimod_sats", "tp_pdf_cens_flex", "tp_pdf_sats")
    fams = [f for f in FAM if f[0].split(".")[-1] in want]
    names = list(bcp.DEFAULT_DIFFMAHPOP_PARAMS._fields)
    bounds = {}
    for f in fams:
        b = _load(f)[2]
        bounds.update(b._asdict())
    return bcp, fams, names, bounds


def full(ctx):
    bcp, fams, names, bounds = _full()
    tot = sum((list(_load(f)[3]._fields) for f in fams), [])
    if sorted(tot) != sorted(names):
        ctx.fail("full:names", f"full model has other parameters than its families: {set(tot) ^ set(names)}")
        return
    B = np.array([bounds[k] for k in names], float)
    explore(ctx, "full", bcp.get_diffmahpop_params_from_u_params, bcp.get_diffmahpop_u_params_from_params,
            names, B, type(bcp.DEFAULT_DIFFMAHPOP_PARAMS), type(bcp.DEFAULT_DIFFMAHPOP_U_PARAMS),
            PAIR_F if ctx.thorough else PAIR_F[:1])
    ctx.sample(n=len(names))


def agree(ctx):
    """Full model vs families name by name, for several points and field orders."""
    bcp, fams, names, bounds = _full()
    B = np.array([bounds[k] for k in names], float)
    n = len(names)
    w = B[:, 1] - B[:, 0]
    orders = [names, names[::-1], sorted(names), names[41:] + names[:41]]
    if ctx.thorough:
        orders += [names[k::7] + [x for i, x in enumerate(names) if i % 7 != k] for k in range(7)]
    for s in range(4):
        f = np.roll(base_fracs(n), 17 * s) if s else base_fracs(n)
        x = dict(zip(names, B[:, 0] + f * w))
        ref_u, ref_p = {}, {}
        for fam in fams:
            fb, fu, bnd, P, U = _load(fam)
            u = fu(P(*[x[k] for k in P._fields]))
            ref_u.update({k: float(v) for k, v in u._asdict().items()})
            ref_p.update({k: float(v) for k, v in fb(u)._asdict().items()})
        for io, o in enumerate(orders if s < 2 else orders[:2]):
            Q = namedtuple("Q", o) if io else type(bcp.DEFAULT_DIFFMAHPOP_PARAMS)
            UQ = namedtuple("UQ", ["u_" + k for k in o]) if io else type(bcp.DEFAULT_DIFFMAHPOP_U_PARAMS)
            ok, u = ctx.call("full:u", bcp.get_diffmahpop_u_params_from_params, Q(**x))
            ok2, p = ctx.call("full:p", bcp.get_diffmahpop_params_from_u_params, UQ(**{k: ref_u[k] for k in UQ._fields}))
            ctx.count(2)
            ctx.nontrivial("agree", s, io)
            if not (ok and ok2):
                continue
            for k in names:
                gu = float(getattr(u, "u_" + k))
                if not abs(gu - ref_u["u_" + k]) <= 1e-3 * (1 + abs(ref_u["u_" + k])):
                    ctx.fail(f"agree:u_{k}", f"full model gives {gu}, family {ref_u['u_' + k]}", order=io)
                gp = float(getattr(p, k))
                if not abs(gp - ref_p[k]) <= 3e-4 * w[names.index(k)]:
                    ctx.fail(f"agree:{k}", f"full model gives {gp}, family {ref_p[k]}", order=io)
    # assembly of component parameters by name, all orders
    comp, compu = getattr(bcp, "get_component_model_params", None), getattr(bcp, "get_component_model_u_params", None)
    for fn, pre in ((comp, ""), (compu, "u_")):
        if fn is None:
            ctx.note("component selector absent, skipped")
            continue
        val = {pre + k: float(i + 1) for i, k in enumerate(names)}
        for o in orders:
            Q = namedtuple("Q", [pre + k for k in o])
            ok, parts = ctx.call("component", fn, Q(**val))
            ctx.count()
            if not ok:
                continue
            got = {}
            for c in parts:
                got.update({k: float(v) for k, v in c._asdict().items()})
            for k in val:
                if got.get(k) != val[k]:
                    ctx.fail(f"component:{k}", f"component parameter {k} holds {got.get(k)} not {val[k]}")
    ctx.sample(orders=len(orders))


def subsets(ctx):
    """Every single, leave-one-out and pair subset leaves all other parameters at their defaults."""
    import jax

    bcp, fams, names, bounds = _full()
    dflt = bcp.DEFAULT_DIFFMAHPOP_PARAMS
    d0 = [float(x) for x in dflt]
    excl = bcp.get_varied_params_by_exclusion
    merge = getattr(bcp, "_get_all_diffmahpop_params_from_varied", None)
    if merge is None:
        ctx.note("merge helper absent; only the subset selection is explored")
    new = {k: 1000.5 + i for i, k in enumerate(names)}
    alt = dflt._make([-(i + 2.25) for i in range(len(names))])
    subs = [(k,) for k in names] + list(itertools.combinations(names, 2)) \
        + [tuple(x for x in names if x != k) for k in names] + [tuple(names), tuple(names[::-1])]
    subs += [tuple(t[::-1]) for t in subs[len(names):len(names) + 600]]
    for f in fams:
        subs.append(_load(f)[3]._fields)
    with jax.disable_jit():
        for s in subs:
            V = namedtuple("V", s)
            v = V(*[new[k] for k in s])
            ctx.count()
            ctx.nontrivial(s)
            if merge is not None:
                for base, bd in ((None, d0), (alt, [float(x) for x in alt])):
                    ok, r = ctx.call("merge", merge, v) if base is None else ctx.call("merge", merge, v, base)
                    if not ok:
                        break
                    for k, b in zip(names, bd):
                        e = new[k] if k in s else b
                        if float(getattr(r, k)) != e:
                            ctx.fail(f"merge:{'supplied' if k in s else 'default'}",
                                     f"{k} is {getattr(r, k)}, expected {e}", supplied=list(s)[:4])
                            break
    for base, bd in ((dflt, d0), (alt, [float(x) for x in alt])):
        for s in [()] + subs[: len(names)] + subs[len(names): len(names) + 500] + subs[-len(fams):]:
            ok, r = ctx.call("exclude", excl, base, s)
            ctx.count()
            if ok:
                want = [(k, b) for k, b in zip(names, bd) if k not in s]
                if sorted(zip(r._fields, [float(x) for x in r])) != sorted(want):
                    ctx.fail("exclude", "wrong selection of varied parameters", excluded=list(s)[:4])
    # jitted use for a few subsets
    if merge is not None:
        for s in subs[:3] + subs[-3:]:
            V = namedtuple("V", s)
            ok, r = ctx.call("merge-jit", merge, V(*[new[k] for k in s]))
            ctx.count()
            if ok and any(abs(float(getattr(r, k)) - (new[k] if k in s else b)) > 1e-5 * abs(b) + (1e-3 if k in s else 0)
                          for k, b in zip(names, d0)):
                ctx.fail("merge-jit", "compiled merge differs", supplied=list(s)[:4])
    # defaults and default unbounded parameters belong together, name by name
    for k in names:
        u = float(getattr(bcp.DEFAULT_DIFFMAHPOP_U_PARAMS, "u_" + k))
        if not np.isfinite(u):
            ctx.fail(f"default-u:{k}", "default unbounded parameter not finite")
    back = bcp.get_diffmahpop_params_from_u_params(bcp.DEFAULT_DIFFMAHPOP_U_PARAMS)
    for k, b in zip(names, d0):
        w = bounds[k][1] - bounds[k][0]
        if not abs(float(getattr(back, k)) - b) <= 1e-3 * w:
            ctx.fail(f"default:{k}", "defaults and default unbounded parameters disagree", got=float(getattr(back, k)), want=b)
    ctx.sample(subsets=len(subs))


vlib.main("C04", [("families32", families), ("families64", families, dict(x64=True)), ("full32", full),
                  ("full64", full, dict(x64=True)), ("agree", agree), ("subsets", subsets)],
          level="exploration",
          rule="per family and for the full 113-parameter model: complete sweep of every parameter (9 values), all "
               "pairs of parameters, forward and inverse, from a base point with pairwise distinct entries; all "
               "single, pair and leave-one-out subsets; several field orders",
          assumptions=["interactions of three or more parameters at once are explored only through the field-order points"])
