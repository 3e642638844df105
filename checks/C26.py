"""C26 mean relations: every component on complete parameter x input lattices against its written definition, alone and in populations."""
import importlib
import itertools
import os

import numpy as np
import pop
import ref
import vlib

F64 = bool(os.environ.get("JAX_ENABLE_X64"))
D = "diffmah.diffmahpop_kernels."
LGM = (8.3, 10.2, 11.4, 12.0, 12.7, 13.6, 15.2, 16.6)
TOBS = (0.4, 1.1, 3.5, 7.0, 10.0, 13.7)
TPEAK = (0.3, 2.0, 5.5, 9.0, 13.6)
T0 = 13.8
LGT0 = float(np.log10(T0))
PROBE, NOISE = 1e-7, 3e-6
S = ref.sigmoid
EPS = 1e-3


def inside(q, y):
    lo, hi = ref.BOUNDS[q]
    return np.clip(y, lo + EPS, hi - EPS)


# The written definition of every relation; p maps the stem of a parameter's name to its value.
def late_index(p, m, t, tp):
    """Late index: from ylo at low mass to yhi at high mass, half way at x0."""
    return inside("late_index", S(m, p["x0"], 1.0, p["ylo"], p["yhi"]))


def early_index(p, m, t, tp):
    """Early index: low-mass value set by the peak time, high-mass value set by the observation time."""
    lo = S(tp, p["ylo_x0"], 1.0, p["ylo_ylo"], p["ylo_yhi"])
    hi = S(t, p["yhi_x0"], 0.5, p["yhi_ylo"], p["yhi_yhi"])
    return inside("early_index", S(m, p["lgm_x0"], 1.0, lo, hi))


def logtc(p, m, t, tp):
    """Transition time: linear in log mass about 12; its value there has a slope in peak time that goes from ylo to yhi."""
    c0 = p["ytp_tobs_c0"] + p["ytp_tobs_c1"] * t + S(tp, p["ss_x0"], 0.5, p["ylo"], p["yhi"]) * (tp - 10.0)
    return inside("logtc", c0 + p["lgm_c1"] * (m - 12.0))


def m0_c0(p, t, tp):
    y = p["c0_ytp"] + S(t, p["c0_t_obs_x0"], 0.25, p["c0_ylo"], 0.0) * (t - 15.0)
    return np.maximum(y, p["c0_clip_c0"] + p["c0_clip_c1"] * tp)


def m0_c1(p, t, tp):
    y = p["c1_ytp"] + S(t, p["c1_t_obs_x0"], 0.25, p["c1_ylo"], 0.0) * (t - 10.0)
    return np.maximum(y, S(tp, p["c1_clip_x0"], 1.0, p["c1_clip_ylo"], p["c1_clip_yhi"]))


def logm0(p, m, t, tp):
    """Present-day mass: observed mass plus a growth that is linear in log mass about 12, each coefficient with a floor in peak time."""
    return inside("logm0", m + m0_c0(p, t, tp) + m0_c1(p, t, tp) * (m - 12.0))


def fec(p, m, t, tp):
    """Early-former fraction: low- and high-mass values both move from early to late with time."""
    lo = S(t, p["t_obs_x0"], 1.0, p["lgm_ylo_early"], p["lgm_ylo_late"])
    hi = S(t, p["t_obs_x0"], 1.0, p["lgm_yhi_early"], p["lgm_yhi_late"])
    return S(m, p["lgm_x0"], 4.0, lo, hi)


def sat_loc(p, m, t, tp):
    return S(m, p["x0"], 1.5, S(t, p["ylo_t0"], 0.4, p["ylo_early"], p["ylo_late"]), 0.95)


def sat_scale(p, m, t, tp):
    return S(m, 12.0, 1.0, S(t, p["ylo_t0"], 1.0, p["ylo_early"], p["ylo_late"]), 0.16)


def flex_x0(p, m, t, tp):
    a = S(m, p["lgm_x0_x0"], 1.0, p["x0_ylo_early"], p["x0_yhi_early"])
    b = S(m, p["lgm_x0_x0"], 1.0, p["x0_ylo_late"], p["x0_yhi_late"])
    return S(t, p["t_obs_x0_x0"], 2.0, a, b)


def cen_scale(p, m, t, tp):
    return S(m, 12.5, 2.0, p["mh_lo"], p["mh_hi"]) + S(t, T0 / 2, 1.0, p["boost_early"], 0.0)


def ftpt0(p, m, t, tp):
    c0 = np.clip(p["c0_c0"] + p["c0_c1"] * (t - 10.0), 0.01, 0.99)
    return np.clip(c0 + p["c1"] * (m - 12.0), 0.01, 0.99)


def std_of(q):
    def f(p, m, t, tp):
        return S(m, p["cov_lgm_x0_" + q], 2.0, p[f"std_u_{q}_ylo"], p[f"std_u_{q}_yhi"])

    return f


EI = ("early_index_", "yhi_x0 yhi_ylo yhi_yhi ylo_x0 ylo_ylo ylo_yhi lgm_x0")
LI = ("late_index_", "x0 ylo yhi")
TC = ("logtc_", "lgm_c0_tp_ytp_tobs_c0:ytp_tobs_c0 lgm_c0_tp_ytp_tobs_c1:ytp_tobs_c1 lgm_c0_tp_ylo:ylo lgm_c0_tp_yhi:yhi lgm_c1 c0_ss_x0:ss_x0")
C0 = ("lgm0pop_", "c0_ytp c0_ylo c0_clip_c0 c0_clip_c1 c0_t_obs_x0")
C1 = ("lgm0pop_", "c1_ytp c1_ylo c1_clip_x0 c1_clip_ylo c1_clip_yhi c1_t_obs_x0")
M0 = ("lgm0pop_", C0[1] + " " + C1[1])


def names_of(spec, suffix):
    """{stem: full parameter name}"""
    pre, stems = spec
    out = {}
    for s in stems.split():
        full, _, short = s.partition(":")
        out[short or full] = pre + full + suffix
    return out


def component(name, mod, kern, bounds, spec, suffix, fn, args="mttp"):
    return dict(name=name, mod=D + mod, kern=kern, bounds=bounds, names=names_of(spec, suffix), fn=fn, args=args)


COMP = [
    component("early_alpha", "early_index_alpha", "_pred_early_index_kern", "EARLY_INDEX_PBOUNDS", EI, "_alpha", early_index),
    component("early_beta", "early_index_beta", "_pred_early_index_kern", "EARLY_INDEX_PBOUNDS", EI, "_beta", early_index),
    component("early_pop", "early_index_pop", "_pred_early_index_kern", "EARLY_INDEX_PBOUNDS", EI, "", early_index),
    component("late_alpha", "late_index_alpha", "_pred_late_index_kern", "LATE_INDEX_PBOUNDS", LI, "_alpha", late_index, "m"),
    component("late_beta", "late_index_beta", "_pred_late_index_kern", "LATE_INDEX_PBOUNDS", LI, "_beta", late_index, "m"),
    component("logtc_early", "logtc_early", "_pred_logtc_kern", "LOGTC_PBOUNDS", TC, "_early", logtc),
    component("logtc_late", "logtc_late", "_pred_logtc_kern", "LOGTC_PBOUNDS", TC, "_late", logtc),
    component("fec", "frac_early_cens", "_frac_early_cens_kern", "FEC_PBOUNDS",
              ("fec_", "t_obs_x0 lgm_x0 lgm_ylo_early lgm_ylo_late lgm_yhi_early lgm_yhi_late"), "", fec, "mt"),
    component("sat_loc", "t_peak_kernels.tp_pdf_sats", "_get_utp_loc", "TP_SATS_BOUNDS",
              ("utp_loc_lgm_", "ylo_t0 ylo_early ylo_late x0"), "", sat_loc, "mt"),
    component("sat_scale", "t_peak_kernels.tp_pdf_sats", "_get_utp_scale", "TP_SATS_BOUNDS",
              ("utp_scale_lgm_", "ylo_t0 ylo_early ylo_late"), "", sat_scale, "mt"),
    component("flex_x0", "t_peak_kernels.tp_pdf_cens_flex", "_get_utp_x0_from_lgm", "TPCENS_PBOUNDS",
              ("cen_tp_", "lgm_x0_x0 t_obs_x0_x0 x0_ylo_early x0_yhi_early x0_ylo_late x0_yhi_late"), "", flex_x0, "mt"),
    component("cen_scale", "t_peak_kernels.tp_pdf_cens", "_get_singlepdf_params", "TPCENS_PBOUNDS",
              ("tpck_scale_", "boost_early mh_lo mh_hi"), "", cen_scale, "mt0"),
    component("ftpt0", "ftpt0_cens", "_ftpt0_kernel", "FTPT0_PBOUNDS", ("ftpt0_", "c0_c0 c0_c1 c1"), "", ftpt0, "mt"),
]
for pkg, suf in (("bimod_logm0_kernels.", ""), ("bimod_logm0_sats.", "_sats")):
    for side in ("early", "late"):
        COMP += [
            component(f"c0_{side}{suf}", f"{pkg}logm0_c0_{side}", "_pred_c0_kern", "LGM0POP_C0_BOUNDS", C0, f"_{side}{suf}",
                      lambda p, m, t, tp: m0_c0(p, t, tp), "ttp"),
            component(f"c1_{side}{suf}", f"{pkg}logm0_c1_{side}", "_pred_c1_kern", "LGM0POP_C1_BOUNDS", C1, f"_{side}{suf}",
                      lambda p, m, t, tp: m0_c1(p, t, tp), "ttp"),
            component(f"logm0_{side}{suf}", f"{pkg}logm0_pop_{side}", "_pred_logm0_kern", "LGM0POP_BOUNDS", M0, f"_{side}{suf}", logm0)]
for q in ("logm0", "logtc", "early", "late"):
    COMP.append(component("std_" + q, "covariance_kernels", "_get_cov_params", "COV_PBOUNDS",
                          ("", f"std_u_{q}_ylo std_u_{q}_yhi cov_lgm_x0_{q}"), "", std_of(q), "m"))


def lattice(args):
    """Complete input lattice: mass, observation time, peak time."""
    return np.array(list(itertools.product(LGM if "m" in args else (12.3,), TOBS if "t" in args.replace("tp", "", 1) or args == "ttp" else (7.7,),
                                           TPEAK if "tp" in args else (5.0,))))


def levels(n, thorough):
    if n <= 4:
        return (0.01, 0.2, 0.5, 0.85, 0.99)
    if n <= 7:
        return (0.02, 0.45, 0.97) if not thorough else (0.0, 0.3, 0.55, 0.98)
    return (0.03, 0.96) if not thorough else (0.02, 0.5, 0.97)


def run_component(ctx, c):
    import jax
    import jax.numpy as jnp

    mod = importlib.import_module(c["mod"])
    ok, f = ctx.call(c["name"] + ":kernel", getattr, mod, c["kern"])
    if not ok:
        return
    b = getattr(mod, c["bounds"])
    P = type(b)
    mine = list(c["names"].items())
    G = lattice(c["args"])
    m, t, tp = G.T
    dtype = np.float64 if F64 else np.float32
    m, t, tp = (x.astype(dtype) for x in (m, t, tp))
    mid = {k: 0.4 * getattr(b, k)[0] + 0.6 * getattr(b, k)[1] for k in P._fields}

    def one(v):
        d = dict(mid)
        d.update({k: v[i] for i, (_, k) in enumerate(mine)})
        p = P(**d)
        if c["args"] == "m":
            y = f(p, m) if not c["name"].startswith("std_") else jax.vmap(f, in_axes=(None, 0))(p, m)[0]
            if c["name"].startswith("std_"):
                y = y[:, ("logm0", "logtc", "early", "late").index(c["name"][4:])]
        elif c["args"] == "mt":
            y = f(p, m, t)
        elif c["args"] == "mt0":
            y = f(p, m, t, T0)[1]
        elif c["args"] == "ttp":
            y = f(p, t, tp)
        else:
            y = f(p, m, t, tp)
        return jnp.zeros(len(G)) + y

    g = jax.jit(jax.vmap(one))
    lv = levels(len(mine), ctx.thorough)
    B = np.array([getattr(b, k) for _, k in mine], float)
    V = np.array(list(itertools.product(lv, repeat=len(mine))))
    V = (B[:, 0] + V * (B[:, 1] - B[:, 0])).astype(dtype)
    bad = 0
    for i in range(0, len(V), 8192):
        v = V[i:i + 8192]
        ok, y = ctx.call(c["name"], g, v)
        if not ok:
            return
        y = np.asarray(y, float)
        p = {s: v[:, j:j + 1].astype(float) for j, (s, _) in enumerate(mine)}
        with np.errstate(over="ignore"):
            want = np.zeros(y.shape) + c["fn"](p, m[None].astype(float), t[None].astype(float), tp[None].astype(float))
        tol = (1e-10 if F64 else 3e-5) * (1 + abs(want))
        err = ~(abs(y - want) <= tol)
        ctx.count(y.size)
        bad += int(err.sum())
        if err.any():
            a, h = np.argwhere(err)[0]
            ctx.fail(f"{c['name']}", f"{c['name']} is {y[a, h]:.6g}, by definition {want[a, h]:.6g}",
                     params={k: float(v[a, j]) for j, (_, k) in enumerate(mine)}, lgm_obs=float(m[h]), t_obs=float(t[h]), t_peak=float(tp[h]))
            return
    ctx.nontrivial_n(c["name"], n=min(len(V), 3000))
    ctx.extra[c["name"]] = dict(parameter_vectors=len(V), inputs=len(G))
    # scalars give what arrays give
    for h in range(0, len(G), max(1, len(G) // 7)):
        d = dict(mid)
        d.update({k: V[len(V) // 3, j] for j, (_, k) in enumerate(mine)})
        p = P(**d)
        a = dict(m=(m[h],), mt=(m[h], t[h]), mt0=(m[h], t[h], T0), ttp=(t[h], tp[h]), mttp=(m[h], t[h], tp[h]))[c["args"]]
        ok, y = ctx.call(c["name"] + ":scalar", f, p, *[float(x) for x in a])
        if not ok:
            return
        y = y[1] if c["args"] == "mt0" else y[0][("logm0", "logtc", "early", "late").index(c["name"][4:])] if c["name"].startswith("std_") else y
        w = float(np.asarray(one(V[len(V) // 3]))[h])
        ctx.count()
        if np.shape(y) != () or not abs(float(y) - w) <= (1e-10 if F64 else 3e-5) * (1 + abs(w)):
            ctx.fail(c["name"] + ":scalar", f"{c['name']} of one halo is {np.asarray(y)!r}, in an array {w}")


def components(ctx):
    for c in COMP:
        run_component(ctx, c)
    ctx.sample(component=COMP[0]["name"], parameters=list(COMP[0]["names"].values()), inputs=len(lattice("mttp")))


def reference_means(P, kind, m, t, tpE, tpL):
    """The eight mean relations and the fraction for one parameter dictionary of the full model."""
    s = "_sats" if kind == "sats" else ""

    def pick(spec, suf):
        return {k: P[n] for k, n in names_of(spec, suf).items()}

    fe = {k: P["fec_" + k] for k in "t_obs_x0 lgm_x0 lgm_ylo_early lgm_ylo_late lgm_yhi_early lgm_yhi_late".split()}
    return [logm0(pick(M0, "_early" + s), m, t, tpE), logtc(pick(TC, "_early"), m, t, tpE), early_index(pick(EI, "_alpha"), m, t, tpE),
            late_index(pick(LI, "_alpha"), m, t, tpE),
            logm0(pick(M0, "_late" + s), m, t, tpL), logtc(pick(TC, "_late"), m, t, tpL), early_index(pick(EI, "_beta"), m, t, tpL),
            late_index(pick(LI, "_beta"), m, t, tpL), fec(fe, m, t, tpE)]


OUT = [f"{a}.{q}" for a in "EL" for q in ("logm0", "logtc", "early_index", "late_index")] + ["frac"]


def pop_rows(thorough):
    """Base points, every parameter moved alone, every pair of one component at its corners, spreads of the whole vector."""
    fams = pop.bounds_by_family()
    names = pop.default()._fields
    probe = {k: PROBE for k in names if k.startswith("std_u_")}
    rows, desc = [], []

    def add(p, *d):
        rows.append([float(v) for v in p._replace(**probe)])
        desc.append(d)

    add(pop.default(), "default")
    for s in range(40 if not thorough else 400):
        add(pop.spread(s, skip=("cov",)), "spread", s)
    for base in (pop.default(), pop.spread(3, skip=("cov",))):
        for fam, d in fams.items():
            if fam == "cov" or fam.startswith("tp_"):
                continue
            for k, (lo, hi) in d.items():
                for fr in (0.01, 0.3, 0.6, 0.99):
                    add(base._replace(**{k: lo + fr * (hi - lo)}), k, fr)
            if thorough:
                for (k, b1), (j, b2) in itertools.combinations(d.items(), 2):
                    for e, g in itertools.product((0, 1), repeat=2):
                        add(base._replace(**{k: b1[e], j: b2[g]}), k, j, e, g)
    return np.array(rows), desc


def populations(ctx):
    """Populations with vanishing scatter, peak times given or drawn: what they return is the definition at their own peak times."""
    import jax
    import jax.numpy as jnp
    import jax.random as jran

    names = pop.default()._fields
    P = type(pop.default())
    X, desc = pop_rows(ctx.thorough)
    pd = {k: X[:, i:i + 1] for i, k in enumerate(names)}
    for kind, given in itertools.product(("cens", "sats"), (True, False)):
        m_ = importlib.import_module(D + "mc_bimod_" + kind)
        f = getattr(m_, f"mc_diffmah_{kind[:3]}pop")
        G = np.array(list(itertools.product(LGM, TOBS, TPEAK if given else (0, 1, 2))), float)
        m, t, tp = (np.ascontiguousarray(G[:, i]) for i in range(3))

        def one(x):
            r = f(P(*[x[i] for i in range(len(names))]), m, t, jran.key(9), LGT0, t_peak=tp if given else None)
            return jnp.array(list(r.mah_params_early) + list(r.mah_params_late) + [r.frac_early_cens])

        g = jax.jit(jax.vmap(one))
        mode = f"{kind}:{'given' if given else 'drawn'}"
        Y = []
        for i in range(0, len(X), 512):
            ok, y = ctx.call(mode, g, X[i:i + 512])
            if not ok:
                break
            Y.append(np.asarray(y, float))
        if not ok:
            continue
        Y = np.concatenate(Y)
        tpE, tpL = Y[:, 4], Y[:, 9]
        got = [Y[:, j] for j in (0, 1, 2, 3, 5, 6, 7, 8, 10)]
        want = reference_means(pd, kind, m[None], t[None], tpE, tpL)
        for o, a, w in zip(OUT, got, want):
            tol = NOISE * (1 + abs(w)) if o != "frac" else 1e-9
            bad = ~(abs(a - w) <= tol)
            ctx.count(a.size)
            if bad.any():
                r, h = np.argwhere(bad)[0]
                ctx.fail(f"{mode}:{o}", f"mean {o} of the {kind} is {a[r, h]:.7g}, by definition {w[r] if w.ndim == 1 else np.broadcast_to(w, a.shape)[r, h]:.7g}",
                         moved=desc[r], lgm_obs=m[h], t_obs=t[h], t_peak=tpE[r, h])
        for d in desc:
            ctx.nontrivial(mode, d)
    ctx.extra.update(parameter_vectors=len(X), halos=len(LGM) * len(TOBS) * len(TPEAK))
    ctx.sample(moved=desc[60], populations=["cens", "sats"])


if __name__ == "__main__":
    X64 = dict(x64=True)
    vlib.main(
        "C26", [("components", components, X64), ("components32", components), ("populations", populations, X64)],
        level="exploration",
        rule="every component relation on the full product of parameter levels (5 per parameter up to 4 parameters, 3 up to 7, 2 for "
             "the 11 of the mass normalisation) and of a mass x observation time x peak time lattice, against the written definition; "
             "populations with vanishing scatter for every parameter moved alone from two base points and 40 whole-vector spreads; "
             "a case is non-trivial per distinct (component, parameter vector) or (population, mode, moved parameter)",
        assumptions=["values between lattice points are not explored", "populations read with scatter 1e-7"])
