"""C16 population predictions and losses: moments of the sample at every lattice point, losses reconstructed entry by entry."""
import importlib
import itertools
import os
from collections import namedtuple

import numpy as np
import pop
import vlib

F64 = bool(os.environ.get("JAX_ENABLE_X64"))
T0 = 14.3   # not the published default age, so that a built-in age shows
LGT0 = float(np.log10(T0))
LGT1 = float(np.log10(18.0))
D = "diffmah.diffmahpop_kernels."


def mods(kind):
    return importlib.import_module(D + "mc_bimod_" + kind), importlib.import_module(D + f"bimod_{kind}_fithelp")


def points(thorough):
    hi = {k: v for k, v in (("fec_lgm_ylo_early", .95), ("fec_lgm_ylo_late", .95), ("fec_lgm_yhi_early", .95), ("fec_lgm_yhi_late", .95))}
    pts = [("default", pop.default()), ("spread0", pop.spread(0)), ("mostly-early", pop.at_fracs(hi)),
           ("mostly-late", pop.at_fracs({k: .05 for k in hi}))]
    if thorough:
        b = pop.bounds()
        pts.append(("narrow", pop.default()._replace(**{k: float(b[k][0]) * 1.02 for k in b if k.startswith("std_")})))
        pts += [(f"spread{s}", pop.spread(s)) for s in range(1, 12)]
        pts += [("wide", pop.at_fracs({}, **{k: 8.0 for k in pop.bounds() if k.startswith("std_")}))]
    return pts


def _moments(ctx, kind):
    """Predicted moments against the weighted moments of the underlying sample."""
    import jax.random as jran

    mc, _ = mods(kind)
    samp = getattr(mc, "_mc_diffmah_halo_sample", None)
    if samp is None:
        ctx.note("no sample function")
        return
    grids = [np.linspace(0.7, 13.5, 9), np.array([5.0]), np.array([13.7, 12.0, 3.0, 0.5])]
    cells = list(itertools.product((11.0, 12.4, 13.7, 14.8), (3.0, 7.5, 13.2))) + [(8.6, 1.0), (16.0, 13.6), (9.6, 0.6), (15.5, 5.0)]
    keys = (0, 1, 2) if not ctx.thorough else range(12)
    dt = np.float64 if F64 else np.float32
    for (pn, par), tarr in itertools.product(points(ctx.thorough), grids):
        tarr = tarr.astype(dt)
        for (lg, tob), k in itertools.product(cells, keys):
            ok, r = ctx.call("sample", samp, par, tarr, lg, tob, jran.key(k), LGT0)
            ok2, p = ctx.call("predict", mc.predict_mah_moments_singlebin, par, tarr, lg, tob, jran.key(k), LGT0)
            if not (ok and ok2):
                return
            E, L, f = (np.asarray(r[i], float) for i in (2, 5, 6))
            f = f[:, None]
            n = len(E)
            w = np.concatenate([f / n, (1 - f) / n])
            X = np.concatenate([E, L])
            mu = (w * X).sum(0)
            sd = np.sqrt((w * (X - mu) ** 2).sum(0))
            m, s = np.asarray(p[0], float), np.asarray(p[1], float)
            ctx.count(2 * len(tarr))
            ctx.nontrivial(pn, len(tarr), lg, tob, k)
            if m.shape != mu.shape or s.shape != mu.shape:
                ctx.fail("shape", f"predicted moments have shapes {m.shape} {s.shape} for {len(tarr)} times")
                return
            tol = 1e-9 if F64 else 2e-4
            for what, a, b in (("mean", m, mu), ("scatter", s, sd)):
                if not (abs(a - b) <= tol * (10 if what == "mean" else 3)).all():
                    j = int(np.argmax(abs(a - b)))
                    ctx.fail(f"moments:{what}", f"predicted {what} {a[j]:.5f}, weighted sample {what} {b[j]:.5f}", params=pn, lgm=lg,
                             t_obs=tob, t=float(tarr[j]), prng=k)
    ctx.sample(cells=cells[:4], sample_size=n)


def moments_cens(ctx):
    _moments(ctx, "cens")


def moments_sats(ctx):
    _moments(ctx, "sats")


def data(B, nt, salt=0):
    lg = np.array([11.6, 13.0, 14.1, 12.2, 13.6, 9.2, 15.6, 11.1, 16.4, 8.1])[salt:salt + B]
    tob = np.array([12.5, 6.0, 9.0, 4.0, 13.0, 1.5, 13.7, 0.6, 2.4, 0.55])[salt:salt + B]
    tarr = np.array([np.linspace(0.35 * t, t, nt) if nt > 1 else np.array([0.6 * t]) for t in tob])
    mu = lg[:, None] - 0.9 + 0.05 * np.arange(nt)[None] + 0.3 * np.arange(B)[:, None]
    sd = np.full((B, nt), 0.4) + 0.07 * np.arange(B)[:, None]
    fp = np.full((B, nt), 0.4) + 0.01 * np.arange(nt)
    return tarr, lg, tob, mu, sd, fp


def infer(f, x0):
    """f is quadratic and separable in x: value, centre and curvature of every entry from 2 evaluations each."""
    h = 0.5
    v0 = f(x0)
    c, k = np.zeros_like(x0), np.zeros_like(x0)
    for idx in np.ndindex(*x0.shape):
        a, b = x0.copy(), x0.copy()
        a[idx] += h
        b[idx] -= h
        fa, fb = f(a), f(b)
        k[idx] = (fa + fb - 2 * v0) / (2 * h * h)
        c[idx] = x0[idx] - (fa - fb) / (4 * h * k[idx]) if k[idx] else np.nan
    return v0, c, k


def check_quadratic(ctx, label, loss, targets, weights):
    """loss(targets) = sum_g weights[g] * sum (target - prediction)^2 with predictions inferred from the loss."""
    names = list(targets)
    preds, curv = {}, {}
    for g in names:
        f = lambda x, g=g: float(loss({**targets, g: x}))
        v0, preds[g], curv[g] = infer(f, targets[g])
        ctx.count(2 * targets[g].size)
        if not np.isfinite(v0):
            ctx.fail(f"{label}:nonfinite", f"loss is {v0}")
            return None
        if not np.allclose(curv[g], weights[g], rtol=1e-5):
            i = np.argmax(abs(curv[g] - weights[g]))
            ctx.fail(f"{label}:weight:{g}", f"an entry of {g} enters with weight {curv[g].ravel()[i]:.6f}, expected {weights[g]:.6f} "
                     "(mean over times and bins)")
    if not all(np.isfinite(p).all() for p in preds.values()):
        return None
    # zero exactly at its own predictions, never negative, the stated sum everywhere
    z = float(loss(preds))
    if not (-1e-12 <= z < 1e-9):
        ctx.fail(f"{label}:own-predictions", f"loss at its own predictions is {z}")
    base = {g: np.where(np.arange(t.size).reshape(t.shape) % 2 == 0, t, preds[g]) for g, t in targets.items()}
    for trial in (targets, base, {g: t + 0.8 for g, t in preds.items()}, {g: t - 1.3 * (np.arange(t.size).reshape(t.shape) % 3)
                                                                         for g, t in preds.items()}):
        v = float(loss(trial))
        e = sum(weights[g] * ((trial[g] - preds[g]) ** 2).sum() for g in names)
        ctx.count()
        if v < 0 or not abs(v - e) <= 1e-7 * (1 + e):
            ctx.fail(f"{label}:sum", f"loss {v} but the mean squared errors of its own predictions add up to {e}")
    # one bin's targets act through that bin only: additive over bins
    B = next(iter(targets.values())).shape[0]
    for b in range(B):
        for g in names:
            if targets[g].shape[0] <= b:
                continue
            t = {q: x.copy() for q, x in targets.items()}
            t[g][b] = t[g][b] + 0.6
            d1 = float(loss(t)) - float(loss(targets))
            far = {q: x + (0.9 if True else 0) for q, x in targets.items()}
            for q in far:
                if targets[q].shape[0] > b:
                    far[q][b] = targets[q][b]
            far2 = {q: x.copy() for q, x in far.items()}
            far2[g][b] = far2[g][b] + 0.6
            d2 = float(loss(far2)) - float(loss(far))
            ctx.count()
            ctx.nontrivial(label, b, g)
            if not abs(d1 - d2) <= 1e-7 * (1 + abs(d1)):
                ctx.fail(f"{label}:bin-separable:{g}", f"the effect of bin {b}'s {g} depends on the other bins' targets", d1=d1, d2=d2)
    return preds


def expectation(ctx, kind, par, tarr, lg, tob, lgt0=None):
    """Population expectation of the moments and its standard error, from the Monte Carlo population itself."""
    import jax.random as jran
    from diffmah import mah_halopop

    lgt0 = LGT0 if lgt0 is None else lgt0
    mc, _ = mods(kind)
    f = getattr(mc, f"mc_diffmah_{kind[:3]}pop")
    n = 4000
    r = f(par, np.full(n, lg), np.full(n, tob), jran.key(77), lgt0)
    E = np.asarray(mah_halopop(r.mah_params_early, tarr, lgt0)[1], float)
    L = np.asarray(mah_halopop(r.mah_params_late, tarr, lgt0)[1], float)
    fe = np.asarray(r.frac_early_cens, float)[:, None]
    w = np.concatenate([fe, 1 - fe]) / n
    X = np.concatenate([E, L])
    mu = (w * X).sum(0)
    sd = np.sqrt((w * (X - mu) ** 2).sum(0))
    k4 = (w * (X - mu) ** 4).sum(0)
    se_m = sd * np.sqrt(1 / 200 + 1 / n)
    se_s = np.sqrt(np.maximum(k4 - sd ** 4, 0) * (1 / 200 + 1 / n)) / (2 * sd)
    return mu, sd, se_m, se_s


def schedules(key, B):
    """Ways of giving every bin a random key of its own from the key of the loss."""
    import jax.random as jran

    out = {}
    for nm, k in (("", key), ("first:", jran.split(key, 2)[0]), ("second:", jran.split(key, 2)[1])):
        ks = jran.split(k, B)
        out[nm + "split"] = [ks[b] for b in range(B)]
        out[nm + "fold"] = [jran.fold_in(k, b) for b in range(B)]
    return out


def same_sample(ctx, rec, kind, par, tarr, lg, tob, pm, ps, key):
    """Which key schedules make the loss' predictions those of the single-bin prediction, bin by bin."""
    mc, _ = mods(kind)
    for name, ks in schedules(key, len(lg)).items():
        for b, k in enumerate(ks):
            ok, r = ctx.call("predict", mc.predict_mah_moments_singlebin, par, tarr[b], lg[b], tob[b], k, LGT0)
            if ok:
                good = bool(np.allclose(np.asarray(r[0]), pm[b], rtol=0, atol=2e-6) and np.allclose(np.asarray(r[1]), ps[b], rtol=0, atol=2e-6))
                rec.setdefault(name, []).append((good, dict(lgm=lg[b], t_obs=tob[b], bins=len(lg), bin=b, times=tarr[b], predicted=pm[b], single=r[0])))


def judge_samples(ctx, label, rec):
    """A schedule that explains the predictions of some bins exactly has to explain those of all."""
    for name, v in rec.items():
        if any(g for g, _ in v):
            ctx.note(f"{label}: {sum(g for g, _ in v)} of {len(v)} bins are the single-bin predictions with keys '{name}'")
            ctx.count(len(v))
            bad = [c for g, c in v if not g]
            if bad:
                ctx.fail(f"{label}:single-bin", f"{len(bad)} of {len(v)} bins enter the loss with other moments than predicted for that bin", **bad[0])
            return
    ctx.note(f"{label}: no key schedule identified, predictions are compared with the population statistically")


def check_expect(ctx, label, kind, par, tarr, lg, tob, pm, ps):
    for b in range(len(lg)):
        mu, sd, em, es = expectation(ctx, kind, par, tarr[b], lg[b], tob[b])
        ctx.count(2)
        for what, a, e, s in (("mean", pm[b], mu, em), ("scatter", ps[b], sd, es)):
            if not (abs(a - e) <= 7 * s + 1e-3).all():
                j = int(np.argmax(abs(a - e) / s))
                ctx.fail(f"{label}:expected-{what}", f"bin {b}: the loss is centred on {what} {a[j]:.4f}, the {kind} population at this "
                         f"bin's mass and times has {e[j]:.4f} +- {s[j]:.4f}", lgm=lg[b], t_obs=tob[b], t=tarr[b][j])


def respond(ctx, label, kind, par, tarr, lg, tob, pa, pb, lgt0):
    """Mean predictions of a loss with the same key and another present-day age: every bin moves as its population does."""
    for b in range(len(lg)):
        e = expectation(ctx, kind, par, tarr[b], lg[b], tob[b], lgt0)[0] - expectation(ctx, kind, par, tarr[b], lg[b], tob[b])[0]
        d = pb[b] - pa[b]
        ctx.count(len(e))
        ctx.nontrivial(label, kind, "age", b)
        if not (abs(d - e) <= 0.3 * abs(e) + 0.01).all():
            j = int(np.argmax(abs(d - e)))
            ctx.fail(f"{label}:age", f"bin {b}: with a present-day age of {10 ** lgt0:.1f} instead of {T0} the loss' predicted mean moves by "
                     f"{d[j]:.4f}, that of the {kind} population by {e[j]:.4f}", lgm=lg[b], t_obs=tob[b], t=tarr[b][j])


def _losses(ctx, kind):
    import jax.random as jran

    _, fh = mods(kind)
    shapes = ((3, 4, 0), (1, 3, 0), (2, 1, 0), (2, 2, 5), (3, 2, 7)) if not ctx.thorough else ((3, 4, 0), (1, 3, 0), (2, 1, 0), (2, 2, 5), (3, 2, 7), (10, 2, 0), (1, 1, 0), (7, 2, 0), (4, 6, 0), (2, 12, 0))
    pts = [points(False)[i] for i in (0, 1)] if not ctx.thorough else points(True)[:8]
    rec = {}
    for (B, nt, salt), (pn, par) in itertools.product(shapes, pts):
        tarr, lg, tob, mu, sd, fp = data(B, nt, salt)
        for k in ((5,) if not ctx.thorough else (5, 6, 7)):
            key = jran.key(k)
            f = lambda t: fh.loss_mah_moments_multibin(par, tarr, lg, tob, key, LGT0, t["mean"], t["std"], fp)
            ok, v = ctx.call("loss", f, dict(mean=mu, std=sd))
            if not ok:
                return
            w = 1.0 / (B * nt)
            p = check_quadratic(ctx, f"loss", f, dict(mean=mu, std=sd), dict(mean=w, std=w))
            if p is None:
                continue
            check_expect(ctx, "loss", kind, par, tarr, lg, tob, p["mean"], p["std"])
            same_sample(ctx, rec, kind, par, tarr, lg, tob, p["mean"], p["std"], key)
            if salt == 0 and nt > 1:
                _, pb, _ = infer(lambda x: float(fh.loss_mah_moments_multibin(par, tarr, lg, tob, key, LGT1, x, sd, fp)), mu)
                respond(ctx, "loss", kind, par, tarr, lg, tob, p["mean"], pb, LGT1)
            # bins in another order predict the same kind of thing for their own inputs
            o = np.arange(B)[::-1]
            f2 = lambda t: fh.loss_mah_moments_multibin(par, tarr[o], lg[o], tob[o], key, LGT0, t["mean"], t["std"], fp[o])
            if B == 2:
                p2 = check_quadratic(ctx, "loss:reordered", f2, dict(mean=mu[o], std=sd[o]), dict(mean=w, std=w))
                if p2 is not None:
                    check_expect(ctx, "loss:reordered", kind, par, tarr[o], lg[o], tob[o], p2["mean"], p2["std"])
    judge_samples(ctx, "loss", rec)
    # two bins with the same inputs use different samples
    tarr, lg, tob, mu, sd, fp = data(2, 3)
    tarr, lg, tob = tarr[[0, 0]], lg[[0, 0]], tob[[0, 0]]
    f = lambda t: fh.loss_mah_moments_multibin(pop.default(), tarr, lg, tob, jran.key(1), LGT0, t["mean"], t["std"], fp)
    _, p, _ = infer(lambda x: float(f(dict(mean=x, std=sd))), mu)
    if np.allclose(p[0], p[1], atol=1e-9):
        ctx.fail("loss:same-sample", "two bins with equal inputs are predicted from the very same random halos")
    if kind == "cens":
        _uparams(ctx, fh.loss_mah_moments_multibin_u_params, fh.loss_mah_moments_multibin,
                 fh.loss_and_grads_mah_moments_multibin, data(2, 3), key_first=False)
    else:
        args = (pop.default(), tarr, lg, tob, jran.key(1), LGT0, mu, sd, fp)
        ok, vg = ctx.call("value_and_grad", fh.loss_and_grads_mah_moments_multibin, *args)
        if ok and abs(float(vg[0]) - float(fh.loss_mah_moments_multibin(*args))) > 1e-10:
            ctx.fail("value_and_grad", "loss returned with the gradient differs from the loss")
    ctx.sample(shapes=[list(s) for s in shapes])


def _pack(d, key):
    tarr, lg, tob, mu, sd, fp = d
    return (tarr, lg, tob, key, LGT0, mu, sd, fp)


def _uparams(ctx, fu, fb, fg, d, key_first, ld=None):
    """Losses in unbounded parameters equal those at the bounded parameters they map to; missing ones are default."""
    import jax.random as jran
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp

    ld = ld if ld is not None else _pack(d, jran.key(3))
    U0 = bcp.DEFAULT_DIFFMAHPOP_U_PARAMS
    u0 = np.array([float(x) for x in U0])
    off = np.modf(0.37 + 0.6180339887 * np.arange(len(u0)))[0] - 0.5
    for i, u in enumerate([u0, u0 + 5 * off, u0 - 8 * off, u0 + 12 * np.roll(off, 31)]):
        up = type(U0)(*u)
        p = bcp.get_diffmahpop_params_from_u_params(up)
        ok, a = ctx.call("u_params", fu, up, ld)
        ok2, g = ctx.call("u_params", fg, up, ld)
        if not (ok and ok2):
            return
        b = float(fb(p, *ld))
        ctx.count(2)
        ctx.nontrivial("u_params", i)
        if not np.isfinite(b) or abs(float(a) - b) > 1e-9 * (1 + abs(b)) or abs(float(g[0]) - b) > 1e-9 * (1 + abs(b)):
            ctx.fail("u_params", f"loss in unbounded parameters {float(a)} (with gradient {float(g[0])}), at their bounded values {b}")
    for names in (("u_fec_lgm_x0",), ("u_std_u_late_yhi", "u_fec_t_obs_x0"), ("u_logtc_lgm_c1_late", "u_utp_loc_lgm_x0", "u_rho_late_early")):
        S = namedtuple("S", names)
        sub = S(*[getattr(U0, n) + 4.0 * (i + 1) for i, n in enumerate(names)])
        ok, a = ctx.call("subset", fu, sub, ld)
        if not ok:
            return
        b = float(fb(bcp.get_diffmahpop_params_from_u_params(U0._replace(**sub._asdict())), *ld))
        ctx.count()
        if abs(float(a) - b) > 1e-9 * (1 + abs(b)):
            ctx.fail("u_params:subset", f"loss with {names} only is {float(a)}, with the others at their defaults {b}")


def losses_cens(ctx):
    _losses(ctx, "cens")


def losses_sats(ctx):
    _losses(ctx, "sats")


def censat(ctx, which=0):
    import jax.random as jran
    from diffmah.diffmahpop_kernels import bimod_censat_fithelp as fh

    combos = (((2, 3, 0), (3, 2, 1)),) if which == 0 else (((2, 1, 5), (1, 2, 6)),)
    if ctx.thorough:
        combos += (((1, 1, 0), (2, 4, 1)), ((3, 3, 0), (3, 3, 1))) if which == 0 else (((4, 2, 0), (1, 5, 1)), ((7, 2, 0), (6, 2, 1)))
    recs = {}, {}
    for ((Bc, nc, ac), (Bs, ns, as_)), (pn, par) in itertools.product(combos, [points(False)[i] for i in (0, 1)]):
        C, S = data(Bc, nc, ac), data(Bs, ns, as_)
        key = jran.key(9)

        def f(t, C=C, S=S, par=par, lgt0=LGT0):
            return fh.loss_mah_moments_multibin_censat(par, C[0], C[1], C[2], S[0], S[1], S[2], key, lgt0, t["cmean"], t["cstd"], C[5],
                                                       t["smean"], t["sstd"], S[5])

        T = dict(cmean=C[3], cstd=C[4], smean=S[3], sstd=S[4])
        ok, v = ctx.call("censat", f, T)
        if not ok:
            return
        wc, ws = 1 / (Bc * nc), 1 / (Bs * ns)
        p = check_quadratic(ctx, "censat", f, T, dict(cmean=wc, cstd=wc, smean=ws, sstd=ws))
        if p is None:
            continue
        check_expect(ctx, "censat:cens", "cens", par, C[0], C[1], C[2], p["cmean"], p["cstd"])
        check_expect(ctx, "censat:sats", "sats", par, S[0], S[1], S[2], p["smean"], p["sstd"])
        same_sample(ctx, recs[0], "cens", par, C[0], C[1], C[2], p["cmean"], p["cstd"], key)
        same_sample(ctx, recs[1], "sats", par, S[0], S[1], S[2], p["smean"], p["sstd"], key)
        if which == 0:
            for kind, q, D_ in (("cens", "cmean", C), ("sats", "smean", S)):
                _, pb, _ = infer(lambda x: float(f({**T, q: x}, lgt0=LGT1)), T[q])
                respond(ctx, "censat", kind, par, D_[0], D_[1], D_[2], p[q], pb, LGT1)
        # each part has its own inputs: changing one population's inputs leaves the other's predictions alone
        C2 = (C[0], C[1] + 0.4, C[2]) + C[3:]
        S2 = (S[0], S[1] - 0.3, S[2]) + S[3:]
        for what, kw, keep in (("cens", dict(C=C2), ("smean", "sstd")), ("sats", dict(S=S2), ("cmean", "cstd"))):
            g = lambda t: f(t, **kw)
            for q in p:
                _, c, _ = infer(lambda x: float(g({**T, q: x})), T[q])
                ctx.count(c.size)
                same = np.allclose(c, p[q], atol=1e-8)
                if (q in keep) != same:
                    ctx.fail(f"censat:inputs:{what}:{q}", f"changing the {what} masses " +
                             ("changes" if q in keep else "does not change") + f" the predictions behind {q}")
        # a subset of parameters: the others at their defaults
        from collections import namedtuple as nt
        V = nt("V", ("fec_lgm_x0", "std_u_logtc_yhi"))(12.9, 1.4)
        a = float(f(T, par=V))
        b = float(f(T, par=pop.default()._replace(**V._asdict())))
        if abs(a - b) > 1e-10:
            ctx.fail("censat:subset", f"loss with two parameters supplied {a}, with the others at their defaults {b}")
    judge_samples(ctx, "censat:cens", recs[0])
    judge_samples(ctx, "censat:sats", recs[1])
    ctx.sample(combos=str(combos))


def censat_wide(ctx):
    censat(ctx, 1)


def censat_u(ctx):
    import jax.random as jran
    from diffmah.diffmahpop_kernels import bimod_censat_fithelp as fh

    C, S = data(2, 3), data(2, 2, salt=1)
    ld = (C[0], C[1], C[2], S[0], S[1], S[2], jran.key(4), LGT0, C[3], C[4], C[5], S[3], S[4], S[5])
    _uparams(ctx, fh.loss_mah_moments_multibin_censat_u_params, fh.loss_mah_moments_multibin_censat,
             fh.loss_and_grads_mah_moments_multibin_censat_u_params, None, False, ld=ld)
    ok, vg = ctx.call("value_and_grad", fh.loss_and_grads_mah_moments_multibin_censat, pop.default(), *ld)
    if ok and abs(float(vg[0]) - float(fh.loss_mah_moments_multibin_censat(pop.default(), *ld))) > 1e-10:
        ctx.fail("value_and_grad", "loss returned with the gradient differs from the loss")
    ctx.sample(loss=float(vg[0]) if ok else None)


X = dict(x64=True)
vlib.main(
    "C16", [("censat", censat, X), ("censat_wide", censat_wide, X), ("censat_u", censat_u, X), ("losses_cens", losses_cens, X), ("losses_sats", losses_sats, X), ("moments_cens64", moments_cens, X),
            ("moments_sats64", moments_sats, X), ("moments_cens32", moments_cens), ("moments_sats32", moments_sats)],
    level="exploration",
    rule="predicted moments against the weighted sample moments for every mass/time/key/parameter/time-grid combination of a "
         "lattice; every entry of every target array of every loss varied on its own (predictions and weights reconstructed from "
         "the loss), every bin varied with all others moved; a case is non-trivial per distinct lattice point or target entry",
    assumptions=["the losses' own predictions are identified with the population at 7 standard errors of a 200-halo sample"])
