"""C24 calibration of the components: losses, their gradients and the fits of single relations."""
import importlib
import itertools

import numpy as np
import ref
import vlib

D = "diffmah.diffmahpop_kernels."
GLOBAL = [(f"{D}{pk}.logm0_{c}_{el}", c, f"{pk}.{c}.{el}")
          for pk in ("bimod_logm0_kernels", "bimod_logm0_sats") for c in ("c0", "c1") for el in ("early", "late")]
UNB = [(D + "early_index_alpha", "early_index"), (D + "early_index_beta", "early_index"), (D + "early_index_pop", "early_index"),
       (D + "logtc_early", "logtc"), (D + "logtc_late", "logtc")]
LGM = (11.2, 12.7, 14.4)
TOBS = (1.7, 5.2, 9.0, 13.4)
TP = (0.8, 3.1, 8.2, 12.6)
X0 = 0.1      # lower edge and margin of the peak-time fraction
EPS = 1e-4


def mod(name):
    return importlib.import_module(name)


def param_points(bounds, default, thorough):
    """default, middle, every corner pattern of +-, every parameter moved alone."""
    P = type(default)
    b = np.array([[float(v) for v in x] for x in bounds])
    n = len(b)
    out = [tuple(float(x) for x in default), tuple(b.mean(1))]
    for k in range(n):
        for f in ((0.03, 0.5, 0.97) if not thorough else (0.01, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99)):
            v = np.array([float(x) for x in default])
            v[k] = b[k, 0] + f * (b[k, 1] - b[k, 0])
            out.append(tuple(v))
    corners = list(itertools.product((0.05, 0.95), repeat=n))
    if not thorough and len(corners) > 32:
        corners = corners[::len(corners) // 32]
    for c in corners:
        out.append(tuple(b[:, 0] + np.array(c) * (b[:, 1] - b[:, 0])))
    return [P(*v) for v in out]


def close(a, b, rtol, atol):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=atol)


def difference(f, x, h=1e-5):
    x = np.asarray(x, float)
    g = []
    for k in range(x.size):
        d = np.zeros_like(x)
        d[k] = h * max(1.0, abs(x[k]))
        g.append((f(x + d) - f(x - d)) / (2 * d[k]))
    return np.array(g)


def smooth(f, x, g, h=1e-5):
    """One-sided slopes agree: no kink of a clipped prediction at this point."""
    x = np.asarray(x, float)
    for k in range(x.size):
        d = np.zeros_like(x)
        d[k] = h * max(1.0, abs(x[k]))
        a, b = (f(x + d) - f(x)) / d[k], (f(x) - f(x - d)) / d[k]
        if abs(a - b) > 1e-3 * (abs(a) + abs(b)) + 1e-5:
            return False
    return True


def deduce(lossfn, n):
    """Predictions implied by a mean-square loss: L(y=0) and L(y=1) of each single point."""
    p = []
    for i in range(n):
        l0, l1 = lossfn(i, 0.0), lossfn(i, 1.0)
        p.append(0.5 * (1 + l0 - l1))
    return np.array(p)


def patterns(pred, thorough):
    for d in itertools.product((-0.3, 0.0, 2.5) if not thorough else (-1.5, -0.3, 0.0, 0.2, 2.0), repeat=len(pred)):
        yield np.asarray(pred) + np.array(d), np.mean(np.square(d))


def global_losses(ctx):
    """Mass-normalisation components: the loss is the sum over data sets of each one's mean squared deviation."""
    grid = np.array(list(itertools.product(TOBS, TP)))
    for name, c, lab in GLOBAL:
        m = mod(name)
        U = c.upper()
        P, B = getattr(m, f"DEFAULT_LGM0POP_{U}_PARAMS"), getattr(m, f"LGM0POP_{U}_BOUNDS")
        L, LG = m.global_loss_kern, m.global_loss_and_grads_kern
        kern = getattr(m, f"_pred_{c}_kern", None)
        if kern is None:
            ctx.note(f"skipped: _pred_{c}_kern of {lab}")
        for ip, p in enumerate(param_points(B, P, ctx.thorough)):
            one = lambda i, y: float(L(p, [(grid[i:i + 1, 0], grid[i:i + 1, 1], np.array([y]))]))
            ok, pred = ctx.call(f"{lab}:loss", deduce, one, len(grid))
            if not ok:
                break
            ctx.count(2 * len(grid))
            ctx.nontrivial(lab, ip)
            if kern is not None and not close(pred, kern(p, grid[:, 0], grid[:, 1]), 1e-7, 1e-9):
                ctx.fail(f"{lab}:pred", "the loss of a single point is not the squared deviation from the relation", params=p)
            sets = []
            for js in ((0, 5, 10), (3, 15), (6,)):
                js = np.array(js)
                sets.append((grid[js, 0], grid[js, 1], pred[js]))
            vals = []
            for s in sets:
                for y, want in patterns(s[2], ctx.thorough):
                    got = float(L(p, [(s[0], s[1], y)]))
                    ctx.count()
                    if not close(got, want, 1e-7, 1e-10):
                        ctx.fail(f"{lab}:mse", f"loss {got} is not the mean squared deviation {want}", params=p, target=y, pred=s[2])
                    vals.append(((s[0], s[1], y), want))
            vals = [vals[i] for i in (5, 13, 30, 37)] if len(vals) == 39 else [vals[i] for i in (5, 60, 130, -1)]  # sizes 3, 3, 2, 1
            if ip < 3 or ctx.thorough:
                combos = [x for r in ((1, 2, 3) if ctx.thorough else (1, 2)) for x in itertools.product(range(4), repeat=r)]
                combos += [(0, 2, 3), (3, 2, 1), (2, 0, 2)]
                for combo in combos:
                    for typ in (list, tuple) if len(combo) == 3 else (list,):
                        data = typ(vals[i][0] for i in combo)
                        want = sum(vals[i][1] for i in combo)
                        got, g = LG(p, data)
                        ctx.count()
                        ctx.nontrivial(lab, ip, combo)
                        if not close(got, want, 1e-7, 1e-10):
                            ctx.fail(f"{lab}:sum", f"loss {got} of {len(combo)} data sets is not the sum {want}", params=p, combo=combo)
            data = [v[0] for v in vals[-2:]]
            val, g = LG(p, data)
            f = lambda x: float(L(type(p)(*x), data))
            x = np.array([float(v) for v in p])
            check_gradient(ctx, f"{lab}", f, x, val, np.array([float(v) for v in g]))
    ctx.sample(module=GLOBAL[0][0], data_sets=3)


def check_gradient(ctx, lab, f, x, val, g):
    ctx.count(2 * x.size)
    if not np.isfinite(float(val)) or not np.all(np.isfinite(g)):
        ctx.fail(f"{lab}:finite", f"loss {val} or gradient not finite", x=x, grad=g)
        return
    if not close(f(x), float(val), 1e-9, 1e-12):
        ctx.fail(f"{lab}:value", "value returned with the gradient differs from the loss", x=x)
    num = difference(f, x)
    if not close(g, num, 2e-4, 2e-6 * (1 + float(val))):
        if smooth(f, x, g):
            ctx.fail(f"{lab}:slope", "gradient is not the slope of the loss", x=x, grad=g, slope=num)


def unbounded_losses(ctx):
    """Index and transition-time components: the loss in the optimiser's coordinates is that of the parameters they stand for."""
    grid = np.array(list(itertools.product(LGM, TOBS[::2] + TOBS[-1:], TP[::2] + TP[-1:])))
    for name, q in UNB:
        m = mod(name)
        lab = name.split(".")[-1]
        P = getattr(m, f"DEFAULT_{q.upper()}_PARAMS")
        B = getattr(m, f"{q.upper()}_PBOUNDS")
        to_u, to_b = getattr(m, f"get_unbounded_{q}_params"), getattr(m, f"get_bounded_{q}_params")
        LG = m.loss_and_grads_kern
        kern = getattr(m, f"_pred_{q}_kern", None)
        for ip, p in enumerate(param_points(B, P, ctx.thorough)):
            u = to_u(p)
            up = type(u)
            ua = np.array([float(v) for v in u])
            data = lambda j, y: (grid[j, 0], grid[j, 1], grid[j, 2], np.asarray(y, float))
            one = lambda i, y: float(LG(ua, data([i], [y]))[0])
            ok, pred = ctx.call(f"{lab}:loss", deduce, one, len(grid))
            if not ok:
                break
            ctx.count(2 * len(grid))
            ctx.nontrivial(lab, ip)
            lo, hi = ref.BOUNDS[q]
            if not np.all((pred > lo) & (pred < hi)):
                ctx.fail(f"{lab}:range", "prediction implied by the loss outside the range of histories", params=p, pred=pred)
            if kern is not None and not close(pred, kern(p, *grid.T), 1e-6, 1e-8):
                ctx.fail(f"{lab}:pred", "the loss is not that of the parameters the coordinates stand for", params=p)
            if not close([float(v) for v in to_b(up(*ua))], [float(v) for v in p], 1e-6, 1e-9):
                ctx.fail(f"{lab}:trip", "coordinates do not stand for the parameters", params=p)
            for js in ([0, 4, 9], [20, 3], [11]):
                for y, want in patterns(pred[js], ctx.thorough):
                    got = float(LG(ua, data(js, y))[0])
                    ctx.count()
                    if not close(got, want, 1e-7, 1e-10):
                        ctx.fail(f"{lab}:mse", f"loss {got} is not the mean squared deviation {want}", params=p, target=y)
            for form in (up(*ua), list(ua), tuple(ua)):
                y = pred + 0.1
                got, g = LG(form, data(np.arange(len(grid)), y))
                ctx.count()
                if not close(got, 0.01, 1e-6, 1e-9):
                    ctx.fail(f"{lab}:form", f"loss depends on how the coordinates are passed ({type(form).__name__})", params=p)
            js = np.arange(len(grid))
            y = pred + 0.2 * np.cos(js)
            val, g = LG(ua, data(js, y))
            f = lambda x: float(LG(x, data(js, y))[0])
            check_gradient(ctx, lab, f, ua, val, np.array([float(v) for v in g]))
    ctx.sample(module=UNB[0][0], grid=len(grid))


def peak_losses(ctx):
    """Peak-time distributions: losses of the truncated normal (fraction and time) and of the sigmoid model."""
    tpk = mod(D + "t_peak_kernels.utp_pdf_kernels")
    tpc = mod(D + "t_peak_kernels.tp_pdf_cens")
    flex = mod(D + "t_peak_kernels.tp_pdf_cens_flex")
    from scipy.stats import truncnorm

    x = np.linspace(0.12, 0.98, 9)
    fr = (0.05, 0.3, 0.5, 0.8, 0.95) if not ctx.thorough else tuple(np.linspace(0.03, 0.97, 15))
    for fl, fs in itertools.product(fr, fr):
        loc, sc = X0 + EPS + fl * (0.9 - 2 * EPS), EPS + fs * (1 - EPS)
        u = tpk.get_unbounded_utp_params(tpk.UTP_Params(loc, sc))
        ua = np.array([float(v) for v in u])
        want0 = truncnorm.pdf(x, (0.1 - loc) / sc, (1.0 - loc) / sc, loc, sc)
        for t0 in (None, 13.8, 3.3):
            LG = tpk.loss_and_grads_kern if t0 is None else tpc.loss_and_grads_kern
            lab = "utp" if t0 is None else "tp_cens"
            s = 1.0 if t0 is None else t0
            data = lambda y: (x * s, np.asarray(y)) + (() if t0 is None else (t0,))
            for k, off in enumerate((0.0, 0.3, -0.2, np.sin(5 * x), 4 * (x > 0.5))):
                y = want0 / s + off
                want = np.mean(np.square(np.broadcast_to(off, x.shape)))
                got, g = LG(ua, data(y))
                ctx.count()
                ctx.nontrivial(lab, fl, fs, k, t0)
                if not close(got, want, 1e-5, 1e-7):
                    ctx.fail(f"{lab}:mse", f"loss {float(got)} is not the mean squared deviation {want} of the densities", loc=loc, scale=sc, t_0=t0)
                f = lambda z: float(LG(z, data(y))[0])
                check_gradient(ctx, lab, f, ua, got, np.array([float(v) for v in g]))
    # sigmoid model
    P, B = flex.DEFAULT_TPCENS_PARAMS, flex.TPCENS_PBOUNDS
    frac = getattr(flex, "_frac_peaked_vs_lgm", None)
    utp = np.array([[0.1, 0.4, 0.7], [0.2, 0.5, 0.95], [0.3, 0.6, 0.9], [0.05, 0.5, 1.0]])
    lg, to = np.array([11.2, 12.6, 13.5, 14.7]), np.array([2.0, 4.4, 8.0, 13.4])
    for ip, p in enumerate(param_points(B, P, ctx.thorough)):
        up1 = lambda i, j, y: float(flex.loss_multimass(p, (utp[i:i + 1, j:j + 1], np.array([[y]]), lg[i:i + 1], to[i:i + 1])))
        # |p+1| - |p-2| = 2p - 1 for p in [0, 1]
        pred = np.array([[(up1(i, j, -1.0) - up1(i, j, 2.0) + 1) / 2 for j in range(3)] for i in range(4)])
        ctx.count(24)
        ctx.nontrivial("flex", ip)
        if np.any(pred < -1e-9) or np.any(pred > 1 + 1e-9) or np.any(np.diff(pred, axis=1) < -1e-12):
            ctx.fail("flex:range", "the fitted fraction of peaked haloes is not a rising fraction", params=p, pred=pred)
        if frac is not None:
            want = np.array([[float(frac(p, utp[i, j], lg[i], to[i])) for j in range(3)] for i in range(4)])
            if not close(pred, want, 1e-6, 1e-8):
                ctx.fail("flex:pred", "loss_multimass does not use each row's own mass and time", params=p)
        for d in itertools.product((-0.3, 0.0, 0.6), repeat=4):
            y = pred + np.array(d)[:, None] * np.array([1.0, -0.5, 2.0])
            want = np.mean(np.abs(y - pred))
            got, g = flex.loss_and_grad_multimass(p, (utp, y, lg, to))
            ctx.count()
            if not close(got, want, 1e-7, 1e-9):
                ctx.fail("flex:mae", f"loss {float(got)} is not the mean absolute deviation {want}", params=p, d=d)
            if not all(d):
                continue
            f = lambda z: float(flex.loss_multimass(type(p)(*z), (utp, y, lg, to)))
            check_gradient(ctx, "flex", f, np.array([float(v) for v in p]), got, np.array([float(v) for v in g]))
    z = utp[0]
    for x0 in np.linspace(-0.5, 1.9, 13):
        pred = ref.sigmoid(z, x0, 5.0, 0.0, 1.0)
        for y, want in patterns(pred, ctx.thorough):
            got, g = flex.loss_and_grad(np.array([x0]), (z, y))
            ctx.count()
            ctx.nontrivial("flex1", float(x0))
            if not close(got, want, 1e-7, 1e-10):
                ctx.fail("flex1:mse", f"loss {float(got)} is not the mean squared deviation {want}", x0=x0)
            f = lambda q: float(flex.loss_and_grad(q, (z, y))[0])
            check_gradient(ctx, "flex1", f, np.array([x0]), got, np.atleast_1d(np.asarray(g, float)))
    ctx.sample(module="tp_pdf_cens_flex", rows=4)


def vec(p):
    return np.array([float(v) for v in p])


def verdict(ctx, lab, res, start, loss, **info):
    """A fit's report must be true: loss of the returned parameters, not worse than the start."""
    ctx.count()
    try:
        p, best, done, code = res
        p, best, done, code = vec(p), float(best), bool(done), int(code)
    except (TypeError, ValueError) as e:
        ctx.fail(f"{lab}:form", f"a fit does not return (parameters, loss, success, code): {e}"[:200], **info)
        return None
    if not np.all(np.isfinite(p)) or not np.isfinite(best):
        ctx.fail(f"{lab}:finite", "fit returned non-finite numbers", p=p, loss=best, **info)
        return None
    got = loss(p)
    if not close(got, best, 1e-3, 3e-6):
        ctx.fail(f"{lab}:loss", f"reported loss {best} is not that of the returned parameters ({got})", p=p, code=code, **info)
    if best > start * (1 + 1e-4) + 1e-7:
        ctx.fail(f"{lab}:worse", f"loss {best} is worse than that of the start ({start})", p=p, code=code, **info)
    if int(code) not in (0, 1) or not bool(done):
        ctx.fail(f"{lab}:code", f"outcome {done}, {code} on a healthy loss", p=p, **info)
    return p


def global_fits(ctx):
    """The eight relations of the mass normalisation: fits of targets made by the model itself, from every start."""
    t = np.linspace(1.8, 13.6, 12)
    for name, c, lab in GLOBAL:
        m = mod(name)
        U = c.upper()
        P, B = getattr(m, f"DEFAULT_LGM0POP_{U}_PARAMS"), getattr(m, f"LGM0POP_{U}_BOUNDS")
        fit = getattr(m, f"fit_global_{c}_model")
        L = m.global_loss_kern
        kern = getattr(m, f"_pred_{c}_kern", None)
        pts = param_points(B, P, False)
        truths = pts[:3 + len(P)] if not ctx.thorough else pts
        starts = [None, pts[1]] + ([pts[4], pts[-1]] if ctx.thorough else [pts[-2]])
        for it, truth in enumerate(truths):
            for shape in ("one", "three"):
                cols = [(t, 0.7 * t)] if shape == "one" else [(t, 0.3 * t), (t[:7], 0.95 * t[:7]), (t[2:9], np.full(7, 2.0))]
                data = []
                for a, b in cols:
                    one = lambda i, y: float(L(truth, [(a[i:i + 1], b[i:i + 1], np.array([y]))]))
                    y = np.asarray(kern(truth, a, b)) if kern is not None else deduce(one, len(a))
                    data.append((a, b, y))
                for s in starts:
                    start = P if s is None else s
                    l0 = float(L(start, data))
                    args = (data,) if s is None else (data, s)
                    ok, res = ctx.call(f"{lab}:fit", fit, *args)
                    if not ok:
                        break
                    ctx.nontrivial(lab, it, shape, s)
                    p = verdict(ctx, lab, res, l0, lambda x: float(L(type(P)(*x), data)), truth=truth, p_init=start)
                    if p is None:
                        continue
                    best = float(res[1])
                    g = np.abs(np.asarray(vec(m.global_loss_and_grads_kern(start, data)[1]))).max()
                    if l0 > 1e-4 and g > 1e-2 * l0 and best > 0.999 * l0:
                        ctx.fail(f"{lab}:stuck", f"fit left the loss at {best} (start {l0}) although it has slope {g} there", p=p, truth=truth, p_init=start)
                    if s is None and it > 1 and shape == "one" and best > max(2e-3, 0.3 * l0):
                        ctx.fail(f"{lab}:poor", f"fit of the relation's own predictions stayed at loss {best} (start {l0})", p=p, truth=truth)
                    if it == 0 and s is None and best > 1e-6:
                        ctx.fail(f"{lab}:start", f"a start that fits exactly was left, loss {best}", p=p)
    ctx.sample(modules=len(GLOBAL), truths=len(truths))


def peak_fits(ctx):
    """Fits of peak-time densities: true report, inside bounds, recovery of well-posed targets."""
    tpk = mod(D + "t_peak_kernels.utp_pdf_kernels")
    tpc = mod(D + "t_peak_kernels.tp_pdf_cens")
    from scipy.stats import truncnorm

    x = np.linspace(0.11, 0.99, 60)
    locs = (0.15, 0.3, 0.45, 0.6, 0.75, 0.9, 0.99)
    scs = (0.08, 0.15, 0.3, 0.5, 0.8)
    if ctx.thorough:
        locs, scs = np.linspace(0.12, 0.99, 15), np.linspace(0.05, 0.95, 15)
    for loc, sc in itertools.product(locs, scs):
        y = truncnorm.pdf(x, (0.1 - loc) / sc, (1 - loc) / sc, loc, sc)
        jobs = [("utp", None)] + [("tp_cens", t0) for t0 in (13.8, 3.3)]
        for lab, t0 in jobs:
            s = 1.0 if t0 is None else t0
            data = (x * s, y / s) + (() if t0 is None else (t0,))
            starts = [None] if t0 is None else [None, (0.7, 0.3), (loc, sc), (0.97, 0.06), (0.13, 0.9)]
            for st in starts:
                pdf = lambda p: truncnorm.pdf(x, (0.1 - p[0]) / p[1], (1 - p[0]) / p[1], p[0], p[1]) / s
                loss = lambda p: float(np.mean((pdf(p) - y / s) ** 2))
                if t0 is None:
                    ok, res = ctx.call("utp:fit", tpk.t_peak_fitter, *data)
                elif st is None:
                    ok, res = ctx.call("tp_cens:fit", tpc.t_peak_cens_fitter, *data)
                else:
                    ui = tpk.get_unbounded_utp_params(tpk.UTP_Params(*st))
                    ok, res = ctx.call("tp_cens:fit", tpc.t_peak_cens_fitter, *data, u_p_init=ui)
                if not ok:
                    continue
                ctx.nontrivial(lab, loc, sc, t0, st)
                p = verdict(ctx, lab, res, loss(st or (0.5, 0.5)), loss, loc=loc, scale=sc, t_0=t0)
                if p is None:
                    continue
                if not (0.1 <= p[0] <= 1.0 and 0 < p[1] <= 1.0):
                    ctx.fail(f"{lab}:bounds", "best-fit location or scale outside its bounds", p=p, loc=loc, scale=sc)
                if hasattr(res[0], "_fields") and tuple(res[0]._fields) != ("utp_loc", "utp_scale"):
                    ctx.fail(f"{lab}:names", "best fit carries other names", fields=res[0]._fields)
                if lab == "utp" and 0.3 <= loc <= 0.75 and sc >= 0.15 and float(res[1]) > 0.05 * loss((0.5, 0.5)) + 1e-4:
                    ctx.fail(f"{lab}:poor", f"density made by the model not recovered, loss {float(res[1])}", p=p, loc=loc, scale=sc)
    ctx.sample(locs=locs, scales=scs)


if __name__ == "__main__":
    vlib.main("C24", [("global_losses", global_losses, dict(x64=True)), ("unbounded_losses", unbounded_losses, dict(x64=True)),
                      ("peak_losses", peak_losses, dict(x64=True)), ("global_fits", global_fits), ("peak_fits", peak_fits)],
              "exploration",
              "Nontrivial: distinct (component, parameter point, data-set combination, target pattern) evaluated against the definition, and "
              "distinct (component, truth, data shape, start) fitted.",
              assumptions=("predictions between lattice points are not covered",))
