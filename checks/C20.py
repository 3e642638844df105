"""C20 statistics helpers: every small array over tie-rich alphabets against the written definition."""
import itertools
import math
import os

import numpy as np
import vlib

F64 = bool(os.environ.get("JAX_ENABLE_X64"))
PS = (0.0, 0.001, 0.01, 0.07, 0.125, 0.13, 0.1875, 0.22, 0.25, 0.31, 0.34, 0.375, 0.41, 0.4375, 0.499)
DYADIC = (0.0, 0.125, 0.1875, 0.25, 0.375, 0.4375)


def ntrim(p, n):
    """Number dropped at each end, or None when floating-point rounding could decide it."""
    if p not in DYADIC and abs(p * n - round(p * n)) < 1e-4:
        return None
    return math.floor(p * n)


def reference(x, k):
    s = sorted(float(v) for v in x)
    s = s[k:len(s) - k]
    m = math.fsum(s) / len(s)
    v = math.fsum((y - m) ** 2 for y in s) / (len(s) - 1) if len(s) > 1 else None
    return m, v


def trimmed(ctx):
    import jax
    import jax.numpy as jnp
    from diffmah import utils as U

    tol = 1e-10 if F64 else 3e-6
    alph = (-3.0, 0.0, 1.0, 2.5)
    sets = [(n, alph) for n in (1, 2, 3, 4, 5)] + [(6, alph[:3]), (7, alph[1:3]), (8, alph[1:3]), (9, alph[1:3]), (10, (1.0, 2.5))]
    if ctx.thorough:
        sets = [(n, alph) for n in range(1, 8)] + [(8, alph[:3]), (9, alph[:3])] + [(n, (0.0, 1.0)) for n in (10, 11, 12, 13)]
    fm = jax.vmap(U.trimmed_mean, in_axes=(0, None))
    fv = jax.vmap(U.trimmed_mean_and_variance, in_axes=(0, None))
    for n, al in sets:
        X = np.array(list(itertools.product(al, repeat=n)))
        for shift, scale in ((0.0, 1.0), (12.0, 0.25)) if n <= 5 else ((0.0, 1.0),):
            Y = X * scale + shift
            Sd = np.sort(Y, axis=1)
            for p in PS:
                k = ntrim(p, n)
                if k is None:
                    continue
                kept = Sd[:, k:n - k]
                m = kept.mean(1)
                v = kept.var(1, ddof=1) if n - 2 * k > 1 else None
                ok, gm = ctx.call("mean", fm, jnp.asarray(Y), p)
                ok2, gv = ctx.call("both", fv, jnp.asarray(Y), p)
                if not (ok and ok2):
                    return
                gm, g2, gv = np.asarray(gm, float), np.asarray(gv[0], float), np.asarray(gv[1], float)
                ctx.count(2 * len(X))
                ctx.nontrivial_n("trim", n, p, shift, n=len(X)) if len(X) < 300 else ctx.nontrivial_n("trim", n, p, shift, n=300)
                t = tol * (1 + abs(m))
                for nm, a, b, tt in (("mean", gm, m, t), ("mean-of-pair", g2, m, t)) + ((("variance", gv, v, tol * 50 * (1 + abs(m)) * scale),) if v is not None else ()):
                    bad = ~(abs(a - b) <= tt)
                    if bad.any():
                        j = int(np.flatnonzero(bad)[0])
                        ctx.fail(f"trimmed:{nm}", f"trimmed {nm} of {Y[j].tolist()} at {p} is {a[j]}, by definition {b[j]}", n=n, p_trim=p)
    # the functions themselves, not mapped; other shapes; larger sizes with ties
    for n in (1, 2, 3, 7, 20, 41) + ((100, 257) if ctx.thorough else ()):
        for pat, x in (("ramp", np.arange(n) * 0.1), ("down", -np.arange(n) * 1.0), ("ties", np.arange(n) // 3 * 1.0), ("two", np.arange(n) % 2 * 5.0),
                       ("same", np.full(n, 3.3)), ("outlier", np.where(np.arange(n) == n // 2, 1e4, np.arange(n) % 5))):
            for p in PS:
                k = ntrim(p, n)
                if k is None:
                    continue
                m, v = reference(np.asarray(x, np.float64 if F64 else np.float32), k)
                ok, a = ctx.call("mean", U.trimmed_mean, jnp.asarray(x), p)
                ok2, b = ctx.call("both", U.trimmed_mean_and_variance, np.asarray(x), p)
                if not (ok and ok2):
                    return
                ctx.count()
                ctx.nontrivial("pattern", n, pat, p)
                big = float(np.max(np.abs(x))) + 1
                if not (abs(float(a) - m) <= tol * big and abs(float(b[0]) - m) <= tol * big):
                    ctx.fail(f"trimmed:{pat}:mean", f"trimmed mean {float(a)}, {float(b[0])} of {n} values ({pat}) at {p}, by definition {m}")
                if v is not None and not abs(float(b[1]) - v) <= tol * 50 * big + 20 * tol * v:
                    ctx.fail(f"trimmed:{pat}:variance", f"trimmed variance {float(b[1])} of {n} values ({pat}) at {p}, by definition {v}")
    X = np.arange(12.0).reshape(3, 4)[:, ::-1] ** 2
    ok, a = ctx.call("matrix", U.trimmed_mean, jnp.asarray(X), 0.1)
    if ok and (np.shape(a) != () or abs(float(a) - reference(X.ravel(), 1)[0]) > 1e-4):
        ctx.fail("trimmed:matrix", "trimmed mean of a matrix is not that of its values")
    ctx.sample(array=[1.0, 1.0, 2.5, 0.0], p_trim=0.25)


def helpers(ctx):
    import jax.numpy as jnp
    from diffmah import utils as U

    # interval widths
    alph = (0.1, 0.5, 1.0, 2.0, 3.5, 7.0, 13.8)
    for n in range(2, 8 if ctx.thorough else 7):
        for t in itertools.combinations(alph, n):
            for order in (t, t[::-1]):
                x = np.array(order)
                ok, dt = ctx.call("dt", U.get_dt_array, x)
                if not ok:
                    return
                dt = np.asarray(dt, float)
                edges = np.concatenate(([x[0] - (x[1] - x[0]) / 2], (x[1:] + x[:-1]) / 2))
                e = np.diff(edges)
                last = x[-1] + e[-1] / 2
                edges = np.append(edges, last)
                e = np.diff(edges)
                ctx.count()
                ctx.nontrivial("dt", order)
                if dt.shape != x.shape or not np.allclose(dt, e, rtol=1e-12, atol=1e-12):
                    ctx.fail("dt:widths", f"interval widths of {order} are {dt.tolist()}, from midpoint to midpoint {e.tolist()}")
                elif abs(dt.sum() - (edges[-1] - edges[0])) > 1e-10:
                    ctx.fail("dt:sum", f"interval widths of {order} do not add up")
                if not np.array_equal(x, order):
                    ctx.fail("dt:argument", "the times were changed")
    # broadcasting of arguments
    n_all = (1, 2, 3)
    forms = [("scalar", 0), ("int", 0), ("np", 0), ("0d", 0)] + [("arr", n) for n in n_all] + [("list", n) for n in (1, 2)] + \
        [("iarr", 2), ("jax", 3), ("jax", 1)]

    def make(form, n, j):
        v = [1.5 + j + 0.25 * i for i in range(max(n, 1))]
        return {"scalar": v[0], "int": j + 2, "np": np.float32(v[0]), "0d": np.array(v[0]), "arr": np.array(v), "list": None if n == 0 else v,
                "iarr": np.arange(n) + j, "jax": jnp.array(v)}[form]

    for r in (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4):
        for fs in itertools.product(forms, repeat=r):
            if any(f == "list" for f, _ in fs) and r > 2:
                continue
            args = [make(f, n, j) for j, (f, n) in enumerate(fs)]
            sizes = {np.size(a) for a in args}
            valid = sizes <= {1, max(sizes)}
            for ja in (False, True):
                ctx.count()
                ctx.nontrivial("args", fs, ja)
                if any(f == "list" for f, _ in fs):
                    try:
                        U.get_1d_arrays(*args, jax_arrays=ja)
                    except TypeError:
                        continue   # lists are not promised
                    except Exception:
                        pass
                if not valid:
                    try:
                        U.get_1d_arrays(*args, jax_arrays=ja)
                    except Exception:
                        continue
                    ctx.fail("args:mismatch", f"arguments of sizes {sorted(sizes)} were accepted")
                    continue
                ok, out = ctx.call("args", U.get_1d_arrays, *args, jax_arrays=ja)
                if not ok:
                    return
                N = max(sizes)
                if len(out) != r:
                    ctx.fail("args:count", f"{len(out)} arrays for {r} arguments")
                    continue
                for a, o in zip(args, out):
                    o = np.asarray(o)
                    e = np.full(N, np.asarray(a).ravel()[0], float) if np.size(a) == 1 else np.asarray(a, float)
                    if o.shape != (N,) or not np.allclose(o, e, rtol=1e-6):
                        ctx.fail("args:values", f"argument {np.asarray(a).tolist()} became {o.tolist()} among sizes {sorted(sizes)}")
                    if np.asarray(a).dtype.kind != o.dtype.kind:
                        ctx.fail("args:kind", f"argument of type {np.asarray(a).dtype} became {o.dtype}")
    # sigmoid helpers: inverse and limits
    for x0, k, lo, hi in itertools.product((-1.0, 0.0, 12.0), (0.1, 1.0, 3.0), (-2.0, 0.0, 5.0), (-1.0, 1.0, 5.5)):
        if lo == hi:
            continue
        for d in (-3.0, -1.0, -0.2, 0.0, 0.4, 2.0, 3.5):
            x = x0 + d / k
            y = float(U._sigmoid(x, x0, k, lo, hi))
            e = lo + (hi - lo) / (1 + math.exp(-d))
            ctx.count()
            ctx.nontrivial("sigmoid", x0, k, lo, hi, d)
            if not abs(y - e) < 1e-5 * (1 + abs(lo) + abs(hi)):
                ctx.fail("sigmoid:value", f"sigmoid is {y}, by definition {e}", x=x, x0=x0, k=k, lo=lo, hi=hi)
            b = float(U._inverse_sigmoid(e, x0, k, lo, hi))
            if not abs(b - x) < 2e-4 * (1 + 1 / k) * (1 + (abs(lo) + abs(hi)) / abs(hi - lo)) + 1e-5 * abs(x0):
                ctx.fail("sigmoid:inverse", f"inverse sigmoid is {b}, not {x}", x0=x0, k=k, lo=lo, hi=hi)
            if not hasattr(U, "_sig_slope"):
                continue
            s = float(U._sig_slope(x, x0 - 1, 2.0, x0, k, lo, hi))
            if not abs(s - (2.0 + e * (x - x0 + 1))) < 1e-4 * (1 + (abs(lo) + abs(hi)) * (1 + abs(d / k))):
                ctx.fail("sigmoid:slope", f"sigmoid-slope line is {s}", x=x, x0=x0, k=k, lo=lo, hi=hi)
    ctx.sample(times=list(alph[:4]))


def outliers(ctx):
    """Outlier mask on every small sample of histories."""
    from diffmah.fitting_helpers import measure_mahs as M

    def ref(L, lgm, it_min, lim, zcut):
        S = L - L[:, -1:] + lgm
        keep = np.ones(len(L), bool)
        edge = False
        for it in range(it_min, L.shape[1] - 1):
            x = S[:, it]
            s = np.sort(x)
            k = int(lim * len(x) + 1e-9)
            s = s[k:len(s) - k]
            mu, sd = s.mean(), s.std()
            d = abs(x - mu)
            edge |= bool((abs(d - zcut * sd) < 1e-9).any()) or sd < 1e-9
            keep &= d < zcut * sd
        return keep, edge

    done = 0

    def one(L, lgm, it_min, lim, zcut, tag):
        nonlocal done
        e, edge = ref(L, lgm, it_min, lim, zcut)
        if edge:
            return
        arg = L.copy()
        kw = {}
        if lim != 0.01:
            kw["lim"] = lim
        if zcut != 3:
            kw["z_cut"] = zcut
        ok, g = ctx.call(f"{tag}:mask", M.get_clean_sample_mask, arg, lgm, it_min, **kw)
        if not ok:
            raise vlib.Stop
        g = np.asarray(g)
        done += 1
        ctx.count()
        ctx.nontrivial(tag, L.tobytes(), it_min, lim, zcut)
        if g.dtype != bool or g.shape != e.shape or not np.array_equal(g, e):
            ctx.fail(f"{tag}:mask", f"mask {g.astype(int).tolist()} for halos {L.tolist()}, by definition {e.astype(int).tolist()}",
                     it_min=it_min, lim=lim, z_cut=zcut)
        if not np.array_equal(arg, L):
            ctx.fail(f"{tag}:argument", "the histories were changed")

    n = 5 if not ctx.thorough else 6
    fin = np.array([12.0, 12.3, 11.7, 12.0, 12.9, 12.1])[:n]
    for lim, zc in ((0.01, 3), (0.21, 3), (0.21, 1.5), (0.01, 1.2)):
        for col in itertools.product((0.0, 1.0, 5.0), repeat=n):
            L = np.stack([fin - 3 + np.arange(n) * 0.17, fin - 1 - np.array(col), fin], axis=1)
            one(L, 12.5, 1, lim, zc, "single")
            if lim == 0.21:
                one(L, 12.5, 0, lim, zc, "from-first")
                L2 = np.stack([fin - 3 - np.array(col[::-1]), fin - 1 - np.array(col), fin - 0.2 - np.array(col[1:] + col[:1]) / 7, fin], axis=1)
                one(L2, 11.0, 2, lim, zc, "late")
                one(L2, 11.0, 0, lim, zc, "several")
    # large samples with one or two outliers anywhere, at any time
    N = 60
    base = np.linspace(-1, 1, N)[np.argsort((np.arange(N) * 37) % N)]
    f = 12 + 0.5 * np.sin(np.arange(N))
    for i, it, amp in itertools.product((0, 7, N - 1), (0, 1, 2, 3), (0.5, 4.0, -4.0)):
        R = base[:, None] * np.array([1.0, 0.7, 0.3, 0.05]) * 0.3
        R[i, it] += amp
        L = np.concatenate([f[:, None] - 1 + R, f[:, None]], axis=1)
        for it_min in (0, 1, 3, 4):
            one(L, 13.0, it_min, 0.01, 3, "outlier")
    ctx.extra["masks"] = done
    ctx.sample(sample=5, alphabet=[0, 1, 5])


def targets(ctx):
    from diffmah.fitting_helpers import measure_mahs as M

    lgt = np.log10([1.0, 3.0, 7.0, 13.8])
    tsets = {"nodes": lgt, "one": lgt[2:3], "between": np.log10([1.5, 5.0, 11.0]), "reversed": np.log10([12.0, 2.0]),
             "outside": np.log10([0.5, 1.0, 20.0]), "mixed": np.log10([0.7, 3.0, 6.0, 13.8])}
    shapes = [(0.0, 0.5, 0.8, 1.0), (-2.0, -1.0, -0.5, 0.0), (-4.0, -0.3, 0.0, 0.0), (-1.0, -0.9, -0.2, 0.0)]
    H = [(s, a) for s in range(len(shapes)) for a in (11.0, 13.4)]
    rates = [(1e10, 3e10, 2e10, 5e8), (4e11, 1e10, 6e9, 2e9), (1e9, 2e9, 3e9, 4e9), (7e9, 7e9, 7e9, 7e9)]
    for r in (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4):
        for hs in itertools.combinations(H, r):
            L = np.array([[a + q - shapes[s][-1] for q in shapes[s]] for s, a in hs])
            m = 10.0 ** L
            d = np.array([[q * (1 + 0.1 * j) for q in rates[(s + j) % 4]] for j, (s, a) in enumerate(hs)])
            for lgm, (nm, tt) in itertools.product((11.5, 14.0), tsets.items()):
                am, ad = m.copy(), d.copy()
                ok, out = ctx.call("targets", M.measure_target_data, am, ad, lgt, tt, lgm)
                if not ok:
                    return
                sm = 10.0 ** (lgm + L - L[:, -1:])
                sd = 10.0**lgm * d / m[:, -1:]
                l10 = lgm + L - L[:, -1:]
                it = lambda y: np.interp(tt, lgt, y)
                e = [10 ** it(np.log10(sm.mean(0))), 10 ** it(np.log10(l10.mean(0))), it(l10.std(0)) ** 2, 10 ** it(np.log10(sd.mean(0)))]
                if r > 1:
                    with np.errstate(divide="ignore", invalid="ignore"):
                        e.append((10 ** it(np.log10(sd.std(0)))) ** 2)
                else:
                    e.append(np.zeros(len(tt)) if nm in ("nodes", "one") else None)
                ctx.count()
                ctx.nontrivial("targets", hs, lgm, nm)
                if len(out) != 5:
                    ctx.fail("targets:count", f"{len(out)} targets")
                    return
                for k, (g, w) in enumerate(zip(out, e)):
                    name = ("mean_mah", "mean_log_mah", "var_log_mah", "mean_dmhdt", "var_dmhdt")[k]
                    if w is None:
                        continue
                    g = np.asarray(g, float)
                    if g.shape != np.shape(tt) or not np.allclose(g, w, rtol=1e-6 if k != 2 else 1e-6, atol=1e-10):
                        # a single halo has zero spread: its logarithm is not finite, and any way of saying zero is accepted
                        if k == 4 and r == 1 and np.all((g == 0) | np.isnan(g)):
                            continue
                        ctx.fail(f"targets:{name}", f"{name} is {g.tolist()}, by definition {np.asarray(w).tolist()}", halos=hs, logmp=lgm, times=nm)
                if not (np.array_equal(am, m) and np.array_equal(ad, d)):
                    ctx.fail("targets:argument", "the histories were changed")
    ctx.sample(halos=2, times="between")


X = dict(x64=True)
vlib.main(
    "C20", [("trimmed64", trimmed, X), ("trimmed32", trimmed), ("helpers", helpers), ("outliers", outliers), ("targets", targets)],
    level="exploration",
    rule="all arrays up to length 10 over alphabets with ties x 15 trim fractions (those where rounding of p*n could decide are left out), "
         "all time grids over a 7-value alphabet, all argument-shape tuples up to 3, all outlier samples of 5 halos over 3 values, all "
         "target samples of up to 3 halos; a case is non-trivial per distinct input",
    assumptions=["trimmed statistics of a single value have no variance; not judged", "mask cases with |z| on the cut are not judged"])
