"""C25 diagnostic figures: every small table of targets through the real plotting functions; the curves drawn against the bins."""
import contextlib
import importlib
import itertools
import os
import shutil
import tempfile

import numpy as np
import pop
import vlib

D = "diffmah.diffmahpop_kernels."
KIND = dict(
    cens=dict(mod="plot_bestfit_cen_mahs", mc="mc_bimod_cens", z0="plot_singlepanel_mahs_centrals_z0", z2="plot_singlepanel_mahs_centrals_z2",
              res="plot_cen_mah_4panel_residuals", m0=(11.25, 12.75, 14.25), m2=(11.25, 12.75, 14.25), top=14.5),
    sats=dict(mod="plot_bestfit_sat_mahs", mc="mc_bimod_sats", z0="plot_singlepanel_mahs_satellites_z0", z2="plot_singlepanel_mahs_satellites_z2",
              res="plot_sat_mah_4panel_residuals", m0=(11.25, 12.25, 13.5), m2=(11.25, 12.75, 14.25), top=13.5))
COLS = ("lgm_obs", "t_obs", "t_table", "mean_log_mah", "std_log_mah", "frac_peaked")
LGT0 = np.log10(13.79)
NT = 6
MASS = (11.05, 11.6, 12.3, 12.62, 13.4, 14.3)
NOW, THEN = (13.55, 13.75), (2.6, 3.4)
NEITHER = (13.2, 2.4, 3.7)


def bin_row(l, t):
    """One tabulated bin; every bin has its own times, mean and scatter."""
    tt = np.linspace(0.5 + 0.01 * (l - 11), t, NT)
    q = 0.011 * ((round(100 * l) * 7 + round(100 * t) * 3) % 29)
    mean = l + (1.5 + q) * np.log10(tt / t)
    return l, t, tt, mean, 0.15 + q + 0.02 * np.arange(NT), np.linspace(0, 0.5, NT)


def table(bins):
    from astropy.table import Table

    rows = [bin_row(*b) for b in bins]
    return Table({k: np.array([r[i] for r in rows]) for i, k in enumerate(COLS)})


class Figures:
    """The real modules with the file writing of matplotlib recorded instead of rendered."""

    def __init__(self, kind):
        import matplotlib

        matplotlib.use("Agg")
        import jax.random as jran
        from matplotlib import figure
        from matplotlib import pyplot as plt

        self.k = KIND[kind]
        self.kind, self.plt, self.figure, self.jran = kind, plt, figure, jran
        self.m = importlib.import_module(D + "diagnostics." + self.k["mod"])
        self.mc = importlib.import_module(D + self.k["mc"])
        self.cache = {}

    @contextlib.contextmanager
    def recorded(self, saved):
        real = self.figure.Figure.savefig

        def savefig(fig, fname, *a, **kw):
            open(fname, "wb").close()
            saved.append((fig, os.path.abspath(fname)))

        self.figure.Figure.savefig = savefig
        try:
            yield
        finally:
            self.figure.Figure.savefig = real

    def predicted(self, l, t, params, pk):
        """(mean, scatter) of the model for one bin, with the spread over keys of each."""
        if (l, t, pk) not in self.cache:
            tt = bin_row(l, t)[2]
            r = [self.mc.predict_mah_moments_singlebin(params, tt, l, t, self.jran.key(s), LGT0)[:2] for s in range(5)]
            r = np.array([[np.asarray(x, float) for x in y] for y in r])
            self.cache[l, t, pk] = r.mean(0), 6 * r.std(0) + 2e-3
        return self.cache[l, t, pk]


def near(cands, score):
    """The nearest candidates (ties within rounding all count)."""
    s = np.array([score(c) for c in cands])
    return [c for c, v in zip(cands, s) if v <= s.min() + 1e-9]


def lines(ax, style):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l) for l in ax.lines if l.get_linestyle() == style]


def find(ls, x, y, tol):
    for i, (a, b, _) in enumerate(ls):
        if a.shape == x.shape and np.allclose(a, x, atol=1e-5) and np.all(np.abs(b - y) <= tol):
            return i
    return None


def single(ctx, F, which, bins, params, pk, drn):
    sel = [b for b in bins if (b[1] > 13.5 if which == "z0" else abs(b[1] - 3) < 0.5)]
    tab = table(bins)
    before = {k: np.array(tab[k]) for k in COLS}
    fn = getattr(F.m, F.k[which])
    lab = f"{F.kind}:{which}"
    saved = []
    case = dict(bins=bins, params=pk)
    with F.recorded(saved):
        ok, _ = ctx.call(lab, fn, tab, params, **({} if drn is None else dict(drn=drn)))
    ctx.count()
    ctx.nontrivial(lab, bins, pk)
    if not ok:
        F.plt.close("all")
        return
    want = os.path.join(drn, f"diffmahpop_mu_var_single_panel_{F.kind}_{which}.png")
    if [s[1] for s in saved] != [os.path.abspath(want)]:
        ctx.fail(f"{lab}:file", f"saved {[s[1] for s in saved]}, not {want}", **case)
    if any(not np.array_equal(before[k], tab[k]) for k in COLS) or len(tab) != len(bins):
        ctx.fail(f"{lab}:table", "the table of targets was changed", **case)
    if saved:
        ax = saved[0][0].axes[0]
        solid, dash, dots = (lines(ax, s) for s in ("-", "--", ":"))
        if (len(solid), len(dash), len(dots)) != (3, 3, 6):
            ctx.fail(f"{lab}:curves", f"{len(solid)} target, {len(dash)} prediction and {len(dots)} scatter curves, not 3, 3, 6", **case)
        bands = [c.get_paths()[0].vertices for c in ax.collections]
        for m in F.k["m0" if which == "z0" else "m2"]:
            hit = None
            for b in near(sel, lambda b: abs(b[0] - m)):
                l, t, tt, mean, std, _ = bin_row(*b)
                (pm, ps), (tm, ts) = F.predicted(l, t, params, pk)
                got = [find(solid, tt, mean, 1e-4), find(dash, tt, pm, tm), find(dots, tt, pm - ps, tm + ts), find(dots, tt, pm + ps, tm + ts)]
                pts = np.concatenate([np.stack([tt, mean - std], 1), np.stack([tt, mean + std], 1)])
                band = any(v.shape[0] >= 2 * NT and all(np.min(np.abs(v - p).max(1)) < 1e-4 for p in pts) for v in bands)
                got = [g is not None for g in got] + [band]
                if hit is None or sum(got) > sum(hit[1]):
                    hit = b, got
            if not all(hit[1]):
                miss = [n for n, g in zip(("target mean", "predicted mean", "lower scatter", "upper scatter", "target band"), hit[1]) if not g]
                ctx.fail(f"{lab}:{m}:{miss[0]}", f"mass {m}: no {', '.join(miss)} of the nearest bin {hit[0]}", **case)
                break
    F.plt.close("all")


def residuals(ctx, F, bins, params, pk, drn):
    tab = table(bins)
    lab = f"{F.kind}:residuals"
    saved = []
    case = dict(bins=bins, params=pk)
    with F.recorded(saved):
        ok, _ = ctx.call(lab, getattr(F.m, F.k["res"]), tab, params, drn=drn)
    ctx.count()
    ctx.nontrivial(lab, bins, pk)
    fresh = table(bins)
    if any(not np.array_equal(fresh[k], tab[k]) for k in COLS):
        ctx.fail(f"{lab}:table", "the table of targets was changed", **case)
    want = os.path.abspath(os.path.join(drn, f"diffmahpop_mu_var_4panel_residuals_{F.kind}.png"))
    if ok and [s[1] for s in saved] != [want]:
        ctx.fail(f"{lab}:file", f"saved {[s[1] for s in saved]}, not {want}", **case)
    if ok and saved:
        axes = saved[0][0].axes
        if len(axes) != 4:
            ctx.fail(f"{lab}:panels", f"{len(axes)} panels", **case)
        for ax, tp in zip(axes, (4.0, 7.0, 10.0, 13.0)):
            ls = [x for x in lines(ax, "-") if x[0].size == NT]
            if len(ls) != 15:
                ctx.fail(f"{lab}:curves", f"{len(ls)} curves in the panel of {tp} Gyr", **case)
                break
            if f"{tp:.1f}" not in ax.get_title():
                ctx.fail(f"{lab}:title", f"the panel of {tp} Gyr is titled {ax.get_title()}", **case)
            red = []
            for m, (x, y, ln) in zip(np.linspace(11, F.k["top"], 15), ls):
                good = False
                for b in near(bins, lambda b: abs(b[1] - tp) + abs(b[0] - m)):
                    l, t, tt, mean, std, _ = bin_row(*b)
                    (pm, _), (tm, _) = F.predicted(l, t, params, pk)
                    good |= find([(x, y, None)], tt, pm - mean, tm + 1e-4) is not None
                ctx.count()
                if not good:
                    ctx.fail(f"{lab}:bin", f"panel {tp} Gyr, mass {m:.2f}: the curve is not the residual of the nearest bin {b}", x=x, y=y, **case)
                    break
                from matplotlib import colors

                c = colors.to_rgb(ln.get_color())
                red.append(c[0] - c[2])
            if len(red) == 15 and not (red[0] < -0.3 and abs(red[7]) < 0.2 and red[14] > 0.3):
                ctx.fail(f"{lab}:colour", "colours do not run from blue (low mass) to red", **case)
            zero = [x for x in lines(ax, "--") if np.all(x[1] == 0)]
            if not zero:
                ctx.fail(f"{lab}:zero", "no line at zero residual", **case)
    F.plt.close("all")


def params_menu():
    return [("default", pop.default()), ("spread", pop.spread(3))]


def tables(thorough, epochs):
    """Tables of 1-3 bins (some outside the epoch), in every order of the first few."""
    inside = [(m, t) for t in epochs for m in MASS]
    outside = [(12.3, t) for t in NEITHER + (THEN if epochs is NOW else NOW)]
    out = [(b,) for b in inside]
    out += list(itertools.permutations([(m, epochs[0]) for m in MASS[:4]], 2))
    out += [(o, b) for o in outside for b in inside[::2]]
    full = [(m, t) for m in MASS for t in NOW + THEN + NEITHER]
    out += [tuple(full), tuple(full[::-1]), tuple(full[3:] + full[:3])]
    trip = list(itertools.permutations(inside, 3))
    out += trip if thorough else trip[::40]
    return out


def make_single(kind, which):
    def part(ctx):
        F = Figures(kind)
        root = tempfile.mkdtemp(prefix="c25_")
        cwd = os.getcwd()
        try:
            for pk, params in params_menu():
                for i, bins in enumerate(tables(ctx.thorough, NOW if which == "z0" else THEN)):
                    if pk != "default" and not ctx.thorough and i % 4:
                        continue
                    drn = os.path.join(root, ("out", "a b", os.path.join("deep", "er"), "x[1]")[i % 4] + str(i % 8))
                    single(ctx, F, which, bins, params, pk, drn)
            # by default a folder FIGS of the working directory
            os.makedirs(os.path.join(root, "w"))
            os.chdir(os.path.join(root, "w"))
            saved = []
            with F.recorded(saved):
                ok, _ = ctx.call("default", getattr(F.m, F.k[which]), table(tables(False, NOW if which == "z0" else THEN)[0]), pop.default())
            want = os.path.join(root, "w", "FIGS", f"diffmahpop_mu_var_single_panel_{kind}_{which}.png")
            if ok and [os.path.realpath(s[1]) for s in saved] != [os.path.realpath(want)]:
                ctx.fail("default:file", f"saved {saved}, not {want}")
            F.plt.close("all")
            # and once for real
            d = os.path.join(root, "real")
            ok, _ = ctx.call("real", getattr(F.m, F.k[which]), table(tables(False, NOW if which == "z0" else THEN)[-1]), pop.default(), drn=d)
            if ok:
                files = [f for f in os.listdir(d) if open(os.path.join(d, f), "rb").read(4) == b"\x89PNG"]
                if files != [os.path.basename(want)]:
                    ctx.fail("real:file", f"pictures written: {files}")
        finally:
            os.chdir(cwd)
            shutil.rmtree(root, ignore_errors=True)
        ctx.sample(kind=kind, figure=which)

    part.__doc__ = f"Single-panel figure {which} of {kind}."
    return part


def make_residuals(kind):
    def part(ctx):
        F = Figures(kind)
        root = tempfile.mkdtemp(prefix="c25_")
        try:
            T = (3.9, 4.3, 6.8, 7.2, 9.6, 10.5, 12.7, 13.6)
            full = [(m, t) for t in T for m in MASS]
            menu = [tuple(full), tuple(full[::-1]), tuple(full[7:] + full[:7]), tuple(full[::2]), tuple(full[1::2])]
            menu += [(b,) for b in full[::9]] + [(a, b) for a, b in itertools.permutations(full[::7], 2)]
            if ctx.thorough:
                menu += [tuple(c) for c in itertools.permutations(full[::8], 3)]
            for pk, params in params_menu():
                for i, bins in enumerate(menu):
                    if not ctx.thorough and (i >= 5 and i % 4 or pk != "default" and i > 1):
                        continue
                    residuals(ctx, F, bins, params, pk, os.path.join(root, f"o {i % 3}"))
        finally:
            shutil.rmtree(root, ignore_errors=True)
        ctx.sample(kind=kind, figure="residuals")

    part.__doc__ = f"Residual figure of {kind}."
    return part


PARTS = [(f"{k}_{w}", make_single(k, w)) for k in KIND for w in ("z0", "z2")] + [(f"{k}_residuals", make_residuals(k)) for k in KIND]

if __name__ == "__main__":
    vlib.main("C25", PARTS, "exploration",
              "Nontrivial: distinct (figure, table of bins in its order, parameter point) drawn and compared curve by curve.",
              assumptions=("matplotlib draws the artists it is given; rendering is recorded, and done for real once per figure",))
