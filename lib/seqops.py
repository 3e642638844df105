"""Library calls as operations for C21: each builds its arguments afresh, calls, and is reduced to a digest of its result.

python seqops.py OUT name...   executes the named operations, each printed digest coming from the first call of a new process
(one name per process is what C21 uses).
"""
import hashlib
import json
import os
import sys

import numpy as np

OPS = {}
T0 = 13.8
LGT0 = float(np.log10(T0))


def op(family, **variants):
    """f(variant argument) -> (function, args, kwargs)."""
    def deco(f):
        for v, a in variants.items():
            OPS[f"{f.__name__}:{v}"] = (family, f, a)
        return f
    return deco


def feed(h, x):
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        h.update(f"{type(x).__name__}={x!r};".encode())
    elif isinstance(x, dict):
        h.update(f"dict{len(x)}[".encode())
        for k in x:
            feed(h, k)
            feed(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(f"{type(x).__name__}{len(x)}[".encode())
        for v in x:
            feed(h, v)
    elif callable(x) and not hasattr(x, "dtype"):
        h.update(b"callable;")
    elif hasattr(x, "dtype") and str(x.dtype).startswith("key<"):
        import jax.random as jran

        feed(h, np.asarray(jran.key_data(x)))
    else:
        a = np.asarray(x)
        if a.dtype == object:
            for v in a.ravel():
                feed(h, v)
        else:
            h.update(f"{a.dtype}{a.shape}".encode())
            h.update(np.ascontiguousarray(a).tobytes())
    h.update(b"|")


def digest(x):
    h = hashlib.blake2b(digest_size=12)
    feed(h, x)
    return h.hexdigest()


def scribble(x, depth=0):
    """Overwrite every writable object the caller holds."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            try:
                x.view(np.uint8 if x.dtype.names is None else x.dtype)[...] = 7 if x.dtype.names is None else x[:1]
            except Exception:
                try:
                    x[...] = x.ravel()[0]
                except Exception:
                    pass
    elif isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, depth + 1)
        try:
            x.clear()
        except Exception:
            pass
    elif isinstance(x, (list, tuple)):
        for v in x:
            if depth < 6:
                scribble(v, depth + 1)
        if isinstance(x, list):
            x.clear()


# ---------------------------------------------------------------- histories of individual halos

def P(*v):
    from diffmah.diffmah_kernels import DiffmahParams

    return DiffmahParams(*v)


MP = dict(a=(12.0, 0.05, 2.6, 0.13, 14.0), b=(13.5, 0.4, 3.3, 0.7, 8.0), c=(11.1, -0.2, 1.9, 0.4, 3.0))
TT = np.linspace(0.5, 13.8, 7)


@op("mah", a=("a", 7), b=("b", 7), c=("c", 4))
def singlehalo(v):
    from diffmah.diffmah_kernels import mah_singlehalo

    return mah_singlehalo, [P(*MP[v[0]]), np.linspace(0.6, 13.8, v[1]), LGT0], {}


@op("mah", a=(0, LGT0), b=(1, LGT0), c=(0, 1.2))
def halopop(v):
    from diffmah.diffmah_kernels import mah_halopop

    o = [MP[k] for k in ("abc" if v[0] == 0 else "cba")]
    return mah_halopop, [P(*np.array(o).T.copy()), TT.copy(), v[1]], {}


@op("mah", a="scalar", b="array", c="pop")
def at_t_obs(v):
    from diffmah.diffmah_kernels import logmh_at_t_obs

    p = P(*MP["b"]) if v != "pop" else P(*np.array([MP[k] for k in "abc"]).T.copy())
    return logmh_at_t_obs, [p, {"scalar": 5.0, "array": TT.copy(), "pop": np.array([3.0, 9.0, 2.0])}[v], LGT0], {}


@op("mah", a="a", b="b")
def unbounded(v):
    from diffmah.diffmah_kernels import get_unbounded_mah_params

    return get_unbounded_mah_params, [P(*MP[v])], {}


@op("mah", a=(1.0, -2.0, 0.5, 0.1, 3.0), b=(-4.0, 2.0, 5.0, 0.0, -3.0))
def bounded(v):
    from diffmah.diffmah_kernels import DiffmahUParams, get_bounded_mah_params

    return get_bounded_mah_params, [DiffmahUParams(*v)], {}


# ---------------------------------------------------------------- fitting

def history(k, n=20):
    t = np.linspace(0.5, T0, n)
    x = np.linspace(0, 1, n)
    lg = {"a": 12.2 - 2.5 * (1 - x) ** 1.5, "b": 13.1 - 3.4 * (1 - x) ** 2, "flat": 11.0 - 3.0 * (1 - np.minimum(1, 2 * x)),
          "dip": 12.5 - 2 * (1 - x) - 0.3 * np.sin(9 * x)}[k]
    return t, 10.0**lg


@op("fit", a=("a", 20, {}), b=("b", 20, {}), c=("dip", 13, {}), d=("flat", 20, dict(tpeak_fixed=9.0)), e=("b", 20, dict(lgm_min=11.0, dlogm_cut=1.5)),
    skip=("a", 20, dict(force_skip_fit=True)), short=("a", 3, {}))
def fitter(v):
    from diffmah.fitting_helpers.diffmah_fitter_helpers import diffmah_fitter

    t, m = history(v[0], v[1])
    return diffmah_fitter, [t, m], dict(v[2])


@op("fit", a=("a", 20, {}), b=("b", 20, {}), c=("dip", 20, dict(lgm_min=11.3)), d=("a", 20, dict(t_fit_min=3.0)), skip=("a", 3, {}))
def loss_data(v):
    from diffmah.fitting_helpers.diffmah_fitter_helpers import get_loss_data

    t, m = history(v[0], v[1])
    return get_loss_data, [t, m], dict(v[2])


def _result(v):
    from diffmah.fitting_helpers import diffmah_fitter_helpers as H

    ld = H.DiffmahFitLossData(TT.copy(), np.linspace(9, 12 + v, 7), 1.0 + v, 1.14)
    return H.DiffmahFitResult(P(*MP["abc"[v % 3]]), 0.001 * (v + 1), False, True, v % 2, ld)


@op("fit", a=(0, None), b=(1, 77), c=(2, 123456789012))
def outline(v):
    from diffmah.fitting_helpers.diffmah_fitter_helpers import get_outline

    return get_outline, [_result(v[0])], dict(halo_id=v[1]) if v[1] is not None else {}


def _quad(p, data):
    p = np.asarray(p, float)
    r = p - data[0]
    return float((r * r).sum() + 0.1 * (r**4).sum()), 2 * r + 0.4 * r**3


@op("fit", a=(0.3, 1.0), b=(-2.0, 0.5))
def lbfgs(v):
    from diffmah.fitting_helpers.bfgs_wrapper import scipy_lbfgs_wrapper

    return scipy_lbfgs_wrapper, [_quad, np.array([v[1], -v[1], 0.0]), (np.array([v[0], 0.1, 0.2]),)], {}


@op("fit", a=(0.3, dict()), b=(-2.0, dict()), c=(0.3, dict(tol=0.02, n_warmup=1, warmup_n_step=5)))
def adam(v):
    from diffmah.fitting_helpers.fit_utils import jax_adam_wrapper

    return jax_adam_wrapper, [_quad, np.array([1.0, -1.0, 0.0]), (np.array([v[0], 0.1, 0.2]),), 12], dict(v[1])


@op("fit", a=0.4, b=-0.7)
def fallback(v):
    from diffmah.fitting_helpers.bfgs_wrapper import bfgs_adam_fallback

    def bad(p, data):
        l, g = _quad(p, data)
        return l, np.asarray(g) * np.nan if np.max(np.abs(p - data[0])) < 0.2 else np.asarray(g)

    return bfgs_adam_fallback, [bad, np.array([1.0, -1.0, 0.5]), (np.array([v, 0.1, 0.2]),)], dict(nstep=9)


# ---------------------------------------------------------------- files (scratch working directory)

def _reads(fn, *paths):
    """The call followed by the bytes of the files it names."""
    def f(*a, **kw):
        r = fn(*a, **kw)
        return r, [open(p, "rb").read() for p in paths]
    return f


@op("io", a=(8, "out.h5", 3), b=(9, "out.h5", 2), c=(8, "other.h5", 1))
def collated(v):
    from diffmah.fitting_helpers.diffmah_fitter_helpers import write_collated_data

    n, fn, nh = v
    tab = np.array([[str(7 + j)] * (n - 8) + [f"{q:.5e}" for q in (12.0 + j, .1, 2., .3, 9., .01)] + [str(5 + j), str(j % 2)] for j in range(nh)])
    return _reads(write_collated_data, fn), [fn, tab], {}


def _flat(fn, v):
    import h5py

    with h5py.File(fn, "w") as f:
        f["x"] = np.arange(6.0) * v
        f["y"] = np.arange(6) + v
        f["z"] = np.arange(12.0).reshape(6, 2) - v


@op("io", a=(1, {}), b=(5, {}), c=(5, dict(istart=2, iend=5)), d=(5, dict(keys=["y"])))
def flat(v):
    from diffmah.data_loaders.io_utils import load_flat_hdf5

    _flat("flat.h5", v[0])
    return load_flat_hdf5, ["flat.h5"], {k: list(x) if isinstance(x, list) else x for k, x in v[1].items()}


@op("io", a="a", b="c")
def named(v):
    from diffmah.data_loaders.io_utils import load_namedtuple_from_hdf5, write_namedtuple_to_hdf5

    def f(p, fn):
        write_namedtuple_to_hdf5(p, fn)
        return load_namedtuple_from_hdf5(fn)._asdict()

    return f, [P(*MP[v]), "named.h5"], {}


@op("io", a=1, b=2)
def tng(v):
    from diffmah.data_loaders.load_tng_mahs import load_tng_data

    a = np.zeros(3, dtype=[("mpeak", "f8"), ("mpeakh", "f8", (4,)), ("mah", "f8", (4,))])
    a["mpeakh"] = np.arange(12.0).reshape(3, 4)[:, ::-1] / 12 + 9 + v
    np.save("tng_diffmah.npy", a)
    np.save("tng_cosmic_time.npy", TT[:4] + v)
    return load_tng_data, ["."], {}


@op("io", a=1, b=2)
def published(v):
    from diffmah.data_loaders.load_diffmah_pub_data import load_bolshoi_data

    a = np.zeros(3, dtype=[("halo_id", "i8"), ("mpeak_history_main_prog", "f8", (4,))])
    a["halo_id"] = np.arange(3) + 10 * v
    a["mpeak_history_main_prog"] = 10.0 ** (np.arange(12.0).reshape(3, 4) / 12 + 9 + v)
    np.save("bpl_diffmah_cens.npy", a)
    np.save("bpl_cosmic_time.npy", TT[:4] + v)
    return load_bolshoi_data, ["cens", "."], {}


@op("io", a=(1, {}), b=(2, {}), c=(2, dict(istart=1, iend=3)))
def galacticus(v):
    import h5py
    from diffmah.data_loaders.load_galacticus_eps_mahs import extract_galacticus_mah_tables, get_nhalos_tot

    with h5py.File("gal.h5", "w") as f:
        g = f.create_group("Outputs/Output1/nodeData")
        dt = h5py.vlen_dtype(np.dtype("f8"))
        for q, nm in enumerate(("haloAccretionHistoryMass", "haloAccretionHistoryTime")):
            d = g.create_dataset(nm, (4,), dtype=dt)
            for i in range(4):
                d[i] = np.arange(i + 1.0) + q + v[0]
        g["nodeIsIsolated"] = np.array([1, 0, 1, v[0]])
        g["basicTimeLastIsolated"] = np.arange(4.0) * v[0]

    def f(fn, **kw):
        return extract_galacticus_mah_tables(fn, **kw), int(get_nhalos_tot(fn))

    return f, ["gal.h5"], dict(v[1])


# ---------------------------------------------------------------- statistics

@op("stat", a=(0, 0.1), b=(1, 0.1), c=(0, 0.3))
def trimmed(v):
    from diffmah.utils import trimmed_mean, trimmed_mean_and_variance

    x = np.sin(np.arange(17.0) * (1 + v[0]))
    return (lambda y, p: (trimmed_mean(y, p), trimmed_mean_and_variance(y, p))), [x, v[1]], {}


@op("stat", a=6, b=4)
def widths(v):
    from diffmah.utils import get_dt_array

    return get_dt_array, [np.linspace(0.5, 13.8, v) ** 1.1], {}


@op("stat", a=1.0, b=2.0)
def arrays(v):
    from diffmah.utils import get_1d_arrays

    return get_1d_arrays, [v, np.arange(3.0) + v, np.array([v])], {}


@op("stat", a=6, b=10)
def cholesky(v):
    from diffmah.utils import get_cholesky_from_params

    return get_cholesky_from_params, [np.arange(1.0, v + 1)], {}


@op("stat", a=0.5, b=-0.25)
def correlation(v):
    from diffmah.utils import correlation_from_covariance, covariance_from_correlation

    def f(c, s):
        k = covariance_from_correlation(c, s)
        return k, correlation_from_covariance(k)

    return f, [np.array([[1, v], [v, 1]]), np.array([0.3, 2.0])], {}


def _sample(v):
    i = np.arange(12)[:, None]
    return 12 - (2 + 0.3 * np.sin(i * (1 + v))) * (1 - np.linspace(0, 1, 4)) + 0.2 * np.cos(i)


@op("stat", a=(0, 0), b=(1, 0), c=(0, 2))
def outliers(v):
    from diffmah.fitting_helpers.measure_mahs import get_clean_sample_mask

    return get_clean_sample_mask, [_sample(v[0]), 12.0, v[1]], dict(lim=0.1, z_cut=1.5)


@op("stat", a=0, b=1)
def targets(v):
    from diffmah.fitting_helpers.measure_mahs import measure_target_data

    m = 10.0 ** _sample(v)
    lgt = np.log10([1.0, 3.0, 7.0, 13.8])
    return measure_target_data, [m, m / 3e9, lgt, np.log10([2.0, 5.0]), 12.5 + v], {}


# ---------------------------------------------------------------- populations

def _pp(k):
    import pop

    return pop.default() if k == 0 else pop.spread(k)


LG = np.array([11.2, 12.4, 13.3, 14.6])
TO = np.array([3.0, 13.0, 6.0, 9.5])


def _mc(kind, name, v):
    import importlib

    import jax.random as jran

    m = importlib.import_module(f"diffmah.diffmahpop_kernels.mc_bimod_{kind}")
    f = getattr(m, name)
    par, key, rev, tp = v
    lg, to = (LG[::-1].copy(), TO[::-1].copy()) if rev else (LG.copy(), TO.copy())
    if name in ("mc_cenpop", "mc_satpop"):
        return f, [_pp(par), np.linspace(0.7, 13.7, 5), lg, to, jran.key(key), LGT0], {}
    return f, [_pp(par), lg, to, jran.key(key), LGT0], dict(t_peak=to * 0.6) if tp else {}


V = dict(a=(0, 0, 0, 0), b=(0, 5, 0, 0), c=(3, 0, 0, 0), d=(0, 0, 1, 0), e=(3, 5, 0, 1))


@op("pop", **V)
def cen_params(v):
    return _mc("cens", "mc_diffmah_cenpop", v)


@op("pop", **V)
def sat_params(v):
    return _mc("sats", "mc_diffmah_satpop", v)


@op("pop", **{k: V[k] for k in "abc"})
def cenpop(v):
    return _mc("cens", "mc_cenpop", v)


@op("pop", **{k: V[k] for k in "abc"})
def satpop(v):
    return _mc("sats", "mc_satpop", v)


@op("pop", a=0, b=3)
def pop_unbounded(v):
    from diffmah.diffmahpop_kernels.bimod_censat_params import get_diffmahpop_u_params_from_params

    return get_diffmahpop_u_params_from_params, [_pp(v)], {}


@op("pop", a=1.0, b=-3.0)
def pop_bounded(v):
    from diffmah.diffmahpop_kernels import bimod_censat_params as B

    u = B.DEFAULT_DIFFMAHPOP_U_PARAMS
    return B.get_diffmahpop_params_from_u_params, [u._make([float(x) + v for x in u])], {}


@op("pop", a=("logm0", 0), b=("std", 3))
def varied(v):
    from diffmah.diffmahpop_kernels.bimod_censat_params import get_varied_params_by_exclusion

    p = _pp(v[1])
    return (lambda q, n: dict(get_varied_params_by_exclusion(q, n)._asdict())), [p, [k for k in p._fields if v[0] in k]], {}


@op("pop", a=(0, 12.0), b=(3, 12.0))
def covariance(v):
    from diffmah.diffmahpop_kernels.bimod_censat_params import get_component_model_params

    return get_component_model_params, [_pp(v[0])], {}


@op("tpeak", a=(0, 0), b=(9, 0), c=(0, 1))
def tp_sats(v):
    import jax.random as jran
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_sats as m

    p = m.DEFAULT_TP_SATS_PARAMS
    return m.mc_tpeak_sats, [p._replace(utp_loc_lgm_x0=11.5) if v[1] else p, jran.key(v[0]), LG.copy(), TO.copy()], {}


@op("tpeak", a=(0, 13.8), b=(9, 13.8), c=(0, 11.0))
def tp_cens(v):
    import jax.random as jran
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens as m

    return m.mc_tpeak_cens, [m.DEFAULT_TPCENS_PARAMS, jran.key(v[0]), LG.copy(), TO.copy() * 0.7, v[1]], {}


@op("tpeak", a=(0.6, 0.3), b=(0.8, 0.15))
def tp_fit(v):
    from diffmah.diffmahpop_kernels.t_peak_kernels.utp_pdf_kernels import t_peak_fitter
    from scipy.stats import truncnorm

    x = np.linspace(0.15, 0.95, 30)
    return t_peak_fitter, [x, truncnorm.pdf(x, (0.1 - v[0]) / v[1], (1 - v[0]) / v[1], v[0], v[1])], {}


def _loss_args(v):
    import jax.random as jran

    t = np.array([np.linspace(0.6, q, 4) for q in (5.0, 13.0)])
    y = np.linspace(9.5, 12.5, 4) + np.array([[0.0], [v]])
    return [t, np.array([11.8, 12.9]), np.array([5.0, 13.0]), jran.key(1), LGT0, y, 0.2 + 0.0 * y, 0.1 + 0.05 * np.arange(4) + 0.0 * y]


@op("loss", a=(0, 0.5), b=(0, 0.9), c=(3, 0.5))
def loss_cens(v):
    from diffmah.diffmahpop_kernels.bimod_cens_fithelp import loss_mah_moments_multibin

    return loss_mah_moments_multibin, [_pp(v[0])] + _loss_args(v[1]), {}


@op("loss", a=(0, 0.5), b=(3, 0.9))
def loss_sats(v):
    from diffmah.diffmahpop_kernels.bimod_sats_fithelp import loss_mah_moments_multibin

    return loss_mah_moments_multibin, [_pp(v[0])] + _loss_args(v[1]), {}


def prepare(name):
    fam, f, v = OPS[name]
    return f(v)


def normal(x):
    """Exceptions are results too."""
    return x


def execute(name):
    import warnings

    fn, args, kw = prepare(name)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return fn, args, kw, fn(*args, **kw)
        except Exception as e:
            return fn, args, kw, f"{type(e).__name__}"


if __name__ == "__main__":
    out, names = sys.argv[1], sys.argv[2:]
    res = {}
    for n in names:
        r = execute(n)[3]
        res[n] = dict(digest=digest(r), kind=type(r).__name__, error=r if isinstance(r, str) and n.split(":")[0] != "outline" else None)
    json.dump(res, open(out, "w"))
    sys.stdout.flush()
    os._exit(0)
