"""Population-model parameter points used by the checks of the Monte Carlo populations."""

import importlib

import numpy as np

D = "diffmah.diffmahpop_kernels."
FAMS = dict(
    tp_cens=(D + "t_peak_kernels.tp_pdf_cens_flex", "TPCENS_PBOUNDS"),
    tp_sats=(D + "t_peak_kernels.tp_pdf_sats", "TP_SATS_BOUNDS"),
    logm0_cens=(D + "bimod_logm0_kernels.logm0_pop_bimod", "LGM0POP_BOUNDS"),
    logm0_sats=(D + "bimod_logm0_sats.logm0_pop_bimod_sats", "LGM0POP_BOUNDS"),
    logtc=(D + "logtc_bimod", "LOGTC_PBOUNDS"),
    early_index=(D + "early_index_bimod", "EARLY_INDEX_PBOUNDS"),
    late_index=(D + "late_index_bimod", "LATE_INDEX_PBOUNDS"),
    fec=(D + "frac_early_cens", "FEC_PBOUNDS"),
    cov=(D + "covariance_kernels", "COV_PBOUNDS"),
)


def bounds_by_family():
    out = {}
    for fam, (mod, attr) in FAMS.items():
        b = getattr(importlib.import_module(mod), attr)
        out[fam] = {k: (float(v[0]), float(v[1])) for k, v in b._asdict().items()}
    return out


def bounds():
    return {k: v for d in bounds_by_family().values() for k, v in d.items()}


def default():
    from diffmah.diffmahpop_kernels.bimod_censat_params import DEFAULT_DIFFMAHPOP_PARAMS

    return DEFAULT_DIFFMAHPOP_PARAMS


def at_fracs(fracs=None, base=None, **values):
    """Default parameters with {name: fraction of its bounds} and explicit values replaced."""
    p = (base if base is not None else default())._asdict()
    b = bounds()
    for k, f in (fracs or {}).items():
        p[k] = b[k][0] + f * (b[k][1] - b[k][0])
    p.update(values)
    return type(default())(**{k: float(v) for k, v in p.items()})


def spread(seed=0, skip=("cov", "logm0_cens", "logm0_sats")):
    """Every parameter at its own, different fraction of its bounds."""
    fam = bounds_by_family()
    names = [k for d in fam.values() for k in d]
    f = 0.08 + 0.84 * np.modf(0.37 + 0.6180339887 * (np.arange(len(names)) + 7 * seed))[0]
    fr = dict(zip(names, f))
    for s in skip:
        for k in fam[s]:
            fr.pop(k)
    return at_fracs(fr)


def calm(base=None, std=0.011, rho=0.0):
    """Parameters with the smallest scatter."""
    fam = bounds_by_family()["cov"]
    v = {}
    for k in fam:
        if k.startswith("std_"):
            v[k] = std
        elif k.startswith("rho_"):
            v[k] = rho
    return at_fracs({}, base, **v)
