"""Reference models in plain float64 numpy, written from the documented definitions."""

import numpy as np

MAH_K = 3.5
BOUNDS = dict(logm0=(0.0, 17.0), logtc=(-1.0, 1.0), early_index=(0.1, 10.0),
              late_index=(0.1, 5.0), t_peak=(0.05, 20.0))
PNAMES = ("logm0", "logtc", "early_index", "late_index", "t_peak")


def sigmoid(x, x0, k, ylo, yhi):
    x = np.asarray(x, dtype=float)
    return ylo + (yhi - ylo) / (1.0 + np.exp(-k * (x - x0)))


def inv_sigmoid(y, x0, k, ylo, yhi):
    return x0 - np.log((yhi - ylo) / (y - ylo) - 1) / k


def rolling_index(lgt, logtc, early, late):
    return sigmoid(lgt, logtc, MAH_K, early, late)


def log_mah_noq(p, t, lgt0):
    lgt = np.log10(np.asarray(t, dtype=float))
    return rolling_index(lgt, p[1], p[2], p[3]) * (lgt - lgt0) + p[0]


def log_mah(p, t, lgt0):
    t = np.asarray(t, dtype=float)
    return np.where(t < p[4], log_mah_noq(p, t, lgt0), log_mah_noq(p, p[4], lgt0))


def dmhdt(p, t, lgt0):
    """Msun/yr, analytic derivative of the unclipped curve; zero after t_peak."""
    t = np.asarray(t, dtype=float)
    lgt = np.log10(t)
    s = 1.0 / (1.0 + np.exp(-MAH_K * (lgt - p[1])))
    alpha = p[2] + (p[3] - p[2]) * s
    dalpha = (p[3] - p[2]) * MAH_K * s * (1 - s)
    dlgm_dlgt = dalpha * (lgt - lgt0) + alpha
    m = 10.0 ** log_mah_noq(p, t, lgt0)
    rate = m / t * dlgm_dlgt / 1e9
    return np.where(t > p[4], 0.0, rate)
