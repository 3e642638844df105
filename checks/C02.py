"""C02 population evaluation == each halo alone, for every small population and arrangement."""
import itertools
import os

import numpy as np
import vlib

HALOS = np.array([
    (12.0, 0.05, 2.6, 0.13, 14.0),
    (11.0, -0.6, 5.0, 1.0, 2.0),
    (14.5, 0.7, 9.0, 0.5, 9.7),
    (13.0, 0.3, 1.1, 1.1, 13.8),
    (15.2, -0.1, 0.5, 3.0, 0.31),
    (10.0, 0.9, 3.3, 4.0, 5.5),
])
TIMES = np.array([13.8, 0.31, 5.5, 9.7, 2.0, 1.0])


def _dt():
    return np.float64 if os.environ.get("JAX_ENABLE_X64") else np.float32


def _close(a, b, dt):
    rt, at = (3e-6, 2e-6) if dt == np.float32 else (1e-12, 1e-12)
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= rt * np.abs(b) + at * np.minimum(1, np.abs(b)) + 1e-36))


def _close_rate(a, b, dt):
    rt = 5e-5 if dt == np.float32 else 1e-11
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= rt * np.abs(b) + 1e-36) & ((b != 0) | (a == 0))))


def _halo(i, dt):
    from diffmah import DiffmahParams

    return DiffmahParams(*[dt(x) for x in HALOS[i]])


def _pop(idx, dt):
    from diffmah import DiffmahParams

    return DiffmahParams(*[np.ascontiguousarray(HALOS[list(idx), k].astype(dt)) for k in range(5)])


def rows(ctx):
    from diffmah import mah_halopop, mah_singlehalo

    dt = _dt()
    cache = {}

    def single(i, times, lgt0):
        k = (i, times, lgt0)
        if k not in cache:
            r = mah_singlehalo(_halo(i, dt), np.array(times, dt), lgt0)
            cache[k] = (np.asarray(r[0], float), np.asarray(r[1], float))
        return cache[k]

    nmax = 4 if ctx.thorough else 3
    seqs = []
    for n in range(1, nmax + 1):
        seqs += list(itertools.product(range(5), repeat=n))  # all orders, drops, duplicates
    seqs += [p for p in itertools.permutations(range(5), 5)][:: 1 if ctx.thorough else 3]
    seqs += [tuple(range(6)), tuple(range(6))[::-1]]
    tseqs = []
    for n in range(1, 4):
        tseqs += [p for p in itertools.product(TIMES[:4].tolist(), repeat=n)]
    tseqs += [tuple(TIMES[:5]), tuple(TIMES[:5][::-1]), tuple(TIMES), tuple(sorted(TIMES))]
    lgts = (float(np.log10(13.8)), float(np.log10(6.0)))
    small_t = [tuple(TIMES[:n].tolist()) for n in range(1, 7)] + [tuple(sorted(TIMES))]
    small_h = [tuple(range(n)) for n in range(1, 7)] + [(4, 2, 0), (1, 1), (3, 3, 1, 3)]
    cases = [(s, t) for s in seqs for t in small_t] + [(s, t) for s in small_h for t in tseqs]
    for lgt0 in lgts:
        for idx, times in cases:
            times = tuple(float(x) for x in times)
            ok, r = ctx.call("mah_halopop", mah_halopop, _pop(idx, dt), np.array(times, dt), lgt0)
            ctx.count()
            if not ok:
                continue
            rate, lgm = np.asarray(r[0], float), np.asarray(r[1], float)
            want = (len(idx), len(times))
            if rate.shape != want or lgm.shape != want:
                ctx.fail("shape", f"shapes {rate.shape},{lgm.shape} for {want[0]} halos x {want[1]} times",
                         halos=idx, times=times)
                continue
            for row, i in enumerate(idx):
                r1, m1 = single(i, times, lgt0)
                if not _close_rate(rate[row], r1, dt) or not _close(lgm[row], m1, dt):
                    ctx.fail(f"row:n{want[0]}x{want[1]}", "row of the population differs from the halo alone",
                             halos=idx, times=times, row=row, lgt0=lgt0,
                             got=[rate[row], lgm[row]], alone=[r1, m1])
            if len(set(idx)) > 1 or len(set(times)) > 1:
                ctx.nontrivial(idx, times, lgt0)
    # single-halo evaluations at permuted times are permuted, i.e. times never interact
    for i in range(len(HALOS)):
        for times in tseqs:
            times = tuple(float(x) for x in times)
            r, m = single(i, times, lgts[0])
            for j, t in enumerate(times):
                r1, m1 = single(i, (t,), lgts[0])
                if not _close_rate(r[j:j + 1], r1, dt) or not _close(m[j:j + 1], m1, dt):
                    ctx.fail("time-coupling", "a time's value depends on the other times",
                             halo=i, times=times, j=j, got=[r[j], m[j]], alone=[r1, m1])
            ctx.count()
    ctx.sample(halos=seqs[40], times=tseqs[30])


def large(ctx):
    """Large populations (all sizes around internal block boundaries) against evaluation in pieces."""
    from diffmah import mah_halopop, mah_singlehalo

    dt = _dt()
    t = np.array([0.31, 2.0, 9.7, 13.8], dt)
    lgt0 = float(np.log10(13.8))
    ones = []
    for i in range(6):
        r = mah_singlehalo(_halo(i, dt), t, lgt0)
        ones.append((np.asarray(r[0], float), np.asarray(r[1], float)))
    sizes = [7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255,
             256, 257, 500, 512, 513, 999, 1000, 1001, 1024, 1025, 2048, 2049, 4097, 5000, 10001]
    if ctx.thorough:
        sizes += list(range(2, 140)) + [20001, 65537, 100003]
    for n in sizes:
        idx = (np.arange(n) * 7 + np.arange(n) // 6) % 6
        ok, r = ctx.call("mah_halopop", mah_halopop, _pop(idx, dt), t, lgt0)
        ctx.count()
        if not ok:
            continue
        rate, lgm = np.asarray(r[0], float), np.asarray(r[1], float)
        e_r, e_m = np.array([o[0] for o in ones])[idx], np.array([o[1] for o in ones])[idx]
        if not _close_rate(rate, e_r, dt) or not _close(lgm, e_m, dt):
            ctx.fail(f"large:{n}", f"population of {n} halos differs from its halos alone")
        ctx.nontrivial("n", n)
    for nt in [1, 2, 5, 16, 100, 101, 128, 129, 500, 1000]:
        tt = np.linspace(0.2, 14, nt).astype(dt)
        ok, r = ctx.call("mah_halopop", mah_halopop, _pop(range(6), dt), tt, lgt0)
        ctx.count()
        if ok:
            for i in range(6):
                r1 = mah_singlehalo(_halo(i, dt), tt, lgt0)
                if not _close_rate(np.asarray(r[0])[i], r1[0], dt) or not _close(np.asarray(r[1])[i], r1[1], dt):
                    ctx.fail(f"manytimes:{nt}", f"row {i} differs for {nt} times")
        ctx.nontrivial("nt", nt)
    ctx.sample(sizes=sizes[:8])


def at_t_obs(ctx):
    """logmh_at_t_obs: every mix of scalar / per-halo parameters and times, all population sizes <= 5."""
    from diffmah import DiffmahParams, logmh_at_t_obs, mah_singlehalo

    dt = _dt()
    cache = {}
    for lgt0 in (float(np.log10(13.8)), float(np.log10(6.0))):
        for n in (1, 2, 3, 5):
            for mask in itertools.product((0, 1), repeat=6):
                arrs, vals = [], []
                for k in range(6):
                    col = (HALOS[:n, k] if k < 5 else TIMES[:n]).astype(dt)
                    if mask[k]:
                        arrs.append(col)
                        vals.append(col)
                    else:
                        arrs.append(col[0])
                        vals.append(np.repeat(col[0], n))
                ok, v = ctx.call("logmh_at_t_obs", logmh_at_t_obs, DiffmahParams(*arrs[:5]), arrs[5], lgt0)
                ctx.count()
                if not ok:
                    continue
                v = np.asarray(v, float)
                if v.shape != ((n,) if any(mask) else ()):
                    ctx.fail("logmh_at_t_obs:shape", f"shape {v.shape} for n={n} mask={mask}")
                    continue
                v = np.broadcast_to(v, (n,))
                for i in range(n):
                    k = tuple(float(vals[c][i]) for c in range(6)) + (lgt0,)
                    if k not in cache:
                        h = DiffmahParams(*[vals[c][i] for c in range(5)])
                        cache[k] = np.asarray(mah_singlehalo(h, np.array([vals[5][i]], dt), lgt0)[1], float)
                    if not _close(v[i:i + 1], cache[k], dt):
                        ctx.fail("logmh_at_t_obs:value", "mass at one time is not the history's point",
                                 n=n, mask=mask, i=i, got=v[i], history=cache[k])
                if n > 1 and any(mask):
                    ctx.nontrivial(n, mask, lgt0)
    ctx.sample(mask="(logm0,logtc,early,late,t_peak,t_obs) each scalar or per-halo")


vlib.main(
    "C02", [("rows32", rows), ("rows64", rows, dict(x64=True)), ("large32", large),
            ("large64", large, dict(x64=True)), ("at_t_obs32", at_t_obs), ("at_t_obs64", at_t_obs, dict(x64=True))],
    level="exploration",
    rule="every sequence (order, omission, duplication) of <=3 (4) halos from an alphabet of 5 and permutations of 5, "
         "x every sequence of <=3 times; every scalar/array mix of the 6 arguments; a case is non-trivial when it has "
         "at least two different halos or times",
    assumptions=["six representative halos and times; comparison tolerance 3e-6 (float32), 1e-12 (float64)"])
