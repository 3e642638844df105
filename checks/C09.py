"""C09 fit record -> text line -> table file: every record over value alphabets, every small table and overwrite history."""
import itertools
import os

import h5py
import numpy as np
import vlib

COLS = ("logm0", "logtc", "early_index", "late_index", "t_peak", "loss", "n_points_per_fit", "fit_algo")
FL = (12.34567891, -0.98765432, 1.0e-30, -99.0, 9.9999999, 0.1, 999.99, 3.0e8)
IDS = (0, 7, -1, 2**31, 2**53 + 1, 2**63 - 1, -(2**63), 10**18 + 3)


def _mod():
    import diffmah.fitting_helpers.diffmah_fitter_helpers as dfh

    return dfh


def record(dfh, vals, npts, code, cast=float, extra=2):
    """A fit result whose target has npts points below its last point (and some plateau points)."""
    from diffmah import diffmah_kernels as dk

    y = np.concatenate([np.linspace(9.0, 11.0, npts), np.full(extra, 12.0)])
    data = dfh.DiffmahFitLossData(np.arange(1.0, y.size + 1), y, -99.0, -99.0)
    p = dk.DEFAULT_MAH_PARAMS._make([cast(v) for v in vals[:5]])
    return dfh.DiffmahFitResult(p, cast(vals[5]), code == -1, code != -1, code, data)


def close(a, b):
    return abs(a - b) <= 5.1e-6 * abs(b)


def check_line(ctx, dfh, line, vals, npts, code, hid, label):
    ctx.count()
    if not isinstance(line, str) or line.count("\n") != 1 or not line.endswith("\n"):
        ctx.fail(f"{label}:line", f"not exactly one line: {line!r}")
        return False
    f = line.split()
    head = (dfh.HEADER if hid is None else dfh.HEADER_HALO_ID)
    names = head.strip().lstrip("#").split()
    want = (("halo_id",) if hid is not None else ()) + COLS
    if tuple(names) != want or not head.startswith("#") or head.count("\n") != 1:
        ctx.fail(f"{label}:header", f"header names {names}")
        return False
    if len(f) != len(names):
        ctx.fail(f"{label}:fields", f"{len(f)} fields for {len(names)} columns", line=line)
        return False
    d = dict(zip(names, f))
    for k, v in zip(COLS[:6], vals):
        if not close(float(d[k]), v):
            ctx.fail(f"{label}:{k}", f"column {k} holds {d[k]} for value {v}", line=line)
    for k, v in (("n_points_per_fit", npts), ("fit_algo", code)) + ((("halo_id", hid),) if hid is not None else ()):
        try:
            got = int(d[k])
        except ValueError:
            got = d[k]
        if got != v:
            ctx.fail(f"{label}:{k}", f"column {k} holds {d[k]} for {v}", line=line)
    return True


def lines(ctx):
    dfh = _mod()
    al = FL if ctx.thorough else FL[:5]
    big = itertools.product(al, repeat=6)
    for i, vals in enumerate(big):
        npts, code = i % 7, (i % 3) - 1
        hid = None if i % 2 else IDS[i % len(IDS)]
        ok, line = ctx.call("get_outline", dfh.get_outline, record(dfh, vals, npts, code), halo_id=hid) if hid is not None \
            else ctx.call("get_outline", dfh.get_outline, record(dfh, vals, npts, code))
        if not ok:
            continue
        if check_line(ctx, dfh, line, vals, npts, code, hid, "line") and hid is None:
            ok, back = ctx.call("parse", dfh._parse_outline, line)
            if ok:
                if tuple(back._fields) != COLS:
                    ctx.fail("parse:fields", f"{back._fields}")
                bad = [k for k, v in zip(COLS[:6], vals) if not close(getattr(back, k), v)]
                if bad or back.n_points_per_fit != npts or back.fit_algo != code:
                    ctx.fail("parse:values", "parsing the line does not return the record", line=line, bad=bad)
                if not (isinstance(back.n_points_per_fit, (int, np.integer)) and isinstance(back.fit_algo, (int, np.integer))):
                    ctx.fail("parse:types", "counts are not integers", line=line)
        if len(set(vals)) >= 4:
            ctx.nontrivial(vals)
    # every point count x code x identifier x float type
    import jax.numpy as jnp

    vals = (12.5, -0.4, 3.25, 0.3, 13.7, 1.5e-4)
    for npts, code, hid, cast, extra in itertools.product([*range(0, 130, 1 if ctx.thorough else 9), 255, 256, 300, 40000], (-1, 0, 1), (None,) + IDS,
                                                          (float, np.float32, jnp.float32), (1, 4)):
        if cast is jnp.float32 and npts > 40:
            continue
        kw = {} if hid is None else dict(halo_id=hid)
        for h in ([kw] if hid is None else [kw, dict(halo_id=np.int64(hid))]):
            ok, line = ctx.call("get_outline", dfh.get_outline, record(dfh, vals, npts, code, cast, extra), **h)
            if ok:
                check_line(ctx, dfh, line, vals, npts, code, hid, "count")
        ctx.nontrivial("n", npts, code, hid)
    ctx.sample(values=list(vals), ids=list(IDS))


RECS = [((12.5, -0.4, 3.25, 0.3, 13.7, 1.5e-4), 9, 0), ((-99.0,) * 5 + (-99.0,), 2, -1),
        ((11.123456, 0.98, 0.3, 3.25, 2.0, 1e-12), 3, 1), ((0.001, -1.0, 10.0, 5.0, 20.0, 999.99), 70000, 1),
        ((12.5, 12.5, 12.5, 12.5, 12.5, 12.5), 0, 0)]


def check_table(ctx, fn, rows, ids, label):
    ctx.count()
    want = COLS + (("halo_id",) if ids is not None else ())
    with h5py.File(fn, "r") as hdf:
        if sorted(hdf.keys()) != sorted(want):
            ctx.fail(f"{label}:columns", f"table columns {sorted(hdf.keys())}")
            return
        tab = {k: hdf[k][...] for k in want}
    for j, k in enumerate(COLS):
        ref = [r[0][j] for r in rows] if j < 6 else [r[j - 5] for r in rows]
        a = tab[k]
        if a.shape != (len(rows),):
            ctx.fail(f"{label}:{k}:shape", f"column {k} has shape {a.shape} for {len(rows)} rows")
        elif j < 6 and not (a.dtype.kind == "f" and all(close(float(x), y) for x, y in zip(a, ref))):
            ctx.fail(f"{label}:{k}", f"column {k} holds {a.tolist()} expected {ref}")
        elif j >= 6 and not (a.dtype.kind == "i" and [int(x) for x in a] == list(ref)):
            ctx.fail(f"{label}:{k}", f"column {k} holds {a.tolist()} expected {ref}")
    if ids is not None and not (tab["halo_id"].dtype.kind in "iu" and [int(x) for x in tab["halo_id"]] == list(ids)):
        ctx.fail(f"{label}:halo_id", f"identifiers {tab['halo_id'].tolist()} expected {list(ids)}")


def tables(ctx):
    """Every table of up to 3 (thorough 4) rows over the record alphabet, with and without identifiers; overwriting."""
    dfh = _mod()
    tmp = os.environ["VERIF_SCRATCH"]
    line = {}
    for i, r in enumerate(RECS):
        line[i] = dfh.get_outline(record(dfh, *r))
    nmax = 6 if ctx.thorough else 4
    cases = [c for n in range(0, nmax + 1) for c in itertools.product(range(len(RECS)), repeat=n)]
    cases += [tuple(range(5)) * k for k in (2, 9, 40)]
    for ic, c in enumerate(cases):
        for with_id in (False, True):
            ids = None if not with_id else [IDS[(ic + q * 3) % len(IDS)] for q in range(len(c))]
            rows = [(f"{ids[q]} " if with_id else "") + line[i] for q, i in enumerate(c)]
            arr = np.array([x.split() for x in rows]).reshape((len(c), 8 + with_id))
            # as read back by the fitting programs
            variants = [arr]
            if c and ic % 5 == 0:
                fn = os.path.join(tmp, "t.dat")
                with open(fn, "w") as f:
                    f.write(dfh.HEADER_HALO_ID if with_id else dfh.HEADER)
                    f.writelines(rows)
                variants.append(np.genfromtxt(fn, dtype="str").reshape((len(c), 8 + with_id)))
            for a in variants:
                fn = os.path.join(tmp, "t.h5")
                ok, _ = ctx.call("write_collated_data", dfh.write_collated_data, fn, a.copy())
                if ok:
                    check_table(ctx, fn, [RECS[i] for i in c], ids, "table")
                # a file from the previous case is overwritten in 9 of 10 cases
                if ic % 10 == 0 and os.path.exists(fn):
                    os.remove(fn)
        if len(set(c)) > 1:
            ctx.nontrivial(c)
    ctx.sample(tables=len(cases))


def chain(ctx):
    """Real fits, written, collated and overwritten: all histories of three writes over small tables."""
    import warnings

    warnings.filterwarnings("ignore")
    dfh = _mod()
    tmp = os.environ["VERIF_SCRATCH"]
    t = np.linspace(0.5, 13.8, 40)
    fits = []
    for lgm, tp in ((12.0, 13.8), (10.5, 6.0), (14.6, 13.8)):
        m = 10 ** (lgm + 2.5 * np.log10(np.minimum(t, tp) / 13.8))
        for kw in ({}, dict(force_skip_fit=True), dict(t_fit_min=13.5)):
            r = dfh.diffmah_fitter(t, m, **kw)
            y = np.asarray(r.loss_data.log_mah_target)
            n = int((y < y[-1]).sum())
            fits.append((tuple(float(x) for x in r.p_best) + (float(r.loss_best),), n, int(r.code_used), r))
    for i, f in enumerate(fits):
        for hid in (None, 2**60 + 1):
            ok, line = ctx.call("get_outline", dfh.get_outline, f[3], halo_id=hid)
            if ok:
                check_line(ctx, dfh, line, f[0], f[1], f[2], hid, "real")
                ctx.nontrivial("real", i, hid)
    shapes = [(0, False), (1, False), (2, True), (5, False), (1, True), (0, True)]
    for hist in itertools.product(shapes, repeat=3):
        fn = os.path.join(tmp, "h.h5")
        if os.path.exists(fn):
            os.remove(fn)
        for k, (n, wid) in enumerate(hist):
            sel = [fits[(k * 2 + q) % len(fits)] for q in range(n)]
            ids = [IDS[(k + q) % len(IDS)] for q in range(n)] if wid else None
            rows = [dfh.get_outline(f[3], halo_id=None if not wid else ids[q]).split() for q, f in enumerate(sel)]
            ok, _ = ctx.call("write", dfh.write_collated_data, fn, np.array(rows, dtype=str).reshape((n, 8 + wid)))
            if ok:
                check_table(ctx, fn, [(f[0], f[1], f[2]) for f in sel], ids, "history")
        ctx.nontrivial(hist)
    ctx.sample(history=[list(x) for x in hist])


vlib.main("C09", [("lines", lines), ("tables", tables), ("chain", chain)], level="exploration",
          rule="product of value alphabets over the 6 real columns; every point count, code and identifier of the lists; "
               "every table up to 4 rows (thorough 6) over the record alphabet; every history of three writes over six table shapes; "
               "non-trivial: records/rows not all alike")
