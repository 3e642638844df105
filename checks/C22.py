"""C22 population targets: every small target directory x cut settings through the real loader, against the files."""
import itertools
import os
import shutil
import sys
import tempfile

import numpy as np
import ref
import vlib

NT = 4
PN = ("logm0", "logtc", "early_index", "late_index", "t_peak")
LGT0 = np.log10(13.79)
OPENED = []


def audit(event, args):
    if event == "open" and args and isinstance(args[0], (str, bytes, os.PathLike)):
        OPENED.append(os.fspath(args[0]))


def rows(n, lgm, t, sat):
    """n halos whose every parameter identifies the file and the row."""
    i = np.arange(n)
    q = (hash((round(lgm * 100), round(t * 100), sat)) % 89) / 890.0
    return np.stack([lgm + 0.3 + q + 0.001 * i, -0.3 + q + 0.003 * i, 2.0 + q + 0.01 * (i % 97) + 0.001 * i, 0.3 + q + 0.002 * i,
                     t * (0.5 + 0.49 * ((i * 7) % 11) / 11) + 1e-3 * q + 1e-5 * i], axis=1)


def write(drn, bins, sat, h5py, nt=NT):
    """bins: list of (lgm, t, n)."""
    tag = "sats" if sat else "cens"
    cols = dict(lgm_obs=[], t_obs=[], mean_log_mah=[], std_log_mah=[], frac_peaked=[], t_table=[])
    for j, (lgm, t, n) in enumerate(bins):
        np.save(os.path.join(drn, f"lgm_{lgm:.2f}_t_{t:.2f}_mah_params.{tag}.npy"), rows(n, lgm, t, sat))
        tt = np.linspace(0.5, t, nt)
        cols["lgm_obs"].append(lgm)
        cols["t_obs"].append(t)
        cols["t_table"].append(tt)
        cols["mean_log_mah"].append(lgm + 0.07 - (2.0 + 0.1 * j + 0.5 * sat) * (1 - tt / t))
        cols["std_log_mah"].append(0.1 + 0.01 * j + 0.02 * np.arange(nt))
        cols["frac_peaked"].append(np.linspace(0, 0.5 + 0.01 * j, nt))
    with h5py.File(os.path.join(drn, f"mean_var_{tag}.h5"), "w") as f:
        for k, v in cols.items():
            f[k] = np.array(v)
    return {k: np.array(v) for k, v in cols.items()}


def listing(drn):
    out = {}
    for r, _, fs in os.walk(drn):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, drn)] = (os.path.getsize(p), open(p, "rb").read())
    return out


def judge(ctx, label, tab, cols, bins, sat, tmin, lgmax, nmin, case):
    keep = [j for j, (lgm, t, n) in enumerate(bins) if t > tmin and lgm < lgmax and n >= nmin]
    who = f"{label}:{'sats' if sat else 'cens'}"
    g = [(float(a), float(b)) for a, b in zip(np.asarray(tab["lgm_obs"]), np.asarray(tab["t_obs"]))]
    e = [(bins[j][0], bins[j][1]) for j in keep]
    if g != e:
        ctx.fail(f"{who}:bins", f"bins kept {g}, by the cuts {e}", **case)
        return
    for k, v in cols.items():
        if not np.array_equal(np.asarray(tab[k]), v[keep]):
            ctx.fail(f"{who}:column:{k}", f"column {k} is not the file's", **case)
            return
    ns = [int(x) for x in np.asarray(tab["n_samples"])]
    if ns != [bins[j][2] for j in keep]:
        ctx.fail(f"{who}:n_samples", f"numbers of samples {ns}, in the files {[bins[j][2] for j in keep]}", **case)
    m = cols["mean_log_mah"][keep]
    r = np.asarray(tab["mean_log_mah_rescaled"])
    if r.shape != m.shape or not np.allclose(r, m - m[:, -1:] + cols["lgm_obs"][keep][:, None], atol=1e-5):
        ctx.fail(f"{who}:mean-rescaled", "rescaled mean histories do not end at the bin's mass with unchanged shape", **case)
    for i, j in enumerate(keep):
        lgm, t, n = bins[j]
        R = rows(n, lgm, t, sat)
        S = np.stack([np.asarray(tab[p + "_samples"], float)[i] for p in PN], axis=1)
        if S.shape != (nmin, 5):
            ctx.fail(f"{who}:shape", f"{S.shape[0]} samples attached, {nmin} requested", **case)
            return
        d = abs(S[:, None, :] - R[None, :, :]).max(2)
        at = d.argmin(1)
        if (d.min(1) > 1e-6).any():
            ctx.fail(f"{who}:samples", "an attached halo is not a halo of the bin's own sample file", bin=(lgm, t), halo=S[int(d.min(1).argmax())], **case)
            return
        if len(set(at.tolist())) != nmin:
            ctx.fail(f"{who}:repeated", "the attached halos are not distinct", bin=(lgm, t), picked=at, **case)
        L = np.asarray(tab["log_mah_samples"], float)[i]
        E = np.stack([ref.log_mah(p, cols["t_table"][j], LGT0) for p in S])
        if L.shape != E.shape or not np.allclose(L, E, atol=3e-4):
            ctx.fail(f"{who}:histories", "attached histories are not those of the attached parameters on the bin's times", bin=(lgm, t),
                     got=L[0], want=E[0], **case)
            return
        Q = np.asarray(tab["log_mah_rescaled_samples"], float)[i]
        if Q.shape != L.shape or not np.allclose(Q[:, -1], lgm, atol=1e-5):
            ctx.fail(f"{who}:rescaled-end", f"rescaled histories end at {Q[..., -1]}, the bin's mass is {lgm}", bin=(lgm, t), **case)
        elif not np.allclose(Q - Q[:, -1:], L - L[:, -1:], atol=2e-5):
            ctx.fail(f"{who}:rescaled-shape", "rescaling changed the shape of the histories", bin=(lgm, t), **case)
        ctx.nontrivial(who, tuple(bins), tmin, lgmax, nmin, j)
    ctx.count(len(bins))


def loader(ctx):
    import h5py
    from diffmah.diffmahpop_kernels import load_diffmahpop_fitdata as M

    root = tempfile.mkdtemp(prefix="c22_")
    decoy = os.path.join(root, "decoy")
    os.mkdir(decoy)
    real_file = h5py.File

    def recording(fn, *a, **kw):
        OPENED.append(os.fspath(fn))
        return real_file(fn, *a, **kw)

    sys.addaudithook(audit)
    CB = [(11.0, 13.79), (12.340909, 2.5), (12.340909, 3.4747), (14.5, 5.0), (14.25, 2.0), (14.25, 9.0)]
    SB = [(11.0, 13.79), (11.0, 2.5), (12.340909, 3.4747), (13.5, 5.0), (13.25, 2.6), (13.25, 9.0)]
    # decoy: same names, other halos
    for lgm, t in CB + SB:
        for s in ("cens", "sats"):
            np.save(os.path.join(decoy, f"lgm_{lgm:.2f}_t_{t:.2f}_mah_params.{s}.npy"), rows(7, lgm + 1, t + 1, True))
    if hasattr(M, "TASSO_DRN"):
        M.TASSO_DRN = decoy

    dirs = [0]

    def run(label, cb, sb, kw, eff, case):
        drn = os.path.join(root, f"targets_{dirs[0]}")
        dirs[0] += 1
        os.mkdir(drn)
        try:
            # the two tables are separate files: their numbers of times need not agree
            ntc, nts = ((NT, NT), (NT, NT + 3), (NT + 2, NT))[dirs[0] % 3]
            cc = write(drn, cb, False, h5py, ntc)
            sc = write(drn, sb, True, h5py, nts)
            before = listing(drn)
            OPENED.clear()
            h5py.File = recording
            np.random.seed(len(cb) + 7 * dirs[0])
            try:
                ok, out = ctx.call(f"{label}", M.load_diffmahpop_targets, drn, **kw)
            finally:
                h5py.File = real_file
            bad = [p for p in OPENED if str(p).startswith(root) and not str(p).startswith(drn) or "TASSO" in str(p) or "/Users/" in str(p)]
            if bad:
                ctx.fail(f"{label}:elsewhere", f"read {bad[0]}, outside the directory asked for")
            if not ok:
                return
            if listing(drn) != before:
                ctx.fail(f"{label}:changed", "the target directory was changed")
            tmc, tms, lmc, lms, nm = eff
            judge(ctx, label, out[0], cc, cb, False, tmc, lmc, nm, case)
            judge(ctx, label, out[1], sc, sb, True, tms, lms, nm, case)
            ctx.states += 1
        finally:
            shutil.rmtree(drn, ignore_errors=True)

    # every cut setting on every bin
    for nmin in (1, 2, 3):
        cb = [(l_, t, nmin + (j % 3)) for j, (l_, t) in enumerate(CB)]
        sb = [(l_, t, nmin + ((j + 1) % 3)) for j, (l_, t) in enumerate(SB)]
        for tc, ts, lc, ls in itertools.product((0.0, 2.5, 4.0), (2.5, 6.0), (12.0, 14.5, 16.0), (13.0, 13.5)):
            run("cuts", cb, sb, dict(t_obs_min_cen=tc, t_obs_min_sat=ts, lgm_obs_max_cen=lc, lgm_obs_max_sat=ls, n_sample_min=nmin),
                (tc, ts, lc, ls, nmin), dict(t_obs_min_cen=tc, t_obs_min_sat=ts, lgm_obs_max_cen=lc, lgm_obs_max_sat=ls, n_sample_min=nmin))
    # cuts that leave no bin of one kind or of both
    for lc, ls in itertools.product((10.0, 14.5), (10.0, 13.5)):
        for _ in range(3):
            run("empty", [(l_, t, 3) for l_, t in CB], [(l_, t, 3) for l_, t in SB],
                dict(lgm_obs_max_cen=lc, lgm_obs_max_sat=ls, n_sample_min=2), (2.5, 2.5, lc, ls, 2), dict(lgm_obs_max_cen=lc, lgm_obs_max_sat=ls))
    # every assignment of sample counts to bins, around the requested number
    k = 4 if not ctx.thorough else 5
    for counts in itertools.product((1, 2, 4), repeat=k):
        cb = [(l_, t, n) for (l_, t), n in zip([CB[0], CB[2], CB[5], (13.0, 7.0), (13.2, 7.0)], counts)]
        sb = [(l_, t, n) for (l_, t), n in zip([SB[5], SB[2], SB[0], (12.0, 8.0), (12.2, 8.0)], counts[::-1])]
        run("counts", cb, sb, dict(n_sample_min=2), (2.5, 2.5, 14.5, 13.5, 2), dict(counts=counts))
    # every order and subset of bins
    for r in (1, 2, 3):
        for o in itertools.permutations(range(4), r):
            cb = [((CB[0], CB[2], CB[5], (13.0, 7.0))[i]) + (2 + i,) for i in o]
            sb = [((SB[5], SB[2], SB[0], (12.0, 8.0))[i]) + (5 - i,) for i in o[::-1]]
            run("order", cb, sb, dict(n_sample_min=2), (2.5, 2.5, 14.5, 13.5, 2), dict(order=o))
    # published defaults
    for n in (199, 200, 203):
        run("default", [(12.0, 5.0, n), (14.5, 5.0, 210), (12.0, 2.5, 210), (13.0, 9.0, 201)],
            [(12.0, 5.0, 201), (13.5, 5.0, 210), (13.4, 2.5, 210), (13.0, 9.0, n)], {}, (2.5, 2.5, 14.5, 13.5, 200), dict(samples=n))
    # every halo of a file can be drawn
    drn = os.path.join(root, "draws")
    os.mkdir(drn)
    write(drn, [(12.0, 5.0, 4), (13.0, 7.0, 5)], False, h5py)
    write(drn, [(12.0, 5.0, 4), (13.0, 7.0, 5)], True, h5py)
    seen = {}
    for s in range(60):
        np.random.seed(s)
        ok, out = ctx.call("draws", M.load_diffmahpop_targets, drn, n_sample_min=2)
        if not ok:
            break
        for sat, tab in enumerate(out):
            for i, (lgm, t, n) in enumerate([(12.0, 5.0, 4), (13.0, 7.0, 5)]):
                R = rows(n, lgm, t, bool(sat))
                for v in np.asarray(tab["logm0_samples"])[i]:
                    seen.setdefault((sat, i), set()).add(int(abs(R[:, 0] - v).argmin()))
    else:
        for (sat, i), s in seen.items():
            if len(s) != (4, 5)[i]:
                ctx.fail("draws:never", f"in 60 loads only halos {sorted(s)} of bin {i} were ever drawn", satellites=bool(sat))
    shutil.rmtree(root, ignore_errors=True)
    ctx.transitions = dirs[0]
    ctx.extra["directories"] = dirs[0]
    ctx.sample(counts=[1, 2, 4, 2], n_sample_min=2)


def rescale(ctx):
    from diffmah.diffmahpop_kernels import load_diffmahpop_fitdata as M

    col = (10.0, 11.5, 13.0)
    for n, nt in itertools.product((1, 2, 3), (1, 2, 3)):
        if n * nt > (6 if not ctx.thorough else 9):
            continue
        for v in itertools.product(col, repeat=n * nt):
            L = np.array(v).reshape(n, nt)
            for lg in (12.25, 9.0, "per-halo"):
                m = np.array([12.0, 13.5, 10.25])[:n] if lg == "per-halo" else lg
                arg = L.copy()
                ok, g = ctx.call("rescale", M.rescale_target_log_mahs, arg, m)
                if not ok:
                    return
                ctx.count()
                ctx.nontrivial("rescale", v, n, lg)
                e = L - L[:, -1:] + np.broadcast_to(m, (n,))[:, None]
                if np.shape(g) != e.shape or not np.allclose(g, e, atol=1e-6):
                    ctx.fail("rescale:values", f"{L.tolist()} rescaled to {m} is {np.asarray(g).tolist()}")
                if not np.array_equal(arg, L):
                    ctx.fail("rescale:argument", "the histories were changed")
    ctx.sample(history=[10.0, 11.5], mass=12.25)


vlib.main(
    "C22", [("loader", loader), ("rescale", rescale)],
    level="exploration",
    rule="every cut setting of a lattice with values on and off the bins' own masses and times, every assignment of sample counts "
         "{n-1, n, n+2} to 4 bins, every order of up to 3 bins, default settings at 199/200/203 samples, each directory written to disk "
         "and loaded by the real loader; with the satellites' tables as long as, longer and shorter than the centrals'; non-trivial per kept bin "
         "of a distinct directory and setting")
