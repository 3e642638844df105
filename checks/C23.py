"""C23 tabulated halo samples: every small catalogue through the real tabulation program, against the halos put in."""
import contextlib
import io
import itertools
import os
import re
import runpy
import shutil
import sys
import tempfile
import types

import numpy as np
import ref
import vlib

SCR = os.path.join(vlib.REPO, "scripts", "diffmahpop_tabulation")
PN = ("logm0", "logtc", "early_index", "late_index", "t_peak")
T0 = 13.7976158
WIDTH = 0.15
CAT = {}  # subvolume -> upid_history, as the catalogue reader returns it
FILE = re.compile(r"lgm_(\d+\.\d\d)_t_(\d+\.\d\d)_mah_params\.(cens|sats)\.npy")
SNAPS = np.array([0.4, 1.1, 1.62, 2.35, 3.6, 5.1, 6.8, 7.95, 9.3, 11.0, 12.4, T0])


def reader(subvols, drn, keys, **kw):
    s, = subvols
    h = CAT[s]
    dt = [("halo_id", "i8"), ("upid_history", "i8", (h.shape[1],))]
    out = np.zeros(len(h), dtype=dt)
    out["halo_id"] = np.arange(len(h)) + 1000 * s
    out["upid_history"] = h
    return out


def module():
    m = types.ModuleType("umachine_pyio")
    m.__path__ = []
    lm = types.ModuleType("umachine_pyio.load_mock")
    lm.load_mock_from_binaries = reader
    m.load_mock = lm
    m.load_mock_from_binaries = reader
    sys.modules["umachine_pyio"], sys.modules["umachine_pyio.load_mock"] = m, lm
    if SCR not in sys.path:
        sys.path.insert(0, SCR)
    import smdpl_diffmahpop_utils as M

    return M


def tobs(n_t):
    return np.linspace(2.0, T0, n_t)


def lgms(t, n_m):
    return np.linspace(11.0, 15 + 0.075 * (t - 15.0), n_m)


class Catalogue:
    """halos: {subvolume: list of (params, loss, upid history)}; parameters are distinct to the written precision."""

    def __init__(self, halos, n_m, n_t):
        self.n_m, self.n_t = n_m, n_t
        self.bins = [(float(l), float(t)) for t in tobs(n_t) for l in lgms(t, n_m)]
        self.halos = halos

    def samples(self, nmax):
        """{(lgm, t, censat): [(subvolume, [eligible parameter rows])]}"""
        out = {}
        for l, t in self.bins:
            k = int(np.argmin(abs(SNAPS - t)))
            for s in sorted(self.halos):
                for p, loss, up in self.halos[s]:
                    if loss in (-1, -99):
                        continue
                    if abs(ref.log_mah(p, t, np.log10(T0)) - l) < WIDTH:
                        out.setdefault((l, t, "cens" if up[k] == -1 else "sats"), {}).setdefault(s, []).append(p)
        return out

    def write(self, dfit, dcat):
        import h5py

        os.makedirs(dfit)
        os.makedirs(dcat)
        np.savetxt(os.path.join(dcat, "smdpl_cosmic_time.txt"), SNAPS, fmt="%.9f")
        CAT.clear()
        for s, hs in self.halos.items():
            with h5py.File(os.path.join(dfit, f"subvol_{s:03d}_diffmah_fits.h5"), "w") as f:
                a = np.array([h[0] for h in hs], float).reshape((-1, 5))
                for k, nm in enumerate(PN):
                    f[nm] = a[:, k]
                f["loss"] = np.array([h[1] for h in hs], float)
                f["halo_id"] = np.arange(len(hs)) + 1000 * s
            CAT[s] = np.array([h[2] for h in hs]).reshape((-1, SNAPS.size))


def near_edge(p, n_m, n_t):
    return any(abs(abs(ref.log_mah(p, t, np.log10(T0)) - l) - WIDTH) < 2e-3 for t in tobs(n_t) for l in lgms(t, n_m))


def make_halos(n, seq, n_m, n_t, off=0):
    """n halos; seq(i) -> (kind, mass offset index)"""
    out, i = [], 0
    while len(out) < n:
        kind, tgt = seq(len(out))
        i += 1
        # mass at observation time set through logm0
        lgm_t, t = tgt
        tp = {"early": 4.3, "mid": 7.77}.get(kind[1], 13.2) + 0.0011 * i
        q = 0.0007 * (i + off)
        shape = (0.05 + q, 2.6 + q, 0.13 + q) if i % 2 else (-0.3 + q, 4.0 + q, 0.8 + q)
        base = float(ref.log_mah((12.0, *shape, tp), t, np.log10(T0)))
        p = (12.0 + lgm_t - base + 0.0013 * (i - 1 - len(out)), *shape, tp)
        p = tuple(float(f"{x:.4f}") for x in p)
        if near_edge(p, n_m, n_t):
            assert i < 100 * n + 1000
            continue
        up = np.full(SNAPS.size, -1)
        if kind[0] == "sat":
            up[:] = 77 + i
        elif kind[0] == "infall":
            up[SNAPS > 5.5] = 88
        elif kind[0] == "backsplash":
            up[(SNAPS > 1.7) & (SNAPS < 10)] = 99
        out.append((p, {"bad": -1.0, "nofit": -99.0}.get(kind[0], 0.001), up))
        if kind[0] == "nofit":
            out[-1] = ((-99.0,) * 5, -99.0, up)
    return out


FOREIGN = {"notes.txt": b"mine", "subvol_0_notes.txt": b"keep", "subvol_12_x.npy": b"z", "subvol_7_lgm_9.00_t_2.00_mah_params.cens.txt": b"1 2"}


def listing(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def match(rows, eligible):
    """indices of eligible for each row, or the offending row"""
    E = np.array(eligible)
    d = abs(rows[:, None, :5] - E[None, :, :]).max(2)
    j = d.argmin(1)
    bad = np.flatnonzero(~(d.min(1) < 7e-5))
    return j, (rows[bad[0]] if bad.size else None)


def judge(ctx, label, cat, drn, nmax, case):
    want = cat.samples(nmax)
    have = sorted(os.listdir(drn)) if os.path.isdir(drn) else ["(no directory)"]
    names, left = {}, dict.fromkeys(want)
    for b in have:
        f = FILE.fullmatch(b)
        # the name states the bin to two decimals, of a single-precision bin
        k = f and [q for q in left if abs(q[0] - float(f[1])) < 0.0052 and abs(q[1] - float(f[2])) < 0.0052 and q[2] == f[3]]
        if not k:
            break
        names[b] = k[0]
        del left[k[0]]
    if len(names) != len(have) or left:
        ctx.fail(f"{label}:bins", f"sample files {have}, bins with halos {sorted(want)}", **case)
        return
    for nm, key in names.items():
        rows = np.load(os.path.join(drn, nm))
        by = want[key]
        if rows.ndim != 2 or rows.shape[1] < 5:
            ctx.fail(f"{label}:shape", f"{nm} holds an array of shape {rows.shape}", **case)
            continue
        el = [p for s in sorted(by) for p in by[s]]
        sub = [s for s in sorted(by) for _ in by[s]]
        j, bad = match(rows, el)
        if bad is not None:
            ctx.fail(f"{label}:halo", f"{nm} holds {bad[:5]}, no eligible halo of the bin", **case)
            continue
        if len(set(j.tolist())) != len(j):
            ctx.fail(f"{label}:repeated", f"{nm} holds a halo more than once", **case)
            continue
        cnt = {s: 0 for s in by}
        for x in j:
            cnt[sub[x]] += 1
        exp = {s: min(nmax, len(by[s])) for s in by}
        if cnt != exp:
            ctx.fail(f"{label}:count", f"{nm} holds {cnt} halos by subvolume, expected {exp}", **case)
        ctx.count(len(rows))
        ctx.nontrivial(label, nm, tuple(map(tuple, np.round(rows[:, :5], 4).tolist())))


def one(ctx, M, label, cat, root, i0, i1, outname="out", foreign=(), cli=False, case=None):
    base = os.path.join(root, "run")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(os.path.join(base, "work"))
    out = os.path.join(base, outname)
    os.makedirs(out)
    dfit, dcat = os.path.join(base, "fits dir"), os.path.join(base, "cat dir")
    cat.write(dfit, dcat)
    for b in foreign:
        open(os.path.join(out, b), "wb").write(FOREIGN[b])
    before = listing(base)
    cwd = os.getcwd()
    os.chdir(os.path.join(base, "work"))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if cli:
                argv = sys.argv
                sys.argv = ["measure_smdpl_diffmahpop.py", out, "-istart", str(i0), "-iend", str(i1), "-diffmah_drn", dfit,
                            "-sfhcat_drn", dcat, "-n_m", str(cat.n_m), "-n_t", str(cat.n_t)]
                try:
                    ok, _ = ctx.call(label, runpy.run_path, os.path.join(SCR, "measure_smdpl_diffmahpop.py"), run_name="__main__")
                finally:
                    sys.argv = argv
            else:
                ok, _ = ctx.call(label, M.smdpl_diffmahpop_subvolume_loop, out, diffmah_drn=dfit, sfhcat_drn=dcat, istart=i0, iend=i1,
                                 n_m=cat.n_m, n_t=cat.n_t)
    finally:
        os.chdir(cwd)
    if not ok:
        return None
    case = dict(case or {}, subvolumes=[i0, i1], n_m=cat.n_m, n_t=cat.n_t, directory=outname)
    sub = f"NM_{cat.n_m}_NT_{cat.n_t}_ISTART_{i0}_IEND_{i1}"
    after = listing(base)
    inside = os.path.relpath(os.path.join(out, sub), base) + os.sep
    rest = {k: v for k, v in after.items() if not k.startswith(inside)}
    if rest != before:
        gone, new = sorted(set(before) - set(rest)), sorted(set(rest) - set(before))
        chg = [k for k in before if k in rest and rest[k] != before[k]]
        ctx.fail(f"{label}:other-files", f"files removed {gone[:4]}, left behind {new[:4]}, changed {chg[:4]}", **case)
    judge(ctx, label, cat, os.path.join(out, sub), getattr(M, "N_HALOS_PER_SUBVOL", 34), case)
    ctx.states += 1
    return os.path.join(out, sub)


def KINDS(n_m, n_t):
    tt = tobs(n_t)
    b = [(lgms(t, n_m), t) for t in tt]
    L0, t0 = b[0]
    L1, t1 = b[-1]
    return [
        (("cen", "late"), (L0[0] + 0.04, t0)),
        (("sat", "late"), (L0[0] - 0.1, t0)),
        (("infall", "late"), (L1[-1] + 0.11, t1)),
        (("backsplash", "mid"), (L1[0] - 0.14, t1)),
        (("bad", "late"), (L0[0] + 0.02, t0)),
        (("nofit", "late"), (L0[0], t0)),
        (("cen", "early"), (L1[0] + 0.146, t1)),
        (("cen", "late"), (L1[0] + 0.154, t1)),
    ]


def tabulate(ctx):
    """Every catalogue of 1-3 halos over an alphabet; grids, sizes, subvolume ranges, directories."""
    M = module()
    root = tempfile.mkdtemp(prefix="c23_")
    K = KINDS(2, 2)
    seqs = [s for n in (1, 2) for s in itertools.product(range(8), repeat=n)]
    seqs += list(itertools.product(range(8), repeat=3)) if ctx.thorough else list(itertools.combinations(range(8), 3))
    for s in seqs:
        h = {0: make_halos(len(s), lambda i: K[s[i]], 2, 2)}
        one(ctx, M, "sequence", Catalogue(h, 2, 2), root, 0, 1, case=dict(kinds=s))
    # pairs of subvolumes
    for a, b in itertools.product(range(8), repeat=2):
        h = {3: make_halos(1, lambda i: K[a], 2, 2), 4: make_halos(1, lambda i: K[b], 2, 2, off=40)}
        one(ctx, M, "pair", Catalogue(h, 2, 2), root, 3, 5, case=dict(kinds=(a, b)))
    ctx.transitions = ctx.states
    shutil.rmtree(root, ignore_errors=True)
    ctx.sample(kinds=K, sequences=len(seqs))


def mixed(n, n_m, n_t, seed, off=0):
    tt = tobs(n_t)

    def seq(i):
        r = (i * 7919 + seed * 104729) % 100003
        t = tt[r % n_t]
        L = lgms(t, n_m)
        kind = [("cen", "late"), ("sat", "mid"), ("infall", "late"), ("backsplash", "late"), ("cen", "early"), ("bad", "late"), ("nofit", "late")][r // 11 % 7]
        return kind, (L[r // 13 % n_m] + ((r // 17) % 40 - 20) * 0.0093 + 0.0011, t)

    return make_halos(n, seq, n_m, n_t, off=off)


def grids(ctx):
    """Grids of bins, subvolume ranges, more halos than are kept, directory names, leftovers, the command line."""
    M = module()
    root = tempfile.mkdtemp(prefix="c23_")
    for n_m, n_t in ((1, 1), (1, 3), (2, 1), (3, 2), (4, 3), (12, 9), (25, 2)):
        for i0, i1 in ((0, 1), (0, 2), (5, 8)):
            h = {s: mixed(60, n_m, n_t, s, off=97 * (s - i0)) for s in range(i0, i1)}
            one(ctx, M, "grid", Catalogue(h, n_m, n_t), root, i0, i1, cli=(i1 == 2))
    # exactly at, below and above the number of halos kept, for centrals and satellites separately
    for nc, ns in itertools.product((1, 33, 34, 35, 70), (0, 1, 34, 36)):
        K = KINDS(2, 2)
        h = {9: make_halos(nc + ns, lambda i: K[0] if i % 2 == 0 and i // 2 < nc or i // 2 >= ns else K[1], 2, 2),
             10: make_halos(2, lambda i: K[i], 2, 2, off=300)}
        one(ctx, M, "limit", Catalogue(h, 2, 2), root, 9, 11, case=dict(centrals=nc, satellites=ns))
    # directories and what is in them; two- and three-digit subvolumes
    names = ["out", "my samples", "x[1]", "o*ut", "a'b", "deep/er {0}", "subvol_1 dir", "back\\slash", "q?"]
    for name, fo in itertools.product(names, ((), tuple(FOREIGN))):
        for i0, i1 in ((0, 2), (11, 13), (120, 121)) if name == "out" or ctx.thorough else ((0, 2),):
            h = {s: mixed(40, 3, 2, s, off=97 * (s - i0)) for s in range(i0, i1)}
            one(ctx, M, "directory", Catalogue(h, 3, 2), root, i0, i1, outname=name, foreign=fo, cli=bool(fo) and name == "out", case=dict(others=fo))
    # consecutive ranges into one directory
    base = os.path.join(root, "two")
    cats = {}
    for i0, i1 in ((0, 2), (2, 3)):
        h = {s: mixed(40, 3, 2, s, off=97 * s) for s in range(i0, i1)}
        cats[i0, i1] = Catalogue(h, 3, 2)
        cats[i0, i1].write(os.path.join(base, f"f{i0}"), os.path.join(base, f"c{i0}"))
        os.makedirs(os.path.join(base, "o"), exist_ok=True)
        ok, _ = ctx.call("ranges", M.smdpl_diffmahpop_subvolume_loop, os.path.join(base, "o"), diffmah_drn=os.path.join(base, f"f{i0}"),
                         sfhcat_drn=os.path.join(base, f"c{i0}"), istart=i0, iend=i1, n_m=3, n_t=2)
    for (i0, i1), c in cats.items():
        judge(ctx, "ranges", c, os.path.join(base, "o", f"NM_3_NT_2_ISTART_{i0}_IEND_{i1}"), 34, dict(subvolumes=(i0, i1)))
    shutil.rmtree(root, ignore_errors=True)
    ctx.sample(grid=(12, 9), halos=60)


def columns(M, root, ctx):
    """Number of columns the program writes."""
    d = one(ctx, M, "columns", Catalogue({0: mixed(40, 2, 2, 0)}, 2, 2), root, 0, 1)
    return np.load(os.path.join(d, sorted(os.listdir(d))[0])).shape[1] if d and os.listdir(d) else 6


def moments(ctx):
    """Mean, scatter and peaked fraction of every small directory of samples, against the histories of the samples."""
    import h5py

    M = module()
    root = tempfile.mkdtemp(prefix="c23_")
    nc = columns(M, root, ctx)

    def rows(n, l, t, sat):
        i = np.arange(n)
        q = (round(l * 100) * 31 + round(t * 100) * 17 + sat) % 89 / 890.0
        r = np.stack([l + 0.2 + q + 0.05 * np.sin(i), -0.3 + q + 0.003 * i, 2.0 + q + 0.01 * (i % 97), 0.3 + q + 0.002 * i,
                      t * (0.3 + 0.83 * ((i * 7) % 11) / 11) + 1e-3 * q + 1e-5 * i], axis=1)
        r[1::3, 4] = t  # at its peak when observed: not yet past it
        return np.concatenate([r] + [r[:, 4:5]] * (nc - 5), axis=1)

    def check(label, tab, bins, sat, nmin, nt, rescale, case):
        tag = "sats" if sat else "cens"
        keep = {(l, t): n for l, t, n in bins if n > nmin}
        got = [(round(float(a), 2), round(float(b), 2)) for a, b in zip(tab["lgm_obs"], tab["t_obs"])]
        if sorted(got) != sorted(keep):
            ctx.fail(f"{label}:{tag}:bins", f"bins {sorted(got)}, with enough halos {sorted(keep)}", **case)
            return
        for k, (l, t) in enumerate(got):
            R = rows(keep[l, t], l, t, sat)
            tt = np.linspace(0.5, t, nt)
            H = np.stack([ref.log_mah(p[:5], tt, np.log10(T0)) for p in R])
            if rescale:
                H = H - H[:, -1:] + l
            want = dict(mean_log_mah=H.mean(0), std_log_mah=H.std(0), frac_peaked=(R[:, 4][:, None] < tt).mean(0), t_table=tt)
            for q, w in want.items():
                g = np.asarray(tab[q][k], float)
                if g.shape != w.shape or not np.allclose(g, w, atol=4e-4):
                    ctx.fail(f"{label}:{tag}:{q}", f"{q} of bin {l, t} is {g}, of its samples {w}", **case)
                    return
            ctx.nontrivial(label, tag, l, t, keep[l, t], nt, rescale)
            ctx.count(4 * nt)

    CB = [(11.0, 13.8), (12.34, 2.0), (12.34, 3.47), (14.5, 5.0)]
    SB = [(11.0, 13.8), (11.0, 2.0), (12.34, 3.47), (13.5, 5.0)]
    nd = 0
    for counts in itertools.product((1, 2, 3), repeat=4 if ctx.thorough else 3):
        cb = [(l, t, n) for (l, t), n in zip(CB, counts)]
        sb = [(l, t, n) for (l, t), n in zip(SB, counts[::-1])]
        d = os.path.join(root, ("m", "a b", "x[1]", "q*")[nd % 4] + str(nd))
        nd += 1
        os.makedirs(d)
        for bb, sat in ((cb, False), (sb, True)):
            for l, t, n in bb:
                np.save(os.path.join(d, f"lgm_{l:.2f}_t_{t:.2f}_mah_params.{'sats' if sat else 'cens'}.npy"), rows(n, l, t, sat))
        b0 = listing(d)
        for nmin, nt, rs in ((1, 5, True), (2, 5, True), (0, 3, True), (1, 5, False)):
            ok, r = ctx.call("moments", M.tabulate_target_means_vars, d, nh_min=nmin, n_t_target=nt, rescale=rs)
            if ok:
                case = dict(counts=counts, nh_min=nmin, n_t_target=nt, rescale=rs, directory=os.path.basename(d))
                check("moments", r[0], cb, False, nmin, nt, rs, case)
                check("moments", r[1], sb, True, nmin, nt, rs, case)
        if listing(d) != b0:
            ctx.fail("moments:changed", "the sample directory was changed")
        ctx.states += 4
        shutil.rmtree(d)
    # the files made for fitting, with the published limit of halos
    for n in (99, 100, 101, 130):
        d = os.path.join(root, f"w{n}")
        os.makedirs(d)
        cb, sb = [(12.34, 3.47, n), (13.0, 9.0, 110)], [(12.34, 3.47, 120), (11.5, 13.8, n)]
        for bb, sat in ((cb, False), (sb, True)):
            for l, t, m in bb:
                np.save(os.path.join(d, f"lgm_{l:.2f}_t_{t:.2f}_mah_params.{'sats' if sat else 'cens'}.npy"), rows(m, l, t, sat))
        fc, fs = os.path.join(d, "mean_var_cens.h5"), os.path.join(d, "mean_var_sats.h5")
        ok, _ = ctx.call("write", M.write_mean_variance_to_disk, d, fc, fs)
        if not ok:
            break
        for fn, bb, sat in ((fc, cb, False), (fs, sb, True)):
            with h5py.File(fn, "r") as f:
                tab = {k: f[k][...] for k in f}
            check("write", tab, bb, sat, 100, 25, True, dict(n=n))
        # what the fitting programs make of the directory
        from diffmah.diffmahpop_kernels import load_diffmahpop_fitdata as L

        ok, r = ctx.call("load", L.load_diffmahpop_targets, d, n_sample_min=105)
        if ok:
            for tab, bb in ((r[0], cb), (r[1], sb)):
                got = sorted((round(float(a), 2), round(float(b), 2), int(c)) for a, b, c in zip(tab["lgm_obs"], tab["t_obs"], tab["n_samples"]))
                lim = 14.5 if bb is cb else 13.5
                if got != sorted(x for x in bb if x[2] >= 105 and x[2] > 100 and x[1] > 2.5 and x[0] < lim):
                    ctx.fail("load:bins", f"bins loaded from the tabulated directory: {got}", n=n)
        ctx.states += 2
    ctx.transitions = ctx.states
    shutil.rmtree(root, ignore_errors=True)
    ctx.sample(counts=[1, 2, 3], directories=nd)


def stops(ctx):
    """Every executed line of a run as a stop and as a raised error: recorded halos stay recorded."""
    M = module()
    root = tempfile.mkdtemp(prefix="c23_")
    base = os.path.join(root, "s")
    cat = Catalogue({s: mixed(14, 2, 2, s, off=97 * s) for s in (0, 1)}, 2, 2)
    cat.write(os.path.join(base, "f"), os.path.join(base, "c"))
    out = os.path.join(base, "o")
    ids = np.array([h[0] for s in cat.halos for h in cat.halos[s]])
    cache = {}

    def rows(p, raw):
        if raw in cache:
            return cache[raw]
        try:
            a = np.load(p) if p.endswith(".npy") else np.loadtxt(io.BytesIO(raw), ndmin=2)
            j, bad = match(a, ids)
            got = set(j.tolist()) if bad is None else set()
        except Exception:
            got = set()
        cache[raw] = got
        return got

    class Watch:
        def __init__(self):
            self.last, self.seen, self.lost, self.n = None, set(), None, 0

        def look(self, where):
            st = []
            for r, _, fs in os.walk(out):
                for f in fs:
                    s = os.stat(os.path.join(r, f))
                    st.append((os.path.join(r, f), s.st_size, s.st_mtime_ns, s.st_ino))
            self.n += 1
            st.sort()
            if st == self.last:
                return
            self.last = st
            have = set()
            for p, *_ in st:
                b = os.path.basename(p)
                key = b.split("lgm_")[-1].replace(".txt", "").replace(".npy", "")
                have |= {(key, x) for x in rows(p, open(p, "rb").read())}
            ctx.nontrivial("disk", tuple(sorted(have)), len(st))
            if self.seen - have and self.lost is None:
                self.lost = (where, sorted(self.seen - have)[:5])
            self.seen |= have

    def run(fault=None):
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        w, cnt, at = Watch(), [0], [None]

        def local(fr, ev, arg):
            if ev == "line":
                where = f"{os.path.basename(fr.f_code.co_filename)}:{fr.f_lineno}"
                w.look(where)
                cnt[0] += 1
                if fault is not None and cnt[0] == fault + 1:
                    at[0] = where
                    raise OSError("injected")
            return local

        def glob_(fr, ev, arg):
            return local if fr.f_code.co_filename.startswith(SCR) else None

        err = None
        sys.settrace(glob_)
        try:
            M.smdpl_diffmahpop_subvolume_loop(out, diffmah_drn=os.path.join(base, "f"), sfhcat_drn=os.path.join(base, "c"), istart=0, iend=2,
                                              n_m=2, n_t=2)
        except OSError as e:
            err = e
        except Exception as e:
            err = e
            ctx.fail("stops:raised", f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
        w.look("end")
        return w, cnt[0], at[0], err

    w, total, _, err = run()
    if err is not None and not ctx.fails:
        ctx.fail("stops:raised", repr(err))
    if w.lost:
        ctx.fail("stops:stop", f"a stop before {w.lost[0]} loses halos {w.lost[1]}")
    ctx.count(w.n)
    ctx.states += w.n
    full = w.seen
    if not full:
        ctx.fail("stops:nothing", "no halo was recorded")
    for k in range(0, total, 1 if ctx.thorough else 5):
        v, _, at, _ = run(fault=k)
        ctx.count()
        ctx.transitions += 1
        if v.lost:
            ctx.fail("stops:fault", f"an error at {at} loses halos {v.lost[1]}")
            break
    ctx.extra.update(lines=total, recorded=len(full))
    shutil.rmtree(root, ignore_errors=True)
    ctx.sample(lines=total)


if __name__ == "__main__":
    vlib.main(
        "C23", [("tabulate", tabulate), ("grids", grids), ("moments", moments), ("stops", stops)],
        level="exploration",
        rule="every catalogue of up to 2 halos (3: combinations) over 8 kinds of halo, all pairs of subvolumes, a list of bin grids x subvolume "
             "ranges x directories x leftovers, halo numbers around the limit, every assignment of sample numbers to bins for the moments, every "
             "executed line as a stop and as an error; non-trivial per distinct sample file, moment row and disk state",
        assumptions=["the catalogue reader is a stand-in; the catalogue's last snapshot is the SMDPL present day",
                     "halos closer than 0.002 dex to a bin edge are left out (single precision)",
                     "bins differ in their two-decimal names; leftovers are those of other runs' subvolumes or foreign files"])
