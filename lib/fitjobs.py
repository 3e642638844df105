"""Synthetic inputs, expected outputs and in-process execution of the parallel fitting programs."""
import contextlib
import io
import os
import shutil
import sys
import types

import h5py
import mpisim
import numpy as np
import vlib

SCRIPTS = os.path.join(vlib.REPO, "scripts", "fitting_scripts")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")
COLS = ["logm0", "logtc", "early_index", "late_index", "t_peak", "loss", "n_points_per_fit", "fit_algo"]
H_HACC = 0.6766
H_TNG = 0.6774
_CODE = {}
_JOB = None


def age(z, om0, w0, wa, h, n=4001):
    """Age of a flat w0-wa universe in Gyr by direct integration in ln(a)."""
    out = []
    for zz in np.atleast_1d(z):
        lna = np.linspace(np.log(1e-8), np.log(1 / (1 + zz)), n)
        a = np.exp(lna)
        de = (1 - om0) * a ** (-3 * (1 + w0 + wa)) * np.exp(-3 * wa * (1 - a))
        f = 1 / np.sqrt(om0 * a**-3 + de)
        out.append(np.sum((f[1:] + f[:-1]) / 2 * np.diff(lna)) * 977.79222168 / (100 * h))
    return np.array(out)


class Sim:
    """What haccytrees publishes about a simulation."""

    def __init__(self, om, w0, wa, h, nt=6):
        self.cosmo = types.SimpleNamespace(Omega_m=om, w0=w0, wa=wa, h=h)
        self.cosmotools_steps = list(np.linspace(80, 499, nt).astype(int))

    def step2z(self, steps):
        return 500.0 / (np.asarray(steps) + 1.0) - 1.0

    def ages(self):
        c = self.cosmo
        return age(self.step2z(self.cosmotools_steps), c.Omega_m, c.w0, c.wa, c.h)


SIMS = {"LastJourney": Sim(0.310, -1.0, 0.0, H_HACC), "DiscoveryLCDM": Sim(0.3096, -1.0, 0.0, 0.6766, 5),
        "DiscoveryW0WA": Sim(0.344, -0.64, -1.27, 0.6407, 5)}


def corematrix_reader(fn, *, calculate_secondary_host_row=False, nchunks=1, chunknum=0, simulation=None, **kw):
    assert 0 <= chunknum < nchunks and simulation in SIMS.values()
    with h5py.File(fn, "r") as hdf:
        m = np.array_split(hdf["mass"][...], nchunks)[chunknum]
    return dict(infall_tree_node_mass=m, tree_node_mass=m * 0.5, fof_halo_mass=m * 3.0, absolute_row_idx=np.arange(m.size).reshape(m.shape))


def fakes():
    mpisim.fake_mpi4py()
    hc = types.ModuleType("haccytrees")

    class Simulation:
        simulations = {"LastJourney": SIMS["LastJourney"]}

        @staticmethod
        def parse_config(name):
            return SIMS[name]

    ct = types.ModuleType("haccytrees.coretrees")
    ct.corematrix_reader = corematrix_reader
    hc.Simulation, hc.coretrees = Simulation, ct
    sys.modules["haccytrees"], sys.modules["haccytrees.coretrees"] = hc, ct
    ds, dl = types.ModuleType("diffsky"), types.ModuleType("diffsky.data_loaders")

    def load_flat_hdf5(fn, istart=0, iend=None, keys=None, dataset=None):
        with h5py.File(fn, "r") as hdf:
            return {k: hdf[k][istart:iend] for k in (keys or hdf.keys())}

    dl.load_flat_hdf5 = load_flat_hdf5
    ds.data_loaders = dl
    sys.modules["diffsky"], sys.modules["diffsky.data_loaders"] = ds, dl


class Quiet:
    """A stdout for rank threads."""

    def write(self, s):
        return len(s)

    def flush(self):
        pass


def code(script):
    if script not in _CODE:
        fn = os.path.join(SCRIPTS, script)
        with open(fn) as fh:
            _CODE[script] = compile(fh.read(), fn, "exec")
    return _CODE[script]


def history(i, nt, zeros=0, dips=True):
    """Mass history of halo i: unique, rising, with early zeros and a dip (so that the running maximum matters)."""
    m = 10.0 ** (11 + 0.15 * (i % 30) + 0.001 * (i // 30)) * np.linspace(0.05 + 0.01 * (i % 7), 1.0, nt) ** (1 + 0.2 * (i % 5))
    m[:zeros] = 0.0
    if dips and nt > 3:
        m[-2] = m[-3] * 0.7
    return m


class Job:
    """One run of one program: script, argv, inputs, outputs expected."""

    def __init__(self, script, root, out="out"):
        self.script, self.root = script, root
        self.indir = os.path.join(root, "in")
        self.outdir = os.path.join(root, "work", out)
        self.cwd = os.path.join(root, "work")
        self.outputs = {}  # basename -> list of halos (index into self.halos)
        self.halos = []  # (t, mah, halo_id or None, skip)
        self.is_tmp = lambda b: "tmp_mah_fits_rank_" in b
        os.makedirs(self.indir)
        os.makedirs(self.cwd)

    def add(self, t, mah, hid=None, skip=False):
        self.halos.append((np.asarray(t, float), np.asarray(mah, float), hid, skip))
        return len(self.halos) - 1


def make_job(kind, root, halos, out="out", nsub=1, nchunks=1, arg_outdir=None):
    """halos: halo counts per file (list of length nsub)."""
    if isinstance(halos, int):
        halos = [halos] * nsub
    nsub = len(halos)
    if kind == "bpl":
        job = Job("bolshoi_planck_fitting_script.py", root, out)
        from umachine_pyio.memmap_array_utils import write_structured_array_to_memmap

        scales = np.linspace(0.2, 1.0, 6)
        np.savetxt(os.path.join(job.indir, "scale_list_bpl.dat"), scales)
        t = age(1 / scales - 1, 0.307, -1.0, 0.0, 0.678)
        rows = []
        k = 0
        for s in range(nsub + 1):  # one more subvolume than requested
            n = halos[s] if s < nsub else 2
            a = np.zeros(n, dtype=[("halo_id", "i8"), ("mpeak_history_main_prog", "f4", (6,)), ("upid", "i8")])
            for j in range(n):
                a["halo_id"][j] = 2**53 + 1 + 1000 * s + 7 * (k + j) if j % 2 else 900 - 13 * j - s
                a["mpeak_history_main_prog"][j] = history(k + j if s < nsub else 40 + j, 6, zeros=j % 3)
            k += n
            write_structured_array_to_memmap(a, os.path.join(job.indir, f"subvol_{s}"), "all")
            if s < nsub:
                for r in a:
                    m = np.clip(np.maximum.accumulate(r["mpeak_history_main_prog"].astype(float)), 1.0, None)
                    rows.append(job.add(t, m, int(r["halo_id"])))
        job.outputs["diffmah_fits.hdf5"] = rows
        job.argv = [job.indir, None, "-istart", "0", "-iend", str(nsub - 1)]
        job.targets = "bpl_mpeak_histories.hdf5"
    elif kind == "tng":
        job = Job("tng_diffmah_fitter_script.py", root, out)
        n, nt = sum(halos), 6
        t = np.linspace(1.0, 13.8, nt)
        np.save(os.path.join(job.indir, "tng_cosmic_time.npy"), t)
        a = np.zeros(n, dtype=[("mpeak", "f4"), ("mpeakh", "f4", (nt,))])
        rows = []
        for j in range(n):
            m = history(j, nt, zeros=j % 3)
            lg = np.where(m > 0, np.log10(np.where(m > 0, m, 1.0)), 0.0)
            a["mpeakh"][j] = lg
            lg = np.maximum.accumulate(a["mpeakh"][j].astype(float))
            rows.append(job.add(t, np.where(lg > 0, 10**lg, 0.0) / H_TNG))
        np.save(os.path.join(job.indir, "tng_diffmah.npy"), a)
        job.outputs["diffmah_tng_fits.hdf5"] = rows
        job.argv = [job.indir, None]
    elif kind == "galacticus":
        job = Job("galacticus_diffmah_fitter_script.py", root, out)
        n = sum(halos)
        fn = os.path.join(job.indir, "gal acticus.hdf5")
        ts, ms = [], []
        for j in range(n):
            nt = (6, 4, 7, 2)[j % 4]
            tmax = 13.5 if j == n - 1 else (13.5, 9.0, 12.0, 5.3)[(j + 1) % 4]
            t = np.linspace(5.0 if nt == 2 else 1.0, tmax, nt)
            ts.append(t)
            ms.append(history(j, nt))
        T0 = max(t[-1] for t in ts)
        rows = []
        for t, m in zip(ts, ms):
            m = np.maximum.accumulate(m)
            skip = t[-1] - t[0] < 0.5
            if t[-1] < T0:
                t, m = np.append(t, T0), np.append(m, m[-1])
            rows.append(job.add(t, m, skip=skip))
        with h5py.File(fn, "w") as hdf:
            g = hdf.create_group("Outputs/Output1/nodeData")
            dt = h5py.vlen_dtype(np.dtype("f8"))
            for name, seq in (("haloAccretionHistoryMass", ms), ("haloAccretionHistoryTime", ts)):
                d = g.create_dataset(name, (n,), dtype=dt)
                for j, v in enumerate(seq):
                    d[j] = v
            g["nodeIsIsolated"] = (np.arange(n) % 2).astype("i4")
            g["basicTimeLastIsolated"] = np.arange(n) * 1.0
        job.outputs["diffmah_fits.h5"] = rows
        job.argv = ["-indir", job.indir, "-inbn", os.path.basename(fn), "-outdir", None]
    elif kind in ("lastjourney", "discovery"):
        lj = kind == "lastjourney"
        job = Job(("hacc_lastjourney" if lj else "hacc_discovery_sims") + "_diffmah_fitter_script.py", root, out)
        sim = SIMS["LastJourney"] if lj else SIMS["DiscoveryW0WA"]
        t = sim.ages()
        nt = t.size
        k = 0
        istart = 1
        # file numbers whose text order is not their numerical order
        nums = list(range(0, nsub + 2)) if lj else [0, 2, 10, 11, 100][: nsub + 2]
        for pos, s in enumerate(nums):
            inside = istart <= pos < istart + nsub
            n = halos[pos - istart] if inside else 2
            a = np.array([history(k + j, nt, zeros=j % 3) for j in range(n)]).reshape((n, nt)).astype("f4")
            with h5py.File(os.path.join(job.indir, f"m000p.coreforest.{s}.hdf5"), "w") as hdf:
                hdf["mass"] = a
            if inside:
                k += n
                parts = np.array_split(np.arange(n), nchunks)
                w = len(str(nchunks))
                for c, p in enumerate(parts):
                    job.outputs[f"subvol_{s}_chunk_{c:0{w}d}.hdf5"] = [
                        job.add(t, np.maximum.accumulate(a[j].astype(float)) / sim.cosmo.h) for j in p]
        if lj:
            job.argv = [job.indir, None, "fits", "-num_subvols_tot", str(len(nums))]
        else:
            job.argv = [job.indir, "W0WA", None]
        job.argv += ["-istart", str(istart), "-iend", str(istart + nsub), "-nchunks", str(nchunks)]
    else:
        raise ValueError(kind)
    job.kind = kind
    job.argv = [job.script] + [(arg_outdir or job.outdir) if a is None else a for a in job.argv]
    return job


DECOYS = {"notes.txt": b"mine\n", "other_fits.hdf5": b"not hdf5", "my_tmp_mah_fits_rank_0.dat": b"1 2 3\n",
          "tmp_mah_fits_rank_0.dat.bak": b"4 5\n", "subvol_77_chunk_00_tmp_mah_fits_rank_0.dat": b"another job\n",
          "tmp_mah_fits_rank_{0}.dat": b"literal\n"}


def prepare(job, decoys=True, stale=False):
    """A fresh output directory; returns the bytes of everything outside the outputs."""
    for b in os.listdir(job.cwd):
        p = os.path.join(job.cwd, b)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    files = {}
    if decoys:
        os.makedirs(job.outdir, exist_ok=True)
        for d in (job.outdir, job.cwd):
            for b, c in DECOYS.items():
                files[os.path.join(d, b)] = c
        # a directory whose name is a prefix of the output directory's
        head = os.path.basename(job.outdir.rstrip("/")).split()[0].split("*")[0][:-1]
        if head:
            files[os.path.join(os.path.dirname(job.outdir), head)] = b"prefix\n"
    for p, c in files.items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(c)
    if stale:
        # left behind by an earlier run that died: same names, other contents
        for b in (["tmp_mah_fits_rank_0.dat"] if job.kind in ("bpl", "tng", "galacticus") else
                  [list(job.outputs)[0][:-5] + "_tmp_mah_fits_rank_0.dat"]):
            with open(os.path.join(job.outdir, b), "w") as fh:
                fh.write("# junk header\n" + "9 " * 8 + "\n" + "8 8")
        for b in job.outputs:
            with h5py.File(os.path.join(job.outdir, b), "w") as hdf:
                hdf["logm0"] = np.arange(3.0)
                hdf["stale"] = np.arange(3.0)
    return files


def stub_result(dfh, i, skip):
    from diffmah import diffmah_kernels as dk

    y = np.concatenate([np.linspace(9.0, 11.0, i % 9), np.full(2, 12.0)])
    data = dfh.DiffmahFitLossData(np.arange(1.0, y.size + 1), y, -99.0, -99.0)
    p = dk.DEFAULT_MAH_PARAMS._make([10 + 0.01 * i, 0.001 * i, 2 + 0.01 * i, 1 + 0.001 * i, 5 + 0.01 * i])
    return dfh.DiffmahFitResult(p, -1.0 if skip else 0.001 * (i + 1), skip, True, -1 if skip else i % 2, data)


def expected_row(job, i):
    skip = job.halos[i][3]
    return [10 + 0.01 * i, 0.001 * i, 2 + 0.01 * i, 1 + 0.001 * i, 5 + 0.01 * i, -1.0 if skip else 0.001 * (i + 1),
            i % 9, -1 if skip else i % 2]


UNKNOWN = 5000  # a history no halo of the input has


def identify(job, t, m):
    t, m = np.asarray(t, float), np.asarray(m, float)
    for i, (te, me, _, _) in enumerate(job.halos):
        if m.size and me.size and abs(m[-1] - me[-1]) > 1e-5 * abs(me[-1]):
            continue
        if t.shape == te.shape and m.shape == me.shape and np.allclose(m, me, rtol=2e-6, atol=0) and np.allclose(t, te, rtol=5e-4):
            return i
    return None


def install(real=None):
    """Patch the fitter: stub returns a record that identifies the history it was given (or runs `real`)."""
    fakes()
    mpisim.install()
    import diffmah.fitting_helpers.diffmah_fitter_helpers as dfh
    from diffmah.data_loaders import load_bpl_um_data, load_galacticus_eps_mahs, load_hacc_mahs, load_tng_mahs  # noqa

    def fitter(t_sim, mah_sim, *a, **kw):
        w, r = mpisim.current()
        job = _JOB
        if w is not None:
            w.point(("fit",))
        i = identify(job, t_sim, mah_sim)
        if i is None and w is not None:
            mpisim._TLS.busy = True
            w.problem("wrong-history", f"a history is fitted that is no input halo's: t={np.asarray(t_sim)} m={np.asarray(mah_sim)}")
            mpisim._TLS.busy = False
        job.calls.append((r, i))
        if real is not None:
            return real(job, i, t_sim, mah_sim, *a, **kw)
        return stub_result(dfh, UNKNOWN if i is None else i, bool(kw.get("force_skip_fit", False)))

    dfh.diffmah_fitter = fitter
    return dfh


def program(job):
    co = code(job.script)
    quiet = Quiet()

    def body(rank):
        g = {"__name__": "__main__", "__file__": co.co_filename, "print": lambda *a, **k: None}
        exec(co, g)

    return body


@contextlib.contextmanager
def surroundings(job):
    """argv, cwd and stdout of a run."""
    global _JOB
    argv, cwd, out = sys.argv, os.getcwd(), sys.stdout
    _JOB = job
    job.calls = []
    sys.argv = list(job.argv)
    os.chdir(job.cwd)
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.argv, sys.stdout = argv, out
        os.chdir(cwd)


def read_output(fn):
    with h5py.File(fn, "r") as hdf:
        return {k: hdf[k][...] for k in hdf}


def final_problems(job, files, expect=expected_row):
    """What is wrong with the directory a finished run leaves behind: list of (key, message)."""
    out = []
    want = set(job.outputs) | ({job.targets} if getattr(job, "targets", None) else set())
    have = set(os.listdir(job.outdir)) if os.path.isdir(job.outdir) else set()
    mine = {os.path.basename(p) for p in files if os.path.dirname(p) == job.outdir.rstrip("/")}
    for b in sorted(have - want - mine):
        out.append(("tempfile-remains" if job.is_tmp(b) else "unexpected-file", f"{b!r} is left in the output directory"))
    for p, c in files.items():
        if not os.path.isfile(p) or open(p, "rb").read() != c:
            out.append(("foreign-file", f"the file {p[len(job.root):]!r} that belongs to somebody else was changed or deleted"))
    cw = {b for b in os.listdir(job.cwd)} - {os.path.relpath(job.outdir, job.cwd).split("/")[0]} - {
        os.path.relpath(p, job.cwd).split("/")[0] for p in files}
    if cw:
        out.append(("stray", f"the run left {sorted(cw)} outside its output directory"))
    for b, rows in job.outputs.items():
        fn = os.path.join(job.outdir, b)
        if b not in have:
            out.append(("missing-output", f"output file {b} was not written; directory holds {sorted(have - mine)}"))
            continue
        try:
            d = read_output(fn)
        except Exception as e:
            out.append(("unreadable", f"{b}: {e!r}"))
            continue
        names = COLS + (["halo_id"] if job.kind == "bpl" else [])
        if sorted(d) != sorted(names):
            out.append(("columns", f"{b} has columns {sorted(d)}"))
            continue
        ids = [int(round((x - 10) / 0.01)) for x in d["logm0"].astype(float)] if expect is expected_row else None
        if len(d["logm0"]) != len(rows):
            out.append(("count", f"{b} has {len(d['logm0'])} rows for {len(rows)} halos (halos {ids})"))
            continue
        if ids is not None and ids != list(rows):
            out.append(("order", f"{b} lists halos {ids} instead of {rows}"))
            continue
        for i, r in enumerate(rows):
            e = expect(job, r)
            got = [float(d[c][i]) for c in COLS]
            if not np.allclose(got, e, rtol=1e-5, atol=1e-7, equal_nan=True):
                out.append(("row", f"{b} row {i} (halo {r}) holds {got} instead of {e}"))
                break
        if job.kind == "bpl" and [int(x) for x in d["halo_id"]] != [job.halos[r][2] for r in rows]:
            out.append(("halo_id", f"{b} identifiers {list(d['halo_id'])}"))
    if getattr(job, "targets", None) and job.targets in have:
        d = read_output(os.path.join(job.outdir, job.targets))
        rows = job.outputs["diffmah_fits.hdf5"]
        if [int(x) for x in d["halo_id"]] != [job.halos[r][2] for r in rows] or not np.allclose(
                d["mpeak_history"], [job.halos[r][1] for r in rows], rtol=1e-6):
            out.append(("targets", f"{job.targets} does not hold the input histories in order"))
    return out
