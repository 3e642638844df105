"""C27 options of the fitting programs: every combination of small option lattices, run on the real program text."""
import inspect
import itertools
import os
import shutil

import fitjobs
import h5py
import mpisim
import numpy as np
import vlib

TMP = os.environ.get("VERIF_SCRATCH", "/tmp")
NT = 6
_SIG = None


def _flag(v):
    return v is not None and v.lower() not in ("", "0", "no", "false")


class Catalog:
    """Input files of one simulation and every halo in them: index -> (t, mah, id, lifetime, file number, row)."""

    def __init__(self, kind, root, counts, sim=None, nums=None):
        self.kind, self.root = kind, root
        self.indir = os.path.join(root, "in")
        os.makedirs(self.indir, exist_ok=True)
        self.halos = []
        self.files = {}          # file number -> halo indices
        getattr(self, "make_" + kind)(counts, sim, nums)

    def add(self, f, t, m, hid=None, life=None):
        self.halos.append((np.asarray(t, float), np.asarray(m, float), hid, life))
        self.files.setdefault(f, []).append(len(self.halos) - 1)

    def make_bpl(self, counts, sim, nums):
        from umachine_pyio.memmap_array_utils import write_structured_array_to_memmap

        scales = np.linspace(0.2, 1.0, NT)
        np.savetxt(os.path.join(self.indir, "scale_list_bpl.dat"), scales)
        t = fitjobs.age(1 / scales - 1, 0.307, -1.0, 0.0, 0.678)
        for s, n in enumerate(counts):
            self.files[s] = []
            a = np.zeros(n, dtype=[("halo_id", "i8"), ("mpeak_history_main_prog", "f4", (NT,)), ("upid", "i8")])
            for j in range(n):
                z = (j + s) % 3
                a["halo_id"][j] = 2**40 + 1000 * s + 7 * j
                a["mpeak_history_main_prog"][j] = fitjobs.history(len(self.halos), NT, zeros=z)
                m = np.clip(np.maximum.accumulate(a["mpeak_history_main_prog"][j].astype(float)), 1.0, None)
                self.add(s, t, m, int(a["halo_id"][j]), float(t[-1] - t[z]))
            write_structured_array_to_memmap(a, os.path.join(self.indir, f"subvol_{s}"), "all")

    def make_tng(self, counts, sim, nums):
        t = np.linspace(1.0, 13.8, NT)
        np.save(os.path.join(self.indir, "tng_cosmic_time.npy"), t)
        n = counts[0]
        a = np.zeros(n, dtype=[("mpeak", "f4"), ("mpeakh", "f4", (NT,))])
        for j in range(n):
            m = fitjobs.history(j, NT, zeros=j % 3)
            a["mpeakh"][j] = np.where(m > 0, np.log10(np.where(m > 0, m, 1.0)), 0.0)
            lg = np.maximum.accumulate(a["mpeakh"][j].astype(float))
            self.add(0, t, np.where(lg > 0, 10**lg, 0.0) / fitjobs.H_TNG)
        np.save(os.path.join(self.indir, "tng_diffmah.npy"), a)

    def make_galacticus(self, counts, sim, nums):
        self.names = ["galacticus_11To14.2Mhalo_SFHinsitu_AHearin.hdf5", "other tables.hdf5"][: len(counts)]
        k = 0
        for f, (name, n) in enumerate(zip(self.names, counts)):
            self.files[f] = []
            ts, ms = [], []
            for j in range(n):
                # lifetimes (exact in binary): 12.5, 3, 2.75, 0.5, 0.25, 8
                t0, t1 = ((1.0, 13.5), (5.0, 8.0), (9.0, 11.75), (2.0, 2.5), (12.0, 12.25), (2.0, 10.0))[(j + f) % 6]
                nt = 4 + (j % 3)
                ts.append(np.linspace(t0, t1, nt))
                ms.append(fitjobs.history(k, nt))
                k += 1
            tend = max(t[-1] for t in ts)
            for t, m in zip(ts, ms):
                life = float(t[-1] - t[0])
                m = np.maximum.accumulate(m)
                if t[-1] < tend:
                    t, m = np.append(t, tend), np.append(m, m[-1])
                self.add(f, t, m, None, life)
            with h5py.File(os.path.join(self.indir, name), "w") as hdf:
                g = hdf.create_group("Outputs/Output1/nodeData")
                dt = h5py.vlen_dtype(np.dtype("f8"))
                for nm, seq in (("haloAccretionHistoryMass", ms), ("haloAccretionHistoryTime", ts)):
                    d = g.create_dataset(nm, (n,), dtype=dt)
                    for j, v in enumerate(seq):
                        d[j] = v
                g["nodeIsIsolated"] = (np.arange(n) % 2).astype("i4")
                g["basicTimeLastIsolated"] = np.arange(n) * 1.0

    def make_hacc(self, counts, sim, nums):
        sim = fitjobs.SIMS[sim]
        t = sim.ages()
        for f, n in zip(nums, counts):
            self.files[f] = []
            a = np.array([fitjobs.history(len(self.halos) + j, t.size, zeros=j % 3) for j in range(n)]).reshape((n, t.size)).astype("f4")
            with h5py.File(os.path.join(self.indir, f"m000p.coreforest.{f}.hdf5"), "w") as hdf:
                hdf["mass"] = a
            for j in range(n):
                self.add(f, t, np.maximum.accumulate(a[j].astype(float)) / sim.cosmo.h)

    make_lastjourney = make_discovery = make_hacc


def run(ctx, cat, argv, script, outputs, want, nranks, label, out="out", outdir=None, saved=(), skip=(), need=True):
    """One run with the given options; outputs: file -> halos expected; want: fitter arguments expected of every fit."""
    job = fitjobs.Job.__new__(fitjobs.Job)
    job.script, job.root, job.indir = script, cat.root, cat.indir
    job.cwd = os.path.join(cat.root, "work")
    os.makedirs(job.cwd, exist_ok=True)
    job.outdir = os.path.join(job.cwd, out)
    job.outputs, job.kind = outputs, cat.kind
    job.is_tmp = lambda b: "tmp_mah_fits_rank_" in b
    job.halos = [(t, m, h, i in skip) for i, (t, m, h, _) in enumerate(cat.halos)]
    job.argv = [script] + [(outdir or job.outdir) if a is None else a for a in argv]
    job.fits = []
    bad = []
    files = fitjobs.prepare(job, decoys=False)
    with fitjobs.surroundings(job):
        w = mpisim.World(nranks, fitjobs.program(job), job.outdir, job.root)
        complete = w.run([])
        ctx.states += len(w.trace)
        ctx.transitions += len(w.trace)
        ctx.traces += 1
    ctx.count()
    bad += w.problems
    if complete:
        bad += [x for x in fitjobs.final_problems(job, files) if x[0] != "unexpected-file" or not set(saved) & set(x[1].split("'"))]
    sel = sorted(i for r in outputs.values() for i in r)
    done = sorted(i for i, _ in job.fits if i is not None)
    if complete and done != sel and not bad:
        bad.append(("fits", f"halos {done} were fitted, the options select {sel}"))
    for i, b in job.fits:
        if i is None:
            continue
        for k, v in want.items():
            if b[k] != v and not (isinstance(v, float) and np.isclose(b[k], v, rtol=1e-12)):
                bad.append((k, f"halo {i} was fitted with {k}={b[k]!r}, the options ask for {v!r}"))
        if bool(b["force_skip_fit"]) != (i in skip):
            bad.append(("lifetime", f"halo {i} with lifetime {cat.halos[i][3]} Gyr {'not ' if i in skip else ''}skipped"))
    if need:
        for k, m in bad[:3]:
            ctx.fail(f"{k}", m[:600], argv=job.argv, processes=nranks, expected={b: list(r) for b, r in outputs.items()})
    ctx.nontrivial(cat.kind, label, nranks, job.argv[2:])
    return job, bad


def recorder():
    """Install a fitter that records which halo it gets and the value of each of its arguments."""
    global _SIG
    import diffmah.fitting_helpers.diffmah_fitter_helpers as dfh

    _SIG = inspect.signature(dfh.diffmah_fitter)

    def real(job, i, t, m, *a, **kw):
        b = _SIG.bind(t, m, *a, **kw)
        b.apply_defaults()
        job.fits.append((i, dict(b.arguments)))
        return fitjobs.stub_result(dfh, fitjobs.UNKNOWN if i is None else i, bool(b.arguments["force_skip_fit"]))

    fitjobs.install(real)
    return {k: _SIG.parameters[k].default for k in ("lgm_min", "dlogm_cut", "t_fit_min", "nstep", "n_warmup", "tpeak_fixed")}


def opt(**kw):
    """argv of the options that are given."""
    return [x for k, v in kw.items() if v is not None for x in (f"-{k}", str(v))]


def ranks(ctx):
    return (1, 2, 3) if ctx.thorough else (1, 2)


def bpl(ctx):
    """Subvolume range x test flag x processes."""
    d = recorder()
    from diffmah.data_loaders import load_bpl_um_data as lb

    want = dict(d, lgm_min=float(lb.BPL_MAH_FIT_LGMIN), t_fit_min=float(lb.BPL_T_FIT_MIN), nstep=200, n_warmup=1)
    cat = Catalog("bpl", os.path.join(TMP, "bpl"), [7, 2, 5, 1])
    script = "bolshoi_planck_fitting_script.py"
    saved = ["bpl_mpeak_histories.hdf5"]
    tests = (None, "True", "False", "1", "0") if ctx.thorough else (None, "True", "False")
    for i0, i1, test, n in itertools.product((None, 0, 1, 3), (None, 0, 1, 2, 3), tests, ranks(ctx)):
        a, b = i0 or 0, i1 or 0
        if b < a:
            continue
        sel = [i for s in range(a, b + 1) for i in cat.files[s]]
        short = sel[: 5 * n] if _flag(test) else sel
        job, _ = run(ctx, cat, [cat.indir, None] + opt(istart=i0, iend=i1, test=test), script, {"diffmah_fits.hdf5": short},
                     want, n, f"{i0}:{i1}:{test}", saved=saved)
        # the input histories are saved for the whole range
        fn = os.path.join(job.outdir, "bpl_mpeak_histories.hdf5")
        if not os.path.isfile(fn):
            ctx.fail("targets", "the input histories were not saved", argv=job.argv)
            continue
        d = fitjobs.read_output(fn)
        if [int(x) for x in d["halo_id"]] != [cat.halos[i][2] for i in sel] or \
                not np.allclose(d["mpeak_history"], [cat.halos[i][1] for i in sel], rtol=1e-6):
            ctx.fail("targets", "saved input histories are not those of the requested subvolumes in order", argv=job.argv)
    # minimum lifetime (the halos live 12.2, 10.2 or 7.9 Gyr, counted from their first snapshot)
    for dt, n in itertools.product((0.0, 7.0, 9.0, 11.2, 100.0), ranks(ctx)):
        sel = [i for s in (0, 1) for i in cat.files[s]]
        skip = {i for i in sel if cat.halos[i][3] < dt}
        job, bad = run(ctx, cat, [cat.indir, None] + opt(iend=1, dt_fit_min=dt), script, {"diffmah_fits.hdf5": sel}, want, n,
                       f"dt{dt}", skip=skip, need=False, saved=saved)
        ignored = skip and not any(b["force_skip_fit"] for _, b in job.fits)
        for k, m in bad:
            if ignored and k in ("lifetime", "row"):
                ctx.fail("dt_fit_min", f"-dt_fit_min {dt}: {m}", argv=job.argv)
            else:
                ctx.fail(k, m, argv=job.argv)
    ctx.sample(argv=job.argv)


def tng(ctx):
    """Output name x steps x chunks x test flag x processes."""
    d = recorder()
    cat = Catalog("tng", os.path.join(TMP, "tng"), [13])
    script = "tng_diffmah_fitter_script.py"
    every = cat.files[0]
    for ob, ns, nc, test, n in itertools.product((None, "mine.hdf5", "my fits {0}.h5"), (None, 1, 37), (None, 3), (None, "False"), ranks(ctx)):
        run(ctx, cat, [cat.indir, None] + opt(outbase=ob, nstep=ns, nchunks=nc, test=test), script,
            {ob or "diffmah_tng_fits.hdf5": every}, dict(d, nstep=ns or 200), n, f"{ob}:{ns}:{nc}:{test}")
    for n in ranks(ctx):
        job, bad = run(ctx, cat, [cat.indir, None] + opt(test="True"), script, {"diffmah_tng_fits.hdf5": every}, dict(d, nstep=200), n,
                       "test", need=False)
        if len({i for i, _ in job.fits}) >= len(every):
            ctx.fail("test-run", f"a short test run fits all {len(every)} halos", argv=job.argv)
    ctx.sample(argv=job.argv)


def galacticus(ctx):
    """Input name x output name x minimum lifetime x test flag x processes."""
    d = recorder()
    cat = Catalog("galacticus", os.path.join(TMP, "gal"), [8, 5])
    script = "galacticus_diffmah_fitter_script.py"

    def one(cat, inbn, outbn, test, dt, n, outdir="given", nest="out"):
        every = cat.files[cat.names.index(inbn) if inbn else 0]
        sel = [i for part in np.array_split(np.array(every), n) for i in part[:50]] if _flag(test) else every
        sel = [int(i) for i in sel]
        lim = 0.5 if dt is None else dt
        skip = {i for i in sel if cat.halos[i][3] < lim}
        job, _ = run(ctx, cat, ["-indir", cat.indir] + (["-outdir", None] if outdir else []) + opt(inbn=inbn, outbn=outbn, test=test, dt_fit_min=dt),
                     script, {outbn or "diffmah_fits.h5": sel}, d, n, f"{inbn}:{outbn}:{test}:{dt}", skip=skip, out=nest)
        return job

    names = (None, cat.names[1])
    outs = (None, "mine.hdf5")
    dts = (None, 0.0, 0.25, 0.5, 2.9, 3.0, 100.0)
    for inbn, outbn, test, dt, n in itertools.product(names, outs, (None, "True", "False"), dts, ranks(ctx)):
        one(cat, inbn, outbn, test, dt, n)
    job = one(cat, None, None, None, None, 2, nest="deep er/x")
    big = Catalog("galacticus", os.path.join(TMP, "galbig"), [121])
    for test, n in itertools.product((None, "True", "False"), (1, 2, 3)):
        one(big, None, None, test, None, n)
    ctx.sample(argv=job.argv)


def _hacc(kind):
    def f(ctx):
        """Simulation x file range x chunks x steps x test flag x processes."""
        d = recorder()
        lj = kind == "lastjourney"
        script = ("hacc_lastjourney" if lj else "hacc_discovery_sims") + "_diffmah_fitter_script.py"

        def one(cat, sim, i0, i1, nc, ns, test, n, tot=None, deftot=None):
            nums = sorted(cat.files) if deftot is None else list(range(deftot))
            k = 20 if nc is None else nc
            outs = {}
            files = nums[:1] if _flag(test) else nums[i0 or 0: i1 if i1 is not None else len(nums)]
            w = len(str(k))
            for s in files:
                for c, p in enumerate(np.array_split(np.array(cat.files[s], dtype=int), k)):
                    if c < 3 or not _flag(test):
                        outs[f"subvol_{s}_chunk_{c:0{w}d}.hdf5"] = [int(i) for i in p]
            pos = [cat.indir, None, "fits"] if lj else [cat.indir, sim, None]
            job, _ = run(ctx, cat, pos + opt(istart=i0, iend=i1, nchunks=nc, nstep=ns, test=test, num_subvols_tot=tot), script, outs,
                         dict(d, nstep=ns or 200), n, f"{sim}:{i0}:{i1}:{nc}:{ns}:{test}:{tot}")
            return job

        for sim in ((None,) if lj else ("LCDM", "W0WA")):
            cat = Catalog(kind, os.path.join(TMP, f"{kind}{sim}"), [4, 3, 5, 2], sim="LastJourney" if lj else "Discovery" + sim,
                          nums=[0, 1, 2, 3] if lj else [0, 2, 10, 11])
            for i0, i1, nc, n in itertools.product((None, 1, 3), (None, 1, 2, 4), (1, 2, 3) if ctx.thorough else (1, 3), ranks(ctx)):
                if (i0 or 0) < (4 if i1 is None else i1):
                    one(cat, sim, i0, i1, nc, None, None, n, tot=4)
            for nc, ns, test, n in itertools.product((3, 4), (None, 1, 37), (None, "True", "False"), ranks(ctx)):
                one(cat, sim, 1 if not _flag(test) else 0, 2, nc, ns, test, n, tot=4)
            # a short test run ignores the range
            one(cat, sim, 2, 3, 3, 5, "True", 2, tot=4)
            # fewer subvolumes in total than files
            if lj:
                for tot, i0 in itertools.product((1, 2, 3), (None, 1)):
                    if (i0 or 0) < tot:
                        one(cat, sim, i0, None, 2, None, None, 1, tot=tot, deftot=tot)
            else:
                job = one(cat, sim, None, None, 2, None, None, 1, tot=None)
            # more chunks than the default number, than halos, than two or three digits hold
            for nc, n in ((9, 1), (10, 1), (20, 1), (21, 2), (100, 1)) + (((99, 1), (101, 2)) if ctx.thorough else ()):
                one(cat, sim, 2, 3, nc, 1000, None, n, tot=4)
            # default number of chunks
            job = one(cat, sim, 3, 4, None, None, None, 1, tot=4)
        if lj:
            # default number of subvolumes: only the last ones are there
            cat = Catalog(kind, os.path.join(TMP, "ljlast"), [2, 3], sim="LastJourney", nums=[254, 255])
            for i0, i1 in ((254, None), (255, None), (254, 255), (254, 256)):
                job = one(cat, None, i0, i1, 2, 50, None, 1, deftot=256)
        ctx.sample(argv=job.argv)

    f.__doc__ = "Simulation x file range x chunks x steps x test flag x processes."
    return f


if __name__ == "__main__":
    vlib.main("C27", [("bpl", bpl), ("tng", tng), ("galacticus", galacticus), ("lastjourney", _hacc("lastjourney")), ("discovery", _hacc("discovery"))],
              "model_checking",
              "one run of the real program text per combination of option values and number of processes, against a selection model of "
              "the options; states and transitions are the scheduling points executed; distinct_nontrivial counts (options, processes)",
              ["mpi4py, haccytrees and catalogues are stand-ins; one schedule per combination (C11 explores schedules)",
               "the fitter is replaced by a recorder of the halo and of the value of every argument"])
