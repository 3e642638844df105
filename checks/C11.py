"""C11 parallel fitting programs: every schedule of the real program text, every small halo/process count, awkward directories."""
import itertools
import os
import shutil

import fitjobs
import mpisim
import numpy as np
import vlib

TMP = os.environ.get("VERIF_SCRATCH", "/tmp")


def run_all_schedules(ctx, job, n, label, sync=False, stale=False, one=False, expect=fitjobs.expected_row, decoys=True):
    """Every schedule (or, with one=True, the default one) of job on n processes."""
    prog = fitjobs.program(job)
    last = {}

    def make():
        last["files"] = fitjobs.prepare(job, decoys=decoys, stale=stale)
        job.calls.clear()
        return mpisim.World(n, prog, job.outdir, job.root, sync=sync)

    def check(w, complete):
        ctx.count()
        bad = list(w.problems)
        if complete:
            bad += fitjobs.final_problems(job, last["files"], expect)
            fitted = sorted(i for _, i in job.calls if i is not None)
            if not bad and fitted != list(range(len(job.halos))):
                bad.append(("refit", f"halos fitted: {fitted} of {len(job.halos)}"))
        for k, m in bad:
            ctx.fail(f"{job.kind}:{k}", m[:600], case=label, processes=n, halos={b: len(r) for b, r in job.outputs.items()},
                     schedule=w.trace[:200], outdir=os.path.basename(job.outdir), argv=job.argv)
            w.problems.append((k, m))

    with fitjobs.surroundings(job):
        if one:
            w = make()
            check(w, w.run([]))
            ctx.states += len(w.trace)
            ctx.transitions += len(w.trace)
            ctx.traces += 1
            st = None
        else:
            st = mpisim.explore(make, check, ctx)
            ctx.extra[label] = dict(states=st[0], transitions=st[1], executions=st[2])
    ctx.nontrivial(job.kind, label)


def jobs(ctx, kind):
    """Schedules: processes x halos, all interleavings."""
    fitjobs.install()
    k = 0

    def new(halos, **kw):
        nonlocal k
        k += 1
        return fitjobs.make_job(kind, os.path.join(TMP, f"j{k}"), halos, **kw)

    hacc = kind in ("lastjourney", "discovery")
    multi = hacc or kind == "bpl"
    grid = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2)]
    if ctx.thorough:
        grid += [(2, 5), (3, 3), (3, 5), (4, 2), (4, 3), (5, 2)]
    for n, h in grid:
        job = new([h])
        # synchronous completion only matters to programs that send or broadcast
        for sync in (False, True) if n > 1 and (hacc or n < 3 or ctx.thorough) else (False,):
            run_all_schedules(ctx, job, n, f"ranks{n}:halos{h}:sync{int(sync)}", sync=sync)
        shutil.rmtree(job.root)
    if hacc:
        for n, hs, nc in [(2, [3, 2], 2), (2, [1, 0], 1), (2, [2], 3), (1, [5], 11)] + ([(3, [4, 1, 5], 2), (2, [3, 4], 3), (4, [5, 2], 2)] if ctx.thorough else []):
            job = new(hs, nchunks=nc)
            run_all_schedules(ctx, job, n, f"ranks{n}:files{hs}:chunks{nc}")
            shutil.rmtree(job.root)
        job = new([110, 3], nchunks=104)
        run_all_schedules(ctx, job, 2, "ranks2:files[110,3]:chunks104", one=True)
        shutil.rmtree(job.root)
    elif multi:
        for n, hs in [(2, [2, 3]), (3, [1, 1])] + ([(3, [3, 2, 2])] if ctx.thorough else []):
            job = new(hs)
            run_all_schedules(ctx, job, n, f"ranks{n}:files{hs}")
            shutil.rmtree(job.root)
    # what is already in the directory, and what the directory is called
    names = ["out", "my fits", "fits {0} x", "o*ut[1]", "a;b $(c) 'd'", "deep/er/dir", "rank_{1}", "out/", "tmp_mah_fits_rank_0.dat dir", "-rf", "_chunk_ a_b_c_d"]
    for name, stale, (n, h) in itertools.product(names, (False, True), [(2, 3)] + ([(1, 1), (3, 2)] if ctx.thorough else [])):
        job = new([h], out=name)
        run_all_schedules(ctx, job, n, f"dir {name!r} stale{int(stale)} ranks{n}", stale=stale, one=True)
        shutil.rmtree(job.root)
    # relative output directory, missing directory
    job = new([3], arg_outdir="rel dir/x", out="rel dir/x")
    run_all_schedules(ctx, job, 2, "relative", one=True, decoys=False)
    # many processes, uneven shares: default schedule
    nmax = 12 if ctx.thorough else 8
    for n, h in itertools.product(range(1, nmax + 1), (1, 2, 4, 7)):
        job = new([h])
        run_all_schedules(ctx, job, n, f"shares ranks{n} halos{h}", one=True)
        shutil.rmtree(job.root)
    # ten or more processes: names sort differently as text
    # (and a hundred or more), and shares longer than any batch size one would choose
    for n, h in [(12, 13), (103, 105), (2, 1203)]:
        job = new([h])
        run_all_schedules(ctx, job, n, f"ranks{n} halos{h}", one=True)
    ctx.sample(kind=kind, argv=job.argv, outputs={b: len(r) for b, r in job.outputs.items()})


def _jobs(kind):
    def f(ctx):
        jobs(ctx, kind)

    f.__doc__ = jobs.__doc__
    return f


def realfit(ctx):
    """The real fitter in the programs: every row is the record of the fit of that halo's history."""
    import diffmah.fitting_helpers.diffmah_fitter_helpers as dfh

    orig = dfh.diffmah_fitter
    rows = {}

    def real(job, i, t, m, *a, **kw):
        res = orig(t, m, *a, **kw)
        rows[i] = [float(x) for x in dfh.get_outline(res).split()]
        return res

    fitjobs.install(real)
    for kind, hs, nc in [("tng", [4], 1), ("bpl", [2, 2], 1), ("galacticus", [5], 1), ("lastjourney", [3, 2], 2), ("discovery", [4], 2)]:
        job = fitjobs.make_job(kind, os.path.join(TMP, "real_" + kind), hs, nchunks=nc)
        rows.clear()

        prog = fitjobs.program(job)
        files = fitjobs.prepare(job)
        with fitjobs.surroundings(job):
            w = mpisim.World(2, prog, job.outdir, job.root)
            complete = w.run([])
            ctx.traces += 1
            ctx.states += len(w.trace)
            ctx.transitions += len(w.trace)
            bad = list(w.problems)
            if complete:
                # rows of the fitted parameters, to the precision a text line keeps
                bad += close_problems(job, files, rows)
        ctx.count(len(job.halos))
        ctx.nontrivial_n(kind, n=len(job.halos))
        for k, m in bad:
            ctx.fail(f"real:{kind}:{k}", m[:600], argv=job.argv)


def close_problems(job, files, rows):
    out = []
    for b, rr in job.outputs.items():
        d = fitjobs.read_output(os.path.join(job.outdir, b))
        for i, r in enumerate(rr):
            got = np.array([float(d[c][i]) for c in fitjobs.COLS])
            want = np.array(rows.get(r, [np.nan] * 8))
            if not np.allclose(got, want, rtol=1e-6, equal_nan=True):
                out.append(("row", f"{b} row {i} holds {got}, its fit is {want}"))
    return out


if __name__ == "__main__":
    K = ["bpl", "tng", "galacticus", "lastjourney", "discovery"]
    vlib.main("C11", [(k, _jobs(k)) for k in K] + [("realfit", realfit)], "model_checking",
              "state: per-process event history (MPI operations with received values, file operations, fits) plus the contents of the output "
              "directory, reached by running the real program text of every rank under a controller; distinct_nontrivial counts scenarios "
              "(processes x halos x files x chunks x directory name x leftovers), each explored over all its schedules or, where labelled one "
              "schedule, run once",
              ["mpi4py, haccytrees and the N-body catalogues are stand-ins; MPI semantics: collectives match in call order, eager and "
               "synchronous sends both explored, messages between two ranks do not overtake",
               "scheduling points are MPI calls, file operations in the output directory and halo fits; other code of a rank is local",
               "the fitter is replaced by a stub that identifies the history it is given, except in part realfit"])
