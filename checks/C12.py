"""C12 crash points: every executed line of the real programs, as a sudden stop and as a raised fault, on every schedule."""
import itertools
import os
import shutil

import fitjobs
import h5py
import mpisim
import numpy as np
import vlib

TMP = os.environ.get("VERIF_SCRATCH", "/tmp")
UNCHUNK = "unchunk_last_journey_script.py"


class Fault(OSError):
    """An injected input/output error."""


class Interrupt(BaseException):
    """An injected termination."""


_CACHE = {}


def rowsets(d, skip, parse, tag):
    """Union over the files of d of parse(kind, contents); files whose bytes were parsed before are not parsed again."""
    have = set()
    if not os.path.isdir(d):
        return have
    for b in os.listdir(d):
        p = os.path.join(d, b)
        if b in skip or not os.path.isfile(p):
            continue
        raw = mpisim._REAL["open"](p, "rb").read()
        key = (tag, b.endswith((".h5", ".hdf5")), raw)
        if key not in _CACHE:
            got = set()
            for kind, t in tables(d, skip, [b]).values():
                got |= parse(kind, t)
            _CACHE[key] = got
        have |= _CACHE[key]
    return have


def tables(d, skip, names=None):
    """Rows recorded in every file of d as of now, read from copies: {basename: (kind, rows or None)}."""
    out = {}
    for b in names or sorted(os.listdir(d)):
        p = os.path.join(d, b)
        if b in skip or not os.path.isfile(p):
            continue
        raw = mpisim._REAL["open"](p, "rb").read()
        if raw[:4] == b"\x89HDF" or b.endswith((".h5", ".hdf5")):
            tmp = os.path.join(TMP, "snapshot.h5")
            with mpisim._REAL["open"](tmp, "wb") as fh:
                fh.write(raw)
            try:
                with h5py.File(tmp, "r") as hdf:
                    out[b] = ("h5", {k: hdf[k][...] for k in hdf})
            except Exception:
                out[b] = ("h5", None)
        else:
            out[b] = ("text", [ln.split() for ln in raw.decode("latin1").splitlines(True) if ln.endswith("\n") and not ln.startswith("#")])
    return out


class Disk:
    """Watches a directory; the invariant is evaluated whenever its contents differ from the last look."""

    def __init__(self, dirs, rows_of, initial=()):
        self.dirs, self.rows_of = dirs, rows_of
        self.seen = set(initial)  # fits that have been completely recorded
        self.last, self.looks, self.states = None, 0, set()
        self.lost = None

    def stamp(self):
        s = []
        for d in self.dirs:
            if os.path.isdir(d):
                with os.scandir(d) as it:
                    for e in it:
                        st = e.stat()
                        s.append((d, e.name, st.st_size, st.st_mtime_ns, st.st_ino))
        return sorted(s)

    def look(self, where):
        self.looks += 1
        s = self.stamp()
        if s == self.last:
            return
        self.last = s
        have = self.rows_of()
        self.states.add(tuple(sorted(have)))
        lost = self.seen - have
        if lost and self.lost is None:
            self.lost = (where, sorted(lost), [x[1:3] for x in s])
        self.seen |= have


def fit_rows(job):
    """Identifiers of the halos whose complete, correct record can be read now."""
    skip = set(fitjobs.DECOYS)

    def ok(vals, hid):
        try:
            i = int(round((float(vals[0]) - 10) / 0.01))
            return i if 0 <= i < len(job.halos) and np.allclose([float(v) for v in vals], fitjobs.expected_row(job, i), rtol=1e-5, atol=1e-7) \
                and (hid is None or job.halos[i][2] == int(hid)) else None
        except ValueError:
            return None

    idcol = job.kind == "bpl"

    def parse(kind, t):
        have = set()
        if kind == "text":
            for r in t:
                if len(r) == 8 + idcol:
                    have.add(ok(r[idcol:], r[0] if idcol else None))
        elif t is not None:
            names = fitjobs.COLS + ["halo_id"] * idcol
            if set(names) <= set(t) and len({len(t[k]) for k in names}) == 1:
                for i in range(len(t["logm0"])):
                    have.add(ok([t[k][i] for k in fitjobs.COLS], t["halo_id"][i] if idcol else None))
        have.discard(None)
        return have

    return lambda: rowsets(job.outdir, skip, parse, job.root)


def tracer_for(step):
    """A trace function calling step(frame) before every executed line of the repository."""

    def local(frame, event, arg):
        if event == "line":
            step(frame)
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(vlib.REPO + "/") else None

    return glob


def one_run(job, n, disk, prefix, fault=None, visit=None):
    """Run with crash-point looks at every line; fault=(k, exception): raise at the k-th executed line."""
    count = [0]
    where = [None]

    def step(frame):
        w, r = mpisim.current()
        if w is None or w.over:
            return
        mpisim._TLS.busy = True
        try:
            at = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} (rank {r})"
            disk.look(at)
        finally:
            mpisim._TLS.busy = False
        count[0] += 1
        if fault is not None and count[0] == fault[0] + 1:
            where[0] = at
            raise fault[1]("injected")

    w = mpisim.World(n, fitjobs.program(job), job.outdir, job.root, tracer=tracer_for(step), at_end=lambda r: disk.look(f"end of rank {r}"))
    complete = w.run(prefix, visit)
    return w, complete, count[0], where[0]


def programs(ctx, kind):
    """Sudden stop at every line on every schedule; a fault raised at every line of one schedule."""
    fitjobs.install()
    hacc = kind in ("lastjourney", "discovery")
    grid = [(1, [2], 1), (2, [3], 1), (2, [1], 1)] + ([(2, [2, 1], 2)] if hacc else [(2, [2, 1], 1)] if kind == "bpl" else [])
    if ctx.thorough:
        grid += [(3, [2], 1), (3, [4], 1)]
    for q, (n, hs, nc) in enumerate(grid):
        job = fitjobs.make_job(kind, os.path.join(TMP, f"p{q}"), hs, nchunks=nc)
        with fitjobs.surroundings(job):
            seen, stack, runs, looks, disks = {}, [[]], 0, 0, set()
            total = None
            while stack:
                prefix = stack.pop()
                fitjobs.prepare(job)
                disk = Disk([job.outdir], fit_rows(job))

                def visit(key, en, trace):
                    if key in seen:
                        return False
                    seen[key] = 1
                    ctx.transitions += len(en)
                    last = trace[-1] if trace else 0
                    if ctx.thorough or nc == 1:
                        stack.extend(list(trace) + [c] for c in en if c != (last if last in en else en[0]))
                    return True

                w, complete, cnt, _ = one_run(job, n, disk, prefix, visit=visit)
                runs += 1
                if complete and total is None:
                    total = cnt
                    if disk.seen != set(range(len(job.halos))):
                        ctx.fail(f"{kind}:end", f"after the run only the fits of halos {sorted(disk.seen)} of {len(job.halos)} could ever be read", argv=job.argv)
                looks += disk.looks
                disks |= disk.states
                if w.problems:
                    ctx.fail(f"{kind}:{w.problems[0][0]}", w.problems[0][1][:400], schedule=w.trace)
                    break
                if disk.lost:
                    at, lost, files = disk.lost
                    ctx.fail(f"{kind}:stop", f"a stop before {at} loses the recorded fits of halos {lost}; directory then holds {files}",
                             argv=job.argv, processes=n, schedule=w.trace)
                    break
            ctx.count(looks)
            ctx.states += len(seen)
            ctx.traces += runs
            for s in disks:
                ctx.nontrivial(kind, q, s)
            faults = 0
            for exc in (Fault, Interrupt) if ctx.thorough or q == 1 else (Fault,):
                stepk = 1 if ctx.thorough or (total or 0) < 300 else 2 if total < 500 else 3
                for k in range(0, total or 0, stepk):
                    fitjobs.prepare(job)
                    disk = Disk([job.outdir], fit_rows(job))
                    w, complete, _, at = one_run(job, n, disk, [], fault=(k, exc))
                    disk.look("end")
                    faults += 1
                    ctx.count()
                    if disk.lost:
                        ctx.fail(f"{kind}:fault", f"{exc.__name__} raised at {at} loses the recorded fits of halos {disk.lost[1]} (seen {disk.lost[0]})",
                                 argv=job.argv, processes=n)
                        break
            ctx.extra[f"ranks{n}:files{hs}:chunks{nc}"] = dict(schedules=runs, crash_points=looks, distinct_disk_states=len(disks), faults=faults)
        shutil.rmtree(job.root)
    ctx.sample(kind=kind, crash_points=ctx.extra)


def _programs(kind):
    def f(ctx):
        programs(ctx, kind)

    f.__doc__ = programs.__doc__
    return f


NCH = 20


class Merge:
    """Inputs of the merging program and what it should leave."""

    def __init__(self, root, sizes, istart, iend, out, same=False):
        """sizes: {subvolume: list of 20 chunk lengths}"""
        self.root, self.sizes, self.istart, self.iend = root, sizes, istart, iend
        self.indir = os.path.join(root, "in dir {0}")
        self.outdir = self.indir if same else os.path.join(root, out)
        self.script = UNCHUNK
        self.argv = [UNCHUNK, str(istart), str(iend), "-indir", self.indir, "-outdir", self.outdir]
        self.halos, self.kind, self.cwd = [], "unchunk", os.path.join(root, "work")
        self.tables, self.raw = {}, {}
        k = 0
        for s, ns in sizes.items():
            for c, n in enumerate(ns):
                r = np.arange(k, k + n)
                self.tables[s, c] = dict(logm0=10 + 0.25 * r, halo_id=(r * 3 + 2**60).astype("i8"), mah=np.stack([r, -r], 1).astype("f4").reshape((n, 2)),
                                         name=np.array([b"h%d" % x for x in r], dtype="S6"), flag=r % 2 == 0, fit_algo=(r % 3 - 1).astype("i4"), n_points_per_fit=r * 7, loss=r / 8.0)
                k += n
        self.decoys = {"subvol_7.txt": b"x", "subvol_0_chunk_99.hdf5": b"y", "tmp_mah_fits_rank_0.dat": b"z"}

    def chunk(self, s, c):
        return os.path.join(self.indir, f"subvol_{s}_chunk_{c:02d}.hdf5")

    def prepare(self, missing=(), torn=()):
        for d in (self.indir, self.outdir, self.cwd):
            if os.path.isdir(d):
                shutil.rmtree(d)
        os.makedirs(self.indir)
        os.makedirs(self.cwd)
        for (s, c), t in self.tables.items():
            if (s, c) in missing:
                continue
            if (s, c) not in self.raw:
                with h5py.File(self.chunk(s, c), "w") as hdf:
                    for k, v in t.items():
                        hdf[k] = v
                self.raw[s, c] = open(self.chunk(s, c), "rb").read()
            raw = self.raw[s, c]
            with open(self.chunk(s, c), "wb") as fh:
                fh.write(raw[: len(raw) // 2] if (s, c) in torn else raw)
        for b, v in self.decoys.items():
            open(os.path.join(self.indir, b), "wb").write(v)

    def rows(self):
        """Identifiers of all rows readable, unchanged, from a chunk or a complete merged file."""
        def parse(kind, t):
            have = set()
            if kind == "h5" and t is not None and {"logm0", "halo_id", "mah", "name", "flag"} <= set(t) and len({len(v) for v in t.values()}) == 1:
                for i in range(len(t["logm0"])):
                    r = int(round((t["logm0"][i] - 10) / 0.25))
                    if t["halo_id"][i] == r * 3 + 2**60 and list(t["mah"][i]) == [r, -r] and t["name"][i] == b"h%d" % r and bool(t["flag"][i]) == (r % 2 == 0):
                        have.add(r)
            return have

        return set().union(*[rowsets(d, set(self.decoys), parse, self.root) for d in {self.indir, self.outdir}])

    def final(self):
        out = []
        rng = range(self.istart, self.iend)
        for s in rng:
            fn = os.path.join(self.outdir, f"subvol_{s}_diffmah_fits.hdf5")
            if not os.path.isfile(fn):
                out.append(("missing", f"no merged file for subvolume {s}"))
                continue
            d = fitjobs.read_output(fn)
            for k in self.tables[s, 0]:
                want = np.concatenate([self.tables[s, c][k] for c in range(NCH)])
                if k not in d or d[k].shape != want.shape or d[k].dtype != want.dtype or not np.array_equal(d[k], want):
                    out.append(("content", f"column {k} of the merged file of subvolume {s}: {d.get(k, [])[:30]}"))
                    break
            if set(d) - set(self.tables[s, 0]):
                out.append(("columns", f"{sorted(d)}"))
        for (s, c) in self.tables:
            there = os.path.isfile(self.chunk(s, c))
            if there and s in rng:
                out.append(("chunk-kept", f"chunk {c} of merged subvolume {s} is still there"))
            if not there and s not in rng:
                out.append(("chunk-deleted", f"chunk {c} of subvolume {s}, outside the range, was deleted"))
        for b, v in self.decoys.items():
            p = os.path.join(self.indir, b)
            if not os.path.isfile(p) or open(p, "rb").read() != v:
                out.append(("foreign-file", b))
        extra = set(os.listdir(self.outdir)) - {f"subvol_{s}_diffmah_fits.hdf5" for s in rng} - (
            set(os.listdir(self.indir)) if self.outdir == self.indir else set())
        if extra:
            out.append(("extra", f"{sorted(extra)}"))
        return out


def run_merge(m, disk, fault=None, states=None, lines=None):
    count, where = [0], [None]

    def step(frame):
        w, r = mpisim.current()
        if w is None or w.over:
            return
        mpisim._TLS.busy = True
        try:
            before = disk.last
            disk.look(f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}")
            if states is not None and disk.last != before:
                states.append({p: mpisim._REAL["open"](p, "rb").read() for d in {m.indir, m.outdir} if os.path.isdir(d)
                               for p in (os.path.join(d, b) for b in os.listdir(d))})
        finally:
            mpisim._TLS.busy = False
        count[0] += 1
        if lines is not None:
            lines.append((frame.f_code.co_filename, frame.f_lineno))
        if fault is not None and count[0] == fault[0] + 1:
            where[0] = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
            raise fault[1]("injected")

    w = mpisim.World(1, fitjobs.program(m), m.outdir, m.root, tracer=tracer_for(step), at_end=lambda r: disk.look("end"))
    complete = w.run([])
    return w, complete and not w.problems, count[0], where[0]


def unchunk(ctx):
    """The merging program: every line as a stop or fault; restarted from every distinct crash state; missing and torn chunks."""
    fitjobs.install()
    rng = np.random.default_rng(0)
    pat = [2, 0, 1, 3, 1] * 4
    cases = [("one", {0: pat, 1: pat[::-1]}, 0, 1, False), ("two", {0: pat, 1: [1] * 20, 2: [0, 2, 0] + pat[:17], 3: [1] * 20}, 1, 3, False),
             ("same", {0: pat, 1: [1] * 20, 2: [0] * 19 + [2]}, 0, 2, True), ("none", {0: pat}, 0, 0, False), ("ten", {9: pat, 10: pat[::-1], 11: [1] * 20}, 9, 11, False)]
    for name, sizes, i0, i1, same in cases:
        m = Merge(os.path.join(TMP, "m_" + name), sizes, i0, i1, "out dir/x", same)
        full = set(range(sum(sum(v) for v in sizes.values())))
        os.makedirs(m.cwd)
        with fitjobs.surroundings(m):
            m.prepare()
            os.chdir(m.cwd)
            disk = Disk([m.indir, m.outdir], m.rows, full)
            states = []
            lines = []
            w, done, total, _ = run_merge(m, disk, states=states, lines=lines)
            ctx.count(disk.looks)
            ctx.traces += 1
            ctx.states += len(states)
            ctx.transitions += total
            if w.problems:
                ctx.fail("run:" + w.problems[0][0], w.problems[0][1][:400], case=name)
                continue
            if disk.lost:
                ctx.fail("stop", f"a stop before {disk.lost[0]} loses rows {disk.lost[1][:10]}", case=name, files=disk.lost[2])
            for k, msg in m.final():
                ctx.fail("final:" + k, msg[:300], case=name)
            for i in range(len(states)):
                ctx.nontrivial(name, "state", i)
            # a fault raised at every executed line
            if name in ("one", "same") or ctx.thorough:
                occ = {}
                for k, ln in enumerate(lines):
                    occ.setdefault(ln, []).append(k)
                # quick: the first two and the last execution of every line
                ks = range(total) if ctx.thorough else sorted({k for v in occ.values() for k in v[:2] + v[-1:]})
                for exc, k in itertools.product((Fault, Interrupt), ks):
                    m.prepare()
                    os.chdir(m.cwd)
                    disk = Disk([m.indir, m.outdir], m.rows, full)
                    w, _, _, at = run_merge(m, disk, fault=(k, exc))
                    ctx.count()
                    if disk.lost:
                        ctx.fail("fault", f"{exc.__name__} raised at {at} loses rows {disk.lost[1][:10]}", case=name)
                        break
            # restart from every crash state
            for i, snap in enumerate(states):
                if not ctx.thorough and name not in ("one", "same") and i % 8:
                    continue
                m.prepare()
                os.chdir(m.cwd)
                for d in {m.indir, m.outdir}:
                    if os.path.isdir(d):
                        for b in os.listdir(d):
                            os.remove(os.path.join(d, b))
                for p, raw in snap.items():
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "wb").write(raw)
                disk = Disk([m.indir, m.outdir], m.rows, full)
                w, done, _, _ = run_merge(m, disk)
                ctx.count(disk.looks)
                ctx.traces += 1
                if disk.lost:
                    ctx.fail("restart:stop", f"restarted after a crash, the run loses rows {disk.lost[1][:10]} at {disk.lost[0]}", case=name, crash_state=i)
                    break
                if all(m.chunk(s_, c_) in snap for s_, c_ in m.tables):
                    # stopped before any deletion: the second run must complete what the first one began
                    if not done:
                        ctx.fail("restart:unfinished", f"run again after a stop before any deletion, the merge does not complete: "
                                 f"{w.problems[0][1][:200] if w.problems else ''}", case=name, crash_state=i)
                        break
                    bad = m.final()
                    if bad:
                        ctx.fail("restart:" + bad[0][0], bad[0][1][:300], case=name, crash_state=i)
                        break
                if done and m.rows() != full:
                    ctx.fail("restart:final", f"a restarted run that finishes leaves {len(m.rows())} of {len(full)} rows", case=name, crash_state=i)
            # a chunk that is missing or torn: nothing else may be lost
            for what, c in itertools.product(("missing", "torn"), range(0, NCH, 1 if ctx.thorough else 6)):
                if i1 <= i0:
                    continue
                bad = {(i1 - 1, c)}
                m.prepare(**{what: bad})
                os.chdir(m.cwd)
                left = m.rows()
                disk = Disk([m.indir, m.outdir], m.rows, left)
                w, done, _, _ = run_merge(m, disk)
                ctx.count()
                ctx.nontrivial(name, what, c)
                if disk.lost:
                    ctx.fail(f"{what}", f"with chunk {c} {what}, rows {disk.lost[1][:10]} are lost at {disk.lost[0]}", case=name)
            os.chdir(TMP)
    ctx.sample(cases=[c[0] for c in cases], argv=m.argv)


if __name__ == "__main__":
    K = ["bpl", "tng", "galacticus", "lastjourney", "discovery"]
    vlib.main("C12", [("unchunk", unchunk)] + [(k, _programs(k)) for k in K], "fault_enumeration",
              "one evaluation per crash point looked at (every executed line of the repository's code in every process, on every schedule up to "
              "equal states) and per injected fault; distinct_nontrivial counts distinct sets of readable fits at a crash point, and restart and "
              "damaged-chunk cases",
              ["a crash stops all processes and keeps what was written to the files (no power loss: the page cache survives)",
               "mpi4py, haccytrees, diffsky and the fitter are stand-ins as in C11",
               "fits count as recorded by this run; files of an earlier run that the program is asked to overwrite are outside the property"])
