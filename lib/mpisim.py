"""Exhaustive exploration of the process schedules of the MPI fitting programs.

The real program text is executed once per rank, each rank in its own thread,
under a controller that lets exactly one rank run between two scheduling points.
Scheduling points are: every MPI call, every file open / create / remove /
rename / stat / directory listing inside the watched output directory (found by
the interpreter's audit events, whatever API issues them), and every halo fit.

World.run(prefix) replays a list of choices; explore() performs a depth-first
search over all choices, merging states that are equal: every rank has executed
the same events with the same observations and the directory contents agree.
"""
import builtins
import hashlib
import os
import subprocess
import sys
import threading
import types

import h5py
import numpy as np

_TLS = threading.local()
_WORLD = None  # the world whose ranks are running
NOBODY = 65534


class Killed(BaseException):
    """Unwinds a rank whose run is over."""


def _dirstate(d):
    h = hashlib.blake2b(digest_size=12)
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(repr(os.path.relpath(p, d)).encode())
            try:
                with _REAL["open"](p, "rb") as fh:
                    b = fh.read()
                h.update(str(len(b)).encode())
                h.update(b)
            except OSError:
                h.update(b"?")
    return h.hexdigest()


def _pathstate(p):
    """What a process can learn about one path by looking at it."""
    try:
        st = _REAL["stat"](p)
    except OSError:
        return "absent"
    if not os.path.isfile(p):
        return "dir"
    with _REAL["open"](p, "rb") as fh:
        return f"{st.st_size}:{hashlib.blake2b(fh.read(), digest_size=12).hexdigest()}"


_REAL = dict(open=builtins.open, stat=os.stat, lstat=os.lstat, popen=subprocess.Popen.__init__,
             h5init=h5py.File.__init__)


def current():
    """(world, rank) of the calling thread, or (None, None) outside a rank or inside the harness itself."""
    if getattr(_TLS, "rank", None) is None or getattr(_TLS, "busy", False):
        return None, None
    return _TLS.world, _TLS.rank


def _watched(world, p):
    try:
        p = os.fspath(p)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not isinstance(p, str):
        return False
    p = os.path.abspath(p)
    return p == world.watch or p.startswith(world.watch + "/")


MUTATING = ("os.remove", "os.rmdir", "os.rename", "os.link", "os.symlink", "os.truncate", "shutil.rmtree",
            "shutil.move", "os.chmod", "os.chown", "shutil.copyfile")
READING = ("os.listdir", "os.scandir", "glob.glob")


def _audit(event, args):
    if event not in _EVENTS or getattr(_TLS, "rank", None) is None:
        return
    world, rank = current()
    if world is None or world.over:
        return
    if event in ("os.system", "subprocess.Popen"):
        if event == "os.system":
            raise PermissionError("os.system is replaced by the harness")
        world.point(("proc",), observe=True)
        return
    paths = [a for a in args[:2] if isinstance(a, (str, bytes, os.PathLike))]
    paths = paths[:2] if event in ("os.rename", "os.link", "os.symlink", "shutil.move", "shutil.copyfile") else paths[:1]
    if event in MUTATING:
        for p in paths:
            if not _watched(world, p) and not os.path.abspath(os.fsdecode(p)).startswith(world.scratch + "/"):
                world.escape(event, p)
                raise PermissionError(f"{event} outside the scratch directory: {p!r}")
    if any(_watched(world, p) for p in paths):
        reads = event in READING or (event == "open" and not _writes(args) and paths[0])
        world.point((event, os.path.basename(os.fsdecode(paths[0]))), observe=reads)


def _writes(args):
    mode, flags = args[1], args[2]
    if isinstance(mode, str):
        return any(c in mode for c in "wax+")
    return bool(flags & (os.O_WRONLY | os.O_RDWR))


_EVENTS = set(MUTATING) | set(READING) | {"open", "os.mkdir", "os.system", "subprocess.Popen"}
_installed = []


def install():
    """Process-wide hooks; inert outside rank threads."""
    if _installed:
        return
    _installed.append(1)
    sys.addaudithook(_audit)

    def wrap_stat(fn):
        def stat(path, *a, **k):
            w, r = current()
            if w is not None and not w.over and not isinstance(path, int) and _watched(w, path):
                w.point(("stat", os.path.basename(os.fsdecode(path))), observe=path)
            return fn(path, *a, **k)
        return stat

    os.stat, os.lstat = wrap_stat(_REAL["stat"]), wrap_stat(_REAL["lstat"])

    def h5init(self, name, *a, **k):
        w, r = current()
        if w is not None and not w.over and isinstance(name, (str, bytes, os.PathLike)) and _watched(w, name):
            mode = a[0] if a else k.get("mode", "r")
            w.point(("h5", os.path.basename(os.fsdecode(name)), mode), observe=name if mode == "r" else False)
        return _REAL["h5init"](self, name, *a, **k)

    h5py.File.__init__ = h5init

    def popen(self, *a, **k):
        if getattr(_TLS, "rank", None) is not None:
            # a command the program runs must not be able to touch anything real
            k.update(user=NOBODY, group=NOBODY, extra_groups=[])
        return _REAL["popen"](self, *a, **k)

    subprocess.Popen.__init__ = popen
    os.system = lambda cmd: subprocess.call(cmd, shell=True)


class _Request:
    def __init__(self, finish):
        self._finish = finish

    def wait(self, status=None):
        return self._finish()

    Wait = wait


class Comm:
    """The communicator as seen by the calling rank."""

    def __init__(self, world_of):
        self._w = world_of

    rank = property(lambda s: _TLS.rank)
    size = property(lambda s: s._w().n)

    def Get_rank(self):
        return _TLS.rank

    def Get_size(self):
        return self._w().n

    # collectives -----------------------------------------------------------
    def _coll(self, kind, value=None, root=None, who="all"):
        """Contribute to the next collective; returns contributions once complete."""
        w, me = self._w(), _TLS.rank
        k = w.ncoll[me]
        w.ncoll[me] += 1
        c = w.colls.setdefault(k, dict(kind=kind, root=root, vals={}))
        if (c["kind"], c["root"]) != (kind, root):
            w.problem("mismatched-collectives", f"rank {me} calls {kind}(root={root}) where another rank calls {c['kind']}(root={c['root']})")
        c["vals"][me] = value
        if who == "all" or w.sync:
            w.point((kind, k), enabled=lambda: len(c["vals"]) == w.n)
        elif who == "root":  # only the root needs everybody
            w.point((kind, k), enabled=(lambda: len(c["vals"]) == w.n) if me == root else (lambda: True))
        else:  # everybody needs the root
            w.point((kind, k), enabled=lambda: root in c["vals"])
        return c["vals"]

    def Barrier(self):
        self._coll("barrier")

    barrier = Barrier

    @staticmethod
    def _fold(op, vals):
        it = [vals[i] for i in sorted(vals)]
        out = it[0]
        for v in it[1:]:
            out = op(out, v)
        return out

    def allreduce(self, v, op=None):
        return self._fold(op or SUM, self._coll("allreduce", v))

    def reduce(self, v, op=None, root=0):
        vals = self._coll("reduce", v, root, "root")
        return self._fold(op or SUM, vals) if _TLS.rank == root else None

    def allgather(self, v):
        vals = self._coll("allgather", v)
        return [vals[i] for i in sorted(vals)]

    def gather(self, v, root=0):
        vals = self._coll("gather", v, root, "root")
        return [vals[i] for i in sorted(vals)] if _TLS.rank == root else None

    def bcast(self, v=None, root=0):
        return _copy(self._coll("bcast", v, root, "leaf")[root])

    def scatter(self, v=None, root=0):
        vals = self._coll("scatter", v, root, "leaf")
        return _copy(vals[root][_TLS.rank])

    # the same on arrays (a buffer, or a list whose first entry is the buffer)
    @staticmethod
    def _buf(b):
        return np.asarray(b[0] if isinstance(b, (list, tuple)) else b)

    def _fill(self, buf, value):
        out = self._buf(buf)
        out.reshape(-1)[...] = value.reshape(-1)[: out.size] if value.size > out.size else value.reshape(-1)

    def Allreduce(self, sendbuf, recvbuf, op=None):
        self._fill(recvbuf, self._fold(op or SUM, self._coll("Allreduce", self._buf(sendbuf).copy())))

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        vals = self._coll("Reduce", self._buf(sendbuf).copy(), root, "root")
        if _TLS.rank == root:
            self._fill(recvbuf, self._fold(op or SUM, vals))

    def Bcast(self, buf, root=0):
        self._fill(buf, self._coll("Bcast", self._buf(buf).copy(), root, "leaf")[root])

    def Allgather(self, sendbuf, recvbuf):
        vals = self._coll("Allgather", self._buf(sendbuf).copy())
        self._fill(recvbuf, np.concatenate([vals[i].reshape(-1) for i in sorted(vals)]))

    def Gather(self, sendbuf, recvbuf, root=0):
        vals = self._coll("Gather", self._buf(sendbuf).copy(), root, "root")
        if _TLS.rank == root:
            self._fill(recvbuf, np.concatenate([vals[i].reshape(-1) for i in sorted(vals)]))

    Allgatherv, Gatherv = Allgather, Gather

    def Dup(self):
        return self

    # point to point ----------------------------------------------------------
    def send(self, obj, dest, tag=0):
        w, me = self._w(), _TLS.rank
        m = dict(src=me, tag=tag, obj=obj, got=False)
        w.mail[dest].append(m)
        w.point(("send", dest, tag), enabled=(lambda: m["got"]) if w.sync else (lambda: True))

    ssend = send

    def isend(self, obj, dest, tag=0):
        w, me = self._w(), _TLS.rank
        m = dict(src=me, tag=tag, obj=_copy(obj), got=False)
        w.mail[dest].append(m)
        w.point(("isend", dest, tag))
        return _Request(lambda: w.point(("wait-send", dest, tag), enabled=(lambda: m["got"]) if w.sync else (lambda: True)))

    def irecv(self, buf=None, source=-1, tag=-1):
        return _Request(lambda: self.recv(source=source, tag=tag))

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        w, me = self._w(), _TLS.rank

        def find():
            for m in w.mail[me]:
                if not m["got"] and source in (-1, m["src"]) and tag in (-1, m["tag"]):
                    return m
            return None

        w.point(("recv", source, tag), enabled=lambda: find() is not None)
        m = find()
        m["got"] = True
        w.mail[me].remove(m)
        w.note(("got", m["src"], m["tag"]))
        return _copy(m["obj"])

    def Abort(self, code=1):
        self._w().problem("abort", f"rank {_TLS.rank} calls Abort({code})")


def SUM(a, b):
    return a + b


def MAX(a, b):
    return np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b)


def MIN(a, b):
    return np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b)


def _copy(x):
    import copy

    return copy.deepcopy(x)


def fake_mpi4py():
    """Put a stand-in mpi4py whose communicator is the current world's into sys.modules."""
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = Comm(lambda: _WORLD)
    mpi.SUM, mpi.MAX, mpi.MIN, mpi.ANY_SOURCE, mpi.ANY_TAG = SUM, MAX, MIN, -1, -1
    mpi.PROC_NULL = -2
    mpi.Wtime = lambda: 0.0
    pkg = types.ModuleType("mpi4py")
    pkg.MPI = mpi
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, mpi
    return mpi


class World:
    def __init__(self, n, program, watch, scratch, sync=False, tracer=None, at_end=None):
        """program(rank) is executed in one thread per rank; watch: the directory whose accesses are events."""
        self.n, self.program, self.watch, self.scratch = n, program, os.path.abspath(watch), os.path.abspath(scratch)
        self.sync, self.tracer, self.at_end = sync, tracer, at_end
        self.over = False
        self.problems = []
        self.ncoll = [0] * n
        self.colls = {}
        self.mail = [[] for _ in range(n)]
        self.hist = [hashlib.blake2b(digest_size=12) for _ in range(n)]
        self.pending = [None] * n  # enabledness of the next step of each rank
        self.done = [False] * n
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.ctl = threading.Semaphore(0)
        self.trace = []

    def problem(self, key, msg):
        self.problems.append((key, msg))

    def escape(self, event, p):
        self.problem("escape", f"{event} of {p!r} outside the output directory")

    def note(self, what):
        self.hist[_TLS.rank].update(repr(what).encode())

    def point(self, what, enabled=None, observe=False):
        """Called in a rank thread: give up control before doing `what`."""
        me = _TLS.rank
        if self.over:
            if getattr(_TLS, "dying", False):
                return
            _TLS.dying = True
            raise Killed
        self.pending[me] = (what, enabled or (lambda: True))
        self.hist[me].update(repr(what).encode())
        self.ctl.release()
        self.sem[me].acquire()
        if self.over:
            _TLS.dying = True
            raise Killed
        if observe:
            _TLS.busy = True
            self.hist[me].update((_dirstate(self.watch) if observe is True else _pathstate(observe)).encode())
            _TLS.busy = False

    def _body(self, r):
        _TLS.rank, _TLS.world, _TLS.busy, _TLS.dying = r, self, False, False
        self.sem[r].acquire()
        if self.tracer is not None and not self.over:
            sys.settrace(self.tracer)
        try:
            if not self.over:
                self.program(r)
        except Killed:
            pass
        except SystemExit as e:
            if e.code not in (None, 0):
                self.problem("exit", f"rank {r} exits with {e.code!r}")
        except BaseException as e:
            if not self.over:
                import traceback

                self.problem(f"raised:{type(e).__name__}", f"rank {r} raised {e!r}: " + " | ".join(traceback.format_exc().strip().splitlines()[-5:]))
        finally:
            sys.settrace(None)
            if self.at_end is not None and not self.over:
                _TLS.busy = True
                self.at_end(r)
            _TLS.rank = None
            self.done[r] = True
            self.pending[r] = None
            self.ctl.release()

    def key(self):
        return (tuple((d, h.digest()) for d, h in zip(self.done, self.hist)), _dirstate(self.watch))

    def enabled(self):
        return [r for r in range(self.n) if not self.done[r] and (self.pending[r] is None or self.pending[r][1]())]

    def run(self, prefix, visit=None):
        """Run following prefix, then the default schedule; visit(key, enabled) -> False stops the run."""
        global _WORLD
        _WORLD = self
        ths = [threading.Thread(target=self._body, args=(r,), daemon=True) for r in range(self.n)]
        for t in ths:
            t.start()
        last, complete = 0, False
        while True:
            if self.problems:
                break
            en = self.enabled()
            if not en:
                if all(self.done):
                    complete = True
                    if any(self.mail):
                        self.problem("unreceived", "a message was sent that nobody received")
                else:
                    w = {r: str(self.pending[r][0]) for r in range(self.n) if not self.done[r]}
                    self.problem("deadlock", f"ranks {w} wait for each other")
                break
            i = len(self.trace)
            if i < len(prefix):
                c = prefix[i]
            else:
                if visit is not None and not visit(self.key(), en, self.trace):
                    break
                c = last if last in en else en[0]
            self.trace.append(c)
            last = c
            self.sem[c].release()
            self.ctl.acquire()
        self.over = True
        for r in range(self.n):
            self.sem[r].release()
        for t in ths:
            t.join(20)
        _WORLD = None
        return complete


def explore(make, check, ctx, limit=None):
    """Depth-first search over every schedule.  make() -> fresh World; check(world, complete) judges a finished run.

    Returns (states, transitions, runs, exhausted)."""
    seen, stack, trans, runs = {}, [[]], 0, 0
    while stack:
        prefix = stack.pop()
        w = make()

        def visit(key, en, trace):
            nonlocal trans
            if key in seen:
                return False
            seen[key] = True
            trans += len(en)
            last = trace[-1] if trace else 0
            dflt = last if last in en else en[0]
            for c in en:
                if c != dflt:
                    stack.append(list(trace) + [c])
            return True

        complete = w.run(prefix, visit)
        runs += 1
        if w.problems or complete:
            check(w, complete)
        if w.problems:
            break
        if limit and runs >= limit and stack:
            return len(seen), trans, runs, False
    ctx.states += len(seen)
    ctx.transitions += trans
    ctx.traces += runs
    return len(seen), trans, runs, True
