"""C10 partial reads of table files and named-parameter files: every range, column subset, group depth, write history."""
import itertools
import os
from collections import namedtuple

import h5py
import numpy as np
import vlib

TMP = os.environ.get("VERIF_SCRATCH", "/tmp")


def columns(n, salt=0):
    r = np.arange(n) + 1000 * salt
    return dict(mass=(r * 1.5 - 3).astype("f8"), halo_id=(r.astype("i8") + 2**60), flag=(r % 3 == 0),
                name=np.array([f"h{q}".encode() for q in r], dtype="S7"), mah=(np.arange(n * 3).reshape(n, 3) + salt).astype("f4"),
                cube=np.arange(n * 4).reshape(n, 2, 2).astype("i2") - salt, x=r[::-1].astype("u4"))


def write(fn, n, groups):
    """The same column names with different values in the root and every group."""
    tables = {}
    with h5py.File(fn, "w") as hdf:
        for i, g in enumerate(groups):
            t = columns(n, salt=i + 1)
            tables[g] = t
            for k, v in t.items():
                hdf[(g + "/" if g else "") + k] = v
    return tables


def same(a, b):
    return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)


def check(ctx, label, data, want, case):
    ctx.count()
    if not isinstance(data, dict) or sorted(data) != sorted(want):
        ctx.fail(f"{label}:names", f"returned columns {sorted(data)} expected {sorted(want)}", **case)
        return
    for k in want:
        if not same(data[k], want[k]):
            what = "rows" if np.shape(data[k]) != want[k].shape else "values"
            ctx.fail(f"{label}:{what}", f"column {k}: got {np.asarray(data[k]).ravel()[:6]} shape {np.shape(data[k])}, "
                     f"expected {want[k].ravel()[:6]} shape {want[k].shape}", column=k, **case)
            return


def ranges(ctx):
    """Root table: every (start, end) incl. omitted and beyond the end, every subset and order of up to 3 columns."""
    from diffmah.data_loaders import io_utils

    load = io_utils.load_flat_hdf5
    for n in (0, 1, 2, 5):
        fn = os.path.join(TMP, f"flat{n}.h5")
        tab = write(fn, n, [""])[""]
        names = list(tab)
        for s, e in itertools.product(range(0, n + 2), [None] + list(range(0, n + 3))):
            want = {k: v[s:e] for k, v in tab.items()}
            for kw in ([dict(istart=s, iend=e)] + ([dict(istart=s)] if e is None else []) + ([dict(iend=e)] if s == 0 else [])
                       + ([dict()] if s == 0 and e is None else [])):
                ok, d = ctx.call("load", load, fn, **kw)
                if ok:
                    check(ctx, "range", d, want, dict(rows=n, **{k: repr(v) for k, v in kw.items()}))
            if 0 < len(want["mass"]) < n:
                ctx.nontrivial("range", n, s, e)
        sel = [c for q in range(0, 4) for c in itertools.permutations(names, q)] if n in (1, 5) else [names[::-1]]
        for c in sel:
            for s, e in ((0, None), (1, 3), (0, 1)) if n == 5 else ((0, None),):
                for seq in (list, tuple):
                    ok, d = ctx.call("load", load, fn, istart=s, iend=e, keys=seq(c))
                    if ok:
                        check(ctx, "keys", d, {k: tab[k][s:e] for k in c}, dict(rows=n, keys=list(c), istart=s, iend=repr(e)))
            ctx.nontrivial("keys", n, c)
    # positional form
    ok, d = ctx.call("load", load, fn, 1, 4, ["x", "mass"])
    if ok:
        check(ctx, "positional", d, {k: tab[k][1:4] for k in ("x", "mass")}, {})
    ctx.sample(columns={k: str(v.dtype) for k, v in tab.items()})


def groups(ctx):
    """Enclosing groups of depth 1-4, with look-alike names, every range of the table."""
    from diffmah.data_loaders import io_utils

    load = io_utils.load_flat_hdf5
    gs = ["", "a", "mass2", "a2/b", "halo/data", "halo/data2/mass", "p/q/r", "p/qq/r/s", "data.0", "g with space/t"]
    n = 4
    fn = os.path.join(TMP, "groups.h5")
    tabs = {}
    with h5py.File(fn, "w") as hdf:
        for i, g in enumerate(gs[1:]):
            t = columns(n, salt=i + 1)
            tabs[g] = t
            for k, v in t.items():
                hdf[g + "/" + k] = v
    for g in gs[1:]:
        t = tabs[g]
        for form in (g, "/" + g):
            for s, e in itertools.product(range(0, n + 1), [None] + list(range(n + 2))):
                ok, d = ctx.call("group", load, fn, istart=s, iend=e, dataset=form)
                if ok:
                    check(ctx, f"group:depth{g.count('/') + 1}", d, {k: v[s:e] for k, v in t.items()},
                          dict(dataset=form, istart=s, iend=repr(e)))
                ctx.nontrivial(form, s, e)
            names = list(t)
            for c in [c for q in range(0, 4) for c in itertools.permutations(names, q)]:
                ok, d = ctx.call("group:keys", load, fn, istart=1, iend=3, keys=list(c), dataset=form)
                if ok:
                    check(ctx, "group:keys", d, {k: t[k][1:3] for k in c}, dict(dataset=form, keys=list(c)))
    ctx.sample(groups=gs)


def partitions(ctx):
    """Concatenating the consecutive ranges of every partition of the rows reproduces the table."""
    from diffmah.data_loaders import io_utils

    load = io_utils.load_flat_hdf5
    nmax = 8 if ctx.thorough else 6
    for g in (None, "a/b"):
        for n in range(1, nmax + 1):
            fn = os.path.join(TMP, "part.h5")
            tab = write(fn, n, [g or ""])[g or ""]
            for bits in itertools.product((0, 1), repeat=n - 1):
                cuts = [0] + [i + 1 for i, b in enumerate(bits) if b] + [n]
                pieces = []
                for s, e in zip(cuts[:-1], cuts[1:]):
                    ok, d = ctx.call("partition", load, fn, istart=s, iend=e, dataset=g)
                    if not ok:
                        return
                    pieces.append(d)
                whole = {k: np.concatenate([p[k] for p in pieces]) for k in pieces[0]}
                check(ctx, "partition", whole, tab, dict(rows=n, cuts=cuts, dataset=g))
                ctx.nontrivial(g, n, bits)
    ctx.sample(max_rows=nmax)


def large(ctx):
    """Tables of tens of thousands of rows and a hundred columns, in every storage layout: ranges around block sizes, special values."""
    import pathlib

    from diffmah.data_loaders import io_utils

    load = io_utils.load_flat_hdf5
    n = 70001
    r = np.arange(n)
    sp = np.where(r % 5 == 0, np.nan, np.where(r % 7 == 0, np.inf, np.where(r % 11 == 0, -0.0, r * 1e300)))
    tab = dict(columns(n), special=sp, big=(r * 1.0).astype(">f4"), one=r.reshape(n, 1).astype("u1"), none=np.zeros((n, 0)),
               wide=(r[:, None] * 11 + np.arange(11)).astype("i4"))
    cuts = sorted({0, 1, n - 1, n, n + 1, n + 70000} | {q + d for q in (10, 100, 256, 1000, 1024, 4096, 10000, 2**15, 50000, 2**16) for d in (-1, 0, 1)})
    for layout in (dict(), dict(chunks=True), dict(chunks=True, compression="gzip", shuffle=True)):
        fn = os.path.join(TMP, "large.h5")
        with h5py.File(fn, "w") as hdf:
            for k, v in tab.items():
                hdf.create_dataset("g/h/" + k, data=v, **({} if v.size == 0 else layout))
        rr = [(s, e) for s in cuts for e in [None] + cuts if (e is None or e in (s + 1, n, n + 1) or (layout == {} and e > s))]
        if not ctx.thorough:
            rr = [c for i, c in enumerate(rr) if i % (4 if layout == {} else 8) == 0 or c[1] is None]
        for s, e in rr:
            ok, d = ctx.call("large", load, pathlib.Path(fn) if s == 1 else fn, istart=s, iend=e, dataset="g/h")
            if not ok:
                return
            ctx.count()
            bad = [k for k in tab if sorted(d) != sorted(tab) or d[k].dtype != tab[k].dtype or d[k].shape != tab[k][s:e].shape
                   or d[k].tobytes() != tab[k][s:e].tobytes()]
            if bad:
                ctx.fail("large:values", f"rows {s} to {e} of {n}: columns {bad} are not those of the file", layout=str(layout))
                return
            ctx.nontrivial(str(layout), s, e)
        os.remove(fn)
    many = {f"c{i}": np.arange(3) + i for i in range(150)}
    fn = os.path.join(TMP, "many.h5")
    with h5py.File(fn, "w") as hdf:
        for k, v in many.items():
            hdf[k] = v
    for kw in (dict(), dict(keys=list(many)[::-1]), dict(keys=list(many)[3:140])):
        ok, d = ctx.call("many", load, fn, istart=1, **kw)
        if ok:
            check(ctx, "many", d, {k: many[k][1:] for k in kw.get("keys", many)}, dict(columns=len(kw.get("keys", many))))
    # values of a named set: large arrays, special values, many names
    w, r_ = io_utils.write_namedtuple_to_hdf5, io_utils.load_namedtuple_from_hdf5
    P = namedtuple("P", [f"p{i}" for i in range(150)][::-1])
    p = P(*[sp if i == 3 else -0.0 if i == 4 else np.nan if i == 5 else 2**63 - 1 if i == 6 else True if i == 7 else i * 0.1 for i in range(150)])
    ok, _ = ctx.call("write", w, p, fn)
    ok, g = ctx.call("load", r_, fn)
    ctx.count()
    if ok and (g._fields != P._fields or any(np.asarray(a).tobytes() != np.asarray(b).tobytes() or np.asarray(a).dtype != np.asarray(b).dtype
                                             for a, b in zip(g, p))):
        ctx.fail("many:named", "a set of 150 named values does not survive the file")
    ctx.sample(rows=n, columns=list(tab))


def named(ctx):
    """Every write history of length <= 3 over a set of parameter tuples; names, order, values, shapes."""
    from diffmah import DEFAULT_MAH_PARAMS
    from diffmah.data_loaders import io_utils
    from diffmah.diffmahpop_kernels.bimod_censat_params import DEFAULT_DIFFMAHPOP_PARAMS
    import jax.numpy as jnp

    A = namedtuple("A", ("zeta", "alpha", "mu"))
    B = namedtuple("B", ("mu", "zeta", "alpha", "beta_1"))
    One = namedtuple("One", ("only",))
    S = [DEFAULT_MAH_PARAMS, A(1.5, -2, 3e300), B(np.arange(6.0).reshape(2, 3), 2**62, np.zeros(0), np.float32(0.1)),
         One(np.array([[1, 2]], dtype="i4")), A(np.array(7.25), np.array([True, False]), jnp.arange(3)),
         DEFAULT_MAH_PARAMS._make([np.linspace(0, 1, 5) + i for i in range(5)])]
    if ctx.thorough:
        S.append(DEFAULT_DIFFMAHPOP_PARAMS)
    fn = os.path.join(TMP, "named.h5")
    w, r = io_utils.write_namedtuple_to_hdf5, io_utils.load_namedtuple_from_hdf5
    hists = [h for n in (1, 2, 3) for h in itertools.product(range(len(S)), repeat=n)]
    for h in hists:
        if os.path.exists(fn):
            os.remove(fn)
        for i in h:
            ok, _ = ctx.call("write", w, S[i], fn)
            if not ok:
                return
            ok, p = ctx.call("load", r, fn)
            ctx.count()
            if not ok:
                return
            if tuple(p._fields) != tuple(S[i]._fields):
                ctx.fail("fields", f"names {p._fields} expected {S[i]._fields}", history=list(h))
                continue
            for k in p._fields:
                a, b = np.asarray(getattr(p, k)), np.asarray(getattr(S[i], k))
                if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b):
                    ctx.fail("values", f"{k}: {a} ({a.dtype}) expected {b} ({b.dtype})", history=list(h))
        ctx.nontrivial(h)
    # every order of four names (a stored order, not an alphabetical one)
    names = ("logm0", "b", "A", "z9")
    for o in itertools.permutations(names):
        X = namedtuple("X", o)
        x = X(*[float(i) + 0.5 for i in range(4)])
        ok, _ = ctx.call("write", w, x, fn)
        ok2, p = ctx.call("load", r, fn)
        ctx.count()
        if ok and ok2 and (tuple(p._fields) != o or [float(v) for v in p] != [float(v) for v in x]):
            ctx.fail("order", f"{p} expected {x}")
    ok, _ = ctx.call("write", w, DEFAULT_DIFFMAHPOP_PARAMS, fn)
    ok, p = ctx.call("load", r, fn)
    if ok and (p._fields != DEFAULT_DIFFMAHPOP_PARAMS._fields or [float(x) for x in p] != [float(x) for x in DEFAULT_DIFFMAHPOP_PARAMS]):
        ctx.fail("population-params", "population parameters do not survive the file")
    ctx.sample(histories=len(hists))


vlib.main("C10", [("ranges", ranges), ("groups", groups), ("partitions", partitions), ("large", large), ("named", named)], level="exploration",
          rule="every (start, end) pair, every ordered selection of up to 3 of 7 columns of different type and shape, groups of "
               "depth 0-4, every partition of up to 6 rows, ranges around block sizes of a 70001-row table in three storage layouts, every write history of length <=3; non-trivial: distinct case "
               "selecting part of the table")
