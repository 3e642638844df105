"""C13 loaders: every short mass history over an alphabet with zeros and dips, every row range, every schedule of the distribution step."""
import itertools
import os
import warnings

import fitjobs
import h5py
import mpisim
import numpy as np
import vlib

TMP = os.environ.get("VERIF_SCRATCH", "/tmp")
AL = (0.0, 5.0, 1.0e11, 2.5e11, 4.0e14)


def rows_all(nt):
    return np.array(list(itertools.product(AL, repeat=nt)))


def near(a, b, rtol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a.astype(float), b.astype(float), rtol=rtol, atol=0)


def judge(ctx, label, got, want, rtol, **case):
    ctx.count(len(want))
    if not near(got, want, rtol):
        got = np.asarray(got)
        if got.shape != np.shape(want):
            ctx.fail(f"{label}:shape", f"shape {got.shape}, expected {np.shape(want)}", **case)
            return
        bad = np.flatnonzero(~np.isclose(got.astype(float), want, rtol=rtol, atol=0).reshape(len(want), -1).all(axis=1))
        i = bad[0]
        ctx.fail(f"{label}:values", f"row {i} is {np.asarray(got)[i]} instead of {np.asarray(want)[i]} ({bad.size} rows wrong)", **case)


def sets(nt):
    """Catalogues: every history at once, in both orders, and every one- and two-halo catalogue of short histories."""
    full = rows_all(nt)
    yield "all", full
    yield "reversed", full[::-1]
    yield "one", full[-1:]
    for q in range(0, len(full), 37):
        if full[q : q + 3].max() > 0:
            yield f"three{q}", full[q : q + 3]


def tng(ctx):
    from diffmah.data_loaders import load_diffmah_pub_data as pub
    from diffmah.data_loaders.load_tng_mahs import load_tng_data

    for nt, dt in itertools.product((1, 2, 4, 5) if ctx.thorough else (1, 4), ("f4", "f8")):
        t = np.linspace(0.5, 13.8, nt)
        for name, m in sets(nt):
            if not m.max() > 1e6:
                continue
            d = os.path.join(TMP, f"tng_{nt}_{dt}_{name}")
            os.makedirs(d)
            a = np.zeros(len(m), dtype=[("mpeak", dt), ("mpeakh", dt, (nt,)), ("mah", dt, (nt,))])
            with np.errstate(divide="ignore"):
                a["mpeakh"] = np.where(m > 0, np.log10(m), 0.0).reshape(a["mpeakh"].shape)
            a["mpeak"] = a["mpeakh"].max(axis=1) + 0.5
            a["mah"] = 7.0
            np.save(os.path.join(d, "tng_diffmah.npy"), a)
            np.save(os.path.join(d, "tng_cosmic_time.npy"), t)
            lg = np.maximum.accumulate(a["mpeakh"].reshape(len(m), nt).astype(float), axis=1)
            ok, r = ctx.call("load_tng_data", load_tng_data, data_drn=d)
            if ok:
                judge(ctx, "tng:mah", r[1], np.where(lg == 0, 0.0, 10**lg) / 0.6774, 2e-5 if dt == "f4" else 1e-12, catalogue=name, nt=nt)
                judge(ctx, "tng:t", r[0], t, 1e-12)
            ok, r = ctx.call("pub.load_tng_data", pub.load_tng_data, data_drn=d)
            if ok:
                judge(ctx, "pub-tng:id", r[0], np.arange(len(m)), 0)
                judge(ctx, "pub-tng:logmah", r[1], lg, 1e-12, catalogue=name)
                judge(ctx, "pub-tng:t", r[2], t, 1e-12)
            ctx.nontrivial_n("tng", nt, dt, name, n=len(m))
    ctx.sample(last_row=a["mpeakh"][-1])


def published(ctx):
    from diffmah.data_loaders import load_diffmah_pub_data as pub

    for fn, pat, tfn in ((pub.load_bolshoi_data, "bpl_diffmah_{}.npy", "bpl_cosmic_time.npy"), (pub.load_mdpl2_data, "mdpl2_diffmah_{}.npy", "mdpl2_cosmic_time.txt")):
        for nt, dt in itertools.product((1, 2, 4, 5) if ctx.thorough else (1, 4), ("f4", "f8")):
            t = np.linspace(0.5, 13.8, nt) if nt > 1 else np.array([13.8])
            for name, m in sets(nt):
                d = os.path.join(TMP, f"{fn.__name__}_{nt}_{dt}_{name}")
                os.makedirs(d)
                np.save(os.path.join(d, tfn), t) if tfn.endswith("npy") else np.savetxt(os.path.join(d, tfn), t)
                for k, gal in enumerate(("cens", "sats", "orphans")):
                    a = np.zeros(len(m), dtype=[("halo_id", "i8"), ("mpeak_history_main_prog", dt, (nt,))])
                    a["halo_id"] = 2**60 + 5 * np.arange(len(m))[::-1] + k
                    mm = np.roll(m, k, axis=0)
                    a["mpeak_history_main_prog"] = mm.reshape(a["mpeak_history_main_prog"].shape)
                    np.save(os.path.join(d, pat.format(gal)), a)
                    if k and name != "all":
                        continue
                    acc = np.maximum.accumulate(a["mpeak_history_main_prog"].reshape(len(m), nt).astype(float), axis=1)
                    with np.errstate(divide="ignore"):
                        want = np.where(acc > 0, np.log10(acc), 0.0)
                    ok, r = ctx.call(fn.__name__, fn, gal, data_drn=d)
                    if ok:
                        judge(ctx, f"{fn.__name__}:logmah", r[1], want, 1e-6 if dt == "f4" else 1e-12, catalogue=name, gal_type=gal)
                        if list(np.asarray(r[0])) != list(a["halo_id"]):
                            ctx.fail(f"{fn.__name__}:id", f"identifiers {list(r[0])[:4]} instead of {list(a['halo_id'])[:4]}", gal_type=gal)
                        judge(ctx, f"{fn.__name__}:t", np.atleast_1d(r[2]), t, 1e-12)
                ctx.nontrivial_n(fn.__name__, nt, dt, name, n=len(m))
    ctx.sample(halo_ids=a["halo_id"][:3])


def bpl(ctx):
    from diffmah.data_loaders import load_bpl_um_data as mod
    from umachine_pyio.memmap_array_utils import write_structured_array_to_memmap

    for nt in (1, 2, 4) if ctx.thorough else (1, 4):
        full = rows_all(nt)
        d = os.path.join(TMP, f"bpl {nt}")
        os.makedirs(d)
        for sname, scales in (("early", np.linspace(0.1, 1.0, nt) if nt > 1 else np.array([1.0])),):
            with open(os.path.join(d, "scale_list_bpl.dat"), "w") as fh:
                fh.write("\n".join(repr(float(x)) for x in scales) + "\n")
        cat = {}
        for s, m in enumerate([full, full[::-1][: max(1, len(full) // 2)], full[3:4]]):
            a = np.zeros(len(m), dtype=[("halo_id", "i8"), ("mpeak_history_main_prog", "f4", (nt,)), ("sm", "f4")])
            a["halo_id"] = 2**58 + 3 * np.arange(len(m))[::-1] + 10**6 * s
            a["mpeak_history_main_prog"] = m.reshape(a["mpeak_history_main_prog"].shape)
            cat[s] = a
            write_structured_array_to_memmap(a, os.path.join(d, f"subvol_{s}"), "all")
        tw = fitjobs.age(1 / scales - 1, 0.307, -1.0, 0.0, 0.678)
        for subs in [c for k in (1, 2, 3) for c in itertools.permutations((0, 1, 2), k)]:
            want = np.concatenate([cat[s] for s in subs])
            acc = np.maximum(np.maximum.accumulate(want["mpeak_history_main_prog"].reshape(len(want), nt).astype(float), axis=1), 1.0)
            ok, r = ctx.call("load_bpl_mah_data", mod.load_bpl_mah_data, d, list(subs))
            if not ok:
                continue
            hid, mah, t, lgmin, lgt0 = r
            if list(np.asarray(hid)) != list(want["halo_id"]):
                ctx.fail("bpl:id", f"identifiers of subvolumes {subs} differ", got=list(hid)[:4], want=list(want["halo_id"])[:4])
            judge(ctx, "bpl:mah", mah, acc, 1e-6, subvolumes=subs)
            judge(ctx, "bpl:t", t, tw, 1e-3, scales=scales)
            if not np.isclose(10**float(lgt0), tw[-1], rtol=1e-3):
                ctx.fail("bpl:lgt0", f"lgt0 {lgt0} is not the log of the last age {tw[-1]}")
            ctx.nontrivial_n("bpl", nt, subs, n=len(want))
    ctx.sample(times=tw, scales=scales)


def hacc(ctx):
    """Values of the HACC loader, every chunk; every schedule of the distribution over processes."""
    fitjobs.fakes()
    mpisim.install()
    from diffmah.data_loaders import load_hacc_mahs as mod

    for sim in fitjobs.SIMS:
        S = fitjobs.SIMS[sim]
        nt = len(S.cosmotools_steps)
        full = np.tile(rows_all(4 if ctx.thorough else 3), (1, 2))[:, :nt]
        full = np.pad(full, ((0, 0), (0, nt - full.shape[1])))
        ages = S.ages()
        fn = os.path.join(TMP, f"{sim}.h5")
        for dt in ("f4", "f8"):
            with h5py.File(fn, "w") as hdf:
                hdf["mass"] = full.astype(dt)
            for nch in (1, 2, 7):
                for c in range(nch):
                    raw = np.array_split(full.astype(dt).astype(float), nch)[c]
                    for kw, fac in (({}, 1.0), (dict(mass_colname="tree_node_mass"), 0.5)):
                        want = np.maximum.accumulate(raw * fac, axis=1) / S.cosmo.h
                        ok, r = ctx.call("load_mahs", mod.load_mahs, fn, sim, c, nch, **kw)
                        if ok:
                            judge(ctx, "hacc:mah", r[1], want, 1e-6, sim=sim, chunk=c, nchunks=nch)
                            judge(ctx, "hacc:t", r[0], ages, 1e-3, sim=sim)
                    ctx.nontrivial_n(sim, dt, nch, c, n=len(raw))
        if sim == "LastJourney" and hasattr(mod, "get_cosmic_time_hacc"):
            ok, r = ctx.call("get_cosmic_time_hacc", mod.get_cosmic_time_hacc, sim)
            if ok:
                judge(ctx, "hacc:z", r[0], S.step2z(S.cosmotools_steps), 1e-9)
                judge(ctx, "hacc:t2", r[1], ages, 1e-3)
    # distribution
    fn = os.path.join(TMP, "dist.h5")
    S = fitjobs.SIMS["DiscoveryW0WA"]
    watch = os.path.join(TMP, "watch")
    os.makedirs(watch)
    for n, h in itertools.product(range(1, 6 if ctx.thorough else 5), (0, 1, 2, 3, 5, 7)):
        m = np.array([fitjobs.history(i, 5, zeros=i % 3) for i in range(h)]).reshape((h, 5))
        with h5py.File(fn, "w") as hdf:
            hdf["mass"] = m
        want = np.maximum.accumulate(m, axis=1) / S.cosmo.h
        for sync, explicit in itertools.product((False, True), (False, True)):
            got = {}

            def prog(rank):
                import mpi4py

                kw = dict(comm=mpi4py.MPI.COMM_WORLD) if explicit else {}
                got[rank] = mod.load_mahs_per_rank(fn, "DiscoveryW0WA", 0, 1, **kw)

            def make():
                got.clear()
                return mpisim.World(n, prog, watch, TMP, sync=sync)

            def check(w, complete):
                ctx.count()
                bad = list(w.problems)
                if complete and not bad:
                    parts = [np.asarray(got[r][1]) for r in range(n)]
                    cat = np.concatenate(parts)
                    if not near(cat, want, 1e-12):
                        bad.append(("dist:halos", f"the processes together hold {cat.shape[0]} rows of {h}, or in another order"))
                    sizes = [len(p) for p in parts]
                    if max(sizes) - min(sizes) > 1:
                        bad.append(("dist:shares", f"shares {sizes}"))
                    for r in range(n):
                        if not near(got[r][0], S.ages(), 1e-3):
                            bad.append(("dist:t", f"process {r} got times {got[r][0]}"))
                for k, msg in bad:
                    ctx.fail(k, msg[:400], processes=n, halos=h, schedule=w.trace)
                    w.problems.append((k, msg))

            mpisim.explore(make, check, ctx)
            ctx.nontrivial("dist", n, h, sync, explicit)
    ctx.sample(sim="DiscoveryW0WA", ages=S.ages())


def galacticus(ctx):
    from diffmah.data_loaders import load_galacticus_eps_mahs as mod

    for n in (1, 2, 5, 6):
        fn = os.path.join(TMP, f"gal {n}.h5")
        ms, ts = [], []
        for j in range(n):
            nt = 1 + (j * 3) % 5
            ms.append(np.array([AL[(j + q) % 5] + q for q in range(nt)]))
            ts.append(np.linspace(1.0, 3.0 + j, nt))
        iso, tl = (np.arange(n) % 2).astype("i4"), np.arange(n) * 1.5
        with h5py.File(fn, "w") as hdf:
            for o in ("Output1", "Output2"):
                g = hdf.create_group(f"Outputs/{o}/nodeData")
                vl = h5py.vlen_dtype(np.dtype("f8"))
                for name, seq in (("haloAccretionHistoryMass", ms), ("haloAccretionHistoryTime", ts)):
                    d = g.create_dataset(name, (n,), dtype=vl)
                    for j, v in enumerate(seq):
                        d[j] = v if o == "Output1" else v * 0 + 1
                g["nodeIsIsolated"] = iso if o == "Output1" else 1 - iso
                g["basicTimeLastIsolated"] = tl if o == "Output1" else -tl
        ok, r = ctx.call("get_nhalos_tot", mod.get_nhalos_tot, fn)
        if ok and int(r) != n:
            ctx.fail("galacticus:n", f"{r} halos counted of {n}")
        for s, e in itertools.product(range(n + 1), [None] + list(range(n + 2))):
            for kw in ([dict(istart=s, iend=e)] + ([dict(iend=e)] if s == 0 else []) + ([dict(istart=s)] if e is None else [])):
                ok, r = ctx.call("extract", mod.extract_galacticus_mah_tables, fn, **kw)
                if not ok:
                    continue
                ctx.count()
                idx = list(range(n))[s:e]
                good = len(r) == 4 and all(len(x) == len(idx) for x in r)
                good = good and all(near(r[0][i], ms[j], 0) and near(r[1][i], ts[j], 0) and r[2][i] == iso[j] and r[3][i] == tl[j] for i, j in enumerate(idx))
                if not good:
                    ctx.fail("galacticus:rows", f"rows {s}:{e} of {n}: wrong tables", **{k: repr(v) for k, v in kw.items()})
            ctx.nontrivial("gal", n, s, e)
    ctx.sample(masses=ms, times=ts)


if __name__ == "__main__":
    vlib.main("C13", [("tng", tng), ("published", published), ("bpl", bpl), ("hacc", hacc), ("galacticus", galacticus)], "exploration",
              "one evaluation per loaded row (or row range, or finished schedule of the distribution step); distinct_nontrivial counts halos of "
              "distinct catalogues, ranges and process/halo-count scenarios",
              ["mass histories of 1, 4 (thorough: 2, 5) snapshots over an alphabet of 5 values including zero",
               "haccytrees and mpi4py are stand-ins; ages are judged to 1e-3 against a direct integration of the Friedmann equation"])
