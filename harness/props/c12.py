"""C12: visibility files - partial, chunked and fast reads, updates and partial writes all agree with the full arrays."""
import contextlib
import io as _io
import os
import pickle
import warnings

import numpy as np

from ..core import Sub, Violation, close, expect_raises, require, rng_of, same
from ..gens import flag, ints, perm, pick, seed, subset
from ..uvsim import POLNUM, POLNUM_N, freqs_of, make_uvd, times_of, truth

RULE = ("Small uvh5 files (2-5 antennas with arbitrary numbers, baselines in either orientation, 1-4 polarizations in any order, either "
        "baseline-time ordering, either feed orientation, random flags and nsamples), possibly split over several files in time, each (for the fast reader) with its own order of baselines, times and polarizations, its own extra baselines, and raw integer or complex data. Oracle: "
        "the arrays the file was made from, indexed directly. Non-trivial: more than one baseline and more than one time or channel.")
ASSUMPTIONS = ["single spectral window, every baseline has every time (no baseline-dependent averaging)"]


def quiet(f, *a, **k):
    with warnings.catch_warnings(), contextlib.redirect_stdout(_io.StringIO()):
        warnings.simplefilter("ignore")
        return f(*a, **k)


def gen_file(draw, ntmin=1, ntmax=4, nfmax=6):
    n = ints(draw, 2, 5)
    nums = sorted(set(ints(draw, 0, 40) for _ in range(n)) | {1, 7})
    pairs = []
    for i, a in enumerate(nums):
        for b in nums[i:]:
            r = ints(draw, 0, 9)
            if r < 7:
                pairs.append([a, b] if r < 4 else [b, a])
    if not any(p[0] != p[1] for p in pairs):
        pairs.append([nums[0], nums[1]])
    pols = [["ee"], ["nn", "ee"], ["ee", "nn"], ["ee", "nn", "en", "ne"], ["nn", "ne", "en", "ee"]][ints(draw, 0, 4)]
    return dict(nums=nums, pairs=perm(draw, pairs), pols=pols, nt=ints(draw, ntmin, ntmax), nf=ints(draw, 1, nfmax), fast=flag(draw),
                orient=pick(draw, ["east", "north"]), seed=seed(draw))


class File:
    """One observation; its arrays are the truth. dims: time-sorted, as stored."""

    def __init__(self, f, tmp, nfiles=1, name="a"):
        rng = rng_of(f["seed"], "pos")
        self.f = f
        self.enu = {a: np.append(rng.uniform(-60, 60, size=2), rng.uniform(-1, 1)) for a in f["nums"]}
        self.times, self.freqs = times_of(f["nt"]), freqs_of(f["nf"])
        self.pols = list(f["pols"])
        self.uvd = quiet(make_uvd, self.enu, [tuple(p) for p in f["pairs"]], self.pols, self.times, self.freqs, seed=f["seed"] % 2**31, orient=f["orient"],
                         flag_frac=0.2, time_fast=f["fast"])
        self.uvd.history = "made by the harness"
        self.truth = truth(self.uvd, self.pols)
        self.antpairs = sorted({k[:2] for k in self.truth})
        self.paths, self.slices = [], []
        cuts = np.array_split(np.arange(f["nt"]), min(nfiles, f["nt"]))
        for n, c in enumerate(cuts):
            p = os.path.join(tmp, f"{name}{n}.uvh5")
            u = self.uvd if len(cuts) == 1 else quiet(self.uvd.select, times=self.times[c], inplace=False)
            quiet(u.write_uvh5, p, clobber=True)
            self.paths.append(p)
            self.slices.append(c)

    def get(self, k, ts=None, fs=None):
        """(data, flags, nsamples) of any orientation of key k, at times ts and channels fs"""
        ts = slice(None) if ts is None else ts
        fs = slice(None) if fs is None else fs
        if tuple(k) in self.truth:
            d, f, n = self.truth[tuple(k)]
        else:
            d, f, n = self.truth[(k[1], k[0], k[2][::-1])]
            d = np.conj(d)
        return tuple(x[ts][:, fs] for x in (d, f, n))

    def has(self, k):
        return tuple(k) in self.truth or (k[1], k[0], k[2][::-1]) in self.truth

    def check(self, got, what, ts=None, fs=None, keys=None, exact=False, dtype=None):
        """(data, flags, nsamples) containers hold the truth; keys: those that must be there (exact: and no others)"""
        d, f, n = got
        require(set(map(tuple, d.keys())) == set(map(tuple, f.keys())) == set(map(tuple, n.keys())), f"{what}: data, flags and nsamples have different baselines")
        have = {(int(k[0]), int(k[1]), str(k[2])) for k in d.keys()}
        for k in have:
            require(self.has(k), f"{what}: unknown baseline {k}")
            for a, b, nm in zip((d[k], f[k], n[k]), self.get(k, ts, fs), ("data", "flags", "nsamples")):
                same(a, b, f"{what}: {nm} of {k}")
            require(f[k].dtype == bool, f"{what}: flags are {f[k].dtype}")
        for k in (self.truth if keys is None else keys):
            require(tuple(k) in d, f"{what}: {tuple(k)} is missing, got {sorted(have)}")
            for a, b, nm in zip((d[k], f[k], n[k]), self.get(k, ts, fs), ("data", "flags", "nsamples")):
                same(a, b, f"{what}: {nm} of {k}")
        if exact:
            require(len(have) == len(set(map(tuple, keys or self.truth))), f"{what}: wrong number of baselines {sorted(have)}")

    def check_meta(self, dc, what, ts=None, fs=None, pairs=None):
        ts = slice(None) if ts is None else ts
        fs = slice(None) if fs is None else fs
        same(dc.times, self.times[ts], f"{what}: times")
        same(dc.freqs, self.freqs[fs], f"{what}: freqs")
        lst = self.lsts()[ts]
        close(dc.lsts, lst, f"{what}: lsts", atol=1e-8)
        pairs = self.antpairs if pairs is None else pairs
        ants = {a for p in pairs for a in p}
        require(set(map(int, dc.data_antpos)) == ants, f"{what}: data_antpos holds {sorted(dc.data_antpos)}, expected {sorted(ants)}")
        require(set(map(int, dc.antpos)) == set(self.f["nums"]), f"{what}: antpos")
        for a in dc.antpos:
            close(dc.antpos[a], self.enu[int(a)], f"{what}: position of {a}", atol=1e-5)
        for p in pairs:
            for q in (p, p[::-1]):
                same(dc.times_by_bl[q], self.times[ts], f"{what}: times_by_bl {q}")
                close(dc.lsts_by_bl[q], lst, f"{what}: lsts_by_bl {q}", atol=1e-8)

    def lsts(self):
        a = self.uvd.ant_1_array == self.uvd.ant_1_array[0]
        a &= self.uvd.ant_2_array == self.uvd.ant_2_array[0]
        return self.uvd.lst_array[a]


def gen_read(draw):
    f = gen_file(draw, ntmax=5)
    sel = []
    for _ in range(ints(draw, 1, 3)):
        s = dict(kind=pick(draw, ["all", "bls2", "bls3", "pol", "times", "chans", "freqs", "mix", "trange", "lst"]), seed=seed(draw))
        sel.append(s)
    return dict(f=f, nfiles=pick(draw, [1, 1, 2, 3]), sel=sel, order=seed(draw), thresh=pick(draw, [0.002, 0.5, 10.0]))


def selection(F, s):
    """keyword arguments for HERAData.read, and the keys, times and channels they ask for"""
    rng = rng_of(s["seed"], "sel")
    kw, ts, fs, keys = {}, None, None, None
    nt, nf = len(F.times), len(F.freqs)
    kind = s["kind"]
    pols = F.pols
    pairs = F.antpairs
    if kind in ("bls2", "mix"):
        pairs = [p for p in F.antpairs if rng.random() < 0.5] or F.antpairs[:1]
        kw["bls"] = [p if rng.random() < 0.6 else p[::-1] for p in pairs]
    if kind == "bls3":
        keys = [k for k in F.truth if rng.random() < 0.4] or list(F.truth)[:1]
        keys = [k if rng.random() < 0.6 else (k[1], k[0], k[2][::-1]) for k in keys]
        kw["bls"] = keys
    if kind in ("pol", "mix"):
        pols = [p for p in F.pols if rng.random() < 0.6] or F.pols[:1]
        kw["polarizations"] = pols
    if kind in ("times", "mix"):
        ts = np.sort(rng.choice(nt, size=rng.integers(1, nt + 1), replace=False))
        kw["times"] = F.times[ts]
    if kind == "trange":
        a, b = sorted(rng.integers(0, nt, size=2))
        ts = np.arange(a, b + 1)
        kw["time_range"] = [F.times[a] - 1e-6, F.times[b] + 1e-6]
    if kind == "lst":
        a, b = sorted(rng.integers(0, nt, size=2))
        ts = np.arange(a, b + 1)
        kw["lst_range"] = [F.lsts()[a] - 1e-6, F.lsts()[b] + 1e-6]
    if kind in ("chans", "mix"):
        fs = np.sort(rng.choice(nf, size=rng.integers(1, nf + 1), replace=False))
        kw["freq_chans"] = fs
    if kind == "freqs":
        fs = np.sort(rng.choice(nf, size=rng.integers(1, nf + 1), replace=False))
        kw["frequencies"] = F.freqs[fs]
    exact = keys is None
    if keys is None:
        keys = [p + (q,) for p in pairs for q in pols]
    return kw, ts, fs, keys, exact


def check_read(case, ctx):
    """partial reads, container metadata, item access, the fast reader and multi-file reads"""
    from hera_cal import io
    F = File(case["f"], ctx.tmp(), case["nfiles"])
    multi = len(F.paths) > 1
    paths = [F.paths[i] for i in np.random.default_rng(case["order"] % 2**32).permutation(len(F.paths))]
    hd = quiet(io.HERAData, F.paths if multi else F.paths[0])    # HERAData keeps files in the order given; the fast reader sorts them
    if not multi:
        F.check_meta(hd, "HERAData attributes")
        require(list(hd.pols) == F.pols, f"pols {hd.pols}")
        require(sorted(hd.antpairs) == F.antpairs, "antpairs")
        require(sorted(hd.bls) == sorted(F.truth), "bls")
    else:
        for p, c in zip(F.paths, F.slices):
            same(hd.times[p], F.times[c], "times of one of several files")
            require(sorted(hd.bls[p]) == sorted(F.truth), "bls of one of several files")
    for s in case["sel"]:
        kw, ts, fs, keys, exact = selection(F, s)
        tsel = [k for k in kw if k in ("times", "time_range", "lst_range")]
        if multi and tsel:
            got = quiet(io.partial_time_io, hd, **kw)
            what = f"partial_time_io({s['kind']})"
        else:
            got = quiet(hd.read, axis="blt" if multi else None, **kw) if multi and s["seed"] % 2 else quiet(hd.read, **kw)
            what = f"read({s['kind']})"
        F.check(got, what, ts, fs, keys, exact)
        F.check_meta(got[0], what, ts, fs, pairs=None if exact and "bls" not in kw else sorted({k[:2] for k in got[0].keys()}))
        if not (multi and tsel):
            for k in list(got[0].keys())[:3]:
                same(hd[k], F.get(k, ts, fs)[0], f"{what}: item {k}")
                same(hd[(k[1], k[0], k[2][::-1])], np.conj(F.get(k, ts, fs)[0]), f"{what}: conjugate item of {k}")
        ctx.label(s["kind"])
    # fast reader
    fr = quiet(io.HERADataFastReader, paths)
    same(fr.times, F.times, "fast reader times")
    close(fr.lsts, F.lsts(), "fast reader lsts", atol=1e-8)
    require(sorted(fr.antpairs) == F.antpairs and sorted(fr.bls) == sorted(F.truth), "fast reader baselines")
    require(set(fr.pols) == set(F.pols), f"fast reader pols {fr.pols}")
    for a in F.enu:
        close(fr.antpos[a], F.enu[a], "fast reader antpos", atol=1e-5)
    rng = rng_of(case["order"], "fast")
    keys = None if rng.random() < 0.3 else [k for k in F.truth if rng.random() < 0.5] or list(F.truth)[:1]
    two = keys is not None and rng.random() < 0.4
    if two:
        pr = sorted({k[:2] for k in keys})
        ps = [p for p in F.pols if rng.random() < 0.6] or F.pols[:1]
        d, f, n = quiet(fr.read, bls=pr, pols=ps, full_read_thresh=case["thresh"])
        keys = [p + (q,) for p in pr for q in ps]
    else:
        d, f, n = quiet(fr.read, bls=keys, full_read_thresh=case["thresh"])
    F.check((d, f, n), "fast reader", keys=keys, exact=True)
    F.check_meta(d, "fast reader") if keys is None else None
    ps = [p for p in F.pols if rng.random() < 0.6] or F.pols[:1]
    F.check(quiet(fr.read, pols=ps, full_read_thresh=case["thresh"]), "fast reader with polarizations only", keys=[p + (q,) for p in F.antpairs for q in ps], exact=True)
    with expect_raises(ValueError, "fast reader asked for a baseline that is not there"):
        quiet(fr.read, bls=[(998, 999, F.pols[0])])
    # items are read from disk if need be
    if not multi:
        h1 = quiet(io.HERAData, F.paths[0])
        for k in list(F.truth)[:3]:
            same(quiet(h1.__getitem__, k), F.get(k)[0], f"item {k} of an object that read something else")
    only = quiet(fr.read, bls=keys, read_data=False, read_nsamples=False)
    require(only[0] is None and only[2] is None and only[1] is not None, "fast reader returns what was not asked for")
    # raw fast read: one dictionary
    rv = quiet(io.read_hera_hdf5, paths, bls=keys, read_flags=True, read_nsamples=True, full_read_thresh=case["thresh"])
    for k in (keys or F.truth):
        for a, b, nm in zip((rv["data"][k], rv["flags"][k], rv["nsamples"][k]), F.get(k), ("data", "flags", "nsamples")):
            same(a, b, f"read_hera_hdf5 {nm} of {k}")
    # file times
    dl, dt, ls, tt = quiet(io.get_file_times, F.paths)
    for c, l, t in zip(F.slices, ls, tt):
        same(t, F.times[c], "get_file_times times")
        close(l % (2 * np.pi), F.lsts()[c], "get_file_times lsts", atol=1e-8)
        require(np.all(np.diff(l) > 0), "get_file_times lsts are not unwrapped")
    ctx.nontrivial(len(F.antpairs) > 1 and F.f["nt"] * F.f["nf"] > 1)
    ctx.label(f"files {len(F.paths)}", "time-fast" if case["f"]["fast"] else "bl-fast")


def gen_mixed(draw):
    return dict(f=gen_file(draw, ntmin=2), nfiles=ints(draw, 2, 3), lay=[dict(pol=ints(draw, 0, 3), fast=flag(draw), shuf=flag(draw), raw=flag(draw), drop=ints(draw, 0, 3)) for _ in range(3)],
                thresh=pick(draw, [0.002, 10.0]), seed=seed(draw))


def check_mixed(case, ctx):
    """the fast reader over files that lay out the same observation in their own ways"""
    from hera_cal import io
    from pyuvdata import UVData
    tmp, rng = ctx.tmp(), rng_of(case["seed"], "mixed")
    F = File(case["f"], tmp, case["nfiles"])
    pn = {str(p): n for p, n in zip(F.pols, F.uvd.polarization_array)}
    paths, common, raws = [], set(F.antpairs), []
    for n, path in enumerate(F.paths):
        L = case["lay"][n]
        pols = list(np.roll(F.pols, L["pol"]))
        pairs = [tuple(int(x) for x in p) for p in F.f["pairs"]]
        if L["shuf"]:
            pairs = [pairs[k] for k in rng.permutation(len(pairs))]
        if L["drop"] == 3 and len(pairs) > 1:
            pairs = pairs[1:]
        common &= set(pairs)
        u = quiet(make_uvd, F.enu, pairs, pols, F.times[F.slices[n]], F.freqs, orient=F.f["orient"], time_fast=L["fast"])
        require(all(pn[p] == m for p, m in zip(pols, u.polarization_array)), "harness: polarization numbers")
        for (i, j) in pairs:
            rows = np.where((u.ant_1_array == i) & (u.ant_2_array == j))[0]
            rows = rows[np.argsort(u.time_array[rows])]
            for k, p in enumerate(pols):
                d, f, m = F.truth[(i, j, str(p))]
                c = F.slices[n]
                u.data_array[rows, :, k] = np.round(d[c] * 100) if L["raw"] else d[c]
                u.flag_array[rows, :, k], u.nsample_array[rows, :, k] = f[c], m[c]
        out = os.path.join(tmp, f"m{n}.uvh5")
        quiet(u.write_uvh5, out, **(dict(data_write_dtype=np.dtype([("r", "<i4"), ("i", "<i4")])) if L["raw"] else {}))
        paths.append(out)
        raws.append(L["raw"])
    if not common:
        return
    keys = [p + (q,) for p in sorted(common) for q in F.pols]
    ask = None if rng.integers(2) else [k for k in keys if rng.random() < 0.6] or keys[:1]
    order = rng.permutation(len(paths))
    d, f, m = quiet(quiet(io.HERADataFastReader, [paths[k] for k in order]).read, bls=ask, full_read_thresh=case["thresh"])
    require({(int(k[0]), int(k[1]), str(k[2])) for k in d.keys()} == set(ask or keys), "baselines common to all files")
    same(d.times, F.times, "times")
    for k in (ask or keys):
        D, FL, M = F.get(k)
        D = D.copy()
        for c, raw in zip(F.slices, raws):
            if raw:
                D[c] = np.round(D[c] * 100)
        same(d[k], D, f"data of {k}")
        same(f[k], FL, f"flags of {k}")
        same(m[k], M, f"nsamples of {k}")
    ctx.nontrivial(len(paths) > 1)
    ctx.label(*[w for w, x in (("polarization order differs", len({x["pol"] % len(F.pols) for x in case["lay"][:len(paths)]}) > 1), ("raw", any(raws)),
                               ("baselines differ", len(common) < len(F.antpairs)), ("layouts differ", len({x["fast"] for x in case["lay"][:len(paths)]}) > 1)) if x])


def gen_write(draw):
    return dict(f=gen_file(draw), ops=[dict(what=pick(draw, ["data", "flags", "nsamples", "all"]), sl=pick(draw, ["full", "t", "f", "tf"]), seed=seed(draw))
                                       for _ in range(ints(draw, 1, 4))], part=pick(draw, ["bls", "times", "freqs"]), chunk=ints(draw, 1, 3), inplace=flag(draw), seed=seed(draw))


def rand_wf(rng, nt, nf, auto):
    d = rng.integers(-9, 10, size=(nt, nf)) + 1j * rng.integers(-9, 10, size=(nt, nf))
    if auto:
        d = np.abs(d.real) + 1.0 + 0j
    return d.astype(np.complex64), rng.random(size=(nt, nf)) < 0.3, rng.integers(0, 6, size=(nt, nf)).astype(np.float32)


def check_write(case, ctx):
    """update() with slices and either orientation, writing, and assembling a file by partial writes"""
    from hera_cal import io
    from hera_cal.datacontainer import DataContainer
    tmp = ctx.tmp()
    F = File(case["f"], tmp)
    nt, nf = len(F.times), len(F.freqs)
    hd = quiet(io.HERAData, F.paths[0])
    quiet(hd.read)
    model = {k: [x.copy() for x in v] for k, v in F.truth.items()}
    for op in case["ops"]:
        rng = rng_of(op["seed"], "op")
        tS = slice(*sorted(rng.choice(nt + 1, 2, replace=False).tolist())) if "t" in op["sl"] else None
        fS = slice(*sorted(rng.choice(nf + 1, 2, replace=False).tolist())) if op["sl"] in ("f", "tf") else None
        st, sf = tS or slice(0, nt), fS or slice(0, nf)
        upd = [{}, {}, {}]
        for k in model:
            crossauto = k[0] == k[1] and k[2][0] != k[2][1]
            if rng.random() < 0.5 or (crossauto and (k[0], k[0], k[2][::-1]) in upd[0] | upd[1] | upd[2]):
                continue
            new = rand_wf(rng, st.stop - st.start, sf.stop - sf.start, k[0] == k[1] and not crossauto)
            fl = rng.random() < 0.4 and not crossauto
            kk = (k[1], k[0], k[2][::-1]) if fl else k
            for n in range(3):
                if op["what"] in ("all", ("data", "flags", "nsamples")[n]):
                    model[k][n][st, sf] = new[n]
                    upd[n][kk] = np.conj(new[n]) if fl and n == 0 else new[n]
                    if crossauto:                    # the other cross-polarized auto is the same visibility, conjugated
                        model[(k[0], k[0], k[2][::-1])][n][st, sf] = np.conj(new[n]) if n == 0 else new[n]
        kw = {nm: DataContainer(u) if u else None for nm, u in zip(("data", "flags", "nsamples"), upd)}
        quiet(hd.update, tSlice=tS, fSlice=fS, **kw)
        ctx.label(op["sl"])
    G = File.__new__(File)
    G.__dict__.update(F.__dict__)
    G.truth = {k: tuple(v) for k, v in model.items()}
    G.check(quiet(hd.build_datacontainers), "after update", exact=True)
    out = os.path.join(tmp, "out.uvh5")
    quiet(hd.write_uvh5, out)
    G.check(quiet(quiet(io.HERAData, out).read), "written file", exact=True)
    # the same update through update_vis
    d, f, n = quiet(hd.build_datacontainers)
    out2 = os.path.join(tmp, "out2.uvh5")
    quiet(io.update_vis, F.paths[0], out2, filetype_in="uvh5", filetype_out="uvh5", data=d, flags=f, nsamples=n, add_to_history="xyz")
    h2 = quiet(io.HERAData, out2)
    G.check(quiet(h2.read), "update_vis", exact=True)
    require("xyz" in h2.history and F.uvd.history in h2.history, "update_vis history")
    with expect_raises((IOError, OSError, RuntimeError, ValueError), "update_vis over an existing file without clobber"):
        quiet(io.update_vis, F.paths[0], out2, filetype_in="uvh5", filetype_out="uvh5", data=d)
    G.check(quiet(quiet(io.HERAData, out2).read), "file a refused update_vis touched", exact=True)
    # partial writes: every chunk read from the input, changed, and written; order random
    src = quiet(io.HERAData, F.paths[0])
    rng = rng_of(case["seed"], "chunks")
    if case["part"] == "bls":
        items = sorted(F.antpairs)
    elif case["part"] == "times":
        items = list(range(nt))
    else:
        items = list(range(nf))
    c = case["chunk"]
    if case["part"] == "bls":
        items = [items[i] for i in rng.permutation(len(items))]
    chunks = [items[i:i + c] for i in range(0, len(items), c)]
    chunks = [chunks[i] for i in rng.permutation(len(chunks))]
    out3 = os.path.join(tmp, "part.uvh5")
    for ch in chunks:
        kw, ts, fs, pairs = {}, slice(None), slice(None), F.antpairs
        if case["part"] == "bls":
            kw["bls"], pairs = ch, ch
        elif case["part"] == "times":
            ts = np.array(sorted(ch))
            kw["times"] = F.times[ts]
        else:
            fs = np.array(sorted(ch))
            kw["freq_chans"] = fs
        dd, ff, nn = quiet(src.read, **kw)
        for k in dd.keys():
            a, b, e = G.get(k, ts, fs)
            dd[k], ff[k], nn[k] = a.copy(), b.copy(), e.copy()
        quiet(src.partial_write, out3, data=dd, flags=ff, nsamples=nn, inplace=case["inplace"], clobber=True, add_to_history="pwhist", vis_units="Jy")
        if case["inplace"]:
            G.check(quiet(src.build_datacontainers), "object after an in-place partial_write", ts, fs, [p + (q,) for p in pairs for q in F.pols], exact=True)
        else:
            F.check(quiet(src.build_datacontainers), "object after partial_write", ts, fs, [p + (q,) for p in pairs for q in F.pols], exact=True)
    h3 = quiet(io.HERAData, out3)
    G.check(quiet(h3.read), f"file put together by {case['part']}", exact=True)
    require(h3.vis_units == "Jy" and h3.history.count("pwhist") == 1 and F.uvd.history in h3.history, f"units {h3.vis_units} and history {h3.history!r} of a file written in parts")
    F.check(quiet(quiet(io.HERAData, F.paths[0]).read), "the input file afterwards", exact=True)
    ctx.nontrivial(len(F.antpairs) > 1 and nt * nf > 1)
    ctx.label("part " + case["part"])


def gen_iter(draw):
    return dict(f=gen_file(draw), nfiles=pick(draw, [1, 1, 2, 3]), n=ints(draw, 1, 4), red=flag(draw), autos=flag(draw), bls=flag(draw), seed=seed(draw))


def check_iter(case, ctx):
    """chunked iteration over baselines, channels and times covers everything once"""
    from hera_cal import io
    F = File(case["f"], ctx.tmp(), case["nfiles"])
    multi = len(F.paths) > 1
    src = F.paths if multi else F.paths[0]
    rng = rng_of(case["seed"], "it")
    # baselines
    want = set(F.truth) if case["autos"] else {k for k in F.truth if k[0] != k[1]}
    kw = {}
    if case["bls"] and not case["red"]:
        sub = {k for k in want if rng.random() < 0.6}
        kw["bls"] = [k for k in sorted(sub)]
        want = sub
    if want:
        seen = set()
        hd = quiet(io.HERAData, src)
        for d, f, n in quiet(lambda: list(hd.iterate_over_bls(Nbls=case["n"], chunk_by_redundant_group=case["red"], include_autos=case["autos"], **kw))):
            F.check((d, f, n), "iterate_over_bls", keys=[])
            seen |= set(map(tuple, d.keys()))
        miss = {k for k in want if k not in seen and (k[1], k[0], k[2][::-1]) not in seen}
        require(not miss, f"iterate_over_bls (redundant={case['red']}, {len(F.paths)} files) never yields {sorted(miss)}")
        if case["red"] or not kw:
            extra = {k for k in seen if k not in want}
            require(not (extra and not case["autos"] and any(k[0] == k[1] for k in extra)), "iterate_over_bls yields autos although they were excluded")
    # channels
    parts = []
    hd = quiet(io.HERAData, src)
    for i, got in enumerate(quiet(lambda: list(hd.iterate_over_freqs(Nchans=case["n"])))):
        fs = np.arange(i * case["n"], min((i + 1) * case["n"], len(F.freqs)))
        F.check(got, "iterate_over_freqs", None, fs, exact=True)
        parts.extend(fs)
    require(len(parts) == len(F.freqs), "iterate_over_freqs does not cover the band")
    # times
    hd = quiet(io.HERAData, src)
    if not multi:
        parts = []
        for i, got in enumerate(quiet(lambda: list(hd.iterate_over_times(Nints=case["n"])))):
            ts = np.arange(i * case["n"], min((i + 1) * case["n"], len(F.times)))
            F.check(got, "iterate_over_times", ts, None, exact=True)
            parts.extend(ts)
        require(len(parts) == len(F.times), "iterate_over_times does not cover the times")
    # division of baselines over a list of files: a partition
    names = [F.paths[0]] + [os.path.join(os.path.dirname(F.paths[0]), f"copy{i}.uvh5") for i in range(case["n"])]
    for i, p in enumerate(names[1:]):
        pr = [F.f["pairs"][j] for j in rng.permutation(len(F.f["pairs"]))]
        u = quiet(make_uvd, F.enu, [tuple(x) for x in pr], F.pols, F.times[:1] + 0.1 * (i + 1), F.freqs, seed=1, orient=F.f["orient"])
        quiet(u.write_uvh5, p, clobber=True)
    got = [tuple(map(int, b)) for nm in names for b in quiet(io.baselines_from_filelist_position, nm, names)]
    require(sorted(got) == sorted(F.antpairs), f"baselines_from_filelist_position does not divide {F.antpairs} over {len(names)} files: {sorted(got)}")
    ctx.label("red" if case["red"] else "plain", f"files {len(F.paths)}")
    ctx.nontrivial(len(F.antpairs) > 1)


def gen_misc(draw):
    return dict(f=gen_file(draw, ntmin=2), mode=pick(draw, ["write_vis", "cal", "flags", "select", "cache", "trim"]), over=flag(draw), seed=seed(draw), ftype=pick(draw, ["baseline", "antenna", "waterfall"]))


def check_misc(case, ctx):
    """write_vis, init_HERACal, flag files, select/add, filter caches, trimming of flagged baselines"""
    from hera_cal import io
    from hera_cal.datacontainer import DataContainer
    tmp = ctx.tmp()
    F = File(case["f"], tmp)
    rng = rng_of(case["seed"], "misc")
    nt, nf = len(F.times), len(F.freqs)
    mode = case["mode"]
    ctx.label(mode)
    ctx.nontrivial(len(F.antpairs) > 1)
    hd = quiet(io.HERAData, F.paths[0])
    d, f, n = quiet(hd.read)
    if mode == "write_vis":
        name = "wv.uvh5"
        it = float(rng.uniform(1, 100))
        kw = dict(time_array=F.times, flags=f, nsamples=n, filetype="uvh5", outdir=tmp, x_orientation=F.f["orient"], verbose=False, history="hist")
        if case["over"]:
            kw["integration_time"] = it
        uvd = quiet(io.write_vis, name, d, F.lsts(), F.freqs, F.enu, return_uvd=True, **kw)
        h2 = quiet(io.HERAData, os.path.join(tmp, name))
        got = quiet(h2.read)
        F.check(got, "write_vis", exact=True)
        F.check_meta(got[0], "write_vis")
        # exact JD would do; integration time as asked, by default the spacing of the times
        want = it if case["over"] else np.median(np.diff(F.times)) * 86400
        close(h2.integration_time, np.full(h2.Nblts, want), "write_vis integration time", rtol=1e-4)
        require("hist" in h2.history, f"write_vis history {h2.history!r}")
        # times from LSTs: on or after the start, with those LSTs
        k2 = dict(kw, time_array=None, start_jd=int(F.times[0]))
        quiet(io.write_vis, "lst.uvh5", d, F.lsts(), F.freqs, F.enu, **k2)
        g3 = quiet(quiet(io.HERAData, os.path.join(tmp, "lst.uvh5")).read)
        F.check(g3, "write_vis from LSTs", exact=True)
        close((g3[0].lsts - F.lsts() + np.pi) % (2 * np.pi) - np.pi, np.zeros(nt), "LSTs of a file written from LSTs", atol=1e-6)
        with expect_raises((AttributeError, ValueError, TypeError), "write_vis without times or start_jd"):
            quiet(io.write_vis, "no.uvh5", d, F.lsts(), F.freqs, F.enu, **dict(k2, start_jd=None))
        before = open(os.path.join(tmp, name), "rb").read()
        d2 = DataContainer({k: d[k] * 0 + 1 for k in d.keys()})
        quiet(io.write_vis, name, d2, F.lsts(), F.freqs, F.enu, overwrite=False, **kw)
        require(open(os.path.join(tmp, name), "rb").read() == before, "write_vis(overwrite=False) replaced an existing file")
        quiet(io.write_vis, name, d2, F.lsts(), F.freqs, F.enu, overwrite=True, **kw)
        g2 = quiet(quiet(io.HERAData, os.path.join(tmp, name)).read)[0]
        for k in d2.keys():
            same(g2[k], d2[k], "write_vis(overwrite=True)")
    elif mode == "cal":
        conv, style = pick_rng(rng, ["divide", "multiply"]), "redundant"
        hc = quiet(hd.init_HERACal, gain_convention=conv, cal_style=style)
        require(hc.gain_convention == conv, f"init_HERACal(gain_convention={conv!r}) made {hc.gain_convention!r}")
        g, fl, q, tq = quiet(hc.build_calcontainers)
        ants = {a for p in F.antpairs for a in p}
        jp = {f"J{x}{x}" for p in F.pols for x in p}
        require({(int(a), p) for a, p in g} == {(a, p) for a in ants for p in jp}, f"init_HERACal antennas {sorted(g)}")
        for a in g:
            same(g[a], np.ones((nt, nf)), "init_HERACal gains")
            require(bool(np.all(fl[a])), "init_HERACal flags are not all set")
        same(np.array(hc.times), F.times, "init_HERACal times")
        same(np.array(hc.freqs), F.freqs, "init_HERACal freqs")
    elif mode == "flags":
        from pyuvdata import UVFlag
        if case["ftype"] == "baseline":
            uvf = quiet(UVFlag, F.uvd, mode="flag", copy_flags=True)
            p = os.path.join(tmp, "f.h5")
            quiet(uvf.write, p)
            got, meta = quiet(io.load_flags, p, return_meta=True)
            require({(int(a), int(b), c) for a, b, c in got.keys()} == set(F.truth), "load_flags baselines")
            for k in F.truth:
                same(got[k], F.get(k)[1], f"load_flags of {k}")
                r = (k[1], k[0], k[2][::-1])
                same(got[r], F.get(r)[1], f"load_flags of reversed {k}")
        elif case["ftype"] == "waterfall":
            uvf = quiet(UVFlag, F.uvd, mode="flag", waterfall=True)
            w = rng.random(size=uvf.flag_array.shape) < 0.4
            uvf.flag_array = w
            p = os.path.join(tmp, "f.h5")
            quiet(uvf.write, p)
            got, meta = quiet(io.load_flags, p, return_meta=True)
            require(len(got) == w.shape[2], "load_flags waterfalls")
            for k, v in zip(got, np.moveaxis(w, 2, 0)):
                same(got[k], v, f"load_flags waterfall {k}")
        else:
            hc = quiet(hd.init_HERACal)
            uvf = quiet(UVFlag, hc, mode="flag", copy_flags=True)
            w = rng.random(size=uvf.flag_array.shape) < 0.4
            uvf.flag_array = w
            p = os.path.join(tmp, "f.h5")
            quiet(uvf.write, p)
            got, meta = quiet(io.load_flags, p, return_meta=True)
            num = {"Jee": -5, "Jnn": -6} if F.f["orient"] == "east" else {"Jnn": -5, "Jee": -6}
            for i, a in enumerate(uvf.ant_array):
                for j, pn in enumerate(uvf.polarization_array):
                    jp = {v: k for k, v in num.items()}[int(pn)]
                    same(got[(int(a), jp)], w[i, :, :, j].T, f"load_flags of antenna {a} {jp}")
        same(meta["times"], F.times, "load_flags times")
        same(meta["freqs"], F.freqs, "load_flags freqs")
    elif mode == "select":
        pairs = [p for p in F.antpairs if rng.random() < 0.5] or F.antpairs[:1]
        other = [p for p in F.antpairs if p not in pairs]
        p1 = [p for p in F.pols if rng.random() < 0.5] or F.pols[:1]
        p2 = [p for p in F.pols if p not in p1]
        h1 = quiet(hd.select, polarizations=p1, inplace=False)
        F.check(quiet(h1.build_datacontainers), "select(polarizations)", keys=[p + (q,) for p in F.antpairs for q in p1], exact=True)
        if p2:
            h2 = quiet(hd.select, polarizations=p2, inplace=False)
            F.check(quiet(lambda: (h1 + h2).build_datacontainers()), "sum of two polarization selections", exact=True)
            quiet(h1.__iadd__, h2)
            F.check(quiet(h1.build_datacontainers), "in-place sum of two polarization selections", exact=True)
        h1 = quiet(hd.select, bls=pairs, inplace=False)
        F.check(quiet(h1.build_datacontainers), "select(bls)", keys=[p + (q,) for p in pairs for q in F.pols], exact=True)
        F.check(quiet(hd.build_datacontainers), "object after a non-inplace select", exact=True)
        if other:
            h2 = quiet(hd.select, bls=other, inplace=False)
            h3 = quiet(lambda: h1 + h2)
            F.check(quiet(h3.build_datacontainers), "sum of two selections", exact=True)
            quiet(h1.__iadd__, h2)
            F.check(quiet(h1.build_datacontainers), "in-place sum of two selections", exact=True)
        pols = [p for p in F.pols if rng.random() < 0.5] or F.pols[:1]
        ts = np.sort(rng.choice(nt, size=rng.integers(1, nt + 1), replace=False))
        fs = np.sort(rng.choice(nf, size=rng.integers(1, nf + 1), replace=False))
        quiet(hd.select, polarizations=pols, times=F.times[ts], freq_chans=fs)
        F.check(quiet(hd.build_datacontainers), "select", ts, fs, keys=[p + (q,) for p in F.antpairs for q in pols], exact=True)
        quiet(hd.empty_arrays)
        e, ef, en = quiet(hd.build_datacontainers)
        for k in e.keys():
            require(not np.any(e[k]) and np.all(ef[k]) and not np.any(en[k]), "empty_arrays leaves something")
        # plain UVData objects
        d3, f3 = quiet(io.load_vis, quiet(F.uvd.copy), pop_autos=case["over"])
        want = {k for k in F.truth if not (case["over"] and k[0] == k[1])}
        require({(int(a), int(b), c) for a, b, c in d3.keys()} == want, "load_vis baselines")
        for k in want:
            same(d3[k], F.get(k)[0], "load_vis data")
            same(f3[k], F.get(k)[1], "load_vis flags")
    elif mode == "cache":
        c1 = {("a", i): rng.normal(size=3) for i in range(3)}
        c2 = {("a", i): rng.normal(size=3) for i in range(2, 5)}
        quiet(io.write_filter_cache_scratch, c1, tmp)
        quiet(io.write_filter_cache_scratch, c2, tmp, skip_keys=list(c1))
        got = quiet(io.read_filter_cache_scratch, tmp)
        require(set(got) == set(c1) | set(c2), "filter cache keys")
        for k in got:
            same(got[k], c1[k] if k in c1 else c2[k], "filter cache value")
    elif mode == "trim":
        drop = [p for p in F.antpairs if rng.random() < 0.4][:len(F.antpairs) - 1]
        for p in drop:
            for q in F.pols:
                f[p + (q,)] = np.ones((nt, nf), dtype=bool)
        keepers = []
        for p in F.antpairs:
            if all(np.all(f[p + (q,)]) for q in F.pols):
                continue
            keepers.append(p)
        if not keepers:
            return
        quiet(hd.update, flags=f)
        src, out = os.path.join(tmp, "src.uvh5"), os.path.join(tmp, "trim.uvh5")
        quiet(hd.write_uvh5, src)
        quiet(io.throw_away_flagged_ants, src, out, throw_away_fully_flagged_data_baselines=case["over"])
        got = quiet(quiet(io.HERAData, out).read)
        want = keepers if case["over"] else F.antpairs
        G = File.__new__(File)
        G.__dict__.update(F.__dict__)
        G.truth = {k: (v[0], f[k], v[2]) for k, v in F.truth.items()}
        G.check(got, "throw_away_flagged_ants", keys=[p + (q,) for p in want for q in F.pols], exact=True)


def pick_rng(rng, opts):
    return opts[int(rng.integers(len(opts)))]


SUBS = [Sub("read", gen_read, check_read, quick=56, thorough=1500, shards=3),
        Sub("mixed", gen_mixed, check_mixed, quick=50, thorough=1200, shards=1),
        Sub("write", gen_write, check_write, quick=36, thorough=1000, shards=3),
        Sub("iterate", gen_iter, check_iter, quick=28, thorough=800, shards=2),
        Sub("misc", gen_misc, check_misc, quick=60, thorough=1500, shards=2)]
