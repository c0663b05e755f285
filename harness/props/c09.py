"""C09: applying calibration to files gives the calibration equation, whole or in pieces."""
import os

import numpy as np

from ..core import Sub, close, require, rng_of, same
from ..gens import cplx, flag, ints, pick, seed
from ..layouts import gen_layout, grid_layout, positions, true_groups
from ..redsim import rev
from ..uvsim import freqs_of, make_cal, make_uvd, times_of, truth
from .c12 import quiet

RULE = ("Small visibility files (2-6 antennas in random or gridded layouts, baselines missing or stored in either orientation, 1-4 "
        "polarizations) and calibration files whose band overlaps, contains or lies inside the data's, with missing antennas, flags, old "
        "calibrations, flag files, a-priori YAML flags, band-edge flags, spectral windows, partial loads of 1-7 baselines, redundant "
        "averaging and redundant-solution mode. Oracle: the calibration equation on the arrays the files were made from, output read "
        "with plain pyuvdata. Non-trivial: at least two baselines, one of them with an unflagged calibrated sample.")
ASSUMPTIONS = ["uvh5 in and out, one spectral window, no baseline-dependent averaging", "an external flag file covers the channels that are loaded"]
J = {"e": "Jee", "n": "Jnn"}
NF = 12   # channels of the universe the bands are cut from


def gen_common(draw, redundant):
    if redundant or flag(draw):
        lay = grid_layout(draw, nx=(3, 4) if redundant else (2, 3), ny=(1, 2))
        if flag(draw):
            from ..gens import perm
            lay["nums"] = [2 * x + 1 for x in perm(draw, lay["nums"])]
    else:
        lay = gen_layout(draw, dims=2, nmin=2, nmax=5, span=2)
    lo = ints(draw, 0, 4)
    nf = ints(draw, 2, 6)
    full = ints(draw, 0, 2) > 0
    clo = lo if full else ints(draw, 0, lo + nf - 2)
    chi = lo + nf if full else ints(draw, max(clo + 2, lo + 1), NF)
    olo, ohi = 0, 0
    old = ints(draw, 0, 2) == 0
    if old:
        olo = ints(draw, 0, max(clo, lo))
        ohi = ints(draw, min(chi, lo + nf), NF)
    return dict(lay=lay, pols=pick(draw, [["ee"], ["nn", "ee"], ["ee", "nn", "en", "ne"]]), nt=ints(draw, 1, 3), band=[lo, lo + nf], cband=[clo, chi],
                oband=[olo, ohi], old=old, seed=seed(draw), drop=ints(draw, 0, 3), orient=pick(draw, ["minmax", "minmax", "random", "reds"]),
                fast=flag(draw), nbl=pick(draw, [None, None, 1, 2, 3, 7]), conv=pick(draw, ["divide", "divide", "multiply"]),
                low=pick(draw, [0, 0, 0, 1]), high=pick(draw, [0, 0, 0, 1]), calnt=pick(draw, ["same", "same", "one"]),
                miss=ints(draw, 0, 3), yaml=pick(draw, [0, 0, 0, 1, 2]), autos=flag(draw), xo=pick(draw, ["east", "north"]),
                scale=pick(draw, [None, "Jy", "uncalib"]), units=pick(draw, [None, None, "K str"]))


def gen_plain(draw):
    c = gen_common(draw, False)
    c.update(extf=ints(draw, 0, 2) == 0, spw=None, redsol=ints(draw, 0, 3) == 0, exists=pick(draw, [None, None, "clobber", "refuse"]))
    lo, hi = c["band"]
    if ints(draw, 0, 3) == 0:
        a = ints(draw, 0, hi - lo - 1)
        c["spw"] = [a, ints(draw, a + 1, hi - lo)]
    if c["extf"]:   # an external flag file has the data's shape, so the whole band must be loaded
        c["spw"] = None
        c["cband"] = [min(c["cband"][0], lo), max(c["cband"][1], hi)]
        if c["old"]:
            c["oband"] = [min(c["oband"][0], lo), max(c["oband"][1], hi)]
    return c


def gen_avg(draw):
    c = gen_common(draw, True)
    c.update(ngroups=1 if c["nbl"] else pick(draw, [1, 1, 2, 3]), mode=pick(draw, ["data", "yaml"]), dead=pick(draw, [0, 0, 2]), wgts=ints(draw, 0, 3) == 0)
    c["skip"] = c["ngroups"] > 1 and flag(draw)
    if (c["mode"] == "yaml" or c["wgts"]) and c["miss"] == 3:   # without gains, and not excluded: not calibrated, and in the average
        c["miss"] = 0
    return c


class World:
    def __init__(self, case, tmp):
        rng = rng_of(case["seed"], "world")
        self.case, self.rng, self.tmp = case, rng, tmp
        self.enu = positions(case["lay"], 14.6)
        self.groups = [sorted(g) for _, g in sorted(true_groups(case["lay"], autos=True).items())]
        pairs = [p for g in self.groups for p in g if p[0] != p[1] or case["autos"]]
        keep = [p for k, p in enumerate(pairs) if (k * 7 + case["seed"]) % 8 >= case["drop"]]
        if not any(p[0] != p[1] for p in keep):
            keep += [p for p in pairs if p[0] != p[1]][:1]
        o = case["orient"]
        if o == "minmax":
            stored = [tuple(sorted(p)) for p in keep]
        elif o == "random":
            stored = [p if rng.integers(2) else p[::-1] for p in keep]
        else:
            stored = list(keep)
        self.pairs = stored
        self.pols = case["pols"]
        self.F = freqs_of(NF)
        lo, hi = case["band"]
        self.freqs, self.times = self.F[lo:hi], times_of(case["nt"])
        self.uvd = quiet(make_uvd, self.enu, stored, self.pols, self.times, self.freqs, seed=case["seed"] % 2**31, orient=case["xo"], flag_frac=0.2,
                         time_fast=case["fast"])
        for p in stored:     # some wholly flagged waterfalls
            if rng.integers(8) < case.get("dead", 0):
                self.uvd.flag_array[(self.uvd.ant_1_array == p[0]) & (self.uvd.ant_2_array == p[1])] = True
        if "en" in self.pols:    # (i, i, en) is the conjugate of (i, i, ne): one measurement, one flag, one count
            auto = self.uvd.ant_1_array == self.uvd.ant_2_array
            for arr in (self.uvd.flag_array, self.uvd.nsample_array):
                arr[auto, :, self.pols.index("en")] = arr[auto, :, self.pols.index("ne")]
        self.infile = os.path.join(tmp, "in.uvh5")
        quiet(self.uvd.write_uvh5, self.infile)
        self.truth = truth(self.uvd, self.pols)
        self.ants = sorted(self.enu)
        self.jp = ["Jee", "Jnn"]
        self.new, self.newf, self.newfile = self.cal("new", case["cband"], drop=case["miss"] == 3)
        self.old = self.oldf = self.oldfile = None
        if case["old"]:
            self.old, self.oldf, self.oldfile = self.cal("old", case["oband"])
        self.yaml, self.ex = None, set()
        if case["yaml"]:
            self.ex = set(rng.choice(self.ants, size=min(case["yaml"], len(self.ants) - 1), replace=False).tolist())
            self.yaml = os.path.join(tmp, "f.yaml")
            with open(self.yaml, "w") as fl:
                fl.write("ex_ants: [" + ", ".join(str(a) if k % 2 else f"[{a}, Jee]" for k, a in enumerate(sorted(self.ex))) + "]\n")
                fl.write(f"freq_flags: [[{self.F[5] - 1000.0}, {self.F[6] + 1000.0}]]\n")

    def cal(self, name, band, drop=False):
        rng, case = self.rng, self.case
        fr = self.F[band[0]:band[1]]
        nt = 1 if case["calnt"] == "one" else case["nt"]
        times = self.times[:1] if nt == 1 else self.times
        ants = self.ants[1:] if drop and len(self.ants) > 2 else self.ants
        g, f = {}, {}
        for a in ants:
            for p in self.jp:
                g[a, p] = cplx(rng, (nt, len(fr))) * 0.3 + 1.0
                f[a, p] = rng.random(size=(nt, len(fr))) < 0.15
        path = os.path.join(self.tmp, f"{name}.calfits")
        uvc = quiet(make_cal, ants, g, f, times, fr, self.uvd.telescope, pols=self.jp, orient=case["xo"], gain_scale=case["scale"])
        uvc.history = f"history of {name}"
        quiet(uvc.write_calfits, path)
        pad = lambda x, fill: np.concatenate([np.full((nt, band[0]), fill, dtype=x.dtype), x, np.full((nt, NF - band[1]), fill, dtype=x.dtype)], axis=1)
        return {k: pad(v, 1.0) for k, v in g.items()}, {k: pad(v, True) for k, v in f.items()}, path

    def chans(self):
        """channels (of the universe) the output holds"""
        c = self.case
        lo, hi = c["band"]
        ch = list(range(lo, hi))
        if c.get("spw"):
            ch = ch[c["spw"][0]:c["spw"][1]]
        return [x for x in ch if c["cband"][0] <= x < c["cband"][1]]

    def expected(self, ext=None):
        """{key: (data, flags, nsamples)} of the calibrated data on self.chans()"""
        c = self.case
        ch = np.array(self.chans())
        loc = ch - c["band"][0]
        e = {"divide": 1, "multiply": -1}[c["conv"]]
        out = {}
        sh = (c["nt"], len(ch))
        for (i, j, p), (d, f, n) in self.truth.items():
            d, f, n = (x[:, loc].copy() for x in (d, f, n))
            f[:, :c["low"]] = True
            f[:, f.shape[1] - min(c["high"], f.shape[1]):] = True
            if ext is not None:
                f |= ext[i, j, p][:, loc]
            a, b = (i, J[p[0]]), (j, J[p[1]])
            f2, fac, known = self.factor(a, b, ch, sh)
            out[i, j, p] = (d * fac ** e, f | f2, n, known)
        return out

    def factor(self, a, b, ch, sh):
        if a not in self.new or b not in self.new:
            return np.ones(sh, dtype=bool), np.ones(sh), False
        br = lambda x: np.broadcast_to(x[:, ch], sh)
        fac = 1 / (br(self.new[a]) * np.conj(br(self.new[b])))
        fl = self.flag(a, ch, sh) | self.flag(b, ch, sh)
        if self.old is not None:
            fac = fac * br(self.old[a]) * np.conj(br(self.old[b]))
        return fl, fac, True

    def flag(self, a, ch, sh):
        f = np.broadcast_to(self.newf[a][:, ch], sh).copy()
        if self.yaml:
            f |= a[0] in self.ex
            f |= ((ch >= 5) & (ch <= 6))[None, :]
        return f

    def args(self):
        c = self.case
        kw = dict(nbl_per_load=c["nbl"], gain_convention=c["conv"], flag_nchan_low=c["low"], flag_nchan_high=c["high"], old_calibration=self.oldfile,
                  a_priori_flags_yaml=self.yaml, vis_units=c["units"], add_to_history="our note")
        return kw

    def units(self):
        c = self.case
        return c["units"] if c["units"] is not None else (c["scale"] if c["scale"] is not None else "uncalib")

    def skip(self):
        """nothing to do, or outside what is supported"""
        c = self.case
        ch = self.chans()
        if len(ch) < 1:
            return True
        if c["old"] and not all(c["oband"][0] <= x < c["oband"][1] for x in ch):
            return True
        return False


def read(path):
    from pyuvdata import UVData
    u = UVData()
    quiet(u.read, path)
    return u


def compare(W, u, exp, what, dead_ok=True):
    """u (UVData) holds exactly exp"""
    ch = W.chans()
    close(u.freq_array, W.F[ch], f"{what}: frequencies", rtol=0, atol=1.0)
    same(np.unique(u.time_array), np.unique(W.times), f"{what}: times")
    order = u.get_pols()
    require(sorted(order) == sorted(W.pols), f"{what}: polarizations {order}, expected {W.pols}")
    t = truth(u, order)
    require(set(t) == set(exp), f"{what}: wrong baselines, {sorted(set(t) ^ set(exp))}")
    for k in exp:
        d, f, n, known = exp[k]
        same(t[k][1], f, f"{what}: flags of {k}")
        close(t[k][2], n, f"{what}: nsamples of {k}", rtol=1e-5)
        if known:
            close(t[k][0], d, f"{what}: data of {k}", rtol=2e-4, atol=1e-4)


def check_plain(case, ctx):
    from hera_cal import apply_cal as ac
    tmp = ctx.tmp()
    W = World(case, tmp)
    if W.skip():
        return
    ext, kw = None, W.args()
    if case["extf"]:
        from pyuvdata import UVFlag
        uvf = quiet(UVFlag, W.uvd, mode="flag")
        ext = {}
        rng = rng_of(case["seed"], "ext")
        uvf.flag_array = rng.random(size=uvf.flag_array.shape) < 0.3
        arr = W.uvd.copy()
        arr.flag_array = uvf.flag_array.copy()
        ext = {k: v[1] for k, v in truth(arr, W.pols).items()}
        kw["flag_file"] = os.path.join(tmp, "flags.h5")
        uvf.history = "where the flags came from"
        quiet(uvf.write, kw["flag_file"])
    if case["spw"]:
        kw["spw_range"] = tuple(case["spw"])
    exp = W.expected(ext)
    if case["redsol"] and not (case["miss"] == 3 or case["calnt"] == "one"):
        exp = redsol(W, ext)
        kw["redundant_solution"] = True
        ctx.label("redundant solution")
    out = os.path.join(tmp, "out.uvh5")
    if case["exists"] == "clobber":
        with open(out, "w") as fl:
            fl.write("junk")
        kw["clobber"] = True
    elif case["exists"] == "refuse":
        with open(out, "w") as fl:
            fl.write("precious")
        try:
            quiet(ac.apply_cal, W.infile, out, W.newfile, **kw)
            require(False, "apply_cal(clobber=False) overwrote an existing file without an error")
        except (OSError, ValueError):
            pass
        with open(out) as fl:
            require(fl.read() == "precious", "apply_cal(clobber=False) changed an existing file")
        os.remove(out)
    with open(W.infile, "rb") as fl:
        before = fl.read()
    quiet(ac.apply_cal, W.infile, out, W.newfile, **kw)
    with open(W.infile, "rb") as fl:
        require(fl.read() == before, "apply_cal changed its input file")
    u = read(out)
    what = "apply_cal" + (f" in loads of {case['nbl']}" if case["nbl"] else "")
    compare(W, u, exp, what)
    require(u.vis_units == W.units(), f"{what}: vis_units {u.vis_units!r}, expected {W.units()!r}")
    for note, want in (("our note", True), ("history of new", True), ("history of old", case["old"]), ("where the flags came from", case["extf"])):
        if want:
            require(note in u.history, f"{what}: {note!r} is not in the history")
    ctx.label("partial" if case["nbl"] else "whole", f"npol {len(W.pols)}", "old cal" if case["old"] else "raw")
    if len(W.chans()) < case["band"][1] - case["band"][0]:
        ctx.label("band cut")
    ctx.nontrivial(len(W.pairs) > 1 and any(np.any(~e[1]) for e in exp.values()))


def redsol(W, ext):
    """expected output of redundant_solution=True: average gain ratio of each group"""
    c = W.case
    ch = np.array(W.chans())
    sh = (c["nt"], len(ch))
    e = {"divide": 1, "multiply": -1}[c["conv"]]
    base = W.expected(ext)
    out = {}
    loc = ch - c["band"][0]
    ants = {a for p in W.pairs for a in p}
    for g in W.groups:
        # every pair of antennas that appear in the data, in the group's orientation
        mem = [p for p in g if p[0] in ants and p[1] in ants]
        for pol in W.pols:
            rat, ok = [], []
            for i, j in mem:
                a, b = (i, J[pol[0]]), (j, J[pol[1]])
                _, fac, _ = W.factor(a, b, ch, sh)
                fl = W.flag(a, ch, sh) | W.flag(b, ch, sh)
                if W.old is not None:
                    fl = fl | W.oldf[a][:, ch] | W.oldf[b][:, ch]
                rat.append(fac)
                ok.append(~fl)
            rat, ok = np.array(rat), np.array(ok)
            n = ok.sum(axis=0)
            avg = np.where(n > 0, (rat * ok).sum(axis=0) / np.where(n > 0, n, 1), 1.0)
            for m in mem:
                for k in ({m + (pol,), rev(m + (pol,))}):
                    if k in W.truth and k not in out:
                        # autos with cross-pol appear once per stored polarization
                        d = W.truth[k][0][:, loc]
                        r = avg if k == m + (pol,) else np.conj(avg)
                        f = prior(W, k, ext, loc)
                        out[k] = (d * r ** e, f | (n == 0), base[k][2], True)
    return out


def prior(W, k, ext, loc):
    c = W.case
    f = W.truth[k][1][:, loc].copy()
    f[:, :c["low"]] = True
    f[:, f.shape[1] - min(c["high"], f.shape[1]):] = True
    if ext is not None:
        f |= ext[k][:, loc]
    return f


def check_avg(case, ctx):
    from hera_cal import apply_cal as ac
    tmp = ctx.tmp()
    W = World(case, tmp)
    if W.skip():
        return
    kw = W.args()
    kw.update(redundant_average=True, redundant_groups=case["ngroups"], exclude_from_redundant_mode=case["mode"], clobber=True,
              dont_red_average_flagged_data=case["skip"])
    cal = W.expected()
    out = os.path.join(tmp, "out.uvh5")
    uw = None
    if case["wgts"]:
        from hera_cal.datacontainer import DataContainer
        rng = rng_of(case["seed"], "wgts")
        uw = {}
        for k in cal:
            crossauto = k[0] == k[1] and k[2][0] != k[2][1]
            uw[k] = uw[rev(k)] if crossauto and rev(k) in uw else rng.integers(0, 4, size=cal[k][2].shape).astype(float) * (rng.random() < 0.9)
        kw["redundant_weights"] = DataContainer({k: v.copy() for k, v in uw.items()})
        ctx.label("given weights")
    quiet(ac.apply_cal, W.infile, out, W.newfile, **kw)
    if uw:
        for k in uw:
            same(kw["redundant_weights"][k], uw[k], f"caller's weights of {k}")
    files = [out] if case["ngroups"] == 1 else [out.replace(".uvh5", f".{n}.uvh5") for n in range(case["ngroups"])]
    what = "apply_cal(redundant_average)" + (f" in loads of {case['nbl']}" if case["nbl"] else "")

    def get(m, pol):
        k = m + (pol,)
        if k in cal:
            return cal[k]
        d, f, n, known = cal[rev(k)]
        return np.conj(d), f, n, known

    def weight(m, pol):
        d, f, n, known = get(m, pol)
        if uw:
            k = m + (pol,)
            return uw[k] if k in uw else uw[rev(k)]
        if np.all(f) and (case["mode"] == "data" or (W.yaml and (m[0] in W.ex or m[1] in W.ex))):
            return np.zeros_like(n)
        return n

    ants = {a for p in W.pairs for a in p}
    ingroups = []
    for g in W.groups:
        mem = [p for p in g if p in W.pairs or p[::-1] in W.pairs]
        if mem:
            ingroups.append(mem)
    sizes, ntot = [], 0
    got_by_file = []
    for path in files:
        if not os.path.exists(path):
            got_by_file.append(None)
            continue
        u = read(path)
        order = u.get_pols()
        require(sorted(order) == sorted(W.pols), f"{what}: polarizations {order}")
        close(u.freq_array, W.F[W.chans()], f"{what}: frequencies", rtol=0, atol=1.0)
        require(u.vis_units == W.units(), f"{what}: vis_units {u.vis_units!r}, expected {W.units()!r}")
        got_by_file.append(truth(u, order))
    used = [{} for _ in files]
    for mem in ingroups:
        alive = mem
        if case["skip"]:
            alive = [m for m in mem if any(np.any(weight(m, p) != 0) for p in W.pols)]
        if len(alive) < case["ngroups"]:
            # too small a group: not in any output
            for got in got_by_file:
                if got is not None:
                    require(not any(k[:2] in mem or k[:2][::-1] in mem for k in got), f"{what}: group {mem} is too small to split into {case['ngroups']} but is in the output")
            continue
        key = None
        nsum = {p: 0 for p in W.pols}
        for fn, got in enumerate(got_by_file):
            require(got is not None, f"{what}: no output file for subgroup {fn}")
            keys = [k for k in got if k[:2] in mem or k[:2][::-1] in mem]
            require(len({k[:2] for k in keys}) == 1 and len(keys) == len(W.pols), f"{what}: group {mem} has entries {sorted(keys)} in the output")
            for k in keys:
                pol = k[2]
                flip = k[:2] not in mem
                mp = pol[::-1] if flip else pol
                if case["ngroups"] == 1:
                    d, f, n = avg_of(alive, mp, get, weight)
                    same(got[k][1], f, f"{what}: flags of group {mem} {pol}")
                    close(got[k][2], n, f"{what}: nsamples of group {mem} {pol}", rtol=1e-5)
                    ok = ~f
                    close(got[k][0][ok], (np.conj(d) if flip else d)[ok], f"{what}: average of group {mem} {pol}", rtol=5e-4, atol=2e-4)
                    ntot += ok.sum() if len(alive) > 1 else 0
                else:
                    nsum[mp] = nsum[mp] + got[k][2]
                    used[fn].setdefault(tuple(mem), {})[mp] = (got[k], flip)
        if case["ngroups"] > 1:
            check_split(case, alive, mem, used, get, weight, W, what)
            ntot += len(alive)
    nexp = sum(1 for m in ingroups if case["ngroups"] == 1)
    if case["ngroups"] == 1:
        require(len({k[:2] for k in got_by_file[0]}) == nexp, f"{what}: {len({k[:2] for k in got_by_file[0]})} groups in the output, expected {nexp}")
    ctx.label("partial" if case["nbl"] else "whole", f"split {case['ngroups']}", case["orient"])
    ctx.nontrivial(ntot > 0)


def avg_of(mem, pol, get, weight):
    D = np.array([get(m, pol)[0] for m in mem])
    F = np.array([get(m, pol)[1] for m in mem])
    N = np.array([get(m, pol)[2] for m in mem])
    Wt = np.array([weight(m, pol) for m in mem])
    ws = Wt.sum(axis=0)
    d = (D * Wt).sum(axis=0) / np.where(ws > 0, ws, 1)
    f = np.all((Wt == 0) | F, axis=0)
    return d, f, (N * (Wt != 0)).sum(axis=0)


def check_split(case, alive, mem, used, get, weight, W, what):
    """the subgroups partition the group: there is one assignment of members to files that explains every file"""
    from itertools import product
    if len(alive) > 6:
        return
    ng = case["ngroups"]
    for assign in product(range(ng), repeat=len(alive)):
        if len(set(assign)) < ng:
            continue
        if max(assign.count(x) for x in range(ng)) - min(assign.count(x) for x in range(ng)) > 1:
            continue
        ok = True
        for fn in range(ng):
            sub = [m for m, a in zip(alive, assign) if a == fn]
            for pol in W.pols:
                (gd, gf, gn), flip = used[fn][tuple(mem)][pol]
                d, f, n = avg_of(sub, pol, get, weight)
                d = np.conj(d) if flip else d
                if not (np.array_equal(gf, f) and np.allclose(gn, n, rtol=1e-5) and np.allclose(gd[~f], d[~f], rtol=5e-4, atol=2e-4)):
                    ok = False
                    break
            if not ok:
                break
        if ok:
            return
    require(False, f"{what}: no split of group {alive} into {ng} disjoint subgroups explains the output files")


SUBS = [Sub("plain", gen_plain, check_plain, quick=70, thorough=1500, shards=8),
        Sub("average", gen_avg, check_avg, quick=60, thorough=1200, shards=8)]
