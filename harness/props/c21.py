"""C21: time averaging and fringe-rate filtering act on each baseline exactly as defined."""
import os

import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import flag, ints, pick, seed, subset
from ..lstsim import TWOPI, drift_phase, jd_for_lst, quiet
from ..uvsim import freqs_of, make_uvd, truth
from .c27 import contents, lookup

RULE = ("avg: random waterfalls, flags, nsamples, windows and LSTs (also across 24 h), with and without rephasing, against an independent average; hist: sequences of timeavg_data calls on one object; write: time_avg_data_and_write with interleaving "
        "read back from disk; fir: convolution, profiles and filter_data; frates: sky fringe-rate limits against brute force over the visible sky; noise: the filter-and-average operator, covariances, correction factors and design matrix; "
        "tophat: sums of tones through tophat_frfilter; file: load_tophat_frfilter_and_write read back. Non-trivial: more than one window, several flags patterns or several baselines.")
ASSUMPTIONS = ["every baseline has every time; times are evenly spaced", "values under flags are finite", "rephasing phases are those of V_ij = exp(-2 pi i nu (r_i - r_j).s/c) (the convention of hera_cal)",
               "DPSS modes are those of hera_filters; tones are judged to 1% inside and outside the filter with clear margins", "construct_filter passes exp(-2 pi i f t), as its tests state"]
C = 299792458.0
LAT = -30.72152612068925


# ---------------------------------------------------------------- one waterfall
def ref_avg(d, f, n, wt, navg, lsts=None, rephase=None):
    """Independent window average. rephase: (enu_i, enu_j, freqs, lat_deg) or None."""
    nt = d.shape[0]
    D, FL, N, L, edges = [], [], [], [], []
    un = None
    if lsts is not None:
        un = [lsts[0]]
        for x in lsts[1:]:
            un.append(un[-1] + ((x - un[-1] + np.pi) % TWOPI - np.pi))
        un = np.array(un)
    for s in range(0, nt, navg):
        e = min(nt, s + navg)
        dd = d[s:e].astype(complex)
        if un is not None:
            L.append(un[s:e].mean() % TWOPI)
            if rephase is not None:
                dd = dd * drift_phase(rephase[0], rephase[1], rephase[2], un[s:e].mean() - un[s:e], rephase[3])
        w = (~f[s:e]).astype(float)
        N.append((w * n[s:e]).sum(axis=0))
        if wt == "ns":
            w = w * n[s:e]
        elif wt == "favg":
            w = w * n[s:e].mean(axis=1, keepdims=True)
        tot = w.sum(axis=0)
        D.append(np.where(tot > 0, (dd * w).sum(axis=0) / np.where(tot > 0, tot, 1), 0))
        FL.append(f[s:e].all(axis=0))
        edges.append((s, e))
    return np.array(D), np.array(FL), np.array(N), np.array(L), edges


def gen_avg(draw):
    return dict(nt=pick(draw, [5, 6, 7, 9, 1, 2, 3]), nf=ints(draw, 1, 4), navg=pick(draw, [2, 3, 1, 4, 9]), p=pick(draw, [0.3, 0.0, 0.8]), ns=pick(draw, ["none", "int", "zero"]), wt=pick(draw, ["ns", "favg", "uni"]), rephase=flag(draw), lst=pick(draw, [None, 0.0, 2.0, 6.28]),
                fnone=flag(draw), lat=pick(draw, [None, LAT, 40.0]), dl=pick(draw, [0.003, 0.02]), seed=seed(draw))


def check_avg(case, ctx):
    from hera_cal import frf
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    navg = min(case["navg"], nt)
    d = rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
    f = rng.random((nt, nf)) < case["p"]
    if case["fnone"]:
        f[:] = False
    n = np.ones((nt, nf)) if case["ns"] == "none" else rng.integers(0 if case["ns"] == "zero" else 1, 5, size=(nt, nf)).astype(float)
    # integrations need not be evenly spaced
    lsts = None if case["lst"] is None else (case["lst"] + case["dl"] * (np.arange(nt) - nt // 2 + (np.random.default_rng(case["seed"]).uniform(-0.4, 0.4, size=nt) if case["seed"] % 2 else 0))) % TWOPI
    lsts0 = None if lsts is None else lsts.copy()
    enu = [rng.normal(size=3) * [40, 40, 1], rng.normal(size=3) * [40, 40, 1]]
    freqs = 1e8 + 1e7 * np.arange(nf)
    rep = case["rephase"] and lsts is not None
    kw = {} if case["lat"] is None else dict(lat=case["lat"])
    if lsts is not None:
        kw["lsts"] = lsts.copy()
    if rep:
        kw.update(rephase=True, freqs=freqs, bl_vec=enu[0] - enu[1])
    if case["rephase"] and lsts is None:
        with expect_raises((AssertionError,), "rephasing without LSTs"):
            frf.timeavg_waterfall(d, navg, rephase=True, verbose=False)
    if not case["fnone"]:
        kw["flags"] = f.copy()
    if case["ns"] != "none":
        kw["nsamples"] = n.copy()
    x = rng.normal(size=nt)
    d0 = d.copy()
    ad, af, an, al, ea = quiet(frf.timeavg_waterfall, d, navg, wgt_by_nsample=case["wt"] == "ns", wgt_by_favg_nsample=case["wt"] == "favg", extra_arrays={"x": x, "t": np.arange(nt)}, verbose=False, **kw)
    same(d, d0, "caller's data")
    if lsts is not None:
        same(kw["lsts"], lsts0, "caller's LSTs")
    D, FL, N, L, edges = ref_avg(d, f, n, case["wt"], navg, lsts, (enu[0], enu[1], freqs, -30.72152 if case["lat"] is None else case["lat"]) if rep else None)
    # where every weight is zero the average is not defined
    close(ad, D, f"average with {case['wt']} weights and windows of {navg}", rtol=1e-9, atol=1e-9)
    same(af, FL, "averaged flags")
    close(an, N, "averaged nsamples", rtol=1e-12, atol=1e-12)
    if lsts is not None:
        close(np.exp(1j * al), np.exp(1j * L), "averaged LSTs", rtol=0, atol=1e-9)
        require(np.all((al >= 0) & (al < TWOPI)), "averaged LSTs in range")
    for nm, src in (("x", x), ("t", np.arange(nt))):
        close(np.asarray(ea["avg_" + nm]), np.array([src[s:e].mean() for s, e in edges]), f"averaged {nm}", rtol=1e-12, atol=1e-12)
    for bad in (0, nt + 1):
        with expect_raises((AssertionError,), f"a window of {bad} of {nt}"):
            frf.timeavg_waterfall(d, bad, verbose=False)
    with expect_raises((ValueError,), "two weightings"):
        frf.timeavg_waterfall(d, 1, wgt_by_nsample=True, wgt_by_favg_nsample=True, verbose=False)
    ctx.label(f"rephase={rep}", f"wt={case['wt']}", "partial" if nt % navg else "even")
    ctx.nontrivial(nt > navg > 1)


# ---------------------------------------------------------------- objects and files
class World:
    """A few baselines around one LST; the arrays are the truth."""

    def __init__(self, case, tmp, tones=None, amp=1.0):
        rng = rng_of(case["seed"], "world")
        self.nt, self.nf = case["nt"], case["nf"]
        self.enu = {a: np.append(rng.uniform(-1, 1, size=2) * case.get("size", 60), rng.uniform(-1, 1)) for a in range(3)}
        if case.get("near"):      # (0, 1) and (1, 2) are nearly redundant
            self.enu[2] = 2 * self.enu[1] - self.enu[0] + np.array([0.8, -0.4, 0.0])
        self.dt = case.get("dt", 10.7)
        t0 = jd_for_lst(case["lst"], 0)
        self.times = t0 + (np.arange(self.nt) - self.nt // 2) * self.dt / 86400
        self.freqs = freqs_of(self.nf, df=case.get("df", 1e6))
        self.pols = case["pols"]
        pairs = [(0, 1), (2, 0), (1, 2), (1, 1)][:case["nbl"]]
        self.uvd = quiet(make_uvd, self.enu, pairs, self.pols, self.times, self.freqs, seed=case["seed"] % 2**31, flag_frac=case.get("p", 0.2), time_fast=flag_of(case))
        if tones is not None:
            tones(self)
        self.lsts = np.array([self.uvd.lst_array[self.uvd.time_array == t][0] for t in self.times])
        self.truth = truth(self.uvd, self.pols)
        self.path = os.path.join(tmp, "in.uvh5")
        quiet(self.uvd.write_uvh5, self.path, clobber=True)
        self.lat = float(self.uvd.telescope.location.lat.deg)


def flag_of(case):
    return bool(case["seed"] & 1)


def gen_world(draw, ntmin=2, ntmax=8, nbl=3):
    return dict(nt=ints(draw, ntmin, ntmax), nf=ints(draw, 2, 4), lst=pick(draw, [0.0, 0.0, 1.5, 4.0]), pols=pick(draw, [["ee"], ["ee", "nn"], ["ee", "nn", "en", "ne"]]), nbl=ints(draw, 1, nbl), seed=seed(draw))


def gen_hist(draw):
    return dict(gen_world(draw), steps=[dict(navg=pick(draw, [1, 2, 3, 20]), frac=pick(draw, [0.0, 0.2, -0.2]), keys=pick(draw, [None, 0, 1]), over=flag(draw), pre=pick(draw, ["avg", "other"]), post=pick(draw, ["", "", "b"]), wt=pick(draw, ["ns", "favg", "uni"]),
                                             rephase=flag(draw), plain=flag(draw)) for _ in range(ints(draw, 1, 4))])


def check_hist(case, ctx):
    from hera_cal import frf
    W = World(case, ctx.tmp())
    F = quiet(frf.FRFilter, W.path)
    quiet(F.read)
    model = {}
    skipped = False
    for st in case["steps"]:
        keys = None if st["keys"] is None else [k for n, k in enumerate(sorted(W.truth)) if n % 2 == st["keys"]]
        if keys == []:
            continue
        navg = min(W.nt, st["navg"])
        kw = {} if st["plain"] else dict(flags=F.flags, nsamples=F.nsamples)
        quiet(F.timeavg_data, F.data, F.times, F.lsts, (st["navg"] + st["frac"]) * W.dt, wgt_by_nsample=st["wt"] == "ns", wgt_by_favg_nsample=st["wt"] == "favg", rephase=st["rephase"], verbose=False, output_prefix=st["pre"],
              output_postfix=st["post"], keys=keys, overwrite=st["over"], **kw)
        require(F.Navg == navg, f"Navg {F.Navg} for {st['navg'] + st['frac']} integrations of {W.nt}")
        m = model.setdefault((st["pre"], st["post"]), dict(t=None, l=None, v={}))
        for k in (sorted(W.truth) if keys is None else keys):
            if k in m["v"] and not st["over"]:
                skipped = True
                continue
            d, f, n = W.truth[k]
            if st["plain"]:
                f, n = np.zeros_like(f), np.ones_like(n)
            D, FL, N, L, edges = ref_avg(d, f, n, st["wt"], navg, W.lsts, (W.enu[k[0]], W.enu[k[1]], W.freqs, W.lat) if st["rephase"] else None)
            m["v"][k] = (D, FL, N)
            m["t"], m["l"] = np.array([W.times[s:e].mean() for s, e in edges]), L
    for (pre, post), m in model.items():
        nm = [f"{pre}_{x}_{post}" if post else f"{pre}_{x}" for x in ("data", "flags", "nsamples", "times", "lsts")]
        d, f, n, t, l = (getattr(F, x) for x in nm)
        require(set(d.keys()) == set(m["v"]), f"{nm[0]} holds {sorted(d.keys())}, expected {sorted(m['v'])}")
        for k, (D, FL, N) in m["v"].items():
            close(d[k], D, f"{nm[0]} of {k}", rtol=1e-6, atol=1e-6)
            same(f[k], FL, f"{nm[1]} of {k}")
            close(n[k], N, f"{nm[2]} of {k}", rtol=1e-6, atol=1e-6)
        require(np.shape(t) == np.shape(m["t"]) and t.dtype == float, f"{nm[3]} is {t!r} after {case['steps']}")
        close((t - W.times[0]) * 86400, (m["t"] - W.times[0]) * 86400, nm[3], rtol=0, atol=1e-3)
        close(np.exp(1j * l), np.exp(1j * m["l"]), nm[4], rtol=0, atol=1e-8)
    for k in W.truth:
        same(F.data[k], W.truth[k][0], "object's data")
        same(F.flags[k], W.truth[k][1], "object's flags")
    ctx.label(f"steps={len(case['steps'])}", "skipped" if skipped else "")
    ctx.nontrivial(len(model) > 1 or skipped)


def gen_write(draw):
    return dict(gen_world(draw, ntmin=4, ntmax=12), navg=pick(draw, [1, 2, 3]), nint=pick(draw, [1, 1, 2, 3]), eqt=flag(draw), eqn=flag(draw), wt=pick(draw, ["ns", "favg", "uni"]), rephase=flag(draw), sub=flag(draw), fout=flag(draw))


def check_write(case, ctx):
    from hera_cal import frf
    from pyuvdata import UVFlag
    tmp = ctx.tmp()
    W = World(case, tmp)
    ni = case["nint"]
    keys = sorted(W.truth)
    bls = None
    if case["sub"]:
        bls = sorted({k[:2] for k in keys})[:1]
        keys = [k for k in keys if k[:2] in bls]
    if W.nt // ni < 2:
        ctx.label("too short")
        return
    out = os.path.join(tmp, "out.uvh5")
    fout = os.path.join(tmp, "fl.h5") if case["fout"] else None
    t_avg = case["navg"] * ni * W.dt
    kw = dict(baseline_list=bls, wgt_by_nsample=case["wt"] == "ns", wgt_by_favg_nsample=case["wt"] == "favg", rephase=case["rephase"], flag_output=fout, ninterleave=ni, equalize_interleave_times=case["eqt"], equalize_interleave_ntimes=case["eqn"])
    quiet(frf.time_avg_data_and_write, W.path, out, t_avg, **kw)
    sets = [np.arange(W.nt)[i::ni] for i in range(ni)]
    R = []
    for s in sets:
        navg = min(case["navg"], len(s))
        r = {k: ref_avg(W.truth[k][0][s], W.truth[k][1][s], W.truth[k][2][s], case["wt"], navg, W.lsts[s], (W.enu[k[0]], W.enu[k[1]], W.freqs, W.lat) if case["rephase"] else None) for k in keys}
        R.append((r, np.array([W.times[s][a:b].mean() for a, b in r[keys[0]][4]]), r[keys[0]][3]))
    nmin = min(len(t) for _, t, _ in R)
    paths = [out] if ni == 1 else [out.replace(".uvh5", f".interleave_{i}.uvh5") for i in range(ni)]
    for i, p in enumerate(paths):
        r, t, l = R[i]
        cut = nmin if ni > 1 and (case["eqt"] or case["eqn"]) else len(t)
        t, l = t[:cut], l[:cut]
        if ni > 1 and case["eqt"]:
            t = np.mean([x[1][:cut] for x in R], axis=0)
            l = np.angle(np.mean([np.exp(1j * x[2][:cut]) for x in R], axis=0)) % TWOPI
        c, freqs, u = contents(p)
        same(freqs, W.freqs, "frequencies")
        require(len(c) == len(keys), f"{sorted(c)} written, expected {keys}")
        for k in keys:
            tt, d, f, n = lookup(c, k)
            D, FL, N = (x[:cut] for x in r[k][:3])
            require(len(tt) == cut, f"{len(tt)} times written, expected {cut}")
            close((tt - W.times[0]) * 86400, (t - W.times[0]) * 86400, f"times of interleave {i} of {ni}", rtol=0, atol=1e-2)
            close(d, D, f"data of {k} in interleave {i}", rtol=1e-5, atol=1e-5)
            same(f, FL, f"flags of {k} in interleave {i}")
            close(n, N, f"nsamples of {k} in interleave {i}", rtol=1e-5, atol=1e-5)
            rows = np.where((u.ant_1_array == k[0]) & (u.ant_2_array == k[1]))[0]
            rows = rows[np.argsort(u.time_array[rows])]
            if len(rows):
                close(np.exp(1j * u.lst_array[rows]), np.exp(1j * l), f"LSTs of {k} in interleave {i} (equal times {case['eqt']})", rtol=0, atol=1e-6)
        if fout:
            w = quiet(UVFlag, fout if ni == 1 else fout.replace(".h5", f".interleave_{i}.h5"))
            same(np.squeeze(w.flag_array, axis=-1), np.all([r[k][1][:cut] for k in keys], axis=0), "written flag waterfall")
    with expect_raises((OSError, IOError), "an existing output"):
        quiet(frf.time_avg_data_and_write, W.path, out, t_avg, **kw)
    ctx.label(f"nint={ni}", f"eqt={case['eqt']}", f"rephase={case['rephase']}")
    ctx.nontrivial(ni > 1 or case["navg"] > 1)


# ---------------------------------------------------------------- convolutions
def gen_fir(draw):
    return dict(nt=ints(draw, 1, 9), nf=ints(draw, 1, 7), axis=pick(draw, [0, 1]), oned=flag(draw), wgts=flag(draw), ni=ints(draw, 1, 4), seed=seed(draw))


def check_fir(case, ctx):
    from hera_cal import frf
    rng = rng_of(case["seed"])
    nt, nf, ax = case["nt"], case["nf"], case["axis"]
    d = rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
    w = rng.random((nt, nf)) if case["wgts"] else None
    n = (nt, nf)[ax]
    fir = rng.normal(size=n) + 1j * rng.normal(size=n) if case["oned"] else rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
    got = frf.apply_fir(d, fir, wgts=w, axis=ax)
    exp = np.zeros((nt, nf), complex)
    W = np.ones((nt, nf)) if w is None else w
    FIR = np.broadcast_to(fir[:, None] if ax == 0 else fir[None, :], (nt, nf)) if case["oned"] else fir
    for i in range(nt):
        for j in range(nf):
            o, m = ((i, j)[ax], (i, j)[1 - ax])
            for q in range(n):
                s = o - q + (n - 1) // 2
                if 0 <= s < n:
                    a = (q, m) if ax == 0 else (m, q)
                    b = (s, m) if ax == 0 else (m, s)
                    exp[i, j] += d[a] * W[a] * FIR[b]
    close(got, exp, f"convolution along axis {ax}", rtol=1e-9, atol=1e-9)
    # profiles <-> filters
    frp = rng.normal(size=n) if case["oned"] else rng.normal(size=(nt, nf))
    axx = 0 if case["oned"] else ax
    fir, bins = frf.frp_to_fir(frp, delta_bin=0.7, axis=axx)
    freqs = (np.arange(n) - n // 2) / (n * 0.7)
    require(bins is not None and np.shape(bins) == (n,), f"bins {np.shape(bins)} for {n} samples along axis {axx} of {frp.shape}")
    close(bins, freqs, "bins", rtol=1e-9, atol=1e-12)
    t = (np.arange(n) - n // 2) * 0.7
    E = np.exp(2j * np.pi * np.outer(t, freqs)) / n
    close(fir, E @ frp if axx == 0 else frp @ E.T, "filter of a profile", rtol=1e-9, atol=1e-9)
    back, _ = frf.frp_to_fir(fir, axis=axx, undo=True)
    close(back, frp + 0j, "profile of the filter of a profile", rtol=1e-9, atol=1e-9)
    require(_ is None, "bins without a bin width")
    na = rng.random(frp.shape) + 0.1
    s = frp ** 2
    close(frf.fr_tavg(frp, axis=axx), n / s.sum(axis=axx, keepdims=True), "integration ratio", rtol=1e-9, atol=0)
    close(frf.fr_tavg(frp, noise_amp=na, axis=axx), (na ** 2).sum(axis=axx, keepdims=True) / (s * na ** 2).sum(axis=axx, keepdims=True), "integration ratio with noise", rtol=1e-9, atol=0)
    # interleaves
    times = np.arange(nt) * 1.5
    if nt < case["ni"]:
        with expect_raises((ValueError,), "more interleaves than times"):
            frf.deinterleave_data_in_time(times, d, ninterleave=case["ni"])
    else:
        ts, ds = frf.deinterleave_data_in_time(times, d, ninterleave=case["ni"])
        require(len(ts) == len(ds) == case["ni"], "number of interleaves")
        for i in range(case["ni"]):
            same(ts[i], np.array([x for q, x in enumerate(times) if q % case["ni"] == i]), "times of an interleave")
            same(ds[i], np.array([x for q, x in enumerate(d) if q % case["ni"] == i]), "data of an interleave")
        same(frf.interleave_data_in_time(ds), d, "interleaved again")
        same(frf.interleave_data_in_time(ts), times, "times interleaved again")
    ctx.label(f"axis={ax}", f"oned={case['oned']}")
    ctx.nontrivial(nt > 1 and nf > 1)


# ---------------------------------------------------------------- fringe rates of the sky
def gen_frates(draw):
    return dict(lay=pick(draw, ["random", "ew", "ns", "grid"]), lat=pick(draw, [LAT, LAT, 10.0, 60.0, 0.001]), mult=pick(draw, [1.0, 0.5, 2.0]), off=pick(draw, [0.0, 0.1]), lo=pick(draw, [0.025, 0.0, 0.5]), hi=pick(draw, [np.inf, 0.7]), nf=ints(draw, 1, 4),
                c=pick(draw, [[0.024, 0.03], [0.02, -0.5], [0.0, 0.4]]), keys=pick(draw, ["all", "some", "rev"]), seed=seed(draw))


def check_frates(case, ctx):
    from hera_cal import frf
    rng = rng_of(case["seed"])
    P = {}
    for a in range(4):
        P[a] = {"random": rng.uniform(-80, 80, size=3) * [1, 1, 0], "ew": np.array([14.6 * a, 0, 0]), "ns": np.array([0, 14.6 * a, 0]), "grid": np.array([14.6 * (a % 2), 14.6 * (a // 2), 0])}[case["lay"]]
    freqs = 1e8 + 3e7 * np.sort(rng.random(case["nf"]))

    class Loc:
        class lat:
            rad = np.deg2rad(case["lat"])

    class Tel:
        location = Loc
        antenna_numbers = np.array([0, 1, 2, 3])

        @staticmethod
        def get_enu_antpos():
            return np.array([P[a] for a in range(4)])

    keys = [(a, b, "ee") for a in range(4) for b in range(a, 4)]

    class U:
        freq_array = freqs
        telescope = Tel

        @staticmethod
        def get_antpairpols():
            return keys
    use = keys if case["keys"] == "all" else keys[::2] if case["keys"] == "some" else [(b, a, p) for a, b, p in keys]
    cen, hw = frf.sky_frates(U, keys=None if case["keys"] == "all" else use, frate_standoff=case["off"], frate_width_multiplier=case["mult"], min_frate_half_width=case["lo"], max_frate_half_width=case["hi"])
    # brute force: the visible sky, turned a little about the pole
    lat = np.deg2rad(case["lat"])
    za, az = np.meshgrid(np.linspace(0, np.pi / 2, 181), np.linspace(0, 2 * np.pi, 361))
    s = np.stack([np.sin(za) * np.sin(az), np.sin(za) * np.cos(az), np.cos(za)], axis=-1).reshape(-1, 3)
    pole = np.array([0, np.cos(lat), np.sin(lat)])
    ds = -np.cross(pole, s) * 2 * np.pi / 86164.0905       # the sky turns westwards
    for k in use:
        b = P[k[0]] - P[k[1]]
        fr = -np.outer(freqs, ds @ b / C) * 1e3             # mHz: V = exp(-2 pi i nu b.s/c)
        lo, hi = fr.min(), fr.max()
        scale = max(abs(lo), abs(hi), 1e-9)
        close(cen[k], (lo + hi) / 2, f"fringe-rate centre of {k} ({b})", rtol=0, atol=0.003 * scale)
        w = (hi - lo) / 2 * case["mult"] + case["off"]
        w = min(max(w, case["lo"]), case["hi"])
        close(hw[k], w, f"fringe-rate half width of {k} ({b})", rtol=0.003, atol=0.003 * scale)
        r = (k[1], k[0], k[2])
        close(cen[r], -cen[k], f"centre of the reversed baseline {r}", rtol=1e-12, atol=0)
        close(hw[r], hw[k], f"half width of the reversed baseline {r}", rtol=1e-12, atol=0)
        c1, h1 = frf.sky_frates_single(freqs, b, lat)
        for q in range(len(freqs)):
            close(c1[q], (fr[q].min() + fr[q].max()) / 2, f"centre at channel {q}", rtol=0, atol=0.003 * scale)
            close(h1[q], (fr[q].max() - fr[q].min()) / 2, f"half width at channel {q}", rtol=0.003, atol=0.003 * scale)
    blv = {k[:2]: P[k[0]] - P[k[1]] for k in use}
    c2, h2 = frf.select_tophat_frates(blv, "max_frate_coeffs", keys=use, max_frate_coeffs=case["c"], min_frate_half_width=case["lo"], max_frate_half_width=case["hi"])
    for k in use:
        w = max(case["c"][0] * abs(blv[k[:2]][0]) + case["c"][1], 0)
        require(c2[k] == 0, "centre with max_frate_coeffs")
        close(h2[k], max(case["lo"], min(case["hi"], w)), f"half width with max_frate_coeffs of {k}", rtol=1e-12, atol=0)
    c3, h3 = frf.select_tophat_frates(blv, "sky", uvd=U, keys=use, frate_standoff=case["off"], frate_width_multiplier=case["mult"], min_frate_half_width=case["lo"], max_frate_half_width=case["hi"])
    require(all(c3[k] == cen[k] and h3[k] == hw[k] for k in use), "select_tophat_frates for the sky")
    ctx.label(case["lay"], case["keys"])
    ctx.nontrivial(case["lay"] != "ns")


# ---------------------------------------------------------------- noise covariance
def gen_noise(draw):
    return dict(nt=ints(draw, 8, 16), nf=ints(draw, 1, 3), navg=pick(draw, [2, 3, 4]), p=pick(draw, [0.0, 0.2]), nsw=flag(draw), rephase=flag(draw), avg=pick(draw, [True, True, False]), fc=pick(draw, [0.0, 1.5e-3, -2e-3]), fw=pick(draw, [3e-3, 6e-3]),
                tsl=pick(draw, ["none", "full", "mid", "open", "neg", "step", "mask"]), seed=seed(draw))


def check_noise(case, ctx):
    from hera_cal import frf
    from hera_filters import dspec
    rng = rng_of(case["seed"])
    nt, nf, navg = case["nt"], case["nf"], case["navg"]
    dt = 30.0
    times = np.arange(nt) * dt
    freqs = 1.2e8 + 5e6 * np.arange(nf)
    enu = [rng.normal(size=3) * [40, 40, 1], rng.normal(size=3) * [40, 40, 1]]
    f = rng.random((nt, nf)) < case["p"]
    ns = np.where(f, 0, rng.integers(1, 5, size=(nt, nf))).astype(float)
    W = (~f).astype(float)
    lst = (times - times.mean()) * 2 * np.pi / 86164.0905 + 3
    dl = np.concatenate([lst[s:s + navg].mean() - lst[s:s + navg] for s in range(0, nt, navg)])
    A, _ = dspec.dpss_operator(times, np.array([case["fc"]]), np.array([case["fw"]]), eigenval_cutoff=np.array([1e-9]))
    if A.shape[1] >= (~f).sum(axis=0).min():
        ctx.label("underdetermined")
        return
    op = quiet(frf.get_frop_for_noise, times, case["fc"], case["fw"], freqs, t_avg=navg * dt, weights=W, coherent_avg=case["avg"], wgt_tavg_by_nsample=case["nsw"], nsamples=ns, rephase=case["rephase"], bl_vec=enu[0] - enu[1], lat=LAT, dlst=dl.copy())
    d = rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
    sm = np.zeros_like(d)
    bad = False
    for q in range(nf):
        L = A.T.conj() * W[:, q]
        bad = bad or np.linalg.cond(L @ A) > 1e7
        sm[:, q] = A @ np.linalg.solve(L @ A, L @ d[:, q])
    if bad:
        ctx.label("ill conditioned")
        return
    got = np.einsum("Ttf,tf->Tf", op, d)
    if case["avg"]:
        exp = ref_avg(sm, f, ns if case["nsw"] else np.ones_like(ns), "ns", navg, lst, (enu[0], enu[1], freqs, LAT) if case["rephase"] else None)[0]
    else:
        exp = sm
    close(got, exp, "filtered and averaged data by the operator", rtol=1e-6, atol=1e-6)
    var = rng.random((nt, nf)) + 0.1
    cov = frf.get_FRF_cov(op, var)
    for q in range(nf):
        close(cov[q], op[:, :, q] @ np.diag(var[:, q]) @ op[:, :, q].conj().T, "noise covariance", rtol=1e-9, atol=1e-12)
    diag = np.array([np.real(np.diag(c)) for c in cov])
    if diag.min() < 1e-8:
        ctx.label("an empty window")
        return
    corr = frf.get_corr(cov)
    n = cov.shape[1]
    for q in range(nf):
        for a in range(n):
            for b in range(n):
                close(corr[q, a, b], cov[q, a, b] / np.sqrt(diag[q, a] * diag[q, b]), "correlation", rtol=1e-9, atol=1e-12)
    mask = rng.random(n) < 0.6
    mask[0] = True
    tsl = {"none": None, "full": slice(0, n), "mid": slice(1, n - 1) if n > 3 else slice(0, n), "open": slice(None, n - 1), "neg": slice(0, -1), "step": slice(0, n, 2), "mask": mask}[case["tsl"]]
    idx = np.arange(n) if tsl is None else np.arange(n)[tsl]
    if len(idx):
        fac = np.mean([np.sum(np.abs(corr[q][np.ix_(idx, idx)]) ** 2) / len(idx) for q in range(nf)])
        close(frf.get_correction_factor_from_cov(cov, tslc=tsl), fac, f"correction factor with {tsl}", rtol=1e-9, atol=0)
    # design matrix of the coherent average: same windows and weights, phases of the opposite baseline orientation
    new = np.array([times[s:s + navg].mean() for s in range(0, nt, navg)])
    keep = np.array([s + navg <= nt for s in range(0, nt, navg)])
    M = quiet(frf.get_coherent_avg_design_matrix, enu[1] - enu[0], np.deg2rad(LAT), freqs, times, new[keep], ns.T.copy(), navg * dt, f.T.copy())
    exp = ref_avg(d, f, ns, "ns", navg, times * 2 * np.pi / 86164.0905 + 1, (enu[0], enu[1], freqs, LAT))[0][keep]
    ok = np.array([ns[s:s + navg].sum(axis=0) > 0 for s in range(0, nt, navg)])[keep]
    got = np.einsum("fTt,tf->Tf", M, d)
    close(got[ok], exp[ok], "coherent average by the design matrix", rtol=1e-6, atol=1e-6)
    require(np.all(np.isfinite(M)), "the design matrix is not finite where a window has no samples")
    ctx.label(f"avg={case['avg']}", case["tsl"], "partial" if nt % navg else "even")
    ctx.nontrivial(nt > navg)


# ---------------------------------------------------------------- variances for the operator
def gen_var(draw):
    return dict(nt=ints(draw, 2, 5), nf=ints(draw, 2, 6), p=pick(draw, [0.0, 0.3]), wt=pick(draw, ["zero", "one", "all"]), sl=pick(draw, ["all", "mid"]), dv=pick(draw, [0.0, 5.0]), seed=seed(draw))


def check_var(case, ctx):
    import warnings
    from hera_cal import datacontainer, frf
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    k = (0, 1, "ee")
    D = {(0, 0, "ee"): rng.random((nt, nf)) + 1 + 0j, (1, 1, "ee"): rng.random((nt, nf)) + 1 + 0j, k: np.zeros((nt, nf), complex)}
    dc = datacontainer.DataContainer(D)
    dc.times, dc.freqs = 2458838 + np.arange(nt) * 10.0 / 86400, 1.2e8 + 1e5 * np.arange(nf)
    dc.times_by_bl = {q: dc.times for q in [(0, 0), (1, 1), (0, 1), (1, 0)]}
    n = rng.integers(1, 5, size=(nt, nf)).astype(float)
    z = rng.random((nt, nf)) < case["p"]
    n[z] = 0
    ns = datacontainer.DataContainer({k: n})
    w = np.where(z, 0.0, 1.0)
    if case["wt"] == "all":
        w[:] = 1
    elif case["wt"] == "one" and z.any():
        a = np.argwhere(z)
        w[tuple(a[int(rng.integers(len(a)))])] = 1.0
    wt = datacontainer.DataContainer({k: w})
    sl = slice(None) if case["sl"] == "all" else slice(1, nf - 1) if nf > 2 else slice(0, 1)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        with np.errstate(divide="ignore", invalid="ignore"):
            got = frf.prep_var_for_frop(dc, ns, wt, k, sl, default_value=case["dv"])
    with np.errstate(divide="ignore"):
        exp = np.where(z, case["dv"], np.abs(D[(0, 0, "ee")]) * np.abs(D[(1, 1, "ee")]) / 10.0 / 1e5 / n)
    close(got, exp[:, sl], "noise variance for the operator", rtol=1e-5, atol=0)
    told = any("nonfinite variance" in str(r.message) for r in rec)
    should = bool((w[:, sl][z[:, sl]] > 0).any())
    require(told == should, f"warned: {told}, although {int((w[:, sl][z[:, sl]] > 0).sum())} of {int(z[:, sl].sum())} nonfinite variances carry weight")
    ctx.label(case["wt"], f"warn={should}")
    ctx.nontrivial(z.any())


# ---------------------------------------------------------------- filtering
def gen_tophat(draw):
    return dict(gen_world(draw, ntmin=40, ntmax=60, nbl=4), dt=60.0, mode=pick(draw, ["dpss_leastsq", "dpss_solve", "dpss_leastsq", "clean"]), pre=pick(draw, [False, False, True]), fr=[pick(draw, [-1.2, 0.0, 0.8, 1.5]) for _ in range(4)],
                out=pick(draw, [1.8, 2.5]), hw=pick(draw, [0.4, 0.5]), p=0.0, gaps=flag(draw), post=pick(draw, [None, "x"]), skipt=flag(draw), owndata=flag(draw), sub=flag(draw))


def tones_of(case, w):
    """per stored baseline: an in-filter tone and an out-of-filter tone, per channel"""
    rng = rng_of(case["seed"], "tones")
    u = w.uvd
    ks = (w.times - w.times[0]) * 86164.0905 / 1e3 if False else w.times * 86164.09053083288 * 1e-3
    w.parts = {}
    flags = u.flag_array
    flags[:] = False
    pairs = sorted(set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist())))
    t = ks - ks.mean()
    w.ks = ks
    for n, (i, j) in enumerate(pairs):
        rows = np.where((u.ant_1_array == i) & (u.ant_2_array == j))[0]
        rows = rows[np.argsort(u.time_array[rows], kind="stable")]
        fr = case["fr"][n] if i != j else 0.0
        for m, p in enumerate(w.pols):
            a = rng.normal(size=w.nf) + 1j * rng.normal(size=w.nf)
            b = rng.normal(size=w.nf) + 1j * rng.normal(size=w.nf)
            if i == j:
                a, b = np.abs(a) + 1, 0 * b
            inn = np.exp(2j * np.pi * t * (fr + (0.25 * case["hw"] if i != j else 0)))[:, None] * a
            oth = np.exp(2j * np.pi * t * (fr + (case["out"] if fr < 0 else -case["out"])))[:, None] * b
            twin = w.parts.get((i, j, p[::-1])) if i == j and p[0] != p[1] else None     # en and ne of an autocorrelation share one entry
            if twin is not None:
                inn, oth = twin[0].conj(), twin[1].conj()
            w.parts[(i, j, p)] = (inn, oth, fr)
            u.data_array[rows, :, m] = inn + oth
            if case["gaps"]:
                g = rng.random((w.nt, w.nf)) < 0.1
                if twin is not None:
                    g = flags[rows, :, w.pols.index(p[::-1])]
                flags[rows, :, m] = g
                d = u.data_array[rows, :, m]
                d[g] = 77.0
                u.data_array[rows, :, m] = d


def check_tophat(case, ctx):
    from hera_cal import frf, datacontainer
    from hera_filters import dspec
    W = World(case, ctx.tmp(), tones=lambda w: tones_of(case, w))
    F = quiet(frf.FRFilter, W.path)
    quiet(F.read)
    keys = [k for k in sorted(W.truth) if k[0] != k[1] or k[2] != "ne"]      # one entry with en
    if case["sub"]:
        keys = keys[::2]
    cen = {k: W.parts[k][2] for k in W.parts}
    hw = {k: case["hw"] for k in W.parts}
    kw = dict(eigenval_cutoff=[1e-9]) if case["mode"] != "clean" else dict(maxiter=300, gain=0.3, tol=1e-4)
    if case["post"]:
        kw["output_postfix"] = case["post"]
    if case["owndata"]:
        kw["data"], kw["flags"] = F.data, F.flags
    pre = case["pre"] and case["mode"] != "clean"
    quiet(F.tophat_frfilter, cen, hw, keys=keys if case["sub"] else None, mode=case["mode"], skip_wgt=0.1, pre_filter_modes_between_lobe_minimum_and_zero=pre, times=None if not case["skipt"] else W.ks, **kw)
    x = "_" + case["post"] if case["post"] else ""
    mdl, res, dat, fl, rf = (getattr(F, f"clean_{q}{x}") for q in ("model", "resid", "data", "flags", "resid_flags"))
    require(set(mdl.keys()) == set(keys), f"filtered {sorted(mdl.keys())}, expected {keys}")
    for k in W.truth:
        d, f, _ = W.truth[k]
        close(F.data[k], d, f"the object's data of {k} after filtering (prefilter {pre}, centre {cen[k]})", rtol=1e-6, atol=1e-6)
        same(F.flags[k], f, "the object's flags")
    t = W.ks - W.ks.mean()
    for k in keys:
        d, f, _ = W.truth[k]
        inn, oth, fr = W.parts[k]
        skip = fl[k]
        good = ~f & ~skip
        require(not skip.any() or f.mean(axis=0).max() > 0.5, f"{skip.sum()} samples of {k} skipped")
        same(rf[k], f | skip, f"residual flags of {k}")
        close(dat[k], mdl[k] + res[k], "filtered data = model + residual", rtol=1e-6, atol=1e-6)
        if not (pre and abs(fr) > case["hw"]):
            close((mdl[k] + res[k])[good], d[good], f"model + residual of {k} at unflagged samples", rtol=1e-5, atol=1e-5)
            require(np.all(res[k][f] == 0), "residual under flags")
        if case["mode"] != "clean" and not (pre and abs(fr) > case["hw"]):
            A, _ = dspec.dpss_operator(W.ks, np.array([0.0]), np.array([case["hw"]]), eigenval_cutoff=np.array([1e-9]))
            ph = np.exp(2j * np.pi * t * fr)
            for q in range(W.nf):
                w = (~f[:, q]).astype(float)
                L = A.T.conj() * w
                m = A @ np.linalg.solve(L @ A, L @ (d[:, q] / ph)) * ph
                if k[0] == k[1]:
                    m = np.real(m) if k[2][0] == k[2][1] else m
                close(mdl[k][:, q], m, f"model of {k} at channel {q}", rtol=1e-4, atol=1e-4 * np.abs(d).max())
        c = slice(5, -5)
        if case["mode"] != "clean" and k[0] != k[1] and not pre and not case["gaps"]:
            # the tone inside the filter is kept, the tone outside goes to the residual
            err = np.abs(mdl[k][c] - inn[c]).max() / (np.abs(inn).max() + np.abs(oth).max())
            require(err < 0.35, f"the model of {k} differs from the in-filter tone by {err:.2f} (centre {fr})")
    ctx.label(case["mode"], f"pre={pre}", f"gaps={case['gaps']}")
    ctx.nontrivial(len(keys) > 1)


def gen_file(draw):
    return dict(gen_world(draw, ntmin=40, ntmax=60, nbl=4), dt=60.0, fr=[pick(draw, [-1.2, 0.0, 0.8, 1.5]) for _ in range(4)], out=2.5, hw=0.5, p=0.0, gaps=flag(draw), case=pick(draw, ["param_file", "max_frate_coeffs", "sky"]), rev=flag(draw),
                ni=pick(draw, [1, 1, 2]), per=pick(draw, [None, 1, 2]), skip=flag(draw), onepol=flag(draw), spw=flag(draw), nsw=flag(draw), black=pick(draw, [None, None, 0.0, 0.3]), pre=pick(draw, [False, False, True]), bls=flag(draw), outs=pick(draw, [7, 7, 1, 2, 4]))


def check_file(case, ctx):
    import yaml
    from hera_cal import frf
    from hera_filters import dspec
    tmp = ctx.tmp()
    W = World(case, tmp, tones=lambda w: tones_of(case, w))
    ni = case["ni"]
    pairs = sorted({k[:2] for k in W.truth})
    keys = sorted(W.truth)
    kw = {}
    if case["onepol"]:
        kw["polarizations"] = W.pols[:1]
        keys = [k for k in keys if k[2] == W.pols[0]]
    if case["bls"]:
        kw["baseline_list"] = pairs[:2]
        keys = [k for k in keys if k[:2] in pairs[:2]]
    elif case["per"]:
        kw["Nbls_per_load"] = case["per"]
    ch = np.arange(W.nf)
    if case["spw"]:
        kw["spw_range"] = (1, W.nf)
        ch = ch[1:]
    cen = {k: W.parts[k][2] for k in W.parts}
    hw = {k: case["hw"] + 0.05 * (k[0] + k[1]) for k in W.parts}
    if case["case"] == "param_file":
        info = {"filter_centers": {}, "filter_half_widths": {}}
        for i, j in pairs:
            rev = case["rev"] and i != j
            nm = str((j, i) if rev else (i, j))
            info["filter_centers"][nm] = float(-cen[(i, j, W.pols[0])] if rev else cen[(i, j, W.pols[0])])
            info["filter_half_widths"][nm] = float(hw[(i, j, W.pols[0])])
        kw["param_file"] = os.path.join(tmp, "p.yaml")
        with open(kw["param_file"], "w") as fh:
            yaml.dump(info, fh)
    elif case["case"] == "max_frate_coeffs":
        kw["max_frate_coeffs"] = (0.01, 0.2)
        for k in W.parts:
            cen[k], hw[k] = 0.0, max(0.025, 0.01 * abs(W.enu[k[0]][0] - W.enu[k[1]][0]) + 0.2)
    else:
        for k in W.parts:
            c, h = frf.sky_frates_single(W.freqs[ch], W.enu[k[0]] - W.enu[k[1]], np.deg2rad(W.lat))
            lo, hi = (c - h).min(), (c + h).max()
            cen[k], hw[k] = (lo + hi) / 2, max(0.025, (hi - lo) / 2)
    if case["black"] is not None:
        mid = W.lsts[W.nt // 3] * 12 / np.pi
        kw["lst_blacklists"], kw["blacklist_wgt"] = [((mid - 0.05) % 24, (mid + 0.05) % 24)], case["black"]
        dist = np.abs((W.lsts - W.lsts[W.nt // 3] + np.pi) % TWOPI - np.pi) * 12 / np.pi
        if np.abs(dist - 0.05).min() < 1e-4:
            return
    outs = {"res_outfilename": os.path.join(tmp, "r.uvh5"), "CLEAN_outfilename": os.path.join(tmp, "m.uvh5"), "filled_outfilename": os.path.join(tmp, "f.uvh5")}
    outs = {k: v for n, (k, v) in enumerate(outs.items()) if case["outs"] >> n & 1}
    quiet(frf.load_tophat_frfilter_and_write, W.path, case["case"], mode="dpss_solve", eigenval_cutoff=[1e-9], wgt_by_nsample=case["nsw"], skip_autos=case["skip"], ninterleave=ni, skip_wgt=0.0, pre_filter_modes_between_lobe_minimum_and_zero=case["pre"], **outs, **kw)
    C_ = {k: contents(v) for k, v in outs.items()}
    for nm, (c, freqs, u) in C_.items():
        same(freqs, W.freqs[ch], f"{nm}: frequencies")
        require(len(c) == len(keys), f"{nm}: {sorted(c)} written, expected {keys}")
    worst = 0
    for k in keys:
        d, f, n = (x[:, ch] for x in W.truth[k])
        M = np.zeros_like(d, dtype=complex)
        unw = np.zeros(d.shape, bool)
        ok = True
        for s in range(ni):
            ii = np.arange(W.nt)[s::ni]
            A, _ = dspec.dpss_operator(W.ks[ii], np.array([0.0]), np.array([hw[k]]), eigenval_cutoff=np.array([1e-9]))
            ph = np.exp(2j * np.pi * (W.ks[ii] - W.ks.mean()) * cen[k])
            for q in range(len(ch)):
                w = (~f[ii, q]).astype(float)
                if case["nsw"]:
                    w = w * n[ii, q]
                if case["black"] is not None:
                    w[dist[ii] <= 0.05] *= case["black"]
                unw[ii, q] = w == 0
                L = A.T.conj() * w
                S = L @ A
                if np.linalg.cond(S) > 1e6:
                    ok = False
                    continue
                M[ii, q] = A @ np.linalg.solve(S, L @ (d[ii, q] / ph)) * ph
        lobe = abs(cen[k]) > hw[k]
        if k[0] == k[1] and case["skip"]:
            M[:] = 0
            ok = True
        elif k[0] == k[1] and k[2][0] == k[2][1]:
            M = M.real
        if case["pre"] and lobe and not (k[0] == k[1] and case["skip"]):
            ok = False
        skipauto = k[0] == k[1] and case["skip"]
        sc = np.abs(d[~f]).max() if (~f).any() else 1.0
        for nm, (c, freqs, u) in C_.items():
            t, dd, ff, nn = lookup(c, k)
            same(t, W.times, f"{nm}: times")
            same(nn, n.astype(nn.dtype), f"{nm}: nsamples of {k}")
            what = f"{nm} of {k} (centre {cen[k]:.2f}, half width {hw[k]:.2f})"
            if nm.startswith("res"):
                same(ff, f, f"flags in {what}")
                if skipauto:
                    same(dd, d.astype(dd.dtype), what)
                elif ok:
                    close(np.where(unw & ~f, 0, dd), np.where(unw, 0, d - M), what, rtol=1e-3, atol=1e-3 * sc)
            elif nm.startswith("CLEAN"):
                same(ff, f if skipauto else np.zeros_like(f), f"flags in {what}")
                if ok:
                    close(dd, M, what, rtol=1e-3, atol=1e-3 * sc)
            else:
                same(ff, f if skipauto else np.zeros_like(f), f"flags in {what}")
                close(dd[~f], d[~f], f"unflagged data in {what}", rtol=1e-5, atol=1e-5)
                if ok:
                    close(dd[f], M[f], f"filled samples in {what}", rtol=1e-3, atol=1e-3 * sc)
        worst += ok
    ctx.label(case["case"], f"ni={ni}", f"judged={worst > 0}", f"per={case['per']}", f"pre={case['pre']}")
    ctx.nontrivial(worst > 1)


SUBS = [
    Sub("avg", gen_avg, check_avg, quick=400, thorough=8000),
    Sub("hist", gen_hist, check_hist, quick=100, thorough=2000, shards=2),
    Sub("write", gen_write, check_write, quick=60, thorough=1200, shards=2),
    Sub("fir", gen_fir, check_fir, quick=200, thorough=4000),
    Sub("frates", gen_frates, check_frates, quick=60, thorough=1500),
    Sub("noise", gen_noise, check_noise, quick=200, thorough=4000),
    Sub("var", gen_var, check_var, quick=150, thorough=3000),
    Sub("tophat", gen_tophat, check_tophat, quick=60, thorough=1500, shards=2),
    Sub("file", gen_file, check_file, quick=50, thorough=1200, shards=2),
]
