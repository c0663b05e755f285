"""C20: smoothing calibration solutions keeps smooth gains, ignores what has no weight, and writes what it smoothed."""
import os

import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import flag, ints, pick, seed, subset
from ..lstsim import TWOPI, quiet
from ..uvsim import freqs_of, make_cal, make_telescope

RULE = ("timefilt: random gains and weights through the rolling Gaussian average with 0-3 mirrorings; thresh: random per-antenna flags; lists: black lists; dpss: gains made of few "
        "slow modes times a delay with flags, edges, bands and phase flips through every 2D solver; oned: the same by rows; files: 1-3 calfits files (with gaps, missing antennas, any order, external "
        "flags) through CalibrationSmoother and back; object: one smoother whose antennas differ in edges, flags, black lists and phase flips, against each antenna alone. Non-trivial: some but not all weights are zero (or flags set); files: more than one file or flags.")
ASSUMPTIONS = ["DPSS fits are judged on gains well inside their pass band and away from long gaps", "CLEAN is judged to 3 per cent of the gain, DPSS to 0.6 per cent"]


# ---------------------------------------------------------------- rolling average
def gen_tf(draw):
    return dict(nt=ints(draw, 2, 7), nf=ints(draw, 1, 4), dt=pick(draw, [10.0, 100.0]), fwhm=pick(draw, [15.0, 60.0, 400.0, 3000.0]), mir=pick(draw, [0, 1, 1, 2, 3]), p=pick(draw, [0.0, 0.3, 0.7]),
                frac=flag(draw), seed=seed(draw))


def check_tf(case, ctx):
    """time_filter is the Gaussian-weighted mean over the (mirrored) times."""
    from hera_cal import smooth_cal
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    times = 2458838.2 + np.arange(nt) * case["dt"] / 86400
    g = rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
    w = (rng.random((nt, nf)) >= case["p"]).astype(float)
    if case["frac"]:
        w *= rng.uniform(0.2, 1, size=(nt, nf))
    g0, w0 = g.copy(), w.copy()
    got = quiet(smooth_cal.time_filter, g, w, times, filter_scale=case["fwhm"], nMirrors=case["mir"])
    same(g, g0, "caller's gains")
    same(w, w0, "caller's weights")
    # reflect without repeating the end points: an even extension of period 2 (nt - 1)
    n0 = nt
    before = 0
    for _ in range(case["mir"]):
        before, n0 = before + n0 - 1, 3 * n0 - 2
    pos = np.arange(-before, n0 - before)
    per = 2 * (nt - 1)
    idx = pos % per
    idx = np.where(idx >= nt, per - idx, idx)
    sig = case["fwhm"] / (2 * np.sqrt(2 * np.log(2)))
    dt = np.median(np.diff(times)) * 86400
    for t in range(nt):
        k = np.exp(-0.5 * ((pos - t) * dt / sig) ** 2)[:, None]
        den = (k * w[idx]).sum(axis=0)
        num = (k * w[idx] * g[idx]).sum(axis=0)
        ok = den > 1e-8 * k.max()
        close(got[t][ok], (num / np.where(ok, den, 1))[ok], f"rolling average at time {t} of {nt} with {case['mir']} mirrorings", rtol=1e-6, atol=1e-7)
    require(np.all(np.isfinite(got)), "the rolling average is not finite")
    ctx.label(f"mir={case['mir']}")
    ctx.nontrivial(case["fwhm"] > case["dt"] and 0 < (w > 0).sum() < w.size)


# ---------------------------------------------------------------- thresholds
def gen_thresh(draw):
    return dict(na=ints(draw, 1, 4), nt=ints(draw, 1, 8), nf=ints(draw, 1, 8), p=pick(draw, [0.1, 0.3, 0.5]), own=pick(draw, [0.0, 0.2]), bad=ints(draw, -1, 3), ft=pick(draw, [0.2, 0.35, 0.6, 1.0]),
                tt=pick(draw, [0.2, 0.5, 0.8, 1.0]), at=pick(draw, [0.2, 0.5, 0.9, 1.0]), rows=ints(draw, 0, 2), cols=ints(draw, 0, 2), seed=seed(draw))


def broadcast_ref(flags, ft, tt, at):
    """Thresholds applied until nothing changes."""
    common = np.all(list(flags.values()), axis=0)
    while True:
        n = common.sum()
        rows = ~common.all(axis=1)
        if rows.any():
            common[:, common[rows].mean(axis=0) > ft] = True
        cols = ~common.all(axis=0)
        if cols.any():
            common[common[:, cols].mean(axis=1) > tt] = True
        if common.sum() == n:
            break
    out = {a: f | common for a, f in flags.items()}
    most = max((~f).sum() for f in out.values())
    return {a: np.ones_like(f) if (~f).sum() < (1 - at) * most else f for a, f in out.items()}


def check_thresh(case, ctx):
    """Channels flagged too often in time (for all antennas), times flagged in too many channels, and antennas flagged too often are flagged; nothing else is."""
    from hera_cal import smooth_cal
    rng = rng_of(case["seed"])
    sh = (case["nt"], case["nf"])
    com = np.zeros(sh, bool)
    for _ in range(case["rows"]):
        com[rng.integers(sh[0])] |= rng.random(sh[1]) < 2 * case["p"]
    for _ in range(case["cols"]):
        com[:, rng.integers(sh[1])] |= rng.random(sh[0]) < 2 * case["p"]
    flags = {(a, "Jee"): com | (rng.random(sh) < case["own"]) for a in range(case["na"])}
    if (case["bad"], "Jee") in flags:
        flags[case["bad"], "Jee"] |= rng.random(sh) < 0.7
    exp = broadcast_ref(flags, case["ft"], case["tt"], case["at"])
    if not np.array_equal(exp[0, "Jee"], broadcast_ref(flags, case["ft"] + 1e-9, case["tt"] + 1e-9, case["at"] + 1e-9)[0, "Jee"]):
        return
    got = {a: f.copy() for a, f in flags.items()}
    quiet(smooth_cal.flag_threshold_and_broadcast, got, freq_threshold=case["ft"], time_threshold=case["tt"], ant_threshold=case["at"])
    for a in flags:
        same(got[a], exp[a], f"flags of {a} after thresholds freq={case['ft']} time={case['tt']} ant={case['at']}\n{flags[a].astype(int)}")
    ctx.nontrivial(any((exp[a] & ~flags[a]).any() and not exp[a].all() for a in flags))


# ---------------------------------------------------------------- black lists and weights
def gen_lists(draw):
    return dict(nt=ints(draw, 1, 9), span=pick(draw, [0.02, 0.4, 1.0]), nf=ints(draw, 1, 9), tb=[(ints(draw, -1, 8), ints(draw, 0, 4)) for _ in range(ints(draw, 0, 2))],
                lb=[(ints(draw, 0, 47) / 2, ints(draw, 0, 47) / 2) for _ in range(ints(draw, 0, 2))], fb=[(ints(draw, -1, 8), ints(draw, 0, 4)) for _ in range(ints(draw, 0, 2))],
                cb=[(ints(draw, 0, 8), ints(draw, 0, 4)) for _ in range(ints(draw, 0, 2))], w=pick(draw, [0.0, 0.1]), seed=seed(draw), loc=flag(draw))


def check_lists(case, ctx):
    """Black lists mark exactly the times, LSTs (also across 24 h), frequencies and channels inside their inclusive bounds."""
    from hera_cal import smooth_cal
    rng = rng_of(case["seed"])
    times = 2458838.1 + np.linspace(0, case["span"], case["nt"] + 1)[:case["nt"]]
    freqs = freqs_of(case["nf"])
    t_at = lambda k: times[0] - 0.001 if k < 0 else times[min(k, len(times) - 1)]
    f_at = lambda k: freqs[0] - 1.0 if k < 0 else freqs[min(k, len(freqs) - 1)]
    tb = [(t_at(a), t_at(a + n)) for a, n in case["tb"]]
    fb = [(f_at(a), f_at(a + n)) for a, n in case["fb"]]
    cb = [(a, a + n) for a, n in case["cb"]]
    tel = make_telescope({0: (0, 0, 0), 1: (14.6, 0, 0)})
    lat, lon, alt = tel.location.lat.deg, tel.location.lon.deg, tel.location.height.value
    from astropy.time import Time
    hrs = Time(times, format="jd", scale="utc", location=tel.location).sidereal_time("apparent").hour
    if any(abs((hrs - b + 12) % 24 - 12).min() < 1e-3 for bb in case["lb"] for b in bb) or any(a == b for a, b in case["lb"]):
        return
    exp = np.zeros(len(times), bool)
    for a, b in tb:
        exp |= (times >= a) & (times <= b)
    for a, b in case["lb"]:
        exp |= ((hrs - a) % 24) <= ((b - a) % 24)
    kw = dict(lat_lon_alt_degrees=np.array([lat, lon, alt])) if case["loc"] else {}
    got = quiet(smooth_cal.build_time_blacklist, times, time_blacklists=tb, lst_blacklists=[tuple(x) for x in case["lb"]], **kw)
    same(got, exp, f"times in {tb} or LSTs in {case['lb']} h (times at {hrs} h)")
    ef = np.zeros(len(freqs), bool)
    for a, b in fb:
        ef |= (freqs >= a) & (freqs <= b)
    for a, b in cb:
        ef[a:b + 1] = True
    gf = smooth_cal.build_freq_blacklist(freqs, freq_blacklists=fb, chan_blacklists=cb)
    same(gf, ef, f"channels in {fb} Hz or {cb}")
    fl = rng.random((len(times), len(freqs))) < 0.3
    wf = rng.random(fl.shape) < 0.2
    w = smooth_cal._build_wgts_grid(fl, got, gf, wf, case["w"])
    same(w, np.where(fl, 0.0, np.where(exp[:, None] | ef[None] | wf, case["w"], 1.0)), "weights")
    ctx.nontrivial((exp.any() and not exp.all()) or (ef.any() and not ef.all()))


# ---------------------------------------------------------------- two-dimensional filters
def gen_dpss(draw):
    return dict(nt=ints(draw, 8, 20), nf=ints(draw, 24, 40), tau=ints(draw, -200, 200), kind=pick(draw, ["pinv", "lu_solve", "solve", "lstsq", "sparse", "clean", "pinv"]), p=pick(draw, [0.0, 0.1, 0.25]),
                edge=subset(draw, ["t0", "t1", "f0", "f1"]), skip=pick(draw, [True, True, False]), cuts=pick(draw, [0, 0, 1, 2]), deadband=ints(draw, 0, 3) == 0, flips=ints(draw, 0, 2) == 0, frac=flag(draw),
                seed=seed(draw), modes=ints(draw, 1, 2))


def smooth_gain(rng, times, freqs, tau, modes, amp=0.2):
    """Slowly varying on scales much longer than the filter's, times a delay."""
    x = (freqs - freqs[0]) / 1e6
    t = (times - times[0]) * 86400.0
    g = 1.0 + 0j
    for _ in range(modes):
        g = g + amp * rng.uniform(0.3, 1) * np.exp(2j * np.pi * rng.random()) * np.outer(np.cos(TWOPI * rng.uniform(0, 0.25) * t / 600 + rng.uniform(0, 6)),
                                                                                        np.cos(TWOPI * rng.uniform(0, 0.25) * x / 4 + rng.uniform(0, 6)))
    return g * np.exp(2j * np.pi * tau * freqs)[None, :] * np.ones((len(times), len(freqs)))


def check_dpss(case, ctx):
    """2D filters return smooth gains unchanged, whatever has zero weight, band by band, with phase flips put back."""
    from hera_cal import smooth_cal
    rng = rng_of(case["seed"])
    nt, nf = case["nt"], case["nf"]
    times = 2458838.2 + np.arange(nt) * 30.0 / 86400
    freqs = 1.2e8 + 0.4e6 * np.arange(nf)
    clean = case["kind"] == "clean"
    g = smooth_gain(rng, times, freqs, case["tau"] * 1e-9, 0 if clean else case["modes"])
    w = (rng.random((nt, nf)) >= case["p"]).astype(float)
    if case["frac"] and not clean:
        w *= rng.uniform(0.3, 1, size=w.shape)
    cuts = [freqs[nf // 3] + 1e5] * (case["cuts"] > 0) + [freqs[2 * nf // 3] + 1e5] * (case["cuts"] > 1)
    if clean or not case["skip"]:
        cuts = []
    for e in case["edge"]:
        if case["skip"] and not clean:
            w[{"t0": np.s_[:2], "t1": np.s_[-1:], "f0": np.s_[:, :3], "f1": np.s_[:, -2:]}[e]] = 0
    if cuts and case["deadband"]:
        w[:, freqs < cuts[0]] = 0
    flips = np.ones(nt)
    if case["flips"] and not clean:
        a = int(rng.integers(2, nt - 1))        # a minority: the average over times must still give the delay
        flips[a:a + 1 + nt // 6] = -1
        ok = (w > 0).any(axis=1)
        if ok.sum() < 8 or (flips[ok] < 0).mean() > 0.25:
            flips[:] = 1
    fix = bool(case["flips"] and not clean)
    if not w.any():
        return
    G = g * flips[:, None]
    bad = np.where(w == 0, 1e2 * (rng.normal(size=g.shape) + 1j * rng.normal(size=g.shape)), 0)
    kw = dict(freq_scale=4.0, time_scale=600.0, method="CLEAN" if clean else "DPSS", skip_flagged_edges=case["skip"], freq_cuts=cuts, fix_phase_flips=fix)
    if clean:
        kw.update(tol=1e-9, window="none", maxiter=200)
    elif case["kind"] == "sparse":
        kw.update(use_sparse_solver=True, tol=1e-12, maxiter=500)
    else:
        kw["fit_method"] = case["kind"]
    kw["eigenval_cutoff"] = 1e-9
    keep = G.copy(), w.copy()
    got, info = quiet(smooth_cal.time_freq_2D_filter, G, w, freqs, times, **kw)
    same(G, keep[0], "caller's gains")
    same(w, keep[1], "caller's weights")
    got2, _ = quiet(smooth_cal.time_freq_2D_filter, G + bad, w, freqs, times, **kw)
    # inside the box of weighted data (per band), or everywhere without skipping edges
    box = np.zeros(w.shape, bool)
    for lo, hi in zip([-np.inf] + cuts, cuts + [np.inf]):
        inb = (freqs > lo) & (freqs < hi)
        ww = (w > 0) & inb[None]
        if not case["skip"] or clean:
            box[:, inb] = True
        elif ww.any():
            r, c = np.where(ww.any(axis=1))[0], np.where(ww.any(axis=0))[0]
            box[r[0]:r[-1] + 1, c[0]:c[-1] + 1] = True
    hard = False
    for lo, hi in zip([-np.inf] + cuts, cuts + [np.inf]):
        inb = (freqs > lo) & (freqs < hi)
        sub = box[:, inb]
        if sub.any() and (((w[:, inb] > 0).sum() < 0.7 * sub.sum()) or sub.any(axis=0).sum() < 6):
            hard = True
    if hard:
        ctx.label("hard")
        return
    tol = 0.03 if clean else 3e-3
    near = box & (w > 0)
    close(got[near], G[near], f"{case['kind']}: smooth gains are not returned", rtol=0, atol=tol * 2)
    close(got2[near], got[near], f"{case['kind']}: depends on gains without weight", rtol=0, atol=tol)
    if case["skip"] and not clean:
        same(np.isclose(got[~box], G[~box]), np.ones((~box).sum(), bool), f"{case['kind']}: gains outside of the filtered region changed")
    if fix and not hard:
        f = np.asarray(info["phase_flips"])
        ok = (w > 0).any(axis=1)
        first = np.where(ok)[0][0]
        same((f * f[first])[ok] == -1, (flips * flips[first])[ok] == -1, "phase flips")
    ctx.label(case["kind"], f"bands={len(cuts) + 1}", f"flips={fix}")
    ctx.nontrivial(0 < (w > 0).sum() < w.size)


# ---------------------------------------------------------------- whole files
def gen_files(draw):
    return dict(files=[ints(draw, 1, 4) for _ in range(ints(draw, 1, 3))], gap=[ints(draw, 0, 2) for _ in range(3)], na=ints(draw, 2, 4), pols=pick(draw, [["Jee"], ["Jee", "Jnn"]]), order=flag(draw),
                missing=ints(draw, 0, 3) == 0, p=pick(draw, [0.0, 0.2]), dead=ints(draw, 0, 3) == 0, nan=flag(draw), ext=pick(draw, [None, None, "ant", "wf", "bl"]), ign=flag(draw), thr=pick(draw, [None, None, "ant", "freq", "time"]),
                refant=flag(draw), op=pick(draw, ["none", "time", "dpss", "dpss"]), bl=flag(draw), clob=flag(draw), seed=seed(draw), nf=pick(draw, [12, 16]))


def check_files(case, ctx):
    """CalibrationSmoother grids every file's gains and flags, smooths each antenna as if alone, and writes each file its own times."""
    from hera_cal import io, smooth_cal
    from pyuvdata import UVFlag
    rng = rng_of(case["seed"])
    tmp = ctx.tmp()
    nf = case["nf"]
    freqs = 1.2e8 + 0.4e6 * np.arange(nf)
    dt = 10.0 / 86400
    if sum(case["files"]) < 3 or (len(case["files"]) == 1 and case["files"][0] < 2):
        return
    ants = list(range(0, 10 * case["na"], 10))
    tel = make_telescope({a: (14.6 * k, 3.0 * k, 0) for k, a in enumerate(ants)})
    t, slots, off = 0, [], []
    gaps = case["gap"] if max(case["files"]) > 2 else [0, 0, 0]      # the median spacing is the integration time
    for n, gp in zip(case["files"], gaps):
        slots.append(np.arange(t, t + n))
        t += n + gp
    ntot = slots[-1][-1] + 1
    if np.median(np.diff(np.concatenate(slots))) != 1:
        return
    alltimes = 2458838.2 + np.arange(ntot) * dt
    keys = [(a, p) for a in ants for p in case["pols"]]
    truth = {k: smooth_gain(rng, alltimes, freqs, rng.uniform(-100, 100) * 1e-9, 1) for k in keys}
    G = {k: np.ones((ntot, nf), complex) for k in keys}
    F = {k: np.ones((ntot, nf), bool) for k in keys}
    have = {k: np.zeros(ntot, bool) for k in keys}
    paths, info = [], []
    for n, sl in enumerate(slots):
        mine = ants[:-1] if (case["missing"] and n == 0 and len(slots) > 1) else ants
        g = {k: truth[k][sl] for k in keys if k[0] in mine}
        f = {k: rng.random((len(sl), nf)) < case["p"] for k in g}
        for k in g:
            if case["dead"] and k == keys[0]:
                f[k][:] = True
            if case["nan"]:
                g[k] = np.where(f[k], np.nan, g[k])
            G[k][sl], F[k][sl], have[k][sl] = np.where(np.isfinite(g[k]), g[k], 1.0), False if case["ign"] else f[k], True
        if case["ign"] and case["nan"] and any(x.any() for x in f.values()):
            return
        uvc = quiet(make_cal, mine, g, f, alltimes[sl], freqs, tel, pols=case["pols"], quality={k: np.full(g[k].shape, float(n + 1)) for k in g}, gain_scale="Jy",
                    total_quality={p: np.full((len(sl), nf), n + 0.5) for p in case["pols"]})
        path = os.path.join(tmp, f"zen.{n}.abs.calfits")
        quiet(uvc.write_calfits, path)
        paths.append(path)
        info.append((sl, mine, g, f))
    kw = {}
    if case["ext"]:
        ff = []
        for n, (sl, mine, g, f) in enumerate(info):
            if case["ext"] == "bl":
                from ..uvsim import make_uvd, truth as uvtruth
                pairs = [(a, b) for i, a in enumerate(ants) for b in ants[i:]]
                vp = [p[1:] for p in case["pols"]]
                u = quiet(make_uvd, {a: (14.6 * k, 3.0 * k, 0) for k, a in enumerate(ants)}, pairs, vp, alltimes[sl], freqs, seed=case["seed"] + n, flag_frac=0.1)
                uf = quiet(UVFlag, u, mode="flag", copy_flags=True)
                tr = uvtruth(u, vp)
                for k in keys:
                    F[k][sl] |= np.any([v[1] for b, v in tr.items() if k in ((b[0], "J" + b[2]), (b[1], "J" + b[2]))], axis=0)
            elif case["ext"] == "ant":
                hc = quiet(io.HERACal, paths[n])
                quiet(hc.read)
                hc.flag_array = rng.random(hc.flag_array.shape) < 0.15
                uf = quiet(UVFlag, hc, mode="flag", copy_flags=True)
                for i, a in enumerate(hc.ant_array):
                    for j, p in enumerate(case["pols"]):
                        F[int(a), p][sl] |= hc.flag_array[i, :, :, j].T
            else:
                hc = quiet(io.HERACal, paths[n])
                quiet(hc.read)
                uf = quiet(UVFlag, hc, mode="flag", copy_flags=True)
                quiet(uf.to_waterfall, method="and")
                uf.to_flag() if uf.mode != "flag" else None
                uf.flag_array = rng.random(uf.flag_array.shape) < 0.15
                for j, p in enumerate(case["pols"]):
                    for k in keys:
                        if k[1] == p:
                            F[k][sl] |= uf.flag_array[:, :, j]
            ff.append(os.path.join(tmp, f"f{n}.h5"))
            quiet(uf.write, ff[-1], clobber=True)
        kw["flag_file_list"] = ff
        if case["missing"] and case["ext"] == "ant":
            pass
    th = dict(freq_threshold=1.0, time_threshold=1.0, ant_threshold=1.0)
    if case["thr"]:
        th[case["thr"] + "_threshold"] = 0.3
    exp = broadcast_ref(F, th["freq_threshold"], th["time_threshold"], th["ant_threshold"])
    order = list(range(len(paths)))[::-1] if case["order"] else list(range(len(paths)))
    if case["ext"]:
        kw["flag_file_list"] = [kw["flag_file_list"][i] for i in range(len(paths))]
    if case["bl"]:
        kw.update(chan_blacklists=[(3, 4)], blacklist_wgt=0.2)
    cs = quiet(smooth_cal.CalibrationSmoother, [paths[i] for i in order], load_cspa=True, load_chisq=True, ignore_calflags=case["ign"], **th, **kw)
    require(len(cs.time_grid) == ntot and sorted(cs.gain_grids) == sorted(keys), f"grid of {len(cs.time_grid)} times for {sorted(cs.gain_grids)}")
    for k in keys:
        close(cs.gain_grids[k], G[k], f"gridded gains of {k}")
        same(cs.flag_grids[k], exp[k], f"gridded flags of {k} (thresholds {th}, ignore={case['ign']}, ext={case['ext']})")
        for n, (sl, mine, g, f) in enumerate(info):
            if k[0] in mine:
                same(cs.cspa_grids[k][sl], np.full((len(sl), nf), float(n + 1)), "gridded chi^2 per antenna")
    for n, (sl, *_r) in enumerate(info):
        for p in case["pols"]:
            same(cs.chisq_grids[p][sl], np.full((len(sl), nf), n + 0.5), "gridded chi^2")
    pre = {k: v.copy() for k, v in cs.gain_grids.items()}
    expf = {k: v.copy() for k, v in exp.items()}
    refs = None
    if case["refant"] and not case["missing"]:
        try:
            refs = quiet(smooth_cal.pick_reference_antenna, cs.gain_grids, cs.flag_grids, cs.freqs)
        except Exception as e:
            require(all(v.all() for v in exp.values()), f"no reference antenna: {e!r}")
            return
        for p, r in refs.items():
            require(r[1] == p and exp[r].sum() == min(exp[k].sum() for k in keys if k[1] == p), f"reference antenna {r} is not the least flagged")
        cs.refant = refs
        quiet(cs.rephase_to_refant, propagate_refant_flags=True)
        for k in keys:
            r = refs[k[1]]
            expf[k] = exp[k] | exp[r]
            same(cs.flag_grids[k], expf[k], "flags after rephasing")
            close(cs.gain_grids[k], pre[k] * np.exp(-1j * np.angle(pre[r])), f"rephased gains of {k}")
        pre = {k: v.copy() for k, v in cs.gain_grids.items()}
    if case["op"] == "time":
        quiet(cs.time_filter, filter_scale=35.0)
        nm, dur, need = 0, cs.dt * ntot * 86400, 35.0 / (2 * np.sqrt(2 * np.log(2))) * 5
        while nm * dur < need:
            nm += 1
        for k in keys:
            w = np.where(expf[k], 0.0, 1.0)
            if case["bl"]:
                w[:, 3:5] *= 0.2
            want = pre[k] if expf[k].all() else quiet(smooth_cal.time_filter, pre[k], w, cs.time_grid, filter_scale=35.0, nMirrors=nm)
            close(cs.gain_grids[k], want, f"time-smoothed gains of {k}", rtol=1e-6)
    elif case["op"] == "dpss":
        kw2 = dict(freq_scale=4.0, time_scale=600.0, method="DPSS", eigenval_cutoff=1e-6)
        quiet(cs.time_freq_2D_filter, **kw2)
        after = {}
        for k in keys:
            w = np.where(expf[k], 0.0, 1.0)
            if case["bl"]:
                w[:, 3:5] *= 0.2
            after[k] = pre[k] if expf[k].all() else quiet(smooth_cal.time_freq_2D_filter, pre[k], w, freqs, cs.time_grid, **kw2)[0]
        for k in keys:
            a = after[k] * np.exp(-1j * np.angle(after[refs[k[1]]])) if refs else after[k]
            ok = ~expf[k] & ~expf[refs[k[1]]] if refs else ~expf[k]
            close(cs.gain_grids[k][ok], a[ok], f"2D-smoothed gains of {k} depend on the other antennas", rtol=1e-5, atol=1e-5)
        if refs:
            for p, r in refs.items():
                ok = ~expf[r]
                close(np.angle(cs.gain_grids[r][ok]), np.zeros(ok.sum()), "phase of the reference antenna", atol=1e-7)
    quiet(cs.write_smoothed_cal, output_replace=(".abs.", ".smooth."), add_to_history="NOTE", clobber=case["clob"])
    for n, (sl, mine, g, f) in enumerate(info):
        hc = quiet(io.HERACal, paths[n].replace(".abs.", ".smooth."))
        og, of, oq, ot = quiet(hc.read)
        require(sorted(og) == sorted(k for k in keys if k[0] in mine), f"antennas written: {sorted(og)}")
        close(hc.times, alltimes[sl], "times written", rtol=0, atol=1e-7)
        require("NOTE" in hc.history, "history")
        for k in og:
            close(og[k], cs.gain_grids[k][sl], f"written gains of {k}", rtol=1e-5, atol=1e-6)
            same(of[k], cs.flag_grids[k][sl], f"written flags of {k}")
    if not case["clob"]:
        with expect_raises((OSError, ValueError), "existing output overwritten"):
            quiet(cs.write_smoothed_cal, output_replace=(".abs.", ".smooth."), clobber=False)
    else:
        quiet(cs.write_smoothed_cal, output_replace=(".abs.", ".smooth."), clobber=True)
    for p in paths:      # inputs untouched
        require(os.path.exists(p), "input file vanished")
    ctx.label(f"op={case['op']}", f"ext={case['ext']}", f"thr={case['thr']}", f"ref={refs is not None}", f"n={len(paths)}")
    ctx.nontrivial(len(paths) > 1 or any(v.any() and not v.all() for v in exp.values()))


# ---------------------------------------------------------------- one-dimensional filters
def gen_1d(draw):
    return dict(ax=pick(draw, ["freq", "time"]), mode=pick(draw, ["dpss_leastsq", "DPSS", "clean"]), p=pick(draw, [0.0, 0.1, 0.2]), low=subset(draw, [0, 3, 5]), skip=pick(draw, [0.1, 0.5]), edges=flag(draw),
                tau=ints(draw, -200, 200), seed=seed(draw))


def check_1d(case, ctx):
    """filter_1d keeps smooth gains, is blind to what has no weight, and leaves alone the rows with too little weight."""
    from hera_cal import smooth_cal
    rng = rng_of(case["seed"])
    nt, nf = (8, 30) if case["ax"] == "freq" else (30, 8)
    ax = 1 if case["ax"] == "freq" else 0
    times = np.arange(nt) * 30.0        # the time axis and its scale share one unit
    freqs = 1.2e8 + 0.4e6 * np.arange(nf)
    clean = case["mode"] == "clean"
    g = smooth_gain(rng, times / 86400, freqs, case["tau"] * 1e-9, 0 if clean else 1)
    w = (rng.random((nt, nf)) >= case["p"]).astype(float)
    W = w if ax == 1 else w.T            # rows to be filtered
    for r in case["low"]:
        W[r, 2:] = 0
    keep = g.copy(), w.copy()
    kw = dict(filter_scale=4.0 if ax == 1 else 600.0, ax=case["ax"], mode=case["mode"], skip_wgt=case["skip"], tol=1e-9)
    if clean:
        kw.update(maxiter=200)
    else:
        kw.update(eigenval_cutoff=[1e-9], skip_flagged_edges=case["edges"] and not case["low"], max_contiguous_edge_flags=100)
    x = freqs if ax == 1 else times
    got, info = quiet(smooth_cal.filter_1d, g, w, x, **kw)
    same(g, keep[0], "caller's gains")
    same(w, keep[1], "caller's weights")
    bad = np.where(w == 0, 50 * (rng.normal(size=g.shape) + 1j * rng.normal(size=g.shape)), 0)
    got2, _ = quiet(smooth_cal.filter_1d, g + bad, w, x, **kw)
    rows = (got, got2, g, w, bad) if ax == 1 else (got.T, got2.T, g.T, w.T, bad.T)
    for r in range(len(rows[0])):
        o, o2, gg, ww, bb = (v[r] for v in rows)
        if r in case["low"]:
            same(o, gg, f"row {r} has too little weight to be filtered but was changed")
            same(o2, gg + bb, f"row {r} has too little weight to be filtered but was changed")
            continue
        st = info["status"][f"axis_{ax}"][r]
        require(st != "skipped", f"row {r} with weight {ww.mean()} skipped")
        tol = 0.05 if clean else 3e-3
        ok = ww > 0
        close(o[ok], gg[ok], f"{case['mode']}: smooth gains not returned in row {r}", rtol=0, atol=2 * tol)
        close(o2[ok], o[ok], f"{case['mode']}: row {r} depends on gains without weight", rtol=0, atol=tol)
    ctx.label(case["mode"], case["ax"], f"low={len(case['low'])}")
    ctx.nontrivial(0 < (w > 0).sum() < w.size)


# ---------------------------------------------------------------- reference antennas
def gen_ref(draw):
    return dict(na=ints(draw, 1, 6), pols=pick(draw, [["Jee"], ["Jee", "Jnn"]]), same=pick(draw, [True, False]), nfl=ints(draw, 0, 3), more=ints(draw, 0, 3), noisy=ints(draw, 0, 2), per=flag(draw),
                frac=pick(draw, [0.0, 0.5, 1.0]), seed=seed(draw), prop=flag(draw))


def check_ref(case, ctx):
    """The reference antenna is one of the least flagged, the one whose phases are least noisy; rephasing to it leaves relative phases alone."""
    from hera_cal import smooth_cal
    rng = rng_of(case["seed"])
    nt, nf = 10, 12
    freqs = freqs_of(nf, df=1e6)
    keys = [(a, p) for a in range(case["na"]) for p in case["pols"]]
    common = rng.choice(nt * nf, case["nfl"], replace=False)
    g, f = {}, {}
    for k in keys:
        fl = np.zeros(nt * nf, bool)
        fl[common if case["same"] else rng.choice(nt * nf, case["nfl"], replace=False)] = True
        if k[0] < case["more"]:
            fl[rng.choice(np.where(~fl)[0], 5 + k[0], replace=False)] = True
        f[k] = fl.reshape(nt, nf)
        g[k] = rng.uniform(0.5, 2) * np.exp(1j * (TWOPI * rng.uniform(-50, 50) * 1e-9 * freqs + rng.normal(scale=1e-4, size=(nt, nf))))
    least = {p: [k for k in keys if k[1] == p and f[k].sum() == min(f[q].sum() for q in keys if q[1] == p)] for p in case["pols"]}
    noisy = set()
    for p in case["pols"]:
        for k in least[p][:case["noisy"]]:
            if len(least[p]) - len([q for q in noisy if q[1] == p]) > 2:
                noisy.add(k)
                g[k] = g[k] * np.exp(0.3j * rng.normal(size=(nt, nf)))
    pos = {a: np.array([14.6 * a, 0.0, 0.0]) for a in range(case["na"])}
    kw = dict(acceptable_candidate_frac=case["frac"], antpos=pos) if case["frac"] else {}
    ref = quiet(smooth_cal.pick_reference_antenna, g, f, freqs, per_pol=case["per"], **kw)
    if case["per"]:
        require(sorted(ref) == sorted(case["pols"]), f"reference antennas {ref}")
        for p, r in ref.items():
            require(r in least[p], f"{r} is not among the least flagged {least[p]}")
            if not case["frac"] and len(least[p]) <= 9:
                require(r not in noisy, f"noisy {r} picked as reference")
    else:
        allk = [k for k in keys if f[k].sum() == min(x.sum() for x in f.values())]
        require(ref in allk, f"{ref} is not among the least flagged {allk}")
        if not case["frac"] and len(allk) > len(noisy) + 1 and len(case["pols"]) == 1:
            require(ref not in noisy, f"noisy {ref} picked as reference")
    g1, f1 = {k: v.copy() for k, v in g.items()}, {k: v.copy() for k, v in f.items()}
    refof = lambda k: ref[k[1]] if case["per"] else ref
    clash = any((f[refof(k)] & ~f[k]).any() for k in keys)
    if clash and not case["prop"]:
        with expect_raises((ValueError,), "reference antenna flagged where others are not"):
            smooth_cal.rephase_to_refant(g1, ref, flags=f1, propagate_refant_flags=False)
    else:
        smooth_cal.rephase_to_refant(g1, ref, flags=f1, propagate_refant_flags=case["prop"])
        for k in keys:
            r = refof(k)
            close(g1[k], g[k] * np.exp(-1j * np.angle(g[r])), f"{k} rephased to {r}")
            same(f1[k], f[k] | f[r] if case["prop"] else f[k], f"flags of {k} rephased to {r}")
    ctx.label(f"same={case['same']}", f"clash={clash}", f"per={case['per']}")
    ctx.nontrivial(case["na"] > 2)


# ---------------------------------------------------------------- the smoother on its own grids
def gen_obj(draw):
    return dict(na=ints(draw, 2, 4), nt=ints(draw, 9, 14), op=pick(draw, ["2d", "2d", "flip", "flip", "clean", "1d", "1d"]), p=pick(draw, [0.0, 0.1]), edges=[subset(draw, ["t0", "t1", "f0", "f1"]) for _ in range(4)],
                deadt=[subset(draw, [0, 4, 5, 12]) for _ in range(4)], cut=flag(draw), skip=pick(draw, [True, True, False]), bl=pick(draw, [None, "chan", "time", "wf"]), blw=pick(draw, [0.0, 0.2]),
                flips=[pick(draw, [None, (3, 1), (5, 2), (0, 1)]) for _ in range(4)], ax=pick(draw, ["freq", "time"]), mode=pick(draw, ["dpss_leastsq", "DPSS", "clean"]), fm=pick(draw, ["rect", "plus"]),
                same=ints(draw, 0, 2) == 0, twice=flag(draw), seed=seed(draw))


def check_obj(case, ctx):
    """One CalibrationSmoother: each antenna is smoothed as if alone (no cache leaks between antennas or calls); phase flips and skipped rows are flagged as asked."""
    from hera_cal import smooth_cal
    rng = rng_of(case["seed"])
    tmp = ctx.tmp()
    nt, nf, op = case["nt"], 20, case["op"]
    freqs, times = 1.2e8 + 0.4e6 * np.arange(nf), 2458838.2 + np.arange(nt) * 30.0 / 86400
    ants = list(range(3, 3 + case["na"]))
    keys = [(a, "Jee") for a in ants]
    G, F = {}, {}
    for n, k in enumerate(keys):
        n = 0 if case["same"] else n
        G[k] = smooth_gain(rng, times, freqs, rng.uniform(-100, 100) * 1e-9, 1, amp=0.05 if op == "flip" else 0.2)
        F[k] = rng.random((nt, nf)) < case["p"] if not (case["same"] and F) else F[keys[0]].copy()
        for e in case["edges"][n]:
            F[k][{"t0": np.s_[:2], "t1": np.s_[-1:], "f0": np.s_[:, :3], "f1": np.s_[:, -2:]}[e]] = True
        if op in ("flip", "1d"):
            for t in case["deadt"][n]:
                if t < (nt if case["ax"] == "freq" or op == "flip" else nf):
                    F[k][np.s_[t] if case["ax"] == "freq" or op == "flip" else np.s_[:, t]] = True
        if op == "flip" and case["flips"][n]:
            a, l = case["flips"][n]
            G[k][a:a + l] *= -1
    tel = make_telescope({a: (14.6 * i, 3.0 * i, 0) for i, a in enumerate(ants)})
    path = os.path.join(tmp, "zen.abs.calfits")
    quiet(quiet(make_cal, ants, G, F, times, freqs, tel, pols=["Jee"], gain_scale="Jy").write_calfits, path)
    kw, bl = {}, np.zeros((nt, nf), bool)
    wfb = None
    if case["bl"] == "chan":
        kw.update(chan_blacklists=[(6, 7)])
        bl[:, 6:8] = True
    elif case["bl"] == "time":
        kw.update(time_blacklists=[(times[3] - 1e-5, times[3] + 1e-5)])
        bl[3] = True
    elif case["bl"] == "wf":
        wfb = {keys[-1]: rng.random((nt, nf)) < 0.1}
        kw.update(waterfall_blacklist={k: v.copy() for k, v in wfb.items()})
    for fl in (["none", "ints", "ants"] if op == "flip" else ["none"]):
        if not check_obj1(case, ctx, path, keys, G, F, kw, bl, wfb, fl, freqs, times):
            return
    ctx.label(f"op={op}", f"bl={case['bl']}", f"same={case['same']}")
    ctx.nontrivial(any(v.any() and not v.all() for v in F.values()))


def check_obj1(case, ctx, path, keys, G, F, kw, bl, wfb, fl, freqs, times):
    from hera_cal import smooth_cal
    op, nt, nf = case["op"], len(times), len(freqs)
    cs = quiet(smooth_cal.CalibrationSmoother, [path], freq_threshold=1.0, time_threshold=1.0, ant_threshold=1.0, blacklist_wgt=case["blw"], **kw)
    W = {}
    for k in keys:
        close(cs.gain_grids[k], G[k], f"gridded gains of {k}")
        same(cs.flag_grids[k], F[k], f"gridded flags of {k}")
        b = bl | (wfb[k] if wfb and k in wfb else False)
        W[k] = np.where(F[k], 0.0, np.where(b, case["blw"], 1.0))
        if (W[k] > 0).sum() < 60 or ((W[k] > 0).any(axis=1)).sum() < 5:
            return False
    if op != "1d":
        kw2 = dict(freq_scale=4.0, time_scale=600.0, method="CLEAN" if op == "clean" else "DPSS", eigenval_cutoff=1e-6)
        if op == "clean":
            kw2.update(filter_mode=case["fm"], tol=1e-6, window="none", maxiter=60)
        else:
            kw2.update(skip_flagged_edges=case["skip"], freq_cuts=[freqs[9] + 1e5] if case["cut"] and case["skip"] else [])
        okw = {}
        if op == "flip":
            kw2.update(fix_phase_flips=True)
            okw = dict(flag_phase_flip_ints=fl == "ints", flag_phase_flip_ants=fl == "ants")
        for rnd in range(1 + (case["twice"] and op == "2d")):
            kw2["freq_scale"] = 4.0 + 2 * rnd
            pre = {k: cs.gain_grids[k].copy() for k in keys}
            meta = quiet(cs.time_freq_2D_filter, **kw2, **okw)
            for k in keys:
                if F[k].all():
                    same(cs.gain_grids[k], pre[k], "gains of a flagged antenna")
                    continue
                want, info = quiet(smooth_cal.time_freq_2D_filter, pre[k], W[k], freqs, times, **kw2)
                ok = ~F[k]
                close(cs.gain_grids[k][ok], want[ok], f"{op}: smoothed gains of {k} depend on the other antennas", rtol=1e-6, atol=1e-6)
                flips = np.asarray(info["phase_flips"]) == -1
                ef = F[k].copy()
                if op == "flip":
                    same(np.asarray(meta["phase_flipped"][k]), flips, f"reported flips of {k}")
                    if fl == "ants" and flips.any():
                        ef[:] = True
                    elif fl == "ints":
                        good = np.where(~F[k].all(axis=1))[0]
                        for a, b in zip(good[:-1], good[1:]):
                            if flips[a] != flips[b]:
                                ef[[a, b]] = True
                same(cs.flag_grids[k], ef, f"flags of {k} after smoothing ({fl}, flips {np.where(flips)[0]})")
                rel = np.where(ef, np.nan, np.abs(pre[k] - want) / np.abs(want))
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    close(np.nan_to_num(meta["time_avg_rel_diff"][k], nan=-1), np.nan_to_num(np.nanmean(rel, axis=0), nan=-1), "time-averaged relative difference", rtol=1e-4, atol=1e-6)
                    close(np.nan_to_num(meta["freq_avg_rel_diff"][k], nan=-1), np.nan_to_num(np.nanmean(rel, axis=1), nan=-1), "frequency-averaged relative difference", rtol=1e-4, atol=1e-6)
            if op == "flip":
                break
    else:
        ax = 1 if case["ax"] == "freq" else 0
        kw1 = dict(filter_scale=4.0 if ax == 1 else 600.0 / 86400, ax=case["ax"], mode=case["mode"], skip_wgt=0.3, tol=1e-6)
        if case["mode"] == "clean":
            kw1.update(maxiter=50)
        else:
            kw1.update(eigenval_cutoff=[1e-6], max_contiguous_edge_flags=100)
        quiet(cs.filter_1d, **kw1)
        for k in keys:
            want, info = quiet(smooth_cal.filter_1d, G[k], W[k], freqs if ax else times, **kw1)
            close(cs.gain_grids[k], want, f"1d: smoothed gains of {k} depend on the other antennas", rtol=1e-6, atol=1e-6)
            ef = F[k].copy()
            rows, wr = (ef, W[k]) if ax else (ef.T, W[k].T)
            for r in range(len(rows)):
                m, q = wr[r].mean(), (wr[r] > 0).mean()     # total weight, unflagged fraction
                if q < 0.25:
                    rows[r] = True
                elif m < 0.35:
                    rows[r] = (cs.flag_grids[k] if ax else cs.flag_grids[k].T)[r]
            same(cs.flag_grids[k], ef, f"flags of {k} after 1D smoothing")
    return True


SUBS = [Sub("timefilt", gen_tf, check_tf, quick=250), Sub("thresh", gen_thresh, check_thresh, quick=400), Sub("lists", gen_lists, check_lists, quick=150),
        Sub("dpss", gen_dpss, check_dpss, quick=120), Sub("files", gen_files, check_files, quick=60, shards=6), Sub("oned", gen_1d, check_1d, quick=60), Sub("ref", gen_ref, check_ref, quick=120), Sub("object", gen_obj, check_obj, quick=60, shards=4)]
