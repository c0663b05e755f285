"""C04: redundant calibration recovers gains and visibilities."""
import numpy as np

from ..core import Sub, close, require, same, rng_of
from ..gens import flag, ints, pick, seed
from ..layouts import gen_layout, grid_layout, positions
from ..redsim import PM, ants_of, gains_for, rev, simulate, sky

RULE = ("Arrays of 3-12 antennas on lattices, random sky visibilities per unique baseline, random per-antenna gains "
        "(amplitudes within 20 %, phases within the wrap-free range), all polarization modes, weights with zeros, conjugated "
        "input keys; the oracle is the simulated truth: g_i g_j* V must give back the data, stationarity of the weighted "
        "chi^2 for noisy data, and gains equal the truth after fixing degeneracies to the truth. Non-trivial: at least one "
        "redundant group with two or more members.")
ASSUMPTIONS = ["gain phases stay within the range where group phases do not wrap, as the algorithms require"]


def gen_common(draw, four=True):
    lay = grid_layout(draw) if flag(draw) else gen_layout(draw, dims=2, nmin=4, nmax=8, span=2)
    return dict(lay=lay, mode=pick(draw, ["1pol", "1pol", "2pol"] + (["4pol", "4pol_minV"] if four else [])),
                nt=ints(draw, 1, 3), nf=ints(draw, 1, 4), seed=seed(draw), conj=flag(draw))


def build(case, amp=0.2, phs=0.35):
    from hera_cal import redcal
    pos = positions(case["lay"], 14.6)
    reds = redcal.get_reds(pos, pols=PM[case["mode"]], pol_mode=case["mode"])
    rng = rng_of(case["seed"], "sim")
    shape = (case["nt"], case["nf"])
    gains = gains_for(reds, rng, shape, amp, phs)
    vis, data = simulate(reds, rng, shape, gains)
    return redcal, pos, reds, rng, shape, gains, vis, data


def maybe_conj(data, case, rng):
    """the same data with some baselines stored under their reversed key"""
    from hera_cal.datacontainer import DataContainer
    if not case["conj"]:
        return DataContainer(dict(data))
    return DataContainer({(rev(b) if f else b): (np.conj(d) if f else d)
                          for (b, d), f in zip(data.items(), rng.integers(0, 2, size=len(data)))})


def reconstructs(sol, data, reds, what, rtol, wgts=None):
    for g in reds:
        for b in g:
            if wgts is not None and np.any(wgts[b] == 0):
                continue   # unconstrained by the data
            ai, aj = ants_of(b)
            mdl = sol.gains[ai] * np.conj(sol.gains[aj]) * sol.vis[b]
            close(mdl, data[b], f"{what}: model of {b}", rtol=rtol, atol=rtol)
            close(sol.model_bl(b), mdl, f"{what}: model_bl({b})", rtol=1e-6, atol=1e-9)


def misfit(sol, data, reds, ok=True):
    with np.errstate(all="ignore"):
        m = [np.abs(sol.gains[ants_of(b)[0]] * np.conj(sol.gains[ants_of(b)[1]]) * sol.vis[b] - data[b]) for g in reds for b in g]
    return np.max(np.where(ok & np.isfinite(m), m, 0))


def gains_match(redcal, sol, gains, reds, what, rtol):
    """after fixing degeneracies to the truth"""
    s2 = sol.remove_degen(degen_sol=gains, inplace=False)
    for a in gains:
        close(s2.gains[a], gains[a], f"{what}: gain {a} with true degeneracies", rtol=rtol, atol=rtol)


def determined(redcal, reds):
    rc = redcal.RedundantCalibrator(reds)
    return int(rc.count_degens(assume_redundant=False)) == rc.count_degens()


def gen_log(draw):
    d = gen_common(draw)
    d.update(sol0=flag(draw), wgt=flag(draw), sparse=flag(draw), zero=ints(draw, 0, 3) == 3)
    return d


def check_log(case, ctx):
    redcal, pos, reds, rng, shape, gains, vis, data = build(case)
    dc = maybe_conj(data, case, rng)
    rc = redcal.RedundantCalibrator(reds)
    kw = {}
    if case["wgt"]:
        kw["wgts"] = {b: rng.uniform(0.5, 2.0, size=shape) for b in data}
    sol0 = None
    if case["sol0"]:
        # a starting point that absorbs large known phases
        big = {a: np.exp(1j * rng.uniform(-3, 3, size=shape)) for a in gains}
        dc = type(dc)({b: dc[b] * big[ants_of(b)[0]] * np.conj(big[ants_of(b)[1]]) for b in dc})
        for b in data:
            data[b] = data[b] * big[ants_of(b)[0]] * np.conj(big[ants_of(b)[1]])
        for a in gains:
            gains[a] = gains[a] * big[a]
        sol0 = redcal.RedSol(reds, gains=big)
    ok = np.ones(shape, dtype=bool)
    if case["zero"]:                # correlator drop-outs: no data at all in some cells
        ok = rng.random(shape) < 0.6
        whole, wdc = dict(data), dc
        for b in data:
            data[b] = np.where(ok, data[b], 0)
        dc = type(dc)({b: np.where(ok, dc[b], 0) for b in dc})
    before = {b: np.array(dc[b]) for b in dc}
    with np.errstate(all="ignore"):
        meta, sol = rc.logcal(dc, sol0=sol0, sparse=case["sparse"], **kw)
        if misfit(sol, data, reds, ok) > 1e-7:
            # linsolve's pseudo-inverse keeps noise eigenvalues now and then; its least-squares mode solves the same equations
            if case["zero"]:        # (which refuses non-finite logarithms)
                bad = misfit(rc.logcal(wdc, sol0=sol0, sparse=case["sparse"], **kw)[1], whole, reds, ok)
                good = misfit(rc.logcal(wdc, sol0=sol0, sparse=case["sparse"], mode="lsqr", **kw)[1], whole, reds, ok)
                require(bad > 1e-7 > good, f"logcal misfit of {misfit(sol, data, reds, ok)} because of drop-outs in other cells")
                ctx.label("linsolve's pseudo-inverse failed")
                return
            meta, sol = rc.logcal(dc, sol0=sol0, sparse=case["sparse"], mode="lsqr", **kw)
            ctx.label("lsqr")
    for b in before:
        close(dc[b], before[b], "logcal changed its input data", rtol=0, atol=0)
    require({a for a in sol.gains} == set(gains), "logcal gains for the wrong antennas")
    if case["zero"]:                # what could not be solved for becomes 1 (gains) and 0 (visibilities), and nothing else changes
        raw = {k: np.array(v) for k, v in list(sol.gains.items()) + list(sol.vis.items())}
        sol.make_sol_finite()
        for k, v in raw.items():
            require(np.all(np.isfinite(v[ok])), f"logcal of data with drop-outs: {k} is not finite where there are data")
            same(np.asarray(sol[k]), np.where(np.isfinite(v), v, 1.0 if len(k) == 2 else 0.0), f"make_sol_finite of {k}")
    reconstructs(sol, data, reds, "logcal", 1e-6)
    if case["zero"]:
        ctx.label("drop-outs")
    elif determined(redcal, reds) and not case["sol0"]:
        gains_match(redcal, sol, gains, reds, "logcal", 1e-5)
    ctx.label(case["mode"], "sol0" if case["sol0"] else "nosol0")
    ctx.nontrivial(any(len(g) > 1 for g in reds))


def gen_iter(draw):
    d = gen_common(draw)
    d.update(nt=ints(draw, 1, 2), nf=ints(draw, 1, 2), alg=pick(draw, ["lincal", "omnical"]), noise=pick(draw, [0.0, 0.02]), wgt=pick(draw, ["none", "vary", "zeros"]),
             pert=pick(draw, [0.01, 0.05]), check_every=pick(draw, [4, 1, 10]), check_after=pick(draw, [1, 20]),
             clamp=ints(draw, 0, 3) == 3)
    return d


def check_iter(case, ctx):
    redcal, pos, reds, rng, shape, gains, vis, data = build(case)
    for b in data:
        data[b] = data[b] + case["noise"] * (rng.normal(size=shape) + 1j * rng.normal(size=shape))
    dc = maybe_conj(data, case, rng)
    p = case["pert"]
    g0 = {a: g * np.exp(p * (rng.normal(size=shape) + 1j * rng.normal(size=shape))) for a, g in gains.items()}
    v0 = {b: v * np.exp(p * (rng.normal(size=shape) + 1j * rng.normal(size=shape))) for b, v in vis.items()}
    wgts = {b: np.ones(shape) for b in data}
    if case["wgt"] != "none":
        wgts = {b: rng.uniform(0.5, 2.0, size=shape) for b in data}
        if case["wgt"] == "zeros" and case["alg"] == "omnical":
            # drop one baseline of a large group at one pixel
            big = max(reds, key=len)
            if len(big) > 3:
                wgts[big[0]][0, 0] = 0.0
    rc = redcal.RedundantCalibrator(reds)

    def chi2(gn, vs):
        out = np.zeros(shape)
        for g in reds:
            for b in g:
                ai, aj = ants_of(b)
                out = out + wgts[b] * np.abs(data[b] - gn[ai] * np.conj(gn[aj]) * vs[g[0]])**2
        return out
    start = chi2(g0, v0)
    sol0 = redcal.RedSol(reds, gains={a: g.copy() for a, g in g0.items()}, vis={b: v.copy() for b, v in v0.items()})
    kw = dict(wgts=wgts) if case["wgt"] != "none" else {}
    if case["alg"] == "lincal":
        meta, sol = rc.lincal(dc, sol0, conv_crit=1e-12, maxiter=50, **kw)
    else:
        wf = (lambda x: np.where(x > 0, 5 * np.tanh(x / 5) / np.where(x > 0, x, 1), 1)) if case["clamp"] else None
        meta, sol = rc.omnical(dc, sol0, conv_crit=1e-13, maxiter=1500, gain=0.4, check_every=case["check_every"],
                               check_after=case["check_after"], wgt_func=wf, **kw)
    vs = {g[0]: sol.vis[g[0]] for g in reds}
    end = chi2(sol.gains, vs)
    require(np.all(end <= start * (1 + 1e-6) + 1e-12), f"{case['alg']} made chi^2 worse: {start} -> {end}")
    # small clamped residuals are left alone by the clamp to second order only; noise-free data reach 0 regardless
    if not case["clamp"]:
        close(meta["chisq"], end, f"{case['alg']}: reported chisq is not that of the returned solution", rtol=1e-3, atol=1e-6)
    good = determined(redcal, reds)
    if good and case["noise"] == 0:
        require(np.all(end < 1e-7 * len(data)), f"{case['alg']}: chi^2 {end} left on noise-free data from {start}")
        reconstructs(sol, data, reds, case["alg"], 3e-3, wgts)
        if case["wgt"] != "zeros":
            gains_match(redcal, sol, gains, reds, case["alg"], 5e-3)
    if good and case["noise"] > 0 and not case["clamp"]:
        # stationarity of the weighted chi^2
        num, den = {}, {}
        for g in reds:
            for b in g:
                ai, aj = ants_of(b)
                m = sol.gains[ai] * np.conj(sol.gains[aj]) * vs[g[0]]
                r = wgts[b] * np.conj(m) * (data[b] - m)
                w = wgts[b] * np.abs(m)**2
                for k, x in ((ai, r), (aj, np.conj(r)), (g[0], r)):
                    num[k] = num.get(k, 0) + x
                    den[k] = den.get(k, 0) + w
        for k in num:
            close(num[k] / den[k], np.zeros(shape), f"{case['alg']}: chi^2 not stationary in {k}", rtol=0, atol=2e-4)
    ctx.label(case["alg"], case["mode"], "noise" if case["noise"] else "exact", "determined" if good else "underdetermined")
    ctx.nontrivial(any(len(g) > 1 for g in reds) and good)


def gen_first(draw):
    flip = ints(draw, 0, 4) == 4
    lay = grid_layout(draw, nx=(4, 5), ny=(4, 4)) if flip else grid_layout(draw, nx=(3, 4), ny=(1, 3))
    return dict(lay=lay, mode=pick(draw, ["1pol", "2pol"]), nt=ints(draw, 1, 3), nf=pick(draw, [64, 32, 128]), seed=seed(draw),
                off=pick(draw, [0.0, 0.3]), dly=pick(draw, [0.01, 0.05]), flip=flip, conj=flag(draw))


def check_first(case, ctx):
    redcal, pos, reds, rng, shape, gains, vis, data = build(case)
    freqs = np.linspace(1.0e8, 1.5e8, case["nf"])
    nyq = 0.5 / (freqs[1] - freqs[0])
    dly = {a: rng.uniform(-1, 1) * case["dly"] * nyq for a in gains}
    off = {a: rng.uniform(-1, 1) * case["off"] for a in gains}
    ants = sorted(gains)
    flips = [ants[int(rng.integers(len(ants)))]] if case["flip"] else []
    if flips:
        off = {a: o / 3 for a, o in off.items()}
        for a in flips:
            off[a] += np.pi
    g = {a: np.exp(2j * np.pi * dly[a] * freqs + 1j * off[a]) * np.ones(shape) for a in ants}
    vis, data = simulate(reds, rng, shape, g)
    dc = maybe_conj(data, case, rng)
    rc = redcal.RedundantCalibrator(reds)
    meta, sol = rc.firstcal(dc, freqs)
    require(set(sol.gains) == set(ants), "firstcal gains for the wrong antennas")
    found = {a for a, f in meta["polarity_flips"].items() if np.any(f)}
    if not flips:
        require(not found, f"firstcal reports polarity flips {sorted(found)} where there are none")
    # which antennas are flipped is a majority heuristic; where it got that right, the phases must align
    for gp in (reds if found == set(flips) else []):
        c0 = None
        for b in gp:
            ai, aj = ants_of(b)
            c = data[b] / (sol.gains[ai] * np.conj(sol.gains[aj]))
            if c0 is None:
                c0 = c
            close(np.angle(c * np.conj(c0)), np.zeros(shape), f"firstcal leaves {b} out of phase with {gp[0]}", rtol=0, atol=0.08)
            close(np.abs(c), np.abs(c0), f"firstcal changed amplitudes of {b}", rtol=1e-5)
    for a in ants:
        close(np.abs(sol.gains[a]), np.ones(shape), f"firstcal gain {a} not a pure phase", rtol=1e-5)
        exp = np.exp(2j * np.pi * np.asarray(meta["dlys"][a])[:, None] * freqs + 1j * np.asarray(meta["offs"][a])[:, None])
        close(sol.gains[a], exp, f"firstcal gain {a} is not exp(2 pi i tau nu + i phi) of its reported delay and offset", rtol=1e-4, atol=1e-4)
    ctx.label(case["mode"], "noflip" if not flips else "flip found" if found == set(flips) else "flip not found")
    ctx.nontrivial(any(len(x) > 1 for x in reds) and case["dly"] > 0)


def gen_chain(draw):
    d = gen_common(draw, four=True)
    d["lay"] = grid_layout(draw, nx=(3, 4), ny=(1, 3))
    d.update(nf=pick(draw, [32, 48]), nt=ints(draw, 1, 2), out=[ints(draw, 0, 11) for _ in range(ints(draw, 0, 2))],
             exbl=flag(draw), run_logcal=flag(draw) or flag(draw), nsamp=flag(draw))
    d.update(run_omnical=not d["run_logcal"] or ints(draw, 0, 3) > 0, degen=ints(draw, 0, 4) > 0, csq=ints(draw, 0, 4) > 0, sol0=ints(draw, 0, 3) == 0)
    return d


def check_chain(case, ctx):
    from hera_cal.datacontainer import DataContainer
    redcal, pos, allreds, rng, shape, gains, vis, data = build(case)
    freqs = np.linspace(1.2e8, 1.6e8, case["nf"])
    nyq = 0.5 / (freqs[1] - freqs[0])
    ants = sorted(gains)
    g = {a: np.exp(0.1 * rng.normal() + 2j * np.pi * rng.uniform(-0.03, 0.03) * nyq * freqs + 1j * rng.uniform(-0.25, 0.25))
         * (1 + 0.02 * np.sin(freqs / 1e7 * (1 + i))) * np.ones(shape) for i, a in enumerate(ants)}
    vis, data = simulate(allreds, rng, shape, g)
    full = dict(data)
    for a in ants:
        full[(a[0], a[0], a[1][1:])] = np.abs(g[a])**2 * 10.0 + 0j
    dc = maybe_conj(full, case, rng)
    times = 2458000.0 + np.arange(case["nt"]) * 10.0 / 86400
    dc.times, dc.freqs = times, freqs
    dc.times_by_bl = {}
    for b in dc:
        dc.times_by_bl[b[:2]] = times
        dc.times_by_bl[b[:2][::-1]] = times
    nums = sorted(pos)
    ex = sorted({nums[k % len(nums)] for k in case["out"]})
    if len(nums) - len(ex) < 4:
        ex = []
    reds = redcal.filter_reds(allreds, ex_ants=ex) if ex else [list(x) for x in allreds]
    if not reds:
        return
    if case["exbl"] and len(reds) > 3:   # leave some unique baselines out of the solve
        drop = [x[0] for x in reds if len(x) == 1][:2]
        if drop and {a for x in reds if x[0] not in drop for b in x for a in ants_of(b)} == {a for x in reds for b in x for a in ants_of(b)}:
            reds = redcal.filter_reds(reds, ex_ubls=drop)
    if not determined(redcal, reds) or not any(len(x) > 1 for x in reds):
        return
    if redcal.RedundantCalibrator(reds).count_degens() != redcal.RedundantCalibrator(allreds).count_degens():
        return  # the part solved is less constrained than the array: it cannot be extended consistently
    sol0, g0 = None, None
    if not case["sol0"]:
        _, fc = redcal.RedundantCalibrator(redcal.filter_reds(reds, max_dims=None)).firstcal(dc, freqs)
        g0 = {a: np.array(x) for a, x in fc.gains.items()}
    else:
        g0 = {a: g[a] * np.exp(0.05j * rng.normal(size=shape)) for x in reds for b in x for a in ants_of(b)}
        sol0 = redcal.RedSol(reds, gains={a: x.copy() for a, x in g0.items()})
        if not case["run_logcal"]:
            sol0.vis = redcal.RedSol(reds, gains=g0, vis={x[0]: vis_of(x, data, g0) for x in reds}).vis
    meta, sol = redcal.redundantly_calibrate(dc, reds, run_logcal=case["run_logcal"], oc_maxiter=1500, oc_conv_crit=1e-12, gain=0.4,
                                             check_every=10, check_after=50, max_dims=None, run_omnical=case["run_omnical"], remove_degen=case["degen"],
                                             compute_chisq=case["csq"], sol0=sol0)
    require(("omni_meta" in meta) == case["run_omnical"], f"omnical meta-data {'without' if not case['run_omnical'] else 'missing although'} omnical was run")
    require(("chisq" in meta) == ("chisq_per_ant" in meta) == case["csq"], "chi^2 that was not asked for, or none")
    require((meta["fc_meta"] is None) == case["sol0"], "firstcal results although a starting point was given, or none although it was not")
    for a in g0:
        close(meta["fc_gains"][a], g0[a], f"starting gain of {a}", rtol=1e-6, atol=1e-6)
    tol = 2e-3
    if not case["run_omnical"] and misfit(sol, data, reds) > tol:
        rc = redcal.RedundantCalibrator(reds)
        s0 = redcal.RedSol(reds, gains=g0)
        if misfit(rc.logcal(dc, sol0=s0)[1], data, reds) > tol > misfit(rc.logcal(dc, sol0=s0, mode="lsqr")[1], data, reds):
            ctx.label("linsolve's pseudo-inverse failed")
            return
    reconstructs(sol, data, reds, "redundantly_calibrate", tol)
    # degeneracies are those of firstcal
    s2 = sol.remove_degen(degen_sol=g0, inplace=False)
    for a in (sol.gains if case["degen"] else []):
        close(sol.gains[a], s2.gains[a], f"degeneracies of {a} differ from firstcal's", rtol=1e-3, atol=1e-3)
    cs = meta["chisq"] if case["csq"] else {}
    for v in (cs.values() if isinstance(cs, dict) else [cs]):
        require(np.all(np.isfinite(v)) or len(reds) == 0, "chisq not finite")
    # expand to everything reachable
    ns = DataContainer({b: np.ones(shape) * (3.0 if case["nsamp"] else 1.0) for b in full}) if case["nsamp"] else None
    solved = set(sol.gains)
    gfix = {a: x.copy() for a, x in sol.gains.items()}
    redcal.expand_omni_vis(sol, allreds, dc, ns)
    for x in allreds:
        reach = any(set(ants_of(b)) <= solved for b in x)
        require((x[0] in sol.vis) == reach, f"expand_omni_vis: group of {x[0]} {'missing' if reach else 'present'}")
        if reach:
            for b in x:
                if set(ants_of(b)) <= solved:
                    ai, aj = ants_of(b)
                    close(gfix[ai] * np.conj(gfix[aj]) * sol.vis[b], data[b], f"expanded vis {b}", rtol=2 * tol, atol=2 * tol)
    redcal.expand_omni_gains(sol, allreds, dc, ns)
    for a in solved:
        close(sol.gains[a], gfix[a], f"expand_omni_gains changed the solved gain {a}", rtol=0, atol=0)
    known = set(solved)
    while True:
        new = {a for x in allreds if x[0] in sol.vis for b in x for a in ants_of(b)
               if a not in known and (set(ants_of(b)) - {a}) <= known and len(set(ants_of(b))) == 2}
        if not new:
            break
        known |= new
    require(set(sol.gains) == known, f"expand_omni_gains solved {sorted(set(sol.gains) ^ known)} wrongly")
    for x in allreds:
        if x[0] in sol.vis:
            for b in x:
                ai, aj = ants_of(b)
                if ai in sol.gains and aj in sol.gains:
                    close(sol.gains[ai] * np.conj(sol.gains[aj]) * sol.vis[b], data[b], f"expanded gains: {b}", rtol=8 * tol, atol=8 * tol)
    ctx.label(case["mode"], f"ex{len(ex)}", "expanded" if known != solved else "notexpanded")
    ctx.nontrivial(True)


def vis_of(group, data, gains):
    return np.mean([data[b] / (gains[ants_of(b)[0]] * np.conj(gains[ants_of(b)[1]])) for b in group], axis=0)


def gen_upd(draw):
    d = gen_common(draw)
    d.update(wgt=pick(draw, ["none", "vary", "zeros"]), pz=pick(draw, [0.2, 0.6]), dead=ints(draw, 0, 3), miss=ints(draw, 0, 9),
             zerog=ints(draw, 0, 3) == 3)
    return d


def check_upd(case, ctx):
    """redundant averages and gain extension are the weighted sums they claim to be"""
    from hera_cal.datacontainer import DataContainer
    redcal, pos, reds, rng, shape, gains, vis, data = build(case)
    for b in data:
        data[b] = data[b] + 0.1 * (rng.normal(size=shape) + 1j * rng.normal(size=shape))
    dc = maybe_conj(data, case, rng)
    if case["zerog"]:
        a0 = sorted(gains)[0]
        gains[a0][0, 0] = 0.0
    w = None
    if case["wgt"] != "none":
        w = {b: rng.uniform(0.5, 2, size=shape) for b in data}
        if case["wgt"] == "zeros":
            for k, b in enumerate(w):
                w[b][rng.random(size=shape) < case["pz"]] = 0.0
                if k % 5 < case["dead"]:
                    w[b][:] = 0.0
    wc = None if w is None else DataContainer({b: x for b, x in w.items()})

    def cal(b):
        ai, aj = ants_of(b)
        g = gains[ai] * np.conj(gains[aj])
        return np.where(g == 0, data[b], data[b] / np.where(g == 0, 1, g))

    def expected(g):
        """None when the group is left alone"""
        wg = np.array([np.ones(shape) if w is None else w[b] for b in g])
        if np.all(wg == 0):
            return None
        alive = np.array([np.any(x != 0) for x in wg])
        empty = np.sum(wg, axis=0) == 0
        wg = np.where(empty[None] & alive[:, None, None], 1.0, wg)
        c = np.array([cal(b) for b in g])
        return np.sum(wg * c, axis=0) / np.sum(wg, axis=0)
    sol = redcal.RedSol(reds, gains={a: g.copy() for a, g in gains.items()})
    sol.update_vis_from_data(dc, wgts=wc)
    for g in reds:
        e = expected(g)
        if e is None:
            require(g[0] not in sol.vis, f"update_vis_from_data averaged the zero-weight group {g[0]}")
        else:
            close(sol.vis[g[0]], e, f"redundant average of {g[0]}", rtol=1e-6, atol=1e-8)
            close(sol.vis[rev(g[0])], np.conj(e), f"redundant average of reversed {g[0]}", rtol=1e-6, atol=1e-8)
    # extend one antenna's gain from the others
    ants = sorted(gains)
    miss = ants[case["miss"] % len(ants)]
    vs = {b: sol.vis[b] for b in [g[0] for g in reds] if b in sol.vis}
    sol2 = redcal.RedSol(reds, gains={a: g.copy() for a, g in gains.items() if a != miss}, vis={b: np.array(v) for b, v in vs.items()})
    sol2.extend_gains(dc, wgts=wc if wc is not None else {})
    num, den, hit = np.zeros(shape, dtype=complex), np.zeros(shape), False
    for g in reds:
        if g[0] not in vs:
            continue
        for b in g:
            ai, aj = ants_of(b)
            wb = np.ones(shape) if w is None else w[b]
            if ai == miss and aj != miss:
                m, d = np.conj(gains[aj]) * vs[g[0]], data[b]
            elif aj == miss and ai != miss:
                m, d = np.conj(gains[ai] * vs[g[0]]), np.conj(data[b])
            else:
                continue
            hit = True
            num = num + wb * np.conj(m) * d
            den = den + wb * np.abs(m)**2
    require((miss in sol2.gains) == hit, f"extend_gains {'missed' if hit else 'invented'} {miss}")
    if hit:
        close(sol2.gains[miss], np.where(den > 0, num / np.where(den > 0, den, 1), 1.0), f"extended gain of {miss}", rtol=1e-5, atol=1e-7)
    for a in ants:
        if a != miss:
            close(sol2.gains[a], gains[a], f"extend_gains changed {a}", rtol=0, atol=0)
    ctx.label("update " + case["wgt"])
    ctx.nontrivial(any(len(g) > 1 for g in reds) and case["wgt"] != "none")


SUBS = [Sub("logcal", gen_log, check_log, quick=240, thorough=4000, shards=4),
        Sub("iterative", gen_iter, check_iter, quick=120, thorough=2400, shards=8),
        Sub("firstcal", gen_first, check_first, quick=120, thorough=2000, shards=4),
        Sub("chain", gen_chain, check_chain, quick=80, thorough=1600, shards=8),
        Sub("update", gen_upd, check_upd, quick=200, thorough=4000, shards=4)]
