"""C07: absolute calibration recovers the degenerate parameters that separate data and model."""
import copy
import io as _io
import contextlib
import warnings

import numpy as np

from ..core import Sub, close, require, rng_of, same
from ..gens import flag, ints, pick, seed
from ..layouts import gen_layout, grid_layout, positions, true_groups
from ..redsim import ants_of, rev, sky

RULE = ("Random arrays with redundant random model visibilities; data = model times gains drawn from the family a solver fits "
        "(array-wide amplitude, phase gradient, delay slope, cross-pol phase, per-antenna amplitude/phase/delay), with some samples "
        "given zero weight and garbage values. Oracle: the gains returned, applied to the data, reproduce the model. Non-trivial: at "
        "least three antennas and gains that are not all one.")
ASSUMPTIONS = ["phases stay below the wrap each solver documents as its limit",
               "delay fits are judged to the accuracy of the interpolated FFT peak, everything else to numerical precision"]

POLS = [["ee"], ["nn"], ["ee", "nn"]]


def quiet(f, *a, **k):
    with warnings.catch_warnings(), contextlib.redirect_stdout(_io.StringIO()):
        warnings.simplefilter("ignore")
        return f(*a, **k)


def gen(draw):
    lay = grid_layout(draw, nx=(2, 4), ny=(2, 3)) if flag(draw) else gen_layout(draw, dims=2, nmin=3, nmax=6, span=2)
    return dict(lay=lay, pols=pick(draw, POLS + [["ee", "nn", "en", "ne"]]), nt=ints(draw, 1, 3), nf=ints(draw, 1, 4), seed=seed(draw), wgt=flag(draw),
                bad=flag(draw), flip=flag(draw), ref=flag(draw), order=flag(draw))


class Setup:
    def __init__(self, case, nt=None, nf=None, pols=None):
        from hera_cal.datacontainer import DataContainer
        self.pos = positions(case["lay"], 14.6)
        self.rng = rng = rng_of(case["seed"], "abs")
        self.shape = (nt or case["nt"], nf or case["nf"])
        self.pols = pols or case["pols"]
        self.ants = [(a, f"J{p}{p}") for a in sorted(self.pos) for p in ("e", "n") if any(p in q for q in self.pols)]
        self.model = {}
        for sep, g in sorted(true_groups(case["lay"]).items()):
            for p in self.pols:
                v = sky(rng, self.shape)
                for b in sorted(g):
                    k = b + (p,)
                    self.model[k] = v
        if case["flip"]:
            self.model = {(rev(k) if n % 3 == 1 else k): (np.conj(v) if n % 3 == 1 else v) for n, (k, v) in enumerate(self.model.items())}
        self.DC = DataContainer
        self.case = case

    def apply(self, gains):
        return {k: v * gains[ants_of(k)[0]] * np.conj(gains[ants_of(k)[1]]) for k, v in self.model.items()}

    def weights(self, data):
        """weights; where they are zero the data are garbage. At least one baseline in each group keeps weight everywhere."""
        if not self.case["wgt"]:
            return None, data, {k: np.ones(self.shape, dtype=bool) for k in data}
        w = {}
        seen = set()
        data = {k: v.copy() for k, v in data.items()}
        groups = {}
        for sep, g in true_groups(self.case["lay"]).items():
            for b in g:
                groups[b] = groups[b[::-1]] = sep
        for k in data:
            w[k] = self.rng.uniform(0.5, 2.0, size=self.shape)
            if (groups[k[:2]], min(k[2], rev(k)[2])) in seen:
                z = self.rng.random(size=self.shape) < 0.3
                w[k][z] = 0
                if self.case["bad"]:
                    data[k][z] = 1e3 * sky(self.rng, self.shape)[z]
            seen.add((groups[k[:2]], min(k[2], rev(k)[2])))
        return self.DC({k: v.copy() for k, v in w.items()}), data, {k: v > 0 for k, v in w.items()}

    def judge(self, data, good, gains, what, tol=1e-6):
        for k, d in data.items():
            ai, aj = ants_of(k)
            cal = d / (gains[ai] * np.conj(gains[aj]))
            close(np.where(good[k], cal, 0), np.where(good[k], self.model[k], 0), f"{what}: calibrated {k} is not the model", rtol=tol, atol=tol)


def per_pol(S, f):
    return {p: f() for p in sorted({a[1] for a in S.ants})}


def check_amp(case, ctx):
    """array-wide amplitudes: abs_amp_logcal, abs_amp_lincal"""
    from hera_cal import abscal
    S = Setup(case)
    A = per_pol(S, lambda: np.exp(S.rng.uniform(-1, 1, size=S.shape)))
    gains = {a: A[a[1]] + 0j for a in S.ants}
    wg, data, good = S.weights(S.apply(gains))
    for f, nm in ((abscal.abs_amp_logcal, "eta_"), (abscal.abs_amp_lincal, "A_")):
        d, m = S.DC(copy.deepcopy(data)), S.DC(copy.deepcopy(S.model))
        got = quiet(f, m, d, wgts=copy.deepcopy(wg), verbose=False, return_gains=True, gain_ants=S.ants)
        require(set(got) == set(S.ants), f"{f.__name__} returned gains for the wrong antennas")
        only_cross = all(p[0] != p[1] for p in S.pols)
        if not only_cross:
            for a in S.ants:
                close(got[a], gains[a], f"{f.__name__} amplitude of {a}", rtol=1e-5, atol=1e-6)
        fit = quiet(f, m, d, wgts=copy.deepcopy(wg), verbose=False)
        for p in A:
            e = np.exp(fit[nm + p]) if nm == "eta_" else np.abs(fit[nm + p])
            close(e, A[p], f"{f.__name__} parameter of {p}", rtol=1e-5, atol=1e-6)
        for k in data:
            same(d[k], data[k], f"{f.__name__} changed the data")
            same(m[k], S.model[k], f"{f.__name__} changed the model")
    # model and data that differ by a known factor: the estimate scales with it
    ctx.label("amp", f"npol {len(S.pols)}", "wgt" if case["wgt"] else "nowgt")
    ctx.nontrivial(len(S.pos) >= 3)


def slope_gains(S, dims, per=True, common=False, amp=None):
    """gains exp(i Phi_p . r) with phases of every baseline below pi"""
    span = max(max(np.linalg.norm(S.pos[a] - S.pos[b]) for a in S.pos for b in S.pos), 1.0)
    pols = sorted({a[1] for a in S.ants})
    phi = {p: (amp or 2.5) / span / np.sqrt(2) * S.rng.uniform(-1, 1, size=(2,) + S.shape) for p in pols}
    if common:
        phi = {p: phi[pols[0]] for p in pols}
    ref = S.pos[sorted(S.pos)[0]]
    return phi, {a: np.exp(1j * np.tensordot((S.pos[a[0]] - ref)[:2], phi[a[1]], axes=1)) for a in S.ants}


def check_tt(case, ctx):
    """tip-tilt: TT_phs_logcal (own phases per pol, or four_pol), complex_phase_abscal and cross_pol_phase_cal"""
    from hera_cal import abscal, redcal
    S = Setup(case)
    four = len(S.pols) == 4
    phi, gains = slope_gains(S, 2, common=four or case["order"], amp=1.5)
    psi = per_pol(S, lambda: S.rng.uniform(-0.5, 0.5, size=S.shape))
    zero = not four
    if not zero:
        # only the difference of the polarizations' phases shows up in visibilities
        gains = {a: g * np.exp(1j * psi[a[1]]) for a, g in gains.items()}
    wg, data, good = S.weights(S.apply(gains))
    fourp = case["order"] or four
    refant = sorted(S.pos)[-1] if case["ref"] else None
    got = quiet(abscal.TT_phs_logcal, S.DC(S.model), S.DC(data), S.pos, wgts=copy.deepcopy(wg), refant=refant, zero_psi=zero, four_pol=fourp,
                verbose=False, return_gains=True, gain_ants=S.ants)
    S.judge(data, good, got, "TT_phs_logcal")
    if refant is not None and zero:
        for a in S.ants:
            if a[0] == refant:
                close(got[a], np.ones(S.shape), "reference antenna is not left alone by TT_phs_logcal", atol=1e-8)
    # general positions (assume_2D False): any invertible transformation of the coordinates gives the same gains up to degeneracy
    if true_dim(S.pos) == 2:
        M = np.array([[1.0, 0.3], [-0.4, 1.2]])
        ap = {a: M @ p[:2] for a, p in S.pos.items()}
        g2 = quiet(abscal.TT_phs_logcal, S.DC(S.model), S.DC(data), ap, wgts=copy.deepcopy(wg), refant=refant, zero_psi=zero, four_pol=fourp, assume_2D=False,
                   verbose=False, return_gains=True, gain_ants=S.ants)
        S.judge(data, good, g2, "TT_phs_logcal (general positions)")
    ctx.label("four" if fourp else "perpol", f"npol {len(S.pols)}")
    ctx.nontrivial(len(S.pos) >= 3)


def true_dim(pos):
    P = np.array(list(pos.values()))
    return np.linalg.matrix_rank(P - P[0], tol=1e-3)


def check_cphase(case, ctx):
    """complex_phase_abscal finds the gradient without wrap limits; cross_pol_phase_cal the phase between polarizations"""
    from hera_cal import abscal, redcal
    S = Setup(case, pols=["ee", "nn", "en", "ne"])
    delta = S.rng.uniform(-3, 3, size=S.shape)
    refpol = "Jee" if case["order"] else "Jnn"
    gains = {a: np.ones(S.shape) * (1 if a[1] == refpol else np.exp(1j * delta)) for a in S.ants}
    wg, data, good = S.weights(S.apply(gains))
    bls = sorted(data)
    kw = {} if wg is None else dict(wgts={k: wg[k] for k in bls})
    if not case["bad"] or wg is None or wg is not None:
        got = quiet(abscal.cross_pol_phase_cal, S.DC(S.model), S.DC(data), bls, bls, return_gains=True, gain_ants=S.ants, refpol=refpol, **kw)
        for a in S.ants:
            close(got[a], gains[a], f"cross_pol_phase_cal gain of {a}", rtol=1e-6, atol=1e-6)
        ang = quiet(abscal.cross_pol_phase_cal, S.DC(S.model), S.DC(data), bls, bls, refpol=refpol, **kw)
        close(np.exp(1j * ang), np.exp(1j * delta), "cross_pol_phase_cal phase", rtol=1e-6, atol=1e-6)
    # phase gradients, one polarization, unlimited wraps: integer grid
    reds = redcal.get_reds(S.pos, pols=["ee"])
    if case["wgt"] and len(reds) > 2:    # fewer groups
        reds = [g for n, g in enumerate(reds) if n % 3 != 2]
    full = redcal.get_reds(S.pos, pols=["ee"])
    ap = redcal.reds_to_antpos(full)
    vecs = np.array([ap[g[0][0]] - ap[g[0][1]] for g in full])
    if np.linalg.matrix_rank(vecs, tol=1e-6) < len(vecs[0]):
        return
    lam = S.rng.uniform(-3, 3, size=S.shape + (len(vecs[0]),))
    g = {(a, "Jee"): np.exp(1j * np.sum(lam * r, axis=-1)) for a, r in ap.items()}
    dbl = [x[0] for x in full]
    model = S.DC({b: S.model[b] if b in S.model else np.conj(S.model[rev(b)]) for b in dbl})
    d2 = S.DC({b: model[b] * g[b[0], "Jee"] * np.conj(g[b[1], "Jee"]) for b in dbl})
    meta, dg = quiet(abscal.complex_phase_abscal, d2, model, full, dbl, dbl)
    for b in dbl:
        i, j = (b[0], "Jee"), (b[1], "Jee")
        close(d2[b] / (dg[i] * np.conj(dg[j])), model[b], f"complex_phase_abscal does not calibrate {b}", rtol=2e-3, atol=2e-3)
    close(meta["Z_sol"], np.ones(S.shape), "complex_phase_abscal objective", atol=1e-4)
    # the n-dimensional FFT used as a first guess lands on the right fringe
    lam = S.rng.uniform(-1.5, 1.5, size=(len(vecs[0]),) + S.shape)
    bv = {b: np.asarray(ap[b[0]] - ap[b[1]]) for b in dbl}
    got = quiet(abscal.ndim_fft_phase_slope_solver, {b: np.exp(1j * np.tensordot(bv[b], lam, axes=1)) for b in dbl}, bv, assume_2D=False, bl_error_tol=1e-3)
    coh = np.mean([np.exp(1j * np.tensordot(bv[b], lam - np.array(got), axes=1)) for b in dbl], axis=0).real
    comp = np.array(list(bv.values()))
    unit = [np.min(np.abs(c)[np.abs(c) > 1e-3]) for c in comp.T]
    regular = np.allclose(comp / unit, np.round(comp / unit), atol=1e-6)    # else the grid it uses does not hold the baselines
    require(not regular or np.all(coh > 0.45), f"ndim_fft_phase_slope_solver is off the fringe: coherence {coh.min()} with slopes {lam.tolist()} got {np.array(got).tolist()}")
    ctx.nontrivial(len(S.pos) >= 3)
    ctx.label(f"dims {len(vecs[0])}")


def check_ant(case, ctx):
    """per-antenna solvers: amp_logcal, phs_logcal, and the AbsCal object around them"""
    from hera_cal import abscal
    S = Setup(case)
    if len(S.pos) < 3:
        return
    eta = {a: S.rng.uniform(-0.5, 0.5, size=S.shape) for a in S.ants}
    phi = {a: S.rng.uniform(-1.2, 1.2, size=S.shape) for a in S.ants}
    refant = sorted(S.pos)[-1] if case["ref"] else sorted(S.pos)[0]
    if len(S.pols) == 4:
        # with cross-polarizations the reference antenna's two phases are observable, but both are fixed to zero by construction
        phi[(refant, "Jnn")] = phi[(refant, "Jee")]
    gains = {a: np.exp(eta[a] + 1j * phi[a]) for a in S.ants}
    data = S.apply(gains)
    wg = None
    good = {k: np.ones(S.shape, dtype=bool) for k in data}
    if case["wgt"]:
        wg = {k: S.rng.uniform(0.5, 2, size=S.shape) for k in data}
    DCw = None if wg is None else S.DC(copy.deepcopy(wg))
    fit = quiet(abscal.amp_logcal, S.DC(S.model), S.DC(data), wgts=copy.deepcopy(DCw), verbose=False)
    for a in S.ants:
        close(fit[f"eta_{a[0]}_{a[1]}"], eta[a], f"amp_logcal of {a}", atol=1e-6)
    fit = quiet(abscal.phs_logcal, S.DC(S.model), S.DC(data), wgts=copy.deepcopy(DCw), refant=refant, verbose=False)
    S.judge(data, good, {a: np.exp(eta[a] + 1j * fit[f"phi_{a[0]}_{a[1]}"]) for a in S.ants}, "phs_logcal")
    if len(S.pols) < 4:
        for a in S.ants:
            if a[0] == refant:
                close(fit[f"phi_{a[0]}_{a[1]}"], np.zeros(S.shape), f"phs_logcal phase of the reference antenna {a}", atol=1e-6)
    AC = quiet(abscal.AbsCal, S.DC(S.model), S.DC(data), refant=refant, wgts=copy.deepcopy(DCw), antpos=S.pos, freqs=1e8 + 1e5 * np.arange(S.shape[1]))
    quiet(AC.amp_logcal, verbose=False)
    quiet(AC.phs_logcal, verbose=False)
    ga, gp = AC.ant_eta_gain, AC.ant_phi_gain
    S.judge(data, good, {a: ga[a] * gp[a] for a in S.ants}, "AbsCal amp_logcal and phs_logcal")
    arr = AC.ant_eta_gain_arr * AC.ant_phi_gain_arr
    mg = abscal.merge_gains([ga, gp])
    require(set(mg) == set(S.ants), "merge_gains lost antennas")
    for n, pk in enumerate(AC._gain_keys):
        for m, a in enumerate(pk):
            a = (int(a[0]), str(a[1]))
            close(arr[m, ..., n], ga[a] * gp[a], f"AbsCal gain array at {a}", rtol=1e-10)
            close(mg[a], ga[a] * gp[a], f"merge_gains of {a}", rtol=1e-10)
    ctx.label(f"npol {len(S.pols)}", "wgt" if case["wgt"] else "nowgt")
    ctx.nontrivial()


def gen_dly(draw):
    c = gen(draw)
    c.update(pols=pick(draw, POLS), nf=pick(draw, [32, 47, 64]), nt=ints(draw, 1, 2), edge=pick(draw, [0, 0, 1, 3, 5]), time_avg=flag(draw), kern=pick(draw, [1, 3, 5]))
    return c


def check_dly(case, ctx):
    """delay slopes and global phase slopes"""
    from hera_cal import abscal, utils
    S = Setup(case)
    nt, nf = S.shape
    df, f0 = 1.2e5, 1.2e8
    freqs = f0 + df * np.arange(nf)
    # one delay per waterfall: fft_dly
    tau = S.rng.uniform(-0.35, 0.35, size=(nt, 1)) / df
    off = S.rng.uniform(-3, 3, size=(nt, 1))
    wf = np.exp(2j * np.pi * freqs * tau + 1j * off)
    w = np.ones(S.shape)
    n_eff = nf - 2 * case["edge"]
    if case["bad"] and case["edge"]:
        wf = wf.copy()
        wf[:, :case["edge"]] = 1e4
        wf[:, nf - case["edge"]:] = -1e4
    dly, offset = quiet(utils.fft_dly, wf.copy(), df, wgts=w, f0=f0, medfilt=False, edge_cut=case["edge"])
    require(dly.shape == (nt, 1) and offset.shape == (nt, 1), "fft_dly shapes")
    res = 1.0 / (n_eff * df)
    close(dly / res, tau / res, "fft_dly delay (in resolution elements)", rtol=0, atol=0.03)
    # what is left after taking the fit out: the offset fits the weighted mean phase
    cen = slice(case["edge"], nf - case["edge"])
    left = np.angle(np.sum((wf * np.exp(-2j * np.pi * freqs * dly - 1j * offset))[:, cen], axis=1))
    close(left, np.zeros(nt), "fft_dly offset", atol=2e-2)
    # delay slope across the array
    span = max(max(np.linalg.norm(S.pos[a] - S.pos[b]) for a in S.pos for b in S.pos), 1.0)
    pols = sorted({a[1] for a in S.ants})
    T = {p: 0.3 / df / span / np.sqrt(2) * S.rng.uniform(-1, 1, size=(2, nt)) for p in pols}
    if case["time_avg"]:
        T = {p: np.repeat(t[:, :1], nt, axis=1) for p, t in T.items()}
    if case["order"]:
        T = {p: T[pols[0]] for p in pols}
    g = {a: np.exp(2j * np.pi * np.outer(np.tensordot(S.pos[a[0]][:2], T[a[1]], axes=1), freqs)) for a in S.ants}
    data = S.apply(g)
    wg, data, good = S.weights(data)
    if case["bad"] and case["edge"] and wg is None:
        for k in data:
            data[k] = data[k].copy()
            data[k][:, :case["edge"]] *= 1j
            data[k][:, nf - case["edge"]:] *= -1
    bw = None if wg is None else S.DC({k: (wg[k] > 0).astype(float) for k in wg})
    got = quiet(abscal.delay_slope_lincal, S.DC(copy.deepcopy(S.model)), S.DC(copy.deepcopy(data)), S.pos, wgts=bw, df=df, f0=f0, medfilt=False, kernel=(1, case["kern"]),
                four_pol=case["order"], edge_cut=case["edge"], time_avg=case["time_avg"], return_gains=True, gain_ants=S.ants, verbose=False)
    if wg is None:
        ref = sorted(S.pos)[0]
        for k in data:
            ai, aj = ants_of(k)
            r = got[ai] * np.conj(got[aj]) / (g[ai] * np.conj(g[aj]))
            slope = np.angle(np.sum(r[:, 1:] * np.conj(r[:, :-1]), axis=1)) / (2 * np.pi * df)
            require(np.all(np.abs(slope) < 0.05 * res), f"delay_slope_lincal leaves a delay of {np.abs(slope).max() / res} resolution elements on {k}")
    # frequency-independent phase slopes
    S2 = Setup(case, nf=12)
    phi = {p: 2.2 / span / np.sqrt(2) * S2.rng.uniform(-1, 1, size=(2, nt, 1)) for p in pols}
    if case["time_avg"]:
        phi = {p: np.repeat(x[:, :1], nt, axis=1) for p, x in phi.items()}
    g = {a: np.exp(1j * np.tensordot(S2.pos[a[0]][:2], phi[a[1]], axes=1)) * np.ones(S2.shape) for a in S2.ants}
    wg, data, good = S2.weights(S2.apply(g))
    e = min(case["edge"], 4)
    bw = None if wg is None else S2.DC({k: (wg[k] > 0).astype(float) for k in wg})
    before = copy.deepcopy(data)
    dc = S2.DC(data)
    got = quiet(abscal.global_phase_slope_logcal, S2.DC(S2.model), dc, S2.pos, solver="linfit", wgts=bw, edge_cut=e, time_avg=case["time_avg"],
                return_gains=True, gain_ants=S2.ants, verbose=False, assume_2D=True, tol=1.0)
    for k in before:
        same(dc[k], before[k], "global_phase_slope_logcal changed the data")
    S2.judge(data, good, got, "global_phase_slope_logcal")
    ctx.label("edge" if case["edge"] else "noedge", "tavg" if case["time_avg"] else "per-time")
    ctx.nontrivial(len(S.pos) >= 3)


def gen_peak(draw):
    return dict(n=ints(draw, 5, 30), rows=ints(draw, 1, 6), flat=flag(draw), method=pick(draw, ["quinn", "quadratic"]), rej=flag(draw), scale=ints(draw, -12, 6), seed=seed(draw))


def check_peak(case, ctx):
    """interp_peak: each row's answer is its own, parabolas and pure tones are located, flat data give no shift"""
    from hera_cal import utils
    rng = rng_of(case["seed"], "peak")
    n, rows = case["n"], case["rows"]
    x = np.arange(n)
    if case["method"] == "quadratic":
        c = rng.uniform(1.6, n - 2.6, size=(rows, 1))
        d = 10.0 ** case["scale"] * (5.0 - (rng.uniform(0.2, 1, size=(rows, 1)) / n**2) * (x - c)**2)
        truth = c[:, 0]
    else:
        f = rng.uniform(1.6, n - 2.6, size=(rows, 1))
        d = 10.0 ** case["scale"] * np.fft.fft(np.exp(2j * np.pi * f * x / n), axis=1)
        truth = f[:, 0]
    if case["flat"]:
        d[rng.integers(rows)] = d[0, 0] if case["method"] == "quadratic" else 0
    with np.errstate(all="ignore"):
        full = quiet(utils.interp_peak, d.copy(), method=case["method"], reject_edges=case["rej"])
        for r in range(rows):
            one = quiet(utils.interp_peak, d[r:r + 1].copy(), method=case["method"], reject_edges=case["rej"])
            for nm, a, b in zip(("index", "shift", "peak", "interpolated peak"), full, one):
                close(a[r:r + 1], b, f"interp_peak {nm} of a row depends on other rows", rtol=1e-10, atol=0)
    for r in range(rows):
        if np.ptp(np.abs(d[r])) == 0:
            if case["method"] == "quadratic" and not case["rej"]:
                require(full[1][r] == 0, f"interp_peak of flat data shifts by {full[1][r]}")
            continue
        tol = (0.02 if n >= 16 else 0.2) if case["method"] == "quinn" else 1e-5
        if case["method"] == "quadratic" and case["scale"] < -3:
            # below the absolute tolerance of the curvature test, no sub-bin shift is attempted
            require(abs(full[0][r] + full[1][r] - truth[r]) < 0.51, "interp_peak location")
        else:
            close(full[0][r] + full[1][r], truth[r], "interp_peak location", rtol=0, atol=tol)
    ctx.label(case["method"], "flat" if case["flat"] else "peaks")
    ctx.nontrivial(rows > 1)


def gen_obj(draw):
    c = gen(draw)
    c.update(pols=pick(draw, [["ee"], ["ee", "nn"], ["nn", "ee"], ["ee", "nn", "en", "ne"]]), nf=pick(draw, [32, 48]), nt=ints(draw, 1, 2), four=flag(draw), cut=pick(draw, [None, None, "min", "max", "both"]), taper=pick(draw, [None, None, 20.0, 100.0]),
             edge=pick(draw, [0, 0, 3]), tavg=flag(draw), rw=flag(draw))
    return c


def check_obj(case, ctx):
    """The AbsCal object: what it keeps of its input, and the gains its array-wide solvers offer, for its own antennas and for any others."""
    from hera_cal import abscal
    S = Setup(case)
    if true_dim(S.pos) < 2:
        return
    nt, nf = S.shape
    df, f0 = 1.2e5, 1.2e8
    freqs = f0 + df * np.arange(nf)
    pols = sorted({a[1] for a in S.ants})
    four = case["four"] or len(S.pols) == 4
    span = max(max(np.linalg.norm(S.pos[a] - S.pos[b]) for a in S.pos for b in S.pos), 1.0)
    refant = sorted(S.pos)[-1] if case["ref"] else sorted(S.pos)[0]

    def make(gains, **kw):
        data = S.apply(gains)
        d, m = S.DC(copy.deepcopy(data)), S.DC(copy.deepcopy(S.model))
        w = S.DC({k: S.rng.uniform(0.5, 2.0, size=S.shape) for k in data}) if case["rw"] else None
        w0 = copy.deepcopy(w)
        AC = quiet(abscal.AbsCal, m, d, refant=refant, wgts=w, antpos=S.pos, freqs=freqs, **kw)
        for k in data:
            same(d[k], data[k], "AbsCal changed the data it was given")
            same(m[k], S.model[k], "AbsCal changed the model it was given")
            if w is not None:
                same(w[k], w0[k], "AbsCal changed the weights it was given")
        return AC, data, w0

    # ---- baseline cuts and tapers
    one = {a: np.ones(S.shape, dtype=complex) for a in S.ants}
    lens = {k: np.linalg.norm(S.pos[k[0]] - S.pos[k[1]]) for k in S.model}
    kw = {}
    ls = sorted(set(np.round(list(lens.values()), 6)))
    if case["cut"] in ("min", "both") and len(ls) > 2:
        kw["min_bl_cut"] = (ls[0] + ls[1]) / 2
    if case["cut"] in ("max", "both") and len(ls) > 2:
        kw["max_bl_cut"] = (ls[-1] + ls[-2]) / 2
    keep = {k for k in S.model if kw.get("min_bl_cut", 0) <= lens[k] <= kw.get("max_bl_cut", 1e9)}
    if any(refant in k[:2] for k in keep):
        if case["taper"]:
            kw["bl_taper_fwhm"] = case["taper"]
        AC, data, w0 = make(one, **kw)
        require(set(AC.keys) == set(AC.data.keys()) == set(AC.model.keys()) == keep, f"baselines {sorted(AC.keys)} kept, of lengths {kw} are {sorted(keep)}")
        require({int(a) for a in AC.ants} == {a for k in keep for a in k[:2]}, f"antennas {AC.ants}")
        fac = {}
        for k in keep:
            f = AC.wgts[k] / (1.0 if w0 is None else w0[k])
            require(np.ptp(f) < 1e-9, "the taper depends on more than the baseline")
            fac.setdefault(round(lens[k], 5), []).append(f.flat[0])
        require(all(np.ptp(v) < 1e-9 for v in fac.values()), "the taper depends on more than the length")
        t = [fac[x][0] for x in sorted(fac)]
        if case["taper"]:
            require(t[0] <= 1 and all(x > y or x < 1e-12 for x, y in zip(t[:-1], t[1:])), f"taper {t} at lengths {sorted(fac)}")
        else:
            close(t, np.ones(len(t)), "weights changed without a taper")
    # ---- array-wide solutions
    extra = {max(S.pos) + 5: np.array([31.0, -17.0, 0.0])}
    epos = {**{a: p - S.pos[refant] for a, p in S.pos.items()}, **extra}
    ekeys = [(a, p) for a in epos for p in pols]

    def same_gains(own, custom, arr, what):
        """for the object's own antennas custom gains are its gains; arrays hold them up to a phase common to all antennas"""
        require({(int(a), str(p)) for a, p in own} == set(S.ants), f"{what}: gains of {sorted(own)}")
        own = {(int(a), str(p)): g for (a, p), g in own.items()}
        require(set(custom) == set(ekeys), f"{what}: custom gains of {sorted(custom)}")
        for a in S.ants:
            close(custom[a], own[a] * np.ones_like(custom[a]), f"{what}: custom gain of {a}", rtol=1e-8)
        for n, pk in enumerate(AC._gain_keys):
            r = np.array([arr[m, ..., n] / own[int(a[0]), str(a[1])] for m, a in enumerate(pk)])
            close(r, np.broadcast_to(r[:1], r.shape), f"{what}: array of gains", rtol=1e-7, atol=1e-8)
            close(np.abs(r), np.ones(r.shape), f"{what}: array of gains", rtol=1e-7, atol=1e-8)
        return own

    A = per_pol(S, lambda: np.exp(S.rng.uniform(-1, 1, size=S.shape)))
    AC, data, _ = make({a: A[a[1]] + 0j for a in S.ants})
    good = {k: np.ones(S.shape, dtype=bool) for k in data}
    require(all(getattr(AC, x) is None for x in ("abs_eta", "abs_eta_gain", "TT_Phi_gain", "dly_slope_gain", "phs_slope_gain", "ant_dly_gain")), "solutions before solving")
    quiet(AC.abs_amp_logcal, verbose=False)
    own = same_gains(AC.abs_eta_gain, AC.custom_abs_eta_gain(ekeys), AC.abs_eta_gain_arr, "abs_amp_logcal")
    S.judge(data, good, own, "AbsCal.abs_amp_logcal")
    # tip-tilt
    phi, g = slope_gains(S, 2, common=four, amp=1.5)
    zero = len(S.pols) < 4
    if not zero:
        psi = per_pol(S, lambda: S.rng.uniform(-0.5, 0.5, size=S.shape))
        g = {a: x * np.exp(1j * psi[a[1]]) for a, x in g.items()}
    AC, data, _ = make(g)
    quiet(AC.TT_phs_logcal, verbose=False, zero_psi=zero, four_pol=four)
    tt = same_gains(AC.TT_Phi_gain, AC.custom_TT_Phi_gain(ekeys, epos), AC.TT_Phi_gain_arr, "TT_phs_logcal")
    ps = same_gains(AC.abs_psi_gain, AC.custom_abs_psi_gain(ekeys), AC.abs_psi_gain_arr, "TT_phs_logcal psi")
    S.judge(data, good, {a: tt[a] * ps[a] for a in S.ants}, "AbsCal.TT_phs_logcal")
    # delay and phase slopes
    T = {p: 0.3 / df / span / np.sqrt(2) * S.rng.uniform(-1, 1, size=(2, nt)) for p in pols}
    if case["tavg"]:
        T = {p: np.repeat(t[:, :1], nt, axis=1) for p, t in T.items()}
    if four:
        T = {p: T[pols[0]] for p in pols}
    tau = {a: np.tensordot(S.pos[a[0]][:2], T[a[1]], axes=1)[:, None] for a in S.ants}
    AC, data, _ = make({a: np.exp(2j * np.pi * tau[a] * freqs) for a in S.ants})
    for k in data:
        if case["edge"]:
            AC.data[k][:, :case["edge"]] *= 1j
            AC.data[k][:, nf - case["edge"]:] *= -1
    res = 1.0 / ((nf - 2 * case["edge"]) * df)
    quiet(AC.delay_slope_lincal, verbose=False, medfilt=False, kernel=(1, 3), four_pol=four, time_avg=case["tavg"], edge_cut=case["edge"])
    own = same_gains(AC.dly_slope_gain, AC.custom_dly_slope_gain(ekeys, epos), AC.dly_slope_gain_arr, "delay_slope_lincal")
    sl = {(int(a), str(p)): np.tensordot(S.pos[a][:2], x[..., 0], axes=1)[:, None] for (a, p), x in AC.dly_slope.items()}
    quiet(AC.delay_lincal, verbose=False, medfilt=False, kernel=(1, 3), time_avg=case["tavg"], edge_cut=case["edge"])
    dl = {(int(a), str(p)): x for (a, p), x in AC.ant_dly.items()}
    for k in data:
        i, j = ants_of(k)
        for what, x in (("delay_slope_lincal", sl), ("delay_lincal", dl)):
            left = np.abs((x[i] - x[j]) - (tau[i] - tau[j])) / res
            require(np.all(left < (0.4 if case["rw"] else 0.06)), f"AbsCal.{what} is off by {left.max()} resolution elements on {k}")
        gi, gj = AC.ant_dly_gain, AC.ant_dly_phi_gain
        close(gi[i], np.exp(2j * np.pi * freqs * dl[i]), "ant_dly_gain")
        require(gj[i].shape == S.shape, "ant_dly_phi_gain")
        close(own[i] * np.conj(own[j]), np.exp(2j * np.pi * freqs * (sl[i] - sl[j])), "dly_slope_gain", rtol=1e-6, atol=1e-6)
    phi = {p: 2.2 / span / np.sqrt(2) * S.rng.uniform(-1, 1, size=(2, nt, 1)) for p in pols}
    if len(S.pols) == 4:
        phi = {p: phi[pols[0]] for p in pols}
    AC, data, _ = make({a: np.exp(1j * np.tensordot(S.pos[a[0]][:2] - S.pos[refant][:2], phi[a[1]], axes=1)) * np.ones(S.shape) for a in S.ants})
    quiet(AC.global_phase_slope_logcal, verbose=False, edge_cut=case["edge"])
    own = same_gains(AC.phs_slope_gain, AC.custom_phs_slope_gain(ekeys, epos), AC.phs_slope_gain_arr, "global_phase_slope_logcal")
    S.judge(data, good, own, "AbsCal.global_phase_slope_logcal")
    ctx.label(f"npol {len(S.pols)}", f"four={four}", f"cut={case['cut']}", f"taper={case['taper']}")
    ctx.nontrivial()


def gen_chain(draw):
    c = gen(draw)
    c.update(lay=grid_layout(draw, nx=(3, 4), ny=(2, 3)), pols=pick(draw, POLS), nf=pick(draw, [40, 64]), nt=ints(draw, 1, 2), flagged=pick(draw, [0, 0, 1, 2]), lin=flag(draw), log=flag(draw))
    return c


def check_chain(case, ctx):
    """post_redcal_abscal on data that differ from the model by degenerate gains"""
    from hera_cal import abscal
    S = Setup(case)
    nt, nf = S.shape
    df, f0 = 1.22e5, 1.2e8
    freqs = f0 + df * np.arange(nf)
    pols = sorted({a[1] for a in S.ants})
    if not case["log"] and not case["lin"]:
        A = {p: np.ones((nt, nf)) for p in pols}
    else:
        A = {p: np.exp(S.rng.uniform(-0.7, 0.7, size=S.shape)) for p in pols}
    span = max(max(np.linalg.norm(S.pos[a] - S.pos[b]) for a in S.pos for b in S.pos), 1.0)
    g = {}
    T = {p: 30e-9 / span * S.rng.uniform(-1, 1, size=2) for p in pols}
    phi = {p: 0.4 / 14.6 * S.rng.uniform(-1, 1, size=2) for p in pols}
    tt = {p: 0.15 / span * S.rng.uniform(-1, 1, size=(2,) + S.shape) for p in pols}
    ref = sum(S.pos.values()) / len(S.pos)
    for a in S.ants:
        r = (S.pos[a[0]] - ref)[:2]
        ph = 2 * np.pi * (r @ T[a[1]]) * freqs[None] + r @ phi[a[1]] + np.tensordot(r, tt[a[1]], axes=1)
        g[a] = A[a[1]] * np.exp(1j * ph)
    data = S.apply(g)
    rc = {a: np.zeros(S.shape, dtype=bool) for a in S.ants}
    good = {k: np.ones(S.shape, dtype=bool) for k in data}
    wg = S.DC({k: S.rng.uniform(0.5, 2.0, size=S.shape) if case["wgt"] else np.ones(S.shape) for k in data})
    for n in range(case["flagged"]):
        # a flagged corner antenna: its data is garbage and has no weight
        bad = sorted(S.pos)[0 if n == 0 else -1]
        for a in S.ants:
            if a[0] == bad:
                rc[a][:] = True
        for k in data:
            if bad in k[:2]:
                data[k] = data[k] * 3e2 * sky(S.rng, S.shape)
                wg[k] = np.zeros(S.shape)
                good[k] = np.zeros(S.shape, dtype=bool)
    dc = S.DC(copy.deepcopy(data))
    dc.antpos, dc.data_antpos, dc.freqs = S.pos, S.pos, freqs
    out = quiet(abscal.post_redcal_abscal, S.DC(copy.deepcopy(S.model)), dc, copy.deepcopy(wg), rc, verbose=False, kernel=(1, 3),
                use_abs_amp_logcal=case["log"] or not case["lin"], use_abs_amp_lincal=case["lin"])
    require(set(out) == set(S.ants), "post_redcal_abscal returned gains for the wrong antennas")
    S.judge(data, good, out, "post_redcal_abscal", tol=2e-4)
    ctx.label(f"npol {len(S.pols)}", f"flagged {case['flagged']}")
    ctx.nontrivial()


SUBS = [Sub("amp", gen, check_amp, quick=100, thorough=2000, shards=2),
        Sub("tiptilt", gen, check_tt, quick=100, thorough=2000, shards=2),
        Sub("gradient", gen, check_cphase, quick=60, thorough=1000, shards=2),
        Sub("antenna", gen, check_ant, quick=80, thorough=1500, shards=2),
        Sub("delay", gen_dly, check_dly, quick=80, thorough=1500, shards=3),
        Sub("peak", gen_peak, check_peak, quick=150, thorough=4000, shards=1),
        Sub("object", gen_obj, check_obj, quick=48, thorough=800, shards=4),
        Sub("chain", gen_chain, check_chain, quick=32, thorough=600, shards=5)]
