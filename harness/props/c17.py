"""C17: LST-stack calibration removes each night's degenerate gains, and its solution files give back the same gains."""
import itertools
import math
import os

import numpy as np

from ..core import Sub, close, require, rng_of, same
from ..gens import flag, ints, perm, pick, seed
from ..layouts import gen_layout, grid_layout, lattice, positions
from ..lstsim import TWOPI, jd_for_lst, quiet
from ..uvsim import freqs_of, make_uvd

RULE = ("abs: stacks of model x amplitude x tip-tilt x cross-polarization phase per night and channel, with flagged nights, channels, baselines and samples, in-painted samples and garbage under flags, judged by calibrated stack = model; "
        "smooth: the same with gains smooth in frequency, smoothed per band; file: solution files read back, and gains from them against the closed form, with LST selection. Non-trivial: at least two nights or partial flags.")
ASSUMPTIONS = ["the unflagged baselines of every night, channel and polarization span the array's phase degeneracies, so that a tip-tilt solution exists",
               "phase solutions are single precision (jax), hence tolerances of 2e-3", "model amplitudes within a factor of 1.6, so that the phase solver's grid cannot miss the highest maximum", "both feeds' parallel polarizations are in the stack", "samples are usable when unflagged (in-painted ones only if use_inpainted_data)"]
JP = {"e": "Jee", "n": "Jnn"}


def minors(V):
    """gcd of the determinants of all square selections of rows: 0 if they do not span, else the index of the lattice they generate"""
    g, d = 0, V.shape[1]
    for rows in itertools.combinations(range(len(V)), d):
        g = math.gcd(g, int(round(abs(np.linalg.det(V[list(rows)])))))
        if g == 1:
            break
    return g


class World:
    def __init__(self, case, smooth=False):
        self.case = case
        rng = self.rng = rng_of(case["seed"])
        lay = case["lay"]
        self.lat = {a: np.array(c[:2], dtype=float) for a, c in lattice(lay).items()}
        self.enu = positions(lay, 14.6)
        ants = sorted(self.enu)
        self.pols = case["pols"]
        self.nn, self.nf = case["nn"], case["nf"]
        self.freqs = freqs_of(self.nf, df=0.5e6)
        pairs = [(a, b) for k, a in enumerate(ants) for b in ants[k + 1:]]
        if case["red"]:      # one baseline of each redundant group, as in redundantly averaged data
            seen, keep = set(), []
            for a, b in pairs:
                v = self.lat[b] - self.lat[a]
                key = max(tuple(v), tuple(-v))
                if key not in seen:
                    seen.add(key)
                    keep.append((a, b))
            pairs = keep
        pairs = [p if rng.integers(2) else p[::-1] for p in pairs]
        rng.shuffle(pairs)
        self.pairs = [tuple(int(x) for x in p) for p in pairs]
        self.autos = [(a, a) for a in ants][:case["nauto"]]
        self.times = 2459500.3 + 0.99727 * np.arange(self.nn)
        sh = (self.nn, self.nf)
        nu = (self.freqs - self.freqs[0]) / 1e9       # GHz: delays in ns

        self.A, self.lam, self.delta = {}, {}, np.zeros(sh)
        for p in ("e", "n"):
            if smooth:
                t, ph = rng.uniform(0, 40, size=(self.nn, 1)), rng.uniform(0, 6, size=(self.nn, 1))
                self.A[p] = rng.uniform(0.8, 1.3, size=(self.nn, 1)) * (1 + 0.1 * np.cos(TWOPI * t * nu + ph))
                self.lam[p] = rng.uniform(-1, 1, size=(self.nn, 1, 2)) + TWOPI * rng.uniform(-15, 15, size=(self.nn, 1, 2)) * nu[:, None]
            else:
                self.A[p] = rng.uniform(0.6, 1.5, size=sh)
                self.lam[p] = rng.uniform(-3, 3, size=sh + (2,))
            if not case["amp"]:
                self.A[p] = np.ones(sh)
            if not case["phs"]:
                self.lam[p] = np.zeros(sh + (2,))
        if case["xpol"] and len(self.pols) == 4:
            self.delta = rng.uniform(-3, 3, size=(self.nn, 1)) + (TWOPI * rng.uniform(-15, 15, size=(self.nn, 1)) * nu if smooth else rng.uniform(-0.5, 0.5, size=sh))
        self.other = "n" if case["refpol"] == "Jee" else "e"
        self.model = self.vis(len(self.pairs))
        self.amodel = np.abs(self.vis(len(self.autos)))
        self.stack = self.make(self.pairs, self.model)
        self.auto = self.make(self.autos, self.amodel) if self.autos else None
        self.flag()

    def vis(self, n):
        sh = (n, self.nf, len(self.pols))
        return self.rng.uniform(0.8, 1.25, size=sh) * np.exp(1j * self.rng.uniform(0, 6.28, size=sh))

    def gain(self, ant, p):
        g = self.A[p] * np.exp(1j * self.lam[p] @ self.lat[ant])
        return g * np.exp(1j * self.delta) if p == self.other else g

    def make(self, pairs, model):
        from hera_cal.lst_stack.binning import LSTStack
        u = quiet(make_uvd, self.enu, pairs, self.pols, self.times, self.freqs, seed=1, flag_frac=0.0, time_fast=False)
        u.data_array = u.data_array.astype(complex)
        u.nsample_array = u.nsample_array.astype(float)
        st = LSTStack(u)
        require(st.antpairs == pairs or [tuple(map(int, q)) for q in st.antpairs] == pairs, "harness: antpair order")
        D = st.data
        for k, (i, j) in enumerate(pairs):
            for m, p in enumerate(self.pols):
                D[:, k, :, m] = model[k, :, m] * self.gain(i, p[0]) * np.conj(self.gain(j, p[1]))
        return st

    def rank_ok(self, F):
        """every (night, channel, parallel pol) not flagged altogether keeps baselines that generate the same lattice as all antennas do, so that the
        phase gradient is known up to whole turns per lattice step; None if even all baselines do not"""
        V = np.array([self.tpos[j] - self.tpos[i] for i, j in self.pairs])
        k = next((k for k in range(1, 101) if np.allclose(V * k, np.round(V * k), atol=1e-6)), None)
        if k is None:
            return None
        ants = sorted(self.tpos)
        k = next(k for k in range(1, 10001) if all(np.allclose((self.tpos[a] - self.tpos[ants[0]]) * k, np.round((self.tpos[a] - self.tpos[ants[0]]) * k), atol=1e-6) for a in ants))
        V = np.round(V * k).astype(int)
        full = minors(np.array([np.round((self.tpos[a] - self.tpos[ants[0]]) * k).astype(int) for a in ants[1:]]))
        if full == 0 or minors(V) != full:
            return None
        cache = {}
        for m, p in enumerate(self.pols):
            if p[0] != p[1]:
                continue
            for n in range(self.nn):
                for f in range(self.nf):
                    keep = ~F[n, :, f, m]
                    if keep.any():
                        key = keep.tobytes()
                        if key not in cache:
                            cache[key] = minors(V[keep]) == full
                        if not cache[key]:
                            return False
        return True

    def flag(self):
        from hera_cal import redcal
        c, rng = self.case, self.rng
        self.reds = redcal.get_reds(self.enu, pols=self.pols)
        self.tpos = {a: np.array(x) for a, x in redcal.reds_to_antpos(self.reds).items()}
        sh = (self.nn, len(self.pairs), self.nf, len(self.pols))
        F, I = np.zeros(sh, dtype=bool), np.zeros(sh, dtype=bool)
        for n in range(self.nn):
            if "night" in c["flags"] and rng.integers(3) == 0:
                F[n] = True
            if "pnight" in c["flags"] and rng.integers(3) == 0:
                F[n, :, :, int(rng.integers(len(self.pols)))] = True
            if "chan" in c["flags"]:
                F[n][:, rng.random(self.nf) < 0.25] = True
            if "pchan" in c["flags"]:
                m = int(rng.integers(len(self.pols)))
                F[n][:, rng.random(self.nf) < 0.25, m] = True
            if "bl" in c["flags"] and rng.integers(2):
                F[n, int(rng.integers(len(self.pairs)))] = True
        if "allbl" in c["flags"]:
            F[:, int(rng.integers(len(self.pairs)))] = True
        if "pall" in c["flags"]:
            F[..., int(rng.integers(len(self.pols)))] = True
        if "samp" in c["flags"]:
            F |= rng.random(sh) < 0.08
        if c["inp"]:
            I = (rng.random((self.nn, 1, self.nf, 1)) < 0.2) | (rng.random(sh) < 0.05) & np.ones(sh, dtype=bool)
            I = I & ~F
        bad = F if c["useinp"] else F | I
        self.rank = self.rank_ok(bad)
        if self.rank is False and ({"samp", "bl", "allbl"} & set(c["flags"]) or c["inp"]):     # keep only whole flags, which cannot leave too few baselines
            F = np.broadcast_to(F.all(axis=1, keepdims=True), sh).copy()
            I = np.broadcast_to(I.all(axis=1, keepdims=True), sh).copy()
            bad = F if c["useinp"] else F | I
            self.rank = self.rank_ok(bad)
        self.F, self.I, self.bad = F, I, bad
        self.stack.flags[...] = F
        ns = self.stack.nsamples
        ns[...] = np.where(I, -ns, ns)
        if c["garb"]:
            D = self.stack.data
            junk = 30 * (rng.normal(size=sh) + 1j * rng.normal(size=sh))
            if c["garb"] == 2:
                junk[rng.random(sh) < 0.3] = np.nan
            D[bad] = junk[bad]
        if self.auto is not None:
            AF = np.broadcast_to(F.all(axis=1, keepdims=True), self.auto.data.shape).copy()
            if c["autoflag"]:
                AF[:, 0] |= rng.random((self.nn, self.nf, 1)) < 0.3
            self.auto.flags[...] = AF
            if c["garb"]:
                self.auto.data[AF] = 77.0
        self.allbad = self.bad.all(axis=1)          # (night, freq, pol)

    def kw(self, **k):
        c = self.case
        k = dict(dict(run_amplitude_cal=c["amp"], run_phase_cal=c["phs"], run_cross_pol_phase_cal=c["xpol"], use_inpainted_data=c["useinp"], refpol=c["refpol"], use_autos_for_abscal=c["useauto"]), **k)
        if self.auto is not None:
            k.update(auto_stack=self.auto, auto_model=self.amodel)
        return k


def gen_world(draw, smooth=False):
    lay = grid_layout(draw, nx=(2, 4), ny=(1, 2)) if flag(draw) else gen_layout(draw, dims=2, nmin=3, nmax=5, span=2)
    kinds = ["night", "pnight", "chan", "pchan", "bl", "allbl", "samp", "pall"]
    amp, phs, xpol = pick(draw, [(True, True, True)] * 5 + [(True, False, True), (False, True, True), (True, True, False), (False, False, True), (True, False, False)])
    return dict(lay=lay, pols=pick(draw, [["ee", "nn"], ["nn", "ee"], ["ee", "en", "ne", "nn"], ["ee", "nn", "en", "ne"]]), nn=ints(draw, 1, 3), nf=ints(draw, 24, 40) if smooth else ints(draw, 2, 5), red=flag(draw),
                amp=amp, phs=phs, xpol=xpol, refpol=pick(draw, ["Jee", "Jnn"]), nauto=pick(draw, [0, 1, 2, 9]), useauto=flag(draw), useinp=flag(draw), inp=flag(draw), garb=ints(draw, 0, 2), autoflag=flag(draw),
                flags=[k for k in kinds if ints(draw, 0, 9 if smooth else 3) == 9 % (10 if smooth else 4)], inplace=ints(draw, 0, 3) > 0, bands=ints(draw, 0, 2), seed=seed(draw))


def usable(W, case):
    """cross-polarized phase needs some unflagged cross-polarized sample wherever it is to be removed"""
    if W.rank is None or W.rank is False:
        return False
    return True


def check_abs(case, ctx, smooth=False):
    from hera_cal.lst_stack import calibration as cal
    W = World(case, smooth)
    if not usable(W, case):
        ctx.label("unusable geometry")
        return
    four = len(W.pols) == 4
    if case["xpol"] and not (case["amp"] or case["phs"]) and not four:
        ctx.label("nothing to do")
    bands = (slice(0, None),)
    if smooth and case["bands"]:
        h = W.nf // 2
        bands = (slice(0, h), slice(h, None)) if case["bands"] == 1 else (slice(0, h), slice(h + 1, W.nf))
    kw = W.kw(smooth_gains=smooth, inpaint_bands=bands, calibrate_inplace=case["inplace"], smoothing_scale=10e6)
    st, au = W.stack, W.auto
    before = [st.data.copy(), st.flags.copy(), st.nsamples.copy()] + ([au.data.copy()] if au is not None else [])
    par, gains = quiet(cal.lstbin_absolute_calibration, st, W.model.copy(), [list(g) for g in W.reds], **kw)
    same(st.flags, before[1], "flags")
    same(st.nsamples, before[2], "nsamples")
    raw = before[0]
    if not case["inplace"]:
        close(st.data, raw, "data changed although calibrate_inplace=False", rtol=0, atol=0)
        if au is not None:
            same(au.data, before[3], "autos changed although calibrate_inplace=False")
        D = np.empty_like(raw)
        for k, (i, j) in enumerate(W.pairs):
            for m, p in enumerate(W.pols):
                D[:, k, :, m] = raw[:, k, :, m] / (gains[i, JP[p[0]]] * np.conj(gains[j, JP[p[1]]]))
    else:
        D = st.data
    everything_bad = (W.F | W.I).all()
    tol = dict(rtol=5e-3, atol=5e-3)
    # a channel that one feed cannot solve for is not calibrated for that feed
    chanbad = {p: W.allbad[:, :, W.pols.index(p + p)] for p in "en"}
    xbad = np.zeros((W.nn, W.nf), dtype=bool)
    if four and case["xpol"]:
        xbad = W.allbad[:, :, [W.pols.index("en"), W.pols.index("ne")]].all(axis=2)
    n = 0
    for m, p in enumerate(W.pols):
        ok = ~(chanbad[p[0]] | chanbad[p[1]])
        if p[0] != p[1]:
            if not case["xpol"]:
                continue
            ok &= ~xbad
        if smooth:   # extrapolation over flagged edges and large gaps is not specified
            for b in bands:
                for q in set("en" if four and case["xpol"] else p):       # the phase between feeds is only known where both are
                    for k in range(W.nn):
                        f = chanbad[q][k, b]
                        if f.any() or (four and xbad[k, b].any()):
                            ok[k, b] = False
            if case["bands"] == 2:
                ok[:, W.nf // 2] = False
        if everything_bad:
            continue
        for k, (i, j) in enumerate(W.pairs):
            w = ok & ~W.bad[:, k, :, m]
            # what is left when a mode is not asked for is not simulated, so the calibrated data are the model
            close(D[:, k, :, m][w], np.broadcast_to(W.model[k, :, m], w.shape)[w], f"calibrated {W.pairs[k]} {p} differs from the model", **tol)
            n += w.sum()
        if au is not None and case["inplace"] and (p[0] == p[1]):
            for k in range(len(W.autos)):
                w = ok & ~au.flags[:, k, :, m]
                close(au.data[:, k, :, m][w], np.broadcast_to(W.amodel[k, :, m], w.shape)[w], f"calibrated auto {W.autos[k]} {p} differs from the model", **tol)
    for q in "en":
        A = par[f"A_{JP[q]}"]
        require(A.shape == (W.nn, W.nf) and np.isfinite(A).all(), f"amplitude parameters {A}")
        if not everything_bad:
            close(A, np.where(chanbad[q], 1.0, W.A[q]), f"A_{JP[q]}", rtol=5e-3, atol=5e-3)
        T = par[f"T_{JP[q]}"]
        require(T.ndim == 3 and T.shape[:2] == (W.nn, W.nf) and np.isfinite(T).all(), f"tip-tilt parameters {T.shape} {T}")
    # the tip-tilt is zero where nothing could be solved for, and only there
    if case["phs"] and not everything_bad:
        for q in "en":
            T = np.abs(par[f"T_{JP[q]}"]).max(axis=2)
            require(np.all(T[chanbad[q]] == 0), f"T_{JP[q]} where everything is flagged")
            require(np.all(T[~chanbad[q]] > 0), f"T_{JP[q]} is zero where there are data")
    ants = {a for x in W.pairs + W.autos for a in x}
    require(set(gains) == {(a, JP[q]) for a in ants for q in "en"}, f"gains for {sorted(gains)}")
    for key, g in gains.items():
        require(g.shape == (W.nn, W.nf) and np.isfinite(g).all(), f"gain {key}: {g}")
        q = "e" if key[1] == "Jee" else "n"
        if not smooth:
            u = chanbad[q] & (xbad | (not four) | (not case["xpol"]) | (q != W.other))
            close(g[u], np.ones(u.sum()), f"gain {key} where everything is flagged", rtol=0, atol=1e-12)
    ctx.label(f"npol={len(W.pols)}", f"modes={case['amp']:d}{case['phs']:d}{case['xpol']:d}", f"dims={len(next(iter(W.tpos.values())))}", "compared" if n else "nothing compared")
    ctx.nontrivial(n > 0 and (W.nn > 1 or W.bad.any()))


def check_smooth(case, ctx):
    check_abs(case, ctx, smooth=True)


# ---------------------------------------------------------------- what the gains are made from, and how smooth they are
def gen_amp(draw):
    return dict(gen_world(draw), amp=True, phs=False, xpol=False, pols=["ee", "nn"], nn=ints(draw, 1, 2), nf=ints(draw, 36, 44), flags=[], inp=False, garb=0, nauto=ints(draw, 1, 3), autoflag=False,
                scale=pick(draw, [0.5, 2.0]), apart=pick(draw, ["ok", "ok", "flag", "inp"]), ripple=pick(draw, [0.05, 0.1]))


def check_amp(case, ctx):
    """Autos enter the amplitudes when, and only when, asked for and usable; smoothing keeps what is smoother than its scale and removes what is less so."""
    from hera_cal.lst_stack import calibration as cal
    from hera_cal.lst_stack.binning import LSTStack
    W = World(case)
    if not usable(W, case):
        return
    nu = (W.freqs - W.freqs[0]) / 1e9
    rng = rng_of(case["seed"], "ripple")
    true = {}
    for m, p in enumerate(W.pols):
        base = rng.uniform(0.8, 1.2, size=(W.nn, 1))
        true[p] = base, base * (1 + case["ripple"] * np.cos(TWOPI * 300 * nu + rng.uniform(0, 6, size=(W.nn, 1))))
        for k in range(len(W.pairs)):
            W.stack.data[:, k, :, m] = W.model[k, :, m] * true[p][1] ** 2
        for k in range(len(W.autos)):
            W.auto.data[:, k, :, m] = W.amodel[k, :, m] * (case["scale"] * true[p][1]) ** 2
    if case["apart"] == "flag":
        W.auto.flags[...] = True
    elif case["apart"] == "inp":
        W.auto.nsamples[...] = -np.abs(W.auto.nsamples)

    def run(use, smooth=False, scale=10e6):
        kw = W.kw(smooth_gains=smooth, calibrate_inplace=False, smoothing_scale=scale, use_autos_for_abscal=use)
        return quiet(cal.lstbin_absolute_calibration, LSTStack(W.stack._uvd.copy()), W.model.copy(), [list(g) for g in W.reds], **kw)
    without, with_ = run(False), run(True)
    counted = case["apart"] == "ok" or (case["apart"] == "inp" and case["useinp"])
    for p in W.pols:
        q = JP[p[0]]
        close(without[0][f"A_{q}"], true[p][1], f"A_{q} without autos", rtol=1e-3, atol=1e-3)
        rel = np.real(with_[0][f"A_{q}"] / true[p][1])
        if counted:
            lo, hi = sorted((1.0, case["scale"]))
            require(np.all((rel > lo + 1e-3) & (rel < hi - 1e-3)), f"A_{q} with autos {case['scale']} times as strong: {rel}")
        else:
            close(rel, np.ones_like(rel), f"A_{q}: autos that are not usable count", rtol=1e-3, atol=1e-3)
    rough, fine = run(False, True, 10e6)[1], run(False, True, 2e6)[1]
    mid = slice(4, -4)
    for (a, q), g in rough.items():
        p = q[-1] * 2
        close(np.abs(fine[a, q])[:, mid], true[p][1][:, mid], f"gain {a} smoothed on 2 MHz", rtol=0.015, atol=0)
        left, was = ((x - true[p][0])[:, mid] for x in (np.abs(g), true[p][1]))
        require(np.sqrt(np.mean(left ** 2)) < 0.6 * np.sqrt(np.mean(was ** 2)), f"gain {a} smoothed on 10 MHz keeps structure on 3 MHz: {left}")
    ctx.label(f"autos={case['apart']}", f"useinp={case['useinp']}")
    ctx.nontrivial(counted)


# ---------------------------------------------------------------- nights are independent
def one_night(W, n):
    from hera_cal.lst_stack.binning import LSTStack
    u = quiet(make_uvd, W.enu, W.pairs, W.pols, W.times[n:n + 1], W.freqs, seed=1, flag_frac=0.0, time_fast=False)
    if u.time_axis_faster_than_bls and len(W.pairs) > 1:
        u.reorder_blts("time", "baseline")
    nb = len(W.pairs)
    sl = slice(n * nb, (n + 1) * nb)
    v = W.stack._uvd
    for x in ("data_array", "flag_array", "nsample_array"):
        setattr(u, x, getattr(v, x)[sl].copy())
    u.time_axis_faster_than_bls = False
    return LSTStack(u)


def check_nights(case, ctx):
    """Calibrating a stack of nights is calibrating each night alone; order of nights, baselines and garbage under flags do not matter."""
    from hera_cal.lst_stack import calibration as cal
    from hera_cal.lst_stack.binning import LSTStack
    W = World(case, True)
    if not usable(W, case):
        return
    rng = rng_of(case["seed"], "noise")
    W.stack.data[...] = W.stack.data * (1 + 0.05 * rng.normal(size=W.stack.data.shape))
    kw = W.kw(smooth_gains=bool(case["bands"]), calibrate_inplace=True)
    kw.pop("auto_stack", None), kw.pop("auto_model", None)
    ref = LSTStack(W.stack._uvd.copy())
    par, gains = quiet(cal.lstbin_absolute_calibration, ref, W.model.copy(), [list(g) for g in W.reds], **kw)
    for n in range(W.nn):
        one = one_night(W, n)
        if (one.flags | (one.nsamples <= 0)).all():
            require(np.allclose(np.nan_to_num(ref.data[n]), np.nan_to_num(W.stack.data[n])) or not case["inp"], "data of an unusable night changed") if one.flags.all() else None
            continue
        p1, g1 = quiet(cal.lstbin_absolute_calibration, one, W.model.copy(), [list(g) for g in W.reds], **kw)
        w = ~W.bad[n]
        close(ref.data[n][w], one.data[0][w], f"night {n} alone", rtol=2e-3, atol=2e-3)
        for a in g1:
            close(gains[a][n], g1[a][0], f"night {n}: gain {a}", rtol=2e-3, atol=2e-3) if not case["phs"] else None
    # garbage under flags
    u2 = LSTStack(W.stack._uvd.copy())
    u2.data[W.bad] = 1e3 * (1 + rng.random(int(W.bad.sum())))
    p2, g2 = quiet(cal.lstbin_absolute_calibration, u2, W.model.copy(), [list(g) for g in W.reds], **kw)
    close(ref.data[~W.bad], u2.data[~W.bad], "values under flags matter", rtol=2e-3, atol=2e-3)
    for a in gains:
        close(gains[a], g2[a], f"values under flags matter for the gain {a}", rtol=2e-3, atol=2e-3)
    ctx.nontrivial(W.nn > 1 and W.bad.any())
    ctx.label(f"nn={W.nn}", f"bad={W.bad.any()}")


# ---------------------------------------------------------------- files
def gen_file(draw):
    return dict(nt=ints(draw, 1, 6), nf=ints(draw, 1, 5), nd=ints(draw, 1, 3), nant=ints(draw, 2, 5), pols=pick(draw, [["ee"], ["ee", "nn"], ["nn", "ee"], ["ee", "nn", "en", "ne"], ["ne", "ee", "en", "nn"]]), x=flag(draw),
                refpol=pick(draw, ["Jee", "Jnn"]), comp=pick(draw, [None, "gzip"]), lst0=pick(draw, [0.0, 6.2, 6.28, 3.0, 1.0]), lo=ints(draw, -3, 4), n=ints(draw, 1, 5), wrap=pick(draw, [0, 0, 1, -1]), sel=flag(draw), extra=flag(draw), seed=seed(draw))


def check_file(case, ctx):
    from hera_cal import utils
    from hera_cal.lst_stack import calibration as cal
    from hera_cal.utils import JD2LST
    rng = rng_of(case["seed"])
    nt, nf, nd = case["nt"], case["nf"], case["nd"]
    ants = [int(a) for a in rng.choice(350, size=case["nant"], replace=False)]
    jps = sorted({q for p in case["pols"] for q in utils.split_pol(p)})
    par = {}
    for q in jps:
        par[f"A_{q}"] = rng.uniform(0.5, 2, size=(nt, nf))
        par[f"T_{q}"] = rng.uniform(-3, 3, size=(nt, nf, nd))
    if case["x"]:
        par["cross_pol"] = rng.uniform(-3, 3, size=(nt, nf))
    tpos = {a: rng.integers(-9, 9, size=nd).astype(float) for a in ants}
    apos = {a: rng.normal(size=3) * 50 for a in ants + ([999] if case["extra"] else [])}
    dl = 30.0 / 86400
    t0 = jd_for_lst(case["lst0"], 0)
    times = t0 + dl * np.arange(nt) + 0.37 * dl
    freqs = freqs_of(nf)
    flags = {p: rng.random((nt, nf)) < 0.4 for p in case["pols"]}
    for p in case["pols"]:
        if rng.integers(4) == 0:
            flags[p][:] = True
    fn = os.path.join(ctx.tmp(), "sol.h5")
    cp = {k: v.copy() for k, v in par.items()}
    for _ in range(2):          # rewriting replaces the file
        cal.write_single_baseline_lstcal_solutions(fn, cp, {p: f.copy() for p, f in flags.items()}, dict(tpos), dict(apos), times, freqs, list(case["pols"]), refpol=case["refpol"], compression=case["comp"])
    gp, gf, meta = cal.load_single_baseline_lstcal_solutions(fn)
    require(set(gp) == set(par), f"parameters {sorted(gp)} written {sorted(par)}")
    for k in par:
        same(gp[k], par[k], k)
    require(set(gf) == set(flags), f"flags of {sorted(gf)}")
    for p in flags:
        same(gf[p], flags[p], f"flags {p}")
    same(meta["times"], times, "times")
    same(meta["freqs"], freqs, "freqs")
    require(list(meta["pols"]) == case["pols"] and meta["refpol"] == case["refpol"], f"{meta['pols']} {meta['refpol']}")
    for name, want in (("antpos", apos), ("transformed_antpos", tpos)):
        require(set(meta[name]) == set(want), f"{name} of {sorted(meta[name])}")
        for a in want:
            same(meta[name][a], want[a], f"{name}[{a}]")
    # gains
    sub = [a for a in ants if rng.integers(3)] or ants[:1]
    pairs = [(sub[int(rng.integers(len(sub)))], sub[int(rng.integers(len(sub)))]) for _ in range(3)]
    want_p = [p for p in case["pols"] if rng.integers(3)] or case["pols"][:1]
    kw = {}
    keep = np.ones(nt, dtype=bool)
    if case["sel"]:
        from pyuvdata import Telescope
        h = Telescope.from_known_telescopes("HERA")
        lat, lon, alt = h.location_lat_lon_alt_degrees
        lsts = JD2LST(times, lat, lon, alt)
        dlst = dl * TWOPI / 0.99726957
        e0 = lsts[0] - 0.5 * dlst + case["lo"] * dlst
        edges = e0 + dlst * np.arange(case["n"] + 1)
        rel = (lsts - edges[0] + np.pi) % TWOPI - np.pi          # window and data lie well within half a day
        keep = (rel >= 0) & (rel < edges[-1] - edges[0])
        edges = edges + TWOPI * case["wrap"]
        kw = dict(lst_bin_edges=edges, telescope_location_lat_lon_alt_degrees=(lat, lon, alt))
        e_in = edges.copy()
    if not keep.any():
        try:
            quiet(cal.load_single_baseline_lstcal_gains, fn, pairs, want_p, **kw)
        except ValueError:
            ctx.label("no times")
            return
        require(False, "no calibration time lies in the LST range, and gains were returned")
    gains, cf = quiet(cal.load_single_baseline_lstcal_gains, fn, pairs, want_p, **kw)
    if kw:
        same(kw["lst_bin_edges"], e_in, "caller's bin edges")
    wq = {q for p in want_p for q in utils.split_pol(p)}
    wa = {a for x in pairs for a in x}
    require(set(gains) == {(a, q) for a in wa for q in wq} == set(cf), f"gains for {sorted(gains)}")
    for a, q in gains:
        g = par[f"A_{q}"] * np.exp(-1j * (par[f"T_{q}"] @ tpos[a]))
        if case["x"] and q != case["refpol"]:
            g = g * np.exp(1j * par["cross_pol"])
        close(gains[a, q], g[keep], f"gain {(a, q)}", rtol=1e-9, atol=1e-9)
        require(bool(cf[a, q]) == bool(flags[utils.join_pol(q, q)][keep].all()), f"flag of {(a, q)}")
    ctx.label(f"sel={case['sel']}", f"kept={keep.sum()}/{nt}" if case["sel"] else "all")
    ctx.nontrivial(nt > 1 and len(gains) > 1)


SUBS = [Sub("amp", gen_amp, check_amp, quick=24, shards=4), Sub("abs", gen_world, check_abs, quick=112, shards=8), Sub("smooth", lambda d: gen_world(d, True), check_smooth, quick=32, shards=8),
        Sub("nights", lambda d: dict(gen_world(d), nn=ints(d, 2, 3), nf=ints(d, 3, 12)), check_nights, quick=16, shards=8), Sub("file", gen_file, check_file, quick=200)]
