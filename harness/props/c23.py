"""C23: reflection fits recover the reflection in the data, SVD models are truncated decompositions, and reflection files hold exactly the fitted gains."""
import os

import numpy as np

from ..core import Sub, close, require, rng_of, same
from ..gens import cplx, flag, ints, pick, seed
from ..lstsim import quiet
from ..uvsim import make_cal, make_uvd, times_of

RULE = ("fit: autocorrelations times |1 + eps|^2 with known amplitude, delay and phase per antenna, feed and time, flagged times, missing antennas, residual or full data, positive or negative delays, any scale; fits against the truth, gains against the closed form, rows alone against rows together; "
        "refine: parameter refinement from displaced guesses, against an explicit metric, fixed parameters and skipped times; svd: weights, truncated decompositions, projections, models and residuals against numpy on matrices with known spectra, over overwrite/increment histories; "
        "file: write_auto_reflections and auto_reflection_run on files, read back. Non-trivial: at least two rows or keys.")
ASSUMPTIONS = ["reflections are at least 8 delay bins from the foreground and isolated; Blackman-Harris window and at least half a band of zero padding for recovery, as recommended", "frequency thinning keeps the delays below 0.8 of its Nyquist limit", "amplitudes are recovered to 3 per cent, eps to 20 per cent of the amplitude mid-band"]
JP = {"ee": "Jee", "nn": "Jnn"}
ENU = {0: (0.0, 0.0, 0.0), 2: (14.6, 0.0, 0.0), 11: (0.0, 14.6, 0.0), 5: (29.2, 14.6, 0.0)}


def refl(freqs, amp, dly, phs):
    return amp * np.exp(2j * np.pi * dly * 1e-9 * freqs + 1j * phs)


def gen_band(draw):
    return dict(nf=ints(draw, 96, 140), df=pick(draw, [5e5, 1e6]), f0=pick(draw, [5e7, 1.2e8]))


def band(case):
    return case["f0"] + case["df"] * np.arange(case["nf"])


def gen_fit(draw):
    c = gen_band(draw)
    c.update(seed=seed(draw), nant=ints(draw, 1, 3), pols=pick(draw, [["ee"], ["nn", "ee"], ["ee", "nn", "en", "ne"]]), nt=ints(draw, 1, 4), flagged=ints(draw, 0, 2) == 0, neg=ints(draw, 0, 2) == 0, mode=pick(draw, ["data", "data", "resid"]),
             scale=pick(draw, [1.0, 1.0, 30.0, 1e4]), cut=pick(draw, [2.0, 2.0, 2.0, 1e30]), big=ints(draw, 0, 5) == 0, drop=flag(draw), same=flag(draw), keysel=flag(draw), edge=pick(draw, [0, 0, 3]))
    return c


def truth_params(case, rng, keys, nt):
    bw = case["nf"] * case["df"]
    lo = 8 + rng.random() * (case["nf"] * 0.35 - 8)
    out = {}
    for k in keys:
        d0 = (lo + 2 * (rng.random() - 0.5)) / bw * 1e9
        vary = 0.0 if case["same"] else 1.0
        out[k] = (10 ** rng.uniform(-2.7, -1.3) * (1 + 0.2 * vary * rng.random(nt)), d0 * (1 + 0.002 * vary * rng.random(nt)), rng.uniform(0, 2 * np.pi) + 0.3 * vary * rng.random(nt))
    rng_ = ((lo - 5) / bw * 1e9, (lo + 5) / bw * 1e9)
    return out, rng_


def fitter(case, tmp, ants, pols, times, freqs, pairs=None):
    from hera_cal.reflections import ReflectionFitter
    uvd = quiet(make_uvd, {a: ENU[a] for a in ants}, pairs or [(a, a) for a in ants], pols, times, freqs, seed=case["seed"] % 10**6, flag_frac=0.0)
    path = os.path.join(tmp, "d.uvh5")
    quiet(uvd.write_uvh5, path)
    rf = quiet(ReflectionFitter, path)
    quiet(rf.read)
    return rf, uvd


def check_fit(case, ctx):
    from hera_cal import reflections as R
    from hera_cal.datacontainer import DataContainer
    rng = rng_of(case["seed"], "fit")
    freqs = band(case)
    ants = sorted(ENU)[:case["nant"]]
    nt, nf = case["nt"], len(freqs)
    times = times_of(nt)
    rf, _ = fitter(case, ctx.tmp(), ants, case["pols"], times, freqs)
    apols = [p for p in case["pols"] if p[0] == p[1]]
    keys = [(a, a, p) for a in ants for p in apols]
    par, dr = truth_params(case, rng, keys, nt)
    zp = nf // 2 + ints_of(rng, 0, 20)
    kw = dict(window="blackmanharris", zeropad=zp, edgecut_low=case["edge"], edgecut_hi=case["edge"])
    eps = {k: refl(freqs, *[x[:, None] for x in par[k]]) for k in keys}
    fg = {k: case["scale"] * rng.uniform(1, 5, size=(nt, 1)) for k in keys}
    data = {k: fg[k] * np.abs(1 + eps[k]) ** 2 + 0j for k in keys}
    flags = {k: np.zeros((nt, nf), dtype=bool) for k in keys}
    if case["flagged"] and nt > 1:
        for k in keys:
            f = rng.random(nt) < 0.4
            f[rng.integers(nt)] = False
            flags[k][f] = True
            data[k][f] = rng.normal() * 1e3
    extra = {}
    if len(case["pols"]) == 4:           # cross-polarized autos must be left alone
        for a in ants:
            extra[a, a, "en"] = cplx(rng, (nt, nf))
    use = list(keys)
    dc = dict(data)
    if case["drop"] and len(keys) > 1 and not case["keysel"]:
        gone = use.pop(int(rng.integers(len(use))))
        del dc[gone]
    elif case["keysel"] and len(keys) > 1:
        use = [use[int(rng.integers(len(use)))]]
    D = DataContainer({**dc, **extra})
    F = DataContainer({**{k: flags[k] for k in dc}, **{k: np.zeros((nt, nf), dtype=bool) for k in extra}})
    drange = dr if not case["neg"] else (-dr[1], -dr[0])
    args = dict(clean_flags=F if case["flagged"] else None, ref_sig_cut=case["cut"], verbose=False, fthin=1 + (case["seed"] % 2 == 1 and dr[1] * case["df"] * 1e-9 < 0.2), Nphs=300, **kw)
    if case["keysel"]:
        args["keys"] = use
    if case["mode"] == "resid":
        res = {k: data[k] - np.mean(data[k], axis=1, keepdims=True) for k in dc}
        args["clean_data"] = D
        resid = DataContainer({**res, **extra})
        if case["big"]:
            args["clean_data"] = DataContainer({k: D[k] * 1e-4 for k in D})
    else:
        resid = D
    before = {k: np.array(resid[k]) for k in resid}
    quiet(rf.model_auto_reflections, resid, drange, **args)
    for k in before:
        same(resid[k], before[k], f"data of {k} changed by the fit")
    rkeys = {(k[0], JP[k[2]]): k for k in use}
    for nm in ("ref_amp", "ref_dly", "ref_phs", "ref_eps", "ref_significance"):
        require(set(getattr(rf, nm)) == set(rkeys), f"{nm} has {sorted(getattr(rf, nm))}, expected {sorted(rkeys)}")
    allg = {(a, JP[p]) for a in ants for p in apols}
    require(set(rf.ref_gains) == allg and set(rf.ref_flags) == allg, f"gains for {sorted(rf.ref_gains)}, flags for {sorted(rf.ref_flags)}, expected {sorted(allg)}")
    big = case["mode"] == "resid" and case["big"]
    for rk in sorted(allg):
        if rk not in rkeys:
            require(np.all(rf.ref_gains[rk] == 1) and rf.ref_gains[rk].shape == (nt, nf) and not np.any(rf.ref_flags[rk]), f"{rk} was not fitted, but its gain is not 1 and unflagged")
            continue
        k = rkeys[rk]
        a, d, p = rf.ref_amp[rk], rf.ref_dly[rk], rf.ref_phs[rk]
        require(a.shape == d.shape == p.shape == (nt, 1), f"{rk}: parameters of shape {a.shape}, {d.shape}, {p.shape}")
        e = refl(freqs, a, d, p)
        close(rf.ref_eps[rk], e, f"{rk}: eps from its parameters", rtol=1e-9, atol=1e-12)
        close(rf.ref_gains[rk], 1 + e, f"{rk}: gain = 1 + eps", rtol=1e-9, atol=1e-12)
        allf = flags[k].all(axis=1)
        rfl = np.asarray(rf.ref_flags[rk]).reshape(-1)
        require(np.all(rfl[allf]), f"{rk}: a fully flagged time is not flagged in the fit")
        require(np.all(np.asarray(rf.ref_gains[rk])[allf] == 1), f"{rk}: a fully flagged time has a reflection of {a[allf].ravel()}")
        good = ~allf
        if case["cut"] > 100:
            require(np.all(a == 0) and np.all(d == 0) and np.all(p == 0) and np.all(rfl), f"{rk}: insignificant fit recorded")
            continue
        if big:
            require(np.all(rfl) and np.all(a == 0), f"{rk}: amplitudes above 1 are kept: {a.ravel()}, flags {rfl}")
            continue
        require(not np.any(rfl[good]), f"{rk}: significance {rf.ref_significance[rk].ravel()} flagged")
        t = par[k]
        sgn = -1 if case["neg"] else 1
        bw = nf * case["df"]
        close(a[good, 0] / t[0][good], 1.0 + 0 * t[0][good], f"{rk}: amplitude / truth", rtol=0, atol=0.03)
        close((d[good, 0] - sgn * t[1][good]) * bw / 1e9, 0 * t[1][good], f"{rk}: delay error in delay bins", rtol=0, atol=0.08)
        te = eps[k] if not case["neg"] else np.conj(eps[k])
        mid = slice(nf // 4, 3 * nf // 4)
        err = np.max(np.abs(e - te)[:, mid], axis=1) / t[0]
        require(np.all(err[good] < 0.2), f"{rk}: eps off by {err[good]} of its amplitude (delay {t[1]}, fitted {d.ravel()}, phase {t[2]}, fitted {p.ravel()})")
        # one time at a time
        if nt > 1 and good.any():
            i = int(np.where(good)[0][-1])
            one = quiet(R.fit_reflection_params, resid[k][[i]], drange, freqs, clean_flags=flags[k][[i]] if case["flagged"] else None, clean_data=args["clean_data"][k][[i]] if case["mode"] == "resid" else None,
                        ref_sig_cut=case["cut"], fthin=args["fthin"], Nphs=300, **kw)
            close([x[0, 0] for x in one], [a[i, 0], d[i, 0], p[i, 0], rf.ref_significance[rk][i, 0]], f"{rk}: time {i} fitted alone and with the others", rtol=1e-3, atol=1e-6)
        ctx.nontrivial(good.sum() > 1 or len(rkeys) > 1)
    ctx.label(case["mode"] + ("/neg" if case["neg"] else "") + ("/cut" if case["cut"] > 100 else "") + ("/big" if big else ""))


def ints_of(rng, lo, hi):
    return int(rng.integers(lo, hi + 1))


# ---------------------------------------------------------------- refinement
def gen_refine(draw):
    c = gen_band(draw)
    c.update(seed=seed(draw), nt=ints(draw, 1, 3), fix=pick(draw, ["dly,phs", "amp,dly", "amp", "phs", "dly", ""]), skip=ints(draw, 0, 2) == 0, frac=pick(draw, [0.9, 0.3]), flat=flag(draw), model=flag(draw), edges=pick(draw, ["", "low", "hi", "both"]), cls=flag(draw),
             rng=pick(draw, ["one", "two"]))
    return c


def metric(row, w, model, freqs, a, d, p, lo, hi, win, zp):
    g = 1 + refl(freqs, a, d, p)
    x = (row / np.abs(g) ** 2 - model) * w * win
    x = np.concatenate([np.zeros(zp), x, np.zeros(zp)])
    f = np.fft.fftfreq(len(x), np.diff(freqs)[0]) * 1e9
    y = np.abs(np.fft.fft(x))
    return y[(f >= lo) & (f <= hi)].max()


def check_refine(case, ctx):
    from hera_cal import reflections as R
    from hera_cal.datacontainer import DataContainer
    from scipy.signal import windows
    rng = rng_of(case["seed"], "refine")
    freqs = band(case)
    nt, nf = case["nt"], len(freqs)
    bw = nf * case["df"]
    amp, phs = 10 ** rng.uniform(-2.3, -1.3), rng.uniform(0, 2 * np.pi)
    dly = rng.uniform(10, nf * 0.3) / bw * 1e9
    eps = refl(freqs, amp, dly, phs)
    fg = rng.uniform(1, 5, size=(nt, 1))
    data = fg * np.abs(1 + eps) ** 2 * np.ones((nt, 1)) + 0j
    model = fg * np.ones((nt, nf)) + 0j if case["model"] else None
    flags = np.zeros((nt, nf), dtype=bool)
    low, hi_ = (case["edges"] in ("low", "both")) * 4, (case["edges"] in ("hi", "both")) * 5
    flags[:, :low] = True
    if hi_:
        flags[:, -hi_:] = True
    inner = np.arange(low, nf - hi_)
    skip = np.zeros(nt, dtype=bool)
    if case["skip"]:
        for i in range(nt):
            if rng.integers(2):
                bad = rng.permutation(inner)[:int((case["frac"] + (1 - case["frac"]) * 0.5) * len(inner)) + 1]
                flags[i, bad] = True
                skip[i] = True
        skip = (flags[:, inner].mean(axis=1) > case["frac"])
    chan = flags.all(axis=0)
    first, last = (np.where(~chan)[0][[0, -1]] if not chan.all() else (0, -1))
    inner = np.arange(first, last + 1)
    fr = flags[:, inner].mean(axis=1) if len(inner) else np.ones(nt)
    if np.any(np.abs(fr - case["frac"]) < 1e-9):
        return
    skip = fr > case["frac"]
    fixed = [x for x in case["fix"].split(",") if x]
    g0 = dict(amp=amp * (1.3 if "amp" not in fixed else 1.0), dly=dly, phs=phs + (0.4 if "phs" not in fixed else 0.0))
    if "dly" not in fixed:
        g0["dly"] = dly + 0.05 / bw * 1e9
    arr = {k: np.full((nt, 1), v) for k, v in g0.items()}
    buf = 3.0 / bw * 1e9
    zp = nf // 2
    kw = dict(window="blackmanharris", zeropad=zp)
    dr = buf if case["rng"] == "one" else (buf, 1.5 * buf)
    win = windows.blackmanharris(nf)
    fkw = {"fix_" + x: True for x in fixed}
    if case["cls"]:
        rf, _ = fitter(dict(case, nf=nf), ctx.tmp(), [0], ["ee"], times_of(nt), freqs)
        k = (0, 0, "ee")
        rk = (0, "Jee")
        out = quiet(rf.refine_auto_reflections, DataContainer({k: data}), dr, {rk: arr["amp"]}, {rk: arr["dly"]}, {rk: arr["phs"]}, clean_flags=DataContainer({k: flags}),
                    clean_model=None if model is None else DataContainer({k: model}), maxiter=60, tol=1e-4, skip_frac=case["frac"], verbose=False, **fkw, **kw)
        for o in out:
            require(set(o) == {rk}, f"refined parameters for {sorted(o)}")
        A, T, P, info = (np.asarray(o[rk]).reshape(-1) for o in out[:4])
        close(out[4][rk], refl(freqs, A[:, None], T[:, None], P[:, None]), "eps of the refined parameters", rtol=1e-9, atol=1e-12)
        close(out[5][rk], 1 + out[4][rk], "gain of the refined parameters", rtol=1e-9, atol=1e-12)
        require(out[0][rk].shape == (nt, 1), f"refined amplitude has shape {out[0][rk].shape}")
    else:
        out = quiet(R.reflection_param_minimization, data, dr, freqs, arr["amp"], arr["dly"], arr["phs"], clean_model=model, clean_flags=flags, maxiter=60, tol=1e-4, skip_frac=case["frac"], **fkw, **kw)
        A, T, P, info = (np.asarray(o).reshape(-1) for o in out)
    require(all(len(x) == nt for x in (A, T, P, info)), "one solution per time")
    lo, hi = g0["dly"] - buf, g0["dly"] + (buf if case["rng"] == "one" else 1.5 * buf)
    for i in range(nt):
        if skip[i]:
            require(A[i] == 0 and T[i] == 0 and P[i] == 0 and not info[i], f"time {i} with {fr[i]:.2f} of its channels flagged (limit {case['frac']}) has parameters {A[i]}, {T[i]}, {P[i]}")
            continue
        for nm, v in (("amp", A[i]), ("dly", T[i]), ("phs", P[i])):
            if nm in fixed:
                close(v, g0[nm], f"fixed {nm}", rtol=1e-12, atol=0)
        w = (~flags[i]).astype(float)
        m = model[i] if model is not None else 0.0
        m0 = metric(data[i], w, m, freqs, g0["amp"], g0["dly"], g0["phs"], lo, hi, win, zp)
        m1 = metric(data[i], w, m, freqs, A[i], T[i], P[i], lo, hi, win, zp)
        require(A[i] >= 0 and m1 <= m0 * (1 + 1e-6), f"time {i}: refinement raised the residual from {m0:.3g} to {m1:.3g}")
        clean = not flags[i][inner].any() and not case["edges"]
        if clean and case["fix"] == "dly,phs":
            close(A[i] / amp, 1.0, f"time {i}: refined amplitude / truth", rtol=0, atol=0.1)
        if clean and case["fix"] == "amp,dly":
            close(np.abs(np.exp(1j * P[i]) - np.exp(1j * phs)), 0.0, f"time {i}: refined phase error", rtol=0, atol=0.1)
    ctx.label(("class " if case["cls"] else "") + f"fix {case['fix']}" + (" skip" if skip.any() else ""))
    ctx.nontrivial(nt > 1)


# ---------------------------------------------------------------- SVD models
def gen_svd(draw):
    return dict(seed=seed(draw), nt=ints(draw, 4, 8), nf=ints(draw, 6, 14), nk=ints(draw, 1, 3), keep=pick(draw, [None, 1, 2]), sparse=flag(draw), wgt=flag(draw), flags=flag(draw), side=pick(draw, ["both", "pos", "neg"]), hor=pick(draw, [0.0, 1.0]),
                stand=pick(draw, [0.0, 40.0]), min=pick(draw, [None, 30.0, 120.0]), max=pick(draw, [None, 900.0, 300.0]), ops=[pick(draw, ["build", "incr", "over", "svd", "svdover", "sub", "subover"]) for _ in range(ints(draw, 2, 6))], nbuild=pick(draw, [None, 1, 2]),
                win=pick(draw, ["none", "blackmanharris", "hann"]), ifft=flag(draw), shift=flag(draw), edge=pick(draw, [0, 2]))


def check_svd(case, ctx):
    from hera_cal.datacontainer import DataContainer
    from scipy.signal import windows
    rng = rng_of(case["seed"], "svd")
    nt, nf = case["nt"], case["nf"]
    freqs = 1.2e8 + 1e6 * np.arange(nf)
    ants = sorted(ENU)
    pairs = [(ants[0], ants[1]), (ants[0], ants[0]), (ants[1], ants[3])][:case["nk"]]
    rf, _ = fitter(dict(case), ctx.tmp(), ants, ["ee"], times_of(nt), freqs, pairs=pairs)
    keys = [p + ("ee",) for p in pairs]
    dl = np.fft.fftshift(np.fft.fftfreq(nf, 1e6)) * 1e9

    def matrix():
        q1, _ = np.linalg.qr(cplx(rng, (nt, nt)))
        q2, _ = np.linalg.qr(cplx(rng, (nf, nf)))
        r = min(nt, nf)
        return (q1[:, :r] * (100.0 * 2.0 ** -np.arange(r) * rng.uniform(0.9, 1.1, r))) @ q2[:r]
    X = {k: matrix() for k in keys}
    dfft = DataContainer(dict(X))
    # weights
    W = rf.svd_weights(dfft, dl, horizon=case["hor"], standoff=case["stand"], min_dly=case["min"], max_dly=case["max"], side=case["side"])
    require(set(W.keys()) == set(keys), f"weights for {list(W.keys())}")
    for k in keys:
        h = np.linalg.norm(np.subtract(ENU[k[1]], ENU[k[0]])) / 299792458.0 * 1e9 * case["hor"] + case["stand"]
        if case["min"] is not None:
            h = max(h, case["min"])
        exp = np.ones(nf)
        for j, d in enumerate(dl):
            if abs(d) < h or (case["max"] is not None and abs(d) > case["max"]) or (case["side"] == "neg" and d > 0) or (case["side"] == "pos" and d < 0):
                exp[j] = 0.0
        if np.any(np.abs(np.abs(dl) - h) < 1e-3) and h > 0:
            continue
        same(np.asarray(W[k]), np.tile(exp, (nt, 1)), f"SVD weights of {k}, horizon {h} ns, delays {dl}")
    fl = {k: rng.random((nt, nf)) < 0.5 for k in keys}
    for k in keys:
        fl[k][rng.random(nt) < 0.4] = True
    FL = DataContainer(fl) if case["flags"] else None
    wg = DataContainer({k: rng.uniform(0.3, 1, size=(nt, nf)) for k in keys}) if case["wgt"] else None
    keep = case["keep"]

    def ref(k, n):
        m = X[k] * (wg[k] if wg is not None else 1.0)
        u, s, v = np.linalg.svd(m, full_matrices=False)
        return (u[:, :n] * s[:n]) @ v[:n], s[:n]
    nmode = keep if keep is not None else (min(nt, nf) - 2 if case["sparse"] else min(nt, nf))
    quiet(rf.sv_decomp, dfft, wgts=wg, flags=FL, Nkeep=keep, sparse_svd=case["sparse"], verbose=False)
    decomp = {k: ref(k, nmode) for k in keys}

    def judge_svd(what):
        for k in keys:
            u, s, v = rf.umodes[k], rf.svals[k], rf.vmodes[k]
            require(u.shape == (nt, nmode) and v.shape == (nmode, nf) and s.shape == (nmode,), f"{what}: shapes {u.shape}, {s.shape}, {v.shape} for {nmode} modes")
            close(s, decomp[k][1], f"{what}: singular values of {k}", rtol=1e-6, atol=1e-8)
            close((u * s) @ v, decomp[k][0], f"{what}: U S V of {k}", rtol=0, atol=1e-5 * 100)
            close(np.conj(u.T) @ u, np.eye(nmode), f"{what}: U is not unitary", rtol=0, atol=1e-6)
            close(v @ np.conj(v.T), np.eye(nmode), f"{what}: V is not unitary", rtol=0, atol=1e-6)
            same(np.asarray(rf.uflags[k]), (fl[k].all(axis=1) if case["flags"] else np.zeros(nt, dtype=bool))[:, None], f"{what}: flags of the time modes of {k}")
    judge_svd("sv_decomp")
    # projections
    src = DataContainer({k: X[k] * (wg[k] if wg is not None else 1.0) for k in keys})
    pu = rf.project_svd_modes(src, svals=rf.svals, vmodes=rf.vmodes)
    ps = rf.project_svd_modes(src, umodes=rf.umodes, vmodes=rf.vmodes)
    pv = rf.project_svd_modes(src, umodes=rf.umodes, svals=rf.svals)
    for k in keys:
        close(pu[k] * rf.svals[k], rf.umodes[k] * rf.svals[k], f"U projected from data, {k}", rtol=0, atol=1e-4)
        close(ps[k], rf.svals[k], f"S projected from data, {k}", rtol=1e-5, atol=1e-5)
        close(rf.svals[k][:, None] * pv[k], rf.svals[k][:, None] * rf.vmodes[k], f"V projected from data, {k}", rtol=0, atol=1e-4)
    # history of models
    model, sub = {}, {}
    data = DataContainer({k: cplx(rng, (nt, nf)) for k in keys})
    keepd = {k: np.array(data[k]) for k in keys}
    win = np.zeros(nf)
    e = case["edge"]
    n = nf - 2 * e
    win[e:nf - e] = {"none": windows.boxcar, "blackmanharris": windows.blackmanharris, "hann": windows.hann}[case["win"]](n)
    for op in case["ops"]:
        nb = case["nbuild"]
        part = lambda k: (rf.umodes[k][:, :nb] * rf.svals[k][:nb]) @ rf.vmodes[k][:nb]
        if op in ("build", "incr", "over"):
            quiet(rf.build_pc_model, rf.umodes, rf.vmodes, rf.svals, Nkeep=nb, overwrite=op == "over", increment=op == "incr", verbose=False)
            for k in keys:
                if k not in model or op == "over":
                    model[k] = part(k)
                elif op == "incr":
                    model[k] = model[k] + part(k)
            require(set(rf.pcomp_model.keys()) == set(model), f"{op}: models for {list(rf.pcomp_model.keys())}")
            for k in keys:
                close(rf.pcomp_model[k], model[k], f"{op}: model of {k}", rtol=0, atol=1e-6)
        elif op in ("svd", "svdover"):
            new = DataContainer({k: matrix() for k in keys})
            quiet(rf.sv_decomp, new, wgts=wg, flags=FL, Nkeep=keep, sparse_svd=case["sparse"], overwrite=op == "svdover", verbose=False)
            if op == "svdover":
                for k in keys:
                    X[k] = np.array(new[k])
                decomp = {k: ref(k, nmode) for k in keys}
            judge_svd(op)
        else:
            quiet(rf.subtract_model, data, overwrite=op == "subover", ifft=case["ifft"], ifftshift=case["shift"], window=case["win"], edgecut_low=e, edgecut_hi=e, verbose=False)
            for k in model:
                if k not in sub or op == "subover":
                    m = np.fft.ifftshift(model[k], axes=-1) if case["shift"] else model[k]
                    m = np.fft.ifft(m, axis=-1) if case["ifft"] else np.fft.fft(m, axis=-1)
                    with np.errstate(all="ignore"):
                        sub[k] = np.where(np.abs(win) < 1e-8, 0.0, m / np.where(np.abs(win) < 1e-8, 1.0, win))
            require(set(rf.pcomp_model_fft.keys()) == set(sub) and set(rf.data_pcmodel_resid.keys()) == set(sub), f"{op}: residuals for {list(rf.data_pcmodel_resid.keys())}")
            for k in sub:
                sc = np.abs(sub[k]).max() + 1
                close(rf.pcomp_model_fft[k], sub[k], f"{op}: model of {k} in frequency", rtol=1e-6, atol=1e-8 * sc)
                close(rf.data_pcmodel_resid[k], keepd[k] - sub[k], f"{op}: residual of {k}", rtol=1e-6, atol=1e-8 * sc)
            for k in keys:
                same(data[k], keepd[k], f"{op}: data changed")
    ctx.label("sparse" if case["sparse"] else "dense")
    ctx.nontrivial(len(keys) > 1 and len(case["ops"]) > 2)


# ---------------------------------------------------------------- files
def gen_file(draw):
    c = gen_band(draw)
    c.update(seed=seed(draw), nant=ints(draw, 1, 3), pols=pick(draw, [["ee"], ["nn", "ee"]]), nt=ints(draw, 2, 3), two=flag(draw), npz=flag(draw), each=flag(draw), tavg=pick(draw, ["", "", "avg", "comp"]), opt=ints(draw, 0, 3) == 0, ants=flag(draw), psel=flag(draw),
             input=pick(draw, ["", "same", "one", "fewer"]), kind=pick(draw, ["run", "write"]), same=True, cross=flag(draw), rstr=flag(draw))
    return c


def read_cal(path):
    from pyuvdata import UVCal
    u = quiet(UVCal.from_file, path)
    out = {}
    pn = {-5: "Jee", -6: "Jnn"}
    for i, a in enumerate(u.ant_array):
        for j, p in enumerate(u.jones_array):
            out[int(a), pn[int(p)]] = (u.gain_array[i, :, :, j].T, u.flag_array[i, :, :, j].T)
    return u, out


def check_file(case, ctx):
    from hera_cal import reflections as R
    from hera_cal.reflections import ReflectionFitter
    rng = rng_of(case["seed"], "file")
    tmp = ctx.tmp()
    freqs = band(case)
    ants = sorted(ENU)[:case["nant"]]
    nt, nf = case["nt"], len(freqs)
    times = times_of(nt)
    pols = case["pols"]
    bw = nf * case["df"]
    pairs = [(a, a) for a in ants] + ([(ants[0], ants[1])] if case["cross"] and len(ants) > 1 else [])
    uvd = quiet(make_uvd, {a: ENU[a] for a in ants}, pairs, pols, times, freqs, seed=case["seed"] % 10**6, flag_frac=0.0)
    uvd.nsample_array[:] = 1.0
    binc = [10 + 3 * rng.random(), 24 + 3 * rng.random()]
    ranges = [((b - 5) / bw * 1e9, (b + 5) / bw * 1e9) for b in binc]
    par = {}
    for a, b in pairs:
        for j, p in enumerate(pols):
            rows = (uvd.ant_1_array == a) & (uvd.ant_2_array == b)
            if a == b:
                ps = [(10 ** rng.uniform(-2.2, -1.7), (c + rng.uniform(-1, 1)) / bw * 1e9, rng.uniform(0, 2 * np.pi)) for c in binc[:1 + case["two"]]]
                par[a, JP[p]] = ps
                d = rng.uniform(1, 3) * np.ones(nf)
                for q in ps:
                    d = d * np.abs(1 + refl(freqs, *q)) ** 2
                uvd.data_array[rows, :, j] = d
    path = os.path.join(tmp, "d.uvh5")
    quiet(uvd.write_uvh5, path)
    out = os.path.join(tmp, "o.calfits")
    mid = slice(nf // 4, 3 * nf // 4)
    if case["kind"] == "write":
        rf = quiet(ReflectionFitter, path)
        quiet(rf.read, bls=[(a, a) for a in ants])
        quiet(rf.model_auto_reflections, rf.data, ranges[0], window="blackmanharris", zeropad=nf // 2, verbose=False, fthin=1)
        for k in rf.ref_flags:
            rf.ref_flags[k] = np.asarray(rf.ref_flags[k]) | (rng.random((nt, 1)) < 0.3)
        keep = {k: np.array(v) for k, v in rf.ref_gains.items()}
        kw, ing, inf = {}, {}, {}
        if case["input"]:
            ca = ants[:-1] if case["input"] == "fewer" and len(ants) > 1 else ants
            n = 1 if case["input"] == "one" else nt
            for a in ca:
                for j in ("Jee", "Jnn"):
                    ing[a, j] = cplx(rng, (n, nf)) * 0.3 + 1
                    inf[a, j] = rng.random((n, nf)) < 0.2
            uvc = quiet(make_cal, ca, ing, inf, times[:n], freqs, uvd.telescope)
            ip = os.path.join(tmp, "i.calfits")
            quiet(uvc.write_calfits, ip)
            kw["input_calfits"] = ip
        quiet(rf.write_auto_reflections, out, overwrite=True, write_npz=case["npz"], verbose=False, add_to_history="hist xyz", **kw)
        u, got = read_cal(out)
        require("hist xyz" in u.history, "history text is missing from the file")
        exp = set(keep) & set(ing) if case["input"] else set(keep)
        for k in sorted(exp):
            require(k in got, f"gain of {k} is missing from the file")
            close(got[k][0], keep[k] * ing.get(k, 1.0), f"gain of {k} in the file", rtol=1e-5, atol=1e-6)
            f = np.broadcast_to(rf.ref_flags[k], (nt, nf)) | inf.get(k, False)
            same(got[k][1], f, f"flags of {k} in the file")
        close(u.time_array, times, "times in the file", rtol=0, atol=1e-8)
        close(np.squeeze(u.freq_array), freqs, "frequencies in the file", rtol=1e-12, atol=0)
        for k in keep:
            same(rf.ref_gains[k], keep[k], "write_auto_reflections changed the gains in memory")
        if case["npz"]:
            z = np.load(os.path.join(tmp, "o.npz"), allow_pickle=True)
            for nm, d in (("delay", rf.ref_dly), ("phase", rf.ref_phs), ("amp", rf.ref_amp), ("flags", rf.ref_flags)):
                o = z[nm].item()
                require(set(o) == set(d) and all(np.array_equal(o[k], d[k]) for k in d), f"{nm} in the npz file")
        ctx.label("write " + case["input"])
        ctx.nontrivial(len(keep) > 1)
        return
    # auto_reflection_run
    kw = {}
    sela, selp = ants, pols
    if case["ants"] and len(ants) > 1:
        sela = ants[1:]
        kw["antenna_numbers"] = sela
    if case["psel"] and len(pols) > 1:
        selp = pols[1:]
        kw["polarizations"] = selp
    rr = ranges[:1 + case["two"]]
    arg = [f"({a}, {b})" for a, b in rr] if case["rstr"] else list(rr)
    if case["tavg"]:
        kw.update(time_avg=True, compress_tavg_calfits=case["tavg"] == "comp")
    if case["opt"]:
        kw.update(opt_maxiter=30, opt_buffer=(3 / bw * 1e9, 3 / bw * 1e9))
    quiet(R.auto_reflection_run, path, arg, out, window="blackmanharris", zeropad=nf // 2, min_dly=4.0 / bw * 1e9, maxiter=20, fthin=1, write_npz=case["npz"], write_each_calfits=case["each"], overwrite=True, **kw)
    want = {(a, JP[p]) for a in sela for p in selp}
    each = [out] + [os.path.join(tmp, f"o.ref{i + 1}.calfits") for i in range(1, len(rr))] if case["each"] else []
    for i, f in enumerate(each):
        require(os.path.exists(f), f"{os.path.basename(f)} was not written; there are {sorted(os.listdir(tmp))}")
    ntout = 1 if case["tavg"] == "comp" else nt
    total = {k: 1.0 for k in want}
    if case["each"]:
        for i, f in enumerate(each):
            u, got = read_cal(f)
            require(want <= set(got), f"gains for {sorted(got)}, expected {sorted(want)}")
            require(u.Ntimes == ntout, f"{u.Ntimes} times in the calibration file")
            for k in want:
                e = got[k][0] - 1
                t = refl(freqs, *par[k][i])
                err = np.max(np.abs(e - t)[:, mid]) / par[k][i][0]
                require(err < 0.3, f"file {i + 1}: eps of {k} is off by {err:.2f} of its amplitude")
                require(not got[k][1].any(), f"file {i + 1}: gains of {k} are flagged")
                total[k] = total[k] * got[k][0]
    else:
        u, got = read_cal(out)
        require(want <= set(got) and u.Ntimes == ntout, f"combined gains for {sorted(got)}, {u.Ntimes} times")
        for k in want:
            total[k] = got[k][0]
            require(not got[k][1].any(), f"combined gains of {k} are flagged")
    for k in want:
        e = total[k] / np.prod([1 + refl(freqs, *q) for q in par[k]], axis=0)
        err = np.max(np.abs(e - 1)[:, mid]) / sum(q[0] for q in par[k])
        require(err < 0.3, f"gains of {k} leave {err:.2f} of its reflections")
    if case["npz"]:
        for i in range(len(rr)):
            f = os.path.join(tmp, "o.npz" if i == 0 and case["each"] else f"o.ref{i + 1}.npz")
            require(os.path.exists(f), f"{os.path.basename(f)} was not written; there are {sorted(os.listdir(tmp))}")
            z = np.load(f, allow_pickle=True)
            d, a, p = z["delay"].item(), z["amp"].item(), z["phase"].item()
            require(set(d) == want, f"npz file {i + 1} has {sorted(d)}")
            for k in want:
                close(np.asarray(d[k]).ravel() * bw / 1e9, np.full(np.size(d[k]), par[k][i][1] * bw / 1e9), f"npz file {i + 1}: delay of {k} in bins", rtol=0, atol=0.3)
                if case["each"]:
                    _, got = read_cal(each[i])
                    close(np.broadcast_to(1 + refl(freqs, a[k], d[k], p[k]), (ntout, nf)), got[k][0], f"npz file {i + 1}: parameters of {k} against its gains", rtol=1e-5, atol=1e-5)
    ctx.label("run " + ("each " if case["each"] else "") + ("2 " if case["two"] else "") + case["tavg"] + (" opt" if case["opt"] else ""))
    ctx.nontrivial(len(want) > 1 or case["two"])


SUBS = [
    Sub("fit", gen_fit, check_fit, quick=120, thorough=2500, shards=3),
    Sub("refine", gen_refine, check_refine, quick=60, thorough=1500, shards=4),
    Sub("svd", gen_svd, check_svd, quick=120, thorough=3000, shards=2),
    Sub("file", gen_file, check_file, quick=60, thorough=1200, shards=4),
]
