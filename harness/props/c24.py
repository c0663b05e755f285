"""C24: sky-model calibration recovers gains per channel, and SNAP decoherence from them."""
import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import cplx, flag, ints, pick, seed
from ..lstsim import quiet

RULE = ("ratio: data/model ratios and weights against their definition, with models keyed by baseline or redundant group, flags, missing, zero and infinite models; firstcal: known delays and offsets per antenna and time, dead antennas, any amplitudes, split arrays; "
        "refine: simulated gains with and without noise, SNAP exclusions, flagged channels and antennas, against the complex chi^2 gradient written directly, and every documented error; sky: the whole pipeline on simulated data, full-Stokes or not; spectators: closed form, with unsolved reference cells; "
        "decoherence: gains that are smooth times a staircase, against the staircase. Non-trivial: at least two times, polarizations or groups.")
ASSUMPTIONS = ["baselines entering the refinement connect all antennas and contain odd cycles (at least three SNAPs), so that amplitudes are determined", "phase offsets between antennas stay below pi"]
JP = {"e": "Jee", "n": "Jnn"}


def rev(b):
    return (b[1], b[0], b[2][::-1])


def gkey(b):
    return (b[0], JP[b[2][0]]), (b[1], JP[b[2][1]])


def freqs_of(nf, f0=1.1e8, df=2e5):
    return f0 + df * np.arange(nf)


# ---------------------------------------------------------------- ratio
def gen_ratio(draw):
    return dict(seed=seed(draw), na=ints(draw, 2, 5), pols=pick(draw, [["ee"], ["ee", "nn"], ["ee", "nn", "en", "ne"]]), nt=ints(draw, 1, 3), nf=ints(draw, 2, 6), red=flag(draw), df=flag(draw), mf=flag(draw), af=flag(draw), sep=flag(draw), bls=flag(draw), infer=flag(draw), flips=flag(draw), drop=flag(draw), odd=flag(draw))


def check_ratio(case, ctx):
    from hera_cal.datacontainer import DataContainer, RedDataContainer
    from hera_cal.skycal import build_data_model_ratio
    rng = rng_of(case["seed"], "ratio")
    na, nt, nf, pols = case["na"], case["nt"], case["nf"], case["pols"]
    shape = (nt, nf)
    freqs = freqs_of(nf)
    times = 2459000.0 + np.arange(nt) * 10.0 / 86400
    ants = [3 * a + 1 for a in range(na)]
    pairs = [(a, b) for i, a in enumerate(ants) for b in ants[i + 1:]]
    if case["flips"]:
        pairs = [p[::-1] if rng.integers(2) else p for p in pairs]
    V = {p + (q,): cplx(rng, shape) for p in pairs for q in pols}
    A = {(a, a, q): rng.uniform(1, 4, size=shape) + 0j for a in ants for q in pols if q[0] == q[1]}
    # model: one per group of equal separation, or one per baseline
    if case["red"]:
        groups = {}
        for i, a in enumerate(ants):
            for b in ants[i + 1:]:
                groups.setdefault(b - a, []).append((a, b))
        reds = [[p + (q,) for p in g] for g in groups.values() for q in pols]
        proto = {}
        M = {}
        for g in reds:
            if case["drop"] and rng.integers(4) == 0:
                continue
            m = cplx(rng, shape)
            if case["odd"]:
                m[rng.random(shape) < 0.2] = 0
                m[rng.random(shape) < 0.1] = np.nan
            b = g[int(rng.integers(len(g)))]
            proto[rev(b) if rng.integers(2) else b] = (m, b)
            for x in g:
                M[x] = m
                M[rev(x)] = np.conj(m)
        if not proto:
            return
        model = RedDataContainer({k: (m.copy() if k == b else np.conj(m)) for k, (m, b) in proto.items()}, reds=reds)
    else:
        M = {}
        store = {}
        for k in V:
            if case["drop"] and rng.integers(4) == 0:
                continue
            m = cplx(rng, shape)
            if case["odd"]:
                m[rng.random(shape) < 0.2] = 0
                m[rng.random(shape) < 0.1] = np.inf
            M[k], M[rev(k)] = m, np.conj(m)
            s = rev(k) if rng.integers(2) else k
            store[s] = M[s].copy()
        if not store:
            return
        model = DataContainer(store)
    autos = DataContainer({k: v.copy() for k, v in A.items()})
    data = DataContainer({**{k: v.copy() for k, v in V.items()}, **({} if case["sep"] else {k: v.copy() for k, v in A.items()})})
    for c in (autos, data):    # as HERAData.read makes them
        c.freqs, c.times = freqs, times
        c.times_by_bl = {k[:2]: times for k in c.keys()}
        c.times_by_bl.update({k[:2][::-1]: times for k in c.keys()})
    kw = {}
    if case["sep"]:
        kw["autos"] = autos
    F = {k: np.zeros(shape, dtype=bool) for k in V}
    if case["df"]:
        F = {k: rng.random(shape) < 0.2 for k in V}
        kw["data_flags"] = DataContainer({k: f.copy() for k, f in F.items()})
    MF = {k: np.zeros(shape, dtype=bool) for k in V}
    if case["mf"] and not case["red"]:
        MF = {k: rng.random(shape) < 0.2 for k in V}
        kw["model_flags"] = DataContainer({k: f.copy() for k, f in MF.items()})
    AF = {}
    if case["af"]:
        AF = {(a, j): rng.random(shape) < 0.2 for a in ants for j in ("Jee", "Jnn") if rng.integers(3)}
        kw["ant_flags"] = {k: f.copy() for k, f in AF.items()}
    dt, df = 10.0, 2e5
    if nt < 2 or not case["infer"]:
        dt, df = 7.0, 1.5e5
        kw.update(dt=dt, df=df)
    have = [k for k in V if k in M]
    if case["bls"]:
        sel = [k if rng.integers(2) else rev(k) for k in have if rng.integers(2)] or have[:1]
        kw["bls"] = sel
    else:
        sel = have
    if not sel:
        return
    before = {k: np.array(data[k]) for k in data.keys()}
    ratio, wgts = quiet(build_data_model_ratio, data, model, **kw)
    for k in before:
        same(data[k], before[k], "the ratio changed the data")
    require(set(ratio.keys()) == set(wgts.keys()) == set(sel), f"ratios for {sorted(ratio.keys())}, expected {sorted(sel)}")
    for k in sel:
        s = k if k in V else rev(k)
        v = V[s] if s == k else np.conj(V[s])
        m = M[k]
        gi, gj = gkey(k)
        with np.errstate(all="ignore"):
            bad = F[s] | MF[s] | ~np.isfinite(m) | (m == 0)
            for g in (gi, gj):
                if g in AF:
                    bad = bad | AF[g]
            sig = np.abs(A[k[0], k[0], k[2][0] * 2] * A[k[1], k[1], k[2][1] * 2]) / (dt * df)
            r = np.where(bad, np.nan, v / np.where(bad, 1, m))
            w = np.where(bad, 0, np.abs(np.where(bad, 1, m))**2 / sig)
        require(np.array_equal(np.isnan(ratio[k]), bad), f"ratio of {k} is not NaN exactly where flagged or without a model")
        close(np.nan_to_num(ratio[k]), np.nan_to_num(r), f"ratio of {k}", rtol=1e-8)
        close(wgts[k], w, f"weights of {k}", rtol=1e-4)
    if len(ants) > 2:
        lost = next(k for k in sel)
        a = gkey(lost)[0]
        a = (a[0], a[0], {"Jee": "ee", "Jnn": "nn"}[a[1]])
        d2 = DataContainer({k: v for k, v in (autos if case["sep"] else data).items() if k != a})
        kw2 = dict(kw)
        kw2["autos"] = d2
        with expect_raises((ValueError,), f"autocorrelation {a} is missing"):
            quiet(build_data_model_ratio, data, model, **kw2)
    ctx.label("red" if case["red"] else "bl", f"{len(pols)} pol")
    ctx.nontrivial(len(sel) > 1)


# ---------------------------------------------------------------- firstcal
def gen_fc(draw):
    return dict(seed=seed(draw), na=ints(draw, 3, 6), pols=pick(draw, [["ee"], ["nn", "ee"]]), nt=ints(draw, 1, 3), nf=pick(draw, [64, 100, 128]), flips=flag(draw), drop=flag(draw), dead=flag(draw), chan=flag(draw), amps=flag(draw), split=ints(draw, 0, 4) == 0, deadt=flag(draw), df=pick(draw, [1e5, 2e5, 5e5]), near=pick(draw, [0, 0, 6]))


def check_fc(case, ctx):
    from hera_cal.datacontainer import DataContainer
    from hera_cal.skycal import firstcal_gains, model_based_firstcal
    rng = rng_of(case["seed"], "fc")
    nt, nf = case["nt"], case["nf"]
    freqs = freqs_of(nf, df=case["df"])
    ants = [2 * a for a in range(case["na"] + (2 if case["split"] else 0))]
    if case["split"]:   # two arrays without baselines between them
        pairs = [(a, b) for part in (ants[:3], ants[3:]) for i, a in enumerate(part) for b in part[i + 1:]]
    else:
        pairs = [(a, b) for i, a in enumerate(ants) for b in ants[i + 1:]]
        if case["drop"] and len(ants) > 3:   # a spanning chain always stays
            pairs = [p for p in pairs if p[1] - p[0] == 2 or rng.integers(3)]
    if case["flips"]:
        pairs = [p[::-1] if rng.integers(2) else p for p in pairs]
    bin_ = 1 / (nf * case["df"])
    tau = {(a, p): np.round(rng.uniform(-6, 6, size=(nt, 1)), case["near"]) * bin_ for a in ants for p in case["pols"]}
    off = {(a, p): rng.uniform(-1.0, 1.0, size=(nt, 1)) for a in ants for p in case["pols"]}
    dead = [ants[-1]] if case["dead"] else []
    deadt = int(rng.integers(nt)) if case["deadt"] and nt > 1 else None
    ratio, wgts = {}, {}
    chan = rng.random(nf) < 0.1 if case["chan"] else np.zeros(nf, dtype=bool)
    for a, b in pairs:
        for p in case["pols"]:
            ph = 2 * np.pi * freqs * (tau[a, p] - tau[b, p]) + off[a, p] - off[b, p]
            amp = rng.uniform(0.5, 2.0) if case["amps"] else 1.0
            z = amp * np.exp(1j * ph)
            w = rng.uniform(0.5, 2.0) * np.ones((nt, nf))
            bad = np.zeros((nt, nf), dtype=bool)
            bad[:, chan] = True
            if a in dead or b in dead:
                bad[:] = True
            if deadt is not None and ants[0] in (a, b):
                bad[deadt] = True
            z[bad], w[bad] = np.nan, 0
            ratio[a, b, p], wgts[a, b, p] = z, w
    R, W = DataContainer(ratio), DataContainer(wgts)
    dl, of = quiet(model_based_firstcal, R, W, freqs)
    keys = {(a, JP[p[0]]) for a in ants for p in case["pols"]}
    require(set(dl) == set(of) == keys, f"delays for {sorted(dl)}, expected {sorted(keys)}")
    g = firstcal_gains(dl, of, freqs)
    for k in keys:
        require(dl[k].shape == of[k].shape == (nt, 1) and np.all(np.isfinite(dl[k])) and np.all(np.isfinite(of[k])), f"delays of {k}: {dl[k]}")
        close(g[k], np.exp(2j * np.pi * dl[k] * freqs + 1j * of[k]), f"firstcal gains of {k}", rtol=1e-9)
    ok = ~chan
    for t in range(nt):
        for p in case["pols"]:
            live = {a for (a_, b_, q), w in wgts.items() if q == p and w[t].sum() > 0 for a in (a_, b_)}
            for a in set(ants) - live:
                require(dl[a, JP[p[0]]][t] == 0 and of[a, JP[p[0]]][t] == 0, f"antenna {a} without data has delay {dl[a, JP[p[0]]][t]} at time {t}")
            if not live:
                continue
            close(sum(dl[a, JP[p[0]]][t, 0] for a in live) / bin_, 0.0, "mean delay of the antennas solved for, in delay bins", atol=1e-6)
            close(sum(of[a, JP[p[0]]][t, 0] for a in live), 0.0, "mean phase offset", atol=1e-6)
            # where the phases left after the delays do not wrap, offsets describe them
            left = [(off[a, p] + 2 * np.pi * freqs.mean() * (tau[a, p] - dl[a, JP[p[0]]]))[t, 0] for a in live]
            judge = max(left) - min(left) < 2.3
            ctx.label("offsets judged" if judge else "")
            for a, b in pairs:
                if wgts[a, b, p][t].sum() == 0:
                    continue
                ka, kb = (a, JP[p[0]]), (b, JP[p[0]])
                close((dl[ka] - dl[kb])[t, 0] / bin_, (tau[a, p] - tau[b, p])[t, 0] / bin_, f"delay difference of {a, b} at time {t}, in delay bins", rtol=0, atol=1.0 if case["chan"] else 0.3)
                z = ratio[a, b, p][t] * np.conj(g[ka] * np.conj(g[kb]))[t]
                err = np.abs(np.angle(np.mean(z[ok])))
                require(not judge or err < 0.4, f"{a, b}: phase of the calibrated ratio is {err:.2f} at time {t}")
    # one time alone, and data only matter where weighted
    t = int(rng.integers(nt))
    r2 = {k: np.where(wgts[k][[t]] > 0, 3.0 * v[[t]], rng.normal()) for k, v in ratio.items()}
    d2, o2 = quiet(model_based_firstcal, DataContainer(r2), DataContainer({k: w[[t]] for k, w in wgts.items()}), freqs)
    for k in keys:
        close(d2[k][0] / bin_, dl[k][t] / bin_, f"delay of {k} at time {t} alone and with the others", atol=1e-6)
        close(o2[k][0], of[k][t], f"offset of {k} at time {t} alone and with the others", atol=1e-6)
    ctx.label("split" if case["split"] else "one", "dead" if dead else "all")
    ctx.nontrivial(nt > 1 or len(case["pols"]) > 1)


# ---------------------------------------------------------------- refinement
def gen_ref(draw):
    return dict(seed=seed(draw), na=ints(draw, 4, 8), pols=pick(draw, [["ee"], ["nn", "ee"]]), nt=ints(draw, 1, 2), nf=ints(draw, 1, 6), noise=pick(draw, [0.0, 0.0, 0.05]), snap=flag(draw), flips=flag(draw), chan=flag(draw), dead=flag(draw), err=pick(draw, ["", "", "", "subset", "bl", "zero", "snap", "nan"]), uneq=flag(draw), g0=flag(draw), less=flag(draw))


def sim_gains(rng, keys, shape, lo=0.4):
    return {k: np.exp(rng.uniform(-lo, lo, size=shape) + 2j * np.pi * rng.random(shape)) for k in keys}


def check_ref(case, ctx):
    from hera_cal.datacontainer import DataContainer
    from hera_cal.skycal import log_gain_inverse_variance, refine_gains
    rng = rng_of(case["seed"], "ref")
    na, nt, nf, pols = case["na"], case["nt"], case["nf"], case["pols"]
    shape = (nt, nf)
    ants = [5 * a + 1 for a in range(na)]
    snaps = {a: "abc"[i % 3] if i < 3 else "abcd"[int(rng.integers(4))] for i, a in enumerate(ants)}
    pairs = [(a, b) for i, a in enumerate(ants) for b in ants[i + 1:]]
    if case["flips"]:
        pairs = [p[::-1] if rng.integers(2) else p for p in pairs]
    if case["less"] and not case["snap"] and na > 4:   # leave out one baseline
        pairs.pop(int(rng.integers(len(pairs))))
    keys = [(a, JP[p[0]]) for a in ants for p in pols]
    true = sim_gains(rng, keys, shape)
    g0 = sim_gains(rng, keys, shape) if case["g0"] else {k: np.ones(shape, dtype=complex) for k in keys}
    dead = {(ants[-1], t): True for t in range(nt) if case["dead"] and na > 4 and rng.integers(2)}
    chan = {t: (rng.random(nf) < 0.3 if case["chan"] else np.zeros(nf, dtype=bool)) for t in range(nt)}
    ratio, wgts = {}, {}
    for a, b in pairs:
        for p in pols:
            ka, kb = (a, JP[p[0]]), (b, JP[p[0]])
            full = {k: true[k] * g0[k] for k in (ka, kb)}
            z = full[ka] * np.conj(full[kb])
            w = (rng.uniform(0.5, 2, size=shape) if case["uneq"] else np.ones(shape)) / np.abs(g0[ka] * g0[kb])**2
            z = z * (1 + case["noise"] * cplx(rng, shape))
            if case["snap"] and snaps[a] == snaps[b]:
                z = z * 5.0 * np.exp(1j)       # exempt from decoherence: must not enter
            for t in range(nt):
                bad = chan[t] | bool(dead.get((a, t)) or dead.get((b, t)))
                z[t, bad], w[t, bad] = np.nan, 0
            ratio[a, b, p], wgts[a, b, p] = z, w
    kw = dict(ant_to_SNAP_dict=dict(snaps)) if case["snap"] else {}
    R, W = (DataContainer({k: v.copy() for k, v in x.items()}) for x in (ratio, wgts))
    used = [k for k in ratio if not (case["snap"] and snaps[k[0]] == snaps[k[1]])]
    err = case["err"]
    if err:
        live = [k for k in used if wgts[k][0].sum() > 0]
        if not live or (err == "snap" and not case["snap"]):
            return
        k = live[int(rng.integers(len(live)))]
        c = int(np.where(wgts[k][0] > 0)[0][0])
        if err == "subset":
            if (wgts[k][0] > 0).sum() < 2:
                return
            W[k][0, c] = 0
        elif err == "bl":
            W[k][0] = 0
        elif err == "zero":
            R[k][0, c] = 0
        elif err == "nan":
            R[k][0, c] = np.nan     # weighted but not a number: drops out of the weights, so the flags are not uniform
            if (wgts[k][0] > 0).sum() < 2:
                return
        else:
            del kw["ant_to_SNAP_dict"][k[0]]
        with expect_raises((ValueError,), f"refine_gains with {err} at {k}, channel {c}"):
            quiet(refine_gains, R, W, g0, **kw)
        ctx.label("error " + err)
        return
    rg, meta = quiet(refine_gains, R, W, g0, **kw)
    require(set(rg) == set(keys), f"refined gains for {sorted(rg)}, expected {sorted(keys)}")
    require(set(meta["iter"]) == {(t, p) for t in range(nt) for p in pols}, f"diagnostics for {sorted(meta['iter'])}")
    for p in pols:
        for t in range(nt):
            live = [a for a in ants if any(wgts[k][t].sum() > 0 for k in used if k[2] == p and a in k[:2])]
            for a in ants:
                nan = chan[t] | (a not in live)
                require(np.array_equal(np.isnan(rg[a, JP[p[0]]][t]), nan), f"gain of {a} {p} at time {t}: solved where {~np.isnan(rg[a, JP[p[0]]][t])}, expected where {~nan}")
            require(len(meta["divergent_chans"][t, p]) == 0, "failed channels reported")
            it, cc = meta["iter"][t, p], meta["conv_crit"][t, p]
            good = ~chan[t] & (len(live) > 0)
            require(np.all((it > 0) == good) and np.all(np.isfinite(cc) == good) and np.all(cc[good] < 1e-6), f"iterations {it}, convergence {cc}, channels {good}")
            for c in np.where(good)[0]:
                G = {a: rg[a, JP[p[0]]][t, c] for a in live}
                ks = [k for k in used if k[2] == p and wgts[k][t, c] > 0]
                ref = {k: ratio[k][t, c] / (g0[gkey(k)[0]] * np.conj(g0[gkey(k)[1]]))[t, c] for k in ks}
                ww = {k: wgts[k][t, c] * np.abs((g0[gkey(k)[0]] * g0[gkey(k)[1]])[t, c])**2 for k in ks}
                chi = lambda H: sum(ww[k] * abs(ref[k] - H[k[0]] * np.conj(H[k[1]]))**2 for k in ks)
                T = {a: true[a, JP[p[0]]][t, c] for a in live}
                if case["noise"] == 0:
                    for k in ks:
                        close(G[k[0]] * np.conj(G[k[1]]), ref[k], f"gains of {k} at time {t}, channel {c}", rtol=1e-5, atol=1e-6)
                    q = G[live[0]] / T[live[0]]
                    for a in live:
                        close(G[a] / T[a], q, f"gain of {a} against the truth, up to one phase", rtol=1e-5, atol=1e-6)
                    close(abs(q), 1.0, "amplitude of the refined gains", rtol=1e-5)
                else:
                    require(chi(G) <= chi(T) * (1 + 1e-9), f"chi^2 {chi(G)} is above that of the true gains, {chi(T)}")
                    for a in live:      # stationary: each gain is the best one given the others
                        num = sum(ww[k] * ref[k] * G[k[1]] for k in ks if k[0] == a) + sum(ww[k] * np.conj(ref[k]) * G[k[0]] for k in ks if k[1] == a)
                        den = sum(ww[k] * abs(G[k[1] if k[0] == a else k[0]])**2 for k in ks if a in k[:2])
                        close(num / den, G[a], f"gain of {a} is not the least-squares one given the others", rtol=1e-5, atol=1e-6)
    # ln|gain| inverse variances
    iv = log_gain_inverse_variance(W, g0, rg, snaps)
    require(set(iv) == set(rg), f"inverse variances for {sorted(iv)}")
    for k in keys:
        e = np.zeros(shape)
        for b in ratio:
            if k in gkey(b) and snaps[b[0]] != snaps[b[1]]:
                i, j = gkey(b)
                e += 2 * np.nan_to_num(wgts[b] * np.abs(g0[i] * g0[j] * rg[i] * rg[j])**2)
        close(iv[k], e, f"inverse variance of ln|gain| of {k}", rtol=1e-7)
    ctx.label("snap" if case["snap"] else "all", "noise" if case["noise"] else "exact", "dead" if dead else "")
    ctx.nontrivial(nt * nf > 1)


# ---------------------------------------------------------------- whole pipeline and spectators
def gen_sky(draw):
    return dict(seed=seed(draw), na=ints(draw, 4, 7), pols=pick(draw, [["ee"], ["nn", "ee"], ["ee", "nn", "en", "ne"]]), nt=ints(draw, 1, 2), nf=pick(draw, [32, 48]), snap=flag(draw), chan=flag(draw), dead=flag(draw), flips=flag(draw), sep=flag(draw), bls=flag(draw), loss=flag(draw), nspec=ints(draw, 1, 2),
                nancell=flag(draw), chisq=flag(draw), noisy=flag(draw), own=flag(draw))


def check_sky(case, ctx):
    from hera_cal.datacontainer import DataContainer
    from hera_cal.skycal import calibrate_abs_amp_from_autos, expand_sky_gains, sky_calibrate
    rng = rng_of(case["seed"], "sky")
    na, nt, nf, pols = case["na"], case["nt"], case["nf"], case["pols"]
    shape = (nt, nf)
    freqs = freqs_of(nf, df=1e6)
    times = 2459000.0 + np.arange(nt) * 10.0 / 86400
    ants = [3 * a for a in range(na)]
    spec = [100 + i for i in range(case["nspec"])]
    every = ants + spec
    snaps = {a: "abc"[i % 3] if i < 3 else "abcd"[int(rng.integers(4))] for i, a in enumerate(every)}
    feeds = sorted({p[0] for p in pols})
    x = np.linspace(-1, 1, nf)
    g, loss = {}, {}
    bw = nf * 1e6
    for s in sorted(set(snaps.values())):
        loss[s] = np.where(np.arange(nf) // 16 == int(rng.integers(2)), rng.uniform(0.7, 0.95), 1.0) if case["loss"] else np.ones(nf)
    for a in every:
        for f in feeds:
            g[a, JP[f]] = np.exp(rng.uniform(-0.3, 0.3) + 0.2 * x * rng.normal() + 2j * np.pi * (freqs - freqs.mean()) * rng.uniform(-3, 3) / bw + 1j * rng.uniform(-1, 1)) * np.ones((nt, 1))
    pairs = [(a, b) for i, a in enumerate(every) for b in every[i + 1:]]
    if case["flips"]:
        pairs = [p[::-1] if rng.integers(2) else p for p in pairs]
    M = {p + (q,): rng.uniform(1, 3, size=(nt, 1)) * np.exp(1j * rng.uniform(0, 2 * np.pi, size=(nt, 1)) + 0.3j * x) for p in pairs for q in pols}
    eff = {k: v * (loss[snaps[k[0]]]) for k, v in g.items()}

    def prod(k, G):
        i, j = gkey(k)
        return G[i] * np.conj(G[j])
    V = {k: M[k] * (prod(k, eff) if snaps[k[0]] != snaps[k[1]] else prod(k, g)) for k in M}
    A = {(a, a, f * 2): 50.0 * np.abs(g[a, JP[f]])**2 + 0j for a in every for f in feeds}
    chan = rng.random(nf) < 0.15 if case["chan"] else np.zeros(nf, dtype=bool)
    F = {k: np.tile(chan, (nt, 1)) for k in V}
    for k in V:
        V[k][F[k]] = 1e4
    data = DataContainer({**{k: v.copy() for k, v in V.items()}, **({} if case["sep"] else {k: v.copy() for k, v in A.items()})})
    autos = DataContainer({k: v.copy() for k, v in A.items()})
    if case["own"]:     # cross-polarized autos are no powers
        for a in every:
            for c in (autos, data):
                if (a, a, "ee") in c and len(feeds) == 2:
                    c[a, a, "en"] = cplx(rng, shape)
    for c in (data, autos):
        c.freqs, c.times, c.times_by_bl = freqs, times, None
    model = DataContainer({k: v.copy() for k, v in M.items()})
    kw = dict(dt=10.0, df=1e6, data_flags=DataContainer({k: f.copy() for k, f in F.items()}))
    if case["sep"]:
        kw["autos"] = autos
    if case["snap"]:
        kw["ant_to_SNAP_dict"] = dict(snaps)
    intra = case["snap"] or not case["loss"]
    # amplitudes
    amp = quiet(calibrate_abs_amp_from_autos, autos)
    require(set(amp) == set(g), f"amplitudes for {sorted(amp)}")
    for f in feeds:
        med = np.median([np.abs(A[a, a, f * 2]) for a in every], axis=0)
        for a in every:
            close(amp[a, JP[f]], np.sqrt(np.abs(A[a, a, f * 2]) / med) + 0j, f"amplitude of {a} {f} from its autocorrelation", rtol=1e-9)
    # calibrate the good antennas only (others by omission, autos included)
    sub_a = DataContainer({k: v for k, v in (autos if case["sep"] else data).items() if k[0] not in spec and k[1] not in spec})
    sub_d = DataContainer({k: v for k, v in data.items() if k[0] not in spec and k[1] not in spec})
    for c in (sub_d, sub_a):
        c.freqs, c.times, c.times_by_bl = freqs, times, None
    kws = dict(kw)
    if case["sep"]:
        kws["autos"] = sub_a
    if case["bls"]:
        kws["bls"] = [k for k in V if k[0] in ants and k[1] in ants and k[2][0] == k[2][1]]
    if case["snap"]:
        ss = {snaps[a] for a in ants}
        lone = [a for a in ants if all(snaps[b] == snaps[a] for b in ants if b != a)]
        if lone or len(ss) < 3:
            return
    gains, meta = quiet(sky_calibrate, sub_d, model, **kws)
    want = {(a, JP[f]) for a in ants for f in feeds}
    require(set(gains) == want, f"gains for {sorted(gains)}, expected {sorted(want)}")
    truth = eff if intra or not case["loss"] else None
    for k in sorted(gains):
        require(np.array_equal(np.isnan(gains[k]), np.tile(chan, (nt, 1))), f"gains of {k} are not NaN exactly in flagged channels")
        close(np.nan_to_num(gains[k]), np.nan_to_num(meta["g0"][k] * meta["refined_gains"][k]), f"gain of {k} is not g0 times the refined gain", rtol=1e-8)
        if truth is not None:
            close(np.abs(gains[k][:, ~chan]), np.abs(truth[k][:, ~chan]), f"|gain| of {k}", rtol=1e-5)
    if truth is not None:
        for k in V:
            if k[0] in ants and k[1] in ants and k[2][0] == k[2][1] and (not case["snap"] or snaps[k[0]] != snaps[k[1]]):
                c = (V[k] / prod(k, gains))[:, ~chan]
                close(c, M[k][:, ~chan], f"calibrated {k} against its model", rtol=1e-5, atol=1e-6)
    # spectators against the frozen solution
    start = {k: v.copy() for k, v in gains.items()}
    if truth is None:
        start = {k: eff[k].copy() for k in want}
    else:
        # one convention for both feeds, as after relative-phase calibration
        start = {k: eff[k] * np.where(chan, np.nan, 1.0) for k in want}
    if case["nancell"]:
        for k in start:
            start[k][rng.random(shape) < 0.1] = np.nan
    G = {k: v.copy() for k, v in start.items()}
    if case["noisy"]:
        for k in V:
            V[k] = V[k] * (1 + 0.1 * cplx(rng, shape))
            data[k] = V[k].copy()
    cs = {next(iter(want)): np.full(shape, 7.0)} if case["chisq"] else None
    quiet(expand_sky_gains, data, model, G, chisq_per_ant=cs, **kw)
    exp_new = {}
    for a in spec:
        for f in feeds:
            k0 = (a, JP[f])
            num, den, terms = np.zeros(shape, dtype=complex), np.zeros(shape), []
            for k in V:
                for q, v, m in ((k, V[k], M[k]), (rev(k), np.conj(V[k]), np.conj(M[k]))):
                    i, j = gkey(q)
                    if i != k0 or j not in start or (case["snap"] and snaps[q[0]] == snaps[q[1]]):
                        continue
                    ok = ~F[k] & np.isfinite(start[j])
                    w = np.where(ok, np.abs(m)**2 / (np.abs(A[q[0], q[0], q[2][0] * 2] * A[q[1], q[1], q[2][1] * 2]) / 1e7), 0)
                    z = np.where(ok, v / m, 0)
                    s = np.nan_to_num(start[j])
                    num, den = num + w * z * s, den + w * np.abs(s)**2
                    terms.append((w, z, s))
            if terms:
                exp_new[k0] = (np.where(den > 0, num / np.where(den > 0, den, 1), np.nan), terms)
    require(set(G) == want | set(exp_new), f"gains after adding spectators: {sorted(set(G) ^ (want | set(exp_new)))} wrong")
    for k in want:
        same(G[k], start[k], f"gain of {k}, already solved, changed")
    for k, (e, terms) in exp_new.items():
        wrong = np.argwhere(np.isnan(G[k]) != np.isnan(e)).tolist()
        require(not wrong, f"spectator {k}: NaN or not in the cells {wrong[:3]}, against the baselines usable there")
        close(np.nan_to_num(G[k]), np.nan_to_num(e), f"gain of the spectator {k}", rtol=1e-4)
        if not case["noisy"] and len(pols) < 4:
            kk = ~np.isnan(e)
            tr = eff[k] if case["snap"] else None
            if tr is not None or not case["loss"]:
                close(G[k][kk], (eff[k] if tr is not None else g[k])[kk], f"gain of the spectator {k} against the truth", rtol=1e-4)
        if cs is not None:
            n = sum((w > 0).astype(float) for w, _, _ in terms)
            c = sum(w * np.abs(z - np.nan_to_num(e) * np.conj(s))**2 for w, z, s in terms)
            close(np.nan_to_num(cs[k]), np.where(n > 0, c / np.where(n > 0, n, 1), 0), f"chi^2 of the spectator {k}", rtol=1e-3, atol=1e-6)
            require(np.array_equal(np.isnan(cs[k]), n == 0), f"chi^2 of {k} NaN where measured")
    if cs is not None:
        require(set(cs) == {next(iter(want))} | set(exp_new) and np.all(cs[next(iter(want))] == 7.0), "chi^2 of a solved antenna changed")
    ctx.label("snap" if case["snap"] else "all", f"{len(pols)} pol", "loss" if case["loss"] else "")
    ctx.nontrivial(nt > 1 or len(feeds) > 1)


# ---------------------------------------------------------------- decoherence
def gen_dec(draw):
    return dict(seed=seed(draw), nsnap=ints(draw, 1, 3), per=ints(draw, 1, 3), nt=ints(draw, 1, 2), npb=pick(draw, [16, 24]), nblk=ints(draw, 5, 8), split=pick(draw, ["low", "mid", "high"]), nsup=ints(draw, 0, 3), chan=flag(draw), dead=flag(draw), strong=flag(draw), scale=pick(draw, [1.0, 1e-3, 1e4]), part=flag(draw), cover=flag(draw))


def check_dec(case, ctx):
    from hera_cal.skycal import estimate_SNAP_decoherence
    rng = rng_of(case["seed"], "dec")
    npb, nb, nt = case["npb"], case["nblk"], case["nt"]
    nf = npb * nb - (npb // 3 if case["part"] else 0)
    freqs = freqs_of(nf, f0=6e7, df=1e5)
    shape = (nt, nf)
    blk = np.arange(nf) // npb
    split = {"low": 1e7, "mid": freqs[(nb // 2) * npb] - 5e4, "high": 9e9}[case["split"]]
    bands = [np.where(freqs < split)[0], np.where(freqs >= split)[0]]
    chan = rng.random(nf) < 0.1 if case["chan"] else np.zeros(nf, dtype=bool)
    if case["cover"]:
        b = int(rng.integers(nb))
        chan[blk == b] = True     # a block with no data
    sig = 1e-4
    snaps, gains, wgts = {}, {}, {}
    p = {}
    a = 0
    for s in range(case["nsnap"]):
        p[s] = np.zeros((nt, nb))
        for _ in range(case["nsup"]):
            p[s][int(rng.integers(nt)), int(rng.integers(nb))] = rng.uniform(0.02, 0.3)
        for _ in range(case["per"]):
            snaps[a] = s
            for j in ("Jee", "Jnn"):
                x = np.linspace(-1, 1, nf)
                sm = 0.3 * rng.normal() + 0.2 * rng.normal() * x + 0.1 * rng.normal() * x**2
                w = np.full(shape, 1 / sig**2)
                gg = np.exp(sm + np.log(case["scale"]) + 2j * np.pi * rng.random()) * (1 - p[s][:, blk]) * np.exp(sig * rng.normal(size=shape))
                gg[:, chan], w[:, chan] = (np.nan if rng.integers(2) else 1e3), 0
                gains[a, j], wgts[a, j] = gg, w
            a += 1
    deads = None
    if case["dead"] and nt > 1:
        deads = int(rng.integers(case["nsnap"])), int(rng.integers(nt))
        for (an, j) in gains:
            if snaps[an] == deads[0]:
                wgts[an, j][deads[1]] = 0
                gains[an, j][deads[1]] = 1e5
    T = 40e-9
    args = dict(nchans_per_block=npb, gain_smoothing_scale=T, band_split_freq=split)
    keep = {k: v.copy() for k, v in gains.items()}
    dec, meta = quiet(estimate_SNAP_decoherence, gains, wgts, snaps, freqs, **args)
    for k in keep:
        same(gains[k], keep[k], "estimate changed the gains")
    require(set(dec) == set(p), f"decoherence of {sorted(dec)}")
    ok = np.zeros(nb, dtype=bool)
    for b in range(nb):
        ok[b] = (~chan[blk == b]).sum() / npb > 0.05
    for s in p:
        require(dec[s].shape == (nt, nb), f"shape {dec[s].shape}")
        for t in range(nt):
            if deads == (s, t):
                require(np.all(np.isnan(dec[s][t])) and meta["n_spectra_per_SNAP"][s][t] == 0, f"SNAP {s} has no data at time {t}, but {dec[s][t]}")
                continue
            require(np.array_equal(np.isnan(dec[s][t]), ~ok), f"decoherence of SNAP {s} at time {t} is {dec[s][t]}, blocks with data: {ok}")
            require(np.all(dec[s][t][ok] >= 0), f"negative loss {dec[s][t]}")
            require(meta["n_spectra_per_SNAP"][s][t] == 2 * case["per"], "number of spectra")
            close(dec[s][t], 1 - np.exp(-meta["log_suppression"][s][t]), "loss = 1 - exp(-log suppression)", rtol=1e-9)
            for band in bands:
                bb = [b for b in range(nb) if ok[b] and np.any(blk[band] == b)]
                # judged if every block of the band has data and some are clean at both ends
                if len(bb) < 5:
                    continue
                pt = p[s][t][bb]
                if pt.min() > 0:
                    continue
                got = dec[s][t][bb]
                require(got.min() == 0, f"SNAP {s}: the cleanest block of a band is at {got.min()}")
                # the truth is one of the solutions: fitted staircase + smooth must describe it
                if 3 * np.count_nonzero(pt) < len(pt) and not np.any((pt[1:] > 0) & (pt[:-1] > 0)):
                    err = np.abs(got - pt).max()
                    require(err < 0.02, f"SNAP {s}, time {t}: loss {got.round(4)}, expected {pt.round(4)}")
                    ctx.label("judged" if pt.any() else "clean")
    # other SNAPs, phases and order do not matter
    s = int(rng.integers(case["nsnap"]))
    part = [k for k in gains if snaps[k[0]] == s]
    if deads is None:
        d2, _ = quiet(estimate_SNAP_decoherence, {k: gains[k] * np.exp(1j) for k in part[::-1]}, {k: wgts[k] for k in part}, snaps, freqs, **args)
        close(np.nan_to_num(d2[s]), np.nan_to_num(dec[s]), f"SNAP {s} alone and with the others", rtol=0, atol=1e-5)
    with expect_raises((ValueError,), "an antenna without a SNAP"):
        estimate_SNAP_decoherence(gains, wgts, {a: x for a, x in snaps.items() if a != 0}, freqs, **args)
    with expect_raises((ValueError,), "a gain without weights"):
        estimate_SNAP_decoherence(gains, {k: w for k, w in wgts.items() if k != (0, "Jee")}, snaps, freqs, **args)
    ctx.nontrivial(case["nsnap"] > 1 or nt > 1)


SUBS = [Sub("ratio", gen_ratio, check_ratio, quick=300, thorough=6000, shards=1),
        Sub("firstcal", gen_fc, check_fc, quick=120, thorough=2500, shards=2),
        Sub("refine", gen_ref, check_ref, quick=300, thorough=6000, shards=2),
        Sub("sky", gen_sky, check_sky, quick=120, thorough=2500, shards=4),
        Sub("decoherence", gen_dec, check_dec, quick=80, thorough=1500, shards=3)]
