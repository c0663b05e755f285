"""C10: recalibrating redundant solutions, correcting SNAP decoherence, and calibrate-and-average follow their equations."""
import copy
import os

import numpy as np

from ..core import Sub, Violation, close, expect_raises, require, rng_of, same
from ..gens import cplx, flag, ints, pick, seed
from ..layouts import gen_layout, grid_layout, positions, true_groups
from ..redsim import rev
from ..uvsim import freqs_of, times_of
from .c12 import quiet

RULE = ("Random and gridded arrays with 1-4 polarizations, baselines missing or stored reversed, gains missing, flagged or not finite, "
        "antennas on 1-4 SNAPs with per-block loss fractions (some unmeasured). Oracle: the documented formulas evaluated directly on the "
        "input arrays; decoherence files against a dictionary model of their contents. Non-trivial: a group with two contributing members "
        "(averages), an inter-SNAP baseline with nonzero loss (corrections), two or more parts (files).")
ASSUMPTIONS = ["autocorrelations are present for the antennas that are averaged"]
J = {"e": "Jee", "n": "Jnn"}


def gen(draw):
    lay = grid_layout(draw, nx=(3, 3), ny=(1, 2)) if ints(draw, 0, 2) else gen_layout(draw, dims=2, nmin=3, nmax=6, span=2)
    return dict(lay=lay, pols=pick(draw, [["ee"], ["nn", "ee"], ["ee", "nn", "en", "ne"]]), nt=ints(draw, 1, 3), nb=ints(draw, 1, 3), npb=ints(draw, 1, 3),
                seed=seed(draw), drop=ints(draw, 0, 2), flip=flag(draw), nsnap=ints(draw, 1, 4), nan=flag(draw), gflag=pick(draw, [0.0, 0.2, 0.5]),
                bad=flag(draw), ex=ints(draw, 0, 2), dflags=flag(draw), snap=flag(draw), chisq=flag(draw), eff=flag(draw), old=flag(draw),
                conv=pick(draw, ["divide", "multiply"]), miss=ints(draw, 0, 2) == 2, zero=ints(draw, 0, 4) == 4, oldf=flag(draw),
                autos=flag(draw), infer=flag(draw))


class World:
    def __init__(self, case, need_autos=True):
        rng = rng_of(case["seed"], "c10")
        self.case, self.rng = case, rng
        self.nt, self.nf = case["nt"], case["nb"] * case["npb"]
        sh = self.sh = (self.nt, self.nf)
        self.pos = positions(case["lay"], 14.6)
        self.ants = sorted(self.pos)
        self.pols = case["pols"]
        self.groups = [sorted(g) for _, g in sorted(true_groups(case["lay"], autos=True).items())]
        self.reds = [[p + (pol,) for p in g] for pol in self.pols for g in self.groups]
        self.stored = {}     # key as stored -> array
        self.vis = {}        # both orientations
        n = 0
        for g in self.groups:
            for p in g:
                n += 1
                auto = p[0] == p[1]
                if auto and not need_autos and not case["autos"]:
                    continue
                if not auto and (n * 5 + case["seed"]) % 7 < case["drop"]:
                    continue
                flip = case["flip"] and not auto and rng.integers(2)
                for pol in self.pols:
                    k = p + (pol,)
                    if auto and pol[0] != pol[1] and rev(k) in self.vis:
                        v = np.conj(self.vis[rev(k)])
                    else:
                        v = cplx(rng, sh)
                        if auto and pol[0] == pol[1]:
                            v = (np.abs(v) + 0.3).astype(complex)
                            if case["zero"] and rng.integers(4) == 0:
                                v[rng.random(size=sh) < 0.4] = 0
                    self.put(rev(k) if flip else k, np.conj(v) if flip else v)
        self.jps = sorted({J[x] for p in self.pols for x in p})
        self.gains = {(a, p): 1 + 0.4 * cplx(rng, sh) for a in self.ants for p in self.jps}
        self.gflags = {k: rng.random(size=sh) < case["gflag"] for k in self.gains}
        self.snapof = {a: f"s{rng.integers(case['nsnap'])}" for a in self.ants}
        self.p = {s: rng.uniform(0, 0.6, size=(self.nt, case["nb"])) * (rng.random(size=(self.nt, case["nb"])) < 0.7) for s in
                  sorted({f"s{k}" for k in range(case["nsnap"])})}
        if case["nan"]:
            for s in self.p:
                self.p[s][rng.random(size=self.p[s].shape) < 0.2] = np.nan
        self.freqs, self.times = freqs_of(self.nf), times_of(self.nt)

    def put(self, k, v):
        self.stored[k] = v
        self.vis[k] = v
        if rev(k) not in self.stored:
            self.vis[rev(k)] = np.conj(v)

    def wide(self, x):
        return np.repeat(x, self.case["npb"], axis=1)


def check_redsol(case, ctx):
    """calibrate_redundant_solution: mean over the group of unflagged old/new ratios"""
    from hera_cal.apply_cal import calibrate_redundant_solution
    from hera_cal.datacontainer import DataContainer
    W = World(case, need_autos=False)
    rng = W.rng
    new, newf = copy.deepcopy(W.gains), copy.deepcopy(W.gflags)
    old = {k: 1 + 0.4 * cplx(rng, W.sh) for k in new} if case["old"] else None
    oldf = {k: rng.random(size=W.sh) < case["gflag"] / 2 for k in new} if (case["old"] and case["oldf"]) else None
    if case["miss"] and len(W.ants) > 2:
        for d in (new, newf, old, oldf):
            if d is not None:
                for p in W.jps:
                    d.pop((W.ants[-1], p), None)
    G, GF = copy.deepcopy(new), copy.deepcopy(newf)
    O, OF = copy.deepcopy(old), copy.deepcopy(oldf)
    # keep one of the two copies of a cross-polarized auto sometimes
    st = dict(W.stored)
    if case["infer"]:
        for k in list(st):
            if k[0] == k[1] and k[2] == "ne" and rev(k) in st:
                st.pop(k)
    flags = {k: rng.random(size=W.sh) < 0.2 for k in st}
    data, dflags = DataContainer({k: v.copy() for k, v in st.items()}), DataContainer({k: v.copy() for k, v in flags.items()})
    quiet(calibrate_redundant_solution, data, dflags, new, newf, W.reds, old_gains=old, old_flags=oldf, gain_convention=case["conv"])
    e = {"divide": 1, "multiply": -1}[case["conv"]]
    ones, yes = np.ones(W.sh, dtype=complex), np.ones(W.sh, dtype=bool)
    n2 = 0
    for k, v in st.items():
        gk = k if any(k in r for r in W.reds) else rev(k)
        red = next(r for r in W.reds if gk in r)
        rat, ok = [], []
        for i, j, pol in red:
            a, b = (i, J[pol[0]]), (j, J[pol[1]])
            r = (O[a] * np.conj(O[b]) if O is not None and a in O and b in O else ones) / (G.get(a, ones) * np.conj(G.get(b, ones)))
            f = GF.get(a, yes) | GF.get(b, yes)
            if OF is not None:
                f = f | OF.get(a, yes) | OF.get(b, yes)
            rat.append(r)
            ok.append(~f)
        rat, ok = np.array(rat), np.array(ok)
        n = ok.sum(axis=0)
        n2 += np.sum(n > 1)
        r = np.where(n > 0, np.where(ok, rat, 0).sum(axis=0) / np.where(n > 0, n, 1), 1) ** e
        r = r if gk == k else np.conj(r)
        close(data[k], v * r, f"redundant solution {k} after recalibration", rtol=1e-9)
        same(dflags[k], flags[k] | (n == 0), f"flags of redundant solution {k}")
        if k[0] == k[1] and k[2][0] == k[2][1]:
            require(np.allclose(np.imag(data[k]), 0, atol=1e-13), f"autocorrelation {k} is not real")
    require(set(data.keys()) == set(st), "calibrate_redundant_solution changed the baselines")
    ctx.label(case["conv"], "old" if case["old"] else "raw")
    ctx.nontrivial(n2 > 0)


def corrected(W, k, v, p=None):
    p = W.p if p is None else p
    si, sj = W.snapof[k[0]], W.snapof[k[1]]
    if si == sj:
        return v
    return v / ((1 - W.wide(np.nan_to_num(p[si]))) * (1 - W.wide(np.nan_to_num(p[sj]))))


def make_sd(W, p=None, **kw):
    from hera_cal.io import SNAPDecoherence
    p = W.p if p is None else p
    nb = W.case["nb"]
    return SNAPDecoherence(p, {s: np.nan_to_num(v) for s, v in p.items()}, {s: np.full(v.shape, 0.1) for s, v in p.items()},
                           {s: np.full(W.nt, 3) for s in p}, W.times, W.freqs.reshape(nb, -1), W.snapof, np.ones(nb, dtype=bool), [0],
                           [[W.freqs[0], W.freqs[-1]]], **kw)


def check_snap(case, ctx):
    from hera_cal.apply_cal import correct_SNAP_decoherence_in_place
    from hera_cal.datacontainer import DataContainer
    W = World(case)
    rng = W.rng
    inter = [k for k in W.stored if W.snapof[k[0]] != W.snapof[k[1]]]
    unm = {k: W.wide(np.isnan(W.p[W.snapof[k[0]]]) | np.isnan(W.p[W.snapof[k[1]]])) for k in inter}
    flags = {k: rng.random(size=W.sh) < 0.3 for k in W.stored}
    good = case["gflag"] > 0
    if good:
        for k in unm:
            flags[k] |= unm[k]
    clash = any(np.any(unm[k] & (~flags[k] if case["dflags"] else True)) for k in inter)
    for via in ("function", "object"):
        data = DataContainer({k: v.copy() for k, v in W.stored.items()})
        fl = DataContainer({k: v.copy() for k, v in flags.items()}) if case["dflags"] else None
        sd = make_sd(W)
        if via == "object" and flag_bit(case, 1):
            data.freqs, data.times = W.freqs, W.times
        nf = W.nf - (case["seed"] // 3 % case["npb"] if via == "function" else 0)     # the last block may be cut short
        if nf < W.nf:
            ctx.label("cut block")
            for dc in (data, fl):
                for k in list(dc.keys()) if dc is not None else []:
                    dc[k] = dc[k][:, :nf].copy()
        f = (lambda: correct_SNAP_decoherence_in_place(data, W.p, W.snapof, data_flags=fl, nchans_per_block=case["npb"])) if via == "function" else \
            (lambda: sd.correct_in_place(data, data_flags=fl))
        if any(np.any((unm[k] & (~flags[k] if case["dflags"] else True))[:, :nf]) for k in inter):
            with expect_raises((ValueError,), "unmeasured decoherence over unflagged inter-SNAP data"):
                f()
            for k in W.stored:
                same(data[k], W.stored[k][:, :nf], "data changed although the correction was refused")
            continue
        f()
        for k, v in W.stored.items():
            if k in inter:
                close(data[k], corrected(W, k, v)[:, :nf], f"inter-SNAP {k}", rtol=1e-10)
            else:
                same(data[k], v[:, :nf], f"intra-SNAP {k} must not change")
        if fl is not None:
            for k in flags:
                same(fl[k], flags[k][:, :nf], "flags changed")
    # data somewhere else in frequency or time are refused
    sd = make_sd(W)
    data = DataContainer({k: v.copy() for k, v in W.stored.items()})
    data.freqs, data.times = (W.freqs + 122070.3125, W.times) if flag_bit(case, 2) else (W.freqs, W.times + 1e-4)
    with expect_raises((ValueError,), "decoherence measured at other channels or times"):
        sd.correct_in_place(data)
    for k in W.stored:
        same(data[k], W.stored[k], "data changed although the correction was refused")
    missing = {a: s for a, s in W.snapof.items() if a != W.ants[0]}
    if any(W.ants[0] in k[:2] for k in W.stored):
        with expect_raises((ValueError,), "antenna without a SNAP"):
            correct_SNAP_decoherence_in_place(data, W.p, missing, nchans_per_block=case["npb"])
    # gains: the staircase is taken out for measured blocks only
    cg = sd.correct_gains(W.gains)
    for (a, p), g in W.gains.items():
        close(cg[a, p], g / (1 - W.wide(np.nan_to_num(W.p[W.snapof[a]]))), f"corrected gain {(a, p)}", rtol=1e-10)
    if clash:
        ctx.label("refused")
    ctx.nontrivial(len(inter) > 0 and any(np.nansum(x) > 0 for x in W.p.values()))


def flag_bit(case, n):
    return bool((case["seed"] >> n) & 1)


def check_redavg(case, ctx):
    from hera_cal.apply_cal import calibrate_and_red_avg
    from hera_cal.datacontainer import DataContainer
    W = World(case)
    rng = W.rng
    ants, sh = W.ants, W.sh
    gains = dict(W.gains)
    if case["bad"]:
        for k in gains:
            if rng.integers(3) == 0:
                gains[k] = gains[k].copy()
                gains[k][rng.random(size=sh) < 0.3] = [np.nan, np.inf, complex(np.nan, 1)][rng.integers(3)]
    if case["miss"] and len(ants) > 2:
        for p in W.jps:
            gains.pop((ants[-1], p), None)
    aflags = W.gflags if case["gflag"] else None
    ex = set()
    for k in rng.permutation(len(gains))[:case["ex"]]:
        ex.add(sorted(gains)[k])
    dfl = None
    if case["dflags"]:
        dfl = {k: rng.random(size=sh) < 0.25 for k in W.stored}
        for k in dfl:
            if k[0] == k[1] and k[2][0] != k[2][1]:
                dfl[k] = dfl[min(k, rev(k))]
    dt, df = (9.663677, 122070.3125) if not (case["infer"] and W.nt > 1 and W.nf > 1) else (None, None)
    data = DataContainer({k: v.copy() for k, v in W.stored.items()})
    data.freqs, data.times = W.freqs, W.times
    data.times_by_bl = {k[:2]: W.times for k in W.stored}
    data.times_by_bl.update({k[:2][::-1]: W.times for k in W.stored})
    DT = dt if dt is not None else np.median(np.ediff1d(W.times)) * 86400
    DF = df if df is not None else np.median(np.ediff1d(W.freqs))
    sd = make_sd(W) if case["snap"] else None
    keep = {k: v.copy() for k, v in gains.items()}
    d, f, n, meta = quiet(calibrate_and_red_avg, data, gains, W.reds, ant_flags=aflags, ex_ants=ex, data_flags=None if dfl is None else DataContainer({k: v.copy() for k, v in dfl.items()}),
                          snap_decoherence=sd, dt=dt, df=df, compute_chisq=case["chisq"], effective_nsamples=case["eff"])
    for k in W.stored:
        same(data[k], W.stored[k], "calibrate_and_red_avg changed the data passed in")
    for k in keep:
        same(gains[k], keep[k], "calibrate_and_red_avg changed the gains passed in")
    # ---- the reference
    p = W.p if case["snap"] else {s: np.zeros_like(v) for s, v in W.p.items()}
    gf = {a: ~np.isfinite(g) | (aflags[a] if aflags is not None else False) for a, g in gains.items()}
    g2 = {a: np.where(np.isfinite(g), g, 1) / (1 - W.wide(np.nan_to_num(p[W.snapof[a[0]]]))) for a, g in gains.items()}

    def auto(a):
        k = (a[0], a[0], a[1][1:])
        return np.abs(W.vis[k]) / np.abs(g2[a]) ** 2

    def usable(k, nex):
        a, b = (k[0], J[k[2][0]]), (k[1], J[k[2][1]])
        return k in W.vis and a in gains and b in gains and (a in ex) + (b in ex) == nex

    def flags(k):
        a, b = (k[0], J[k[2][0]]), (k[1], J[k[2][1]])
        fl = gf[a] | gf[b]
        if dfl is not None:
            fl = fl | (dfl[k] if k in dfl else dfl[rev(k)])
        si, sj = W.snapof[k[0]], W.snapof[k[1]]
        if si != sj:
            fl = fl | W.wide(np.isnan(p[si]) | np.isnan(p[sj]))
        return fl

    def calvis(k):
        a, b = (k[0], J[k[2][0]]), (k[1], J[k[2][1]])
        return corrected(W, k, W.vis[k] / (g2[a] * np.conj(g2[b])), p)

    def wgt(k):
        a, b = (k[0], J[k[2][0]]), (k[1], J[k[2][1]])
        s2 = auto(a) * auto(b) / (DT * DF)
        return np.where(flags(k) | (s2 <= 0), 0, 1 / np.where(s2 > 0, s2, 1))

    abar = {}
    n2 = 0
    for pol in sorted(W.pols, key=lambda q: q[0] != q[1]):
        mem = [(a, a, pol) for a in ants if usable((a, a, pol), 0)]
        if not mem:
            require((ants[0], ants[0], pol) not in d, f"an average auto {pol} out of nothing")
            continue
        ok = np.array([~flags(k) for k in mem])
        cnt = ok.sum(axis=0)
        avg = np.where(cnt > 0, np.where(ok, [calvis(k) for k in mem], 0).sum(axis=0) / np.where(cnt > 0, cnt, 1), 0)
        if pol[0] == pol[1]:
            abar[J[pol[0]]] = np.abs(avg)
        for a in ants:
            k = (a, a, pol)
            close(d[k], avg, f"average auto {k}", rtol=1e-8)
            same(f[k], cnt == 0, f"flags of average auto {k}")
            if case["eff"]:
                pr = np.where(ok, [auto((m[0], J[pol[0]])) * auto((m[0], J[pol[1]])) for m in mem], 0).sum(axis=0)
                ne = np.where(pr > 0, cnt ** 2 * abar[J[pol[0]]] * abar[J[pol[1]]] / np.where(pr > 0, pr, 1), 0)
            else:
                ne = cnt
            close(n[k], ne, f"nsamples of average auto {k}", rtol=1e-8)
    num, dof, tn, td = {}, {}, {}, {}
    for red in W.reds:
        if red[0][0] == red[0][1]:
            continue
        pol = red[0][2]
        W_ = {k: wgt(k) for k in red if usable(k, 0)}
        W_ = {k: w for k, w in W_.items() if np.any(w > 0)}
        if not W_:
            require(not any(k in d for k in red), f"an average for {red} out of nothing")
            continue
        ws = sum(W_.values())
        avg = np.where(ws > 0, sum(np.where(w > 0, w * calvis(k), 0) for k, w in W_.items()) / np.where(ws > 0, ws, 1), 0)
        n2 += len(W_) > 1
        a1, a2 = J[pol[0]], J[pol[1]]
        ne = abar[a1] * abar[a2] * ws / (DT * DF) if case["eff"] else sum((w > 0).astype(float) for w in W_.values())
        for k in red:
            close(d[k], avg, f"average of the group of {k}", rtol=1e-8)
            same(f[k], ws == 0, f"flags of the group of {k}")
            close(n[k], ne, f"nsamples of the group of {k}", rtol=1e-8)
        if pol[0] == pol[1]:
            for k, w in W_.items():
                z2 = np.where(w > 0, w * np.abs(calvis(k) - avg) ** 2, 0)
                do = np.where(w > 0, 1 - w / np.where(ws > 0, ws, 1), 0)
                for a in ((k[0], a1), (k[1], a2)):
                    num[a], dof[a] = num.get(a, 0) + z2, dof.get(a, 0) + do
                tn[a1], td[a1] = tn.get(a1, 0) + z2, td.get(a1, 0) + do
            for k in red:
                if usable(k, 1) and np.any(wgt(k) > 0):
                    w = wgt(k)
                    u = (w > 0) & (ws > 0)
                    a = (k[0], a1) if (k[0], a1) in ex else (k[1], a2)
                    num[a] = num.get(a, 0) + np.where(u, w * np.abs(calvis(k) - avg) ** 2, 0)
                    dof[a] = dof.get(a, 0) + np.where(u, 1 + w / np.where(ws > 0, ws, 1), 0)
    if case["chisq"]:
        for got, N, D, what in ((meta["chisq_per_ant"], num, dof, "chi^2 per antenna"), (meta["total_chisq"], tn, td, "total chi^2")):
            require(set(got) == set(N), f"{what} for {sorted(got)}, expected {sorted(N)}")
            for a in N:
                # 1 - w / sum(w) of a lone member is 0 up to rounding, and then there is nothing to divide
                sure = (D[a] > 1e-6) | (D[a] == 0)
                ref = np.where(D[a] > 1e-6, N[a] / np.where(D[a] > 1e-6, D[a], 1), np.nan)
                close(got[a][sure], ref[sure], f"{what} of {a}", rtol=1e-6)
    else:
        require(meta == {}, "chi^2 although compute_chisq=False")
    ctx.label("snap" if case["snap"] else "no snap", "eff" if case["eff"] else "counts", f"ex {len(ex)}")
    ctx.nontrivial(n2 > 0)


def gen_io(draw):
    nparts = ints(draw, 1, 4)
    parts = [dict(snaps=[s for s in "abcd" if flag(draw)] or ["a"], nt=ints(draw, 1, 3), order=ints(draw, 0, 9)) for _ in range(nparts)]
    return dict(parts=parts, nb=ints(draw, 1, 3), npb=ints(draw, 1, 3), nbands=ints(draw, 1, 2), seed=seed(draw), how=pick(draw, ["read", "add", "concat", "mixed"]),
                shuffle=seed(draw), interleave=flag(draw), fault=pick(draw, [None, None, None, "dup", "freq", "map", "kwargs"]), ants=ints(draw, 1, 5))


def check_io(case, ctx):
    from hera_cal.io import SNAPDecoherence
    rng = rng_of(case["seed"], "sdio")
    tmp = ctx.tmp()
    nb, npb = case["nb"], case["npb"]
    fr = freqs_of(nb * npb).reshape(nb, npb)
    tot = sum(p["nt"] for p in case["parts"])
    T = times_of(tot)
    order = rng.permutation(tot) if case["interleave"] else np.arange(tot)
    kw = {"detection_sigma": 2.0, "verbose": False, "name": "x"}
    mapping = {int(a): "abcd"[rng.integers(4)] for a in rng.choice(50, size=case["ants"], replace=False)}
    objs, model, k0 = [], [], 0
    for n, p in enumerate(case["parts"]):
        idx = np.sort(order[k0:k0 + p["nt"]])
        k0 += p["nt"]
        val = {}
        for s in p["snaps"]:
            dec = rng.uniform(0, 0.9, size=(p["nt"], nb))
            dec[rng.random(size=dec.shape) < 0.2] = np.nan
            val[s] = dict(decoherence=dec, decoherence_refit=rng.uniform(0, 0.9, size=(p["nt"], nb)), log_suppression_sigma=rng.random(size=(p["nt"], nb)),
                          n=rng.integers(0, 9, size=p["nt"]))
        be = fr[0, 0] + rng.uniform(0, 1e6, size=(case["nbands"], 2)).cumsum(axis=1)
        if rng.integers(3) == 0:
            be[-1] = np.nan
        m = dict(T=T[idx], val=val, cov=rng.random(size=nb) < 0.7, edge=sorted(rng.choice(nb, size=rng.integers(0, nb + 1), replace=False).tolist()), be=be,
                 map={a: s for a, s in mapping.items() if rng.random() < 0.7}, hist=f"part {n} was here")
        model.append(m)
    if case["fault"] == "dup" and len(model) > 1:
        model[1]["T"] = np.concatenate([model[0]["T"][:1], model[1]["T"][1:]])
    if case["fault"] == "map" and len(model) > 1:
        model[0]["map"][7] = "a"
        model[1]["map"][7] = "b"
    for n, m in enumerate(model):
        f2 = fr + 1e3 if (case["fault"] == "freq" and n == 1) else fr
        k2 = dict(kw, detection_sigma=2.5) if (case["fault"] == "kwargs" and n == 1) else kw
        objs.append(SNAPDecoherence({s: v["decoherence"] for s, v in m["val"].items()}, {s: v["decoherence_refit"] for s, v in m["val"].items()},
                                    {s: v["log_suppression_sigma"] for s, v in m["val"].items()}, {s: v["n"] for s, v in m["val"].items()}, m["T"], f2,
                                    m["map"], m["cov"], m["edge"], m["be"], estimator_kwargs=k2, history=m["hist"]))
    paths = []
    for n, o in enumerate(objs):
        p = os.path.join(tmp, f"p{n}.h5")
        o.write(p)
        with open(p, "rb") as fl:
            raw = fl.read()
        with expect_raises((OSError,), "writing over an existing decoherence file without clobber"):
            o.write(p)
        with open(p, "rb") as fl:
            require(fl.read() == raw, "refused write changed the file")
        if n % 2:
            o.write(p, clobber=True)
        paths.append(p)
    sh = rng_of(case["shuffle"]).permutation(len(objs))
    how = case["how"]

    def combine():
        if how == "read":
            return SNAPDecoherence.read([paths[n] for n in sh] if len(sh) > 1 else paths[0])
        if how == "concat":
            return SNAPDecoherence.concatenate([objs[n] for n in sh])
        out = objs[sh[0]]
        for n in sh[1:]:
            out = out + (objs[n] if how == "add" or n % 2 else SNAPDecoherence.read(paths[n]))
        return out

    if case["fault"] and len(model) > 1:
        with expect_raises((ValueError,), f"combining parts with {case['fault']} inconsistent"):
            combine()
        ctx.label(f"refused {case['fault']}")
        ctx.nontrivial()
        return
    got = combine()
    allT = np.concatenate([m["T"] for m in model])
    o = np.argsort(allT)
    same(got.times, allT[o], "times of the combination")
    same(got.block_freqs, fr, "block frequencies")
    same(got.freqs, fr.ravel(), "channel frequencies")
    snaps = sorted({s for m in model for s in m["val"]})
    require(list(got.SNAPs) == snaps, f"SNAPs {got.SNAPs}, expected {snaps}")
    for s in snaps:
        for attr, key, fill in (("decoherence", "decoherence", np.nan), ("_decoherence_refit", "decoherence_refit", np.nan),
                                ("_log_suppression_sigma", "log_suppression_sigma", np.nan), ("_n_spectra_per_SNAP", "n", 0)):
            ref = np.concatenate([m["val"][s][key] if s in m["val"] else np.full((len(m["T"]), nb) if key != "n" else len(m["T"]), fill) for m in model])[o]
            same(getattr(got, attr)[s], ref, f"{key} of SNAP {s}")
        with np.errstate(all="ignore"):
            close(got._log_suppression[s], -np.log(1 - got.decoherence[s]), f"log suppression of {s}")
    full = {}
    for m in model:
        full.update(m["map"])
    require(dict(got.ant_to_SNAP_dict) == full, f"antenna to SNAP map {got.ant_to_SNAP_dict}, expected {full}")
    same(got._covered_blocks, np.any([m["cov"] for m in model], axis=0), "covered blocks")
    require(list(got._edge_blocks) == sorted({e for m in model for e in m["edge"]}), "edge blocks")
    with np.errstate(all="ignore"):
        ref = quiet(lambda: np.stack([np.nanmin([m["be"][:, 0] for m in model], axis=0), np.nanmax([m["be"][:, 1] for m in model], axis=0)], axis=1))
    same(got._band_edges, ref, "band edges")
    for k, v in kw.items():
        require(got._estimator_kwargs[k] == v, f"estimator setting {k}")
    for m in model:
        require(m["hist"] in got.history, f"history of a part lost: {m['hist']}")
    ctx.label(how, f"parts {len(model)}")
    ctx.nontrivial(len(model) > 1)


SUBS = [Sub("redsol", gen, check_redsol, quick=250, thorough=6000, shards=2),
        Sub("snap", gen, check_snap, quick=200, thorough=4000, shards=2),
        Sub("redavg", gen, check_redavg, quick=300, thorough=6000, shards=4),
        Sub("decoherence_files", gen_io, check_io, quick=150, thorough=3000, shards=2)]
