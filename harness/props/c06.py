"""C06: chi-squared accounting matches its definition."""
import numpy as np

from ..core import Sub, close, require, rng_of, same
from ..gens import cplx, flag, ints, pick, seed
from ..layouts import gen_layout, grid_layout, positions
from ..redsim import PM, ants_of, gains_for, rev, simulate

RULE = ("Random arrays and polarizations, data, models, weights (with zeros), gains, gain flags, redundant models, several "
        "calls accumulating into the same chi^2; the oracle is the direct sum over baselines. Non-trivial: at least two "
        "baselines contribute and one is excluded or down-weighted, or (degrees of freedom) a redundant group exists.")
ASSUMPTIONS = []


def gen(draw):
    lay = grid_layout(draw) if flag(draw) else gen_layout(draw, dims=2, nmin=2, nmax=6, span=2)
    return dict(lay=lay, mode=pick(draw, ["1pol", "2pol", "4pol", "4pol_minV"]), nt=ints(draw, 1, 3), nf=ints(draw, 1, 3), seed=seed(draw),
                wgt=pick(draw, ["none", "vary", "zeros", "bool", "missing"]), gains=flag(draw), gflags=flag(draw), split=flag(draw),
                reds=flag(draw), mdrop=flag(draw), ddrop=pick(draw, [[], [], [0], [0, 1], [1, 3]]), calls=ints(draw, 1, 3), dc=pick(draw, [0, 1, 2]))


def check(case, ctx):
    from hera_cal import redcal, utils
    from hera_cal.datacontainer import DataContainer, RedDataContainer
    pos = positions(case["lay"], 14.6)
    reds = redcal.get_reds(pos, pols=PM[case["mode"]], pol_mode=case["mode"])
    bls = [b for g in reds for b in g]
    rng = rng_of(case["seed"], "chisq")
    shape = (case["nt"], case["nf"])
    ants = sorted({a for b in bls for a in ants_of(b)})
    exp, nexp, expa, nexpa = {}, {}, {}, {}
    acc = dict(chisq=None, nObs=None, chisq_per_ant=None, nObs_per_ant=None)
    out = None
    contributing, dropped = 0, 0
    for call in range(case["calls"]):
        data = {b: cplx(rng, shape) for g in reds for k, b in enumerate(g) if k not in case["ddrop"]}
        model = {b: cplx(rng, shape) for b in bls}
        mreds = None
        if case["reds"]:
            mreds = reds
            model = {g[0]: model[g[0]] for g in reds if case["mdrop"] is False or any(b in data for b in g)}
            full = {b: model[g[0]] for g in reds for b in g if g[0] in model}
        else:
            if case["mdrop"]:
                model = {b: m for k, (b, m) in enumerate(model.items()) if k % 3 != 1 or len(bls) < 3}
            full = model
        wgts = None
        if case["wgt"] != "none":
            wgts = {b: rng.uniform(0.2, 3, size=shape) for b in bls}
            if case["wgt"] == "zeros":
                for b in bls:
                    wgts[b][rng.random(size=shape) < 0.3] = 0.0
            if case["wgt"] == "bool":
                wgts = {b: rng.random(size=shape) < 0.7 for b in bls}
            if case["wgt"] == "missing":
                wgts = {b: w for k, (b, w) in enumerate(wgts.items()) if k % 4 != 2}
        gains = gains_for(reds, rng, shape) if case["gains"] else None
        gf = {a: rng.random(size=shape) < 0.25 for a in ants} if case["gflags"] else None
        din, min_, win = data, model, wgts
        if case["dc"]:
            din = DataContainer({(rev(b) if case["dc"] == 2 and rng.integers(2) else b): d for b, d in data.items()})
            for b in list(din.keys()):
                din[b] = data[b] if b in data else np.conj(data[rev(b)])
            min_ = RedDataContainer(dict(model), reds=reds) if case["reds"] and case["dc"] == 2 else DataContainer(dict(model))
            win = None if wgts is None else DataContainer(dict(wgts))
        if not data:
            return
        keep = [np.array(v) for v in model.values()]
        out = utils.chisq(din, min_, data_wgts=win, gains=gains, gain_flags=gf, split_by_antpol=case["split"], reds=mreds, **acc)
        acc = dict(zip(("chisq", "nObs", "chisq_per_ant", "nObs_per_ant"), out))
        for v, k in zip(model.values(), keep):
            same(v, k, "chisq changed the model")
        for b in data:
            ai, aj = ants_of(b)
            if b not in full or (wgts is not None and b not in wgts) or (case["split"] and ai[1] != aj[1]):
                dropped += 1
                continue
            m = full[b] * (1 if gains is None else gains[ai] * np.conj(gains[aj]))
            w = np.ones(shape) if wgts is None else wgts[b].astype(float)
            if gf is not None:
                w = np.where(gf[ai] | gf[aj], 0.0, w)
            dropped += np.any(w == 0)
            contributing += 1
            c = np.abs(data[b] - m)**2 * w
            p = ai[1] if case["split"] else None
            exp[p] = exp.get(p, 0) + c
            nexp[p] = nexp.get(p, 0) + (w > 0).astype(int)
            for a in (ai, aj):
                expa[a] = expa.get(a, 0) + c
                nexpa[a] = nexpa.get(a, 0) + (w > 0).astype(int)
    cs, nobs, csa, nobsa = out
    if case["split"]:
        require(set(cs) == set(exp) and set(nobs) == set(exp), "chisq split over the wrong polarizations")
        for p in exp:
            close(cs[p], exp[p], f"chi^2 of {p}", rtol=1e-6)
            same(np.asarray(nobs[p]), nexp[p], f"observation count of {p}")
    else:
        close(cs, exp.get(None, np.zeros(shape)), "chi^2", rtol=1e-6)
        same(np.asarray(nobs), nexp.get(None, np.zeros(shape, dtype=int)), "observation count")
    require(set(csa) == set(expa) and set(nobsa) == set(expa), "chi^2 per antenna for the wrong antennas")
    for a in expa:
        close(csa[a], expa[a], f"chi^2 of antenna {a}", rtol=1e-6)
        same(np.asarray(nobsa[a]), nexpa[a], f"observation count of antenna {a}")
    ctx.label(case["mode"], "wgt " + case["wgt"], "split" if case["split"] else "joint", f"calls {case['calls']}")
    ctx.nontrivial(contributing >= 2 and (dropped or case["wgt"] == "vary"))


def gen_dof(draw):
    lay = grid_layout(draw) if flag(draw) else gen_layout(draw, dims=2, nmin=3, nmax=8, span=3)
    return dict(lay=lay, mode=pick(draw, ["1pol", "2pol", "4pol", "4pol_minV"]), nt=ints(draw, 1, 2), nf=ints(draw, 1, 3), seed=seed(draw))


def check_dof(case, ctx):
    """degrees of freedom by explicit data-resolution matrices; normalized chi^2"""
    from hera_cal import redcal
    pos = positions(case["lay"], 14.6)
    reds = redcal.get_reds(pos, pols=PM[case["mode"]], pol_mode=case["mode"])
    bls = [b for g in reds for b in g]
    ants = sorted({a for b in bls for a in ants_of(b)})
    prm = {a: k for k, a in enumerate(ants)}
    A = np.zeros((2, len(bls), len(ants) + len(reds)))
    row = 0
    for u, g in enumerate(reds):
        for b in g:
            ai, aj = ants_of(b)
            A[:, row, prm[ai]] += 1
            A[0, row, prm[aj]] += 1
            A[1, row, prm[aj]] -= 1
            A[:, row, len(ants) + u] += 1
            row += 1
    dof = np.ones(len(bls))
    ranks = []
    for M in A:
        U, s, _ = np.linalg.svd(M, full_matrices=False)
        r = int(np.sum(s > 1e-9 * s[0]))
        ranks.append(r)
        dof -= 0.5 * np.sum(U[:, :r]**2, axis=1)
    perbl = redcal.predict_chisq_per_bl(reds)
    require(set(perbl) == set(bls), "predict_chisq_per_bl covers the wrong baselines")
    for b, d in zip(bls, dof):
        close(perbl[b], d, f"degrees of freedom of {b}", atol=1e-7)
    for sep in ([False, True] if case["mode"] in ("1pol", "2pol") else [False]):
        other = redcal.predict_chisq_per_bl(reds, pol_separable=sep)
        require(set(other) == set(bls), f"predict_chisq_per_bl(pol_separable={sep}) covers the wrong baselines")
        for b, d in zip(bls, dof):
            close(other[b], d, f"degrees of freedom of {b} with pol_separable={sep}", atol=1e-7)
    # data minus parameters plus degeneracies
    nd = int(redcal.RedundantCalibrator(reds).count_degens(assume_redundant=False))
    close(2 * sum(perbl.values()), 2 * len(bls) - (2 * (len(ants) + len(reds)) - nd), "total degrees of freedom (counting real and imaginary parts)", atol=1e-6)
    perred = redcal.predict_chisq_per_red(reds)
    require(set(perred) == {g[0] for g in reds}, "predict_chisq_per_red keys")
    k = 0
    for g in reds:
        close(perred[g[0]], dof[k:k + len(g)].sum(), f"degrees of freedom of group {g[0]}", atol=1e-6)
        k += len(g)
    perant = redcal.predict_chisq_per_ant(reds)
    for a in ants:
        close(perant[a], sum(d for b, d in zip(bls, dof) if a in ants_of(b)), f"degrees of freedom of antenna {a}", atol=1e-6)
    # normalized chi^2
    rng = rng_of(case["seed"], "norm")
    shape = (case["nt"], case["nf"])
    gains = gains_for(reds, rng, shape)
    vis, data = simulate(reds, rng, shape, gains)
    for b in data:
        data[b] = data[b] + 0.1 * cplx(rng, shape)
    wgts = {b: rng.uniform(0.5, 2, size=shape) for b in bls}
    if min(abs(v) for v in perant.values()) > 1e-6:
        from hera_cal.datacontainer import DataContainer
        sol = redcal.RedSol(reds, gains=gains, vis=vis)
        cs, csa = sol.normalized_chisq(DataContainer(dict(data)), DataContainer(dict(wgts)))
        tot, tota = {}, {}
        for g in reds:
            for b in g:
                ai, aj = ants_of(b)
                c = np.abs(data[b] - gains[ai] * np.conj(gains[aj]) * vis[g[0]])**2 * wgts[b]
                p = ai[1] if case["mode"] in ("1pol", "2pol") else None
                tot[p] = tot.get(p, 0) + c
                for a in (ai, aj):
                    tota[a] = tota.get(a, 0) + c
        if None in tot:
            close(cs, tot[None] / dof.sum(), "normalized chi^2", rtol=1e-6)
        else:
            for p in tot:
                d = sum(x for b, x in zip(bls, dof) if ants_of(b)[0][1] == p)
                close(cs[p], tot[p] / d, f"normalized chi^2 of {p}", rtol=1e-6)
        for a in tota:
            close(csa[a], tota[a] / perant[a], f"normalized chi^2 of {a}", rtol=1e-6)
        cs2, csa2 = sol.chisq(DataContainer(dict(data)), DataContainer(dict(wgts)))
        for p in tot:
            close(cs2 if p is None else cs2[p], tot[p], "RedSol.chisq", rtol=1e-6)
        ctx.label("normalized")
    ctx.label(case["mode"])
    ctx.nontrivial(any(len(g) > 1 for g in reds))


SUBS = [Sub("chisq", gen, check, quick=500, thorough=10000, shards=4),
        Sub("dof", gen_dof, check_dof, quick=200, thorough=4000, shards=4)]
