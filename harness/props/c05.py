"""C05: degeneracy removal moves a solution only along its degeneracies."""
import numpy as np

from ..core import Sub, close, require, rng_of, same
from ..gens import flag, ints, pick, seed
from ..layouts import gen_layout, grid_layout, positions
from ..redsim import PM, ants_of, gains_for, sky

RULE = ("Random and grid arrays in all polarization modes, random gains with phases in the wrap-free range, random visibility "
        "solutions, reference gains absent or random, and random degenerate transformations (per-pol amplitude, overall phase, "
        "phase gradient). Non-trivial: at least 3 antennas and a group with two members.")
ASSUMPTIONS = ["total gain phases relative to the reference stay within (-pi, pi), as the phase projection needs"]


def gen(draw):
    lay = grid_layout(draw) if flag(draw) else gen_layout(draw, dims=2, nmin=3, nmax=9, span=3)
    return dict(lay=lay, mode=pick(draw, ["1pol", "2pol", "4pol", "4pol_minV"]), nt=ints(draw, 1, 3), nf=ints(draw, 1, 3), seed=seed(draw),
                ref=flag(draw), refsol=flag(draw), extra=flag(draw), c64=ints(draw, 0, 3) == 3)


def setup(case):
    from hera_cal import redcal
    pos = positions(case["lay"], 1.0)
    reds = redcal.get_reds(pos, pols=PM[case["mode"]], pol_mode=case["mode"], bl_error_tol=0.1)
    rng = rng_of(case["seed"], "degen")
    return redcal, pos, reds, rng, (case["nt"], case["nf"])


def columns(ants, pos, mode):
    """columns of phase degeneracies, from the true antenna positions"""
    cols = []
    pols = sorted({a[1] for a in ants})
    groups = [[p] for p in pols] if mode in ("1pol", "2pol") else [pols]
    for gp in groups:
        for d in range(3):
            cols.append([pos[a[0]][d] if a[1] in gp else 0.0 for a in ants])
        if mode == "4pol":
            for p in gp:
                cols.append([float(a[1] == p) for a in ants])
        else:
            cols.append([float(a[1] in gp) for a in ants])
    return np.array(cols).T


def meanprod(gains, pol):
    return np.mean([np.abs(gains[k] * gains[q]) for k in gains for q in gains if k[1] == pol and q[1] == pol and k[0] != q[0]], axis=0)


def check(case, ctx):
    redcal, pos, reds, rng, shape = setup(case)
    gains = gains_for(reds, rng, shape, 0.5, 0.5)
    ants = sorted(gains)
    vis = {g[0]: sky(rng, shape) for g in reds}
    ref = None
    if case["ref"]:
        ref = gains_for(reds, rng, shape, 0.4, 0.4)
        refall = dict(ref)
        if case["extra"]:      # a reference may cover antennas that are not being calibrated
            refall.update({(900 + k, p): 7.0 * np.exp(1j * rng.uniform(-3, 3, size=shape)) for k in range(2) for p in sorted({a[1] for a in ants})})
    tol = 1e-6
    if case["c64"]:
        tol = 3e-4
        gains = {a: g.astype(np.complex64) for a, g in gains.items()}
        vis = {a: g.astype(np.complex64) for a, g in vis.items()}
    sol = redcal.RedSol(reds, gains={a: g.copy() for a, g in gains.items()}, vis={b: v.copy() for b, v in vis.items()})
    model = {b: gains[ants_of(b)[0]] * np.conj(gains[ants_of(b)[1]]) * vis[g[0]] for g in reds for b in g}
    deg = None if ref is None else refall
    if ref is not None and case["refsol"]:
        deg = redcal.RedSol(reds, gains={a: g.copy() for a, g in refall.items()})
    new = sol.remove_degen(degen_sol=deg, inplace=False)
    for a in ants:
        same(sol.gains[a], gains[a], f"remove_degen(inplace=False) changed gain {a} of the original")
    for b in vis:
        same(sol.vis[b], vis[b], f"remove_degen(inplace=False) changed visibility {b} of the original")
    require(set(new.gains) == set(ants), "remove_degen lost or invented antennas")

    def judge(s, what):
        for g in reds:
            for b in g:
                ai, aj = ants_of(b)
                close(s.gains[ai] * np.conj(s.gains[aj]) * s.vis[b], model[b], f"{what} changed the modelled visibility of {b}", rtol=tol, atol=tol)
        for p in sorted({a[1] for a in ants}):
            tgt = np.ones(shape) if ref is None else meanprod(ref, p)
            close(meanprod(s.gains, p), tgt, f"{what}: mean amplitude product of {p} is not the reference's", rtol=tol)
        ph = np.array([np.angle(s.gains[a] * (1 if ref is None else np.conj(ref[a]))) for a in ants])
        R = columns(ants, pos, case["mode"])
        proj = np.einsum("ij,ikl->jkl", R, ph)
        close(proj, np.zeros_like(proj), f"{what}: phase degeneracies are not the reference's", rtol=0, atol=30 * tol)
    judge(new, "remove_degen")
    # in place gives the same
    s2 = redcal.RedSol(reds, gains={a: g.copy() for a, g in gains.items()}, vis={b: v.copy() for b, v in vis.items()})
    s2.remove_degen(degen_sol=deg)
    for a in ants:
        close(s2.gains[a], new.gains[a], "in-place remove_degen differs", rtol=1e-6, atol=1e-6)
    for b in vis:
        close(s2.vis[b], new.vis[b], "in-place remove_degen differs", rtol=1e-6, atol=1e-6)
    # idempotent
    again = new.remove_degen(degen_sol=deg, inplace=False)
    for a in ants:
        close(again.gains[a], new.gains[a], f"remove_degen not idempotent for {a}", rtol=10 * tol, atol=10 * tol)
    # a degenerate transformation of the input does not matter
    span = max(1.0, max(np.abs(p).max() for p in pos.values()))
    pols = sorted({a[1] for a in ants})
    amp = {p: np.exp(rng.uniform(-0.5, 0.5, size=shape)) for p in pols}
    phs = {p: rng.uniform(-0.4, 0.4, size=shape) for p in pols}
    slope = {p: rng.uniform(-0.2, 0.2, size=(3,) + shape) / span for p in pols}
    if case["mode"] in ("4pol", "4pol_minV"):
        slope = {p: slope[pols[0]] for p in pols}
    if case["mode"] == "4pol_minV":
        phs = {p: phs[pols[0]] for p in pols}
    g2 = {a: (g * amp[a[1]] * np.exp(1j * (phs[a[1]] + np.tensordot(pos[a[0]], slope[a[1]], axes=1)))).astype(g.dtype)
          for a, g in gains.items()}
    v2 = {}
    for b, v in vis.items():
        ai, aj = ants_of(b)
        v2[b] = (v * (gains[ai] * np.conj(gains[aj])) / (g2[ai] * np.conj(g2[aj]))).astype(v.dtype)
    s3 = redcal.RedSol(reds, gains=g2, vis=v2).remove_degen(degen_sol=deg, inplace=False)
    for a in ants:
        close(s3.gains[a], new.gains[a], f"gain {a} depends on degenerate terms of the input", rtol=10 * tol, atol=10 * tol)
    for b in vis:
        close(s3.vis[b], new.vis[b], f"visibility {b} depends on degenerate terms of the input", rtol=10 * tol, atol=10 * tol)
    ctx.label(case["mode"], "ref" if case["ref"] else "noref")
    ctx.nontrivial(len(pos) >= 3 and any(len(g) > 1 for g in reds))


def check_phase(case, ctx):
    """mode='phase': gains are real phases or delays"""
    redcal, pos, reds, rng, shape = setup(case)
    ants = sorted({a for g in reds for b in g for a in ants_of(b)})
    gains = {a: rng.normal(size=shape) for a in ants}
    ref = {a: rng.normal(size=shape) for a in ants} if case["ref"] else None
    g0 = {a: g.copy() for a, g in gains.items()}
    new = redcal.remove_degen_gains(reds, gains, degen_gains=ref, mode="phase", pol_mode=case["mode"])
    require(set(new) == set(ants), "remove_degen_gains lost or invented antennas")
    for a in ants:
        same(gains[a], g0[a], "remove_degen_gains changed its input")
    # what moved is degenerate: combinations constrained by redundancy are unchanged
    for g in reds:
        diffs = [(new[i] - new[j]) - (gains[i] - gains[j]) for i, j in map(ants_of, g)]
        for b, d in zip(g, diffs):
            close(d, diffs[0], f"remove_degen_gains changed the phase of {b} relative to its group", atol=1e-8)
    R = columns(ants, pos, case["mode"])
    resid = np.array([new[a] - (0 if ref is None else ref[a]) for a in ants])
    proj = np.einsum("ij,ikl->jkl", R, resid)
    close(proj, np.zeros_like(proj), "phase degeneracies are not the reference's", atol=1e-7)
    c = rng.normal(size=(R.shape[1],) + shape)
    g2 = {a: gains[a] + np.tensordot(R[k], c, axes=1) for k, a in enumerate(ants)}
    new2 = redcal.remove_degen_gains(reds, g2, degen_gains=ref, mode="phase", pol_mode=case["mode"])
    for a in ants:
        close(new2[a], new[a], f"{a} depends on degenerate terms of the input", rtol=1e-7, atol=1e-7)
    ctx.label("phase", case["mode"])
    ctx.nontrivial(len(pos) >= 3 and any(len(g) > 1 for g in reds))


SUBS = [Sub("complex", gen, check, quick=400, thorough=8000, shards=4),
        Sub("phase", gen, check_phase, quick=300, thorough=6000, shards=4)]
