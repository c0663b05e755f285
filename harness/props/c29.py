"""C29: one algebra of polarization, antenna and baseline keys, and selections that keep exactly what they say."""
import numpy as np

from ..core import Sub, close, expect_raises, require, rng_of, same
from ..gens import flag, ints, pick, seed, subset
from ..lstsim import quiet

RULE = ("keys: random baselines and polarizations in any letter case and feed basis; filter: random lists of baselines, antennas (with and without polarization), lengths; chunks: random redundant groups and chunk sizes; "
        "scores: random metrics with nans and random pairs of gain sets. Non-trivial: the key is cross-polarized or not in standard form; the filter keeps some but not all; more than one chunk; more than two antennas.")
ASSUMPTIONS = ["polarizations are linear, circular or cardinal; mixed bases are not generated", "scores are not judged where the median absolute deviation is zero"]
BASES = ["en", "xy", "rl"]


def gen_keys(draw):
    return dict(basis=pick(draw, BASES), p=[ints(draw, 0, 1), ints(draw, 0, 1)], case=[flag(draw), flag(draw)], i=ints(draw, 0, 400), j=ints(draw, 0, 400), np_=flag(draw), jones=pick(draw, ["J", "j", ""]))


def check_keys(case, ctx):
    from hera_cal import utils
    b = case["basis"]
    c1, c2 = b[case["p"][0]], b[case["p"][1]]
    std = c1 + c2
    raw = "".join(c.upper() if u else c for c, u in zip(std, case["case"]))
    i, j = (np.int64(case["i"]), np.int64(case["j"])) if case["np_"] else (case["i"], case["j"])
    require(utils.comply_pol(raw) == std and utils.comply_pol(std) == std, f"{raw!r} -> {utils.comply_pol(raw)!r}")
    a1, a2 = "J" + c1 * 2, "J" + c2 * 2
    require(utils.split_pol(raw) == (a1, a2), f"split {raw!r} -> {utils.split_pol(raw)}")
    require(utils.join_pol(a1, a2) == std, f"join {(a1, a2)} -> {utils.join_pol(a1, a2)!r}")
    alt = [c1.upper() if case["case"][0] else c1, case["jones"] + c2 * 2 if case["jones"] else c2]
    require(utils.comply_pol(alt[0]) == a1 and utils.comply_pol(alt[1]) == a2, f"antenna polarizations {alt} -> {[utils.comply_pol(x) for x in alt]}")
    require(utils.join_pol(*alt) == std, f"join {alt} -> {utils.join_pol(*alt)!r}")
    bl = (i, j, raw)
    require(utils.comply_bl(bl) == (i, j, std) and utils.comply_bl((i, j)) == (i, j), f"comply {bl} -> {utils.comply_bl(bl)}")
    require(utils.make_bl(bl) == utils.make_bl(i, j, raw) == utils.make_bl((i, j), raw) == utils.make_bl(((i, j), raw)) == (i, j, std), f"make_bl of {bl}")
    s = utils.split_bl(bl)
    require(s == ((i, a1), (j, a2)), f"split {bl} -> {s}")
    require(utils.join_bl(*s) == (i, j, std), f"join of split {bl} -> {utils.join_bl(*s)}")
    r = utils.reverse_bl(bl)
    require(r == (j, i, c2 + c1), f"reverse {bl} -> {r}")
    require(utils.reverse_bl(r) == (i, j, std), "reversing twice")
    require(utils.split_bl(r) == s[::-1], f"antennas of the reverse {utils.split_bl(r)}")
    require(utils.reverse_bl((i, j)) == (j, i), "reverse of an antenna pair")
    ctx.label(b, f"cross={c1 != c2}")
    ctx.nontrivial(c1 != c2 or raw != std)


def gen_filter(draw):
    return dict(nant=ints(draw, 2, 6), pols=pick(draw, [["ee"], ["ee", "nn"], ["ee", "en", "ne", "nn"], ["xx", "yx"]]), ants=ints(draw, 0, 3), ex=ints(draw, 0, 3), psel=ints(draw, 0, 2), lo=pick(draw, [None, None, 0.0, 10.0, 14.6]),
                hi=pick(draw, [None, None, 14.6, 30.0, 0.0]), pos=flag(draw), seed=seed(draw))


def check_filter(case, ctx):
    from hera_cal import utils
    rng = rng_of(case["seed"])
    n = case["nant"]
    ap = {a: np.array([14.6 * (a % 3), 14.6 * (a // 3), 0.3 * (case["seed"] % 2) * a]) for a in range(n)}
    bls = [(i, j, p) for i in range(n) for j in range(n) for p in case["pols"] if rng.random() < 0.7]
    rng.shuffle(bls)
    bls = [(int(i), int(j), str(p)) for i, j, p in bls]

    def antennas(kind):
        if kind == 0:
            return None
        out = [a for a in range(n) if rng.random() < 0.5]
        if kind > 1:
            out = [(a, "J" + rng.choice([p[0] for p in case["pols"]] + [p[1] for p in case["pols"]]) * 2) if kind == 2 or rng.random() < 0.5 else a for a in out]
        return out
    ants, ex = antennas(case["ants"]), antennas(case["ex"])
    pols = None if case["psel"] == 0 else case["pols"][:case["psel"]]
    lo, hi = case["lo"], case["hi"]
    kw = dict(ants=ants, ex_ants=ex, pols=pols, min_bl_cut=lo, max_bl_cut=hi)
    if lo is not None or hi is not None or case["pos"]:
        kw["antpos"] = ap
    b0 = list(bls)
    got = utils.filter_bls(bls, **kw)
    same(np.array([str(b) for b in bls]), np.array([str(b) for b in b0]), "caller's baselines")
    exp = []
    for b in bls:
        ends = [(b[0], "J" + b[2][0] * 2), (b[1], "J" + b[2][1] * 2)]
        if ants is not None and not all(e in ants or e[0] in ants for e in ends):
            continue
        if ex is not None and any(e in ex or e[0] in ex for e in ends):
            continue
        if pols is not None and b[2] not in pols:
            continue
        d = np.linalg.norm(ap[b[0]] - ap[b[1]])
        if (lo is not None and d < lo) or (hi is not None and d > hi):
            continue
        exp.append(b)
    require(list(got) == exp, f"filter_bls({bls}, {kw}) = {got}, expected {exp}")
    if lo is not None:
        with expect_raises((AssertionError,), "length cut without positions"):
            utils.filter_bls(bls, min_bl_cut=lo)
    ctx.label(f"ants={case['ants']}", f"ex={case['ex']}")
    ctx.nontrivial(0 < len(exp) < len(bls))


def gen_chunks(draw):
    return dict(sizes=[ints(draw, 1, 6) for _ in range(ints(draw, 0, 7))], mx=ints(draw, 1, 9), seed=seed(draw))


def check_chunks(case, ctx):
    from hera_cal import utils
    k, reds = 0, []
    for s in case["sizes"]:
        reds.append([(0, k + m, "ee") for m in range(s)])
        k += s
    r0 = [list(g) for g in reds]
    got = quiet(utils.chunk_baselines_by_redundant_groups, reds, case["mx"])
    require(reds == r0, f"the caller's groups became {reds}")
    flat = [b for c in got for b in c]
    require(flat == [b for g in r0 for b in g] if sorted(flat) != flat else sorted(flat) == [b for g in r0 for b in g], f"chunks {got} of {r0}")
    for c in got:
        inc = [g for g in r0 if set(g) & set(c)]
        require(all(set(g) <= set(c) for g in inc), f"chunk {c} splits a redundant group")
        if len(c) > case["mx"]:
            require(len(inc) == 1, f"chunk of {len(c)} baselines from {len(inc)} groups, at most {case['mx']} allowed")
    got2 = quiet(utils.chunk_baselines_by_redundant_groups, reds, case["mx"])
    require([list(c) for c in got2] == [list(c) for c in got] and reds == r0, "chunking again")
    ctx.label(f"chunks={len(got)}")
    ctx.nontrivial(len(got) > 1)


def gen_scores(draw):
    return dict(n=ints(draw, 1, 7), nan=flag(draw), pols=ints(draw, 1, 2), nt=ints(draw, 1, 3), nf=ints(draw, 1, 4), p=pick(draw, [0.0, 0.3, 0.8]), denom=flag(draw), zero=flag(draw), extra=flag(draw), seed=seed(draw))


def check_scores(case, ctx):
    from hera_cal import utils
    rng = rng_of(case["seed"])
    pols = ["Jee", "Jnn"][:case["pols"]]
    metric = {(a, p): float(rng.normal()) for a in range(case["n"]) for p in pols}
    if case["nan"] and case["n"] > 2:
        metric[(0, "Jee")] = np.nan
    got = quiet(utils.per_antenna_modified_z_scores, dict(metric))
    require(set(got) == set(metric), "antennas of the scores")
    for p in pols:
        v = np.array([metric[(a, p)] for a in range(case["n"])])
        med = np.nanmedian(v)
        mad = np.nanmedian(np.abs(v - med))
        if mad == 0:
            continue
        for a in range(case["n"]):
            close(got[(a, p)], 0.6745 * (v[a] - med) / mad, f"score of {(a, p)}", rtol=1e-9, atol=1e-12)
    # relative differences of gains
    sh = (case["nt"], case["nf"])
    ants = list(metric)

    def g():
        return {a: rng.normal(size=sh) + 1j * rng.normal(size=sh) + 3 for a in ants}
    old, new, den = g(), g(), g()
    fl = {a: rng.random(sh) < case["p"] for a in ants}
    if case["zero"]:
        for a in ants:
            (den if case["denom"] else old)[a][fl[a]] = 0
    if case["extra"]:
        old[(99, "Jee")] = np.ones(sh, complex)
        den[(99, "Jee")] = np.ones(sh, complex)
    snap = {n: {a: x[a].copy() for a in x} for n, x in (("old", old), ("new", new), ("flags", fl))}
    junk = [np.full(sh, 7.7) for _ in range(64)]      # so that memory that was never written does not look like zeros
    del junk
    rel, avg = quiet(utils.gain_relative_difference, old, new, fl, denom=den if case["denom"] else None)
    for n, x in (("old", old), ("new", new), ("flags", fl)):
        for a in snap[n]:
            same(x[a], snap[n][a], f"caller's {n}")
    D = den if case["denom"] else old
    require(set(rel) == set(ants) and set(avg) == set(pols), "keys of the relative differences")
    for a in ants:
        ok = ~fl[a]
        close(rel[a][ok], (np.abs(old[a] - new[a]) / np.where(ok, np.abs(D[a]), 1))[ok], f"relative difference of {a}", rtol=1e-9, atol=1e-12)
        require(np.all(np.isfinite(rel[a])), f"relative difference of {a} is not finite: {rel[a]}")
    again, _ = quiet(utils.gain_relative_difference, old, new, fl, denom=den if case["denom"] else None)
    for a in ants:
        z = np.abs(D[a]) < 1e-9
        same(again[a], rel[a], f"a second call differs for {a}")
        require(np.all(rel[a][z] == 0), f"relative difference {rel[a][z]} where the gain is zero")
    for p in pols:
        x = np.array([np.where(fl[a], np.nan, np.abs(old[a] - new[a]) / np.where(fl[a], 1, np.abs(D[a]))) for a in ants if a[1] == p])
        m = quiet(np.nanmean, x, axis=0)
        close(avg[p], np.where(np.isfinite(m), m, 0), f"average relative difference of {p}", rtol=1e-9, atol=1e-12)
    ctx.label(f"zero={case['zero']}", f"denom={case['denom']}")
    ctx.nontrivial(case["n"] > 2)


SUBS = [
    Sub("keys", gen_keys, check_keys, quick=1500, thorough=20000),
    Sub("filter", gen_filter, check_filter, quick=800, thorough=20000, shards=2),
    Sub("chunks", gen_chunks, check_chunks, quick=800, thorough=20000),
    Sub("scores", gen_scores, check_scores, quick=500, thorough=10000),
]
