"""C03: redundancy finding and filtering."""
import numpy as np

from ..core import Sub, close, require, rng_of
from ..gens import flag, ints, perm, pick, seed, subset
from ..layouts import gen_layout, lattice, positions, true_groups

RULE = ("Antennas on distinct points of a square, rectangular or hexagonal lattice in 1-3 dimensions (2-10 antennas, arbitrary "
        "numbering and dictionary order), position errors inside a quarter of the tolerance, all polarization modes and "
        "combinations of filters; oracle: exact integer separations, a direct evaluation of the filters, and matrix ranks. "
        "Non-trivial: at least one redundant group with two or more members.")
PM = {"1pol": ["nn"], "2pol": ["nn", "ee"], "4pol": ["nn", "ee", "ne", "en"], "4pol_minV": ["nn", "ee", "ne", "en"]}
TOL = 1.0


def rev(b):
    return (b[1], b[0]) + tuple({"ne": "en", "en": "ne"}.get(p, p) for p in b[2:])


def gen_find(draw):
    lay = gen_layout(draw, nmin=2, nmax=10)
    return dict(lay=lay, jit=pick(draw, [0.0, 0.05, 0.12]), seed=seed(draw), autos=flag(draw), pol_mode=pick(draw, sorted(PM)),
                tol=pick(draw, [1.0, 0.5, 2.0]), order=perm(draw, range(len(lay["nums"]))), spacing=pick(draw, [14.6, 10.0, 30.0]),
                ncol=pick(draw, [3, 3, 2]), pperm=perm(draw, range(4)))


def check_find(case, ctx):
    from hera_cal import redcal
    from hera_cal.red_groups import RedundantGroups
    lay = case["lay"]
    rng = rng_of(case["seed"])
    tol = case["tol"]
    jit = rng.uniform(-1, 1, size=(len(lay["nums"]), 3)) * case["jit"] * tol
    ncol = max(case["ncol"], lay["d"]) if lay["d"] < 3 else 3
    pos = positions(lay, case["spacing"], jit, ncol=ncol)
    ks = list(pos)
    pos = {ks[i]: pos[ks[i]] for i in case["order"]}
    exp = true_groups(lay, autos=case["autos"])
    reds = redcal.get_pos_reds(pos, bl_error_tol=tol, include_autos=case["autos"])
    L = lattice(lay)

    def verify(reds, what):
        seen = set()
        prev = -1.0
        for g in reds:
            require(len(g) > 0, f"{what}: empty group")
            vecs = {tuple(np.subtract(L[b], L[a])) for a, b in g}
            require(len(vecs) == 1, f"{what}: group {g} mixes separations {vecs}")
            v = vecs.pop()
            c = v if v in exp else tuple(-x for x in v)
            want = exp[c] if c == v else {rev(b) for b in exp[c]}
            require(len(set(g)) == len(g) and (set(g) == want or (not any(v) and {frozenset(b) for b in g} == {frozenset(b) for b in want})),
                    f"{what}: group {g}, expected exactly {sorted(want)}")
            require(c not in seen, f"{what}: separation {c} split over two groups")
            seen.add(c)
            require(list(g) == sorted(g), f"{what}: group not sorted: {g}")
            require(g[0][0] == min(a for b in g for a in b), f"{what}: first antenna of {g} is not the lowest")
            ln = np.mean([np.linalg.norm(np.asarray(pos[b]) - pos[a]) for a, b in g])
            require(ln >= prev - 3.0 * tol, f"{what}: groups not ordered by length ({ln} after {prev})")
            prev = max(prev, ln)
        require(seen == set(exp), f"{what}: separations {seen ^ set(exp)} missing or invented")

    verify(reds, "get_pos_reds")
    mode = case["pol_mode"]
    pols = [PM[mode][i] for i in case["pperm"] if i < len(PM[mode])]
    full = redcal.get_reds(pos, pols=[p.upper() if case["autos"] else p for p in pols], pol_mode=mode, bl_error_tol=tol,
                           include_autos=case["autos"])
    flat = [b for g in full for b in g]
    require(len(flat) == len(set(flat)), "get_reds repeats a baseline")
    require(set(flat) == {b + (p,) for g in reds for b in g for p in pols}, "get_reds baselines are not pairs x pols")
    pg = {frozenset(g) for g in map(tuple, reds)}
    for g in full:
        ps = {b[2] for b in g}
        require(frozenset(b[:2] for b in g) in pg, f"get_reds group {g} is not a positional group")
        if mode == "4pol_minV" and ps & {"ne", "en"}:
            require(ps == {"ne", "en"}, f"4pol_minV group {g} should join the cross-pols")
        else:
            require(len(ps) == 1, f"group {g} mixes polarizations")
    rg = RedundantGroups.from_antpos(pos, pols=pols, pol_mode=mode, bl_error_tol=tol, include_autos=case["autos"])
    require([list(g) for g in rg] == [list(g) for g in full], "RedundantGroups.from_antpos differs from get_reds")
    if not case["autos"]:
        require(redcal.parse_pol_mode(full) == mode, f"parse_pol_mode = {redcal.parse_pol_mode(full)} for {mode}")
    ctx.label(mode, f"{lay['d']}d", "autos" if case["autos"] else "noautos")
    ctx.nontrivial(any(len(g) > 1 for g in reds))


def gen_mode(draw):
    base = {"1pol": [["nn"]], "2pol": [["nn"], ["ee"]], "4pol": [["nn"], ["ee"], ["ne"], ["en"]], "4pol_minV": [["nn"], ["ee"], ["ne", "en"]]}[pick(draw, sorted(PM))]
    gs = perm(draw, [list(g) for g in base for _ in range(ints(draw, 1, 2))])
    if flag(draw):   # one unusual group
        gs[ints(draw, 0, len(gs) - 1)] = subset(draw, ["nn", "ee", "ne", "en"], min_size=1, max_size=3)
    return dict(groups=gs, n=[ints(draw, 1, 3) for _ in range(8)])


def check_mode(case, ctx):
    """polarization mode of arbitrary groups, by definition"""
    from hera_cal.redcal import parse_pol_mode
    reds, a = [], 0
    for g, n in zip(case["groups"], case["n"]):
        reds.append([(a + 2 * i + 2 * n * j, a + 2 * i + 2 * n * j + 1, p) for i in range(n) for j, p in enumerate(g)])
        a += 2 * n * len(g)
    sets = [set(g) for g in case["groups"]]
    pols = set().union(*sets)
    if pols == {"nn"} or pols == {"ee"}:
        exp = "1pol"
    elif pols == {"nn", "ee"}:
        exp = "2pol"
    elif len(pols) == 4 and all(len(s) == 1 for s in sets):
        exp = "4pol"
    elif len(pols) == 4 and all(s in ({"nn"}, {"ee"}, {"ne", "en"}) for s in sets):
        exp = "4pol_minV"
    else:
        exp = "unrecognized_pol_mode"
    got = parse_pol_mode(reds)
    require(got == exp, f"parse_pol_mode of groups with {case['groups']} is {got}, expected {exp}")
    ctx.label(exp)
    ctx.nontrivial(len(reds) > 1)


def gen_filter(draw):
    lay = gen_layout(draw, nmin=3, nmax=8)
    mode = pick(draw, ["1pol", "2pol", "4pol"])
    n = len(lay["nums"])

    def some_bls():
        out = []
        for _ in range(ints(draw, 1, 5)):
            b = [ints(draw, 0, n - 1), ints(draw, 0, n - 1)]
            if flag(draw):
                b.append(pick(draw, PM[mode]))
            out.append(b)
        return out

    def some_ants():
        out = []
        for _ in range(ints(draw, 1, 4)):
            a = ints(draw, 0, n - 1)
            out.append([a, pick(draw, ["Jnn", "Jee"])] if flag(draw) else [a])
        return out
    f = {}
    for name, fn in (("bls", some_bls), ("ex_bls", some_bls), ("ubls", some_bls), ("ex_ubls", some_bls),
                     ("ants", some_ants), ("ex_ants", some_ants)):
        if ints(draw, 0, 2) == 2:
            f[name] = fn()
    if "ants" in f:   # keep enough of the array for the filter to leave something
        f["ants"] += [[a] for a in subset(draw, range(n), min_size=2)]
    for name in ("pols", "ex_pols"):
        if ints(draw, 0, 3) == 3:
            f[name] = subset(draw, PM[mode], min_size=1)
    for name in ("min_bl_cut", "max_bl_cut"):
        if ints(draw, 0, 3) == 3:
            f[name] = ints(draw, 5, 60) + 0.3
    return dict(lay=lay, mode=mode, f=f, cls=flag(draw), flip=ints(draw, 0, 3))


def check_filter(case, ctx):
    from hera_cal import redcal
    from hera_cal.red_groups import RedundantGroups
    lay, f = case["lay"], dict(case["f"])
    nums = lay["nums"]
    pos = positions(lay, 14.6)
    reds = redcal.get_reds(pos, pols=PM[case["mode"]], pol_mode=case["mode"])
    kw, used = {}, {}
    for name in ("bls", "ex_bls", "ubls", "ex_ubls"):
        if name in f:
            kw[name] = [(nums[b[0]], nums[b[1]]) + tuple(b[2:]) for b in f[name]]
    for name in ("ants", "ex_ants"):
        if name in f:
            kw[name] = [(nums[a[0]], a[1]) if len(a) == 2 else nums[a[0]] for a in f[name]]
    for name in ("pols", "ex_pols", "min_bl_cut", "max_bl_cut"):
        if name in f:
            kw[name] = f[name]

    def ap(b):
        return {"n": "Jnn", "e": "Jee"}[b[2][0]], {"n": "Jnn", "e": "Jee"}[b[2][1]]

    def has_ant(b, lst):
        p1, p2 = ap(b)
        return ((b[0], p1) in lst or b[0] in lst), ((b[1], p2) in lst or b[1] in lst)

    # (i, j) baselines are broadcast over the polarizations in reds: with an antpair given in the other order
    # than a cross-pol group, both broadcasts are present, so order never matters
    exp = []
    gpols = {g[0][2] for g in reds}
    allowed = set(kw.get("pols", gpols)) - set(kw.get("ex_pols", []))

    def named_b(b, lst):
        if b in lst or rev(b) in lst:
            return True
        # a 2-tuple stands for all *selected* polarizations
        if b[:2] in lst and b[2] in allowed:
            return True
        if rev(b)[:2] in lst and rev(b)[2] in allowed:
            return True
        return False
    pre = [g for g in reds if g[0][2] in allowed]
    if "ubls" in kw:
        pre = [g for g in pre if any(named_b(b, kw["ubls"]) for b in g)]
    if "ex_ubls" in kw:
        pre = [g for g in pre if not any(named_b(b, kw["ex_ubls"]) for b in g)]

    def keep2(b):
        if "bls" in kw and not named_b(b, kw["bls"]):
            return False
        if "ex_bls" in kw and named_b(b, kw["ex_bls"]):
            return False
        if "ants" in kw and not all(has_ant(b, kw["ants"])):
            return False
        if "ex_ants" in kw and any(has_ant(b, kw["ex_ants"])):
            return False
        return True
    for g in pre:
        h = [b for b in g if keep2(b)]
        if h:
            exp.append(h)
    lens = [np.linalg.norm(pos[g[0][1]] - pos[g[0][0]]) for g in exp]
    for name in ("min_bl_cut", "max_bl_cut"):
        if name in kw and any(abs(x - kw[name]) < 0.05 for x in lens):
            del kw[name]
    exp = [g for g, x in zip(exp, lens) if x > kw.get("min_bl_cut", -1) and x < kw.get("max_bl_cut", 1e9)]
    orig = [list(g) for g in reds]
    if case["cls"]:
        rg = RedundantGroups([list(g) for g in reds], antpos=pos)
        out = [list(g) for g in rg.filter_reds(**kw)]
        require([list(g) for g in rg] == orig, "filter_reds changed the original groups")
    else:
        kwa = dict(kw)
        if "min_bl_cut" in kw or "max_bl_cut" in kw:
            kwa["antpos"] = pos
        out = [list(g) for g in redcal.filter_reds(reds, **kwa)]
        require([list(g) for g in reds] == orig, "filter_reds modified its input")
    require(out == exp, f"filter_reds(**{kw}) = {out}, expected {exp}")
    ctx.label(*kw.keys())
    ctx.nontrivial(len(kw) > 0 and 0 < len(exp) and any(len(g) > 1 for g in reds))


def dims_oracle(reds):
    ants = sorted({a for r in reds for b in r for a in b[:2]})
    ix = {a: i for i, a in enumerate(ants)}
    D = []
    for r in reds:
        for b in r[1:]:
            row = np.zeros(len(ants))
            row[ix[b[1]]] += 1
            row[ix[b[0]]] -= 1
            row[ix[r[0][1]]] -= 1
            row[ix[r[0][0]]] += 1
            D.append(row)
    rank = np.linalg.matrix_rank(np.array(D)) if D else 0
    return len(ants) - 1 - int(rank)


def gen_dims(draw):
    lay = gen_layout(draw, nmin=3, nmax=9, span=4)
    n = len(lay["nums"])
    npairs = n * (n - 1) // 2
    return dict(lay=lay, drop=[ints(draw, 0, 4) == 0 for _ in range(npairs)] if flag(draw) else [],
                max_dims=ints(draw, 1, 3), exdrop=[ints(draw, 0, 4) == 0 for _ in range(npairs)], comb=flag(draw),
                polmode=pick(draw, ["1pol", "2pol", "4pol", "4pol_minV"]))


def check_dims(case, ctx):
    from hera_cal import redcal
    lay = case["lay"]
    pos = positions(lay, 14.6)
    full = redcal.get_reds(pos)
    i = 0
    reds = []
    for g in full:
        h = []
        for b in g:
            if not (case["drop"] and case["drop"][i]):
                h.append(b)
            i += 1
        if h:
            reds.append(h)
    if not reds:
        return
    ideal = redcal.reds_to_antpos(reds)
    ants = {a for r in reds for b in r for a in b[:2]}
    require(set(ideal) == ants, "reds_to_antpos: antennas differ from those in the groups")
    nd = {len(p) for p in ideal.values()}
    want = dims_oracle(reds)
    require(nd == {want}, f"reds_to_antpos uses {nd} dimensions, the groups allow {want}")
    for g in reds:
        d0 = ideal[g[0][1]] - ideal[g[0][0]]
        for b in g:
            close(ideal[b[1]] - ideal[b[0]], d0, f"idealized positions do not reproduce the redundancy of {b}", atol=1e-7)
    al = sorted(ants)
    X = np.array([np.append(ideal[a], 1.0) for a in al])
    Y = np.array([pos[a] for a in al])
    co = np.linalg.lstsq(X, Y, rcond=None)[0]
    close(X @ co, Y, "true positions are not a linear function of the idealized ones", atol=1e-6)

    # max_dims
    out = redcal.filter_reds(reds, max_dims=case["max_dims"])
    have = {b for g in reds for b in g}
    got = [b for g in out for b in g]
    require(len(got) == len(set(got)) and set(got) <= have, "max_dims filtering invented baselines")
    if want <= case["max_dims"]:
        require([list(g) for g in out] == [list(g) for g in reds], "max_dims removed baselines though within the limit")
    if out:
        kept = {a for b in got for a in b[:2]}
        d = dims_oracle(out)
        require(d <= case["max_dims"], f"{d} dimensions left with max_dims={case['max_dims']}")
        require([[b for b in g if b[0] in kept and b[1] in kept] for g in reds
                 if any(b[0] in kept and b[1] in kept for b in g)] == [list(g) for g in out],
                "max_dims must remove whole antennas only")
    # degeneracy counts
    mode = case["polmode"]
    if mode != "1pol":
        mreds = redcal.add_pol_reds([[b[:2] for b in g] for g in reds], pols=PM[mode], pol_mode=mode)
    else:
        mreds = reds
    rc = redcal.RedundantCalibrator(mreds)
    aps = sorted({(b[0], b[2][0]) for g in mreds for b in g} | {(b[1], b[2][1]) for g in mreds for b in g})
    ix = {a: i for i, a in enumerate(aps)}
    A = {1: [], -1: []}
    for u, g in enumerate(mreds):
        for b in g:
            for s in (1, -1):
                row = np.zeros(len(aps) + len(mreds))
                row[ix[(b[0], b[2][0])]] += 1
                row[ix[(b[1], b[2][1])]] += s
                row[len(aps) + u] += 1
                A[s].append(row)
    nd_all = sum(len(aps) + len(mreds) - int(np.linalg.matrix_rank(np.array(A[s]))) for s in (1, -1))
    require(int(rc.count_degens(assume_redundant=False)) == nd_all,
            f"count_degens counts {rc.count_degens(assume_redundant=False)} degeneracies, the equations have {nd_all}")
    per = {"1pol": 2 + want, "2pol": 4 + 2 * want, "4pol": 4 + want, "4pol_minV": 3 + want}[mode]
    require(rc.count_degens() == per, f"count_degens() = {rc.count_degens()}, expected {per} for {mode}")
    if mode == "1pol" and not case["drop"] and len(reds) > 0:
        require(bool(redcal.is_redundantly_calibratable(pos)) == (nd_all == per and want <= 2), "is_redundantly_calibratable wrong")
        require(bool(redcal.is_redundantly_calibratable(pos, require_coplanarity=False)) == (nd_all == per),
                "is_redundantly_calibratable(require_coplanarity=False) wrong")
    # combining two filtered versions of the same groups
    flat = [b for g in full for b in g]
    keep1 = {b for b, d in zip(flat, (case["drop"] or [False] * len(flat))) if not d}
    keep2 = {b for b, d in zip(flat, case["exdrop"]) if not d}
    r1 = [[b for b in g if b in keep1] for g in full if any(b in keep1 for b in g)]
    r2 = [[b for b in g if b in keep2] for g in full if any(b in keep2 for b in g)]
    if r1 and r2:
        comb = redcal.combine_reds(r1, r2, unfiltered_reds=full if case["comb"] else None)
        cf = [b for g in comb for b in g]
        require(len(cf) == len(set(cf)) and set(cf) == keep1 | keep2, "combine_reds lost, repeated or invented baselines")
        where = {b: n for n, g in enumerate(full) for b in g}
        require(all(len({where[b] for b in g}) == 1 for g in comb), "combine_reds joined different groups")
        joined = {}
        for g in comb:
            joined.setdefault(where[g[0]], []).append(set(g))
        for n, gs in joined.items():
            s1, s2 = {b for b in keep1 if where[b] == n}, {b for b in keep2 if where[b] == n}
            if case["comb"] or (s1 & s2):
                require(len(gs) == 1, f"combine_reds left {gs} apart")
        require([len(g) for g in comb] == sorted((len(g) for g in comb), reverse=True), "combine_reds not sorted by size")
    ctx.label(f"dims{want}", "cut" if want > case["max_dims"] else "nocut", mode)
    ctx.nontrivial(any(len(g) > 1 for g in reds))


SUBS = [Sub("mode", gen_mode, check_mode, quick=800, thorough=8000, shards=1), Sub("find", gen_find, check_find, quick=900, thorough=15000, shards=3),
        Sub("filter", gen_filter, check_filter, quick=1200, thorough=20000, shards=3),
        Sub("dims", gen_dims, check_dims, quick=480, thorough=8000, shards=4)]
