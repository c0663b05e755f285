"""C02: RedundantGroups / RedDataContainer stay a consistent partition."""
import copy

import numpy as np

from ..core import Sub, expect_raises, require, rng_of, same
from ..gens import flag, int_cplx, ints, perm, pick, seed, subset
from ..layouts import gen_layout, positions, true_groups

RULE = ("Random partitions of up to 10 antenna pairs (with 0-2 polarizations, arbitrary member orientation, optional autos) "
        "into ordered groups, edited by histories of up to 8 operations; a list-of-sets model is compared with every "
        "observer after every step; groups and containers inferred from antenna positions against exact lattice separations. Non-trivial: at least two groups, at least one of several members, and at least one "
        "edit or a read through a reversed or non-representative member.")


def rev(b):
    return (b[1], b[0]) + tuple(b[2:])


def gen_groups(draw, nant, pols, autos=True):
    pairs = [(i, j) for i in range(nant) for j in range(i + 1, nant)]
    pairs = subset(draw, pairs, min_size=min(3, len(pairs)), max_size=10)
    pairs = perm(draw, pairs)
    ng = ints(draw, 1, 4)
    gid = [ints(draw, 0, ng - 1) for _ in pairs]
    fl = [flag(draw) for _ in pairs]
    groups = []
    for g in range(ng):
        gp = [list(rev(p)) if f else list(p) for p, x, f in zip(pairs, gid, fl) if x == g]
        if gp:
            groups.append(gp)
    if autos and flag(draw):
        groups.insert(ints(draw, 0, len(groups)), [[i, i] for i in range(ints(draw, 1, nant))])
    if pols:
        groups = [[b + [p] for b in g] for p in pols for g in groups]
    return groups


def gen_rg(draw):
    nant = pick(draw, [4, 3, 5, 2])
    pols = pick(draw, [[], ["nn"], ["nn", "ee"]])
    groups = gen_groups(draw, nant, pols)
    # hold some groups / members back to be appended later
    ops = []
    for _ in range(ints(draw, 2, 8)):
        op = pick(draw, ["append_new", "append_merge", "append_conflict", "insert", "extend", "setkey", "setint", "delkey",
                         "delint", "filter", "keyed", "keyed", "sort", "add", "evolve", "inset", "foreign"])
        ops.append({"op": op, "k": ints(draw, 0, 99), "m": ints(draw, 0, 99), "r": flag(draw), "inplace": flag(draw),
                    "n": ints(draw, 1, 3)})
    return dict(nant=nant, pols=pols, groups=groups, keep=ints(draw, 1, 6), trim=ints(draw, 0, 2), ops=ops,
                antpos=flag(draw))


class M:
    def __init__(self, groups, on=None):
        self.g = [list(x) for x in groups]
        self.on = on  # baselines the keys are chosen from

    def copy(self):
        return M(self.g, self.on)

    def key(self, g):
        if self.on is not None:
            for b in g:
                if b in self.on:
                    return b
            for b in g:
                if rev(b) in self.on:
                    return b
        return g[0]

    def find(self, b):
        for i, g in enumerate(self.g):
            if b in g or rev(b) in g:
                return i
        return None


def observe(rg, m, universe, what):
    require(len(rg) == len(m.g), f"{what}: {len(rg)} groups, expected {len(m.g)}")
    lst = [list(g) for g in rg]
    require(lst == m.g, f"{what}: groups {lst}, expected {m.g}")
    for i, g in enumerate(m.g):
        require(list(rg[i]) == g, f"{what}: group {i} is {rg[i]}, expected {g}")
        key = m.key(g)
        for b in g:
            for q, k, gg in ((b, key, g), (rev(b), rev(key), [rev(x) for x in g])):
                require(q in rg, f"{what}: {q} not in groups")
                require(sorted(rg[q]) == sorted(gg), f"{what}: group of {q} is {rg[q]}, expected {gg}")
                require(sorted(rg.get_red(q)) == sorted(gg), f"{what}: get_red({q}) wrong")
                require(rg.get_ubl_key(q) == k, f"{what}: representative of {q} is {rg.get_ubl_key(q)}, expected {k}")
                require(rg.index(q) == i, f"{what}: index({q}) is {rg.index(q)}, expected {i}")
    bls = {b for g in m.g for b in g}
    require(set(rg.data_bls) == bls, f"{what}: data_bls {set(rg.data_bls)} expected {bls}")
    ants = {a for b in bls for a in b[:2]}
    require(set(rg.data_ants) == ants, f"{what}: data_ants {set(rg.data_ants)} expected {ants}")
    for b in universe:
        if m.find(b) is None:
            require(b not in rg and rev(b) not in rg, f"{what}: {b} should not be in the groups")


def check_rg(case, ctx):
    from hera_cal.red_groups import RedundantGroups
    allg = [[tuple(b) for b in g] for g in case["groups"]]
    universe = [b for g in allg for b in g]
    antpos = {i: np.array([i * 10.0, 0, 0]) for i in range(case["nant"])} if case["antpos"] else None
    start = allg[:case["keep"]]
    if case["trim"]:
        start = [g[:max(1, len(g) - case["trim"])] for g in start]
    m = M(start)
    rg = RedundantGroups([list(g) for g in start], antpos=antpos)
    observe(rg, m, universe, "start")
    edited = False
    for n, o in enumerate(case["ops"]):
        op = o["op"]
        what = f"step {n} {op}"
        before_rg, before_m = rg, m.copy()
        fresh = [g for g in allg if all(m.find(b) is None for b in g)]
        partial = [g for g in allg if any(m.find(b) is not None for b in g) and any(m.find(b) is None for b in g)]
        did = True
        if op in ("append_new", "insert", "extend"):
            if not fresh:
                continue
            new = fresh[o["k"] % len(fresh)]
            new = [rev(b) for b in new] if o["r"] else list(new)
            if op == "append_new":
                out = rg.append(list(new), inplace=o["inplace"])
                m.g.append(list(new))
            elif op == "insert":
                pos = o["m"] % (len(m.g) + 1)
                out = rg.insert(pos, list(new), inplace=o["inplace"])
                m.g.insert(pos, list(new))
            else:
                out = rg.extend([list(new)], inplace=o["inplace"])
                m.g.append(list(new))
            if not o["inplace"]:
                observe(before_rg, before_m, universe, what + " (original, inplace=False)")
                rg = out
        elif op == "append_merge":
            if not partial:
                continue
            new = partial[o["k"] % len(partial)]
            if len({m.find(b) for b in new} - {None}) != 1:
                continue
            i = m.find(next(b for b in new if m.find(b) is not None))
            new = [rev(b) for b in new] if o["r"] else list(new)
            out = rg.append(list(new), inplace=o["inplace"])
            if not o["inplace"]:
                observe(before_rg, before_m, universe, what + " (original, inplace=False)")
                rg = out
            got = [tuple(b) for b in rg[i]]
            exp = {frozenset((b, rev(b))) for b in new} | {frozenset((b, rev(b))) for b in m.g[i]}
            require(len(got) == len(exp) and {frozenset((b, rev(b))) for b in got} == exp,
                    f"{what}: merged group is {got}")
            # one consistent orientation: relative to the universe's own
            uni = next(g for g in allg if any(x in g or rev(x) in g for x in got))
            require(all(b in uni for b in got) or all(rev(b) in uni for b in got), f"{what}: orientation mixed in {got}")
            m.g[i] = got
        elif op == "append_conflict":
            if len(m.g) < 2:
                continue
            i, j = o["k"] % len(m.g), (o["k"] + 1) % len(m.g)
            with expect_raises((ValueError,), what + " joining two groups"):
                rg.append([m.g[i][0], m.g[j][0], (97, 98) + tuple(m.g[i][0][2:])] if antpos is None
                          else [m.g[i][0], m.g[j][0]])
            did = False
        elif op == "foreign":
            if antpos is None:
                continue
            with expect_raises((ValueError,), what + " antenna not in antpos"):
                rg.append([(0, 77) + tuple(universe[0][2:])])
            did = False
        elif op in ("setkey", "setint"):
            i = o["k"] % len(m.g)
            g = m.g[i]
            b = g[o["m"] % len(g)]
            new = list(reversed(g)) if o["n"] == 1 else (g[1:] or g)
            if op == "setint":
                rg[i] = list(new)
                m.g[i] = list(new)
            else:
                q = rev(b) if o["r"] else b
                new = [rev(x) for x in new] if o["r"] else new
                rg[q] = list(new)
                m.g[i] = list(new)
        elif op in ("delkey", "delint"):
            if len(m.g) < 2:
                continue
            i = o["k"] % len(m.g)
            b = m.g[i][o["m"] % len(m.g[i])]
            if op == "delint":
                del rg[i]
            else:
                del rg[rev(b) if o["r"] else b]
            del m.g[i]
        elif op == "filter":
            if not case["pols"]:
                continue
            ant = o["k"] % case["nant"]
            new = [[b for b in g if ant not in b[:2]] for g in m.g]
            kw = dict(ex_ants=[ant])
            if o["r"]:
                p = case["pols"][o["m"] % len(case["pols"])]
                new = [g if g and g[0][2] == p else [] for g in new]
                kw["pols"] = [p]
            new = [g for g in new if g]
            if not new:
                continue
            out = rg.filter_reds(inplace=o["inplace"], **kw)
            if not o["inplace"]:
                observe(before_rg, before_m, universe, what + " (original, inplace=False)")
                rg = out
            m.g = new
        elif op == "keyed":
            on = [b for i, b in enumerate(universe) if (o["k"] + i * (o["m"] + 1)) % 3 == 0]
            on = [rev(b) if (o["r"] and i % 2) else b for i, b in enumerate(on)]
            out = rg.keyed_on_bls(on, inplace=o["inplace"])
            if not o["inplace"]:
                observe(before_rg, before_m, universe, what + " (original, inplace=False)")
                rg = out
            m.on = set(on)
        elif op == "sort":
            if o["r"]:
                rg.sort()
                m.g.sort()
            else:
                rg.sort(key=len)
                m.g.sort(key=len)
        elif op == "add":
            new = fresh[o["k"] % len(fresh)] if fresh else m.g[0]
            other = RedundantGroups([list(new)], antpos=antpos)
            rg = rg + other
            observe(before_rg, before_m, universe, what + " (left operand)")
            if fresh:
                m.g.append(list(new))
        elif op == "evolve":
            rg = copy.deepcopy(rg)
            rg.clear_cache()
            did = False
        elif op == "inset":
            i = o["k"] % len(m.g)
            g = m.g[i]
            b = g[o["m"] % len(g)]
            b = rev(b) if o["r"] else b
            gg = [rev(x) for x in g] if o["r"] else g
            bset = {x for j, x in enumerate(universe) if j % 2 == o["n"] % 2} | \
                   {rev(x) for j, x in enumerate(universe) if j % 3 == o["n"] % 3}
            exp = {x for x in gg if x in bset}
            require(rg.get_reds_in_bl_set(b, bset) == exp, f"{what}: get_reds_in_bl_set({b})")
            expc = {x for x in gg if x in bset or rev(x) in bset}
            require(rg.get_reds_in_bl_set(b, bset, include_conj=True) == expc, f"{what}: get_reds_in_bl_set conj")
            expm = {x for x in list(gg) + [rev(y) for y in gg] if x in bset}
            require(rg.get_reds_in_bl_set(b, bset, include_conj=True, match_conj_to_set=True) == expm,
                    f"{what}: get_reds_in_bl_set match_conj")
            expo = {x if x in bset else rev(x) for x in gg if x in bset or rev(x) in bset}
            require(rg.get_reds_in_bl_set(b, bset, include_conj=True, match_conj_to_set=True,
                                          include_conj_only_if_missing=True) == expo,
                    f"{what}: get_reds_in_bl_set only_if_missing")
            did = False
        ctx.label(op)
        edited |= did
        observe(rg, m, universe, what)
    ctx.nontrivial(edited and len(start) >= 2 and any(len(g) > 1 for g in start))


def gen_rdc(draw):
    nant = pick(draw, [4, 3, 5, 2])
    pols = pick(draw, [["nn"], ["nn", "ee"]])
    groups = gen_groups(draw, nant, pols, autos=flag(draw))
    stored = [[ints(draw, 0, 9), flag(draw)] for _ in groups]
    have = [flag(draw) or flag(draw) for _ in groups]
    ops = []
    for _ in range(ints(draw, 1, 6)):
        ops.append({"op": pick(draw, ["set", "set", "get", "new", "rekey", "dup", "delete", "wrap"]), "k": ints(draw, 0, 99),
                    "m": ints(draw, 0, 99), "r": flag(draw), "seed": seed(draw)})
    return dict(nant=nant, pols=pols, groups=groups, stored=stored, have=have, ops=ops, seed=seed(draw), asrg=flag(draw))


def check_rdc(case, ctx):
    from hera_cal.datacontainer import DataContainer, RedDataContainer
    from hera_cal.red_groups import RedundantGroups
    groups = [[tuple(b) for b in g] for g in case["groups"]]
    rng = rng_of(case["seed"])
    val = {}   # group index -> (array as seen by group[0])
    src = {}
    for i, g in enumerate(groups):
        if not case["have"][i]:
            continue
        a = int_cplx(rng, (2, 3))
        if g[0][0] == g[0][1]:
            a = a.real.copy()
        b = g[case["stored"][i][0] % len(g)]
        if case["stored"][i][1]:
            src[rev(b)] = np.conj(a)
        else:
            src[b] = a
        val[i] = a
    if not src:
        src[groups[0][0]] = val[0] = int_cplx(rng, (2, 3)).real * 1.0
    reds = RedundantGroups([list(g) for g in groups]) if case["asrg"] else [list(g) for g in groups]
    rdc = RedDataContainer(dict(src), reds=reds)
    cur = [list(g) for g in groups]

    def look(what):
        require(len(rdc) == len(val), f"{what}: {len(rdc)} entries, expected {len(val)}")
        for i, g in enumerate(cur):
            for b in g:
                require((b in rdc) == (i in val), f"{what}: {b} in container is {b in rdc}")
                require((rev(b) in rdc) == (i in val), f"{what}: {rev(b)} in container wrong")
                if i in val:
                    same(rdc[b], val[i], f"{what}: {b}")
                    same(rdc[rev(b)], np.conj(val[i]), f"{what}: {rev(b)}")
                    k = rdc.get_ubl_key(b)
                    require(k in g or rev(k) in g, f"{what}: get_ubl_key({b}) = {k}")
                    same(rdc.get(b), val[i], f"{what}: get")
                require(set(rdc.get_red(b)) == set(g), f"{what}: get_red({b}) wrong")
        for k, v in rdc.items():
            i = [n for n, g in enumerate(cur) if k in g or rev(k) in g]
            require(len(i) == 1 and i[0] in val, f"{what}: unexpected key {k}")
            same(v, val[i[0]] if k in cur[i[0]] else np.conj(val[i[0]]), f"{what}: items {k}")

    look("start")
    for n, o in enumerate(case["ops"]):
        op, what = o["op"], f"step {n} {o['op']}"
        orng = rng_of(o["seed"])
        i = o["k"] % len(cur)
        g = cur[i]
        b = g[o["m"] % len(g)]
        auto = b[0] == b[1]
        if op in ("set", "get"):
            a = int_cplx(orng, (2, 3))
            a = a.real.copy() if auto else a
            if op == "set":
                rdc[rev(b) if o["r"] else b] = np.conj(a) if (o["r"]) else a
                val[i] = a
        elif op == "new":
            nb = (11, 12 + n, case["pols"][0])
            a = int_cplx(orng, (2, 3))
            rdc[nb] = a
            cur.append([nb])
            val[len(cur) - 1] = a
        elif op == "rekey":
            # groups reordered, reversed or with members dropped: data of groups still there stay readable
            new = []
            nval = {}
            for j, gg in enumerate(cur):
                keys = [k for k in rdc.keys() if k in gg or rev(k) in gg]
                g2 = [x for x in gg if (o["k"] + x[0]) % 4 or any(x in (k, rev(k)) for k in keys)]
                if not g2:
                    continue
                flip = o["r"] and j % 2 and g2[0][0] != g2[0][1]
                if j in val:
                    nval[len(new)] = np.conj(val[j]) if flip else val[j]
                new.append([rev(x) for x in g2] if flip else g2)
            rdc.build_red_keys([list(x) for x in new])
            cur, val = new, nval
        elif op == "dup":
            multi = [g for j, g in enumerate(cur) if j in val and len(g) > 1]
            if not multi:
                continue
            g = multi[o["k"] % len(multi)]
            x, y = g[0], g[1 + o["m"] % (len(g) - 1)]
            y = rev(y) if o["r"] else y
            with expect_raises((ValueError,), what + f": two members {x}, {y} of one group"):
                RedDataContainer({x: np.ones((2, 3)), y: np.ones((2, 3))}, reds=[list(q) for q in cur])
        elif op == "delete":
            ks = list(rdc.keys())
            if len(ks) < 2:
                continue
            k = ks[o["k"] % len(ks)]
            j = next(n for n, q in enumerate(cur) if k in q or rev(k) in q)
            del rdc[k]
            del val[j]
        elif op == "wrap":
            rdc = copy.deepcopy(rdc) if o["r"] else RedDataContainer(DataContainer(dict(rdc.items())), reds=[list(q) for q in cur])
        ctx.label(op)
        look(what)
    ctx.nontrivial(len(groups) >= 2 and any(len(g) > 1 for g in groups)
                   and any(k not in [g[0] for g in groups] for k in src))


def gen_pos(draw):
    return dict(lay=gen_layout(draw, nmin=2, nmax=7), pols=pick(draw, [[], ["ee"], ["ee", "nn"]]), autos=flag(draw), have=flag(draw), keep=[flag(draw) for _ in range(7)], tol=pick(draw, [1.0, 4.0]), jit=pick(draw, [0.0, 0.7]), over=flag(draw),
                frm=pick(draw, ["antpos", "data", "data"]), mem=[ints(draw, 0, 20) for _ in range(12)], flips=[flag(draw) for _ in range(12)], present=[ints(draw, 0, 3) > 0 for _ in range(12)], seed=seed(draw), both=flag(draw))


def check_pos(case, ctx):
    """groups and containers inferred from antenna positions"""
    from hera_cal.datacontainer import DataContainer, RedDataContainer
    from hera_cal.red_groups import RedundantGroups
    lay, tol = case["lay"], case["tol"]
    rng = rng_of(case["seed"], "pos")
    jit = rng.uniform(-1, 1, size=(len(lay["nums"]), 3)) * (case["jit"] if tol > 1 else 0.0)
    pos = positions(lay, 14.6, jit)
    pols = case["pols"]

    def groups(autos, pp):
        out = [sorted(g) for _, g in sorted(true_groups(lay, autos=autos).items())]
        return [[b + (p,) for b in g] for p in pp for g in out] if pp else out

    def partition(rg):
        return sorted(sorted(min(b, rev(b)) for b in g) for g in rg)

    def judge(rg, autos, pp, what):
        exp = groups(autos, pp)
        require(partition(rg) == partition(exp), f"{what}: groups {partition(rg)}, expected {partition(exp)}")
        for g in exp:
            if g[0][0] != g[0][1]:
                require(set(rg[g[0]]) == set(g), f"{what}: group of {g[0]} is {rg[g[0]]}, expected {g}")
    kw = dict(pols=pols) if pols else {}
    rg = RedundantGroups.from_antpos(pos, include_autos=case["autos"], bl_error_tol=tol, **kw)
    judge(rg, case["autos"], pols, "from_antpos")
    require(set(rg.antpos) == set(pos), "from_antpos lost antenna positions")
    # a part of the array knows the redundancies of all of it
    ants = [a for a, k in zip(pos, case["keep"]) if k]
    part = [[b for b in g if b[0] in ants and b[1] in ants] for g in groups(False, pols)]
    part = [g for g in part if g]
    if part:
        sub = RedundantGroups([list(g) for g in part], antpos=pos)
        args = dict(include_autos=case["autos"], bl_error_tol=tol)
        if case["over"]:
            args["pols"] = ["en", "ne"] if not pols else pols
        full = sub.get_full_redundancies(**args)
        judge(full, case["autos"], args.get("pols", pols), f"get_full_redundancies of {part}")
        require(partition(sub) == partition(part), "get_full_redundancies changed the groups it was asked of")
    # containers
    pp = pols or ["ee"]
    exp = groups(False, pp)
    src, val = {}, {}
    for n, g in enumerate(exp):
        if not case["present"][n % 12]:
            continue
        b = g[case["mem"][n % 12] % len(g)]
        a = int_cplx(rng, (1, 2))
        src[rev(b) if case["flips"][n % 12] else b] = np.conj(a) if case["flips"][n % 12] else a
        val[n] = a
    if not src:
        return
    d = DataContainer(dict(src))
    if case["frm"] == "antpos":
        rdc = RedDataContainer(d, antpos=pos, bl_error_tol=tol)
        with expect_raises((ValueError,), "both groups and positions"):
            RedDataContainer(d, antpos=pos, reds=exp)
    else:
        with expect_raises((ValueError,), "neither groups nor positions"):
            RedDataContainer(d)
        d.antpos = pos
        rdc = RedDataContainer(d, bl_error_tol=tol)
    require(len(rdc) == len(val), f"container from positions has {len(rdc)} entries, expected {len(val)}")
    for n, g in enumerate(exp):
        if g[0][2] not in {k[2] for k in src}:
            continue
        for b in g:
            require((b in rdc) == (n in val) and (rev(b) in rdc) == (n in val), f"{b} in the container from positions is {b in rdc}")
            if n in val:
                same(rdc[b], val[n], f"container from positions: {b}")
                same(rdc[rev(b)], np.conj(val[n]), f"container from positions: {rev(b)}")
    multi = [g for n, g in enumerate(exp) if n in val and len(g) > 1]
    if multi:
        g = multi[0]
        k = next(k for k in src if k in g or rev(k) in g)
        other = next(b for b in g if b not in (k, rev(k)))
        two = DataContainer({k: src[k], other: src[k]})
        with expect_raises((ValueError,), f"two members {k}, {other} of one group"):
            RedDataContainer(two, antpos=pos, bl_error_tol=tol)
    ctx.label(case["frm"], f"npol {len(pols)}")
    ctx.nontrivial(len(exp) >= 2 and bool(multi))


SUBS = [Sub("positions", gen_pos, check_pos, quick=600, thorough=10000, shards=3),
        Sub("groups", gen_rg, check_rg, quick=2400, thorough=40000, shards=5),
        Sub("container", gen_rdc, check_rdc, quick=1200, thorough=20000, shards=3)]
