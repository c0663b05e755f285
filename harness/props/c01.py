"""C01: DataContainer is a map over physical baselines."""
import copy

import numpy as np

from ..core import Sub, Violation, close, expect_raises, require, rng_of, same
from ..gens import flag, int_cplx, ints, perm, pick, seed, subset, tup

RULE = ("Random histories (construction in every documented form, then sets, deletions, in-place products, "
        "selections, concatenations and arithmetic) over 1-5 antennas, 1-4 polarizations and waterfalls of 1-4 x 1-4, "
        "run against a model keyed by physical baseline; every observer is compared with the model after every step. "
        "Non-trivial: the history reads or writes at least one entry through its conjugate key or another spelling of "
        "its polarization, on a container with at least two entries.")

CONJ = {"nn": "nn", "ee": "ee", "ne": "en", "en": "ne", "xx": "xx", "yy": "yy", "xy": "yx", "yx": "xy",
        "pI": "pI", "pQ": "pQ", "rr": "rr", "ll": "ll", "rl": "lr", "lr": "rl"}
POLSETS = [["nn"], ["nn", "ee"], ["nn", "ee", "ne", "en"], ["ee", "ne", "en"], ["xx", "yy", "xy", "yx"],
           ["pI", "pQ"], ["rr", "rl", "lr", "ll"]]


def rev(k):
    return (k[1], k[0], CONJ[k[2]])


def canon(k):
    r = rev(k)
    return min(k, r)


def spell(p, how):
    return [p, p.upper(), p.capitalize(), p.lower()][how]


class Model:
    """canonical key -> array in canonical orientation; order/orientation of storage remembered."""

    def __init__(self):
        self.d = {}      # canonical -> array as seen under stored key
        self.stored = {}  # canonical -> stored key

    def get(self, k):
        c = canon(k)
        v = self.d[c]
        if self.stored[c] == k:
            return v
        return np.conj(v) if np.iscomplexobj(v) else v

    def has(self, k):
        return canon(k) in self.d

    def set(self, k, v):
        c = canon(k)
        if c not in self.d:
            self.stored[c] = k
            self.d[c] = v
        elif self.stored[c] == k:
            self.d[c] = v
        else:
            self.d[c] = np.conj(v) if np.iscomplexobj(v) else v

    def dele(self, k):
        c = canon(k)
        del self.d[c], self.stored[c]

    def copy(self):
        m = Model()
        m.d = {k: v.copy() for k, v in self.d.items()}
        m.stored = dict(self.stored)
        return m


def gen_case(draw):
    nant = ints(draw, 1, 4)
    pols = pick(draw, POLSETS)
    allk = sorted({canon((i, j, p)) for i in range(nant) for j in range(nant) for p in pols})
    keys = subset(draw, allk, min_size=1, max_size=8)
    keys = [k if flag(draw) else rev(k) for k in keys]
    form = pick(draw, ["flat", "flat", "polfirst", "antfirst"])
    kind = pick(draw, ["complex", "complex", "complex", "float", "bool"])
    nt, nf = ints(draw, 1, 4), ints(draw, 1, 4)
    ops = []
    for _ in range(ints(draw, 1, 7)):
        op = pick(draw, ["get", "get", "set", "set", "del", "imul", "times", "freqs", "concat", "arith", "scalar",
                         "unary", "rewrap", "deint", "bypol"])
        o = {"op": op, "r": flag(draw), "s": ints(draw, 0, 3), "k": ints(draw, 0, 60), "seed": seed(draw)}
        if op in ("times", "freqs"):
            o["sel"] = [ints(draw, 0, 100) for _ in range(ints(draw, 1, 4))]
            o["how"] = pick(draw, ["values", "inds"])
            o["inplace"] = flag(draw)
        if op == "concat":
            o["axis"] = ints(draw, 0, 1)
            o["n"] = ints(draw, 1, 2)
        if op == "deint":
            o["n"] = ints(draw, 1, 3)
        ops.append(o)
    return dict(nant=nant, pols=pols, keys=keys, form=form, kind=kind, nt=nt, nf=nf, ops=ops, seed=seed(draw),
                up=flag(draw))


def mkarr(rng, shape, kind):
    if kind == "complex":
        return int_cplx(rng, shape)
    if kind == "float":
        a = rng.integers(-9, 10, size=shape).astype(float)
        a[a == 0] = 2.0
        return a
    return rng.integers(0, 2, size=shape).astype(bool)


def observe(dc, m, allk, ctx):
    require(len(dc) == len(m.d), f"len is {len(dc)}, expected {len(m.d)}")
    listed = list(dc.keys())
    require(len(set(listed)) == len(listed), "keys() repeats a key")
    require({canon(tuple(k)) for k in listed} == set(m.d), f"keys() {listed} do not match {sorted(m.d)}")
    require(set(dc.bls()) == set(listed), "bls() and keys() differ")
    require(list(iter(dc)) == listed, "iteration and keys() differ")
    for (k, v), v2 in zip(dc.items(), dc.values()):
        same(v, m.get(k), f"items()[{k}]")
        same(v2, m.get(k), f"values() at {k}")
    for k in allk:
        for q in (k, rev(k)):
            for how in (0, 1):
                kk = (q[0], q[1], spell(q[2], how))
                exp = m.has(q)
                require((kk in dc) == exp, f"{kk} in container is {kk in dc}, expected {exp}")
                require(bool(dc.has_key(kk)) == exp, f"has_key({kk}) wrong")
                require(bool(dc.has_key(kk[:2], kk[2])) == exp, f"has_key(antpair, pol) wrong for {kk}")
                if exp:
                    same(dc[kk], m.get(q), f"value at {kk}")
                    same(dc.get_data(*kk), m.get(q), f"get_data{kk}")
                    same(dc.get(kk), m.get(q), f"get({kk})")
                else:
                    require(dc.get(kk, "dflt") == "dflt", f"get({kk}, default) did not give the default")
                    with expect_raises((KeyError,), f"reading absent {kk}"):
                        dc[kk]
    aps = {tuple(k[:2]) for k in m.d}
    aps |= {(b, a) for a, b in aps}
    for i in range(6):
        for j in range(6):
            require(bool(dc.has_antpair((i, j))) == ((i, j) in aps), f"has_antpair({(i, j)}) wrong")
    ap_got = {tuple(a) for a in dc.antpairs()}
    require(ap_got | {(b, a) for a, b in ap_got} == aps, f"antpairs() = {ap_got}, expected (up to order) {aps}")
    spols = {k[2] for k in m.stored.values()}
    require(set(dc.pols()) == spols, f"pols() = {dc.pols()}, expected {spols}")
    for p in spols:
        require(dc.has_pol(p) and dc.has_pol(p.upper()), f"has_pol({p}) False")
        exp = {c for c in ap_got if m.has((c[0], c[1], p))}
        require({tuple(a) for a in dc.antpairs(p)} == exp, f"antpairs({p}) = {dc.antpairs(p)}, expected {exp}")
    for ap in ap_got:
        exp = {p for p in spols if m.has((ap[0], ap[1], p))}
        require(set(dc.pols(ap)) == exp, f"pols({ap}) = {dc.pols(ap)}, expected {exp}")


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


def check_history(case, ctx):
    from hera_cal.datacontainer import DataContainer
    keys = [tuple(k) for k in case["keys"]]
    pols = case["pols"]
    nt, nf = case["nt"], case["nf"]
    allk = sorted({canon((i, j, p)) for i in range(case["nant"]) for j in range(case["nant"]) for p in pols})
    rng = rng_of(case["seed"], "init")
    m = Model()
    arrs = {}
    for k in keys:
        arrs[k] = mkarr(rng, (nt, nf), case["kind"])
        m.set(k, arrs[k].copy())
    up = 1 if case["up"] else 0
    if case["form"] == "flat":
        src = {(k[0], k[1], spell(k[2], up)): arrs[k] for k in keys}
    elif case["form"] == "polfirst":
        src = {}
        for k in keys:
            src.setdefault(spell(k[2], up), {})[k[:2]] = arrs[k]
    else:
        src = {}
        for k in keys:
            src.setdefault(k[:2], {})[spell(k[2], up)] = arrs[k]
    dc = DataContainer(src)
    times = 2458000.0 + np.arange(nt) * 0.125
    freqs = 1e8 + np.arange(nf) * 1e5
    lsts = 0.5 + np.arange(nt) * 0.0625
    dc.times, dc.freqs, dc.lsts = times.copy(), freqs.copy(), lsts.copy()
    kind = case["kind"]
    ctx.label(case["form"], kind)
    observe(dc, m, allk, ctx)
    used_alias = bool(up)
    for n, o in enumerate(case["ops"]):
        orng = rng_of(o["seed"])
        present = sorted(m.d)
        op = o["op"]
        if not present:
            break
        # the key this step acts on: an existing entry, perhaps by its conjugate / another spelling
        c = present[o["k"] % len(present)]
        q = rev(m.stored[c]) if o["r"] else m.stored[c]
        kk = (q[0], q[1], spell(q[2], o["s"]))
        alias = (kk != m.stored[c])
        msg = f"step {n} {op}"
        nt, nf = len(times), len(freqs)
        if op == "get":
            same(dc[kk], m.get(q), msg)
            used_alias |= alias
        elif op == "set":
            absent = [k for k in allk if not m.has(k)]
            if o["k"] % 3 == 0 and absent:
                q = absent[o["k"] % len(absent)]
                q = rev(q) if o["r"] else q
                kk = (q[0], q[1], spell(q[2], o["s"]))
            v = mkarr(orng, (nt, nf), kind)
            dc[kk] = v.copy()
            m.set(q, v)
            used_alias |= alias
        elif op == "del":
            if len(present) == 1:
                continue
            if o["k"] % 2:
                del dc[kk]
                m.dele(q)
            else:
                c2 = present[(o["k"] + 1) % len(present)]
                gone = [kk, m.stored[c2]] if c2 != c else [kk]
                del dc[gone]
                m.dele(q)
                if c2 != c:
                    m.dele(c2)
                if not m.d:
                    break
            used_alias |= alias
        elif op == "imul":
            if kind == "bool":
                continue
            f = float(orng.integers(1, 5))
            cur = dc[kk]
            dc[kk] = cur * f
            m.set(q, m.get(q) * f)
            used_alias |= alias
        elif op == "times":
            sel = [s % nt for s in o["sel"]]
            kw = dict(new_times=times[sel]) if o["how"] == "values" else dict(indices=np.array(sel))
            if o["inplace"]:
                dc.select_or_expand_times(in_place=True, **kw)
                new = dc
            else:
                new = dc.select_or_expand_times(in_place=False, **kw)
                observe(dc, m, allk, ctx)
                same(dc.times, times, msg + " original times (in_place=False)")
            # a repeated time has several equal copies, whichever of them is taken must carry its own lst
            if o["how"] == "values" and len(set(times)) != len(times):
                first = {}
                got_idx = []
                for j, t in enumerate(times[sel]):
                    cands = [i for i in range(nt) if times[i] == t]
                    ok = [i for i in cands if all(np.array_equal(np.asarray(new[s])[j], m.get(s)[i])
                                                  for s in m.stored.values())]
                    require(ok, f"{msg}: row {j} is not any of the rows at that time")
                    got_idx.append(ok[0])
                sel = got_idx
            m2 = m.copy()
            for c_ in m2.d:
                m2.d[c_] = m2.d[c_][sel]
            observe(new, m2, allk, ctx)
            same(new.times, times[sel], msg + " times")
            same(new.lsts, lsts[sel], msg + " lsts")
            if o["inplace"] or o["k"] % 2:
                dc, m, times, lsts = new, m2, times[sel], lsts[sel]
        elif op == "freqs":
            sel = [s % nf for s in o["sel"]]
            kw = dict(freqs=freqs[sel]) if o["how"] == "values" else dict(channels=np.array(sel))
            new = dc.select_freqs(in_place=o["inplace"], **kw)
            if not o["inplace"]:
                observe(dc, m, allk, ctx)
                same(dc.freqs, freqs, msg + " original freqs (in_place=False)")
            if o["how"] == "values" and len(set(freqs)) != len(freqs):
                got_idx = []
                for j, f in enumerate(freqs[sel]):
                    cands = [i for i in range(nf) if freqs[i] == f]
                    ok = [i for i in cands if all(np.array_equal(np.asarray(new[s])[:, j], m.get(s)[:, i])
                                                  for s in m.stored.values())]
                    require(ok, f"{msg}: column {j} is not any of the columns at that frequency")
                    got_idx.append(ok[0])
                sel = got_idx
            m2 = m.copy()
            for c_ in m2.d:
                m2.d[c_] = m2.d[c_][:, sel]
            observe(new, m2, allk, ctx)
            same(new.freqs, freqs[sel], msg + " freqs")
            if o["inplace"] or o["k"] % 2:
                dc, m, freqs = new, m2, freqs[sel]
        elif op == "concat":
            others, oms = [], []
            for i in range(o["n"]):
                n2 = int(orng.integers(1, 4))
                sh = (n2, nf) if o["axis"] == 0 else (nt, n2)
                d2, m2 = {}, Model()
                for j, (c_, k_) in enumerate(sorted(m.stored.items())):
                    k2 = rev(k_) if (o["r"] and j % 2) else k_
                    a = mkarr(orng, sh, kind)
                    d2[k2] = a
                    m2.set(k2, a.copy())
                others.append(DataContainer(d2))
                oms.append(m2)
            new = dc.concatenate(others if o["n"] > 1 else others[0], axis=o["axis"])
            for c_, k_ in m.stored.items():
                exp = np.concatenate([m.get(k_)] + [x.get(k_) for x in oms], axis=o["axis"])
                same(new[k_], exp, f"{msg} {k_}")
            require(len(new) == len(m.d), f"{msg}: {len(new)} entries")
            observe(dc, m, allk, ctx)
            used_alias |= o["r"] and len(m.d) > 1
        elif op in ("arith", "scalar"):
            if kind == "bool":
                continue
            if op == "arith":
                d2, mo = {}, Model()
                for j, (c_, k_) in enumerate(sorted(m.stored.items())):
                    if o["k"] % 4 == 3 and j % 3 == 2:
                        continue                 # the other container lacks this one: left as it was
                    k2 = rev(k_) if (o["r"] and (j + o["k"]) % 2 == 0) else k_
                    a = mkarr(orng, (nt, nf), kind)
                    d2[k2] = a
                    mo.set(k2, a.copy())
                if o["k"] % 5 == 1:              # one that only the other container has: ignored
                    k2 = (977, 978, sorted(m.stored.values())[0][2])
                    d2[k2] = mkarr(orng, (nt, nf), kind)
                    mo.set(k2, d2[k2].copy())
                other = DataContainer(d2)
                used_alias |= o["r"]
            x = float(orng.integers(1, 6))
            for sym, fn in sorted(OPS.items()):
                m2 = m.copy()
                if op == "scalar":
                    new = fn(dc, x)
                    for c_ in m2.d:
                        m2.d[c_] = fn(m2.d[c_], x)
                else:
                    new = fn(dc, other)
                    for c_, k_ in m.stored.items():
                        if mo.has(k_):
                            m2.d[c_] = fn(m.get(k_), mo.get(k_))
                for c_, k_ in m2.stored.items():
                    close(new[k_], m2.d[c_], f"{msg} {sym} {k_}", rtol=1e-12, atol=1e-12)
                    v = m2.d[c_]
                    close(new[rev(k_)], np.conj(v) if rev(k_) != k_ else v, f"{msg} {sym} {rev(k_)}", rtol=1e-12, atol=1e-12)
                require(len(new) == len(m.d), f"{msg}: {len(new)} entries, expected {len(m.d)}")
                same(new.times, times, msg + " times carried over")
            if op == "arith":
                observe(other, mo, allk, ctx)
            observe(dc, m, allk, ctx)
        elif op == "unary":
            if kind == "bool":
                new, fn = ~dc, np.logical_not
            elif o["k"] % 2:
                new, fn = -dc, np.negative
            else:
                new, fn = dc.T, np.transpose
            for c_, k_ in m.stored.items():
                same(new[k_], fn(m.d[c_]), f"{msg} {k_}")
            observe(dc, m, allk, ctx)
        elif op == "rewrap":
            dc = copy.deepcopy(dc) if o["r"] else DataContainer({k: v for k, v in dc.items()})
            dc.times, dc.freqs, dc.lsts = times.copy(), freqs.copy(), lsts.copy()
        elif op == "deint":
            if o["n"] > nt:
                continue
            outs = dc.deinterleave(o["n"])
            require(len(outs) == o["n"], f"{msg}: {len(outs)} containers")
            nk = nt // o["n"]
            for i, new in enumerate(outs):
                idx = np.arange(nk) * o["n"] + i
                same(new.times, times[idx], msg + " times")
                same(new.lsts, lsts[idx], msg + " lsts")
                for k_ in m.stored.values():
                    same(new[k_], m.get(k_)[idx], f"{msg} {k_}")
            observe(dc, m, allk, ctx)
        elif op == "bypol":
            # dc[pol] and dc[antpair] are defined where every baseline has every polarization
            sp = {k[2] for k in m.stored.values()}
            aps = {k[:2] for k in m.stored.values()}
            if all(m.has((a, b, p)) for a, b in aps for p in sp):
                p = sorted(sp)[o["k"] % len(sp)]
                got = dc[p]
                require({tuple(k) for k in got} == {tuple(a) for a in dc.antpairs()}, f"{msg}: baselines of dc[{p}]")
                for ap, v in got.items():
                    same(v, m.get((ap[0], ap[1], p)), f"dc[{p}][{ap}]")
                ap = sorted(aps)[o["k"] % len(aps)]
                ap = ap[::-1] if o["r"] else ap
                if all(m.has((ap[0], ap[1], p)) for p in sp):
                    got = dc[ap]
                    require(set(got) == sp, f"{msg}: pols of dc[{ap}]")
                    for p, v in got.items():
                        same(v, m.get((ap[0], ap[1], p)), f"dc[{ap}][{p}]")
        ctx.label(op)
        observe(dc, m, allk, ctx)
    ctx.nontrivial(used_alias and len(keys) >= 2)


SUBS = [Sub("history", gen_case, check_history, quick=2000, thorough=30000, shards=8)]
