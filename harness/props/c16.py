"""C16: LST grids and LST-binning configurations are exactly the ones asked for, and address exactly the files and integrations they should."""
import copy
import os
import re

import numpy as np

from ..core import Sub, close, require, rng_of
from ..gens import flag, ints, perm, pick, seed, subset
from ..layouts import true_groups
from ..lstsim import TWOPI, Nights, gen_nights, jd_for_lst, quiet

RULE = ("grid: make_lst_grid for bin widths at and between the divisors of 2 pi, starts on, near and between bin edges on any branch, any width, against the definition; cfg: nights of uvh5 files in generated directories -> "
        "LSTBinConfigurator (built directly, from a dict, a string or a file, with defaults or explicit options) -> matched files -> LSTConfig -> disk -> pieces by file, bin or LST, every step against brute force over the files' LSTs and baselines; "
        "bls: single-baseline file trees with missing, reversed and clashing baselines; rules: nested file-name rules with missing files. Non-trivial: at least two bins, files or nights.")
ASSUMPTIONS = ["LSTs within 2e-6 rad of a file edge, and starts within 1e-5 bins of a bin edge (but not on it), are not judged", "files of one night are equally long except the last, as HERA writes them",
               "matched files may include more files than needed (documented), never fewer"]


# ---------------------------------------------------------------- LST grids
def gen_grid(draw):
    n = pick(draw, [2, 3, 7, 12, 100, 1436, 4019, 8063, ints(draw, 4, 40000)])
    return dict(n=n, how=pick(draw, ["exact", "exact", "less", "more", "bit"]), start=pick(draw, ["zero", "edge", "edge", "edge2", "in", "in"]), k=ints(draw, 0, 10**6),
                branch=pick(draw, [0, 0, 0, 1, -1]), frac=ints(draw, 1, 99) / 100.0, width=pick(draw, ["none", "none", "m", "m+", "m-", "all"]), m=ints(draw, 0, 10**6))


def ref_dlst(req):
    n = int(np.floor(TWOPI / req * (1 + 2e-8)))
    return TWOPI / n, n


def ref_start(dlst, n, start):
    """left edge of the bin holding start, or None if too close to call"""
    x = (start % TWOPI) / dlst
    k = round(x)
    if abs(x - k) < 1e-8 * max(1.0, 1e-2 * n):
        return k % n                  # an edge, up to rounding
    if abs(x - k) < 1e-5:
        return None
    return int(np.floor(x)) % n


def check_grid(case, ctx):
    from hera_cal.lst_stack import config
    n = case["n"]
    d0 = TWOPI / n
    # a request between two divisors is widened to the next wider one
    req = {"exact": d0, "less": d0 - (d0 - TWOPI / (n + 1)) * 0.7, "more": d0 + (TWOPI / (n - 1) - d0) * 0.02 if n > 1 else d0, "bit": d0 * (1 - 3e-9)}[case["how"]]
    dlst, N = ref_dlst(req)
    require(N == (n if case["how"] != "more" else n - 1), "bad reference")
    if N < 2:
        return
    got = config._fix_dlst(req)
    require(abs(got - dlst) < 1e-12, f"_fix_dlst({req!r}) = {got!r}, but the closest divisor of 2 pi at or above it is {dlst!r}")
    k = case["k"] % N
    start = {"zero": 0.0, "edge": k * dlst, "edge2": float(np.linspace(0, TWOPI, N + 1)[k]), "in": (k + case["frac"]) * dlst}[case["start"]] + case["branch"] * TWOPI
    k0 = ref_start(dlst, N, start)
    if k0 is None:
        ctx.label("edge tie")
        return
    m = 2 + case["m"] % max(N - 2, 1)
    kw, nb = {"m": (dict(lst_width=m * dlst), m), "m+": (dict(lst_width=(m + 0.3) * dlst), m), "m-": (dict(lst_width=(m - 0.3) * dlst), m), "none": ({}, N), "all": (dict(lst_width=TWOPI), N)}[case["width"]]
    nb = min(nb, N)
    g = np.asarray(config.make_lst_grid(req, begin_lst=start, **kw))
    require(g.shape == (nb,), f"{g.size} bins of {dlst:.6g} for a width of {kw.get('lst_width', TWOPI):.6g}; expected {nb}")
    exp = (k0 + 0.5 + np.arange(nb)) * dlst
    close(g, exp, f"bin centres for dlst={req!r}, begin_lst={start!r}", rtol=0, atol=1e-9)
    close(config.make_lst_grid(got, begin_lst=start, **kw), g, "grid from the corrected dlst", rtol=0, atol=1e-12)
    ctx.label(case["start"] + "/" + case["how"])
    ctx.nontrivial(nb > 1)


# ---------------------------------------------------------------- configurator, config, pieces
def gen_cfg(draw):
    c = gen_nights(draw, red=ints(draw, 0, 2) == 0, maxnights=4, maxfiles=4)
    for night in c["nights"]:
        for f in night:
            f["nt"] = night[0]["nt"]
        night[-1]["nt"] = min(night[-1]["nt"], ints(draw, 1, 5))
    c["nf"] = 2
    c["pols"] = pick(draw, [["ee"], ["nn", "ee"]])
    if c["tint"] < 30:
        c["tint"] = 30.0
    c.update(mult=pick(draw, [None, None, 0.7, 1.0, 3.3, 40.0]), per=pick(draw, [None, 1, 2, 3, 7, 10**4]), lo=pick(draw, [None, None, "in", "before", "before", "after"]), hi=pick(draw, [None, None, "near", "far"]),
             regex=pick(draw, ["default", "default", "none", "empty"]), sub=flag(draw), build=pick(draw, ["direct", "dict", "str", "path", "list", "listdict"]), empty=ints(draw, 0, 2) == 0, ign=ints(draw, 0, 2) == 0,
             last=flag(draw), cal=flag(draw), inp=flag(draw), paths=flag(draw), ravg=pick(draw, [False, True]), order=ints(draw, 0, 10**6), lsts=ints(draw, 0, 10**6), atol=flag(draw))
    return c


def check_cfg(case, ctx):
    from hera_cal.lst_stack import config
    import toml
    tmp = ctx.tmp()
    groups = [sorted(g) for _, g in sorted(true_groups(case["lay"], autos=True).items())]
    rng = rng_of(case["seed"], "cfg")
    pairs_of = None
    if case["ravg"]:          # at most one baseline per redundant group, perhaps another one on another night
        def pairs_of(n, f, rng):
            out = [g[(case["seed"] + 3 * n) % len(g)] for k, g in enumerate(groups) if (k * 5 + n * 3 + f + case["seed"]) % 8 >= case["nights"][n][f]["drop"]] or [groups[0][0]]
            return [p if case["orient"] == "minmax" or rng.integers(2) else p[::-1] for p in out]
    W = Nights(case, tmp, pairs_of=pairs_of)
    name = {}
    for g in groups:
        for p in g:
            name[tuple(p)] = name[tuple(p)[::-1]] = tuple(g[0])
    # ---- lay the files out on disk
    nights = []
    for n in range(len(case["nights"])):
        mine = [f for f in W.files if f["night"] == n]
        nm = str(int(mine[0]["times"][0]))
        nights.append(nm)
        for f in mine:
            d = os.path.join(tmp, nm) if case["sub"] else tmp
            os.makedirs(d, exist_ok=True)
            base = os.path.basename(f["path"]).replace(f".{n}.{W.files.index(f)}.", ".")
            new = os.path.join(d, base)
            os.rename(f["path"], new)
            f["path"] = new
    if len(set(nights)) != len(nights) or any(str(int(f["times"][0])) != nights[f["night"]] or not os.path.basename(f["path"]).startswith(f"zen.{nights[f['night']]}.") for f in W.files):
        ctx.label("night changes at JD boundary")
        return
    kw = {}
    cals, inps = {}, {}
    for k, f in enumerate(W.files):
        if case["cal"]:
            cals[f["path"]] = f["path"].replace(".uvh5", ".calfits")
            open(cals[f["path"]], "w").close()
        if case["inp"]:
            inps[f["path"]] = f["path"].replace(".sum.uvh5", ".where_inpainted.h5")
            open(inps[f["path"]], "w").close()
    if case["cal"]:
        kw["calfile_rules"] = [[r"\.uvh5", ".calfits"]]
    if case["inp"]:
        kw["where_inpainted_file_rules"] = [[r"\.sum", ".xyz"], [r"\.xyz\.uvh5", ".where_inpainted.h5"]]
    by_night = [[f for f in W.files if f["night"] == n] for n in range(len(nights))]
    f0 = sorted(by_night[0], key=lambda f: f["path"])[0]
    dl = case["tint"] / 86400.0 * TWOPI * 1.0027379
    # ---- options and what they should mean
    if case["mult"] is not None:
        kw["dlst"] = float(dl * case["mult"])
        req = kw["dlst"]
    elif len(f0["lsts"]) > 1:
        req = float((f0["lsts"][1] - f0["lsts"][0]) % TWOPI)
    else:
        req = case["tint"] * TWOPI / 86164.0905
    x = TWOPI / req
    if case["mult"] is None and len(f0["lsts"]) == 1 and abs(x - round(x)) < 1e-4:
        return
    dlst, N = ref_dlst(req)
    if case["per"] is not None:
        kw["nlsts_per_file"] = case["per"]
    per = kw.get("nlsts_per_file", len(f0["times"]))
    lo, hi = 0.0, TWOPI
    first = f0["lsts"][0] % TWOPI
    if case["lo"] is not None:
        lo = float({"in": first + 0.4 * dlst, "before": first - 5.3 * dlst, "after": first + 2.3 * dlst}[case["lo"]] % TWOPI)
        kw["lst_start"] = lo
        hi = lo + TWOPI
    if case["hi"] is not None:
        hi = lo + dlst * {"near": 4.6 + case["seed"] % 9, "far": 30.2}[case["hi"]]
        hi = min(hi, lo + TWOPI)
        kw["lst_end"] = hi
    elif per * dlst < 0.1:       # thousands of output files: only keep it quick
        kw["nlsts_per_file"] = per = int(np.ceil(0.1 / dlst)) + case["seed"] % 5
    if case["regex"] != "default":
        if case["regex"] == "none" and case["build"] in ("direct", "dict", "listdict"):
            kw["jd_regex"] = None
        else:
            kw["jd_regex"] = ""
    if case["atol"]:
        kw["atol"] = 1e-9
    ign = ()
    if case["ign"] and len(W.ants) > 2:
        ign = (W.ants[1],)
        kw["ignore_ants"] = list(ign)
    kw["antpairs_from_last_file_each_night"] = bool(case["last"])
    # ---- build it
    order = list(range(len(nights)))
    asked = list(nights)
    if case["empty"]:
        asked.insert(case["order"] % (len(asked) + 1), "1234567")
    glob = ("{night}/" if case["sub"] else "") + "zen.{night}.*.sum.uvh5"
    paths = [sorted(f["path"] for f in fl) for fl in by_night]
    if case["build"] == "direct":
        df = [list(p) for p in paths]
        for p in df:
            p.reverse()
        cfgr = quiet(config.LSTBinConfigurator, data_files=df, **kw)
        require(df == [p[::-1] for p in paths], "LSTBinConfigurator changed the lists it was given")
    else:
        dct = dict(kw)
        if case["build"].startswith("list"):
            dct.update(datafiles=[glob.format(night=n) for n in asked], datadir=tmp)
        else:
            dct.update(datafiles=dict(datadir=tmp, nights=list(asked), fileglob=glob))
        if case["build"] in ("dict", "listdict"):
            keep = copy.deepcopy(dct)
            cfgr = quiet(config.LSTBinConfigurator.from_toml, dct)
            require(dct == keep, "from_toml changed the dictionary it was given")
        else:
            text = toml.dumps(dct)
            if case["build"] == "str":
                cfgr = quiet(config.LSTBinConfigurator.from_toml, text)
            else:
                p = os.path.join(tmp, "cfg.toml")
                with open(p, "w") as fh:
                    fh.write(text)
                cfgr = quiet(config.LSTBinConfigurator.from_toml, p)
        if not case["build"].startswith("list"):
            fd = config.LSTBinConfigurator.find_datafiles(datadir=tmp, nights=list(asked), fileglob=glob)
            require([[str(p) for p in x] for x in fd] == [paths[nights.index(a)] if a in nights else [] for a in asked], f"find_datafiles found {fd}")
    for bad in (dict(lst_start=-0.1), dict(lst_start=TWOPI + 0.1), dict(dlst=-0.01), dict(lst_start=1.0, lst_end=1.0 + TWOPI + 0.1), dict(lst_end=-0.1), dict(calfile_rules=[["a"]]), dict(calfile_rules=[["a", "b", "c"]]), dict(where_inpainted_file_rules=[["a", 1]])):
        try:
            quiet(config.LSTBinConfigurator, paths, **bad)
        except ValueError:
            continue
        require(False, f"configuration with {bad} is accepted")
    require([[str(p) for p in x] for x in cfgr.data_files] == paths, f"configurator holds {cfgr.data_files}, asked for {paths}")
    require(cfgr.n_nights == len(nights), f"{cfgr.n_nights} nights for {len(nights)}")
    require(cfgr.nlsts_per_file == per, f"nlsts_per_file is {cfgr.nlsts_per_file}, expected {per}")
    close(cfgr.dlst, dlst, "bin width", rtol=1e-9, atol=0)
    close([cfgr.lst_start, cfgr.lst_end], [lo, hi], "LST range", rtol=0, atol=1e-9)
    # ---- the grid
    k0 = ref_start(dlst, N, lo)
    y = (hi - lo) / dlst - 0.5
    if k0 is None or abs(y - round(y)) < 1e-6:
        ctx.label("edge tie")
        return
    nb = min(int(np.ceil(y)), N)
    grid = (k0 + 0.5 + np.arange(nb)) * dlst
    close(cfgr.lst_grid, grid, "LST grid of the configurator", rtol=0, atol=1e-8)
    close(cfgr.lst_grid_edges, (k0 + np.arange(nb + 1)) * dlst, "LST grid edges of the configurator", rtol=0, atol=1e-8)
    nfl = -(-nb // per)
    require(cfgr.nfiles == nfl, f"{cfgr.nfiles} output files for {nb} bins, {per} per file")
    fedges = (k0 + np.append(np.arange(0, nb, per), nb)) * dlst
    close(cfgr.get_file_lst_edges(), fedges, "edges of the output files", rtol=0, atol=1e-8)

    # ---- matched files: at least those with an integration inside
    def inside(f, a, b):
        x = (f["lsts"] - a) % TWOPI
        w = b - a
        if np.any(np.abs(x - w) < 2e-6) or np.any(np.minimum(x, TWOPI - x) < 2e-6) and w < TWOPI - 1e-6:
            raise ArithmeticError
        return np.where((x < w) | (w > TWOPI - 1e-6))[0]
    try:
        have = [[[f for f in sorted(by_night[n], key=lambda f: f["path"]) if len(inside(f, fedges[i], fedges[i + 1]))] for n in order] for i in range(nfl)]
        for i in range(nfl):
            if any(have[i]):
                for j in range(i * per, min((i + 1) * per, nb)):
                    for f in W.files:
                        inside(f, grid[j] - dlst / 2, grid[j] + dlst / 2)
    except ArithmeticError:
        ctx.label("edge tie")
        return
    mf = quiet(cfgr.get_matched_files, **(dict(as_paths=True) if case["paths"] else {}))
    get = (lambda m: str(m)) if case["paths"] else (lambda m: str(m.path))
    got = [[[get(m) for m in night] for night in out] for out in mf]
    require(len(got) == nfl and all(len(o) == len(nights) for o in got), f"matched files have shape {len(got)} x {[len(o) for o in got][:3]}, for {nfl} files, {len(nights)} nights")
    extra = 0
    for i in range(nfl):
        for n in order:
            need = [f["path"] for f in have[i][n]]
            require(set(need) <= set(got[i][n]), f"output file {i} misses {sorted(set(need) - set(got[i][n]))}, with integrations inside it")
            require(set(got[i][n]) <= set(paths[n]) and len(set(got[i][n])) == len(got[i][n]), f"output file {i}, night {n} matched to {got[i][n]}")
            extra += len(got[i][n]) - len(need)
    if not any(any(o) for o in have):
        ctx.label("nothing inside")
        return
    # ---- baselines
    red = all(len({name[p] for p in fl[len(fl) // 2]["pairs"]}) == len(fl[len(fl) // 2]["pairs"]) for fl in [sorted(b, key=lambda f: f["path"]) for b in by_night])
    if red and ign:
        try:
            quiet(cfgr.create_config, mf)
        except ValueError:
            ctx.label("ignored antennas in averaged files")
            return
        require(False, "create_config ignored antennas of redundantly averaged files without a complaint")
    cfg = quiet(cfgr.create_config, mf)
    looked = [f for b in by_night for f in ([sorted(b, key=lambda f: f["path"])[i] for i in (0, -1)] if case["last"] else b)]
    both = list(cfg.antpairs) + list(cfg.autopairs)
    require(all(a != b for a, b in cfg.antpairs) and all(a == b for a, b in cfg.autopairs), "autos among the cross antpairs, or the other way around")
    if red:
        ids = [name[tuple(p)] for p in both]
        exp = {name[p] for f in looked for p in f["pairs"]}
    else:
        ids = [tuple(sorted(p)) for p in both]
        exp = {tuple(sorted(p)) for f in looked for p in f["pairs"] if not set(p) & set(ign)}
        require(set(map(tuple, both)) <= {tuple(p) for f in looked for p in f["pairs"]}, "an antpair has the orientation of no file")
    require(len(ids) == len(set(ids)) and set(ids) == exp, f"baselines {sorted(ids)} in the config, {sorted(exp)} in the files" + (" (redundantly averaged)" if red else ""))
    require(list(cfg.pols) == sorted(case["pols"]), f"polarizations {cfg.pols} for {case['pols']}")
    # ---- the same, asked for directly
    for noauto in (False, True):
        ap, ps = quiet(config.get_all_antpairs, [list(p) for p in paths], ignore_ants=() if red else tuple(ign), include_autos=not noauto, only_last_file_per_night=case["last"])
        ap = [tuple(int(x) for x in p) for p in ap]
        require(ap == sorted(p for p in map(tuple, both) if not noauto or p[0] != p[1]) and list(ps) == sorted(case["pols"]), f"get_all_antpairs gives {ap}, {ps}; the config has {sorted(both)}")
    if not red:
        W.ants = sorted(W.enu)
        ex = [[W.ants[int(i)] for i in rng.permutation(len(W.ants))[:int(rng.integers(0, 3))]] for _ in nights]
        ym = []
        for n in range(len(nights)):
            ym.append(os.path.join(tmp, f"ex{n}.yaml"))
            with open(ym[-1], "w") as fh:
                fh.write(f"ex_ants: {[int(a) for a in ex[n]]}\n")
        ap, _ = quiet(config.get_all_antpairs, [list(p) for p in paths], ex_ant_yaml_files=ym, ignore_ants=tuple(ign), redundantly_averaged=False)
        exp = {tuple(sorted(p)) for n in range(len(nights)) for f in by_night[n] for p in f["pairs"] if not set(p) & (set(ign) | set(ex[n]))}
        ids = [tuple(sorted(int(x) for x in p)) for p in ap]
        require(len(ids) == len(set(ids)) and set(ids) == exp, f"with antennas {ex} excluded by night, baselines {sorted(ids)}, in the files {sorted(exp)}")
    # ---- the config's grid and files
    keep = [i for i in range(nfl) if any(got[i])]
    lg = np.full((len(keep), per), np.nan)
    for r, i in enumerate(keep):
        row = grid[i * per:(i + 1) * per]
        lg[r, :len(row)] = row
    close(cfg.lst_grid, lg, "LST grid of the config", rtol=0, atol=1e-8)
    strs = lambda x: None if x is None else [[[str(m) for m in night] for night in out] for out in x]
    want = [got[i] for i in keep]
    require(strs(cfg.matched_files) == want, f"config has files {strs(cfg.matched_files)}, matched {want}")
    sub = lambda m: None if not m else [[[m[p] for p in night] for night in out] for out in want]
    require(strs(cfg.calfiles) == sub(cals), f"calibration files {cfg.calfiles}")
    require(strs(cfg.inpaint_files) == sub(inps), f"in-paint files {cfg.inpaint_files}")
    pr = cfg.properties
    close(pr["first_jd"], min(b[0]["times"][0] for b in [sorted(b, key=lambda f: f["path"]) for b in by_night]), "first JD", rtol=0, atol=1e-8)
    require(pr["x_orientation"] == case["xo"], f"x_orientation {pr['x_orientation']}")
    flat = np.sort((lg[~np.isnan(lg)]) % TWOPI)
    gap = np.max(np.diff(np.append(flat, flat[0] + TWOPI))) if len(flat) > 1 else TWOPI
    span = np.ptp((flat - pr["lst_branch_cut"] + 1e-9) % TWOPI)
    require(span <= TWOPI - gap + 1e-6, f"branch cut {pr['lst_branch_cut']} spreads the grid over {span}, with a gap of {gap}")
    # ---- disk
    p = os.path.join(tmp, "cfg.h5")
    cfg.write(p)
    back = quiet(config.LSTConfig.from_file, p)
    for what, v in (("matched_files", want), ("calfiles", sub(cals)), ("inpaint_files", sub(inps))):
        require(strs(getattr(back, what)) == v, f"{what} read back: {getattr(back, what)}")
    close(back.lst_grid, lg, "LST grid read back", rtol=0, atol=1e-8)
    require(list(back.antpairs) == list(cfg.antpairs) and list(back.autopairs) == list(cfg.autopairs) and list(back.pols) == list(cfg.pols), "baselines or polarizations read back")
    require(set(back.properties) == set(pr) and all(back.properties[k] == pr[k] or (isinstance(pr[k], float) and abs(pr[k] - back.properties[k]) < 1e-9) for k in pr), f"properties {back.properties}, written {pr}")
    bc = back.config
    require([[str(q) for q in x] for x in bc.data_files] == paths and bc.nlsts_per_file == per and abs(bc.dlst - dlst) < 1e-12 and bc.lst_start == cfgr.lst_start and bc.lst_end == cfgr.lst_end and bc.atol == cfgr.atol
            and (bc.jd_regex or None) == (cfgr.jd_regex or None) and tuple(bc.ignore_ants) == ign and bc.antpairs_from_last_file_each_night == case["last"], "configurator read back from file differs")
    tr = lambda r: None if not r else [tuple(x) for x in r]
    require(tr(bc.calfile_rules) == tr(kw.get("calfile_rules")) and tr(bc.where_inpainted_file_rules) == tr(kw.get("where_inpainted_file_rules")), "rules read back from file differ")
    again = os.path.join(tmp, "cfg2.h5")
    back.write(again)
    require(quiet(config.LSTConfig.from_file, again) == back, "a configuration read back twice differs from itself read once")
    cfg = back if case["order"] % 2 else cfg
    # ---- pieces

    def judge(piece, centres, what):
        close(piece.lst_grid, centres, f"{what}: LST grid", rtol=0, atol=1e-8)
        a, b = centres[0] - dlst / 2, centres[-1] + dlst / 2
        close(piece.lst_grid_edges, np.append(centres - dlst / 2, b), f"{what}: LST edges", rtol=0, atol=1e-8)
        require(piece.n_lsts == len(centres), f"{what}: n_lsts")
        exp = {f["path"]: inside(f, a, b) for f in W.files}
        exp = {p: t for p, t in exp.items() if len(t)}
        gotf = [str(q) for q in piece.matched_files]
        require(len(set(gotf)) == len(gotf) and set(gotf) == set(exp), f"{what} (LST {a:.6f}-{b:.6f}) has files {gotf}, integrations inside are in {sorted(exp)}")
        require(len(piece.time_indices) == len(gotf), f"{what}: {len(piece.time_indices)} time index arrays for {len(gotf)} files")
        for q, t in zip(gotf, piece.time_indices):
            require(list(t) == list(exp[q]), f"{what}: times {list(t)} of {os.path.basename(q)}, inside are {list(exp[q])}")
        if exp:
            import attrs
            fresh = {k: v for k, v in attrs.asdict(piece, recurse=False).items() if k != "time_indices"}
            fresh = quiet(config.LSTConfigSingle, **fresh)
            for q, t in zip(gotf, fresh.time_indices):
                require(list(t) == list(exp[q]), f"{what}: times worked out from the files are {list(t)} of {os.path.basename(q)}, inside are {list(exp[q])}")
        ls = piece.get_lsts()
        for q, l in zip(gotf, ls):
            f = next(f for f in W.files if f["path"] == q)
            close(np.exp(1j * np.asarray(l)), np.exp(1j * f["lsts"][exp[q]]), f"{what}: LSTs", rtol=0, atol=1e-7)
        for nm, m in (("calfiles", cals), ("inpaint_files", inps)):
            v = getattr(piece, nm)
            require((not v and not m) or [str(q) for q in v] == [m[q] for q in gotf], f"{what}: {nm} {v} for {gotf}")
        require(list(piece.antpairs) == list(cfg.antpairs) and list(piece.autopairs) == list(cfg.autopairs) and list(piece.pols) == list(cfg.pols), f"{what}: baselines or polarizations changed")

    rows = list(range(len(keep)))
    rows = sorted({rows[(case["lsts"] + k) % len(rows)] for k in range(3)} | {0, len(rows) - 1})
    for r in rows:
        cen = lg[r][~np.isnan(lg[r])]
        judge(quiet(cfg.at_single_outfile, r), cen, f"output file {r}")
        j = case["lsts"] % len(cen)
        frac = (0.5, 0.02, 0.97, 0.0)[case["lsts"] // 7 % 4]
        lst = cen[j] + (frac - 0.5) * dlst + TWOPI * (case["lsts"] // 3 % 3 - 1)
        if frac == 0.0:
            lst += 1e-9
        judge(quiet(cfg.at_single_outfile, lst=float(lst)), cen, f"output file at LST {lst:.6f}")
        judge(quiet(cfg.at_single_bin, lst=float(lst)), cen[[j]], f"bin at LST {lst:.6f}")
        judge(quiet(cfg.at_single_bin, r * per + j), cen[[j]], f"bin {r * per + j}")
    # LSTs no retained output file holds
    d = np.diff(np.append(flat, flat[0] + TWOPI))
    k = int(np.argmax(d))
    if d[k] > 1.9 * dlst:
        lst = float((flat[k] + d[k] / 2) % TWOPI)
        for fn in (cfg.at_single_outfile, cfg.at_single_bin):
            try:
                piece = quiet(fn, lst=lst)
            except ValueError:
                continue
            require(False, f"{fn.__name__}(lst={lst:.4f}) returned bins at {piece.lst_grid}, although no bin of the configuration holds it")
        ctx.label("missing LST raises")
    ctx.label(case["build"] + ("/red" if red else "") + ("/extra" if extra else ""))
    ctx.nontrivial(len(W.files) > 1)


# ---------------------------------------------------------------- single-baseline files
def gen_bls(draw):
    nn = ints(draw, 1, 4)
    nights = perm(draw, [str(2459860 + k) for k in range(nn)])
    ants = ints(draw, 2, 12)
    files = []
    for n in range(nn):
        for _ in range(ints(draw, 0, 5)):
            a, b = ints(draw, 0, ants), ints(draw, 0, ants)
            files.append((n, a * 13, b * 13))
    return dict(nights=nights, files=files, clash=ints(draw, 0, 4) == 0, glob=pick(draw, ["{night}/zen.{night}.{baseline}.sum.uvh5", "zen.{night}.{baseline}.uvh5", "{night}/{baseline}/zen.{night}.uvh5", "{baseline}.of.{night}.uvh5"]),
                datadir=pick(draw, ["d", "run2459860", "a/2459861/b"]), cal=pick(draw, ["cal/{night}.calfits", "c.{night}/x.{night}.h5"]), toml=flag(draw), rel=flag(draw), decoy=flag(draw))


def check_bls(case, ctx):
    from hera_cal.lst_stack import config
    root = os.path.join(ctx.tmp(), case["datadir"])
    os.makedirs(root)
    seen = {}
    for n, a, b in case["files"]:
        if (n, b, a) in seen and a != b and not case["clash"]:
            continue
        night = case["nights"][n]
        p = os.path.join(root, case["glob"].replace("{night}", night).replace("{baseline}", f"{a}_{b}"))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()
        seen[n, a, b] = p
    if case["decoy"]:
        for nm in ("zen.2459860.txt", "zen.2459860.0_13.calfits", "other.uvh5"):
            open(os.path.join(root, nm), "w").close()
    clash = any((n, b, a) in seen for n, a, b in seen if a != b)
    nights = list(case["nights"])
    try:
        if case["toml"]:
            import toml
            t = os.path.join(ctx.tmp(), "c.toml")
            with open(t, "w") as fh:
                toml.dump({"Options": {"makeflow_type": "lstbin_single_baseline"}, "FILE_CFG": {"datafiles": {"datadir": root, "nights": nights, "fileglob": case["glob"]}}}, fh)
            C = config.LSTBinConfiguratorSingleBaseline.from_toml(t)
        else:
            C = config.LSTBinConfiguratorSingleBaseline(root, nights, case["glob"])
    except ValueError as e:
        require(clash, f"{e}, though no night has a baseline in both orientations")
        ctx.label("clash")
        return
    require(not clash, "a night has a baseline in both orientations, and no error was raised")
    got = {}
    for k, v in C.bl_to_file_map.items():
        key = tuple(sorted(int(x) for x in k.split("_")))
        require(key not in got, f"{k} and its reverse are both in the map")
        got[key] = v
        names = [x for n, a, b in seen if tuple(sorted((a, b))) == key for x in [f"{a}_{b}"]]
        require(k in names, f"key {k} is the name of no file")
    exp = {}
    for n in range(len(nights)):
        for (m, a, b), p in seen.items():
            if m == n:
                exp.setdefault(tuple(sorted((a, b))), []).append(p)
    require(got == exp, f"files by baseline: {got}, on disk {exp}")
    tpl = os.path.join(root, case["cal"])
    cm = C.build_visfile_to_calfile_map(tpl)
    require(cm == {p: tpl.replace("{night}", nights[n]) for (n, a, b), p in seen.items()}, f"calibration files {cm} for nights {nights}")
    ctx.label(f"{len(nights)} nights")
    ctx.nontrivial(len(seen) > 1)


# ---------------------------------------------------------------- file-name rules
def gen_rules(draw):
    def tree(depth):
        if depth == 0:
            return [f"zen.{ints(draw, 0, 30)}.{pick(draw, ['sum', 'diff'])}.uvh5" for _ in range(ints(draw, 0, 4))]
        return [tree(depth - 1) for _ in range(ints(draw, 0, 3))]
    return dict(tree=tree(ints(draw, 0, 2)), rules=[pick(draw, [(r"\.uvh5", ".calfits"), (r"sum|diff", "cal"), (r"zen\.(\d+)", r"zen.0\1"), (r"\.cal\.", ".smooth.")]) for _ in range(ints(draw, 1, 3))],
                missing=pick(draw, ["raise", "warn", "ignore"]), keep=subset(draw, list(range(12))), all=flag(draw))


def check_rules(case, ctx):
    import warnings
    from hera_cal.lst_stack import io
    tmp = ctx.tmp()
    made = {}

    def full(x):
        return os.path.join(tmp, x) if isinstance(x, str) else [full(y) for y in x]

    def conv(x):
        if not isinstance(x, str):
            return [conv(y) for y in x]
        new = x
        for a, b in case["rules"]:
            new = re.sub(a, b, new)
        if new not in made:
            made[new] = case["all"] or len(made) in case["keep"]
            if made[new]:
                open(new, "w").close()
        return new if made[new] or case["missing"] == "warn" else None
    files = full(case["tree"])
    if any(re.search(a, tmp) for a, b in case["rules"]):
        return
    exp = conv(files)
    keep = copy.deepcopy(files)
    lost = [p for p in made if not made[p]]
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = io.apply_filename_rules(files, [tuple(r) for r in case["rules"]], missing=case["missing"])
    except IOError:
        require(case["missing"] == "raise" and lost, f"IOError although missing={case['missing']!r} and {len(lost)} files are missing")
        ctx.label("raises")
        return
    require(not (case["missing"] == "raise" and lost), f"{lost} are missing, and no error was raised")
    require(got == exp, f"{files} became {got}, expected {exp}")
    require(files == keep, "the list of files was changed")
    require(case["missing"] != "warn" or not lost or any("does not exist" in str(x.message) for x in w), "no warning about missing files")
    ctx.label(case["missing"])
    ctx.nontrivial(len(made) > 1)


SUBS = [
    Sub("grid", gen_grid, check_grid, quick=600, thorough=20000, shards=2),
    Sub("cfg", gen_cfg, check_cfg, quick=200, thorough=4000, shards=8),
    Sub("bls", gen_bls, check_bls, quick=200, thorough=4000, shards=2),
    Sub("rules", gen_rules, check_rules, quick=150, thorough=3000, shards=2),
]
