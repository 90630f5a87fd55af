"""Drives Correspondances (tracking, saving, resuming, merging) on synthetic files."""
import os
import random
import numpy as np
from hlib import start, call, WORK
import tk_lib
from tk_lib import MemObs, MemArea, REG, build, DAY0, uid_of
from py_eddy_tracker.tracking import Correspondances
from netCDF4 import default_fillvals

CLS = dict(default=MemObs, area=MemArea)


def links_of(c):
    out = []
    for L in list(c):
        names = L.dtype.names
        out.append([
            dict(id=int(r["id"]), out=int(r["out"]), v=bool(r["virtual"]) if "virtual" in names else False,
                 vl=(int(r["virtual_length"]) if "virtual" in names and r["virtual"] else 0),
                 c=int(round(float(r["cost_value"]) * 1000)), **{"in": int(r["in"])})
            for r in L])
    return out


class Src:
    """Reference content of all files: used to recognise rows."""

    def __init__(self, files):
        self.files = files  # list of EddiesObservations
        self.by_uid = {}
        for f, e in enumerate(files):
            for i in range(len(e)):
                self.by_uid[(int(round(float(e.obs["time"][i]) - DAY0)), int(e.obs["num_point_e"][i]))] = (f, i)

    def locate(self, obs, names, skip=()):
        """obs: structured row"""
        key = (int(round(float(obs["time"]) - DAY0)), int(obs["num_point_e"]))
        if float(obs["time"]) == 0:
            zero = all(np.all(obs[n] == 0) for n in names if n not in skip)
            return (-1, -1) if zero else (-2, -2)
        if key not in self.by_uid:
            return (-2, -2)
        f, i = self.by_uid[key]
        e = self.files[f]
        for n in e.fields:
            if n in skip:
                continue
            if n not in names or not np.array_equal(np.asarray(e.obs[n][i], dtype="f8"), np.asarray(obs[n], dtype="f8")):
                return (-2, -2)
        return (f, i)


def table_of(t, src):
    rows = []
    names = t.obs.dtype.names
    own = ("track", "n", "virtual", "cost_association")
    fill = default_fillvals["f4"]
    for o in t.obs:
        f, i = src.locate(o, names, skip=own)
        c = float(o["cost_association"])
        rows.append(dict(t=int(o["track"]), n=int(o["n"]), f=f, src=i,
                         c=-1 if c == np.float32(fill) else int(round(c * 1000))))
    return rows


def unused_of(u, src):
    return [list(src.locate(o, u.obs.dtype.names)) for o in u.obs]


def make_files(sc, cls):
    """sc: list (per file) of list of (lon, lat)"""
    REG.clear()
    names = []
    for f, pos in enumerate(sc):
        name = f"mem:{f:04d}"
        REG[name] = build(cls, f, pos)
        names.append(name)
    return names


def expand(sc):
    """compact description of large histories"""
    if "big" in sc:
        b = sc["big"]
        if b == "wide":      # many eddies by file
            sc["pres"] = [list(range(sc["n"])) for _ in range(3)]
        elif b == "long":    # a long track
            sc["pres"] = [[0] if f < sc["n"] else [] for f in range(sc["n"] + 1)]
        elif b == "gap":     # a long gap, bridged or not
            sc["pres"] = [[0], [0]] + [[] for _ in range(sc["n"])] + [[0], [0]]
    return sc


def lane_positions(pres, rng, drift=True, shuffle=True):
    """pres: list per file of lanes present -> positions and lane of each row"""
    nl = 1 + max([max(p) for p in pres if p] or [0])
    vel = [rng.choice([-0.3, -0.1, 0, 0.1, 0.3]) if drift else 0.0 for _ in range(nl)]
    x0 = [rng.choice([10.0, 359.5, 0.4, 180.0]) for _ in range(nl)]
    files, lanes = [], []
    if len(pres) > 30:
        vel = [0.0] * nl
    if nl > 20:
        # too many for one by latitude: spread in longitude too
        def place(k, f):
            return ((x0[0] + (k // 20) * 6) % 360, -38.0 + 4 * (k % 20))
        for f, p in enumerate(pres):
            p = list(p)
            rng.shuffle(p)
            files.append([place(k, f) for k in p])
            lanes.append(p)
        return files, lanes
    for f, p in enumerate(pres):
        p = list(p)
        if shuffle:
            rng.shuffle(p)
        files.append([((x0[k] + f * vel[k]) % 360, -6.0 + 4 * k) for k in p])
        lanes.append(p)
    return files, lanes


def random_positions(rng, nfile, nmax, dense):
    """a crowd: many candidates, so that conflicts, deaths, bridges and births mix"""
    lon0 = rng.choice([10.0, 359.4, 180.0])
    lat0 = rng.choice([0.0, 35.0, -50.0])
    files = []
    for f in range(nfile):
        n = 0 if rng.random() < 0.08 else rng.randint(0, nmax)
        files.append([((lon0 + rng.randint(0, dense) * 0.41 + rng.random() * 0.05) % 360,
                       lat0 + rng.randint(0, dense) * 0.31 + rng.random() * 0.05) for _ in range(n)])
    return files


def run(names, V, cls, **kw):
    c = Correspondances(datasets=list(names), virtual=V, class_method=cls, **kw)
    c.track()
    return c


def base_case(names, V, c):
    return dict(V=V, n0=len(REG[names[0]]),
                ev=[dict(n=len(REG[names[k + 1]]), links=L) for k, L in enumerate(links_of(c))],
                nfiles=len(names))


def do_scenario(sc, rec, want, rng):
    cls = CLS[sc.get("cls", "default")]
    V = sc["V"]
    rng = random.Random(str(sc["seed"])) if "seed" in sc else rng
    lanes = None
    full = expand(dict(sc))
    if "pres" in full:
        pos, lanes = lane_positions(full["pres"], rng, drift=sc.get("cls", "default") == "default")
    elif "pos" in sc:
        pos = sc["pos"]
    else:
        pos = random_positions(rng, sc["nfile"], sc["nmax"], sc["dense"])
    names = make_files(pos, cls)
    kw = dict(class_kw=dict(cmin=sc["cmin"])) if "cmin" in sc else {}
    src = Src([REG[n] for n in names])
    meta = dict(kind=sc["kind"], scenario={k: v for k, v in sc.items() if k != "kind"})
    rec.begin(meta)
    c, e = call(run, names, V, cls, **kw)
    if e:
        rec.put(dict(meta, V=V, n0=len(REG[names[0]]), ev=[], nfiles=len(names), exc=e, fin={"none": 0}))
        return
    case = dict(meta, **base_case(names, V, c), exc="")
    fin = {}
    if lanes is not None:
        fin["lanes"] = [[int(k) for k in p] for p in lanes]

    def err(e):
        case["exc"] = case["exc"] or e

    if "table" in want:
        def f():
            c.prepare_merging()
            t = c.merge(raw_data=False)
            return table_of(t, src)
        t, e = call(f)
        fin["tab"] = t if e is None else []
        if e:
            err("merge:" + e)
        if sc.get("twice"):
            t, e = call(f)
            fin["tab_again"] = t if e is None else []
            if e:
                err("merge:" + e)
    if "split" in want:
        L = sc["size"]
        fin["size"] = L

        def f():
            c.prepare_merging()
            s = c._copy()
            s.shorter_than(size_max=L)
            ts = table_of(s.merge(raw_data=False), src)
            if c.longer_than(size_min=L) is False:
                tl = []
            else:
                tl = table_of(c.merge(raw_data=False), src)
            return ts, tl
        u, e = call(lambda: unused_of(c.get_unused_data(), src))
        fin["unused"] = u if e is None else []
        if e:
            err("unused:" + e)
        r, e = call(f)
        fin["short"], fin["long"] = r if e is None else ([], [])
        if e:
            err("split:" + e)
    if "resume" in want:
        cut = sc["cut"]
        whole = case["ev"]

        def f():
            stops = sorted(set(cut)) if isinstance(cut, list) else [cut]
            prev = {}
            for k, stop in enumerate(stops):
                a = run(names[:stop], V, cls, **kw, **prev)
                path = os.path.join(WORK, f"cor_{rec.n}_{k}.nc")
                a.save(path)
                prev = dict(previous_correspondance=path)
            return run(names, V, cls, **kw, **prev)
        b, e = call(f)
        if e:
            err("resume:" + e)
            fin["other"] = []
        else:
            case.update(base_case(names, V, b))
            fin["other"] = whole
            b2, e2 = call(lambda: (b.prepare_merging(), table_of(b.merge(raw_data=False), src))[1])
            fin["tab"] = b2 if e2 is None else []
            if e2:
                err("merge:" + e2)
    if "reload" in want:
        whole = case["ev"]

        def f():
            path = os.path.join(WORK, f"cor_{rec.n}.nc")
            c.save(path)
            b = Correspondances.load(path)
            os.remove(path)
            return b
        b, e = call(f)
        if e:
            err("reload:" + e)
            fin["other"] = []
        else:
            case["ev"] = [dict(n=len(REG[names[k + 1]]), links=L) for k, L in enumerate(links_of(b))]
            fin["other"] = whole
            fin["attrs"] = [
                [int(c.current_id), int(b.current_id)],
                [int(c.nb_virtual), int(b.nb_virtual)],
                [int(bool(c.virtual)), int(bool(b.virtual))],
                [0, int(b.class_method is not c.class_method)],
                [0, int(dict(b.class_kw) != kw.get("class_kw", {}))],
                [0, int([str(d) for d in b.datasets] != [str(d) for d in c.datasets])],
                [1, int(max(b.nb_link_max, 0) >= max([len(x) for x in b] or [0]))],
            ]
            b2, e2 = call(lambda: (b.prepare_merging(), table_of(b.merge(raw_data=False), src))[1])
            fin["tab"] = b2 if e2 is None else []
            if e2:
                err("reload-merge:" + e2)
            # a second save/load of the loaded object gives the same again
            def g():
                path = os.path.join(WORK, f"cor2_{rec.n}.nc")
                b.save(path)
                b3 = Correspondances.load(path)
                os.remove(path)
                return [dict(n=len(REG[names[k + 1]]), links=L) for k, L in enumerate(links_of(b3))]
            g3, e3 = call(g)
            fin["again"] = g3 if e3 is None else []
            if e3:
                err("reload2:" + e3)
    if "join" in want:
        whole = case["ev"]
        a0, b0 = sc["a_stop"], sc["b_start"]   # run A covers files[:a_stop], run B files[b_start:]

        def f():
            a = run(names[:a0], V, cls, **kw)
            b = run(names[b0:], V, cls, **kw)
            # as EddyMergeCorrespondances does: both come from files
            if sc.get("via_file"):
                for k, x in (("a", a), ("b", b)):
                    x.save(os.path.join(WORK, f"{k}_{rec.n}.nc"))
                a = Correspondances.load(os.path.join(WORK, f"a_{rec.n}.nc"))
                b = Correspondances.load(os.path.join(WORK, f"b_{rec.n}.nc"))
            bev = [dict(n=len(REG[names[k + b0 + 1]]), links=L) for k, L in enumerate(links_of(b))]
            a.merge_correspondance(b)
            return a, bev
        r, e = call(f)
        b, bev = r if r else (None, None)
        if e:
            err("join:" + e)
            fin["other"] = []
        else:
            case["ev"] = [dict(n=len(REG[names[k + 1]]), links=L) for k, L in enumerate(links_of(b))]
            fin["whole"], fin["b"], fin["b0"], fin["a_stop"] = whole, bev, b0, a0
            fin["bn0"] = len(REG[names[b0]])
            fin["attrs"] = [[0, int([str(d) for d in b.datasets] != list(names))], [len(b), len(names) - 1]]
            b2, e2 = call(lambda: (b.prepare_merging(), table_of(b.merge(raw_data=False), src))[1])
            fin["tab"] = b2 if e2 is None else []
            if e2:
                err("join-merge:" + e2)
            if sc.get("via_file"):
                def g():
                    path = os.path.join(WORK, f"j_{rec.n}.nc")
                    b.save(path)
                    b3 = Correspondances.load(path)
                    return [dict(n=len(REG[names[k + 1]]), links=L) for k, L in enumerate(links_of(b3))]
                g3, e3 = call(g)
                fin["again"] = g3 if e3 is None else []
                if e3:
                    err("join-save:" + e3)
    if not fin:
        fin["none"] = 0
    case["fin"] = fin
    rec.put(case)


def main():
    req, rec = start()
    for k, sc in enumerate(req["scenarios"]):
        do_scenario(sc, rec, req["want"], random.Random(f"{req['seed']}/{k}"))
    rec.end()


if __name__ == "__main__":
    main()
