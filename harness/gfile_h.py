"""Datasets of grids on files: histories of readings, copies, changes and writings; collections of grids by date."""
import os
import random
import shutil
import numpy as np
from netCDF4 import Dataset
from hlib import start, call
from py_eddy_tracker.dataset.grid import RegularGridDataset, GridCollection

NIL = -99999


def mat(a):
    """x first, in quarters"""
    a = np.ma.array(a)
    v = np.where(np.ma.getmaskarray(a) | ~np.isfinite(a.filled(0).astype("f8")), NIL / 4, a.filled(0).astype("f8")) * 4
    return [[int(round(k)) for k in r] for r in v]


def make(rng, name, x, y, nt, turn, integer=True):
    """a file, its content by name [date][x][y]"""
    dx, dy = rng.choice([("lon", "lat"), ("x", "y"), ("longitude", "latitude")])
    vx, vy = (dx, dy) if rng.random() < 0.6 else ("nav_lon", "nav_lat")
    tdim = rng.choice(["time", "t"])
    tv = tdim if rng.random() < 0.6 else "juld"
    F, info = {}, {}
    with Dataset(name, "w") as h:
        h.title = "some grids"
        dims = [(dx, len(x)), (dy, len(y)), (tdim, nt), ("depth", 2)]
        rng.shuffle(dims)
        for d, n in dims:
            h.createDimension(d, n)
        for v, d, c in ((vx, dx, x), (vy, dy, y)):
            w = h.createVariable(v, "i4" if rng.random() < 0.2 else rng.choice(["f4", "f8"]), (d,))
            if w.dtype.kind == "i":
                w.scale_factor, w.add_offset = 0.125, 10.0
            w.units = "degrees"
            w[:] = c
        w = h.createVariable(tv, rng.choice(["f8", "i4"]), (tdim,))
        w[:] = np.arange(nt) + 100
        for v in ("a", "b"):
            order = [dy, dx] if turn[v] else [dx, dy]
            kind = rng.choice(["f4", "f8", "packed", "fill", "nan"] + (["i2"] if integer else []))
            timed = nt > 1 or rng.random() < 0.5
            if timed:
                order.insert(rng.choice([0, 0, 1, 2]), tdim)
            if rng.random() < 0.3:
                order.insert(rng.choice([0, 1, len(order)]), "depth")
            F[v] = []
            kw = dict(fill_value=-999) if kind in ("fill", "packed") else {}
            w = h.createVariable(v, dict(packed="i2", fill="f4", nan="f8").get(kind, kind), order, **kw)
            w.units = rng.choice(["m", "cm", "m/s"])
            if kind == "packed":
                w.scale_factor, w.add_offset = 0.25, 3.0
            for t in range(nt if timed else 1):
                k = np.array([[rng.randint(-300, 300) * (4 if kind == "i2" else 1) for _ in y] for _ in x])
                m = np.array([[rng.random() < 0.15 for _ in y] for _ in x]) if kind != "f8" else np.zeros(k.shape, bool)
                val = np.ma.array(k / 4.0, mask=m)
                if kind == "nan":
                    val = np.where(m, np.nan, k / 4.0)
                F[v].append([[NIL if m[i, j] else int(k[i, j]) for j in range(len(y))] for i in range(len(x))])
                sl = tuple({dx: slice(None), dy: slice(None), tdim: t, "depth": 0}[d] for d in order)
                o2 = [d for d in order if d in (dx, dy)]
                w[sl] = val if o2 == [dx, dy] else val.T
            info[v] = dict(units=w.units)
    return dict(F=F, vx=vx, vy=vy, dx=dx, dy=dy, tdim=tdim, tv=tv, info=info, nan=None)


def pyslice(rng, n):
    a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
    if a == b:
        a, b = 0, n
    return (slice(a if a or rng.random() < 0.5 else None, b if b < n or rng.random() < 0.5 else None), a, b)


def data(rng, sc):
    nt = rng.choice([1, 1, 2, 3])
    x = rng.choice([-5, 0, 100, 350]) + np.arange(rng.randint(3, 6)) * rng.choice([0.25, 0.5, 1])
    y = rng.choice([-30, 0, 40]) + np.arange(rng.randint(3, 5)) * rng.choice([0.25, 0.5])
    nx, ny = len(x), len(y)
    f = make(rng, "d/f.nc", x, y, nt, sc["turn"])
    t = rng.randint(0, nt - 1) if rng.random() < 0.6 else 0
    ind = {}
    if t or rng.random() < 0.3:
        ind[f["tdim"]] = t
    x0, x1, y0, y1 = 0, nx, 0, ny
    if rng.random() < 0.25 and nx > 3:
        x0, x1 = rng.choice([(0, nx - 1), (1, nx)])
        ind[f["dx"]] = slice(x0, x1)
        if rng.random() < 0.5:
            y0 = 1 if ny > 3 else 0
            ind[f["dy"]] = slice(y0, None)
    nan = rng.random() < 0.5
    case = dict(kind="data", F=f["F"], o=dict(t=t, x0=x0, x1=x1, y0=y0, y1=y1), steps=[], exc="")

    def new(name, i=None):
        return RegularGridDataset(name, f["vx"], f["vy"], centered=True, nan_masking=nan, indexs=i)

    g, e = call(new, "d/f.nc", ind or None)
    case["exc"] = e or ""
    if case["exc"]:
        return case
    nw = 0
    described = {"a", "b"}
    sub = bool(set(ind) - {f["tdim"]})
    for op, a, b in sc["ops"]:
        st = dict(op=op, a=a, b=b, t=-1, i=1, j=1, v=0, x0=0, x1=0, y0=0, y1=0, m=[[0]], out=[[0]], exc="", files={}, again={}, cx=[], cy=[], dates=0, units="")
        case["steps"].append(st)
        if op in ("grid", "gridt"):
            k = {}
            if op == "gridt":
                st["t"] = rng.randint(0, nt - 1)
                k = dict(indexs={f["tdim"]: st["t"]})
            r, st["exc"] = call(g.grid, a, **k)
            if not st["exc"]:
                st["out"] = mat(r)
                if a in f["info"]:
                    st["units"] = "same" if g.units(a) == f["info"][a]["units"] else "other"
        elif op == "copy":
            _, st["exc"] = call(g.copy, a, b)
            described.add(b)
            if not st["exc"]:
                st["out"] = mat(g.grid(b))
        elif op == "set":
            st["i"], st["j"], st["v"] = rng.randint(1, x1 - x0), rng.randint(1, y1 - y0), 4 * rng.randint(-200, 200)

            def change():
                r = g.grid(a)
                r[st["i"] - 1, st["j"] - 1] = st["v"] / 4
                return mat(g.grid(a))

            st["out"], st["exc"] = call(change)
            st["out"] = st["out"] or [[0]]
        elif op == "add":
            m = np.array([[rng.randint(-200, 200) for _ in range(y1 - y0)] for _ in range(x1 - x0)])
            st["m"] = (m * 4).tolist()
            # as the grid it takes the place of (order on the disk is known once it was read)
            _, st["exc"] = call(g.grid, a)
            if not st["exc"]:
                g.add_grid(a, np.ma.array(m.astype("f8"), mask=np.zeros(m.shape, bool)))
        elif op == "tile":
            sx, st["x0"], st["x1"] = pyslice(rng, nx)
            sy, st["y0"], st["y1"] = pyslice(rng, ny)
            r, st["exc"] = call(g.grid_tiles, a, sx, sy)
            if not st["exc"]:
                st["out"] = mat(r)
        elif op == "reload":
            def again():
                g.clean()
                g.populate()

            _, st["exc"] = call(again)
        elif op == "write":
            nw += 1
            _, st["exc"] = call(g.write, f"d/w{nw}.nc")
            if not st["exc"]:
                with Dataset(f"d/w{nw}.nc") as h:
                    st["cx"] = [int(round(8 * k)) for k in h.variables[f["vx"]][:]]
                    st["cy"] = [int(round(8 * k)) for k in h.variables[f["vy"]][:]]
                    names = [n for n in h.variables if n not in (f["vx"], f["vy"])]
                    st["title"] = getattr(h, "title", "")
                    for n in names:
                        w = h.variables[n]
                        v = w[:]
                        ax = [k for k, d in enumerate(w.dimensions) if d not in (f["dx"], f["dy"])]
                        st["dates"] = max([st["dates"]] + [v.shape[k] for k in ax])
                        v = v[tuple(0 if k in ax else slice(None) for k in range(v.ndim))]
                        left = [d for d in w.dimensions if d in (f["dx"], f["dy"])]
                        st["files"][n] = mat(v if left == [f["dx"], f["dy"]] else v.T)
                for n in st["files"]:
                    r, e = call(lambda: mat(new(f"d/w{nw}.nc").grid(n)))
                    st["again"][n] = r or [[0]]
                    st["exc"] = st["exc"] or e or ""
        st["exc"] = st["exc"] or ""
        if st["exc"]:
            break
    case["x"], case["y"] = [int(round(8 * k)) for k in x], [int(round(8 * k)) for k in y]
    case["described"] = sorted(described)
    case["sub"] = sub
    return case


def cube(rng, sc):
    nx, ny = rng.randint(4, 6), rng.randint(3, 5)
    dx, dy = rng.choice([0.25, 0.5, 1]), rng.choice([0.25, 0.5])
    x = rng.choice([-5, 0, 100, 345]) + np.arange(nx) * dx
    y = rng.choice([-30, 10, 40]) + np.arange(ny) * dy
    turn = dict(a=rng.random() < 0.5, b=False)
    made = rng.choice(["cube", "list"])
    n = rng.randint(1, 4)
    data, coll, dates, names = [], [], [], []
    uv = rng.random() < 0.3
    kw = dict(centered=True, nan_masking=True)
    if uv:
        kw["heigth"] = "a"
    if made == "cube":
        f = make(rng, "d/c.nc", x, y, n, turn, False)
        data = f["F"]["a"] if len(f["F"]["a"]) == n else f["F"]["a"] * n
        dates = [4 * (100 + i) for i in range(n)]
        build = lambda: GridCollection.from_netcdf_cube("d/c.nc", f["vx"], f["vy"], f["tv"], **kw)
        who = [("d/c.nc", f, i) for i in range(n)]
    else:
        rng_state = rng.getrandbits(40)
        fs = [make(random.Random(rng_state), "d/l0.nc", x, y, 2, turn, False)]
        for i in range(1, n):
            while True:
                g = make(rng, f"d/l{i}.nc", x, y, 2, dict(a=rng.random() < 0.5, b=False), False)
                if (g["vx"], g["vy"], g["tdim"]) == (fs[0]["vx"], fs[0]["vy"], fs[0]["tdim"]):
                    break
            fs.append(g)
        f = fs[0]
        k = rng.randint(0, 1)
        data = [g["F"]["a"][k if len(g["F"]["a"]) > 1 else 0] for g in fs]
        dates = sorted(rng.sample(range(400, 428, rng.choice([1, 2, 4, 4, 4])), n))
        if rng.random() < 0.5:
            dates = [404 + 4 * i for i in range(n)]
            dates[0] -= rng.choice([0, 1, 2, 3])
        build = lambda: GridCollection.from_netcdf_list([f"d/l{i}.nc" for i in range(n)], [z / 4 for z in dates], f["vx"], f["vy"], indexs={f["tdim"]: k}, **kw)
        who = [(f"d/l{i}.nc", f, k) for i in range(n)]
    case = dict(kind="cube", made=made, data=list(data), dates=dates, steps=[], exc="")
    c, e = call(build)
    case["exc"] = e or ""
    if e:
        return case
    clean = False
    cur = list(zip(dates, range(n)))
    for op in sc["ops"]:
        st = dict(op=op, t=0, q=0, i=2, j=2, v=0, n=0, k=0, out=[[0]], seq=[], val=[], pts=[], exc="", uv="")
        case["steps"].append(st)
        ts = [t for t, _ in cur]
        if op in ("get", "set"):
            st["t"] = t = rng.choice(ts + [rng.randint(396, 432)])
            if op == "set":
                st["i"], st["j"], st["v"] = rng.randint(1, nx), rng.randint(1, ny), 4 * rng.randint(-50, 50)

            def get():
                r = c[t / 4].grid("a")
                if op == "set":
                    r[st["i"] - 1, st["j"] - 1] = st["v"] / 4
                return mat(c[t / 4].grid("a"))

            r, st["exc"] = call(get)
            st["out"] = r or [[0]]
            if r and uv and not clean and op == "get":
                w = who[dict(cur)[t]]
                d = RegularGridDataset(w[0], f["vx"], f["vy"], centered=True, nan_masking=True, indexs={f["tdim"]: w[2]})
                d.add_uv("a")
                eq, e = call(lambda: all(np.array_equal(np.ma.filled(d.grid(z), 777), np.ma.filled(c[t / 4].grid(z), 777), equal_nan=True) for z in ("u", "v")))
                st["uv"] = "same" if eq else "other"
        elif op == "reset":
            st["n"] = rng.choice([-1, 0, 1, 2, 5])
            _, st["exc"] = call(c.reset_grids, None if st["n"] < 0 else st["n"])
            clean = True
        elif op == "interp":
            st["t"] = 4 * (rng.choice(ts) // 4 + rng.choice([0, 0, 0, -1]))
            good = [z for z in ts if z + 4 in ts and z % 4 == 0]
            if good and rng.random() < 0.6:
                st["t"] = rng.choice(good)
            st["q"] = rng.choice([1, 2, 3])
            pts = [(rng.randint(1, nx - 2), rng.randint(1, ny - 2)) for _ in range(4)]
            st["pts"] = [[a + 1, b + 1] for a, b in pts]
            X = np.array([x[a] + rng.uniform(-0.3, 0.3) * dx for a, b in pts])
            Y = np.array([y[b] + rng.uniform(-0.3, 0.3) * dy for a, b in pts])
            r, st["exc"] = call(c.interp, "a", (st["t"] + st["q"]) / 4, X, Y, method="nearest")
            if r is not None:
                st["val"] = [NIL if np.isnan(z) else int(round(16 * z)) for z in r]
        elif op == "shift":
            i = len(who)
            while True:
                g = make(rng, f"d/s{i}.nc", x, y, 1, dict(a=rng.random() < 0.5, b=False), False)
                if (g["vx"], g["vy"]) == (f["vx"], f["vy"]):
                    break
            g["tdim"] = f["tdim"]
            case["data"].append(g["F"]["a"][0])
            st["t"], st["k"] = max(ts) + rng.choice([4, 4, 8, 2]), len(case["data"])
            who.append((f"d/s{i}.nc", g, 0))
            k = dict(x_name=f["vx"], y_name=f["vy"], centered=True, nan_masking=True)
            if uv:
                k["heigth"] = "a"
            _, st["exc"] = call(c.shift_files, st["t"] / 4, f"d/s{i}.nc", **k)
            cur = cur[1:] + [(st["t"], len(who) - 1)]
        elif op in ("next", "prev"):
            st["t"] = rng.randint(min(ts) - 2, max(ts) + 2)
            r, st["exc"] = call(lambda: [int(4 * t) for t, d in (c.get_next_time_step if op == "next" else c.get_previous_time_step)(st["t"] / 4)])
            st["seq"] = r or []
        elif op == "times":
            r, st["exc"] = call(lambda: ([int(4 * t) for t in c.time], [int(4 * t) for t in c.period], int(c.are_loaded.sum())))
            if r:
                st["seq"], st["val"], st["n"] = r
        st["exc"] = st["exc"] or ""
        if st["exc"] and not st["exc"].startswith("KeyError"):
            break
    return case


COPS = ["get", "set", "reset", "interp", "shift", "next", "prev", "times"]

if __name__ == "__main__":
    req, rec = start()
    rng = random.Random(req["seed"])
    OPS = [["grid", "a", ""], ["grid", "b", ""], ["copy", "a", "c"], ["copy", "b", "c"], ["set", "a", ""], ["set", "b", ""], ["tile", "a", ""], ["tile", "b", ""], ["write", "", ""], ["reload", "", ""],
           ["gridt", "a", ""], ["gridt", "b", ""], ["add", "a", ""], ["copy", "c", "d"], ["set", "c", ""], ["set", "d", ""], ["grid", "d", ""]]
    for sc in req["scenarios"]:
        rec.begin(sc["kind"])
        seed = int(sc.get("scn", rng.getrandbits(60)))
        r = random.Random(seed)
        shutil.rmtree("d", ignore_errors=True)
        os.makedirs("d")
        if sc["kind"] == "data":
            if "ops" not in sc:
                ops, have = [], {"a", "b"}
                while len(ops) < r.randint(3, 9):
                    o = r.choice(OPS)
                    if o[1] and o[1] not in have:
                        continue
                    if o[0] == "copy":
                        have.add(o[2])
                    if o[0] == "reload":
                        have = {"a", "b"}
                    ops.append(o)
                sc = dict(sc, turn=dict(a=r.random() < 0.5, b=r.random() < 0.5), ops=ops + [["write", "", ""]])
            c = data(r, sc)
        else:
            if "ops" not in sc:
                sc = dict(sc, ops=[r.choice(COPS + ["get"]) for _ in range(r.randint(2, 9))])
            c = cube(r, sc)
        rec.put(dict(c, scn=str(seed)))
    shutil.rmtree("d", ignore_errors=True)
    rec.end()
