"""Observations on grids: counts by contour or by centre, statistics by box, values of a grid in contours."""
import os
import random
import shutil
import sys
import numpy as np
from netCDF4 import Dataset
from hlib import start, call
from geo_h import build, rand_poly, anywhere, bare
from py_eddy_tracker.dataset.grid import RegularGridDataset
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.appli.eddies import get_frequency_grid


def axes(rng, circ):
    """first node, step, number (halves of degree)"""
    if circ:
        s = rng.choice([4, 8])
        ax = dict(a=rng.choice([-360, 0, 0, -40]), s=s, n=720 // s)
    else:
        s = rng.choice([1, 2, 2, 4])
        ax = dict(a=rng.choice([-10, 0, 0, 2, 690]) + rng.randint(0, 8), s=s, n=rng.randint(2, 24 if s < 4 else 14))
    if s > 1:
        ax["a"] -= ax["a"] % 2
    sy = rng.choice([1, 2, 2])
    ay = dict(a=rng.randint(-14, 2), s=sy, n=rng.randint(2, 16))
    if sy > 1:
        ay["a"] -= ay["a"] % 2
    return ax, ay


def bins(a):
    b = (a["a"] - a["s"] / 2) / 2
    return (b, b + a["s"] / 2 * (a["n"] + 0.25), a["s"] / 2)


def selection(rng, n):
    """the filter, rows"""
    k = rng.choice(["all", "all", "mask", "index", "slice", "none", "call"])
    if k == "mask":
        m = np.array([rng.random() < 0.6 for _ in range(n)], dtype=bool)
        return m, [i for i in range(n) if m[i]]
    if k == "index":
        i = [rng.randrange(n) for _ in range(rng.randint(0, n))] if n else []
        i = sorted(set(i), key=lambda _: rng.random())
        return np.array(i, dtype=int), i
    if k == "slice":
        a = rng.randint(0, n)
        return slice(a, None), list(range(a, n))
    if k == "none":
        return None, list(range(n))
    if k == "call":
        return (lambda o: np.arange(len(o)) % 2 == 0), list(range(0, n, 2))
    return slice(None), list(range(n))


def eddies(rng, ax, n=None):
    lo, hi = ax["a"] // 2 - 4, (ax["a"] + ax["s"] * ax["n"]) // 2
    P = [rand_poly(rng, lo, max(hi - lo, 1)) for _ in range(rng.choice([0, 1, 2, 4, 6]) if n is None else n)]
    return anywhere(rng, P, [-1, 0, 0, 1])


def table(rng, P, intern):
    """the contours, longitudes of the centres written with any turn"""
    e = build(rng, P, intern)
    e.obs["lon"] += np.array([rng.choice([-360, 0, 0, 360]) for _ in P])
    return e


def cells(g, name):
    v = g.vars[name]
    m = np.ma.getmaskarray(v)
    i, j = np.where(~m)
    return [(int(a), int(b), v.data[a, b]) for a, b in zip(i, j)], bool((np.asarray(v.data)[m] == 0).all())


def good(g, ax, ay, name=("lon", "lat"), shift=0.):
    x, y = g.vars[name[0]], g.vars[name[1]]
    return bool(len(x) == ax["n"] and len(y) == ay["n"] and np.allclose(x, (ax["a"] + ax["s"] * np.arange(ax["n"])) / 2 + shift * ax["s"] / 2) and np.allclose(y, (ay["a"] + ay["s"] * np.arange(ay["n"])) / 2 + shift * ay["s"] / 2))


def count(rng):
    ax, ay = axes(rng, rng.random() < 0.35)
    P = eddies(rng, ax)
    intern = rng.random() < 0.4
    e = table(rng, P, intern)
    b = (bins(ax), bins(ay))
    c = dict(kind="count", ax=ax, ay=ay, exc="", out=[], clean=True, axes=True)
    if P and rng.random() < 0.12:
        # longitudes of contours that files may hold: -147 .. 507
        for q in P:
            q["turn"] = 1 if q["x"] < -140 else -1 if q["x"] > 450 else 0
        e = table(rng, P, intern)
        c["P"] = bare(P)
        e.write_file(filename="d/e.nc")
        old, sys.argv = sys.argv, ["x", "d/e.nc", "d/g.nc", "--xrange"] + [str(k) for k in b[0]] + ["--yrange"] + [str(k) for k in b[1]] + (["--intern"] if intern else [])
        _, exc = call(get_frequency_grid)
        sys.argv = old
        if not exc:
            with Dataset("d/g.nc") as h:
                v = h.variables["count"][:]
                if h.variables["count"].dimensions != ("lon", "lat"):
                    v = v.T
                m = np.ma.getmaskarray(v)
                c["out"] = [[int(i) + 1, int(j) + 1, int(v[i, j])] for i, j in zip(*np.where(~m))]
                g = lambda: 0  # noqa
                g.vars = {k: h.variables[k][:] for k in ("lon", "lat")}
                c["axes"] = good(g, ax, ay)
    else:
        f, rows = selection(rng, len(P))
        c["P"] = bare([P[i] for i in rows])
        g, exc = call(e.grid_count, b, intern=intern, filter=f)
        if not exc:
            out, c["clean"] = cells(g, "count")
            c["out"] = [[i + 1, j + 1, int(v)] for i, j, v in out]
            c["axes"] = good(g, ax, ay)
    c["exc"] = exc or ""
    return c


def boxes(rng, what):
    circ = rng.random() < 0.35
    ax, ay = axes(rng, circ)
    n = rng.choice([0, 1, 2, 3, 5, 9, 14])
    # boxes in eighths: from the side of the first node
    A = dict(a=4 * ax["a"] - 2 * ax["s"], s=4 * ax["s"], n=ax["n"])
    B = dict(a=4 * ay["a"] - 2 * ay["s"], s=4 * ay["s"], n=ay["n"])
    out = rng.random() < 0.3
    O = []
    spots = []
    for _ in range(n):
        if spots and rng.random() < 0.5:
            x, y = rng.choice(spots)
            x, y = x - (x - A["a"]) % A["s"] + rng.randrange(A["s"]), y - (y - B["a"]) % B["s"] + rng.randrange(B["s"])
        else:
            x, y = A["a"] + rng.randrange(A["s"] * A["n"]), B["a"] + rng.randrange(B["s"] * B["n"])
            if out and rng.random() < 0.5:
                x, y = A["a"] + rng.randint(-20, A["s"] * A["n"] + 20), B["a"] + rng.randint(-20, B["s"] * B["n"] + 20)
        spots.append((x, y))
        O.append([x, y, rng.randint(-60, 60)])
    e = EddiesObservations(n, track_extra_variables=["amplitude"])
    e.sign_type = 1
    turn = np.array([rng.choice([-360, 0, 0, 360]) for _ in O])
    for f in e.obs.dtype.names:
        e.obs[f] = 0
    if n:
        e.obs["lon"], e.obs["lat"] = np.array([o[0] for o in O]) / 8 + turn, np.array([o[1] for o in O]) / 8
        e.obs["amplitude"] = [o[2] for o in O]
    b = (bins(ax), bins(ay))
    c = dict(kind=what, ax=A, ay=B, exc="", out=[], clean=True, axes=True, p=0)
    rows = list(range(n))
    data = None
    if what == "centre":
        f, rows = selection(rng, n)
        g, exc = call(e.grid_count, b, center=True, filter=f, intern=rng.random() < 0.5)
        name, ax_names, sh, scale = "count", ("lon", "lat"), 0, 1
    else:
        k = {}
        if rng.random() < 0.5:
            data = e.obs["amplitude"].astype("f8")
            e.obs["amplitude"] = 7
            if rng.random() < 0.6:
                m = np.array([rng.random() < 0.3 for _ in range(n)], dtype=bool)
                data = np.ma.array(data, mask=m)
                rows = [i for i in rows if not m[i]]
            elif rng.random() < 0.3:
                data = np.ma.array(data)
            k["data"] = data
        if what == "box":
            f, sel = selection(rng, n)
            rows = [i for i in rows if i in sel]
            c["p"] = rng.choice([0, 25, 50, 50, 75, 100])
            if c["p"] != 50 or rng.random() < 0.5:
                k["method"] = c["p"]
            g, exc = call(e.grid_box_stat, b, "amplitude", filter=f, **k)
            scale = 4
        else:
            g, exc = call(e.grid_stat, b, "amplitude", **k)
            scale = 100
        name, ax_names, sh = "amplitude", ("x", "y"), -0.5
    c["O"] = [O[i] for i in rows]
    if not exc:
        out, c["clean"] = cells(g, name)
        c["out"] = [[i + 1, j + 1, int(round(float(v) * scale))] for i, j, v in out]
        c["axes"] = good(g, ax, ay, ax_names, sh)
    c["exc"] = exc or ""
    return c


def interp(rng):
    ax, ay = axes(rng, rng.random() < 0.35)
    P = eddies(rng, ax)
    intern = rng.random() < 0.4
    e = table(rng, P, intern)
    f = [[rng.randint(-90, 90) for _ in range(ay["n"])] for _ in range(ax["n"])]
    p = rng.choice([0, 0.2, 0.6])
    m = [[int(rng.random() < p) for _ in range(ay["n"])] for _ in range(ax["n"])]
    c = dict(kind="interp", ax=ax, ay=ay, f=f, m=m, method=rng.choice(["mean", "mean", "max", "min", "count"]), exc="", out=[])
    z = np.array(f, dtype=rng.choice(["f4", "f8"]))
    z = np.ma.array(z, mask=np.array(m, dtype=bool)) if p else rng.choice([np.ma.array(z, mask=np.array(m, dtype=bool)), np.ma.array(z), z])
    d = RegularGridDataset.with_array(coordinates=("x", "y"), centered=True, datas=dict(x=(ax["a"] + ax["s"] * np.arange(ax["n"])) / 2, y=(ay["a"] + ay["s"] * np.arange(ay["n"])) / 2, z=z))
    i, rows = selection(rng, len(P))
    while callable(i):
        i, rows = selection(rng, len(P))
    k = {}
    if intern or rng.random() < 0.5:
        k["intern"] = intern
    if rng.random() < 0.3:
        k["dtype"] = "f8"
    r, exc = call(e.interp_grid, d, "z", i=i, method=c["method"], **k)
    c["P"] = bare([P[q] for q in rows])
    if not exc:
        c["out"] = [-99999 if not np.isfinite(v) else int(round(100 * max(min(float(v), 1e6), -1e6))) for v in r]
    c["exc"] = exc or ""
    return c


if __name__ == "__main__":
    req, rec = start()
    rng = random.Random(req["seed"])
    for sc in req["scenarios"]:
        rec.begin(sc["kind"])
        seed = int(sc.get("scn", rng.getrandbits(60)))
        r = random.Random(seed)
        shutil.rmtree("d", ignore_errors=True)
        os.makedirs("d")
        k = sc["kind"]
        c = count(r) if k == "count" else interp(r) if k == "interp" else boxes(r, k)
        rec.put(dict(c, scn=str(seed)))
    shutil.rmtree("d", ignore_errors=True)
    rec.end()
