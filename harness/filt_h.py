"""Filters of grids: any kernel, the ones of the library, operations which use them, the filtering application."""
import os
import random
import shutil
import sys
from math import ceil
import numpy as np
from netCDF4 import Dataset
from scipy.special import j1
from hlib import start, call
from py_eddy_tracker.dataset.grid import RegularGridDataset
from py_eddy_tracker.appli.grid import grid_filtering

R = 6370997.0


def dist(lon0, lat0, lon1, lat1):
    a = np.sin(np.radians(lat1 - lat0) / 2) ** 2 + np.cos(np.radians(lat0)) * np.cos(np.radians(lat1)) * np.sin(np.radians(lon1 - lon0) / 2) ** 2
    a = np.clip(a, 0, 1)
    return 2 * R * np.arctan2(a**0.5, (1 - a) ** 0.5) / 1000


def field(rng, nx, ny, p):
    f = [[rng.randint(-9, 9) for _ in range(ny)] for _ in range(nx)]
    m = [[int(rng.random() < p) for _ in range(ny)] for _ in range(nx)]
    if rng.random() < 0.3:
        j = rng.randrange(ny)
        for i in range(nx):
            m[i][j] = 1
    return f, m


def dataset(rng, x, y, f, m, dtype, file=False):
    z = np.ma.array(np.array(f, dtype=dtype), mask=np.array(m, dtype=bool))
    if not any(map(any, m)) and rng.random() < 0.5:
        z = np.ma.array(np.array(f, dtype=dtype))
    z.data[z.mask] = rng.choice([0, 1e3])
    if not file:
        return RegularGridDataset.with_array(coordinates=("x", "y"), centered=True, datas=dict(x=np.array(x), y=np.array(y), z=z.copy()))
    with Dataset("d/in.nc", "w") as h:
        h.createDimension("x", len(x)), h.createDimension("y", len(y))
        h.createVariable("x", "f8", ("x",))[:] = x
        h.createVariable("y", "f8", ("y",))[:] = y
        t = rng.random() < 0.5
        v = h.createVariable("z", dtype, ("y", "x") if t else ("x", "y"), fill_value=-999)
        v[:] = z.T if t else z
    return RegularGridDataset("d/in.nc", "x", "y", centered=True)


def ints(a, scale=100):
    a = np.ma.asanyarray(a)
    v = np.ma.getdata(a).astype("f8")
    bad = np.ma.getmaskarray(a) | ~np.isfinite(v)
    v = np.where(bad, 0, v)
    return [[-999999 if b else int(round(max(min(q * scale, 900000), -900000))) for q, b in zip(r, s)] for r, s in zip(v, bad)]


def custom(rng):
    circ = rng.random() < 0.5
    if circ:
        nx = rng.choice([4, 5, 6, 8, 12])
        x = [rng.choice([-180, 0, 30]) + 360.0 / nx * k for k in range(1)]
        x = [x[0] + 360.0 / nx * k for k in range(nx)]
    else:
        nx = rng.randint(2, 10)
        x0, s = rng.choice([-30, 0, 170, 350]), rng.choice([0.25, 1, 2])
        x = [x0 + s * k for k in range(nx)]
    ny = rng.randint(2, 8)
    y0, s = rng.choice([-80, -60, -5, 0, 40, 78]), rng.choice([0.5, 1, 2])
    y = [y0 + s * k for k in range(ny)]
    if rng.random() < 0.3:
        y = [v - y[-1] for v in y] if rng.random() < 0.5 else [v - sum(y) / ny for v in y]
    f, m = field(rng, nx, ny, rng.choice([0, 0.2, 0.5]))
    extend = rng.choice([0, 0, 0, 1, 2, 3, 4])
    lat_max = rng.choice([85, 85, 60, 3])
    c = dict(kind="custom", f=f, m=m, circ=circ, on=[abs(v) <= lat_max for v in y], extend=extend, exc="", out=[], shape=True, kept=True)
    neg = rng.random() < 0.3 and not extend
    K = []
    for j in range(ny):
        a, b = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2])
        if circ and rng.random() < 0.15:
            a = rng.randint(1, nx + 1)
        # larger kernels are summed with a rounding
        a = min(a, 4) if not circ or extend else a
        k = [[rng.randint(-1 if neg else 0, 4) for _ in range(2 * b + 1)] for _ in range(2 * a + 1)]
        k[a][b] = sum(1 for r in k for v in r if v < 0) * 2 + rng.randint(1, 5)
        K.append(k)
    c["K"] = K
    near = {}

    def kernel(lat, **kw):
        near[float(lat)] = kw
        return np.array(K[int(np.argmin(np.abs(np.array(y) - lat)))], dtype="f8")

    dtype = rng.choice(["f4", "f8"])
    d = dataset(rng, x, y, f, m, dtype, rng.random() < 0.2)
    before = d.grid("z").copy()
    kw = {}
    if lat_max != 85 or rng.random() < 0.5:
        kw["lat_max"] = lat_max
    if extend:
        kw["extend"] = extend / 4
    g = "z" if rng.random() < 0.7 else d.grid("z")
    r, exc = call(d.convolve_filter_with_dynamic_kernel, g, kernel, **kw)
    c["exc"] = exc or ""
    if not exc:
        c["shape"] = r.shape == (nx, ny) and r.dtype == np.dtype(dtype)
        c["out"] = ints(r)
        c["kept"] = bool((before.data == d.grid("z").data).all() and (np.ma.getmaskarray(before) == np.ma.getmaskarray(d.grid("z"))).all())
    return c


def place(rng):
    circ = rng.random() < 0.4
    if circ:
        nx = rng.choice([18, 24, 36])
        s = 360.0 / nx
        x0 = rng.choice([-180, 0, 30])
        sy = rng.choice([s / 2, s, 5])
    else:
        nx = rng.randint(4, 11)
        s = rng.choice([0.25, 1, 1, 2])
        x0 = rng.choice([-30, 0, 170, 350])
        sy = rng.choice([s, s, s / 2, 1.5 * s])
    ny = rng.randint(3, 8)
    y0 = rng.choice([-75, -60, -5, 0, 40, 75])
    while y0 + sy * ny > 88:
        y0 -= 1
    return [x0 + s * k for k in range(nx)], [y0 + sy * k for k in range(ny)], circ, s, sy


def operation(rng):
    x, y, circ, s, sy = place(rng)
    f, m = field(rng, len(x), len(y), rng.choice([0, 0.2, 0.4]))
    lat_max = rng.choice([85, 85, 50])
    op = rng.choice(["low", "high", "high", "band"])
    who = rng.choice(["bessel", "bessel", "lanczos", "bare", "app"]) if op != "band" else "bessel"
    if who == "app":
        lat_max = 85
    on = [abs(v) <= lat_max for v in y]
    step = max([dist(0, 0, 0, 1) * sy] + [dist(0, v, 1, v) * s for v, o in zip(y, on) if o])
    wl = float(int(step * rng.uniform(2.05, 3.5)) + 1)
    wl2 = float(int(wl * rng.uniform(1.05, 1.6)))
    order = rng.choice([1, 1, 2, 3])
    file = who == "app" or rng.random() < 0.3
    seed = rng.getrandbits(60)
    c = dict(kind="op", f=f, m=m, circ=circ, on=on, op=op, exc="", out=[], file=True)

    def new():
        return dataset(random.Random(seed), x, y, f, m, "f8", file)

    kw = dict(order=order) if order != 1 or rng.random() < 0.5 else {}
    if lat_max != 85:
        kw["lat_max"] = lat_max
    ref = new()
    kernel = ref.kernel_lanczos if who == "lanczos" else ref.kernel_bessel
    low, exc = call(ref.convolve_filter_with_dynamic_kernel, "z", kernel, wave_length=wl, order=order, lat_max=lat_max)
    if not exc:
        c["low"] = ints(low)
        if op == "band":
            ref.vars["z"] = low
            low2, exc = call(ref.convolve_filter_with_dynamic_kernel, "z", kernel, wave_length=wl2, order=order, lat_max=lat_max)
            c["low2"] = [] if exc else ints(low2)
    if exc:
        return dict(c, exc=exc)
    c["K"] = [ints(kernel(v, wl, order), 1000) if o else [] for v, o in zip(y, on)]
    c["pts"] = [[rng.randint(1, len(x)), rng.randint(1, len(y))] for _ in range(10)]
    c["pts"] = [p for p in c["pts"] if on[p[1] - 1] and not all(r[p[1] - 1] for r in m) and not m[p[0] - 1][p[1] - 1]]
    if who == "app":
        new()
        old, sys.argv = sys.argv, ["x", "d/in.nc", "z", "x", "y", "d/out.nc", "--cut_wavelength", str(wl), "--filter_order", str(order)] + (["--low"] if op == "low" else [])
        _, exc = call(grid_filtering)
        sys.argv = old
        if not exc:
            o = RegularGridDataset("d/out.nc", "x", "y", centered=True)
            c["out"] = ints(o.grid("z"))
            c["file"] = bool(np.allclose(o.x_c, x) and np.allclose(o.y_c, y))
    else:
        d = new()
        if op == "band":
            _, exc = call(d.bessel_band_filter, "z", wl, wl2, **kw)
        else:
            if who == "bare":
                d.grid("z")
            _, exc = call(getattr(d, (who + "_" if who != "bare" else "") + op + "_filter"), "z", wl, **kw)
        if not exc:
            c["out"] = ints(d.grid("z"))
    c["exc"] = exc or ""
    return c


def kern(rng):
    x, y, circ, s, sy = place(rng)
    d = dataset(rng, x, y, [[0] * len(y) for _ in x], [[0] * len(y) for _ in x], "f8")
    lat = rng.choice(y)
    step = max(dist(0, 0, 0, 1) * sy, dist(0, lat, 1, lat) * s)
    wl = float(int(step * rng.choice([1.2, 1.8, 2.1, 2.5, 3, 4.3, 6])) + 1)
    order = rng.choice([1, 1, 2, 3])
    name = rng.choice(["bessel", "bessel", "lanczos"])
    short = bool(wl < 2 * step)
    c = dict(kind="kernel", wl=int(wl), order=order, short=short, exc="", k=[], d=[])
    k, exc = call(getattr(d, "kernel_" + name), lat, wl, rng.choice([order, order - 0.4]))
    c["exc"] = exc or ""
    if not exc:
        # definition on a large window, cut where nothing is left
        a, b = ceil(wl / (dist(0, lat, 1, lat) * s)) * order + 1, ceil(wl / (dist(0, 0, 0, 1) * sy)) * order + 1
        X, Y = np.meshgrid(np.arange(-a + 1, a) * s, lat + np.arange(-b + 1, b) * sy, indexing="ij")
        q = dist(0, lat, X, Y)
        n = q / wl
        with np.errstate(all="ignore"):
            E = np.sinc(n / order) * (j1(2 * np.pi * n) / n if name == "bessel" else np.sinc(n))
        if name == "bessel":
            E[q == 0] = np.pi
            E[a - 1, b - 1] = np.pi
        E[n > order] = 0
        i, j = np.abs(np.where((E != 0).any(axis=1))[0] - a + 1).max(), np.abs(np.where((E != 0).any(axis=0))[0] - b + 1).max()
        w = slice(a - 1 - i, a + i), slice(b - 1 - j, b + j)
        c["def"] = ints(E[w], 10000)
        c["d"] = [[int(v) for v in r] for r in q[w]]
        c["k"] = ints(np.where(np.isfinite(k), k, 99), 10000)
    return c


if __name__ == "__main__":
    req, rec = start()
    rng = random.Random(req["seed"])
    for sc in req["scenarios"]:
        rec.begin(sc["kind"])
        seed = int(sc.get("scn", rng.getrandbits(60)))
        r = random.Random(seed)
        shutil.rmtree("d", ignore_errors=True)
        os.makedirs("d")
        c = dict(custom=custom, op=operation, kernel=kern)[sc["kind"]](r)
        rec.put(dict(c, scn=str(seed)))
    shutil.rmtree("d", ignore_errors=True)
    rec.end()
