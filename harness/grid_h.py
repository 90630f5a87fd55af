"""Regular grids: interpolation, derivatives, advection, pixels; filters; files."""
import os
import random
import numpy as np
from netCDF4 import Dataset
from hlib import start, call
from py_eddy_tracker.dataset.grid import GridCollection, RegularGridDataset

NAN = -999999999
R = 6370997.0
U = 10000


def rand_grid(rng, nx=None, ny=None, masked=0.15, dyadic=True):
    """coordinates are exact: x0 + k * dx"""
    circ = rng.random() < 0.4
    if circ:
        nx = rng.choice([8, 9, 10, 12])
        dx = 360. / nx
    else:
        nx = nx or rng.randint(5, 11)
        dx = rng.choice([0.25, 0.5, 1., 2.])
    ny = ny or rng.randint(5, 10)
    dy = rng.choice([0.25, 0.5, 1.])
    g = dict(nx=nx, ny=ny, circ=circ, x0=float(rng.choice([-180, -20, 0, 0, 170, 340])), dx=dx, y0=float(rng.choice([-60, -8, 10, 35])), dy=dy)
    p = rng.choice([0, 0, masked, 3 * masked])
    g["m"] = [[int(rng.random() < p) for _ in range(ny)] for _ in range(nx)]
    return g


def bare(g):
    return {k: g[k] for k in ("nx", "ny", "circ", "m")}


def coords(g):
    return g["x0"] + g["dx"] * np.arange(g["nx"]), g["y0"] + g["dy"] * np.arange(g["ny"])


def field(rng, g, m):
    return [[rng.randint(-m, m) for _ in range(g["ny"])] for _ in range(g["nx"])]


def masked(rng, g, f, dtype="f8"):
    a = np.array(f, dtype=dtype)
    mk = np.array(g["m"], dtype=bool)
    if np.dtype(dtype).kind == "f":
        a[mk] = rng.choice([1e6, -3e4, 77, 1e-7, 0.01])
    if not mk.any() and rng.random() < 0.5:
        return np.ma.array(a)
    return np.ma.array(a, mask=mk)


def regular(g, datas, **kw):
    x, y = coords(g)
    attrs = {k: dict(units="m", long_name=k) for k in datas}
    centered = kw.pop("centered", True)
    if not centered:
        x, y = x - g["dx"] / 2, y - g["dy"] / 2
    return RegularGridDataset.with_array(coordinates=("lon", "lat"), datas=dict(lon=x, lat=y, **datas), variables_description=attrs, centered=centered, **kw)


def q(v, scale):
    out = []
    for a in v:
        if a is np.ma.masked or not np.isfinite(a):
            out.append(NAN)
        else:
            b = a * scale
            out.append(int(round(b)) if abs(b - round(b)) < 1e-3 * max(1, abs(b) * 1e-4) else NAN + 1)
    return out


def some_points(rng, g, n, half=True):
    pts = []
    for _ in range(n):
        lo, hi = (-40, 16 * g["nx"] + 40) if not g["circ"] else (-16 * g["nx"] * 2, 16 * g["nx"] * 2)
        px, py = rng.randint(lo, hi), rng.randint(-40, 16 * g["ny"] + 30)
        r = rng.random()
        if r < 0.2:
            px -= px % 16
        elif r < 0.4:
            py -= py % 16
        if r > 0.8 and pts:
            # another point of the same cell, or of the cell next to it
            px, py = pts[-1][0] + rng.choice([0, 16, -16, 3]), pts[-1][1] + rng.choice([0, 5, 16])
        if px % 16 == 8:
            px += 1
        if py % 16 == 8:
            py += 1
        pts.append([px, py])
    return pts


def interp(rng):
    g = rand_grid(rng)
    f = field(rng, g, 60)
    dt = rng.choice(["f4", "f8"])
    d = regular(g, dict(z=masked(rng, g, f, dt)))
    c = dict(exc="", g=bare(g), f=f, pts=[], bil=[], near=[])
    if rng.random() < 0.25:
        # on the nodes of another grid
        sx, sy = rng.choice([4, 8, 12, 20]), rng.choice([4, 16, 24])
        nx, ny = rng.randint(4, 7), rng.randint(4, 6)
        ox, oy = rng.randint(-30, 40), rng.randint(-20, 30)
        o = RegularGridDataset.with_array(coordinates=("lon", "lat"), centered=True, datas=dict(
            lon=g["x0"] + g["dx"] * (ox + sx * np.arange(nx)) / 16, lat=g["y0"] + g["dy"] * (oy + sy * np.arange(ny)) / 16))
        new = rng.choice([None, "w"])

        def run():
            o.regrid(d, "z", new)
            return o.grid(new or "z")
        r, exc = call(run)
        c["pts"] = [[ox + sx * i, oy + sy * j] for i in range(nx) for j in range(ny)]
        if exc is None:
            r = np.ma.array(r)
            mk = np.ma.getmaskarray(r)
            if r.shape != (nx, ny) or (mk != ~np.isfinite(r.data)).any():
                exc = "regridded mask"
            else:
                c["bil"] = q(r.data.ravel(), 256)
        c["exc"] = exc or ""
        return c
    c["pts"] = some_points(rng, g, rng.choice([0, 1, 15, 15, 30]))
    p = np.array(c["pts"], dtype="f8").reshape(-1, 2)
    x, y = g["x0"] + g["dx"] * p[:, 0] / 16, g["y0"] + g["dy"] * p[:, 1] / 16
    r, exc = call(lambda: (d.interp("z", x, y), d.interp("z", x, y, method="nearest")))
    if exc is None:
        c["bil"], c["near"] = q(r[0], 256), q(r[1], 256)
    c["exc"] = exc or ""
    return c


def write_cube(rng, path, g, fields, masks, times, order=None):
    """one file with a time dimension; the order of the dimensions is free"""
    x, y = coords(g)
    fill = rng.choice([-1e30, 9.96e36, 1e-7, 2e-5])
    order = order or rng.choice([("t", "lat", "lon"), ("t", "lon", "lat"), ("lat", "lon", "t"), ("lat", "t", "lon")])
    with Dataset(path, "w") as h:
        h.createDimension("t", len(times))
        h.createDimension("lon", g["nx"])
        h.createDimension("lat", g["ny"])
        h.createVariable("t", "f8", ("t",))[:] = times
        h.createVariable("lon", "f8", ("lon",))[:] = x
        h.createVariable("lat", "f8", ("lat",))[:] = y
        for name, fs in fields.items():
            v = h.createVariable(name, "f8", order, fill_value=fill)
            v.units = "m" if name == "h" else "m/s"
            a = np.ma.array(np.array(fs, dtype="f8"), mask=np.array(masks, dtype=bool))  # t, lon, lat
            v[:] = a.transpose([("t", "lon", "lat").index(k) for k in order])


def tinterp(rng):
    g = rand_grid(rng)
    g2 = dict(g, m=[[int(rng.random() < 0.1) for _ in range(g["ny"])] for _ in range(g["nx"])] if rng.random() < 0.5 else g["m"])
    f, f2 = field(rng, g, 60), field(rng, g, 60)
    c = dict(exc="", g=bare(g), g2=bare(g2), f=f, f2=f2, q=rng.randint(0, 3), near=rng.random() < 0.3, out=[])
    c["pts"] = some_points(rng, g, 12)
    n = rng.randint(2, 4)
    k = rng.randint(0, n - 2)
    fs, ms = [field(rng, g, 50) for _ in range(n)], [[[0] * g["ny"]] * g["nx"]] * n
    fs[k], fs[k + 1], ms[k], ms[k + 1] = f, f2, g["m"], g2["m"]
    t0 = rng.choice([0, 10, 20000])
    write_cube(rng, "cube.nc", g, dict(z=fs), ms, [t0 + i for i in range(n)])
    p = np.array(c["pts"], dtype="f8")
    x, y = g["x0"] + g["dx"] * p[:, 0] / 16, g["y0"] + g["dy"] * p[:, 1] / 16

    def run():
        col = GridCollection.from_netcdf_cube("cube.nc", "lon", "lat", "t")
        if rng.random() < 0.5:
            col.interp("z", t0, x, y)
        return col.interp("z", t0 + k + c["q"] / 4, x, y, method="nearest" if c["near"] else "bilinear")
    r, exc = call(run)
    if exc is None:
        c["out"] = q(r, 1024)
    c["exc"] = exc or ""
    return c


def steps_in(g, lat):
    """metres by cell"""
    return g["dx"] * np.cos(np.radians(lat)) * np.pi / 180 * R, g["dy"] * np.pi / 180 * R


def mat(a, scale):
    a = np.ma.array(a)
    mk = np.ma.getmaskarray(a)
    return [[NAN if mk[i, j] else int(round(max(-2e8, min(2e8, float(a.data[i, j] * scale[j]))))) if np.isfinite(a.data[i, j]) else NAN + 1
             for j in range(a.shape[1])] for i in range(a.shape[0])]


def diff(rng, uv=False):
    small = [None] * 5
    g = rand_grid(rng, rng.choice(small + [2, 3, 4]), rng.choice(small + [2, 3, 4]), masked=rng.choice([0.1, 0.3]))
    f = field(rng, g, 20)
    dt = rng.choice(["f4", "f8"])
    z = masked(rng, g, f, dt)
    d = regular(g, dict(z=z), centered=rng.random() < 0.7)
    x, y = coords(g)
    dxm, dym = steps_in(g, y)
    c = dict(exc="", g=bare(g), f=f, hw=rng.choice([1, 2, 3, 4, 4]), tol=1 if dt == "f8" else 6)
    if uv:
        c["kind"] = "uv"
        fcor = 2 * 2 * np.pi / (23 * 3600 + 56 * 60 + 4.1) * np.sin(np.radians(y))
        run = lambda: d.add_uv("z", "u", "v", stencil_halfwidth=c["hw"])  # noqa
        _, exc = call(run)
        c.update(u=[], v=[])
        if exc is None:
            for k, sc in (("u", dym * fcor / 9.807 * 840), ("v", dxm * fcor / 9.807 * 840)):
                a = d.grid(k)
                # row on the equator: not defined
                c[k] = mat(a, np.where(np.abs(y) < 1e-9, 0, sc)) if (np.abs(y) > 1e-9).all() else None
            if c["u"] is None:
                return None
    else:
        c["kind"] = "diff"
        c["vertical"] = rng.random() < 0.5
        a, exc = call(d.compute_stencil, z, stencil_halfwidth=c["hw"], vertical=c["vertical"])
        c["out"] = [] if exc else mat(a, 840 * (np.full(g["ny"], dym) if c["vertical"] else dxm))
    c["exc"] = exc or ""
    return c


def pos(g, x, y):
    out = []
    for a, b in zip(x, y):
        if np.isnan(a) or np.isnan(b):
            out.append([])
        else:
            out.append([int(round((a - g["x0"]) / g["dx"] * U)), int(round((b - g["y0"]) / g["dy"] * U))])
    return out


def start_points(rng, g, n):
    x, y = [], []
    for k in range(n):
        if rng.random() < 0.1:
            x.append(np.nan), y.append(np.nan)
            continue
        if k and rng.random() < 0.4:
            x.append(x[-1] + g["dx"] * rng.choice([-1, 1, 0.3, 0.01])), y.append(y[-1] + g["dy"] * rng.choice([0, 1, .2]))
            continue
        lo, hi = (-2, 2 * g["nx"]) if g["circ"] else (-1, g["nx"])
        r = rng.random()
        i = rng.uniform(lo, hi) if r < 0.7 else rng.choice([0.3, g["nx"] - 1.3, g["nx"] - 0.4])
        j = rng.uniform(-0.5, g["ny"]) if rng.random() < 0.7 else rng.choice([0.2, g["ny"] - 1.2])
        x.append(g["x0"] + g["dx"] * i), y.append(g["y0"] + g["dy"] * j)
    return np.array(x), np.array(y)


def speeds(rng, g):
    m = rng.choice([500, 2500, 4500])
    return field(rng, g, m), field(rng, g, m)


def in_ms(g, f, n, dt, axis, factor):
    """1/U cell by step -> m/s"""
    y = coords(g)[1]
    dxm, dym = steps_in(g, y)
    return np.array(f, dtype="f8") / U * (dxm if axis == 0 else dym) / dt / factor


def static(rng):
    g = rand_grid(rng, masked=0.05)
    u, v = speeds(rng, g)
    dt, factor, back = rng.choice([600, 3600, 86400]), rng.choice([1, 1, 2.5]), rng.random() < 0.3
    mu, mv = dict(g), dict(g)
    if rng.random() < 0.5:
        mv = dict(g, m=[[int(rng.random() < 0.04) for _ in range(g["ny"])] for _ in range(g["nx"])])
    mk = [[max(a, b) for a, b in zip(p, r)] for p, r in zip(mu["m"], mv["m"])]
    d = regular(g, dict(u=masked(rng, mu, in_ms(g, u, 0, dt, 0, factor)), v=masked(rng, mv, in_ms(g, v, 0, dt, 1, factor))))
    x, y = start_points(rng, g, rng.choice([1, 6, 6, 12]))
    base = dict(kind="move", nx=g["nx"], ny=g["ny"], circ=g["circ"], T=[], us=[u], vs=[v], ms=[mk], t=0, tout=0, nb=rng.choice([1, 1, 2, 4]), rk4=rng.random() < 0.5,
                back=back, stop=False, exc="")
    names = ("u", "v") if rng.random() < 0.6 else (d.grid("u"), d.grid("v"))
    kw = dict(nb_step=base["nb"], rk4=base["rk4"], time_step=dt, backward=back, factor=factor)
    out = []
    if rng.random() < 0.25:
        return filament(rng, g, base, lambda n: d.filament(x, y, *names, filament_size=n, **kw), x, y)
    gen = d.advect(x, y, *names, **kw)
    before = (np.array(d.grid("u").filled(-9)), np.array(d.grid("v").filled(-9)))
    for _ in range(3):
        p = pos(g, x, y)
        r, exc = call(next, gen)
        out.append(dict(base, p=p, q=pos(g, *r) if exc is None else [], exc=exc or ""))
        if exc:
            break
    if not exc and ((before[0] != d.grid("u").filled(-9)).any() or (before[1] != d.grid("v").filled(-9)).any()):
        out[-1]["exc"] = "the grids were modified"
    return out


def filament(rng, g, base, make, x, y, timed=False):
    n = rng.choice([1, 3, 5])
    gen = make(n)
    x0, y0 = x.copy(), y.copy()
    out = []
    nb = len(x)
    before = [[p] + [[]] * (n) for p in pos(g, x, y)]
    t = base["t"]
    for _ in range(4):
        r, exc = call(next, gen)
        b = dict(base, t=t, p=[w[0] for w in before])
        if exc:
            end = t - base["nb"] if base["back"] else t + base["nb"]
            known = not base["T"] or base["T"][0] <= end <= base["T"][-1]
            b.update(q=[], exc=exc if known else "", stop=True)
            out.append(b)
            break
        if timed:
            b["tout"] = int(round(r[0] / timed))
            r = r[1:]
        now = [pos(g, r[0][k * (n + 1):(k + 1) * (n + 1)], r[1][k * (n + 1):(k + 1) * (n + 1)]) for k in range(nb)]
        b["q"] = [w[0] for w in now]
        out.append(b)
        out.append(dict(kind="fil", exc="" if len(r[0]) == nb * (n + 1) and (np.isnan(x) == np.isnan(x0)).all() and np.array_equal(x, x0, equal_nan=True) and np.array_equal(y, y0, equal_nan=True) else "size or start modified",
                        now=now, before=before, head=b["q"]))
        before = now
        t += -base["nb"] if base["back"] else base["nb"]
    return out


def timed(rng, scn):
    g = rand_grid(rng, nx=6, ny=6, masked=0.03)
    n = rng.randint(2, 4)
    per = rng.choice([1, 2, 4])          # steps by day
    days = [rng.choice([0, 5, 20000])]
    for _ in range(n - 1):
        days.append(days[-1] + rng.choice([1, 1, 1, 2]))
    if "T" in scn:
        # grids at any multiple of the step
        per = 4
        d0 = days[0]
        days = [d0 + k / per for k in scn["T"]]
    T = [int(round(k * per)) for k in days]
    sp = [speeds(rng, g) for _ in days]
    dt = 86400 // per
    ms = [g["m"] if rng.random() < 0.5 else [[int(rng.random() < 0.03) for _ in range(g["ny"])] for _ in range(g["nx"])] for _ in days]
    back, rk4, nb = scn.get("back", rng.random() < 0.4), rng.random() < 0.5, rng.choice([1, 1, 2, 3])
    names = ("u", "v")
    write_cube(rng, "cube.nc", g, dict(u=[in_ms(g, s[0], 0, dt, 0, 1) for s in sp], v=[in_ms(g, s[1], 0, dt, 1, 1) for s in sp]), ms, days)
    lo, hi = (T[0] + 1, T[-1]) if back else (T[0], T[-1] - 1)
    if lo > hi:
        return []
    t = rng.choice([T[-1] if back else T[0], rng.randint(lo, hi)])
    if "T" in scn:
        t, nb = T[0] - scn["T"][0] + scn["t"], scn["nb"]
    x, y = start_points(rng, g, rng.choice([2, 5]))
    base = dict(kind="move", nx=g["nx"], ny=g["ny"], circ=g["circ"], T=T, us=[s[0] for s in sp], vs=[s[1] for s in sp], ms=ms, nb=nb, rk4=rk4, back=back, stop=False, exc="", tout=0, t=t)
    kw = dict(nb_step=nb, time_step=dt, rk4=rk4, backward=back)
    col, exc = call(GridCollection.from_netcdf_cube, "cube.nc", "lon", "lat", "t")
    if exc:
        return [dict(base, p=[], q=[], exc=exc)]
    r = rng.random()
    if r < 0.2:
        return filament(rng, g, base, lambda k: col.filament(x, y, "u", "v", t / per, filament_size=k, **kw), x, y, timed=dt)
    if r < 0.4:
        k = 2
        end = t - k * nb if back else t + k * nb
        if T[0] <= end <= T[-1]:
            res, exc = call(col.path, x, y, u_name="u", v_name="v", t_init=t / per, nb_time=k, **kw)
            if exc:
                return [dict(base, p=[], q=[], exc=exc)]
            out = []
            if abs(res[0][0] - t / per) > 1e-9 or not np.array_equal(res[1][0], x, equal_nan=True):
                out.append(dict(base, p=[], q=[], exc="path does not start at the start"))
            for i in range(k):
                out.append(dict(base, t=t + (-i * nb if back else i * nb), p=pos(g, res[1][i], res[2][i]), q=pos(g, res[1][i + 1], res[2][i + 1]), tout=int(round(res[0][i + 1] / dt))))
            return out
    out = []
    if rng.random() < 0.3:
        # grids already used for another run
        w, _ = call(lambda: next(col.advect(x.copy(), y.copy(), u_name="u", v_name="v", t_init=t / per, **kw)))
        kw["reset_grid"] = rng.choice([None, 1])
    gen = col.advect(x, y, u_name="u", v_name="v", t_init=t / per, **kw)
    for _ in range(6):
        p = pos(g, x, y)
        r, exc = call(next, gen)
        end = t - nb if back else t + nb
        known = T[0] <= end <= T[-1]
        out.append(dict(base, t=t, p=p, q=pos(g, r[1], r[2]) if exc is None else [], tout=int(round(r[0] / dt)) if exc is None else 0, stop=exc is not None, exc=exc if exc and known else ""))
        t = end
        if exc or not known:
            break
    return out


def path(p, off=0.5):
    lo, up = [], []
    for k, (a, b) in enumerate(p["c"]):
        x = p["x"] + k
        lo += [(x, a), (x + 1, a)]
        up += [(x, b), (x + 1, b)]
    out = []
    for w in lo + up[::-1]:
        if not out or out[-1] != w:
            out.append(w)
    return np.array(out + [out[0]], dtype="f8") - off


def rand_cols(rng, n, lo, hi):
    c = []
    for k in range(n):
        for _ in range(30):
            a = rng.randint(lo, hi - 1)
            b = rng.randint(a + 1, hi)
            if not c or (a < c[-1][1] and c[-1][0] < b):
                break
        else:
            break
        c.append([a, b])
    return c


def pixels(rng):
    g = rand_grid(rng, masked=0)
    d = regular(g, dict(z=masked(rng, g, field(rng, g, 3))), centered=rng.random() < 0.7)
    if g["circ"]:
        # less than half of a turn
        n = rng.randint(1, max(1, int(180 / g["dx"]) - 1))
        p = dict(x=rng.randint(0, g["nx"] - 1), c=rand_cols(rng, n, 0, g["ny"]))
    else:
        n = rng.randint(1, g["nx"])
        p = dict(x=rng.randint(0, g["nx"] - n), c=rand_cols(rng, n, 0, g["ny"]))
        if rng.random() < 0.4:
            # partly or entirely out of the grid
            p = dict(x=rng.randint(-n - 1, g["nx"] + 1), c=rand_cols(rng, n, -3, g["ny"] + 3))
    v = path(p)
    # any vertex may be the first one
    k = rng.randrange(len(v) - 1)
    v = np.concatenate((v[k:-1], v[:k + 1]))
    if rng.random() < 0.5:
        v = v[::-1]
    v = np.stack([g["x0"] + g["dx"] * v[:, 0], g["y0"] + g["dy"] * v[:, 1]], axis=1)
    c = dict(exc="", kind="pixels", g=bare(g), p=p, out=[])
    from matplotlib.path import Path
    r, exc = call(lambda: Path(v).pixels_in(d) if rng.random() < 0.5 else d.get_pixels_in(np.ascontiguousarray(v)))
    if exc is None:
        c["out"] = [[int(i), int(j)] for i, j in zip(*r)]
    c["exc"] = exc or ""
    return c


if __name__ == "__main__":
    req, rec = start()
    rng = random.Random(req["seed"])
    for s in req["scenarios"]:
        k = s["kind"]
        rec.begin(k)
        s["_"] = rng.getrandbits(60)
        r = random.Random(s["_"])
        if k == "interp":
            cs = interp(r)
        elif k == "tinterp":
            cs = tinterp(r)
        elif k in ("diff", "uv"):
            cs = diff(r, k == "uv")
        elif k == "static":
            cs = static(r)
        elif k == "timed":
            cs = timed(r, s)
        elif k == "pixels":
            cs = pixels(r)
        if cs is None:
            continue
        for c in cs if isinstance(cs, list) else [cs]:
            c.setdefault("kind", k)
            rec.put(c)
    rec.end()
