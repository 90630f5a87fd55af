"""Identification of eddies: fields -> contours drawn by contourpy alone (circular grids: three turns side by side), measured with numpy;
the eddies of the real code are recognised among these contours."""
import os
import random
from datetime import datetime, timedelta
import contourpy
import numpy as np
from netCDF4 import Dataset
from hlib import start, call
import py_eddy_tracker.dataset.grid as grid_module
from py_eddy_tracker.dataset.grid import RegularGridDataset
from py_eddy_tracker.observations.observation import EddiesObservations

R = 6370997.0
# building the registry of the units takes longer than the rest
if hasattr(grid_module, "UnitRegistry"):
    _units = grid_module.UnitRegistry()
    grid_module.UnitRegistry = lambda *a, **k: _units


# ------------------------------------------------------------------ fields
def bumps(rng, g, n, amp, periodic):
    i, j = np.meshgrid(np.arange(g["nx"]), np.arange(g["ny"]), indexing="ij")
    f = np.zeros(i.shape)
    for _ in range(n):
        ci, cj = rng.uniform(0, g["nx"]), rng.uniform(1, g["ny"] - 2)
        w = rng.uniform(1.2, 2.6)
        di = i - ci
        if periodic:
            di = (di + g["nx"] / 2) % g["nx"] - g["nx"] / 2
        a = rng.choice([-1, 1]) * rng.uniform(0.4, 1) * amp
        f += a * np.exp(-(di**2 * rng.uniform(0.6, 1.6) + (j - cj) ** 2) / w**2)
    if periodic and g.get("arch"):
        # bent around the seam: its contours cross it several times
        a, w, b, cj = rng.choice([-1, 1]) * rng.uniform(0.6, 1) * amp, rng.uniform(1.2, 1.7), rng.choice([-1, 1]), rng.uniform(3.3, g["ny"] - 4.3)
        for di, dj, c in ((0, -2.2, 1), (0, 2.2, 1), (1.6 * b, -1, 0.8), (1.6 * b, 1, 0.8), (-1.6 * b, 0, -0.9)):
            d = (i - di - 0.5 + g["nx"] / 2) % g["nx"] - g["nx"] / 2
            f += c * a * np.exp(-(d**2 + (j - cj - dj) ** 2) / w**2)
    return f


def neighbours(g, i, j):
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            if (a, b) != (0, 0):
                k, l = i + a, j + b
                if g["circ"]:
                    k %= g["nx"]
                if 0 <= k < g["nx"] and 0 <= l < g["ny"]:
                    yield k, l


def heights(rng, g, k):
    """multiples of k/16 of a step, never near a level, no equal neighbours, no undecided saddle"""
    if rng.random() < 0.04:
        # no contour of any level
        i, j = np.meshgrid(np.arange(g["nx"]), np.arange(g["ny"]), indexing="ij")
        return 1 + 2 * (i % 2) + 4 * (j % 2) + 16 * rng.randint(-3, 3)
    f = bumps(rng, g, rng.randint(2, g["nx"] * g["ny"] // 16), rng.choice([60, 110, 180]), g["circ"])
    h = np.rint(f / k).astype(int)
    s = rng.choice([0, 0, 0, 1, 3])
    if s:
        h += np.array([[rng.randint(-s, s) for _ in range(g["ny"])] for _ in range(g["nx"])])
    h += rng.choice([0, 0, -70, 300])
    h *= k
    for _ in range(60):
        bad = False
        for i in range(g["nx"]):
            for j in range(g["ny"]):
                while h[i, j] % 8 == 0 or any(h[i, j] == h[p] for p in neighbours(g, i, j)):
                    h[i, j] += k
                    bad = True
                i1, j1 = (i + 1) % g["nx"], j + 1
                if j1 < g["ny"] and (i1 or g["circ"]) and (h[i, j] + h[i1, j] + h[i, j1] + h[i1, j1]) % 64 == 0:
                    h[i, j] += k
                    bad = True
        if not bad:
            return h
    return None


def grid(rng):
    g = dict(circ=rng.random() < 0.4)
    if g["circ"]:
        g["nx"] = rng.choice([20, 24, 30])
        g["ny"] = rng.randint(8, 11)
        g["arch"] = rng.random() < 0.25
        g["dx"], g["dy"] = 360.0 / g["nx"], float(rng.choice([6, 8]))
        g["y0"] = -g["dy"] * (g["ny"] - 1) / 2 + rng.choice([-10, 0.5, 12])
    else:
        g["nx"], g["ny"] = rng.randint(8, 17), rng.randint(8, 14)
        g["dx"] = rng.choice([0.25, 0.5, 1.0])
        g["dy"] = g["dx"] * rng.choice([1, 1, 0.75])
        g["y0"] = float(rng.choice([-60, -8, 10, 35]))
    g["x0"] = float(rng.choice([-180, -20, 0, 0, 170, 350]))
    p = rng.choice([0, 0, 0, 0.02, 0.06])
    g["m"] = np.array([[rng.random() < p for _ in range(g["ny"])] for _ in range(g["nx"])])
    return g


# ------------------------------------------------------------------ measures
def dist(lon0, lat0, lon1, lat1):
    a, b = np.radians(lat0), np.radians(lat1)
    s = np.sin((b - a) / 2) ** 2 + np.sin(np.radians(lon1 - lon0) / 2) ** 2 * np.cos(a) * np.cos(b)
    return 2 * R * np.arctan2(s**0.5, (1 - s) ** 0.5)


def resample(v, n):
    d = np.concatenate(([0], np.maximum(dist(v[:-1, 0], v[:-1, 1], v[1:, 0], v[1:, 1]), 1e-3))).cumsum()
    t = np.linspace(0, d[-1], n)
    return np.stack([np.interp(t, d, v[:, 0]), np.interp(t, d, v[:, 1])], axis=1)


def local(v, lon0, lat0):
    """azimuthal equidistant"""
    lo, la, l0 = np.radians(v[:, 0] - lon0), np.radians(v[:, 1]), np.radians(lat0)
    cosc = np.clip(np.sin(l0) * np.sin(la) + np.cos(l0) * np.cos(la) * np.cos(lo), -1, 1)
    d = dist(lon0, lat0, v[:, 0], v[:, 1])
    a = np.arctan2(np.cos(la) * np.sin(lo), np.cos(l0) * np.sin(la) - np.sin(l0) * np.cos(la) * np.cos(lo))
    return np.stack([d * np.sin(a), d * np.cos(a)], axis=1)


def unlocal(x, y, lon0, lat0):
    d, l0 = np.hypot(x, y) / R, np.radians(lat0)
    a = np.arctan2(x, y)
    la = np.arcsin(np.sin(l0) * np.cos(d) + np.cos(l0) * np.sin(d) * np.cos(a))
    return lon0 + np.degrees(np.arctan2(np.sin(a) * np.sin(d) * np.cos(l0), np.cos(d) - np.sin(l0) * np.sin(la))), np.degrees(la)


def shoelace(p):
    x, y = p[:, 0], p[:, 1]
    return abs(np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])) / 2


def fit(v):
    lon0, lat0 = v[1:].mean(axis=0)
    p = local(v, lon0, lat0)
    s = np.abs(p).max()
    w = p[1:] / s
    (a, b, c), *_ = np.linalg.lstsq(np.column_stack([2 * w, np.ones(len(w))]), (w**2).sum(axis=1), rcond=None)
    r = np.sqrt(c + a * a + b * b) * s
    x0, y0 = a * s, b * s
    q = p - [x0, y0]
    n = np.hypot(q[:, 0], q[:, 1])
    q = q * np.minimum(1, r / n)[:, None]
    err = 100 + (shoelace(p) - 2 * shoelace(q)) / (np.pi * r * r) * 100
    lon, lat = unlocal(x0, y0, lon0, lat0)
    return lon, lat, r, err


def inside(x, y, v):
    r = np.zeros(x.shape, dtype=bool)
    for (x0, y0), (x1, y1) in zip(v[:-1], v[1:]):
        c = (y0 > y) != (y1 > y)
        if c.any():
            r ^= c & (x < (x1 - x0) * (y - y0) / np.where(c, y1 - y0, 1) + x0) if y1 != y0 else False
    return r


def near_line(p, v):
    """largest distance, in degrees, of the points p to the line v"""
    a, d = v[:-1], np.diff(v, axis=0)
    l = (d**2).sum(axis=1)
    l[l == 0] = 1
    t = np.clip(((p[:, None] - a) * d).sum(axis=2) / l, 0, 1)
    return np.sqrt((((a + t[:, :, None] * d) - p[:, None]) ** 2).sum(axis=2).min(axis=1))


# ------------------------------------------------------------------ contours of the field
def contours(g, h, m):
    nx, ny = g["nx"], g["ny"]
    x, y = g["x0"] + g["dx"] * np.arange(nx), g["y0"] + g["dy"] * np.arange(ny)
    z = np.ma.array(h.astype("f8"), mask=m)
    if g["circ"]:
        x = np.concatenate((x - 360, x, x + 360, x[:1] + 720))
        z = np.ma.concatenate((z, z, z, z[:1]))
    gen = contourpy.contour_generator(x, y, z.T, name="mpl2014", corner_mask=True, line_type=contourpy.LineType.SeparateCode)
    xx, yy = np.meshgrid(x[:3 * nx] if g["circ"] else x, y, indexing="ij")
    lo, hi = int(z.min() // 16), int(z.max() // 16) + 1
    out = []
    for l in range(lo, hi + 1):
        for v in gen.lines(16.0 * l)[0]:
            if len(v) < 4 or np.hypot(*(v[0] - v[-1])) > 1e-2:
                continue
            if np.hypot(*(v[0] - v[-1])) > 1e-10:
                # nearly closed beside masked nodes: taken as closed, not judged
                return None
            v[-1] = v[0]
            if np.ptp(v[:, 0]) > 175:
                return None
            if g["circ"] and not (g["x0"] <= v[:, 0].min() < g["x0"] + 360 - 1e-9):
                continue
            if np.ptp(v[:, 0]) < 1e-8 or np.ptp(v[:, 1]) < 1e-8:
                continue
            v = np.array(v)
            i, j = np.where(inside(xx, yy, v))
            cross = 0
            if g["circ"]:
                t = (v[:, 0] - g["x0"]) / 360
                cross = int((np.floor(t[1:] - 1e-9) != np.floor(t[:-1] - 1e-9)).sum())
            out.append(dict(l=l, v=v, px=sorted(set(int(a % nx) * ny + int(b) + 1 for a, b in zip(i, j))), err=fit(v)[3], cross=cross))
    return out


def speed(g, s, v):
    """mean of the speed along the contour (nan: unknown somewhere)"""
    p = resample(v, 2 * len(v))[1:]
    fx, fy = (p[:, 0] - g["x0"]) / g["dx"], (p[:, 1] - g["y0"]) / g["dy"]
    i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
    a, b = fx - i, fy - j
    if g["circ"]:
        i %= g["nx"]
        k = (i + 1) % g["nx"]
    else:
        i = np.clip(i, 0, g["nx"] - 2)
        a = fx - i
        k = i + 1
    j = np.clip(j, 0, g["ny"] - 2)
    b = fy - j
    return (s[i, j] * (1 - a) * (1 - b) + s[k, j] * a * (1 - b) + s[i, j + 1] * (1 - a) * b + s[k, j + 1] * a * b).mean()


def chain(g, h, C, k, sgn):
    """inner contours of C[k]: (ids, ambiguous)"""
    c = C[k]
    px = set(c["px"])
    node = max(px, key=lambda p: sgn * h[(p - 1) // g["ny"], (p - 1) % g["ny"]])
    tops = [h[(p - 1) // g["ny"], (p - 1) % g["ny"]] for p in px]
    if tops.count(h[(node - 1) // g["ny"], (node - 1) % g["ny"]]) > 1:
        return [], True
    x, y = g["x0"] + g["dx"] * ((node - 1) // g["ny"]), g["y0"] + g["dy"] * ((node - 1) % g["ny"])
    ids, l = [], c["l"]
    while True:
        l += sgn
        cand, turn = [], False
        for n, d in enumerate(C):
            if d["l"] != l:
                continue
            x0, x1 = d["v"][:, 0].min(), d["v"][:, 0].max()
            xt = (x - x0) % 360 + x0
            if xt <= x1 and d["v"][:, 1].min() <= y <= d["v"][:, 1].max():
                cand.append(n)
        within = [n for n in cand if set(C[n]["px"]) <= px]
        if not within:
            return ids, False
        if len(cand) > 1 or node not in C[within[0]]["px"]:
            return ids, True
        ids.append(within[0])


def q(a, s):
    if not np.isfinite(a):
        return -1000000000
    return int(np.clip(round(float(a) * s), -2e9, 2e9))


# ------------------------------------------------------------------ the real code
def make(rng, g, h, jit, u, v, um, scn):
    kh, kc, nx, ny = scn["hunit"], scn["uunit"], g["nx"], g["ny"]
    x, y = g["x0"] + g["dx"] * np.arange(nx), g["y0"] + g["dy"] * np.arange(ny)
    fh = dict(m=1, cm=100, mm=1000)[kh]
    fu = {"m/s": 1, "cm/s": 100}[kc]
    data = (h + jit) * (scn["step"] / 16) * fh
    mk = g["m"]
    data[mk] = rng.choice([1e6, -3e4, 0, 1e-3])
    hm = np.ma.array(data) if not mk.any() and rng.random() < 0.5 else np.ma.array(data, mask=mk)
    uu, vv = np.ma.array(u * fu, mask=um), np.ma.array(v * fu, mask=um)
    forced = rng.random() < 0.2
    return x, y, hm, uu, vv, (dict(force_height_unit=kh, force_speed_unit=kc) if forced else {}), ("km" if forced else kh, "km/s" if forced else kc)


def tables(eddies):
    return [np.array(e.obs) for e in eddies]


def one(rng, want=("ident", "eddy")):
    g = grid(rng)
    k = rng.choice([1, 1, 3, 5])
    h = heights(rng, g, k)
    if h is None:
        return None
    nx, ny = g["nx"], g["ny"]
    jit = np.array([[rng.uniform(-0.4, 0.4) * k if k > 1 else 0 for _ in range(ny)] for _ in range(nx)])
    arch = g.pop("arch", False)
    u, v = bumps(rng, g, 5, 1, g["circ"]), bumps(rng, g, 5, 1, g["circ"]) + rng.choice([0, 1])
    um = g["m"] if rng.random() < 0.5 else np.zeros((nx, ny), bool)
    s = np.hypot(u, v)
    s[um] = np.nan
    scn = dict(step=rng.choice([0.002, 0.005, 0.01, 0.05]), hunit=rng.choice(["m", "m", "cm", "mm"]), uunit=rng.choice(["m/s", "m/s", "cm/s"]))
    app = not g["circ"] and rng.random() < 0.15
    if app:
        scn["step"] = rng.choice([0.02, 0.05])
        k = 1
        jit *= 0
    C = contours(g, h, g["m"])
    if C is None:
        return None
    thr = 100 if arch else rng.choice([25, 40, 55, 55, 70, 100])
    if any(abs(c["err"] - thr) < (0.3 if c["cross"] <= 2 else 5) for c in C):
        return None
    opt = dict(mle=3 if arch else rng.choice([1, 1, 1, 2, 3]), nb_step_min=rng.choice([1, 2, 2, 3]), nb_step_to_be_mle=rng.choice([0, 1, 2]))
    pl = (rng.choice([1, 2, 4, 6]), rng.choice([1000, 1000, 30, 12]))
    sampling = rng.choice([20, 30, 50])
    method = rng.choice(["visvalingam", "uniform"])
    if app:
        opt.update(mle=1, nb_step_to_be_mle=0)
    day = rng.choice([0, 0.5, 12000, 25567])
    date = datetime(1950, 1, 1) + timedelta(day)
    x, y, hm, uu, vv, forced, units = make(rng, g, h, jit, u, v, um, scn)
    attrs = dict(ssh=dict(units=units[0]), u=dict(units=units[1]), v=dict(units=units[1]))
    base = dict(kind="ident", nx=nx, ny=ny, circ=g["circ"], h=h.tolist(), m=g["m"].astype(int).tolist(), mle=opt["mle"], nmin=opt["nb_step_min"], nmle=opt["nb_step_to_be_mle"],
                pmin=pl[0], pmax=pl[1], thr=thr * 100, C=[dict(l=c["l"], px=c["px"], err=q(c["err"], 100)) for c in C], out=[], exc="", again=True, app=app)
    if app:
        with Dataset("f.nc", "w") as f:
            f.createDimension("lon", nx), f.createDimension("lat", ny)
            f.createVariable("lon", "f8", ("lon",))[:] = x
            f.createVariable("lat", "f8", ("lat",))[:] = y
            for n, a in (("ssh", hm), ("u", uu), ("v", vv)):
                w = f.createVariable(n, "f8", ("lat", "lon") if rng.random() < 0.5 else ("lon", "lat"), fill_value=-1e10)
                w.units = attrs[n]["units"]
                w[:] = a.T if w.dimensions[0] == "lat" else a
        from py_eddy_tracker.appli.grid import eddy_id
        args = ["f.nc", date.strftime("%Y%m%dT%H%M%S"), "ssh", "u", "v", "lon", "lat", ".", "--cut_wavelength", "0", "--isoline_step", str(scn["step"]), "--fit_errmax", str(thr),
                "--pixel_limit", str(pl[0]), str(pl[1]), "--nb_step_min", str(opt["nb_step_min"]), "--sampling", str(sampling), "--sampling_method", method]
        if forced:
            args += ["--height_unit", scn["hunit"], "--speed_unit", scn["uunit"]]
        z = rng.random() < 0.5
        if z:
            args.append("--zarr")
        _, exc = call(eddy_id, args)
        if exc:
            return [dict(base, exc=exc)]
        import shutil
        res = []
        for n in ("Anticyclonic", "Cyclonic"):
            f = date.strftime(n + "_%Y%m%dT%H%M%S") + (".zarr" if z else ".nc")
            r, exc = call(EddiesObservations.load_file, f, raw_data=False)
            if exc:
                return [dict(base, exc=exc)]
            res.append(r)
            shutil.rmtree(f) if z else os.remove(f)
    else:
        d = RegularGridDataset.with_array(coordinates=("lon", "lat"), datas=dict(lon=x, lat=y, ssh=hm, u=uu, v=vv), variables_description=attrs, centered=True)
        kw = dict(step=scn["step"], shape_error=thr, pixel_limit=pl if pl != (4, 1000) or rng.random() < 0.5 else None, sampling=sampling, sampling_method=method, **opt, **forced)
        if k > 1:
            kw["precision"] = scn["step"] * k / 16
        res, exc = call(d.eddy_identification, "ssh", "u", "v", date, **kw)
        if exc:
            return [dict(base, exc=exc)]
        if rng.random() < 0.3:
            res2, exc = call(d.eddy_identification, "ssh", "u", "v", date, **kw)
            base["again"] = exc is None and all(np.array_equal(a, b) for a, b in zip(tables(res), tables(res2)))
    vals, tol = [], (4 if app else 1)
    fits = {}

    def measures(n):
        if n not in fits:
            m = None
            v = C[n]["v"]
            # over the seam the first vertex depends on the way the two parts are joined: spread over all of them
            for k in range(len(v) - 1 if C[n]["cross"] else 1):
                w = np.concatenate((v[k:-1], v[:k + 1]))
                sp = speed(g, s, w)
                w = resample(w, 10 * len(w))
                lon, lat, r, err = fit(w)
                one_ = dict(lon=lon, lat=lat, r=r, err=err, spd=sp)
                if m is None:
                    m = dict(one_, w=w, d={a: 0 for a in one_})
                else:
                    for a in one_:
                        m["d"][a] = max(m["d"][a], abs(one_[a] - m[a]))
                    if np.isnan(sp):
                        m["spd"] = sp
            fits[n] = m
        return fits[n]

    def tols(m):
        return dict(tspd=q(m["d"]["spd"], 1e4) + 2, tlon=q(max(m["d"]["lon"], m["d"]["lat"]), 1e3) + 1, tr=q(m["d"]["r"], 1e-2), terr=q(m["d"]["err"], 100) + 10)

    for sgn, tab in zip((1, -1), res):
        for o in tab.obs:
            l = int(round(o["height_external_contour"] / scn["step"]))
            found = []
            ve = np.stack([o["contour_lon_e"], o["contour_lat_e"]], axis=1).astype("f8")
            eps = 0.06 * g["dx"] + (0.02 if app else 0)
            for n, c in enumerate(C):
                if c["l"] == l:
                    w = ve.copy()
                    w[:, 0] += 360 * round((c["v"][:, 0].mean() - w[:, 0].mean()) / 360)
                    if near_line(w, c["v"]).max() < eps:
                        found.append(n)
            if len(found) != 1:
                if os.environ.get("VF_DEBUG"):
                    print("LOST", sgn, l, app, g["circ"], g["m"].sum(), o["height_external_contour"], scn, [c["l"] for c in C], [near_line(ve, c["v"]).max() for c in C if c["l"] == l], eps, ve[:, 0].tolist(), o["lon"], [c["v"][:, 0] for c in C if c["l"] == l])
                base["out"].append([sgn, 0])
                continue
            n = found[0]
            base["out"].append([sgn, n + 1])
            if "eddy" not in want:
                continue
            ids, amb = chain(g, h, C, n, sgn)
            ch = [n] + ids
            mm = [measures(i) for i in ch]
            vs = np.stack([o["contour_lon_s"], o["contour_lat_s"]], axis=1).astype("f8")
            sid, best = 0, eps
            for i in ch:
                w = vs.copy()
                w[:, 0] += 360 * round((C[i]["v"][:, 0].mean() - w[:, 0].mean()) / 360)
                d_ = near_line(w, C[i]["v"]).max()
                if d_ < best:
                    sid, best = i + 1, d_
            lon0 = measures(sid - 1)["lon"] if sid else 0
            lat0 = measures(sid - 1)["lat"] if sid else 0
            mid = lambda a: int(round(float(a) / scn["step"] * 100))
            # nodes which are surely in / out of the stored contour
            ok_nodes = True
            if sampling >= 30:
                vv_ = C[n]["v"]
                off = 360 * round((vv_[:, 0].mean() - ve[:, 0].mean()) / 360)
                i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
                px_ = x[i.ravel()] + 360 * np.round((vv_[:, 0].mean() - x[i.ravel()]) / 360) if g["circ"] else x[i.ravel()]
                nodes = np.stack([px_, y[j.ravel()]], axis=1)
                sure = near_line(nodes, vv_) > 0.3 * max(g["dx"], g["dy"])
                w = ve + [off, 0]
                ok_nodes = bool((inside(nodes[sure, 0], nodes[sure, 1], w) == inside(nodes[sure, 0], nodes[sure, 1], vv_)).all())
            nd = max(C[n]["px"], key=lambda p: sgn * h[(p - 1) // ny, (p - 1) % ny])
            top = not any(sgn * h[p] > sgn * h[(nd - 1) // ny, (nd - 1) % ny] for p in neighbours(g, (nd - 1) // ny, (nd - 1) % ny))
            unc = any(np.isnan(a["spd"]) for a in mm)
            multi = any(C[i]["cross"] > 2 for i in ch)
            rec = dict(kind="eddy", sgn=sgn, app=app, amb=bool(amb), unsure=bool(unc), multi=multi, top=top, pmin=pl[0], exc="", tol=tol,
                       ext=n + 1, l=C[n]["l"], px=[int(h[(p - 1) // ny, (p - 1) % ny]) for p in C[n]["px"]],
                       chain=[dict(id=i + 1, n=len(C[i]["px"]), l=C[i]["l"], spd=q(a["spd"], 1e4), lon=q(a["lon"] % 360, 1e3), lat=q(a["lat"], 1e3), r=q(a["r"], 1e-2), err=q(a["err"], 100),
                                   area=q(shoelace(local(a["w"], lon0, lat0)), 1e-6), pts=len(C[i]["v"]), **tols(a)) for i, a in zip(ch, mm)],
                       sid=sid, he=mid(o["height_external_contour"]), hs=mid(o["height_max_speed_contour"]), hi=mid(o["height_inner_contour"]), amp=mid(o["amplitude"]),
                       spd=q(o["speed_average"], 1e4), prof=[q(o["uavg_profile"][0], 1e4), q(o["uavg_profile"][-1], 1e4), q(o["uavg_profile"].max(), 1e4)], nb=int(o["nb_contour_selected"]),
                       lon=q(o["lon"], 1e3), lat=q(o["lat"], 1e3), lonm=q(o["lon_max"], 1e3), latm=q(o["lat_max"], 1e3), rs=q(o["speed_radius"] if "speed_radius" in o.dtype.names else o["radius_s"], 1e-2),
                       re=q(o["radius_e"], 1e-2), errs=q(o["shape_error_s"], 100), erre=q(o["shape_error_e"], 100), arees=q(o["speed_area"], 1e-6), areee=q(o["effective_area"], 1e-6),
                       pts=[int(o["num_point_e"]), int(o["num_point_s"])], day=q(o["time"] - day, 1e4), type=int(tab.sign_type), size=[len(ve), len(vs)], want=sampling,
                       around=bool((np.abs(ve[:, 0] - o["lon"]) <= 180.01).all() and (np.abs(vs[:, 0] - o["lon"]) <= 180.01).all()), nodes=ok_nodes)
            vals.append(rec)
    return [c for c in [base] + vals if c["kind"] in want]


if __name__ == "__main__":
    req, rec = start()
    rng = random.Random(req["seed"])
    for sc in req["scenarios"]:
        rec.begin("ident")
        sc["_"] = int(sc.get("_", sc.get("scn", rng.getrandbits(60))))
        r = random.Random(sc["_"])
        for _ in range(6):
            cs = one(r, req.get("want") or ("ident", "eddy"))
            if cs is not None:
                break
        for c in cs or []:
            rec.put(dict(c, scn=str(sc["_"])))
    rec.end()
