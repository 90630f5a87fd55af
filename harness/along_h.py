"""Missing dates, interpolation, smoothing and normalisation along trajectories and segments."""
import random
import numpy as np
from hlib import start, call
from py_eddy_tracker.observations.tracking import TrackEddiesObservations
from py_eddy_tracker.observations.network import NetworkObservations
from py_eddy_tracker.observations.groups import get_missing_indices

ARR = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]


def times(rng, n, dt):
    t = [rng.choice([0, 5, 10000, 20000]) + rng.randint(0, 6)]
    for _ in range(n - 1):
        t.append(t[-1] + dt * rng.choice([1, 1, 1, 1, 2, 3, 5]) + (rng.choice([0, 1]) if dt > 1 and rng.random() < 0.1 else 0))
    return t


def tracks(rng):
    rows, dt = [], rng.choice([1, 1, 1, 2, 3])
    g = rng.randint(0, 2)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        for t in times(rng, rng.choice([1, 1, 2, 3, 6, 9]), dt):
            rows.append(dict(g=g + 1, t=t, y=rng.randint(-20, 20), v=0, n=0, p=0))
        g += rng.choice([1, 1, 2, 5])
    return rows


def networks(rng):
    """rows, with network (0: untracked) and segment; relatives"""
    rows, dt, g = [], rng.choice([1, 1, 1, 2]), 0
    nets = sorted(rng.sample(range(0, 8), rng.choice([0, 1, 1, 2, 3])))
    for w in nets:
        if w == 0:
            for _ in range(rng.randint(1, 4)):
                rows.append(dict(g=0, w=0, s=0, t=rng.randint(0, 30), y=rng.randint(-20, 20), v=0, n=0, p=0))
            continue
        for s in range(1, rng.choice([1, 2, 2, 3, 4]) + 1):
            g += 1
            first = len(rows)
            for t in times(rng, rng.choice([1, 2, 3, 6]), dt):
                rows.append(dict(g=g, w=w, s=s, t=t, y=rng.randint(-20, 20), v=0, n=0, p=0))
            for i in range(first, len(rows) - 1):
                rows[i]["n"], rows[i + 1]["p"] = i + 2, i + 1
        # events: from a last row or to a first row
        mine = [i for i, r in enumerate(rows) if r["w"] == w]
        for i in mine:
            o = [j for j in mine if rows[j]["g"] != rows[i]["g"]]
            if o and rows[i]["n"] == 0 and rng.random() < 0.5:
                rows[i]["n"] = rng.choice(o) + 1
            if o and rows[i]["p"] == 0 and rng.random() < 0.5:
                rows[i]["p"] = rng.choice(o) + 1
    return rows


def build(rng, R, net, arr=False):
    cls = NetworkObservations if net else TrackEddiesObservations
    kw = dict(track_array_variables=5, array_variables=ARR) if arr else {}
    e = cls(len(R), track_extra_variables=["amplitude", "lon_max", "lat_max", "radius_e", "virtual"], **kw)
    e.sign_type = 1
    o = e.obs
    for i, r in enumerate(R):
        o["time"][i], o["amplitude"][i], o["lat"][i], o["radius_e"][i], o["virtual"][i] = r["t"], r["y"], r["y"] / 2, 1000 + i, r["v"]
        o["lon"][i] = r["y"]
        if net:
            o["track"][i], o["segment"][i], o["next_obs"][i], o["previous_obs"][i] = r["w"], r["s"], r["n"] - 1, r["p"] - 1
        else:
            o["track"][i], o["n"][i] = r["g"] - 1, i
    return e


def bare(R):
    return [dict(g=r["g"], t=r["t"], y=r["y"], v=r["v"], n=r["n"], p=r["p"]) for r in R]


def same(a, b, *but):
    return all((a[n] == b[n]).all() for n in a.dtype.names if n not in but)


def table(rng, net):
    return networks(rng) if net else tracks(rng)


def missing(rng):
    net = rng.random() < 0.5
    R = table(rng, net)
    dt2 = rng.choice([1, 2, 2, 3, 4, 5])
    c = dict(kind="missing", R=bare(R), dt2=dt2, exc="", out=[])
    e = build(rng, R, net)
    if R and rng.random() < 0.2:
        r, exc = call(get_missing_indices, e.time, np.array([q["g"] for q in R]), dt=dt2 / 2)
    else:
        r, exc = call(e.get_missing_indices, rng.choice([dt2 / 2, np.float64(dt2 / 2)]))
    c["exc"] = exc or ""
    if not exc:
        c["out"] = [int(v) for v in r]
    return c


def virtual(rng):
    net = rng.random() < 0.5
    R = table(rng, net)
    if rng.random() < 0.3:
        for i in range(1, len(R) - 1):
            if R[i - 1]["g"] == R[i]["g"] == R[i + 1]["g"] != 0 and rng.random() < 0.3:
                R[i]["v"] = 1
    c = dict(kind="virtual", R=bare(R), net=net, exc="", out=[], source=True)
    e = build(rng, R, net)
    if rng.random() < 0.5:
        if net:
            call(lambda: (e.segment_track_array, e.index_network, e.index_segment_track))
        else:
            call(lambda: (e.index_from_track, e.nb_obs_by_track))
    b = e.obs.copy()
    r, exc = call(e.insert_virtual)
    c["source"] = same(b, e.obs)
    c["exc"] = exc or ""
    if not exc:
        o = r.obs
        f = rng.choice(["amplitude", "lon"])
        g = {(q["w"], q["s"]): q["g"] for q in R} if net else None
        c["out"] = [dict(g=g.get((int(o["track"][i]), int(o["segment"][i])), -1) if net else int(o["track"][i]) + 1, v=int(o["virtual"][i]), t=int(round(float(o["time"][i]) * 1000)), y=int(round(float(o[f][i]) * 1000)),
                         n=int(o["next_obs"][i]) + 1 if net else 0, p=int(o["previous_obs"][i]) + 1 if net else 0) for i in range(len(r))]
        c["source"] = c["source"] and r.sign_type == e.sign_type and type(r) is type(e)
    return c


def fill(rng):
    net = rng.random() < 0.3
    R = table(rng, net)
    e = build(rng, R, net)
    inner = [i for i in range(1, len(R) - 1) if R[i - 1]["g"] == R[i]["g"] == R[i + 1]["g"]]
    M = [i for i in inner if rng.random() < 0.5]
    m = np.zeros(len(R), dtype=bool)
    m[M] = True
    for i in M:
        for n in ("amplitude", "lon", "lat", "time", "lon_max"):
            e.obs[n][i] = rng.choice([0, 9999])
    # time is filled too: the table is read as it was
    c = dict(kind="fill", R=bare(R), m=[i + 1 for i in M], exc="", out=[], others=True)
    b = e.obs.copy()
    r, exc = call(e.filled_by_interpolation, m)
    c["exc"] = exc or ""
    if not exc:
        c["out"] = [int(round(float(v) * 1000)) for v in e.obs[rng.choice(["amplitude", "lon"])]]
        c["others"] = all((b[n] == e.obs[n])[m if n in ("n", "virtual", "track") else ~m].all() for n in b.dtype.names)
    return c


def filters(rng):
    net = rng.random() < 0.4
    R = table(rng, net)
    e = build(rng, R, net)
    op = rng.choice(["median", "loess", "loess", "position"])
    c = dict(kind="filter", R=bare(R), op=op, hw=rng.randint(0 if op == "median" else 1, 3), hw2=rng.randint(1, 3), exc="", out=[], others=True)
    b = e.obs.copy()
    if op == "position":
        f = rng.choice(["lon", "lat"])
        k = 1 if f == "lon" else 2
        r, exc = call(e.position_filter, c["hw"], c["hw2"])
        out = e.obs[f]
        c["others"] = same(b, e.obs, "lon", "lat")
    else:
        f, k = rng.choice(["amplitude", "lon"]), 1
        inplace = rng.random() < 0.5
        kw = dict(inplace=inplace) if not inplace or rng.random() < 0.5 else {}
        r, exc = call(e.median_filter if op == "median" else e.loess_filter, rng.choice([c["hw"], float(c["hw"])]), "time", f, **kw)
        if not exc:
            out = e.obs[f] if inplace else r
            c["others"] = same(b, e.obs, f if inplace else "") and (not inplace or r is e)
    c["exc"] = exc or ""
    if not exc:
        c["out"] = [int(round(float(v) * 100 * k)) for v in out]
    return c


def normal(rng):
    net = rng.random() < 0.4
    R = table(rng, net)
    arr = rng.random() < 0.6
    e = build(rng, R, net, arr)
    o = e.obs
    h = [r["w"] if net else r["g"] for r in R]
    c = dict(kind="normal", h=h, exc="", others=True)
    for i in range(len(R)):
        x = rng.choice([-180, 0, 0, 180, 360, 90]) + rng.randint(-12, 12) / 4
        if i and h[i] == h[i - 1] and rng.random() < 0.9:
            x = o["lon"][i - 1] + rng.randint(-8, 8) / 4 + rng.choice([0, 0, 0, 360, -360])
        o["lon"][i] = x
        o["lon_max"][i] = x + rng.randint(-4, 4) / 4 + rng.choice([0, 0, 360, -360, 720])
        if arr:
            for n in ("contour_lon_e", "contour_lon_s"):
                o[n][i] = x + np.array([rng.randint(-8, 8) / 4 for _ in range(5)]) + rng.choice([0, 0, 360, -360])
                if rng.random() < 0.3:
                    o[n][i, rng.randrange(5)] += rng.choice([360, -360])
    b = o.copy()
    n = rng.choice(["contour_lon_e", "contour_lon_s"])
    cent = lambda a: [int(round(float(v) * 100)) for v in a]  # noqa
    rows = lambda q: [cent(r) for r in q[n]] if arr else [[] for _ in R]  # noqa
    c.update(x=cent(b["lon"]), lm=cent(b["lon_max"]), c=rows(b))
    if rng.random() < 0.3:
        call(lambda: e.segment_track_array if net else e.index_from_track)
    r, exc = call(e.normalize_longitude)
    c["exc"] = exc or ""
    c.update(ox=cent(o["lon"]), olm=cent(o["lon_max"]), oc=rows(o), others=same(b, o, "lon", "lon_max", "contour_lon_e", "contour_lon_s"))
    return c


def azimuth(rng):
    R = tracks(rng)
    e = build(rng, R, False)
    e.obs["lon"] = [rng.choice([-180, 0, 179, 359]) + rng.randint(-8, 8) for _ in R]
    e.obs["lat"] = [rng.randint(-60, 60) for _ in R]
    c = dict(kind="azimuth", exc="", out=[])
    d = []
    eq = rng.random() < 0.5
    ok = True
    for g in sorted({r["g"] for r in R}):
        i = [k for k, r in enumerate(R) if r["g"] == g]
        a, b = e.obs[i[0]], e.obs[i[-1]]
        la, lb, dl = np.radians(float(a["lat"])), np.radians(float(b["lat"])), np.radians(float(b["lon"]) - float(a["lon"]))
        # direction of the great circle: west 0, north 90
        ea, no = np.cos(lb) * np.sin(dl), np.cos(la) * np.sin(lb) - np.sin(la) * np.cos(lb) * np.cos(dl)
        if abs(ea) + abs(no) < 1e-3 and len(i) > 1:
            ok = False
        v = np.degrees(np.arctan2(no, -ea)) if len(i) > 1 else np.nan
        if eq and a["lat"] < 0:
            v = -v
        d.append(v)
    if not ok:
        return azimuth(rng)
    r, exc = call(e.get_azimuth, *([True] if eq else []))
    c["exc"] = exc or ""
    c["def"] = d
    if not exc:
        # a trajectory of one row has no direction
        c["out"] = [0 if np.isnan(q) else int(round(float(v) * 100)) for v, q in zip(r, d)] if len(r) == len(d) else [0] * len(r)
    c["def"] = [0 if np.isnan(v) else int(round(v * 100)) for v in d]
    return c


if __name__ == "__main__":
    req, rec = start()
    rng = random.Random(req["seed"])
    for sc in req["scenarios"]:
        rec.begin(sc["kind"])
        seed = int(sc.get("scn", rng.getrandbits(60)))
        r = random.Random(seed)
        c = dict(missing=missing, virtual=virtual, fill=fill, filter=filters, normal=normal, azimuth=azimuth)[sc["kind"]](r)
        rec.put(dict(c, scn=str(seed)))
    rec.end()
