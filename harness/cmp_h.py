"""Comparison of datasets, circles, shapes of trajectories."""
import os
import random
import sys
import numpy as np
from hlib import start, call, ints, WORK
import geo_h as G
from py_eddy_tracker.appli import eddies as A
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.observations.tracking import TrackEddiesObservations
from py_eddy_tracker.observations.network import NetworkObservations
from py_eddy_tracker.poly import create_vertice, winding_number_poly

NAMES = ["nomatch", "low", "intermediate", "high", "multi_match", "parent", "twin", "complex"]
# hundredths of percent, prime: never equal to a score of cells
PRIMES = [101, 499, 997, 1999, 2503, 3001, 4001, 4999, 5003, 6007, 7001, 8009, 9001]


def out(g):
    return {k: ints(np.where(g[k])[0]) if g[k].dtype == bool else ints(g[k]) for k in NAMES}


def groups(rng):
    n1, n2 = rng.choice([0, 1, 2, 3, 5, 8]), rng.choice([0, 1, 2, 3, 5, 8])
    dense = rng.choice([0.1, 0.2, 0.4, 0.8])
    L = [(i, j, rng.randint(0, 99)) for i in range(n1) for j in range(n2) if rng.random() < dense]
    if rng.random() < 0.3:
        rng.shuffle(L)
    inv, low, high = sorted(rng.choice([0, 1, 5, 20, 40, 60, 80, 100]) for _ in range(3))
    c = dict(kind="groups", l=[list(v) for v in L], n1=n1, n2=n2, th=dict(invalid=inv, low=low, high=high), exc="", g1={k: [] for k in NAMES}, g2={k: [] for k in NAMES}, source=True)
    i, j = np.array([v[0] for v in L], dtype="i8"), np.array([v[1] for v in L], dtype="i8")
    s = np.array([v[2] / 100 + 0.005 for v in L])
    b = i.copy(), j.copy(), s.copy()
    # scores are in the middle of two whole percents
    r, exc = call(A.get_group, range(n1), range(n2), i, j, s, invalid=inv, low=low, high=high)
    c["exc"] = exc or ""
    c["source"] = all((u == v).all() for u, v in zip(b, (i, j, s)))
    if not exc:
        c["g1"], c["g2"] = out(r[0]), out(r[1])
    return c


def family(rng, lone=0.1):
    """contours of two datasets which often share things"""
    x0 = rng.choice([0, 10, 200, 352])
    span = rng.choice([2, 5, 12, 20])
    a = [G.rand_poly(rng, x0, span, point=lone) for _ in range(rng.choice([0, 1, 2, 4, 7]))]
    b = []
    for p in a:
        u = rng.random()
        if u < 0.3:
            b.append(dict(x=p["x"], c=[list(v) for v in p["c"]]))
        elif u < 0.5 and len(p["c"]) > 1:
            k = rng.randint(1, len(p["c"]) - 1)
            b += [dict(x=p["x"], c=p["c"][:k]), dict(x=p["x"] + k, c=p["c"][k:])]
        elif u < 0.6:
            b.append(dict(x=p["x"] + 1, c=[list(v) for v in p["c"]]))
    b += [G.rand_poly(rng, x0, span, point=lone) for _ in range(rng.choice([0, 0, 1, 3]))]
    rng.shuffle(b)
    if rng.random() < 0.5:
        a, b = b, a
    return G.anywhere(rng, a, [0, 0, -1, 1]), G.anywhere(rng, b, [0, 0, -1])


def thresholds(rng):
    v = sorted(rng.sample(PRIMES, 3))
    return dict(invalid=v[0], low=v[1], high=v[2])


def compare(rng, app):
    a, b = family(rng)
    th, intern, mini = thresholds(rng), rng.random() < 0.4, rng.random() < 0.4
    c = dict(kind="app" if app else "compare", a=G.bare(a), b=G.bare(b), th=th, minimal=mini, exc="", g1={k: [] for k in NAMES}, g2={k: [] for k in NAMES}, source=True)
    if app:
        # what a file holds: -147 to 507
        for p in a + b:
            if not -140 < p["x"] + 360 * p.get("turn", 0) < 495:
                p["turn"] = 0
    ea, eb = G.build(rng, a, intern), G.build(rng, b, intern)
    kw = {k: v / 100 for k, v in th.items()}
    if not app:
        o = {f"d{k}": G.build(rng, b, intern) for k in range(rng.choice([1, 1, 2]))}
        s = [e.obs.copy() for e in (ea, *o.values())]
        r, exc = call(A.run_compare, ea, o, intern=intern, **kw, **(dict(minimal_area=True) if mini else {}))
        c["exc"] = exc or ""
        c["source"] = all(u.tobytes() == e.obs.tobytes() for u, e in zip(s, (ea, *o.values())))
        if not exc:
            k = rng.choice(list(o))
            c["g1"], c["g2"] = out(r[0][k]), out(r[1][k])
            c["source"] = c["source"] and list(r[0]) == list(o) == list(r[1])
        return c
    d = os.path.join(WORK, f"cmp{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    for e in (ea, eb):
        # rows are known by their radius (packed in the file: 50 m)
        e.obs["radius_s"] = np.arange(len(e)) * 50
    fa, fb, po = f"{d}/a.nc", f"{d}/b.nc", f"{d}/out{rng.randint(0, 10**9)}"
    ea.write_file(filename=fa)
    eb.write_file(filename=fb)
    argv = ["EddyQuickCompare", fa, fb, "--path_out", po, *(("--intern",) if intern else ()), *(("--minimal_area",) if mini else ())]
    for k, v in kw.items():
        argv += [f"--{k}", str(v)]
    old, sys.argv = sys.argv, argv
    try:
        r, exc = call(A.quick_compare)
    except SystemExit as e:
        exc = f"SystemExit {e}"
    sys.argv = old
    c["exc"] = exc or ""
    if not exc:
        for g, w in (("g1", "ref"), ("g2", "other")):
            for k in NAMES:
                e = EddiesObservations.load_file(f"{po}/{fb.replace('/', '_')}/{w}_{k}.nc")
                c[g][k] = [int(round(v / 50)) for v in e.obs["radius_s"]]
    return c


def tracked(rng, polys, net):
    """table of trajectories (networks) of these contours"""
    n = len(polys)
    src = G.build(rng, polys, False)
    cls = NetworkObservations if net else TrackEddiesObservations
    e = cls(n, track_array_variables=src.track_array_variables, array_variables=G.ARR, track_extra_variables=["virtual"])
    for k in ("lon", "lat", *G.ARR):
        e.obs[k] = src.obs[k]
    e.sign_type = 1
    t, ident = [], []
    g = rng.choice([0, 0, 1, 2])
    left = n
    while left:
        m = min(left, rng.choice([1, 1, 2, 3, 5]))
        t0 = rng.randint(0, 3)
        t += [t0 + k for k in range(m)]
        ident += [g] * m
        g += rng.choice([1, 1, 2, 4])
        left -= m
    base = rng.choice([0, 5, 20000])
    e.obs["time"] = np.array(t) + base + (rng.choice([0, 0, 0, 9]))
    e.obs["track"] = ident
    if net:
        e.obs["segment"], e.obs["next_obs"], e.obs["previous_obs"] = 1, -1, -1
    else:
        e.obs["n"] = np.arange(n)
    return e


def close(rng):
    net = rng.random() < 0.4
    a, b = family(rng, 0.05)
    while not a or not b:
        a, b = family(rng, 0.05)
    a, b = (p + [dict(q, c=[list(v) for v in q["c"]]) for q in rng.choices(p, k=rng.randint(0, 4))] for p in (a, b))
    base = rng.choice([0, 20000])
    ea, eb = tracked(rng, a, net), tracked(rng, b, net)
    for e in (ea, eb):
        e.obs["time"] = e.obs["time"] - e.obs["time"].min() + base + rng.choice([0, 0, 1, 2, 8])
    mn, nb = rng.choice([101, 101, 499, 1999, 5003]), rng.choice([1, 1, 2, 3])
    c = dict(kind="close", a=G.bare(a), b=G.bare(b), ta=ints(ea.time), tb=ints(eb.time), id=ints(eb.track), min=mn, nb=nb, exc="", out=[], source=True)
    s = ea.obs.copy(), eb.obs.copy()
    m = dict(min_overlap=mn / 10000)
    r, exc = call(ea.close_network if net else ea.close_tracks, eb, nb_obs_min=nb, **m)
    c["exc"] = exc or ""
    if not exc:
        rows = {v.tobytes(): k + 1 for k, v in enumerate(eb.obs[["lon", "lat", "time", "track"]])}
        d = [v.tobytes() for v in eb.obs]
        last, o = 0, []
        for v in r.obs:
            k = next((k for k in range(last, len(d)) if d[k] == v.tobytes()), -1)
            o.append(k + 1)
            last = k + 1 if k >= 0 else last
        c["out"] = o
    c["source"] = s[0].tobytes() == ea.obs.tobytes() and s[1].tobytes() == eb.obs.tobytes()
    return c


def far(x0, y0, x, y):
    d = np.radians
    s = np.sin(d(y - y0) / 2) ** 2 + np.cos(d(y0)) * np.cos(d(y)) * np.sin(d(x - x0) / 2) ** 2
    return 2 * 6370997 * np.arcsin(np.sqrt(s))


def chord(r, n):
    R = 6370997
    return 2 * R * np.arcsin(np.sin(r / R) * np.sin(np.pi / n))


def circle(rng):
    n, m = rng.choice([0, 1, 2, 4, 9]), rng.choice([5, 9, 20, 50])
    both = rng.random() < 0.7
    names = G.ARR if both else rng.choice([G.ARR[:2], G.ARR[2:]])
    app = rng.random() < 0.3
    cls = EddiesObservations if app else TrackEddiesObservations
    bare = app and rng.random() < 0.5
    ev = ["virtual"] if cls is TrackEddiesObservations else []
    e = cls(n, track_extra_variables=ev) if bare else cls(n, track_array_variables=m, array_variables=names, track_extra_variables=ev)
    e.sign_type = 1
    o = e.obs
    o["lon"], o["lat"] = [rng.choice([0, 12, 179, 359, 400]) + rng.randint(0, 3) / 4 for _ in range(n)], [rng.randint(-75, 75) for _ in range(n)]
    o["radius_s"], o["radius_e"] = [rng.randint(1, 60) * 1000 for _ in range(n)], [rng.randint(61, 150) * 1000 for _ in range(n)]
    v = [rng.random() < 0.5 for _ in range(n)]
    only = not app and rng.random() < 0.5
    if ev:
        o["virtual"] = v
    factor = 1 if app else rng.choice([1, 1, 2, 0.5])
    if not bare:
        for k in names:
            o[k] = 3
    c = dict(kind="circle", exc="", d=[], others=True)
    b = o.copy()
    if app:
        d = os.path.join(WORK, f"cmp{os.getpid()}")
        os.makedirs(d, exist_ok=True)
        e.write_file(filename=f"{d}/c.nc")
        old, sys.argv = sys.argv, ["x", f"{d}/c.nc", f"{d}/c2.nc"]
        r, exc = call(A.eddies_add_circle)
        sys.argv = old
        if not exc:
            e2 = EddiesObservations.load_file(f"{d}/c2.nc")
    else:
        r, exc = call(e.circle_contour, only_virtual=only, **(dict(factor=factor) if factor != 1 else {}))
        e2 = e
    c["exc"] = exc or ""
    if exc:
        return c
    o = e2.obs
    for k in range(n):
        for i in "se":
            x, y = f"contour_lon_{i}", f"contour_lat_{i}"
            if not bare and x not in names:
                continue
            if only and not v[k]:
                c["others"] = c["others"] and (o[x][k] == 3).all() and (o[y][k] == 3).all()
                continue
            px, py = o[x][k].astype("f8"), o[y][k].astype("f8")
            dist = far(float(b["lon"][k]), float(b["lat"][k]), px, py)
            gap = far(px[1:], py[1:], px[:-1], py[:-1])
            tol = 1000 if app else 20
            c["d"].append(dict(set=True, v=ints(dist), r=int(float(b[f"radius_{i}"][k]) * factor), tol=tol,
                               closed=bool(gap.size and far(px[0], py[0], px[-1], py[-1]) <= 2 * tol), spread=bool(np.abs(gap - chord(dist.mean(), len(px) - 1)).max() <= 2 * tol + gap.mean() / 100)))
    c["others"] = bool(c["others"] and len(o) == n and all((np.abs(o[k].astype("f8") - b[k].astype("f8")) <= 1e-2 * (1 if k not in ("radius_s", "radius_e") else 5000)).all() for k in b.dtype.names if "contour" not in k))
    return c


def odd(parts, x, y):
    return sum(winding_number_poly(x, y, v) != 0 for v in parts) % 2 == 1


def shape(rng):
    intern = rng.random() < 0.4
    polys, tr, p = [], [], []
    g = rng.choice([0, 0, 2])
    for _ in range(rng.choice([0, 1, 2, 3])):
        x0 = rng.choice([0, 10, 200])
        t = [G.rand_poly(rng, x0, rng.choice([1, 3, 8]), ymax=3) for _ in range(rng.choice([1, 2, 3, 4]))]
        polys += t
        tr += [g] * len(t)
        p.append(G.bare(t))
        g += rng.choice([1, 1, 3])
    e = TrackEddiesObservations.new_like(TrackEddiesObservations(0, track_array_variables=5, array_variables=G.ARR), 0)
    src = G.build(rng, polys, intern)
    e = TrackEddiesObservations(len(polys), track_array_variables=src.track_array_variables, array_variables=G.ARR)
    for k in ("lon", "lat", *G.ARR):
        e.obs[k] = src.obs[k]
    e.obs["track"] = tr
    c = dict(kind="shape", p=p, exc="", inside=[], odd=[])
    r, exc = call(e.shape_polygon, intern=intern)
    c["exc"] = exc or ""
    if exc:
        return c
    for x, y in r:
        cut = np.where(np.isnan(x))[0]
        # pieces, closed
        parts = [create_vertice(np.append(u, u[:1]), np.append(w, w[:1])) for u, w in ((a[~np.isnan(a)], b[~np.isnan(a)]) for a, b in zip(np.split(np.asarray(x, "f8"), cut), np.split(np.asarray(y, "f8"), cut))) if len(u)]
        x0, x1 = int(np.nanmin(x)) - 1, int(np.nanmax(x)) + 1
        cells = [(i, j) for i in range(x0, x1 + 1) for j in range(-5, 6)]
        c["inside"].append([[i, j] for i, j in cells if odd(parts, i + 0.75, j + 0.75)])
        # near the corner of the cell too
        c["odd"].append([[i, j] for i, j in cells if odd(parts, i + 0.27, j + 1.23)])
    return c


def main():
    req, rec = start()
    rng = random.Random(req["seed"])
    for sc in req["scenarios"]:
        s = sc.get("scn") or str(rng.random())[2:]
        rec.begin(dict(kind=sc["kind"], scn=s))
        r = random.Random(s)
        k = sc["kind"]
        case = groups(r) if k == "groups" else compare(r, k == "app") if k in ("compare", "app") else close(r) if k == "close" else circle(r) if k == "circle" else shape(r)
        case["scn"] = s
        rec.put(case)
    rec.end()


if __name__ == "__main__":
    main()
