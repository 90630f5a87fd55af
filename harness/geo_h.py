"""Contours made of unit cells: overlap scores, membership, particles, shapes."""
import random
import numpy as np
from hlib import start, call, ints
from py_eddy_tracker import generic, poly
from py_eddy_tracker.observations.observation import EddiesObservations

ARR = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]


def path(p, off=0.25, rev=False, start=0):
    """closed contour around the cells"""
    if not p["c"]:
        # virtual observation: one position repeated
        return np.full(5, p["x"] + off), np.full(5, off)
    lo, up = [], []
    for k, (a, b) in enumerate(p["c"]):
        x = p["x"] + k
        lo += [(x, a), (x + 1, a)]
        up += [(x, b), (x + 1, b)]
    pts = lo + up[::-1]
    out = []
    for w in pts:
        if not out or out[-1] != w:
            out.append(w)
    if rev:
        out = out[::-1]
    out = out[start % len(out):] + out[:start % len(out)]
    a = np.array(out + [out[0]], dtype="f8") + off
    return a[:, 0], a[:, 1]


def pad(x, y, n, mode):
    """fixed size, as stored: repeated end or points added on the sides"""
    if len(x) < n and mode == "dup":
        # resampled: middle of the sides
        x, y = list(x), list(y)
        k = 0
        while len(x) < n:
            i = k % (len(x) - 1)
            x.insert(i + 1, (x[i] + x[i + 1]) / 2)
            y.insert(i + 1, (y[i] + y[i + 1]) / 2)
            k += 2
        return np.array(x), np.array(y)
    return np.concatenate([x, np.full(n - len(x), x[0])]), np.concatenate([y, np.full(n - len(y), y[0])])


def build(rng, polys, intern=False, dtype=None):
    n = max([len(p["c"]) * 4 + 1 for p in polys] + [5]) + rng.randint(0, 4)
    e = EddiesObservations(len(polys), track_array_variables=n, array_variables=ARR, track_extra_variables=[])
    e.sign_type = 1
    x, y = ("contour_lon_s", "contour_lat_s") if intern else ("contour_lon_e", "contour_lat_e")
    u, v = ("contour_lon_e", "contour_lat_e") if intern else ("contour_lon_s", "contour_lat_s")
    for i, p in enumerate(polys):
        px, py = path(p, rev=rng.random() < 0.5, start=rng.randint(0, 9))
        e.obs[x][i], e.obs[y][i] = pad(px + p.get("turn", 0) * 360, py, n, rng.choice(["end", "dup"]))
        # the other contour is elsewhere: it must not be looked at
        e.obs[u][i], e.obs[v][i] = e.obs[x][i] + 40, e.obs[y][i] + 30
        e.obs["lon"][i], e.obs["lat"][i] = e.obs[x][i].mean(), e.obs[y][i].mean()
    return e


def rand_poly(rng, x0, span, ymax=6, point=0.):
    n = rng.randint(1, 5)
    if rng.random() < point:
        return dict(x=x0 + rng.randint(0, span), c=[])
    c = []
    for k in range(n):
        for _ in range(20):
            a = rng.randint(-ymax, ymax - 1)
            b = rng.randint(a + 1, ymax)
            if not c or (a < c[-1][1] and c[-1][0] < b):
                break
        else:
            break
        c.append([a, b])
    p = dict(x=x0 + rng.randint(0, span), c=c)
    return p


def anywhere(rng, polys, ref):
    """the same polygons, written with another turn"""
    for p in polys:
        p["turn"] = rng.choice(ref)
    return polys


def bare(polys):
    return [dict(x=p["x"], c=p["c"]) for p in polys]


def positions(x, y, scale=1):
    return [[] if np.isnan(a) else [int(round(a * scale)), int(round(b * scale))] for a, b in zip(x, y)]


def line(rng):
    what = rng.choice(["visvalingam", "flat", "split", "simplify", "wrap", "cutwrap", "resample", "local"])
    c = dict(what=what, exc="", v=[], ls=[], i=[], n=0, out=[], back=[])
    dt = rng.choice(["f4", "f8"])
    pt = lambda m=9: [rng.randint(-m, m), rng.randint(-m, m)]  # noqa
    arr = lambda v, s=1.: [np.array([p[k] * s if len(p) else np.nan for p in v], dtype=dt) for k in (0, 1)]  # noqa
    if what == "visvalingam":
        v = [pt() for _ in range(rng.randint(3, 8))]
        c["v"], c["n"] = v + v[:1], rng.randint(4, 10)
        r, exc = call(poly.visvalingam, *arr(c["v"]), c["n"])
    elif what == "flat":
        n, m = rng.randint(0, 5), rng.randint(1, 6)
        c["ls"] = [[pt() for _ in range(m)] for _ in range(n)]
        a = np.array(c["ls"], dtype=dt).reshape(n, m, 2)
        r, exc = call(lambda: [generic.flatten_line_matrix(np.ascontiguousarray(a[:, :, k])) for k in (0, 1)])
        if n == 0 and exc is None:
            # no line: nothing drawn
            r = [q[~np.isnan(q)] for q in r]
    elif what == "split":
        c["v"] = [pt() for _ in range(rng.randint(1, 9))]
        c["i"] = [rng.choice([3, 3, 3, 4, 7]) for _ in c["v"]]
        r, exc = call(generic.split_line, *arr(c["v"]), np.array(c["i"], dtype=rng.choice(["u4", "i8"])))
    elif what == "simplify":
        for k in range(rng.randint(1, 3)):
            w = [pt(4)]
            while len(w) < 9 and rng.random() < 0.8:
                w.append([w[-1][0] + rng.randint(-3, 3), w[-1][1] + rng.randint(-3, 3)])
            c["ls"].append([[p[0] + 1000 * k, p[1]] for p in w])
        v = []
        for w in c["ls"]:
            v += ([[]] * rng.randint(1, 2) if v else []) + w
        if len(v) == 1:
            v.append([9, 9])
            c["ls"][0].append([9, 9])
        c["n"] = rng.randint(1, 5)
        # distances are never equal to the precision
        r, exc = call(generic.simplify, *arr(v), c["n"] + 0.003)
    elif what in ("wrap", "cutwrap"):
        # tenths of degree, a contiguous line
        v, x, step = [], rng.choice([0, 3590, 1800, -1800, -3590, 5000]), rng.choice([4, 30, 600])
        for _ in range(rng.randint(1, 14)):
            if v and v[-1] != [] and rng.random() < 0.1:
                v.append([])
            x += rng.randint(-step, step)
            v.append([x, rng.randint(-80, 80)])
        if v[0] == []:
            v = v[1:]
        # bounds of the turn are never touched
        c["v"], c["n"] = [[2 * p[0], p[1]] if p else p for p in v], rng.choice([0, 3600, -3600, 360, 1500, -40]) + 1
        x, y = arr([[p[0] / 10, p[1]] if p else p for p in c["v"]])
        r, exc = call(generic.wrap_longitude, x, y, c["n"] / 10, cut=what == "cutwrap")
        if exc is None:
            r = [r[0].astype("f8") * 10, r[1]]
    elif what == "resample":
        v = [pt(3)]
        for _ in range(rng.randint(1, 5)):
            a = v[-1]
            s = rng.choice([-2, -1, 1, 2])
            w = [a[0] + s, a[1]] if rng.random() < 0.5 else [a[0], max(-5, min(5, a[1] + s))]
            # goes on or turns, never back
            if w != a and (len(v) < 2 or (w[0] - a[0]) * (a[0] - v[-2][0]) + (w[1] - a[1]) * (a[1] - v[-2][1]) >= 0) and w not in v:
                v.append(w)
        if len(v) == 1:
            v.append([v[0][0] + 1, v[0][1]])
        c["v"], c["n"] = v, rng.randint(2, 12)
        x, y = arr(v)
        # tenths of degree; at 60 degrees two units of longitude are as long as one of latitude
        lat0 = rng.choice([0, 60, -60])
        k = 2 if lat0 else 1
        r, exc = call(generic.uniform_resample, x.astype("f8") * k / 10, y.astype("f8") / 10 + lat0, fixed_size=c["n"])
        if exc is None:
            r = [r[0] * 10000 / k, (r[1] - lat0) * 10000]
    else:
        # hundredths of degree around a centre
        c["v"] = [[rng.choice([0, rng.randint(-150, 150)]), rng.choice([0, rng.randint(-150, 150)])] for _ in range(rng.randint(1, 8))]
        lon0, lat0 = rng.choice([0, 359, -180, 77.5]), rng.choice([0, 45, -60])
        lon, lat = np.array([p[0] / 100 + lon0 for p in c["v"]]), np.array([p[1] / 100 + lat0 for p in c["v"]])

        def run():
            x, y = generic.coordinates_to_local(lon, lat, lon0, lat0)
            return x, y, generic.local_to_coordinates(x, y, lon0, lat0)
        r, exc = call(run)
        if exc is None:
            c["back"] = positions((r[2][0] - lon0), (r[2][1] - lat0), 100)
    c["exc"] = exc or ""
    if exc is None:
        c["out"] = positions(r[0], r[1])
    return c


def main():
    req, rec = start()
    rng = random.Random(req["seed"])
    for sc in req["scenarios"]:
        rec.begin(dict(kind=sc["kind"]))
        kind = sc["kind"]
        mode = rng.choice(["union", "union", "minimal", "p1"])
        hybrid = rng.random() < 0.3
        mn = rng.choice([0, 0, rng.randint(1, 900)])
        kw = {}
        if mode == "minimal":
            kw["minimal_area"] = True
        if mode == "p1":
            kw["p1_area"] = True
        if hybrid:
            kw["hybrid_area"] = True
        if mn:
            kw["min_overlap"] = mn / 997
        case = dict(kind=kind, exc="", mode=mode, hybrid=hybrid, min=mn)
        intern = rng.random() < 0.4
        if kind == "pairs":
            case["a"], case["b"] = [s["p"] for s in sc["ps"]], [s["q"] for s in sc["ps"]]
            for s in sc["ps"]:
                if s["q"]["x"] >= 350:
                    # on the other side of the origin
                    s["q"]["turn"] = rng.choice([0, -1])
                s["p"]["turn"] = rng.choice([0, 0, 1]) if s["q"].get("turn") is None else 0
            ea, eb = build(rng, case["a"], intern), build(rng, case["b"], intern)
            x, y = EddiesObservations.intern(intern)
            r, exc = call(poly.vertice_overlap, ea[x], ea[y], eb[x], eb[y], **kw)
            case["s"] = [int(round(v * 10000)) for v in r] if exc is None else []
            case["a"], case["b"] = bare(case["a"]), bare(case["b"])
            case["exc"] = exc or ""
        elif kind == "match":
            x0, span = rng.choice([0, 356, 177, 90, -183]), rng.choice([3, 8])
            pa = [rand_poly(rng, x0, span, point=0.08) for _ in range(rng.randint(0, 6))]
            pb = [rand_poly(rng, x0, span, point=0.08) for _ in range(rng.randint(0, 6))]
            turns = rng.choice([(0,), (0, 1), (-1, 0), (0, 1)])
            anywhere(rng, pa, turns), anywhere(rng, pb, turns)
            a, b = build(rng, pa, intern), build(rng, pb, intern)
            sa, sb = list(range(len(pa))), list(range(len(pb)))
            ka = {}
            form = rng.choice(["none", "index", "mask", "slice"])
            ref = slice(0, len(pb))
            if form != "none":
                sa = [i for i in sa if rng.random() < 0.7]
                sb = [i for i in sb if rng.random() < 0.7]
                if form == "slice":
                    i0, j0 = (min(sa) if sa else 0), (min(sb) if sb else 0)
                    sa, sb = list(range(i0, len(pa))), list(range(j0, len(pb)))
                    ka = dict(i_self=slice(i0, len(pa)), i_other=slice(j0, len(pb)))
                    ref = ka["i_other"]
                elif form == "index":
                    rng.shuffle(sb)
                    ka = dict(i_self=np.array(sa, dtype="i8"), i_other=np.array(sb, dtype="i8"))
                    ref = ka["i_other"]
                else:
                    ma, mb = np.zeros(len(pa), "bool"), np.zeros(len(pb), "bool")
                    ma[sa], mb[sb] = True, True
                    ka = dict(i_self=ma, i_other=mb)
                    ref = np.where(mb)[0]
            cm = rng.choice([0, rng.randint(1, 900)])
            r, exc = call(a.match, b, intern=intern, cmin=cm / 997, **ka, **kw)
            case.update(a=[bare(pa)[i] for i in sa], b=[bare(pb)[i] for i in sb], cmin=cm, exc=exc or "", i=[], j=[], s=[], rj=[], keep=sb)
            if exc is None:
                case.update(i=ints(r[0]), j=ints(r[1]), s=[int(round(v * 10000)) for v in r[2]], rj=ints(EddiesObservations.re_reference_index(r[1], ref)))
        elif kind == "centers":
            x0 = rng.choice([0, 3599, 1800, -1800])
            gen = lambda: [[x0 + rng.randint(-6, 6), rng.randint(-6, 6)] for _ in range(rng.randint(0, 5))]  # noqa
            case.update(pa=gen(), pb=gen(), delta=rng.choice([1, 3, 7, 11]), i=[], j=[])
            ea, eb = EddiesObservations(len(case["pa"])), EddiesObservations(len(case["pb"]))
            for e, ps in ((ea, case["pa"]), (eb, case["pb"])):
                for k, (x, y) in enumerate(ps):
                    e.obs["lon"][k], e.obs["lat"][k] = x / 10 + 360 * rng.choice([0, 0, 1]), y / 10
            r, exc = call(ea.match, eb, method="close_center", delta=case["delta"] / 20)
            case["exc"] = exc or ""
            if exc is None:
                case.update(i=ints(r[0]), j=ints(r[1]))
        elif kind == "inside":
            x0, span = rng.choice([0, 355, 176, -184, 20]), rng.choice([4, 10])
            ps = [rand_poly(rng, x0, span, point=0.08) for _ in range(rng.randint(1, 6))]
            anywhere(rng, ps, rng.choice([(0,), (0, 1), (-1, 0)]))
            pts = [[x0 + rng.randint(-2, span + 6), rng.randint(-7, 7), 0] for _ in range(rng.choice([0, 1, 5, 20, 40]))]
            if rng.random() < 0.3:
                pts += [[rng.randint(-180, 360), rng.randint(-80, 80), 0] for _ in range(20)]
            wn = rng.random() < 0.3
            for p in pts:
                if wn and rng.random() < 0.2:
                    p[2] = 1
            fr = rng.choice([0.5, 0.75, 1])
            # points inside the cells (contours are shifted by a quarter)
            dt = rng.choice(["f8", "f4"])
            x = np.array([p[0] + fr + 360 * rng.choice([0, 0, -1, 1]) for p in pts], dtype=dt)
            y = np.array([p[1] + rng.choice([0.5, 1, 1.125]) for p in pts], dtype=dt)
            for k, p in enumerate(pts):
                if p[2]:
                    (x if rng.random() < 0.5 else y)[k] = np.nan
            e = build(rng, ps, intern)
            case.update(a=bare(ps), pts=pts, ins=[-1], mpo=[-1], out=[])

            def run():
                out = ints(e.contains(x, y, intern=intern))
                ins = mpo = [-1]
                if not any(p[2] for p in pts):
                    ins = ints(e.inside(x, y, intern=intern))
                    t = EddiesObservations(len(pts))
                    t.obs["lon"][:], t.obs["lat"][:] = x, y
                    n = EddiesObservations.intern(intern)
                    mpo = ints(t.mask_from_polygons([(a, b) for a, b in zip(e[n[0]], e[n[1]])]))
                return out, ins, mpo
            r, exc = call(run)
            case["exc"] = exc or ""
            if exc is None:
                case["out"], case["ins"], case["mpo"] = r
        elif kind == "particles":
            ps = [rand_poly(rng, rng.choice([0, -3, 356, 100]), 5) for _ in range(rng.randint(1, 4))]
            e = build(rng, ps, intern)
            d = rng.choice([1, 2])
            r, exc = call(e.create_particles, 1.0 / d, intern=intern)
            case.update(a=bare(ps), d=d, exc=exc or "", part=[])
            if exc is None:
                case["part"] = [[int(round(x * d)), int(round(y * d)), int(i)] for x, y, i in zip(*r)]
        elif kind == "contain":
            p, q = rand_poly(rng, rng.choice([0, 358, -181]), 2), rand_poly(rng, 0, 1, 3)
            q["x"] = p["x"] + rng.randint(-1, 2)
            xo, yo = path(p, rev=rng.random() < 0.5, start=rng.randint(0, 5))
            xi, yi = path(q, off=0.75, rev=rng.random() < 0.5, start=rng.randint(0, 5))
            t = rng.choice([0, 0, 1, -1])
            r, exc = call(poly.poly_contain_poly, poly.create_vertice(xo, yo), poly.create_vertice(xi + 360 * t, yi))
            case.update(a=bare([p]), pts=[[int(x - 0.75), int(np.floor(y - 0.5)), 0] for x, y in zip(xi, yi)], flag=bool(r), exc=exc or "")
        elif kind == "line":
            case.update(line(rng))
        else:
            # integer polygons, anti clockwise around the origin
            n = rng.randint(3, 9)
            best = {}
            for _ in range(n):
                w = (rng.randint(-9, 9), rng.randint(-9, 9))
                if w == (0, 0):
                    continue
                g = np.gcd(abs(w[0]), abs(w[1]))
                best[(w[0] // g, w[1] // g)] = w
            v = sorted(best.values(), key=lambda w: np.arctan2(w[1], w[0]))
            ang = [np.arctan2(w[1], w[0]) for w in v]
            gaps = [(b - a) % (2 * np.pi) for a, b in zip(ang, ang[1:] + ang[:1])]
            if len(v) < 3 or max(gaps) > np.pi - 0.01:
                continue
            rev = rng.random() < 0.5
            w = v[::-1] if rev else v
            k = rng.randrange(len(w))
            w = w[k:] + w[:k]
            a = np.array(w + w[:1], dtype="f8")
            x, y = a[:, 0].copy(), a[:, 1].copy()
            cr = lambda a, b, c: (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])  # noqa
            general = all(cr(a_, b_, c_) != 0 for i, a_ in enumerate(w) for j, b_ in enumerate(w) for l, c_ in enumerate(w) if i < j < l)

            def run():
                h = []
                if not rev and general:
                    hx, hy = poly.get_convex_hull(x, y)
                    h = [[int(p), int(q)] for p, q in zip(hx[:-1], hy[:-1])]
                return int(round(2 * poly.poly_area(x, y))), bool(poly.convex(x, y)), h
            r, exc = call(run)
            case.update(v=[list(p) for p in w], exc=exc or "", area=-1, convex=False, hull=[])
            if exc is None:
                case["area"], case["convex"], case["hull"] = r
        rec.put(case)
    rec.end()


if __name__ == "__main__":
    main()
