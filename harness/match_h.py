"""Association of two sets of observations by each tracker."""
import math
import random
import numpy as np
from numpy import ma
from hlib import start, call
import tk_lib
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.featured_tracking.area_tracker import AreaTracker

AMP = [10, 16, 20, 25, 40]


def hav(lon0, lat0, lon1, lat1):
    r = math.radians
    a = math.sin(r(lat1 - lat0) / 2) ** 2 + math.cos(r(lat0)) * math.cos(r(lat1)) * math.sin(r(lon1 - lon0) / 2) ** 2
    return 6370.997 * 2 * math.atan2(math.sqrt(a), math.sqrt(1 - a))


def obs(cls, pos, amp=None, rad=None, rect=None, **kw):
    n = len(pos)
    e = cls(size=n, track_array_variables=8, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"], **kw)
    for i, (x, y) in enumerate(pos):
        e.obs["lon"][i], e.obs["lat"][i] = x, y
        if amp:
            e.obs["amplitude"][i] = amp[i]
            e.obs["radius_s"][i] = e.obs["radius_e"][i] = rad[i] * 1000
        if rect:
            x0, x1, y0, y1 = [v / 4 for v in rect[i]]
            for k in "es":
                sh = 0 if k == "e" else 90  # speed contour elsewhere: it must not be used
                e.obs[f"contour_lon_{k}"][i] = [x0, (x0 + x1) / 2, x1, x1, x1, (x0 + x1) / 2, x0, x0]
                e.obs[f"contour_lat_{k}"][i] = np.array([y0, y0, y0, (y0 + y1) / 2, y1, y1, y1, y0]) * (1 if k == "e" else 0) + (sh if k == "s" else 0) * 0
    return e


def links(r):
    i, j, c = r
    c = ma.filled(c, np.nan)
    return [[int(a), int(b), int(round(float(v) * 10000)) if np.isfinite(v) else -1] for a, b, v in zip(i, j, c)]


def cluster(rng, n, lat0, lon0, span, axis):
    out = []
    for _ in range(n):
        dx = rng.randint(-span, span) / 100
        dy = rng.randint(-span, span) / 100
        if axis == "lat":
            dx = 0
        if axis == "lon":
            dy = 0
        out.append(((lon0 + dx) % 360 if rng.random() < 0.9 else lon0 + dx, lat0 + dy))
    return out


def do_default(sc, rng):
    na, nb = sc["na"], sc["nb"]
    lat0 = rng.choice([0, 0, 30, -45, 60, 70, 12.5])
    lon0 = rng.choice([0, 10, 179.9, 359.8, -0.3])
    span = rng.choice([20, 60, 100, 150])
    while True:
        axis = rng.choice(["lat", "lon", "both"])
        pi, po = (cluster(rng, n, lat0, lon0, span, axis) for n in (na, nb))
        a = obs(EddiesObservations, pi, [rng.choice(AMP) for _ in pi], [rng.choice(AMP) for _ in pi])
        b = obs(EddiesObservations, po, [rng.choice(AMP) for _ in po], [rng.choice(AMP) for _ in po])
        d = [[hav(float(x["lon"]), float(x["lat"]), float(y["lon"]), float(y["lat"])) for y in b.obs] for x in a.obs]
        if all(abs(v - 125) > 0.1 for r in d for v in r):
            break
    r, e = call(a.tracking, b)
    return dict(kind="default", na=na, nb=nb, ai=[int(v) for v in a.obs["amplitude"]], ao=[int(v) for v in b.obs["amplitude"]],
                ri=[int(v // 1000) for v in a.obs["radius_s"]], ro=[int(v // 1000) for v in b.obs["radius_s"]],
                d=[[min(99999, int(round(v * 80))) for v in r_] for r_ in d],
                pos=[pi, po], links=links(r) if r else [], exc=e or "")


def do_area(sc, rng):
    na, nb = sc["na"], sc["nb"]
    lon0 = rng.choice([0, 100, 1430, 1436, 716])
    box = rng.choice([6, 12, 20])

    def rects(n):
        out = []
        for _ in range(n):
            w, h = rng.randint(1, 16), rng.randint(1, 16)
            x, y = lon0 + rng.randint(0, box), rng.randint(-box, box)
            if rng.random() < 0.3:
                x -= 1440  # same place, other convention
            out.append([x, x + w, y, y + h])
        return out
    ri, ro = rects(na), rects(nb)
    cn, cd = rng.choice([(2, 10), (2, 10), (0, 10), (5, 10), (1, 4)])
    kw = {} if (cn, cd) == (2, 10) else dict(cmin=cn / cd)
    # positions deliberately do not decide
    a = obs(AreaTracker, [(0, 0)] * na, rect=ri, **kw)
    b = obs(AreaTracker, [(90, 40)] * nb, rect=ro, **kw)
    r, e = call(a.tracking, b)
    return dict(kind="area", na=na, nb=nb, rin=ri, rout=ro, cn=cn, cd=cd, links=links(r) if r else [], exc=e or "")


def do_chelton(sc, rng):
    from py_eddy_tracker.featured_tracking.old_tracker_reference import CheltonTracker
    seen = {}

    class Rec(CheltonTracker):
        __slots__ = ()

        def mask_function(self, other, distance):
            m = super().mask_function(other, distance)
            seen["m"], seen["d"] = m.copy(), distance.copy()
            return m
    na, nb = sc["na"], sc["nb"]
    lat0 = rng.choice([0, -10, -25, -40])
    lon0 = rng.choice([200, 220, 240])
    span = rng.choice([60, 150, 250])
    pi, po = (cluster(rng, n, lat0, lon0, span, "both") for n in (na, nb))
    am = list(range(10, 10 + na))
    rng.shuffle(am)
    a = obs(Rec, pi, am, [40] * na)
    b = obs(Rec, po, [rng.choice([5, 12, 15, 30]) for _ in po], [rng.choice([40, 60, 120]) for _ in po])
    r, e = call(a.tracking, b)
    adm = [[bool(v) for v in row] for row in seen["m"]]
    # independent part: ratio of amplitudes and radii strictly between 1/2.5 and 2.5, distance defined
    cost = [[int(round(min(v, 9e5) * 1000)) if np.isfinite(v) else 2 * 10**9 for v in row] for row in seen["d"]]
    return dict(kind="chelton", na=na, nb=nb, adm=adm, cost=cost, amp=am, links=links(r) if r else [], exc=e or "")


def do_matrix(sc, rng):
    m = np.array(sc["cost"], dtype="f4").reshape(sc["na"], sc["nb"])
    cost = ma.array(m, mask=m == 0)
    e = EddiesObservations(size=0)
    (r, exc) = call(e.solve_function, cost)
    return dict(kind="matrix", na=sc["na"], nb=sc["nb"], adm=[[v > 0 for v in row] for row in sc["cost"]], cost=sc["cost"],
                links=[[int(i), int(j), 0] for i, j in zip(*r)] if r else [], exc=exc or "")


def main():
    req, rec = start()
    rng = random.Random(req["seed"])
    for sc in req["scenarios"]:
        rec.begin(sc)
        rec.put(globals()["do_" + sc["kind"]](sc, rng))
    rec.end()


main()
