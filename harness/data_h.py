"""Replays operations on datasets (rows of which are recognised field by field)."""
import random
import numpy as np
from hlib import start, call, ints
from tk_lib import EXTRA, ARR, NPT, code
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.observations.tracking import TrackEddiesObservations

CLS = dict(T=TrackEddiesObservations, E=EddiesObservations)
NOENC = {"lon", "lat", "time", "track", "n", "virtual"}
DEG = 6370997.0 * np.pi / 180
OWN = {"distance_next", "type_cyc"}


def make(kind, rows, sign, arr=True, uid0=1):
    cls = CLS[kind]
    ex = list(EXTRA)
    e = cls(size=len(rows), track_extra_variables=ex, track_array_variables=NPT if arr else 0, array_variables=list(ARR) if arr else [])
    e.sign_type = sign
    for name in e.fields:
        if name in NOENC:
            continue
        for i in range(len(rows)):
            v = code(name, uid0 + i)
            e.obs[name][i] = v + np.arange(NPT) if e.obs[name].ndim == 2 else v
    for i, r in enumerate(rows):
        e.obs["lon"][i], e.obs["lat"][i], e.obs["time"][i] = r["x"], r["y"], r["t"]
        if kind == "T":
            e.obs["track"][i], e.obs["n"][i], e.obs["virtual"][i] = r["tr"], r["n"], r["v"]
    return e


def rows_of(e):
    tk = "track" in e.obs.dtype.names
    return [dict(tr=int(o["track"]) if tk else 0, n=int(o["n"]) if tk else 0, v=int(o["virtual"]) if tk else 0,
                 t=int(round(float(o["time"]))), x=int(round(float(o["lon"]))), y=int(round(float(o["lat"])))) for o in e.obs]


def keys(obs, names):
    out = []
    cols = [np.ascontiguousarray(obs[n]) for n in names]
    for i in range(len(obs)):
        out.append(b"|".join(c[i].tobytes() for c in cols))
    return out


def locate(res, sources):
    """position (from 1) in the concatenated sources of each row of res, all fields equal but the identity"""
    names = sorted(set(res.obs.dtype.names) - OWN - {"track"})
    table, k = {}, 0
    missing = set()
    for s in sources:
        sn = set(s.obs.dtype.names)
        if len(s) and not set(names) <= sn:
            missing |= set(names) - sn
    names = [n for n in names if n not in missing]
    for s in sources:
        for key in keys(s.obs, names) if len(s) else []:
            k += 1
            table.setdefault(key, k)
    # what a field which the source has not contains is not looked at
    return [table.get(key, 0) for key in keys(res.obs, names)] if len(res) else []


def queries(e, rng):
    """answers of the queries by track"""
    q = dict(ok=0, exc="")
    if "track" not in e.obs.dtype.names:
        return q
    tr = e.obs["track"].astype("i8")
    if len(tr) and (tr[1:] < tr[:-1]).any():
        return q
    q["ok"] = 1

    def f():
        # values asked before and after any cache
        n = len(e)
        ids = sorted(set(rng.sample(range(0, int(tr.max()) + 3), min(2, int(tr.max()) + 3)))) if n else [3]
        c = e.copy()
        c.normalize_longitude()
        d = e.distance_to_next() if n else np.zeros(0)
        a = e.add_distance().obs["distance_next"] if n and "distance_next" not in e.fields else d
        it = []
        k = 0
        for t in e.iter_track():
            src = locate(t, [e])
            it.append([src[0], src[-1]] if src == list(range(src[0], src[0] + len(src))) else [0, 0])
        return dict(
            nb=ints(e.nb_obs_by_track), i0=ints(e.index_from_track), nt=int(e.nb_tracks), life=ints(e.lifetime), iter=it,
            d=[int(round(v / DEG * 1000)) for v in d], add=[int(round(v / DEG * 1000)) for v in a],
            cnt=ints(e.count_by_track(e.virtual.astype("bool"))) if n else [], ids=ids,
            mask=[int(i) + 1 for i in np.where(e.get_mask_from_id(np.array(ids)))[0]], norm=[int(round(float(v))) for v in c.lon])
    r, exc = call(f)
    q["exc"] = exc or ""
    if r:
        q.update(r)
    else:
        q["ok"] = 0
    return q


def step(e, op, rng):
    """run one operation; returns (result, case)"""
    kind = "T" if "track" in e.obs.dtype.names else "E"
    n = len(e)
    case = dict(op=op["op"], rows=rows_of(e), other=[], src=[], tr=[], tr_stored=[], exc="", trk=kind == "T", c=bool(op.get("c")),
                full=bool(op.get("full")), inc=bool(op.get("inc")), rv=bool(op.get("rv")), intact=True, alias=False, sign_in=int(e.sign_type), sign=0,
                period=[], q=dict(ok=0, exc=""), **{k: op[k] for k in op if k not in ("op", "c", "full", "inc", "rv", "parts")})
    opts = dict(full_path=case["full"], remove_incomplete=case["inc"], compress_id=case["c"], reject_virtual=case["rv"]) if kind == "T" else {}
    before = e.obs.copy()
    other = None
    given = []
    name = op["op"]

    def run():
        nonlocal given
        if name == "mask":
            m = np.zeros(n, dtype="bool")
            m[op["m"]] = True
            given = [(m, m.copy())]
            return e.extract_with_mask(m, **opts)
        if name == "ids":
            a = np.array(op["ids"], dtype=op.get("dt", "i8"))
            given = [(a, a.copy())]
            return e.extract_ids(a if op.get("dt") else op["ids"])
        if name == "length":
            return e.extract_with_length(op["b"])
        if name == "longer":
            return e.extract_longer_eddies(op["nbmin"], e.nb_obs_by_track.repeat(e.nb_obs_by_track), compress_id=case["c"])
        if name == "period":
            return e.extract_with_period(tuple(op["p"]), **opts)
        if name == "area":
            a = op["a"]
            d = dict(llcrnrlon=a[0] / 2, llcrnrlat=a[1] / 2, urcrnrlon=a[2] / 2, urcrnrlat=a[3] / 2)
            if a[1] == -181:
                d.pop("llcrnrlat")
            if a[3] == 181:
                d.pop("urcrnrlat")
            return e.extract_with_area(d, **opts)
        if name == "toward":
            return e.extract_toward_direction(west=op["west"], delta_lon=None if op["dl"] < 0 else op["dl"] / 2)
        if name == "heading":
            return e.extract_in_direction(op["dir"], **({} if op["dl"] < 0 else dict(value=op["dl"] / 2)))
        if name == "box":
            return e.extract_first_obs_in_box(op["res"])
        if name == "tsub":
            return e.time_sub_sample(op["t0"], op["step"])
        if name == "first":
            return e.first_obs()
        if name == "last":
            return e.last_obs()
        if name == "slice":
            return e.index(slice(op["s"], op["e"]))
        if name == "index":
            if op.get("one"):
                return e.index(op["l"][0])
            a = np.array(op["l"], dtype="i8")
            given = [(a, a.copy())]
            return e.index(a)
        if name == "rindex":
            a = np.array(op["l"], dtype="i8")
            given = [(a, a.copy())]
            return e.index(a, reverse=True)
        if name == "copy":
            return e.copy()
        if name == "addf":
            return e.add_rotation_type() if "type_cyc" not in e.fields else e.copy()
        if name == "remf":
            return e.remove_fields(*[f for f in op["f"] if f in e.fields])
        if name == "filters":
            fs = []
            for f in op["fs"]:
                if f["k"] == "slice":
                    g = slice(f["a"], f["b"])
                elif f["k"] == "mask":
                    g = np.zeros(n, dtype="bool")
                    g[f["s"]] = True
                elif f["k"] == "index":
                    g = np.array(f["s"], dtype="i8")
                else:
                    g = None
                if not isinstance(g, slice) and g is not None:
                    given.append((g, g.copy()))
                if f.get("call"):
                    g = (lambda v: lambda o: v)(g)
                fs.append(g)
            r = e.merge_filters(fs) if op.get("aslist") else e.merge_filters(*fs)
            return np.arange(n)[r]
        if name in ("concat", "merge", "insert"):
            if name == "concat":
                return e.__class__.concatenate([e] + others)
            if name == "merge":
                return e.merge(other)
            return e.append(other) if op["at"] == -1 and op.get("app") else e.insert_observations(other, op["at"])
        raise KeyError(name)

    others = []
    for k, orows in enumerate(op.get("parts", [])):
        # datasets with the same description as the first
        other = e.new_like(e, len(orows))
        other.sign_type = e.sign_type
        tmp = make(kind, orows, int(e.sign_type), arr=e.track_array_variables > 0, uid0=op["uid0"] + 50 * k)
        for f in other.fields:
            if f in tmp.fields:
                other.obs[f] = tmp.obs[f]
        others.append(other)
        case["other"] += rows_of(other)
    case.pop("uid0", None)
    case["parts"] = [len(o) for o in others]
    obefore = [o.obs.copy() for o in others]
    src0 = e.copy() if name == "insert" else e
    res, exc = call(run)
    case["exc"] = exc or ""
    if name != "insert":
        case["intact"] = case["intact"] and before.tobytes() == e.obs.tobytes()
    for o, b in zip(others, obefore):
        case["intact"] = case["intact"] and b.tobytes() == o.obs.tobytes()
    for a, b in given:
        if a.tobytes() != b.tobytes():
            case["intact"] = False
    if exc:
        return None, case
    if name == "filters":
        case["src"] = [int(i) + 1 for i in res]
        case["tr"] = case["tr_stored"] = [case["rows"][i]["tr"] for i in res]
        case["sign"] = int(e.sign_type)
        t = [case["rows"][i]["t"] for i in res]
        case["period"] = [min(t), max(t)] if t else []
        return e, case
    case["src"] = locate(res, [src0] + others)
    case["tr"] = ints(res.track) if kind == "T" else [0] * len(res)
    case["tr_stored"] = ints(res.obs["track"]) if kind == "T" else [0] * len(res)
    case["sign"] = int(res.sign_type) if res.sign_type is not None else 0
    if res is not e and len(res):
        case["alias"] = bool(np.shares_memory(res.obs, e.obs) if len(e) else False)
    for o in others:
        if len(res) and len(o):
            case["alias"] = case["alias"] or bool(np.shares_memory(res.obs, o.obs))
    p = res.period
    case["period"] = [int(round(float(v))) if v == v else -1 for v in p] if len(res) or p[0] == p[0] else []
    if len(set(case["src"])) == len(case["src"]):
        case["q"] = queries(res, rng)
    return res, case


def rand_rows(rng, kind, nmax, t0=10):
    rows = []
    if rng.random() < 0.08:
        return rows
    tr = rng.choice([0, 0, 1, 1, 3])
    while len(rows) < nmax:
        length = rng.choice([1, 1, 2, 3, 4, rng.randint(1, 9)])
        start, x, y = t0 + rng.randint(0, 12), rng.choice([0, 358, 3, 180, -179, 90]) + rng.randint(-4, 4), rng.randint(-60, 60)
        dx = rng.choice([-1, 0, 0, 1, 2])
        for i in range(length):
            rows.append(dict(tr=tr if kind == "T" else 0, n=i if kind == "T" else 0, v=int(rng.random() < 0.25) if kind == "T" else 0, t=start + i, x=x, y=y))
            if rng.random() < 0.5:
                x += dx
            else:
                y += rng.choice([-1, 1, 2])
        tr += rng.choice([1, 1, 1, 2, 4])
        if rng.random() < 0.15:
            break
    return rows[:nmax]


def rand_op(rng, e, names):
    n = len(e)
    name = rng.choice(names)
    op = dict(op=name)
    kind = "T" if "track" in e.obs.dtype.names else "E"
    if name in ("mask", "period", "area") and kind == "T":
        op.update(full=rng.random() < 0.4, inc=rng.random() < 0.3, rv=rng.random() < 0.4, c=rng.random() < 0.3)
    if name == "mask":
        p = rng.choice([0.1, 0.4, 0.7, 1, 0])
        op["m"] = [i for i in range(n) if rng.random() < p]
    elif name == "ids":
        top = int(e.obs["track"].max()) if n else 2
        op["ids"] = sorted(set(rng.randint(0, top + 3) for _ in range(rng.randint(1, 5))))
        if rng.random() < 0.6:
            op["dt"] = rng.choice(["i8", "u4", "i4", "u2"])
    elif name == "length":
        b = sorted([rng.randint(0, 6), rng.randint(0, 9)])
        if rng.random() < 0.5:
            b[rng.randint(0, 1)] = -1
        op["b"] = b
    elif name == "longer":
        op["nbmin"], op["c"] = rng.randint(1, 4), rng.random() < 0.5
    elif name == "period":
        t = [int(v) for v in e.obs["time"]] or [10]
        lo, hi = min(t), max(t)
        p = [rng.randint(lo - 1, hi + 1), rng.randint(lo - 1, hi + 1)]
        p = sorted(p)
        if rng.random() < 0.25:
            p[0] = rng.choice([0, -1, -3])
        if rng.random() < 0.25:
            p[1] = rng.choice([0, -1, -3])
        if n == 0:
            p = [abs(v) for v in p]
        op["p"] = p
    elif name == "area":
        x0 = 2 * rng.randint(-200, 400) + 1
        op["a"] = [x0, rng.choice([-181, 2 * rng.randint(-40, 10) + 1]), x0 + 2 * rng.randint(1, 180), rng.choice([181, 2 * rng.randint(11, 60) + 1])]
    elif name == "toward":
        op.update(west=rng.random() < 0.5, dl=rng.choice([-1, 1, 3, 5]))
    elif name == "heading":
        op.update(dir=rng.choice("NSEW"), dl=rng.choice([-1, 1, 3, 5]))
    elif name == "box":
        op["res"] = rng.choice([1, 2, 5])
    elif name == "tsub":
        op.update(t0=rng.randint(0, 30), step=rng.randint(1, 5))
    elif name == "slice":
        a, b = rng.randint(0, n), rng.randint(0, n)
        op.update(s=min(a, b), e=max(a, b))
    elif name == "index":
        op["l"] = [rng.randrange(n) for _ in range(rng.randint(1, n + 2))] if n else []
        if n and rng.random() < 0.2:
            op.update(one=True, l=op["l"][:1])
    elif name == "rindex":
        op["l"] = rng.sample(range(n), rng.randint(0, n))
    elif name == "remf":
        op["f"] = rng.sample(["amplitude", "radius_e", "lon_max", "lat_max", "speed_area", "contour_lon_s", "uavg_profile"], rng.randint(1, 3))
    elif name == "filters":
        fs = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(["slice", "slice", "mask", "index", "all"])
            f = dict(k=k, a=0, b=0, s=[], call=rng.random() < 0.2)
            if k == "slice":
                a, b = sorted([rng.randint(0, n), rng.randint(0, n)])
                f.update(a=a, b=b)
            elif k == "mask":
                f["s"] = [i for i in range(n) if rng.random() < rng.choice([0.3, 0.8, 1])]
            elif k == "index":
                f["s"] = rng.sample(range(n), rng.randint(0, n))
            fs.append(f)
        op.update(fs=fs, aslist=rng.random() < 0.3)
    elif name in ("concat", "merge", "insert"):
        op["parts"] = [rand_rows(rng, kind, rng.choice([1, 3, 6])) for _ in range(rng.choice([1, 2, 3]) if name == "concat" else 1)]
        op["uid0"] = rng.randint(5, 60) * 100
        if name == "insert":
            op["at"] = rng.choice([-1, -1, 0, rng.randint(0, n), rng.randint(-n - 1, -1)])
            op["app"] = rng.random() < 0.5
    return op


def main():
    req, rec = start()
    rng = random.Random(req["seed"])
    for sc in req["scenarios"]:
        rec.begin(sc)
        if sc["kind"] == "select":
            rows = [dict(tr=t, v=v, n=sc["tr"][:i].count(t), t=10 + i, x=i, y=0) for i, (t, v) in enumerate(zip(sc["tr"], sc["v"]))]
            e = make("T", rows, 1)
            _, case = step(e, dict(op="mask", m=sc["m"], full=sc["full"], inc=sc["inc"], rv=sc["rv"], c=sc["c"]), rng)
            rec.put(case)
            continue
        kind = sc["cls"]
        e = make(kind, rand_rows(rng, kind, sc["n"]), rng.choice([1, -1]), arr=rng.random() < 0.6)
        for _ in range(sc["len"]):
            if rng.random() < 0.5:
                # fill the caches before going on
                call(lambda: (e.period, queries(e, rng) if kind == "T" else None))
            tr = e.obs["track"].astype("i8") if kind == "T" else np.zeros(0)
            ops = sc["ops"]
            ordered = not (tr[1:] < tr[:-1]).any()
            if not ordered:
                ops = [o for o in ops if o in ("copy", "filters", "slice", "tsub", "addf", "remf", "rindex")] or ["copy"]
            rows = rows_of(e)
            whole = all(r["n"] == (0 if i == 0 or rows[i - 1]["tr"] != r["tr"] else rows[i - 1]["n"] + 1) for i, r in enumerate(rows))
            if not whole:
                ops = [o for o in ops if o not in ("first", "last")]
            if not ops:
                break
            r, case = step(e, rand_op(rng, e, ops), rng)
            rec.put(case)
            if r is None or len(set(case["src"])) < len(case["src"]):
                break
            e = r
    rec.end()


main()
