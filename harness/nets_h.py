"""Replays operations on networks (rows are recognised field by field)."""
import random
import numpy as np
from hlib import start, call, ints
from tk_lib import EXTRA, ARR, NPT, code
from py_eddy_tracker.observations.network import NetworkObservations
from py_eddy_tracker.observations.observation import EddiesObservations

OWN = {"track", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost"}
FIXED = OWN | {"lon", "lat", "time", "n", "virtual"}
COLS = ("u", "tr", "sg", "t", "n", "p", "nc", "pc")


def make(rows, arr, sign):
    """rows: list of dict, sorted"""
    e = NetworkObservations(len(rows), track_extra_variables=list(EXTRA), track_array_variables=NPT if arr else 0, array_variables=list(ARR) if arr else [])
    e.sign_type = sign
    for name in e.fields:
        if name in FIXED:
            continue
        for i, r in enumerate(rows):
            v = code(name, r["u"])
            e.obs[name][i] = v + np.arange(NPT) if e.obs[name].ndim == 2 else v
    for i, r in enumerate(rows):
        o = e.obs
        o["lon"][i], o["lat"][i], o["time"][i] = r["u"], -r["u"], r["t"]
        o["track"][i], o["segment"][i] = r["tr"], r["sg"]
        o["next_obs"][i], o["previous_obs"][i] = r["n"] - 1, r["p"] - 1
        o["next_cost"][i], o["previous_cost"][i] = r["nc"] / 1000, r["pc"] / 1000
    return e


class Rows:
    def __init__(self, e, us):
        self.names = sorted(set(e.obs.dtype.names) - OWN)
        self.light = ["contour_lat_e", "contour_lat_s", "contour_lon_e", "contour_lon_s", "uavg_profile"]
        self.us, self.e = us, e
        self.tables = {}

    def find(self, obs):
        names = [n for n in self.names if n in obs.dtype.names]
        t = self.tables.get(tuple(names))
        if t is None:
            t = self.tables[tuple(names)] = dict(zip(self.key(self.e.obs, names), self.us))
        return [t.get(k, 0) for k in self.key(obs, names)]

    @staticmethod
    def key(obs, names):
        cols = [np.ascontiguousarray(obs[n]) for n in names]
        return [b"|".join(c[i].tobytes() for c in cols) for i in range(len(obs))]

    def table(self, e, read=False):
        """read: from a file, values are packed and rows are recognised by their longitude"""
        us = [] if not len(e) else [int(round(v)) for v in e.lon] if read else self.find(e.obs)
        d = e.obs.dtype.names
        f = lambda o, n, k=1: int(round(float(o[n]) * k)) if n in d else 0  # noqa
        return [dict(u=u, tr=f(o, "track"), sg=f(o, "segment"), t=f(o, "time"), n=f(o, "next_obs") + 1, p=f(o, "previous_obs") + 1,
                     nc=f(o, "next_cost", 1000), pc=f(o, "previous_cost", 1000)) for u, o in zip(us, e.obs)]


def rand_net(rng, big):
    """a whole network: segments with ends linked anywhere"""
    rows, D = [], rng.choice([4, 8, 14])
    first = rng.choice([0, 0, 1, 1, 3])
    nets = [first]
    for _ in range(rng.choice([0, 1, 2, 3]) if not big else 3):
        nets.append(nets[-1] + rng.choice([1, 1, 2]))
    left = 26 if not big else 60
    for tr in nets:
        if tr == 0:
            for t in sorted(rng.randint(1, D) for _ in range(rng.randint(1, 4))):
                rows.append(dict(tr=0, sg=0, t=t, k=0))
            continue
        sg = rng.choice([1, 1, 1, 2])
        for _ in range(rng.choice([1, 2, 3, 4, 6]) if not big else rng.randint(4, 12)):
            a = rng.randint(1, D)
            b = min(D, a + rng.choice([0, 1, 2, 4, D]))
            ts = [t for t in range(a, b + 1) if t in (a, b) or rng.random() < 0.8]
            if left < len(ts):
                break
            left -= len(ts)
            rows += [dict(tr=tr, sg=sg, t=t, k=0) for t in ts]
            sg += rng.choice([1, 1, 1, 2])
    us = list(range(1, len(rows) + 1))
    rng.shuffle(us)
    rich = rng.choice([0.3, 0.7, 1.0])
    for i, r in enumerate(rows):
        r.update(u=us[i], n=0, p=0, nc=0, pc=0)
    for i, r in enumerate(rows):
        if r["tr"] == 0:
            continue
        same = lambda j: rows[j]["tr"] == r["tr"] and rows[j]["sg"] == r["sg"]  # noqa
        if i + 1 < len(rows) and same(i + 1):
            r["n"], rows[i + 1]["p"] = i + 2, i + 1
        elif rng.random() < rich:
            c = [j for j in range(len(rows)) if rows[j]["tr"] == r["tr"] and not same(j) and rows[j]["t"] > r["t"]]
            if c:
                near = min(rows[j]["t"] for j in c)
                r["n"] = 1 + rng.choice([j for j in c if rows[j]["t"] == near] if rng.random() < 0.5 else c)
        if i == 0 or not same(i - 1):
            c = [j for j in range(len(rows)) if rows[j]["tr"] == r["tr"] and not same(j) and rows[j]["t"] < r["t"]]
            if c and rng.random() < rich:
                near = max(rows[j]["t"] for j in c)
                r["p"] = 1 + rng.choice([j for j in c if rows[j]["t"] == near] if rng.random() < 0.5 else c)
    for r in rows:
        r["nc"], r["pc"] = rng.randint(1, 999) if r["n"] else 0, rng.randint(1, 999) if r["p"] else 0
    return [{c: r[c] for c in COLS} for r in rows]


def whole(T):
    """the rows of each segment follow each other (whole tables only are given to some operations)"""
    if not T:
        return False
    for i, r in enumerate(T):
        if r["tr"] == 0:
            if r["n"] or r["p"] or r["sg"]:
                return False
            continue
        nx = i + 1 < len(T) and (T[i + 1]["tr"], T[i + 1]["sg"]) == (r["tr"], r["sg"])
        if nx and (r["n"] != i + 2 or T[i + 1]["p"] != i + 1 or T[i + 1]["t"] <= r["t"]):
            return False
        if r["n"] and not nx and (T[r["n"] - 1]["tr"], T[r["n"] - 1]["sg"]) == (r["tr"], r["sg"]):
            return False
        if r["p"] and T[r["p"] - 1]["t"] >= r["t"] or r["n"] and T[r["n"] - 1]["t"] <= r["t"]:
            return False
    return True


def segs(T):
    return sorted({(r["tr"], r["sg"]) for r in T})


def query(e, rng, T, case, R):
    nets = sorted({r["tr"] for r in T})
    u = np.array([r["u"] for r in T], dtype="i8")
    ids = [rng.choice(nets) for _ in range(3)]
    S = segs(T)

    def f():
        case["ids"] = ids
        case["nbn"], case["nbs"] = int(e.nb_network), int(e.nb_segment)
        case["sizes"], case["some"] = ints(e.network_size()), ints(e.network_size(np.array(ids)))
        case["segsizes"] = ints(e.segment_size())
        case["netsegs"] = ints(e.network_segment_size())
        case["sta"] = ints(e.segment_track_array)
        case["trash"] = bool(e.first_is_trash())
        case["segsum"] = ints(e.map_segment(lambda x: x.sum(), u, same=False))
        case["segrow"] = ints(e.map_segment(lambda x: x.sum(), u, same=True, dtype="i8"))
        if rng.random() < 0.5:
            case["netsum"] = [[int(k), int(v)] for k, v in e.map_network(lambda x: x.sum(), u, same=False, return_dict=True).items() if k in nets]
        else:
            r = e.map_network(lambda x: x.sum(), u, same=True, dtype="i8")
            case["netsum"] = [[n, int(r[[x["tr"] for x in T].index(n)])] for n in nets]
        a, b = e.unique_segment_to_id(np.arange(len(S)))
        case["ident"] = [[int(x), int(y)] for x, y in zip(a, b)]
        case["conn"] = [[int(k), int(w)] for k, s in e.connexions(multi_network=True).items() for w in s]
        case["tags"] = ints(e.tag_segment())
        case["seg"], case["dist"] = -1, []
        if len(nets) == 1 and nets[0] != 0:
            i = rng.randrange(len(T))
            case["seg"] = T[i]["sg"]
            d = e.obs_relative_order(i) if rng.random() < 0.5 else e.segment_relative_order(T[i]["sg"])
            case["dist"] = ints(d)
    return f


def events(e, rng, T, case, R):
    def pos(d):
        us = R.find(d.obs)
        at = {r["u"]: k + 1 for k, r in enumerate(T)}
        return [at.get(u, 0) for u in us]

    def f():
        case["births"] = pos(e.birth_event() if rng.random() < 0.5 else e.generation_event())
        case["deaths"] = pos(e.death_event() if rng.random() < 0.5 else e.dissipation_event())
        case["m1"] = [i + 1 for i in ints(e.merging_event(only_index=True))]
        case["s1"] = [i + 1 for i in ints(e.splitting_event(only_index=True))]
        case["m3"] = [[i + 1 for i in ints(q)] for q in e.merging_event(triplet=True, only_index=True)]
        case["s3"] = [[i + 1 for i in ints(q)] for q in e.splitting_event(triplet=True, only_index=True)]
        ok = pos(e.merging_event()) == case["m1"] and pos(e.splitting_event()) == case["s1"]
        for q, g in ((case["m3"], e.merging_event), (case["s3"], e.splitting_event)):
            for i, d in zip(q, g(triplet=True)):
                ok = ok and all(a in (b, -1) or b == 0 for a, b in zip(pos(d), i)) and type(d) is EddiesObservations and d.sign_type == e.sign_type
        case["tables"] = int(ok)
        case["near"] = []
        for _ in range(2):
            w = dict(mrg=rng.random() < 0.7, spl=rng.random() < 0.7, dt=rng.choice([1, 2, 3, 5]))
            m = e.mask_obs_close_event(merging=w["mrg"], spliting=w["spl"], dt=w["dt"])
            case["near"].append(dict(w, k=[i + 1 for i in ints(np.where(m)[0])]))
    return f


def other_atlas(e, rng, n, R):
    """some networks or segments, with something which changes"""
    other = e.copy()
    m = np.array([rng.random() < 0.9 for _ in range(n)])
    if not m.any():
        m[:] = True
    other = other.extract_with_mask(m)
    for _ in range(rng.choice([0, 0, 1, 2])):
        # same observation elsewhere: something else
        other.obs[rng.choice(["lon", "lat", "time"])][rng.randrange(len(other))] += rng.choice([0.5, 0.25])
    if rng.random() < 0.5:
        other.numbering_network(rng.choice([0, 2]))
    if rng.random() < 0.5:
        k = sorted({r["tr"] for r in R.table(other)})
        other = other.networks([rng.choice(k) for _ in k])
    return other


SEL = ["mask", "light", "nets", "nets", "segs", "period", "longer", "notrash", "relatives", "link", "bydate", "app"]
INP = ["sort", "deadend", "dissociate", "close", "swap", "numn", "nums"]


def step(e, rng, op, T, R, src):
    """one operation; returns (case, result, in place)"""
    n = len(T)
    nets = sorted({r["tr"] for r in T})
    S = segs(T)
    case = dict(op=op, exc="", a=T, whole=whole(T))
    some = lambda k: sorted(rng.sample(range(n), min(k, n)))  # noqa
    alive = [i for i in range(n) if T[i]["tr"] != 0]
    if op == "query":
        f = query(e, rng, T, case, R)
    elif op == "events":
        f = events(e, rng, T, case, R)
    elif op in ("mask", "light"):
        k = [i for i in range(n) if rng.random() < rng.choice([0.5, 0.8])]
        m = np.zeros(n, "bool")
        m[k] = True
        if rng.random() < 0.3:
            i = rng.randint(0, n)
            j = rng.randint(i, n)
            m, k = slice(i, j), list(range(i, j))
        case["k"] = [i + 1 for i in k]
        if op == "mask":
            f = lambda: e.extract_with_mask(m)  # noqa
        else:
            f = lambda: e.extract_light_with_mask(m, track_extra_variables=["track", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost"])  # noqa
    elif op == "nets":
        case["ids"] = ids = sorted({rng.choice(nets + [nets[-1] + 1, max(nets[0] - 1, 0)] if rng.random() < 0.3 else nets) for _ in range(rng.randint(1, 3))})
        if len(ids) == 1 and rng.random() < 0.7:
            f = lambda: e.network(ids[0])  # noqa
        else:
            f = lambda: e.networks(ids if rng.random() < 0.5 else np.array(ids))  # noqa
    elif op == "segs":
        case["ids"] = ids = sorted({rng.randrange(len(S)) for _ in range(rng.randint(1, 4))})
        f = lambda: e.extract_segment(ids if rng.random() < 0.5 else np.array(ids), absolute=True)  # noqa
    elif op == "period":
        case["lo"], case["hi"] = lo, hi = rng.choice([0, 1, 2, 4, 7, -1, -2]), rng.choice([0, 3, 6, 9, 12, -1, -3])
        f = lambda: e.extract_with_period((lo, hi))  # noqa
    elif op == "longer":
        case["lo"], case["hi"] = lo, hi = rng.choice([-1, 1, 2, 3, 6]), rng.choice([-1, -1, 2, 5, 9])
        f = lambda: e.longer_than(lo, hi)  # noqa
    elif op == "notrash":
        f = lambda: e.remove_trash()  # noqa
    elif op == "bydate":
        case["lo"], case["hi"] = lo, hi = rng.choice(T)["t"], rng.choice([0, 1, 2, 4, -1, -3])
        f = lambda: e.keep_tracks_by_date(lo, hi)  # noqa
    elif op in ("relatives", "link"):
        k = [rng.choice(alive) for _ in range(rng.choice([1, 1, 2, 3]))]
        case["k"] = [i + 1 for i in k]
        a = k[0] if len(k) == 1 and rng.random() < 0.5 else (k if rng.random() < 0.5 else np.array(k))
        if op == "relatives":
            case["order"] = order = rng.choice([0, 1, 1, 2, 3])
            if rng.random() < 0.3:
                # every relative of an event, in its network
                case["k"] = [k[0] + 1]
                stopped = None
                c = [i for i in alive if T[i]["tr"] == T[k[0]]["tr"]]
                if rng.random() < 0.5:
                    stopped = rng.choice(c)
                    case["k"].append(stopped + 1)
                f = lambda: e.find_segments_relative(k[0], stopped, order=order)  # noqa
            else:
                f = lambda: (e.relatives if rng.random() < 0.7 else e.relative)(a, order=order)  # noqa
        else:
            case["fwd"], case["bwd"] = rng.choice([(True, False), (False, True), (True, True)])
            f = lambda: e.find_link(a, forward=case["fwd"], backward=case["bwd"])  # noqa
    elif op == "app":
        f = app(e, rng, T, case)
    elif op == "compare":
        case["other"] = []

        def f():
            from py_eddy_tracker.appli.network import run_compare
            o = other_atlas(e, rng, n, R)
            case["other"] = R.table(o)
            r = run_compare(e, dict(x=o))["x"]
            case["same"] = [int(r[k]) for k in ("same N(N)", "same N(Obs)", "same NS(N)", "same NS(Obs)", "same S(S)", "same S(Obs)")]
    elif op == "sort":
        # segments are given other numbers
        for t in nets:
            s = sorted({r["sg"] for r in T if r["tr"] == t})
            if t == 0:
                continue
            new = s[:]
            rng.shuffle(new)
            tr = dict(zip(s, new))
            for i, r in enumerate(T):
                if r["tr"] == t:
                    e.obs["segment"][i] = tr[r["sg"]]
        case["a"] = R.table(e)

        def f():
            o, tr = e.sort()
            case["order"], case["trans"] = [i + 1 for i in ints(o)], [i + 1 for i in ints(tr[:n])]
    elif op == "deadend":
        case["nobs"], case["ndays"], case["rec"] = rng.choice([1, 2, 3, 5]), rng.choice([0, 0, 2, 4]), rng.choice([0, 0, 1, 2])
        k = some(rng.randint(1, 2)) if rng.random() < 0.4 else []
        case["k"] = [i + 1 for i in k]
        m = None
        if k:
            m = np.zeros(n, "bool")
            m[k] = True
        f = lambda: e.remove_dead_end(case["nobs"], case["ndays"], recursive=case["rec"], mask=m)  # noqa
    elif op == "dissociate":
        f = lambda: e.dissociate_network()  # noqa
    elif op == "close":
        case["nbd"] = rng.choice([1, 3, 5, 20])
        f = lambda: e.correct_close_events(nb_days_max=case["nbd"])  # noqa
    elif op == "swap":
        case["lmain"], case["lsec"], case["pct"] = rng.choice([1, 2, 4, 9]), rng.choice([0, 1, 3]), rng.choice([-200, -500, -1000])
        f = lambda: e.swap_track(case["lmain"], case["lsec"], case["pct"] / 1000 + 0.0005)  # noqa
    elif op in ("numn", "nums"):
        case["start"] = s = rng.choice([0, 1, 5])
        f = lambda: (e.numbering_network(s) if op == "numn" else e.numbering_segment(s))  # noqa
    else:
        other = other_atlas(e, rng, n, R)
        case["other"] = R.table(other)
        case["segment"], case["size"] = rng.random() < 0.5, rng.choice([1, 1, 2, 3])

        def f():
            a, b = e.identify_in(other, size_min=case["size"], segment=case["segment"])
            case["pairs"] = [[int(x), int(y)] for x, y in zip(a, b)]
    return case, f


def empty(e, rng):
    """every operation on a table without observation"""
    none = np.zeros(0, "bool")
    f = dict(mask=lambda: e.extract_with_mask(none), nets=lambda: e.networks([1, 2]), net=lambda: e.network(1), segs=lambda: e.extract_segment([0], absolute=True), period=lambda: e.extract_with_period((1, -2)),
             longer=lambda: e.longer_than(1, 3), notrash=lambda: e.remove_trash(), bydate=lambda: e.keep_tracks_by_date(3, 1), relatives=lambda: e.relatives([]), link=lambda: e.find_link([]),
             sort=lambda: e.sort() and e, deadend=lambda: e.remove_dead_end() or e, dissociate=lambda: e.dissociate_network() and e, close=lambda: e.correct_close_events() and e, swap=lambda: e.swap_track() and e,
             numn=lambda: e.numbering_network() or e, nums=lambda: e.numbering_segment() or e, births=lambda: e.birth_event(), deaths=lambda: e.death_event(), mergings=lambda: e.merging_event(),
             splittings=lambda: e.splitting_event(triplet=True)[2])
    op = rng.choice(sorted(f))
    case = dict(op=op, a=[], what="empty")

    def g():
        r = f[op]()
        case["rows"], case["nbn"], case["nbs"] = len(r), int(e.nb_network), int(e.nb_segment)
    return case, g


def deep(rng):
    """networks of many segments, one after the other: too deep for a recursive exploration"""
    n, keep = rng.randint(1100, 1500), rng.randint(0, 1000)
    e = make([dict(u=1, tr=1, sg=1, t=1, n=0, p=0, nc=0, pc=0)], False, 1)
    e = NetworkObservations(n)
    e.obs["track"], e.obs["segment"], e.obs["time"] = 1, np.arange(n), np.arange(n) + 1
    e.obs["lon"] = np.arange(n)
    e.obs["next_obs"], e.obs["previous_obs"] = np.append(np.arange(1, n), -1), np.arange(n) - 1
    case = dict(op="deep", a=[], what="deep", size=n, at=keep)

    def g():
        case["after"] = len(e.find_link(keep))
        case["before"] = len(e.find_link(keep, forward=False, backward=True))
        case["both"] = len(e.find_link(keep, backward=True))
        case["tags"] = len(np.unique(e.tag_segment()))
        d = ints(e.obs_relative_order(keep))
        case["dist"] = [d[0], d[keep], d[-1]]
    return case, g


def app(e, rng, T, case):
    """application subset_network: the options are applied in the order of the application"""
    import os
    import sys
    from unittest import mock
    from hlib import WORK
    from py_eddy_tracker.appli.network import subset_network
    nets = sorted({r["tr"] for r in T})
    case["o"] = o = dict(ids=sorted({rng.choice(nets) for _ in range(2)}) if rng.random() < 0.4 else [], lo=rng.choice([-1, 1, 3]), hi=rng.choice([-1, 3, 9]), length=rng.random() < 0.4,
                         nobs=rng.choice([1, 2, 3]), ndays=rng.choice([0, 2]), dead=rng.random() < 0.5, trash=rng.random() < 0.5, p0=rng.choice([0, 2, -1]), p1=rng.choice([0, 6, -2]), period=rng.random() < 0.4)
    d = WORK
    src, out = os.path.join(d, "in.nc"), os.path.join(d, "out.nc")

    def f():
        e.write_file(filename=src)
        argv = ["x", src, out]
        argv += ["-i"] + [str(i) for i in o["ids"]] if o["ids"] else []
        argv += ["-l", str(o["lo"]), str(o["hi"])] if o["length"] else []
        argv += ["--remove_dead_end", str(o["nobs"]), str(o["ndays"])] if o["dead"] else []
        argv += ["--remove_trash"] if o["trash"] else []
        argv += ["-p", str(o["p0"]), str(o["p1"])] if o["period"] else []
        with mock.patch.object(sys, "argv", argv):
            subset_network()
        return NetworkObservations.load_file(out)
    return f


def main():
    req, rec = start()
    for k, sc in enumerate(req["scenarios"]):
        rng = random.Random(f"{req['seed']}/{k}")
        T = sc["T"] if "T" in sc else rand_net(rng, sc.get("big", False))
        if not T:
            continue
        if sc.get("deep") or sc.get("empty"):
            if "deep" in sc:
                case, f = deep(rng)
            else:
                e = make(T, rng.random() < 0.5, 1)
                case, f = empty(e.extract_with_mask(np.zeros(len(e), "bool")), rng)
            rec.begin(case)
            case["exc"] = call(f)[1] or ""
            rec.put(case)
            continue
        for i, r in enumerate(T):
            if "T" in sc:
                r["nc"], r["pc"] = (rng.randint(1, 999) if r["n"] else 0), (rng.randint(1, 999) if r["p"] else 0)
        sign = rng.choice([1, -1])
        e = make(T, rng.random() < 0.5, sign)
        R = Rows(e.copy(), [r["u"] for r in T])
        ops = sc["ops"]
        for _ in range(sc.get("n", 3)):
            A = R.table(e)
            if not A:
                break
            op = rng.choice(ops)
            if op in ("relatives", "link") and not any(r["tr"] for r in A):
                continue
            if op == "light" and "contour_lon_e" not in e.obs.dtype.names:
                op = "mask"
            if op in ("close", "swap") and not whole(A):
                op = "query"
            if op == "dissociate" and any(r["tr"] == 0 and (r["sg"] or r["n"] or r["p"]) for r in A):
                continue
            if op == "nums" and any(b["tr"] < a["tr"] for a, b in zip(A, A[1:])):
                continue
            if rng.random() < 0.4:
                # what was asked before must not be answered from old values
                call(lambda: (e.nb_network, e.nb_segment, e.segment_track_array, e.period))
            case, f = step(e, rng, op, A, R, None)
            rec.begin(dict(case, scenario=dict(ops=[op])))
            r, exc = call(f)
            case["exc"] = exc or ""
            inplace = op in INP
            if op in SEL and exc is None:
                case["b"] = R.table(r, op == "app")
                case["a2"] = R.table(e)
            elif inplace and exc is None:
                case["b"] = R.table(e)
            else:
                case["a2"] = R.table(e)
            rec.put(case)
            if exc is not None:
                break
            if op in SEL and op not in ("light", "app") and len(r) and rng.random() < 0.6:
                e = r
            if op == "deadend" and len(e) == 0:
                break
    rec.end()


if __name__ == "__main__":
    main()
