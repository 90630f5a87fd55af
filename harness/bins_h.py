"""iter_on, align_on, bins_stat and hist on synthetic datasets."""
import random
import numpy as np
from hlib import start, call, ints
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.observations.tracking import TrackEddiesObservations

Q = 4.0


def ds(vals, field):
    e = TrackEddiesObservations(len(vals))
    e.sign_type = 1
    e.obs[field][:] = np.array(vals) / Q
    return e


def idx(g, n):
    return ints(np.arange(1, n + 1)[g])


def q(v):
    w = v * Q
    assert abs(w - round(w)) < 1e-9, v
    return int(round(w))


def bins_arg(b, form):
    if not b:
        return None
    a = np.array(b) / Q
    if form == "int" and all(v % 4 == 0 for v in b):
        return a.astype("i8")
    if form == "list":
        return [float(v) for v in a]
    if form == "range" and len(b) > 1 and all(v % 4 == 0 for v in b) and all(y - x == 4 for x, y in zip(b, b[1:])):
        return range(b[0] // 4, b[-1] // 4 + 1)
    return a


def values(rng, n, whole, lo=0):
    s = rng.choice([0, 0, 1, 2])
    top = rng.choice([4, 8, 20, 60])
    v = [rng.randint(lo, lo + top) * (4 if whole else 1) for _ in range(n)]
    return sorted(v) if s == 1 else sorted(v, reverse=True) if s == 2 else v


def rand_bins(rng, whole):
    n = rng.randint(2, 7)
    u = 4 if whole else 1
    if rng.random() < 0.5:
        step, b0 = u * rng.randint(1, 6), u * rng.randint(-3, 12)
        return [b0 + k * step for k in range(n)]
    return sorted(u * v for v in rng.sample(range(-3, 40), n))


def main():
    req, rec = start()
    rng = random.Random(req["seed"])
    for sc in req["scenarios"]:
        rec.begin(sc)
        kind = sc["kind"]
        if kind == "presence":
            # presence of two datasets by day, several observations by day, shuffled or not
            xs = [4 * d for d in sc["a"] for _ in range(rng.randint(1, 3))]
            ys = [4 * d for d in sc["b"] for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.5:
                rng.shuffle(xs)
            if rng.random() < 0.5:
                rng.shuffle(ys)
            case = dict(kind="align", xs=xs, ys=ys, bins=[4 * d for d in range(0, sc["nb"] + 3)], all=sc["all"])
            field = "time"
        else:
            field = rng.choice(["time", "time", "lon", "track", "n"])
            whole = field in ("track", "n") or rng.random() < 0.5
            n = rng.choice([0, 1, 2, 3, rng.randint(3, 12), rng.randint(3, 25)])
            xs = values(rng, n, whole)
            case = dict(kind=kind, xs=xs, ys=[], bins=[], all=False)
            if kind == "align":
                case["ys"] = values(rng, rng.choice([0, 1, rng.randint(1, 12)]), whole)
                case["bins"] = rand_bins(rng, whole)
                case["all"] = rng.random() < 0.5
            elif kind == "iter":
                case["bins"] = rand_bins(rng, whole) if rng.random() < 0.75 or n == 0 else []
            elif kind == "window":
                case["bins"] = sorted(4 * rng.randint(-1, 15) for _ in range(rng.randint(1, 5)))
                # the bounds are never equal to a value
                case["w"] = rng.choice([1, 3, 5]) * 2
                case["xs"] = xs = [4 * (v // 4) for v in xs]
                field = "time" if field == "lon" else field
            else:
                case["bins"] = rand_bins(rng, whole) if rng.random() < 0.75 or n == 0 else []
                case["ys"] = [rng.randint(0, 9) for _ in xs]
        form = rng.choice(["float", "int"] if kind == "hist" else ["float", "int", "list", "range"])
        case["groups"], case["out"], case["x"], case["method"], case["mask"] = [], [], [-1], "", [-1]
        case.setdefault("w", 0)
        n = len(case["xs"])
        e = ds(case["xs"], field)
        b = bins_arg(case["bins"], form)
        as_array = rng.random() < 0.3
        arg = e[field] if as_array else field

        def run():
            if kind in ("presence", "align"):
                o = ds(case["ys"], field)
                a = (e[field], o[field]) if as_array else field
                return [[q(x), q(y), idx(i, n), idx(j, len(case["ys"]))] for i, j, x, y in e.align_on(o, a, all_ref=case["all"], bins=b)]
            if kind == "iter":
                return [[q(x), q(y), idx(i, n)] for i, x, y in e.iter_on(arg, bins=b)]
            if kind == "window":
                return [[q(x), q(y), idx(i, n)] for i, x, y in e.iter_on(arg, bins=b, window=case["w"] / Q)]
        if kind != "hist":
            r, exc = call(run)
            case["groups"] = r or []
        else:
            yf = rng.choice(["lat", "n"]) if field != "n" else "lat"
            e.obs[yf][:] = case["ys"]
            api = rng.choice(["bins_stat", "hist"]) if case["bins"] else "bins_stat"
            if api == "bins_stat":
                case["method"] = rng.choice(["count", "mean", "std"])
                mask = None
                if n and rng.random() < 0.5:
                    m = [i for i in range(n) if rng.random() < 0.7]
                    if m or case["bins"]:
                        case["mask"] = m
                        mask = np.zeros(n, dtype="bool")
                        mask[m] = True
                r, exc = call(lambda: e.bins_stat(arg, bins=b, yname=yf, method=None if case["method"] == "count" else case["method"], mask=mask))
                if r:
                    case["x"] = [int(round(v * Q * 2)) for v in r[0]]
                    f = dict(count=1, mean=1000, std=100)[case["method"]]
                    case["out"] = [int(round(v * f)) if v == v else -1 for v in r[1]]
            else:
                case["method"] = rng.choice(["count", "mean", "sum"])
                kw = dict(count=dict(nb=True), mean=dict(mean=True), sum=dict())[case["method"]]
                bb = np.array(case["bins"]) / Q
                with np.errstate(all="ignore"):
                    r, exc = call(lambda: e.hist(yf, arg, bb, **kw))
                if exc is None:
                    f = 1 if case["method"] == "count" else 1000
                    case["out"] = [int(round(float(v) * f)) if v == v else -1 for v in r]
        case["exc"] = exc or ""
        rec.put(case)
    rec.end()


main()
