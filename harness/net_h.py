"""Construction of networks from identifications: groups, table by group, segments."""
import os
import random
import shutil
import sys
import numpy as np
import zarr
from netCDF4 import Dataset
from hlib import start, call, ints, WORK
from tk_lib import EXTRA, ARR, DAY0, code
from geo_h import path, pad, rand_poly, bare
from py_eddy_tracker.appli import network as appli
from py_eddy_tracker.observations.network import Network, NetworkObservations
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.observations.tracking import TrackEddiesObservations

OWN = {"track", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost"}
NOENC = OWN | {"lon", "lat", "time", "contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s", "n", "virtual"}


def build(rng, obs, day, u0, n, sign):
    """obs: list of dict(p, q) ; every other field encodes the number of the observation"""
    e = EddiesObservations(len(obs), track_array_variables=n, array_variables=ARR[:4], track_extra_variables=list(EXTRA))
    e.sign_type = sign
    for name in e.fields:
        if name in NOENC:
            continue
        for i in range(len(obs)):
            e.obs[name][i] = code(name, u0 + i)
    for i, w in enumerate(obs):
        for p, x, y in ((w["p"], "contour_lon_e", "contour_lat_e"), (w["q"], "contour_lon_s", "contour_lat_s")):
            px, py = path(p, rev=rng.random() < 0.5, start=rng.randint(0, 9))
            e.obs[x][i], e.obs[y][i] = pad(px + p.get("turn", 0) * 360, py, n, "end")
        e.obs["lon"][i], e.obs["lat"][i] = round(e.obs["contour_lon_e"][i].mean()), round(e.obs["contour_lat_e"][i].mean())
    e.obs["time"] = day
    return e


def write(e, path, zr):
    if zr:
        if len(e) == 0:
            return False
        e.to_zarr(zarr.open(path, "w"))
    else:
        with Dataset(path, "w") as h:
            e.to_netcdf(h)
    return True


def find(res, src, names=None):
    """number of each row of res in the observations, 0 when a field differs"""
    names = sorted((set(src.obs.dtype.names) & set(res.obs.dtype.names)) - OWN) if names is None else names
    key = lambda o: b"|".join(np.ascontiguousarray(np.asarray(o[n], dtype="f8")).tobytes() for n in names)  # noqa
    table = {key(o): k + 1 for k, o in enumerate(src.obs)}
    return [table.get(key(o), 0) for o in res.obs]


def app(main, *args):
    old = sys.argv
    sys.argv = ["app", *map(str, args)]
    try:
        main()
    finally:
        sys.argv = old


def options(rng):
    mode = rng.choice(["union", "union", "minimal"])
    hyb = mode == "union" and rng.random() < 0.25
    mn = rng.choice([1, 50, 199, rng.randint(1, 600)])
    kw = dict(min_overlap=mn / 997)
    if mode == "minimal":
        kw["minimal_area"] = True
    if hyb:
        kw["hybrid_area"] = True
    return mode, hyb, mn, kw


def cli(mode, hyb, mn, w, intern):
    a = ["-w", w, "-p", repr(mn / 997)]
    if mode == "minimal":
        a.append("--minimal-area")
    if hyb:
        a.append("--hybrid-area")
    if intern:
        a.append("--intern")
    return a


def scenario(rng, sc):
    """list of files, each a list of dict(p, q)"""
    if "o" in sc:
        nd = max([w["d"] for w in sc["o"]] + [1])
        files = [[] for _ in range(max(nd, sc.get("days", nd)))]
        for w in sc["o"]:
            files[w["d"] - 1].append(dict(p=w["p"], q=dict(x=w["p"]["x"] + 200, c=w["p"]["c"])) if sc.get("outer") else
                                     dict(p=dict(x=w["p"]["x"] + 200, c=w["p"]["c"]), q=w["p"]))
        return files
    x0, span = rng.choice([0, 357, 177, 40]), rng.choice([2, 5, 9])
    big = sc.get("big", 5)
    files = []
    for _ in range(rng.randint(1, 6)):
        n = rng.choice([0, 1, 2, big, rng.randint(0, big)])
        f = []
        for _ in range(n):
            w = dict(p=rand_poly(rng, x0, span, 4, point=0.03), q=rand_poly(rng, x0, span, 4, point=0.03))
            if files and files[-1] and rng.random() < 0.5:
                # nearly the same as one of the previous file
                v = rng.choice(files[-1])
                for k in "pq":
                    if v[k]["c"]:
                        w[k] = dict(x=v[k]["x"] + rng.choice([0, 0, 1, -1]), c=v[k]["c"])
            f.append(w)
        files.append(f)
    t = rng.choice([(0,), (0, 0, 1), (-1, 0)]) if x0 in (0, 357) else rng.choice([(0,), (0, -1)])
    for f in files:
        for w in f:
            for k in "pq":
                w[k]["turn"] = rng.choice(t)
                if w[k]["x"] + 360 * w[k]["turn"] < -140 or w[k]["x"] + 360 * w[k]["turn"] > 490:
                    w[k]["turn"] = 0
    return files


def main():
    req, rec = start()
    shared = os.path.join(WORK, "shared")
    for k, sc in enumerate(req["scenarios"]):
        rng = random.Random(f"{req['seed']}/{k}")
        rec.begin(dict(k=k, **sc))
        files = scenario(rng, sc)
        step = rng.choice([1, 1, 7, 0.25])
        # names of files are used again by the next runs of the process
        d = shared if rng.random() < 0.5 else os.path.join(WORK, f"n{k}")
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        sign = rng.choice([1, -1])
        n = max([len(w[q]["c"]) * 4 + 1 for f in files for w in f for q in "pq"] + [5])
        es, u = [], 1
        for f, obs in enumerate(files):
            es.append(build(rng, obs, DAY0 + f * step, u, n, sign))
            u += len(obs)
        how = rng.choice(sc.get("how", ["mem", "files", "files", "app", "app"]))
        zr = how == "files" and rng.random() < 0.3 and all(len(e) for e in es)
        memory = not zr and rng.random() < 0.3
        gi, si = rng.random() < 0.5, rng.random() < 0.5
        if "o" in sc:
            gi = si = not sc["outer"]
        gmode, ghyb, gmin, gkw = options(rng)
        smode, shyb, smin, skw = options(rng)
        if "o" in sc or rng.random() < 0.5:
            smode, shyb, smin, skw = gmode, ghyb, gmin, gkw
        gw, sw = rng.randint(1, 4), rng.randint(1, 4)
        if "o" in sc:
            gw = sw = sc["w"]
        o = [dict(d=f + 1, p=bare([w["p"]])[0], q=bare([w["q"]])[0]) for f, obs in enumerate(files) for w in obs]
        case = dict(o=o, how=how, gi=gi, gmode=gmode, ghyb=ghyb, gmin=gmin, gw=gw, si=si, smode=smode, shyb=shyb, smin=smin, sw=sw,
                    exc="", gr=[], grouped=True, table=False, rows=[], split=False, fin=[], sign=[sign] * 3, zr=zr, step=step)
        dates = sorted({w["d"] for w in o})
        gaps = np.diff(dates)
        regular = len(dates) < 2 or np.median(gaps) == 1
        if not o:
            # nothing at all
            continue

        def run():
            if how == "mem":
                nw = Network.from_eddiesobservations(es, window=gw, intern=gi)
                case["gr"] = ints(nw.group_observations(**gkw))
                return
            if how == "direct":
                # a table by group, whatever the groups are
                case["grouped"] = rng.random() < 0.5
                if case["grouped"]:
                    gr = Network.from_eddiesobservations(es, window=gw, intern=gi).group_observations(**gkw).astype("i8")
                else:
                    gr = np.array([rng.choice([0, 1, 1, 1, 2, 2, 5]) for _ in o])
                case["gr"] = ints(gr)
                src = EddiesObservations.concatenate(es)
                order = np.argsort(gr, kind="stable")
                t = TrackEddiesObservations.new_like(src, len(o))
                t.sign_type = src.sign_type
                for name in src.fields:
                    t.obs[name] = src.obs[name][order]
                t.obs["track"] = gr[order]
                if regular:
                    divide(t, src)
                return
            ext = ".zarr" if zr else ".nc"
            src = None
            for f, e in enumerate(es):
                fn = os.path.join(d, f"ident_{100 + f}{ext}")
                write(e, fn, zr)
                r = EddiesObservations.load_file(fn)
                src = r if src is None else EddiesObservations.concatenate((src, r))
            grp, div = os.path.join(d, "group.nc"), os.path.join(d, "net.nc")
            if how == "app":
                extra = ["--memory"] if memory else []
                app(appli.build_network, os.path.join(d, "ident_*" + ext), grp, *cli(gmode, ghyb, gmin, gw, gi), *extra)
                # labels are seen through the table
                t = TrackEddiesObservations.load_file(grp)
                us = find(t, src)
                lab = dict(zip(us, ints(t.track)))
                case["gr"] = [lab.get(i + 1, 0) for i in range(len(o))]
            else:
                nw = Network(os.path.join(d, "ident_*" + ext), window=gw, intern=gi, memory=memory)
                gr = nw.group_observations(**gkw)
                case["gr"] = ints(gr)
                raw = rng.random() < 0.5
                t = nw.build_dataset(gr, raw_data=raw)
                if raw:
                    t.write_file(filename=grp)
                    t = TrackEddiesObservations.load_file(grp)
            case["table"] = True
            case["rows"] = [dict(u=i, g=g) for i, g in zip(find(t, src), ints(t.track))]
            case["sign"][1] = int(t.sign_type)
            if regular:
                divide(t, src)

        def divide(t, src):
            grp, div = os.path.join(d, "group.nc"), os.path.join(d, "net.nc")
            if how == "app":
                app(appli.divide_network, grp, div, *cli(smode, shyb, smin, sw, si))
                r = NetworkObservations.load_file(div)
            else:
                r = NetworkObservations.from_split_network(t, t.split_network(intern=si, window=sw, **skw))
                if how != "direct" and rng.random() < 0.3:
                    r.write_file(filename=div)
                    r = NetworkObservations.load_file(div)
            case["split"] = True
            case["sign"][2] = int(r.sign_type)
            case["fin"] = [dict(u=i, g=int(q["track"]), s=int(q["segment"]), t=int(round((float(q["time"]) - DAY0) / step)),
                                n=int(q["next_obs"]) + 1, p=int(q["previous_obs"]) + 1,
                                nc=int(round(float(q["next_cost"]) * 1e6)), pc=int(round(float(q["previous_cost"]) * 1e6)))
                           for i, q in zip(find(r, src), r.obs)]
        _, exc = call(run)
        case["exc"] = exc or ""
        rec.put(case)
        shutil.rmtree(d, ignore_errors=True)
    rec.end()


if __name__ == "__main__":
    main()
