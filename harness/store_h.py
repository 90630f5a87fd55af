"""Tables written in files (netcdf, zarr, on disk or in memory) and read back, chains of them, by the API or the applications."""
import os
import random
import shutil
import sys
from io import BytesIO
import numpy as np
from netCDF4 import Dataset
from hlib import start, call
from py_eddy_tracker import VAR_DESCR
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.observations.tracking import TrackEddiesObservations
from py_eddy_tracker.observations.network import NetworkObservations
import py_eddy_tracker.observations.observation as obs_module

_units = obs_module.UnitRegistry()
obs_module.UnitRegistry = lambda *a, **k: _units
CLS = dict(eddies=EddiesObservations, tracks=TrackEddiesObservations, network=NetworkObservations)
ARR = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s", "uavg_profile"]
EXT = ["amplitude", "speed_average", "radius_e", "radius_s", "shape_error_e", "score", "effective_area", "speed_area", "num_point_e", "height_max_speed_contour", "lon_max", "lat_max",
       "index_other", "i", "distance_next", "type_cyc", "dlon", "nb_contour_selected"]
TOP = dict(u4=2**31 - 1, u2=65000, i2=32000, u1=200, i1=100, i4=2**31 - 1)


def typ(f):
    return np.dtype(VAR_DESCR[f]["output_type"])


def pub(f):
    return VAR_DESCR[f]["nc_name"]


def pick(rng, f, sign):
    v, t = VAR_DESCR[f], typ(f)
    if f == "type_cyc":
        return sign
    if f == "virtual":
        return rng.randint(0, 1)
    if t.kind == "f":
        return rng.randint(-800, 800)
    top = TOP[t.str[1:]]
    k = rng.choice([rng.randint(0, top), rng.randint(0, min(top, 30))])
    if t.kind == "i" and v.get("scale_factor"):
        k -= top // 2
    return k


def table(rng, cls, raw, n, arrays, nsample, extra):
    t = CLS[cls](size=n, track_extra_variables=list(extra), track_array_variables=nsample if arrays else 0, array_variables=list(arrays), raw_data=raw)
    t.sign_type = rng.choice([-1, 1])
    for f in t.obs.dtype.names:
        sh = t.obs[f].shape
        k = np.array([pick(rng, f, t.sign_type) for _ in range(int(np.prod(sh)))], dtype="i8").reshape(sh)
        v = VAR_DESCR[f]
        if typ(f).kind == "f":
            t.obs[f] = k / 4.0
        elif raw or not v.get("scale_factor"):
            t.obs[f] = k
        else:
            t.obs[f] = k * v["scale_factor"] + (v.get("add_offset") or 0)
    return t


def content(t):
    """packed values by field"""
    out = {}
    for f in t.obs.dtype.names:
        v, a = VAR_DESCR[f], t.obs[f].astype("f8")
        if typ(f).kind == "f":
            a = a * 4
        elif not t.raw_data and v.get("scale_factor"):
            a = (a - (v.get("add_offset") or 0)) / v["scale_factor"]
            ok = np.abs(a - np.rint(a)) < 0.2
            a = np.where(ok, np.rint(a), -987654)
        a = np.where(np.isfinite(a), a, -987653)
        out[f] = [[int(np.clip(x, -2e9, 2147483647)) for x in np.atleast_1d(r)] for r in a]
    return out


def snap(t):
    return dict(f=content(t), sign=int(t.sign_type), raw=bool(t.raw_data), n=len(t), ns=int(t.track_array_variables) if t.array_variables else 0)


def options(rng, t, raw, z):
    k = dict(raw_data=raw)
    names = list(t.obs.dtype.names)
    keep, how = list(names), rng.choice(["all", "all", "all", "include", "remove"])
    if how == "include":
        keep = sorted(rng.sample(names, rng.randint(1, len(names))))
        k["include_vars"] = [pub(f) for f in keep]
    elif how == "remove":
        out = rng.sample(names, rng.randint(1, max(1, len(names) // 2)))
        keep = sorted(set(names) - set(out)) or names[:1]
        k["remove_vars"] = [pub(f) for f in names if f not in keep]
    n, lo, hi = len(t), 0, 1000
    if rng.random() < 0.35:
        lo, hi = rng.randint(0, n), rng.choice([rng.randint(0, n + 3), 1000])
        hi = max(hi, lo)
        k["indexs"] = dict(obs=slice(lo if lo or rng.random() < 0.5 else None, hi if hi < 1000 or rng.random() < 0.5 else None))
    if z and rng.random() < 0.4:
        k["buffer_size"] = rng.randint(1, 4)
    return k, keep, how, lo, hi


def write(rng, t, z, d, step):
    """the file, how it was written"""
    k = {}
    if z:
        if rng.random() < 0.9:
            k["chunck_size"] = rng.randint(6, 12)
        if rng.random() < 0.3:
            import zarr
            g = zarr.group(store={})
            t.to_zarr(g, **k)
            return g, "memory"
        way = rng.choice(["name", "flag", "model"])
        if way == "name":
            t.write_file(filename=f"{d}/s{step}.zarr", **k)
            return f"{d}/s{step}.zarr", way
        if way == "flag":
            t.write_file(filename=f"{d}/s{step}.nc", zarr_flag=True, **k)
            return f"{d}/s{step}.zarr", way
        os.makedirs(f"{d}/m{step}")
        t.write_file(path=f"{d}/m{step}", zarr_flag=True, **k)
        return f"{d}/m{step}/{'Anticyclonic' if t.sign_type == 1 else 'Cyclonic'}.zarr", way
    way = rng.choice(["name", "model", "bytes"])
    if way == "model":
        os.makedirs(f"{d}/m{step}")
        t.write_file(path=f"{d}/m{step}")
        return f"{d}/m{step}/{'Anticyclonic' if t.sign_type == 1 else 'Cyclonic'}.nc", way
    if rng.random() < 0.2:
        k["zlib"] = False
    t.write_file(filename=f"{d}/s{step}.nc", **k)
    if way == "bytes":
        with open(f"{d}/s{step}.nc", "rb") as h:
            return BytesIO(h.read()), way
    return f"{d}/s{step}.nc", way


def chain(rng, sc):
    cls = rng.choice(list(CLS))
    n = rng.choice([0, 1, 2, 3, 5, 8])
    t = table(rng, cls, sc["raw"], n, rng.sample(ARR, rng.choice([0, 1, 2, 3])), rng.choice([2, 3, 6]), rng.sample([e for e in EXT if e not in CLS[cls].ELEMENTS], rng.randint(0, 6)))
    case = dict(kind="chain", cls=cls, own=sorted(CLS[cls](0).elements), first=snap(t), steps=[], exc="")
    for s, (z, r) in enumerate(sc["chain"]):
        before = snap(t)
        w, exc = call(write, rng, t, z, "d", s)
        st = dict(z=z, raw=r, way="", keep=[], how="", lo=0, hi=0, exc=exc or "", same=True, got=before, opt="")
        case["steps"].append(st)
        if exc:
            break
        f, st["way"] = w
        st["same"] = snap(t) == before
        k, st["keep"], st["how"], st["lo"], st["hi"] = options(rng, t, r, z)
        st["opt"] = str(k)
        g, exc = call(CLS[cls].load_file, f, **k)
        st["exc"] = exc or ""
        if exc:
            break
        st["got"], exc = call(snap, g)
        if exc:
            st["exc"], st["got"] = exc, before
            break
        t = g
        if st["how"] != "all":
            break
    return case


def foreign(rng):
    """files of other programs: names of dimensions, units, no packing"""
    n = rng.choice([1, 2, 5])
    z = rng.random() < 0.3
    cls = rng.choice(["eddies", "tracks"])
    F = dict(amplitude=[("m", 1), ("cm", 100), ("mm", 1000), (None, 1)], radius_s=[("m", 1), ("km", 1e-3)], speed_average=[("m/s", 1), ("cm/s", 100)], lon=[("degrees_east", 1)], lat=[("degrees_north", 1)])
    sign, key = rng.choice([-1, 1]), rng.choice(["rotation_type", "rotation_type", "title", "type_cyc", None])
    if z:
        key = rng.choice(["rotation_type", None])
    K = {f: [[pick(rng, f, sign)] for _ in range(n)] for f in F}
    val = {}
    for f in F:
        v = VAR_DESCR[f]
        a = np.array(K[f], dtype="f8")[:, 0]
        val[f] = a / 4 if typ(f).kind == "f" else a * v["scale_factor"]
    units = {f: rng.choice(F[f]) for f in F}
    att = rng.choice(["units", "unit"])
    dim = rng.choice(["obs", "Nobs", "observation", "i"])
    if z:
        import zarr
        h = zarr.open("d/f.zarr", "w")
        h.attrs["track_array_variables"] = 0
        for f in F:
            w = h.create_dataset(pub(f), data=val[f] * units[f][1])
            if units[f][0]:
                w.attrs[att] = units[f][0]
        if key:
            h.attrs[key] = str(sign)
        name = "d/f.zarr"
    else:
        name = "d/f.nc"
        with Dataset(name, "w") as h:
            h.createDimension(dim, n)
            for f in F:
                w = h.createVariable(pub(f), "f8", (dim,))
                if units[f][0]:
                    w.setncattr(att, units[f][0])
                w[:] = val[f] * units[f][1]
            if key == "rotation_type":
                h.rotation_type = sign
            elif key == "title":
                h.title = "Cyclonic" if sign == -1 else "Anticyclonic"
            elif key == "type_cyc":
                h.createVariable("cyclonic_type", "i1", (dim,))[:] = sign
    case = dict(kind="foreign", own=[], first=dict(f=K, sign=sign if key else -1, raw=False, n=n, ns=0), steps=[], exc="", cls=cls)
    g, exc = call(CLS[cls].load_file, name)
    st = dict(z=z, raw=False, way="foreign", keep=list(F), how="include", lo=0, hi=1000, exc=exc or "", same=True, got=case["first"], opt=f"{key} {att} {dim} {units}")
    case["steps"].append(st)
    if not exc:
        s = snap(g)
        s["f"] = {f: v for f, v in s["f"].items() if f in F}
        st["got"] = s
    return case


def merged(rng):
    """EddiesMerge: several files in one"""
    raw = rng.random() < 0.5
    arrays, extra, ns = rng.sample(ARR, 2), rng.sample(["amplitude", "radius_e", "speed_average", "num_point_e"], 2), rng.choice([2, 3])
    ts = [table(rng, "tracks", raw, rng.choice([0, 1, 3, 4]), arrays, ns, extra) for _ in range(rng.randint(1, 3))]
    for i, t in enumerate(ts):
        t.sign_type = ts[0].sign_type if rng.random() < 0.7 else -ts[0].sign_type
        t.write_file(filename=f"d/in{i}.nc")
    rot = rng.random() < 0.3
    from py_eddy_tracker.appli.eddies import merge_eddies
    names = list(ts[0].obs.dtype.names)
    keep = names
    argv = ["x"] + [f"d/in{i}.nc" for i in range(len(ts))] + ["d/out.nc"]
    if rng.random() < 0.3:
        keep = sorted(rng.sample(names, rng.randint(1, len(names))))
        if "time" not in keep:
            keep.append("time")
        argv += ["--include_var"] + [pub(f) for f in keep]
    if rot:
        argv += ["--add_rotation_variable"]
    first = snap(ts[0])
    cs = [content(t) for t in ts]
    first["f"] = {f: [r for c in cs for r in c[f]] for f in names}
    if rot:
        first["f"]["type_cyc"] = [[t.sign_type] for t in ts for _ in range(len(t))]
        keep = keep + ["type_cyc"]
    first["n"] = sum(len(t) for t in ts)
    case = dict(kind="merge", cls="tracks", own=sorted(TrackEddiesObservations(0).elements), first=first, steps=[], exc="")
    old = sys.argv
    sys.argv = argv
    _, exc = call(merge_eddies)
    sys.argv = old
    st = dict(z=False, raw=False, way="merge", keep=keep, how="include", lo=0, hi=1000, exc=exc or "", same=True, got=first, opt=" ".join(argv))
    case["steps"].append(st)
    if not exc:
        g, exc = call(TrackEddiesObservations.load_file, "d/out.nc", include_vars=[pub(f) for f in keep])
        st["exc"] = exc or ""
        if not exc:
            st["got"] = snap(g)
            # identities are renumbered (see the operations of the tables)
            st["got"]["f"]["track"] = first["f"]["track"]
            if "track" not in keep:
                del st["got"]["f"]["track"]
            # the sign of the file is the one of the first table, or of the first row
            if rot:
                st["got"]["sign"] = first["sign"]
    return case


if __name__ == "__main__":
    req, rec = start()
    rng = random.Random(req["seed"])
    for sc in req["scenarios"]:
        rec.begin(sc["kind"])
        seed = int(sc.get("scn", rng.getrandbits(60)))
        r = random.Random(seed)
        shutil.rmtree("d", ignore_errors=True)
        os.makedirs("d")
        if sc["kind"] == "chain":
            if "chain" not in sc:
                sc = dict(kind="chain", raw=r.random() < 0.5, chain=[(r.random() < 0.5, r.random() < 0.5) for _ in range(r.randint(1, 4))])
            c = chain(r, sc)
        else:
            c = dict(foreign=foreign, merge=merged)[sc["kind"]](r)
        rec.put(dict(c, scn=str(seed)))
    shutil.rmtree("d", ignore_errors=True)
    rec.end()
