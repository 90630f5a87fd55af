"""The whole tracking application on files: identification files -> long / short / untracked files."""
import os
import random
import shutil
import subprocess
import sys
import numpy as np
from netCDF4 import Dataset
from hlib import start, call, WORK
import tk_lib
from tk_lib import build, DAY0
from track_h import lane_positions, random_positions, links_of
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.observations.tracking import TrackEddiesObservations
from py_eddy_tracker.tracking import Correspondances
from py_eddy_tracker.appli import eddies

OWN = ("track", "n", "virtual", "cost_association", "observation_number")


def is_lon(n):
    return n == "lon" or n == "lon_max" or n.startswith("contour_lon")


def same(n, a, b):
    a, b = np.asarray(a, dtype="f8"), np.asarray(b, dtype="f8")
    if is_lon(n):
        return np.all(np.abs((a - b + 180) % 360 - 180) < 2e-3)
    return np.array_equal(a, b)


class Src:
    def __init__(self, files):
        self.files = files
        self.by = {(int(round(float(e.obs["time"][i]) - DAY0)), int(e.obs["num_point_e"][i])): (f, i)
                   for f, e in enumerate(files) for i in range(len(e))}

    def locate(self, o, names):
        if "virtual" in names and o["virtual"]:
            return (-1, -1)
        fi = self.by.get((int(round(float(o["time"]) - DAY0)), int(o["num_point_e"])))
        if fi is None:
            return (-2, -2)
        e = self.files[fi[0]]
        for n in e.fields:
            if n in OWN:
                continue
            if n not in names or not same(n, e.obs[n][fi[1]], o[n]):
                return (-2, -2)
        return fi


def main():
    req, rec = start()
    for k, sc in enumerate(req["scenarios"]):
        rng = random.Random(f"{req['seed']}/{k}")
        rec.begin(sc)
        d = os.path.join(WORK, f"app{k}")
        os.mkdir(d)
        out = os.path.join(d, "out")
        os.mkdir(out)
        pos, lanes = (lane_positions(sc["pres"], rng) if "pres" in sc
                      else (random_positions(rng, sc["nfile"], sc["nmax"], sc["dense"]), None))
        # the application does not run on nothing: two close eddies somewhere are kept in two files
        pos[0].append((100.0, 10.0))
        pos[1].append((100.1, 10.0))
        if lanes:
            # one more lane
            nl = 1 + max([max(p) for p in sc["pres"] if p] or [0])
            lanes[0].append(nl)
            lanes[1].append(nl)
        paths, sign = [], rng.choice([1, -1])
        for f, p in enumerate(pos):
            e = build(EddiesObservations, f, p, sign=sign)
            paths.append(os.path.join(d, f"eddies_{20190101 + f}.nc"))
            with Dataset(paths[-1], "w") as h:
                e.to_netcdf(h)
        src = Src([EddiesObservations.load_file(p) for p in paths])
        V, size = sc["V"], min(sc["size"], len(paths))
        raw, zarr = bool(sc["raw"]), bool(sc["zarr"])
        case = dict(kind=sc["kind"], scenario=sc, V=V, n0=len(pos[0]), nfiles=len(paths), exc="", ev=[], fin={"none": 0})

        def go():
            cor = os.path.join(d, "cor.nc")
            eddies.track(os.path.join(d, "eddies_*.nc"), out, cor, nb_obs_min=size, raw=raw, zarr=zarr, virtual=V,
                         correspondances_only=bool(sc["script"]))
            if sc["script"]:
                env = dict(os.environ, PYTHONPATH="/repo/src")
                r = subprocess.run([sys.executable, "-W", "ignore", "/repo/src/scripts/EddyFinalTracking", cor, "--path_out", out, "--nb_obs_min", str(size),
                                    "--eddies_long_model", "%(path)s/%(sign_type)s.nc", "--eddies_short_model",
                                    "%(path)s/%(sign_type)s_track_too_short.nc", "--eddies_untracked_model",
                                    "%(path)s/%(sign_type)s_untracked.nc"], env=env, capture_output=True, text=True)
                if r.returncode:
                    if os.environ.get("VF_DEBUG"):
                        print(r.stderr)
                    raise RuntimeError(r.stderr.strip().splitlines()[-1][:200])
            return Correspondances.load(cor)
        c, e = call(go)
        if e:
            case["exc"] = e
        else:
            case["ev"] = [dict(n=len(pos[k + 1]), links=L) for k, L in enumerate(links_of(c))]
            ext = ".zarr" if zarr and not sc["script"] else ".nc"
            name = "Anticyclonic" if sign == 1 else "Cyclonic"

            def tab(kind):
                t = TrackEddiesObservations.load_file(os.path.join(out, name + kind + ext))
                return [dict(t=int(o["track"]), n=int(o["n"]), f=fi[0], src=fi[1]) for o, fi in
                        ((o, src.locate(o, t.obs.dtype.names)) for o in t.obs)], t.sign_type
            r, e = call(lambda: (tab(""), tab("_track_too_short"), EddiesObservations.load_file(os.path.join(out, name + "_untracked" + ext))))
            if e:
                case["exc"] = "read:" + e
            else:
                case["fin"] = dict(size=size, longf=r[0][0], shortf=r[1][0],
                                   unused=[list(src.locate(o, r[2].obs.dtype.names)) for o in r[2].obs],
                                   attrs=[[sign, int(r[0][1])], [sign, int(r[1][1])], [sign, int(r[2].sign_type)]])
                if lanes:
                    case["fin"]["lanes"] = lanes
        rec.put(case)
        shutil.rmtree(d)
    rec.end()


main()
