"""Synthetic identification files whose every field encodes (file, row)."""
import numpy as np
from py_eddy_tracker import VAR_DESCR
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.featured_tracking.area_tracker import AreaTracker

DAY0 = 20000
NPT = 5
ARR = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s", "uavg_profile"]
EXTRA = ["height_max_speed_contour", "height_external_contour", "height_inner_contour", "lon_max", "lat_max"]
NOENC = {"lon", "lat", "time", "contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"}


def uid_of(f, i):
    return 1 + f * 64 + i


def quantum(name):
    """value of one unit of the code used to write uid in a field, and modulus"""
    d = VAR_DESCR[name]
    sf = d.get("scale_factor", 1)
    t = np.dtype(d["output_type"])
    mod = 65000 if t.kind == "f" or t.itemsize >= 2 else 200
    if t.kind == "f":
        sf = 1.0
        mod = 1000 if t.itemsize == 2 else 65000
    return sf, mod


def code(name, uid):
    sf, mod = quantum(name)
    return (1 + (uid * 7919 + sum(map(ord, name))) % mod if mod < 1000 else uid % mod) * sf


def build(cls, f, pos, uids=None, day=None, size=0.3, raw=False, sign=1):
    """pos: list of (lon, lat)"""
    n = len(pos)
    e = cls(size=n, track_extra_variables=list(EXTRA), track_array_variables=NPT, array_variables=list(ARR))
    uids = [uid_of(f, i) for i in range(n)] if uids is None else uids
    e.sign_type = sign
    for name in e.fields:
        if name in NOENC:
            continue
        for i in range(n):
            e.obs[name][i] = code(name, uids[i])
    sx = np.array([-1, 1, 1, -1, -1]) * size
    sy = np.array([-1, -1, 1, 1, -1]) * size
    for i, (x, y) in enumerate(pos):
        e.obs["lon"][i], e.obs["lat"][i] = x, y
        e.obs["contour_lon_e"][i] = x + sx
        e.obs["contour_lat_e"][i] = y + sy
        e.obs["contour_lon_s"][i] = x + sx / 2
        e.obs["contour_lat_s"][i] = y + sy / 2
    e.obs["time"] = DAY0 + f if day is None else day
    return e


REG = {}


class _Mem:
    """load_file from memory; every call gives a fresh copy (as reading a file does)"""

    @classmethod
    def load_file(cls, filename, raw_data=False, include_vars=None, **kw):
        if isinstance(filename, bytes):
            filename = filename.decode()
        e = REG[str(filename)]
        new = e.copy()
        if "cmin" in kw:
            new.cmin = kw["cmin"]
        return new


class MemObs(_Mem, EddiesObservations):
    __slots__ = ()


class MemArea(_Mem, AreaTracker):
    __slots__ = ()

    @classmethod
    def needed_variable(cls):
        return None
