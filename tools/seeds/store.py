import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
O='observations/observation.py'
BASE='''
import os, shutil, tempfile
import numpy as np, zarr
from netCDF4 import Dataset
from py_eddy_tracker.observations.observation import EddiesObservations as E
from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T
d = tempfile.mkdtemp()
os.chdir(d)
def mk(cls, n, raw=False, **k):
    o = cls(n, track_extra_variables=["radius_e", "amplitude"], track_array_variables=3, array_variables=["contour_lon_e", "contour_lat_e"], raw_data=raw)
    o.sign_type = 1
    for f in o.obs.dtype.names: o.obs[f] = 0
    for f, v in k.items(): o.obs[f][:] = v
    return o
'''
END='''
shutil.rmtree(d)
'''
mkseed('o05_zarr_block','O05',[(O,'nb_bloc = int(ceil(data.shape[0] / s_bloc))','nb_bloc = int(ceil(max(1, data.shape[0] - 1) / s_bloc))')],
BASE+'''
o = mk(E, 4, raw=True, radius_e=[10, 20, 30, 40])
o.write_file(filename="a.zarr", chunck_size=3)
g = E.load_file("a.zarr", raw_data=True)
assert list(g.obs["radius_e"]) == [10, 20, 30, 40], g.obs["radius_e"]
'''+END,'packed observations written in zarr over several blocks, the last one of one row','the last row of packed fields is lost in the file')
mkseed('o05_buffer_rows','O05',[(O,'for i in range(i_start, i_stop, buffer_size):','for i in range(i_start, max(i_stop - 1, 1), buffer_size):')],
BASE+'''
o = mk(E, 8, radius_e=np.arange(8) * 50.)
o.write_file(filename="a.zarr")
for a in (0, 1, 3, 6):
    try:
        g = E.load_file("a.zarr", indexs=dict(obs=slice(a, 8)), buffer_size=3)
    except ValueError:
        raise AssertionError(a)
    assert list(g.obs["radius_e"]) == [50. * i for i in range(a, 8)], (a, g.obs["radius_e"])
'''+END,'rows one more than a multiple of the buffer','the last row is lost when a part of a zarr file is read')
mkseed('o05_unit_down','O05',[(O,'''            return factor
        else:
            return 1''','''            return max(factor, 1)
        else:
            return 1''')],
BASE+'''
with Dataset("a.nc", "w") as h:
    h.createDimension("obs", 2)
    h.rotation_type = 1
    for f, u, v in (("amplitude", "m", [1, 2]), ("speed_average", "cm/s", [50, 20])):
        x = h.createVariable(f, "f8", ("obs",)); x.units = u; x[:] = v
g = E.load_file("a.nc")
assert np.allclose(g.obs["speed_average"], [.5, .2]), g.obs["speed_average"]
'''+END,'a file of another program with a unit smaller than the one of the package','values of such files are not converted')
mkseed('o05_array_remove','O05',[(O,'''                for variable in var_list:
                    if array_dim in h_nc.variables[variable].dimensions:
                        var_inv = VAR_DESCR_inv[variable]
                        kwargs["array_variables"].append(var_inv)''','''                for variable in h_nc.variables:
                    if array_dim in h_nc.variables[variable].dimensions:
                        var_inv = VAR_DESCR_inv[variable]
                        kwargs["array_variables"].append(var_inv)''')],
BASE+'''
o = mk(E, 2, radius_e=[50, 100])
o.write_file(filename="a.nc")
g = E.load_file("a.nc", remove_vars=["effective_contour_longitude"])
assert "contour_lon_e" not in g.obs.dtype.names
'''+END,'an array field of a netcdf file among the fields to remove','fields which were removed come back')
mkseed('o05_zarr_packed','O05',[(O,'''                    v[sl] = data[sl] * scale_factor + add_offset''','''                    v[sl] = (data[sl] * scale_factor).astype("f4") + add_offset''')],
BASE+'''
t0 = 20000 * 86400 + 12345
o = mk(E, 2, raw=True, time=[1, 1720000001 % (2**31)])
o.write_file(filename="a.zarr")
g = E.load_file("a.zarr", raw_data=True)
assert list(g.obs["time"]) == list(o.obs["time"]), (g.obs["time"], o.obs["time"])
'''+END,'packed values with more digits than a float holds (dates), written in zarr','dates come back some minutes away')
