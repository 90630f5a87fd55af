import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
D='dataset/grid.py'
BASE='''
import os, shutil, tempfile
import numpy as np
from netCDF4 import Dataset
from py_eddy_tracker.dataset.grid import RegularGridDataset as R, GridCollection as C
d = tempfile.mkdtemp(); os.chdir(d)
X, Y = np.arange(10, 15.0), np.arange(20, 24.0)
def field(k):
    return k * 100 + np.arange(20.).reshape(5, 4)
def mk(name, order=("time", "lat", "lon"), nt=1, names=("h",), k0=0):
    n = dict(time=nt, lat=4, lon=5)
    with Dataset(name, "w") as h:
        for i, j in n.items(): h.createDimension(i, j)
        for i, c in (("lon", X), ("lat", Y), ("time", 100. + np.arange(nt))):
            h.createVariable(i, "f8", (i,))[:] = c
        for v in names:
            w = h.createVariable(v, "f8", order)
            for t in range(nt):
                f = field(k0 + t)
                sl = tuple(t if i == "time" else slice(None) for i in order)
                w[sl] = f if order.index("lon") < order.index("lat") else f.T
def op(name, **k): return R(name, "lon", "lat", centered=True, **k)
'''
END='''
shutil.rmtree(d)
'''
mkseed('g08_copy_alias','G08',[(D,'''            infos=h_dict["infos"].copy(),
            attrs=h_dict["attrs"].copy(),
            args=tuple((grid_out, *h''','''            infos=dict(),
            attrs=h_dict["attrs"].copy(),
            args=tuple((grid_out, *h''')],BASE+'''
mk("a.nc")
g = op("a.nc"); g.grid("h"); g.copy("h", "k"); g.write("b.nc")
assert (op("b.nc").grid("k") == field(0)).all()
'''+END,'a copy of a grid whose file has latitude first, then written','the copy is transposed in the file')
mkseed('g08_time_between','G08',[(D,'''            if i > 0 and self.datasets[i - 1][0] >= t_init:''','''            if i > 0 and self.datasets[i - 1][0] > t_init:''')] if False else
[(D,'''        w = (t - t0) / (t1 - t0)
        return v1 * w + v0 * (1 - w)''','''        w = (t - self.time[0]) % (t1 - t0)
        return v1 * w + v0 * (1 - w)''')],BASE+'''
for i in range(3): mk(f"{i}.nc", k0=i)
c = C.from_netcdf_list([f"{i}.nc" for i in range(3)], [100.5, 101, 102], "lon", "lat", centered=True)
v = c.interp("h", 101.25, np.array([12.]), np.array([22.]), method="nearest")
assert np.isclose(v[0], field(1)[2, 2] * .75 + field(2)[2, 2] * .25), v
'''+END,'a collection whose first date is not a whole number of days','values between two dates have a wrong weight')
mkseed('g08_shift_same','G08',[(D,'''        self.datasets = self.datasets[1:]

        d = RegularGridDataset(filename, **rgd_kwargs)''','''        self.datasets = [i for i in self.datasets if i[0] >= t - len(self.datasets)][-len(self.datasets) + 1 :]

        d = RegularGridDataset(filename, **rgd_kwargs)''')],BASE+'''
for i in range(2): mk(f"{i}.nc", k0=i)
c = C.from_netcdf_list(["0.nc"], [100], "lon", "lat", centered=True)
c.shift_files(101, "1.nc", x_name="lon", y_name="lat", centered=True)
assert list(c.time) == [101], c.time
'''+END,'a collection of one grid, then a shift','the oldest file is kept')
mkseed('g08_reload_desc','G08',[(D,'''        self.dimensions = None
        self.variables_description = None
        self.global_attrs = None
        self.x_c = None
        self.y_c = None
        self.x_bounds = None
        self.y_bounds = None
        self.x_dim = None
        self.y_dim = None
        self.contours = None
        self.vars = dict()

    @property''','''        self.dimensions = None
        self.global_attrs = None
        self.x_c = None
        self.y_c = None
        self.x_bounds = None
        self.y_bounds = None
        self.contours = None
        self.vars = {k: v for k, v in self.vars.items() if k not in self.variables_description}
        self.variables_description = None
        self.x_dim = None
        self.y_dim = None

    @property'''),(D,'''        self.vars[varname] = grid

    def grid(''','''        self.vars[varname] = grid
        if varname in self.variables_description:
            self.variables_description[varname]["infos"]["added"] = True

    def grid('''),(D,'''                if infos.get("transpose", False):
''','''                if infos.get("transpose", False) and not infos.get("added", False):
''')],BASE+'''
mk("a.nc")
g = op("a.nc"); g.grid("h"); g.add_grid("h", np.ma.array(field(3), mask=np.zeros((5, 4), bool)))
g.write("b.nc")
assert (op("b.nc").grid("h") == field(3)).all()
'''+END,'a grid of the file replaced by another in memory, latitude first in the file, then written','the grid cannot be written or is transposed')
mkseed('g08_depth_order','G08',[(D,'''                    i_x = where(array(dims) == self.x_dim)[0][0]
                    i_y = where(array(dims) == self.y_dim)[0][0]
                    if i_x > i_y:
                        self.variables_description''','''                    i_x = where(array(dims) == self.x_dim)[0][0]
                    i_y = where(array(dims) == self.y_dim)[0][0]
                    if i_x > 0 and i_x >= i_y:
                        self.variables_description''') if False else (D,'''                    indexs.get(
                        dim,
                        self.indexs.get(''','''                    self.indexs.get(
                        dim,
                        indexs.get(''')],BASE+'''
mk("a.nc", nt=3)
g = op("a.nc", indexs=dict(time=2))
assert (g.grid("h", indexs=dict(time=1)) == field(1)).all()
'''+END,'a grid asked at a date in a dataset opened at another','the grid of the other date is given')
