import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
D='dataset/grid.py'; G='generic.py'; P='poly.py'
BASE='''
import numpy as np
from py_eddy_tracker.dataset.grid import RegularGridDataset, GridCollection
def mk(x, y, **f):
    return RegularGridDataset.with_array(coordinates=("lon", "lat"), centered=True, datas=dict(lon=np.array(x, dtype="f8"), lat=np.array(y, dtype="f8"), **f),
        variables_description={k: dict(units="m") for k in f})
'''
CUBE=BASE+'''
from netCDF4 import Dataset
def cube(path, times, us, vs, masks, nx=8, ny=6):
    with Dataset(path, "w") as h:
        for k, n in (("t", len(times)), ("lon", nx), ("lat", ny)):
            h.createDimension(k, n)
        h.createVariable("t", "f8", ("t",))[:] = times
        h.createVariable("lon", "f8", ("lon",))[:] = np.arange(nx)
        h.createVariable("lat", "f8", ("lat",))[:] = 10 + np.arange(ny)
        for k, w in (("u", us), ("v", vs)):
            v = h.createVariable(k, "f8", ("t", "lon", "lat"), fill_value=1e-5)
            a = np.ma.array(np.ones((len(times), nx, ny)) * np.array(w)[:, None, None], mask=masks)
            v[:] = a
    return GridCollection.from_netcdf_cube(path, "lon", "lat", "t")
'''
mkseed('g01_cache_masked','G01',[(G,'''                    masked = False
            # Need to be stored only on change
            i0_old, j0_old = i0, j0
        if masked:
''','''                    masked = False
                    # Need to be stored only on change
                    i0_old, j0_old = i0, j0
        if masked:
''')],BASE+'''
z = np.ma.array(np.arange(36.).reshape(6, 6)); z.mask = np.zeros((6, 6), bool); z.mask[4, 4] = True
d = mk(range(6), range(6), z=z)
# same cell, masked cell, first cell again
r = d.interp("z", np.array([1.5, 3.5, 1.25]), np.array([1.5, 3.5, 1.5]))
assert np.isnan(r[1]) and np.isfinite(r[0]) and np.isfinite(r[2]) and abs(r[2] - 9.) < 1e-9, r
''','a position in a masked cell followed by one of the cell which was read before','the second position is reported missing')
mkseed('g01_nearest_turn','G01',[(G,"""        j0 = int(round((y[i] - y_ref) / y_step))
        if is_circular:
            i0 %= nb_x
""","""        j0 = int(round((y[i] - y_ref) / y_step))
        if is_circular and i0 >= nb_x:
            i0 -= nb_x
""")],BASE+"""
c = mk(np.arange(8) * 45., range(6), z=np.ma.array(np.arange(48.).reshape(8, 6)))
r = c.interp("z", np.array([-40., 320, 680., 10]), np.array([2.] * 4), method="nearest")
assert r.tolist() == [44, 44, 44, 2], r
""",'nearest value on a circular grid, longitude written before the first one','the value is missing')
mkseed('g02_left_mask','G02',[(D,'            if m3 or m_3 or stencil_halfwidth == 2:\n','            if m3 or (m_3 and i < 4) or stencil_halfwidth == 2:\n')],BASE+'''
z = np.ma.array(np.random.RandomState(0).rand(14, 6) * 10); z.mask = np.zeros(z.shape, bool)
z.mask[4, 2] = True; z.data[4, 2] = 1e10
d = mk(range(14), np.arange(6) + 10., z=z)
g = d.compute_stencil(z)
assert np.abs(g.compressed()).max() < 1, g
''','a masked node three columns west of a node, all the others being known','the value under the mask enters the derivative')
mkseed('g02_u_width','G02',[(D,"""            -self.compute_stencil(
                data, vertical=True, stencil_halfwidth=stencil_halfwidth
            )
""","""            -self.compute_stencil(
                data, vertical=True, stencil_halfwidth=max(stencil_halfwidth, 2)
            )
""")],BASE+"""
z = np.ma.array(np.random.RandomState(0).rand(14, 8))
d = mk(range(14), np.arange(8) + 10., z=z)
d.add_uv("z", stencil_halfwidth=1)
f = 4 * np.pi / (23 * 3600 + 56 * 60 + 4.1) * np.sin(np.radians(14))
want = -9.807 / f * (z[5, 5] - z[5, 3]) / 2 / (np.pi / 180 * 6370997)
assert abs(d.grid("u")[5, 4] / want - 1) < 1e-3, (d.grid("u")[5, 4], want)
""",'geostrophic currents with the narrowest stencil','the north component of the gradient uses a wider stencil than asked')
mkseed('g03_quad_mask','G03',[(D,'    if m[i0, j0] or m[i0, j1] or m[i1, j0] or m[i1, j1]:\n        return True, nan','    if m[i0, j0] or m[i0, j1] or (m[i1, j0] and m[i1, j1]):\n        return True, nan')],BASE+'''
m = np.zeros((8, 6), bool); m[4, 3] = True
u = np.ma.array(np.ones((8, 6)), mask=m); u.data[m] = 0; v = np.ma.array(np.zeros((8, 6)), mask=m)
d = mk(range(8), 10 + np.arange(6), u=u, v=v)
for rk in (True, False):
    x, y = np.array([3.5]), np.array([13.5])
    next(d.advect(x, y, "u", "v", nb_step=3, rk4=rk))
    assert np.isnan(x).all(), x
    x, y = np.array([3.5]), np.array([12.5])
    next(d.advect(x, y, "u", "v", nb_step=3, rk4=rk))
    assert np.isnan(x).all(), x
''','a particle in a cell with only one masked corner, in the east','it moves with the value under the mask')
mkseed('g03_cache_rk4','G03',[(D,'''            # k4, slope at end with updated guess position
            x3, y3 = x_ + u3, y_ + v3
            ii_, jj_, xd, yd = get_grid_indices(
                x_ref, y_ref, x_step, y_step, x3, y3, nb_x
            )
            if ii_ != i_cache or jj_ != j_cache:
                i_cache, j_cache = ii_, jj_
                if not is_circular and (ii_ < 0 or ii_ > nb_x_):
                    masked = True
''','''            # k4, slope at end with updated guess position
            x3, y3 = x_ + u3, y_ + v3
            ii_, jj_, xd, yd = get_grid_indices(
                x_ref, y_ref, x_step, y_step, x3, y3, nb_x
            )
            if ii_ != i_cache or jj_ != j_cache:
                i_cache = ii_
                if not is_circular and (ii_ < 0 or ii_ > nb_x_):
                    masked = True
''')],BASE+'''
r = np.random.RandomState(1)
s = 30.
u = np.ma.array((r.rand(8, 6) - .5) * s); v = np.ma.array((r.rand(8, 6) - .5) * s)
d = mk(range(8), 10 + np.arange(6), u=u, v=v)
n = 5000
x0, y0 = r.uniform(2, 5, n), r.uniform(11.5, 13.5, n)
x, y = x0.copy(), y0.copy()
next(d.advect(x, y, "u", "v", nb_step=2, time_step=3600))
# the order of the particles has no effect
x1, y1 = x0[::-1].copy(), y0[::-1].copy()
next(d.advect(x1, y1, "u", "v", nb_step=2, time_step=3600))
assert np.allclose(x, x1[::-1], equal_nan=True) and np.allclose(y, y1[::-1], equal_nan=True)
''','the last stage of a step is in another row of cells than the third, and the next position read is back in the row before','currents of the wrong cell are used')
mkseed('g03_filament_float','G03',[(D,'''            advect_(self.x_c, self.y_c, u, v, m, x, y, mp, nb_step)
            f_x[::filament_size_] = x
            f_y[::filament_size_] = y
            yield f_x, f_y
''','''            advect_(self.x_c, self.y_c, u, v, m, x, y, mp, nb_step)
            f_x[::filament_size_] = x
            f_y[::filament_size_] = y
            # Particles which are out restart from the last known position
            f_x[::filament_size_][mp] = f_x[1::filament_size_][mp]
            f_y[::filament_size_][mp] = f_y[1::filament_size_][mp]
            yield f_x, f_y
''')],BASE+'''
u = np.ma.array(np.ones((8, 6))); v = np.ma.array(np.zeros((8, 6)))
d = mk(range(8), 10 + np.arange(6), u=u, v=v)
f = d.filament(np.array([5.9]), np.array([13.5]), "u", "v", nb_step=1, time_step=86400, filament_size=4)
for _ in range(3):
    x, y = next(f)
    h = x[0]
assert np.isnan(h), x
''','a line of which the particle leaves the grid','the head of the line stays at its last position')
mkseed('g04_mask_first','G04',[(D,'''                    (m0, u000, u001, u010, u011, v000, v001, v010, v011) = get_uv_quad(
                        i0, j0, u_g0, v_g0, m_g0, nb_x
                    )
                    (m1, u100, u101, u110, u111, v100, v101, v110, v111) = get_uv_quad(
                        i0, j0, u_g1, v_g1, m_g1, nb_x
                    )
''','''                    (m0, u000, u001, u010, u011, v000, v001, v010, v011) = get_uv_quad(
                        i0, j0, u_g0, v_g0, m_g0, nb_x
                    )
                    (m1, u100, u101, u110, u111, v100, v101, v110, v111) = get_uv_quad(
                        i0, j0, u_g1, v_g1, m_g0, nb_x
                    )
''')],CUBE+'''
m = np.zeros((2, 8, 6), bool); m[1, 3, 2] = True
with tempfile.TemporaryDirectory() as d:
    c = cube(d + "/c.nc", [0, 1], [1, 1], [0, 0], m)
    x, y = np.array([3.5, 5.5]), np.array([12.5, 13.5])
    next(c.advect(x, y, u_name="u", v_name="v", t_init=0, nb_step=2, rk4=False))
assert np.isnan(x[0]) and np.isfinite(x[1]), x
''','a node masked in the second grid only, euler scheme','missing currents enter the displacement')
mkseed('g04_half_w','G04',[(D,'            u4, v4 = u0_ * w_ + u1_ * (1 - w_), v0_ * w_ + v1_ * (1 - w_)\n            # RK4 compute\n','            w_ = max(w_, 0.)\n            u4, v4 = u0_ * w_ + u1_ * (1 - w_), v0_ * w_ + v1_ * (1 - w_)\n            # RK4 compute\n'),(D,'            w_ = w - half_w\n','            w_ = w - (half_w if half_w < 0.2 else 0.2)\n')],CUBE+'''
with tempfile.TemporaryDirectory() as d:
    c = cube(d + "/c.nc", [0, 1], [0, 5], [0, 0], np.zeros((2, 8, 6), bool))
    x, y = np.array([3.2]), np.array([12.])
    next(c.advect(x, y, u_name="u", v_name="v", t_init=0, nb_step=1, time_step=43200, rk4=True))
# speed goes from 0 to 2.5 m/s in half a day
want = 1.25 * 43200 / (6370997 * np.pi / 180 * np.cos(np.radians(12)))
assert abs(x[0] - 3.2 - want) < 1e-4, (x, want)
''','steps of time longer than 0.4 of the time between two grids','the middle of the step is not in the middle')
mkseed('g04_reset','G04',[(D,'''            if m.sum() > N:
                for i in where(m)[0]:
                    self.datasets[i][1].clean()
''','''            if m.sum() > N:
                for i in where(m)[0][N:]:
                    self.datasets[i][1].vars.update(self.datasets[0][1].vars)
                for i in where(m)[0]:
                    self.datasets[i][1].dimensions = None
''')],CUBE+'''
with tempfile.TemporaryDirectory() as d:
    us = [1., 2., 3., 4.]
    c = cube(d + "/c.nc", [0, 1, 2, 3], us, [0] * 4, np.zeros((4, 8, 6), bool))
    for n in (None, 1):
        x, y = np.array([1.2]), np.array([12.])
        g = c.advect(x, y, u_name="u", v_name="v", t_init=0, nb_step=24, time_step=3600, rk4=False, reset_grid=n)
        for _ in range(3):
            next(g)
        r = x.copy()
        if n is None:
            want = r
assert abs(r[0] - want[0]) < 1e-6, (r, want)
''','grids used for a run are released and a new run is made','the second run uses wrong currents')
mkseed('g05_seam_ref','G05',[(P,'''        x_ref = vertices[0, 0]
        x_array = (
            (concatenate((x_c[x_start:], x_c[:x_stop])) - x_ref + 180) % 360
''','''        x_ref = vertices[0, 0]
        if x_ref > x_c[-1]:
            x_ref -= 360
        x_array = (
            (concatenate((x_c[x_start:], x_c[:x_stop])) - x_ref + 180) % 360
''')],BASE+'''
d = mk(np.arange(36) * 10., range(6), z=np.ma.array(np.zeros((36, 6))))
sq = lambda k: np.roll(np.array([[335., .5], [375, .5], [375, 3.5], [335, 3.5]]), k, axis=0)
for k in range(4):
    v = sq(k); v = np.concatenate((v, v[:1]))
    i, j = d.get_pixels_in(np.ascontiguousarray(v))
    assert set(zip(i.tolist(), j.tolist())) == {(a, b) for a in (34, 35, 0, 1) for b in (1, 2, 3)}, (k, i, j)
''','a contour over the seam of a circular grid whose first point is after the last longitude','no pixel is found')
mkseed('g05_south','G05',[(G,"    slice_y = max(i_y0 - N, 0), i_y1 + N + 1\n","    slice_y = max(i_y0 - N, 1), i_y1 + N + 1\n")],BASE+'''
d = mk(np.arange(36), range(6), z=np.ma.array(np.zeros((36, 6))))
v = np.array([[3.5, -.4], [7.5, -.4], [7.5, 2.5], [3.5, 2.5], [3.5, -.4]])
i, j = d.get_pixels_in(v)
assert set(j.tolist()) == {0, 1, 2}, j
''','a contour which reaches the first row','the first row is left out')
