import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
D='dataset/grid.py'; F='eddy_feature.py'
BASE='''
import numpy as np
from datetime import datetime
from py_eddy_tracker.dataset.grid import RegularGridDataset
def bump(x, y, lon, lat, a, w, turn=False):
    d = x[:, None] - lon
    if turn:
        d = (d + 180) % 360 - 180
    return a * np.exp(-(d**2 + (y[None] - lat) ** 2) / w**2)
def ident(x, y, h, u=None, units=("m", "m/s"), **k):
    h = np.ma.array(h, mask=np.zeros(h.shape, bool)) if not np.ma.isMA(h) else h
    u = np.ones(h.shape) if u is None else u
    m = np.zeros(h.shape, bool)
    d = RegularGridDataset.with_array(coordinates=("lon", "lat"), centered=True, datas=dict(lon=x, lat=y, h=h, u=np.ma.array(u, mask=m), v=np.ma.array(0 * u, mask=m)),
        variables_description=dict(h=dict(units=units[0]), u=dict(units=units[1]), v=dict(units=units[1])))
    p = dict(step=0.02, shape_error=70, pixel_limit=(4, 1000))
    p.update(k)
    return d.eddy_identification("h", "u", "v", datetime(2000, 1, 1), **p)
X, Y = np.arange(0, 20, 0.5), np.arange(20, 35, 0.5)
GX, GY = np.arange(0, 360, 6.0), np.arange(-30, 31, 6.0)
'''
mkseed('g06_reserve','G06',[(D,'''                    data.mask[i_x_in, i_y_in] = True
''','''                    if not amp.mle > 1:
                        data.mask[i_x_in, i_y_in] = True
''')],BASE+'''
h = bump(X, Y, 7.1, 27.1, .3, 1.6) + bump(X, Y, 11.6, 27.3, .2, 1.6) + 0.001
a, c = ident(X, Y, h, mle=2)
assert len(a) == 1 and len(c) == 0, (a.lon, c.lon)
''','several extrema allowed in an eddy, an inner extremum which is not the one followed','eddies are found again inside eddies')
mkseed('g06_pixel_max','G06',[(D,'''                        contour.nb_pixel < pixel_limit[0]
                        or contour.nb_pixel > pixel_limit[1]
''','''                        contour.nb_pixel < pixel_limit[0]
                        or contour.nb_pixel >= pixel_limit[1]
''')],BASE+'''
h = bump(X, Y, 9.1, 27.1, .3, 2.2) + 0.001
a, c = ident(X, Y, h, pixel_limit=(1, 1000))
assert len(a) == 1
l = a.height_external_contour[0]
n = int((h > l + 1e-6).sum())
b, c = ident(X, Y, h, pixel_limit=(1, n))
assert len(b) == 1 and abs(b.height_external_contour[0] - l) < 1e-6, (n, l, b.height_external_contour)
''','an eddy with exactly the maximal number of nodes','the eddy is replaced by a smaller contour')
mkseed('g06_seam_four','G06',[(F,'''                return self.get_next(origin, paths_right, paths_left)
''','''                return self.get_next(origin, paths_left, paths_right)
''')],BASE+'''
# two lobes over the seam, joined on one side only
h = bump(GX, GY, 3, -12.3, .3, 11, True) + bump(GX, GY, 3, 12.3, .3, 11, True) + bump(GX, GY, 15, 0.3, .25, 9, True) - bump(GX, GY, -9, 0.3, .25, 8, True)
n = 0
for s in range(-60, 61, 6):
    a, c = ident(GX, GY, np.roll(h, s // 6, axis=0), mle=6, shape_error=100, step=0.015)
    n = max(n, len(a))
    assert len(a) == n or s == -60, (s, len(a), n)
    sizes = sorted(a.num_point_e)
    if s == -60:
        ref = max(a.radius_e)
    assert abs(max(a.radius_e) - ref) < 0.1 * ref, (s, max(a.radius_e), ref)
''','a contour which crosses the seam of a circular grid four times','the contour is lost')
mkseed('g07_extremum_turn','G07',[(D,'''            eddies.lon_max[:] %= 360
            eddies.lon[:] %= 360
''','''            eddies.lon[:] %= 360
''')],BASE+'''
a, c = ident(X - 30, Y, bump(X, Y, 9.1, 27.1, .3, 2.2) + 0.001)
assert abs(a.lon_max[0] - (a.lon[0] + 0)) < 2, (a.lon_max, a.lon)
''','a grid with negative longitudes','position of the extremum in another turn than the position')
mkseed('g07_contour_turn','G07',[(D,'''            eddies.lon[:] %= 360
            ref = eddies.lon - 180
''','''            ref = eddies.lon - 180
            eddies.lon[:] %= 360
''')],BASE+'''
a, c = ident(X - 30, Y, bump(X, Y, 9.1, 27.1, .3, 2.2) + 0.001)
assert abs(a.contour_lon_e[0].mean() - a.lon[0]) < 5, (a.lon, a.contour_lon_e)
''','a grid with negative longitudes','contours in another turn than the position')
mkseed('g07_pixel_min','G07',[(D,'''                        corrected_coll_index,
                        pixel_min=pixel_limit[0],
''','''                        corrected_coll_index,
''')],BASE+'''
h = bump(X, Y, 9.1, 27.1, .3, 2.2) + 0.001
u = bump(X, Y, 9.1, 27.1, 1, 1.0)
a, c = ident(X, Y, h, u, pixel_limit=(30, 1000))
sx, sy = a.contour_lon_s[0], a.contour_lat_s[0]
r = np.hypot(sx - 9.1, sy - 27.1).mean()
assert np.pi * r * r / 0.25 > 28, np.pi * r * r / 0.25
''','currents fastest near the center, minimal number of nodes not the default one','the speed contour is smaller than allowed')
mkseed('g07_profile_unit','G07',[(D,'''            for name in ["speed_average", "uavg_profile"]:
''','''            for name in ["speed_average"]:
''')],BASE+'''
h = bump(X, Y, 9.1, 27.1, .3, 2.2) + 0.001
u = bump(X, Y, 9.1, 27.1, 1, 2.0)
a, c = ident(X, Y, h, u)
b, c = ident(X, Y, h, 100 * u, units=("m", "cm/s"))
assert np.allclose(a.uavg_profile, b.uavg_profile, atol=1e-3), (a.uavg_profile[0, :3], b.uavg_profile[0, :3])
''','currents in cm/s','the profile of speed is not converted')
mkseed('g06_hidden_extremum','G06',[(F,'''                    if general_mask[i_ + i, j_ + j]:
                        g[i_ + 1, j_ + 1] = 2e10
''','''                    if general_mask[i_ + i, j_ + j]:
                        g[i_ + 1, j_ + 1] = 2e10 * sign
''')],BASE+'''
h = np.ma.array(bump(X, Y, 9.1, 27.1, .3, 2.2) + 0.001)
h.mask = np.zeros(h.shape, bool)
i, j = np.unravel_index(h.argmax(), h.shape)
# a masked node out of every contour but beside the extremum of a narrow eddy
h2 = h * 0 + 0.001
h2[10, 10], h2[10, 11], h2[11, 10], h2[11, 11] = .3, .25, .24, .23
h2.mask[9, 9] = True
for s in (1, -1):
    r = ident(X, Y, h2 * s, pixel_limit=(1, 100), shape_error=150, nb_step_min=1)
    assert len(r[0]) + len(r[1]) == 1, (s, len(r[0]), len(r[1]))
''','an anticyclone whose extremum is beside a masked node','the eddy is not found')
