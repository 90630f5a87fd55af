import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
O='observations/observation.py'; G='generic.py'; P='poly.py'
BASE="""
import numpy as np
from py_eddy_tracker import poly, generic
from py_eddy_tracker.observations.observation import EddiesObservations as E
def sq(x, y, w=1, h=1):
    return [x, x + w, x + w, x, x], [y, y, y + h, y + h, y]
def ds(*p):
    o = E(len(p), track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e"])
    for i, (x, y) in enumerate(p):
        o.obs["contour_lon_e"][i], o.obs["contour_lat_e"][i] = x, y
        o.obs["lon"][i], o.obs["lat"][i] = np.mean(x[1:]), np.mean(y[1:])
    return o
"""
mkseed('p01_wrap','P01',[(P,'            if abs(x_in_min - x1_min_) > 180:\n','            if x1_min_ - x_in_min > 180:\n')],
BASE+"""
a, b = ds(sq(358, 0, 4, 2)), ds(sq(-3, 0, 4, 2))
for u, v in ((a, b), (b, a)):
    i, j, s = u.match(v)
    assert len(i) == 1, (i, j, s)
""",'contours on the two sides of the longitude origin, the first of them the eastern one','couples across the origin are lost')
mkseed('p01_hybrid','P01',[(P,'and (intersection / min(p0_area_, p1_area_)) > 0.99','and (intersection / p1_area_) > 0.99')],
BASE+"""
big, small = ds(sq(0, 0, 10, 10)), ds(sq(2, 2))
k = dict(hybrid_area=True, min_overlap=.2)
assert big.match(small, **k)[2] > 0
assert small.match(big, **k)[2] > 0
""",'hybrid score with a first contour inside the second','an eddy fully inside a large one is not matched in one direction')
mkseed('p02_wrap','P02',[(P,'                    x = (x_p[i_p] - x_c_min + 180) % 360 + x_c_min - 180\n','                    x = x_p[i_p]\n                    if x < x_c_min:\n                        x += 360\n')],
BASE+"""
c = ds(sq(-182, 0, 4, 2))
assert list(c.contains(np.array([-181., 179., 181.]), np.array([1., 1., 1.]))) == [0, 0, 0]
""",'a contour and a point written a turn apart, the point being the larger','points inside are declared outside')
mkseed('p02_boxes','P02',[(P,'        if i0 > i1:\n            i1 += nb_x\n','        if x_c_max > 360 and i0 > i1:\n            i1 += nb_x\n')],
BASE+"""
c = ds(sq(-2, 0, 4, 2))
assert list(c.contains(np.array([-1., 1., 359.]), np.array([1., 1., 1.]))) == [0, 0, 0]
""",'a contour across the origin with negative longitudes','its points are not found')
mkseed('p03_convex','P03',[(P,'    x0, y0, x1, y1, x2, y2 = x[-2], y[-2], x[-1], y[-1], x[1], y[1]\n','    x0, y0, x1, y1, x2, y2 = x[-1], y[-1], x[1], y[1], x[1], y[1]\n    x2, y2 = x[2], y[2]\n    x0, y0, x1, y1, x2, y2 = x[-1], y[-1], x[-1], y[-1], x[1], y[1]\n    x1, y1, x2, y2 = x2, y2, x[2], y[2]\n    ref = is_left(x0, y0, x1, y1, x2, y2)\n    for i in range(3, nb):\n        x0, y0, x1, y1 = x1, y1, x2, y2\n        x2, y2 = x[i], y[i]\n        if ref != is_left(x0, y0, x1, y1, x2, y2):\n            return False\n    return True\n')],
BASE+"""
x, y = np.array([1., 4, 4, 0, 0, 1]), np.array([1., 0, 4, 4, 0, 1])
for k in range(5):
    a, b = np.roll(x[:-1], k), np.roll(y[:-1], k)
    assert not poly.convex(np.append(a, a[0]), np.append(b, b[0])), k
""",'the only concave corner is the first position','a concave contour is declared convex')
mkseed('p04_even','P04',[(G,'    dist[1:] = distance(x_val[:-1], y_val[:-1], x_val[1:], y_val[1:])\n','    dist[1:] = 111194.9 * ((x_val[1:] - x_val[:-1]) ** 2 + (y_val[1:] - y_val[:-1]) ** 2) ** 0.5\n')],
BASE+"""
x, y = np.array([0., 0, 1]), np.array([59., 60, 60])
r = generic.uniform_resample(x, y, fixed_size=31)
d = generic.distance(r[0][:-1], r[1][:-1], r[0][1:], r[1][1:])
assert d.max() / d.min() < 1.1, (d.min(), d.max())
""",'a line far from the equator','positions are evenly spaced in degrees and not on the sphere')
mkseed('p04_cut','P04',[(G,'            if not isnan(x_) and not isnan(x_previous):\n','            if not isnan(x_):\n'),(G,'                if abs(d - d_new) > 1e-5:\n','                if not abs(d - d_new) <= 1e-5:\n')],
BASE+"""
x, y = np.array([1., 2, np.nan, 3, 4]), np.zeros(5)
r = generic.wrap_longitude(x, y, 0, cut=True)
assert len(r[0]) == 5, r
""",'several lines separated by gaps','additional gaps and positions are drawn')
mkseed('o04_gaps','O04',[(G,'        if group != next_group:\n            first_index[group - i0 + 1 : next_group - i0 + 1] = i + 1\n','        if group != next_group:\n            first_index[next_group - i0] = i + 1\n')],
BASE+"""
first, last, i0 = generic.build_index(np.array([1, 1, 4]))
assert list(last - first) == [2, 0, 0, 1], (first, last)
""",'groups with no observation between two others','the index of an empty group begins at zero')
