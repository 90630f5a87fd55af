import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
N='observations/network.py'; T='observations/tracking.py'
FILES='''
import numpy as np
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.observations.network import Network
def files(boxes, path=None):
    """boxes: for each date, list of intervals of longitude"""
    out = []
    for d, b in enumerate(boxes):
        o = EddiesObservations(len(b), track_array_variables=4, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
        o.sign_type = 1
        for k, (x0, x1) in enumerate(b):
            o.obs["lon"][k] = (x0 + x1) / 2.
            o.obs["time"][k] = d + 1
            for c in "es":
                o.obs["contour_lon_" + c][k], o.obs["contour_lat_" + c][k] = [x0, x1, x1, x0], [0, 0, 1, 1]
        if path is not None:
            o.write_file(filename="%s/f%d.nc" % (path, d))
            o = "%s/f%d.nc" % (path, d)
        out.append(o)
    return out
'''
BASE='''
import numpy as np
from py_eddy_tracker.observations.network import NetworkObservations
def mk(rows):
    """rows: network, segment, date, next, previous"""
    o = NetworkObservations(len(rows)); o.sign_type = 1
    for k, (tr, sg, t, n, p) in enumerate(rows):
        o.obs["track"][k], o.obs["segment"][k], o.obs["time"][k], o.obs["next_obs"][k], o.obs["previous_obs"][k], o.obs["lon"][k] = tr, sg, t, n, p, k
    return o
'''
mkseed('n01_merge','N01',[(N,'            m = gr_i[ii] != gr_j[ij]\n','            m = gr_i[ii] < gr_j[ij]\n')],FILES+'''
import tempfile
with tempfile.TemporaryDirectory() as d:
    n = Network.from_eddiesobservations(files([[(0, 4)], [(0, 4), (20, 24)], [(20, 24), (0, 4)], [(1, 23)]], d), window=1)
    g = n.group_observations(min_overlap=0.01)
assert len(set(g.tolist())) == 1, g
''','an eddy of an old group and an eddy of a newer group which are joined by a later eddy','two parts of a same group keep different numbers when the first one met has the greater number')
mkseed('n02_memory','N02',[(N,'''                    e = TrackEddiesObservations.load_file(h, raw_data=raw_data)
''','''                    e = TrackEddiesObservations.load_file(h)
''')],FILES+'''
import tempfile
with tempfile.TemporaryDirectory() as d:
    fs = files([[(0, 4)], [(0, 4)]], d)
    n = Network(d + "/f*.nc", window=2, memory=True)
    t = n.build_dataset(n.group_observations())
    t.write_file(filename=d + "/out.nc")
    r = EddiesObservations.load_file(d + "/out.nc")
assert list(r.time) == [1, 2] and list(r.lon) == [2, 2], (r.time, r.lon)
''','files in memory with packed data','decoded values are written as packed ones')
mkseed('n03_window','N03',[(T,'t0, t1 = time_cur - 1 - time_ref, max(time_cur - window - time_ref, 0)','t0, t1 = time_cur - 1 - time_ref, max(time_cur - window - time_ref, 1)')],'''
import numpy as np
from py_eddy_tracker.observations.tracking import TrackEddiesObservations
b = [(1, 0, 8), (2, 0, 5), (2, 5, 8)]
o = TrackEddiesObservations(3, track_array_variables=4, array_variables=["contour_lon_e", "contour_lat_e"])
for k, (t, x0, x1) in enumerate(b):
    o.track[k], o.time[k] = 1, t
    o.obs["contour_lon_e"][k], o.obs["contour_lat_e"][k] = [x0, x1, x1, x0], [0, 0, 1, 1]
r = o.split_network(intern=False, window=2, min_overlap=0.1)
assert list(r["previous_obs"]) == [-1, 0, 0], r
''','a splitting from an observation of the first date of its group','segments which split from the first date have no previous observation')
mkseed('n04_period','N04',[(N,'mask = self.time >= (dataset_period[0] - p_min)','mask = self.time >= (self.time[0] - p_min)')],BASE+'''
o = mk([(1,1,5,1,-1),(1,1,6,-1,0),(2,1,1,3,-1),(2,1,2,4,2),(2,1,3,-1,3)])
assert list(o.extract_with_period((-1, 0)).time) == [5, 6, 2, 3]
''','a negative start and a first network which is not the oldest one','the period begins after the first network and not after the first date')
mkseed('n04_longer','N04',[(N,'if nb_day_min <= (ptp(t[i]) + 1) <= nb_day_max:','if nb_day_min <= (t[i][-1] - t[i][0] + 1) <= nb_day_max:')],BASE+'''
o = mk([(1,1,1,1,-1),(1,1,9,-1,0),(1,2,3,-1,0)])
assert len(o.longer_than(8)) == 3
''','a network whose last segment is not the last one in time','duration of network computed with its last row')
mkseed('n05_order','N05',[(N,'idx_m0_stop = i_stop[m][i]','idx_m0_stop = i_stop[m]')],BASE+'''
o = mk([(1,1,5,3,-1),(1,2,1,4,-1),(1,3,1,4,-1),(1,3,6,-1,4),(1,3,2,3,2)])
o = mk([(1,1,5,4,-1),(1,2,1,3,-1),(1,3,1,3,-1),(1,3,2,4,2),(1,3,6,-1,3)])
a, b, c = o.merging_event(triplet=True, only_index=True)
assert list(zip(a, b, c)) == [(3, 2, 1), (4, 3, 0)], (a, b, c)
''','mergings which are not met in the order of time','triplets mix observations of different events')
mkseed('n05_backward','N05',[(N,'''        i_next = next_obs[i]
        dt_ = abs(time[i_next] - t0)
''','''        i_next = next_obs[i]
        dt_ = time[i_next] - t0
''')],BASE+'''
o = mk([(1,1,1,1,-1),(1,1,9,3,0),(1,2,2,3,-1),(1,2,10,-1,2)])
m = o.mask_obs_close_event(merging=True, spliting=False, dt=3)
assert list(m) == [False, True, True, True], m
''','an event just after a gap','observations far before an event are close to it')
mkseed('n06_row0','N06',[(N,'m_p = i_previous != -1','m_p = i_previous > 0')],BASE+'''
o = mk([(1,1,1,-1,-1),(1,2,2,2,0),(1,2,3,-1,1)])
o.dissociate_network()
assert list(o.track) == [1, 1, 1], o.track
''','a segment which splits from the very first observation','networks are cut at this splitting')
mkseed('n07_mask','N07',[(N,'concatenate((segments_keep, self.segment_track_array[mask]))','concatenate((segments_keep, self.segment[mask]))')],BASE+'''
o = mk([(1,1,1,1,-1),(1,1,2,2,0),(1,1,3,-1,1),(2,1,1,4,-1),(2,1,2,5,3),(2,1,3,-1,4),(2,3,2,-1,3)])
m = np.zeros(7, bool); m[6] = True
o.remove_dead_end(nobs=3, mask=m)
assert list(o.track) == [1, 1, 1, 2, 2, 2, 2], o.track
''','a mask with networks whose segments are not numbered as in the whole table','segments selected by mask are removed and others kept')
mkseed('n08_first','N08',[(N,'if dist < d and dist <= order:','if d > order and dist <= order:')],BASE+'''
# 1-2-3-4 and 1-4, then 4-5
o = mk([(1,1,1,-1,-1),(1,2,2,-1,0),(1,3,3,3,1),(1,4,4,-1,0),(1,5,5,-1,3)])
assert set(o.relatives(0, order=3).segment) == {1, 2, 3, 4, 5}, set(o.relatives(0, order=3).segment)
''','a segment reached by two paths, the longest one explored first','relatives behind this segment are missing')
mkseed('n09_sorted','N09',[(N,'''        index_order = self.obs.argsort(order=order, kind="mergesort")
        self.reset_index()
''','''        index_order = self.obs.argsort(order=order, kind="mergesort")
        if (index_order[1:] < index_order[:-1]).any():
            self.reset_index()
''')],BASE+'''
o = mk([(1,1,1,-1,-1),(1,2,5,3,-1),(2,1,1,-1,-1)][:1] + [(2,1,1,2,-1),(2,1,2,-1,1),(4,1,1,-1,-1)])
assert o.nb_network == 3
o.dissociate_network()
assert list(o.track) == [1, 2, 2, 3] and list(o.network_size([3, 4])) == [1, 0], o.network_size()
''','numbers of networks which change without any change of order, after a first question','answers are about the former networks')
mkseed('n10_lat','N10',[(N,'if t0[i0_] != t1[i1_] or x0[i0_] != x1[i1_] or y0[i0_] != y1[i1_]:','if t0[i0_] != t1[i1_] or x0[i0_] != x1[i1_]:')],BASE+'''
o = mk([(1,1,1,1,-1),(1,1,2,-1,0),(2,1,1,3,-1),(2,1,2,-1,2)])
p = o.copy()
p.obs["lat"][1] = 1
a, b = o.identify_in(p)
assert list(zip(a, b)) == [(1, -1), (2, 2)], (a, b)
''','networks with the same longitudes and dates but other latitudes','different networks are said equal')
mkseed('n11_length','N11',[(N,'                t_secondary_end - t_secondary_start,','                t_secondary_end - t_event,')],BASE+'''
o = mk([(1,1,1,1,-1),(1,1,2,-1,0),(1,2,2,3,0),(1,2,4,-1,2)])
o.previous_cost[:] = [0, .5, .5, .9]
o.swap_track(1, 3, -.2)
assert list(o.segment) == [1, 1, 2, 2] and list(o.time) == [1, 2, 2, 4], (o.segment, o.time)
o.swap_track(1, 2, -.2)
assert list(o.segment) == [1, 1, 1, 2] and list(o.time) == [1, 2, 4, 2], (o.segment, o.time)
''','a secondary segment just too short','segments too short are exchanged')
