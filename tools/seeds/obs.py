import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
O='observations/observation.py'; T='observations/tracking.py'
BASE='''
import numpy as np
from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T
def mk(track, **k):
    o = T(len(track)); o.sign_type = 1
    o.track[:] = track
    for f, v in k.items(): o.obs[f][:] = v
    return o
'''
mkseed('o01_area','O01',[(O,'mask *= (lon > lon0) * (lon < area["urcrnrlon"])','mask *= (lon > lon0) * (lon < area["urcrnrlon"] % 360)')],
BASE+'''
o = mk([0,1,2], lon=[355, 5, 100], lat=0)
assert list(o.extract_with_area(dict(llcrnrlon=350, urcrnrlon=370, llcrnrlat=-10, urcrnrlat=10)).track) == [0, 1]
''','an area whose eastern bound is beyond 360 degrees','areas across the longitude origin select nothing')
mkseed('o01_filter','O01',[(O,'''            # Mask case
            elif filter2.dtype == bool:
                return ~reject * filter2
            # index case
            else:
                return filter2[~reject[filter2]]''','''            # Mask case
            elif filter2.dtype == bool:
                return ~reject * filter2
            # index case
            else:
                return filter2[filter1]''')],
BASE+'''
o = mk([0,1,2,3,4,5])
assert list(o.merge_filters(slice(2, 5), np.array([0, 2, 4]))) == [2, 4]
''','a slice merged with an index','the slice is applied to the index and not to the observations')
mkseed('o02_incomplete','O02',[(T,'            tracks = unique(self.tracks[~mask])','            tracks = unique(self.tracks[~mask & ~self.virtual.astype("bool")])')],
BASE+'''
o = mk([0,0,0,1,1], virtual=[0,0,1,0,0])
m = np.array([1,1,0,1,1], dtype=bool)
assert list(o.extract_with_mask(m, remove_incomplete=True).track) == [1, 1]
''','remove_incomplete with a track whose only unselected observations are virtual','a partially selected track is kept, with observations out of the mask')
mkseed('o02_lifetime','O02',[(T,'return self.nb_obs_by_track.repeat(self.nb_obs_by_track)','return (self.n[self.index_from_track + self.nb_obs_by_track - 1] + 1).repeat(self.nb_obs_by_track)')],
BASE+'''
o = mk([0,0,0,0,1,1], n=[0,1,2,3,0,1])
s = o.extract_with_mask(np.array([0,0,1,1,1,1], dtype=bool))
assert list(s.lifetime) == [2, 2, 2, 2]
''','lifetime asked on a dataset where tracks were cut by a selection','lifetime is read from the numbering of observations before the selection')
mkseed('o02_period','O02',[(T,'            mask *= self.time <= (dataset_period[1] + p_max)','            mask *= self.time <= (self.time[-1] + p_max)')],
BASE+'''
o = mk([0,0,0,1,1], time=[10, 11, 12, 9, 10])
assert list(o.extract_with_period((0, -1)).time) == [10, 11, 9, 10]
''','a negative upper bound on a dataset whose last row is not the last date','the bound is taken from the last track')
mkseed('o03_three','O03',[(T,'            last_track = new_track.max() + 1\n','            last_track = obs.track.max() + 1\n')],
BASE+'''
o = mk([0, 0, 1, 1])
t = T.concatenate([o, o, o]).track
assert len(set(t)) == 6, t
''','three datasets or more gathered at once','tracks of the second and third datasets share identities')
mkseed('o03_insert','O03',[(O,'            index = self_size + index + 1\n','            index = self_size + index\n            index += index == self_size - 1\n')],
BASE+'''
o = mk([0, 1, 2]); p = mk([7])
assert list(o.insert_observations(p, -2).track) == [0, 1, 7, 2]
''','insertion with a negative index other than -1','rows are inserted one position too early')
mkseed('o03_addf','O03',[(O,'''            only_variables=list(concatenate((self.fields, fields, array_fields))),
            raw_data=self.raw_data,
        )
        new.sign_type = self.sign_type
        for name in self.fields:''','''            only_variables=list(concatenate((self.fields, fields, array_fields))),
            raw_data=self.raw_data,
        )
        new.sign_type = self.sign_type
        for name in set(self.fields) & set(self.ELEMENTS + ["track", "n", "virtual"]):''')],
BASE+'''
o = T(3, track_extra_variables=["lon_max"]); o.sign_type = 1
o.lon_max[:] = [1, 2, 3]
assert list(o.add_fields(("type_cyc",)).lon_max) == [1, 2, 3]
''','a dataset with extra fields','extra fields of the source are zero after a field is added')
