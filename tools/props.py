"""Source of properties.jsonl and of the texts of MANIFEST.json."""
SRC = "src/py_eddy_tracker/"
TRK = SRC + "tracking.py"
OBS = SRC + "observations/observation.py"
TOBS = SRC + "observations/tracking.py"
NET = SRC + "observations/network.py"
GRP = SRC + "observations/groups.py"
GRID = SRC + "dataset/grid.py"
GEN = SRC + "generic.py"
POLY = SRC + "poly.py"
FEAT = SRC + "eddy_feature.py"
APP = SRC + "appli/eddies.py"
T_NOTE = ("Bounded: the design is model-checked exhaustively for small sizes; the real code is run on every small history TLC "
          "enumerates plus seeded larger ones and every recorded run must be a behaviour of the specification. Trusts TLC, numpy, "
          "netCDF4 and the synthetic identification files.")

PROPS = [
 dict(id="T01", title="Association of two files is one-to-one, admissible and cheapest first",
  statement="Linking two sets of eddies never uses an eddy of either set twice, links only admissible pairs (closer than 125 km for the "
  "default tracker, contour overlap above the chosen minimum for the overlap tracker), leaves no admissible pair with both ends free, "
  "and never prefers a dearer pair to a cheaper one that shares an end with it. The reported cost is the documented function of the "
  "two eddies (amplitude, speed radius and distance, or one minus the overlap score). The Chelton tracker gives each eddy its closest "
  "admissible successor and settles shared successors in favour of the largest amplitude.",
  over=["inputs", "configurations"], forall="every pair of sets of eddies, empty or crowded, on any side of the longitude origin, for the three trackers and every minimal overlap",
  why="tests associate one small sample file; conflicts, ties, empty sets and the date line are not reached",
  files=[OBS, SRC + "featured_tracking/area_tracker.py", SRC + "featured_tracking/old_tracker_reference.py", GEN],
  mech=[("tracking/solve_simultaneous/solve_first", OBS), ("mask_function/cost_function", OBS), ("distance_grid", GEN), ("AreaTracker.tracking", SRC + "featured_tracking/area_tracker.py")],
  note=T_NOTE),
 dict(id="T02", title="Track identities follow the associations",
  statement="While files are linked one after the other, an association that starts from an already tracked eddy keeps its identity, one that "
  "starts from an untracked eddy gets the next unused number, and one that starts from a predicted (missing) eddy keeps the identity of "
  "the track it prolongs. Hence an observation belongs to at most one track, a track has at most one observation by file, and identities are dense from zero.",
  over=["histories"], forall="every sequence of files (empty files, births, deaths, conflicts, rebirths) and every prolongation limit",
  why="no test runs the tracking over several files",
  files=[TRK], mech=[("Correspondances.store_correspondance", TRK), ("Correspondances.track", TRK)],
  state=[("correspondances", "associations by step with identity", TRK), ("current_id", "next unused identity", TRK)], note=T_NOTE),
 dict(id="T03", title="A track is bridged over at most the allowed number of missing detections",
  statement="An eddy that disappears is looked for during exactly the allowed number of files and no longer: if it comes back in time its track goes on "
  "with the number of missing files recorded, otherwise a new track begins. An isolated detection never forms nor prolongs a track, and without prolongation no gap is ever bridged.",
  over=["histories", "configurations"], forall="every history of presence and absence of eddies and every prolongation limit",
  why="tests never track with virtual observations", files=[TRK, OBS],
  mech=[("Correspondances.recense_dead_id_to_extend", TRK), ("EddiesObservations.propagate", OBS)],
  state=[("virtual_obs", "missing tracks still looked for, with how long", TRK)], note=T_NOTE),
 dict(id="T04", title="The merged table holds each track once, in order and complete",
  statement="Merging gives, for each track in order of identity, one row for every file between its first and its last one: the unchanged fields of the observation "
  "linked in this file, or an empty row when the file was bridged, numbered from zero. The cost of an association is stored in the row just before the observation it leads to.",
  over=["histories"], forall="every set of associations a tracking run can produce, merged once or several times",
  why="tests merge nothing; the layout depends on the whole history of births and bridges", files=[TRK],
  mech=[("Correspondances.merge", TRK), ("Correspondances.prepare_merging", TRK)], note=T_NOTE),
 dict(id="T05", title="Long, short and untracked outputs partition the detections",
  statement="For a minimal length, every detected eddy is written exactly once: in the long tracks when its track (bridged files included) has at least this length, "
  "in the short tracks when it is shorter, in the untracked file when it belongs to no track. Selected tracks keep their order, are renumbered from zero and are otherwise unchanged, "
  "also when a selection is empty and for every way of writing (packed or decoded, netcdf or zarr, application or final merging script).",
  over=["histories", "configurations"], forall="every tracking history and minimal length, through the API and through the application on real files",
  why="tests do not run the tracking application", files=[TRK, APP, "src/scripts/EddyFinalTracking"],
  mech=[("longer_than/shorter_than/get_unused_data", TRK), ("track", APP)], note=T_NOTE),
 dict(id="T06", title="A resumed tracking equals the uninterrupted one",
  statement="Stopping after any number of files, saving, and resuming from the saved state with more files yields exactly the associations, identities and predicted eddies "
  "(hence the same merged tracks) as one uninterrupted run, however many times this is done.",
  over=["histories", "crash_points"], forall="every history of files, every prolongation limit, every cut point or pair of cut points",
  why="tests never save and resume a tracking", files=[TRK, OBS],
  mech=[("Correspondances.load_state", TRK), ("Correspondances.to_netcdf/from_netcdf", TRK)], note=T_NOTE),
 dict(id="T07", title="Saved correspondances are read back unchanged",
  statement="Saving the associations of a run and loading them gives back the same steps (links, identities, costs, bridges), names of files, next identity, prolongation limit, tracking class and options, "
  "and saving this again changes nothing; merging from the loaded object gives the same table.",
  over=["histories", "configurations"], forall="every run, including steps without link and runs without any",
  why="tests do not write correspondances", files=[TRK], mech=[("Correspondances.to_netcdf", TRK), ("Correspondances.from_netcdf", TRK)], note=T_NOTE),
 dict(id="T08", title="Merging two overlapping runs gives each track a single identity",
  statement="When a second run overlaps the first one long enough for both to hold the same live tracks at the junction, merging them keeps every association of the first run and "
  "those of the second one after the junction, and identities are those of one run: tracks crossing the junction (even bridged over it) keep their identity, new tracks get unused dense numbers, no track appears from nothing.",
  over=["histories"], forall="every pair of runs on overlapping periods which agree on the last common files, directly or through files",
  why="tests do not merge correspondances", files=[TRK, "src/scripts/EddyMergeCorrespondances"], mech=[("Correspondances.merge_correspondance", TRK)], note=T_NOTE),
 dict(id="O01", title="Row selections return exactly the asked rows, whole and in order",
  statement="Extracting observations by mask, area (whatever the longitude convention), time sub-sampling, index, reversed index or slice, and merging filters (slices, masks, indexes, callables) selects exactly the "
  "documented rows, in the order of the dataset (or of the index), each with all its fields unchanged, with the type of eddies kept; neither the source dataset nor the arrays given are modified, the result shares no memory with the source, and "
  "what is computed from the result (period) is about the result. Copies and added or removed fields keep every row and every other field.",
  over=["inputs", "histories"], forall="every dataset (empty, single row, longitudes on any side of the origin) and every sequence of selections",
  why="tests select once or twice in a sample file", files=[OBS], mech=[("extract_with_mask/extract_with_area/time_sub_sample/index", OBS), ("merge_filters", OBS), ("add_fields/remove_fields/copy", OBS)],
  state=[("period_", "cached coverage", OBS)], note=T_NOTE),
 dict(id="O02", title="Selections and queries by track obey tracks, options and identities",
  statement="Selections by id, length, period, area, direction, first or last observation return exactly the observations of the tracks concerned; the option full_path adds every observation of the tracks touched (not those "
  "touched only by virtual observations with reject_virtual), remove_incomplete keeps the tracks selected as a whole, compress_id renumbers the tracks consecutively without mixing them. After any sequence of operations, number of tracks, first index, length, "
  "lifetime, count, mask by id, iteration by track, distance to next observation (zero at the end of a track only) and normalised longitude are those of the current observations.",
  over=["inputs", "histories", "configurations"], forall="every set of tracks (ids absent or not starting at zero, single observation, empty), every mask, option and sequence of operations",
  why="tests use one sample file and few options", files=[TOBS], mech=[("TrackEddiesObservations.extract_with_mask and extract_*", TOBS), ("compute_index", TOBS), ("distance_to_next/normalize_longitude", TOBS)],
  state=[("__first_index_of_track/__obs_by_track/__nb_track", "cached index by track", TOBS)], note=T_NOTE),
 dict(id="O03", title="Gathering datasets keeps every row and never mixes tracks",
  statement="Concatenating, merging, inserting or appending a dataset gives exactly the rows of both, in the documented order and with all fields; with track datasets two observations share a track afterwards if and only if they came from the same dataset and the same track. "
  "The datasets gathered are not modified, share no memory with the result, and queries asked before are not answered from old values afterwards.",
  over=["inputs", "histories"], forall="every pair of datasets, empty ones included, within every sequence of operations",
  why="tests concatenate nothing of this kind", files=[OBS, TOBS], mech=[("concatenate/merge/insert_observations", OBS), ("TrackEddiesObservations.concatenate", TOBS)],
  state=[("period_ and index by track", "caches", TOBS)], note=T_NOTE),
 dict(id="O04", title="Binning puts each observation in exactly its bin",
  statement="Iterating by a field over bins gives, for each bin that holds observations, exactly once each observation whose value is in the bin (lower bound included, upper excluded), with the bounds of the bin; values out of the bins are left out, whatever the order, the type or the number of values. "
  "Iterating two datasets together pairs the groups of equal values and, when asked, gives every group of the reference even if the other has none. A sliding window gives, for each value, exactly the observations within the window. Histograms by bin (count, mean, sum, standard deviation, with or without a filter or centres) are those of the observations of the bin.",
  over=["inputs", "configurations"], forall="every field values (any order, unsigned or float, empty dataset, values out of bins), regular, irregular or default bins, every pair of presences over several dates",
  why="tests draw one histogram of one file", files=[OBS, GEN], mech=[("iter_on/align_on/time_window", OBS), ("bins_stat/hist", OBS), ("hist_numba/build_index", GEN)], note=T_NOTE),
 dict(id="O05", title="Files give back the observations that were written",
  statement="Observations written in a file and loaded again are the same rows in the same order, with the same value of every field (profiles included) to the packing step and the same rotation sign, whatever the format (netcdf, zarr, in memory or on disk) and whether the writer and the reader hold packed (raw) or decoded values; writing again what was loaded, any number of times and through both formats, changes nothing, and writing leaves the table as it was. "
  "Reading some fields (included or removed) or some rows (a slice, open or beyond the end) gives exactly those; the size of buffers and chunks changes nothing. Files of other programs are read whatever the name of their dimension, in the unit of their fields (converted), with the sign they give. EddiesMerge gives the rows of its files one after the other.",
  over=["inputs", "configurations"], forall="every table (empty, one row, several array fields) of each class, every sequence of writings and readings, packed or decoded, netcdf or zarr",
  why="tests write and read one small file", files=[OBS, TOBS, APP], mech=[("to_netcdf/create_variable/write_file", OBS), ("to_zarr/create_variable_zarr", OBS), ("load_from_netcdf/load_from_zarr/copy_data_to_zarr", OBS), ("compare_units/build_var_list", OBS), ("merge_eddies", APP)], note=T_NOTE),
 dict(id="O06", title="Holes, smoothing and longitudes along trajectories are those of each one",
  statement="The dates missing in a table of trajectories, or of segments of networks, are found in each one alone (never across two of them nor for observations out of networks) after the row where they lack and as many times as needed; inserting virtual observations gives the same rows in the same order with, in each hole, the needed number of virtual rows of the same trajectory (segment), evenly interpolated in time and in all fields, relatives of a network pointing to the same observations as before and through the virtual rows of their hole, and the table given untouched. "
  "Filling rows by interpolation changes only these rows, to the line between their known neighbours. Median and loess filters give each row the median, or the weighted mean, of the rows of its own trajectory (segment) in the window, and change no other field. Normalising longitudes moves every position by whole turns so that a trajectory (network) lies around its first position and maxima and contours around their observation. Azimuths are those from the first to the last position of each trajectory.",
  over=["inputs", "configurations"], forall="every table of trajectories or of networks (empty, of one row, groups of one row, untracked rows first), every delay, window and relatives",
  why="tests insert virtual observations in one dataset only", files=[TOBS, NET, "src/py_eddy_tracker/observations/groups.py", GEN], mech=[("insert_virtual/filled_by_interpolation/get_missing_indices", "src/py_eddy_tracker/observations/groups.py"), ("track_loess_filter/track_median_filter", GEN), ("position_filter/normalize_longitude/get_azimuth", TOBS), ("segment_track_array/normalize_longitude/position_filter", NET)], note=T_NOTE),
 dict(id="O07", title="Comparisons of atlases sort every eddy in the right group, once",
  statement="Comparing two datasets puts each observation of each of them in one and only one group: nomatch (no couple above the invalid score), low, intermediate or high (the only couple of both eddies, by its score; the two lists being couples) or multi_match, itself shared by parent (exactly two couples, with eddies which have no other), twin (these two eddies) and complex (the rest); the quick compare command writes exactly these groups, for outer or inner contours and minimal area. "
  "Close trajectories and close networks are, whole and unchanged, those of the other atlas with at least the asked number of couples of contours of the same date which overlap. Contours drawn as circles go round their observation at the asked radius (times the factor), only for virtual ones if asked, and nothing else changes. The shape of a trajectory encloses exactly what its contours enclose together.",
  over=["inputs", "configurations"], forall="every set of couples and scores, every threshold, every pair of datasets (empty included) on any side of the longitude origin",
  why="tests do not compare two different datasets", files=[APP, OBS, TOBS, NET, POLY], mech=[("get_group/run_compare/quick_compare/eddies_add_circle", APP), ("match/circle_contour", OBS), ("close_tracks/shape_polygon", TOBS), ("close_network", NET), ("merge", POLY)], note=T_NOTE),
 dict(id="P01", title="Overlap scores are exact, symmetric and blind to the longitude origin",
  statement="The overlap score of two contours is the area of their intersection over the area of their union (or over the smallest area, or over the area of the second contour, as asked), zero below the minimal overlap (unless hybrid and one is almost inside the other), whatever the direction and first point of the contours and the side of the longitude origin they are written on. "
  "Matching two datasets gives every couple which overlaps above the threshold with its score, and only them, in positions of the datasets or of the selections given, for outer or inner contours; matching by centre gives exactly the couples closer than the asked shift.",
  over=["inputs", "configurations"], forall="every pair of sets of contours, empty included, on any side of the longitude origin, every mode of score, threshold and form of selection",
  why="tests match one file with itself", files=[POLY, OBS, GEN], mech=[("vertice_overlap/polygon_overlap/merge_polygons", POLY), ("bbox_intersection", POLY), ("match/re_reference_index", OBS)], note=T_NOTE),
 dict(id="P02", title="Membership in contours is exact for every point and longitude convention",
  statement="Asking which contour contains a point gives the index of the first contour which encloses it and -1 if there is none or if the point is undefined; the flags inside or not, masks from polygons and containment of a contour in another agree with it, whatever the longitude convention of points and contours, the direction of the contours, repeated end points, and also when there is no point. "
  "Particles created on a grid are exactly the grid nodes inside each contour, once each, with the index of their contour.",
  over=["inputs"], forall="every set of contours (one-point virtual contours included) and points, on any side of the longitude origin",
  why="tests use two points or a plot", files=[POLY, OBS, GRP], mech=[("poly_indexs/group_obs/box_indexes/insidepoly", POLY), ("contains/inside/mask_from_polygons/create_particles", OBS), ("create_meshed_particles", POLY), ("poly_contain_poly/winding_number_poly", POLY)], note=T_NOTE),
 dict(id="P03", title="Areas, convexity and hulls of contours are those of the polygon",
  statement="The area of a polygon is exact and does not depend on its direction or first point; a polygon is declared convex if and only if all its corners turn the same way; the convex hull of an anticlockwise contour holds exactly its outer corners, each once.",
  over=["inputs"], forall="every simple polygon with integer corners around the origin",
  why="tests use two polygons", files=[POLY], mech=[("poly_area", POLY), ("convex", POLY), ("get_convex_hull", POLY)], note=T_NOTE),
 dict(id="P04", title="Line tools draw the line they are given",
  statement="Simplifying a contour by Visvalingam removes, one after the other, the position of smallest triangle until the asked size and closes the result; resampling puts evenly spaced positions on the line from its first to its last position; flattening, splitting and thinning keep exactly the positions of the lines with one gap between pieces; "
  "wrapping writes every longitude in the turn that begins at the reference, and, when cut, draws each side that crosses the bound on both sides of it and no other gap; local metric coordinates come back to the same position.",
  over=["inputs"], forall="every line: closed or not, of one or several pieces, on any side of the longitude origin",
  why="tests check two small samples", files=[POLY, GEN], mech=[("visvalingam", POLY), ("uniform_resample/flatten_line_matrix/simplify/split_line", GEN), ("wrap_longitude", GEN), ("coordinates_to_local/local_to_coordinates", GEN)], note=T_NOTE),
 dict(id="N01", title="Groups are the connected components of overlapping eddies",
  statement="Grouping the eddies of a set of files gives one number to each eddy: two eddies share a group if and only if a chain of links joins them, a link being an overlap above the minimum (union, minimal area or hybrid score, inner or outer contours as asked) between two eddies at most the window apart in the list of files; "
  "an eddy without link is in group zero (trash). The result does not depend on contours being read from files each time or kept in memory, nor on what was grouped before with other files or options.",
  over=["inputs", "histories", "configurations"], forall="every list of files (empty ones included), window, score, minimal overlap and kind of contour, through the API and the application",
  why="tests group a single small sample and look at one count", files=[NET, POLY, SRC + "appli/network.py"],
  mech=[("Network.group_observations/get_group_array", NET), ("Network.group_translator", NET), ("Buffer.load_contour", NET)],
  state=[("Buffer.DATA", "contours kept in memory", NET)], note=T_NOTE),
 dict(id="N02", title="The table by group holds each observation once, unchanged",
  statement="From groups, the table built holds each observation of the files exactly once, sorted by group and, inside a group, in the order of the files, with all its fields unchanged, its group as track number and the type of eddies of the files; "
  "this holds for packed or decoded data, netcdf or zarr files, contours in memory or not, and through the applications that build and divide networks.",
  over=["inputs", "configurations"], forall="every list of files and grouping", why="tests build no table on disk", files=[NET, SRC + "appli/network.py"],
  mech=[("Network.build_dataset", NET), ("get_next_index", NET), ("build_network", SRC + "appli/network.py")], note=T_NOTE),
 dict(id="N03", title="Segments and links of a group follow the best overlaps",
  statement="Dividing groups links each observation to the one of its group with the highest score at the nearest later date (within the window) at which something overlaps; an observation comes from the best of those linked to it or, if there is none, from the best overlap at the nearest earlier date. Two observations follow each other in a segment exactly when each is the link of the other, other links are mergings and splittings between segments. "
  "In the resulting table rows are sorted by group, segment and date, each once with its group, a segment has one observation by date, next and previous indexes point at the rows meant, in the same group, forward (backward) in time, each link has its score as cost (zero without link), and trash has neither segment nor link.",
  over=["inputs", "configurations"], forall="every groups of observations, window, score and minimal overlap, through the API and the application",
  why="tests divide one sample and look at counts of events", files=[TOBS, NET],
  mech=[("TrackEddiesObservations.split_network/get_previous_obs/get_next_obs/follow_obs", TOBS), ("NetworkObservations.from_split_network", NET)], note=T_NOTE),
 dict(id="N04", title="Selections of networks keep rows whole and links meaningful",
  statement="Selecting networks by number, segments, period, duration, dates, mask or without trash returns exactly the observations asked (none for numbers which are not in the dataset), each with its fields, in order; links between selected observations are kept and point at the same observations, links to others are removed; the source is not modified. "
  "Sorting keeps every observation and every link and returns the order used. The subset application applies its options (numbers, duration in days, dead ends, trash, period in days) in this order. Datasets without observation are accepted.",
  over=["inputs", "histories"], forall="every table of networks and every sequence of selections", why="tests select once in one sample", files=[NET, SRC + "appli/network.py", SRC + "observations/groups.py"],
  mech=[("extract_with_mask/network/networks/extract_segment/extract_with_period/longer_than", NET), ("sort", NET), ("generate_mask_from_ids", NET), ("subset_network", SRC + "appli/network.py")],
  state=[("next_obs/previous_obs", "indexes of linked rows", NET)], note=T_NOTE),
 dict(id="N05", title="Births, deaths, mergings and splittings are those of the links",
  statement="Birth events are the first observations of segments without previous one, death events the last ones without next one (trash excluded); merging events are the observations next to the end of a segment, each once, or by triplets in order of date (observation after, the one before it in its own segment, the one which stops), one for each segment which ends in another; splitting events likewise backwards. "
  "Observations close to an event are those reached from it along the links in less than the asked number of days, before or after as appropriate.",
  over=["inputs", "histories"], forall="every table of networks, also after selections, removal of dead ends or exchanges of segments", why="tests count events of one sample", files=[NET],
  mech=[("birth_event/death_event/merging_event/splitting_event", NET), ("mask_obs_close_event/mask_follow_obs", NET), ("first_is_trash", NET)], note=T_NOTE),
 dict(id="N06", title="Dissociation and numbering keep the partition in segments",
  statement="Dissociating networks gives a common number to two observations if and only if a chain of links between segments joins them; new numbers are consecutive from one in the order of the table, trash keeps zero, and rows, segments and links are unchanged up to the order of the rows. "
  "Numbering networks (segments) gives consecutive numbers from the asked start in increasing order of the former ones (inside each network) and changes nothing else.",
  over=["inputs", "histories"], forall="every table of networks and sequence of these operations, absent numbers included", why="not tested", files=[NET],
  mech=[("dissociate_network/tag_segment/connexions", NET), ("numbering_network/numbering_segment/new_numbering", NET)], note=T_NOTE),
 dict(id="N07", title="Removing dead ends sends exactly the short useless segments to trash",
  statement="Removing dead ends moves to trash exactly the segments with fewer observations or days than asked which touch fewer than two other segments and hold no observation of the given mask, removes the links with them, and leaves everything else unchanged; recursive removal is the same operation repeated on its result with the mask following its observations; "
  "the networks are returned, sorted, and the subset application does the same.",
  over=["inputs", "configurations"], forall="every table of networks, thresholds, mask and number of repetitions", why="not tested", files=[NET, SRC + "appli/network.py"],
  mech=[("remove_dead_end", NET), ("segment_mask", NET), ("connexions", NET)], note=T_NOTE),
 dict(id="N08", title="Relatives and water paths are exactly what links reach",
  statement="Relatives of observations up to an order are exactly the segments at most this number of events away from their segments; the relative order of each observation is the number of events between its segment and the origin (-1 when it can not be reached); the link search returns exactly the observations where the water of the given observations may go (forward), come from (backward) or both, each direction on its own, following segments from the observation on and the events met; "
  "this also holds for chains of thousands of segments.",
  over=["inputs", "configurations"], forall="every table of networks, set of observations, order and directions", why="not tested beyond one sample", files=[NET],
  mech=[("relatives/find_segments_relative", NET), ("find_link", NET), ("segment_relative_order/obs_relative_order", NET)], note=T_NOTE),
 dict(id="N09", title="Answers about networks are those of the current observations",
  statement="After any sequence of operations (selections, sorting, numbering, dissociation, removal of dead ends, corrections), number and size of networks and segments, unique number of segments and the identity behind it, presence of trash, connexions between segments, and functions mapped by segment or by network (one value by item or one by observation) are those of the current observations, even if they were asked before.",
  over=["histories"], forall="every table of networks and sequence of operations with questions in between", why="caches only go stale in sequences no test has", files=[NET],
  mech=[("reset_index/index_network/index_segment_track/segment_track_array", NET), ("network_size/network_segment_size/segment_size/unique_segment_to_id", NET), ("map_segment/map_network", NET)],
  state=[("_index_network/_index_segment_track/_segment_track_array", "cached indexes", NET)], note=T_NOTE),
 dict(id="N10", title="Comparison of atlases identifies equal networks and segments",
  statement="Identifying the networks (segments) of an atlas in another one returns each network (segment) with at least the minimal number of observations exactly once, with the number of the one of the other atlas which holds exactly the same observations, or -1 if there is none, whatever the numbers in both. "
  "The comparison of atlases counts the networks with the same observations, those which moreover have the same segments, the segments with the same observations, and the observations they hold.",
  over=["inputs"], forall="every pair of atlases, minimal size and kind of item, also when nothing is common", why="tests compare an atlas with itself", files=[NET, SRC + "appli/network.py"],
  mech=[("identify_in/same_position", NET), ("run_compare", SRC + "appli/network.py"), ("align_on", OBS)], note=T_NOTE),
 dict(id="N11", title="Corrections of segments move what they say and nothing else",
  statement="Correcting close events: when a segment ends in another one which had split from it fewer than the given number of days before, the first goes on with the end of the second from that observation on, and the second stops before; nothing else changes, chains of corrections included. "
  "Swapping after splittings: where a main segment stops soon after a splitting from which a long enough segment starts, with a cost difference above the threshold, the two continuations are exchanged once, next observation and cost included; every other segment, link and cost stays. No observation is lost, networks stay the same and rows are sorted.",
  over=["inputs", "configurations"], forall="every table of networks and thresholds, several corrections on the same segments included", why="not tested", files=[NET],
  mech=[("correct_close_events", NET), ("swap_track", NET)], note=T_NOTE),

 dict(id="G01", title="Interpolated values are those of the cell or of the nearest node",
  statement="The value of a field of a regular grid at a position is the bilinear value of the four nodes around it, or with the nearest method the value of the nearest node, and it is missing when a node needed is out of the grid or masked (values under the mask are never used); grids all around the earth are interpolated over their seam and for any writing of the longitude. "
  "Regridding a field on another grid gives these values and masks. In a collection of grids the value is interpolated in the same way in the two grids around the date and then linearly in time, whatever the order of the dimensions in the file.",
  over=["inputs", "configurations"], forall="every grid (circular or not, masked or not), field, position (in or out of the grid), date and method",
  why="tests interpolate nothing with masks nor over the seam", files=[GRID, GEN],
  mech=[("interp/regrid", GRID), ("interp2d_geo/interp2d_bilinear/interp2d_nearest", GEN), ("GridCollection.interp", GRID)], note=T_NOTE),
 dict(id="G02", title="Derivatives use the widest centred stencil of known values",
  statement="The derivative of a field along rows or columns is at each node the centred difference of the widest stencil (at most the asked half width, up to four) for which all values are known, else the one sided difference with the only known neighbour, and is missing when the node or both its neighbours are missing; rows of grids all around the earth are circles, nothing is taken over the sides of other grids, and values under the mask are never used. "
  "Geostrophic currents are these derivatives with the documented factors and signs, with the same rule for missing values.",
  over=["inputs", "configurations"], forall="every grid (circular or not), mask, field, half width and axis", why="tests derive two small fields", files=[GRID],
  mech=[("compute_stencil", GRID), ("add_uv", GRID)], note=T_NOTE),
 dict(id="G03", title="Particles follow the currents of their own cell, independently",
  statement="Particles moved by a grid of currents make at each step the displacement of the bilinear currents at their position (or the fourth order Runge Kutta combination of them), backward or multiplied by a factor when asked, and a release holds exactly the asked number of steps. A particle which needs a current from a masked node or out of the grid becomes invalid and stays so, and each particle moves as if it was alone: neither the others nor invalid ones change it. "
  "The grids are not modified. Filaments are lines whose head is the moved particle, followed by its former positions, the last first.",
  over=["inputs", "histories", "configurations"], forall="every grid of currents (circular or not, masked), sets of particles, schemes, steps and direction", why="tests do not move particles in grids with masks or seams", files=[GRID],
  mech=[("GridDataset.advect/filament/uv_for_advection", GRID), ("advect/advect_rk4/get_uv_quad/get_grid_indices/interp_uv", GRID)], note=T_NOTE),
 dict(id="G04", title="Advection in time uses the two grids around each step",
  statement="Particles moved through a collection of grids use at each step the currents interpolated linearly between the last grid not after the step and the next one (symmetrically when going backward; the stages of Runge Kutta at the middle and end of the step), whatever the number of steps by release, the start between grids and the spacing of grids, also when the collection has been used before. The date released is the start plus (minus) the steps done, "
  "releases go on until no grid is left to know the currents and then stop. Paths and filaments give these positions with their dates, and leave the starting positions unchanged.",
  over=["inputs", "histories", "configurations"], forall="every sequence of grids (masks may change), start, direction, number of steps by release and scheme", why="tests do not move particles through several grids", files=[GRID],
  mech=[("GridCollection.advect/filament/path", GRID), ("get_next_time_step/get_previous_time_step", GRID), ("advect_t/advect_t_rk4", GRID)], note=T_NOTE),
 dict(id="G05", title="Pixels of a contour are exactly the nodes it encloses",
  statement="The pixels of a contour in a regular grid are exactly the nodes of the grid which are inside the contour, each once, for contours which cross the seam of a circular grid or any side of a regional one (also entirely out of it), in both directions, and whether the grid is given by its nodes or by their corners.",
  over=["inputs"], forall="every regular grid and contour narrower than half a turn, written in the turn of the grid", why="tests do not cross sides nor seams", files=[GRID, GEN, POLY],
  mech=[("get_pixels_in/bbox_indice", GRID), ("bbox_indice_regular/nearest_grd_indice", GEN), ("get_pixel_in_regular", GEN)], note=T_NOTE),
 dict(id="G06", title="Eddies are the outermost acceptable closed contours",
  statement="Identification returns only acceptable closed contours of the scanned levels: every known node inside is above the level for anticyclones (below for cyclones), no node is masked, the number of nodes is within the limits, "
  "the shape error is not above its limit, there are extrema and at most the allowed number of them far enough from the level, and the amplitude reaches the minimum. No node belongs to two eddies, anticyclones or cyclones. "
  "No acceptable contour is left aside unless it shares a node with an eddy found before it (anticyclones from the lowest level up, then cyclones from the highest down). The result is the same when identification is repeated, and is empty for a field without contour.",
  over=["inputs", "configurations"], forall="every field of heights without tie between neighbours, masked or not, on circular or regional grids, and every set of thresholds", why="tests identify eddies in one sample grid and check some values", files=[GRID, FEAT],
  mech=[("RegularGridDataset.eddy_identification/_gridinit/bbox_indice", GRID), ("Amplitude/detect_local_minima_", FEAT), ("Contours.iter/find_wrapcut_path_and_join", FEAT)], note=T_NOTE),
 dict(id="G07", title="Every identified eddy is described as measured on its contours",
  statement="For each identified eddy, the amplitude is the height of its highest (lowest) node over the level of its contour; the speed contour is the contour, among the one of the eddy and those inside it around its extremum with enough nodes, along which the mean speed is greatest; "
  "position, radii, areas, shape errors, heights, numbers of vertices and speeds are those of these contours, the position of the extremum is the one of the innermost contour, the profile of speed goes from the outer to the innermost contour. "
  "Contours are resampled to the requested number of points, enclose the same nodes, and stay within half a turn of the position. Units (m, cm, mm, m/s, cm/s, declared or forced) do not matter; time and sign are right; through the API or the EddyId application, netcdf or zarr.",
  over=["inputs", "configurations"], forall="every field of heights and currents, on circular or regional grids, units, steps, precision, sampling", why="tests identify eddies in one sample grid and check some values", files=[GRID, FEAT, "src/py_eddy_tracker/appli/grid.py"],
  mech=[("eddy_identification/get_uavg/_get_amplitude", GRID), ("Contours.get_index_nearest_path_bbox_contain_pt", FEAT), ("eddy_id", "src/py_eddy_tracker/appli/grid.py")], note=T_NOTE),
 dict(id="G08", title="A grid dataset gives back its file, by date, whatever the history",
  statement="A grid read from a file is the one of the file with longitude first, whatever the order of its dimensions, the packing, the missing values (NaN with nan_masking) and the names of dimensions, at the asked index of the other dimensions (the one of the dataset, or the first), on the part of the coordinates which was opened; it is read once, then what was changed in memory stays until the dataset is cleaned. A copy is independent of its source. "
  "Tiles are the asked part of the file at the date of the dataset. Writing, at any moment, gives a file with exactly the grids in memory (copies included), their coordinates, and reads back the same. "
  "A collection (cube, list of files, after shifts of files and cleaning) gives for a date the grid of that date (KeyError if unknown), between two days the weighted mean, iterates forward from the last grid not after a date and backward from the first not before, and knows its dates and which grids are loaded.",
  over=["inputs", "histories"], forall="every history of readings, copies, changes, writings, cleanings and shifts, every order of dimensions",
  why="tests read one file with one order of dimensions and never write", files=[GRID], mech=[("GridDataset.load/grid/grid_tiles/copy/add_grid/write/clean", GRID), ("GridCollection.from_netcdf_cube/from_netcdf_list/shift_files/interp/reset_grids", GRID)], note=T_NOTE),
 dict(id="G09", title="Observations put on a grid are counted in the right nodes and boxes",
  statement="The count of contours of each node of a grid is the number of selected eddies whose contour (effective or speed) holds the node, whatever the turn longitudes are written with, on circular and regional grids, near the date line and the edges, through the API or get_frequency_grid; the count by centre is the number of selected centres of the box; unused nodes are masked, and the coordinates are the middles of the bins. "
  "The mean by box (grid_stat) is the mean of the unmasked values of the eddies of the box, the percentile by box (grid_box_stat) is the one of the unmasked selected values of the box; boxes without value are masked; grid_box_stat raises an exception when a selected eddy is out of the boxes, and nothing is selected gives a masked grid. "
  "Values of a grid in contours (interp_grid: mean, max, min, count) use all the nodes held by the contour of each selected eddy, masked nodes left aside (but counted by count), NaN when there is none.",
  over=["inputs", "configurations"], forall="every set of contours, every regular grid, mask, and selection of observations",
  why="tests count centres and pixels of one sample file and check sums", files=[OBS, SRC + "appli/eddies.py"], mech=[("EddiesObservations.grid_count/grid_stat/grid_box_stat/interp_grid", OBS), ("grid_count_pixel_in/grid_box_stat/grid_stat", OBS), ("get_frequency_grid", SRC + "appli/eddies.py")], note=T_NOTE),
 dict(id="G10", title="Filters of grids are weighted means of the known values around each node",
  statement="A low pass field holds at each node the mean of the unmasked values under the kernel of its latitude, weighted by this kernel centred on the node, longitudes turning on circular grids (even with kernels wider than the grid) and not on the others, nodes out of the grid left aside. It is masked where the source is masked (with extend: where the known weight is under the asked part of the total), above the maximal latitude, and on latitudes without any value; the source, the shape and the type are kept. "
  "Kernels of the library (bessel, lanczos) follow their formula of the distance to the centre, are centred (odd sizes, over the pole too), and reach order times the wavelength; a wavelength under two steps of the grid is refused. "
  "Low, high and band pass operations replace the grid by the low pass field, the rest, or the difference of two successive low pass fields, for memory or file grids, and through the grid_filtering application.",
  over=["inputs", "configurations"], forall="every field, mask, kernel, regular grid (circular or not, up to the poles), wavelength, order, maximal latitude and extend", why="tests never apply a filter", files=[GRID, SRC + "appli/grid.py"],
  mech=[("RegularGridDataset.convolve_filter_with_dynamic_kernel", GRID), ("estimate_kernel_shape/finalize_kernel/kernel_bessel/kernel_lanczos", GRID), ("bessel_*_filter/lanczos_*_filter/low_filter/high_filter", GRID), ("grid_filtering", SRC + "appli/grid.py")], note=T_NOTE),
]
