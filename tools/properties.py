#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place, so that they stay in step)."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "crates/mapping-algorithms/src/"
KD, HULL_G, HULL_J, PIP, POLY = "kd_tree/mod.rs", "polygons/graham_scan.rs", "polygons/jarvis_march.rs", "polygons/point_in_polygon.rs", "polygons/mod.rs"
LINE, GEO = "lines/bresenham.rs", "geo/haversine.rs"
VOX, SORT, CLOUD, NN = "point_clouds/downsample.rs", "point_clouds/lex_sort.rs", "point_clouds/mod.rs", "point_clouds/nearest_neighbour.rs"
ICP, ICPH, ICPT, ISO, UTIL, NAN, LIB = "point_clouds/icp/mod.rs", "point_clouds/icp/helpers.rs", "point_clouds/icp/types.rs", "types/isometry.rs", "utils/mod.rs", "types/is_nan.rs", "lib.rs"

PROPS = []

def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=observe))

TOL = "Results of floating point calculations are compared within stated bounds on what rounding can change."

prop("P01", "KD-tree queries return a nearest stored point",
     "After any sequence of insertions, bulk constructions, clones and order-preserving edits of the stored points, querying a KD-tree returns a stored point whose distance to the query is no larger than that of any other stored point. It returns nothing exactly if the tree is empty.",
     ["histories", "inputs"], "all histories of operations on trees of f32 or f64 points in 1 to 7 dimensions, all finite queries",
     "The tests query one small tree in a few places; pruning errors depend on the insertion order, on ties along the splitting coordinate and on where the query lies relative to each splitting plane.",
     [KD, UTIL], [("KDNode::nearest: descends into the near side, and prunes the far side by the distance to the splitting plane", KD), ("KDNode::insert: equal coordinates go to the same side everywhere", KD)],
     "stateful model-based property testing against a linear scan", "Sampled histories. Trusts a linear scan over the model's points, computed in the precision of the tree.", ["KDTree::nearest"])
prop("P02", "A KD-tree holds every inserted point exactly once",
     "A KD-tree behaves like a set of points: inserting a point which is already stored changes nothing, and any other insertion adds exactly that point. Its length, its emptiness, and both kinds of traversal always report exactly the distinct points that were inserted, each of them once. A clone consists of the same points as the tree it was made from, also after a mutable traversal has changed them.",
     ["histories", "inputs"], "all histories of insertions (with repetitions), bulk constructions, clones and traversals",
     "The tests insert few points, and a single duplicate of a leaf; whether a duplicate is recognized depends on where in the tree the original is, and on every comparison on the way down.",
     [KD], [("KDNode::insert rejects equal points", KD), ("KDTree::insert keeps count", KD), ("traverse / traverse_mut visit both branches", KD)],
     "stateful model-based property testing against a set", "Sampled histories, compared with an ordered set after every step.", ["KDTree::len", "KDTree::is_empty", "KDTree::traverse_tree", "KDTree::traverse_tree_mut"])
prop("P03", "Linear nearest-neighbour search returns a closest point",
     "Searching a slice of points for the nearest neighbour of a target returns an element of that slice, and no other element is closer to the target. It returns nothing exactly if the slice is empty.",
     ["inputs"], "all finite clouds and targets, f32 and f64, 1 to 7 dimensions",
     "The tests look up one target; an error in a single coordinate, or in how the running minimum is updated, shows only for particular arrangements.",
     [NN, UTIL], [("find_nearest_neighbour_naive keeps the closest point so far", NN), ("distance_squared", UTIL)],
     "property testing against exhaustive comparison", "Sampled clouds. Distances are recomputed independently.", ["find_nearest_neighbour_naive"])
prop("P04", "Graham scan returns exactly the convex hull's corners",
     "For points whose coordinates allow the orientation of three points to be computed exactly, the Graham scan returns each corner of the convex hull once, in clockwise order starting with the lexicographically smallest one, and no other point. It returns nothing exactly if there are fewer than three points, or if all of them are on one line. " + "For other finite floating point coordinates, its result is a hull up to rounding. Unsorted points with a coordinate which is NaN have no hull.",
     ["inputs"], "all point sets (duplicates, collinear runs, any order) of all 12 numeric element types, in both precisions",
     "The tests use one cloud of 20 points in general position and a few trivial inputs; duplicates, collinear runs, extreme coordinates of narrow or unsigned integers and sorted input are not reached.",
     [HULL_G, POLY, SORT], [("monotone chain over lexicographically sorted points", HULL_G), ("calculate_determinant", POLY), ("lex_sort", SORT)],
     "property testing against an exact reference (128-bit integers)", "Sampled point sets. Exact on lattices; containment, convexity and area up to rounding on arbitrary floats.", ["graham_scan"])
prop("P05", "Jarvis march returns the convex hull and always terminates",
     "For points whose coordinates allow the orientation of three points to be computed exactly, the Jarvis march returns a clockwise walk along the convex hull which starts at the lexicographically smallest point, goes around once, visits each corner, and visits no point inside (points in the middle of an edge may be visited). It returns nothing exactly if there are fewer than three points or if all of them are on one line, and it always returns: duplicates and collinear points never make its result grow without bound.",
     ["inputs"], "all point sets (duplicates, collinear runs, any order) of all 12 numeric element types, in both precisions",
     "The tests use one cloud in general position; gift wrapping is known for going astray on collinear points and duplicates, which need particular arrangements and orders.",
     [HULL_J, POLY, UTIL], [("the next vertex is the one with everything else on one side, ties by distance", HULL_J), ("the walk ends at its first vertex", HULL_J)],
     "property testing against an exact reference (128-bit integers), with an allocation budget", "Sampled point sets. Exact on lattices. Endless growth is detected by a budget of allocations, not of time; an endless loop which does not allocate is an error of the check.", ["jarvis_march"])
prop("P06", "Convex hulls agree across algorithms, types, orders and mirroring",
     "The corners of a convex hull do not depend on the algorithm, on the element type or the precision which represents the points exactly, on the order of the points, on repetitions, or on additional points inside of the hull. Mirroring the points mirrors the hull.",
     ["inputs"], "all point sets which several element types represent exactly, all permutations and repetitions",
     "No test compares the two algorithms, or the same points in different types.",
     [HULL_G, HULL_J, POLY], [("both algorithms use calculate_determinant in the requested precision", POLY)],
     "differential and metamorphic property testing", "Sampled point sets within the range where determinants are exact.", ["graham_scan", "jarvis_march"])
prop("P07", "Hulls with a voxel size are hulls of the downsampled cloud",
     "Requesting a convex hull with a voxel size gives the convex hull of the cloud after downsampling with that voxel size, with both algorithms, and no matter whether the input is declared as already sorted (when it is).",
     ["inputs"], "all point sets and voxel sizes for which means do not overflow the element type",
     "The tests use a voxel size for a single cloud, and never together with sorted input; downsampling does not preserve the order, so the error depends on hashing.",
     [HULL_G, HULL_J, VOX], [("points are sorted again after downsampling", HULL_G), ("downsample_point_cloud_voxel", VOX)],
     "property testing against an exact reference of the downsampled cloud", "Sampled point sets. Sums of integers which overflow their type are a known finding (KF-a), and excluded.", ["graham_scan", "jarvis_march"])
prop("P08", "Point-in-polygon follows the even-odd rule",
     "A point which is not on the boundary of a polygon is reported as inside if and only if a ray from it crosses the boundary an odd number of times; this holds for any polygon (concave, self-intersecting, with repeated or collinear vertices), including rays which pass through vertices or along edges. The answer does not depend on which vertex comes first, or on the direction of the vertices.",
     ["inputs"], "all polygons with any number of vertices, all points off the boundary, f32 and f64",
     "The tests use a few hand-picked polygons and points; errors appear when the ray meets a vertex, when edges are horizontal, or when the polygon's first or last edge is involved.",
     [PIP], [("does_ray_intersect_polygon_segment", PIP), ("is_single_point_in_polygon counts the intersections, including that of the closing edge", PIP)],
     "property testing against an exact reference and metamorphic relations", "Sampled polygons. Exact on lattices; points close to the boundary are skipped on arbitrary floats.", ["is_single_point_in_polygon"])
prop("P09", "Bulk point-in-polygon agrees with individual lookups",
     "Looking up several points in a polygon gives one answer for each of them, in their order, and each answer is that of looking up the point on its own. It gives nothing if (and only if) the polygon has fewer than three vertices.",
     ["inputs"], "all polygons and lists of points, on the boundary and on the extents too",
     "The tests compare one list; the shortcut for points outside of the extents must never contradict the full computation.",
     [PIP, POLY], [("are_multiple_points_in_polygon tests the extents first", PIP), ("calculate_polygon_extents", POLY)],
     "differential property testing", "Sampled polygons and lists of points, f32 and f64.", ["are_multiple_points_in_polygon", "is_single_point_in_polygon"])
prop("P10", "Polygon extents are the tight bounding box",
     "The extents of a polygon are, in each dimension, the smallest and the largest coordinate of its vertices, for any signs and magnitudes. There are none exactly if there are fewer than three vertices.",
     ["inputs"], "all lists of finite vertices, f32 and f64, 1 to 7 dimensions",
     "The tests use one polygon whose extents surround the origin; wrong starting values show only for coordinates of one sign, or of unusual magnitude.",
     [POLY], [("calculate_polygon_extents folds minimum and maximum from the extreme values of the type", POLY)],
     "property testing against a direct computation", "Sampled vertices.", ["calculate_polygon_extents"])
prop("P11", "Bresenham lines are connected and follow the ideal line",
     "A plotted line begins at its start, ends at its end, and takes as many steps as the whole part of its longest side; each step moves by one unit along the longest axis, and by at most one unit along every other axis, in the direction of the end. In each step the position along every other axis is the ideal one, rounded to a whole number of units with the library's threshold (up to 1/(dimensions + 1) of a unit ahead of it). This holds for all directions, in every dimension, and for coordinates so large that a unit cannot be represented.",
     ["inputs"], "all pairs of finite end points with less than 2^24 steps, f32 and f64, any number of dimensions",
     "The tests plot a few short lines; accumulated error, steep, negative, axis-aligned and very distant lines are not reached.",
     [LINE], [("error accumulation along the minor axes", LINE), ("offsets from the starting point", LINE), ("choice of the primary axis", LINE)],
     "property testing against the ideal line", "Sampled end points. Exact on multiples of 1/64, " + TOL.lower(), ["plot_bresenham_line"])
prop("P12", "Output types only convert the points of a line",
     "The points of a line in an integer (or another floating point) type are those of the line in its own floating point type, each coordinate converted like a numeric cast: truncated towards zero, and clamped to the range of the type.",
     ["inputs"], "all end points, 12 output types, both precisions, any number of dimensions",
     "The tests use few output types and hardly any fractions, negative coordinates for unsigned types, or coordinates out of range.",
     [LINE], [("each coordinate is converted when it is emitted", LINE)],
     "differential property testing", "Sampled end points.", ["plot_bresenham_line"])
prop("P13", "Haversine distance is the great-circle distance",
     "The distance of two places is the length of the shortest great-circle arc on a sphere with the given radius, up to rounding, for every pair of valid coordinates: next to each other, antipodal, at the poles and across the antimeridian. It is never NaN or negative, the same in both directions up to rounding, and zero for a place and itself.",
     ["inputs"], "all latitudes from -90 to 90, longitudes of any revolution up to 560 degrees, radii of at least zero, f32 and f64",
     "The tests compute two distances; rounding takes the haversine out of its domain only for particular (nearly antipodal or polar) pairs.",
     [GEO], [("calculate_haversine_distance", GEO)],
     "property testing against a cancellation-free reference", "Sampled pairs; the tolerance is what rounding the angles and each operation can change.", ["calculate_haversine_distance"])
prop("P14", "Bearings are initial great-circle bearings within a full turn",
     "The bearing from one place to another is the direction, clockwise from north, in which the shortest great-circle arc leaves the first place, wherever it is determined (up to rounding). It is never negative, and less than a full turn.",
     ["inputs"], "all latitudes from -90 to 90, longitudes of any revolution up to 560 degrees, f32 and f64",
     "The tests compute one bearing, so quadrants, the antimeridian and the range are not reached.",
     [GEO], [("calculate_sphere_bearing", GEO)],
     "property testing against tangent vectors", "Sampled pairs; skips what rounding determines (coincident, antipodal and polar places).", ["calculate_sphere_bearing"])
prop("P15", "Voxel downsampling yields one mean per occupied voxel",
     "Downsampling partitions space into cubes of the voxel size, aligned with the origin (also for negative coordinates), and returns exactly one point for each cube which contains points: their mean, computed in the element type. The order of the result is arbitrary.",
     ["inputs"], "all clouds in 1 to 7 dimensions, 10 element types, all positive voxel sizes; sums must be within the range of the element type",
     "The tests use one cloud of seven points; boundaries, negative coordinates, integers, and the relation of voxel and element precision are not reached.",
     [VOX], [("voxels are found by flooring the scaled coordinates", VOX), ("sum and division per voxel", VOX)],
     "property testing with constructed voxel membership", "Sampled clouds. Overflowing sums of integers are a known finding (KF-a), and excluded.", ["downsample_point_cloud_voxel"])
prop("P16", "Lexicographic sorts are sorted permutations, or refuse",
     "The three lexicographic sorts (of a copy, in place, of references) order points by their first coordinate, ties by the second one, and so on; the result consists of the same points. They agree with each other, and refuse exactly those clouds which contain NaN (or have no dimension): then nothing is returned, or, in place, an error is reported.",
     ["inputs"], "all clouds in any number of dimensions with ties, infinities, signed zeros and NaN, all 14 numeric element types",
     "The tests sort one cloud and one with NaN in a fixed place; ties in leading coordinates, and NaN in any coordinate of any point are not reached.",
     [SORT, NAN], [("lex_sort, lex_sort_in_place, lex_sort_ref", SORT), ("IsNan", NAN)],
     "property testing of sortedness, permutation and refusal", "Sampled clouds.", ["lex_sort", "lex_sort_in_place", "lex_sort_ref"])
prop("P17", "The centre of a point cloud is its mean",
     "The centre of a point cloud is the mean of its points, up to the rounding of a sum (exact for integers, whose sums are in range), no matter how the points are ordered. The centre of an empty cloud is the origin.",
     ["inputs"], "all clouds in 1 to 7 dimensions of 4 element types",
     "The tests compute the centre of one cloud.",
     [CLOUD], [("calculate_point_cloud_center", CLOUD)],
     "property testing against the mean in higher precision", "Sampled clouds, up to 400 points.", ["calculate_point_cloud_center"])
prop("P18", "Transforming a point cloud applies the isometry to each point",
     "Transforming a point cloud gives as many points, in the same order, each of which is the original one, rotated and then translated; the original cloud is unchanged, and distances are preserved. This holds for every kind of rotation, in 2D and in 3D.",
     ["inputs"], "all clouds and isometries with unit complex numbers, unit quaternions and rotation matrices, f32 and f64",
     "The tests transform one cloud by one isometry per dimension.",
     [CLOUD], [("transform_point_cloud", CLOUD)],
     "property testing against rotation matrices", "Sampled clouds. " + TOL, ["transform_point_cloud"])
prop("P19", "Generated clouds have the requested size and stay within ranges",
     "Generating a point cloud gives the requested number of points, each coordinate of which lies within the (inclusive) range of its own dimension. Generation is reproducible: the same request gives the same cloud, and many points fill their ranges, rather than being all the same.",
     ["inputs"], "all counts, all valid ranges (single values, tiny, huge, far away), 9 element types, 1 to 7 dimensions",
     "There is no test of the generator of its own.",
     [CLOUD], [("generate_point_cloud, seeded", CLOUD)],
     "property testing of containment, reproducibility and spread", "Sampled requests. The spread is tested with a margin that a uniform generator fails with negligible probability.", ["generate_point_cloud"])
prop("P20", "Registration validates its input, and never panics or hangs",
     "Registering point clouds reports the error which applies when the source or the target is empty, no iterations are allowed, or a threshold is not above the machine epsilon of its type (an absolute threshold of NaN included), and otherwise never one of these errors. Builder settings are independent of each other and of their order, later ones replace earlier ones, those never given are the usual ones (no tree, 20 iterations, no absolute threshold, an interval threshold of 0.01), and a builder is not changed by deriving from it. For any source coordinates, NaN and infinities included, it returns a result or an error.",
     ["inputs", "configurations"], "all settings in any order, all source clouds, all targets without NaN, 2D and 3D, f32 and f64",
     "The tests try one error at a time with otherwise usual settings; degenerate coordinates, and settings in other orders are not reached.",
     [ICP, ICPT, ICPH], [("validation at the beginning", ICP), ("ICPConfigurationBuilder", ICPT), ("non-finite covariances are not decomposed", ICP)],
     "property testing with invalid and extreme inputs", "Sampled settings. An endless iteration is detected by a budget of allocations; an endless decomposition is an error of the check.", ["icp", "ICPConfiguration::builder"])
prop("P21", "Registration reports what its iterations did",
     "A successful registration's transform, error and iteration number are those of its iterations, performed one by one: it stops at the first iteration whose error (the sum of squared distances between the transformed points and the neighbours they were matched with) is below the absolute threshold, or differs from the previous error by less than the interval threshold, and fails exactly if none of the allowed iterations does. After each iteration, the transformed points are the original points, moved by the current transform.",
     ["inputs", "histories"], "all pairs of clouds, settings, and starting transforms, 2D and 3D, f32 and f64",
     "The tests check one converging run per dimension; stopping conditions, the iteration count and the state between iterations are not reached.",
     [ICP, ICPH], [("icp drives icp_iteration", ICP), ("icp_iteration updates transform, points and error", ICP), ("calculate_mse", ICPH)],
     "stateful property testing against the definition of an iteration", "Sampled scenes. " + TOL, ["icp", "icp_iteration"])
prop("P22", "Each registration step is the best rigid motion for its matches",
     "Given the neighbours that the points are matched with, an iteration moves the points by a rigid motion (a proper rotation and a translation), and no rigid motion gives a smaller sum of squared distances to these neighbours, up to rounding. Therefore, the error of successive iterations never increases.",
     ["inputs", "histories"], "all pairs of clouds and starting transforms (flat, mirrored, symmetric, repeated and unrelated ones), 2D and 3D, f32 and f64",
     "The tests check that two easy scenes converge; a step which is merely good converges there as well.",
     [ICP, ICPH, ISO], [("get_rotation_matrix_and_centroids", ICPH), ("update_transform: decomposition with a correction for reflections", ISO)],
     "property testing against closed-form optima", "Sampled scenes. The optimum is computed in f64 in closed form (2D) or from the eigenvalues of a quaternion matrix (3D); tolerances reflect the decomposition's precision.", ["icp_iteration"])
prop("P23", "Registration recovers small rigid motions of separated points",
     "If the source is a part of the target, moved by a rigid motion which keeps each point within 0.45 of the smallest separation of the target's points from its original place, then registration succeeds, and its transform takes each source point back to its original place, up to rounding.",
     ["inputs"], "all separated targets, all parts of them in any order, all such motions, with and without a tree, 2D and 3D, f32 and f64",
     "The tests recover one motion per dimension.",
     [ICP, ICPH, ISO, KD, NN], [("matching by nearest neighbours", ICP), ("update_transform", ISO)],
     "property testing by construction (known ground truth)", "Sampled motions.", ["icp"])
prop("P24", "The KD-tree does not change the result of a registration",
     "Registration with and without a KD-tree gives the same result, up to rounding, whenever no point has two neighbours at (nearly) the same distance. A target which a tree cannot handle (containing NaN, or thousands of sorted points) is not put into a tree when the settings disable it.",
     ["inputs", "configurations"], "all pairs of clouds without ambiguous neighbours, 2D and 3D, f32 and f64",
     "The tests run both settings on two easy scenes, where a wrong neighbour of a single point makes no difference.",
     [ICP, KD, NN], [("icp builds the tree only if enabled", ICP), ("KDTree::nearest", KD), ("find_nearest_neighbour_naive", NN)],
     "differential property testing", "Sampled scenes. Ambiguous scenes are recognized by a margin, and skipped.", ["icp"])
prop("P25", "Transform updates are optimal proper rotations about the centroids",
     "Updating a transform from a covariance matrix and two centroids composes it with a motion which takes the first centroid to the second one, and whose rotation is proper (never a reflection) and maximizes its agreement with the covariance, also for half turns and for mirrored, flat, collinear and empty point sets. Every component of the result is finite, and its rotation stays normalized.",
     ["inputs"], "all finite covariance matrices, centroids and previous transforms, 2D and 3D, f32 and f64",
     "The tests update by one or two well-conditioned matrices; reflections, half turns and degenerate matrices are not reached.",
     [ISO], [("AbstractIsometry::update_transform in 2D and 3D", ISO)],
     "property testing against closed-form optima", "Sampled matrices; tolerances reflect the decomposition's precision.", ["IsometryAbstractor::update_transform"])
prop("P26", "Pregenerated functions are the generic ones",
     "Every pregenerated function gives exactly the result of the generic function it is named after, with the precision of its module, and with the dimension and the element type in its name, for all arguments (including optional ones).",
     ["inputs", "configurations"], "all 92 pregenerated functions, all arguments which they accept",
     "The tests call only some of the pregenerated functions; a wrong type, precision or dropped argument in a single one of them shows only for suitable inputs of that variant.",
     [LINE, HULL_G, HULL_J, PIP, GEO, ICP], [("impl_* macros", HULL_G)],
     "differential property testing", "Sampled inputs for each of the variants.", ["single_precision", "double_precision"])
prop("P27", "Builds without std, without features, or with tracing agree",
     "The library compiles without the standard library, without any feature, and with tracing, and every function then gives the same results as in the default configuration, except for the rounding of elementary functions, and for what is not specified in the first place (such as the order of a downsampled cloud).",
     ["configurations", "inputs"], "the default configuration against three others, all parts of the library",
     "Tests run in one configuration at a time, and never compare two.",
     [LIB, VOX, CLOUD, GEO, ICP, ICPT], [("cfg attributes and the replacements of std items", LIB)],
     "differential property testing across builds", "Sampled calls. The other configurations run in processes of their own, with a subscriber which records every span and a logger which formats every message.", ["the public API"])
prop("P28", "Registration is equivariant and independent of point order",
     "Moving the source and the target together by a rigid motion, or scaling both together with the thresholds, changes the registering transform accordingly, and the matches, the number of iterations and the (scaled) error not at all, as long as no decision is a close call. Neither does the order of the points in either cloud.",
     ["inputs"], "all pairs of clouds without close calls, 2D and 3D, f32 and f64",
     "The tests never compare two registrations.",
     [ICP, ICPH, ISO, KD, NN], [("centroids are subtracted before rotating", ICPH), ("nothing depends on absolute positions", ICP)],
     "metamorphic property testing", "Sampled scenes. Close calls are recognized by margins, and skipped.", ["icp"])

prop("P29", "Every call with finite coordinates comes to an end, whatever the magnitudes",
     "With finite floating point coordinates of any magnitude (subnormal to the largest, mixed or not, degenerate or not), every operation returns: it neither panics, nor runs forever, nor allocates without bounds, even where intermediate results overflow or underflow. What it returns is well-formed: nearest points are stored points, hulls are made of points, sorting sorts, distances on a sphere are at most half its circumference, an iteration without a target says so and changes nothing, and a registration which succeeds reports a finite error and a finite motion after fewer iterations than allowed.",
     ["inputs"], "all finite inputs of all parts, f32 and f64, 2D and 3D",
     "The tests only use magnitudes around one, for which nothing overflows.",
     [KD, NN, VOX, CLOUD, SORT, HULL_G, HULL_J, PIP, LINE, GEO, ICP, ICPH, ISO], [("only finite matrices are decomposed", ICP), ("the march ends at any vertex it has visited", HULL_J)],
     "property testing with wild magnitudes, processor time and memory limits", "Sampled calls. Lines are short, as the length of a line is what it costs.", ["the public API"])
prop("P30", "A tree's queries skip most of a large cloud",
     "In a KD-tree of thousands of points which are uniformly distributed in up to three dimensions, or of hundreds of points along a line in any direction, which were inserted in random order (one by one or in bulk), a nearest-neighbour query performs on average less than half of the arithmetic operations and comparisons which a linear search of the same points takes: whatever lies beyond a splitting plane that is further away than the nearest point found so far is not visited.",
     ["inputs"], "all uniform clouds of at least two thousand points in 1 to 3 dimensions, or of at least 300 on a line, and queries within them",
     "Tests look at results, which are the same without any pruning; the work is visible only by counting, and only for clouds which are far larger than those of the tests.",
     [KD], [("KDNode::nearest prunes by the distance to the splitting plane", KD), ("points are inserted below the nearest side of each plane", KD)],
     "property testing with numbers that count what is done with them", "Sampled clouds. Between 1% and 20% is measured, 50% is the limit. The limit bounds an average over 40 queries.", ["KDTree::nearest"])
prop("P31", "Calls do not depend on earlier or simultaneous calls",
     "What a call returns depends on its arguments alone: it is the same in a fresh process, after any other calls (similar ones, failing ones, in either precision), when repeated, and while other threads make the same or other calls; this includes generated clouds. Trees and registration results can be shared between threads, and a tree which several threads query at once answers each of them as if it were alone. (The order of a downsampled cloud, and which of equally near points is returned, are not specified.)",
     ["histories", "schedules", "inputs"], "all sequences of calls of all parts, on one thread or several",
     "Each test makes one call, or a few unrelated ones, and looks at it on one thread; state that is left behind or shared needs particular sequences or interleavings to be noticed.",
     [KD, NN, VOX, CLOUD, SORT, HULL_G, HULL_J, PIP, LINE, GEO, ICP], [("no function keeps or shares any state; a tree is only changed through exclusive references", KD), ("generated clouds have a fixed seed", CLOUD)],
     "stateful property testing: sequences and concurrent calls compared with each call in a process of its own", "Sampled sequences of up to 5 calls. Interleavings are those which the scheduler happens to produce, with three threads that start together.", ["the public API"])

def main():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            anchors = {"files": [R + x for x in p["files"]],
                       "mechanism": [{"name": n, "where": R + w} for n, w in p["mechanism"]], "hook_needed": None}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors,
            }) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./build.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./run.sh check {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in PROPS],
        "not_applicable": [],
        "notes": "No hooks: everything is observed through the public API. Known findings are in known_findings.jsonl, see DESIGN.md.",
    }
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")

main()
