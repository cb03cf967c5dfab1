#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is edited here)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
I=["inputs"]
FIX="i8, i16, i32, i64 and isize"
p("K01","Orientation test is exact for every fixed-width integer input",
  "For i8, i16, i32, i64 and isize coordinates, the orientation of any three points equals the sign of the exact mathematical determinant, for every coordinate value including the extremes of the type. It never panics and never overflows.",
  I,"all 6-tuples of coordinates of each fixed-width integer type",
  "The existing tests sample a few extreme values; 2^384 inputs of the 64-bit types (and the sign/overflow case splits inside) are out of reach of sampling.",
  ["src/lib.rs","src/orientation.rs"],[("cmp_slope of the fixed-width integers","src/lib.rs fixed_precision!"),("Orientation::new / Point::orient","src/orientation.rs, src/data/point.rs")])
p("K02","Orientation along a vector or its perpendicular is exact for fixed-width ints",
  "For i8, i16, i32, i64 and isize, locating a point relative to the line through p with direction v, or with direction v rotated by +90 degrees, equals the sign of the exact mathematical cross product for all values of p, v and the point, also when p+v is not representable. Comparing two points along a vector equals comparing their exact dot products with it. None of these panics or overflows.",
  I,"all values of the two points and the vector of each fixed-width integer type",
  "Tests compare a handful of vectors; wrap-around only shows for specific extreme combinations.",
  ["src/lib.rs","src/orientation.rs","src/data/vector.rs","src/data/point.rs"],[("cmp_vector_slope / cmp_perp_vector_slope","src/lib.rs fixed_precision!"),("Orientation::along_vector/along_perp_vector","src/orientation.rs"),("Vector::cmp_along","src/data/vector.rs")])
p("K03","Distance comparison is exact for every fixed-width integer input",
  "For i8, i16, i32, i64 and isize coordinates, comparing the distances from p to q and from p to r gives the exact mathematical answer for every coordinate value, without panic or overflow, even when the squared distance does not fit the doubled width.",
  I,"all triples of points of each fixed-width integer type",
  "The double-overflow branch needs both differences near the full width of the type; random sampling essentially never gets there with a close comparison.",
  ["src/lib.rs","src/data/point.rs"],[("cmp_dist of the fixed-width integers","src/lib.rs fixed_precision!"),("Point::cmp_distance_to","src/data/point.rs")])
p("K04","Predicates of arbitrary-precision scalars are exact",
  "For arbitrary-precision integers, rationals and (with the rug feature) GMP integers, the orientation, along-vector, along-perpendicular-vector and distance predicates equal the sign of the exact mathematical expression for all values, so every scalar type gives the same answer to the same question.",
  I,"all values of points and vectors of unbounded integers and rationals",
  "There is no test for the along-perpendicular predicate of any arbitrary-precision type and none at all for the rug scalar.",
  ["src/lib.rs"],[("arbitrary_precision! impls","src/lib.rs"),("rug::Integer impl","src/lib.rs")])
p("K05","Floating-point predicates decide exactly; total orders are total",
  "For f32, f64 and their ordered and not-NaN wrappers, the orientation, along-vector, along-perpendicular-vector and distance predicates decide on the exact real values of their finite arguments, not on rounded ones. The coordinate comparison of every scalar type is a total order that agrees with the numeric order on ordinary values.",
  I,"all finite floating-point arguments (delegation to exact arithmetic), all bit patterns for the total order",
  "Rounding mistakes appear only on nearly degenerate arguments and only for some of the six float instantiations.",
  ["src/lib.rs"],[("wrapped_floating_precision!/floating_precision! impls","src/lib.rs"),("float_to_rational","src/lib.rs")])
p("K06","Symbolic tie breaking is consistent with points on a parabola",
  "For all triples of distinct 32-bit indices a,b,c the tie breaker returns the orientation of the points (a,2^a),(b,2^b),(c,2^c), hence flips under every swap and is invariant under rotation. Breaking ties never changes a non-collinear orientation, and reversing an orientation is an involution that swaps the two turns only.",
  I,"all triples of distinct u32 values and all orientations",
  "The tests enumerate small indices only; the statement is over all u32 triples.",
  ["src/orientation.rs"],[("SoS::new","src/orientation.rs"),("Orientation::{break_ties,sos,then,reverse}","src/orientation.rs")])
p("K07","Z-order hash is an invertible, order-preserving interleaving",
  "Interleaving two 32-bit numbers and separating them again is the identity both ways. For each hashable coordinate type, points of a bounding box hash without panicking to a value that never decreases when a coordinate increases, so the hash of every point of the box lies between the hashes of the box's corners.",
  I,"all pairs of u32; all boxes and all points inside them for i8, i64, u32, u64 (and f64 as far as reachable)",
  "Tests sample triangles; shift and wrap-around errors show only for boxes wider than 2^32 or spanning the sign change.",
  ["src/algorithms/zhash.rs"],[("zhash_pair/zunhash_pair","src/algorithms/zhash.rs"),("ZHashable impls","src/algorithms/zhash.rs")])
p("G01","Angular comparison around a point is an exact angular order",
  "Comparing two points around a centre, starting from a given non-zero direction, returns exactly the order of their counter-clockwise angles in [0,2*pi) from that direction, with equality exactly for equal angles, for all points different from the centre. Hence it is antisymmetric and transitive, and sorting vectors by angle produces a permutation of the input in angular order.",
  I,"all centres, start directions and points (real coordinates); sorted slices up to the stated length",
  "Tests check ten hand-written angle pairs; totality needs all degenerate sign combinations.",
  ["src/orientation.rs","src/data/point.rs","src/data/vector.rs"],[("ccw_cmp_around_with","src/orientation.rs"),("sort_around","src/data/vector.rs")])
p("G02","Points are ordered and compared lexicographically",
  "Two points are equal exactly when all coordinates are equal, and the order of points is the lexicographic order of their coordinates; pairs of ordered values are ordered lexicographically as well. The minimum and maximum helpers return one of their arguments consistently with that order.",
  I,"all pairs and triples of points in 1, 2 and 3 dimensions",
  "Sampling rarely produces ties in the leading coordinate.",
  ["src/data/point.rs","src/lib.rs"],[("TotalOrd/Ord/PartialEq for Point","src/data/point.rs"),("TotalOrd","src/lib.rs")])
p("G03","Segment membership respects geometry and open or closed end points",
  "A point is contained in a segment exactly when it lies on the closed straight line between the end points and is not an end point marked as excluded, whichever way the segment is constructed (end points, ranges, views, edges) and in whichever order its end points are given; every constructor stores the end points in lexicographic order, each with its own flag. Leftmost and rightmost of two end points select the extreme one, preferring the excluded one on ties exactly where documented.",
  I,"all end points, all inclusive/exclusive combinations, all query points",
  "Tests cover a few axis-parallel cases; the quantifier ranges over degenerate and reversed segments.",
  ["src/data/line_segment.rs","src/data/directed_edge.rs"],[("LineSegment/LineSegmentView::contains","src/data/line_segment.rs"),("DirectedEdge::contains","src/data/directed_edge.rs")])
p("G04","Segment intersection is exact, symmetric and reports the right overlap",
  "Intersecting two segments reports an intersection exactly when some point belongs to both, taking excluded end points into account; the result is the same when the arguments are swapped or a segment is reversed. Collinear segments that share points report an overlap with exactly the shared points; other segments that meet report a crossing.",
  I,"all pairs of segments (including vertical, collinear, touching and zero-length) and all inclusive/exclusive combinations",
  "Tests list some thirty integer cases; the case analysis has hundreds of sign combinations.",
  ["src/data/line_segment.rs","src/data/directed_edge.rs"],[("Intersects for LineSegmentView / LineSegment / Range","src/data/line_segment.rs")])
p("G05","All pairwise segment intersections are reported exactly once",
  "The segment intersection report contains every unordered pair of distinct list positions whose segments intersect exactly once, and nothing else; reported edges are the caller's own.",
  I,"all lists of segments up to the stated length",
  "Tests check a few random polygons.",
  ["src/algorithms/intersection/naive.rs"],[("segment_intersections","src/algorithms/intersection/naive.rs")])
p("G06","Line intersection point lies on both lines; none exactly when parallel",
  "The intersection point of two lines, each given by two points or by a point and a vector, lies on both lines, and no point is returned exactly when the lines are parallel or coincide.",
  I,"all pairs of lines over an exact field",
  "Tests sample a handful of lines and one direction kind each.",
  ["src/data/line.rs"],[("Line::intersection_point","src/data/line.rs")])
p("G07","Perturbed line and half-line crossings follow the exact side test",
  "A line crosses a segment exactly when its end points lie strictly on opposite sides, where collinear end points count as being on one fixed, documented side, so that a line through a shared vertex of two consecutive edges never counts twice or not at all; a half-line additionally reports a crossing only in front of its origin. Results depend only on the geometry, not on the orientation in which the segment is stored.",
  I,"all lines, half-lines and segments (real coordinates)",
  "Tests list fixed examples for each sign pattern.",
  ["src/data/line.rs"],[("Intersects for LineSoS","src/data/line.rs"),("Intersects for HalfLineSoS","src/data/line.rs")])
p("G08","Triangles: construction, location, area, bounding box and sampling are exact",
  "A triangle is accepted exactly when its corners are counter-clockwise, and the counter-clockwise constructor accepts any non-collinear corners keeping the same corner set. Locating a point classifies inside, boundary and outside exactly, the signed area is the exact determinant, the bounding box is the tight one, and every sampled point lies in the closed triangle for every random number stream.",
  I,"all corner triples and query points; all random streams for sampling",
  "Tests cover a few fixed triangles and random samples.",
  ["src/data/triangle.rs"],[("Triangle / TriangleView","src/data/triangle.rs")])
p("G09","Transforms and point/vector arithmetic satisfy affine algebra",
  "Translating, scaling and composing transforms acts on points as the corresponding affine map, composition applies the right-hand transform first, vectors are transformed like the points they lead to from the origin, and transforming a polygon transforms each of its vertices. Point and vector addition, subtraction, scaling, negation and summation are the componentwise operations in all their by-value, by-reference and assigning forms.",
  I,"all transforms built from the public constructors, all points, vectors and polygons up to the stated size",
  "There are only a few tests of translate/scale; composition and the many operator forms are hardly touched.",
  ["src/transformation.rs","src/matrix.rs","src/data/vector.rs","src/data/vector/add.rs","src/data/point/add.rs","src/data/point/sub.rs"],[("Transform","src/transformation.rs"),("Matrix multiplication","src/matrix.rs"),("vector and point operators","src/data/vector/*.rs, src/data/point/*.rs")])
p("G10","Location predicates of points agree with exact geometry",
  "Orienting three points, locating a point relative to a directed line, to a vector or to the rotated vector, comparing two points along a vector and comparing two distances return the sign of the corresponding exact expression whatever form (points, vectors, directions) is used. A list of points is reported to be on one line exactly when all its points lie on one straight line, also with duplicated points.",
  I,"all points and vectors (real coordinates); lists up to the stated length",
  "Tests compare scalar types with each other on random points; degenerate and duplicated points are not sampled.",
  ["src/data/point.rs","src/orientation.rs","src/data/vector.rs"],[("Point::orient*/all_colinear/cmp_distance_to","src/data/point.rs"),("Orientation::{new,along_vector,along_perp_vector}","src/orientation.rs"),("Vector::cmp_along","src/data/vector.rs")])
p("P01","Polygon construction accepts exactly simple counter-clockwise rings",
  "Building a polygon from a vertex list succeeds exactly when the list describes a simple closed chain (at least three vertices, no repeated vertex, no touching or crossing edges), and a clockwise list is accepted with its vertices in reversed order. Validating a polygon object succeeds exactly when its boundary is such a chain in counter-clockwise order; the weaker validation accepts every polygon the full validation accepts and rejects every ring in which two edges (taken without their end vertex) share a point.",
  I,"all vertex lists up to the stated length (real coordinates)",
  "Tests use a few hand-picked broken polygons and random valid ones; rejection completeness needs every degenerate configuration.",
  ["src/data/polygon.rs"],[("Polygon::new/validate/validate_weakly","src/data/polygon.rs")])
p("P02","Point location in a polygon is exact",
  "For every simple counter-clockwise polygon and every query point, locating the point returns on-boundary exactly when it lies on an edge or vertex, inside exactly when it lies in the open interior, and outside otherwise, also for horizontal edges and vertices at the query's height.",
  I,"all simple polygons up to the stated number of vertices, all query points",
  "The even-odd ray test fails only when vertices align with the query point, which random tests do not produce.",
  ["src/data/polygon.rs","src/data/line.rs"],[("Polygon::locate","src/data/polygon.rs")])
p("P03","Polygon area, centroid and bounding box are exact",
  "The signed area of every vertex ring equals the exact shoelace value (and the doubled variant twice it), the centroid of every polygon with non-zero area is the exact area centroid, and the bounding box is the smallest axis-parallel box containing the vertices.",
  I,"all vertex rings up to the stated length over an exact field",
  "Tests compare a few squares and random samples.",
  ["src/data/polygon.rs"],[("signed_area, signed_area_2x, centroid, bounding_box","src/data/polygon.rs")])
p("P04","Polygon orientation and ensure-counter-clockwise are exact",
  "For every simple polygon the reported orientation is the sign of its area, and making it counter-clockwise leaves a counter-clockwise polygon unchanged, and turns a clockwise one into the reversed ring with the same vertices and edges. A ring whose vertices all lie on one line is reported as an error and left unchanged.",
  I,"all simple rings up to the stated length",
  "Tests check single examples; in-place reversal must keep several index tables consistent.",
  ["src/data/polygon.rs"],[("Polygon::orientation/ensure_ccw/vertices_reverse","src/data/polygon.rs")])
p("P05","Boundary traversal, equality and point maps are faithful",
  "Walking a polygon's boundary by cursor or iterator, forwards, backwards or from both ends in any interleaving, visits every vertex exactly once in ring order with the exact remaining length; edge iteration yields each consecutive vertex pair once. Polygon equality holds exactly when one vertex cycle is a rotation of the other, and mapping or casting points transforms each vertex in place keeping the ring structure.",
  ["inputs","histories"],"all rings up to the stated length and all interleavings of forward and backward steps",
  "Reverse iteration and mixed-end iteration have no tests; equality is tested on one rotation.",
  ["src/data/polygon.rs","src/data/polygon/iter.rs"],[("CursorIter / EdgeIter / Iter","src/data/polygon/iter.rs"),("Cursor / Position","src/data/polygon.rs"),("equals, map, map_points, cast, direct","src/data/polygon.rs")])
p("P06","Triangulation partitions every simple polygon, for every random choice",
  "For every simple counter-clockwise polygon with n vertices and every random number stream, ear clipping terminates and yields exactly n-2 counter-clockwise triangles over the polygon's own vertices whose areas add up to the polygon's area and which do not overlap.",
  I,"all simple polygons up to the stated size, all random choices",
  "Tests triangulate random polygons with one fixed seed; collinear vertices and unlucky ear choices are not sampled.",
  ["src/algorithms/triangulation/earclip.rs","src/data/polygon.rs"],[("earclip / triangulate_list","src/algorithms/triangulation/earclip.rs"),("Polygon::triangulate","src/data/polygon.rs")])
p("P07","Hash-accelerated triangulation gives a triangulation as well",
  "The z-order accelerated ear clipping yields, for every simple counter-clockwise polygon and every random number stream, exactly n-2 counter-clockwise non-overlapping triangles covering the polygon, for every hash that is monotone in the coordinates.",
  I,"all simple polygons up to the stated size, all random choices",
  "The accelerated ear test skips vertices by hash order; a skipped vertex matters only in special positions.",
  ["src/algorithms/triangulation/earclip.rs","src/algorithms/zhash.rs"],[("earclip_hashed / triangulate_list_hashed","src/algorithms/triangulation/earclip.rs")])
p("P08","Convex polygon location and validation are exact",
  "For every strictly convex counter-clockwise polygon, the logarithmic point location classifies inside, boundary and outside exactly as the geometric definition (and as general polygon location) does. Validation of a convex polygon accepts exactly the polygons that are strictly convex and counter-clockwise.",
  I,"all strictly convex polygons up to the stated size, all query points; all vertex rings for validation",
  "Tests compare with triangle location for random points, which are almost never on a diagonal or edge.",
  ["src/data/polygon/convex.rs"],[("PolygonConvex::locate/validate","src/data/polygon/convex.rs")])
p("P09","Random convex polygon generation always yields a valid convex polygon",
  "For every random number stream and requested size, generating a random convex polygon terminates once the stream yields a usable sample and returns a strictly convex counter-clockwise polygon, rooted at y = 0, whose width and height are the documented extents.",
  I,"all random streams over a bounded value range, sizes up to the stated bound",
  "Tests run a few seeds; degenerate draws (parallel or equal vectors) are rare.",
  ["src/data/polygon/convex.rs","src/data/vector.rs"],[("PolygonConvex::random","src/data/polygon/convex.rs")])
p("P10","Corner orientation and ear test are exact",
  "For every vertex of every simple counter-clockwise polygon the corner orientation is that of the previous vertex, the vertex and the next vertex, and the corner is reported to be an ear exactly when it is strictly convex and no other vertex lies in or on its corner triangle.",
  I,"all simple polygons up to the stated number of vertices, all corners",
  "Tests do not call the ear test; collinear vertices and triangles are special cases.",
  ["src/data/polygon.rs"],[("Cursor::orientation/is_colinear/is_ear","src/data/polygon.rs")])
p("A01","Graham-scan convex hull is the exact convex hull",
  "For every list of points the default convex hull succeeds exactly when the points are not all on one line; the result is a strictly convex counter-clockwise polygon whose vertices are input points and which contains every input point.",
  I,"all point lists up to the stated length, including duplicates and collinear points",
  "Random tests over wide integers almost never contain collinear triples or duplicates of the extreme point.",
  ["src/algorithms/convex_hull/graham_scan.rs"],[("graham_scan::convex_hull","src/algorithms/convex_hull/graham_scan.rs")])
p("A02","Gift-wrapping convex hull terminates and is the exact convex hull",
  "For every list of points gift wrapping terminates; it succeeds exactly when the points are not all on one line, and then returns a strictly convex counter-clockwise polygon whose vertices are input points and which contains every input point.",
  I,"all point lists up to the stated length, including duplicates and collinear points",
  "Random tests over wide integers contain neither duplicates nor collinear triples.",
  ["src/algorithms/convex_hull/gift_wrapping.rs"],[("gift_wrapping::convex_hull","src/algorithms/convex_hull/gift_wrapping.rs")])
p("A03","Melkman convex hull of a simple polygon is exact",
  "For every simple counter-clockwise polygon, Melkman's algorithm returns the strictly convex counter-clockwise polygon whose vertices are polygon vertices and which contains the whole polygon.",
  I,"all simple polygons up to the stated size, in every internal storage order",
  "Random tests have no collinear vertices and always store vertices in boundary order.",
  ["src/algorithms/convex_hull/melkman.rs"],[("melkman::convex_hull","src/algorithms/convex_hull/melkman.rs")])
p("A04","Two-opt untangling yields a simple polygon on the same points",
  "Untangling a list of distinct points, not all on one line, terminates for every random number stream and returns a valid simple counter-clockwise polygon whose vertices are exactly the input points; too few points or all-collinear points are reported as errors.",
  I,"all point lists up to the stated length, all random choices",
  "Tests run seeded random point sets; collinear configurations drive the special cases.",
  ["src/algorithms/polygonization/two_opt.rs","src/utils.rs","src/data/intersection_set.rs"],[("two_opt_moves / resolve_self_intersections","src/algorithms/polygonization/two_opt.rs")])
p("A05","Star polygonization returns a star-shaped simple polygon or an error",
  "Building a star polygon from points around a centre either returns a valid simple counter-clockwise polygon whose vertices are exactly the input points, or an error; it never panics, and it succeeds whenever at least three points lie in pairwise different directions that surround the centre.",
  I,"all point lists up to the stated length and all centres",
  "There are hardly any tests of it.",
  ["src/algorithms/polygonization/star.rs"],[("new_star_polygon","src/algorithms/polygonization/star.rs")])
p("A06","Monotone polygonization and the monotonicity test are exact",
  "Building a monotone polygon from points and a direction either returns a valid simple counter-clockwise polygon on exactly the input points that is monotone in that direction, or an error, and it is an error only when all points lie on one line. The monotonicity test answers true exactly when every line perpendicular to the direction meets the polygon in a connected set.",
  I,"all point lists / simple polygons up to the stated size and all non-zero directions",
  "Tests use random points in general position and a few fixed polygons.",
  ["src/algorithms/polygonization/monotone.rs"],[("is_monotone / new_monotone_polygon","src/algorithms/polygonization/monotone.rs")])
p("A07","Visibility polygon contains exactly the visible region",
  "For a query point inside a simple polygon, the visibility polygon is a simple polygon that contains the query point, lies within the original polygon, and every one of its vertices is visible from the query point; for a point outside no polygon is returned.",
  I,"all simple polygons up to the stated size, all query points",
  "Tests use a few fixed polygons.",
  ["src/algorithms/visibility/naive.rs"],[("get_visibility_polygon","src/algorithms/visibility/naive.rs")])
p("A08","Intersection set behaves as a set of unordered edge pairs",
  "After any sequence of insertions of distinct edge pairs, removals of all pairs of an edge, and random draws, iteration yields exactly the pairs inserted and not removed, each once, and a random draw returns a member, or nothing exactly when the set is empty.",
  ["histories"],"all operation histories up to the stated length over the edges of a small ring, all random draws",
  "Tests run fixed short histories; the linked lists threaded through the sparse table have order-dependent corner cases.",
  ["src/data/intersection_set.rs","src/utils.rs"],[("IndexIntersectionSet","src/data/intersection_set.rs"),("SparseVec","src/utils.rs")])
p("O01","Predicate-only algorithms never overflow on fixed-width integers",
  "Point and segment queries, polygon location, triangulation, convex hulls and two-opt untangling of points with fixed-width integer coordinates only compare coordinates and never overflow: they give for extreme coordinates the same answer as for arbitrary-precision ones, and do not panic.",
  I,"all coordinates of a fixed-width type, inputs up to the stated size",
  "Overflow needs coordinates near the limits of the type in combination with a particular control path.",
  ["src/data/polygon.rs","src/algorithms","src/data/line_segment.rs"],[("no scalar arithmetic outside the exact predicates","all predicate-only algorithms")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
