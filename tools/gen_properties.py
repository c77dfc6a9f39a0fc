#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the 30-odd records stay uniform)."""
import json
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=None,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":list(over),"text":text},
      "why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "state":state or [],"observe_at":observe or [],"hook_needed":None}})
MAT=["lib/mat.rs"]; Q=["lib/quat.rs"]
p("V01","Vector arithmetic is componentwise",
 "For every vector shape (2, 3 or 4 components, row or column, single or double precision) sum, difference, elementwise product, elementwise quotient and scaling each yield, in every component, exactly that operation on the corresponding components and nothing else. Transposing a vector keeps every component in place, reading or writing component i touches component i only, the size is the number of components, and default vectors are all zero.",
 "all component values of all operands, all six shapes, both element types",
 "the tests try one operand pair per operation, mostly with equal components (10,10,10), so a swapped or dropped component is invisible; 2-component vectors have no test at all",
 MAT,[("componentwise operations","lib/mat.rs: define_mat2x1 .. define_mat1x4 (plus, minus, mul_elem, div, scale, transpose, size, default)"),("component access","lib/mat.rs: Index/IndexMut impls")])
p("V02","Dot product, magnitude and normalization of vectors",
 "For every vector shape the dot product is the sum of the products of corresponding components, and the magnitude is the non-negative square root of the dot product of the vector with itself. Normalizing any nonzero vector gives a vector of magnitude one that is a positive multiple of the original.",
 "all component values, all six shapes, both element types",
 "a handful of literal vectors is checked; the quantifier is over all reals",
 MAT,[("dot / magnitude / normalize","lib/mat.rs: vector macros")])
p("V03","Cross product is the right-handed orthogonal product",
 "The cross product of two 3-component vectors (row or column) is orthogonal to both operands, changes sign when they are swapped, forms a right-handed frame with them, and its squared length is the product of the squared lengths minus the squared dot product. Shapes for which no cross product exists (2- and 4-component vectors, matrices) report that there is none; likewise matrices report no dot product.",
 "all operand values",
 "tests evaluate one or two literal cross products",
 MAT,[("cross","lib/mat.rs: Mat3x1/Mat1x3 cross, and the None-returning cross/dot of other shapes")])
p("V04","Approximate equality means every entry is within tolerance",
 "Comparing two vectors or two matrices with a tolerance answers true exactly when every pair of corresponding entries differs by at most the tolerance (inclusive), and is symmetric. Two matrices stored in different layouts are never reported equal, and an entry that is not a number is never equal to anything.",
 "all entries, all tolerances (including zero and negative), all shapes, both layouts",
 "tests compare constant-filled values, so a comparison that skips an entry or one side of the interval passes",
 ["lib/mat.rs","lib/i_comparable.rs"],[("is_equal","lib/mat.rs: IComparableError impls for every shape")])
p("M01","Matrix entries are independent of storage layout",
 "A 3x3 or 4x4 matrix constructed from its entries listed row by row reads back the same entry at every (row, column), whichever storage layout was requested. Writing through a (row, column) reference changes that entry and no other, in either layout.",
 "all entries, all (row, column) positions, both layouts, both sizes and element types",
 "tests exercise the column-major constructor only through one matrix-vector product",
 MAT,[("init / index / index_mut","lib/mat.rs: define_mat3, define_mat4")])
p("M02","Matrix products are the mathematical products in both layouts",
 "Matrix-matrix, matrix-times-column-vector and row-vector-times-matrix products have, in every entry, the mathematical row-by-column sum of the logical entries, whichever layout the operands use, and a matrix product keeps the layout of its operands. Multiplying two matrices of different layouts is refused rather than answered wrongly.",
 "all entries, both layouts, both sizes and element types",
 "tests use one pair of operands per size and never the column-major matrix-matrix product with distinct entries on both sides",
 MAT,[("mul, mul_mat3x1, mul_mat4x1, mul_mat3x3, mul_mat4x4","lib/mat.rs")])
p("M03","Transposition swaps rows and columns",
 "Transposing a matrix yields the matrix whose entry (i, j) is the original's (j, i) in the same storage layout, for both layouts and sizes. Transposing in place gives the same result as transposing by value, and doing it twice restores the original.",
 "all entries, both layouts, sizes and element types",
 "tests transpose one matrix at most; in-place transposition is checked on a literal",
 MAT,[("transpose / transpose_self","lib/mat.rs: define_mat3, define_mat4")])
p("M04","A matrix inverse is an inverse",
 "Whenever inverting a 3x3 or 4x4 matrix yields a result, the result has the storage layout of the original and its product with the original, on either side, is the identity. A matrix with zero determinant yields no result, and a matrix whose determinant is at least 1e-9 in magnitude (3x3), or at least the machine epsilon of its element type (4x4), yields one.",
 "all matrices, both layouts, sizes and element types",
 "no test calls inversion at all",
 MAT,[("inverse","lib/mat.rs: define_mat3, define_mat4")])
p("M05","Matrix elementwise arithmetic, identity, trace and sub-matrix",
 "Sum, difference, elementwise product and quotient of two matrices of the same layout, and scaling, act on every entry separately and keep the layout; normalizing divides every entry by the bottom-right entry. The identity matrix is neutral for multiplication, the trace is the sum of the diagonal, and the upper-left 3x3 part of a 4x4 matrix has the corresponding entries in the same layout; default matrices are all zero.",
 "all entries, both layouts, sizes and element types",
 "tests fill all operands with one constant, so wrong positions and dropped entries cannot be seen",
 MAT,[("plus/minus/mul_elem/div/scale/normalize/trace/iden/submat_mat3/default","lib/mat.rs: define_mat3, define_mat4")])
p("Q01","Quaternion arithmetic is the Hamilton algebra",
 "Quaternion sum, difference, negation and scaling act on each component; the product is the Hamilton product, so it is associative, distributes over the sum, has the identity quaternion (the default) as neutral element on both sides, and i*j = k.",
 "all quaternions, both element types",
 "no test checks the product, sum, difference, negation or scaling of quaternions directly",
 Q,[("add, minus, mul, negate, scale, init, default, init_from_vals_raw","lib/quat.rs")])
p("Q02","Quaternion norm, conjugate, inverse and normalization",
 "The squared length is the sum of the squared components and is multiplicative over products; the conjugate negates the vector part only and reverses products. A nonzero quaternion times its inverse is the identity on both sides, and normalizing a nonzero quaternion gives unit length in the same direction; inverting or normalizing the zero quaternion is refused.",
 "all quaternions, both element types",
 "no test calls inverse, conjugate or normalization of a quaternion",
 Q,[("length_squared, length, conjugate, inverse, normalize, init_from_vals_normalize","lib/quat.rs")])
p("Q03","Rotation by a unit quaternion is a rotation",
 "Rotating vectors by a unit quaternion preserves dot products and cross products; rotating by a product of two equals rotating by the second and then the first, and the conjugate undoes the rotation. The rotation matrix produced for the same quaternion, in either storage layout, maps every vector to the same image and leaves the homogeneous coordinate alone.",
 "all unit quaternions, all vectors, both layouts, both element types",
 "one quaternion (90 degrees about x) and one vector are tried, row-major only",
 Q+MAT,[("rotate_vector","lib/quat.rs"),("to_rotation_matrix","lib/quat.rs"),("mul_mat4x1","lib/mat.rs")])
p("Q04","Axis-angle conversion is faithful",
 "A quaternion built from a nonzero axis and an angle is unit length, its rotation leaves the axis fixed and turns vectors perpendicular to it by that angle about it in the right-handed sense; giving the angle in degrees is the same as giving pi/180 times it in radians. Reading axis and angle back from a unit quaternion that is not within 1e-6 of a null rotation gives a unit axis and an angle in [0, 2 pi] that rebuild the same quaternion, and a null rotation reads back as angle zero.",
 "all axes, angles and unit quaternions, both element types",
 "two axes at 90 degrees are tried",
 Q,[("init_from_axis_angle_radian / _degree, to_axis_angle","lib/quat.rs")])
p("Q05","Reflection and decomposition about a plane",
 "For a pure unit quaternion (zero scalar part) taken as a plane normal, reflecting a vector negates its component along the normal and keeps the rest; the parallel component lies in the plane, the orthogonal component is along the normal, and the two add up to the original vector.",
 "all unit normals, all vectors, both element types",
 "no test calls these functions",
 Q,[("reflection_in_plane, parallel_component_of_plane, orthogonal_component_of_plane","lib/quat.rs")])
p("Q06","Quaternion interpolation hits its endpoints and stays on the arc",
 "Linear interpolation is start*(1-t) + end*t with t clamped to [0, 1]. Spherical interpolation of unit quaternions clamps t likewise, returns the start at 0 and the end (or its negation, the same rotation) at 1, and follows the shorter arc: when the two are not nearly parallel (|cosine| at most 0.9999) the result has unit length and lies at angle t times the angle between them from the start; when nearly parallel it is the linear interpolation toward the nearer of end and its negation.",
 "all pairs of unit quaternions, all t, both element types",
 "no test calls interpolation",
 Q,[("interpolate_linear, interpolate_slerp","lib/quat.rs")])
p("Q07","Quaternion logarithm and power",
 "For a quaternion with nonzero vector part, exponentiating its logarithm gives the quaternion back (the scalar part of the logarithm is the log of its length, the vector part points along its axis with the half-angle as length). Its t-th power has length equal to the length raised to t, t times the half-angle and the same axis: the first power is the quaternion itself, the zeroth is the identity, and the product of two powers is the power of the sum.",
 "all quaternions with nonzero vector part, all exponents, both element types",
 "no test calls logarithm or power",
 Q,[("ln, pow","lib/quat.rs")])
p("Q08","Translation quaternions and completion of the scalar part",
 "A quaternion made from a translation holds half of the vector and a zero scalar; converting a quaternion to a translation matrix, in either layout, gives the matrix that moves every homogeneous point by the vector part and leaves the homogeneous coordinate alone. Completing a quaternion from its vector part gives unit length with a non-positive scalar whenever the vector part is no longer than one, leaving the vector part unchanged; a dual quaternion keeps the two parts it is given.",
 "all vectors, both layouts, both element types",
 "no test calls any of these",
 Q+["lib/dualquat.rs","lib/mat.rs"],[("init_from_translation, to_translation_matrix, init_from_vals_auto_w","lib/quat.rs"),("DualQuat::init","lib/dualquat.rs")])
p("B01","Box overlap test is exact",
 "Two axis-aligned boxes are reported as overlapping exactly when their closed intervals meet on all three axes, including boxes with infinite sides and boxes that only touch. The answer does not depend on the order of the two boxes.",
 "all corner coordinates including infinities",
 "six literal pairs are tried; only the third axis ever separates",
 ["lib/bound.rs"],[("AxisAlignedBBox::intersect, get_bound_data","lib/bound.rs")])
p("B02","Box union, centroid and longest axis",
 "The union of a list of boxes contains each of them, no smaller box does, and it does not depend on what the receiving box held before; the default box is unbounded on every side. The centroid is the midpoint of the corners, and the longest axis reported is one whose extent is at least that of the other two, together with that extent.",
 "all boxes, lists of any length",
 "one two-element union is tried; centroid and longest axis have no test",
 ["lib/bound.rs"],[("get_union, get_centroid, get_longest_axis, default","lib/bound.rs")],over=("inputs","histories"))
p("B03","Every shape's bounding box encloses it, tightly",
 "Every point of a sphere, box, line segment, triangular prism, ray, plane or point lies inside the bounding box the shape reports. For the bounded shapes no smaller box encloses it, and for a ray each side is infinite exactly where the ray leaves to infinity.",
 "all shape parameters (non-negative sizes), all points of the shape",
 "no test looks at a shape's bounding box",
 ["lib/bound.rs","lib/sphere.rs","lib/rbox.rs","lib/line.rs","lib/triprism.rs","lib/ray.rs","lib/plane.rs","lib/point.rs"],
 [("AxisAlignedBBox::init","lib/bound.rs"),("min/max over vertices","lib/line.rs, lib/triprism.rs: init")])
p("S01","Shapes keep the data they were built from",
 "Every shape reports the kind it is and exactly the defining data it was constructed with, except that ray directions and plane normals are rescaled to unit length without changing direction, and a prism's far face is its base moved by the given height along the base's right-handed unit normal. Constructing a shape from coordinate lists of the wrong length is refused.",
 "all construction parameters, all slice lengths",
 "tests never read the shape data back and never pass wrong lengths",
 ["lib/sphere.rs","lib/rbox.rs","lib/line.rs","lib/triprism.rs","lib/ray.rs","lib/plane.rs","lib/point.rs","lib/i_shape.rs"],
 [("init, get_shape_data, get_type","each shape file")])
p("S02","Point containment tests",
 "A point is reported inside a sphere, box or triangular prism exactly when it belongs to the closed solid, and on a plane exactly when its distance from the plane is within the plane's tolerance; the location reported is the point itself. Two identical points are always reported as coinciding and points reported as coinciding are within tolerance of each other on every axis.",
 "all shapes with non-negative size (prism: non-degenerate base, positive height), all points",
 "tests use three points per shape; none in the corner region between a sphere and its bounding cube",
 ["lib/sphere.rs","lib/rbox.rs","lib/triprism.rs","lib/plane.rs","lib/point.rs","lib/bound.rs"],
 [("get_intersect, Point case","lib/sphere.rs, lib/rbox.rs, lib/triprism.rs, lib/plane.rs, lib/point.rs")])
p("S03","Sphere-sphere and sphere-plane contact",
 "Two spheres are reported as intersecting exactly when the distance of their centers is at most the sum of their radii, and the location reported lies in both. A sphere and a plane are reported as intersecting exactly when the center is at most one radius away from the plane on either side, and the location reported is the foot of the perpendicular from the center: on the plane and inside the sphere.",
 "all centers, positive radii, planes",
 "four literal configurations each; none with the sphere behind the plane",
 ["lib/sphere.rs"],[("get_intersect, Sphere and Plane cases","lib/sphere.rs")])
p("S04","Ray-sphere casting finds the first surface point",
 "A ray is reported to hit a sphere exactly when some point of the ray lies on the sphere's surface; the location reported lies on the ray and on the surface, and no point of the ray nearer to its origin lies on the surface.",
 "all rays, all spheres of non-negative radius (origin outside, on, and inside)",
 "five literal rays; none starts inside the sphere",
 ["lib/ray.rs","lib/sphere.rs"],[("get_intersect, Sphere case","lib/ray.rs")])
p("S05","Ray-plane casting is one-sided and exact",
 "A ray is reported to hit a plane exactly when it lies in the plane, or heads against the plane's normal and meets the plane at or beyond its origin. The location reported lies on the plane and on the ray, and is the ray's origin for a ray lying in the plane.",
 "all rays and planes",
 "four literal rays against one axis-aligned plane",
 ["lib/ray.rs","lib/plane.rs"],[("get_intersect, Plane case","lib/ray.rs")])
p("S06","Ray-point casting",
 "Every point lying exactly on a ray, whatever the ray's direction, is reported as hit. A reported location lies on the ray, not behind its origin, and within tolerance of the point on every axis.",
 "all rays (including axis-aligned ones), all points",
 "only the direction (1,1,1) is tried",
 ["lib/ray.rs","lib/point.rs"],[("get_intersect, Point case","lib/ray.rs")])
p("S07","Ray-ray intersection",
 "Write v for the cross product of the two unit directions and d for the offset between the origins. Two rays with clearly different directions (some component of v above 1e-4 in magnitude) that share a point are reported as intersecting at that point; rays whose lines cross behind either origin, or that are skew by more than tolerance (|v . d| above the tolerance), are not reported, and a reported location lies on the first ray. Two exactly parallel or opposite rays on a common line are reported exactly when they overlap, at a location on both; parallel rays farther apart than tolerance are not.",
 "all pairs of rays",
 "five literal pairs; the only skew pair is also parallel",
 ["lib/ray.rs"],[("get_intersect, Ray case","lib/ray.rs")])
p("S08","Prism-segment intersection",
 "A segment is reported to intersect a triangular prism exactly when some point of the segment belongs to the closed solid prism, including segments with coinciding endpoints. The location reported belongs to both the segment and the prism.",
 "all prisms with non-degenerate base and positive height, all segments",
 "eight literal segments against one prism",
 ["lib/triprism.rs","lib/line.rs","lib/ray.rs","lib/plane.rs"],[("get_intersect, Line case","lib/triprism.rs")])
p("S09","Intersection queries are order-independent and self-consistent",
 "For every supported pair of different shape kinds, asking the first about the second gives the same answer and location as asking the second about the first. An intersection answer carries a location exactly when it is positive, and asking does not change either shape.",
 "all supported pairs of shapes with arbitrary parameters",
 "order is exchanged on a few literals only",
 ["lib/point.rs","lib/sphere.rs","lib/plane.rs","lib/rbox.rs","lib/line.rs","lib/triprism.rs","lib/ray.rs"],
 [("delegating cases of get_intersect","lib/point.rs, lib/sphere.rs, lib/plane.rs, lib/line.rs")])
p("S10","Support points are extreme points",
 "For a nonzero direction, the support point of a sphere, box, prism or point belongs to the shape and no point of the shape lies farther along the direction. The zero direction has no support point on shapes with extent, and rays and planes have none at all.",
 "all shapes, all directions",
 "only one sphere is tried with directions in one octant",
 ["lib/sphere.rs","lib/rbox.rs","lib/triprism.rs","lib/point.rs","lib/ray.rs","lib/plane.rs"],[("get_support","each shape file")])
p("S11","The iterative sphere overlap query agrees with the geometry",
 "Whenever the support-function-based overlap query on two spheres answers, its answer is true only if the spheres share a point and false only if they share no interior point; it does not fail for any pair of spheres with positive radius, and shapes it does not support are refused.",
 "all pairs of spheres with positive radius, any number of iterations",
 "six literal pairs",
 ["lib/intersect_gjk.rs","lib/sphere.rs"],[("query_intersect and its helpers","lib/intersect_gjk.rs")],over=("inputs","histories"))
p("S12","Tolerance handling of shapes",
 "For every shape two numbers are within tolerance exactly when they differ by at most the tolerance; setting the tolerance stores its absolute value and changes nothing else about the shape. Every newly built shape has a tolerance of one millionth.",
 "all tolerances and numbers, all shapes",
 "no test calls these directly",
 ["lib/sphere.rs","lib/rbox.rs","lib/line.rs","lib/triprism.rs","lib/ray.rs","lib/plane.rs","lib/point.rs","lib/i_vicinity.rs"],[("set_vicinity, within_vicinity, init","each shape file")])
p("R01","Rounding error stays within a stated bound",
 "For inputs of moderate size every operation's floating-point result differs from the exact real result by no more than a small relative error.",
 "all inputs of moderate magnitude",
 "tests compare a few values with a loose tolerance",
 ["lib/mat.rs","lib/quat.rs"],[("all arithmetic","lib/*.rs")])
p("R02","The iterative overlap query always terminates",
 "The support-function-based overlap query returns after finitely many iterations for every pair of spheres.",
 "all pairs of spheres",
 "six literal pairs terminate",
 ["lib/intersect_gjk.rs"],[("loop of query_intersect","lib/intersect_gjk.rs")],over=("inputs","histories"))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
