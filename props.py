"""The properties: their statements, where they are anchored and how each check is run.

`python3 props.py` regenerates properties.jsonl and MANIFEST.json from this file.
"""
import json
import os

V, M, X, CV, L, CO = "src/vector.rs", "src/matrix.rs", "src/misc.rs", "src/convert.rs", "src/lib.rs", "src/collision.rs"
PV, G = "src/packed_vector.rs", "src/globals.rs"

EVERY = "every build: the portable code path, SSE2, SSE3, SSE4.1, AVX, F16C, FMA, AVX2 and the Intel-tuned build"
DIFF = "property-based testing: generated inputs against an independent reference, in every instruction-set build"


# quick case counts: the vector and matrix checks are cheap, the collision checks are not
MULT = 6
CHEAP = {f"C{i:02d}": 24 for i in range(1, 20)}
CHEAP.update(C01=12, C04=12, C13=18, C15=48)
CHEAP.update(C20=12, C21=9, C22=9, C23=18, C24=12, C25=12, C26=18)


def P(pid, title, statement, over, text, why, files, mech, rule, cases, technique=DIFF, note="", **kw):
    d = dict(pid=pid, bin=pid.lower(), title=title, statement=statement, over=over, text=text, why=why, files=files,
             mech=mech, rule=rule, cases=cases * CHEAP.get(pid, MULT), technique=technique, note=note)
    d.update(kw)
    return pid, d


IC = ["inputs", "configurations"]
RULE = ("Each case draws its inputs from a seeded choice tape (see harness/src/gen.rs): random finite bit patterns, moderate magnitudes, "
        "small-integer lattices, special values (zeros, infinities, NaNs, denormals, extremes, neighbours of thresholds). ")
RULE_GEO = ("Volumes are drawn from a seeded choice tape: small-integer lattices with exact unit quaternions (contact is then exact), and f32 volumes of any pose and scale "
            "moved into or near contact along a face normal, an edge-edge axis or a random direction (harness/src/geo.rs). The verdict is computed in f64 from vertices, separating axes and distances. "
            "Non-trivial: the verdict is not within rounding of contact, so the answer is decided.")
GEO = "property-based testing: generated poses against an independent f64 geometry model, in every instruction-set build"

PROPS = dict([
    P("C01", "Component access, shuffles and selects move bits exactly",
      "Setting, replicating, splatting, reading and replacing components, swizzles, permutes, merges, selects, shifts, rotates, inserts and the constant "
      "builders put in every result component exactly the 32-bit pattern their arguments name, for any bit pattern including NaN payloads, signed zeros and denormals. "
      "Components that are not named keep their value.",
      IC, "all vectors of 32-bit patterns, all index tuples (4^4 swizzles, 8^4 permutes, every rotate/insert/select combination, run-time and compile-time forms), in " + EVERY,
      "The tests call each function with one or two vectors of small numbers and a few index tuples, in a single build; a wrong lane in one index tuple, one data-dependent lane or another instruction set is invisible to them.",
      [V, L], [("run-time swizzle/permute and their table-driven SIMD forms", V), ("compile-time permute/swizzle specialisations", L)],
      RULE + "Index spaces are enumerated (all 256 swizzles, all 4096 permutes, all select/insert/rotate combinations) inside each case. Non-trivial: the vectors have pairwise distinct components, so that a misplaced lane is visible.",
      20000, extra_configs=["rel_avx2", "spec"]),
    P("C02", "Comparisons and comparison records agree with scalar IEEE comparison",
      "Every per-component comparison yields all-ones or zero exactly according to the scalar IEEE (or integer, unsigned, near-equal, in-bounds) comparison of that component. "
      "The 2D, 3D and 4D predicates look only at the first two, three or four components and hold exactly when every one of them satisfies the relation. "
      "Comparison records report all-true, all-false, all-in-bounds and mixed exactly, for any operands including NaN, infinities and signed zeros.",
      IC, "all operand pairs and bounds, all arities, in " + EVERY,
      "The tests compare a handful of ordinary numbers; NaN in one lane, lanes beyond the arity, exact equality on the bound, and the record bits for mixed lanes are not sampled.",
      [V, L, X, M], [("vector comparison functions and R variants", V), ("record queries", L)],
      RULE + "Operands are biased so that lanes are equal, adjacent, NaN or differ only beyond the arity. Non-trivial: at least one lane differs in outcome from another or is special.",
      40000),
    P("C03", "Lane arithmetic, bitwise operations and rounding are exact",
      "Addition, subtraction, multiplication, division, negation, absolute value, min, max, clamp, saturate and square root return the correctly rounded IEEE result in every component, bitwise operations return the exact bits, and the overloaded operators agree with the named functions. "
      "Multiply-add forms are correct to one rounding or two, reciprocals and reciprocal square roots to a few units in the last place, and sums add all components. "
      "Round (half to even), truncate, floor and ceiling are exact for every float, including values beyond the integer range, infinities and NaN.",
      IC, "all component bit patterns, independently per lane, in " + EVERY,
      "Tests evaluate a few small values in which all lanes behave alike; a wrong lane, a large-magnitude operand, a half-way case or a negative zero is not reached.",
      [V, L], [("arithmetic and bit functions", V), ("operator overloads", L)],
      RULE + "Rounding uses half-way cases, neighbours of integers and powers of two and values above 2^23. Non-trivial: the operands are not all equal and not all zero.",
      40000),
    P("C04", "Angle wrapping and floating-point modulo reduce to the right representative",
      "Reducing an angle yields a value in [-pi, pi] that differs from the input by a whole multiple of 2 pi up to rounding, and angles already in that range are unchanged up to rounding. "
      "Adding or subtracting two angles in [-pi, pi) yields the wrapped sum or difference in [-pi, pi). "
      "The modulo functions return the truncated remainder with the sign of the dividend, and degree/radian conversion is multiplication by the exact factor.",
      IC, "all angles of magnitude up to 1e6 and all dividend/divisor pairs with a moderate quotient, independently per lane, in " + EVERY,
      "The tests use a few angles; multiples and half-multiples of pi on either side, negative angles and lanes needing different corrections are not covered.",
      [V, X, L], [("angle reduction", V), ("scalar reduction", X)],
      RULE + "Angles cluster at multiples of pi/2 plus or minus a few ulps. Non-trivial: at least one lane is outside the principal range or on a boundary.",
      60000),
    P("C05", "Transcendental functions stay within their error bounds everywhere",
      "Sine, cosine, tangent, their joint forms, arc functions, two-argument arctangent, exponentials, power and hyperbolic functions return, in every component and in their scalar forms, the mathematical value within a small fixed error over the whole documented domain. "
      "At special values (signed zeros, infinities, NaN, domain edges, the axes and the diagonal quadrants of the two-argument arctangent) they return the documented special result; the scalar arc sine and arc cosine treat arguments beyond [-1, 1] as that edge. No component influences another.",
      IC, "all arguments of the documented domain, independently per lane, in " + EVERY,
      "Tests sample a dozen angles with loose tolerances; a wrong polynomial coefficient, branch at the range-reduction boundary or quadrant correction survives them.",
      [V, X, G], [("minimax polynomials and range reduction", V), ("coefficients", G), ("scalar versions", X)],
      RULE + "Arguments are uniform over the domain, clustered at branch boundaries, and special. The oracle is f64. Non-trivial: at least one lane has a finite non-zero argument.",
      60000),
    P("C06", "Estimate functions stay within the accuracy they promise",
      "Every estimate variant (trigonometric and arc functions, reciprocals, square roots, lengths, normalisations, angles between normals) returns the mathematical value within the estimate's accuracy over the whole documented domain, in every component, and in its scalar form.",
      IC, "all arguments of the documented domain, independently per lane, in " + EVERY,
      "Tests sample a few points with tolerances far wider than the advertised accuracy.",
      [V, X, G], [("estimate polynomials and hardware estimates", V), ("scalar versions", X), ("coefficients", G)],
      RULE + "As C05, with the measured tolerance of the estimate (relative 3.7e-4 for the hardware reciprocals). Non-trivial: a finite non-zero argument outside the trivial points.",
      50000),
    P("C07", "Interpolation evaluates its polynomial and reaches its end points",
      "Linear, Hermite, Catmull-Rom and barycentric interpolation equal their defining polynomial of the control values and the parameter, component by component; the forms taking a vector parameter use each component's own parameter, and those taking a scalar use it for all. "
      "At the end-point parameters the result is the corresponding control value.",
      IC, "all control vectors and parameters (inside and outside [0,1]), in " + EVERY,
      "Tests evaluate one parameter on one set of points, usually the same in all lanes.",
      [V], [("interpolation functions", V)],
      RULE + "Exact-integer cases (all intermediates representable) demand equality; general cases use a running error bound. Non-trivial: control values and parameters not all equal.",
      50000),
    P("C08", "Vector geometry in two, three and four dimensions matches its definition",
      "Dot and cross products, lengths and reciprocal lengths, normalisation, length clamping, orthogonal vectors, angles, distance to a line, line intersection and decomposition against a normal return the value of their definition over exactly the first two, three or four components, replicated where documented, within rounding. "
      "Normalising a zero vector yields zero and an infinite component NaN, and clamping leaves in-range lengths unchanged.",
      IC, "all vectors of moderate magnitude with arbitrary data (even NaN) in the unused components, plus zero and infinite vectors, in " + EVERY,
      "Tests use one or two vectors per function; unused components are zero in them, and degenerate or parallel inputs are absent.",
      [V], [("per-dimension geometry", V)],
      RULE + "Lattice cases make dot and cross exact. Unused lanes hold arbitrary bits. Non-trivial: the used components are not all zero and no intermediate overflows.",
      40000),
    P("C09", "Reflection, refraction and the Fresnel term follow the optics formulas",
      "Reflection returns the incident vector minus twice its projection on the normal; refraction follows Snell's law with the given refraction index (scalar or per component) and returns the zero vector (per component, zero) on total internal reflection; the Fresnel term equals the unpolarised dielectric formula clamped to [0,1]. "
      "This holds in two, three and four dimensions.",
      IC, "all incident/normal pairs and refraction indices, near and beyond the critical angle, in " + EVERY,
      "Tests use one incident ray and index; total internal reflection per component and grazing angles are not sampled.",
      [V, X], [("reflect/refract", V), ("Fresnel", X)],
      RULE + "Indices and angles cluster at the critical angle; cases within rounding of it are not judged. Non-trivial: incident and normal are not parallel.",
      50000),
    P("C10", "Vectors transform by matrices and quaternions as row vectors",
      "Transforming a point, coordinate, normal or 4-vector equals the row-vector matrix product (with w = 1, division by w, or w = 0 respectively); rotating by a unit quaternion equals the rotation it denotes and inverse rotation undoes it; project maps through world, view, projection and viewport, and unproject inverts it.",
      IC, "all vectors, matrices, unit quaternions and viewports of moderate magnitude, in " + EVERY,
      "Tests use identity-like matrices and one vector, so swapped rows, missing terms or a wrong lane go unnoticed.",
      [V], [("Transform*, Rotate*, Project/Unproject", V)],
      RULE + "Integer lattice matrices make products exact; otherwise a running error bound. Non-trivial: matrix is not diagonal and the vector is non-zero.",
      40000),
    P("C11", "Loads, stores and structure conversions copy exactly what they name",
      "Loading from and storing to the plain scalar, vector and matrix structures copies exactly the structure's elements bit for bit to the right components, fills the remaining components with zero (or the identity row where documented), and never reads or writes a byte outside the structure. "
      "Conversions between structures and arrays (by value, by reference, mutable) preserve element order, and typed integer loads/stores convert by value.",
      IC, "all structure contents, at every alignment the type permits, with inaccessible memory on either side, in " + EVERY,
      "Tests load ordinary numbers from the stack, where reading or writing 16 bytes of a 12-byte structure has no visible effect.",
      [CV, L], [("load/store functions", CV), ("structure conversions", L)],
      RULE + "The object ends or starts exactly at a guard page, so an out-of-bounds access faults; neighbouring bytes are canaries. Non-trivial: element bits pairwise distinct.",
      10000, extra_configs=["o0_sse2", "o0_avx2"], technique="property-based testing with guard pages: generated contents and placements against a byte-level model, in every instruction-set build"),
    P("C12", "Integer, float and half-precision conversions round and saturate correctly",
      "Converting signed or unsigned integer vectors to float divides by the power of two given and rounds correctly (unsigned values from 2^31 on to within one unit in the last place); converting floats to integers multiplies by the power of two, truncates and saturates at the type's range, independently per component. "
      "Half to float is exact for every half value, and float to half rounds to nearest even, including denormals, overflow to infinity and NaN.",
      IC, "all 32-bit integers, all floats but NaN for integer targets, all exponents 0..31, all 65536 halves, in " + EVERY,
      "Tests convert a few small integers with exponent 0 or 1; negative values, the range ends, halfway cases and denormal halves are not sampled.",
      [CV, V, PV], [("vector conversions", CV), ("half conversions", PV)],
      RULE + "All 65536 halves are enumerated in every run; floats cluster at range ends and half-way points. Non-trivial: value is not zero.",
      50000),
    P("C13", "Matrix algebra and matrix operators obey linear algebra",
      "Product, transposed product, transpose, determinant, inverse, outer product, and the element constructors equal their definitions within rounding (exactly on small integers); a matrix times its inverse is the identity and the reported determinant is right. "
      "The identity/NaN/infinity predicates inspect all sixteen elements, and the wrapper's arithmetic, negation, scaling, assignment operators and equality act on every element.",
      IC, "all matrices of moderate magnitude, near-singular ones judged relative to their conditioning, in " + EVERY,
      "Tests multiply a couple of matrices, often symmetric or identity, and use only some of the operators.",
      [M, V, L], [("matrix functions", M), ("operator wrappers", M)],
      RULE + "Lattice matrices demand exact equality, others a running error bound; one element at a time is made special for the predicates. Non-trivial: not the identity or zero matrix.",
      20000),
    P("C14", "Matrix constructors build the transformation they denote",
      "Translation, scaling, axis and axis-angle rotation, quaternion, roll-pitch-yaw, affine, two- and three-dimensional general transformation, reflection and shadow constructors produce the matrix whose action on row vectors is the named transformation, in the documented composition order and handedness, within rounding.",
      IC, "all finite parameters: offsets, scales, angles of any sign, unit axes, unit quaternions, planes, lights, in " + EVERY,
      "Tests compare one parameter choice, often with zero origins or identity rotations that hide order and sign errors.",
      [M, V], [("matrix constructors", M)],
      RULE + "The oracle composes the elementary steps in f64 with an error bound. Non-trivial: parameters generic (no zero origin/rotation) in most cases.",
      25000),
    P("C15", "Decomposition inverts scale-rotation-translation composition",
      "Decomposing a matrix composed of a scale, a rotation and a translation succeeds, returns the translation exactly, a unit quaternion, and scales whose recomposition reproduces the matrix, with positive scales unless the matrix mirrors. "
      "Matrices with zero scales are still decomposed with an orthonormal rotation, and sheared matrices are reported as not decomposable.",
      IC, "all scales (any order of magnitude between components, zero, negative), unit quaternions and translations, in " + EVERY,
      "Tests decompose one well-behaved matrix; the axis ordering, sign and degenerate branches depend on the relative sizes of the scales.",
      [M], [("decomposition", M)],
      RULE + "Scales are drawn in every relative order and degeneracy pattern. Non-trivial: rotation not the identity.",
      40000),
    P("C16", "View and projection matrices map the view volume to the clip volume",
      "Look-at and look-to matrices are rigid, send the eye to the origin and the viewing direction to the positive (left-handed) or negative (right-handed) z axis with up in the upper half plane. "
      "Perspective and orthographic matrices, centred, off-centre or by field of view, map the near and far planes to depth 0 and 1 (also when reversed) and the side planes to plus or minus one.",
      IC, "all cameras and all non-degenerate view volumes with near and far in either order, in " + EVERY,
      "Tests compare one camera and one volume with hard-coded numbers.",
      [M], [("view and projection constructors", M)],
      RULE + "The oracle is the documented matrix in f64 and the mapped corners of the view volume. Non-trivial: volume off-centre or asymmetric, camera not axis-aligned.",
      30000),
    P("C17", "Quaternion algebra agrees with rotations and matrices",
      "Quaternion product, conjugate, inverse, length, normalisation and dot product follow their definitions; the product of two rotations is the first followed by the second. "
      "Building a quaternion from an axis and angle, from roll-pitch-yaw or from a rotation matrix yields a unit quaternion denoting that rotation, and converting back to axis and angle or to a matrix recovers it. "
      "Quaternion predicates inspect all four components.",
      IC, "all quaternions of moderate magnitude, all unit axes and angles, all rotation matrices including half-turns, in " + EVERY,
      "Tests convert one rotation; matrix-to-quaternion has a branch per dominant component and signs that only appear for specific rotations.",
      [X], [("quaternion functions", X)],
      RULE + "Rotations cluster at half-turns and axis permutations. Non-trivial: the rotation is not the identity.",
      40000),
    P("C18", "Quaternion exponential, logarithm and interpolation stay on the rotation path",
      "Exponential and logarithm of quaternions are inverse and equal their definition. "
      "Spherical interpolation of unit quaternions returns a unit quaternion at the given fraction of the shorter arc, reaches both ends, and takes the vector parameter like the scalar one; spherical quadrangle and barycentric interpolation equal their definition in terms of it, and the setup picks control quaternions on the nearer hemisphere.",
      IC, "all unit quaternions (near, opposite, orthogonal) and parameters, in " + EVERY,
      "Tests interpolate one pair at one parameter; the shorter-arc and nearly-parallel branches are not compared with a definition.",
      [X], [("Ln, Exp, Slerp, Squad, SquadSetup, BaryCentric", X)],
      RULE + "Pairs are generated at prescribed angles including 0, near the linear switch-over, 90 and 180 degrees. Non-trivial: the quaternions differ.",
      50000),
    P("C19", "Plane functions satisfy the plane equation",
      "Plane-point, plane-vector and plane-normal products equal a*x+b*y+c*z(+d*w or +d); normalising scales to a unit normal without moving the plane; planes from three points or a point and normal contain those points. "
      "A line meets a plane at a point on both, two planes meet in a line on both, and parallel inputs are reported as NaN. "
      "Transforming a plane by the inverse transpose of a matrix keeps transformed points on the plane.",
      IC, "all planes, points, lines and invertible matrices of moderate magnitude, in " + EVERY,
      "Tests use axis-aligned planes and one line.",
      [X], [("plane functions", X)],
      RULE + "Lattice planes give exact products. Non-trivial: normal not axis-aligned or offset non-zero.",
      40000),
    P("C20", "Sphere, box and oriented box containment and overlap are geometrically right",
      "For bounding spheres, axis-aligned boxes and oriented boxes, Contains of a point or of another such volume answers CONTAINS exactly when the closed solid holds all of it, DISJOINT exactly when they have no common point and INTERSECTS otherwise, and Intersects answers whether they have a common point. "
      "Contact counts as common, on inputs the arithmetic represents exactly; within rounding of contact either answer is accepted. The fourth component of point arguments has no influence.",
      IC, "all pairs of spheres, boxes, oriented boxes (unit orientation) and points of moderate scale, deep, grazing, nested, flat and apart, in " + EVERY,
      "The tests in the repository try a few axis-aligned pairs; separating-axis tests fail only for the relative poses in which one particular face or edge axis decides.",
      [CO], [("BoundingSphere, BoundingBox and BoundingOrientedBox Contains*/Intersects*", CO)],
      RULE_GEO, 40000, technique=GEO),
    P("C21", "Frustum containment and overlap are geometrically right",
      "For bounding frustums against points, spheres, boxes, oriented boxes and frustums, and those volumes against frustums, Intersects answers whether the closed solids have a common point. "
      "Frustum Contains answers DISJOINT exactly when the other volume lies wholly beyond one of the six frustum planes, CONTAINS exactly when it is inside all six, else INTERSECTS; Contains of a frustum by another volume follows the exact solids. "
      "Within rounding of contact either answer is accepted; left-handed, right-handed (negative near/far) and off-centre frustums are included.",
      IC, "all frustums (unit orientation, near < far) and partners of moderate scale, in " + EVERY,
      "The tests check almost no frustum pair; each plane, face axis and edge-edge axis needs its own relative pose to matter.",
      [CO], [("BoundingFrustum Contains*/Intersects*, *Frustum methods of the other volumes", CO)],
      RULE_GEO, 60000, technique=GEO),
    P("C22", "Triangle overlap and containment tests are geometrically right",
      "For a sphere, box, oriented box or frustum and a non-degenerate triangle, IntersectsTriangle answers whether they have a common point, and ContainsTriangle answers DISJOINT, INTERSECTS or CONTAINS accordingly (for a frustum by its six planes). "
      "The triangle-triangle test answers whether two triangles have a common point, symmetric in its arguments and in the order of vertices; co-planar triangles that overlap count. "
      "Pairs within rounding of contact or of being co-planar may go either way.",
      IC, "all volumes and non-degenerate triangles, all triangle pairs, of moderate scale, in " + EVERY,
      "The tests try a few triangles; the interval and co-planar branches of triangle-triangle and the edge axes of box-triangle depend on which vertex lies where.",
      [CO], [("*Triangle methods", CO), ("triangle_tests::IntersectsTriangle", CO)],
      RULE_GEO, 80000, technique=GEO),
    P("C23", "Ray casts report a hit exactly when there is one, with its distance",
      "IntersectsRay of spheres, boxes, oriented boxes, frustums and triangles answers whether the half-line from the origin along the unit direction meets the closed solid, and sets the distance to where it first meets it when the origin is outside, to zero when there is no hit. "
      "From inside: a sphere reports where the ray leaves, a box the (non-positive) entry parameter, a frustum zero. Rays parallel to a triangle's plane miss it. Grazing rays may go either way.",
      IC, "all rays with unit direction, including axis-parallel ones and negative zeros, against all volumes and non-degenerate triangles, in " + EVERY,
      "The tests cast a few rays; origin inside, behind, parallel to a slab and grazing a corner are separate branches per axis.",
      [CO], [("IntersectsRay", CO)],
      RULE_GEO, 40000, technique=GEO),
    P("C24", "Plane classification of volumes and triangles is right",
      "IntersectsPlane of each volume and of a triangle answers FRONT when every point has positive signed distance from the unit plane, BACK when every point has negative distance and INTERSECTING otherwise. "
      "ContainedBy six planes answers DISJOINT when the volume is wholly in front of one of them, CONTAINS when it is behind all, else INTERSECTS. Within rounding either neighbour answer is accepted, on exactly representable inputs none.",
      IC, "all volumes and triangles and all unit planes, near-touching and far, in " + EVERY,
      "The tests use a few axis planes; which corner is the extreme one depends on every sign of the normal, and which of six planes decides is not sampled.",
      [CO], [("IntersectsPlane, ContainedBy, FastIntersect*Plane", CO)],
      RULE_GEO, 40000, technique=GEO),
    P("C25", "Constructed bounding volumes enclose their source and fit it",
      "Spheres, boxes and oriented boxes created from points enclose every point, touch the furthest ones, have a unit orientation and (sphere) a radius no larger than the diameter of the set (for a set spanned by an antipodal pair, the smallest sphere); an oriented box follows the axes of a symmetric cloud. "
      "Merging gives the smallest sphere or box around both; conversions between sphere, box, oriented box and frustum enclose the source exactly as documented. "
      "Corners come in the documented order, frustum planes are the outward unit planes and only the requested ones are written, and a frustum created from a perspective projection matrix (left- or right-handed, off-centre) has the slopes and distances of that projection.",
      IC, "all point sets of 1 to 15 points (clouds, lines, planes, duplicates, far from the origin, magnitudes 1e-6 to 1e6), all pairs to merge, all perspective projections with far/near up to 200, in " + EVERY,
      "The tests build volumes from two or three points at unit scale.",
      [CO], [("CreateFrom*, CreateMerged, GetCorners, GetPlanes", CO)],
      RULE_GEO, 40000, technique=GEO),
    P("C26", "Transformed bounding volumes are the images of the originals",
      "Transforming by a matrix made of scale, rotation and translation, or by those parts, moves a sphere's centre and multiplies its radius by the largest scale, gives the tight axis-aligned bounds of a box's image, and gives exactly the image of an oriented box (uniform scale, or per-axis scale of an axis-aligned one) and of a frustum (uniform scale), with unit orientation. "
      "The matrix and decomposed forms agree, and a box may be transformed by any affine matrix.",
      IC, "all volumes, scales 1/64 to 64, rotations and translations, in " + EVERY,
      "The tests transform hardly any volume; rotation order, scale on the wrong axis and a lost translation show up only for general poses.",
      [CO], [("TransformMatrix, TransformDecomposed", CO)],
      RULE_GEO, 60000, technique=GEO),
])


def main():
    root = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for pid, p in PROPS.items():
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": pid, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": ["the public functions of the crate"], "hook_needed": None},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 check.py build c01",
        "checks": [{
            "property": pid,
            "quick_cmd": f"python3 check.py run {pid} quick",
            "thorough_cmd": f"python3 check.py run {pid} thorough",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": (p["note"] or "Generated-input search: no violation among the cases counted in the evidence file; the oracle is independent f64/integer arithmetic with a stated error bound. ") +
                          " Trusts the harness's reference code, rustc and the x86-64 CPU; ARM/NEON code is not compiled here.",
        } for pid, p in PROPS.items()],
        "not_applicable": [],
    }
    json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
