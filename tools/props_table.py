SAN = "Sanitized randomized executions judged by online monitors against an independent reference oracle"
NOTE = "Exploration: the property held on every generated execution (counts in the evidence file). Trusts the long-double reference oracle, g++'s ASan/UBSan runtime and the stated tolerances; inputs outside the generated distribution are not judged."

prop("P01", "Basis functions match their mathematical definition",
     "For every valid degree, knot vector (any multiplicities) and parameter in the domain, the knot span and multiplicity found, the B-spline basis functions (one, all non-zero, all degrees) and their derivatives, and the Bernstein basis, power-basis conversion and Bezier point evaluation equal their mathematical definitions. In particular basis functions are non-negative, sum to one, and are zero outside their support, including exactly at knots, at both ends of the domain and within rounding distance of a knot.",
     "all degrees, all clamped and unclamped knot vectors with arbitrary multiplicity, all parameters including knots and both ends",
     "T_Polynomials and T_KnotVector evaluate a handful of book examples at one parameter each; they never touch repeated interior knots, the ends, or parameters within rounding of a knot.",
     [A + "Polynomials.cpp", M + "Utils/MathUtils.cpp", A + "KnotVectorUtils.cpp", C + "BezierCurve.cpp", I + "BezierCurve.h", I + "BezierSurface.h"],
     [("span search, Cox-de Boor tables and derivative tables", "Polynomials::GetKnotSpanIndex/BasisFunctions/BasisFunctionsDerivatives/OneBasisFunction*"), ("Bernstein recurrence and power conversion", "Polynomials::Bernstein/AllBernstein/*ToPower*"), ("Bezier evaluation", "BezierCurve::GetPointOnCurveBy*, BezierSurface::GetPointOnSurfaceByDeCasteljau")],
     SAN, NOTE)

prop("P02", "Curve points equal the rational B-spline sum, by every algorithm",
     "For every valid curve (any degree, knots, positive weights, clamped or not) and every parameter in its domain, each point-evaluation algorithm returns the weighted B-spline combination of the control points. The algorithms agree with each other, the point lies in the hull of the active control points, and moving a control point changes the curve only inside that point's support.",
     "all valid curves and all parameters, including knots, domain ends and parameters just beside a knot",
     "T_Fundamental evaluates a few fixed curves at isolated parameters; corner cutting and rational weights at knots are not sampled.",
     [C + "NurbsCurve.cpp", I + "BsplineCurve.h"],
     [("rational evaluation and corner cutting", "NurbsCurve::GetPointOnCurve/GetPointOnCurveByCornerCut, BsplineCurve::GetPointOnCurve")],
     SAN, NOTE)

prop("P03", "Curve derivatives and differential geometry are the true derivatives",
     "For every valid curve and parameter, the returned derivatives of any order are the exact derivatives of the curve (zero or quotient-rule continuation above the degree), from the right at knots and from the left at the domain end. The curvature, torsion, tangent, normal and binormal returned are those of the curve and do not depend on its parametrisation; normals projected along a curve stay unit length and orthogonal to the tangent; a curve is reported to have a derivative at a parameter exactly where the one-sided ones agree.",
     "all valid rational curves, derivative orders and parameters",
     "Tests compare first or second derivatives of two or three fixed curves at smooth parameters; curvature is tested on one circle.",
     [C + "NurbsCurve.cpp", I + "BsplineCurve.h", A + "Polynomials.cpp"],
     [("quotient rule over homogeneous derivatives", "NurbsCurve::ComputeRationalCurveDerivatives, BsplineCurve::ComputeDerivatives*"), ("Frenet quantities", "NurbsCurve::Curvature/Torsion/Normal/ProjectNormal")],
     SAN, NOTE)

prop("P04", "Knot insertion, refinement and Bezier decomposition keep the curve",
     "Inserting a knot, refining the knot vector with any list of knots, and decomposing a curve into Bezier pieces never change the curve as a parametrised point set. The result is a valid curve whose knots are exactly the old ones plus the requested ones, and every Bezier piece reproduces its own knot span.",
     "all valid clamped curves, all admissible knots (existing, near an existing knot within rounding, new) and repetition counts",
     "Tests insert one knot into one or two book curves and compare a few control points.",
     [C + "NurbsCurve.cpp", A + "KnotVectorUtils.cpp"],
     [("Boehm insertion, Oslo-like refinement, decomposition", "NurbsCurve::InsertKnot/RefineKnotVector/DecomposeToBeziers")],
     SAN, NOTE)

prop("P05", "Degree changes and knot removal keep the curve or are refused",
     "Degree elevation and knot removal of a removable knot reproduce the curve at every parameter; degree reduction succeeds, with the original curve, whenever the curve is an elevated one, and stays within the tolerance it promises whenever it reports success. When an operation reports that it is not possible the output is not used, and whenever it reports success the result is a valid curve that matches the original within its tolerance.",
     "all valid clamped curves with arbitrary interior multiplicity, elevation counts, removal counts and tolerances",
     "Tests elevate two fixed curves once and remove one knot from book curves.",
     [C + "NurbsCurve.cpp"],
     [("elevation/reduction/removal", "NurbsCurve::ElevateDegree/ReduceDegree/RemoveKnot/RemoveExcessiveKnots")],
     SAN, NOTE + " A recorded known finding: forced removal of a non-removable knot when degree minus multiplicity is even (pinned by an existing test).")

prop("P06", "Split, extract, merge, reverse, reparametrise, transform, clamp",
     "Cutting a curve at a parameter, extracting a part, joining two curves that meet, reversing, affine and rational-linear reparametrisation, transforming by a matrix, and clamping or unclamping the ends all return valid curves that trace exactly the corresponding points of the input under the stated parameter map. Requests that make no sense (split outside the domain, merge of curves that do not meet) are refused, and the closed, linear, clamped, periodic and arc predicates answer according to the geometry.",
     "all valid curves, split parameters (including knots and parameters within rounding of a knot), intervals, matrices, parameter maps",
     "Tests do each operation on one fixed curve at one parameter.",
     [C + "NurbsCurve.cpp", A + "KnotVectorUtils.cpp", M + "Math/Matrix4d.cpp"],
     [("split/extract/merge", "NurbsCurve::SplitAt/Segment/Extract/Merge"), ("reverse/reparametrise/transform", "NurbsCurve::Reverse/Reparametrize/CreateTransformed"), ("clamp/unclamp/predicates", "NurbsCurve::ToClampCurve/ToUnclampCurve/IsClosed/IsLinear/IsClamp/IsPeriodic/IsArc")],
     SAN, NOTE)

prop("P07", "Point inversion on a curve finds the closest point",
     "For a point on a regular curve the returned parameter lies in the domain and evaluates back to that point; for a point near the curve the returned parameter is no worse than the best sampled parameter, up to the method's tolerance. Asking for all parameters of a point returns every parameter at which the curve passes through it, each of them valid and without duplicates.",
     "all regular curves and query points on, near or off the curve, including the seam of closed curves and the domain ends",
     "Tests invert a few fixed points of one curve.",
     [C + "NurbsCurve.cpp"],
     [("sampling plus Newton iteration", "NurbsCurve::GetParamOnCurve/GetParamsOnCurve")],
     SAN, NOTE)

prop("P08", "Arc length and parameters by arc length",
     "Every length integrator returns the true arc length of the curve or of the requested part within its accuracy, independent of orientation, splitting, elevation and rigid motion. The parameter returned for a given length cuts off that length, and the parameters for equal steps partition the curve into pieces of the requested length; a step of zero or negative length is refused.",
     "all regular curves, sub-intervals, integrator types and target lengths",
     "Tests measure one circle and one line with loose tolerance.",
     [C + "NurbsCurve.cpp", A + "Integrator.cpp", I + "Integrator.h"],
     [("Simpson, Gauss-Legendre and Chebyshev quadrature over spans", "NurbsCurve::ApproximateLength, Integrator"), ("bisection on length", "NurbsCurve::GetParamOnCurve(length)/GetParamsOnCurve(length)")],
     SAN, NOTE)

prop("P09", "Constructed lines, arcs, conics and Hermite curves are exact",
     "Every constructor of a line, circular or elliptical arc (any angles and radii), open conic through given end points, tangents and shoulder point, and cubic Hermite curve returns a valid curve whose every point satisfies the defining equation, starts and ends at the requested points with the requested tangent directions, and covers exactly the requested range. Infeasible requests are refused instead of producing a curve.",
     "all radii, angle ranges, axes, end points, tangents and shoulder points",
     "Tests build one full circle and one conic and look at a few control points.",
     [C + "NurbsCurve.cpp"],
     [("rational quadratic construction with segment counts by angle", "NurbsCurve::CreateLine/CreateArc/CreateOneConicArc/SplitArc/CreateOpenConic/CreateCubicHermite")],
     SAN, NOTE)

prop("P10", "Curve interpolation passes through the data with the requested tangents",
     "Chord-length and centripetal parameters and the averaged knot vectors built from them are the defined ones, so that every knot span holds data. Global interpolation returns a valid non-rational curve that meets every data point at its parameter and, when tangents are given, has those derivatives there; cubic local interpolation passes through every point with a continuous tangent direction. Estimated tangents (three- and five-point) are finite, unit where stated, and exact on the data they are defined to be exact for; too few points are refused.",
     "all point sequences with distinct neighbours (including collinear, closed and badly spaced ones), degrees, parameters and tangents",
     "Tests interpolate one or two fixed point lists and look at isolated control points.",
     [C + "NurbsCurve.cpp", A + "Interpolation.cpp", I + "Interpolation.h"],
     [("parametrisation and knot averaging", "Interpolation::GetChordParameterization/GetCentripetalParameterization/AverageKnotVector/ComputeKnotVector"), ("linear systems for interpolation", "NurbsCurve::GlobalInterpolation (with and without tangents), NurbsCurve::CubicLocalInterpolation"), ("tangent estimation", "Interpolation::ComputeTangent*, Interpolation::BesselTangents")],
     SAN, NOTE)

prop("P11", "Curve approximation keeps its error bound and is the least-squares fit",
     "Least-squares approximation interpolates the end points and leaves a residual orthogonal to every free basis function; with weights and constraints the hard constraints are met exactly and the weighted residual is stationary. Every fit that promises an error bound (global approximation, knot removal under a bound, conic and cubic fitting) stays within that bound at the data, the errors it reports are true upper bounds, and data taken from an exact conic or cubic is reproduced.",
     "all data sequences, degrees, control point counts, weights, constraint sets and error bounds",
     "Tests fit one data set and only look at the sizes or a loose distance.",
     [C + "NurbsCurve.cpp", A + "Interpolation.cpp"],
     [("normal equations", "NurbsCurve::LeastSquaresApproximation/WeightedAndContrainedLeastSquaresApproximation"), ("bounded removal and refitting", "NurbsCurve::GlobalApproximationByErrorBound/RemoveKnotsByGivenBound/ComputerRemoveKnotErrorBound"), ("local fits", "NurbsCurve::FitWithConic/FitWithCubic")],
     SAN, NOTE)

prop("P12", "Shape modification moves exactly what was asked and nothing else",
     "Repositioning a control point moves the curve point at the given parameter by exactly the requested distance along the requested direction; changing one weight, or two neighbouring weights, moves it by the requested distance toward or away from the control point or edge. Constraint-based modification meets every requested point and derivative change exactly with the least movement of the free control points. Warping, flattening and bending change the curve only inside the knot spans of the requested parameter range and produce the stated displacement, flatness or bend; everything that was not asked to change (degree, knots, other control points and weights) is untouched, and requests that cannot be met are refused.",
     "all regular curves, control point indices (including the first and last), parameters, directions and distances of either sign",
     "Tests modify one fixed curve with one argument set each and look at a coordinate or two.",
     [C + "NurbsCurve.cpp"],
     [("single and paired weight change, reposition", "NurbsCurve::ControlPointReposition/WeightModification/NeighborWeightsModification"), ("constraint system", "NurbsCurve::ConstraintBasedModification"), ("region operators", "NurbsCurve::Warping/Flattening/Bending")],
     SAN, NOTE)

prop("P13", "Tessellation, extension and offset of curves",
     "Tessellating a curve returns points of the curve in curve order, with both end points exact, dense enough that no part of the curve is skipped; equally spaced tessellation returns the curve's points at increasing parameters. Extending a curve keeps the original curve as a part, joins it without a gap, continues with the tangent line, the osculating circle or the curve's own derivatives as requested, and adds the requested length; a non-positive length adds nothing. Offsetting a planar curve that bends one way keeps every point at the requested distance on the requested side.",
     "all regular curves, either end, extension kinds and lengths, offset distances",
     "Tests tessellate and extend one curve and only compare counts or a single length.",
     [C + "NurbsCurve.cpp"],
     [("recursive subdivision and span sampling", "NurbsCurve::Tessellate/EquallyTessellate"), ("extension by merge", "NurbsCurve::Extend"), ("Piegl-Tiller offset", "NurbsCurve::Offset")],
     SAN, NOTE + " The Tiller-Hanson offset is a stated heuristic and is not judged.")

prop("P14", "Surface points, derivatives, normals, curvatures and isocurves are exact",
     "The point of a NURBS surface at any (u,v) of its domain, including every knot line and all four boundary edges, is the rational tensor-product value. Partial derivatives of any requested order (zero above the degree) match it by every route the library offers (direct, all-basis, derivative control net, first-order shortcuts) whatever the output buffers held before; normals are unit and perpendicular to both partials; Gaussian, mean, principal, absolute, RMS curvatures satisfy their definitions; a tangent vector given in 3D converts to the right (du,dv); isocurves lie on the surface.",
     "all valid surfaces of degree 1 to 7 in each direction with equal and unequal sizes, weights, interior knot multiplicities, and every parameter pair of the domain",
     "Tests evaluate a handful of fixed surfaces at one or two interior parameters.",
     [S + "NurbsSurface.cpp", I + "NurbsSurface.h", I + "BsplineSurface.h", I + "BezierSurface.h"],
     [("tensor product evaluation and quotient rule", "NurbsSurface::GetPointOnSurface/ComputeRationalSurfaceDerivatives/ComputeRationalSurfaceFirstOrderDerivative, BsplineSurface::ComputeDerivatives*"), ("differential geometry", "NurbsSurface::Normal/Curvature/GetUVTangent"), ("isocurves", "NurbsSurface::GetIsoCurve*")],
     SAN, NOTE)

prop("P15", "Knot and degree operations on surfaces preserve the surface",
     "Inserting knots, refining, decomposing into Bezier patches and raising the degree, in either direction, return a valid surface with exactly the requested structure whose every point is the original point; reducing the degree or removing knots gives the same surface where that is possible and is refused, leaving a valid unchanged surface, where the deviation would exceed the tolerance. Inputs are never modified.",
     "all valid surfaces, both directions, insert parameters including existing knots, parameters next to knots, and both ends of the domain",
     "Tests apply each operation to one surface and evaluate one point.",
     [S + "NurbsSurface.cpp"],
     [("row-wise insertion and refinement", "NurbsSurface::InsertKnot/RefineKnotVector/DecomposeToBeziers"), ("degree changes", "NurbsSurface::ElevateDegree/ReduceDegree"), ("removal", "NurbsSurface::RemoveKnot")],
     SAN, NOTE)

prop("P16", "Swapping, reversing, reparametrising and bounding a surface keep its geometry",
     "Swapping the directions, reversing u, v or both, and reparametrising onto another domain return a valid surface that takes exactly the original points at the correspondingly mapped parameters, also when input and output are the same object; swapping or reversing twice gives the original back. IsClosed answers true exactly for surfaces whose opposite edges coincide. Bounding boxes are built from points of the surface and are attained by it; an oriented box has orthonormal axes, contains all control points, touches them on every face and turns with the surface.",
     "all valid surfaces, directions, target domains, aliasing of input and output",
     "Tests look at one reversed corner and one box.",
     [S + "NurbsSurface.cpp", I + "LNObject.h"],
     [("net rearrangement", "NurbsSurface::Swap/Reverse/Reparametrize"), ("closedness and boxes", "NurbsSurface::IsClosed/GetBoundingBox")],
     SAN, NOTE)

prop("P17", "Surface inversion and closest-point queries",
     "For a point taken from a surface, the parameter search returns a parameter inside the domain whose surface point is that point; for a point off the surface it returns the parameters of the nearest point (the signed distance query agrees with it in magnitude); the search for all parameters returns only parameters that map to the point, at least one for a point of the surface and none twice; on surfaces that are closed in a direction a point at the seam is found. Tessellations of a surface consist of surface points and cover it to its edges.",
     "all regular surfaces, query points at interior, boundary, corner and seam positions and off the surface at moderate distance",
     "Tests invert one point on one surface and compare one parameter.",
     [S + "NurbsSurface.cpp"],
     [("multi-start Newton search with clamped or wrapped parameters", "NurbsSurface::GetParamOnSurface/GetAllParamsOnSurface/ComputeSignedDistanceFunction"), ("tessellation", "NurbsSurface::EquallyTessellate")],
     SAN, NOTE + " The GSA search is a stated heuristic and is not judged.")

prop("P18", "Surface area",
     "The area of a surface by the Simpson, Gauss-Legendre and Chebyshev rules equals the integral of the length of the normal over the domain within the accuracy of the rule, is never negative or NaN, does not change when the surface is swapped, reversed, reparametrised or moved rigidly, scales with the square of a uniform scaling, and is zero for surfaces that collapse to a curve or a point.",
     "all regular and degenerate surfaces, all three rules, and all shape-preserving operations on them",
     "Tests compute the area of two surfaces with one rule each.",
     [S + "NurbsSurface.cpp", A + "Integrator.cpp"],
     [("adaptive and Gaussian double quadrature of the area element", "NurbsSurface::ApproximateArea, Integrator")],
     SAN, NOTE)

prop("P19", "Bilinear, cylindrical, ruled and revolved surfaces and scaling are exact",
     "A bilinear surface blends its four corners bilinearly; a cylindrical surface has every point at the radius from its axis, heights between 0 and the given height and exactly the requested angular range; a ruled surface contains both given curves as edges, joins corresponding points by straight segments, and curves over different domains are refused; a surface of revolution consists of exact circular arcs of the requested angle through the profile points, all around any axis, also for profiles that touch the axis or have weights. Non-uniform scaling maps every point of a rational curve or surface by the same affine scaling about the reference point.",
     "all corner points, frames, angles up to a full turn, axes in any position, profile curves of any degree and weights",
     "Tests build one surface of each kind and evaluate one point.",
     [S + "NurbsSurface.cpp", A + "ControlPointsUtils.cpp"],
     [("constructors", "NurbsSurface::CreateBilinearSurface/CreateCylindricalSurface/CreateRuledSurface/CreateRevolvedSurface"), ("affine maps of control points", "NurbsCurve::CreateTransformed, scaling helpers")],
     SAN, NOTE)

prop("P20", "Surfaces through and near grids of points",
     "The mesh parameters of a point grid are the averages of the normalised chord lengths of its rows and columns. Global interpolation of the requested degrees passes through every grid point at those parameters, also when the numbers of rows and columns and the two degrees differ, and refuses grids that are too small. Bicubic local interpolation passes through every grid point, is continuously differentiable, does not depend on which index is called the row, and follows when the points are scaled or moved. Global approximation returns a net of exactly the requested size which interpolates the corners and is the row-then-column least-squares fit. All of them return the plane itself for a planar affine grid.",
     "all grids from 2x2 to 13x13 with equal and unequal sizes, even and uneven spacing, collapsed border rows or columns, degrees 1 to 5",
     "Tests fit one square grid per routine and check the result is produced or one point.",
     [S + "NurbsSurface.cpp", A + "Interpolation.cpp", C + "NurbsCurve.cpp", I + "MathUtils.h"],
     [("mesh parametrisation", "Interpolation::GetSurfaceMeshParameterization"), ("tensor interpolation", "NurbsSurface::GlobalInterpolation"), ("local bicubic patches", "NurbsSurface::BicubicLocalInterpolation, Interpolation::ComputeTangent"), ("tensor least squares", "NurbsSurface::GlobalApproximation, NurbsCurve::LeastSquaresApproximation")],
     SAN, NOTE)

prop("P21", "Volume points, derivatives, isocurves and cuts",
     "A point of a NURBS volume at any parameter triple of the domain is the rational tensor-product B-spline sum, and lies in the convex hull of the control points for positive weights. Derivatives of every mixed order up to the requested total, also above a degree and for differing degrees, are the derivatives of that rational function (zero order being the point). An isocurve and an extracted section surface are valid, keep the degrees and knots of the directions they run in, and take exactly the points of the volume, also at knots, next to knots and on the boundary.",
     "all valid volumes with degrees 1 to 4, unequal sizes, any interior multiplicities, positive weights over several magnitudes, all three directions, parameters at knots, next to knots and at the ends",
     "Tests evaluate a handful of points of one trilinear or rational block.",
     [V + "NurbsVolume.cpp", I + "NurbsVolume.h"],
     [("tensor evaluation", "NurbsVolume::GetPointOnVolume/ComputeVolumeRationalDerivatives"), ("section extraction", "NurbsVolume::GetIsoCurve/Extract")],
     SAN, NOTE)

prop("P22", "Refining, elevating, splitting, reversing, swapping a volume keep its geometry",
     "Inserting a knot, refining the knot vector and elevating the degree in any of the three directions return a valid volume with exactly the requested knots or degree that takes the same points at every parameter; splitting gives two valid volumes over the two parts of the domain that together are the original; reversing a direction or swapping two directions maps the parameters accordingly and nothing else, and doing it twice gives the original back. None of them changes its input. IsClosed is true exactly for directions whose opposite faces coincide.",
     "all valid volumes, directions, knots (present, full, new, next to present ones), numbers of insertions and elevations",
     "Tests insert one knot, or split one block once, and compare one point.",
     [V + "NurbsVolume.cpp", C + "NurbsCurve.cpp"],
     [("row-wise application of the curve algorithms", "NurbsVolume::InsertKnot/RefineKnotVector/ElevateDegree/SplitAt"), ("net rearrangement", "NurbsVolume::Reverse/Swap/IsClosed")],
     SAN, NOTE)

prop("P23", "Volume point inversion and the validity check",
     "For a point of a regular volume, GetParamOnVolume returns parameters inside the domain which map back to that point, also on faces, edges and corners, across the seam of a volume that is closed in a direction, and for volumes of any size; for a point outside it returns parameters of the domain whose point is nearest up to the resolution of its search. Check accepts every right-handed regular volume and rejects mirrored, folded and collapsed ones.",
     "all regular, mirrored, folded, collapsed and ring-shaped volumes; query points inside, on the boundary and outside",
     "Tests invert one interior point of one block.",
     [V + "NurbsVolume.cpp"],
     [("sampling and Newton search with clamped or wrapped parameters", "NurbsVolume::GetParamOnVolume"), ("Jacobian sampling", "NurbsVolume::Check")],
     SAN, NOTE)

prop("P24", "Vectors, homogeneous points and transformations",
     "Sums, differences, scalings, dot and cross products, lengths, distances, angles and normalisation of two- and three-dimensional vectors, and the algebra and projection of weighted points, are the textbook values to rounding; changing a weight keeps the point. Translation, rotation about any axis through any point, scaling, reflection in the plane n.x + d = 0 and frames given by columns map every point and vector as defined; a product of matrices acts as the composition of its factors, also on weighted points and whole curves; transposes, sums, determinants and inverses are correct and singular matrices are refused; the tests for identity, pure translation and orientation reversal look at every element. A random orthogonal direction is a unit vector orthogonal to the given one for every direction.",
     "all vectors over many magnitudes including parallel, axis-aligned and diagonal ones, all transformations and products of up to five of them, regular and singular matrices",
     "Tests multiply and invert one or two matrices and check single vectors.",
     [M + "Math/XYZ.cpp", M + "Math/UV.cpp", M + "Math/XYZW.cpp", M + "Math/Matrix4d.cpp", M + "Utils/MathUtils.cpp", C + "NurbsCurve.cpp"],
     [("vector types", "XYZ, UV, UVW, XYZW"), ("affine and projective maps", "Matrix4d"), ("curve transformation", "NurbsCurve::CreateTransformed")],
     SAN, NOTE)

prop("P25", "Linear algebra, quadrature, transforms and tolerant comparison",
     "The tolerant comparisons are consistent with each other, symmetric and never true for NaN. Binomials, factorials and angle conversions are exact to rounding. Matrix products, transposes (also in place and into used outputs), columns, determinants, inverses, square, overdetermined and banded solves satisfy their defining equations; singular systems are refused. The cubic solver returns a root of every cubic. Simpson's rule is exact for cubics in one and two variables, the Gauss-Legendre table to degree 47, and Clenshaw-Curtis quadrature meets its tolerance for smooth integrands, evaluates only inside the interval and may reuse its series. The cosine and Fourier transforms equal their sums. Principal axes are orthonormal and uncorrelated.",
     "all matrices up to 14 unknowns with any bandwidth, all tolerances, cubics with simple, multiple and complex roots, all polynomial degrees up to 47, series sizes 30 to 600, transform lengths 2 to 128",
     "Tests solve one system and compare one or two values.",
     [M + "Utils/MathUtils.cpp", I + "MathUtils.h", A + "Integrator.cpp", I + "FFT.h"],
     [("comparison and scalar helpers", "MathUtils"), ("dense and banded linear algebra", "MathUtils::SolveLinearSystem/SolveLinearSystemBanded/MakeInverse"), ("quadrature rules and their tables", "Integrator, dfct/ddct/rdft")],
     SAN, NOTE)

prop("P26", "Lines, planes, projections and octree neighbour search",
     "Two lines are classified as intersecting, skew, parallel or coincident whatever the lengths of their direction vectors, with the intersection point, and the parameters of the point or of the feet of the common perpendicular; a line and a plane likewise. Projection onto a line gives the foot of the perpendicular, projection onto a segment accepts exactly the feet inside it, and the stereographic image lies on the line through the pole. An octree holds every point in exactly one leaf, respects its leaf size, and its radius searches find exactly the points inside the radius and its nearest-neighbour search the true k-th distance.",
     "all line and plane positions with directions of length 0.001 to 100, segments down to 0.0001, point clouds of 1 to 160 points (generic, lattice, collinear, planar, repeated, clustered) over six orders of magnitude, any radius, k and leaf size",
     "Tests intersect two or three fixed lines; the octree has no test at all.",
     [A + "Intersection.cpp", A + "Projection.cpp", A + "Octree/Octree.cpp", A + "Octree/OctreeCollector.cpp"],
     [("closed-form intersections and projections", "Intersection, Projection"), ("spatial subdivision and pruned search", "OctreeConstruction/OctreeRadiusSearch/OctreeKnnSearch")],
     SAN, NOTE)
prop("P27", "Coons, Gordon, loft and sweep surfaces contain their curves",
     "A Coons surface on four anticlockwise curves has them as its edges (u upwards, v to the right) and, for polynomial curves, is their bilinearly blended patch; curves that do not meet at a corner are refused. A Gordon surface contains its whole curve network, and for two by two curves is the blended patch. A loft passes through every section, in order, whatever their degrees, knots, number and weights, at the given parameters when parameters are given. A translational sweep is profile(u)+trajectory(v). A sweep starts and ends with the profile carried rigidly, unmirrored, into the plane normal to the trajectory, is an extrusion along a straight line, and with a given degree has its sections at equal distances along the trajectory.",
     "all clamped curves of degree 1-4 (5 for translational sweeps) with mixed degrees, knots, domains and, where the surface allows it, weights; 2 to 6 sections, 2x2 to 5x5 networks, 2 to 12 profiles; output arguments fresh or already in use",
     "Tests look at four corners of one Coons patch, five points of one loft of equal arcs and the area of one straight sweep; Gordon surfaces have no test.",
     [S + "NurbsSurface.cpp", C + "NurbsCurve.cpp", A + "KnotVectorUtils.cpp"],
     [("blending of compatible ruled, lofted and interpolating surfaces", "CreateCoonsSurface/CreateGordonSurface"), ("interpolation across sections", "CreateLoftSurface"), ("projected normals along the trajectory", "CreateSweepSurface/ProjectNormal")],
     SAN, NOTE)
prop("P28", "Triangulations lie on the surface and cover it once",
     "The grid triangulation of a surface has resolutionU x resolutionV vertices, each the surface point at its recorded parameters, spanning the whole domain, and its consistently oriented faces tile the domain. The Delaunay triangulation has its vertices on the surface, its faces tile the whole domain once, closed surfaces included, and repeating the call repeats the mesh. The Voronoi generator delivers the Delaunay triangulation of its sites (convex hull covered, empty circles, edges reported), also when used again, and everything allocated is released.",
     "all rational surfaces of degree 1-4 on any domain with resolutions 2-9 (grid); height fields and full cylinders (Delaunay); 4 to 200 sites in general position over four orders of magnitude",
     "Tests assert that a mesh has some face at all and count the triangles of one set of four sites.",
     [S + "NurbsSurface.cpp", A + "Voronoi.cpp"],
     [("regular parameter grid", "Triangulate, useDelaunay = false"), ("Fortune sweep over adaptively sampled parameters", "Triangulate, VoronoiDiagramGenerator")],
     SAN, NOTE)
prop("P29", "Knot vector and control point utilities",
     "Multiplicity maps list every distinct knot once with its multiplicity, the internal map leaving out exactly the two ends; continuity at a knot is degree minus multiplicity. Rescaling maps a knot vector affinely onto the new range with its multiplicities kept. Merging knot vectors gives, for two or for many of them, exactly the knots each one lacks, so that each plus its insertions is the union with maximal multiplicities. Uniformity, parameter-range and validity tests answer exactly as defined. The helpers that subdivide or clamp a knot vector return a non-decreasing vector containing the old one. Weighting, unweighting, transforming and transposing control points are inverse to each other and change nothing else.",
     "all knot vectors of degree 1 to 7, any multiplicities and domains, two to six of them at a time, shared and almost shared knots, control nets of any shape",
     "Tests cover two literal knot vectors.",
     [A + "KnotVectorUtils.cpp", A + "ControlPointsUtils.cpp", A + "ValidationUtils.cpp"],
     [("knot multiset algebra", "KnotVectorUtils::GetKnotMultiplicityMap/GetInsertedKnotElement(s)/Rescale"), ("control point conversion", "ControlPointsUtils")],
     SAN, NOTE)
prop("P30", "Calls are pure, repeatable and thread-safe on shared inputs",
     "Every evaluation and construction function is a function of its arguments: repeating a call gives bit for bit the same result whatever was called in between, results do not depend on what the output argument held before, an output that is the input itself gives the same as a separate one, and inputs passed by const reference are left untouched. Threads that call the library at the same time on shared inputs with their own outputs have no data race and get the results a single thread gets.",
     "all curve, surface and volume functions in any order and combination; outputs fresh, used or aliased to the input; two to four threads on the same objects",
     "Tests call each function once on one thread with fresh outputs.",
     [C + "NurbsCurve.cpp", S + "NurbsSurface.cpp", V + "NurbsVolume.cpp", A + "Polynomials.cpp", A + "Integrator.cpp", A + "KnotVectorUtils.cpp", A + "Interpolation.cpp"],
     [("absence of shared mutable state", "function-local tables and statics of Integrator, Polynomials and MathUtils"), ("output written only after all inputs are read", "NurbsCurve/NurbsSurface transformers")],
     "ThreadSanitizer build (also catches use after free) driven by generated workloads; bitwise digests of inputs and results as oracle", NOTE)
prop("P31", "Invalid arguments are refused, before anything is computed or changed",
     "Parameters outside the domain (by more than rounding, NaN and infinities included), non-positive counts, distances, radii and error bounds, zero vectors, indices outside their range, decreasing or empty knot vectors, wrong list sizes and malformed curves, surfaces and Bezier patches are refused with std::invalid_argument or std::out_of_range by every function that names them as a precondition; the refused call leaves inputs and outputs as they were. The Check functions accept every well-formed object and reject every malformed one. Parameters that rounding carried just outside the domain count as its end. Fitting functions given unsuitable numbers of points or control points refuse, report failure or return a valid object, and never read out of bounds.",
     "all functions with preconditions, each precondition broken on its own by generated amounts; any number of points, degrees and control points for the fitting functions",
     "Tests contain no invalid call at all.",
     [I + "LNLibExceptions.h", A + "ValidationUtils.cpp", A + "Polynomials.cpp", C + "NurbsCurve.cpp", S + "NurbsSurface.cpp", I + "BsplineCurve.h", I + "BsplineSurface.h", I + "BezierCurve.h", I + "BezierSurface.h", A + "KnotVectorUtils.cpp", A + "Intersection.cpp"],
     [("argument validation", "VALIDATE_ARGUMENT, VALIDATE_ARGUMENT_RANGE"), ("structural validity", "NurbsCurve::Check, NurbsSurface::Check, BsplineCurve::Check, BezierSurface::Check")],
     SAN, NOTE)
CA = "dotnet/CAPI/"
prop("P32", "The C API gives what the C++ API gives",
     "Every function of the C API returns, for the same data, the values, objects, counts, verdicts and refusals of the C++ function it stands for; enumerations and memory layouts correspond, output arrays receive exactly the reported number of elements and never more than the given maximum, and inputs are not written. All objects returned by one call are valid together and stay so until the next call on the same thread that returns such an object; a result can be passed on to the next call; threads do not disturb each other's results.",
     "all 200-odd exported functions on generated vectors, matrices, knot vectors, curves, surfaces, point sets and grids; capacities below and at the needed number; chains of up to eight calls fed with their own results, on one to four threads",
     "The repository's tests do not build or call the C API.",
     [CA + "src/NurbsCurve_CAPI.cpp", CA + "src/NurbsSurface_CAPI.cpp", CA + "src/Polynomials_CAPI.cpp", CA + "src/Interpolation_CAPI.cpp", CA + "src/Matrix4d_CAPI.cpp", CA + "src/KnotVectorUtils_CAPI.cpp", CA + "include/NurbsCurve_CAPI.h", CA + "src/XYZ_CAPI.cpp", CA + "src/XYZW_CAPI.cpp", CA + "src/UV_CAPI.cpp"],
     [("marshalling between C structures and C++ objects", "FromCAPI/ToCAPI"), ("ownership of returned buffers", "thread_local buffers of ToCAPI")],
     SAN, NOTE)
prop("P33", "Chains of operations keep the geometry",
     "Results can be fed into further operations without limit: after any sequence of insertions, refinements, degree elevations, reversals, reparametrisations, swaps, transformations, splits, extractions, merges of the parts, Bezier decompositions, clampings, isocurves and sections, the object is valid, every further operation accepts it, and each of its points is the point of the original object at the composed parameter map under the composed transformation. Intermediate results that share storage with the output, and objects made by the constructors for arcs, cylinders and revolved surfaces, are no exception.",
     "all histories of 3 to 12 operations on curves, surfaces and volumes (which may become surfaces and curves on the way), any order, outputs fresh or aliased",
     "Tests apply one operation to one literal object; faults that need the result of one operation as the input of another (joints with too many knots, leftover control points, knots equal up to rounding) are invisible to them.",
     [C + "NurbsCurve.cpp", S + "NurbsSurface.cpp", V + "NurbsVolume.cpp", A + "KnotVectorUtils.cpp"],
     [("operations on operands that are themselves results", "NurbsCurve::InsertKnot/RefineKnotVector/ElevateDegree/Reverse/Reparametrize/SplitAt/Merge/Extract/DecomposeToBeziers/ToClampCurve"), ("the same for nets", "NurbsSurface::*, NurbsVolume::*")],
     SAN, NOTE)
