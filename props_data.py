LA = "mml/core/LinAlgEqSolvers/"
WS = "The unit tests compare a few hand-picked numbers; "
p("C01", "Vector algebra satisfies the vector-space and inner-product laws",
  "For vectors of any length, dynamic or fixed-size, addition, subtraction, negation, scaling, dot product and norms give exactly the componentwise results and satisfy the vector-space, bilinearity and norm laws, also when an operand aliases the target. Vectors of different lengths and out-of-range checked indices are refused with the documented exception, leaving the operands unchanged.",
  "all component values, scalars, lengths and indices", WS + "laws must hold for every component value, every length pair and every aliasing of operands.",
  ["mml/base/Vector/Vector.h", "mml/base/Vector/VectorN.h", "mml/base/Vector/VectorTypes.h", "mml/base/BaseUtils/VectorOps.h"],
  [("Vector operators and bounds-checked access", "mml/base/Vector/Vector.h"), ("VectorN operators", "mml/base/Vector/VectorN.h")])
p("C02", "Dense matrix algebra satisfies the matrix ring and module laws",
  "Sums, differences, products, scalings, transposes and matrix-vector products of dense matrices equal their elementwise definitions, obey associativity, distributivity and transposition laws, and stay correct when operands alias. Incompatible shapes are refused with a dimension exception, and the predicates (symmetric, antisymmetric, diagonal, diagonally dominant, identity...) answer exactly by definition.",
  "all entries, scalars and shape pairs up to the stated size", WS + "shape pairs, aliasing and predicate edge cases are a product space no sample covers.",
  ["mml/base/Matrix/Matrix.h", "mml/base/Matrix/MatrixNM.h", "mml/base/Matrix/Matrix3D.h"],
  [("Matrix operators", "mml/base/Matrix/Matrix.h"), ("MatrixNM operators", "mml/base/Matrix/MatrixNM.h")])
p("C03", "Matrix views, sub-blocks, resizing and element access never go out of range",
  "Rows, columns, diagonals, sub-matrices and block views select exactly the requested elements, and writes through them change exactly those elements. Every request outside the matrix, including negative and near-overflow indices and counts, is refused with an exception; resizing preserves the overlapping part when asked to.",
  "every int value of start, count and index, and all entries", WS + "range checks must hold for every integer including overflow corners.",
  ["mml/base/Matrix/Matrix.h"], [("submatrix/block range checks, Resize, at()", "mml/base/Matrix/Matrix.h")])
p("C04", "Structured matrices behave exactly as the dense matrices they represent",
  "Symmetric, tridiagonal and band matrices return the same elements, sums, products and matrix-vector products as the dense matrix they stand for, and converting to dense and back loses nothing. Writes outside the structure and incompatible sizes are refused; the tridiagonal solver satisfies its system or refuses.",
  "all entries, indices and bandwidths up to the stated size", WS + "storage index arithmetic must be right for every index pair and bandwidth.",
  ["mml/base/Matrix/MatrixSym.h", "mml/base/Matrix/MatrixTriDiag.h", "mml/base/Matrix/MatrixBandDiag.h"],
  [("packed index computation", "mml/base/Matrix/MatrixSym.h"), ("band storage", "mml/base/Matrix/MatrixBandDiag.h")])
p("C05", "Direct linear solvers return a solution of A x = b or refuse singular input",
  "Gauss-Jordan, LU (copying and in place), Cholesky and band solvers return x with A x = b for every non-singular system and every right-hand side, for one or several right-hand sides, and agree with each other. Singular matrices (including the zero matrix), non-positive-definite input to Cholesky and mismatched shapes are refused with an exception; input passed by const reference is unchanged.",
  "all matrices and right-hand sides of the stated families", WS + "pivoting decisions depend on the data; every pivot order and zero pattern has to be right.",
  [LA + "LinAlgDirect.h", "mml/base/Matrix/Matrix.h", "mml/base/Matrix/MatrixNM.h"],
  [("pivoted elimination and back-substitution", LA + "LinAlgDirect.h"), ("singularity threshold", LA + "LinAlgDirect.h")])
p("C06", "Determinant, inverse, rank and structure predicates match their definitions",
  "The determinant equals the Leibniz value for every matrix, singular or not, is multiplicative and transpose invariant; inverses satisfy A A^-1 = I; the characteristic polynomial routine satisfies Cayley-Hamilton and yields the same determinant and inverse. Numerical rank equals the number of independent rows, and norms, traces, triangular, diagonal, Hessenberg, symmetric, nilpotent and unipotent tests answer by definition on every shape, square or not.",
  "all entries within the stated families and all shapes up to 3x3", WS + "pivot orders, rank deficits and rectangular shapes are data dependent.",
  ["mml/core/MatrixUtils.h", "mml/base/Matrix/Matrix.h", "mml/base/Matrix/MatrixNM.h", LA + "LinAlgDirect.h"],
  [("Det, FaddeevAlg, RankGaussian, predicates and norms", "mml/core/MatrixUtils.h"), ("Invert", "mml/base/Matrix/Matrix.h")])
p("C07", "Iterative linear solvers perform their method and report convergence truly",
  "Jacobi, Gauss-Seidel and SOR return exactly the iterate their method defines after the reported number of sweeps, from any start vector and tolerance, and stop early only when the relative residual meets the tolerance. They report convergence exactly when the returned residual meets it, never exceed the iteration limit, leave their inputs unchanged, and refuse zero diagonals, mismatched shapes and relaxation factors outside (0,2).",
  "all right-hand sides, start vectors, tolerances and relaxation factors for the stated matrix patterns", WS + "the converged flag and iteration count depend on thresholds that data can cross at any sweep.",
  [LA + "LinAlgEqSolvers_iterative.h"], [("sweep and convergence test", LA + "LinAlgEqSolvers_iterative.h")])
p("C08", "Polynomial arithmetic, division, calculus and interpolation are exact",
  "Polynomial evaluation, sums, products, scalar operations, derivative and integral satisfy the ring laws and the rules of calculus for every coefficient and degree, including empty and zero polynomials. Division returns q and r with u = q v + r and r of smaller degree than v, also when outputs alias inputs, and refuses only the zero divisor; FromValues passes through all its points and refuses duplicates.",
  "all coefficients and degrees up to the stated size", WS + "degree pairs, zero leading coefficients and aliasing are not covered by samples.",
  ["mml/base/Polynom.h"], [("operators, poldiv, Derive, derivative, integral, FromValues", "mml/base/Polynom.h")])
p("C09", "Quaternions satisfy the Hamilton algebra and represent rotations faithfully",
  "Quaternion operations satisfy the Hamilton product, conjugation, norm and inverse laws for every value and aliasing. Unit quaternions rotate vectors by q v q*, preserving lengths and angles and composing with products, and agree with axis-angle (Rodrigues), Euler ZYX/XYZ and rotation-matrix conversions in both directions; Slerp stays on the unit sphere along the shorter arc.",
  "all quaternions, vectors and angles in the stated ranges", WS + "conversion branches depend on which component dominates and on sign combinations.",
  ["mml/base/Quaternions.h"], [("products, Rotate, FromRotationMatrix, Euler conversions, Slerp", "mml/base/Quaternions.h")])
p("C10", "Tensor components, multilinear forms, contractions and variance are exact",
  "Tensors of rank 2 to 5 evaluate the multilinear form of their components, add, scale and contract any pair of indices by summing the shared index, and carry the variance of every remaining index. Impossible variance counts, additions of different variance, out-of-range element indices and invalid index pairs are refused with the tensor exceptions.",
  "all components, arguments, index pairs and variance counts in the stated range", WS + "index permutations grow with rank and dimension.",
  ["mml/base/Tensor.h"], [("Contract, operator(), arithmetic, at", "mml/base/Tensor.h")])
p("C11", "Interval membership and set operations agree pointwise with set theory",
  "For every pair of intervals (open, closed, half-open, half-infinite or the whole line) and every real x, x belongs to the intersection, union, difference or complement exactly when set theory says so, including shared, degenerate and infinite endpoints. Composite intervals contain exactly the union of their parts, with matching bounds, measure and intersection test; equidistant coverings have the requested size and stay inside.",
  "all bounds and test points for all endpoint-kind combinations", WS + "endpoint coincidences of measure zero decide correctness and are never sampled.",
  ["mml/base/Intervals.h"], [("Intersection, Union, Difference, Complement, contains", "mml/base/Intervals.h")])
p("C12", "Angle utilities, points and coordinate systems convert consistently",
  "Degree/radian/sexagesimal conversions and angle normalisation preserve the angle and land in the stated range. Cartesian points obey vector arithmetic and metric laws; converting any point to polar, spherical or cylindrical coordinates and back returns the same point with coordinates in range, and distances computed in those systems equal the Cartesian distance.",
  "all points and angles in the stated ranges, including axes and origin", WS + "quadrants, axes and the poles are single branches of measure zero.",
  ["mml/base/BaseUtils/AngleCoordUtils.h", "mml/base/Geometry/Geometry.h"],
  [("angle and coordinate conversion", "mml/base/BaseUtils/AngleCoordUtils.h")])
p("C13", "Planar lines, segments, circles and boxes answer geometric questions exactly",
  "For all points, directions and radii in range: a line's distance, closest point, perpendicular and intersection satisfy their defining equations; segment-segment intersection reports a point, an overlap or nothing exactly when the point sets share one, including touching, collinear, reversed and degenerate segments. Circles and boxes decide containment, intersection, distance and closest point by their definition, and reject invalid radii, factors and empty point sets.",
  "all coordinates, parameters and radii in the stated ranges", WS + "touching, collinear and degenerate configurations have measure zero.",
  ["mml/base/Geometry/Geometry2DCore/Geometry2DLines.h", "mml/base/Geometry/Geometry2DCore/Geometry2DCircleBox.h"],
  [("SegmentLine2D::Intersection, Line2D::Intersection", "mml/base/Geometry/Geometry2DCore/Geometry2DLines.h"), ("Circle2D, Box2D", "mml/base/Geometry/Geometry2DCore/Geometry2DCircleBox.h")])
p("C14", "Triangles, polygons and planar shapes measure and classify by definition",
  "For every triangle, polygon of up to five vertices and planar shape in range, sides, areas, orientation, centroid, in- and circumcircle, angles, medians and bounding box satisfy their defining identities, and modified triangles do not return stale sides. Point containment, winding number, convexity, simplicity and shape classification answer by definition regardless of vertex order; degenerate and empty figures and bad indices are refused; shape factories reproduce the quantities they were given.",
  "all coordinates and parameters in the stated ranges", WS + "orientation, vertex-aligned rays and degenerate figures are special configurations samples miss.",
  ["mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h", "mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h", "mml/base/Geometry/GeometryCore/Geometry2DShapes.h"],
  [("Contains, WindingNumber, IsConvex, IsSimple, Centroid", "mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h"), ("Triangle2D", "mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h"), ("shape formulas", "mml/base/Geometry/GeometryCore/Geometry2DShapes.h")])
p("C15", "Lines, segments and planes in space answer geometric questions exactly",
  "For every line, segment and plane in range, distances, nearest points, feet of perpendiculars, projections and intersections satisfy their defining equations; parallel, coincident, crossing and skew lines and parallel or crossing planes are told apart correctly whatever the sense of their directions. Lines reported as intersections lie on both planes, nearest points lie on both lines, and null directions, identical points, zero segments and parameters outside a segment are refused.",
  "all positions and offsets, fixed direction pairs and arbitrary single directions", WS + "parallel, coincident, perpendicular and oppositely oriented configurations are special cases samples miss.",
  ["mml/base/Geometry/Geometry3DCore/Geometry3DLines.h", "mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h"],
  [("Line3D::Dist, Intersection, NearestPointOnLine; SegmentLine3D::Dist", "mml/base/Geometry/Geometry3DCore/Geometry3DLines.h"), ("Plane3D", "mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h")])
p("C16", "Triangles, boxes, solids and shapes in space measure and classify by definition",
  "For every position and size, triangles, rectangles, boxes, bounding spheres and solid bodies return sides, areas, volumes, centres and normals satisfying their defining identities; their surface meshes lie on and enclose the body, and bounding volumes contain it. Containment, ray-triangle hits, box set operations and shape factories agree with their definitions, including back-face culling, either vertex order and any longest side; invalid corners, radii, indices and empty point sets are refused.",
  "all positions and sizes in range, fixed edge directions, small mesh divisions", WS + "the identities tie meshes, containment tests, bounding volumes and formulas together over every size and position.",
  ["mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h", "mml/base/Geometry/Geometry3DBodiesCore/Geometry3DBounding.h", "mml/base/Geometry/Geometry3DBodiesCore/Geometry3DCubes.h", "mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h", "mml/base/Geometry/Geometry3DBodiesCore/Geometry3DTorusCylinder.h", "mml/base/Geometry/GeometryCore/Geometry3DShapes.h", "mml/algorithms/CompGeometry/Intersections.h"],
  [("Triangle3D, TriangleSurface3D, RectSurface3D", "mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h"), ("Box3D, BoundingSphere3D", "mml/base/Geometry/Geometry3DBodiesCore/Geometry3DBounding.h"), ("Cube3D, Pyramid3D, Sphere3D, Torus3D, Cylinder3D", "mml/base/Geometry/Geometry3DBodiesCore/"), ("IntersectRayTriangle", "mml/algorithms/CompGeometry/Intersections.h")])
p("C17", "Hulls, clipping, triangulation, smallest circles and closest pairs are exact",
  "For every point set in range the convex hull is a convex counterclockwise polygon over input points containing them all, a clipped polygon contains exactly the subject points inside a convex region of either orientation, ear clipping covers a simple polygon with triangles of the same total area, and a Delaunay triangulation has empty circumcircles and consistent adjacency. The smallest enclosing circle contains every point and is determined by the points on it whatever the random schedule, and no pair of points is closer than the reported closest pair.",
  "point sets of up to 5 points over fixed abscissae, four subject shapes against rectangles and convex regions, every random schedule", WS + "collinear, repeated, touching and clockwise configurations and unlucky random orders are not sampled.",
  ["mml/algorithms/CompGeometry/ConvexHull.h", "mml/algorithms/CompGeometry/PolygonOps.h", "mml/algorithms/CompGeometry/Triangulation.h", "mml/algorithms/CompGeometry/Circles.h"],
  [("ConvexHull2D", "mml/algorithms/CompGeometry/ConvexHull.h"), ("PolygonOps::ClipPolygon", "mml/algorithms/CompGeometry/PolygonOps.h"), ("Triangulation", "mml/algorithms/CompGeometry/Triangulation.h"), ("MinimumEnclosingCircle, ClosestPair", "mml/algorithms/CompGeometry/Circles.h")])
p("C18", "k-d trees answer nearest, k-nearest, radius and range queries like a linear scan",
  "For every tree over the bounded point sets and every query point, the nearest neighbour is at the minimum distance, the k nearest are the k smallest distances in order, a radius query returns exactly the points within the radius and a range query exactly those in the box. Payload indices follow their points, empty trees and degenerate k, radii and boxes give the documented outcome, and the tree shape (size, depth, leaf size) is what was asked for.",
  "trees over up to 7 points in the plane and 5 in space, leaf sizes 1 to 3, every query", WS + "pruning errors need a query in a thin region near a splitting plane or tied coordinates, which samples miss.",
  ["mml/algorithms/CompGeometry/KDTree.h"],
  [("KDTree2D, KDTree3D", "mml/algorithms/CompGeometry/KDTree.h")])
p("C19", "Interpolants reproduce their tables and the functions they are exact for",
  "For every table of values in range, linear, polynomial, rational, barycentric, spline, bilinear, bicubic and parametric-curve interpolants pass through their points, reproduce the polynomials (or rational functions) of their order everywhere, and splines are twice continuously differentiable with the requested end slopes and the exact integral. Bracketing finds the right interval for ascending and descending abscissae, points outside the table and malformed tables are refused as documented, and closed curves close up.",
  "tables of up to 5 points, grids up to 3x4, curves through up to 4 points, every ordinate and query", WS + "interval-boundary and descending-table errors and wrong end conditions show only on particular tables and queries.",
  ["mml/base/InterpolatedFunctions/InterpolatedRealFunction.h", "mml/base/InterpolatedFunctions/Interpolation2DFunction.h", "mml/base/InterpolatedFunctions/InterpolationParametricCurve.h"],
  [("RealFunctionInterpolated::locate and derived interpolants", "mml/base/InterpolatedFunctions/InterpolatedRealFunction.h"), ("BilinearInterp2D, BicubicSplineInterp2D", "mml/base/InterpolatedFunctions/Interpolation2DFunction.h"), ("LinInterpParametricCurve, SplineInterpParametricCurve", "mml/base/InterpolatedFunctions/InterpolationParametricCurve.h")])
p("C20", "Orthogonal polynomials and Chebyshev series satisfy their defining identities",
  "At every point the Legendre, Hermite, Laguerre and Chebyshev families satisfy their three-term recurrences, end values and parities, their norms fit the recurrence as orthogonality demands, and zeros and extrema are where reported. A Chebyshev approximation evaluates its (possibly truncated) series, reproduces every polynomial below its number of terms and interpolates any function at its nodes; its derivative, antiderivative and power form are exact, truncation drops only small coefficients, and bad degrees, domains and term counts are refused.",
  "degrees up to 7, series of up to 6 coefficients, every coefficient, domain and point", WS + "identities must hold at every point and for every coefficient vector; tests compare a few values.",
  ["mml/base/ChebyshevPolynom.h", "mml/algorithms/ChebyshevApproximation.h", "mml/core/OrthogonalBasis/LegendreBasis.h", "mml/core/OrthogonalBasis/HermiteBasis.h", "mml/core/OrthogonalBasis/LaguerreBasis.h", "mml/core/OrthogonalBasis/ChebyshevBasis.h"],
  [("ChebyshevApproximation", "mml/algorithms/ChebyshevApproximation.h"), ("ChebyshevT, ChebyshevU, roots and extrema", "mml/base/ChebyshevPolynom.h"), ("Evaluate, RecurrenceCoefficients, Normalization", "mml/core/OrthogonalBasis/")])
p("C21", "Graphs keep their edges exactly and structural queries agree with reachability",
  "After every history of insertions and removals, edges, weights, degrees and counts are what the history says; adjacency, degree and Laplacian matrices satisfy L = D - A. On every bounded graph BFS, DFS, connected components, topological order, diameter, densities, centralities and page rank agree with their definitions over paths, visitors may stop anywhere, the connectivity bound is a lower bound, and vertices out of range are refused.",
  "all graphs on 3 and 4 vertices with arbitrary weights, histories of 3 operations", WS + "loops, removed edges, disconnected and cyclic structures and either direction of an edge combine in ways tests do not list.",
  ["mml/base/Graph.h", "mml/algorithms/GraphAlgorithms.h", "mml/algorithms/GraphSpectral.h"],
  [("Graph", "mml/base/Graph.h"), ("BFS, DFS, ConnectedComponents, TopologicalSort", "mml/algorithms/GraphAlgorithms.h"), ("centralities, AlgebraicConnectivityBound, PageRank", "mml/algorithms/GraphSpectral.h")])
p("C22", "Shortest paths and spanning trees are optimal for every assignment of weights",
  "For every non-negative weighting of the bounded graphs Dijkstra returns distances no path undercuts, realised by its parent tree and reconstructed paths, and says unreachable exactly when there is no path; Bellman-Ford does so for every signed weighting and reports a negative cycle exactly when one is reachable. Kruskal and Prim return acyclic edge sets no spanning tree undercuts, and report completeness exactly for connected graphs.",
  "all directed graphs on 3 vertices, selected edge sets on 4 and 5, every weight", WS + "optimality must hold for every weight ordering including ties and boundary-negative cycles.",
  ["mml/algorithms/GraphAlgorithms.h", "mml/base/Graph.h"],
  [("Dijkstra, DijkstraPath, BellmanFord, ReconstructPath, Kruskal, Prim", "mml/algorithms/GraphAlgorithms.h")])
p("C23", "Finite-difference derivatives are exact to their order with honest errors",
  "For every polynomial below the order of a formula, every evaluation point and every step, first, second and third derivatives of real functions, curves and surfaces (central, one-sided, Richardson) equal the exact derivative, and one degree higher they miss it by the leading truncation term, so each formula has exactly its advertised order. One-sided formulas sample only their side, reported error estimates bound the truncation error of the polynomials they are made for, and invalid steps are refused.",
  "all polynomial coefficients, points and steps in range", WS + "a wrong weight is hidden by the small default step in tests but shows at every order when decided symbolically.",
  ["mml/core/Derivation/DerivationRealFunction.h", "mml/core/Derivation/DerivationParametricCurve.h", "mml/core/Derivation/DerivationParametricSurface.h", "mml/core/Derivation/DerivationBase.h"],
  [("NDer1..NDer8, NSecDer, NThirdDer, NDerRichardson", "mml/core/Derivation/DerivationRealFunction.h"), ("curve derivatives", "mml/core/Derivation/DerivationParametricCurve.h"), ("surface partials", "mml/core/Derivation/DerivationParametricSurface.h")])
p("C24", "Partials, gradients and Jacobians put the right derivative in the right place",
  "For every multivariate polynomial below the order of a formula, partial and mixed second derivatives of scalar fields, of vector fields and of tensor fields of rank two to four equal the exact partials for every index, point and step, with matching error estimates and untouched evaluation point. Gradients and Jacobians (square and rectangular) contain at each position exactly the partial of that component along that variable.",
  "all coefficients, points and steps in range, every index combination in two and three dimensions", WS + "transposed or repeated indices vanish on symmetric test functions.",
  ["mml/core/Derivation/DerivationScalarFunction.h", "mml/core/Derivation/DerivationVectorFunction.h", "mml/core/Derivation/DerivationTensorField.h", "mml/core/Derivation/Jacobians.h"],
  [("NDerNPartial, NSecDerNPartial", "mml/core/Derivation/DerivationScalarFunction.h"), ("calcJacobian", "mml/core/Derivation/Jacobians.h"), ("NDerNPartial of tensor fields", "mml/core/Derivation/DerivationTensorField.h")])
p("C25", "Dual numbers and forward differentiation obey the rules of calculus",
  "For every pair of dual numbers arithmetic, comparison and compound assignment carry the value and the exact derivative (sum, product, quotient, power rules), and elementary functions carry the chain-rule derivative over their whole domain. Derivatives, gradients, Jacobians and directional derivatives computed through them equal the symbolic derivative at every point, including powers at zero and both signs of the argument.",
  "all values and derivative seeds in range, gradients and Jacobians up to dimension 3", WS + "sign errors and forgotten chain factors vanish for particular seeds; every seed is decided here.",
  ["mml/core/Derivation/ForwardAD.h"],
  [("Dual, elementary functions, gradient, jacobian", "mml/core/Derivation/ForwardAD.h")])
p("C26", "Quadrature rules are exact to their order and report failure honestly",
  "Trapezoid, Simpson, Romberg, Gauss-Kronrod and the Gaussian rules (Legendre, Laguerre, Hermite, Chebyshev, Jacobi) integrate every polynomial of the degree they promise exactly over every interval, in either orientation, with the nodes and weights a rule hands out. Iterated integrals in two and three dimensions compose the same way. When the tolerance is not met the result says so; a rule never reports convergence its two last estimates do not support, and invalid arguments are refused.",
  "all polynomials of the promised degree and all intervals in range, rules up to 8 nodes and the fixed 10 to 31 point rules", WS + "a wrong late digit or node affects one term of one degree only.",
  ["mml/core/Integration/Integration1D.h", "mml/core/Integration/GaussKronrod.h", "mml/core/Integration/GaussianQuadrature.h", "mml/core/Integration/Integration2D.h", "mml/core/Integration/Integration3D.h", "mml/core/Integration/IntegrationBase.h"],
  [("IntegrateTrap, IntegrateSimpson, IntegrateRomberg, IntegrateGauss10", "mml/core/Integration/Integration1D.h"), ("IntegrateGK15..61", "mml/core/Integration/GaussKronrod.h"), ("GaussLegendre, GaussJacobi, ...", "mml/core/Integration/GaussianQuadrature.h"), ("Integrate2D, Integrate3D", "mml/core/Integration/Integration2D.h")])
p("C27", "Adaptive, improper, path, surface and Monte Carlo integrals keep their contract",
  "Adaptive integrators return the sum over the cells they visited with the sum of the cell errors, count every evaluation, respect the depth limit and report convergence only when the estimates meet the tolerance. Improper and singular integrators, line integrals (length, scalar, work) and surface fluxes equal the exact integral on every integrand in the families their transformation makes exact. Monte Carlo estimates equal the mean over the drawn points times the volume for every possible sequence of random draws, with the stated variance.",
  "all integrand coefficients, intervals and random draws in range, depth limit 0 to 3, up to 6 samples", WS + "transformation Jacobians and stratum bookkeeping err only off the sampled integrands.",
  ["mml/core/Integration/GaussKronrod.h", "mml/core/Integration/IntegrationImproper.h", "mml/core/Integration/Integration2DAdaptive.h", "mml/core/Integration/Integration3DAdaptive.h", "mml/core/Integration/MonteCarloIntegration.h", "mml/core/Integration/PathIntegration.h", "mml/core/Integration/SurfaceIntegration.h"],
  [("IntegrateGKAdaptive", "mml/core/Integration/GaussKronrod.h"), ("IntegrateUpperInf, IntegrateLowerSingular, ...", "mml/core/Integration/IntegrationImproper.h"), ("MonteCarloIntegrator, StratifiedMonteCarlo, HitOrMiss", "mml/core/Integration/MonteCarloIntegration.h"), ("PathIntegration, SurfaceIntegration", "mml/core/Integration/PathIntegration.h")])
p("C28", "Root finders keep the bracket and never claim a root they did not find",
  "For every function, a bracketing root finder returns a point inside the bracket, keeps a sign change, reports success only when its documented stopping test holds at the returned point, and reports the value and evaluation counts that really happened; without a sign change it refuses. Bracket expansion and scanning report exactly the sign changes present on their grid. Straight-line and quadratic functions are solved exactly, and exhausted iterations are reported as such.",
  "every function (uninterpreted) on every interval in range, 1 to 4 iterations per method", WS + "a wrong bracket update needs a particular pattern of signs of an arbitrary function.",
  ["mml/algorithms/RootFinding/RootFindingBase.h", "mml/algorithms/RootFinding/RootFindingBracketing.h", "mml/algorithms/RootFinding/RootFindingMethods.h"],
  [("FindRootBisection, FalsePosition, Newton, Secant, Ridders, Brent", "mml/algorithms/RootFinding/RootFindingMethods.h"), ("BracketRoot, FindRootBrackets", "mml/algorithms/RootFinding/RootFindingBracketing.h")])
p("C29", "Polynomial root solvers return all roots",
  "SolveQuadratic, SolveCubic and SolveQuartic return exactly the multiset of roots of every polynomial, real or complex, including double roots, zero roots and degenerate leading coefficients, with the documented count of real roots. The iterative solvers (Laguerre, eigenvalue and Bairstow) return all roots of the polynomials they converge on in closed form, and refuse constants.",
  "all leading coefficients and roots in range; cubics by Cardano numbers or amplitude and angle; quartics in 10 root patterns at every scale and shift", WS + "each branch of the radical formulas is taken only for one sign pattern of the discriminants.",
  ["mml/algorithms/RootFinding/RootFindingPolynoms.h"],
  [("SolveQuadratic, SolveCubic, SolveQuartic", "mml/algorithms/RootFinding/RootFindingPolynoms.h"), ("LaguerreRoots, EigenvalueRoots, BairstowRoots", "mml/algorithms/RootFinding/RootFindingPolynoms.h")])
p("C30", "One-dimensional minimisers never return a worse point than one they saw",
  "For every function, a bracket returned by BracketMinimum has its middle point strictly inside with the lowest value and true stored values; golden section, Brent and derivative searches stay inside the bracket, return the lowest point they evaluated with its true value, report convergence only when higher points enclose it within the tolerance, and keep and report the iteration limit. They converge to the minimum of every parabola and V-shape, also at zero; maximisation is minimisation of the negated function; invalid input is refused.",
  "every function (uninterpreted) for 3 to 5 evaluations, every parabola run to convergence", WS + "a wrong bracket update needs a particular order of function values.",
  ["mml/algorithms/Optimization.h"],
  [("BracketMinimum, GoldenSectionSearch, BrentMinimize, BrentMinimizeWithDeriv, maximisers", "mml/algorithms/Optimization.h")])
p("C31", "Multi-dimensional minimisers follow their method and never make things worse",
  "For every function, Nelder-Mead asks for exactly the points of the simplex method, returns the best point it evaluated with its true value and counts evaluations; the quasi-Newton line searches end at a point with sufficient decrease (and, for BFGS, the curvature condition), never above the start. Directions of conjugate gradients, BFGS and limited-memory BFGS are those of the method for every gradient; the converged flag, iteration count, status and name are truthful. Bad tolerances, limits, starts and simplices are refused.",
  "every function for 4-5 evaluations, every second/third/fourth gradient component, bowls with a symbolic offset", WS + "a wrong simplex or memory update needs a particular order of values or a run longer than the memory.",
  ["mml/algorithms/OptimizationMultidim.h"],
  [("NelderMead, LineMinimizer, Powell, ConjugateGradient, BFGS, LBFGS", "mml/algorithms/OptimizationMultidim.h")])
p("C32", "One-step ODE formulas have their order and solutions store what was computed",
  "Every one-step formula satisfies all order conditions of its advertised order (and its error estimate those of one order less) for every step size and start state, evaluates each stage at its own time, and leaves its input unchanged; Verlet and leapfrog are exact to second order, time-reversible and area preserving for every force. The fixed-step solver applies any one-step formula at equally spaced times with the derivative of the current state. ODE and DAE solutions return exactly the saved points, also through interpolation, splines and parametric curves.",
  "every step size and shift, all rooted trees to order 8, any force field and any one-step method, 1-4 steps", WS + "a wrong coefficient of a high-order formula shows only at one rooted tree.",
  ["mml/algorithms/ODESolvers/ODEStepCalculators.h", "mml/algorithms/ODESolvers/ODERKCoefficients.h", "mml/algorithms/ODESolvers/ODESolverFixedStep.h", "mml/base/ODESystemSolution.h", "mml/base/ODESystem.h", "mml/base/DAESystem.h"],
  [("StepCalculators::*", "mml/algorithms/ODESolvers/ODEStepCalculators.h"), ("ODESystemFixedStepSolver::integrate", "mml/algorithms/ODESolvers/ODESolverFixedStep.h"), ("ODESystemSolution, getSolAsLinInterp", "mml/base/ODESystemSolution.h"), ("DAESolution", "mml/base/DAESystem.h")])
p("C33", "Adaptive ODE steppers and the integrator lose no point and exceed no limit",
  "Consecutive adaptive steps satisfy the order conditions of their method, hand on the derivative of the new state and interpolate between the two ends; a step accepted after a rejection is exactly the step a fresh stepper takes with that size. With any stepper, the adaptive integrator ends exactly at the requested time, saves every output point with the interpolation of the step that contains it, respects the configured minimum and maximum step and step count, counts steps, rejections and evaluations truthfully, and refuses reversed ranges and non-positive intervals.",
  "every step size, state and derivative value in range; integrator runs of up to 4 steps of arbitrary sizes and up to 4 output points", WS + "a stale stage or lost output point needs a particular sequence of rejections and step ends.",
  ["mml/algorithms/ODESolvers/ODESteppers.h", "mml/algorithms/ODESolvers/ODESolverAdaptive.h", "mml/algorithms/ODESolvers/ODERKCoefficients.h"],
  [("DormandPrince5/8, CashKarp, BulirschStoer steppers", "mml/algorithms/ODESolvers/ODESteppers.h"), ("ODEAdaptiveIntegrator::integrate, integrateAt", "mml/algorithms/ODESolvers/ODESolverAdaptive.h")])
p("C34", "Event detection reports every crossing once, in order, and acts on it",
  "During an integration with events every sign change of an event function in the wanted direction is reported exactly once, in time order, at its crossing time within the tolerance and with the interpolated state, value and direction. A stopping event ends the integration at the event and removes later output; a restart event continues from the handled state and is not reported a second time; output points are neither lost nor duplicated. Reversed ranges and non-positive intervals are refused.",
  "any crossing times of one or two event functions, direction filter, action, step sizes and output grid; up to 2 steps", WS + "losing the second of two events needs both crossings in one step in one order.",
  ["mml/algorithms/ODESolvers/ODESolverEventDetection.h", "mml/interfaces/IODESystemWithEvents.h"],
  [("ODEEventDetectionIntegrator::integrateWithEvents", "mml/algorithms/ODESolvers/ODESolverEventDetection.h")])
p("C35", "Stiff solvers solve the equation of every step they return",
  "For every right-hand side and Jacobian, each state returned by backward Euler or BDF2 satisfies the equation of its step within the Newton tolerance, or the solver reports non-convergence after the allowed iterations; steps have the requested size and the last ends exactly at the end of the range with the formula adapted to its length. A Rosenbrock step solves its two stage equations, has second order and its stability function; the adaptive run accepts only steps within tolerance, keeps all limits and counts truthfully.",
  "any right-hand side and Jacobian for 1 equation, every linear system of 2 equations, 1-3 steps of any size", WS + "a residual built from the wrong state converges anyway on the autonomous problems sampled.",
  ["mml/algorithms/ODESolvers/ODESolverStiff.h"],
  [("SolveBackwardEuler, SolveBDF2, Rosenbrock23Solver", "mml/algorithms/ODESolvers/ODESolverStiff.h")])
p("C36", "Descriptive statistics and correlations equal their definitions on every sample",
  "For every sample, with every ordering and pattern of ties, the mean, variance, deviation, moments, median, percentiles, quartiles, extremes, mode, trimmed mean, absolute deviation and the geometric, harmonic and weighted means equal their definitions. Covariance, Pearson correlation and its test statistic, covariance and correlation matrices, average ranks, Spearman and Kendall tau-b equal theirs and do not depend on shifts, positive scales or (ranks) order-preserving changes. Samples without the needed size, spread, sign or matching length are refused.",
  "every sample of up to 5 values and 4 pairs (thorough 7), every ordering and tie pattern", WS + "a wrong rank needs a particular pattern of ties.",
  ["mml/algorithms/Statistics.h", "mml/algorithms/Statistics/StatisticsRank.h"],
  [("Avg, AvgVar, Moments, Percentile, Mode, TrimmedMean, PearsonCorrelation, CovarianceMatrix", "mml/algorithms/Statistics.h"), ("ComputeRanks, SpearmanCorrelation, KendallCorrelation", "mml/algorithms/Statistics/StatisticsRank.h")])
p("C37", "Hypothesis tests and confidence intervals use the right statistic and side",
  "Given the distribution functions, every t, Welch, paired, chi-square and variance-analysis test returns the statistic of its definition with its sign, the right degrees of freedom, the two-sided or right-tail probability, the critical value of the requested level, and rejects exactly beyond it; every confidence interval is the estimate plus and minus critical value times standard error, proportions clamped to [0, 1]. Constant samples give a definite verdict, invalid levels, sizes, counts and tables are refused, and the detailed variants report the same.",
  "every sample of 2-3 values per group, any level, any distribution function (uninterpreted)", WS + "a wrong side or freedom needs unequal group sizes and a borderline statistic.",
  ["mml/algorithms/Statistics/StatisticsHypothesis.h", "mml/algorithms/Statistics/StatisticsConfidence.h"],
  [("OneSampleTTest, TwoSampleTTest, WelchTTest, PairedTTest, ChiSquare*, OneWayANOVA", "mml/algorithms/Statistics/StatisticsHypothesis.h"), ("ConfidenceInterval*", "mml/algorithms/Statistics/StatisticsConfidence.h")])
p("C38", "Fourier, cosine and sine transforms equal their definitions and invert exactly",
  "For every sample, DFT, FFT (forward, inverse and in place), the real half-spectrum and packed transforms, the cosine transform (reference and fast) and the sine transform equal the sums that define them, and each inverse returns the original sample; energy is kept and a shift in time is a phase in frequency. Padding and power-of-two helpers are right for every size; window functions follow their formulas and are symmetric for every size and shape parameter. Empty input, sizes a transform cannot handle and bad window parameters are refused.",
  "every complex or real sample of up to 16 points (thorough 32-64), windows of up to 64 points", WS + "a wrong twiddle for one bin shows only for signals with energy there.",
  ["mml/algorithms/Fourier.h", "mml/algorithms/FourierRealFFT.h", "mml/algorithms/FourierWindowing.h"],
  [("DFT, FFT::Transform, DCT", "mml/algorithms/Fourier.h"), ("RealFFT", "mml/algorithms/FourierRealFFT.h"), ("Windows", "mml/algorithms/FourierWindowing.h")])
p("C39", "Curve fits solve the least-squares problem and report its true quality",
  "For all data a straight-line, general linear or polynomial fit leaves residuals orthogonal to every basis function, and reports the true residual norm, mean squared error, (adjusted) coefficient of determination and rank. The result does not depend on the unit of the data, exact data are met exactly, the detailed variants agree with the plain ones, and impossible requests are refused.",
  "all data of 1-4 points (thorough 6), 2-5 basis functions, polynomial degree 0-3, at fixed abscissae with repeats and dependent bases", WS + "a wrong statistic of a fit shows only for particular counts of points and basis functions.",
  ["mml/algorithms/CurveFitting.h"],
  [("LinearLeastSquares, GeneralLinearLeastSquares, PolynomialFit", "mml/algorithms/CurveFitting.h")])
p("C40", "Coordinate transformations invert exactly and map vectors and tensors right",
  "Every rotation, oblique, orthogonal, general linear, quaternion, Lorentz, polar, cylindrical and spherical transformation maps points by its matrix or formula, its inverse returns the original point, and its component functions agree. Jacobians, basis vectors and the transformation of covariant and contravariant vectors and of tensors of rank 2 to 5 with every index variance follow the chain rule at the right point. Rotations keep lengths and orientation and compose in order, boosts keep the interval, copies are independent, and degenerate axes, matrices and velocities are refused.",
  "every angle, scale, boost and quaternion, every point and vector; tensors of rank 2-5 under linear and quadratic maps", WS + "a wrong index of a transformed tensor needs an asymmetric tensor, a non-orthogonal map and mixed variance together.",
  ["mml/core/CoordTransf.h", "mml/core/CoordTransf/CoordTransf2D.h", "mml/core/CoordTransf/CoordTransf3D.h", "mml/core/CoordTransf/CoordTransfSpherical.h", "mml/core/CoordTransf/CoordTransfCylindrical.h", "mml/core/CoordTransf/CoordTransfLorentz.h"],
  [("CoordTransfWithInverse, transfTensor2-5", "mml/core/CoordTransf.h"), ("CoordTransfCart3DRotation*, CoordTransf3DCart*", "mml/core/CoordTransf/CoordTransf3D.h")])
p("C41", "Metric tensors invert, raise, lower and differentiate covariantly",
  "For every metric the contravariant metric is the inverse of the covariant one, raising and lowering an index are inverse operations that keep the variance of the other index, and Christoffel symbols of both kinds equal the formula from the derivatives of the metric, with their symmetry. Covariant derivatives are compatible with the metric and obey the product rule. The ready-made Cartesian, spherical, cylindrical and Minkowski metrics and the metric of a coordinate transformation equal the inner products of its basis vectors; singular points are refused.",
  "every quadratic metric in 2 and 3 dimensions, every vector and rank-2 tensor, the ready-made metrics at every point", WS + "a wrong Christoffel index needs an off-diagonal metric that varies in that direction.",
  ["mml/core/MetricTensor.h"],
  [("MetricTensorField::GetChristoffelSymbol*, CovariantDerivative*, RaiseIndex, LowerIndex", "mml/core/MetricTensor.h")])
p("C42", "Reference frames always form a consistent forest and keep distances",
  "After every sequence of creating, attaching, moving and destroying reference frames, every frame is listed exactly once by its parent, no frame is its own ancestor, and no frame refers to a destroyed one. Positions in inertial, moving, orbiting and rotating frames follow the stated motion at every time, transform back exactly, and keep distances between simultaneous points; orbits and rotations are periodic; local frames on a sphere use that sphere's radius.",
  "every sequence of 2 operations on 3 frames (thorough 3), any velocity, radius, period, position and time", WS + "a dangling parent needs one particular order of attaching, moving and destroying.",
  ["mml/core/CoordSystem.h"],
  [("ReferenceFrame3D and derived frames", "mml/core/CoordSystem.h")])
p("C43", "Gradient, divergence, curl and Laplacian agree in all coordinates",
  "For every field that the difference formulas differentiate exactly, gradient, divergence, curl and Laplacian equal their definitions in Cartesian, spherical, cylindrical and general metric coordinates, so that one field has one derivative whatever the coordinates; curls of gradients and divergences of curls vanish. Detailed variants return the same values, the right error sums and status, unknown orders are refused, and singular points follow the chosen policy. The predefined radial, magnetic, vortex, saddle, source, dipole, Gaussian and Mexican-hat fields equal their formulas everywhere.",
  "all cubic fields at every point, all linear and quadratic fields in 4-6 directions of curvilinear coordinates, every policy", WS + "a wrong cross term needs a field that varies in that direction off the axes.",
  ["mml/core/FieldOperations.h", "mml/core/Fields.h", "mml/core/SingularityHandling.h"],
  [("ScalarFieldOperations, VectorFieldOperations", "mml/core/FieldOperations.h"), ("Fields", "mml/core/Fields.h"), ("Singularity::SafeDivide", "mml/core/SingularityHandling.h")])
p("C44", "Dynamical systems, fixed points, sections and exponents are what they claim",
  "The ready-made flows and maps equal their equations for every state and parameter, their Jacobians are the derivatives of these, and conservative systems conserve their energy. A fixed-point search performs Newton's steps, reports the residual at the reported point, and classifies by the eigenvalues. Lyapunov exponents are the mean logarithmic stretching of the integrated flow; sections, sweeps and trajectories contain every crossing, local maximum and output point of the run exactly once, and a sweep restores the parameter.",
  "every state and parameter; linear systems of 1-3 dimensions in 12 spectral classes; runs of 2-5 steps (thorough 8) on arbitrary slopes", WS + "a crossing that lands exactly on the section is lost only at that value.",
  ["mml/systems/ContinuousSystems.h", "mml/systems/DiscreteMaps.h", "mml/systems/DynamicalSystemAnalyzers.h", "mml/systems/DynamicalSystemAnalyzer.h", "mml/interfaces/IDynamicalSystem.h"],
  [("LorenzSystem ... DoublePendulumSystem", "mml/systems/ContinuousSystems.h"), ("FixedPointFinder, LyapunovAnalyzer, BifurcationAnalyzer, PhaseSpaceAnalyzer", "mml/systems/DynamicalSystemAnalyzers.h"), ("LogisticMap, HenonMap, StandardMap, TentMap, DiscreteMapLyapunov", "mml/systems/DiscreteMaps.h")])
p("C45", "QR, SVD and the linear-system facade factor and solve exactly at every scale",
  "QR and singular value decompositions reproduce the matrix with orthonormal factors and sorted singular values, and give the exact solution, the least-squares solution or the one of smallest norm; rank, null space, range and pseudoinverse satisfy their definitions for the threshold asked for. The facade chooses a method that solves the given system whatever its unit, shape or rank, its factorizations multiply back to the matrix, and residuals, condition numbers and structure queries equal their definitions for the tolerance of each query. Singular, mis-sized or missing right-hand sides are refused.",
  "17 matrices of up to 5x3 and their transposes, ranks 0-3, at 3 scales; all 2x2 matrices; every right-hand side; all triangular systems up to 3x3 (thorough 4x4)", WS + "a threshold in the wrong unit shows only for matrices of unusual size.",
  ["mml/core/LinAlgEqSolvers/LinAlgQR.h", "mml/core/LinAlgEqSolvers/LinAlgSVD.h", "mml/systems/LinearSystem.h"],
  [("QRSolver", "mml/core/LinAlgEqSolvers/LinAlgQR.h"), ("SVDecompositionSolver", "mml/core/LinAlgEqSolvers/LinAlgSVD.h"), ("LinearSystem", "mml/systems/LinearSystem.h")])
p("C46", "Eigenvalue solvers return true eigenpairs and report non-convergence honestly",
  "The symmetric solvers (Jacobi, QR) return ascending eigenvalues with orthonormal eigenvectors satisfying A v = lambda v, and whatever the iteration limit the result is an orthogonal similarity whose reported residual is what is left off the diagonal. The general solver returns every eigenvalue, complex ones as conjugate pairs in consecutive places whose two columns are the real and imaginary part of the eigenvector, also for block, defective, permutation and coupled matrices. Hessenberg reduction, QR and Francis steps are exact orthogonal similarities on the active block, non-square matrices are refused, and a run that hits its limit reports it.",
  "13 symmetric and 22 general patterns up to 6x6 coupled to an eigenvalue that takes every value of an interval; all 2x2 blocks; every coupling in a frame around the active block of a step", WS + "the coupling of a deflated block matters only for the eigenvectors of matrices with several blocks.",
  ["mml/algorithms/EigenSystemSolvers.h", "mml/algorithms/EigenSolverHelpers.h"],
  [("SymmMatEigenSolverJacobi, SymmMatEigenSolverQR, EigenSolver", "mml/algorithms/EigenSystemSolvers.h"), ("EigenSolverHelpers", "mml/algorithms/EigenSolverHelpers.h")])
p("C47", "Distributions: densities, distribution functions, quantiles agree with theory",
  "For every distribution, every valid parameter and every argument, density, cumulative function, tail and moments have their defining values, parameters and probabilities out of range are rejected, and moments that do not exist throw. Quantiles and critical values invert the cumulative function, and the normal quantile is right at every probability.",
  "closed-form distributions for every location, scale, argument and probability; chi-square, gamma, beta and F against Poisson and binomial sums for integer shapes; t by its trigonometric sums; the normal quantile against interpolated true quantiles over the whole range; critical values at anchored levels", WS + "the far tail of one family, or one branch of an expansion, is reached only by particular shape and argument combinations.",
  ["mml/algorithms/Statistics/Distributions.h"],
  [("NormalDistribution, StandardNormal, LogNormalDistribution, CauchyDistribution, LogisticDistribution, UniformDistribution, ExponentialDistribution, WeibullDistribution, ParetoDistribution", "mml/algorithms/Statistics/Distributions.h"), ("TDistribution, ChiSquareDistribution, FDistribution, GammaDistribution, BetaDistribution", "mml/algorithms/Statistics/Distributions.h")])
