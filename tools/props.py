"""Texts of the properties: title, statement, quantifier, anchors, and how each is decided.
tools/gen.py writes properties.jsonl, MANIFEST.json and the table of DESIGN.md from here."""
PROPS = []
L = "lib/nikfemm/src/"


def p(id, title, statement, over, text, why, files, mech, how, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=[f if f.startswith("python/") else L + f for f in files],
                      mech=[dict(name=n, where=w if w.startswith("python/") else L + w) for n, w in mech], how=how, note=note))


p("A01", "Converting an assembled matrix to compressed form keeps every entry",
  "A symmetric sparse matrix filled entry by entry in any order and then converted to the compressed row format has exactly the accumulated value at every position (both triangles, diagonal included) and zero wherever nothing was stored, whatever the sparsity pattern, including absent diagonal entries and wide indices. Copies of the compressed matrix read the same.",
  ["inputs", "histories"], "every value of every stored entry, over enumerated sparsity patterns, dimensions and insertion orders",
  "the unit tests convert a handful of fixed matrices with a full diagonal in ascending order; a misplaced entry in another pattern or order passes them",
  ["algebra/coo.hpp", "algebra/csr.hpp", "algebra/csr.cpp"],
  [("coordinate-to-compressed conversion", "algebra/csr.cpp: BaseCSR constructors"), ("entry lookup", "algebra/csr.cpp: MatCSRSymmetric::operator()"), ("key packing", "algebra/coo.hpp")],
  "the coordinate matrix is filled with one symbolic real per stored entry, converted, and every entry of the n x n table is compared with the dense symbolic oracle; heap accesses of the conversion are checked by the address sanitiser on every explored path",
  "values are unbounded symbolic reals in a box; patterns, dimensions and orders are enumerated (bounded)")
p("A02", "Sparse matrix-vector products equal the dense definition",
  "For symmetric, upper and lower triangular compressed matrices the product with a vector has, in every component, the value of the dense definition, and the bilinear form of two vectors equals the dense double sum. This holds for every sparsity pattern and every real vector.",
  ["inputs"], "every matrix value and vector value over enumerated patterns", "tests multiply two or three fixed matrices; an index slip in a rarely used pattern passes them",
  ["algebra/math.cpp", "algebra/csr.cpp"], [("products", "algebra/math.cpp: mult overloads")],
  "matrix and vector values are symbolic; result components are compared as polynomials with the dense oracle",
  "polynomial identity over all reals per pattern; patterns enumerated")
p("A03", "Vector kernels compute their definition at every length and aliasing",
  "The vector operations (sum, difference, scaling, element-wise product and quotient, scaled addition, copy, dot product, squared norm and sum) give the mathematical result in every element for every length, including lengths that are not a multiple of any block size and the empty vector. They also do so when the result is one of the operands.",
  ["inputs", "configurations"], "every element value, over enumerated lengths and all operand aliasings", "tests use one short length and no aliasing; a wrong tail loop or unrolled block passes them",
  ["algebra/math.cpp"], [("vector kernels", "algebra/math.cpp")],
  "all elements symbolic; the outputs are compared as polynomials or quotients with the definition",
  "identity over all reals for each enumerated length and aliasing")
p("A04", "The SSOR preconditioner application inverts the SSOR matrix",
  "Applying the symmetric successive over-relaxation preconditioner to a vector yields the solution of the system given by the SSOR factorisation of the matrix with the same relaxation factor: multiplying the factorised matrix with the result gives the vector back. This holds for every relaxation factor strictly between 0 and 2 and every nonzero diagonal.",
  ["inputs"], "every matrix value, vector and relaxation factor over enumerated patterns", "no test looks at a preconditioner on its own; a wrong one only slows convergence, which the solver tests tolerate",
  ["algebra/math.cpp"], [("SSOR sweep", "algebra/math.cpp: multSSORPreconditioner")],
  "the sweep runs on symbolic matrix, vector and omega; M(omega)*z is rebuilt from the definition and compared with r",
  "rational identity over all reals for each pattern of dimension <= 6")
p("A05", "Incomplete Cholesky factors give a symmetric, pattern-exact inverse",
  "The incomplete Cholesky preconditioner is the exact inverse of the matrix whenever the factorisation has no fill-in to drop, and it is always a symmetric operator. Applying its two triangular factors in turn to a vector gives that inverse applied to the vector.",
  ["inputs"], "every positive definite matrix of the enumerated patterns", "no test isolates the factorisation; a wrong factor is still a preconditioner of sorts and the solver tests converge",
  ["algebra/math.cpp", "algebra/csr.cpp"], [("factorisation", "algebra/math.cpp: incompleteCholeskyDecomposition"), ("transposition", "algebra/csr.cpp: MatCSRUpperTri(MatCSRLowerTri)")],
  "matrices are built as L*L^T of a symbolic factor so that square roots stay exact; preconditioner times matrix is compared with the identity",
  "identity over all reals for the enumerated patterns of dimension <= 5")
p("A06", "The conjugate-gradient solvers return what they promise",
  "Each of the four conjugate-gradient solvers (plain, Jacobi, SSOR, incomplete Cholesky) leaves an exact start vector unchanged, keeps the start vector when no iterations are allowed, and on a positive definite system of n unknowns returns, after at most n iterations, a vector whose residual is below the requested tolerance. Its first step minimises the energy along the preconditioned residual, and after two steps the residual is orthogonal to the second search direction.",
  ["inputs"], "every right-hand side and start vector (and every 2x2 positive definite matrix)", "tests solve a few fixed systems from a zero start; exact starts, zero right-hand sides and step lengths are not observed",
  ["algebra/solvers.cpp", "algebra/math.cpp"], [("solver loops", "algebra/solvers.cpp")],
  "the solver loops run in exact real arithmetic on symbolic right-hand sides and starts; residual and step conditions are solver obligations",
  "exact arithmetic, dimension <= 4, iterations <= 3; rounding-driven stagnation is outside the claim")
p("A07", "Imposing a fixed value changes nothing but that unknown",
  "After fixing an unknown to a value, every other equation, evaluated at any vector that has the fixed value in that place, still has its original residual, and the fixed equation says that the unknown equals the value. This holds for several fixed unknowns imposed in any order, also when one of them gets another value later (the last one counts) or the system was copied in between, for constant and for material-dependent matrices, and keeps the matrix symmetric.",
  ["inputs", "histories"], "every matrix, right-hand side, fixed value, material state and order of fixing over enumerated patterns", "the unit test checks one constant case through the final solution",
  ["algebra/system.hpp"], [("elimination", "algebra/system.hpp: System::addDirichletBoundaryCondition")],
  "symbolic system before and after the elimination; free rows compared at symbolic vectors as polynomial identities",
  "identity over all reals, dimension <= 7 (12), up to 3 fixed unknowns")
p("A08", "Material-dependent expressions and matrices evaluate to their definition",
  "An expression built by adding, subtracting and scaling constants, terms and other expressions evaluates, for every material state, to the arithmetic value of what was built. A matrix of such expressions re-evaluated after the state changed equals a freshly built one, whatever its sparsity pattern.",
  ["programs", "inputs", "histories"], "every 2-step program of updates and every coefficient and material value", "no test touches nonlinear expressions apart from one example run",
  ["algebra/non_linear.hpp", "algebra/non_linear.cpp"], [("expression arithmetic", "algebra/non_linear.hpp"), ("re-evaluation", "algebra/non_linear.cpp: NonLinearMatCSRSymmetric::evaluate")],
  "every update program of length two is enumerated, its coefficients and the material state are symbolic, results compared as rational identities; heap accesses checked",
  "identity over all reals for enumerated programs and patterns")
p("G01", "Plane vector operations equal their definitions",
  "Dot and cross product, norm, distance, normalisation, rotation about any point, signed and absolute triangle area, equality and the angle between three points have their mathematical value for every input. Angles are correct in every quadrant and in both turning directions.",
  ["inputs"], "every coordinate and angle", "tests only use these operations through one or two meshes",
  ["geometry/vector.cpp", "geometry/vector.hpp", "geometry/common.hpp"], [("vector operations", "geometry/vector.cpp")],
  "coordinates are symbolic; trigonometric results are tied to exact sine/cosine pairs; results compared as polynomials or decided by the solver",
  "all reals in a box")
p("G02", "Distance to a segment is the distance to its nearest point",
  "The distance from a point to a segment is the distance to the nearest end point when the foot of the perpendicular falls outside, the perpendicular distance otherwise, and zero exactly for points of the segment. A segment whose end points coincide behaves like that point.",
  ["inputs"], "every point and segment", "not tested; used to filter mesh refinement points",
  ["geometry/segment.cpp", "geometry/segment.hpp"], [("point-segment distance", "geometry/segment.cpp")],
  "case split on where the foot falls; the returned value is compared with the exact distance by the solver", "all reals in a box; segments of length >= 0.03 or exactly zero")
p("G03", "Segment intersection is decided correctly in every configuration",
  "Two segments are reported as intersecting exactly when they share a point: proper crossings, touching end points, T-contacts and collinear overlaps intersect, disjoint collinear and separated ones do not. The answer does not depend on the order of the segments or of their end points.",
  ["inputs"], "every pair of segments", "not tested; ties and end-point contacts are measure-zero for sampled inputs",
  ["geometry/segment.cpp", "geometry/segment.hpp"], [("intersection test", "geometry/segment.cpp: segmentsIntersect")],
  "contact configurations are parametrised exactly (ties by construction), all orderings enumerated, truth value an obligation", "orientation determinants zero by construction or >= 1e-3")
p("G04", "Point-in-polygon is decided for every point, ties included",
  "A point is reported inside a simple polygon exactly when it lies in the interior; points level with a vertex or collinear with an edge are classified correctly, and the boundary flag decides the answer for points of the boundary. The answer does not depend on orientation or on the starting corner.",
  ["inputs"], "every point of the plane window for enumerated polygons, every triangle", "tests place a few points in convex regions; degenerate alignments are measure-zero for sampling",
  ["geometry/polygon.cpp", "geometry/polygon.hpp"], [("ray casting", "geometry/polygon.cpp: Polygon::contains")],
  "the point is symbolic, the polygon enumerated, so every comparison is linear and exact; an independent crossing-number oracle gives the truth", "12 (16) polygons incl. nonconvex; free triangles")
p("G05", "Point-in-polygon with a boundary tolerance",
  "With a tolerance, a point within that distance of an edge is classified as a boundary point: it is inside when the boundary counts and outside when it does not. Every other point is classified as without tolerance.",
  ["inputs"], "every point and tolerance for enumerated polygons", "not tested; decides which refinement points and triangles are kept",
  ["geometry/polygon.cpp", "geometry/segment.cpp"], [("tolerant containment", "geometry/polygon.cpp: Polygon::contains")],
  "as G04, with the exact squared edge distance as oracle", "9 (12) polygons, tolerance 0, 1/4 or symbolic")
p("G06", "Orientation, box and point-in-triangle predicates are exact",
  "The orientation of three points is counter-clockwise for left turns, clockwise for right turns and collinear for points of one line, including repeated points. A point is in a triangle exactly when its barycentric coordinates are nonnegative, for both orientations and every starting corner; the same holds for the elements of a mesh. A point is in a segment's box exactly when both coordinates are between those of the ends, a segment's length is the distance of its ends, and two segments are equal exactly when they have the same two ends in either order.",
  ["inputs"], "every triple and quadruple of points", "tests only reach the two general orientations",
  ["geometry/common.hpp", "geometry/segment.cpp", "mesh/mesh.hpp"], [("predicates", "geometry/common.hpp"), ("segments", "geometry/segment.cpp"), ("elements", "mesh/mesh.hpp: MeshData")],
  "points parametrised by turn and by barycentric coordinates; predicate value is the obligation", "determinants >= 1e-6 or zero by construction")
p("G07", "The enclosing circle contains every point and is the smallest one",
  "The circle through three points passes through all three, the circle on a diameter is centred in the middle, and the minimum enclosing circle of a point set contains every point and is not larger than the smallest circle that does. This holds wherever the points lie relative to the origin. A circle contains the points of its boundary, and circles are equal exactly when centre and radius are.",
  ["inputs"], "every placement of 1..5 points", "tests build meshes centred at the origin, where a misplaced reference point cancels",
  ["geometry/circle.cpp", "geometry/circle.hpp"], [("Welzl recursion", "geometry/circle.cpp")],
  "shapes with known smallest circle under a symbolic similarity plus free small sets; containment and radius are obligations", "1..5 points; the shuffle uses a fixed sequence")
p("G08", "Containment of one polygon in another",
  "A polygon is reported to contain another one exactly when the other one's whole area, and not only its corners, lies inside or on its boundary. Shared corners and shared edges count as contained; leaving through a notch of a nonconvex polygon does not.",
  ["inputs"], "every placement of the enumerated figures", "not tested; nesting decides which figure a mark, an integral or a magnet edge belongs to",
  ["geometry/polygon.cpp"], [("nesting test", "geometry/polygon.cpp: Polygon::contains(Polygon)")],
  "figures shifted by symbolic vectors against fixed ones; truth derived from orientation signs or known by construction", "corners at least 1e-3 away from the other figure's lines where positions are free")
p("D01", "Drawn figures become exactly their corners, edges and outlines",
  "Drawing a rectangle, circle or polygon adds its corners, the closed chain of edges between consecutive corners and one recorded outline; corners and edges shared with earlier figures, and single points drawn again, exist once and every edge names two different existing points. A figure with an edge that crosses an earlier edge or touches one it shares no corner with, that crosses itself, or that has no corners, is rejected.",
  ["inputs", "histories"], "every position and size of the figures, every position of the free corner", "tests draw a few fixed figures and never a crossing one",
  ["drawing/drawing.hpp"], [("figures", "drawing/drawing.hpp: drawRectangle, drawCircle, drawPolygon"), ("point reuse and crossing test", "drawing/drawing.hpp: drawSegment")],
  "figures with symbolic coordinates are drawn and the stored points, segments and outlines compared; crossing pairs are decided by orientation signs of the symbolic corner", "orientation determinants at least 1e-3; edges that overlap from a common corner on are outside the claim")
p("D02", "Materials get one number each, and the number gives the material back",
  "Marking an area with a material adds one mark at that position; equal materials share one number, materials that differ in any component get different numbers, and a number always gives back the material it was given for. Numbers stay valid while more materials are added, and an unknown number is rejected.",
  ["inputs", "histories"], "every pair of materials, every pattern of equal marks", "tests mark one or two areas; a material that differs in one component only is not among them",
  ["drawing/drawing.hpp", "magnetostatic/properties.hpp", "magnetostatic/properties.cpp", "current_density/properties.cpp"], [("material table", "drawing/drawing.hpp: drawRegion, getRegionId, getRegionPtrFromId"), ("equality of materials", "magnetostatic/properties.cpp")],
  "materials with symbolic components, equal or differing in one chosen component; numbering and lookups are obligations", "differences at least 0.01; 4 material curves")
p("D03", "Moving a drawing or polygon moves all of it and nothing else",
  "Translating a drawing shifts every point, material mark and outline by the vector and keeps the edges, materials and counts. Translating or rotating a polygon moves each corner rigidly, and polygons compare equal exactly when they have the same corners in the same order.",
  ["inputs"], "every displacement and angle", "not tested; a forgotten mark or outline only shows in later material lookups",
  ["drawing/drawing.hpp", "geometry/polygon.cpp"], [("translation", "drawing/drawing.hpp: translate"), ("polygon motion", "geometry/polygon.cpp")],
  "symbolic displacement and angle; every coordinate is compared as an expression", "12 (16) polygons")
p("D04", "Corner refinement adds points only where they are wanted",
  "The feature size of a drawing is the smallest distance between a corner or single point and an edge it does not lie on. Refinement adds, around every corner sharper than 120 degrees, points on a small ring of a hundredth of that size that are inside a figure and not close to the corner's two edges, and changes nothing else.",
  ["inputs"], "every scaling and shift of the enumerated figures", "not tested; a stray refinement point outside a figure changes the mesh silently",
  ["drawing/drawing.hpp", "geometry/segment.cpp"], [("refinement", "drawing/drawing.hpp: addRefiningPoints, getCurrentEpsilon")],
  "the ring is computed exactly for the unit figure and mapped by the symbolic similarity; the added points must be that set", "points exactly at the distance limit may go either way")
p("D05", "The material of a figure is the one marked in its own area",
  "The material of an outline is the material marked inside it but in none of the outlines it contains, whatever the order in which figures and marks were drawn. An outline without a mark, or one that was never drawn, is rejected.",
  ["inputs", "histories"], "every position of the mark in nested drawings", "tests have one figure per mark",
  ["drawing/drawing.hpp", "geometry/polygon.cpp"], [("material of a figure", "drawing/drawing.hpp: getPolygonProp")],
  "the mark is a symbolic point of its cell in enumerated nesting trees and drawing orders", "mark at least 0.01 away from other figures")
p("M01", "The mesher gets the whole drawing and the mesh is its answer",
  "Meshing hands the mesher every point, edge and material mark of the drawing, with its number, the requested minimum angle and the requested area limit whatever its magnitude. Points, triangles and their materials of the mesh are the mesher's, and the drawing is kept.",
  ["inputs"], "every coordinate of the drawing, enumerated area limits over 300 orders of magnitude", "tests mesh two fixed drawings with one area limit",
  ["mesh/mesh.hpp"], [("mesher call", "mesh/mesh.hpp: Mesh::mesh")],
  "the mesher is replaced by a stub that records its input; symbolic coordinates must arrive unchanged, the option text is parsed; memory accesses are sanitised", "area limits and angles are concrete (text formatting)")
p("M02", "Gradient, curl and triangle measures are exact for linear fields",
  "For a field given at the corners, gradient and curl per triangle are those of the linear interpolant: they explain the differences along every edge, and the curl is the gradient turned by a quarter (y-derivative, minus x-derivative). Area, signed area and center of a triangle and the mesh's tolerance (half of the shortest edge) follow their definitions for every corner order.",
  ["inputs"], "every triangle and field, small meshes with free placement", "tests compare totals on a fixed mesh; a sign or an index slip cancels in squares",
  ["mesh/mesh.hpp"], [("derivatives", "mesh/mesh.hpp: computeCurl, computeGrad"), ("tolerance", "mesh/mesh.hpp: computeEpsilon")],
  "corner coordinates and field values are symbolic; the identities are rational equations discharged by normal form or z3", "doubled triangle area at least 1e-3")
p("M03", "The exterior map turns the disc inside out",
  "An interior point of the exterior disc is mapped along its own ray so that its distance and the original distance multiply to the squared radius, points on the rim stay, and distances beyond the cap of a hundred radii are cut to the cap. The center itself goes to the cap at a finite point.",
  ["inputs"], "every point and radius", "tests never look at mapped coordinates",
  ["mesh/mesh.hpp"], [("inversion", "mesh/mesh.hpp: kelvinTransformCentered")],
  "symbolic points and radii; both branches of the cap are explored", "points at least 1e-6 from the center, and the center")
p("M04", "The exterior disc is joined to the mesh without losing or mixing anything",
  "Joining the exterior disc keeps the mesh's own points and triangles, adds the disc's triangles with the surrounding material, uses the mesh's own rim points for the disc's rim and the inverted disc points for the rest. Every corner number is valid, also when the mesher split a rim edge on one side only.",
  ["inputs"], "every radius and inner point, enumerated rims and orders", "tests check only the final solution on one mesh",
  ["mesh/mesh.hpp"], [("join", "mesh/mesh.hpp: addKelvinBoundaryConditions")],
  "the mesher is stubbed to return a disc fan with symbolic inner points; the joined arrays are compared corner by corner; memory accesses are sanitised", "rims of 4..6 (9) points")
p("M05", "Area, mass, center of mass and inertia of a figure are its exact integrals",
  "For a point inside the drawing, area, mass, center of mass and moment of inertia about any center are the exact integrals over the innermost figure around the point, in the coordinates of the drawing. This holds for nonconvex figures and figures holding others, wherever the drawing lies.",
  ["inputs"], "every stretching, placement and reference point of the meshed figures", "not tested; the errors vanish for convex figures at the origin and for point masses",
  ["mesh/mesh.hpp", "geometry/polygon.cpp"], [("integrals", "mesh/mesh.hpp: computeAreaIntegral, computeMass, computeBarycenter, computeInertiaMoment")],
  "closed polygon formulas with symbolic stretching, shift, mesh center and reference point against the code's sums over triangles", "7 meshed drawings")
p("M06", "The innermost figure around a point is found",
  "Among the figures that contain a point, the one that contains no other of them is found, for every drawing order and for meshes recentred anywhere. A point outside every figure is rejected.",
  ["inputs", "histories"], "every point of the plane window", "not tested",
  ["mesh/mesh.hpp", "geometry/polygon.cpp"], [("search", "mesh/mesh.hpp: getInnermostPolygon")],
  "the point is symbolic, figures and orders enumerated; oracle: containing figure of least area", "points off the lines")
p("M07", "Pictures show the whole mesh, centred and undistorted",
  "The bounding box used for pictures holds every mesh point, and the scaling maps every point of the mesh (or of the disc, when clipped to it) inside the picture, centred, not mirrored, with the same share of width and height.",
  ["inputs"], "every mesh placement and picture size", "not tested; pictures are only looked at",
  ["mesh/mesh.hpp"], [("placement", "mesh/mesh.hpp: getMeshBoundingBox, getMeshScaleOffset")],
  "symbolic scale, shift and picture size; containment inequalities decided by z3", "6 meshes")
p("M08", "Refinement around magnets follows the magnets' edges and nothing else",
  "The optional refinement of magnets adds points close to every edge of every magnet (the innermost figures whose mark has a magnetisation), inside the magnet, and nowhere else. The points keep a distance from each other and from all corners, so that the mesher is not given nearly coinciding points, and existing points, segments, figures and marks stay.",
  ["inputs", "configurations"], "every placement and magnetisation over enumerated drawings", "no test uses the option",
  ["magnetostatic/mesh.cpp", "geometry/polygon.cpp", "drawing/drawing.hpp"], [("magnet refinement", "magnetostatic/mesh.cpp: refineMeshAroundMagnets")],
  "placement and magnetisation symbolic; every added point is located against the figures with an independent point-location formula", "8 drawings; distances of the order of a tenth of the drawing's smallest distance")
p("V01", "Colours of a picture follow the field value and stay in range",
  "The colour scale runs from blue over cyan, green and yellow to red continuously between the lower and the upper limit, and values outside are clipped to its ends. All channels are between 0 and 255 for every value, also when both limits are equal. The helpers behind pictures map a range linearly onto another and limit values to a range.",
  ["inputs"], "every value and pair of limits", "not tested",
  ["utils/utils.cpp"], [("colour scale", "utils/utils.cpp: val2jet")],
  "value and limits symbolic; piecewise linear formula compared per branch", "range of width at least 0.001 or exactly zero")
p("V02", "Pictures show every part at its place and in the colour of its value",
  "A picture of a drawing shows every segment, point and mark, centred and filling the picture, wherever the drawing lies and whatever its unit. A picture of a field paints every triangle, or the cell of every node that has triangles, at its place in the colour of its value between the 10th and the 90th percentile, with mesh edges, the drawing (triangle fields) and marks on request; clipped pictures leave out what reaches beyond one and a half times the problem's radius. A picture of a matrix colours its entries between the smallest and the largest. Writing a picture to a file writes one picture of the wanted size, showing the whole field with y growing upwards, the norm of a vector field, or the drawing.",
  ["inputs", "configurations"], "every placement and unit, every field value in turn over enumerated drawings and meshes", "no test draws a picture",
  ["drawing/drawing.hpp", "mesh/mesh.hpp", "algebra/csr.cpp"], [("drawing", "drawing/drawing.hpp: plotRend"), ("fields", "mesh/mesh.hpp: NodeScalarPlotRend, ElemScalarPlotRend"), ("matrix", "algebra/csr.cpp: BaseCSR::plot")],
  "OpenCV's primitives are replaced by recorders; placement, unit and one field value symbolic; recorded shapes compared with the expected pixels (one pixel tolerance) and colours with the piecewise linear scale",
  "enumerated drawings and meshes; the primitives themselves and the encoding of image files are outside the claim")
p("F01", "The conductance matrix of a meshed conductor is the exact one",
  "The equations of a meshed conductor hold, for every pair of nodes, the integral of conductivity times thickness times the product of the gradients of the two nodes' linear shape functions, each triangle with its own material, and no injected currents. This is so for every triangle shape, corner order and number of triangles around a node; a node outside every triangle is rejected.",
  ["inputs"], "every mesh placement, conductivity and thickness over enumerated topologies", "tests solve one or two strips and look at totals; a wrong share of one triangle, a material slip or a crowded node passes them",
  ["current_density/mesh.cpp", "mesh/mesh.hpp", "drawing/drawing.hpp"], [("assembly", "current_density/mesh.cpp: getFemSystem")],
  "node positions, conductivities and thickness are symbolic; every matrix entry is compared as a rational expression with the sum of the edge-vector formula over the triangles; heap accesses sanitised",
  "identity over all reals in the boxes; topologies enumerated")
p("F02", "The field equations hold every triangle's reluctance and current",
  "The magnetic equations of a mesh hold, for every pair of nodes and every state of the material, the integral of the inverse permeability of each triangle times the product of the gradients of the shape functions. Every corner of a triangle receives a third of the triangle's current, whatever the corner order and however many triangles meet at a node.",
  ["inputs"], "every mesh placement, current density and permeability of every triangle over enumerated topologies", "tests run examples and compare nothing of the assembled equations",
  ["magnetostatic/mesh.cpp", "algebra/non_linear.hpp", "algebra/non_linear.cpp"], [("assembly", "magnetostatic/mesh.cpp: getFemSystem")],
  "positions, currents and one permeability per triangle are symbolic; matrix and right-hand side are evaluated and compared as rational expressions; heap accesses sanitised",
  "identity over all reals in the boxes; topologies enumerated")
p("F03", "Magnets act through the jump of magnetisation along edges",
  "Permanent magnets enter the equations as a current along every edge where the magnetisation changes, of the strength magnetisation cross outward normal, half of it assigned to each end of the edge. Magnets with holes, nested or adjacent magnets, several marks of one magnet, lone magnets and nonconvex ones all follow this rule, in addition to ordinary currents.",
  ["inputs"], "every magnetisation, placement and stretching over enumerated meshed drawings", "one example contains magnets, and nothing compares its field with anything",
  ["magnetostatic/mesh.cpp"], [("magnetisation", "magnetostatic/mesh.cpp: getFemSystem")],
  "magnetisation components, current and placement symbolic; each right-hand side entry is compared with the sum of edge jumps computed from the triangles' materials",
  "12 meshed drawings")
p("F04", "The potential is pinned at the three outermost nodes",
  "The far-field condition fixes the potential to zero at exactly three nodes, and no other node of the mesh is further from the origin than these.",
  ["inputs"], "every position of two of the nodes", "a wrong node still gives a solvable system, which is all the tests see",
  ["magnetostatic/mesh.cpp", "algebra/system.hpp"], [("far-field condition", "magnetostatic/mesh.cpp: addDirichletInfiniteBoundaryConditions")],
  "node coordinates symbolic; the pinned rows are recognised from the changed equations and compared by exact distance",
  "4..8 (10) nodes, at least three of them away from the origin")
p("S01", "A layered conductor combines its layers and the resistors between them",
  "The system of a single- or multi-layer current simulation holds every layer's own conductance matrix, with that layer's thickness, as one block, and one conductance 1/R between the two terminals of every interconnection. Resistors in parallel add up, a resistor between two terminals at the same node changes nothing, and every terminal is a point of the mesh of its layer, which is refined all around it nearer than the nearest edge. A layer whose thickness is not given is one unit thick; refining points are added exactly on request.",
  ["inputs", "configurations"], "every resistance, conductivity, thickness and placement over enumerated layers and wirings", "one test strings two layers together and looks at one number; doubled or overwritten conductances pass other wirings",
  ["current_density/simulation.cpp", "current_density/simulation.hpp", "current_density/mesh.cpp"], [("assembly", "current_density/simulation.cpp: generateSystem")],
  "the mesher is replaced by a stub that returns prepared meshes; thicknesses, conductivities and resistances symbolic; every entry of the combined system is compared with the blocks plus the wiring's Laplacian",
  "2 and 3 layers of up to 5 nodes, 12 wirings")
p("S02", "A voltage is imposed at the node nearest to the given point and nowhere else",
  "Setting a voltage turns the equation of the mesh node nearest to the given point, in the given layer, into 'potential equals the voltage'. All other equations keep their meaning, also when several voltages are set or one node is set twice.",
  ["inputs", "histories"], "every point, voltage and pair of voltages", "tests use points that are corners of the drawing",
  ["current_density/simulation.cpp", "algebra/system.hpp"], [("voltage", "current_density/simulation.cpp: setVoltage")],
  "the point, the voltages and the matrix are symbolic; the changed row is found from the equations and its node compared by exact distance",
  "1..3 layers of up to 8 nodes, at most two voltages")
p("S03", "Power density is conductivity times squared field in every triangle",
  "The power density computed from node potentials has one value per triangle of each layer, equal to the conductivity of that triangle's material times the squared gradient of the linear interpolation of its corner potentials. The potentials of a layer are taken from that layer's part of the solution.",
  ["inputs"], "every potential, conductivity and placement", "tests compare totals of one strip",
  ["current_density/simulation.cpp", "mesh/mesh.hpp"], [("power density", "current_density/simulation.cpp: computePowerDensity")],
  "potentials and conductivities symbolic; values compared as rational expressions", "1..3 layers of up to 8 nodes")
p("S04", "Permeability follows the material's B-H curve",
  "For a material with a B-H curve the permeability at a flux density is the slope dB/dH of the curve's segment that contains it, the slope of the first or last segment outside of the curve, and never anything read from beyond its points. A material without a curve has its constant permeability and is linear; a curve of a single point is rejected. In the catalogue vacuum and air have the permeability 4e-7 pi, no material is below it at any flux density, and iron saturates.",
  ["inputs"], "every curve of the given sizes and every flux density", "no test has a material with a curve",
  ["magnetostatic/properties.cpp", "magnetostatic/properties.hpp"], [("curve", "magnetostatic/properties.cpp: MagnetostaticProp::getMu")],
  "points of the curve and the flux density symbolic; result compared with the slope of the segment that holds it; heap accesses sanitised",
  "curves of up to 5 (8) points")
p("S05", "Nonlinear iterations move the permeability from its old value towards the curve",
  "Each nonlinear iteration leaves the permeability of linear materials alone and replaces that of every saturating triangle by a weighted mean of the value of its own curve at its own field and the old value, the latter raised by 4e-7 pi times the square of the last balance error. The weight of the old value is one in the first iteration and falls by a factor e every five iterations.",
  ["inputs", "histories"], "every field, old value and residual", "no test has a material with a curve",
  ["magnetostatic/simulation.cpp", "magnetostatic/properties.cpp"], [("update", "magnetostatic/simulation.cpp: MagnetostaticSimulation::updateMu")],
  "field, old values and residual symbolic; betweenness decided by z3", "up to 4 triangles, 7 iteration numbers")
p("S06", "Force and torque on a body are those of the field in the shell around it",
  "The force and torque on a body come from an auxiliary function that is one on the body and everything inside it and zero on and beyond the nearest surrounding figure and on other bodies: with no node in between they equal the exact integral of the field's stress against its gradient, times depth, torque about the given absolute point. A uniform field gives no force or torque whatever lies in between, no field gives none, and a body without surroundings is rejected.",
  ["inputs"], "every field strength, depth, placement and point of reference over enumerated meshed drawings", "no test computes a force",
  ["magnetostatic/simulation.cpp", "mesh/mesh.hpp", "algebra/solvers.cpp"], [("shell", "magnetostatic/simulation.cpp: getSurroundingRegionBlockIntegralAssets"), ("integrals", "magnetostatic/simulation.cpp: computeForceIntegrals, computeTorqueIntegral, computeStressIntegral")],
  "field strength of one triangle at a time (or everywhere), depth, placement and reference point symbolic; the public integrals run with the real solver and are compared with the stress integral; heap accesses sanitised",
  "7 meshed drawings; field directions enumerated; with free nodes only uniform fields, zero fields and one varying one")
p("S07", "The magnetic system surrounds the drawing with air out to an exact exterior",
  "Generating the magnetic system moves the drawing's center to the origin, encloses all of it, for any size and mesh fineness, in one closed boundary polygon on a circle of radius well beyond the drawing, marks the gap as air, and attaches an exterior that has exactly the boundary's corners. The equations are those of all triangles with their materials and currents, and three nodes are pinned at zero.",
  ["inputs", "configurations"], "every placement, current and permeability over enumerated drawings and area limits", "tests use two drawings with fine meshes; a coarse limit or a small drawing loses the boundary",
  ["magnetostatic/simulation.cpp", "mesh/mesh.hpp", "drawing/drawing.hpp", "geometry/circle.cpp"], [("pipeline", "magnetostatic/simulation.cpp: generateSystem"), ("exterior", "mesh/mesh.hpp: addKelvinBoundaryConditions")],
  "the mesher is replaced by a stub that records what it is asked and answers with a fan; placement, current and permeability symbolic; geometry of the boundary and every equation compared",
  "6 drawings, 7 area limits; the mesher itself is outside the claim")
p("S08", "Solved potentials satisfy the imposed values and the balance at every free node",
  "Solving a conductor, layers joined by resistors, or a field of linear materials returns one potential per node. Nodes with an imposed value have it, and at every free node the original equations balance within the solver's tolerance.",
  ["inputs"], "every voltage or current density over enumerated meshes and electrodes", "tests solve three fixed problems and compare one number",
  ["current_density/simulation.cpp", "current_density/multilayer_simulation.cpp", "magnetostatic/simulation.cpp", "algebra/solvers.cpp"], [("solution", "current_density/simulation.cpp: solve"), ("layers", "current_density/multilayer_simulation.cpp: solve"), ("field", "magnetostatic/simulation.cpp: solve")],
  "system generation, imposition and the solver loop run in exact arithmetic on symbolic voltages or currents; the residual of independently assembled equations is bounded by z3",
  "meshes of up to 8 nodes, one symbolic excitation; rounding and nonlinear materials are outside the claim")
p("S09", "Fields of saturating materials are iterated until their balance is met",
  "Solving a field in which any triangle's material saturates starts from the permeabilities of no field. Every round solves the balance of the current permeabilities, moves the permeabilities with the field of that potential, and the rounds end with the first potential that meets the balance of the moved permeabilities within 1e-7 when these have arrived at their curves, or after 500 rounds: permeabilities still on their way never end them. Imposed values count in every balance. Linear materials are solved once.",
  ["inputs", "histories"], "any potential in a round, any mixture of materials, any balance error around the tolerance", "no test solves a saturating material",
  ["magnetostatic/simulation.cpp", "magnetostatic/properties.cpp", "algebra/non_linear.cpp"], [("rounds", "magnetostatic/simulation.cpp: solve"), ("one step", "magnetostatic/simulation.cpp: updateMu")],
  "the linear solvers are replaced by a stub (A06 decides them) that returns symbolic potentials; the matrix and right-hand side of every round are compared with independently assembled ones, and the end with the independently computed balance error",
  "ends at the listed rounds only; whether the rounds converge is outside the claim")
p("P01", "Python calls pass every argument on and bring every result back",
  "A simulation built through the Python module behaves as the same one built in C++. Thicknesses, rectangles, polygons, regions, resistors and voltages reach the layer they are meant for with exactly the given numbers, whether given as floats or whole numbers; generate_system passes on refinement (on by default), largest area (1) and smallest angle (33), and returns the triangles of every layer with node numbers counted through all layers, and the points. solve returns layer, place and voltage of every node, layer and corners of every triangle, and every triangle's power density. Calls with a wrong number or type of arguments, points that are not two numbers, or a layer that does not exist raise an exception and change nothing.",
  ["inputs", "configurations"], "every number of a drawing, of its materials, resistors, voltages and potentials over enumerated programs of calls", "the one Python script needs packages that are not there and looks at nothing",
  ["python/nikfemm.cpp"], [("conversions", "python/nikfemm.cpp: the methods of MultiLayerCurrentDensitySimulation")],
  "the module's code is executed symbolically with a real interpreter (libpython passes symbolic numbers through); mesher inputs, systems, meshes and results are compared with those of the same program in C++; the mesher and the linear solver are stubbed",
  "programs of up to 3 layers; sharing a system between simulations, exceptions of the library itself and reference counts are outside the claim")
