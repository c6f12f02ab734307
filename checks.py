"""Per-property configuration: harness, bounds, obligations that must be reached, assumptions."""
COMMON_ASSUMPTIONS = [
    "doubles are exact real numbers: rounding, overflow and signed zeros are outside the claim; an obligation that differs only below 1e-9 of its scale counts as holding",
    "symbolic inputs range over the stated boxes; sizes, topologies and orders are the enumerated ones; larger ones are outside the claim",
    "a counterexample is reported only when the uninstrumented build (g++ -O3 -mavx, or an address-sanitised build for crashes) reproduces it",
]
CHECKS = {}


def P(pid, bounds, expect, harness=None, **kw):
    CHECKS[pid] = dict(harness=harness or [pid + ".cpp"], bounds=bounds, expect=expect, **kw)


P("A01", "dimensions 1..12 (thorough 14) over 14 (20) sparsity families and 3 insertion orders, values in [-50,50]; every subset of absent diagonal entries at dimension 5; indices up to 65999 and 2^24 + 70006",
  ["entry of the converted matrix", "entry of the copied matrix", "accumulated entry", "entry below the diagonal is rejected", "wide index", "matrix with absent diagonal entries"], asan=True)
P("A02", "dimensions 1..12 (thorough 14) over 14 (20) sparsity families, matrix values in [-20,20], vectors in [-30,30]; a fixed matrix of dimension 300 (600) with any vector; dimension 140000 with free entries at rows above 16 bits", ["product with high row numbers", "symmetric product", "upper product", "lower product", "symmetric bilinear form"])
P("A03", "19 (thorough 23) lengths between 0 and 100 (257) and one of 66001 with 6 free entries, every aliasing of the result, values in [-9,9]",
  ["scale", "elementwise product", "sum", "difference", "quotient by scalar", "elementwise quotient", "minus scalar", "plus scalar", r"a \+ k b", "copy", "square sum", "dot product", "norm squared", "element-wise norm squared"])
P("A04", "dimensions 1..6 over 9 (12) sparsity families, off-diagonals in [-4,4], diagonals in [1,9], omega in [1/8,15/8]; a fixed matrix of dimension 40 (80) with any vector; dimension 140000 with free entries at rows above 16 bits", ["preconditioner times its result", "preconditioner times its result, high row numbers"])
P("A05", "full patterns of dimension 1..4 (5) given by their factor, general 2x2, block diagonal 5x5, chains of 3..4 unknowns, chains of 40 (120) with two free coefficients",
  ["full pattern: preconditioner is the inverse", "2x2: preconditioner is the inverse", "block diagonal: preconditioner is the inverse", "chain: symmetric preconditioner", "long chain: inverse factor off-diagonal"])
P("A06", "six fixed positive definite matrices of dimension 1..4 and a symbolic 2x2 one, symbolic right-hand sides and starts, 0..3 iterations, a fixed matrix of dimension 8 (12) with a right-hand side of any strength solved to the tolerance, exact real arithmetic",
  ["%s: %s" % (s, l) for s in ["plain", "jacobi", "ssor", "cholesky"] for l in ["exact start is kept", "returned residual is below the tolerance", "first step minimises along the preconditioned residual", "more unknowns: returned residual is below the tolerance", "two steps: residual orthogonal to the second direction", "no iterations: start vector kept"]])
P("A07", "dimensions 2..7 (12), 1..3 distinct fixed unknowns in any order and one of them changed afterwards, linear and material-dependent weights, values in [-9,9]; dimension 40 (80) with a third of the unknowns fixed; dimension 140000 with node numbers above 16 bits, sparsely coupled",
  ["high node numbers: couplings", "high node numbers: right-hand sides", "free equations keep their meaning", "free equations follow a changed value", "nonlinear: free equations follow a changed value", "fixed equation is the identity", "nonlinear: free equations keep their meaning", "nonlinear: fixed equation is the identity"])
P("A08", "expressions built by every 2-step program of updates, matrices of dimension 1..7 over 9 families, 3 material states; 140000 triangles with 5 of them used", ["high triangle numbers", "sum", "difference", "scaled", "matrix after the material state changed", "nonlinear matrix with absent diagonal entries"], asan=True)
P("G01", "coordinates in [-50,50], angles in [-7,7], vectors of length >= 0.03 for directions", ["dot product", "cross product", "norm", "distance", "rotation about a point", "double oriented area", "area", "equality of points", "oriented angle", "absolute angle", "normalised length"])
P("G02", "coordinates in [-9,9], segments of length >= 0.03 or exactly zero", ["before the start", "past the end", "beside the segment", "points of the segment", "segment of length zero"])
P("G03", "first segment from 5 direction families at 2 positions, second one with free coordinates; every order of segments and end points; orientation determinants either exactly zero by construction or at least 1e-3; three units of length (1, 2^-13, 1024)", ["both end points on one side", "end points on both sides", "touching in the interior", "common end point", "end point on the prolongation", "collinear and overlapping", "collinear and disjoint"])
P("G04", "12 (thorough 16) polygons of 3..16 corners with both orientations and several start corners, every point of [-10,12]^2 including all ties; triangles with free corners; three units of length (1, 2^-13, 1024) for a part of them", ["inside", "outside", "on the boundary", "inside the triangle", "on an edge of the triangle", "outside the triangle", "points of every edge", "level with a corner, outside"])
P("G05", "9 (12) polygons, every point of [-10,12]^2, tolerance 0 or 1/4 (thorough: any in [1/8,2]); three units of length (1, 2^-13, 1024) for 3 (all) polygons", ["boundary counts: near the boundary", "boundary does not count: near the boundary", "boundary counts: inside", "boundary does not count: inside", "boundary counts: outside", "boundary does not count: outside"])
P("G06", "coordinates in [-9,9], determinants at least 1e-6 or zero by construction; three units of length (1, 2^-13, 1024)", ["left turn", "right turn", "length of a segment", "inside the element", "outside the element", "inside the segment's box", "outside the segment's box", "points of one line", "inside the triangle", "outside the triangle", "equal segments", "different segments"])
P("G07", "coordinates in [-9,9], 1..5 points; 40 points with one free, 25 with one free", ["circle through three points", "circle on a diameter", "point inside the circle", "every point is enclosed", "two points", "obtuse triangle", "acute triangle", "box", "points of the boundary belong to it", "equal circles", "different circles"])
P("G08", "18 pairs of figures under 3 stretchings, in three units of length (1, 2^-13, 1024) and any shift, 3 x 3 starting corners, both orientations, mirrored or not; a triangle anywhere around the reflex corner of an L; a triangle and a quadrilateral anywhere about 4 convex polygons",
  ["a polygon contains itself", "nested with shared corners or without", "leaves the other polygon", "triangle round the reflex corner", "edge across the reflex corner", "inside a convex polygon", "outside a convex polygon"])
P("D01", "rectangles of side 0.01..9 in all quadrants, circles of 3..16 (32) corners, 12 (16) polygons under any scaling and shift, 4 ways of sharing corners, 6 x 4 pairs of figures with one free corner (orientation determinants at least 1e-3), a circle of 300 corners, 56 (272) cells that share edges, at any place",
  ["rectangle: counts", "rectangle: every edge is a segment", "circle: counts", "circle: every edge is a segment", "polygon: recorded polygon", "neighbours: shared corners and edges exist once", "crossing figure is rejected", "separate figure is accepted", "many figures: every edge is a segment", "figure crossing one of many is rejected", "figure between many is accepted", "corner in the middle of an edge is rejected", "self-crossing loop is rejected", "single points", "a point drawn twice exists once", "empty polygon is rejected"], budget=(240, 900))
P("D02", "every pair of magnetic materials that are equal or differ in one component by at least 0.01 (4 curves), up to 5 marks over every pattern of equal conductors, 2..9 and 300 materials", ["different material, different number", "same material, same number", "same material again, same number", "material of the number", "conductors are numbered by value", "conductor of the number", "unknown number is rejected", "numbers are stable", "position of the mark", "equal conductors", "different conductors"])
P("D03", "12 (16) polygons, drawings of 0..2 figures, 0..4 marks and 0..2 points, displacements in [-20,20], angles in [-7,7]", ["drawing: points move", "drawing: marks move", "drawing: polygons move", "drawing: segments keep their ends", "polygon: translation", "polygon: rotation", "equal polygons", "different polygons"])
P("D04", "6 figures with acute, right, reflex and flat corners, both orientations, alone or beside another, 6 groups of up to 12 figures that share corners and edges, single points on edges and inside, under any scaling 1/4..4 and shift", ["number of refining points", "existing points stay", "smallest distance between corners and edges", "smallest distance with single points", "refining points lie on the ring, inside a polygon and away from the edges"])
P("D05", "8 nesting trees of up to 10 figures (9 deep) in 3 drawing orders, the mark anywhere in its cell; 12 (16) polygons with the mark anywhere", ["material of an innermost polygon", "material of a polygon holding others", "mark inside the polygon", "polygon without a mark is rejected", "foreign polygon is rejected"])
P("M01", "17 area limits from 1e-9 to 1e300, 6 angles, drawings of 1..3 figures, 0..4 marks, 0..2 single points with free coordinates; 284 (704) points and edges with as many marks and materials; mesher stubbed", ["input: points", "input: segments", "input: marks", "input: material numbers", "options: minimum angle", "options: area limit", "options: regions, zero-based numbering, area limit", "result: points, triangles and materials"], asan=True)
P("M02", "free triangles with doubled area at least 1e-3, 6 meshes of 1..8 triangles under any scaling and shift, all corner orders; a grid of 69169 nodes with 7 free values", ["gradient in a triangle of a high number", "gradient of a linear field", "curl of a linear field", "gradient explains the values along every edge", "curl is the gradient turned by a quarter", "half of the shortest edge", "area of a triangle", "signed area of a triangle", "center of a triangle"])
P("M03", "radius 0.5..9, 8 directions at any distance down to 1e-6, free points", ["mapped point", "capped point", "boundary points stay", "same ray", "distances multiply to the squared radius", "the center goes to the cap"])
P("M04", "rims of 4..6 (9) and 130 (300) points in 3 orders, 1..2 inner points with free coordinates, rim edge split on one side or not, surrounding material known before, between, after or not at all, any radius; mesher stubbed", ["corners of the exterior triangles", "own points stay", "own triangles stay", "corner numbers are valid", "corner numbers are valid, rim edge split", "rim points are shared", "exterior material", "number of points"], asan=True)
P("M05", "7 meshed drawings (convex, L, U, arrow head, nested, neighbours) under any stretching 1/2..3 and shift, mirrored or not, 3 corner orders", ["area", "mass", "center of mass", "moment of inertia"])
P("M06", "7 drawings of up to 4 nested figures in 4 orders, every point of [-2,10]^2 off the lines; 14 nested figures and the points of a line", ["innermost figure", "point outside every figure is rejected"])
P("M07", "6 meshes and one of 306 nodes at any scale 0.01..50 and shift or with one free corner, any picture size 10..2000, discs of radius 0.1..50", ["box holds the mesh", "mesh is inside the picture", "disc is inside the picture", "centred"])
P("M08", "8 drawings of 1..3 figures with up to two magnets, both orientations, at any place, any magnetisation in 2 directions", ["nothing but points is added", "existing points stay", "no magnet, no points", "refining points are inside the magnets", "refining points are close to the magnets' edges", "refining points keep apart from each other and from corners", "refining points follow every edge of every magnet"])
P("V01", "every value and range of width 0.001..12 or zero; linear maps of such ranges, either way round", ["channels are in range", "blue channel", "green channel", "red channel", "constant field: channels are in range", "linear map", "values in range are kept", "limited from below", "limited from above"], defines=["NIKFEMM_USE_OPENCV"], inc=["-I/usr/include/opencv4"], libs=["-lopencv_core", "-lopencv_highgui", "-lopencv_imgproc", "-lopencv_imgcodecs"])
P("V02", "4 drawings at any place and unit with 1..2 marks, 6 meshes at any place in 2 sizes with one free field value (per triangle or node), clipped to a disc or not, two picture formats; matrices of dimension 4 scaled by any factor; OpenCV primitives replaced by recorders", ["drawing: every segment is shown at its place", "drawing: every point is shown at its place", "drawing: every mark is a cross at its place", "triangles are painted at their place", "colour of a triangle", "corners of the cells", "colour of a node", "nothing is painted outside the disc", "mesh edges are shown at their place", "the drawing is shown over the field", "marks are shown at their place", "matrix: colour of an entry", "file: one picture of the wanted size", "file: colours are at their place, y upwards", "file: the whole drawing is shown"], defines=["NIKFEMM_USE_OPENCV"], inc=["-I/usr/include/opencv4"], libs=["-lopencv_core", "-lopencv_highgui", "-lopencv_imgproc", "-lopencv_imgcodecs"])
P("F01", "6 meshes of 1..8 triangles under any stretching 1/2..3 and shift, two triangles with a free corner, a wheel of 23 (40) triangles at any place and size, 4 corner orders, 1..3 conductors of any conductivity, any depth; a grid of 306 (527) nodes with 300 conductors; a fixed grid of 69169 nodes", ["conductance between two nodes", "conductance between nodes of high numbers", "conductance between two of many nodes", "one equation per node", "no injected current", "node without triangles is rejected"], asan=True)
P("F02", "as F01, with 1..3 materials of any current density, linear and saturating, and any permeability per triangle", ["reluctance between nodes of high numbers", "reluctance between two nodes", "reluctance between two of many nodes", "one equation per node", "a third of every triangle's current", "currents do not depend on the material state"], asan=True)
P("F03", "13 meshed drawings (lone, in air, with a hole, nested, neighbours of equal or different magnetisation, nonconvex, marked twice, of 64 edges) under any stretching 1/2..3 and shift, any magnetisation and current, 3 corner orders", ["half of the surface current to each end of the edge"])
P("F04", "4..8 (10) nodes, one anywhere and one anywhere on a line, in 3 orders; 61 nodes, one anywhere on a line", ["three nodes are pinned at zero", "pinned nodes are the outermost ones"])
P("S04", "curves of 0..5 (8) rising points at any position, one of 40 points, every field value between the points, at them and outside; the materials of the catalogue at every pair of field values", ["linear exactly without a curve", "constant permeability", "curve of one point is rejected", "below the curve: slope of its first segment", "beyond the curve: slope of its last segment", "slope of the segment that holds B", "at a corner: slope of a neighbouring segment", "permeability of vacuum and air", "no material of the catalogue is below vacuum", "iron saturates"])
P("S05", "0..4 and 300 triangles with linear and saturating materials, any field strength in two directions, any old permeability and residual, iterations 0..499 at 7 values", ["one value per triangle", "linear material keeps its permeability", "saturating material moves from the old value to the curve"])
P("S01", "2, 3 and 6 layers of 3..5 nodes at any place, conductivities, thicknesses and resistances symbolic, 13 wirings (none, one, ten, parallel, reversed, inside a layer, to itself, chains, rings, stars), terminals at a node or up to 1/4 beside it; mesher stubbed", ["every layer is meshed once", "thickness of every layer is required", "one equation per node of every layer", "conductance with resistors", "layers without resistors", "the mesher gets every terminal", "every point is given to the mesher once", "points all around every terminal and nowhere else", "one layer, one unit thick unless told otherwise", "refining points are added on request", "no points are added unasked"])
P("S02", "1..3 layers of 3..8 nodes, the voltage point anywhere, layers of 289..306 nodes, the voltage point anywhere about 6 of them, one or two voltages at the same or different nodes, single- and multi-layer simulations; mesher stubbed", ["one equation per node", "the node's equation is its voltage", "the voltage is the given one", "other nodes keep their equation"])
P("S03", "1..3 layers of 3..8, 289..306 and 68906..69169 nodes with 1..2 conductors, any voltages, conductivities and stretching", ["one value per triangle of every layer", "conductivity times squared gradient", "conductivity times squared gradient, high numbers"])
P("S06", "7 meshed drawings (one body, two bodies, three nested figures, reflex body, a node with 24 triangles), field of one triangle symbolic at a time, symbolic depth, placement and point of reference; uniform fields with 1..2 free nodes; fixed varying field with one free node", ["force of the field on the body", "torque of the field on the body", "no force in a uniform field", "no torque in a uniform field", "no force without a field", "force of one auxiliary function", "a body without surroundings is rejected"], asan=True, budget=(420, 1500))
P("S08", "one conductor of 3..6 (8) nodes, two layers of 3..5 nodes with one resistor, linear magnetic materials on 4..6 nodes; every pair of electrodes and terminals; one voltage or the current density symbolic; exact real arithmetic; mesher stubbed", ["electrodes have their voltage", "currents balance at every free node", "currents balance at every free node, two layers", "fixed potentials stay", "field equations hold at every free node"])
P("S07", "5 drawings (nested, oblique, two figures, of the size of centimetres) at any place and the empty one, 6 (7) area limits from 1/16 to 1e300, symbolic current and permeability; mesher stubbed", ["center of the drawing", "boundary radius encloses the drawing", "mesher options", "drawing is moved to the origin", "boundary corners lie on the circle", "boundary polygon encloses the drawing", "refining points are added", "the mark of the surroundings is inside the boundary", "the surroundings are air", "marks move with the drawing", "the exterior has the rim's corners", "three nodes are pinned", "equations of the free nodes", "currents of the free nodes"], asan=True)

_CG = ["_ZN7nikfemm23conjugateGradientSolverERKNS_15MatCSRSymmetricERKSt6vectorIdSaIdEERS5_dj", "_ZN7nikfemm43preconditionedJacobiConjugateGradientSolverERKNS_15MatCSRSymmetricERKSt6vectorIdSaIdEERS5_dj", "_ZN7nikfemm41preconditionedSSORConjugateGradientSolverERKNS_15MatCSRSymmetricERKSt6vectorIdSaIdEERS5_ddj", "_ZN7nikfemm55preconditionedIncompleteCholeskyConjugateGradientSolverERKNS_15MatCSRSymmetricERKSt6vectorIdSaIdEERS5_dj"]
P("S09", "3 meshes of 4..7 nodes with 1 or 3 free ones, 3 mixtures of 4 materials (2 saturating) and every single saturating triangle, rounds 0..2, 6, 25..27, 90 and 500, potentials of the rounds, imposed value and balance error symbolic; the linear solvers are stubbed (A06 decides them)", ["first balance has the permeabilities of no field", "balance with the moved permeabilities", "balance with the moved permeabilities, early", "goes on while the balance is not met", "ends when the balance is met", "goes on until the permeabilities have arrived at their curves", "the last potential is the result", "gives up after 500 rounds", "one saturating triangle is enough", "linear materials are solved once"], libs=["-Wl,--wrap=" + s for s in _CG])
P("P01", "1..3 layers of 3..5 nodes, rectangles and polygons at any place, conductivities, thicknesses, resistances, voltages and potentials symbolic (or whole numbers); 0..2 resistors, every argument list of generate_system, 48 refused calls; a real interpreter (libpython 3.12), the mesher and the linear solver stubbed", ["the mesher gets what was drawn", "the mesh's points come back", "the mesh comes back layer by layer", "the drawn system is solved", "voltages come with layer and place", "voltages come back", "triangles come with layer and corners", "power densities come back", "such a call is refused"], inc=["-I/usr/include/python3.12"], libs=["-Wl,--wrap=" + s for s in _CG] + ["-lpython3.12"])
