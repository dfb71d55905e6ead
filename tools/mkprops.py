#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                   observe_at=list(observe), hook_needed=hook)))

prop("C01", "The first Brillouin zone is the Wigner-Seitz cell of the reciprocal lattice",
 "For every lattice the constructed first Brillouin zone is exactly the closed set of wave vectors that are no farther from the origin than from any other point of the (primitive) reciprocal lattice: convex, centrosymmetric, with volume equal to one primitive reciprocal cell. "
 "Its vertices, faces, face points, normals and half-edge points describe that one body, and its membership test agrees with the nearest-lattice-point test away from the surface. "
 "The body is a geometric object: rotating the lattice or rescaling its lengths rotates or rescales it, and choosing an equivalent description of the lattice does not change it.",
 ["inputs","configurations"], "every lattice system, centring, set of lattice parameters (including very oblique and very anisotropic cells) and orientation; primitive and conventional description; every search extent",
 "Tests check volume for a handful of lattices and none of those tests is in the reliably built set; an infinite family of lattice parameters decides which bounding planes are needed.",
 ["src/bz.cpp","src/bz.hpp","src/polyhedron_flex.hpp","src/polyhedron_lattice.tpp"],
 [("bounding-plane selection and cutting of a starting cell","src/bz.cpp voro_search"),("membership by face planes","src/bz.hpp isinside")],
 observe=["the polyhedron, vertices, points, normals, half-edge points and membership answers returned by a Brillouin-zone object"])

prop("C02", "Moving a wave vector into the first zone only subtracts a lattice vector",
 "For every list of wave vectors, moving it into the first Brillouin zone returns, row by row, a reduced vector q and a translation tau with Q = q + tau, where q lies inside or on the first zone and tau is a vector of the reciprocal lattice (integer, and allowed by the centring when the primitive lattice is used). "
 "The answer for one row does not depend on the other rows, on where in the list it stands, on the units or frame in which it was given, or on the number of threads.",
 ["inputs","configurations","schedules"], "every lattice, every Q (tiny, huge, on faces, edges and vertices, exactly at lattice points), every list length and thread count",
 "Tests sample fixed Q lists for a few lattices; boundary points and far-away Q are where the iterative reduction can stop early or cycle.",
 ["src/bz_move.cpp","src/bz.hpp"],
 [("iterated subtraction of the closest bounding lattice vector","src/bz_move.cpp moveinto"),("conversion to and from the primitive lattice","src/bz_move.cpp / src/transform.hpp")],
 observe=["(q, tau) returned for every Q"])

prop("C03", "The irreducible polyhedron is a fundamental domain of the zone",
 "For every crystallographic space-group setting and compatible lattice, the irreducible polyhedron lies inside the first zone, has the zone's volume divided by the number of point-group operations, and its images under those operations cover the zone and overlap only on their surfaces. "
 "The irreducible wedge is consistent with it: a point of the zone is in the wedge if and only if it is in the irreducible polyhedron, and every direction has an image in the wedge.",
 ["inputs","configurations"], "all 530 space-group settings with random compatible lattice parameters, with and without time reversal, primitive or conventional description",
 "Tests loop over settings with one lattice each and only check that a volume ratio is met or that construction does not throw; coverage and non-overlap as point sets are never checked.",
 ["src/bz_wedge.cpp","src/bz.cpp","src/bz.hpp","src/pointsymmetry.cpp"],
 [("wedge normals from rotation axes and special/mirror cases","src/bz_wedge.cpp"),("check of the cut polyhedron by volume","src/bz.hpp check_ir_polyhedron"),("cut of the first zone by wedge planes","src/bz.hpp set_ir_vertices")],
 observe=["irreducible polyhedron and wedge membership answers"])

prop("C04", "Irreducible reduction returns the symmetry operation it used",
 "For every wave vector Q, reduction into the irreducible polyhedron returns a point q inside it, a reciprocal-lattice vector tau, and a point-group operation such that applying the operation to q and adding tau gives back exactly Q; the returned operation and inverse-operation indices refer to mutually inverse operations of the advertised point group. "
 "Symmetry- or translation-equivalent wave vectors reduce to the same irreducible point, and the answer is independent of list order and thread count. "
 "Reduction into the wedge alone obeys the same contract without a translation.",
 ["inputs","configurations","schedules"], "every space-group setting and compatible lattice, random and special (boundary, symmetric, zero, remote) Q",
 "Tests check the reconstruction identity for a few lattices; uniqueness of the irreducible representative and index/inverse agreement are not tested for general groups.",
 ["src/bz_move.cpp","src/bz.hpp","src/pointsymmetry.hpp"],
 [("search over operations whose image is in the wedge","src/bz_move.cpp ir_moveinto, ir_moveinto_wedge")],
 observe=["(q, tau, operation index, inverse index) per Q"])

prop("C05", "Every built-in space-group setting describes the right group",
 "For each of the 530 tabulated settings the stored symbol decodes to generators whose closure is a finite group of space-group operations of the order its point group and centring require, compatible with the metric of its crystal system, and consistent with the tabulated international number, point group and lattice centring. "
 "Looking a setting up by number, Hall symbol, international name (with or without choice) or by its expanded or generating operations identifies the same group.",
 ["inputs"], "all 530 settings, every naming route and every textual spelling of the symbol grammar",
 "Tests compare a subset of settings with one stored table; table entries and grammar paths are independent, so one wrong entry or rule is invisible to samples.",
 ["src/spg_database.cpp","src/spg_database.hpp","src/hall_symbol.cpp","src/hall_symbol.hpp","src/bravais.cpp","src/symmetry.cpp"],
 [("table of settings","src/spg_database.cpp"),("Hall-symbol parser and generator construction","src/hall_symbol.cpp"),("closure of generators","src/symmetry.cpp generate")],
 observe=["operations, numbers, names, centring and point group reported for each setting"])

prop("C06", "Space-group operations form a faithful algebra",
 "Composition, inversion, order and application of symmetry operations agree with those of the affine maps they denote, taken modulo lattice translations; the group generated from a set of operations is the smallest closed set containing them, and the generators reported for a group regenerate it. "
 "Text forms of operations and of lists of operations parse to the operation they spell, and encoding followed by decoding is the identity. "
 "Centring, membership and presence of inversion reported for a set of operations are properties of the set, not of its order.",
 ["inputs"], "all crystallographic operations, random subsets and orders of them, every accepted textual form",
 "Tests parse a few strings and generate a few groups.",
 ["src/motion.hpp","src/symmetry.cpp","src/symmetry.hpp"],
 [("operation product/inverse/equality","src/motion.hpp"),("closure, generators, centring","src/symmetry.cpp"),("ASCII parser","src/motion.hpp from_ascii, src/symmetry.cpp from_ascii")],
 observe=["results of group and operation queries"])

prop("C07", "Point groups are closed and correctly classified",
 "The point group derived for any lattice is a closed group of integer matrices containing the identity, every operation's recorded inverse, order, isometry type and rotation axis is that of the matrix, and sorting, subsetting and generator extraction never lose or invent an operation. "
 "Its classification (point-group symbol, number, Laue class, holohedry) is that of the group and does not depend on the order of the operations or on the choice of axes.",
 ["inputs"], "point groups of all 530 settings, random permutations of their operations, random unimodular changes of basis, random subsets",
 "Tests cover a few groups; classification tables have 32 independent entries.",
 ["src/pointsymmetry.cpp","src/pointsymmetry.hpp","src/pointgroup.cpp","src/pointgroup.hpp","src/symmetry.cpp"],
 [("closure/inverse/axis/isometry computations","src/pointsymmetry.cpp"),("classification by isometry counts","src/pointgroup.cpp")],
 observe=["results of point-group queries"])

prop("C08", "Direct and reciprocal lattices are exact duals however they are built",
 "A lattice built from lengths and angles, from basis vectors stored as rows or columns, in degrees or radians, in the direct or the reciprocal space, describes the same crystal: basis vectors of the two spaces satisfy a_i.b_j = 2 pi delta_ij, metrics, volumes, lengths and angles are mutually consistent, and conversion of vectors to and from Cartesian coordinates in either space is invertible and length preserving. "
 "Lattices compare equal exactly when they describe the same cell, and a lattice carries the space group and basis it was given through every copy and transformation.",
 ["inputs","configurations"], "all valid cells (triclinic to cubic, any scale and orientation) and every construction route",
 "Tests build a few cells by a few routes.",
 ["src/lattice_dual.hpp","src/math.hpp","src/utilities.tpp","src/enums.hpp"],
 [("construction of the two bases and metrics","src/lattice_dual.hpp")],
 observe=["vectors, metrics, lengths, angles, volumes, coordinate conversions"])

prop("C09", "Primitive and conventional descriptions are interchangeable",
 "For every centring, transforming a lattice to its primitive description and back is the identity, the primitive cell's volume is the conventional volume divided by the number of lattice points per conventional cell, and the primitive basis generates exactly the centred lattice. "
 "Direct and reciprocal vectors and lists of vectors transformed between the two descriptions keep their Cartesian position, so inner products between direct and reciprocal vectors are unchanged.",
 ["inputs","configurations"], "every centring type and lattice, random vectors",
 "Tests check some centrings with fixed lattices.",
 ["src/primitive.hpp","src/transform.hpp","src/lattice_dual.hpp"],
 [("transformation matrices","src/primitive.hpp"),("application to lattices and vectors","src/transform.hpp, src/lattice_dual.hpp")],
 observe=["primitive lattices, transformed vectors"])

prop("C10", "Arithmetic on lattice vectors equals Cartesian arithmetic",
 "Every operation on vectors expressed in units of a lattice - sums, scalings, dot and cross products, norms, angles, duals, conversion between a lattice and its dual, rotations, selections and reductions, and comparisons - gives the result that the same operation gives on their Cartesian coordinates. "
 "Mixing vectors of incompatible lattices is refused rather than computed.",
 ["inputs"], "all lattices, integer and floating vectors, broadcasting shapes one-to-many and many-to-one",
 "Tests check fixed vectors in a few lattices.",
 ["src/array_lvec.hpp","src/array_lvec_methods.tpp","src/array_l_functions.hpp","src/array_l_.hpp","src/array_functions.hpp","src/geometry.hpp"],
 [("metric-based products and coordinate conversion","src/array_l_functions.hpp, src/array_lvec_methods.tpp")],
 observe=["returned vectors and scalars"])

prop("C11", "Symmetry maps the atom basis onto itself consistently",
 "When the atoms of a unit cell are compatible with the symmetry operations, each operation permutes the atoms of one type, the recorded image of an atom equals the atom at the transformed position up to the recorded lattice translation, and composing operations composes the permutations. "
 "Small numerical noise within tolerance does not change the answer, snapping moves atoms onto exact special positions without moving any atom by more than the tolerance, and an incompatible basis is reported as such.",
 ["inputs"], "every space-group setting with random orbits of general and special positions, random noise below tolerance",
 "Tests use a couple of structures.",
 ["src/basis.hpp","src/phonon.hpp","src/lattice_dual.hpp"],
 [("equivalent-atom search and snapping","src/basis.hpp"),("atom mapping and translation tables","src/phonon.hpp")],
 observe=["equivalent atom indices, translation vectors, snapped positions"])

prop("C12", "Convex polyhedra know their own geometry",
 "A polyhedron built from any set of points spanning a volume is their convex hull: every input point is inside it, every vertex is an input point, all faces are planar, outward-wound polygons satisfying Euler's relation, and each edge is shared by exactly two faces. "
 "Volume, centroid, bounding sphere, edge lists, membership and random interior points agree with that body, and are covariant under translation, rotation, mirroring, scaling and re-expression in a lattice frame, and under the order of the input points.",
 ["inputs"], "random and degenerate (coplanar, duplicated, symmetric, integer-coordinate) point sets, in Cartesian coordinates and in skew lattice coordinates",
 "Tests use cubes and a few zones.",
 ["src/polyhedron_flex.hpp","src/polyhedron_faces.hpp","src/polyhedron_faces.cpp","src/polyhedron.hpp","src/polyhedron_lattice.hpp","src/geometry.hpp"],
 [("plane search and face winding","src/polyhedron_faces.hpp"),("signed tetrahedron sums","src/polyhedron_flex.hpp")],
 observe=["vertices, faces, volume, centroid, membership answers"])

prop("C13", "Cutting and intersecting polyhedra are exact set operations",
 "Cutting a polyhedron by planes yields exactly the part of it on the kept side of every plane, and intersecting two polyhedra yields exactly their common points, with the volume of the pieces on both sides of a plane adding up to the original. "
 "The result does not depend on the order of the planes or of the operands, cutting by a plane that misses the body leaves it unchanged, one that removes all leaves nothing, and reported intersection tests agree with the intersection.",
 ["inputs"], "random polyhedra and planes, planes through vertices, edges and faces, Cartesian and lattice frames",
 "Tests cut a cube in a few ways.",
 ["src/polyhedron_flex.hpp","src/polyhedron_faces.hpp","src/polyhedron_faces.cpp","src/polyhedron.hpp"],
 [("per-plane face clipping and re-capping","src/polyhedron_faces.hpp cut/one_cut")],
 observe=["resulting polyhedron"])

prop("C14", "Interpolation grids tile their domain",
 "For every polyhedral domain and resolution, the cells of a trellis, nest or mesh grid cover the domain without overlap: cell volumes add up to the domain volume, every point inside the domain is found in a cell whose vertices are stored grid points surrounding it, and points outside are not silently assigned interpolated values from cells that do not contain them. "
 "Requested resolution limits on cell volume are respected, and all reported vertex positions in lattice and Cartesian units describe the same points.",
 ["inputs","configurations"], "all grid types, space-group settings, lattices and resolutions; always-triangulate on and off; thread counts",
 "Tests build a few grids and check counts or that interpolation succeeds.",
 ["src/trellis_poly.hpp","src/trellis_poly_parallel.tpp","src/trellis.tpp","src/trellis_node.hpp","src/nest.hpp","src/nest.tpp","src/mesh.hpp","src/triangulation_poly.hpp","src/triangulation_layers.hpp","src/triangulation_simple.hpp"],
 [("cube/polyhedron node construction","src/trellis_poly_parallel.tpp"),("nested tetrahedra","src/nest.tpp"),("layered mesh","src/triangulation_layers.hpp")],
 observe=["cell vertices, volumes, (index, weight) lists per query point"])

prop("C15", "Interpolation is linear and exact at the stored points",
 "Interpolation at any point of the domain is a convex combination of the data stored at grid points around it whose weighted positions reproduce the point, so data that depend linearly on position are reproduced exactly and data at a grid point are returned unchanged, separately for values and vectors, for scalars, vectors and matrices, real or complex, and for any number of modes. "
 "Interpolation is additive and homogeneous in the stored data, does not mix modes or elements, and gives for a list of points the same rows as for each point alone.",
 ["inputs","configurations"], "all three grid types, all data layouts, random and boundary points",
 "Tests interpolate a few hand-written functions at a few points.",
 ["src/interpolator.hpp","src/interpolator_at.tpp","src/interpolatordual.hpp","src/trellis_poly.hpp","src/trellis_node.hpp","src/nest.hpp","src/mesh.hpp","src/bz_trellis.hpp","src/bz_nest.hpp","src/bz_mesh.hpp"],
 [("barycentric and trilinear weights","src/trellis_node.hpp"),("weighted accumulation","src/interpolator_at.tpp")],
 observe=["interpolated values and vectors"])

prop("C16", "Symmetry-reduced interpolation transforms results as tensors",
 "Interpolating at an arbitrary wave vector through the irreducible zone equals evaluating the symmetry-invariant field that the stored irreducible data define: scalars are invariant, and vectors, pseudovectors and matrices given in any of the supported frames are rotated by the operation that connects the wave vector to its irreducible representative. "
 "Consequently results at symmetry-equivalent or lattice-translated wave vectors are related by the same operation, and the result in one frame is the converted result of any other frame.",
 ["inputs","configurations"], "all point groups (operations of every order, proper and improper), all frames (direct, reciprocal, Cartesian), all rotation behaviours, all grids that support it",
 "Tests exercise scalars and one rotation behaviour with groups of order-two operations.",
 ["src/interpolator_at.tpp","src/interpolator_real.tpp","src/interpolator_recip.tpp","src/interpolator_axial.tpp","src/interpolator.hpp","src/bz_trellis.hpp","src/bz_nest.hpp"],
 [("in-place rotation of interpolated data","src/interpolator_*.tpp"),("choice of operation from reduction","src/bz_trellis.hpp ir_interpolate_at")],
 observe=["interpolated values/vectors at equivalent wave vectors"])

prop("C17", "Phonon eigenvectors transform with the correct phases and atom permutation",
 "When stored data are phonon eigenvectors, symmetry-reduced interpolation returns at every wave vector an eigenvector set of the dynamical matrix at that wave vector: rotated, with atoms permuted, and with the phase factor that the chosen convention requires. "
 "This holds for every operation including those with fractional translations and those that exchange atoms, and with time reversal added.",
 ["inputs","configurations"], "symmorphic and non-symmorphic structures with several atoms per cell, random force constants with the crystal's symmetry",
 "One stored material is tested from Python only.",
 ["src/phonon.hpp","src/interpolator_gamma.tpp","src/basis.hpp","src/lattice_dual.hpp"],
 [("phase and permutation tables","src/phonon.hpp"),("in-place transform","src/interpolator_gamma.tpp")],
 observe=["interpolated eigenvectors compared with the dynamical matrix built independently"])

prop("C18", "Mode sorting yields valid, cost-optimal and order-independent permutations",
 "Between any two connected grid points the recorded mode correspondence is a permutation that minimises the configured total cost between the two points' modes, recorded consistently in both directions, and interpolation connects modes through it. "
 "Relabelling the modes at individual grid points, or multiplying eigenvectors by arbitrary phases, changes the interpolated result at most by a relabelling or a phase.",
 ["inputs","histories"], "random mode data with random relabellings and phases, degenerate or real/complex data, all cost functions and weights",
 "Tests sort a single data set.",
 ["src/interpolatordual.hpp","src/permutation.hpp","src/permutation_table.hpp","src/interpolator_cost.tpp","src/sorting_status.hpp"],
 [("pairwise assignment","src/permutation.hpp"),("storage of permutations by key","src/permutation_table.hpp"),("cost functions","src/interpolator_cost.tpp")],
 observe=["permutations and interpolated modes"])

prop("C19", "Assignment solvers return a minimum-cost assignment",
 "For every square cost matrix of finite numbers each solver terminates and returns a one-to-one assignment of rows to columns, reported consistently in both directions, whose total cost is minimal, whatever the sign, scale, ties or numeric type of the costs. "
 "The reported total and dual prices, where available, are those of that assignment, and solving leaves the answer independent of earlier solves.",
 ["inputs","histories"], "all sizes, integer and floating costs, ties, zeros, negative and huge entries",
 "Tests solve one small matrix.",
 ["src/munkres.hpp","src/lapjv.hpp","src/permutation.hpp"],
 [("Munkres stepping","src/munkres.hpp"),("Jonker-Volgenant augmentation","src/lapjv.hpp")],
 observe=["returned assignment and costs"])

prop("C20", "Arrays and their views always denote the same elements",
 "Every array, view, slice, transpose, reshape, extraction, concatenation, resize, cast and reduction holds exactly the elements that the same operation yields on a plain nested list; views alias their parent and nothing else, copies alias nothing, and memory that other code owns is neither freed nor written unless asked. "
 "Elementwise arithmetic and comparisons follow broadcasting rules and refuse incompatible shapes.",
 ["inputs","histories"], "random sequences of operations on random shapes, strides, element types and ownerships",
 "Tests check single operations on fresh contiguous arrays.",
 ["src/array.hpp","src/array.tpp","src/array2.hpp","src/array2.tpp","src/array_.hpp","src/array_functions.hpp","src/array_attributes.hpp"],
 [("strided view bookkeeping and shared ownership","src/array2.hpp, src/array.hpp")],
 observe=["element values, shapes, aliasing after each operation"])

prop("C21", "Index iteration visits exactly the requested elements",
 "Conversion between linear indices and subscripts is a bijection for every shape and stride, and iterating over a shape - completely, with some indices fixed, or broadcast against another shape - visits each required subscript exactly once in row order and stops, with broadcast pairs following the broadcasting rule. "
 "Incompatible shapes are refused.",
 ["inputs"], "all ranks, extents including one and zero, fixed-index patterns, shape pairs",
 "Tests use a handful of shapes.",
 ["src/subscript.hpp","src/array_.hpp"],
 [("stride arithmetic","src/subscript.hpp"),("iterators","src/subscript.hpp SubIt, BroadcastIt")],
 observe=["sequence of subscripts"])

prop("C22", "Approximate comparison follows the stated tolerances",
 "Scalars, vectors, matrices and arrays compare approximately equal exactly when their elements differ by no more than the stated relative and absolute tolerances; the relation is reflexive and symmetric, tightening the tolerance never turns unequal into equal, and not-equal, less, greater and their non-strict forms are consistent with it. "
 "A configured tolerance is the one used, for every element type including integers and complex numbers, and comparing an array with itself, its scaled or its translated copy gives the answer that comparing its elements gives.",
 ["inputs","configurations"], "all numeric types, magnitudes from zero to huge, differences just below and above the tolerance",
 "Tests compare a few numbers.",
 ["src/approx_float.hpp","src/approx_config.hpp","src/approx_config.cpp","src/comparisons.hpp","src/comparisons.cpp","src/array_attributes.hpp","src/array2.tpp"],
 [("tolerance test","src/approx_float.hpp"),("comparison selection","src/comparisons.hpp")],
 observe=["boolean answers"])

prop("C23", "Small linear algebra and trigonometric helpers are exact where they claim to be",
 "Matrix products, transposes, inverses, determinants, traces, adjoints, metrics, cross, dot and triple products and norms equal their textbook definitions for integers, reals and complex numbers and keep exact integer results exact; cosines and sines in degrees are exact at the special angles and accurate, periodic and of definite parity everywhere. "
 "Conversions between integer and floating types round to nearest or refuse, and singular matrices are detected.",
 ["inputs"], "random and extreme matrices, angles, types; in-place and out-of-place",
 "Tests check a few matrices and angles.",
 ["src/utilities.hpp","src/utilities.tpp","src/linear_algebra.hpp","src/math.hpp"],
 [("direct formulas","src/utilities.tpp")],
 observe=["returned numbers"])

prop("C24", "Saving an object and loading it back changes nothing",
 "Every object that can be written to a file - arrays, lattices, symmetry operations, polyhedra, zones, grids and the data and settings they hold - is, after being read back, equal to the original and indistinguishable from it in every later query and interpolation. "
 "Several objects saved under different names in one file stay independent, and saving again over an existing entry leaves the newest state.",
 ["histories","configurations","inputs"], "every class, every configuration of its options, all data layouts, written fresh or over an old entry",
 "Tests reload a few default-configured objects and compare a subset of their state.",
 ["src/hdf_interface.hpp","src/array.hpp","src/array2.hpp","src/lattice_dual.hpp","src/bz.hpp","src/trellis_poly.hpp","src/nest.hpp","src/mesh.hpp","src/interpolator.hpp","src/interpolatordual.hpp","src/permutation_table.hpp","src/phonon.hpp","src/polyhedron_flex.hpp","src/symmetry.hpp","src/basis.hpp"],
 [("to_hdf/from_hdf pairs","throughout src/*.hpp")],
 observe=["equality and behaviour of reloaded objects"])

prop("C25", "Results do not depend on threads or scheduling and no data race occurs",
 "Every parallel operation returns the same result for any number of threads and any schedule as it does with one thread, in particular grid construction, zone reduction, sorting and interpolation, and no two threads access the same memory without synchronisation when one of them writes. "
 "An error found by any thread is reported to the caller as an ordinary error, never as a crash.",
 ["schedules","inputs","configurations"], "all thread counts, random schedules and delays, all parallel operations",
 "Tests run one schedule per operation and do not look at memory accesses.",
 ["src/bz_move.cpp","src/trellis_poly_parallel.tpp","src/trellis_poly.hpp","src/nest.hpp","src/mesh.hpp","src/interpolatordual.hpp","src/thread_exception.h","src/smp.hpp"],
 [("parallel loops with private state and ordered merging","src/trellis_poly_parallel.tpp, src/bz_move.cpp"),("exception collection","src/thread_exception.h")],
 observe=["results by thread count, race-detector reports"])

prop("C26", "No input makes the library read or write outside its objects",
 "No public operation, on any input it accepts or rejects, reads or writes outside the bounds or lifetime of its objects, uses uninitialised storage, leaks the storage it owns or performs arithmetic whose behaviour the language leaves undefined. "
 "Views and shared data stay valid as long as anything refers to them.",
 ["inputs","histories"], "realistic workloads over every subsystem plus hostile shapes and malformed texts",
 "Tests run without instrumentation.",
 ["src/array.hpp","src/array2.hpp","src/polyhedron_faces.hpp","src/trellis_poly_parallel.tpp","src/hall_symbol.cpp","src/motion.hpp","src/pointgroup.cpp","src/utilities.tpp","lib/tetgen"],
 [("bounds bookkeeping throughout","src/")],
 observe=["sanitizer reports"])

prop("C27", "Merging vertex lists in parallel keeps every vertex once",
 "When several workers each record the vertices their cells use - shared ones by their original index and new ones by provisional index - merging the records gives each distinct vertex exactly one final index, keeps the identity of every recorded reference however the records are grouped, leaves the records merged unchanged, and gives the same final numbering for any number of merging threads. A cell recorded by two workers is refused.",
 ["histories","schedules","inputs"], "random splits of random vertex references, empty and single-worker records",
 "No test covers the merge on its own and grid tests only see the final geometry.",
 ["src/vertex_map_set.h","src/vertex_map_set.cpp","src/vertex_map_knit.h","src/vertex_index_map.h","src/trellis_poly_parallel.tpp"],
 [("set insertion and knitting","src/vertex_map_set.h, src/vertex_map_knit.h")],
 observe=["final index of each reference"])

prop("C28", "The Python module returns what the library computes",
 "Every object and function exposed to Python gives the same numbers as the underlying library for any array-like input layout (strided, transposed, non-double, read-only) and never lets Python and library memory corrupt one another or outlive their owner. "
 "The pure-Python helpers agree with the objects they build, wrong shapes and types raise Python exceptions, and documented argument defaults hold.",
 ["inputs","configurations","histories"], "all bound classes, array layouts and dtypes, object lifetimes",
 "Python tests cannot run offline here and only use contiguous double arrays.",
 ["wrap/_array.hpp","wrap/_common_grid.hpp","wrap/_bz.cpp","wrap/_lattice.cpp","wrap/_lattice.hpp","wrap/_trellis.hpp","brille/utils.py","brille/lattice.py","brille/bound.py"],
 [("buffer conversion","wrap/_array.hpp"),("bindings","wrap/*.cpp"),("helpers","brille/*.py")],
 observe=["numpy arrays returned to Python"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
