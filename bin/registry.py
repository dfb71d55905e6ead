"""What each property's check runs: driver, non-triviality rule, floors on what the monitors must have seen."""
CHECKS = {
 "C19": dict(driver="c19.cpp", level="exploration", title="assignment-optimality oracle on lapjv / munkres / stable matching",
    rule="one case = one generated cost matrix solved by every solver; distinct = hash of (numeric type, size, family, costs)",
    floors={"observations": 20000, "distinct": 5000},
    note="Each answer is compared with the optimum of an independent potentials Hungarian algorithm (exact for integers, long double for reals; itself cross-checked by dynamic programming up to n=8) in about 12000 generated matrices per quick run. Says nothing about matrices outside the generated families and sizes."),
 "C21": dict(driver="c21.cpp", level="exploration", title="trace checker on subscript iteration against enumerated expectation",
    rule="one case = one shape (exhaustive for small ones, random beyond) iterated fully, with fixed indices and broadcast; distinct = hash of shape, fixed indices and partner",
    floors={"observations": 20000, "distinct": 2000},
    note="The sequence of visited subscripts is recorded and compared with the full expected sequence for every small shape and for random larger ones; conversions are checked as bijections element by element."),
 "C22": dict(driver="c22.cpp", level="exploration", title="tolerance-rule oracle on every comparison entry point",
    rule="one case = one pair of tolerances with a batch of values placed inside, on and outside the documented band; distinct = hash of (type pair, operator, tolerances, values)",
    floors={"observations": 300000, "distinct": 30000},
    note="Scalar, vector, matrix, array and Comparer comparisons are each judged against an independent statement of the tolerance rule evaluated in long double; values within rounding of the band edge are not judged."),
 "C23": dict(driver="c23.cpp", level="exploration", title="long-double / exact-integer oracle on linear algebra, trigonometry and integer utilities",
    rule="one case = one batch of random (conditioned, singular, integer) matrices and arguments through every routine; distinct = hash of the arguments",
    floors={"observations": 300000, "distinct": 30000},
    note="Results are compared with exact integer or long-double references under rounding-error bounds; guard words around the buffers reveal writes outside them."),
 "C20": dict(driver="c20.cpp", level="exploration", title="reference-model oracle on histories of array operations, with borrowed-buffer guards and allocation balance",
    rule="one case = one history of 40 operations on a pool of up to six owning, sharing, viewing and borrowing arrays; distinct = hash of (element type, operation sequence)",
    floors={"observations": 2000000, "distinct": 2000, "steps": 100000},
    note="After every operation every live array is read back element by element against a model that knows which memory cell each element is, so wrong values, wrong aliasing, writes outside borrowed memory and unbalanced allocations are all seen."),
 "C05": dict(driver="c05.cpp", level="exploration", title="group-theory oracle on every tabulated setting, symbol spelling and lookup route",
    rule="one case = one of the 530 settings under one spelling or naming route; distinct = hash of the text parsed",
    floors={"observations": 30000, "distinct": 2500, "lattices named": 2000},
    note="Every setting's operations are compared with the group an independent Hall-symbol decoder and closure produce from a validated table; respelled, reused-parser, re-encoded and untabulated symbols and every lookup route are compared as groups, not text."),
 "C06": dict(driver="c06.cpp", level="exploration", title="exact-arithmetic oracle on symmetry operations, generated groups and their text forms",
    rule="one case = one setting's group with 12 random operation pairs, six spellings each, four generating subsets and a random ordering; distinct = hash of the operations or text",
    floors={"observations": 800000, "distinct": 80000, "groups": 3000},
    note="Products, inverses, orders, closures, generators, membership and parsed text are compared with exact integer affine maps (translations in 1/24) and an independent closure."),
 "C07": dict(driver="c07.cpp", level="exploration", title="exact-arithmetic oracle on point-group elements, subsets, generation and classification",
    rule="one case = one point group (all 530 settings, subgroups, unimodular changes of axes) in random order; distinct = hash of the ordered matrices",
    floors={"observations": 500000, "distinct": 2500, "groups": 5000},
    note="Inverses, orders, isometries, axes, sorting, generation and the 32-class classification are compared with exact integer matrix group theory."),
 "C08": dict(driver="c08.cpp", level="exploration", title="reference-cell oracle on lattices built through every constructor",
    rule="one case = one cell compatible with one of the 530 settings, built through seven or more constructor forms, with left-handed, rotated and slightly noisy variants; distinct = hash of setting and metric",
    floors={"observations": 800000, "distinct": 3000, "cells": 3000, "noisy cells": 4000, "left-handed cells": 300},
    note="Every form of the same cell is compared with long-double dual matrices; duality, metrics, volumes, lengths, angles, Cartesian conversion, carried symmetry and basis, equality, and symmetrisation of noisy cells are each judged. Cross-constructor equality is counted, not judged, because the comparison tolerance is tighter than the round-off of the constructors."),
 "C09": dict(driver="c09.cpp", level="exploration", title="centred-lattice and Cartesian-position oracle on primitive transformations",
    rule="one case = one cell compatible with one of the 530 settings, its primitive description and four lists of direct and reciprocal vectors transformed both ways; distinct = hash of setting and metric",
    floors={"observations": 150000, "distinct": 2000, "cells": 2000, "vectors transformed": 50000},
    note="The primitive basis is required to generate exactly the lattice of the setting's own centring translations (from the independent Hall decoder), and every vector to keep its Cartesian position serially and in parallel; integer vectors that cannot be represented must be refused."),
 "C10": dict(driver="c10.cpp", level="exploration", title="Cartesian-coordinates oracle on lattice-vector operations",
    rule="one case = one cell (of 530 settings; also rotated and left-handed), with real and reciprocal vector lists of matching, broadcast and mixed integer/real kinds put through every operation; distinct = hash of the two operand lists",
    floors={"observations": 1500000, "distinct": 8000, "vector pairs": 25000, "planes": 5000, "incompatible operations": 20000},
    note="Each result is converted to Cartesian coordinates with long-double reference matrices and compared with the same operation on Cartesian operands; operations mixing lattices or spaces must throw. The bound is round-off scaled by the cell's condition number."),
 "C11": dict(driver="c11.cpp", level="exploration", title="orbit oracle on atom images, permutations, tables and snapping",
    rule="one case = one of the 530 settings with a random basis of special and general orbits, put through every lookup, table and snapping route and three incompatible variants; distinct = hash of setting and positions",
    floors={"observations": 500000, "distinct": 2500, "permutations": 8000, "incompatible bases": 1500, "snapped bases": 200},
    note="Images are compared with those of exact operations from the independent Hall decoder; permutations must be bijective and compose, tables must satisfy S(r_k+v)=r_l up to one lattice translation per operation, snapping must land on the known special position, and bases missing, moving or retyping an atom must be refused."),
 "C01": dict(driver="c01.cpp", case_timeout=400, level="exploration", title="independent Wigner-Seitz oracle on constructed zones",
    rule="one case = one lattice (530 settings by lengths and angles or rotated/left-handed vectors; oblique, anisotropic, nearly symmetric and non-reduced descriptions without symmetry) and one zone configuration, with 61 membership questions; distinct = hash of the basis vectors, configuration and shape of the zone",
    floors={"observations": 250000, "distinct": 1500, "setting, lengths and angles": 350, "setting, vectors": 350, "membership questions": 90000},
    note="The reference cell is found in Cartesian coordinates from a Selling-reduced superbase of the lattice allowed by the setting's own centring translations. Where the reference has edges shorter than 2e-5 of its size only the vertex positions, volume and clear membership are judged and a refusal by exception is accepted."),
 "C03": dict(driver="c03.cpp", level="exploration", title="orbit-counting oracle on the irreducible polyhedron and wedge",
    rule="one case = one cell compatible with one of the 530 settings, one primitive flag, one time-reversal flag; about 150 points of the zone (with all their images) and 40 directions judged; distinct = hash of setting, flags and metric",
    floors={"observations": 250000, "distinct": 900, "points judged": 60000, "directions": 35000, "wedge answers judged": 60000},
    note="The operations come from the independent Hall decoder; each interior point must have exactly one image inside the polyhedron, the volume must be the zone's divided by the number of operations, wedge tests must agree with the polyhedron inside the zone, and every direction of any length must have an image in the wedge. Zones with edges shorter than 1e-5 of their size are below the working tolerance and not judged."),
 "C02": dict(driver="c02.cpp", level="exploration", title="translation, membership and re-partition oracle on moved points",
    rule="one case = one lattice (530 settings, primitive or conventional zone; every eighth a skewed triclinic lattice) and about 90 wave vectors (distant, tiny, near corners, on faces, edges and corners, lattice points, rational, already inside, pairs differing by a lattice vector), moved in both lattices and in shuffled sub-lists; distinct = hash of lattice and zone",
    floors={"observations": 300000, "distinct": 900, "corners": 6000, "equivalent pairs": 30000, "compared between frames": 25000, "shuffled sublists": 800},
    note="Q=q+tau to round-off, tau an integer vector of the zone's own lattice, q not outside the independently constructed Wigner-Seitz cell, points strictly inside moved by nothing, equivalent points strictly inside moved to one place, results independent of list order, thread count and input frame; foreign lattices refused. Lattices with zone edges shorter than 1e-5 of the size, or condition number above 500, are below the working tolerance."),
 "C04": dict(driver="c04.cpp", level="exploration", title="recomposition, membership and orbit oracle on irreducible reductions",
    rule="one case = one cell compatible with one of the 530 settings, one primitive flag, one time-reversal flag and 70 wave vectors (special points, rational, lattice points, zone and irreducible-polyhedron corners and faces, distant and tiny ones) reduced with ir_moveinto and ir_moveinto_wedge, again in shuffled sub-lists and after a random operation and translation; distinct = hash of setting, flags, metric and vectors",
    floors={"observations": 700000, "distinct": 850, "equivalent pairs": 12000, "wedge pairs": 12000, "shuffled sublists": 800, "special points": 6000, "operations used": 4000},
    note="Q must be R^T q + tau to round-off with R and its inverse consistent, tau a vector of the zone's own lattice and q in the irreducible polyhedron; equivalents of a vector must share its reduced vector where that lies strictly inside; reductions must not depend on the list, threads or the previous contents of the outputs. On the surface of the irreducible polyhedron uniqueness is not promised."),
 "C12": dict(driver="c12.cpp", level="exploration", title="independent convex-hull and geometry oracle",
    rule="one case = one point set (random, spherical, integer grids, boxes, prisms, octahedra, symmetric orbits, lattice cells, half-space bodies, tetrahedra; with repeated, interior, face and edge points; turned, moved, scaled) in Cartesian, direct- or reciprocal-lattice coordinates of either handedness; its hull and the hulls of its reorderings, mirror image, translation, symmetry images and face lists are each examined in full; distinct = hash of the face structure",
    floors={"observations": 120000, "distinct": 100, "faces of hulls compared": 50000, "points inside classified": 180000, "points outside classified": 180000, "left-handed lattices": 150, "with points which are not corners": 400, "with repeated points": 180},
    note="Corners, outward-wound faces, edges, half edges, normals, planes, faces per corner, volume, centroid, radius, membership, random interior points, face lookup, equality and bounding boxes are compared with a brute-force half-space hull computed in Cartesian doubles. Point sets with a point between 1e-9 and 1e-5 of the size off a hull plane are not judged."),
 "C13": dict(driver="c13.cpp", level="exploration", title="half-space intersection oracle on cuts and intersections",
    rule="one case = one convex body (eight families, turned, moved, scaled) in Cartesian, direct- or reciprocal-lattice coordinates of either handedness with twelve single planes of eleven kinds (through the inside, a corner, an edge, a face, three corners, touching, missing, bisecting) cut from both sides, one set of planes in several orders and three other bodies to intersect with; distinct = hash of the body",
    floors={"observations": 200000, "distinct": 900, "results compared": 28000, "pairs of parts": 10000, "parts put together": 4500, "overlapping pairs": 1700, "separate pairs": 650, "reordered sets of planes": 800},
    note="Corners, volume, face and corner counts, Euler closure and winding of each result are compared with a brute-force intersection of half-spaces; the two parts must add up, put together give the body back, not overlap each other and overlap the whole; missing planes must change nothing. Planes which pass between 1e-11 and 1e-5 of the size from a corner are not judged."),
 "C14": dict(driver="c14.cpp", level="exploration", title="tiling and location oracle on trellises, nests and meshes of constructed zones",
    rule="one case = one cell of one of the 530 settings, its whole or irreducible zone, one kind of grid of one size; every stored point, tetrahedron and node and about 100 located points judged; distinct = hash of setting, kind, metric and size",
    floors={"observations": 700000, "distinct": 1100, "grids: trellis": 250, "grids: triangulated trellis": 250, "grids: nest": 250, "grids: mesh": 250, "nodes judged": 25000, "points at stored points": 5000},
    note="Nodes are compared with a reference intersection of the box and the zone found by half-space vertex enumeration; located points must be reproduced by their weights, by the vertices of one cell, and by exactly the stored point if there is one. Zones with edges below 1e-4 of the size are not judged. TetGen does not keep to the maximum volume (known finding)."),
 "C15": dict(driver="c15.cpp", level="exploration", title="linear-field, superposition and stored-row oracle on all grids",
    rule="one case = one cell of one of the 530 settings, its whole or irreducible zone, one kind of grid of one size, and one layout of values and of vectors (real or complex, 1-D to 5-D, scalars, vectors, matrices, several modes); linear fields, arbitrary rows, superpositions and single elements looked up at 34 points each; distinct = hash of setting, kind, metric, size and layout",
    floors={"observations": 500000, "distinct": 1100, "grids: trellis": 250, "grids: triangulated trellis": 250, "grids: nest": 250, "grids: mesh": 250, "linear fields judged": 38000, "stored rows looked up": 9000, "lists with a point outside": 550, "lattice-vector interface": 550},
    note="The oracle is the field itself: linear fields are reproduced (complex vectors with an arbitrary phase per stored point and mode up to one phase), stored rows come back, interpolation is additive and homogeneous, elements do not mix, lists, thread counts and single points agree bit for bit, points outside a nest or mesh are refused. The overall phase of an interpolated complex vector is not judged."),
 "C16": dict(driver="c16.cpp", level="exploration", title="Cartesian tensor-rotation oracle on symmetry-reduced interpolation",
    rule="one case = one cell of one of the 530 settings, its irreducible (sometimes whole) zone, one kind of grid, one layout of values and vectors, each in one of the three supported frames, and 46 wave vectors including symmetry-related and lattice-translated ones; distinct = hash of setting, kind, metric, size and layout",
    floors={"observations": 150000, "distinct": 900, "grids: trellis": 200, "grids: triangulated trellis": 200, "grids: nest": 200, "grids: mesh": 200, "results judged": 40000, "equivalent wave vectors judged": 14000, "position matrices interpolated": 25000, "positions interpolated": 20000, "operations of order 3": 1000, "operations of order 4": 800, "operations of order 6": 100, "operations of order 6 improper": 500, "already inside": 900},
    note="The operation is rebuilt as a Cartesian orthogonal matrix from the reported reduction (itself decided by C04) and applied to the unrotated result; invariants of equivalent wave vectors agree; the position field, which every grid represents exactly, must come back as the wave vector itself up to a lattice vector, also as an antisymmetric matrix."),
    "C17": dict(driver="c17.cpp", level="exploration", title="Spring-model oracle on phonon eigenvectors and dynamical matrices",
        rule="one case = one cell of one of the 530 settings with a basis of random orbits, its irreducible (sometimes whole) zone, one kind of grid filled with modes and dynamical matrices of a spring model with the symmetry of the crystal, and 34 wave vectors; distinct = hash of setting, kind, metric and positions",
        floors={"observations": 30000, "distinct": 700, "grids: trellis": 150, "grids: triangulated trellis": 150, "grids: nest": 150, "grids: mesh": 150, "results judged": 18000, "matrices judged": 2000, "images of stored points judged": 7000, "operations which move atoms to other cells": 17000, "stored as values": 140, "operations of order 3": 250, "operations of order 4": 180, "operations of order 6": 25},
        note="The transformation is rebuilt from the exact operations of the space group, the atoms they interchange and the cells these fall into; at images of stored points the dynamical matrix of the wave vector itself, from the springs, relates the modes. The phase of each mode is free; operations which only time reversal provides are not judged."),
    "C18": dict(driver="c18.cpp", level="exploration", title="Exhaustive-search oracle on the correspondence of modes",
        rule="one case = one grid over the irreducible (sometimes whole) zone of one cell of one of the 530 settings with up to 5 modes and one pair of cost functions; distinct = hash of setting, kind, metric, size and layout",
        floors={"observations": 150000, "distinct": 850, "grids: trellis": 180, "grids: triangulated trellis": 180, "grids: nest": 180, "grids: mesh": 180, "connections judged": 50000, "connections between differently ordered modes": 30000, "points of bands judged": 9000, "relabelled points judged": 5500, "sorted again": 850, "fewer modes": 600, "vector cost 0": 100, "vector cost 1": 100, "vector cost 2": 100, "vector cost 3": 100, "vector cost 4": 100, "vector cost 5": 100},
        note="Recorded correspondences of connected points are permutations, inverse to each other, and no permutation is cheaper by independently written costs; relabelling the modes of each point and changing their phases changes nothing; separated bands are followed; sorting again or with other numbers of threads changes nothing."),
    "C24": dict(driver="c24.cpp", level="exploration", title="Bit-for-bit comparison of what is read with what was saved",
        rule="one case = a file into which up to 8 objects of 16 kinds are saved under a few names, in the file or in a group, some replacing others, and from which everything is read twice and saved again; distinct = hash of kind, description and content",
        floors={"observations": 25000, "distinct": 3500, "numbers compared": 7000000, "entries replaced": 1200, "equality judged": 2800, "copies of copies": 4500, "nests refused": 50, "read: array": 600, "read: vectors": 300, "read: basis": 170, "read: comparison settings": 170, "read: symmetry": 280, "read: point symmetry": 350, "read: lattice": 370, "read: permutations": 160, "read: data": 450, "read: zone": 180, "read: polyhedron": 240, "read: Cartesian polyhedron": 270, "read: faces": 350, "read: trellis": 130, "read: triangulated trellis": 150, "read: mesh": 140},
        note="HDF5 is replaced by an in-memory stand-in with the same interface and its strictness about names, shapes and types; everything an object shows is compared: stored numbers, their order, polyhedra, reduction of wave vectors, interpolation before and after sorting. The nest, which can not be saved, must say so."),
 "C27": dict(driver="c27.cpp", env={"OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0"}, level="exploration", title="Position-ledger oracle on combined vertex maps",
    rule="one case = up to 9 pieces of up to 8 nodes over up to 70 positions (Cartesian or lattice vectors) filled by every route, combined serially, by several threads and in random groupings; distinct = hash of the positions",
    floors={"observations": 8000000, "distinct": 6000, "pairs judged": 120000, "vertices judged": 2500000, "vertices added": 500000, "origins added": 3000, "combinations": 20000, "added after combination": 15000, "shared nodes refused": 5000, "lattice vectors": 3000, "Cartesian vectors": 3000},
    note="Each vertex of each node is written down with the position it had when added; after any combination its index must lead there, each position must occur once and nothing else may be there; inputs stay as they were, results do not depend on threads, nodes given twice are refused. Positions are well separated (more than 0.2) with round-off jitter up to 1e-14."),
 "C26": dict(runner=lambda *a: __import__("memory").run(*a), level="exploration", title="AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and memcheck under every workload",
    rule="one case = one case of one driver of this framework, run in a process instrumented by the sanitizers or under memcheck; distinct = pair of driver and the hash it gives to a case",
    floors={"observations": 1000000, "cases": 5000, "distinct": 4000, "runs": 30},
    note="The library, TetGen and the drivers of the other properties are compiled with address (bounds, lifetimes, leaks, stack use after return) and undefined-behaviour instrumentation and checked standard containers; a part of the cases runs under memcheck for uninitialised storage; a driver of its own feeds hostile texts, cells, wave vectors, data, polyhedra and bases (not numbers, infinite, huge, empty, of wrong sizes). Reports about behaviour are left to the other properties. TetGen's own misaligned loads are known findings."),
}
