#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles, statements and anchors)."""
import json, os
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

D = "dreimac/"
ALLC = [D + f for f in ("emcoords.py", "toroidalcoords.py", "circularcoords.py", "projectivecoords.py", "complexprojectivecoords.py", "lenscoords.py")]

prop("C01", "Circle-valued maps are angles in [0, 2*pi], reduced by exactly one turn",
 """Every circle-valued map the library returns (circular and toroidal coordinates, and rotated, centred or
 linearly combined circle maps) consists of angles in [0, 2*pi] for every finite input, reduced modulo exactly one full turn.
 The coordinates equal one full turn times the integral of the class, so an integer change of that integral is invisible, and
 colour values derived from circle maps lie in [0, 1] and do not change when a full turn is added to an angle; the colouring by
 n level sets repeats on each of the n equal arcs of the circle.""",
 ["inputs"], "All point clouds, distance matrices, classes, filtration choices, circle maps, offsets and integer matrices.",
 "Tests look at distances between coordinates on six fixed datasets and never at the range or period; a missing or misplaced reduction on one of the return paths (single class, several classes, vector or matrix combination) passes them.",
 [D+"toroidalcoords.py", D+"circularcoords.py", D+"utils.py"],
 [("reduction modulo 2*pi at the end of the sparse integration", D+"toroidalcoords.py:_sparse_integrate"), ("reduction after combination/rotation", D+"utils.py:CircleMapUtils")],
 ["CircularCoords.get_coordinates", "ToroidalCoords.get_coordinates", "CircleMapUtils.*"])

prop("C02", "Projective and lens coordinates are unit vectors",
 """Every point returned by the real projective, complex projective and lens coordinates is a unit vector whenever the data point is covered
 by a landmark ball and does not project to zero in the kept directions, for every dataset, target dimension and dimensionality reduction mode.""",
 ["inputs", "configurations"], "All datasets, classes, target dimensions and the three reduction modes, including targets that need no reduction step.",
 "The tests check only the number of rows; the other two modes, lens coordinates and the norm of the output are never exercised.",
 [D+"utils.py", D+"projectivecoords.py", D+"complexprojectivecoords.py", D+"lenscoords.py"],
 [("square root of the partition of unity times a unit phase", D+"lenscoords.py:get_coordinates"), ("renormalisation after each truncation", D+"utils.py:EquivariantPCA.ppca")],
 ["get_coordinates of ProjectiveCoords, ComplexProjectiveCoords, LensCoords"])

prop("C03", "Coordinates have one entry per data point and the requested dimension",
 """Each coordinates object returns exactly one coordinate per data point, in the order of the input data, for point clouds, square and rectangular distance matrices.
 Toroidal coordinates are an array with one row per requested class, also when a single class is requested; projective coordinates have proj_dim+1 columns and lens coordinates complex_dim columns
 in each of the three reduction modes (whenever there are at least that many landmarks).""",
 ["inputs", "configurations"], "All datasets, input forms, numbers of landmarks, class lists, target dimensions and reduction modes.",
 "Tests check len() for a few default configurations only; two of the three reduction modes, rectangular distance matrices, single-class toroidal output and extreme target dimensions are not run.",
 ALLC + [D+"utils.py"],
 [("axis conventions landmarks x data", D+"emcoords.py:EMCoords.__init__"), ("truncation bookkeeping per mode", D+"utils.py:EquivariantPCA.ppca")],
 ["get_coordinates of all five classes"])

prop("C04", "Reduction is equivariant and keeps the directions of largest variance",
 """Dimensionality reduction of projective and lens coordinates is well defined on the quotient: multiplying the representative of one data point by a unit scalar multiplies that point's output by the same scalar and changes no other output.
 The kept directions are an orthonormal eigenbasis of the (Hermitian) second-moment matrix of the data, those of largest variance, ordered from largest to smallest, in every reduction mode; the variance reported for a discarded direction
 is measured along that same direction.""",
 ["inputs", "configurations"], "All class maps (real and complex), target dimensions and the three modes.",
 "Tests only compare norms of a variance vector which is identically zero in the default mode; no test uses complex data in the one-by-one mode or checks equivariance.",
 [D+"utils.py"],
 [("conjugate in the Gram matrix and the projection; descending eigenvectors", D+"utils.py:EquivariantPCA.ppca")],
 ["EquivariantPCA.ppca", "get_coordinates of the projective and lens classes"])

prop("C05", "Coordinates are only ever computed from verified integer cocycles",
 """The integer lift of a finite-field cocycle is congruent to it modulo the prime with coefficients of least absolute value. With the cocycle check enabled (the default), circular, toroidal and complex projective coordinates are computed only from an integer cochain
 that was verified to be a cocycle at the chosen filtration value or was corrected by the prime times an integer solution of the coboundary equation; if no such correction exists an exception is raised, for every number of classes requested.""",
 ["inputs", "configurations"], "All primes, datasets, filtration values and lists of classes, including several classes that each need correction.",
 "Only one test input has a single class that needs correction; correction of several classes, primes for which the lift fails with no correction, and the complex projective correction path are never executed.",
 [D+"toroidalcoords.py", D+"complexprojectivecoords.py", D+"utils.py"],
 [("check, integer program, failure raises", D+"toroidalcoords.py:ToroidalCoords.get_coordinates"), ("same for degree two", D+"complexprojectivecoords.py:ComplexProjectiveCoords.get_coordinates"), ("lift", D+"utils.py:CohomologyUtils.lift_to_integer_cocycle")],
 ["get_coordinates(check_cocycle_condition=True)"])

prop("C06", "Coboundary operators and cocycle tests describe one Rips complex",
 """On every landmark set and filtration value the composite of consecutive coboundary operators is zero, the full and compact forms of an operator have the same non-zero rows,
 and the cocycle tests accept exactly the cochains the corresponding operator sends to zero. All of them, and the inner product and the integration, use the same simplices: those all of whose pairwise landmark distances are strictly below the filtration value.""",
 ["inputs"], "All distance matrices, filtration values and cochains.",
 "No test calls the operators directly; a sign or an off-by-one in one of six sibling loop nests only shows on datasets with the right simplices.",
 [D+"utils.py", D+"toroidalcoords.py", D+"complexprojectivecoords.py"],
 [("sibling loop nests over the Rips complex", D+"utils.py:CohomologyUtils.make_delta0/make_delta1/make_delta1_compact/make_delta2_compact"), ("cocycle tests", D+"toroidalcoords.py:_is_one_cocycle, "+D+"complexprojectivecoords.py:_is_two_cocycle")],
 ["CohomologyUtils.make_delta*", "get_coordinates"])

prop("C07", "Simplices are numbered consistently and compiled loops stay in bounds",
 """Every place that numbers a simplex gives the same number to the same simplex, distinct numbers to distinct simplices of a dimension, and only numbers below the count of simplices of that dimension.
 The lookup tables and buffers used by the (unchecked) compiled loops are large enough for every number of landmarks, so no call reads or writes outside an array.""",
 ["inputs"], "All numbers of landmarks (including the documented 'use everything' values) and all distance matrices.",
 "The test enumerates five triangles on five vertices; out-of-bounds accesses in compiled code do not raise, so tests with enough slack pass.",
 [D+"combinatorial.py", D+"utils.py", D+"toroidalcoords.py", D+"complexprojectivecoords.py"],
 [("combinatorial number system", D+"combinatorial.py"), ("buffer sizes", D+"utils.py:CohomologyUtils.make_delta*")],
 ["combinatorial_number_system_*", "CohomologyUtils.make_delta*", "get_coordinates"])

prop("C08", "Cochains and transition functions are alternating in every representation",
 """Permuting the vertices of a simplex multiplies the value of a cochain by the sign of the permutation, in the conversion from sparse to dense cochains and in the matrix and tensor forms used for integration.
 Transition values of the line bundles behind projective and lens coordinates are unit scalars, equal to the root of unity raised to the cocycle value, and inverse to each other for the two orientations of an edge.""",
 ["inputs"], "All cocycles with vertices in any order, all primes.",
 "The persistence library returns vertices in one fixed order, so the sign conventions for the other orders are never exercised by tests on real data.",
 [D+"utils.py", D+"complexprojectivecoords.py", D+"projectivecoords.py", D+"lenscoords.py"],
 [("sorting permutation and its parity", D+"utils.py:CohomologyUtils.order_simplex/parity/sparse_cocycle_to_vector"), ("tensor forms", D+"complexprojectivecoords.py:_one_cocycle_to_tensor/_two_cocycle_to_tensor"), ("transition matrix", D+"lenscoords.py, "+D+"projectivecoords.py")],
 ["CohomologyUtils", "get_coordinates"])

prop("C09", "Classes are ordered by persistence and stay paired with their cocycles",
 """In every positive dimension up to the requested maximum, class index k denotes the k-th most persistent class: diagram points are in non-increasing order of persistence and the cocycle at an index represents the diagram point at the same index.
 The birth, death and cocycle used to build a coordinate all belong to the class index and degree the user asked for.""",
 ["inputs", "configurations"], "All datasets, maximum dimensions and class indices.",
 "Tests use one or few prominent classes in degree one or two, where several wrong orderings coincide with the right one.",
 [D+"emcoords.py"] + ALLC[1:],
 [("one sorting permutation applied to diagram and cocycles", D+"emcoords.py:EMCoords.__init__"), ("lookup", D+"emcoords.py:EMCoords.get_representative_cocycle")],
 ["get_representative_cocycle", "get_coordinates(cocycle_idx=...)"])

prop("C10", "The filtration value is the documented one and matches the cover radius",
 """The filtration value is (1-perc)*start + perc*end, where end is the death of the class and start is its birth, doubled when standard_range is on; for several classes the latest birth and the earliest death are used, and the cover radius is half the filtration value.
 An exception is raised when that range is empty or the classes share no filtration value, and the same filtration value and radius are used for the complex, the cocycle check and the cover.""",
 ["inputs", "configurations"], "All births, deaths, perc, standard_range and class lists.",
 "Tests run four values of perc with standard_range on; they never inspect the chosen value, the exceptions, or standard_range=False.",
 ALLC,
 [("cover radius", D+"emcoords.py:EMCoords.get_cover_radius"), ("several classes", D+"toroidalcoords.py:ToroidalCoords.get_coordinates")],
 ["get_cover_radius", "get_coordinates(perc=..., standard_range=...)"])

prop("C11", "The cover weights form a partition of unity; uncovered points are flagged",
 """For every covered data point the weights of the landmarks are non-negative, sum to one and are zero for landmarks at distance at least the cover radius; each built-in bump function is positive inside the ball and non-increasing in the distance. This holds for distance matrices of any numeric type.
 Points not covered by any landmark produce a warning and not-a-number coordinates for themselves, and do not change the coordinates of covered points.""",
 ["inputs", "configurations"], "All distance arrays (integer or floating point), radii and built-in bump functions; any set of uncovered points.",
 "Every test input is floating point and fully covered and uses the linear bump function.",
 [D+"emcoords.py", D+"utils.py"],
 [("cover and normalisation", D+"emcoords.py:EMCoords.get_covering_partition"), ("bump functions", D+"utils.py:PartUnity"), ("reduction of class maps with uncovered points", D+"utils.py:EquivariantPCA.ppca")],
 ["get_covering_partition", "get_coordinates", "PartUnity.*"])

prop("C12", "Local formulas glue: the map does not depend on the chosen ball",
 """The value at a data point does not depend on which landmark ball containing it is used: switching balls changes a circle coordinate by an integer number of turns and a projective or lens coordinate by a unit scalar.
 The ball used always contains the point, weights are taken at that point, and the harmonic part and its potential enter with matching signs.""",
 ["inputs"], "All datasets, cocycles and partition functions.",
 "Tests check continuity on one dataset with a tolerance of a tenth of a turn, and nothing for projective or lens coordinates.",
 [D+"toroidalcoords.py", D+"complexprojectivecoords.py", D+"projectivecoords.py", D+"lenscoords.py", D+"emcoords.py"],
 [("first ball containing the point; upper-triangular cochain matrix", D+"emcoords.py:get_covering_partition, "+D+"toroidalcoords.py:_sparse_integrate"), ("degree two", D+"complexprojectivecoords.py:_sparse_integrate")],
 ["get_coordinates of all five classes"])

prop("C13", "Inputs and computed state are never modified; calls are repeatable",
 """No public function modifies an array, list or other object passed in by the caller (except reindex_cocycles, whose purpose is to relabel the given cocycles, and drawing on given axes). Computing coordinates leaves the stored persistence diagrams, cocycles and distances as they were, so representative cocycles keep taking values in the prime field
 and the same call returns the same result no matter which calls came before it.""",
 ["histories", "inputs"], "All sequences of calls on one object and all inputs shared with the caller.",
 "Each test makes one call per object and never looks at its inputs or the stored state afterwards.",
 ALLC + [D+"utils.py", D+"combinatorial.py", D+"plotting_utils.py"],
 [("copies before in-place updates", D+"utils.py:CohomologyUtils.lift_to_integer_cocycle, ProjectiveMapUtils.circle_to_3dnorthpole")],
 ["all public functions"],
 [("stored diagrams, cocycles, distances", "result of the persistence computation", D+"emcoords.py:EMCoords.__init__")])

prop("C14", "Results are deterministic functions of the arguments",
 """Coordinates depend only on their arguments: no random number, clock or environment value influences a result. Every example generator that draws random numbers seeds the generator first, with the seed argument when one is given (the sample size or a constant otherwise),
 so equal arguments give equal samples regardless of what ran before.""",
 ["histories", "inputs"], "All calls after any earlier use of the global random generator.",
 "Tests never call a generator twice or with different seeds.",
 ALLC + [D+"utils.py"],
 [("seeding before drawing", D+"utils.py:GeometryExamples.*")],
 ["GeometryExamples.*", "get_coordinates"])

prop("C15", "Every documented option takes effect",
 """Each documented parameter of a public function influences its result (or, for verbosity, its output) as described, and options given to a front-end class reach the computation under the same meaning, in every mode.
 In particular classes derived from another forward all of their options, and default arguments of a derived class apply only when the caller omits them.""",
 ["inputs", "configurations"], "All values of all documented parameters.",
 "Tests leave most parameters at their defaults, so an ignored, overwritten or swapped parameter is invisible.",
 ALLC + [D+"utils.py", D+"plotting_utils.py"],
 [("forwarding of arguments", D+"circularcoords.py, "+D+"lenscoords.py, "+D+"projectivecoords.py")],
 ["all public functions"])

prop("C16", "Rounding never turns valid input into not-a-number",
 """For finite, valid inputs no result becomes not-a-number because rounding moves a quantity slightly outside the domain of a square root, inverse cosine or similar function: every such argument is non-negative (or within [-1, 1]) by construction or clipped first.""",
 ["inputs"], "All finite inputs, including points on the boundary of the domain (coincident, antipodal, unit-norm up to rounding).",
 "Boundary inputs are not tested, and whether a rounding error has the fatal sign depends on the exact digits.",
 [D+"utils.py"] + ALLC,
 [("clipping before sqrt/arccos", D+"utils.py:GeometryUtils.get_csm/get_csm_projarc, ProjectiveMapUtils, LensMapUtils, EquivariantPCA.ppca")],
 ["GeometryUtils.*", "ProjectiveMapUtils.*", "LensMapUtils.*", "EquivariantPCA.ppca"])

prop("C17", "Lattice reduction applies one unimodular change of basis throughout",
 """For several classes, the returned circular coordinates are an integer, unimodular linear combination of the original ones, the same combination that turns the original lattice basis into the reduced one, and the reported Gram matrices are those of the original and of the reduced basis.
 The reduction uses a correct orthogonalisation of the current basis for every number of classes and stops only when the basis is size-reduced and satisfies the exchange condition.""",
 ["inputs"], "All sets of classes and all positive definite Gram matrices of any size.",
 "Tests compare norms of two matrices on four datasets; norms do not see a transposed matrix, and an incorrect orthogonalisation still yields some unimodular change.",
 [D+"toroidalcoords.py", D+"utils.py"],
 [("LLL", D+"toroidalcoords.py:_lll, _gram_schmidt, _reduce_circular_coordinates, _gram_matrix"), ("combination", D+"utils.py:CircleMapUtils.linear_combination")],
 ["ToroidalCoords.get_coordinates(cocycle_idxs=[...])"])

prop("C18", "Compiled routines behave like the Python they were compiled from",
 """Just-in-time compiled routines give the result of the Python source for every input size: they do not read arrays captured from an enclosing scope that are written while the routine runs or after it was compiled,
 and routines that can receive not-a-number values (uncovered points) are not compiled with optimisations that assume such values away.""",
 ["inputs", "configurations"], "All dataset sizes (captured arrays are frozen below a size threshold), with the compiler on or off.",
 "The two complex projective tests use arrays just above the size at which captured arrays are frozen; smaller datasets take the other path.",
 [D+"complexprojectivecoords.py", D+"toroidalcoords.py", D+"utils.py", D+"combinatorial.py"],
 [("arguments instead of captured arrays; no fastmath on weights", D+"complexprojectivecoords.py:_sparse_integrate")],
 ["get_coordinates of all classes", "GeometryExamples.moore_space_distance_matrix"])

prop("C19", "Landmark sampling returns aligned permutations, radii and distances",
 """Each subsampling routine starts at the first point and repeatedly adds a point at maximal distance from those chosen so far; the k-th index, insertion radius and distance row it returns all belong to the same, k-th, landmark.
 Rows of returned distances are indexed by landmarks and columns by points (for the geodesic version, columns follow the returned permutation, which begins with the landmarks in the same order).""",
 ["inputs"], "All point clouds, distance matrices, similarity functions and landmark counts.",
 "No test calls the subsampling routines.",
 [D+"utils.py"],
 [("furthest point sampling loops", D+"utils.py:GeometryUtils.get_greedy_perm_pc/get_greedy_perm_dm/landmark_geodesic_distance")],
 ["GeometryUtils.get_greedy_perm_pc", "GeometryUtils.get_greedy_perm_dm", "GeometryUtils.landmark_geodesic_distance"])

prop("C20", "Distance functions return symmetric, non-negative, correctly scaled values",
 """Cross-similarity functions return non-negative values, equal when the two arguments are exchanged and the result transposed; the projective one lies in [0, pi/2] and does not change when a point is replaced by its antipode.
 Generated distance matrices are symmetric and non-negative with entry (i, j) the distance between points i and j of the returned points.""",
 ["inputs"], "All pairs of point clouds, all sample sizes, seeds and primes.",
 "No test looks at the values, and one of the generators is never called.",
 [D+"utils.py"],
 [("polar form of the Euclidean distance, clipped arccos", D+"utils.py:GeometryUtils.get_csm/get_csm_projarc/get_ssm"), ("Moore space metric", D+"utils.py:GeometryExamples.moore_space_distance_matrix")],
 ["GeometryUtils.get_csm", "GeometryUtils.get_csm_projarc", "GeometryExamples.rp2_metric", "GeometryExamples.moore_space_distance_matrix"])

prop("C21", "The documented API exists and only uses functions its dependencies provide",
 """Every class and method listed in the API reference can be imported from the package and accepts the documented parameters. Every attribute of a third-party module that library code refers to exists in the installed version of that module,
 so no public function fails with an attribute or import error on some path.""",
 ["programs", "configurations"], "All paths of all public functions.",
 "The import test covers seven names and imports no code path inside the functions; lens coordinates are never called.",
 [D+"__init__.py", "docs/api.rst", D+"lenscoords.py", D+"utils.py"] + ALLC[:5],
 [("exports", D+"__init__.py"), ("API reference", "docs/api.rst")],
 ["from dreimac import ..."])

prop("C22", "Plot helpers draw only on the axes they are given",
 """Plotting functions that accept axes draw on those axes and only on them, falling back to the current axes exactly when none are given, and return the axes they drew on when documented to. They place the i-th patch or point at the i-th position with its own colour,
 and use the same offset between the two hemisphere disks as the hemisphere projection. Equalising the axes of a 3D plot gives the three axes equal ranges about their old centres.""",
 ["inputs", "configurations"], "All combinations of given and omitted axes and all data.",
 "No test plots anything.",
 [D+"plotting_utils.py", D+"utils.py"],
 [("axes fallback", D+"plotting_utils.py:PlotUtils.*"), ("hemisphere offset", D+"utils.py:ProjectiveMapUtils.stereographic_projection_hemispheres")],
 ["PlotUtils.*"])

prop("C23", "Map utilities are well defined on projective and lens spaces",
 """The Hopf map sends unit vectors to unit vectors and does not see a common phase; the rotation utility returns an orthogonal matrix sending the first direction to the second for all pairs of non-zero vectors; projective stereographic projection sends all points into the unit ball; the projection to two hemisphere disks puts each hemisphere into its own unit disk, the two agreeing along the equator;
 the lens projection sends equivalent points to the same point, inside the unit ball, for every prime; clipping to the circle returns a unit vector on the upper hemisphere.""",
 ["inputs"], "All points, directions (including coincident and antipodal ones) and primes.",
 "None of these utilities is called by a test.",
 [D+"utils.py"],
 [("formulas", D+"utils.py:ProjectiveMapUtils.hopf_map/rotmat/get_stereo_proj_codim1/stereographic_projection_hemispheres/circle_to_3dnorthpole, LensMapUtils.lens_3D_to_disk_3D")],
 ["ProjectiveMapUtils.*", "LensMapUtils.*"])

prop("C24", "Point-cloud, square and rectangular inputs are treated consistently",
 """Rows of the stored distances are indexed by landmarks and columns by all data points, landmark-to-landmark distances are the columns of the landmarks, and the vertex labels of stored cocycles are landmark numbers, for point clouds, square and rectangular distance matrices and any truthy or falsy form of the distance-matrix option.
 For a rectangular matrix persistence uses only the block of candidate landmarks while the cover uses all columns.""",
 ["inputs", "configurations"], "All three input forms, any number of landmarks.",
 "Tests use point clouds and one square distance matrix; the rectangular form and subsampled rectangular form are never run.",
 [D+"emcoords.py", D+"utils.py"],
 [("input forms", D+"emcoords.py:EMCoords.__init__"), ("relabelling", D+"utils.py:CohomologyUtils.reindex_cocycles")],
 ["constructors of all five classes"])

prop("C25", "Example generators sample the spaces they name",
 """The sphere and projective plane samples are unit vectors, torus samples satisfy the torus equation for the given radii and Klein bottle samples its equations, noise is bounded by the noise size,
 and each generator returns the documented number of points and dimension for every parameter value.""",
 ["inputs"], "All sample sizes, radii, seeds and patch dimensions.",
 "Tests use the generators only as data sources with default sizes.",
 [D+"utils.py"],
 [("parametrisations", D+"utils.py:GeometryExamples.*")],
 ["GeometryExamples.*"])

prop("C26", "The integrated cochain is the least-squares remainder of the class",
 """The cochain integrated into circular, toroidal and complex projective coordinates is the integer cocycle minus the coboundary of a potential that is the least-squares solution of that same equation, weighted on both sides alike,
 found without damping and with tolerance, iteration bound and rank cut-off no weaker than the solver's defaults. Every edge of the complex weighs one in the inner product and nothing off the diagonal or off the complex is stored in it; neither the remainder nor the potential is rounded, thresholded or otherwise changed before it is integrated.""",
 ["inputs"], "All landmark sets, filtration values and cocycles.",
 "Tests look at coordinates of a few small complexes, where a damped, truncated or rounded solution still passes.",
 [D+"toroidalcoords.py", D+"complexprojectivecoords.py", D+"circularcoords.py"],
 [("remainder", D+"toroidalcoords.py:_integrate_harmonic_representative"), ("inner product", D+"toroidalcoords.py:_make_inner_product"), ("degree two", D+"complexprojectivecoords.py:ComplexProjectiveCoords.get_coordinates")],
 ["get_coordinates of CircularCoords, ToroidalCoords and ComplexProjectiveCoords"])

# not claimed: quantify over runtime numerical quantities no sound static argument in reach can bound
prop("C90", "Coordinates pull the fundamental class back to the chosen class",
 """With standard_range on, pulling back the fundamental class of the target space along the returned map gives the persistent cohomology class the user selected.""",
 ["inputs"], "All datasets and classes.", "A statement about homotopy classes of maps; tests cannot observe it.",
 ALLC, [("the whole construction", "dreimac/")], ["get_coordinates"])
prop("C91", "Harmonic representatives minimise energy",
 """The cochain integrated to obtain coordinates has least energy among the representatives of its class, up to a stated tolerance.""",
 ["inputs"], "All datasets.", "Depends on convergence of an iterative solver.",
 [D+"toroidalcoords.py", D+"complexprojectivecoords.py"], [("least squares", D+"toroidalcoords.py:_integrate_harmonic_representative")], ["get_coordinates"])
prop("C92", "Lattice reduction terminates and does not increase the Gram matrix",
 """For every set of linearly independent classes the lattice reduction terminates and the norm of the reduced Gram matrix is at most that of the original.""",
 ["inputs"], "All Gram matrices.", "Tests sample four Gram matrices; termination depends on floating point potentials.",
 [D+"toroidalcoords.py"], [("LLL", D+"toroidalcoords.py:_lll")], ["ToroidalCoords.get_coordinates"])
prop("C93", "Coordinates are stable under isometry and relabelling of the input",
 """Applying a rigid motion to the point cloud, or permuting all points but the first, changes coordinates only by a symmetry of the target space and numerical error.""",
 ["inputs"], "All datasets and rigid motions.", "Ties in furthest point sampling and persistence make the outcome depend on digits.",
 ALLC, [("landmark selection", D+"emcoords.py")], ["get_coordinates"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
