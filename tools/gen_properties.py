#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the long lines stay editable)."""
import json, os
P = 'products/ellipy/'
ELL = P + 'elltool/core/ellipsoid/Ellipsoid.py'
AELL = P + 'elltool/core/aellipsoid/AEllipsoid.py'
ABAS = P + 'elltool/core/abasicellipsoid/ABasicEllipsoid.py'
HYP = P + 'elltool/core/hyperplane/Hyperplane.py'
CORE = P + 'elltool/core/core.py'
LA = P + 'gras/la/la.py'
GEN = P + 'gras/gen/gen.py'
GEOM = P + 'gras/geom/geom.py'
GELL = P + 'gras/geom/ell/ell.py'
TRI = P + 'gras/geom/tri/tri.py'
SUP = P + 'gras/geom/sup/sup.py'
SYM = P + 'gras/sym/sym.py'
DICT = P + 'gen/dict/dict.py'
COMM = P + 'gen/common/common.py'
LOG = P + 'gen/logging/logging.py'
PROP = P + 'elltool/conf/properties/Properties.py'
PARSE = P + 'elltool/conf/properties/_ParseProp.py'

rows = []


def add(id_, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id_, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    rows.append({'id': id_, 'title': title, 'statement': statement,
                 'quantifier': {'over': over, 'text': text},
                 'why_tests_cant': why, 'anchors': a})


add('C01', 'Construction accepts exactly the valid ellipsoids and hyperplanes',
    'An ellipsoid is created from a centre and a shape matrix exactly when the centre is a finite real vector and the '
    'shape is a finite, square, symmetric, positive semidefinite matrix of matching size (symmetry, definiteness and '
    'vanishing imaginary parts judged to the absolute tolerance given to the object); a hyperplane exactly when its '
    'normal is a finite vector and its shift one finite number. A created object reports exactly the centre and shape '
    '(normal and shift), tolerances and plot-point counts it was given, with defaults for what was omitted. '
    'Everything else is refused with an error instead of giving an object.',
    ['inputs', 'configurations'],
    'all centres, shapes, normals, shifts (dimensions 1..8, regular, degenerate, slightly asymmetric or indefinite on '
    'either side of the tolerance, complex, non-finite, mis-sized) and all explicit property settings',
    'Existing tests construct a few dozen fixed 1- to 7-dimensional objects and a handful of bad ones; the accept/reject '
    'boundary is a tolerance surface over a continuum of matrices.',
    [ELL, AELL, HYP, PARSE],
    [('centre setter', AELL + ':_center_vec'), ('shape setter', ELL + ':_shape_mat'),
     ('normal/shift setters', HYP + ':_normal_vec,_shift')],
    ['constructor outcome', 'double()/parameters()/get_center_vec()/get_shape_mat()', 'get_abs_tol/get_rel_tol'])

add('C02', 'Objects own their data: no aliasing, and copies are independent',
    'Once created, an ellipsoid or hyperplane never changes because a caller later modifies an array it passed in or an '
    'array it got back, and copies, replicated arrays and non-in-place projections are independent objects equal to '
    'their source. Only the in-place projection changes an existing object, it changes exactly the ellipsoids it was '
    'given and keeps their tolerances and plot settings.',
    ['histories', 'inputs'],
    'all sequences of create / copy / replicate / project (in place or not) / negate / mutate-an-input / '
    'mutate-a-result over a pool of live objects',
    'Aliasing shows only after a history of operations on shared objects; the tests look at single fresh objects.',
    [ELL, AELL, ABAS, HYP],
    [('copying accessors', ELL + ':_shape_mat; ' + AELL + ':_center_vec; ' + HYP + ':_normal_vec'),
     ('get_copy / rep_mat', ABAS), ('projection / get_projection', AELL + ', ' + ELL)],
    ['parameters of every live object after every step'])

add('C03', 'Support function value and boundary point are exact in every direction',
    'For every ellipsoid (degenerate ones included) and every direction the support value equals <l,c> + sqrt(<l,Ql>) '
    'and the returned boundary point belongs to the ellipsoid and attains that value. One ellipsoid with many '
    'directions, many ellipsoids with one direction, and equally shaped arrays of both give elementwise the same '
    'results as separate calls, in the shape of the many-valued argument; mismatched sizes or dimensions are refused.',
    ['inputs'],
    'all ellipsoids of dimension 1..8 including rank-deficient and zero shapes, all direction arrays including kernel '
    'directions, all pairings of array shapes',
    'The tests compare four hand-picked configurations; the claim is over a continuum of shapes and directions and all '
    'pairings of array shapes.',
    [ELL, GELL], [('support function of arrays', ELL + ':rho'), ('kernel', GELL + ':rho_mat')],
    ['returned support values and boundary points'])

add('C04', 'External approximations contain the Minkowski sum and touch it',
    'For any nonempty list of nondegenerate ellipsoids of one dimension and any set of directions, each external '
    'approximation is an ellipsoid centred at the sum of the centres whose support function is nowhere below the sum '
    'of the support functions of the summands and equals it in its own direction. There is exactly one approximation '
    'per direction, in order; it does not depend on the positive scale of the direction or on the other directions, '
    'and one summand alone is returned unchanged. For degenerate summands the approximation still contains the sum and '
    'touches it within the regularisation of the summands.',
    ['inputs'],
    'all lists of 1..5 ellipsoids in dimension 1..6 (degenerate ones included), all direction matrices or single '
    'direction vectors, all probing directions',
    'Tests check stored answers for a few diagonal examples; containment is a for-all-directions statement about a '
    'continuum of summands.',
    [ELL, LA], [('external approximation', ELL + ':minksum_ea'), ('regularisation', LA + ':reg_pos_def_mat')],
    ['shape and centre of each approximation'])

add('C05', 'Internal approximations lie inside the Minkowski sum and touch it',
    'For any nonempty list of nondegenerate ellipsoids of one dimension and any set of directions, each internal '
    'approximation is an ellipsoid centred at the sum of the centres whose support function is nowhere above the sum '
    'of the support functions of the summands and equals it in its own direction. There is exactly one approximation '
    'per direction, in order, independent of the direction\'s positive scale and of the other directions, and one '
    'summand alone is returned unchanged. For degenerate summands it stays inside the sum of the regularised summands.',
    ['inputs'],
    'all lists of 1..5 ellipsoids in dimension 1..6 (degenerate ones included), all direction matrices or single '
    'direction vectors, all probing directions',
    'Tests check stored answers for a few examples; containment is a for-all-directions statement.',
    [ELL, LA], [('internal approximation', ELL + ':minksum_ia'), ('rotations', LA + ':ml_orth_transl')],
    ['shape and centre of each approximation'])

add('C06', 'Point membership in unions and intersections of ellipsoids is exact',
    'For every array of ellipsoids and every set of points the membership test in union mode is true exactly for the '
    'points that lie in at least one of the ellipsoids, and in intersection mode exactly for those that lie in all of '
    'them, boundary included to the tolerance of each ellipsoid. There is one answer per point, in order, whatever the '
    'layout of the array, and it does not depend on the order of the ellipsoids; degenerate ellipsoids are thickened '
    'by no more than their regularisation.',
    ['inputs'],
    'all arrays of 1..6 ellipsoids (any layout, dimension 1..6, some degenerate) and all point sets placed inside, '
    'outside and close to the boundary',
    'Tests try fixed points against unit balls; the claim is over all point/ellipsoid placements.',
    [ELL, LA, GELL], [('membership test', ELL + ':is_internal')], ['boolean answers per point'])

add('C07', 'Containment between concentric ellipsoids is decided correctly',
    'For two ellipsoids of one dimension compared by shape, the comparison is true exactly when the second shape fits '
    'inside the first after moving both centres to the origin, that is, when the difference of the first and the second '
    'shape matrix is positive semidefinite to the tolerance. It is reflexive, consistent under scaling, transitive up to '
    'tolerance, false when the first has smaller rank than the second, decides degenerate first arguments too, and '
    'refuses different dimensions.',
    ['inputs'],
    'all pairs of ellipsoids in dimension 1..6 at controlled distance from the containment boundary, including '
    'degenerate first and second arguments',
    'Tests compare a few diagonal matrices.',
    [ELL, CORE, LA], [('containment test', ELL + ':is_bigger'), ('simultaneous diagonalisation', CORE + ':ell_sim_diag')],
    ['boolean answer'])

add('C08', 'Projection onto an orthogonal basis is the true projection',
    'Projecting an ellipsoid onto the span of mutually orthogonal (not necessarily normalised) nonzero vectors gives '
    'the ellipsoid, in the coordinates of the normalised basis, that is the image of the original: its support value in '
    'any direction equals the support value of the original in the corresponding direction of the full space. Every '
    'ellipsoid of an array is projected, array layout is kept, and a basis that is not orthogonal, has more vectors '
    'than dimensions, or is of another dimension is refused leaving all ellipsoids as they were.',
    ['inputs'],
    'all ellipsoids in dimension 1..6, all orthogonal bases of 1..n scaled vectors, all slightly or grossly '
    'non-orthogonal matrices',
    'Tests use coordinate-axis bases and a single rotated one.',
    [AELL, ELL], [('projection', AELL + ':projection'), ('single projection', ELL + ':_projection_single_internal')],
    ['centre and shape of the projected ellipsoids'])

add('C09', 'Scalar characteristics of ellipsoid arrays are correct elementwise',
    'For every array of ellipsoids, dimension, rank, emptiness, degeneracy, volume, trace and smallest and largest '
    'eigenvalue are for each element those of its own shape matrix (volume the Lebesgue measure of the ellipsoid, zero '
    'exactly when degenerate to the object\'s tolerance), one numeric value per element and in element order whatever '
    'the other elements are. Characteristics that make no sense for an empty ellipsoid refuse arrays containing one. '
    'Tolerance and plot-setting queries report each object\'s own values and the requested aggregate.',
    ['inputs', 'configurations'],
    'all arrays (any layout, mixed dimensions, mixed regular, degenerate and empty elements) of ellipsoids of '
    'dimension 0..8',
    'Tests check single fixed ellipsoids; mixed arrays and general shapes are not sampled.',
    [AELL, ABAS], [('characteristics', AELL + ':volume,trace,min_eig,max_eig,dimension,is_degenerate'),
                   ('property queries', ABAS + ':get_property')],
    ['returned arrays'])

add('C10', 'Equality is an elementwise, symmetric relation with the set tolerance',
    'Equality of ellipsoids or hyperplanes is reflexive and symmetric, true when all data agree within the tolerances '
    'and false when the sets they describe clearly differ (for hyperplanes, of any scale of normal and shift). '
    'Comparing an array with a single object or with an equally laid out array gives one answer per element; mismatched '
    'layouts are refused and a report accompanies every inequality. When object settings are included, objects with '
    'different settings are unequal and objects with equal settings compare as before.',
    ['inputs'],
    'all pairs of objects at controlled distance below and above the tolerance, all array layouts, both comparison '
    'modes',
    'Tests compare fixed pairs.',
    [ABAS, ELL, HYP, DICT], [('equality', ABAS + ':_is_equal_internal'), ('dictionary comparison', DICT)],
    ['boolean answers and report'])

add('C11', 'Boundary grids lie on the boundary of the ellipsoid and cover it',
    'Every boundary point generated for a 2- or 3-dimensional ellipsoid lies on the ellipsoid\'s boundary (in it, for a '
    'degenerate one), generated support values and boundary points match the support function in the returned unit '
    'directions, and the returned faces index existing points and close the surface. The number of points follows '
    'the requested count (exactly in 2-D, at least in 3-D), the object\'s plot setting by default, and its multiple when '
    'a factor (scalar or per-dimension) is given. Other dimensions are refused.',
    ['inputs', 'configurations'],
    'all 2-D and 3-D ellipsoids, all point counts and factors, with and without grids',
    'Tests check one or two fixed ellipsoids and counts.',
    [ELL, TRI, GEOM, GELL], [('boundary', ELL + ':get_boundary,get_boundary_by_factor'),
                             ('support boundary', ELL + ':get_rho_boundary,get_rho_boundary_by_factor')],
    ['returned points, faces, support values, directions'])

add('C12', 'Conversion to dictionaries and back, and replication, lose nothing',
    'Converting any array of ellipsoids or hyperplanes to dictionaries and back gives an array of the same layout with '
    'equal objects (with identical tolerances and plot settings when settings are included), and the rebuilt objects are '
    'fully usable. Building or replicating an object into a given array shape gives that shape filled with equal, '
    'distinct objects with the same settings, and invalid shapes are refused.',
    ['inputs', 'configurations'],
    'all arrays of objects with all settings, all replication shapes (integers, integer-valued floats, zero sizes)',
    'Tests convert a few default-configured objects.',
    [ELL, HYP, ABAS], [('to_dict/from_dict', ELL + ', ' + HYP), ('from_rep_mat/rep_mat', ELL + ', ' + HYP + ', ' + ABAS)],
    ['rebuilt objects'])

add('C13', 'Hyperplane membership, parallelism and negation are geometrically right',
    'A point belongs to a hyperplane exactly when its inner product with the normal equals the shift to the '
    'hyperplane\'s tolerance (an infinite coordinate being allowed only where the normal vanishes), for one hyperplane '
    'with many points, many hyperplanes with one point, and matching arrays. Two hyperplanes are parallel exactly when '
    'their normals are proportional to the tolerance, whatever their sign and scale, for one-to-many and array '
    'arguments. Negation flips normal and shift, so it describes the same set.',
    ['inputs'],
    'all hyperplanes in dimension 1..6 and all points on, near and off them; all pairs of normals at controlled angles; '
    'all pairings of array shapes',
    'Tests use stored axis-like examples.',
    [HYP], [('membership', HYP + ':contains'), ('parallelism', HYP + ':is_parallel'), ('negation', HYP + ':uminus')],
    ['boolean answers', 'parameters of the negated hyperplane'])

add('C14', 'Polars of ellipsoids around the origin are exact and involutive',
    'For every ellipsoid with the origin in its interior a vector belongs to the polar ellipsoid exactly when the '
    'support value of the original in it is at most one, and the polar of the polar is the original. Arrays are converted elementwise '
    'keeping their layout, both computation methods agree, and ellipsoids that are degenerate or do not contain the '
    'origin in their interior are refused.',
    ['inputs'],
    'all ellipsoids in dimension 1..6 with the origin at controlled depth inside or outside; all array layouts',
    'Tests look only at centred Hilbert matrices and one rejection.',
    [ELL, GELL], [('polar', ELL + ':polar,_get_scalar_polar_internal')], ['centre and shape of the polar'])

add('C15', 'Symmetric and positive-definite matrix tools satisfy their definitions',
    'The square root of a positive semidefinite matrix is symmetric, positive semidefinite and squares to the matrix; '
    'the symmetry, (semi)definiteness and nondegeneracy tests are decided by the entry differences, eigenvalues and '
    'singular values relative to the tolerance; regularisation raises every eigenvalue (singular value) below the '
    'threshold to the threshold and changes nothing else. Input violating the preconditions (asymmetric, indefinite, '
    'negative tolerance, significant imaginary part) is refused, insignificant imaginary parts are dropped.',
    ['inputs'],
    'all symmetric matrices of size 1..8 with prescribed spectra, including repeated, zero and slightly negative '
    'eigenvalues, all tolerances, and all small perturbations of symmetry',
    'Tests use a few 2x2..4x4 matrices.',
    [LA], [('matrix toolkit', LA + ':sqrtm_pos,is_mat_symm,is_mat_pos_def,is_mat_not_deg,reg_pos_def_mat,reg_mat,'
            'try_treat_as_real')],
    ['returned matrices and booleans'])

add('C16', 'Orthogonal transformations map the source direction onto the target',
    'For all nonzero vectors of equal size every rotation builder returns an orthogonal matrix that sends the '
    'normalised source to the normalised destination, also for parallel, opposite and nearly parallel vectors; the '
    'batched builder equals the single one per pair. The direction- and trace-maximising variants attain the largest '
    'possible inner product (trace) among all such orthogonal matrices, and the orthogonal completion of a matrix is '
    'orthogonal with positive triangular part and spans the same columns. Zero vectors are refused where the builder '
    'checks for them.',
    ['inputs'],
    'all vector pairs in dimension 1..8 (generic, axis, parallel, antiparallel, nearly parallel) and all auxiliary '
    'vectors and matrices',
    'Tests use a fixed set of vectors.',
    [LA], [('rotation builders', LA + ':orth_transl,orth_transl_haus,orth_transl_qr,orth_transl_max_dir,'
            'orth_transl_max_tr,ml_orth_transl'), ('completion', LA + ':mat_orth,math_orth_col')],
    ['returned matrices'])

add('C17', 'Core transforms: simultaneous diagonalisation, alignment, fusion',
    'For a positive definite and a symmetric matrix the diagonalising transform maps the first '
    'to the identity and the second to a diagonal matrix; the alignment transform is orthogonal and turns one vector '
    'into the direction of the other; the fusion function vanishes exactly at the stationary points of the volume of the '
    'fused ellipsoid and is positive exactly where that volume decreases in the parameter. The unit ball has zero centre and identity shape. Invalid arguments '
    'are refused.',
    ['inputs'],
    'all matrices of size 1..6 with bounded condition, all vectors including zero and one-dimensional ones, all fusion '
    'parameters in (0,1)',
    'Tests check only one or two fixed matrices for each function.',
    [CORE], [('ell_sim_diag, ell_valign, ell_fusion_lambda, ell_unitball', CORE)], ['returned matrices and values'])

add('C18', 'Quadratic forms, inverses and volumes agree with linear algebra',
    'The quadratic form of a matrix, of its inverse, and of its refined inverse about a centre equals the defining '
    'matrix expression for row, column and flat vectors; the matrix inverse inverts; the volume function is the Lebesgue '
    'volume of the ellipsoid and scales with the determinant; the matrix-level support function agrees with its '
    'definition for one and for many directions. Inconsistent shapes, non-numeric data and unknown modes are refused.',
    ['inputs'],
    'all well-conditioned matrices of size 1..8, vectors, centres, modes and directions',
    'Tests evaluate a few constants.',
    [GELL], [('quad_mat, inv_mat, ell_volume, rho_mat', GELL)], ['returned values'])

add('C19', 'Circle and sphere grids are evenly built, unit-norm and closed',
    'Circle partitions return the requested number of equally spaced points of the unit circle starting at the given '
    'angle and covering the given range without its end; sphere triangulations of any depth are closed, consistently '
    'oriented meshes of distinct unit vectors with 10*4^d+2 vertices and 20*4^d faces; sphere direction sets return the '
    'requested number of distinct unit vectors with no two opposite, taken in turn closest to the z, x and y axes. The general grid builder returns exactly the requested '
    'number of points in 2-D and the smallest admissible refinement with at least that number in 3-D, never with exact '
    'zeros. Non-positive or non-integer sizes are refused.',
    ['inputs'],
    'all counts 1..700, angle ranges and depths 0..3 (exhaustive for small values)',
    'Tests check a couple of depths and counts.',
    [GEOM, TRI], [('circle_part, sphere_part', GEOM), ('icosahedron, sphere_tri, sphere_tri_ext', TRI)],
    ['returned grids'])

add('C20', 'Mesh refinement shortens edges without changing the surface',
    'Refining a triangle mesh stops only when every edge is within the limit (one exactly as long as the limit is) or the step limit is reached, keeps all '
    'original vertices first, adds only (adjusted) edge midpoints, preserves total area and the surface covered when no '
    'adjustment is requested, and keeps a conforming closed mesh closed and conforming. The returned edges are those of '
    'the returned faces, the face-to-edge map and edge directions refer to them, and the collected statistics count the '
    'vertices, faces and edges after every step and the edges split in it. Refining step by step gives the same mesh as '
    'refining at once.',
    ['inputs', 'histories'],
    'all conforming triangle meshes (single triangles, fans, grids, polyhedra, random subdivisions with random vertex '
    'positions), all length limits and step limits',
    'Tests check two or three fixed meshes.',
    [TRI], [('refinement', TRI + ':shrink_face_tri')], ['returned vertices, faces, edges, maps and statistics'])

add('C21', 'Mesh topology, mesh comparison and tube meshes are combinatorially right',
    'For every manifold triangle mesh the edge list contains every edge of every face exactly once, and the '
    'face-to-edge map names for each face side its edge and its direction; face lookup is true exactly for the faces of '
    'the mesh whatever their vertex order. Mesh comparison is true for any renumbering of vertices and reordering of '
    'faces with vertices moved within the tolerance, and false with a reason when a vertex or a face differs. Tube '
    'meshes join consecutive sections by the correct, complete set of faces.',
    ['inputs'],
    'all manifold meshes (with boundary, closed, multi-component), all renumberings, perturbations and single-face '
    'modifications; all tube sizes up to 12 x 12',
    'Tests use fixed small meshes.',
    [TRI, GEN], [('map_face_2_edge, get_face_edge_info', TRI), ('is_face, is_tri_equal', TRI),
                 ('ell_tube_2_tri, ell_tube_discr_tri', TRI)],
    ['returned tables and booleans'])

add('C22', 'Support functions convert to boundaries and geometric differences',
    'From support values given on ordered directions (on triangulated directions in 3-D) the reconstructed boundary '
    'points satisfy the support equalities of their adjacent directions, in order, so that a polytope circumscribed in '
    'these directions is recovered exactly. The geometric difference of two sets given by support values on directions '
    'surrounding the origin is the support function of the largest set whose sum with the second fits the first, i.e. '
    'the tightest convex function below the difference of the values; inputs that do not fit or have empty interior are '
    'refused.',
    ['inputs'],
    'all positively spanning direction sets in the plane and in space (any order and starting angle) and all support '
    'values, including differences that are not convex at one or many consecutive directions',
    'Tests use a few ellipse pairs on uniform grids.',
    [SUP], [('boundary reconstruction', SUP + ':sup_2_boundary_2,sup_2_boundary_3'),
            ('geometric difference', SUP + ':sup_geom_diff_2d,sup_geom_diff_3d')],
    ['returned points and values'])

add('C23', 'Time-indexed matrix operations act slice by slice',
    'Transposition, symmetrisation, triangular part, pseudo-inverse, evaluation of a function, and the products of '
    'time-indexed matrices with matrices, with time-indexed vectors, with constant matrices and of three factors give for '
    'every time index the result of the ordinary matrix operation on that slice. Dense and sparse computation agree, a '
    'plain matrix behaves as a single slice, scalar-shaped slices scale, and arguments are never modified.',
    ['inputs'],
    'all shapes (1..5 rows, 1..5 columns, 1..6 slices, plain matrices, 1x1 slices) and values',
    'Tests use a few fixed 2x2 and 3x3 arrays.',
    [GEN], [('MatVector', GEN + ':MatVector')], ['returned arrays'])

add('C24', 'Square and symmetric time-indexed operations act slice by slice',
    'Inversion, square root, positive-definite repair, two-sided products, quadratic forms and their inverse-weighted '
    'variants on time-indexed square matrices give for every time index the result of the ordinary operation on that '
    'slice, and the spectral implementations for symmetric matrices give the same results as the direct ones. A plain '
    'matrix is a single slice, singular matrices are refused by inversion, a constant outer factor and a constant matrix of quadratic forms are repeated for every '
    'time index, slices with NaNs or indefinite ones are handled without touching other slices, and arguments are '
    'never modified.',
    ['inputs'],
    'all symmetric and square arrays of size 1..5 with 1..6 slices, all rectangular factors, both multiplication sides',
    'Tests use 2x2 matrices whose eigenvector matrices are themselves symmetric, for which transposition errors cancel.',
    [GEN], [('SquareMatVector, SymmetricMatVector', GEN)], ['returned arrays'])

add('C25', 'Expressions and functions of time evaluate to the right matrices',
    'A matrix expression of time evaluated on a time vector gives at every time index the matrix of the values of its '
    'entries, with constant entries repeated, for scalar, row and matrix expressions, expression tables and functions, '
    'and for one or many time points alike. Dependence on the time variable is reported exactly when the variable '
    'occurs as a separate name, and variable replacement substitutes exactly these occurrences and nothing else, so '
    'that evaluating the replaced expression equals evaluating the original at the substituted argument.',
    ['inputs', 'programs'],
    'all expression trees over the time variable, constants, numpy functions and names containing the variable\'s letter; '
    'all time vectors',
    'Tests evaluate a few literals.',
    [GEN, SYM], [('from_expression, from_formula_mat, from_func', GEN), ('is_dependent, var_replace', SYM)],
    ['returned arrays and strings'])

add('C26', 'Tolerance-aware comparison of arrays and dictionaries is exact',
    'Two numeric arrays are equal exactly when non-finite values coincide in place and sign and every finite difference '
    'is within the absolute tolerance or, where it is not, within the relative one; the reported differences are the '
    'true ones and a report accompanies every inequality. Dictionaries, arrays and lists of them, nested to any depth, '
    'are equal exactly when keys, types, sizes and all values are, with the tolerances applied to numbers. Comparison '
    'is reflexive and symmetric, and invalid arguments are refused.',
    ['inputs'],
    'all arrays with finite, infinite and NaN entries and all tolerances; all nested dictionaries of numbers, arrays, '
    'strings, booleans and lists, and all single-place modifications of them',
    'Tests enumerate a few fixed pairs; nesting depth and place of a difference are unbounded.',
    [COMM, DICT], [('abs_rel_compare', COMM), ('dict_compare, dict_compare_vec', DICT)],
    ['verdict, differences, report'])

add('C27', 'Array helpers: tolerant row sort, membership, roots, inner products',
    'Tolerant row sorting returns a permutation of the rows, with the forward and inverse permutations, in lexicographic '
    'order when entries closer than the tolerance are identified; membership reports for each element whether and where '
    'it occurs; the tolerant square root maps values above minus the tolerance to the root of their positive part and '
    'refuses others; the matrix inner product is the normalised trace product of each slice. None modifies its '
    'arguments, and invalid arguments are refused.',
    ['inputs'],
    'all matrices of up to 12 rows and 5 columns with clustered entries, all element lists with repetitions, all values '
    'around the tolerance',
    'Tests use fixed small arrays.',
    [GEN, COMM], [('sort_rows_tol, sqrt_pos, mat_dot', GEN), ('is_member', COMM)], ['returned arrays'])

add('C28', 'Configuration: defaults, overrides and object settings behave as a store',
    'After any sequence of configuration writes, replacements and re-initialisations every configuration query returns '
    'the last value written (after re-initialisation the default the toolbox ships with), and a configuration snapshot handed out never '
    'changes nor is changed by later writes. Objects take the configuration in force at their creation unless it is '
    'overridden explicitly and keep it for life; explicit settings are validated, unknown or ill-typed ones are refused '
    'without side effects, and the remaining arguments are passed through.',
    ['histories', 'configurations'],
    'all sequences of configuration writes, snapshots, snapshot mutations, re-initialisations and object creations',
    'Tests check single writes; the store must be right after any history.',
    [PROP, PARSE, ABAS], [('Properties', PROP), ('parse_prop', PARSE)],
    ['configuration getters, snapshots, object tolerances'],
    [{'name': 'configuration store', 'meaning': 'process-wide option values', 'where': PROP}])

add('C29', 'Queries are pure: operands, configuration and results are stable',
    'No query on ellipsoids, hyperplanes or matrices changes its operands, the configuration or the arrays it is given, '
    'and asking again gives the same answer, whatever other queries came before and whether or not verbose messages are '
    'switched on. The answer for an array does not depend on whether the objects are passed as a list or an array.',
    ['histories', 'inputs', 'configurations'],
    'all sequences of queries on a shared pool of objects and arrays with verbosity switched on and off',
    'Interference appears only across histories of calls on shared data; tests use fresh data per call.',
    [ELL, AELL, ABAS, HYP, LA, GELL, GEN, SUP, TRI],
    [('copying accessors and value semantics', 'whole library')],
    ['operands, configuration and answers before and after'])

add('C30', 'Errors, warnings and logs identify their origin',
    'An error built by the error helper carries the upper-cased full name of the calling function or method (or of the '
    'caller the given number of levels up), the tag and the message, and is raised or only returned as requested; '
    'warnings carry the same prefix. Caller lookup at any depth gives the name of the function that many levels up the '
    'stack and empty names beyond its top, and each logged message is emitted once under the caller\'s name however many '
    'messages came before. The verbose messages of an operation name it, and there are none with verbosity off or with '
    'nothing to report.',
    ['inputs', 'histories'],
    'all call depths, plain functions and methods, all tags and messages, all sequences of log requests',
    'Tests look at one or two call sites.',
    [COMM, LOG], [('throw_error, throw_warn, get_caller_name, get_caller_name_ext', COMM), ('get_logger', LOG)],
    ['exception text, warning text, log records'])

add('C31', 'The printed form of an object tells what it is and its data',
    'Printing an ellipsoid or hyperplane names its kind and shows its centre and shape matrix (unit normal and non-negative shift) to the '
    'print precision under their names; other numbers are not shown as data, copies and '
    'objects rebuilt from their structures print alike, empty objects print too, and printing changes nothing.',
    ['inputs', 'configurations'],
    'all ellipsoids and hyperplanes of dimensions 1..25 with all settings, and empty ones',
    'Tests compare the text of one or two fixed objects.',
    [ABAS, ELL, HYP], [('printed form', ABAS + ':_display_internal'), ('structures for display', ELL + ':_to_struct_internal')],
    ['str() of the objects'])

add('C32', 'Answers depend on the values of arrays, not on how they are stored',
    'Every function on matrices, points, directions, time-indexed arrays and meshes, and every ellipsoid and hyperplane '
    'built from arrays, gives the same answers for the same values whether the arrays are stored by rows or by columns, '
    'contiguously or as views with any strides, read-only, in either byte order, as integers or as floats.',
    ['inputs'],
    'all integer-valued arguments in ten storage forms of each array, 80 functions and 50 queries',
    'Tests pass freshly made contiguous arrays.',
    [ELL, AELL, HYP, LA, GEN, GEOM, GELL, TRI, SUP], [('array handling', 'whole library')],
    ['answers of the functions and queries'])

add('C33', 'Operations compose: results of any chain of operations are consistent',
    'Whatever chain of construction, reflection, projection (in place or not), copying, replication, conversion to '
    'structures and back, polars and approximations of sums an ellipsoid went through, its centre and shape are those '
    'of the same chain of matrix operations, and every later query agrees with them: support values and points, '
    'membership, volume, trace, eigenvalues, boundaries, comparisons, further operations give what they give for an '
    'ellipsoid freshly built from the same data and settings. Objects earlier in the chain keep their data and settings '
    'whatever the configuration becomes later; the same holds for hyperplanes.',
    ['histories'],
    'all chains of operations and configuration writes on a pool of ellipsoids and hyperplanes, dimensions 1..10, with '
    'all queries after every step',
    'Tests apply one operation to fresh objects; an object left inconsistent by one operation is seen only by a later one.',
    [ELL, AELL, ABAS, HYP], [('operations returning objects', ELL), ('copies and structures', ABAS)],
    ['centres, shapes and answers after every step'])

add('C34', 'Points of the difference of two ellipsoids follow the kind of the direction',
    'For two ellipsoids and any set of directions the difference routine returns one point per direction, in order: in a '
    'good direction the difference of the boundary points of the two ellipsoids in it, in any other the boundary point in '
    'it of the ellipsoid centred at the difference of the centres with shape (1-p)*Q2 + (1-1/p)*Q1, p being the parameter '
    'of the direction; a point coinciding with the difference of the centres is that difference exactly. The centre flag '
    'is set exactly when the dimension is three and every point is the difference of the centres. Arguments are not '
    'modified.',
    ['inputs'],
    'all pairs of nested ellipsoids of dimensions 1..16, directions of any length, marks of directions and admissible '
    'parameters',
    'No test calls it; one mark or parameter that is treated differently shows only in that direction.',
    [ELL], [('calculation of the difference in one direction', ELL)],
    ['points and the centre flag'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for r in rows:
        f.write(json.dumps(r) + '\n')
print(len(rows))
