PROPS = {
    'C01': dict(
        level='proof', verus=['c_numbers'],
        technique='Verus contracts with IEEE-754 bit-level semantics on every extracted constructor, operator and conversion, all bit patterns',
        note='Every constructor, operator, assignment operator, conversion, deref and sqrt of Positive and NonNegative is verified to give exactly the raw IEEE result; division is verified panic free whenever the raw quotient is admissible; NaN rejection and the closure of sums, products and quotients are bit-vector lemmas.',
        bounded='Hash, Display, derived comparisons are not covered; the same checks run natively on boundary-directed values',
        assumptions=['Rust float operators are the IEEE-754 operations and never trap (axioms of float.inc); NaN payloads are not distinguished', 'f64::sqrt is left uninterpreted (sqrt of the raw value)'],
    ),
    'C02': dict(
        level='proof', verus=['c_bounds'],
        technique='Verus contracts with IEEE-754 bit-level comparison on the extracted bounding box and shape functions, all inputs',
        note='BoundingBox2D/3D construction (from limits and from any sequence of positions), accessors, corners and merging are verified to give exactly the smallest/largest coordinates (fold plus tightness lemmas proved at bit level); the bounding boxes of all shapes, segments, triangles, rotated boxes (over their eight corners, see c_collide), clouds (f32 too), polygons, meshes and the Converted wrapper are verified against them.',
        bounded='Collider3D is exercised natively (see C25)',
        assumptions=['Rust float operators are the IEEE-754 operations and never trap (axioms of float.inc); NaN payloads are not distinguished', 'f64::abs of a positive number is that number (assumed)', 'a collection consumed by an IntoIterator lists the same finite sequence (listing.inc); slice iterators yield the elements in order (assumed)', 'shapes whose size vanishes next to their position are excluded (their bounding_box() cannot represent them and panics)', 'derived Clone of boxes restated'],
    ),
    'C03': dict(
        level='proof', verus=['c_bbpred'],
        technique='Verus contracts with IEEE-754 bit-level comparison on the extracted bounding box predicates, all inputs',
        note='contains, is_inside, has_inside, crossing_*, collides_with, distance and sqr_distance (to positions and between boxes, with the default distance of HasDistanceTo) of both box types are verified against interval relations; symmetry, converse and zero-distance facts are lemmas over those contracts.',
        bounded='Collider3D::collides_with for two boxes is exercised natively',
        assumptions=['Rust float operators are the IEEE-754 operations and never trap (axioms of float.inc); NaN payloads are not distinguished', 'x - y and y - x differ in their sign only (assumed axiom sub_anti)', 'f64::sqrt is uninterpreted, non-negative on non-negative numbers (assumed)', 'distances: no NaN from infinite coordinates'],
    ),
    'C04': dict(
        level='proof', verus=['c_index'],
        technique='Verus contracts on the extracted container functions, abstract list view, all inputs',
        note='Every method of DynamicPrecisionIndexVec, U32IndexVec and Vec<usize> as index container is verified against the abstract sequence of stored indices; the u32 container under the stated precondition value <= u32::MAX.',
        bounded='clone, the one-line iter() wrappers and the standard library maximum are additionally exercised natively',
        assumptions=['64-bit usize', 'standard library Iterator::max (contract assumed)', 'derived Clone/Default of the containers (restated or exercised only)'],
    ),
    'C05': dict(
        level='proof', verus=['c_mesh'],
        technique='Verus contracts on the extracted mesh functions over abstract data and index containers, all inputs',
        note='Mesh3D edits and lookups are verified over abstract data/index container contracts, which Vec, PointCloud2D and PointCloud3D are proved to satisfy here and the index containers under C04; the validity of all faces is an inductive postcondition of every edit.',
        bounded='PointCloud3Df32 as data container, conversion from/into parts and for_each_vid are exercised natively only',
        assumptions=['64-bit usize', 'position trait bounds dropped (proof is for any element type)', 'derived Clone of elements yields an equal element (vstd cloned)', 'PointCloud3Df32 as data container (unsafe-free but float-narrowing): native check only'],
    ),
    'C06': dict(
        level='proof', verus=['c_half_edge'],
        technique='Verus contracts on the extracted half-edge construction and queries over an abstract mesh, all inputs',
        note='HalfEdge::new is proved to mirror any mesh that satisfies the IsMesh contract (C05) and whose faces are valid: tails, twins (soundness and completeness) and per-vertex edge lists; every query of HalfEdge and SearchableMesh is proved against that mirror, including errors for ids that do not exist; adding and changing vertices through the SearchableMesh is proved to keep the mirror.',
        bounded='end-to-end runs on concrete meshes of up to 6 faces plus fans of up to 280 faces',
        assumptions=['64-bit usize and 3*faces <= usize::MAX', 'a clone of an index container holds the same list (derived Clone)', 'Vec::sort + Vec::dedup: same elements, strictly ascending', 'Option::flatten', 'index widths of the container admit all ids (C04)'],
    ),
    'C07': dict(
        level='proof', verus=['c_kd'],
        technique='Verus contracts on the extracted tree construction and searches, multiset specifications, IEEE-754 comparison, all inputs',
        note='KdNode::new is proved to order the cloud (same multiset of points, split invariant in every node); size, to_pointcloud, in_sphere, in_box, knearest and nearest of tree and nodes are proved over all trees that satisfy the invariant: results are a sub-multiset, satisfy the relation, are sorted and limited, and every point left out is not wanted or lies outside the computed borders.',
        bounded='that the computed borders agree with the distances: natively on grids of exact coordinates, where results must equal a linear scan',
        assumptions=['Rust float operators, sqrt and powi(2) are the IEEE-754 operations; rounding of addition and the square root are monotone (axioms)', 'slice::sort_by permutes into ascending order for a total preorder', 'clone of a point yields an equal point', 'no NaN coordinates, finite query center (preconditions)', 'stack depth is not modelled'],
    ),
    'C08': dict(
        level='proof', verus=['c_oct'],
        technique='Verus contracts on the extracted octree construction, size and collection, multiset and exact-sequence specifications, IEEE-754 comparison, all inputs',
        note='OcNode::new is proved to succeed for every non-empty vector of points and every box, to hold exactly these points (multiset) with no empty cell and every point in the octant it belongs to; OcTree::build to err exactly without volume and otherwise to hold each distinct point once; size, to_pointcloud and collect to return exactly the points / the positions the recursive definition of the collection gives, at least one and never more than points.',
        bounded='natively on clouds with border points, duplicates, neighbouring floats and zeros of both signs: distinct points, error condition, result counts against an independent model, results within the bounding box up to rounding',
        assumptions=['Rust float operators are the IEEE-754 operations', 'std HashSet semantics for keys with a lawful Eq/Hash (obeys_key_model; -0.0/0.0 keys are checked natively)', 'PointCloud3D::bounding_box_maybe has the contract proved in unit c_bounds', 'clone of a point yields an equal point, default does not panic', 'termination of the division of boxes and stack depth are not modelled', 'the number of points as a float is an uninterpreted cast'],
    ),
    'C09': dict(
        level='proof', verus=['c_aabb'],
        technique='Verus contracts on the extracted tree construction and queries over abstract elements, IEEE-754 bit-level comparison, all inputs',
        note='AABBTree2D/3D::new is proved to hold exactly the given elements in nodes whose boxes cover them, and every query (box, x/y/z value, candidates, any) of tree, leaf and branch to deliver exactly the elements satisfying the relation, for all elements, limits and depths; the used bounding box functions are verified in the same unit.',
        bounded='any_element_collides_with_* natively here (contracts under C25)',
        assumptions=['Rust float operators are the IEEE-754 operations and never trap (axioms of float.inc)', 'clone of an element yields an equal element (precondition of new)', 'bounding_box() of an element is a function of the element', 'callbacks: any visitor recording its calls stands for &mut dyn FnMut, a generic closure for &dyn Fn', 'stack depth (recursion up to the depth limit) is not modelled', 'a box around one met by a line of finite coordinates is met as well (proved for whole numbers in c_ray)', 'elements may be reported more than once (those crossing a split plane); the contracts are about which elements'],
    ),
    'C10': dict(
        level='proof', verus=['c_combinators'],
        technique='Verus contracts on the extracted combinators over abstract filter predicates, all inputs and numbers of parts',
        note='and, or, xor, negate, outer_inner, all, any, allow and deny are verified for arbitrary part filters (generic, and boxed trait objects in any number): is_allowed equals the boolean combination of the predicates of the parts.',
        bounded='none beyond the contracts (the same checks also run natively with up to eight parts)',
        assumptions=['a part filter is a pure predicate of the element (the IsFilter trait contract)'],
    ),
    'C11': dict(
        level='proof', verus=['c_views'],
        technique='Verus contracts on the extracted view, filter and apply_view functions over abstract collections and filters, all inputs',
        note='The random accessible filters (single, all-of, any-of over any number of boxed parts), View::union and apply_view/from_view of Vec, VecDeque, LinkedList and both point clouds are verified: which indices pass, and that exactly the viewed elements stay, in ascending original position.',
        bounded='none beyond the contracts (the same checks also run natively on collections of up to eight elements)',
        assumptions=['a part filter is a pure predicate of the element', 'std HashSet iteration, extend and any; LinkedList push_back, iter, clone (contracts assumed)', 'ra[i] is the element i (verified for the clouds under C21)', 'derived Clone of View and of the clouds', 'clone of elements is vstd cloned'],
    ),
    'C12': dict(
        level='proof', verus=['c_filters'],
        technique='Verus contracts with IEEE-754 bit-level comparison on the extracted filter, distance and conversion functions, all inputs',
        note='is_allowed of the four geometric filters, the distance functions in two, three and any number of dimensions, min/max/sizes of boxes and the conversions from bounding boxes are verified for every positioned type and every bit pattern.',
        bounded='none beyond the contracts (the same checks also run natively)',
        assumptions=['Rust float operators are the IEEE-754 operations and never trap (axioms of float.inc); NaN payloads are not distinguished', 'f64::powi(x, 2) == x * x (assumed)', 'f64::sqrt is uninterpreted', 'f64::abs of a positive number is that number (assumed)'],
    ),
    'C13': dict(
        level='proof', verus=['c_positions', 'c_f32'],
        technique='Verus contracts on the extracted position traits and their implementations, ghost coordinate view, IEEE-754 terms, all inputs',
        note='Every reading, building, editing and moving function of the position traits (with all their default methods) and of every implementing type is verified against ghost coordinates; sizes and radii are proved unchanged.',
        bounded='moving VecDeque and LinkedList is exercised natively only',
        assumptions=['Rust float operators are the IEEE-754 operations and never trap (axioms of float.inc); NaN payloads are not distinguished', 'Box::as_ref (contract assumed)', 'Clone of points restated', 'the Norm types and lines are covered as positions and movables only'],
    ),
    'C14': dict(
        level='proof', verus=['c_hull'],
        technique='Verus contracts and loop invariants on the extracted functions with a geometric proof of the monotone chain over integer coordinates, all inputs',
        note='convex_hull_2d is proved to return points of the input, none twice, with every input point left of or on every edge of the returned polygon (so it is convex, counter-clockwise and encloses the cloud), one point if all are equal and none for an empty cloud; termination of all loops included. ccw is proved to compute the determinant in the written order of operations.',
        bounded='natively small and degenerate clouds against an exact integer orientation test, including strict turns at every vertex',
        assumptions=['coordinates are finite and the sign of the computed determinant is the sign of the exact one (precondition; floats are multiples of 2^-1074, so exact positions are integers)', 'order of finite floats is the order of these integers (IEEE)', 'clone of a point yields an equal point', 'sort_by sorts for a total preorder; Vec::extend and Rev of std (trusted wrappers)'],
    ),
    'C15': dict(
        level='proof', verus=['c_simplify'],
        technique='Verus contracts on the extracted recursion, existential index map into the input, all inputs and depths',
        note='douglas_peucker_2d is proved to return points of the input at strictly increasing positions from the first to the last, each point left out having a computed distance of at most the tolerance from the line through the two kept points around it; distance_point_line to compute the cross product over the length (or the distance from the point for a line without direction).',
        bounded='natively the computed distance against an independent formula, degenerate, vertical and closed lines',
        assumptions=['Rust float operators, abs and sqrt are the IEEE-754 operations', 'no distance between points of the line is NaN (finite coordinates without overflow), tolerance >= 0 (preconditions)', 'clone of a point yields an equal point', 'Iterator take/skip/cloned/collect of std (trusted wrappers)', 'stack depth is not modelled'],
    ),
    'C16': dict(
        level='proof', verus=['c_bytes'],
        technique='Verus contracts on the extracted readers, decoders and (expanded) macros over a ghost byte stream, all inputs',
        note='All 20 reader functions, all 20 FromBytes decoders, both slice decoders and both array macros are verified: the value is the one whose base-256 digits are the bytes (two complement, IEEE bits), errors exactly on size mismatch, readers consume exactly the bytes of the value.',
        bounded='none beyond the contracts (the same checks also run natively)',
        assumptions=['std from_le_bytes/from_be_bytes, slice to array conversion and Read::read_exact (contracts assumed)', 'no slice spans more than usize::MAX bytes', '64-bit usize'],
    ),
    'C17': dict(
        level='proof', verus=['c_lines'],
        technique='Verus contracts on the extracted line, word and skipping functions over ghost byte streams and iterators, all inputs',
        note='fetch_line, skip_bytes, skip_n, trim_start, until_bytes, to_words_skip_empty with SkipEmpty::next, SkipEmptyString::next, contains, from_ascii and estimate_delimiter are verified for every stream, including that a line plus its terminator and the rest is the whole stream.',
        bounded='none beyond the contracts (the same checks also run natively)',
        assumptions=['std BufRead::read_until, Read::read_exact, slice::split, slice::windows, char::is_whitespace below 256 and filter/count (contracts assumed)', 'the element type of contains compares with == as equality', 'skip_n: the counted iterator is SkipEmpty over any iterator of parts (its only use)', 'termination of SkipEmpty::next for infinite iterators is not claimed', '64-bit usize'],
    ),
    'C18': dict(
        level='proof', verus=['c_psl', 'c_xyz', 'c_xy', 'c_gcode', 'c_pts', 'c_ptx', 'c_las', 'c_obj', 'c_off', 'c_stl', 'c_ply_header', 'c_ply'],
        technique='Verus contracts on the extracted loaders, their iterators and decoders over ghost byte streams, all byte sequences',
        note='For psl, xyz, xy, gcode, pts, ptx, las, obj, off, stl and ply (text, little and big endian; header, points, meshes, either) the iterators and load functions (points, meshes, triplets, meshes with unified vertices) are proved for every byte sequence to succeed exactly when the file is well formed and then to deliver exactly its points and faces in file order, with no panic or overflow.',
        bounded='none beyond the contracts; generated, damaged and arbitrary files of all formats are also loaded natively',
        assumptions=['read errors of the underlying stream do not occur (Read/BufRead reliable) where success is characterised', 'number parsing of std/fast_float (an uninterpreted function of the bytes)', 'std BufRead::read_until, Read::read_exact, Seek, Vec::try_reserve (contracts assumed)', 'the mutable item list of IsPushable appends on success', 'text files of at most usize::MAX bytes, 64-bit usize', 'the index type of a mesh can hold the ids the file leads to', 'ply: a negative id converts to usize modulo 2^64, the load functions read through the reader by value instead of by reference', 'stl/ply readers: the derived Clone of the ply headers copies', 'load_stl_mesh_unique: Hash of the point type agrees with its Eq and clone yields an equal point; FnvHashMap entry API read as lookup and insert over a trusted map (KeyMap)'],
    ),
    'C19': dict(
        level='proof', verus=['c_remesh', 'c_unify', 'c_cluster', 'c_hash'],
        technique='Verus contracts and loop invariants on the extracted generic functions over contracts of the mesh traits, all meshes and parameters',
        note='subdivide::linear, heal_mesh with pack_dupes_indexed, cluster_vertices with conn, unify_faces with vertex_to_face and collect_neighbour_faces (termination included; the walk over neighbours turns every face of an orientable mesh consistently) and Cluster::new / for_each_candidate are proved for every mesh type meeting the trait contracts (Mesh3D is proved to meet them under C05). A cluster is the cell of a position counted from the minimum of the bounding box; that two positions of one cell are closer than its size is the arithmetic of the division, checked natively.',
        bounded='natively meshes over whole-number positions incl. signed zeros with three index types, all cluster sizes incl. 0, negative and tiny, and boxes on cell borders',
        assumptions=['HashMap/FnvHashMap entry API read as lookup and insert; keys obey the hash map model (for positions: that equal ones are hashed by equal bits is proved in c_hash)', 'clone of a vertex yields an equal vertex', 'float to integer casts and IEEE rounding are monotone (axioms ax_mono, ax_step), Rust float operators are the IEEE operations', 'bitvec and FnvHashSet of dependencies (trusted wrappers)', 'the normal of a face is a function of its corners and whether two directions face away from each other does not depend on their order (both follow from c_vector and the commutativity of the IEEE operations)', 'a mesh has at most usize::MAX / 3 faces'],
    ),
    'C20': dict(
        level='proof', verus=['c_polygon'],
        technique='Verus contracts on the extracted polygon functions over abstract data containers, all inputs',
        note='Polygon2D and Polygon3D segments, vertex lookup, adding and changing vertices are proved for any data container satisfying the contract of C05.',
        bounded='end-to-end runs on concrete polygons',
        assumptions=['64-bit usize', 'position trait bounds dropped (proof is for any element type)', 'derived Clone of elements yields an equal element where the element type is faithful'],
    ),
    'C21': dict(
        level='proof', verus=['c_containers', 'c_f32'],
        technique='Verus contracts on the extracted container trait implementations over one abstract list view, all inputs',
        note='Push, random insert, random access and data container implementations of PointCloud2D/3D, Vec and VecDeque are proved against one abstract list; the f32 cloud is proved to hold the rounded coordinates in order.',
        bounded='LinkedList operations are exercised natively',
        assumptions=['64-bit usize', 'VecDeque::get (contract assumed)', 'derived Clone yields an equal element (vstd cloned)'],
    ),
    'C23': dict(
        level='proof', verus=['c_save', 'c_roundtrip'],
        technique='Verus contracts on the extracted savers over a ghost byte stream, and a read-back lemma between the contracts of saver and loader',
        note='save_xyz, save_xy, the four save_ply_* functions, save_stl_ascii and their text helpers are proved for every model to write exactly the specified bytes, or to fail only if the writer does. That a saved xyz or xy file is accepted and yields the same positions is a lemma over the very specifications save_* and load_* are verified against. The normals of stl faces and that ply and stl files load back are checked natively.',
        bounded='natively all savers over random clouds and meshes (with writers that take a few bytes at a time or fail), text compared byte for byte, and files loaded back; normals of stl faces; degenerate faces',
        assumptions=['Display and LowerExp of f64 (uninterpreted text; an f64 other than NaN is read back from its Display text)', 'std: String concatenation, as_bytes, to_be_bytes, Write::write_all (writes everything or fails)', 'face_normal (C23 only uses that it returns; its value is checked natively)', 'a mesh saved as ply has at most 2^32 vertices', 'f64 to f32 casts round to nearest (uninterpreted function, applied exactly once per coordinate)'],
    ),
    'C24': dict(
        level='proof', verus=['c_matrix', 'c_place', 'c_look'],
        technique='Verus contracts on the extracted matrix, pipe and transformation code; sums of products stated exactly for whole numbers, layouts and frames for all values',
        note='Layouts, `* f64`, which stage a pipe operation changes, that transforming a collection maps every position once and in order and leaves the faces, center, set_size and extrude are proved for all f64, as is look_at (rows up x target, n x that, n = target / its length). Products, multiply_m, pipe results and the 3D rotations are sums of products: they are proved for all entries that are whole numbers small enough to be exact (sin and cos as uninterpreted functions), which fixes every index, sign and factor of the formula; rounding is left open.',
        bounded='natively all of it with random fractions and angles against a direct computation within a tolerance, look_at (rows perpendicular, third row to the target, fails exactly for the origin), composition of transformations',
        assumptions=['sums, differences and products of f64 that hold whole numbers of at most 2^53 are exact', 'sin, cos and tan (uninterpreted, applied to the angle given)', 'derived Clone of Matrix, line segment, point cloud, polygon and mesh (restated as clone of each part)', 'pipe results: entries of at most 64 (exactness of five products); rotations: sin, cos and axis coordinates taken as whole numbers of at most 64', 'std iter_mut over Vec (vstd)', 'bounding_box_maybe gives a valid box (proved under C02)', 'perspective: only that it returns and is stored in its stage'],
    ),
    'C25': dict(
        level='proof', verus=['c_collide', 'c_ray', 'c_closest', 'c_triangle'],
        technique='Verus contracts on the extracted separating axis test, colliders, line/box intersection and closest-hit selection; visitors recorded as lists, whole-number contract for the slab arithmetic',
        note='SATCollider::collide is proved to report a collision exactly if no tried direction separates the corners (for all objects whose projections are not NaN), hence symmetric and never missing a common corner; Collider3D::collides_with is proved for all pairs, HasColliders3D::collides_with and the containers (Vec, VecDeque, LinkedList, AABBTree3D) for any number of parts. intersection is proved exactly for whole coordinates and directions along axes or diagonals, intersection_slab, min64 and max64 included. The directions of triangles and of both kinds of boxes, the corners of rotated boxes, BoxUnaligned3D::new_from_bb and new_from_z_rotation are proved by their formulas, and so is intersection_ray_triangle. closest_intersecting(_mut), index_closest_intersecting, for_each_intersecting and collect_intersections_ray_mesh are proved for all inputs over the single intersection.',
        bounded='natively bounding boxes of rotated boxes, intersection with random directions, intersection_ray_triangle against exact whole-number geometry, trees against lists',
        assumptions=['the order of whole f64 and infinities is that of the numbers, division by 1 and -1 is exact', 'Rust float operators are the IEEE-754 operations', 'a visitor is called with the recorded values in order (R26)', 'bounding_box of triangles (proved in c_bounds) and of rotated boxes are uninterpreted here, and the closest hit is proved over the single intersection', 'the square root of 1 is 1; sin and cos are some functions', 'Result::unwrap_or yields the value or the default', 'for_each_point of rotated boxes calls the visitor with the corners its body yields under the inherent header', 'AABBTree3D::for_each_collision_candidate has the contract proved in c_aabb', 'a collection consumed by an iterator lists the same finite sequence (listing.inc)', 'derived Clone of boxes restated'],
    ),
    'C26': dict(
        level='proof', verus=['c_vector', 'c_measure', 'c_scale'],
        technique='Verus contracts on the extracted operators, products, normals, angles, lengths, centers of gravity and scalings: the IEEE formula of every coordinate as postcondition, loop invariants over the sums',
        note='every operator of positions and directions (by value and by reference), dot, cross, abs, normalized, Norm2D/Norm3D::new and the unit vectors, conn, cross, center_2d, center_3d, rad_to, rotate, face_normal, normals_of_mesh (meshes reporting the same vertex for the same id), the planes, project_point_on_plane, the direction field filters, length and center_of_gravity of clouds, polygons, line segments and meshes, and scale of all scalables are proved for all inputs (lengths that are numbers). The dot product is proved symmetric, the cross product of a vector with itself zero (or NaN).',
        bounded='natively (by value and by reference) the same formulas computed independently, angles against atan2 of cross and dot product, clouds and meshes up to 5 positions',
        assumptions=['Rust float operators are the IEEE-754 operations, addition and multiplication commute', 'sqrt, sin, cos, acos and atan2 are some functions, the square root of 1 is 1, powi(2) is the product', 'the product of two NonNegative has the contract proved in c_numbers', 'the order of Rad is that of its number (derived)', 'a direction field answers the same for the same position', 'abs panics if the length is not a number (coordinates that are NaN): excluded by precondition', 'usize to f64 is some function', 'clone of positions and directions yields equal values, the default position is the origin (normals_of_mesh)', 'a vector consumed by reference lists its elements (listing.inc)'],
    ),
    'C27': dict(
        level='proof', verus=['c_curve'],
        technique='Verus contracts on the extracted factories and interpolations: number of positions and IEEE formula of each as postcondition, loop invariants over the way along the base points',
        note='for all inputs: rectangle, arc, involut_circle, ellipse (number and formula of every position), bernstein polynomials and control polygon as recursive sums, bezier at i / n, linear and cosine interpolation: n positions, each on the first segment which reaches its part of the length (or the last one), at the proportion of the formula; no overflow, no index out of bounds.',
        bounded='natively against independently computed curves (de Casteljau up to 60 base points, positions by way), up to 41 positions, equal base points included',
        assumptions=['Rust float operators are the IEEE-754 operations', 'sin, cos, pi, abs, powi and usize to f64 are some functions', 'Rad holds its number (restated)'],
    ),
    'C28': dict(
        level='proof', verus=['c_cloud', 'c_lines'],
        technique='Verus contracts on the extracted sorting, merging, parsing, outlier filter and compression: permutation and order after std sort_by (the comparison proved a preorder), concatenation and formulas of every element by loop invariants',
        note='for clouds of any size: sort_vec_2d/3d_*, sort_x/y/z and sort_dim (ascending permutation; error exactly for other dimensions), consume, combine, append_ra, conversions from and into Vec, parse of positions and clouds (accepts exactly lines of that many numbers), SkipEmptyString, FilterOutlier3D::new and is_allowed, compress (success characterised, units and start by formula) and decompress (formula of each coordinate).',
        bounded='natively the accuracy of compression for u8 to u64, text round trips, move_by of all containers, FilterOutlier3D over a KdTree, clouds up to 12 positions',
        assumptions=['Rust float operators are the IEEE-754 operations', 'std sort_by permutes into ascending order of a preorder; or_else keeps a value there is', 'the parts of a text and the number in a text are some functions (std split, from_str)', 'the conversions of the num crate are some functions', 'PointCloud3D::bounding_box_maybe has the contract proved in c_bounds', 'a search structure answers the same for the same sphere', 'clone of positions yields equal values', 'the buffer of FilterOutlier3D is not borrowed elsewhere'],
    ),
}
NOT_APPLICABLE = {
    'C22': 'accuracy of trigonometric and accumulating floating point against real-number definitions: neither Verus (uninterpreted rounding) nor Kani (no models of sin/cos/atan2 and infeasible float error sums) has contracts that can express or decide a rounding-error bound here',
}
