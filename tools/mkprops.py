#!/usr/bin/env python3
# writes /verif/properties.jsonl (one JSON object per property); run by hand when the list changes
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": None}})

p("C01", "Sign-restricted numbers never hold a forbidden value",
  "Positive can only be created from values > 0 and NonNegative only from values >= 0; NaN and everything else is rejected with None. "
  "Every operator, assignment operator, conversion, dereference and square root of the two types yields exactly the f64 that the same operation gives on the raw values. "
  "As long as that raw result is itself an admissible number, the operation does not panic and the result still satisfies its type's sign restriction.",
  ["inputs"], "all pairs of f64 bit patterns, all operators of the two types",
  "There is no test for the types; the guarantee quantifies over all 2^64 bit patterns, including NaN, infinities, zeros of both signs and subnormals.",
  ["src/positive.rs", "src/non_negative.rs"],
  [("constructor guards", "src/positive.rs Positive::new, src/non_negative.rs NonNegative::new"), ("operator impls", "same files")],
  [{"name": "val", "meaning": "wrapped f64", "where": "Positive, NonNegative"}])

p("C02", "Bounding boxes are non-degenerate and tight",
  "A 2D or 3D bounding box can only be created if the minimum is strictly below the maximum in every dimension; equal, swapped or NaN limits give an error. "
  "A box computed from at least two NaN-free positions has as limits exactly the smallest and largest coordinate per dimension (fewer than two positions, or no extent in some dimension, give an error). "
  "Merging or combining two boxes gives exactly the smallest box around both, and corners, limits and the bounding-box accessors report exactly those limits.",
  ["inputs"], "all pairs of limits, all sequences of NaN-free positions of any length, all pairs of boxes",
  "The tests build a handful of boxes from two or three fixed points; the guarantee ranges over sequences of every length and all f64 values.",
  ["src/bounding_box_2d.rs", "src/bounding_box_3d.rs", "src/tri_face_3d.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs"],
  [("new / from_iterator / from_into_iterator / consume / combine / corners", "src/bounding_box_2d.rs, src/bounding_box_3d.rs")],
  [{"name": "min, max", "meaning": "limits, strictly ordered", "where": "BoundingBox2D, BoundingBox3D"}])

p("C03", "Bounding-box predicates are exact interval relations",
  "contains, is_inside, has_inside, crossing tests and collides_with of 2D and 3D bounding boxes decide exactly the strict interval relation of the limits: a position or box is inside only if strictly between the limits in every dimension, and two boxes collide exactly if their open extents overlap in every dimension. "
  "Hence collides_with is symmetric and is_inside and has_inside are converse to each other. "
  "The distance from a box to a position is zero for positions inside or on the box, and is otherwise the Euclidean length of the per-dimension gaps.",
  ["inputs"], "all valid boxes and all positions, over all f64 limits",
  "Tests check single positions; a wrong comparison or dimension shows only for particular relative placements, and rounding defects only for particular limits.",
  ["src/bounding_box_2d.rs", "src/bounding_box_3d.rs", "src/functions.rs", "src/utils.rs"],
  [("contains, is_inside, has_inside, collides_with, crossing_*_value, sqr_distance", "src/bounding_box_2d.rs, src/bounding_box_3d.rs")])

p("C04", "Index containers behave like a plain list of usize",
  "After any sequence of push, set, reserve and ensure_supported calls, an index container's length, get and iteration agree with a plain list of the pushed and set values, whatever integer width it currently stores them with; widening never changes a stored value. "
  "This holds for the dynamic precision container and Vec<usize> with every usize value, and for the u32 container with every value up to u32::MAX. "
  "A container built from a list holds exactly that list.",
  ["inputs", "histories"], "all call sequences, all index values, all lengths",
  "No test covers the containers; a wrong widening shows only after a history that crosses 255, 65535 or 2^32-1 with earlier content present.",
  ["src/dynamic_precision_index_vec.rs", "src/u32_index_vec.rs", "src/is_index_container.rs", "src/impls/vec.rs"],
  [("ensure_supported and upgrade_to_*", "src/dynamic_precision_index_vec.rs"), ("IsIndexContainer impls", "listed files")],
  [{"name": "mode", "meaning": "current storage width and content", "where": "DynamicPrecisionIndexVec"}])

p("C05", "Editing a mesh keeps it valid and changes only what was asked",
  "Adding a vertex appends it and returns its id; adding a face appends exactly its three vertices and one face over them and returns its id; connecting vertices succeeds exactly if all three ids exist and are pairwise different, and otherwise changes nothing; changing a vertex succeeds exactly if its id exists and replaces only that vertex. "
  "Face and vertex lookups return exactly what was added, or None for an id that does not exist. "
  "So every face of a mesh built by such edits refers to three existing vertices.",
  ["inputs", "histories"], "all edit sequences with all vertex and face ids, for every vertex and index container",
  "The mesh test performs one short fixed edit sequence; the guarantee is over every history and every id, including ids out of range.",
  ["src/mesh_3d.rs", "src/face3.rs", "src/is_mesh_3d.rs", "src/is_data_container.rs"],
  [("add_vertex, add_face, try_add_connection, change_vertex, face_vertex_ids, face_vertices, vertex", "src/mesh_3d.rs")],
  [{"name": "pc, topology", "meaning": "vertices and 3 ids per face", "where": "Mesh3D"}])

p("C06", "Half-edge queries mirror the mesh they were built from",
  "For a half-edge structure built from a mesh, each of the 3n directed edges of the n faces has as tail and head the two vertices the face gives it, as next and previous edge the neighbours along its face, and as face its own face. "
  "The twin of an edge is an edge that runs between the same two vertices in the opposite direction, and exists whenever such an edge exists in the mesh. "
  "The edges originating from, ending in or connected to a vertex, and the faces of a vertex, are exactly those of the mesh; ids that do not exist give an error. A SearchableMesh keeps answering so after vertices were added or changed through it.",
  ["inputs", "histories"], "all meshes whose faces refer to existing vertices, all edge, face and vertex ids",
  "There is no test for the half-edge structure; the guarantee ranges over all topologies, including unreferenced vertices and non-manifold edges.",
  ["src/half_edge.rs", "src/searchable_mesh.rs", "src/is_searchable_mesh.rs"],
  [("HalfEdge::new and queries", "src/half_edge.rs")],
  [{"name": "edges, vertices_start_edges", "meaning": "per-edge tail/twin, per-vertex edge lists", "where": "HalfEdge"}])

p("C07", "KdTree searches return exactly what a linear scan would",
  "A k-d tree built from a non-empty point cloud contains exactly the points of the cloud, with multiplicity; building from an empty cloud is an error. "
  "in_sphere and in_box append exactly the contained points whose distance to the sphere's center is at most the radius, or whose distance to the box's center is at most half the box size per dimension. "
  "knearest with n points requested into an empty result returns min(n, size) points in ascending distance such that no other point of the tree is closer than a returned one; nearest returns a point of minimal distance. "
  "Distances and borders are compared as computed: a point outside of center minus/plus the radius, half size or distance of the last result in x or y, as floating point computes these borders, may be missing.",
  ["inputs"], "all point clouds without NaN coordinates (ties and duplicates included) and all queries with a finite center",
  "No test covers the tree; pruning errors show only for particular arrangements of the splitting planes, ties and query positions.",
  ["src/kd_tree.rs", "src/functions.rs", "src/distances_3d.rs"],
  [("KdNode::new, knearest, in_sphere, in_box, sort_and_limit", "src/kd_tree.rs")],
  [{"name": "root", "meaning": "split nodes ordered per dimension", "where": "KdTree"}])

p("C08", "OcTree keeps every point of the cloud",
  "An octree built from a point cloud that spans a volume holds exactly one copy of each distinct point of the cloud: size counts them and to_pointcloud returns them, including points on the bounding box and on the borders between octants. "
  "Building reports an error exactly for a cloud without volume (fewer than two points, or all points equal in some dimension) and then leaves the tree as it was. "
  "collect with a negative limit returns every point; with a depth limit 0 <= d < 127 (127 means none) it returns the points in cells less than d + 2 levels below the root and one position, the center of gravity, for every occupied cell at that level: never more positions than points, and at least one for a built tree.",
  ["inputs"], "all point clouds of finite coordinates, all depth limits",
  "No test covers the tree; points on cell borders and duplicates are measure-zero for random samples.",
  ["src/oc_tree.rs"],
  [("OcNode::new, calc_sub_min_max, collect, size, to_pointcloud", "src/oc_tree.rs")],
  [{"name": "root", "meaning": "leaf points and up to eight children", "where": "OcTree"}])

p("C09", "AABB tree queries miss nothing and invent nothing",
  "For an axis aligned bounding box tree built from any elements with any depth and leaf-size limits, every query (bounding box colliding with a box, crossing an x, y or z value, collision, met by a line of finite coordinates) visits every element whose own bounding box satisfies the queried relation (at least once, in no particular order), and visits no element whose bounding box does not satisfy it. "
  "Queries on a tree without elements visit nothing.",
  ["inputs"], "all element sets, tree limits and query boxes",
  "No test covers the trees; an element is lost only if its box straddles a split plane in a particular way.",
  ["src/aa_bb_tree_2d.rs", "src/aa_bb_tree_3d.rs"],
  [("new, new_rec, bb_colliding*, bb_crossing_*, any/for_each variants", "src/aa_bb_tree_2d.rs, src/aa_bb_tree_3d.rs")])

p("C10", "Filter combinators follow boolean logic",
  "A combined filter allows an element exactly if the boolean combination of its parts does: and / or / xor / negate of the parts, outer_inner if the outer allows it and the inner does not, all if every part allows it, any if some part allows it (so all over no parts allows everything, any over no parts nothing). "
  "The allow filter allows every element, the deny filter none.",
  ["inputs"], "all part filters (arbitrary predicates), all element values, all numbers of parts",
  "Tests combine two fixed filters on one cloud; the guarantee is over every number of parts and every combination of their answers.",
  ["src/filter_and.rs", "src/filter_or.rs", "src/filter_xor.rs", "src/filter_negate.rs", "src/filter_outer_inner.rs", "src/filter_all.rs", "src/filter_any.rs", "src/filter_allow.rs", "src/filter_deny.rs"],
  [("is_allowed", "each file")])

p("C11", "Views select exactly the allowed elements",
  "A random-accessible filter restricts a view to exactly those elements that were in the view before and that the filter allows; combining such filters with all-of yields the intersection and with any-of the union of what the parts leave of the initial view (no parts: everything for all-of, nothing for any-of). "
  "Applying a view to a container keeps exactly the elements of the view, in their original order; uniting two views gives exactly the union of their element sets.",
  ["inputs"], "all containers, all initial views (full or any restriction), all filters and numbers of parts",
  "Tests start from a full view and a short cloud with fixed filters; the guarantee is over all initial restrictions and sizes.",
  ["src/view.rs", "src/filter_random_accessible.rs", "src/filter_all_random_accessible.rs", "src/filter_any_random_accessible.rs", "src/impls/vec.rs", "src/impls/vec_deque.rs", "src/impls/linked_list.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs"],
  [("View::union, filter, apply_view", "listed files")],
  [{"name": "View", "meaning": "Full or a set of indices", "where": "src/view.rs"}])

p("C12", "Geometric filters allow exactly the points of their shape",
  "A box filter allows a position exactly if every coordinate lies between center minus and center plus half the size, borders included; circle and sphere filters allow it exactly if its distance to the center is at most the radius. "
  "A filter made from a bounding box uses that box's center and sizes.",
  ["inputs"], "all f64 positions, centers, sizes and radii",
  "The tests check a few positions; a wrong dimension or comparison shows only for particular placements.",
  ["src/filter_box_2d.rs", "src/filter_box_3d.rs", "src/filter_circle.rs", "src/filter_sphere.rs", "src/distances_2d.rs", "src/distances_3d.rs"],
  [("is_allowed", "each filter file")])

p("C13", "Coordinate accessors of every positioned type agree",
  "For every positioned type of the library the named coordinates x, y and z equal the coordinates by dimension index 0, 1 and 2, and any other index gives None. "
  "Constructing from coordinates (named or as a list of the right length), copying from another position and the setters (by name, by index, or several at once) set exactly the named coordinates to exactly the given values and leave the others unchanged; a list or index of the wrong dimension gives an error. "
  "Moving adds the offsets to the respective coordinates.",
  ["inputs"], "all f64 coordinates, all dimension indices, all positioned types",
  "Tests use a few values on the point types only; a swapped coordinate in one accessor of one type is invisible to them.",
  ["src/point_2d.rs", "src/point_3d.rs", "src/norm_2d.rs", "src/norm_3d.rs", "src/circle.rs", "src/sphere.rs", "src/box_2d.rs", "src/box_3d.rs", "src/filter_box_2d.rs", "src/filter_box_3d.rs", "src/filter_circle.rs", "src/filter_sphere.rs", "src/is_editable_2d.rs", "src/is_editable_3d.rs", "src/is_buildable_2d.rs", "src/is_buildable_3d.rs"],
  [("IsND, Is2D, Is3D, IsEditable*, IsBuildable* impls", "listed files")])

p("C14", "The convex hull encloses its input and invents no points",
  "Every vertex of the convex hull of a 2D point cloud is one of the input points, the hull is listed in counter-clockwise order without repetition, and every input point lies inside or on the hull. "
  "The hull of an empty cloud is empty, the hull of equal points is one of them, the hull of points on a line is the two ends; nothing panics.",
  ["inputs"], "all finite point clouds; orientation tests are taken as exact",
  "One test compares one cloud; degenerate (collinear, duplicate) inputs and other sizes are not sampled.",
  ["src/convex_hull_2d.rs"], [("convex_hull_2d", "src/convex_hull_2d.rs")])

p("C15", "Line simplification only drops points within the tolerance",
  "Douglas-Peucker simplification returns a subsequence of the input points that keeps the first and the last point; every dropped point is at most the tolerance away from the line through the two kept points around it (from their position if both are equal). "
  "Inputs of up to two points come back unchanged.",
  ["inputs"], "all polylines of finite points and all tolerances >= 0; distances are those the code computes",
  "No test covers it; recursion boundaries and degenerate segments are missed by samples.",
  ["src/douglas_peucker_2d.rs"], [("douglas_peucker_2d and its recursion", "src/douglas_peucker_2d.rs")])

p("C16", "Binary numbers decode to exactly the encoded value",
  "Reading a number from little-endian or big-endian bytes, by the readers or by the slice and single value decoders, yields exactly the number those bytes encode, for every supported integer and float type and every byte pattern. "
  "Inputs that are too short, or slices whose size does not match, give an error and never a panic or a wrong value; a reader consumes exactly the bytes of the value it returns.",
  ["inputs"], "all byte sequences of all lengths, all supported number types, both byte orders",
  "The IO tests only load a few fixed files; sign, width and order errors show only for particular bytes.",
  ["src/io/byte_reader.rs", "src/io/from_bytes.rs"], [("BigReader, LittleReader, FromBytes impls", "listed files")])

p("C17", "Line and word splitting loses no input",
  "Fetching lines from any byte stream yields, in order, exactly the lines of the stream without their terminators and trailing white space, including a last line that is not terminated. "
  "Splitting a line into words yields exactly the maximal runs without blanks and tabs in order; until_bytes returns the part before the first separator; a list is found contained exactly if it occurs as a contiguous part; skipping and trimming drop exactly what was asked, and the estimated delimiter is the first of blank, semicolon, comma and tab that occurs often enough. "
  "No byte sequence makes these functions panic.",
  ["inputs"], "all byte sequences, terminator placements and separators",
  "The IO tests read well-formed files that all end in a newline.",
  ["src/io/utils.rs", "src/utils.rs", "src/skip_empty.rs", "src/skip_empty_string.rs"],
  [("fetch_line, to_words_skip_empty, until_bytes, estimate_delimiter, contains", "src/io/utils.rs, src/utils.rs")])

p("C18", "Loaders reject malformed files instead of crashing",
  "Loading any byte sequence as any of the supported formats ends with success or an error; it never panics, overflows or reads outside its buffers. "
  "After a successful mesh load every face refers to existing vertices. "
  "A well-formed file yields exactly its points and faces, in file order; in particular every point of every line and pass of a .psl file.",
  ["inputs"], "all byte sequences for each format (xyz, xy, obj, off, stl, ply, pts, ptx, las, psl, gcode)",
  "The tests load valid sample files only; headers with inconsistent counts, zero or huge indices and truncated files are not sampled.",
  ["src/io/obj.rs", "src/io/off.rs", "src/io/stl.rs", "src/io/ply/load.rs", "src/io/ply/header.rs", "src/io/pts.rs", "src/io/ptx.rs", "src/io/las/load.rs", "src/io/psl.rs", "src/io/xyz.rs", "src/io/xy.rs", "src/io/gcode.rs"],
  [("load_* functions and iterators", "listed files")])

p("C19", "Mesh algorithms preserve the surface they work on",
  "Subdividing replaces every face by four faces over its corners and edge centers, keeps all original vertices at their ids and creates one center per edge, shared by the faces at that edge; it succeeds exactly for faces with three different corners. "
  "Unifying faces keeps all vertices and every face's vertex set and only reorders ids within faces; the first face keeps its direction, and if faces can be turned so that no two faces with a common vertex face away from each other, the result is turned so. "
  "Healing a mesh stores every position once and keeps, in order, exactly the faces with three different positions over the same positions; to this end equal positions, directions and numbers hash alike (0.0 and -0.0 are equal), by all of their coordinates. "
  "Clustering vertices yields faces over original positions, every corner closer than the cluster size to the original one in each coordinate; only faces with two corners in one cluster are dropped. All results only have existing vertex ids. "
  "A Cluster hands out every element whose box covers a position as seen from above, each element at most once.",
  ["inputs"], "all valid meshes and parameters",
  "No test covers these algorithms.",
  ["src/subdivide.rs", "src/unify_faces.rs", "src/heal_mesh.rs", "src/cluster_vertices.rs", "src/cluster.rs", "src/utils.rs", "src/point_3d.rs"],
  [("public functions", "listed files")])

p("C20", "Polygon segments form one closed cycle",
  "A polygon with n vertices has n segments; segment i runs from vertex i to vertex i+1 and the last one back to vertex 0, and ids that do not exist give None or an error. "
  "Adding a vertex appends it and returns its id; changing a vertex replaces only that vertex and fails exactly if the id does not exist.",
  ["inputs", "histories"], "all polygons of all sizes, all ids",
  "No test covers polygons; the wrap-around and out-of-range ids are boundary cases.",
  ["src/polygon_2d.rs", "src/polygon_3d.rs", "src/is_polygon.rs", "src/is_editable_polygon.rs"],
  [("segment_vertex_ids, segment_vertices, vertex, add_vertex, change_vertex", "src/polygon_2d.rs, src/polygon_3d.rs")])

p("C21", "Containers keep their elements in order under every edit",
  "Pushing appends; inserting at an index up to the length places the element there and shifts the later ones, and beyond the length it fails and changes nothing; indexing, length, get and set by index agree with the order of the elements. "
  "This holds alike for point clouds, Vec, VecDeque and LinkedList where they offer the operation.",
  ["inputs", "histories"], "all edit sequences, all indices",
  "Tests push a few points; inserting at the end and out-of-range indices are not sampled.",
  ["src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/point_cloud_3d_f32.rs", "src/impls/vec.rs", "src/impls/vec_deque.rs", "src/impls/linked_list.rs"],
  [("IsPushable, IsRandomInsertible, IsRandomAccessible, IsDataContainer impls", "listed files")])

p("C22", "Angles, interpolation and transformations are numerically accurate",
  "Rotations, interpolated curves, centers of gravity, normals and matrix products agree with their real-number definition up to rounding.",
  ["inputs"], "all finite inputs",
  "Tests compare single values.",
  ["src/interpolate_2d.rs", "src/matrix3.rs", "src/matrix4.rs", "src/functions.rs", "src/is_2d.rs", "src/is_3d.rs"],
  [("trigonometric and accumulating float code", "listed files")])

p("C23", "Saved files hold exactly the model and load back",
  "save_xyz and save_xy write, for every cloud, exactly one entry per position, in order: its coordinates' decimal text joined by the coordinate delimiter and followed by the position delimiter. With a coordinate delimiter that the loader knows (blank, tab, comma, semicolon) and lines as position delimiter, loading that file again yields the same positions (bit for bit, NaN aside). "
  "The ply savers (ascii and binary, coloured and plain, single and double precision) write a header that states exactly the vertex and face counts, element types and properties that follow, then every vertex and every face of the mesh in id order; save_stl_ascii writes every face with its vertices in order and a unit normal, and never panics, not even on a mesh with degenerate faces. "
  "A saver reports success only if all of it was written, and never changes what it saves.",
  ["inputs"], "all clouds, meshes, separators and colour functions, all f64 coordinates",
  "The tests save one sample mesh or nothing at all; a wrong order, count, type or number format shows for particular counts and values, and a panic only for a degenerate face.",
  ["src/io/xyz.rs", "src/io/xy.rs", "src/io/ply/save.rs", "src/io/stl.rs", "src/io/utils.rs", "src/is_2d.rs", "src/is_3d.rs"],
  [("save_xyz, save_xy, save_ply_*, save_stl_ascii, str_exp, to_str", "listed files")])

p("C24", "Matrices and transformations do what their names say",
  "identity, zeroes, translation, scale, rotation and rotation_axis yield the matrices of that name; `*` is the matrix product in all its forms (by value, by reference) and `* f64` scales every entry. "
  "Matrix3Pipe and Matrix4Pipe always yield translation * rotation * scale, preceded in 3D by perspective * look-at * camera translation, whatever the order of the add_ and remove_ calls, each of which replaces or resets its own stage only; camera translation moves the opposite way. look_at yields the matrix with the rows up x target, n x (up x target) and n, where n is the direction of the target, without translation, and fails exactly if the target has no length. "
  "Transforming a position maps it by the matrix (columns times coordinates plus the last column); transforming a line segment, point cloud, polygon or mesh maps each of its positions once, in order, and leaves faces unchanged; transformed equals transform on a copy. "
  "center moves an object with a bounding box so that the middle of the box is the origin, set_size scales it so that the box gets exactly the wanted sizes, extrude yields the positions at z = 0 and the same moved by the direction, in order.",
  ["inputs", "histories"], "all matrices, angles, positions, collections of any size and sequences of pipe operations",
  "Tests multiply a few matrices; a swapped index, sign or stage shows only for asymmetric values and particular combinations.",
  ["src/matrix3.rs", "src/matrix4.rs", "src/matrix3_pipe.rs", "src/matrix4_pipe.rs", "src/is_buildable_2d.rs", "src/is_buildable_3d.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/mesh_3d.rs", "src/functions.rs"],
  [("constructors and Mul of Matrix3/4, pipes, multiply_m, IsMatrix3/4Transformable impls, center, set_size, extrude", "listed files")])

p("C25", "Collision and ray queries miss nothing and invent nothing",
  "SATCollider::collide reports a collision exactly if along none of the directions given by the two objects all corners of one lie strictly before those of the other: it is independent of the order and never misses objects with a common point. "
  "The directions include the three face directions of both kinds of box and the normal of a triangle; the corners are those of the shape, also of a rotated box, whose bounding box encloses them. Collider3D::collides_with agrees with it for every pair of kinds (two bounding boxes: their open extents overlap); bodies collide if one of their colliders does, containers if one of their elements does. "
  "intersection(line, box) finds the box exactly if the half line from the anchor on along the direction meets it (sides included, also along an axis and for anchors in the box or on its sides) and returns where the whole line enters it. "
  "for_each_intersecting visits exactly the elements whose bounding box is met, in order; closest_intersecting, closest_intersecting_mut and index_closest_intersecting return one whose entry point is closest to the anchor, and nothing exactly if none is met; for_each_intersection_candidate of the tree visits exactly the elements whose bounding box is met. "
  "intersection_ray_triangle finds the common point of a ray and the inside of a triangle, in either orientation, and nothing behind the anchor; collect_intersections_ray_mesh appends those of all faces in order.",
  ["inputs"], "all boxes, rotated boxes, triangles, bodies, lines and collections of any size; where rounding decides (touching rotated shapes, rays through edges) either answer",
  "Tests hold a few boxes; zero direction components, anchors on a side, rotated boxes and the various pairs of shapes are not sampled.",
  ["src/sat_collider.rs", "src/is_sat_object.rs", "src/collider_3d.rs", "src/has_colliders_3d.rs", "src/is_collider_container_3d.rs", "src/box_unaligned_3d.rs", "src/tri_face_3d.rs", "src/bounding_box_3d.rs", "src/aa_bb_tree_3d.rs", "src/functions.rs"],
  [("SATCollider::collide, for_each_point, for_each_axis, Collider3D, HasColliders3D, IsColliderContainer3D, intersection, *_intersecting, intersection_ray_triangle", "listed files")])

p("C26", "Vectors, normals, angles, lengths, centers and scaling do what they say",
  "The operators +, -, *, / and unary - of 2D and 3D positions and directions, dot and cross products, lengths (abs), conn and center_2d/center_3d yield the IEEE results of their textbook formulas in every coordinate, for all operand forms (by value and by reference). "
  "normalized and Norm2D/Norm3D::new divide by the length and fail exactly if it is zero; norm_x ... norm_z_neg are the unit vectors. rad_to is defined whenever both directions have a length and lies between 0 and pi in 3D; rotate turns a position around a center. "
  "face_normal is the direction perpendicular to the corners by the right hand rule and fails exactly for unknown faces and corners without normal; normals_of_mesh gives every vertex the direction of the sum of the normals of the faces around it (upwards without one); project_point_on_plane gives the coordinates along both directions of the plane; the direction field filters allow exactly the directions within the given angle of the field. "
  "length is the sum of the distances from position to position (polygons: back to the first), center_of_gravity the mean of the positions (none exactly without positions), for clouds, polygons, line segments and meshes. "
  "scale makes every scalable (boxes, bounding boxes, circles, spheres, filters, line segments, clouds, polygons, meshes) the given factor as large without moving its center.",
  ["inputs"], "all coordinates, factors and directions; clouds, polygons and meshes of any size",
  "Tests sample a handful of vectors and no scaling; every coordinate, operand form and degenerate direction has its own path.",
  ["src/point_2d.rs", "src/point_3d.rs", "src/norm_2d.rs", "src/norm_3d.rs", "src/is_2d.rs", "src/is_3d.rs", "src/is_buildable_2d.rs", "src/is_buildable_3d.rs", "src/is_editable_2d.rs", "src/is_normalized_2d.rs", "src/is_normalized_3d.rs", "src/is_mesh_3d.rs", "src/utils.rs", "src/functions.rs", "src/plane_3d.rs", "src/has_length.rs", "src/has_center_of_gravity_3d.rs", "src/is_scalable.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/polygon_2d.rs", "src/polygon_3d.rs", "src/line_segment_2d.rs", "src/line_segment_3d.rs", "src/filter_direction_field_2d.rs", "src/filter_direction_field_3d.rs"],
  [("operators, dot, cross, abs, normalized, rad_to, rotate, face_normal, project_point_on_plane, length, center_of_gravity, scale", "listed files")])

p("C27", "Factories and interpolations create the points of their curve",
  "rectangle creates the four corners around the center in order. arc, involut_circle and ellipse create exactly the requested number of positions (also none or one), on the curve around the center: arc and involute from the start angle on in equal steps over the difference of the angles, both ends included, ellipse over one full turn. "
  "interpolate_bezier, interpolation_linear and interpolate_cosine fail exactly for less than two base points and else create exactly the requested number of positions. The i-th of n positions of a Bezier interpolation is the Bezier curve of all base points at i / n. "
  "The i-th of n positions of linear and cosine interpolation lies after i / (n - 1) of the length of the way along the base points: on the connection of the base points in between (cosine: eased by the cosine in y), the first at the first base point and the last at the last one. Equal base points are passed without harm.",
  ["inputs"], "all centers, sizes, angles, numbers of points and base points",
  "Tests sample two interpolations; every number of points and every place of a position among the base points is its own case.",
  ["src/factory_2d.rs", "src/interpolate_2d.rs", "src/utils.rs", "src/point_cloud_2d.rs"],
  [("rectangle, arc, involut_circle, ellipse", "src/factory_2d.rs"), ("interpolate_bezier, interpolate_cosine, interpolation_linear", "src/interpolate_2d.rs")])

p("C28", "Point clouds sort, merge, move, read, print and compress without loss",
  "sort_x/sort_y/sort_z and sort_dim of 2D and 3D point clouds order the same positions ascending by that coordinate (coordinates without NaN); sort_dim fails exactly for dimensions there are not and then changes nothing. "
  "consume, combine and append_ra yield the positions of the first followed by those of the second collection; conversions from and into Vec keep the positions in order. move_by moves every position of clouds, lists, ring buffers, linked lists and polygons by the given offset. "
  "parse accepts exactly the texts of as many numbers as there are coordinates (separated by blanks; clouds: non-empty lines, at least one) and yields them; a position or a non-empty cloud printed by to_str reads back equal. "
  "CompressedPointCloud3D::compress fails exactly without bounding box (finite coordinates, units not underflowing) and decompress returns as many positions, in order, each coordinate within one unit (extent / largest unit), for all unsigned unit types. "
  "FilterOutlier3D allows exactly the positions with enough neighbours within the search distance.",
  ["inputs"], "all positions, texts, offsets and unit types; clouds of any size",
  "Tests sort and parse single small clouds and never compress; each dimension, unit type and malformed text is its own case.",
  ["src/functions.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/is_buildable_2d.rs", "src/is_buildable_3d.rs", "src/compressed_point_cloud_3d.rs", "src/filter_outlier_3d.rs", "src/impls/linked_list.rs", "src/impls/vec_deque.rs", "src/impls/vec.rs"],
  [("sort_vec_*, sort_dim, consume, combine, append_ra, parse, compress, decompress, is_allowed, move_by", "listed files")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
