"""What each check runs."""

COMMON_TRUST = [
    "rustc, the extraction rules of /verif/extract (visibility/attributes/generics dropped, iterator pipelines and for loops written out as loops, macros assert!/panic! as rt_assert/rt_panic obligations, debug_assert!/println! dropped)",
    "vstd specifications of Vec/Option and the Verus/Z3 tool chain",
]

MESH_TRUST = [
    "user payload types are opaque values; Clone of a half-edge is a field-wise copy; Default of payloads returns one fixed (unknown) value",
    "iterator arguments (impl Iterator/IntoIterator) are modelled as the finite sequence they yield (GIter); lazily returned iterator adaptors are materialised",
    "meshes use the default storage type DeletableVector",
]
MESH_ASSUME = [
    "an index width leaves room for the new elements (stated as precondition room_*)",
    "documented preconditions of each building call hold (e.g. the two edges bound the same face-less region)",
]

GEO_TRUST = [
    "machine arithmetic is read as exact real arithmetic (type S, value v); the primitive operations of scalars and vectors, sqrt and the constants are assumed by definition; the sign of zero is left open",
]

PROPS = {
    "C01": dict(
        technique="Deductive verification (Verus) of the real storage functions, extracted on every run",
        note="Every DeletableVector and Deletable function and the four IndexType impls proved against a map specification for all histories, for 64/32/16/8-bit indices; mesh-level accessors additionally by bounded histories. Trusts rustc, Verus/Z3, vstd and the extraction rules.",
        units=[("storage", [{"IDX": x} for x in ("usize", "u32", "u16", "u8")])],
        trusted=COMMON_TRUST + ["payload types are opaque; std slice iteration (iter_mut) yields each element once, in order"],
        bounded="mesh-level accessors: random operation histories against a reference map, all four index widths",
        assumptions=["machine memory is not exhausted (Vec growth succeeds)"],
    ),
    "C02": dict(
        technique="Deductive verification (Verus) of the real mesh building functions, extracted on every run: each preserves the structural invariant of the whole mesh",
        note="Structural invariant wf (twins, successor/predecessor, loops, faces, representatives) proved to be preserved by every building function for all meshes, inputs and payloads (index width 64 bit); subdivide_unsafe and remove_edge are excluded (documented to leave an invalid mesh / unimplemented). Iterator arguments are modelled as finite sequences.",
        units=[("mesh_c02", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": "usize"}, {"IDX": "u32"}]})],
        trusted=COMMON_TRUST + MESH_TRUST,
        focus_out=r"/iterator\.rs|is_open|num_|shared_face|:: (faces|vertices|is_boundary|degree|neighbor_ids|same_face_back|size_hint|vertex_ids|edge_ids)$",
        bounded="random histories of building calls on the compiled crate against an independent reference structure",
        assumptions=MESH_ASSUME,
    ),
    "C03": dict(
        technique="Deductive verification (Verus) of the real insertion functions: exact effect and frame as postconditions",
        note="Every insertion function has a postcondition giving the complete new half-edge, vertex and face tables in terms of the old ones (new handles, payloads, positions, directions, untouched rest), proved for all meshes. Iterator arguments are modelled as finite sequences.",
        units=[("mesh_c02", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": "usize"}, {"IDX": "u32"}]})],
        trusted=COMMON_TRUST + MESH_TRUST,
        focus_out=r"/iterator\.rs|is_open|shared_face|:: (faces|vertices|is_boundary|degree|neighbor_ids|same_face_back|size_hint|vertex_ids|edge_ids|remove_face)$",
        bounded="random histories of building calls on the compiled crate against an independent reference structure",
        assumptions=MESH_ASSUME,
    ),
    "C04": dict(
        technique="Deductive verification (Verus) of close_hole and remove_face: exact effect on one loop; composition lemmas over their contracts",
        note="close_hole/close_hole_default/remove_face proved to change exactly the face field of exactly the half-edges of one loop, for all meshes; lemmas over these contracts give that closing after removing and removing after closing restore the mesh up to the face handle.",
        units=[("mesh_c04", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": "usize"}, {"IDX": "u32"}, {"IDX": "u8"}]})],
        trusted=COMMON_TRUST + MESH_TRUST,
        focus_out=r"is_open|shared_|:: (faces|vertices|is_boundary|degree|neighbor_ids|same_face_back|same_face|size_hint|vertex_ids|edge_ids|add_\w+|insert_\w+|outgoing_boundary_edge|ingoing_boundary_edge)$",
        bounded="random meshes on the compiled crate: close/remove/re-close compared with an independent reference structure",
        assumptions=MESH_ASSUME,
    ),
    "C05": dict(
        technique="Deductive verification (Verus) of the real flip functions, plus an involution lemma over their contracts",
        note="HalfEdge::flip, flip_edge, flip (whole mesh, loops included) and twin_edges proved to yield exactly the exchanged tables and a valid mesh for all valid meshes, dangling and isolated edges included; flipping twice restores the edge table (lemma).",
        units=[("mesh_c05", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": "usize"}, {"IDX": "u32"}, {"IDX": "u8"}]})],
        trusted=COMMON_TRUST + MESH_TRUST,
        focus_out=r"/iterator\.rs|is_open|shared_|:: (faces|vertices|is_boundary|degree|neighbor_ids|same_face_back|same_face|size_hint|vertex_ids|edge_ids|add_\w+|insert_\w+|close_\w+|remove_\w+|outgoing_boundary_edge|ingoing_boundary_edge)$",
        bounded="random meshes on the compiled crate: flip once, twice and all",
        assumptions=MESH_ASSUME,
    ),
    "C06": dict(
        technique="Deductive verification (Verus) of the real traversal iterators and the queries built on them",
        note="The iterators' next/size_hint and every listed query proved against orbits of the successor, predecessor and rotation maps for all valid meshes, termination included; wheel, is_manifold and triangle_touches_boundary only bounded.",
        units=[("mesh_c06", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": "usize"}, {"IDX": "u32"}, {"IDX": "u8"}]})],
        trusted=COMMON_TRUST + MESH_TRUST,
        focus_out=r"util/deletable\.rs|math/index_type\.rs|:: (set_\w+|delete_face|delete|allocate|new)$",
        bounded="random meshes on the compiled crate: every traversal and query compared with an independent reference structure",
        assumptions=MESH_ASSUME,
    ),
    "C08": dict(
        technique="Deductive verification (Verus) of the real Triangulation methods against a list of triangles behind an untouched prefix",
        note="Every reading and editing method of Triangulation (new, insert_triangle, insert_triangle_local, get_index, get_triangle, len, next_pos, map_indices, flip_edge, get_triangle_area, get_area, total_edge_weight) proved for all buffers and offsets, with the summation they use; flipping back is a lemma over the flip contract. Areas and lengths in exact real arithmetic. The verify_* self-checks are not under contract.",
        units=[("tri_t", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": x} for x in ("usize", "u32", "u16", "u8")]})],
        trusted=COMMON_TRUST + GEO_TRUST,
        focus_out=r"math/(scalar|vector)|index_type",
        bounded="random edit sequences on views behind random prefixes on the compiled crate, four index widths",
        assumptions=["exact real arithmetic for areas and lengths", "the buffer is borrowed by one view at a time (guaranteed by the borrow checker)"],
    ),
    "C07": dict(
        technique="Deductive verification (Verus) of the real triangulation algorithms: each appends a triangulation of the polygon's corner cycle",
        note="fan, small polygons, ear clipping, the minimum-weight program and the dispatch proved for all face sizes and all outcomes of the geometric predicates to append n-2 triangles that glue to the face's own corner cycle behind an untouched buffer. The sweep and Delaunay code (geometric predicates, spade) has assumed contracts at face level and is only bounded; geometry of vertices and rotations opaque.",
        units=[("mesh_c07", [{"IDX": "usize"}]), ("mw_t", [{"IDX": "usize"}])],
        trusted=COMMON_TRUST + MESH_TRUST + GEO_TRUST + ["delaunay_triangulation and sweep_line (assumed contracts, bounded by the harness)", "minweight_dynamic_direct is a stub with its proved contract in unit mesh_c07, proved in unit mw_t"],
        focus_out=r"^src/(halfedge|math|util|extensions)/|mesh/(mesh|edge|vertex)/|next_pos|map_indices|flip_edge|area|total_edge_weight",
        bounded="random simple polygons in four planes and the faces of 16 solids through all eight algorithms on the compiled crate",
        assumptions=["input polygons are simple (sweep, Delaunay, ear clipping) or convex (fan)", "ear clipping: face size fits i32", "at least one triangulation with finite weight exists (minimum weight)"],
    ),
    "C09": dict(
        technique="Deductive verification (Verus) of the quadrilateral rule and the minimum-weight dynamic program against the minimum over all triangulations",
        note="min_weight_quad proved to choose an inner diagonal and the shorter of two for all quadrilaterals; the dynamic program (TriangularStore, fill_m, traceback) proved to return a triangulation whose total weight is the minimum over all triangulations of the polygon, for every size and weight function, in exact arithmetic.",
        units=[("mw_t", [{"IDX": "usize"}]), ("tess", [{"IDX": "usize"}])],
        trusted=COMMON_TRUST + GEO_TRUST,
        focus_out=r"^src/(math|mesh)/|ear_clipping|convex\.rs",
        bounded="random quadrilaterals of every convexity pattern and random polygons up to 9 corners against brute force on the compiled crate",
        assumptions=["exact real arithmetic", "some triangulation of the polygon has a finite weight (else the code documents a fallback that is not reached)"],
    ),
    "C10": dict(
        technique="Deductive verification (Verus) of the real export functions over the proved triangulation contracts",
        note="dense_vertices, triangulate and triangulate_and_generate_flat_normals_post proved to produce the documented vertex buffer, in-range indices and n-2 triangles per face over that face's own corners, for all valid meshes without gaps in the vertex storage. Sweep/Delaunay enter by assumed contracts; that the flat normal is the face normal is bounded only.",
        units=[("mesh_c10", [{"IDX": "usize"}])],
        trusted=COMMON_TRUST + MESH_TRUST + GEO_TRUST + ["triangulate_face: contract proved in unit mesh_c07 except for sweep and Delaunay (assumed)"],
        focus_out=r"^src/(math|util|extensions|tesselate)/|halfedge/(edge|face|vertex)/|mesh/(edge|vertex|face)/|next_pos|flip_edge|area|total_edge_weight|get_triangle",
        bounded="exports of 16 solids and random mixed meshes through all algorithms on the compiled crate, normals included",
        assumptions=["the vertex storage has no gaps (no public operation deletes a vertex)"],
    ),
    "C11": dict(
        technique="Deductive verification (Verus) of the real subdivision code against a ghost map from every old half-edge to its parts",
        note="loop_subdivision, subdivision_frequency, subdivide_unsafe, subdivide_unsafe_try_fixup and SubdivisionDescription proved for all valid closed triangle meshes: every triangle becomes the four expected ones with exact tables, one new vertex per edge carrying what the interpolator makes of exactly its two ends, the result valid and closed, b*b times the faces; every old vertex keeps exactly its half-edges, every new one has six. LinearVertexInterpolator proved to yield the weighted mean (so the midpoint), SlerpVertexInterpolator a point on the sphere. The geodesic spheres are bounded.",
        units=[("mesh_c11", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": "usize"}, {"IDX": "u32"}]}), ("lin_t", [{}])],
        trusted=COMMON_TRUST + MESH_TRUST + ["VertexInterpolator::call is a function of the payloads and weights it is given (both implementations are under contract in unit lin_t, with normalize, slerp and vector arithmetic of nalgebra assumed); face payloads are Copy, as the code requires"],
        focus_out=r"^(?!src/operations/subdivision|src/halfedge/mesh/builder/semi\.rs impl HalfEdgeSemiBuilder for HalfEdgeMeshImpl :: subdivide|src/mesh/vertex/interpolator)",
        bounded="closed triangle meshes of random shape (also with handles and gaps in the numbering) on the compiled crate, frequencies, geodesic spheres: counts, incidence, payloads, radii",
        assumptions=MESH_ASSUME,
    ),
    "C12": dict(
        technique="Deductive verification (Verus) of the real mesh transformation loops, mutable iteration and affine transformations",
        note="transform/translate/rotate/scale of a mesh and the copying variants proved to apply the payload's own operation exactly once to every live payload and to touch nothing else, for all meshes with gaps; NdAffine (apply, apply_vec, chain, from_*, with_*), VecN, VertexPayloadPNU and CurvedEdgePayload proved over exact real matrices in dimensions 1 to 4. Rotation matrices are opaque; nalgebra's matrix arithmetic is assumed to be matrix arithmetic.",
        units=[("mesh_c12", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": x} for x in ("usize", "u32", "u8")]}),
               ("xf_t", {"quick": [{"DIM": "2"}, {"DIM": "3"}], "thorough": [{"DIM": x} for x in ("1", "2", "3", "4", "7")]})],
        trusted=COMMON_TRUST + ["nalgebra SMatrix/DMatrix products, sums, blocks, identity, diagonal and entry access (assumed contracts over exact reals)",
                                "NdRotate::to_matrix is opaque; from_rotation_arc and the rotation constructors are bounded only",
                                "a payload's own transform/translate/rotate/scale is an opaque function; Clone of a payload yields an equal payload"],
        bounded="whole-mesh transformations of 16 solids and random meshes with logged payloads, and affine/vector/payload/curved-edge operations on exactly representable values in 1 to 4 dimensions, on the compiled crate",
        assumptions=["exact real arithmetic"],
    ),
    "C13": dict(
        technique="Deductive verification (Verus) of the real mesh import: isomorphism in iteration order as postcondition",
        note="import_mesh proved, for all valid source meshes (gaps, open boundaries, isolated vertices) and all payload converters, to return a valid mesh in which the j-th live vertex, half-edge and face of the source has handle j, with every relation (including 'none') renumbered and the converted payload of its counterpart. The source mesh is represented by the same half-edge structure with opaque payloads; to_nd (dimension change without curved edges) additionally by bounded runs.",
        units=[("mesh_c13", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": x} for x in ("usize", "u32", "u8")]})],
        trusted=COMMON_TRUST + MESH_TRUST + ["the source mesh type and the target mesh type enter as one half-edge structure with the same opaque payload and index types (import_mesh only uses the trait getters, each of which is under contract)",
            "std HashMap insert/index as specified by vstd"],
        focus_out=r"is_open|shared_|:: (is_boundary|degree|neighbor_ids|same_face_back|same_face|size_hint|vertex_ids|edge_ids|add_\w+|insert_edge\w*|insert_vert\w*|insert_path|insert_loop|close_\w+|outgoing_boundary_edge|ingoing_boundary_edge)$",
        bounded="to_nd into 2, 3 and 4 dimensions on random meshes of curved-edge type without curves, on the compiled crate",
        assumptions=["the source mesh has no curved edges (to_nd flattens them first)"],
    ),
    "C14": dict(
        technique="Deductive verification (Verus) of the real matrix, degree and breadth-first-search functions",
        note="has_consecutive_vertex_ids, adjacency_matrix, adjacency_matrix_euclidean, degrees, degree_matrix, laplacian, laplacian_euclidean and shortest_path proved for all valid meshes: every matrix entry equals the one counted from the half-edges (distances are an opaque symmetric function), the rows of the unweighted Laplacian sum to zero on manifold meshes without parallel edges (lemma over the contract), and the search terminates and returns a walk along edges that no other walk undercuts, or nothing exactly when no walk exists. The order in which degrees() lists its entries is only run.",
        units=[("mesh_c14", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": x} for x in ("usize", "u32", "u8")]}), ("mesh_c14b", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": x} for x in ("usize", "u32", "u8")]})],
        trusted=COMMON_TRUST + MESH_TRUST + ["nalgebra::DMatrix enters as a table of entries (from_element, indexing, subtraction)", "the distance of two positions is symmetric", "std HashMap/HashSet/VecDeque as specified by vstd", "HashMap::into_iter + sort enters as a list of all entries in some order"],
        focus_out=r"^(?!src/mesh/mesh/(netsci|topology)\.rs|src/mesh/mesh/basics\.rs .*has_consecutive)",
        bounded="the compiled matrices and paths between all vertex pairs on the library's solids and random meshes, against counts and a level search of the harness; order of degrees()",
        assumptions=["exact real arithmetic", "shortest_path and the row sums are stated for meshes whose vertices have a single fan of edges (neighbour iteration visits one fan only)"],
    ),
    "C15": dict(
        technique="Deductive verification (Verus) of the real comparison and matching functions",
        note="equal_up_to_rotation, is_trivially_isomorphic(_ex), find_payload_isomorphism, is_isomorphic, is_isomorphic_by and IndexIsomorphism proved for all pairs of valid meshes and all comparison closures: 'equivalent' exactly when handles, endpoints, face loops (up to rotation) and the three comparisons agree, and every other answer names a difference that exists; a matching is total, one to one and satisfies the comparison, and an error means no such matching exists for that vertex or two vertices share their counterpart. The variants by position are run on the compiled crate.",
        units=[("mesh_c15", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": x} for x in ("usize", "u32", "u8")]})],
        trusted=COMMON_TRUST + MESH_TRUST + ["both mesh types enter as one half-edge structure with the same opaque payload and index types", "std HashMap/HashSet as specified by vstd", "Iterator::eq, zip and cycle are re-implemented and verified on lists", "error texts (format!) are opaque"],
        focus_out=r"^(?!src/mesh/mesh/(basics|iso)\.rs)|is_open|:: (dense_\w+|has_consecutive\w*|shared_face)$",
        bounded="random pairs of meshes (copies, further calls, turned edges, faces put back, parts in another order) and the variants by position on the compiled crate",
        assumptions=["is_isomorphic visits the edges in the vertex wheels; the statement for meshes whose vertices are non-manifold covers those edges only", "the correspondence handed to is_isomorphic is total on the vertices"],
    ),
    "C16": dict(
        technique="Deductive verification (Verus) of the real lofting, extruding and primitive functions: exact faces, new vertices and numbers of elements as postconditions",
        note="extrude, extrude_face, extrude_tri, extrude_tri2, extrude_tri_face, extrude_boundary, fill_hole_apex, loft_tri(_closed), loft_polygon(_back) by quads, the pyramids, frusta, prisms, antiprisms, cylinder, cone, tetrahedron, cube, octahedron, icosahedron and uv_sphere proved for all valid meshes, hole lengths and parameters: valid result, the promised faces over every half-edge of the hole, one new vertex per boundary vertex (or one apex), closed solids with the stated numbers of vertices, half-edges and faces. Positions are opaque. The dodecahedron and lofts with other face sizes or partial point lists are only run on the compiled crate.",
        units=[("mesh_c16", {"quick": [{"IDX": "usize"}], "thorough": [{"IDX": "usize"}, {"IDX": "u32"}]})],
        trusted=COMMON_TRUST + MESH_TRUST + ["scalars, vectors and transformations are opaque here; a circle of n points yields n points; moving or interpolating a vertex payload is an unknown function of its arguments", "Vec::rotate_right and itertools' circular_tuple_windows by their documentation"],
        focus_out=r"^(?!src/(operations|primitives)/)",
        bounded="primitives for many parameters, and lofts/extrusions of random holes of random meshes on the compiled crate: closedness, Euler characteristic, faces and counts against an independent reference structure; the dodecahedron, loft_tri_back(_closed), loft_polygon_back with other face sizes; equal edge lengths of the regular solids",
        assumptions=MESH_ASSUME + ["the hole has at least two half-edges; for an apex it does not touch itself"],
    ),
    "C17": dict(
        technique="Deductive verification (Verus) of the real summation, mean and helper functions over exact reals",
        note="neumaier_summation, kahan_summation, stable_sum/stable_mean of scalars and vectors and of the iterator extensions, clamp, lerp, abs, det3, is_about and the plane-vector determinants proved for all inputs and lengths in exact real arithmetic (no rounding). The primitive operations of f32/f64 and VecN are assumed; the compiled instances are only run on exactly representable inputs.",
        units=[("sums_t", [{"IDX": "usize"}])],
        trusted=COMMON_TRUST + GEO_TRUST,
        bounded="exactly representable input lists and argument tuples on the compiled f32/f64 and VecN instances",
        assumptions=["exact real arithmetic"],
    ),
}

NOT_APPLICABLE = {}
