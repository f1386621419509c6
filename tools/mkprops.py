#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as source so that the wording lives in one place).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Element handles are stable, unique, and never alias a deleted element",
 "For every history of adding, reserving, filling, deleting and clearing elements, a handle returned for an element keeps denoting exactly that element (with its own id stored in it and its last written content) until it is deleted, and no two live elements share a handle. A deleted or never-created handle is reported as absent, a slot is handed out again only after it was freed, and deleting or adding one element changes no other. The reported number of elements equals the number of handles in use and the reported capacity bounds every handle.",
 ["histories"],"all sequences of storage operations of any length, every index width (8, 16, 32, 64 bit)",
 "No test deletes and re-adds elements directly; only fixed construction sequences are sampled, whereas reuse bugs need specific interleavings of deletion and allocation.",
 ["src/util/deletable.rs","src/math/index_type.rs","src/halfedge/edge/mod.rs","src/halfedge/face/mod.rs","src/halfedge/vertex/mod.rs"],
 [("free list reused by push/allocate","src/util/deletable.rs: DeletableVector"),("id == max() marks deleted","Deletable impls of the three element types")],
 state=[("data/deleted","slots and free list","src/util/deletable.rs")])

p("C02","Every mesh building operation preserves the half-edge structure",
 "Starting from an empty mesh, after every history of topology-building calls made within their documented preconditions the mesh is structurally valid: twins pair up with opposite origins, successor and predecessor are mutually inverse, an edge ends where its successor starts, all edges of a loop name the same face, and every non-isolated vertex and every face names one of its own edges. This covers adding vertices and edges, joining components, closing and removing faces, splitting edges and inserting paths, loops and polygons.",
 ["histories","inputs"],"all valid meshes, all legal arguments, hence all finite call histories",
 "Tests build a few dozen fixed solids and call check() at the end; the invariant is inductive over arbitrary histories and arbitrary valency.",
 ["src/halfedge/mesh/builder/builder.rs","src/halfedge/mesh/builder/halfedge.rs","src/halfedge/mesh/builder/semi.rs","src/halfedge/mesh/check.rs","src/halfedge/primitives/mod.rs"],
 [("pointer updates of each builder operation","src/halfedge/mesh/builder/*.rs"),("own runtime check","src/halfedge/mesh/check.rs")])

p("C03","Insertions connect exactly what was asked and leave the rest untouched",
 "Every vertex or edge insertion returns handles of new elements that carry the given payloads and connect exactly the requested vertices at the requested place of the boundary, with the documented direction for each returned half-edge. Element counts grow by exactly the inserted elements. No payload, origin, twin or face assignment of an existing element changes, except for the parts of an edge that the operation is documented to split.",
 ["inputs","histories"],"all valid meshes and all legal arguments of the insertion operations",
 "Tests assert counts or validity of finished solids; swapped payloads, reversed return values or a disturbed unrelated neighbour survive them.",
 ["src/halfedge/mesh/builder/builder.rs","src/halfedge/mesh/builder/halfedge.rs","src/halfedge/mesh/builder/semi.rs","src/mesh/mesh/builder.rs"],
 [("insert_edge*, add_vertex_via_*, add_isolated_edge, insert_vertices_into_edge, insert_path, insert_loop","src/halfedge/mesh/builder")])

p("C04","Closing a hole and removing a face affect exactly one boundary loop",
 "Closing a hole creates one face with the given payload and assigns it to precisely the half-edges of the loop of the given edge; removing a face returns its payload, unassigns precisely its loop and frees its handle. Both leave all other elements and all connectivity unchanged, so closing after removing (or the reverse) restores the mesh up to the face handle.",
 ["inputs","histories"],"all valid meshes, loops of any length, any edge of the loop as argument",
 "Tests never compare the untouched remainder of the mesh and sample only small loops.",
 ["src/halfedge/mesh/builder/builder.rs","src/halfedge/mesh/builder/halfedge.rs","src/halfedge/edge/iterator.rs","src/halfedge/face/mod.rs"],
 [("close_hole / close_face / remove_face over edges_face_mut","src/halfedge/mesh/builder")])

p("C05","Flipping edges reverses them without changing the surface",
 "Flipping an edge of a valid mesh exchanges its origin and target and the roles of the two half-edges, while the set of directed connections, the face loops and all vertex and face handles stay the same, and the mesh stays valid; flipping the same edge twice restores the mesh up to which incident edge represents a vertex or face. Flipping the whole mesh flips every edge exactly once. This includes dangling and isolated edges.",
 ["inputs"],"all valid meshes and every edge, including edges with a dangling end",
 "Tests flip only a triangle and a cube, none with dangling edges or mixed boundaries.",
 ["src/halfedge/edge/halfedge.rs","src/mesh/mesh/halfedge.rs"],
 [("HalfEdge::flip and HalfEdgeMesh::flip/twin_edges","src/halfedge/edge/halfedge.rs, src/mesh/mesh/halfedge.rs")])

p("C06","Traversals visit every incident element exactly once and terminate",
 "On every valid mesh, walking around a face or boundary loop (forwards or backwards) and around a vertex yields each incident half-edge exactly once, in the documented rotational order, starting at the given edge, and then stops; announced lengths are exact at every step. Queries built on them (degree, neighbours, faces of a vertex, vertices of a face, edge between two vertices, shared face, boundary tests, membership in the same face) give exactly the answer implied by the connectivity.",
 ["inputs"],"all valid meshes (any loop length, any valency, isolated and dangling vertices), all start elements",
 "Tests iterate a few regular solids where loops have equal sizes; termination and exactness for arbitrary permutations need a proof about orbits.",
 ["src/halfedge/edge/iterator.rs","src/halfedge/vertex/iterator.rs","src/halfedge/vertex/basics.rs","src/halfedge/edge/basics.rs","src/halfedge/edge/halfedge.rs","src/halfedge/face/mod.rs","src/halfedge/mesh/basics.rs","src/mesh/face/basics.rs","src/mesh/vertex/basics.rs","src/halfedge/mesh/pseudo_winged.rs"],
 [("ForwardEdgeIterator, BackwardEdgeIterator, IncidentToVertexIterator","src/halfedge")])

p("C07","A triangulated polygon is covered by n-2 triangles over its own corners",
 "For every face with n corners, each triangulation algorithm, applied to input it supports, appends exactly n-2 triangles whose corners are corners of that face and whose boundary is exactly the face's boundary, i.e. every side of the face belongs to exactly one triangle and every inner side to exactly two. Whatever was in the output buffer before is left unchanged. Except for ear clipping, all triangles are wound like the face.",
 ["inputs"],"all face sizes and all outcomes of the geometric predicates (combinatorial algorithms); convex and simple polygons for the geometric ones",
 "Tests run some random and fixed polygons and mainly compare areas with a loose tolerance.",
 ["src/tesselate/mod.rs","src/tesselate/convex.rs","src/tesselate/ear_clipping.rs","src/tesselate/fixed_n.rs","src/tesselate/min_weight_dynamic.rs","src/tesselate/delaunay.rs","src/tesselate/sweep/sweep.rs","src/tesselate/sweep/monotone/linear.rs"],
 [("per-algorithm triangle emission","src/tesselate"),("dispatch by size and algorithm","src/tesselate/mod.rs")])

p("C08","A triangulation view reads and edits only its own triangles",
 "A triangulation view over a shared index buffer counts, reads, remaps, measures and edits exactly the triangles appended since the view was created and never touches the indices before it. Flipping the shared diagonal of two triangles of the view replaces it by the other diagonal of the same quadrilateral, keeps the outline and orientation, and is undone by flipping back. Area and edge-weight totals sum each of its triangles exactly once.",
 ["inputs","histories"],"all buffer contents, all view offsets and lengths, all pairs of adjacent triangles",
 "All existing tests use views that start at offset zero.",
 ["src/mesh/triangulation.rs"],
 [("start offset arithmetic","src/mesh/triangulation.rs: Triangulation")],
 state=[("start","offset of the first own index","src/mesh/triangulation.rs")])

p("C09","Optimal triangulations are optimal among the valid ones",
 "The specialised quadrilateral triangulation uses a diagonal that lies inside the quadrilateral, and the shorter one when both do. The minimum-weight algorithm returns a triangulation whose total weight is the least that its weight function allows among all triangulations of the polygon, or falls back only when none is valid.",
 ["inputs"],"all quadrilaterals (any convexity pattern) and all polygons of any size, for every weight function",
 "Optimality over all triangulations (Catalan many) cannot be sampled; the existing test compares a handful of polygons with a stored number.",
 ["src/tesselate/fixed_n.rs","src/tesselate/min_weight_dynamic.rs"],
 [("min_weight_quad","src/tesselate/fixed_n.rs"),("TriangularStore, fill_m, traceback","src/tesselate/min_weight_dynamic.rs")])

p("C10","Exported buffers describe exactly the mesh",
 "Exporting a mesh yields a vertex buffer and an index buffer whose length is a multiple of three and whose every index is in range; each exported triangle's payloads are those of the corresponding face's own vertices, and each face contributes exactly its n-2 triangles. The compact export has one entry per live vertex in handle order; the flat-normal export has one entry per face corner, never shares entries between faces, and changes nothing but the normal.",
 ["inputs"],"all valid meshes, including isolated vertices and faces of different sizes",
 "Only one end-to-end call exists in the tests and its result is ignored ('TODO: test something').",
 ["src/mesh/mesh/triangulate.rs","src/halfedge/mesh/basics.rs","src/mesh/triangulation.rs"],
 [("triangulate, triangulate_and_generate_flat_normals_post, dense_vertices, map_indices","src/mesh/mesh/triangulate.rs, src/halfedge/mesh/basics.rs")])

p("C11","Subdivision refines every triangle into the promised number of triangles",
 "Subdividing a closed triangle mesh at frequency b (a power of two) yields a valid closed triangle mesh with b*b times as many faces and edges and one new vertex per old edge and halving step, and the same Euler characteristic. Every original vertex keeps its handle, payload and valency; each new vertex is shared by the two triangles at its edge and is interpolated from exactly that edge's two endpoints. Geodesic spheres have all their vertices on the sphere. The triangulation number of a frequency (b,c) is b*b+b*c+c*c.",
 ["inputs"],"all closed triangle meshes and all supported frequencies",
 "Tests subdivide three platonic solids and inspect only face counts through a debug assertion.",
 ["src/operations/subdivision.rs","src/halfedge/mesh/builder/semi.rs","src/primitives/sphere.rs","src/mesh/vertex/interpolator.rs"],
 [("loop_subdivision via subdivide_unsafe / fixup","src/operations/subdivision.rs, src/halfedge/mesh/builder/semi.rs")])

p("C12","Transforming a mesh transforms every payload once and nothing else",
 "Translating, rotating, scaling or transforming a mesh applies exactly that operation exactly once to the payload of every live vertex, edge and face and of the mesh, and changes no connectivity, handle or count; the variants that return a copy leave the original unchanged and agree with the in-place variants. Chaining two transformations means applying the left one first, adding a scale or a translation applies it after what is already there, and direction vectors are unaffected by translation.",
 ["inputs"],"all meshes with any number of live and deleted elements, all transformations",
 "Tests transform single payloads; skipping or repeating an element, or touching a deleted one, is invisible to them.",
 ["src/mesh/mesh/transform.rs","src/math/transformable.rs","src/math/transform.rs","src/extensions/nalgebra/math/transform_n.rs","src/extensions/nalgebra/default_vertex_payload.rs"],
 [("loops over vertices_mut/edges_mut/faces_mut","src/mesh/mesh/transform.rs")])

p("C13","Converting a mesh to another type preserves its connectivity",
 "Converting any valid mesh without curved edges to a mesh of another payload type or dimension yields an isomorphic mesh: elements correspond one to one in iteration order, every origin, twin, successor, predecessor, face and representative relation (including 'none') is carried over, and each payload is the converted payload of its counterpart. The source is not modified and the result is valid.",
 ["inputs"],"all valid meshes, including open ones, isolated vertices and gaps left by deleted elements",
 "Tests convert one or two shapes without gaps or isolated vertices.",
 ["src/halfedge/mesh/builder/halfedge.rs","src/extensions/nalgebra/mesh_nd.rs"],
 [("import_mesh id maps","src/halfedge/mesh/builder/halfedge.rs")])

p("C14","Graph metrics and shortest paths agree with the mesh's edges",
 "The adjacency matrix is symmetric with a one exactly where two vertices share an edge (or their distance, in the Euclidean variant), the degree matrix is diagonal with the vertex degrees, the Laplacian is their difference, and on meshes without parallel edges each row of the unweighted Laplacian sums to zero. A shortest-path query returns a path along mesh edges with the least number of edges from the first to the second vertex, the single vertex when both are equal, and nothing exactly when they are not connected.",
 ["inputs"],"all valid manifold meshes with consecutive vertex handles and all vertex pairs",
 "Tests compare eigenvalues of one cube; shortest paths are untested.",
 ["src/mesh/mesh/netsci.rs","src/mesh/mesh/topology.rs"],
 [("adjacency_matrix, degree_matrix, laplacian","src/mesh/mesh/netsci.rs"),("breadth-first search","src/mesh/mesh/topology.rs")])

p("C15","Mesh comparison accepts exactly the equal meshes",
 "Comparing two meshes element by element (same handles) reports equality exactly when they have the same counts, the corresponding edges have the same endpoints, the corresponding faces list the same edges up to rotation, and the supplied comparisons hold for all corresponding elements; otherwise it names a differing element. Matching vertices by payload yields a one-to-one correspondence satisfying the metric or an error, and the comparison under such a correspondence succeeds only if edges and faces correspond.",
 ["inputs"],"all pairs of valid meshes and all comparison functions",
 "Tests compare variants of a cube; false acceptance needs specific non-isomorphic pairs.",
 ["src/mesh/mesh/basics.rs","src/mesh/mesh/iso.rs"],
 [("is_trivially_isomorphic_ex, is_isomorphic, find_payload_isomorphism, equal_up_to_rotation","src/mesh/mesh/basics.rs")])

p("C16","Lofting, extruding and primitives produce the promised closed surfaces",
 "Extruding a boundary loop or face, filling a hole with an apex, lofting a loop with the fitting number of points, and the solid primitives yield valid meshes whose faces are the promised ones: per boundary edge one quad (or two triangles, or one triangle for an apex) plus the cap, with one new vertex per boundary vertex (or one apex). Extruding all boundary edges extrudes every hole of the mesh. Solids come out closed, with Euler characteristic two and the documented number of faces for every size parameter.",
 ["inputs","configurations"],"all loop lengths / side counts and every loop of every valid mesh satisfying the preconditions",
 "Tests build each primitive for one or two parameters.",
 ["src/operations/extrude.rs","src/operations/loft.rs","src/primitives/prismatoid.rs","src/primitives/sphere.rs","src/primitives/polygon.rs","src/halfedge/primitives/mod.rs"],
 [("loft_*, extrude*, fill_hole_apex","src/operations"),("primitives as sequences of those","src/primitives")])

p("C17","Sums and means count every element exactly once",
 "In exact arithmetic, the compensated summation of scalars and vectors equals the plain sum of all given elements for every input length and order, and the mean equals that sum divided by the number of elements; the empty sum is zero. Clamping, interpolation and determinant helpers agree with their mathematical definitions.",
 ["inputs"],"all sequences of numbers of any length, arithmetic read as exact real arithmetic",
 "Tests sum a few fixed lists.",
 ["src/math/scalar.rs","src/math/vector.rs","src/math/impls/f32.rs","src/math/impls/f64.rs"],
 [("kahan_summation, neumaier_summation, stable_mean","src/math/scalar.rs")])
import os
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(d)+"\n" for d in P))
