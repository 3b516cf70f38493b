GEO = "the unit tests use a handful of fixed points and shapes"
prop("P11", "Nearest point, containment and crossing queries on a boundary are right",
  "For any point and planar boundary with holes, nearestPoint returns a point of the boundary and its distance, and no boundary point is nearer; within says inside exactly for points inside the outer loop and outside all holes, boundary points counting as inside; intersect returns every point where a segment crosses the boundary's loops, each once, sides parallel to the segment excepted.",
  ["inputs"], "every simple polygon with holes, every query point (on vertices, edges, level with vertices, far away) and every segment", GEO,
  ["src/nearestPoint.hh", "src/within.hh", "src/intersect.hh", "src/polytope_geometric_utilities.hh"], [("closest point on facets", "src/nearestPoint.hh"), ("crossing number", "src/within.hh"), ("segment intersection with vertex de-duplication", "src/intersect.hh")], (), ["returned points, distances, flags"])
prop("P12", "Convex hulls enclose their points; convex overlap and containment are right",
  "The 2D and 3D convex hull of any point set is convex, oriented outward, made of the given points only, and encloses all of them; collinear points give their extreme points. Two convex polygons or polyhedra are reported to intersect exactly if they share a point, and one to lie within the other exactly if it does.",
  ["inputs"], "every point set with duplicates, collinear and coplanar subsets; every pair of convex polygons or polyhedra in general or touching position", GEO,
  ["src/convexHull_2d.hh", "src/convexHull_3d.hh", "src/convexIntersect.hh", "src/convexWithin.hh", "src/KeyTraits.hh"], [("monotone chain on integers", "src/convexHull_2d.hh"), ("incremental hull with duplicate removal", "src/convexHull_3d.hh"), ("separating axes", "src/convexIntersect.hh")], (), ["facets, flags"])
prop("P13", "Cell measures and elementary constructions are exact to rounding",
  "Area, volume, centroid and outline of any mesh cell equal those of the polygon or polyhedron its faces form, independent of face order and orientation signs; circumcentres are equidistant from the points given, normals are the cross product, collinearity is recognised, and ray intersections with planes, circles, spheres and boxes lie on both the ray and the surface.",
  ["inputs"], "every cell of polygonal and polyhedral meshes, every triangle, tetrahedron and ray away from degeneracy", GEO,
  ["src/polytope_geometric_utilities.hh"], [("computeCellCentroidAndSignedArea / Volume", "src/polytope_geometric_utilities.hh"), ("cellToReducedPLC", "src/polytope_geometric_utilities.hh"), ("ray intersections", "src/polytope_geometric_utilities.hh")], (), ["returned values"])
prop("P14", "Position hashing, unique-point maps and sorted search are faithful",
  "Hashing a position and unhashing it returns the position to within one lattice cell, inside and outside the inner box; positions in different lattice cells never share a hash. Unique-point reduction keeps one representative within tolerance of every input point and maps every input to it. The bisection search returns the index of the interval holding the value.",
  ["inputs"], "every box, position, tolerance and point list in 2D and 3D", "no stable test covers hashing, and the search is tested on a few values",
  ["src/polytope_geometric_utilities.hh", "src/polytope_internal.hh", "src/bisectSearch.hh"], [("hashPosition / unhashPosition", "src/polytope_geometric_utilities.hh"), ("uniquePoints", "src/polytope_geometric_utilities.hh")], (), ["returned values"])
EDIT = "the editing tests delete cells or clean edges of one or two lattice meshes and check counts"
prop("P16", "Deleting cells keeps the other cells exactly and leaves no trace of the rest",
  "After deleting any subset of cells, in 2D or 3D, every kept cell has the same faces with the same orientation and the same nodes at bit-identical positions; cells keep their order; exactly the faces and nodes used by kept cells remain; face-cell tables, boundary lists and the node and face lists shared with neighbour domains refer to the new numbering and hold exactly what survived; several deletions in a row behave as one.",
  ["inputs", "histories"], "every mesh, every subset of cells (repeated or unordered indices included) and every sequence of deletions", EDIT,
  ["src/MeshEditor.cc", "src/deleteCells.hh", "src/removeElements.hh"], [("deleteCells by mask and by index", "src/deleteCells.hh"), ("MeshEditor::deleteCells / cleanMesh", "src/MeshEditor.cc")], (), ["whole mesh before and after"])
prop("P17", "Cleaning short edges is a conforming contraction of short edges only",
  "cleanEdges(tolerance) removes only edges shorter than the tolerance times the longest edge of an adjoining cell, by merging their ends: the result is the old mesh with those ends identified, nothing else moved, no cell lost, corners of the boundary kept; the mesh stays conforming, its tables and boundary lists are rebuilt; and a short edge away from the boundary and from other merges does not survive.",
  ["inputs", "histories"], "every conforming planar mesh, every tolerance below one, and repeated cleaning", EDIT,
  ["src/MeshEditor.cc", "src/MeshEditor.hh"], [("flagEdgesForCleaning / cleanEdges", "src/MeshEditor.cc")], (), ["whole mesh before and after"])
prop("P18", "Derived tables, printed form and clearing agree with the mesh",
  "computeNodeCells and computeCellToNodes list exactly the cells around each node and the nodes of each cell; the printed mesh, read back, is the same mesh; a mesh with cells is not empty and a cleared one is, with every list cleared; removing elements by index leaves the others in order and returns the old-to-new map.",
  ["inputs"], "every 2D and 3D mesh and every index list", "tests call these on single fixed meshes, if at all",
  ["src/Tessellation.hh", "src/removeElements.hh"], [("computeNodeCells, computeCellToNodes, operator<<, clear, empty", "src/Tessellation.hh"), ("removeElements", "src/removeElements.hh")], (), ["returned tables, printed text"])
prop("P19", "Serialized objects come back bit for bit, one after another",
  "Serializing any sequence of numbers, nested vectors of numbers, PLCs and ReducedPLCs in 2D or 3D appends to the buffer without touching what it holds; deserializing in the same order into fresh objects returns each one bit for bit and leaves the cursor exactly at the end of its bytes.",
  ["inputs", "histories"], "every value (infinities, NaNs, negative zero, full-range integers), every vector size and nesting up to three levels, every sequence sharing one buffer", "one test round-trips one fixed PLC",
  ["src/polytope_serialize.hh", "src/PLC.hh", "src/ReducedPLC.hh"], [("Serializer specialisations", "src/polytope_serialize.hh")], (), ["buffer bytes, cursor, objects"])
prop("P22", "Silo files hold every process's mesh, fields and tags, exactly",
  "After SiloWriter::write on any number of processes, with any number of files, the master file in the requested directory lists one mesh block per process, in rank order, and matching blocks for every field; each block, read with the Silo library, holds that process's node positions, cell and face connectivity, boundary faces, face-cell table, convex hull, node/edge/face/cell fields and tags bit for bit, with the given cycle and time. Writing again, under the same or another cycle, leaves the same guarantee, raises no Silo error and does not change the mesh.",
  ["inputs", "histories", "schedules"], "every 2D and 3D mesh, set of fields and tags, process count, file count, cycle and directory, and sequences of writes", "tests call the writer for pictures and never read a file back",
  ["src/SiloWriter_2d.cc", "src/SiloWriter_3d.cc", "src/SiloUtils.cc", "src/SiloUtils.hh", "src/SiloWriter.hh"], [("write: PMPIO groups, block and master files", "src/SiloWriter_2d.cc"), ("tags and fields", "src/SiloUtils.cc")], (), ["files, read with libsilo"])
prop("P23", "OFF files describe the whole complex",
  "The OFF file written for a 2D or 3D PLC announces exactly the points, facets (those of the holes included) and, in 2D, distinct edges it has, then lists every point to six digits and every facet of the boundary and of each hole in order with its point indices, and nothing else.",
  ["inputs"], "every PLC with any facets, holes, coordinates and scale", "no test covers the writer",
  ["src/polytope_write_OOGL.hh"], [("writePLCtoOFF", "src/polytope_write_OOGL.hh")], (), ["file text"])
prop("P20", "The C interface hands out exactly what the C++ library makes",
  "A C tessellation holds, array for array, the mesh the C++ tessellator makes from the same input, whatever it held before; clearing leaves it empty, and freeing everything returns all memory. C PLCs and their holes hold what was added, and report emptiness and validity, sizes and nodes accordingly. The print functions give the C++ printed form, cut to the size given. Silo files written from C hold the mesh, fields and tags passed in.",
  ["inputs", "histories"], "every sequence of tessellations (unbounded, boxed, PLC), clears and reuses; every sequence of PLC operations; every set of fields and tags", "one C test prints a mesh and a PLC and compares nothing",
  ["polytope_c/polytope_tessellator.cc", "polytope_c/polytope_tessellation.cc", "polytope_c/polytope_plc.cc", "polytope_c/polytope_write_silo.cc"], [("fill_tessellation", "polytope_c/polytope_tessellation.cc"), ("tessellate in a box or PLC", "polytope_c/polytope_tessellator.cc")], (), ["every array of polytope_tessellation_t, PLC queries, printed text, files"])
prop("P15", "Boolean operations, simplification and canned shapes give the right region",
  "Union, intersection, difference, clipping and union-reduction of planar regions with holes return loops, oriented outward, that cover exactly the points the set operation names; union, intersection and difference by CSG do so for planar segments and for closed surfaces in 3D, whose result is closed again. Simplifying facets keeps the region and its orientation and leaves one facet per straight side or plane. Canned circles, boxes, spheres and cylinders are closed, convex, outward and of the size asked for; reducing a complex to its own points changes no position.",
  ["inputs"], "every pair of polygons (with holes, sharing sides or not) and of convex polyhedra in ordinary or lattice position, every way of splitting, renumbering and shuffling the facets of a boundary", "the tests run a few canned shapes through the operations and print or dump the result",
  ["src/PLC_Boost_2d.hh", "src/PLC_CSG_2d.hh", "src/PLC_CSG_3d.hh", "src/simplifyPLCfacets.hh", "src/polytope_plc_canned_geometries.hh", "src/ReducedPLC.hh"], [("boost polygon operations", "src/PLC_Boost_2d.hh"), ("BSP tree Boolean operations", "src/PLC_CSG_2d.hh"), ("BSP tree Boolean operations", "src/PLC_CSG_3d.hh"), ("gluing coplanar facets", "src/simplifyPLCfacets.hh")], (), ["facets, holes, points returned"])
prop("P21", "Processes that tessellate together get the parts of one mesh",
  "Whatever way the generators are spread over processes, each process of DistributedTessellator or SerialDistributedTessellator ends with exactly the cells of its own generators, and they are the cells of the mesh all generators make together. Asked for, the shared lists are symmetric and complete: a process names as neighbour every process it has a node in common with, and the two list the same nodes and faces in the same order, at bit-identical positions. checkDistributedTessellation accepts such meshes and refuses one with a list spoilt, on every process. Cleaning edges in parallel keeps all this, the cells and the area.",
  ["inputs", "schedules"], "every set of generators and domain, every way of dealing them to any number of processes, every order of message arrival", "the tests run random points over four processes with NDEBUG-only checks and compare nothing between processes",
  ["src/DistributedTessellator.cc", "src/SerialDistributedTessellator.cc", "src/checkDistributedTessellation.hh", "src/MeshEditor.cc", "src/polytope_parallel_utilities.hh"], [("computeDistributedTessellation, computeDomainNeighbors", "src/DistributedTessellator.cc"), ("computeDistributedTessellation", "src/SerialDistributedTessellator.cc"), ("flagEdgesForCleaning (HAVE_MPI)", "src/MeshEditor.cc")], (), ["neighborDomains, sharedNodes, sharedFaces and mesh of every process"])
prop("P10", "No entry point corrupts, leaks or misreads memory or has undefined behaviour",
  "For every input another property admits, the library reads and writes only memory it owns, uses no value it has not set, executes no operation the language leaves undefined, terminates, and, once its results and objects are destroyed, has returned every byte it allocated, so that repeating a call does not grow the process.",
  ["inputs", "histories"], "every input and call sequence of every public C++ and C entry point", "the tests run without any instrumentation, on inputs where such faults stay silent",
  ["src/*", "polytope_c/*"], [("all of the library", "src"), ("C interface", "polytope_c")], (), ["sanitizer and memcheck reports, allocated bytes"])
