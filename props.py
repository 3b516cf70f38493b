# What each property's check runs.  jobs: (worker, mode, processes, cases quick, cases thorough)
WORKERS = {"w_tess": {"chunk": 25}}

GEN = ("generated cases: domains (unit square, box, convex, star-shaped, hand-drawn non-convex, with holes; random aspect and offset) x generator sets "
       "(uniform, lattice, jittered lattice, clusters, lines, rings, near-boundary, mixed), by a counter-based generator from the seed; "
       "non-trivial: more than two generators and a mesh topology not produced by another case (64-bit hash of cells, faces and adjacency)")

PROPS = {
 "P01": dict(jobs=[("w_tess", "topo", 1, 1200, 60000)], rule=GEN, floor={"cells_seen": 20000}),
 "P02": dict(jobs=[("w_tess", "part", 1, 1200, 40000)], rule=GEN, floor={"location_samples": 200000}),
 "P03": dict(jobs=[("w_tess", "vor", 1, 1200, 40000)], rule=GEN, floor={"nearest_probes": 200000, "reference_cells": 5000}),
 "P04": dict(jobs=[("w_tess", "bound", 1, 1600, 60000)], rule=GEN, floor={"cells_seen": 20000}),
 "P05": dict(jobs=[("w_tess", "blist", 1, 1600, 60000), ("w_tess", "unb", 1, 300, 6000)], rule=GEN, floor={"cells_seen": 20000}),
 "P06": dict(jobs=[("w_tess", "frag", 1, 1200, 20000)], rule=GEN, floor={"orphans": 1000}),
 "P07": dict(jobs=[("w_tess", "unb", 1, 1000, 30000)], rule=GEN, floor={"interior_cells": 2000}),
 "P08": dict(jobs=[("w_tess", "degen", 1, 1600, 40000)], rule=GEN, floor={"merged_points": 2000}),
 "P09": dict(jobs=[("w_tess", "meta", 1, 600, 12000)], rule=GEN, floor={"compared:shift": 100, "compared:renumber": 100, "compared:mirror": 100}),
}

PROPS.update({
 "P11": dict(jobs=[("w_geom", "query", 1, 2400, 100000), ("w_geom", "cross", 1, 2400, 100000)], floor={"nearest_queries": 100000, "crossings": 50000, "within_on_boundary": 1000},
             rule="domains (convex, star-shaped, hand-drawn, holed; moderate size) with 200 query points each: vertices, on edges, next to edges, level with vertices, far away; and small-integer polygons with 60 segments each, many through vertices or along edges; non-trivial: a different domain and set of answers"),
 "P12": dict(jobs=[("w_geom", "hull2", 1, 4000, 200000), ("w_geom", "hull3", 1, 1600, 40000), ("w_geom", "convex", 1, 1600, 60000)], floor={"hull2_polygons": 1000, "hull2_lines": 50, "hull3_facets": 5000},
             rule="point sets (uniform, lattice, collinear, duplicated, on circles; boxes and prisms in 3D) and pairs of convex polygons and polyhedra on small integers, so the reference relation is exact; non-trivial: a different hull or set of relations"),
 "P13": dict(jobs=[("w_geom", "measure", 1, 2400, 60000)], floor={"cells_measured": 20000, "cells3_measured": 5000, "rays": 10000, "circumcenters": 10000},
             rule="every cell of generated polygonal meshes and of sheared brick meshes in 3D with random face order and orientation, and 30 random triangles, tetrahedra, rays per case; non-trivial: different measures"),
 "P14": dict(jobs=[("w_geom", "hash", 1, 2400, 100000)], floor={"hashes": 10000, "unique_sets": 1000, "searches": 1000},
             rule="random points in random boxes in 2D and 3D, inside the box, outside it and on its faces; point lists with exact and near duplicates; sorted lists for the search; non-trivial: different hashes"),
})

TECH = {"*": "offline mesh oracle over executions of the real code under ASan+UBSan, generated workloads"}
NOTE = {"*": "Held on every execution counted in the evidence file; assumes the oracle's own long-double geometry and its stated tolerances (1.5e-8 of the domain size per node, the lattice resolution)."}
NOT_APPLICABLE = {}

MESH = "2D meshes made by the code itself from generated cases (and sheared brick meshes in 3D) whose connectivity the oracle accepts first; "
PROPS.update({
 "P16": dict(jobs=[("w_edit", "del", 1, 2400, 100000)], floor={"deletions": 3000, "cells_kept": 20000},
             rule=MESH + "up to four deletions in a row through both entry points (random subsets, one cell, the first, a tail, all but one; repeated and shuffled indices; made-up shared lists); non-trivial: a different sequence of remaining meshes"),
 "P17": dict(jobs=[("w_edit", "clean", 1, 2400, 60000)], floor={"cleanings": 2500, "edges_removed": 5000},
             rule=MESH + "up to three cleanings in a row with tolerances 0.001 to 0.4; non-trivial: at least one edge removed and a mesh not seen before"),
 "P18": dict(jobs=[("w_edit", "derived", 1, 1600, 40000)], floor={"tables": 1000, "removals": 20000},
             rule=MESH + "and random index lists for element removal; non-trivial: a different mesh topology"),
})
NOTE["P17"] = "Held on every execution counted in the evidence file, but for the recorded finding that contracting an edge can turn a small neighbouring cell inside out."

PROPS.update({
 "P19": dict(jobs=[("w_io", "ser", 1, 8000, 400000)], floor={"objects": 10000},
             rule="sequences of 1 to 8 random objects of 15 types in one buffer, vector sizes 0 to 80000, arbitrary bit patterns; non-trivial: a different buffer"),
 "P22": dict(jobs=[("w_io", "silo", 1, 480, 8000), ("w_io", "silo", 2, 240, 4000), ("w_io", "silo", 3, 160, 3000), ("w_io", "silo", 4, 160, 3000)], floor={"silo_blocks": 1500, "silo_items": 20000},
             rule="1 to 4 processes with different meshes (sheared grids partly cut into triangles, tessellations, sheared bricks), up to three writes in a row with random fields, tags, file counts, cycles, times and directories, read back with libsilo; non-trivial: different contents"),
 "P23": dict(jobs=[("w_io", "off", 1, 6000, 200000)], floor={"off_files": 4000},
             rule="random 2D and 3D complexes with 0 to 3 holes at scales 1e-4 to 1e4; non-trivial: different coordinates and facet count"),
})
TECH.update({
 "P19": "round-trip oracle over random object sequences, real code under ASan+UBSan",
 "P22": "offline checker: every file written by 1-4 processes is read back with libsilo and compared with what each process passed in; Silo error hook; ASan+UBSan",
 "P23": "round-trip oracle: independent parser over the written text, ASan+UBSan",
})
NOTE.update({p: "Held on every execution counted in the evidence file." for p in ("P19", "P22", "P23")})
NOTE["P22"] = "Held on every execution counted in the evidence file; assumes the installed Silo library reads back what a file holds. The repository's own SiloReader does not compile and is not covered."

PROPS["P20"] = dict(jobs=[("w_c", "tess", 1, 1600, 40000), ("w_c", "plc", 1, 2400, 60000), ("w_c", "silo", 1, 800, 10000)], floor={"c_meshes": 2000, "leak_checks": 200, "plc_sequences": 2000, "c_silo_files": 700},
    rule="sequences of up to 4 tessellations through one C tessellation and tessellator (unbounded, in a box, in a PLC), some cleared or replaced in between; up to 60 random operations on a C PLC beside a model; Silo files written from C with random fields and tags; non-trivial: a different mesh, PLC or file")
TECH["P20"] = "differential monitor: every array the C interface hands out against the C++ object made by the same calls; heap-growth monitor; ASan+UBSan"
NOTE["P20"] = "Held on every execution counted in the evidence file, but for the recorded finding on face_cells; assumes the C++ library, which the other checks judge."

PROPS["P15"] = dict(jobs=[("w_plc", "boost", 1, 800, 20000), ("w_plc", "csg2", 1, 1600, 40000), ("w_plc", "csg3", 1, 800, 20000), ("w_plc", "simp2", 1, 1600, 40000), ("w_plc", "simp3", 1, 1600, 40000), ("w_plc", "canned", 1, 1600, 20000), ("w_plc", "reduce", 1, 2400, 60000)],
  floor={"op:boost_union": 700, "op:boost_clip": 200, "op:csg_union2": 1000, "op:csg_union3": 500, "op:csg_intersect3": 250, "simplified2": 1000, "simplified3": 1000, "canned": 1500, "reduced": 2000, "membership_probes": 100000},
  rule="pairs of domains (all kinds, holes for the boost operations; one fifth boxes on a lattice so sides coincide), pairs of convex bodies (boxes, spheres, cylinders, frusta, hulls; one fifth lattice boxes), boundaries split at random with shared or private points, turned, shuffled and reversed; non-trivial: a different input and size of result")
TECH["P15"] = "reference-model monitor: area, volume and winding number of each result against long-double areas and membership of the operands; ASan+UBSan"
NOTE["P15"] = "Held on every execution counted in the evidence file, but for the recorded finding (3D bodies that graze each other within the CSG tolerance)."

PROPS["P21"] = dict(jobs=[("w_dist", "serial", 2, 300, 6000), ("w_dist", "serial", 4, 60, 3000), ("w_dist", "dist", 2, 400, 10000), ("w_dist", "dist", 3, 160, 6000), ("w_dist", "dist", 4, 120, 6000), ("w_dist", "dist", 8, 0, 2000),
  ("w_dist", "check", 2, 160, 4000), ("w_dist", "check", 3, 40, 3000), ("w_dist", "clean", 2, 200, 6000), ("w_dist", "clean", 3, 80, 4000), ("w_dist", "clean", 4, 40, 3000)],
  floor={"serial_meshes": 200, "dist_meshes": 300, "dist_meshes_without_lists": 100, "shared_nodes": 30000, "shared_faces": 20000, "cells_compared": 20000, "spoilt_refused": 120, "cleanings": 200, "nodes_cleaned": 400},
  rule="generated domains and generators (as for P01 to P07) dealt to 2 to 8 processes at random, in strips, by nearest seed or very unevenly, unbounded, in a box or in a PLC with or without holes, through both distributed tessellators, then checked with one list spoilt, or cleaned; real processes under mpirun, so message timing varies; non-trivial: a different mesh and distribution")
TECH["P21"] = "offline checker: the meshes of all processes are gathered and their shared lists, cells and tables compared with each other and with the mesh of all generators on one process; ASan+UBSan under mpirun"
NOTE["P21"] = "Held on every execution counted in the evidence file, but for the recorded findings (co-circular generators, cells turned over by edge cleaning)."

# Every worker again, a little of each, judged by the sanitizers and the heap only; and under memcheck.
PROPS["P10"] = dict(ub=True, only="crash:|hang|leak", extra="memcheck",
  jobs=[("w_geom", "query+leak", 1, 20, 2000), ("w_geom", "cross+leak", 1, 20, 2000), ("w_geom", "hull2+leak", 1, 100, 4000), ("w_geom", "hull3+leak", 1, 40, 2000), ("w_geom", "convex+leak", 1, 20, 2000), ("w_geom", "measure+leak", 1, 20, 2000), ("w_geom", "hash+leak", 1, 20, 2000),
        ("w_edit", "clean+leak", 1, 60, 4000), ("w_edit", "del+leak", 1, 60, 4000), ("w_edit", "derived+leak", 1, 30, 2000), ("w_io", "ser+leak", 1, 60, 4000), ("w_io", "silo+leak", 1, 20, 1000), ("w_io", "silo+leak", 2, 10, 500), ("w_io", "off+leak", 1, 60, 4000), ("w_c", "tess+leak", 1, 30, 2000), ("w_c", "plc+leak", 1, 60, 4000), ("w_c", "silo+leak", 1, 20, 1000),
        ("w_tess", "topo+leak", 1, 40, 4000), ("w_tess", "part+leak", 1, 12, 1000), ("w_tess", "frag+leak", 1, 30, 4000), ("w_tess", "degen+leak", 1, 30, 4000), ("w_tess", "unb+leak", 1, 20, 4000), ("w_tess", "blist+leak", 1, 30, 4000),
        ("w_plc", "boost+leak", 1, 40, 4000), ("w_plc", "csg2+leak", 1, 80, 8000), ("w_plc", "csg3+leak", 1, 40, 4000), ("w_plc", "simp2+leak", 1, 60, 4000), ("w_plc", "simp3+leak", 1, 60, 4000), ("w_plc", "canned+leak", 1, 60, 4000), ("w_plc", "reduce+leak", 1, 60, 4000),
        ("w_dist", "serial+leak", 2, 8, 500), ("w_dist", "dist+leak", 2, 8, 500), ("w_dist", "clean+leak", 2, 8, 500), ("w_dist", "check+leak", 2, 8, 500)],
  floor={"leak_probes": 800},
  rule="the workloads of the other properties, each case run four times over, for every public entry point they reach; non-trivial: as for the property the workload belongs to")
TECH["P10"] = "AddressSanitizer and UndefinedBehaviorSanitizer on every workload, heap-growth monitor over repeated cases, valgrind memcheck for uninitialised memory"
NOTE["P10"] = "Held on every execution counted in the evidence file; memory that grows only under conditions a case does not repeat, and reads of uninitialised memory that valgrind's shadow tracking cannot see, are not observed."
