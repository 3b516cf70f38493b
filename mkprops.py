#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; no check needs it)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=hook)))

TESS = ["src/TessellatorInline.hh", "src/BoostTessellator.cc", "src/QuantizedTessellation2d.cc", "src/clipQuantizedTessellation2d.cc", "src/snapToBoundary.cc", "src/Tessellation.hh"]
CASES = "every planar straight-line domain (convex, non-convex, with holes, any position, size and aspect ratio) and every set of generators inside it"
FEW = "the unit tests tessellate a few dozen fixed or lattice-like generator sets in seven canned domains and check cell counts, total area or a few nodes"
prop("P01", "Meshes are conforming: faces, cells and adjacency form one consistent complex",
  "For any generators, with or without a bounding domain, the mesh has exactly one cell per generator, in generator order; each cell is a closed counter-clockwise chain of faces between valid nodes; and no node, face or face end is duplicated or left unused. Every face lists exactly the cells that use it, with orientation signs that agree: two cells in opposite directions inside the domain, one cell on its boundary. The complex has the Euler characteristic of the domain, so neighbouring cells share whole faces and there are no cracks, hanging nodes or duplicate nodes.",
  ["inputs"], CASES + "; also unbounded generator sets", FEW + "; none checks adjacency signs, closure or conformity on arbitrary domains",
  TESS, [("integer lattice nodes and edges, shared by hash", "src/QuantizedTessellation2d.cc"), ("clipping against the boundary on the lattice, one node and edge table for all cells", "src/clipQuantizedTessellation2d.cc"), ("fillTessellation", "src/QuantizedTessellation2d.cc")],
  [("cells/faces/faceCells", "signed (one's complement) incidence", "src/Tessellation.hh")], ["Tessellation<2,double>::cells, faces, faceCells, nodes"])
prop("P02", "The cells partition the domain",
  "The cells of a bounded mesh cover the bounding domain exactly: cell areas are positive and add up to the domain's area (holes excluded), no point of the domain interior is in two cells or in none, and no cell covers a point outside the domain or in a hole.",
  ["inputs"], CASES, FEW + "; area sums are checked for a few domains, overlaps and gaps that cancel never",
  TESS, [("polygon intersection of each Voronoi cell with the boundary", "src/clipQuantizedTessellation2d.cc"), ("orphan adoption", "src/clipQuantizedTessellation2d.cc")], (), ["cells as polygons"])
prop("P03", "Every cell is the Voronoi cell of its own generator",
  "Every point of a cell is at least as close to that cell's generator as to any other generator, up to lattice resolution (fragments handed to a neighbour excepted); every mesh node shared by several cells is equidistant from their generators, and no generator is nearer. In convex domains each cell has the area, extent and long-edge neighbours of the exactly clipped Voronoi cell.",
  ["inputs"], CASES, FEW + "; no test compares a cell against the definition of the Voronoi diagram on general input",
  TESS, [("boost.polygon Voronoi diagram of lattice generators", "src/BoostTessellator.cc"), ("quantize/dequantize", "src/QuantizedTessellation2d.cc")], (), ["cells, nodes"])
prop("P04", "Boundary faces and nodes reproduce the given domain boundary",
  "Every boundary face lies on the given boundary and every boundary segment and hole edge is covered by boundary faces, once; every vertex of the input boundary is the position of a mesh node exactly (bit for bit), on holes as well as on the outer loop; no node lies outside the domain.",
  ["inputs"], CASES, FEW + "; boundary exactness is asserted only in the snapping step under a debug macro",
  TESS, [("snapToBoundary", "src/snapToBoundary.cc"), ("boundary points inserted in the clip polygon", "src/clipQuantizedTessellation2d.cc")], (), ["nodes, faces, boundaryFaces"])
prop("P05", "Boundary node and face lists are exactly the boundary",
  "The mesh's list of boundary faces holds exactly the faces that belong to a single cell, and the list of boundary nodes exactly the nodes of those faces, each once.",
  ["inputs"], CASES + "; also unbounded generator sets", "tests read these lists for unit-square lattices only",
  TESS + ["src/findBoundaryElements.hh"], [("findBoundaryElements", "src/findBoundaryElements.hh"), ("boundary collection while filling", "src/TessellatorInline.hh")], (), ["boundaryFaces, boundaryNodes"])
prop("P06", "Cell fragments cut off by the boundary go to a neighbour, none is lost",
  "When a non-convex boundary or a hole cuts a Voronoi cell into several pieces, the piece holding the generator stays its cell and every other piece is given to neighbouring cells: the cells stay single connected polygons, still partition the domain, stay conforming with their neighbours, and each cell contains its own generator. Points of cells not involved in an adoption still belong to their nearest generator.",
  ["inputs"], "every non-convex or holed domain and generator set for which at least one Voronoi cell is cut into pieces", "one test (Orphan tests on two canned domains) counts orphans; no test checks what the adopted pieces did to the mesh",
  ["src/clipQuantizedTessellation2d.cc", "src/BoostOrphanage.cc"], [("orphanage and adoption loop", "src/clipQuantizedTessellation2d.cc"), ("local re-tessellation of the neighbourhood", "src/clipQuantizedTessellation2d.cc")], (), ["cells, nodes, faces"])
prop("P07", "Unbounded meshes: interior cells exact, outer cells extend outward",
  "Tessellating generators without a boundary gives one cell per generator; every cell whose Voronoi region lies inside the generators' bounding box is exactly that region; inside the bounding box every point belongs to the cell of its nearest generator; and interior cells are the same as when a wide bounding box is added.",
  ["inputs"], "every set of two or more generators, any position and scale", "the unbounded tests check counts on lattices and one random set",
  TESS, [("guard generators around the bounding box", "src/BoostTessellator.cc")], (), ["cells, nodes"])
prop("P08", "Coincident generators share one cell and the returned map says which",
  "Tessellating a list with repeated or nearly repeated generators returns one entry per input point, naming its cell: coincident points always share a cell, points farther apart than a few tolerances never do, and every cell has at least one point. When the distinct points are recognised exactly, the mesh equals the mesh of the distinct points.",
  ["inputs"], "every generator list with exact or near duplicates, any order and tolerance, through each of the degenerate entry points", "no stable test uses the degenerate entry points with duplicates",
  ["src/TessellatorInline.hh", "src/polytope_geometric_utilities.hh"], [("uniquePoints / position hashing", "src/polytope_geometric_utilities.hh"), ("tessellateDegenerate", "src/TessellatorInline.hh")], (), ["returned map, cells"])
prop("P09", "The mesh depends on the geometry only: not on history, numbering or frame",
  "Repeating a tessellation, calling it through another entry point, with a tessellator used before or with a cleared mesh gives the identical mesh. Renumbering the generators renumbers the cells; describing the same boundary from another start or point order, scaling, shifting or mirroring input gives the same cells and neighbours up to lattice resolution.",
  ["inputs", "histories"], CASES + ", and every sequence of earlier uses of the same tessellator and mesh objects", "no test runs one input twice or transformed",
  TESS, [("quantization to the bounding box", "src/QuantizedTessellation2d.cc"), ("Tessellation::clear", "src/Tessellation.hh")], (), ["whole mesh"])

exec(open(os.path.join(H, "mkprops_more.py")).read()) if os.path.exists(os.path.join(H, "mkprops_more.py")) else None

import sys; sys.path.insert(0, H)
from props import PROPS, TECH, NOTE, NOT_APPLICABLE
open(os.path.join(H, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
na = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]
checks = [dict(property=p["id"], quick_cmd="python3 run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=TECH.get(p["id"], TECH["*"]), level="exploration", level_note=NOTE.get(p["id"], NOTE["*"]))
          for p in P if p["id"] in PROPS]
assert {p["id"] for p in P} == {c["property"] for c in checks} | set(NOT_APPLICABLE)
json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: everything is observed through the public API, the files it writes, and the sanitizers. run.py PROPERTY --replay FILE repeats one reported case."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
