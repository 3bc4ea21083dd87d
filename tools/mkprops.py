#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

MM = "src/mesh/Mesh.cc"; MH = "src/mesh/Mesh.hh"
MS = "src/mesh/mesh_simple/Mesh_simple.cc"
TI = "src/mesh/MeshTile.cc"; SE = "src/mesh/MeshSet.cc"
SV = "src/statemanager/JaliStateVector.h"; ST = "src/statemanager/JaliState.h"; SC = "src/statemanager/JaliState.cc"
GE = "src/geometry/"

p("M01", "A generated mesh is exactly the requested lattice",
  "For every box and cell counts per axis, the generated 3D mesh has exactly the lattice's nodes, rectangular faces and box cells: the right numbers of each, every node at its lattice coordinate, every face made of the four corners of one lattice rectangle, and every cell made of its eight lattice corners in the standard hexahedron order and its six lattice faces. For every increasing list of coordinates, the generated 1D mesh has one node per coordinate, in order, and one segment cell between consecutive nodes.",
  ["inputs", "configurations"], "All cell counts per axis, box extents, coordinate lists and combinations of requested entity kinds.",
  "The unit tests build a handful of fixed sizes and spot-check a few ids; an indexing error that shows only for unequal counts, one axis, or one layer passes them.",
  [MS, "src/mesh/mesh_simple/Mesh_simple.hh"],
  [("index arithmetic of nodes, xy/xz/yz faces and cells", MS + " node_index_, cell_index_, x?face_index_, update_internals_3d_"), ("1D constructor", MS + " update_internals_1d_")],
  observe=["cell/face/node counts, cell_get_nodes, cell_get_faces, face_get_nodes, node/face/cell coordinates"])
p("M02", "Adjacency queries all describe one incidence relation",
  "On every mesh, all downward queries (nodes, edges, faces of a cell; nodes and edges of a face; nodes of an edge), upward queries (cells and faces of a node, faces of a cell at a node, cells of a face) and lateral queries (face- and node-neighbours of a cell) are duplicate-free and agree with one and the same incidence relation: an upward query returns exactly the entities whose downward query contains its argument. A query restricted to locally owned or to ghost entities returns exactly the members of the unrestricted answer having that ownership; an interior face has exactly two cells, a boundary face one.",
  ["inputs", "configurations"], "All meshes (1D, 2D, 3D, any cell shapes, with ghost cells), all entities, all ownership filters.",
  "The tests check a few adjacencies of one small brick, in one direction; inverse consistency over every entity, shape and ownership filter is never checked.",
  [MM, MH, MS],
  [("cached connectivity tables", MM + " cache_cell2face_info, cache_face2cell_info, cache_face2edge_info, cache_cell2edge_info, cache_edge2node_info"), ("brick connectivity", MS + " update_internals_3d_, node_get_*, cell_get_*_adj_cells")],
  [("cell/face/edge tables", "cached adjacency lists", MH)],
  ["adjacency query methods of a mesh"])
p("M03", "Every entity belongs to exactly one ownership class",
  "For every entity kind, the lists of owned, ghost and boundary-ghost entities are disjoint and together are exactly the list of all entities, the counts asked for in any way equal the lengths of these lists, the global IDs of the entities of one kind differ, and the ownership reported for a single entity is the class whose list contains it. Sides, wedges and corners have the ownership of the cell they lie in, and kinds that were not requested have no entities.",
  ["inputs", "configurations"], "All meshes and assignments of cells, faces, edges and nodes to ownership classes; all requested-entity combinations.",
  "No test that runs here has a mesh with a ghost or boundary-ghost entity.",
  [MM, MH, "src/mesh/MeshDefs.hh"],
  [("type caching", MM + " cache_type_info, entity_get_type, num_entities"), ("derived lists", MM + " cache_side_info, cache_wedge_info, cache_corner_info")],
  [("entity id lists per class", "owned/ghost/boundary-ghost/all ids", MH)],
  ["num_entities, num_cells<>..., cells<>()..., entity_get_type"])
p("M04", "Cell, face and edge measures and outward normals are geometrically exact",
  "For every mesh whose cells, cut from the mean of their nodes and of their faces' nodes, fall into pieces that are all the right way round (every convex cell, and others too, also with nodes inside straight sides or, for hexahedra, with curved faces), each cell's volume and centroid, each face's area, centroid and area-weighted normal, and each edge's length, vector and centre equal those of the geometric shape spanned by its nodes (including spherical volumes and areas in 1D), so volumes add up to the domain's volume. The face normal asked for relative to a cell points out of that cell, equals plus or minus the face's natural normal according to the reported orientation and to the direction in which the cell uses the face, is opposite for the two cells of an interior face of a planar or solid mesh (in a surface mesh it lies in the plane of the cell), and a closed cell's outward normals sum to zero.",
  ["inputs", "configurations"], "All meshes (1D Cartesian and spherical, 2D polygons, 3D polyhedra) with non-degenerate cells (convex; not convex but star-shaped; with hanging nodes; hexahedra with curved faces), all entities, all orientations of faces and edges; cached and recomputed values alike.",
  "Geometry tests of general meshes never run here (no mesh framework); those that run only use axis-aligned unit boxes, which hide orientation and shape errors.",
  [MM, GE + "Geometry.cc"],
  [("geometry computation", MM + " compute_cell_geometry, compute_face_geometry, compute_edge_geometry"), ("oriented queries", MM + " face_normal, edge_vector")],
  observe=["cell_volume, cell_centroid, face_area, face_centroid, face_normal, edge_length, edge_vector, edge_centroid"])
p("M05", "Geometry after moving nodes equals that of a mesh built there",
  "After any sequence of node coordinate changes followed by a geometry update, every cached geometric quantity (cell, face, edge, side, wedge and corner volumes, areas, lengths, centroids, normals) equals that of a mesh freshly built with the current coordinates, however many earlier updates took place. Before the update the cached quantities are still those of the previous update, while explicitly recomputed ones follow the current coordinates. A move that turns part of a 2D or 3D cell inside out shows as a volume that is not positive, and moving back restores everything.",
  ["histories", "inputs"], "All sequences of node moves, cached queries, recomputing queries and updates.",
  "Tests compute geometry once; staleness appears only after a move-update-move history.",
  [MM, MH, MS],
  [("update of caches", MM + " update_geometric_quantities, compute_*_geometric_quantities"), ("recompute flag", MM + " cell_volume, side_volume, side_facet_normal, wedge_facet_normal")],
  [("geometry caches", "volumes, areas, centroids, normals", MH)],
  ["geometry queries with and without recompute"])
p("M06", "Point location puts every interior point in exactly its own cell",
  "For every 2D mesh, and every 3D mesh of convex cells, a point strictly inside a cell is reported inside that cell and a point strictly outside it is reported outside, whatever the shapes of its faces.",
  ["inputs"], "All polygons in 2D, convex or not, and all convex cells in 3D (triangular, quadrilateral and mixed faces) and all points not on a cell boundary.",
  "No running test locates a point in a cell with more than one kind of face, or a point near the cell but outside.",
  [MM, GE + "Geometry.cc"],
  [("dispatch", MM + " point_in_cell"), ("predicates", GE + "Geometry.cc point_in_polyhed, point_in_polygon")],
  observe=["point_in_cell"])
p("K01", "Sides cut every cell once per face-edge pair",
  "In 2D and 3D every cell has exactly one side per pair of one of its faces and one of that face's edges (in 1D one per end node), each side names that cell, face and edge and the two nodes of the edge, ordered and flagged consistently with the edge's own direction and with the cell lying on the prescribed side. The opposite of a side is the side of the neighbouring cell on the same face and edge, the opposite of the opposite is the side itself, and there is none exactly when the face has no other cell.",
  ["inputs", "configurations"], "All meshes of any shape, numbering, face orientation and ownership; all sides.",
  "All side tests fail to get a mesh in this build; even upstream they use one or two fixed meshes.",
  [MM, MH],
  [("construction", MM + " cache_side_info"), ("queries", MM + " cell_get_sides, side_get_*")],
  [("side tables", "cell, face, edge, nodes, opposite of each side", MH)],
  ["cell_get_sides, side_get_cell/face/edge/node/edge_use/wedge/opposite_side"])
p("K02", "Wedges halve sides and their neighbour relations are involutions",
  "Every side consists of exactly two wedges, one per end node of its edge, which share the side's cell, face and edge; each wedge belongs to exactly one side, one cell and one corner, all consistent. The adjacent wedge is the other half of the same side, the opposite wedge is the wedge of the opposite side at the same node or none exactly at a boundary face, and both relations are their own inverse; the wedges listed for a node or cell are exactly those touching it, filtered by ownership.",
  ["inputs", "configurations"], "All meshes and all wedges, cells and nodes, all ownership filters.",
  "All wedge tests fail to get a mesh in this build.",
  [MM, MH],
  [("construction", MM + " cache_wedge_info"), ("queries", MM + " wedge_get_*, cell_get_wedges, node_get_wedges")],
  observe=["wedge_get_cell/side/face/edge/node/corner/adjacent_wedge/opposite_wedge, cell_get_wedges, node_get_wedges, side_get_wedge"])
p("K03", "Corners pair every cell with each of its nodes exactly once",
  "For every cell and each of its nodes there is exactly one corner; looking it up by cell and node, listing the corners of the cell, listing the corners of the node (per ownership) and asking a corner for its cell and node all agree. The wedges of a corner are exactly the wedges of that cell at that node, so corners partition the wedges.",
  ["inputs", "configurations"], "All meshes, cells, nodes and ownership filters.",
  "All corner tests fail to get a mesh in this build.",
  [MM, MH],
  [("construction", MM + " cache_corner_info"), ("queries", MM + " cell_get_corners, cell_get_corner_at_node, node_get_corners, corner_get_*")],
  observe=["cell_get_corners, cell_get_corner_at_node, node_get_corners, corner_get_cell/node/wedges"])
p("K04", "Sides, wedges and corners tile their cell geometrically",
  "Every side, wedge and corner of a cell that is convex, or star-shaped round its centroid, has positive volume, a side's volume is the sum of its two wedges', a corner's the sum of its wedges', and those of a cell with plane faces add up to the cell's volume; the coordinates returned in positive-volume order give that volume, and the natural order is the documented one. The facet normal a side or wedge shows to the neighbouring cell points out of the cell and those of a face add up to the face's outward normal, the facet normal between the two wedges of a side is opposite for the two, and a corner's outward facets form a closed surface enclosing the corner's volume.",
  ["inputs", "configurations"], "All meshes of such cells in 1D, 2D and 3D; all sides, wedges, corners.",
  "All tests of side, wedge and corner geometry fail to get a mesh in this build; they use unit boxes only.",
  [MM],
  [("volumes and normals", MM + " compute_side_geometry, compute_corner_geometry, wedge_volume, wedge_facet_normal, side_facet_normal"), ("coordinates", MM + " side_get_coordinates, wedge_get_coordinates, corner_get_coordinates, corner_get_facetization")],
  observe=["side/wedge/corner volume, coordinates, facet normals, corner facetization"])
p("T01", "Tiles partition the owned cells",
  "With any requested number of tiles and any partitioner, the tiles' own cell lists are disjoint and together contain every owned cell of the mesh exactly once; there are exactly the requested number of tiles, numbered consecutively, and the tile recorded as a cell's master is the one listing it as owned. A tile the user makes from a list of cells gets the next number, is counted, and owns exactly those cells. Without tiles no entity has a master tile.",
  ["inputs", "configurations", "histories"], "All meshes, numbers of tiles, partitioners, halo depths, and sequences of tiles made by the user.",
  "All tile tests fail to get a mesh in this build; upstream they use two meshes and fixed tile counts.",
  [TI, MM],
  [("tile construction", MM + " build_tiles; " + TI + " MeshTile ctor, make_meshtile")],
  [("master tile of cells", "tile that owns each cell", MH)],
  ["tiles(), cells<>() of a tile, master_tile_ID_of_cell, num_tiles, ID"])
p("T02", "A tile's halo is exactly its node-connected surroundings",
  "The ghost cells of a tile with halo depth n, made by the mesh or by the user, are exactly the mesh's cells that are not the tile's own and can be reached from an own cell in at most n steps across shared nodes; all cells are the own ones followed by the ghosts, without repetition, and depth 0 gives no ghosts.",
  ["inputs", "configurations"], "All meshes, partitions and halo depths.",
  "All tile tests fail to get a mesh in this build; they only use depth one on bricks.",
  [TI], [("layer by layer growth", TI + " get_ghost layers in MeshTile ctor")],
  observe=["cells<PARALLEL_GHOST>() and cells<ALL>() of a tile"])
p("T03", "Tile entities: complete, owned once, and counted consistently",
  "A tile's nodes, edges, faces, sides, wedges and corners are exactly those of its cells (when that kind was requested), each listed once and classified as either owned or ghost. Every node, edge and face of a cell owned by a tile listing that kind is owned by exactly one tile, the one recorded as its master, in whatever order and with whatever requests tiles are made; sides, wedges and corners are owned by the tile owning their cell, and all counts equal the lengths of the lists.",
  ["inputs", "configurations"], "All meshes, partitions, halo depths and requested entity kinds.",
  "All tile tests fail to get a mesh in this build.",
  [TI, "src/mesh/MeshTile.hh", MH],
  [("entity lists and masters", TI + " MeshTile ctor: get_nodes_of_tile, get_faces_of_tile, get_sides_of_tile, get_wedges_of_tile, get_corners_of_tile")],
  [("master tile ids", "owner tile of node, edge, face, cell", MH)],
  ["nodes<>(), edges<>(), faces<>(), sides<>(), wedges<>(), corners<>(), num_*, master_tile_ID_of_*"])
p("T04", "A set seen through a tile is the set restricted to the tile",
  "Asking a tile for the entities of a named mesh set returns exactly the members of the mesh's set of that kind that are entities of that class in the tile, without repetition; the answers of all tiles over owned entities partition the owned part of the set.",
  ["inputs", "configurations"], "All meshes, partitions, sets, kinds and ownership filters.",
  "No running test combines a tile and a set.",
  [TI], [("filtering", TI + " get_set_entities")],
  observe=["MeshTile::get_set_entities"])
p("P01", "Partitioners return the requested number of disjoint covering parts",
  "Every partitioner splits the owned cells into exactly the requested number of parts that are disjoint and cover all of them; the block partitioner returns non-empty axis-aligned blocks covering the grid exactly, and the index partitioner returns consecutive index ranges.",
  ["inputs"], "All grid sizes, dimensions and part counts not exceeding the number of cells.",
  "The tests use a few sizes and counts; uneven counts and prime factors follow other paths.",
  ["src/mesh/block_partition.cc", MM],
  [("blocks", "src/mesh/block_partition.cc block_partition_regular_mesh"), ("dispatch", MM + " get_partitioning*")],
  observe=["block_partition_regular_mesh, tiles of a mesh"])
p("S01", "Set algebra on mesh sets is set theory",
  "The union, intersection, difference and complement of mesh sets of one kind contain exactly the entities set theory gives, split into owned and ghost by the entities' own class, without repetition, for any number and order of operands including empty and repeated ones. The operands are unchanged, a permanent result can afterwards be found in the mesh under its new name and a temporary one is not, and the index of an entity in the result is its position or none.",
  ["inputs", "histories"], "All collections of sets over any mesh with ghosts, all operations and orders.",
  "All set tests fail to get a mesh in this build; upstream they use serial sets on one file.",
  [SE, "src/mesh/MeshSet.hh"],
  [("operations", SE + " merge, subtract, intersect, complement")],
  observe=["entities<>(), num_entities, index_in_set, find_meshset"])
p("S02", "A mesh set stays consistent through any history of changes",
  "After any history of adding entities not yet in it, singly or in lists, removing any entities and clearing, a mesh set contains exactly the entities added and not removed since, each once, listed as owned or ghost according to the entity's own class, with all entities being the owned ones followed by the ghosts. The position reported for an entity is where it stands in the list of all entities, and none for an entity not in the set.",
  ["histories"], "All sequences of add, add-list, remove, remove-list and clear, with any mix of owned and ghost entities; removals also name non-members.",
  "No running test changes a set.",
  [SE], [("mutators", SE + " add_entity, rem_entity, add_entities, rem_entities, clear")],
  [("entity lists and reverse map", "owned, ghost, all and position of each entity", "src/mesh/MeshSet.hh")],
  ["entities<>(), num_entities, index_in_set"])
p("S03", "A set built on a region holds exactly the entities in the region",
  "For a box, plane, point, labelled or logical region, the set of cells, faces or nodes named after it holds exactly the entities the region contains (cells by centroid or by containing the point, faces by centroid or by lying in the plane or low-dimensional box, nodes by coordinate, labels by name, logical ones by the union, intersection, difference or complement of their components), split by ownership. The answer is the same whenever and however it is asked, for counts and lists alike; an unknown name or an unsuited kind gives no set and never a wrong one.",
  ["inputs", "histories", "configurations"], "All geometric models, regions, entity kinds, ownership filters and query orders.",
  "All set tests fail to get a mesh in this build; upstream they use one mesh file.",
  [MM, SE], [("construction", MM + " build_set_from_region, init_sets_from_geometric_model, find_meshset, get_set_entities, get_set_size, valid_region_name")],
  [("registry of sets", "sets known to the mesh", MH)],
  ["get_set_entities, get_set_size, find_meshset, num_sets, sets"])
p("R01", "Regions contain the right points and models find the right regions",
  "A box region contains exactly the points between its two corners, whichever corner is given first, a plane region exactly the points on the plane, a point region exactly its point, a polygon region exactly the points of its plane or line inside it, all up to rounding; a box, plane or point region rejects a point of another dimension with an error, and a copy of a region behaves as the original. A geometric model or domain returns the regions it was given in order, finds the first with a given name or identifier or none, and accepts exactly the dimensions it supports.",
  ["inputs", "histories"], "All regions, points, copies and sequences of additions to models and domains.",
  "No running test exercises regions or models.",
  [GE + "BoxRegion.cc", GE + "PlaneRegion.cc", GE + "PointRegion.cc", GE + "LogicalRegion.cc", GE + "LabeledSetRegion.cc", GE + "GeometricModel.cc", GE + "Domain.cc", GE + "Region.cc"],
  [("containment", GE + "*Region.cc inside"), ("registry", GE + "GeometricModel.cc, Domain.cc")],
  observe=["inside, FindRegion, Region_i, Num_Regions, Domain accessors"])
p("G01", "Vector, segment, polygon and polyhedron primitives are exact",
  "Point arithmetic follows the laws of 1D, 2D and 3D vector algebra (sum, difference, scaling, dot and cross product, norm) without changing its operands. For every convex polygon (in the plane or in space) and convex polyhedron the area or volume, centroid and normal are those of the shape whatever node it starts from, likewise for other polygons round the mean of their points and solids with curved four-sided faces; a 2D polygon or a polyhedron that is inverted, wholly or in part, is reported with non-positive measure, and the inside test of any polygon and convex polyhedron accepts interior points and rejects exterior ones.",
  ["inputs"], "All integer points, polygons of 3 or more nodes in any rotation (convex, star-shaped, crossing themselves), polyhedra with any mix of face sizes (convex, with curved faces, dented or turned inside out).",
  "Tests sample a few shapes; mixtures of face sizes, rotations and orientations are not covered.",
  [GE + "Geometry.cc", GE + "Point.hh"],
  [("primitives", GE + "Geometry.cc"), ("algebra", GE + "Point.hh")],
  observe=["Point operators, polygon_get_area_centroid_normal, polyhed_get_vol_centroid, point_in_*, segment_get_vol_centroid, face1d_get_area"])
p("V01", "The state registry finds each vector once, by its full identity",
  "Through any history of additions, vectors keep their order of addition, an addition whose name, data type, value multiplicity, domain, entity kind and class match an existing one is ignored and yields the existing vector, and any other is stored. Each lookup returns the first stored vector satisfying every criterion given (a wildcard kind or class matching all) or reports none, and iterating over one entity kind visits exactly the vectors, and names, of that kind in order.",
  ["histories"], "All sequences of additions through every overload and all lookups, over mesh and tile domains.",
  "All state tests fail to get a mesh in this build.",
  [ST, SC], [("registry", ST + " add, find, get, entity_begin/entity_end, names_*")],
  [("stored vectors, names and per-kind indices", "the registry", ST)],
  ["State::add, find, get, begin/end, names_begin, entity_begin, names_entity_begin, size"])
p("V02", "State vectors size, copy and share data as documented",
  "A vector defined on a mesh or tile has one value per entity of its kind and class there, holding the given data or value; copy construction and adding a copy to the state make independent data with the same description, while assignment and retrieval from the state share the data, so a write through one is seen through all that share it and no other. Resizing and clearing act on the shared data and keep earlier values.",
  ["histories"], "All histories of construction, copying, assignment, retrieval, writes, resize and clear.",
  "All state vector tests fail to get a mesh in this build.",
  [SV, ST], [("copy and assignment", SV + " UniStateVector copy constructor, operator=, get")],
  observe=["operator[], size, begin/end, get_raw_data, name, entity_kind, entity_type, domain"])
p("V03", "Materials and cells stay two views of one relation",
  "Through any history of adding materials, adding cells to them and removing materials, the cells listed for a material and the materials listed for a cell are inverse to each other, material numbers run from zero without gaps in order of addition, and names, counts, lookup by name and the position of a cell in a material agree with them. Adding a material under a used name changes nothing.",
  ["histories"], "All histories of add material, add cells, remove material by number or name.",
  "The material tests fail to get a mesh in this build, and never remove any but the last material.",
  [SC, ST], [("material bookkeeping", SC + " add_material, rem_material, add_cells_to_material")],
  [("material sets and per-cell lists", "the relation", ST)],
  ["num_materials, material_cells, cell_materials, material_index_by_name, cell_index_in_material"])
p("V04", "Multi-material vectors follow the materials and index by cell",
  "A multi-material vector always has one array per material with one value per cell of that material, also after materials or cells are added or removed, keeping the values of the untouched (material, cell) pairs. Reading or writing by cell and material in either layout addresses the same value, initial data in either layout lands at its (material, cell) pair, and a pair whose cell lacks the material reads as zero and refuses to be written.",
  ["histories", "inputs"], "All histories of material changes interleaved with vector creation, reads and writes in both layouts.",
  "The multi-material tests fail to get a mesh in this build.",
  [SV, SC], [("indexing and resizing", SV + " MultiStateVector; " + SC + " add_material, rem_material, add_cells_to_material")],
  observe=["MultiStateVector operator(), size(m), get_matdata"])
p("V05", "Fields survive export to and import from the mesh",
  "Importing creates one vector per field the mesh offers on nodes, faces and cells, with the field's name, kind, type and values; exporting hands the mesh every single-valued vector of a supported type under its name and kind with its values and nothing else, so importing what was exported reproduces it.",
  ["inputs", "histories"], "All collections of fields of all supported types, on all kinds, in 2D and 3D.",
  "No mesh of this build has fields, so no running test reaches the code.",
  [SC], [("import/export", SC + " init_from_mesh, export_to_mesh")],
  observe=["State::init_from_mesh, export_to_mesh through a mesh recording the calls"])
p("V06", "What is printed names and lists what is stored",
  "Printing a vector with one value per entity gives its name, its entity kind, the number of its values and all of them in order, whatever additions, copies, assignments, writes and changes of size went before; printing a state gives the same of each such vector in order of addition and nothing of vectors it does not hold. The printed name of every entity kind, entity class, cell type and partitioner is that of its enumerator, and a value that is none of them has no name.",
  ["histories", "inputs"], "All histories of a state and all values of the enumerations.",
  "The state tests fail to get a mesh in this build, and none looks at what is printed.",
  ["src/statemanager/JaliStateVector.h", SC, "src/mesh/MeshDefs.hh"], [("printing", "src/statemanager/JaliStateVector.h UniStateVector::print; " + SC + " operator<<"), ("names of enumerators", "src/mesh/MeshDefs.hh *_string, operator<<")],
  observe=["operator<< of UniStateVector, State, Entity_kind, Entity_type, Cell_type, Partitioner_type"])
p("F01", "Mesh factory options behave as independent settings with a reset",
  "Through any history of setting options, each option reads back the value last set, setting one never changes another, the list of included entities reflects the inclusions and exclusions made so far, an unavailable framework is refused without changing the choice, and a reset restores every option to its initial value.",
  ["histories"], "All sequences of option changes, inclusions, exclusions and resets.",
  "The tests set a few options once and never observe them after a reset.",
  ["src/mesh/mesh_factory/MeshFactory.hh", "src/mesh/mesh_factory/MeshFactory.cc"],
  [("options", "src/mesh/mesh_factory/MeshFactory.hh setters; MeshFactory.cc reset_options")],
  observe=["MeshFactory getters"])
p("F02", "The factory returns the mesh asked for, or an error, never nothing",
  "For every creation request the factory either returns a mesh of the requested extent, cell counts, requested entity kinds, tiles, geometry type and geometric model, or raises an error; it never returns no mesh silently. It raises an error for every invalid request (non-positive cell counts, inverted extents, too few coordinates, mismatching model dimension) and for everything the chosen framework says it cannot do.",
  ["inputs", "histories", "configurations"], "All option settings and creation requests in 1D, 2D, 3D, from files and from meshes.",
  "The tests try a few requests; which combination silently yields no mesh is not covered.",
  ["src/mesh/mesh_factory/MeshFactory.cc", MS],
  [("creation", "src/mesh/mesh_factory/MeshFactory.cc create overloads"), ("capability queries", "framework_available, framework_generates, framework_reads, framework_extracts")],
  observe=["MeshFactory::operator(), properties of the returned mesh"])
p("E01", "Errors are delivered as configured, with their full message",
  "The error behaviour last selected is the one in force everywhere in the program: in raise mode every reported error reaches the caller as an exception of its own type with its message, in abort mode it ends the process. A message consists of exactly the pieces given to it, in order, with numbers in decimal, through any sequence of additions and copies.",
  ["histories", "inputs"], "All sequences of behaviour changes, message constructions and reports from any part of the library.",
  "The tests query the setting from one file only and never report an error from the library in abort mode.",
  ["src/error_handling/exceptions.hh", "src/error_handling/exceptions.cc", "src/error_handling/errors.cc"],
  [("policy", "src/error_handling/exceptions.hh Jali_throw, set_exception_behavior"), ("message", "src/error_handling/errors.cc operator<<")],
  observe=["exception caught or process aborted; what()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
