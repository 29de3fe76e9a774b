NOTE = ("Design model checked exhaustively over small drawings by TLC; every recorded call of the real library is "
        "checked by TLC as a step of the specification, over generated histories with integer coordinates. Trusts TLC, "
        "and the projection of the state in vt/drivers/polydrv.py.")
INS = ("decomp operations", "decomp.py: new_segment, _new_wire, _wire_add_dendrite, _join_wires, _split_poly")
DEL = ("removal operations", "decomp.py: delete_segment, _rm_wire, _wire_rm_dendrite, _split_wire, _join_poly")
WHYH = ("The tests build about a dozen fixed drawings and compare a few counts; the guarantee is over every history of "
        "insertions, deletions, snaps and moves, where the outcome depends on the order and on which wires already exist.")

prop("P01", "Boundary links of a polygon decomposition match the drawing",
     "After any history of edits, walking from a segment side to the next one follows the boundary of the face on that "
     "side as determined by the coordinates alone. Each closed boundary is exactly one wire, every point knows exactly "
     "the segments that end in it, and segment vectors and ids agree with the end points.",
     ["histories", "inputs"], "all histories of point/segment/line insertions, deletions, splits, joins and moves",
     WHYH, POLY, [INS, DEL, ("link maintenance", "segment.py: connect_vtx, disconnect_vtx; point.py: insert_segment")],
     NOTE, ["PolygonDecomposition.segments / points / decomp.wires after every call"])
prop("P02", "Polygons are exactly the faces of the drawing",
     "After any history of edits there is exactly one polygon for every bounded face of the drawing plus the outer one, "
     "each bounded by the right outer boundary with the right vertices and free points. A polygon keeps its identity "
     "unless the operation really split, joined, added or removed it.",
     ["histories", "inputs"], "all histories of edits of planar drawings", WHYH, POLY,
     [INS, DEL], NOTE, ["PolygonDecomposition.polygons after every call"])
prop("P03", "Nesting of polygons and holes is geometric containment",
     "After any history of edits, holes hang under the polygon that really contains them at every nesting level, "
     "free points belong to the polygon that contains them, and depth and the set of child polygons agree with that.",
     ["histories", "inputs"], "all histories of edits, including cutting off and enclosing nested components",
     "Nesting depends on the containment relation of several components; tests cover two or three fixed nestings.",
     POLY, [INS, DEL, ("containment", "polygon.py: Wire.contains_wire, contains_point, child_wires"),
            ("queries", "polygons.py: get_childs; polygon.py: depth, child_polygons")], NOTE,
     ["Wire.parent/childs, Polygon.free_points, depth(), get_childs() after every call"])
prop("P04", "The reported polygon change is what happened",
     "After an elementary insertion or deletion of a segment the reported change (none, shape, add, remove, split, join) "
     "names the kind of change and exactly the polygons that changed, appeared or disappeared.",
     ["histories"], "all elementary segment insertions and deletions in any reachable drawing",
     "Tests look at the report of a handful of calls in one drawing.", POLY,
     [("report", "decomp.py: last_polygon_change; polygons.py: get_last_polygon_changes")], NOTE,
     ["get_last_polygon_changes() after every call"])
prop("P05", "Inserted segments and lines cover exactly what was asked",
     "Inserting a segment or a line leaves the drawing planar; the returned pieces form a chain between the (snapped) end "
     "points, split at every crossing, vertex and free point on the way. Everything drawn before stays drawn, existing "
     "segments being only subdivided at the new points, and close crossings are merged within the tolerance.",
     ["histories", "inputs"], "all lines and segments inserted into any reachable drawing, with any tolerance",
     "Tests insert a few lines that meet in general position; collinear, vertex, free point and near crossings are absent.",
     POLY, [("line insertion", "polygons.py: add_line, add_line_for_points, _add_line_seg_intersections, "
             "_add_line_new_segments, merge_points"), ("intersection", "polygons.py: seg_intersection")], NOTE,
     ["result of add_line/new_segment and the drawing after the call"])
prop("P06", "A new point snaps to the nearest object within tolerance",
     "Adding a point within the tolerance of an existing point returns that point, within the tolerance of a segment it "
     "splits that segment at the projection (or returns its end point), and otherwise it becomes a free point of the "
     "polygon that contains it. Nothing else in the drawing changes.",
     ["histories", "inputs"], "all positions and tolerances in any reachable drawing, no ties",
     "Tests try a few points around one square.", POLY,
     [("snapping", "polygons.py: _snap_point, _point_on_segment, add_point"), ("lookup", "aabb_lookup.py")], NOTE,
     ["add_point result and drawing"])
prop("P07", "Deleting removes just the deleted objects",
     "Deleting a segment removes that segment only and keeps its end points; deleting a point removes it together with "
     "exactly the segments that end in it. All other points and segments keep identity, position and links.",
     ["histories"], "all deletions in any reachable drawing", WHYH, POLY, [DEL,
     ("deletion", "polygons.py: delete_point, delete_segment, _rm_point, _rm_segment")], NOTE, ["drawing after the call"])
prop("P08", "Undo and redo of drawing edits return to the same decomposition",
     "With undo enabled, undoing a drawing edit restores the drawing, its polygons, nesting and attributes as they were "
     "before the edit, and redoing restores what was after it, for every walk back and forth through the history.",
     ["histories"], "all histories of edits mixed with undo and redo, single or grouped",
     "Tests undo one edit at a time and compare only positions and keys.", POLY + ["src/bgem/undo.py"],
     [("undoable edits", "polygons.py: _add_point, _rm_point, _add_segment, _rm_segment, _split_segment"),
      ("history", "undo.py: Stack")], NOTE, ["whole projected state after every undo/redo"])
prop("P09", "Attributes stay with the object they were given to",
     "Attributes of points, segments and polygons survive every edit that keeps the object; the pieces of a split segment "
     "inherit its attribute and the parts of a split polygon inherit the attribute of the split one. New objects "
     "start without attribute.",
     ["histories"], "all histories of attribute changes mixed with edits", "Attributes are hardly tested at all.",
     POLY, [("attributes", "polygons.py: set_attr; decomp.py: split_segment, _split_poly, _make_segment")], NOTE,
     ["attr of every object after every call"])
prop("P10", "A permitted move keeps topology; the move check refuses the others",
     "When the displacement check permits moving a set of points and the moved drawing is planar, moving them changes "
     "positions only, and later snapping and insertion work at the new positions. The check never permits a displacement "
     "during which a moving part sweeps across an object that stays.",
     ["histories", "inputs"], "all blocks of points and displacements in any reachable drawing",
     "Tests move one point of one fixed drawing.", POLY,
     [("move", "polygons.py: move_points, check_displacment"), ("vectors", "point.py: move; segment.py: update_vector")],
     NOTE, ["check_displacment result; drawing after move_points and after later edits"])

UN = ("UndoDesign.tla explored exhaustively to a bounded number of calls; all its transitions and long random histories are "
      "replayed on the real stack and validated by TLC. Trusts TLC and the driver's small document.")
prop("U01", "Undo and redo walk a linear history of the document",
     "For any sequence of undoable actions, undos and redos the document equals the state at the current position of a "
     "linear history; a new action discards what could be redone. A failing action is not recorded, a failing undo or "
     "redo clears the history, and actions run inside undo or redo, or while recording is disabled, are not recorded.",
     ["histories", "fault_sequences"], "all sequences of actions (also failing ones), undo, redo, clear, enabling",
     "The undo stack has no tests of its own; drawing tests undo one or two actions.", ["src/bgem/undo.py"],
     [("history", "undo.py: Stack.undo, redo, append, _pausereceiver, clear"), ("actions", "undo.py: _Action, undoable")],
     UN, ["document and canundo/canredo/undocount after every call"])
prop("U02", "A group of undoable actions is one history entry",
     "Actions done inside a group are undone and redone together, in the right order, by one undo or redo; groups nest; "
     "and a group left by an exception still allows undoing what was done in it, with later actions recorded as usual.",
     ["histories", "fault_sequences"], "all nestings of groups, with exceptions at any point",
     "No test uses groups.", ["src/bgem/undo.py"], [("groups", "undo.py: _Group, group")], UN,
     ["document and history counts after every call"])
prop("U03", "The undo stack reports its history truthfully",
     "The reported counts, texts and callbacks agree with the history, and the document is reported unchanged since "
     "the save point exactly when the history stands at the entry at which it was saved.",
     ["histories"], "all sequences of calls with save points", "No test asks for counts, texts or save points.",
     ["src/bgem/undo.py"], [("reports", "undo.py: undocount, redocount, undotext, redotext, savepoint, haschanged, "
                             "docallback, undocallback")], UN, ["all queries of the stack after every call"])

prop("P11", "Box lookup never misses a candidate",
     "After any sequence of adding, replacing and removing boxes, the candidates for the closest object include every "
     "live object that could be the closest one, the candidates for a box are exactly the live objects whose box meets "
     "it, and removed objects are never returned.",
     ["histories", "inputs"], "all sequences of additions and removals (also beyond the initial table size) and all queries",
     "Tests query one table of random boxes for one point, never after a removal.",
     ["src/bgem/polygons/aabb_lookup.py"],
     [("table", "aabb_lookup.py: AABB_Lookup.add_object, rm_object, closest_candidates, intersect_candidates; make_aabb")],
     "LookupDesign.tla explored exhaustively (3 or 4 ids, 4 boxes), every transition replayed and queried on a grid; random "
     "histories with integer boxes; every answer is judged by LookupTrace.tla. Trusts TLC.",
     ["result of every query"])
prop("P12", "Object ids are unique and reused only after removal",
     "For every sequence of appending and removing objects, a new object gets an id that no live object has, ids stay "
     "within the largest number of objects alive at once, and the map contains exactly the live objects under their ids.",
     ["histories"], "all sequences of appending and removing objects", "The id map has no tests of its own.",
     ["src/bgem/polygons/idmap.py"], [("ids", "idmap.py: IdMap.append, remove, get_new_id")],
     "LookupDesign.tla explored exhaustively up to 4 (6) live objects, every transition replayed, and random histories; "
     "judged by LookupTrace.tla. Trusts TLC.", ["id of every appended object, content of the map"])
prop("P13", "An overlay of drawings is their common refinement with right maps",
     "Overlaying drawings gives a drawing that covers exactly the union of their segments and contains all their points, "
     "and for each input the maps send every point, segment and polygon of the result to the object of that input it "
     "lies on, also for touching, overlapping, nested and empty drawings. The inputs are not changed.",
     ["inputs"], "all lists of planar drawings", "Tests overlay two squares with diagonals and random lines without "
     "looking at the maps.", ["src/bgem/polygons/merge.py", "src/bgem/polygons/polygons.py"],
     [("overlay", "merge.py: intersect_decompositions, intersect_single")],
     "The overlay of random drawings on a lattice (in general position and touching) is judged by MergeTrace.tla, which "
     "computes faces and preimages from the coordinates. Trusts TLC and the projection of states.",
     ["resulting decomposition and maps"])

MSHNOTE = ("MshDesign.tla enumerates all small meshes and checks that reading inverts writing; each is written and read by "
           "the real code; random meshes and files in foreign style are judged by the reader of MshFormat.tla. Trusts TLC "
           "and the tokenizer of vt/drivers/mshdrv.py. Binary files are not covered.")
prop("G01", "Mesh files keep the mesh: reading returns exactly what was written",
     "Writing a mesh with GmshIO and reading it back gives the same node coordinates, the same elements with type, tags "
     "and nodes, and the same physical names, ids and dimensions, and the written sections announce the number of their entries. "
     "Reading any valid ASCII mesh file of version 1 or 2 gives exactly the nodes, elements and names in it.",
     ["inputs"], "all meshes and all valid ASCII mesh files of version 1 and 2",
     "Tests read and write a few fixed meshes and do not compare the data.", ["src/bgem/gmsh/gmsh_io.py"],
     [("mesh file", "gmsh_io.py: GmshIO.read, write_ascii")], MSHNOTE, ["nodes, elements, physical after read; file text"])
prop("G02", "Element fields of mesh files keep every value at its element",
     "Fields written by write_fields are read back with every value of every component at the element it was given for, "
     "whatever the number of fields, components and elements. Several fields and time steps in one file are kept apart, "
     "and a data block with missing rows, with rows of a wrong length, or repeating a time step of the same field is refused.",
     ["inputs"], "all sets of fields over all element id lists", "Element data are not tested.",
     ["src/bgem/gmsh/gmsh_io.py"],
     [("element data", "gmsh_io.py: write_fields, write_element_data, read_element_data_block, read_element_data_head")],
     MSHNOTE, ["element_data after read; file text"])

HM = ["src/bgem/gmsh/heal_mesh.py"]
prop("G03", "Mesh modifications keep elements, nodes and adjacency consistent",
     "For any sequence of adding, removing, moving and merging of nodes and elements, the node-to-element map is exactly "
     "the incidence of the mesh and new ids are never reused. Each operation changes just what it says: a duplicate "
     "element is refused, and merging two nodes puts the kept one in the middle, removes the elements having both and "
     "replaces the removed node in the others, keeping type, tags and node order. Every changed element is reported as modified.",
     ["histories"], "all sequences of mesh modifications", "Tests call two internal healing steps on one tetrahedron.", HM,
     [("modification", "heal_mesh.py: HealMesh.add_element, remove_element, add_node, remove_node, move_node, merge_node"),
      ("adjacency", "heal_mesh.py: make_node_to_el, common_elements, is_duplicate_el")],
     "HealDesign.tla explored exhaustively to 2 (3) calls, transitions replayed; random histories of 50 calls with exact "
     "integer coordinates; every call judged by HealTrace.tla. Trusts TLC.",
     ["mesh.nodes, mesh.elements, node_els, modified_elements after every call"])
prop("G04", "A healed mesh is valid, free of bad elements, and good meshes stay as they are",
     "When healing ends without giving up, no element repeats a node, duplicates another, has nodes closer than the "
     "tolerance (relative to the mesh size) or a quality below the tolerance. Every element refers to existing nodes and "
     "has type and tags of an original one, unchanged elements keep their ids, a mesh without defects is left as it was, "
     "the written mesh equals the healed one, and the quality statistics count every triangle and tetrahedron once and "
     "list exactly the bad ones.",
     ["inputs"], "all meshes of simplices with coincident nodes, flat or duplicate elements",
     "Tests run healing on three meshes and look at nothing.", HM + ["src/bgem/gmsh/gmsh_io.py"],
     [("healing", "heal_mesh.py: HealMesh.heal_mesh and the _check_*, _heal_* steps; quality_statistics; write"),
      ("shapes", "heal_mesh.py: Tetrahedron, Triangle, Line")],
     "Random blocks of tetrahedra and triangles spoiled in many ways are healed by the real code; the outcome is judged by "
     "HealTrace.tla. Healing that ends by one of the documented 'degen side' assertions is taken as giving up. Trusts TLC and "
     "the independent quality computation in vt/drivers/healdrv.py.",
     ["mesh before and after heal_mesh; file; quality_statistics"])

GM = ["src/bgem/gmsh/gmsh.py"]
SOLNOTE = ("SolidDesign.tla (bodies on a line) explored exhaustively to 2 (3) operations and replayed; random histories of up "
           "to 16 operations on boxes, sheets, polygons and fractures with integer corners, every step judged by "
           "SolidTrace.tla as a step of the set model in Solids.tla. Trusts TLC and that gmsh/OpenCASCADE report volumes, "
           "boxes and boundaries of their entities correctly.")
prop("G05", "Operations on sets of shapes cover the right part of space and keep the regions",
     "Every operation of the geometry factory and of sets of shapes gives shapes covering exactly the points of the set "
     "operation, and every piece has the dimension and region of the body it came from. Pieces of a fragmentation cover "
     "every body exactly once, conforming across the given sets. Constructors, copies and transformations give the "
     "stated shape and leave other sets alone; boundaries, masses, centres and selections are those of the covered "
     "points, and failures of the kernel are raised as BoolOperationError or GetBoundaryError with the sets unchanged.",
     ["histories", "inputs"], "all histories of constructions, transformations, boolean operations and region changes",
     "Tests build some fixed geometries; few compare the results, none follows regions through a sequence of operations.",
     GM, [("sets of shapes", "gmsh.py: ObjectSet, copy, translate, rotate, scale, cut, intersect, fragment, split_by_*, "
                             "select_by_intersect, get_boundary, get_boundary_per_region, mass, center_of_mass"),
          ("factory", "gmsh.py: GeometryOCC.box, rectangle, make_polygon, make_rectangle, make_fractures, group, fragment"),
          ("regions", "gmsh.py: Region, set_region, modify_regions, set_region_from_dimtag")],
     SOLNOTE, ["dim_tags and regions of all live ObjectSets; entities of the gmsh model after every call"])
prop("G06", "The mesh covers exactly the given shapes, each element in the group of its region",
     "make_mesh gives a mesh in which every region of the given shapes is exactly one physical group of its dimension, "
     "filled exactly by the elements covering the bodies of that region. Group names are unique; only names shared by "
     "several regions are changed, by a suffix. With elimination no entity outside the closure of the given shapes stays "
     "in the model, keep_only does just that, and a mesh step set on shapes holds for all their vertices.",
     ["histories", "inputs"], "all sets of shapes made by any history of operations, all assignments of regions",
     "Tests write meshes of a few geometries without looking at groups or coverage.", GM,
     [("mesh", "gmsh.py: make_mesh, _assign_physical_groups, keep_only, remove_duplicate_entities, write_mesh, set_mesh_step"),
      ("names", "gmsh.py: Region.set_unique_name, _assign_physical_groups")],
     SOLNOTE, ["the written mesh file; entities of the model; sizes of vertices"])
prop("G07", "Mesh size fields and options have the documented effect",
     "The mesh size asked by the mesher at any point is the value of the field last set as background: distances to nodes and "
     "curves, thresholds interpolating between both given bounds, minima and maxima, values inside and outside of boxes, "
     "constants, and restrictions that apply exactly on the given shapes (and their boundary if asked) and nowhere else. "
     "Every constructor gives a new field and leaves the others as they are. Assigning an option changes exactly that "
     "gmsh option, and unknown names or values of a wrong type are refused without effect.",
     ["inputs", "histories"], "all expressions of fields over all shapes, all sequences of option assignments",
     "No test uses the fields; options are set in a few tests and never read back.",
     ["src/bgem/gmsh/field.py", "src/bgem/gmsh/options.py"],
     [("fields", "field.py: distance_nodes, distance_edges, threshold, min, max, box, constant, restrict, set_mesh_step_field"),
      ("options", "options.py: OptionsBase.instance_setattr, Mesh, Geometry")],
     "FieldDesign.tla explored to 3 (4) fields and replayed; random histories; each sampled size is judged by FieldTrace.tla "
     "with interval bounds. Threshold without upper bound is not covered (its documentation contradicts itself). Trusts TLC "
     "and gmsh.", ["sizes passed to the gmsh size callback during meshing; gmsh options"])
prop("G08", "Shapes of the factory, their affine maps and exported files are exact",
     "Every simplex, box, rectangle, polygon and cylinder made with any parameters has the dimension, vertices, parts, measure and "
     "centre of mass its parameters say. Translations, rotations about any axis and centre, and scalings map exactly "
     "the shapes of the set and no others; copies are independent and groups share their shapes. Mass and centre of mass of a set are those of its shapes. "
     "A written BREP file contains every shape of the model and nothing else, removing duplicates merges coincident parts of touching shapes, "
     "and a mesh is written in the format and under the name asked for, with all its nodes and elements.",
     ["inputs", "histories"], "all shapes with all parameters under all sequences of affine maps, copies and groups",
     "Tests build a handful of shapes and look at no coordinates; the errors depend on the axis, centre, signs and on what was synchronized.",
     ["src/bgem/gmsh/gmsh.py"],
     [("factory", "gmsh.py: GeometryOCC.make_simplex, rectangle, box, cylinder, make_polygon, make_rectangle"),
      ("maps", "gmsh.py: ObjectSet.translate, rotate, scale, copy, mass, center_of_mass, have_common_dim"),
      ("files", "gmsh.py: GeometryOCC.write_brep, write_mesh, remove_duplicate_entities, keep_only")],
     "AffineDesign.tla: all shapes under 2 (3) operations in exact rational arithmetic, all replayed; random histories; AffineTrace.tla "
     "recomputes vertices, measures and centres of every body. Cylinders are not scaled (the kernel approximates them). Trusts TLC and "
     "the kernel.", ["mass, centre, boundary, coordinates of the entities reported by gmsh; files read back"])
prop("G09", "Quality measures and statistics of mesh elements are those of their geometry",
     "For every line, triangle and tetrahedron, lengths, areas, signed volume, face normals, the ratio of the shortest and longest edge, the least altitude "
     "relative to the longest edge, the radius ratio (gmsh gamma), the gradient error measure, the distance and common normal of opposite edges are their "
     "defined values: independent of the numbering of nodes, the position, the size of the element and the order of questions, zero for degenerate and one for regular "
     "elements (for both quality measures). The quality statistics and their file have, per measure, every triangle and tetrahedron once in its bin and list exactly the elements "
     "with quality at most the tolerance, degenerate ones included.",
     ["inputs"], "all simplices of a lattice in all orders of nodes, scales and positions; all meshes of them",
     "Tests evaluate the common normal of one tetrahedron.",
     ["src/bgem/gmsh/heal_mesh.py"],
     [("measures", "heal_mesh.py: ShapeBase, Tetrahedron, Triangle, Line: measure, edge_lens, face_areas, face_normals, small_edge_ratio, flat_indicator, gmsh_gamma, "
       "smooth_grad_error_indicator, skew_line_dist, common_normal"),
      ("statistics", "heal_mesh.py: HealMesh.quality_statistics, stats_to_yaml")],
     "QualityDesign.tla: laws (range, zero, one, invariance) for all 20 000 simplices of a 3x3x3 lattice in interval arithmetic, all replayed "
     "with random scale, shift and order; QualityTrace.tla computes every measure and histogram. Precision 1/4096. Trusts TLC.",
     ["values of the measures; quality_statistics; the yaml file"])
prop("G10", "Healing repairs a defect locally and keeps everything else",
     "Healing a mesh with separate defects makes exactly their repairs. Close nodes, or the nodes of a short edge of bad elements, merge in the middle. A node on the edge of a bad triangle moves to the edge, "
     "elements with all three nodes vanish and every other element with that edge is split in two at the node. Of a flat tetrahedron with crossing edges the nodes move to its mean "
     "plane and the elements at its faces are split at the crossing point; one with a node inside a face splits the elements at that face in three. Elements with a "
     "repeated node and duplicates vanish. Parts keep type, tags and node order; volume and area per region is kept; all other nodes and elements stay as they were.",
     ["inputs"], "all meshes with separate defects of these kinds, all sets of neighbours and all numberings",
     "Tests run two steps on one tetrahedron and do not look at the neighbours.",
     ["src/bgem/gmsh/heal_mesh.py"],
     [("steps", "heal_mesh.py: HealMesh._check_flat_tetra, _heal_quad_flat_case, _heal_triangle_flat_case, _check_flat_triangle, _check_small_edge, "
       "_check_degen_nodes, _check_dupl_nodes, _check_duplicate_element"), ("driver", "heal_mesh.py: HealMesh.heal_mesh")],
     "RepairDesign.tla: one flat element with all subsets of neighbours, laws: volume and area per region are kept, nothing hangs; all replayed with random numbering, orientation, "
     "scale; random meshes with one to three defects; HealTrace.tla computes the repaired mesh exactly. Trusts TLC.",
     ["mesh.nodes and mesh.elements before and after heal_mesh"])
SPL = ["src/bgem/bspline/bspline.py", "src/bgem/bspline/bspline_approx.py"]
SPLNOTE = ("SplineDesign.tla: all bases to degree 3 with up to 2 (3) inner knots, laws checked and every basis replayed; random bases to "
           "degree 4; SplineTrace.tla recomputes every recorded number in exact rational arithmetic. Trusts TLC and the "
           "identification of floats with rationals of a small denominator.")
prop("S01", "Spline bases have the values defined by their knots",
     "For every degree, knot vector and parameter the functions of a basis, their derivatives and the vectors of those not "
     "zero in an interval have the values of the B-spline recursion, at knots, repeated knots and both ends of the domain "
     "too: they are nonnegative, sum up to one, vanish outside of their support and reproduce linear functions by the linear "
     "poles. Intervals are found for every parameter, parameters outside are refused, and packed or equidistant knots give the "
     "basis they describe.",
     ["inputs"], "all degrees, knot vectors and parameters", "Tests compare a few values of a few bases.", SPL,
     [("basis", "bspline.py: SplineBasis.find_knot_interval, eval, eval_vector, eval_base_vector, eval_diff, eval_diff_vector, "
                "make_linear_poles, pack_knots, make_from_packed_knots, make_equidistant, fn_supp, check")],
     SPLNOTE, ["values returned by SplineBasis"])
prop("S02", "Spline curves and surfaces evaluate to the combination of their poles and are found in their boxes",
     "A curve or surface (rational or not, of any degrees and dimension) evaluates point by point and by arrays to the combination of "
     "its poles given by the basis functions and weights; its bounding box is that of the poles, and the box of the patch of every "
     "parameter contains the value there. Patches are numbered one to one, copies share nothing with their originals, and planes, "
     "bilinear patches, lines and curves through points pass through the given points.",
     ["inputs"], "all degrees, knots, poles, weights and parameters", "Tests plot most of the curves and surfaces and compare a few points.", SPL,
     [("curves and surfaces", "bspline.py: Curve, Surface: eval, eval_array, aabb, make_raw, deep_copy, _compute_boxes, patch_pos2id, patch_id2pos"),
      ("simple shapes", "bspline_approx.py: plane_surface, bilinear_surface, line, curve_from_grid")],
     SPLNOTE, ["values returned by Curve and Surface"])
ZNOTE = ("ZSurfDesign.tla: all sequences of 2 (4) calls over two surfaces, laws checked and replayed; random histories; ZSurfTrace.tla "
         "recomputes every recorded number in exact rational arithmetic after every call. Rational height splines are not "
         "covered. Trusts TLC and the identification of floats with rationals of a small denominator.")
prop("S03", "Transforms and copies of Z surfaces act as documented",
     "After any history of transforms, applied Z transforms and copies, every Z surface evaluates (by points, arrays, heights only, or from "
     "XY) to its original surface moved by the transform last set, taken about the centre of the original; a new transform "
     "replaces the former one, applying the Z transform changes no value, and no call changes any other surface, copies "
     "included. Parameters are found back from XY, and the centre, quad, bounding box, reported transform and full 3D surface agree "
     "with the values.",
     ["histories", "inputs"], "all histories of calls over all quads, height surfaces and transforms",
     "Tests compare a few transforms of one surface visually.", SPL,
     [("transforms", "bspline.py: Z_Surface.transform, apply_z_transform, get_copy, get_transform, _reset_transform_xy, center, aabb, "
                     "xy_to_uv, uv_to_xy, make_full_surface, eval, eval_array, z_eval_array")],
     ZNOTE, ["values returned by Z_Surface"])
prop("S04", "Grid surfaces accept exactly regular grids and interpolate their points",
     "A sequence of points is accepted as a grid exactly if its XY positions form the rows of a regular parallelogram grid, up to the tolerance; then the "
     "numbers of rows and columns are found, and anything else is refused. The surface, also one read from a file, passes through every point, is bilinear "
     "between them, and all ways of evaluating it agree before and after any transforms.",
     ["inputs", "histories"], "all sequences of points, all histories of transforms", "Tests use one regular grid and a few irregular ones.", SPL,
     [("grids", "bspline.py: GridSurface._get_grid_corners, _check_grid_regularity, _make_z_surface, transform, z_eval_array, "
                "z_eval_xy_array, eval_array, aabb, load; make_function_grid")],
     ZNOTE.replace("ZSurfDesign.tla: all sequences of 2 (4) calls over two surfaces, laws checked and replayed",
                   "GridDesign.tla: all sequences of four points of a 3 x 3 lattice and all six-point grids with one point moved or two swapped, replayed"),
     ["values returned by GridSurface, exceptions"])
prop("S05", "Approximation of points by a surface keeps what the points determine",
     "The convex hull of points and their bounding rectangle of the least area are exact, and the default quad is that rectangle. For every set of points, weights, "
     "quad and numbers of intervals the approximation reproduces constants, and without regularization all quadratic surfaces; strong "
     "regularization gives the mean; an integer weight acts as repeated points; points outside of the quad do not "
     "matter; scaling and shifting the heights or exchanging the axes does the same to the result; and the "
     "reported error is the largest distance of a point from the surface.",
     ["inputs"], "all sets of points, weights, quads, numbers of intervals", "Tests print the errors of a few approximations and compare none.", SPL,
     [("approximation", "bspline_approx.py: convex_hull_2d, min_bounding_rect, SurfaceApprox.compute_approximation, _compute_uv_points, _build_ls_matrix, "
                        "_build_sparse_reg_matrix, approx_from_file, approx_from_grid_surface, surface_from_grid")],
     "HullDesign.tla: all point sets of a 4 x 3 (4 x 4, 5 x 3) lattice, laws checked and replayed; random approximations related to each other and to the "
     "exact outcome by ApproxTrace.tla. The numerical quality of the approximation of arbitrary data is not decided. Trusts TLC.",
     ["values returned by convex_hull_2d, min_bounding_rect, SurfaceApprox"])
prop("S06", "BREP files describe exactly the shapes they are written of",
     "For every model of vertices, edges, wires, faces, shells, solids and compounds, with explicit or implicit geometry and locations, "
     "a written file is well formed and holds each shape below the written one exactly once, with its kind, flags, points, children, "
     "orientations and locations; the curves and surfaces given by the user are the ones attached, the added ones join the vertices by "
     "straight lines and hold the edges of the face; OCC reads the same solids from it. Writing or printing before, writing of parts, "
     "repeated writing and sharing of shapes and references by the caller make no difference. Children of a wrong kind, open "
     "wires of faces, curves missing their vertices, wrong matrices and knots are refused.",
     ["histories", "inputs"], "all models and all sequences of building, printing and writing", "Tests write a few models once and compare none of the files.", SPL,
     [("brep writer", "brep_writer.py: write_model, Shape._dfs, Shape.append, Face.implicit_surface, Edge.implicit_curve, Wire._set_closed, Location, ComposedLocation, "
                      "Curve3D, Curve2D, Surface, Approx, curve_from_bs, surface_from_bs")],
     "BrepDesign.tla: a sheet of two triangles, all sequences of 3 (4) printings, writings, compounds and additions, numbering laws checked and replayed; "
     "random solid models, explicit geometry and locations; files parsed strictly and compared by BrepTrace.tla with the state of Brep.tla; "
     "solids read back by OCC. Trusts TLC, gmsh's OCC reader and the parser of the driver.",
     ["files written by write_model", "entities read by gmsh.model.occ.importShapes", "exceptions"])
prop("S07", "Crossings of spline surfaces are common points of both, found and attributed to their patches",
     "For every two spline surfaces, each crossing reported of a knot line of the one with a patch of the other lies on both surfaces at the "
     "reported parameters within their patches, on that knot line, and is attributed to the patches around it. For plane surfaces and for "
     "monotone graphs over a plane, every crossing of every knot line is reported; a line parallel to a patch gives none and does not fail. "
     "A point of a surface knows all patches which contain it, its place within the given one and whether it is on the boundary.",
     ["inputs"], "all positions, sizes, shapes and numbers of intervals of two surfaces", "Tests run a few intersections and print the points.", SPL,
     [("surface intersection", "isec_surf_surf.py: IsecSurfSurf.get_intersections, _main_curves, _already_found, make_patch_point_list; "
                               "isec_curve_surf.py: IsecCurveSurf.get_intersection; surface_point.py: SurfacePoint; isec_point.py: IsecPoint; "
                               "bspline.py: Surface.tree, patch_id2pos, patch_pos2id, Curve.boxes")],
     "IsecDesign.tla: a unit sheet and a family of plane sheets, exact crossings with laws and symmetry, every pair replayed both ways; random "
     "sheets, lines, bent surfaces and monotone graphs judged by IsecTrace.tla. The connection of the points into curves is unfinished in the "
     "repository and not claimed. Trusts TLC.",
     ["points returned by get_intersections, get_intersection", "SurfacePoint", "make_patch_point_list", "exceptions"])
prop("S08", "Plots show exactly the given geometry, each thing once",
     "For every sequence of plot calls, showing displays every curve, surface, set of points and set of poles added since the last showing exactly once, in "
     "order, plane ones and spatial ones in figures of their own, in a new file; afterwards the canvas is empty. A drawn curve or surface consists of its values at equidistant "
     "parameters over the whole domain, in the number asked for. The picture of a polygon decomposition has every bounded polygon filled once, with its boundary, "
     "after the polygon around it, every segment as one line and the given points (by default all) as markers.",
     ["histories", "inputs"], "all sequences of calls on all splines and decompositions, with both backends", "Tests display plots to be looked at.",
     ["src/bgem/bspline/bspline_plot.py", "src/bgem/polygons/plot_polygons.py"],
     [("canvas", "bspline_plot.py: Plotting, PlottingPlotly, PlottingMatplot"),
      ("decompositions", "plot_polygons.py: plot_polygon_decomposition, _plot_polygon, plot_decomp_segments")],
     "PlotDesign.tla: all sequences of 3 (4) calls with laws of the canvas, all replayed; random calls on random splines; PlotTrace.tla computes every drawn point exactly. "
     "Colours are not judged. Trusts TLC and that the plotting libraries show what they are handed.",
     ["figures handed to plotly", "artists of matplotlib axes"])
