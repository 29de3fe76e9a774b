FIXED = [
 ("P11 P06", "AABB lookup returns no removed boxes", "closest_candidates returned removed boxes and lost a degenerate closest box"),
 ("P05 P01", "add_line splits at free points", "add_line passed through free points; a joined segment kept the direction vector of its part"),
 ("P10", "keep the lookup boxes up to date", "after move_points or joining segments, snapping and crossing search used the old positions"),
 ("P03", "nesting of a bubble cut off inside a polygon", "cutting a bubble off a boundary left the polygons around it with the wrong parent wires"),
 ("P08", "undo restores what the undone polygon operation changed", "undo of a repeated segment removed the original; attributes and polygon attributes were lost by undo"),
 ("P05", "merging two close crossings of a new line", "merge_points raised on segments without attribute object"),
 ("P01 P02", "joining segments of opposite orientation", "join_segments kept the wire's start segment on the wrong side"),
 ("U03", "redocount counts the redos", "redocount returned the undo count"),
 ("U02", "undo groups can be nested, left by an exception", "an inner group ended the recording of the outer one; an exception in a group stopped recording for good"),
 ("U01", "undo and redo do not switch recording on again", "undo/redo switched recording on while it was disabled"),
 ("P13", "overlay maps the polygons inside holes", "polygons inside holes and drawings without segments stayed unmapped or failed an assertion"),
 ("P13", "overlay splits the added lines at the vertices", "overlay of drawings that touch in a vertex or overlap in a line raised AssertionError or gave a non-planar drawing"),
 ("U03", "haschanged notices a different action", "haschanged compared counts only"),
 ("G01", "read physical names that contain spaces", "a physical name with a space was silently dropped by read"),
 ("G01", "read elements with few tags and nodes", "element lines of up to five numbers were silently skipped"),
 ("G01", "read version 1.0 mesh files", "version 1 files raised UnboundLocalError"),
 ("G02", "write element data given by a vector or to the current mesh file", "write_fields raised for vectors and for the current file"),
 ("G04", "node merging tolerance of HealMesh is relative", "the tolerance was derived from node ids: nodes farther than the tolerance were merged"),
 ("G04", "heal also the elements changed by the last healing step", "elements changed by the last step stayed unhealed"),
 ("G04", "do not go on healing a removed element", "an isolated degenerate element made heal_mesh raise"),
 ("G04", "quality of a flat tetrahedron with nodes on a common circle", "healing the flat tetrahedron of a square raised AssertionError"),
 ("G04", "check of the flattened tetrahedron does not depend on the mesh size", "healing large meshes raised AssertionError"),
 ("G05", "rectangle extends the given list of sides", "the list given by the caller was changed"),
 ("G06", "keep_only leaves the removed shapes in the model to mesh", "removed shapes were meshed unless something else synchronized the model"),
 ("G05", "copy of a set of shapes of several dimensions loses the lower ones", "copy returned fewer shapes with shifted regions"),
 ("G05", "fragment of a single shape fails or loses the shape", "fragment of one body raised or returned an empty set"),
 ("G05", "failures of the geometry kernel are not turned into BoolOperationError, GetBoundaryError", "the plain exceptions of gmsh leaked"),
 ("G06", "names made unique may coincide with names of other regions", "two regions A and one A_0 ended with equal names"),
 ("G05", "order of corners of the rectangle made from vertices", "the rectangle was self-crossing"),
 ("G05 G06", "polygon is not synchronized before its boundary or mesh", "boundary of a new polygon raised, its mesh was empty"),
 ("G05", "polygon with integer mesh step fails", "make_polygon(points, 1) raised TypeError"),
 ("G07", "threshold field ignores the upper bound", "the threshold field was constant"),
 ("G07", "restricted field has no effect", "restricted fields were infinite everywhere with the installed gmsh"),
 ("S01", "equidistant knots of an integer range are truncated", "make_equidistant over integers repeated knots"),
 ("S01", "linear poles of a basis not starting at zero are shifted", "make_linear_poles did not reproduce t"),
 ("S02", "rational curves and surfaces given by a list of poles fail", "AttributeError/TypeError for lists"),
 ("S02", "bounding box of rational curves and surfaces contains the weights", "aabb had an additional coordinate"),
 ("S02", "boxes of patches of degree other than 2 or of rational splines", "boxes did not contain the patches"),
 ("S02", "deep copy of a rational surface is not rational", "the weights of the copy became a coordinate"),
 ("S02", "overhang of planes and lines given by integers fails", "UFuncTypeError for integer points"),
 ("S03", "copy of a Z surface follows the transforms of the original", "uv_to_xy of the copy was bound to the original"),
 ("S03", "transform of a bilinear Z surface fails", "AttributeError for four points not forming a parallelogram"),
 ("S03", "bounding box of a Z surface with negative Z scale is inverted", "lower bound above the upper one"),
 ("S03", "applied Z transform is still reported by get_transform", "get_transform returned the applied transform"),
 ("S03", "point evaluation of a Z surface fails", "Z_Surface.eval raised ValueError for every point"),
 ("S04", "z_eval_array of a scaled grid surface differs from eval_array", "z_eval_array ignored the shift of the centre"),
 ("S05", "approximation of points with weights fails", "compute_approximation raised for XYZW points"),
 ("S05", "approximation by a single interval in both directions fails", "ValueError of svds, also for the default intervals of few points"),
 ("S05", "approximation error ignores points above the surface", "max(diff) instead of max(abs(diff))"),
 ("S06", "number the shapes of a BREP model anew for every writing or printing", "the second file of the same shapes, or one after repr, was empty or broken"),
 ("S06", "location of a written BREP model is not applied", "the root of the file referred to location 0 always"),
 ("S06", "plane through three points changes the list of points", "Approx.plane appended (0,0,0) to the list of the caller"),
 ("S06", "edge reorients vertex references shared with other edges", "a ShapeRef used by two edges got the orientation of the last one"),
 ("S06", "wire is not closed by an appended edge", "the closed flag was set by the constructor only; no face of such a wire"),
 ("S06", "flags of BREP vertices are overwritten by those of other shapes", "vertices written with flags 0101000 instead of 0101101"),
 ("S06", "identity factor cuts off the composed location in the BREP file", "0 ends the list of factors, the rest was read as garbage"),
 ("S07", "intersection with a curve parallel to the surface raises LinAlgError", "get_intersections of surfaces with a knot line parallel to a patch raised LinAlgError"),
 ("G08", "write_mesh without a file name and format never ends", "write_mesh() recursed in gmsh until the memory was used up"),
 ("P06", "snapping between parallel segments fails", "add_point between two parallel segments, closer than the tolerance to both, raised AssertionError or snapped to a far point"),
 ("G09", "flatness of a tetrahedron is twice the ratio of altitude and edge", "flat_indicator of a tetrahedron was twice the least altitude over the longest edge"),
 ("G09", "gradient error measure of a tetrahedron depends on the order of nodes", "the pairs of faces did not belong to their edges"),
 ("G09", "gradient error measure of a regular tetrahedron is not one", "0.898 instead of 1"),
 ("G09", "quality of elements with coincident nodes is nan", "such elements were in no bin and not listed as bad"),
 ("S08", "surrounding polygons are plotted again over the polygons inside of them", "a polygon around n others was filled n + 1 times, hiding those plotted before"),
 ("G10", "healing goes on with an element removed by its repair", "a flat element without neighbours was repaired a second time, moving a node of the remaining elements"),
]
KNOWN = []
