#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing; writes the file)."""
import json, os
R = "crates/rerecast/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "Columns of solid spans stay canonical under any insertion history",
  "After any sequence of span insertions into a voxel column, the column lists its solid spans in strictly ascending order with a gap of at least one voxel between consecutive spans, and the set of solid voxels is exactly the union of everything inserted (spans that overlap or touch are fused into one, other spans and other columns are untouched). When an inserted span is fused with an existing one, the fused span takes the larger of the two area ids if the existing span's top lies within the merge threshold of the fused top reached so far, and otherwise keeps the inserted span's area id.",
  ["histories", "inputs"], "every sequence of insertions (any extents, areas, thresholds) into any column",
  "The unit tests insert one or two spans with threshold 0 and equal areas; three-way merges, touching spans, threshold boundaries and insertion orders are never tried, and the C++ comparison samples one scene.",
  [R+"heightfield.rs", R+"span.rs"],
  [("span insertion with merge", R+"heightfield.rs Heightfield::add_span"), ("linked columns", R+"span.rs Spans/Span.next")],
  ["walking every column of the heightfield from its bottom span"],
  [("column", "linked list of solid spans of one grid column", R+"heightfield.rs Heightfield.spans/allocated_spans")])

p("C02", "Rasterization is conservative and tight for every triangle",
  "Rasterizing a triangle marks a span in every grid column whose footprint it overlaps with positive area inside the field and in no column it does not touch; triangles or parts outside the field contribute nothing. In each such column the span runs from the floor to the ceiling (at least one voxel thick) of the exact height range the triangle attains over that column, clamped to the vertical extent of the field.",
  ["inputs"], "every triangle (any orientation, partly or fully outside the field, degenerate, vertical) and every grid origin, cell size and cell height",
  "Only one reference scene is rasterized in tests; the clipping corner cases (vertex on a grid line, triangle entering from outside the field, steep or degenerate triangles) are hit only by accident.",
  [R+"rasterize.rs", R+"heightfield.rs", R+"math.rs"],
  [("row/column clipping", R+"rasterize.rs Heightfield::rasterize_triangle, divide_poly"), ("grid dimensions", R+"heightfield.rs HeightfieldBuilder::build")],
  ["solid spans per column after rasterization"])

p("C03", "Slope classification marks exactly the triangles that are flat enough",
  "Marking walkable triangles gives the default walkable area to every triangle whose upward-oriented normal is tilted from vertical by less than the slope limit, and leaves the area of every other triangle (steeper, downward facing, or degenerate) unchanged, independently of the other triangles in the mesh.",
  ["inputs"], "every triangle mesh and slope limit in [0, 90) degrees",
  "The reference scene exercises one slope limit and mostly axis-aligned geometry.",
  [R+"trimesh.rs", R+"math.rs"],
  [("slope test", R+"trimesh.rs TriMesh::mark_walkable_triangles"), ("triangle normal", R+"math.rs TriangleIndices::normal")],
  ["area id per triangle"])

p("C04", "Low obstacles on walkable ground become walkable, and only those",
  "The low-hanging-obstacle filter changes a span only if it is not walkable, the span directly below it in the column was walkable before the filter ran, and its top is at most the climb height above that span's top; it then gets that lower span's area. Every other span, and all geometry, is unchanged.",
  ["inputs", "configurations"], "every heightfield and climb height",
  "No unit test exercises the filter; the reference scene has few stacked obstacles and a single climb value.",
  [R+"pre_filter.rs"], [("obstacle filter", R+"pre_filter.rs filter_low_hanging_walkable_obstacles")],
  ["area of every span before/after"])

p("C05", "The ledge filter removes exactly ledges and steep steps",
  "The ledge filter makes a walkable span unwalkable exactly when some orthogonal neighbour column is outside the field or offers a reachable drop (enough clearance for the agent to pass) of more than the climb height, or when the reachable neighbour floors within climb reach spread over more than the climb height. It never makes a span walkable and never changes geometry.",
  ["inputs", "configurations"], "every heightfield, agent height and climb height",
  "No unit test exercises the filter; the reference scene samples one parameter pair.",
  [R+"pre_filter.rs"], [("ledge filter", R+"pre_filter.rs filter_ledge_spans")],
  ["area of every span before/after"])

p("C06", "The headroom filter removes exactly spans without standing room",
  "The headroom filter makes a span unwalkable exactly when the vertical gap between its top and the bottom of the next span above it is smaller than the agent height (the space above the topmost span counts as the full height range), and leaves every other span as it was.",
  ["inputs", "configurations"], "every heightfield and agent height",
  "No unit test exercises the filter; boundary gaps (exactly the agent height) are not sampled deliberately.",
  [R+"pre_filter.rs"], [("headroom filter", R+"pre_filter.rs filter_walkable_low_height_spans")],
  ["area of every span before/after"])

p("C07", "The compact heightfield lists exactly the open space above walkable spans",
  "Converting a heightfield to its compact form yields, for every column in order and from bottom to top, exactly one open span per walkable solid span: it starts at the solid span's top, carries its area, and its clearance is the gap to the next solid span above (walkable or not), capped at 255. Columns partition the open spans contiguously, and non-walkable spans contribute none.",
  ["inputs"], "every heightfield",
  "Tests compare one scene; columns mixing walkable and unwalkable spans at varied heights, empty columns and clearance capping are not enumerated.",
  [R+"compact_heightfield.rs", R+"compact_cell.rs", R+"compact_span.rs"],
  [("compaction", R+"compact_heightfield.rs Heightfield::into_compact"), ("packed clearance", R+"compact_span.rs CompactSpan")],
  ["cells, open spans and areas of the compact heightfield"])

p("C08", "Neighbour links connect exactly the traversable pairs of open spans",
  "An open span is linked in each of the four directions to an open span of the adjacent column if and only if one exists whose shared clearance with it is at least the agent height and whose floor differs by at most the climb height (the lowest such span is chosen), and never links outside the field. Consequently, whenever at most one candidate exists on each side, links are mutual.",
  ["inputs", "configurations"], "every heightfield, agent height and climb height",
  "Tests compare one scene at one parameter pair; multi-layer columns with several candidates and the boundary values of clearance and climb are not enumerated.",
  [R+"compact_heightfield.rs", R+"compact_span.rs", R+"math.rs"],
  [("neighbour search", R+"compact_heightfield.rs Heightfield::into_compact"), ("packed links", R+"compact_span.rs set_con/con"), ("directions", R+"math.rs dir_offset_x/dir_offset_z")],
  ["links of every open span"])

p("C09", "Erosion removes exactly the spans closer than the agent radius",
  "Eroding by a radius makes unwalkable exactly those open spans whose distance to the nearest boundary (an unwalkable span, or a span lacking a walkable neighbour on some side), measured along links with cost 2 per orthogonal and 3 per diagonal step in half cells, is less than twice the radius; all other spans keep their area. Eroding by zero changes nothing and a larger radius never leaves more walkable spans.",
  ["inputs", "configurations"], "every walkable surface, including layered ones, and every radius",
  "Tests compare one scene at one radius; asymmetric obstacles, diagonal-only proximity and large radii are not sampled.",
  [R+"erosion.rs"], [("two-pass chamfer distance", R+"erosion.rs CompactHeightfield::erode_walkable_area")],
  ["areas before/after erosion"])

p("C10", "Marking a convex volume relabels exactly the walkable cells inside it",
  "Marking a convex volume assigns its area to exactly those walkable open spans whose cell centre lies inside the volume's footprint polygon and whose floor lies within its vertical extent in voxels; unwalkable spans, and spans outside, keep their area, whatever part of the volume lies outside the field and whichever way its polygon winds.",
  ["inputs"], "every convex polygon, vertical range, area id and heightfield",
  "Tests use the few volumes of one scene.",
  [R+"mark_convex_poly_area.rs", R+"math.rs"],
  [("footprint and containment", R+"mark_convex_poly_area.rs mark_convex_poly_area, point_in_poly")],
  ["areas before/after marking"])

p("C11", "The distance field measures distance to the nearest area boundary",
  "The distance field gives every open span its smoothed distance (2 per orthogonal, 3 per diagonal linked step) to the nearest span that lacks a same-area neighbour on some side: zero exactly on such boundary spans, values of at most 2 unsmoothed, larger ones replaced by the rounded average over the 3x3 neighbourhood (missing neighbours counting as the span itself). The reported maximum is the largest unsmoothed distance; an empty surface is handled.",
  ["inputs"], "every compact heightfield, including multi-area, multi-layer and empty ones",
  "Tests compare one scene.",
  [R+"watershed_distance_field.rs"],
  [("two-pass distance", R+"watershed_distance_field.rs calculate_distance_field"), ("smoothing", R+"watershed_distance_field.rs box_blur")],
  ["distance per open span and maximum distance"])

p("C12", "Regions partition the walkable surface soundly",
  "After building regions, every region is a set of walkable open spans of a single area type, connected through neighbour links, region ids lie in 1..max, unwalkable spans belong to no region, and walkable spans within the border margin (and only those) carry border ids. If the minimum region size and the border margin are zero and some span has a positive distance, every walkable span belongs to some region.",
  ["inputs", "configurations"], "every surface, border size, minimum and merge region size",
  "Tests compare one scene with one parameter set; the watershed's interplay of levels, expansion, merging and compression is data dependent.",
  [R+"watershed_build_regions.rs", R+"region.rs"],
  [("watershed flooding", R+"watershed_build_regions.rs build_regions/expand_regions/flood_region"), ("merge, filter, compress", R+"watershed_build_regions.rs merge_and_filter_regions")],
  ["region per open span, maximum region id, border size"])

p("C13", "Regions follow the watershed and are kept and merged by size",
  "Before sizes matter, regions are the watershed of the distance field: from the highest level down, existing regions first grow into unassigned same-area neighbours, nearest first, then remaining spans of the level seed new regions; a span next to another non-border region of its area (straight or through one such neighbour diagonally) does not join the new one. Then a group of mutually adjacent regions is discarded exactly when its total span count is below the minimum region size and it does not touch the border margin. A surviving region that is no larger than the merge size, or touches no unassigned space, is merged into its smallest mergeable neighbour (same area type, adjacent along one stretch, never stacked above or below it) until no such merge remains.",
  ["inputs", "configurations"], "every surface, border size, minimum and merge region size",
  "Tests compare one scene with one parameter set, so neither threshold is approached from both sides.",
  [R+"watershed_build_regions.rs"],
  [("small region removal and merging", R+"watershed_build_regions.rs merge_and_filter_regions, merge_regions, can_merge_with")],
  ["region per open span for varied size limits"])

p("C14", "Raw contours trace every region boundary exactly once",
  "For every region, the raw contours consist of unit steps around region cells with the region on a fixed side, close up, and together run along every cell edge that separates the region from something else exactly once; each raw vertex carries the id of the region across that edge (none for walls), whether area types differ there, and the highest floor of the linked cells around that corner.",
  ["inputs"], "every region partition of every surface (regions with holes, several regions, borders, layers)",
  "Tests compare one scene; region shapes with holes, single-cell necks and diagonal touching are not enumerated.",
  [R+"contours.rs"],
  [("boundary walk", R+"contours.rs walk_contour_build"), ("corner height", R+"contours.rs get_corner_height")],
  ["raw contour vertices"])

p("C15", "Simplified contours stay within tolerance and keep portals aligned",
  "Each simplified contour visits a subset of its raw contour's vertices in order, keeps every vertex where the neighbouring region or area border changes, and carries the region across the edge that follows. Wall and area-border stretches are refined at their farthest raw vertex until no raw vertex is farther than the maximum error from the segment replacing it, and not further. With edge splitting enabled, segments of the flagged kinds (walls, area borders) longer than the maximum edge length are then split at their middle raw vertex while there is one. Two contours sharing an area border simplify it identically. Holes of a region are joined to its outline by two-way segments that cross no edge of the region's contours.",
  ["inputs", "configurations"], "every region partition, error tolerance, edge length limit and split flags",
  "Tests compare one scene with one tolerance, one edge length and default flags.",
  [R+"contours.rs", R+"math.rs"],
  [("Douglas-Peucker simplification", R+"contours.rs simplify_contour"), ("degenerate segments", R+"contours.rs remove_degenerate_segments")],
  ["simplified contour vertices against raw vertices"])

p("C16", "The polygon mesh tiles each contour with valid convex polygons",
  "For contours without removable border vertices, the polygon mesh consists of convex, consistently oriented polygons of three to the maximum number of vertices, with distinct in-range vertices and unused slots marked. The polygons of a region tile exactly the area its outlines enclose (minus holes), without overlap, use only its vertices (up to two height units apart) and carry its region and area; no two polygons of a contour could still be merged into a convex one within the limit. Vertices at the same grid position at most two height units apart are shared, and every per-polygon list has one entry per polygon. Only contours that touch or cross themselves may be refused.",
  ["inputs", "configurations"], "every set of simple contours and every vertex limit of at least three",
  "Tests compare one scene with a limit of six vertices; triangulation and merging are data dependent.",
  [R+"poly_mesh.rs"],
  [("ear clipping", R+"poly_mesh.rs triangulate"), ("convex merging", R+"poly_mesh.rs get_poly_merge_value/merge_poly_verts"), ("vertex sharing", R+"poly_mesh.rs add_vertex")],
  ["vertices, polygons, regions, areas, flags of the polygon mesh"])

p("C17", "Polygon adjacency is exact, symmetric and marks tile portals",
  "Polygon A names polygon B as neighbour across an edge exactly when B has the same edge reversed, and then B names A across it. An edge without neighbour is marked as a portal of a tile side exactly when the field has a border margin and both its vertices lie on that side; every other unshared edge and every unused slot is marked as unconnected.",
  ["inputs", "configurations"], "every polygon mesh the pipeline can produce, with and without border margin",
  "Tests compare one scene; an asymmetric or missing link would only be noticed where that scene has it.",
  [R+"poly_mesh.rs"],
  [("edge matching", R+"poly_mesh.rs build_mesh_adjacency"), ("portal marking", R+"poly_mesh.rs into_polygon_mesh")],
  ["neighbour list of the polygon mesh"])

p("C18", "Removing tile-border vertices preserves the mesh",
  "When a tile has a border margin, every superfluous vertex on the tile edge (marked by the contours) whose removal leaves a proper polygon is removed and the polygons around it are re-tiled, and nothing else is removed. The union of the polygons stays the same, overall and per area type, they stay convex and within the vertex limit, and a polygon names a region only if all its corners belong to it (none if it spans several); the construction terminates.",
  ["inputs", "configurations"], "every tiled surface with several regions meeting at the tile border",
  "The reference scene's border happens not to run the removal; no test reaches it.",
  [R+"poly_mesh.rs", R+"contours.rs"],
  [("vertex removal", R+"poly_mesh.rs can_remove_vertex/remove_vertex"), ("border vertex detection", R+"contours.rs get_corner_height")],
  ["polygon mesh of tiles with border margin"])

p("C19", "The detail mesh refines each polygon without changing its shape",
  "The detail mesh has one sub-mesh per polygon; its first vertices are the polygon's own vertices at their horizontal positions, its ranges are contiguous and in bounds, its triangles use local in-range distinct indices and together cover exactly the polygon's footprint without overlap, and triangle edges are flagged as boundary exactly when both ends lie on the polygon's boundary edge. Sampling disabled yields a plain triangulation of the polygon.",
  ["inputs", "configurations"], "every polygon mesh and surface, sampling distance (including zero) and maximum error",
  "Tests compare one scene with one sampling distance.",
  [R+"detail_mesh.rs"],
  [("polygon tessellation", R+"detail_mesh.rs build_poly_detail, triangulate_hull, delaunay_hull")],
  ["sub-meshes, vertices, triangles, flags of the detail mesh"])

p("C20", "The detail mesh follows the surface height within the sampling error",
  "With sampling enabled, every polygon boundary sample is within the maximum sample error of the detail boundary and every interior sample point is within the maximum sample error of the detail surface, unless the vertex limit of the sub-mesh was reached; every detail vertex lies at a height taken from the surface of its own polygon.",
  ["inputs", "configurations"], "every surface, sampling distance and maximum error",
  "Tests compare one scene with one sampling configuration.",
  [R+"detail_mesh.rs"],
  [("height patch", R+"detail_mesh.rs get_height_data, seed_array_with_poly_center"), ("sample insertion", R+"detail_mesh.rs build_poly_detail")],
  ["heights of detail vertices against the compact heightfield"])

p("C21", "Every stage terminates without panicking and is deterministic",
  "For every valid mesh and configuration, each stage of navmesh generation returns a result or a reported error in bounded time, without panicking, and running it again on equal input gives an equal result; an empty or fully unwalkable scene gives an empty mesh.",
  ["inputs", "configurations"], "every input mesh and every configuration inside the documented limits, through the whole pipeline",
  "Tests run one scene; unusual but legal configurations (no walkable area, sampling off, border larger than the field, long edge limits) are never run.",
  [R+"lib.rs", R+"rasterize.rs", R+"watershed_distance_field.rs", R+"contours.rs", R+"poly_mesh.rs", R+"detail_mesh.rs", R+"config.rs"],
  [("whole pipeline", R+"lib.rs public API")],
  ["result or panic of each call"])

p("C22", "Combining meshes preserves every part",
  "Appending one triangle mesh to another keeps all existing vertices, triangles and areas and adds the other's, with every added triangle still naming its own vertices; over any sequence of appends, all indices stay in range and there is one area per triangle.",
  ["histories", "inputs"], "every sequence of appends of valid meshes",
  "No test appends meshes; the scenes used come as one mesh.",
  [R+"trimesh.rs"], [("append", R+"trimesh.rs TriMesh::extend")],
  ["vertices, indices and areas after each append"])

p("C23", "Compound colliders become meshes with each part at its own pose",
  "Converting a collider to a triangle mesh places every vertex of every primitive at that primitive's pose within the compound, independent of the order and number of the other parts; only supported colliders of static bodies are converted; every index is in range and every triangle has an area.",
  ["inputs", "programs"], "every compound collider (shape kinds, poses, part orders)",
  "The only test converts a single cuboid at the origin.",
  ["crates/avian_rerecast/src/collider_to_trimesh.rs", "crates/avian_rerecast/src/lib.rs"],
  [("shape recursion", "crates/avian_rerecast/src/collider_to_trimesh.rs")],
  ["mesh produced by the collider backend"])

p("C24", "Editor transmission reproduces the scene it was given",
  "Serializing and deserializing any scene description for the editor yields an equal value, and the mesh, image and material index tables it carries stay in range and refer to the objects originally referenced.",
  ["inputs"], "every mesh, image, material and scene description",
  "One round-trip test uses a single small mesh.",
  ["crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs", "crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs", "crates/bevy_rerecast_editor_integration/src/brp.rs"],
  [("encoding", "crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs"), ("index tables", "crates/bevy_rerecast_editor_integration/src/brp.rs")],
  ["bytes sent to the editor and the value read back"])

p("C25", "A Bevy mesh enters navmesh generation as exactly its triangles",
  "Converting a Bevy mesh to a triangle mesh yields the mesh's positions as vertices and its index list, cut in threes in order, as triangles, with one not-walkable area per triangle, whatever other attributes or index width it has; anything that is not an indexed triangle list with positions and a multiple of three indices is refused.",
  ["inputs"], "every Bevy mesh (topology, attributes, index format and count)",
  "No test converts a Bevy mesh; the scenes used come from one loader.",
  ["crates/bevy_rerecast_core/src/mesh.rs"], [("conversion", "crates/bevy_rerecast_core/src/mesh.rs TriMesh::from_mesh")],
  ["the triangle mesh returned, or its absence"])

p("C26", "Every product of the pipeline lies at the same place in the world",
  "A heightfield built from bounds keeps those bounds and cell sizes, has the bounds' extent divided by the cell size, rounded to the nearest whole number of cells along each side (or is refused if a side does not fit), and starts with every column empty. The compact heightfield keeps dimensions, origin and cell sizes and ends one agent height higher. Contour set and polygon mesh keep the cell sizes; their box is that of the field without the border margin on the four sides, their dimensions are the field's minus twice the margin, and they record margin, simplification error and vertices per polygon. So the same point of the grid has the same world position in every product.",
  ["inputs", "configurations"], "all bounds, cell sizes, border margins and agent heights",
  "The comparison with recorded data uses one scene whose field starts at one origin without a margin; nothing varies origin, scale and margin together.",
  [R+"heightfield.rs", R+"compact_heightfield.rs", R+"contours.rs", R+"poly_mesh.rs"],
  [("builder", R+"heightfield.rs HeightfieldBuilder::build"), ("open space", R+"compact_heightfield.rs Heightfield::into_compact"),
   ("margin removed", R+"contours.rs CompactHeightfield::build_contours"), ("copied frame", R+"poly_mesh.rs ContourSet::into_polygon_mesh")],
  ["bounds, cell sizes, dimensions, margin and errors of every product"])

p("C27", "A mesh fills a heightfield triangle by triangle, then the filters clean it",
  "The bounds of a triangle mesh are the smallest box around all its vertices (none for no vertices). Rasterizing a mesh gives the same field as rasterizing its triangles one after the other, each with its own three vertices and its own area and with the climb as merge threshold, whatever the order of the vertices; populating a field from a mesh is that followed by the low-obstacle, ledge and headroom filters in this order with the given agent height and climb. Looking up a column by position yields its lowest span.",
  ["inputs"], "every mesh (number and order of triangles and vertices, areas), field and agent",
  "The tests populate fields from one recorded mesh with one agent, so swapped parameters, another filter order or an area taken from another triangle can agree by chance.",
  [R+"trimesh.rs", R+"rasterize.rs", R+"heightfield.rs"],
  [("bounds", R+"trimesh.rs TriMesh::compute_aabb"), ("all triangles", R+"rasterize.rs Heightfield::rasterize_triangles"),
   ("fill and filter", R+"heightfield.rs Heightfield::populate_from_trimesh"), ("look up", R+"heightfield.rs Heightfield::span_at")],
  ["bounds returned; columns after each call"])

p("C28", "Saving and loading is invisible",
  "With the feature `serialize`, a heightfield, compact heightfield, polygon mesh, detail mesh or triangle mesh that is written with serde and read back, at any point between two calls of the pipeline, equals the one written in every public field (a heightfield may use freed slots in another order), and every later call gives exactly the result it gives without the interruption.",
  ["histories", "crash_points"], "every order of calls, every point of interruption, every product of the pipeline",
  "No test writes or reads a product of the pipeline (the recorded references are hand-written JSON read by the tests' own types); a skipped or renamed field shows only when a later stage needs it.",
  [R+"heightfield.rs", R+"span.rs", R+"compact_heightfield.rs", R+"compact_span.rs", R+"compact_cell.rs", R+"poly_mesh.rs", R+"detail_mesh.rs", R+"region.rs", R+"trimesh.rs", R+"math.rs"],
  [("derived serialization", "cfg_attr(feature = \"serialize\") of the types in the files named")],
  ["state after loading; results of the later calls with and without the interruption"])

p("C29", "The editor shows exactly what is switched on",
  "In any session with the editor: loading the scene of a running game replaces the scene by exactly the objects and affectors the game sent, a failed request reports an error and leaves the scene, the navmesh and the screen as they were; loading never changes the navmesh. Building makes the navmesh that the pipeline's stages give, in their order and with the default agent's parameters, for all affectors at their places in the world; a failed build keeps the previous navmesh. A switch changes only itself. After every frame the screen shows what is switched on and nothing else: the visual meshes, the triangles of every affector, the outlines and the filled interior of exactly the polygons, and of exactly the detail triangles, of the current navmesh (loading a scene may take the lines, not the fill, of the navmesh's pictures until they are drawn again).",
  ["histories", "inputs", "fault_sequences"], "every order of loading, building, switching and drawing; every scene; every kind of failed answer",
  "No test covers the editor: its pictures are redrawn on changes, so that each order of switching, loading and building is a case of its own, and requests fail in ways no test provokes.",
  ["crates/bevy_rerecast_editor/src/get_navmesh_input.rs", "crates/bevy_rerecast_editor/src/build.rs", "crates/bevy_rerecast_editor/src/visualization.rs", R+"config.rs"],
  [("loading", "fetch_navmesh_input"), ("building", "build_navmesh"), ("drawing", "visualization::plugin")],
  ["scene, navmesh, visibility, line strips and filled triangles after every step; errors reported"])

p("C30", "The affectors are those of the world as it is now",
  "Through any history of a Bevy world - entities spawned, moved (also by their parents), given other meshes or bodies, despawned; mesh assets loaded, replaced and dropped; back ends set one after another - asking the registered back end after a frame uses only the back end set last and gives exactly one affector, with the entity's global transform and its own untransformed triangles, for every entity that is eligible at that moment: for Mesh3dNavmeshPlugin those with a loaded triangle list, for AvianRerecastPlugin the supported colliders of static bodies. Every request to the NavmeshGenerator gets a handle of its own.",
  ["histories"], "every history of entities, assets and back ends",
  "No test runs a back end; eligibility depends on assets, bodies, hierarchies and back ends that change in any order.",
  ["crates/bevy_rerecast_core/src/mesh.rs", "crates/bevy_rerecast_core/src/backend.rs", "crates/bevy_rerecast_core/src/generator.rs", "crates/avian_rerecast/src/lib.rs"],
  [("mesh back end", "mesh3d_backend"), ("collider back end", "collider_backend"), ("registration", "NavmeshApp::set_navmesh_affector_backend"), ("requests", "NavmeshGenerator::generate")],
  ["transforms and meshes returned by the registered system; handles returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
