"""The properties, and the generated-input checks that decide them.

One entry per property: `P` holds what goes to properties.jsonl, `parts` the
harness properties (file, name, cases per tier, CPU limit per case) that make
up its check.  gen.py writes properties.jsonl and MANIFEST.json from here.
"""
LEVEL = 'exploration'
CHECKS = {}


def prop(pid, title, statement, over, qtext, why, files, mechanism, observe, parts, rule, assumptions, note,
         state=None):
    CHECKS[pid] = dict(
        P=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
               anchors=dict(files=files, state=state or [],
                            mechanism=[dict(name=n, where=w) for n, w in mechanism],
                            observe_at=observe, hook_needed=None)),
        parts=parts, rule=rule, assumptions=assumptions, note=note)


def part(harness, name, quick, thorough, cpu=60, mode='plain', app=False, only=None):
    return dict(harness=harness, prop=name, n=(quick, thorough), cpu=cpu, mode=mode, app=app, only=only)


def asan(harness, name, quick, thorough):
    return part(harness, name, quick, thorough, 300, 'asan', only=('crash', 'sanitizer', 'process-exit'))


A = 'src/algorithm/'
U = 'src/utils/'
GEN = ('Problems are drawn from a grammar: exterior ring (rectangle, regular polygon, star polygon, L, T/U shape), up to '
       'several holes, per-segment colours, vertex sizes, fixed vertices and edges, constant/linear/bump/step size functions, '
       'translation, scale, input orientation, quad tree parameters. ')

prop('C01', 'The spatial index answers queries exactly as a scan over the stored items',
     'After any history of insertions, removals and moves, a rectangle or radius query on an entity container returns '
     'exactly the stored items whose position lies in the closed rectangle or strictly within the radius, each once; and '
     'size, iteration order and item data are those of the history. This holds for every tree extent, leaf capacity and depth.',
     ['histories', 'inputs', 'configurations'],
     'all histories of insert/remove/move/clear and queries, all tree parameters and positions, including positions on cell borders, duplicates and clusters',
     'No test exercises the quad tree or the container directly; meshing tests only use the default extent with a few dozen items, '
     'so cell-border, merge/split and re-location histories are never reached.',
     [U + 'QuadTree.h', U + 'Container.h'],
     [('split/merge/distribute of leaves', U + 'QuadTree.h'), ('re-location of moved items', U + 'Container.h update()')],
     ['Container::get_items', 'Container iteration', 'QuadTree::get_items/size'],
     [part('h_container', 'index_history', 72000, 720000), part('h_container', 'index_tree', 36000, 360000)],
     'Random operation sequences (up to 60 operations plus bulk insertion of up to 300 items) on a container or a bare tree, compared '
     'with a map after queries and at the end. Non-trivial: at least 3 items are stored at the end and something was removed or moved '
     '(tree: more items than one leaf holds, and removals).',
     ['items outside of the tree extent only have to stay in the list and to be removable'],
     'Model-based histories against a brute-force scan; sampling, no proof. Items exactly on a query circle may be reported either way.')

prop('C02', 'The nearest-item lookup returns an item of minimal distance',
     'For every query point, inside or outside of the indexed area, and every history of the container, the nearest-item lookup returns '
     'a stored item whose distance to the query point is minimal, and nothing if no item is stored.',
     ['histories', 'inputs'],
     'all histories and query points',
     'The lookup is only used indirectly (shared boundary vertices), with query points next to the wanted vertex; no test compares it with a scan.',
     [U + 'QuadTree.h', U + 'Container.h'], [('growing search radius', U + 'QuadTree.h get_nearest()')],
     ['Container::get_nearest'],
     [part('h_container', 'index_nearest', 240000, 2400000)],
     'Random histories, then at least 12 nearest-item queries at cell corners, in clusters and far outside, compared with a scan. '
     'Non-trivial: at least 3 items are stored.',
     [], 'Brute-force oracle; ties may be answered by any minimal item.')

prop('C03', 'Geometric predicates decide exactly on well-separated input',
     'Orientation, point-on-segment, segment crossing/intersection, point-in-element, overlap of triangles and quads with elements, vertices and front edges (inactive elements ignored), rectangle overlap, point-segment '
     'distance and polygon area agree with exact arithmetic for all coordinates on a grid that is coarse against the collinearity tolerance, '
     'including collinear, touching and shared-vertex configurations.',
     ['inputs'], 'all point configurations on grids of different origin and spacing',
     'The predicates have no unit tests of their own; element tests use a handful of axis-aligned configurations.',
     [U + 'Geometry.h', A + 'FacetGeometry.h'], [('sign of the doubled triangle area with an absolute tolerance', U + 'Geometry.h orientation()')],
     ['orientation', 'in_segment', 'line_line_intersection', 'in_triangle', 'Triangle::intersects_*'],
     [part('h_geometry', 'predicates', 500000, 5000000), part('h_geometry', 'overlap', 500000, 5000000)],
     'predicates: 20 configurations of 8 grid points per case, with forced shared points; overlap: up to 3 triangles, 3 quads, 3 front edges and 4 vertices '
     'against a probe triangle and a probe quad. Non-trivial: a positively oriented triangle occurs / something is stored to be hit.',
     ['grids are at least 1/128 wide, far above the absolute tolerance of 1.5e-8 on the doubled area'],
     'Exact 64-bit integer reference; near-degenerate input below the documented tolerance is out of scope.')

prop('C04', 'Element metrics are those of the polygon spanned by the vertices',
     'Centroid, area, edge lengths, angles and their extremes, circumcircle, quality and validity of every triangle and quad are those of the polygon '
     'spanned by its vertices, at creation and after every vertex move followed by an update; vertices know exactly their adjacent elements.',
     ['inputs', 'histories'], 'all non-degenerate triangles and quads (either orientation), sizes and moves',
     'Tests evaluate a single right triangle and square; angles, quality and quads of general shape are not compared with anything.',
     [A + 'Triangle.h', A + 'Quad.h', A + 'FacetGeometry.h'], [('update_metrics()', A + 'Triangle.h, ' + A + 'Quad.h')],
     ['Triangle/Quad getters'],
     [part('h_geometry', 'metrics', 800000, 8000000)],
     'Random triangles and quads in four scales, one vertex move each. Non-trivial: distinct vertices and an area above 1e-3 grid units.',
     ['quads may be concave; degenerate elements are out of scope'], 'Independent computation in extended precision.')

prop('C07', 'A successful triangulation is an exact conforming cover of the domain',
     'Whenever meshing of a valid domain is reported as successful and complete, the elements are positively oriented, do not overlap, leave no gap, '
     'share complete sides, use every vertex, and their union is exactly the domain; the boundary edges cover each boundary segment exactly once and carry its '
     'colour and direction. Element colour, element counts and the reported area agree with the mesh.',
     ['inputs', 'configurations', 'histories'],
     'all valid domains with arbitrary holes, colours, sizes, fixed vertices/edges, and in one go or in portions of elements',
     'Tests mesh about ten fixed domains and compare areas and a few counts; overlap/gap/colour errors that need a certain shape, hole or size contrast are not seen.',
     [A + 'Triangulation.h', A + 'FrontUpdate.h', A + 'Front.h', A + 'MeshBuilder.h', A + 'MeshCleanup.h', A + 'Mesh.h'],
     [('advancing front with validity checks of candidate elements', A + 'FrontUpdate.h'), ('front initialisation from the domain', A + 'Front.h init_front()')],
     ['MeshGenerator::triangulation().generate_elements()', 'mesh containers'],
     [part('h_mesh', 'tri_cover', 3600, 60000, 100)],
     GEN + 'Oracle: side matching of all elements, exact segment coverage, shoelace areas. Non-trivial: the run reported success and a complete mesh; others are discarded.',
     ['meshes reported as incomplete are the subject of C08'], 'Independent whole-mesh oracle; sampling.')

prop('C08', 'Success and completeness are reported truthfully',
     'A mesh that is reported as complete covers its domain exactly, and a mesh that covers its domain exactly is reported as complete: '
     'for difficult size contrasts and arbitrary tuning parameters, after meshing that was limited to a number of elements (which is never exceeded) or done by exhaustive search only, and after elements were removed from a complete mesh.',
     ['inputs', 'configurations', 'histories'],
     'all domains incl. ones too hard for the front to close, all tuning parameters, all removals of elements',
     'Tests check completeness only on meshes that do complete.',
     [A + 'MeshChecker.h', A + 'Triangulation.h', A + 'EntityChecks.h'],
     [('area and connectivity comparison', A + 'MeshChecker.h check_completeness()')],
     ['MeshChecker::check_completeness()', 'generate_elements() result'],
     [part('h_mesh', 'tri_truth', 1200, 16000, 300), part('h_mesh', 'damage', 2400, 24000, 100)],
     GEN + 'tri_truth: element sizes multiplied by up to 6 and random quality/angle/range parameters; damage: 1-3 elements removed from a complete mesh. '
     'Non-trivial: every evaluated case.',
     [], 'The cover oracle of C07 decides both directions; sampling.')

prop('C09', 'Fixed vertices and edges are kept by meshing and post-processing',
     'Every fixed vertex inside of the domain occurs exactly once in a complete mesh, at exactly its coordinates and marked as fixed, and still does after any sequence of conversion to quads, refinement and '
     'smoothing with any settings; along every fixed edge, vertices of the mesh lie on the edge at distances bounded by about twice the local element size.',
     ['inputs', 'histories'], 'all domains with fixed vertices and edges in their interior, all post-processing histories',
     'Two tests with two or three fixed vertices each.',
     [A + 'Domain.h', A + 'MeshBuilder.h', A + 'FrontInitData.h', A + 'Front.h', A + 'SmoothingStrategy.h'],
     [('fixed vertices enter the front', A + 'MeshBuilder.h prepare_mesh()'), ('fixed flag blocks moves', A + 'SmoothingStrategy.h')],
     ['mesh vertices and their flags'],
     [part('h_mesh', 'fixed', 6000, 100000, 100)],
     GEN + 'Every case has at least one fixed vertex and up to 4 post-processing steps. Non-trivial: meshing reported success.',
     ['fixed vertices keep a distance of 0.7 element sizes to boundaries and to each other'], 'Direct comparison; sampling.')

prop('C10', 'Quad layers extend to a valid conforming mesh',
     'After any sequence of quad-layer requests along boundary vertices, with any number of layers, first height and growth rate, the created elements are positively oriented, '
     'and if the following triangulation reports a complete mesh, it is an exact conforming cover with correct adjacency, also after conversion, smoothing or refinement. '
     'Where the boundary is straight or convex and the layer small against its edges, the rows are parallel to the boundary at exactly the requested first height times powers of the growth rate, in the requested number, '
     'and their vertices are marked as layer vertices.',
     ['inputs', 'histories', 'configurations'], 'all domains, start/end vertices, layer numbers, heights, growth rates and follow-up operations',
     'A few fixed layer set-ups on rectangles and an airfoil.',
     [A + 'QuadLayering.h', A + 'Triangulation.h'], [('projection, quad creation, closing of gaps', A + 'QuadLayering.h')],
     ['quad_layer_generation().generate_elements()', 'mesh containers'],
     [part('h_mesh', 'qlayer', 3200, 60000, 100), part('h_mesh', 'layer_shape', 1600, 30000, 100)],
     GEN + 'One or two layers between random vertices of random rings, 1-4 rows, height 5-40 % of the element size, growth 1-1.5. Non-trivial: the mesh is complete and contains quads. '
     'layer_shape: rectangles and regular polygons as domain or hole, closed or open layers of 1-4 rows, growth 1-1.5; non-trivial: at least one row vertex is predicted.',
     ['when several layers overlap, only the completed mesh is judged'], 'Whole-mesh oracle; sampling.')

prop('C11', 'Conversion to quads merges pairs of triangles and changes nothing else',
     'Tri-to-quad conversion leaves all vertices and boundary edges as they are, every new element is a convex quad that is the union of two former neighbouring triangles, all other elements '
     'stay, elements keep their colours and only triangles of the same colour are merged, and the mesh remains an exact conforming cover with correct adjacency; a substantial share of the triangles is merged.',
     ['inputs'], 'all complete meshes',
     'One test compares counts for a square.',
     [A + 'ModificationStrategy.h', A + 'MeshCleanup.h'], [('best-edge merging', A + 'ModificationStrategy.h')],
     ['tri2quad_modification().modify()', 'mesh containers'],
     [part('h_mesh', 't2q', 4800, 50000, 100)],
     GEN + 'Optionally with several element colours. Non-trivial: at least one quad was created.', [], 'Before/after comparison plus whole-mesh oracle; sampling.')

prop('C12', 'Quad refinement subdivides every element and keeps the domain',
     'Refinement turns each triangle into three and each quad into four quads, keeps all vertices, adds exactly the midpoints of all edges and one vertex per element, halves '
     'every boundary edge keeping its colour, gives each sub-element the colour of the element it is part of, and yields an exact conforming cover with correct adjacency; it can be repeated.',
     ['inputs', 'histories'], 'all complete triangular or mixed meshes, repeated refinement',
     'One test refines a square and checks the area.',
     [A + 'RefinementStrategy.h', A + 'MeshCleanup.h'], [('edge and element splitting', A + 'RefinementStrategy.h')],
     ['quad_refinement().refine()', 'mesh containers'],
     [part('h_mesh', 'refine', 4800, 48000, 100)],
     GEN + 'Optionally converted to mixed meshes first, refined once or twice. Non-trivial: every evaluated case.',
     [], 'Count laws, midpoint lookup and whole-mesh oracle; sampling.')

prop('C13', 'Smoothing moves only free vertices and never breaks the mesh',
     'Any number and kind of smoothing passes leave connectivity, colours, boundary and fixed vertices exactly unchanged and keep all coordinates finite; the mesh remains an exact conforming '
     'cover with positively oriented elements and up-to-date element data, convex quads stay convex; vertices of quad layers stay in place, or keep their distance to the boundary if the layers are to be smoothed as well. '
     'A Laplace pass moves the free vertices, in their order, by the relaxation factor times their offset from the mean of the other vertices of their elements wherever the elements stay valid; '
     'several passes equal single passes with accordingly damped factors; a torsion pass with angle factor zero moves nothing.',
     ['inputs', 'histories', 'configurations'], 'all complete meshes (triangular, mixed, refined), all smoothing kinds, orders and iteration numbers',
     'One test smooths a square and looks at the area.',
     [A + 'SmoothingStrategy.h'], [('move validation', A + 'SmoothingStrategy.h')],
     ['laplace/torsion/mixed_smoothing().smooth()', 'mesh containers'],
     [part('h_mesh', 'smooth', 2400, 50000, 100), part('h_mesh', 'smooth_law', 2000, 40000, 100)],
     GEN + 'Optionally with quad layers, several colours, conversion, refinement; one to three rounds of 1-6 iterations with default or random parameters; smooth_law: one Laplace pass against an independent computation, and n passes against n single passes. Non-trivial: some vertex moved.', [], 'Before/after comparison plus whole-mesh oracle; sampling.')

prop('C21', 'Meshing is deterministic',
     'The same problem and the same operations give bit-for-bit the same mesh, whatever was meshed before or in between in the same process and whatever the memory contained.',
     ['inputs', 'histories'], 'all problems, pipelines and interleaved other work',
     'No test runs a problem twice.',
     [A + 'MeshGenerator.h', A + 'Triangulation.h', U + 'Container.h'], [('insertion-ordered containers, no address-dependent order', U + 'Container.h')],
     ['mesh containers'],
     [part('h_mesh', 'determinism', 1600, 30000, 100), part('h_multi', 'gen_history', 2000, 30000, 100)],
     GEN + 'determinism: up to three operations, another random problem in between, heap memory pre-filled with different patterns; gen_history: the same mesh made by a fresh generator and by one with a history of other meshes, merges and algorithms. Non-trivial: meshing reported success.', [], 'Exact comparison of dumps; sampling.')

prop('C22', 'Simple polygons with constant element size are always meshed',
     'For a simple polygon without holes, with constant element size not larger than its features, meshing terminates, reports success and a complete mesh.',
     ['inputs'], 'all simple polygons of the generated families and element sizes',
     'Tests mesh a few rectangles, circles and triangles.',
     [A + 'Triangulation.h', A + 'FrontUpdate.h'], [('wide search when no regular element fits', A + 'Triangulation.h')],
     ['generate_elements() result', 'check_completeness()'],
     [part('h_mesh', 'tri_success', 36000, 360000, 100)],
     GEN + 'Restricted to one ring, no fixed vertices, constant size. Non-trivial: every case.',
     ['termination is judged by a CPU limit of 100 s per case (typical: 10 ms)'], 'Sampling; the family was never observed to fail.')

prop('C05', 'Boundary shapes describe exactly the given ring',
     'For every predefined shape, coordinate list or CSV boundary, in either input orientation, the boundary is the closed simple ring of the given vertices, traversed counter-clockwise for exterior and '
     'clockwise for interior boundaries, in connected order; each edge keeps the colour of the segment it was given for, each vertex its size and range, and the enclosed area is that of the polygon.',
     ['inputs', 'histories'], 'all shapes, sizes, orientations, start vertices, colours, vertex sizes, several boundaries in one domain that may share vertices',
     'Tests build about five fixed shapes and compare vertex counts.',
     [A + 'Boundary.h', A + 'EdgeList.h', A + 'Domain.h'], [('shape creation and orientation', A + 'Boundary.h create_boundary_shape()')],
     ['Boundary edges', 'Boundary::area()', 'Vertex::mesh_size/size_range'],
     [part('h_domain', 'shapes', 24000, 240000)],
     'One to five boundaries per domain, shapes rectangle/square/circle/triangle/coordinates/CSV at four scales. Non-trivial: see the label counts; more than one boundary.',
     [], 'Direct comparison with the input ring; sampling.')

prop('C06', 'Boundaries are discretised according to the local element size',
     'Preparing a mesh splits every boundary segment into consecutive, collinear, equally coloured edges whose number follows the integral of the reciprocal element size along the segment, '
     'none much longer than the local element size; end points are kept exactly and no vertex leaves its segment.',
     ['inputs'], 'all domains, size functions and vertex sizes',
     'Tests compare one or two edge counts for a constant element size.',
     [A + 'Front.h', A + 'MeshBuilder.h'], [('predictor-corrector placement along a segment', A + 'Front.h create_sub_vertex_coords()')],
     ['Mesh::boundary_edges() after new_mesh'],
     [part('h_domain', 'bdry_size', 48000, 480000)],
     GEN + 'Non-trivial: at least two segments are split.',
     ['the number n of pieces has to satisfy 0.6 I - 1.1 <= n <= 1.6 I + 1.6 with I the integral of 1/size, a piece may be 2.6 times the largest local size: the discretisation is documented as approximate'],
     'Exact cover oracle for position and colour, tolerance band for the number of pieces; sampling.')

prop('C14', 'Meshes of neighbouring domains conform, and merging them is the union of both',
     'If domains share boundary stretches and are meshed one after the other with one generator, both sides of a shared stretch carry the same vertices and edges: every interface edge has a twin with '
     'reversed end points in the neighbour mesh, and both refer to each other. Merging a neighbour leaves exactly the union of the elements of both meshes with their colours, every shared vertex once, shared edges as '
     'interior edges and all remaining boundary and interface edges as they were. Merging meshes that do not touch and refining a mesh with interfaces is refused and changes nothing; later post-processing keeps the joint area covered.',
     ['inputs', 'histories'], 'all strips and grids of up to nine domains with shared, partially shared and touching sides, mesh pipelines, merge orders and post-processing',
     'The tests merge two fixed pairs of meshes and look at element counts; no test checks twins, vertex sharing, partial contact, colours or merge orders.',
     [A + 'MeshGenerator.h', A + 'MeshMerger.h', A + 'FrontInitData.h', A + 'Mesh.h'],
     [('collection of neighbour edges', A + 'FrontInitData.h get_neighbor_mesh_edges()'), ('element transfer', A + 'MeshMerger.h')],
     ['Mesh::interface_edges', 'Mesh elements, vertices, boundary edges before and after merge_meshes()'],
     [part('h_multi', 'multi', 4000, 80000, 100), part('h_multi', 'multi_grid', 4000, 80000, 100)],
     'multi: two or more domains joined along full or partial sides, random pipelines per mesh, random merge order, then refinement, conversion or smoothing; multi_grid: 3 x 3 blocks with all neighbour relations, including '
     'contact in a single point. Non-trivial: at least one interface edge exists and a merge happened.',
     ['neighbouring domains share boundary vertices at the ends of their contact'], 'Exact comparison of vertex pairs, elements and colours before and after; sampling.')

prop('C20', 'The element size is the minimum of the user function and all local refinements',
     'At every point, the size used for meshing is positive, never larger than the user function, equal to the documented blend of user function, boundary vertices, boundary edge lengths '
     'and sized fixed vertices, at a vertex with a size not larger than this size; the exported size grid holds exactly these values.',
     ['inputs'], 'all domains, size functions, vertex sizes and query points in and around the domain',
     'One test checks a constant size function.',
     [A + 'Domain.h', A + 'Vertex.h'], [('exponential blending', A + 'Domain.h size_function()')],
     ['Domain::size_function', 'Domain::export_size_function'],
     [part('h_domain', 'sizefn', 240000, 2400000)],
     GEN + '20 query points per case, at vertices, fixed vertices, and around the domain. Non-trivial: some value is below 99 % of the user function.',
     [], 'Independent evaluation of the blend; sampling.')

prop('C23', 'CSV boundary files are read exactly or refused',
     'A well-formed boundary file yields exactly its rows (coordinates, colour, optional size and range, further columns ignored); a file with a malformed, missing, out-of-range or '
     'negative-colour entry and a missing file raise an error and never yield a partial boundary.',
     ['inputs'], 'all files of up to 30 rows in different number formats, with at most one malformed row',
     'Tests read one well-formed file.',
     [A + 'Boundary.h'], [('row parsing', A + 'CSVBoundaryReader.h')],
     ['CSVBoundaryReader getters and exceptions'],
     [part('h_domain', 'csv', 300000, 3000000)],
     'Rows with integers, decimals, exponents, signs, blanks; malformations: missing columns, words, negative colours, empty cells, overflow. Non-trivial: at least two rows.',
     ['comment lines are not part of the format'], 'Round trip from rows to text and back; sampling.')

prop('C25', 'Edge lists and their vertices stay consistent under any edit history',
     'After any sequence of adding, inserting, removing and splitting edges and moving vertices, the list holds exactly the expected edges in order with their colours and flags, edge metrics are those of the '
     'current vertex positions, vertices know exactly their edges, look-ups by vertex, direction, position and radius and the next/previous relation agree with a scan; oriented lists refuse unconnected edges.',
     ['histories', 'inputs'], 'all edit histories of up to 40 operations on up to 10 (plus split) vertices',
     'One test of about ten fixed operations.',
     [A + 'EdgeList.h', A + 'Edge.h', A + 'Vertex.h'], [('edge-vertex registration', A + 'Edge.h'), ('edge splitting', A + 'EdgeList.h split_edge()')],
     ['EdgeList and Edge getters'],
     [part('h_domain', 'edgelist', 240000, 2400000)],
     'Model-based: a vector of (vertex, vertex, colour, flag) is kept in parallel and compared after every operation. Non-trivial: more than four operations with a removal, split or move.',
     [], 'Reference model; sampling.')

prop('C27', 'Point location agrees with the geometry of the domain',
     'A point is reported inside of a boundary exactly if it lies inside of the ring or on it, and inside of the domain exactly if it lies inside of the exterior and outside of all interior rings; '
     'the domain area is the exterior area minus the holes, and its extent is the bounding box of its vertices.',
     ['inputs'], 'all domains and points that are not within 2e-6 of the extent of a boundary, plus ring vertices and points on segments',
     'A handful of fixed points in two shapes.',
     [A + 'EdgeList.h', A + 'Domain.h'], [('ray casting', A + 'EdgeList.h is_inside()')],
     ['Domain::is_inside', 'Boundary::is_inside', 'Domain::area', 'Domain::extent'],
     [part('h_domain', 'inside', 240000, 2400000)],
     GEN + '40 points per case: anywhere, level with vertices, close to segments. Non-trivial: more than two points on each side.',
     [], 'Extended-precision crossing count; sampling.')

prop('C28', 'Invalid domains are recognised and never meshed',
     'A domain without exterior boundary, with an open or empty boundary, or with boundaries that cross themselves or each other is reported invalid, no mesh is prepared for it and meshing reports failure; '
     'every domain of disjoint simple rings is reported valid.',
     ['inputs'], 'all domains whose rings either clearly cross or keep a distance of 1e-4 of the extent',
     'One test with two crossing boundaries.',
     [A + 'EntityChecks.h', A + 'EdgeList.h', A + 'MeshBuilder.h'], [('crossing search', A + 'EdgeList.h intersects_self(), intersects_edgelist()')],
     ['EntityChecks::check_domain_validity', 'MeshGenerator::new_mesh', 'generate_elements()'],
     [part('h_domain', 'validity', 240000, 2400000)],
     GEN + 'Six kinds: untouched, no boundary, no exterior, two ring vertices swapped, an additional ring, one edge left out. Non-trivial: all but untouched and no boundary.',
     ['touching or nearly touching boundaries are not judged', 'a ring outside of the exterior boundary or nested in a hole is not judged as invalid'],
     'Exact segment intersection test; sampling.')

prop('C15', 'Vertices, edges and elements of a mesh refer to each other consistently',
     'At any point of a meshing pipeline, each vertex knows exactly the edges and elements that use it, every element side has exactly one edge, and after the connectivity refresh that every export and modification performs, '
     'each edge knows exactly the elements on its two sides, each element its neighbour behind every side, and indices number the entities in file order; all entities are found by range queries at their position.',
     ['inputs', 'histories'], 'all problems and all sequences of layers, partial and complete triangulation, conversion, refinement and smoothing',
     'Tests look at neighbours of two hand-made meshes; references that go stale in longer pipelines are never looked at.',
     [A + 'MeshCleanup.h', A + 'Vertex.h', A + 'Edge.h', A + 'Triangle.h', A + 'Quad.h', A + 'Mesh.h'],
     [('connectivity refresh', A + 'MeshCleanup.h setup_facet_connectivity()'), ('registration of entities at their vertices', A + 'Edge.h, ' + A + 'Triangle.h, ' + A + 'Quad.h')],
     ['Vertex::edges/facets', 'Edge::facet_l/facet_r', 'Facet::neighbor', 'get_interior_edge/get_boundary_edge', 'Container::get_items'],
     [part('h_out', 'connectivity', 8000, 80000, 100)],
     GEN + 'One to seven steps: quad layers, a limited number of triangles, complete triangulation, then conversion, refinement, smoothing; checked after every step. Non-trivial: at least six elements exist at the end.',
     [], 'Adjacency is rebuilt from the elements alone and compared; sampling.')

prop('C16', 'The text file is a lossless image of the mesh and its neighbours',
     'A text export that reports success has written all vertices (five decimals), elements with colours, boundary edges with colours, interior, interface and front edges, neighbours and the size function at each vertex, '
     'of exactly the current mesh, and all indices in it agree with each other; interface edges name the element and colour on the other side of the neighbour mesh in its own numbering. A file that could not be written is reported as failure.',
     ['inputs', 'histories', 'fault_sequences'], 'all pipelines of one or several meshes, written at any point of their history, complete or not; missing directories and full devices',
     'No test reads an exported file.',
     [A + 'MeshWriter.h', A + 'Mesh.h', A + 'MeshCleanup.h'], [('text output', A + 'Mesh.h operator<<'), ('refresh before output', A + 'MeshWriter.h write()')],
     ['the written file', 'MeshWriter::write() result'],
     [part('h_out', 'txt', 3000, 60000, 100), part('h_multi', 'multi_files', 2400, 40000, 100), part('h_out', 'write_failure', 600, 4000, 100)],
     GEN + 'txt: one mesh, one to three exports along its pipeline; multi_files: grids of up to nine meshes with merges, exports in between; write_failure: missing directory, directory in the way, full device. '
     'Non-trivial: at least six elements / an interface to an existing neighbour element is written / every case.',
     ['coordinates are written with five decimals, so that is the precision of the round trip'], 'Independent parser, self-consistency of the file and comparison with the mesh; sampling.')

prop('C17', 'The VTU file is a lossless image of the mesh',
     'A VTU export that reports success is well-formed, its points, connectivity, offsets and cell types are exactly those of the current mesh, and its point and cell data (size function, layer and fixed flags, colour, largest edge, '
     'largest angle, quality) are those of the vertices and elements.',
     ['inputs', 'histories'], 'all pipelines, exported at any point',
     'No test reads an exported file.',
     [A + 'MeshWriter.h', U + 'VtkIO.h'], [('array assembly', A + 'MeshWriter.h write_to_vtu()'), ('XML output', U + 'VtkIO.h')],
     ['the written file'],
     [part('h_out', 'vtu', 6000, 60000, 100)],
     GEN + 'One to three exports along a pipeline. Non-trivial: at least six elements.',
     ['data arrays are written with six significant digits'], 'Independent parser and recomputation of the data; sampling.')

prop('C24', 'Conversion for OpenFOAM yields a valid extruded mesh',
     'For every complete text mesh, the conversion script writes a valid polyMesh: points are the mesh vertices at both heights, every face is an outward face of its owner and an inward face of its neighbour, owner index below neighbour index, '
     'interior faces in upper-triangular order, every cell is closed, and the patches are consecutive, cover all boundary faces and hold exactly the edges of one marker each, in ascending order of the markers, followed by base and top.',
     ['inputs'], 'all complete meshes of triangles and quads, any markers, extrusion heights',
     'The script has no tests.',
     ['scripts/convert2foam.py'], [('sorting of faces and patches', 'scripts/convert2foam.py TQMesh, OpenFOAMMesh')],
     ['points, faces, owner, neighbour, boundary files'],
     [part('h_out', 'foam', 500, 6000, 100)],
     GEN + 'The text export of a random pipeline is converted, with and without extrusion option. Non-trivial: every converted case.',
     ['one mesh per file'], 'Independent reader; faces are rebuilt from the elements of the text file; sampling.')

prop('C26', 'No operation touches memory it does not own',
     'Whatever is built, meshed, modified, merged, removed and exported, in whatever order, and also for invalid domains, refused operations and failed meshing, no code reads or writes freed, uninitialised-by-ownership or out-of-bounds memory, '
     'overflows or performs another undefined operation, and no operation ends the process.',
     ['inputs', 'histories', 'fault_sequences'], 'all problems and histories of the other properties',
     'The test suite runs without sanitizers and on a few short histories; stale pointers between vertices, edges, elements, front and neighbouring meshes only arise in longer ones and usually go unnoticed.',
     [U + 'Container.h', U + 'QuadTree.h', A + 'Vertex.h', A + 'Edge.h', A + 'EdgeList.h', A + 'Front.h', A + 'FrontUpdate.h', A + 'MeshGenerator.h', A + 'MeshMerger.h', A + 'MeshCleanup.h', A + 'QuadLayering.h', U + 'VtkIO.h'],
     [('ownership by containers, deferred deletion', U + 'Container.h clear_waste()'), ('raw pointers between entities', A + 'Vertex.h, ' + A + 'Edge.h, ' + A + 'Facet.h'), ('twin edges between meshes', A + 'MeshMerger.h')],
     ['AddressSanitizer and UndefinedBehaviorSanitizer on the library code', 'process exit'],
     [asan('h_multi', 'multi_grid', 160, 12000), asan('h_multi', 'multi_files', 120, 8000), asan('h_multi', 'gen_history', 120, 8000),
      asan('h_out', 'connectivity', 240, 12000), asan('h_out', 'vtu', 80, 4000), asan('h_out', 'txt', 80, 4000),
      asan('h_mesh', 'qlayer', 240, 12000), asan('h_mesh', 'smooth', 120, 6000), asan('h_mesh', 'tri_truth', 80, 3000), asan('h_mesh', 'damage', 80, 4000), asan('h_mesh', 'cleanup', 240, 12000), asan('h_mesh', 'domain_edit', 120, 6000), asan('h_mesh', 'smooth_law', 80, 3000),
      asan('h_domain', 'edgelist', 1200, 40000), asan('h_domain', 'validity', 400, 20000), asan('h_domain', 'csv', 800, 30000), asan('h_domain', 'shapes', 800, 30000),
      asan('h_container', 'index_history', 1200, 40000), asan('h_container', 'index_tree', 800, 30000),
      asan('h_para', 'para', 800, 30000), asan('h_para', 'para_bytes', 1600, 60000)],
     'The generators of C01, C05, C08, C10, C13-C18, C21, C23, C25 and C28-C30 run against a build with AddressSanitizer and UndefinedBehaviorSanitizer; only crashes, sanitizer reports and process exits count here. Non-trivial as in those properties.',
     ['memory leaks are not judged', 'reads of uninitialised memory are only seen if they change a result or an address'],
     'Sanitizers as oracle on generated histories; sampling.')

prop('C29', 'Mesh clean-up merges exactly the degenerate element pairs',
     'The clean-up functions merge two quads that share two consecutive edges to the quad around both, a quad and a triangle that share two edges to the triangle around both, and three triangles around a vertex to the one triangle around them, '
     'wherever and however often such configurations occur in a mesh; the vertex and edges in between disappear and the new element has the colour of the old ones. Pairs of different colours and vertices that are fixed stay, as does everything else, '
     'and all references between vertices, edges and elements are up to date afterwards.',
     ['inputs', 'histories'], 'all complete meshes with any number of split elements, all sequences of clean-up calls',
     'One test per function on a hand-made mesh with a single such configuration.',
     [A + 'MeshCleanup.h'], [('pair search', A + 'MeshCleanup.h clear_double_quad_edges(), clear_double_triangle_edges()'), ('vertex search', A + 'MeshCleanup.h merge_degenerate_triangles()')],
     ['mesh containers', 'Edge::facet_l/facet_r', 'Facet::color'],
     [part('h_mesh', 'cleanup', 16000, 160000, 100)],
     GEN + 'Up to twelve quads and triangles of a complete mesh are split by additional vertices (also repeatedly, with rotated vertex order, with fixed vertices and different colours), then all or some clean-up functions run. Non-trivial: at least one split has to be undone.',
     [], 'Round trip: clean-up has to restore the elements before the split, bit by bit; sampling.')

prop('C30', 'A domain is what its editing history leaves',
     'Boundaries, fixed vertices and fixed edges can be added, inserted and removed in any order: after every step the lists of the domain hold exactly what was added and not removed, in their order, with their geometry, colours, sizes and flags; '
     'area and shared segments are those of the boundaries that are left; and a domain from which everything superfluous was removed again has the size function, the inside and the mesh (bit for bit) of a domain that was defined at once.',
     ['histories', 'inputs'], 'all histories of add/insert/remove of boundaries, fixed vertices, fixed edges and vertices',
     'Tests only ever add to a domain.',
     [A + 'Domain.h', A + 'Boundary.h', A + 'EdgeList.h', U + 'Container.h'], [('removal from the lists', A + 'Domain.h remove_boundary(), remove_fixed_vertex(), remove_fixed_edge()'), ('edges of vertices', A + 'Vertex.h')],
     ['Domain::size, operator[], fixed_vertices(), fixed_edges(), area(), count_edge_overlaps(), size_function(), is_inside()', 'generate_elements()'],
     [part('h_mesh', 'domain_edit', 16000, 160000, 100)],
     GEN + 'The parts of the problem are added in random order, interleaved with up to 14 edits by other parts, which are removed in random order. Non-trivial: something was removed.',
     ['vertices of removed boundaries stay in the vertex list of the domain'], 'Model after every step, equality with the domain defined at once at the end; sampling.')

prop('C31', 'Vector, matrix and scalar helpers compute what their names say',
     'Element-wise and scalar vector operators (also with one of the vector\'s own entries as the scalar), negation, dot and cross product, norm, sum, product, extrema, angle, equality and copies equal the entry-by-entry definition for every '
     'dimension and entry type; MOD, CLAMP, ABS, MIN, MAX, EQ, argsort and string splitting match their definitions; matrices keep every entry at its row and column through construction, copy, move and swap (which exchanges entries and dimensions of both).',
     ['inputs'], 'all vectors of 2 to 5 entries, integer and floating point; all small matrices, index lists and strings',
     'The utility library has no tests in this repository; everything else rests on it.',
     [U + 'VecND.h', U + 'MathUtility.h', U + 'Matrix.h', U + 'StringOps.h'], [('std::transform/accumulate over the entries', U + 'VecND.h')],
     ['VecND operators and members', 'MOD, CLAMP, EQ, argsort, split', 'Matrix'],
     [part('h_geometry', 'vectors', 600000, 6000000)],
     'One vector pair, ten scalar tuples, one list, one string and one matrix pair per case, entries exactly representable. Non-trivial: the vectors differ.',
     ['entries are small multiples of 1/8, so that every sum and product is exact'], 'Plain loops as the oracle, exact comparison (angles: 1e-7).')

prop('C32', 'The plot script draws exactly the mesh in the file',
     'For every text file of one or several meshes, complete or not, and every combination of the documented flags, the plot script draws every element once with its vertices in order, and, on request, all boundary edges, remaining front edges, vertices with their '
     'indices, element indices at the centroids and the size function at every vertex; with colours, two elements look the same exactly if they have the same colour, across triangles, quads and meshes; the picture covers the extent of all meshes.',
     ['inputs', 'configurations'], 'all text meshes (also partially meshed and several in one file), element colours and flag combinations',
     'The script is not run by any test, and a wrong picture does not fail.',
     ['scripts/plot_mesh.py'], [('sections of the mesh with a given id', 'scripts/plot_mesh.py io_read_*()'), ('face colours', 'scripts/plot_mesh.py plot_triangles(), plot_quads()')],
     ['what is added to the axes when the figure is saved'],
     [part('h_out', 'plot', 960, 9600, 100)],
     GEN + 'One or two meshes are brought to a random stage, exported, given random element colours and plotted with random flags. Non-trivial: the script ran.',
     ['the plotting library (not installed here) is replaced by a recorder of the drawing calls; element colours are at most 12 different ones'], 'The recorded drawing is compared with an independent reading of the file; sampling.')

prop('C18', 'The parameter file reader returns exactly what the file says',
     'For every parameter file, repeated queries of a scalar, vector, matrix or block parameter return its occurrences in file order with exactly the written values, then nothing more: independent of the order of parameters and queries, '
     'of blank lines, indentation, brackets and comments (also trailing ones and comments that contain keys, numbers or commas). Parameters of a block only see that block, missing entries take the default where one is given, '
     'a vector with too few entries or a scalar that is no number is not found, and a list or block without end is an error. No file crashes the reader or makes queries endless.',
     ['inputs', 'histories'], 'all files and all sequences of queries',
     'One test reads one file with two blocks.',
     [U + 'ParaReader.h'], [('key search', U + 'ParaReader.h get_query_data()'), ('block and matrix bounds', U + 'ParaReader.h query(), query_matrix()'), ('comment removal', U + 'ParaReader.h read_content()')],
     ['ParaReader::query', 'Parameter::get_value/rows/columns'],
     [part('h_para', 'para', 40000, 600000), part('h_para', 'para_open', 8000, 40000), part('h_para', 'para_bytes', 20000, 300000)],
     'para: one to four parameters of the file, one to five of a block, up to six occurrences each in the file and in up to three blocks, printed with random layout, comments and blank lines, then queried in random interleaving and compared with the model; '
     'para_open: files whose last list or block does not end; para_bytes: fragments of the grammar and arbitrary bytes. Non-trivial: at least two occurrences / something stays open / more than five fragments.',
     ['one key per line, keys are not part of each other'], 'Model-based; sampling.')

prop('C19', 'The application meshes what the parameter file describes, and its exit status tells the truth',
     'For every parameter file of a solvable problem, in any layout, the application exits with status 0 and writes, for each mesh block, the mesh of exactly the described domain with the described colours, sizes, fixed vertices and edges, quad layers, algorithm, '
     'refinement and smoothing, each mesh joined with the previous one, in the requested format: the file is the one the library produces for the same calls. If a mandatory entry is missing or anything referred to does not exist, is malformed or cannot be written, '
     'the status is not 0, and the application neither crashes nor hangs.',
     ['inputs', 'configurations', 'fault_sequences'], 'all parameter files of one or two meshes, all ways to define boundaries, all layouts; one fault per file',
     'The application has no tests.',
     ['src/app/TQMeshApp.h', 'src/app/main.cpp', 'src/app/size_function.cpp', U + 'ParaReader.h'],
     [('translation of parameters to library calls', 'src/app/TQMeshApp.h MeshConstruction'), ('size function expression', 'src/app/size_function.cpp'), ('exit status', 'src/app/main.cpp')],
     ['exit status', 'written files', 'standard output'],
     [part('h_app', 'app', 900, 20000, 120, app=True), part('h_app', 'app_reject', 700, 6000, 60, app=True)],
     GEN + 'Rings are given by edges, coordinates, CSV file or shape; sections are shuffled, comments and blank lines inserted; half of the problems with a hole get a second mesh in the hole. Output is compared byte by byte with the library pipeline (where the size '
     'expression is exact) and, as text file, with the geometry. app_reject: 16 kinds of faults, in the first or second mesh. Non-trivial: the library solves the problem / a fault is present.',
     ['the quad tree extent chosen by the application is part of the reference', 'estimated size at most 6000 elements', 'lists or vectors with a wrong number of entries are not judged'],
     'Differential against the library, which C01-C17 judge, plus geometric oracle; sampling.')
