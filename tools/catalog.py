"""The properties, in one place."""
MON = 'runtime monitoring: '
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, observe, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech,
                      observe=observe, technique=MON + technique, note=note, **{'for': text}))


COMMON = 'Holds on the executions produced (counts in the evidence file), not for all inputs. '

P('M01', 'Refinement forests stay consistent under any history of splits and deletions',
  'After any sequence of splitting, deleting, marking and unmarking nodes, every node\'s parent, depth, position and '
  'address agree with its place in the tree, and splitting or deleting one node leaves all other nodes alone. '
  'Traversals in every order visit exactly the nodes that exist (or that carry the requested mark), each once, parents before '
  'children; leaf queries return exactly the childless nodes, or the finest marked nodes, once each. '
  'Looking a node up by its address returns that node, or nothing when it does not exist.',
  ['histories', 'inputs'],
  'all histories of split / delete / mark / unmark / uniform refinement on regular, irregular and mesh-cell trees with any '
  'number of children, every traversal mode, every mark',
  'The tests build a handful of fixed two-level trees; the guarantees concern every history and every mark pattern.',
  ['src/mesh.py'],
  [('parent/child links, depth and address', 'mesh.py Tree.__init__, split, delete_children, add_child'),
   ('traversals and leaves', 'mesh.py Tree.traverse, get_leaves, Forest.traverse, get_leaves'),
   ('lookup', 'mesh.py Tree.find_node, Forest.find_node, nearest_ancestor, contains')],
  ['public queries of trees and forests after every operation'],
  'every query compared after every operation with an executable reference forest',
  COMMON + 'Trees enter the forest unsplit and are not removed from it.')

P('M02', 'Labelled submeshes follow their semantics under refinement and coarsening',
  'Recording, refining, coarsening and rooting a labelled submesh change exactly the labels and nodes those operations stand for: '
  'refining replaces the marked leaves of the submesh by their children, coarsening replaces the children by their parent, '
  'a new label leaves the old submesh as it was, and rooting adds exactly the missing ancestors and siblings. '
  'Other submeshes keep their labels and leaves, clean-up removes only nodes that no submesh needs, and temporary marks do not survive. '
  'A submesh is reported to be contained in another exactly when each of its leaves lies on or above the other\'s leaves.',
  ['histories', 'inputs'],
  'all histories of labelled refine / coarsen / record / root operations with several coexisting submeshes on trees, interval '
  'meshes and quad meshes',
  'The tests exercise one or two fixed label histories; interactions between several labels over long histories are unreached.',
  ['src/mesh.py'],
  [('submesh refinement and coarsening', 'mesh.py Forest.refine, Forest.coarsen, Tree.coarsen'),
   ('rooting and recording', 'mesh.py Forest.root_subtrees, subtrees_rooted, record'),
   ('containment', 'mesh.py Forest.is_contained_in')],
  ['labels of all nodes, leaf sets of all submeshes, containment answers after every operation'],
  'label sets compared after every operation with an executable reference model',
  COMMON + 'Coarsening without a coarsening flag is issued only where no other submesh is finer.')

P('M03', 'The leaves of every submesh tile the domain',
  'The finest cells of the mesh, and of every submesh obtained by refinement, cover the domain exactly: their measures sum to '
  'that of the domain, every interior point lies in exactly one of them, and none overlap. '
  'Splitting an interval or quadrilateral bisects it at edge midpoints and centre into children with counter-clockwise vertices, '
  'in a fixed order relative to the parent\'s corners.',
  ['histories', 'inputs'],
  'rectangular, jittered, parallelogram, L-shaped, ring and star-shaped quad meshes, interval meshes and periodic meshes with any '
  'refinement history',
  'Tests check areas of single unit cells; not random submeshes on unstructured meshes.',
  ['src/mesh.py'],
  [('cell splitting', 'mesh.py QuadCell.split, HalfEdge.split, Interval.split'),
   ('grids', 'mesh.py DCEL.rectangular_grid, grid_from_connectivity')],
  ['vertex coordinates, areas, bounding boxes and point containment of leaves'],
  'leaf geometry compared with an independent geometric model (areas, random-point cover counts, bisected corners)',
  COMMON + 'Domain sizes of order one (the code uses absolute tolerances).')

P('M04', 'Edges, twins and shared vertices stay consistent under refinement and coarsening',
  'In every mesh, after any history of splitting and deleting cells, each cell\'s edges form a closed counter-clockwise cycle, and two '
  'edges are each other\'s twin exactly when they are the two sides of the same geometric segment, with reversed end points; boundary edges '
  'have none. '
  'Sub-edges of a split edge are halves of it and are tied to the halves on the other side whenever both exist, also across periodic boundaries. '
  'Geometrically coincident vertices of cells that meet along edges are one shared object.',
  ['histories', 'inputs'],
  'all quad meshes (structured, unstructured, periodic) and interval meshes, with splits and deletions in any order',
  'Tests inspect two-cell examples refined in one order; twin and vertex sharing depends on the order of splits and deletions.',
  ['src/mesh.py'],
  [('twin assignment on split', 'mesh.py HalfEdge.split, make_twin, assign_twin'),
   ('child half-edges and interior edges', 'mesh.py QuadCell.split, delete_children'),
   ('initial pairing', 'mesh.py DCEL.determine_half_edges, make_periodic, Mesh2D.__init__')],
  ['edge cycles, twins, vertices after every operation'],
  'half-edge structure compared with adjacency computed from corner coordinates alone',
  COMMON + 'Periodic meshes with one or more cells per periodic direction.')

P('M05', 'Balancing yields the smallest 2:1-balanced refinement of a submesh',
  'After balancing, edge-neighboring finest cells of the (sub)mesh differ by at most one refinement level, and the balance query says so; the query '
  'answers correctly for every mesh. '
  'Balancing only refines, adds no cell that 2:1 balance does not force, and does nothing when repeated. '
  'Submeshes other than the balanced one keep their leaves.',
  ['histories', 'inputs'],
  'random and strongly graded refinements of structured, unstructured and periodic quad meshes, whole or flagged',
  'Tests balance a single corner-refined example; minimality and cascading over flagged or periodic meshes are not examined.',
  ['src/mesh.py'],
  [('balancing', 'mesh.py QuadMesh.balance, is_balanced'), ('neighbors', 'mesh.py Cell.get_neighbors')],
  ['leaf sets before and after, balance query'],
  'leaf sets compared with a geometric balance closure (least fixed point) computed independently',
  COMMON + 'Neighbors taken across edges, as the library defines balance.')

P('M06', 'Neighbor queries agree with the geometry',
  'Asking a cell for its neighbor across an edge returns the smallest cell of at least its own size that shares this edge, or nothing on the '
  'boundary; about a corner it returns the cells around that corner in the same sense, each once, for interior and boundary corners, also across periodic '
  'boundaries. '
  'With a submesh mark the answers are restricted to cells carrying it. '
  'On interval meshes the neighbor about an end point is the adjacent cell on that side, and the level-wise neighbor the adjacent cell of the same depth.',
  ['histories', 'inputs'],
  'every cell and pivot of structured, unstructured, periodic and interval meshes with any refinement and coarsening history and any marks',
  'Tests query a few cells of one hand-made mesh; wrong answers show only for particular level differences or periodic corners.',
  ['src/mesh.py'],
  [('edge and vertex neighbors', 'mesh.py Cell.get_neighbors, Cell.incident_half_edge'),
   ('interval neighbors', 'mesh.py Interval.get_neighbor'),
   ('periodic pairs', 'mesh.py Vertex.get_periodic_pair, HalfEdge.pair_periodic_vertices')],
  ['answers of neighbor queries'],
  'answers compared with adjacency computed from coordinates (wrapped for periodic meshes)',
  COMMON + 'Periodic meshes with one or more cells per periodic direction.')

P('M07', 'Point location assigns every point to one cell that contains it',
  'Sorting points into the finest cells of a (sub)mesh puts every point of the domain, including points on edges and vertices, into exactly one '
  'bin whose cell contains it, and keeps the index lists a partition of the input. '
  'Locating a single point returns a smallest (marked) cell containing it, or nothing outside the mesh. '
  'Containment tests of cells and edges and the position of a sub-cell or sub-edge within its ancestor agree with the geometry.',
  ['inputs', 'histories'],
  'arbitrary point sets (interior, edges, vertices, boundary, outside, duplicates) on arbitrarily refined flagged meshes in 1D and 2D',
  'Tests bin a few well-placed points; ties on edges and vertices and flagged submeshes are not covered.',
  ['src/mesh.py'],
  [('binning', 'mesh.py QuadMesh.bin_points, QuadCell.bin_points, Mesh1D.bin_points, Interval.bin_points'),
   ('location', 'mesh.py Mesh2D.locate_point'),
   ('containment', 'mesh.py Cell.contains_points, Interval.contains_points, HalfEdge.contains_points'),
   ('sub-cell positions', 'mesh.py QuadCell.subcell_position, Interval.subcell_position, HalfEdge.subcell_position')],
  ['bins, located cells, containment masks, sub-cell coordinates'],
  'bins compared with signed distances to the cells\' edges',
  COMMON + 'Points closer than 1e-9 to a cell\'s boundary may go to either side.')

P('M08', 'Reference maps are the bilinear cell maps, with exact inverses and derivatives',
  'Mapping reference points to a cell or edge gives their images under the (bi)linear interpolation of its corners, and mapping physical points '
  'back inverts it. '
  'The returned Jacobians and second derivatives of the map and of its inverse are the true ones. '
  'Single points, lists and arrays give the same results.',
  ['inputs'],
  'intervals, rectangles with any first corner, parallelograms and convex quadrilaterals, their refined children and edges; any points',
  'Tests evaluate a few cells, mainly axis-aligned; rotated and distorted cells take other code paths.',
  ['src/mesh.py'],
  [('maps', 'mesh.py QuadCell.reference_map, Interval.reference_map, HalfEdge.reference_map'),
   ('rectangle shortcut', 'mesh.py QuadCell.is_rectangle'), ('point normalisation', 'mesh.py convert_to_array')],
  ['mapped points, Jacobians, Hessians'],
  'outputs compared with the closed-form bilinear map and its analytic derivatives',
  COMMON + 'Convex quadrilaterals with corner angles away from 0 and 180 degrees.')


P('M09', 'Marking and querying regions, boundaries and their segments is exact',
  'Marking the cells, half-edges or vertices of a region (given by a condition on points, on all or on boundary entities, strictly or not, '
  'on the whole mesh or a submesh) marks exactly the finest entities that satisfy it, and region queries return exactly these, each once. '
  'Boundary segments are maximal connected head-to-tail chains, one per boundary component, that together contain each boundary half-edge of '
  'the (sub)mesh once, also when filtered by a mark. '
  'Boundary vertices are the end points of those half-edges, each once; a 1D mesh that closes on itself has no boundary.',
  ['inputs', 'histories'],
  'all refined interval and quad meshes (structured, unstructured, with holes, periodic), all submeshes, all regions including empty '
  'ones and everything, all entity types and options',
  'Tests mark one side of a rectangle; segment merging, closed loops, submeshes and holes are not reached.',
  ['src/mesh.py'],
  [('region marking and queries', 'mesh.py Mesh1D/Mesh2D.mark_region, get_region'),
   ('boundary', 'mesh.py Mesh2D.get_boundary_segments, get_boundary_vertices; Mesh1D.get_boundary_vertices, get_boundary_cells')],
  ['marks and returned entities'],
  'returned and marked entities compared with sets computed from the geometry of the leaves',
  COMMON + 'Region conditions are evaluated away from their own boundary.')

P('M10', 'Meshes represent exactly the grid they are built from, with twins and periods',
  'A mesh built from a box with a resolution, a list of points, points with connectivity, or a gmsh file has exactly the given points and cells in '
  'the given order; its half-edges close counter-clockwise around each cell and every two sides of the same edge are twins. '
  'Its neighbors, boundary half-edges, boundary chains and boundary points are those of the grid, and physical tags and elements of gmsh files are preserved. '
  'In periodic directions exactly the opposite boundary edges become twins and exactly the coinciding boundary points become periodic pairs.',
  ['inputs'],
  'all boxes, resolutions and periodic directions, all consistent point/connectivity lists of quads and triangles in any numbering, '
  'with holes and several components, and all first-order gmsh 2.2 files',
  'Tests build a few regular boxes; numbering-dependent edge tables, mixed cells and both-direction periodicity are sampled once at most.',
  ['src/mesh.py'],
  [('grids', 'mesh.py DCEL.rectangular_grid, grid_from_connectivity, grid_from_gmsh'),
   ('edge tables', 'mesh.py DCEL.determine_half_edges, get_neighbor, get_boundary_half_edges, get_boundary_points'),
   ('periodic identification', 'mesh.py DCEL.make_periodic, HalfEdge.pair_periodic_vertices, Vertex.set_periodic_pair, Mesh1D.__init__'),
   ('mesh objects', 'mesh.py Mesh2D/QuadMesh/Mesh1D constructors')],
  ['tables of the DCEL, mesh vertices, cells, half-edges and their twins'],
  'tables and mesh objects compared with an independent edge table of the input grid',
  COMMON + 'Periodic meshes with one or more cells per periodic direction; gmsh files in ASCII format 2.2.')

P('F01', 'Shape functions are the nodal Lagrange basis, with exact derivatives',
  'For every element (DQ0, Q1-Q3, DQ1-DQ3 in 1D and 2D) shape functions are the polynomials that are one in their own reference node and zero in the '
  'others, so they sum to one everywhere. '
  'First and second derivatives on the reference cell, and on physical cells through the reference map, are those of these polynomials, for any number of points, '
  'any subset of local dofs and any list of derivatives. '
  'Constraint coefficients of hanging nodes are the values of the coarse shape functions in the fine nodes.',
  ['inputs'],
  'all elements, all derivatives up to order two, all points, all subsets of local dofs, intervals, rectangles, parallelograms and '
  'general convex quadrilaterals including refined cells',
  'Tests check Q1-Q3 in a few points of the unit cell; derivatives on distorted cells and point-count-dependent code are not covered.',
  ['src/fem.py'],
  [('shape functions', 'fem.py Element.shape, phi, dphi, d2phi'),
   ('nodes and constraint coefficients', 'fem.py QuadFE.reference_nodes, constraint_coefficients'),
   ('derivative codes', 'fem.py parse_derivative_info')],
  ['values of shape functions and derivatives'],
  'values compared with an independent Lagrange basis differentiated by the chain rule',
  COMMON + 'Derivatives on general quadrilaterals to a relative accuracy of 2e-7 (the reference map is inverted by Newton steps).')

P('F02', 'Degree-of-freedom numbering identifies exactly the coinciding nodes',
  'On every balanced mesh and submesh, continuous elements give two cells the same dof exactly when their nodes coincide (also across periodic boundaries), '
  'and discontinuous elements never share dofs between finest cells; dofs are consecutive integers from zero, and unbalanced meshes are rejected. '
  'Numbering further submeshes, or numbering again after refinement, keeps earlier dofs and extends them consistently. '
  'Dofs queried by cell, edge, vertex, interior, region or boundary are exactly those of nodes there, in ascending or reference order, and dof vertices are '
  'the positions of the nodes.',
  ['inputs', 'histories'],
  'all elements, all balanced refined interval and quad meshes (unstructured, periodic), all submeshes and numbering orders, all entity '
  'queries and marks',
  'Tests count dofs on two or three meshes; sharing across levels, orientations and periodic sides depends on the mesh history.',
  ['src/fem.py'],
  [('numbering and sharing', 'fem.py DofHandler.distribute_dofs, share_dofs_with_children, share_dofs_with_neighbors, fill_dofs, assign_dofs'),
   ('queries', 'fem.py DofHandler.get_cell_dofs, get_region_dofs, n_dofs'),
   ('dof vertices', 'fem.py DofHandler.set_dof_vertices, get_dof_vertices')],
  ['dofs of all cells, entity and region queries, dof vertices'],
  'dofs of all cells compared with the coincidence classes of node positions',
  COMMON + 'Periodic meshes with one or more cells per periodic direction.')

P('F03', 'Hanging-node constraints give exactly the continuous functions',
  'For continuous elements on balanced (sub)meshes, the constrained dofs are exactly those on the finer side of an edge that are not shared with the coarser '
  'side; each is supported by the coarse edge\'s dofs with the values of the coarse shape functions there, which sum to one, and no supporting dof is itself '
  'constrained. '
  'Any function that satisfies the constraints is continuous across every edge, and linear functions satisfy them. '
  'Meshes without level differences, discontinuous elements and intervals have no hanging nodes.',
  ['inputs'],
  'Q1-Q3 on all balanced structured, unstructured and periodic quad meshes and all their submeshes',
  'Tests check one or two meshes for Q1/Q2; which edge, orientation and half a node hangs on needs many meshes.',
  ['src/fem.py'],
  [('constraints', 'fem.py DofHandler.set_hanging_nodes, get_hanging_nodes, has_hanging_nodes')],
  ['constraint tables of every submesh, traces of constrained functions on all shared edges'],
  'constraints compared with those derived from edge geometry; jumps of random constrained functions measured on all edges',
  COMMON + 'Meshes are 2:1 balanced across edges.')

P('F04', 'A basis answers for the nearest cell of its own submesh',
  'The dofs of a basis are those of its submesh in ascending order, d2i and i2d are inverse numberings of them, and same_mesh / same_dofs hold exactly for equal mesh, '
  'dof handler and submesh. '
  'On any cell, also finer than the submesh, its local dofs are those of the nearest ancestor in the submesh and it evaluates to that '
  'ancestor\'s shape functions (or the requested derivative) at the same physical points, whether they are given in reference or physical coordinates.',
  ['inputs'],
  'all elements, derivatives, meshes, submeshes, cells and points',
  'Tests evaluate a basis on its own cells only.',
  ['src/fem.py'],
  [('basis', 'fem.py Basis.dofs, d2i, i2d, same_mesh, same_dofs, eval')],
  ['dofs, index maps and values of bases on every cell'],
  'dofs and values compared with the numbering and an independent Lagrange basis on the nearest ancestor',
  COMMON)

P('A01', 'Quadrature rules are exact to their order on every region',
  'Every rule has the advertised number of distinct interior nodes and positive weights and integrates all polynomials up to its order exactly: on the reference '
  'interval, square and triangle, on sub-regions of the reference cell, and mapped to physical intervals, edges and (possibly distorted) quadrilaterals. '
  'Mapped nodes lie in the region and mapped weights carry the region\'s length or area.',
  ['inputs'],
  'all rules with 1-6 nodes per direction on intervals and quadrilaterals, triangle rules with 1, 3, 7 and 13 nodes, all polynomials up to the '
  'order of exactness, all cells and edges',
  'Tests integrate one or two monomials on unit cells; a wrong digit in a node or a missing Jacobian survives.',
  ['src/assembler.py'],
  [('rules', 'assembler.py GaussRule.__init__'),
   ('mapping', 'assembler.py GaussRule.scale_rule, mapped_rule')],
  ['nodes and weights on reference and physical regions'],
  'integrals of random polynomials compared with closed forms and boundary integrals',
  COMMON + 'Triangle rules with negative weights are not required to be positive.')

P('A02', 'Assembled arrays are the sums of their forms over all cells',
  'Every assembled matrix, vector and number equals the sum over the cells of the (sub)mesh of the quadrature of kernel times test times trial function (or their '
  'derivatives), with rows and columns ordered by the dofs of the test and trial space and several forms of the same kind added. '
  'Each of several problems is assembled independently of the others and of the lists they were given in. '
  'The number of Gauss points requested is the one used.',
  ['inputs'],
  'all balanced meshes, submeshes, elements, derivatives, kernels, combinations of forms and problems, and quadrature orders',
  'Tests integrate smooth polynomials on unit cells with matching spaces; mixed spaces, derivatives on distorted cells and several '
  'problems are unreached.',
  ['src/assembler.py', 'src/fem.py'],
  [('local forms', 'assembler.py Form.eval, Assembler.shape_eval'),
   ('accumulation', 'assembler.py Assembler.assemble, AssembledForm.update_cellwise, distribute, consolidate')],
  ['get_matrix, get_vector, get_scalar and their dofs'],
  'arrays compared entry by entry with an independent sum over cells',
  COMMON + 'No Dirichlet or hanging-node elimination (S02).')

P('A03', 'Kernels combine functions, derivatives and samples pointwise',
  'A kernel evaluates to its combination rule applied to the values (or the requested derivatives) of its functions at the given points, whether the functions are explicit, '
  'constant or nodal and whether shape functions are passed along or not; rules that ask for the cell, region, shape functions or dofs get them. '
  'With samples, realization i of the kernel uses realization i of every sampled function and the same value of deterministic ones. '
  'Assembling a sampled form gives, for each realization, the array of that realization, also when sampled and deterministic forms are mixed.',
  ['inputs'],
  'all combinations of function types, derivatives, sample sizes and combination rules in constant, linear and bilinear forms on all meshes '
  'and submeshes',
  'Tests use one nodal or explicit function at a time with one mesh.',
  ['src/assembler.py', 'src/function.py'],
  [('kernels', 'assembler.py Kernel.__init__, eval, set_sample_size'),
   ('samples', 'assembler.py Form.eval, AssembledForm.add_form, update_cellwise, consolidate')],
  ['kernel values, sample sizes and assembled arrays per realization'],
  'kernel values and arrays per realization compared with direct evaluation',
  COMMON)

P('A04', 'Restricted forms integrate exactly over their marked regions',
  'A form restricted by a mark contributes exactly the integrals over the marked cells, half-edges or vertices of the (sub)mesh; without a mark it contributes all of them, '
  'and an empty region contributes zeros without losing rows, columns or samples. '
  'Edge integrals use arc length and the traces of the functions from the cell that owns the half-edge; vertex forms use point values. '
  'Assembling only over the cells with a mark gives the sum over those cells, on the dofs of those cells in ascending order.',
  ['inputs'],
  'all marks on cells, half-edges and vertices, all forms and kernels on all meshes and submeshes',
  'Tests restrict to one boundary side or one cell.',
  ['src/assembler.py'],
  [('regions', 'assembler.py Form.regions, Assembler.shape_info'),
   ('edge and vertex quadrature', 'assembler.py Assembler.shape_eval'),
   ('restricted assembly', 'assembler.py Assembler.assemble(region_flag)')],
  ['regions of forms, assembled arrays and dofs'],
  'arrays compared with independent sums over exactly the marked regions',
  COMMON + 'Vertex forms are exercised at vertices that belong to one cell of the (sub)mesh.')

P('A05', 'Functions from coarser submeshes are assembled on the finer mesh exactly',
  'Test, trial and kernel functions may live on submeshes coarser than the one assembled over: each function then contributes the values of its own coarse shape functions at the '
  'fine quadrature points, and rows and columns carry the coarse dofs. '
  'So the arrays are the sums over the fine cells of quadratures of the actual functions, for example mass and projection matrices between levels. '
  'Bases finer than the assembled submesh are rejected.',
  ['inputs'],
  'all pairs and triples of nested submeshes, elements, derivatives, regions and kernels on all meshes',
  'Tests use one two-level pair of uniform meshes with Q0/Q1.',
  ['src/assembler.py', 'src/fem.py'],
  [('shape functions of coarser submeshes', 'assembler.py Assembler.shape_eval; fem.py Basis.eval, Basis.dofs'),
   ('checks', 'assembler.py Assembler.check_problem')],
  ['assembled arrays and dofs'],
  'arrays compared with independent sums in which each function is evaluated on the cell of its own submesh',
  COMMON)

P('A06', 'Integral operators are assembled as the double integrals they stand for',
  'An interpolatory integral form assembles, in row i and column j, the integral of kernel(x_i, y) times trial function j over all marked cells or edges, with x_i the node of the '
  'test dof; a projected integral form assembles the double integral of kernel(x, y) times test function i at x and trial function j at y. '
  'This holds for symmetric and unsymmetric kernels, explicit or nodal, for each sample, for equal and different test and trial spaces and submeshes, for restricted '
  'regions, and when such forms are added to each other or to ordinary forms. '
  'A projected form with a symmetric kernel and equal test and trial functions gives a symmetric matrix.',
  ['inputs'],
  'all meshes and submeshes, test and trial spaces and derivatives, kernels of two points with samples, restrictions and sums of forms',
  'Tests compare one local matrix on a three-cell interval and use symmetric kernels with equal spaces.',
  ['src/assembler.py'],
  [('local integral forms', 'assembler.py IIForm.eval, IPForm.eval, Kernel.eval'), ('double loop and symmetry', 'assembler.py Assembler.assemble')],
  ['assembled matrices per sample'],
  'matrices compared with independent (double) quadrature sums',
  COMMON + 'Small meshes (the forms are dense); nodal kernels are evaluated inside the cells of their submesh.')

P('U01', 'Explicit and constant functions evaluate the same in every input format',
  'An explicit function evaluates each rule with its parameters at each point and returns an (n_points, n_samples) array, identically for arrays, lists, tuples, vertices and '
  'single points, and for one or two variables. '
  'Setting, adding and replacing rules and parameters keeps rules, parameters and samples in step, with single rules or parameter sets shared by all samples. '
  'Constants return their value or sample values at every point; incompatible inputs are rejected, and the lists a function was made from are neither changed nor followed.',
  ['inputs', 'histories'],
  'all dimensions, numbers of variables, rules, parameter sets and edit histories, all admissible input formats and numbers of points',
  'Tests try each format once with one rule.',
  ['src/function.py'],
  [('explicit functions', 'function.py Explicit.set_rules, add_rules, set_parameters, add_parameters, eval'),
   ('input formats', 'function.py Map.parse_x, parse_fx; mesh.py convert_to_array'), ('constants', 'function.py Constant')],
  ['values, shapes, rules, parameters and sample sizes'],
  'values compared with direct evaluation of the rules for every format',
  COMMON)

P('U02', 'Nodal functions evaluate to the piecewise polynomial given by their data',
  'A nodal function, of one or two variables, evaluates at any point to the combination of the shape functions of the finest cell of its submesh there with '
  'its nodal values, for every sample and every derivative up to order two, whether the cell, the shape functions and dofs, or just the points are given. '
  'Setting, modifying (by dofs or samples) and adding data changes exactly the addressed values. '
  'Nodal values built from rules are the values of those rules in the dof vertices, for two variables entry (i,j) being the value at nodes i and j.',
  ['inputs', 'histories'],
  'all elements, meshes, submeshes, samples, derivatives, points (interior, edges, vertices) and data-edit histories',
  'Tests evaluate interpolants of linear functions at a few points.',
  ['src/function.py'],
  [('data', 'function.py Nodal.__init__, set_data, modify_data, add_data, data'), ('evaluation', 'function.py Nodal.eval')],
  ['values and data of nodal functions'],
  'values compared with an independent Lagrange basis on the finest cells of the submesh',
  COMMON + 'On edges where discontinuous functions or derivatives jump, the value of any adjacent cell is accepted.')

P('U03', 'Interpolants and derivatives of functions are exact at the nodes',
  'The interpolant of any function on any finite element space of its mesh has, for every sample, the function\'s values in the dof vertices, and equals the function '
  'wherever the function belongs to the space. '
  'Differentiating a nodal function gives the discontinuous nodal function whose values on each finest cell of its submesh are the exact derivative. '
  'Neither changes the function it starts from.',
  ['inputs'],
  'explicit, constant and nodal functions with samples, all pairs of elements, all meshes and submeshes, all derivatives',
  'Tests interpolate one polynomial on one mesh and differentiate on a whole mesh only.',
  ['src/function.py'],
  [('interpolation', 'function.py Map.interpolant, Nodal.interpolant'), ('differentiation', 'function.py Nodal.differentiate')],
  ['nodal values and values at random points'],
  'nodal values compared with direct evaluation and cellwise derivatives of an independent Lagrange basis',
  COMMON + 'Interpolation of functions that jump is checked away from the jumps.')

P('S01', 'Constrained linear systems are solved under all their constraints',
  'The solution of a linear system takes the prescribed values at all Dirichlet dofs, at every hanging node the combination of its supporting values, and satisfies '
  'all equations tested with functions that respect the constraints, for every matrix and each right hand side. '
  'This holds on every submesh, step by step or at once, with or without factorization, for symmetric and nonsymmetric, definite and indefinite matrices. '
  'Systems do not affect each other, nor the matrices and vectors they were given.',
  ['inputs', 'histories'],
  'all meshes, submeshes, continuous elements, Dirichlet sets, matrices, right hand sides and solution paths',
  'Tests solve symmetric problems with polynomial solutions.',
  ['src/solver.py'],
  [('constraints', 'solver.py LinearSystem.add_dirichlet_constraint, set_constraint_relation, constrain_matrix, constrain_rhs, resolve_constraints'),
   ('solution', 'solver.py LinearSystem.solve_system, invert_matrix, factor_matrix, get_solution')],
  ['constraint matrix and affine terms, solutions, residuals, input arrays'],
  'solutions compared with those of the independently reduced dense system',
  COMMON + 'Dofs that are hanging and prescribed at once, and systems without free dofs, are excluded; the reduced systems have condition below 1e6.')

P('S02', 'Problems with Dirichlet and hanging nodes are reduced and solved exactly',
  'Assembling a problem with Dirichlet conditions and hanging-node constraints gives the matrix, vector and correction of the system reduced to the free dofs, for every sample, '
  'with exactly the dofs on the marked vertices and half-edges prescribed, to the given values. '
  'The assembler\'s solution takes the prescribed values, is continuous across hanging nodes and satisfies the reduced system of the requested samples. '
  'Linear functions are reproduced on every mesh.',
  ['inputs'],
  'all meshes, submeshes, elements, markers, kinds of boundary values, samples and numbers of problems',
  'Tests solve single problems with polynomial solutions.',
  ['src/assembler.py', 'src/fem.py'],
  [('conditions', 'assembler.py Assembler.add_dirichlet, get_dirichlet, add_hanging_nodes, hanging_node_matrix, get_dofs'),
   ('reduction', 'assembler.py AssembledForm.distribute, consolidate; Assembler.assemble, get_matrix, get_vector, assembled_bnd'),
   ('solver', 'assembler.py Assembler.solve')],
  ['dof sets, prescribed values, reduced arrays, solutions'],
  'arrays and solutions compared with those of the independently assembled and reduced system',
  COMMON + 'Dofs that are hanging and prescribed at once, and problems without free dofs, are excluded.')

P('S03', 'Assembling and solving again gives the results of a fresh start',
  'Solving a linear system again, for other right hand sides or a new matrix, with or without a stored factorization, gives the solution of the system now given. '
  'Assembling again, with cellwise data kept or not, after conditions were added or nodal coefficients changed, by one of several assemblers that share forms, gives '
  'the arrays of a fresh assembler, and solving in any order leaves them unchanged. '
  'Kept cellwise data adds up to the forms without conditions, and after the mesh was refined or coarsened and its dofs numbered again, new problems are solved as by a new dofhandler.',
  ['histories'],
  'all sequences of assembling, solving, changing data and adding conditions, on all meshes and elements',
  'Tests assemble and solve each object once.',
  ['src/assembler.py', 'src/solver.py'],
  [('systems', 'solver.py LinearSystem.set_matrix, set_rhs, solve_system, invert_matrix, factor_matrix'),
   ('assembler', 'assembler.py Assembler.assemble, solve; AssembledForm.clear_data, distribute, consolidate, cellwise_data')],
  ['solutions and assembled arrays after every step of a history'],
  'compared with the dense solution and with freshly constructed assemblers',
  COMMON + 'Conditions are added to a linear system before its first solution; a new matrix comes with a new right hand side.')

P('D01', 'Cholesky factorizations and their square roots belong to the given matrix',
  'The Cholesky factors of a symmetric matrix are triangular (or block diagonal) and reconstruct it: the matrix itself if it is positive definite, else the documented semidefinite '
  'modification P(C+E)P\' = L D L\', which is returned unchanged for semidefinite matrices and is positive definite for indefinite ones. '
  'Products, solutions, square roots and inverse square roots, transposed or not, for one or several right hand sides, are consistent with that matrix, and degeneracy and '
  'sparsity are reported as they are. '
  'No operation changes the matrix or vectors it was given.',
  ['inputs'],
  'symmetric positive definite, semidefinite, indefinite and integer matrices of any size, dense or in any sparse format, and all right hand sides',
  'Tests factor one matrix of each kind and look at sizes only.',
  ['src/spd.py', 'src/gmrf.py'],
  [('factorization', 'spd.py CholeskyDecomposition.decompose, modchol_ldlt, set_factors, get_factors, reconstruct; gmrf.py modchol_ldlt'),
   ('operations', 'spd.py CholeskyDecomposition.dot, solve, sqrt_dot, sqrt_solve, sqrt_block_diagonal'),
   ('attributes', 'spd.py SPDMatrix.set_matrix, get_matrix, get_size, set_sparsity, is_degenerate')],
  ['factors, products, solutions, square roots'],
  'compared with dense linear algebra on the given matrix (or its modification)',
  COMMON + 'Rounding may decide whether a semidefinite matrix counts as definite; both outcomes are accepted.')

P('D02', 'Eigendecompositions reconstruct the matrix and give its pseudo-inverse',
  'The eigenvalues, in decreasing order and bounded below as asked, and the eigenvectors of a symmetric matrix, or of a matrix pencil with a positive definite mass matrix, satisfy the eigenvalue '
  'equation, are orthonormal in the corresponding inner product and reconstruct the matrix. '
  'Products, pseudo-inverse solutions, square roots and inverse square roots, transposed or not, agree with them; range, null space and rank are those of the matrix. '
  'No operation changes the matrices or vectors it was given.',
  ['inputs'],
  'full rank, deficient, slightly indefinite and repeated spectra, with and without mass matrices, dense or sparse, with any lower bound',
  'Tests decompose a few fixed matrices.',
  ['src/spd.py', 'src/gmrf.py'],
  [('decomposition', 'spd.py EigenDecomposition.decompose, set_eigenvalue_lower_bound, get_factors, reconstruct'),
   ('operations', 'spd.py EigenDecomposition.dot, solve, sqrt_dot, sqrt_solve, diagonal_pseudo_inverse; gmrf.py diagonal_inverse'),
   ('spaces', 'spd.py EigenDecomposition.get_nullspace, get_rank, get_range')],
  ['factors, products, solutions, square roots, spaces'],
  'compared with the known spectrum and with dense linear algebra',
  COMMON + 'Cut-off tolerances lie in gaps of the spectrum; with a mass matrix the product is that of R R\'.')

P('G01', 'Covariance functions are symmetric, semidefinite and have the stated values',
  'The constant, linear, Gaussian, exponential, Matern and rational covariance functions have, at all point pairs, the values of their formulas, in particular the variance at '
  'coincident points, for scalar and tensor anisotropies and for periodic domains. '
  'They depend on each pair of points alone, are symmetric in their arguments, and (without periodicity) their matrices are positive semidefinite.',
  ['inputs'],
  'all covariance functions, parameters, anisotropies, periods and sets of points in one and two dimensions',
  'Tests evaluate them with one parameter, mostly for plots.',
  ['src/gmrf.py'],
  [('functions', 'gmrf.py constant, linear, gaussian, exponential, matern, rational'), ('distance', 'gmrf.py distance'), ('kernel', 'gmrf.py CovKernel')],
  ['values, distances, covariance matrices'],
  'compared with independent formulas (the Matern function by quadrature of its integral)',
  COMMON + 'Semidefiniteness is checked without periodicity.')

P('G02', 'Discretized covariance operators are those of the covariance function',
  'The matrix of a covariance operator on a finite element space is the double integral of the covariance against the basis functions, exactly (Galerkin) or with the interpolated covariance, '
  'and its mass matrix is that of the space, on every mesh and submesh, whether the covariance is given by name, function or map. '
  'Its eigenvalues and eigenfunctions solve the generalized eigenvalue problem and are orthonormal in L2.',
  ['inputs'],
  'all covariance functions and parameters, elements, meshes, submeshes and discretizations',
  'Tests assemble a few operators on small uniform meshes.',
  ['src/gmrf.py', 'src/assembler.py'],
  [('operator', 'gmrf.py Covariance.__init__, set_kernel, assemble'), ('integral forms', 'assembler.py IPForm')],
  ['covariance and mass matrices, spectrum, attributes'],
  'compared with independently computed double sums over all pairs of cells',
  COMMON + 'Collocation cannot be assembled (known finding).')

P('G03', 'Gaussian fields have the mean, covariance and support they were given',
  'Samples of a Gaussian field are the mean plus a linear map of the noise whose square is the covariance (or the inverse of the precision), whether the field was given by covariance, precision or '
  'canonical parameters, and random samples have that mean and covariance. '
  'Karhunen-Loeve samples and truncated fields are the partial sums of the expansion, and the canonical mean, the support and restriction to it correspond to the same distribution. '
  'No operation changes the data it was given.',
  ['inputs'],
  'fields given by arrays, sparse matrices, decompositions, operators, precisions or canonical parameters, of full and deficient rank, with one or several means',
  'Tests draw samples and look at their size, or compare one empirical covariance by eye.',
  ['src/gmrf.py', 'src/spd.py'],
  [('parameters', 'gmrf.py GaussianField.__init__, set_mean, set_canonical_mean, set_covariance, set_precision, mean, b, covariance, precision'),
   ('sampling', 'gmrf.py GaussianField.sample, KL_sample, truncate, iid_gauss'), ('support', 'gmrf.py GaussianField.update_support, set_support, project')],
  ['samples as functions of the noise, sample moments, means, supports'],
  'the affine map from noise to sample is recovered exactly and compared with the distribution; moments of random samples at seven standard deviations',
  COMMON + 'Covariances are well conditioned or have a gap between zero and the other eigenvalues.')

P('G04', 'Conditioned Gaussian fields have the conditional distribution',
  'A Gaussian field conditioned on linear observations, exact or noisy, pointwise or given by a matrix, is the field with the conditional mean and covariance, returned as a field or as samples, '
  'whether it was given by covariance or precision, with full or deficient rank. '
  'Conditioned samples satisfy exact observations, and conditioning successively gives the same as conditioning at once. '
  'The original field and the data are unchanged.',
  ['inputs', 'histories'],
  'all kinds of fields, observation operators, noise covariances and orders of conditioning',
  'Tests condition one field per mode and plot the result.',
  ['src/gmrf.py'],
  [('conditioning', 'gmrf.py GaussianField.condition')],
  ['conditioned means, covariances and samples'],
  'compared with the dense conditional distribution; moments of random samples at seven standard deviations',
  COMMON + 'Exact observations have a regular covariance and do not determine the field completely.')

P('P01', 'Plots draw exactly the mesh, its regions and dofs, and the values of functions',
  'A mesh plot draws each finest cell of the (sub)mesh once, each marked cell, half-edge, edge and vertex of the requested regions once in its region\'s colour, and the dofs '
  'or their numbers at the positions of their nodes. '
  'Line, contour, wire and surface plots draw the values of the given sample (or the requested derivative) of the function over the whole (sub)mesh on the requested grid, '
  'with each cell\'s own values in line and wire plots. '
  'Everything drawn lies inside the axes limits, and quick views show one figure and close it.',
  ['inputs'],
  'one- and two-dimensional meshes, submeshes, regions and elements; nodal, explicit and constant functions with samples and derivatives',
  'No test draws anything that it looks at: the plot tests are disabled.',
  ['src/plot.py'],
  [('mesh', 'plot.py Plot.mesh, cells, edges, half_edges, vertices, dofs'), ('functions', 'plot.py Plot.line, contour, wire, surface'),
   ('axes', 'plot.py Plot.check_axis, set_bounding_box')],
  ['polygons, segments, points, arrows, labels and values handed to the canvas'],
  'compared with the leaves, marked entities, node positions and independent one-sided values of the functions',
  COMMON + 'Contour and surface plots need meshes that fill their bounding box; surface plots show one sample, without grid.')
