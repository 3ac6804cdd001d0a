FINDINGS = [
 ('G02', 'collocation', 'Covariance(discretization="collocation") cannot be constructed (Assembler has no attribute af)'),
]      # (property, probe key in vmon/props/<id>.py KNOWN, what fails)
FIXED = [          # (property, subject of the fix commit without "fix: ", what failed)
 ('M01', 'Forest.find_node returns None for an address below a leaf', 'Forest.find_node crashed for an address below a leaf'),
 ('M01', 'Forest.get_children(flag, reverse=True) filters by the flag and returns its list', 'Forest.get_children(flag, reverse=True) returned None or unmarked trees'),
 ('M01', 'Tree.tree_depth passes its flag on to the children', 'Tree.tree_depth(flag) ignored the flag below the first level'),
 ('M02', 'Forest.is_contained_in is False when the reference subforest is finer', 'Forest.is_contained_in answered True for a reference subforest that is not coarser'),
 ('M02', 'coarsening a submesh removes its label from all descendants of the coarsened cell', 'coarsening left the label on deeper descendants, so the submesh was not rooted'),
 ('M04', "deleting a cell's children also removes the sub-edges that tie neighbors to them", 'after coarsening, neighbors kept twins belonging to deleted cells'),
 ('M08', 'convert_to_array turns a one-entry vector into a (1,1) array', 'a one-entry 1D array was rejected as a list of 1D points'),
 ('M08', 'convert_to_array accepts a list of numbers, as documented', 'a list of numbers crashed'),
 ('M07', 'HalfEdge.contains_points recognises points on edges with negative slope', 'points on edges of negative slope were never found'),
 ('M07', 'HalfEdge.subcell_position works on vertical edges', 'division by zero on vertical edges'),
 ('M08', 'QuadCell.is_rectangle only holds if the first edge is horizontal, as the reference map assumes', 'reference map of rectangles whose first edge is vertical was wrong'),
 ('M07', 'QuadCell.subcell_position of the cell itself', 'subcell_position(self) failed'),
 ('M07', 'Mesh2D.locate_point returns the smallest (flagged) cell, as documented', 'locate_point returned a coarse cell, ignored the flag below the first level'),
 ('M06', 'Cell.get_neighbors about an interior vertex respects the flag', 'vertex neighbors about interior vertices ignored the flag'),
 ('M06', 'Cell.get_neighbors starts its clockwise pass from its own (periodic) vertex', 'clockwise pass about a periodic vertex started from the wrong copy of the vertex'),
 ('M06', 'periodic vertex pairs are found from refined cells too', 'vertex neighbors across a periodic boundary were lost for refined cells'),
 ('M09', 'get_boundary_segments keeps closed boundary loops and merges all pieces', 'closed loops were lost and connected pieces left apart'),
 ('M09', 'get_boundary_segments removes all half-edges that are not flagged', 'unflagged half-edges remained in filtered segments'),
 ('M09', 'get_boundary_vertices includes the last vertex of open or filtered segments', 'the last vertex of open segments was missing'),
 ('M09', 'boundary regions of periodic 1D meshes are empty instead of crashing', 'mark_region/get_region(on_boundary) crashed on periodic 1D meshes'),
 ('M10', 'DCEL.get_neighbor returns None across a boundary half-edge', 'the last face was returned as neighbor across the boundary'),
 ('M10', 'DCEL.get_boundary_half_edges keeps closed loops and the order of merged pieces', 'boundary loops were lost or out of order'),
 ('M10', 'DCEL.get_boundary_points goes through the half-edges of all boundary segments', 'get_boundary_points crashed'),
 ('F01', 'derivatives of 1D shape functions on the reference cell at several points', 'derivatives of 1D shape functions at several points crashed or had the wrong shape'),
 ('F02', 'get_region_dofs returns its dofs in ascending order, as documented', 'region dofs came in the order of a set'),
 ('F02', 'dof vertices are recorded for dofs of submeshes distributed later', 'dof vertices of submeshes numbered later were missing'),
 ('F03', 'get_hanging_nodes is empty for elements and meshes without hanging nodes', 'KeyError for meshes or elements without hanging nodes'),
 ('F04', 'Basis.eval maps points to the ancestor cell and transforms derivatives', 'Basis.eval evaluated on the wrong cell and left derivatives on the reference cell'),
 ('A01', 'nodes and weights of the six-point Gauss rule to full precision', 'the six-point rule was inexact'),
 ('A01', 'Gauss rules on triangles can be constructed, one-point rule uses the centroid', 'triangle rules could not be constructed, one-point rule inexact'),
 ('A01', 'GaussRule.scale_rule works on quadrilaterals', 'scale_rule crashed in 2D'),
 ('U01', 'Explicit.set_rules accepts a position', 'set_rules(pos=) crashed'),
 ('U02', 'bivariate nodal functions store f(x_i,x_j) in entry (i,j)', 'entries of bivariate nodal data were transposed'),
 ('U02', "Nodal.modify_data defaults to the dofs of the function's submesh", 'modify_data without dofs failed on submeshes'),
 ('U02', 'shape functions can be evaluated at mapped points on the boundary of a cell', 'rounding of mapped boundary points was rejected'),
 ('U03', 'Nodal.differentiate works on submeshes and with derivatives that jump between cells', 'differentiate failed on submeshes and averaged jumping derivatives'),
 ('A03', 'kernels evaluate derivatives of nodal functions during assembly', 'derivatives of nodal functions were ignored in assembled kernels'),
 ('A05', 'assembler evaluates shape functions of coarser submeshes at points in the finer cell', 'coarse dofs were paired with fine shape functions'),
 ('A04', 'constant forms are zero on cells without integration region', 'constant forms with empty regions crashed the assembly'),
 ('A03', 'deterministic constant and linear forms can be added to sampled ones', 'mixing sampled and deterministic forms crashed'),
 ('A04', 'assembled rows and columns are ordered by dof', 'rows and columns were in the order of a set'),
 ('S02', 'Dirichlet correction is zero for problems without Dirichlet columns', 'solve() without Dirichlet condition crashed'),
 ('S03', 'distributing cellwise data leaves it in place', 'cellwise data was empty after assembly with keep_cellwise_data'),
 ('A03', 'Assembler.n_samples allows deterministic forms before sampled ones', 'n_samples failed if a deterministic form came first'),
 ('S03', 'assembling a second time replaces the results of the first', 'arrays doubled when assembled again'),
 ('A04', 'constant forms can be evaluated at vertices', 'constant vertex forms crashed'),
 ('A06', "IIForm interpolates at the dofs of the test function's submesh", 'the submesh flag was taken for a list of dofs'),
 ('A06', "IIForm integrates over all (or none) of a cell's regions, for every sample", 'only the first region was used, empty regions and samples crashed'),
 ('A06', 'IPForm accepts a function as its kernel', 'IPForm crashed unless the kernel was a Kernel object'),
 ('A06', "IPForm integrates over all (or none) of a cell's regions, for every sample", 'empty regions and sampled kernels crashed'),
 ('A06', 'IPForm uses the symmetry of its kernel only if trial and test functions agree', 'matrices with different trial and test functions were wrong for symmetric kernels'),
 ('A06', 'kernels of integral operators may be nodal functions of two variables', 'nodal kernels of two variables crashed'),
 ('A06', 'deterministic integral forms can be added to sampled ones', 'mixing deterministic and sampled integral forms crashed'),
 ('S02', 'add_dirichlet includes all dofs on marked half-edges', 'dofs inside marked half-edges were left free'),
 ('S02', "add_dirichlet accepts nodal functions with the problem's dofs", 'nodal Dirichlet values crashed'),
 ('S02', "add_hanging_nodes uses the hanging nodes of the trial function's submesh", 'hanging nodes of the whole mesh were used on submeshes'),
 ('S02', 'Assembler.solve works on submeshes', 'solve() confused dofs and equations on submeshes'),
 ('S02', 'Assembler.solve works without Dirichlet conditions', 'solve() crashed without Dirichlet conditions'),
 ('S02', 'Assembler.solve uses the Dirichlet values of the requested sample', 'Dirichlet values of the first sample were used for all'),
 ('S02', 'Assembler.solve accepts a list of vector samples', 'a list of vector samples crashed'),
 ('S02', 'add_dirichlet does nothing if no dofs are marked', 'Explicit boundary values crashed if no dof was marked'),
 ('S01', 'affine constraint terms of linear systems are ordered by equation', 'prescribed values were stored by dof number, wrong on submeshes'),
 ('S01', 'constraining the right hand side distributes the entries of all hanging nodes', 'right hand side entries of all but the first hanging node were dropped, solutions wrong'),
 ('S03', 'linear systems constrain their matrix once', 'solving a second time lost the Dirichlet contributions'),
 ('S01', 'linear systems keep their constraints to themselves', 'constraints of one system leaked into all later systems with the same dof handler'),
 ('S01', 'constrained systems whose diagonal averages to zero remain regular', 'constrained matrix singular if its diagonal sums to zero'),
 ('S01', 'factor_matrix uses Cholesky for symmetric positive definite matrices only', 'factorized solutions of nonsymmetric systems were wrong, indefinite ones crashed'),
 ('D01', "modified Cholesky factors satisfy P*(C+E)*P' = L*D*L', as documented", 'factors were of a permuted matrix'),
 ('D01', 'sqrt_solve uses the lower triangular factor of degenerate matrices', 'sqrt_solve solved with the wrong triangle of degenerate matrices'),
 ('D01', 'modified Cholesky solves and square roots include the 2-by-2 blocks of D', 'solutions and square roots ignored the 2-by-2 blocks'),
 ('D01', 'SPDMatrix.is_degenerate and set_rank use the methods of the class', 'is_degenerate and set_rank crashed'),
 ('D02', 'eigendecompositions of sparse matrices', 'sparse matrices crashed'),
 ('D02', 'the generalized eigendecomposition reconstructs the matrix itself', 'reconstruct returned the covariance of another matrix'),
 ('D02', 'sqrt_solve inverts the factors of generalized eigendecompositions', 'sqrt_solve ignored the mass matrix'),
 ('G01', 'anisotropic distances keep the signs of the differences', 'anisotropic distances used absolute differences'),
 ('G01', 'the linear covariance in 1D includes sgm^2 when M is given', 'sgm was ignored'),
 ('G01', 'the matern covariance is sgm^2 at distance zero', 'matern covariance at coincident points was wrong'),
 ('G02', 'covariance functions can be given as maps, as documented', 'Map covariances crashed'),
 ('G03', 'KL_sample uses the given noise for the selected eigenvalues', 'given noise was indexed wrongly'),
 ('G03', 'GaussianField.b returns the canonical mean', 'b() crashed'),
 ('G03', 'the canonical mean inverts the covariance that is sampled', 'canonical mean belonged to another covariance'),
 ('G03', 'fields given by canonical parameters have the corresponding mean', 'mean of fields with canonical parameters was wrong'),
 ('G03', 'samples use the mean column asked for and live on the support of the field', 'm_col was ignored, samples on a support had the wrong size'),
 ('G03', 'update_support restricts the field to the range of its covariance or precision', 'update_support crashed'),
 ('G03', 'truncate returns the field of the truncated expansion', 'truncate crashed'),
 ('G04', 'fields conditioned on hard constraints satisfy them, in both modes', 'conditioned fields had wrong means or covariances'),
 ('G04', 'fields can be conditioned on soft constraints, as documented', 'soft constraints crashed or were wrong'),
 ('M08', 'the Hessian of the inverse cell map can be requested without its Jacobian', 'reference_map(hess_p2r=True) of a quadrilateral crashed unless jac_p2r was requested too'),
 ('F02', 'the vertex of a dof can be requested as seen from one of its cells', 'get_dof_vertices(cells=...) ignored the cell (periodic meshes) or dropped dofs'),
 ('U02', 'nodal functions accept shape functions without dofs, and dofs in arrays, as documented', 'Nodal.eval(phi=...) crashed without dofs and for arrays of dofs'),
 ('M06', 'level-wise neighbors of intervals lie next to the interval, in other parents and across periodic boundaries too', 'the level-wise neighbor was the far child across periodic boundaries and missing in other parents'),
 ('M06', 'vertex neighbors on meshes with one or two cells in a periodic direction', 'get_neighbors(vertex) never returned, or repeated cells'),
 ('F02', 'numbering of refined periodic meshes with a single cell in a periodic direction', 'n_dofs() counted dofs no cell has; dofs were not shared'),
 ('U02', 'nodal functions evaluate in cells that carry a dof twice (one cell in a periodic direction)', 'values of one of the two copies of the dof were dropped'),
 ('F04', 'index maps of a basis moved to another submesh', 'Basis.set_subforest_flag kept the index maps of the previous submesh'),
 ('M08', 'inverse of the cell map in distorted quadrilaterals', 'five Newton steps left errors up to 5e-3 in the reference coordinates of convex quadrilaterals'),
 ('P01', 'wire plots', 'Plot.wire crashed on every function'),
 ('P01', 'contour plots of constant functions', 'Plot.contour crashed on constant functions'),
 ('P01', 'line plots of explicit and constant functions, and of several samples of discontinuous ones', 'Plot.line crashed on explicit and constant functions'),
 ('P01', 'wire plots of discontinuous functions show each cell\'s own values', 'edges of cells were drawn with the values of their neighbors'),
 ('P01', 'surface plots', 'Plot.surface crashed on every function'),
 ('F02', 'numbering dofs again after refining the mesh takes over the dofs of neighbors numbered before', 'coinciding nodes carried two dofs when the mesh was refined between two calls of distribute_dofs'),
 ('F03', 'numbering dofs again discards the hanging nodes found before', 'get_hanging_nodes returned the constraints of the mesh before it was refined and numbered again'),
 ('M07', 'points of nearly axis-aligned half-edges were not found on them', 'contains_points denied points of nearly axis-aligned half-edges'),
 ('M10', 'names of gmsh regions may contain blanks', 'physical names with blanks were cut at the first blank'),
 ('U02', 'samples could not be added to nodal functions of two variables', 'add_samples crashed or mis-shaped the data of bivariate nodal functions'),
 ('U01', 'rules added to an explicit function were added to the list it was made from', 'the list of the caller, and all functions made from it, changed'),
 ('A02', 'assemblers changed, and changed with, the lists of forms they were given', 'the assembler and the caller shared lists of forms'),
 ('A03', 'kernels changed with the lists of functions and derivatives they were made from', 'the kernel and the caller shared lists'),
 ('G03', 'canonical mean of a Gaussian field restricted to its support', 'b() and compute_mean disagreed for fields on a support'),
 ('G03', 'canonical mean of a Gaussian field was that of an earlier mean', 'b() did not follow set_mean'),
 ('S02', 'problems whose dofs are all prescribed could not be assembled and solved', 'Assembler.assemble crashed when every dof is prescribed by a Dirichlet condition'),
 ('M05', 'balancing a submesh depended on the order in which its cells are visited', 'balance left cells unbalanced for some orders of visiting them'),
]
