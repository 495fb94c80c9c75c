NOT_APPLICABLE = []
GL = I + "global_loop/"
MB = ("Exhaustive TLC exploration of the bounded specification, plus TLC-generated and seeded random call histories replayed into the real templates "
      "(AddressSanitizer build); every recorded event must be a step of the specification. ")
INT = "Inputs are chosen so that every floating point result is exact, so results are compared exactly. "

prop("P01", "The global operator is exactly the sum of the local contributions",
     "For every hypergraph, every global vector and every time, each matrix-free product, residual, mass product and Jacobian product returns, at every skeletal degree of freedom, exactly the sum over all hyperedges of what the local solver returned for the data of that hyperedge's own hypernodes; every hyperedge contributes once, in its own local hypernode order, and nothing else is added. "
     "The call does not modify its arguments and does not depend on earlier calls of the same kind.",
     ["inputs", "configurations", "histories"],
     "all hypergraphs (including shared, repeated and isolated hypernodes), all vectors, times, dimensions, numbers of degrees of freedom, solver signatures and call histories",
     "The stable test only evaluates point functions; no stable test calls a global loop at all, and examples run one mesh and compare one norm.",
     [GL + "elliptic.hxx", GL + "parabolic.hxx", GL + "mass_approx_eigenvalue.hxx", GL + "shifted_inverse_eigenvalue.hxx", GL + "nonlinear_eigenvalue.hxx", I + "hdg_hypergraph.hxx", I + "hypernodefactory.hxx"],
     [("trace_to_flux / residual_flux / trace_to_mass_flux / jacobian_trace_to_flux loops", GL + "*.hxx"), ("gather and scatter", I + "hypernodefactory.hxx")],
     ["return values of trace_to_flux, residual_flux, trace_to_mass_flux, jacobian_trace_to_flux", "calls received by a recording local solver"],
     "GlobalLoop", MB + INT + "Local solvers are linear integer mocks; assumes g++/libstdc++ and TLC.")
prop("P02", "The assembled sparse matrix is the matrix-free operator",
     "For every hypergraph without Dirichlet restrictions and every time, the sparse matrix handed out by the elliptic loop (coordinate format, duplicates added) equals, entry by entry, the matrix whose columns are the matrix-free products with the unit vectors, and its indices all lie inside the system size.",
     ["inputs", "configurations", "histories"],
     "all hypergraphs, numbers of degrees of freedom per hypernode, times, solver signatures, refinement histories",
     "No stable test assembles a matrix.",
     [GL + "elliptic.hxx", I + "hypernodefactory.hxx"],
     [("sparse_mat()", GL + "elliptic.hxx")],
     ["return value of sparse_mat", "return values of trace_to_flux"],
     "GlobalLoop", MB + INT)
prop("P03", "Dirichlet restrictions decouple exactly the declared unknowns",
     "After a list of Dirichlet indices has been declared, every product returns zero at these unknowns and every residual is zero there, all other entries are exactly what they are without the restriction, and input entries at restricted unknowns are treated as the caller supplied them. "
     "Declaring a new list replaces the old one completely.",
     ["inputs", "histories"],
     "all index lists (empty, repeated, unsorted), all vectors and all interleavings of declarations, products, residuals and refinements",
     "No stable test declares Dirichlet indices.",
     [GL + "elliptic.hxx"],
     [("read_dirichlet_indices and the zeroing after each loop", GL + "elliptic.hxx")],
     ["return values of trace_to_flux, residual_flux after read_dirichlet_indices"],
     "GlobalLoop", MB + INT)
prop("P04", "Time stepping keeps one data record per hyperedge and advances it exactly once",
     "For every sequence of make_initial, set_data, residual and error calls of the parabolic loop, each hyperedge's stored data is what the local solver wrote for that same hyperedge in the latest update, every update is made exactly once per hyperedge with the current time and the values of that hyperedge's own hypernodes, and reading calls never change it. "
     "The initial skeletal vector contains the local solver's initial values for the requested time.",
     ["histories", "inputs"],
     "all call sequences, vectors, times (including fractional initial times), hypergraphs and refinement histories",
     "No stable test runs a time step.",
     [GL + "parabolic.hxx", I + "hy_data_container.hxx", I + "hdg_hypergraph.hxx"],
     [("set_data / make_initial loops", GL + "parabolic.hxx"), ("per-hyperedge container", I + "hy_data_container.hxx")],
     ["return values of make_initial, residual_flux, errors; calls received by a recording local solver"],
     "GlobalLoop", MB + INT)
prop("P05", "Eigenvalue loops: mass, shift, linearisation and Dirichlet index queries agree",
     "The generalised mass product, the shifted operator, the nonlinear operator's Jacobian and its initial vector are the exact sums of the local contributions for the supplied eigenvalue and vectors. "
     "The list of Dirichlet indices handed out contains exactly the unknowns of hypernodes whose faces are of Dirichlet type on the current refinement level, independent of earlier queries.",
     ["inputs", "configurations", "histories"],
     "all hypergraphs, boundary types, vectors, eigenvalues, and histories of queries and refinements",
     "No stable test instantiates an eigenvalue loop.",
     [GL + "mass_approx_eigenvalue.hxx", GL + "shifted_inverse_eigenvalue.hxx", GL + "nonlinear_eigenvalue.hxx"],
     [("dirichlet_indices()", GL + "mass_approx_eigenvalue.hxx"), ("jacobian_trace_to_flux / make_initial", GL + "nonlinear_eigenvalue.hxx")],
     ["return values of the eigenvalue loops"],
     "GlobalLoop", MB + INT)
prop("P06", "Reported errors aggregate every hyperedge exactly once",
     "The error returned for any vector and time is the square root of the sum over all hyperedges of the squared local error components that the local solver reports for that hyperedge's own values (each hyperedge once), component by component, and computing it changes no state.",
     ["inputs", "configurations", "histories"],
     "all hypergraphs, vectors, times and call histories, elliptic and parabolic loops",
     "No stable test computes an error.",
     [GL + "elliptic.hxx", GL + "parabolic.hxx"],
     [("errors()", GL + "elliptic.hxx"), ("errors()", GL + "parabolic.hxx")],
     ["return value of errors"],
     "GlobalLoop", MB + "Local errors are chosen so that the aggregate is an exact square.")
prop("P07", "Refinement switches everything consistently, over any history",
     "After any sequence of refinement changes, the reported system size, the zero vector, the set of hyperedges visited (each exactly once, in index order, by iterators and by indexed access) and all operators are those of the current refinement level, as if the problem had been constructed at that level.",
     ["histories", "configurations"],
     "all histories of set_refinement interleaved with all other public calls, all loops",
     "No stable test refines anything.",
     [I + "hdg_hypergraph.hxx", GL + "*.hxx"],
     [("set_refinement", I + "hdg_hypergraph.hxx"), ("iterator", I + "hdg_hypergraph.hxx")],
     ["size_of_system, zero_vector, get_refinement, products after set_refinement"],
     "GlobalLoop", MB + INT)
prop("P08", "Hypernode unknowns are numbered without gaps or overlap, and misuse is refused",
     "For every number of hypernodes and of unknowns per hypernode, each hypernode owns one contiguous block of global unknowns, blocks are disjoint and cover the whole range, reading, writing and adding touch exactly the addressed block, and the inverse query returns the owning hypernode. "
     "In assertion-enabled builds, access outside the vector, or with a local container of wrong length, ends the program instead of reading or writing elsewhere.",
     ["inputs", "histories"],
     "all sizes, hypernode indices, vectors (also of unfitting length) and operation sequences",
     "No stable test touches the degree-of-freedom map.",
     [I + "hypernodefactory.hxx", I + "hy_assert.hxx"],
     [("get_dof_indices / get_dof_values / add_to_dof_values / set_dof_values", I + "hypernodefactory.hxx")],
     ["return values and modified vectors; exit of the process on misuse"],
     "DofMap", MB + INT + "Misuse is exercised in forked processes.")

TPCC = "The tensor product chain complex submodule is not in the repository; a stand-in with the documented interface takes its place. "
prop("P09", "Structured hypergraphs have exactly the cells, faces and numbering of the grid",
     "For every grid size, hyperedge dimension, space dimension and refinement, a structured hypergraph contains each cell of the refined grid exactly once as a hyperedge, its hypernodes are numbered from 0 to the reported count without gaps, and two hyperedges carry the same hypernode number at two of their faces if and only if these are the same face in space. "
     "Indices beyond the reported counts are refused in assertion-enabled builds.",
     ["inputs", "configurations", "histories"],
     "all grid sizes, all (hyperedge, space) dimension pairs, all refinement histories, copies",
     "No stable test constructs a structured hypergraph.",
     [I + "topology/cubic.hxx", I + "wrapper/tpcc.hxx", I + "hdg_hypergraph.hxx"],
     [("hyperedge to hypernode index map", I + "topology/cubic.hxx"), ("tensor product numbering", I + "wrapper/tpcc.hxx")],
     ["n_hyperedges, n_hypernodes, hypernode indices and corner coordinates of every hyperedge"],
     "HyperMesh", MB + TPCC)
prop("P10", "Boundary types mark exactly the faces on the boundary and survive refinement",
     "For every structured hypergraph, the type of a face is the sum over the directions in which it lies on the lower (upper) end of the domain of once (twice) the direction's power of three, and zero inside; for a file hypergraph it is the type written in the file for the coarse face of which it is a part, and zero for faces created by refinement.",
     ["inputs", "configurations", "histories"],
     "all grids, all domain files, all refinements and histories",
     "No stable test asks for a face type.",
     [I + "node_descriptor/cubic.hxx", I + "node_descriptor/file.hxx"],
     [("face type arithmetic", I + "node_descriptor/cubic.hxx"), ("types of refined faces", I + "node_descriptor/file.hxx")],
     ["node_descriptor operator[] of every hyperedge"],
     "HyperMesh", MB + TPCC)
prop("P11", "Refined file hypergraphs keep the connectivity of the coarse hypergraph",
     "For every valid domain file and refinement r, each coarse hyperedge is divided into r^k hyperedges; faces inside a coarse hyperedge are shared by exactly the two neighbours there, parts of a coarse hypernode are shared by exactly the corresponding parts of all coarse hyperedges at this hypernode, and hypernode numbers run without gaps up to the reported count.",
     ["inputs", "configurations", "histories"],
     "all domain files, hyperedge and space dimensions, refinements and refinement histories",
     "No stable test reads a domain file.",
     [I + "topology/file.hxx", I + "wrapper/tpcc.hxx", I + "hdg_hypergraph.hxx"],
     [("refined hypernode numbering", I + "topology/file.hxx")],
     ["n_hyperedges, n_hypernodes, hypernode indices of every hyperedge"],
     "HyperMesh", MB + TPCC + "Hyperedges sharing a hypernode parametrise it in the same direction (the format has no orientation).")
prop("P12", "Domain files are read faithfully, and defective ones are refused",
     "Reading a well-formed .geo file, however it is laid out (blank lines, comment lines between sections, any spacing and number notation), yields exactly the counts, points, hypernode lists, face types and point lists written in it. "
     "A file that is truncated, incomplete, inconsistent with its header, refers to points or hypernodes that do not exist, or repeats a point, or does not fit the requested dimensions, is refused instead of being read as something else.",
     ["inputs"],
     "all text files",
     "No stable test reads a domain file.",
     [I + "read_domain.hxx"],
     [("read_domain_geo", I + "read_domain.hxx"), ("DomainInfo::check_consistency", I + "read_domain.hxx")],
     ["the DomainInfo returned, or the exit of the process"],
     "DomainFile", MB + "Files are run in forked processes; a refusal is an assertion, an exception or a non-zero exit.")
prop("P13", "Point clouds become exactly the epsilon neighbourhood graph",
     "For every point set and every epsilon, the hypergraph made from a .pts file has the points as hypernodes and exactly one hyperedge for each unordered pair of different points whose distance is at most epsilon, and reading back the .geo file written on the way gives the same coordinates. "
     "Defective point files are refused.",
     ["inputs"],
     "all point files, dimensions and epsilons (including pairs at distance exactly epsilon)",
     "No stable test reads a point file.",
     [I + "read_domain.hxx"],
     [("make_epsilon_neighborhood_graph", I + "read_domain.hxx")],
     ["the DomainInfo returned"],
     "DomainFile", MB + "Coordinates are multiples of 1/8, so distances are compared exactly.")
prop("P14", "Geometry and connectivity describe the same points in space",
     "For every hypergraph and refinement, the corner points, areas, face areas, mapped reference points, lexicographic sample points and face sample points reported for a hyperedge are those of the parallelepiped whose faces carry its hypernode numbers, so two hyperedges sharing a hypernode describe the same set of points there and the sub-hyperedges tile the coarse one; the normals reported for its faces are unit vectors that are orthogonal to the face, lie in the hyperedge's plane and point away from it, those reported for the hyperedge are orthonormal and orthogonal to it.",
     ["inputs", "configurations", "histories"],
     "all grids and domain files, dimension pairs, refinement histories, reference points and sample densities",
     "The stable test evaluates only point functions.",
     [I + "geometry/cubic.hxx", I + "geometry/file.hxx", I + "mapping/linear.hxx"],
     [("map_ref_to_phys, area, face_area, lexicographic, boundary_lexicographic", I + "geometry/*.hxx")],
     ["return values of the geometry of every hyperedge"],
     "HyperMesh", MB + TPCC + "Coordinates compared on the refined lattice with tolerance 1e-6.")
prop("P15", "Dense matrix algebra computes the stated operation and nothing else",
     "For all matrix shapes, entry types and operands, every operation on small dense matrices and vectors (construction from each source, entry and column access, products with and without transposition, entrywise sums, products and quotients, scalar operations from both sides, in-place variants, transposition, dyadic and cross products, diagonal and replicated matrices, comparison, ordering, norms and inner products) returns exactly the mathematical result, stores it in column-major order, gives the same value as its other spellings, and leaves every other matrix as it was. "
     "Indices outside the matrix are refused in builds with assertions.",
     ["inputs", "configurations", "histories"],
     "all shapes, entry types, operand values and sequences of operations, including results assigned to an operand",
     "The stable test evaluates a handful of points; an index that is right for square matrices only, or an in-place variant that differs from its pure form, passes it.",
     [I + "dense_la.hxx"],
     [("SmallMat and its free operators", I + "dense_la.hxx")],
     ["return values and operands of the operators of SmallMat"],
     "DenseAlgebra", MB + INT + "Shapes up to 3x3 with double, float and int entries.")
prop("P16", "Dense solves, determinants and QR satisfy their defining equations",
     "For every regular matrix the solution returned by the dense solvers satisfies the linear system for every right-hand side, and an exactly singular matrix raises the documented exception instead of returning a result. "
     "Every QR factorisation satisfies QR = A with orthogonal Q (a rotation for a single column in space) and upper triangular R (its reduced forms agree with it, whatever the targets contained before), and determinants equal the Leibniz formula, respectively the volume of the spanned parallelotope for rectangular matrices.",
     ["inputs", "configurations"],
     "all shapes, regular, singular, triangular, permuted and rank deficient matrices, all overloads",
     "No stable test solves a system; a permutation or sign that happens to be trivial for the sampled matrices is not noticed.",
     [I + "dense_la.hxx", I + "wrapper/lapack.hxx"],
     [("operator/ of SmallMat, qr_decomp, determinant", I + "dense_la.hxx"), ("lapack_solve, lapack_qr_decomp_*, lapack_det", I + "wrapper/lapack.hxx")],
     ["return values, exceptions and targets of the dense solver and QR interfaces"],
     "DenseAlgebra", MB + "Shapes up to 4x4 with small integer entries; floating point results are compared with the exact ones of the specification (tolerance 4e-4 double, 2e-2 float). LAPACK itself is trusted. One known finding (handedness of Q for 3x1 matrices along the first axis).")
prop("P17", "Long-vector kernels are exact; conjugate gradients solve or say they did not",
     "Linear combinations (also into one of the operands), inner products and norms of long vectors are the mathematical ones and leave their arguments alone; vectors of different length are refused in assertion-enabled builds. "
     "For every symmetric positive definite operator and right-hand side, the conjugate gradient solver needs at most as many products as iterations are allowed (the size of the system by default), returns a vector whose residual norm is below the tolerance whenever the exact method gets there within the allowance, and otherwise throws its exception instead of returning; it does not modify the right-hand side. Used on an elliptic problem with declared Dirichlet unknowns, it yields the solution of the restricted equations, zero at the declared unknowns.",
     ["inputs", "histories", "configurations"],
     "all vectors, coefficients, aliasing patterns, operators, right-hand sides, iteration limits, tolerances, networks and Dirichlet lists",
     "A solver test looks at one converged system; the exact moment of stopping, failure to converge, tiny right-hand sides and aliasing are never sampled.",
     [I + "sparse_la.hxx", GL + "elliptic.hxx"],
     [("inner_product, norm_2, linear_combination, conjugate_gradient", I + "sparse_la.hxx"), ("trace_to_flux, residual_flux, read_dirichlet_indices", GL + "elliptic.hxx")],
     ["return values and exceptions of SparseLA functions", "number of operator products"],
     "SparseSolve", MB + "Integer systems of at most 7 unknowns; the number of steps of the exact method is the Krylov dimension computed in the specification, which TLC proves for all small systems in rational arithmetic.")
prop("P18", "Plot options persist and every plot writes exactly the file its options name",
     "For every sequence of option calls and plots, an option keeps the value it was last given until it is changed, every call returns the option's current value, an empty value only asks, and unknown options, file types and unreadable numbers are refused and change nothing. "
     "Each plot writes exactly one file, named by directory, file name, current number (if numbers are printed) and ending, leaves every other file untouched and advances the number by one if and only if incrementing is switched on; a failed plot changes neither files nor options. The plotted vector is not modified and options of different problems are independent.",
     ["histories", "configurations"],
     "all sequences of option calls, plots (through a problem object and directly), refinements and new problems",
     "No stable test plots anything; an overwritten or misnumbered result file only shows up in particular option sequences.",
     [I + "plot.hxx", GL + "elliptic.hxx", GL + "parabolic.hxx", GL + "mass_approx_eigenvalue.hxx", GL + "shifted_inverse_eigenvalue.hxx", GL + "nonlinear_eigenvalue.hxx"],
     [("set_plot_option, open_ofstream, plot", I + "plot.hxx"), ("plot_option, plot_solution", GL + "*.hxx")],
     ["return values of plot_option / set_plot_option", "names and digests of all files below the working directory"],
     "PlotFile", MB + "Option values from finite tables.")
prop("P19", "A plot file is a consistent grid showing the given solution on the given mesh",
     "For every hypergraph, refinement, dimension, choice of plotted parts and scaling, the written file is a well-formed unstructured grid: point and cell counts, connectivity, offsets and cell types agree with each other and with the hypergraph; point coordinates are the (scaled) corners of each hyperedge and of each of its faces in the stated order, and the value array has one entry per point and component, which for hyperedges is what the local solver returns for that hyperedge's own skeletal values at the given time, padded with zeros.",
     ["inputs", "configurations"],
     "all hypergraphs (structured and from files), refinements, hyperedge dimensions 1 to 3, space dimensions, component numbers, plot options, vectors and times",
     "No stable test reads a plot file.",
     [I + "plot.hxx", I + "geometry/unit_cube.hxx", I + "geometry/file.hxx", I + "hypercube.hxx"],
     [("plot_vtu, plot_vtu_unstructured_geometry, plot_edge_values, plot_boundary_values", I + "plot.hxx"), ("lexicographic, boundary_lexicographic", I + "geometry/unit_cube.hxx and file.hxx")],
     ["the VTU files written by plot and plot_solution"],
     "PlotFile", MB + "Values are whole numbers (four digits are written). Values on faces are placeholders in this version and only counted.")
LS = I + "local_solver/"
prop("P20", "Local diffusion solvers reproduce polynomial solutions exactly",
     "On every hyperedge (any shape, dimension and embedding), for every polynomial degree and time: if the exact solution of the diffusion equation with the given coefficients, source and boundary types is a polynomial of the local degree, then from its trace each local diffusion solver returns exactly its outward flux through every face (zero on faces of Dirichlet type), its values and its dual values at every point, and the squared L2 distance to any other given function as its error; node types report exactly the Dirichlet faces.",
     ["inputs", "configurations"],
     "all hyperedge shapes, dimensions, degrees, stabilisations, coefficients varying in space and time, sources, boundary types and polynomial solutions",
     "The stable tests do not run a local solver; a wrong sign, normal, area or time argument only shows for particular shapes, coefficients or times.",
     [LS + "diffusion_ldgh.hxx", LS + "diffusion_ldgh_pp.hxx", LS + "diffusion_ip.hxx", LS + "diffusion_uniform_ldgh.hxx", I + "geometry/file.hxx", I + "mapping/linear.hxx"],
     [("residual_flux, trace_to_flux, bulk_values, errors, node_types", LS + "diffusion_*.hxx")],
     ["return values of the local solver functions for single hyperedges"],
     "LocalSolver", MB + "Quadrature and shape function classes come from an absent submodule; a stand-in with the interface used here replaces it. Dimensions 1 to 3, degree at most 3, results compared on a grid of 1/64.")
prop("P21", "Local diffusion solvers are affine, conservative, symmetric and dissipative",
     "For every hyperedge and every trace (not only traces of smooth solutions) the flux returned by a local diffusion solver is affine in the trace with linear part trace_to_flux; the fluxes through all faces add up to the integral of the source; constant traces carry no flux; the linear part is symmetric (not claimed for the interior penalty method) and strictly dissipative on non-constant traces; rows of Dirichlet faces vanish; and on lowest order boxes and on curves the flux is the closed formula of the method.",
     ["inputs", "configurations"],
     "all hyperedge shapes, dimensions, degrees, stabilisations, boundary types and skeletal vectors",
     "The stable tests do not run a local solver; exactness for smooth solutions does not determine the response to arbitrary skeletal vectors, on which solvability and conservation of the global system rest.",
     [LS + "diffusion_ldgh.hxx", LS + "diffusion_ldgh_pp.hxx", LS + "diffusion_ip.hxx", LS + "diffusion_uniform_ldgh.hxx"],
     [("residual_flux, trace_to_flux", LS + "diffusion_*.hxx")],
     ["return values of the local solver functions for single hyperedges"],
     "LocalSolver", MB + "Same stand-in for quadrature and shape functions as P20. Dimensions 1 to 3, degree at most 3, results compared on a grid of 1/64.")
prop("P22", "The time stepping local solver is exact in time-linear solutions and balanced",
     "For every hyperedge, theta, step size, degree and history of initialisation, residuals, data updates and error evaluations of the parabolic local solver: if the solution is a polynomial in space and linear in time, then starting from its initial values every step with its trace returns exactly the theta-weighted flux of the new and the remembered time (zero at Dirichlet faces), its values at the new time, and errors measure the remembered state. "
     "For arbitrary traces the residual is affine with linear part trace_to_flux, every step changes the integral of the remembered state by exactly what the source supplies minus what flows out, the linear part is symmetric, and evaluating residuals, values or errors never changes what is remembered.",
     ["histories", "inputs", "configurations"],
     "all hyperedge shapes, degrees, stabilisations, theta, step sizes, time dependent coefficients, sources and boundary values, traces and call histories",
     "The stable tests do not run a local solver, and an error in what is remembered shows only after several steps.",
     [LS + "diffusion_parab_ldgh.hxx"],
     [("make_initial, residual_flux, trace_to_flux, set_data, errors, bulk_values", LS + "diffusion_parab_ldgh.hxx")],
     ["return values of the local solver functions over histories on single hyperedges"],
     "LocalStep", MB + "Same stand-in for quadrature and shape functions as P20. Steps of whole units, theta in quarters, degree at most 3 (1 for three-dimensional hyperedges).")
prop("P23", "The eigenvalue local solver and its Jacobian satisfy the resolvent identity",
     "For every hyperedge, degree, trace and eigenvalue parameter, the flux returned by the local solver of the nonlinear eigenvalue problem is the diffusion flux at parameter zero, and differences in the parameter satisfy the resolvent identity with the returned solution values; the Jacobian in any direction is the flux of the direction plus the derivative of that identity, i.e. the true derivative; rows of Dirichlet faces vanish; initial values are the projections of the given initial function at the given time; and node types are exactly the Dirichlet faces.",
     ["inputs", "configurations"],
     "all hyperedge shapes, degrees, stabilisations, coefficients, eigenvalue parameters, traces and directions",
     "The stable tests do not run a local solver; a Jacobian that is slightly wrong only slows Newton's method down.",
     [LS + "diffusion_eigs_ldgh.hxx"],
     [("trace_to_flux, jacobian_of_trace_to_flux, bulk_values, make_initial, node_types", LS + "diffusion_eigs_ldgh.hxx")],
     ["return values of the local solver functions on single hyperedges"],
     "LocalEigs", MB + "Same stand-in for quadrature and shape functions as P20. Parameters in eighths, away from resonances.")
prop("P24", "The bilaplacian local solvers are exact, reciprocal and balanced",
     "For every hyperedge, degree, boundary type of each of the two unknowns and time, the local solvers of the biharmonic equation (variable coefficient, uniform, eigenvalue and time stepping) return from the two traces of a polynomial solution exactly the two outward fluxes (zero in rows of unknowns that are prescribed), the values and dual values of both unknowns, and the squared L2 error. "
     "For arbitrary traces the residual is affine with linear part trace_to_flux, the flux of the second unknown balances the source (and the change of the remembered state when stepping), the flux of the first unknown balances the integral of the second, the linear part satisfies the reciprocity law of the mixed system, the Jacobian of the eigenvalue solver is the derivative of its flux, and initial values are the projections of the given initial functions; node types report exactly which unknowns are prescribed.",
     ["inputs", "histories", "configurations"],
     "all hyperedge shapes, degrees, stabilisations, coefficients, sources, boundary types, traces, eigenvalue parameters and call histories",
     "The stable tests do not run a local solver; mixing up the two unknowns or their boundary types shows only for particular boundary types and non-smooth traces.",
     [LS + "bilaplacian_ldgh.hxx", LS + "bilaplacian_uniform_ldgh.hxx", LS + "bilaplacian_eigs_ldgh.hxx", LS + "bilaplacian_parab_ldgh.hxx"],
     [("residual_flux, trace_to_flux, bulk_values, errors, make_initial, set_data, jacobian_of_trace_to_flux, node_types", LS + "bilaplacian_*.hxx")],
     ["return values of the local solver functions over histories on single hyperedges"],
     "LocalPlate", MB + "Same stand-in for quadrature and shape functions as P20. Time stepping with theta = 1 (the source says it has to be extended for other theta).")
prop("P25", "The advection-diffusion-reaction local solver is exact and balanced",
     "For every hyperedge, degree, time, velocity b, inverse diffusion and reaction rate c (varying in space and time): from the trace of a polynomial solution of kinv q = -grad u + b u, div q + c u = f the local solver returns exactly the outward flux of q through every face (zero on Dirichlet faces), the values of u and q everywhere and the squared L2 error. "
     "For arbitrary traces the residual is affine with linear part trace_to_flux, what flows out is what the source supplies minus what reacts, constants are transported with the velocity, without velocity the linear part is symmetric, the mass flux is the Gram form of the local solutions, and on lowest order boxes the fluxes are the closed formulas of the method.",
     ["inputs", "configurations"],
     "all hyperedge shapes, dimensions, degrees, stabilisations, velocities, coefficients, boundary types, times and skeletal vectors",
     "The stable tests do not run a local solver; a wrong sign or time of the velocity or a missing reaction term only shows for particular data.",
     [LS + "diffusion_advection_reaction_ldg.hxx"],
     [("residual_flux, trace_to_flux, trace_to_mass_flux, total_numerical_flux_mass, bulk_values, errors, node_types", LS + "diffusion_advection_reaction_ldg.hxx")],
     ["return values of the local solver functions for single hyperedges"],
     "LocalFlow", MB + "Same stand-in for quadrature and shape functions as P20. Degree at most 3, results compared on a grid of 1/64. make_initial and errors_temp of this class cannot be instantiated and are left out.")
prop("P26", "Timoshenko beams carry exact forces and moments and are in equilibrium",
     "For every straight beam in space, degree and stabilisation: from end displacements and rotations of a polynomial solution of the Timoshenko beam equations (force n = -(u' + s t x phi), n' = f_n, moment m = -phi', m' + s t x n = f_m, with one orientation s of rotations) the local solver returns exactly the outward forces and moments at both ends in global coordinates (zero at Dirichlet ends), the displacement along the beam and the squared L2 error of the displacement. "
     "For arbitrary end values the response is affine with linear part trace_to_flux, forces and moments are in equilibrium with the loads, the linear part is symmetric and dissipative, and without loads it is the closed stiffness matrix of a Timoshenko beam.",
     ["inputs", "configurations"],
     "all directions, lengths and positions of beams, degrees, stabilisations, loads, boundary types and end values",
     "The stable tests do not run a local solver; errors in the change between local and global coordinates show only for beams in general position.",
     [LS + "timoshenko_network.hxx", I + "geometry/file.hxx", I + "mapping/linear.hxx"],
     [("residual_flux, trace_to_flux, bulk_values, errors", LS + "timoshenko_network.hxx")],
     ["return values of the local solver functions for single hyperedges"],
     "LocalBeam", MB + "Same stand-in for quadrature and shape functions as P20. Beams of whole length, structural constants given for axis-parallel beams only, stationary data; degree at most 3. Known finding: beams along the first axis use the opposite orientation of rotations.")
PY = "import/HyperHDG/import_cxx/"
prop("P27", "include() returns the class made from current files and configuration",
     "For every history of edits (headers, their include lists, Cython templates and settings, own code), failing compilations, new processes and calls of include with any configurations (classes with template arguments, replacements, own code, additional include files, debug mode): include returns a class built from exactly this configuration and the versions of all directly and indirectly needed files that are current when the process first imports it, never a module of another configuration or of older files; it compiles if and only if something it depends on changed since the last successful compilation; a failed compilation is reported and leaves nothing behind that is used later; and the configuration of the user is left unchanged.",
     ["histories", "inputs", "crash points"],
     "all histories of edits, process restarts, failed compilations and include calls with arbitrary configurations",
     "The stable tests do not use the Python interface, and stale or mixed-up modules only show after particular histories.",
     [PY + x for x in ("include.py", "compile_prep.py", "names.py", "config.py", "cpp.py", "cmake.py", "paths.py")],
     [("include", PY + "include.py"), ("need_compile, own_code", PY + "compile_prep.py"), ("files", PY + "names.py"), ("find_definition", PY + "cpp.py"), ("extract_includes, generate_cy_replace", PY + "config.py")],
     ["the class returned by include, and whether cython, compiler and linker were run"],
     "JitCache", MB + "Cython, compiler and linker are replaced by stand-ins recording their inputs; the source tree is synthetic; a module that a process has imported stays what it is until the process ends; includes in quotation marks and simultaneous edits are left out.")
prop("P28", "Objects of the compiled Python classes behave as the C++ problems they wrap",
     "For every history of calls on any number of Python objects of the five compiled classes (constructed from text or numbers, with or without arguments for geometry and local solver), every call returns exactly what the wrapped C++ problem returns for these arguments (vectors given as lists or tuples, times defaulting to zero, matrices as columns, rows and values, refine with and without argument), arguments are left unchanged, options and plots act on the object they are called for, objects do not influence each other, and what C++ refuses with an exception raises a Python exception and leaves the object usable.",
     ["histories", "inputs", "configurations"],
     "all interleaved call histories of several objects, all five classes, constructor variants and argument forms",
     "The stable tests do not use the Python interface.",
     ["cython/%s.%s" % (x, e) for x in ("elliptic", "parabolic", "mass_approx_eigenvalue", "shifted_inverse_eigenvalue", "nonlinear_eigenvalue") for e in ("pyx", "pxd", "cfg")] + [PY + "include.py", PY + "config.py", "cmake_cython.cfg.in"],
     [("the wrapped methods", "cython/*.pyx"), ("declared signatures", "cython/*.pxd"), ("include", PY + "include.py")],
     ["return values and exceptions of the methods of the Python classes", "files written by plot_solution"],
     "PyLoop", MB + INT + "Compiled by the installed Cython and g++ in a scratch tree, without optimisation, on hypergraphs and local solvers of our own. What only an assertion refuses (it ends the process) is left out.")
prop("P29", "Solved whole problems give the exact solution on every mesh and network",
     "For every mesh of a parallelepiped (files with any numbering, cubic grids, any number of hyperedges and refinement) and polynomial data, the system that a global loop and a diffusion, advection-reaction, advection or bilaplacian solver form together leaves out exactly the unknowns at prescribed sides, the remaining system has exactly one solution, and the error the loop then reports is that of the exact polynomial solution, at every step of a time march as well; the library's conjugate gradients find the same solution. "
     "On every network of curves the products and residuals are those of Kirchhoff's laws (with the prescribed values and sources), the solved values balance the fluxes at every hypernode where no value is prescribed, dividing the curves does not change them, and the reported error is the norm of the piecewise solution.",
     ["inputs", "configurations", "histories"],
     "all meshes, numberings, refinements, types of the sides, polynomial degrees and data; all networks (junctions of any number of curves, several curves between two ends), values, sources and divisions",
     "No stable test solves a problem; the example prints one error for one mesh.",
     [GL + "elliptic.hxx", GL + "parabolic.hxx", I + "hdg_hypergraph.hxx", I + "hypernodefactory.hxx", I + "sparse_la.hxx", I + "topology/file.hxx", I + "topology/cubic.hxx", I + "geometry/file.hxx", I + "geometry/unit_cube.hxx", I + "node_descriptor/file.hxx", I + "node_descriptor/cubic.hxx"]
     + [I + "local_solver/%s.hxx" % x for x in ("diffusion_ldgh", "diffusion_ldgh_pp", "diffusion_ip", "diffusion_advection_reaction_ldg", "bilaplacian_ldgh", "diffusion_parab_ldgh", "bilaplacian_parab_ldgh")],
     [("the loops", GL + "*.hxx"), ("what they are put together from", I + "hdg_hypergraph.hxx"), ("solving", I + "sparse_la.hxx")],
     ["size_of_system", "trace_to_flux, residual_flux, make_initial, set_data, errors of the loops", "solutions of the assembled systems and of SparseLA::conjugate_gradient"],
     "GlobalSolve, Network", MB + "Compared in fixed point. Shape functions and quadrature are our stand-in for the absent submodule. Sides without prescribed values carry no flux (the library has no other natural condition); the parabolic loops march with constant steps.")
prop("P30", "The advection local solver carries solutions exactly and loses nothing",
     "For every hyperedge of a cubic grid, velocity (varying in space and time, possibly turning between steps), theta, step size, degree, boundary types and history of initialisation, residuals, data updates and error evaluations of the advection local solver: if the solution is a polynomial in space and linear in time, then starting from its initial values every step with its trace returns exactly the theta-weighted normal flux of the new and the remembered time at inner faces, zero at faces with prescribed values and at outlets, and remembers exactly the solution; faces of turning type count as prescribed where the velocity does not leave the hyperedge and as outlets where it does, at the time of the call. "
     "For arbitrary traces the residual is affine with linear part trace_to_flux, every step changes the integral of the remembered state by exactly what the source supplies minus what leaves (upwind: outflow carries inner values, inflow the trace or the prescribed values), values and errors show the remembered state, and evaluating anything does not change it.",
     ["histories", "inputs", "configurations"],
     "all hyperedges, velocities, degrees, stabilisations, theta, step sizes, sources, boundary types, traces and call histories",
     "The stable tests do not run a local solver, and errors in the upwind choice show only for certain directions and times.",
     [LS + "advection_parab_ldgh.hxx"],
     [("make_initial, residual_flux, trace_to_flux, set_data, errors, bulk_values", LS + "advection_parab_ldgh.hxx")],
     ["return values of the local solver functions over histories on single hyperedges"],
     "LocalAdvect", MB + "Same stand-in for quadrature and shape functions as P20; of the integrals over the outflow and inflow parts of faces, which are not part of this tree, the only reading is taken under which the method is consistent. Hyperedges of cubic grids, theta in quarters, degree at most 3.")
