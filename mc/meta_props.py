def define(prop):
    prop(
        'C01', 'Region definitions follow set algebra over mesh entities',
        'For any mesh and any region expression built from the documented'
        ' selectors and the +, -, * and intersection operators over'
        ' vertices, edges, faces, facets and cells, the resulting region'
        ' contains exactly the entities given by the documented set semantics,'
        ' together with their closure, for every region kind. The'
        ' result does not depend on the order or numbering in which equivalent'
        ' sets are written, the operands are not changed, and an empty or'
        ' invalid definition is reported.',
        ['inputs', 'programs'],
        'all expressions up to a depth bound over a basis of selectors, all'
        ' region kinds, small meshes of every cell type',
        'The tests build a few fixed regions on one mesh; the laws must hold'
        ' for every combination of operator, operand kinds and nesting.',
        ['sfepy/discrete/common/region.py', 'sfepy/discrete/parse_regions.py',
         'sfepy/discrete/common/domain.py', 'sfepy/discrete/fem/domain.py'],
        [('expression grammar and stack', 'parse_regions.create_bnf'),
         ('entity algebra', 'Region.eval_op_*'),
         ('leaf evaluation', 'domain.region_leaf / region_op'),
         ('closure and completion', 'Region.setup_from_highest,'
          ' setup_from_vertices, finalize')],
        technique='bounded exhaustive enumeration of region expressions run on'
        ' the real code against a reference set algebra',
        note='Exhaustive for the expression grammar up to the stated operator'
        ' depth on the listed small meshes; the reference is an independent'
        ' set-based evaluator on the mesh incidence.',
        observe=['domain.create_region(...).entities / vertices / cells'])
    prop(
        'C02', 'Evaluation order respects all declared dependencies',
        'Regions referring to other regions, coupled equations solved by'
        ' blocks, and homogenization requirements are processed in an order in'
        ' which everything needed is available before its use, whatever the'
        ' order of the definitions; each is processed exactly once and circular'
        ' or missing dependencies are reported rather than silently accepted.',
        ['inputs', 'configurations', 'histories'],
        'all dependency graphs up to the bound of nodes, in all'
        ' definition orders',
        'The tests use one acyclic hand ordered definition; order mistakes'
        ' depend on the graph and on the dictionary order.',
        ['sfepy/base/resolve_deps.py', 'sfepy/discrete/common/domain.py',
         'sfepy/discrete/problem.py', 'sfepy/homogenization/engine.py'],
        [('resolve', 'resolve_deps.resolve'),
         ('region ordering', 'Domain.create_regions, sort_by_dependency'),
         ('block solve', 'Problem.block_solve'),
         ('requirement resolution', 'HomogenizationEngine / '
          'HomogenizationWorker')],
        technique='explicit enumeration of all dependency graphs up to a size'
        ' with all definition orders, run on the real code against a'
        ' reference topological closure',
        note='Exhaustive over digraphs of the stated size; orders checked'
        ' against an independent reachability computation.')
    prop(
        'C03', 'Mesh topology: incidence, orientation, geometry are consistent',
        'For any mesh, the computed edges, faces and all incidence relations'
        ' are exactly the sub-entities of its cells, each shared entity is'
        ' counted once, the relations between different dimensions are mutual'
        ' transposes, and orientations, centroids, volumes, normals and the'
        ' surface are those of the geometry; entity queries do not depend on'
        ' the order in which connectivities were requested or on vertex and'
        ' cell numbering.',
        ['inputs', 'histories'],
        'all vertex renumberings of small meshes of each cell type, all'
        ' vertex subsets, all request orders of connectivities',
        'Tests check entity counts of two meshes; a wrong incidence shows'
        ' only for certain local numberings.',
        ['sfepy/discrete/common/extmods/mesh.c',
         'sfepy/discrete/common/extmods/cmesh.pyx',
         'sfepy/discrete/fem/mesh.py', 'sfepy/discrete/fem/geometry_element.py'],
        [('connectivity build', 'mesh_build, mesh_transpose, mesh_intersect'),
         ('orientation', 'mesh.c uint32_sort*, cmesh facet_oris'),
         ('geometry', 'mesh_get_centroids, mesh_get_volumes,'
          ' mesh_get_facet_normals')],
        technique='bounded exhaustive enumeration of vertex permutations,'
        ' entity subsets and connectivity request sequences against a'
        ' set-based reference topology',
        note='Exhaustive on the listed small meshes; the reference topology is'
        ' built from the cell connectivity alone.')
    prop(
        'C04', 'Essential and periodic conditions partition the DOFs correctly',
        'For any set of essential and periodic boundary conditions applied to'
        ' a variable, and at any time, each DOF is exactly one of: fixed to'
        ' the prescribed value, tied to exactly the DOFs that the periodic'
        ' conditions connect it with (chains and shared nodes included), or'
        ' free and numbered uniquely. The active DOF numbers are contiguous, a'
        ' reduced vector expanded to the full one satisfies all the'
        ' conditions, reduction and expansion are mutually inverse, and the'
        ' result does not depend on irrelevant ordering; where several'
        ' essential conditions meet, the last one in the order of keys wins.',
        ['inputs', 'configurations', 'histories'],
        'all small sets of conditions over few nodes, component maps,'
        ' activity in time, variable layouts',
        'The tests solve one periodic problem; overlapping conditions and'
        ' their order and activity in time are not covered.',
        ['sfepy/discrete/common/dof_info.py', 'sfepy/discrete/variables.py',
         'sfepy/discrete/conditions.py', 'sfepy/discrete/fem/periodic.py',
         'sfepy/discrete/common/fields.py'],
        [('equation mapping', 'EquationMap.map_equations'),
         ('expansion and reduction', 'FieldVariable.get_full/get_reduced,'
          ' Variables.make_full_vec/reduce_vec'),
         ('conditions', 'Conditions, EssentialBC, PeriodicBC')],
        technique='bounded exhaustive enumeration of boundary condition sets'
        ' and time activity tables against a union-find reference',
        note='Exhaustive over condition sequences within the stated bounds on'
        ' small fields; the reference is a union-find with last key wins.')
    prop(
        'C05', 'Time stepping visits the right times and states',
        'Time steppers generate the times they promise in any sequence of'
        ' operations (set, advance, restart, change of the step), never skip'
        ' or repeat a step nor overrun the end; adaptive solvers accept a step'
        ' only when the nonlinear solve converged or the step cannot be'
        ' reduced, restore the state on rejection, and record the accepted'
        ' states in order; elastodynamics schemes follow their recurrences,'
        ' evaluate loads at the right times, and step size controllers keep'
        ' the accepted history consistent for any accept/reject sequence.',
        ['inputs', 'histories', 'configurations'],
        'all operation sequences up to a depth, all scripts of the nonlinear'
        ' solver/controller answers up to a length',
        'Rejections and their position in a run depend on the solver answers'
        ' that tests do not vary.',
        ['sfepy/solvers/ts.py',
         'sfepy/solvers/ts_solvers.py', 'sfepy/solvers/ts_controllers.py'],
        [('time steppers', 'TimeStepper, VariableTimeStepper'),
         ('adaptive stepping', 'adapt_time_step, AdaptiveTimeSteppingSolver'),
         ('elastodynamics', 'ElastodynamicsBaseTS and its subclasses'),
         ('controllers', 'TSC classes in ts_controllers')],
        technique='explicit exploration of all operation sequences and all'
        ' scripted solver/controller answer sequences, compared with reference'
        ' automata and recurrences',
        note='The solvers run with scripted nonlinear solvers and controllers;'
        ' exhaustive over the scripts up to the stated length.')
    prop(
        'C06', 'H1 fields are conforming and their DOFs follow the topology',
        'For any vertex order and orientation of neighbouring cells, every'
        ' global basis function of an H1 field is single-valued on shared'
        ' vertices, edges and faces, cells share exactly the DOFs that do not'
        ' vanish there, the DOF connectivity of a field in any subregion is'
        ' the restriction of that in the whole domain (also in meshes with'
        ' several cell kinds), the DOFs in a region are those of its entities,'
        ' facet connectivities and surface traces agree with the volume field,'
        ' polynomials up to the order are reproduced from node values, and'
        ' setting, extending, averaging and linearizing DOFs keep the values.',
        ['inputs', 'configurations'],
        'all local vertex orders of two cells sharing an entity x all orders of'
        ' shared vertices x bases and orders; all cell subsets of tiny meshes;'
        ' all entity pairs as queried regions; all facet pairs',
        'A wrong orientation permutation shows only for particular vertex'
        ' numberings, orders and cell types, subregions and mixed meshes.',
        ['sfepy/discrete/fem/fields_base.py',
         'sfepy/discrete/fem/fields_nodal.py',
         'sfepy/discrete/fem/fields_hierarchic.py',
         'sfepy/discrete/fem/fields_positive.py',
         'sfepy/discrete/fem/facets.py', 'sfepy/discrete/fem/fe_surface.py',
         'sfepy/discrete/fem/linearizer.py'],
        [('facet DOFs', 'GlobalNodalLikeBasis._setup_facet_dofs,'
          ' H1HierarchicVolumeField._setup_facet_dofs'),
         ('orientation tables', 'get_facet_dof_permutations'),
         ('region DOFs', 'FEField.get_dofs_in_region, set_dofs'),
         ('facet connectivity', 'FEField._setup_esurface, FESurface')],
        technique='explicit enumeration of all vertex orders and cell subsets'
        ' on the real fields, traces evaluated from both sides as the oracle',
        note='Exhaustive over the orientations for the given orders of the'
        ' bases; larger meshes follow as conformity is a pairwise property.')
    prop(
        'C08', 'Assembled residuals and matrices are the sums over elements',
        'Whatever the essential and periodic conditions, numbering (active'
        ' DOFs only or all), order of variables, sharing of DOFs, field'
        ' orders and subregions, missing equations of a variable, surface,'
        ' point, trace or time derivative terms, the assembled residual and'
        ' tangent matrix are exactly the sums of the element contributions of'
        ' all terms (with signs and coefficients) at the active positions of'
        ' their DOFs; the matrix graph contains all the positions once, the'
        ' parts by terms and by blocks are those of the named terms and'
        ' blocks, and repeated evaluation or changing the conditions between'
        ' time updates gives the same as a fresh evaluation.',
        ['inputs', 'histories'],
        'all subsets of nodes with conditions, of cells of terms and fields,'
        ' all orders of variables, on small meshes, several systems of'
        ' equations, all short sequences of time updates',
        'Wrong positions need special combinations of constrained DOFs,'
        ' subregions, variables order and options; tests check converged'
        ' solutions of a few problems.',
        ['sfepy/discrete/equations.py', 'sfepy/terms/terms.py',
         'sfepy/discrete/common/extmods/assemble.pyx'],
        [('matrix graph', 'create_matrix_graph, get_graph_conns'),
         ('assembling', 'Term.assemble_to, assemble.pyx'),
         ('evaluation', 'Equations.eval_residuals, eval_tangent_matrices')],
        technique='exhaustive enumeration of conditions, subregions and'
        ' numberings on small meshes, every assembled vector and matrix'
        ' compared with a dense sum of the element contributions',
        note='The element contributions are observed by the assemble hook of'
        ' the code, they are not judged here.')
    prop(
        'C09', 'Meshes and results survive writing to files and reading back',
        'Whatever the types of cells in a mesh, their order, material ids and'
        ' vertex groups, writing it to any available format and reading it'
        ' back, also through another format or a copy, gives the same mesh'
        ' up to what the format cannot represent; the saved vertex and cell'
        ' data of any size are those read; every sequence of saved time steps'
        ' is read back with its steps, times, data and histories in the order'
        ' of steps, and saving an existing step fails and damages nothing.',
        ['inputs', 'histories'],
        'all sequences of up to three blocks of cells, all assignments of'
        ' ids, all pairs of formats, all sizes of data, all subsets of time'
        ' steps, all short sequences of saved steps',
        'The errors are in special combinations: mixed meshes, facet cells,'
        ' ids or steps with more digits, data with more components; tests'
        ' convert a few files.',
        ['sfepy/discrete/fem/meshio.py', 'sfepy/discrete/fem/mesh.py',
         'sfepy/base/ioutils.py'],
        [('formats', 'MeshIO subclasses'), ('mesh data', 'Mesh._set_io_data,'
          ' _get_io_data, from_data, copy'),
         ('results', 'HDF5MeshIO.write, read_data, read_times,'
          ' read_time_history')],
        technique='exhaustive enumeration of meshes, formats, data and'
        ' sequences of writes, every file read back and compared with the'
        ' written data')
    prop(
        'C10', 'Nonlinear solvers iterate as documented and report truthfully',
        'Whatever residuals, failures and linear solutions are met, Newton\'s'
        ' method evaluates the residual at the damped trial points given by'
        ' its options, updates the tangent matrix when it should, stops'
        ' exactly when the tolerances or the iteration limit say so, never'
        ' returns a failed point as a solution, and its status (condition,'
        ' errors, numbers of iterations) describes the returned vector. The'
        ' semismooth Newton method returns solutions of the complementarity'
        ' problem whenever it reports convergence.',
        ['inputs', 'histories', 'configurations'],
        'all scripts of residual and linear solver answers up to a length,'
        ' option variants, small complementarity problems',
        'Line search, failures and their combinations occur only for special'
        ' residual sequences that the tests do not produce.',
        ['sfepy/solvers/nls.py', 'sfepy/solvers/semismooth_newton.py'],
        [('convergence test', 'conv_test'),
         ('line search', 'apply_line_search_bt'),
         ('iterations', 'Newton.__call__'),
         ('semismooth', 'SemismoothNewton.__call__, compute_jacobian')],
        technique='stateless model checking: all scripts of environment'
        ' answers are run on the real solver and compared, event by event,'
        ' with a reference automaton',
        level='model_checking',
        note='Every explored trace of the reference automaton is run on the'
        ' implementation, all events compared; exhaustive over the scripts'
        ' up to the stated length.')
    prop(
        'C11', 'Linear and eigenvalue solvers solve the system they are given',
        'A linear solver instance returns a solution of the system with the'
        ' matrix and right-hand side given in the call, within the requested'
        ' tolerances, for any history of previous solves, presolves, clears'
        ' and changes of the matrix (including in place), without modifying'
        ' its arguments; factorizations are reused only for the same matrix;'
        ' fallback chains pick the first available solver with its options.'
        ' Eigenvalue solvers return the requested number of correct'
        ' eigenpairs of the requested part of the spectrum.',
        ['histories', 'inputs', 'configurations'],
        'all sequences of operations on a solver instance up to a length, all'
        ' available solvers, all availability patterns of fallback chains',
        'Tests solve one system once per solver; stale factorizations need'
        ' a history of different matrices.',
        ['sfepy/solvers/ls.py', 'sfepy/solvers/eigen.py',
         'sfepy/solvers/qeigen.py', 'sfepy/solvers/auto_fallback.py',
         'sfepy/solvers/solvers.py'],
        [('matrix identity', '_is_new_matrix, _get_cs_matrix_hash'),
         ('presolve and reuse', 'ScipyDirect.presolve, MUMPSSolver.presolve'),
         ('fallback', 'use_first_available, AutoFallbackSolver')],
        technique='explicit exploration of all operation sequences of solver'
        ' instances, the deciding oracle is the residual with the current'
        ' matrix',
        level='model_checking',
        note='Histories are exhaustive up to the stated length for each'
        ' installed solver; PETSc/SLEPc based solvers are not available.')
    prop(
        'C07', 'Variables yield the current values for any operation history',
        'After any sequence of setting DOFs (whole, part of a larger vector,'
        ' constants, functions, quadrature point or vertex data), applying'
        ' boundary and initial conditions, reduced or full state updates,'
        ' advancing in time and changing the time step, the DOFs, values in'
        ' regions, values, gradients and time derivatives in quadrature points'
        ' and reduced vectors obtained from variables are those of the current'
        ' DOFs of the requested time step; no evaluated data are stale and'
        ' setting one time step or variable does not change another.',
        ['histories', 'inputs'],
        'all sequences of operations up to a length bound, variables with'
        ' history of 0 to 2 steps, with and without E(P)BCs and LCBCs',
        'Stale caches need evaluate - change - evaluate sequences mixing time'
        ' steps, which no test runs through.',
        ['sfepy/discrete/variables.py', 'sfepy/discrete/evaluate_variable.py'],
        [('time history', 'Variable.set_data, __call__, advance'),
         ('evaluate cache', 'FieldVariable.evaluate,'
          ' invalidate_evaluate_cache'),
         ('state vectors', 'Variables.set_state, apply_ebc, init_state')],
        technique='explicit exploration of all operation sequences up to a'
        ' bound on the real objects, compared with plain DOF vectors after'
        ' every sequence',
        level='model_checking',
        note='The reference model is a list of plain arrays; each explored'
        ' sequence runs on the implementation.')
    prop(
        'C12', 'Quadratures integrate exactly the polynomials they claim to',
        'For every reference element and every integration order, the sum of'
        ' weighted values of each monomial up to the order (total degree in'
        ' simplices and with full_order, degree in each coordinate in'
        ' quadrilaterals and hexahedra) is the exact integral over the'
        ' reference element; the points are in the element, tables have the'
        ' volume they claim; custom points given in other bounds are'
        ' transformed accordingly, and the requests for integrals in any order'
        ' give the same rules.',
        ['inputs', 'histories'],
        'all geometries, orders and monomials, all sequences of requests',
        'A wrong digit or exponent damages some monomials of some orders only;'
        ' tests evaluate a single polynomial per order.',
        ['sfepy/discrete/quadratures.py', 'sfepy/discrete/integrals.py',
         'sfepy/discrete/simplex_cubature.py'],
        [('rules', 'QuadraturePoints.from_table, quadrature_tables'),
         ('simplices', 'get_simplex_cubature'),
         ('integrals', 'Integral.get_qp, Integrals.get')],
        technique='exhaustive enumeration of rules and monomials, compared'
        ' with exact rational integrals')
    prop(
        'C13', 'Polynomial bases span their spaces and their derivatives are exact',
        'For every basis, reference element and order: the functions are'
        ' linearly independent polynomials spanning the complete space of the'
        ' order, first and second derivatives are the derivatives of the'
        ' values everywhere in the closed element, nodal bases are one in their'
        ' node and zero in others, partition-of-unity bases sum to one,'
        ' functions of a vertex, edge, face or interior vanish on facets not'
        ' containing it and the node partition covers all functions once;'
        ' points outside of the element are reported or snapped as requested'
        ' and an error does not influence later evaluations.',
        ['inputs', 'histories'],
        'all bases, elements, orders, all points of a unisolvent lattice'
        ' including vertices, edges and faces',
        'Tests check a gradient of a few orders by finite differences in'
        ' interior points only.',
        ['sfepy/discrete/fem/poly_spaces.py',
         'sfepy/discrete/fem/extmods/lagrange.c',
         'sfepy/discrete/fem/extmods/bases.pyx',
         'sfepy/discrete/fem/extmods/lobatto.c',
         'sfepy/discrete/dg/poly_spaces.py'],
        [('Lagrange', 'eval_basis_lagrange, LagrangePolySpace'),
         ('hierarchic', 'LobattoTensorProductPolySpace'),
         ('node description', 'NodeDescription, FEPolySpace.describe_nodes'),
         ('DG', 'LegendrePolySpace.get_interpol_scheme')],
        technique='exhaustive enumeration of bases, elements, orders and'
        ' lattice points, functions identified as polynomials by their values'
        ' on a unisolvent lattice')
    prop(
        'C14', 'Terms give the vectors, matrices and integrals of their formulas',
        'For every term in scope (about 120 of the term table: diffusion,'
        ' elasticity, coupling, convection, stabilization, surface, evaluated'
        ' and multi-linear terms, hyperelastic terms in total and updated'
        ' Lagrangian formulations), all its modes and shapes of arguments, the'
        ' weak vector and the matrices w.r.t. each state equal the quadrature'
        ' of the documented formula entry by entry in all DOFs, the tangent'
        ' belongs to the current state regardless of what was evaluated before,'
        ' evaluation modes (eval, el_eval, el_avg, qp) are consistent with each'
        ' other in any order of use on a single term, on all the cells or a'
        ' part of them, on all the boundary facets or a single facet, for'
        ' fields of equal or different orders, real or complex.',
        ['inputs', 'histories'],
        'all terms with a reference formula, all modes, argument shapes, cell'
        ' types, regions of all cells and facets or one, combinations of orders',
        'Tests evaluate terms on one region with one value, or check runs'
        ' without an error; errors appear with varying coefficients, distorted'
        ' cells, facets in 3D, different orders, or later states only.',
        ['sfepy/terms/*.py', 'sfepy/terms/extmods/*.c',
         'sfepy/discrete/fem/mappings.py', 'sfepy/discrete/fem/fields_base.py',
         'sfepy/discrete/common/extmods/geommech.c',
         'sfepy/discrete/evaluate_variable.py'],
        [('values', 'Term.evaluate of about 120 terms'),
         ('geometry', 'FEMapping.get_mapping, FEField.create_mapping'),
         ('argument values', 'evaluate_variable.eval_real'),
         ('multi-linear terms', 'ExpressionBuilder, ETermBase')],
        technique='exhaustive enumeration of terms, modes, argument shapes,'
        ' cell types, regions and orders, every entry compared with an'
        ' independent dense finite element model')
    prop(
        'C15', 'Fields evaluated in any points give their own values there',
        'The cell found for a point contains it (all cells if shared), the'
        ' returned reference coordinates map to the point, points outside are'
        ' reported, closest cells and extrapolation respect the close limit,'
        ' for every search strategy; values and gradients of a variable in'
        ' points equal those of its basis expansion, for fields in the whole'
        ' domain or its part; probes give points on their geometry and the'
        ' current values of the probed variable whatever was probed before'
        ' with any options, meshes and caches; projections to a space'
        ' containing the data are exact; saved or interpolated variables keep'
        ' their values; element diameters belong to the cells asked for.',
        ['inputs', 'histories'],
        'all points of lattices in, on and around all cells of small meshes,'
        ' all strategies and caches, all sequences of operations with a probe',
        'Tests probe one mesh inside a domain by one probe of a kind; errors'
        ' appear in cell centres, on shared facets, close to the boundary, on'
        ' subdomains, or after a change of options or meshes.',
        ['sfepy/discrete/common/global_interp.py', 'sfepy/discrete/probes.py',
         'sfepy/discrete/common/extmods/refcoors.c',
         'sfepy/discrete/common/extmods/crefcoors.pyx',
         'sfepy/discrete/fem/fields_base.py', 'sfepy/discrete/projections.py',
         'sfepy/discrete/variables.py'],
        [('point location', 'get_ref_coors, refc_find_ref_coors*'),
         ('values', 'Field.evaluate_at, FieldVariable.evaluate_at'),
         ('probes', 'Probe.probe, LineProbe, RayProbe, CircleProbe'),
         ('projections', 'make_l2_projection, project_by_component')],
        technique='exhaustive enumeration of lattice points, strategies and'
        ' sequences of probe operations up to a depth against an independent'
        ' location and basis evaluation')
    prop(
        'C16', 'Homogenization results follow the graph of their requirements',
        'Every corrector and coefficient is computed once per microstructure'
        ' from exactly the results of its own requirements in the same'
        ' microstructure and the given volumes, whatever the definition order,'
        ' chunking into parallel tasks, completion order or interleaving of'
        ' the tasks and number of calls; circular or missing requirements are'
        ' reported; only the asked coefficients are computed, auxiliary ones'
        ' are not returned; results of exactly the stored microstructures are'
        ' saved under the reported names; the recovery gets the given'
        ' correctors; microstructures are updated by the correctors and'
        ' macroscopic data; the effective coefficients are those of the'
        ' periodic micro-problem.',
        ['inputs', 'schedules', 'histories'],
        'all acyclic requirement graphs of few items, chunk sizes, stored'
        ' subsets, task schedules up to a preemption bound; all assignments'
        ' of two materials to the cells of a small periodic cell',
        'Tests run one graph serially or check lengths of lists; wrong'
        ' chunks, names or stale results appear for particular graphs,'
        ' schedules or later calls only.',
        ['sfepy/homogenization/engine.py',
         'sfepy/homogenization/homogen_app.py',
         'sfepy/homogenization/multiproc.py',
         'sfepy/homogenization/coefs_base.py',
         'sfepy/homogenization/utils.py'],
        [('ordering', 'get_sorted_dependencies, insert_sub_reqs'),
         ('parallel tasks', 'HomogenizationWorkerMulti.__call__,'
          ' chunk_micro_tasks, dechunk_reqs_coefs'),
         ('calls', 'HomogenizationEngine.call, define_volume_coef'),
         ('updates', 'HomogenizationApp.update_micro_states, call'),
         ('mini-applications', 'CorrDim*, CorrOne, Coef*, ShapeDim*')],
        technique='stateless exploration of the real engine under a controlled'
        ' scheduler replacing the process pool, exhaustive over graphs,'
        ' chunks and schedules with a preemption bound')
    prop(
        'C17', 'Refined meshes cover the same domain, their spaces contain the coarse ones',
        'Uniform refinement gives a conforming mesh of positive cells that'
        ' covers the same domain: volumes, boundaries, groups of vertices and'
        ' cells of the parents are kept, each child lies in its parent, new'
        ' vertices are shared, whatever the order of vertices and cells.'
        ' Local refinement of any set of cells, in several levels, makes'
        ' spaces with hanging nodes: exactly the asked cells are refined, the'
        ' functions are continuous, all polynomials up to the approximation'
        ' order are reproduced, degrees of freedom are numbered without gaps,'
        ' values set in the nodes, regions and facets are those of the refined'
        ' mesh.',
        ['inputs', 'histories'],
        'all sets of refined cells of small grids, all orientations of cells,'
        ' approximation orders, sequences of refinements of two or more levels',
        'Tests refine a structured mesh in one set of cells; wrong constraints'
        ' appear for particular orientations of neighbouring cells, edges'
        ' touching refined cells, higher orders or second levels.',
        ['sfepy/discrete/fem/refine.py', 'sfepy/discrete/fem/refine_hanging.py',
         'sfepy/discrete/fem/domain.py', 'sfepy/discrete/fem/fields_nodal.py',
         'sfepy/discrete/fem/fields_base.py'],
        [('uniform refinement', 'refine_1_2, refine_2_3, refine_2_4,'
          ' refine_3_4, refine_3_8, FEDomain.refine'),
         ('hanging nodes', 'refine_hanging.refine, find_level_interface,'
          ' eval_basis_transform, H1NodalMixin._substitute_dofs')],
        technique='exhaustive enumeration of sets of refined cells, cell'
        ' orientations and refinement sequences with conformity, continuity'
        ' and polynomial reproduction decided in each of them')
    prop(
        'C18', 'Equations, integrals and materials are those of their definition',
        'An equation string, or an expression of terms, means the linear'
        ' combination it denotes: every term has its multiplier, name,'
        ' integral, region and arguments with their time steps, derivatives'
        ' and traces, terms on the right-hand side are subtracted, and'
        ' building an expression does not change its operands. Every term is'
        ' integrated by its own quadrature rule, whatever other rules are used'
        ' in the same region and in whatever order. Material parameters in the'
        ' quadrature points are the values of their function in these points,'
        ' or the constants of the regions the points are in; they are updated'
        ' in time, forced, preserved, reset or given by the user according to'
        ' the kind of the material and the update mode.',
        ['inputs', 'histories'],
        'all combinations of coefficients, integrals, regions and arguments in'
        ' strings, all short programs building expressions, all sequences of'
        ' operations with materials and sets of integrals in all orders',
        'Tests use a few equations; a wrong sign after an equality sign, an'
        ' operand changed by a sum, or a stale value of a material or a basis'
        ' appears for particular combinations and orders only.',
        ['sfepy/discrete/parse_equations.py', 'sfepy/discrete/equations.py',
         'sfepy/terms/terms.py', 'sfepy/discrete/integrals.py',
         'sfepy/discrete/materials.py', 'sfepy/discrete/functions.py',
         'sfepy/discrete/common/fields.py'],
        [('definitions', 'create_bnf, collect_term, parse_definition'),
         ('expressions', 'Term.__add__, Terms.__add__, __mul__, ...'),
         ('arguments', 'create_arg_parser, Term.setup_formal_args'),
         ('integrals', 'Integral.get_key, Integrals.get, Field.get_mapping'),
         ('materials', 'Material.time_update, update_data, set_data')],
        technique='exhaustive enumeration of definitions and of operation'
        ' sequences up to a depth against reference models')
    prop(
        'C19', 'Traces of variables in mirror regions match the facets across interfaces',
        'A trace of a variable of one side of an interface, evaluated on the'
        ' matching facets of the other side, has in every point of a facet the'
        ' value of the variable in the matching point of the mirror facet:'
        ' whatever the numbering of vertices and cells, the order of vertices'
        ' in the cells of both sides, the shift between the sides and the'
        ' order of the fields. Residuals, matrices and jump terms with traces'
        ' follow from these values, entries are in the DOFs of the mirror'
        ' side, and regions that do not match are refused.',
        ['inputs'],
        'all pairs of vertex orders of the cells across an interface, orders'
        ' of cells, numberings, shifts and orders of approximation',
        'Tests use one mesh where both sides are numbered in the same way; the'
        ' matching of facets and of the nodes in them matters for others.',
        ['sfepy/discrete/common/region.py', 'sfepy/discrete/fem/fe_surface.py',
         'sfepy/discrete/fem/fields_base.py', 'sfepy/discrete/variables.py',
         'sfepy/discrete/equations.py', 'sfepy/terms/terms.py',
         'sfepy/terms/terms_multilinear.py', 'sfepy/terms/terms_dot.py'],
        [('mirror regions', 'Region.setup_mirror_region, get_mirror_region'),
         ('connectivity', 'FESurface.setup_mirror_connectivity,'
          ' FEField.get_econn'),
         ('terms', 'Term.arg_traces, Variable.evaluate, dw_jump')],
        technique='exhaustive enumeration of interface configurations on the'
        ' real code against values moved across the interface')

    prop(
        'C20', 'Generated and transformed meshes have the cells they should have',
        'Meshes of blocks, cylinders, extended blocks, voxels and tilings fill'
        ' exactly the given domain by valid, conforming and correctly grouped'
        ' cells with the vertices in the prescribed places and no vertex'
        ' twice. Extruding, revolving, mirroring, triangulating, merging,'
        ' smoothing, selecting by groups, copying and pickling a mesh keep'
        ' exactly the cells, groups, nodal regions and coordinates that they'
        ' should keep, whatever the order of the vertices in the cells and the'
        ' numbering of the vertices.',
        ['inputs'],
        'all small shapes and options of generators, all voxel arrays, all'
        ' partitions of duplicated nodes, all vertex orders of cells of'
        ' transformed meshes, all selections',
        'Tests generate one mesh of each kind and look at some coordinates; a'
        ' mesh with tetrahedra of neighbours not matching, or with nodes'
        ' merged wrongly is used without any error.',
        ['sfepy/mesh/mesh_generators.py', 'sfepy/mesh/mesh_tools.py',
         'sfepy/discrete/fem/mesh.py', 'sfepy/discrete/fem/periodic.py'],
        [('generators', 'gen_block_mesh, gen_cylinder_mesh,'
          ' gen_extended_block_mesh, gen_tiled_mesh, gen_mesh_from_voxels'),
         ('transformations', 'extrude, revolve, mirror, expand2d, triangulate,'
          ' smooth_mesh, merge_lines'),
         ('merging and selections', 'fix_double_nodes, merge_nodes,'
          ' Mesh.__add__, get_mesh_by_cgroup, get_cell_vertices_only'),
         ('copies', 'Mesh.copy, Mesh.from_region, Mesh.__reduce__')],
        technique='exhaustive enumeration of generator arguments and of'
        ' transformed meshes on the real code against independent geometry')
    prop(
        'C21', 'Linear combination conditions restrict solutions exactly as they are defined',
        'With linear combination boundary conditions (rigid bodies, rigid and'
        ' average force multi-point constraints, screws, no penetration,'
        ' normal and edge directions, equal values, nodal combinations,'
        ' shifted periodic and matched DOFs, combinations of nodes) the active'
        ' DOFs can take exactly the values that satisfy all the given'
        ' conditions, no DOF is lost or left unconstrained: for every'
        ' combination of conditions, order of variables and of DOF names,'
        ' numbering of nodes, order of fields, together with essential and'
        ' periodic conditions. Solutions of problems satisfy the equations'
        ' projected to that space, in repeated setups too.',
        ['inputs', 'histories'],
        'all kinds of conditions with all variants of arguments, all pairs'
        ' and triples of conditions in all orders, all small combination'
        ' matrices, periodic and essential conditions',
        'Tests check results of a few examples with one condition; wrong'
        ' columns of an operator matter for other orders of variables,'
        ' conditions or for more conditions.',
        ['sfepy/discrete/fem/lcbc_operators.py', 'sfepy/discrete/variables.py',
         'sfepy/discrete/conditions.py', 'sfepy/discrete/fem/utils.py',
         'sfepy/discrete/evaluate.py'],
        [('operators', 'LCBCOperator subclasses, MRLCBCOperator.treat_pbcs'),
         ('global operator', 'LCBCOperators.finalize, make_global_operator'),
         ('reduction', 'Variables.setup_lcbc_operators, make_full_vec,'
          ' Evaluator.eval_residual, eval_tangent_matrix')],
        technique='exhaustive enumeration of condition sequences on the real'
        ' code, each operator compared with the defining equations')
    prop(
        'C22', 'Parallel tasks own all DOFs once and assemble the serial system',
        'For every assignment of cells to tasks, each DOF of each field is'
        ' owned by one task having it in its cells, the PETSc numbering is a'
        ' permutation with consecutive ranges of tasks and fields, each task'
        ' has all cells with its DOFs when overlaps are used, and the numbers'
        ' sent to tasks agree with the global ones. Matrices and residuals'
        ' assembled by tasks together are those of the serial problem, in any'
        ' order of tasks: no task sets a value of another one, all entries'
        ' are preallocated and all messages sent are received.',
        ['inputs', 'schedules'],
        'all assignments of up to 4 tasks to cells of small meshes, one and'
        ' two fields, with and without overlaps',
        'There are no tests of the parallel code without PETSc; with it the'
        ' examples use a few regular partitions of a block.',
        ['sfepy/parallel/parallel.py', 'sfepy/parallel/evaluate.py',
         'sfepy/discrete/common/region.py', 'sfepy/discrete/fem/mesh.py'],
        [('partitioning', 'partition_mesh, get_inter_facets'),
         ('distribution', 'create_task_dof_maps, distribute_fields_dofs,'
          ' distribute_field_dofs'),
         ('assembling', 'setup_composite_dofs, create_prealloc_data,'
          ' create_petsc_system, assemble_rhs_to_petsc,'
          ' assemble_mtx_to_petsc, PETScParallelEvaluator')],
        technique='exhaustive enumeration of partitions with the real code of'
        ' all tasks run over stubs of MPI and PETSc that watch all accesses')

    prop(
        'C23', 'NURBS patches: bases, geometry, boundaries and solutions are exact',
        'For every open knot vector, degree and positive weights, the Bezier'
        ' extraction and connectivity reproduce the B-splines of the knots.'
        ' NURBS bases, their gradients, Jacobians and coordinates in given'
        ' points are those of the rational formulas, in Python and C, for any'
        ' selection of elements and grid of parameters. The Bezier mesh,'
        ' element vertices, edges, faces and regions of sides fit the'
        ' geometry; DOFs of a side are exactly the functions not vanishing'
        ' there. Degree elevation, files and evaluation in points keep the'
        ' patch, and discrete problems reproduce linear solutions.',
        ['inputs'],
        'all knot vectors with up to 4 spans of degrees up to 3, patches in'
        ' 1D, 2D and 3D',
        'Existing tests only find points in one 2D patch and run two examples'
        ' with fixed patches; tests needing igakit are skipped.',
        ['sfepy/discrete/iga/iga.py', 'sfepy/discrete/iga/fields.py',
         'sfepy/discrete/iga/mappings.py', 'sfepy/discrete/iga/domain.py',
         'sfepy/discrete/iga/io.py', 'sfepy/discrete/iga/utils.py',
         'sfepy/discrete/iga/extmods/igac.pyx',
         'sfepy/discrete/iga/extmods/nurbs.c',
         'sfepy/discrete/projections.py'],
        [('extraction', 'compute_bezier_extraction, create_connectivity,'
          ' combine_bezier_extraction, compute_bezier_control'),
         ('evaluation', 'eval_nurbs_basis_tp, eval_mapping_data_in_qp,'
          ' eval_variable_in_qp, eval_in_tp_coors, CNURBSContext'),
         ('boundaries', 'get_patch_box_regions, get_bezier_element_entities,'
          ' create_boundary_qp, IGField.get_surface_basis'),
         ('domain', 'IGDomain, NurbsPatch, IGField, IGMapping')],
        technique='exhaustive enumeration of knot vectors, degrees, weights'
        ' and geometries, the code is run on each and compared with the'
        ' recurrence formulas')

    prop(
        'C24', 'Descriptions, option strings, containers and stored objects are kept',
        'Every item of a problem description gives the same structures and the'
        ' same problem and solution in the short and long syntax, in any'
        ' combination. Overriding, updating and completing of configurations'
        ' follow the rules of nested dictionaries, tuples included. Strings of'
        ' options are parsed to the values they denote. Containers behave as'
        ' lists with names under any sequence of operations; sums and updates'
        ' of structures are those of their items and do not change arguments.'
        ' Objects, sparse matrices and dictionaries stored in HDF5 files are'
        ' read with the same values, kinds and sharing.',
        ['inputs', 'histories'],
        'all syntax combinations, nested values of depth 2, sequences of 4'
        ' operations, trees of 3 levels',
        'Existing tests use a few descriptions, one parsed string of each kind'
        ' and one stored tree of objects.',
        ['sfepy/base/conf.py', 'sfepy/base/parse_conf.py',
         'sfepy/base/base.py', 'sfepy/base/ioutils.py',
         'sfepy/discrete/problem.py'],
        [('descriptions', 'transform_* functions, ProblemConf,'
          ' Problem.from_conf'),
         ('strings', 'create_bnf, dict_from_string, dict_from_options'),
         ('containers', 'Container, OneTypeList, Struct,'
          ' update_dict_recursively'),
         ('files', 'write_to_hdf5, read_from_hdf5, DataMarker, DataSoftLink,'
          ' write_sparse_matrix_hdf5, write_dict_hdf5')],
        technique='exhaustive enumeration of descriptions, strings, sequences'
        ' of operations and object graphs, the code is run on each and'
        ' compared with reference semantics')
