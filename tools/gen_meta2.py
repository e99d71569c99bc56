# C13 onwards; executed by gen_meta.py
prop('C13', 'The free surface flow conserves fluid mass and keeps fluid where it belongs',
     'In every run the total fluid mass stays constant for as long as a free surface exists or the container is full, gas and wall cells hold no fluid, velocity or heat, and walls never change. '
     'A run starts with full liquid cells and a half full interface layer in exactly the gas cells next to liquid.',
     'histories configurations', 'all initial fillings of small containers with liquid, gas and wall, all numbers of steps up to the bound, with and without heat',
     'There is no test of the lattice Boltzmann solver at all.',
     'jax_am/lbm/core.py',
     [('update_f, reini_lg_to_liquid, reini_gas_to_lg, reini_lg_to_gas, reini_liquid_to_lg, mass correction in simulation', 'jax_am/lbm/core.py'), ('refresh_for_output, initial state', 'jax_am/lbm/core.py')],
     T + 'all small initial fillings, real simulation runs with the invariant checked on every output')
prop('C14', 'Isothermal free surface flow follows the lattice scheme cell by cell',
     'In every run without heat, each output equals the free surface lattice Boltzmann scheme (collision, streaming, bounce back at walls, gas pressure at the interface, mass exchange, phase changes, gravity and surface tension) applied to the previous state. '
     'The result expressed in lattice units does not depend on the chosen physical units.',
     'histories configurations inputs', 'all initial fillings of small containers, driving forces, unit systems, steps up to the bound',
     'There is no test of the lattice Boltzmann solver at all.',
     'jax_am/lbm/core.py jax_am/lbm/utils.py',
     [('collide_f, update_f, equilibrium_f, f_forcing', 'jax_am/lbm/core.py'), ('compute_vof, compute_curvature, reini_*', 'jax_am/lbm/core.py'), ('output_result', 'jax_am/lbm/core.py')],
     T + 'all small initial fillings x forces, every output of the real simulation replayed against an explicit-state model')
prop('C15', 'Heat transport, melting and laser effects follow the model cell by cell',
     'In every run with heat, each output equals the thermal scheme: laser absorption at the surface, convection, radiation, conduction, latent heat between solidus and liquidus in both directions, solid at rest, recoil pressure, Marangoni and surface tension forces. '
     'Every effect acts exactly when its coefficient is set, and the result in lattice units does not depend on the physical units.',
     'histories configurations inputs', 'all combinations of fillings and single effects, unit systems, laser on, off and moving, steps up to the bound',
     'There is no test of the lattice Boltzmann solver at all.',
     'jax_am/lbm/core.py jax_am/lbm/utils.py',
     [('compute_T, collide_h, update_h, equilibrium_h, compute_h_src', 'jax_am/lbm/core.py'), ('compute_f_source_term, compute_T_grad, compute_u', 'jax_am/lbm/core.py')],
     T + 'fillings x effects x unit systems, every output of the real simulation replayed against an explicit-state model')
prop('C16', 'The laser follows its scan path and the run produces exactly its snapshots',
     'For every scan path, speed and switch pattern the laser passes through each segment in as many time steps as its travel time contains, evenly from corner to corner, on or off as prescribed for that segment, and the run ends with the path. '
     'Snapshots are written at exactly the multiples of the output interval, numbered in order, and results of an earlier run are removed.',
     'configurations histories', 'all small scan paths, switch patterns, time steps, output intervals and directory contents',
     'There is no test of the lattice Boltzmann solver at all.',
     'jax_am/lbm/core.py jax_am/lbm/utils.py',
     [('read_path, time loop, output_result', 'jax_am/lbm/core.py'), ('clean_sols', 'jax_am/lbm/utils.py')],
     T + 'scan paths x switch patterns x intervals, real runs against a schedule model')
prop('C17', 'A structured finite volume grid has the right geometry and neighbours',
     'For every number of cells per axis, each cell has its own centre, the volume and face areas of the regular division of the domain, and exactly the neighbours that share a face with it, each in the right direction. '
     'Each side of the domain lists exactly the cells and face centres on it.',
     'configurations', 'all 2-D and 3-D grid shapes up to the bound',
     'There is no test of the CFD solver at all.',
     'jax_am/cfd/cfd_am.py',
     [('mesh2d, mesh3d', 'jax_am/cfd/cfd_am.py')],
     T + 'all grid shapes, real grid tables against an index model')
prop('C18', 'Finite volume operators are exact for every boundary condition combination',
     'Gradient, divergence, Laplacian, face interpolation and upwinded convection equal the finite volume formula on every cell, with the ghost values that the prescribed value or flux on each of the six sides implies. '
     'Upwinding takes the value from the side the flow comes from, for every combination of face velocity signs.',
     'configurations inputs', 'all 64 boundary condition combinations, all sign patterns of the face velocities, all fields of the basis',
     'There is no test of the CFD solver at all.',
     'jax_am/cfd/cfd_am.py',
     [('get_GC_values, get_face_vels, get_face_vel_component', 'jax_am/cfd/cfd_am.py'), ('div, gradient, laplace', 'jax_am/cfd/cfd_am.py')],
     T + 'boundary condition combinations x sign patterns x basis fields, real operators against a cell loop model')
prop('C19', 'The implicit diffusion solver solves the discrete equation it states',
     'For every combination of prescribed values and fluxes, constant or state dependent coefficient and source, the residual is the finite volume balance of every cell, and the returned field makes it vanish to the requested tolerance. '
     'The linear operator used by the solver is the derivative of that residual, and a preconditioner or a reused matrix does not change the answer.',
     'configurations inputs', 'all boundary condition combinations, coefficient and source forms, all unit directions of the linearisation',
     'There is no test of the CFD solver at all.',
     'jax_am/cfd/cfd_am.py',
     [('poisson', 'jax_am/cfd/cfd_am.py'), ('energy_eqn', 'jax_am/cfd/cfd_am.py')],
     T + 'boundary condition combinations x coefficient forms, real solves against a cell loop model')
prop('C20', 'Every melt pool time step conserves energy and moves only molten metal',
     'After every time step of the additive manufacturing simulation the temperature satisfies the energy balance with laser, convection, radiation and latent heat, the velocity in the moving flow box is that of the flow scheme acting in the box only, with solid cells at rest. '
     'Cells that melted are remembered, result files hold the current state, older results are removed and non finite states are reported.',
     'histories configurations', 'all combinations of heat source, losses, laser switching, start positions, speeds; steps up to the bound',
     'There is no test of the CFD solver at all.',
     'jax_am/cfd/cfd_am.py',
     [('AM_3d.time_integration, get_moving_box_boundary, get_body_heat_source, get_energy_bc_fn, get_vel_bc_fn', 'jax_am/cfd/cfd_am.py'), ('velocity_eqn, energy_eqn', 'jax_am/cfd/cfd_am.py')],
     T + 'process configurations, every step of the real simulation checked against an explicit-state model')
prop('C21', 'The explicit thermal step balances heat in every cell',
     'For every grid, temperature range and laser position one explicit step changes each interior cell by the conducted heat of its six faces, with temperature dependent properties and latent heat. '
     'The outer layer follows from convection and radiation on all six sides and the laser on the top.',
     'configurations inputs histories', 'all small grid shapes, loss combinations, laser positions, temperature ranges, steps up to the bound',
     'There is no test of the CFD solver at all.',
     'jax_am/cfd/gamma.py',
     [('update_T, update_mat, BC_thermal, laplace', 'jax_am/cfd/gamma.py')],
     T + 'grid shapes x losses x laser positions, real steps replayed against a cell loop model')
prop('C22', 'Grain evolution follows the multi phase field model in every cell',
     'For every assignment of order parameters and temperatures the rate of change of each order parameter equals the model (double well and grain interaction, neighbour exchange with insulated borders, interface anisotropy by crystal direction, mobility that depends on temperature, melting above the liquidus). '
     'The solver advances with exactly the temperature supplied for each time, and starts from the given grain of every cell.',
     'configurations inputs histories', 'all assignments of order parameters from a finite set, temperature patterns and histories, orientation counts, grid shapes up to the bound',
     'There is no test of the phase field solver at all.',
     'jax_am/phase_field/allen_cahn.py',
     [('phase_field, PFSolver', 'jax_am/phase_field/allen_cahn.py'), ('explicit_euler, rk4', 'jax_am/phase_field/allen_cahn.py')],
     T + 'order parameter and temperature assignments, real rates and steps against a cell loop model')
prop('C23', 'Grains are the connected solid regions of one orientation',
     'For every labelling of the grid the reported grains partition exactly the solid cells (below the liquidus) into face connected regions of equal orientation, whatever orientation molten cells store. '
     'Their volumes are the sums of their cell volumes and their aspect ratios compare the longest principal length with the mean of the other two; grains of fewer than five cells have aspect ratio one.',
     'inputs configurations', 'all labellings of small grids with orientations and molten cells, all grain shapes on small grids',
     'There is no test of the phase field post-processing at all.',
     'jax_am/phase_field/utils.py',
     [('compute_edges_in_order, BFS', 'jax_am/phase_field/utils.py'), ('get_aspect_ratio_inputs, compute_aspect_ratios_and_vols, process_eta', 'jax_am/phase_field/utils.py')],
     T + 'all labellings of small grids, real segmentation against a union-find model')
prop('C24', 'An imported polycrystal has the right grid, grains, orientations and colours',
     'For every tessellation file the imported grid has the file\'s cell counts, cell size and cell centres, every grain carries one orientation, and a wrong number of grains is refused. '
     'Crystal axes are the rotated coordinate axes of each orientation, colours follow the inverse pole figure of the three specimen directions, further layers are stacked on top without changing those below, and an existing tessellation is kept.',
     'configurations inputs', 'all small grid shapes, cell proportions, grain assignments, orientation lists, layer counts',
     'There is no test of the phase field solver at all.',
     'jax_am/phase_field/utils.py jax_am/phase_field/neper.py',
     [('Field.process_neper_mesh, Field.get_unique_ori_colors, generate_new_mesh', 'jax_am/phase_field/utils.py'), ('pre_processing', 'jax_am/phase_field/neper.py')],
     T + 'grid shapes x grain assignments x orientation lists, real import against an index model')
prop('C25', 'Grain growth results show the state and divergence is reported',
     'Every written result holds the temperature, the dominant orientation of every solid cell and its colours, with molten cells (above the liquidus) black, under the number of its write interval, and results of an earlier run are removed. '
     'A non finite order parameter is reported as an error, and the optional reset empties exactly the cells more than one degree above the liquidus.',
     'inputs configurations histories', 'all dominant orientations and temperature patterns on small grids, all steps and intervals up to the bound, all places of a non finite value',
     'There is no test of the phase field solver at all.',
     'jax_am/phase_field/allen_cahn.py',
     [('PFSolver.write_sols, clean_sols, inspect_sol', 'jax_am/phase_field/allen_cahn.py'), ('get_force_eta_fn', 'jax_am/phase_field/allen_cahn.py')],
     T + 'orientation and temperature patterns x steps x intervals, real files against a table model')
prop('C26', 'Regular grids have every point and cell once, in a fixed order and orientation',
     'For every number of cells and domain size the box and rectangle grids contain every lattice point once with the last axis running fastest, and every cell once in the same order with positively oriented corners.',
     'configurations', 'all grid shapes up to the bound, three domain sizes',
     'Tests use these grids only through other results.',
     'jax_am/common.py',
     [('box_mesh, rectangle_mesh', 'jax_am/common.py')],
     T + 'all grid shapes, real grids against an index model')
prop('C27', 'The table of results holds every value at its time and place',
     'Converting a folder of results into a table yields one row per point and file in order, with the point\'s coordinates, the time of that file (file index times saving interval times time step) and every component of every point field. '
     'The table file on disk holds the same values.',
     'configurations inputs', 'all numbers of files, saving intervals, time steps and field shapes up to the bound',
     'There is no test of the conversion.',
     'jax_am/common.py',
     [('to_data_frame', 'jax_am/common.py')],
     T + 'sets of result files, real tables against a row model')
prop('C28', 'Timing wrappers and parameter readers are transparent',
     'A wrapped function is called exactly once per call with the given arguments, its return value or exception reaches the caller unchanged, and the elapsed time is written to exactly the requested file, only for calls that return. '
     'Parameter files in both formats are returned with every key, value and type they contain.',
     'inputs histories', 'all kinds of arguments, return values, exceptions, nestings and call sequences up to the bound; all small parameter trees',
     'Tests never call these helpers with arguments, exceptions or files.',
     'jax_am/common.py jax_am/phase_field/yaml_parser.py',
     [('timeit, walltime, json_parse, yaml_parse', 'jax_am/common.py'), ('pf_parse', 'jax_am/phase_field/yaml_parser.py')],
     T + 'wrappers x arguments x outcomes x call sequences, real calls against a recorder')
prop('C29', 'Every design update is the optimum of the moving asymptotes approximation',
     'For every design, gradients, constraint values, bounds and move limit the update minimises the convex separable approximation of the problem between its asymptotes, never leaving the variable bounds or the move limit, also when the constraints cannot be satisfied. '
     'The asymptotes widen for variables that keep their direction, tighten for oscillating ones and stay in their allowed range, along every history.',
     'inputs histories', 'all designs on and between bounds, gradient sign patterns, constraint states, numbers of variables and constraints, all move histories up to the bound',
     'There is no test of the optimizer.',
     'jax_am/fem/mma.py applications/fem/top_opt/mma.py',
     [('MMA.mmasub, subsolv', 'jax_am/fem/mma.py'), ('MMA.mmasub, subsolv', 'applications/fem/top_opt/mma.py')],
     T + 'designs x gradients x constraints and all move histories, real updates certified against an independent duality bound')
prop('C30', 'Topology optimisation filters sensitivities and drives the design properly',
     'The design filter weights every pair of flexible cells by their distance to the filter radius of one and a half cell sizes, for every set of flexible cells, and filtered sensitivities are the weighted averages of design scaled sensitivities. '
     'The driver evaluates objective and constraints exactly once per iteration at the current design, applies the filtered gradients in the update, runs the requested number of iterations and returns the last design.',
     'configurations inputs histories', 'all subsets of flexible cells of small meshes, unit sensitivities, iteration counts, constraint and parameter counts, move limits',
     'There is no test of the optimizer.',
     'jax_am/fem/mma.py applications/fem/top_opt/mma.py',
     [('compute_filter_kd_tree, applySensitivityFilter, optimize', 'jax_am/fem/mma.py'), ('compute_filter_kd_tree, applySensitivityFilter, optimize', 'applications/fem/top_opt/mma.py')],
     T + 'flexible cell sets, unit sensitivities and iteration counts, real driver replayed against an independent model')
prop('C31', 'Dynamic relaxation returns the constrained equilibrium',
     'When dynamic relaxation returns, prescribed components have their prescribed values and the largest out of balance force on the other components is below the requested tolerance, for linear and nonlinear laws, any list of prescribed values and any interval for recomputing the stiffness.',
     'configurations', 'all listed laws, element types, boundary condition lists, tolerances and intervals',
     'No test calls this solver.',
     'jax_am/fem/solver.py',
     [('dynamic_relax_solve, assembleCSR', 'jax_am/fem/solver.py')],
     T + 'laws x element types x boundary condition lists, real solves against a dense model')
prop('C32', 'Nodal fields are evaluated correctly inside cells and on loaded surfaces',
     'For every element type and node numbering, values and gradients of a nodal field at the quadrature points, and its values on the surface of each load condition, are those of the interpolated field at the physical points reported for that cell, face and condition. '
     'Components and conditions never mix.',
     'inputs configurations', 'all element types, numberings, component counts, lists of loaded sides, fields spanning the interpolation space',
     'Tests compare final solutions of a few meshes only; the surface evaluation is not called by any test.',
     'jax_am/fem/core.py jax_am/fem/generate_mesh.py',
     [('FEM.convert_from_dof_to_quad, convert_neumann_from_dof, sol_to_grad, get_physical_quad_points, get_physical_surface_quad_points', 'jax_am/fem/core.py'), ('check_mesh_TET4', 'jax_am/fem/generate_mesh.py')],
     T + 'element types x numberings x lists of load conditions x polynomial fields, real evaluation against exact polynomials')
prop('C33', 'A growing part has exactly the mesh and exposed faces of the cells born so far',
     'After every birth of cells, in any order and grouping, the active mesh consists of the born cells with their points and correct maps to the full mesh, and the reported exposed faces are exactly the faces that belong to one born cell, each once, numbered in the active mesh.',
     'histories', 'all nested pairs of born sets of a 2x2x2 mesh, all birth histories of smaller meshes, several element types and numberings',
     'No test covers the additive growth; the bookkeeping is incremental, so an error depends on the order of births.',
     'applications/fem/thermal/models.py',
     [('get_active_mesh, initialize_hash_map, update_hash_map, hash_map_for_faces', 'applications/fem/thermal/models.py')],
     T + 'all birth histories up to the bound (states: born sets and bookkeeping), real bookkeeping against the set definition')
prop('C34', 'Additive heat simulation heats and cools exactly the deposited material',
     'Every time step of the thermal model on a growing part, and of the wall and single track drivers, solves the implicit heat equation on exactly the material deposited so far: heat exchange at the previous temperature on every exposed face, laser heat on the horizontal exposed faces above the bottom while and only while the laser is on, at its position along the path. '
     'Newly deposited points start at ambient temperature unless they belonged to the part already.',
     'histories', 'all birth patterns and one step growths of a small part, all tool paths up to the bound over off, forward, short and next layer segments',
     'No test runs the thermal application; errors show only for particular sequences of laser on, off and growth.',
     'applications/fem/thermal/models.py applications/fem/thermal/thin_wall.py applications/fem/thermal/bare_plate.py',
     [('Thermal', 'applications/fem/thermal/models.py'), ('ded_thin_wall', 'applications/fem/thermal/thin_wall.py'), ('bare_plate_single_track', 'applications/fem/thermal/bare_plate.py')],
     T + 'birth patterns and tool paths, real model and drivers replayed step by step against an independent finite element model')
prop('C35', 'Topology optimisation: stiffness, compliance and gradient follow the design',
     'The stress follows the density interpolation of the problem kind for every density and strain; cells outside the flexible set are solid, flexible cells take their own density in the given order. '
     'The compliance is the work of the load, its gradient with respect to each density is exact, and the stress measure of the solid problems is the volume average of the equivalent stress.',
     'inputs configurations', 'all problem kinds, unit strains, density levels, ordered choices of flexible cells and designs up to the bound',
     'No test covers the application.',
     'applications/fem/top_opt/fem_model.py jax_am/fem/solver.py',
     [('Elasticity', 'applications/fem/top_opt/fem_model.py'), ('ad_wrapper', 'jax_am/fem/solver.py')],
     T + 'problem kinds x flexible cell choices x designs, real solves and gradients against a dense model')
prop('C36', 'Spectral functions of symmetric tensors have the right value and derivative',
     'For every symmetric tensor, also with repeated eigenvalues, and every scalar function, the tensor function has the value of the function on the spectrum and, wherever it is differentiable, the exact derivative along every direction in forward and reverse mode.',
     'inputs', 'all symmetric tensors with small integer entries, all spectra from a grid in several frames, two scales, six functions, all unit directions',
     'Only a demonstration prints some values; nothing is asserted.',
     'demos/fem/phase_field_fracture/eigen.py',
     [('get_eigen_f_custom', 'demos/fem/phase_field_fracture/eigen.py')],
     T + 'symmetric tensors x functions x directions, real evaluation against exact products and a spectral model')
prop('C37', 'Crystal plasticity obeys flow, hardening and elastic laws along every history',
     'After every increment of every load history the stress, plastic deformation, slip and slip resistance of a crystal satisfy the elastic law in the rotated frame, the rate dependent flow rule and the hardening rule, and the tangent is the derivative of the stress. '
     'In a mesh every cell uses its own orientation and history, and the reported cell stress is the volume average of the true stress.',
     'histories', 'all histories of increments up to the bound over a five letter alphabet x orientations x time increments; small meshes of differently oriented cells',
     'No test covers the application; the state depends on the whole history.',
     'applications/fem/crystal_plasticity/models.py',
     [('CrystalPlasticity, get_rot_mat, rotate_tensor_rank_2, rotate_tensor_rank_4', 'applications/fem/crystal_plasticity/models.py')],
     T + 'all load histories up to the bound, real updates certified against the implicit equations')
prop('C38', 'Linear solvers and constraint operators agree with the constrained system',
     'For every list of Dirichlet conditions, also overlapping ones, the operators that impose constraints on vectors, residuals and the linearised system act on exactly the constrained unknowns and agree for both backends; the preconditioner is the diagonal of that system and the directional derivatives are those of the constrained residual. '
     'Both linear solvers solve every well conditioned system, and the line search never accepts a residual larger than that of the full step.',
     'configurations inputs', 'all constraint lists up to the bound at every unknown, all small diagonally dominant matrices, all orderings of the residuals a line search can meet',
     'The tests solve a handful of problems to a loose tolerance and never look at single operators.',
     'jax_am/fem/solver.py',
     [('apply_bc, apply_bc_vec, row_elimination, assign_bc, assign_ones_bc, assign_zeros_bc, copy_bc, get_A_fn', 'jax_am/fem/solver.py'), ('petsc_solve, jax_solve, jacobi_preconditioner, line_search', 'jax_am/fem/solver.py')],
     T + 'constraint lists, matrices and residual orderings, real operators against a dense model')
prop('C39', 'Fracture simulation: only tension is degraded and damage never heals',
     'In the phase field fracture simulation the stress degrades exactly its tensile part, by (1-d)^2 + 1e-3, for every strain and damage d. Along every load history the driving energy of a point is the largest tensile energy of all increments so far and the damage of a node never decreases; each displacement solve uses the current damage and prescribed displacement, each damage solve the driving energy of the increments before it. '
     'Every increment is written with its damage, displacement and driving energy, and the reported force is the force on the loaded face.',
     'histories', 'all strains on a lattice of principal values, frames and damage levels; all histories of the simulation up to the bound over tension, compression, mixed and unloaded increments with growing or shrinking damage solutions; the complete load programme',
     'No test covers the demonstration; irreversibility concerns the whole history.',
     'demos/fem/phase_field_fracture/example.py',
     [('PhaseField, Elasticity and the load loop', 'demos/fem/phase_field_fracture/example.py')],
     T + 'all short histories of the unchanged script under stand-in solves, every equation handed to a solve compared with an independent model')
prop('C40', 'Thermo-mechanical simulation: heat, phase changes and stress are consistent',
     'In the thermo-mechanical demonstration every thermal step solves the heat equation with convection, radiation and the laser (at its current position, while it is on) at the previous temperature. Every point goes from powder to liquid when heated above the liquidus, from liquid to solid when cooled below it and never otherwise; the stress of every increment follows from the old stress and strain, the phase, the temperature change since the last increment (thermal expansion in the solid only) and the yield limit. '
     'Every tenth step is written with its temperature, displacement, stress and phase.',
     'histories', 'all histories of mechanical increments up to the bound in which the points of the part go through every history of hot and cold; phases x temperature changes x strain increments x old states of the stress law; the complete programme',
     'No test covers the demonstration; phase and stress depend on the whole history of a point.',
     'demos/fem/thermal_mechanical/example.py',
     [('Thermal, Plasticity and the time loop', 'demos/fem/thermal_mechanical/example.py')],
     T + 'all short histories of the unchanged script under stand-in solves, every equation handed to a solve compared with an independent model')
prop('C41', 'Grain growth drivers use the temperature of each time and place',
     'In the coupled driver every grain growth step gets, in every cell, the flow temperature of that cell interpolated linearly between the two flow states that enclose its time, for every ratio of the time steps. The drivers with prescribed temperature use the temperature field at the start of each step, the scan driver the field of the laser at its position and direction on its path, and no laser heat on segments that are switched off. '
     'States are passed on from step to step, results are written at the requested interval with the state and temperature of their step. The melt pool driver moves the laser along its tool path with the interpolated power and records images in the frame of the laser.',
     'histories configurations', 'all time step ratios, write and check intervals and grids listed; all scan paths up to the bound over six directions with switch patterns; tool paths in eight directions',
     'No test runs a driver.',
     'applications/phase_field/coupled/example.py applications/phase_field/multi_scan/example.py applications/phase_field/simple/example.py applications/phase_field/simple/example_grf.py applications/phase_field/solidification/example.py applications/cfd/gamma/example.py',
     [('coupled_integrator', 'applications/phase_field/coupled/example.py'), ('read_path, get_T_fn, integrator', 'applications/phase_field/multi_scan/example.py'), ('simulation, interp_data', 'applications/cfd/gamma/example.py'),
      ('get_T_fn, integrator', 'applications/phase_field/simple/example.py'), ('get_T_fn, integrator', 'applications/phase_field/solidification/example.py')],
     T + 'time step ratios, intervals, grids and paths; unchanged scripts with recording solvers replayed step by step against a model')
prop('C42', 'Elastoplastic design: stress, load histories, work and gradient',
     'In the elastoplastic topology optimisation the stress follows the return map with the stiffness of the density and the yield limit of the strength variable of its point; flexible cells take their design in the given order, other cells are solid. Along every load history each increment is in equilibrium with its load and starts from the stress and strain of the increment before; the design does not change on the way. '
     'The reported work is that of the last load, and its gradient with respect to every design variable, through all increments, is exact, also with increments without load.',
     'histories inputs', 'all load histories up to the bound over small, large, reversed and no load x designs of two cells; a grid of designs, strains and old states of the law',
     'No test covers the application; the gradient runs through the whole history.',
     'applications/fem/top_opt/plasticity.py jax_am/fem/solver.py',
     [('Plasticity', 'applications/fem/top_opt/plasticity.py'), ('ad_wrapper', 'jax_am/fem/solver.py')],
     T + 'all load histories up to the bound x designs, real solves and gradients against an independent Newton iteration with complex steps')
