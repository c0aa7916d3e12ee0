FEM = 'jax_am/fem/core.py'
SOL = 'jax_am/fem/solver.py'

prop('C01', 'Dirichlet conditions are imposed exactly by every solver route',
     'For any mesh size, number of components and any set of Dirichlet groups, a constrained degree of freedom has residual '
     'equal to its current value minus the prescribed value, an identity row in the linear operator and a unit '
     'preconditioner entry, while every unconstrained degree of freedom keeps the assembled residual, tangent row and '
     'diagonal untouched. The JAX and the PETSc route build the same linear system. Where groups overlap, the later group wins.',
     ['inputs', 'configurations'], 'all node and component counts, all numbers/sizes/overlaps of Dirichlet groups, both linear-solver backends',
     'The tests solve five fixed problems, mostly through one backend, and compare to 5 % or so; an index off by one in one group, '
     'or a row touched in one backend, is invisible unless that configuration is sampled.',
     [SOL], [('row elimination of operator and residual', SOL), ('zeroRows on the PETSc matrix', SOL),
             ('Jacobi preconditioner', SOL)])

prop('C02', 'Boundary conditions select exactly what the user described',
     'A Dirichlet group constrains every mesh node satisfying its location function and no other, in the named component, to '
     'the value function evaluated at that node; a Neumann or Cauchy group covers exactly the (cell, face) pairs all of whose '
     'nodes satisfy its location function. A periodic group pairs every side-A node with the side-B node at its mapped position. '
     'Updating the Dirichlet conditions replaces the previous selection entirely.',
     ['inputs', 'configurations'], 'all meshes, element types, location, value and mapping functions, numbers of groups',
     'Tests use axis-aligned planes on two meshes with one or two groups.',
     [FEM, 'jax_am/fem/generate_mesh.py'], [('Dirichlet/periodic selection', FEM), ('face selection', FEM)])

prop('C03', 'The assembled residual is the weak form',
     'For any mesh, element, material law, internal variables, sources and boundary terms, the assembled residual at a degree '
     'of freedom is the sum over all cells and faces touching it of stress against shape gradient, plus mass and Cauchy terms, '
     'minus body force and traction, each weighted by the quadrature measure. The residual returned while building the tangent '
     'is the same function.',
     ['inputs', 'configurations', 'programs'], 'all meshes (>= 20 cells here, fewer in C05), all user maps, all combinations of terms and internal variables',
     'Five gold solutions exercise only tensor maps, one source and one Neumann group with lenient tolerances.',
     [FEM], [('kernels and assembly', FEM)])

prop('C04', 'Geometry and interpolation are isoparametric',
     'Physical shape gradients are reference gradients times the inverse Jacobian, quadrature measures are det J times weight, '
     'surface measures follow Nanson\'s formula, and quadrature points, interpolated fields and gradients are the shape-function '
     'combinations of nodal values, for every cell, face and component.',
     ['inputs'], 'all meshes, element tables, fields and face selections',
     'Tests use nearly undistorted meshes where transposed Jacobians or swapped faces cancel.',
     [FEM], [('shape gradients, JxW, Nanson scale', FEM), ('dof-to-quadrature conversions', FEM)])

prop('C05', 'Cell batching neither drops, duplicates nor reorders cells',
     'Evaluating cells in memory-limiting batches gives exactly the same per-cell values and Jacobians, in mesh order, as '
     'evaluating each cell once, whatever the number of cells relative to the number of batches.',
     ['inputs', 'configurations'], 'all cell counts (symbolic >= 20, and a table of small and boundary counts), with and without Jacobians, both array libraries',
     'Test meshes have a handful of fixed cell counts.', [FEM], [('split_and_compute_cell', FEM)])

prop('C06', 'The tangent matrix is the exact derivative of the residual',
     'The sparse matrix assembled for Newton and adjoint solves, with duplicates summed, equals entry by entry the derivative of '
     'the weak-form residual with respect to the nodal unknowns, including mass and Cauchy boundary terms and internal variables; '
     'the matrix-free operator applies the same matrix.',
     ['inputs', 'programs', 'configurations'], 'all meshes, differentiable user maps, and combinations of terms',
     'Newton converges (slowly) even with a wrong tangent, so solution tests do not see it.',
     [FEM, SOL], [('newton_update, jacobian assembly, I/J tables', FEM), ('get_A_fn', SOL)])

prop('C07', 'Lagrange-multiplier route solves the constrained saddle-point system',
     'With periodic conditions (or when asked for), the solver assembles one multiplier per Dirichlet or periodic constraint: the '
     'linear system is the unmodified tangent bordered by the constraint matrix and its transpose, the right-hand side is minus the '
     'residual plus constraint forces and minus the constraint violation. The iteration ends only when the norm of that right-hand side is '
     'below 1e-6 and finite (a problem declared linear takes one such step), and the result is finite. Both backends build the same matrix.',
     ['inputs', 'configurations'], 'all numbers and sizes of Dirichlet and periodic groups, all residuals and tangents, both backends',
     'No test uses periodic conditions.', [SOL], [('aug_solve / saddle-point assembly', SOL)])

prop('C08', 'The solver returns only what it tested, by Newton steps on that residual',
     'solver() returns a field whose residual, including Dirichlet rows, was itself tested against the tolerance (1e-6) and is '
     'finite; every iterate is the previous one plus the solution of tangent times increment equals minus residual at that iterate; the '
     'linear route is one such step from the lifted start; the user\'s initial guess and preconditioner switch are honoured. '
     'Dynamic relaxation likewise returns only a state whose residual it tested.',
     ['inputs', 'histories', 'configurations'], 'all residual/tangent functions, starts, numbers of Dirichlet groups, iteration counts 0..2 (thorough 3) by loop peeling, both backends',
     'A stale residual or skipped update still converges on the test problems.', [SOL], [('solver loops', SOL), ('dynamic relaxation', SOL)],
     note='Loops are peeled a fixed number of times; the loop-exit relation is checked at each. ' + NOTE)

prop('C09', 'Implicit differentiation equals the adjoint of the solved system',
     'For every problem, parameter pytree and cotangent, the vector-Jacobian product of the wrapped solver is minus the cotangent '
     'solved with the transposed Dirichlet-eliminated tangent, contracted with the derivative of the Dirichlet-modified residual with '
     'respect to the parameters; the forward rule is its transpose-dual; the forward value is the solver\'s solution at those '
     'parameters. Both backends, and the unequal-batch stacking callback, agree.',
     ['inputs', 'programs', 'configurations'], 'all residuals depending on parameters, all Dirichlet groups, cotangents, both backends',
     'One finite-difference sample at 20x10 cells exists and its jvp half fails in the baseline.', [SOL, 'jax_am/fem/autodiff_utils.py'],
     [('implicit_vjp / ad_wrapper', SOL)])

BAS = 'jax_am/fem/basis.py'
CFDF = 'jax_am/cfd/cfd_am.py'

prop('C10', 'Element tables are a nodal basis with exact quadrature in mesh node order',
     'For every supported element, shape function j is 1 at the j-th node in the meshio ordering the meshes use and 0 at the others; '
     'gradients are the derivatives of the same functions; they sum to one; volume and face quadrature weights are positive, sum to '
     'the reference measure and integrate the degree the element needs; each face table lists the nodes on that face, evaluates the '
     'same shape functions there, and its normal is the outward unit normal.',
     ['configurations', 'programs'], 'every supported element type, every node, face and quadrature point of it, exactly (rational arithmetic)',
     'Tests use HEX8 and one other element; a node permutation in a rarely used element leaves them green.',
     [BAS], [('basis, quadrature and face tables', BAS)])

prop('C11', 'Material models and history updates follow their stated constitutive laws',
     'Stress maps return the stress of the stated law for every displacement gradient (linear elasticity, hyperelasticity as the '
     'derivative of its energy, J2 plasticity as the closest-point return onto the yield surface, phase-dependent thermal strains); '
     'history variables are updated from the converged increment with the same law the solve used; surface and volume averages weight '
     'by the quadrature measure.',
     ['inputs', 'histories'], 'all gradients, temperatures, phases and histories',
     'The tests compare one plasticity history to a stored file and hardly touch the other models.',
     ['jax_am/fem/models.py', FEM], [('material models', 'jax_am/fem/models.py')])

prop('C14', 'Finite-volume mesh tables describe the box grid, for every grid size',
     'For every domain and cell count in 2D and 3D: cell numbering, centres, sizes and volumes are those of the uniform grid; each '
     'cell lists itself and its neighbour across every face, and itself where there is none; signed distances and areas follow the '
     'same slot order; boundary tables list exactly the faces of each side with their cell, centre and side number.',
     ['inputs', 'configurations'], 'all domain lengths and cell counts in 2D and 3D',
     'No test covers the CFD part.', [CFDF], [('mesh2d/mesh3d', CFDF)])

prop('C15', 'Finite-volume operators are conservative face balances honouring the BCs',
     'Ghost values realise the boundary type and value of each side; the Laplacian is the sum over faces of coefficient times '
     'normal difference times area; the divergence is the net blended upwind flux with the upwind side chosen by the face velocity; '
     'the gradient is central; face velocities are means of both sides. All use the given boundary conditions, and zero flux when none are given.',
     ['inputs', 'configurations'], 'all grid sizes, fields, spacings, mixed boundary types and values',
     'No test covers the CFD part.', [CFDF], [('ghost_cell, laplace, div, gradient, get_face_vels', CFDF)])

prop('C16', 'Implicit FV equations balance fluxes and use the exact tangent',
     'For any grid, coefficient, source and mixture of boundary conditions, the residual of a cell is minus the net diffusive inflow '
     '(harmonic mean of a variable coefficient), minus source times volume, minus prescribed boundary fluxes; the linearised operator is '
     'its exact derivative and the preconditioner its inverse diagonal. The linear solver solves for the zero of the residual; the nonlinear '
     'solver iterates Newton steps on it until the relative residual of the returned iterate meets the tolerance or iterations run out.',
     ['inputs', 'configurations', 'histories'], 'all grids in 2D/3D, coefficient and source functions, boundary types and values, starts, tolerances; loops peeled 0..2 (thorough 3) times',
     'No test covers the CFD part.', [CFDF], [('poisson', CFDF), ('solver_linear, solver_nonlinear', CFDF)])

prop('C17', 'Each melt-pool step solves the stated balances and couples them in order',
     'The energy step solves storage with latent heat plus convection minus conduction minus source with the given boundary fluxes; the '
     'velocity step solves the momentum balance with mush drag per component, then projects with the pressure correction and '
     'accumulates the pressure gradient. A time step feeds them the source, boundary data and box of that time, updates velocity fields '
     'inside the box only, tracks the melted region, and advances time by dt. Laser, flux, Marangoni and moving-box rules hold at every '
     'time, also with the laser off. Written files hold the current fields, one numbered file per write, and cleaning deletes only old solution files.',
     ['inputs', 'configurations', 'histories'], 'all states, grids, box positions, material functions, times and parameters',
     'No test covers the CFD part.', [CFDF], [('energy_eqn, velocity_eqn', CFDF), ('AM_3d', CFDF)])

prop('C18', 'The explicit conduction step applies the stated material law, fluxes and update',
     'For every grid and temperature field: liquid fraction, conductivity and heat capacity follow their ramps with latent heat in the '
     'mushy zone; ghost cells realise convection, radiation and the laser on the face they belong to; interior cells advance by dt times '
     'diffusivity times the discrete Laplacian of the ghost-extended field, and nothing else changes.',
     ['inputs'], 'all grid sizes, fields and parameters', 'No test covers the CFD part.',
     ['jax_am/cfd/gamma.py'], [('update_T and helpers', 'jax_am/cfd/gamma.py')])

LBMF = 'jax_am/lbm/core.py'

prop('C19', 'Lattice Boltzmann kinetics keep mass, momentum and enthalpy moments exactly',
     'The velocity set is D3Q19, closed under the reversal table, with weights isotropic to fourth order. Equilibria carry exactly the '
     'density, momentum, enthalpy and convective flux they are built from; forcing adds the force and no mass. Density, enthalpy and '
     'half-step-corrected velocity are the moments of the populations, with velocity zero in solid or empty cells. Collision relaxes '
     'with the viscosity or diffusivity of the local state converted from physical units, freezes solid cells, and leaves nothing in gas or wall cells.',
     ['inputs'], 'all lattice sizes, populations, states and material parameters', 'No test covers the LBM part.',
     [LBMF], [('simulation: equilibria, forcing, moments, collision', LBMF)])

prop('C20', 'Streaming follows the cell states and exchanges mass antisymmetrically',
     'After streaming, a fluid cell holds, for every direction, the population of the upstream fluid neighbour, the reflected population '
     'where upstream is a wall, and the free-surface reconstruction where upstream is gas; enthalpy is insulated at gas and held at ambient '
     'temperature at walls. Interface mass changes by the difference of opposite populations times the mean fill of both interface cells '
     '(fully with liquid, not at all with gas or wall), so that what one cell gains the other loses. Cell mass is density in liquid, tracked mass at the interface, zero elsewhere.',
     ['inputs'], 'all lattice sizes with a wall layer, populations, velocities and state patterns; cells inside the wall layer', 'No test covers the LBM part.',
     [LBMF], [('simulation: update_f, update_h, compute_total_mass', LBMF)])

prop('C21', 'Cells change free-surface state only under the stated neighbour and fill rules',
     'Interface cells become liquid above, gas below, the fill thresholds; gas next to liquid becomes interface with zero mass and the '
     'equilibrium of the averaged neighbouring fluid; liquid next to gas becomes interface carrying its density; interface cells without liquid '
     'neighbours become gas and without gas neighbours liquid; nothing else changes state. Gas and wall cells are emptied before output.',
     ['inputs', 'histories'], 'all lattice sizes with a wall layer and all state patterns; cells inside the wall layer', 'No test covers the LBM part.',
     [LBMF], [('simulation: reini_*, adhoc_step, refresh_for_output', LBMF)])

prop('C22', 'The LBM loop threads state in order, conserves total mass and writes frames',
     'Every step computes macroscopic fields from the current populations, forces and heat from them and the laser position of that step, '
     'then collides, streams and applies the state changes in order, each to the latest fields; interface masses are then corrected by an equal '
     'share of the difference to the initial total mass. Frames are written at the start and after every output interval, numbered '
     'consecutively in the vtk folder, holding the fields of that step in physical units; the melted marker never unsets. Old frames are removed only from that folder.',
     ['inputs', 'histories', 'configurations'], 'runs of 1..3 steps (thorough 5) over arbitrary stage results, initial states and laser paths; all lattice sizes',
     'No test covers the LBM part.', [LBMF, 'jax_am/lbm/utils.py'], [('simulation', LBMF), ('clean_sols', 'jax_am/lbm/utils.py')])

prop('C23', 'LBM forces, heat input and laser path are the stated physics in lattice units',
     'Temperature follows the solid, mushy and liquid enthalpy branches; fill level, surface gradient and height-function curvature along the '
     'axis closest to the normal are the stated stencils; gravity, surface tension, Marangoni and recoil forces, laser heating of upward-facing '
     'surface and convective/radiative losses use every parameter converted by length, time, mass, temperature and molar units. The laser path '
     'visits the corners at scanning speed with the power switch of each segment.',
     ['inputs', 'configurations'], 'all lattice sizes, fields and parameters; paths with 2 and 3 corners', 'No test covers the LBM part.',
     [LBMF], [('simulation: compute_*, read_path', LBMF)])

ACF = 'jax_am/phase_field/allen_cahn.py'

prop('C25', 'Grain growth follows the stated Allen-Cahn law on every grid and state',
     'For every grid, order-parameter field and temperature, the rate is minus the Arrhenius mobility times the derivative of the stated '
     'free energy (double well, grain repulsion, liquid penalty) minus the diffusion term with zero-flux sides, with the anisotropy factor of '
     'the local normal against the grain axes when enabled. The Euler and Runge-Kutta integrators advance state and time by their scheme, the '
     'liquid reset clears exactly the cells above liquidus plus one, and the initial state has order parameter one exactly for the orientation of each cell.',
     ['inputs', 'configurations'], 'all grid sizes, orientation counts, fields and parameters', 'No test covers the phase-field part.',
     [ACF, 'jax_am/phase_field/utils.py'], [('phase_field, PFSolver', ACF)])

prop('C26', 'Phase-field frames hold the fields of their step; non-finite states stop a run',
     'Starting a run deletes old solution files from its own solution folder and nothing else. Every frame is written to the solution folder under '
     'step over interval, holding that step\'s temperature, the orientation with the largest order parameter and its three pole colours, black above '
     'liquidus; the colour table stays unchanged. A run stops exactly when some order parameter is not finite.',
     ['inputs', 'histories'], 'all grid sizes, orientation counts, fields and colour tables; three step/interval pairs', 'No test covers the phase-field part.',
     [ACF], [('PFSolver.clean_sols, inspect_sol, write_sols', ACF)])

PUF = 'jax_am/phase_field/utils.py'

prop('C27', 'Polycrystal geometry, orientations, layers and grain data belong together',
     'Grid and cell sizes follow the spacing of the mesh file, which is checked against grain count and grid size; every cell gets the orientation '
     'drawn for its grain from the available ones. Grain axes are the coordinate axes rotated by the saved quaternions, colours those of the three specimen '
     'directions. A new layer sits on top of the earlier ones with cells, centres, grain numbers and orientations kept in step. '
     'Cell adjacency is face adjacency of the grid; grain volumes, points and aspect ratios are those of the grain\'s own cells. A missing polycrystal is generated with the requested grains, seed and domain; an existing one is kept.',
     ['inputs', 'configurations'], 'all mesh sizes, grain and orientation counts; adjacency for a table of grid sizes; grain lists of fixed shape with arbitrary members',
     'No test covers the phase-field part.', [PUF, 'jax_am/phase_field/neper.py'],
     [('Field, generate_new_mesh, compute_edges_in_order, grain statistics', PUF), ('pre_processing', 'jax_am/phase_field/neper.py')])

prop('C12', 'The MMA optimiser solves the stated filtered, moving-asymptote subproblems',
     'For every number of variables and constraints, each iteration evaluates objective and constraints at the current design, filters '
     'sensitivities over centroid neighbours with weights falling linearly to zero at 1.5 cell sizes, and hands the subproblem the stated '
     'asymptotes, move limits and convex approximation, with two designs of history. The interior-point solver starts strictly inside the bounds; its direction '
     'solves the linearised optimality system in both formulations, steps stay strictly feasible and are halved while the optimality residual grows, barrier levels fall tenfold, and iteration tests the '
     'optimality residual. The last design is returned in the shape of the first.',
     ['inputs', 'histories', 'configurations'],
     'all numbers of variables and constraints and all data; outer loops of 0..3 iterations (thorough 5); one generic iteration of each inner loop; filters for n>=20 cells and a table of fewer',
     'One topology-optimisation demo, no test, runs the optimiser.', ['jax_am/fem/mma.py'],
     [('MMA.mmasub, subsolv, optimize, compute_filter_kd_tree', 'jax_am/fem/mma.py')])

prop('C13', 'Meshes and files hold exactly what was asked for',
     'Structured boxes and rectangles have the equidistant lattice as nodes and each cell its corners in element order; generated boxes have the '
     'requested lengths, divisions, element type and order; dropping unused cylinder nodes leaves every cell in place. Solution files hold mesh, cell type and all '
     'given fields under their names at the requested path, and data of the wrong length is refused. Tables have one block per frame with the nodes, time and fields of '
     'that frame in order. Parameter files are only read; timing wrappers change no result.',
     ['inputs', 'configurations'], 'all mesh sizes and fields; every element type; tables of two frame sets in arbitrary directory order',
     'Tests use a few fixed meshes and never read the written files back.', ['jax_am/common.py', 'jax_am/fem/generate_mesh.py', 'jax_am/fem/utils.py'],
     [('box_mesh, rectangle_mesh, to_data_frame', 'jax_am/common.py'), ('box_mesh, cylinder_mesh, get_meshio_cell_type', 'jax_am/fem/generate_mesh.py'),
      ('save_sol', 'jax_am/fem/utils.py')])

LINT = 'static analysis: scope resolution, may-bound dataflow, call-signature and attribute resolution over the syntax tree of the whole library'

prop('C28', 'Names, attributes, calls and results fit together across the library',
     'In every library module, every name read is bound in an enclosing scope, no local variable is read where it is unbound on every path, and everything imported '
     'from the library (also by the shipped demos, applications and examples) exists there. Calls whose target is known pass arguments the target accepts, tuple results are '
     'unpacked into as many names as the callee returns, and attributes read on self or on a problem object are set or defined somewhere.',
     ['inputs', 'configurations'], 'every function of every library module, whichever branch is taken; calls, results and attributes the analysis can resolve',
     'Most modules and branches are never run by a test; Python reports such mistakes only when the line is reached.',
     ['jax_am/', 'demos/', 'applications/'], [('all functions', 'jax_am/')], technique=LINT)

prop('C29', 'Computations run in double precision and random draws are seeded',
     'Importing the finite-element core, the optimiser or the CFD module switches JAX to 64-bit floats, and no library code switches it off. In every library module, '
     'numbers narrower than 64-bit floats or 32-bit integers are made only for output files: no computation, index, returned value or solver callback uses them, '
     'and no contraction asks for reduced precision. Random polycrystals are drawn from a generator with a fixed seed, so a run can be repeated.',
     ['inputs', 'configurations'], 'every library module: every mention of a narrow number type followed to all its uses; every random draw',
     'Tests compare with loose tolerances on small problems; single precision and 16-bit indices pass them and fail on ill-conditioned or large ones.',
     [FEM, 'jax_am/fem/mma.py', CFDF, PUF], [('module-level configuration, dtype arguments', FEM), ('onp.random.seed', PUF)],
     technique='static analysis: forward value-flow of narrow number types from their source to all uses, import-time reachability of the precision switch and seed')

prop('C30', 'Files are written and deleted only where the caller said',
     'Every file the library writes lies below a folder or at a path the caller passed (only the two table exports write a fixed name in the working directory), and the '
     'subfolder it needs is created by the same part of the library. Cleaning up removes only files directly inside the part\'s own solution subfolder, where that part writes its '
     'frames, never the caller\'s folder itself, paths above it, or what another part wrote. External programs are given no deleting command and their output goes below the caller\'s folder.',
     ['inputs', 'configurations'], 'every file-writing, deleting, folder-making and shell call of every library module, for all paths the caller may pass',
     'Tests run in one fixed folder and never look for what was written or lost elsewhere.',
     ['jax_am/'], [('clean_sols', CFDF), ('clean_sols', 'jax_am/lbm/utils.py'), ('clean_sols', ACF), ('save_sol', 'jax_am/fem/utils.py')],
     technique='static analysis: path-provenance dataflow from every file effect back to caller-given roots, through locals, attributes and calls')

prop('C31', 'The caller\'s data stays unchanged and no computed update is dropped',
     'No public library function changes in place the arrays, meshes, lists or parameter tables its caller passed, directly, through a view or through a function it calls; exceptions are '
     'the output fields of a mesh being written, the system a solver keeps on the problem object, missing optional parameters and grid counts filled in by the CFD and polycrystal constructors, and '
     'the symmetry label of orientations. The result of a functional update or other pure array operation is never thrown away.',
     ['inputs', 'histories'], 'every public function of every library module; aliases the analysis can trace',
     'A test that calls a function once with fresh data cannot see that its inputs were altered.',
     ['jax_am/'], [('all public functions', 'jax_am/')],
     technique='static analysis: alias and mod-effect summaries of every function, propagated through the call graph')

na('C32', 'Newton and Krylov iterations converge on well-posed problems',
   'For a well-posed problem and a start within the basin of attraction, the finite-element, Lagrange-multiplier, finite-volume and '
   'interior-point iterations end after finitely many steps instead of running on or raising.',
   ['inputs'], 'all well-posed problems, starts and floating-point roundings',
   'Five fixed problems converge in the tests; the basin of attraction and the conditioning of other problems are not sampled.',
   [SOL, 'jax_am/cfd/cfd_am.py', 'jax_am/fem/mma.py'], [('Newton loop', SOL)],
   'Depends on contraction constants, conditioning and rounding of the user\'s problem, which no static argument over this source bounds; '
   'C07, C08, C12 and C16 decide what is returned when the loops end.')

na('C33', 'Discrete solutions converge to the continuum solution under refinement',
   'Refining mesh or time step reduces the error of the finite-element, finite-volume, lattice-Boltzmann and phase-field solutions at the '
   'order of the scheme.',
   ['inputs'], 'all sequences of refined meshes and time steps, all smooth data',
   'Tests compare a handful of meshes against stored fields.',
   [FEM, 'jax_am/cfd/cfd_am.py', 'jax_am/lbm/core.py', 'jax_am/phase_field/allen_cahn.py'], [('discretisations', FEM)],
   'A statement about limits of solutions over sequences of runs; statically only consistency of the formulas is decidable, which C03, C04, '
   'C10, C15, C16, C18, C19 and C25 do.')

na('C34', 'Explicit time stepping stays stable for the shipped parameter sets',
   'With the shipped parameters the lattice-Boltzmann, explicit conduction and phase-field integrators stay bounded for the duration of the '
   'run, and the melt-pool coupling does not oscillate.',
   ['inputs', 'histories'], 'all time steps of a run with the shipped parameters',
   'No test runs these simulations at all.',
   ['jax_am/lbm/core.py', 'jax_am/cfd/gamma.py', 'jax_am/phase_field/allen_cahn.py'], [('time loops', 'jax_am/lbm/core.py')],
   'Nonlinear stability over thousands of steps depends on the runtime fields (velocities, temperatures, interface shapes); no invariant '
   'within reach bounds them. Conservation per step is decided in C19, C20 and C22.')

na('C35', 'External mesh generators return the geometry they were asked for',
   'The meshes gmsh and Neper write (cylinders, boxes, tessellations) fill the requested domain with valid, non-inverted cells of the '
   'requested kind and number.',
   ['inputs', 'configurations'], 'all domain sizes, divisions and grain counts',
   'Tests generate one box and never call Neper.',
   ['jax_am/fem/generate_mesh.py', 'jax_am/phase_field/neper.py'], [('gmsh and Neper calls', 'jax_am/fem/generate_mesh.py')],
   'The generators are external programs whose source is not in the repository; C13 and C27 decide the requests made and what is done with '
   'the answers.')

na('C36', 'Runs fit in memory and finish in the time the batching is meant to ensure',
   'Peak memory of cell evaluation grows with the batch, not with the mesh, and a compiled kernel is reused between Newton steps.',
   ['inputs', 'schedules'], 'all mesh sizes, devices and compiler versions',
   'Tests use small meshes on one device.',
   [FEM], [('split_and_compute_cell', FEM)],
   'Memory and recompilation are decided by the XLA compiler and the device allocator at run time; the source only fixes the batch count, '
   'whose values C05 shows not to matter for the result.')

prop('C24', 'Grains are the connected sets of solid cells of one orientation',
     'In the grain statistics, every cell below liquidus belongs to exactly one grain and no other cell to any; two face-adjacent solid cells of equal orientation '
     'are in the same grain, and a grain holds a single orientation and is connected. Grains are filed under their orientation, and the '
     'combined list holds all of them once.',
     ['inputs'], 'all grids, temperatures, orientations and adjacency lists',
     'No test covers the grain statistics; a marking or guard that is wrong shows only for particular neighbourhoods.', [PUF],
     [('BFS', PUF), ('compute_edges_in_order, process_eta', PUF)],
     technique='typestate and path-condition analysis of the worklist search (unseen, queued, recorded) over the syntax tree; abstract interpretation of its inputs',
     note='The worklist invariants are read off the guards, marks and records of the search; another search algorithm is left undecided.')
