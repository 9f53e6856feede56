NA = []
prop('C01', 'The mesh is always a valid partition that covers the problem',
     'At every time between zero and the final time the spatial mesh has exactly one more edge than there are cells, all edges are finite and strictly increasing, a spherical mesh starts at the centre and a slab mesh of a symmetric problem is symmetric about the origin. '
     'The outermost edges lead the signal front of an unbounded problem (initial half width plus edge speed times time) and never leave a finite domain, the boundaries of a square source stay on mesh edges, and a boundary-driven problem always spans exactly its domain and keeps an edge on its moving shock. '
     'A static mesh never moves and has the edges that the moving mesh of the same problem has at the final time (a static finite square pulse mesh spans the domain).',
     ['configurations', 'inputs'], 'all supported problem types, geometries, cell counts, widths, speeds, final times and evaluation times',
     'The only mesh test is a legacy script that is not collected; the partition must be valid for every configuration and every time the integrator may ask for, including the regime boundaries.',
     [SC + 'mesh.py', SC + 'mesh_functions.py'], [('mesh initialisation', SC + 'mesh.py: initialize_mesh and the *_init_func methods'), ('mesh motion', SC + 'mesh.py: move, move_middle_edges')],
     'explicit-state enumeration of mesh configurations x times on the real mesh, invariants on every state',
     'Every configuration of the stated product is built and evaluated at every regime-boundary time on the compiled implementation.',
     observe=['edges after every move'])
prop('C02', 'Reported edge velocities are the time derivatives of the edges',
     'At every time the velocity the mesh reports for each edge equals the time derivative of that edge\'s position; where a trajectory has a kink it equals one of the one-sided derivatives. '
     'A static mesh reports zero velocity for every edge.',
     ['configurations', 'inputs'], 'all supported mesh configurations and all evaluation times',
     'The moving-mesh discretisation is only consistent when velocity and position agree at every time; no test compares them and a mismatch still gives plausible results.',
     [SC + 'mesh.py'], [('velocity bookkeeping', SC + 'mesh.py: move, Dedges, Dedges_const, c1s')],
     'explicit-state enumeration of mesh configurations x times, difference quotients of the real trajectories',
     'One-sided and central difference quotients of the real trajectory bind the reported velocity at every enumerated time; a kink accepts either side.', observe=['edges and Dedges after move'])
prop('C03', 'The mesh is a function of time only',
     'Whatever times the mesh was evaluated at before, in whatever order, evaluating it at a time gives the edges and velocities that a freshly created mesh gives at that time. '
     'Adaptive integrators evaluate the mesh at rejected, repeated and earlier times, so a mesh that remembers earlier evaluations makes the solution depend on step-size history.',
     ['histories'], 'all sequences of mesh evaluations up to a depth over a menu of times around every regime boundary',
     'Tests call the mesh once with increasing times; history dependence shows only for particular sequences of times.',
     [SC + 'mesh.py'], [('stateful mesh motion', SC + 'mesh.py: move (edges, edges0, edges0_2, Dedges, c1s are members)')],
     'stateless model checking of the real mesh object: all call sequences to depth 4 (quick) or 5 (thorough) against the memoryless reference',
     'Exhaustive over call sequences within the stated depth and time menu.', observe=['edges and Dedges after each move of the sequence'])
prop('C04', 'Cell matrices are the exact moment integrals of the basis',
     'For every cell, edge velocity and basis order, the mass, streaming and moving-mesh matrices the code assembles (Legendre basis in slabs, weighted Chebyshev basis and r-squared volume element in spheres) equal the integrals of the basis products, basis derivatives and basis time derivatives they stand for. '
     'The values depend only on the cell they were last computed for, not on the cells the same object handled before, and tables read from file are used in the order in which they were written.',
     ['inputs', 'histories'], 'all orders up to 8, cells at and away from the centre, widths, all sign combinations of edge velocities; all sequences of cells to a depth',
     'A wrong coefficient in one entry of one order changes solutions by amounts that no sampled test of a full solve can attribute; no collected test touches the matrices.',
     [SC + 'matrices.py', SC + 'GMAT_sphere.py', SC + 'chebyshev_matrix_builder.py', 'moving_mesh_transport/solver_functions/Chebyshev_matrix_reader.py'],
     [('matrix assembly', SC + 'matrices.py: G_L.make_L, make_G, make_mass_sphere, make_J, make_VV'), ('closed-form sphere matrices', SC + 'GMAT_sphere.py')],
     'explicit enumeration of cells x velocities x orders and of all cell sequences on the real matrix object, exact-quadrature reference',
     'The reference integrals come from independent quadrature that is exact for the integrand; the tables the repository reads but does not ship are generated in rational arithmetic.',
     observe=['G_L.L, G, Mass, J after make_*'])
prop('C05', 'The right-hand side is the discrete ordinates DG operator',
     'For every supported problem, geometry, opacity, order and ordinate count, the time derivative returned for a state equals the discontinuous Galerkin discretisation of the transport equation on the current moving mesh: streaming with upwind fluxes relative to the edge velocity, absorption, isotropic scattering, external and uncollided sources, and boundary inflow. '
     'The derivative is affine in the state.',
     ['configurations', 'inputs'], 'all systems of the stated configuration product, all basis states (which decide all states by affinity), times at every source and mesh switch',
     'The repository has no test of the right-hand side; wrong entries for particular angle/cell/moment combinations or regimes give smooth plausible solutions.',
     [SC + 'rhs_class_1.py', SC + 'numerical_flux.py', SC + 'sources.py', SC + 'phi_class.py', SC + 'opacity.py', SC + 'matrices.py'],
     [('right-hand side', SC + 'rhs_class_1.py: call, slab, sphere'), ('upwind flux', SC + 'numerical_flux.py: LU_surf'), ('sources', SC + 'sources.py: make_source')],
     'explicit-state: every basis state of every enumerated system through the compiled right-hand side, compared with an independently written reference operator',
     'The reference operator (mc/ref.py) shares no code with the repository and is bound to it on every basis state of every system and time.', observe=['rhs_class.call'])
prop('C06', 'Particles are conserved in every cell and in the domain',
     'For constant opacity the rate of change of the particle content of a cell equals streaming through its two faces minus absorption plus scattering and sources, interior face exchanges cancel, so that without absorption only the outer boundaries and sources change the total; scattering with c = 1 neither creates nor destroys particles. '
     'In a slab, a solution that is a polynomial in space of degree at most the basis order is differentiated in time exactly, whatever the mesh motion.',
     ['configurations', 'inputs'], 'all systems of the configuration product with constant opacity x all basis states x times',
     'Conservation must hold for every state, mesh motion and order; the collected tests do not run the transport operator at all.',
     [SC + 'rhs_class_1.py', SC + 'numerical_flux.py', SC + 'matrices.py', SC + 'phi_class.py'],
     [('balance', SC + 'rhs_class_1.py: slab and sphere assembly'), ('face exchange', SC + 'numerical_flux.py: make_LU')],
     'explicit-state: particle balance monitored on every basis state of every enumerated system of the real operator', 'Invariant evaluated on the compiled operator, no model involved.',
     observe=['rhs_class.call'])
prop('C07', 'Information travels upwind, and the slab scheme is dissipative',
     'The derivative in a cell for an ordinate depends only on that cell, on its upwind neighbour relative to the moving edge, and on other ordinates only through scattering (and neighbouring ordinates in a sphere). '
     'For slab problems without sources the energy norm does not grow with time for absorbing or conservative scattering media, and at lowest order non-negative states stay non-negative.',
     ['configurations', 'inputs'], 'all systems of the configuration product with slab or sphere geometry x all basis states x times',
     'Stability and causality are statements about every state; one wrong upwind choice at one edge for one sign of the relative velocity is invisible in smooth runs.',
     [SC + 'rhs_class_1.py', SC + 'numerical_flux.py', SC + 'opacity.py'], [('upwinding', SC + 'numerical_flux.py: extend_mesh, make_LU'), ('coupling', SC + 'rhs_class_1.py')],
     'explicit-state: dependency graph, energy form and sign pattern of the operator measured on every basis state of every enumerated system',
     'Operator measured column by column on the compiled implementation; eigenvalue test of the symmetric part decides dissipation for all states of that system.', observe=['rhs_class.call'])
prop('C08', 'The right-hand side is a pure function of time and state',
     'Evaluating the right-hand side at a time and state gives a result that does not depend on which times and states were evaluated before, in whatever order, and does not modify the state it was given. '
     'The integrators evaluate at rejected steps, repeated stages and perturbed states, so any memory makes the solution depend on step-size history.',
     ['histories'], 'all sequences of evaluations up to a depth over a menu of (time, state) pairs including decreasing and repeated times, for systems covering every problem, geometry, opacity and source treatment',
     'History dependence manifests only for particular sequences; the integrator happens to use one.',
     [SC + 'rhs_class_1.py', SC + 'mesh.py', SC + 'opacity.py', SC + 'sources.py', SC + 'matrices.py', SC + 'numerical_flux.py', SC + 'phi_class.py'],
     [('stateful helper objects', SC + 'rhs_class_1.py: call (mesh, matrices, num_flux, source, uncollided_sol, flux, sigma_class are reused)')],
     'stateless model checking: all evaluation sequences to depth 3 (quick) or 4 (thorough) on the real objects against fresh objects',
     'Exhaustive within depth and menu, compared bitwise up to round-off.', observe=['rhs_class.call'])
prop('C09', 'Saved solutions are loaded back and never overwrite another problem',
     'After any sequence of saves, loading a solution by its key (problem, source, collided/uncollided, moving/static, cells, final time, scattering ratio, width, epsilon) returns the data most recently saved under that key, and saves under other keys, other source types or other problem folders do not change it. '
     'Wave points saved for a problem are the ones read back.',
     ['histories'], 'all sequences of saves up to a depth over keys that differ pairwise in as little as one component',
     'Overwriting needs two particular saves in a row; no test saves anything.',
     ['moving_mesh_transport/loading_and_saving/save_output.py', 'moving_mesh_transport/loading_and_saving/load_solution.py', SC + 'functions.py'],
     [('saving', 'moving_mesh_transport/loading_and_saving/save_output.py: save_output'), ('loading', 'moving_mesh_transport/loading_and_saving/load_solution.py: load_sol')],
     'explicit-state: all save sequences to a depth on the real HDF5 code in a scratch folder against a dictionary model', 'Model and implementation are compared after every operation (every key is loaded back).',
     observe=['load_sol after each save'])
RF = 'moving_mesh_transport/solver_functions/'
prop('C10', 'Reported fluxes are the cell polynomials evaluated at the points',
     'The scalar flux, angular flux, exit distribution, exit flux and material energy reported at a point are the (weighted) values of the expansion in the cell that contains the point plus the uncollided part when it is on, and zero outside the mesh. '
     'The points chosen for output lie inside the mesh, in order, and include every cell.',
     ['inputs', 'configurations'], 'all basis states x orders x cells x ordinates x points on, next to, between and beyond the edges',
     'The solution a user reads is produced only here; an off-by-one in one cell at one edge is invisible in a plot, and nothing tests it.',
     [SC + 'make_phi.py', SC + 'functions.py'], [('reconstruction', SC + 'make_phi.py: make_output (make_phi, make_exit_phi, make_e), basis'), ('output points', SC + 'functions.py: find_nodes')],
     'explicit-state enumeration of basis states x meshes x points on the real reconstruction, independent basis evaluation',
     'Output is affine in the coefficients, so the unit coefficients decide every state of the enumerated meshes. At interior edges either one-sided value is accepted.', observe=['make_output results'])
prop('C11', 'Analytic uncollided fluxes are the uncollided fluxes of the problem',
     'For every problem with an uncollided treatment the analytic uncollided scalar flux at a position and time equals the streaming-and-absorption solution of that problem (superposition of plane pulses in slabs, ray tracing in spheres, two beams for S2, and, for particles entering at the left edge of a slab into the opacity profile with a moving shock, attenuated beams), is zero ahead of the signal front, symmetric where the problem is, and finite at every time including zero. '
     'With the treatment off the uncollided flux and source are zero.',
     ['inputs', 'configurations'], 'all problems x widths x durations x every regime of (time, position) delimited by wave fronts and source boundaries',
     'The formulas switch between many regimes in time and space; the collected tests sample one or two regimes of two problems.',
     [SC + 'uncollided_solutions.py'], [('analytic solutions', SC + 'uncollided_solutions.py: uncollided_solution')],
     'explicit enumeration of all regimes of the real closed forms against independent integration of the plane-pulse kernel and of rays',
     'The reference integrates the kernel with panels split at every front; it shares no formulas with the repository.', observe=['uncollided_solution.uncollided, uncollided_integrated'])
prop('C12', 'Quadrature rules are exact up to their promised degree',
     'The Gauss-Legendre rule with n points integrates every polynomial of degree 2n-1 exactly, the Gauss-Lobatto rule every polynomial of degree 2n-3 and contains both end points, and the Chebyshev rule every weighted polynomial of degree 2n-1. '
     'Points are distinct, ordered and symmetric, weights positive, and the angular weights of a problem are normalised to one with zero first moment.',
     ['inputs'], 'every rule size up to the bound x every polynomial degree up to the exactness limit',
     'Every integral in the solver rests on these rules for every size the user may request.',
     [SC + 'functions.py', SC + 'build_problem.py'], [('rules', SC + 'functions.py: quadrature'), ('angular weights', SC + 'build_problem.py: make_normalization, build.__init__')],
     'exhaustive enumeration of rule sizes x monomial degrees (in an orthogonal basis) on the real rules', 'Finite: every size and every degree of the stated range is decided.', observe=['quadrature nodes and weights'])
prop('C13', 'The initial state is the projection of the initial condition',
     'The initial expansion coefficients of every problem are the projection of its initial condition onto the cells at time zero, the same for every ordinate of an isotropic pulse, and carry its particles: the stated number for a pulse, zero where the pulse is handled by the uncollided solution or the problem starts empty. '
     'The initial material energy is the prescribed one in every cell.',
     ['configurations'], 'all problems x geometries x moving/static x orders x ordinates x cells x strengths x uncollided on/off',
     'Everything computed afterwards depends on it; only symmetric, low-order use would look right if a moment, cell or ordinate were wrong.',
     [SC + 'build_problem.py'], [('initial condition', SC + 'build_problem.py: build.make_IC, integrate_quad, integrate_quad_sphere, IC_func')],
     'explicit-state enumeration of problem configurations on the real problem object, independent projection and particle count',
     'Every configuration of the stated product is built on the compiled implementation.', observe=['build.IC after make_IC'])
prop('C14', 'Input file settings reach the solver, contradictions are refused',
     'Every setting in the problem and mesh input files reaches the solver run it applies to with the stated value and meaning, one run per listed cell count (times the number of repetitions) with the matching order, ordinates and width (a study of the order keeps the cell count). '
     'Input lists of different lengths, several geometries or several opacities start no run.',
     ['configurations'], 'all single deviations (and pairs) from a complete input file, every problem, every list length, every contradictory selection',
     'Fifty settings are passed by position through three layers; a swap or a default shows only when that setting is changed.',
     [RF + 'main_functions.py', RF + 'run_functions.py', 'moving_mesh_transport/solver.py', 'moving_mesh_transport/loading_and_saving/load_parameters.py'],
     [('input handling', 'moving_mesh_transport/loading_and_saving/load_parameters.py: parameter_load_class'), ('argument passing', 'moving_mesh_transport/solver.py: main_class.main'), ('entry points', RF + 'run_functions.py: run')],
     'exhaustive enumeration of deviations from a complete input file through the real entry points, solve() replaced by a recorder that binds arguments by name',
     'All single deviations, all treatments, wave points of the optically thick problems, and pairs for two problems (all problems in the thorough tier). The numerical solve is a stand-in; what it receives is compared with the input.', observe=['arguments of solve()'])
prop('C15', 'Varying opacity enters through exact moments at the current time',
     'For every supported opacity profile the absorption and scattering terms of the right-hand side equal the moments of the opacity expansion times the flux expansion in each cell, with the opacity evaluated at the current time and mesh. '
     'They do not depend on the cells, times and meshes evaluated before.',
     ['inputs', 'histories'], 'all profiles x orders x opacity orders x cells x times, unit states; all evaluation sequences to a depth',
     'Triple products and time-dependent moments go wrong only for particular order combinations or after particular histories.',
     [SC + 'opacity.py', SC + 'phi_class.py'], [('opacity moments', SC + 'opacity.py: sigma_integrator'), ('scattering', SC + 'phi_class.py: call_P_noncon')],
     'explicit enumeration of profiles x orders x cells x times on unit states plus all evaluation sequences to a depth, real opacity objects against exact moments',
     'The terms are bilinear in opacity moments and state, so unit states decide all states for each enumerated opacity expansion.', observe=['make_vectors, call_P_noncon results'])
prop('C18', 'A run returns the solution at the requested times',
     'For every problem a solver run returns the solution of the semi-discrete system at the final time, and at each requested saved time the flux, angular flux, exit quantities and output points of that time, independent of how many times are requested, of the integrator and of the step limit. '
     'Without boundaries, scattering conserves particles and only absorption and sources change their number.',
     ['configurations', 'histories'], 'every problem type x geometry x opacity x source treatment x moving/static x lists of saved times x integrators x step limits x output point choices',
     'The whole assembly - initial state, operator, mesh, integration segments, reconstruction - is exercised together; tests compare a handful of slab runs with loose tolerances.',
     [RF + 'main_functions.py', SC + 'rhs_class_1.py'], [('solve', RF + 'main_functions.py: solve'), ('operator', SC + 'rhs_class_1.py: rhs_class.call')],
     'explicit-state enumeration of run configurations and saved-time schedules on the real solve(), conformance with an independently wired integration of the same real operator and a particle-balance invariant',
     'All configurations of the product and all listed time schedules run; every returned point at every saved time is compared.', observe=['return values of solve()'])
prop('C19', 'After any history of runs, results and files are those of their own run',
     'After any sequence of runs through the public entry points, the results handed out are those of the most recent run, and every solution loaded from disk is the one saved by the run with those settings, at each of its saved times. '
     'Repetitions and several cell counts neither mix nor lose runs.',
     ['histories', 'configurations'], 'all sequences of runs to a depth over problems, treatments, list lengths, repetitions, saved-time lists and storage formats',
     'Cross-talk between two runs needs a particular pair of them; tests never run two different problems or load anything back.',
     [RF + 'run_functions.py', 'moving_mesh_transport/solver.py', 'moving_mesh_transport/loading_and_saving/save_output.py'],
     [('run histories', RF + 'run_functions.py: run'), ('results and saving', 'moving_mesh_transport/solver.py: main_class.main'), ('files', 'moving_mesh_transport/loading_and_saving/save_output.py: save_output.save_output')],
     'explicit-state: all sequences of runs to a depth on the real entry points and HDF5 files in a scratch folder, against a dictionary model', 'The numerical solve is replaced by a recorder with recognisable answers except in the real-run mode.',
     observe=['attributes of run after each run', 'load_sol after each run'])
prop('C16', 'The emission term follows the emission law',
     'The emission term of the material-energy problems is, in every cell, the projection of the emission law of the material energy: the energy itself for the Su-Olson heat capacity (negative energies included), the fourth power of energy over heat capacity for a constant one, and zero for uncoupled problems. '
     'It does not depend on the cells evaluated before and leaves the energy unchanged.',
     ['inputs', 'histories'], 'all energy vectors over a grid x orders x cells x laws x heat capacities, all evaluation sequences to a depth',
     'Sign handling of negative energies and the quartic coupling of moments show only for particular energy vectors; the collected tests evaluate neither.',
     [SC + 'radiative_transfer.py'], [('emission law', SC + 'radiative_transfer.py: T_function.make_H, T_func, su_olson_source')],
     'explicit-state enumeration of energy vectors x cells x orders and of evaluation sequences on the real emission object against closed forms', 'Every vector of the grid is evaluated; sequences compared with single evaluations.', observe=['T_function.H after make_H'])
prop('C17', 'Basis functions are orthonormal on every cell',
     'The cell basis functions are, for every order and on every cell however narrow, wide or far from the origin, the orthonormal Legendre polynomials (slab) and the Chebyshev polynomials orthonormal under their weight (sphere), with the same values from the scalar and the vector forms. '
     'The exponential integral and the step functions used in the analytic solutions have their mathematical values.',
     ['inputs'], 'all orders x all cells over a set of end points, all pairs of orders',
     'Every coefficient in the solver is relative to this basis for every order and cell.',
     [SC + 'functions.py'], [('bases', SC + 'functions.py: normPn, normPn_scalar, Pn, normTn, eval_Tn, weight_func_Tn'), ('special functions', SC + 'functions.py: numba_expi, heaviside_vector, heaviside_scalar')],
     'exhaustive enumeration of orders x cells on the real basis functions against three-term recurrences and exact quadrature', 'Finite: every order and order pair on every enumerated cell is decided.', observe=['normPn, normTn values'])
prop('C20', 'The reported error is the error against the benchmark',
     'With benchmarking on, the reported and stored RMSE of every run is the root mean square difference between the scalar flux it returned (and material energy, where there is one) and the benchmark of that problem and final time at the same positions, zero beyond the range of the benchmark. '
     'The reported convergence orders follow from successive errors and cell counts.',
     ['configurations', 'inputs'], 'all problems x times x scalings x point layouts relative to the benchmark range x cell counts x repetitions',
     'Users judge accuracy by these numbers; wrong ones look plausible, and no test reads them.',
     ['moving_mesh_transport/solver.py', 'moving_mesh_transport/loading_and_saving/load_bench.py', SC + 'functions.py'],
     [('error', 'moving_mesh_transport/solver.py: main_class.main'), ('benchmark', 'moving_mesh_transport/loading_and_saving/load_bench.py: load_bench'), ('order', SC + 'functions.py: convergence')],
     'exhaustive enumeration of run configurations x point layouts through the real entry points with synthetic benchmark files, solve() replaced by a recorder', 'Benchmarks are polynomials, so the expected error is exact.',
     observe=['printed RMSE and orders', 'RMS_list'])
prop('C21', 'Cubic splines interpolate and the linear solver solves',
     'For every set of increasing knots and data the cubic spline is the natural interpolating spline: it passes through the data, has continuous slope and curvature, and zero curvature at the ends; evaluation does not depend on the other points asked for. '
     'The linear solver returns the solution of every non-singular system and leaves its input unchanged.',
     ['inputs'], 'all knot sets from a position set x all unit data, all small data vectors, all small integer matrices',
     'Tests look at one plot of a sine; row exchanges and first or last intervals matter only for particular systems.',
     [SC + 'cubic_spline.py'], [('spline', SC + 'cubic_spline.py: cubic_spline'), ('linear solver', SC + 'cubic_spline.py: GaussElim, swap_rows, BackSub')],
     'exhaustive enumeration of knot sets, data vectors and integer matrices on the real spline and solver against independent references', 'The spline is linear in its data, so unit data decide every data vector for each enumerated knot set.', observe=['eval_spline values', 'GaussElim result'])
prop('C22', 'The references a run is drawn against solve its problem',
     'Every closed form and table that boundary driven runs and the wide square source are drawn against is the solution of that problem: the attenuation along characteristics by the opacity the run uses (moving shock with its speed and switch-off time, steady Gaussian and constant absorbers), the exit fluxes of the slab albedo problem, and the flux of the square source between vacuum boundaries. '
     'It is drawn for the problem it belongs to only, and the difference that is reported is that of the final time.',
     ['inputs', 'configurations'], 'all shock speeds x switch-off times x times x directions x places over grids, all quadratures, every entry of the tables',
     'Users accept or reject a solver by these references; a wrong branch of the moving shock or one wrong digit looks plausible, and no test evaluates them.',
     [RF + 'run_functions.py', SC + 'opacity.py'],
     [('moving shock', RF + 'run_functions.py: run.fake_sedov, run.fake_sedov_benchmark'), ('absorbers', RF + 'run_functions.py: run.steady_state_gaussian_benchmark, run.boundary_source'), ('tables', RF + 'run_functions.py: run.siewert_bench, run.olson_henderson_bench')],
     'exhaustive enumeration of speeds x times x directions x places and of all table entries through the real run object, against characteristics of the real opacity and independent transport solutions',
     'Pure functions of few parameters: all combinations of the grids, which contain every order of front, shock, switch-on and switch-off, are evaluated; the tables are finite and every entry is recomputed.', observe=['curves handed to the plot, printed RMSE'])
prop('C23', 'Runs converge to the solution of the transport equation',
     'Whatever mesh (moving or static), basis order and source treatment (with or without the uncollided solution) is chosen, the angular and scalar flux of a run approximate the exact solution of the discrete-ordinates transport equation of its problem to within a fixed multiple of the best approximation in its trial space, and the number of particles is that of the problem. '
     'Boundary driven absorbers follow the attenuation of every opacity profile; a ball of particles in the sphere follows the slab solution it transforms to.',
     ['configurations'], 'every pulse, source, boundary and manufactured problem x mesh treatment x source treatment x media x orders x ordinates x cell counts',
     'This is what the code exists for; every component can be self-consistent and the whole still solve another equation. Tests compare single runs with loose tolerances.',
     [RF + 'main_functions.py', SC + 'rhs_class_1.py', SC + 'sources.py', SC + 'mesh.py'],
     [('run', RF + 'main_functions.py: solve'), ('operator', SC + 'rhs_class_1.py: rhs_class.call'), ('uncollided sources', SC + 'sources.py: source_class')],
     'explicit enumeration of run configurations on the real solve(), each compared with an exact discrete-ordinates solution (matrix exponential per Fourier mode) or ray solution',
     'Every configuration of the product runs from beginning to end; the reference shares no code with the program.', observe=['return values of solve()'])
prop('C24', 'Stored error studies are kept apart and read back by the plots',
     'The errors of a study stored under its problem, final time, source treatment, mesh, kind of study (cell counts or orders), basis order and, for the coupled problems, number of ordinates are the ones the plots read back for that key - errors of flux and material energy, cells, orders, ordinates and times - whatever other studies were stored before or after, and storing a study again replaces the earlier one only.',
     ['histories'], 'every ordered pair of keys, each with a repetition; three lengths of study',
     'Collisions of keys and leftovers of earlier studies appear only for particular pairs of studies; no test writes a study.',
     ['moving_mesh_transport/loading_and_saving/save_output.py', 'moving_mesh_transport/plots/make_plots.py'],
     [('saver', 'moving_mesh_transport/loading_and_saving/save_output.py: save_RMS, save_RMS_P1_su_olson'), ('reader', 'moving_mesh_transport/plots/make_plots.py: rms_plotter.load_RMS_data')],
     'explicit-state exploration of all save/save/save histories over all pairs of keys on the real store, with a dictionary as the model',
     'Every pair of keys of the menu is explored; after each save every key saved so far is read back through the reader of the plots.', observe=['rms_plotter after load_RMS_data'])
