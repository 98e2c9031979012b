"""Catalogue of the properties: source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
D = 'src/dga/'
P = []


def path(f):
    return f if f.startswith('src/') else D + f


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=[path(f) for f in files],
                  mech=[(n, path(w)) for n, w in mech], technique=technique, note=note, state=list(state), observe=list(observe)))


prop('C01', 'Work is split so that every task belongs to exactly one process',
     'For every number of processes and tasks, each task (irreducible momentum or continuation) is assigned to exactly one process, in process order, '
     'and the shares differ by at most one task. All processes agree on the split, and a list indexed by tasks is cut into exactly these shares.',
     ['configurations', 'inputs'], 'all numbers of processes and tasks in a box (including fewer tasks than processes)',
     'The tests use one split on one process; an off-by-one only shows for special combinations of processes and tasks.',
     ['mpi_aux.py'], [('distribution of tasks', 'mpi_aux.py (MpiDistributor)')],
     'exhaustive enumeration of (processes, tasks) on the real class',
     'every pair (processes, tasks) of the box, every rank instantiated; nothing beyond the box')
prop('C02', 'Collective data exchange reproduces the data for every schedule and layout',
     'Gathering, scattering, broadcasting and reducing the distributed arrays returns on every participating process exactly the array a single process would hold, '
     'for every number of processes and tasks, element type, array shape and memory layout, and root. '
     'It terminates under every interleaving of the processes, whether or not the collective operations synchronise them.',
     ['schedules', 'configurations', 'inputs'], 'all interleavings up to a preemption bound x processes x tasks x inner shapes x element types x memory layouts x roots, bounded',
     'Unit tests run on a single process, where the communication is the identity, with C-ordered data.',
     ['mpi_aux.py'], [('gather / allgather / scatter / bcast / allreduce', 'mpi_aux.py (MpiDistributor)')],
     'stateless exploration of the real code under a simulated MPI with a controlled scheduler; the simulator is validated against real mpirun runs of the same programs',
     'all schedules up to the preemption bound for up to 4 processes; simulated collectives are bound to OpenMPI by replaying the same programs under mpirun')
prop('C08', 'Irreducible Brillouin zone: unfolding, weights and class averages are exact',
     'For every mesh and every set of lattice symmetries, each momentum is represented by exactly one irreducible momentum related to it by the symmetries, and the weight of an irreducible momentum is the number of momenta it represents. '
     'Unfolding data given on the irreducible momenta puts each value on all momenta of its class, and averaging a full-zone quantity over the classes is exact, for scalar and frequency-dependent data given as list or mesh.',
     ['configurations', 'inputs'], 'all meshes up to a size x all sets of lattice symmetries (in any order) x data of every trailing shape',
     'The tests look at two meshes with one set of symmetries; errors only show for odd, anisotropic or three-dimensional meshes and other combinations.',
     ['brillouin_zone.py'], [('irreducible zone', 'brillouin_zone.py (KGrid, apply_symmetries)'), ('unfolding', 'brillouin_zone.py (map_irrk2fbz, map_fbz2irrk, symmetrize_irrk)')],
     'exhaustive enumeration of meshes and symmetry sets; orbits are recomputed by breadth-first search over the group actions',
     'all meshes and symmetry sets of the box; unfolding checked with index-tagged data, which determines the permutation')
prop('C09', 'Momentum shifts, list/mesh conversion and slices are exact relabelings',
     'Shifting a momentum-dependent array by any grid momentum, by pi, converting between list and mesh form and slicing at fixed momentum only relabel entries, consistently with the momenta the grid reports, for every mesh and trailing shape. '
     'Looking up a grid momentum returns its index, and no operation modifies its input.',
     ['configurations', 'inputs'], 'all meshes up to a size, all grid momenta, trailing shapes, slice directions and values',
     'Tests use square even meshes with few momenta; odd and anisotropic meshes reveal swapped axes or wrong wrap-around.',
     ['brillouin_zone.py'], [('momentum grid', 'brillouin_zone.py (KGrid)'), ('shifts', 'brillouin_zone.py (shift_mat_by_ind, shift_mat_by_pi)')],
     'exhaustive enumeration of meshes, momenta and axes with index-tagged arrays',
     'a relabeling is decided completely by index-tagged data; all meshes of the box')
prop('C10', 'High-symmetry path through the Brillouin zone visits the right momenta',
     'A path given by named points or coordinates visits the listed corners in order, and every point in between is a mesh momentum closest to the straight connection, starting each segment exactly at its corner. '
     'This holds for every mesh, including anisotropic and three-dimensional ones, and values mapped onto the path are exactly the values of the array at the visited momenta.',
     ['configurations', 'inputs'], 'all pairs / triples of named points and coordinate corners x meshes',
     'The tests take one path on one square mesh.',
     ['brillouin_zone.py'], [('k-path', 'brillouin_zone.py (KPath)')],
     'exhaustive enumeration of paths and meshes against an independent construction',
     'all corner sequences up to the stated length on all meshes of the box')
prop('C11', 'Matsubara grids, cuts, shells and shifted windows name the right frequencies',
     'Fermionic and bosonic frequency grids contain exactly the requested frequencies at the given temperature, and cutting, shell extraction, core/shell concatenation and shell padding keep or add exactly the entries of the named frequencies along the chosen axes. '
     'Cutting after padding returns the original, and frequency windows shifted by a bosonic frequency contain the entries at the shifted frequencies.',
     ['inputs', 'configurations'], 'all box sizes, cuts, shifts and axes up to a bound',
     'Tests sample single sizes; index arithmetic with shifts, zero-size cores and negative axes must hold for all.',
     ['matsubara_frequencies.py'], [('grids, cuts and windows', 'matsubara_frequencies.py')],
     'exhaustive enumeration with index-tagged arrays', 'all sizes of the box; relabelings are decided by index-tagged data')
prop('C12', 'Half-range data are completed to all frequencies by conjugation symmetry',
     'Completing data given at non-negative frequencies yields, at every negative frequency combination, the complex conjugate of the entry at the opposite frequencies, leaves the given entries untouched and works along any frequency axes. '
     'Sums over such objects and bosonic additions align frequencies correctly whatever the two ranges are.',
     ['inputs', 'configurations'], 'all box sizes, ranks of the array and axes up to a bound',
     'Tests sample one size with symmetric test data.',
     ['matsubara_frequencies.py'], [('completion', 'matsubara_frequencies.py (fermionic_full_nu_range, wplus2wfull, vplus2vfull, add_bosonic)')],
     'exhaustive enumeration with index-tagged arrays', 'all sizes and axes of the box')
prop('C13', 'Changes of frequency convention move every entry to the right place',
     'Converting two-particle quantities from the particle-hole to the (crossed) particle-particle convention, and expanding bosonic data to pairs of fermionic frequencies, reads for every target frequency triple exactly the entry the convention prescribes, for every box size and leading shape. '
     'Padding with a shell keeps every entry at its frequencies.',
     ['inputs', 'configurations'], 'all box sizes up to a bound and all frequency triples in them',
     'Tests check one size; off-by-one errors only hit the borders of the box.',
     ['matsubara_frequencies.py'], [('convention changes', 'matsubara_frequencies.py (ph2pp_wc, w_to_vmvp and related)')],
     'exhaustive enumeration of all frequency triples with index-tagged arrays', 'all box sizes of the bound')
prop('C14', 'The bubble averages two Green functions at the named momenta and frequencies',
     'The local and momentum-dependent bubble equals minus the inverse temperature times the average of the product of two Green functions at the frequencies prescribed by the chosen notation and momenta differing by q, for every mesh, momentum selection, frequency box and notation. '
     'Negative bosonic frequencies rebuilt by symmetry agree with directly computed ones, and requests beyond the available frequencies are rejected.',
     ['inputs', 'configurations'], 'meshes x all momenta x frequency boxes x notations x full / selected bosonic ranges',
     'Tests compare one configuration with stored values.',
     ['bubble.py'], [('bubble', 'bubble.py (BubbleGenerator, vec_get_gchi0, vec_get_gchi0_q)')],
     'exhaustive enumeration against brute-force sums',
     'all configurations of the box with generic data (polynomial identities: generic data decide)')
prop('C15', 'The tail correction of the bubble completes the frequency sum',
     'The asymptotic correction equals the infinite Matsubara sum minus the finite sum of the high-frequency expansion whose coefficients follow from chemical potential, self-energy moments and band, for every frequency notation, selection of bosonic frequencies, momentum and box. '
     'For free electrons finite sum plus correction converges to the exact response function.',
     ['inputs', 'configurations'], 'meshes x all momenta x notations x full and selected bosonic ranges x box sizes; bands with zero mean',
     'Tests only check decreasing errors at one point in parameter space.',
     ['bubble.py'], [('asymptotic correction', 'bubble.py (get_asymptotic_correction, get_asymptotic_correction_q, get_chi0q_shell)')],
     'exhaustive enumeration against explicit expansion sums and the exact Lindhard response',
     'all configurations of the box; convergence to the exact response is checked at two box sizes')
prop('C16', 'Local vertex equations agree with dense matrix algebra on the full box',
     'Generalized susceptibility, irreducible vertex, full vertex, three-leg vertex and physical susceptibility of the impurity are related by the local Bethe-Salpeter equation with a bare-interaction shell outside the core: the results equal matrix algebra on the enlarged frequency box, conversions there and back return the original, and inputs stay unmodified. '
     'The local Schwinger-Dyson equation sums exactly the stated frequency window, for both channels, with and without shell, for full and selected bosonic ranges, and agrees with the one written with the full vertex.',
     ['inputs', 'configurations'], 'channels x bosonic ranges (full and selections) x core and shell sizes x generic complex vertices',
     'Tests use stored impurity data of one parameter set and do not separate conjugate or transposed frequency axes.',
     ['local_four_point.py'], [('vertex algebra', 'local_four_point.py'), ('local Schwinger-Dyson equation', 'local_four_point.py (schwinger_dyson_full)')],
     'exhaustive enumeration of channels, boxes and selections against dense matrix algebra',
     'all sizes of the box with generic data; agreement to 1e-7 or better')
prop('C17', 'The ladder is solved per momentum and frequency and reduces to the local one',
     'For every momentum and bosonic frequency the ladder susceptibility, three-leg vertex, vertex components and double-counting kernel equal the solution of the Bethe-Salpeter equation on the full frequency box with that momentum\'s bubble, independent of which other momenta a process holds. '
     'With a momentum-independent bubble every momentum gives exactly the local result.',
     ['inputs', 'configurations'], 'meshes x selections of momenta x channels x bosonic ranges x core and shell sizes',
     'Tests check the local limit for one data set.',
     ['four_point.py', 'high_level_routines.py'], [('ladder', 'four_point.py'), ('assembly', 'high_level_routines.py')],
     'exhaustive enumeration against dense matrix inversion', 'all configurations of the box with generic data')
prop('C18', 'The lattice Schwinger-Dyson equation sums every momentum and frequency once',
     'The lattice self-energy equals the explicit sum over all transferred momenta and bosonic frequencies of kernel times shifted Green function, in the core and in the shell, for every mesh and box. '
     'The contributions of any split of the momenta add up to the full result, and with momentum-independent input it reduces to the local Schwinger-Dyson equation at every momentum.',
     ['inputs', 'configurations'], 'meshes x splits of the momentum list x bosonic ranges x core and shell sizes',
     'Tests use symmetric data on one mesh, which hides sign errors of momenta and frequencies.',
     ['four_point.py'], [('Schwinger-Dyson equation', 'four_point.py (schwinger_dyson_full_q and parts)')],
     'exhaustive enumeration against brute-force sums', 'all configurations of the box with generic non-symmetric data')
prop('C19', 'The lambda correction enforces the sum rules on the physical branch',
     'The corrected static susceptibilities are positive, the shift lies above the largest pole, and the momentum and frequency sum of each corrected channel (or of both channels together for the spin-only scheme) equals the local one to the requested accuracy. '
     'The shift is applied to the inverse susceptibility, the scheme without correction changes nothing, and unknown schemes are rejected.',
     ['inputs', 'configurations'], 'all susceptibilities with values from a grid including diverged static ones, targets, temperatures, meshes, schemes',
     'Tests check one or two smooth susceptibilities; the search can end on the wrong branch for others.',
     ['lambda_correction.py'], [('search and application of the shift', 'lambda_correction.py')],
     'exhaustive enumeration over grids of susceptibilities and targets; the sum rule is evaluated independently',
     'all value assignments of the grid; root accuracy 5e-7')
prop('C20', 'Self-energies and Green functions join core and analytic tail without gaps',
     'For every available and requested frequency range, the self-energy returns the given values inside the core, its analytic tail beyond, and the conjugate at negative frequencies; moments are those given or the fitted ones, and the estimated core contains every frequency deviating from the tail within the available data. '
     'The Green function fulfils the Dyson equation on all frequencies, and its local part, frequency labels, filling and kinetic and potential energy follow from it.',
     ['inputs', 'configurations'], 'meshes x available frequencies x core sizes (given / estimated) x requested ranges x local / momentum-dependent self-energies',
     'Tests use long DMFT data where core and tail agree, so that misplaced tails are invisible.',
     ['two_point.py'], [('self-energy', 'two_point.py (SelfEnergy, create_dga_siwk_with_dmft_as_asympt)'), ('Green function', 'two_point.py (GreensFunction)')],
     'exhaustive enumeration against an independent construction', 'all sizes of the box with generic data')
prop('C21', 'Chemical potential and filling agree on the imaginary and the real axis',
     'Requesting a filling yields a chemical potential at which the Green function has this filling, and requesting a chemical potential reports the filling of the Green function there, for metallic, insulating and free cases at every temperature, mesh and starting value. '
     'Free electrons reproduce the Fermi function and particle-hole symmetry; the same holds for real-frequency Green functions whenever the filling is reachable within the frequency window.',
     ['inputs', 'configurations'], 'bands x meshes x temperatures x self-energies x fillings x starting values',
     'Tests use one filling at one temperature, for which the root search converges.',
     ['two_point.py'], [('filling', 'two_point.py (get_fill, update_mu, GreensFunction, RealFrequencyGF, adjust_mu_real_f)')],
     'exhaustive enumeration over grids of bands, temperatures and fillings; filling evaluated independently',
     'all grid points; accuracy 1e-4 (imaginary axis), 5e-3 (real axis)')
prop('C22', 'Tight-binding bands and velocities are the exact Fourier sums',
     'The momentum-space Hamiltonian and its velocity vertex equal the sum over lattice vectors of weighted hoppings times phase (and displacement), at every mesh point, for all built-in lattice models at all parameters and for generic multi-band Hamiltonians. '
     'Built-in models have the documented dispersion, and Hermitian hoppings give Hermitian bands.',
     ['inputs', 'configurations'], 'all model constructors on parameter grids, generic Hamiltonians, meshes with one to several points per direction, current directions',
     'Tests compare one model with another on one mesh.',
     ['wannier.py'], [('Fourier sums', 'wannier.py (WannierHr, WannierHk, model constructors)')],
     'exhaustive enumeration against explicit loops over lattice vectors', 'all configurations of the box with generic data (sums are linear in the hoppings)')
prop('C23', 'Hamiltonian files round-trip and foreign files are read entry by entry',
     'A real-space Hamiltonian written to a file and read again has the same lattice vectors, weights, orbitals and hoppings to file precision, for any number of lattice vectors, bands and weights. '
     'Momentum-space Hamiltonians round-trip together with their momenta; files of other programs (real space, or momentum space with or without spin) are read entry by entry, and incomplete ones are rejected.',
     ['inputs', 'configurations'], 'numbers of lattice vectors (crossing the line breaks of the weight table), bands, weights, k-points and spin settings',
     'Tests read one file; partial lines of the weight table and multiple bands are not covered.',
     ['wannier.py'], [('files', 'wannier.py (save_hr, create_wannier_hr_from_file, write_hr, read_hk, write_hk)')],
     'exhaustive enumeration of file shapes with an independent reader and writer', 'all shapes of the box')
prop('C05', 'The ladder vertex is reassembled identically for any number of processes',
     'The momentum- and frequency-dependent vertex components that processes write to their own files (full vertex, pairing slices and conductivity slices, in any combination) are collected so that every momentum and bosonic frequency, negative ones included, appears at its place for every number of processes and write order. '
     'The stored full vertex equals the stated combination of the components with the susceptibility on the full Brillouin zone, and the rank files can be removed afterwards.',
     ['schedules', 'configurations', 'inputs'], 'symmetries x meshes x all numbers of processes up to the irreducible momenta x write orders x box sizes x frequency ranges',
     'Tests never write or collect rank files.',
     ['four_point.py', 'pairing_vertex.py', 'optics.py', 'mpi_aux.py'],
     [('vertex files', 'four_point.py (write_vertex_components, load_vertex_from_rank_files, build_vertex_fq)'), ('task distribution', 'mpi_aux.py')],
     'exhaustive enumeration of process counts, write orders and boxes on the real files with index-distinct data', 'all configurations of the box')
prop('C24', 'The Eliashberg solver returns eigenpairs of the linearized gap equation',
     'For self-adjoint pairing vertices with separated eigenvalues, each reported eigenvalue and gap function solves the gap equation (pairing vertex at k-k\', squared Green function, given normalization); with shift the first one is the largest eigenvalue even if repulsive ones dominate in magnitude, without shift the order is by magnitude. '
     'Start gaps have the named momentum and frequency symmetry, vertices are (anti)symmetrized in the second frequency for singlet (triplet), and unknown channels are rejected.',
     ['inputs', 'configurations'], 'meshes x frequency boxes x attractive / repulsive / generic vertices x shift x numbers of eigenpairs x start vectors',
     'Tests compare eigenvalues only, on meshes where k-k\' and k\'-k coincide or with inversion-symmetric vertices.',
     ['eliashberg_equation.py'], [('power iteration', 'eliashberg_equation.py')],
     'exhaustive enumeration against dense diagonalization', 'all configurations of the box; eigenvalues separated by 4 %; accuracy 1e-6 (eigenvalue), 2e-4 (gap)')
prop('C25', 'The pairing vertex takes the ladder vertex at transferred momentum and frequency',
     'The stored singlet and triplet pairing vertices at fermionic frequencies v and v\' equal the stated combinations (3/2 magnetic minus 1/2 density, 1/2 magnetic plus 1/2 density) of the crossing-flipped ladder vertex and susceptibility at bosonic frequency v-v\', Hermitian in the frequencies, at every momentum of the full zone and for every number of processes. '
     'Every pair of frequencies is taken from exactly one bosonic frequency.',
     ['inputs', 'configurations'], 'symmetries x meshes x frequency boxes x numbers of processes, all frequency pairs',
     'Tests check the slice of one array of one size.',
     ['pairing_vertex.py'], [('pairing vertex', 'pairing_vertex.py')],
     'exhaustive enumeration with index-tagged and generic data against entry-by-entry assembly', 'all sizes of the box')
prop('C30', 'The optical conductivity sums velocities, Green functions and vertex as stated',
     'The current-current bubble and its vertex contribution equal the stated sums over momenta, transferred momenta and frequencies for every band (also without inversion symmetry), mesh, current direction, frequency range and selection of transferred momenta, and the vertex entering equals -1/2 density -3/2 magnetic at the shifted frequencies. '
     'On the real axis the bubble equals the stated integral over the spectral function, and the conductivity its imaginary part divided by frequency, continued to zero.',
     ['inputs', 'configurations'], 'bands x meshes x current directions x frequency ranges x momentum selections',
     'Tests compare one free-electron-like case with a tolerance of 5 %.',
     ['optics.py'], [('current-current response', 'optics.py')],
     'exhaustive enumeration against brute-force sums with generic data', 'all configurations of the box')
prop('C31', 'Impurity input reaches the calculation unchanged and cut to the requested box',
     'One- and two-particle impurity input of every supported format is returned as stored (spin average, chosen iteration, interaction, temperature, chemical potential and filling), unknown formats are rejected. '
     'Two-particle data is cut symmetrically to the requested frequency box (all available frequencies if -1), symmetrized in the fermionic frequencies exactly if requested, and a box larger than the data is rejected.',
     ['inputs', 'configurations'], 'formats x frequencies x bands x requested boxes from zero to beyond the data x flags',
     'Tests read one file with one box.',
     ['dga_io.py', 'config.py', 'w2dyn_aux_dga.py', 'local_four_point.py'],
     [('input', 'dga_io.py (load_1p_data, load_g2, build_g2_obj, create_dmft_ddict)'), ('boxes', 'config.py (BoxSizes)')],
     'exhaustive enumeration of files, formats and boxes with independent writers', 'all configurations of the box')

prop('C27', 'Settings follow the configuration file and the documented defaults',
     'Every setting given in the configuration file (box sizes, lattice and symmetries, lambda correction, input, output, pairing, optics, polynomial fit, debug, analytic continuation) is taken over by every process, and every omitted one gets its documented default or inferred value (frequency ranges of box, Green function and optics, q-mesh equal to k-mesh, parity of the start gaps). '
     'Unknown symmetries and lattice types, a missing lattice, boxes larger than the vertex, and more processes than irreducible points are refused. '
     'The stored copy of the configuration reproduces the same settings, and the output folders carry the parameters of the run in their name.',
     ['configurations', 'inputs'], 'every combination of given and omitted settings on small value grids, all optional sections, process numbers, schedules of the distribution of the file',
     'Tests load two or three complete files.',
     ['config.py', 'util.py'],
     [('inference', 'config.py (BoxSizes, LatticeConfig, EliashbergConfig, OpticsConfig, MaxEntConfig, DgaConfig)'), ('distribution', 'config.py (parse_config_file, save_config_file)')],
     'exhaustive enumeration of configurations against independently written inference rules; schedule exploration of the distribution', 'all combinations of the value grids')

prop('C06', 'Concurrent and repeated runs never share or overwrite an output directory',
     'Every run gets output directories that did not exist before and that no other run uses, however many runs are started at the same time with the same parameters, and whatever files and directories already exist. '
     'All processes of a run use the same directories, which exist when any of them continues. '
     'Nothing that existed before is changed, and no directory is created that is not handed out.',
     ['schedules', 'histories'], 'every interleaving (preemption bounded) of file-system operations and messages of up to three concurrent runs with up to three processes, over pre-existing trees; sequences of runs',
     'Tests start one run in an empty directory.',
     ['util.py', 'config.py', 'dga_io.py'],
     [('unique directories', 'util.py (uniquify, create_unique_dir_mpi)'), ('folders of a run', 'config.py (create_folders, OutputConfig)')],
     'stateless model checking of the real code: simulated communicator and file-system operations as scheduling points under a controlled scheduler', 'preemption bound per layout')

prop('C07', 'Per-process vertex files keep what was written, are closed, and can be deleted',
     'The file of a process exists from the creation of its task distributor until it is deleted, also if the process has no tasks; everything written inside a with-block is in the file afterwards, together with everything written earlier, even if the block ends with an error, which reaches the caller. '
     'After the block the file is closed. Creating a distributor again keeps the contents, deleting removes exactly the own file (and may be repeated), and writing after deletion fails instead of losing data.',
     ['histories', 'fault_sequences'], 'all sequences of create, write, failing write, read, delete and drop by two processes and two names to a depth bound; all numbers of processes and tasks in a box',
     'Tests write one file once.',
     ['mpi_aux.py'],
     [('rank files', 'mpi_aux.py (MpiDistributor: __init__, __enter__, __exit__, open_file, close_file, delete_file)')],
     'explicit-state exploration of operation sequences of the real class against a reference model, every model transition replayed on the implementation', 'depth 4 (5) over three files, 6 (7) over one; every transition of the reachable model states with bounded contents')

prop('C28', 'A failing continuation never affects the other momenta of a batch',
     'In a batch of analytic continuations every row gets exactly the result of continuing it alone, and every row whose solver fails becomes zero, whichever rows fail, however the rows are distributed over processes (also more processes than rows), and whatever was continued before with the same controller; shape and type do not depend on failures. '
     'The solver receives the non-negative Matsubara frequencies and data (at most the requested number), the configured mesh, error and solver settings, and a flat default model of the right weight; for bosonic kernels blurring is off unless forced and the mesh starts at zero or above.',
     ['fault_sequences', 'configurations', 'histories', 'schedules'], 'every subset of failing rows, kinds and places of failure, process numbers, sequences of batches, pairs of changed settings',
     'Tests continue one function without failure.',
     ['analytic_continuation.py', 'mpi_aux.py'],
     [('batch driver', 'analytic_continuation.py (MaxEnt.analytic_continuation, mpi_ana_cont)'), ('settings', 'analytic_continuation.py (MaxEnt)')],
     'exhaustive enumeration of fault subsets injected at the solver, with schedule exploration of the distributed batch', 'up to 5 (7) rows, up to rows+2 processes; stand-in solver for the enumeration, real solver for a subset')

prop('C29', 'Real-frequency meshes, kernels and Kramers-Kronig follow their definitions',
     'Every mesh kind has the requested number of increasing points with exactly the requested end points, symmetric about its centre and densest there for the tangent kinds; unknown kinds and missing parameters are refused. '
     'The transformation of a real-frequency function to the Matsubara axis is the trapezoidal integral of its spectrum with the fermionic or bosonic kernel, and the Kramers-Kronig construction is the principal-value sum over the mesh cells with imaginary part -pi times the spectrum, for each documented symmetry. '
     'Inputs are not modified.',
     ['inputs', 'configurations'], 'every combination of mesh kinds, windows, sizes and cuts; every basis vector of the input functions (the maps are linear) on meshes with and without zero, uneven and with one point',
     'Tests compare one mesh and one peak.',
     ['analytic_continuation.py', 'config.py', 'src/ana_cont/continuation.py'],
     [('meshes', 'analytic_continuation.py (get_w_mesh)'), ('kernels', 'analytic_continuation.py (get_backtransform_kernel, transform_from_real_to_imag)'), ('Kramers-Kronig', 'analytic_continuation.py (kkt)'), ('Kramers-Kronig of the continuation', 'src/ana_cont/continuation.py (GreensFunction.kkt)')],
     'exhaustive enumeration of mesh configurations and basis vectors against entry-by-entry sums', 'meshes up to 1001 points, kernels on up to 6x10 points')

prop('C33', 'Low-frequency extrapolations are exact on the functions they assume',
     'The polynomial extrapolation of a Matsubara function returns value and slope at zero exactly for every polynomial up to the fit order, is the least-squares solution otherwise, and ignores all frequencies beyond the fitted ones; scattering rate, band shift and quasiparticle weight follow from it, with the weight in (0, 1]. '
     'Momentum-resolved fit files hold the result of every momentum at its own position, and are written by the root process only. '
     'The Ornstein-Zernike fit recovers amplitude and correlation length of Ornstein-Zernike data and reports failures as -1.',
     ['inputs', 'configurations'], 'every monomial for every order and number of fitted points; every momentum of every mesh and lattice symmetry in a box; a grid of correlation lengths',
     'Tests look at one fit.',
     ['analytic_continuation.py', 'dga_io.py', 'ornstein_zernicke_function.py'],
     [('extrapolation', 'analytic_continuation.py (poly_extrap_0, poly_der_extrap_0, get_gamma_bandshift_z)'), ('fit files', 'dga_io.py (poly_fit, dmft_poly_fit, fit_and_plot_oz)')],
     'exhaustive enumeration of monomials, momenta and configurations against exact values', 'orders up to 5, meshes up to 4x4x2')

prop('C34', 'Padé approximants are exact on rational functions and interpolate the input',
     'A Padé continuation with two coefficients per pole reproduces a sum of simple poles everywhere in the complex plane, by the continued fraction as well as by the linear system, whichever Matsubara frequencies were sampled; for arbitrary data the continued fraction passes through every input point independently of their order. '
     'Points below the axis are the complex-conjugate mirror images of those above; several functions are continued independently. '
     'Invalid requests are refused, and the averaged continuation contains physical continuations only.',
     ['inputs', 'configurations'], 'every subset of a set of poles, all assignments of residues, temperatures and starting frequencies; every selection of points in a box; all permutations of few nodes',
     'No test covers these routines.',
     ['pade_aux.py'],
     [('continued fraction', 'pade_aux.py (PadeSolver, compute_coefficients, padeThiele)'), ('linear system', 'pade_aux.py (padeMatrix, epade, acPade)'), ('selection', 'pade_aux.py (pick_points, pade)')],
     'exhaustive enumeration of pole and residue configurations against the exact rational function', 'up to 3 poles out of 6; nonlinear fit not claimed')

prop('C03', 'A complete run gives the same results on any number of processes and schedule',
     'Every quantity a complete run stores is the same as in the run on a single process, for every admissible number of processes, every interleaving, and whether or not collective operations synchronise the processes. '
     'The set of files left behind is exactly what the config asks for, with temporary per-process files removed unless they are kept on request.',
     ['schedules', 'configurations'], 'number of processes x schedules up to a bounded number of deviations x collective semantics x feature sets of the config file',
     'Tests run single functions on one process; races on files, missing barriers and wrong reassembly only appear when the whole program runs on several processes.',
     ['dga_main.py', 'mpi_aux.py', 'config.py', 'dga_io.py'],
     [('main program', 'dga_main.py (main)'), ('distribution and rank files', 'mpi_aux.py (MpiDistributor)'), ('communication of configuration', 'config.py (DgaConfig)'),
      ('loading the rank files', 'dga_io.py')],
     'stateless exploration of the complete main program under a simulated MPI with a controlled scheduler (deviation-bounded); validated by runs under real mpiexec',
     'all process counts up to the irreducible momenta of the mesh for a fixed list of feature sets; schedules up to the stated number of deviations')
prop('C04', 'A complete run computes the ladder-DGA result of its input and configuration',
     'Every quantity a complete run stores (impurity vertex and susceptibility, lattice susceptibilities and corrections, three-leg vertex, self-energy, chemical potential, Green function, energies, pairing vertex and gap, current response) equals the ladder-DGA equations applied to its input files and config. '
     'This holds for every lattice, symmetry setting, pair of meshes, box sizes, kind of lambda correction and combination of optional parts, so that reductions by symmetry or meshes never change a value.',
     ['configurations', 'inputs'], 'all combinations of bands x symmetries x meshes x boxes x lambda corrections, model parameters and optional parts of a box',
     'The tests check single steps against stored numbers of one model; wiring errors between stages (a wrong mesh, box or tail) only show in complete runs of other configurations.',
     ['dga_main.py', 'config.py', 'two_point.py', 'four_point.py', 'lambda_correction.py'],
     [('main program', 'dga_main.py (main)'), ('stages', 'config.py (DgaConfig)'), ('ladder objects', 'four_point.py'), ('self-energy and Green function', 'two_point.py'),
      ('lambda correction', 'lambda_correction.py')],
     'exhaustive enumeration of configurations; every complete run is replayed step by step against an independent full-zone model of the equations',
     'all configurations of the box; meshes up to 8x8 and few frequencies; the gap equation to the accuracy of its solver')

prop('C36', 'A run killed at any point damages nothing and does not disturb the next run',
     'When a run is killed before any of its file operations, possibly leaving the last file incomplete, its input files and everything earlier runs left behind are unchanged. '
     'The next run on the same input uses a new directory of its own, gives exactly the results of an undisturbed run, and changes none of the remains.',
     ['crash_points', 'configurations'], 'every file-changing operation of complete runs x torn or complete last file x first or repeated run x number of processes',
     'Tests never interrupt a run; leftover rank files, half-written arrays and taken directory names only appear after a crash.',
     ['dga_main.py', 'config.py', 'util.py', 'mpi_aux.py'],
     [('main program', 'dga_main.py (main)'), ('output directories', 'util.py (create_unique_dir)'), ('saving results', 'config.py (OutputConfig)'), ('rank files', 'mpi_aux.py (MpiDistributor)')],
     'exhaustive fault injection: the complete program is killed before every file-changing operation and started again',
     'kills between two file-changing operations leave the same files and are represented by the next one; all processes die together; one schedule per number of processes')
prop('C37', 'The continuation stage continues exactly the stored results with its settings',
     'For every number of processes, schedule, pair of meshes and choice of quantities the continuation stage hands exactly the stored imaginary-frequency results (every irreducible momentum once, Hartree term removed and added back for self-energies) with the settings of the config (those of a quantity overriding the common ones) to the solver. '
     'It stores what the solver returns for each momentum on the full Brillouin zone.',
     ['configurations', 'schedules'], 'quantities x settings x meshes x symmetries x number of processes x schedules up to a bounded number of deviations',
     'Tests call single continuations; the batch stage (which file, mesh, index, kernel and settings) is only exercised by complete runs.',
     ['dga_max_ent.py', 'analytic_continuation.py', 'dga_main.py', 'optics.py'],
     [('continuation program', 'dga_max_ent.py (main)'), ('batch driver', 'analytic_continuation.py (mpi_ana_cont, max_ent_irrk_new)'), ('settings', 'config.py (MaxEntConfig)'),
      ('optical conductivity', 'dga_main.py (main)')],
     'stateless exploration of complete runs with the solver replaced by a recording stand-in, under a simulated MPI; compared with the stored files',
     'the numerical solver itself is replaced; its kernels and failures are covered by other properties')

prop('C32', 'Results, settings and log are read back exactly as a run wrote them',
     'A stored result is loaded again with the same value, shape and type, whatever was stored, replaced or removed under other names or in other directories. '
     'The config and settings files a run leaves behind contain every setting it used and start an identical run. '
     'The log contains one complete line per event of the root process, in order, with the time since the start and since the previous event.',
     ['histories', 'schedules', 'inputs'], 'all states and operations of a small store x kinds of values x settings; all sequences of log entries and elapsed times x processes x schedules',
     'Tests never read back what they store; defects depend on the kind of value, on earlier files or on the order of events.',
     ['config.py', 'loggers.py', 'src/cli/dga_config_generator.py'],
     [('stored results', 'config.py (OutputConfig)'), ('settings files', 'config.py (ConfigBase.as_dict, save_config_file)'), ('log', 'loggers.py (MpiLogger, RealTime)'),
      ('template', 'dga_config_generator.py (main)')],
     'explicit-state exploration of the store and of log histories, each transition replayed on the real code; exhaustive enumeration of settings',
     'two directories, two names and three values in the state space; log sequences up to the stated length with a controlled clock')

prop('C35', 'The maximum-entropy solver returns the optimum of its functional',
  'For every kernel, default model, error or covariance, entropy weight and preblur, the solver returns the unique spectrum maximizing alpha*S - chi2/2, and the reported entropy, chi-squared, weight and backtransform are those of that spectrum. The entropy weight is selected by the configured rule (chi-squared equal to the number of data, Bayesian criterion, probability average, kink fit over exactly the configured geometric sequence), and weights whose optimization fails are skipped without affecting the others. Kernels equal their definitions including the limits at zero frequency, and unsupported modes are refused.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every combination of the kernels, meshes, numbers of data points, data sets, models, errors or covariance matrices, entropy weights, blur widths and optimizers listed; every subset of up to two (three) failing entropy weights',
  'Tests look at a single spectrum by eye; the optimum is only defined through a condition on all spectra.',
  ['src/ana_cont/solvers.py', 'src/ana_cont/kernels.py', 'src/ana_cont/continuation.py'],
  [('optimum', 'src/ana_cont/solvers.py (maxent_optimization, compute_f_J_diag, NewtonOptimizer)'), ('selection', 'src/ana_cont/solvers.py (solve_historic, solve_classic, solve_bryan, solve_chi2kink)'), ('kernels', 'src/ana_cont/kernels.py (kernel_matrix, convolve_kernel, blur)')],
  'exhaustive enumeration of bounded problems against an independent solution of the dual convex problem, and of all subsets of failing optimizations', 'independent damped-Newton solution of the strictly convex dual problem; kernels element by element; the infinite search of the historic rule for unattainable errors is outside the property')

prop('C38', 'Figures show the calculated data at the momenta and frequencies on their axes',
     'Every figure a run writes shows the stored quantity at the positions its axes name: maps of the Brillouin zone (shifted by pi or not, on square and rectangular meshes with an even number of points and any symmetry), gap functions with the frequency in the title of their panel, continued spectra at the requested real frequency and along momentum paths, vertices over both fermionic frequencies, and susceptibilities, self-energies and conductivities over their frequency index. '
     'Only the root process draws.',
     ['inputs', 'configurations'], 'kinds of figures x mesh shapes x symmetries x numbers of frequencies; all figures of complete runs with one and two processes',
     'Tests do not look at figures; a transposition or a shift by pi is invisible on the symmetric square lattices of the examples.',
     ['plotting.py', 'high_level_plotting.py', 'dga_io.py', 'local_four_point.py'],
     [('figures', 'plotting.py (plot_kx_ky, plot_cont_fs, plot_siwk_extrap, plot_gap_function_kx_ky)'), ('figures of a run', 'dga_io.py (default_siwk_checks, default_giwk_checks, chiq_checks, poly_fit)'),
      ('momentum paths', 'high_level_plotting.py (plot_real_frequency_dispersion, plot_chi_along_kpath)'), ('vertices', 'local_four_point.py (plot_fourpoint_nu_nup)')],
     'exhaustive enumeration of figures: every pixel and point of every figure of the real code is read back at the time it is saved and compared with the data',
     'meshes up to 6x4x2 in the quick tier; data without symmetry inside of the panels; layout, colours and labels other than titles and axes are not judged; maps shifted by pi need an even number of points')

prop('C39', 'Results do not depend on what was computed before',
     'Every routine of the library returns the same result whatever was computed before in the same process with the same objects, leaves the arrays and objects it is given as they were (apart from the methods whose purpose is to change their own object), and does not alter results that were returned earlier. '
     'After a change of an object (cutting or extending a vertex, symmetrizing it, another asymptotic range of a Green\'s function) every later result is that of an object built in the changed state, also for the objects made from it before, and other objects sharing its data are unaffected. A second complete run in one process writes what it writes alone.',
     ['histories', 'schedules'], 'ordered pairs (thorough: triples within a module) of calls on shared objects; one long history per call; sequences of state changes of depth 3 (thorough: 4); pairs of complete runs',
     'Tests call each routine once on fresh data, so that a stale cache, a default shared between objects or an in-place operation on an argument does not show.',
     ['two_point.py', 'bubble.py', 'local_four_point.py', 'four_point.py', 'brillouin_zone.py', 'analytic_continuation.py', 'matsubara_frequencies.py', 'lambda_correction.py', 'optics.py', 'eliashberg_equation.py'],
     [('state changes', 'local_four_point.py (cut_iv, cut_iw, append_shell, symmetrize_v_vp)'), ('asymptotic range', 'two_point.py (GreensFunction.set_g_asympt)'), ('bubbles of shared Green\'s functions', 'bubble.py (BubbleGenerator)'),
      ('settings of a continuation', 'analytic_continuation.py (MaxEnt, MAX_ENT_DEFAULT_SETTINGS)'), ('shared vertices', 'local_four_point.py (construct_lfp_from_lnp, get_g2_from_dmft_input)')],
     'exhaustive exploration of call histories: every ordered pair of 266 calls of the real code on shared objects and every sequence of state changes up to a depth, each result compared with that of a process in which nothing was computed before',
     'one set of objects (a 4x3x2 mesh, 3 fermionic and 2 bosonic frequencies); results compared within 1e-9, arrays handed over bit by bit; random starting vectors of the Eliashberg routine with a fixed seed')

prop('C40', 'Only the values of the data matter, not their number type or memory layout',
     'Every routine of the library gives the same result for the same values, whatever the memory layout of the arrays it is given (order of the axes in memory, strided or reversed views, read-only data, byte order) '
     'and whether whole numbers are stored as integers, floating-point or complex numbers. A complete run gives the same results whatever number types and layouts its temperature, interaction, filling, chemical potential, hoppings and impurity data have.',
     ['inputs', 'configurations'], 'every registered call of the library x six memory layouts of all its arrays and of each one alone x three number types of its arrays and up to seven of its scalars; complete runs with every number type and layout of their input',
     'Tests use freshly allocated floating-point arrays only; files, transposes and whole-numbered parameters lead to others.',
     ['brillouin_zone.py', 'matsubara_frequencies.py', 'two_point.py', 'bubble.py', 'local_four_point.py', 'four_point.py', 'wannier.py', 'eliashberg_equation.py', 'optics.py', 'dga_io.py'],
     [('list and mesh form', 'brillouin_zone.py (map_fbz_mesh2list, map_fbz_list2mesh, symmetrize_irrk)'), ('frequency boxes', 'matsubara_frequencies.py'), ('bands', 'wannier.py (WannierHr)'), ('impurity input', 'dga_io.py')],
     'exhaustive enumeration of memory layouts and number types for every registered call of the real code, compared with the result for contiguous floating-point data',
     'one set of objects (a 4x3x2 mesh, 3 fermionic and 2 bosonic frequencies); results compared within 1e-7 of the largest entry because chemical potentials are found iteratively; single-precision data are not covered')

prop('C41', 'A failing file operation is never swallowed',
     'Whenever an operation on a file fails during a complete run or the continuation stage (opening, reading, writing, creating a directory, deleting, writing or closing a per-process file, a full device), '
     'the run either ends with an error or leaves exactly the results of an undisturbed run, apart from temporary files that could not be deleted. It never finishes as if successful with a missing, incomplete or different result.',
     ['fault_sequences', 'configurations'], 'feature sets of the config and the continuation stage x number of processes x every file operation x kinds of failure (once, from then on, device full)',
     'Tests run on an empty disk; a lost write shows only when the device fails at that very operation.',
     ['dga_main.py', 'dga_max_ent.py', 'dga_io.py', 'mpi_aux.py', 'config.py', 'wannier.py', 'loggers.py', 'four_point.py', 'pairing_vertex.py'],
     [('per-process files', 'mpi_aux.py (open_file, close_file)'), ('results', 'config.py (OutputConfig.save_data)'), ('Hamiltonian', 'wannier.py (write_hr_w2k)'), ('log', 'loggers.py')],
     'exhaustive fault enumeration: the complete main program is rerun with each of its file operations failing in turn, and either its error or its complete results are demanded',
     'quick: five feature sets, every fifth opening of the log; files are refused as a whole or at the first flush; figures are drawn but not written; an error on one process is taken to end the job')

prop('C26', 'Vertex symmetrization averages exactly the equivalent spins and orbitals',
     'The symmetrized impurity vertex contains, for every atom, channel, frequency and band combination, the stated spin combination (density, magnetic) averaged over exactly the orbital combinations declared equivalent, with missing entries counted as zero. '
     'The input file stays unmodified, frequency axes are copied, and reading the result returns every entry at its frequencies. '
     'This holds for the program run with arguments (its output is named after its input and written next to it) and for answers given interactively, including those it asks for again.',
     ['inputs', 'configurations'], 'kinds of quantity x bands x all orbital equivalences x atoms x box sizes x missing entries x ways to start the program x input paths',
     'Tests never run the symmetrization.',
     ['symmetrize.py', 'w2dyn_aux_dga.py'], [('symmetrization', 'symmetrize.py'), ('file access', 'w2dyn_aux_dga.py (W2dynG4iwFile)')],
     'exhaustive enumeration of file contents, equivalences, answers and arguments with an independent writer and oracle', 'all configurations of the box')

prop('C42', 'Equivalent descriptions of one system give the same results',
     'The results of a complete run do not depend on how the same physical system is described: scaling all energies by a common factor scales every result by its power of the energy (no built-in energy or temperature scale, also for temperatures above one), '
     'moving the zero of energy moves only the chemical potential, renaming or reversing lattice axes or shifting the origin of the Brillouin zone only relabels momenta, and exchanging electrons and holes maps every result onto its counterpart.',
     ['configurations', 'inputs'], 'systems (bands with no, partial and full symmetry, meshes in two and three dimensions, lambda corrections, optional parts) x equivalent descriptions and their combinations',
     'Tests use one description of one system; a built-in scale, a preferred axis or an electron-hole asymmetry shows only in comparison with an equivalent run.',
     ['dga_main.py', 'two_point.py', 'brillouin_zone.py', 'bubble.py', 'four_point.py', 'lambda_correction.py', 'eliashberg_equation.py', 'optics.py', 'wannier.py', 'plotting.py'],
     [('main program', 'dga_main.py (main)'), ('chemical potential', 'two_point.py (update_mu)'), ('lambda correction', 'lambda_correction.py'), ('optics', 'optics.py'), ('figures', 'plotting.py (default_gamma_plots)')],
     'exhaustive enumeration of systems and equivalent descriptions; every quantity stored by the transformed complete run is compared with the transformed results',
     'quick: eleven systems, single descriptions and selected combinations; factors between 1/4 and 16; stored energies are left out because the asymptotic range is chosen with a fixed absolute tolerance')

NA = [
    ('C90', 'Analytically continued spectra are physically accurate',
     'Spectra obtained by analytic continuation of noisy data are close to the exact spectra.',
     'accuracy of an ill-posed inversion over continuous noisy inputs has no exact oracle and no finite state space to enumerate; the batch driver around it is claimed instead (C28)',
     ['analytic_continuation.py']),
    ('C91', 'Results converge with momentum grid and frequency box',
     'Self-energies and susceptibilities converge to the infinite-lattice, infinite-box result with increasing momentum grid and frequency box.',
     'a limit statement over unbounded box sizes; enumerating bounded boxes cannot decide it',
     ['dga_main.py']),
]
