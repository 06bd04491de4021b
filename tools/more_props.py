# Appended to gen.py (exec'd there): the records of P05 onwards.
PB = T + 'particles/particle_bunch.py'
PU = T + 'particles/push/'
RZ = T + 'fields/rz_wakefield.py'
WK = T + 'physics_models/plasma_wakefields/'
QS = WK + 'qs_rz_baxevanis/'
CF = WK + 'qs_cold_fluid_1x3p.py'
EM = T + 'physics_models/em_fields/'
LA = T + 'physics_models/laser/'
BE = T + 'beamline_elements/'

prop('P05', 'The pushers solve the relativistic equation of motion',
     'In any electromagnetic field, RK4 and Boris pushes make every '
     'macroparticle of any species and charge sign follow the relativistic '
     'Lorentz-force trajectory (in the co-moving coordinate xi), converging '
     'to it with the order of the scheme as the time step shrinks, using the '
     'field at the time and place of the particle, for constant, varying and '
     'clipped time steps. Without fields, and before its injection position, '
     'a particle moves on a straight line with its own velocity; a magnetic '
     'field alone does not change its energy with the Boris pusher.',
     ['inputs', 'configurations'],
     'all smooth space- and time-dependent fields, particles, species, time '
     'steps and pushers',
     'the tests average over one bunch in one field at one time step, which '
     'hides errors in the time argument, the coupling of the planes or the '
     'charge sign',
     [PU + 'runge_kutta_4.py', PU + 'boris_pusher.py', PB],
     [('RK4', PU + 'runge_kutta_4.py'),
      ('Boris', PU + 'boris_pusher.py'), ('dispatch', PB + ':evolve')],
     'trajectory monitor against an independent high-order integrator, plus '
     'convergence and conservation oracles on the recorded states',
     'Random multi-harmonic time-dependent fields; ill-conditioned '
     'trajectories are set aside by their own sensitivity.')
prop('P06', 'The force on a bunch is the sum of all fields, in any order',
     'A bunch feels at each particle the sum of all fields of the element '
     '(wakefield plus every external field), regardless of the order in which '
     'they are given, of earlier pushes or of other bunches; gathering a '
     'field adds to the field arrays without overwriting what others '
     'contributed, and does not alter the particles or the field.',
     ['inputs', 'configurations', 'histories'],
     'all combinations and orders of analytical and numerical fields and all '
     'particle positions, including outside the grid',
     'tests use one field per element',
     [T + 'fields/base.py', T + 'fields/analytical_field.py', RZ,
      PB, WK + 'focusing_blowout.py', WK + 'custom_blowout.py'],
     [('gathering loop', T + 'fields/gather.py, ' + PB + ':get_field_arrays'),
      ('r-z gathering', T + 'particles/interpolation.py')],
     'gather monitor: field arrays after each gather compared with the sum of '
     'separately gathered fields; order-permuted re-execution',
     'Observed on random pools of the analytic and r-z fields of the package.')
prop('P07', 'Analytic elements apply the documented forces and resolve them',
     'Plasma lenses, field quadrupoles and the blowout/custom-blowout '
     'plasma models act on every particle with the documented analytic field '
     '(linear focusing, accelerating gradient and its slope, ion '
     'channel at the local plasma density), for both charge signs, and the '
     'automatic time step is a fixed small fraction of the betatron period of '
     'the bunch, so that tracking with it reproduces the converged motion.',
     ['inputs', 'configurations'],
     'all strengths, densities, bunch energies, species and positions',
     'tests use one strength and compare rms values',
     [EM + 'linear_b_theta.py', EM + 'quadrupole.py', BE + 'active_plasma_lens.py', BE + 'field_quadrupole.py',
      BE + 'plasma_stage.py', WK + 'simple_blowout.py',
      WK + 'custom_blowout.py', WK + 'focusing_blowout.py'],
     [('documented fields', EM + 'linear_b_theta.py, quadrupole.py, '
       + WK + 'focusing_blowout.py, '
       'custom_blowout.py, simple_blowout.py'),
      ('automatic time step', BE + 'plasma_stage.py, field_element.py')],
     'gathered-force monitor against closed-form fields; online monitor of '
     'the chosen time steps',
     'Random elements and bunches; forces compared pointwise to rounding.')
prop('P08', 'Deposition on the r-z grid conserves and localises charge',
     'Depositing any bunch or plasma column on the r-z grid places exactly the '
     'charge of the particles inside the grid, each within the width of its '
     'shape function, with its centroid preserved along z, independent of '
     'azimuth and additive over particles; particles outside the grid '
     'contribute nothing and nothing is lost near the axis or the grid ends '
     '(including the axis guard cells). An undriven plasma yields its '
     'prescribed profile.',
     ['inputs'],
     'all particle positions (including on axis and on cell and grid edges), '
     'grids, weights and shapes',
     'tests deposit one Gaussian bunch away from the edges',
     [T + 'particles/deposition.py',
      QS + 'deposition.py'],
     [('bunch deposition', T + 'particles/deposition.py:deposit_3d_distribution'),
      ('plasma deposition', QS + 'deposition.py')],
     'conservation and locality monitors around the real deposition calls, '
     'with an independent kernel as oracle',
     'Edge-biased random particles on random grids, both shapes.')
prop('P09', 'Grid fields and envelopes are interpolated faithfully',
     'Fields gathered from the r-z grid are the bilinear interpolation of '
     'the grid values with the correct axis symmetry (radial and azimuthal '
     'fields odd, longitudinal even) and correct decomposition in x and y; '
     'particles outside the grid get exactly zero, and every particle, also '
     'on axis, gets a finite value. Changing an envelope between main grid '
     'and sub-grid is exact for linear data and keeps the nodes.',
     ['inputs'],
     'all particle positions, grids and field arrays',
     'tests never gather at edges, on axis or with arbitrary arrays',
     [T + 'particles/interpolation.py', T + 'fields/interpolation.py', RZ],
     [('bilinear gather', T + 'particles/interpolation.py:'
       'gather_main_fields_cyl_linear'),
      ('sub-grid', T + 'fields/interpolation.py')],
     'gather monitor against an independent interpolation oracle',
     'Random arrays and edge-biased particles.')
prop('P12', 'Nothing behind a position changes the wakefield ahead of it',
     'In the quasi-static and cold-fluid models, the wakefield and the plasma '
     'response at a longitudinal position do not depend on any particle or '
     'laser field behind it: changing, adding or removing trailing bunches or '
     'the tail of the laser leaves everything ahead identical, and a driver is '
     'not affected by the witness that follows it.',
     ['inputs', 'configurations'],
     'all driver, witness and laser configurations',
     'needs comparing pairs of runs that differ only behind a position',
     [QS + 'solver.py', CF, RZ, T + 'particles/deposition.py'],
     [('quasi-static loop', QS + 'solver.py'),
      ('fluid integration', CF)],
     'paired-execution (hyperproperty) monitor on the computed field arrays',
     'Random pairs of runs; equality bit-wise ahead of the change except where '
     'laser propagation couples slices.')
prop('P13', 'Quasi-static wakefields solve the quasi-static equations',
     'For any bunches, laser pulse, plasma density, parabolic channel and '
     'resolution, the wakefields of the 2D quasi-static models are those '
     'generated by plasma particles that obey the quasi-static equations of '
     'motion and fields (axisymmetric): they agree with linear theory for weak '
     'drivers, with Panofsky-Wenzel between longitudinal and transverse '
     'fields, and with an independent solver in nonlinear regimes, with '
     'both plasma pushers and including particles crossing the axis.',
     ['inputs', 'configurations'],
     'all drivers, densities, channels, grids and plasma pushers below '
     'trajectory chaos',
     'tests pin one number of one simulation',
     [QS + 'solver.py', QS + 'psi_and_derivatives.py',
      QS + 'b_theta.py', QS + 'plasma_particles.py', QS + 'deposition.py'],
     [('solver', QS + 'solver.py'), ('fields', QS + 'psi_and_derivatives.py, '
       'b_theta.py'), ('push', QS + 'plasma_push/')],
     'monitor of the computed grid fields against an independent quasi-static '
     'solver and closed-form linear theory',
     'Independent reference agrees to ~1e-9 where plasma trajectories are not '
     'chaotic; rows behind trajectory ties are set aside and counted.')
prop('P14', 'The wakefield depends only on the physical drivers',
     'Shifting all drivers together along xi shifts the wakefield, exchanging '
     'the order of bunches, splitting a bunch or macroparticles in parts, '
     'rotating bunches around the axis, adding an empty bunch or computing the '
     'fields for another time at the same density does not change it, and '
     'expressing the problem in other (skin-depth scaled) units scales it '
     'accordingly; without driver there is no wakefield.',
     ['inputs', 'configurations'],
     'all drivers, densities, grids and both r-z models',
     'metamorphic relations need pairs of runs',
     [RZ, QS + 'wakefield.py', QS + 'solver.py', CF],
     [('driver collection', RZ + ':RZWakefield, '
       + QS + 'wakefield.py, ' + CF)],
     'metamorphic paired-execution monitor on the computed field arrays',
     'Random pairs of runs of both r-z models.')
prop('P15', 'Cold-fluid wakefields solve the 1D nonlinear fluid equations',
     'For any beam and laser driver, the 1D cold fluid model returns the '
     'solution of the quasi-static cold fluid equation on each radial line: '
     'longitudinal field, density, transverse wakefield, magnetic field and '
     'laser susceptibility agree with it, '
     'converging with the grid, up to wave breaking; beam drivers count only '
     'if beam wakefields are enabled.',
     ['inputs', 'configurations'],
     'all drivers, densities and grids below wave breaking',
     'tests pin one number of one simulation',
     [CF],
     [('fluid solver', CF),
      ('fields', CF)],
     'monitor of computed grid fields against an independent ODE solution',
     'Random drivers, from linear to near wave breaking.')
prop('P16', 'The laser solver advances the pulse by the envelope equation',
     'Each step of the laser envelope solver solves the discretised envelope '
     'equation on every grid point, axis, last radial row and ends included, '
     'with the given susceptibility and with or '
     'without phase compensation, so that in vacuum a pulse keeps its energy '
     'and diffracts like the paraxial mode and in plasma it moves with its '
     'group velocity; the number of sub-steps adds up to the elapsed time even '
     'if the time step changes.',
     ['inputs', 'configurations', 'histories'],
     'all envelopes, susceptibilities, grids and step sequences',
     'tests compare the final a0 of one smooth pulse',
     [LA + 'envelope_solver.py', LA + 'envelope_solver_non_centered.py',
      LA + 'tdma.py', LA + 'laser_pulse.py'],
     [('solver', LA + 'envelope_solver.py, envelope_solver_non_centered.py'),
      ('tridiagonal system', LA + 'tdma.py'),
      ('pulse evolution', LA + 'laser_pulse.py:LaserPulse.evolve')],
     'step monitor against an independent dense linear solve; conservation '
     'monitors',
     'Random complex envelopes and susceptibilities.')
prop('P17', 'Laser pulses start as the documented profiles',
     'Gaussian, Laguerre-Gauss, flattened-Gaussian and summed pulses have on '
     'the grid the documented peak a0, focus position, waist, duration, phase, '
     'wavelength and polarization, satisfy the vacuum paraxial equation '
     'between any positions, and a summed pulse is the sum of its parts, '
     'refusing parts that cannot be added.',
     ['inputs'],
     'all pulse parameters, positions relative to focus and grids',
     'tests use one focused Gaussian',
     [LA + 'laser_pulse.py'],
     [('profiles', LA + 'laser_pulse.py'), ('units', LA + 'utils.py')],
     'monitor of initialised envelopes against closed forms and energy '
     'invariants',
     'Random parameters; OpenPMDPulse is out of reach here (lasy missing).')
prop('P18', 'The laser pulse is carried exactly once through the beamline',
     'Along a beamline, the laser envelope at every field update is the initial '
     'pulse evolved exactly once over the distance travelled (with the '
     'requested sub-steps, the susceptibility computed for that position and '
     'the local plasma density), continuing across elements without restart, '
     'gap or repetition; it stays unchanged if evolution is disabled, and a '
     'change of the grid on which it is defined is refused.',
     ['histories', 'configurations'],
     'all sequences of elements, update periods, sub-steps, sub-grids and '
     'models',
     'tests track one stage',
     [RZ, LA + 'laser_pulse.py', BE + 'plasma_stage.py'],
     [('evolution', RZ + ':RZWakefield._evolve_properties'),
      ('pulse', LA + 'laser_pulse.py:LaserPulse.evolve')],
     'event log of evolve calls across elements, replayed through an '
     'independent reference',
     'Random beamlines with random laser options.')
prop('P10', 'No input makes the code access memory outside its arrays',
     'Whatever the positions, momenta and number of the macroparticles '
     '(on or beyond grid edges, on axis, huge, not finite, number changing '
     'between trackings), the grid sizes and the models, tracking never reads '
     'or writes outside its arrays. Particles with invalid or far-away '
     'coordinates do not disturb the valid ones.',
     ['inputs', 'configurations', 'histories'],
     'all particle coordinates, bunch sizes, grid sizes and models',
     'the compiled kernels run without bounds checks, so an access outside an '
     'array passes silently in the tests',
     [T + 'particles/deposition.py', T + 'particles/interpolation.py',
      QS + 'solver.py', QS + 'deposition.py', PB,
      T + 'utilities/numba.py'],
     [('deposition and gather indices', T + 'particles/deposition.py, '
       + T + 'particles/interpolation.py'),
      ('auxiliary arrays', PB)],
     'numba bounds-check sanitizer on all kernels under hostile workloads, '
     'plus non-interference monitor',
     'Sanitized execution of every compiled kernel with hostile particles and '
     'minimal grids.')
prop('P11', 'Results do not depend on the number of threads',
     'Tracking and field computations give the same result, particle by '
     'particle and up to rounding, with any number of threads and in repeated '
     'executions. Tracking runs with the number of threads requested for Wake-T '
     'and the number of threads set for the process is the same after '
     'tracking as before, also if the tracking fails.',
     ['schedules', 'configurations'],
     'all thread counts and interleavings of the parallel kernels',
     'the tests run with one thread count and small bunches; a race needs many '
     'particles in the same cell',
     [T + 'tracking/tracker.py', T + 'particles/deposition.py',
      T + 'particles/interpolation.py', PU + 'runge_kutta_4.py',
      PU + 'boris_pusher.py', T + 'utilities/numba.py'],
     [('thread setting', T + 'tracking/tracker.py:Tracker.do_tracking'),
      ('parallel kernels', T + 'utilities/numba.py')],
     'thread-count differential stress (race detection on results) and '
     'thread-setting monitor',
     'TSAN cannot instrument JIT-compiled kernels, so races are detected by '
     'their effect under contention.')
prop('P19', 'Elements see the prescribed plasma density at the right place',
     'Plasma ramps (upramp and downramp, all predefined profiles and user '
     'functions) and stages with a density function apply at every point of '
     'the element, and at every field update, the density that the profile '
     'prescribes there: the plasma density at the stage side, '
     'the given (or derived) decay length or density at the given position '
     'and an upramp that mirrors the downramp. Inconsistent ramp definitions '
     'are refused.',
     ['inputs', 'configurations'],
     'all profiles, directions, lengths, decay parameters, models and update '
     'periods',
     'tests use one ramp and compare beam sizes at the end',
     [BE + 'plasma_ramp.py', BE + 'plasma_stage.py',
      WK + 'focusing_blowout.py', RZ],
     [('profiles', BE + 'plasma_ramp.py'),
      ('density at an update', RZ + ', ' + WK + 'focusing_blowout.py')],
     'monitor of the density acting on the fields (read off gathered fields, '
     'grids and callbacks) against the documented profile',
     'Random ramps and callables; grid models compared with uniform stages at '
     'each update.')
prop('P20', 'Transfer-map elements apply the second-order map of the magnet',
     'Drifts, dipoles, quadrupoles, sextupoles and combined-function elements '
     'move every particle by the first- and second-order (if requested) '
     'transfer map of that magnet for its deviation from the reference '
     'energy, for both signs of the strengths and including all coupling '
     'and time-of-flight terms. The first-order map is symplectic and the '
     'result agrees with the exact motion up to third order.',
     ['inputs', 'configurations'],
     'all particles, strengths, lengths, angles, energies and orders',
     'tests pin the emittance after one lattice; small wrong coefficients and '
     'unused strengths stay invisible',
     [BE + 'tm_elements.py', PU + 'transfer_matrix.py'],
     [('matrices', PU + 'transfer_matrix.py:track_with_transfer_map'),
      ('element', BE + 'tm_elements.py:TMElement')],
     'map extraction from tracked particles, compared with integrated '
     'variational equations and exact orbits',
     'Random elements; all R and T coefficients observed.')
prop('P21', 'Transfer-map lattices compose along the reference orbit',
     'Tracking through a lattice is the composition of its elements: '
     'tracking as a beamline or element by element, cutting an element in '
     'pieces or requesting more outputs gives the same particles, and the '
     'reference frame (position and angle) of every output follows the '
     'geometric reference orbit, returning to the axis after a closed '
     'chicane. A fixed reference energy is used if given and '
     'otherwise the average energy of the bunch at each element.',
     ['inputs', 'configurations', 'histories'],
     'all lattices, outputs, initial frames and reference energies',
     'the tests track one lattice in one way',
     [BE + 'tm_elements.py', BE + 'beamline.py'],
     [('composition and frame', BE + 'tm_elements.py:TMElement'),
      ('beamline', BE + 'beamline.py:Beamline.track')],
     'monitor of every output against an independent composition of maps; '
     'paired executions',
     'Random lattices of 1-7 elements.')
prop('P22', 'CSR takes the right energy from the bunch where it should',
     'Coherent synchrotron radiation lowers the energy of bunches of any '
     'species and charge sign inside and shortly after bends only, with the analytic '
     'transient and steady-state wake, proportional to the charge and without '
     'changing positions. The result does not depend on cutting a bend in '
     'pieces, on outputs, on the bend direction, on repeated elements in '
     'the lattice or on trackings before a reset of the calculator.',
     ['inputs', 'configurations', 'histories'],
     'all bunches, bends, lattices and histories of the shared calculator',
     'tests pin one bunch compressor within a tolerance',
     [T + 'physics_models/collective_effects/csr.py', BE + 'tm_elements.py',
      BE + 'beamline.py'],
     [('wake', T + 'physics_models/collective_effects/csr.py'),
      ('lattice', BE + 'beamline.py, tm_elements.py')],
     'energy monitor against analytic wake; paired executions across histories',
     'Gaussian and structured bunches through random bends and lattices.')
DI = T + 'diagnostics/'
UT = T + 'utilities/'
prop('P23', 'openPMD output is a faithful record of the simulation',
     'Every openPMD file written while tracking holds, at its physical time '
     'and position in the beamline, exactly the macroparticles, weights, '
     'species charge and mass of each bunch and the field, density and laser '
     'grids acting at that moment (same units, grid spacing and offset), for '
     'any sequence of elements. One file per output '
     'with increasing iterations is written to the requested directory, bunches of equal '
     'name are refused, and switching the output on does not change the '
     'result of the tracking.',
     ['inputs', 'configurations', 'histories'],
     'all beamlines, bunches, models and ways of tracking (beamline, '
     'element by element, shared or new writer)',
     'tests only check that the diagnostics run and read one quantity',
     [DI + 'openpmd_diag.py', T + 'tracking/tracker.py', RZ,
      T + 'particles/particle_bunch.py'],
     [('writer', DI + 'openpmd_diag.py'),
      ('data', RZ + ':_get_openpmd_diagnostics_data')],
     'file monitor: every record read back raw and compared with the live '
     'state captured at the moment of writing',
     'Random beamlines with 1-3 bunches, all field models and lasers.')
prop('P24', 'A bunch survives being saved and read back',
     'Saving a bunch in openPMD, ASTRA or CSRtrack format and reading it back '
     'returns the same macroparticles (phase space, weights and order) within '
     'the precision of the format, with xi centred on the weighted average, '
     'which becomes the propagation distance if requested; openPMD files also '
     'keep species and name. Saving does not change the bunch, reading a file with several '
     'species needs the species name, and bunches created without a name get '
     'distinct names.',
     ['inputs', 'configurations'],
     'all bunches, species, sizes and formats',
     'there is one round trip of one electron bunch in the tests',
     [UT + 'bunch_saving.py', UT + 'bunch_generation.py',
      T + 'particles/particle_bunch.py'],
     [('save', UT + 'bunch_saving.py'), ('read', UT + 'bunch_generation.py')],
     'round-trip monitor on every written file, also read raw',
     'Random bunches and outputs of trackings.')
prop('P25', 'Generated bunches have the requested parameters',
     'The Gaussian bunch generators return the requested number of '
     'macroparticles with equal weights adding up to the charge, and within '
     'sampling errors the requested emittance, Twiss parameters or sizes in '
     'both planes, offsets, pointing, duration (cut at three sigma), energy '
     'and energy spread, without unrequested correlations. Matched bunches '
     'of any species keep their beam size in the ion channel they are matched to.',
     ['inputs', 'configurations'],
     'all requested parameters, species and random states',
     'tests only use generated bunches as input of other tests',
     [UT + 'bunch_generation.py', UT + 'other.py'],
     [('generators', UT + 'bunch_generation.py'),
      ('matching', UT + 'bunch_generation.py:get_matched_bunch')],
     'statistical monitor of the generated moments with seven-sigma bounds; '
     'matched bunches are tracked',
     'Fixed random states, so bounds are reproducible.')
prop('P26', 'Bunch analysis reports the moments of the bunch',
     'The analysis returns for each bunch or list of bunches, in order, the '
     'weighted averages, rms sizes, divergences, projected and slice '
     'emittances and energy spreads, Twiss parameters, peak current, charge '
     'and propagation distance of the macroparticles, without changing them. '
     'Files of parameters or distributions written by the diagnostics hold '
     'and give back these values.',
     ['inputs', 'configurations'],
     'all bunches with unequal weights, correlations, offsets, slicings, '
     'lists',
     'tests compare a few parameters at the end of a simulation with stored '
     'numbers',
     [DI + 'bunch_analysis.py', T + 'particles/particle_bunch.py'],
     [('analysis', DI + 'bunch_analysis.py')],
     'value monitor: every reported number is recomputed from the particles',
     'Random correlated bunches and snapshots of trackings.')
prop('P27', 'A tracking depends on its inputs only, not on earlier runs',
     'Tracking equal bunches through equal elements gives bitwise equal '
     'results (in a new process: equal up to rounding) whatever ran before: '
     'other simulations, '
     'the same element or field object with other bunches or in another '
     'beamline, a '
     'tracking that failed, any state of the random generators, or a new '
     'process (with CSR: after resetting its calculator). Tracking changes '
     'neither the settings of the elements nor the state of the global random generators.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'all elements, models, bunches and histories of one process',
     'each test tracks once with new objects',
     [T + 'tracking/tracker.py', BE + 'plasma_stage.py', BE + 'tm_elements.py',
      T + 'physics_models/collective_effects/csr.py', T + 'fields/base.py', RZ],
     [('element state', BE + 'field_element.py, tm_elements.py'),
      ('field state', T + 'fields/numerical_field.py')],
     'paired executions with different histories compared bit by bit',
     'Random elements of all types, with failures injected.')
prop('P28', 'Phase-space representations of a bunch are equivalent',
     'Converting a bunch to the standard, alternative (relative energy) and '
     'Ocelot matrix forms follows the documented definition of each '
     'coordinate, and converting back with the same reference '
     'energy restores the particles. Rotating the coordinate system and '
     'rotating back, or setting the position, moves the '
     'particles rigidly; weights, charge, species and energies stay the same.',
     ['inputs'],
     'all bunches, energies, reference energies and angles',
     'the tests do not call the conversions directly',
     [T + 'particles/particle_bunch.py', UT + 'bunch_manipulation.py'],
     [('conversions', UT + 'bunch_manipulation.py'),
      ('bunch', T + 'particles/particle_bunch.py')],
     'round-trip and definition monitors on random bunches',
     'Low to high energies.')
prop('P29', 'A field element does the same as the chain of its pieces',
     'Cutting a field-based element (field quadrupole, active plasma lens, '
     'ion channel, cold-fluid or quasi-static plasma stage, with or without '
     'laser and external fields) into consecutive shorter elements that '
     'cover the same density and field profiles, with time steps and field '
     'periods that divide the pieces, gives the same bunches, snapshots, '
     'laser pulse and propagation distances as the whole element; adaptive '
     'steps agree within their accuracy. Bunches keep their injection '
     'position and the laser its history across the cuts.',
     ['inputs', 'configurations', 'histories'],
     'all elements, profiles, cuts, bunches, time steps and outputs',
     'the tests track every element in one piece',
     [T + 'tracking/tracker.py', BE + 'field_element.py',
      BE + 'plasma_stage.py', T + 'fields/numerical_field.py',
      T + 'physics_models/laser/laser_pulse.py', RZ],
     [('hand-over of bunches', T + 'tracking/tracker.py'),
      ('hand-over of the laser', T + 'physics_models/laser/laser_pulse.py')],
     'paired executions: whole element against chain of pieces, compared at '
     'every common output',
     'Lengths are powers of two times the period; blowout models defined '
     'from the entrance of their element are not cut.')
prop('P30', 'A request is honoured as documented or refused with an error',
     'Options with a documented set of values (bunch pusher, wakefield model, '
     'plasma pusher, particle shape, ramp profile and type, laser '
     'polarization, order of the transfer matrices, bunch matrix type, time '
     'step, type of density and parabolic coefficient, envelope substeps, '
     'laser pulses to be added, names of the bunches written to openPMD, '
     'file formats) accept all of these values, and any other value ends in '
     'an exception, at construction or when tracking starts, with all '
     'bunches as they were, never in a silently different simulation. One '
     'time step per bunch is required if a list is given, and a time step '
     'of None is the adaptive one.',
     ['inputs', 'configurations'],
     'all options, values outside of their sets and surrounding '
     'configurations',
     'the tests use valid values only',
     [BE + 'field_element.py', BE + 'plasma_stage.py', BE + 'plasma_ramp.py',
      BE + 'active_plasma_lens.py', BE + 'tm_elements.py',
      T + 'particles/particle_bunch.py', T + 'particles/deposition.py',
      T + 'physics_models/laser/laser_pulse.py',
      T + 'physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py',
      DI + 'openpmd_diag.py'],
     [('validation', BE + 'plasma_stage.py, plasma_ramp.py, field_element.py'),
      ('late validation', T + 'particles/particle_bunch.py, deposition.py')],
     'misuse workload: exceptions and the state of all bunches are observed '
     'for wrong values next to every allowed one',
     'Random misspelt and mistyped values in random configurations.')
