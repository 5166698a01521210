import json
P=[]
def prop(id,title,statement,over,text,why,files,state,mech,observe,hook=False):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=state,meaning=state,where=files[0])],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe],hook_needed=None)))
R='longitudinal_tomography/'
prop('C01','Tracking follows the turn-by-turn longitudinal equations of motion',
 'For every machine, start profile and particle distribution, the tracked phase and energy of each particle at each measured profile equal the result of composing one drift and one RF kick per machine turn, forward from the start profile to the last and backward to the first, each turn using its own voltages, synchronous phase, RF phase difference, energy gain and drift coefficient. The start profile holds the initial distribution unchanged (a distribution given for a turn between two profiles, deltaturn, is tracked from that turn and every row holds the coordinates of its own profile), negative profile indices count from the end, every profile row is filled, out-of-range indices are rejected with an error, and the caller\'s initial arrays are not modified.',
 ['inputs','configurations'],'all profile counts, turns per profile, start profiles, particle counts, single and double RF machines with per-turn varying parameters, user-given and automatic distributions, both precisions',
 'unit tests pin two fixed machines with constant parameters and one start profile; off-by-one turn indices cancel when parameters do not vary from turn to turn',
 [R+'cpp_routines/kick_and_drift.cpp',R+'cpp_routines/libtomo.cpp',R+'tracking/tracking.py'],'particle phase/energy arrays while tracking',
 [('turn loop',R+'cpp_routines/kick_and_drift.cpp: kick_and_drift'),('python bindings and overloads',R+'cpp_routines/libtomo.cpp: wrapper_kick_and_drift_*'),('user entry point',R+'tracking/tracking.py: Tracking.track')],
 'arrays returned by tracking (profiles x particles)')
prop('C02','Tracking is reversible and treats particles independently',
 'Tracking a distribution from one profile and then using the coordinates found at any other profile as a new start reproduces the same trajectories at all profiles, to rounding error. Every particle\'s trajectory depends only on its own initial coordinates: permuting, subsetting, duplicating or enlarging the set of particles permutes, subsets, duplicates or leaves unchanged the trajectories.',
 ['inputs','configurations'],'all pairs of start profiles, all permutations/subsets of small particle sets, particle counts from one to tens of thousands, machines with acceleration and double RF',
 'tests compare against stored values for one start profile and never compare two runs with different starts or particle sets',
 [R+'cpp_routines/kick_and_drift.cpp',R+'tracking/tracking.py'],'particle phase/energy arrays',
 [('forward and backward maps',R+'cpp_routines/kick_and_drift.cpp: kick_up/kick_down/drift_up/drift_down'),('restart from the stored profile',R+'cpp_routines/kick_and_drift.cpp: kick_and_drift')],
 'arrays returned by tracking')
prop('C03','All execution variants compute the same result',
 'The compiled tracking and reconstruction, the hybrid Python/C++ variants kept for reference, the separate kick, drift, projection and back-projection routines composed by hand, the machine-object and explicit-argument call forms, scalar and per-turn RF phase difference, positional and keyword arguments, and single and double precision all give the same results within the rounding of the chosen precision. Array memory layout and integer or floating dtype of the inputs does not change a returned result.',
 ['inputs','configurations'],'every pair of execution variants on every enumerated machine, distribution, waterfall and coordinate set',
 'tests exercise each variant alone against stored numbers on a single data set; agreement between variants is never quantified over inputs',
 [R+'cpp_routines/libtomo.cpp',R+'tracking/tracking.py',R+'tomography/tomography.py',R+'utils/tomo_config.py'],'results of each variant',
 [('overload set',R+'cpp_routines/libtomo.cpp: PYBIND11_MODULE'),('hybrid tracking',R+'tracking/tracking.py: kick_and_drift'),('hybrid reconstruction',R+'tomography/tomography.py: run_hybrid'),('precision cast',R+'utils/tomo_config.py: cast')],
 'returned arrays of each variant')
prop('C04','Results do not depend on thread count or thread schedule',
 'For every input, tracking, reconstruction (single and multi bunch), projection, back-projection and the individual kick and drift routines return the same values, up to rounding, whatever number of threads is configured and however the threads are interleaved. No schedule deadlocks, crashes or changes which error is raised.',
 ['schedules','inputs'],'all schedules with a bounded number of deviations from the default one at conflicting accesses of all parallel regions, for team sizes 2-8 on small inputs and up to 200 on larger ones; real thread counts up to 128 for larger inputs',
 'a test run samples one schedule; a data race shows up only under particular interleavings and usually vanishes on small inputs',
 [R+'cpp_routines/reconstruct.cpp',R+'cpp_routines/kick_and_drift.cpp',R+'cpp_routines/libtomo.cpp'],'shared arrays inside OpenMP parallel loops',
 [('parallel loops',R+'cpp_routines/reconstruct.cpp'),('parallel loops',R+'cpp_routines/kick_and_drift.cpp'),('thread count setting',R+'cpp_routines/libtomo.cpp: set_num_threads')],
 'arrays returned by the compiled routines')
prop('C05','Reconstruction computes the iterative back-projection result',
 'For every waterfall, set of particle bin coordinates and number of iterations, the particle weights are non-negative and equal the documented iteration: back-project the measured profiles, then repeatedly project the weights, normalise each profile, take the difference from the measurement, scale it by the reciprocal particle count per bin and back-project it, clipping weights at zero. The reported reconstructed profiles are exactly the normalised projection of the returned weights, the discrepancy has one entry per iteration plus the final one, each being the root-mean-square difference at that iteration, and an error is raised exactly when all weights are reduced to zero.',
 ['inputs'],'all coordinate matrices over small particle/profile/bin universes, an alphabet of waterfalls including zeros and negatives, every iteration count up to a bound, and a ladder of larger shapes, both precisions',
 'tests check one stored data set; relations between weights, recreated profiles and discrepancies are not asserted',
 [R+'cpp_routines/reconstruct.cpp',R+'tomography/tomography.py',R+'tomography/__tomography.py'],'weights, recreated waterfall, discrepancy array',
 [('iteration',R+'cpp_routines/reconstruct.cpp: reconstruct'),('normalisation of the measurement',R+'tomography/__tomography.py: _normalize_profiles'),('entry point',R+'tomography/tomography.py: Tomography.run')],
 'weight, recreated and diff after a run')
prop('C06','Reconstruction respects the symmetries of the problem',
 'Reordering the particles reorders the weights; reordering or mirroring the bins, or reordering the profiles, consistently in data and coordinates leaves the weights and discrepancies unchanged and reorders the reconstructed profiles; rescaling the measured profiles by any positive factor changes nothing; identical particles get identical weights; adding empty bins that no particle visits leaves the weights unchanged. Running the same reconstruction again gives the same answer and never modifies the measurement or the coordinates.',
 ['inputs','histories'],'all permutations of small particle, bin and profile sets, all scale factors in an alphabet, over all enumerated waterfalls and coordinate matrices',
 'metamorphic relations between runs are not something the stored-value tests assert',
 [R+'cpp_routines/reconstruct.cpp',R+'tomography/__tomography.py'],'weights and recreated waterfall',
 [('projection / back-projection',R+'cpp_routines/reconstruct.cpp: project/back_project'),('reciprocal particle counts',R+'cpp_routines/reconstruct.cpp: reciprocal_particles')],
 'weight, recreated, diff of paired runs')
prop('C07','A tomography object stays consistent under any sequence of operations',
 'Under every sequence of setting or clearing x- and y-coordinates (valid or invalid) and running reconstructions (successful or failing), a tomography object accepts exactly the coordinates that are two-dimensional, have one column per profile and lie inside the image, and rejects everything else with the documented error leaving the object as it was. After any such history a run gives the same result as on a fresh object with the same coordinates, a run without coordinates is refused, the particle count matches the stored coordinates, and later changes of the caller\'s arrays do not leak into the object nor runs into the caller\'s arrays.',
 ['histories','inputs'],'all operation sequences up to a depth from an alphabet of valid and invalid operations',
 'tests call each setter once on a fresh object; state left behind by a rejected or earlier operation is not exercised',
 [R+'tomography/__tomography.py',R+'tomography/tomography.py'],'stored coordinates, particle count, results',
 [('coordinate setters',R+'tomography/__tomography.py: xp, yp'),('run',R+'tomography/tomography.py: run')],
 'attributes and raised errors after each operation')
prop('C08','Global settings and earlier calls never change what later calls compute',
 'After any history of precision switches, thread-count settings, device selection, trackings, reconstructions, failing calls and image constructions in one process, a given call returns the same values as in a fresh process with the same precision, and switching precision back and forth restores the original behaviour and result types. Objects created before a switch stay usable, and machine, profile and tomography objects created independently do not share state.',
 ['histories','configurations'],'all sequences of configuration changes and calls up to a depth, from every precision, each followed by probe calls',
 'tests run each call from a nearly fresh state and set precision only in isolation',
 [R+'utils/tomo_config.py',R+'cpp_routines/libtomo.cpp',R+'tomography/__tomography.py',R+'tracking/tracking.py'],'process-wide configuration and module state',
 [('precision and device switch',R+'utils/tomo_config.py: AppConfig'),('thread setting',R+'cpp_routines/libtomo.cpp: wrapper_set_num_threads')],
 'results and dtypes of probe calls')
prop('C09','Progress callbacks are called exactly once per step and may fail at any step',
 'Tracking calls a user callback once per machine turn with the progress counting up from one in steps of one and the constant total number of turns; reconstruction (single and multi bunch) calls it once per iteration and once at the end with the number of iterations as total. The presence of a callback does not change results; an exception raised by the callback at any call stops the computation at that point, reaches the caller unchanged, loses no memory, and leaves the library and the objects usable with later calls giving normal results, and callbacks may call the library themselves.',
 ['fault_sequences','histories','inputs'],'every callback position of every enumerated computation used as failure point, repeated and nested failures, both precisions',
 'tests only pass a callback that succeeds',
 [R+'cpp_routines/libtomo.cpp',R+'cpp_routines/reconstruct.cpp',R+'cpp_routines/kick_and_drift.cpp'],'progress counter, temporary buffers',
 [('callback invocation',R+'cpp_routines/kick_and_drift.cpp: callback'),('callback invocation',R+'cpp_routines/reconstruct.cpp: callback'),('cleanup on exceptions',R+'cpp_routines/libtomo.cpp: cleanup')],
 'recorded callback arguments, propagated exception, allocation balance')
prop('C10','The automatic particle distribution covers the reconstruction area evenly',
 'For every machine setting the automatic distribution places exactly the requested number of points squared, evenly spaced, in every phase-space cell of the reconstruction area and none elsewhere; the area lies inside the image and, to within the cells overlapping the limits, inside the user-given time limits. With the full-image option it covers all selected phase bins with every energy row above the lowest; otherwise it is bounded in each phase bin by the trajectories through the edges of the image. The origin and energy bin size follow their documented definitions, converting the points back to bins at the start profile returns the same cells, and invalid settings are refused with an error instead of producing particles outside the image.',
 ['inputs','configurations'],'all image sizes, points per cell, time limits, start and reference profiles, energy limits and RF settings in the enumerated grids',
 'tests check two stored configurations',
 [R+'tracking/particles.py',R+'tracking/phase_space_info.py'],'limits and generated coordinates',
 [('cell filling',R+'tracking/particles.py: homogeneous_distribution'),('limits',R+'tracking/phase_space_info.py: find_binned_phase_energy_limits')],
 'coordinates of the distribution, limits, origin and bin size')
prop('C11','Coordinate conversion and lost-particle removal keep exactly the valid particles',
 'Converting physical coordinates to bins uses the synchronous phase and revolution frequency of the turn of each profile and is the exact inverse of the conversion used to create distributions. Removing lost particles drops exactly the particles that lie outside the image at one or more profiles, keeps all others with their coordinates and order, keeps phase and energy rows paired, and reports the number removed; the prepared arrays are integer bin numbers, transposed, accepted by the reconstruction, and an error is raised when no particle survives.',
 ['inputs'],'all placements of small particle sets on grids around the image borders at every profile, per-turn varying machine values',
 'tests use a handful of placed particles',
 [R+'tracking/particles.py'],'coordinate arrays',
 [('conversion',R+'tracking/particles.py: physical_to_coords'),('filter',R+'tracking/particles.py: filter_lost'),('preparation',R+'tracking/particles.py: ready_for_tomography')],
 'returned arrays and counts')
prop('C12','The phase-space image conserves weight and places it in the right cell',
 'For every set of weighted particles inside the image, each cell of the phase-space image holds exactly the sum of the weights of the particles in that cell, phase along the first axis and energy along the second, so that its total and its projection on the phase axis equal those of the particles. Particles outside the image on either axis cause an error rather than appearing elsewhere, the normalised image is non-negative and sums to one, and the axes returned with an image are centred on the synchronous particle with the documented bin sizes.',
 ['inputs'],'all placements of small particle sets on grids exceeding the image by one cell on each side, weight alphabets including zero and negative, both precisions',
 'tests place a few particles inside one image',
 [R+'cpp_routines/data_treatment.cpp',R+'data/data_treatment.py',R+'utils/tomo_output.py'],'image array',
 [('accumulation',R+'cpp_routines/data_treatment.cpp: make_phase_space'),('axes',R+'data/data_treatment.py: phase_space_from_coordinates'),('normalised image',R+'utils/tomo_output.py: create_phase_space_image')],
 'image, axes, raised errors')
prop('C13','Pre-processing of measured profiles preserves the signal and its position',
 'Rebinning sums each group of bins so that signal is conserved when the bin count divides, extends to a properly scaled last bin when it does not, and scales bin width and synchronous position consistently; cutting returns exactly the requested bins and refuses impossible ranges; automatic cuts contain the region where the signal changes plus the margin inside the measurement; filtering drops profiles holding only noise, selected by total signal, and keeps all others in order in data and coordinates alike. The fitted synchronous position gives both ends of the bunch the same potential with the voltages of the reference profile and is equivariant under shifts and invariant under scaling of the measurement, and none of these change the caller\'s arrays.',
 ['inputs'],'all waterfalls over small alphabets and shapes, all rebin factors, all cut pairs, thresholds and margins, all shifts',
 'tests check single examples of each function',
 [R+'data/pre_process.py',R+'data/data_treatment.py'],'waterfall arrays',
 [('rebin',R+'data/pre_process.py: rebin'),('cuts',R+'data/pre_process.py: get_cuts, cut_waterfall'),('profile filter',R+'data/pre_process.py: filter_profiles'),('fit',R+'data/pre_process.py: fit_synch_part_x')],
 'returned arrays and values')
prop('C14','Input files are interpreted faithfully or rejected',
 'Every parameter of an input file ends up in the corresponding machine or frame setting, with profile indices converted from one-based to zero-based and reconstruction limits converted from bins to time, whether the file is read from a path, from standard input with piped data or with separate data file. The measured data are shaped by skipping exactly the requested frames and leading and trailing bins, corrected by the baseline of the reference profile, rebinned and clipped; inputs with a wrong number of lines, values or inconsistent frame settings are refused with an error.',
 ['inputs','configurations'],'every parameter line varied independently and in pairs over distinct values, all frame counts/skips/rebin factors in a grid, every truncation or extension of the file, all input routes',
 'tests read a few shipped files; swapping two parameters with equal test values is invisible',
 [R+'utils/tomo_input.py',R+'compat/fortran.py',R+'assertions.py'],'parsed parameters and waterfall',
 [('parser',R+'utils/tomo_input.py: txt_input_to_machine'),('reading',R+'utils/tomo_input.py: get_user_input'),('frames',R+'utils/tomo_input.py: Frames.to_waterfall'),('treatment',R+'utils/tomo_input.py: raw_data_to_profiles')],
 'machine and frame attributes, profiles, raised errors')
prop('C15','Machine parameters at every turn describe one consistent synchronous particle',
 'For every machine, at every turn the synchronous phase balances the RF voltage against the required energy gain, the energy changes by the voltage seen at that turn, velocity, revolution frequency, slip factor and drift coefficient follow from that energy, time advances by one revolution period per turn with zero at the machine reference profile, and voltages are linear in that time. Values depend only on the parameters: recomputation is idempotent, extending the number of profiles keeps the values of existing turns, the choice of reference profile only moves the point where the given field and time zero hold, and invalid parameters are refused.',
 ['inputs','configurations'],'all reference profiles, turn counts, single/double RF, above/below transition, accelerating or not, ramped voltages, charges in the enumerated grids',
 'tests compare stored arrays for one or two machines',
 [R+'tracking/machine.py',R+'utils/physics.py',R+'tracking/machine_base.py',R+'assertions.py'],'per-turn arrays of the machine',
 [('recurrence',R+'tracking/machine.py: values_at_turns'),('formulas',R+'utils/physics.py'),('input assertions',R+'assertions.py: assert_machine_input')],
 'per-turn machine arrays')
prop('C16','No accepted or rejected call reads or writes outside its arrays',
 'For every input the library accepts, and every input it rejects with an error, tracking, reconstruction, projection, counting and image construction access only memory belonging to the arrays involved and free every temporary exactly once; results never depend on uninitialised memory.',
 ['inputs','fault_sequences'],'all small shapes, extreme but valid coordinates, all start profiles and iteration counts including zero, multi-bunch windows reaching past the image, callback failures, both precisions',
 'out-of-bounds accesses by one element usually go unnoticed in an uninstrumented test run',
 [R+'cpp_routines/reconstruct.cpp',R+'cpp_routines/kick_and_drift.cpp',R+'cpp_routines/data_treatment.cpp',R+'cpp_routines/libtomo.cpp'],'heap arrays of the compiled routines',
 [('buffer arithmetic',R+'cpp_routines/libtomo.cpp'),('index arithmetic',R+'cpp_routines/reconstruct.cpp'),('image index',R+'cpp_routines/data_treatment.cpp')],
 'address-sanitizer reports, poisoned-heap comparison')
prop('C17','Multi-bunch reconstruction is the joint reconstruction of all bunches',
 'For every set of bunch centres and windows, the multi-bunch reconstruction keeps one weight per particle and bunch, zero for particles that leave that bunch\'s window or the measurement at any profile, and all others evolve by the same projection/normalise/compare/back-project iteration as the single-bunch reconstruction with every bunch contributing to a common waterfall. With one bunch at offset zero and a window spanning the measurement it equals the single-bunch reconstruction; the overall and per-bunch discrepancies are the root-mean-square differences over the measurement and over each window; reordering bunches reorders the results, and the hybrid variant agrees.',
 ['inputs','configurations'],'all centres and windows in small grids, all coordinate matrices of small universes, every iteration count up to a bound, both precisions',
 'the existing tests contain no multi-bunch case',
 [R+'cpp_routines/reconstruct.cpp',R+'tomography/tomography_multibunch.py'],'weights per bunch, recreated waterfall, discrepancies',
 [('iteration',R+'cpp_routines/reconstruct.cpp: reconstruct_multi'),('windows',R+'cpp_routines/reconstruct.cpp: create_mask'),('object',R+'tomography/tomography_multibunch.py')],
 'weights, recreated waterfall, discrepancies after a run')
prop('C18','Beam-quality figures computed from an image are consistent with its density',
 'The 90% and other fractional emittances equal, to within one cell, the area of the smallest set of cells containing that fraction of the density, grow with the fraction, and do not change when the density is rescaled or cells are rearranged; RMS emittance is pi times the product of the time and energy spreads, momentum spread follows from energy spread and beam energy by the relativistic relation, and the combined report agrees with the individual functions. Fractions outside 0 to 100 are refused, as are axes that do not match the image where spreads are computed; inputs are not modified, and generated macroparticles lie only in cells that hold density above the threshold.',
 ['inputs'],'all small images over a density alphabet, all fractions in a grid, all permutations of cells of small images, scale factors',
 'tests use two stored images',
 [R+'data/post_process.py',R+'data/data_treatment.py'],'phase-space images',
 [('fractional emittance',R+'data/post_process.py: emittance_fractional'),('spread',R+'data/post_process.py: rms_dpp, emittance_rms'),('macroparticles',R+'data/data_treatment.py: density_to_macro')],
 'returned figures')
prop('C19','Written output files contain exactly the reconstructed data',
 'Every image, profile, discrepancy and self-field file written for an external viewer contains one value per line in row-major order that reads back as the data to the seven printed decimals, under a name carrying the one-based three-digit profile number, and replaces any earlier content. Discrepancy lines carry their iteration number from zero, and the plot-information text and progress lines carry the machine and reconstruction values under their labels with one-based profile numbers.',
 ['inputs','histories'],'all profile indices in a range, value alphabets over magnitudes and signs, arrays of all small shapes, repeated writes of different lengths to the same target, both writer families',
 'tests write one example of each',
 [R+'compat/fortran.py',R+'compat/tomoscope.py',R+'utils/tomo_output.py'],'files in the output directory',
 [('fortran writers',R+'compat/fortran.py'),('tomoscope writers',R+'compat/tomoscope.py')],
 'files re-read from the output directory, captured text')
prop('C20','Profile objects and self-field voltages follow from the measured data',
 'A profiles object stores the measurement with negatives set to zero, independent of the caller\'s array, keeps the machine\'s bin count and vertical centre in step with it, and refuses data with a wrong number of profiles or without any signal, leaving the object unchanged. Profile charge, wrap length and self-field voltages equal their documented formulas for every machine and filter, are zero where no measurement exists. Forward tracking with self-fields adds, once per turn, the charge times the self-field voltage of the profile interval and bin the particle is in, and tracking with vanishing self-fields from any profile gives the same trajectories as tracking without them.',
 ['inputs','configurations'],'all small waterfalls over an alphabet, all reference profiles, machines with and without ramp, default and user-given filters, histories of reassigning the measurement',
 'tests check stored examples of the individual formulas',
 [R+'data/profiles.py',R+'utils/physics.py',R+'tracking/tracking.py',R+'tracking/__tracking.py'],'waterfall, charge, self-field arrays',
 [('waterfall setter',R+'data/profiles.py: waterfall'),('self fields',R+'data/profiles.py: calc_self_fields'),('tracking with self fields',R+'tracking/tracking.py: kick_and_drift_self')],
 'attributes of the profiles object, tracked coordinates')
prop('C21','A complete run turns an input file into the image of the requested profile',
 'For every valid input file and requested profile, a complete run returns time and energy axes and a non-negative image that sums to one and equals the composition of the individual documented steps: read, correct, rebin, fit the synchronous position when it is negative, track, remove lost particles, reconstruct with the requested iterations, and form the image of that profile. The convenience functions, the command-line program and the viewer mode give the same data, and viewer mode writes image and profile files for every profile of the requested film range and one discrepancy file.',
 ['inputs','configurations'],'all profile choices, film ranges and steps, rebin factors, skip settings, iteration counts and input routes in a grid of small input files, plus every shipped example input',
 'tests run one or two shipped inputs end to end',
 [R+'utils/tomo_run.py',R+'shortcuts.py',R+'__main__.py'],'pipeline result',
 [('pipeline',R+'utils/tomo_run.py: run'),('convenience functions',R+'shortcuts.py')],
 'returned axes and image, files written, text printed')
prop('C22','Machines defined by programs interpolate them turn by turn',
 'For machines given by momentum, voltage and phase programs, every turn\'s time advances by the revolution period at the interpolated momentum, momentum, voltages and RF phase difference are linear interpolations of the programs at those times (voltages and phases held constant outside their programs), and energy, velocity, frequency, slip factor, drift coefficient, energy gain between consecutive turns and synchronous phase follow from them. The phase difference may be a constant, an array on the voltage time axis or a program of its own. Constant programs reproduce the constant machine, and momentum programs too short for the requested turns are refused.',
 ['inputs','configurations'],'all reference times, reference profiles, turn counts, one- and two-harmonic programs, constant and ramped programs in a grid',
 'tests compare stored arrays for a single program',
 [R+'tracking/programs_machine.py',R+'utils/physics.py'],'per-turn arrays',
 [('interpolation',R+'tracking/programs_machine.py: _interpolate_momentum'),('derived values',R+'tracking/programs_machine.py: values_at_turns')],
 'per-turn machine arrays')
prop('C23','Bunch lengths, areas and densities follow from profile, image and bucket',
 'For an image of unit total density, RMS emittance, means and spreads are the moments of that density, and the area holding a given fraction of the density is read off the cumulative density of the cells in descending order: it grows with the fraction and does not depend on where the cells lie. The foot positions of a profile are where the least-squares lines through the bins around the 15% points of its edges meet the base line; they scale with the bin width, do not depend on the height, and mirror and move with the profile; a profile reaching the border or longer than the period is refused. The matched area for a bunch length is the area inside the trajectory of that length around the synchronous phase of the requested profile, below and above transition. The density curves give for each trajectory its area, the mean, least and greatest density along it and the fraction of the density inside it. Clipping at an area sets exactly the weights outside the first trajectory reaching that area to zero, keeps the proportions of the others and the total weight, and names the outermost particles of each column. Fractions and levels outside 0 to 1 are refused and arguments are not modified.',
 ['inputs','configurations'],'all small images over density alphabets, trapezoidal and rounded profiles over grids of edge positions and widths, single-RF machines (above and below transition, accelerating either way, ions, harmonics), image sizes, trajectories, target areas and particle sets in the enumerated grids',
 'there are no tests of these functions; they are used on every reconstruction one analyses',
 [R+'utils/tomographics.py'],'images, profiles, machine parameters at a profile',
 [('moments and enclosed area',R+'utils/tomographics.py: rms_params, emittance_density_calc'),('lengths',R+'utils/tomographics.py: foot_tangent_fit, foot_tangent_fit_dq, foot_tangent_fit_density'),('bucket',R+'utils/tomographics.py: matched_area_calc, density_vs_emittance, tomo_weight_clipping')],
 'returned figures and weights')
prop('C24','The GPU route computes what the CPU route computes',
 'After the GPU is selected, tracking (from every profile, and from between two profiles), reconstruction, conversion of coordinates, removal of lost particles and phase space images give the same results as on the CPU, in the selected precision, for every number of particles, profiles and bins, every kind of number given as machine parameter and every size of a thread block. No thread of a launch reads or writes outside of the arrays, no result depends on the order in which threads run, and every thread of a block reaches each barrier. Particles outside of the image and reconstructions reduced to zeros are refused. The device and the precision can be selected in any order and any number of times: calls always use the device and the precision selected last.',
 ['inputs','schedules','histories'],'all particle patterns of small reconstructions, all tracking shapes and starts, sizes around thread and reduction blocks, all orders of the threads of small blocks, all histories of device and precision selections up to a length',
 'the GPU tests are skipped without a GPU, and compare single launches in one precision',
 [R+'cuda_kernels/kick_and_drift.cu',R+'cuda_kernels/reconstruct.cu',R+'python_routines/',R+'utils/tomo_config.py'],'arrays and scalars handed to the GPU routines',
 [('tracking',R+'python_routines/kick_and_drift_cuda.py: kick_and_drift_cuda'),('reconstruction',R+'python_routines/reconstruct_cuda.py: reconstruct_cuda'),('selection',R+'utils/tomo_config.py: AppConfig')],
 'returned arrays, raised errors, accesses of every thread')
import os
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
