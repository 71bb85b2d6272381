"""The properties, in one place.  mkmeta.py writes properties.jsonl and
MANIFEST.json from it."""
L = 'longitudinal_tomography/'
CPP = L + 'cpp_routines/'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                  why=' '.join(why.split()), files=files, mech=mech, observe=observe, technique=technique,
                  note=' '.join(note.split()), state=list(state)))


prop('P01', 'Native routines stay inside their buffers and read only initialised memory',
     '''For every valid input and for every documented failure (coordinates outside of the image, vanishing phase
     space, a callback that raises, arguments of a wrong kind) tracking, reconstruction (one or several bunches),
     back projection, projection, image making and histogramming read and write only inside the arrays they are
     given or allocate, execute no undefined behaviour, and return values that do not depend on memory nobody
     wrote. Repeated calls, successful or failing, do not accumulate memory.''',
     ['inputs', 'configurations', 'fault_sequences'],
     'all numbers of particles, profiles, bins and turns, all positions of particles including the edges of the image, both precisions, success and failure paths',
     'The tests run a handful of shapes in an uninstrumented build: an access next to a buffer or a value nobody wrote goes unnoticed.',
     [CPP + 'reconstruct.cpp', CPP + 'kick_and_drift.cpp', CPP + 'data_treatment.cpp', CPP + 'libtomo.cpp'],
     [('size checks of the bindings', CPP + 'libtomo.cpp'), ('loop bounds over npart/nprof/nbins/nturns', CPP + 'reconstruct.cpp')],
     ['every native entry point under AddressSanitizer/UBSan with poisoned fresh memory', 'resident memory over repeated calls'],
     'AddressSanitizer + UBSan + poisoned heap under exact-size stress workloads; memory-growth monitor',
     'Every executed access is judged by the sanitizers; shapes and paths are sampled around size thresholds. Trusts the declared sizes to match the buffers, as the API documents.')

prop('P02', 'Parallel execution is race free and independent of the number of threads',
     '''The multi-threaded routines contain no data race, and tracking, reconstruction and image making give the same
     results with any number of threads, on every repetition, and when several Python threads use the library at
     the same time.''',
     ['schedules', 'inputs', 'configurations'],
     'all schedules of the worker threads, all thread numbers (also more threads than particles or profiles), concurrent callers',
     'The tests run one thread configuration once; a lost update changes results only in some schedules.',
     [CPP + 'reconstruct.cpp', CPP + 'kick_and_drift.cpp'],
     [('OpenMP loops with one writer per element', CPP + 'reconstruct.cpp'), ('omp parallel for over particles', CPP + 'kick_and_drift.cpp')],
     ['ThreadSanitizer reports with frames in the library', 'results per thread number'],
     'ThreadSanitizer with OpenMP happens-before edges; differential runs over thread numbers and repetitions',
     'Races are reported for the accesses executed, independent of whether they collided in this run. Uses libgomp with an interposed shim that makes its fork/join/barrier edges visible.')

prop('P03', 'Tracked coordinates follow the documented kick and drift map turn by turn',
     '''Tracking a set of particles from any profile gives, in every profile and for every particle, the phase and energy
     obtained by applying turn by turn the documented map: going forward the drift dphi -= drift_coef*dE and then the
     kick dE += q*(V1*sin(dphi+phi0) + V2*sin(h_ratio*(dphi+phi0-phi12))) - deltaE0 with the values of that turn, going
     backward the exact inverse; the starting profile holds the given coordinates. This holds for each public
     way of tracking (tracker class, native calls with constant or turn-by-turn phase offset, reference
     implementation, single kicks and drifts, compatibility wrappers) in double and single precision.''',
     ['inputs', 'configurations'],
     'all machines, particle numbers, starting profiles, numbers of turns between profiles, phase offsets, precisions and entry points',
     'The tests compare a few particles of one machine with stored numbers.',
     [L + 'tracking/tracking.py', CPP + 'kick_and_drift.cpp', CPP + 'libtomo.cpp', CPP + 'tomolib_wrappers.py'],
     [('kick_and_drift loops', CPP + 'kick_and_drift.cpp'), ('Tracking.kick_and_drift / track', L + 'tracking/tracking.py')],
     ['all coordinates returned by the tracking calls'],
     'online comparison of every coordinate with a sequential reference model',
     'Accumulated phase advance limited to about 10 rad so that rounding cannot exceed the tolerance; deltaturn (experimental) is 0.')

prop('P04', 'Tracking is one reversible flow, the same wherever it starts',
     '''Restarting the tracking at any profile from the coordinates found there reproduces the same trajectories in all
     profiles, forward and backward. The trajectory of a particle does not depend on which or how many other particles
     are tracked with it or on their order; a longer record agrees with a shorter one in the common profiles; and the
     synchronous particle (zero phase and energy offset) stays at rest.''',
     ['inputs', 'histories', 'configurations'],
     'all machines, pairs of profiles, particle sets and record lengths',
     'The tests check single runs against stored numbers; relations between runs are not tested.',
     [L + 'tracking/tracking.py', CPP + 'kick_and_drift.cpp'],
     [('backward map is the inverse of the forward map', CPP + 'kick_and_drift.cpp')],
     ['coordinates of related tracking runs'],
     'metamorphic monitors relating independent executions of the tracker',
     'Known finding syncref (machine reference profile > 0 with a field ramp) is reported separately.')

prop('P05', 'Conversion to image bins and the loss filter keep exactly the right particles',
     '''Physical coordinates are converted to image coordinates by x = (dphi+phi0 in time units of bins, relative to the
     synchronous position) and y = dE/dEbin + synchronous y, per profile with that profile's values. The loss filter
     keeps exactly the particles whose x lies inside the image in every profile (a non-finite coordinate is not
     inside), in order and unchanged, and reports the number lost; the arrays made for the tomography are the
     truncated positions of exactly those particles with one row per particle and one column per profile.''',
     ['inputs', 'configurations'],
     'all machines, clouds and borders, including values exactly on the border, infinite and not-a-number',
     'The tests use one machine and clouds without border cases.',
     [L + 'tracking/particles.py'],
     [('physical_to_coords, filter_lost, ready_for_tomography', L + 'tracking/particles.py')],
     ['arrays returned by the conversion, the filter and the preparation'],
     'online comparison with an exact per-particle model on border-heavy clouds', '')

prop('P06', 'The automatic distribution fills the reconstruction area homogeneously',
     '''The automatically generated particles fill every bin of the documented reconstruction area (the part of the image
     inside the separatrix, or the whole range of energies when the full option is set, between the given time limits)
     with exactly the requested snpt x snpt grid of evenly spaced points, and no bin outside of it; the energy bin size
     is the documented one (from the given maximum, or from the bucket so that it fits the image).''',
     ['inputs', 'configurations'],
     'all machines with a bucket, both sides of transition, options, limits and densities',
     'The tests compare with stored arrays of one machine.',
     [L + 'tracking/particles.py', L + 'tracking/phase_space_info.py'],
     [('ParticleDistribution / Particles.homogeneous_distribution', L + 'tracking/particles.py'), ('find_binned_phase_energy_limits', L + 'tracking/phase_space_info.py')],
     ['generated coordinates mapped back to bins', 'dEbin, imin, imax, jmin, jmax'],
     'cell-by-cell comparison of the generated cloud with an independently computed area',
     'Columns whose border is decided by rounding may have either value.')

prop('P07', "The machine's turn-by-turn table is consistent with its physics in every turn",
     '''For every machine with a stable bucket, setting up the turn-by-turn values gives tables with one entry per turn in
     which: time advances by one revolution per turn around the machine reference profile, voltages follow their ramps in time, the
     synchronous phase lies on the stable side for its charge and side of transition and its energy gain balances the
     field ramp, consecutive energies differ by that gain, and velocity, phase slip, drift coefficient and
     revolution frequency are those of that energy. The voltage and potential functions, taken alone or with a machine and
     turn, are those voltages, their derivatives and integrals. Setting it up again, or after changing a parameter,
     gives the values of a fresh machine.''',
     ['inputs', 'histories', 'configurations'],
     'all rings, charges, sides of transition, rf systems, ramps and reference profiles; repeated set-ups',
     'The tests compare a few turns of one proton machine with stored numbers.',
     [L + 'tracking/machine.py', L + 'tracking/machine_base.py', L + 'utils/physics.py'],
     [('values_at_turns', L + 'tracking/machine.py'), ('physics helpers', L + 'utils/physics.py')],
     ['the tables of the machine after set-up'],
     'online trace checker walking the turn table; set-up histories',
     'Known finding syncref (energy gains up to the machine reference profile) is reported separately.')

prop('P08', 'A machine described by programs follows its programs',
     '''For a machine described by momentum, voltage and phase programs on their own time axes, every turn's momentum,
     voltages and phase offsets are the programs interpolated at the time of that turn, the derived quantities
     belong to that momentum, and synchronous phases balance the ramp on the stable side. Constant programs give
     the same machine as constants do; phase offsets may be given as number, array or program; programs too short for the record
     are refused.''',
     ['inputs', 'configurations'],
     'all programs (coarser or finer than a revolution), reference times, harmonics, charges and record lengths',
     'The tests use one program.',
     [L + 'tracking/programs_machine.py', L + 'tracking/machine_base.py'],
     [('values_at_turns / program interpolation', L + 'tracking/programs_machine.py')],
     ['the tables of the machine after set-up', 'tracking with such a machine'],
     'online trace checker with an independent walk through the revolutions',
     'Known finding progdelta (deltaE0 one entry short) is reported separately.')

prop('P09', 'The reconstruction is the documented iterative algorithm',
     '''Given particle positions per profile and measured profiles, the weights, the discrepancy per iteration and the
     recreated profiles are those of the documented algorithm: back projection of the (clipped, normalised)
     profiles, then per iteration projection, normalisation, rms discrepancy, compensation by the number of particles
     per bin, back projection of the difference and clipping of negative weights. Every implementation (class, reference
     routine, native call, compatibility wrapper, both precisions) agrees with it, and when no weight survives
     the documented error is raised.''',
     ['inputs', 'configurations'],
     'all particle sets, profiles (empty bins, negative noise, very different scales) and iteration numbers',
     'The tests use one stored example.',
     [L + 'tomography/tomography.py', L + 'tomography/__tomography.py', CPP + 'reconstruct.cpp', CPP + 'tomolib_wrappers.py'],
     [('reconstruct', CPP + 'reconstruct.cpp'), ('Tomography.run / run_hybrid', L + 'tomography/tomography.py')],
     ['weights, discrepancies and recreated profiles'],
     'differential comparison of every implementation with a sequential model, tolerances from model perturbation',
     'Runs that amplify rounding beyond the tolerance are left out and counted.')

prop('P10', 'A finished reconstruction is consistent with itself and its symmetries',
     '''After a reconstruction the weights are finite and not negative, the recreated profiles are the normalised projection
     of the returned weights, there is one discrepancy per iteration plus the final one and the last one is the rms of what is left.
     The result does not depend on the order of particles, on the scale of individual profiles, on negative samples,
     on earlier runs of the same object, and follows permutations of profiles and bins; data made from the particles themselves
     is approached by iterating.''',
     ['inputs', 'histories'],
     'all particle sets and profiles, all permutations and scalings, repeated runs',
     'The tests check single runs against stored numbers.',
     [L + 'tomography/tomography.py', CPP + 'reconstruct.cpp'],
     [('final projection and discrepancy', CPP + 'reconstruct.cpp'), ('_normalize_profiles', L + 'tomography/tomography.py')],
     ['state of the Tomography object after run'],
     'self-consistency and metamorphic monitors', 'Relations are compared where rounding is not amplified (measured on the model).')

prop('P11', 'Multi-bunch reconstruction treats every bunch as documented',
     '''Reconstructing several bunches from one waterfall gives per-bunch weights, per-bunch and total discrepancies and
     recreated profiles of the documented algorithm, with particles that leave their cut or the waterfall contributing
     nothing. One bunch gives the single-bunch result, identical bunches get identical weights, and listing the
     bunches in another order reorders the results.''',
     ['inputs', 'configurations'],
     'all numbers and spacings of bunches, cuts, particle sets and iteration numbers',
     'The tests do not exercise more than one multi-bunch example.',
     [L + 'tomography/tomography_multibunch.py', CPP + 'reconstruct.cpp'],
     [('reconstruct_multi', CPP + 'reconstruct.cpp'), ('TomographyMultiBunch', L + 'tomography/tomography_multibunch.py')],
     ['weights, discrepancies, recreated profiles per bunch'],
     'differential comparison with a sequential model; metamorphic relations',
     'No particle sits exactly on a cut.')

prop('P12', 'The phase-space image conserves every weight in its own cell',
     '''The phase-space image of weighted particles holds in each cell the sum of the weights of the particles in that cell, for any
     order, precision and memory layout, so the total is conserved and projections equal the weighted histograms; the
     normalised image is non-negative with unit sum, and its axes have their origin at the synchronous particle.
     A coordinate outside of the image is refused with an error and disturbs nothing; the images made for output leave
     out the particles that are beyond the image in energy.''',
     ['inputs', 'fault_sequences'],
     'all particle sets, weights, image sizes and profile indices; any single stray coordinate',
     'The tests make one small image.',
     [L + 'data/data_treatment.py', CPP + 'libtomo.cpp', CPP + 'data_treatment.cpp', L + 'compat/fortran.py', L + 'compat/tomoscope.py'],
     [('make_phase_space', CPP + 'libtomo.cpp'), ('phase_space, _make_phase_space', L + 'data/data_treatment.py')],
     ['images and axes of every public route'],
     'conservation monitor with exact accumulation; injected stray coordinates; AddressSanitizer', '')

prop('P13', 'Raw data becomes profiles without loss, shift or invention',
     '''The waterfall is exactly the raw data without the skipped frames and bins; the baseline is the documented mean
     of the leading part of the reference profile; rebinning sums neighbouring bins exactly (an incomplete last bin is
     scaled to full width) and moves bin width, number of bins and synchronous position along; clipping removes only negative
     values; and the charge of the reference profile follows pickup sensitivity and bin width. Inputs are left
     unchanged.''',
     ['inputs', 'configurations'],
     'all raw data, cuts, rebin factors, reference profiles and sampling times',
     'The tests use a few fixed settings.',
     [L + 'data/data_treatment.py', L + 'data/profiles.py', L + 'utils/tomo_input.py', L + 'compat/fortran.py'],
     [('Frames.to_waterfall', L + 'utils/tomo_input.py'), ('rebin', L + 'data/data_treatment.py'), ('Profiles', L + 'data/profiles.py')],
     ['waterfalls, machine values and charge'],
     'conservation monitors and exact slicing/summing oracle', '')

prop('P14', 'An input file means the same machine and data however it is delivered',
     '''Every parameter of the documented input format reaches the machine and frame settings with its documented meaning and
     conversion (one-based to zero-based frames, limits in bins to seconds), and the raw data arrives complete and in order, whether
     the input is a file with the data appended, a file naming a data file, or standard input with either. Reading standard input
     takes exactly the lines that belong to the input. Missing, surplus or malformed data or parameters are refused with an error.''',
     ['inputs', 'fault_sequences'],
     'all parameter values, data, line ends, routes and kinds of damage',
     'The tests read one or two stored files.',
     [L + 'utils/tomo_input.py'],
     [('get_user_input, txt_input_to_machine', L + 'utils/tomo_input.py')],
     ['machine, frames and raw data after parsing', 'lines consumed from standard input'],
     'round-trip monitor over generated inputs with recorded stdin consumption; injected damage', '')

prop('P25', 'Macroparticles drawn from an image follow its density',
     '''Sampling macroparticles from a phase-space image returns the requested number of points, every one inside a cell
     at or above the threshold, uniformly spread inside its cell, with counts per cell proportional to the density; the axes are not
     mixed up and the image is not changed.''',
     ['inputs'],
     'all images, thresholds and numbers of particles',
     'The tests do not look at the distribution.',
     [L + 'data/data_treatment.py'],
     [('density_to_macro', L + 'data/data_treatment.py')],
     ['sampled coordinates mapped back to cells'],
     'statistical monitor with fixed seeds and 7-sigma limits', 'Sampling statistics; fixed seeds make each run repeatable.')


prop('P15', 'What is written and shown is exactly what was computed',
     """Every output file holds the values it was given, complete and in order, in the documented text format, under the documented
     name (profile numbers counted from one and padded), replaces an older file of that name and touches no other; plot information, progress
     messages on standard output and the data drawn in the figure state the values of the machine, particles and reconstruction they describe.
     Inputs are not changed by writing or showing them.""",
     ['inputs', 'configurations'],
     'all arrays (signs, zeros, magnitudes from 1e-150 to 1e150), profile numbers, machines and pre-existing files',
     'The tests write one small file or none.',
     [L + 'compat/fortran.py', L + 'compat/tomoscope.py', L + 'utils/tomo_output.py'],
     [('Fortran style writers and plot info', L + 'compat/fortran.py'), ('tomoscope writers', L + 'compat/tomoscope.py'), ('show', L + 'utils/tomo_output.py')],
     ['the directory after each call, byte by byte', 'captured standard output', 'artists of the figure'],
     'byte-level monitor of a scratch directory, captured stdout and figure contents against the documented format', '')

prop('P16', 'Progress reports are complete and ordered, and errors in them are not lost',
     """A callback given to tracking or reconstruction is called in the calling thread once per turn, respectively once per iteration and once at the end,
     with increasing counts and the right total, and does not influence the results. An exception it raises stops the operation and comes out
     unchanged: nothing is reported after it, inputs are as before and a following run is not affected. Callbacks may use the library themselves.""",
     ['inputs', 'fault_sequences', 'histories'],
     'all routines, shapes, positions of the failing report, kinds of exception, nested use',
     'The tests do not use callbacks that fail.',
     [CPP + 'libtomo.cpp', CPP + 'kick_and_drift.cpp', CPP + 'reconstruct.cpp', L + 'tracking/tracking.py', L + 'tomography/tomography.py'],
     [('callback arguments of the native calls', CPP + 'libtomo.cpp')],
     ['the recorded trace of reports with thread, argument and order', 'the exception that comes out'],
     'online trace checker over recorded reports; exceptions injected at every report; AddressSanitizer', '')

prop('P17', 'Calls do not change what the caller owns, and results depend on values only',
     """No function changes the contents of the arrays or objects it is given beyond its documented effect, and results depend only on the values: not on memory layout, read-only
     flags, element type of exactly representable values or on what the same objects did before, including operations that were refused or
     interrupted. Using objects again gives the results of fresh objects. What an object was given stays as it was given even if the caller reuses the
     array, and results that were handed out do not change in later calls.""",
     ['inputs', 'histories', 'configurations'],
     'all public array functions and layouts; all sequences of operations on long-lived machine, tracker, particle and reconstruction objects',
     'The tests use fresh objects and contiguous arrays only.',
     [L + 'tracking/tracking.py', L + 'tracking/particles.py', L + 'tomography/tomography.py', L + 'data/data_treatment.py', CPP + 'libtomo.cpp', L + 'utils/tomo_output.py'],
     [('copies made before the native calls', L + 'tracking/tracking.py'), ('array conversion of the bindings', CPP + 'libtomo.cpp')],
     ['bytes of all argument buffers before and after', 'results of long-lived and of fresh objects'],
     'buffer-integrity monitor and history-versus-fresh differential monitor over random operation sequences', '')

prop('P18', 'The precision setting changes precision and nothing else',
     """After switching to single precision, tracking and reconstruction return single precision arrays whose values agree with double precision to single precision
     accuracy; in double precision, arrays are double. Switching back and forth in any order leaves no trace in later double precision
     results.""",
     ['configurations', 'histories', 'inputs'],
     'all routes, shapes, rf configurations and sequences of switches',
     'The tests run in double precision, or compare one example loosely.',
     [L + 'utils/tomo_config.py', L + 'tracking/tracking.py', L + 'tomography/tomography.py', CPP + 'libtomo.cpp'],
     [('AppConfig', L + 'utils/tomo_config.py'), ('typed overloads of the bindings', CPP + 'libtomo.cpp')],
     ['types and values of results in both precisions'],
     'differential monitor against a double precision model with tolerances measured on the model',
     'CPU only.')

prop('P19', 'Invalid input is refused with the documented error and changes nothing',
     """Machine parameters, frame settings, raw data, waterfalls, particle coordinates, starting profiles, percentages and cuts outside of their documented range, shape
     or completeness are refused with the documented exception wherever the fault sits, and the object concerned is left as it was; values on the edge of the valid range
     are accepted. Range checks decide exactly as defined, and those of arrays name the elements at fault.""",
     ['inputs', 'fault_sequences'],
     'all parameters, all positions of one bad element in arrays of many sizes and types, values on and next to every edge',
     'The tests try one bad value per parameter.',
     [L + 'assertions.py', L + 'exceptions.py', L + 'tracking/machine.py', L + 'tracking/particles.py', L + 'tomography/__tomography.py', L + 'utils/tomo_input.py', L + 'data/profiles.py'],
     [('assertion helpers', L + 'assertions.py'), ('setters with checks', L + 'tomography/__tomography.py')],
     ['class of the exception, and the state of the object afterwards'],
     'fault injection with an exception-class and object-state monitor', 'NaN machine parameters are not covered.')

prop('P20', 'Beam parameters of an image follow their definitions',
     """Rms emittance, fractional emittances and momentum spread computed from a phase-space image are those of its density on the given axes, whatever the shape,
     units and offsets of the axes, and the combined call returns the same numbers as the single ones. They do not depend on the scale of the density, grow with the fraction asked for, and
     fractions outside of 0 to 100 are refused.""",
     ['inputs'],
     'all images, axes and fractions',
     'The tests pin one image.',
     [L + 'data/post_process.py'],
     [('emittance_rms, emittance_fractional, rms_dpp', L + 'data/post_process.py')],
     ['values returned by every public route'],
     'online comparison with the definitions, metamorphic relations',
     'Known findings stdmean (mean of a histogram) and fracbin (one cell less) are accepted exactly as recorded.')

prop('P21', 'Self-fields follow from the profiles and act on particles as documented',
     """Self-field voltages of each profile are the documented coefficient times the derivative of the line density, per turn phase wrapped as documented, proportional to the charge. Tracking with fields equals
     turn-by-turn tracking in which each kick also includes the field of the profile interval it belongs to at the particle's bin; zero fields give ordinary
     tracking, and particles do not influence each other.""",
     ['inputs', 'configurations'],
     'all machines, profiles, charges, fields and starting profiles',
     'The tests pin one example.',
     [L + 'data/profiles.py', L + 'tracking/tracking.py', L + 'utils/physics.py'],
     [('calc_self_fields', L + 'data/profiles.py'), ('kick_and_drift_self', L + 'tracking/tracking.py')],
     ['fields, wrapping and all tracked coordinates'],
     'online comparison with a sequential model; metamorphic relations',
     'Known finding selfdir (direction of the field going backward) is accepted exactly as recorded.')

prop('P22', 'A complete run finds the beam and equals its parts',
     """For a measurement made from a known beam, the complete run returns an image that resembles that beam at the reconstructed profile, with the right axes, position and orientation. The run, the same steps through
     the public interface, the shortcuts and the command line programs give the same image, profiles and discrepancies in what they return and write. The scale of the data,
     a constant pedestal and the contents of skipped frames and bins have no influence on the image.""",
     ['inputs', 'configurations'],
     'all machines, beams, frame settings, rebinning and routes',
     'The tests run stored examples and compare with stored numbers.',
     [L + 'utils/tomo_run.py', L + 'utils/tomo_input.py', L + 'utils/tomo_output.py', L + 'shortcuts.py', L + '__main__.py', L + 'compat/tomoscope.py'],
     [('run', L + 'utils/tomo_run.py'), ('shortcuts', L + 'shortcuts.py')],
     ['returned image and axes, files, standard output'],
     'end-to-end recovery of synthetic beams; differential monitor between routes; metamorphic inputs', '')

prop('P23', 'The fitted synchronous position is where the potential puts it',
     """The fit returns as bunch limits the zero crossings of the tangents to both edges of the bunch in the beam reference profile, and as synchronous position the one at which the rf potential of
     that turn is equal at both limits, inside of the bunch. It moves with the data, does not depend on its scale or on other profiles, finds a beam matched to the bucket where
     it is, and loading it sets position and limits of the machine.""",
     ['inputs', 'configurations'],
     'all machines (both sides of transition, signs of charge, ramps, second rf systems, reference profiles) and bunch shapes',
     'The tests fit one profile of one machine.',
     [L + 'data/pre_process.py', L + 'utils/physics.py', L + 'tracking/machine.py'],
     [('fit_synch_part_x, tangent feet', L + 'data/pre_process.py'), ('phase_low, dphase_low', L + 'utils/physics.py')],
     ['the three values returned, and the machine after loading them'],
     'online comparison with bisection on the potential; metamorphic relations; matched beams', 'One bunch with at least two bins of tail on either side.')

prop('P24', 'Cuts and the filter of empty profiles keep exactly the part with beam',
     """Proposed cuts lie inside of the waterfall and enclose every change above the threshold with the margin asked for; cutting returns exactly the bins between the edges, with negative right edges counted from the end, and refuses edges that are crossed or outside. Dropping empty profiles
     keeps exactly the profiles with beam in their order, normalised by the total, takes the same columns out of the coordinates and moves the reconstructed profile by the number dropped. Inputs are
     not changed.""",
     ['inputs', 'configurations'],
     'all waterfalls, thresholds, margins, edges and patterns of empty profiles',
     'The tests use one or two fixed waterfalls.',
     [L + 'data/pre_process.py'],
     [('get_cuts, cut_waterfall, filter_profiles', L + 'data/pre_process.py')],
     ['cuts, cut waterfalls, filtered arrays, errors'],
     'online comparison with exact slicing models; chained use', 'The right edge proposed may include one bin more than the margin.')

prop('P26', 'Bunch analysis tools agree with what they measure',
     """Foot-tangent fits return the zero crossings of the least-squares lines through the documented edge points (exactly the feet of straight edges) and refuse profiles without edges. Matched area, density
     versus emittance, fractional emittance and rms parameters are those of the separatrix contours and densities of the given image, monotonous where they
     have to be. Weight clipping takes the weight of the particles outside of the contour and spreads it in proportion over those inside, keeping the total.""",
     ['inputs', 'configurations'],
     'all profiles and images; stationary buckets above transition with one rf system',
     'The tests do not reach these tools.',
     [L + 'utils/tomographics.py'],
     [('foot_tangent_fit, matched_area_calc, density_vs_emittance, tomo_weight_clipping', L + 'utils/tomographics.py')],
     ['returned limits, areas, densities, weights'],
     'online comparison with numerical integration and counting models; metamorphic relations', 'Area tools: stationary bucket above transition, one rf system, positive charge.')

prop('P27', 'The GPU route gives the results of the CPU route',
     """With a GPU enabled, tracking, the conversion to bins, the removal of lost particles, reconstruction (weights, discrepancies, recreated profiles) and the phase space image
     give what the CPU gives, within rounding of the chosen precision, for every number of particles, profiles, bins and iterations, every block size of the device,
     both precisions and every reconstructed profile; results are arrays of the device in the chosen precision and arguments are left alone. The kernels
     neither race nor reach beyond their arrays. Any sequence of switches between device, CPU and precision ends in what the last ones say;
    kernels that are missing are compiled first, and a compiler that is absent or fails is the documented error and leaves
    the CPU in use.""",
     ['inputs', 'schedules', 'configurations', 'histories'],
     'all inputs, launch configurations, thread schedules and sequences of switches',
     'The GPU tests are skipped without a GPU, use a handful of examples and one size, and cannot see races or stale kernels.',
     [L + 'cuda_kernels/', L + 'python_routines/', L + 'utils/tomo_config.py', L + 'tomography/tomography.py', L + 'tracking/tracking.py'],
     [('kernels', L + 'cuda_kernels/'), ('their launch and the array routines', L + 'python_routines/'), ('switching', L + 'utils/tomo_config.py')],
     ['arrays returned with GPU enabled', 'device and precision reported', 'sanitizer reports of the kernels'],
     'the real kernels executed on an emulated device under address, undefined-behaviour and thread sanitizers, with differential monitors against sequential models',
     'No GPU in the sandbox: CuPy and nvcc are stand-ins (every device thread is a host thread), so memory hierarchy, warps and the device mathematics library are not covered; no self-fields or callbacks (not offered on the GPU).')

NOT = []
