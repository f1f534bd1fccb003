"""The property list. `python3 tools/props.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, technique=technique, note=note))


P('C01', 'Linear systems are solved exactly by every matrix backend',
  'For any system of linear relations between ports (any sparsity pattern, loops, self-loops, unreachable parts, '
  'scalar or array valued edges), every transfer and every solution field the solver returns equals that of the '
  'inverse matrix, whichever backend is used. Scalar and array sweeps of the same system give the same numbers, '
  'and a solvable system never fails to solve.',
  ['inputs', 'configurations'],
  'all solvable sparse complex systems up to 40 nodes, all subsets of inputs and outputs, array lengths 1-4',
  'the tests solve a few fixed graphs; pivot order, elimination and renormalisation depend on the pattern and the values',
  ['phasor/matrix/DAG_algorithm.py', 'phasor/matrix/DAG_algorithm_impl.py', 'phasor/matrix/scisparse_algorithm.py',
   'phasor/matrix/graph_algorithm.py', 'phasor/matrix/solvers_registry.py', 'phasor/system/solver_algorithm.py'],
  [('graph elimination (LUQ)', 'phasor/matrix/DAG_algorithm_impl.py'), ('sparse LU backend', 'phasor/matrix/scisparse_algorithm.py'),
   ('fast graph inverse', 'phasor/matrix/graph_algorithm.py')],
  'property-based testing: random sparse systems against a dense numpy inverse',
  'Exploration against dense LAPACK inversion; ill-conditioned systems (cond > 1e7) are discarded.')

P('C04', 'Linear circuits obey Kirchhoff and the constitutive laws of their elements',
  'For every network of resistors, capacitors, inductors, sources, cables and amplifiers that has a solution, the voltage '
  'and current every readout reports, at DC and at every frequency, equal those of nodal analysis of the same netlist, '
  'however its ports are bonded together. Op-amp and voltage-amplifier networks follow their finite-gain relations.',
  ['inputs', 'configurations'],
  'all netlists of up to 5 nodes and 10 elements, all bond topologies (star, chain, tree, connection objects), all frequencies',
  'the tests cover dividers and single loops; general meshes, bonding shapes and element mixes are not sampled',
  ['phasor/electronics/passive.py', 'phasor/electronics/smatrix.py', 'phasor/electronics/sources.py',
   'phasor/electronics/multimeter.py', 'phasor/electronics/opamps.py', 'phasor/electronics/elements.py', 'phasor/electronics/ports.py'],
  [('element scattering matrices', 'phasor/electronics/passive.py'), ('sources', 'phasor/electronics/sources.py'),
   ('multi-port bonds', 'phasor/system/ports_algorithm.py'), ('readout of V and I', 'phasor/electronics/multimeter.py')],
  'property-based testing: random netlists against a modified-nodal-analysis oracle',
  'Exploration; singular or ill-conditioned netlists are discarded; balanced current sources and ideal in-amps are not claimed.')

P('C05', 'Electrical noise spectra obey the thermal law and superpose',
  'Every spectral density and cross spectral density reported for a circuit equals the sum over its resistors of 4kT R '
  'times the squared transfer, plus that of each declared fluctuation, under the declared one- or two-sided convention. '
  'The per-source contributions add up to the total, spectra are real and non-negative and cross spectra Hermitian.',
  ['inputs', 'configurations'],
  'all netlists as in C04 with up to two declared noise sources, all readout pairs, both conventions',
  'the tests check one or two resistors in isolation',
  ['phasor/readouts/noise.py', 'phasor/readouts/AC.py', 'phasor/electronics/noise.py', 'phasor/electronics/passive.py',
   'phasor/electronics/multimeter.py', 'phasor/base/multi_unit_args.py'],
  [('noise accumulation', 'phasor/readouts/noise.py'), ('Johnson noise injection', 'phasor/electronics/passive.py'),
   ('declared fluctuations', 'phasor/electronics/noise.py')],
  'property-based testing: random noisy netlists against nodal analysis with thermal emfs',
  'Exploration; the Boltzmann constant is trusted to 3e-5, temperatures to the system default.')

P('C12', 'Static light fields and powers solve the interference of the whole network',
  'For every network of mirrors, beamsplitters, spaces, lasers and detectors with a steady state, the power every '
  'detector reports equals that of the coherent superposition of all paths, for each carrier and polarization summed '
  'incoherently. It does not depend on the order or direction in which the network was put together.',
  ['inputs', 'configurations'],
  'all networks of up to 4 mirrors (losses, phases, backscatter, arbitrary AOI), any wiring, up to 3 lasers, 2 carriers, 2 polarizations, swept detunings',
  'the tests cover single cavities and one Michelson; coupled loops, losses, flips and reflection phases are not sampled',
  ['phasor/optics/mirror.py', 'phasor/optics/space.py', 'phasor/optics/laser.py', 'phasor/optics/photodiode.py',
   'phasor/optics/vacuum.py', 'phasor/optics/ports.py', 'phasor/system/solver_algorithm.py', 'phasor/readouts/DC.py'],
  [('mirror scattering', 'phasor/optics/mirror.py'), ('propagation phases', 'phasor/optics/space.py'),
   ('power detection', 'phasor/optics/photodiode.py'), ('perturbative solver, DC order', 'phasor/system/solver_algorithm.py')],
  'property-based testing: random interferometers against a dense scattering-matrix oracle',
  'Exploration; near-singular networks (condition > 1e7) are discarded.')

P('C13', 'Audio-frequency optical responses are the linearisation of the light fields',
  'For every network as in C12, the transfer from any mirror displacement, amplitude or phase modulation to any detector, '
  'at every frequency, equals the first-order response of the interfering fields including all propagation delays. '
  'Array sweeps of the frequency give the same numbers.',
  ['inputs', 'configurations'],
  'all networks of up to 4 mirrors, all drives (mirror motion, AM, PM), all detectors, frequencies 1 Hz - 100 kHz',
  'the tests check isolated cavities at a few frequencies; sideband pairing and conjugation errors only show in detuned, coupled or multi-carrier networks',
  ['phasor/optics/mirror.py', 'phasor/optics/modulators.py', 'phasor/optics/space.py', 'phasor/optics/photodiode.py',
   'phasor/readouts/AC.py', 'phasor/optics/nonlinear_utilities.py', 'phasor/system/solver_algorithm.py'],
  [('mirror motion coupling', 'phasor/optics/mirror.py'), ('modulators', 'phasor/optics/modulators.py'),
   ('bilinear detection', 'phasor/optics/photodiode.py'), ('AC readout', 'phasor/readouts/AC.py')],
  'property-based testing: random interferometers against a two-sideband perturbation oracle',
  'Exploration; near-singular networks are discarded; the depth convention of PM (phase = drive/2) is taken as phasor defines it.')

P('C14', 'Quantum noise of detected light obeys vacuum statistics',
  'For every network as in C12, the noise density of any detector and the cross density of any two equal the vacuum '
  'fluctuations of every open port and every loss, one per carrier and polarization, propagated to the detectors. '
  'An end detector never sees less or more than the shot noise 2 h nu P without squeezing, and the per-source parts add up to the total.',
  ['inputs', 'configurations'],
  'all networks of up to 4 mirrors with losses, backscatter and unterminated ports, all detector pairs, frequencies 1 Hz - 100 kHz',
  'the tests check shot noise in one or two layouts; a missing or doubled vacuum source only shows in particular topologies',
  ['phasor/optics/vacuum.py', 'phasor/optics/mirror.py', 'phasor/optics/photodiode.py', 'phasor/optics/laser.py',
   'phasor/readouts/noise.py', 'phasor/readouts/AC.py', 'phasor/base/autograft.py'],
  [('vacuum injection at terminators and losses', 'phasor/optics/vacuum.py'), ('loss vacuum', 'phasor/optics/mirror.py'),
   ('noise accumulation', 'phasor/readouts/noise.py')],
  'property-based testing: random interferometers against an explicit vacuum-source oracle and the shot-noise identity',
  'Exploration; h is trusted to 1e-5.')

P('C18', 'Radiation pressure closes the optical and mechanical loop self-consistently',
  'For every network with suspended full reflectors, the static light force on each is 2P cos(AOI)/c of the incident power, '
  'and every transfer and noise density equals that of the optical response and the mechanical susceptibility connected '
  'in closed loop, ponderomotive noise included.',
  ['inputs', 'configurations'],
  'all networks of up to 6 mirrors with one or two suspended (mass, mass and spring) reflectors lit from the front, powers to 10 MW, frequencies 1 Hz - 10 kHz',
  'the tests look at one cavity; the loop sign, the two sidebands and the pairing of several suspended mirrors need detuned and coupled networks',
  ['phasor/optics/mirror.py', 'phasor/mechanical/elements.py', 'phasor/mechanical/ports_driven.py',
   'phasor/mechanical/passive.py', 'phasor/optics/photodiode.py', 'phasor/system/solver_algorithm.py'],
  [('force and displacement couplings', 'phasor/optics/mirror.py'), ('mechanical port drive', 'phasor/mechanical/ports_driven.py'),
   ('perturbative solver', 'phasor/system/solver_algorithm.py')],
  'property-based testing: random optomechanical networks against an open-loop oracle closed algebraically',
  'Exploration; partly transmitting suspended mirrors, back-side light and the absolute susceptibility are known findings and not claimed.')

P('C03', 'A simulation given arrays equals the stack of the simulations of its points',
  'Giving any parameter (frequency, component value, angle, length, power, phase, drive level) as an array yields every '
  'readout and spectrum, at every point, exactly as a simulation of that point alone would. Several arrays of any mutually '
  'compatible shapes are swept together by broadcasting, whichever parameters they belong to.',
  ['inputs', 'configurations'],
  'all electrical, mechanical and optical networks of the other checks, 1-3 swept parameters, broadcast shapes of up to three axes',
  'the tests sweep one parameter along one axis of a few fixed systems',
  ['phasor/matrix/DAG_algorithm_impl.py', 'phasor/matrix/scisparse_algorithm.py', 'phasor/system/solver_algorithm.py',
   'phasor/system/matrix_algorithm.py', 'phasor/readouts/noise.py', 'phasor/readouts/AC.py', 'phasor/readouts/DC.py',
   'phasor/electronics/sources.py', 'phasor/mechanical/sources.py', 'phasor/optics/mirror.py'],
  [('array-valued elimination', 'phasor/matrix/DAG_algorithm_impl.py'), ('noise totals over sweeps', 'phasor/readouts/noise.py'),
   ('array-valued sources', 'phasor/electronics/sources.py')],
  'property-based testing: metamorphic relation, swept network against the stack of its points',
  'Exploration; systems that are ill-conditioned at any point of the sweep are discarded.')

P('C07', 'Mechanical networks obey Newton and the constitutive laws of their elements',
  'For every network of masses, springs, dampers, levers, strings, delay lines, piezo actuators and sources that has a '
  'solution, the displacement and force every readout reports, statically and at every frequency, equal those of the '
  'equations of motion, however its terminals are bonded. Electrical and mechanical sides of an actuator react on each other reciprocally.',
  ['inputs', 'configurations'],
  'all networks of up to 5 nodes and 9 elements, all bond topologies, static and dynamic drives',
  'the tests cover single masses, springs and pendula',
  ['phasor/mechanical/passive.py', 'phasor/mechanical/smatrix.py', 'phasor/mechanical/sources.py', 'phasor/mechanical/elements.py',
   'phasor/mechanical/string.py', 'phasor/mechanical/xyz.py', 'phasor/mechanical/multimeter.py', 'phasor/transducers/PZT.py',
   'phasor/mechanical/ports_driven.py'],
  [('element scattering matrices', 'phasor/mechanical/passive.py'), ('impedance steps and strings', 'phasor/mechanical/string.py'),
   ('piezo coupling', 'phasor/transducers/PZT.py'), ('levers', 'phasor/mechanical/xyz.py')],
  'property-based testing: random mechanical networks against a tableau of the equations of motion',
  'Exploration; singular and ill-conditioned networks are discarded; balanced force sources and moment drivers are not claimed.')

P('C08', 'Mechanical thermal noise obeys the fluctuation-dissipation theorem',
  'The displacement noise reported at any point of a passive network is fixed by the dissipative part of its own response to '
  'a force there. Every displacement and force spectrum and cross spectrum equals the sum over lossy elements and declared '
  'fluctuations of their densities times the products of their transfers, in the declared one- or two-sided convention.',
  ['inputs', 'configurations'],
  'all mechanical networks of C07 with lossy springs and dampers, up to two declared fluctuations, both conventions',
  'the tests compute the thermal noise of one damped pendulum',
  ['phasor/mechanical/passive.py', 'phasor/mechanical/noise.py', 'phasor/readouts/noise.py', 'phasor/mechanical/multimeter.py'],
  [('thermal noise of dampers and lossy springs', 'phasor/mechanical/passive.py'), ('declared fluctuations', 'phasor/mechanical/noise.py')],
  'property-based testing: fluctuation-dissipation relation and a tableau oracle on random networks',
  'Exploration; the Boltzmann constant is trusted to 3e-5, the temperature is the library default.')

P('C11', 'Passive optics conserve energy, are reciprocal and preserve shot noise',
  'In every network of passive optics the light power reaching all detectors equals what the lasers emit less what the '
  'declared losses absorb. Without non-reciprocal elements, exchanging a source and a detector leaves the transmission '
  'unchanged, and light that met only passive optics carries the shot noise of its own power, uncorrelated between detectors.',
  ['inputs', 'configurations'],
  'all networks of up to 6 mirrors, splitters, rotators, wave plates, dichroics and circulators in any arrangement, one or two carriers',
  'the tests check single optics or one cavity',
  ['phasor/optics/mirror.py', 'phasor/optics/selective_mirrors.py', 'phasor/optics/polarization.py', 'phasor/optics/circulator.py',
   'phasor/optics/vacuum.py', 'phasor/optics/laser.py', 'phasor/optics/space.py'],
  [('mirror scattering', 'phasor/optics/mirror.py'), ('vacuum at every open or lossy port', 'phasor/optics/vacuum.py'),
   ('polarization optics', 'phasor/optics/polarization.py')],
  'property-based testing: conservation, reciprocity and shot noise invariants over random optical networks',
  'Exploration; mirrors with backscatter phases (not unitary by construction, pinned by tests) are not claimed.')

P('C15', 'Polarization optics follow Jones calculus',
  'In every network of rotators, wave plates, Faraday rotators and polarizing or ordinary optics the power and the '
  'modulation response at each detector equal those of Jones calculus at the declared angles, for light travelling in either '
  'direction. Reciprocal rotations undo themselves on the way back and Faraday rotations add up.',
  ['inputs', 'configurations'],
  'all networks of up to 5 such elements, all angles including the special ones, single angles and arrays of angles',
  'the tests use one element at a few angles',
  ['phasor/optics/polarization.py', 'phasor/optics/selective_mirrors.py', 'phasor/optics/mirror.py'],
  [('rotators and wave plates', 'phasor/optics/polarization.py'), ('polarizing mirrors', 'phasor/optics/selective_mirrors.py')],
  'property-based testing: random polarization networks against a Jones-matrix oracle',
  'Exploration; networks without a well conditioned steady state are discarded.')

P('C16', 'Light is routed by direction, wavelength and polarization as declared',
  'Circulators pass each entering beam to the next port only, dichroic mirrors act on each harmonic with the mirror declared '
  'for it, and selectors send each polarization or wavelength to its own port. Powers and modulation responses of any '
  'network of these equal the superposition over all paths.',
  ['inputs', 'configurations'],
  'all networks of up to 6 circulators, selectors, dichroic mirrors and mirrors, up to four lasers on two harmonics',
  'the tests route one beam through one circulator',
  ['phasor/optics/circulator.py', 'phasor/optics/selective_mirrors.py', 'phasor/optics/selectors.py', 'phasor/optics/mirror.py'],
  [('circulators', 'phasor/optics/circulator.py'), ('wavelength and polarization selectors', 'phasor/optics/selectors.py'),
   ('dichroic mirrors', 'phasor/optics/selective_mirrors.py')],
  'property-based testing: random routing networks against a path-superposition oracle',
  'Exploration; light that enters a port of a selector reserved for something else is not specified and not judged.')

P('C02', 'Answers do not depend on how a system is presented',
  'Every reading of a system stays the same when its elements are renamed, nested in containers, added or bonded in another '
  'order or direction, bonded through ports exposed on other elements or by bond_sequence, solved by another backend, or read '
  'in another order or twice. Adding parts that are not connected to it, and more readouts, changes nothing either.',
  ['inputs', 'configurations'],
  'random circuits, mechanical and optical networks with DC, AC and noise readings, random second presentations of each',
  'the tests build every system once, one way; hash and name order decide the elimination order',
  ['phasor/system/system.py', 'phasor/system/ports_algorithm.py', 'phasor/system/matrix_algorithm.py', 'phasor/system/solver_algorithm.py',
   'phasor/base/autograft.py', 'phasor/base/bases.py', 'phasor/base/ports.py', 'phasor/readouts/AC.py', 'phasor/readouts/DC.py',
   'phasor/readouts/noise.py'],
  [('bonding and inclusion', 'phasor/system/system.py'), ('port propagation', 'phasor/system/ports_algorithm.py'),
   ('element tree and names', 'phasor/base/autograft.py'), ('indirect ports', 'phasor/base/ports.py')],
  'property-based testing: metamorphic relation between two presentations of a random system',
  'Exploration; tolerances follow the condition number of an independent oracle matrix.')

P('C19', 'Optical layouts have the ray matrices of their elements in order',
  'For every layout of spaces, thin lenses, mirrors, thick lenses and generic elements, nested and reversed in any way and given '
  'in any units, the matrix across it, between any two elements and from any element to any position is that of tracing a '
  'paraxial ray through the elements in order of position. Positions and widths add up the same way.',
  ['inputs', 'configurations'],
  'all layouts of up to three levels and five elements per level, five substrates, two wavelengths, six length units',
  'the tests trace one cavity and one telescope; reversal inside reversal, thick lenses and mixed units are not sampled',
  ['phasor/alm/system.py', 'phasor/alm/bases.py', 'phasor/alm/space.py', 'phasor/alm/composites.py', 'phasor/alm/substrates.py',
   'phasor/alm/standard_attrs.py', 'phasor/alm/utils.py', 'phasor/base/multi_unit_args.py'],
  [('composition of matrices', 'phasor/alm/system.py'), ('elements', 'phasor/alm/bases.py'), ('thick optics', 'phasor/alm/composites.py')],
  'property-based testing: random nested layouts against an independent paraxial ray tracer',
  'Exploration; matrices up to 1e5 in size; slopes are index-weighted, as Space has them.')

P('C20', 'Gaussian beam parameters follow the Gaussian beam formulas',
  'For every complex beam parameter, its widths, curvature, waist, divergence and Gouy phase, made any way and propagated through '
  'any train of gaps and lenses, equal those of the Gaussian beam. Overlaps of two beams equal the mode-overlap integral, are '
  'symmetric, at most one and unchanged by common optics; printed profiles have the stated width, curvature, offset and norm.',
  ['inputs'],
  'waists over five decades, trains of up to five elements, four wavelengths, pairs of beams',
  'the tests never evaluate a beam parameter on its own',
  ['phasor/alm/beam_param.py', 'phasor/math/complex.py', 'phasor/math/dispatched.py', 'phasor/alm/utils.py'],
  [('beam parameter', 'phasor/alm/beam_param.py')],
  'property-based testing: random beams against second-moment propagation and overlap integrals',
  'Exploration; profiles are integrated numerically on a grid.')

P('C21', 'Beams in a layout are the propagated beams of their targets',
  'In every layout, the beam parameter, width, Gouy phase and overlap reported at any position (given in any order or array shape), '
  'at any element or between any targets equal those of propagating the source beam through the elements between them. The listed '
  'lenses, mirrors, waists and targets are those of the layout, and a cavity target repeats itself after a round trip.',
  ['inputs', 'configurations'],
  'layouts as in C19 with one to four targets in nested and reversed systems, random stable cavities, position arrays',
  'the tests check one cavity and one overlap; targets in reversed systems, position arrays and listings are not sampled',
  ['phasor/alm/measurements.py', 'phasor/alm/target.py', 'phasor/alm/system.py', 'phasor/alm/space.py', 'phasor/alm/composites.py',
   'phasor/alm/beam_param.py', 'phasor/alm/utils.py', 'phasor/alm/bases.py'],
  [('measurements', 'phasor/alm/measurements.py'), ('targets and cavities', 'phasor/alm/target.py')],
  'property-based testing: random layouts with targets against an independent ray tracer',
  'Exploration; waists within rounding of an edge are not judged, and waist lists only with one target.')

P('C22', 'Parameters mean the same in any unit, and systems regenerate unchanged',
  'A parameter given in any supported unit, as a quantity, as another parameter or in the configuration tree has one value in every unit it '
  'is read in, and contradictory or dimensionally wrong values are refused. A system regenerated any number of times, before or after being '
  'solved, gives the readings of the original; with an edited configuration it gives those of the system built with the edited values, and '
  'it can be built on further. Replicas have the parameters of their prototype.',
  ['inputs', 'histories', 'configurations'],
  'eleven kinds of parameters in every unit; optical, electrical, mechanical and signal networks and layouts, regenerated up to five times '
  'with readings, edits and extensions in between',
  'the tests regenerate nothing twice and give parameters in one or two units',
  ['phasor/base/multi_unit_args.py', 'phasor/base/simple_units.py', 'phasor/base/autograft.py', 'phasor/base/units.py', 'phasor/system/system.py',
   'phasor/optics/ports.py', 'phasor/electronics/ports.py', 'phasor/mechanical/ports.py', 'phasor/signals/ports.py'],
  [('units', 'phasor/base/multi_unit_args.py'), ('regeneration', 'phasor/base/autograft.py')],
  'stateful property-based testing: random histories of edits, readings and regenerations against freshly built systems; unit table oracle',
  'Exploration; a parameter given twice under two names for the same unit is not judged, nor are overrides passed to replicas.')

P('C23', 'Keys and keyed algebra label and combine entries as what they stand for',
  'Frequency keys add, negate and multiply like integer combinations of their frequencies, and equal combinations are one key however written. '
  'Field keys, keyed vectors and matrices, and stacked entries behave as mappings whose sums, products and selections are those of the dense arrays they label, '
  'leaving their operands unchanged; the maps of sparse scattering equations likewise, and the priority queue yields in order.',
  ['inputs', 'histories'],
  'random expressions of depth three over three frequencies, key sets of up to four keys, maps of up to four nodes, queue histories',
  'the tests touch these types only through a few simple networks',
  ['phasor/base/dictionary_keys.py', 'phasor/math/key_matrix/keymatrix.py', 'phasor/matrix/SRE_matrix_algorithms.py',
   'phasor/utilities/priority_queue/heap_priority_queue.py'],
  [('frequency and field keys', 'phasor/base/dictionary_keys.py'), ('keyed arrays', 'phasor/math/key_matrix/keymatrix.py'),
   ('scattering maps', 'phasor/matrix/SRE_matrix_algorithms.py')],
  'property-based testing: differential against plain dictionaries, integer vectors and dense matrices; stateful for the queue',
  'Exploration; the order among field keys is not judged.')

P('C24', 'Measured and projected beams are the beams that were measured or projected',
  'A beam fitted to widths in any unit and order is the beam that has these widths, and for noisy widths the one of least squared deviation. '
  'Measured and projected targets placed in a layout, directly, nested, reversed or by reference, have there and everywhere else the beam '
  'parameter that ray tracing through the layout gives.',
  ['inputs', 'configurations'],
  'profiles of six to ten widths around the waist, random nested and reversed layouts of C19 with up to three targets',
  'the tests fit one profile and do not trace the result through a layout',
  ['phasor/alm/beam_fit.py', 'phasor/alm/projected_target.py', 'phasor/alm/target.py', 'phasor/alm/beam_param.py', 'phasor/alm/measurements.py'],
  [('fit', 'phasor/alm/beam_fit.py'), ('projected targets', 'phasor/alm/projected_target.py')],
  'property-based testing: round trip through closed-form widths; differential against a ray tracer; optimality of least squares by perturbation',
  'Exploration; profiles always resolve the waist (elsewhere the fit has local minima).')

P('C25', 'Design helpers compute what they stand for',
  'Filters given by poles and zeros multiply, divide, invert and convert as their transfer functions do; designed boosts, controllers and optimum '
  'filters have the gain, crossing and monotony they are designed for. Phases, delays, magnitudes, bits, orders and limits taken from data are '
  'those of the data, and stacked linear systems are solved element by element.',
  ['inputs'],
  'random root sets, design frequencies over seven decades, orders to fourteen, arrays of up to thirty entries',
  'the tests do not call these helpers',
  ['phasor/signals/power_loops.py', 'phasor/signals/ZPSOS.py', 'phasor/signals/filters/legendre_filters.py', 'phasor/optics/tools/polizarization_circulation.py',
   'phasor/utilities/np.py', 'phasor/matrix/linalg.py', 'phasor/math/numerics.py'],
  [('roots and boosts', 'phasor/signals/power_loops.py'), ('data helpers', 'phasor/utilities/np.py')],
  'property-based testing: closed-form transfer functions, defining inequalities of the designs, round trips, element-by-element differential',
  'Exploration.')

P('C27', 'Fitting sees the layout as it is at every value of the fitted parameters',
  'Whatever parameters of a layout are fitted, the figure and the matrices the fitter works with are, at any values of them, those of the '
  'layout built with these values, and with jitter their mean over the shifted layouts. A fit reports the values it found in the units asked '
  'for, puts them into the layout it returns, changes nothing else, keeps the elements in order, and can be continued. From nearly matched '
  'starts it recovers the match.'.replace('continued. From', 'continued; from'),
  ['inputs', 'parameter values', 'histories'],
  'any lengths, positions, focal lengths and radii of nested layouts in any unit, up to four at once, plain or jittered',
  'the tests run two fits and compare nothing',
  ['phasor/fitting/casadi/fitter.py', 'phasor/fitting/casadi/expressions.py', 'phasor/fitting/casadi/symbolics.py', 'phasor/base/simple_units.py',
   'phasor/alm/system.py', 'phasor/alm/bases.py', 'phasor/alm/beam_param.py', 'phasor/math/dispatch_casadi.py', 'phasor/math/complex.py'],
  [('symbols', 'phasor/fitting/casadi/fitter.py'), ('figure', 'phasor/fitting/casadi/expressions.py')],
  'property-based testing: symbolic expressions evaluated at random values against independently traced layouts built with them',
  'Exploration; how good a fit gets is judged over batches only (the optimiser is a local one); transfer-function fits are not covered.')

P('C28', 'The library complex number behaves as a complex number',
  'Every expression of the complex type and of python or numpy numbers, with either operand order, has the value the same expression '
  'of built-in complex numbers has: sums, products, quotients, powers, conjugates, magnitudes, angles, exponentials and comparison. '
  'An array inside the type behaves as the stack of its elements.',
  ['inputs'],
  'random expressions of depth three over mixed number types, integer and fractional powers, arrays of two to four elements',
  'the tests use the type only through a few beam parameters',
  ['phasor/math/complex.py', 'phasor/math/dispatched.py', 'phasor/math/dispatch_defaults.py'],
  [('arithmetic', 'phasor/math/complex.py'), ('function dispatch', 'phasor/math/dispatched.py')],
  'property-based testing: differential against built-in complex arithmetic',
  'Exploration; intermediate values up to 1e12.')

P('C09', 'Signal-flow networks follow their block diagram',
  'For every network of gains, filters, delays, integrators, sums, matrix amplifiers, state-space models and nodes with a solution, each '
  'transfer the readouts report, closed or open loop, equals that of the block diagram solved as linear equations at that frequency. '
  'Spectra of noise added anywhere follow from the same transfers, and a block is silent exactly outside its declared band.',
  ['inputs', 'configurations'],
  'random diagrams of up to six blocks with feedback, all port pairs, one to three frequencies, one- and two-sided noise',
  'the tests check a single filter and one loop',
  ['phasor/signals/siso_filter.py', 'phasor/signals/mimo_filter.py', 'phasor/signals/state_space.py', 'phasor/signals/amplifiers.py',
   'phasor/signals/noise.py', 'phasor/readouts/AC.py', 'phasor/readouts/noise.py', 'phasor/system/ports_algorithm.py'],
  [('filters', 'phasor/signals/siso_filter.py'), ('multi-port blocks', 'phasor/signals/mimo_filter.py'), ('open-loop readout', 'phasor/readouts/AC.py')],
  'property-based testing: random block diagrams against a dense linear solve',
  'Exploration; near-singular loops discarded; limits of single-channel filters refer to the nominal audio frequency (1 kHz).')

P('C10', 'Mixers, modulators and generators multiply signals as spectra do',
  'For every feed-forward network of generators, mixers, modulators, harmonic generators, mean-square meters and frequency-selecting '
  'blocks, the mean and the audio transfer reported at every node equal those of the product of the line spectra of its inputs. '
  'Noise is carried to a readout from every line it beats with.',
  ['inputs', 'configurations'],
  'random networks of up to six blocks, two incommensurate or equal fundamentals, two harmonics, one to three audio frequencies',
  'the tests multiply one pair of tones',
  ['phasor/signals/mixer.py', 'phasor/signals/signal_generator.py', 'phasor/system/system.py'],
  [('products of frequency keys', 'phasor/signals/mixer.py'), ('generators', 'phasor/signals/signal_generator.py')],
  'property-based testing: random mixing networks against convolution of line spectra',
  'Exploration; lines beyond the declared orders are dropped by design; first order in the audio signal.')

P('C06', 'Homodyne readouts report the true quadratures, responses and noise',
  'For every interferometer with a local oscillator, the homodyne mean, audio response and noise covariance of its two quadratures equal those of '
  'the field projected on the local oscillator at the set angle and its orthogonal. '
  'Noise ellipses, squeezing levels, signal-to-noise and the relative normalisations follow from that covariance.',
  ['inputs', 'configurations'],
  'all networks of up to 3 mirrors, squeezers and modulators, one or two carriers, any homodyne angle and local-oscillator power, audio arrays',
  'the tests check one squeezer at a few angles',
  ['phasor/optics/hidden_variable_homodyne.py', 'phasor/readouts/homodyne_AC.py', 'phasor/optics/modulators.py',
   'phasor/optics/vacuum.py', 'phasor/readouts/noise.py'],
  [('quadrature projection', 'phasor/optics/hidden_variable_homodyne.py'), ('covariance and ellipses', 'phasor/readouts/homodyne_AC.py')],
  'property-based testing: random interferometers against a two-sideband field oracle',
  'Exploration; first order in the audio signal; the local-oscillator modulus is held at its mean, as phasor defines it.')

P('C17', 'Crystals and acousto-optic modulators convert light as coupled waves',
  'Light in a nonlinear crystal follows the coupled-wave equations of second-harmonic generation and down-conversion, and '
  'acousto-optic modulators diffract it between their two paths, shifted by the drive frequency, as unitary rotations. Powers, '
  'responses to modulators and quantum noise of networks of these with mirrors, plates and detectors equal those of the waves, '
  'linearised around the static solution, as the integration steps shrink; light that has nothing to mix with passes unchanged.',
  ['inputs', 'configurations'],
  'all networks of up to 4 crystals and linear optics with 2 harmonics, below threshold; all chains of up to 2 acousto-optic modulators with 3 radio frequencies',
  'the tests print the result of crystals at a few powers, or compare total power only',
  ['phasor/optics/nonlinear_crystal.py', 'phasor/optics/AOM.py', 'phasor/optics/ODE_solver.py', 'phasor/system/solver_algorithm.py'],
  [('crystals', 'phasor/optics/nonlinear_crystal.py'), ('acousto-optic modulators', 'phasor/optics/AOM.py'),
   ('conversion as a perturbation', 'phasor/optics/ODE_solver.py'), ('iterated solution', 'phasor/system/solver_algorithm.py')],
  'property-based testing: random nonlinear networks against coupled-wave equations solved by Newton\'s method',
  'Exploration; the code integrates to first order, so three step counts are extrapolated and the remaining extrapolation error is allowed.')

#--- more ---

def main():
    PROPS.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            fh.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
            assert len(p['title']) <= 80, p['id']
            assert p['statement'].count('. ') <= 2, (p['id'], p['statement'])
            for f in p['files']:
                assert os.path.exists('/repo/' + f), f
    na = dict(NOT_APPLICABLE)
    man = dict(version=1, setup_cmd='./setup.sh', checks=[
        dict(property=p['id'], quick_cmd='./run.sh %s' % p['id'], thorough_cmd='./run.sh %s --tier thorough' % p['id'],
             technique=p['technique'], level='exploration', level_note=p['note'])
        for p in PROPS if p['id'] not in na],
        not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE],
        notes='No hooks in /repo. Checks import phasor from /repo directly; PHASOR_REPO overrides it for local trials.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')
    import sys
    for p in PROPS:
        if p['id'] not in na:
            assert any(n.startswith(p['id']) for n in os.listdir(os.path.join(HERE, 'checks'))), p['id']


if __name__ == '__main__':
    main()
