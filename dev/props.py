"""Source of properties.jsonl and MANIFEST.json."""
ENG = 'abstract interpretation of the clang AST into value-graph summaries (arrays, loops and CBLAS calls as indexed sums), decided by normal-form comparison'
TRUST = 'Trusts the clang front end, the summary builder and its models of std:: and CBLAS; floating point is treated as exact real arithmetic. '
LIB = 'libsymmetrix/source/'
PY = 'symmetrix/source/symmetrix/'
CPP = 'symmetrix/source/cpp/'
PAIR = 'pair_symmetrix/'


def P(id, title, statement, over, qtext, why, files, mech, technique=ENG, note='', na=None, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
                  'why_tests_cant': why, 'anchors': a, 'technique': technique, 'level_note': TRUST + note if not na else note, 'na': na})


PROPS = []

P('P01', 'Spline tables are C1 interpolants and report their own derivative',
  'For every table of nodal values and nodal derivatives on a uniform grid and every radius inside the table, every evaluation entry point of a spline or spline set returns the cubic that matches value and slope at both ends of the interval holding the radius. The derivative entry points return exactly the derivative of that same cubic (and the divided form returns it divided by the radius). All entry points of one table agree on the value.',
  ['inputs', 'configurations'], 'all step sizes, table contents, table lengths, number of splines in a set and in-range radii',
  'the tests sample one sine table at a few radii with tolerances; a wrong coefficient that vanishes for equal slopes, for the first interval or for one member of a set is not sampled',
  [LIB + 'cubic_spline.cpp', LIB + 'cubic_spline_set.cpp', LIB + 'cubic_spline.hpp', LIB + 'cubic_spline_set.hpp'],
  [('coefficient construction', 'CubicSpline::CubicSpline, CubicSplineSet::CubicSplineSet'), ('evaluation', 'evaluate, evaluate_deriv, evaluate_deriv_divided, evaluate_derivs')],
  note='Proves equality of the summary with the Hermite form for symbolic step, length, set size and radius; equality that needs more than the normaliser is confirmed by evaluating both terms.')

P('P02', 'Radii outside a spline table are rejected, radii inside are accepted',
  'Every evaluation entry point of a spline or spline set raises an error for any radius at least one table step outside either end of the table (and at the last node), and returns normally for any radius inside it. No entry point reads table memory that does not belong to the interval of the radius.',
  ['inputs', 'configurations'], 'all radii, step sizes and table lengths, for each entry point',
  'only one out-of-range radius per class is tested; the bound is a separate line in each entry point',
  [LIB + 'cubic_spline.cpp', LIB + 'cubic_spline_set.cpp'],
  [('range guards', 'CubicSpline::evaluate*, CubicSplineSet::evaluate*')],
  note='The path condition of the rejection is extracted as a term in radius, step and table length and compared with the required domain at interior, boundary and exterior points.')

P('P03', 'All MLP entry points compute the same network function',
  'For every network shape, weight set, activation scale and input, each of the single and batched entry points returns the same function: affine layers with a scaled x*sigmoid(x) between layers and none after the last. A batched call returns for each row exactly what a single call returns for that row, in row order.',
  ['inputs', 'configurations'], 'all layer widths, batch sizes, weights and inputs; 2 to 4 layers (5 in the thorough tier)',
  'tests use one small shape with mostly equal widths; transposed or mis-strided weights, wrong row offsets and an activation applied to the last layer can coincide on them',
  [LIB + 'multilayer_perceptron.cpp', LIB + 'multilayer_perceptron.hpp'],
  [('forward pass', 'MultilayerPerceptron::evaluate, evaluate_batch'), ('forward pass with gradient', 'evaluate_gradient, evaluate_gradient_batch')],
  note='Layer count is bounded; widths, batch size, weights and inputs are symbolic.')

P('P04', 'MLP gradients are the exact derivatives of the network function',
  'For every network shape, weight set, activation scale, batch and input, the gradient returned by the single and batched gradient entry points is, element by element, the partial derivative of each output with respect to each input of the function the network evaluates. The returned array has outputs*inputs entries per row in output-major order.',
  ['inputs', 'configurations'], 'all layer widths, batch sizes, weights and inputs; 2 to 4 layers',
  'finite-difference tests sample one shape with a single output and loose tolerances; errors in a factor that is near one at the sample, or in multi-output layouts, pass',
  [LIB + 'multilayer_perceptron.cpp'],
  [('reverse pass', 'MultilayerPerceptron::evaluate_gradient, evaluate_gradient_batch')],
  note='Layer count is bounded; widths, batch size, weights and inputs are symbolic.')

P('P05', 'A polynomial evaluates to the sum of its weighted monomials',
  'For every number of variables, list of monomials (repeated variables, repeated monomials, any degree and any order) and coefficients, every evaluation entry point returns the sum over monomials of coefficient times product of variables. Batched evaluation returns for each row what single evaluation returns for it.',
  ['inputs', 'configurations'], 'all variable counts, monomial lists, coefficients, inputs and batch sizes; product graphs of up to 3 products',
  'tests evaluate a handful of polynomials with distinct monomials; a mis-ordered product graph, a lost coefficient or a stale intermediate only shows for particular monomial sets',
  [LIB + 'multivariate_polynomial.cpp', LIB + 'multivariate_polynomial.hpp'],
  [('product graph construction', 'MultivariatePolynomial::MultivariatePolynomial'), ('evaluation', 'evaluate, evaluate_simple, evaluate_batch, evaluate_gradient')],
  note='The graph evaluation is decided for symbolic coefficients, inputs, edge targets and variable count with a bounded number of products; the direct variants for any monomial list.')

P('P06', 'Polynomial gradients are exact, also for repeated variables',
  'For every polynomial and input, every gradient entry point returns, for each variable, the partial derivative of the value that polynomial evaluates to, including monomials in which a variable appears several times or in which a shared sub-product is used more than once. Batched gradients equal the single gradients row by row.',
  ['inputs', 'configurations'], 'all variable counts, monomial lists, coefficients, inputs and batch sizes; product graphs of up to 3 products',
  'tests compare a few polynomials at a few points; squared variables inside shared sub-products and batch strides are not covered',
  [LIB + 'multivariate_polynomial.cpp'],
  [('reverse accumulation', 'evaluate_gradient, evaluate_gradient_simple, evaluate_batch')],
  note='Bounds as for the value property.')

P('P07', 'Results do not depend on what the object evaluated before',
  'For every network or polynomial object and every sequence of calls to its entry points (single and batched, with and without gradient, in any order and with any batch sizes, including zero), each call returns exactly the values and the number of entries it would return on a freshly constructed object.',
  ['histories', 'inputs', 'configurations'], 'all inputs to all calls; ordered pairs and some triples of entry points with batch sizes 0 to 3',
  'tests use a fresh object or repeat the same call; work arrays left over from a differently sized call are never exercised',
  [LIB + 'multilayer_perceptron.cpp', LIB + 'multivariate_polynomial.cpp'],
  [('work arrays', 'MultilayerPerceptron::evaluate*, MultivariatePolynomial node_values, node_adjoints')],
  note='Call kinds and sizes are enumerated, contents symbolic. The same property of MACE is decided by P10 and P11 (arbitrary buffers on entry).')

P('P08', 'ZBL repulsion: energy, force, symmetry and cutoff are consistent',
  'For every pair of elements and distance, the repulsion energy is the screened Coulomb form times its polynomial envelope, is symmetric under exchange of the two elements, and its reported gradient is its exact derivative; energy and gradient vanish at and beyond the sum of the covalent radii and go to zero continuously there. For every neighbour list, each node energy gains half-pair energies of its own neighbours only and each pair vector gains minus the derivative along the unit vector, added to whatever was there before.',
  ['inputs', 'configurations'], 'all element pairs, radii, envelope exponents and ragged neighbour lists',
  'tests sample two or three element pairs at a few radii and never a ragged multi-node neighbour list with pre-filled accumulators',
  [LIB + 'zbl.cpp', LIB + 'zbl.hpp'],
  [('pair energy and gradient', 'ZBL::compute, compute_gradient'), ('envelope', 'compute_envelope, compute_envelope_gradient'), ('accumulation over neighbours', 'compute_ZBL')],
  note='The energy term is differentiated formally; comparison is by normal form and, where piecewise, by evaluating both terms on each side of the cutoff.')

P('P09', 'Combinatorial helpers enumerate exactly the objects they promise',
  'The helper functions return every object of their kind exactly once and nothing else: binomial coefficients, permutations, integer partitions, splittings of a multiset into two parts, combinations, repeated products and index generation, for every admissible argument. Sums return the sum of all elements.',
  ['inputs'], 'all arguments (small symbolic sizes for the enumerators)',
  'tests fix one or two arguments per helper; a wrong loop bound or ordering shows only for other sizes',
  [LIB + 'tools.cpp', LIB + 'tools.hpp'],
  [('enumerators', 'tools.cpp')],
  note='Summaries instantiated at the small sizes listed in the evidence; larger sizes are covered only through the shared recursion structure.')

MACE_NOTE = 'Decided at the constant system configurations listed in the evidence (nodes, neighbour lists, elements, channels, angular momenta); geometry, all model parameters, splines, polynomials, readout and spherical harmonics are symbolic. '
P('P10', 'MACE pair forces are exactly minus the gradient of the total energy',
  'For every model file and every system (node types, ragged neighbour lists, isolated nodes), the pair vectors left by a MACE evaluation are exactly minus the partial derivative of the sum of the node energies with respect to each pair displacement, including the radial splines, the density scaling of both layers, the second-layer messages of neighbouring nodes and the ZBL term. This holds after any number of earlier evaluations with other systems.',
  ['inputs', 'configurations', 'histories'], 'all geometries, model parameters and earlier evaluations; several sizes of system, channel count, l_max, L_max and coupling paths',
  'there is no test of the C++ evaluator in the runnable suite; a finite-difference test samples one model and one geometry and misses terms that vanish for one element, for unscaled models or in a fresh object',
  [LIB + 'mace.cpp', LIB + 'mace.hpp'],
  [('forward stages', 'compute_Y, compute_R0, compute_A0, compute_A0_scaled, compute_M0, compute_H1, compute_R1, compute_Phi1, compute_A1, compute_A1_scaled, compute_M1, compute_H2, compute_readouts'), ('reverse stages', 'reverse_H2, reverse_M1, reverse_A1_scaled, reverse_A1, reverse_Phi1, reverse_H1, reverse_M0, reverse_A0_scaled, reverse_A0')],
  note=MACE_NOTE + 'The extracted energy term is differentiated formally and compared with the extracted force terms by identity test.')

P('P11', 'MACE node energies are the model file\'s energy function',
  'For every model file and every system, each node energy left by a MACE evaluation is the energy the model file defines: atomic energy, both readouts and ZBL, with the radial tables of the right element pair, the right weights per element, angular momentum, coupling path and channel, and density scaling only where the file asks for it. It depends on nothing else, in particular not on earlier evaluations or the order in which the neighbours of a node are listed.',
  ['inputs', 'configurations', 'histories'], 'all geometries, model parameters and earlier evaluations; several sizes of system, element count, channel count, l_max, L_max and coupling paths',
  'no runnable test evaluates a MACE model; element-pair tables, per-element weights and stale buffers only show for particular element counts, orders or call histories',
  [LIB + 'mace.cpp', LIB + 'mace.hpp'],
  [('model file reader', 'MACE::load_from_json'), ('evaluation', 'MACE::compute_node_energies_forces')],
  note=MACE_NOTE + 'Sub-objects are identified by the model-file entries they are constructed from.')

P('P12', 'Every evaluation stays inside its buffers',
  'For every model, system, table, polynomial, network and sequence of evaluations of valid inputs, no element of an input array, result array, weight table or work buffer is read or written outside its current size, including by the linear-algebra routines it is handed to. This holds when a small evaluation follows a large one and the other way round.',
  ['inputs', 'configurations', 'histories'], 'all inputs at enumerated sizes: systems, model sizes, shapes, batch sizes, table lengths and call sequences',
  'an access just outside a vector rarely changes a tested result; the vector capacity left by an earlier call hides it',
  [LIB + 'mace.cpp', LIB + 'cubic_spline.cpp', LIB + 'cubic_spline_set.cpp', LIB + 'multilayer_perceptron.cpp', LIB + 'multivariate_polynomial.cpp', LIB + 'zbl.cpp'],
  [('buffer sizing', 'MACE compute_* resize calls, MultivariatePolynomial work arrays, MultilayerPerceptron node arrays'), ('table indexing', 'CubicSpline::evaluate*, CubicSplineSet::evaluate*')],
  technique='abstract interpretation of the clang AST with constant propagation of sizes and indices; interval-membership check of every resolved access',
  note='Sizes are enumerated constants, contents symbolic.')

PYENG = 'abstract interpretation of the Python AST (numpy arrays of known shape with symbolic elements, library calls by their meaning), decided by normal-form comparison'
P('P13', 'The ASE calculator reports the model\'s energy, forces and stress for any system',
  'For every set of atoms (isolated atoms anywhere in the list, no neighbours at all, several periodic images of one neighbour, cells with fewer than three vectors, model elements in any order), the calculator hands the model every atom once with exactly its own neighbour pairs, and reports energy = free_energy = sum of the atomic energies, one energy and one force row per atom in atom order, with each pair force added to the neighbour and subtracted from the central atom, and stress = minus the virial over the volume in Voigt order when the cell has a volume. An element the model does not contain raises an error. Results do not depend on systems calculated before.',
  ['inputs', 'configurations', 'histories'], 'all geometries, energies and pair forces; enumerated neighbour-list structures, species tables, evaluator container sizes and two-step histories',
  'the calculator test needs a real model file and compares one bulk system; isolated atoms, missing cells and grown evaluator containers do not occur in it',
  [PY + 'symmetrix_calc.py'],
  [('neighbour hand-over', 'Symmetrix.calculate'), ('assembly of forces and stress', 'Symmetrix.calculate')],
  technique=PYENG, note='Trusts the models of numpy, ASE neighbor_list (symmetric, grouped by central atom) and ase.stress in engine/pyval.py and checks/calc.py; neighbour-list structures are enumerated, their contents symbolic.')

P('P14', 'The ASE calculator runs the implementation it was asked for or refuses',
  'For every combination of dtype, use_kokkos, availability and state of Kokkos, and kind of model file, constructing the calculator either makes exactly the evaluator of the requested precision and backend (initialising Kokkos once, before it is used) or raises. A file that is not a symmetrix JSON is converted with the species, head and num_spline_points the user gave, and the evaluator is made from the complete converted text; the neighbour cutoff is the cutoff of the evaluator actually used.',
  ['configurations', 'inputs'], 'all combinations of dtype (valid, invalid, default), backend, Kokkos availability and state, model file kind and conversion options',
  'most combinations need optional dependencies that are absent from the test environment; tests construct one of them',
  [PY + 'symmetrix_calc.py', PY + 'extract_mace_data.py'],
  [('evaluator selection', 'Symmetrix.__init__'), ('conversion', 'Symmetrix.__init__, extract_mace_data signature')],
  technique=PYENG + '; typestate of the temporary file and of Kokkos', note='Trusts the models of tempfile, json and the compiled module in checks/calc.py.')

P('P15', 'Each Python name calls the C++ entry point it is named after, faithfully',
  'Every class, method, member and function name of the Python module reaches the C++ entity of the same name on the same object, with the Python arguments in order, arrays over their full length, output arrays written in place and the result returned. Every binding is registered when the module is imported, and every evaluator attribute the calculator uses exists.',
  ['inputs', 'configurations'], 'all bound names and all argument values and array lengths',
  'tests call a subset of the names, with arrays of equal lengths, so swapped arguments or lengths and unused names go unnoticed; the MACE bindings are not built in the test environment',
  [CPP + 'cubic_spline.cpp', CPP + 'cubic_spline_set.cpp', CPP + 'mace.cpp', CPP + 'multilayer_perceptron.cpp', CPP + 'multivariate_polynomial.cpp', CPP + 'spherical_harmonic.cpp', CPP + 'tools.cpp', CPP + 'zbl.cpp', CPP + 'symmetrix.cpp'],
  [('bindings', 'bind_* functions'), ('module initialisation', 'PYBIND11_MODULE in symmetrix.cpp')],
  technique='query over the type-checked clang AST of the pybind11 translation units with argument-flow analysis of each wrapper and call-graph reachability from module initialisation',
  note='Trusts clang and the documented meaning of pybind11 def/def_readwrite/array_t. The Kokkos bindings are not parsed (no Kokkos headers here).')

PAIRENG = ENG + '; LAMMPS (atoms, ghosts, neighbour lists, message swaps, set-up calls) is modelled by declaration-only headers and summaries of its calls'
P('P16', 'The LAMMPS pair style adds the model\'s energy, forces and virial in every mode',
  'For every system of owned and ghost atoms, in each of the three modes, compute() sets eng_vdwl to the model energy of the owned atoms, eatom to the energy of each owned atom, adds to f (an atom together with its ghost images) minus the derivative of that energy by the atom\'s position, and sets virial to the sum of pair vector times pair force, for pairs within the model cutoff only. The forward and reverse messages carry the features of each ghost\'s owner and the derivative by them back, so the result does not depend on how atoms are divided among processes. Results do not depend on earlier calls, on neighbours in the skin, on the order of the neighbour entries or on their special-bond bits.',
  ['inputs', 'configurations', 'histories'], 'all positions, model parameters and previous forces; enumerated systems (periodic images, an atom next to its own image, isolated atoms, ghosts owned by other processes, list orders), modes and eflag/vflag',
  'LAMMPS is not available to the tests; ghosts, message passing and stale work arrays only show in particular decompositions',
  [PAIR + 'pair_symmetrix_mace.cpp', PAIR + 'pair_symmetrix_mace.h', LIB + 'mace.cpp'],
  [('evaluation', 'PairSymmetrixMACE::compute_no_domain_decomposition, compute_mpi_message_passing, compute_no_mpi_message_passing'), ('messages', 'pack_forward_comm, unpack_forward_comm, pack_reverse_comm, unpack_reverse_comm')],
  technique=PAIRENG, note='System structures are enumerated, positions and parameters symbolic. Mode mpi_message_passing assumes LAMMPS lists the owned atoms in index order. Trusts the LAMMPS stand-in headers in stubs/lammps.')

P('P17', 'The LAMMPS pair style takes only usable commands and prepares what compute needs',
  'pair_style accepts the three modes (with none given, the one that fits the number of processes) and refuses everything else, including no_domain_decomposition on several processes; pair_coeff maps the k-th element symbol to the model element of that atomic number, for every symbol of the periodic table, and refuses unknown symbols, elements the model lacks and missing ones. Initialisation refuses a run without atom map or with newton off, requests a full neighbour list (with ghosts when the mode needs them, and then a communication cutoff of at least two model cutoffs plus skin), announces messages as large as those packed, and returns the model cutoff for every type pair. Per-atom virials are refused rather than left unset.',
  ['configurations', 'inputs'], 'all modes, process counts, element lists, symbols, communication cutoffs and settings enumerated',
  'LAMMPS is not available to the tests; wrong set-up shows as silently wrong physics on particular inputs',
  [PAIR + 'pair_symmetrix_mace.cpp', PAIR + 'pair_symmetrix_mace.h'],
  [('commands', 'PairSymmetrixMACE::settings, coeff, init_style, init_one'), ('periodic table', 'PairSymmetrixMACE::periodic_table')],
  technique=PAIRENG, note='Argument lists are enumerated. error->all is taken not to return.')

KENG = ENG + '; Kokkos parallel constructs are modelled iteration by iteration with recorded element accesses'
KOK = [LIB + x for x in ('cubic_spline_kokkos.cpp', 'cubic_spline_set_kokkos.cpp', 'radial_function_set_kokkos.cpp', 'multilayer_perceptron_kokkos.cpp', 'multivariate_polynomial_kokkos.cpp', 'zbl_kokkos.cpp', 'tools_kokkos.cpp')]
P('P18', 'The Kokkos classes compute the same functions as the plain ones',
  'For every table, network, polynomial, set of elements and input, each entry point of CubicSplineKokkos, CubicSplineSetKokkos, RadialFunctionSetKokkos, MultilayerPerceptronKokkos, MultivariatePolynomialKokkos and ZBLKokkos returns the function its plain counterpart represents, and exactly the derivatives of that function where it returns derivatives. Radii outside a single-spline table are rejected. Results do not depend on earlier calls with other batch sizes.',
  ['inputs', 'configurations', 'histories'], 'all table contents, weights, coefficients, radii and inputs; enumerated table sizes, network shapes, monomial lists, neighbour structures and call sequences',
  'the Kokkos classes are not built in the test environment, and their tests elsewhere sample one table, network and polynomial each',
  KOK, [('evaluation', 'evaluate*, compute_* of the Kokkos classes'), ('kernels', 'lambdas and functors passed to parallel_for, parallel_reduce')],
  technique=KENG, note='Sizes are enumerated, contents symbolic. Assumes a host execution space and the double instantiation; trusts the declaration-only Kokkos headers in stubs/kokkos and their model in engine/kvals.py.')

P('P19', 'Kokkos kernels stay inside their views and do not race',
  'In every kernel of the Kokkos classes and of MACEKokkos, for every schedule of its iterations and team threads, no element is written by one iteration and touched by another without an atomic operation or a barrier between them. Every element read or written, on the host or in a kernel, exists in its view, and views copied onto each other have the same extents.',
  ['schedules', 'inputs', 'configurations'], 'all schedules of the iterations of each kernel and all view contents; enumerated sizes and index tables (repeated variables, shared neighbours, empty neighbour lists)',
  'a race or an access just outside an allocation shows only on some schedules and allocators; the Kokkos classes are not built in the test environment',
  KOK + [LIB + 'mace_kokkos.cpp'], [('kernels', 'lambdas and functors passed to parallel_for, parallel_reduce'), ('allocation', 'constructors and resizing code of the Kokkos classes')],
  technique='effect analysis of the kernels (element access sets per iteration) on top of ' + ENG, note='Sizes and index tables are enumerated, contents symbolic. Host execution space; trusts stubs/kokkos and engine/kvals.py.')

P('P20', 'MACEKokkos returns the model energy and its exact forces, call after call',
  'For every model file, system and geometry, MACEKokkos gives node_energies equal to the energies the model file defines (the ones MACE gives), and node_forces equal to minus the derivative of their sum by each pair vector. This holds for every sequence of calls with systems of different sizes on one object, with and without ZBL and the two rescalings; node_energies entries beyond the nodes of the call are zero.',
  ['inputs', 'configurations', 'histories'], 'all model parameters and geometries; enumerated neighbour structures, numbers of elements, channels and angular momenta, and sequences of systems of different sizes',
  'MACEKokkos is not built in the test environment; elsewhere its tests compare with one model and one system, so stale views of a larger earlier system or an unequal pair of elements are not sampled',
  [LIB + 'mace_kokkos.cpp', LIB + 'mace_kokkos.hpp'] + KOK,
  [('evaluation', 'MACEKokkos::compute_node_energies_forces and the stages it calls'), ('model file', 'MACEKokkos::load_from_json')],
  technique=KENG, note='Structures are enumerated, contents symbolic; compared by polynomial identity testing of the terms. Assumes a host execution space, the double instantiation and the sphericart contract.')

P('P21', 'The extracted model file is the model, for the species asked for',
  'For every supported two-layer MACE model and every selection and order of species, the extractor writes every entry the evaluators read, with the numbers the model\'s layers define for those species (normalisations, scale and shift included) in the order in which the evaluators index them; every radial table goes to zero slope at the cutoff. Models outside of what the evaluators support, unknown species and species the model lacks are refused. The command-line tool extracts the model, species and head it is given and writes exactly that data to the file named.',
  ['inputs', 'configurations'], 'all weights, scales, shifts, cutoffs and radial functions; enumerated element sets and species selections, channels, feature orders, kinds of interaction, heads and command lines',
  'torch, e3nn and mace are not available to the tests; elsewhere one model with all of its species is extracted, so an index into the model\'s species used for the selection\'s (or the reverse) or a normalisation that cancels there is not sampled',
  [PY + 'extract_mace_data.py', PY + 'cli/extract_mace.py', LIB + 'mace.cpp', LIB + 'mace_kokkos.cpp'],
  [('extraction', 'extract_mace_data'), ('command', 'cli/extract_mace.py main'), ('readers', 'MACE::load_from_json, MACEKokkos::load_from_json')],
  technique='abstract interpretation of the Python AST with the tensors of the model as arrays of terms; entries compared with the layer definitions by polynomial identity; query over the clang AST for the entries the loaders read',
  note='Shapes are enumerated, weights symbolic. Trusts the models of torch, e3nn, mace and scipy in checks/extract.py; the generalised Clebsch-Gordan tables are stand-in sparse constants.')
