"""Source of properties.jsonl and MANIFEST.json (see gen.py)."""
B = 'brainstorm/'


def P(id, title, statement, over, qtext, why, files, mech, note, **kw):
    return dict(id=id, title=title, statement=statement,
                quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                anchors={'files': [B + f for f in files],
                         'mechanism': [{'name': n, 'where': B + w}
                                       for n, w in mech]},
                note=note, **kw)


PROPS = [
    P('C01', 'Every layer\'s backward pass is the exact gradient of its forward pass',
      'For every built-in layer type, configuration and recurrent context, the deltas that a backward pass '
      'adds to its inputs and the gradients it adds to its parameters equal the derivatives of the forward '
      'outputs weighted by the incoming output deltas. Deltas already accumulated by other consumers are '
      'preserved, gradients and deltas that belong elsewhere stay untouched, and the forward results stay unchanged.',
      ['inputs', 'configurations'],
      'all inputs, parameters, output deltas, masks, dropout draws and initial contexts, for bounded tensor '
      'sizes and every layer type / activation / stride / padding configuration in the case list',
      'The tests compare against finite differences at a few random points with tolerances, mostly with zero '
      'context, unit deltas and one configuration each.',
      ['layers', 'handlers/numpy_handler.py', 'handlers/_cpuop.pyx'],
      [('layer forward/backward', 'layers/*.py'), ('numeric kernels', 'handlers/_cpuop.pyx')],
      'Symbolic forward mode autodiff of the real forward pass compared with the real backward pass by z3 over '
      'exact reals; bounds: T<=4, B<=2, feature sizes <=3 (see evidence).'),
    P('C02', 'Network backward pass computes the gradient of the total loss',
      'For a network of any topology (fan-out, concatenation, skip connections, several losses, recurrence), '
      'running forward then backward leaves in the gradient buffer exactly the derivative of the reported total '
      'loss with respect to every parameter. The reported losses equal the sum over the loss layers and the result '
      'does not depend on what was in the gradient or delta buffers before.',
      ['inputs', 'configurations'],
      'all data and parameters, for a list of topologies covering each connection pattern, bounded sizes',
      'The tests check gradients of few fixed networks at random points; accumulation over fan-out and '
      'concatenated buffers only shows for particular topologies.',
      ['structure/network.py', 'structure/buffers.py', 'structure/layout.py', 'layers'],
      [('forward_pass/backward_pass', 'structure/network.py'),
       ('delta accumulation through shared buffers', 'structure/layout.py')],
      'Real Network executed symbolically, derivative of the loss by symbolic autodiff; T<=3, B<=2, sizes<=3.'),
    P('C03', 'Buffers never overlap unless connected; flat vectors are aligned',
      'After a network is built and after every resize, each layer sees every one of its inputs as exactly the '
      'memory of the connected output(s), with its deltas in the same order, and every other pair of buffers (outputs, internals, '
      'parameters, across layers and between values and gradients) uses disjoint memory. The flat parameter vector '
      'covers each layer parameter exactly once and the flat gradient vector is laid out identically.',
      ['configurations', 'inputs'],
      'all feature sizes, sequence lengths and batch sizes (unbounded integers) for a list of topologies '
      'including fan-out, concatenation orders and several buffer types',
      'Tests check hand-computed layouts for few networks with fixed sizes.',
      ['structure/layout.py', 'structure/buffers.py', 'structure/buffer_views.py', 'structure/buffer_structure.py'],
      [('hub creation and permutation', 'structure/layout.py'),
       ('slicing views from the flat buffers', 'structure/buffers.py')],
      'Layout code run with symbolic integer sizes; disjointness and coverage discharged by z3 over unbounded '
      'integers for a list of topologies. Known finding: concatenation of multi-dimensional features.'),
    P('C04', 'A pass depends only on parameters and current data, not on history',
      'Outputs, losses and gradients of a pass are the same as those of a freshly built network with equal '
      'parameters, whatever passes, batch shapes, contexts and modes came before. No pass, resize or handler change '
      'alters the parameters (except batch normalisation\'s running statistics during training), data that was '
      'provided is exactly what the network holds, and evaluation passes are deterministic.',
      ['histories', 'inputs'],
      'all histories of up to two steps over the choice of batch shape and pass kind, with arbitrary data',
      'Tests reuse a network at most once or twice with one shape and compare few numbers.',
      ['structure/network.py', 'structure/buffers.py', 'layers'],
      [('resize and view re-creation', 'structure/buffers.py'),
       ('clearing of deltas, gradients and context', 'structure/network.py')],
      'Self-composition: history run vs fresh network, equality discharged by z3; <=2 earlier steps, T,B<=3.'),
    P('C05', 'Chunked processing with handed-over context equals processing at once',
      'For every stack of recurrent layers, splitting a sequence into consecutive chunks and passing the context '
      'returned by get_context after one chunk to forward_pass of the next gives the same outputs as one pass over the '
      'whole sequence, also from a given initial context and when the network does unrelated work in between. A context '
      'obtained earlier is a snapshot that later passes do not modify.',
      ['inputs', 'histories', 'configurations'],
      'all data, parameters and initial contexts; splits of up to three chunks; every recurrent layer type, stacks, '
      'parallel and skip connections',
      'The tests run get_context/forward_pass(context) on one network with random data and check shapes or few values.',
      ['structure/network.py', 'structure/buffers.py', 'layers'],
      [('get_context / apply_context', 'structure/network.py'),
       ('context slices of recurrent layers', 'layers/recurrent_layer.py')],
      'Symbolic execution of chunked vs whole passes; equality discharged by z3; T<=4 (6 thorough). Known finding: '
      'Clockwork layers restart their clock with every chunk.'),
    P('C06', 'Data iterators deliver every sequence exactly once, complete and aligned',
      'In one pass of Minibatches every sequence of the data set appears exactly once, all named arrays stay aligned, '
      'batches have the requested size except possibly the last, their announced number is right, and without shuffling they '
      'follow the order of the data. Cutting by a mask shortens a batch only to the length of the longest sequence in it, so '
      'no valid time step is lost. Misaligned data is rejected at construction; Undivided delivers all the data unchanged once per pass.',
      ['inputs', 'configurations'],
      'all shuffle permutations, masks and data contents, for bounded numbers of sequences, batch sizes and lengths',
      'Tests look at one or two data sets and one seed; a sequence lost for a particular batch size or permutation goes unseen.',
      ['data_iterators.py'],
      [('Minibatches', 'data_iterators.py'), ('Undivided', 'data_iterators.py')],
      'Iterators executed with symbolic permutations, masks and data; N<=5 sequences, T<=3.'),
    P('C07', 'Augmentation iterators do exactly what they promise and leave the source intact',
      'Pad, RandomCrop, Flip, OneHot, MultiHot, AddGaussianNoise and AddSaltNPepper produce exactly the documented transformation '
      'of each selected item (any crop offset in the full valid range and no other), pass all other items through unchanged, and never '
      'modify the underlying data set, so that each pass starts from the original data. The shapes an iterator announces are those it '
      'yields, so iterators can be chained; arguments that cannot work are refused when it is created.',
      ['inputs', 'histories'],
      'all image contents, labels, random draws, offsets and selections, for bounded image sizes and up to two passes',
      'Tests use one small image and one seed; wrong borders, biased ranges and in-place modification need particular draws or a second pass.',
      ['data_iterators.py', 'handlers/_cpuop.pyx'],
      [('augmentation iterators', 'data_iterators.py'), ('crop_images', 'handlers/_cpuop.pyx')],
      'Iterators executed on symbolic images with symbolic draws; images up to 3x3, N<=2.'),
    P('C08', 'Shuffling and splitting keep data complete, aligned and reproducible',
      'shuffle_data applies one common permutation of the sequences to all arguments, leaves its arguments unmodified and depends only on '
      'the given seed. split cuts all arguments at the same places into consecutive parts that together are the complete data, with every '
      'boundary at the whole number nearest to the exact ratio.',
      ['inputs'],
      'all permutations of up to four sequences and all positive real split ratios (up to four)',
      'Tests check single ratios and seeds; rounding errors that lose or repeat a sequence need special ratios.',
      ['tools.py'],
      [('shuffle_data', 'tools.py'), ('split', 'tools.py')],
      'Symbolic execution with arbitrary permutations and ratios; N<=5, at most 4 ratios.'),
    P('C09', 'Training steppers apply exactly their documented update rules',
      'Sgd changes the parameters by -lr times the gradient, Momentum keeps a velocity v = mu v - eta g and adds it, Nesterov takes the '
      'gradient at the parameters advanced by mu v (eta = lr (1-mu) if the learning rate is scaled, the default). The rules hold at every '
      'step, also when settings or batch shapes change between steps; start() begins with zero velocity on the given network and changes '
      'nothing else, and ForwardStepper returns the loss without changing parameters.',
      ['inputs', 'histories'],
      'all parameters, data, learning rates and momenta (changed arbitrarily between steps), runs of up to three steps '
      '(four thorough), restarts and switches to another network',
      'The tests only run the steppers for smoke; a wrong sign, order or stale velocity appears after several steps.',
      ['training/steppers.py', 'structure/network.py'],
      [('run() and start() of the steppers', 'training/steppers.py')],
      'Real steppers on real networks executed symbolically, compared with the rule applied to gradients of fresh networks; <=3 steps.'),
    P('C10', 'Schedules follow their documented curves and reach the stepper in time',
      'Linear, Exponential, MultiStep and DecreaseAfterEpoch return their documented value for every epoch and update number, timescale and '
      'interval, never leave their limits, and depend on nothing else. ModifyStepperAttribute sets exactly that value on exactly the named attribute, '
      'so that during training every update runs with the value that belongs to its epoch or update number.',
      ['inputs', 'configurations'],
      'all epoch/update numbers (exponents up to 7), all real initial/final values, factors and limits, intervals up to 3, training runs of '
      'up to 4 epochs of 3 batches',
      'The tests compare a handful of values per schedule; off-by-one errors at switching points and limits need particular numbers.',
      ['training/schedules.py', 'hooks.py', 'training/trainer.py'],
      [('schedules', 'training/schedules.py'), ('ModifyStepperAttribute', 'hooks.py')],
      'Schedules executed with symbolic numbers, compared with closed forms by z3; MultiStep only supports interval 1.'),
    P('C11', 'The trainer follows its protocol of stepping, hooks, logs and stopping',
      'Training starts the stepper and the hooks in the order they were added and calls the due hooks once before training. Each epoch takes one pass '
      'over the data; each batch is provided, stepped, scored, followed by the weight modifiers and then the due update hooks (in order added, every '
      'interval-th update); an epoch ends with the rolling training log (batch-size weighted averages of the losses) and the due epoch hooks. Any hook raising StopIteration '
      'ends the epoch right after the remaining due hooks, with all returned values logged in order.',
      ['histories', 'configurations', 'inputs'],
      'all choices of hook timescales, intervals, stop points and return values for two hooks (three thorough), <=3 batches, <=2 epochs, also calling train twice',
      'The tests train one network and look at final numbers; the order of events for unusual intervals and stops is never observed.',
      ['training/trainer.py', 'training/utils.py', 'scorers.py', 'hooks.py'],
      [('train loop and hook emission', 'training/trainer.py')],
      'Trainer executed with probing hooks whose decisions are symbolic; every feasible history is compared with a reference event trace.'),
    P('C12', 'Stopping criteria and best-network saving are exact on every log history',
      'EarlyStopper stops exactly when the last `patience` entries did not improve on the best before, StopAfterThresholdReached exactly when an entry reached the '
      'threshold, StopAfterEpoch exactly when the epochs are over, StopOnNan exactly on invalid values, StopOnSigQuit exactly after a signal. SaveBestNetwork holds a snapshot '
      'of the parameters at the first best log entry. All tolerate a log that does not exist before the first epoch and leave the network unchanged.',
      ['inputs', 'histories'],
      'all sequences of up to 4 real log entries (5 thorough), every patience, both criteria, any threshold and any position of an invalid value',
      'Tests use one sequence per hook; ties, plateaus and later changes of the parameters are not sampled.',
      ['hooks.py', 'utils.py', 'training/trainer.py'],
      [('stoppers and SaveBestNetwork', 'hooks.py'), ('get_by_path', 'utils.py')],
      'Hooks executed on symbolic log histories; decision proved equivalent to a declarative criterion.'),
    P('C13', 'Describable objects survive being described and re-created',
      'Every hook, stepper, schedule, iterator, initializer, modifier, scorer and layer can be described with plain JSON data and re-created from '
      'that description with all its documented settings (also after it was used), so that the copy describes itself identically, behaves like the original, and '
      'shares no mutable state with it. Undescribed fields are initialised as for a new object.',
      ['inputs', 'configurations', 'histories'],
      'all real or integer settings of every describable class shipped, nested values, used and unused objects',
      'Tests describe a handful of default objects; a setting lost or leaked only appears for a non-default value or after use.',
      ['describable.py', 'hooks.py', 'value_modifiers.py', 'initializers.py', 'data_iterators.py', 'training/steppers.py',
       'training/schedules.py', 'scorers.py'],
      [('get_description, create_from_description', 'describable.py')],
      'All describable classes constructed with symbolic settings, described and re-created; equality proved by z3.'),
    P('C14', 'Initializers reach exactly the weights that references name',
      'Network.initialize gives each parameter view the value of the initializer whose layer and view reference matches it (names, wildcards, lists of alternatives, '
      'defaults and fallbacks), and leaves no view unset or set twice: ambiguous, unmatched or missing references raise an error, not a silent choice. The given '
      'references are not modified. Layer names are accepted exactly if they are identifiers that are not reserved.',
      ['inputs', 'configurations'],
      'all strings of up to 3 (4 thorough) characters as layer names and references, all combinations of reference patterns on a three-layer network, all values',
      'Tests use a few reference dictionaries; wildcard corner cases and combinations of default, fallback and nesting are not sampled.',
      ['initializers.py', 'utils.py', 'structure/network.py', 'structure/view_references.py'],
      [('resolve_references, evaluate_initializer', 'structure/view_references.py'), ('Network.initialize', 'structure/network.py')],
      'Names with symbolic characters (regular expressions executed symbolically); resolution compared with an independent definition.'),
    P('C15', 'Seeds reproduce every random choice, and only the named stream is used',
      'With the same seed (or the same state of the global random state) every random operation gives the same result: initializers, iterators, noise, dropout, '
      'shuffling, default seeds. An explicit seed makes the operation independent of the global state and leaves that untouched; copies and re-created objects '
      'continue or restart their stream as documented; different streams are not shared by accident.',
      ['inputs', 'histories'],
      'all seeds and all random streams (arbitrary values as a function of seed and position), all random initializers, iterators and layers',
      'Tests compare single seeds; dependence on hidden state requires the right history between two uses.',
      ['randomness.py', 'initializers.py', 'data_iterators.py', 'tools.py', 'handlers/numpy_handler.py', 'structure/network.py'],
      [('RandomState, Seedable', 'randomness.py')],
      'randomness.py re-executed over a generator modelled as an uninterpreted function of seed and position.'),
    P('C16', 'Weight and gradient modifiers do what they say where they are set',
      'ConstrainL2Norm, ClipValues, MaskValues, FreezeValues, L1Decay and L2Decay compute their documented function for all values. Modifiers '
      'set on a network apply to exactly the views their references match, with lists in order, at each application, to no other view and not to the other buffer; '
      'copies of a network keep them and resizing batches does not lose them; fallbacks and objects of the wrong kind are refused.',
      ['inputs', 'configurations'],
      'all real weights, gradients, limits and factors; all combinations of reference patterns on a three-layer network',
      'Tests apply a modifier to one array; wrong views, lost order or changes visible only beyond a limit are not sampled.',
      ['value_modifiers.py', 'structure/network.py', 'structure/view_references.py'],
      [('modifiers', 'value_modifiers.py'), ('set_/apply_weight_modifiers', 'structure/network.py')],
      'Modifiers and networks executed symbolically, compared with documented formulas.'),
    P('C17', 'Scores, losses and monitors are exact for all data, however batched',
      'Accuracy, Hamming and MeanSquaredError compute their definition, with masked-out entries not counting. evaluate() gives the losses and scores of the complete data '
      'independent of how it is cut into batches, on the outputs, targets and masks named by the scorer or the call, without training behaviour and leaving parameters '
      'and data alone. Layer monitors log the exact min/avg/max of each view, data set monitors the evaluation on the iterator they name.',
      ['inputs', 'configurations'],
      'all predictions, labels, masks, thresholds, parameters; up to 3 batches; all views of recurrent and loss layers',
      'Tests score tiny fixed arrays in one batch; wrong weighting needs batches of different size or partially masked ones.',
      ['scorers.py', 'tools.py', 'hooks.py', 'training/trainer.py'],
      [('scorers, gather and aggregate', 'scorers.py'), ('evaluate', 'tools.py'), ('monitors', 'hooks.py')],
      'Scorers, evaluate() and monitors executed symbolically and compared with definitions over the complete data.'),
    P('C20', 'Initializers produce weights of their documented form',
      'Gaussian, Uniform, DenseSqrtFanIn(InOut), Identity, RandomWalk, EchoState, Orthogonal, SparseInputs/Outputs, LstmOptInit and ArrayInitializer return '
      'arrays of the requested shape that are exactly the documented transformation of their random draws (mean, deviation, interval, fan-in scale, spectral radius, '
      'orthogonality, number of connections, blocks), refuse shapes they do not support, and a fallback is used exactly if the initializer refuses.',
      ['inputs', 'configurations'],
      'all random draws, scales, limits and radii; matrices up to 2x2 (3x3 thorough) and some higher dimensional shapes',
      'Tests check shapes and a few samples; the range or scale of random values for other shapes cannot be seen from samples.',
      ['initializers.py', 'structure/network.py'],
      [('initializers', 'initializers.py'), ('evaluate_initializer', 'initializers.py')],
      'Initializers executed on symbolic draws; LAPACK calls replaced by their contracts; documented form proved by z3.'),
    P('C18', 'Every layer\'s forward pass computes its documented function',
      'For every layer type created through its public function, the outputs are exactly its definition: affine maps with '
      'activation, recurrent, LSTM (with peepholes) and clockwork recurrences from the given context, 2D convolution and max/average pooling '
      'with stride and padding, batch normalisation (batch statistics and their running averages in training, running averages otherwise), '
      'dropout with rescaling, masking, merging, highway, losses and cross entropies (clipped at 1e-6). Documented defaults apply, parameters '
      'have the documented shapes, stale buffer contents do not matter, and a forward pass changes neither inputs nor parameters (except batch '
      'normalisation statistics).',
      ['inputs', 'configurations'],
      'all inputs, parameters, contexts, stale contents and dropout draws, for bounded sizes and a list of configurations of every layer',
      'The tests compare forward results with references for few configurations and random data; gradient checks cannot see a forward pass that is '
      'consistently wrong in both directions.',
      ['layers', 'handlers/numpy_handler.py', 'handlers/_cpuop.pyx'],
      [('forward_pass of each layer', 'layers/*.py'), ('numeric kernels', 'handlers/_cpuop.pyx')],
      'Real forward passes executed symbolically and compared with independent reference definitions; T<=5, B<=2, sizes<=3, images up to 5x6.'),
    P('C19', 'Handler operations compute their documented function in any memory layout',
      'Every NumpyHandler operation (elementwise, matrix-vector, products, conditional copies, index operations, sums, merging and splitting, '
      'activation functions and their derivatives, random fills, convolution and pooling kernels, allocation and exchange with numpy) stores exactly '
      'its documented result, for every broadcasting variant, also in place where layers use it so and on strided views. It changes no other argument and no '
      'memory around its output, and never reads or writes out of bounds.',
      ['inputs', 'configurations'],
      'all array contents, scalars, flags and draws, for small shapes covering every variant, contiguous, strided and in-place memory',
      'Tests compare with numpy references on few random arrays of fixed shape and never look at aliasing, strides or neighbouring memory.',
      ['handlers/numpy_handler.py', 'handlers/base_handler.py', 'handlers/_cpuop.pyx'],
      [('operations', 'handlers/numpy_handler.py'), ('convolution and pooling kernels', 'handlers/_cpuop.pyx'),
       ('activation function tables', 'handlers/base_handler.py')],
      'Operations executed symbolically on guarded memory; Cython kernels translated with bounds checks; shapes up to (2,3), images up to 5x4.'),
    P('C21', 'Wiring layers gives exactly the wired network; broken ones are refused',
      'Layers get unique names (their name or type, indexed in order of creation if several layers share it, never colliding with given names) independent of '
      'the order of wiring. The architecture has exactly the wired layers, connections and arguments, and survives JSON. A network built from it orders every '
      'layer after all its sources with Input first, independent of dictionary order, and so is its parameter layout. Cycles, undefined end layers, invalid names or types, '
      'missing, several or fed Input layers, unknown or missing inputs and outputs, unexpected arguments and mismatching shapes are refused.',
      ['configurations', 'histories'],
      'all namings of up to 3 (4 thorough) layers from colliding names, wirings and orders of wiring; all graphs of up to 4 (5 thorough) layers; a list of '
      'defects at every position of three networks',
      'Tests build a few hand-written networks; naming collisions, wiring orders and cycles are combinatorial.',
      ['structure/construction.py', 'structure/architecture.py', 'layers/base_layer.py', 'structure/network.py'],
      [('UniquelyNamed, ConstructionWrapper', 'structure/construction.py'), ('generate_architecture, instantiate_layers_from_architecture', 'structure/architecture.py'),
       ('validation', 'layers/base_layer.py')],
      'Real construction code explored over solver-chosen names, edges, orders and defects, compared with an independent model.'),
    P('C22', 'Shapes of outputs and parameters are right for every size',
      'Every layer computes the documented shapes of its outputs and parameters from the shapes of its inputs and its arguments, concatenated inputs add up '
      'in the last dimension, and exactly the valid buffer shapes are accepted. Convolution and pooling produce as many windows as fit into '
      'the padded image. Inputs whose shapes do not match each other (losses, masks, merging, highway, concatenation), windows that do not fit, '
      'non-positive strides, negative paddings and arguments of the wrong kind are refused; everything that matches is accepted.',
      ['inputs', 'configurations'],
      'all integer sizes (unbounded) for inputs with up to three feature dimensions; strides -1..4',
      'Tests use a handful of concrete sizes; the formulas must hold for every size, and boundary cases (window exactly fits, size 1) decide.',
      ['layers', 'structure/buffer_structure.py'],
      [('Layer.setup of each layer', 'layers/*.py'), ('BufferStructure, StructureTemplate, combine_buffer_structures', 'structure/buffer_structure.py')],
      'Real setup code executed with unbounded symbolic integers for all sizes; z3 decides shape formulas and acceptance exactly.'),
    P('C25', 'Saved networks, descriptions and logs come back as they were',
      'A network saved to HDF5 and loaded again has the same layers, connections, arguments, handler, initializers and modifiers described, '
      'and exactly the same parameters, and computes the same outputs, losses and gradients, whatever happened before or after the save; saving again '
      'gives the same file content. Saving does not change the network. SaveNetwork stores the current, SaveBestNetwork the best parameters '
      '(first of equals, for minimum and maximum), and SaveLogs exactly the nested logs at that time.',
      ['inputs', 'histories', 'configurations'],
      'all parameter values, log values and data; networks covering every layer type; save/load/change histories of 3 operations and 3 hook calls',
      'The tests round-trip single networks with random weights once; overwriting, later changes, ties in the best value and rarely used settings are not covered.',
      ['structure/network.py', 'describable.py', 'hooks.py', 'structure/architecture.py', 'handlers/numpy_handler.py'],
      [('save_as_hdf5, from_hdf5', 'structure/network.py'), ('SaveNetwork, SaveBestNetwork, SaveLogs', 'hooks.py'), ('Describable', 'describable.py')],
      'Real save and load code run on symbolic parameters against an in-memory model of h5py; replays write real files in a scratch directory.'),
    P('C26', 'Extracting buffers gives complete, ordered values for all data',
      'extract and extract_and_save return, for exactly the requested buffers, the values of a forward pass on every sequence of the iterator, in the '
      'order of the data, for every batch size (also if it does not divide the number of sequences) and batches of different length (zeros after the end of '
      'shorter ones), for feed-forward and recurrent networks, with and without targets. Parameters stay unchanged, and what is stored equals what is returned.',
      ['inputs', 'configurations', 'schedules'],
      'all data and parameters; up to 3 (4 thorough) sequences of up to 3 steps, every batch size, every combination of lengths',
      'One test extracts from one dataset with a single batch size; uneven last batches and batches of different length are not covered.',
      ['tools.py', 'training/trainer.py', 'structure/network.py', 'data_iterators.py'],
      [('extract, extract_and_save', 'tools.py'), ('run_network', 'training/trainer.py')],
      'Real extraction code run on symbolic data; compared with a forward pass of every sequence on its own; h5py modelled in memory.'),
    P('C23', 'Results stay finite in single precision; non-finite values are noticed',
      'Activation functions and their derivatives, softmax and the cross entropy losses give finite results in their range for every finite float32 input, '
      'however large; batch normalisation, ConstrainL2Norm (also of zero weights) and forward and backward passes of small networks stay finite for inputs and '
      'weights of bounded magnitude; losses are never negative. StopOnNan stops training exactly if a checked log or parameter is infinite or '
      'NaN, and DebugHandler raises exactly if an operand or result is.',
      ['inputs', 'configurations'],
      'all float32 inputs (activations, losses: any finite value; networks: |x|<=1e4, |w|<=100), every activation and loss, one to three units, two time steps',
      'Overflow, underflow and saturation occur at extreme values only; the tests draw values around zero, where every formula is fine.',
      ['handlers/numpy_handler.py', 'layers', 'hooks.py', 'value_modifiers.py', 'handlers/debug_handler.py'],
      [('activation functions', 'handlers/numpy_handler.py'), ('losses', 'layers/softmax_ce_layer.py'), ('StopOnNan', 'hooks.py')],
      'Real code executed on z3 Float32 values; exact rounding added before a counterexample counts, exp/log/tanh/sqrt by facts checked against numpy in setup_cmd.'),
    P('C27', 'A DebugHandler changes nothing but refuses invalid operations',
      'Every network computes exactly the same outputs, losses, internals, deltas and gradients on a DebugHandler as on the handler it wraps; training with every '
      'stepper and weight or gradient modifier, initialising, continuing a context, evaluating, extracting and saving give the same results. Operations with '
      'mismatching shapes, wrong operand types or arguments out of range are refused.',
      ['inputs', 'configurations'],
      'all data and parameters of small networks covering every layer type; a list of 22 invalid operations',
      'The tests run single layers on both handlers with random data; networks, training, modifiers and tools on a DebugHandler are not tested.',
      ['handlers/debug_handler.py', 'structure/network.py', 'value_modifiers.py', 'training/steppers.py', 'tools.py'],
      [('DebugHandler, DebugArray', 'handlers/debug_handler.py')],
      'Both copies run symbolically on the same terms; equality of every buffer decided by z3; T<=2, B<=2.'),
    P('C24', 'Networks built from a short specification are the ones it describes',
      'get_in_out_layers and create_net_from_spec build exactly the network their arguments describe: the '
      'layers named in the spec in order with the given sizes, activations and options (or the documented defaults), '
      'the projection and loss that belong to the task type, optional mask and the given data names, whatever whitespace '
      'separates the parts of the spec. Weights of layers with an activation function start within the documented '
      'interval, all others Gaussian. Arguments that cannot work are refused.',
      ['inputs', 'configurations'],
      'all sizes (unbounded integers) and dropout probabilities in specs composed of every layer letter, activation, '
      'option and separator; all parameters and targets for small networks; all initial draws',
      'No test covers these tools; a wrong default or a swapped option still gives a working network.',
      ['tools.py'],
      [('get_in_out_layers', 'tools.py'), ('create_net_from_spec', 'tools.py')],
      'Real tools run on specs whose numbers are symbolic, compared with the network wired by hand; values compared '
      'for small networks; spec spellings are a list, the regular expression itself runs concretely.'),
    P('C28', 'Progress bars, network summaries and paths to reports tell the truth',
      'A progress bar shows exactly the fraction done, prints every character of the bar once and its suffix when '
      'complete; adding the ProgressBar hook never changes which updates a training makes, for any number of updates per '
      'epoch, also when training is stopped in the middle of an epoch or continued later, and every finished epoch prints one '
      'complete bar. get_network_info states the real number of parameters and every shape. flatten_keys lists exactly '
      'the dotted paths that get_by_path resolves, other paths raise KeyError; ".." in a path removes the part before it; '
      'nested lists are flattened and indexed in order. What is printed never changes what is logged; drawn networks have exactly '
      'the connections of the network, plotted lines are the logs, using a missing optional dependency raises its import error.',
      ['inputs', 'histories'],
      'all progress values and maxima; up to 4 updates per epoch, 2 epochs, stopped at several points and continued with '
      'the same or another iterator; nested structures of depth 3 with any contents',
      'The tests look at one bar and a few paths; ProgressBar and the network summary have no tests.',
      ['utils.py', 'hooks.py', 'tools.py', 'training/trainer.py'],
      [('progress_bar, get_by_path, flatten_keys, get_normalized_path', 'utils.py'), ('ProgressBar, InfoUpdater', 'hooks.py'),
       ('get_network_info', 'tools.py'), ('Trainer._add_log', 'training/trainer.py')],
      'Progress values are real terms, structures and histories are enumerated by the engine; printed text is compared '
      'with what the statement says, not with a template.'),
]
HOOKS = None
NOTES = ('All checks: ./check <ID> --tier quick|thorough. Replay of a reported violation: ./check <ID> --replay '
         '<file>. No hooks in /repo are used; the checks import /repo directly and compile _cpuop.pyx in a scratch '
         'directory.')
