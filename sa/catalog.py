"""The properties, and which rules decide them (tools/gen.py writes the files)."""

ASSUMPTIONS = [
    'jax, numpy and the standard library behave as documented; functions of '
    'jax are modelled as pure except for the callbacks they run',
    'client callbacks do not reach into private names of the library',
    'arrays are not None, not mappings and not sequences of Python objects; '
    'PRNG keys are uint32[2] arrays',
]

TECH = ('interprocedural path-sensitive abstract interpretation of the syntax '
        'tree over a Herbrand-term (value-numbering) domain with trace partitioning; no solver')

SHAPES = ('abstract interpretation of the syntax tree with symbolic shapes '
          '(polynomials), element types and axis provenance; no solver')

FORMS = ('abstract interpretation of the syntax tree to an array term, compared '
         'with the documented formula by rewriting both to an index-notation '
         'normal form (sums of monomials over array entries); no solver')

P = []


def prop(id, title, statement, over, text, why, files, mechanism, rules,
         technique=TECH, note='', assumptions=()):
  P.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[
          dict(name=n, where=w) for n, w in mechanism]),
      rules=rules, technique=technique, note=note,
      assumptions=list(assumptions)))


S = 'haiku/_src/'

prop('C01', 'The ambient context is restored after every region, on every exit',
     'Whenever a transformed function, module method, scope, hook or wrapped '
     'computation ends, normally or with an exception at any point, parameter '
     'names, random keys and installed hooks seen by the code that follows are '
     'those seen by the code before it. In particular an exception that leaves '
     'init or apply leaves no active transform behind.',
     ['programs', 'fault_sequences', 'histories'],
     'every nesting of context-establishing constructs, every client callback, '
     'and an exception from any client callback inside them',
     'tests raise in a handful of places; the guarantee is about every exit '
     'edge of every region, also with assertions disabled',
     [S + 'base.py', S + 'module.py', S + 'stateful.py', S + 'transform.py',
      S + 'data_structures.py', S + 'lift.py'],
     [('context stacks popped on every exit', S + 'data_structures.py:Stack'),
      ('frame activation', S + 'base.py:new_context'),
      ('method wrapping', S + 'module.py:wrap_method')],
     ['context:rule_c01'],
     note='every public region x init/apply x normal/raising callback x '
     'assertions on/off; what the following code observes is compared '
     'before/after as terms')

prop('C03', 'apply never creates or substitutes parameters',
     'During apply no parameter is ever created: reading a parameter yields '
     'exactly the value passed in the params argument, and a parameter missing '
     'from it raises ValueError, wherever in the program the read happens. '
     'Code can tell init from apply reliably at every point.',
     ['programs', 'inputs'],
     'every params mapping (present, partially missing, empty, None, mutable '
     'or immutable), every wrapper around the read',
     'tests check missing parameters for direct reads only; a creation under '
     'one wrapper silently trains a different model',
     [S + 'base.py', S + 'transform.py', S + 'stateful.py'],
     [('frozen parameters during apply', S + 'base.py:get_parameter'),
      ('frame construction', S + 'base.py:new_context')],
     ['params:rule_c03'],
     note='16 wrappers x 5 params shapes, and an opaque params mapping')

prop('C04', 'A parameter is created once, stored unmodified and then reused',
     'During init the first read of a parameter runs its creators and '
     'initializer exactly once with the requested shape and dtype, and every '
     'later read of the same name in the same module returns that value '
     'through the installed getters. What init returns for it is the created '
     'value itself, never the output of a getter, and nothing else.',
     ['programs', 'histories'],
     'every sequence of reads, every wrapper and hook around them',
     'tests count creations for direct reads; the guarantee spans hooks, '
     'wrappers and arbitrarily repeated reads',
     [S + 'base.py', S + 'stateful.py', S + 'transform.py'],
     [('lookup before creation', S + 'base.py:get_parameter'),
      ('creator and getter stacks', S + 'base.py:run_creators')],
     ['params:rule_c04', 'hooks:rule_params'],
     note='16 wrappers, with and without hooks; initializer, creator and '
     'getter are opaque client functions')

prop('C05', 'Every parameter read is checked against the requested shape',
     'A parameter read returns a value only if its shape equals the requested '
     'shape, during init as well as apply and also when creators or getters '
     'changed the value; otherwise it raises an error (unless Python runs with '
     'assertions disabled).',
     ['inputs', 'programs'],
     'every stored value, requested shape, initializer, creator and getter',
     'shape mismatch tests cover two concrete shapes',
     [S + 'base.py'],
     [('shape comparison', S + 'base.py:get_parameter')],
     ['params:rule_c05'],
     note='the shape comparison must dominate every return, and compare the '
     'whole requested shape with the shape of the returned value')

prop('C14', 'Hooks compose outermost first and each runs once per event',
     'Nested creators, getters and method interceptors run outermost first, '
     'each exactly once per event, each receiving what the previous one passed '
     'on and returning to it; the context they receive names the actual module, '
     'parameter or method and the originally requested shape and dtype. '
     'Outside their block they never run.',
     ['programs', 'configurations'],
     'every chain of hooks of every kind, parameters and state, every method',
     'tests chain two hooks of one kind with fixed bodies',
     [S + 'base.py', S + 'module.py'],
     [('hook stacks', S + 'base.py:run_creators'),
      ('interceptor chain', S + 'module.py:run_interceptors')],
     ['params:rule_c14', 'hooks:rule_params', 'hooks:rule_state',
      'hooks:rule_methods'],
     note='chains of three tagging hooks; order, arguments, result and context '
     'compared as terms')


prop('C02', 'Concurrent use from several threads is isolated',
     'Transformed functions may run in several threads at once: no run changes '
     'anything that code in another thread can see, so each behaves as if it '
     'ran alone, and the library works in threads other than the one that '
     'imported it.',
     ['schedules', 'programs'],
     'every interleaving of transformed functions, hooks, wrappers and layers '
     'in any number of threads',
     'no test runs two threads through most of the library, and a lost race '
     'is silent',
     [S + 'base.py', S + 'module.py', S + 'data_structures.py',
      S + 'stateful.py', S + 'dot.py'],
     [('thread-local stacks', S + 'data_structures.py:ThreadLocalStack'),
      ('current frame', S + 'base.py:frame_stack')],
     ['threads:rule_c02'],
     note='effect analysis: no write reached from any region, wrapper, layer or '
     'network hits an object created at import that is not thread-local; '
     'thread-locals are initialised per thread')

prop('C06', 'State reads see the last write and every entry is returned',
     'Reading state returns the value most recently set under that name in '
     'that module, or else the value passed to apply, or else the value '
     'created by its initializer, which runs at most once; with none of these '
     'the read raises ValueError. apply returns the last value of every entry '
     'and returns untouched entries unchanged; init returns the value each '
     'entry first had.',
     ['programs', 'histories', 'inputs'],
     'every sequence of state reads and writes in any module, through every '
     'wrapper, from any state',
     'tests run a few fixed sequences',
     [S + 'base.py', S + 'transform.py', S + 'stateful.py'],
     [('initial/current pair', S + 'base.py:StatePair'),
      ('collecting the result', S + 'base.py:Frame')],
     ['state:rule_c06', 'hooks:rule_state'],
     note='all sequences up to length 3 of read/init-read/write through each '
     'wrapper, compared with a reference map; also an arbitrary state mapping')

prop('C07', 'Inputs are never modified and results never alias them',
     'init and apply never modify the parameters, state or other arguments '
     'passed in, whether they return or raise; what they return is immutable, '
     'and later runs never change what an earlier run returned.',
     ['programs', 'inputs', 'histories'],
     'every params/state mapping type, every wrapper, every number of runs',
     'tests never inspect their inputs after most calls',
     [S + 'base.py', S + 'transform.py', S + 'data_structures.py',
      S + 'stateful.py'],
     [('copy in', S + 'base.py:new_context'),
      ('freezing', S + 'data_structures.py:to_immutable_dict')],
     ['state:rule_c07', 'state:rule_c07_kinds'],
     note='write effects on every object reachable from the arguments, on '
     'every path; reachability between results and inputs')

prop('C08', 'A transform without state rejects state instead of losing it',
     'A function transformed without state that reads-with-init or sets state '
     'makes init and apply raise ValueError, wherever in the program the '
     'state is touched; a function that does not touch state is never '
     'rejected, and its result is unchanged.',
     ['programs', 'inputs'],
     'every program touching state through any module or wrapper, in init and '
     'in apply',
     'tests use one stateful function, mostly at init',
     [S + 'transform.py'],
     [('unused-state checks', S + 'transform.py:without_state')],
     ['state:rule_c08'],
     note='state touched directly, in modules and inside 16 wrappers; every '
     'way of removing state')

prop('C09', 'The derived function pairs forward exactly what they are given',
     'Each variant of a transformed pair (with or without state, with or '
     'without rng, from either conversion) calls the function once with '
     'exactly the given arguments, params, state and rng, and returns its '
     'result and new state in the documented positions; an absent rng is '
     'absent inside, and malformed rng or state arguments raise before any '
     'client code runs. hk.testing.transform_and_run(f) runs f once at init '
     'and, unless told not to, once at apply with what init made.',
     ['configurations', 'inputs'],
     'every composition of the conversions, positional and keyword arguments, '
     'seeds, keys and None',
     'tests cover single conversions with fixed arguments',
     [S + 'transform.py', S + 'base.py'],
     [('pair adapters', S + 'transform.py:without_apply_rng'),
      ('rng validation', S + 'base.py:PRNGSequence')],
     ['state:rule_c09', 'testrun:rule_run'],
     note='every composition of transform/with_state/without_state/'
     'without_apply_rng/running with None, seed, key')

prop('C10', 'Random keys are split, unique and never reused',
     'Every key handed out by next_rng_key and its variants, and every key a '
     'layer or dropout consumes, is derived by splitting from the key given to '
     'the run; no key is handed out twice, handed out after having been split, '
     'or consumed by two random operations, whatever was drawn before, in '
     'whatever order, inside whatever wrapper, and however many keys were '
     'reserved. Without a key next_rng_key raises and maybe_next_rng_key gives '
     'None.',
     ['programs', 'histories', 'configurations'],
     'every sequence of draws, reservations and restored internal states, '
     'every control-flow wrapper, with_rng nesting and every layer that uses '
     'randomness',
     'a reused key gives correlated but plausible numbers; tests compare a few '
     'draws in straight-line code',
     [S + 'base.py', S + 'stateful.py', S + 'basic.py', S + 'recurrent.py'],
     [('key sequence', S + 'base.py:PRNGSequence'),
      ('reserved block refill', S + 'stateful.py:reserve_up_to_full_rng_block'),
      ('with_rng', S + 'base.py:with_rng')],
     ['rng:rule_seq', 'rng:rule_run', 'rng:rule_layers'],
     note='linear-use analysis of key terms: draws x reservations x wrappers x '
     'phases, and every exported layer that draws')

prop('C12', 'Module names are unique, scoped and reproducible',
     'Within one run no two modules created in the same scope get the same '
     'full name: a second use of a name is numbered, an explicitly numbered '
     'name is kept or rejected with ValueError. The name is that of the '
     'enclosing module and method plus the requested name, depends only on the '
     'order of construction there, and is the same in init, in apply, in '
     'every run, and in every further call of the same method. Names that are '
     'not identifiers are rejected; a name_scope prefixes modules, parameters '
     'and state made inside it, once. A layer constructed with name=n is '
     'called n and everything it owns lives under n.',
     ['programs', 'histories'],
     'every sequence of requested names, every place modules are made in, both '
     'phases, repeated runs and calls',
     'two modules with one name silently share parameters; a different name in '
     'apply loses them; tests look at a few sequences',
     [S + 'module.py', S + 'base.py'],
     [('naming', S + 'module.py:unique_and_canonical_name'),
      ('counters per scope', S + 'base.py:Frame'),
      ('name scopes', S + 'module.py:NameScope')],
     ['naming:rule_c12', 'named:rule_named'],
     note='all sequences of 6 kinds of requests up to length 3 (and more) x '
     '9 places x 2 phases; uniqueness across a jax-transformed function and '
     'the code after it is not claimed')


prop('C13', 'Module methods run in their own scope, hooks and all',
     'Whatever a module method creates belongs to that module, however the '
     'method is reached: directly, through super, a property getter, setter or '
     'deleter, __call__, the constructor, another method or another module, '
     'inherited or not, and whatever interceptors are installed; what '
     'transparent, static and class methods create belongs to the caller; '
     'interceptors run exactly once per method call, in order, with the '
     'documented context, and their result '
     'is what the caller receives.',
     ['programs', 'configurations'],
     'every kind of method and inheritance, interceptor stacks of any depth, '
     'every nesting of modules and wrappers',
     'the combinations of method kind, inheritance and hooks are not '
     'enumerated by tests',
     [S + 'module.py', S + 'base.py'],
     [('metaclass wrapping', S + 'module.py:ModuleMetaclass'),
      ('wrap_method', S + 'module.py:wrap_method'),
      ('interceptors', S + 'module.py:run_interceptors')],
     ['naming:rule_c13', 'hooks:rule_methods'],
     note='20 method kinds x inheritance x interceptor stacks x wrappers')

prop('C15', 'hk.jit, grad, cond, scan, ... are jax\'s, with haiku state threaded',
     'Inside a transform every haiku version of a jax transformation passes '
     'the arguments, options and results of the client through unchanged, '
     'uses the jax function of that name exactly once, and threads parameters, '
     'state and random keys through it: what the wrapped function reads is '
     'what was there before the call (for loops: what the previous iteration '
     'left), what it writes is visible after the call.',
     ['programs', 'configurations', 'inputs'],
     'every wrapper, option, call style and phase, and any use of parameters, '
     'state and keys in the wrapped function',
     'tests cover single options; a dropped option or a lost state write '
     'changes gradients or batch statistics silently',
     [S + 'stateful.py', S + 'base.py'],
     [('internal state in/out', S + 'stateful.py:temporary_internal_state'),
      ('wrappers', S + 'stateful.py')],
     ['wrappers:rule_c15'],
     note='jit, remat, grad, value_and_grad, vmap, cond, switch, scan, '
     'fori_loop, while_loop x options x phases x uses of state')

prop('C16', 'Control flow carries one fixed structure and initialises once',
     'Whatever the body of a cond, switch, scan, fori_loop or while_loop draws, '
     'reads or writes, the pytree that haiku threads through it has the same '
     'structure on entry and exit and in all branches. During init the body of '
     'scan and fori_loop runs first outside of the loop so that parameters are '
     'created once, and the remaining iterations continue from there; '
     'while_loop refuses init and conditions with side effects.',
     ['programs', 'histories'],
     'every combination of draws, reservations, reads and writes before and '
     'inside the construct, with and without a key',
     'a mismatch appears only for particular combinations of draws before and '
     'inside',
     [S + 'stateful.py', S + 'base.py'],
     [('key block', S + 'stateful.py:reserve_up_to_full_rng_block'),
      ('loops', S + 'stateful.py:scan')],
     ['wrappers:rule_c16'],
     note='carry/branch structures compared as trees over 8 apis x uses before '
     'x uses inside x phase x key/no key')


prop('C17', 'Transform-only functions fail cleanly outside a transform',
     'Every function that needs a transform, every module constructor and '
     'every method of a module that outlived its transform raises ValueError '
     'when used outside one, without running client code and without leaving '
     'anything behind, also after earlier runs failed.',
     ['programs', 'histories'],
     'every public function and module class, before any transform, after a '
     'completed one and after a failed one',
     'tests cover about ten functions',
     [S + 'base.py', S + 'module.py', S + 'stateful.py'],
     [('context assertion', S + 'base.py:assert_context')],
     ['threads:rule_c17'],
     note='all public functions, regions and exported module classes')

prop('C28', 'Transformed functions nest without influencing each other',
     'Calling init or apply of a transformed function inside another one '
     'leaves the outer parameters, state, random keys, module names and phase '
     'untouched, and the inner run sees none of the outer ones.',
     ['programs', 'histories'],
     'every combination of outer and inner phase, inside every wrapper',
     'tests nest one pair in one order',
     [S + 'base.py', S + 'transform.py'],
     [('frame stack', S + 'base.py:frame_stack')],
     ['state:rule_c28'],
     note='2x2 phases x wrappers; what both sides read, create and return')


prop('C22', 'partition, filter, map and merge lose, invent and change nothing',
     'hk.data_structures.partition puts every (module, name, value) leaf into '
     'exactly the part the predicate chooses; filter keeps exactly the leaves '
     'with a true predicate; map keeps the structure and replaces each value '
     'by the result of the function; each leaf is visited once; merge holds '
     'every leaf of each structure, later ones win, and undoes partition. The '
     'inputs are unchanged, the results immutable and independent of them.',
     ['inputs'],
     'every parameter structure, predicate, mapping type and number of parts',
     'tests use a few fixed dicts; the guarantee is for every structure and '
     'every predicate',
     [S + 'filtering.py', S + 'data_structures.py'],
     [('partition', S + 'filtering.py:partition'),
      ('filter and map', S + 'filtering.py:filter'),
      ('merge', S + 'filtering.py:merge')],
     ['structures:rule_c22'],
     note='shapes of 0-3 modules with 0-3 leaves in several mapping types, '
     'opaque leaves, every truth assignment of the predicate')

prop('C23', 'Structures are converted and read without changing content',
     'to_immutable_dict and to_mutable_dict keep every module, name and value; '
     'the mutable result shares no dict with its argument and the immutable '
     'one does not see later edits of it; a FlatMapping answers '
     'every mapping operation like the dict it was built from; '
     'jax.tree_util sees the same leaves; tree_size and tree_bytes add up all '
     'of them.',
     ['inputs', 'histories'],
     'every structure, mapping type and order of operations',
     'tests compare a few fixed structures',
     [S + 'data_structures.py'],
     [('FlatMapping', S + 'data_structures.py:FlatMapping'),
      ('conversions', S + 'data_structures.py:to_immutable_dict')],
     ['structures:rule_c23', 'structures:rule_deep', 'testrun:rule_sizes'],
     note='shapes of 0-3 modules in several mapping types with opaque leaves')

prop('C25', 'Lifted functions keep their parameters in the outer transform',
     'hk.experimental.lift(init) run during the outer init makes every '
     'parameter of the inner function a parameter of the outer one under the '
     'lifted module name, once and without collision, and returns them '
     'unprefixed; run during apply it returns exactly the outer values under '
     'the inner names, so that the inner apply uses them; nothing else of the '
     'outer function is touched.',
     ['programs', 'configurations'],
     'every inner parameter structure, lift name, repeated and nested lifts, '
     'every place and wrapper around it',
     'tests lift one or two fixed programs',
     [S + 'lift.py', S + 'base.py'],
     [('prefixing', S + 'lift.py:LiftingModule')],
     ['lifting:rule_c25'],
     note='5 inner structures x 5 name lists x 4 places, and 12 wrappers')

prop('C30', 'params_dict and state_dict are exactly what the module owns',
     'module.params_dict() and state_dict() hold every parameter or state '
     'entry that was read or written in a method of that module or of any '
     'module called by it, under its full name and with the current value, and '
     'nothing of any other module, even with a similar name.',
     ['programs', 'histories'],
     'every module hierarchy, shared modules, phase and wrapper',
     'tests use two fixed hierarchies',
     [S + 'module.py', S + 'base.py'],
     [('submodule tracking', S + 'module.py:wrap_method'),
      ('params_dict', S + 'module.py:params_or_state_dict')],
     ['lifting:rule_c30'],
     note='a hierarchy with shared and similarly named modules x 12 wrappers x '
     'phases')

prop('C29', 'Summaries record every call of a module method',
     'hk.experimental.eval_summary(f)(*args), for a function or a transformed '
     'function, runs f with shapes only and returns one record for each call '
     'of a module method f makes and that returns, in the order the calls '
     'begin: the module and method, its arguments and result with every array '
     'replaced by its shape and type and everything else kept, the parameters '
     'and state the module owns, the interceptor context and the stack of '
     'active module methods, innermost first. tabulate shows the records that '
     'pass its filters, one row each, with the requested columns in order: '
     'call stack, configuration, parameters of the module itself, arguments, '
     'result and total parameter count.',
     ['programs'],
     'every nesting of modules, methods, kinds of arguments and of transformed '
     'function, columns and filters',
     'tests compare two short tables and a few records',
     [S + 'summarise.py', S + 'utils.py'],
     [('records', S + 'summarise.py:eval_summary'),
      ('interception', S + 'summarise.py:log_used_modules'),
      ('table', S + 'summarise.py:tabulate')],
     ['summaries:rule_eval_summary', 'summaries:rule_tabulate'],
     note='11 programs x 5 kinds of function, each summarised twice; 3 '
     'programs x 6 tables. Calls that raise are not recorded; how often jax '
     'traces a loop body and the layout of the table text are not claimed')

prop('C18', 'Layers create the documented parameters and return the documented shapes',
     'For all sizes of its input, every layer (linear, convolutions, pooling, '
     'normalisation, recurrent cores, attention, embeddings, moving averages, '
     'networks) creates parameters of the documented names and shapes at init, '
     'and init and apply return arrays of the documented shape; state entries '
     'keep their shape from call to call; batched and '
     'unbatched inputs and the data formats agree. No operation inside combines '
     'arrays whose sizes only agree by accident.',
     ['inputs', 'programs'],
     'every batch, time, spatial and channel size (symbolic), each layer with '
     'its options, init and apply',
     'tests fix a few small sizes, where sizes often coincide and mask axis '
     'mix-ups',
     [S + 'basic.py', S + 'conv.py', S + 'pool.py', S + 'batch_norm.py',
      S + 'layer_norm.py', S + 'group_norm.py', S + 'recurrent.py',
      S + 'attention.py', S + 'embed.py', S + 'moving_averages.py',
      S + 'nets/resnet.py', S + 'nets/mlp.py', S + 'depthwise_conv.py',
      S + 'pad.py'],
     [('linear', S + 'basic.py:Linear'), ('convolution', S + 'conv.py:ConvND'),
      ('recurrent cores', S + 'recurrent.py:LSTM'),
      ('attention', S + 'attention.py:MultiHeadAttention')],
     ['numeric:rule_shapes', 'numeric:rule_deep'], technique=SHAPES,
     note='symbolic shapes (polynomials in the sizes) through every operation '
     'of over 150 layer programs; an operation without a shape rule is '
     'reported as undecided, never as a violation')

prop('C20', 'Inference treats the examples of a batch separately',
     'Outside of training mode, and for layers without statistics across the '
     'batch at any time, the output for one example of a batch depends on that '
     'example only: the examples can be permuted, split or padded without '
     'changing the other outputs. Initial parameters do not depend on the '
     'batch at all.',
     ['inputs', 'programs'],
     'every layer with a batch axis, in evaluation mode, for every batch size '
     'and content',
     'tests look at outputs of one fixed batch; leaking across examples shows '
     'only when batches are compared',
     [S + 'basic.py', S + 'conv.py', S + 'pool.py', S + 'batch_norm.py',
      S + 'layer_norm.py', S + 'group_norm.py', S + 'recurrent.py',
      S + 'attention.py', S + 'embed.py', S + 'nets/resnet.py',
      S + 'nets/mobilenetv1.py', S + 'nets/vqvae.py'],
     [('normalisation axes', S + 'layer_norm.py:LayerNorm.__call__'),
      ('batch statistics only in training', S + 'batch_norm.py:BatchNorm'),
      ('unroll axes', S + 'recurrent.py:dynamic_unroll')],
     ['numeric:rule_batch'], technique=SHAPES,
     note='axis provenance: which axis of every intermediate array is the '
     'batch axis, and whether an operation mixes along it')

prop('C21', 'Layers keep the floating point type of their input',
     'Applied to inputs of one floating point type (float16, bfloat16, float32, '
     'float64) a layer creates its parameters in that type, keeps the type of '
     'its state entries from call to call and returns the type of its input: no constant, mask, initial state or default silently widens or '
     'narrows the computation.',
     ['inputs', 'programs'],
     'every layer and option, for every floating point input type (symbolic)',
     'tests run in float32, where all promotions are invisible',
     [S + 'basic.py', S + 'conv.py', S + 'pool.py', S + 'batch_norm.py',
      S + 'layer_norm.py', S + 'group_norm.py', S + 'recurrent.py',
      S + 'attention.py', S + 'initializers.py', S + 'moving_averages.py'],
     [('parameter types', S + 'basic.py:Linear.__call__'),
      ('initial states', S + 'recurrent.py:LSTM.initial_state'),
      ('normalisation constants', S + 'layer_norm.py:LayerNorm.__call__')],
     ['numeric:rule_dtype'], technique=SHAPES,
     note='type inference with a symbolic floating point type and the weak '
     'type promotion rules of jax')

prop('C11', 'Evaluation leaves the statistics alone, training updates them all',
     'Called in evaluation mode (is_training=False or update_stats=False) a '
     'layer returns every state entry exactly as it was; called in training '
     'mode it folds the input into every statistic it keeps.',
     ['inputs', 'programs'],
     'every layer that keeps statistics (batch norm and the networks using it, '
     'moving averages and spectral norms of arrays and of parameter trees, '
     'vector quantisers), every input and every earlier state',
     'tests compare a statistic or two after a few steps; the guarantee is '
     'about all entries from any state',
     [S + 'batch_norm.py', S + 'moving_averages.py', S + 'spectral_norm.py',
      S + 'nets/vqvae.py', S + 'nets/resnet.py', S + 'nets/mobilenetv1.py'],
     [('statistics of batch norm', S + 'batch_norm.py:BatchNorm.__call__'),
      ('moving average', S + 'moving_averages.py:ExponentialMovingAverage'),
      ('power iteration', S + 'spectral_norm.py:SpectralNorm.__call__')],
     ['numeric:rule_modes'],
     note='the state returned by apply is compared, as terms, with the '
     'symbolic state given')

prop('C19', 'A module call does not depend on earlier calls',
     'Calling one module instance several times is the same as calling a new '
     'instance with the same parameters and state each time: a module keeps '
     'nothing between calls except in parameters and state, also when a later '
     'input has another batch, spatial or sequence size.',
     ['histories', 'inputs'],
     'every layer, two calls with inputs of different (symbolic) sizes',
     'tests call a module once, or again with the same shape',
     [S + 'basic.py', S + 'conv.py', S + 'group_norm.py', S + 'batch_norm.py',
      S + 'layer_norm.py', S + 'bias.py', S + 'recurrent.py', S + 'embed.py',
      S + 'attention.py', S + 'spectral_norm.py', S + 'pool.py',
      S + 'reshape.py'],
     [('group normalisation', S + 'group_norm.py:GroupNorm.__call__'),
      ('bias', S + 'bias.py:Bias.__call__'),
      ('reshape', S + 'reshape.py:Reshape.__call__')],
     ['numeric:rule_history'],
     note='m(x); m(y) against m(x) and a fresh m(y) from the state in between: '
     'results and state are the same terms')


prop('C24', 'Layers compute the functions they document',
     'For all inputs, parameters, state and sizes the value returned by a '
     'layer is the documented function of them: affine maps, convolutions and '
     'transposed convolutions with their strides, rates, paddings, groups and '
     'masks, pooling, layer, instance, group and batch normalisation, moving '
     'averages and spectral normalisation, attention, vanilla, LSTM, GRU and '
     'convolutional LSTM cells, reset cores and stacked cores, dropout, '
     'embedding, vector quantisation, MLP, ResNet and MobileNet. So are the '
     'state they store, and where gradients are stopped.',
     ['inputs', 'programs'],
     'every layer and every documented option, for all values of inputs, '
     'parameters and state, all batch, spatial, channel and sequence sizes',
     'tests compare numbers for a few inputs, mostly ones and zeros, and '
     'default options',
     [S + 'basic.py', S + 'conv.py', S + 'depthwise_conv.py', S + 'pool.py',
      S + 'bias.py', S + 'batch_norm.py', S + 'layer_norm.py',
      S + 'group_norm.py', S + 'moving_averages.py', S + 'spectral_norm.py',
      S + 'recurrent.py', S + 'attention.py', S + 'embed.py',
      S + 'reshape.py', S + 'nets/mlp.py', S + 'nets/resnet.py',
      S + 'nets/mobilenetv1.py', S + 'nets/vqvae.py'],
     [('normalisation', S + 'layer_norm.py:LayerNorm.__call__'),
      ('statistics and moving averages', S + 'batch_norm.py:BatchNorm.__call__'),
      ('gates', S + 'recurrent.py:LSTM.__call__'),
      ('attention', S + 'attention.py:MultiHeadAttention.__call__'),
      ('residual blocks', S + 'nets/resnet.py:BlockV1.__call__')],
     ['formulas:rule_formulas'], technique=FORMS,
     note='equality of real-number formulas: rounding and the order of '
     'floating point operations are not considered; conv_general_dilated, '
     'conv_transpose and reduce_window are compared by operands and attributes')


prop('C26', 'Parameters and state start as documented',
     'The values init creates are the documented ones for every size: weights '
     'of linear and convolution layers are truncated normal with deviation '
     '1/sqrt(fan in), attention projections and GRU weights are variance '
     'scaled, biases, offsets and recurrent states start at zero and scales at '
     'one, zero-initialised parts of residual networks at zero, averages at '
     'the statistics of the first call. An initializer given to a layer makes '
     'exactly the parameter it was given for, and each initializer draws from '
     'the distribution its arguments and the shape define.',
     ['inputs', 'programs'],
     'every layer and initializer, for all sizes of the inputs and all values '
     'of random draws',
     'tests look at means and deviations of one sampled shape with wide '
     'tolerances, or only at shapes',
     [S + 'initializers.py', S + 'basic.py', S + 'conv.py',
      S + 'depthwise_conv.py', S + 'bias.py', S + 'batch_norm.py',
      S + 'layer_norm.py', S + 'group_norm.py', S + 'moving_averages.py',
      S + 'spectral_norm.py', S + 'recurrent.py', S + 'attention.py',
      S + 'embed.py', S + 'nets/mlp.py', S + 'nets/resnet.py',
      S + 'nets/vqvae.py'],
     [('fans', S + 'initializers.py:_compute_fans'),
      ('variance scaling', S + 'initializers.py:VarianceScaling.__call__'),
      ('default weights', S + 'conv.py:ConvND.__call__'),
      ('orthogonal', S + 'initializers.py:Orthogonal.__call__')],
     ['initial:rule_initial', 'initial:rule_initializers',
      'initial:rule_given', 'initial:rule_states'], technique=FORMS,
     note='equality of formulas over independent standard draws, whatever keys '
     'they use (keys: see the properties on random numbers)')


prop('C27', 'Invalid configurations of layers are refused',
     'A layer, initializer or function used against its documented domain '
     '(sizes that do not divide, ranks, masks, paddings, data formats, rates, '
     'decays, axes, initializers for parameters that are switched off, options '
     'that exclude each other) raises the documented error instead of '
     'computing something, whatever the sizes and values of its inputs; the '
     'valid configuration next to it is accepted.',
     ['inputs', 'programs'],
     'documented misuse of the layers, for all inputs of the given ranks',
     'tests try few of them, on arrays of one shape',
     [S + 'basic.py', S + 'conv.py', S + 'depthwise_conv.py', S + 'pool.py',
      S + 'bias.py', S + 'batch_norm.py', S + 'layer_norm.py',
      S + 'group_norm.py', S + 'moving_averages.py', S + 'spectral_norm.py',
      S + 'recurrent.py', S + 'embed.py', S + 'reshape.py',
      S + 'initializers.py', S + 'utils.py', S + 'summarise.py',
      S + 'nets/mlp.py', S + 'nets/resnet.py', S + 'nets/mobilenetv1.py',
      S + 'nets/vqvae.py'],
     [('groups', S + 'group_norm.py:GroupNorm.__call__'),
      ('output sizes', S + 'conv.py:compute_adjusted_padding'),
      ('rates', S + 'basic.py:dropout'),
      ('data formats', S + 'utils.py:get_channel_index'),
      ('replication', S + 'utils.py:replicate')],
     ['refusals:rule_refusals'])


NA = []


def na(id, title, statement, over, text, why, files, mechanism, reason):
  NA.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[
          dict(name=n, where=w) for n, w in mechanism]), reason=reason))


BY_ID = {p['id']: p for p in P}
