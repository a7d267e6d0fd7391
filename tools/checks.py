"""What each check runs. Counts are cases (bounded by number, never by time)."""

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
VARIANTS = {
    # quick: clang, asserts on
    'asan': {'cxx': 'clang++', 'cc': 'clang', 'flags': SAN, 'lib': ['-O1'], 'harness': ['-O0']},
    # as users ship it: optimised, no asserts, other compiler
    'ndebug': {'cxx': 'g++', 'cc': 'gcc', 'flags': SAN + ['-DNDEBUG'], 'lib': ['-O2'], 'harness': ['-O1']},
    # without sanitizers: many more executions, and memory is reused at once (stale pointers are to something else)
    'plain': {'cxx': 'clang++', 'cc': 'clang', 'flags': [], 'lib': ['-O2'], 'harness': ['-O1'], 'chunk': 1500},
    # the library's own replacement of std::pmr
    'compat': {'cxx': 'clang++', 'cc': 'clang', 'flags': SAN + ['-DDYNAMIX_FORCE_PMR_COMPAT=1'], 'lib': ['-O1'], 'harness': ['-O0'],
               'link': ['-Wl,--wrap=_ZN7dynamix6compat3pmr20get_default_resourceEv']},
    # the library as a shared one (its default) with all symbols hidden but the exported ones
    'shared': {'cxx': 'clang++', 'cc': 'clang', 'flags': ['-DDYNAMIX_SHARED=1', '-fvisibility=hidden', '-fPIC'], 'lib': ['-O2', '-DBUILDING_DYNAMIX=1'], 'harness': ['-O0'], 'shared': True,
               'chunk': 500},
    'tsan': {'cxx': 'clang++', 'cc': 'clang', 'flags': ['-fsanitize=thread'], 'lib': ['-O1'], 'harness': ['-O1']},
    # another compiler's race detector
    'tsan_gcc': {'cxx': 'g++', 'cc': 'gcc', 'flags': ['-fsanitize=thread'], 'lib': ['-O1'], 'harness': ['-O1']},
}

HARNESSES = {
    'world': {'sources': ['world.cpp']},
    'conc': {'sources': ['conc.cpp']},
    'msg': {'sources': ['msg.cpp']},
    'edsl': {'sources': ['edsl.cpp'], 'generate': 'edsl'},
    'bits': {'sources': ['bits.cpp', 'bits_c.c']},
    'sv': {'sources': ['sv.cpp', 'sv_c.c'], 'lib': False},
    'v1': {'sources': ['v1.cpp'], 'generate': 'v1', 'reversed': True},
    'plug': {'sources': ['plug.cpp'], 'lib': False, 'flags': ['-DDYNAMIX_SHARED=1', '-fvisibility=hidden'], 'link': ['-Wl,-rpath,$ORIGIN', '-lplughost', '-ldynamix', '-ldl'],
             'shared': [('dynamix', None, ['-DBUILDING_DYNAMIX=1'], []), ('plughost', ['plug_host.cpp'], ['-DBUILDING_PLUG_HOST=1'], ['dynamix'])]
                       + [('plug%d' % i, ['plug_plugin.cpp'], ['-DPLUG=%d' % i], ['plughost', 'dynamix']) for i in range(5)]},
    # reversed: linked in the other order too (initialisation of static objects)
    'builder': {'sources': ['builder.cpp', 'builder_static.cpp', 'builder_static_msgs.cpp', 'builder_static_mixins.cpp', 'builder_static_more.cpp'], 'generate': 'builder', 'reversed': True},
}

WORLD_RULE = ('one case = a generated domain pair (mixins, features, rules, allocators, settings) and a generated history of operations; '
              'the implementation is compared with a reference model after every operation, under ASan and UBSan; '
              'a case is non-trivial if it changed objects, types or registries beyond setup; distinct by the sequence of (operation, outcome, resulting model state)')
WORLD_ASSUME = ['mixin functions, rules and allocators of the workload keep their documented contracts',
                'stand-ins for the header-only dependencies itlib and splat behave like the originals']


def world(profile, quick, thorough, must=()):
    return {
        'runs': [
            {'harness': 'world', 'profile': profile, 'quick': quick, 'thorough': thorough},
            {'harness': 'world', 'profile': profile, 'variant': 'plain', 'quick': quick * 10, 'thorough': thorough * 10, 'seed_offset': 4000003},
            # everything else, a bit: the property must hold in every history
            {'harness': 'world', 'profile': 'all', 'quick': quick // 8, 'thorough': thorough // 4},
            {'harness': 'world', 'profile': profile, 'variant': 'ndebug', 'thorough': thorough // 3, 'seed_offset': 1000003},
        ],
        'rule': WORLD_RULE, 'assumptions': WORLD_ASSUME, 'must_observe': list(must) + ['large histories'],
    }


Q, T = 4000, 60000
CHECKS = {
    'C01': world('types', Q, T),
    'C02': world('ftables', Q, T),
    'C04': world('lifetime', Q, T),
    'C05': world('atomicity', Q, T),
    'C06': world('layout', Q, T),
    'C07': world('registry', Q, T),
    'C08': world('rules', Q, T),
    'C11': world('copy', Q, T),
    'C12': world('compare', Q, T),
    'C13': world('sealing', Q, T),
    'C14': world('gc', Q, T),
    'C15': world('allocators', Q, T),
    'C16': world('capi', Q, T),
    'C17': world('edsl', Q, T),
    'C18': world('piecewise', Q, T),
    'C19': world('typemut', Q, T),
    'C22': world('inspect', Q, T),
    'C23': world('faults', Q, T),
}

INTER = ('interleave: one case = a generated domain and 2-3 generated operations; the second is run in the middle of the first at each of its points '
         '(before a lock is taken, after a lock is released, in allocator and rule callbacks), the third in the middle of the second or after it; all points are enumerated; '
         'results and final state must be those of a sequential order and stored queries and types must agree with the model of rules. ')
STRESS = ('stress: one case = 2-8 threads which share a domain and run generated operations with injected delays, each checked against what the other threads may do; '
          'the final state is checked after all have finished; distinct by numbers of requests and hits of the threads')
CHECKS['C09'] = {
    'runs': [
        {'harness': 'conc', 'profile': 'stress', 'variant': 'tsan', 'quick': 8000, 'thorough': 40000},
        {'harness': 'conc', 'profile': 'stress', 'quick': 4000, 'thorough': 40000},
        {'harness': 'conc', 'profile': 'stress', 'variant': 'plain', 'quick': 20000, 'thorough': 200000, 'seed_offset': 4000003},
        {'harness': 'conc', 'profile': 'interleave', 'quick': 3000, 'thorough': 20000},
        {'harness': 'conc', 'profile': 'interleave', 'variant': 'plain', 'quick': 60000, 'thorough': 600000, 'seed_offset': 4000003},
        {'harness': 'conc', 'profile': 'stress', 'variant': 'tsan_gcc', 'thorough': 20000, 'seed_offset': 1000003},
        {'harness': 'conc', 'profile': 'stress', 'variant': 'ndebug', 'thorough': 20000, 'seed_offset': 2000003},
    ],
    'rule': 'ThreadSanitizer, AddressSanitizer and monitors. ' + STRESS + '. ' + INTER,
    'assumptions': ['the operating system schedules threads so that races are exposed: repeated with injected delays, not enumerated'] + WORLD_ASSUME,
    'must_observe': ['concurrent requests', 'concurrent registrations', 'concurrent rule changes', 'concurrent garbage collections', 'interleavings'],
}
CHECKS['C10'] = {
    'runs': [
        {'harness': 'conc', 'profile': 'interleave', 'quick': 24000, 'thorough': 200000},
        {'harness': 'conc', 'profile': 'interleave', 'variant': 'plain', 'quick': 200000, 'thorough': 2000000, 'seed_offset': 4000003},
        {'harness': 'conc', 'profile': 'stress', 'quick': 2400, 'thorough': 20000},
        {'harness': 'conc', 'profile': 'interleave', 'variant': 'ndebug', 'thorough': 60000, 'seed_offset': 1000003},
    ],
    'rule': INTER + STRESS,
    'assumptions': ['points between the operations of one critical section are not interleaved (they are protected by the lock: C09)'] + WORLD_ASSUME,
    'must_observe': ['interleavings', 'stored queries checked', 'operation pairs with several outcomes'],
}
# these hold with threads as well (C09 and C10 go deeper and watch for data races)
for id in ('C01', 'C07', 'C08', 'C14'):
    CHECKS[id]['runs'] += [
        {'harness': 'conc', 'profile': 'stress', 'variant': 'plain', 'quick': 6000, 'thorough': 60000, 'seed_offset': 5000003},
        {'harness': 'conc', 'profile': 'stress', 'quick': 800, 'thorough': 8000, 'seed_offset': 6000003},
        {'harness': 'conc', 'profile': 'interleave', 'quick': 2400, 'thorough': 20000, 'seed_offset': 5000003},
    ]
    CHECKS[id]['rule'] += '. ' + INTER + STRESS
    CHECKS[id]['must_observe'] += ['interleavings', 'concurrent requests']
CHECKS['C03'] = {
    'runs': [
        {'harness': 'msg', 'profile': 'msg', 'quick': 6000, 'thorough': 200000},
        {'harness': 'msg', 'profile': 'msg', 'variant': 'plain', 'quick': 60000, 'thorough': 1500000, 'seed_offset': 4000003},
        {'harness': 'msg', 'profile': 'msg', 'variant': 'ndebug', 'thorough': 60000, 'seed_offset': 1000003},
    ],
    'rule': ('one case = a generated set of mixins with generated bids and priorities for a fixed set of messages (unicast, multicast, with and without default '
             'implementation, const, by value, by reference, move-only, clashes allowed), generated types and calls on objects of them; which implementations run, in which '
             'order, on which mixin, with what arguments and with what result is compared with a reference model, under ASan and UBSan; '
             'distinct by the sequence of calls and outcomes'),
    'assumptions': ['a mixin implements a message at most once', WORLD_ASSUME[1]],
    'must_observe': ['calls', 'calls with combinators', 'calls with deep chains', 'clashes', 'mutations by default implementations', 'mutations by external mixins',
                     'mutations by last implementations'],
    'compile_is_property': True,
}

CHECKS['C17']['runs'] += [
    {'harness': 'edsl', 'profile': 'edsl', 'quick': 16000, 'thorough': 300000},
    {'harness': 'edsl', 'profile': 'edsl', 'variant': 'plain', 'quick': 160000, 'thorough': 3000000, 'seed_offset': 4000003},
    {'harness': 'edsl', 'profile': 'edsl', 'variant': 'ndebug', 'thorough': 60000, 'seed_offset': 1000003},
]
CHECKS['C17']['rule'] += ('; typed expressions: one case = generated rules, objects and 1-12 mutations, each an expression of a fixed generated set '
                          '(300 for mutate, 130 for mutate_to) or a generated step-by-step mutation; which initialisers run with which arguments, '
                          'copies and identity of arguments, outcome, resulting type and state are compared with a model')
CHECKS['C17']['must_observe'] += ['mutate expressions', 'mutate_to expressions', 'step-by-step mutations', 'mutations with custom initialisers', 'conflicting initialisers']
CHECKS['C17']['compile_is_property'] = True

CHECKS['C21'] = {
    'runs': [
        {'harness': 'builder', 'profile': 'builder', 'quick': 12000, 'thorough': 300000},
        {'harness': 'builder', 'profile': 'builder', 'variant': 'plain', 'quick': 100000, 'thorough': 2000000, 'seed_offset': 4000003},
        {'harness': 'builder', 'profile': 'builder', 'reversed': True, 'quick': 80, 'thorough': 1000, 'chunk': 20},
        {'harness': 'builder', 'profile': 'builder', 'variant': 'ndebug', 'quick': 1600, 'thorough': 100000, 'seed_offset': 1000003},
    ],
    'rule': ('one case = 4-12 of 140 generated and hand-written classes (all kinds of special members), each function of the info compared with the class\'s own operation; '
             'or a generated sequence of builder calls, the built definition compared with a model after each; or a history of registrations of built mixins with shared rules '
             'in two domains, with failing memory, the domain\'s content compared with a model after each and types with the rules; or definition instances as the macros make them; '
             'under ASan and UBSan; distinct by the sequence of classes, calls and outcomes'),
    'assumptions': ['infos leave a domain before the domain ends', WORLD_ASSUME[1]],
    'must_observe': ['classes', 'class functions compared', 'builder calls', 'feature builder calls', 'registrations', 'failed registrations', 'registrations with failing memory',
                     'types changed by rules of definitions', 'instances', 'type class instances', 'static definitions'],
    'compile_is_property': True,
}

CHECKS['C20'] = {
    'runs': [
        {'harness': 'sv', 'profile': 'sv', 'quick': 40000, 'thorough': 1000000},
        {'harness': 'sv', 'profile': 'sv', 'variant': 'plain', 'quick': 400000, 'thorough': 8000000, 'seed_offset': 4000003},
        {'harness': 'sv', 'profile': 'sv', 'variant': 'ndebug', 'quick': 8000, 'thorough': 200000, 'seed_offset': 1000003},
    ],
    'rule': ('all views of up to 3 bytes of {0, a, 0x80} and the null view (each, pairs, triples); then one case = 5-6 views which are generated as related (prefixes, one byte '
             'changed, overlapping parts of the same memory, null), in memory of exactly their size: construction, conversions, sizes, searches, prefixes, comparisons and operators '
             'in C and C++ against std::string_view, the order of triples; under ASan and UBSan; distinct by the content of the views'),
    'assumptions': ['views from dnmx_make_sv_len in C have non-null memory'],
    'must_observe': ['views', 'prefixes', 'different pairs', 'equal pairs', 'triples', 'enumerated pairs'],
    'compile_is_property': True,
}

CHECKS['C24'] = {
    'technique': 'generated programs of the compatibility layer run under ASan/UBSan/TSan, traces of calls and objects compared with an executable model',
    'runs': [
        {'harness': 'v1', 'profile': 'v1', 'quick': 10000, 'thorough': 400000},
        {'harness': 'v1', 'profile': 'v1', 'variant': 'plain', 'quick': 80000, 'thorough': 3000000, 'seed_offset': 4000003},
        {'harness': 'v1', 'profile': 'v1', 'reversed': True, 'quick': 80, 'thorough': 1000, 'chunk': 20},
        {'harness': 'v1', 'profile': 'threads', 'variant': 'tsan', 'quick': 600, 'thorough': 8000},
        {'harness': 'v1', 'profile': 'v1', 'variant': 'ndebug', 'quick': 2000, 'thorough': 100000, 'seed_offset': 1000003},
    ],
    'rule': ('one case = a history of 15-60 operations on objects of 14 mixins, which implement 31 messages (0-5 arguments of all kinds, overloads, bids, priorities, bound and '
             'inherited functions, default implementations) generated with the macros of v1compat: mutations, calls with scripts (mixins call next bidders, throw, return values), '
             'all combinators, copies, moves, rules of all kinds added and removed by id; every call\'s sequence of mixins, arguments and results and every object is compared with '
             'a model; or threads which add and remove rules, mutate and call; under ASan, UBSan and TSan; distinct by mutations, rules and traces of calls'),
    'assumptions': ['the macros made by gen_message_macros.rb are made by an equivalent in Python from the templates of the tree (no ruby here)', WORLD_ASSUME[1]],
    'must_observe': ['message calls', 'combinator calls', 'calls of next bidders', 'default implementations', 'multicasts to several mixins', 'mutations', 'mutations with type_error',
                     'rules added', 'rules removed', 'copies', 'rules in threads', 'calls in threads'],
    'compile_is_property': True,
}

CHECKS['C26'] = {
    'technique': 'generated histories of a program which loads and unloads instrumented shared libraries (ASan/UBSan/TSan), objects, calls and the domain\'s content compared with a model',
    'runs': [
        {'harness': 'plug', 'profile': 'plug', 'quick': 3000, 'thorough': 60000, 'chunk': 75},
        {'harness': 'plug', 'profile': 'plug', 'variant': 'plain', 'quick': 20000, 'thorough': 600000, 'chunk': 500, 'seed_offset': 4000003},
        {'harness': 'plug', 'profile': 'threads', 'variant': 'tsan', 'quick': 900, 'thorough': 12000, 'chunk': 30, 'weight': 2},
        # all that the other harnesses use is exported, and works the same
        {'harness': 'world', 'profile': 'all', 'variant': 'shared', 'quick': 4000, 'thorough': 100000, 'seed_offset': 7000003},
        {'harness': 'builder', 'profile': 'builder', 'variant': 'shared', 'quick': 4000, 'thorough': 100000, 'seed_offset': 7000003},
        {'harness': 'edsl', 'profile': 'edsl', 'variant': 'shared', 'quick': 4000, 'thorough': 100000, 'seed_offset': 7000003},
        {'harness': 'msg', 'profile': 'msg', 'variant': 'shared', 'quick': 2000, 'thorough': 50000, 'seed_offset': 7000003},
        {'harness': 'bits', 'profile': 'bits', 'variant': 'shared', 'quick': 2000, 'thorough': 50000, 'seed_offset': 7000003},
        {'harness': 'bits', 'profile': 'c', 'variant': 'shared', 'quick': 2000, 'thorough': 50000, 'seed_offset': 7000003},
        {'harness': 'v1', 'profile': 'v1', 'variant': 'shared', 'quick': 2000, 'thorough': 50000, 'seed_offset': 7000003},
        {'harness': 'plug', 'profile': 'threads', 'quick': 1500, 'thorough': 20000, 'chunk': 75, 'weight': 2},
        {'harness': 'plug', 'profile': 'threads', 'variant': 'plain', 'quick': 4000, 'thorough': 60000, 'chunk': 200, 'weight': 2, 'seed_offset': 4000003},
    ],
    'rule': ('the library, a host library (domain, messages, mixins, a rule) and five plugins (the same class names, two versions of one; own messages, rules, allocator, type class) are '
             'shared libraries with hidden symbols; one case = 20-80 steps which load and unload plugins (with dlclose, and really gone), mutate objects by name, info and from '
             'within the plugin, call messages and fail in the program and in plugins, copy, move, collect types; every call, object and the whole content of the domain is compared with '
             'a model; some plugins stay loaded to the end of the program; or 2-4 threads, each with its own plugin; the cases of the other harnesses (C01-C25) with the library as a shared one; under ASan, UBSan, TSan and without; distinct by the steps and results'),
    'assumptions': ['no object has a mixin of a library when it is unloaded; a library which defines messages unregisters them when it goes', WORLD_ASSUME[1]],
    'must_observe': ['libraries loaded', 'libraries really unloaded', 'calls from libraries', 'errors in libraries', 'errors in the program', 'objects of libraries', 'own messages of a library',
                     'types found again', 'types of libraries', 'contents of the domain', 'dumps of the domain', 'errors kept', 'threads: libraries loaded', 'threads: mutations'],
    'compile_is_property': True,
}

CHECKS['C25'] = {
    'runs': [
        {'harness': 'bits', 'profile': 'bits', 'quick': 16000, 'thorough': 300000},
        {'harness': 'bits', 'profile': 'bits', 'variant': 'plain', 'quick': 100000, 'thorough': 2000000, 'seed_offset': 4000003},
        {'harness': 'bits', 'profile': 'bits', 'variant': 'compat', 'quick': 8000, 'thorough': 100000, 'seed_offset': 2000003},
        # the whole library with its own replacement of std::pmr
        {'harness': 'world', 'profile': 'all', 'variant': 'compat', 'quick': 2000, 'thorough': 40000, 'seed_offset': 3000003},
        {'harness': 'bits', 'profile': 'bits', 'variant': 'ndebug', 'thorough': 100000, 'seed_offset': 1000003},
    ],
    'rule': ('one case = generated ids, multiples, a history of 4-30 operations on shared holders with failing memory and values, 142 constructions from tuples of all kinds '
             '(compared with std::make_from_tuple: categories and identity of arguments), settings, descriptions, perks, errors, back pointers, common functions in memory of '
             'exactly their size, sizes, canonical orders, allocators, containers and default memory, message traits; with std::pmr and with the replacement of it, with '
             'which histories of the whole library run too; under ASan and UBSan; distinct by the generated values and operations'),
    'assumptions': ['sums of sizes do not overflow 32 bits', WORLD_ASSUME[1]],
    'must_observe': ['ids', 'multiples', 'holder operations', 'failed holders', 'tuples', 'type names', 'settings', 'descriptions', 'back pointers', 'common functions', 'sizes', 'orders',
                     'allocators', 'containers', 'default memory blocks', 'large memory', 'traits', 'objects created'],
    'compile_is_property': True,
}
CHECKS['C16']['runs'] += [
    {'harness': 'bits', 'profile': 'c', 'quick': 8000, 'thorough': 200000},
    {'harness': 'bits', 'profile': 'c', 'variant': 'plain', 'quick': 80000, 'thorough': 2000000, 'seed_offset': 4000003},
    {'harness': 'bits', 'profile': 'c', 'variant': 'ndebug', 'thorough': 60000, 'seed_offset': 1000003},
]
CHECKS['C16']['rule'] += ('; declarations: sizes and offsets of 119 structures, members and constants in C and C++; one case = generated sizes, orders and a domain with 1-5 mixins '
                          'which the C macros define, types and objects of them through the C functions, including those which are inline in C')
CHECKS['C16']['must_observe'] += ['C declarations compared', 'C classes', 'copies of C objects']
