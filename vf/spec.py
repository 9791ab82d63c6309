"""What each property's check builds and runs."""

SAN = ':abort_on_error=0:symbolize=1:hard_rss_limit_mb=3500'
VARIANTS = {
    'asan': {
        'cxx': 'g++',
        # bool and enum: json::Traits() leaves a flag uninitialised (a known finding of C23), which
        # would be reported by every copy of it. vptr: needs RTTI that the free() trick of ValueFunction defeats.
        'flags': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,bool,enum', '-fno-sanitize-recover=all'],
        'env': {'ASAN_OPTIONS': 'detect_leaks=1:leak_check_at_exit=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=0' + SAN,
                'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=78',
                'LSAN_OPTIONS': 'exitcode=0'},
    },
    'tsan': {
        'cxx': 'g++',
        'flags': ['-O1', '-fsanitize=thread'],
        'env': {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=5:second_deadlock_stack=1' + SAN},
    },
    'plain': {'cxx': 'g++', 'flags': ['-O1']},
    'valgrind': {'cxx': 'g++', 'flags': ['-O1'], 'valgrind': True, 'env': {'VF_VALGRIND': '1'}},
}

PROPS = {}

NOTE = ('Exploration: held on every execution observed (counts in the evidence), nothing is claimed of the others. '
        'Trusts the reference model in the harness, the sanitizers and the compiler. ')

def prop(id, technique, rule, units, note='', assumptions=()):
    PROPS[id] = {'technique': technique, 'rule': rule, 'units': units, 'note': NOTE + note, 'assumptions': list(assumptions)}

def unit(name, src, variant='asan', quick=1000, thorough=None, **kw):
    d = {'name': name, 'src': src, 'variant': variant, 'quick': quick, 'thorough': thorough or quick * 20}
    d.update(kw)
    return d

TYPES = ['types.cpp']
MODEL = ['types.cpp', 'model.cpp']
POOL = MODEL + ['pool1.cpp', 'pool2.cpp', 'pool3.cpp']

prop('C03', 'reference-model oracle over exhaustive pairs and random signatures, ASan+UBSan build',
     'every (argument, parameter) pair over 26 types x 3 reference kinds x const exhaustively, then random '
     'signatures near those of a pool of functions; a signature case counts as distinct and non-trivial if it matches',
     [unit('c03', ['c03.cpp'] + POOL, quick=4000, thorough=200000, need=['pairs matched', 'random signatures that match', 'live argument lists'])])

prop('C04', 'reference-model oracle of overload resolution over random overload sets and calls, ASan+UBSan build',
     'random overload sets of related signatures, described in random orders in an overload set, a type or a scope, called '
     'with random opaque and plain arguments; non-trivial: at least two overloads match, or the call is ambiguous',
     [unit('c04', ['c04.cpp'] + POOL, quick=3000, thorough=100000,
           need=['ambiguous calls', 'exact among others', 'additions rejected', 'reordered sets'])])

prop('C05', 'call oracle (identity, value, run and copy counts of instrumented arguments and results), ASan+UBSan build',
     'callable kinds x parameter passing x argument type and kind (plain, opaque referring, opaque owning, const, rvalue), '
     'argument orders, constructors, methods, functor state, recursion, exceptions, results x requested results; '
     'non-trivial: the call was accepted and ran',
     [unit('c05', ['c05.cpp', 'c05a.cpp', 'c05b.cpp', 'c05c.cpp', 'c05d.cpp'] + MODEL, quick=2400, thorough=60000,
           need=['calls that ran', 'calls refused', 'results refused', 'argument lists', 'array arguments', 'references out of owning results'])])

prop('C06', 'online ownership model plus a ledger of live objects, under ASan+LSan+UBSan',
     'random histories of 20-80 operations over six opaque values, eight native objects and three functions; every history '
     'is checked after every step and distinct by its sequence of operations',
     [unit('c06', ['c06.cpp'] + MODEL, quick=6000, thorough=200000,
           need=['steps', 'moved out', 'functions moved', 'types discarded', 'leak checks'])])

JT = ['jt.cpp', 'jt1.cpp', 'jt2.cpp', 'jt3.cpp']

prop('C16', 'ASan+UBSan+LSan build fed random, mutated and structured bytes; repeat and reuse monitors',
     'random bytes, token soups, well-formed documents of the right or another shape and their mutations, read as 20 types '
     'under all reader options, once or several values in a row; distinct by bytes, type and options',
     [unit('c16', ['c16.cpp'] + JT, quick=60000, thorough=4000000,
           need=['read errors', 'accepted', 'objects printed', 'read again', 'random bytes', 'leak checks'])])

prop('C17', 'differential oracle: an independent strict reader and a native model of the targets, ASan+UBSan build',
     'documents suited to 20 types under random layouts, escapes and reader options, into fresh and filled objects, one node '
     'changed, any shape, mutated, every truncation, deletion, insertion and replacement; distinct by text, type and options',
     [unit('c17', ['c17.cpp'] + JT, quick=14000, thorough=1500000,
           need=['suited documents', 'unsuited documents', 'malformed documents', 'documents corrupted everywhere', 'positions checked', 'read by hand', 'wrong kinds asked for', 'documents skipped'])])

prop('C18', 'round-trip oracle on random objects, with a native model for members left out, ASan+UBSan build',
     'random objects of 19 types under all writer options read back into fresh ones, and content JSON cannot represent; '
     'distinct by printed text and options',
     [unit('c18', ['c18.cpp'] + JT, quick=40000, thorough=2000000,
           need=['round trips', 'compact round trips', 'convenience round trips', 'prints refused', 'unchecked text printed'])])

prop('C19', 'independent strict reader, native model of the printed members and a layout monitor, ASan+UBSan build',
     'random objects of 19 types under all writer options, printed twice and under each option toggled, documents printed by '
     'hand with items left out, errors and full outputs on the way, deep chains; distinct by printed text and options',
     [unit('c19', ['c19.cpp'] + JT, quick=30000, thorough=1500000,
           need=['objects checked', 'lines checked', 'options compared', 'printed by hand', 'errors while printing', 'outputs that failed', 'deep chains'])])

prop('C20', 'independent UTF-8 and escape codec as oracle; all code points, all byte classes, random text, ASan+UBSan build',
     'every Unicode scalar value raw and escaped (quick: taking options in turns past U+3000); every 2 and 3 bytes of 28 classes and a ninth (thorough: '
     'all) of the 4-byte ones; random mixtures, broken escapes, values and keys; distinct by bytes',
     [unit('c20', ['c20.cpp'] + JT, quick=4500, thorough=200000,
           need=['code points', 'malformed bytes', 'well-formed bytes', 'broken escapes', 'texts', 'byte classes'])])

prop('C22', 'online monitor of tokens and positions against an independent tokenizer, ASan+UBSan build',
     'random token sequences looked at, expected and read; streams of several values read or skipped; comments between any two '
     'tokens, allowed or not; malformed tokens and uses after errors; distinct by stream',
     [unit('c22', ['c22.cpp'] + JT, quick=60000, thorough=3000000,
           need=['tokens checked', 'tokens looked at', 'positions checked', 'error positions checked', 'malformed tokens', 'unexpected tokens',
                 'ends reached', 'uses after errors', 'values read', 'values skipped', 'errors after values', 'comments refused', 'comments accepted'])])

prop('C10', 'reference-model oracle of casts with instrumented objects (identity, content, copies, moves), ASan+UBSan build',
     'random held objects of 17 types (referred to, const, owned, made const, made rvalues) extracted as 20 types in 8 ways; '
     'distinct by held type, how it is held, target type and way',
     [unit('c10', ['c10.cpp'] + MODEL, quick=8000, thorough=400000,
           need=['refused', 'references', 'conversions', 'copies', 'moved out', 'castable queries', 'empty values', 'parents at an offset', 'conversions under other names'])])

prop('C07', 'model of constness along random paths, with content snapshots of the objects reached, ASan+UBSan build',
     'random paths of up to 7 steps (fields, const fields, inherited fields, const and mutable methods, container elements, pointers, '
     'values made const or rvalues, copies of values) from const, mutable and owned roots, then casts, overload choice and 4 attempts to '
     'change what was reached; distinct by path and attempt',
     [unit('c07', ['c07.cpp'] + TYPES, quick=60000, thorough=3000000,
           need=['const paths', 'mutable paths', 'rvalue paths', 'changes refused', 'changes made', 'mutating methods refused', 'mutating methods'])])

prop('C08', 'whole-object snapshots against native shadow objects, on static types and on random types made at run time, ASan+UBSan build',
     'random reads, writes and nested accesses by name of the members of a class hierarchy with hidden members, seen as each of its '
     'classes, const or not; random run-time types with parents, nesting and hiding laid over a block of bytes; distinct by type, path and layout',
     [unit('c08', ['c08.cpp'] + TYPES, quick=16000, thorough=600000,
           need=['fields read', 'fields written', 'nested fields', 'unknown fields', 'run time types', 'descriptions checked', 'parents at an offset'])])

prop('C09', 'model of relations over random type graphs, and C++ type traits against what can then be done, ASan+UBSan build',
     'random graphs of 2-10 types made at run time (parents, pointers of three kinds, functions, fields, conversions, hiding), all pairs '
     'and all names of each; 15 classes of every mix of special members; all pairs of 26 described types; distinct by graph',
     [unit('c09', ['c09.cpp'] + MODEL, flags=['-O0'], quick=7000, thorough=500000,
           need=['graphs', 'related pairs', 'converters', 'listings', 'special members', 'conversions made', 'objects allocated', 'built-in types'])])

prop('C11', 'differential oracle: the same expression on native operands that log every operator run, ASan+UBSan build',
     '28 binary and 10 unary operators on random operands (mutable, const, owned, child; right side native or opaque, itself), overloaded '
     'operators, sums of 15 number types; 38 classes of one operator each for what is registered; distinct by operator and kinds of operands',
     [unit('c11', ['c11.cpp', 'c11a.cpp', 'c11b.cpp', 'types.cpp'], flags=['-O0'], quick=6000, thorough=400000,
           need=['assignments', 'comparisons', 'arithmetic', 'unary operators', 'changes of constants refused', 'dereferences', 'overloaded operators', 'sums of numbers', 'types described'])])

prop('C12', 'differential oracle: every history is applied to a native container too, with identity, ownership and use counts, ASan+UBSan+LSan build',
     'random histories of 4-30 operations on vectors of 7, maps of 9 kinds, strings, raw, shared and unique pointers (mutable, owned, const, '
     'made const), arguments passed in 7 ways, own elements, element references kept; distinct by type, view and sequence',
     [unit('c12', ['c12.cpp', 'c12a.cpp', 'c12b.cpp', 'c12c.cpp', 'c12d.cpp', 'types.cpp'], flags=['-O0', '-std=gnu++14'], quick=40000, thorough=600000,
           need=['elements pushed', 'own elements pushed', 'element references', 'out of range', 'missing keys', 'keys created', 'references kept',
                 'moves', 'releases', 'shared', 'null pointers', 'copies refused', 'children pointed to', 'changes through pointers'])])

prop('C13', 'model-based monitor: random run-time scopes against a flat set of qualified names, after every step, ASan+UBSan build',
     'random trees of 5-25 additions of functions, types and scopes under (template) names, from the root or any enclosing scope, '
     'conflicting and malformed ones; queries of present, near and absent names and all listings; global functions and variables; '
     'distinct by name or by history',
     [unit('c13', ['types.cpp', 'c13.cpp'], flags=['-O0'], quick=4000, thorough=80000,
           need=['names split', 'malformed names refused', 'functions called', 'types found', 'through types', 'present queries', 'absent queries',
                 'listings', 'global listings', 'conflicts refused', 'malformed additions', 'globals'])])

prop('C14', 'model-based monitor: a table of what was put where, checked against every entity looked up afresh, ASan+UBSan build',
     'random histories of 5-40 traits of 14 kinds of values (put as rvalue, lvalue, const lvalue, opaque) on some 25 run-time types, fields, '
     'functions and scopes that grow meanwhile; the traits of all numbers, containers, pointers and of static descriptions; distinct by history',
     [unit('c14', ['types.cpp', 'c14.cpp'], flags=['-O0'], quick=1600, thorough=60000,
           need=['traits put', 'duplicates refused', 'values read', 'entities verified', 'numbers', 'kinds'])])

prop('C15', 'catalogue of misuses between snapshots of all descriptors, values and objects involved, with a log of user code run, ASan+UBSan+LSan build',
     '125 misuses (unknown names, malformed names, duplicates, arguments, results, casts, copies, operators, elements), each with names '
     'of 1-5000 bytes, 12 in a row on the same objects, used again afterwards; 16 types JSON can\'t describe, '
     'read and printed repeatedly among proper ones that they share parts with; distinct by misuse and length, or history',
     [unit('c15', ['types.cpp', 'c15.cpp'], flags=['-O0', '-std=gnu++14'], quick=6000, thorough=200000,
           need=['misuses', 'long messages', 'histories', 'leak checks']),
      unit('c15j', ['c15j.cpp'], flags=['-O0'], quick=1500, thorough=40000,
           need=['JSON misuses', 'JSON misuses repeated', 'JSON uses'])])

prop('C01', 'counters inside the descriptions and a dependency model, over histories of lookups each in a fresh process, ASan+UBSan build',
     'random histories of 3-60 lookups of 16 static types (plain, derived, cyclic, template, nested) in 16 ways and of 2-6 random run-time types '
     'that refer to each other, with aliases, unknown names and repeated registrations; distinct by history',
     [unit('c01', ['types.cpp', 'c01types.cpp', 'c01.cpp'], flags=['-O0'], quick=8000, thorough=60000,
           need=['histories', 'audits', 'lookups by name', 'lookups by type', 'unregistered templates', 'run time lookups', 'lookups before registration',
                 'aliases', 'unknown names', 'references compared', 'built-in aliases'])])

prop('C24', 'fault injection at every point of user code (and at allocations) in turn, with a ledger of objects and snapshots of all contents, ASan+UBSan+LSan build',
     'some 150 operations (calls, methods, constructors, values, casts, operators, containers, pointers, descriptions, JSON), each run once per step of user code in '
     'it with an exception of one of 7 kinds raised at that step, and once per allocation; distinct by operation, step and kind',
     [unit('c24', ['c24.cpp'], flags=['-O0'], ld=['-Wl,--wrap=_Znwm'], quick=1500, thorough=40000,
           need=['operations', 'exceptions raised', 'states compared', 'uses by another thread', 'descriptions failed', 'leak checks'])])

WRAP = ['-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=_Znwm']

prop('C02', 'ThreadSanitizer build with injected delays, per-thread logs compared after the threads end, deadlock watchdog',
     'scenarios of 2-8 threads in fresh processes: same types first, then random lookups of 16 static and 39 template types, uses of 16 kinds, '
     'own and contested aliases and registrations, slow descriptions and delays at locks and allocations; distinct by interleaving of operations',
     [unit('c02', ['types.cpp', 'c01types.cpp', 'threads.cpp', 'c02.cpp'], variant='tsan', quick=2000, thorough=80000, ld=WRAP, hang=400,
           need=['scenarios', 'lookups while a type is described', 'lookups by name', 'lookups of templates', 'first comparisons', 'aliases taken', 'types added', 'uses',
                 'switches between threads', 'descriptors compared'])])

prop('C21', 'ThreadSanitizer build with injected delays; every result compared with that of the same operation alone; deadlock watchdog',
     'scenarios of 2-8 threads in fresh processes, each with its own readers, writers and objects of 32 types (17 described slowly or templates), '
     'the same type first or not, 7 kinds of operations; distinct by interleaving of operations',
     [unit('c21', ['c21.cpp', 'threads.cpp'] + JT, variant='tsan', quick=1200, thorough=60000, ld=WRAP, hang=400,
           need=['scenarios', 'reads', 'prints', 'token streams', 'results compared', 'switches between threads'])])

def under_valgrind():
    """The units of other properties, a few cases each, under memcheck: only its reports of uninitialised memory count."""
    cases = {'c01': 64, 'c20': 8, 'c05': 240, 'c06': 160, 'c07': 400, 'c10': 240, 'c16': 400, 'c17': 160, 'c18': 400, 'c19': 240, 'c22': 800}
    out = []
    for id in sorted(PROPS):
        for u in PROPS[id]['units']:
            if u['variant'] == 'asan':
                n = cases.get(u['name'], 96)
                out.append(dict(u, name='v' + u['name'], variant='valgrind', quick=n, thorough=n * 60, need=[], only='valgrind', hang=400))
    return out

prop('C23', 'valgrind memcheck over the workloads of the other properties, and the same operations over memory full of different garbage',
     'operations (default-made objects, descriptions, calls, JSON) from one seed in fresh processes whose heap and stack hold 3 kinds of garbage, results '
     'compared; the workloads of 20 other checks under memcheck; distinct by results and by their cases',
     [unit('c23', ['types.cpp', 'model.cpp', 'c23.cpp', 'threads.cpp'] + JT, variant='plain', quick=3000, thorough=150000, ld=WRAP,
           need=['default objects', 'descriptions', 'calls', 'errors compared', 'json operations', 'results compared', 'flags compared'])] + under_valgrind())
