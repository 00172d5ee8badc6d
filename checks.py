"""What each check runs. (variant, mode, quick cases, thorough cases)"""

_ASAN = ['-fsanitize=address']
_PAT = ['-ftrivial-auto-var-init=pattern']
_WRAP = ['pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock',
         'pthread_rwlock_tryrdlock', 'pthread_rwlock_trywrlock', 'pthread_rwlock_unlock', 'pthread_cond_wait', 'pthread_cond_timedwait',
         'pthread_cond_clockwait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'sched_yield', 'nanosleep', 'clock_nanosleep',
         'pthread_once', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort']

VARIANTS = {
    'asan': {
        'what': 'address, leak and undefined-behaviour sanitizers, checked standard library',
        'repo': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
                 '-D_GLIBCXX_ASSERTIONS'] + _PAT,
        'own': ['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS'] + _ASAN, 'extra': ['sched_free'], 'link': ['-fsanitize=address,undefined']},
    'rel': {
        'what': 'optimized build; every heap block counted and filled with garbage, stack variables filled with garbage',
        'repo': ['-O2', '-g1', '-DNDEBUG'] + _PAT,
        'own': ['-O1', '-DNDEBUG', '-DVH_ACCOUNT'] + _PAT, 'extra': ['sched_free'], 'link': []},
    'tsan': {
        'what': 'race detector, free-running threads with injected delays',
        'repo': ['-O1', '-g', '-fsanitize=thread'],
        'own': ['-O1', '-g1', '-fsanitize=thread'], 'extra': ['sched_free'], 'link': []},
    'ctl': {
        'what': 'controlled scheduler: one thread at a time, switches chosen by the seed at every lock operation and function boundary',
        'repo': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS',
                 '-finstrument-functions'] + _PAT,
        'own': ['-O1', '-g1', '-DVH_CONTROLLED', '-D_GLIBCXX_ASSERTIONS'] + _ASAN, 'extra': ['sched'],
        'link': ['-fsanitize=address,undefined', '-static-libstdc++'] + ['-Wl,--wrap=' + f for f in _WRAP]},
    'mc': {
        'what': 'valgrind memcheck: reads of uninitialized memory, heap errors, leaks',
        'repo': ['-O1', '-g', '-DNDEBUG'], 'own': ['-O1', '-g1', '-DNDEBUG'], 'extra': ['sched_free'], 'link': [],
        'wrapper': ['valgrind', '-q', '--error-exitcode=99', '--leak-check=full', '--errors-for-leak-kinds=definite,indirect',
                    '--exit-on-first-error=no', '--num-callers=20']},
}
BINARIES = {
    'h_graph': ['vh', 'graph_model'],
    'h_context': ['vh', 'graph_model', 'ctx_model'],
    'h_conc': ['vh', 'graph_model', 'ctx_model'],
    'h_misc': ['vh', 'graph_model'],
    'h_security': ['vh'],
}

MODEL = 'a reference model written independently of the code (ordered maps of endpoints, participants, nodes)'
GEN = ('random histories of all operations over small pools of adversarial identifiers (single-byte neighbours, shared between kinds), '
       'names (empty, long, non-ASCII, placeholder-like, equal), types, hashes and QoS profiles, with occasional bulk graphs')

# property: (level, technique, rule, runs, must_see, assumptions)
CHECKS = {}


def rule_of(p):
    return CHECKS[p]['rule']


def _c(prop, technique, rule, runs, must, level='exploration', assume=(), note='', min_distinct=20):
    CHECKS[prop] = {
        'technique': technique, 'rule': rule, 'runs': runs, 'must_see': must, 'level': level, 'note': note,
        'min_distinct': min_distinct,
        'assumptions': list(assume) + ['the code runs against stand-ins for rcutils, rmw, rosidl and rcpputils (no ROS installation here) that follow their '
                                       'documented behaviour'] if not prop.startswith('S') else list(assume)}


_PRE = 'local operations name an existing participant and node, demanglers do not throw, outputs and allocators not claimed to be checked are valid'


def _graph(prop, mode, what, must, a, b, a_t=6000, b_t=60000, rule=None):
    _c(prop, 'differential monitoring against a reference model under address, leak and undefined-behaviour sanitizers',
       rule or ('A case is one of ' + GEN + '. ' + what + ' Distinct: graph states at which the monitors compared all answers with the model.'),
       [('asan', mode, a, a_t), ('rel', mode, b, b_t), ('mc', mode, 0, 300)], {mode: must}, assume=[_PRE],
       note='Every answer of the real code over sampled histories is compared with ' + MODEL + '; trusts the model and the stand-ins.')


_graph('G01', 'g01', 'After every few operations counts and endpoint records of every topic are compared.',
       ['add_writer', 'remove_writer', 'add_reader', 'remove_reader', 'rejected_operations', 'obs_count', 'obs_endpoint_records'], 1000, 4000)
_graph('G02', 'g02', 'After every few operations topic listings under several demangler pairs are compared.', ['obs_topics_listed', 'add_writer', 'remove_reader'], 1200, 5000)
_graph('G03', 'g03', 'After every few operations the endpoint records of every topic are compared.', ['obs_endpoint_records', 'associate_writer', 'discovery_message', 'remove_participant'], 1200, 5000)
_graph('G04', 'g04', 'After every few operations node listings with and without enclaves and the node count are compared.', ['obs_nodes_listed', 'remove_participant', 'remove_node', 'discovery_message'], 1200, 4000)
_graph('G05', 'g05', 'After every few operations the topics of known and unknown nodes are compared.', ['obs_by_node_topics', 'obs_by_node_unknown', 'discovery_message'], 800, 4000)
_graph('G06', 'g06', 'Histories dominated by discovery messages; all queries are compared.', ['discovery_message', 'add_participant', 'remove_participant', 'obs_nodes_listed'], 700, 3000)
_graph('G07', 'g07', 'Histories dominated by local operations; returned messages and all queries are compared.',
       ['messages_checked', 'add_node', 'remove_node', 'associate_reader', 'dissociate_reader', 'associate_writer', 'dissociate_writer'], 700, 3000)
_c('G08', 'callback-count monitor on sequential histories; linearizability checker over controlled schedules',
   'Sequential case: ' + GEN + ' with callbacks installed, replaced and cleared; runs of every callback are counted per operation. Concurrent case: threads '
   'change the graph and the callbacks under a controlled scheduler, and the recorded history with the callbacks each operation ran must be linearizable. '
   'Distinct: graph states / interleavings.',
   [('asan', 'g08', 700, 6000), ('rel', 'g08', 2500, 40000), ('ctl', 'g08c', 7500, 60000)],
   {'g08': ['callbacks_installed', 'callbacks_cleared', 'callbacks_observed', 'silent_noops_observed', 'query_rounds'],
    'g08c': ['callbacks_observed', 'context_switches', 'histories']}, assume=[_PRE, 'callbacks do not call back into the graph'],
   note='Exact per-operation count on sampled histories; schedules are sampled (random and PCT priorities), switching at lock operations and function boundaries.')
_c('G09', 'linearizability checker over histories recorded under a controlled scheduler',
   'A case is one program of 2-4 threads with operations and queries run under one seeded schedule (random or PCT); the recorded history is searched for a '
   'sequential witness of the model. Distinct: interleavings (hash of the sequence of switch points).',
   [('ctl', 'g09', 4500, 120000), ('asan', 'g09f', 0, 0)],
   {'g09': ['histories', 'context_switches', 'contended_locks', 'overlapping_pairs', 'configurations_searched']}, assume=[_PRE, 'node names are unique within a history'],
   note='Complete search for a witness per recorded history; interleavings are sampled, switching at lock operations, allocations, demangler calls and function boundaries.')
CHECKS['G09']['runs'] = [r for r in CHECKS['G09']['runs'] if r[2]]
_c('G10', 'fault injection at every allocation point with an accounting allocator, under leak and address sanitizers',
   'A case is one random graph; every query kind is run once per allocation it makes with that allocation failing (alone, and with all later ones), and once per '
   'helper call that can fail. Distinct: (graph, query, fault point).',
   [('asan', 'g10', 250, 4000), ('rel', 'g10', 800, 20000), ('mc', 'g10', 0, 60)],
   {'g10': ['alloc_failures_injected', 'retries_ok']}, level='fault_enumeration', assume=[_PRE],
   note='All allocation points of every query on each sampled graph (a spread of them on bulk graphs); graphs are sampled.')
_c('G11', 'argument fault monitor with accounting allocator under sanitizers',
   'A case is one random graph on which every query is called with each single argument invalid; result, outputs, allocator and graph are watched. '
   'Distinct: (graph, query, invalid argument).',
   [('asan', 'g11', 600, 6000), ('rel', 'g11', 2000, 40000), ('mc', 'g11', 0, 200)], {'g11': ['invalid_calls']}, assume=[_PRE],
   note='All listed argument faults on each sampled graph.')
_graph('G12', 'g12', 'After every few operations the printed graph is parsed and compared entry by entry.', ['obs_dumps', 'obs_dump_entries'], 800, 4000)
_c('G13', 'differential monitoring against a reference model, with repeated questions and several instances (also one per thread, under the race detector '
   'and a controlled scheduler)',
   'A sequential case is two caches side by side under ' + GEN + '; prints before and after queries, repeated questions, and the other cache are compared. A '
   'concurrent case is several threads, each with a context and graph of its own (same identifiers), every answer and message compared with the thread\'s own model; '
   'some operations reach into another context from inside a callback. Distinct: graph states / executions.',
   [('asan', 'g13', 400, 6000), ('rel', 'g13', 1800, 60000), ('tsan', 'g13c', 60, 3000), ('ctl', 'g13c', 300, 20000), ('mc', 'g13', 0, 300)],
   {'g13': ['repeat_checks', 'obs_topics_listed'], 'g13c': ['executions', 'concurrent_checks', 'messages_compared', 'operations_inside_others']}, assume=[_PRE],
   note='Every answer of the real code over sampled histories is compared with ' + MODEL + '; trusts the model and the stand-ins.')
_c('G14', 'race detector on free-running stress; deadlock and end-state monitors under a controlled scheduler',
   'A case is one graph or context used by several threads with mixed operations, queries, prints and callback changes; end state compared with the model. '
   'Distinct: executions (interleavings for the controlled runs).',
   [('tsan', 'g14', 160, 6000), ('ctl', 'g14', 900, 40000)],
   {'g14': ['executions', 'threads_run', 'concurrent_updates', 'concurrent_queries']}, assume=[_PRE],
   note='Happens-before race detection over sampled executions; deadlock detection over sampled controlled schedules.')

_c('G15', 'exception injection (throwing user functions, failing C++ heap) with state, lock and leak monitors, under sanitizers',
   'A case is one random graph, built while operations are interrupted by a throwing change callback or by the failure of any one operator new inside them, then queried '
   'with every demangler call and every operator new of the query throwing in turn. The graph is compared with the model before or after the interrupted operation. '
   'Distinct: (graph, query or update, point of the exception).',
   [('asan', 'g15', 700, 8000), ('rel', 'g15', 2000, 40000)],
   {'g15': ['interrupted_updates', 'callbacks_that_threw', 'demanglers_that_threw']}, level='fault_enumeration', assume=[_PRE.replace('demanglers do not throw, ', '')],
   note='Every demangler call and (release build) every operator new of each query on each sampled graph; interrupted updates sampled.')

_c('C01', 'publication trace monitor against a reference model, under sanitizers',
   'A case is a random sequence of the ten context operations on several nodes and identifiers; each published message is compared with the model state. Distinct: states published.',
   [('asan', 'c01', 3000, 40000), ('rel', 'c01', 12000, 300000), ('mc', 'c01', 0, 400)], {'c01': ['publications_checked', 'events']}, assume=[_PRE],
   note='Exact comparison on sampled sequences.')
_c('C02', 'publication fault injection with state comparison, under sanitizers',
   'A case is a random sequence of context operations in which publications fail (error codes, no publisher, no function); state before and after, and every message, are compared. Distinct: states.',
   [('asan', 'c02', 2500, 40000), ('rel', 'c02', 10000, 300000), ('mc', 'c02', 0, 400)], {'c02': ['failed_additions', 'failed_removals', 'publications_checked']}, level='fault_enumeration',
   assume=[_PRE, 'the publish function does not throw'], note='Each operation of each sampled sequence fails or not by the seed, for all kinds of failure.')
_c('C03', 'publication trace monitor over a controlled scheduler',
   'A case is several threads changing and querying one context under one seeded schedule; the publication trace, its order, overlap and the answers of queries during '
   'publications are checked. Distinct: interleavings.',
   [('ctl', 'c03', 2500, 80000)], {'c03': ['publications_checked', 'context_switches', 'contended_locks', 'queries_during_publication', 'other_contexts_used']}, assume=[_PRE],
   note='Interleavings are sampled (random and PCT), switching at lock operations and function boundaries.')
_c('C04', 'publication trace monitor with injected failures over a controlled scheduler',
   'As C03 with any publication failing; the trace must be explained by successive states in which failed additions leave no trace. Distinct: interleavings.',
   [('ctl', 'c04', 3000, 80000)], {'c04': ['publications_checked', 'failed_publications', 'context_switches']}, assume=[_PRE], level='fault_enumeration',
   note='Interleavings and failures are sampled.')
_c('C05', 'multi-participant convergence monitor (simulated discovery) under sanitizers',
   'A case is 2-5 participants with random local histories whose messages and announcements are delivered in random per-sender-ordered interleavings, repeated, and to late '
   'joiners; all graphs are compared with each other and the model. Distinct: final graphs.',
   [('asan', 'c05', 1500, 20000), ('rel', 'c05', 6000, 150000)], {'c05': ['messages_delivered', 'messages_repeated', 'late_joins', 'discoveries_delivered', 'caches_compared']}, assume=[_PRE],
   note='Exact comparison on sampled histories and delivery orders.')

_c('C06', 'exception injection (throwing publish function and change callback) with state and lock monitors, under sanitizers',
   'A case is a random sequence of context operations in which the publish function or the change callback throws; the graph must be as before or as after the operation, '
   'and later operations and queries are undisturbed. Distinct: (state, way of the exception).',
   [('asan', 'c06', 2500, 30000), ('rel', 'c06', 9000, 200000)], {'c06': ['publications_that_threw', 'callbacks_that_threw', 'publications_checked']}, level='fault_enumeration', assume=[_PRE],
   note='Sampled sequences; a third of the operations are undisturbed.')

_SAN = 'specification monitor under address and undefined-behaviour sanitizers'
_c('M01', 'wire-form monitor on published and received discovery messages, against an independent codec, under sanitizers',
   'A case is a random sequence of context operations and messages of peers. Published messages are encoded as the message definitions say and read by a decoder of the '
   'expected form written down in the harness; messages of peers go the other way. Contents and graph are compared with the model. Distinct: graph states.',
   [('asan', 'm01', 5000, 60000), ('rel', 'm01', 20000, 400000)], {'m01': ['messages_sent', 'messages_received', 'obs_nodes_listed']},
   assume=[_PRE, 'the serialization is plain CDR, generated here from the message definitions in place of the ROS type support; names without zero bytes, at most 256 long'],
   note='Exact comparison of decoded messages on sampled sequences.')

_c('I01', _SAN, 'A case is a set of up to 24 identifiers with single-byte neighbours, of which all pairs and triples are compared. Distinct: identifier sets.',
   [('asan', 'i01', 1500, 20000), ('rel', 'i01', 4000, 60000), ('mc', 'i01', 0, 60)], {'i01': ['events']}, note='All pairs and triples of each sampled set.')
_c('I02', _SAN, 'A case is a set of up to 40 identifiers converted both ways and printed. Distinct: identifiers.',
   [('asan', 'i02', 2500, 40000), ('rel', 'i02', 8000, 200000), ('mc', 'i02', 0, 200)], {'i02': ['events']}, note='Exact comparison on sampled identifiers.')
_Q = 'comparison with an independently written rule table under sanitizers'
_c('Q01', _Q, 'A case enumerates all combinations of the enumerated policies of both sides for sampled durations (edges, unnormalized, huge). Distinct: (profile pair) samples.',
   [('asan', 'q01', 350, 4000), ('rel', 'q01', 1500, 30000), ('mc', 'q01', 0, 8)], {'q01': ['events', 'best_available_sides']}, assume=['manual-by-node liveliness and best-available durations are excluded'],
   note='All enumerated policy combinations; durations sampled from an edge-biased pool.')
_c('Q02', _Q, 'A case is 120 profile pairs, each checked with a large and several small, exactly sized buffers. Distinct: profile pairs.',
   [('asan', 'q02', 400, 8000), ('rel', 'q02', 2000, 60000), ('mc', 'q02', 0, 40)], {'q02': ['clauses_checked', 'truncated_reasons']}, note='Buffers are exact heap blocks, so any write or read outside is seen.')
for _p, _m in (('Q03', 'q03'), ('Q04', 'q04')):
    _c(_p, _Q, 'A case is a batch of endpoint lists and profiles with any subset of best-available policies. Distinct: (list, profile).',
       [('asan', _m, 400, 8000), ('rel', _m, 2000, 60000), ('mc', _m, 0, 40)], {_m: ['events']}, note='Exact comparison on sampled lists.')
_c('Q05', 'metamorphic monitor (resolution against compatibility check) under sanitizers',
   'A case is 100 endpoint lists; the resolved profile is checked against each endpoint and every stronger neighbour. Distinct: lists.',
   [('asan', 'q05', 400, 8000), ('rel', 'q05', 2000, 60000), ('mc', 'q05', 0, 40)], {'q05': ['events', 'subscriptions_resolved', 'publishers_resolved']}, note='Sampled lists; compatibility is judged by the code under test, itself decided by Q01.')
_c('Q06', 'call monitor with accounting allocator and failing queries, under sanitizers',
   'A case is 60 resolutions against a stub graph query that checks its arguments and sometimes fails. Distinct: (profile, endpoints, outcome).',
   [('asan', 'q06', 500, 8000), ('rel', 'q06', 2500, 60000), ('mc', 'q06', 0, 40)], {'q06': ['resolved', 'nothing_to_resolve', 'failed_queries']}, note='Exact comparison on samples.')
_c('Q07', _Q, 'A case is 300 profiles with any subset of best-available policies. Distinct: profiles.',
   [('asan', 'q07', 600, 8000), ('rel', 'q07', 3000, 60000), ('mc', 'q07', 0, 40)], {'q07': ['policies_resolved']}, note='Exact comparison on samples.')
_c('Q08', 'round-trip monitor and mutation fuzzing with exactly sized buffers under sanitizers',
   'A case is 80 hashes encoded, embedded and parsed back, plus damaged and arbitrary byte strings parsed against a reference parser. Distinct: byte strings.',
   [('asan', 'q08', 300, 8000), ('rel', 'q08', 1500, 60000), ('mc', 'q08', 0, 20)], {'q08': ['round_trips', 'long_data', 'with_hash', 'without_hash', 'malformed_hash']}, note='Inputs are exact heap blocks, so any read outside is seen.')
_c('Q09', 'fault injection at every allocation and helper call, under sanitizers',
   'A case is 30 rounds in which every argument is null in turn and every allocation and helper call fails in turn. Distinct: profile pairs.',
   [('asan', 'q09', 250, 4000), ('rel', 'q09', 1000, 30000), ('mc', 'q09', 0, 30)], {'q09': ['invalid_calls', 'alloc_failures_injected']}, level='fault_enumeration',
   note='Every fault point of each sampled input.')
_c('Q10', 'race detector with result monitors', 'A case is 4-8 threads running batches of the value-level checks at once. Distinct: executions.',
   [('tsan', 'q10', 400, 8000), ('asan', 'q10', 200, 4000)], {'q10': ['executions', 'threads_run']}, note='Happens-before race detection over sampled executions.')
_c('T01', 'exact 128-bit reference under undefined-behaviour sanitizer', 'A case is 500 durations biased to the limits of the range and of 64 bits. Distinct: durations.',
   [('asan', 't01', 600, 8000), ('rel', 't01', 3000, 60000), ('mc', 't01', 0, 40)], {'t01': ['saturated', 'normalised', 'unchanged']}, note='Exact comparison on samples.')

_FS = 'specification monitor against plain system calls on generated directories, under sanitizers'
_c('S01', _FS, 'A case is 8 generated directories (every subset of required files in turn) named in different ways, looked up before and after a change in the directory. Distinct: (directory, name form, prefix, overload).',
   [('asan', 's01', 900, 10000), ('rel', 's01', 2500, 40000)], {'s01': ['directories_changed', 'complete_directories', 'incomplete_directories', 'lookups_that_should_succeed', 'lookups_that_should_fail']},
   note='All 64 subsets of the required files; file kinds, names and prefixes sampled.')
_c('S02', _FS, 'A case is 8 generated directories with token files of many contents and kinds. Distinct: (directory, name form, prefix, overload).',
   [('asan', 's02', 700, 10000), ('rel', 's02', 2000, 40000)], {'s02': ['directories_changed', 'tokens_returned', 'lookups_that_should_succeed', 'lookups_that_should_fail']}, note='Sampled contents and combinations.')
_c('S03', 'file-system fault injection with exception, descriptor and leak monitors, under sanitizers',
   'A case is 6 directories with hostile entries or hostile roots, looked up with and without privilege, without a free descriptor, and again after a change. Distinct: (directory, name form, prefix, overload).',
   [('asan', 's03', 700, 10000), ('rel', 's03', 2000, 40000)], {'s03': ['hostile_roots', 'lookups_without_descriptors', 'directories_changed', 'lookups_that_should_succeed', 'lookups_that_should_fail', 'tokens_returned']}, level='fault_enumeration',
   assume=['no FIFOs or devices in the place of token files'], note='Sampled combinations of the listed file-system states.')
_c('S04', _FS, 'A case is 8 directories with crl.pem in every state. Distinct: (directory, name form, prefix, overload).',
   [('asan', 's04', 600, 8000), ('rel', 's04', 1800, 30000)], {'s04': ['directories_changed', 'with_revocation_list', 'without_revocation_list', 'lookups_that_should_fail']}, note='Sampled combinations.')
_c('S06', 'allocation fault injection with memory, descriptor and result monitors',
   'A case is one directory; each allocation of a lookup in it fails once. Distinct: (directory, name form, prefix, overload).',
   [('rel', 's06', 800, 30000)], {'s06': ['events', 'failed_allocations_reported', 'lookups_that_should_succeed', 'tokens_returned']}, level='fault_enumeration',
   note='Each single failure of operator new in the executed lookups.')
_c('S05', 'race detector with result monitors', 'A case is 4-8 threads with 12 lookups each over five directories. Distinct: executions.',
   [('tsan', 's05', 500, 8000), ('asan', 's05', 300, 5000)], {'s05': ['executions', 'events']}, note='Happens-before race detection over sampled executions.')


# quick counts, as multiples of those above: about five seconds of running time for each check on eight cores
_SCALE = {'G01': 5, 'G02': 4, 'G03': 5, 'G04': 4, 'G05': 6, 'G06': 4, 'G07': 5, 'G08': 2, 'G09': 9, 'G10': 6, 'G11': 5, 'G12': 4, 'G13': 3,
          'C01': 2, 'C02': 3, 'C03': 2, 'C04': 2, 'C05': 2, 'I01': 2, 'I02': 4, 'Q02': 5, 'Q03': 5, 'Q04': 5, 'Q05': 6, 'Q06': 6, 'Q07': 6, 'Q08': 2,
          'Q09': 8, 'Q10': 0.5, 'T01': 6, 'S01': 0.25, 'S02': 0.25, 'S03': 0.5, 'S04': 0.5}
for _p, _k in _SCALE.items():
    CHECKS[_p]['runs'] = [(r[0], r[1], int(r[2] * _k), r[3]) for r in CHECKS[_p]['runs']]
