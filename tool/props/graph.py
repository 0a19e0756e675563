SUM = 'static analysis: the function is summarised over all paths (value-flow with decision-diagram conditions, loops as folds over the containers); '
T_MUT = SUM + 'the summary (final state, result, effects) is compared with the specification on every small graph and argument of a bounded domain'
T_Q = SUM + 'the summarised effect sequence (library calls in order, with their arguments) is followed under the contracts of the library functions on every small graph of a bounded domain and compared with the specification'
T_FAIL = SUM + 'typestate of every allocation along the summarised effect sequence, for the success and for each single failing library call, on small graphs'
F = ['rmw_dds_common/src/graph_cache.cpp', 'rmw_dds_common/include/rmw_dds_common/graph_cache.hpp']
N_MUT = 'The summary covers all inputs; the comparison covers participants <= 3, nodes <= 3 each, endpoints <= 3 (thorough: all node lists up to two nodes over three names and three gid sequences). Trusts clang\'s type-checked AST, the container models, the declaration stubs; asserted preconditions (participant and node exist) are assumed.'
N_Q = 'The summary covers all inputs; the comparison covers graphs of up to 3 participants, 3 nodes each and 4 endpoints per kind, with demangling functions that map two names to one and some to nothing. Trusts clang\'s type-checked AST, the container models and the contracts of rcutils and rmw written down in sa/cache.py.'
N_FAIL = 'Every single failing library call (and every failing clean-up call after it) on five small graphs (thorough: about 150); two independent failures in one call are not explored. Exceptions of the standard library (std::bad_alloc) are not modelled. Trusts the contracts of rcutils and rmw written down in sa/cache.py.'
N_LOCK = 'Complete over all paths of the current source of all public entry points; no bound. Trusts clang\'s type-checked AST and the models of std::mutex and its guards. User callbacks are not followed: a change callback that calls back into the cache deadlocks by contract.'
STATE = ['GraphCache::participants_', 'GraphCache::data_writers_', 'GraphCache::data_readers_']


def P(id, title, statement, over, text, why, tech, note, mech, observe, state=STATE):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': F, 'state': state, 'mechanism': [{'name': n, 'where': 'graph_cache.cpp'} for n in mech],
                        'observe_at': observe, 'hook_needed': None},
            'check': {'technique': tech, 'note': note}}


RET = 'return value'
ST = 'state of the cache as seen by the queries'
PROPS = [
    P('C10', 'The graph cache is safe to use from any thread',
      'Every access to the participants, the discovered readers and writers and the change callback of a graph cache, in every public method, in set_on_change_callback and in the stream operator, happens while one and the same mutex of the cache is held, and nothing that refers into this state (reference, pointer, iterator) is handed out. So discovery, user calls and queries on different threads never race and each method is atomic for the others.',
      ['schedules'], 'every interleaving of any methods from any number of threads', 'The tests are single threaded; a data race needs an unlucky schedule and a sanitizer build to be seen.',
      'static analysis: lock-set analysis over all paths of every public entry point, calls followed, plus escape analysis of results', N_LOCK, ['all public methods', 'operator<<', 'set_on_change_callback'],
      ['accesses to the members and the mutexes held', 'results of the methods'], STATE + ['GraphCache::on_change_callback_', 'GraphCache::mutex_']),
    P('C11', 'No call on the graph cache can block itself or another forever',
      'No public method acquires a mutex it already holds, directly or through another method; mutexes are acquired in one order everywhere; whatever a method acquires it has released when it returns on any path, and also when something it calls throws.',
      ['schedules', 'inputs'], 'every path of every public method, every interleaving', 'A rarely taken path that keeps the mutex or takes it twice only shows when that path is taken.',
      'static analysis: lock-order and typestate analysis of the mutexes over all paths of every public entry point, calls followed', N_LOCK, ['all public methods', 'operator<<'],
      ['mutex acquisitions and releases'], ['GraphCache::mutex_']),
    P('C12', 'Every change of the graph is notified, once, after it happened',
      'When a change callback is set, adding a participant, updating its entities, and every local node or association update invoke it exactly once; adding or removing an endpoint and removing a participant invoke it exactly once if they changed the graph and not at all otherwise. The invocation comes after the last write to the graph, while the mutex is still held. Without a callback nothing is invoked. So a waiting thread that is woken by the callback always finds the change, and none is missed.',
      ['inputs', 'schedules'], 'all graphs, arguments and callback states', 'Tests count callbacks for a few sequences only, and cannot see whether the callback precedes the write.',
      T_MUT, N_MUT, ['GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF'], ['invocations of the change callback relative to the writes'], STATE + ['GraphCache::on_change_callback_']),
    P('C13', 'Discovered endpoints form a set keyed by gid',
      'add_writer, add_reader and add_entity (also the deprecated forms) return true exactly if the gid was not known as an endpoint of that kind and then record it; for a known gid they return false and change nothing. remove_writer, remove_reader and remove_entity return true exactly if the gid was known and then forget exactly that one. No other endpoint of either kind is added, dropped or altered.',
      ['inputs', 'histories'], 'all caches and gids', 'Tests use a handful of gids, and discovery can repeat or reorder announcements in any way.', T_MUT, N_MUT,
      ['GraphCache::add_writer', 'add_reader', 'add_entity', 'remove_writer', 'remove_reader', 'remove_entity'], [RET, ST]),
    P('C14', 'Readers, writers and participants are kept apart',
      'Adding or removing a reader never changes what is known about writers or participants and vice versa, even for equal gids; the generic add_entity and remove_entity act on readers exactly if is_reader is true.',
      ['inputs', 'histories'], 'all caches and gids, both kinds', 'The tests do not use one gid in both roles.', T_MUT, N_MUT, ['GraphCache::add_entity', 'remove_entity'], [ST]),
    P('C15', 'An endpoint is remembered with exactly the data it was announced with',
      'The record of a new endpoint holds the topic name, type name, type hash, participant gid and QoS that were passed, each in its place; the deprecated forms without a type hash record the all-zero hash.',
      ['inputs'], 'all arguments', 'Topic and type name, and the two gids, have the same types: a swap compiles and only shows in queries that compare that field.', T_MUT, N_MUT,
      ['EntityInfo', 'GraphCache::add_writer', 'add_reader'], ['records of endpoints']),
    P('C16', 'Participant announcements replace node lists and keep everything else',
      'update_participant_entities replaces the node list of the announced participant by the one in the message, creating the participant if needed, and keeps its enclave; add_participant sets the enclave and keeps the node list; the two may arrive in any order. remove_participant forgets exactly that participant and reports whether it was known. Other participants and all discovered endpoints stay as they were.',
      ['inputs', 'histories'], 'all caches, messages and orders of arrival', 'Discovery delivers the two announcements in any order; the tests use one.', T_MUT, N_MUT,
      ['GraphCache::update_participant_entities', 'add_participant', 'remove_participant'], [ST]),
    P('C17', 'Adding and removing a node affects exactly one node',
      'add_node appends one node with the given name and namespace and no endpoints to the given participant; remove_node removes the first node of that participant with that name and namespace and only that one, even if there are several. All other nodes, participants and endpoints keep their data and order.',
      ['inputs', 'histories'], 'all node lists, with duplicate names and equal names in different namespaces', 'The tests have few nodes with distinct names.', T_MUT, N_MUT, ['GraphCache::add_node', 'remove_node'], [ST]),
    P('C18', 'Associating and dissociating affects exactly one endpoint of one node',
      'associate_writer (associate_reader) appends the gid to the writers (readers) of the first node of the participant with that name and namespace; dissociate_writer (dissociate_reader) removes one occurrence of exactly that gid from it, or nothing if there is none. Nothing else changes: not the other kind, other nodes, other participants, or the discovered endpoints.',
      ['inputs', 'histories'], 'all node lists and gids, also gids associated several times or as both kinds', 'The tests use few gids, each in one role.', T_MUT, N_MUT,
      ['GraphCache::associate_writer', 'associate_reader', 'dissociate_writer', 'dissociate_reader', '__modify_node_info'], [ST]),
    P('C19', 'The announcement returned by a local update is the state after it',
      'The message returned by add_node, remove_node and the (dis)associate methods carries the gid of the participant and the complete node list with all associations that the participant has after the update. It is what remote processes replace their view with, so they converge to the local state.',
      ['inputs', 'histories'], 'all caches and arguments', 'The tests compare messages for a few small sequences.', T_MUT, N_MUT, ['__create_participant_info_message'], [RET]),
    P('C20', 'Looking at the graph does not change it',
      'No query (get_*) and no output of the cache to a stream changes the recorded graph or the callback, or invokes the change callback.',
      ['inputs'], 'every path of every const method and of the stream operator', 'A map subscript that inserts on lookup only shows for keys that are missing.',
      'static analysis: effect analysis over all paths of every const entry point', N_LOCK, ['const methods', 'operator<<'], ['writes to the members']),
    P('C21', 'Counts are exact',
      'get_writer_count (get_reader_count) reports the number of discovered writers (readers) whose topic name is exactly the given one; get_number_of_nodes reports the number of nodes over all participants.',
      ['inputs'], 'all caches and topic names', 'Tests count a few small graphs.', T_Q, N_Q, ['GraphCache::get_writer_count', 'get_reader_count', 'get_number_of_nodes'], [RET, 'count']),
    P('C22', 'Endpoint information is complete and correct',
      'get_writers_info_by_topic (get_readers_info_by_topic) returns exactly one entry for each discovered writer (reader) on the topic, each with that endpoint\'s gid (all bytes), demangled type name, type hash, QoS profile and endpoint kind, and succeeds with an empty result if there is none.',
      ['inputs'], 'all caches, topics and demangling functions', 'Tests check a few endpoints, mostly on one topic.', T_Q, N_Q, ['__get_entities_info_by_topic'], [RET, 'endpoint info array']),
    P('C23', 'Endpoints are attributed to the node that created them',
      'In endpoint information the node name and namespace are those of a node of the endpoint\'s participant that lists the gid among its endpoints of that kind; _NODE_NAME_UNKNOWN_ and _NODE_NAMESPACE_UNKNOWN_ if the participant is known but none of its nodes lists it; _CREATED_BY_BARE_DDS_APP_ for both if the participant is not known.',
      ['inputs', 'histories'], 'all caches and orders of discovery', 'Tests have one node per participant and do not use one gid in both roles.', T_Q, N_Q, ['__find_name_and_namespace_from_entity_gid'], ['endpoint info array']),
    P('C24', 'A query that runs out of resources reports it and leaves nothing behind',
      'If any library call made to build the result of a query fails (allocation, string copy, array initialisation, setting a field), the query returns an error, RMW_RET_BAD_ALLOC when memory ran out; everything it allocated before is released and the out-parameters refer to nothing, also if a clean-up call reports a failure of its own.',
      ['failures', 'inputs'], 'every point at which a library call can fail, for every query', 'Each loop iteration has several failure points; the tests inject almost none of them.', T_FAIL, N_FAIL,
      ['get_node_names', '__populate_rmw_names_and_types', '__get_entities_info_by_topic'], [RET, 'allocations alive on return', 'out-parameters'], []),
    P('C25', 'Topics by node are exactly those of the node',
      'get_writer_names_and_types_by_node (get_reader_...) returns RMW_RET_NODE_NAME_NON_EXISTENT and no result if no participant has a node with that name and namespace; otherwise the demangled topic names of the discovered writers (readers) that one such node lists, each topic once, with each distinct demangled type once. Topics whose name demangles to nothing and gids not discovered yet are left out.',
      ['inputs', 'histories'], 'all caches, node names and demangling functions', 'Tests check few nodes and topics and only one kind per gid.', T_Q, N_Q, ['__get_names_and_types_by_node', '__find_node', '__get_names_and_types_from_gids'], [RET, 'names and types']),
    P('C26', 'The topic list covers all discovered endpoints',
      'get_names_and_types returns the demangled topic name of every discovered reader and writer, each topic once with each distinct demangled type once, and leaves out exactly those whose name demangles to nothing.',
      ['inputs'], 'all caches and demangling functions', 'Tests check few topics.', T_Q, N_Q, ['__get_names_and_types', '__populate_rmw_names_and_types'], [RET, 'names and types']),
    P('C27', 'Node names, namespaces and enclaves line up',
      'get_node_names returns one entry per node of every participant in each array, in one common order, so that position i holds the name, namespace and enclave of one node; without an enclave array the other two are the same.',
      ['inputs'], 'all caches, with and without the enclave array', 'Tests have one participant or equal enclaves.', T_Q, N_Q, ['GraphCache::get_node_names'], [RET, 'the three arrays']),
    P('C28', 'Invalid arguments are rejected before anything happens',
      'get_node_names, get_names_and_types and the by-node queries validate the allocator and every result structure, and the counts their pointer, and return RMW_RET_INVALID_ARGUMENT without allocating or writing anything if one is invalid (a structure that is not zero initialised would be leaked).',
      ['inputs', 'failures'], 'every invalid argument of every query', 'Tests pass few invalid arguments and cannot see leaks.', T_FAIL, N_FAIL, ['RCUTILS_CHECK_ALLOCATOR_WITH_MSG', 'rmw_names_and_types_check_zero', 'rmw_check_zero_rmw_string_array'], [RET, 'allocations'], []),
    P('C29', 'Query results are built only with the caller\'s allocator and inside its arrays',
      'Every allocation and release of a query uses the allocator the caller passed; every write goes inside an allocated array or a structure of the caller; no null pointer is followed, nothing is used after it was released or released twice, whichever library call fails; on success everything allocated is reachable from the out-parameters, so the caller can release it all.',
      ['inputs', 'failures'], 'all caches and failure points', 'A wrong allocator or an overrun by one works in most test runs.', T_FAIL, N_FAIL,
      ['get_node_names', '__populate_rmw_names_and_types', '__get_entities_info_by_topic'], ['allocator arguments', 'memory written'], []),
    P('C34', 'The printed graph shows everything that is stored, in its place',
      'The stream operator of the graph cache prints, under a heading for writers and one for readers, the gid, topic name and topic type of every discovered endpoint of that kind, and under a heading for participants the gid and enclave of every participant, and for each of its nodes the namespace, the name, and in a list for readers and one for writers the gids of its endpoints; each exactly once and nothing else, in a graph of any size. It returns the stream it was given.',
      ['inputs'], 'all caches', 'The test only prints graphs; it does not check what is printed.',
      SUM + 'the sequence of formatted outputs is followed on every small graph of a bounded domain and compared with the records', N_Q, ['operator<<'], ['text written to the stream']),
]
