"""Properties of the repository as a whole."""
SRC = ['src/security.cpp', 'src/graph_cache.cpp', 'src/gid_utils.cpp', 'src/qos.cpp', 'src/context.cpp', 'src/time_utils.cpp']


def G(id, title, statement, over, text, why, files, mech, observe, tech, note):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': ['rmw_dds_common/' + f for f in files], 'state': [], 'mechanism': mech, 'observe_at': observe, 'hook_needed': None},
            'check': {'technique': tech, 'note': note}}


PROPS = [
    G('C80', 'Nothing is used after it is gone',
      'No function of the library uses, returns or leaves with its caller a pointer, reference, iterator or view to an object that no longer exists: a temporary or local variable that has ended, an element that was erased, or an element, character or iterator of a container that has changed in a way that invalidates it. Records in the graph cache own the texts they store.',
      ['inputs', 'histories'], 'all paths of all functions', 'A dangling access usually reads the old bytes and passes every test; it shows only with particular sizes, allocator behaviour or histories.',
      SRC, [{'name': 'erase / push_back / c_str / find results', 'where': 'all sources'}], ['memory accesses'],
      'path-wise lifetime and invalidation dataflow over the type-checked syntax tree, with helpers and closures followed',
      'Loops are followed for up to two iterations; containers are recognised by access path, so aliases that reach one element through two different lookups are not related. Values from functions outside the repository and the standard library are assumed to refer to storage of the caller. Heap blocks from rcutils allocators are C24 and C29.'),
    G('C81', 'Leaving assertions out changes nothing',
      'The condition of every assertion in the library is free of effects: it writes nothing, changes no container, allocates and releases nothing. So a release build (NDEBUG) behaves exactly like a debug build in which no assertion fails.',
      ['inputs'], 'all paths through all assertions', 'Tests run in one build type; an effect inside an assertion vanishes only in the other.',
      SRC, [{'name': 'assert', 'where': 'graph_cache.cpp, gid_utils.cpp'}], ['results in release builds'],
      'interprocedural effect analysis of assertion conditions',
      'C functions outside the repository count as effect-free only if they are known predicates (is_valid, check_zero, string comparison).'),
    G('C82', 'Discovery messages keep their layout',
      'The three messages by which processes tell each other about their nodes serialize as in every release: a gid is 16 octets; a node is its namespace and its name (strings of at most 256 characters, in this order) followed by unbounded sequences of reader gids and writer gids; a participant is its gid followed by an unbounded sequence of nodes. So nodes of different builds understand each other.',
      ['inputs'], 'all messages', 'Both ends of a test are built from the same definition and agree whatever it says.',
      ['msg/Gid.msg', 'msg/NodeEntitiesInfo.msg', 'msg/ParticipantEntitiesInfo.msg'],
      [{'name': 'message definitions', 'where': 'msg/*.msg'}], ['serialized messages'],
      'message definitions resolved to their serialized layout and compared field by field with the fixed layout',
      'The generator that turns definitions into serialization code (rosidl) is not part of the repository.'),
]
