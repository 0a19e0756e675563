T = 'static analysis: path-sensitive abstract interpretation of the ten update methods (cache operations kept as uninterpreted events, path conditions as decision diagrams), typestate over the event sequences'
F = ['rmw_dds_common/src/context.cpp', 'rmw_dds_common/include/rmw_dds_common/context.hpp']
NOTE = 'Complete over all paths of the current source of the ten methods; the cache operations are taken as atomic (their own behaviour is C10-C19). Trusts clang\'s type-checked AST, the models of std::mutex, the lock guards and std::function, and the declaration stubs for rmw.'
SEEN = ['calls made on the publish callback and their argument', 'mutex acquisitions and releases', 'calls on the graph cache', 'return code']


def P(id, title, statement, over, text, why, observe):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': F, 'state': ['Context::graph_cache', 'Context::node_update_mutex'],
                        'mechanism': [{'name': 'Context::{add,remove}_{node,subscriber,publisher,client,service}_graph', 'where': 'context.cpp'}],
                        'observe_at': observe, 'hook_needed': None},
            'check': {'technique': T, 'note': NOTE}}


PROPS = [
    P('C30', 'Graph announcements go out in the order of the updates they describe',
      'Each of the ten Context update methods applies its updates to the graph cache, publishes the resulting state and, if needed, rolls back inside one critical section of one mutex common to all ten, and what it publishes is exactly the message returned by its last update. So remote participants, which only keep the latest message, never end up with an older state than the local cache, whatever threads create and destroy entities concurrently.',
      ['schedules'], 'every interleaving of the ten methods from any number of threads', 'No test calls the context from two threads, and an interleaving that publishes stale state after newer state is rare in any test.', SEEN[:3]),
    P('C31', 'A failed announcement leaves no trace of the new entity',
      'An add method returns RMW_RET_OK exactly if the new state was handed to the transport successfully. If publishing fails or is impossible it returns RMW_RET_ERROR and undoes every cache update it made, each exactly once with the same arguments, including both halves of a client or a service. A remove method reports the failure with RMW_RET_ERROR but never puts the removed entity back.',
      ['failures'], 'every outcome of the publish callback, for every method', 'Failures of the transport do not happen in the tests.', SEEN[2:]),
    P('C32', 'Each kind of entity is recorded with the right endpoints on the right node',
      'Creating (destroying) a node adds (removes) that node; a subscription one reader; a publisher one writer; a client its request publisher as a writer and its response subscription as a reader; a service its request subscription as a reader and its response publisher as a writer; always on the participant of the context and the node with the given name and namespace, and nothing else. What an add method does the matching remove method undoes exactly.',
      ['inputs'], 'all gids, names and namespaces, for every method', 'The tests do not exercise the context methods; a swap of two gids or of name and namespace is type correct.', SEEN[2:3]),
    P('C33', 'Nothing is published before publisher and callback are set up, and every update afterwards is announced once',
      'The publish callback is never invoked while the publisher is null or the callback is empty (so no null call during start-up or shutdown); when both are set every update method invokes it exactly once, with the publisher of the context.',
      ['inputs', 'histories'], 'every state of the two members, every method', 'The tests do not exercise the context methods.', SEEN[:1]),
]
