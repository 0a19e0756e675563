"""Properties no static argument in reach decides."""


def N(id, title, statement, over, text, why, files, reason):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': ['rmw_dds_common/' + f for f in files], 'state': [], 'mechanism': [], 'observe_at': [], 'hook_needed': None},
            'check': {'na': reason}}


PROPS = [
    N('N01', 'All processes eventually see the same graph',
      'Once discovery has settled and no process changes its graph any more, the graph caches of all processes of a domain report the same nodes and endpoints.',
      ['schedules', 'histories'], 'all processes, orders of discovery and message losses', 'Needs many processes and a middleware.',
      ['src/graph_cache.cpp', 'src/context.cpp'],
      'Depends on delivery, ordering and retransmission in the DDS implementation and on the listener thread in the rmw implementations, neither of which is in this repository. The local half (announcements are complete, ordered and replace what was known) is C16, C19 and C30-C33.'),
    N('N02', 'Graph operations take bounded time and memory',
      'Every update and query of the graph cache takes time and memory bounded by the size of the graph, and the cache does not grow without bound while entities come and go.',
      ['inputs', 'histories'], 'all graphs and histories', 'Resource use of long histories is not tested.',
      ['src/graph_cache.cpp'],
      'Time and memory are runtime quantities of the standard containers and of the middleware that reports removals; whether entries are removed depends on calls the rmw implementations make. The functional part (each removal removes exactly its entry) is C13, C16-C18.'),
    N('N03', 'Security files that are found are cryptographically valid',
      'The certificates, keys, permissions and governance documents that get_security_files reports form a consistent and valid set.',
      ['inputs'], 'all enclave contents', 'Needs certificates of every kind.',
      ['src/security.cpp'],
      'The contents of the files are never read here; validity is checked by the DDS security plugins, which are not in this repository.'),
    N('N04', 'Files found in the enclave are still there when they are used',
      'A security file that was reported exists and has the same content when the DDS implementation opens it.',
      ['schedules'], 'all concurrent changes of the file system', 'The window is outside the function.',
      ['src/security.cpp'],
      'A race between the caller and other processes after the function has returned; no property of this source text. What was inspected at the time of the call is C01-C05 and C08.'),
    N('N05', 'Node names are unique in the graph',
      'No two nodes with the same name and namespace exist at the same time.',
      ['histories'], 'all processes', 'Needs several processes.',
      ['src/graph_cache.cpp'],
      'Deliberately not guaranteed: the cache stores duplicates as they are announced, and first-match rules apply (C17, C18, C25). Uniqueness is up to the layers above.'),
]
