TD = 'static analysis: abstract interpretation of the source to a decision diagram over byte comparisons, order axioms decided on the diagram'
TP = 'static analysis: abstract interpretation with a polyhedral domain (linear inequalities, Fourier-Motzkin elimination, machine wrap-around modelled)'
TA = 'static analysis: path-sensitive abstract interpretation (value numbering of memory, loops over the fixed-size array unrolled)'
G = ['rmw_dds_common/src/gid_utils.cpp', 'rmw_dds_common/include/rmw_dds_common/gid_utils.hpp', 'rmw_dds_common/msg/Gid.msg']
T = ['rmw_dds_common/src/time_utils.cpp', 'rmw_dds_common/include/rmw_dds_common/time_utils.hpp']
NOTE = 'Complete over all inputs for the current source; trusts clang\'s type-checked AST, the models of the library calls used and the declaration stubs for rmw (rmw_gid_t, rmw_time_t).'


def P(id, title, statement, over, text, why, files, mech, observe, technique):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'state': [], 'mechanism': mech, 'observe_at': observe, 'hook_needed': None},
            'check': {'technique': technique, 'note': NOTE}}


PROPS = [
    P('C60', 'Gid ordering and equality identify a gid by all of its bytes',
      'The gid comparator is a strict total order over the full 16 bytes (irreflexive, asymmetric, transitive, and two gids are equivalent only if all bytes are equal), and gid equality holds exactly when all 16 bytes are equal; the two agree. So no entity or participant can shadow another one in a map keyed by gid, and lookups do not depend on insertion order.',
      ['inputs'], 'every pair (and triple) of gids', 'There are 2^256 pairs of gids; the tests compare three.', G,
      [{'name': 'Compare_rmw_gid_t::operator(), operator==', 'where': 'gid_utils.cpp'}], ['results of the comparator and of operator=='], TD),
    P('C61', 'Gid and message conversions preserve every byte',
      'Converting a gid to its discovery message form and back gives the same gid: each conversion copies all 16 bytes, byte i to byte i, and changes nothing else of the source.',
      ['inputs'], 'every gid and every prior content of the destination', 'A test samples a few byte patterns; a copy that drops or permutes some bytes passes when those bytes happen to agree.', G,
      [{'name': 'convert_gid_to_msg, convert_msg_to_gid', 'where': 'gid_utils.cpp'}], ['the destination object'], TA),
    P('C62', 'A printed gid shows all of its bytes and leaves the stream usable',
      'Printing a gid writes its 16 bytes in order, each as a hexadecimal number, separated by single dots with nothing before or after, returns the same stream, and leaves the stream formatting as it was: it does not go on printing integers in hexadecimal or octal, padded, in upper case or with a prefix.',
      ['inputs'], 'every gid, on a stream with default formatting', 'No test reads the printed text; that every byte is printed on every path is a statement about the code.', G,
      [{'name': 'operator<<(std::ostream &, const rmw_gid_t &)', 'where': 'gid_utils.cpp'}], ['characters written to the stream and its formatting state'], TA),
    P('C70', 'A clamped time always fits a DDS duration',
      'The result of clamping a time for DDS always has between 0 and 2147483647 seconds and between 0 and 999999999 nanoseconds, so that neither field is truncated when it is narrowed to 32 bits.',
      ['inputs'], 'every 64-bit seconds and nanoseconds pair', '2^128 inputs, with carry and overflow boundaries in both fields; the tests try a handful.', T,
      [{'name': 'clamp_rmw_time_to_dds_time', 'where': 'time_utils.cpp'}], ['returned rmw_time_t'], TP),
    P('C71', 'Clamping a time is exact when it can be and saturates otherwise',
      'If the total length (seconds plus nanoseconds) is at most 2147483647 whole seconds, the clamped time denotes exactly the same length, with nanoseconds normalised below one second; otherwise it is exactly 2147483647 seconds and 999999999 nanoseconds, also when the sum of the two fields would overflow 64 bits.',
      ['inputs'], 'every 64-bit seconds and nanoseconds pair', '2^128 inputs, with carry and overflow boundaries in both fields; the tests try a handful.', T,
      [{'name': 'clamp_rmw_time_to_dds_time', 'where': 'time_utils.cpp'}], ['returned rmw_time_t'], TP),
]
