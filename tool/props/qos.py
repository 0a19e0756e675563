TC = 'static analysis: path-sensitive abstract interpretation; verdict and report of every path compared with the compatibility table on decision diagrams'
TB = 'static analysis: abstract interpretation to closed forms over the endpoint array, checked as register automata against the documented rule over all reachable register states'
TY = 'static analysis: typestate of the query result and error codes over all abstract paths'
TT = 'static analysis: path-sensitive abstract interpretation, guarded result terms compared field by field'
Q = ['rmw_dds_common/src/qos.cpp', 'rmw_dds_common/include/rmw_dds_common/qos.hpp']
NOTE = ('Complete over all inputs of the current source (arrays of every length for C44-C46, C49); trusts clang\'s type-checked AST, the models of the library calls used '
        'and the declaration stubs for rmw (enumerators, duration constants and profiles as in rmw/types.h, rmw/time.h and rmw/qos_profiles.h).')


def P(id, title, statement, over, text, why, mech, observe, technique):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': Q, 'state': [], 'mechanism': [{'name': m, 'where': 'qos.cpp'} for m in mech], 'observe_at': observe, 'hook_needed': None},
            'check': {'technique': technique, 'note': NOTE}}


CK = ['qos_profile_check_compatible']
BA = ['qos_profile_get_best_available_for_subscription', 'qos_profile_get_best_available_for_publisher']
PAIR = 'every pair of publisher and subscription profiles (all policies, all 64-bit durations) and every reason buffer'
WHYC = 'Tests compare a few dozen pairs; the table has seven enumerations, four 64-bit durations and combinations of several incompatibilities at once.'
ARR = 'every endpoint array of any length and every requested profile'
WHYA = 'The arrays are unbounded and the profiles range over all policies and 64-bit durations; tests use arrays of at most a few elements.'
PROPS = [
    P('C40', 'QoS compatibility errors are exactly the incompatible pairs',
      'A publisher and subscription profile are reported as incompatible (ERROR) if and only if one of these holds: best-effort publisher with reliable subscription; volatile publisher with transient-local subscription; automatic-liveliness publisher with manual-by-topic subscription; the subscription has a (non-default) deadline and the publisher has none or a larger one; the subscription has a liveliness lease duration and the publisher has none or a larger one. The verdict does not depend on whether, or with what size, a reason buffer is given; a check with valid arguments only fails if writing the reason fails.',
      ['inputs'], PAIR, WHYC, CK, ['*compatibility and return value of qos_profile_check_compatible'], TC),
    P('C41', 'QoS durations are compared exactly',
      'Deadlines and lease durations are ordered by seconds first and nanoseconds second over their full 64-bit ranges: a subscription duration is incompatible exactly when it is strictly smaller than the publisher\'s in that order, equal durations are always compatible, and a duration counts as unset only if both fields are zero.',
      ['inputs'], 'every pair of 64-bit seconds and nanoseconds', 'Each duration has 2^128 values; the mixed cases (equal seconds, larger nanoseconds) are easily sampled away.', CK,
      ['*compatibility of qos_profile_check_compatible'], TC),
    P('C42', 'QoS compatibility warnings are exactly the undetermined pairs',
      'A pair that is not an ERROR is reported as WARNING if and only if compatibility cannot be determined: for reliability, durability or liveliness the policy is system-default or unknown on both sides, or on one side while the other side\'s value could clash with it (best-effort publisher or reliable subscription, volatile publisher or transient-local subscription, automatic publisher or manual-by-topic subscription). Every other pair is OK.',
      ['inputs'], PAIR, WHYC, CK, ['*compatibility of qos_profile_check_compatible'], TC),
    P('C43', 'The compatibility reason names every problem and stays inside its buffer',
      'If a reason buffer is given, the report contains one entry for each incompatibility that holds (or, without any, for each undetermined policy), naming the right policy and the right policy values of each side, and no others; it is empty for compatible profiles. Whatever the buffer size, the report is NUL-terminated and nothing is written outside the buffer or through a null pointer; running out of room only truncates the text and is not an error. Null compatibility output, and a null buffer with a non-zero size, are rejected.',
      ['inputs'], PAIR + ' of any size, including none', 'The buffer can fill up before, inside or after any entry; tests use one large buffer.', CK + ['_append_to_buffer'],
      ['reason buffer and return value of qos_profile_check_compatible'], TC),
    P('C44', 'Best-available subscription policies follow the documented rule',
      'For a subscription, a best-available reliability, durability or liveliness is resolved to reliable, transient local or manual by topic if all publishers in the array have that value (also if there are none), and to best effort, volatile or automatic otherwise; a best-available deadline or liveliness lease duration is resolved to the default if every publisher has the default, and to the largest non-default one otherwise.',
      ['inputs'], ARR, WHYA, BA[:1], ['*subscription_profile after the call'], TB),
    P('C45', 'Best-available publisher policies follow the documented rule',
      'For a publisher, best-available reliability and durability are resolved to reliable and transient local; best-available liveliness to manual by topic if at least one subscription in the array has it and to automatic otherwise; a best-available deadline or liveliness lease duration to the default if every subscription has the default, and to the smallest non-default one otherwise (at most infinite).',
      ['inputs'], ARR, WHYA, BA[1:], ['*publisher_profile after the call'], TB),
    P('C46', 'Resolving best-available policies changes nothing else',
      'Resolution only replaces policies that were best-available: any other reliability, durability, liveliness, deadline or lease duration keeps its value whatever the endpoints are, and history, depth, lifespan and the namespace flag are never changed. Null arguments are rejected without touching the profile; valid arguments are always resolved.',
      ['inputs'], ARR, WHYA, BA, ['the profile before and after the call'], TB),
    P('C47', 'Topic-based resolution queries only when needed and never leaks',
      'The topic variants query the endpoints exactly when the profile has some best-available policy (any of the five), with the given node, topic and an empty array; the publisher variant resolves as a publisher and the subscription variant as a subscription. A failed query is returned as it is, with the profile unchanged; after a successful one the array is finalised exactly once with the same allocator, also if resolution fails, and a failure to resolve or finalise is reported. Null arguments are rejected before anything is queried.',
      ['inputs', 'fault_sequences'], 'every profile and every outcome of the query, the resolution and the finalisation', 'Leaks and dropped errors only show when particular calls fail; tests do not enumerate failures.',
      ['qos_profile_get_best_available_for_topic_subscription', 'qos_profile_get_best_available_for_topic_publisher'], ['calls of the query function and rmw_topic_endpoint_info_array_fini; return value'], TY),
    P('C48', 'Services replace best-available policies by the services default',
      'The profile for a service equals the requested profile except that each of reliability, durability, liveliness, deadline and liveliness lease duration that was best-available has the value of the services default profile; each policy is decided on its own and no other field changes.',
      ['inputs'], 'every profile', 'Combinations of five policies, two of them 128 bits wide.', ['qos_profile_update_best_available_for_services'], ['returned profile'], TT),
    P('C49', 'Best-available policies are compatible with every known endpoint',
      'The reliability, durability and liveliness that resolution chooses for a best-available request are compatible (no ERROR in the sense of the compatibility check) with every endpoint in the array; the chosen deadline and lease duration are compatible with all of them if every endpoint has a non-default one.',
      ['inputs'], ARR, WHYA, BA, ['the profile after the call, against each endpoint'], TB),
    P('C50', 'Type hashes survive the user data round trip',
      'A set type hash is encoded as one "key=value;" entry whose value is the hash\'s string form, an unset one as empty text, and decoding looks the hash up under exactly the key the encoder uses, over all of the user data, and parses all of the value; user data without that key gives a zero hash and success, an unparsable value or null user data an error. Allocation failures and other failures of the string conversion are reported as such, and its buffer is released exactly once, after use, by the allocator that made it.',
      ['inputs', 'fault_sequences'], 'every type hash, every user data and every failure of the conversion functions', 'The encoder and decoder are far apart and the failure paths need failing allocations.',
      ['encode_type_hash_for_user_data_qos', 'parse_type_hash_from_user_data'], ['string_out, type_hash_out, return values'], TT),
]
