"""Best-available resolution, services, type hashes."""
Q = 'src/qos.cpp'
SRC = open('/repo/rmw_dds_common/src/qos.cpp').read()


def between(a, b):
    i = SRC.index(a)
    return SRC[i:SRC.index(b, i)]


SUB = between('rmw_ret_t\nqos_profile_get_best_available_for_subscription(', 'rmw_ret_t\nqos_profile_get_best_available_for_publisher(')
PUB = between('rmw_ret_t\nqos_profile_get_best_available_for_publisher(', 'static bool\n_qos_profile_has')
HAS = between('static bool\n_qos_profile_has', 'rmw_ret_t\nqos_profile_get_best_available_for_topic_subscription(')
TS = between('rmw_ret_t\nqos_profile_get_best_available_for_topic_subscription(', 'rmw_ret_t\nqos_profile_get_best_available_for_topic_publisher(')
TP = between('rmw_ret_t\nqos_profile_get_best_available_for_topic_publisher(', 'rmw_qos_profile_t\nqos_profile_update')
SV = between('rmw_qos_profile_t\nqos_profile_update', 'rmw_ret_t\nparse_type')
PARSE = between('rmw_ret_t\nparse_type', 'rmw_ret_t\nencode_type')
ENC = between('rmw_ret_t\nencode_type', '}  // namespace rmw_dds')


def inn(block, *reps):
    """Replacement inside one function."""
    new = block
    for a, b in reps:
        assert a in new, a
        new = new.replace(a, b, 1)
    return (block, new)


def alln(block, *reps):
    new = block
    for a, b in reps:
        assert a in new, a
        new = new.replace(a, b)
    return (block, new)


LOOPS = SUB[SUB.index('  for (size_t i'):SUB.index('  if (RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE == subscription_profile')]
LOOPP = PUB[PUB.index('  for (size_t i'):PUB.index('  if (RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == publisher_profile')]
HEADS = SUB[SUB.index('  size_t number_of_reliable'):SUB.index('  for (size_t i')]
ALG = ('#include <cstdarg>\n', '#include <algorithm>\n#include <cstdarg>\n')
TS_IN = TS[TS.index('    rcutils_allocator_t & allocator'):TS.index('  }\n  return RMW_RET_OK;\n}')]
TP_IN = TP[TP.index('    rcutils_allocator_t & allocator'):TP.index('  }\n  return RMW_RET_OK;\n}')]

BUGS = [
    # subscription
    ('ba-s-any-reliable', Q, [inn(SUB, ('number_of_reliable == publishers_info->size', 'number_of_reliable > 0u'))], {'C44'}),
    ('ba-s-u8', Q, [inn(SUB, ('size_t number_of_reliable', 'uint8_t number_of_reliable'))], {'C44'}),
    ('ba-s-notempty', Q, [inn(SUB, ('number_of_transient_local == publishers_info->size', 'publishers_info->size != 0u && number_of_transient_local == publishers_info->size'))], {'C44'}),
    ('ba-s-wrongcount', Q, [inn(SUB, ('number_of_manual_by_topic == publishers_info->size', 'number_of_transient_local == publishers_info->size'))], {'C44'}),
    ('ba-s-last', Q, [inn(SUB, ('      number_of_reliable++;', '      number_of_reliable = i + 1u;'))], {'C44'}),
    ('ba-s-break', Q, [inn(SUB, ('      number_of_reliable++;\n    }\n', '      number_of_reliable++;\n    } else {\n      break;\n    }\n'))], {'C44'}),
    ('ba-s-continue', Q, [inn(SUB, ('    if (profile.deadline != deadline_default) {', '    if (profile.deadline == deadline_default) {\n      continue;\n    }\n    {'))], {'C44'}),
    ('ba-s-smallest', Q, [inn(SUB, ('if (largest_deadline < profile.deadline) {', 'if (profile.deadline < largest_deadline) {'))], {'C44'}),
    ('ba-s-cmpfirst', Q, [inn(SUB, ('if (largest_liveliness_lease_duration < profile.liveliness_lease_duration) {', 'if (largest_deadline < profile.liveliness_lease_duration) {'))], {'C44'}),
    ('ba-s-alldefault', Q, [inn(SUB, ('      use_default_deadline = false;\n', '      use_default_deadline = i != 0u && use_default_deadline;\n'))], {'C44'}),
    ('ba-s-reldur', Q, [inn(SUB, ('subscription_profile->durability = RMW_QOS_POLICY_DURABILITY_VOLATILE', 'subscription_profile->durability = RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT'))], {'C44'}),
    ('ba-s-from1', Q, [inn(SUB, ('for (size_t i = 0u;', 'for (size_t i = 1u;'))], {'C44'}),
    ('ba-s-pubmax', Q, [inn(SUB, ('rmw_time_t largest_deadline = {0u, 0u}', 'rmw_time_t largest_deadline = {1u, 0u}'))], {'C44'}),
    ('ba-s-index0', Q, [inn(SUB, ('publishers_info->info_array[i].qos_profile', 'publishers_info->info_array[0].qos_profile'))], {'C44'}),
    # publisher
    ('ba-p-best-effort', Q, [inn(PUB, ('publisher_profile->durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL', 'publisher_profile->durability = RMW_QOS_POLICY_DURABILITY_VOLATILE'))], {'C45'}),
    ('ba-p-all-manual', Q, [inn(PUB, ('      use_manual_by_topic = true;\n    }', '      use_manual_by_topic = true;\n    } else {\n      use_manual_by_topic = false;\n    }'))], {'C45'}),
    ('ba-p-largest', Q, [inn(PUB, ('if (profile.deadline < smallest_deadline) {', 'if (smallest_deadline < profile.deadline) {'))], {'C45'}),
    ('ba-p-init0', Q, [inn(PUB, ('rmw_time_t smallest_deadline = RMW_DURATION_INFINITE', 'rmw_time_t smallest_deadline = {0u, 0u}'))], {'C45'}),
    ('ba-p-init-max', Q, [inn(PUB, ('rmw_time_t smallest_liveliness_lease_duration = RMW_DURATION_INFINITE', 'rmw_time_t smallest_liveliness_lease_duration = {3600u, 0u}'))], {'C45'}),
    ('ba-p-mixed', Q, [inn(PUB, ('    if (profile.deadline != deadline_default) {', '    if (profile.deadline != deadline_default && profile.deadline != deadline_best_available) {'))], {'C45'}),
    ('ba-p-lease-deadline', Q, [inn(PUB, ('publisher_profile->liveliness_lease_duration = smallest_liveliness_lease_duration', 'publisher_profile->liveliness_lease_duration = smallest_deadline'))], {'C45'}),
    ('ba-p-defdl', Q, [inn(PUB, ('    if (use_default_deadline) {', '    if (use_default_deadline && use_default_liveliness_lease_duration) {'))], {'C45'}),
    # only best available fields
    ('ba-u-overwrite', Q, [inn(SUB, ('  if (RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE == subscription_profile->reliability) {\n', '  if (RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE == subscription_profile->reliability ||\n    RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT == subscription_profile->reliability)\n  {\n'))], {'C46'}),
    ('ba-u-lease-dl', Q, [inn(PUB, ('liveliness_lease_duration_best_available == publisher_profile->liveliness_lease_duration', 'deadline_best_available == publisher_profile->deadline'))], {'C46', 'C45'}),
    ('ba-u-depth', Q, [inn(PUB, ('    publisher_profile->durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;\n', '    publisher_profile->durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;\n    publisher_profile->history = RMW_QOS_POLICY_HISTORY_KEEP_ALL;\n'))], {'C46'}),
    ('ba-u-early-write', Q, [inn(SUB, ('  if (!publishers_info) {', '  if (subscription_profile) {\n    subscription_profile->avoid_ros_namespace_conventions = false;\n  }\n  if (!publishers_info) {'))], {'C46'}),
    ('ba-u-nullcheck', Q, [inn(SUB, ('  if (!publishers_info) {\n    RMW_SET_ERROR_MSG("publishers_info parameter is null");\n    return RMW_RET_INVALID_ARGUMENT;\n  }\n', ''))], {'C46', 'C44'}),
    ('ba-u-sec-only', Q, [inn(SUB, ('deadline_best_available == subscription_profile->deadline', 'deadline_best_available.sec == subscription_profile->deadline.sec'))], {'C46'}),
    # topic
    ('ba-t-always', Q, [inn(TS, ('  if (_qos_profile_has_best_available_policy(*qos_profile)) {', '  {'))], {'C47'}),
    ('ba-t-has-lease', Q, [inn(HAS, ('  if (liveliness_lease_duration_best_available == qos_profile.liveliness_lease_duration) {\n    return true;\n  }\n', ''))], {'C47'}),
    ('ba-t-has-and', Q, [inn(HAS, ('  if (RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == qos_profile.liveliness) {', '  if (RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == qos_profile.liveliness &&\n    qos_profile.depth != 0u)\n  {'))], {'C47'}),
    ('ba-t-wrongrole', Q, [inn(TP, ('qos_profile_get_best_available_for_publisher(', 'qos_profile_get_best_available_for_subscription('))], {'C47'}),
    ('ba-t-leak', Q, [inn(TS, ('    rmw_ret_t fini_ret = ', '    if (RMW_RET_OK != ret) {\n      return ret;\n    }\n    rmw_ret_t fini_ret = '))], {'C47'}),
    ('ba-t-nofini', Q, [inn(TP, ('    rmw_ret_t fini_ret = rmw_topic_endpoint_info_array_fini(&subscriptions_info, &allocator);\n    if (RMW_RET_OK != fini_ret) {\n      return fini_ret;\n    }\n', ''))], {'C47'}),
    ('ba-t-finidrop', Q, [inn(TP, ('    if (RMW_RET_OK != fini_ret) {\n      return fini_ret;\n    }\n', '    (void)fini_ret;\n'))], {'C47'}),
    ('ba-t-otheralloc', Q, [inn(TP, ('rmw_topic_endpoint_info_array_fini(&subscriptions_info, &allocator)', 'rmw_topic_endpoint_info_array_fini(&subscriptions_info, &other)'), ('    rmw_ret_t ret = get_endpoint_info(', '    rcutils_allocator_t other = rcutils_get_default_allocator();\n    rmw_ret_t ret = get_endpoint_info('))], {'C47'}),
    ('ba-t-queryerr', Q, [inn(TS, ('    if (RMW_RET_OK != ret) {\n      return ret;\n    }\n    ret = qos', '    if (RMW_RET_BAD_ALLOC == ret) {\n      return ret;\n    }\n    ret = qos'))], {'C47'}),
    ('ba-t-usefini', Q, [inn(TS, ('    ret = qos_profile_get_best_available_for_subscription(\n      &publishers_info, qos_profile);\n    rmw_ret_t fini_ret = rmw_topic_endpoint_info_array_fini(&publishers_info, &allocator);\n', '    rmw_ret_t fini_ret = rmw_topic_endpoint_info_array_fini(&publishers_info, &allocator);\n    ret = qos_profile_get_best_available_for_subscription(\n      &publishers_info, qos_profile);\n'))], {'C47'}),
    ('ba-t-copy', Q, [inn(TS, ('    ret = qos_profile_get_best_available_for_subscription(\n      &publishers_info, qos_profile);', '    rmw_qos_profile_t updated = *qos_profile;\n    ret = qos_profile_get_best_available_for_subscription(\n      &publishers_info, &updated);'))], {'C47'}),
    ('ba-t-nullnode', Q, [inn(TS, ('  RMW_CHECK_ARGUMENT_FOR_NULL(node, RMW_RET_INVALID_ARGUMENT);\n', ''))], {'C47'}),
    ('ba-t-uninit', Q, [inn(TS, ('    rmw_topic_endpoint_info_array_t publishers_info =\n      rmw_get_zero_initialized_topic_endpoint_info_array();', '    rmw_topic_endpoint_info_array_t publishers_info;\n    publishers_info.size = 0u;'))], {'C47'}),
    # services
    ('ba-v-swap', Q, [inn(SV, ('result.reliability = rmw_qos_profile_services_default.reliability', 'result.reliability = rmw_qos_profile_sensor_data.reliability'))], {'C48'}),
    ('ba-v-all', Q, [inn(SV, ('  rmw_qos_profile_t result = qos_profile;\n', '  rmw_qos_profile_t result = rmw_qos_profile_services_default;\n'))], {'C48'}),
    ('ba-v-miss', Q, [inn(SV, ('  if (deadline_best_available == result.deadline) {\n    result.deadline = rmw_qos_profile_services_default.deadline;\n  }\n', ''))], {'C48'}),
    ('ba-v-sysdef', Q, [inn(SV, ('RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == result.liveliness', 'RMW_QOS_POLICY_LIVELINESS_AUTOMATIC != result.liveliness'))], {'C48'}),
    ('ba-v-cross', Q, [inn(SV, ('  if (liveliness_lease_duration_best_available == result.liveliness_lease_duration) {', '  if (liveliness_lease_duration_best_available == qos_profile.deadline) {'))], {'C48'}),
    # type hash
    ('th-key', Q, [inn(ENC, ('"typehash="', '"type_hash="'))], {'C50'}),
    ('th-semicolon', Q, [inn(ENC, (' + ";"', ''))], {'C50'}),
    ('th-leak', Q, [inn(ENC, ('  RCPPUTILS_SCOPE_EXIT(allocator.deallocate(type_hash_c_str, &allocator.state));\n', ''))], {'C50'}),
    ('th-early', Q, [inn(ENC, ('  RCPPUTILS_SCOPE_EXIT(allocator.deallocate(type_hash_c_str, &allocator.state));\n', '  allocator.deallocate(type_hash_c_str, &allocator.state);\n'))], {'C50'}),
    ('th-unset', Q, [inn(ENC, ('    string_out.clear();\n', ''))], {'C50'}),
    ('th-unset-gone', Q, [inn(ENC, ('  if (type_hash.version == ROSIDL_TYPE_HASH_VERSION_UNSET) {\n    string_out.clear();\n    return RMW_RET_OK;\n  }\n', ''))], {'C50'}),
    ('th-badalloc', Q, [inn(ENC, ('    return RMW_RET_BAD_ALLOC;', '    return RMW_RET_ERROR;'))], {'C50'}),
    ('th-err', Q, [inn(ENC, ('  if (RCUTILS_RET_OK != stringify_ret) {\n    return RMW_RET_ERROR;\n  }\n', ''))], {'C50'}),
    ('th-append', Q, [inn(ENC, ('  string_out = "typehash="', '  string_out += "typehash="'))], {'C50'}),
    ('th-p-key', Q, [inn(PARSE, ('find("typehash")', 'find("typehash=")'))], {'C50'}),
    ('th-p-nozero', Q, [inn(PARSE, ('    type_hash_out = rosidl_get_zero_initialized_type_hash();\n', ''))], {'C50'}),
    ('th-p-missing', Q, [inn(PARSE, ('    return RMW_RET_OK;\n  }\n  std::string', '    return RMW_RET_ERROR;\n  }\n  std::string'))], {'C50'}),
    ('th-p-drop', Q, [inn(PARSE, ('  if (RCUTILS_RET_OK != rosidl_parse_type_hash_string(type_hash_str.c_str(), &type_hash_out)) {\n    return RMW_RET_ERROR;\n  }\n', '  (void)rosidl_parse_type_hash_string(type_hash_str.c_str(), &type_hash_out);\n'))], {'C50'}),
    ('th-p-null', Q, [inn(PARSE, ('  RMW_CHECK_ARGUMENT_FOR_NULL(user_data, RMW_RET_INVALID_ARGUMENT);\n', ''))], {'C50'}),
    ('th-p-size', Q, [inn(PARSE, ('user_data + user_data_size)', 'user_data + user_data_size - 1)'))], {'C50'}),
    ('th-p-begin', Q, [inn(PARSE, ('typehash_it->second.begin(), ', 'typehash_it->second.begin() + 1, '))], {'C50'}),
]

RESOLVE_T = """static void
_resolve_time(rmw_time_t & field, const rmw_time_t & request, bool use_default, const rmw_time_t & best)
{
  if (request == field) {
    field = use_default ? rmw_time_t RMW_QOS_DEADLINE_DEFAULT : best;
  }
}

"""
COMMON = """template<typename ResolveT>
static rmw_ret_t
_resolve_for_topic(
  const rmw_node_t * node,
  const char * topic_name,
  rmw_qos_profile_t * qos_profile,
  const GetEndpointInfoByTopicFunction & get_endpoint_info,
  ResolveT resolve)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(node, RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(topic_name, RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(qos_profile, RMW_RET_INVALID_ARGUMENT);
  if (!_qos_profile_has_best_available_policy(*qos_profile)) {
    return RMW_RET_OK;
  }
  rcutils_allocator_t & allocator = node->context->options.allocator;
  rmw_topic_endpoint_info_array_t infos = rmw_get_zero_initialized_topic_endpoint_info_array();
  rmw_ret_t ret = get_endpoint_info(node, &allocator, topic_name, false, &infos);
  if (RMW_RET_OK != ret) {
    return ret;
  }
  ret = resolve(&infos, qos_profile);
  rmw_ret_t fini_ret = rmw_topic_endpoint_info_array_fini(&infos, &allocator);
  return RMW_RET_OK != fini_ret ? fini_ret : ret;
}

"""


def body(block, new):
    i = block.index('{\n') + 2
    return (block, block[:i] + new + '}\n\n')


REFACTORS = [
    ('ba-r-bools', Q, [inn(SUB, (HEADS[:HEADS.index('  bool use_default_deadline')], "  bool all_reliable = true;\n  bool all_transient_local = true;\n  bool all_manual = true;\n"),
        ("    if (RMW_QOS_POLICY_RELIABILITY_RELIABLE == profile.reliability) {\n      number_of_reliable++;\n    }\n", "    all_reliable = all_reliable && RMW_QOS_POLICY_RELIABILITY_RELIABLE == profile.reliability;\n"),
        ("    if (RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL == profile.durability) {\n      number_of_transient_local++;\n    }\n", "    all_transient_local &= RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL == profile.durability;\n"),
        ("    if (RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC == profile.liveliness) {\n      number_of_manual_by_topic++;\n    }\n", "    if (RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC != profile.liveliness) {\n      all_manual = false;\n    }\n"),
        ("number_of_reliable == publishers_info->size", "all_reliable"), ("number_of_transient_local == publishers_info->size", "all_transient_local"), ("number_of_manual_by_topic == publishers_info->size", "all_manual"))]),
    ('ba-r-countif', Q, [ALG, inn(SUB, ("    if (RMW_QOS_POLICY_RELIABILITY_RELIABLE == profile.reliability) {\n      number_of_reliable++;\n    }\n", ""),
        ("  size_t number_of_reliable = 0u;\n", "  const size_t number_of_reliable = static_cast<size_t>(std::count_if(\n    publishers_info->info_array, publishers_info->info_array + publishers_info->size,\n    [](const rmw_topic_endpoint_info_t & info) {\n      return info.qos_profile.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE;\n    }));\n"))]),
    ('ba-r-allof', Q, [ALG, inn(SUB, ("    if (RMW_QOS_POLICY_RELIABILITY_RELIABLE == profile.reliability) {\n      number_of_reliable++;\n    }\n", ""),
        ("  size_t number_of_reliable = 0u;\n", "  const bool all_reliable = std::all_of(\n    publishers_info->info_array, publishers_info->info_array + publishers_info->size,\n    [](const rmw_topic_endpoint_info_t & info) {\n      return info.qos_profile.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE;\n    });\n"), ("number_of_reliable == publishers_info->size", "all_reliable"))]),
    ('ba-r-countdown', Q, [inn(SUB, ("for (size_t i = 0u; i < publishers_info->size; ++i)", "for (size_t i = publishers_info->size; i-- > 0u; )"))]),
    ('ba-r-while', Q, [inn(PUB, ("  for (size_t i = 0u; i < subscriptions_info->size; ++i) {\n", "  size_t i = 0u;\n  while (i != subscriptions_info->size) {\n"), ("info_array[i].qos_profile", "info_array[i++].qos_profile"))]),
    ('ba-r-ptrloop', Q, [inn(SUB, ("  for (size_t i = 0u; i < publishers_info->size; ++i) {\n    const rmw_qos_profile_t & profile = publishers_info->info_array[i].qos_profile;\n", "  const rmw_topic_endpoint_info_t * const end = publishers_info->info_array + publishers_info->size;\n  for (const rmw_topic_endpoint_info_t * it = publishers_info->info_array; it != end; ++it) {\n    const rmw_qos_profile_t & profile = it->qos_profile;\n"))]),
    ('ba-r-splitloops', Q, [inn(SUB, ("    if (profile.deadline != deadline_default) {\n", "  }\n  for (size_t k = 0u; k < publishers_info->size; ++k) {\n    const rmw_qos_profile_t & profile = publishers_info->info_array[k].qos_profile;\n    if (profile.deadline != deadline_default) {\n"))]),
    ('ba-r-stdmax', Q, [ALG, inn(SUB, ("      if (largest_deadline < profile.deadline) {\n        largest_deadline = profile.deadline;\n      }\n", "      largest_deadline = std::max(\n        largest_deadline, profile.deadline,\n        [](const rmw_time_t & a, const rmw_time_t & b) {return a < b;});\n"))]),
    ('ba-r-maxternary', Q, [inn(PUB, ("      if (profile.deadline < smallest_deadline) {\n        smallest_deadline = profile.deadline;\n      }\n", "      smallest_deadline = profile.deadline < smallest_deadline ? profile.deadline : smallest_deadline;\n"))]),
    ('ba-r-noneflag', Q, [inn(SUB, ("  bool use_default_deadline = true;\n", "  size_t number_with_deadline = 0u;\n"), ("      use_default_deadline = false;\n", "      ++number_with_deadline;\n"), ("    if (use_default_deadline) {", "    if (0u == number_with_deadline) {"))]),
    ('ba-r-lambda', Q, [inn(SUB, ("    if (profile.deadline != deadline_default) {\n      use_default_deadline = false;\n      if (largest_deadline < profile.deadline) {\n        largest_deadline = profile.deadline;\n      }\n    }\n    if (profile.liveliness_lease_duration != liveliness_lease_duration_default) {\n      use_default_liveliness_lease_duration = false;\n      if (largest_liveliness_lease_duration < profile.liveliness_lease_duration) {\n        largest_liveliness_lease_duration = profile.liveliness_lease_duration;\n      }\n    }\n", "    auto merge = [](const rmw_time_t & value, const rmw_time_t & none, bool & unset, rmw_time_t & best) {\n        if (value == none) {\n          return;\n        }\n        unset = false;\n        if (best < value) {\n          best = value;\n        }\n      };\n    merge(profile.deadline, deadline_default, use_default_deadline, largest_deadline);\n    merge(\n      profile.liveliness_lease_duration, liveliness_lease_duration_default,\n      use_default_liveliness_lease_duration, largest_liveliness_lease_duration);\n"))]),
    ('ba-r-helper', Q, [(PUB, RESOLVE_T + PUB.replace("  if (deadline_best_available == publisher_profile->deadline) {\n    if (use_default_deadline) {\n      publisher_profile->deadline = RMW_QOS_DEADLINE_DEFAULT;\n    } else {\n      publisher_profile->deadline = smallest_deadline;\n    }\n  }\n", "  _resolve_time(\n    publisher_profile->deadline, deadline_best_available, use_default_deadline, smallest_deadline);\n"))]),
    ('ba-r-alias', Q, [(SUB, SUB.replace("  for (size_t i", "  rmw_qos_profile_t & out = *subscription_profile;\n  for (size_t i").replace("subscription_profile->", "out."))]),
    ('ba-r-switch', Q, [inn(SUB, ("    if (RMW_QOS_POLICY_RELIABILITY_RELIABLE == profile.reliability) {\n      number_of_reliable++;\n    }\n", "    switch (profile.reliability) {\n      case RMW_QOS_POLICY_RELIABILITY_RELIABLE:\n        number_of_reliable += 1u;\n        break;\n      default:\n        break;\n    }\n"))]),
    ('ba-r-ternary', Q, [inn(SUB, ("    if (number_of_reliable == publishers_info->size) {\n      subscription_profile->reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;\n    } else {\n      subscription_profile->reliability = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT;\n    }\n", "    subscription_profile->reliability = number_of_reliable < publishers_info->size ?\n      RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT : RMW_QOS_POLICY_RELIABILITY_RELIABLE;\n"))]),
    ('ba-r-copyprofile', Q, [inn(PUB, ("const rmw_qos_profile_t & profile = ", "const rmw_qos_profile_t profile = "))]),
    ('ba-r-livbreak', Q, [inn(PUB, ("    if (RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC == profile.liveliness) {\n      use_manual_by_topic = true;\n    }\n", ""), ("  if (RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == publisher_profile->liveliness) {\n", "  for (size_t k = 0u; k < subscriptions_info->size; ++k) {\n    if (RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC ==\n      subscriptions_info->info_array[k].qos_profile.liveliness)\n    {\n      use_manual_by_topic = true;\n      break;\n    }\n  }\n  if (RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == publisher_profile->liveliness) {\n"))]),
    ('ba-r-scanfn', Q, [(PUB, "static bool\n_any_manual(const rmw_topic_endpoint_info_array_t & infos)\n{\n  for (size_t k = 0u; k < infos.size; ++k) {\n    if (RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC == infos.info_array[k].qos_profile.liveliness) {\n      return true;\n    }\n  }\n  return false;\n}\n\n" + PUB.replace("    if (RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC == profile.liveliness) {\n      use_manual_by_topic = true;\n    }\n", "").replace("if (use_manual_by_topic)", "if (_any_manual(*subscriptions_info))").replace("  bool use_manual_by_topic = false;\n", ""))]),
    # topic variants
    ('ba-t-r-template', Q, [(TS + TP, COMMON + body(TS, "  return _resolve_for_topic(\n    node, topic_name, qos_profile, get_endpoint_info,\n    qos_profile_get_best_available_for_subscription);\n")[1] + body(TP, "  return _resolve_for_topic(\n    node, topic_name, qos_profile, get_endpoint_info,\n    [](const rmw_topic_endpoint_info_array_t * infos, rmw_qos_profile_t * profile) {\n      return qos_profile_get_best_available_for_publisher(infos, profile);\n    });\n")[1])]),
    ('ba-t-r-fnptr', Q, [(TS + TP, COMMON.replace("template<typename ResolveT>\n", "").replace("ResolveT resolve", "rmw_ret_t (*resolve)(const rmw_topic_endpoint_info_array_t *, rmw_qos_profile_t *)") + body(TS, "  return _resolve_for_topic(\n    node, topic_name, qos_profile, get_endpoint_info,\n    qos_profile_get_best_available_for_subscription);\n")[1] + body(TP, "  return _resolve_for_topic(\n    node, topic_name, qos_profile, get_endpoint_info,\n    &qos_profile_get_best_available_for_publisher);\n")[1])]),
    ('ba-t-r-earlyret', Q, [inn(TS, ("  if (_qos_profile_has_best_available_policy(*qos_profile)) {\n", "  if (!_qos_profile_has_best_available_policy(*qos_profile)) {\n    return RMW_RET_OK;\n  }\n  {\n"))]),
    ('ba-t-r-scope', Q, [inn(TS, ("    ret = qos_profile_get_best_available_for_subscription(\n      &publishers_info, qos_profile);\n    rmw_ret_t fini_ret = rmw_topic_endpoint_info_array_fini(&publishers_info, &allocator);\n    if (RMW_RET_OK != fini_ret) {\n      return fini_ret;\n    }\n    if (RMW_RET_OK != ret) {\n      return ret;\n    }\n", "    const rmw_ret_t resolve_ret = qos_profile_get_best_available_for_subscription(\n      &publishers_info, qos_profile);\n    ret = rmw_topic_endpoint_info_array_fini(&publishers_info, &allocator);\n    if (RMW_RET_OK == ret) {\n      ret = resolve_ret;\n    }\n    return ret;\n"))]),
    ('ba-t-r-allocptr', Q, [inn(TS, ("    rcutils_allocator_t & allocator = node->context->options.allocator;\n", "    rcutils_allocator_t * const allocator = &node->context->options.allocator;\n"), ("node, &allocator,", "node, allocator,"), ("_fini(&publishers_info, &allocator)", "_fini(&publishers_info, allocator)"))]),
    ('ba-t-r-hasor', Q, [body(HAS, "  return\n    RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE == qos_profile.reliability ||\n    RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE == qos_profile.durability ||\n    RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == qos_profile.liveliness ||\n    deadline_best_available == qos_profile.deadline ||\n    liveliness_lease_duration_best_available == qos_profile.liveliness_lease_duration;\n")]),
    ('ba-t-r-inlinehas', Q, [inn(TP, ("  if (_qos_profile_has_best_available_policy(*qos_profile)) {\n", "  const rmw_qos_profile_t & requested = *qos_profile;\n  const bool needs_graph =\n    RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == requested.liveliness ||\n    RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE == requested.reliability ||\n    RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE == requested.durability ||\n    liveliness_lease_duration_best_available == requested.liveliness_lease_duration ||\n    deadline_best_available == requested.deadline;\n  if (needs_graph) {\n"))]),
    ('ba-t-r-explicitnull', Q, [inn(TS, ('  RMW_CHECK_ARGUMENT_FOR_NULL(node, RMW_RET_INVALID_ARGUMENT);\n', '  if (nullptr == node) {\n    RMW_SET_ERROR_MSG("node argument is null");\n    return RMW_RET_INVALID_ARGUMENT;\n  }\n'))]),
    # services
    ('ba-v-r-defaults', Q, [(SV, SV.replace("  rmw_qos_profile_t result = qos_profile;\n", "  rmw_qos_profile_t result = qos_profile;\n  const rmw_qos_profile_t & defaults = rmw_qos_profile_services_default;\n").replace("= rmw_qos_profile_services_default.", "= defaults."))]),
    ('ba-v-r-lambda', Q, [body(SV, "  rmw_qos_profile_t result = qos_profile;\n  auto replace = [](auto & field, const auto & from, const auto & to) {\n      if (field == from) {\n        field = to;\n      }\n    };\n  const rmw_qos_profile_t & d = rmw_qos_profile_services_default;\n  replace(result.reliability, RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE, d.reliability);\n  replace(result.durability, RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE, d.durability);\n  replace(result.liveliness, RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE, d.liveliness);\n  replace(result.deadline, deadline_best_available, d.deadline);\n  replace(result.liveliness_lease_duration, liveliness_lease_duration_best_available, d.liveliness_lease_duration);\n  return result;\n")]),
    ('ba-v-r-ternary', Q, [inn(SV, ("  if (deadline_best_available == result.deadline) {\n    result.deadline = rmw_qos_profile_services_default.deadline;\n  }\n", "  result.deadline = (result.deadline != deadline_best_available) ?\n    qos_profile.deadline : rmw_qos_profile_services_default.deadline;\n"))]),
    ('ba-v-r-guard', Q, [inn(SV, ("  rmw_qos_profile_t result = qos_profile;\n", "  if (!_qos_profile_has_best_available_policy(qos_profile)) {\n    return qos_profile;\n  }\n  rmw_qos_profile_t result = qos_profile;\n"))]),
    # type hash
    ('th-r-append', Q, [inn(ENC, ('  string_out = "typehash=" + std::string(type_hash_c_str) + ";";\n', '  string_out = "typehash=";\n  string_out += type_hash_c_str;\n  string_out += ";";\n'))]),
    ('th-r-appendfn', Q, [inn(ENC, ('  string_out = "typehash=" + std::string(type_hash_c_str) + ";";\n', '  string_out.assign("typehash=").append(type_hash_c_str).push_back(\';\');\n'))]),
    ('th-r-const', Q, [("parse_type_hash_from_user_data(", "parse_type_hash_from_user_data("), (PARSE, 'static const char * const kTypeHashKey = "typehash";\n\n' + PARSE.replace('find("typehash")', 'find(kTypeHashKey)')), inn(ENC, ('"typehash=" + std::string', 'std::string(kTypeHashKey) + "=" + std::string'))]),
    ('th-r-switch', Q, [inn(ENC, ("  if (RCUTILS_RET_BAD_ALLOC == stringify_ret) {\n    return RMW_RET_BAD_ALLOC;\n  }\n  if (RCUTILS_RET_OK != stringify_ret) {\n    return RMW_RET_ERROR;\n  }\n", "  switch (stringify_ret) {\n    case RCUTILS_RET_OK:\n      break;\n    case RCUTILS_RET_BAD_ALLOC:\n      return RMW_RET_BAD_ALLOC;\n    default:\n      return RMW_RET_ERROR;\n  }\n"))]),
    ('th-r-nested', Q, [inn(ENC, ("  if (RCUTILS_RET_BAD_ALLOC == stringify_ret) {\n    return RMW_RET_BAD_ALLOC;\n  }\n  if (RCUTILS_RET_OK != stringify_ret) {\n    return RMW_RET_ERROR;\n  }\n", "  if (RCUTILS_RET_OK != stringify_ret) {\n    return RCUTILS_RET_BAD_ALLOC == stringify_ret ? RMW_RET_BAD_ALLOC : RMW_RET_ERROR;\n  }\n"))]),
    ('th-r-dealloc', Q, [inn(ENC, ("  RCPPUTILS_SCOPE_EXIT(allocator.deallocate(type_hash_c_str, &allocator.state));\n", ""), ('+ ";";\n', '+ ";";\n  allocator.deallocate(type_hash_c_str, allocator.state);\n'))]),
    ('th-r-emptyassign', Q, [inn(ENC, ("string_out.clear();", 'string_out = "";'))]),
    ('th-r-count', Q, [inn(PARSE, ("  auto typehash_it = key_value.find(\"typehash\");\n  if (typehash_it == key_value.end()) {", "  if (key_value.count(\"typehash\") == 0u) {"), ("  std::string type_hash_str(typehash_it->second.begin(), typehash_it->second.end());\n", "  const std::vector<uint8_t> & value = key_value[\"typehash\"];\n  std::string type_hash_str(value.begin(), value.end());\n"))]),
    ('th-r-nest', Q, [inn(PARSE, ("  if (typehash_it == key_value.end()) {\n    type_hash_out = rosidl_get_zero_initialized_type_hash();\n    return RMW_RET_OK;\n  }\n", "  const bool found = typehash_it != key_value.end();\n  if (!found) {\n    type_hash_out = rosidl_get_zero_initialized_type_hash();\n    return RMW_RET_OK;\n  }\n"), ("  if (RCUTILS_RET_OK != rosidl_parse_type_hash_string(type_hash_str.c_str(), &type_hash_out)) {\n    return RMW_RET_ERROR;\n  }\n  return RMW_RET_OK;\n", "  const rcutils_ret_t ret = rosidl_parse_type_hash_string(type_hash_str.c_str(), &type_hash_out);\n  return RCUTILS_RET_OK == ret ? RMW_RET_OK : RMW_RET_ERROR;\n"))]),
    ('th-r-data', Q, [inn(PARSE, ("typehash_it->second.begin(), typehash_it->second.end()", "reinterpret_cast<const char *>(typehash_it->second.data()), typehash_it->second.size()"))]),
    ('th-r-direct', Q, [inn(PARSE, ("  std::vector<uint8_t> udvec(user_data, user_data + user_data_size);\n  auto key_value = rmw::impl::cpp::parse_key_value(udvec);\n", "  const auto key_value = rmw::impl::cpp::parse_key_value(\n    std::vector<uint8_t>(user_data, user_data + user_data_size));\n"))]),
]
