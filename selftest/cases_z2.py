"""Further mixed refactorings."""
from cases_graph import G, HPP, body, meth
from cases_z1 import R, X, S, Q, GU, T, allof
import re
BUGS = []


def cut(s, a, b, new, after=True):
    i = s.index(a)
    j = s.index(b, i) + (len(b) if after else 0)
    return s[:i] + new + s[j:]


def owner(s):
    """Name and namespace of the creator come as one struct, placeholders included."""
    s = cut(s, 'enum class EndpointCreator', '\n}\n\nusing DemangleFunctionT', '''struct EndpointOwner
{
  std::string node_name;
  std::string node_namespace;
};

static
EndpointOwner
__find_owner(
  const GraphCache::ParticipantToNodesMap & participant_map,
  const rmw_gid_t & participant_gid,
  const rmw_gid_t & entity_gid,
  bool is_reader)
{
  const auto participant = participant_map.find(participant_gid);
  if (participant == participant_map.end()) {
    return EndpointOwner{"_CREATED_BY_BARE_DDS_APP_", "_CREATED_BY_BARE_DDS_APP_"};
  }
  for (const auto & node : participant->second.node_entities_info_seq) {
    for (const auto & gid : is_reader ? node.reader_gid_seq : node.writer_gid_seq) {
      if (std::equal(gid.data.begin(), gid.data.end(), entity_gid.data)) {
        return EndpointOwner{node.node_name, node.node_namespace};
      }
    }
  }
  return EndpointOwner{"_NODE_NAME_UNKNOWN_", "_NODE_NAMESPACE_UNKNOWN_"};
}

using DemangleFunctionT''')
    s = cut(s, '    auto result = __find_name_and_namespace_from_entity_gid(', '        break;\n    }\n\n    ret =', '''    const EndpointOwner owner = __find_owner(
      participant_map, entity_pair.second.participant_gid, entity_pair.first, is_reader);

    ret =''')
    return s.replace('      node_name.c_str(),\n', '      owner.node_name.c_str(),\n').replace('      node_namespace.c_str(),\n', '      owner.node_namespace.c_str(),\n')


def infoptr(s):
    s = s.replace('  size_t i = 0;\n  for (const auto & entity_pair : entities) {\n    if (entity_pair.second.topic_name != topic_name) {\n      continue;\n    }\n\n    rmw_topic_endpoint_info_t & endpoint_info = endpoints_info->info_array[i];\n', '''  rmw_topic_endpoint_info_t * next = endpoints_info->info_array;
  for (auto it = entities.begin(); it != entities.end(); ++it) {
    const auto & entity_pair = *it;
    if (entity_pair.second.topic_name != topic_name) {
      continue;
    }

    rmw_topic_endpoint_info_t & endpoint_info = *next++;
''')
    return s.replace('    i++;\n  }\n\n  endpoints_info_delete_on_error', '  }\n\n  endpoints_info_delete_on_error')


def nncollect(s):
    """The names are collected first, then copied out."""
    return cut(s, '  {\n    size_t j = 0;\n    for (const auto & elem : participants_) {', '  return RMW_RET_OK;\n\nfail:', '''  {
    struct Row
    {
      const std::string * name;
      const std::string * namespace_;
      const std::string * enclave;
    };
    std::vector<Row> rows;
    for (const auto & [participant_gid, participant] : participants_) {
      (void)participant_gid;
      for (const auto & node : participant.node_entities_info_seq) {
        rows.push_back({&node.node_name, &node.node_namespace, &participant.enclave});
      }
    }
    for (size_t j = 0; j < rows.size(); ++j) {
      const Row & row = rows[j];
      node_names->data[j] = rcutils_strdup(row.name->c_str(), *allocator);
      if (!node_names->data[j]) {
        goto fail;
      }
      node_namespaces->data[j] = rcutils_strdup(row.namespace_->c_str(), *allocator);
      if (!node_namespaces->data[j]) {
        goto fail;
      }
      if (enclaves) {
        enclaves->data[j] = rcutils_strdup(row.enclave->c_str(), *allocator);
        if (!enclaves->data[j]) {
          goto fail;
        }
      }
    }
  }
  return RMW_RET_OK;

fail:''')


def nnarrays(s):
    """The arrays are checked, set up and taken down in loops."""
    s = cut(s, '  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_names)) {', '  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(\n    allocator, "get_node_names allocator is not valid", return RMW_RET_INVALID_ARGUMENT);\n\n  size_t nodes_number', '''  for (rcutils_string_array_t * array : {node_names, node_namespaces}) {
    if (RMW_RET_OK != rmw_check_zero_rmw_string_array(array)) {
      return RMW_RET_INVALID_ARGUMENT;
    }
  }
  if (enclaves && RMW_RET_OK != rmw_check_zero_rmw_string_array(enclaves)) {
    return RMW_RET_INVALID_ARGUMENT;
  }
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
    allocator, "get_node_names allocator is not valid", return RMW_RET_INVALID_ARGUMENT);

  size_t nodes_number''')
    s = cut(s, '  rcutils_ret = rcutils_string_array_fini(node_names);\n', '  return RMW_RET_BAD_ALLOC;\n', '''  for (rcutils_string_array_t * array : {node_names, node_namespaces, enclaves}) {
    if (nullptr == array) {
      continue;
    }
    rcutils_ret = rcutils_string_array_fini(array);
    if (rcutils_ret != RCUTILS_RET_OK) {
      RCUTILS_LOG_ERROR_NAMED(
        "rmw_dds_common",
        "failed to cleanup during error handling: %s", rcutils_get_error_string().str);
    }
  }
  return RMW_RET_BAD_ALLOC;
''')
    return s


def lockalias(s):
    return s.replace('std::lock_guard<std::mutex> ', 'Lock ').replace('static const char log_tag[]', 'using Lock = std::lock_guard<std::mutex>;\n\nstatic const char log_tag[]')


def accumulate(s):
    return s.replace('#include <map>\n', '#include <map>\n#include <numeric>\n', 1).replace('''  size_t nodes_number = 0;
  for (const auto & elem : participants_map) {
    nodes_number += elem.second.node_entities_info_seq.size();
  }
  return nodes_number;
''', '''  return std::accumulate(
    participants_map.begin(), participants_map.end(), size_t{0},
    [](size_t total, const GraphCache::ParticipantToNodesMap::value_type & participant) {
      return total + participant.second.node_entities_info_seq.size();
    });
''')


def foreach(s):
    return cut(s, '  for (const auto & item : entities) {\n    std::string demangled_topic_name', '\n  }\n', '''  std::for_each(
    entities.begin(), entities.end(),
    [&](const GraphCache::EntityGidToInfo::value_type & item) {
      std::string name = demangle_topic(item.second.topic_name);
      if (name.empty()) {
        return;
      }
      topics[std::move(name)].insert(demangle_type(item.second.topic_type));
    });
''')


def popvec(s):
    """The names array is filled by one helper that also reports the error."""
    i = s.index('static\nrmw_ret_t\n__populate_rmw_names_and_types(')
    s = s[:i] + '''static
bool
__duplicate(
  char ** destination, const std::string & source, const rcutils_allocator_t & allocator,
  const char * what)
{
  *destination = rcutils_strdup(source.c_str(), allocator);
  if (nullptr != *destination) {
    return true;
  }
  RMW_SET_ERROR_MSG(what);
  return false;
}

''' + s[i:]
    s = cut(s, '    char * topic_name = rcutils_strdup(item.first.c_str(), *allocator);', '    topic_names_and_types->names.data[index] = topic_name;\n', '''    if (!__duplicate(
        &topic_names_and_types->names.data[index], item.first, *allocator,
        "failed to allocate memory for topic name"))
    {
      rmw_ret = RMW_RET_BAD_ALLOC;
      goto cleanup;
    }
''')
    return cut(s, '      char * type_name = rcutils_strdup(type.c_str(), *allocator);', '      ++type_index;\n', '''      if (!__duplicate(
          &topic_names_and_types->types[index].data[type_index++], type, *allocator,
          "failed to allocate memory for type name"))
      {
        rmw_ret = RMW_RET_BAD_ALLOC;
        goto cleanup;
      }
''')


def nodeflag(s):
    """The node is found with a flag and compound loop conditions."""
    return cut(s, '  for (const auto & participant : participant_map) {\n    for (const auto & node :', '  return nullptr;\n', '''  const rmw_dds_common::msg::NodeEntitiesInfo * found = nullptr;
  for (auto p = participant_map.begin(); nullptr == found && p != participant_map.end(); ++p) {
    const auto & nodes = p->second.node_entities_info_seq;
    for (size_t i = 0; nullptr == found && i < nodes.size(); ++i) {
      if (nodes[i].node_name == node_name && nodes[i].node_namespace == node_namespace) {
        found = &nodes[i];
      }
    }
  }
  return found;
''')


def dissindex(s):
    """Dissociation by index with a found flag."""
    for k in ('writer', 'reader'):
        s = cut(s, '''      auto it = std::find_if(
        info.%s_gid_seq.begin(),''' % k, '''        info.%s_gid_seq.erase(it);
      }
''' % k, '''      auto & gids = info.%s_gid_seq;
      size_t index = 0;
      while (index < gids.size() && !(gids[index] == %s_gid_msg)) {
        ++index;
      }
      if (index < gids.size()) {
        gids.erase(gids.begin() + static_cast<std::ptrdiff_t>(index));
      }
''' % (k, k))
    return s


def inlinemod(s):
    """Modification functions as std::function, with the lookup in a lambda."""
    return s.replace('template<typename FunctorT>\nrmw_dds_common::msg', 'static\nrmw_dds_common::msg').replace('  FunctorT func,\n', '  const std::function<void(rmw_dds_common::msg::NodeEntitiesInfo &)> & func,\n')


def ctxmsg(s):
    s = s.replace('  if (!call_publish_callback(pub, publish_callback, msg)) {', '  const bool published = call_publish_callback(pub, publish_callback, msg);\n  if (!published) {')
    return s.replace('''  if (nullptr == pub || nullptr == publish_callback ||
    RMW_RET_OK != publish_callback(pub, static_cast<const void *>(&msg)))
  {
    return false;
  }
  return true;
''', '''  if (!pub) {
    return false;
  }
  if (!publish_callback) {
    return false;
  }
  const void * payload = &msg;
  const rmw_ret_t ret = publish_callback(pub, payload);
  return ret == RMW_RET_OK;
''')


def ctxpair(s):
    """Clients and services share their halves."""
    i = s.index('rmw_ret_t Context::add_client_graph(')
    k = s.index('\n}  // namespace rmw_dds_common')
    helper = '''namespace
{
using ParticipantInfo = rmw_dds_common::msg::ParticipantEntitiesInfo;
using Endpoints = std::pair<const rmw_gid_t &, const rmw_gid_t &>;

ParticipantInfo attach(
  GraphCache & cache, const Endpoints & endpoints, bool reader_first, const rmw_gid_t & gid,
  const std::string & name, const std::string & namespace_)
{
  if (reader_first) {
    cache.associate_reader(endpoints.first, gid, name, namespace_);
    return cache.associate_writer(endpoints.second, gid, name, namespace_);
  }
  cache.associate_writer(endpoints.first, gid, name, namespace_);
  return cache.associate_reader(endpoints.second, gid, name, namespace_);
}

ParticipantInfo detach(
  GraphCache & cache, const Endpoints & endpoints, bool reader_first, const rmw_gid_t & gid,
  const std::string & name, const std::string & namespace_)
{
  if (reader_first) {
    cache.dissociate_reader(endpoints.first, gid, name, namespace_);
    return cache.dissociate_writer(endpoints.second, gid, name, namespace_);
  }
  cache.dissociate_writer(endpoints.first, gid, name, namespace_);
  return cache.dissociate_reader(endpoints.second, gid, name, namespace_);
}
}  // namespace

'''
    out = ''
    for kind, first, second, rf in (('client', 'request_publisher_gid', 'response_subscriber_gid', 'false'), ('service', 'request_subscriber_gid', 'response_publisher_gid', 'true')):
        out += '''rmw_ret_t Context::add_%(k)s_graph(
  const rmw_gid_t & %(a)s, const rmw_gid_t & %(b)s,
  const std::string & name, const std::string & namespace_)
{
  std::lock_guard<std::mutex> guard(node_update_mutex);
  const Endpoints endpoints(%(a)s, %(b)s);
  const auto msg = attach(graph_cache, endpoints, %(r)s, gid, name, namespace_);
  if (call_publish_callback(pub, publish_callback, msg)) {
    return RMW_RET_OK;
  }
  detach(graph_cache, endpoints, %(r)s, gid, name, namespace_);
  return RMW_RET_ERROR;
}

rmw_ret_t Context::remove_%(k)s_graph(
  const rmw_gid_t & %(a)s, const rmw_gid_t & %(b)s,
  const std::string & name, const std::string & namespace_)
{
  std::lock_guard<std::mutex> guard(node_update_mutex);
  const Endpoints endpoints(%(a)s, %(b)s);
  const auto msg = detach(graph_cache, endpoints, %(r)s, gid, name, namespace_);
  return call_publish_callback(pub, publish_callback, msg) ? RMW_RET_OK : RMW_RET_ERROR;
}

''' % dict(k=kind, a=first, b=second, r=rf)
    return (s[:i] + helper + out.rstrip('\n') + '\n' + s[k:]).replace('#include <string>\n', '#include <string>\n#include <utility>\n', 1)


def qwarn(s):
    """The three warning blocks are one function over strings and flags."""
    i = s.index('rmw_ret_t\nqos_profile_check_compatible(')
    helper = '''struct WarningTexts
{
  const char * both;
  const char * publisher;
  const char * subscription;
};

static rmw_ret_t
_warn(
  bool pub_unknown, bool sub_unknown, bool sub_strict, bool pub_weak,
  const char * pub_str, const char * sub_str, const WarningTexts & texts,
  rmw_qos_compatibility_type_t * compatibility, char * reason, size_t reason_size)
{
  if (pub_unknown && sub_unknown) {
    *compatibility = RMW_QOS_COMPATIBILITY_WARNING;
    return _append_to_buffer(reason, reason_size, texts.both, pub_str, sub_str);
  }
  if (pub_unknown && sub_strict) {
    *compatibility = RMW_QOS_COMPATIBILITY_WARNING;
    return _append_to_buffer(reason, reason_size, texts.publisher, pub_str);
  }
  if (pub_weak && sub_unknown) {
    *compatibility = RMW_QOS_COMPATIBILITY_WARNING;
    return _append_to_buffer(reason, reason_size, texts.subscription, sub_str);
  }
  return RMW_RET_OK;
}

'''
    s = s[:i] + helper + s[i:]
    a = s.index('    // Reliability warnings\n')
    b = s.index('  return RMW_RET_OK;\n}\n\nrmw_ret_t\nqos_profile_get_best_available_for_subscription', a)
    new = ''
    for k, K, strict, weak, t in (
        ('reliability', 'RELIABILITY', 'RELIABLE', 'BEST_EFFORT', ('WARNING: Publisher reliability is %s and subscription reliability is %s;', 'WARNING: Reliable subscription, but publisher is %s;', 'WARNING: Best effort publisher, but subscription is %s;')),
        ('durability', 'DURABILITY', 'TRANSIENT_LOCAL', 'VOLATILE', ('WARNING: Publisher durabilty is %s and subscription durability is %s;', 'WARNING: Transient local subscription, but publisher is %s;', 'WARNING: Volatile publisher, but subscription is %s;')),
        ('liveliness', 'LIVELINESS', 'MANUAL_BY_TOPIC', 'AUTOMATIC', ('WARNING: Publisher liveliness is %s and subscription liveliness is %s;', "WARNING: Subscription's liveliness is manual by topic, but publisher's is %s;", "WARNING: Publisher's liveliness is automatic, but subscription's is %s;")),
    ):
        new += '''    %sret = _warn(
      pub_%s_unknown, sub_%s_unknown,
      subscription_qos.%s == RMW_QOS_POLICY_%s_%s,
      publisher_qos.%s == RMW_QOS_POLICY_%s_%s,
      pub_%s_str, sub_%s_str,
      {
        "%s",
        "%s",
        "%s"},
      compatibility, reason, reason_size);
    if (RMW_RET_OK != ret) {
      return ret;
    }
''' % (('rmw_ret_t ' if k == 'reliability' else '', k, k, k, K, strict, k, K, weak, k, k) + t)
    return s[:a] + new + '  }\n\n' + s[b:]


def qscan(s):
    """One pass over the endpoints collects everything in a struct."""
    i = s.index('rmw_ret_t\nqos_profile_get_best_available_for_subscription(')
    helper = '''struct DurationSummary
{
  bool all_default = true;
  rmw_time_t smallest = RMW_DURATION_INFINITE;
  rmw_time_t largest = {0u, 0u};

  void add(const rmw_time_t & value, const rmw_time_t & default_value)
  {
    if (value == default_value) {
      return;
    }
    all_default = false;
    if (value < smallest) {
      smallest = value;
    }
    if (largest < value) {
      largest = value;
    }
  }
};

struct EndpointSummary
{
  bool all_reliable = true;
  bool all_transient_local = true;
  bool all_manual_by_topic = true;
  bool any_manual_by_topic = false;
  DurationSummary deadline;
  DurationSummary lease;
};

static EndpointSummary
_summarize(const rmw_topic_endpoint_info_array_t & endpoints)
{
  EndpointSummary summary;
  for (size_t i = 0u; i < endpoints.size; ++i) {
    const rmw_qos_profile_t & profile = endpoints.info_array[i].qos_profile;
    summary.all_reliable &= RMW_QOS_POLICY_RELIABILITY_RELIABLE == profile.reliability;
    summary.all_transient_local &= RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL == profile.durability;
    const bool manual = RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC == profile.liveliness;
    summary.all_manual_by_topic &= manual;
    summary.any_manual_by_topic |= manual;
    summary.deadline.add(profile.deadline, deadline_default);
    summary.lease.add(profile.liveliness_lease_duration, liveliness_lease_duration_default);
  }
  return summary;
}

'''
    s = s[:i] + helper + s[i:]
    s = cut(s, '  size_t number_of_reliable = 0u;', '\n  if (RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE == subscription_profile->reliability) {', '''  const EndpointSummary summary = _summarize(*publishers_info);

  if (RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE == subscription_profile->reliability) {''')
    for a, b in (('number_of_reliable', 'all_reliable'), ('number_of_transient_local', 'all_transient_local'), ('number_of_manual_by_topic', 'all_manual_by_topic')):
        s = s.replace('if (%s == publishers_info->size)' % a, 'if (summary.%s)' % b)
    s = cut(s, '  bool use_manual_by_topic = false;', '\n  if (RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == publisher_profile->liveliness) {', '''  const EndpointSummary summary = _summarize(*subscriptions_info);

  if (RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == publisher_profile->liveliness) {''')
    s = s.replace('if (use_manual_by_topic)', 'if (summary.any_manual_by_topic)').replace('if (use_default_deadline)', 'if (summary.deadline.all_default)').replace('if (use_default_liveliness_lease_duration)', 'if (summary.lease.all_default)')
    for w in ('largest', 'smallest'):
        s = s.replace('= %s_deadline;' % w, '= summary.deadline.%s;' % w).replace('= %s_liveliness_lease_duration;' % w, '= summary.lease.%s;' % w)
    return s


def qservices(s):
    return cut(s, '  rmw_qos_profile_t result = qos_profile;\n', '  return result;\n', '''  const rmw_qos_profile_t & fallback = rmw_qos_profile_services_default;
  rmw_qos_profile_t result = qos_profile;
  result.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE == qos_profile.reliability ?
    fallback.reliability : qos_profile.reliability;
  result.durability = RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE == qos_profile.durability ?
    fallback.durability : qos_profile.durability;
  result.liveliness = RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == qos_profile.liveliness ?
    fallback.liveliness : qos_profile.liveliness;
  result.deadline = deadline_best_available == qos_profile.deadline ?
    fallback.deadline : qos_profile.deadline;
  result.liveliness_lease_duration =
    liveliness_lease_duration_best_available == qos_profile.liveliness_lease_duration ?
    fallback.liveliness_lease_duration : qos_profile.liveliness_lease_duration;
  return result;
''')


def qhas(s):
    return cut(s, '  if (RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE == qos_profile.reliability) {\n    return true;', '  return false;\n', '''  return RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE == qos_profile.reliability ||
         RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE == qos_profile.durability ||
         RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == qos_profile.liveliness ||
         deadline_best_available == qos_profile.deadline ||
         liveliness_lease_duration_best_available == qos_profile.liveliness_lease_duration;
''')


def qhash(s):
    s = cut(s, '  std::vector<uint8_t> udvec(user_data, user_data + user_data_size);', '  return RMW_RET_OK;\n}\n\nrmw_ret_t\nencode_type', '''  const std::vector<uint8_t> bytes(user_data, user_data + user_data_size);
  const auto entries = rmw::impl::cpp::parse_key_value(bytes);
  const auto entry = entries.find("typehash");
  if (entry != entries.end()) {
    const std::string text(entry->second.begin(), entry->second.end());
    const rcutils_ret_t ret = rosidl_parse_type_hash_string(text.c_str(), &type_hash_out);
    return RCUTILS_RET_OK == ret ? RMW_RET_OK : RMW_RET_ERROR;
  }
  type_hash_out = rosidl_get_zero_initialized_type_hash();
  return RMW_RET_OK;
}

rmw_ret_t
encode_type''')
    return cut(s, '  if (RCUTILS_RET_BAD_ALLOC == stringify_ret) {', '  string_out = "typehash=" + std::string(type_hash_c_str) + ";";\n', '''  switch (stringify_ret) {
    case RCUTILS_RET_OK:
      break;
    case RCUTILS_RET_BAD_ALLOC:
      return RMW_RET_BAD_ALLOC;
    default:
      return RMW_RET_ERROR;
  }
  string_out.assign("typehash=").append(type_hash_c_str).append(";");
  allocator.deallocate(type_hash_c_str, allocator.state);
''')


def secopt(s):
    """Both tables are walked by one helper returning the first usable file."""
    s = s.replace('''bool get_security_files(
  const std::string & prefix, const std::string & secure_root,''', '''using FileProcessor =
  std::function<bool (bool, const std::string &, const std::filesystem::path &, std::string &)>;

static bool first_match(
  const std::vector<std::pair<std::string, FileProcessor>> & candidates,
  bool supports_pkcs11, const std::string & prefix, const std::string & secure_root,
  std::string & value)
{
  auto it = candidates.begin();
  for (; it != candidates.end(); ++it) {
    if (it->second(
        supports_pkcs11, prefix, std::filesystem::path(secure_root) / it->first, value))
    {
      break;
    }
  }
  return it != candidates.end();
}

bool get_security_files(
  const std::string & prefix, const std::string & secure_root,''', 1)
    s = cut(s, '    std::string attribute_value;\n', '    result[el.first] = attribute_value;\n', '''    std::string attribute_value;
    if (!first_match(el.second, supports_pkcs11, prefix, secure_root, attribute_value)) {
      result.clear();
      return false;
    }
    result[el.first] = attribute_value;
''')
    return cut(s, '    std::filesystem::path full_path(secure_root);\n    full_path /= el.second;\n    std::error_code ec;', '''      result[el.first] = prefix + full_path.generic_string();
    }
''', '''    std::string value;
    if (first_match({{el.second, process_file_uri_security_file}}, false, prefix, secure_root, value)) {
      result[el.first] = value;
    }
''')


GR = [('z2-gr-owner', owner), ('z2-gr-infoptr', infoptr), ('z2-gr-nncollect', nncollect), ('z2-gr-nnarrays', nnarrays), ('z2-gr-lockalias', lockalias), ('z2-gr-accumulate', accumulate), ('z2-gr-foreach', foreach), ('z2-gr-popvec', popvec), ('z2-gr-nodeflag', nodeflag), ('z2-gr-dissindex', dissindex), ('z2-gr-inlinemod', inlinemod)]
QQ = [('z2-q-warn', qwarn), ('z2-q-scan', qscan), ('z2-q-services', qservices), ('z2-q-has', qhas), ('z2-q-hash', qhash)]
REFACTORS = [R(n, G, (G, None, f)) for n, f in GR] + [R('z2-gr-all', G, (G, None, allof(*[f for _, f in GR])))] + \
    [R(n, Q, (Q, None, f)) for n, f in QQ] + [R('z2-q-all', Q, (Q, None, allof(*[f for _, f in QQ])))] + [
    R('z2-ctx-msg', X, (X, None, ctxmsg)),
    R('z2-ctx-pair', X, (X, None, ctxpair)),
    R('z2-sec-first', S, (S, None, secopt)),
]
