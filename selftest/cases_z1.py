"""A second hand at behaviour-preserving edits: larger, mixed refactorings."""
import re
from cases_graph import G, HPP, body, meth
X = 'src/context.cpp'
S = 'src/security.cpp'
Q = 'src/qos.cpp'
GU = 'src/gid_utils.cpp'
T = 'src/time_utils.cpp'


def R(cid, file, *edits):
    return (cid, file, list(edits))


def fn(file, start, end, new):
    """Replace from start up to and including end."""
    def f(s):
        i = s.index(start)
        j = s.index(end, i) + len(end)
        return s[:i] + new + s[j:]
    return (file, None, f)


def sub(file, pat, new, count=0):
    def f(s):
        t, n = re.subn(pat, new, s, count=count, flags=re.S)
        assert n, pat
        return t
    return (file, None, f)


BUGS = []
NOTIFY = sub(G, r'GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF\(this, ([^;)]*(?:\([^)]*\))?[^;)]*)\);', r'notify_if(\1);')
NOTIFY2 = sub(G, r'GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK\(this\);', r'notify_if(true);')

MODIFY = '''static
rmw_dds_common::msg::NodeEntitiesInfo *
__find_node_info(
  GraphCache::NodeEntitiesInfoSeq & nodes,
  const std::string & node_name,
  const std::string & node_namespace)
{
  for (auto & node : nodes) {
    if (node.node_name == node_name && node.node_namespace == node_namespace) {
      return &node;
    }
  }
  return nullptr;
}

using GidSeqMember = GraphCache::GidSeq rmw_dds_common::msg::NodeEntitiesInfo::*;

static
rmw_dds_common::msg::ParticipantEntitiesInfo
__add_endpoint(
  GraphCache::ParticipantToNodesMap & participants, const rmw_gid_t & participant_gid,
  const std::string & node_name, const std::string & node_namespace,
  const rmw_gid_t & endpoint_gid, GidSeqMember member)
{
  auto participant = participants.find(participant_gid);
  assert(participant != participants.end());
  auto * node = __find_node_info(participant->second.node_entities_info_seq, node_name, node_namespace);
  assert(node);
  rmw_dds_common::msg::Gid gid_msg;
  rmw_dds_common::convert_gid_to_msg(&endpoint_gid, &gid_msg);
  (node->*member).push_back(gid_msg);
  return __create_participant_info_message(participant_gid, participant->second.node_entities_info_seq);
}

static
rmw_dds_common::msg::ParticipantEntitiesInfo
__drop_endpoint(
  GraphCache::ParticipantToNodesMap & participants, const rmw_gid_t & participant_gid,
  const std::string & node_name, const std::string & node_namespace,
  const rmw_gid_t & endpoint_gid, GidSeqMember member)
{
  auto participant = participants.find(participant_gid);
  assert(participant != participants.end());
  auto * node = __find_node_info(participant->second.node_entities_info_seq, node_name, node_namespace);
  assert(node);
  rmw_dds_common::msg::Gid gid_msg;
  rmw_dds_common::convert_gid_to_msg(&endpoint_gid, &gid_msg);
  auto & gids = node->*member;
  const auto found = std::find(gids.begin(), gids.end(), gid_msg);
  if (found != gids.end()) {
    gids.erase(found);
  }
  return __create_participant_info_message(participant_gid, participant->second.node_entities_info_seq);
}

'''


def assoc(s):
    i = s.index('template<typename FunctorT>')
    j = s.index('static\nrmw_ret_t\n__get_count(')
    out = MODIFY
    for verb, helper in (('associate', '__add_endpoint'), ('dissociate', '__drop_endpoint')):
        for kind in ('writer', 'reader'):
            out += '''rmw_dds_common::msg::ParticipantEntitiesInfo
GraphCache::%s_%s(
  const rmw_gid_t & %s_gid,
  const rmw_gid_t & participant_gid,
  const std::string & node_name,
  const std::string & node_namespace)
{
  std::lock_guard<std::mutex> guard(mutex_);
  auto msg = %s(
    participants_, participant_gid, node_name, node_namespace, %s_gid,
    &rmw_dds_common::msg::NodeEntitiesInfo::%s_gid_seq);
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
  return msg;
}

''' % (verb, kind, kind, helper, kind, kind)
    return s[:i] + out + s[j:]


INFO_FILL = '''static
rmw_ret_t
__fill_endpoint_info(
  rmw_topic_endpoint_info_t & endpoint_info,
  const GraphCache::ParticipantToNodesMap & participant_map,
  const rmw_gid_t & gid,
  const rmw_dds_common::EntityInfo & entity,
  const DemangleFunctionT & demangle_type,
  bool is_reader,
  rcutils_allocator_t * allocator)
{
  endpoint_info = rmw_get_zero_initialized_topic_endpoint_info();

  std::string node_name;
  std::string node_namespace;
  EndpointCreator creator;
  std::tie(node_name, node_namespace, creator) = __find_name_and_namespace_from_entity_gid(
    participant_map, entity.participant_gid, gid, is_reader);
  if (creator == EndpointCreator::UNDISCOVERED_ROS_NODE) {
    node_name = "_NODE_NAME_UNKNOWN_";
    node_namespace = "_NODE_NAMESPACE_UNKNOWN_";
  } else if (creator == EndpointCreator::BARE_DDS_PARTICIPANT) {
    node_name = node_namespace = "_CREATED_BY_BARE_DDS_APP_";
  }
  const std::string type_name = demangle_type(entity.topic_type);
  const auto endpoint_type = is_reader ? RMW_ENDPOINT_SUBSCRIPTION : RMW_ENDPOINT_PUBLISHER;

  rmw_ret_t ret = rmw_topic_endpoint_info_set_node_name(&endpoint_info, node_name.c_str(), allocator);
  if (RMW_RET_OK == ret) {
    ret = rmw_topic_endpoint_info_set_node_namespace(
      &endpoint_info, node_namespace.c_str(), allocator);
  }
  if (RMW_RET_OK == ret) {
    ret = rmw_topic_endpoint_info_set_topic_type(&endpoint_info, type_name.c_str(), allocator);
  }
  if (RMW_RET_OK == ret) {
    ret = rmw_topic_endpoint_info_set_topic_type_hash(&endpoint_info, &entity.topic_type_hash);
  }
  if (RMW_RET_OK == ret) {
    ret = rmw_topic_endpoint_info_set_endpoint_type(&endpoint_info, endpoint_type);
  }
  if (RMW_RET_OK == ret) {
    ret = rmw_topic_endpoint_info_set_gid(&endpoint_info, gid.data, RMW_GID_STORAGE_SIZE);
  }
  if (RMW_RET_OK == ret) {
    ret = rmw_topic_endpoint_info_set_qos_profile(&endpoint_info, &entity.qos);
  }
  return ret;
}

static
rmw_ret_t
__get_entities_info_by_topic(
  const GraphCache::EntityGidToInfo & entities,
  const GraphCache::ParticipantToNodesMap & participant_map,
  const std::string & topic_name,
  DemangleFunctionT demangle_type,
  bool is_reader,
  rcutils_allocator_t * allocator,
  rmw_topic_endpoint_info_array_t * endpoints_info)
{
  assert(allocator);
  assert(endpoints_info);

  std::vector<const GraphCache::EntityGidToInfo::value_type *> matches;
  for (const auto & item : entities) {
    if (item.second.topic_name == topic_name) {
      matches.push_back(&item);
    }
  }
  if (matches.empty()) {
    return RMW_RET_OK;
  }

  rmw_ret_t ret = rmw_topic_endpoint_info_array_init_with_size(
    endpoints_info, matches.size(), allocator);
  if (RMW_RET_OK != ret) {
    return ret;
  }

  for (size_t i = 0; i < matches.size() && RMW_RET_OK == ret; ++i) {
    ret = __fill_endpoint_info(
      endpoints_info->info_array[i], participant_map, matches[i]->first, matches[i]->second,
      demangle_type, is_reader, allocator);
  }
  if (RMW_RET_OK != ret) {
    if (RMW_RET_OK != rmw_topic_endpoint_info_array_fini(endpoints_info, allocator)) {
      RCUTILS_LOG_ERROR_NAMED(
        log_tag,
        "Failed to destroy endpoints_info when function failed.");
    }
  }
  return ret;
}
'''


def info(s):
    i = s.index('static\nrmw_ret_t\n__get_entities_info_by_topic(')
    j = s.index('\n}\n', i) + 3
    return s[:i] + INFO_FILL + s[j:]


NAMES = '''static
bool
__init_string_array(
  rcutils_string_array_t * array, size_t size, rcutils_allocator_t * allocator)
{
  if (RCUTILS_RET_OK == rcutils_string_array_init(array, size, allocator)) {
    return true;
  }
  rcutils_error_string_t error_msg = rcutils_get_error_string();
  rcutils_reset_error();
  RMW_SET_ERROR_MSG(error_msg.str);
  return false;
}

static
void
__fini_string_array(rcutils_string_array_t * array)
{
  if (RCUTILS_RET_OK != rcutils_string_array_fini(array)) {
    RCUTILS_LOG_ERROR_NAMED(
      "rmw_dds_common",
      "failed to cleanup during error handling: %s", rcutils_get_error_string().str);
  }
}

static
bool
__copy_node_names(
  const GraphCache::ParticipantToNodesMap & participants,
  rcutils_string_array_t * node_names,
  rcutils_string_array_t * node_namespaces,
  rcutils_string_array_t * enclaves,
  const rcutils_allocator_t & allocator)
{
  auto dup = [&allocator](rcutils_string_array_t * array, size_t index, const std::string & value) {
      array->data[index] = rcutils_strdup(value.c_str(), allocator);
      return nullptr != array->data[index];
    };
  size_t index = 0u;
  for (const auto & participant : participants) {
    for (const auto & node : participant.second.node_entities_info_seq) {
      if (!dup(node_names, index, node.node_name) ||
        !dup(node_namespaces, index, node.node_namespace) ||
        (enclaves && !dup(enclaves, index, participant.second.enclave)))
      {
        return false;
      }
      ++index;
    }
  }
  return true;
}

'''
NAMES_BODY = '''  const size_t nodes_number = __get_number_of_nodes(participants_);
  const bool ok =
    __init_string_array(node_names, nodes_number, allocator) &&
    __init_string_array(node_namespaces, nodes_number, allocator) &&
    (!enclaves || __init_string_array(enclaves, nodes_number, allocator)) &&
    __copy_node_names(participants_, node_names, node_namespaces, enclaves, *allocator);
  if (ok) {
    return RMW_RET_OK;
  }

  __fini_string_array(node_names);
  __fini_string_array(node_namespaces);
  if (enclaves) {
    __fini_string_array(enclaves);
  }
  return RMW_RET_BAD_ALLOC;
}
'''


def names(s):
    i = s.index('rmw_ret_t\nGraphCache::get_node_names(')
    s = s[:i] + NAMES + s[i:]
    i = s.index('  size_t nodes_number = __get_number_of_nodes(participants_);')
    j = s.index('  return RMW_RET_BAD_ALLOC;\n}\n', i) + len('  return RMW_RET_BAD_ALLOC;\n}\n')
    return s[:i] + NAMES_BODY + s[j:]


POP = '''static
rmw_ret_t
__populate_types(
  const std::set<std::string> & types,
  rcutils_allocator_t * allocator,
  rcutils_string_array_t * out)
{
  const rcutils_ret_t rcutils_ret = rcutils_string_array_init(out, types.size(), allocator);
  if (RCUTILS_RET_OK != rcutils_ret) {
    RMW_SET_ERROR_MSG(rcutils_get_error_string().str);
    return rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret);
  }
  char ** slot = out->data;
  for (const auto & type : types) {
    *slot = rcutils_strdup(type.c_str(), *allocator);
    if (!*slot) {
      RMW_SET_ERROR_MSG("failed to allocate memory for type name");
      return RMW_RET_BAD_ALLOC;
    }
    ++slot;
  }
  return RMW_RET_OK;
}

static
rmw_ret_t
__populate_rmw_names_and_types(
  const NamesAndTypes & topics,
  rcutils_allocator_t * allocator,
  rmw_names_and_types_t * topic_names_and_types)
{
  if (topics.empty()) {
    return RMW_RET_OK;
  }

  rmw_ret_t rmw_ret = rmw_names_and_types_init(topic_names_and_types, topics.size(), allocator);
  if (RMW_RET_OK != rmw_ret) {
    return rmw_ret;
  }

  size_t index = 0;
  for (auto it = topics.cbegin(); it != topics.cend() && RMW_RET_OK == rmw_ret; ++it, ++index) {
    topic_names_and_types->names.data[index] = rcutils_strdup(it->first.c_str(), *allocator);
    if (!topic_names_and_types->names.data[index]) {
      RMW_SET_ERROR_MSG("failed to allocate memory for topic name");
      rmw_ret = RMW_RET_BAD_ALLOC;
      break;
    }
    rmw_ret = __populate_types(it->second, allocator, &topic_names_and_types->types[index]);
  }
  if (RMW_RET_OK != rmw_ret && RMW_RET_OK != rmw_names_and_types_fini(topic_names_and_types)) {
    RCUTILS_LOG_ERROR_NAMED(
      log_tag,
      "error during report of error: %s", rmw_get_error_string().str);
  }
  return rmw_ret;
}
'''


def pop(s):
    i = s.index('static\nrmw_ret_t\n__populate_rmw_names_and_types(')
    j = s.index('\n}\n', i) + 3
    return s[:i] + POP + s[j:]


def bynode(s):
    """The getter function becomes a pointer to member, found together with the node in one helper."""
    s = s.replace('''using GetEntitiesGidsFuncT =
  std::function<const GraphCache::GidSeq & (const rmw_dds_common::msg::NodeEntitiesInfo &)>;
''', '''using GidSeqOfNode = GraphCache::GidSeq rmw_dds_common::msg::NodeEntitiesInfo::*;
''')
    s = s.replace('  GetEntitiesGidsFuncT get_entities_gids,\n', '  GidSeqOfNode gids_of_node,\n')
    s = s.replace('get_entities_gids(*node_info_ptr)', 'node_info_ptr->*gids_of_node')
    for k in ('writer', 'reader'):
        h = 'static\nconst GraphCache::GidSeq &\n__get_%ss_gids(const rmw_dds_common::msg::NodeEntitiesInfo & node_info)\n{\n  return node_info.%s_gid_seq;\n}\n\n' % (k, k)
        assert h in s
        s = s.replace(h, '')
        s = s.replace('    __get_%ss_gids,\n' % k, '    &rmw_dds_common::msg::NodeEntitiesInfo::%s_gid_seq,\n' % k)
    return s


def addent(s):
    """Both kinds of endpoint are added by one template."""
    i = s.index('bool\nGraphCache::add_writer(')
    helper = '''namespace
{
template<typename MapT>
bool
try_add_entity(
  MapT & entities, const rmw_gid_t & gid, const std::string & topic_name,
  const std::string & type_name, const rosidl_type_hash_t & type_hash,
  const rmw_gid_t & participant_gid, const rmw_qos_profile_t & qos)
{
  if (entities.find(gid) != entities.end()) {
    return false;
  }
  rmw_dds_common::EntityInfo info(topic_name, type_name, type_hash, participant_gid, qos);
  return entities.insert({gid, std::move(info)}).second;
}
}  // namespace

'''
    for k in ('writers', 'readers'):
        s = s.replace('''  auto pair = data_%s_.emplace(
    std::piecewise_construct,
    std::forward_as_tuple(gid),
    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos));
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, pair.second);
  return pair.second;
''' % k, '''  const bool added = try_add_entity(
    data_%s_, gid, topic_name, type_name, type_hash, participant_gid, qos);
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, added);
  return added;
''' % k)
    return s[:i] + helper + s[i:]


def entmap(s):
    """add_entity / remove_entity pick the map, add_writer and add_reader delegate to them."""
    s = s.replace('''  std::lock_guard<std::mutex> guard(mutex_);
  bool ret = data_writers_.erase(gid) > 0;
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, ret);
  return ret;
''', '''  return this->remove_entity(gid, false);
''')
    s = s.replace('''  std::lock_guard<std::mutex> guard(mutex_);
  bool ret = data_readers_.erase(gid) > 0;
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, ret);
  return ret;
''', '''  return this->remove_entity(gid, true);
''')
    s = s.replace('''  if (is_reader) {
    return this->remove_reader(gid);
  }
  return this->remove_writer(gid);
''', '''  std::lock_guard<std::mutex> guard(mutex_);
  EntityGidToInfo & entities = is_reader ? data_readers_ : data_writers_;
  const auto it = entities.find(gid);
  if (entities.end() == it) {
    return false;
  }
  entities.erase(it);
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
  return true;
''')
    return s


PART = '''namespace
{
GraphCache::ParticipantToNodesMap::mapped_type &
get_or_create(GraphCache::ParticipantToNodesMap & participants, const rmw_gid_t & gid)
{
  auto it = participants.lower_bound(gid);
  if (it == participants.end() || participants.key_comp()(gid, it->first)) {
    it = participants.emplace_hint(
      it, std::piecewise_construct, std::forward_as_tuple(gid), std::forward_as_tuple());
  }
  return it->second;
}
}  // namespace

'''


def part(s):
    i = s.index('void\nGraphCache::update_participant_entities(')
    s = s[:i] + PART + s[i:]
    for key, tail in (('gid', 'node_entities_info_seq = msg.node_entities_info_seq'), ('participant_gid', 'enclave = enclave')):
        a = s.index('  auto it = participants_.find(%s);\n  if (participants_.end() == it) {' % key)
        b = s.index('  it->second.' + tail, a)
        s = s[:a] + '  get_or_create(participants_, %s).%s' % (key, tail) + s[b + len('  it->second.' + tail):]
    return s


PUBLISH = '''static rmw_ret_t publish_or_undo(
  const rmw_publisher_t * pub,
  const Context::publish_callback_t & publish_callback,
  const rmw_dds_common::msg::ParticipantEntitiesInfo & msg,
  const std::function<void()> & undo)
{
  const bool published = nullptr != pub && nullptr != publish_callback &&
    RMW_RET_OK == publish_callback(pub, static_cast<const void *>(&msg));
  if (published) {
    return RMW_RET_OK;
  }
  if (undo) {
    undo();
  }
  return RMW_RET_ERROR;
}
'''


def ctx(s):
    i = s.index('static bool call_publish_callback(')
    j = s.index('\n}\n', i) + 3
    s = s[:i] + PUBLISH + s[j:]

    def f(m):
        undo = m.group(1).strip()
        if not undo:
            return '  return publish_or_undo(pub, publish_callback, msg, nullptr);\n}\n'
        return '  return publish_or_undo(\n    pub, publish_callback, msg, [&]() {\n      ' + undo + '\n    });\n}\n'
    s, n = re.subn(r'  if \(!call_publish_callback\(pub, publish_callback, msg\)\) \{\n(.*?)    return RMW_RET_ERROR;\n  \}\n\n  return RMW_RET_OK;\n\}\n', f, s, flags=re.S)
    assert n == 10, n
    return s.replace('#include <mutex>', '#include <functional>\n#include <mutex>', 1)


def ctx2(s):
    """One template runs an update under the lock and publishes it."""
    i = s.index('static bool call_publish_callback(')
    j = s.index('\n}\n', i) + 3
    k = s.index('\n}  // namespace rmw_dds_common')
    helper = s[i:j] + '''
template<typename UpdateT, typename UndoT>
static rmw_ret_t update_and_publish(
  std::mutex & mutex,
  rmw_publisher_t * const & pub,
  const Context::publish_callback_t & publish_callback,
  UpdateT update,
  UndoT undo)
{
  const std::lock_guard<std::mutex> guard(mutex);
  const rmw_dds_common::msg::ParticipantEntitiesInfo msg = update();
  if (!call_publish_callback(pub, publish_callback, msg)) {
    undo();
    return RMW_RET_ERROR;
  }
  return RMW_RET_OK;
}

'''
    out = ''
    for name, params, upd, undo in (
        ('add_node', '', 'return graph_cache.add_node(gid, name, namespace_);', 'graph_cache.remove_node(gid, name, namespace_);'),
        ('remove_node', '', 'return graph_cache.remove_node(gid, name, namespace_);', ''),
        ('add_subscriber', 'const rmw_gid_t & subscription_gid, ', 'return graph_cache.associate_reader(subscription_gid, gid, name, namespace_);', 'graph_cache.dissociate_reader(subscription_gid, gid, name, namespace_);'),
        ('remove_subscriber', 'const rmw_gid_t & subscription_gid, ', 'return graph_cache.dissociate_reader(subscription_gid, gid, name, namespace_);', ''),
        ('add_publisher', 'const rmw_gid_t & publisher_gid, ', 'return graph_cache.associate_writer(publisher_gid, gid, name, namespace_);', 'graph_cache.dissociate_writer(publisher_gid, gid, name, namespace_);'),
        ('remove_publisher', 'const rmw_gid_t & publisher_gid, ', 'return graph_cache.dissociate_writer(publisher_gid, gid, name, namespace_);', ''),
        ('add_client', 'const rmw_gid_t & w, const rmw_gid_t & r, ', 'graph_cache.associate_writer(w, gid, name, namespace_);\n      return graph_cache.associate_reader(r, gid, name, namespace_);', 'graph_cache.dissociate_reader(r, gid, name, namespace_);\n      graph_cache.dissociate_writer(w, gid, name, namespace_);'),
        ('remove_client', 'const rmw_gid_t & w, const rmw_gid_t & r, ', 'graph_cache.dissociate_writer(w, gid, name, namespace_);\n      return graph_cache.dissociate_reader(r, gid, name, namespace_);', ''),
        ('add_service', 'const rmw_gid_t & r, const rmw_gid_t & w, ', 'graph_cache.associate_reader(r, gid, name, namespace_);\n      return graph_cache.associate_writer(w, gid, name, namespace_);', 'graph_cache.dissociate_writer(w, gid, name, namespace_);\n      graph_cache.dissociate_reader(r, gid, name, namespace_);'),
        ('remove_service', 'const rmw_gid_t & r, const rmw_gid_t & w, ', 'graph_cache.dissociate_reader(r, gid, name, namespace_);\n      return graph_cache.dissociate_writer(w, gid, name, namespace_);', ''),
    ):
        out += '''rmw_ret_t Context::%s_graph(
  %sconst std::string & name, const std::string & namespace_)
{
  return update_and_publish(
    node_update_mutex, pub, publish_callback,
    [&]() {
      %s
    },
    [&]() {%s});
}

''' % (name, params, upd, '\n      ' + undo + '\n    ' if undo else '')
    return s[:i] + helper + out.rstrip('\n') + '\n' + s[k:]


SEC_HEAD = '''namespace
{
enum class Source {pkcs11, file};

struct Candidate
{
  Source source;
  const char * file_name;
};

struct Attribute
{
  const char * name;
  std::vector<Candidate> candidates;
};

bool read_pkcs11_uri(const std::filesystem::path & path, std::string & uri)
{
  std::ifstream stream(path);
  std::string token;
  if (!stream.is_open() || !(stream >> token)) {
    return false;
  }
  if (token.rfind("pkcs11:", 0) != 0) {
    return false;
  }
  uri = std::move(token);
  return true;
}

bool find_file(const std::filesystem::path & path, const std::string & prefix, std::string & uri)
{
  std::error_code ec;
  if (std::filesystem::is_regular_file(path, ec)) {
    uri = prefix + path.generic_string();
    return true;
  }
  return false;
}

bool resolve(
  const Attribute & attribute, bool supports_pkcs11, const std::string & prefix,
  const std::filesystem::path & root, std::string & uri)
{
  for (const Candidate & candidate : attribute.candidates) {
    const auto path = root / candidate.file_name;
    switch (candidate.source) {
      case Source::pkcs11:
        if (supports_pkcs11 && read_pkcs11_uri(path, uri)) {
          return true;
        }
        break;
      case Source::file:
        if (find_file(path, prefix, uri)) {
          return true;
        }
        break;
    }
  }
  return false;
}
}  // namespace

bool get_security_files(
  const std::string & prefix, const std::string & secure_root,
  std::unordered_map<std::string, std::string> & result)
{
  return get_security_files(false, prefix, secure_root, result);
}

bool get_security_files(
  bool supports_pkcs11,
  const std::string & prefix,
  const std::string & secure_root,
  std::unordered_map<std::string, std::string> & result)
{
  static const Attribute required[] = {
    {"IDENTITY_CA", {{Source::pkcs11, "identity_ca.cert.p11"}, {Source::file, "identity_ca.cert.pem"}}},
    {"CERTIFICATE", {{Source::pkcs11, "cert.p11"}, {Source::file, "cert.pem"}}},
    {"PRIVATE_KEY", {{Source::pkcs11, "key.p11"}, {Source::file, "key.pem"}}},
    {"PERMISSIONS_CA", {{Source::pkcs11, "permissions_ca.cert.p11"}, {Source::file, "permissions_ca.cert.pem"}}},
    {"GOVERNANCE", {{Source::file, "governance.p7s"}}},
    {"PERMISSIONS", {{Source::file, "permissions.p7s"}}},
  };

  const std::filesystem::path root(secure_root);
  for (const Attribute & attribute : required) {
    std::string uri;
    if (!resolve(attribute, supports_pkcs11, prefix, root, uri)) {
      result.clear();
      return false;
    }
    result[attribute.name] = std::move(uri);
  }

  std::string crl;
  if (find_file(root / "crl.pem", prefix, crl)) {
    result["CRL"] = crl;
  }
  return true;
}
'''


def sec(s):
    i = s.index('// Processor for security attributes with FILE URI')
    k = s.index('\n}  // namespace rmw_dds_common')
    return s[:i] + SEC_HEAD + s[k:]


SEC2 = SEC_HEAD.replace('''bool read_pkcs11_uri(const std::filesystem::path & path, std::string & uri)
{
  std::ifstream stream(path);
  std::string token;
  if (!stream.is_open() || !(stream >> token)) {
    return false;
  }
  if (token.rfind("pkcs11:", 0) != 0) {
    return false;
  }
  uri = std::move(token);
  return true;
}
''', '''std::optional<std::string> read_pkcs11_uri(const std::filesystem::path & path)
{
  std::ifstream stream(path);
  std::string token;
  if (stream.is_open() && stream >> token && token.compare(0, 7, "pkcs11:") == 0) {
    return token;
  }
  return std::nullopt;
}
''').replace('''        if (supports_pkcs11 && read_pkcs11_uri(path, uri)) {
          return true;
        }
''', '''        if (supports_pkcs11) {
          if (const auto found = read_pkcs11_uri(path)) {
            uri = *found;
            return true;
          }
        }
''')


def sec2(s):
    i = s.index('// Processor for security attributes with FILE URI')
    k = s.index('\n}  // namespace rmw_dds_common')
    return (s[:i] + SEC2 + s[k:]).replace('#include <string>', '#include <optional>\n#include <string>', 1)


def qappend(s):
    """Every pair of verdict and message goes through one helper."""
    i = s.index('rmw_ret_t\nqos_profile_check_compatible(')
    helper = '''static rmw_ret_t
_report(
  rmw_qos_compatibility_type_t verdict, rmw_qos_compatibility_type_t & compatibility,
  char * reason, size_t reason_size, const char * message)
{
  compatibility = verdict;
  return _append_to_buffer(reason, reason_size, "%s", message);
}

'''
    head, tail = s[:i], s[i:]
    pat = r'\*compatibility = RMW_QOS_COMPATIBILITY_ERROR;\n( *)rmw_ret_t (append_ret|ret) = _append_to_buffer\(\n *reason,\n *reason_size,\n *("[^"]*")\);'
    tail, n = re.subn(pat, r'const rmw_ret_t \2 = _report(\n\1  RMW_QOS_COMPATIBILITY_ERROR, *compatibility, reason, reason_size,\n\1  \3);', tail)
    assert n == 7, n
    return head + helper + tail


def qunknown(s):
    """Helpers say whether a policy is undetermined, and name it."""
    i = s.index('rmw_ret_t\nqos_profile_check_compatible(')
    helper = '''template<typename PolicyT>
static bool
_is_unknown(PolicyT value, PolicyT system_default, PolicyT unknown)
{
  return value == system_default || value == unknown;
}

static const char *
_or_unknown(const char * name)
{
  return name ? name : "unknown";
}

'''
    s = s[:i] + helper + s[i:]
    for k, K in (('reliability', 'RELIABILITY'), ('durability', 'DURABILITY'), ('liveliness', 'LIVELINESS')):
        for side, q in (('pub', 'publisher_qos'), ('sub', 'subscription_qos')):
            s, n = re.subn(r'const bool %s_%s_unknown =\n[^;]*;' % (side, k), 'const bool %s_%s_unknown = _is_unknown(\n      %s.%s, RMW_QOS_POLICY_%s_SYSTEM_DEFAULT, RMW_QOS_POLICY_%s_UNKNOWN);' % (side, k, q, k, K, K), s)
            assert n == 1
            s, n = re.subn(r'const char \* %s_%s_str = rmw_qos_%s_policy_to_str\(\s*%s.%s\);\n    if \(!%s_%s_str\) \{\n[^}]*\}\n' % (side, k, k, q, k, side, k), 'const char * %s_%s_str = _or_unknown(\n      rmw_qos_%s_policy_to_str(%s.%s));\n' % (side, k, k, q, k), s)
            assert n == 1, (side, k, n)
    return s


def qduration(s):
    """The two duration checks are one function."""
    i = s.index('rmw_ret_t\nqos_profile_check_compatible(')
    helper = '''enum class DurationIssue {none, missing, shorter};

static DurationIssue
_check_duration(rmw_time_t offered, rmw_time_t requested, rmw_time_t unset)
{
  if (requested == unset) {
    return DurationIssue::none;
  }
  if (offered == unset) {
    return DurationIssue::missing;
  }
  return requested < offered ? DurationIssue::shorter : DurationIssue::none;
}

'''
    s = s[:i] + helper + s[i:]
    for name, unset, m1, m2 in (('deadline', 'deadline_default', 'ERROR: Subscription has a deadline, but publisher does not;', 'ERROR: Subscription deadline is less than publisher deadline;'), ('lease', 'liveliness_lease_duration_default', 'ERROR: Subscription has a liveliness lease duration, but publisher does not;', 'ERROR: Subscription liveliness lease duration is less than publisher;')):
        a = s.index('  const rmw_time_t & pub_%s = ' % name)
        a = s.index('  // No ', a)
        b = s.index(m2, a)
        b = s.index('\n    }\n  }\n', b) + len('\n    }\n  }\n')
        new = '''  const DurationIssue %(n)s_issue = _check_duration(pub_%(n)s, sub_%(n)s, %(u)s);
  if (%(n)s_issue != DurationIssue::none) {
    *compatibility = RMW_QOS_COMPATIBILITY_ERROR;
    rmw_ret_t ret = _append_to_buffer(
      reason,
      reason_size,
      %(n)s_issue == DurationIssue::missing ?
      "%(a)s" :
      "%(b)s");
    if (RMW_RET_OK != ret) {
      return ret;
    }
  }
''' % dict(n=name, u=unset, a=m1, b=m2)
        s = s[:a] + new + s[b:]
    return s


def qresolve(s):
    """Resolution of each policy as a small template."""
    i = s.index('rmw_ret_t\nqos_profile_get_best_available_for_subscription(')
    helper = '''template<typename PolicyT>
static void
_resolve(PolicyT & policy, PolicyT best_available, PolicyT resolved)
{
  if (best_available == policy) {
    policy = resolved;
  }
}

'''
    s = s[:i] + helper + s[i:]
    for p, var in (('reliability', 'number_of_reliable'), ('durability', 'number_of_transient_local'), ('liveliness', 'number_of_manual_by_topic')):
        s, n = re.subn(r'  if \(RMW_QOS_POLICY_%s_BEST_AVAILABLE == subscription_profile->%s\) \{\n    if \((%s == publishers_info->size)\) \{\n[^=]*= (\w+);\n    \} else \{\n[^=]*= (\w+);\n    \}\n  \}\n' % (p.upper(), p, var), r'  _resolve(\n    subscription_profile->%s, RMW_QOS_POLICY_%s_BEST_AVAILABLE,\n    \1 ? \2 : \3);\n' % (p, p.upper()), s)
        assert n == 1, (p, n)
    for side, word in (('subscription', 'largest'), ('publisher', 'smallest')):
        for p, ba, dflt, D in (('deadline', 'deadline_best_available', 'use_default_deadline', 'deadline_default'), ('liveliness_lease_duration', 'liveliness_lease_duration_best_available', 'use_default_liveliness_lease_duration', 'liveliness_lease_duration_default')):
            s, n = re.subn(r'  if \(%s == %s_profile->%s\) \{\n    if \(%s\) \{\n[^=]*= \w+;\n    \} else \{\n[^=]*= \w+;\n    \}\n  \}\n' % (ba, side, p, dflt), '  _resolve(\n    %s_profile->%s, %s,\n    %s ? %s : %s_%s);\n' % (side, p, ba, dflt, D, word, p), s)
            assert n == 1, (side, p, n)
    return s


def qtopic(s):
    """The two topic functions share their body; fini result kept."""
    i = s.index('rmw_ret_t\nqos_profile_get_best_available_for_topic_subscription(')
    j = s.index('rmw_qos_profile_t\nqos_profile_update_best_available_for_services')
    new = '''using ResolveFunction = rmw_ret_t (*)(const rmw_topic_endpoint_info_array_t *, rmw_qos_profile_t *);

static rmw_ret_t
_resolve_for_topic(
  const rmw_node_t * node,
  const char * topic_name,
  rmw_qos_profile_t * qos_profile,
  const GetEndpointInfoByTopicFunction & get_endpoint_info,
  ResolveFunction resolve)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(node, RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(topic_name, RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(qos_profile, RMW_RET_INVALID_ARGUMENT);

  if (!_qos_profile_has_best_available_policy(*qos_profile)) {
    return RMW_RET_OK;
  }
  rcutils_allocator_t * const allocator = &node->context->options.allocator;
  auto endpoints_info = rmw_get_zero_initialized_topic_endpoint_info_array();
  rmw_ret_t ret = get_endpoint_info(node, allocator, topic_name, false, &endpoints_info);
  if (RMW_RET_OK != ret) {
    return ret;
  }
  ret = resolve(&endpoints_info, qos_profile);
  const rmw_ret_t fini_ret = rmw_topic_endpoint_info_array_fini(&endpoints_info, allocator);
  return RMW_RET_OK != fini_ret ? fini_ret : ret;
}

'''
    for k in ('subscription', 'publisher'):
        new += '''rmw_ret_t
qos_profile_get_best_available_for_topic_%s(
  const rmw_node_t * node,
  const char * topic_name,
  rmw_qos_profile_t * qos_profile,
  const GetEndpointInfoByTopicFunction & get_endpoint_info)
{
  return _resolve_for_topic(
    node, topic_name, qos_profile, get_endpoint_info,
    qos_profile_get_best_available_for_%s);
}

''' % (k, k)
    return s[:i] + new + s[j:]


def qtime(s):
    """Durations compared through tuples of nanoseconds parts."""
    i = s.index('static bool\noperator==(rmw_time_t t1')
    j = s.index('static const rmw_time_t deadline_default')
    return s[:i] + '''static std::pair<uint64_t, uint64_t>
_key(const rmw_time_t & t)
{
  return {t.sec, t.nsec};
}

static bool
operator==(const rmw_time_t & t1, const rmw_time_t & t2)
{
  return _key(t1) == _key(t2);
}

static bool
operator!=(const rmw_time_t & t1, const rmw_time_t & t2)
{
  return _key(t1) != _key(t2);
}

static bool
operator<(const rmw_time_t & t1, const rmw_time_t & t2)
{
  return _key(t1) < _key(t2);
}

''' + s[j:]


COUNT = '''  size_t matching = 0u;
  for (auto it = entities.cbegin(); it != entities.cend(); ++it) {
    matching += (it->second.topic_name == topic_name) ? 1u : 0u;
  }
  *count = matching;
  return RMW_RET_OK;
}
'''


def count(s):
    i = s.index('  *count = std::count_if(')
    j = s.index('\n}\n', i) + 3
    s = s[:i] + COUNT + s[j:]
    for k in ('writer', 'reader'):
        a = s.index('GraphCache::get_%s_count(' % k)
        s = s[:a] + s[a:].replace('''  std::lock_guard<std::mutex> guard(mutex_);
  if (!count) {
    return RMW_RET_INVALID_ARGUMENT;
  }
''', '''  if (nullptr == count) {
    return RMW_RET_INVALID_ARGUMENT;
  }
  std::lock_guard<std::mutex> guard(mutex_);
''', 1)
    return s


def printgids(s):
    i = s.index('std::ostream &\nrmw_dds_common::operator<<(std::ostream & ostream, const GraphCache')
    helper = '''static
void
__print_gids(std::ostream & os, const char * title, const GraphCache::GidSeq & gids)
{
  os << "      associated data " << title << " gids:" << std::endl;
  for (const auto & gid_msg : gids) {
    rmw_gid_t gid;
    rmw_dds_common::convert_msg_to_gid(&gid_msg, &gid);
    os << "        " << gid << std::endl;
  }
}

static
void
__print_entities(
  std::ostream & os, const char * title, const GraphCache::EntityGidToInfo & entities)
{
  os << "  Discovered data " << title << ":" << std::endl;
  for (const auto & [gid, info] : entities) {
    os << "    gid: '" << gid << "', topic name: '" << info.topic_name <<
      "', topic_type: '" << info.topic_type << "'" << std::endl;
  }
}

'''
    s = s[:i] + helper + s[i:]
    for k in ('readers', 'writers'):
        one = k[:-1]
        a = s.index('      ss << "      associated data %s gids:" << std::endl;\n' % k)
        b = s.index('\n      }\n', a) + len('\n      }\n')
        s = s[:a] + '      __print_gids(ss, "%s", node_info.%s_gid_seq);\n' % (k, one) + s[b:]
        a = s.index('  ss << "  Discovered data %s:" << std::endl;\n' % k)
        b = s.index('\n  }\n', a) + len('\n  }\n')
        s = s[:a] + '  __print_entities(ss, "%s", graph_cache.data_%s_);\n' % (k, k) + s[b:]
    return s


def findname(s):
    i = s.index('  for (const auto & node_info : it->second.node_entities_info_seq) {\n    auto & gid_seq')
    j = s.index('  return {"", "", EndpointCreator::UNDISCOVERED_ROS_NODE};')
    return s[:i] + '''  rmw_dds_common::msg::Gid wanted;
  rmw_dds_common::convert_gid_to_msg(&entity_gid, &wanted);
  const auto & nodes = it->second.node_entities_info_seq;
  const auto creator = std::find_if(
    nodes.begin(), nodes.end(),
    [&wanted, is_reader](const rmw_dds_common::msg::NodeEntitiesInfo & node) {
      const auto & gids = is_reader ? node.reader_gid_seq : node.writer_gid_seq;
      return std::find(gids.begin(), gids.end(), wanted) != gids.end();
    });
  if (creator != nodes.end()) {
    return {creator->node_name, creator->node_namespace, EndpointCreator::ROS_NODE};
  }
''' + s[j:]


def fromgids(s):
    i = s.index('static\nNamesAndTypes\n__get_names_and_types_from_gids(')
    helper = '''static
void
__insert_demangled(
  const rmw_dds_common::EntityInfo & entity,
  const DemangleFunctionT & demangle_topic,
  const DemangleFunctionT & demangle_type,
  NamesAndTypes & topics)
{
  const std::string name = demangle_topic(entity.topic_name);
  if (name.empty()) {
    return;
  }
  auto inserted = topics.emplace(name, std::set<std::string>{});
  inserted.first->second.emplace(demangle_type(entity.topic_type));
}

'''
    a = s.index('    std::string demangled_topic_name = demangle_topic(it->second.topic_name);')
    b = s.index('    topics[demangled_topic_name].insert(demangle_type(it->second.topic_type));\n', a)
    e = b + len('    topics[demangled_topic_name].insert(demangle_type(it->second.topic_type));\n')
    s = s[:a] + '    __insert_demangled(it->second, demangle_topic, demangle_type, topics);\n' + s[e:]
    a = s.index('    std::string demangled_topic_name = demangle_topic(item.second.topic_name);')
    b = s.index('\n    }\n', a) + len('\n    }\n')
    s = s[:a] + '    __insert_demangled(item.second, demangle_topic, demangle_type, topics);\n' + s[b:]
    i = s.index('static\nvoid\n__get_names_and_types(')
    return s[:i] + helper + s[i:]


def rmnode(s):
    i = s.index('  // remove first element found\n')
    j = s.index('  it->second.node_entities_info_seq.erase(to_remove);\n', i)
    return s[:i] + '''  auto & nodes = it->second.node_entities_info_seq;
  auto to_remove = nodes.begin();
  while (to_remove != nodes.end() &&
    !(to_remove->node_name == node_name && to_remove->node_namespace == node_namespace))
  {
    ++to_remove;
  }
  assert(to_remove != nodes.end());
  nodes.erase(to_remove);
''' + s[j + len('  it->second.node_entities_info_seq.erase(to_remove);\n'):]


def findnode(s):
    i = s.index('  for (const auto & participant : participant_map) {\n    for (const auto & node :')
    j = s.index('  return nullptr;\n', i)
    return s[:i] + '''  const auto matches = [&](const rmw_dds_common::msg::NodeEntitiesInfo & node) {
      return node.node_name == node_name && node.node_namespace == node_namespace;
    };
  for (const auto & participant : participant_map) {
    const auto & nodes = participant.second.node_entities_info_seq;
    const auto found = std::find_if(nodes.begin(), nodes.end(), matches);
    if (nodes.end() != found) {
      return &(*found);
    }
  }
''' + s[j:]


GR = [('z-gr-assoc', assoc), ('z-gr-info', info), ('z-gr-names', names), ('z-gr-pop', pop), ('z-gr-bynode', bynode), ('z-gr-addent', addent), ('z-gr-entmap', entmap), ('z-gr-part', part), ('z-gr-count', count), ('z-gr-print', printgids), ('z-gr-findname', findname), ('z-gr-fromgids', fromgids), ('z-gr-rmnode', rmnode), ('z-gr-findnode', findnode)]


def allof(*fs):
    def f(s):
        for g in fs:
            s = g(s)
        return s
    return f


REFACTORS = [R(n, G, (G, None, f)) for n, f in GR] + [
    R('z-gr-notify', G, (HPP, "private:\n  EntityGidToInfo", "private:\n  void notify_if(bool changed);\n\n  EntityGidToInfo"), NOTIFY, NOTIFY2, (G, "bool\nGraphCache::add_writer(", "void\nGraphCache::notify_if(bool changed)\n{\n  if (!changed || !on_change_callback_) {\n    return;\n  }\n  on_change_callback_();\n}\n\nbool\nGraphCache::add_writer(")),
    R('z-gr-all', G, (G, None, allof(*[f for _, f in GR]))),
    R('z-ctx-undo', X, (X, None, ctx)),
    R('z-ctx-template', X, (X, None, ctx2)),
    R('z-sec-rewrite', S, (S, None, sec)),
    R('z-sec-rewrite2', S, (S, None, sec2)),
    R('z-q-append', Q, (Q, None, qappend)),
    R('z-q-unknown', Q, (Q, None, qunknown)),
    R('z-q-duration', Q, (Q, None, qduration)),
    R('z-q-resolve', Q, (Q, None, qresolve)),
    R('z-q-topic', Q, (Q, None, qtopic)),
    R('z-q-time', Q, (Q, None, qtime)),
    R('z-q-all', Q, (Q, None, allof(qappend, qunknown, qduration, qresolve, qtopic, qtime))),
]
