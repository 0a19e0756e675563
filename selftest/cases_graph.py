G = 'src/graph_cache.cpp'
HPP = 'include/rmw_dds_common/graph_cache.hpp'


def body(name, *pairs, nth=0, n=1):
    """Edit inside the nth definition whose head contains name."""
    def f(s):
        i = -1
        for _ in range(nth + 1):
            i = s.index(name + '(', i + 1)
        j = s.index('\n}\n', i) + 3
        b = s[i:j]
        for old, new in pairs:
            assert old in b, (name, old)
            b = b.replace(old, new) if n == 0 else b.replace(old, new, n)
        return s[:i] + b + s[j:]
    return (G, None, f)


def meth(name, *pairs, **kw):
    return body('GraphCache::' + name, *pairs, **kw)


CBK = "  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);\n"
GUARD = "  std::lock_guard<std::mutex> guard(mutex_);\n"
ALL1 = {'C%d' % i for i in (16, 17, 18)}


def B(cid, props, *edits):
    return (cid, G, list(edits), set(props))


BUGS = [
    # C10 / C11
    B('gr-lock-none', ['C10'], meth('get_number_of_nodes', (GUARD, ''))),
    B('gr-lock-none2', ['C10'], meth('get_writer_count', (GUARD, ''))),
    B('gr-lock-late', ['C10'], meth('remove_node', (GUARD, ''), ("  // remove first", GUARD + "  // remove first"))),
    B('gr-lock-tmp', ['C10'], meth('update_participant_entities', (GUARD, "  std::lock_guard<std::mutex>{mutex_};\n"))),
    B('gr-lock-block', ['C10'], meth('get_names_and_types', ("    __get_names_and_types(\n      data_writers_", "  }\n  {\n    __get_names_and_types(\n      data_writers_"))),
    B('gr-lock-cb', ['C12'], meth('add_participant', (GUARD, "  std::unique_lock<std::mutex> guard(mutex_);\n"), (CBK, "  guard.unlock();\n" + CBK))),
    B('gr-lock-op', ['C10'], body('operator<<', ("  std::lock_guard<std::mutex> guard(graph_cache.mutex_);\n", ''))),
    B('gr-lock-local', ['C10'], meth('get_reader_count', (GUARD, "  static std::mutex m;\n  std::lock_guard<std::mutex> guard(m);\n"))),
    B('gr-lock-set', ['C10'], (HPP, "    std::lock_guard<std::mutex> lock(mutex_);\n", "")),
    B('gr-lock-clear', ['C10'], meth('clear_on_change_callback', ("  std::lock_guard<std::mutex> lock(mutex_);\n", ''))),
    B('gr-lock-early', ['C10'], meth('get_readers_info_by_topic', ("  std::lock_guard<std::mutex> lock(mutex_);\n", "  {std::lock_guard<std::mutex> lock(mutex_);}\n"))),
    B('gr-lock-fast', ['C10'], meth('remove_participant', (GUARD, "  if (participants_.empty()) {\n    return false;\n  }\n" + GUARD))),
    B('gr-escape', ['C10'], (HPP, "  size_t\n  get_number_of_nodes() const;", "  size_t\n  get_number_of_nodes() const;\n  const std::map<rmw_gid_t, ParticipantInfo, Compare_rmw_gid_t> & participants() const;"), (G, "size_t\nGraphCache::get_number_of_nodes() const", "const std::map<rmw_gid_t, rmw_dds_common::ParticipantInfo, rmw_dds_common::Compare_rmw_gid_t> &\nGraphCache::participants() const\n{\n  std::lock_guard<std::mutex> guard(mutex_);\n  return participants_;\n}\n\nsize_t\nGraphCache::get_number_of_nodes() const")),
    B('gr-dead-double', ['C11'], meth('add_entity', ("  if (is_reader) {", GUARD + "  if (is_reader) {"))),
    B('gr-dead-count', ['C11'], meth('get_node_names', ("__get_number_of_nodes(participants_)", "get_number_of_nodes()"))),
    B('gr-dead-manual', ['C11'], meth('get_reader_count', (GUARD, "  mutex_.lock();\n"), ("  return __get", "  mutex_.unlock();\n  return __get"))),
    B('gr-dead-throw', ['C11'], meth('update_participant_entities', (GUARD, "  mutex_.lock();\n"), (CBK, CBK + "  mutex_.unlock();\n"))),
    B('gr-dead-order', ['C11'], (HPP, "  mutable std::mutex mutex_;", "  mutable std::mutex mutex_;\n  mutable std::mutex m2_;"), meth('get_reader_count', (GUARD, GUARD + "  std::lock_guard<std::mutex> g2(m2_);\n")), meth('get_writer_count', (GUARD, "  std::lock_guard<std::mutex> g2(m2_);\n" + GUARD))),
    # C12
    B('gr-cb-missing', ['C12'], meth('dissociate_reader', (CBK, ''))),
    B('gr-cb-before', ['C12'], meth('add_node', (CBK, ''), ("  // TODO", CBK + "  // TODO"))),
    B('gr-cb-always', ['C12'], meth('remove_writer', ("_IF(this, ret)", "(this)"))),
    B('gr-cb-inverse', ['C12'], meth('add_reader', ("pair.second)", "!pair.second)"))),
    B('gr-cb-twice', ['C12'], meth('add_participant', (CBK, CBK + CBK))),
    B('gr-cb-null', ['C12'], (G, "if (graph_cache_ptr->on_change_callback_ && condition)", "if (condition)")),
    B('gr-cb-newonly', ['C12'], meth('update_participant_entities', ("    assert(ret.second);\n", "    assert(ret.second);\n  " + CBK), ("info_seq;\n" + CBK, "info_seq;\n"))),
    B('gr-cb-size', ['C12'], meth('dissociate_writer', ("  auto msg =", "  size_t before = participants_.size();\n  auto msg ="), ("CALLBACK(this)", "CALLBACK_IF(this, (before != participants_.size()))"))),
    # C13 - C15
    B('gr-end-overwrite', ['C13'], meth('add_writer', ("  GRAPH_CACHE", "  if (!pair.second) {pair.first->second.qos = qos;}\n  GRAPH_CACHE"))),
    B('gr-end-true', ['C13'], meth('add_reader', ("  return pair.second;", "  return true;"))),
    B('gr-end-clear', ['C13'], meth('remove_writer', ("  bool ret = data_writers_.erase(gid) > 0;", "  bool ret = data_writers_.find(gid) != data_writers_.end();\n  if (ret) {data_writers_.clear();}"))),
    B('gr-end-inv', ['C13'], meth('remove_reader', ("> 0;", "== 0;"))),
    B('gr-end-lower', ['C13'], meth('remove_reader', ("  bool ret = data_readers_.erase(gid) > 0;", "  auto it = data_readers_.lower_bound(gid);\n  bool ret = it != data_readers_.end();\n  if (ret) {data_readers_.erase(it);}"))),
    B('gr-sep-swap', ['C14'], meth('remove_entity', ("if (is_reader)", "if (!is_reader)"))),
    B('gr-sep-add', ['C14'], meth('add_entity', ("return this->add_writer(", "return this->add_reader("))),
    B('gr-sep-both', ['C14'], meth('remove_reader', ("  GRAPH", "  data_writers_.erase(gid);\n  GRAPH"))),
    B('gr-sep-part', ['C14'], meth('remove_writer', ("  GRAPH", "  participants_.erase(gid);\n  GRAPH"))),
    B('gr-fid-swap', ['C15'], meth('add_reader', ("std::forward_as_tuple(topic_name, type_name,", "std::forward_as_tuple(type_name, topic_name,"))),
    B('gr-fid-gid', ['C15'], meth('add_writer', ("type_hash, participant_gid, qos));", "type_hash, gid, qos));"))),
    B('gr-fid-ctor', ['C15'], (HPP, "topic_type(topic_type)", "topic_type(topic_name)")),
    B('gr-fid-hash', ['C15'], meth('add_entity', ("      type_hash,\n", "      rosidl_get_zero_initialized_type_hash(),\n"))),
    B('gr-fid-entity', ['C15'], meth('add_entity', ("    topic_name,\n    type_name,\n    type_hash", "    topic_name,\n    topic_name,\n    type_hash"))),
    # C16 - C19
    B('gr-part-enclave', ['C16'], meth('update_participant_entities', ("  it->second.node", "  it->second.enclave.clear();\n  it->second.node"))),
    B('gr-part-erase', ['C16'], meth('add_participant', ("  auto it", "  participants_.erase(participant_gid);\n  auto it"))),
    B('gr-part-append', ['C16'], meth('update_participant_entities', ("  it->second.node_entities_info_seq = msg.node_entities_info_seq;", "  for (const auto & n : msg.node_entities_info_seq) {it->second.node_entities_info_seq.push_back(n);}"))),
    B('gr-part-once', ['C16'], meth('update_participant_entities', ("  it->second.node_entities_info_seq = msg.node_entities_info_seq;", "  if (it->second.node_entities_info_seq.empty()) {it->second.node_entities_info_seq = msg.node_entities_info_seq;}"))),
    B('gr-part-shrink', ['C16'], meth('update_participant_entities', ("  it->second.node_entities_info_seq = msg.node_entities_info_seq;", "  if (it->second.node_entities_info_seq.size() != msg.node_entities_info_seq.size()) {it->second.node_entities_info_seq = msg.node_entities_info_seq;}"))),
    B('gr-part-encl', ['C16'], meth('add_participant', ("  it->second.enclave = enclave;", "  if (it->second.enclave.empty()) {it->second.enclave = enclave;}"))),
    B('gr-node-ns', ['C17'], meth('add_node', ("node_info.node_namespace = node_namespace", "node_info.node_namespace = node_name"))),
    B('gr-node-front', ['C17'], meth('add_node', ("emplace_back(node_info)", "insert(it->second.node_entities_info_seq.begin(), node_info)"))),
    B('gr-node-all', ['C17'], meth('remove_node', ("  it->second.node_entities_info_seq.erase(to_remove);", "  it->second.node_entities_info_seq.erase(\n    std::remove_if(it->second.node_entities_info_seq.begin(), it->second.node_entities_info_seq.end(),\n    [&](const rmw_dds_common::msg::NodeEntitiesInfo & n) {return n.node_name == node_name && n.node_namespace == node_namespace;}), it->second.node_entities_info_seq.end());\n  (void)to_remove;"))),
    B('gr-node-name', ['C17'], meth('remove_node', ("node_info.node_name == node_name && node_info.node_namespace == node_namespace", "node_info.node_name == node_name"))),
    B('gr-node-or', ['C17'], meth('remove_node', ("== node_name &&", "== node_name ||"))),
    B('gr-node-range', ['C17'], meth('remove_node', ("erase(to_remove)", "erase(to_remove, it->second.node_entities_info_seq.end())"))),
    B('gr-assoc-swap', ['C18'], meth('associate_reader', ("info.reader_gid_seq.emplace_back();", "info.writer_gid_seq.emplace_back();"), ("&info.reader_gid_seq.back()", "&info.writer_gid_seq.back()"))),
    B('gr-assoc-pgid', ['C18'], meth('associate_writer', ("convert_gid_to_msg(&writer_gid", "convert_gid_to_msg(&participant_gid"))),
    B('gr-assoc-name', ['C18'], body('__modify_node_info', ("node_info.node_name == node_name && ", ""))),
    B('gr-assoc-swapargs', ['C18'], meth('dissociate_reader', ("participant_gid, node_name, node_namespace, delete", "participant_gid, node_namespace, node_name, delete"))),
    B('gr-diss-end', ['C18'], meth('dissociate_writer', ("erase(it);", "erase(it, info.writer_gid_seq.end());"))),
    B('gr-diss-last', ['C18'], meth('dissociate_reader', ("info.reader_gid_seq.erase(it);", "info.reader_gid_seq.pop_back();"))),
    B('gr-diss-all', ['C18'], meth('dissociate_writer', ("info.writer_gid_seq.erase(it);", "info.writer_gid_seq.clear();"))),
    B('gr-diss-seq', ['C18'], meth('dissociate_writer', ("info.writer_gid_seq", "info.reader_gid_seq"), n=0)),
    B('gr-diss-noend', ['C18'], meth('dissociate_reader', ("      if (it != info.reader_gid_seq.end()) {", "      {"))),
    B('gr-msg-before', ['C19'], meth('add_node', ("  it->second.node_entities_info_seq.emplace", "  auto msg = __create_participant_info_message(\n    participant_gid, it->second.node_entities_info_seq);\n  it->second.node_entities_info_seq.emplace"), ("  return __create_participant_info_message(participant_gid, it->second.node_entities_info_seq);", "  return msg;"))),
    B('gr-msg-one', ['C19'], meth('add_node', ("(participant_gid, it->second.node_entities_info_seq)", "(participant_gid, {node_info})"))),
    B('gr-msg-nogid', ['C19'], body('__create_participant_info_message', ("  rmw_dds_common::convert_gid_to_msg(&gid, &msg.gid);\n", "  (void)gid;\n"))),
    B('gr-msg-copy', ['C18', 'C19'], body('__modify_node_info', ("  func(*node_info);", "  auto copy = *node_info;\n  func(copy);"))),
    # C20
    B('gr-pure-prune', ['C20'], (HPP, "  EntityGidToInfo data_writers_;", "  mutable EntityGidToInfo data_writers_;"), meth('get_writer_count', ("  return __get", "  if (data_writers_.size() > 1000) {data_writers_.erase(data_writers_.begin());}\n  return __get"))),
    B('gr-pure-cast', ['C20'], meth('get_writer_names_and_types_by_node', ("  return", "  const_cast<GraphCache *>(this)->participants_[rmw_gid_t{}];\n  return"))),
    B('gr-pure-cb', ['C20'], meth('get_number_of_nodes', ("  return", CBK + "  return"))),
    # C21
    B('gr-cnt-prefix', ['C21'], body('__get_count', ("elem.second.topic_name == topic_name", "elem.second.topic_name.find(topic_name) == 0"))),
    B('gr-cnt-type', ['C21'], body('__get_count', ("elem.second.topic_name ==", "elem.second.topic_type =="))),
    B('gr-cnt-swap', ['C21'], meth('get_reader_count', ("data_readers_", "data_writers_"))),
    B('gr-cnt-unset', ['C21'], body('__get_count', ("  assert(count);\n", "  if (entities.empty()) {\n    return RMW_RET_OK;\n  }\n"))),
    B('gr-cnt-nodes', ['C21'], body('__get_number_of_nodes', ("+= elem.second.node_entities_info_seq.size()", "+= elem.second.node_entities_info_seq.empty() ? 0 : 1"))),
    B('gr-cnt-parts', ['C21', 'C27'], body('__get_number_of_nodes', ("nodes_number +=", "nodes_number ="))),
    # C22 / C23
    B('gr-info-kind', ['C22'], body('__get_entities_info_by_topic', ("is_reader ? RMW_ENDPOINT_SUBSCRIPTION : RMW_ENDPOINT_PUBLISHER", "is_reader ? RMW_ENDPOINT_PUBLISHER : RMW_ENDPOINT_SUBSCRIPTION"))),
    B('gr-info-gid', ['C22'], body('__get_entities_info_by_topic', ("      entity_pair.first.data,", "      entity_pair.second.participant_gid.data,"))),
    B('gr-info-gidlen', ['C22', 'C29'], body('__get_entities_info_by_topic', ("      RMW_GID_STORAGE_SIZE);", "      12u);"))),
    B('gr-info-type', ['C22'], body('__get_entities_info_by_topic', ("demangle_type(entity_pair.second.topic_type).c_str()", "entity_pair.second.topic_type.c_str()"))),
    B('gr-info-type2', ['C22'], body('__get_entities_info_by_topic', ("demangle_type(entity_pair.second.topic_type).c_str()", "demangle_type(entity_pair.second.topic_name).c_str()"))),
    B('gr-info-qos', ['C22'], body('__get_entities_info_by_topic', ("      &entity_pair.second.qos);", "      &entities.begin()->second.qos);"))),
    B('gr-info-break', ['C22'], body('__get_entities_info_by_topic', ("      continue;", "      break;"))),
    B('gr-info-alloff', ['C22', 'C29'], body('__get_entities_info_by_topic', ("      return item.second.topic_name == topic_name;", "      (void)item; (void)topic_name; return true;"))),
    B('gr-info-i', ['C22'], body('__get_entities_info_by_topic', ("    i++;\n", ""))),
    B('gr-info-swap', ['C22'], meth('get_readers_info_by_topic', ("data_readers_", "data_writers_"))),
    B('gr-attr-swap', ['C23'], meth('get_readers_info_by_topic', ("    true,", "    false,"))),
    B('gr-attr-seq', ['C23'], body('__find_name_and_namespace_from_entity_gid', ("is_reader ? node_info.reader_gid_seq : node_info.writer_gid_seq", "is_reader ? node_info.writer_gid_seq : node_info.reader_gid_seq"))),
    B('gr-attr-first', ['C23'], body('__find_name_and_namespace_from_entity_gid', ("if (gid_seq.end() != it)", "if (!gid_seq.empty() && gid_seq.end() == it)"))),
    B('gr-attr-only', ['C23'], body('__find_name_and_namespace_from_entity_gid', ("      return {node_info.node_name, node_info.node_namespace, EndpointCreator::ROS_NODE};\n    }\n", "      return {node_info.node_name, node_info.node_namespace, EndpointCreator::ROS_NODE};\n    }\n    break;\n"))),
    B('gr-attr-bare', ['C23'], body('__find_name_and_namespace_from_entity_gid', ('return {"", "", EndpointCreator::BARE_DDS_PARTICIPANT};', 'return {"", "", EndpointCreator::UNDISCOVERED_ROS_NODE};'))),
    B('gr-attr-ns', ['C23'], body('__find_name_and_namespace_from_entity_gid', ("{node_info.node_name, node_info.node_namespace,", "{node_info.node_namespace, node_info.node_name,"))),
    B('gr-attr-text', ['C23'], body('__get_entities_info_by_topic', ('node_namespace = "_NODE_NAMESPACE_UNKNOWN_"', 'node_namespace = "_NODE_NAME_UNKNOWN_"'))),
    B('gr-attr-args', ['C23'], body('__get_entities_info_by_topic', ("      entity_pair.second.participant_gid,\n      entity_pair.first,", "      entity_pair.first,\n      entity_pair.second.participant_gid,"))),
    B('gr-attr-len', ['C23'], body('__find_name_and_namespace_from_entity_gid', ("return 0u == std::memcmp(", "return 0u != std::memcmp("))),
    B('gr-attr-case', ['C23'], body('__get_entities_info_by_topic', ('        node_name = "_NODE_NAME_UNKNOWN_";\n        node_namespace = "_NODE_NAMESPACE_UNKNOWN_";\n        break;', '        node_name = "_NODE_NAME_UNKNOWN_";\n        node_namespace = "_NODE_NAMESPACE_UNKNOWN_";'))),
    # C24 / C29
    B('gr-fail-noguard', ['C24'], body('__get_entities_info_by_topic', ("  size_t i = 0;", "  endpoints_info_delete_on_error.release();\n  size_t i = 0;"), ("  endpoints_info_delete_on_error.release();\n  return", "  return"))),
    B('gr-fail-ok', ['C24'], meth('get_node_names', ("  return RMW_RET_BAD_ALLOC;", "  return RMW_RET_OK;"))),
    B('gr-fail-encl', ['C24'], meth('get_node_names', ("    rcutils_ret = rcutils_string_array_fini(enclaves);\n    if (rcutils_ret != RCUTILS_RET_OK) {", "    if (rcutils_ret != RCUTILS_RET_OK) {"))),
    B('gr-fail-nullstr', ['C24'], body('__populate_rmw_names_and_types', ("      if (!type_name) {", "      if (false) {"))),
    B('gr-fail-ret', ['C24'], body('__populate_rmw_names_and_types', ('for topic name");\n      rmw_ret = RMW_RET_BAD_ALLOC;', 'for topic name");'))),
    B('gr-fail-early', ['C24'], body('__populate_rmw_names_and_types', ('for type name");\n        rmw_ret = RMW_RET_BAD_ALLOC;\n        goto cleanup;', 'for type name");\n        return RMW_RET_BAD_ALLOC;'))),
    B('gr-fail-local', ['C24'], body('__populate_rmw_names_and_types', ("    topic_names_and_types->names.data[index] = topic_name;\n\n", ""), ("    ++index;", "    topic_names_and_types->names.data[index] = topic_name;\n    ++index;"))),
    B('gr-fail-set', ['C24'], body('__get_entities_info_by_topic', ("      &entity_pair.second.topic_type_hash);\n    if (RMW_RET_OK != ret) {\n      return ret;\n    }\n", "      &entity_pair.second.topic_type_hash);\n"))),
    B('gr-fail-finiret', ['C24'], body('__populate_rmw_names_and_types', ("  if (RMW_RET_OK != rmw_names_and_types_fini(topic_names_and_types)) {", "  rmw_ret = rmw_names_and_types_fini(topic_names_and_types);\n  if (RMW_RET_OK != rmw_ret) {"))),
    B('gr-fail-init', ['C24'], body('__populate_rmw_names_and_types', ("  if (RMW_RET_OK != rmw_ret) {\n    return rmw_ret;\n  }\n", ""))),
    B('gr-fail-ns', ['C24'], meth('get_node_names', ("        if (!node_namespaces->data[j]) {\n          goto fail;\n        }\n", ""))),
    B('gr-fail-skip', ['C24'], meth('get_node_names', ("      RMW_SET_ERROR_MSG(error_msg.str);\n      goto fail;\n    }\n  }", "      RMW_SET_ERROR_MSG(error_msg.str);\n      return RMW_RET_BAD_ALLOC;\n    }\n  }"))),
    B('gr-mem-alloc', ['C29'], meth('get_node_names', ("        node_namespaces->data[j] = rcutils_strdup(\n          node_info.node_namespace.c_str(), *allocator);", "        node_namespaces->data[j] = rcutils_strdup(\n          node_info.node_namespace.c_str(), rcutils_get_default_allocator());"))),
    B('gr-mem-alloc2', ['C29'], body('__populate_rmw_names_and_types', ("  size_t index = 0;", "  rcutils_allocator_t def = rcutils_get_default_allocator();\n  size_t index = 0;"), ("rcutils_strdup(type.c_str(), *allocator)", "rcutils_strdup(type.c_str(), def)"))),
    B('gr-mem-size', ['C29'], body('__populate_rmw_names_and_types', ("        item.second.size(),", "        item.second.size() - 1,"))),
    B('gr-mem-parts', ['C27', 'C29'], meth('get_node_names', ("size_t nodes_number = __get_number_of_nodes(participants_)", "size_t nodes_number = participants_.size()"))),
    # bugs that show with particular constants only
    B('gr-k-long', ['C17'], meth('add_node', ("node_info.node_name = node_name;", "node_info.node_name = node_name.size() > 255 ? node_name.substr(0, 255) : node_name;"))),
    B('gr-k-u8', ['C21'], body('__get_number_of_nodes', ("size_t nodes_number", "uint8_t nodes_number"))),
    B('gr-k-hidden', ['C25'], body('__find_node', ("      if (\n        node.node_name == node_name", "      if (\n        node.node_name.compare(0, 1, \"_\") != 0 && node.node_name == node_name"))),
    B('gr-k-rt', ['C26'], body('__get_names_and_types', ("    if (\"\" != demangled_topic_name) {", "    if (\"\" != demangled_topic_name && item.second.topic_name.rfind(\"rt/rosout\", 0) != 0) {"))),
    B('gr-k-limit', ['C22'], body('__get_entities_info_by_topic', ("  rmw_ret_t ret = rmw_topic_endpoint_info_array_init_with_size(", "  if (size > 64) {\n    size = 64;\n  }\n  rmw_ret_t ret = rmw_topic_endpoint_info_array_init_with_size("))),
    B('gr-k-encl', ['C16'], meth('add_participant', ("  it->second.enclave = enclave;", "  it->second.enclave = enclave == \"/default\" ? std::string() : enclave;"))),
    B('gr-k-many', ['C18'], meth('associate_reader', ("      info.reader_gid_seq.emplace_back();", "      if (info.reader_gid_seq.size() >= 128) {return;}\n      info.reader_gid_seq.emplace_back();"))),
    B('gr-mem-leak', ['C29'], body('__populate_rmw_names_and_types', ("    topic_names_and_types->names.data[index] = topic_name;\n", "    topic_names_and_types->names.data[0] = topic_name;\n"))),
    # C25 - C28
    B('gr-by-swap', ['C25'], meth('get_writer_names_and_types_by_node', ("    __get_writers_gids,", "    [](const rmw_dds_common::msg::NodeEntitiesInfo & n) -> const GraphCache::GidSeq & {return n.reader_gid_seq;},"))),
    B('gr-by-map', ['C25'], meth('get_reader_names_and_types_by_node', ("    data_readers_,", "    data_writers_,"))),
    B('gr-by-ns', ['C25'], body('__find_node', (" &&\n        node.node_namespace == node_namespace", ""))),
    B('gr-by-first', ['C25'], body('__find_node', ("        return &node;\n      }\n    }\n", "        return &node;\n      }\n    }\n    break;\n"))),
    B('gr-by-ret', ['C25'], body('__get_names_and_types_by_node', ("    return RMW_RET_NODE_NAME_NON_EXISTENT;", "    return RMW_RET_OK;"))),
    B('gr-by-break', ['C25'], body('__get_names_and_types_from_gids', ("    if (it == entities_map.end()) {\n      continue;", "    if (it == entities_map.end()) {\n      break;"))),
    B('gr-by-empty', ['C25'], body('__get_names_and_types_from_gids', ('    if ("" == demangled_topic_name) {\n      continue;\n    }\n', ''))),
    B('gr-by-type', ['C25'], body('__get_names_and_types_from_gids', ("demangle_type(it->second.topic_type)", "it->second.topic_type"))),
    B('gr-by-over', ['C25'], body('__get_names_and_types_from_gids', ("    topics[demangled_topic_name].insert(demangle_type(it->second.topic_type));", "    topics[demangled_topic_name] = {demangle_type(it->second.topic_type)};"))),
    B('gr-all-writers', ['C26'], meth('get_names_and_types', ("    __get_names_and_types(\n      data_readers_,\n      demangle_topic,\n      demangle_type,\n      topics);\n", ""))),
    B('gr-all-emplace', ['C26'], body('__get_names_and_types', ("      topics[demangled_topic_name].insert(demangle_type(item.second.topic_type));", "      topics.emplace(demangled_topic_name, std::set<std::string>{demangle_type(item.second.topic_type)});"))),
    B('gr-all-raw', ['C26'], body('__get_names_and_types', ("topics[demangled_topic_name]", "topics[item.second.topic_name]"))),
    B('gr-all-dem', ['C26'], body('__get_names_and_types', ("demangle_type(item", "demangle_topic(item"))),
    B('gr-all-inner', ['C26', 'C29'], body('__populate_rmw_names_and_types', ("      ++type_index;\n", ""))),
    B('gr-nn-encl', ['C27'], meth('get_node_names', ("            nodes_info.enclave.c_str()", "            participants_.begin()->second.enclave.c_str()"))),
    B('gr-nn-swap', ['C27'], meth('get_node_names', ("node_info.node_name.c_str()", "node_info.node_namespace.c_str()"))),
    B('gr-nn-j', ['C27'], meth('get_node_names', ("    size_t j = 0;\n    for (const auto & elem : participants_) {", "    for (const auto & elem : participants_) {\n      size_t j = 0;"))),
    B('gr-nn-continue', ['C27'], meth('get_node_names', ("        node_names->data[j] =", "        if (node_info.node_name.empty() || node_info.node_name[0] == '_') {continue;}\n        node_names->data[j] ="))),
    B('gr-val-order', ['C28'], meth('get_node_names', ("  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_namespaces)) {\n    return RMW_RET_INVALID_ARGUMENT;\n  }\n", ""), ("  rcutils_ret =\n    rcutils_string_array_init(node_namespaces", "  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_namespaces)) {\n    return RMW_RET_INVALID_ARGUMENT;\n  }\n  rcutils_ret =\n    rcutils_string_array_init(node_namespaces"))),
    B('gr-val-none', ['C28'], body('__get_names_and_types_by_node', ("  if (RMW_RET_OK != rmw_names_and_types_check_zero(topic_names_and_types)) {\n    return RMW_RET_INVALID_ARGUMENT;\n  }\n", ""))),
    B('gr-val-same', ['C28'], meth('get_node_names', ("rmw_check_zero_rmw_string_array(enclaves)", "rmw_check_zero_rmw_string_array(node_names)"))),
    B('gr-val-count', ['C28'], meth('get_writer_count', ("  if (!count) {\n    return RMW_RET_INVALID_ARGUMENT;\n  }\n", ""))),
    B('gr-val-ret', ['C28'], meth('get_names_and_types', ("check_zero(topic_names_and_types)) {\n    return RMW_RET_INVALID_ARGUMENT;", "check_zero(topic_names_and_types)) {\n    return RMW_RET_ERROR;"))),
    B('gr-op-wr', ['C34'], body('operator<<', ("graph_cache.data_readers_) {", "graph_cache.data_writers_) {"))),
    B('gr-op-type', ['C34'], body('operator<<', ("data_writer_pair.second.topic_type <<", "data_writer_pair.second.topic_name <<"))),
    B('gr-op-break', ['C34'], body('operator<<', ("  ss << \"  Discovered participants:", "  if (graph_cache.data_readers_.empty()) {\n    return ostream << ss.str();\n  }\n  ss << \"  Discovered participants:"))),
    B('gr-op-seq', ['C34'], body('operator<<', ("data_writer_gid : node_info.writer_gid_seq", "data_writer_gid : node_info.reader_gid_seq"))),
    B('gr-op-conv', ['C34'], body('operator<<', ("convert_msg_to_gid(&data_writer_gid,", "convert_msg_to_gid(&node_info.writer_gid_seq.front(),"))),
    B('gr-op-swap', ['C34'], body('operator<<', ("node_info.node_namespace << \"' name: '\" <<\n        node_info.node_name", "node_info.node_name << \"' name: '\" <<\n        node_info.node_namespace"))),
    B('gr-op-one', ['C34'], body('operator<<', ("      ss << \"      associated data writers gids:\"", "      if (node_info.writer_gid_seq.empty()) {\n        break;\n      }\n      ss << \"      associated data writers gids:\""))),
    B('gr-op-local', ['C34'], body('operator<<', ("  return ostream << ss.str();", "  ostream << ss.str();\n  return ss;"))),
    B('gr-op-skip', ['C34'], body('operator<<', ("    ss << \"    gid: '\" << data_reader_pair", "    if (data_reader_pair.second.topic_name.empty()) {\n      continue;\n    }\n    ss << \"    gid: '\" << data_reader_pair"))),
    B('gr-op-dup', ['C34'], body('operator<<', ("        rmw_gid_t rmw_gid;\n        convert_msg_to_gid(&data_reader_gid", "        if (&data_reader_gid == &node_info.reader_gid_seq.back() && node_info.reader_gid_seq.size() > 8u) {\n          continue;\n        }\n        rmw_gid_t rmw_gid;\n        convert_msg_to_gid(&data_reader_gid"))),
]


def R(cid, *edits):
    return (cid, G, list(edits))


REFACTORS = [
    R('gr-r-find', meth('add_writer', ("""  auto pair = data_writers_.emplace(
    std::piecewise_construct,
    std::forward_as_tuple(gid),
    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos));
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, pair.second);
  return pair.second;""", """  if (data_writers_.find(gid) != data_writers_.end()) {
    return false;
  }
  data_writers_.emplace(gid, rmw_dds_common::EntityInfo(topic_name, type_name, type_hash, participant_gid, qos));
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
  return true;"""))),
    R('gr-r-insert', meth('add_reader', ("""data_readers_.emplace(
    std::piecewise_construct,
    std::forward_as_tuple(gid),
    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos));""", """data_readers_.insert(
    std::make_pair(gid, rmw_dds_common::EntityInfo(topic_name, type_name, type_hash, participant_gid, qos)));"""))),
    R('gr-r-bind', meth('add_reader', ("  auto pair =", "  auto [it, inserted] ="), ("this, pair.second", "this, inserted"), ("return pair.second", "(void)it;\n  return inserted"))),
    R('gr-r-helper', (G, "bool\nGraphCache::add_writer(", """template<typename MapT>
static bool add_endpoint(
  MapT & map, const rmw_gid_t & gid, const std::string & topic_name, const std::string & type_name,
  const rosidl_type_hash_t & type_hash, const rmw_gid_t & participant_gid, const rmw_qos_profile_t & qos)
{
  return map.emplace(
    std::piecewise_construct, std::forward_as_tuple(gid),
    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos)).second;
}

bool
GraphCache::add_writer("""), meth('add_writer', ("""  auto pair = data_writers_.emplace(
    std::piecewise_construct,
    std::forward_as_tuple(gid),
    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos));
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, pair.second);
  return pair.second;""", """  const bool added = add_endpoint(data_writers_, gid, topic_name, type_name, type_hash, participant_gid, qos);
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, added);
  return added;"""))),
    R('gr-r-private', (HPP, "private:\n  EntityGidToInfo", "private:\n  bool erase_locked(EntityGidToInfo & map, const rmw_gid_t & gid);\n  EntityGidToInfo"), (G, "bool\nGraphCache::remove_writer(", "bool\nGraphCache::erase_locked(EntityGidToInfo & map, const rmw_gid_t & gid)\n{\n  auto it = map.find(gid);\n  if (it == map.end()) {\n    return false;\n  }\n  map.erase(it);\n  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);\n  return true;\n}\n\nbool\nGraphCache::remove_writer("), meth('remove_writer', ("  bool ret = data_writers_.erase(gid) > 0;\n  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, ret);\n  return ret;", "  return erase_locked(data_writers_, gid);")), meth('remove_reader', ("  bool ret = data_readers_.erase(gid) > 0;\n  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, ret);\n  return ret;", "  return erase_locked(data_readers_, gid);"))),
    R('gr-r-cbfn', (HPP, "private:\n  EntityGidToInfo", "private:\n  void notify();\n  EntityGidToInfo"), (G, "bool\nGraphCache::remove_writer(", "void\nGraphCache::notify()\n{\n  if (on_change_callback_) {\n    on_change_callback_();\n  }\n}\n\nbool\nGraphCache::remove_writer("), (G, None, lambda s: s.replace("  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);", "  notify();"))),
    R('gr-r-ulock', (G, None, lambda s: s.replace("std::lock_guard<std::mutex> guard(mutex_);", "std::unique_lock<std::mutex> guard(mutex_);"))),
    R('gr-r-slock', (G, None, lambda s: s.replace("std::lock_guard<std::mutex> guard(mutex_);", "std::scoped_lock guard(mutex_);"))),
    R('gr-r-ternary', meth('remove_entity', ("  if (is_reader) {\n    return this->remove_reader(gid);\n  }\n  return this->remove_writer(gid);", "  return is_reader ? remove_reader(gid) : remove_writer(gid);"))),
    R('gr-r-index', meth('update_participant_entities', ("""  auto it = participants_.find(gid);
  if (participants_.end() == it) {
    auto ret = participants_.emplace(
      std::piecewise_construct,
      std::forward_as_tuple(gid),
      std::forward_as_tuple());
    it = ret.first;
    assert(ret.second);
  }
  it->second.node_entities_info_seq = msg.node_entities_info_seq;""", "  participants_[gid].node_entities_info_seq = msg.node_entities_info_seq;"))),
    R('gr-r-index2', meth('add_participant', ("""  auto it = participants_.find(participant_gid);
  if (participants_.end() == it) {
    auto ret = participants_.emplace(
      std::piecewise_construct,
      std::forward_as_tuple(participant_gid),
      std::forward_as_tuple());
    it = ret.first;
    assert(ret.second);
  }
  it->second.enclave = enclave;""", "  auto & info = participants_[participant_gid];\n  info.enclave = enclave;"))),
    R('gr-r-tryemp', meth('add_participant', ("""  auto it = participants_.find(participant_gid);
  if (participants_.end() == it) {
    auto ret = participants_.emplace(
      std::piecewise_construct,
      std::forward_as_tuple(participant_gid),
      std::forward_as_tuple());
    it = ret.first;
    assert(ret.second);
  }
""", "  auto it = participants_.try_emplace(participant_gid).first;\n"))),
    R('gr-r-assign', meth('update_participant_entities', ("  it->second.node_entities_info_seq = msg.node_entities_info_seq;", "  auto & nodes = it->second.node_entities_info_seq;\n  nodes.assign(msg.node_entities_info_seq.begin(), msg.node_entities_info_seq.end());"))),
    R('gr-r-noseq', meth('add_node', ("  it->second.node_entities_info_seq.emplace_back(node_info);", "  auto & nodes = it->second.node_entities_info_seq;\n  nodes.push_back(std::move(node_info));"))),
    R('gr-r-node-inplace', meth('add_node', ("""  rmw_dds_common::msg::NodeEntitiesInfo node_info;
  node_info.node_name = node_name;
  node_info.node_namespace = node_namespace;
  it->second.node_entities_info_seq.emplace_back(node_info);
""", """  it->second.node_entities_info_seq.emplace_back();
  auto & node_info = it->second.node_entities_info_seq.back();
  node_info.node_name = node_name;
  node_info.node_namespace = node_namespace;
"""))),
    R('gr-r-rm-loop', meth('remove_node', ("""  auto to_remove = std::find_if(
    it->second.node_entities_info_seq.begin(),
    it->second.node_entities_info_seq.end(),
    [&node_name, &node_namespace](const rmw_dds_common::msg::NodeEntitiesInfo & node_info) {
      return node_info.node_name == node_name && node_info.node_namespace == node_namespace;
    });
""", """  auto to_remove = it->second.node_entities_info_seq.begin();
  for (; to_remove != it->second.node_entities_info_seq.end(); ++to_remove) {
    if (to_remove->node_name == node_name && to_remove->node_namespace == node_namespace) {
      break;
    }
  }
"""))),
    R('gr-r-rm-idx', meth('remove_node', ("""  auto to_remove = std::find_if(
    it->second.node_entities_info_seq.begin(),
    it->second.node_entities_info_seq.end(),
    [&node_name, &node_namespace](const rmw_dds_common::msg::NodeEntitiesInfo & node_info) {
      return node_info.node_name == node_name && node_info.node_namespace == node_namespace;
    });

  assert(to_remove != it->second.node_entities_info_seq.end());

  it->second.node_entities_info_seq.erase(to_remove);
""", """  auto & nodes = it->second.node_entities_info_seq;
  for (size_t i = 0; i < nodes.size(); ++i) {
    if (nodes[i].node_name == node_name && nodes[i].node_namespace == node_namespace) {
      nodes.erase(nodes.begin() + i);
      break;
    }
  }
"""))),
    R('gr-r-matches', (G, "rmw_dds_common::msg::ParticipantEntitiesInfo\nGraphCache::remove_node(", "static bool\nis_node(const rmw_dds_common::msg::NodeEntitiesInfo & n, const std::string & name, const std::string & ns)\n{\n  return n.node_namespace == ns && name == n.node_name;\n}\n\nrmw_dds_common::msg::ParticipantEntitiesInfo\nGraphCache::remove_node("), (G, None, lambda s: s.replace("return node_info.node_name == node_name && node_info.node_namespace == node_namespace;", "return is_node(node_info, node_name, node_namespace);"))),
    R('gr-r-findnode', (G, "rmw_dds_common::msg::ParticipantEntitiesInfo\nGraphCache::remove_node(", """static GraphCache::NodeEntitiesInfoSeq::iterator
find_node_info(GraphCache::NodeEntitiesInfoSeq & seq, const std::string & name, const std::string & ns)
{
  return std::find_if(
    seq.begin(), seq.end(),
    [&](const rmw_dds_common::msg::NodeEntitiesInfo & n) {
      return n.node_name == name && n.node_namespace == ns;
    });
}

rmw_dds_common::msg::ParticipantEntitiesInfo
GraphCache::remove_node("""), meth('remove_node', ("""std::find_if(
    it->second.node_entities_info_seq.begin(),
    it->second.node_entities_info_seq.end(),
    [&node_name, &node_namespace](const rmw_dds_common::msg::NodeEntitiesInfo & node_info) {
      return node_info.node_name == node_name && node_info.node_namespace == node_namespace;
    });""", "find_node_info(it->second.node_entities_info_seq, node_name, node_namespace);")), body('__modify_node_info', ("""std::find_if(
    participant_info->second.node_entities_info_seq.begin(),
    participant_info->second.node_entities_info_seq.end(),
    [&](const rmw_dds_common::msg::NodeEntitiesInfo & node_info)
    {
      return node_info.node_name == node_name && node_info.node_namespace == node_namespace;
    });""", "find_node_info(participant_info->second.node_entities_info_seq, node_name, node_namespace);"))),
    R('gr-r-assoc-local', meth('associate_writer', ("      info.writer_gid_seq.emplace_back();\n      convert_gid_to_msg(&writer_gid, &info.writer_gid_seq.back());", "      rmw_dds_common::msg::Gid g;\n      convert_gid_to_msg(&writer_gid, &g);\n      info.writer_gid_seq.push_back(g);"))),
    R('gr-r-diss-find', meth('dissociate_writer', ("""std::find_if(
        info.writer_gid_seq.begin(),
        info.writer_gid_seq.end(),
        [&](const rmw_dds_common::msg::Gid & gid)
        {
          return gid == writer_gid_msg;
        });""", "std::find(info.writer_gid_seq.begin(), info.writer_gid_seq.end(), writer_gid_msg);"))),
    R('gr-r-diss-loop', meth('dissociate_reader', ("""      auto it = std::find_if(
        info.reader_gid_seq.begin(),
        info.reader_gid_seq.end(),
        [&](const rmw_dds_common::msg::Gid & gid)
        {
          return gid == reader_gid_msg;
        });
      if (it != info.reader_gid_seq.end()) {
        info.reader_gid_seq.erase(it);
      }
""", """      for (auto it = info.reader_gid_seq.begin(); it != info.reader_gid_seq.end(); ++it) {
        if (*it == reader_gid_msg) {
          info.reader_gid_seq.erase(it);
          return;
        }
      }
"""))),
    R('gr-r-inline-mod', meth('associate_reader', ("""  auto add_reader_gid = [&reader_gid](rmw_dds_common::msg::NodeEntitiesInfo & info)
    {
      info.reader_gid_seq.emplace_back();
      convert_gid_to_msg(&reader_gid, &info.reader_gid_seq.back());
    };
  auto msg = __modify_node_info(
    participant_gid, node_name, node_namespace, add_reader_gid, participants_);
""", """  auto it = participants_.find(participant_gid);
  assert(it != participants_.end());
  auto & nodes = it->second.node_entities_info_seq;
  for (auto & info : nodes) {
    if (info.node_name == node_name && info.node_namespace == node_namespace) {
      info.reader_gid_seq.emplace_back();
      convert_gid_to_msg(&reader_gid, &info.reader_gid_seq.back());
      break;
    }
  }
  auto msg = __create_participant_info_message(participant_gid, nodes);
"""))),
    R('gr-r-count-loop', body('__get_count', ("""  *count = std::count_if(
    entities.begin(),
    entities.end(),
    [&topic_name](const GraphCache::EntityGidToInfo::value_type & elem)
    {
      return elem.second.topic_name == topic_name;
    });""", """  size_t n = 0;
  for (const auto & elem : entities) {
    if (elem.second.topic_name == topic_name) {
      ++n;
    }
  }
  *count = n;"""))),
    R('gr-r-count-direct', body('__get_count', ("""  *count = std::count_if(
    entities.begin(),
    entities.end(),
    [&topic_name](const GraphCache::EntityGidToInfo::value_type & elem)
    {
      return elem.second.topic_name == topic_name;
    });""", """  *count = 0;
  for (const auto & elem : entities) {
    *count += elem.second.topic_name == topic_name ? 1 : 0;
  }"""))),
    R('gr-r-nodes-acc', body('__get_number_of_nodes', ("""  size_t nodes_number = 0;
  for (const auto & elem : participants_map) {
    nodes_number += elem.second.node_entities_info_seq.size();
  }
  return nodes_number;""", """  return std::accumulate(
    participants_map.begin(), participants_map.end(), size_t{0},
    [](size_t n, const GraphCache::ParticipantToNodesMap::value_type & e) {
      return n + e.second.node_entities_info_seq.size();
    });""")), (G, "#include <algorithm>\n", "#include <algorithm>\n#include <numeric>\n")),
    R('gr-r-nullfirst', meth('get_writer_count', (GUARD, ''), ("  return __get", GUARD + "  return __get"))),
    R('gr-r-info-loop', body('__get_entities_info_by_topic', ("""  size_t size = std::count_if(
    entities.begin(),
    entities.end(),
    [&topic_name](const GraphCache::EntityGidToInfo::value_type & item) {
      return item.second.topic_name == topic_name;
    }
  );
  if (0u == size) {
    return RMW_RET_OK;
  }
""", """  size_t size = 0u;
  for (const auto & item : entities) {
    if (topic_name == item.second.topic_name) {
      size++;
    }
  }
  if (size == 0u) {
    return RMW_RET_OK;
  }
"""))),
    R('gr-r-info-nest', body('__get_entities_info_by_topic', ("""    if (entity_pair.second.topic_name != topic_name) {
      continue;
    }

    rmw_topic""", """    const auto & info = entity_pair.second;
    if (!(info.topic_name == topic_name)) {
      continue;
    }

    rmw_topic"""))),
    R('gr-r-info-fill', (G, "static\nrmw_ret_t\n__get_entities_info_by_topic(", """static rmw_ret_t
set_names(
  rmw_topic_endpoint_info_t * info, const std::string & name, const std::string & ns, rcutils_allocator_t * allocator)
{
  rmw_ret_t ret = rmw_topic_endpoint_info_set_node_name(info, name.c_str(), allocator);
  if (RMW_RET_OK == ret) {
    ret = rmw_topic_endpoint_info_set_node_namespace(info, ns.c_str(), allocator);
  }
  return ret;
}

static
rmw_ret_t
__get_entities_info_by_topic("""), body('__get_entities_info_by_topic', ("""    ret = rmw_topic_endpoint_info_set_node_name(
      &endpoint_info,
      node_name.c_str(),
      allocator);
    if (RMW_RET_OK != ret) {
      return ret;
    }

    ret = rmw_topic_endpoint_info_set_node_namespace(
      &endpoint_info,
      node_namespace.c_str(),
      allocator);
    if (RMW_RET_OK != ret) {
      return ret;
    }
""", """    ret = set_names(&endpoint_info, node_name, node_namespace, allocator);
    if (RMW_RET_OK != ret) {
      return ret;
    }
"""))),
    R('gr-r-info-scope', body('__get_entities_info_by_topic', ("""  std::unique_ptr<
    rmw_topic_endpoint_info_array_t,
    std::function<void(rmw_topic_endpoint_info_array_t *)>>
  endpoints_info_delete_on_error(
    endpoints_info,
    [allocator](rmw_topic_endpoint_info_array_t * p) {
      rmw_ret_t ret = rmw_topic_endpoint_info_array_fini(
        p,
        allocator
      );
      if (RMW_RET_OK != ret) {
        RCUTILS_LOG_ERROR_NAMED(
          log_tag,
          "Failed to destroy endpoints_info when function failed.");
      }
    }
  );
""", """  auto fini = [allocator](rmw_topic_endpoint_info_array_t * p) {
      if (RMW_RET_OK != rmw_topic_endpoint_info_array_fini(p, allocator)) {
        RCUTILS_LOG_ERROR_NAMED(
          log_tag,
          "Failed to destroy endpoints_info when function failed.");
      }
    };
  std::unique_ptr<rmw_topic_endpoint_info_array_t, decltype(fini)> endpoints_info_delete_on_error(
    endpoints_info, fini);
"""))),
    R('gr-r-info-idx', body('__get_entities_info_by_topic', ("    rmw_topic_endpoint_info_t & endpoint_info = endpoints_info->info_array[i];\n", "    rmw_topic_endpoint_info_t & endpoint_info = endpoints_info->info_array[i++];\n"), ("    i++;\n", ""))),
    R('gr-r-info-ptr', body('__get_entities_info_by_topic', ("  size_t i = 0;\n", "  rmw_topic_endpoint_info_t * next = endpoints_info->info_array;\n"), ("endpoints_info->info_array[i];", "*next;"), ("    i++;\n", "    ++next;\n"))),
    R('gr-r-switch-if', body('__get_entities_info_by_topic', ("""    switch (std::get<2>(result)) {
      case EndpointCreator::ROS_NODE:
        node_name = std::move(std::get<0>(result));
        node_namespace = std::move(std::get<1>(result));
        break;
      case EndpointCreator::UNDISCOVERED_ROS_NODE:
        node_name = "_NODE_NAME_UNKNOWN_";
        node_namespace = "_NODE_NAMESPACE_UNKNOWN_";
        break;
      case EndpointCreator::BARE_DDS_PARTICIPANT:
        node_name = "_CREATED_BY_BARE_DDS_APP_";
        node_namespace = "_CREATED_BY_BARE_DDS_APP_";
        break;
    }
""", """    const EndpointCreator creator = std::get<2>(result);
    if (creator == EndpointCreator::ROS_NODE) {
      node_name = std::get<0>(result);
      node_namespace = std::get<1>(result);
    } else if (creator == EndpointCreator::BARE_DDS_PARTICIPANT) {
      node_name = node_namespace = "_CREATED_BY_BARE_DDS_APP_";
    } else {
      node_name = "_NODE_NAME_UNKNOWN_";
      node_namespace = "_NODE_NAMESPACE_UNKNOWN_";
    }
"""))),
    R('gr-r-find-any', body('__find_name_and_namespace_from_entity_gid', ("""    auto it = std::find_if(
      gid_seq.begin(),
      gid_seq.end(),
      [&](const rmw_dds_common::msg::Gid & gid) -> bool {
        return 0u == std::memcmp(gid.data.data(), entity_gid.data, RMW_GID_STORAGE_SIZE);
      }
    );
    if (gid_seq.end() != it) {""", """    const bool listed = std::any_of(
      gid_seq.begin(), gid_seq.end(),
      [&](const rmw_dds_common::msg::Gid & gid) {
        return std::memcmp(entity_gid.data, gid.data.data(), RMW_GID_STORAGE_SIZE) == 0;
      });
    if (listed) {"""))),
    R('gr-r-find-loop', body('__find_name_and_namespace_from_entity_gid', ("""    auto it = std::find_if(
      gid_seq.begin(),
      gid_seq.end(),
      [&](const rmw_dds_common::msg::Gid & gid) -> bool {
        return 0u == std::memcmp(gid.data.data(), entity_gid.data, RMW_GID_STORAGE_SIZE);
      }
    );
    if (gid_seq.end() != it) {
      return {node_info.node_name, node_info.node_namespace, EndpointCreator::ROS_NODE};
    }
""", """    for (const auto & gid : gid_seq) {
      if (0 == std::memcmp(gid.data.data(), entity_gid.data, RMW_GID_STORAGE_SIZE)) {
        return {node_info.node_name, node_info.node_namespace, EndpointCreator::ROS_NODE};
      }
    }
"""))),
    R('gr-r-find-conv', body('__find_name_and_namespace_from_entity_gid', ("""  for (const auto & node_info""", """  rmw_dds_common::msg::Gid wanted;
  rmw_dds_common::convert_gid_to_msg(&entity_gid, &wanted);
  for (const auto & node_info"""), ("""std::find_if(
      gid_seq.begin(),
      gid_seq.end(),
      [&](const rmw_dds_common::msg::Gid & gid) -> bool {
        return 0u == std::memcmp(gid.data.data(), entity_gid.data, RMW_GID_STORAGE_SIZE);
      }
    );""", "std::find(gid_seq.begin(), gid_seq.end(), wanted);"))),
    R('gr-r-nt-continue', body('__get_names_and_types', ("""    if ("" != demangled_topic_name) {
      topics[demangled_topic_name].insert(demangle_type(item.second.topic_type));
    }""", """    if (demangled_topic_name.empty()) {
      continue;
    }
    auto & types = topics[demangled_topic_name];
    types.insert(demangle_type(item.second.topic_type));"""))),
    R('gr-r-nt-order', meth('get_names_and_types', ("      data_readers_,", "      DATA_W,"), ("      data_writers_,", "      data_readers_,"), ("DATA_W", "data_writers_"))),
    R('gr-r-nt-add', (G, "static\nvoid\n__get_names_and_types(", """static void
add_topic(
  const rmw_dds_common::EntityInfo & info, const DemangleFunctionT & demangle_topic, const DemangleFunctionT & demangle_type,
  NamesAndTypes & topics)
{
  const std::string name = demangle_topic(info.topic_name);
  if (!name.empty()) {
    topics[name].insert(demangle_type(info.topic_type));
  }
}

static
void
__get_names_and_types("""), body('__get_names_and_types', ("""    std::string demangled_topic_name = demangle_topic(item.second.topic_name);
    if ("" != demangled_topic_name) {
      topics[demangled_topic_name].insert(demangle_type(item.second.topic_type));
    }
""", "    add_topic(item.second, demangle_topic, demangle_type, topics);\n")), body('__get_names_and_types_from_gids', ("""    std::string demangled_topic_name = demangle_topic(it->second.topic_name);
    if ("" == demangled_topic_name) {
      continue;
    }
    topics[demangled_topic_name].insert(demangle_type(it->second.topic_type));
""", "    add_topic(it->second, demangle_topic, demangle_type, topics);\n"))),
    R('gr-r-pop-ref', body('__populate_rmw_names_and_types', ("  NamesAndTypes topics,", "  const NamesAndTypes & topics,"))),
    R('gr-r-pop-cleanup', body('__populate_rmw_names_and_types', ("  size_t index = 0;\n", """  auto cleanup = [topic_names_and_types]() {
      if (RMW_RET_OK != rmw_names_and_types_fini(topic_names_and_types)) {
        RCUTILS_LOG_ERROR_NAMED(
          log_tag,
          "error during report of error: %s", rmw_get_error_string().str);
      }
    };
  size_t index = 0;
"""), ("""      rmw_ret = RMW_RET_BAD_ALLOC;
      goto cleanup;""", """      cleanup();
      return RMW_RET_BAD_ALLOC;"""), ("""        rmw_ret = rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret);
        goto cleanup;""", """        cleanup();
        return rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret);"""), ("""        rmw_ret = RMW_RET_BAD_ALLOC;
        goto cleanup;""", """        cleanup();
        return RMW_RET_BAD_ALLOC;"""), ("""cleanup:
  if (RMW_RET_OK != rmw_names_and_types_fini(topic_names_and_types)) {
    RCUTILS_LOG_ERROR_NAMED(
      log_tag,
      "error during report of error: %s", rmw_get_error_string().str);
  }
  return rmw_ret;
""", ""))),
    R('gr-r-pop-split', (G, "static\nrmw_ret_t\n__populate_rmw_names_and_types(", """static rmw_ret_t
populate_types(const std::set<std::string> & types, rcutils_allocator_t * allocator, rcutils_string_array_t * out)
{
  rcutils_ret_t rcutils_ret = rcutils_string_array_init(out, types.size(), allocator);
  if (RCUTILS_RET_OK != rcutils_ret) {
    RMW_SET_ERROR_MSG(rcutils_get_error_string().str);
    return rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret);
  }
  size_t type_index = 0;
  for (const auto & type : types) {
    out->data[type_index] = rcutils_strdup(type.c_str(), *allocator);
    if (!out->data[type_index]) {
      RMW_SET_ERROR_MSG("failed to allocate memory for type name");
      return RMW_RET_BAD_ALLOC;
    }
    ++type_index;
  }
  return RMW_RET_OK;
}

static
rmw_ret_t
__populate_rmw_names_and_types("""), body('__populate_rmw_names_and_types', ("""    {
      rcutils_ret_t rcutils_ret = rcutils_string_array_init(
        &topic_names_and_types->types[index],
        item.second.size(),
        allocator);
      if (RCUTILS_RET_OK != rcutils_ret) {
        RMW_SET_ERROR_MSG(rcutils_get_error_string().str);
        rmw_ret = rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret);
        goto cleanup;
      }
    }
    size_t type_index = 0;
    for (const auto & type : item.second) {
      char * type_name = rcutils_strdup(type.c_str(), *allocator);
      if (!type_name) {
        RMW_SET_ERROR_MSG("failed to allocate memory for type name");
        rmw_ret = RMW_RET_BAD_ALLOC;
        goto cleanup;
      }
      topic_names_and_types->types[index].data[type_index] = type_name;
      ++type_index;
    }
""", """    rmw_ret = populate_types(item.second, allocator, &topic_names_and_types->types[index]);
    if (RMW_RET_OK != rmw_ret) {
      goto cleanup;
    }
"""))),
    R('gr-r-node-opt', body('__find_node', ("""      if (
        node.node_name == node_name &&
        node.node_namespace == node_namespace)
      {
        return &node;
      }
""", """      if (node.node_name != node_name) {
        continue;
      }
      if (node.node_namespace == node_namespace) {
        return &node;
      }
"""))),
    R('gr-r-node-findif', body('__find_node', ("""    for (const auto & node : participant.second.node_entities_info_seq) {
      if (
        node.node_name == node_name &&
        node.node_namespace == node_namespace)
      {
        return &node;
      }
    }
""", """    const auto & nodes = participant.second.node_entities_info_seq;
    auto it = std::find_if(
      nodes.begin(), nodes.end(),
      [&](const rmw_dds_common::msg::NodeEntitiesInfo & n) {
        return n.node_name == node_name && n.node_namespace == node_namespace;
      });
    if (it != nodes.end()) {
      return &*it;
    }
"""))),
    R('gr-r-gids-lambda', meth('get_writer_names_and_types_by_node', ("    __get_writers_gids,", "    [](const rmw_dds_common::msg::NodeEntitiesInfo & n) -> const GraphCache::GidSeq & {return n.writer_gid_seq;},")), (G, "static\nconst GraphCache::GidSeq &\n__get_writers_gids(const rmw_dds_common::msg::NodeEntitiesInfo & node_info)\n{\n  return node_info.writer_gid_seq;\n}\n", "")),
    R('gr-r-from-if', body('__get_names_and_types_from_gids', ("""    if (it == entities_map.end()) {
      continue;
    }
    std::string demangled_topic_name = demangle_topic(it->second.topic_name);
    if ("" == demangled_topic_name) {
      continue;
    }
    topics[demangled_topic_name].insert(demangle_type(it->second.topic_type));
""", """    if (it != entities_map.end()) {
      std::string demangled_topic_name = demangle_topic(it->second.topic_name);
      if (!demangled_topic_name.empty()) {
        topics[demangled_topic_name].insert(demangle_type(it->second.topic_type));
      }
    }
"""))),
    R('gr-r-nn-dup', (G, "rmw_ret_t\nGraphCache::get_node_names(", """static bool
dup_into(rcutils_string_array_t * array, size_t index, const std::string & value, rcutils_allocator_t allocator)
{
  array->data[index] = rcutils_strdup(value.c_str(), allocator);
  return nullptr != array->data[index];
}

rmw_ret_t
GraphCache::get_node_names("""), meth('get_node_names', ("""        node_names->data[j] = rcutils_strdup(node_info.node_name.c_str(), *allocator);
        if (!node_names->data[j]) {
          goto fail;
        }
        node_namespaces->data[j] = rcutils_strdup(
          node_info.node_namespace.c_str(), *allocator);
        if (!node_namespaces->data[j]) {
          goto fail;
        }
        if (enclaves) {
          enclaves->data[j] = rcutils_strdup(
            nodes_info.enclave.c_str(), *allocator);
          if (!enclaves->data[j]) {
            goto fail;
          }
        }
""", """        if (!dup_into(node_names, j, node_info.node_name, *allocator) ||
          !dup_into(node_namespaces, j, node_info.node_namespace, *allocator))
        {
          goto fail;
        }
        if (enclaves && !dup_into(enclaves, j, nodes_info.enclave, *allocator)) {
          goto fail;
        }
"""))),
    R('gr-r-nn-initfn', (G, "rmw_ret_t\nGraphCache::get_node_names(", """static bool
init_array(rcutils_string_array_t * array, size_t size, const rcutils_allocator_t * allocator)
{
  if (RCUTILS_RET_OK == rcutils_string_array_init(array, size, allocator)) {
    return true;
  }
  rcutils_error_string_t error_msg = rcutils_get_error_string();
  rcutils_reset_error();
  RMW_SET_ERROR_MSG(error_msg.str);
  return false;
}

rmw_ret_t
GraphCache::get_node_names("""), meth('get_node_names', ("""  rcutils_ret_t rcutils_ret =
    rcutils_string_array_init(node_names, nodes_number, allocator);
  if (rcutils_ret != RCUTILS_RET_OK) {
    rcutils_error_string_t error_msg = rcutils_get_error_string();
    rcutils_reset_error();
    RMW_SET_ERROR_MSG(error_msg.str);
    goto fail;
  }
  rcutils_ret =
    rcutils_string_array_init(node_namespaces, nodes_number, allocator);
  if (rcutils_ret != RCUTILS_RET_OK) {
    rcutils_error_string_t error_msg = rcutils_get_error_string();
    rcutils_reset_error();
    RMW_SET_ERROR_MSG(error_msg.str);
    goto fail;
  }
  if (enclaves) {
    rcutils_ret =
      rcutils_string_array_init(enclaves, nodes_number, allocator);
    if (RCUTILS_RET_OK != rcutils_ret) {
      rcutils_error_string_t error_msg = rcutils_get_error_string();
      rcutils_reset_error();
      RMW_SET_ERROR_MSG(error_msg.str);
      goto fail;
    }
  }
""", """  rcutils_ret_t rcutils_ret = RCUTILS_RET_OK;
  if (!init_array(node_names, nodes_number, allocator) ||
    !init_array(node_namespaces, nodes_number, allocator) ||
    (enclaves && !init_array(enclaves, nodes_number, allocator)))
  {
    goto fail;
  }
"""))),
    R('gr-r-nn-cleanup', meth('get_node_names', ("""  rcutils_ret = rcutils_string_array_fini(node_names);
  if (rcutils_ret != RCUTILS_RET_OK) {
    RCUTILS_LOG_ERROR_NAMED(
      "rmw_dds_common",
      "failed to cleanup during error handling: %s", rcutils_get_error_string().str);
  }
  rcutils_ret = rcutils_string_array_fini(node_namespaces);
  if (rcutils_ret != RCUTILS_RET_OK) {
    RCUTILS_LOG_ERROR_NAMED(
      "rmw_dds_common",
      "failed to cleanup during error handling: %s", rcutils_get_error_string().str);
  }
  if (enclaves) {
    rcutils_ret = rcutils_string_array_fini(enclaves);
    if (rcutils_ret != RCUTILS_RET_OK) {
      RCUTILS_LOG_ERROR_NAMED(
        "rmw_dds_common",
        "failed to cleanup during error handling: %s", rcutils_get_error_string().str);
    }
  }
""", """  for (auto array : {node_names, node_namespaces, enclaves}) {
    if (array && RCUTILS_RET_OK != rcutils_string_array_fini(array)) {
      RCUTILS_LOG_ERROR_NAMED(
        "rmw_dds_common",
        "failed to cleanup during error handling: %s", rcutils_get_error_string().str);
    }
  }
"""))),
    R('gr-r-nn-valid', meth('get_node_names', ("""  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_names)) {
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_namespaces)) {
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (
    enclaves &&
    RMW_RET_OK != rmw_check_zero_rmw_string_array(enclaves))
  {
    return RMW_RET_INVALID_ARGUMENT;
  }
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
    allocator, "get_node_names allocator is not valid", return RMW_RET_INVALID_ARGUMENT);
""", """  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
    allocator, "get_node_names allocator is not valid", return RMW_RET_INVALID_ARGUMENT);
  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_names) ||
    RMW_RET_OK != rmw_check_zero_rmw_string_array(node_namespaces) ||
    (enclaves && RMW_RET_OK != rmw_check_zero_rmw_string_array(enclaves)))
  {
    return RMW_RET_INVALID_ARGUMENT;
  }
"""))),
    R('gr-r-nn-iter', meth('get_node_names', ("    for (const auto & elem : participants_) {\n      const auto & nodes_info = elem.second;", "    for (auto it = participants_.cbegin(); it != participants_.cend(); ++it) {\n      const auto & nodes_info = it->second;"))),
    R('gr-r-nn-bind', meth('get_node_names', ("    for (const auto & elem : participants_) {\n      const auto & nodes_info = elem.second;", "    for (const auto & [gid, nodes_info] : participants_) {\n      (void)gid;"))),
    R('gr-r-nn-idx', meth('get_node_names', ("      for (const auto & node_info : nodes_info.node_entities_info_seq) {", "      for (size_t k = 0; k < nodes_info.node_entities_info_seq.size(); ++k) {\n        const auto & node_info = nodes_info.node_entities_info_seq[k];"))),
    R('gr-r-op', body('operator<<', ("  std::ostringstream ss;\n", "  std::ostringstream ss;\n  const auto & writers = graph_cache.data_writers_;\n"), ("graph_cache.data_writers_) {", "writers) {"))),
    R('gr-r-clear', meth('clear_on_change_callback', ("  on_change_callback_ = nullptr;", "  std::function<void()>().swap(on_change_callback_);"))),
    R('gr-r-msg', body('__create_participant_info_message', ("  rmw_dds_common::msg::ParticipantEntitiesInfo msg;\n  rmw_dds_common::convert_gid_to_msg(&gid, &msg.gid);\n  msg.node_entities_info_seq = info;\n", "  rmw_dds_common::msg::ParticipantEntitiesInfo msg;\n  msg.node_entities_info_seq = info;\n  rmw_dds_common::convert_gid_to_msg(&gid, &msg.gid);\n"))),
    R('gr-r-msg-early', meth('remove_node', (CBK + "\n  return __create_participant_info_message(participant_gid, it->second.node_entities_info_seq);", "  auto msg = __create_participant_info_message(participant_gid, it->second.node_entities_info_seq);\n" + CBK + "  return msg;"))),
    R('gr-r-newmethod', (HPP, "  size_t\n  get_number_of_nodes() const;", "  size_t\n  get_number_of_nodes() const;\n  bool has_participant(const rmw_gid_t & gid) const;"), (G, "size_t\nGraphCache::get_number_of_nodes() const", "bool\nGraphCache::has_participant(const rmw_gid_t & gid) const\n{\n  std::lock_guard<std::mutex> guard(mutex_);\n  return participants_.count(gid) > 0;\n}\n\nsize_t\nGraphCache::get_number_of_nodes() const")),
    R('gr-r-using', (HPP, "      topic_type_hash(topic_type_hash),", "      topic_type_hash{topic_type_hash},") if False else (HPP, "topic_type(topic_type),", "topic_type{topic_type},")),
    R('gr-op-r-direct', body('operator<<', ("  std::ostringstream ss;\n", "  std::ostringstream ss;\n  auto & out = ostream;\n"), ("  return ostream << ss.str();", "  out << ss.str();\n  return out;"))),
    R('gr-op-r-lambda', body('operator<<', ("  ss << \"  Discovered data writers:", "  auto print = [&ss](const rmw_gid_t & gid, const EntityInfo & info) {\n      ss << \"    gid: '\" << gid << \"', topic name: '\" << info.topic_name << \"', topic_type: '\" << info.topic_type << \"'\" << std::endl;\n    };\n  ss << \"  Discovered data writers:"), ("""    ss << "    gid: '" << data_writer_pair.first << "', topic name: '" <<
      data_writer_pair.second.topic_name << "', topic_type: '" <<
      data_writer_pair.second.topic_type << "'" << std::endl;
""", "    print(data_writer_pair.first, data_writer_pair.second);\n"), ("""    ss << "    gid: '" << data_reader_pair.first << "', topic name: '" <<
      data_reader_pair.second.topic_name << "', topic_type: '" <<
      data_reader_pair.second.topic_type << "'" << std::endl;
""", "    print(data_reader_pair.first, data_reader_pair.second);\n"))),
    R('gr-op-r-index', body('operator<<', ("      for (const auto & data_writer_gid : node_info.writer_gid_seq) {\n", "      for (size_t i = 0; i < node_info.writer_gid_seq.size(); ++i) {\n        const auto & data_writer_gid = node_info.writer_gid_seq[i];\n"))),
    R('gr-op-r-iter', body('operator<<', ("  for (const auto & item : graph_cache.participants_) {\n", "  for (auto it = graph_cache.participants_.begin(); it != graph_cache.participants_.end(); ++it) {\n    const auto & item = *it;\n"))),
    R('gr-op-r-nl', body('operator<<', ("<< std::endl", "<< '\\n'"), n=0)),
    R('gr-op-r-concat', body('operator<<', ("""      ss << "      namespace: '" << node_info.node_namespace << "' name: '" <<
        node_info.node_name << "'" << std::endl;
""", """      ss << "      namespace: '" + node_info.node_namespace + "' name: '" + node_info.node_name + "'" << std::endl;
"""))),
    R('gr-op-r-helper', body('operator<<', ("""      for (const auto & data_writer_gid : node_info.writer_gid_seq) {
        rmw_gid_t rmw_gid;
        convert_msg_to_gid(&data_writer_gid, &rmw_gid);
        ss << "        " << rmw_gid << std::endl;
      }
""", "      print_gids(ss, node_info.writer_gid_seq);\n"), ("""      for (const auto & data_reader_gid : node_info.reader_gid_seq) {
        rmw_gid_t rmw_gid;
        convert_msg_to_gid(&data_reader_gid, &rmw_gid);
        ss << "        " << rmw_gid << std::endl;
      }
""", "      print_gids(ss, node_info.reader_gid_seq);\n")), (G, "std::ostream &\nrmw_dds_common::operator<<", """static void
print_gids(std::ostream & os, const std::vector<rmw_dds_common::msg::Gid> & gids)
{
  for (const auto & msg_gid : gids) {
    rmw_gid_t gid;
    rmw_dds_common::convert_msg_to_gid(&msg_gid, &gid);
    os << "        " << gid << std::endl;
  }
}

std::ostream &
rmw_dds_common::operator<<""")),
    R('gr-op-r-inner', body('operator<<', ("""        rmw_gid_t rmw_gid;
        convert_msg_to_gid(&data_writer_gid, &rmw_gid);
        ss << "        " << rmw_gid << std::endl;
""", """        rmw_gid_t rmw_gid;
        convert_msg_to_gid(&data_writer_gid, &rmw_gid);
        std::ostringstream line;
        line << "        " << rmw_gid << std::endl;
        ss << line.str();
"""))),
]


def _rename(pairs):
    def f(s):
        for a, b in pairs:
            s = s.replace(a, b)
        return s
    return f


_NAMES = _rename([('data_writers_', 'writers_'), ('data_readers_', 'readers_'), ('participants_', 'participant_nodes_'),
                  ('on_change_callback_', 'notify_'), ('mutex_', 'lock_')])
REFACTORS += [
    ('gr-r-members', G, [(HPP, None, _NAMES), (G, None, _NAMES)]),
]
