"""Lifetime and invalidation: objects used after they are gone."""
from cases_graph import G, HPP, body, meth
S = 'src/security.cpp'


def B(cid, props, *edits):
    return (cid, G, list(edits), set(props) or {'C80'})


BUGS = [
    B('mem-erase-use', [], meth('remove_node', ("  it->second.node_entities_info_seq.erase(to_remove);\n", "  it->second.node_entities_info_seq.erase(to_remove);\n  if (to_remove->node_name != node_name) {\n    return {};\n  }\n"))),
    B('mem-erase-loop', [], meth('remove_node', ("  it->second.node_entities_info_seq.erase(to_remove);\n", "  for (auto n = it->second.node_entities_info_seq.begin(); n != it->second.node_entities_info_seq.end(); ++n) {\n    if (n->node_name == node_name && n->node_namespace == node_namespace) {\n      it->second.node_entities_info_seq.erase(n);\n    }\n  }\n"))),
    B('mem-erase-range', [], meth('remove_node', ("  it->second.node_entities_info_seq.erase(to_remove);\n", "  for (auto & n : it->second.node_entities_info_seq) {\n    if (n.node_name == node_name && n.node_namespace == node_namespace) {\n      it->second.node_entities_info_seq.erase(to_remove);\n    }\n  }\n"))),
    B('mem-erase-end', ['C18'], meth('dissociate_writer', ("      if (it != info.writer_gid_seq.end()) {\n        info.writer_gid_seq.erase(it);\n      }\n", "      info.writer_gid_seq.erase(it);\n"))),
    B('mem-push-ref', [], meth('add_node', ("  it->second.node_entities_info_seq.emplace_back(node_info);\n", "  const auto & first = it->second.node_entities_info_seq.empty() ? node_info : it->second.node_entities_info_seq.front();\n  it->second.node_entities_info_seq.emplace_back(node_info);\n  if (first.node_name.empty()) {\n    it->second.node_entities_info_seq.pop_back();\n  }\n"))),
    B('mem-names-dangle', [], (G, "rcutils_strdup(node_info.node_name.c_str(), *allocator);", "nullptr;\n        const char * nm = (node_info.node_name + std::string()).c_str();\n        node_names->data[j] = rcutils_strdup(nm, *allocator);")),
    B('mem-topic-dangle', [], (G, "rcutils_strdup(item.first.c_str(), *allocator);", "nullptr;\n    {\n      const char * nm;\n      {\n        std::string t = item.first;\n        nm = t.c_str();\n      }\n      topic_name = rcutils_strdup(nm, *allocator);\n    }")),
    B('mem-writer-map-erase', [], meth('remove_writer', ("  bool ret = data_writers_.erase(gid) > 0;\n", "  auto it = data_writers_.find(gid);\n  bool ret = it != data_writers_.end();\n  if (ret) {\n    data_writers_.erase(it);\n    ret = it->second.topic_name.size() > 0 || ret;\n  }\n"))),
    B('mem-count-noend', ['C13'], meth('remove_writer', ("  bool ret = data_writers_.erase(gid) > 0;\n", "  auto it = data_writers_.find(gid);\n  bool ret = it->first == gid;\n  data_writers_.erase(gid);\n"))),
    ('mem-sec-dangle', S, [(S, "      result[el.first] = prefix + full_path.generic_string();", "      const char * full = full_path.generic_string().c_str();\n      result[el.first] = prefix + full;")], {'C80'}),
    ('mem-sec-ref', S, [(S, "    result[el.first] = attribute_value;", "    const std::string & v = result[el.first];\n    result.clear();\n    result[el.first] = attribute_value + v;")], {'C80'}),
    ('mem-sec-iter', S, [(S, "      result.clear();\n      return false;", "      for (auto it = result.begin(); it != result.end(); ++it) {\n        result.erase(it);\n      }\n      return false;")], {'C80'}),
    ('mem-sec-view', S, [(S, "  result = prefix + full_path.generic_string();", "  const std::string & dir = full_path.parent_path().generic_string() + \"/\";\n  const char * leaf = full_path.filename().c_str();\n  result = prefix + dir + leaf;")], {'C80'}),
    B('as-erase', ['C81'], meth('remove_writer', ("  bool ret = data_writers_.erase(gid) > 0;\n", "  bool ret = data_writers_.count(gid) > 0;\n  if (ret) {\n    assert(data_writers_.erase(gid) == 1u);\n  }\n"))),
    B('as-insert', ['C81'], meth('add_participant', ("    assert(ret.second);\n", "    assert(participants_[participant_gid].enclave.empty());\n"))),
    B('as-helper', ['C81'], (G, "bool\nGraphCache::remove_reader(", "static bool drop(std::map<rmw_gid_t, rmw_dds_common::EntityInfo, rmw_dds_common::Compare_rmw_gid_t> & m, const rmw_gid_t & g)\n{\n  return m.erase(g) == 1u;\n}\n\nbool\nGraphCache::remove_reader("), meth('remove_reader', ("  bool ret = data_readers_.erase(gid) > 0;\n", "  bool ret = data_readers_.count(gid) > 0;\n  if (ret) {\n    assert(drop(data_readers_, gid));\n  }\n"))),
    ('msg-swap', G, [('msg/NodeEntitiesInfo.msg', "string<=256 node_namespace\nstring<=256 node_name", "string<=256 node_name\nstring<=256 node_namespace")], {'C82'}),
    ('msg-gid24', G, [('msg/Gid.msg', "char[16]", "char[24]")], {'C82'}),
    ('msg-bound', G, [('msg/NodeEntitiesInfo.msg', "string<=256 node_name\n", "string<=255 node_name\n")], {'C82'}),
    ('msg-seq', G, [('msg/NodeEntitiesInfo.msg', "Gid[] reader", "Gid[<=128] reader")], {'C82'}),
    B('mem-ret-ref', ['C80'], meth('remove_node', ("  auto it = participants_.find(participant_gid);\n", "  const auto & key = [&]() -> const std::string & {\n      std::string k = node_namespace + node_name;\n      return k;\n    }();\n  auto it = participants_.find(participant_gid);\n  if (key.empty()) {\n    return {};\n  }\n"))),
]
REFACTORS = [
    ('mem-r-eraseloop', G, [meth('remove_node', ("  it->second.node_entities_info_seq.erase(to_remove);\n", "  auto & seq = it->second.node_entities_info_seq;\n  for (auto n = seq.begin(); n != seq.end(); ) {\n    if (n == to_remove) {\n      n = seq.erase(n);\n      break;\n    } else {\n      ++n;\n    }\n  }\n"))]),
    ('mem-r-erasebreak', G, [meth('dissociate_writer', ("      if (it != info.writer_gid_seq.end()) {\n        info.writer_gid_seq.erase(it);\n      }\n", "      bool done = false;\n      if (it != info.writer_gid_seq.end()) {\n        info.writer_gid_seq.erase(it);\n        done = true;\n      }\n      if (!done) {\n        (void)it;\n      }\n"))]),
    ('mem-r-reserve', G, [meth('add_node', ("  it->second.node_entities_info_seq.emplace_back(node_info);\n", "  auto & seq = it->second.node_entities_info_seq;\n  seq.reserve(seq.size() + 1);\n  auto & added = seq.emplace_back();\n  added = node_info;\n"))]),
    ('mem-r-mapiter', G, [meth('remove_writer', ("  bool ret = data_writers_.erase(gid) > 0;\n", "  auto it = data_writers_.find(gid);\n  bool ret = it != data_writers_.end();\n  if (ret) {\n    it = data_writers_.erase(it);\n  }\n"))]),
    ('mem-r-cstr', G, [(G, "rcutils_strdup(item.first.c_str(), *allocator);", "nullptr;\n    const std::string nm = item.first + \"\";\n    const char * raw = nm.c_str();\n    topic_name = rcutils_strdup(raw, *allocator);")]),
    ('mem-r-sec', S, [(S, "      result[el.first] = prefix + full_path.generic_string();", "      const std::string & full = full_path.generic_string();\n      result[el.first] = prefix + full.c_str();")]),
    ('mem-r-secvec', S, [(S, "  for (const std::pair<const std::string, std::string> & el : optional_files) {", "  std::vector<const std::string *> names;\n  for (const auto & f : optional_files) {\n    names.push_back(&f.first);\n  }\n  for (const std::pair<const std::string, std::string> & el : optional_files) {")]),
    ('as-r-more', G, [meth('remove_writer', ("  bool ret = data_writers_.erase(gid) > 0;\n", "  bool ret = data_writers_.erase(gid) > 0;\n  assert(data_writers_.find(gid) == data_writers_.end());\n  assert(data_writers_.count(gid) == 0u);\n"))]),
    ('msg-r-note', G, [('msg/Gid.msg', "char[16] data", "# sixteen bytes\nuint8[16] data  # raw")]),
    ('msg-r-const', G, [('msg/NodeEntitiesInfo.msg', "string<=256 node_namespace", "\nuint8 MAX=3\nstring<=256   node_namespace")]),
]
