"""Planted bugs for the gid, time, qos, context and graph cache code.  Their demonstrations compile the
repository's sources against small stand-ins for rcutils, rmw and rosidl (selftest/mini)."""
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = 'rmw_dds_common/'
GC, CX, QS = R + 'src/graph_cache.cpp', R + 'src/context.cpp', R + 'src/qos.cpp'
INC = '/tmp/w/seedinc'


def include():
    shutil.rmtree(INC, ignore_errors=True)
    shutil.copytree(V + '/stubs/include', INC)
    subprocess.run([sys.executable, V + '/tool/genmsg.py', '/repo/rmw_dds_common/msg', INC], check=True)


include()
SH = """#!/bin/bash
# Exit 0 when the property holds for the scenario, nonzero otherwise.  cwd: the repository.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
src=rmw_dds_common/src
g++ -std=c++17 -O1 -pthread -w -ffunction-sections -Wl,--gc-sections -I "$here/include" -I "$here" -I rmw_dds_common/include \\
  "$here/demo.cpp" "$here/impl.cpp" $src/graph_cache.cpp $src/gid_utils.cpp $src/context.cpp $src/qos.cpp $src/time_utils.cpp -o "$tmp/demo"
timeout 60 "$tmp/demo"
"""
HEAD = """#include <atomic>
#include <chrono>
#include <cstdlib>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <thread>
#include "mini.hpp"
#include "rmw/names_and_types.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rmw_dds_common/context.hpp"
#include "rmw_dds_common/gid_utils.hpp"
#include "rmw_dds_common/graph_cache.hpp"
#include "rmw_dds_common/qos.hpp"
#include "rmw_dds_common/time_utils.hpp"
using rmw_dds_common::GraphCache;
using rmw_dds_common::Context;
using namespace std::chrono_literals;
static const rmw_qos_profile_t Q{};
static std::string same(const std::string & s) {return s;}
static rosidl_type_hash_t hash(uint8_t v)
{
  rosidl_type_hash_t h{};
  h.version = 1;
  h.value[0] = v;
  return h;
}
"""
SEEDS = []


def seed(sid, prop, edits, needs, breaks, body, head='', flags=''):
    SEEDS.append({'id': sid, 'property': prop, 'edits': edits, 'needs': needs, 'breaks': breaks,
                  'files':  {'demo.sh': SH.replace('-O1', '-O1' + flags).replace('timeout 60', 'ASAN_OPTIONS=detect_leaks=0 timeout 60' if 'sanitize' in flags else 'timeout 60'), 'demo.cpp': HEAD + head + 'int main()\n{\n' + body + '  std::puts("holds");\n  return 0;\n}\n'},
                  'copy': [(INC, 'include'), (V + '/selftest/mini/impl.cpp', 'impl.cpp'), (V + '/selftest/mini/mini.hpp', 'mini.hpp')]})


# --------------------------------------------------------------------------------- graph cache
seed('gc-names-unlocked', 'C10', [(GC, """  {
    std::lock_guard<std::mutex> guard(mutex_);
    __get_names_and_types(
      data_readers_,
      demangle_topic,
      demangle_type,
      topics);
    __get_names_and_types(""", """  {
    std::lock_guard<std::mutex> guard(mutex_);
    __get_names_and_types(
      data_readers_,
      demangle_topic,
      demangle_type,
      topics);
  }
  {
    __get_names_and_types(""")],
     'a topic query from one thread while another thread changes the writers',
     'get_names_and_types walks the discovered writers without holding the mutex, so a concurrent add_writer is a data race', """
  GraphCache g;
  for (int k = 1; k < 100; ++k) {
    g.add_reader(gid(k), "in", "t", gid(9), Q);
  }
  std::atomic<bool> go{false}, stop{false};
  std::thread other([&]() {
      go = true;
      for (int i = 0; i < 300 || !stop; ++i) {
        g.add_writer(gid(1 + i % 100), "out", "t", gid(9), Q);
        g.remove_writer(gid(1 + (i + 50) % 100));
      }
    });
  while (!go) {}
  for (int i = 0; i < 300; ++i) {      // run under the thread sanitizer
    Heap h;
    rmw_names_and_types_t n{};
    CHECK(g.get_names_and_types(same, same, &h.a, &n) == RMW_RET_OK);
  }
  stop = true;
  other.join();
""", flags=' -fsanitize=thread')

seed('gc-remove-log', 'C11', [(GC, """  bool ret = participants_.erase(participant_gid) > 0;
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, ret);
""", """  bool ret = participants_.erase(participant_gid) > 0;
  if (!ret) {
    RCUTILS_LOG_DEBUG_NAMED(
      log_tag, "unknown participant, %zu nodes in the graph", this->get_number_of_nodes());
  }
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, ret);
""")],
     'removing a participant that is not in the cache',
     'remove_participant calls another locking member while it holds the mutex and never returns', """
  GraphCache g;
  g.add_participant(gid(1), "/");
  CHECK(g.remove_participant(gid(1)));
  std::thread([] {std::this_thread::sleep_for(3s); std::puts("blocked"); std::_Exit(1);}).detach();
  CHECK(!g.remove_participant(gid(1)));
""")

seed('gc-quiet-enclave', 'C12', [(GC, """  it->second.enclave = enclave;
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
""", """  const bool changed = it->second.enclave.empty();
  it->second.enclave = enclave;
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, changed);
""")],
     'a participant announced a second time with a different enclave',
     'the second announcement changes the enclave without notifying', """
  GraphCache g;
  int calls = 0;
  g.set_on_change_callback([&] {++calls;});
  g.add_participant(gid(1), "/a");
  CHECK(calls == 1);
  g.add_participant(gid(1), "/b");
  CHECK(calls == 2);
""")

seed('gc-writer-readd', 'C13', [(GC, """  std::lock_guard<std::mutex> guard(mutex_);
  auto pair = data_writers_.emplace(""", """  std::lock_guard<std::mutex> guard(mutex_);
  auto known = data_writers_.find(gid);
  if (known != data_writers_.end() && known->second.topic_name != topic_name) {
    // a stale entry
    data_writers_.erase(known);
  }
  auto pair = data_writers_.emplace(""")],
     'a writer gid announced twice, for different topics',
     'the second announcement replaces the first and reports an insertion', """
  GraphCache g;
  CHECK(g.add_writer(gid(1), "a", "t", gid(9), Q));
  CHECK(!g.add_writer(gid(1), "a", "t", gid(9), Q));
  CHECK(!g.add_writer(gid(1), "b", "t", gid(9), Q));
  size_t n = 7;
  CHECK(g.get_writer_count("a", &n) == RMW_RET_OK && n == 1);
""")

seed('gc-remove-either', 'C14', [(GC, """  if (is_reader) {
    return this->remove_reader(gid);
  }
  return this->remove_writer(gid);
""", """  if (is_reader && this->remove_reader(gid)) {
    return true;
  }
  return this->remove_writer(gid);
""")],
     'removing a reader that is not known, with the gid of a known writer',
     'the writer with that gid is removed instead', """
  GraphCache g;
  g.add_writer(gid(1), "a", "t", gid(9), Q);
  CHECK(!g.remove_entity(gid(1), true));
  size_t n = 7;
  CHECK(g.get_writer_count("a", &n) == RMW_RET_OK && n == 1);
""")

seed('gc-entity-hash', 'C15', [(GC, """      topic_name,
      type_name,
      type_hash,
      participant_gid,
      qos);
  }
  return this->add_writer(""", """      topic_name,
      type_name,
      participant_gid,
      qos);
  }
  return this->add_writer(""")],
     'a reader added through add_entity with a type hash, then looked at by topic',
     'the type hash of a reader announced through add_entity is lost', """
  GraphCache g;
  g.add_entity(gid(1), "a", "t", hash(5), gid(9), Q, true);
  Heap h;
  rmw_topic_endpoint_info_array_t x{};
  CHECK(g.get_readers_info_by_topic("a", same, &h.a, &x) == RMW_RET_OK);
  CHECK(x.size == 1 && x.info_array[0].topic_type_hash.version == 1 && x.info_array[0].topic_type_hash.value[0] == 5);
""")

seed('gc-update-forgets', 'C16', [(GC, """  auto it = participants_.find(gid);
  if (participants_.end() == it) {
    auto ret = participants_.emplace(
      std::piecewise_construct,
      std::forward_as_tuple(gid),
      std::forward_as_tuple());
    it = ret.first;
    assert(ret.second);
  }
  it->second.node_entities_info_seq = msg.node_entities_info_seq;
""", """  auto it = participants_.find(gid);
  if (participants_.end() != it && msg.node_entities_info_seq.empty()) {
    // all nodes of the participant are gone
    participants_.erase(it);
    it = participants_.end();
  }
  if (participants_.end() == it) {
    auto ret = participants_.emplace(
      std::piecewise_construct,
      std::forward_as_tuple(gid),
      std::forward_as_tuple());
    it = ret.first;
    assert(ret.second);
  }
  it->second.node_entities_info_seq = msg.node_entities_info_seq;
""")],
     'a participant with an enclave announces no nodes, and a node later',
     'the enclave of the participant is forgotten by the empty announcement', """
  GraphCache g;
  g.add_participant(gid(1), "/e");
  rmw_dds_common::msg::ParticipantEntitiesInfo m;
  rmw_gid_t p = gid(1);
  rmw_dds_common::convert_gid_to_msg(&p, &m.gid);
  g.update_participant_entities(m);
  m.node_entities_info_seq.emplace_back();
  m.node_entities_info_seq[0].node_name = "n";
  m.node_entities_info_seq[0].node_namespace = "/";
  g.update_participant_entities(m);
  Heap h;
  rcutils_string_array_t a{}, b{}, c{};
  CHECK(g.get_node_names(&a, &b, &c, &h.a) == RMW_RET_OK);
  CHECK(c.size == 1 && c.data[0] == std::string("/e"));
""")

seed('gc-remove-node-last', 'C17', [(GC, """      return node_info.node_name == node_name && node_info.node_namespace == node_namespace;
    });

  assert(to_remove != it->second.node_entities_info_seq.end());

  it->second.node_entities_info_seq.erase(to_remove);
""", """      return node_info.node_name == node_name && node_info.node_namespace == node_namespace;
    });

  assert(to_remove != it->second.node_entities_info_seq.end());

  // constant time removal
  std::swap(*to_remove, it->second.node_entities_info_seq.back());
  it->second.node_entities_info_seq.pop_back();
""")],
     'removing a node that is not the last one of a participant with three nodes',
     'the remaining nodes change places, so duplicates are not removed oldest first and the announced order changes', """
  GraphCache g;
  g.add_participant(gid(1), "/");
  g.add_node(gid(1), "a", "/");
  g.add_node(gid(1), "b", "/");
  g.add_node(gid(1), "c", "/");
  auto m = g.remove_node(gid(1), "a", "/");
  CHECK(m.node_entities_info_seq.size() == 2);
  CHECK(m.node_entities_info_seq[0].node_name == "b" && m.node_entities_info_seq[1].node_name == "c");
""")

seed('gc-dissociate-prefix', 'C18', [(GC, """        [&](const rmw_dds_common::msg::Gid & gid)
        {
          return gid == reader_gid_msg;
        });
""", """        [&](const rmw_dds_common::msg::Gid & gid)
        {
          return std::equal(gid.data.begin(), gid.data.begin() + 12, reader_gid_msg.data.begin()) &&
                 gid.data.back() == reader_gid_msg.data.back();
        });
""")],
     'two readers of a node whose gids differ only in the entity id bytes',
     'the wrong reader is dissociated: gids that agree in prefix and kind are confused', """
  GraphCache g;
  g.add_participant(gid(1), "/");
  g.add_node(gid(1), "a", "/");
  rmw_gid_t r1 = gid(5, 7), r2 = gid(5, 7);
  r1.data[13] = 1;
  r2.data[13] = 2;
  g.associate_reader(r1, gid(1), "a", "/");
  g.associate_reader(r2, gid(1), "a", "/");
  auto m = g.dissociate_reader(r2, gid(1), "a", "/");
  CHECK(m.node_entities_info_seq[0].reader_gid_seq.size() == 1);
  CHECK(m.node_entities_info_seq[0].reader_gid_seq[0].data[13] == 1);
""")

seed('gc-message-idle', 'C19', [(GC, """  rmw_dds_common::convert_gid_to_msg(&gid, &msg.gid);
  msg.node_entities_info_seq = info;
  return msg;
""", """  rmw_dds_common::convert_gid_to_msg(&gid, &msg.gid);
  for (const auto & node_info : info) {
    // nodes that lost all their endpoints are on their way out
    if (info.size() > 2u && node_info.reader_gid_seq.empty() && node_info.writer_gid_seq.empty()) {
      continue;
    }
    msg.node_entities_info_seq.push_back(node_info);
  }
  return msg;
""")],
     'a participant with more than two nodes, one of them without endpoints',
     'the announcement leaves out nodes without endpoints, so remote graphs lose them', """
  GraphCache g;
  g.add_participant(gid(1), "/");
  g.add_node(gid(1), "a", "/");
  CHECK(g.add_node(gid(1), "b", "/").node_entities_info_seq.size() == 2);
  CHECK(g.add_node(gid(1), "c", "/").node_entities_info_seq.size() == 3);
""")

seed('gc-query-prunes', 'C20', [(GC, """    auto it = entities_map.find(gid);
    if (it == entities_map.end()) {
      continue;
    }
""", """    auto it = entities_map.find(gid);
    if (it == entities_map.end()) {
      // the endpoint is gone: forget about it
      const_cast<rmw_dds_common::msg::Gid &>(gid_msg) = rmw_dds_common::msg::Gid();
      continue;
    }
""")],
     'a node is announced, queried, and its endpoint discovered only afterwards',
     'the query drops the endpoint of the node, which stays invisible after its discovery', """
  GraphCache g;
  g.add_participant(gid(1), "/");
  g.add_node(gid(1), "a", "/");
  g.associate_reader(gid(5), gid(1), "a", "/");
  Heap h;
  rmw_names_and_types_t n{};
  CHECK(g.get_reader_names_and_types_by_node("a", "/", same, same, &h.a, &n) == RMW_RET_OK && n.names.size == 0);
  g.add_reader(gid(5), "topic", "t", gid(1), Q);
  CHECK(g.get_reader_names_and_types_by_node("a", "/", same, same, &h.a, &n) == RMW_RET_OK && n.names.size == 1);
""")

seed('gc-count-prefix', 'C21', [(GC, """      return elem.second.topic_name == topic_name;
    });
  return RMW_RET_OK;
""", """      return 0 == elem.second.topic_name.compare(0, topic_name.size(), topic_name);
    });
  return RMW_RET_OK;
""")],
     'two topics, the name of one being a prefix of the name of the other',
     'endpoints of the longer topic are counted for the shorter one', """
  GraphCache g;
  g.add_writer(gid(1), "rt/chatter", "t", gid(9), Q);
  g.add_writer(gid(2), "rt/chatter_raw", "t", gid(9), Q);
  size_t n = 7;
  CHECK(g.get_writer_count("rt/chatter_raw", &n) == RMW_RET_OK && n == 1);
  CHECK(g.get_writer_count("rt/chatter", &n) == RMW_RET_OK && n == 1);
""")

seed('gc-info-untyped', 'C22', [(GC, """    if (entity_pair.second.topic_name != topic_name) {
      continue;
    }
""", """    if (entity_pair.second.topic_name != topic_name || entity_pair.second.topic_type.empty()) {
      continue;
    }
""")],
     'an endpoint of the topic whose type name is empty',
     'the endpoint is counted but not described: the array ends with an empty entry', """
  GraphCache g;
  g.add_writer(gid(1), "a", "", gid(9), Q);
  g.add_writer(gid(2), "a", "t", gid(9), Q);
  Heap h;
  rmw_topic_endpoint_info_array_t x{};
  CHECK(g.get_writers_info_by_topic("a", same, &h.a, &x) == RMW_RET_OK && x.size == 2);
  CHECK(x.info_array[0].endpoint_gid[0] == 1 && x.info_array[1].endpoint_gid[0] == 2);
""")

seed('gc-creator-bare', 'C23', [(GC, """  if (participant_map.end() == it) {
    return {"", "", EndpointCreator::BARE_DDS_PARTICIPANT};
  }
""", """  if (participant_map.end() == it || it->second.node_entities_info_seq.empty()) {
    return {"", "", EndpointCreator::BARE_DDS_PARTICIPANT};
  }
""")],
     'an endpoint of a ROS participant whose nodes have not been announced yet',
     'the endpoint is attributed to a bare DDS application instead of an unknown node', """
  GraphCache g;
  g.add_participant(gid(9), "/");
  g.add_writer(gid(1), "a", "t", gid(9), Q);
  Heap h;
  rmw_topic_endpoint_info_array_t x{};
  CHECK(g.get_writers_info_by_topic("a", same, &h.a, &x) == RMW_RET_OK && x.size == 1);
  CHECK(x.info_array[0].node_name == std::string("_NODE_NAME_UNKNOWN_"));
""")

seed('gc-late-store', 'C24', [(GC, """    topic_names_and_types->names.data[index] = topic_name;

    {
      rcutils_ret_t rcutils_ret = rcutils_string_array_init(
        &topic_names_and_types->types[index],
        item.second.size(),
        allocator);
      if (RCUTILS_RET_OK != rcutils_ret) {
        RMW_SET_ERROR_MSG(rcutils_get_error_string().str);
        rmw_ret = rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret);
        goto cleanup;
      }
    }
""", """
    {
      rcutils_ret_t rcutils_ret = rcutils_string_array_init(
        &topic_names_and_types->types[index],
        item.second.size(),
        allocator);
      if (RCUTILS_RET_OK != rcutils_ret) {
        RMW_SET_ERROR_MSG(rcutils_get_error_string().str);
        rmw_ret = rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret);
        goto cleanup;
      }
    }
    topic_names_and_types->names.data[index] = topic_name;
""")],
     'an allocation failure at one particular allocation of a topic query',
     'the topic name copied just before the failing allocation is leaked', """
  GraphCache g;
  g.add_writer(gid(1), "a", "t", gid(9), Q);
  g.add_writer(gid(2), "b", "u", gid(9), Q);
  for (int k = 1; k < 40; ++k) {
    Heap h;
    h.fail_at = k;
    rmw_names_and_types_t n{};
    rmw_ret_t r = g.get_names_and_types(same, same, &h.a, &n);
    CHECK(r == RMW_RET_OK || h.live.empty());
    CHECK(h.wrong == 0);
  }
""")

seed('gc-node-break', 'C25', [(GC, """    std::string demangled_topic_name = demangle_topic(it->second.topic_name);
    if ("" == demangled_topic_name) {
      continue;
    }
    topics[demangled_topic_name]""", """    std::string demangled_topic_name = demangle_topic(it->second.topic_name);
    if ("" == demangled_topic_name) {
      break;
    }
    topics[demangled_topic_name]""")],
     'a node whose first endpoint is not visible after demangling (a service request), followed by a visible one',
     'the topics of all later endpoints of the node are missing', """
  GraphCache g;
  g.add_participant(gid(1), "/");
  g.add_node(gid(1), "a", "/");
  g.associate_writer(gid(5), gid(1), "a", "/");
  g.associate_writer(gid(6), gid(1), "a", "/");
  g.add_writer(gid(5), "rq/s", "t", gid(1), Q);
  g.add_writer(gid(6), "rt/x", "t", gid(1), Q);
  Heap h;
  rmw_names_and_types_t n{};
  auto topics = [](const std::string & s) {return s.substr(0, 3) == "rt/" ? s : std::string();};
  CHECK(g.get_writer_names_and_types_by_node("a", "/", topics, same, &h.a, &n) == RMW_RET_OK && n.names.size == 1);
""")

seed('gc-one-type', 'C26', [(GC, """    if ("" != demangled_topic_name) {
      topics[demangled_topic_name].insert(demangle_type(item.second.topic_type));
    }
""", """    if ("" != demangled_topic_name) {
      topics.emplace(
        demangled_topic_name, std::set<std::string>{demangle_type(item.second.topic_type)});
    }
""")],
     'a topic used with two different types',
     'only the first type of a topic is listed', """
  GraphCache g;
  g.add_writer(gid(1), "a", "t", gid(9), Q);
  g.add_writer(gid(2), "a", "u", gid(9), Q);
  Heap h;
  rmw_names_and_types_t n{};
  CHECK(g.get_names_and_types(same, same, &h.a, &n) == RMW_RET_OK && n.names.size == 1);
  CHECK(n.types[0].size == 2);
""")

seed('gc-enclave-index', 'C27', [(GC, """    size_t j = 0;
    for (const auto & elem : participants_) {
      const auto & nodes_info = elem.second;
""", """    size_t j = 0;
    size_t k = 0;
    for (const auto & elem : participants_) {
      const auto & nodes_info = elem.second;
"""), (GC, """          enclaves->data[j] = rcutils_strdup(
            nodes_info.enclave.c_str(), *allocator);
          if (!enclaves->data[j]) {
            goto fail;
          }
        }
""", """          enclaves->data[k] = rcutils_strdup(
            nodes_info.enclave.c_str(), *allocator);
          if (!enclaves->data[k]) {
            goto fail;
          }
          k += nodes_info.enclave.empty() ? 0 : 1;
        }
""")],
     'a participant without enclave (announced before it was discovered) next to one with an enclave',
     'enclaves are shifted against node names, and an earlier copy is leaked', """
  GraphCache g;
  g.add_participant(gid(1), "");
  g.add_participant(gid(2), "/e");
  g.add_node(gid(1), "a", "/");
  g.add_node(gid(2), "b", "/");
  Heap h;
  rcutils_string_array_t a{}, b{}, c{};
  CHECK(g.get_node_names(&a, &b, &c, &h.a) == RMW_RET_OK && c.size == 2);
  CHECK(c.data[0] && c.data[1] && c.data[0] == std::string("") && c.data[1] == std::string("/e"));
""")

seed('gc-late-check', 'C28', [(GC, """  if (
    enclaves &&
    RMW_RET_OK != rmw_check_zero_rmw_string_array(enclaves))
  {
    return RMW_RET_INVALID_ARGUMENT;
  }
""", ''), (GC, """  if (enclaves) {
    rcutils_ret =
      rcutils_string_array_init(enclaves, nodes_number, allocator);
""", """  if (enclaves) {
    if (RMW_RET_OK != rmw_check_zero_rmw_string_array(enclaves)) {
      return RMW_RET_INVALID_ARGUMENT;
    }
    rcutils_ret =
      rcutils_string_array_init(enclaves, nodes_number, allocator);
""")],
     'an enclaves array that is not zero initialized',
     'the call is rejected only after the other two arrays have been allocated', """
  GraphCache g;
  g.add_participant(gid(1), "/");
  g.add_node(gid(1), "a", "/");
  Heap h;
  rcutils_string_array_t a{}, b{}, c{};
  c.size = 3;
  CHECK(g.get_node_names(&a, &b, &c, &h.a) == RMW_RET_INVALID_ARGUMENT);
  CHECK(h.calls == 0 && a.data == nullptr && b.data == nullptr);
""")

seed('gc-foreign-alloc', 'C29', [(GC, """      char * type_name = rcutils_strdup(type.c_str(), *allocator);
""", """      char * type_name = rcutils_strdup(type.c_str(), rcutils_get_default_allocator());
""")],
     'a caller whose allocator is not the default one',
     'type names come from the default allocator and are handed to the deallocator of the caller', """
  GraphCache g;
  g.add_writer(gid(1), "a", "t", gid(9), Q);
  Heap h;
  rmw_names_and_types_t n{};
  CHECK(g.get_names_and_types(same, same, &h.a, &n) == RMW_RET_OK);
  CHECK(n.types[0].size == 1 && h.live.count(n.types[0].data[0]) == 1);
""")

CTX = """static Context * make(Context::publish_callback_t f)
{
  Context * c = new Context{};
  c->gid = gid(1);
  c->pub = new rmw_publisher_t{};
  c->publish_callback = f;
  c->graph_cache.add_participant(c->gid, "/");
  return c;
}
using Msg = rmw_dds_common::msg::ParticipantEntitiesInfo;
"""

seed('cx-early-unlock', 'C30', [(CX, """  std::lock_guard<std::mutex> guard(node_update_mutex);
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.remove_node(gid, name, namespace_);

  if (!call_publish_callback""", """  rmw_dds_common::msg::ParticipantEntitiesInfo msg;
  {
    std::lock_guard<std::mutex> guard(node_update_mutex);
    msg = graph_cache.remove_node(gid, name, namespace_);
  }

  if (!call_publish_callback""")],
     'two threads updating the graph, one of them removing a node, in a particular interleaving',
     'an older state can be published after a newer one: the remote graphs keep the older state', """
  std::atomic<int> turn{0};
  std::vector<size_t> sent;
  Context * c = make([&](const rmw_publisher_t *, const void * m) {
      size_t n = static_cast<const Msg *>(m)->node_entities_info_seq.size();
      if (turn == 1) {
        turn = 2;
        std::this_thread::sleep_for(400ms);      // a slow publish of the removal
      }
      sent.push_back(n);
      return RMW_RET_OK;
    });
  c->add_node_graph("a", "/");
  c->add_node_graph("b", "/");
  turn = 1;
  std::thread t([&] {c->remove_node_graph("a", "/");});
  while (turn != 2) {std::this_thread::sleep_for(1ms);}
  c->add_node_graph("c", "/");
  t.join();
  // states: a | a b | b | b c
  CHECK(sent.size() == 4 && sent[2] == 1 && sent[3] == 2);
""", CTX)

seed('cx-client-rollback', 'C31', [(CX, """    static_cast<void>(graph_cache.dissociate_reader(
      response_subscriber_gid, gid, name, namespace_));
    static_cast<void>(graph_cache.dissociate_writer(
      request_publisher_gid, gid, name, namespace_));
    return RMW_RET_ERROR;
""", """    static_cast<void>(graph_cache.dissociate_reader(
      response_subscriber_gid, gid, name, namespace_));
    static_cast<void>(graph_cache.dissociate_reader(
      request_publisher_gid, gid, name, namespace_));
    return RMW_RET_ERROR;
""")],
     'a publish failure while a client is created',
     'the request publisher of the client that could not be announced stays on the node', """
  bool fail = false;
  size_t writers = 9;
  Context * c = make([&](const rmw_publisher_t *, const void * m) {
      auto & s = static_cast<const Msg *>(m)->node_entities_info_seq;
      writers = s.empty() ? 0 : s[0].writer_gid_seq.size();
      return fail ? RMW_RET_ERROR : RMW_RET_OK;
    });
  c->add_node_graph("a", "/");
  fail = true;
  CHECK(c->add_client_graph(gid(3), gid(4), "a", "/") == RMW_RET_ERROR);
  fail = false;
  CHECK(c->add_subscriber_graph(gid(5), "a", "/") == RMW_RET_OK);
  CHECK(writers == 0);
""", CTX)

seed('cx-service-remove', 'C32', [(CX, """  graph_cache.dissociate_reader(
    request_subscriber_gid, gid, name, namespace_);

  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.dissociate_writer(
    response_publisher_gid, gid, name, namespace_);
""", """  graph_cache.dissociate_reader(
    response_publisher_gid, gid, name, namespace_);

  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.dissociate_writer(
    response_publisher_gid, gid, name, namespace_);
""")],
     'destroying a service and looking at the endpoints announced afterwards',
     'the request subscription of a destroyed service is announced for ever', """
  size_t readers = 9, writers = 9;
  Context * c = make([&](const rmw_publisher_t *, const void * m) {
      auto & s = static_cast<const Msg *>(m)->node_entities_info_seq;
      readers = s[0].reader_gid_seq.size();
      writers = s[0].writer_gid_seq.size();
      return RMW_RET_OK;
    });
  c->add_node_graph("a", "/");
  c->add_service_graph(gid(3), gid(4), "a", "/");
  CHECK(readers == 1 && writers == 1);
  c->remove_service_graph(gid(3), gid(4), "a", "/");
  CHECK(readers == 0 && writers == 0);
""", CTX)

seed('cx-publish-twice', 'C33', [(CX, """  if (nullptr == pub || nullptr == publish_callback ||
    RMW_RET_OK != publish_callback(pub, static_cast<const void *>(&msg)))
  {
    return false;
  }
  return true;
""", """  if (nullptr == pub || nullptr == publish_callback) {
    return false;
  }
  rmw_ret_t ret = publish_callback(pub, static_cast<const void *>(&msg));
  if (RMW_RET_TIMEOUT == ret) {
    // the history is full: give the middleware another chance
    ret = publish_callback(pub, static_cast<const void *>(&msg));
  }
  return RMW_RET_OK == ret;
""")],
     'a publish that times out',
     'the update is announced twice', """
  int calls = 0;
  Context * c = make([&](const rmw_publisher_t *, const void *) {++calls; return calls == 2 ? RMW_RET_TIMEOUT : RMW_RET_OK;});
  c->add_node_graph("a", "/");
  CHECK(calls == 1);
  CHECK(c->add_node_graph("b", "/") == RMW_RET_ERROR);
  CHECK(calls == 2);
""", CTX)

# ----------------------------------------------------------------------------------------- qos
QH = """static rmw_qos_profile_t base()
{
  rmw_qos_profile_t q{};
  q.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;
  q.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE;
  q.liveliness = RMW_QOS_POLICY_LIVELINESS_AUTOMATIC;
  q.deadline = RMW_QOS_DEADLINE_DEFAULT;
  q.liveliness_lease_duration = RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT;
  return q;
}
static rmw_topic_endpoint_info_array_t array(std::vector<rmw_topic_endpoint_info_t> & v)
{
  rmw_topic_endpoint_info_array_t a{};
  a.size = v.size();
  a.info_array = v.data();
  return a;
}
static rmw_topic_endpoint_info_t info(rmw_qos_profile_t q)
{
  rmw_topic_endpoint_info_t i{};
  i.qos_profile = q;
  return i;
}
using namespace rmw_dds_common;
"""

seed('qos-lease-half', 'C40', [(QS, """  if (pub_lease == liveliness_lease_duration_default &&
    sub_lease != liveliness_lease_duration_default)
""", """  if (pub_lease == liveliness_lease_duration_default &&
    sub_lease != liveliness_lease_duration_default && sub_lease.sec != 0u)
""")],
     'a subscription lease duration below one second and a publisher without one',
     'a lease duration of less than a second is not reported as incompatible', """
  rmw_qos_profile_t p = base(), s = base();
  s.liveliness_lease_duration = {0, 500000000};
  rmw_qos_compatibility_type_t c;
  CHECK(qos_profile_check_compatible(p, s, &c, nullptr, 0) == RMW_RET_OK && c == RMW_QOS_COMPATIBILITY_ERROR);
  s.liveliness_lease_duration = {1, 0};
  CHECK(qos_profile_check_compatible(p, s, &c, nullptr, 0) == RMW_RET_OK && c == RMW_QOS_COMPATIBILITY_ERROR);
""", QH)

seed('qos-less-seconds', 'C41', [(QS, """  if (t1.sec < t2.sec) {
    return true;
  } else if (t1.sec == t2.sec && t1.nsec < t2.nsec) {
    return true;
  }
  return false;
""", """  constexpr uint64_t sec_to_ns = 1000000000ULL;
  return t1.sec * sec_to_ns + t1.nsec < t2.sec * sec_to_ns + t2.nsec;
""")],
     'deadlines of more than about 584 years, where the total number of nanoseconds wraps around',
     'long durations compare as short ones', """
  rmw_qos_profile_t p = base(), s = base();
  p.deadline = {18446744074ULL, 0};
  s.deadline = {2, 0};
  rmw_qos_compatibility_type_t c;
  CHECK(qos_profile_check_compatible(p, s, &c, nullptr, 0) == RMW_RET_OK && c == RMW_QOS_COMPATIBILITY_ERROR);
""", QH)

seed('qos-warn-unknown', 'C42', [(QS, """    const bool sub_durability_unknown =
      subscription_qos.durability == RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT ||
      subscription_qos.durability == RMW_QOS_POLICY_DURABILITY_UNKNOWN;
""", """    const bool sub_durability_unknown =
      subscription_qos.durability == RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT ||
      publisher_qos.durability == RMW_QOS_POLICY_DURABILITY_UNKNOWN;
""")],
     'a volatile publisher and a subscription with unknown durability',
     'no warning is given for the undetermined pair', """
  rmw_qos_profile_t p = base(), s = base();
  s.durability = RMW_QOS_POLICY_DURABILITY_UNKNOWN;
  rmw_qos_compatibility_type_t c;
  CHECK(qos_profile_check_compatible(p, s, &c, nullptr, 0) == RMW_RET_OK && c == RMW_QOS_COMPATIBILITY_WARNING);
""", QH)

seed('qos-reason-room', 'C43', [(QS, """  int snprintf_ret = rcutils_vsnprintf(buffer + offset, write_size, format, args);
  va_end(args);
  if (snprintf_ret < 0) {
""", """  int snprintf_ret = rcutils_vsnprintf(buffer + offset, write_size, format, args);
  va_end(args);
  if (offset == 0u && snprintf_ret > 0 && static_cast<size_t>(snprintf_ret) >= write_size) {
    // never hand out half a sentence
    buffer[0] = '\\0';
  }
  if (snprintf_ret < 0) {
""")],
     'a reason buffer that is smaller than the first message',
     'the reason stays empty although the pair is incompatible', """
  rmw_qos_profile_t p = base(), s = base();
  p.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT;
  rmw_qos_compatibility_type_t c;
  char reason[20];
  CHECK(qos_profile_check_compatible(p, s, &c, reason, sizeof(reason)) == RMW_RET_OK);
  CHECK(std::string(reason) == std::string("ERROR: Best effort publisher and reliable subscription;").substr(0, 19));
""", QH)

seed('qos-sub-largest', 'C44', [(QS, """    if (profile.deadline != deadline_default) {
      use_default_deadline = false;
      if (largest_deadline < profile.deadline) {
        largest_deadline = profile.deadline;
      }
    }
    if (profile.liveliness_lease_duration != liveliness_lease_duration_default) {
      use_default_liveliness_lease_duration = false;
      if (largest_liveliness""", """    if (profile.deadline != deadline_default) {
      use_default_deadline = false;
      if (largest_deadline.sec < profile.deadline.sec) {
        largest_deadline = profile.deadline;
      }
    }
    if (profile.liveliness_lease_duration != liveliness_lease_duration_default) {
      use_default_liveliness_lease_duration = false;
      if (largest_liveliness""")],
     'publishers whose deadlines have the same number of seconds',
     'the subscription asks for a deadline that is shorter than one that is offered', """
  rmw_qos_profile_t q = base();
  std::vector<rmw_topic_endpoint_info_t> v;
  q.deadline = {1, 5};
  v.push_back(info(q));
  q.deadline = {1, 7};
  v.push_back(info(q));
  auto a = array(v);
  rmw_qos_profile_t r = base();
  r.deadline = RMW_QOS_DEADLINE_BEST_AVAILABLE;
  CHECK(qos_profile_get_best_available_for_subscription(&a, &r) == RMW_RET_OK);
  CHECK(r.deadline.sec == 1 && r.deadline.nsec == 7);
""", QH)

seed('qos-pub-manual', 'C45', [(QS, """    if (RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC == profile.liveliness) {
      use_manual_by_topic = true;
    }
""", """    use_manual_by_topic = RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC == profile.liveliness;
""")],
     'two subscriptions, only the first of them with manual liveliness',
     'the last subscription decides, and the publisher is incompatible with the first', """
  rmw_qos_profile_t q = base();
  std::vector<rmw_topic_endpoint_info_t> v;
  q.liveliness = RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC;
  v.push_back(info(q));
  v.push_back(info(base()));
  auto a = array(v);
  rmw_qos_profile_t r = base();
  r.liveliness = RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE;
  CHECK(qos_profile_get_best_available_for_publisher(&a, &r) == RMW_RET_OK);
  CHECK(r.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC);
""", QH)

seed('qos-sub-history', 'C46', [(QS, """      subscription_profile->durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
    } else {""", """      subscription_profile->durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
      if (0u == subscription_profile->depth) {
        subscription_profile->depth = 1u;
      }
    } else {""")],
     'a subscription with depth 0 whose publishers are all transient local',
     'resolving the durability changes the depth, which is not a best-available policy', """
  rmw_qos_profile_t q = base();
  q.durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
  std::vector<rmw_topic_endpoint_info_t> v{info(q)};
  auto a = array(v);
  rmw_qos_profile_t r = base();
  r.durability = RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE;
  CHECK(qos_profile_get_best_available_for_subscription(&a, &r) == RMW_RET_OK);
  CHECK(r.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL && r.depth == 0);
""", QH)

TOPIC = QH + """struct World
{
  World() {ctx.options.allocator = h.a; node.context = &ctx;}
  Heap h;
  rmw_context_t ctx{};
  rmw_node_t node{};
};
"""
seed('qos-topic-lease', 'C47', [(QS, """  if (liveliness_lease_duration_best_available == qos_profile.liveliness_lease_duration) {
    return true;
  }
  return false;
""", """  return false;
""")],
     'a profile in which only the lease duration is best available',
     'the endpoints are not queried and the lease duration is not resolved', """
  World w;
  int calls = 0;
  auto f = [&](const rmw_node_t *, rcutils_allocator_t * a, const char *, bool, rmw_topic_endpoint_info_array_t * x) {
      ++calls;
      return rmw_topic_endpoint_info_array_init_with_size(x, 1, a);
    };
  rmw_qos_profile_t r = base();
  r.liveliness_lease_duration = RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE;
  CHECK(qos_profile_get_best_available_for_topic_publisher(&w.node, "t", &r, f) == RMW_RET_OK);
  CHECK(calls == 1 && w.h.live.empty());
""", TOPIC)

seed('qos-service-lease', 'C48', [(QS, """  if (liveliness_lease_duration_best_available == result.liveliness_lease_duration) {
    result.liveliness_lease_duration = rmw_qos_profile_services_default.liveliness_lease_duration;
  }
  return result;
""", """  if (deadline_best_available == result.liveliness_lease_duration) {
    result.deadline = rmw_qos_profile_services_default.deadline;
    result.liveliness_lease_duration = rmw_qos_profile_services_default.liveliness_lease_duration;
  }
  return result;
""")],
     'a service profile with an explicit deadline and a best available lease duration',
     'the explicit deadline is overwritten', """
  rmw_qos_profile_t r = base();
  r.deadline = {3, 0};
  r.liveliness_lease_duration = RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE;
  r = qos_profile_update_best_available_for_services(r);
  CHECK(r.deadline.sec == 3);
""", QH)

seed('qos-pub-start', 'C45', [(QS, """  rmw_time_t smallest_deadline = RMW_DURATION_INFINITE;
""", """  rmw_time_t smallest_deadline = {0x7fffffffULL, 0u};
""")],
     'subscriptions whose deadlines are all longer than 68 years but shorter than the infinite duration',
     'the publisher gets an invented deadline instead of the smallest one of the subscriptions', """
  rmw_qos_profile_t q = base();
  q.deadline = {0x80000000ULL, 5};
  std::vector<rmw_topic_endpoint_info_t> v{info(q)};
  auto a = array(v);
  rmw_qos_profile_t r = base();
  r.deadline = RMW_QOS_DEADLINE_BEST_AVAILABLE;
  CHECK(qos_profile_get_best_available_for_publisher(&a, &r) == RMW_RET_OK);
  CHECK(r.deadline.sec == 0x80000000ULL && r.deadline.nsec == 5);
""", QH)

seed('qos-pub-infinite', 'C49', [(QS, """    if (use_default_deadline) {
      publisher_profile->deadline = RMW_QOS_DEADLINE_DEFAULT;
""", """    if (use_default_deadline || smallest_deadline == rmw_time_t RMW_DURATION_INFINITE) {
      publisher_profile->deadline = RMW_QOS_DEADLINE_DEFAULT;
""")],
     'subscriptions that ask for an infinite deadline explicitly',
     'the publisher gets the default deadline, which is reported as incompatible with an explicit one', """
  rmw_qos_profile_t q = base();
  q.deadline = RMW_DURATION_INFINITE;
  std::vector<rmw_topic_endpoint_info_t> v{info(q)};
  auto a = array(v);
  rmw_qos_profile_t r = base();
  r.deadline = RMW_QOS_DEADLINE_BEST_AVAILABLE;
  CHECK(qos_profile_get_best_available_for_publisher(&a, &r) == RMW_RET_OK);
  rmw_qos_compatibility_type_t c;
  CHECK(qos_profile_check_compatible(r, q, &c, nullptr, 0) == RMW_RET_OK && c == RMW_QOS_COMPATIBILITY_OK);
""", QH)

seed('qos-hash-last', 'C50', [(QS, """  std::string type_hash_str(typehash_it->second.begin(), typehash_it->second.end());
""", """  std::string type_hash_str(typehash_it->second.begin(), typehash_it->second.end());
  // tolerate a missing separator at the end
  while (!type_hash_str.empty() && '0' == type_hash_str.back()) {
    type_hash_str.pop_back();
  }
""")],
     'a type hash whose last hexadecimal digit is 0',
     'the hash cannot be read back', """
  rosidl_type_hash_t t = hash(3), u{};
  t.value[ROSIDL_TYPE_HASH_SIZE - 1] = 0x10;
  std::string s;
  CHECK(encode_type_hash_for_user_data_qos(t, s) == RMW_RET_OK);
  CHECK(parse_type_hash_from_user_data(reinterpret_cast<const uint8_t *>(s.data()), s.size(), u) == RMW_RET_OK);
  CHECK(u.version == t.version && 0 == std::memcmp(u.value, t.value, ROSIDL_TYPE_HASH_SIZE));
""", QH)

# ------------------------------------------------------------------------------- gid and time
GU, TU = R + 'src/gid_utils.cpp', R + 'src/time_utils.cpp'
seed('gid-signed', 'C60', [(GU, """  return std::lexicographical_compare(
    lhs.data,
    lhs.data + RMW_GID_STORAGE_SIZE,
    rhs.data,
    rhs.data + RMW_GID_STORAGE_SIZE);
""", """  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {
    const int8_t difference = static_cast<int8_t>(lhs.data[i] - rhs.data[i]);
    if (difference != 0) {
      return difference < 0;
    }
  }
  return false;
""")],
     'three gids whose first bytes are about 128 apart',
     'the order is not transitive, so maps keyed by gid lose entries', """
  rmw_dds_common::Compare_rmw_gid_t less;
  rmw_gid_t a = gid(0), b = gid(100), c = gid(200);
  CHECK(less(a, b) && less(b, c) && less(a, c));
""")
seed('gid-cstring', 'C61', [(GU, """  std::memcpy(const_cast<uint8_t *>(gid->data), &msg_gid->data, RMW_GID_STORAGE_SIZE);
""", """  std::memset(gid->data, 0, RMW_GID_STORAGE_SIZE);
  std::memcpy(gid->data, msg_gid->data.data(), strnlen(
      reinterpret_cast<const char *>(msg_gid->data.data()), RMW_GID_STORAGE_SIZE));
""")],
     'a gid that contains a zero byte followed by other bytes',
     'the bytes after the first zero byte are lost', """
  rmw_gid_t a = gid(1, 9), b = gid(7, 7);
  rmw_dds_common::msg::Gid m;
  rmw_dds_common::convert_gid_to_msg(&a, &m);
  rmw_dds_common::convert_msg_to_gid(&m, &b);
  CHECK(0 == std::memcmp(a.data, b.data, RMW_GID_STORAGE_SIZE));
""")
seed('gid-print-pad', 'C62', [(GU, """  return ostream << std::dec;
""", """  // leave the stream the way it was found
  ostream.fill('0');
  return ostream << std::dec;
""")],
     'a number printed with a field width after a gid',
     'printing a gid changes the fill character of the stream', """
  std::ostringstream s;
  rmw_gid_t g = gid(255, 16);
  using rmw_dds_common::operator<<;
  s << g;
  CHECK(s.str().substr(0, 5) == "ff.0." && s.str().substr(s.str().size() - 3) == ".10");
  s.str("");
  s << std::setw(4) << 12;
  CHECK(s.str() == "  12");
""")
seed('time-nsec-edge', 'C70', [(TU, """  if (overflow_nsec || overflow_sec) {
""", """  if (overflow_nsec || (overflow_sec && ns_sec_adjust > 0u)) {
""")],
     'more than INT_MAX seconds with nanoseconds below one second: the length is truncated without carry',
     'the saturated time keeps the nanoseconds of the unrepresentable one, so it is not the longest representable length', """
  rmw_time_t t{0x80000000ULL, 5};
  rmw_time_t r = rmw_dds_common::clamp_rmw_time_to_dds_time(t);
  CHECK(r.sec == 0x7fffffffULL && r.nsec == 999999999ULL);
""")
SEEDS[-1]['property'] = 'C71'
seed('time-carry-limit', 'C70', [(TU, """  if (ns_sec_adjust > INT_MAX) {
    ns_sec_adjust = INT_MAX;
    overflow_nsec = true;
  }
""", """  if (ns_sec_adjust > UINT32_MAX) {
    ns_sec_adjust = INT_MAX;
    overflow_nsec = true;
  }
""")],
     'between INT_MAX and UINT32_MAX seconds hidden in the nanosecond field',
     'the subtraction INT_MAX - carry wraps around, and the result does not fit a DDS duration', """
  rmw_time_t t{1, 3000000000ULL * 1000000000ULL};
  rmw_time_t r = rmw_dds_common::clamp_rmw_time_to_dds_time(t);
  CHECK(r.sec <= 0x7fffffffULL && r.nsec <= 999999999ULL);
""")

# --------------------------------------------------------------------------------- lifetimes, assertions, messages, printing
seed('gc-associate-slot', 'C80', [(GC, """      info.writer_gid_seq.emplace_back();
      convert_gid_to_msg(&writer_gid, &info.writer_gid_seq.back());
""", """      auto & slot = info.writer_gid_seq.emplace_back();
      info.writer_gid_seq.reserve(4u);
      convert_gid_to_msg(&writer_gid, &slot);
""")],
     'associating a writer with a node that has fewer than four writers so far',
     'the gid is written to an element of the old storage, after the sequence moved to a larger one', """
  GraphCache g;
  g.add_participant(gid(1), "/");
  g.add_node(gid(1), "a", "/");
  auto m = g.associate_writer(gid(7), gid(1), "a", "/");
  CHECK(m.node_entities_info_seq[0].writer_gid_seq.size() == 1);
  CHECK(static_cast<uint8_t>(m.node_entities_info_seq[0].writer_gid_seq[0].data[0]) == 7);
""", flags=' -fsanitize=address')
seed('gc-names-cstr', 'C80', [(GC, """        node_namespaces->data[j] = rcutils_strdup(
          node_info.node_namespace.c_str(), *allocator);
""", """        const char * node_namespace =
          (node_info.node_namespace.empty() ? std::string("/") : node_info.node_namespace).c_str();
        node_namespaces->data[j] = rcutils_strdup(node_namespace, *allocator);
""")],
     'a node namespace (its bytes are read after the temporary copy ended)',
     'the reported namespace is read from released storage', """
  GraphCache g;
  g.add_participant(gid(1), "/");
  g.add_node(gid(1), "a", "/a_rather_long_namespace/for/a/node/of/the/graph");
  Heap h;
  rcutils_string_array_t n = rcutils_get_zero_initialized_string_array(), ns = n;
  CHECK(g.get_node_names(&n, &ns, nullptr, &h.a) == RMW_RET_OK);
  CHECK(ns.size == 1 && std::string(ns.data[0]) == "/a_rather_long_namespace/for/a/node/of/the/graph");
""", flags=' -fsanitize=address')
seed('gc-erase-assert', 'C81', [(GC, """  bool ret = data_readers_.erase(gid) > 0;
""", """  bool ret = data_readers_.count(gid) > 0;
  if (ret) {
    assert(data_readers_.erase(gid) == 1u);
  }
""")],
     'a build with NDEBUG, such as a release build', 'the reader is reported as removed and stays', """
  GraphCache g;
  g.add_reader(gid(1), "rt/x", "t", gid(2), Q);
  CHECK(g.remove_reader(gid(1)));
  CHECK(!g.remove_reader(gid(1)));
  size_t n = 9;
  CHECK(g.get_reader_count("rt/x", &n) == RMW_RET_OK && n == 0);
""", flags=' -DNDEBUG')
seed('gc-print-once', 'C34', [(GC, """  ss << "  Discovered participants:" << std::endl;
""", """  std::set<rmw_gid_t, rmw_dds_common::Compare_rmw_gid_t> printed;
  ss << "  Discovered participants:" << std::endl;
"""), (GC, """        convert_msg_to_gid(&data_writer_gid, &rmw_gid);
        ss << "        " << rmw_gid << std::endl;
""", """        convert_msg_to_gid(&data_writer_gid, &rmw_gid);
        if (printed.insert(rmw_gid).second) {
          ss << "        " << rmw_gid << std::endl;
        }
""")],
     'two nodes that announce the same writer', 'the writer is shown at the first of its nodes only', """
  GraphCache g;
  g.add_participant(gid(1), "/");
  g.add_node(gid(1), "a", "/");
  g.add_node(gid(1), "b", "/");
  g.associate_writer(gid(7), gid(1), "a", "/");
  g.associate_writer(gid(7), gid(1), "b", "/");
  std::ostringstream all, one;
  all << g;
  rmw_dds_common::operator<<(one, gid(7));
  size_t n = 0;
  for (size_t p = all.str().find(one.str()); p != std::string::npos; p = all.str().find(one.str(), p + 1)) {
    ++n;
  }
  CHECK(n == 2);
""")
SEEDS.append({'id': 'msg-name-first', 'property': 'C82', 'edits': [(R + 'msg/NodeEntitiesInfo.msg', "string<=256 node_namespace\nstring<=256 node_name\n", "string<=256 node_name\nstring<=256 node_namespace\n")],
              'needs': 'two processes, one built with the change and one without', 'breaks': 'each takes the names of the other\'s nodes for namespaces and the other way round',
              'copy': [], 'files': {'demo.sh': """#!/bin/bash
# Serializes a node with the definitions of the repository and reads it as every release does.  cwd: the repository.
here=$(cd "$(dirname "$0")" && pwd)
python3 "$here/demo.py" rmw_dds_common/msg
""", 'demo.py': """import re
import struct
import sys


def fields(name):
    for line in open('%s/%s.msg' % (sys.argv[1], name)):
        m = re.match(r'(\\\\w+)(<=\\\\d+)?(\\\\[(\\\\d*)\\\\])?\\\\s+(\\\\w+)\\\\s*$', line.split('#')[0].strip())
        if m:
            yield m[1], m[3], m[4], m[5]


def cdr(name, v, out):
    def pad(n):
        out.extend(b'\\\\0' * (-len(out) % n))

    def one(t, x):
        if t == 'string':
            pad(4)
            out.extend(struct.pack('<I', len(x) + 1) + x.encode() + b'\\\\0')
        elif t in ('char', 'uint8', 'byte'):
            out.append(x)
        else:
            cdr(t, x, out)
    for t, arr, n, f in fields(name):
        if arr and not n:
            pad(4)
            out.extend(struct.pack('<I', len(v[f])))
        for x in v[f] if arr else [v[f]]:
            one(t, x)
    return out


b = cdr('NodeEntitiesInfo', {'node_name': 'talker', 'node_namespace': '/ns', 'reader_gid_seq': [], 'writer_gid_seq': [{'data': list(range(16))}]}, bytearray())
n = struct.unpack_from('<I', b)[0]
assert b[4:4 + n] == b'/ns\\\\0', 'the namespace arrives as %r' % bytes(b[4:4 + n])
print('holds')
""".replace('\\\\', '\\')}})
