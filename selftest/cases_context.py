C = 'src/context.cpp'
HPP = 'include/rmw_dds_common/context.hpp'


def sub(method, *pairs):
    """Edit inside one method of context.cpp."""
    def f(s):
        i = s.index('Context::%s(' % method)
        j = s.index('\n}\n', i) + 3
        b = s[i:j]
        for old, new in pairs:
            assert old in b, (method, old)
            b = b.replace(old, new, 1)
        return s[:i] + b + s[j:]
    return (C, None, f)


def every(*pairs):
    def f(s):
        for old, new in pairs:
            assert old in s, old
            s = s.replace(old, new)
        return s
    return (C, None, f)


def swap(method, a, b):
    def f(s):
        i = s.index('Context::%s(' % method)
        j = s.index('\n}\n', i) + 3
        t = s[i:j]
        assert a in t and b in t
        t = t.replace(a, '\0').replace(b, a).replace('\0', b)
        return s[:i] + t + s[j:]
    return (C, None, f)


L = "  std::lock_guard<std::mutex> guard(node_update_mutex);\n"
CALL = "static bool call_publish_callback("
UNDOW = """    static_cast<void>(graph_cache.dissociate_writer(
      request_publisher_gid, gid, name, namespace_));
"""
BUGS = [
    ('ctx-lock-late', C, [sub('add_publisher_graph', (L, ''), ("  if (!call", L + "  if (!call"))], {'C30'}),
    ('ctx-lock-temp', C, [sub('remove_service_graph', (L, "  std::lock_guard<std::mutex>{node_update_mutex};\n"))], {'C30'}),
    ('ctx-lock-scope', C, [sub('add_client_graph', (L, "  {\n  std::lock_guard<std::mutex> guard(node_update_mutex);\n"), ("gid, name, namespace_);\n\n  rmw_dds", "gid, name, namespace_);\n  }\n\n  rmw_dds"))], {'C30'}),
    ('ctx-lock-early', C, [sub('remove_subscriber_graph', (L, "  std::unique_lock<std::mutex> guard(node_update_mutex);\n"), ("  if (!call", "  guard.unlock();\n  if (!call"))], {'C30'}),
    ('ctx-lock-undo', C, [sub('add_subscriber_graph', (L, "  std::unique_lock<std::mutex> guard(node_update_mutex);\n"), ("    static_cast", "    guard.unlock();\n    static_cast"))], {'C30'}),
    ('ctx-lock-none', C, [sub('remove_node_graph', (L, ''))], {'C30'}),
    ('ctx-lock-other', C, [sub('add_node_graph', (L, "  static std::mutex m;\n  std::lock_guard<std::mutex> guard(m);\n"))], {'C30'}),
    ('ctx-lock-two', C, [(HPP, "  std::mutex node_update_mutex;", "  std::mutex node_update_mutex;\n  std::mutex node_remove_mutex;"), sub('remove_publisher_graph', ("(node_update_mutex)", "(node_remove_mutex)"))], {'C30'}),
    ('ctx-lock-helper', C, [every(("  if (nullptr == pub ||", "  std::lock_guard<std::mutex> g(m);\n  if (nullptr == pub ||"), ("static bool call_publish_callback(", "static bool call_publish_callback(\n  std::mutex & m,"), ("!call_publish_callback(", "!call_publish_callback(node_update_mutex, "), (L, ""))], {'C30'}),
    ('ctx-msg-first', C, [sub('add_client_graph', ("  graph_cache.associate_writer(", "  rmw_dds_common::msg::ParticipantEntitiesInfo msg =\n    graph_cache.associate_writer("), ("namespace_);\n\n  rmw_dds_common::msg::ParticipantEntitiesInfo msg =\n    graph_cache", "namespace_);\n\n  graph_cache"))], {'C30'}),
    ('ctx-msg-swap', C, [sub('remove_service_graph', ("  graph_cache.dissociate_reader(", "  rmw_dds_common::msg::ParticipantEntitiesInfo msg =\n    graph_cache.dissociate_reader("), ("namespace_);\n\n  rmw_dds_common::msg::ParticipantEntitiesInfo msg =\n    graph_cache", "namespace_);\n\n  graph_cache"))], {'C30'}),
    ('ctx-msg-empty', C, [sub('add_node_graph', ("publish_callback, msg)", "publish_callback, {})"))], {'C30'}),
    ('ctx-msg-member', C, [sub('add_node_graph', ("  rmw_dds_common::msg::ParticipantEntitiesInfo msg =", "  static rmw_dds_common::msg::ParticipantEntitiesInfo msg =\n   "))], {'C30'}),
    ('ctx-undo-missing', C, [sub('add_client_graph', (UNDOW, ''))], {'C31'}),
    ('ctx-undo-none', C, [sub('add_node_graph', ("    graph_cache.remove_node(gid, name, namespace_);\n", ""))], {'C31'}),
    ('ctx-undo-wrong', C, [sub('add_service_graph', ("dissociate_writer(\n      response_publisher_gid", "dissociate_reader(\n      response_publisher_gid"))], {'C31'}),
    ('ctx-undo-args', C, [sub('add_service_graph', ("static_cast<void>(graph_cache.dissociate_reader(\n      request_subscriber_gid", "static_cast<void>(graph_cache.dissociate_reader(\n      response_publisher_gid"))], {'C31'}),
    ('ctx-undo-ok', C, [sub('add_client_graph', ("    return RMW_RET_ERROR", "    return RMW_RET_OK"))], {'C31'}),
    ('ctx-undo-remove', C, [sub('remove_publisher_graph', ("    return RMW_RET_ERROR", "    graph_cache.associate_writer(publisher_gid, gid, name, namespace_);\n    return RMW_RET_ERROR"))], {'C31'}),
    ('ctx-undo-twice', C, [sub('add_publisher_graph', ("    return RMW_RET_ERROR", "    graph_cache.dissociate_writer(publisher_gid, gid, name, namespace_);\n    return RMW_RET_ERROR"))], {'C31'}),
    ('ctx-ret-inverted', C, [every(("RMW_RET_OK != publish_callback", "RMW_RET_ERROR == publish_callback"))], {'C31'}),
    ('ctx-ret-ignored', C, [every(("    RMW_RET_OK != publish_callback(pub, static_cast<const void *>(&msg)))\n  {\n    return false;\n  }\n", "    false)\n  {\n    return false;\n  }\n  publish_callback(pub, static_cast<const void *>(&msg));\n"))], {'C31'}),
    ('ctx-ret-nopub', C, [every(("  if (nullptr == pub || nullptr == publish_callback ||", "  if (nullptr == pub) {return true;}\n  if (nullptr == publish_callback ||"))], {'C31'}),
    ('ctx-ret-code', C, [sub('remove_node_graph', ("return RMW_RET_ERROR", "return RMW_RET_BAD_ALLOC"))], {'C31'}),
    ('ctx-early', C, [sub('remove_client_graph', (L, L + "  if (!pub) {return RMW_RET_ERROR;}\n"))], {'C31'}),
    ('ctx-kind', C, [sub('remove_client_graph', ("graph_cache.dissociate_writer(\n    request_publisher_gid", "graph_cache.dissociate_reader(\n    request_publisher_gid"))], {'C31', 'C32'}),
    ('ctx-gid-swap', C, [swap('remove_service_graph', "request_subscriber_gid, gid", "response_publisher_gid, gid")], {'C31', 'C32'}),
    ('ctx-node-gid', C, [sub('add_publisher_graph', ("    publisher_gid, gid, name", "    publisher_gid, publisher_gid, name"))], {'C31', 'C32'}),
    ('ctx-name-swap', C, [sub('remove_subscriber_graph', ("subscription_gid, gid, name, namespace_", "subscription_gid, gid, namespace_, name"))], {'C31', 'C32'}),
    ('ctx-half', C, [sub('add_client_graph', ("  graph_cache.associate_writer(\n    request_publisher_gid, gid, name, namespace_);\n\n", ""))], {'C31', 'C32'}),
    ('ctx-second-after', C, [sub('add_service_graph', ("  return RMW_RET_OK", "  graph_cache.associate_writer(response_publisher_gid, gid, name, namespace_);\n  return RMW_RET_OK"), ("  rmw_dds_common::msg::ParticipantEntitiesInfo msg =\n    graph_cache.associate_writer(\n    response_publisher_gid, gid, name, namespace_);\n", ""), ("  graph_cache.associate_reader", "  rmw_dds_common::msg::ParticipantEntitiesInfo msg = graph_cache.associate_reader"))], {'C31', 'C32'}),
    ('ctx-nullpub', C, [every(("nullptr == pub || ", ""))], {'C33'}),
    ('ctx-nullcb', C, [every(("nullptr == pub || nullptr == publish_callback ||", "(nullptr == pub && nullptr == publish_callback) ||"))], {'C33'}),
    ('ctx-order', C, [every(("  if (nullptr == pub || nullptr == publish_callback ||\n    RMW_RET_OK != publish_callback(pub, static_cast<const void *>(&msg)))", "  if (RMW_RET_OK != publish_callback(pub, static_cast<const void *>(&msg)) || nullptr == pub || nullptr == publish_callback)"))], {'C31', 'C33'}),
    ('ctx-twice', C, [sub('remove_node_graph', ("  if (!call", "  call_publish_callback(pub, publish_callback, msg);\n  if (!call"))], {'C33', 'C31'}),
    ('ctx-retry', C, [every(("  {\n    return false;\n  }\n  return true;", "  {\n    return pub && publish_callback && RMW_RET_OK == publish_callback(pub, &msg);\n  }\n  return true;"))], {'C33'}),
    ('ctx-skip', C, [sub('remove_publisher_graph', ("  if (!call", "  if (msg.node_entities_info_seq.empty()) {return RMW_RET_OK;}\n  if (!call"))], {'C31', 'C33'}),
    ('ctx-skip-thread', C, [sub('remove_node_graph', ("  if (!call", "  if (!thread_is_running.load()) {return RMW_RET_OK;}\n  if (!call"))], {'C31', 'C33'}),
    ('ctx-sub', C, [sub('add_node_graph', ("!call_publish_callback(pub,", "!call_publish_callback(reinterpret_cast<const rmw_publisher_t *>(sub),"))], {'C33'}),
]
HELP = """template<typename UndoT>
static rmw_ret_t announce_or(
  const rmw_publisher_t * pub, const Context::publish_callback_t & cb,
  const rmw_dds_common::msg::ParticipantEntitiesInfo & msg, UndoT undo)
{
  if (call_publish_callback(pub, cb, msg)) {
    return RMW_RET_OK;
  }
  undo();
  return RMW_RET_ERROR;
}

rmw_ret_t Context::add_node_graph("""
FN = "rmw_ret_t Context::add_node_graph("


def tail(method, new):
    def f(s):
        i = s.index('Context::%s(' % method)
        j = s.index('\n}\n', i) + 1
        k = s.index('  if (!call', i)
        return s[:k] + new + s[j:]
    return (C, None, f)


REFACTORS = [
    ('ctx-r-unique', C, [every((L, "  std::unique_lock<std::mutex> guard{node_update_mutex};\n"))]),
    ('ctx-r-scoped', C, [every((L, "  std::scoped_lock lock(node_update_mutex);\n"))]),
    ('ctx-r-manual', C, [sub('remove_node_graph', (L, "  node_update_mutex.lock();\n"), ("    return RMW_RET_ERROR", "    node_update_mutex.unlock();\n    return RMW_RET_ERROR"), ("  return RMW_RET_OK", "  node_update_mutex.unlock();\n  return RMW_RET_OK"))]),
    ('ctx-r-rename', C, [every(("node_update_mutex", "graph_mutex_")), (HPP, "node_update_mutex", "graph_mutex_")]),
    ('ctx-r-rename2', C, [every(("& name, const std::string & namespace_)", "& node_name, const std::string & node_namespace)"), ("name, namespace_)", "node_name, node_namespace)"))]),
    ('ctx-r-auto', C, [every(("  rmw_dds_common::msg::ParticipantEntitiesInfo msg =\n", "  const auto msg =\n"))]),
    ('ctx-r-ref', C, [every(("  rmw_dds_common::msg::ParticipantEntitiesInfo msg =\n", "  const auto & msg =\n"))]),
    ('ctx-r-nested', C, [every(("  if (nullptr == pub || nullptr == publish_callback ||\n    RMW_RET_OK != publish_callback(pub, static_cast<const void *>(&msg)))\n  {\n    return false;\n  }\n  return true;", "  if (pub && publish_callback) {\n    rmw_ret_t ret = publish_callback(pub, &msg);\n    return ret == RMW_RET_OK;\n  }\n  return false;"))]),
    ('ctx-r-expr', C, [every(("  if (nullptr == pub || nullptr == publish_callback ||\n    RMW_RET_OK != publish_callback(pub, static_cast<const void *>(&msg)))\n  {\n    return false;\n  }\n  return true;", "  return pub != nullptr && publish_callback != nullptr && publish_callback(pub, &msg) == RMW_RET_OK;"))]),
    ('ctx-r-status', C, [every(("static bool call_", "static rmw_ret_t call_"), ("    return false;\n  }\n  return true;", "    return RMW_RET_ERROR;\n  }\n  return RMW_RET_OK;"), ("if (!call_publish_callback(pub, publish_callback, msg))", "if (RMW_RET_OK != call_publish_callback(pub, publish_callback, msg))"))]),
    ('ctx-r-tern', C, [tail('remove_node_graph', "  return call_publish_callback(pub, publish_callback, msg) ? RMW_RET_OK : RMW_RET_ERROR;\n"), tail('remove_client_graph', "  const bool published = call_publish_callback(pub, publish_callback, msg);\n  return published ? RMW_RET_OK : RMW_RET_ERROR;\n")]),
    ('ctx-r-pos', C, [tail('add_node_graph', "  if (call_publish_callback(pub, publish_callback, msg)) {\n    return RMW_RET_OK;\n  }\n  graph_cache.remove_node(gid, name, namespace_);\n  return RMW_RET_ERROR;\n")]),
    ('ctx-r-undo', C, [every((FN, HELP)), tail('add_client_graph', """  return announce_or(pub, publish_callback, msg, [&]() {
      static_cast<void>(graph_cache.dissociate_reader(response_subscriber_gid, gid, name, namespace_));
      static_cast<void>(graph_cache.dissociate_writer(request_publisher_gid, gid, name, namespace_));
    });
"""), tail('add_node_graph', "  return announce_or(pub, publish_callback, msg, [this, &name, &namespace_]() {\n    graph_cache.remove_node(gid, name, namespace_);\n  });\n"), tail('remove_node_graph', "  return announce_or(pub, publish_callback, msg, []() {});\n")]),
    ('ctx-r-undofn', C, [every((FN, HELP.replace('template<typename UndoT>\n', '').replace('UndoT undo', 'const std::function<void()> & undo')), ("#include <mutex>", "#include <functional>\n#include <mutex>")), tail('add_node_graph', "  return announce_or(pub, publish_callback, msg, [&]() {\n    graph_cache.remove_node(gid, name, namespace_);\n  });\n")]),
    ('ctx-r-opfn', C, [every((FN, """template<typename ApplyT, typename UndoT>
static rmw_ret_t update_and_announce(
  Context & context, ApplyT && apply, UndoT && undo)
{
  const auto msg = apply(context.graph_cache);
  if (!call_publish_callback(context.pub, context.publish_callback, msg)) {
    undo(context.graph_cache);
    return RMW_RET_ERROR;
  }
  return RMW_RET_OK;
}

rmw_ret_t Context::add_node_graph(""")), sub('add_node_graph', ("""  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.add_node(gid, name, namespace_);

  if (!call_publish_callback(pub, publish_callback, msg)) {
    graph_cache.remove_node(gid, name, namespace_);
    return RMW_RET_ERROR;
  }

  return RMW_RET_OK;""", """  return update_and_announce(
    *this,
    [&](GraphCache & cache) {return cache.add_node(gid, name, namespace_);},
    [&](GraphCache & cache) {cache.remove_node(gid, name, namespace_);});"""))]),
    ('ctx-r-memfn', C, [every((FN, """static rmw_ret_t add_entity(
  Context & context,
  msg::ParticipantEntitiesInfo (GraphCache::* add)(const rmw_gid_t &, const rmw_gid_t &, const std::string &, const std::string &),
  msg::ParticipantEntitiesInfo (GraphCache::* undo)(const rmw_gid_t &, const rmw_gid_t &, const std::string &, const std::string &),
  const rmw_gid_t & entity, const std::string & name, const std::string & namespace_)
{
  const auto msg = (context.graph_cache.*add)(entity, context.gid, name, namespace_);
  if (!call_publish_callback(context.pub, context.publish_callback, msg)) {
    (context.graph_cache.*undo)(entity, context.gid, name, namespace_);
    return RMW_RET_ERROR;
  }
  return RMW_RET_OK;
}

rmw_ret_t Context::add_node_graph(""")), sub('add_subscriber_graph', ("""  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.associate_reader(
    subscription_gid, gid, name, namespace_);

  if (!call_publish_callback(pub, publish_callback, msg)) {
    static_cast<void>(graph_cache.dissociate_reader(
      subscription_gid, gid, name, namespace_));
    return RMW_RET_ERROR;
  }

  return RMW_RET_OK;""", """  return add_entity(
    *this, &GraphCache::associate_reader, &GraphCache::dissociate_reader, subscription_gid, name, namespace_);"""))]),
    ('ctx-r-order', C, [sub('add_client_graph', ("    static_cast<void>(graph_cache.dissociate_reader(\n      response_subscriber_gid, gid, name, namespace_));\n" + UNDOW, UNDOW + "    static_cast<void>(graph_cache.dissociate_reader(\n      response_subscriber_gid, gid, name, namespace_));\n"))]),
    ('ctx-r-order2', C, [sub('remove_client_graph', ("""  graph_cache.dissociate_writer(
    request_publisher_gid, gid, name, namespace_);

  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.dissociate_reader(
    response_subscriber_gid, gid, name, namespace_);
""", """  graph_cache.dissociate_reader(
    response_subscriber_gid, gid, name, namespace_);

  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.dissociate_writer(
    request_publisher_gid, gid, name, namespace_);
"""))]),
    ('ctx-r-anon', C, [every((CALL, "namespace\n{\nbool call_publish_callback("), ("  return true;\n}\n", "  return true;\n}\n}  // namespace\n"))]),
    ('ctx-r-guard', C, [every((FN, """struct Rollback
{
  Rollback(GraphCache & cache, const rmw_gid_t & gid, const std::string & name, const std::string & ns)
  : cache_(cache), gid_(gid), name_(name), ns_(ns) {}
  ~Rollback()
  {
    if (armed_) {
      cache_.remove_node(gid_, name_, ns_);
    }
  }
  void dismiss() {armed_ = false;}
  GraphCache & cache_;
  const rmw_gid_t & gid_;
  const std::string & name_;
  const std::string & ns_;
  bool armed_ = true;
};

rmw_ret_t Context::add_node_graph(""")), tail('add_node_graph', "  Rollback rollback(graph_cache, gid, name, namespace_);\n  if (!call_publish_callback(pub, publish_callback, msg)) {\n    return RMW_RET_ERROR;\n  }\n  rollback.dismiss();\n  return RMW_RET_OK;\n")]),
    ('ctx-r-this', C, [sub('add_publisher_graph', ("    graph_cache.associate_writer(", "    this->graph_cache.associate_writer("))]),
    ('ctx-r-localref', C, [sub('add_publisher_graph', (L, L + "  GraphCache & cache = graph_cache;\n  const rmw_gid_t participant_gid = gid;\n"), ("    graph_cache.associate_writer(\n    publisher_gid, gid", "    cache.associate_writer(\n    publisher_gid, participant_gid"))]),
    ('ctx-r-retvar', C, [tail('add_subscriber_graph', "  rmw_ret_t ret = RMW_RET_OK;\n  if (!call_publish_callback(pub, publish_callback, msg)) {\n    static_cast<void>(graph_cache.dissociate_reader(\n      subscription_gid, gid, name, namespace_));\n    ret = RMW_RET_ERROR;\n  }\n  return ret;\n")]),
    ('ctx-r-method', C, [(HPP, "private:\n", "private:\n  bool publish_(const rmw_dds_common::msg::ParticipantEntitiesInfo & msg) const;\n\n"), (HPP, "#include \"rmw/types.h\"", "#include \"rmw/types.h\"\n#include \"rmw_dds_common/msg/participant_entities_info.hpp\""), every(("call_publish_callback(pub, publish_callback, msg)", "publish_(msg)"), ("static bool call_publish_callback(\n  const rmw_publisher_t * pub,\n  const Context::publish_callback_t & publish_callback,\n  const rmw_dds_common::msg::ParticipantEntitiesInfo & msg)", "bool Context::publish_(const rmw_dds_common::msg::ParticipantEntitiesInfo & msg) const"))]),
    ('ctx-r-lockfn', C, [(HPP, "private:\n", "private:\n  std::unique_lock<std::mutex> lock_graph();\n"), every((L, "  auto guard = lock_graph();\n"), (CALL, "std::unique_lock<std::mutex> Context::lock_graph()\n{\n  return std::unique_lock<std::mutex>(node_update_mutex);\n}\n\n" + CALL))]),
    ('ctx-r-seterr', C, [sub('add_node_graph', ("    return RMW_RET_ERROR", "    RMW_SET_ERROR_MSG(\"failed to publish\");\n    return RMW_RET_ERROR")), every(("#include \"rmw/types.h\"", "#include \"rmw/error_handling.h\"\n#include \"rmw/types.h\""))]),
]
