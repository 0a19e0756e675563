Q = 'src/qos.cpp'
SRC = open('/repo/rmw_dds_common/src/qos.cpp').read()


def between(a, b, keep_b=True):
    i = SRC.index(a)
    j = SRC.index(b, i)
    return SRC[i:j]


LT = """  if (t1.sec < t2.sec) {
    return true;
  } else if (t1.sec == t2.sec && t1.nsec < t2.nsec) {
    return true;
  }
  return false;
"""
APPEND = between('  // Only write if a buffer is provided', 'rmw_ret_t\nqos_profile_check_compatible')
RELERR = between('  // Best effort publisher and reliable subscription', '  // Volatile publisher and transient local sub')
DURERR = between('  // Volatile publisher and transient local sub', '  const rmw_time_t & pub_deadline')
DLERR = between('  // No deadline for publisher', '  // Automatic liveliness for publisher and manual by topic for subscription')
LEASEERR = between('  // No lease duration for publisher', '  // Only check for warnings')
RELWARN = between('    // Reliability warnings', '    // Durability warnings')
BODY = between('  // Best effort publisher and reliable subscription', '  return RMW_RET_OK;\n}\n\nrmw_ret_t\nqos_profile_get_best_available_for_subscription')
ONLY = "  if (RMW_QOS_COMPATIBILITY_OK == *compatibility) {\n    // We don't know"
BUGS = [
    ('qos-rel-swap', Q, [("  if (publisher_qos.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT &&\n    subscription_qos.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE)", "  if (subscription_qos.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT &&\n    publisher_qos.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE)")], {'C40', 'C43'}),
    ('qos-dur-only-warn', Q, [(DURERR, DURERR.replace('RMW_QOS_COMPATIBILITY_ERROR', 'RMW_QOS_COMPATIBILITY_WARNING'))], {'C40'}),
    ('qos-liv-node', Q, [("  if (publisher_qos.liveliness == RMW_QOS_POLICY_LIVELINESS_AUTOMATIC &&\n    subscription_qos.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC)", "  if (publisher_qos.liveliness == RMW_QOS_POLICY_LIVELINESS_AUTOMATIC &&\n    subscription_qos.liveliness != RMW_QOS_POLICY_LIVELINESS_AUTOMATIC)")], {'C40', 'C43'}),
    ('qos-elseif', Q, [("  // Volatile publisher and transient local subscription\n  if (", "  // Volatile publisher and transient local subscription\n  else if (")], {'C43'}),
    ('qos-warn-always', Q, [(ONLY, "  {\n    // We don't know")], {'C42'}),
    ('qos-warn-first', Q, [(ONLY, "  if (RMW_QOS_COMPATIBILITY_ERROR != *compatibility || reason_size == 0u) {\n    // We don't know")], {'C42'}),
    ('qos-lease-deadline', Q, [("    if (sub_lease < pub_lease) {", "    if (sub_lease < pub_deadline) {")], {'C41', 'C43'}),
    ('qos-lt-le', Q, [(LT, LT.replace('t1.nsec < t2.nsec', 't1.nsec <= t2.nsec'))], {'C41'}),
    ('qos-lt-nosec', Q, [(LT, LT.replace('t1.sec == t2.sec && ', ''))], {'C41'}),
    ('qos-lt-noteq', Q, [(LT, "  return t1.sec < t2.sec;\n")], {'C41'}),
    ('qos-eq-sec', Q, [("  return t1.sec == t2.sec && t1.nsec == t2.nsec;", "  return t1.sec == t2.sec;")], {'C41'}),
    ('qos-neq', Q, [("  return !(t1 == t2);", "  return t1.sec != t2.sec && t1.nsec != t2.nsec;")], {'C41'}),
    ('qos-dl-flip', Q, [("    if (sub_deadline < pub_deadline) {", "    if (pub_deadline < sub_deadline) {")], {'C41', 'C43'}),
    ('qos-dl-missing-skip', Q, [("  if (pub_deadline == deadline_default && sub_deadline != deadline_default) {", "  if (pub_deadline == deadline_default && sub_deadline.sec != deadline_default.sec) {")], {'C41', 'C43'}),
    ('qos-room', Q, [("  size_t write_size = buffer_size - offset;", "  size_t write_size = buffer_size;")], {'C43'}),
    ('qos-room+1', Q, [("  size_t write_size = buffer_size - offset;", "  size_t write_size = buffer_size - offset + 1u;")], {'C43'}),
    ('qos-overwrite', Q, [("rcutils_vsnprintf(buffer + offset, write_size, format, args)", "rcutils_vsnprintf(buffer, buffer_size, format, args)")], {'C43'}),
    ('qos-noclear', Q, [("  if (reason && reason_size != 0u) {\n    reason[0] = '\\0';\n  }\n", "")], {'C43'}),
    ('qos-clear-null', Q, [("  if (reason && reason_size != 0u) {\n    reason[0] = '\\0';\n  }\n", "  if (reason) {\n    reason[0] = '\\0';\n  }\n")], {'C43'}),
    ('qos-trunc-error', Q, [("  if (snprintf_ret < 0) {", "  if (snprintf_ret < 0 || static_cast<size_t>(snprintf_ret) >= write_size) {")], {'C43'}),
    ('qos-strcat', Q, [(APPEND, "  if (!buffer || buffer_size == 0u) {\n    return RMW_RET_OK;\n  }\n  strcat(buffer, format);\n  return RMW_RET_OK;\n}\n\n")], {'C43'}),
    ('qos-strncat', Q, [(APPEND, "  if (!buffer || buffer_size == 0u) {\n    return RMW_RET_OK;\n  }\n  strncat(buffer, format, buffer_size);\n  return RMW_RET_OK;\n}\n\n")], {'C43'}),
    ('qos-term', Q, [("  if (snprintf_ret < 0) {", "  buffer[buffer_size] = '\\0';\n  if (snprintf_ret < 0) {")], {'C43'}),
    ('qos-nullstr', Q, [("    if (!pub_liveliness_str) {\n      pub_liveliness_str = \"unknown\";\n    }\n", "")], {'C43'}),
    ('qos-wrongstr', Q, [("      pub_durability_str,\n        sub_durability_str);", "      pub_durability_str,\n        sub_reliability_str);")], {'C43'}),
    ('qos-swapstr', Q, [('"WARNING: Volatile publisher, but subscription is %s;",\n        sub_durability_str', '"WARNING: Volatile publisher, but subscription is %s;",\n        pub_durability_str')], {'C43'}),
    ('qos-missarg', Q, [("        pub_reliability_str,\n        sub_reliability_str);", "        pub_reliability_str);")], {'C43'}),
    ('qos-dropret', Q, [("      \"ERROR: Subscription deadline is less than publisher deadline;\");\n      if (RMW_RET_OK != append_ret) {\n        return append_ret;\n      }", "      \"ERROR: Subscription deadline is less than publisher deadline;\");\n      (void)append_ret;")], {'C43'}),
    ('qos-nullcompat', Q, [("  if (!compatibility) {\n    RMW_SET_ERROR_MSG(\"compatibility parameter is null\");\n    return RMW_RET_INVALID_ARGUMENT;\n  }\n", "")], {'C43'}),
    ('qos-reasoncheck', Q, [("  if (!reason && reason_size != 0u) {", "  if (!reason) {")], {'C40'}),
    ('qos-early-ok', Q, [("  // Presume profiles are compatible until proven otherwise\n", "  if (reason && reason_size == 0u) {\n    return RMW_RET_INVALID_ARGUMENT;\n  }\n")], {'C40'}),
    ('qos-earlyreturn', Q, [("  // Volatile publisher and transient local subscription\n  if (", "  if (*compatibility == RMW_QOS_COMPATIBILITY_ERROR) {\n    return RMW_RET_OK;\n  }\n  if (")], {'C43'}),
    ('qos-warn-ba', Q, [("      subscription_qos.reliability == RMW_QOS_POLICY_RELIABILITY_UNKNOWN;", "      subscription_qos.reliability == RMW_QOS_POLICY_RELIABILITY_UNKNOWN ||\n      subscription_qos.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE;")], {'C42'}),
    ('qos-warn-node', Q, [("    } else if (pub_liveliness_unknown &&  // NOLINT\n      subscription_qos.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC)", "    } else if (pub_liveliness_unknown &&  // NOLINT\n      subscription_qos.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_NODE)")], {'C42', 'C43'}),
    ('qos-warn-dur-and', Q, [("    if (pub_durability_unknown && sub_durability_unknown) {", "    if (pub_durability_unknown && sub_reliability_unknown) {")], {'C42', 'C43'}),
    ('qos-warn-drop', Q, [("      // Liveliness for publisher and subscription is unknown\n      *compatibility = RMW_QOS_COMPATIBILITY_WARNING;\n", "      // Liveliness for publisher and subscription is unknown\n")], {'C42'}),
    ('qos-warn-reset', Q, [("    // Durability warnings\n", "    *compatibility = RMW_QOS_COMPATIBILITY_OK;\n")], {'C42'}),
    ('qos-text-swap', Q, [('"ERROR: Subscription has a liveliness lease duration, but publisher does not;"', '"ERROR: Subscription has a deadline, but publisher does not;"')], {'C43'}),
]
MSG = """
static rmw_ret_t
_fail(rmw_qos_compatibility_type_t * compatibility, char * reason, size_t reason_size, const char * text)
{
  *compatibility = RMW_QOS_COMPATIBILITY_ERROR;
  return _append_to_buffer(reason, reason_size, text);
}

"""
CHK = "rmw_ret_t\nqos_profile_check_compatible("


def table():
    return """  struct Rule {bool broken; const char * text;};
  const rmw_time_t & pub_deadline = publisher_qos.deadline;
  const rmw_time_t & sub_deadline = subscription_qos.deadline;
  const Rule rules[] = {
    {publisher_qos.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT &&
      subscription_qos.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE, "ERROR: Best effort publisher and reliable subscription;"},
    {publisher_qos.durability == RMW_QOS_POLICY_DURABILITY_VOLATILE &&
      subscription_qos.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL, "ERROR: Volatile publisher and transient local subscription;"},
  };
  for (const auto & rule : rules) {
    if (!rule.broken) {
      continue;
    }
    *compatibility = RMW_QOS_COMPATIBILITY_ERROR;
    rmw_ret_t ret = _append_to_buffer(reason, reason_size, "%s", rule.text);
    if (RMW_RET_OK != ret) {
      return ret;
    }
  }

"""


REFACTORS = [
    ('qos-r-lt-tie', Q, [(LT, "  return std::tie(t1.sec, t1.nsec) < std::tie(t2.sec, t2.nsec);\n"), ('#include <string>\n', '#include <string>\n#include <tuple>\n')]),
    ('qos-r-lt-ternary', Q, [(LT, "  return t1.sec != t2.sec ? t1.sec < t2.sec : t1.nsec < t2.nsec;\n")]),
    ('qos-r-lt-gt', Q, [(LT, "  if (t1.sec > t2.sec) {\n    return false;\n  }\n  return t1.sec < t2.sec || t2.nsec > t1.nsec;\n")]),
    ('qos-r-table', Q, [(RELERR + DURERR, table()), ("  const rmw_time_t & pub_deadline = publisher_qos.deadline;\n  const rmw_time_t & sub_deadline = subscription_qos.deadline;\n\n  // No", "  // No")]),
    ('qos-r-helper', Q, [(CHK, MSG.lstrip() + CHK), ("    *compatibility = RMW_QOS_COMPATIBILITY_ERROR;\n    rmw_ret_t append_ret = _append_to_buffer(\n      reason,\n      reason_size,\n      \"ERROR: Best effort", "    rmw_ret_t append_ret = _fail(\n      compatibility,\n      reason,\n      reason_size,\n      \"ERROR: Best effort")]),
    ('qos-r-lambda', Q, [(RELERR, """  auto fail = [&](const char * text) {
      *compatibility = RMW_QOS_COMPATIBILITY_ERROR;
      return _append_to_buffer(reason, reason_size, text);
    };
  if (publisher_qos.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT &&
    subscription_qos.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE)
  {
    if (rmw_ret_t r = fail("ERROR: Best effort publisher and reliable subscription;")) {
      return r;
    }
  }

""")]),
    ('qos-r-switch', Q, [(RELERR, """  switch (publisher_qos.reliability) {
    case RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT:
      if (subscription_qos.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE) {
        *compatibility = RMW_QOS_COMPATIBILITY_ERROR;
        rmw_ret_t append_ret = _append_to_buffer(reason, reason_size, "ERROR: Best effort publisher and reliable subscription;");
        if (RMW_RET_OK != append_ret) {
          return append_ret;
        }
      }
      break;
    default:
      break;
  }
""")]),
    ('qos-r-dl-else', Q, [(DLERR, """  if (sub_deadline != deadline_default) {
    const char * why = nullptr;
    if (pub_deadline == deadline_default) {
      why = "ERROR: Subscription has a deadline, but publisher does not;";
    } else if (sub_deadline < pub_deadline) {
      why = "ERROR: Subscription deadline is less than publisher deadline;";
    }
    if (why != nullptr) {
      *compatibility = RMW_QOS_COMPATIBILITY_ERROR;
      rmw_ret_t ret = _append_to_buffer(reason, reason_size, why);
      if (RMW_RET_OK != ret) {
        return ret;
      }
    }
  }

""")]),
    ('qos-r-guard-early', Q, [(ONLY, "  if (RMW_QOS_COMPATIBILITY_OK != *compatibility) {\n    return RMW_RET_OK;\n  }\n  {\n    // We don't know")]),
    ('qos-r-localverdict', Q, [("  *compatibility = RMW_QOS_COMPATIBILITY_OK;\n", "  rmw_qos_compatibility_type_t verdict = RMW_QOS_COMPATIBILITY_OK;\n  auto finish = rcpputils::make_scope_exit([&]() {*compatibility = verdict;});\n"), (None, None, None)][:1] + [(Q, None, lambda s: s.replace(BODY, BODY.replace('*compatibility', 'verdict')))]),
    ('qos-r-append-strlen', Q, [("strnlen(buffer, buffer_size)", "strlen(buffer)")]),
    ('qos-r-append-inline', Q, [("  size_t write_size = buffer_size - offset;\n", ""), ("buffer + offset, write_size, format", "&buffer[offset], buffer_size - offset, format")]),
    ('qos-r-clear-snprintf', Q, [("    reason[0] = '\\0';\n", "    *reason = 0;\n")]),
    ('qos-r-clear-memset', Q, [("    reason[0] = '\\0';\n", "    std::memset(reason, 0, reason_size);\n")]),
    ('qos-r-append-nested', Q, [("  if (!buffer || buffer_size == 0u) {\n    return RMW_RET_OK;\n  }\n", "  const bool has_buffer = buffer != nullptr && buffer_size > 0u;\n  if (!has_buffer) {\n    return RMW_RET_OK;\n  }\n")]),
    ('qos-r-append-va', Q, [("  std::va_list args;\n  va_start(args, format);\n  int snprintf_ret = rcutils_vsnprintf(buffer + offset, write_size, format, args);\n  va_end(args);\n", "  char * const end = buffer + offset;\n  std::va_list ap;\n  va_start(ap, format);\n  const int snprintf_ret = rcutils_vsnprintf(end, write_size, format, ap);\n  va_end(ap);\n")]),
    ('qos-r-str-helper', Q, [(CHK, "static const char *\n_or_unknown(const char * text)\n{\n  return text ? text : \"unknown\";\n}\n\n" + CHK), ("    const char * pub_liveliness_str = rmw_qos_liveliness_policy_to_str(publisher_qos.liveliness);\n    if (!pub_liveliness_str) {\n      pub_liveliness_str = \"unknown\";\n    }\n", "    const char * pub_liveliness_str = _or_unknown(rmw_qos_liveliness_policy_to_str(publisher_qos.liveliness));\n")]),
    ('qos-r-warn-switch', Q, [("    const bool pub_reliability_unknown =\n      publisher_qos.reliability == RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT ||\n      publisher_qos.reliability == RMW_QOS_POLICY_RELIABILITY_UNKNOWN;", "    auto unknown_reliability = [](auto r) {\n        switch (r) {\n          case RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT:\n          case RMW_QOS_POLICY_RELIABILITY_UNKNOWN:\n            return true;\n          default:\n            return false;\n        }\n      };\n    const bool pub_reliability_unknown = unknown_reliability(publisher_qos.reliability);")]),
    ('qos-r-order', Q, [(RELERR + DURERR, DURERR + RELERR)]),
    ('qos-r-macro', Q, [(RELERR, """#define FAIL(text) \\
  do { \\
    *compatibility = RMW_QOS_COMPATIBILITY_ERROR; \\
    rmw_ret_t fail_ret = _append_to_buffer(reason, reason_size, text); \\
    if (RMW_RET_OK != fail_ret) {return fail_ret;} \\
  } while (0)
  if (publisher_qos.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT &&
    subscription_qos.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE)
  {
    FAIL("ERROR: Best effort publisher and reliable subscription;");
  }

""")]),
    ('qos-r-duration-check', Q, [(LEASEERR, """  auto check = [&](const rmw_time_t & pub, const rmw_time_t & sub, const rmw_time_t & none, const char * missing, const char * less) -> rmw_ret_t {
      if (sub == none) {
        return RMW_RET_OK;
      }
      if (pub == none) {
        *compatibility = RMW_QOS_COMPATIBILITY_ERROR;
        return _append_to_buffer(reason, reason_size, "%s", missing);
      }
      if (sub < pub) {
        *compatibility = RMW_QOS_COMPATIBILITY_ERROR;
        return _append_to_buffer(reason, reason_size, "%s", less);
      }
      return RMW_RET_OK;
    };
  rmw_ret_t lease_ret = check(
    pub_lease, sub_lease, liveliness_lease_duration_default,
    "ERROR: Subscription has a liveliness lease duration, but publisher does not;",
    "ERROR: Subscription liveliness lease duration is less than publisher;");
  if (RMW_RET_OK != lease_ret) {
    return lease_ret;
  }

""")]),
]
