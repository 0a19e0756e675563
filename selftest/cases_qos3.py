from importlib import util
import os
_sp = util.spec_from_file_location('cq', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cases_qos.py'))
_m = util.module_from_spec(_sp)
_sp.loader.exec_module(_m)
Q, SRC, APPEND, LT = _m.Q, _m.SRC, _m.APPEND, _m.LT
TAIL = "  int snprintf_ret = rcutils_vsnprintf(buffer + offset, write_size, format, args);\n  va_end(args);\n"


def writer(advance):
    """A writer object that keeps its own position."""
    def f(s):
        a = s.index('// Returns RMW_RET_OK if successful or no buffer was provided')
        b = s.index('rmw_ret_t\nqos_profile_check_compatible')
        s = s[:a] + """class ReasonWriter
{
public:
  ReasonWriter(char * buffer, size_t size)
  : next_(buffer), room_(buffer ? size : 0u) {}

  rmw_ret_t append(const char * format, ...)
  {
    if (room_ == 0u) {
      return RMW_RET_OK;
    }
    std::va_list args;
    va_start(args, format);
    const int ret = rcutils_vsnprintf(next_, room_, format, args);
    va_end(args);
    if (ret < 0) {
      RMW_SET_ERROR_MSG("failed to append to character buffer");
      return RMW_RET_ERROR;
    }
%s    return RMW_RET_OK;
  }

private:
  char * next_;
  size_t room_;
};

""" % advance + s[b:]
        s = s.replace("_append_to_buffer(\n      reason,\n      reason_size,", "writer.append(")
        import re
        s = re.sub(r"_append_to_buffer\(\s*reason,\s*reason_size,", "writer.append(", s)
        s = s.replace("    reason[0] = '\\0';\n  }\n", "    reason[0] = '\\0';\n  }\n  ReasonWriter writer(reason, reason_size);\n", 1)
        return s
    return [(None, f)]


GOOD = """    const size_t written = std::min(static_cast<size_t>(ret), room_ - 1u);
    next_ += written;
    room_ -= written;
"""


def collected(final):
    """The report is built as a string and copied at the end."""
    def f(s):
        a = s.index('// Returns RMW_RET_OK if successful or no buffer was provided')
        b = s.index('rmw_ret_t\nqos_profile_check_compatible')
        s = s[:a] + s[b:]
        import re
        s = re.sub(r"    rmw_ret_t (append_ret|ret) = _append_to_buffer\(\s*reason,\s*reason_size,\s*(\"[^\"%]*\")\);\n\s*if \(RMW_RET_OK != (append_ret|ret)\) \{\n\s*return (append_ret|ret);\n\s*\}\n", r"    report += \2;\n", s)
        s = re.sub(r"rmw_ret_t (append_ret|ret) = _append_to_buffer\(\s*reason,\s*reason_size,\s*(\"[^\"%]*\")\);\n\s*if \(RMW_RET_OK != (append_ret|ret)\) \{\n\s*return (append_ret|ret);\n\s*\}\n", r"report += \2;\n", s)

        def two(m):
            parts = m.group(2).strip('"').split('%s')
            args = [x.strip() for x in m.group(3).split(',') if x.strip()]
            e = 'std::string("%s")' % parts[0]
            for x, p in zip(args, parts[1:]):
                e += ' + %s' % x
                if p:
                    e += ' + "%s"' % p
            return 'report += %s;\n' % e
        s = re.sub(r"rmw_ret_t (append_ret|ret) = _append_to_buffer\(\s*reason,\s*reason_size,\s*(\"[^\"]*\"),([^;()]*)\);\n\s*if \(RMW_RET_OK != (?:append_ret|ret)\) \{\n\s*return (?:append_ret|ret);\n\s*\}\n", two, s)
        assert '_append_to_buffer' not in s, s[s.index('_append_to_buffer'):][:300]
        a = s.index('  // Best effort publisher and reliable subscription')
        b = s.index('  return RMW_RET_OK;\n}\n\nrmw_ret_t\nqos_profile_get_best_available_for_subscription')
        s = s[:a] + '  std::string report;\n' + s[a:b] + final + s[b:]
        return s.replace('#include <cstring>', '#include <cstring>\n#include <string>')
    return [(None, f)]


COPY = """  if (reason && reason_size != 0u) {
    const int ret = rcutils_snprintf(reason, reason_size, "%s", report.c_str());
    if (ret < 0) {
      RMW_SET_ERROR_MSG("failed to append to character buffer");
      return RMW_RET_ERROR;
    }
  }
"""
MEM = """  if (reason && reason_size != 0u) {
    const size_t n = std::min(report.size(), reason_size - 1u);
    std::memcpy(reason, report.data(), n);
    reason[n] = '\\0';
  }
"""
BUGS = [
    ('qos-writer-nomin', Q, writer("    next_ += ret;\n    room_ -= static_cast<size_t>(ret);\n"), {'C43'}),
    ('qos-writer-keep', Q, writer("    next_ += std::min(static_cast<size_t>(ret), room_ - 1u);\n"), {'C43'}),
    ('qos-collect-over', Q, collected(MEM.replace("reason_size - 1u", "reason_size")), {'C43'}),
    ('qos-collect-noterm', Q, collected(MEM.replace("    reason[n] = '\\0';\n", "")), {'C43'}),
    ('qos-collect-half', Q, collected(COPY.replace("reason_size, \"%s\"", "reason_size / 2, \"%s\"")), {'C43'}),
    ('qos-ret-trunc', Q, [("  if (snprintf_ret < 0) {", "  if (snprintf_ret < 0 || static_cast<size_t>(snprintf_ret) >= write_size) {")], {'C43'}),
    ('qos-full-skip', Q, [("  size_t write_size = buffer_size - offset;\n", "  size_t write_size = buffer_size - offset;\n  if (write_size < 16u) {\n    return RMW_RET_OK;\n  }\n")], {'C43'}),
    ('qos-full-error', Q, [("  size_t write_size = buffer_size - offset;\n", "  size_t write_size = buffer_size - offset;\n  if (write_size <= 1u) {\n    RMW_SET_ERROR_MSG(\"no room left\");\n    return RMW_RET_ERROR;\n  }\n")], {'C43'}),
    ('qos-sep', Q, [("  size_t write_size = buffer_size - offset;\n", "  if (offset > 0u) {\n    buffer[offset - 1] = ',';\n  }\n  size_t write_size = buffer_size - offset;\n")], {'C43'}),
    ('qos-clear-last', Q, [("    reason[0] = '\\0';\n", "    reason[reason_size - 1u] = '\\0';\n")], {'C43'}),
    ('qos-less-double', Q, [(LT, "  return static_cast<double>(t1.sec) + 1e-9 * static_cast<double>(t1.nsec) < static_cast<double>(t2.sec) + 1e-9 * static_cast<double>(t2.nsec);\n")], {'C41'}),
    ('qos-less-diff', Q, [(LT, "  const int64_t d = static_cast<int64_t>(t1.sec - t2.sec);\n  return d < 0 || (d == 0 && t1.nsec < t2.nsec);\n")], {'C41'}),
    ('qos-less-int', Q, [(LT, "  return static_cast<int32_t>(t1.sec) < static_cast<int32_t>(t2.sec) || (t1.sec == t2.sec && t1.nsec < t2.nsec);\n")], {'C41'}),
]
REFACTORS = [
    ('qos-r-writer', Q, writer(GOOD)),
    ('qos-r-collect', Q, collected(COPY)),
    ('qos-r-collect-mem', Q, collected(MEM)),
    ('qos-r-writer-room', Q, writer("    const size_t written = std::min(static_cast<size_t>(ret), room_);\n    next_ += written;\n    room_ -= written;\n")),
    ('qos-r-full', Q, [("  size_t write_size = buffer_size - offset;\n", "  size_t write_size = buffer_size - offset;\n  if (write_size <= 1u) {\n    return RMW_RET_OK;\n  }\n")]),
    ('qos-r-memchr', Q, [("  size_t offset = strnlen(buffer, buffer_size);\n", "  size_t offset = 0u;\n  while (offset < buffer_size && buffer[offset] != '\\0') {\n    ++offset;\n  }\n")]),
]
