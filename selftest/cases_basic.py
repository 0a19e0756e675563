G = 'src/gid_utils.cpp'
T = 'src/time_utils.cpp'
LEX = """  return std::lexicographical_compare(
    lhs.data,
    lhs.data + RMW_GID_STORAGE_SIZE,
    rhs.data,
    rhs.data + RMW_GID_STORAGE_SIZE);
"""
MEMEQ = """  return std::memcmp(
    reinterpret_cast<const void *>(lhs.data),
    reinterpret_cast<const void *>(rhs.data),
    RMW_GID_STORAGE_SIZE) == 0;
"""
TOMSG = "  std::memcpy(&msg_gid->data, gid->data, RMW_GID_STORAGE_SIZE);\n"
FROMMSG = "  std::memcpy(const_cast<uint8_t *>(gid->data), &msg_gid->data, RMW_GID_STORAGE_SIZE);\n"
PRINT = """  ostream << std::hex;
  size_t i = 0;
  for (; i < (RMW_GID_STORAGE_SIZE - 1); i++) {
    ostream << static_cast<int>(gid.data[i]) << ".";
  }
  ostream << static_cast<int>(gid.data[i]);
  return ostream << std::dec;
"""
BODY = """  rmw_time_t t = time;
"""


def body():
    s = open('/repo/rmw_dds_common/src/time_utils.cpp').read()
    return s[s.index('  rmw_time_t t = time;'):s.rindex('}')]


B = body()
BUGS = [
    ('gid-lt-short', G, [("    rhs.data + RMW_GID_STORAGE_SIZE);", "    rhs.data + RMW_GID_STORAGE_SIZE - 1);"), ("    lhs.data + RMW_GID_STORAGE_SIZE,", "    lhs.data + RMW_GID_STORAGE_SIZE - 1,")], {'C60'}),
    ('gid-lt-strncmp', G, [(LEX, "  return strncmp(reinterpret_cast<const char *>(lhs.data), reinterpret_cast<const char *>(rhs.data), RMW_GID_STORAGE_SIZE) < 0;\n")], {'C60'}),
    ('gid-lt-bytewise', G, [(LEX, "  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    if (lhs.data[i] < rhs.data[i]) {return true;}\n  }\n  return false;\n")], {'C60'}),
    ('gid-lt-le', G, [(LEX, "  return std::memcmp(lhs.data, rhs.data, RMW_GID_STORAGE_SIZE) <= 0;\n")], {'C60'}),
    ('gid-lt-12', G, [(LEX, "  return std::memcmp(lhs.data, rhs.data, 12) < 0;\n")], {'C60'}),
    ('gid-lt-skip0', G, [(LEX, "  return std::lexicographical_compare(lhs.data + 1, lhs.data + RMW_GID_STORAGE_SIZE, rhs.data + 1, rhs.data + RMW_GID_STORAGE_SIZE);\n")], {'C60'}),
    ('gid-eq-12', G, [(MEMEQ, MEMEQ.replace('RMW_GID_STORAGE_SIZE', '12'))], {'C60'}),
    ('gid-eq-loop15', G, [(MEMEQ, "  for (size_t i = 1; i < RMW_GID_STORAGE_SIZE; ++i) {\n    if (lhs.data[i] != rhs.data[i]) {return false;}\n  }\n  return true;\n")], {'C60'}),
    ('gid-eq-impl', G, [(MEMEQ, "  if (lhs.implementation_identifier != rhs.implementation_identifier) {return false;}\n" + MEMEQ)], {'C60'}),
    ('gid-tomsg-12', G, [(TOMSG, TOMSG.replace('RMW_GID_STORAGE_SIZE', 'RMW_GID_STORAGE_SIZE - 4'))], {'C61'}),
    ('gid-frommsg-ptr', G, [(FROMMSG, FROMMSG.replace('RMW_GID_STORAGE_SIZE', 'sizeof(void *)'))], {'C61'}),
    ('gid-tomsg-rev', G, [(TOMSG, "  std::reverse_copy(gid->data, gid->data + RMW_GID_STORAGE_SIZE, msg_gid->data.begin());\n")], {'C61'}),
    ('gid-tomsg-loop', G, [(TOMSG, "  for (size_t i = 0; i + 1 < RMW_GID_STORAGE_SIZE; ++i) {msg_gid->data[i] = gid->data[i];}\n")], {'C61'}),
    ('gid-frommsg-swap', G, [(FROMMSG, "  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {gid->data[i] = msg_gid->data[i == 14 ? 15 : i == 15 ? 14 : i];}\n")], {'C61'}),
    ('gid-strncpy', G, [(TOMSG, "  strncpy(reinterpret_cast<char *>(&msg_gid->data), reinterpret_cast<const char *>(gid->data), RMW_GID_STORAGE_SIZE);\n")], {'C61'}),
    ('gid-lt-signed', G, [(LEX, "  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    const int8_t difference = static_cast<int8_t>(lhs.data[i] - rhs.data[i]);\n    if (difference != 0) {\n      return difference < 0;\n    }\n  }\n  return false;\n")], {'C60'}),
    ('gid-eq-xor', G, [(MEMEQ, "  uint8_t diff = 0;\n  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    diff = static_cast<uint8_t>(diff ^ lhs.data[i] ^ rhs.data[i]);\n  }\n  return diff == 0;\n")], {'C60'}),
    ('gid-eq-sum', G, [(MEMEQ, "  unsigned int a = 0;\n  unsigned int b = 0;\n  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    a = a * 31 + lhs.data[i];\n    b = b * 31 + rhs.data[i];\n  }\n  return a == b;\n")], {'C60'}),
    ('gid-lt-sum', G, [(LEX, "  unsigned int a = 0;\n  unsigned int b = 0;\n  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    a += lhs.data[i];\n    b += rhs.data[i];\n  }\n  return a < b;\n")], {'C60'}),
    ('gid-lt-int8', G, [(LEX, "  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    if (lhs.data[i] != rhs.data[i]) {\n      return static_cast<uint8_t>(lhs.data[i] - rhs.data[i]) > 127;\n    }\n  }\n  return false;\n")], {'C60'}),
    ('gid-eq-or-skip', G, [(MEMEQ, "  unsigned int diff = 0;\n  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; i += 2) {\n    diff |= lhs.data[i] ^ rhs.data[i];\n  }\n  return 0u == diff;\n")], {'C60'}),
    ('gid-eq-and', G, [(MEMEQ, "  unsigned int diff = 0;\n  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    diff |= (lhs.data[i] ^ rhs.data[i]) & 0x7f;\n  }\n  return 0u == diff;\n")], {'C60'}),
    ('gid-frommsg-strnlen', G, [(FROMMSG, "  std::memset(gid->data, 0, RMW_GID_STORAGE_SIZE);\n  std::memcpy(gid->data, msg_gid->data.data(), strnlen(reinterpret_cast<const char *>(msg_gid->data.data()), RMW_GID_STORAGE_SIZE));\n")], {'C61'}),
    ('gid-print-fill', G, [("  ostream << std::hex;\n", "  ostream << std::hex;\n  ostream.fill('0');\n")], {'C62'}),
    ('gid-print-width', G, [("    ostream << static_cast<int>(gid.data[i]) << \".\";", "    ostream.width(2);\n    ostream << static_cast<int>(gid.data[i]) << \".\";")], {'C62'}),
    ('gid-print-upper', G, [("  ostream << std::hex;\n", "  ostream << std::hex << std::uppercase;\n")], {'C62'}),
    ('gid-print-showbase', G, [("  ostream << std::hex;\n", "  ostream << std::hex << std::showbase;\n")], {'C62'}),
    ('gid-print-mask', G, [("  ostream << static_cast<int>(gid.data[i]);\n", "  ostream << static_cast<int>(gid.data[i] & 0x7f);\n")], {'C62'}),
    ('gid-print-signed', G, [("    ostream << static_cast<int>(gid.data[i]) << \".\";", "    ostream << static_cast<int>(static_cast<int8_t>(gid.data[i])) << \".\";")], {'C62'}),
    ('gid-print-nodec', G, [("  return ostream << std::dec;", "  return ostream;")], {'C62'}),
    ('gid-print-char', G, [("    ostream << static_cast<int>(gid.data[i]) << \".\";", "    ostream << gid.data[i] << \".\";")], {'C62'}),
    ('gid-print-short', G, [("i < (RMW_GID_STORAGE_SIZE - 1)", "i < (RMW_GID_STORAGE_SIZE - 2)")], {'C62'}),
    ('gid-print-last', G, [("  ostream << static_cast<int>(gid.data[i]);\n", "  ostream << static_cast<int>(gid.data[i - 1]);\n")], {'C62'}),
    ('time-int-cast', T, [("uint64_t ns_sec_adjust = t.nsec", "uint32_t ns_sec_adjust = t.nsec")], {'C71'}),
    ('time-sum', T, [("t.sec > INT_MAX - ns_sec_adjust", "t.sec + ns_sec_adjust > INT_MAX")], {'C71'}),
    ('time-ge', T, [("t.sec > INT_MAX - ns_sec_adjust", "t.sec >= INT_MAX - ns_sec_adjust")], {'C71'}),
    ('time-noover', T, [("    overflow_nsec = true;\n", "")], {'C71', 'C70'}),
    ('time-nosat', T, [("  if (overflow_nsec || overflow_sec) {", "  if (overflow_nsec && overflow_sec) {")], {'C71', 'C70'}),
    ('time-sec2', T, [("sec_to_ns - 1;", "sec_to_ns;")], {'C70', 'C71'}),
    ('time-uint', T, [("INT_MAX", "UINT_MAX"), ("INT_MAX", "UINT_MAX"), ("INT_MAX", "UINT_MAX"), ("INT_MAX", "UINT_MAX")], {'C70'}),
    ('time-mod', T, [("t.nsec = t.nsec - ns_sec_adjust * sec_to_ns;", "t.nsec = t.nsec - static_cast<uint32_t>(ns_sec_adjust * sec_to_ns);")], {'C71', 'C70'}),
    ('time-noclamp', T, [("  if (ns_sec_adjust > INT_MAX) {\n    ns_sec_adjust = INT_MAX;\n    overflow_nsec = true;\n  }\n", "")], {'C71', 'C70'}),
]
BUGS = [c for c in BUGS if c[0] != 'time-uint'] + [
    ('time-uint', T, [(None, None, lambda s: s)], {'C70'})][:0]
REFACTORS = [
    ('gid-r-memcmp', G, [(LEX, "  return std::memcmp(lhs.data, rhs.data, RMW_GID_STORAGE_SIZE) < 0;\n")]),
    ('gid-r-memcmp-greater', G, [(LEX, "  return 0 < std::memcmp(rhs.data, lhs.data, sizeof(lhs.data));\n")]),
    ('gid-r-loop', G, [(LEX, "  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    if (lhs.data[i] != rhs.data[i]) {\n      return lhs.data[i] < rhs.data[i];\n    }\n  }\n  return false;\n")]),
    ('gid-r-loop2', G, [(LEX, "  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    if (lhs.data[i] < rhs.data[i]) {return true;}\n    if (rhs.data[i] < lhs.data[i]) {return false;}\n  }\n  return false;\n")]),
    ('gid-r-while', G, [(LEX, "  size_t i = 0;\n  while (i < RMW_GID_STORAGE_SIZE && lhs.data[i] == rhs.data[i]) {\n    ++i;\n  }\n  return i < RMW_GID_STORAGE_SIZE && lhs.data[i] < rhs.data[i];\n")]),
    ('gid-r-mismatch', G, [(LEX, "  auto p = std::mismatch(lhs.data, lhs.data + RMW_GID_STORAGE_SIZE, rhs.data);\n  return p.first != lhs.data + RMW_GID_STORAGE_SIZE && *p.first < *p.second;\n")]),
    ('gid-r-stdbegin', G, [(LEX, "  return std::lexicographical_compare(\n    std::begin(lhs.data), std::end(lhs.data), std::begin(rhs.data), std::end(rhs.data));\n")]),
    ('gid-r-int', G, [(LEX, "  const int order = std::memcmp(lhs.data, rhs.data, RMW_GID_STORAGE_SIZE);\n  return order < 0;\n")]),
    ('gid-r-eq-equal', G, [(MEMEQ, "  return std::equal(lhs.data, lhs.data + RMW_GID_STORAGE_SIZE, rhs.data);\n")]),
    ('gid-r-eq-loop', G, [(MEMEQ, "  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    if (lhs.data[i] != rhs.data[i]) {\n      return false;\n    }\n  }\n  return true;\n")]),
    ('gid-r-eq-flag', G, [(MEMEQ, "  bool same = true;\n  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    same = same && lhs.data[i] == rhs.data[i];\n  }\n  return same;\n")]),
    ('gid-r-eq-not', G, [(MEMEQ, "  return !std::memcmp(lhs.data, rhs.data, sizeof(rhs.data));\n")]),
    ('gid-r-eq-cmp', G, [(MEMEQ, "  Compare_rmw_gid_t less;\n  return !less(lhs, rhs) && !less(rhs, lhs);\n")]),
    ('gid-r-copy', G, [(TOMSG, "  std::copy(gid->data, gid->data + RMW_GID_STORAGE_SIZE, msg_gid->data.begin());\n")]),
    ('gid-r-copyn', G, [(TOMSG, "  std::copy_n(gid->data, RMW_GID_STORAGE_SIZE, msg_gid->data.data());\n")]),
    ('gid-r-copyloop', G, [(FROMMSG, "  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    gid->data[i] = msg_gid->data[i];\n  }\n")]),
    ('gid-r-copydata', G, [(FROMMSG, "  std::memcpy(gid->data, msg_gid->data.data(), sizeof(gid->data));\n")]),
    ('gid-r-memmove', G, [(FROMMSG, "  std::memmove(gid->data, &msg_gid->data[0], msg_gid->data.size());\n")]),
    ('gid-r-copybe', G, [(FROMMSG, "  std::copy(msg_gid->data.begin(), msg_gid->data.end(), gid->data);\n")]),
    ('gid-r-copyhelper', G, [(TOMSG, "  copy_bytes(msg_gid->data.data(), gid->data);\n"), ("void\nrmw_dds_common::convert_gid_to_msg(", "static void copy_bytes(uint8_t * to, const uint8_t * from)\n{\n  std::memcpy(to, from, RMW_GID_STORAGE_SIZE);\n}\n\nvoid\nrmw_dds_common::convert_gid_to_msg("), (FROMMSG, "  copy_bytes(gid->data, msg_gid->data.data());\n")]),
    ('gid-r-static-assert', G, [(TOMSG, "  static_assert(sizeof(msg_gid->data) == RMW_GID_STORAGE_SIZE, \"size\");\n" + TOMSG)]),
    ('gid-r-print-first', G, [(PRINT, "  ostream << std::hex;\n  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    if (i != 0) {\n      ostream << \".\";\n    }\n    ostream << static_cast<int>(gid.data[i]);\n  }\n  ostream << std::dec;\n  return ostream;\n")]),
    ('gid-r-print-sep', G, [(PRINT, "  ostream << std::hex;\n  const char * sep = \"\";\n  for (uint8_t byte : gid.data) {\n    ostream << sep << static_cast<unsigned int>(byte);\n    sep = \".\";\n  }\n  return ostream << std::dec;\n")]),
    ('gid-r-print-char', G, [('<< ".";', "<< '.';")]),
    ('gid-r-print-oss', G, [(PRINT, "  std::ostringstream ss;\n  ss << std::hex;\n  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    if (i > 0) {ss << '.';}\n    ss << +gid.data[i];\n  }\n  return ostream << ss.str() << std::dec;\n"), ("#include <iostream>", "#include <iostream>\n#include <sstream>")]),
    ('gid-r-diff', G, [(LEX, "  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    const int diff = static_cast<int>(lhs.data[i]) - static_cast<int>(rhs.data[i]);\n    if (diff != 0) {\n      return diff < 0;\n    }\n  }\n  return false;\n")]),
    ('gid-r-three', G, [(LEX, "  return three_way(lhs, rhs) < 0;\n"), (MEMEQ, "  return three_way(lhs, rhs) == 0;\n"), ("bool\nCompare_rmw_gid_t::operator", "namespace\n{\nint three_way(const rmw_gid_t & a, const rmw_gid_t & b)\n{\n  return std::memcmp(a.data, b.data, sizeof(a.data));\n}\n}\n\nbool\nCompare_rmw_gid_t::operator")]),
    ('gid-r-three-loop', G, [(LEX, "  return three_way(lhs, rhs) < 0;\n"), (MEMEQ, "  return three_way(lhs, rhs) == 0;\n"), ("bool\nCompare_rmw_gid_t::operator", "namespace\n{\nint three_way(const rmw_gid_t & a, const rmw_gid_t & b)\n{\n  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    if (a.data[i] != b.data[i]) {\n      return a.data[i] < b.data[i] ? -1 : 1;\n    }\n  }\n  return 0;\n}\n}\n\nbool\nCompare_rmw_gid_t::operator")]),
    ('gid-r-eq-or', G, [(MEMEQ, "  uint8_t diff = 0;\n  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    diff = static_cast<uint8_t>(diff | (lhs.data[i] ^ rhs.data[i]));\n  }\n  return diff == 0;\n")]),
    ('gid-r-eq-or2', G, [(MEMEQ, "  unsigned int diff = 0;\n  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    diff |= lhs.data[i] ^ rhs.data[i];\n  }\n  return 0u == diff;\n")]),
    ('gid-r-eq-halves', G, [(MEMEQ, "  constexpr size_t half = RMW_GID_STORAGE_SIZE / 2;\n  return std::memcmp(lhs.data, rhs.data, half) == 0 &&\n         std::memcmp(lhs.data + half, rhs.data + half, RMW_GID_STORAGE_SIZE - half) == 0;\n")]),
    ('gid-r-eq-equal4', G, [(MEMEQ, "  return std::equal(std::begin(lhs.data), std::end(lhs.data), std::begin(rhs.data), std::end(rhs.data));\n")]),
    ('gid-r-eq-down', G, [(MEMEQ, "  for (size_t i = RMW_GID_STORAGE_SIZE; i-- > 0; ) {\n    if (lhs.data[i] != rhs.data[i]) {\n      return false;\n    }\n  }\n  return true;\n")]),
    ('gid-r-eq-count', G, [(MEMEQ, "  size_t same = 0;\n  while (same < RMW_GID_STORAGE_SIZE && lhs.data[same] == rhs.data[same]) {\n    ++same;\n  }\n  return same == RMW_GID_STORAGE_SIZE;\n")]),
    ('gid-r-ptr', G, [(LEX, "  const uint8_t * a = lhs.data;\n  const uint8_t * b = rhs.data;\n  const uint8_t * const end = a + RMW_GID_STORAGE_SIZE;\n  for (; a != end; ++a, ++b) {\n    if (*a != *b) {\n      return *a < *b;\n    }\n  }\n  return false;\n")]),
    ('gid-r-greater', G, [(LEX, "  return std::lexicographical_compare(\n    rhs.data, rhs.data + RMW_GID_STORAGE_SIZE, lhs.data, lhs.data + RMW_GID_STORAGE_SIZE,\n    [](uint8_t a, uint8_t b) {return a > b;}) && true;\n")]),
    ('gid-r-less', G, [(LEX, "  return std::lexicographical_compare(\n    lhs.data, lhs.data + RMW_GID_STORAGE_SIZE, rhs.data, rhs.data + RMW_GID_STORAGE_SIZE,\n    [](uint8_t a, uint8_t b) {return a < b;});\n")]),
    ('gid-r-eq-allof', G, [(MEMEQ, "  size_t i = 0;\n  return std::all_of(std::begin(lhs.data), std::end(lhs.data), [&](uint8_t b) {return b == rhs.data[i++];});\n")]),
    ('gid-r-copyptr', G, [(TOMSG, "  const uint8_t * from = gid->data;\n  for (auto & byte : msg_gid->data) {\n    byte = *from++;\n  }\n")]),
    ('gid-r-copydown', G, [(TOMSG, "  for (size_t i = RMW_GID_STORAGE_SIZE; i > 0; --i) {\n    msg_gid->data[i - 1] = gid->data[i - 1];\n  }\n")]),
    ('gid-r-copytmp', G, [(TOMSG, "  decltype(msg_gid->data) bytes;\n  std::memcpy(bytes.data(), gid->data, RMW_GID_STORAGE_SIZE);\n  msg_gid->data = bytes;\n")]),
    ('gid-r-copymin', G, [(FROMMSG, "  const size_t n = std::min<size_t>(msg_gid->data.size(), RMW_GID_STORAGE_SIZE);\n  std::memset(gid->data, 0, RMW_GID_STORAGE_SIZE);\n  std::memcpy(gid->data, msg_gid->data.data(), n);\n")]),
    ('gid-r-print-it', G, [(PRINT, "  ostream << std::hex << static_cast<int>(gid.data[0]);\n  std::for_each(gid.data + 1, gid.data + RMW_GID_STORAGE_SIZE, [&](uint8_t b) {\n    ostream << \".\" << static_cast<int>(b);\n  });\n  return ostream << std::dec;\n")]),
    ('gid-r-print-setf', G, [(PRINT, "  ostream.setf(std::ios_base::hex, std::ios_base::basefield);\n  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {\n    ostream << (i ? \".\" : \"\") << static_cast<int>(gid.data[i]);\n  }\n  ostream.setf(std::ios_base::dec, std::ios_base::basefield);\n  return ostream;\n")]),
    ('gid-r-print-while', G, [(PRINT, "  ostream << std::hex;\n  const uint8_t * it = gid.data;\n  const uint8_t * const last = gid.data + RMW_GID_STORAGE_SIZE - 1;\n  while (it != last) {\n    ostream << static_cast<int>(*it++) << \".\";\n  }\n  ostream << static_cast<int>(*last);\n  return ostream << std::dec;\n")]),
    ('gid-r-print-flags', G, [("  ostream << std::hex;\n", "  const std::ios_base::fmtflags flags = ostream.flags();\n  ostream << std::hex;\n"), ("  return ostream << std::dec;\n", "  ostream.flags(flags);\n  return ostream << std::dec;\n")]),
    ('time-r-direct', T, [(B, """  constexpr uint64_t sec_to_ns = 1000000000ULL;
  const uint64_t carry = time.nsec / sec_to_ns;
  rmw_time_t t;
  if (carry > INT_MAX || time.sec > INT_MAX - carry) {
    t.sec = INT_MAX;
    t.nsec = sec_to_ns - 1;
    RCUTILS_LOG_DEBUG_NAMED("rmw_dds_common", "saturated");
  } else {
    t.sec = time.sec + carry;
    t.nsec = time.nsec % sec_to_ns;
  }
  return t;
""")]),
    ('time-r-early', T, [(B, """  constexpr uint64_t kSec = 1000000000ULL;
  constexpr uint64_t kMax = static_cast<uint64_t>(std::numeric_limits<int32_t>::max());
  if (time.sec <= kMax) {
    const uint64_t sec = time.sec + time.nsec / kSec;
    if (sec <= kMax) {
      return rmw_time_t{sec, time.nsec % kSec};
    }
  }
  return rmw_time_t{kMax, kSec - 1};
"""), ("#include <climits>", "#include <climits>\n#include <limits>")]),
    ('time-r-min', T, [("  if (ns_sec_adjust > INT_MAX) {\n    ns_sec_adjust = INT_MAX;\n    overflow_nsec = true;\n  }\n", "  overflow_nsec = ns_sec_adjust > INT_MAX;\n  ns_sec_adjust = std::min<uint64_t>(ns_sec_adjust, INT_MAX);\n"), ("#include <climits>", "#include <algorithm>\n#include <climits>")]),
    ('time-r-mod', T, [("t.nsec = t.nsec - ns_sec_adjust * sec_to_ns;", "t.nsec %= sec_to_ns;")]),
    ('time-r-minus', T, [("t.nsec = t.nsec - ns_sec_adjust * sec_to_ns;", "t.nsec -= ns_sec_adjust * sec_to_ns;")]),
    ('time-r-helper', T, [("rmw_time_t\nrmw_dds_common::clamp", "static bool too_long(uint64_t sec, uint64_t carry)\n{\n  return sec > INT_MAX - carry;\n}\n\nrmw_time_t\nrmw_dds_common::clamp"), ("  if (t.sec > INT_MAX - ns_sec_adjust) {", "  if (too_long(t.sec, ns_sec_adjust)) {")]),
    ('time-r-oneflag', T, [("  bool overflow_nsec = false;\n  bool overflow_sec = false;\n", "  bool overflow = false;\n"), ("overflow_nsec = true", "overflow = true"), ("overflow_sec = true", "overflow = true"), ("overflow_nsec || overflow_sec", "overflow")]),
    ('time-r-ternary', T, [("  if (t.sec > INT_MAX - ns_sec_adjust) {\n    t.sec = INT_MAX;\n    overflow_sec = true;\n  } else {\n    t.sec += ns_sec_adjust;\n  }\n", "  overflow_sec = t.sec > INT_MAX - ns_sec_adjust;\n  t.sec = overflow_sec ? INT_MAX : t.sec + ns_sec_adjust;\n")]),
]
