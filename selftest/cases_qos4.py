"""Type hashes: transformed texts."""
from cases_qos2 import PARSE, ENC, inn
Q = 'src/qos.cpp'
IF = "  if (RCUTILS_RET_OK != rosidl_parse_type_hash_string("
MK = "  std::string type_hash_str(typehash_it->second.begin(), typehash_it->second.end());\n"
CALL = '  string_out = "typehash=" + std::string(type_hash_c_str) + ";";\n'


def pre(text):
    return inn(PARSE, (IF, text + IF))


def mk(text):
    return inn(PARSE, (MK, text))


LOOP = "  std::string type_hash_str;\n  for (%s) {\n    %s\n  }\n"
BUGS = [
    ('th-lower', Q, [('#include <cstring>', '#include <algorithm>\n#include <cctype>\n#include <cstring>'), pre("  std::transform(\n    type_hash_str.begin(), type_hash_str.end(), type_hash_str.begin(),\n    [](unsigned char c) {return static_cast<char>(std::tolower(c));});\n")], {'C50'}),
    ('th-lower2', Q, [('#include <cstring>', '#include <cctype>\n#include <cstring>'), pre("  for (char & c : type_hash_str) {\n    c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));\n  }\n")], {'C50'}),
    ('th-trim', Q, [pre("  type_hash_str.erase(type_hash_str.find_last_not_of(' ') + 1);\n")], {'C50'}),
    ('th-trimfront', Q, [pre("  type_hash_str.erase(0, type_hash_str.find_first_not_of(' '));\n")], {'C50'}),
    ('th-max', Q, [pre("  if (type_hash_str.size() > 71u) {\n    type_hash_str.resize(71u);\n  }\n")], {'C50'}),
    ('th-substr', Q, [inn(PARSE, ("type_hash_str.c_str()", "type_hash_str.substr(0, 71).c_str()"))], {'C50'}),
    ('th-long', Q, [pre("  if (type_hash_str.size() > 71u) {\n    type_hash_out = rosidl_get_zero_initialized_type_hash();\n    return RMW_RET_OK;\n  }\n")], {'C50'}),
    ('th-empty', Q, [pre("  if (type_hash_str.empty()) {\n    type_hash_out = rosidl_get_zero_initialized_type_hash();\n    return RMW_RET_OK;\n  }\n")], {'C50'}),
    ('th-space', Q, [mk(LOOP % ("uint8_t c : typehash_it->second", "if (' ' != c) {\n      type_hash_str.push_back(static_cast<char>(c));\n    }"))], {'C50'}),
    ('th-stop', Q, [mk(LOOP % ("uint8_t c : typehash_it->second", "if ('\\n' == c) {\n      break;\n    }\n    type_hash_str += static_cast<char>(c);"))], {'C50'}),
    ('th-one', Q, [mk(LOOP % ("size_t i = 0; i + 1 < typehash_it->second.size(); ++i", "type_hash_str += static_cast<char>(typehash_it->second[i]);"))], {'C50'}),
    ('th-prefix', Q, [pre("  if (type_hash_str.compare(0, 7, \"RIHS01_\") != 0) {\n    return RMW_RET_OK;\n  }\n")], {'C50'}),
    ('th-rihs', Q, [pre("  if (0 == type_hash_str.compare(0, 6, \"RIHS02\")) {\n    type_hash_str[5] = '1';\n  }\n")], {'C50'}),
    ('th-enc-lower', Q, [inn(ENC, (CALL, "  for (char * c = type_hash_c_str; *c != '\\0'; ++c) {\n    if (*c == '_') {\n      *c = '-';\n    }\n  }\n" + CALL))], {'C50'}),
    ('th-enc-version', Q, [inn(ENC, ("type_hash.version == ROSIDL_TYPE_HASH_VERSION_UNSET", "type_hash.version <= 1 && type_hash.value[0] == 0"))], {'C50'}),
    ('th-enc-zero', Q, [inn(ENC, ("type_hash.version == ROSIDL_TYPE_HASH_VERSION_UNSET", "type_hash.version == ROSIDL_TYPE_HASH_VERSION_UNSET || type_hash.value[31] == 0"))], {'C50'}),
]
REFACTORS = [
    ('th-r-loop', Q, [mk(LOOP % ("uint8_t c : typehash_it->second", "type_hash_str.push_back(static_cast<char>(c));"))]),
    ('th-r-iloop', Q, [mk(LOOP % ("size_t i = 0; i < typehash_it->second.size(); ++i", "type_hash_str += static_cast<char>(typehash_it->second[i]);"))]),
    ('th-r-itloop', Q, [mk(LOOP % ("auto it = typehash_it->second.begin(); it != typehash_it->second.end(); ++it", "type_hash_str += static_cast<char>(*it);"))]),
    ('th-r-copy', Q, [('#include <cstring>', '#include <algorithm>\n#include <cstring>\n#include <iterator>'), mk("  std::string type_hash_str;\n  type_hash_str.reserve(typehash_it->second.size());\n  std::copy(typehash_it->second.begin(), typehash_it->second.end(), std::back_inserter(type_hash_str));\n")]),
    ('th-r-append', Q, [mk("  std::string type_hash_str;\n  type_hash_str.append(typehash_it->second.begin(), typehash_it->second.end());\n")]),
    ('th-r-vec', Q, [mk("  std::vector<uint8_t> type_hash_str = typehash_it->second;\n  type_hash_str.push_back(0u);\n"), ("type_hash_str.c_str()", "reinterpret_cast<const char *>(type_hash_str.data())")]),
    ('th-r-assign', Q, [mk("  const auto & value = typehash_it->second;\n  std::string type_hash_str;\n  type_hash_str.assign(value.cbegin(), value.cend());\n")]),
    ('th-r-insert', Q, [mk("  const auto & value = typehash_it->second;\n  std::string type_hash_str;\n  type_hash_str.insert(type_hash_str.end(), value.cbegin(), value.cend());\n")]),
    ('th-r-size', Q, [mk("  const auto & value = typehash_it->second;\n  std::string type_hash_str(value.size(), '\\0');\n  std::copy(value.begin(), value.end(), type_hash_str.begin());\n"), ('#include <cstring>', '#include <algorithm>\n#include <cstring>')]),
    ('th-r-memcpy', Q, [mk("  const auto & value = typehash_it->second;\n  std::string type_hash_str(value.size(), '\\0');\n  std::memcpy(&type_hash_str[0], value.data(), value.size());\n")]),
]
