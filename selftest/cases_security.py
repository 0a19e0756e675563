F = 'src/security.cpp'
LOOP = """    std::string attribute_value;
    bool processed = false;
    for (auto & proc : el.second) {
      std::filesystem::path full_path(secure_root);
      full_path /= proc.first;
      if (proc.second(supports_pkcs11, prefix, full_path, attribute_value)) {
        processed = true;
        break;
      }
    }
    if (!processed) {
      result.clear();
      return false;
    }
    result[el.first] = attribute_value;
"""
P11 = """  std::ifstream ifs(full_path);
  if (!ifs.is_open()) {
    return false;
  }

  if (!(ifs >> result)) {
    return false;
  }
  if (result.find(p11_prefix) != 0) {
    return false;
  }

  return true;
"""
OPT = """    std::filesystem::path full_path(secure_root);
    full_path /= el.second;
    std::error_code ec;
    if (std::filesystem::is_regular_file(full_path, ec)) {
      result[el.first] = prefix + full_path.generic_string();
    }
"""
BUGS = [
    ('sec-noclear', F, [("      result.clear();\n      return false;", "      return false;")], {'C01'}),
    ('sec-erase-one', F, [("      result.clear();\n      return false;", "      result.erase(el.first);\n      return false;")], {'C01'}),
    ('sec-find-npos', F, [("result.find(p11_prefix) != 0", "result.find(p11_prefix) == std::string::npos")], {'C04', 'C03'}),
    ('sec-getline', F, [("!(ifs >> result)", "!std::getline(ifs, result)")], {'C04'}),
    ('sec-prefix-p11', F, [("    result[el.first] = attribute_value;", "    result[el.first] = attribute_value.compare(0, prefix.size(), prefix) == 0 ? attribute_value : prefix + attribute_value;")], {'C04'}),
    ('sec-nobreak', F, [("        processed = true;\n        break;", "        processed = true;")], {'C03'}),
    ('sec-order', F, [('{"key.p11", std::bind(process_pkcs_uri_security_file, _1, _2, _3, _4)},\n        {"key.pem", std::bind(process_file_uri_security_file, _1, _2, _3, _4)}',
                       '{"key.pem", std::bind(process_file_uri_security_file, _1, _2, _3, _4)},\n        {"key.p11", std::bind(process_pkcs_uri_security_file, _1, _2, _3, _4)}')], {'C03'}),
    ('sec-swap', F, [('{"governance.p7s"', '{"permissions.p7s"')], {'C02'}),
    ('sec-exists', F, [("!std::filesystem::is_regular_file(full_path, ec)", "!std::filesystem::exists(full_path, ec)")], {'C01', 'C03'}),
    ('sec-crl-exists', F, [("    if (std::filesystem::is_regular_file(full_path, ec)", "    if (std::filesystem::exists(full_path, ec)")], {'C05'}),
    ('sec-crl-noprefix', F, [("result[el.first] = prefix + full_path.generic_string();\n    }", "result[el.first] = full_path.generic_string();\n    }")], {'C05', 'C02'}),
    ('sec-crl-required', F, [("      result[el.first] = prefix + full_path.generic_string();\n    }", "      result[el.first] = prefix + full_path.generic_string();\n    } else if (std::filesystem::exists(full_path, ec)) {\n      result.clear();\n      return false;\n    }")], {'C05', 'C01'}),
    ('sec-nosupportcheck', F, [("  if (!supports_pkcs11) {\n    return false;\n  }\n", "")], {'C03'}),
    ('sec-short-true', F, [("return get_security_files(false, prefix, secure_root, result);", "return get_security_files(!prefix.empty(), prefix, secure_root, result);")], {'C07'}),
    ('sec-short-swap', F, [("return get_security_files(false, prefix, secure_root, result);", "return get_security_files(false, secure_root.empty() ? secure_root : prefix, secure_root, result);")], {'C07'}),
    ('sec-concat', F, [("      std::filesystem::path full_path(secure_root);\n      full_path /= proc.first;", "      std::filesystem::path full_path(secure_root + \"/\" + proc.first);")], {'C02'}),
    ('sec-throwing-p11', F, [("  std::ifstream ifs(full_path);\n", "  if (!std::filesystem::exists(full_path)) {\n    return false;\n  }\n  std::ifstream ifs(full_path);\n")], {'C08'}),
    ('sec-create', F, [("  const std::string p11_prefix", "  std::fstream touch(full_path, std::ios::in | std::ios::out | std::ios::app);\n  const std::string p11_prefix")], {'C06'}),
    ('sec-parent', F, [('{"CRL", "crl.pem"}', '{"CRL", "../crl.pem"}')], {'C06', 'C02'}),
    ('sec-parent2', F, [("    full_path /= el.second;\n", "    full_path /= el.second;\n    if (!std::filesystem::exists(full_path)) {full_path = std::filesystem::path(secure_root).parent_path() / el.second;}\n")], {'C06', 'C02'}),
    ('sec-static-cache', F, [("  const std::unordered_map<std::string, std::string> optional_files{", "  static std::string last_root;\n  if (last_root == secure_root && !result.empty()) {\n    return true;\n  }\n  last_root = secure_root;\n  const std::unordered_map<std::string, std::string> optional_files{")], {'C01', 'C05'}),
    ('sec-static-value', F, [("    std::string attribute_value;\n", "    static std::string attribute_value;\n"), ("        processed = true;\n", "        processed = true;\n"), ("    bool processed = false;", "    bool processed = !attribute_value.empty() && el.first == \"PERMISSIONS\";")], {'C01'}),
    ('sec-hoisted', F, [("    bool processed = false;\n", "    bool processed = false;\n"), ("    if (!processed) {", "    if (!processed && attribute_value.empty()) {")], {'C03', 'C04'}),
    ('sec-second-token', F, [("  if (!(ifs >> result)) {\n    return false;\n  }\n", "  if (!(ifs >> result)) {\n    return false;\n  }\n  if (result.find(p11_prefix) != 0 && !(ifs >> result)) {\n    return false;\n  }\n")], {'C04', 'C03'}),
    ('sec-emplace', F, [("    result[el.first] = attribute_value;", "    result.emplace(el.first, attribute_value);")], {'C02'}),
    ('sec-noprefix-file', F, [("  result = prefix + full_path.generic_string();\n  return true;", "  result = prefix.empty() ? full_path.generic_string() : prefix + full_path.filename().generic_string();\n  return true;")], {'C02'}),
    ('sec-skip-missing-opt', F, [("    if (!processed) {\n      result.clear();\n      return false;\n    }", "    if (!processed) {\n      if (el.first == \"PERMISSIONS\" && supports_pkcs11) {\n        continue;\n      }\n      result.clear();\n      return false;\n    }")], {'C01', 'C03'}),
    ('sec-p11-fallthrough', F, [("    bool processed = false;\n    for (auto & proc : el.second) {", "    bool processed = false;\n    for (auto & proc : el.second) {\n      if (supports_pkcs11 && el.second.size() > 1 && &proc == &el.second.back()) {\n        break;\n      }")], {'C03', 'C01'}),
    ('sec-cmp-6', F, [("result.find(p11_prefix) != 0", "result.compare(0, 6, p11_prefix, 0, 6) != 0")], {'C04', 'C03'}),
    ('sec-tolower', F, [("  return true;\n}\n\nbool get_security_files(\n  const std::string & prefix, const", "  if (result.size() > 7 && result.back() == ';') {\n    result.pop_back();\n  }\n  return true;\n}\n\nbool get_security_files(\n  const std::string & prefix, const")], {'C04'}),
    ('sec-clear-late', F, [("  for (const std::pair<const std::string, std::string> & el : optional_files) {", "  result.erase(\"GOVERNANCE\");\n  for (const std::pair<const std::string, std::string> & el : optional_files) {")], {'C01'}),
    ('sec-canonical', F, [("      full_path /= proc.first;\n", "      full_path /= proc.first;\n      full_path = std::filesystem::canonical(full_path);\n")], {'C08', 'C02'}),
    ('sec-read-symlink', F, [("  result = prefix + full_path.generic_string();\n  return true;", "  if (std::filesystem::is_symlink(full_path)) {\n    result = prefix + std::filesystem::read_symlink(full_path).generic_string();\n    return true;\n  }\n  result = prefix + full_path.generic_string();\n  return true;")], {'C02', 'C08'}),
    ('sec-filesize', F, [("  result = prefix + full_path.generic_string();\n  return true;", "  if (std::filesystem::file_size(full_path) == 0) {return false;}\n  result = prefix + full_path.generic_string();\n  return true;")], {'C01', 'C03', 'C08'}),
]
RANGE_P11 = """static bool has_p11_scheme(const std::string & uri)
{
  static const char scheme[] = "pkcs11:";
  return uri.compare(0, sizeof(scheme) - 1, scheme) == 0;
}

// Processor for security attributes with PKCS#11 URI
"""
REFACTORS = [
    ('sec-r-comment', F, [("  return true;\n}\n\n}  // namespace", "  (void)optional_files;\n  return true;\n}\n\n}  // namespace")]),
    ('sec-r-helper', F, [("// Processor for security attributes with PKCS#11 URI\n", RANGE_P11), ("  if (result.find(p11_prefix) != 0) {\n    return false;\n  }\n\n  return true;", "  return has_p11_scheme(result);"), ('  const std::string p11_prefix("pkcs11:");\n\n', '')]),
    ('sec-r-rfind', F, [("result.find(p11_prefix) != 0", "result.rfind(p11_prefix, 0) != 0")]),
    ('sec-r-compare', F, [("result.find(p11_prefix) != 0", "result.compare(0, p11_prefix.size(), p11_prefix) != 0")]),
    ('sec-r-substr', F, [("result.find(p11_prefix) != 0", "result.substr(0, p11_prefix.length()) != p11_prefix")]),
    ('sec-r-strncmp', F, [("result.find(p11_prefix) != 0", "std::strncmp(result.c_str(), \"pkcs11:\", 7) != 0"), ("#include <functional>", "#include <functional>\n#include <cstring>")]),
    ('sec-r-join', F, [("      std::filesystem::path full_path(secure_root);\n      full_path /= proc.first;", "      const auto full_path = std::filesystem::path(secure_root) / proc.first;")]),
    ('sec-r-hoistroot', F, [("  for (const std::pair<const std::string,\n", "  const std::filesystem::path root{secure_root};\n  for (const std::pair<const std::string,\n"), ("      std::filesystem::path full_path(secure_root);\n      full_path /= proc.first;", "      const std::filesystem::path full_path = root / proc.first;"), ("    std::filesystem::path full_path(secure_root);\n    full_path /= el.second;", "    const std::filesystem::path full_path = root / el.second;")]),
    ('sec-r-localtoken', F, [(P11, """  std::ifstream ifs(full_path);
  std::string token;
  if (ifs && ifs >> token && token.find(p11_prefix) == 0) {
    result = std::move(token);
    return true;
  }
  return false;
""")]),
    ('sec-r-lambda', F, [(LOOP, """    std::string attribute_value;
    const bool processed = std::any_of(
      el.second.begin(), el.second.end(),
      [&](const auto & proc) {
        std::filesystem::path full_path(secure_root);
        full_path /= proc.first;
        return proc.second(supports_pkcs11, prefix, full_path, attribute_value);
      });
    if (!processed) {
      result.clear();
      return false;
    }
    result[el.first] = attribute_value;
"""), ("#include <filesystem>", "#include <algorithm>\n#include <filesystem>")]),
    ('sec-r-findif', F, [(LOOP, """    std::string attribute_value;
    auto it = std::find_if(
      el.second.cbegin(), el.second.cend(),
      [&](const std::pair<std::string, security_file_processor> & proc) {
        return proc.second(supports_pkcs11, prefix, std::filesystem::path(secure_root) / proc.first, attribute_value);
      });
    if (it == el.second.cend()) {
      result.clear();
      return false;
    }
    result[el.first] = std::move(attribute_value);
"""), ("#include <filesystem>", "#include <algorithm>\n#include <filesystem>")]),
    ('sec-r-index', F, [("    for (auto & proc : el.second) {\n", "    for (std::size_t i = 0; i < el.second.size() && !processed; ++i) {\n      const auto & proc = el.second[i];\n"), ("        processed = true;\n        break;\n", "        processed = true;\n")]),
    ('sec-r-while', F, [("    for (auto & proc : el.second) {\n", "    auto proc_it = el.second.begin();\n    while (!processed && proc_it != el.second.end()) {\n      const auto & proc = *proc_it++;\n"), ("        processed = true;\n        break;\n", "        processed = true;\n")]),
    ('sec-r-iter', F, [("  for (const std::pair<const std::string, std::string> & el : optional_files) {", "  for (auto it = optional_files.begin(); it != optional_files.end(); ++it) {\n    const auto & el = *it;")]),
    ('sec-r-structured', F, [("  for (const std::pair<const std::string, std::string> & el : optional_files) {", "  for (const auto & [name, file] : optional_files) {"), ("full_path /= el.second;\n    std::error_code", "full_path /= file;\n    std::error_code"), ("      result[el.first] = prefix + full_path.generic_string();\n    }", "      result[name] = prefix + full_path.generic_string();\n    }")]),
    ('sec-r-insertassign', F, [("    result[el.first] = attribute_value;", "    result.insert_or_assign(el.first, std::move(attribute_value));")]),
    ('sec-r-noloop-opt', F, [("  for (const std::pair<const std::string, std::string> & el : optional_files) {\n" + OPT + "  }\n", """  std::string crl;
  if (process_file_uri_security_file(supports_pkcs11, prefix, std::filesystem::path(secure_root) / "crl.pem", crl)) {
    result["CRL"] = crl;
  }
"""), ("""  const std::unordered_map<std::string, std::string> optional_files{
    {"CRL", "crl.pem"},
  };

""", "")]),
    ('sec-r-collect', F, [("  for (const std::pair<const std::string,\n", "  std::unordered_map<std::string, std::string> found;\n  for (const std::pair<const std::string,\n"), ("    result[el.first] = attribute_value;\n  }\n", "    found[el.first] = attribute_value;\n  }\n  for (const auto & kv : found) {\n    result[kv.first] = kv.second;\n  }\n")]),
    ('sec-r-vector-table', F, [("const std::unordered_map<std::string, processor_vector> required_files{", "const std::vector<std::pair<const std::string, processor_vector>> required_files{")]),
    ('sec-r-map-table', F, [("const std::unordered_map<std::string, processor_vector> required_files{", "static const std::map<std::string, processor_vector> required_files{"), ("#include <filesystem>", "#include <map>\n#include <filesystem>")]),
    ('sec-r-fnptr', F, [("std::function<bool (bool, const std::string &, const std::filesystem::path &, std::string &)>;", "bool (*)(bool, const std::string &, const std::filesystem::path &, std::string &);")] + [("std::bind(process_pkcs_uri_security_file, _1, _2, _3, _4)", "process_pkcs_uri_security_file")] * 4 + [("std::bind(process_file_uri_security_file, _1, _2, _3, _4)", "process_file_uri_security_file")] * 6 + [("  using std::placeholders::_1;\n  using std::placeholders::_2;\n  using std::placeholders::_3;\n  using std::placeholders::_4;\n", "")]),
    ('sec-r-status', F, [("!std::filesystem::is_regular_file(full_path, ec)", "std::filesystem::status(full_path, ec).type() != std::filesystem::file_type::regular")]),
    ('sec-r-append', F, [("  result = prefix + full_path.generic_string();\n  return true;", "  result = prefix;\n  result += full_path.generic_string();\n  return true;")]),
    ('sec-r-ternary', F, [("  if (!(ifs >> result)) {\n    return false;\n  }\n  if (result.find(p11_prefix) != 0) {\n    return false;\n  }\n\n  return true;", "  ifs >> result;\n  return !ifs.fail() && result.find(p11_prefix) == 0;")]),
    ('sec-r-gate-caller', F, [("      if (proc.second(supports_pkcs11, prefix", "      if (!supports_pkcs11 && full_path.extension() == \".p11\") {\n        continue;\n      }\n      if (proc.second(supports_pkcs11, prefix")]),
    ('sec-r-short-inline', F, [("return get_security_files(false, prefix, secure_root, result);", "const bool supports_pkcs11 = false;\n  return get_security_files(supports_pkcs11, prefix, secure_root, result);")]),
    ('sec-r-extract', F, [(LOOP, """    std::string attribute_value;
    if (!resolve(el.second, attribute_value)) {
      result.clear();
      return false;
    }
    result[el.first] = attribute_value;
"""), ("  for (const std::pair<const std::string,\n", """  auto resolve = [&](const processor_vector & candidates, std::string & value) -> bool {
      for (const auto & candidate : candidates) {
        std::filesystem::path full_path(secure_root);
        full_path /= candidate.first;
        if (candidate.second(supports_pkcs11, prefix, full_path, value)) {
          return true;
        }
      }
      return false;
    };

  for (const std::pair<const std::string,
""")]),
    ('sec-r-struct', F, [("  const std::unordered_map<std::string, std::string> optional_files{\n    {\"CRL\", \"crl.pem\"},\n  };\n", "  struct OptionalFile { const char * key; const char * file; };\n  static constexpr OptionalFile optional_files[] = {{\"CRL\", \"crl.pem\"}};\n"), ("const std::pair<const std::string, std::string> & el : optional_files", "const OptionalFile & el : optional_files"), ("full_path /= el.second;\n    std::error_code", "full_path /= el.file;\n    std::error_code"), ("      result[el.first] = prefix + full_path.generic_string();\n    }", "      result[el.key] = prefix + full_path.generic_string();\n    }")]),
    ('sec-r-scope', F, [("  std::ifstream ifs(full_path);\n  if (!ifs.is_open()) {", "  std::ifstream ifs;\n  ifs.open(full_path.string(), std::ios::in);\n  if (!ifs) {")]),
    ('sec-r-try', F, [("  std::error_code ec;\n  if (!std::filesystem::is_regular_file(full_path, ec)) {\n    return false;\n  }", "  try {\n    if (!std::filesystem::is_regular_file(full_path)) {\n      return false;\n    }\n  } catch (const std::filesystem::filesystem_error &) {\n    return false;\n  }")]),
    ('sec-r-stringview', F, [("result.find(p11_prefix) != 0", "std::string_view(result).substr(0, 7) != \"pkcs11:\""), ("#include <string>", "#include <string>\n#include <string_view>")]),
    ('sec-r-iterfind', F, [("result.find(p11_prefix) != 0", "!std::equal(p11_prefix.begin(), p11_prefix.end(), result.begin(), result.begin() + std::min(result.size(), p11_prefix.size()))"), ("#include <filesystem>", "#include <algorithm>\n#include <filesystem>")]),
    ('sec-r-clearfirst', F, [("    if (!processed) {\n      result.clear();\n      return false;\n    }", "    if (processed == false) {\n      std::unordered_map<std::string, std::string>().swap(result);\n      return false;\n    }")]),
]
