F = 'rmw_dds_common/src/security.cpp'
SH = """#!/bin/bash
# Exit 0 when the property holds for the scenario, nonzero otherwise.  cwd: the repository.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -I rmw_dds_common/include "$here/demo.cpp" rmw_dds_common/src/security.cpp -o "$tmp/demo"
"$tmp/demo" "$tmp/enclave"
"""
HEAD = """#include <cstdio>
#include <filesystem>
#include <fstream>
#include <string>
#include <unordered_map>
#include "rmw_dds_common/security.hpp"
namespace fs = std::filesystem;
using Map = std::unordered_map<std::string, std::string>;
static void put(const std::string & p, const std::string & text) {std::ofstream(p) << text;}
static void fill(const std::string & d)
{
  fs::create_directories(d);
  for (const char * n : {"identity_ca.cert.pem", "cert.pem", "key.pem", "permissions_ca.cert.pem", "governance.p7s", "permissions.p7s"}) {
    put(d + "/" + n, "x");
  }
}
#define CHECK(c) do {if (!(c)) {std::printf("FAILED: %s\\n", #c); return 1;}} while (0)
int main(int, char ** argv)
{
  std::string d = argv[1];
  fill(d);
  Map m;
"""
TAIL = """  return 0;
}
"""


def seed(id, prop, edits, needs, breaks, body):
    return {'id': id, 'property': prop, 'edits': [(F, a, b) for a, b in edits], 'needs': needs, 'breaks': breaks,
            'files': {'demo.sh': SH, 'demo.cpp': HEAD + body + TAIL}}


SEEDS = [
    seed('sec-partial-clear', 'C01', [("      result.clear();\n      return false;", "      for (const auto & attribute : required_files) {\n        result.erase(attribute.first);\n      }\n      return false;")],
         'a result map reused from an earlier lookup of an enclave with a revocation list, followed by a lookup with a file missing',
         'A failed lookup leaves attributes of the earlier enclave in the result instead of an empty map.',
         """  put(d + "/crl.pem", "x");
  CHECK(rmw_dds_common::get_security_files("", d, m));
  fs::remove(d + "/governance.p7s");
  CHECK(!rmw_dds_common::get_security_files("", d, m));
  CHECK(m.empty());
"""),
    seed('sec-root-concat', 'C02', [("      std::filesystem::path full_path(secure_root);\n      full_path /= proc.first;", "      std::filesystem::path full_path(secure_root + \"/\" + proc.first);")],
         'an empty enclave directory name (the enclave is the working directory)',
         'The lookup leaves the enclave: it looks for the files in the file system root.',
         """  CHECK(rmw_dds_common::get_security_files("file://", d, m));
  fs::current_path(d);
  m.clear();
  CHECK(rmw_dds_common::get_security_files("file://", "", m));
  CHECK(m["CERTIFICATE"] == "file://cert.pem");
"""),
    seed('sec-stale-emplace', 'C02', [("    result[el.first] = attribute_value;", "    result.emplace(el.first, attribute_value);")],
         'a result map that already holds attributes, e.g. of another enclave',
         'Stale attributes of the earlier enclave survive a successful lookup.',
         """  std::string e = d + "2";
  fill(e);
  CHECK(rmw_dds_common::get_security_files("", d, m));
  CHECK(rmw_dds_common::get_security_files("", e, m));
  CHECK(m["PRIVATE_KEY"] == e + "/key.pem");
"""),
    seed('sec-p11-anywhere', 'C03', [("result.find(p11_prefix) != 0", "result.find(p11_prefix) == std::string::npos")],
         'PKCS#11 support and a .p11 file whose first token contains "pkcs11:" at a later position, e.g. inside a file URI',
         'A token that is not a PKCS#11 URI is used instead of the .pem file.',
         """  put(d + "/key.p11", "file:///pkcs11:old\\n");
  CHECK(rmw_dds_common::get_security_files(true, "", d, m));
  CHECK(m["PRIVATE_KEY"] == d + "/key.pem");
"""),
    seed('sec-p11-line', 'C04', [("  if (!(ifs >> result)) {", "  if (!std::getline(ifs, result)) {")],
         'PKCS#11 support and a .p11 file whose first line ends in a carriage return, blank or comment',
         'The URI carries trailing characters that are not part of the token.',
         """  put(d + "/cert.p11", "pkcs11:token=a;object=b\\r\\n");
  CHECK(rmw_dds_common::get_security_files(true, "file://", d, m));
  CHECK(m["CERTIFICATE"] == "pkcs11:token=a;object=b");
"""),
    seed('sec-crl-unusable', 'C05', [("      result[el.first] = prefix + full_path.generic_string();\n    }", "      result[el.first] = prefix + full_path.generic_string();\n    } else if (std::filesystem::exists(full_path, ec)) {\n      result.clear();\n      return false;\n    }")],
         'an enclave in which crl.pem exists but is a directory (or another non-regular file)',
         'An optional file makes the whole lookup fail.',
         """  fs::create_directories(d + "/crl.pem");
  CHECK(rmw_dds_common::get_security_files("", d, m));
  CHECK(m.size() == 6);
"""),
    seed('sec-p11-throws', 'C08', [("  std::ifstream ifs(full_path);\n", "  if (std::filesystem::exists(full_path) && std::filesystem::file_size(full_path) == 0) {\n    return false;\n  }\n  std::ifstream ifs(full_path);\n")],
         'PKCS#11 support and an enclave in which a .p11 file is a symbolic link loop or a directory',
         'A file system exception leaves the lookup instead of falling back to the .pem file.',
         """  put(d + "/cert.p11", "pkcs11:a\\n");
  put(d + "/identity_ca.cert.p11", "pkcs11:a\\n");
  put(d + "/permissions_ca.cert.p11", "pkcs11:a\\n");
  fs::create_symlink("key.p11", d + "/key.p11");
  try {
    CHECK(rmw_dds_common::get_security_files(true, "", d, m));
  } catch (const std::exception & ex) {
    std::printf("FAILED: %s\\n", ex.what());
    return 1;
  }
  CHECK(m["PRIVATE_KEY"] == d + "/key.pem");
"""),
    seed('sec-view-slash', 'C80', [("#include <fstream>\n", "#include <fstream>\n#include <string_view>\n"),
                                   ("  for (const std::pair<const std::string,\n    std::vector", "  std::string_view root = secure_root;\n  if (root.size() > 1 && root.back() == '/') {\n    root = secure_root.substr(0, secure_root.size() - 1);\n  }\n\n  for (const std::pair<const std::string,\n    std::vector"),
                                   ("      std::filesystem::path full_path(secure_root);\n      full_path /= proc.first;", "      std::filesystem::path full_path(root);\n      full_path /= proc.first;")],
         'an enclave path that ends with a slash', 'The view refers to a temporary string that is gone when the files are looked up, so other paths are inspected.',
         """  CHECK(rmw_dds_common::get_security_files("", d + "/", m));
  CHECK(m["CERTIFICATE"] == d + "/cert.pem");
"""),
    seed('sec-parent-enclave', 'C06', [("      if (proc.second(supports_pkcs11, prefix, full_path, attribute_value)) {\n", "      std::error_code ec;\n      if (!std::filesystem::exists(full_path, ec) && el.first == \"PERMISSIONS_CA\") {\n        full_path = full_path.parent_path().parent_path() / proc.first;\n      }\n      if (proc.second(supports_pkcs11, prefix, full_path, attribute_value)) {\n")],
         'an enclave without a permissions CA inside a directory that has one',
         'A certificate outside the given enclave is inspected and reported.',
         """  put(std::string(argv[1]) + "/../permissions_ca.cert.pem", "x");
  fs::remove(d + "/permissions_ca.cert.pem");
  CHECK(!rmw_dds_common::get_security_files("", d, m));
  CHECK(m.empty());
"""),
    seed('sec-open-creates', 'C06', [("  std::ifstream ifs(full_path);\n", "  std::fstream ifs(full_path, std::ios::in | std::ios::out | std::ios::app);\n")],
         'PKCS#11 support and an enclave directory without .p11 files',
         'Looking for a token creates an empty .p11 file in the enclave.',
         """  CHECK(rmw_dds_common::get_security_files(true, "", d, m));
  CHECK(!fs::exists(d + "/key.p11"));
  CHECK(!fs::exists(d + "/cert.p11"));
"""),
    seed('sec-short-remembers', 'C07', [("  return get_security_files(false, prefix, secure_root, result);", "  const auto key = result.find(\"PRIVATE_KEY\");\n  const bool refresh = key != result.end() && key->second.compare(0, 7, \"pkcs11:\") == 0;\n  return get_security_files(refresh, prefix, secure_root, result);")],
         'a result map that holds a PKCS#11 private key from an earlier lookup, then the short form on the same enclave',
         'The short form goes on using PKCS#11 tokens although it stands for a lookup without support.',
         """  put(d + "/key.p11", "pkcs11:a\\n");
  CHECK(rmw_dds_common::get_security_files(true, "", d, m));
  CHECK(m["PRIVATE_KEY"] == "pkcs11:a");
  CHECK(rmw_dds_common::get_security_files("", d, m));
  CHECK(m["PRIVATE_KEY"] == d + "/key.pem");
"""),
    seed('sec-short-drops', 'C07', [("  return get_security_files(false, prefix, secure_root, result);", "  std::unordered_map<std::string, std::string> files;\n  const bool ok = get_security_files(false, prefix, secure_root, files);\n  if (ok || !result.empty()) {\n    result.swap(files);\n  }\n  return ok;")],
         'the short form with a result map that already holds other entries',
         'The short form drops entries that the full form keeps.',
         """  Map n{{"LOGGING", "a"}};
  m = n;
  CHECK(rmw_dds_common::get_security_files("", d, m));
  CHECK(rmw_dds_common::get_security_files(false, "", d, n));
  CHECK(m == n);
"""),
    seed('sec-crl-early', 'C05', [("    result[el.first] = attribute_value;\n", "    result[el.first] = attribute_value;\n    if (attribute_value.size() > prefix.size() && el.first == \"PERMISSIONS_CA\" && supports_pkcs11 && attribute_value.compare(0, prefix.size(), prefix) != 0) {\n      return true;\n    }\n")],
         'a permissions CA in a token, a non-empty prefix, and the table order in which it comes late',
         'The lookup ends with success before the remaining attributes and the revocation list are looked at.',
         """  put(d + "/permissions_ca.cert.p11", "pkcs11:some-long-token-name\\n");
  put(d + "/crl.pem", "x");
  CHECK(rmw_dds_common::get_security_files(true, "file://", d, m));
  CHECK(m.count("CRL") == 1);
  CHECK(m.size() == 7);
"""),
]
