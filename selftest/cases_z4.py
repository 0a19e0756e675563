"""More rewritings of the security lookup, and bugs in them."""
import importlib.util
import os
_sp = importlib.util.spec_from_file_location('z3', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cases_z3.py'))
_z3 = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(_z3)
R, B, SHORT, HEAD = _z3.R, _z3.B, _z3.SHORT, _z3.HEAD

UNIQ_INC = '#include <memory>\n\n'
UNIQ = '''
namespace
{
struct Processor
{
  virtual ~Processor() = default;
  virtual bool operator()(const std::filesystem::path & file, std::string & out) const = 0;
};
struct Plain final : Processor
{
  explicit Plain(const std::string & p)
  : prefix(p) {}
  bool operator()(const std::filesystem::path & file, std::string & out) const override
  {
    std::error_code ec;
    const bool regular = std::filesystem::is_regular_file(file, ec);
    if (regular) {
      out = prefix;
      out += file.generic_string();
    }
    return regular;
  }
  const std::string & prefix;
};
struct Token final : Processor
{
  bool operator()(const std::filesystem::path & file, std::string & out) const override
  {
    std::ifstream ifs(file);
    std::string word;
    ifs >> word;
    if (ifs.fail() || word.compare(0, 7, "pkcs11:") != 0) {
      return false;
    }
    out.swap(word);
    return true;
  }
};
std::vector<std::unique_ptr<Processor>> make_chain(bool tokens, const std::string & prefix)
{
  std::vector<std::unique_ptr<Processor>> chain;
  if (tokens) {
    chain.push_back(std::make_unique<Token>());
  }
  chain.emplace_back(new Plain(prefix));
  return chain;
}
std::vector<std::string> names_for(const std::string & stem, bool tokens)
{
  if (tokens) {
    return {stem + ".p11", stem + ".pem"};
  }
  return {stem + ".pem"};
}
}  // namespace
''' + SHORT + HEAD + '''
  const auto chain = make_chain(supports_pkcs11, prefix);
  const std::filesystem::path root(secure_root);
  const std::vector<std::pair<std::string, std::string>> stems{
    {"IDENTITY_CA", "identity_ca.cert"}, {"CERTIFICATE", "cert"}, {"PRIVATE_KEY", "key"},
    {"PERMISSIONS_CA", "permissions_ca.cert"}};
  for (const auto & [attribute, stem] : stems) {
    const auto names = names_for(stem, supports_pkcs11);
    bool ok = false;
    for (size_t i = 0; i < names.size() && !ok; ++i) {
      std::string value;
      ok = (*chain[i])(root / names[i], value);
      if (ok) {
        result[attribute] = value;
      }
    }
    if (!ok) {
      result.clear();
      return false;
    }
  }
  const Plain plain(prefix);
  for (const char * attribute : {"GOVERNANCE", "PERMISSIONS"}) {
    const std::string file = attribute[0] == 'G' ? "governance.p7s" : "permissions.p7s";
    if (!plain(root / file, result[attribute])) {
      result.clear();
      return false;
    }
  }
  std::string crl;
  if (plain(root / "crl.pem", crl)) {
    result.insert_or_assign("CRL", crl);
  }
  return true;
}
'''

EXTEN_INC = '#include <algorithm>\n#include <map>\n\n'
EXTEN = '''
static bool resolve(
  bool supports_pkcs11, const std::string & prefix, const std::filesystem::path & file, std::string & value)
{
  if (file.extension() == ".p11") {
    if (!supports_pkcs11) {
      return false;
    }
    std::ifstream stream(file.string());
    if (!stream.is_open()) {
      return false;
    }
    std::string first;
    stream >> first;
    if (!stream) {
      return false;
    }
    const std::string scheme = "pkcs11:";
    if (first.size() < scheme.size() || first.substr(0, scheme.size()) != scheme) {
      return false;
    }
    value = first;
    return true;
  }
  std::error_code error;
  const bool present = std::filesystem::is_regular_file(file, error) && !error;
  if (!present) {
    return false;
  }
  value = prefix;
  value.append(file.generic_string());
  return true;
}
''' + SHORT + HEAD + '''
  static const std::map<std::string, std::vector<std::string>> wanted = {
    {"IDENTITY_CA", {"identity_ca.cert.p11", "identity_ca.cert.pem"}},
    {"CERTIFICATE", {"cert.p11", "cert.pem"}},
    {"PRIVATE_KEY", {"key.p11", "key.pem"}},
    {"PERMISSIONS_CA", {"permissions_ca.cert.p11", "permissions_ca.cert.pem"}},
    {"GOVERNANCE", {"governance.p7s"}},
    {"PERMISSIONS", {"permissions.p7s"}},
  };
  for (auto it = wanted.cbegin(); it != wanted.cend(); ++it) {
    const auto & files = it->second;
    std::string value;
    const auto hit = std::find_if(
      files.begin(), files.end(), [&](const std::string & name) {
        return resolve(supports_pkcs11, prefix, std::filesystem::path(secure_root) / name, value);
      });
    if (hit == files.end()) {
      result.clear();
      return false;
    }
    result[it->first] = value;
  }
  std::string revocations;
  if (resolve(false, prefix, std::filesystem::path(secure_root) / "crl.pem", revocations)) {
    result["CRL"] = revocations;
  }
  return true;
}
'''

KIND_INC = '#include <cstring>\n\n'
KIND = '''
namespace
{
enum class Kind { File, Token };

struct Candidate
{
  Kind kind;
  const char * filename;
};

std::pair<bool, std::string> lookup(
  Kind kind, bool supports_pkcs11, const std::string & prefix, const std::filesystem::path & path)
{
  switch (kind) {
    case Kind::Token:
      {
        if (!supports_pkcs11) {
          break;
        }
        std::ifstream input;
        input.open(path);
        std::string token;
        if (!input.good() || !(input >> token)) {
          break;
        }
        if (std::strncmp(token.c_str(), "pkcs11:", std::strlen("pkcs11:")) == 0) {
          return std::make_pair(true, token);
        }
        break;
      }
    case Kind::File:
      try {
        if (std::filesystem::is_regular_file(path)) {
          return {true, prefix + path.generic_string()};
        }
      } catch (const std::filesystem::filesystem_error &) {
        // missing
      }
      break;
  }
  return {false, std::string()};
}

bool first_of(
  const std::vector<Candidate> & candidates, bool supports_pkcs11, const std::string & prefix,
  const std::string & secure_root, std::string & value)
{
  for (const Candidate & candidate : candidates) {
    std::filesystem::path path(secure_root);
    path /= candidate.filename;
    bool found;
    std::tie(found, value) = lookup(candidate.kind, supports_pkcs11, prefix, path);
    if (found) {
      return true;
    }
  }
  return false;
}
}  // namespace
''' + SHORT + HEAD + '''
  const auto collect = [&](const char * attribute, std::vector<Candidate> candidates) -> bool {
      std::string value;
      if (!first_of(candidates, supports_pkcs11, prefix, secure_root, value)) {
        return false;
      }
      result[attribute] = value;
      return true;
    };
  const bool complete =
    collect("IDENTITY_CA", {{Kind::Token, "identity_ca.cert.p11"}, {Kind::File, "identity_ca.cert.pem"}}) &&
    collect("CERTIFICATE", {{Kind::Token, "cert.p11"}, {Kind::File, "cert.pem"}}) &&
    collect("PRIVATE_KEY", {{Kind::Token, "key.p11"}, {Kind::File, "key.pem"}}) &&
    collect("PERMISSIONS_CA", {{Kind::Token, "permissions_ca.cert.p11"}, {Kind::File, "permissions_ca.cert.pem"}}) &&
    collect("GOVERNANCE", {{Kind::File, "governance.p7s"}}) &&
    collect("PERMISSIONS", {{Kind::File, "permissions.p7s"}});
  if (!complete) {
    result.clear();
  } else {
    collect("CRL", {{Kind::File, "crl.pem"}});
  }
  return complete;
}
'''

TEMPL_INC = '#include <iterator>\n#include <tuple>\n\n'
TEMPL = '''
namespace
{
template<bool IsToken>
std::string read_value(const std::string & prefix, const std::filesystem::path & p)
{
  if constexpr (IsToken) {
    std::ifstream f(p);
    std::string t;
    if (!(f >> t)) {
      return {};
    }
    return t.rfind("pkcs11:", 0) == 0 ? t : std::string{};
  } else {
    std::error_code ec;
    return std::filesystem::is_regular_file(p, ec) ? prefix + p.generic_string() : std::string{};
  }
}

using Reader = std::string (*)(const std::string &, const std::filesystem::path &);

template<typename ... Candidates>
std::string first_value(
  const std::string & prefix, const std::filesystem::path & dir, const Candidates & ... candidates)
{
  std::string v;
  const auto attempt = [&](const std::pair<const char *, Reader> & c) {
      v = c.second(prefix, dir / c.first);
      return !v.empty();
    };
  (void)(attempt(candidates) || ...);
  return v;
}
}  // namespace
''' + SHORT + HEAD + '''
  const std::filesystem::path dir{secure_root};
  using C = std::pair<const char *, Reader>;
  const auto skip = [](const std::string &, const std::filesystem::path &) {return std::string{};};
  const Reader token = supports_pkcs11 ? Reader{&read_value<true>} : Reader{skip};
  const Reader file = &read_value<false>;
  const std::tuple<const char *, C, C> both[] = {
    {"IDENTITY_CA", C{"identity_ca.cert.p11", token}, C{"identity_ca.cert.pem", file}},
    {"CERTIFICATE", C{"cert.p11", token}, C{"cert.pem", file}},
    {"PRIVATE_KEY", C{"key.p11", token}, C{"key.pem", file}},
    {"PERMISSIONS_CA", C{"permissions_ca.cert.p11", token}, C{"permissions_ca.cert.pem", file}},
  };
  std::unordered_map<std::string, std::string> found;
  for (const auto & [name, a, b] : both) {
    found[name] = first_value(prefix, dir, a, b);
  }
  found["GOVERNANCE"] = first_value(prefix, dir, C{"governance.p7s", file});
  found["PERMISSIONS"] = first_value(prefix, dir, C{"permissions.p7s", file});
  for (const auto & entry : found) {
    if (entry.second.empty()) {
      result.clear();
      return false;
    }
  }
  std::string crl = first_value(prefix, dir, C{"crl.pem", file});
  if (!crl.empty()) {
    found.emplace("CRL", std::move(crl));
  }
  for (auto & entry : found) {
    result[entry.first] = std::move(entry.second);
  }
  return true;
}
'''

CLASSY_INC = '#include <list>\n#include <sstream>\n\n'
CLASSY = '''
namespace
{
class Enclave
{
public:
  Enclave(const std::string & root, const std::string & prefix, bool tokens)
  : root_(root), prefix_(prefix), tokens_(tokens)
  {
  }

  Enclave & require(const std::string & attribute, const std::list<std::string> & files)
  {
    if (!complete_) {
      return *this;
    }
    complete_ = false;
    for (auto f = files.begin(); f != files.end(); ++f) {
      if (load(attribute, *f)) {
        complete_ = true;
        break;
      }
    }
    return *this;
  }

  Enclave & optionally(const std::string & attribute, const std::string & file)
  {
    if (complete_) {
      load(attribute, file);
    }
    return *this;
  }

  bool store(std::unordered_map<std::string, std::string> & result) const
  {
    if (!complete_) {
      result.clear();
      return false;
    }
    for (const auto & v : values_) {
      result[v.first] = v.second;
    }
    return true;
  }

private:
  static bool ends_with(const std::string & s, const std::string & tail)
  {
    return s.size() >= tail.size() && s.compare(s.size() - tail.size(), tail.size(), tail) == 0;
  }

  bool load(const std::string & attribute, const std::string & file)
  {
    std::ostringstream name;
    name << (root_ / file).generic_string();
    const std::string full = name.str();
    if (ends_with(file, ".p11")) {
      if (!tokens_) {
        return false;
      }
      std::ifstream in(full.c_str());
      std::string token;
      if (!(in >> token)) {
        return false;
      }
      if (token.find("pkcs11:", 0) != 0) {
        return false;
      }
      values_.emplace_back(attribute, token);
      return true;
    }
    std::error_code ec;
    if (!std::filesystem::is_regular_file(full, ec)) {
      return false;
    }
    values_.emplace_back(attribute, prefix_ + full);
    return true;
  }

  std::filesystem::path root_;
  std::string prefix_;
  bool tokens_;
  bool complete_ = true;
  std::vector<std::pair<std::string, std::string>> values_;
};
}  // namespace
''' + SHORT + HEAD + '''
  Enclave enclave(secure_root, prefix, supports_pkcs11);
  enclave.require("IDENTITY_CA", {"identity_ca.cert.p11", "identity_ca.cert.pem"})
  .require("CERTIFICATE", {"cert.p11", "cert.pem"})
  .require("PRIVATE_KEY", {"key.p11", "key.pem"})
  .require("PERMISSIONS_CA", {"permissions_ca.cert.p11", "permissions_ca.cert.pem"})
  .require("GOVERNANCE", {"governance.p7s"})
  .require("PERMISSIONS", {"permissions.p7s"})
  .optionally("CRL", "crl.pem");
  return enclave.store(result);
}
'''

REFACTORS = [
    R('z4-sec-uniq', UNIQ, UNIQ_INC),
    R('z4-sec-exten', EXTEN, EXTEN_INC),
    R('z4-sec-kind', KIND, KIND_INC + '#include <tuple>\n'),
    R('z4-sec-templ', TEMPL, TEMPL_INC),
    R('z4-sec-classy', CLASSY, CLASSY_INC),
]
BUGS = [
    B('z4-b-uniq-left', UNIQ, UNIQ_INC, 'if (!plain(root / file, result[attribute])) {\n      result.clear();', 'if (!plain(root / file, result[attribute])) {\n      result.erase(attribute);', {'C01'}),
    B('z4-b-exten-stem', EXTEN, EXTEN_INC, 'first.size() < scheme.size() || ', 'first.size() == scheme.size() || ', {'C03'}),
    B('z4-b-exten-stale', EXTEN, EXTEN_INC, '''    const auto & files = it->second;
    std::string value;
''', '''    const auto & files = it->second;
    static std::string value;
''', set()),
    B('z4-b-kind-crl', KIND, KIND_INC + '#include <tuple>\n', 'return complete;', 'return complete && result.count("CRL") == 1;', {'C05'}),
    B('z4-b-templ-tok', TEMPL, TEMPL_INC, 't.rfind("pkcs11:", 0) == 0 ? t', 't.rfind("pkcs11:", 1) == 0 ? t', set()),
    B('z4-b-classy-one', CLASSY, CLASSY_INC, 'values_.emplace_back(attribute, token);', 'values_.emplace_back(attribute, prefix_ + token);', {'C04'}),
]
BUGS = [b for b in BUGS if b[-1]]
