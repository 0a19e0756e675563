"""Security lookup rewritten in other styles, and bugs in those styles."""
S = 'src/security.cpp'


def body(text, inc=''):
    def f(s):
        i = s.index('// Processor for security attributes with FILE URI')
        j = s.index('#include "rmw_dds_common/security.hpp"')
        return s[:j] + inc + s[j:i] + text + '\n}  // namespace rmw_dds_common\n'
    return f


SHORT = '''
bool get_security_files(
  const std::string & prefix, const std::string & secure_root,
  std::unordered_map<std::string, std::string> & result)
{
  return get_security_files(false, prefix, secure_root, result);
}
'''
HEAD = '''
bool get_security_files(
  bool supports_pkcs11,
  const std::string & prefix,
  const std::string & secure_root,
  std::unordered_map<std::string, std::string> & result)
{
'''

VIRT = '''
namespace
{
class Source
{
public:
  explicit Source(std::string name)
  : name_(std::move(name)) {}
  virtual ~Source() = default;
  virtual bool value(const std::filesystem::path & dir, const std::string & prefix, std::string & out) const = 0;

protected:
  std::string name_;
};

class FileSource : public Source
{
public:
  using Source::Source;
  bool value(const std::filesystem::path & dir, const std::string & prefix, std::string & out) const override
  {
    const std::filesystem::path file = dir / name_;
    std::error_code ec;
    if (!std::filesystem::is_regular_file(file, ec)) {
      return false;
    }
    out = prefix + file.generic_string();
    return true;
  }
};

class TokenSource : public Source
{
public:
  using Source::Source;
  bool value(const std::filesystem::path & dir, const std::string &, std::string & out) const override
  {
    std::ifstream in(dir / name_);
    std::string token;
    if (!in.is_open() || !(in >> token) || token.rfind("pkcs11:", 0) != 0) {
      return false;
    }
    out = token;
    return true;
  }
};
}  // namespace
''' + SHORT + HEAD + '''
  const std::filesystem::path dir(secure_root);
  const FileSource ca("identity_ca.cert.pem"), cert("cert.pem"), key("key.pem"), pca("permissions_ca.cert.pem"),
  gov("governance.p7s"), perm("permissions.p7s"), crl("crl.pem");
  const TokenSource ca_t("identity_ca.cert.p11"), cert_t("cert.p11"), key_t("key.p11"), pca_t("permissions_ca.cert.p11");
  struct Row
  {
    const char * attribute;
    const Source * token;
    const Source * file;
  };
  const Row rows[] = {
    {"IDENTITY_CA", &ca_t, &ca}, {"CERTIFICATE", &cert_t, &cert}, {"PRIVATE_KEY", &key_t, &key},
    {"PERMISSIONS_CA", &pca_t, &pca}, {"GOVERNANCE", nullptr, &gov}, {"PERMISSIONS", nullptr, &perm}};
  for (const Row & row : rows) {
    std::string value;
    const bool found =
      (supports_pkcs11 && row.token && row.token->value(dir, prefix, value)) || row.file->value(dir, prefix, value);
    if (!found) {
      result.clear();
      return false;
    }
    result[row.attribute] = value;
  }
  std::string value;
  if (crl.value(dir, prefix, value)) {
    result["CRL"] = value;
  }
  return true;
}
'''

OPT = '''
namespace
{
using Value = std::optional<std::string>;

Value from_file(const std::string & prefix, const std::filesystem::path & path)
{
  std::error_code ec;
  const auto status = std::filesystem::status(path, ec);
  if (ec || status.type() != std::filesystem::file_type::regular) {
    return std::nullopt;
  }
  return prefix + path.generic_string();
}

Value from_token(const std::filesystem::path & path)
{
  constexpr std::string_view scheme{"pkcs11:"};
  std::ifstream stream{path};
  std::string token;
  if (stream && stream >> token && std::string_view{token}.substr(0, scheme.size()) == scheme) {
    return token;
  }
  return {};
}

struct Attribute
{
  std::string_view name;
  std::string_view stem;
  bool may_be_token;
};

constexpr std::array<Attribute, 6> kAttributes{{
  {"IDENTITY_CA", "identity_ca.cert", true},
  {"CERTIFICATE", "cert", true},
  {"PRIVATE_KEY", "key", true},
  {"PERMISSIONS_CA", "permissions_ca.cert", true},
  {"GOVERNANCE", "governance", false},
  {"PERMISSIONS", "permissions", false},
}};
}  // namespace
''' + SHORT + HEAD + '''
  const std::filesystem::path root{secure_root};
  for (const auto & attribute : kAttributes) {
    Value value;
    const std::string stem{attribute.stem};
    if (supports_pkcs11 && attribute.may_be_token) {
      value = from_token(root / (stem + ".p11"));
    }
    if (!value) {
      value = from_file(prefix, root / (stem + (attribute.may_be_token ? ".pem" : ".p7s")));
    }
    if (!value.has_value()) {
      result.clear();
      return false;
    }
    result.insert_or_assign(std::string{attribute.name}, *std::move(value));
  }
  if (auto crl = from_file(prefix, root / "crl.pem")) {
    result.insert_or_assign("CRL", std::move(*crl));
  }
  return true;
}
'''
OPTINC = '#include <array>\n#include <optional>\n#include <string_view>\n'

ALLOF = '''
namespace
{
enum class Kind { PKCS11, FILE };

struct Candidate
{
  Kind kind;
  const char * file;
};

bool resolve(
  const Candidate & candidate, bool supports_pkcs11, const std::string & prefix, const std::string & root, std::string & value)
{
  std::filesystem::path path(root);
  path /= candidate.file;
  switch (candidate.kind) {
    case Kind::PKCS11: {
        if (!supports_pkcs11) {
          return false;
        }
        std::ifstream input(path);
        input >> value;
        return !input.fail() && value.compare(0, 7, "pkcs11:") == 0;
      }
    case Kind::FILE: {
        std::error_code error;
        if (std::filesystem::is_regular_file(path, error)) {
          value = prefix + path.generic_string();
          return true;
        }
        return false;
      }
  }
  return false;
}
}  // namespace
''' + SHORT + HEAD + '''
  const std::vector<std::pair<std::string, std::vector<Candidate>>> table{
    {"IDENTITY_CA", {{Kind::PKCS11, "identity_ca.cert.p11"}, {Kind::FILE, "identity_ca.cert.pem"}}},
    {"CERTIFICATE", {{Kind::PKCS11, "cert.p11"}, {Kind::FILE, "cert.pem"}}},
    {"PRIVATE_KEY", {{Kind::PKCS11, "key.p11"}, {Kind::FILE, "key.pem"}}},
    {"PERMISSIONS_CA", {{Kind::PKCS11, "permissions_ca.cert.p11"}, {Kind::FILE, "permissions_ca.cert.pem"}}},
    {"GOVERNANCE", {{Kind::FILE, "governance.p7s"}}},
    {"PERMISSIONS", {{Kind::FILE, "permissions.p7s"}}},
  };
  const bool complete = std::all_of(
    table.begin(), table.end(),
    [&](const auto & row) {
      return std::any_of(
        row.second.begin(), row.second.end(),
        [&](const Candidate & candidate) {
          std::string value;
          if (!resolve(candidate, supports_pkcs11, prefix, secure_root, value)) {
            return false;
          }
          result[row.first] = value;
          return true;
        });
    });
  if (!complete) {
    result.clear();
    return false;
  }
  std::string crl;
  if (resolve({Kind::FILE, "crl.pem"}, supports_pkcs11, prefix, secure_root, crl)) {
    result["CRL"] = crl;
  }
  return complete;
}
'''

GUARD = '''
namespace
{
class Transaction
{
public:
  explicit Transaction(std::unordered_map<std::string, std::string> & target)
  : target_(target) {}
  Transaction(const Transaction &) = delete;
  Transaction & operator=(const Transaction &) = delete;
  ~Transaction()
  {
    if (!committed_) {
      target_.clear();
    }
  }
  void set(const std::string & key, std::string value) {target_[key] = std::move(value);}
  bool commit()
  {
    committed_ = true;
    return true;
  }

private:
  std::unordered_map<std::string, std::string> & target_;
  bool committed_{false};
};

bool is_file(const std::filesystem::path & path)
{
  std::error_code ec;
  const std::filesystem::directory_entry entry(path, ec);
  return entry.is_regular_file(ec);
}

bool is_uri(const std::string & token)
{
  static const std::string scheme = "pkcs11:";
  return token.size() >= scheme.size() && std::equal(scheme.begin(), scheme.end(), token.begin());
}
}  // namespace
''' + SHORT + HEAD + '''
  Transaction transaction(result);
  const auto at = [&secure_root](const char * name) {return std::filesystem::path(secure_root) / name;};
  const auto uri = [&](const std::filesystem::path & path) {return prefix + path.generic_string();};
  const auto pem_or_p11 = [&](const char * key, const char * p11, const char * pem) {
      if (supports_pkcs11) {
        std::ifstream file(at(p11));
        std::string token;
        if (file.is_open() && file >> token && is_uri(token)) {
          transaction.set(key, token);
          return true;
        }
      }
      const auto path = at(pem);
      if (!is_file(path)) {
        return false;
      }
      transaction.set(key, uri(path));
      return true;
    };
  const auto document = [&](const char * key, const char * name) {
      const auto path = at(name);
      const bool exists = is_file(path);
      if (exists) {
        transaction.set(key, uri(path));
      }
      return exists;
    };
  if (!pem_or_p11("IDENTITY_CA", "identity_ca.cert.p11", "identity_ca.cert.pem") ||
    !pem_or_p11("CERTIFICATE", "cert.p11", "cert.pem") ||
    !pem_or_p11("PRIVATE_KEY", "key.p11", "key.pem") ||
    !pem_or_p11("PERMISSIONS_CA", "permissions_ca.cert.p11", "permissions_ca.cert.pem") ||
    !document("GOVERNANCE", "governance.p7s") ||
    !document("PERMISSIONS", "permissions.p7s"))
  {
    return false;
  }
  (void)document("CRL", "crl.pem");
  return transaction.commit();
}
'''

LOCALS = '''
namespace
{
using Files = std::unordered_map<std::string, std::string>;

template<typename Lookup>
bool first_match(const std::vector<std::string> & names, Lookup && lookup)
{
  for (auto it = names.cbegin(); it != names.cend(); ++it) {
    if (lookup(*it)) {
      return true;
    }
  }
  return false;
}

bool ends_with(const std::string & text, const std::string & suffix)
{
  return text.size() >= suffix.size() && text.compare(text.size() - suffix.size(), suffix.size(), suffix) == 0;
}
}  // namespace
''' + SHORT + HEAD + '''
  const std::vector<std::pair<std::string, std::vector<std::string>>> wanted = {
    {"IDENTITY_CA", {"identity_ca.cert.p11", "identity_ca.cert.pem"}},
    {"CERTIFICATE", {"cert.p11", "cert.pem"}},
    {"PRIVATE_KEY", {"key.p11", "key.pem"}},
    {"PERMISSIONS_CA", {"permissions_ca.cert.p11", "permissions_ca.cert.pem"}},
    {"GOVERNANCE", {"governance.p7s"}},
    {"PERMISSIONS", {"permissions.p7s"}},
  };
  Files found;
  size_t missing = 0;
  for (const auto & [attribute, names] : wanted) {
    std::string & slot = found[attribute];
    const bool ok = first_match(
      names, [&](const std::string & name) {
        const std::filesystem::path path = std::filesystem::path(secure_root) / name;
        if (ends_with(name, ".p11")) {
          std::ifstream file(path);
          return supports_pkcs11 && file >> slot && slot.find("pkcs11:") == 0;
        }
        std::error_code ec;
        if (!std::filesystem::is_regular_file(path, ec)) {
          return false;
        }
        slot = prefix;
        slot += path.generic_string();
        return true;
      });
    if (!ok) {
      ++missing;
    }
  }
  if (missing > 0) {
    result.clear();
    return false;
  }
  std::error_code ec;
  const auto crl = std::filesystem::path(secure_root) / "crl.pem";
  if (std::filesystem::is_regular_file(crl, ec)) {
    found.emplace("CRL", prefix + crl.generic_string());
  }
  for (auto & item : found) {
    result[item.first] = std::move(item.second);
  }
  return true;
}
'''

STAGED = '''
namespace
{
struct Lookup
{
  bool supports_pkcs11;
  const std::string & prefix;
  const std::string & root;
  std::unordered_map<std::string, std::string> & result;

  std::filesystem::path path(const std::string & name) const
  {
    std::filesystem::path p(root);
    p.append(name);
    return p;
  }

  bool token(const std::string & key, const std::string & name) const
  {
    if (!supports_pkcs11) {return false;}
    std::ifstream s;
    s.open(path(name));
    if (!s.good()) {return false;}
    std::string t;
    s >> t;
    if (s.fail()) {return false;}
    if (0 != t.find("pkcs11:")) {return false;}
    result[key].swap(t);
    return true;
  }

  bool file(const std::string & key, const std::string & name) const
  {
    const auto p = path(name);
    std::error_code ec;
    const auto st = std::filesystem::status(p, ec);
    if (!std::filesystem::is_regular_file(st)) {return false;}
    std::string & v = result[key];
    v.clear();
    v.append(prefix).append(p.generic_string());
    return true;
  }

  bool either(const std::string & key, const std::string & stem) const
  {
    return token(key, stem + ".p11") || file(key, stem + ".pem");
  }

  bool required() const
  {
    return either("IDENTITY_CA", "identity_ca.cert") && either("CERTIFICATE", "cert") && either("PRIVATE_KEY", "key") &&
           either("PERMISSIONS_CA", "permissions_ca.cert") && file("GOVERNANCE", "governance.p7s") &&
           file("PERMISSIONS", "permissions.p7s");
  }
};
}  // namespace
''' + SHORT + HEAD + '''
  const Lookup lookup{supports_pkcs11, prefix, secure_root, result};
  const bool ok = lookup.required();
  if (ok) {
    lookup.file("CRL", "crl.pem");
  } else {
    result.clear();
  }
  return ok;
}
'''

EXC = '''
namespace
{
struct Missing
{
  std::string attribute;
};

std::string file_uri(const std::string & prefix, const std::filesystem::path & path)
{
  std::error_code ec;
  if (std::filesystem::is_regular_file(path, ec)) {
    return prefix + path.generic_string();
  }
  return std::string();
}

bool read_token(const std::filesystem::path & path, std::string & token)
{
  std::ifstream ifs(path);
  if (!ifs) {
    return false;
  }
  ifs >> token;
  return !ifs.fail();
}
}  // namespace
''' + SHORT + HEAD + '''
  static const char * const with_token[][3] = {
    {"IDENTITY_CA", "identity_ca.cert.p11", "identity_ca.cert.pem"},
    {"CERTIFICATE", "cert.p11", "cert.pem"},
    {"PRIVATE_KEY", "key.p11", "key.pem"},
    {"PERMISSIONS_CA", "permissions_ca.cert.p11", "permissions_ca.cert.pem"},
  };
  static const char * const plain[][2] = {
    {"GOVERNANCE", "governance.p7s"}, {"PERMISSIONS", "permissions.p7s"},
  };
  const std::filesystem::path root = secure_root;
  for (size_t i = 0; i < sizeof(with_token) / sizeof(with_token[0]); ++i) {
    const auto & row = with_token[i];
    std::string token;
    if (supports_pkcs11 && read_token(root / row[1], token) && std::strncmp(token.c_str(), "pkcs11:", 7) == 0) {
      result[row[0]] = token;
      continue;
    }
    std::error_code ec;
    const auto pem = root / row[2];
    if (!std::filesystem::is_regular_file(pem, ec) || ec) {
      result.clear();
      return false;
    }
    result[row[0]] = prefix + pem.generic_string();
  }
  for (const auto & row : plain) {
    std::error_code ec;
    const auto p = root / row[1];
    if (!std::filesystem::is_regular_file(p, ec)) {
      result.clear();
      return false;
    }
    result[row[0]] = prefix + p.generic_string();
  }
  std::error_code ec;
  if (std::filesystem::is_regular_file(root / "crl.pem", ec)) {
    result["CRL"] = prefix + (root / "crl.pem").generic_string();
  }
  return true;
}
'''
EXC = EXC.replace('''struct Missing
{
  std::string attribute;
};

std::string file_uri(const std::string & prefix, const std::filesystem::path & path)
{
  std::error_code ec;
  if (std::filesystem::is_regular_file(path, ec)) {
    return prefix + path.generic_string();
  }
  return std::string();
}

''', '')

MAPREF = '''
static const std::string & pkcs11_scheme()
{
  static const std::string scheme("pkcs11:");
  return scheme;
}

using Processor = bool (*)(const std::string &, const std::filesystem::path &, std::string &);

static bool plain_file(const std::string & prefix, const std::filesystem::path & path, std::string & value)
{
  std::error_code ec;
  const bool present = std::filesystem::is_regular_file(path, ec);
  if (present) {
    value = prefix;
    value.append(path.generic_string());
  }
  return present;
}

static bool token_file(const std::string & /*prefix*/, const std::filesystem::path & path, std::string & value)
{
  if (std::ifstream input{path}; input.is_open()) {
    std::string word;
    if (input >> word) {
      if (word.substr(0, pkcs11_scheme().length()) == pkcs11_scheme()) {
        value = std::move(word);
        return true;
      }
    }
  }
  return false;
}
''' + SHORT + HEAD + '''
  std::map<std::string, std::vector<std::pair<const char *, Processor>>> sources;
  const auto add = [&sources](const char * attribute, const char * p11, const char * file) {
      auto & list = sources[attribute];
      if (p11 != nullptr) {
        list.emplace_back(p11, &token_file);
      }
      list.emplace_back(file, &plain_file);
    };
  const auto token = [&](const char * name) {return supports_pkcs11 ? name : nullptr;};
  add("IDENTITY_CA", token("identity_ca.cert.p11"), "identity_ca.cert.pem");
  add("CERTIFICATE", token("cert.p11"), "cert.pem");
  add("PRIVATE_KEY", token("key.p11"), "key.pem");
  add("PERMISSIONS_CA", token("permissions_ca.cert.p11"), "permissions_ca.cert.pem");
  add("GOVERNANCE", nullptr, "governance.p7s");
  add("PERMISSIONS", nullptr, "permissions.p7s");

  for (const auto & [attribute, list] : sources) {
    const auto hit = std::find_if(
      list.begin(), list.end(), [&, &attribute = attribute](const auto & source) {
        return source.second(prefix, std::filesystem::path(secure_root) / source.first, result[attribute]);
      });
    if (hit == list.end()) {
      result.clear();
      return false;
    }
  }
  std::string crl;
  if (plain_file(prefix, std::filesystem::path(secure_root) / "crl.pem", crl)) {
    result["CRL"] = crl;
  }
  return true;
}
'''

RECUR = '''
namespace
{
bool regular(const std::filesystem::path & p) noexcept
{
  std::error_code ec;
  return std::filesystem::is_regular_file(p, ec) && !ec;
}

std::pair<bool, std::string> token(const std::filesystem::path & p)
{
  std::pair<bool, std::string> r{false, ""};
  std::ifstream ifs(p.string());
  if (ifs >> r.second) {
    r.first = r.second.find("pkcs11:") == 0u;
  }
  return r;
}
}  // namespace
''' + SHORT + HEAD + '''
  const char * attributes[] = {
    "IDENTITY_CA", "CERTIFICATE", "PRIVATE_KEY", "PERMISSIONS_CA", "GOVERNANCE", "PERMISSIONS", "CRL"};
  const char * tokens[] = {
    "identity_ca.cert.p11", "cert.p11", "key.p11", "permissions_ca.cert.p11", "", "", ""};
  const char * files[] = {
    "identity_ca.cert.pem", "cert.pem", "key.pem", "permissions_ca.cert.pem", "governance.p7s", "permissions.p7s",
    "crl.pem"};
  constexpr size_t required = 6;
  for (size_t i = 0; i < 7; i++) {
    std::filesystem::path dir(secure_root);
    if (supports_pkcs11 && tokens[i][0] != '\\0') {
      auto [usable, uri] = token(dir / tokens[i]);
      if (usable) {
        result[attributes[i]] = uri;
        continue;
      }
    }
    dir /= files[i];
    if (regular(dir)) {
      result[attributes[i]] = prefix + dir.generic_string();
    } else if (i < required) {
      result.clear();
      return false;
    }
  }
  return true;
}
'''
ALG = '#include <algorithm>\n'
CS = '#include <cstring>\n'
MAP = '#include <algorithm>\n#include <map>\n'


def R(cid, text, inc=''):
    return (cid, S, [(S, None, body(text, inc))])


def B(cid, text, inc, old, new, expect):
    assert old in text, (cid, old)
    return (cid, S, [(S, None, body(text.replace(old, new, 1), inc))], expect)


REFACTORS = [
    R('z3-sec-virt', VIRT),
    R('z3-sec-opt', OPT, OPTINC),
    R('z3-sec-allof', ALLOF, ALG),
    R('z3-sec-guard', GUARD, ALG),
    R('z3-sec-locals', LOCALS),
    R('z3-sec-staged', STAGED),
    R('z3-sec-table', EXC, CS),
    R('z3-sec-ptrs', MAPREF, MAP),
    R('z3-sec-arrays', RECUR),
]
BUGS = [
    B('z3-b-virt-gate', VIRT, '', 'supports_pkcs11 && row.token &&', 'row.token &&', {'C03'}),
    B('z3-b-virt-swap', VIRT, '', '{"PRIVATE_KEY", &key_t, &key}', '{"PRIVATE_KEY", &cert_t, &key}', {'C02'}),
    B('z3-b-opt-status', OPT, OPTINC, 'status.type() != std::filesystem::file_type::regular', '!std::filesystem::exists(status)', {'C03'}),
    B('z3-b-opt-view', OPT, OPTINC, 'std::string_view{token}.substr(0, scheme.size()) == scheme',
      'std::string_view{token}.find(scheme) != std::string_view::npos', {'C04'}),
    B('z3-b-opt-p7s', OPT, OPTINC, '{"GOVERNANCE", "governance", false}', '{"GOVERNANCE", "governance", true}', {'C02', 'C03'}),
    B('z3-b-allof-any', ALLOF, ALG, 'const bool complete = std::all_of(', 'const bool complete = std::any_of(', {'C01'}),
    B('z3-b-allof-fail', ALLOF, ALG, '!input.fail() && ', '', {'C03'}),
    B('z3-b-guard-commit', GUARD, ALG, '  Transaction transaction(result);\n',
      '  Transaction transaction(result);\n  if (result.empty()) {\n    transaction.commit();\n  }\n', {'C01'}),
    B('z3-b-locals-ext', LOCALS, '', 'return supports_pkcs11 && file >> slot && slot.find("pkcs11:") == 0;',
      'return supports_pkcs11 && file >> slot && slot.find("pkcs11:") != std::string::npos;', {'C04'}),
    B('z3-b-locals-missing', LOCALS, '', 'missing > 0', 'missing > 1', {'C01'}),
    B('z3-b-locals-emplace', LOCALS, '', 'result[item.first] = std::move(item.second);', 'result.emplace(item.first, std::move(item.second));', {'C02'}),
    B('z3-b-staged-append', STAGED, '', '    v.clear();\n', '', {'C02'}),
    B('z3-b-staged-crl', STAGED, '', '    lookup.file("CRL", "crl.pem");', '    return lookup.file("CRL", "crl.pem");', {'C05'}),
    B('z3-b-table-cmp', EXC, CS, '"pkcs11:", 7)', '"pkcs11:", 6)', {'C04'}),
    B('z3-b-table-continue', EXC, CS, '      continue;\n', '      if (token.size() > 7) {\n        continue;\n      }\n', {'C03'}),
    B('z3-b-arrays-crl', RECUR, '', 'constexpr size_t required = 6;', 'constexpr size_t required = 7;', {'C05'}),
    B('z3-b-arrays-short', RECUR, '', 'constexpr size_t required = 6;', 'constexpr size_t required = 5;', {'C01'}),
]
