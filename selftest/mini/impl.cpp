// Small stand-ins for the rcutils, rosidl and rmw functions that rmw_dds_common calls.
#include "mini.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/snprintf.h"
#include "rcutils/strdup.h"
#include "rcutils/types/string_array.h"
#include "rmw/convert_rcutils_ret_to_rmw_ret.h"
#include "rmw/get_topic_endpoint_info.h"
#include "rmw/impl/cpp/key_value.hpp"
#include "rmw/names_and_types.h"
#include "rmw/qos_string_conversions.h"
#include "rmw/sanity_checks.h"
#include "rmw/topic_endpoint_info.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rosidl_runtime_c/type_hash.h"

static void * al(size_t n, void *) {return malloc(n ? n : 1);}
static void de(void * p, void *) {free(p);}
static void * re(void * p, size_t n, void *) {return realloc(p, n);}
static void * za(size_t n, size_t m, void *) {return calloc(n ? n : 1, m ? m : 1);}

Heap::Heap()
{
  a.allocate = [](size_t n, void * s) {return static_cast<Heap *>(s)->get(n);};
  a.zero_allocate = [](size_t n, size_t m, void * s) {
      void * p = static_cast<Heap *>(s)->get(n * m);
      return p ? memset(p, 0, n * m) : p;
    };
  a.reallocate = [](void * p, size_t n, void * s) {
      Heap * h = static_cast<Heap *>(s);
      void * q = h->get(n);
      if (q && p) {memcpy(q, p, n); h->put(p);}
      return q;
    };
  a.deallocate = [](void * p, void * s) {static_cast<Heap *>(s)->put(p);};
  a.state = this;
}
void * Heap::get(size_t n)
{
  ++calls;
  if (fail_at && calls == fail_at) {return nullptr;}
  void * p = malloc(n ? n : 1);
  live.insert(p);
  return p;
}
void Heap::put(void * p)
{
  if (!p) {return;}
  if (!live.erase(p)) {++wrong; return;}
  free(p);
}

extern "C" {
rcutils_allocator_t rcutils_get_zero_initialized_allocator(void) {return {};}
rcutils_allocator_t rcutils_get_default_allocator(void) {return {al, de, re, za, nullptr};}
bool rcutils_allocator_is_valid(const rcutils_allocator_t * a)
{
  return a && a->allocate && a->deallocate && a->reallocate && a->zero_allocate;
}
void * rcutils_reallocf(void * p, size_t n, rcutils_allocator_t * a)
{
  void * q = a->reallocate(p, n, a->state);
  if (!q) {a->deallocate(p, a->state);}
  return q;
}
rcutils_string_array_t rcutils_get_zero_initialized_string_array(void) {return {};}
rcutils_ret_t rcutils_string_array_init(rcutils_string_array_t * s, size_t n, const rcutils_allocator_t * a)
{
  if (!a || !s) {return RCUTILS_RET_INVALID_ARGUMENT;}
  s->data = nullptr;
  s->size = n;
  s->allocator = *a;
  if (n) {
    s->data = static_cast<char **>(a->zero_allocate(n, sizeof(char *), a->state));
    if (!s->data) {s->size = 0; return RCUTILS_RET_BAD_ALLOC;}
  }
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_fini(rcutils_string_array_t * s)
{
  if (!s) {return RCUTILS_RET_INVALID_ARGUMENT;}
  if (!s->data) {return RCUTILS_RET_OK;}
  for (size_t i = 0; i < s->size; ++i) {
    s->allocator.deallocate(s->data[i], s->allocator.state);
    s->data[i] = nullptr;
  }
  s->allocator.deallocate(s->data, s->allocator.state);
  s->data = nullptr;
  s->size = 0;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_resize(rcutils_string_array_t *, size_t) {return RCUTILS_RET_ERROR;}
char * rcutils_strndup(const char * str, size_t n, rcutils_allocator_t a)
{
  if (!str) {return nullptr;}
  char * p = static_cast<char *>(a.allocate(n + 1, a.state));
  if (p) {memcpy(p, str, n); p[n] = 0;}
  return p;
}
char * rcutils_strdup(const char * str, rcutils_allocator_t a) {return str ? rcutils_strndup(str, strlen(str), a) : nullptr;}
void rcutils_set_error_state(const char *, const char *, size_t) {}
bool rcutils_error_is_set(void) {return false;}
const rcutils_error_state_t * rcutils_get_error_state(void) {return nullptr;}
rcutils_error_string_t rcutils_get_error_string(void) {return {};}
void rcutils_reset_error(void) {}
void rcutils_stub_log(int, const char *, const char *, ...) {}
int rcutils_vsnprintf(char * b, size_t n, const char * f, va_list l)
{
  if (!f || (!b && n)) {return -1;}
  return vsnprintf(b, n, f, l);
}
int rcutils_snprintf(char * b, size_t n, const char * f, ...)
{
  va_list l;
  va_start(l, f);
  int r = rcutils_vsnprintf(b, n, f, l);
  va_end(l);
  return r;
}
rmw_ret_t rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret_t r)
{
  return r == RCUTILS_RET_OK ? RMW_RET_OK : r == RCUTILS_RET_INVALID_ARGUMENT ? RMW_RET_INVALID_ARGUMENT :
         r == RCUTILS_RET_BAD_ALLOC ? RMW_RET_BAD_ALLOC : RMW_RET_ERROR;
}
rmw_ret_t rmw_check_zero_rmw_string_array(rcutils_string_array_t * a)
{
  return a && !a->size && !a->data ? RMW_RET_OK : RMW_RET_INVALID_ARGUMENT;
}
rmw_names_and_types_t rmw_get_zero_initialized_names_and_types(void) {return {};}
rmw_ret_t rmw_names_and_types_check_zero(rmw_names_and_types_t * n)
{
  return n && !n->names.size && !n->names.data && !n->types ? RMW_RET_OK : RMW_RET_INVALID_ARGUMENT;
}
rmw_ret_t rmw_names_and_types_init(rmw_names_and_types_t * n, size_t size, rcutils_allocator_t * a)
{
  rcutils_ret_t r = rcutils_string_array_init(&n->names, size, a);
  if (r != RCUTILS_RET_OK) {return rmw_convert_rcutils_ret_to_rmw_ret(r);}
  n->types = nullptr;
  if (size) {
    n->types = static_cast<rcutils_string_array_t *>(a->zero_allocate(size, sizeof(rcutils_string_array_t), a->state));
    if (!n->types) {
      (void)!rcutils_string_array_fini(&n->names);
      return RMW_RET_BAD_ALLOC;
    }
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_names_and_types_fini(rmw_names_and_types_t * n)
{
  if (!n) {return RMW_RET_INVALID_ARGUMENT;}
  if (n->names.size && !n->types) {return RMW_RET_INVALID_ARGUMENT;}
  for (size_t i = 0; i < n->names.size; ++i) {(void)!rcutils_string_array_fini(&n->types[i]);}
  if (n->types) {
    n->names.allocator.deallocate(n->types, n->names.allocator.state);
    n->types = nullptr;
  }
  (void)!rcutils_string_array_fini(&n->names);
  return RMW_RET_OK;
}
rmw_topic_endpoint_info_t rmw_get_zero_initialized_topic_endpoint_info(void) {return {};}
static rmw_ret_t put(const char ** f, const char * v, rcutils_allocator_t * a)
{
  if (!v || !rcutils_allocator_is_valid(a)) {return RMW_RET_INVALID_ARGUMENT;}
  char * p = rcutils_strdup(v, *a);
  if (!p) {return RMW_RET_BAD_ALLOC;}
  *f = p;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_topic_type(rmw_topic_endpoint_info_t * i, const char * v, rcutils_allocator_t * a) {return put(&i->topic_type, v, a);}
rmw_ret_t rmw_topic_endpoint_info_set_node_name(rmw_topic_endpoint_info_t * i, const char * v, rcutils_allocator_t * a) {return put(&i->node_name, v, a);}
rmw_ret_t rmw_topic_endpoint_info_set_node_namespace(rmw_topic_endpoint_info_t * i, const char * v, rcutils_allocator_t * a) {return put(&i->node_namespace, v, a);}
rmw_ret_t rmw_topic_endpoint_info_set_topic_type_hash(rmw_topic_endpoint_info_t * i, const rosidl_type_hash_t * h) {i->topic_type_hash = *h; return RMW_RET_OK;}
rmw_ret_t rmw_topic_endpoint_info_set_endpoint_type(rmw_topic_endpoint_info_t * i, rmw_endpoint_type_t t) {i->endpoint_type = t; return RMW_RET_OK;}
rmw_ret_t rmw_topic_endpoint_info_set_gid(rmw_topic_endpoint_info_t * i, const uint8_t gid[], size_t n)
{
  if (n > RMW_GID_STORAGE_SIZE) {return RMW_RET_INVALID_ARGUMENT;}
  memset(i->endpoint_gid, 0, RMW_GID_STORAGE_SIZE);
  memcpy(i->endpoint_gid, gid, n);
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_qos_profile(rmw_topic_endpoint_info_t * i, const rmw_qos_profile_t * q) {i->qos_profile = *q; return RMW_RET_OK;}
rmw_ret_t rmw_topic_endpoint_info_fini(rmw_topic_endpoint_info_t * i, rcutils_allocator_t * a)
{
  for (const char ** f : {&i->node_name, &i->node_namespace, &i->topic_type}) {
    a->deallocate(const_cast<char *>(*f), a->state);
    *f = nullptr;
  }
  *i = {};
  return RMW_RET_OK;
}
rmw_topic_endpoint_info_array_t rmw_get_zero_initialized_topic_endpoint_info_array(void) {return {};}
rmw_ret_t rmw_topic_endpoint_info_array_check_zero(rmw_topic_endpoint_info_array_t * x)
{
  return x && !x->size && !x->info_array ? RMW_RET_OK : RMW_RET_ERROR;
}
rmw_ret_t rmw_topic_endpoint_info_array_init_with_size(rmw_topic_endpoint_info_array_t * x, size_t n, rcutils_allocator_t * a)
{
  x->info_array = static_cast<rmw_topic_endpoint_info_t *>(a->zero_allocate(n, sizeof(*x->info_array), a->state));
  if (!x->info_array) {return RMW_RET_BAD_ALLOC;}
  x->size = n;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_array_fini(rmw_topic_endpoint_info_array_t * x, rcutils_allocator_t * a)
{
  for (size_t i = 0; i < x->size; ++i) {(void)!rmw_topic_endpoint_info_fini(&x->info_array[i], a);}
  a->deallocate(x->info_array, a->state);
  x->info_array = nullptr;
  x->size = 0;
  return RMW_RET_OK;
}
const char * rmw_qos_durability_policy_to_str(enum rmw_qos_durability_policy_e v)
{
  return v == RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT ? "system_default" : v == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL ? "transient_local" :
         v == RMW_QOS_POLICY_DURABILITY_VOLATILE ? "volatile" : v == RMW_QOS_POLICY_DURABILITY_UNKNOWN ? "unknown" :
         v == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE ? "best_available" : nullptr;
}
const char * rmw_qos_liveliness_policy_to_str(enum rmw_qos_liveliness_policy_e v)
{
  return v == RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT ? "system_default" : v == RMW_QOS_POLICY_LIVELINESS_AUTOMATIC ? "automatic" :
         v == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC ? "manual_by_topic" : v == RMW_QOS_POLICY_LIVELINESS_UNKNOWN ? "unknown" :
         v == RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE ? "best_available" : nullptr;
}
const char * rmw_qos_reliability_policy_to_str(enum rmw_qos_reliability_policy_e v)
{
  return v == RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT ? "system_default" : v == RMW_QOS_POLICY_RELIABILITY_RELIABLE ? "reliable" :
         v == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT ? "best_effort" : v == RMW_QOS_POLICY_RELIABILITY_UNKNOWN ? "unknown" :
         v == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE ? "best_available" : nullptr;
}
rosidl_type_hash_t rosidl_get_zero_initialized_type_hash(void) {return {};}
rcutils_ret_t rosidl_stringify_type_hash(const rosidl_type_hash_t * h, rcutils_allocator_t a, char ** out)
{
  std::string s = "RIHS0" + std::to_string(h->version % 10) + "_";
  for (uint8_t b : h->value) {
    char t[3];
    snprintf(t, sizeof t, "%02x", b);
    s += t;
  }
  *out = rcutils_strdup(s.c_str(), a);
  return *out ? RCUTILS_RET_OK : RCUTILS_RET_BAD_ALLOC;
}
rcutils_ret_t rosidl_parse_type_hash_string(const char * t, rosidl_type_hash_t * h)
{
  *h = {};
  if (!t || strncmp(t, "RIHS0", 5) || strlen(t) != 7 + 64) {return RCUTILS_RET_INVALID_ARGUMENT;}
  h->version = t[5] - '0';
  for (int i = 0; i < 32; ++i) {
    unsigned v;
    if (sscanf(t + 7 + 2 * i, "%2x", &v) != 1) {return RCUTILS_RET_INVALID_ARGUMENT;}
    h->value[i] = static_cast<uint8_t>(v);
  }
  return RCUTILS_RET_OK;
}
}  // extern "C"

namespace rmw
{
namespace impl
{
namespace cpp
{
std::map<std::string, std::vector<uint8_t>> parse_key_value(std::vector<uint8_t> kv)
{
  std::map<std::string, std::vector<uint8_t>> m;
  std::string key;
  std::vector<uint8_t> value;
  bool in = false;
  for (size_t i = 0; i < kv.size(); ++i) {
    if (kv[i] == '=' && !in) {
      in = true;
    } else if (kv[i] == ';' && in) {
      if (i + 1 < kv.size() && kv[i + 1] == ';') {
        value.push_back(';');
        ++i;
        continue;
      }
      m[key] = value;
      key.clear();
      value.clear();
      in = false;
    } else if (in) {
      value.push_back(kv[i]);
    } else {
      key += static_cast<char>(kv[i]);
    }
  }
  return m;
}
}  // namespace cpp
}  // namespace impl
}  // namespace rmw
