// Faithful stand-ins for the handful of rcutils / rmw / rosidl_runtime_c functions
// rmw_dds_common calls. Behaviour follows the ROS 2 (Jazzy) implementations.
#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>

#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging_macros.h"
#include "rcutils/format_string.h"
#include "rcutils/snprintf.h"
#include "rcutils/strdup.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/types/string_array.h"
#include "rmw/convert_rcutils_ret_to_rmw_ret.h"
#include "rmw/error_handling.h"
#include "rmw/names_and_types.h"
#include "rmw/qos_string_conversions.h"
#include "rmw/sanity_checks.h"
#include "rmw/time.h"
#include "rmw/topic_endpoint_info.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rosidl_runtime_c/type_hash.h"

// set by the harness, reset when it happens: an endpoint list is released and the release reported as failed;
// stringification of type hashes fails for another reason than memory
std::atomic<bool> vh_fini_fails{false};
std::atomic<bool> vh_stringify_fails{false};

extern "C" {

// ---- fault injection ----
static std::atomic<int_least64_t> g_fault_count{RCUTILS_FAULT_INJECTION_NEVER_FAIL};
int _rcutils_fault_injection_maybe_fail(void)
{
  int_least64_t c = g_fault_count.load(std::memory_order_relaxed);
  if (c == RCUTILS_FAULT_INJECTION_NEVER_FAIL) {return -1;}
  for (;; ) {
    int_least64_t desired = c > RCUTILS_FAULT_INJECTION_NEVER_FAIL ? c - 1 : RCUTILS_FAULT_INJECTION_NEVER_FAIL;
    if (g_fault_count.compare_exchange_weak(c, desired)) {
      return c == 0 ? 0 : (c > 0 ? 1 : -1);
    }
  }
}
bool rcutils_fault_injection_is_test_complete(void)
{
  return g_fault_count.load() > RCUTILS_FAULT_INJECTION_NEVER_FAIL;
}
void rcutils_fault_injection_set_count(int_least64_t count) {g_fault_count.store(count);}
int_least64_t rcutils_fault_injection_get_count(void) {return g_fault_count.load();}

// ---- logging ----
void shim_log(int, const char *, const char * format, ...)
{
  char buf[1024];
  va_list args;
  va_start(args, format);
  vsnprintf(buf, sizeof(buf), format, args);
  va_end(args);
}

// ---- errors ----
static thread_local bool t_error_set = false;
static thread_local rcutils_error_state_t t_error_state;
void rcutils_set_error_state(const char * error_string, const char * file, size_t line_number)
{
  if (!error_string) {return;}
  snprintf(t_error_state.message, sizeof(t_error_state.message), "%s", error_string);
  snprintf(t_error_state.file, sizeof(t_error_state.file), "%s", file ? file : "");
  t_error_state.line_number = line_number;
  t_error_set = true;
}
bool rcutils_error_is_set(void) {return t_error_set;}
const rcutils_error_state_t * rcutils_get_error_state(void) {return t_error_set ? &t_error_state : nullptr;}
rcutils_error_string_t rcutils_get_error_string(void)
{
  rcutils_error_string_t s;
  memset(&s, 0, sizeof(s));
  if (!t_error_set) {
    snprintf(s.str, sizeof(s.str), "error not set");
  } else {
    snprintf(s.str, sizeof(s.str), "%s, at %s:%" PRIu64, t_error_state.message, t_error_state.file, t_error_state.line_number);
  }
  return s;
}
void rcutils_reset_error(void) {t_error_set = false;}

// ---- allocator ----
static void * default_allocate(size_t size, void *)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(NULL);
  return malloc(size);
}
static void default_deallocate(void * p, void *) {free(p);}
static void * default_reallocate(void * p, size_t size, void *)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(NULL);
  return realloc(p, size);
}
static void * default_zero_allocate(size_t n, size_t s, void *)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(NULL);
  return calloc(n, s);
}
rcutils_allocator_t rcutils_get_zero_initialized_allocator(void)
{
  rcutils_allocator_t a = {NULL, NULL, NULL, NULL, NULL};
  return a;
}
rcutils_allocator_t rcutils_get_default_allocator(void)
{
  rcutils_allocator_t a = {default_allocate, default_deallocate, default_reallocate, default_zero_allocate, NULL};
  return a;
}
bool rcutils_allocator_is_valid(const rcutils_allocator_t * a)
{
  return a && a->allocate && a->deallocate && a->zero_allocate && a->reallocate;
}
void * rcutils_reallocf(void * pointer, size_t size, rcutils_allocator_t * a)
{
  if (!a || !a->reallocate || !a->deallocate) {return NULL;}
  void * p = a->reallocate(pointer, size, a->state);
  if (!p) {a->deallocate(pointer, a->state);}
  return p;
}

// ---- strings ----
int rcutils_snprintf(char * buffer, size_t buffer_size, const char * format, ...)
{
  va_list args;
  va_start(args, format);
  int ret = rcutils_vsnprintf(buffer, buffer_size, format, args);
  va_end(args);
  return ret;
}
int rcutils_vsnprintf(char * buffer, size_t buffer_size, const char * format, va_list args)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(-1);
  if (NULL == format) {return -1;}
  if (NULL == buffer && 0 == buffer_size) {return vsnprintf(NULL, 0, format, args);}
  if (NULL == buffer || 0 == buffer_size) {return -1;}
  return vsnprintf(buffer, buffer_size, format, args);
}
char * rcutils_format_string_limit(rcutils_allocator_t allocator, size_t limit, const char * format, ...)
{
  if (!format || !rcutils_allocator_is_valid(&allocator)) {return NULL;}
  va_list args, copy;
  va_start(args, format);
  va_copy(copy, args);
  char * out = NULL;
  int n = vsnprintf(NULL, 0, format, args);
  if (n >= 0 && static_cast<size_t>(n) + 1 <= limit) {
    out = static_cast<char *>(allocator.allocate(static_cast<size_t>(n) + 1, allocator.state));
    if (out) {vsnprintf(out, static_cast<size_t>(n) + 1, format, copy);}
  }
  va_end(copy);
  va_end(args);
  return out;
}
char * rcutils_strdup(const char * str, rcutils_allocator_t allocator)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(NULL);
  if (NULL == str) {return NULL;}
  return rcutils_strndup(str, strlen(str), allocator);
}
char * rcutils_strndup(const char * str, size_t string_length, rcutils_allocator_t allocator)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(NULL);
  if (NULL == str) {return NULL;}
  char * p = static_cast<char *>(allocator.allocate(string_length + 1, allocator.state));
  if (NULL == p) {return NULL;}
  memcpy(p, str, string_length);
  p[string_length] = '\0';
  return p;
}
rcutils_string_array_t rcutils_get_zero_initialized_string_array(void)
{
  rcutils_string_array_t a;
  memset(&a, 0, sizeof(a));
  return a;
}
rcutils_ret_t rcutils_string_array_init(
  rcutils_string_array_t * string_array, size_t size, const rcutils_allocator_t * allocator)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RCUTILS_RET_BAD_ALLOC);
  if (NULL == allocator) {
    RCUTILS_SET_ERROR_MSG("allocator is null");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(string_array, RCUTILS_RET_INVALID_ARGUMENT);
  string_array->size = size;
  string_array->data = static_cast<char **>(allocator->zero_allocate(size, sizeof(char *), allocator->state));
  if (NULL == string_array->data && 0 != size) {
    RCUTILS_SET_ERROR_MSG("failed to allocate string array");
    return RCUTILS_RET_BAD_ALLOC;
  }
  string_array->allocator = *allocator;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_fini(rcutils_string_array_t * string_array)
{
  if (NULL == string_array) {
    RCUTILS_SET_ERROR_MSG("string_array is null");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  if (NULL == string_array->data) {return RCUTILS_RET_OK;}
  rcutils_allocator_t * allocator = &string_array->allocator;
  if (!rcutils_allocator_is_valid(allocator)) {
    RCUTILS_SET_ERROR_MSG("allocator is invalid");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  for (size_t i = 0; i < string_array->size; ++i) {
    allocator->deallocate(string_array->data[i], allocator->state);
    string_array->data[i] = NULL;
  }
  allocator->deallocate(string_array->data, allocator->state);
  string_array->data = NULL;
  string_array->size = 0;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_cmp(
  const rcutils_string_array_t * lhs, const rcutils_string_array_t * rhs, int * res)
{
  if (!lhs || !rhs || !res) {return RCUTILS_RET_INVALID_ARGUMENT;}
  size_t n = lhs->size < rhs->size ? lhs->size : rhs->size;
  *res = 0;
  for (size_t i = 0; i < n && *res == 0; ++i) {*res = strcmp(lhs->data[i], rhs->data[i]);}
  if (*res == 0) {*res = lhs->size < rhs->size ? -1 : (lhs->size > rhs->size ? 1 : 0);}
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_resize(rcutils_string_array_t * a, size_t new_size)
{
  if (!a) {return RCUTILS_RET_INVALID_ARGUMENT;}
  if (a->size == new_size) {return RCUTILS_RET_OK;}
  for (size_t i = new_size; i < a->size; ++i) {
    a->allocator.deallocate(a->data[i], a->allocator.state);
    a->data[i] = NULL;
  }
  char ** d = static_cast<char **>(a->allocator.reallocate(a->data, new_size * sizeof(char *), a->allocator.state));
  if (!d && new_size != 0) {return RCUTILS_RET_BAD_ALLOC;}
  a->data = d;
  for (size_t i = a->size; i < new_size; ++i) {a->data[i] = NULL;}
  a->size = new_size;
  return RCUTILS_RET_OK;
}

// ---- rmw ----
rmw_ret_t rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret_t r)
{
  switch (r) {
    case RCUTILS_RET_OK: return RMW_RET_OK;
    case RCUTILS_RET_INVALID_ARGUMENT: return RMW_RET_INVALID_ARGUMENT;
    case RCUTILS_RET_BAD_ALLOC: return RMW_RET_BAD_ALLOC;
    default: return RMW_RET_ERROR;
  }
}
rmw_ret_t rmw_check_zero_rmw_string_array(rcutils_string_array_t * array)
{
  if (!array) {
    RMW_SET_ERROR_MSG("rmw_string_array is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (array->size != 0) {
    RMW_SET_ERROR_MSG("rmw_string_array size is not zero");
    return RMW_RET_ERROR;
  }
  if (array->data) {
    RMW_SET_ERROR_MSG("rmw_string_array data is not null");
    return RMW_RET_ERROR;
  }
  return RMW_RET_OK;
}
rmw_names_and_types_t rmw_get_zero_initialized_names_and_types(void)
{
  rmw_names_and_types_t n;
  n.names = rcutils_get_zero_initialized_string_array();
  n.types = NULL;
  return n;
}
rmw_ret_t rmw_names_and_types_check_zero(rmw_names_and_types_t * n)
{
  if (!n) {
    RMW_SET_ERROR_MSG("names_and_types is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (n->names.size != 0) {
    RMW_SET_ERROR_MSG("names array in names_and_types is not zeroed");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (n->names.data != NULL) {
    RMW_SET_ERROR_MSG("names array in names_and_types is not zeroed");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (n->types) {
    RMW_SET_ERROR_MSG("types array in names_and_types is not zeroed");
    return RMW_RET_INVALID_ARGUMENT;
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_names_and_types_init(rmw_names_and_types_t * n, size_t size, rcutils_allocator_t * allocator)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_BAD_ALLOC);
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(allocator, "allocator is invalid", return RMW_RET_INVALID_ARGUMENT);
  if (!n) {
    RMW_SET_ERROR_MSG("names_and_types is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  rcutils_ret_t r = rcutils_string_array_init(&n->names, size, allocator);
  if (r != RCUTILS_RET_OK) {
    if (n->names.data == NULL) {n->names.size = 0;}
    return rmw_convert_rcutils_ret_to_rmw_ret(r);
  }
  n->types = static_cast<rcutils_string_array_t *>(
    allocator->allocate(sizeof(rcutils_string_array_t) * size, allocator->state));
  if (!n->types && size > 0) {
    if (RCUTILS_RET_OK != rcutils_string_array_fini(&n->names)) {
      RMW_SET_ERROR_MSG("fini failed");
    }
    RMW_SET_ERROR_MSG("failed to allocate memory for types");
    return RMW_RET_BAD_ALLOC;
  }
  for (size_t i = 0; i < size; ++i) {n->types[i] = rcutils_get_zero_initialized_string_array();}
  return RMW_RET_OK;
}
rmw_ret_t rmw_names_and_types_fini(rmw_names_and_types_t * n)
{
  if (!n) {
    RMW_SET_ERROR_MSG("names_and_types is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (n->names.size && !n->types) {
    RMW_SET_ERROR_MSG("invalid names_and_types object: names size not zero but types is NULL");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (n->types) {
    for (size_t i = 0; i < n->names.size; ++i) {
      if (RCUTILS_RET_OK != rcutils_string_array_fini(&n->types[i])) {return RMW_RET_ERROR;}
    }
    n->names.allocator.deallocate(n->types, n->names.allocator.state);
    n->types = NULL;
  }
  if (RCUTILS_RET_OK != rcutils_string_array_fini(&n->names)) {return RMW_RET_ERROR;}
  return RMW_RET_OK;
}
rmw_topic_endpoint_info_t rmw_get_zero_initialized_topic_endpoint_info(void)
{
  rmw_topic_endpoint_info_t z;
  memset(&z, 0, sizeof(z));
  return z;
}
rmw_ret_t rmw_topic_endpoint_info_fini(rmw_topic_endpoint_info_t * info, rcutils_allocator_t * allocator)
{
  if (!info || !allocator) {
    RMW_SET_ERROR_MSG("null argument");
    return RMW_RET_INVALID_ARGUMENT;
  }
  allocator->deallocate(const_cast<char *>(info->node_name), allocator->state);
  allocator->deallocate(const_cast<char *>(info->node_namespace), allocator->state);
  allocator->deallocate(const_cast<char *>(info->topic_type), allocator->state);
  *info = rmw_get_zero_initialized_topic_endpoint_info();
  return RMW_RET_OK;
}
static rmw_ret_t copy_str(const char ** dst, const char * str, rcutils_allocator_t * allocator)
{
  if (!str) {
    RMW_SET_ERROR_MSG("str is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (!dst) {
    RMW_SET_ERROR_MSG("topic_endpoint_info_str is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (!allocator) {
    RMW_SET_ERROR_MSG("allocator is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  size_t size = strlen(str) + 1;
  char * tmp = static_cast<char *>(allocator->allocate(size, allocator->state));
  if (!tmp) {
    RMW_SET_ERROR_MSG("failed to allocate memory for string");
    return RMW_RET_BAD_ALLOC;
  }
  memcpy(tmp, str, size);
  *dst = tmp;
  return RMW_RET_OK;
}
#define INFO_NULL(i) if (!(i)) {RMW_SET_ERROR_MSG("topic_endpoint_info is null"); return RMW_RET_INVALID_ARGUMENT;}
rmw_ret_t rmw_topic_endpoint_info_set_topic_type(rmw_topic_endpoint_info_t * i, const char * s, rcutils_allocator_t * a)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_BAD_ALLOC);
  INFO_NULL(i);
  return copy_str(&i->topic_type, s, a);
}
rmw_ret_t rmw_topic_endpoint_info_set_node_name(rmw_topic_endpoint_info_t * i, const char * s, rcutils_allocator_t * a)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_BAD_ALLOC);
  INFO_NULL(i);
  return copy_str(&i->node_name, s, a);
}
rmw_ret_t rmw_topic_endpoint_info_set_node_namespace(rmw_topic_endpoint_info_t * i, const char * s, rcutils_allocator_t * a)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_BAD_ALLOC);
  INFO_NULL(i);
  return copy_str(&i->node_namespace, s, a);
}
rmw_ret_t rmw_topic_endpoint_info_set_topic_type_hash(rmw_topic_endpoint_info_t * i, const rosidl_type_hash_t * h)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_INVALID_ARGUMENT);
  INFO_NULL(i);
  if (!h) {
    RMW_SET_ERROR_MSG("type_hash is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  i->topic_type_hash = *h;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_endpoint_type(rmw_topic_endpoint_info_t * i, rmw_endpoint_type_t t)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_INVALID_ARGUMENT);
  INFO_NULL(i);
  i->endpoint_type = t;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_gid(rmw_topic_endpoint_info_t * i, const uint8_t gid[], size_t size)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_INVALID_ARGUMENT);
  INFO_NULL(i);
  if (size > RMW_GID_STORAGE_SIZE) {
    RMW_SET_ERROR_MSG("size is more than RMW_GID_STORAGE_SIZE");
    return RMW_RET_INVALID_ARGUMENT;
  }
  memset(i->endpoint_gid, 0, RMW_GID_STORAGE_SIZE);
  memcpy(i->endpoint_gid, gid, size);
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_qos_profile(rmw_topic_endpoint_info_t * i, const rmw_qos_profile_t * q)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_INVALID_ARGUMENT);
  INFO_NULL(i);
  if (!q) {
    RMW_SET_ERROR_MSG("qos_profile is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  i->qos_profile = *q;
  return RMW_RET_OK;
}
rmw_topic_endpoint_info_array_t rmw_get_zero_initialized_topic_endpoint_info_array(void)
{
  rmw_topic_endpoint_info_array_t a = {0, NULL};
  return a;
}
rmw_ret_t rmw_topic_endpoint_info_array_check_zero(rmw_topic_endpoint_info_array_t * a)
{
  if (!a) {
    RMW_SET_ERROR_MSG("topic_endpoint_info_array is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (a->size != 0 || a->info_array) {
    RMW_SET_ERROR_MSG("topic_endpoint_info_array is not zeroed");
    return RMW_RET_ERROR;
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_array_init_with_size(
  rmw_topic_endpoint_info_array_t * a, size_t size, rcutils_allocator_t * allocator)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_BAD_ALLOC);
  if (!allocator) {
    RMW_SET_ERROR_MSG("allocator is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (!a) {
    RMW_SET_ERROR_MSG("topic_endpoint_info_array is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  a->info_array = static_cast<rmw_topic_endpoint_info_t *>(
    allocator->allocate(sizeof(*a->info_array) * size, allocator->state));
  if (!a->info_array) {
    RMW_SET_ERROR_MSG("failed to allocate memory for info_array");
    return RMW_RET_BAD_ALLOC;
  }
  a->size = size;
  for (size_t i = 0; i < size; ++i) {a->info_array[i] = rmw_get_zero_initialized_topic_endpoint_info();}
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_array_fini(rmw_topic_endpoint_info_array_t * a, rcutils_allocator_t * allocator)
{
  if (!allocator || !a) {
    RMW_SET_ERROR_MSG("null argument");
    return RMW_RET_INVALID_ARGUMENT;
  }
  for (size_t i = 0; i < a->size; ++i) {
    rmw_ret_t r = rmw_topic_endpoint_info_fini(&a->info_array[i], allocator);
    if (RMW_RET_OK != r) {return r;}
  }
  allocator->deallocate(a->info_array, allocator->state);
  a->info_array = NULL;
  a->size = 0;
  if (vh_fini_fails.load(std::memory_order_relaxed) && vh_fini_fails.exchange(false)) {
    RMW_SET_ERROR_MSG("releasing fails");
    return RMW_RET_ERROR;
  }
  return RMW_RET_OK;
}
const char * rmw_qos_durability_policy_to_str(enum rmw_qos_durability_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL: return "transient_local";
    case RMW_QOS_POLICY_DURABILITY_VOLATILE: return "volatile";
    case RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE: return "best_available";
    default: return NULL;
  }
}
const char * rmw_qos_history_policy_to_str(enum rmw_qos_history_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_HISTORY_KEEP_LAST: return "keep_last";
    case RMW_QOS_POLICY_HISTORY_KEEP_ALL: return "keep_all";
    default: return NULL;
  }
}
const char * rmw_qos_liveliness_policy_to_str(enum rmw_qos_liveliness_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_LIVELINESS_AUTOMATIC: return "automatic";
    case RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC: return "manual_by_topic";
    case RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE: return "best_available";
    default: return NULL;
  }
}
const char * rmw_qos_reliability_policy_to_str(enum rmw_qos_reliability_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_RELIABILITY_RELIABLE: return "reliable";
    case RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT: return "best_effort";
    case RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE: return "best_available";
    default: return NULL;
  }
}

// ---- time ----
rmw_duration_t rmw_time_total_nsec(const rmw_time_t t)
{
  static const uint64_t max_sec = INT64_MAX / 1000000000ULL;
  if (t.sec > max_sec) {return INT64_MAX;}
  const uint64_t sec_as_nsec = t.sec * 1000000000ULL;
  if (t.nsec > static_cast<uint64_t>(INT64_MAX) - sec_as_nsec) {return INT64_MAX;}
  return static_cast<rmw_duration_t>(sec_as_nsec + t.nsec);
}
bool rmw_time_equal(const rmw_time_t l, const rmw_time_t r)
{
  return rmw_time_total_nsec(l) == rmw_time_total_nsec(r);
}
rmw_time_t rmw_time_from_nsec(const rmw_duration_t ns)
{
  if (ns < 0) {
    rmw_time_t inf = RMW_DURATION_INFINITE;
    return inf;
  }
  rmw_time_t t;
  t.sec = static_cast<uint64_t>(ns) / 1000000000ULL;
  t.nsec = static_cast<uint64_t>(ns) % 1000000000ULL;
  return t;
}
rmw_time_t rmw_time_normalize(const rmw_time_t t) {return rmw_time_from_nsec(rmw_time_total_nsec(t));}

// ---- type hash ----
rosidl_type_hash_t rosidl_get_zero_initialized_type_hash(void)
{
  rosidl_type_hash_t h;
  memset(&h, 0, sizeof(h));
  return h;
}
rcutils_ret_t rosidl_stringify_type_hash(
  const rosidl_type_hash_t * h, rcutils_allocator_t allocator, char ** out)
{
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(h, RCUTILS_RET_INVALID_ARGUMENT);
  if (!rcutils_allocator_is_valid(&allocator)) {return RCUTILS_RET_INVALID_ARGUMENT;}
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(out, RCUTILS_RET_INVALID_ARGUMENT);
  if (vh_stringify_fails.load(std::memory_order_relaxed) && vh_stringify_fails.exchange(false)) {RCUTILS_SET_ERROR_MSG("stringify fails"); return RCUTILS_RET_ERROR;}
  char * s = static_cast<char *>(allocator.allocate(7 + 64 + 1, allocator.state));
  if (!s) {
    *out = NULL;
    RCUTILS_SET_ERROR_MSG("Unable to allocate space for type hash string.");
    return RCUTILS_RET_BAD_ALLOC;
  }
  memcpy(s, "RIHS01_", 7);
  for (size_t i = 0; i < ROSIDL_TYPE_HASH_SIZE; ++i) {
    static const char hex[] = "0123456789abcdef";
    s[7 + 2 * i] = hex[h->value[i] >> 4];
    s[7 + 2 * i + 1] = hex[h->value[i] & 15];
  }
  s[7 + 64] = '\0';
  *out = s;
  return RCUTILS_RET_OK;
}
static int xatoi(char c)
{
  if (c >= '0' && c <= '9') {return c - '0';}
  if (c >= 'A' && c <= 'F') {return c - 'A' + 10;}
  if (c >= 'a' && c <= 'f') {return c - 'a' + 10;}
  return -1;
}
rcutils_ret_t rosidl_parse_type_hash_string(const char * s, rosidl_type_hash_t * h)
{
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(s, RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(h, RCUTILS_RET_INVALID_ARGUMENT);
  h->version = 0;
  size_t len = strlen(s);
  if (len < 7) {
    RCUTILS_SET_ERROR_MSG("Hash string not long enough to contain RIHS prefix.");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  if (0 != strncmp(s, "RIHS", 4)) {
    RCUTILS_SET_ERROR_MSG("Hash string doesn't start with RIHS.");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  int top = xatoi(s[4]), bot = xatoi(s[5]);
  if (top < 0 || bot < 0 || s[6] != '_') {
    RCUTILS_SET_ERROR_MSG("RIHS string is missing or has invalid version.");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  h->version = static_cast<uint8_t>(top * 16 + bot);
  if (h->version != 1) {
    RCUTILS_SET_ERROR_MSG("Do not know how to parse RIHS version.");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  if (len != 7 + 64) {
    RCUTILS_SET_ERROR_MSG("RIHS string is the incorrect size to contain a RIHS01 value.");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  for (size_t i = 0; i < ROSIDL_TYPE_HASH_SIZE; ++i) {
    int a = xatoi(s[7 + 2 * i]), b = xatoi(s[7 + 2 * i + 1]);
    if (a < 0 || b < 0) {
      RCUTILS_SET_ERROR_MSG("RIHS string contained non-hexadecimal digits.");
      return RCUTILS_RET_INVALID_ARGUMENT;
    }
    h->value[i] = static_cast<uint8_t>(a * 16 + b);
  }
  return RCUTILS_RET_OK;
}

}  // extern "C"
