#ifndef RMW__TYPES_H_
#define RMW__TYPES_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <assert.h>
#include <string.h>
#include "rcutils/allocator.h"
#include "rcutils/types.h"
#include "rcutils/macros.h"
#include "rmw/macros.h"
#include "rmw/ret_types.h"
#include "rmw/time.h"
#include "rmw/visibility_control.h"
#include "rosidl_runtime_c/type_hash.h"
#ifdef __cplusplus
extern "C" {
#endif
#define RMW_GID_STORAGE_SIZE 16u
typedef struct rmw_gid_s
{
  const char * implementation_identifier;
  uint8_t data[RMW_GID_STORAGE_SIZE];
} rmw_gid_t;

typedef enum rmw_security_enforcement_policy_e
{ RMW_SECURITY_ENFORCEMENT_PERMISSIVE, RMW_SECURITY_ENFORCEMENT_ENFORCE } rmw_security_enforcement_policy_t;
typedef struct rmw_security_options_s
{
  rmw_security_enforcement_policy_t enforce_security;
  char * security_root_path;
} rmw_security_options_t;
typedef struct rmw_init_options_impl_s rmw_init_options_impl_t;
typedef struct rmw_init_options_s
{
  uint64_t instance_id;
  const char * implementation_identifier;
  size_t domain_id;
  rmw_security_options_t security_options;
  char * enclave;
  rcutils_allocator_t allocator;
  rmw_init_options_impl_t * impl;
} rmw_init_options_t;
typedef struct rmw_context_impl_s rmw_context_impl_t;
typedef struct rmw_context_s
{
  uint64_t instance_id;
  const char * implementation_identifier;
  rmw_init_options_t options;
  size_t actual_domain_id;
  rmw_context_impl_t * impl;
} rmw_context_t;
typedef struct rmw_node_s
{
  const char * implementation_identifier;
  void * data;
  const char * name;
  const char * namespace_;
  rmw_context_t * context;
} rmw_node_t;
typedef struct rmw_publisher_s
{
  const char * implementation_identifier;
  void * data;
  const char * topic_name;
  bool can_loan_messages;
} rmw_publisher_t;
typedef struct rmw_subscription_s
{
  const char * implementation_identifier;
  void * data;
  const char * topic_name;
  bool can_loan_messages;
  bool is_cft_enabled;
} rmw_subscription_t;
typedef struct rmw_guard_condition_s
{
  const char * implementation_identifier;
  void * data;
  rmw_context_t * context;
} rmw_guard_condition_t;

typedef enum rmw_endpoint_type_e
{ RMW_ENDPOINT_INVALID = 0, RMW_ENDPOINT_PUBLISHER, RMW_ENDPOINT_SUBSCRIPTION } rmw_endpoint_type_t;

typedef enum rmw_qos_reliability_policy_e
{
  RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT,
  RMW_QOS_POLICY_RELIABILITY_RELIABLE,
  RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT,
  RMW_QOS_POLICY_RELIABILITY_UNKNOWN,
  RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE
} rmw_qos_reliability_policy_t;
typedef enum rmw_qos_history_policy_e
{
  RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT,
  RMW_QOS_POLICY_HISTORY_KEEP_LAST,
  RMW_QOS_POLICY_HISTORY_KEEP_ALL,
  RMW_QOS_POLICY_HISTORY_UNKNOWN
} rmw_qos_history_policy_t;
typedef enum rmw_qos_durability_policy_e
{
  RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT,
  RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL,
  RMW_QOS_POLICY_DURABILITY_VOLATILE,
  RMW_QOS_POLICY_DURABILITY_UNKNOWN,
  RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE
} rmw_qos_durability_policy_t;
typedef enum rmw_qos_liveliness_policy_e
{
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT = 0,
  RMW_QOS_POLICY_LIVELINESS_AUTOMATIC = 1,
  RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_NODE = 2,
  RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC = 3,
  RMW_QOS_POLICY_LIVELINESS_UNKNOWN = 4,
  RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE = 5
} rmw_qos_liveliness_policy_t;

#define RMW_QOS_DEADLINE_DEFAULT RMW_DURATION_UNSPECIFIED
#define RMW_QOS_DEADLINE_BEST_AVAILABLE {9223372036LL, 854775806LL}
#define RMW_QOS_LIFESPAN_DEFAULT RMW_DURATION_UNSPECIFIED
#define RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT RMW_DURATION_UNSPECIFIED
#define RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE {9223372036LL, 854775806LL}
#define RMW_QOS_POLICY_DEPTH_SYSTEM_DEFAULT 0

typedef struct rmw_qos_profile_s
{
  enum rmw_qos_history_policy_e history;
  size_t depth;
  enum rmw_qos_reliability_policy_e reliability;
  enum rmw_qos_durability_policy_e durability;
  struct rmw_time_s deadline;
  struct rmw_time_s lifespan;
  enum rmw_qos_liveliness_policy_e liveliness;
  struct rmw_time_s liveliness_lease_duration;
  bool avoid_ros_namespace_conventions;
} rmw_qos_profile_t;
typedef enum rmw_qos_compatibility_type_e
{
  RMW_QOS_COMPATIBILITY_OK,
  RMW_QOS_COMPATIBILITY_WARNING,
  RMW_QOS_COMPATIBILITY_ERROR
} rmw_qos_compatibility_type_t;
#ifdef __cplusplus
}
#endif
#endif
