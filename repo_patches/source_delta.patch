From 82cdf3877e0e41746cbb156e48429977b517884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 1/4] fix: report unreadable security files as missing instead
 of throwing

std::filesystem::is_regular_file(path) throws when the status cannot be
determined (symlink loop, name too long, no search permission). The file
is not usable then, so treat it like any other missing file.
---
 rmw_dds_common/src/security.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rmw_dds_common/src/security.cpp b/rmw_dds_common/src/security.cpp
index c480d1a..f8c0c32 100644
--- a/rmw_dds_common/src/security.cpp
+++ b/rmw_dds_common/src/security.cpp
@@ -16,6 +16,7 @@
 #include <fstream>
 #include <functional>
 #include <string>
+#include <system_error>
 #include <utility>
 #include <unordered_map>
 #include <vector>
@@ -32,7 +33,8 @@ static bool process_file_uri_security_file(
   const std::filesystem::path & full_path,
   std::string & result)
 {
-  if (!std::filesystem::is_regular_file(full_path)) {
+  std::error_code ec;
+  if (!std::filesystem::is_regular_file(full_path, ec)) {
     return false;
   }
   result = prefix + full_path.generic_string();
@@ -139,7 +141,8 @@ bool get_security_files(
   for (const std::pair<const std::string, std::string> & el : optional_files) {
     std::filesystem::path full_path(secure_root);
     full_path /= el.second;
-    if (std::filesystem::is_regular_file(full_path)) {
+    std::error_code ec;
+    if (std::filesystem::is_regular_file(full_path, ec)) {
       result[el.first] = prefix + full_path.generic_string();
     }
   }
-- 
2.43.0


From d2ed0f66e102c13b5588ee8f7e587dc26cfbd2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 2/4] fix: compare QoS durations by their total length

rmw_time_t values may carry a second or more in nsec. Comparing sec and
nsec lexicographically then orders e.g. {0, 2000000000} before {1, 0}.
---
 rmw_dds_common/src/qos.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rmw_dds_common/src/qos.cpp b/rmw_dds_common/src/qos.cpp
index 7604cb1..e853d34 100644
--- a/rmw_dds_common/src/qos.cpp
+++ b/rmw_dds_common/src/qos.cpp
@@ -27,6 +27,7 @@
 #include "rmw/get_topic_endpoint_info.h"
 #include "rmw/qos_profiles.h"
 #include "rmw/qos_string_conversions.h"
+#include "rmw/time.h"
 
 namespace rmw_dds_common
 {
@@ -46,12 +47,8 @@ operator!=(rmw_time_t t1, rmw_time_t t2)
 static bool
 operator<(rmw_time_t t1, rmw_time_t t2)
 {
-  if (t1.sec < t2.sec) {
-    return true;
-  } else if (t1.sec == t2.sec && t1.nsec < t2.nsec) {
-    return true;
-  }
-  return false;
+  // nsec may exceed one second, so compare total durations
+  return rmw_time_total_nsec(t1) < rmw_time_total_nsec(t2);
 }
 
 static const rmw_time_t deadline_default = RMW_QOS_DEADLINE_DEFAULT;
-- 
2.43.0


From 42554eeab7849b77f52cca5d81af8f5cf9e21ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 3/4] fix: an infinite subscription duration is compatible with
 an unspecified one

A subscription that asks for an infinite deadline or lease duration asks
for nothing a publisher without deadline or lease cannot offer.
---
 rmw_dds_common/src/qos.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rmw_dds_common/src/qos.cpp b/rmw_dds_common/src/qos.cpp
index e853d34..31c34ba 100644
--- a/rmw_dds_common/src/qos.cpp
+++ b/rmw_dds_common/src/qos.cpp
@@ -51,6 +51,7 @@ operator<(rmw_time_t t1, rmw_time_t t2)
   return rmw_time_total_nsec(t1) < rmw_time_total_nsec(t2);
 }
 
+static const rmw_time_t duration_infinite = RMW_DURATION_INFINITE;
 static const rmw_time_t deadline_default = RMW_QOS_DEADLINE_DEFAULT;
 static const rmw_time_t deadline_best_available = RMW_QOS_DEADLINE_BEST_AVAILABLE;
 static const rmw_time_t liveliness_lease_duration_default =
@@ -138,8 +139,10 @@ qos_profile_check_compatible(
   const rmw_time_t & pub_deadline = publisher_qos.deadline;
   const rmw_time_t & sub_deadline = subscription_qos.deadline;
 
-  // No deadline for publisher and deadline for subscription
-  if (pub_deadline == deadline_default && sub_deadline != deadline_default) {
+  // No deadline for publisher and (finite) deadline for subscription
+  if (pub_deadline == deadline_default && sub_deadline != deadline_default &&
+    sub_deadline < duration_infinite)
+  {
     *compatibility = RMW_QOS_COMPATIBILITY_ERROR;
     rmw_ret_t ret = _append_to_buffer(
       reason,
@@ -181,9 +184,9 @@ qos_profile_check_compatible(
   const rmw_time_t & pub_lease = publisher_qos.liveliness_lease_duration;
   const rmw_time_t & sub_lease = subscription_qos.liveliness_lease_duration;
 
-  // No lease duration for publisher and lease duration for subscription
+  // No lease duration for publisher and (finite) lease duration for subscription
   if (pub_lease == liveliness_lease_duration_default &&
-    sub_lease != liveliness_lease_duration_default)
+    sub_lease != liveliness_lease_duration_default && sub_lease < duration_infinite)
   {
     *compatibility = RMW_QOS_COMPATIBILITY_ERROR;
     rmw_ret_t append_ret = _append_to_buffer(
-- 
2.43.0


From f53c5dcce43b42e5c953e04f887352265cc22dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 4/4] fix: undo a failed node addition by removing the node
 just added

Removing the first node with the given name drops the endpoints of an
already existing node of the same name when Context::add_node_graph
cannot publish the new one and rolls it back.
---
 rmw_dds_common/src/graph_cache.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rmw_dds_common/src/graph_cache.cpp b/rmw_dds_common/src/graph_cache.cpp
index 52f6b20..4479f9e 100644
--- a/rmw_dds_common/src/graph_cache.cpp
+++ b/rmw_dds_common/src/graph_cache.cpp
@@ -296,17 +296,18 @@ GraphCache::remove_node(
   auto it = participants_.find(participant_gid);
   assert(it != participants_.end());
 
-  // remove first element found
+  // Remove the last element found: with duplicate names, endpoints are associated to the first one
+  auto & nodes = it->second.node_entities_info_seq;
   auto to_remove = std::find_if(
-    it->second.node_entities_info_seq.begin(),
-    it->second.node_entities_info_seq.end(),
+    nodes.rbegin(),
+    nodes.rend(),
     [&node_name, &node_namespace](const rmw_dds_common::msg::NodeEntitiesInfo & node_info) {
       return node_info.node_name == node_name && node_info.node_namespace == node_namespace;
     });
 
-  assert(to_remove != it->second.node_entities_info_seq.end());
+  assert(to_remove != nodes.rend());
 
-  it->second.node_entities_info_seq.erase(to_remove);
+  nodes.erase(std::next(to_remove).base());
   GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
 
   return __create_participant_info_message(participant_gid, it->second.node_entities_info_seq);
-- 
2.43.0

