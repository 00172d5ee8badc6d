#include "graph_model.hpp"

#include <cstdlib>
#include <sstream>
#include <tuple>

#include "rmw_dds_common/gid_utils.hpp"

namespace gm
{
using vh::fail;
using vh::fmt;
using vh::esc;

rmw_gid_t to_rmw(const Gid & g, const char * ident)
{
  rmw_gid_t r;
  r.implementation_identifier = ident;
  memcpy(r.data, g.data(), 16);
  return r;
}
Gid from_msg(const rmw_dds_common::msg::Gid & g)
{
  Gid r;
  memcpy(r.data(), g.data.data(), 16);
  return r;
}
std::string gs(const Gid & g) {return vh::hex(g.data(), 16);}

void (* g_point)() = nullptr;

// ---------------------------------------------------------------- allocator
static void * tr_take(Tracker * t, size_t n, bool zero)
{
  if (g_point) {g_point();}
  const uint64_t ord = n ? t->allocs++ : t->allocs;   // an empty request may yield null without failing
  if (n && t->fail_at >= 0 && (ord == static_cast<uint64_t>(t->fail_at) || (t->sticky && ord > static_cast<uint64_t>(t->fail_at)))) {
    t->failed++;
    return nullptr;
  }
  void * p = malloc(n ? n : 1);
  memset(p, zero ? 0 : 0xA7, n ? n : 1);
  {
    vh::Unaccounted u;
    t->live[p] = n;
  }
  return p;
}
static void * tr_alloc(size_t n, void * s) {return tr_take(static_cast<Tracker *>(s), n, false);}
static void * tr_zalloc(size_t a, size_t b, void * s) {return tr_take(static_cast<Tracker *>(s), a * b, true);}
static void tr_free(void * p, void * s)
{
  vh::Unaccounted u;
  Tracker * t = static_cast<Tracker *>(s);
  if (!p) {return;}
  auto it = t->live.find(p);
  if (it == t->live.end()) {
    if (t->error.empty()) {t->error = "a block is released that this allocator does not own (released twice, or never allocated)";}
    return;
  }
  memset(p, 0x5B, it->second);
  t->live.erase(it);
  free(p);
}
static void * tr_realloc(void * p, size_t n, void * s)
{
  Tracker * t = static_cast<Tracker *>(s);
  void * q = tr_take(t, n, false);
  if (q && p) {
    auto it = t->live.find(p);
    if (it == t->live.end()) {
      if (t->error.empty()) {t->error = "a block is reallocated that this allocator does not own";}
      return q;
    }
    memcpy(q, p, std::min(n, it->second));
    tr_free(p, s);
  }
  return q;
}
rcutils_allocator_t Tracker::get()
{
  rcutils_allocator_t a;
  a.allocate = tr_alloc;
  a.deallocate = tr_free;
  a.reallocate = tr_realloc;
  a.zero_allocate = tr_zalloc;
  a.state = this;
  return a;
}
void Tracker::check(const char * what, bool expect_empty)
{
  if (!error.empty()) {fail("allocator-misuse", std::string(what) + ": " + error);}
  if (expect_empty && !live.empty()) {
    fail("allocator-leak", fmt("%s: %zu blocks obtained from the caller's allocator were never returned", what, live.size()));
  }
}

// ---------------------------------------------------------------- model helpers
std::string show(const Node & n)
{
  std::string s = "{name='" + esc(n.name) + "' ns='" + esc(n.ns) + "' readers=[";
  for (auto & g : n.readers) {s += gs(g) + " ";}
  s += "] writers=[";
  for (auto & g : n.writers) {s += gs(g) + " ";}
  return s + "]}";
}
std::string show(const std::vector<Node> & v)
{
  std::string s = fmt("%zu nodes: ", v.size());
  for (auto & n : v) {
    s += show(n) + " ";
    if (s.size() > 1500) {return s + "...";}
  }
  return s;
}
std::vector<Node> nodes_of(const PMsg & m)
{
  std::vector<Node> v;
  v.reserve(m.node_entities_info_seq.size());
  for (auto & n : m.node_entities_info_seq) {
    Node x;
    x.name = n.node_name;
    x.ns = n.node_namespace;
    for (auto & g : n.reader_gid_seq) {x.readers.push_back(from_msg(g));}
    for (auto & g : n.writer_gid_seq) {x.writers.push_back(from_msg(g));}
    v.push_back(std::move(x));
  }
  return v;
}
static bool node_lt(const Node & a, const Node & b)
{
  return std::tie(a.name, a.ns, a.readers, a.writers) < std::tie(b.name, b.ns, b.readers, b.writers);
}
bool node_eq(const Node & a, const Node & b)
{
  return a.name == b.name && a.ns == b.ns && a.readers == b.readers && a.writers == b.writers;
}
std::vector<Node> normal(std::vector<Node> v)
{
  for (auto & n : v) {
    std::sort(n.readers.begin(), n.readers.end());
    std::sort(n.writers.begin(), n.writers.end());
  }
  std::sort(v.begin(), v.end(), node_lt);
  return v;
}
static bool eq_seq(const std::vector<Node> & a, const std::vector<Node> & b)
{
  if (a.size() != b.size()) {return false;}
  for (size_t i = 0; i < a.size(); ++i) {
    if (!node_eq(a[i], b[i])) {return false;}
  }
  return true;
}
bool same_nodes(const std::vector<Node> & a, const std::vector<Node> & b)
{
  if (a.size() != b.size()) {return false;}
  if (eq_seq(a, b)) {return true;}
  return eq_seq(normal(a), normal(b));
}
PMsg to_msg(const Gid & g, const std::vector<Node> & nodes)
{
  PMsg m;
  memcpy(m.gid.data.data(), g.data(), 16);
  for (auto & n : nodes) {
    NMsg x;
    x.node_name = n.name;
    x.node_namespace = n.ns;
    for (auto & q : n.readers) {
      x.reader_gid_seq.emplace_back();
      memcpy(x.reader_gid_seq.back().data.data(), q.data(), 16);
    }
    for (auto & q : n.writers) {
      x.writer_gid_seq.emplace_back();
      memcpy(x.writer_gid_seq.back().data.data(), q.data(), 16);
    }
    m.node_entities_info_seq.push_back(x);
  }
  return m;
}
static bool t_eq(const rmw_time_t & a, const rmw_time_t & b) {return a.sec == b.sec && a.nsec == b.nsec;}
bool qos_eq(const rmw_qos_profile_t & a, const rmw_qos_profile_t & b)
{
  return a.history == b.history && a.depth == b.depth && a.reliability == b.reliability &&
         a.durability == b.durability && t_eq(a.deadline, b.deadline) && t_eq(a.lifespan, b.lifespan) &&
         a.liveliness == b.liveliness && t_eq(a.liveliness_lease_duration, b.liveliness_lease_duration) &&
         a.avoid_ros_namespace_conventions == b.avoid_ros_namespace_conventions;
}
bool hash_eq(const rosidl_type_hash_t & a, const rosidl_type_hash_t & b)
{
  return a.version == b.version && 0 == memcmp(a.value, b.value, ROSIDL_TYPE_HASH_SIZE);
}

// ---------------------------------------------------------------- demanglers
std::string dem_topic(int kind, const std::string & s)
{
  switch (kind) {
    case 0: return s;
    case 1: return s.rfind("rt/", 0) == 0 ? s.substr(2) : "";
    case 2: return s.rfind("rq/", 0) == 0 || s.rfind("rr/", 0) == 0 ? s.substr(2) : "";
    case 3: return "";
    case 4: return "x";
    case 5: return s.substr(0, 1);
    default: return "/ros/" + s;
  }
}
std::string dem_type(int kind, const std::string & s)
{
  switch (kind) {
    case 0: return s;
    case 1: return "T";
    case 2: return s.substr(0, 2);
    default: return s + "::" + s;
  }
}
GraphCache::DemangleFunctionT topic_fn(int k) {return [k](const std::string & s) {if (g_point) {g_point();} return dem_topic(k, s);};}
GraphCache::DemangleFunctionT type_fn(int k) {return [k](const std::string & s) {if (g_point) {g_point();} return dem_type(k, s);};}

// ---------------------------------------------------------------- queries
std::string show(const std::vector<NodeRec> & v)
{
  std::string s = fmt("%zu nodes: ", v.size());
  for (auto & n : v) {
    s += "('" + esc(n.name) + "','" + esc(n.ns) + "','" + esc(n.enclave) + "') ";
    if (s.size() > 1500) {return s + "...";}
  }
  return s;
}
std::string show(const Topics & t)
{
  std::string s = fmt("%zu topics: ", t.size());
  for (auto & p : t) {
    s += "'" + esc(p.first) + "'[";
    for (auto & y : p.second) {s += "'" + esc(y) + "' ";}
    s += "] ";
    if (s.size() > 1500) {return s + "...";}
  }
  return s;
}
std::string show(const EndRec & e)
{
  return "{node='" + esc(e.node) + "' ns='" + esc(e.ns) + "' type='" + esc(e.type) + "' hash=" +
         vh::hex(e.hash.value, 32) + fmt("/v%u etype=%d gid=", e.hash.version, static_cast<int>(e.etype)) + gs(e.gid) +
         fmt(
    " qos=%d,%zu,%d,%d,%llu.%llu,%llu.%llu,%d,%llu.%llu,%d}", e.qos.history, e.qos.depth, e.qos.reliability,
    e.qos.durability,
    static_cast<unsigned long long>(e.qos.deadline.sec), static_cast<unsigned long long>(e.qos.deadline.nsec),
    static_cast<unsigned long long>(e.qos.lifespan.sec), static_cast<unsigned long long>(e.qos.lifespan.nsec),
    e.qos.liveliness, static_cast<unsigned long long>(e.qos.liveliness_lease_duration.sec),
    static_cast<unsigned long long>(e.qos.liveliness_lease_duration.nsec), e.qos.avoid_ros_namespace_conventions);
}

rmw_ret_t q_nodes(const GraphCache & g, bool with_enclaves, std::vector<NodeRec> & out, Tracker & t)
{
  rcutils_allocator_t a = t.get();
  rcutils_string_array_t names = rcutils_get_zero_initialized_string_array();
  rcutils_string_array_t nss = rcutils_get_zero_initialized_string_array();
  rcutils_string_array_t encs = rcutils_get_zero_initialized_string_array();
  out.clear();
  rmw_ret_t ret = g.get_node_names(&names, &nss, with_enclaves ? &encs : nullptr, &a);
  if (ret == RMW_RET_OK) {
    if (names.size != nss.size || (with_enclaves && names.size != encs.size)) {
      fail("node-arrays-misaligned", fmt("names %zu namespaces %zu enclaves %zu", names.size, nss.size, encs.size));
    }
    for (size_t i = 0; i < names.size; ++i) {
      if (!names.data[i] || !nss.data[i] || (with_enclaves && !encs.data[i])) {
        fail("node-arrays-null-entry", fmt("entry %zu of %zu is null although the query succeeded", i, names.size));
      }
      out.push_back({names.data[i], nss.data[i], with_enclaves ? encs.data[i] : ""});
    }
  } else if (names.data || nss.data || encs.data) {
    fail("node-arrays-left", fmt("a failed node listing (%d) leaves memory in its outputs%s%s%s", ret, names.data ? " names" : "",
      nss.data ? " namespaces" : "", encs.data ? " enclaves" : ""));
  } else {
    t.check("failed node listing");
  }
  // On failure nothing may be left to release; releasing anyway must be harmless.
  if (RCUTILS_RET_OK != rcutils_string_array_fini(&names) || RCUTILS_RET_OK != rcutils_string_array_fini(&nss) ||
    RCUTILS_RET_OK != rcutils_string_array_fini(&encs))
  {
    fail("node-arrays-unreleasable", "releasing the answer of the node listing failed");
  }
  t.check("node listing");
  std::sort(out.begin(), out.end());
  return ret;
}
static rmw_ret_t take_topics(rmw_ret_t ret, rmw_names_and_types_t & nt, Topics & out, Tracker & t, const char * what)
{
  out.clear();
  if (ret == RMW_RET_OK) {
    for (size_t i = 0; i < nt.names.size; ++i) {
      if (!nt.names.data[i]) {fail("topics-null-entry", std::string(what) + ": a topic name is null");}
      std::vector<std::string> ty;
      for (size_t j = 0; j < nt.types[i].size; ++j) {
        if (!nt.types[i].data[j]) {fail("topics-null-entry", std::string(what) + ": a type name is null");}
        ty.push_back(nt.types[i].data[j]);
      }
      std::sort(ty.begin(), ty.end());
      out.push_back({nt.names.data[i], ty});
    }
    if (RMW_RET_OK != rmw_names_and_types_fini(&nt)) {
      fail("topics-unreleasable", std::string(what) + ": the answer cannot be released");
    }
  } else {
    if (nt.names.data || nt.types) {
      fail("topics-garbage-on-error", std::string(what) + ": a failed query leaves pointers in its output");
    }
  }
  t.check(what);
  std::sort(out.begin(), out.end());
  return ret;
}
rmw_ret_t q_topics(const GraphCache & g, int td, int yd, Topics & out, Tracker & t)
{
  rcutils_allocator_t a = t.get();
  rmw_names_and_types_t nt = rmw_get_zero_initialized_names_and_types();
  rmw_ret_t ret = g.get_names_and_types(topic_fn(td), type_fn(yd), &a, &nt);
  return take_topics(ret, nt, out, t, "topic names and types");
}
static bool alloc_eq(const rcutils_allocator_t & x, const rcutils_allocator_t & y)
{
  return x.allocate == y.allocate && x.deallocate == y.deallocate && x.reallocate == y.reallocate &&
         x.zero_allocate == y.zero_allocate && x.state == y.state;
}
rmw_ret_t q_by_node(
  const GraphCache & g, bool readers, const std::string & name, const std::string & ns,
  int td, int yd, Topics & out, Tracker & t)
{
  rcutils_allocator_t a = t.get();
  rmw_names_and_types_t nt = rmw_get_zero_initialized_names_and_types();
  const rmw_names_and_types_t before = nt;
  rmw_ret_t ret = readers ?
    g.get_reader_names_and_types_by_node(name, ns, topic_fn(td), type_fn(yd), &a, &nt) :
    g.get_writer_names_and_types_by_node(name, ns, topic_fn(td), type_fn(yd), &a, &nt);
  if (ret == RMW_RET_NODE_NAME_NON_EXISTENT && (nt.names.size != before.names.size || nt.names.data != before.names.data ||
    nt.types != before.types || !alloc_eq(nt.names.allocator, before.names.allocator)))
  {
    fail("by-node-nonexistent-writes", fmt("the query for unknown node '%s' '%s' modified its output", esc(name).c_str(), esc(ns).c_str()));
  }
  return take_topics(ret, nt, out, t, "names and types by node");
}
rmw_ret_t q_ends(
  const GraphCache & g, bool readers, const std::string & topic, int yd, std::vector<EndRec> & out, Tracker & t)
{
  rcutils_allocator_t a = t.get();
  rmw_topic_endpoint_info_array_t arr = rmw_get_zero_initialized_topic_endpoint_info_array();
  out.clear();
  rmw_ret_t ret = readers ?
    g.get_readers_info_by_topic(topic, type_fn(yd), &a, &arr) :
    g.get_writers_info_by_topic(topic, type_fn(yd), &a, &arr);
  if (ret == RMW_RET_OK) {
    for (size_t i = 0; i < arr.size; ++i) {
      const auto & e = arr.info_array[i];
      if (!e.node_name || !e.node_namespace || !e.topic_type) {
        fail("endpoint-null-field", fmt("endpoint %zu of %zu has a null field", i, arr.size));
      }
      EndRec r;
      r.node = e.node_name;
      r.ns = e.node_namespace;
      r.type = e.topic_type;
      r.hash = e.topic_type_hash;
      r.etype = e.endpoint_type;
      memcpy(r.gid.data(), e.endpoint_gid, 16);
      r.qos = e.qos_profile;
      out.push_back(std::move(r));
    }
    if (RMW_RET_OK != rmw_topic_endpoint_info_array_fini(&arr, &a)) {
      fail("endpoint-unreleasable", "the endpoint info array cannot be released");
    }
  } else {
    if (arr.info_array) {fail("endpoint-garbage-on-error", "a failed query leaves pointers in its output");}
  }
  t.check("endpoint info by topic");
  return ret;
}

// ---------------------------------------------------------------- model answers
std::vector<NodeRec> m_nodes(const Model & m, bool enclaves)
{
  std::vector<NodeRec> v;
  for (auto & p : m.parts) {
    for (auto & n : p.second.nodes) {v.push_back({n.name, n.ns, enclaves ? p.second.enclave : ""});}
  }
  std::sort(v.begin(), v.end());
  return v;
}
static Topics flat(const std::map<std::string, std::set<std::string>> & x)
{
  Topics t;
  for (auto & p : x) {t.push_back({p.first, {p.second.begin(), p.second.end()}});}
  return t;
}
Topics m_topics(const Model & m, int td, int yd)
{
  std::map<std::string, std::set<std::string>> x;
  for (auto * e : {&m.w, &m.r}) {
    for (auto & kv : *e) {
      std::string t = dem_topic(td, kv.second.topic);
      if (!t.empty()) {x[t].insert(dem_type(yd, kv.second.type));}
    }
  }
  return flat(x);
}
bool m_node_exists(const Model & m, const std::string & name, const std::string & ns)
{
  for (auto & p : m.parts) {
    for (auto & n : p.second.nodes) {
      if (n.name == name && n.ns == ns) {return true;}
    }
  }
  return false;
}
std::vector<Topics> m_by_node(
  const Model & m, bool readers, const std::string & name, const std::string & ns, int td, int yd)
{
  std::vector<Topics> all;
  const auto & ends = readers ? m.r : m.w;
  for (auto & p : m.parts) {
    for (auto & n : p.second.nodes) {
      if (n.name != name || n.ns != ns) {continue;}
      std::map<std::string, std::set<std::string>> x;
      for (auto & g : readers ? n.readers : n.writers) {
        auto it = ends.find(g);
        if (it == ends.end()) {continue;}
        std::string t = dem_topic(td, it->second.topic);
        if (!t.empty()) {x[t].insert(dem_type(yd, it->second.type));}
      }
      all.push_back(flat(x));
    }
  }
  return all;
}
size_t m_count(const Model & m, bool readers, const std::string & topic)
{
  size_t n = 0;
  for (auto & kv : readers ? m.r : m.w) {n += kv.second.topic == topic;}
  return n;
}

void cmp_ends(const Model & m, bool readers, const std::string & topic, int yd, std::vector<EndRec> v)
{
  const auto & ends = readers ? m.r : m.w;
  const char * kind = readers ? "reader" : "writer";
  std::set<Gid> seen;
  for (auto & e : v) {
    if (!seen.insert(e.gid).second) {
      fail("endpoint-listed-twice", std::string(kind) + " " + gs(e.gid) + " on topic '" + esc(topic) + "' is listed twice");
    }
    auto it = ends.find(e.gid);
    if (it == ends.end() || it->second.topic != topic) {
      fail("endpoint-not-on-topic", std::string(kind) + " " + gs(e.gid) + " is listed for topic '" + esc(topic) + "' but is not registered there");
    }
    const End & x = it->second;
    if (e.type != dem_type(yd, x.type)) {
      fail("endpoint-type", "type is not the demangled registered type: " + show(e) + " registered '" + esc(x.type) + "'");
    }
    if (!hash_eq(e.hash, x.hash)) {
      fail("endpoint-hash", "type hash differs from the registered one: " + show(e) + " registered " + vh::hex(x.hash.value, 32));
    }
    if (e.etype != (readers ? RMW_ENDPOINT_SUBSCRIPTION : RMW_ENDPOINT_PUBLISHER)) {
      fail("endpoint-kind", "wrong endpoint type: " + show(e));
    }
    if (!qos_eq(e.qos, x.qos)) {
      EndRec want = e;
      want.qos = x.qos;
      fail("endpoint-qos", "QoS differs: reported " + show(e) + " registered " + show(want));
    }
    auto pit = m.parts.find(x.part);
    bool ok = false;
    std::string want;
    if (pit == m.parts.end()) {
      ok = e.node == "_CREATED_BY_BARE_DDS_APP_" && e.ns == "_CREATED_BY_BARE_DDS_APP_";
      want = "bare DDS application";
    } else {
      bool any = false;
      for (auto & n : pit->second.nodes) {
        auto & seq = readers ? n.readers : n.writers;
        if (std::find(seq.begin(), seq.end(), e.gid) != seq.end()) {
          any = true;
          ok = ok || (e.node == n.name && e.ns == n.ns);
          want = "node " + show(n);
        }
      }
      if (!any) {
        ok = e.node == "_NODE_NAME_UNKNOWN_" && e.ns == "_NODE_NAMESPACE_UNKNOWN_";
        want = "unknown node";
      }
    }
    if (!ok) {fail("endpoint-attribution", "attributed to the wrong node: " + show(e) + " expected: " + want);}
  }
  size_t n = m_count(m, readers, topic);
  if (v.size() != n) {
    fail("endpoint-missing", fmt("%zu %ss listed for topic '%s', %zu registered", v.size(), kind, esc(topic).c_str(), n));
  }
}

// ---------------------------------------------------------------- checks
static void must_ok(rmw_ret_t r, const char * what)
{
  if (r != RMW_RET_OK) {fail("query-failed", fmt("%s returned %d on a valid call", what, r));}
}
void check_count(const GraphCache & g, const Model & m, const std::string & topic)
{
  for (bool rd : {false, true}) {
    size_t n = 0x5a5a5a5a;
    must_ok(rd ? g.get_reader_count(topic, &n) : g.get_writer_count(topic, &n), "endpoint count");
    size_t want = m_count(m, rd, topic);
    if (n != want) {
      fail("endpoint-count", fmt("%s count on topic '%s' is %zu, %zu are registered", rd ? "reader" : "writer", esc(topic).c_str(), n, want));
    }
  }
  vh::count("obs_count", 2);
}
void check_ends(const GraphCache & g, const Model & m, const std::string & topic, int yd)
{
  for (bool rd : {false, true}) {
    Tracker t;
    std::vector<EndRec> v;
    must_ok(q_ends(g, rd, topic, yd, v, t), "endpoint info by topic");
    vh::count("obs_endpoint_records", v.size());
    cmp_ends(m, rd, topic, yd, std::move(v));
  }
  vh::count("obs_endpoint_info", 2);
}
void check_topics(const GraphCache & g, const Model & m, int td, int yd)
{
  Tracker t;
  Topics v;
  must_ok(q_topics(g, td, yd, v, t), "topic names and types");
  Topics want = m_topics(m, td, yd);
  if (v != want) {fail("topics-mismatch", "answer " + show(v) + " expected " + show(want));}
  vh::count("obs_topic_lists");
  vh::count("obs_topics_listed", v.size());
}
void check_nodes(const GraphCache & g, const Model & m, bool enclaves)
{
  Tracker t;
  std::vector<NodeRec> v;
  must_ok(q_nodes(g, enclaves, v, t), "node listing");
  auto want = m_nodes(m, enclaves);
  if (!(v == want)) {fail("nodes-mismatch", "answer " + show(v) + " expected " + show(want));}
  size_t n = g.get_number_of_nodes();
  if (n != want.size()) {fail("node-count", fmt("number of nodes is %zu, %zu are known", n, want.size()));}
  vh::count("obs_node_lists");
  vh::count("obs_nodes_listed", v.size());
}
void check_by_node(const GraphCache & g, const Model & m, const std::string & name, const std::string & ns, int td, int yd)
{
  for (bool rd : {false, true}) {
    Tracker t;
    Topics v;
    rmw_ret_t r = q_by_node(g, rd, name, ns, td, yd, v, t);
    auto want = m_by_node(m, rd, name, ns, td, yd);
    if (want.empty()) {
      if (r != RMW_RET_NODE_NAME_NON_EXISTENT) {
        fail("by-node-nonexistent", fmt("query for unknown node '%s' '%s' returned %d", esc(name).c_str(), esc(ns).c_str(), r));
      }
      vh::count("obs_by_node_unknown");
      continue;
    }
    must_ok(r, "names and types by node");
    if (std::find(want.begin(), want.end(), v) == want.end()) {
      fail("by-node-mismatch", fmt("%ss of node '%s' '%s': answer ", rd ? "reader" : "writer", esc(name).c_str(), esc(ns).c_str()) +
        show(v) + " expected " + show(want[0]) + (want.size() > 1 ? " (or that of another node of that name)" : ""));
    }
    vh::count("obs_by_node");
    vh::count("obs_by_node_topics", v.size());
  }
}
std::string dump(const GraphCache & g)
{
  std::ostringstream os;
  os << g;
  return os.str();
}
static std::string dots(const Gid & g)
{
  std::string s;
  for (size_t i = 0; i < 16; ++i) {s += fmt("%x", g[i]) + (i < 15 ? "." : "");}
  return s;
}
static std::vector<std::string> lines_of(const std::string & s)
{
  std::vector<std::string> v;
  size_t a = 0;
  while (a < s.size()) {
    size_t b = s.find('\n', a);
    if (b == std::string::npos) {b = s.size();}
    v.push_back(s.substr(a, b - a));
    a = b + 1;
  }
  return v;
}
// Sections of a dump: writer lines, reader lines, one block per participant; order does not matter.
struct Dump
{
  std::vector<std::string> head, w, r, parts;
};
static Dump split(const std::string & text)
{
  Dump d;
  int sec = 0;
  for (auto & l : lines_of(text)) {
    if (l.find("Discovered data writers:") != std::string::npos) {sec = 1; d.head.push_back(l);} else if (
      l.find("Discovered data readers:") != std::string::npos)
    {
      sec = 2;
      d.head.push_back(l);
    } else if (l.find("Discovered participants:") != std::string::npos) {
      sec = 3;
      d.head.push_back(l);
    } else if (l.rfind("---", 0) == 0) {
      d.head.push_back(l);
    } else if (sec == 1) {
      d.w.push_back(l);
    } else if (sec == 2) {
      d.r.push_back(l);
    } else if (sec == 3) {
      if (l.rfind("    gid: '", 0) == 0 || d.parts.empty()) {d.parts.push_back(l);} else {d.parts.back() += "\n" + l;}
    } else {
      d.head.push_back(l);
    }
  }
  std::sort(d.w.begin(), d.w.end());
  std::sort(d.r.begin(), d.r.end());
  std::sort(d.parts.begin(), d.parts.end());
  return d;
}
void cmp_dump(const std::string & text, const Model & m)
{
  Dump d = split(text);
  Dump want;
  for (auto & kv : m.w) {
    want.w.push_back("    gid: '" + dots(kv.first) + "', topic name: '" + kv.second.topic + "', topic_type: '" + kv.second.type + "'");
  }
  for (auto & kv : m.r) {
    want.r.push_back("    gid: '" + dots(kv.first) + "', topic name: '" + kv.second.topic + "', topic_type: '" + kv.second.type + "'");
  }
  for (auto & kv : m.parts) {
    std::string s = "    gid: '" + dots(kv.first) + "\n    enclave name '" + kv.second.enclave + "\n    nodes:";
    for (auto & n : kv.second.nodes) {
      s += "\n      namespace: '" + n.ns + "' name: '" + n.name + "'\n      associated data readers gids:";
      for (auto & q : n.readers) {s += "\n        " + dots(q);}
      s += "\n      associated data writers gids:";
      for (auto & q : n.writers) {s += "\n        " + dots(q);}
    }
    want.parts.push_back(s);
  }
  std::sort(want.w.begin(), want.w.end());
  std::sort(want.r.begin(), want.r.end());
  std::sort(want.parts.begin(), want.parts.end());
  auto diff = [](const char * what, const std::vector<std::string> & a, const std::vector<std::string> & b) {
      if (a == b) {return;}
      for (auto & x : a) {
        if (std::count(a.begin(), a.end(), x) != std::count(b.begin(), b.end(), x)) {
          fail(std::string("dump-") + what, "the dump shows '" + x.substr(0, 600) + "', which the graph does not contain that often");
        }
      }
      for (auto & x : b) {
        if (std::count(a.begin(), a.end(), x) != std::count(b.begin(), b.end(), x)) {
          fail(std::string("dump-") + what, "the dump does not show '" + x.substr(0, 600) + "'");
        }
      }
    };
  diff("writers", d.w, want.w);
  diff("readers", d.r, want.r);
  diff("participants", d.parts, want.parts);
}
void check_dump(const GraphCache & g, const Model & m)
{
  cmp_dump(dump(g), m);
  vh::count("obs_dumps");
  size_t n = m.w.size() + m.r.size() + m.parts.size();
  vh::count("obs_dump_entries", n);
}
uint64_t model_hash(const Model & m)
{
  uint64_t h = 7;
  auto add = [&h](const std::string & s) {h = vh::hash_str(s, h);};
  for (auto * e : {&m.w, &m.r}) {
    add("|");
    for (auto & kv : *e) {
      add(std::string(kv.first.begin(), kv.first.end()));
      add(kv.second.topic);
      add(kv.second.type);
      add(std::string(kv.second.part.begin(), kv.second.part.end()));
    }
  }
  for (auto & p : m.parts) {
    add(std::string(p.first.begin(), p.first.end()));
    add(p.second.enclave);
    for (auto & n : p.second.nodes) {
      add(n.name);
      add(n.ns);
      for (auto & g : n.readers) {add(std::string(g.begin(), g.end()));}
      add("/");
      for (auto & g : n.writers) {add(std::string(g.begin(), g.end()));}
    }
  }
  return h;
}

// ---------------------------------------------------------------- generators
const char * rand_ident(vh::Rng & r)
{
  static const char * const ids[] = {nullptr, "rmw_a", "rmw_b", ""};
  return ids[r.below(4)];
}
static rmw_time_t rand_time(vh::Rng & r)
{
  static const rmw_time_t special[] = {{0, 0}, {9223372036ull, 854775807ull}, {9223372036ull, 854775806ull}, {0, 1},
    {1, 0}, {~0ull, ~0ull}, {2147483647ull, 999999999ull}};
  if (r.chance(1, 2)) {return special[r.below(7)];}
  return {r.u64() >> r.below(64), r.u64() >> r.below(64)};
}
rmw_qos_profile_t rand_qos(vh::Rng & r)
{
  rmw_qos_profile_t q;
  memset(&q, 0, sizeof(q));
  q.history = static_cast<rmw_qos_history_policy_e>(r.below(4));
  q.depth = r.u64() >> r.below(64);
  q.reliability = static_cast<rmw_qos_reliability_policy_e>(r.below(5));
  q.durability = static_cast<rmw_qos_durability_policy_e>(r.below(5));
  q.deadline = rand_time(r);
  q.lifespan = rand_time(r);
  q.liveliness = static_cast<rmw_qos_liveliness_policy_e>(r.below(6));
  q.liveliness_lease_duration = rand_time(r);
  q.avoid_ros_namespace_conventions = r.chance(1, 2);
  return q;
}
rosidl_type_hash_t rand_hash(vh::Rng & r)
{
  rosidl_type_hash_t h;
  memset(&h, 0, sizeof(h));
  h.version = static_cast<uint8_t>(r.chance(3, 4) ? 1 : r.below(256));
  for (auto & b : h.value) {b = static_cast<uint8_t>(r.u64());}
  return h;
}
static std::vector<Gid> rand_gids(vh::Rng & r, size_t n)
{
  std::vector<Gid> v;
  Gid base;
  for (auto & b : base) {b = static_cast<uint8_t>(r.u64());}
  static const uint8_t special[] = {0x00, 0x01, 0x7f, 0x80, 0xff, 0xfe};
  while (v.size() < n) {
    Gid g = base;
    switch (r.below(6)) {
      case 0:
        for (auto & b : g) {b = static_cast<uint8_t>(r.u64());}
        break;
      case 1:
        g[r.below(16)] = special[r.below(6)];
        break;
      case 2:
        g[15 - r.below(4)] ^= static_cast<uint8_t>(1u << r.below(8));
        break;
      case 3:
        for (auto & b : g) {b = special[r.below(6)];}
        break;
      case 4:
        g.fill(special[r.below(6)]);
        g[r.below(16)] ^= static_cast<uint8_t>(r.below(3));
        break;
      default:
        g[r.below(16)] ^= static_cast<uint8_t>(r.u64());
        g[r.below(16)] ^= static_cast<uint8_t>(r.u64());
    }
    v.push_back(g);
  }
  return v;
}
Pools make_pools(vh::Rng & r, size_t scale, bool plain)
{
  Pools p;
  p.gids = rand_gids(r, 4 + r.below(14) * scale);
  p.pgids = rand_gids(r, 1 + r.below(5));
  if (r.chance(1, 3)) {p.gids.push_back(p.pgids[0]);}   // one identifier used for both kinds
  auto strs = [&](std::vector<std::string> base, const char * lng, size_t extra) {
      std::vector<std::string> v;
      static const size_t edges[] = {15, 16, 22, 23, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 511, 512, 1000, 1023, 1024, 2048, 4096, 65536};
      size_t len = 1 + r.below(plain ? 40 : 5000);
      if (!plain && r.chance(1, 2)) {len = edges[r.below(r.chance(1, 40) ? 22 : 21)] + r.below(3) - 1;}
      std::string x(len, lng[0]);
      base.push_back(x);
      base.push_back(x + "y");
      x.back() = '~';           // differs from the others in its last byte only
      base.push_back(x);
      if (!plain) {
        base.push_back("\xc3\xa9\xe2\x82\xac\xf0\x9f\xa4\x96");
        base.push_back(std::string("a\nb"));
        base.push_back(std::string("%s%n"));
        base.push_back(std::string(256, 'z'));
        base.push_back(std::string(257, 'z'));
      }
      // short strings of characters that names are made of (and, if allowed, of any bytes)
      static const char alphabet[] = "//__::..  ~-{}aAzZ09";
      for (int i = 0; i < 3; ++i) {
        std::string o;
        const bool any = !plain && r.chance(1, 4);
        for (size_t n = 1 + r.below(8); n > 0; --n) {
          o += any ? static_cast<char>(1 + r.below(255)) : alphabet[r.below(sizeof(alphabet) - 1)];
        }
        base.push_back(o);
      }
      size_t k = 2 + r.below(6);
      for (size_t i = 0; i < k; ++i) {v.push_back(base[r.below(base.size())]);}
      for (size_t i = 0; i < extra; ++i) {v.push_back(base[0] + fmt("%llu", static_cast<unsigned long long>(i)));}
      return v;
    };
  const size_t extra = scale > 4 ? scale * 4 : r.below(3);
  p.topics = strs({"rt/chatter", "", "rt/a", "rt/ab", "rt/", "rq/addRequest", "rr/addReply", "a", "rt", "/a", "rt/chatter ", "RT/chatter"}, "t", extra);
  p.types = strs({"std_msgs::msg::dds_::String_", "", "A", "AB", "a", "std_msgs::msg::dds_::String", "B"}, "y", extra);
  p.names = strs({"talker", "", "a", "ab", "b", "talker1", "Talker", "node", "_NODE_NAME_UNKNOWN_"}, "n", extra);
  p.nss = strs({"/", "", "/ns", "/ns/", "a", "ab", "b", "talker", "/ns/a"}, "s", extra);
  p.enclaves = strs({"/", "", "/enclave", "/enclave/a", "a"}, "e", 0);
  for (size_t i = 0; i < 4; ++i) {p.qoss.push_back(rand_qos(r));}
  for (size_t i = 0; i < 3; ++i) {p.hashes.push_back(rand_hash(r));}
  p.hashes.push_back(rosidl_get_zero_initialized_type_hash());
  return p;
}

const char * const kOpName[N_OPS] = {"add_writer", "add_reader", "remove_writer", "remove_reader", "add_participant",
  "remove_participant", "discovery_message", "add_node", "remove_node", "associate_writer", "dissociate_writer",
  "associate_reader", "dissociate_reader"};

// More than fits into 16 bits of one thing.
void Sim::huge()
{
  vh::Rng & r = c.rng;
  const size_t n = 65534 + r.below(5);
  const bool rd = r.chance(1, 2);
  const Gid base = r.pick(p.gids);
  auto gid = [&](size_t i) {
      Gid q = base;
      q[0] = static_cast<uint8_t>(i >> 16);
      q[7] = static_cast<uint8_t>(i >> 8);
      q[15] = static_cast<uint8_t>(i);
      return q;
    };
  auto end = [&](bool reader, const Gid & q, const End & e) {
      auto & ends = reader ? m.r : m.w;
      const bool want = ends.emplace(q, e).second;
      const rmw_gid_t a = to_rmw(q), b = to_rmw(e.part);
      const bool got = reader ? g->add_reader(a, e.topic, e.type, e.hash, b, e.qos) : g->add_writer(a, e.topic, e.type, e.hash, b, e.qos);
      if (want != got) {fail("add-result", fmt("endpoint %s of tens of thousands: %d", gs(q).c_str(), got));}
    };
  End e;
  e.topic = r.pick(p.topics);
  e.type = r.pick(p.types);
  e.hash = r.pick(p.hashes);
  e.part = p.pgids[0];
  e.qos = r.pick(p.qoss);
  auto message = [&](const Gid & who, const std::vector<Node> & nodes) {
      m.parts[who].nodes = nodes;
      g->update_participant_entities(to_msg(who, nodes));
    };
  const unsigned dim = static_cast<unsigned>(c.index / 2000 % 6);
  c.note(fmt("%zu of one thing (kind %u)", n, dim));
  Node node;
  node.name = r.pick(p.names);
  node.ns = r.pick(p.nss);
  switch (dim) {
    case 0:                       // endpoints of one topic
      for (size_t i = 0; i < n; ++i) {end(rd, gid(i), e);}
      break;
    case 1:                       // types of one topic
    case 2:                       // topics
      for (size_t i = 0; i < n; ++i) {
        (dim == 1 ? e.type : e.topic) = fmt("rt/%zu", i);
        end(rd, gid(i), e);
      }
      break;
    case 3: {                     // nodes of one participant
        std::vector<Node> nodes(n, node);
        for (size_t i = 0; i < n; ++i) {nodes[i].name += fmt("%zu", i);}
        message(e.part, nodes);
        break;
      }
    case 4:                       // participants
      for (size_t i = 0; i < n; ++i) {message(gid(i), {node});}
      break;
    default:                      // endpoints of one node
      for (size_t i = 0; i < n; ++i) {(rd ? node.readers : node.writers).push_back(gid(i));}
      message(e.part, {node});
      for (size_t i = 0; i < n; i += 1 + r.below(2000)) {end(rd, gid(i), e);}
      e.topic = "rt/last";
      end(rd, gid(n - 1), e);
  }
  vh::count("huge_graphs");
}
void Sim::grow()
{
  vh::Rng & r = c.rng;
  const size_t n = r.chance(1, 3) ? 256 : r.chance(1, 8) ? 500 + r.below(600) : 240 + r.below(120);
  const int dim = static_cast<int>(r.below(7));
  auto many = [&](const char * s, size_t k) {
      std::vector<std::string> v;
      for (size_t i = 0; i < k; ++i) {v.push_back(s + fmt("%zu", i));}
      return v;
    };
  auto fresh = [&](size_t k) {
      Gid g = r.pick(p.gids);
      std::vector<Gid> v;
      for (size_t i = 0; i < k; ++i) {
        g[14] = static_cast<uint8_t>(i >> 8);
        g[15] = static_cast<uint8_t>(i);
        v.push_back(g);
      }
      return v;
    };
  auto times = [&](Op op, size_t k) {for (size_t i = 0; i < k; ++i) {step(op);}};
  const bool rd = r.chance(1, 2);
  switch (dim) {
    case 0:      // endpoints of one topic
      p.topics = {"rt/chatter"};
      p.gids = fresh(2 * n);
      times(ADD_P, 2);
      times(rd ? ADD_R : ADD_W, 3 * n);
      break;
    case 1:      // types of one topic
      p.topics = {"rt/chatter"};
      p.types = many("T", 2 * n);
      p.gids = fresh(2 * n);
      times(ADD_W, n);
      times(ADD_R, n);
      break;
    case 2:      // topics
      p.topics = many("rt/", 2 * n);
      p.gids = fresh(2 * n);
      times(ADD_W, n);
      times(ADD_R, n);
      break;
    case 3:      // nodes of one participant
      p.pgids.resize(1);
      p.names = many("n", n);
      times(ADD_P, 1);
      times(ADD_N, n + r.below(20));
      break;
    case 4:      // participants
      p.pgids = fresh(n + 20);
      times(ADD_P, 2 * n);
      times(UPD, n / 2);
      break;
    case 5:      // endpoints of one node
      p.pgids.resize(1);
      p.gids = fresh(2 * n);
      p.topics = many("rt/", r.chance(1, 2) ? 3 : n);
      times(ADD_P, 1);
      times(ADD_N, 1);
      times(rd ? ADD_R : ADD_W, n);
      times(rd ? ASS_R : ASS_W, n + r.below(30));
      if (r.chance(1, 2)) {      // and some of the other kind
        times(rd ? ADD_W : ADD_R, r.chance(1, 2) ? n : 4);
        times(rd ? ASS_W : ASS_R, r.chance(1, 2) ? n : 4);
      }
      break;
    default: {   // one big discovery message
        const Gid pg = p.pgids[0];
        p.pgids.resize(1);
        p.names = many("n", n);
        p.gids = fresh(n);
        times(ADD_W, n);
        times(ADD_R, n);
        std::vector<Node> nodes(r.chance(1, 2) ? n : 3);
        for (auto & x : nodes) {
          x.name = r.pick(p.names);
          x.ns = r.pick(p.nss);
          const size_t k = nodes.size() == 3 ? n * (1 + r.below(3)) : r.below(4);
          for (size_t i = 0; i < k; ++i) {
            if (r.chance(1, 2)) {x.readers.push_back(r.pick(p.gids));} else {x.writers.push_back(r.pick(p.gids));}
          }
        }
        g->update_participant_entities(to_msg(pg, nodes));
        m.parts[pg].nodes = nodes;
        c.note(fmt("discovery_message with %zu nodes", nodes.size()));
      }
  }
  vh::count("grown_graphs");
  vh::count("events", n);
}

Sim::Sim(vh::Case & c_, size_t scale, bool plain)
: c(c_), p(make_pools(c_.rng, scale, plain)), g(new GraphCache)
{
}
Op Sim::pick(const std::array<int, N_OPS> & w)
{
  int tot = 0;
  for (int x : w) {tot += x;}
  int k = static_cast<int>(c.rng.below(static_cast<uint64_t>(tot)));
  for (int i = 0; i < N_OPS; ++i) {
    if (k < w[i]) {return static_cast<Op>(i);}
    k -= w[i];
  }
  return ADD_W;
}

#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
static bool call_add(
  GraphCache & g, int form, bool rd, const rmw_gid_t & gid, const End & e, const rmw_gid_t & pg)
{
  switch (form) {
    case 0: return rd ? g.add_reader(gid, e.topic, e.type, e.hash, pg, e.qos) : g.add_writer(gid, e.topic, e.type, e.hash, pg, e.qos);
    case 1: return g.add_entity(gid, e.topic, e.type, e.hash, pg, e.qos, rd);
    case 2: return rd ? g.add_reader(gid, e.topic, e.type, pg, e.qos) : g.add_writer(gid, e.topic, e.type, pg, e.qos);
    default: return g.add_entity(gid, e.topic, e.type, pg, e.qos, rd);
  }
}
#pragma GCC diagnostic pop

// Faults of the exception monitor strike inside the operation itself, not in the monitor around it.
#define IN_CACHE(expr) [&]() {vh::NewFault * f = fault_at >= -1 ? new (fault_room) vh::NewFault(fault_at) : nullptr; \
      struct Off {vh::NewFault * f; ~Off() {if (f) {f->~NewFault();}}} off{f}; in_cache = true; return expr;}()
bool Sim::step(Op op)
{
  in_cache = false;
  vh::Rng & r = c.rng;
  changed = false;
  rejected = false;
  auto some_end = [&](bool rd) -> Gid {
      auto & e = rd ? m.r : m.w;
      if (!e.empty() && r.chance(2, 3)) {
        auto it = e.begin();
        std::advance(it, r.below(std::min<size_t>(e.size(), 50)));
        return it->first;
      }
      return r.pick(p.gids);
    };
  switch (op) {
    case ADD_W: case ADD_R: {
        bool rd = op == ADD_R;
        Gid gid = r.pick(p.gids);
        End e;
        e.topic = r.pick(p.topics);
        e.type = r.pick(p.types);
        e.hash = r.pick(p.hashes);
        e.part = r.pick(p.pgids);
        e.qos = r.pick(p.qoss);
        int form = static_cast<int>(r.below(10));
        form = form < 4 ? 0 : form < 7 ? 1 : form < 9 ? 2 : 3;
        const rmw_gid_t rg = to_rmw(gid, rand_ident(r)), rp = to_rmw(e.part, rand_ident(r));
        bool ret = IN_CACHE(call_add(*g, form, rd, rg, e, rp));
        if (form >= 2) {e.hash = rosidl_get_zero_initialized_type_hash();}
        auto & ends = rd ? m.r : m.w;
        bool want = ends.find(gid) == ends.end();
        c.note(fmt("%s(form %d gid=%s topic='%s' type='%s' participant=%s) -> %d", kOpName[op], form, gs(gid).c_str(),
          esc(e.topic).c_str(), esc(e.type).c_str(), gs(e.part).c_str(), ret));
        if (ret != want) {
          fail("add-endpoint-result", fmt("%s of %s returned %d, but the identifier %s registered", kOpName[op], gs(gid).c_str(), ret,
            want ? "was not" : "was already"));
        }
        if (want) {ends[gid] = e;}
        changed = want;
        rejected = !want;
        return true;
      }
    case REM_W: case REM_R: {
        bool rd = op == REM_R;
        Gid gid = some_end(rd);
        auto & ends = rd ? m.r : m.w;
        rmw_gid_t rg = to_rmw(gid, rand_ident(r));
        const bool entity = r.chance(1, 2);
        bool ret = IN_CACHE(entity ? g->remove_entity(rg, rd) : (rd ? g->remove_reader(rg) : g->remove_writer(rg)));
        bool want = ends.erase(gid) > 0;
        c.note(fmt("%s(%s) -> %d", kOpName[op], gs(gid).c_str(), ret));
        if (ret != want) {
          fail("remove-endpoint-result", fmt("%s of %s returned %d, but the identifier %s registered", kOpName[op], gs(gid).c_str(), ret,
            want ? "was" : "was not"));
        }
        changed = want;
        rejected = !want;
        return true;
      }
    case ADD_P: {
        Gid pg = r.pick(p.pgids);
        std::string enc = r.pick(p.enclaves);
        const rmw_gid_t rg = to_rmw(pg, rand_ident(r));
        IN_CACHE(g->add_participant(rg, enc));
        c.note(fmt("add_participant(%s, '%s')", gs(pg).c_str(), esc(enc).c_str()));
        changed = m.parts.find(pg) == m.parts.end() || m.parts[pg].enclave != enc;
        m.parts[pg].enclave = enc;
        return true;
      }
    case REM_P: {
        Gid pg = r.pick(p.pgids);
        const rmw_gid_t rg = to_rmw(pg, rand_ident(r));
        bool ret = IN_CACHE(g->remove_participant(rg));
        bool want = m.parts.erase(pg) > 0;
        c.note(fmt("remove_participant(%s) -> %d", gs(pg).c_str(), ret));
        if (ret != want) {
          fail("remove-participant-result", fmt("removing participant %s returned %d although it %s known", gs(pg).c_str(), ret, want ? "was" : "was not"));
        }
        changed = want;
        rejected = !want;
        return true;
      }
    case UPD: {
        Gid pg = r.pick(p.pgids);
        std::vector<Node> nodes;
        auto it = m.parts.find(pg);
        bool small = false;
        if (it != m.parts.end() && !it->second.nodes.empty() && r.chance(1, 2)) {
          // the known state with one small change
          nodes = it->second.nodes;
          small = true;
          Node & n = nodes[r.below(nodes.size())];
          Node & o = nodes[r.below(nodes.size())];
          const bool rd = r.chance(1, 2);
          auto & seq = rd ? n.readers : n.writers;
          auto & oseq = rd ? o.readers : o.writers;
          switch (r.below(14)) {
            case 0: case 1: case 2: if (!seq.empty()) {seq[r.below(seq.size())] = some_end(rd);} break;
            case 3: if (seq.size() > 1) {std::swap(seq.front(), seq[1 + r.below(seq.size() - 1)]);} break;
            case 4: seq.push_back(some_end(rd)); break;
            case 5: if (!seq.empty()) {seq.erase(seq.begin() + static_cast<long>(r.below(seq.size())));} break;
            case 6: std::swap(n.readers, n.writers); break;
            case 7: std::swap(seq, oseq); break;
            case 8: if (!seq.empty() && &n != &o) {oseq.push_back(seq.back()); seq.pop_back();} break;
            case 9: n.name = r.pick(p.names); break;
            case 10: n.ns = r.pick(p.nss); break;
            case 11: if (&n != &o) {std::swap(n, o);} break;
            case 12: if (r.chance(1, 2)) {nodes.push_back(Node(n));} else {nodes.erase(nodes.begin() + (&n - nodes.data()));} break;
            default: if (!seq.empty()) {seq[r.below(seq.size())][15] ^= 1;} break;
          }
        } else if (it != m.parts.end() && r.chance(1, 4)) {
          nodes = it->second.nodes;     // evolve the known state
          if (!nodes.empty() && r.chance(1, 2)) {nodes.erase(nodes.begin() + static_cast<long>(r.below(nodes.size())));}
          if (r.chance(1, 3)) {std::reverse(nodes.begin(), nodes.end());}
          if (r.chance(1, 6)) {nodes.clear();}
        }
        size_t k = small || r.chance(1, 8) ? 0 : r.below(4);
        const bool swell = !small && r.chance(1, 40);      // what follows shrinks it again
        if (swell) {k = 17 + r.below(20);}
        for (size_t i = 0; i < k; ++i) {
          Node n;
          n.name = r.pick(p.names);
          n.ns = r.pick(p.nss);
          const size_t wide = !small && !swell && r.chance(1, 60) ? 17 + r.below(30) : 0;
          for (size_t j = wide + r.below(4); j > 0; --j) {n.readers.push_back(some_end(true));}
          for (size_t j = wide + r.below(4); j > 0; --j) {n.writers.push_back(some_end(false));}
          nodes.push_back(n);
        }
        const PMsg sent = to_msg(pg, nodes);
        IN_CACHE(g->update_participant_entities(sent));
        c.note(fmt("discovery_message(%s, ", gs(pg).c_str()) + show(nodes).substr(0, 400) + ")");
        changed = it == m.parts.end() || !same_nodes(it->second.nodes, nodes);
        m.parts[pg].nodes = std::move(nodes);
        return true;
      }
    case ADD_N: case REM_N: case ASS_W: case DIS_W: case ASS_R: case DIS_R: {
        if (m.parts.empty()) {return false;}
        auto it = m.parts.begin();
        std::advance(it, r.below(m.parts.size()));
        const Gid pg = it->first;
        std::vector<Node> & nodes = it->second.nodes;
        const rmw_gid_t rpg = to_rmw(pg, rand_ident(r));
        std::string name, ns;
        if (op == ADD_N) {
          if (!nodes.empty() && r.chance(1, 6)) {
            const Node & n = r.pick(nodes);   // the same name again
            name = n.name;
            ns = n.ns;
          } else {
            name = r.pick(p.names);
            ns = r.pick(p.nss);
          }
        } else {
          if (nodes.empty()) {return false;}
          const Node & n = r.pick(nodes);
          name = n.name;
          ns = n.ns;
        }
        Gid eg{};
        if (op == ASS_W || op == ASS_R) {eg = some_end(op == ASS_R);}
        if (op == DIS_W || op == DIS_R) {
          eg = some_end(op == DIS_R);
          for (auto & n : nodes) {
            auto & seq = op == DIS_W ? n.writers : n.readers;
            if (n.name == name && n.ns == ns && !seq.empty() && r.chance(4, 5)) {
              eg = r.pick(seq);
              break;
            }
          }
        }
        const rmw_gid_t reg = to_rmw(eg, rand_ident(r));
        c.note(fmt("%s(participant=%s node='%s' ns='%s' endpoint=%s)", kOpName[op], gs(pg).c_str(), esc(name).c_str(),
          esc(ns).c_str(), gs(eg).c_str()));
        PMsg msg;
        switch (op) {
          case ADD_N: msg = IN_CACHE(g->add_node(rpg, name, ns)); break;
          case REM_N: msg = IN_CACHE(g->remove_node(rpg, name, ns)); break;
          case ASS_W: msg = IN_CACHE(g->associate_writer(reg, rpg, name, ns)); break;
          case DIS_W: msg = IN_CACHE(g->dissociate_writer(reg, rpg, name, ns)); break;
          case ASS_R: msg = IN_CACHE(g->associate_reader(reg, rpg, name, ns)); break;
          default: msg = IN_CACHE(g->dissociate_reader(reg, rpg, name, ns)); break;
        }
        if (judge_messages && from_msg(msg.gid) != pg) {
          fail("message-participant", "the returned message is for participant " + gs(from_msg(msg.gid)) + " instead of " + gs(pg));
        }
        std::vector<Node> got = nodes_of(msg);
        std::vector<std::vector<Node>> want;
        if (op == ADD_N) {
          want.push_back(nodes);
          Node n;
          n.name = name;
          n.ns = ns;
          want.back().push_back(n);
        } else {
          for (size_t i = 0; i < nodes.size(); ++i) {
            if (nodes[i].name != name || nodes[i].ns != ns) {continue;}
            want.push_back(nodes);
            auto & v = want.back();
            if (op == REM_N) {
              v.erase(v.begin() + static_cast<long>(i));
            } else {
              auto & seq = (op == ASS_W || op == DIS_W) ? v[i].writers : v[i].readers;
              if (op == ASS_W || op == ASS_R) {
                seq.push_back(eg);
              } else {
                auto f = std::find(seq.begin(), seq.end(), eg);
                if (f != seq.end()) {seq.erase(f);}
              }
            }
          }
        }
        bool ok = false;
        for (auto & w : want) {ok = ok || same_nodes(w, got);}
        if (!ok && !judge_messages) {
          got = want[0];          // another monitor's business
          ok = true;
        }
        if (!ok) {
          fail("message-state", std::string(kOpName[op]) + " returned " + show(got) + " but the participant should now have " + show(want[0]));
        }
        changed = !same_nodes(nodes, got);
        vh::count("messages_checked");
        nodes = std::move(got);
        return true;
      }
    default: return false;
  }
}

void Sim::observe(unsigned mask, bool full)
{
  vh::Rng & r = c.rng;
  const int td = static_cast<int>(r.below(kTopicDem)), yd = static_cast<int>(r.below(kTypeDem));
  auto some = [&](const std::vector<std::string> & v) {return full ? std::set<std::string>(v.begin(), v.end()) :
               std::set<std::string>{r.pick(v), r.pick(v)};};
  if (mask & O_COUNT) {
    for (auto & t2 : some(p.topics)) {check_count(*g, m, t2);}
  }
  if (mask & O_ENDS) {
    for (auto & t2 : some(p.topics)) {check_ends(*g, m, t2, yd);}
  }
  if (mask & O_TOPICS) {
    check_topics(*g, m, td, yd);
    if (full) {
      for (int k = 0; k < kTopicDem; ++k) {check_topics(*g, m, k, static_cast<int>(r.below(kTypeDem)));}
    }
  }
  if (mask & O_NODES) {check_nodes(*g, m, r.chance(3, 4));}
  if (mask & O_BYNODE) {
    check_by_node(*g, m, r.pick(p.names), r.pick(p.nss), td, yd);
    size_t n = 0, all = 0;
    for (auto & part : m.parts) {all += part.second.nodes.size();}
    for (auto & part : m.parts) {
      for (auto & node : part.second.nodes) {
        if (all > 20000 ? r.chance(6, all) : full ? n++ < 40 : r.chance(1, 4)) {
          check_by_node(*g, m, node.name, node.ns, r.chance(1, 2) ? 0 : td, yd);
          if (full && r.chance(1, 6)) {check_by_node(*g, m, node.ns, node.name, td, yd);}
        }
      }
    }
  }
  if (mask & O_DUMP) {check_dump(*g, m);}
  vh::count("observations");
}
}  // namespace gm
