// Reference model of the ROS graph cache, its observers through the public API,
// and the adversarial generators the graph monitors share.
#ifndef GRAPH_MODEL_HPP_
#define GRAPH_MODEL_HPP_
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

#include "rcutils/allocator.h"
#include "rmw/names_and_types.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rmw/types.h"
#include "rmw_dds_common/graph_cache.hpp"
#include "vh.hpp"

namespace gm
{
using Gid = std::array<uint8_t, 16>;
using rmw_dds_common::GraphCache;
using PMsg = rmw_dds_common::msg::ParticipantEntitiesInfo;
using NMsg = rmw_dds_common::msg::NodeEntitiesInfo;

rmw_gid_t to_rmw(const Gid & g, const char * ident = nullptr);
Gid from_msg(const rmw_dds_common::msg::Gid & g);
std::string gs(const Gid & g);

// ---- allocator with bookkeeping and failure injection ----
struct Tracker
{
  std::unordered_map<void *, size_t> live;
  uint64_t allocs = 0;
  int64_t fail_at = -1;       // fail the allocation with this ordinal (and all later ones if sticky)
  bool sticky = false;
  uint64_t failed = 0;
  std::string error;          // first misuse seen
  rcutils_allocator_t get();
  void check(const char * what, bool expect_empty = true);
};

// ---- model ----
struct End
{
  std::string topic, type;
  rosidl_type_hash_t hash;
  Gid part;
  rmw_qos_profile_t qos;
};
struct Node
{
  std::string name, ns;
  std::vector<Gid> readers, writers;
};
struct Part
{
  std::string enclave;
  std::vector<Node> nodes;
};
struct Model
{
  std::map<Gid, End> w, r;
  std::map<Gid, Part> parts;
};
std::string show(const Node & n);
std::string show(const std::vector<Node> & n);
std::vector<Node> nodes_of(const PMsg & m);
std::vector<Node> normal(std::vector<Node> n);   // order-insensitive form
bool same_nodes(const std::vector<Node> & a, const std::vector<Node> & b);
bool node_eq(const Node & a, const Node & b);
PMsg to_msg(const Gid & g, const std::vector<Node> & nodes);
bool qos_eq(const rmw_qos_profile_t & a, const rmw_qos_profile_t & b);
bool hash_eq(const rosidl_type_hash_t & a, const rosidl_type_hash_t & b);

extern void (* g_point)();   // called by demanglers and allocators: a place to switch threads

// ---- demanglers ----
constexpr int kTopicDem = 7, kTypeDem = 4;
std::string dem_topic(int kind, const std::string & s);
std::string dem_type(int kind, const std::string & s);
GraphCache::DemangleFunctionT topic_fn(int kind);
GraphCache::DemangleFunctionT type_fn(int kind);

// ---- observations ----
struct NodeRec
{
  std::string name, ns, enclave;
  bool operator<(const NodeRec & o) const {return std::tie(name, ns, enclave) < std::tie(o.name, o.ns, o.enclave);}
  bool operator==(const NodeRec & o) const {return name == o.name && ns == o.ns && enclave == o.enclave;}
};
using Topics = std::vector<std::pair<std::string, std::vector<std::string>>>;  // sorted
struct EndRec
{
  std::string node, ns, type;
  rosidl_type_hash_t hash;
  rmw_endpoint_type_t etype;
  Gid gid;
  rmw_qos_profile_t qos;
};
std::string show(const std::vector<NodeRec> & v);
std::string show(const Topics & t);
std::string show(const EndRec & e);

rmw_ret_t q_nodes(const GraphCache & g, bool enclaves, std::vector<NodeRec> & out, Tracker & t);
rmw_ret_t q_topics(const GraphCache & g, int td, int yd, Topics & out, Tracker & t);
rmw_ret_t q_by_node(
  const GraphCache & g, bool readers, const std::string & name, const std::string & ns,
  int td, int yd, Topics & out, Tracker & t);
rmw_ret_t q_ends(
  const GraphCache & g, bool readers, const std::string & topic, int yd, std::vector<EndRec> & out, Tracker & t);

std::vector<NodeRec> m_nodes(const Model & m, bool enclaves);
Topics m_topics(const Model & m, int td, int yd);
bool m_node_exists(const Model & m, const std::string & name, const std::string & ns);
// one acceptable answer per node with that name
std::vector<Topics> m_by_node(
  const Model & m, bool readers, const std::string & name, const std::string & ns, int td, int yd);
size_t m_count(const Model & m, bool readers, const std::string & topic);
// fails unless v is the right description of the endpoints on that topic
void cmp_ends(const Model & m, bool readers, const std::string & topic, int yd, std::vector<EndRec> v);

// ---- checks (throw vh::CaseFail) ----
enum Obs : unsigned
{
  O_COUNT = 1, O_ENDS = 2, O_TOPICS = 4, O_NODES = 8, O_BYNODE = 16, O_DUMP = 32,
  O_ALL = 31
};
void check_count(const GraphCache & g, const Model & m, const std::string & topic);
void check_ends(const GraphCache & g, const Model & m, const std::string & topic, int yd);
void check_topics(const GraphCache & g, const Model & m, int td, int yd);
void check_nodes(const GraphCache & g, const Model & m, bool enclaves);
void check_by_node(const GraphCache & g, const Model & m, const std::string & name, const std::string & ns, int td, int yd);
void check_dump(const GraphCache & g, const Model & m);
std::string dump(const GraphCache & g);
void cmp_dump(const std::string & text, const Model & m);   // fails unless the text shows that graph
uint64_t model_hash(const Model & m);

// ---- generators ----
struct Pools
{
  std::vector<Gid> gids;        // used for endpoints (readers and writers share it)
  std::vector<Gid> pgids;       // participants
  std::vector<std::string> topics, types, names, nss, enclaves;
  std::vector<rmw_qos_profile_t> qoss;
  std::vector<rosidl_type_hash_t> hashes;
};
Pools make_pools(vh::Rng & r, size_t scale, bool plain_lines);
rmw_qos_profile_t rand_qos(vh::Rng & r);
rosidl_type_hash_t rand_hash(vh::Rng & r);
const char * rand_ident(vh::Rng & r);

enum Op
{
  ADD_W, ADD_R, REM_W, REM_R, ADD_P, REM_P, UPD, ADD_N, REM_N, ASS_W, DIS_W, ASS_R, DIS_R, N_OPS
};
extern const char * const kOpName[N_OPS];

struct Sim
{
  vh::Case & c;
  Pools p;
  Model m;
  std::shared_ptr<GraphCache> g;   // may alias a cache the caller owns
  Tracker t;
  // change of the last step, for the callback monitor
  bool changed = false;      // the graph differs
  bool rejected = false;     // the operation reported that it had no effect
  int64_t fault_at = -2;     // which operator new inside the operation fails (-1: none, they are counted)
  bool in_cache = false;     // the last step got as far as calling the cache
  bool judge_messages = false;   // returned messages are part of what is decided
  alignas(8) unsigned char fault_room[8];
  explicit Sim(vh::Case & c_, size_t scale = 1, bool plain_lines = false);
  void grow();               // hundreds of one thing: endpoints of a topic, nodes, participants, ...
  void huge();               // tens of thousands of one thing
  bool step(Op op);          // false: precondition not met, nothing done
  Op pick(const std::array<int, N_OPS> & w);
  void observe(unsigned mask, bool full);
};
}  // namespace gm
#endif
