#include "ctx_model.hpp"

namespace cm
{
const char * const kCtxOp[C_N] = {"add_node_graph", "remove_node_graph", "add_subscriber_graph", "remove_subscriber_graph",
  "add_publisher_graph", "remove_publisher_graph", "add_client_graph", "remove_client_graph", "add_service_graph",
  "remove_service_graph"};

std::string show(const Call & c)
{
  std::string s = std::string(kCtxOp[c.op]) + "(";
  if (c.op >= C_ADD_SUB) {s += gm::gs(c.a) + ", ";}
  if (c.op >= C_ADD_CLI) {s += gm::gs(c.b) + ", ";}
  return s + "'" + vh::esc(c.name) + "', '" + vh::esc(c.ns) + "')";
}
rmw_ret_t invoke(rmw_dds_common::Context & x, const Call & c)
{
  const rmw_gid_t a = gm::to_rmw(c.a), b = gm::to_rmw(c.b);
  switch (c.op) {
    case C_ADD_NODE: return x.add_node_graph(c.name, c.ns);
    case C_REM_NODE: return x.remove_node_graph(c.name, c.ns);
    case C_ADD_SUB: return x.add_subscriber_graph(a, c.name, c.ns);
    case C_REM_SUB: return x.remove_subscriber_graph(a, c.name, c.ns);
    case C_ADD_PUB: return x.add_publisher_graph(a, c.name, c.ns);
    case C_REM_PUB: return x.remove_publisher_graph(a, c.name, c.ns);
    case C_ADD_CLI: return x.add_client_graph(a, b, c.name, c.ns);
    case C_REM_CLI: return x.remove_client_graph(a, b, c.name, c.ns);
    case C_ADD_SRV: return x.add_service_graph(a, b, c.name, c.ns);
    default: return x.remove_service_graph(a, b, c.name, c.ns);
  }
}
static void put(std::vector<Gid> & v, const Gid & g, bool add)
{
  if (add) {v.push_back(g); return;}
  auto f = std::find(v.begin(), v.end(), g);
  if (f != v.end()) {v.erase(f);}
}
std::vector<std::vector<Node>> successors(const std::vector<Node> & nodes, const Call & c)
{
  std::vector<std::vector<Node>> out;
  if (c.op == C_ADD_NODE) {
    out.push_back(nodes);
    Node n;
    n.name = c.name;
    n.ns = c.ns;
    out.back().push_back(n);
    return out;
  }
  const bool add = is_add(c.op);
  std::vector<size_t> cand;
  for (size_t i = 0; i < nodes.size(); ++i) {
    if (nodes[i].name == c.name && nodes[i].ns == c.ns) {cand.push_back(i);}
  }
  for (size_t i : cand) {
    switch (c.op) {
      case C_REM_NODE:
        out.push_back(nodes);
        out.back().erase(out.back().begin() + static_cast<long>(i));
        break;
      case C_ADD_SUB: case C_REM_SUB:
        out.push_back(nodes);
        put(out.back()[i].readers, c.a, add);
        break;
      case C_ADD_PUB: case C_REM_PUB:
        out.push_back(nodes);
        put(out.back()[i].writers, c.a, add);
        break;
      default:
        // a client writes requests and reads responses, a service the other way round
        for (size_t j : cand) {
          out.push_back(nodes);
          const bool cli = c.op == C_ADD_CLI || c.op == C_REM_CLI;
          put(cli ? out.back()[i].writers : out.back()[i].readers, c.a, add);
          put(cli ? out.back()[j].readers : out.back()[j].writers, c.b, add);
        }
    }
  }
  return out;
}
const std::vector<Node> * matching(const std::vector<std::vector<Node>> & want, const std::vector<Node> & got)
{
  for (auto & w : want) {
    if (gm::same_nodes(w, got)) {return &w;}
  }
  return nullptr;
}
std::vector<Node> probe(rmw_dds_common::Context & ctx, const std::string & name, const std::string & ns)
{
  Gid unused;
  for (size_t i = 0; i < 16; ++i) {unused[i] = static_cast<uint8_t>(0xE0 + i);}
  return gm::nodes_of(ctx.graph_cache.dissociate_reader(gm::to_rmw(unused), ctx.gid, name, ns));
}
bool same_gid_msg(const gm::PMsg & m, const Gid & g) {return gm::from_msg(m.gid) == g;}
}  // namespace cm
