// The operations of a Context, their expected effect on the participant's nodes, shared by the
// sequential and the concurrent monitors.
#ifndef CTX_MODEL_HPP_
#define CTX_MODEL_HPP_
#include <string>
#include <vector>

#include "graph_model.hpp"
#include "rmw_dds_common/context.hpp"

namespace cm
{
using gm::Gid;
using gm::Node;
enum CtxOp
{
  C_ADD_NODE, C_REM_NODE, C_ADD_SUB, C_REM_SUB, C_ADD_PUB, C_REM_PUB, C_ADD_CLI, C_REM_CLI, C_ADD_SRV, C_REM_SRV, C_N
};
extern const char * const kCtxOp[C_N];
inline bool is_add(CtxOp o) {return o % 2 == 0;}

struct Call
{
  CtxOp op;
  std::string name, ns;
  Gid a{}, b{};     // first and second endpoint as the operation takes them
};
std::string show(const Call & c);
rmw_ret_t invoke(rmw_dds_common::Context & ctx, const Call & c);
// every acceptable successor state (several when several nodes carry the name)
std::vector<std::vector<Node>> successors(const std::vector<Node> & nodes, const Call & c);
// one with the same content as got, or nullptr
const std::vector<Node> * matching(const std::vector<std::vector<Node>> & want, const std::vector<Node> & got);
// the full state of the participant, through an operation without effect; needs a node
std::vector<Node> probe(rmw_dds_common::Context & ctx, const std::string & name, const std::string & ns);
bool same_gid_msg(const gm::PMsg & m, const Gid & g);
}  // namespace cm
#endif
