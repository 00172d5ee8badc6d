// Sequential monitors of Context: what is published, what a failed publication leaves behind, and
// whether the published messages rebuild the graph on every other participant.
#include "ctx_model.hpp"
#include "rmw/error_handling.h"
#include "vh_cdr.hpp"

using namespace gm;
using namespace cm;
using rmw_dds_common::Context;
using vh::Case;
using vh::fail;
using vh::fmt;

namespace
{
struct Recorder
{
  struct Ev { const rmw_publisher_t * pub; PMsg msg; };
  std::vector<Ev> ev;
  rmw_ret_t ret = RMW_RET_OK;
};
rmw_publisher_t * dummy_pub(int i)
{
  static rmw_publisher_t pubs[16];
  return &pubs[i];
}
std::function<rmw_ret_t(const rmw_publisher_t *, const void *)> hook(Recorder & r)
{
  Recorder * p = &r;
  return [p](const rmw_publisher_t * pub, const void * msg) {
           p->ev.push_back({pub, *static_cast<const PMsg *>(msg)});
           return p->ret;
         };
}

struct Local
{
  Context ctx;
  Gid gid;
  Recorder rec;
  rmw_publisher_t * pub;
  Local(const Gid & g, int i) : gid(g), pub(dummy_pub(i))
  {
    ctx.gid = to_rmw(g, "monitor");
    ctx.pub = pub;
    ctx.sub = nullptr;
    ctx.publish_callback = hook(rec);
  }
};

bool make_call(vh::Rng & r, const Pools & p, const std::vector<Node> & nodes, Call & c, bool dups)
{
  static const int w[C_N] = {5, 2, 4, 3, 4, 3, 4, 3, 4, 3};
  int tot = 0;
  for (int x : w) {tot += x;}
  int k = static_cast<int>(r.below(static_cast<uint64_t>(tot)));
  int o = 0;
  while (k >= w[o]) {k -= w[o++];}
  c.op = static_cast<CtxOp>(o);
  if (c.op == C_ADD_NODE) {
    c.name = r.pick(p.names);
    c.ns = r.pick(p.nss);
    if (dups && !nodes.empty() && r.chance(1, 4)) {
      const Node & n = r.pick(nodes);
      c.name = n.name;
      c.ns = n.ns;
    }
    if (!dups) {
      for (auto & n : nodes) {
        if (n.name == c.name && n.ns == c.ns) {return false;}
      }
    }
    return true;
  }
  if (nodes.empty()) {return false;}
  const Node & n = r.pick(nodes);
  c.name = n.name;
  c.ns = n.ns;
  c.a = r.pick(p.gids);
  c.b = r.pick(p.gids);
  if (!is_add(c.op) && r.chance(5, 6)) {   // mostly remove what is there
    auto from = [&](const std::vector<Gid> & v, Gid & g) {if (!v.empty()) {g = r.pick(v);}};
    switch (c.op) {
      case C_REM_SUB: from(n.readers, c.a); break;
      case C_REM_PUB: from(n.writers, c.a); break;
      case C_REM_CLI: from(n.writers, c.a); from(n.readers, c.b); break;
      case C_REM_SRV: from(n.readers, c.a); from(n.writers, c.b); break;
      default: break;
    }
  }
  return true;
}

// A failure of the publication, to be undone afterwards.
enum Fault { F_NONE, F_NULL_PUB, F_NULL_CB, F_RET };
rmw_ret_t faulted(Local & l, const Call & c, Fault f, rmw_ret_t code)
{
  if (f == F_NULL_PUB) {l.ctx.pub = nullptr;}
  if (f == F_NULL_CB) {l.ctx.publish_callback = nullptr;}
  l.rec.ret = f == F_RET ? code : RMW_RET_OK;
  rmw_ret_t r = invoke(l.ctx, c);
  l.ctx.pub = l.pub;
  if (f == F_NULL_CB) {l.ctx.publish_callback = hook(l.rec);}
  l.rec.ret = RMW_RET_OK;
  rmw_reset_error();
  return r;
}

const std::array<int, N_OPS> kForeign{{4, 4, 2, 2, 3, 2, 5, 3, 1, 3, 1, 3, 1}};

void publish_case(Case & c, bool faults)
{
  Sim s(c, c.rng.chance(1, 6) ? 3 : 1);
  Gid own;
  for (auto & b : own) {b = static_cast<uint8_t>(c.rng.u64());}
  Local l(own, 0);
  s.g = std::shared_ptr<GraphCache>(&l.ctx.graph_cache, [](GraphCache *) {});
  const std::string enc = c.rng.pick(s.p.enclaves);
  l.ctx.graph_cache.add_participant(l.ctx.gid, enc);
  s.m.parts[own].enclave = enc;
  const size_t n = 10 + c.rng.below(c.thorough ? 150 : 50);
  if (c.rng.chance(1, 80)) {
    // hundreds of nodes, or of endpoints of one node
    const bool of_nodes = c.rng.chance(1, 2);
    const size_t k = c.rng.chance(1, 3) ? 256 : 240 + c.rng.below(120);
    static const CtxOp adds[] = {C_ADD_PUB, C_ADD_SUB, C_ADD_CLI, C_ADD_SRV};
    const CtxOp what = adds[c.rng.below(4)];
    for (size_t i = 0; i < k; ++i) {
      Call call;
      call.op = of_nodes || i == 0 ? C_ADD_NODE : what;
      call.name = of_nodes ? fmt("n%zu", i) : "n";
      call.ns = "/";
      call.a = c.rng.pick(s.p.gids);
      call.a[3] = static_cast<uint8_t>(i);
      call.b = call.a;
      call.b[2] = static_cast<uint8_t>(i >> 8);
      std::vector<Node> & nodes = s.m.parts[own].nodes;
      const auto want = successors(nodes, call);
      if (invoke(l.ctx, call) != RMW_RET_OK || l.rec.ev.size() != 1) {fail("context-result", show(call) + " did not publish one message");}
      std::vector<Node> got = nodes_of(l.rec.ev[0].msg);
      if (!matching(want, got)) {fail("publication-state", show(call) + " published " + show(got) + " but the participant now has " + show(want[0]));}
      nodes = std::move(got);
      l.rec.ev.clear();
      vh::count("publications_checked");
    }
    vh::count("grown_participants");
  }
  for (size_t i = 0; i < n; ++i) {
    if (c.rng.chance(1, 3)) {
      if (s.step(s.pick(kForeign))) {vh::count("graph_events");}
      if (!l.rec.ev.empty()) {fail("unsolicited-publication", "an operation on the graph cache alone published a message");}
      continue;
    }
    Call call;
    std::vector<Node> & nodes = s.m.parts[own].nodes;
    if (!make_call(c.rng, s.p, nodes, call, true)) {continue;}
    Fault f = faults && c.rng.chance(2, 3) ? static_cast<Fault>(1 + c.rng.below(3)) : F_NONE;
    static const rmw_ret_t codes[] = {RMW_RET_ERROR, RMW_RET_TIMEOUT, RMW_RET_UNSUPPORTED, RMW_RET_BAD_ALLOC, RMW_RET_INVALID_ARGUMENT, 203, -1, 1000};
    const rmw_ret_t code = codes[c.rng.below(8)];
    const auto want = successors(nodes, call);
    l.rec.ev.clear();
    rmw_ret_t ret = faulted(l, call, f, code);
    c.note(show(call) + (f == F_NONE ? "" : f == F_NULL_PUB ? " without publisher" : f == F_NULL_CB ? " without publish callback" : fmt(" with publication returning %d", code)) + fmt(" -> %d", ret));
    vh::count("events");
    vh::count(kCtxOp[call.op]);
    if (f == F_NONE) {
      if (ret != RMW_RET_OK) {fail("context-result", fmt("%s returned %d although the publication succeeded", kCtxOp[call.op], ret));}
      if (l.rec.ev.size() != 1) {fail("publication-count", fmt("%s published %zu messages instead of one", kCtxOp[call.op], l.rec.ev.size()));}
      if (l.rec.ev[0].pub != l.pub) {fail("publication-publisher", std::string(kCtxOp[call.op]) + " published with another publisher");}
      if (!same_gid_msg(l.rec.ev[0].msg, own)) {fail("publication-participant", std::string(kCtxOp[call.op]) + " published a message for another participant");}
      std::vector<Node> got = nodes_of(l.rec.ev[0].msg);
      if (!matching(want, got)) {
        fail("publication-state", std::string(kCtxOp[call.op]) + " published " + vh::fmt("%s", show(got).c_str()) + " but the participant now has " + show(want.empty() ? nodes : want[0]));
      }
      nodes = got;
      vh::count("publications_checked");
    } else {
      if (ret != RMW_RET_ERROR) {fail("failed-publication-result", fmt("%s returned %d although nothing could be published", kCtxOp[call.op], ret));}
      if (f == F_RET && l.rec.ev.size() != 1) {fail("publication-count", fmt("%s tried to publish %zu messages instead of one", kCtxOp[call.op], l.rec.ev.size()));}
      vh::count(is_add(call.op) ? "failed_additions" : "failed_removals");
      if (!is_add(call.op)) {
        // which one of several nodes of that name was meant is left open: adopt it
        if (nodes.size() == 1 && call.op == C_REM_NODE) {
          nodes.clear();
        } else {
          const Node & ref = call.op == C_REM_NODE && nodes[0].name == call.name && nodes[0].ns == call.ns ? nodes[1] : nodes[0];
          std::vector<Node> got = probe(l.ctx, ref.name, ref.ns);
          if (!matching(want, got)) {
            fail("failed-removal-state", std::string(kCtxOp[call.op]) + " could not be published; the graph has " + show(got) + " instead of " + show(want[0]));
          }
          nodes = got;
        }
      } else if (!nodes.empty()) {
        const Node & ref = c.rng.pick(nodes);
        std::vector<Node> got = probe(l.ctx, ref.name, ref.ns);
        if (!same_nodes(got, nodes)) {
          fail("failed-addition-left-trace", std::string(kCtxOp[call.op]) + " could not be published; the graph has " + show(got) + " instead of " + show(nodes));
        }
      }
    }
    l.rec.ev.clear();
    if (c.rng.chance(1, 3)) {
      s.observe(O_NODES | O_BYNODE | (c.rng.chance(1, 4) ? O_ALL : 0u), false);
      l.rec.ev.clear();
    }
    vh::distinct(model_hash(s.m));
  }
  s.observe(O_ALL, true);
  if (!l.rec.ev.empty()) {fail("unsolicited-publication", "queries published a message");}
  if (vh::want_sample()) {
    std::string t;
    for (size_t i = 0; i < c.log.size() && i < 8; ++i) {t += c.log[i] + "; ";}
    vh::sample(t + "...");
  }
}

// C05: several participants, each with its own cache, exchanging messages over a simulated network that
// keeps the order per sender but delays, repeats and (for late joiners) skips outdated messages.
void converge(Case & c)
{
  vh::Rng & r = c.rng;
  Pools p = make_pools(r, 1, false);
  const size_t n = 2 + r.below(4);
  struct Peer
  {
    std::unique_ptr<Local> l;
    std::string enclave;
    std::vector<Node> nodes;                          // its own state
    std::vector<PMsg> sent;                           // published messages, in order
    std::vector<std::vector<std::function<void(GraphCache &)>>> inbox;   // endpoint and participant discovery, per remote
    std::vector<size_t> cursor;                       // per remote: next message to deliver
    std::vector<size_t> dcur;
    std::vector<bool> joined;
    bool gone = false;
  };
  std::vector<Peer> ps(n);
  Model all;
  for (size_t i = 0; i < n; ++i) {
    Gid g;
    for (auto & b : g) {b = static_cast<uint8_t>(r.u64());}
    if (i > 0 && r.chance(1, 2)) {g = ps[0].l->gid; g[r.below(16)] ^= static_cast<uint8_t>(1 + r.below(255));}
    bool clash = false;
    for (size_t k = 0; k < i; ++k) {clash = clash || ps[k].l->gid == g;}
    if (clash) {for (auto & b : g) {b = static_cast<uint8_t>(r.u64());}}
    ps[i].l.reset(new Local(g, static_cast<int>(i)));
    ps[i].enclave = r.pick(p.enclaves);
    ps[i].l->ctx.graph_cache.add_participant(ps[i].l->ctx.gid, ps[i].enclave);
    ps[i].cursor.assign(n, 0);
    ps[i].dcur.assign(n, 0);
    ps[i].inbox.resize(n);
    ps[i].joined.assign(n, r.chance(1, 2));
    const rmw_gid_t pg = to_rmw(g);
    const std::string e = ps[i].enclave;
    for (size_t k = 0; k < n; ++k) {
      if (k != i) {ps[i].inbox[k].push_back([pg, e](GraphCache & gc) {gc.add_participant(pg, e);});}
    }
    all.parts[g].enclave = e;
  }
  auto deliver = [&](size_t from, size_t to) {
      Peer & a = ps[from];
      GraphCache & gc = ps[to].l->ctx.graph_cache;
      if (r.chance(1, 2)) {
        if (a.dcur[to] < a.inbox[to].size()) {
          a.inbox[to][a.dcur[to]++](gc);
          vh::count("discoveries_delivered");
        }
        return;
      }
      if (!a.joined[to]) {
        if (r.chance(1, 5) && !a.sent.empty()) {   // a late joiner gets the latest message only
          a.joined[to] = true;
          a.cursor[to] = a.sent.size() - 1;
          vh::count("late_joins");
        }
        return;
      }
      if (a.cursor[to] < a.sent.size()) {
        // the history holds the most recent messages only: outdated ones may be skipped
        if (r.chance(1, 6)) {a.cursor[to] = a.cursor[to] + r.below(a.sent.size() - a.cursor[to]);}
        gc.update_participant_entities(a.sent[a.cursor[to]]);
        vh::count("messages_delivered");
        if (r.chance(1, 8)) {
          gc.update_participant_entities(a.sent[a.cursor[to]]);
          vh::count("messages_repeated");
        }
        a.cursor[to]++;
      }
    };
  const size_t steps = 20 + r.below(c.thorough ? 250 : 90);
  auto act = [&](size_t i, bool may_fail) {
      Peer & a = ps[i];
      if (r.chance(1, 4)) {      // an endpoint is created or destroyed
        bool rd = r.chance(1, 2);
        auto & ends = rd ? all.r : all.w;
        Gid g = r.pick(p.gids);
        g[15] = static_cast<uint8_t>(i);
        auto it = ends.find(g);
        rmw_gid_t rg = to_rmw(g);
        std::function<void(GraphCache &)> fn;
        if (it == ends.end()) {
          End e;
          e.topic = r.pick(p.topics);
          e.type = r.pick(p.types);
          e.hash = r.pick(p.hashes);
          e.part = a.l->gid;
          e.qos = r.pick(p.qoss);
          ends[g] = e;
          rmw_gid_t pg = a.l->ctx.gid;
          fn = [=](GraphCache & gc) {gc.add_entity(rg, e.topic, e.type, e.hash, pg, e.qos, rd);};
        } else {
          ends.erase(it);
          fn = [=](GraphCache & gc) {gc.remove_entity(rg, rd);};
        }
        fn(a.l->ctx.graph_cache);
        for (size_t k = 0; k < n; ++k) {
          if (k != i) {a.inbox[k].push_back(fn);}
        }
        return;
      }
      Call call;
      if (!make_call(r, p, a.nodes, call, true)) {return;}
      if (call.op >= C_ADD_SUB) {
        if (is_add(call.op)) {call.a[15] = static_cast<uint8_t>(i); call.b[15] = static_cast<uint8_t>(i);}
      }
      Fault f = may_fail && r.chance(1, 5) ? static_cast<Fault>(1 + r.below(3)) : F_NONE;
      const auto want = successors(a.nodes, call);
      a.l->rec.ev.clear();
      rmw_ret_t ret = faulted(*a.l, call, f, RMW_RET_ERROR);
      c.note(fmt("participant %zu: ", i) + show(call) + (f ? " (publication fails)" : ""));
      vh::count("events");
      if (f == F_NONE) {
        if (ret != RMW_RET_OK || a.l->rec.ev.size() != 1) {fail("context-result", fmt("%s returned %d and published %zu messages", kCtxOp[call.op], ret, a.l->rec.ev.size()));}
        std::vector<Node> got = nodes_of(a.l->rec.ev[0].msg);
        if (!matching(want, got)) {fail("publication-state", std::string(kCtxOp[call.op]) + " published " + show(got) + " instead of " + show(want[0]));}
        a.nodes = got;
        a.sent.push_back(a.l->rec.ev[0].msg);
      } else {
        vh::count("failed_publications");
        if (!is_add(call.op)) {
          // tell apart which node of that name it was by the next message
          if (want.size() == 1) {
            a.nodes = want[0];
          } else {
            a.nodes = probe(a.l->ctx, call.name, call.ns);
            if (!matching(want, a.nodes)) {fail("failed-removal-state", std::string(kCtxOp[call.op]) + " could not be published; the graph has " + show(a.nodes));}
          }
        }
      }
    };
  for (size_t st = 0; st < steps; ++st) {
    size_t i = r.below(n);
    if (r.chance(1, 2)) {
      act(i, true);
    } else {
      size_t k = r.below(n);
      if (k != i) {deliver(i, k);}
    }
  }
  // the last word of every participant gets out
  for (size_t i = 0; i < n; ++i) {
    Call call;
    call.op = C_ADD_NODE;
    call.name = fmt("last_word_%zu", i);
    call.ns = "/";
    ps[i].l->rec.ev.clear();
    if (invoke(ps[i].l->ctx, call) != RMW_RET_OK || ps[i].l->rec.ev.size() != 1) {fail("context-result", "the final addition failed");}
    ps[i].nodes = nodes_of(ps[i].l->rec.ev[0].msg);
    ps[i].sent.push_back(ps[i].l->rec.ev[0].msg);
    if (r.chance(1, 3)) {
      // it closes down: every node goes
      while (!ps[i].nodes.empty()) {
        Call rem;
        rem.op = C_REM_NODE;
        const Node & nd = r.pick(ps[i].nodes);
        rem.name = nd.name;
        rem.ns = nd.ns;
        const auto want = successors(ps[i].nodes, rem);
        ps[i].l->rec.ev.clear();
        c.note(fmt("participant %zu: ", i) + show(rem));
        if (invoke(ps[i].l->ctx, rem) != RMW_RET_OK || ps[i].l->rec.ev.size() != 1) {fail("context-result", "a final removal failed");}
        std::vector<Node> got = nodes_of(ps[i].l->rec.ev[0].msg);
        if (!matching(want, got)) {fail("publication-state", "remove_node_graph published " + show(got) + " instead of " + show(want[0]));}
        ps[i].nodes = got;
        ps[i].sent.push_back(ps[i].l->rec.ev[0].msg);
        if (r.chance(1, 6)) {break;}
      }
      vh::count("participants_closed_down");
    }
    all.parts[ps[i].l->gid].nodes = ps[i].nodes;
  }
  // quiescence: everything outstanding arrives, in any interleaving
  for (;;) {
    std::vector<std::pair<size_t, size_t>> open;
    for (size_t i = 0; i < n; ++i) {
      for (size_t k = 0; k < n; ++k) {
        if (i != k && (ps[i].dcur[k] < ps[i].inbox[k].size() || !ps[i].joined[k] || ps[i].cursor[k] < ps[i].sent.size())) {open.push_back({i, k});}
      }
    }
    if (open.empty()) {break;}
    auto o = r.pick(open);
    deliver(o.first, o.second);
  }
  c.note("everything outstanding was delivered");
  Sim s(c);
  s.p = p;
  s.m = all;
  for (size_t i = 0; i < n; ++i) {
    s.g = std::shared_ptr<GraphCache>(&ps[i].l->ctx.graph_cache, [](GraphCache *) {});
    c.note(fmt("comparing the graph participant %zu sees", i));
    s.observe(O_ALL, true);
    vh::count("caches_compared");
  }
  // one participant leaves
  if (n > 2 || r.chance(1, 2)) {
    size_t out = r.below(n);
    for (auto * e : {&all.w, &all.r}) {
      for (auto it = e->begin(); it != e->end(); ) {
        if (it->second.part == ps[out].l->gid) {
          for (size_t k = 0; k < n; ++k) {
            if (k != out) {ps[k].l->ctx.graph_cache.remove_entity(to_rmw(it->first), e == &all.r);}
          }
          it = e->erase(it);
        } else {++it;}
      }
    }
    all.parts.erase(ps[out].l->gid);
    s.m = all;
    for (size_t k = 0; k < n; ++k) {
      if (k == out) {continue;}
      ps[k].l->ctx.graph_cache.remove_participant(ps[out].l->ctx.gid);
      s.g = std::shared_ptr<GraphCache>(&ps[k].l->ctx.graph_cache, [](GraphCache *) {});
      c.note(fmt("participant %zu left; comparing the graph participant %zu sees", out, k));
      s.observe(O_ALL, true);
      vh::count("caches_compared");
    }
  }
  vh::distinct(model_hash(all));
  if (vh::want_sample()) {
    std::string t = fmt("%zu participants, %zu steps: ", n, steps);
    for (size_t i = 0; i < c.log.size() && i < 6; ++i) {t += c.log[i] + "; ";}
    vh::sample(t + "...");
  }
}
// C06: the publish function or the change callback throws out of an operation of the context
struct Boom { int what; };
void throwing_case(Case & c)
{
  Sim s(c, 1, true);
  Gid own;
  for (auto & b : own) {b = static_cast<uint8_t>(c.rng.u64());}
  Local l(own, 0);
  s.g = std::shared_ptr<GraphCache>(&l.ctx.graph_cache, [](GraphCache *) {});
  const std::string enc = c.rng.pick(s.p.enclaves);
  l.ctx.graph_cache.add_participant(l.ctx.gid, enc);
  s.m.parts[own].enclave = enc;
  bool throw_in_pub = false, throw_in_cb = false, threw_in_cb = false;
  int skip = 0;
  auto base = hook(l.rec);
  l.ctx.publish_callback = [&, base](const rmw_publisher_t * p, const void * m) {
      rmw_ret_t r = base(p, m);
      if (throw_in_pub) {throw Boom{1};}
      return r;
    };
  l.ctx.graph_cache.set_on_change_callback([&]() {if (throw_in_cb && skip-- == 0) {threw_in_cb = true; throw Boom{2};}});
  auto shows = [&](std::vector<Node> nodes) {
      s.m.parts[own].nodes = std::move(nodes);
      try {
        vh::Deadline d("lock-left-behind", "a query after an exception does not return: a lock was left behind");
        s.observe(O_ALL | O_DUMP, true);
        return true;
      } catch (const vh::CaseFail &) {
        return false;
      }
    };
  const size_t n = 8 + c.rng.below(c.thorough ? 80 : 24);
  for (size_t i = 0; i < n; ++i) {
    if (c.rng.chance(1, 4)) {
      if (s.step(s.pick(kForeign))) {vh::count("graph_events");}
      continue;
    }
    Call call;
    const std::vector<Node> before = s.m.parts[own].nodes;
    if (!make_call(c.rng, s.p, before, call, true)) {continue;}
    const int how = c.rng.chance(1, 3) ? 0 : c.rng.chance(2, 3) ? 1 : 2;
    const auto want = successors(before, call);
    l.rec.ev.clear();
    throw_in_pub = how == 1;
    throw_in_cb = how == 2;
    threw_in_cb = false;
    skip = static_cast<int>(c.rng.below(2));
    bool thrown = false;
    rmw_ret_t ret = RMW_RET_ERROR;
    {
      vh::Deadline d("lock-left-behind", std::string(kCtxOp[call.op]) + " does not return: an earlier exception left a lock behind");
      try {
        ret = invoke(l.ctx, call);
      } catch (const Boom &) {
        thrown = true;
      }
    }
    throw_in_pub = throw_in_cb = false;
    rmw_reset_error();
    c.note(show(call) + (how == 1 ? " while the publish function throws" : threw_in_cb ? " while the change callback throws" : "") + (thrown ? " -> exception" : fmt(" -> %d", ret)));
    vh::count("events");
    const bool hit = how == 1 || threw_in_cb;
    if (!hit) {
      if (thrown || ret != RMW_RET_OK) {fail("context-result", fmt("%s returned %d although the publication succeeded", kCtxOp[call.op], ret));}
      if (l.rec.ev.size() != 1) {fail("publication-count", fmt("%s published %zu messages instead of one", kCtxOp[call.op], l.rec.ev.size()));}
      std::vector<Node> got = nodes_of(l.rec.ev[0].msg);
      if (!matching(want, got)) {
        fail("publication-state", std::string(kCtxOp[call.op]) + " published " + show(got) + " but the participant now has " + show(want.empty() ? before : want[0]));
      }
      s.m.parts[own].nodes = got;
      vh::count("publications_checked");
    } else {
      if (!thrown && ret == RMW_RET_OK && how == 1) {fail("exception-hidden", std::string(kCtxOp[call.op]) + " reported success although the publish function threw");}
      vh::count(how == 1 ? "publications_that_threw" : "callbacks_that_threw");
      std::vector<std::vector<Node>> may = want;
      may.push_back(before);
      if (how == 2 && call.op >= C_ADD_CLI) {   // the first endpoint's change may stand alone
        Call half = call;
        const bool cli = call.op == C_ADD_CLI || call.op == C_REM_CLI;
        half.op = is_add(call.op) ? (cli ? C_ADD_PUB : C_ADD_SUB) : (cli ? C_REM_PUB : C_REM_SUB);
        for (int side = 0; side < 2; ++side) {
          for (auto & x : successors(before, half)) {may.push_back(x);}
          half.op = is_add(call.op) ? (cli ? C_ADD_SUB : C_ADD_PUB) : (cli ? C_REM_SUB : C_REM_PUB);
          half.a = call.b;
        }
      }
      bool found = false;
      for (auto & x : may) {
        if (shows(x)) {found = true; break;}
      }
      if (!found) {
        s.m.parts[own].nodes = want.empty() ? before : want[0];
        s.observe(O_ALL | O_DUMP, true);
        fail("exception-half-done", std::string(kCtxOp[call.op]) + " left the graph neither as before nor as after it");
      }
    }
    l.rec.ev.clear();
    vh::distinct(vh::mix(model_hash(s.m) * 4 + static_cast<uint64_t>(how)));
  }
  vh::Deadline d("lock-left-behind", "queries do not return: an earlier exception left a lock behind");
  s.observe(O_ALL | O_DUMP, true);
  l.ctx.graph_cache.clear_on_change_callback();
  if (vh::want_sample()) {
    std::string t;
    for (size_t i = 0; i < c.log.size() && i < 8; ++i) {t += c.log[i] + "; ";}
    vh::sample(t + "...");
  }
}

// M01: the wire form of the discovery message, written down here independently of the message definitions
void w_align(std::string & b) {while (b.size() % 4) {b.push_back(0);}}
void w_u32(std::string & b, size_t n)
{
  w_align(b);
  for (int k = 0; k < 4; ++k) {b.push_back(static_cast<char>(n >> (8 * k)));}
}
void w_str(std::string & b, const std::string & s)
{
  w_u32(b, s.size() + 1);
  b += s;
  b.push_back(0);
}
void w_gid(std::string & b, const Gid & g) {b.append(reinterpret_cast<const char *>(g.data()), 16);}
std::string wire(const Gid & gid, const std::vector<Node> & nodes)
{
  std::string b;
  w_gid(b, gid);
  w_u32(b, nodes.size());
  for (auto & n : nodes) {
    w_str(b, n.ns);
    w_str(b, n.name);
    w_u32(b, n.readers.size());
    for (auto & g : n.readers) {w_gid(b, g);}
    w_u32(b, n.writers.size());
    for (auto & g : n.writers) {w_gid(b, g);}
  }
  return b;
}
struct Wire
{
  const std::string & b;
  size_t i = 0;
  bool ok = true;
  size_t u32()
  {
    while (i % 4) {++i;}
    if (i + 4 > b.size()) {ok = false; return 0;}
    size_t n = 0;
    for (int k = 0; k < 4; ++k) {n |= static_cast<size_t>(static_cast<uint8_t>(b[i + k])) << (8 * k);}
    i += 4;
    return n;
  }
  std::string str()
  {
    size_t n = u32();
    if (!ok || !n || i + n > b.size() || b[i + n - 1]) {ok = false; return "";}
    std::string s = b.substr(i, n - 1);
    i += n;
    return s;
  }
  Gid gid()
  {
    Gid g{};
    if (i + 16 > b.size()) {ok = false; return g;}
    std::copy(b.begin() + static_cast<long>(i), b.begin() + static_cast<long>(i) + 16, g.begin());
    i += 16;
    return g;
  }
};
bool unwire(const std::string & b, Gid & gid, std::vector<Node> & nodes)
{
  Wire w{b};
  gid = w.gid();
  size_t n = w.u32();
  for (size_t k = 0; w.ok && k < n; ++k) {
    nodes.emplace_back();
    nodes.back().ns = w.str();
    nodes.back().name = w.str();
    for (size_t e = w.u32(); w.ok && e; --e) {nodes.back().readers.push_back(w.gid());}
    for (size_t e = w.u32(); w.ok && e; --e) {nodes.back().writers.push_back(w.gid());}
  }
  return w.ok && w.i == b.size();
}
std::string hexes(const std::string & b)
{
  std::string s;
  for (size_t i = 0; i < b.size() && i < 120; ++i) {s += fmt("%02x", static_cast<unsigned>(static_cast<uint8_t>(b[i])));}
  return s + (b.size() > 120 ? "..." : "");
}
void wire_case(Case & c)
{
  vh::Rng & r = c.rng;
  Sim s(c);
  // what strings of the wire can carry; the longest names ROS allows, and the longest the definition does
  auto clean = [&](std::vector<std::string> & v) {
      for (auto & x : v) {
        x.erase(std::remove(x.begin(), x.end(), '\0'), x.end());
        if (x.size() > 256) {x.resize(256);}
      }
      v.push_back(std::string(r.chance(1, 2) ? 256 : 254 + r.below(3), 'L'));
    };
  clean(s.p.names);
  clean(s.p.nss);
  Gid own;
  for (auto & b : own) {b = r.chance(1, 8) ? 0 : static_cast<uint8_t>(r.u64());}
  Context x;
  rmw_publisher_t * pub = dummy_pub(1);
  x.gid = to_rmw(own, "monitor");
  x.pub = pub;
  x.sub = nullptr;
  std::vector<std::string> sent;
  bool encodes = true;
  x.publish_callback = [&](const rmw_publisher_t *, const void * m) {
      vh_cdr::Enc e;
      vh_cdr::put(e, *static_cast<const PMsg *>(m), 0, 0);
      encodes = encodes && e.ok;
      sent.push_back(e.b);
      return RMW_RET_OK;
    };
  s.g = std::shared_ptr<GraphCache>(&x.graph_cache, [](GraphCache *) {});
  x.graph_cache.add_participant(x.gid, "/");
  s.m.parts[own].enclave = "/";
  size_t n = 8 + r.below(c.thorough ? 60 : 25);
  auto some = [&]() {return r.chance(1, 100) ? (r.chance(1, 2) ? size_t{256} : 60 + r.below(400)) : r.below(4);};
  if (r.chance(1, 60)) {       // many endpoints of one node, or nodes
    const bool of_nodes = r.chance(1, 2);
    for (size_t k = r.chance(1, 2) ? 256 : 60 + r.below(300), i = 0; i < k; ++i) {
      Call call;
      call.op = of_nodes || i == 0 ? C_ADD_NODE : r.chance(1, 2) ? C_ADD_PUB : C_ADD_CLI;
      call.name = of_nodes ? fmt("n%zu", i) : "n";
      call.ns = "/";
      call.a = r.pick(s.p.gids);
      call.b = r.pick(s.p.gids);
      sent.clear();
      const auto want = successors(s.m.parts[own].nodes, call);
      Gid from;
      std::vector<Node> got;
      if (invoke(x, call) != RMW_RET_OK || sent.size() != 1 || !encodes) {fail("wire-refused", fmt("a message after %zu additions cannot be sent", i + 1));}
      if (!unwire(sent[0], from, got) || from != own || !matching(want, got)) {fail("wire-content", show(call) + ": peers read " + show(got) + " but the participant now has " + show(want[0]));}
      s.m.parts[own].nodes = std::move(got);
    }
    vh::count("grown_participants");
    n = 4;
  }
  for (size_t i = 0; i < n; ++i) {
    vh::count("events");
    std::vector<Node> & nodes = s.m.parts[own].nodes;
    Call call;
    if (r.chance(3, 5)) {
      // out: what this participant publishes
      if (!make_call(r, s.p, nodes, call, false)) {continue;}
      c.note(show(call));
      const auto want = successors(nodes, call);
      sent.clear();
      if (invoke(x, call) != RMW_RET_OK || sent.size() != 1) {fail("context-result", show(call) + " did not publish one message");}
      if (!encodes) {fail("wire-refused", "a message with names of at most 256 characters cannot be sent: " + show(want[0]));}
      Gid from;
      std::vector<Node> got;
      if (!unwire(sent[0], from, got)) {fail("wire-form", "what was sent is not the form peers expect: " + hexes(sent[0]));}
      if (from != own) {fail("wire-participant", "peers read the participant as " + gs(from) + " instead of " + gs(own));}
      if (!matching(want, got)) {fail("wire-content", show(call) + ": peers read " + show(got) + " but the participant now has " + show(want[0]));}
      nodes = std::move(got);
      vh::count("messages_sent");
    } else {
      // in: what a peer built elsewhere publishes
      Gid peer = r.pick(s.p.pgids);
      std::vector<Node> theirs;
      for (size_t k = some(); k; --k) {
        Node nd;
        nd.name = r.pick(s.p.names);
        nd.ns = r.pick(s.p.nss);
        for (size_t e = some(); e; --e) {nd.readers.push_back(r.pick(s.p.gids));}
        for (size_t e = some(); e; --e) {nd.writers.push_back(r.pick(s.p.gids));}
        theirs.push_back(nd);
      }
      const std::string bytes = wire(peer, theirs);
      PMsg m;
      vh_cdr::Dec d{bytes};
      vh_cdr::get(d, m, 0, 0);
      if (!d.ok || d.i != bytes.size()) {fail("wire-unreadable", "the message of a peer cannot be read: " + hexes(bytes));}
      c.note("message of " + gs(peer) + ": " + show(theirs));
      x.graph_cache.update_participant_entities(m);
      s.m.parts[peer].nodes = theirs;
      vh::count("messages_received");
    }
    if (r.chance(1, 3)) {s.step(r.chance(1, 2) ? ADD_W : ADD_R);}
    if (r.chance(1, 4)) {s.observe(O_NODES | O_BYNODE | O_ENDS, false);}
    vh::distinct(model_hash(s.m));
  }
  s.observe(O_NODES | O_BYNODE | O_ENDS, true);
  if (vh::want_sample() && !sent.empty()) {vh::sample(hexes(sent.back()));}
}
}  // namespace

int main(int argc, char ** argv)
{
  return vh::run(
    argc, argv, {
      {"c01", [](Case & c) {publish_case(c, false);}},
      {"c02", [](Case & c) {publish_case(c, true);}},
      {"c05", converge},
      {"c06", throwing_case},
      {"m01", wire_case},
    });
}
