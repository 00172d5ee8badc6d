// Monitors of concurrent histories. Built twice: with the controlled scheduler (VH_CONTROLLED) and free
// running under the race detector.
#include <atomic>
#include <memory>
#include <sstream>
#include <unordered_set>

#include "ctx_model.hpp"
#include "rmw/error_handling.h"
#include "sched.hpp"

using namespace gm;
using namespace cm;
using rmw_dds_common::Context;
using vh::Case;
using vh::CaseFail;
using vh::fail;
using vh::fmt;

namespace
{
// ------------------------------------------------------------------ histories of the graph cache
enum Kind { Q_COUNT = N_OPS, Q_ENDS, Q_TOPICS, Q_NODES, Q_BYNODE, Q_NUM, Q_DUMP, SET_CB, CLR_CB };
struct Rec
{
  int thread = 0, kind = 0;
  uint64_t inv = 0, res = 0;
  // arguments
  Gid gid{}, part{};
  End end;
  std::string name, ns;
  std::vector<Node> nodes;
  bool rd = false, enc = false;
  int td = 0, yd = 0, cb = -1;
  // results
  bool ret = false;
  rmw_ret_t rc = RMW_RET_OK;
  size_t n = 0;
  Gid msg_gid{};
  std::vector<Node> msg;
  Topics topics;
  std::vector<NodeRec> nrec;
  std::vector<EndRec> erec;
  std::string text;
  std::vector<int> cbs;      // callbacks that ran during the operation
};
struct State { Model m; int cb = -1; };

std::string show(const Rec & r)
{
  std::string s = fmt("[%llu,%llu] thread %d: ", static_cast<unsigned long long>(r.inv), static_cast<unsigned long long>(r.res), r.thread);
  switch (r.kind) {
    case ADD_W: case ADD_R: s += std::string(kOpName[r.kind]) + "(" + gs(r.gid) + " '" + vh::esc(r.end.topic) + "' '" + vh::esc(r.end.type) + "' of " + gs(r.end.part) + fmt(") -> %d", r.ret); break;
    case REM_W: case REM_R: s += std::string(kOpName[r.kind]) + "(" + gs(r.gid) + fmt(") -> %d", r.ret); break;
    case ADD_P: s += "add_participant(" + gs(r.part) + " '" + vh::esc(r.name) + "')"; break;
    case REM_P: s += "remove_participant(" + gs(r.part) + fmt(") -> %d", r.ret); break;
    case UPD: s += "discovery_message(" + gs(r.part) + " " + gm::show(r.nodes).substr(0, 300) + ")"; break;
    case ADD_N: case REM_N: case ASS_W: case DIS_W: case ASS_R: case DIS_R:
      s += std::string(kOpName[r.kind]) + "(" + gs(r.part) + " '" + vh::esc(r.name) + "' '" + vh::esc(r.ns) + "' " + gs(r.gid) + ") -> " + gm::show(r.msg).substr(0, 300);
      break;
    case Q_COUNT: s += fmt("count(%s '", r.rd ? "readers" : "writers") + vh::esc(r.name) + fmt("') -> %zu", r.n); break;
    case Q_ENDS:
      s += fmt("endpoints(%s '", r.rd ? "readers" : "writers") + vh::esc(r.name) + fmt("') -> %zu:", r.erec.size());
      for (auto & e : r.erec) {s += " " + gm::show(e);}
      break;
    case Q_TOPICS: s += "topics() -> " + gm::show(r.topics); break;
    case Q_NODES: s += "nodes() -> " + gm::show(r.nrec); break;
    case Q_BYNODE: s += fmt("%s_by_node('", r.rd ? "readers" : "writers") + vh::esc(r.name) + "' '" + vh::esc(r.ns) + fmt("') -> %d ", r.rc) + gm::show(r.topics); break;
    case Q_NUM: s += fmt("number_of_nodes() -> %zu", r.n); break;
    case Q_DUMP: s += "dump() -> " + vh::esc(r.text); break;
    case SET_CB: s += fmt("set_on_change_callback(#%d)", r.cb); break;
    case CLR_CB: s += "clear_on_change_callback()"; break;
    default: break;
  }
  if (!r.cbs.empty()) {
    s += " callbacks:";
    for (int k : r.cbs) {s += fmt(" #%d", k);}
  }
  return s.size() > 1500 ? s.substr(0, 1500) + "..." : s;
}

// Does the sequential specification allow this result in this state? Moves the state on.
bool apply(State & st, const Rec & r, bool check_cb)
{
  Model & m = st.m;
  bool changed = false, rejected = false;
  switch (r.kind) {
    case ADD_W: case ADD_R: {
        auto & e = r.kind == ADD_R ? m.r : m.w;
        bool want = e.emplace(r.gid, r.end).second;
        if (want != r.ret) {return false;}
        changed = want;
        rejected = !want;
        break;
      }
    case REM_W: case REM_R: {
        bool want = (r.kind == REM_R ? m.r : m.w).erase(r.gid) > 0;
        if (want != r.ret) {return false;}
        changed = want;
        rejected = !want;
        break;
      }
    case ADD_P: {
        auto it = m.parts.find(r.part);
        changed = it == m.parts.end() || it->second.enclave != r.name;
        m.parts[r.part].enclave = r.name;
        break;
      }
    case REM_P: {
        bool want = m.parts.erase(r.part) > 0;
        if (want != r.ret) {return false;}
        changed = want;
        rejected = !want;
        break;
      }
    case UPD: {
        auto it = m.parts.find(r.part);
        changed = it == m.parts.end() || !same_nodes(it->second.nodes, r.nodes);
        m.parts[r.part].nodes = r.nodes;
        break;
      }
    case ADD_N: case REM_N: case ASS_W: case DIS_W: case ASS_R: case DIS_R: {
        if (r.msg_gid != r.part) {return false;}
        auto & nodes = m.parts[r.part].nodes;
        std::vector<Node> before = nodes;
        if (r.kind == ADD_N) {
          Node n;
          n.name = r.name;
          n.ns = r.ns;
          nodes.push_back(n);
        } else {
          for (size_t i = 0; i < nodes.size(); ++i) {
            if (nodes[i].name != r.name || nodes[i].ns != r.ns) {continue;}
            if (r.kind == REM_N) {
              nodes.erase(nodes.begin() + static_cast<long>(i));
            } else {
              auto & seq = (r.kind == ASS_W || r.kind == DIS_W) ? nodes[i].writers : nodes[i].readers;
              if (r.kind == ASS_W || r.kind == ASS_R) {
                seq.push_back(r.gid);
              } else {
                auto f = std::find(seq.begin(), seq.end(), r.gid);
                if (f != seq.end()) {seq.erase(f);}
              }
            }
            break;
          }
        }
        if (!same_nodes(nodes, r.msg)) {return false;}
        changed = !same_nodes(before, nodes);
        break;
      }
    case Q_COUNT: if (m_count(m, r.rd, r.name) != r.n) {return false;} rejected = true; break;
    case Q_ENDS:
      try {cmp_ends(m, r.rd, r.name, r.yd, r.erec);} catch (const CaseFail &) {return false;}
      rejected = true;
      break;
    case Q_TOPICS: if (m_topics(m, r.td, r.yd) != r.topics) {return false;} rejected = true; break;
    case Q_NODES: if (!(m_nodes(m, r.enc) == r.nrec)) {return false;} rejected = true; break;
    case Q_NUM: if (m_nodes(m, false).size() != r.n) {return false;} rejected = true; break;
    case Q_BYNODE: {
        auto want = m_by_node(m, r.rd, r.name, r.ns, r.td, r.yd);
        if (want.empty() != (r.rc == RMW_RET_NODE_NAME_NON_EXISTENT)) {return false;}
        if (!want.empty() && std::find(want.begin(), want.end(), r.topics) == want.end()) {return false;}
        rejected = true;
        break;
      }
    case Q_DUMP:
      try {cmp_dump(r.text, m);} catch (const CaseFail &) {return false;}
      rejected = true;
      break;
    case SET_CB: st.cb = r.cb; rejected = true; break;
    case CLR_CB: st.cb = -1; rejected = true; break;
    default: break;
  }
  if (check_cb && r.kind != SET_CB && r.kind != CLR_CB) {
    // runs of the callback installed at that moment; none of any other one
    size_t runs = 0;
    for (int k : r.cbs) {
      if (k != st.cb) {return false;}
      ++runs;
    }
    if (st.cb >= 0) {
      if (changed && runs != 1) {return false;}
      if (rejected && runs != 0) {return false;}
      if (runs > 1) {return false;}
    }
  }
  return true;
}

// Wing and Gong's search with memoised configurations.
struct Lin
{
  const std::vector<Rec> & h;
  bool cb;
  std::unordered_set<uint64_t> seen;
  uint64_t visited = 0;
  bool gave_up = false;
  std::vector<int> best;        // longest explained prefix
  std::vector<int> cur;
  bool dfs(uint64_t done, const State & st)
  {
    if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) {return true;}
    if (++visited > 300000) {gave_up = true; return false;}
    if (!seen.insert(vh::mix(done) ^ vh::mix(model_hash(st.m) + static_cast<uint64_t>(st.cb + 1))).second) {return false;}
    uint64_t first_res = ~0ull;
    for (size_t i = 0; i < h.size(); ++i) {
      if (!(done >> i & 1) && h[i].res < first_res) {first_res = h[i].res;}
    }
    for (size_t i = 0; i < h.size(); ++i) {
      if ((done >> i & 1) || h[i].inv > first_res) {continue;}
      State nx = st;
      if (!apply(nx, h[i], cb)) {continue;}
      cur.push_back(static_cast<int>(i));
      if (cur.size() > best.size()) {best = cur;}
      if (dfs(done | 1ull << i, nx)) {return true;}
      cur.pop_back();
      if (gave_up) {return false;}
    }
    return false;
  }
};

struct Cb { bool retired = false; };

void do_query(const GraphCache & g, Rec & r)
{
  Tracker t;
  switch (r.kind) {
    case Q_COUNT: r.rc = r.rd ? g.get_reader_count(r.name, &r.n) : g.get_writer_count(r.name, &r.n); break;
    case Q_ENDS: r.rc = q_ends(g, r.rd, r.name, r.yd, r.erec, t); break;
    case Q_TOPICS: r.rc = q_topics(g, r.td, r.yd, r.topics, t); break;
    case Q_NODES: r.rc = q_nodes(g, r.enc, r.nrec, t); break;
    case Q_BYNODE: r.rc = q_by_node(g, r.rd, r.name, r.ns, r.td, r.yd, r.topics, t); break;
    case Q_NUM: r.n = g.get_number_of_nodes(); break;
    case Q_DUMP: r.text = dump(g); break;
    default: break;
  }
  if (r.rc != RMW_RET_OK && !(r.kind == Q_BYNODE && r.rc == RMW_RET_NODE_NAME_NON_EXISTENT)) {
    fail("query-failed", "a valid query failed: " + show(r));
  }
}

void do_update(GraphCache & g, Rec & r)
{
  const rmw_gid_t gid = to_rmw(r.gid), part = to_rmw(r.part);
  PMsg msg;
  bool has_msg = true;
  switch (r.kind) {
    case ADD_W: r.ret = g.add_writer(gid, r.end.topic, r.end.type, r.end.hash, to_rmw(r.end.part), r.end.qos); has_msg = false; break;
    case ADD_R: r.ret = g.add_reader(gid, r.end.topic, r.end.type, r.end.hash, to_rmw(r.end.part), r.end.qos); has_msg = false; break;
    case REM_W: r.ret = r.enc ? g.remove_entity(gid, false) : g.remove_writer(gid); has_msg = false; break;
    case REM_R: r.ret = r.enc ? g.remove_entity(gid, true) : g.remove_reader(gid); has_msg = false; break;
    case ADD_P: g.add_participant(part, r.name); has_msg = false; break;
    case REM_P: r.ret = g.remove_participant(part); has_msg = false; break;
    case UPD: g.update_participant_entities(to_msg(r.part, r.nodes)); has_msg = false; break;
    case ADD_N: msg = g.add_node(part, r.name, r.ns); break;
    case REM_N: msg = g.remove_node(part, r.name, r.ns); break;
    case ASS_W: msg = g.associate_writer(gid, part, r.name, r.ns); break;
    case DIS_W: msg = g.dissociate_writer(gid, part, r.name, r.ns); break;
    case ASS_R: msg = g.associate_reader(gid, part, r.name, r.ns); break;
    case DIS_R: msg = g.dissociate_reader(gid, part, r.name, r.ns); break;
    default: has_msg = false; break;
  }
  if (has_msg) {
    r.msg_gid = from_msg(msg.gid);
    r.msg = nodes_of(msg);
  }
}

// A small program aimed at one operation: thread 0 does that, the others complete operations that interfere with it.
struct Duel
{
  vh::Rng & r;
  Gid shared, remote, remote2;
  std::vector<Gid> gids;
  std::string topic, other_topic;
  const Pools & p;
  bool with_cb;
  // what is there as far as the (arbitrary) order of planning tells
  std::set<std::pair<bool, Gid>> there, tied;
  std::set<Gid> known;
  std::vector<std::vector<std::string>> own;
  std::vector<Rec> endpoint(size_t, bool rd, const Gid & g)
  {
    Rec rec;
    rec.gid = g;
    rec.enc = r.chance(1, 2);
    if (there.count({rd, g})) {
      there.erase({rd, g});
      rec.kind = rd ? REM_R : REM_W;
    } else {
      there.insert({rd, g});
      rec.kind = rd ? ADD_R : ADD_W;
      rec.end.topic = r.chance(5, 6) ? topic : other_topic;
      rec.end.type = r.pick(p.types);
      rec.end.hash = r.pick(p.hashes);
      rec.end.part = r.chance(1, 2) ? shared : remote;
      rec.end.qos = r.pick(p.qoss);
    }
    return {rec};
  }
  std::vector<Rec> tie(bool rd, const Gid & g)
  {
    Rec rec;
    rec.gid = g;
    rec.part = shared;
    rec.name = "fn";
    rec.ns = "/";
    const bool t = tied.count({rd, g}) > 0;
    rec.kind = t ? (rd ? DIS_R : DIS_W) : (rd ? ASS_R : ASS_W);
    if (t) {tied.erase({rd, g});} else {tied.insert({rd, g});}
    return {rec};
  }
  std::vector<Rec> node(size_t th)
  {
    Rec rec;
    rec.part = shared;
    rec.ns = "/";
    if (own[th].empty() || r.chance(1, 2)) {
      rec.kind = ADD_N;
      rec.name = fmt("t%zu_%llu", th, static_cast<unsigned long long>(r.u64() % 100000));
      own[th].push_back(rec.name);
    } else {
      rec.kind = REM_N;
      rec.name = own[th].back();
      own[th].pop_back();
    }
    return {rec};
  }
  std::vector<Rec> participant()
  {
    Rec rec;
    rec.part = r.chance(2, 3) ? remote : remote2;
    const int k = static_cast<int>(r.below(4));
    if (k == 0) {
      rec.kind = ADD_P;
      rec.name = r.pick(p.enclaves);
      known.insert(rec.part);
    } else if (k == 1 && (known.count(rec.part) || r.chance(1, 4))) {
      rec.kind = REM_P;
      known.erase(rec.part);
    } else {
      rec.kind = UPD;
      known.insert(rec.part);
      for (size_t i = 1 + r.below(3); i > 1; --i) {
        Node n;
        n.name = fmt("f%zu", i - 1);
        n.ns = r.chance(3, 4) ? std::string("/") : r.pick(p.nss);
        for (auto & g : gids) {
          if (r.chance(1, 2)) {n.readers.push_back(g);}
          if (r.chance(1, 2)) {n.writers.push_back(g);}
        }
        rec.nodes.push_back(n);
      }
    }
    return {rec};
  }
  Rec query(int kind, bool rd)
  {
    Rec rec;
    rec.kind = kind;
    rec.rd = rd;
    rec.enc = r.chance(1, 2);
    rec.yd = static_cast<int>(r.below(2));
    rec.name = topic;
    if (kind == Q_BYNODE) {
      rec.name = r.chance(2, 3) ? "fn" : "f1";
      rec.ns = "/";
    }
    return rec;
  }
  Rec callback()
  {
    Rec rec;
    rec.kind = r.chance(1, 3) ? CLR_CB : SET_CB;
    return rec;
  }
  // fills one sequence per thread (the last one is the prefix)
  std::vector<std::vector<Rec>> plan(size_t nt)
  {
    std::vector<std::vector<Rec>> v(nt + 1);
    own.resize(nt + 1);
    static const int kAims[] = {Q_COUNT, Q_COUNT, Q_COUNT, Q_ENDS, Q_ENDS, Q_ENDS, Q_ENDS, Q_TOPICS, Q_TOPICS, Q_NODES, Q_NODES, Q_BYNODE, Q_BYNODE, Q_BYNODE,
      Q_BYNODE, Q_BYNODE, Q_BYNODE, Q_NUM, Q_NUM, Q_NUM, Q_DUMP, Q_DUMP, ADD_W, ADD_R, REM_W, REM_R, ADD_P, REM_P, REM_P, UPD, UPD, UPD, ADD_N, REM_N, ASS_W, ASS_R,
      DIS_W, DIS_R};
    int aim = kAims[r.below(sizeof(kAims) / sizeof(kAims[0]))];
    if (with_cb) {
      static const int kCbAims[] = {ADD_W, ADD_R, REM_W, REM_R, ADD_P, REM_P, UPD, ADD_N, REM_N, ASS_W, ASS_R, DIS_W, DIS_R, SET_CB};
      aim = kCbAims[r.below(14)];
    }
    bool rd = r.chance(1, 2);
    if (aim == ADD_W || aim == REM_W || aim == ASS_W || aim == DIS_W) {rd = false;}
    if (aim == ADD_R || aim == REM_R || aim == ASS_R || aim == DIS_R) {rd = true;}
    enum {ENDPOINT = 1, TIE = 2, NODE = 4, PART = 8};
    unsigned by = 0;
    std::vector<int> ask;
    switch (aim) {
      case Q_COUNT: case ADD_W: case ADD_R: case REM_W: case REM_R: by = ENDPOINT; ask = {Q_COUNT, Q_ENDS, Q_TOPICS}; break;
      case Q_ENDS: case Q_BYNODE: by = ENDPOINT | (r.chance(1, 2) ? TIE : PART); ask = {Q_COUNT, Q_ENDS, Q_BYNODE}; break;
      case Q_TOPICS: by = ENDPOINT; ask = {Q_TOPICS}; break;
      case Q_NODES: case Q_NUM: by = (r.chance(1, 2) ? 0u : static_cast<unsigned>(NODE)) | PART; ask = {Q_NODES, Q_NUM}; break;
      case ADD_P: case REM_P: case UPD: by = PART; ask = {Q_NODES, Q_NUM, Q_BYNODE}; break;
      case ADD_N: case REM_N: by = NODE | (r.chance(1, 2) ? TIE : 0u); ask = {Q_NODES, Q_NUM}; break;
      case ASS_W: case ASS_R: case DIS_W: case DIS_R: by = TIE | (r.chance(1, 3) ? NODE : 0u); ask = {Q_BYNODE}; break;
      default: by = 1 + static_cast<unsigned>(r.below(15)); ask = {Q_DUMP}; break;
    }
    if (r.chance(1, 12)) {by = ENDPOINT | TIE | NODE | PART;}
    // the operation the others interfere with works on the first identifier, as do many of theirs
    auto one = [&](size_t th) -> Rec {
        for (;;) {
          const unsigned k = 1u << r.below(4);
          if (!(by & k)) {continue;}
          const bool d = aim == Q_TOPICS || aim == Q_DUMP ? r.chance(1, 2) : r.chance(1, 8) ? !rd : rd;
          const Gid & g = r.pick(gids);
          switch (k) {
            case ENDPOINT: return endpoint(th, d, g)[0];
            case TIE: return tie(d, g)[0];
            case NODE: return node(th)[0];
            default: return participant()[0];
          }
        }
      };
    for (size_t i = r.below(5); i > 0; --i) {v[nt].push_back(one(0));}
    // ... so that the operation itself has an effect
    auto prepare = [&](const std::vector<Rec> & x) {v[nt].push_back(x[0]);};
    const Gid & g0 = gids[0];
    for (size_t i = 1 + (r.chance(1, 3) ? r.below(3) : 0); i > 0; --i) {
      const bool dup = r.chance(1, 4);        // ... or just not
      switch (aim) {
        case ADD_W: case ADD_R:
          if (there.count({rd, g0}) && !dup) {if (i == 1 && v[0].empty()) {prepare(endpoint(0, rd, g0));} else {v[0].push_back(endpoint(0, rd, g0)[0]); break;}}
          there.erase({rd, g0});
          v[0].push_back(endpoint(0, rd, g0)[0]);
          break;
        case REM_W: case REM_R:
          if (!there.count({rd, g0}) && !dup) {if (v[0].empty()) {prepare(endpoint(0, rd, g0));} else {v[0].push_back(endpoint(0, rd, g0)[0]); break;}}
          there.insert({rd, g0});
          v[0].push_back(endpoint(0, rd, g0)[0]);
          break;
        case ADD_P: case REM_P: case UPD:
          for (;;) {
            Rec rec = participant()[0];
            if (rec.kind == aim) {v[0].push_back(rec); break;}
            if (v[0].empty() && r.chance(1, 3)) {prepare({rec});}
          }
          break;
        case ADD_N: case REM_N:
          if (aim == REM_N && own[0].empty() && v[0].empty()) {
            Rec rec = node(0)[0];
            prepare({rec});
          }
          v[0].push_back(node(0)[0]);
          break;
        case ASS_W: case ASS_R: case DIS_W: case DIS_R: {
            const bool want_tied = aim == DIS_W || aim == DIS_R;
            if ((tied.count({rd, g0}) > 0) != want_tied && v[0].empty()) {prepare(tie(rd, g0));}
            v[0].push_back(tie(rd, g0)[0]);
            break;
          }
        case SET_CB: v[0].push_back(callback()); break;
        default: v[0].push_back(query(aim, rd)); break;
      }
    }
    if (r.chance(1, 3)) {v[0].push_back(query(r.pick(ask), rd));}
    // Two things the answer depends on, changed in turns: mixing one from before and the other from after two of the
    // changes shows something that never was.
    if (aim >= N_OPS && aim <= Q_DUMP && r.chance(3, 4)) {
      using Step = std::function<Rec()>;
      std::vector<Step> parts;
      const bool d2 = aim == Q_TOPICS || aim == Q_DUMP ? r.chance(1, 2) : rd;
      const Gid g1 = gids.back();
      auto message = [&](const Gid & who, bool nodes_only) {
          auto full = std::make_shared<bool>(r.chance(1, 2));
          const bool always = !nodes_only && r.chance(2, 3);
          return [this, who, full, always, rd, &g0]() {
                   Rec rec;
                   rec.kind = UPD;
                   rec.part = who;
                   *full = !*full;
                   if (always || *full) {
                     Node n;
                     n.name = "f1";
                     n.ns = "/";
                     if (*full) {(rd ? n.readers : n.writers).push_back(g0);}
                     rec.nodes.push_back(n);
                   }
                   return rec;
                 };
        };
      bool at_remote = false;
      auto add_end = [&](bool d, const Gid & g) {
          parts.push_back([this, d, g, &at_remote]() {
              Rec rec = endpoint(1, d, g)[0];
              if (rec.kind == ADD_W || rec.kind == ADD_R) {
                rec.end.topic = topic;
                rec.end.part = at_remote ? remote : shared;
              }
              return rec;
            });
        };
      switch (aim) {
        case Q_COUNT: add_end(rd, g0); add_end(rd, g1); break;
        case Q_TOPICS: add_end(!d2, g0); add_end(d2, g1); break;
        case Q_NODES: case Q_NUM:
          parts.push_back(message(remote, true));
          parts.push_back(message(remote2, true));
          if (r.chance(1, 3)) {parts[0] = [this]() {return node(1)[0];};}
          break;
        case Q_ENDS: case Q_BYNODE:
          at_remote = r.chance(1, 3);
          add_end(rd, g0);
          if (at_remote) {parts.push_back(message(remote, false));} else {parts.push_back([this, rd, &g0]() {return tie(rd, g0)[0];});}
          if (aim == Q_BYNODE) {
            for (auto & x : v[0]) {
              if (x.kind == Q_BYNODE) {x.name = at_remote ? "f1" : "fn";}
            }
          }
          break;
        default: {
            const unsigned k = static_cast<unsigned>(r.below(3));
            if (k != 0) {add_end(rd, g0);}
            if (k != 1) {add_end(!rd, g0);}
            if (k != 2) {parts.push_back(r.chance(1, 2) ? Step([this, rd, &g0]() {return tie(rd, g0)[0];}) : Step(message(remote, true)));}
          }
      }
      for (size_t i = r.below(5); i > 0; --i) {v[nt].push_back(r.pick(parts)());}
      size_t turn = r.below(2);
      for (size_t i = 1 + r.below(4); i > 0; --i) {v[0].push_back(v[0][r.chance(1, 4) ? r.below(v[0].size()) : 0]);}
      for (size_t i = 6 + r.below(10); i > 0; --i) {
        v[1].push_back(parts[turn % 2]());
        if (!r.chance(1, 8)) {++turn;}
      }
      return v;
    }
    const size_t per = 3 + r.below(6);
    for (size_t i = 0; i < per; ++i) {
      const size_t th = 1 + r.below(nt - 1);
      if (with_cb && (aim == SET_CB ? r.chance(1, 6) : r.chance(1, 3))) {v[th].push_back(callback()); continue;}
      v[th].push_back(r.chance(1, 4) ? query(r.pick(ask), rd) : one(th));
    }
    return v;
  }
};

// G09 and the concurrent part of G08
void linearizable(Case & c, bool with_cb)
{
  vh::Rng & r = c.rng;
  Pools p = make_pools(r, 1, true);
  const std::vector<Gid> all_gids = p.gids;
  // few identifiers, so that the threads meet
  p.gids.resize(std::min<size_t>(p.gids.size(), 2 + r.below(4)));
  p.topics.resize(std::min<size_t>(p.topics.size(), 1 + r.below(3)));
  p.pgids.resize(std::min<size_t>(p.pgids.size(), 2));
  Gid shared;                                     // the participant whose nodes the threads own
  for (auto & b : shared) {b = static_cast<uint8_t>(r.u64());}
  std::vector<Gid> owners = p.pgids;
  owners.push_back(shared);
  const bool duel = r.chance(3, 4);
  const size_t nt = duel ? 2 + r.below(4) / 3 : 2 + r.below(3);
  auto g = std::make_shared<GraphCache>();
  State init;
  g->add_participant(to_rmw(shared), "/e");
  init.m.parts[shared].enclave = "/e";
  std::vector<Rec> all;
  std::vector<std::vector<Rec>> recs(nt);
  std::vector<std::unique_ptr<Cb>> cbs;
  std::vector<Rec *> running(nt, nullptr);
  std::string cb_error;
  auto install = [&](int id) {
      Cb * cb = cbs[static_cast<size_t>(id)].get();
      return [&, cb, id]() {
               const int t = sched::self();
               {
                 sched::Quiet q;
                 if (cb->retired && cb_error.empty()) {cb_error = fmt("callback #%d ran although it had been replaced or cleared", id);}
                 if (t >= 0 && running[static_cast<size_t>(t)]) {running[static_cast<size_t>(t)]->cbs.push_back(id);}
               }
               sched::point();      // a callback takes its time
               sched::point();
               sched::Quiet q;
               if (cb->retired && cb_error.empty()) {cb_error = fmt("callback #%d was still running when it had been replaced or cleared", id);}
             };
    };
  // half of the programs: threads that keep asking one kind of question, and others that change what it is about
  const bool focused = !duel && r.chance(2, 3);
  static const int kFocus[] = {Q_TOPICS, Q_TOPICS, Q_ENDS, Q_ENDS, Q_NODES, Q_BYNODE, Q_BYNODE, Q_BYNODE, Q_COUNT, Q_NUM, Q_DUMP};
  const int focus = kFocus[r.below(11)];
  const bool focus_rd = r.chance(1, 2);
  const std::string focus_topic = r.pick(p.topics);
  const size_t askers = focused ? 1 + (nt > 2 ? r.below(2) : 0) : 0;
  std::vector<int> allowed;
  for (int k = 0; k < N_OPS; ++k) {
    const bool endpoint = k == ADD_W || k == ADD_R || k == REM_W || k == REM_R;
    bool ok = true;
    if (focused && focus == Q_ENDS && r.chance(1, 3)) {ok = k == ADD_P || k == REM_P || k == UPD || endpoint;}
    if (focused) {
      switch (focus) {
        case Q_TOPICS: case Q_COUNT: ok = endpoint; break;
        case Q_NODES: case Q_NUM: ok = k == ADD_P || k == REM_P || k == UPD || k == ADD_N || k == REM_N; break;
        case Q_BYNODE: ok = endpoint || k == UPD || k == REM_P || k == ASS_W || k == ASS_R || k == DIS_W || k == DIS_R; break;
        default: break;
      }
    }
    if (ok) {allowed.push_back(k);}
  }
  // in some of these every updater has endpoints of its own, which it adds and removes: each step shows
  const bool effective = focused && r.chance(2, 3);
  // ... and in some associates them with a node all know
  const bool linked = effective && (focus == Q_BYNODE || (focus == Q_ENDS && r.chance(1, 3)));
  std::vector<std::vector<Rec>> plan;
  if (duel) {
    Duel d{r, shared, p.pgids[0], p.pgids[1 % p.pgids.size()], {}, focus_topic, p.topics.back(), p, with_cb, {}, {}, {}, {}};
    for (size_t i = 0; i < 2 && i < p.gids.size(); ++i) {d.gids.push_back(p.gids[i]);}
    plan = d.plan(nt);
  }
  if (linked || duel) {
    Rec rec;
    rec.kind = ADD_N;
    rec.part = shared;
    rec.name = "fn";
    rec.ns = "/";
    do_update(*g, rec);
    rec.inv = sched::now();
    rec.res = sched::now();
    c.note(show(rec));
    if (!apply(init, rec, false)) {fail("sequential-prefix", "the result is wrong before any concurrency: " + show(rec));}
  }
  std::vector<std::set<std::pair<bool, Gid>>> mine_now(nt), linked_now(nt);
  auto update_of = [&](vh::Rng & q, size_t th, const std::vector<std::string> & own, Rec & rec) {
      rec.gid = q.pick(p.gids);
      if (linked && th < all_gids.size() && q.chance(15, 16)) {
        size_t i = q.below(std::min<size_t>(all_gids.size(), 3 * nt));
        i -= i % nt;
        i += th;
        if (i >= all_gids.size()) {i = th;}
        rec.gid = all_gids[i];
        const bool rd = q.chance(1, 10) ? !focus_rd : focus_rd;
        const bool there = mine_now[th].count({rd, rec.gid}) > 0;
        const bool tied = linked_now[th].count({rd, rec.gid}) > 0;
        if (q.chance(1, 2)) {
          rec.kind = tied ? (rd ? DIS_R : DIS_W) : (rd ? ASS_R : ASS_W);
          rec.part = shared;
          rec.name = "fn";
          rec.ns = "/";
          if (tied) {linked_now[th].erase({rd, rec.gid});} else {linked_now[th].insert({rd, rec.gid});}
        } else {
          rec.kind = there ? (rd ? REM_R : REM_W) : (rd ? ADD_R : ADD_W);
          if (there) {
            mine_now[th].erase({rd, rec.gid});
          } else {
            mine_now[th].insert({rd, rec.gid});
            rec.end.topic = focus == Q_ENDS ? focus_topic : q.chance(1, 4) ? q.pick(p.topics) : fmt("rt/t%zu", i);
            rec.end.type = q.pick(p.types);
            rec.end.hash = q.pick(p.hashes);
            rec.end.part = q.chance(7, 8) ? shared : q.pick(owners);
            rec.end.qos = q.pick(p.qoss);
          }
        }
        return;
      }
      if (effective && (focus == Q_TOPICS || focus == Q_COUNT || (focus == Q_ENDS && q.chance(1, 2))) && th < all_gids.size()) {
        size_t i = q.below(all_gids.size());
        i -= i % nt;
        i += th;
        if (i >= all_gids.size()) {i = th;}
        rec.gid = all_gids[i];
        const bool rd = focus == Q_ENDS || focus == Q_COUNT ? (q.chance(1, 6) ? !focus_rd : focus_rd) : q.chance(1, 2);
        if (mine_now[th].insert({rd, rec.gid}).second) {
          rec.kind = rd ? ADD_R : ADD_W;
          rec.end.topic = q.chance(3, 4) ? focus_topic : q.pick(p.topics);
          rec.end.type = q.chance(1, 3) ? q.pick(p.types) : fmt("T%zu_%llu", th, static_cast<unsigned long long>(q.below(1000)));
          rec.end.hash = q.pick(p.hashes);
          rec.end.part = q.pick(owners);
          rec.end.qos = q.pick(p.qoss);
        } else {
          mine_now[th].erase({rd, rec.gid});
          rec.kind = rd ? REM_R : REM_W;
        }
        return;
      }
      rec.enc = q.chance(1, 2);
      for (;;) {
        int k = q.pick(allowed);
        rec.kind = k;
        switch (k) {
          case ADD_W: case ADD_R:
            rec.end.topic = q.pick(p.topics);
            rec.end.type = q.pick(p.types);
            rec.end.hash = q.pick(p.hashes);
            rec.end.part = q.pick(owners);
            rec.end.qos = q.pick(p.qoss);
            return;
          case REM_W: case REM_R: return;
          case ADD_P: case REM_P:
            rec.part = q.pick(p.pgids);
            rec.name = q.pick(p.enclaves);
            return;
          case UPD: {
              rec.part = q.pick(p.pgids);
              for (size_t i = q.below(3); i > 0; --i) {
                Node n;
                n.name = fmt("f%llu", static_cast<unsigned long long>(i));
                n.ns = q.pick(p.nss);
                if (q.chance(1, 2)) {n.readers.push_back(q.pick(p.gids));}
                if (q.chance(1, 2)) {n.writers.push_back(q.pick(p.gids));}
                rec.nodes.push_back(n);
              }
              return;
            }
          case ADD_N:
            rec.part = shared;
            rec.name = fmt("t%zu_%zu", th, own.size() + q.below(1000) * 100);
            for (auto & o : own) {if (o == rec.name) {rec.name += "x";}}
            rec.ns = "/";
            return;
          default:
            if (own.empty()) {break;}
            rec.part = shared;
            rec.name = q.pick(own);
            rec.ns = "/";
            return;
        }
      }
    };
  // sequential prefix
  std::vector<std::vector<std::string>> own(nt);
  for (size_t i = duel ? plan[nt].size() : r.below(8) + nt + (linked ? nt : 0); i > 0; --i) {
    Rec rec;
    size_t th = duel ? 0 : r.below(nt);
    if (duel) {rec = plan[nt][plan[nt].size() - i];} else {update_of(r, th, own[th], rec);}
    do_update(*g, rec);
    rec.inv = sched::now();
    rec.res = sched::now();
    if (rec.kind == ADD_N && !duel) {own[th].push_back(rec.name);}
    if (rec.kind == REM_N && !duel) {own[th].erase(std::find(own[th].begin(), own[th].end(), rec.name));}
    c.note(show(rec));
    if (!apply(init, rec, false)) {fail("sequential-prefix", "the result is wrong before any concurrency: " + show(rec));}
  }
  if (with_cb && r.chance(3, 4)) {
    cbs.emplace_back(new Cb);
    init.cb = 0;
    g->set_on_change_callback(install(0));
    c.note("set_on_change_callback(#0)");
  }
  const size_t budget = 4 + r.below(10);
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < nt; ++t) {
    const uint64_t s = r.u64();
    size_t n = 1 + r.below(budget / nt + 2);
    if (focused) {n = t < askers ? 1 + r.below(3) : 3 + r.below(budget / nt + 4);}
    if (duel) {n = plan[t].size();}
    recs[t].reserve(n);
    bodies.push_back([&, t, s, n]() {
        vh::Rng q(s);
        std::vector<std::string> mine = own[t];
        for (size_t i = 0; i < n; ++i) {
          Rec rec;
          rec.thread = static_cast<int>(t);
          int what = static_cast<int>(q.below(100));
          if (duel) {
            rec = plan[t][i];
            rec.thread = static_cast<int>(t);
          } else if (t >= askers && (focused ? what < 90 : what < (with_cb ? 60 : 50))) {
            update_of(q, t, mine, rec);
          } else if (with_cb && (what < 80 || what > 94)) {
            rec.kind = q.chance(1, 3) ? CLR_CB : SET_CB;
          } else {
            static const int qs[] = {Q_COUNT, Q_COUNT, Q_ENDS, Q_ENDS, Q_TOPICS, Q_NODES, Q_BYNODE, Q_NUM, Q_DUMP};
            rec.kind = qs[q.below(9)];
            rec.rd = q.chance(1, 2);
            rec.enc = q.chance(1, 2);
            rec.yd = static_cast<int>(q.below(2));
            rec.name = q.pick(p.topics);
            if (focused && q.chance(7, 8)) {
              rec.kind = focus;
              rec.rd = focus_rd;
              rec.name = focus_topic;
            }
            if (rec.kind == Q_BYNODE) {
              rec.name = fmt("f%llu", static_cast<unsigned long long>(1 + q.below(2)));
              rec.ns = q.pick(p.nss);
              for (auto & o : own) {
                if (!o.empty() && q.chance(1, 2)) {rec.name = o[0]; rec.ns = "/";}
              }
              if (linked && q.chance(7, 8)) {rec.name = "fn"; rec.ns = "/";}
            }
          }
          if (rec.kind == SET_CB) {
            sched::Quiet quiet;
            rec.cb = static_cast<int>(cbs.size());
            cbs.emplace_back(new Cb);
          }
          running[t] = &rec;
          rec.inv = sched::now();
          sched::point();
          if (rec.kind == SET_CB) {
            g->set_on_change_callback(install(rec.cb));
          } else if (rec.kind == CLR_CB) {
            g->clear_on_change_callback();
          } else if (rec.kind >= N_OPS) {
            do_query(*g, rec);
          } else {
            do_update(*g, rec);
          }
          {
            // A callback is retired once an operation that replaces it has returned and every
            // operation that could have installed it had returned before that one began.
            sched::Quiet quiet;
            if (rec.kind == SET_CB || rec.kind == CLR_CB) {
              for (size_t k = 0; k < cbs.size(); ++k) {
                if (static_cast<int>(k) == rec.cb) {continue;}
                uint64_t installed = ~0ull;
                if (k == 0 && init.cb == 0) {installed = 0;}
                for (auto & rv : recs) {
                  for (auto & x : rv) {if (x.kind == SET_CB && x.cb == static_cast<int>(k)) {installed = x.res;}}
                }
                if (installed < rec.inv) {cbs[k]->retired = true;}
              }
            }
          }
          sched::point();
          rec.res = sched::now();
          running[t] = nullptr;
          if (rec.kind == ADD_N && !duel) {mine.push_back(rec.name);}
          if (rec.kind == REM_N && !duel) {mine.erase(std::find(mine.begin(), mine.end(), rec.name));}
          sched::Quiet quiet;
          recs[t].push_back(std::move(rec));
        }
      });
  }
  g_point = sched::point;
  sched::Stats st;
  try {
    st = sched::run(bodies, r.u64(), static_cast<int>(budget) * 1500, static_cast<int>(budget) * 16, duel && r.chance(3, 4) ? 0 : -1);
  } catch (...) {
    g_point = nullptr;
    for (auto & v : recs) {for (auto & x : v) {c.note(show(x));}}
    throw;
  }
  g_point = nullptr;
  for (auto & v : recs) {for (auto & x : v) {all.push_back(x);}}
  std::sort(all.begin(), all.end(), [](const Rec & a, const Rec & b) {return a.inv < b.inv;});
  size_t overlaps = 0;
  for (size_t i = 0; i < all.size(); ++i) {
    c.note(show(all[i]));
    for (size_t k = i + 1; k < all.size(); ++k) {overlaps += all[k].inv < all[i].res;}
  }
  if (!cb_error.empty()) {fail("stale-callback", cb_error);}
  // what the graph holds at the end is part of the history
  auto tail = [&](Rec rec) {
      if (all.size() >= 60) {return;}
      rec.inv = sched::now();
      do_query(*g, rec);
      rec.res = sched::now();
      all.push_back(std::move(rec));
    };
  const size_t concurrent = all.size();
  for (int k : {Q_NODES, Q_TOPICS}) {
    Rec rec;
    rec.thread = -1;
    rec.kind = k;
    rec.enc = true;
    tail(rec);
  }
  std::set<std::string> topics(p.topics.begin(), p.topics.end());
  for (auto & tp : topics) {
    for (bool rd : {false, true}) {
      Rec rec;
      rec.thread = -1;
      rec.kind = Q_ENDS;
      rec.name = tp;
      rec.rd = rd;
      tail(rec);
    }
  }
  {
    Rec rec;            // the complete state of the shared participant
    rec.thread = -1;
    rec.kind = ADD_N;
    rec.part = shared;
    rec.name = "probe";
    rec.ns = "/";
    rec.inv = sched::now();
    do_update(*g, rec);
    rec.res = sched::now();
    if (with_cb) {rec.cbs.clear();}
    if (!with_cb && all.size() < 64) {all.push_back(rec);}
  }
  for (size_t i = concurrent; i < all.size(); ++i) {c.note(show(all[i]));}
  Lin lin{all, with_cb, {}, 0, false, {}, {}};
  bool ok = lin.dfs(0, init);
  vh::count("histories");
  vh::count("events", concurrent);
  vh::count("overlapping_pairs", overlaps);
  vh::count("context_switches", st.switches);
  vh::count("preemption_points", st.points);
  vh::count("lock_points", st.lock_points);
  vh::count("contended_locks", st.contended);
  vh::count("configurations_searched", lin.visited);
  for (auto & x : all) {vh::count("callbacks_observed", x.cbs.size());}
  if (lin.gave_up) {vh::count("inconclusive_histories"); return;}
  if (!ok) {
    std::string d = "no order of these operations that respects real time explains their results; longest explained sequence:";
    for (int i : lin.best) {d += fmt(" %d", i);}
    fail(with_cb ? "callback-history" : "not-linearizable", d + fmt(" of %zu operations (numbered by start)", all.size()));
  }
  if (st.switches > 1 && overlaps > 0) {vh::distinct(st.hash ^ vh::mix(c.index));}
  if (vh::want_sample() && overlaps > 2) {
    std::string t;
    for (size_t i = 0; i < concurrent && i < 8; ++i) {t += show(all[i]).substr(0, 160) + "; ";}
    vh::sample(fmt("%zu threads, %zu operations, %zu overlapping pairs, %llu switches: ", nt, concurrent, overlaps, static_cast<unsigned long long>(st.switches)) + t);
  }
}

// ------------------------------------------------------------------ concurrent use of a Context
rmw_publisher_t g_pub;

void context_conc(Case & c, bool faults)
{
  vh::Rng & r = c.rng;
  Pools p = make_pools(r, 1, false);
  Context ctx;
  Gid own;
  for (auto & b : own) {b = static_cast<uint8_t>(r.u64());}
  ctx.gid = to_rmw(own);
  ctx.pub = &g_pub;
  ctx.graph_cache.add_participant(ctx.gid, "/enclave");
  // a second context of the process, used while the first one publishes
  Context other;
  other.gid = to_rmw(own);
  other.pub = &g_pub;
  size_t other_published = 0, other_nodes = 0;
  other.publish_callback = [&](const rmw_publisher_t *, const void *) -> rmw_ret_t {
      ++other_published;
      return RMW_RET_OK;
    };
  other.graph_cache.add_participant(other.gid, "/other");
  const size_t nt = 2 + r.below(3);
  struct Ev { int thread; size_t call; std::vector<Node> nodes; rmw_ret_t ret; };
  std::vector<Ev> evs;
  std::vector<std::vector<Call>> calls(nt);
  std::vector<std::vector<rmw_ret_t>> rets(nt);
  std::vector<size_t> cur(nt, 0);
  std::string error, error_key;
  auto bad = [&](const char * key, const std::string & d) {
      if (error.empty()) {error = d; error_key = key;}
    };
  int in_publish = 0;
  uint64_t reader_progress = 0;
  bool reader_done = false;
  const bool want_reader = r.chance(2, 3);
  const unsigned wait_every = static_cast<unsigned>(1 + r.below(4));
  const unsigned fail_of = 2 + static_cast<unsigned>(r.below(4));
  vh::Rng cbr(r.u64());
  uint64_t queries_in_publish = 0, waits = 0, failures = 0;
  bool concurrent = false;
  ctx.publish_callback = [&](const rmw_publisher_t * pub, const void * m) -> rmw_ret_t {
      const PMsg & msg = *static_cast<const PMsg *>(m);
      const int t = sched::self();
      rmw_ret_t ret = RMW_RET_OK;
      bool wait, query, aside;
      {
        sched::Quiet q;
        if (in_publish++) {bad("publications-overlap", "two publications were in progress at the same time");}
        if (pub != &g_pub) {bad("publication-publisher", "published with another publisher");}
        if (from_msg(msg.gid) != own) {bad("publication-participant", "published a message for another participant");}
        if (faults && concurrent && cbr.chance(1, fail_of)) {ret = cbr.chance(1, 2) ? RMW_RET_ERROR : RMW_RET_TIMEOUT; ++failures;}
        evs.push_back({t, t >= 0 ? cur[static_cast<size_t>(t)] : 0, nodes_of(msg), ret});
        wait = concurrent && want_reader && !reader_done && cbr.chance(1, wait_every);
        query = concurrent && cbr.chance(1, 2);
        aside = concurrent && cbr.chance(1, 6);
      }
      sched::point();
      if (query) {
        // the publisher may look at the graph
        std::vector<NodeRec> v;
        Tracker tr;
        q_nodes(ctx.graph_cache, true, v, tr);
        size_t n = 0;
        ctx.graph_cache.get_writer_count("rt/x", &n);
        sched::Quiet q;
        queries_in_publish++;
      }
      if (aside) {
        ++other_nodes;
        const rmw_ret_t o = other.add_node_graph("n", "/");
        if (o != RMW_RET_OK || other_published != other_nodes || other.graph_cache.get_number_of_nodes() != other_nodes) {
          bad("other-context", fmt("a node added to another context during a publication: returned %d, %zu messages and %zu nodes after %zu additions", o, other_published,
            other.graph_cache.get_number_of_nodes(), other_nodes));
        }
        vh::count("other_contexts_used");
      }
      if (wait) {
        // and others are not kept from looking while a publication takes its time
        const uint64_t at = reader_progress;
        sched::wait_until("another thread has completed a query while this publication is in progress",
          [&, at]() {return reader_progress > at || reader_done;});
        sched::Quiet q;
        waits++;
      }
      sched::point();
      sched::Quiet q;
      --in_publish;
      return ret;
    };
  // every thread owns its nodes
  std::vector<std::vector<Node>> mine(nt);
  std::vector<Node> state;
  size_t prefix = 0;
  for (size_t t = 0; t < nt; ++t) {
    Call call;
    call.op = C_ADD_NODE;
    call.name = fmt("n%zu", t);
    call.ns = "/";
    if (invoke(ctx, call) != RMW_RET_OK) {fail("context-result", "adding a node failed");}
    c.note(show(call));
    auto s = successors(state, call);
    state = s[0];
    ++prefix;
  }
  evs.clear();
  concurrent = true;
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < nt; ++t) {
    const uint64_t s = r.u64();
    const size_t n = 1 + r.below(c.thorough ? 8 : 5);
    bodies.push_back([&, t, s, n]() {
        vh::Rng q(s);
        // this thread's view of its own nodes: only it changes them
        struct Own { std::string name; bool alive; std::vector<Gid> rd, wr; };
        std::vector<Own> nodes{{fmt("n%zu", t), true, {}, {}}};
        for (size_t i = 0; i < n; ++i) {
          Call call;
          std::vector<size_t> alive;
          for (size_t k = 0; k < nodes.size(); ++k) {if (nodes[k].alive) {alive.push_back(k);}}
          size_t k = alive.empty() ? 0 : q.pick(alive);
          call.op = static_cast<CtxOp>(q.below(C_N));
          if (call.op == C_REM_NODE && q.chance(2, 3)) {call.op = C_ADD_PUB;}
          if (alive.empty()) {call.op = C_ADD_NODE;}
          call.ns = "/";
          if (call.op == C_ADD_NODE) {
            call.name = fmt("n%zu_%zu", t, i);
          } else {
            call.name = nodes[k].name;
            call.a = q.pick(p.gids);
            call.b = q.pick(p.gids);
            call.a[15] = call.b[15] = static_cast<uint8_t>(t);
            if (!is_add(call.op)) {
              auto from = [&](std::vector<Gid> & v, Gid & g) {if (!v.empty()) {g = q.pick(v);}};
              if (call.op == C_REM_SUB || call.op == C_REM_SRV) {from(nodes[k].rd, call.a);}
              if (call.op == C_REM_PUB || call.op == C_REM_CLI) {from(nodes[k].wr, call.a);}
              if (call.op == C_REM_SRV) {from(nodes[k].wr, call.b);}
              if (call.op == C_REM_CLI) {from(nodes[k].rd, call.b);}
            }
          }
          {
            sched::Quiet quiet;
            calls[t].push_back(call);
            cur[t] = i;
          }
          sched::point();
          rmw_ret_t ret = invoke(ctx, call);
          rmw_reset_error();
          sched::point();
          sched::Quiet quiet;
          rets[t].push_back(ret);
          const bool took = ret == RMW_RET_OK || !is_add(call.op);
          if (!took) {continue;}
          auto put = [&](std::vector<Gid> & v, const Gid & g) {
              if (is_add(call.op)) {v.push_back(g);} else {
                auto f = std::find(v.begin(), v.end(), g);
                if (f != v.end()) {v.erase(f);}
              }
            };
          switch (call.op) {
            case C_ADD_NODE: nodes.push_back({call.name, true, {}, {}}); break;
            case C_REM_NODE: nodes[k].alive = false; break;
            case C_ADD_SUB: case C_REM_SUB: put(nodes[k].rd, call.a); break;
            case C_ADD_PUB: case C_REM_PUB: put(nodes[k].wr, call.a); break;
            case C_ADD_CLI: case C_REM_CLI: put(nodes[k].wr, call.a); put(nodes[k].rd, call.b); break;
            default: put(nodes[k].rd, call.a); put(nodes[k].wr, call.b); break;
          }
        }
      });
  }
  size_t reader_rounds = 0;
  if (want_reader) {
    const uint64_t s = r.u64();
    reader_rounds = 4 + r.below(12);
    bodies.push_back([&, s]() {
        struct Done { bool & d; ~Done() {d = true;} } done{reader_done};
        vh::Rng q(s);
        for (size_t i = 0; i < reader_rounds; ++i) {
          Rec rec;
          static const int qs[] = {Q_COUNT, Q_ENDS, Q_TOPICS, Q_NODES, Q_BYNODE, Q_NUM, Q_DUMP};
          rec.kind = qs[q.below(7)];
          rec.rd = q.chance(1, 2);
          rec.name = rec.kind == Q_BYNODE ? "n0" : q.pick(p.topics);
          rec.ns = "/";
          do_query(ctx.graph_cache, rec);
          {
            sched::Quiet quiet;
            reader_progress++;
          }
          sched::point();
        }
      });
  }
  if (r.chance(1, 2)) {     // discovery of other participants goes on at the same time
    const uint64_t s = r.u64();
    bodies.push_back([&, s]() {
        vh::Rng q(s);
        for (int i = 0; i < 5; ++i) {
          Rec rec;
          rec.kind = q.chance(1, 2) ? UPD : ADD_P;
          rec.part = own;
          rec.part[3] ^= static_cast<uint8_t>(1 + q.below(3));
          rec.name = "/other";
          if (rec.kind == UPD) {
            Node n;
            n.name = "remote";
            n.ns = "/";
            rec.nodes.push_back(n);
          }
          do_update(ctx.graph_cache, rec);
          sched::point();
        }
      });
  }
  g_point = sched::point;
  sched::Stats st;
  auto notes = [&]() {
      size_t k = 0;
      for (auto & e : evs) {
        if (e.thread >= 0 && static_cast<size_t>(e.thread) < nt && e.call < calls[static_cast<size_t>(e.thread)].size()) {
          c.note(fmt("publication %zu by thread %d for ", k, e.thread) + show(calls[static_cast<size_t>(e.thread)][e.call]) + fmt(" -> %d: ", e.ret) + gm::show(e.nodes).substr(0, 500));
        }
        ++k;
      }
    };
  try {
    st = sched::run(bodies, r.u64(), static_cast<int>(nt) * 20000, static_cast<int>(nt) * 64);
  } catch (...) {
    g_point = nullptr;
    notes();
    throw;
  }
  g_point = nullptr;
  concurrent = false;
  notes();
  vh::count("histories");
  vh::count("context_switches", st.switches);
  vh::count("contended_locks", st.contended);
  vh::count("preemption_points", st.points);
  vh::count("lock_points", st.lock_points);
  vh::count("publications_checked", evs.size());
  vh::count("queries_inside_publication", queries_in_publish);
  vh::count("queries_during_publication", waits);
  vh::count("failed_publications", failures);
  if (!error.empty()) {fail(error_key, error);}
  // exactly one publication per operation, in the order of the updates
  std::vector<std::vector<int>> pubs(nt);
  size_t total = 0;
  for (size_t t = 0; t < nt; ++t) {pubs[t].assign(calls[t].size(), 0); total += calls[t].size();}
  vh::count("events", total);
  for (auto & e : evs) {
    if (e.thread < 0 || static_cast<size_t>(e.thread) >= nt) {fail("unsolicited-publication", "a thread that only queries published a message");}
    pubs[static_cast<size_t>(e.thread)][e.call]++;
  }
  for (size_t t = 0; t < nt; ++t) {
    for (size_t i = 0; i < calls[t].size(); ++i) {
      if (pubs[t][i] != 1) {fail("publication-count", show(calls[t][i]) + fmt(" published %d messages instead of one", pubs[t][i]));}
    }
  }
  size_t k = 0;
  for (auto & e : evs) {
    const Call & call = calls[static_cast<size_t>(e.thread)][e.call];
    const rmw_ret_t ret = rets[static_cast<size_t>(e.thread)][e.call];
    auto want = successors(state, call);
    const std::vector<Node> * m = matching(want, e.nodes);
    if (!m) {
      fail("publication-order", fmt("message %zu, published by thread %d for ", k, e.thread) + show(call) + ", does not follow from the message before it: it says " +
        gm::show(e.nodes) + " instead of " + gm::show(want.empty() ? state : want[0]));
    }
    if ((e.ret == RMW_RET_OK) != (ret == RMW_RET_OK) || (ret != RMW_RET_OK && ret != RMW_RET_ERROR)) {
      fail("context-result", show(call) + fmt(" returned %d although its publication returned %d", ret, e.ret));
    }
    if (e.ret == RMW_RET_OK || !is_add(call.op)) {state = *m;}
    ++k;
  }
  // the last published state is the local one
  {
    ctx.publish_callback = nullptr;
    std::vector<Node> got = nodes_of(ctx.graph_cache.add_node(ctx.gid, "probe", "/"));
    Node n;
    n.name = "probe";
    n.ns = "/";
    state.push_back(n);
    if (!same_nodes(got, state)) {
      fail("final-state", "after the last publication the graph has " + gm::show(got) + " instead of " + gm::show(state));
    }
  }
  vh::distinct(st.hash ^ vh::mix(c.index));
  if (vh::want_sample() && total > 4) {
    std::string t = fmt("%zu threads, %zu operations, %llu switches; publications: ", bodies.size(), total, static_cast<unsigned long long>(st.switches));
    for (size_t i = 0; i < evs.size() && i < 8; ++i) {
      t += fmt("thread %d ", evs[i].thread) + show(calls[static_cast<size_t>(evs[i].thread)][evs[i].call]).substr(0, 100) + fmt(" -> %d; ", evs[i].ret);
    }
    vh::sample(t);
  }
}

// ------------------------------------------------------------------ everything at once (G14)
void mixed(Case & c)
{
  vh::Rng & r = c.rng;
#ifdef VH_CONTROLLED
  const size_t nt = 2 + r.below(3), rounds = 6 + r.below(20);
#else
  const size_t nt = 4 + r.below(5), rounds = 150 + r.below(c.thorough ? 600 : 150);
#endif
  Context ctx;
  Gid own;
  for (auto & b : own) {b = static_cast<uint8_t>(r.u64());}
  ctx.gid = to_rmw(own);
  ctx.pub = &g_pub;
  std::atomic<uint64_t> published{0}, callbacks{0}, queries{0}, updates{0};
  ctx.publish_callback = [&](const rmw_publisher_t *, const void * m) -> rmw_ret_t {
      const PMsg & msg = *static_cast<const PMsg *>(m);
      published.fetch_add(1, std::memory_order_relaxed);
      sched::point();
      return msg.node_entities_info_seq.size() % 7 == 6 ? RMW_RET_ERROR : RMW_RET_OK;
    };
  std::shared_ptr<GraphCache> g(&ctx.graph_cache, [](GraphCache *) {});
  g->add_participant(ctx.gid, "/own");
  struct Th
  {
    Case c;
    std::unique_ptr<Sim> s;
    std::vector<Node> mine;     // nodes of the shared participant this thread owns
  };
  std::vector<std::unique_ptr<Th>> th;
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < nt; ++t) {
    th.emplace_back(new Th);
    Th & x = *th.back();
    x.c.rng = vh::Rng(r.u64());
    x.c.index = c.index;
    x.s.reset(new Sim(x.c));
    for (auto & q : x.s->p.gids) {q[15] = static_cast<uint8_t>(t);}
    for (auto & q : x.s->p.pgids) {q[15] = static_cast<uint8_t>(t); q[0] = static_cast<uint8_t>(own[0] ^ 1);}
    x.s->g = g;
    bodies.push_back([&, t]() {
        Th & me = *th[t];
        vh::Rng & q = me.c.rng;
        const std::array<int, N_OPS> w{{6, 6, 3, 3, 3, 2, 4, 4, 2, 4, 2, 4, 2}};
        for (size_t i = 0; i < rounds; ++i) {
          switch (q.below(10)) {
            case 0: case 1: case 2: case 3:
              me.s->step(me.s->pick(w));
              updates.fetch_add(1, std::memory_order_relaxed);
              break;
            case 4: case 5: {       // context operations on own nodes
                Call call;
                call.ns = "/";
                if (me.mine.empty() || q.chance(1, 4)) {
                  call.op = C_ADD_NODE;
                  call.name = fmt("n%zu_%zu", t, i);
                } else {
                  const Node & n = q.pick(me.mine);
                  call.op = static_cast<CtxOp>(1 + q.below(C_N - 1));
                  if (call.op == C_ADD_NODE) {call.op = C_ADD_PUB;}
                  call.name = n.name;
                  call.a = q.pick(me.s->p.gids);
                  call.b = q.pick(me.s->p.gids);
                }
                auto want = successors(me.mine, call);
                rmw_ret_t ret = invoke(ctx, call);
                rmw_reset_error();
                if (ret == RMW_RET_OK || !is_add(call.op)) {me.mine = want[0];}
                updates.fetch_add(1, std::memory_order_relaxed);
                break;
              }
            case 6:
              if (q.chance(1, 3)) {g->clear_on_change_callback();} else {
                g->set_on_change_callback([&]() {callbacks.fetch_add(1, std::memory_order_relaxed);});
              }
              break;
            default: {
                Rec rec;
                static const int qs[] = {Q_COUNT, Q_ENDS, Q_TOPICS, Q_NODES, Q_BYNODE, Q_NUM, Q_DUMP};
                rec.kind = qs[q.below(7)];
                rec.rd = q.chance(1, 2);
                rec.enc = q.chance(1, 2);
                rec.name = rec.kind == Q_BYNODE ? q.pick(me.s->p.names) : q.pick(me.s->p.topics);
                rec.ns = q.pick(me.s->p.nss);
                do_query(*g, rec);
                queries.fetch_add(1, std::memory_order_relaxed);
              }
          }
          sched::point();
        }
      });
  }
  auto gather = [&]() {
      for (auto & x : th) {
        for (auto & l : x->c.log) {c.note(l);}
      }
    };
  g_point = sched::point;
  sched::Stats st;
  try {
    st = sched::run(bodies, r.u64(), static_cast<int>(nt * rounds) * 2000, static_cast<int>(nt * rounds) * 16);
  } catch (...) {
    g_point = nullptr;
    gather();
    throw;
  }
  g_point = nullptr;
  g->clear_on_change_callback();
  Sim s(c);
  s.g = g;
  s.m.parts[own].enclave = "/own";
  for (auto & x : th) {
    for (auto & kv : x->s->m.w) {s.m.w[kv.first] = kv.second;}
    for (auto & kv : x->s->m.r) {s.m.r[kv.first] = kv.second;}
    for (auto & kv : x->s->m.parts) {s.m.parts[kv.first] = kv.second;}
    for (auto & n : x->mine) {s.m.parts[own].nodes.push_back(n);}
    for (auto & v : {std::make_pair(&s.p.topics, &x->s->p.topics)}) {v.first->insert(v.first->end(), v.second->begin(), v.second->end());}
  }
  try {
    s.observe(O_ALL, true);
  } catch (...) {
    gather();
    throw;
  }
  vh::count("executions");
  vh::count("threads_run", nt);
  vh::count("events", updates.load() + queries.load());
  vh::count("concurrent_updates", updates.load());
  vh::count("concurrent_queries", queries.load());
  vh::count("publications_observed", published.load());
  vh::count("callbacks_observed", callbacks.load());
  vh::count("context_switches", st.switches);
  vh::count("contended_locks", st.contended);
  vh::distinct(st.hash ^ model_hash(s.m));
  if (vh::want_sample()) {
    vh::sample(fmt("%zu threads x %zu rounds on one context: %llu updates, %llu queries, %llu publications; end state %zu writers %zu readers %zu participants as expected",
      nt, rounds, static_cast<unsigned long long>(updates.load()), static_cast<unsigned long long>(queries.load()),
      static_cast<unsigned long long>(published.load()), s.m.w.size(), s.m.r.size(), s.m.parts.size()));
  }
}
// ------------------------------------------------------------------ every thread its own graph (G13)
// Each thread knows its own graph and context completely, so every answer and every message is compared while the
// others work on theirs. A third of the updates reach into a second graph and context of the same thread from inside
// the change callback or the publish function.
void apart(Case & c)
{
  vh::Rng & r = c.rng;
#ifdef VH_CONTROLLED
  const size_t nt = 2 + r.below(2), rounds = 4 + r.below(10);
#else
  const size_t nt = 3 + r.below(4), rounds = 30 + r.below(c.thorough ? 150 : 40);
#endif
  struct Th
  {
    Case c;
    std::unique_ptr<Sim> s;
    Context ctx, side;
    Gid own;
    std::vector<Node> mine;
    size_t side_nodes = 0;
    uint64_t callbacks = 0, published = 0, checked = 0;
    std::vector<Node> last;
    bool reach = false, plain = false;
    std::string wrong;
  };
  std::vector<std::unique_ptr<Th>> th;
  std::vector<std::function<void()>> bodies;
  Gid own;
  for (auto & b : own) {b = static_cast<uint8_t>(r.u64());}
  for (size_t t = 0; t < nt; ++t) {
    th.emplace_back(new Th);
    Th & x = *th.back();
    x.c.rng = vh::Rng(r.u64());
    x.c.index = c.index;
    x.plain = r.chance(1, 2);
    x.s.reset(new Sim(x.c, 1, x.plain));
    x.s->judge_messages = true;
    x.own = own;                       // the same identifiers mean something else in every graph
    if (r.chance(1, 2)) {x.own[r.below(16)] ^= static_cast<uint8_t>(1 + r.below(255));}
    for (auto & q : x.s->p.pgids) {q[0] = static_cast<uint8_t>(x.own[0] ^ 1);}
    std::sort(x.s->p.pgids.begin(), x.s->p.pgids.end());
    x.s->p.pgids.erase(std::unique(x.s->p.pgids.begin(), x.s->p.pgids.end()), x.s->p.pgids.end());
    x.s->g.reset(&x.ctx.graph_cache, [](GraphCache *) {});
    x.ctx.gid = x.side.gid = to_rmw(x.own);
    x.ctx.pub = x.side.pub = &g_pub;
    x.side.graph_cache.add_participant(x.side.gid, "/side");
    x.side.publish_callback = [](const rmw_publisher_t *, const void *) -> rmw_ret_t {return RMW_RET_OK;};
    auto aside = [&x]() {
        if (!x.reach) {return;}
        x.reach = false;
        if (x.side.add_node_graph("side", "/") != RMW_RET_OK || x.side.graph_cache.get_number_of_nodes() != ++x.side_nodes) {
          x.wrong = fmt("a node added to another context from inside an operation: %zu nodes, expected %zu", x.side.graph_cache.get_number_of_nodes(), x.side_nodes);
        }
      };
    x.ctx.publish_callback = [&x, aside, t](const rmw_publisher_t *, const void * m) -> rmw_ret_t {
        const PMsg & msg = *static_cast<const PMsg *>(m);
        if (sched::self() >= 0 && sched::self() != static_cast<int>(t)) {x.wrong = "the publish function of one context was called by an operation of another one";}
        sched::point();
        aside();
        x.last = nodes_of(msg);
        if (from_msg(msg.gid) != x.own) {x.wrong = "a message names participant " + gs(from_msg(msg.gid));}
        ++x.published;
        return RMW_RET_OK;
      };
    x.ctx.graph_cache.add_participant(x.ctx.gid, fmt("/own%zu", t));
    x.ctx.graph_cache.set_on_change_callback([&x, aside, t]() {
        if (sched::self() >= 0 && sched::self() != static_cast<int>(t)) {x.wrong = "the change callback of one graph ran in an operation on another one";}
        ++x.callbacks;
        aside();
      });
    bodies.push_back([&, t]() {
        Th & me = *th[t];
        vh::Rng & q = me.c.rng;
        const std::array<int, N_OPS> w{{6, 6, 3, 3, 3, 2, 4, 4, 2, 4, 2, 4, 2}};
        auto look = [&](unsigned mask, bool full) {
            me.s->m.parts[me.own].enclave = fmt("/own%zu", t);
            me.s->m.parts[me.own].nodes = me.mine;
            me.s->observe(mask, full);
            me.s->m.parts.erase(me.own);
            ++me.checked;
          };
        for (size_t i = 0; i < rounds; ++i) {
          me.reach = q.chance(1, 3);
          if (q.chance(1, 2)) {
            me.s->step(me.s->pick(w));
          } else {
            Call call;
            call.ns = "/";
            if (me.mine.empty() || q.chance(1, 4)) {
              call.op = C_ADD_NODE;
              call.name = fmt("n%zu", i);
            } else {
              const Node & n = q.pick(me.mine);
              call.op = static_cast<CtxOp>(1 + q.below(C_N - 1));
              if (call.op == C_ADD_NODE) {call.op = C_ADD_PUB;}
              call.name = n.name;
              call.a = q.pick(me.s->p.gids);
              call.b = q.pick(me.s->p.gids);
            }
            const auto want = successors(me.mine, call);
            const uint64_t before = me.published;
            const rmw_ret_t ret = invoke(me.ctx, call);
            me.c.note(fmt("thread %zu: ", t) + show(call) + fmt(" -> %d", ret));
            if (ret != RMW_RET_OK || me.published != before + 1) {fail("instances-interfere", show(call) + fmt(" returned %d and published %llu messages", ret, static_cast<unsigned long long>(me.published - before)));}
            const auto * m = matching(want, me.last);
            if (!m) {fail("instances-interfere", show(call) + " published " + show(me.last) + ", expected " + show(want[0]));}
            me.mine = *m;
          }
          me.reach = false;
          if (!me.wrong.empty()) {fail("instances-interfere", me.wrong);}
          if (q.chance(1, 3)) {
            static const unsigned masks[] = {O_COUNT, O_ENDS, O_TOPICS, O_NODES, O_BYNODE, O_DUMP};
            look(masks[q.below(me.plain ? 6 : 5)], q.chance(1, 3));
          }
          sched::point();
        }
        look(O_ALL, true);
      });
  }
  auto gather = [&]() {
      for (auto & x : th) {
        for (auto & l : x->c.log) {c.note(l);}
      }
    };
  g_point = sched::point;
  sched::Stats st;
  try {
    st = sched::run(bodies, r.u64(), static_cast<int>(nt * rounds) * 3000, static_cast<int>(nt * rounds) * 24);
  } catch (...) {
    g_point = nullptr;
    gather();
    throw;
  }
  g_point = nullptr;
  uint64_t cbs = 0, pubs = 0, checks = 0, sides = 0, h = st.hash;
  for (auto & x : th) {
    if (x->side.graph_cache.get_number_of_nodes() != x->side_nodes) {gather(); fail("instances-interfere", "a graph only used from inside callbacks has the wrong number of nodes");}
    cbs += x->callbacks;
    pubs += x->published;
    checks += x->checked;
    sides += x->side_nodes;
    h = vh::mix(h ^ model_hash(x->s->m));
  }
  vh::count("executions");
  vh::count("threads_run", nt);
  vh::count("events", cbs + checks);
  vh::count("concurrent_checks", checks);
  vh::count("messages_compared", pubs);
  vh::count("callbacks_observed", cbs);
  vh::count("operations_inside_others", sides);
  vh::count("context_switches", st.switches);
  vh::distinct(h);
  if (vh::want_sample()) {vh::sample(fmt("%zu threads x %zu rounds, each on its own graph: %llu comparisons", nt, rounds, static_cast<unsigned long long>(checks)));}
}
}  // namespace

int main(int argc, char ** argv)
{
  return vh::run(
    argc, argv, {
      {"g14", mixed},
      {"g13c", apart},
#ifdef VH_CONTROLLED
      {"g08c", [](Case & c) {linearizable(c, true);}},
      {"g09", [](Case & c) {linearizable(c, false);}},
      {"c03", [](Case & c) {context_conc(c, false);}},
      {"c04", [](Case & c) {context_conc(c, true);}},
#endif
    });
}
