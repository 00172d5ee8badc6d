// Sequential monitors of the graph cache: every operation of a random history is mirrored in the
// reference model and the public observations are compared with it.
#include <cstdlib>

#include "graph_model.hpp"
#include "rcutils/testing/fault_injection.h"
#include "rmw/error_handling.h"

using namespace gm;
using vh::Case;
using vh::fail;
using vh::fmt;

namespace
{
using Weights = std::array<int, N_OPS>;
//                      ADDW ADDR REMW REMR ADDP REMP UPD ADDN REMN ASSW DISW ASSR DISR
const Weights kEndpoints{{12, 12, 5, 5, 2, 1, 2, 2, 1, 2, 1, 2, 1}};
const Weights kNodes{{4, 4, 1, 1, 5, 2, 6, 8, 4, 3, 2, 3, 2}};
const Weights kAttrib{{8, 8, 2, 2, 4, 2, 5, 6, 2, 8, 3, 8, 3}};
const Weights kDiscovery{{5, 5, 2, 2, 5, 3, 14, 2, 1, 2, 1, 2, 1}};
const Weights kLocal{{4, 4, 1, 1, 3, 1, 2, 8, 4, 8, 5, 8, 5}};

struct Profile
{
  Weights w;
  unsigned mask;
  bool plain;
  bool messages;
};
const std::map<std::string, Profile> kProfiles{
  {"g01", {kEndpoints, O_COUNT | O_ENDS, false, false}},
  {"g02", {kEndpoints, O_TOPICS, false, false}},
  {"g03", {kAttrib, O_ENDS, false, false}},
  {"g04", {kNodes, O_NODES, false, false}},
  {"g05", {kAttrib, O_BYNODE, false, false}},
  {"g06", {kDiscovery, O_ALL, false, false}},
  {"g07", {kLocal, O_ALL, false, true}},
  {"g12", {kAttrib, O_DUMP, true, false}},
};

void history(Case & c, const Profile & p)
{
  const bool grown = c.rng.chance(1, c.thorough ? 60 : 100);
  const bool bulk = !grown && c.rng.chance(1, c.thorough ? 60 : 150);
  const size_t scale = bulk ? 20 + c.rng.below(60) : (c.rng.chance(1, 5) ? 4 : 1);
  Sim s(c, scale, p.plain);
  s.judge_messages = p.messages;
  if (!(p.mask & (O_TOPICS | O_NODES | O_DUMP)) && c.rng.chance(1, 4)) {
    // names that agree up to a zero byte, where only lookups and no listing of them is judged
    if (!(p.mask & O_BYNODE)) {for (char x : {'a', 'b'}) {s.p.topics.push_back(s.p.topics[0] + std::string(1, 0) + x);}}
    if (!(p.mask & O_ENDS)) {
      for (char x : {'a', 'b'}) {
        s.p.names.push_back(s.p.names[0] + std::string(1, 0) + x);
        s.p.nss.push_back(s.p.nss[0] + std::string(1, 0) + x);
      }
    }
  }
#ifdef VH_ACCOUNT
  if (c.index % 2000 == 777) {
    s.huge();
    s.observe(p.mask, true);
    for (int i = 0; i < 20; ++i) {s.step(s.pick(p.w));}
    s.observe(p.mask, false);
    vh::distinct(model_hash(s.m));
    return;
  }
#endif
  const size_t n = bulk ? 600 + c.rng.below(1500) : 8 + c.rng.below(c.thorough ? 140 : 60);
  const size_t every = bulk ? n / 4 : 1 + c.rng.below(6);
  Weights w = p.w;
  // Vary the mix from case to case.
  for (auto & x : w) {x = static_cast<int>(x * (1 + c.rng.below(4)));}
  s.observe(p.mask, false);   // the empty graph
  if (grown) {
    s.grow();
    s.observe(p.mask, true);
  }
  for (size_t i = 0; i < n; ++i) {
    Op op = s.pick(w);
    if (!s.step(op)) {continue;}
    vh::count("events");
    vh::count(kOpName[op]);
    if (s.rejected) {vh::count("rejected_operations");}
    if (i % every == every - 1) {
      s.observe(p.mask, false);
      vh::distinct(model_hash(s.m));
    }
  }
  s.observe(p.mask, true);
  vh::distinct(model_hash(s.m));
  if (vh::want_sample()) {
    std::string t;
    for (size_t i = 0; i < c.log.size() && i < 8; ++i) {t += c.log[i] + "; ";}
    vh::sample(fmt("case %llu, %zu operations: ", static_cast<unsigned long long>(c.index), n) + t + "...");
  }
}

// G08: the change callback
void callback(Case & c)
{
  Sim s(c, c.rng.chance(1, 5) ? 4 : 1);
  struct Cb { uint64_t n = 0; };
  std::vector<std::unique_ptr<Cb>> cbs;
  std::vector<std::weak_ptr<int>> held;   // what each callback holds
  int cur = -1;               // index of the installed callback
  auto quietly = [&](const char * what, const std::function<void ()> & f) {
      std::vector<uint64_t> ran;
      for (auto & b : cbs) {ran.push_back(b->n);}
      f();
      for (size_t k = 0; k < ran.size(); ++k) {
        if (cbs[k]->n != ran[k]) {fail("callback-run-by-installing", fmt("%s ran callback #%zu", what, k));}
      }
      for (size_t k = 0; k < held.size(); ++k) {
        const long uses = held[k].use_count();
        if (static_cast<int>(k) == cur) {
          if (uses < 1) {fail("callback-lost", fmt("after %s the installed callback #%zu is gone", what, k));}
        } else if (uses != 0) {
          fail("callback-not-released", fmt("after %s callback #%zu is still held", what, k));
        }
      }
    };
  Weights w = kNodes;
  for (auto & x : w) {x = static_cast<int>(x * (1 + c.rng.below(4)));}
  const size_t n = 10 + c.rng.below(c.thorough ? 150 : 60);
  for (size_t i = 0; i < n; ++i) {
    switch (c.rng.below(12)) {
      case 0: {
          cbs.emplace_back(new Cb);
          Cb * cb = cbs.back().get();
          cur = static_cast<int>(cbs.size()) - 1;
          std::shared_ptr<int> own(new int(cur));
          held.push_back(own);
          const uint64_t form = c.rng.below(3);
          std::function<void()> f = [cb, own]() {cb->n++;};
          own.reset();
          quietly("set_on_change_callback", [&]() {
              if (form == 0) {
                s.g->set_on_change_callback([f]() {f();});
              } else if (form == 1) {
                s.g->set_on_change_callback(f);
                if (!f) {fail("callback-taken", "set_on_change_callback() emptied the caller's function");}
              } else {
                s.g->set_on_change_callback(std::move(f));
              }
              f = nullptr;   // the cache keeps its own copy
            });
          c.note(fmt("set_on_change_callback(#%d)", cur));
          vh::count("callbacks_installed");
          break;
        }
      case 1:
        if (c.rng.chance(1, 3)) {
          cur = -1;
          const bool clear = c.rng.chance(1, 2);
          quietly(clear ? "clear_on_change_callback" : "set_on_change_callback(empty)", [&]() {
              if (clear) {s.g->clear_on_change_callback();} else {s.g->set_on_change_callback(std::function<void()>());}
            });
          c.note("clear_on_change_callback()");
          vh::count("callbacks_cleared");
        }
        break;
      default: break;
    }
    std::vector<uint64_t> before;
    for (auto & b : cbs) {before.push_back(b->n);}
    bool query = c.rng.chance(1, 5);
    Op op = ADD_W;
    if (query) {
      s.observe(O_ALL, false);
      dump(*s.g);
      vh::count("query_rounds");
    } else {
      op = s.pick(w);
      if (!s.step(op)) {continue;}
      vh::count("events");
    }
    for (size_t k = 0; k < cbs.size(); ++k) {
      uint64_t d = cbs[k]->n - before[k];
      if (static_cast<int>(k) != cur) {
        if (d) {fail("stale-callback", fmt("callback #%zu ran %llu times after it was replaced or cleared", k, static_cast<unsigned long long>(d)));}
        continue;
      }
      vh::count("callback_checks");
      if (query) {
        if (d) {fail("callback-on-query", fmt("queries ran the change callback %llu times", static_cast<unsigned long long>(d)));}
      } else if (s.changed) {
        if (d != 1) {
          fail(d ? "callback-repeated" : "callback-missing", fmt("%s changed the graph, the change callback ran %llu times", kOpName[op], static_cast<unsigned long long>(d)));
        }
        vh::count("callbacks_observed");
      } else if (s.rejected) {
        if (d) {fail("callback-on-noop", fmt("%s had no effect, yet the change callback ran %llu times", kOpName[op], static_cast<unsigned long long>(d)));}
        vh::count("silent_noops_observed");
      } else if (d > 1) {
        fail("callback-repeated", fmt("%s ran the change callback %llu times", kOpName[op], static_cast<unsigned long long>(d)));
      }
    }
    vh::distinct(vh::mix(model_hash(s.m) + static_cast<uint64_t>(cur + 1)));
  }
  if (vh::want_sample()) {
    std::string t;
    for (size_t i = 0; i < c.log.size() && i < 10; ++i) {t += c.log[i] + "; ";}
    vh::sample(t);
  }
}

void build(Sim & s, size_t n)
{
  Weights w = kAttrib;
  for (size_t i = 0; i < n; ++i) {
    if (s.step(s.pick(w))) {vh::count("events");}
  }
}

// G10: allocation failures at every point of every query
void faults(Case & c)
{
  const bool bulk = c.rng.chance(1, 100);
  Sim s(c, bulk ? 12 : 1);
  if (c.rng.chance(1, 400)) {s.grow();}
  build(s, bulk ? 150 : 10 + c.rng.below(60));
  const uint64_t mh = model_hash(s.m);
  const int td = c.rng.chance(1, 2) ? 0 : static_cast<int>(c.rng.below(kTopicDem));
  const int yd = static_cast<int>(c.rng.below(kTypeDem));
  struct Q { const char * name; std::function<rmw_ret_t(Tracker &)> call; };
  std::vector<Q> qs;
  std::vector<NodeRec> nr;
  Topics tp;
  std::vector<EndRec> er;
  const GraphCache & g = *s.g;
  for (bool e : {false, true}) {
    qs.push_back({e ? "node listing with enclaves" : "node listing", [&, e](Tracker & t) {return q_nodes(g, e, nr, t);}});
  }
  qs.push_back({"topic names and types", [&](Tracker & t) {return q_topics(g, td, yd, tp, t);}});
  std::string topic = c.rng.pick(s.p.topics);
  if (!s.m.w.empty() && c.rng.chance(3, 4)) {topic = s.m.w.begin()->second.topic;}
  for (bool rd : {false, true}) {
    qs.push_back({rd ? "readers by topic" : "writers by topic", [&, rd](Tracker & t) {return q_ends(g, rd, topic, yd, er, t);}});
  }
  for (auto & p : s.m.parts) {
    for (auto & n : p.second.nodes) {
      if (n.readers.empty() && n.writers.empty()) {continue;}
      const Node * np = &n;
      for (bool rd : {false, true}) {
        if (c.rng.chance(1, 2) || qs.size() > 12) {continue;}
        qs.push_back({rd ? "readers by node" : "writers by node",
            [&, np, rd](Tracker & t) {return q_by_node(g, rd, np->name, np->ns, td, yd, tp, t);}});
      }
    }
  }
  for (auto & q : qs) {
    Tracker ok;
    rmw_ret_t r0 = q.call(ok);
    if (r0 != RMW_RET_OK) {fail("query-failed", fmt("%s returned %d without any failure", q.name, r0));}
    for (bool sticky : {false, true}) {
      // every allocation point of small answers, a spread of points of large ones
      const uint64_t stride = ok.allocs > 400 ? ok.allocs / 60 + 1 : 1;
      for (uint64_t k = 0; k < ok.allocs; k += stride) {
        Tracker t;
        t.fail_at = static_cast<int64_t>(k);
        t.sticky = sticky;
        c.note(fmt("%s with allocation %llu of %llu failing%s", q.name, static_cast<unsigned long long>(k), static_cast<unsigned long long>(ok.allocs), sticky ? " and all later ones" : ""));
        rmw_reset_error();
        rmw_ret_t r = q.call(t);
        rmw_reset_error();
        if (t.failed == 0) {continue;}   // the answer did not need that allocation this time
        vh::count("alloc_failures_injected");
        if (r != RMW_RET_BAD_ALLOC) {
          fail("alloc-failure-result", fmt("%s: allocation %llu failed, the query returned %d instead of the allocation error", q.name, static_cast<unsigned long long>(k), r));
        }
        vh::distinct(vh::mix(mh ^ vh::hash_str(q.name) ^ (k * 2 + sticky)));
      }
    }
    // failures inside the helpers the query uses
    for (int k = 0; k < 60; ++k) {
      Tracker t;
      c.note(fmt("%s with the helper call %d failing", q.name, k));
      rcutils_fault_injection_set_count(k);
      rmw_ret_t r = RMW_RET_OK;
      try {
        r = q.call(t);
      } catch (...) {
        rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL);
        throw;
      }
      bool fired = rcutils_fault_injection_get_count() == RCUTILS_FAULT_INJECTION_NEVER_FAIL;
      rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL);
      rmw_reset_error();
      if (!fired) {break;}
      vh::count("helper_failures_injected");
      if (r == RMW_RET_OK) {
        fail("helper-failure-hidden", fmt("%s: a helper call failed, the query reported success", q.name));
      }
    }
    // the same query again, with memory available
    Tracker t;
    if (q.call(t) != RMW_RET_OK) {fail("retry-failed", fmt("%s fails after an earlier allocation failure", q.name));}
    vh::count("retries_ok");
  }
  s.observe(O_ALL | O_DUMP * 0, true);   // the graph is what it was
  if (vh::want_sample()) {
    vh::sample(fmt("graph of %zu writers, %zu readers, %zu participants; %zu queries, every allocation point; last: ", s.m.w.size(), s.m.r.size(),
      s.m.parts.size(), qs.size()) + (c.log.empty() ? "" : c.log.back()));
  }
}

// G11: invalid arguments
void invalid(Case & c)
{
  Sim s(c);
  build(s, 5 + c.rng.below(40));
  const GraphCache & g = *s.g;
  vh::Rng & r = c.rng;
  Tracker t;
  const rcutils_allocator_t good = t.get();
  std::vector<std::pair<const char *, rcutils_allocator_t>> bad_allocs;
  bad_allocs.push_back({"zero allocator", rcutils_get_zero_initialized_allocator()});
  for (int i = 0; i < 4; ++i) {
    rcutils_allocator_t a = good;
    if (i == 0) {a.allocate = nullptr;}
    if (i == 1) {a.deallocate = nullptr;}
    if (i == 2) {a.reallocate = nullptr;}
    if (i == 3) {a.zero_allocate = nullptr;}
    bad_allocs.push_back({"allocator missing a function", a});
  }
  auto expect = [&](rmw_ret_t got, const char * q, const std::string & why) {
      c.note(std::string(q) + " with " + why + fmt(" -> %d", got));
      vh::count("invalid_calls");
      vh::count("events");
      if (got != RMW_RET_INVALID_ARGUMENT) {
        fail("invalid-argument-accepted", fmt("%s with %s returned %d", q, why.c_str(), got));
      }
      t.check(q);
      if (t.allocs) {fail("invalid-argument-allocates", fmt("%s with %s allocated memory", q, why.c_str()));}
      rmw_reset_error();
      vh::distinct(vh::hash_str(why, vh::hash_str(q) ^ model_hash(s.m)));
    };
  // counts
  expect(g.get_writer_count(r.pick(s.p.topics), nullptr), "writer count", "null output");
  expect(g.get_reader_count(r.pick(s.p.topics), nullptr), "reader count", "null output");

  char * junk_str[1] = {nullptr};
  auto names_q = [&](const char * why, rcutils_string_array_t * a, rcutils_string_array_t * b, rcutils_string_array_t * e, rcutils_allocator_t * al) {
      rcutils_string_array_t * ptr[3] = {a, b, e};
      rcutils_string_array_t copy[3];
      memset(copy, 0, sizeof(copy));
      for (int i = 0; i < 3; ++i) {if (ptr[i]) {copy[i] = *ptr[i];}}
      expect(g.get_node_names(a, b, e, al), "node listing", why);
      for (int i = 0; i < 3; ++i) {
        if (ptr[i] && (copy[i].size != ptr[i]->size || copy[i].data != ptr[i]->data)) {
          fail("invalid-argument-output", fmt("node listing with %s modified output %d", why, i));
        }
      }
    };
  for (int which = 0; which < 3; ++which) {
    for (int kind = 0; kind < 3; ++kind) {
      rcutils_string_array_t a[3] = {rcutils_get_zero_initialized_string_array(), rcutils_get_zero_initialized_string_array(), rcutils_get_zero_initialized_string_array()};
      rcutils_string_array_t * p[3] = {&a[0], &a[1], &a[2]};
      rcutils_allocator_t al = good;
      if (kind == 0) {
        if (which == 2) {continue;}    // enclaves are optional
        p[which] = nullptr;
      } else if (kind == 1) {
        a[which].size = 1 + r.below(5);
      } else {
        a[which].data = junk_str;
      }
      const char * wn[] = {"names", "namespaces", "enclaves"};
      const char * kn[] = {"null ", "non-zero size in ", "non-null data in "};
      names_q((std::string(kn[kind]) + wn[which]).c_str(), p[0], p[1], p[2], &al);
      if (which != 2) {names_q((std::string(kn[kind]) + wn[which] + " (no enclaves)").c_str(), p[0], p[1], nullptr, &al);}
    }
  }
  {
    rcutils_string_array_t a[3] = {rcutils_get_zero_initialized_string_array(), rcutils_get_zero_initialized_string_array(), rcutils_get_zero_initialized_string_array()};
    names_q("null allocator", &a[0], &a[1], &a[2], nullptr);
    for (auto & b : bad_allocs) {names_q(b.first, &a[0], &a[1], &a[2], &b.second);}
  }
  // names and types
  std::vector<std::pair<std::string, std::string>> nodes;
  for (auto & p : s.m.parts) {
    for (auto & n : p.second.nodes) {nodes.push_back({n.name, n.ns});}
  }
  for (int form = 0; form < 3; ++form) {
    if (form > 0 && nodes.empty()) {continue;}
    auto node = nodes.empty() ? std::pair<std::string, std::string>() : r.pick(nodes);
    auto call = [&](rcutils_allocator_t * al, rmw_names_and_types_t * nt) {
        return form == 0 ? g.get_names_and_types(topic_fn(0), type_fn(0), al, nt) :
               form == 1 ? g.get_reader_names_and_types_by_node(node.first, node.second, topic_fn(0), type_fn(0), al, nt) :
               g.get_writer_names_and_types_by_node(node.first, node.second, topic_fn(0), type_fn(0), al, nt);
      };
    const char * q = form == 0 ? "topic names and types" : form == 1 ? "reader names by node" : "writer names by node";
    rcutils_allocator_t al = good;
    expect(call(&al, nullptr), q, "null output");
    rmw_names_and_types_t nt = rmw_get_zero_initialized_names_and_types();
    expect(call(nullptr, &nt), q, "null allocator");
    for (auto & b : bad_allocs) {
      expect(call(&b.second, &nt), q, b.first);
      if (nt.names.size || nt.names.data || nt.types) {fail("invalid-argument-output", fmt("%s with an invalid allocator modified its output", q));}
    }
    for (int kind = 0; kind < 3; ++kind) {
      nt = rmw_get_zero_initialized_names_and_types();
      rcutils_string_array_t junk_types = rcutils_get_zero_initialized_string_array();
      if (kind == 0) {nt.names.size = 1 + r.below(4);}
      if (kind == 1) {nt.names.data = junk_str;}
      if (kind == 2) {nt.types = &junk_types;}
      rmw_names_and_types_t copy = nt;
      expect(call(&al, &nt), q, kind == 0 ? "non-zero size" : kind == 1 ? "non-null names" : "non-null types");
      if (nt.names.size != copy.names.size || nt.names.data != copy.names.data || nt.types != copy.types) {
        fail("invalid-argument-output", fmt("%s with a non-zero output modified it", q));
      }
    }
  }
  s.observe(O_ALL, true);    // nothing changed, valid queries still work
  if (vh::want_sample()) {vh::sample(c.log.empty() ? "" : c.log.back());}
}

// G13: queries do not change anything and answers repeat; instances do not influence each other
void readonly(Case & c)
{
  Sim a(c), b(c);
  Weights w = kAttrib;
  size_t n = 10 + c.rng.below(60);
  if (c.rng.chance(1, 30)) {
    (c.rng.chance(1, 2) ? a : b).grow();
    n = 6 + c.rng.below(8);
    vh::count("large_graphs");
  }
  for (size_t i = 0; i < n; ++i) {
    Sim & x = c.rng.chance(1, 2) ? a : b;
    Sim & y = &x == &a ? b : a;
    std::string before = dump(*y.g);
    if (x.step(x.pick(w))) {vh::count("events");}
    if (dump(*y.g) != before) {fail("instances-interfere", "an operation on one cache changed another one");}
    if (c.rng.chance(1, 4)) {
      // queries that fail must not show in later answers, of this or the other cache
      Sim & z = c.rng.chance(1, 2) ? a : b;
      const std::string d0 = dump(*z.g);
      Tracker t;
      t.fail_at = static_cast<int64_t>(c.rng.below(8));
      std::vector<NodeRec> n1;
      Topics t1;
      std::vector<EndRec> e1;
      rmw_ret_t ret;
      const int td = static_cast<int>(c.rng.below(kTopicDem)), yd = static_cast<int>(c.rng.below(kTypeDem));
      switch (c.rng.below(4)) {
        case 0: ret = q_nodes(*z.g, c.rng.chance(1, 2), n1, t); break;
        case 1: ret = q_topics(*z.g, td, yd, t1, t); break;
        case 2: ret = q_ends(*z.g, c.rng.chance(1, 2), c.rng.pick(z.p.topics), yd, e1, t); break;
        default: ret = q_by_node(*z.g, c.rng.chance(1, 2), c.rng.pick(z.p.names), c.rng.pick(z.p.nss), td, yd, t1, t); break;
      }
      rmw_reset_error();
      if (ret != RMW_RET_OK && t.failed) {vh::count("failed_queries");}
      if (dump(*z.g) != d0) {fail("query-changes-state", "the graph dump differs before and after a query that failed");}
      (&z == &a ? b : a).observe(O_ALL, false);
    }
    if (c.rng.chance(1, 3)) {
      std::string d0 = dump(*x.g);
      const int td = static_cast<int>(c.rng.below(kTopicDem)), yd = static_cast<int>(c.rng.below(kTypeDem));
      Tracker t;
      std::vector<NodeRec> n1, n2;
      Topics t1, t2;
      std::vector<EndRec> e1, e2;
      // different questions in between the two identical ones
      std::string topic = c.rng.pick(x.p.topics);
      q_nodes(*x.g, true, n1, t);
      q_topics(*x.g, td, yd, t1, t);
      q_ends(*x.g, true, topic, yd, e1, t);
      q_ends(*x.g, false, c.rng.pick(x.p.topics), yd, e2, t);
      q_topics(*x.g, 3, 1, t2, t);
      check_by_node(*x.g, x.m, c.rng.pick(x.p.names), c.rng.pick(x.p.nss), td, yd);
      check_count(*x.g, x.m, topic);
      q_nodes(*x.g, true, n2, t);
      q_topics(*x.g, td, yd, t2, t);
      q_ends(*x.g, true, topic, yd, e2, t);
      bool same = n1 == n2 && t1 == t2 && e1.size() == e2.size();
      std::set<std::string> s1, s2;
      for (auto & e : e1) {s1.insert(show(e));}
      for (auto & e : e2) {s2.insert(show(e));}
      if (!same || s1 != s2) {fail("query-not-repeatable", "the same question asked twice got different answers");}
      if (dump(*x.g) != d0) {fail("query-changes-state", "the graph dump differs before and after queries");}
      vh::count("repeat_checks");
      x.observe(O_ALL, false);
    }
    vh::distinct(vh::mix(model_hash(a.m)) ^ model_hash(b.m));
  }
  a.observe(O_ALL, true);
  b.observe(O_ALL, true);
  if (vh::want_sample() && !c.log.empty()) {vh::sample(c.log.front() + " ... " + c.log.back());}
}

// G15: exceptions out of demanglers, change callbacks and the C++ heap
struct Boom { int what; };
struct Query
{
  int kind = 0;             // 0, 1 node listing; 2 topics; 3, 4 endpoints of a topic; 5, 6 topics of a node; 7, 8 counts
  std::string a, b;
  int td = 0, yd = 0;
  int64_t boom_at = -1;     // the call of a demangler that throws
  int64_t dem_calls = 0;
  rcutils_string_array_t s[3];
  rmw_names_and_types_t nt;
  rmw_topic_endpoint_info_array_t ea;
  size_t n = 0;
  GraphCache::DemangleFunctionT tf, yf;
  void bind()
  {
    Query * q = this;
    tf = [q](const std::string & x) {q->tick(); return dem_topic(q->td, x);};
    yf = [q](const std::string & x) {q->tick(); return dem_type(q->yd, x);};
  }
  void tick() {if (boom_at >= 0 && dem_calls == boom_at) {dem_calls++; throw Boom{1};} dem_calls++;}
  void zero()
  {
    dem_calls = 0;
    for (auto & x : s) {x = rcutils_get_zero_initialized_string_array();}
    nt = rmw_get_zero_initialized_names_and_types();
    ea = rmw_get_zero_initialized_topic_endpoint_info_array();
  }
  rmw_ret_t call(const GraphCache & g, rcutils_allocator_t & al)
  {
    switch (kind) {
      case 0: case 1: return g.get_node_names(&s[0], &s[1], kind ? &s[2] : nullptr, &al);
      case 2: return g.get_names_and_types(tf, yf, &al, &nt);
      case 3: return g.get_writers_info_by_topic(a, yf, &al, &ea);
      case 4: return g.get_readers_info_by_topic(a, yf, &al, &ea);
      case 5: return g.get_writer_names_and_types_by_node(a, b, tf, yf, &al, &nt);
      case 6: return g.get_reader_names_and_types_by_node(a, b, tf, yf, &al, &nt);
      case 7: return g.get_writer_count(a, &n);
      default: return g.get_reader_count(a, &n);
    }
  }
  bool empty() const {return !s[0].data && !s[1].data && !s[2].data && !nt.names.data && !nt.types && !ea.info_array;}
  void release(rcutils_allocator_t & al)
  {
    for (auto & x : s) {(void)rcutils_string_array_fini(&x);}
    (void)rmw_names_and_types_fini(&nt);
    (void)rmw_topic_endpoint_info_array_fini(&ea, &al);
  }
};
const char * const kQueryName[] = {"node listing", "node listing with enclaves", "topic names and types", "writers by topic", "readers by topic",
  "writers by node", "readers by node", "writer count", "reader count"};

bool identical(const std::vector<Node> & a, const std::vector<Node> & b)
{
  return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const Node & x, const Node & y) {
               return x.name == y.name && x.ns == y.ns && x.readers == y.readers && x.writers == y.writers;});
}
// puts the entries in which the models differ into the graph as s.m has them
void repair(Sim & s, const Model & was)
{
  GraphCache & g = *s.g;
  for (int rd = 0; rd < 2; ++rd) {
    const auto & now = rd ? s.m.r : s.m.w;
    const auto & old = rd ? was.r : was.w;
    for (const auto * side : {&now, &old}) {
      for (auto & e : *side) {
        auto in_now = now.find(e.first);
        if ((in_now != now.end()) == (old.count(e.first) > 0)) {continue;}
        g.remove_entity(to_rmw(e.first, "x"), rd);
        if (in_now != now.end()) {
          const End & x = in_now->second;
          g.add_entity(to_rmw(e.first, "x"), x.topic, x.type, x.hash, to_rmw(x.part, "x"), x.qos, rd);
        }
      }
    }
  }
  const auto & parts = s.m.parts;
  for (const auto * side : {&parts, &was.parts}) {
    for (auto & e : *side) {
      auto in_now = s.m.parts.find(e.first);
      auto in_old = was.parts.find(e.first);
      if (in_now == s.m.parts.end()) {
        g.remove_participant(to_rmw(e.first, "x"));
      } else if (in_old == was.parts.end() || in_old->second.enclave != in_now->second.enclave || !identical(in_old->second.nodes, in_now->second.nodes)) {
        if (in_old == was.parts.end()) {g.remove_participant(to_rmw(e.first, "x"));}
        g.add_participant(to_rmw(e.first, "x"), in_now->second.enclave);
        g.update_participant_entities(to_msg(e.first, in_now->second.nodes));
      }
    }
  }
}

void exceptions(Case & c)
{
  Sim s(c, 1, true);
  std::unique_ptr<Sim> twin(new Sim(c, 1, true));
  twin->p = s.p;
  bool boom = false;
  uint64_t ran = 0;
  s.g->set_on_change_callback([&]() {ran++; if (boom) {boom = false; throw Boom{2};}});
  Weights w = kAttrib;
  for (auto & x : w) {x = static_cast<int>(x * (1 + c.rng.below(3)));}
  const size_t n = 12 + c.rng.below(c.thorough ? 60 : 30);
  auto holds = [&](Sim & x) {
      try {
        vh::Deadline d("lock-left-behind", "a query after an exception does not return: a lock was left behind");
        x.observe(O_ALL | O_DUMP, true);
        return true;
      } catch (const vh::CaseFail &) {
        return false;
      }
    };
  const bool swelling = c.rng.chance(1, 3);
  for (size_t i = 0; i < n; ++i) {
    if (swelling && c.rng.chance(1, 3)) {
      // what was large and is small again
      const Gid pg = c.rng.pick(s.p.pgids);
      std::vector<Node> small, big;
      if (s.m.parts.count(pg) && s.m.parts[pg].nodes.size() < 4 && c.rng.chance(3, 4)) {small = s.m.parts[pg].nodes;}
      big = small;
      for (size_t k = 17 + c.rng.below(40); k > 0; --k) {
        big.emplace_back();
        big.back().name = fmt("swell%zu", k);
        big.back().ns = "/";
      }
      for (auto * x : {&s, twin.get()}) {
        x->g->update_participant_entities(to_msg(pg, big));
        x->g->update_participant_entities(to_msg(pg, small));
        x->m.parts[pg].nodes = small;
      }
      c.note(fmt("discovery messages for %s, %zu nodes and then %zu", gs(pg).c_str(), big.size(), small.size()));
      vh::count("swollen_participants");
    }
    Op op = s.pick(w);
    const bool oom = vh::accounting() && c.rng.chance(1, 2);
    const vh::Rng start = c.rng;
    twin->fault_at = -1;
    if (!twin->step(op)) {
      c.rng = start;
      continue;
    }
    const uint64_t calls = vh::NewFault::calls();
    const bool plain = c.rng.chance(1, 3);
    const uint64_t at = c.rng.below(calls ? calls : 1);
    const vh::Rng next = c.rng;
    vh::count("events");
    bool threw = false;
    const Model m0 = s.m;
    c.rng = start;
    try {
      vh::Deadline d("lock-left-behind", std::string(kOpName[op]) + " does not return: an earlier exception left a lock behind");
      s.fault_at = oom && !plain && calls ? static_cast<int64_t>(at) : -2;
      boom = !oom && !plain;
      s.step(op);
    } catch (const Boom &) {
      threw = true;
      vh::count("callbacks_that_threw");
      c.note(std::string(kOpName[op]) + ": the change callback threw");
    } catch (const std::bad_alloc &) {
      threw = true;
      vh::count("updates_out_of_memory");
      c.note(std::string(kOpName[op]) + fmt(": allocation %llu of %llu threw", static_cast<unsigned long long>(at), static_cast<unsigned long long>(calls)));
    }
    s.fault_at = -2;
    boom = false;
    c.rng = next;
    if (!threw) {
      s.m = twin->m;
      if (c.rng.chance(1, 6)) {
        vh::Deadline d("lock-left-behind", "a query after an exception does not return: a lock was left behind");
        s.observe(O_ALL | O_DUMP, true);
      }
      continue;
    }
    s.m = twin->m;
    bool after = holds(s);
    bool is_before = false;
    if (!after) {
      s.m = m0;
      is_before = holds(s);
    }
    const bool mended = !after && !is_before && oom;
    if (mended) {
      // A failing heap may leave what the operation was about half done, and nothing else: replacing that gives the model again.
      vh::Unaccounted u;
      s.m = twin->m;
      vh::Deadline d("lock-left-behind", std::string(kOpName[op]) + ", interrupted by std::bad_alloc, left a lock behind");
      repair(s, m0);
      vh::count("half_done_out_of_memory");
    }
    if (!after && !is_before && !mended) {
      s.m = twin->m;
      c.note(std::string(kOpName[op]) + " was interrupted by an exception; the graph is neither as before nor as after it");
      s.observe(O_ALL | O_DUMP, true);
      fail("exception-half-done", "the graph is neither as before nor as after " + std::string(kOpName[op]));
    }
    vh::count("interrupted_updates");
    vh::count(after ? "interrupted_but_applied" : "interrupted_and_not_applied");
    if (!after && !mended) {
      // again, undisturbed
      s.m = m0;
      c.rng = start;
      vh::Deadline d("lock-left-behind", std::string(kOpName[op]) + " does not return: an earlier exception left a lock behind");
      s.step(op);
      c.rng = next;
    }
    s.m = twin->m;
    s.observe(O_ALL | O_DUMP, true);
    vh::distinct(vh::mix(model_hash(s.m) + i));
  }
  // queries
  if (c.rng.chance(1, 25)) {
    s.grow();
    vh::count("large_graphs");
  }
  std::vector<std::unique_ptr<Query>> qs;
  for (int k = 0; k < 9; ++k) {
    qs.emplace_back(new Query);
    Query & q = *qs.back();
    q.kind = k;
    q.td = c.rng.chance(2, 3) ? 0 : static_cast<int>(c.rng.below(kTopicDem));
    q.yd = static_cast<int>(c.rng.below(kTypeDem));
    const auto & ends = k == 4 || k == 8 ? s.m.r : s.m.w;
    q.a = c.rng.pick(s.p.topics);
    if (!ends.empty() && c.rng.chance(4, 5)) {q.a = ends.begin()->second.topic;}
    if (k == 5 || k == 6) {
      if (c.rng.chance(1, 8)) {q.b = c.rng.pick(s.p.nss);} else {
        for (auto & p : s.m.parts) {
          for (auto & nd : p.second.nodes) {
            if (q.b.empty() || c.rng.chance(1, 2)) {q.a = nd.name; q.b = nd.ns;}
          }
        }
      }
    }
    q.bind();
  }
  const uint64_t mh = model_hash(s.m);
  for (auto & qp : qs) {
    Query & q = *qp;
    Tracker t;
    rcutils_allocator_t al = t.get();
    q.zero();
    rmw_ret_t r0;
    uint64_t calls;
    {
      vh::NewFault f(-1);
      r0 = q.call(*s.g, al);
      calls = vh::NewFault::calls();
    }
    const int64_t dems = q.dem_calls;
    q.release(al);
    t.check(kQueryName[q.kind]);
    if (r0 != RMW_RET_OK) {continue;}
    const uint64_t total = calls + static_cast<uint64_t>(dems);
    const uint64_t stride = total > 120 ? total / 60 : 1;
    for (uint64_t k = 0; k < total; k += stride) {
      const bool heap = k < calls;
      q.zero();
      q.boom_at = heap ? -1 : static_cast<int64_t>(k - calls);
      int how = 0;
      rmw_ret_t r = RMW_RET_OK;
      {
        vh::Deadline d("lock-left-behind", std::string(kQueryName[q.kind]) + " does not return: an earlier exception left a lock behind");
        try {
          vh::NewFault f(heap ? static_cast<int64_t>(k) : -1);
          r = q.call(*s.g, al);
        } catch (const Boom &) {
          how = 1;
        } catch (const std::bad_alloc &) {
          how = 2;
        }
      }
      q.boom_at = -1;
      rmw_reset_error();
      c.note(std::string(kQueryName[q.kind]) + (heap ? fmt(", heap allocation %llu of %llu throws", static_cast<unsigned long long>(k), static_cast<unsigned long long>(calls)) :
        fmt(", demangling %lld of %lld throws", static_cast<long long>(k - calls), static_cast<long long>(dems))) + fmt(" -> %s", how ? "exception" : "returned"));
      if (!heap && !how && r == RMW_RET_OK && q.dem_calls <= dems && q.dem_calls > static_cast<int64_t>(k - calls)) {
        fail("exception-hidden", std::string(kQueryName[q.kind]) + ": a demangling function threw, the query reported success");
      }
      if (how || r != RMW_RET_OK) {
        if (!q.empty()) {fail("exception-output", std::string(kQueryName[q.kind]) + " ended with an exception and leaves memory in its outputs");}
        t.check(kQueryName[q.kind]);
        vh::count(heap ? "queries_out_of_memory" : "demanglers_that_threw");
      }
      q.release(al);
      t.check(kQueryName[q.kind]);
      vh::distinct(vh::mix(mh ^ vh::mix(k * 16 + static_cast<uint64_t>(q.kind))));
    }
    {
      vh::Deadline d("lock-left-behind", std::string(kQueryName[q.kind]) + " does not return: an earlier exception left a lock behind");
      s.observe(O_ALL | O_DUMP, false);
    }
  }
  {
    vh::Deadline d("lock-left-behind", "queries do not return: an earlier exception left a lock behind");
    s.observe(O_ALL | O_DUMP, true);
    build(s, 5);
    s.observe(O_ALL | O_DUMP, true);
  }
  if (vh::want_sample() && !c.log.empty()) {vh::sample(c.log.front() + " ... " + c.log.back());}
}
}  // namespace

int main(int argc, char ** argv)
{
  std::map<std::string, vh::Mode> modes;
  for (auto & kv : kProfiles) {
    const Profile * p = &kv.second;
    modes[kv.first] = [p](Case & c) {history(c, *p);};
  }
  modes["g08"] = callback;
  modes["g10"] = faults;
  modes["g11"] = invalid;
  modes["g13"] = readonly;
  modes["g15"] = exceptions;
  return vh::run(argc, argv, modes);
}
