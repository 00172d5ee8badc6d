// Monitors of the value-level functions: identifiers, durations, QoS compatibility and resolution,
// type hashes. Every call is compared with an independently written specification.
#include <atomic>
#include <limits.h>
#include <cctype>
#include <cstdlib>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <system_error>

#include "graph_model.hpp"
#include "rcutils/testing/fault_injection.h"
#include "rmw/error_handling.h"
#include "rmw/impl/cpp/key_value.hpp"
#include "rmw/qos_profiles.h"
#include "rmw/qos_string_conversions.h"
#include "rmw/rmw.h"
#include "rmw_dds_common/gid_utils.hpp"
#include "rmw_dds_common/qos.hpp"
#include "rmw_dds_common/time_utils.hpp"
#include "sched.hpp"

using gm::Gid;
using gm::Tracker;
using vh::Case;
using vh::fail;
using vh::fmt;
typedef unsigned long long ull;

extern std::atomic<bool> vh_fini_fails, vh_stringify_fails;   // shim.cpp

namespace
{
// ------------------------------------------------------------------ identifiers
rmw_gid_t * heap_gid(const Gid & g, const char * ident)
{
  // on its own heap block, so that reading past it is seen
  rmw_gid_t * p = static_cast<rmw_gid_t *>(malloc(sizeof(rmw_gid_t)));
  p->implementation_identifier = ident;
  memcpy(p->data, g.data(), 16);
  return p;
}
struct GidP
{
  rmw_gid_t * p;
  GidP(const Gid & g, const char * id) : p(heap_gid(g, id)) {}
  GidP(const GidP &) = delete;
  GidP(GidP && o) : p(o.p) {o.p = nullptr;}
  ~GidP() {free(p);}
};
const char * any_ident(vh::Rng & r)
{
  static const char a[] = "rmw_x", b[] = "rmw_x", c2[] = "rmw_y";
  switch (r.below(5)) {
    case 0: return nullptr;
    case 1: return a;
    case 2: return b;
    case 3: return c2;
    default: return reinterpret_cast<const char *>(static_cast<uintptr_t>(8 + r.below(64)));   // must not be looked at
  }
}
std::vector<Gid> gid_set(vh::Rng & r, size_t n)
{
  gm::Pools p = gm::make_pools(r, 3, true);
  std::vector<Gid> v = p.gids;
  Gid base = v[0];
  for (size_t i = 0; i < 16; ++i) {       // neighbours in every byte
    Gid x = base;
    x[i] ^= static_cast<uint8_t>(r.chance(1, 2) ? 0x80 : 1 + r.below(255));
    v.push_back(x);
  }
  while (v.size() > n) {v.erase(v.begin() + static_cast<long>(r.below(v.size())));}
  return v;
}
void i01(Case & c)
{
  using rmw_dds_common::operator==;
  rmw_dds_common::Compare_rmw_gid_t lt;
  auto set = gid_set(c.rng, 24);
  std::vector<GidP> v;
  for (auto & g : set) {v.emplace_back(g, any_ident(c.rng));}
  std::vector<GidP> w;                     // the same bytes under other names
  for (auto & g : set) {w.emplace_back(g, any_ident(c.rng));}
  const size_t n = set.size();
  std::vector<std::vector<char>> less(n, std::vector<char>(n));
  for (size_t i = 0; i < n; ++i) {
    for (size_t k = 0; k < n; ++k) {
      less[i][k] = lt(*v[i].p, *v[k].p);
      vh::count("events");
      const bool same = set[i] == set[k];
      const std::string who = gm::gs(set[i]) + " and " + gm::gs(set[k]);
      if ((*v[i].p == *v[k].p) != same) {fail("gid-equality", who + (same ? " are the same bytes but compare unequal" : " differ but compare equal"));}
      if ((*v[i].p == *w[k].p) != same) {fail("gid-equality-identifier", who + ": the implementation identifier influences equality");}
      if (static_cast<bool>(less[i][k]) != lt(*w[i].p, *v[k].p)) {fail("gid-order-identifier", who + ": the implementation identifier influences the order");}
      if (same && less[i][k]) {fail("gid-order-irreflexive", gm::gs(set[i]) + " is ordered before itself");}
    }
  }
  for (size_t i = 0; i < n; ++i) {
    for (size_t k = 0; k < n; ++k) {
      const std::string who = gm::gs(set[i]) + " and " + gm::gs(set[k]);
      if (less[i][k] && less[k][i]) {fail("gid-order-asymmetric", who + " are each ordered before the other");}
      if (set[i] != set[k] && !less[i][k] && !less[k][i]) {fail("gid-order-total", who + " differ but neither is ordered first");}
      for (size_t l = 0; l < n; ++l) {
        if (less[i][k] && less[k][l] && !less[i][l]) {
          fail("gid-order-transitive", gm::gs(set[i]) + " < " + gm::gs(set[k]) + " < " + gm::gs(set[l]) + " but not the first before the last");
        }
      }
    }
  }
  // as the key of a map
  std::map<rmw_gid_t, size_t, rmw_dds_common::Compare_rmw_gid_t> m;
  std::map<Gid, size_t> ref;
  for (size_t i = 0; i < n; ++i) {m[*v[i].p] = i; ref[set[i]] = i;}
  if (m.size() != ref.size()) {fail("gid-map", fmt("a map keyed by identifier holds %zu entries instead of %zu", m.size(), ref.size()));}
  for (size_t i = 0; i < n; ++i) {
    auto it = m.find(*w[i].p);
    if (it == m.end() || it->second != ref[set[i]]) {fail("gid-map", "looking up " + gm::gs(set[i]) + " in a map finds the wrong entry");}
  }
  uint64_t h = 0;
  for (auto & g : set) {h = vh::mix(h ^ vh::hash_str(std::string(g.begin(), g.end())));}
  vh::distinct(h);
  if (vh::want_sample()) {vh::sample(fmt("%zu identifiers, all pairs and triples, e.g. ", n) + gm::gs(set[0]) + " " + gm::gs(set[n - 1]));}
}
void i02(Case & c)
{
  using rmw_dds_common::operator<<;
  vh::Rng & r = c.rng;
  std::map<std::string, Gid> printed;
  for (auto & g : gid_set(r, 40)) {
    vh::count("events");
    const char * id = any_ident(r);
    GidP p(g, id);
    std::unique_ptr<rmw_dds_common::msg::Gid> msg(new rmw_dds_common::msg::Gid);
    memset(&msg->data, 0x3c, sizeof(msg->data));
    rmw_dds_common::convert_gid_to_msg(p.p, msg.get());
    if (gm::from_msg(*msg) != g) {fail("gid-to-msg", gm::gs(g) + " became " + gm::gs(gm::from_msg(*msg)) + " in the message");}
    if (memcmp(p.p->data, g.data(), 16) || p.p->implementation_identifier != id) {fail("gid-to-msg-source", "converting " + gm::gs(g) + " modified it");}
    Gid other;
    for (auto & b : other) {b = static_cast<uint8_t>(r.u64());}
    GidP q(other, id);
    rmw_dds_common::convert_msg_to_gid(msg.get(), q.p);
    if (memcmp(q.p->data, g.data(), 16)) {fail("msg-to-gid", gm::gs(g) + " came back as " + vh::hex(q.p->data, 16));}
    if (q.p->implementation_identifier != id) {fail("msg-to-gid-identifier", "converting a message changed the implementation identifier");}
    if (gm::from_msg(*msg) != g) {fail("msg-to-gid-source", "converting the message modified it");}
    std::ostringstream os;
    const int before = static_cast<int>(r.below(100000)), after = 10 + static_cast<int>(r.below(100000));
    os << before << ' ' << *p.p << ' ' << after;
    std::string s = os.str();
    std::string head = std::to_string(before) + " ", tail = " " + std::to_string(after);
    if (s.size() < head.size() + tail.size() || s.compare(0, head.size(), head) || s.compare(s.size() - tail.size(), tail.size(), tail)) {
      fail("gid-print-stream", "printing " + gm::gs(g) + " between decimal numbers gave '" + vh::esc(s) + "'");
    }
    s = s.substr(head.size(), s.size() - head.size() - tail.size());
    {      // nothing else about the stream changes
      std::ostringstream ot;
      const char fill = r.chance(1, 2) ? ' ' : static_cast<char>('!' + r.below(90));
      const std::streamsize prec = static_cast<std::streamsize>(r.below(30));
      std::ios::fmtflags fl = ot.flags();
      static const std::ios::fmtflags extra[] = {std::ios::boolalpha, std::ios::showbase, std::ios::uppercase, std::ios::showpos, std::ios::showpoint, std::ios::scientific,
        std::ios::fixed, std::ios::left, std::ios::internal, std::ios::unitbuf, std::ios::skipws};
      for (auto x : extra) {if (r.chance(1, 6)) {fl ^= x;}}
      fl &= ~std::ios::basefield;
      const std::ios::fmtflags base = r.chance(1, 3) ? std::ios::hex : r.chance(1, 3) ? std::ios::oct : std::ios::dec;
      ot.flags(fl | base);
      ot.fill(fill);
      ot.precision(prec);
      const bool bad = r.chance(1, 8);
      if (bad) {ot.setstate(std::ios::failbit);}
      ot << *p.p;
      if ((ot.flags() != (fl | std::ios::dec) && ot.flags() != (fl | base)) || ot.fill() != fill || ot.precision() != prec) {
        fail("gid-print-format", fmt("printing an identifier changed the format of the stream: flags %x to %x, fill %d to %d, precision %ld to %ld", static_cast<unsigned>(fl | std::ios::dec),
          static_cast<unsigned>(ot.flags()), fill, ot.fill(), static_cast<long>(prec), static_cast<long>(ot.precision())));
      }
      if (ot.fail() != bad) {fail("gid-print-state", "printing an identifier changed the error state of the stream");}
      vh::count("streams_checked");
    }
    auto ins = printed.emplace(s, g);
    if (!ins.second && ins.first->second != g) {fail("gid-print-ambiguous", gm::gs(g) + " and " + gm::gs(ins.first->second) + " print the same: " + vh::esc(s));}
    // sixteen dot-separated hexadecimal numbers
    std::vector<long> v;
    std::stringstream ss(s);
    std::string tok;
    bool ok = !s.empty() && s.back() != '.';
    while (std::getline(ss, tok, '.')) {
      char * e = nullptr;
      v.push_back(strtol(tok.c_str(), &e, 16));
      ok = ok && !tok.empty() && *e == 0;
    }
    ok = ok && v.size() == 16;
    for (size_t i = 0; ok && i < 16; ++i) {ok = v[i] == g[i];}
    if (!ok) {fail("gid-print", gm::gs(g) + " is printed as '" + vh::esc(s) + "'");}
    vh::distinct(vh::hash_str(s));
    if (vh::want_sample()) {vh::sample(gm::gs(g) + " printed as " + s);}
  }
}

// ------------------------------------------------------------------ durations
typedef unsigned __int128 u128;
u128 total(const rmw_time_t & t) {return static_cast<u128>(t.sec) * 1000000000u + t.nsec;}
const u128 kInf = static_cast<u128>(INT64_MAX);
u128 clamped(const rmw_time_t & t) {return std::min(total(t), kInf);}
std::string ts(const rmw_time_t & t) {return fmt("{%llu,%llu}", static_cast<ull>(t.sec), static_cast<ull>(t.nsec));}
uint64_t edge64(vh::Rng & r)
{
  static const uint64_t base[] = {0, 1, 1000000000ull, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 999999999ull,
    2147483647000000000ull, 2147483646000000000ull, 2147483648000000000ull, 9223372036854775807ull, 9223372036854775808ull, ~0ull, 9223372036ull, 854775807ull,
    18446744073000000000ull, 1999999999ull, 2147483647999999999ull};
  switch (r.below(4)) {
    case 0: return base[r.below(19)];
    case 1: return base[r.below(19)] + r.below(5) - 2;
    case 2: return base[r.below(19)] - r.below(19) * 1000000000ull;
    default: return r.u64() >> r.below(64);
  }
}
void t01(Case & c)
{
  vh::Rng & r = c.rng;
  for (int i = 0; i < 500; ++i) {
    rmw_time_t t;
    t.nsec = edge64(r);
    t.sec = edge64(r);
    if (r.chance(1, 3)) {     // near the limit of the representable range
      u128 lim = static_cast<u128>(INT_MAX) * 1000000000u + 999999999u;
      u128 want = lim + r.below(7) - 3;
      t.nsec = r.chance(1, 2) ? r.below(1000000000ull) : r.below(4) * 1000000000ull + r.below(3);
      t.sec = static_cast<uint64_t>((want - std::min<u128>(want, t.nsec)) / 1000000000u);
    }
    rmw_time_t got = rmw_dds_common::clamp_rmw_time_to_dds_time(t);
    vh::count("events");
    const u128 lim = static_cast<u128>(INT_MAX) * 1000000000u + 999999999u;
    const u128 w = std::min(total(t), lim);
    rmw_time_t want;
    want.sec = static_cast<uint64_t>(w / 1000000000u);
    want.nsec = static_cast<uint64_t>(w % 1000000000u);
    if (got.sec != want.sec || got.nsec != want.nsec) {fail("clamp", ts(t) + " was clamped to " + ts(got) + " instead of " + ts(want));}
    rmw_time_t again = rmw_dds_common::clamp_rmw_time_to_dds_time(got);
    if (again.sec != got.sec || again.nsec != got.nsec) {fail("clamp-idempotent", ts(got) + " was changed by clamping it again");}
    vh::count(total(t) > lim ? "saturated" : t.nsec >= 1000000000ull ? "normalised" : "unchanged");
    vh::distinct(vh::mix(t.sec) ^ t.nsec);
    if (vh::want_sample()) {vh::sample(ts(t) + " -> " + ts(got));}
  }
}

// ------------------------------------------------------------------ QoS
const rmw_qos_reliability_policy_t kRel[] = {RMW_QOS_POLICY_RELIABILITY_RELIABLE, RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT,
  RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_RELIABILITY_UNKNOWN};
const rmw_qos_durability_policy_t kDur[] = {RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL, RMW_QOS_POLICY_DURABILITY_VOLATILE,
  RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_DURABILITY_UNKNOWN};
const rmw_qos_liveliness_policy_t kLiv[] = {RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC, RMW_QOS_POLICY_LIVELINESS_AUTOMATIC,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_POLICY_LIVELINESS_UNKNOWN};

rmw_time_t duration(vh::Rng & r)
{
  static const rmw_time_t s[] = {{0, 0}, {0, 0}, {9223372036ull, 854775807ull}, {0, 1}, {1, 0}, {0, 1000000000ull}, {0, 999999999ull}, {0, 1000000001ull},
    {0, 2000000000ull}, {2, 0}, {1, 999999999ull}, {1, 1000000000ull}, {0, 3500000000ull}, {3, 500000000ull}, {3, 499999999ull}, {~0ull, ~0ull},
    {9223372036ull, 854775805ull}, {9223372037ull, 0}, {0, 9223372036854775807ull}, {0, ~0ull}, {9223372035ull, 1854775807ull}, {100, 0}, {0, 100}};
  if (r.chance(5, 6)) {return s[r.below(23)];}
  rmw_time_t t;
  t.sec = r.u64() >> r.below(64);
  t.nsec = r.u64() >> r.below(64);
  return t;
}
void junk_fields(vh::Rng & r, rmw_qos_profile_t & q)
{
  q.history = static_cast<rmw_qos_history_policy_e>(r.below(4));
  q.depth = r.u64() >> r.below(64);
  q.lifespan = duration(r);
  q.avoid_ros_namespace_conventions = r.chance(1, 2);
}
rmw_qos_profile_t profile(vh::Rng & r, bool concrete)
{
  rmw_qos_profile_t q;
  memset(&q, 0, sizeof(q));
  junk_fields(r, q);
  const uint64_t n = concrete ? 2 : 4;
  q.reliability = kRel[r.below(n)];
  q.durability = kDur[r.below(n)];
  q.liveliness = kLiv[r.below(n)];
  q.deadline = duration(r);
  q.liveliness_lease_duration = duration(r);
  return q;
}
std::string qs(const rmw_qos_profile_t & q)
{
  auto rel = q.reliability == kRel[0] ? "reliable" : q.reliability == kRel[1] ? "best_effort" : q.reliability == kRel[2] ? "system_default" : q.reliability == kRel[3] ? "unknown" : "best_available";
  auto dur = q.durability == kDur[0] ? "transient_local" : q.durability == kDur[1] ? "volatile" : q.durability == kDur[2] ? "system_default" : q.durability == kDur[3] ? "unknown" : "best_available";
  auto liv = q.liveliness == kLiv[0] ? "manual_by_topic" : q.liveliness == kLiv[1] ? "automatic" : q.liveliness == kLiv[2] ? "system_default" : q.liveliness == kLiv[3] ? "unknown" : "best_available";
  return fmt("[%s %s %s deadline ", rel, dur, liv) + ts(q.deadline) + " lease " + ts(q.liveliness_lease_duration) + "]";
}
enum Pol { P_REL, P_DUR, P_LIV, P_DL, P_LEASE, P_N };
struct Verdict
{
  bool err[P_N] = {}, warn[P_N] = {};
  bool any_err = false, any_warn = false;
  rmw_qos_compatibility_type_t v() const {return any_err ? RMW_QOS_COMPATIBILITY_ERROR : any_warn ? RMW_QOS_COMPATIBILITY_WARNING : RMW_QOS_COMPATIBILITY_OK;}
};
// request-versus-offered
int level(int i) {return i == 0 ? 2 : i == 1 ? 1 : i == 4 ? 3 : 0;}   // strong, weak, not known, best available (decides nothing)
Verdict verdict(const rmw_qos_profile_t & p, const rmw_qos_profile_t & s)
{
  Verdict v;
  auto pol = [&](int w, int pl, int sl) {
      v.err[w] = pl == 1 && sl == 2;
      v.warn[w] = (pl == 0 && sl == 0) || (pl == 0 && sl == 2) || (pl == 1 && sl == 0);
    };
  auto idx = [](auto & arr, auto x) {for (int i = 0; i < 4; ++i) {if (arr[i] == x) {return i;}} return 4;};
  pol(P_REL, level(idx(kRel, p.reliability)), level(idx(kRel, s.reliability)));
  pol(P_DUR, level(idx(kDur, p.durability)), level(idx(kDur, s.durability)));
  pol(P_LIV, level(idx(kLiv, p.liveliness)), level(idx(kLiv, s.liveliness)));
  auto dur = [](const rmw_time_t & t) {return t.sec == 0 && t.nsec == 0 ? kInf : clamped(t);};   // unspecified asks for nothing
  v.err[P_DL] = dur(s.deadline) < dur(p.deadline);
  v.err[P_LEASE] = dur(s.liveliness_lease_duration) < dur(p.liveliness_lease_duration);
  for (int i = 0; i < P_N; ++i) {
    v.any_err = v.any_err || v.err[i];
    v.any_warn = v.any_warn || v.warn[i];
  }
  return v;
}
// A side that still says best-available: neither undetermined nor an offer or a request.
void best_left(vh::Rng & r, rmw_qos_profile_t & q)
{
  switch (r.below(3)) {
    case 0: q.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE; break;
    case 1: q.durability = RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE; break;
    default: q.liveliness = RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE; break;
  }
  vh::count("best_available_sides");
}
const char * vs(int v) {return v == RMW_QOS_COMPATIBILITY_OK ? "OK" : v == RMW_QOS_COMPATIBILITY_WARNING ? "WARNING" : v == RMW_QOS_COMPATIBILITY_ERROR ? "ERROR" : "?";}

void q01(Case & c)
{
  vh::Rng & r = c.rng;
  // all combinations of the three discrete policies on both sides
  for (uint64_t k = 0; k < 4096; ++k) {
    rmw_qos_profile_t p = profile(r, false), s = profile(r, false);
    if (k % 4 != 3) {      // durations that do not decide, so that the discrete policies do
      p.deadline = {0, 0};
      if (r.chance(1, 2)) {p.deadline = s.deadline;} else if (r.chance(1, 2)) {s.deadline = {0, 0};} else {s.deadline = {9223372036ull, 854775807ull};}
      if (r.chance(1, 2)) {p.liveliness_lease_duration = s.liveliness_lease_duration;} else {s.liveliness_lease_duration = {0, 0};}
    }
    p.reliability = kRel[k & 3];
    s.reliability = kRel[k >> 2 & 3];
    p.durability = kDur[k >> 4 & 3];
    s.durability = kDur[k >> 6 & 3];
    p.liveliness = kLiv[k >> 8 & 3];
    s.liveliness = kLiv[k >> 10 & 3];
    if (r.chance(1, 16)) {best_left(r, p);}
    if (r.chance(1, 16)) {best_left(r, s);}
    rmw_qos_compatibility_type_t got = static_cast<rmw_qos_compatibility_type_t>(77);
    rmw_ret_t ret = rmw_dds_common::qos_profile_check_compatible(p, s, &got, nullptr, 0);
    vh::count("events");
    if (ret != RMW_RET_OK) {fail("compatibility-result", fmt("the check returned %d", ret));}
    Verdict w = verdict(p, s);
    if (got != w.v()) {fail("compatibility-verdict", "publisher " + qs(p) + " subscription " + qs(s) + " was judged " + vs(got) + " instead of " + vs(w.v()));}
    vh::count(got == RMW_QOS_COMPATIBILITY_OK ? "verdict_ok" : got == RMW_QOS_COMPATIBILITY_WARNING ? "verdict_warning" : "verdict_error");
    vh::distinct(vh::hash_str(qs(p) + qs(s)));
    if (vh::want_sample() && k > 0 && k % 997 == 0) {vh::sample(qs(p) + " -> " + qs(s) + ": " + vs(got));}
  }
}
std::string lower(std::string s) {for (auto & ch : s) {ch = static_cast<char>(tolower(static_cast<unsigned char>(ch)));} return s;}
// which policy a clause talks about
int clause_policy(const std::string & raw)
{
  const std::string s = lower(raw);
  auto has = [&](const char * x) {return s.find(x) != std::string::npos;};
  if (has("deadline")) {return P_DL;}
  if (has("lease")) {return P_LEASE;}
  if (has("liveliness") || has("manual by topic")) {return P_LIV;}
  if (has("durab") || has("volatile") || has("transient")) {return P_DUR;}
  if (has("reliab") || has("best effort")) {return P_REL;}
  return -1;
}
// A warning says which of the two sides has a policy that is not known, and how.
void names_unknowns(const std::string & raw, int pol, const rmw_qos_profile_t & p, const rmw_qos_profile_t & s)
{
  auto word = [pol](const rmw_qos_profile_t & q) -> std::string {
      const char * x = pol == P_REL ? rmw_qos_reliability_policy_to_str(q.reliability) : pol == P_DUR ? rmw_qos_durability_policy_to_str(q.durability) :
        rmw_qos_liveliness_policy_to_str(q.liveliness);
      std::string w = x ? x : "unknown";
      return w == "unknown" || w == "system_default" ? w : "";
    };
  std::string cl = lower(raw);
  for (auto & ch : cl) {ch = ch == ' ' ? '_' : ch;}
  const std::string a = word(p), b = word(s);
  for (const char * x : {"unknown", "system_default"}) {
    const bool said = cl.find(x) != std::string::npos;
    if (said != (a == x || b == x)) {fail("reason-values", fmt("the clause '%s' %s '%s': ", raw.c_str(), said ? "says" : "does not say", x) + qs(p) + " " + qs(s));}
  }
  const size_t ip = cl.find("publisher"), is = cl.find("subscription");
  if (!a.empty() && !b.empty() && a != b && ip != std::string::npos && is != std::string::npos) {
    if ((cl.find(a) < cl.find(b)) != (ip < is)) {fail("reason-values", "the clause '" + raw + "' takes one side's value for the other's: " + qs(p) + " " + qs(s));}
  }
  vh::count("named_values");
}
void q02(Case & c)
{
  vh::Rng & r = c.rng;
  for (int i = 0; i < 120; ++i) {
    rmw_qos_profile_t p = profile(r, false), s = profile(r, false);
    if (r.chance(1, 16)) {best_left(r, p);}
    if (r.chance(1, 16)) {best_left(r, s);}
    if (r.chance(1, 2)) {
      p.deadline = s.deadline;
      p.liveliness_lease_duration = s.liveliness_lease_duration;
    }
    const Verdict w = verdict(p, s);
    const std::string who = "publisher " + qs(p) + " subscription " + qs(s);
    std::string full;
    // a large buffer first, then small ones
    static const size_t sizes[] = {4096, 1, 2, 3, 16, 40, 64, 100, 128, 256, 512, 2048};
    for (int k = 0; k < 5; ++k) {
      const size_t n = k == 0 ? 4096 : k == 4 ? sizes[r.below(12)] : k == 1 && !full.empty() ? 1 + r.below(full.size() + 3) : k == 2 ? full.size() + r.below(3) : 1 + r.below(300);
      char * buf = n ? static_cast<char *>(malloc(n)) : nullptr;    // exactly that long
      struct F { char * b; ~F() {free(b);} } guard{buf};
      if (n) {
        memset(buf, 'Z', n);
        if (r.chance(1, 2)) {buf[n - 1] = 0;}
      }
      rmw_qos_compatibility_type_t got = RMW_QOS_COMPATIBILITY_ERROR;
      const bool zero_with_buffer = n > 8 && r.chance(1, 20);
      rmw_ret_t ret = rmw_dds_common::qos_profile_check_compatible(p, s, &got, buf, zero_with_buffer ? 0 : n);
      vh::count("events");
      if (ret != RMW_RET_OK) {fail("reason-result", fmt("a reason buffer of %zu bytes made the check return %d: ", n, ret) + who);}
      if (got != w.v()) {fail("reason-verdict", fmt("with a reason buffer of %zu bytes the verdict is %s instead of %s: ", n, vs(got), vs(w.v())) + who);}
      if (zero_with_buffer) {
        if (buf[0] != 'Z' || buf[n / 2] != 'Z') {fail("reason-size-zero", "a reason buffer of size zero was written to");}
        if (k == 0) {full.clear(); k = -1;}
        continue;
      }
      if (!n) {continue;}
      const size_t len = strnlen(buf, n);
      if (len == n) {fail("reason-not-terminated", fmt("the reason in a buffer of %zu bytes is not terminated: ", n) + who);}
      std::string text(buf, len);
      if (k == 0) {
        full = text;
        if (got == RMW_QOS_COMPATIBILITY_OK) {
          if (!text.empty()) {fail("reason-for-ok", "compatible, yet the reason says '" + text + "': " + who);}
          continue;
        }
        // one clause per policy, each ended by a semicolon
        int seen[P_N] = {};
        const std::string tag = got == RMW_QOS_COMPATIBILITY_ERROR ? "ERROR: " : "WARNING: ";
        size_t a = 0;
        while (a < text.size()) {
          size_t b = text.find(';', a);
          if (b == std::string::npos) {fail("reason-clause", "the reason does not end with a semicolon: '" + text + "'");}
          std::string cl = text.substr(a, b - a);
          if (cl.compare(0, tag.size(), tag)) {fail("reason-clause", std::string("verdict ") + vs(got) + " but the reason has the clause '" + cl + "': " + who);}
          int pol = clause_policy(cl);
          if (pol < 0) {fail("reason-clause", "the clause '" + cl + "' names no policy: " + who);}
          seen[pol]++;
          a = b + 1;
          if (got == RMW_QOS_COMPATIBILITY_WARNING && pol <= P_LIV) {names_unknowns(cl, pol, p, s);}
          vh::count("clauses_checked");
        }
        for (int q = 0; q < P_N; ++q) {
          const bool want = got == RMW_QOS_COMPATIBILITY_ERROR ? w.err[q] : w.warn[q];
          static const char * const names[] = {"reliability", "durability", "liveliness", "deadline", "lease duration"};
          if (seen[q] != (want ? 1 : 0)) {
            fail("reason-incomplete", fmt("the reason has %d clauses about %s instead of %d: '%s': ", seen[q], names[q], want ? 1 : 0, text.c_str()) + who);
          }
        }
      } else {
        std::string want = full.substr(0, n - 1);
        if (text != want) {fail("reason-truncation", fmt("in a buffer of %zu bytes the reason is '%s' instead of '%s': ", n, text.c_str(), want.c_str()) + who);}
        if (full.size() > n - 1) {vh::count("truncated_reasons");}
      }
    }
    vh::distinct(vh::hash_str(who));
    if (vh::want_sample() && full.size() > 60) {vh::sample(who + ": " + full);}
  }
}

const rmw_time_t kBestDl = RMW_QOS_DEADLINE_BEST_AVAILABLE;
const rmw_time_t kBestLease = RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE;
bool t_same(const rmw_time_t & a, const rmw_time_t & b) {return a.sec == b.sec && a.nsec == b.nsec;}
rmw_qos_profile_t maybe_best(vh::Rng & r, unsigned chance_of)
{
  rmw_qos_profile_t q = profile(r, false);
  if (!r.chance(1, chance_of)) {q.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE;}
  if (!r.chance(1, chance_of)) {q.durability = RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE;}
  if (!r.chance(1, chance_of)) {q.liveliness = RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE;}
  if (!r.chance(1, chance_of)) {q.deadline = kBestDl;}
  if (!r.chance(1, chance_of)) {q.liveliness_lease_duration = kBestLease;}
  return q;
}
std::vector<rmw_qos_profile_t> endpoints(vh::Rng & r, bool concrete)
{
  std::vector<rmw_qos_profile_t> v(r.chance(1, 300) ? (r.chance(1, 60) ? 65534 + r.below(5) : r.chance(1, 2) ? 254 + r.below(6) : 100 + r.below(500)) : r.chance(1, 12) ? 20 + r.below(60) : r.below(6));
  const bool uniform_rel = r.chance(1, 2), uniform_dur = r.chance(1, 2), uniform_liv = r.chance(1, 2);
  const bool dl0 = r.chance(1, 4), lease0 = r.chance(1, 4);
  // often all alike, or all but one, or all but some
  const uint64_t how = r.below(3);
  const size_t odd = r.chance(1, 4) ? 0 : r.chance(1, 3) ? v.size() - 1 : static_cast<size_t>(r.below(v.size()));
  for (size_t i = 0; i < v.size(); ++i) {
    rmw_qos_profile_t & q = v[i];
    q = profile(r, concrete);
    if (!concrete && r.chance(1, 10)) {best_left(r, q);}
    auto alike = [&]() {return how == 0 ? true : how == 1 ? i != odd : !r.chance(1, 12);};
    if (uniform_rel && alike()) {q.reliability = kRel[0];}
    if (uniform_dur && alike()) {q.durability = kDur[0];}
    if (uniform_liv && alike()) {q.liveliness = kLiv[0];}
    if (dl0) {q.deadline = {0, 0};}
    if (lease0) {q.liveliness_lease_duration = {0, 0};}
  }
  return v;
}
struct Infos
{
  rmw_topic_endpoint_info_array_t a;
  std::vector<rmw_qos_profile_t> copy;
  explicit Infos(const std::vector<rmw_qos_profile_t> & v)
  {
    copy = v;
    a = rmw_get_zero_initialized_topic_endpoint_info_array();
    a.size = v.size();
    if (!v.empty()) {
      a.info_array = static_cast<rmw_topic_endpoint_info_t *>(malloc(v.size() * sizeof(rmw_topic_endpoint_info_t)));
      for (size_t i = 0; i < v.size(); ++i) {
        a.info_array[i] = rmw_get_zero_initialized_topic_endpoint_info();
        a.info_array[i].qos_profile = v[i];
      }
    }
  }
  ~Infos() {free(a.info_array);}
  bool intact() const
  {
    if (a.size != copy.size()) {return false;}
    for (size_t i = 0; i < copy.size(); ++i) {
      if (!gm::qos_eq(copy[i], a.info_array[i].qos_profile)) {return false;}
    }
    return true;
  }
};
// the resolved profile the specification asks for; durations are given by their length
struct Want { rmw_qos_profile_t q; bool dl_len = false, lease_len = false; };
Want best_sub(const std::vector<rmw_qos_profile_t> & pubs, const rmw_qos_profile_t & in)
{
  Want w;
  w.q = in;
  size_t rel = 0, dur = 0, liv = 0;
  rmw_time_t dl{0, 0}, le{0, 0};
  u128 mdl = 0, mle = 0;
  bool anyd = false, anyl = false;
  for (auto & p : pubs) {
    rel += p.reliability == kRel[0];
    dur += p.durability == kDur[0];
    liv += p.liveliness == kLiv[0];
    if (total(p.deadline) != 0 && (!anyd || clamped(p.deadline) > mdl)) {anyd = true; mdl = clamped(p.deadline); dl = p.deadline;}
    if (total(p.liveliness_lease_duration) != 0 && (!anyl || clamped(p.liveliness_lease_duration) > mle)) {
      anyl = true; mle = clamped(p.liveliness_lease_duration); le = p.liveliness_lease_duration;
    }
  }
  if (in.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE) {w.q.reliability = rel == pubs.size() ? kRel[0] : kRel[1];}
  if (in.durability == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE) {w.q.durability = dur == pubs.size() ? kDur[0] : kDur[1];}
  if (in.liveliness == RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE) {w.q.liveliness = liv == pubs.size() ? kLiv[0] : kLiv[1];}
  if (t_same(in.deadline, kBestDl)) {w.q.deadline = dl; w.dl_len = true;}
  if (t_same(in.liveliness_lease_duration, kBestLease)) {w.q.liveliness_lease_duration = le; w.lease_len = true;}
  return w;
}
Want best_pub(const std::vector<rmw_qos_profile_t> & subs, const rmw_qos_profile_t & in)
{
  Want w;
  w.q = in;
  bool manual = false, anyd = false, anyl = false;
  rmw_time_t dl{0, 0}, le{0, 0};
  for (auto & p : subs) {
    manual = manual || p.liveliness == kLiv[0];
    if (total(p.deadline) != 0 && (!anyd || clamped(p.deadline) < clamped(dl))) {anyd = true; dl = p.deadline;}
    if (total(p.liveliness_lease_duration) != 0 && (!anyl || clamped(p.liveliness_lease_duration) < clamped(le))) {
      anyl = true; le = p.liveliness_lease_duration;
    }
  }
  if (in.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE) {w.q.reliability = kRel[0];}
  if (in.durability == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE) {w.q.durability = kDur[0];}
  if (in.liveliness == RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE) {w.q.liveliness = manual ? kLiv[0] : kLiv[1];}
  if (t_same(in.deadline, kBestDl)) {w.q.deadline = dl; w.dl_len = true;}
  if (t_same(in.liveliness_lease_duration, kBestLease)) {w.q.liveliness_lease_duration = le; w.lease_len = true;}
  return w;
}
void cmp_resolved(const Want & w, const rmw_qos_profile_t & got, const std::string & who)
{
  rmw_qos_profile_t a = w.q, b = got;
  auto dur = [&](bool by_len, rmw_time_t & x, rmw_time_t & y, const char * what) {
      // an unspecified duration stays unspecified, others may be written differently
      bool ok = by_len ? (total(x) == 0) == (total(y) == 0) && clamped(x) == clamped(y) : t_same(x, y);
      if (!ok) {fail(std::string("resolved-") + what, who + " resolved to " + qs(got) + ", expected " + qs(w.q));}
      x = y;
    };
  dur(w.dl_len, a.deadline, b.deadline, "deadline");
  dur(w.lease_len, a.liveliness_lease_duration, b.liveliness_lease_duration, "lease");
  if (a.reliability != b.reliability) {fail("resolved-reliability", who + " resolved to " + qs(got) + ", expected " + qs(w.q));}
  if (a.durability != b.durability) {fail("resolved-durability", who + " resolved to " + qs(got) + ", expected " + qs(w.q));}
  if (a.liveliness != b.liveliness) {fail("resolved-liveliness", who + " resolved to " + qs(got) + ", expected " + qs(w.q));}
  if (!gm::qos_eq(a, b)) {fail("resolved-other-field", who + " changed a policy that has no best-available value: " + qs(got));}
}
std::string list(const std::vector<rmw_qos_profile_t> & v)
{
  std::string s = fmt("%zu endpoints", v.size());
  for (size_t i = 0; i < v.size() && i < 6; ++i) {s += " " + qs(v[i]);}
  return s;
}
void best(Case & c, bool sub)
{
  vh::Rng & r = c.rng;
  for (int i = 0; i < 150; ++i) {
    auto v = endpoints(r, false);
    Infos inf(v);
    rmw_qos_profile_t in = maybe_best(r, 3), q = in;
    rmw_ret_t ret = sub ? rmw_dds_common::qos_profile_get_best_available_for_subscription(&inf.a, &q) :
      rmw_dds_common::qos_profile_get_best_available_for_publisher(&inf.a, &q);
    vh::count("events");
    const std::string who = qs(in) + " with " + list(v);
    if (ret != RMW_RET_OK) {fail("resolve-result", fmt("returned %d: ", ret) + who);}
    cmp_resolved(sub ? best_sub(v, in) : best_pub(v, in), q, who);
    if (!inf.intact()) {fail("resolve-input", "the endpoint list was modified: " + who);}
    if (q.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE || q.durability == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE) {fail("resolve-left", "still best-available: " + qs(q));}
    vh::count(v.empty() ? "no_endpoints" : "with_endpoints");
    vh::distinct(vh::hash_str(who));
    if (vh::want_sample() && v.size() > 1) {vh::sample(who + " -> " + qs(q));}
  }
}
void q05(Case & c)
{
  vh::Rng & r = c.rng;
  for (int i = 0; i < 100; ++i) {
    const bool sub = r.chance(1, 2);
    auto v = endpoints(r, true);
    if (sub) {
      // among publishers either all or none leave a duration unspecified
      bool d = r.chance(1, 4), l = r.chance(1, 4);
      for (auto & q : v) {
        while ((total(q.deadline) == 0) != d) {q.deadline = d ? rmw_time_t{0, 0} : duration(r);}
        while ((total(q.liveliness_lease_duration) == 0) != l) {q.liveliness_lease_duration = l ? rmw_time_t{0, 0} : duration(r);}
      }
    }
    for (auto & q : v) {
      if (t_same(q.deadline, kBestDl)) {q.deadline = {1, 0};}
      if (t_same(q.liveliness_lease_duration, kBestLease)) {q.liveliness_lease_duration = {1, 0};}
    }
    Infos inf(v);
    rmw_qos_profile_t q = rmw_qos_profile_best_available;
    // all or some of the policies are to be resolved; those that are not must neither change nor influence the others
    const unsigned fixed = r.chance(1, 2) ? 0 : static_cast<unsigned>(r.below(32));
    rmw_qos_profile_t given = profile(r, true);
    if (t_same(given.deadline, kBestDl)) {given.deadline = {1, 0};}
    if (t_same(given.liveliness_lease_duration, kBestLease)) {given.liveliness_lease_duration = {1, 0};}
    if (fixed & 1) {q.reliability = given.reliability;}
    if (fixed & 2) {q.durability = given.durability;}
    if (fixed & 4) {q.liveliness = given.liveliness;}
    if (fixed & 8) {q.deadline = given.deadline;}
    if (fixed & 16) {q.liveliness_lease_duration = given.liveliness_lease_duration;}
    rmw_ret_t ret = sub ? rmw_dds_common::qos_profile_get_best_available_for_subscription(&inf.a, &q) :
      rmw_dds_common::qos_profile_get_best_available_for_publisher(&inf.a, &q);
    if (ret != RMW_RET_OK) {fail("resolve-result", fmt("returned %d", ret));}
    if (((fixed & 1) && q.reliability != given.reliability) || ((fixed & 2) && q.durability != given.durability) || ((fixed & 4) && q.liveliness != given.liveliness) ||
      ((fixed & 8) && !t_same(q.deadline, given.deadline)) || ((fixed & 16) && !t_same(q.liveliness_lease_duration, given.liveliness_lease_duration)))
    {
      fail("resolve-fixed", "a policy that is not best-available was changed: " + qs(q) + " from " + qs(given));
    }
    // what was given is replaced by what matches everything, to judge the rest
    if (fixed & 1) {q.reliability = sub ? RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT : RMW_QOS_POLICY_RELIABILITY_RELIABLE;}
    if (fixed & 2) {q.durability = sub ? RMW_QOS_POLICY_DURABILITY_VOLATILE : RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;}
    if (fixed & 4) {q.liveliness = sub ? RMW_QOS_POLICY_LIVELINESS_AUTOMATIC : RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC;}
    if (fixed & 8) {q.deadline = rmw_time_t{0, sub ? 0u : 1u};}
    if (fixed & 16) {q.liveliness_lease_duration = rmw_time_t{0, sub ? 0u : 1u};}
    if (fixed) {vh::count("partly_resolved");}
    auto judge = [&](const rmw_qos_profile_t & mine, const rmw_qos_profile_t & other) {
        rmw_qos_compatibility_type_t k = RMW_QOS_COMPATIBILITY_ERROR;
        if (RMW_RET_OK != rmw_dds_common::qos_profile_check_compatible(sub ? other : mine, sub ? mine : other, &k, nullptr, 0)) {fail("compatibility-result", "the check failed");}
        vh::count("events");
        return k;
      };
    for (auto & e : v) {
      if (judge(q, e) != RMW_QOS_COMPATIBILITY_OK) {
        fail("resolved-incompatible", std::string("the ") + (sub ? "subscription" : "publisher") + " resolved to " + qs(q) + ", which does not match " + qs(e) + " of " + list(v));
      }
    }
    // and no stronger demand of a subscription would have matched them all
    if (sub && !v.empty()) {
      auto stronger = [&](const rmw_qos_profile_t & s, const char * what) {
          for (auto & e : v) {if (judge(s, e) == RMW_QOS_COMPATIBILITY_ERROR) {return;}}
          fail("resolved-too-weak", std::string("a stronger ") + what + " than that of " + qs(q) + " would still match all of " + list(v));
        };
      rmw_qos_profile_t s = q;
      if (!(fixed & 1) && q.reliability != kRel[0]) {s.reliability = kRel[0]; stronger(s, "reliability"); s = q;}
      if (!(fixed & 2) && q.durability != kDur[0]) {s.durability = kDur[0]; stronger(s, "durability"); s = q;}
      if (!(fixed & 4) && q.liveliness != kLiv[0]) {s.liveliness = kLiv[0]; stronger(s, "liveliness"); s = q;}
      auto less = [](const rmw_time_t & t, rmw_time_t & o) {
          u128 x = clamped(t);
          if (x <= 1) {return false;}
          x -= 1;
          o = {static_cast<uint64_t>(x / 1000000000u), static_cast<uint64_t>(x % 1000000000u)};
          return true;
        };
      if (!(fixed & 8) && total(q.deadline) && less(q.deadline, s.deadline)) {stronger(s, "deadline"); s = q;}
      if (!(fixed & 16) && total(q.liveliness_lease_duration) && less(q.liveliness_lease_duration, s.liveliness_lease_duration)) {stronger(s, "lease duration"); s = q;}
    }
    vh::distinct(vh::hash_str(list(v) + (sub ? "s" : "p")));
    vh::count(sub ? "subscriptions_resolved" : "publishers_resolved");
    if (vh::want_sample() && v.size() > 1) {vh::sample((sub ? "subscription against " : "publisher against ") + list(v) + " -> " + qs(q));}
  }
}
struct Thrown { int what; };
void q06(Case & c)
{
  vh::Rng & r = c.rng;
  for (int i = 0; i < 60; ++i) {
    const bool sub = r.chance(1, 2);
    Tracker tr;
    rmw_context_t ctx;
    memset(&ctx, 0, sizeof(ctx));
    ctx.options.allocator = tr.get();
    rmw_node_t node;
    memset(&node, 0, sizeof(node));
    node.context = &ctx;
    const std::string topic = r.chance(1, 2) ? "/chatter" : "";
    auto v = endpoints(r, false);
    rmw_qos_profile_t in = r.chance(1, 4) ? profile(r, false) : maybe_best(r, r.chance(1, 2) ? 2 : 1 + static_cast<unsigned>(r.below(6)));
    if (r.chance(1, 3)) {        // exactly one policy to resolve
      in = profile(r, false);
      switch (r.below(5)) {
        case 0: in.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE; break;
        case 1: in.durability = RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE; break;
        case 2: in.liveliness = RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE; break;
        case 3: in.deadline = kBestDl; break;
        default: in.liveliness_lease_duration = kBestLease; break;
      }
    }
    const bool needs = in.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE || in.durability == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE ||
      in.liveliness == RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE || t_same(in.deadline, kBestDl) || t_same(in.liveliness_lease_duration, kBestLease);
    static const rmw_ret_t errs[] = {RMW_RET_ERROR, RMW_RET_BAD_ALLOC, RMW_RET_INCORRECT_RMW_IMPLEMENTATION, RMW_RET_INVALID_ARGUMENT, RMW_RET_TIMEOUT, RMW_RET_UNSUPPORTED,
      RMW_RET_NODE_NAME_NON_EXISTENT, RMW_RET_INVALID_ARGUMENT + 1, -1, 1000};
    const rmw_ret_t err = !r.chance(1, 5) ? RMW_RET_OK : r.chance(1, 6) ? 1 + static_cast<rmw_ret_t>(r.below(100000)) : errs[r.below(10)];
    const bool throws = r.chance(1, 6);
    const uint64_t thrown = r.below(5);
    int calls = 0;
    std::string wrong;
    auto cb = [&](const rmw_node_t * n, rcutils_allocator_t * a, const char * t, bool no_mangle, rmw_topic_endpoint_info_array_t * out) -> rmw_ret_t {
        ++calls;
        if (n != &node) {wrong = "another node was passed on";}
        if (!t || topic != t) {wrong = "another topic name was passed on";}
        if (no_mangle) {wrong = "name mangling was switched off";}
        if (!out || out->size || out->info_array) {wrong = "the endpoint list passed on is not empty";}
        if (!a || a->allocate != ctx.options.allocator.allocate || a->state != ctx.options.allocator.state) {wrong = "the allocator passed on is not that of the context";}
        if (throws) {
          switch (thrown) {
            case 0: throw Thrown{7};
            case 1: throw std::runtime_error("the graph query fails");
            case 2: throw std::bad_alloc();
            case 3: throw std::system_error(EIO, std::generic_category());
            default: throw std::string("not an exception class");
          }
        }
        if (!wrong.empty() || err != RMW_RET_OK) {return err == RMW_RET_OK ? RMW_RET_ERROR : err;}
        if (rmw_topic_endpoint_info_array_init_with_size(out, v.size(), a) != RMW_RET_OK) {return RMW_RET_BAD_ALLOC;}
        for (size_t k = 0; k < v.size(); ++k) {
          out->info_array[k] = rmw_get_zero_initialized_topic_endpoint_info();
          out->info_array[k].qos_profile = v[k];
          (void)!rmw_topic_endpoint_info_set_node_name(&out->info_array[k], "node", a);
          (void)!rmw_topic_endpoint_info_set_topic_type(&out->info_array[k], "type", a);
        }
        return RMW_RET_OK;
      };
    rmw_qos_profile_t q = in;
    rmw_ret_t ret = RMW_RET_OK;
    try {
      ret = sub ? rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(&node, topic.c_str(), &q, cb) :
        rmw_dds_common::qos_profile_get_best_available_for_topic_publisher(&node, topic.c_str(), &q, cb);
    } catch (...) {
      if (!calls || !throws) {throw;}
      vh::count("events");
      vh::count("queries_that_threw");
      rmw_reset_error();
      tr.check("best available for topic");
      if (!gm::qos_eq(q, in)) {fail("topic-query-exception-profile", "the profile was modified although the graph query threw: " + qs(in));}
      if (!needs) {fail("topic-query-count", "the graph was queried for " + qs(in));}
      continue;
    }
    rmw_reset_error();
    vh::count("events");
    const std::string who = qs(in) + " with " + list(v);
    if (!wrong.empty()) {fail("topic-query-arguments", wrong);}
    if (calls != (needs ? 1 : 0)) {fail("topic-query-count", fmt("the graph was queried %d times for ", calls) + who);}
    if (throws && calls) {fail("topic-query-exception-lost", fmt("the graph query threw, %d was returned: ", ret) + who);}
    tr.check("best available for topic");
    if (needs && err != RMW_RET_OK) {
      if (ret != err) {fail("topic-query-error", fmt("the graph query failed with %d, the result is %d", err, ret));}
      if (!gm::qos_eq(q, in)) {fail("topic-query-error-profile", "the profile was modified although the graph query failed: " + who);}
      vh::count("failed_queries");
    } else {
      if (ret != RMW_RET_OK) {fail("resolve-result", fmt("returned %d: ", ret) + who);}
      if (!needs) {
        if (!gm::qos_eq(q, in)) {fail("resolve-nothing", "a profile without best-available policies was modified: " + who);}
        vh::count("nothing_to_resolve");
      } else {
        cmp_resolved(sub ? best_sub(v, in) : best_pub(v, in), q, who);
        vh::count("resolved");
      }
    }
    vh::distinct(vh::hash_str(who) + static_cast<uint64_t>(err));
    if (vh::want_sample() && needs && v.size() > 1) {vh::sample(who + " -> " + qs(q));}
  }
}
void q07(Case & c)
{
  vh::Rng & r = c.rng;
  for (int i = 0; i < 300; ++i) {
    rmw_qos_profile_t in = maybe_best(r, 2), keep = in;
    rmw_qos_profile_t got = rmw_dds_common::qos_profile_update_best_available_for_services(in);
    vh::count("events");
    rmw_qos_profile_t w = keep;
    const rmw_qos_profile_t & d = rmw_qos_profile_services_default;
    int n = 0;
    if (w.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE) {w.reliability = d.reliability; ++n;}
    if (w.durability == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE) {w.durability = d.durability; ++n;}
    if (w.liveliness == RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE) {w.liveliness = d.liveliness; ++n;}
    if (t_same(w.deadline, kBestDl)) {w.deadline = d.deadline; ++n;}
    if (t_same(w.liveliness_lease_duration, kBestLease)) {w.liveliness_lease_duration = d.liveliness_lease_duration; ++n;}
    if (!gm::qos_eq(got, w)) {fail("services-profile", qs(keep) + " became " + qs(got) + " instead of " + qs(w));}
    if (!gm::qos_eq(in, keep)) {fail("services-input", "the input profile was modified");}
    rmw_qos_profile_t again = rmw_dds_common::qos_profile_update_best_available_for_services(got);
    if (!gm::qos_eq(again, got)) {fail("services-idempotent", "resolving " + qs(got) + " again changes it");}
    vh::count("policies_resolved", static_cast<uint64_t>(n));
    vh::distinct(vh::hash_str(qs(keep)));
    if (vh::want_sample() && n > 2) {vh::sample(qs(keep) + " -> " + qs(got));}
  }
}

// ------------------------------------------------------------------ type hashes in user data
rosidl_type_hash_t junk_hash()
{
  rosidl_type_hash_t h;
  memset(&h, 0x6b, sizeof(h));
  return h;
}
// -> 0 absent, 1 value, 2 malformed value
int ref_parse(const std::string & data, rosidl_type_hash_t & out)
{
  auto kv = rmw::impl::cpp::parse_key_value(std::vector<uint8_t>(data.begin(), data.end()));
  auto it = kv.find("typehash");
  memset(&out, 0, sizeof(out));
  if (it == kv.end()) {return 0;}
  std::string v(it->second.begin(), it->second.end());
  v = v.c_str();
  if (v.size() != 7 + 64 || v.compare(0, 7, "RIHS01_")) {return 2;}
  for (size_t i = 0; i < 32; ++i) {
    int x = 0;
    for (size_t k = 0; k < 2; ++k) {
      char ch = v[7 + 2 * i + k];
      int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1;
      if (d < 0) {return 2;}
      x = x * 16 + d;
    }
    out.value[i] = static_cast<uint8_t>(x);
  }
  out.version = 1;
  return 1;
}
rmw_ret_t parse_exact(const std::string & data, rosidl_type_hash_t & out)
{
  uint8_t * p = static_cast<uint8_t *>(malloc(data.empty() ? 1 : data.size()));
  struct F { uint8_t * b; ~F() {free(b);} } guard{p};
  memcpy(p, data.data(), data.size());
  rmw_ret_t r = rmw_dds_common::parse_type_hash_from_user_data(p, data.size(), out);
  rmw_reset_error();
  if (memcmp(p, data.data(), data.size())) {fail("hash-input", "parsing modified the user data");}
  return r;
}
void q08(Case & c)
{
  vh::Rng & r = c.rng;
  for (int i = 0; i < 80; ++i) {
    rosidl_type_hash_t h = gm::rand_hash(r);
    h.version = 1;
    if (r.chance(1, 6)) {memset(h.value, r.chance(1, 2) ? 0xff : 0, sizeof(h.value));}
    std::string s = "previous";
    rmw_ret_t ret = rmw_dds_common::encode_type_hash_for_user_data_qos(h, s);
    vh::count("events");
    if (ret != RMW_RET_OK) {fail("hash-encode-result", fmt("encoding returned %d", ret));}
    if (s.compare(0, 9, "typehash=") || s.empty() || s.back() != ';' || s.find(';') != s.size() - 1) {fail("hash-encode-form", "encoded as '" + vh::esc(s) + "'");}
    rosidl_type_hash_t back = junk_hash();
    auto same = [&](const std::string & data, const char * what) {
        back = junk_hash();
        rmw_ret_t pr = parse_exact(data, back);
        vh::count("events");
        if (pr != RMW_RET_OK || !gm::hash_eq(back, h)) {
          fail("hash-round-trip", fmt("hash %s %s came back as %s (version %u, result %d) from '", vh::hex(h.value, 32).c_str(), what, vh::hex(back.value, 32).c_str(), back.version, pr) + vh::esc(data) + "'");
        }
        vh::count("round_trips");
      };
    same(s, "encoded alone");
    same("enclave=/a/b;" + s, "after another key");
    same(s + "enclave=/a/b;", "before another key");
    same("a=1;b=x-y/z;" + s, "after several keys");
    same(s + std::string(r.below(4), '\0'), "followed by zeros");
    same(s.substr(0, s.size() - 1), "without the final separator");
    std::string up = s;
    for (size_t k = 16; k < up.size(); ++k) {up[k] = static_cast<char>(toupper(static_cast<unsigned char>(up[k])));}
    same(up, "in capitals");
    if (r.chance(1, 20)) {          // among much else
      static const size_t edges[] = {255, 256, 1024, 4096, 32768, 65535, 65536, 70000};
      const size_t n = r.chance(1, 2) ? edges[r.below(8)] : size_t{1} << r.below(17);
      std::string before, after;
      while (before.size() + 70 < n) {before += fmt("key%zu=", before.size()) + std::string(r.chance(1, 8) ? 1 + r.below(n - before.size() - 65) : 1 + r.below(40), 'v') + ";";}
      if (before.size() + 4 <= n) {before += "z=" + std::string(n - before.size() - 3, 'v') + ";";}
      while (after.size() < n / 2) {after += fmt("more%zu=w;", after.size());}
      same(before + s + after, "after and before many keys");
      vh::count("long_data");
    }
    vh::distinct(vh::hash_str(s));
    // two hashes never look the same
    rosidl_type_hash_t h2 = h;
    h2.value[r.below(32)] ^= static_cast<uint8_t>(1u << r.below(8));
    std::string s2;
    if (rmw_dds_common::encode_type_hash_for_user_data_qos(h2, s2) != RMW_RET_OK || s2 == s) {fail("hash-encode-injective", "two different hashes are encoded as '" + vh::esc(s) + "'");}
    // unset
    rosidl_type_hash_t unset = h;
    unset.version = 0;
    std::string e = "previous";
    if (rmw_dds_common::encode_type_hash_for_user_data_qos(unset, e) != RMW_RET_OK || !e.empty()) {fail("hash-encode-unset", "an unset hash is encoded as '" + vh::esc(e) + "'");}
    // damaged and arbitrary data
    for (int k = 0; k < 12; ++k) {
      std::string d = s;
      switch (r.below(9)) {
        case 7: {               // a good value under another key
            static const char * const keys[] = {"TypeHash", "typeHash", "TYPEHASH", "typehas", "ypehash", "typehash0", "xtypehash", "hash", "type", "typehashes",
              "Typehash", "th", "typesupporthash"};
            d = std::string(r.chance(1, 3) ? "x=y;" : "") + keys[r.below(13)] + s.substr(8) + (r.chance(1, 3) ? "z=w;" : "");
            vh::count("hash_under_other_key");
            break;
          }
        case 0: d = d.substr(0, r.below(d.size() + 1)); break;
        case 1: d[r.below(d.size())] = static_cast<char>(r.u64()); break;
        case 2: d.insert(r.below(d.size() + 1), 1, static_cast<char>("=;\0a01_Z"[r.below(8)])); break;
        case 3: d.erase(r.below(d.size()), 1 + r.below(3)); break;
        case 4: {
            d.clear();
            for (size_t n = r.below(200); n > 0; --n) {d += static_cast<char>(r.u64());}
            break;
          }
        case 5: {
            d.clear();
            for (size_t n = r.below(40); n > 0; --n) {d += "=;=;typehashRIHS01_0a\0"[r.below(22)];}
            break;
          }
        case 6: d = "typehash=" + std::string(r.below(200), 'a') + ";"; break;
        default: d = r.chance(1, 2) ? s + s2 : "x=" + s; break;
      }
      rosidl_type_hash_t want;
      int kind = ref_parse(d, want);
      back = junk_hash();
      rmw_ret_t pr = parse_exact(d, back);
      vh::count("events");
      vh::count(kind == 0 ? "without_hash" : kind == 1 ? "with_hash" : "malformed_hash");
      if (kind == 2) {
        if (pr != RMW_RET_ERROR) {fail("hash-malformed", fmt("malformed user data '%s' gave %d", vh::esc(d).c_str(), pr));}
      } else {
        if (pr != RMW_RET_OK) {fail("hash-parse-result", fmt("user data '%s' gave %d", vh::esc(d).c_str(), pr));}
        if (!gm::hash_eq(back, want)) {fail("hash-parse-value", "user data '" + vh::esc(d) + "' gave version " + fmt("%u ", back.version) + vh::hex(back.value, 32));}
      }
      vh::distinct(vh::hash_str(d));
    }
    if (vh::want_sample()) {vh::sample(s);}
  }
}

// ------------------------------------------------------------------ Q09: invalid arguments and failing helpers
void q09(Case & c)
{
  vh::Rng & r = c.rng;
  auto inv = [&](rmw_ret_t ret, const char * what) {
      vh::count("invalid_calls");
      vh::count("events");
      rmw_reset_error();
      if (ret != RMW_RET_INVALID_ARGUMENT) {fail("invalid-argument-accepted", fmt("%s gave %d", what, ret));}
    };
  for (int i = 0; i < 30; ++i) {
    rmw_qos_profile_t p = profile(r, false), s = profile(r, false), q = maybe_best(r, 2);
    char buf[64];
    memset(buf, 'Z', sizeof(buf));
    rmw_qos_compatibility_type_t k = static_cast<rmw_qos_compatibility_type_t>(99);
    inv(rmw_dds_common::qos_profile_check_compatible(p, s, nullptr, buf, sizeof(buf)), "compatibility without output");
    inv(rmw_dds_common::qos_profile_check_compatible(p, s, nullptr, nullptr, 0), "compatibility without output");
    inv(rmw_dds_common::qos_profile_check_compatible(p, s, &k, nullptr, 1 + r.below(100)), "compatibility with a null reason of non-zero size");
    if (buf[0] != 'Z') {fail("invalid-argument-output", "the reason was written although the call was rejected");}
    auto v = endpoints(r, false);
    Infos inf(v);
    inv(rmw_dds_common::qos_profile_get_best_available_for_subscription(nullptr, &q), "best available without endpoints");
    inv(rmw_dds_common::qos_profile_get_best_available_for_publisher(nullptr, &q), "best available without endpoints");
    inv(rmw_dds_common::qos_profile_get_best_available_for_subscription(&inf.a, nullptr), "best available without profile");
    inv(rmw_dds_common::qos_profile_get_best_available_for_publisher(&inf.a, nullptr), "best available without profile");
    Tracker tr;
    rmw_context_t ctx;
    memset(&ctx, 0, sizeof(ctx));
    ctx.options.allocator = tr.get();
    rmw_node_t node;
    memset(&node, 0, sizeof(node));
    node.context = &ctx;
    int calls = 0;
    auto cb = [&](const rmw_node_t *, rcutils_allocator_t * a, const char *, bool, rmw_topic_endpoint_info_array_t * out) -> rmw_ret_t {
        ++calls;
        rmw_ret_t ir = rmw_topic_endpoint_info_array_init_with_size(out, v.size(), a);
        if (ir != RMW_RET_OK) {return ir;}
        for (size_t n = 0; n < v.size(); ++n) {out->info_array[n] = rmw_get_zero_initialized_topic_endpoint_info(); out->info_array[n].qos_profile = v[n];}
        return RMW_RET_OK;
      };
    const rmw_qos_profile_t keep = q;
    inv(rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(nullptr, "t", &q, cb), "topic resolution without node");
    inv(rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(&node, nullptr, &q, cb), "topic resolution without topic");
    inv(rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(&node, "t", nullptr, cb), "topic resolution without profile");
    inv(rmw_dds_common::qos_profile_get_best_available_for_topic_publisher(nullptr, "t", &q, cb), "topic resolution without node");
    inv(rmw_dds_common::qos_profile_get_best_available_for_topic_publisher(&node, nullptr, &q, cb), "topic resolution without topic");
    inv(rmw_dds_common::qos_profile_get_best_available_for_topic_publisher(&node, "t", nullptr, cb), "topic resolution without profile");
    if (calls) {fail("invalid-argument-effect", "a rejected call queried the graph");}
    if (!gm::qos_eq(keep, q)) {fail("invalid-argument-output", "a rejected call modified the profile");}
    rosidl_type_hash_t h = junk_hash(), h0 = h;
    inv(rmw_dds_common::parse_type_hash_from_user_data(nullptr, r.below(100), h), "type hash from null user data");
    if (!gm::hash_eq(h, h0)) {fail("invalid-argument-output", "a rejected call modified the type hash");}
    tr.check("rejected calls");

    // every helper call that can fail, failing
    const Verdict w = verdict(p, s);
    for (int n = 0; n < 8; ++n) {
      char big[2048];
      big[0] = 'x';
      rcutils_fault_injection_set_count(n);
      rmw_ret_t ret = rmw_dds_common::qos_profile_check_compatible(p, s, &k, big, sizeof(big));
      const bool fired = rcutils_fault_injection_get_count() == RCUTILS_FAULT_INJECTION_NEVER_FAIL;
      rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL);
      rmw_reset_error();
      if (!fired) {
        if (ret != RMW_RET_OK || k != w.v()) {fail("compatibility-verdict", "wrong verdict");}
        break;
      }
      vh::count("helper_failures_injected");
      vh::count("events");
      if (ret != RMW_RET_ERROR) {fail("helper-failure-hidden", fmt("writing the reason failed at helper call %d, the check returned %d", n, ret));}
      if (memchr(big, 0, sizeof(big)) == nullptr) {fail("reason-not-terminated", "after a failure the reason is not terminated");}
    }
    rosidl_type_hash_t rh = gm::rand_hash(r);
    rh.version = 1;
    for (int n = 0; n < 6; ++n) {
      std::string out = "previous";
      rcutils_fault_injection_set_count(n);
      rmw_ret_t ret = rmw_dds_common::encode_type_hash_for_user_data_qos(rh, out);
      const bool fired = rcutils_fault_injection_get_count() == RCUTILS_FAULT_INJECTION_NEVER_FAIL;
      rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL);
      rmw_reset_error();
      if (!fired) {if (ret != RMW_RET_OK) {fail("hash-encode-result", "encoding failed");} break;}
      vh::count("alloc_failures_injected");
      vh::count("events");
      if (ret != RMW_RET_BAD_ALLOC) {fail("alloc-failure-result", fmt("encoding a type hash without memory returned %d", ret));}
      if (out != "previous") {fail("hash-encode-failure-output", "encoding a type hash failed and changed the output to '" + vh::esc(out) + "'");}
    }
    rmw_qos_profile_t best = rmw_qos_profile_best_available;
    for (bool sub : {false, true}) {
      for (int64_t n = 0; n < 10; ++n) {
        Tracker ft;
        ft.fail_at = n;
        ctx.options.allocator = ft.get();
        q = best;
        rmw_ret_t ret = sub ? rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(&node, "t", &q, cb) :
          rmw_dds_common::qos_profile_get_best_available_for_topic_publisher(&node, "t", &q, cb);
        rmw_reset_error();
        ft.check("topic resolution without memory");
        if (!ft.failed) {if (ret != RMW_RET_OK) {fail("resolve-result", fmt("returned %d", ret));} break;}
        vh::count("alloc_failures_injected");
        vh::count("events");
        if (ret != RMW_RET_BAD_ALLOC) {fail("alloc-failure-result", fmt("topic resolution without memory returned %d", ret));}
        if (!gm::qos_eq(q, best)) {fail("topic-query-error-profile", "the profile was modified although the graph query failed");}
      }
      for (int n = 0; n < 10; ++n) {
        Tracker ft;
        ctx.options.allocator = ft.get();
        q = best;
        rcutils_fault_injection_set_count(n);
        rmw_ret_t ret = sub ? rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(&node, "t", &q, cb) :
          rmw_dds_common::qos_profile_get_best_available_for_topic_publisher(&node, "t", &q, cb);
        const bool fired = rcutils_fault_injection_get_count() == RCUTILS_FAULT_INJECTION_NEVER_FAIL;
        rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL);
        rmw_reset_error();
        if (!fired) {break;}
        vh::count("helper_failures_injected");
        if (ret == RMW_RET_OK) {fail("helper-failure-hidden", "a failing helper call went unnoticed in topic resolution");}
        for (auto & b : ft.live) {free(b.first);}    // what a failed release leaves behind is not judged
        ft.live.clear();
      }
      {
        Tracker ft;
        ctx.options.allocator = ft.get();
        q = best;
        vh_fini_fails = true;
        rmw_ret_t ret = sub ? rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(&node, "t", &q, cb) :
          rmw_dds_common::qos_profile_get_best_available_for_topic_publisher(&node, "t", &q, cb);
        const bool fired = !vh_fini_fails.exchange(false);
        rmw_reset_error();
        vh::count("helper_failures_injected");
        ft.check("topic resolution whose release of the endpoints fails");
        if (fired && ret == RMW_RET_OK) {fail("helper-failure-hidden", "releasing the endpoints failed, topic resolution succeeded");}
      }
      ctx.options.allocator = tr.get();
    }
    {
      std::string out = "previous";
      vh_stringify_fails = true;
      rmw_ret_t ret = rmw_dds_common::encode_type_hash_for_user_data_qos(rh, out);
      const bool fired = !vh_stringify_fails.exchange(false);
      rmw_reset_error();
      vh::count("helper_failures_injected");
      if (fired && ret == RMW_RET_OK) {fail("helper-failure-hidden", "stringifying a type hash failed, its encoding succeeded");}
      if (fired && out != "previous") {fail("hash-encode-failure-output", "encoding a type hash failed and changed the output to '" + vh::esc(out) + "'");}
    }
    vh::distinct(vh::hash_str(qs(p) + qs(s)));
    if (vh::want_sample()) {vh::sample("every argument null in turn, every helper call failing in turn, e.g. compatibility of " + qs(p) + " and " + qs(s));}
  }
}

// ------------------------------------------------------------------ all of them from several threads at once
void q10(Case & c)
{
  const size_t nt = 4 + c.rng.below(5);
  void (* const fn[])(Case &) = {i01, i02, t01, q01, q02, [](Case & x) {best(x, true);}, [](Case & x) {best(x, false);}, q05, q06, q07, q08};
  std::vector<Case> cs(nt);
  std::vector<std::function<void()>> bodies;
  const bool same = c.rng.chance(1, 2);
  const size_t what = c.rng.below(11);
  for (size_t t = 0; t < nt; ++t) {
    cs[t].index = c.index;
    cs[t].rng = vh::Rng(c.rng.u64());
    Case * x = &cs[t];
    bodies.push_back([=]() {
        for (int i = 0; i < 3; ++i) {fn[same ? what : x->rng.below(11)](*x);}
      });
  }
  sched::run(bodies, c.rng.u64(), 0);
  vh::count("executions");
  vh::count("threads_run", nt);
  vh::count("events", nt * 3);
  vh::distinct(c.rng.u64());
  if (vh::want_sample()) {vh::sample(fmt("%zu threads, each running three batches of calls (%s function family), all results as specified", nt, same ? "the same" : "any"));}
}
}  // namespace

int main(int argc, char ** argv)
{
  return vh::run(
    argc, argv, {
      {"i01", i01}, {"i02", i02}, {"t01", t01}, {"q01", q01}, {"q02", q02},
      {"q03", [](Case & c) {best(c, true);}}, {"q04", [](Case & c) {best(c, false);}},
      {"q05", q05}, {"q06", q06}, {"q07", q07}, {"q08", q08}, {"q09", q09}, {"q10", q10}});
}
