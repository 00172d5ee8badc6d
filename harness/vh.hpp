// Common runtime of the monitors: seeded cases, violation reporting, measured coverage.
#ifndef VH_HPP_
#define VH_HPP_
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh
{
uint64_t mix(uint64_t x);
uint64_t hash_str(const std::string & s, uint64_t h = 1469598103934665603ull);

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed + 0x9e3779b97f4a7c15ull)) {}
  uint64_t u64() {s += 0x9e3779b97f4a7c15ull; return mix(s);}
  uint64_t below(uint64_t n) {return n ? u64() % n : 0;}
  bool chance(uint64_t num, uint64_t den) {return below(den) < num;}
  int64_t range(int64_t lo, int64_t hi) {return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1)));}
  template<typename C> auto & pick(C & c) {return c[below(c.size())];}
  template<typename C> const auto & pick(const C & c) {return c[below(c.size())];}
};

// Thrown by a monitor: the current case refuted the property.
struct CaseFail
{
  std::string key;     // stable identity of what fails
  std::string detail;  // the witness
};
// Reports a violation and ends the process: the case cannot be unwound.
[[noreturn]] void die(const std::string & key, const std::string & detail);
[[noreturn]] void fail(const std::string & key, const std::string & detail);

struct Case
{
  uint64_t index = 0;
  uint64_t seed = 0;
  bool thorough = false;
  Rng rng{1};
  std::deque<std::string> log;     // the executed history, for the replay file
  void note(std::string s);
};

// Measured coverage. Not thread safe: threads of a free-running workload mute themselves.
extern thread_local bool t_mute;
void count(const char * name, uint64_t n = 1);
void distinct(uint64_t h);          // a distinct non-trivial case / state / interleaving
void sample(const std::string & s); // keeps the first few
bool want_sample();

// Harness-side bookkeeping must not count as memory of the code under test.
struct Unaccounted
{
  Unaccounted();
  ~Unaccounted();
};
int64_t live_blocks();   // blocks allocated by operator new and still live (release variant only)
// While it lives, the k-th operator new of this thread throws std::bad_alloc (k < 0: none; they are counted).
struct NewFault
{
  explicit NewFault(int64_t k);
  ~NewFault();
  NewFault(const NewFault &) = delete;
  static uint64_t calls();     // of the last one; 0 in builds without accounting
  static bool fired();
};
// What happens while it lives ends within seconds, or the case fails with this key (for locks left behind).
struct Deadline
{
  Deadline(const char * key, const std::string & detail);
  ~Deadline();
  Deadline(const Deadline &) = delete;
};
bool accounting();       // true when this build accounts for operator new

using Mode = std::function<void (Case &)>;
int run(int argc, char ** argv, const std::map<std::string, Mode> & modes);
const std::string & opt(const std::string & name);   // extra --name value options

std::string hex(const uint8_t * p, size_t n);
std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));
std::string esc(const std::string & s);  // printable, shortened
std::string json(const std::string & s);
}  // namespace vh
#endif
