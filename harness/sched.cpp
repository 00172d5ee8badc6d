#include "sched.hpp"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <exception>
#include <map>
#include <memory>
#include <thread>

#include "vh.hpp"

#define NOHOOK __attribute__((no_instrument_function))

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_sched_yield(void);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
}

namespace sched
{
namespace
{
struct T
{
  std::atomic<int> go{0};
  bool done = false;
  const void * blocked_on = nullptr;
  const char * blocked_what = nullptr;
  std::function<bool()> pred;
  int nopreempt = 0;
  int prio = 0;
  std::thread th;
};
struct Owner { int tid; int n; };
struct S
{
  std::vector<std::unique_ptr<T>> t;
  vh::Rng rng{1};
  Stats st;
  std::atomic<int> main_go{0};
  std::map<const void *, Owner> owner;
  bool pct = false, pct_lock = false;
  uint64_t lock_steps = 0;
  unsigned p_lock = 2, p_fn = 64;
  std::vector<uint64_t> change;    // PCT priority change points (in steps)
  size_t change_i = 0;
  int low = 0;
  // one thread is held up at some of its lock operations while the others go on
  int victim = -1;
  bool held_up = false, mutex_only = false, release_only = false;
  uint64_t hold_gap = 6, hold_len = 24;
  uint64_t victim_steps = 0, hold_at = 0, hold_until = 0;
  bool resched = false;            // PCT: a thread became runnable
  std::exception_ptr err;
};
S * g = nullptr;
thread_local int me = -1;
thread_local int inside = 0;      // the scheduler itself is running

void futex_wait(std::atomic<int> & a)
{
  while (a.load() == 0) {
    syscall(SYS_futex, reinterpret_cast<int *>(&a), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  a.store(0);
}
void futex_post(std::atomic<int> & a)
{
  a.store(1);
  syscall(SYS_futex, reinterpret_cast<int *>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
bool runnable(T & t)
{
  if (t.done || t.blocked_on) {return false;}
  return !t.pred || t.pred();
}
// chooses who goes on; -1 if nobody can
int choose(bool must_leave)
{
  std::vector<int> c;
  for (size_t i = 0; i < g->t.size(); ++i) {
    if (runnable(*g->t[i]) && !(must_leave && static_cast<int>(i) == me)) {c.push_back(static_cast<int>(i));}
  }
  if (c.empty()) {return -1;}
  if (g->held_up && c.size() > 1) {c.erase(std::remove(c.begin(), c.end(), g->victim), c.end());}
  if (g->pct) {
    int b = c[0];
    for (int i : c) {if (g->t[i]->prio > g->t[b]->prio) {b = i;}}
    return b;
  }
  return c[g->rng.below(c.size())];
}
void report_deadlock()
{
  std::string d = "no thread can go on:";
  for (size_t i = 0; i < g->t.size(); ++i) {
    T & t = *g->t[i];
    d += vh::fmt(" thread %zu ", i);
    if (t.done) {d += "has finished;"; continue;}
    if (t.pred) {d += std::string("waits until ") + t.blocked_what + ";"; continue;}
    d += std::string("waits for a ") + (t.blocked_what ? t.blocked_what : "lock");
    auto it = g->owner.find(t.blocked_on);
    if (it != g->owner.end()) {d += vh::fmt(" held by thread %d", it->second.tid);}
    d += ";";
  }
  vh::die("deadlock", d);
}
void go_to(int n)
{
  if (n == me) {return;}
  g->st.switches++;
  g->st.hash = vh::mix(g->st.hash * 31 + static_cast<uint64_t>(n) * 7919 + g->st.points);
  const int m = me;
  futex_post(g->t[static_cast<size_t>(n)]->go);
  futex_wait(g->t[static_cast<size_t>(m)]->go);
}
void leave()      // the current thread cannot go on now
{
  int n = choose(false);
  if (n < 0) {report_deadlock();}
  go_to(n);
}
enum Mutex {NONE, ACQUIRE, RELEASE};
void maybe(unsigned p, bool lock, Mutex mutex = NONE)
{
  T & t = *g->t[static_cast<size_t>(me)];
  g->st.points++;
  if (lock) {g->st.lock_points = ++g->lock_steps;}
  if (t.nopreempt) {return;}
  if (lock && g->victim >= 0) {
    if (g->held_up && g->lock_steps >= g->hold_until) {
      g->held_up = false;
      g->hold_at = g->victim_steps + 1 + g->rng.below(g->hold_gap);
      if (runnable(*g->t[static_cast<size_t>(g->victim)])) {go_to(g->victim);}
      return;
    }
    if (me == g->victim && g->held_up) {      // it went on only because all others needed something it held
      int n = choose(false);
      if (n >= 0) {go_to(n);}
      return;
    }
    if (me == g->victim && (mutex || !g->mutex_only) && (mutex == RELEASE || !g->release_only) && ++g->victim_steps >= g->hold_at) {
      g->held_up = true;
      g->hold_until = g->lock_steps + 2 + g->rng.below(g->rng.chance(3, 4) ? g->hold_len : 4 * g->hold_len);
      int n = choose(false);
      if (n >= 0) {go_to(n);}
      return;
    }
  }
  if (g->pct) {
    if (g->resched) {
      g->resched = false;
      int n = choose(false);
      if (n >= 0) {go_to(n);}
      return;
    }
    if (g->change_i < g->change.size() && (g->pct_lock ? lock && g->lock_steps >= g->change[g->change_i] : g->st.points >= g->change[g->change_i])) {
      g->change_i++;
      t.prio = --g->low;
      int n = choose(false);
      if (n >= 0) {go_to(n);}
    }
    return;
  }
  if (p && (p == 1 || g->rng.chance(1, p))) {
    int n = choose(false);
    if (n >= 0) {go_to(n);}
  }
}
struct In { In() {++inside;} ~In() {--inside;} };
bool managed() {return me >= 0 && g && inside == 0;}
void block(const void * what, const char * name)
{
  T & t = *g->t[static_cast<size_t>(me)];
  g->st.contended++;
  t.blocked_on = what;
  t.blocked_what = name;
  leave();
  t.blocked_what = nullptr;
}
void wake(const void * what)
{
  for (auto & t : g->t) {
    if (t->blocked_on == what) {t->blocked_on = nullptr; g->resched = true;}
  }
}
template<typename F>
int take(const void * m, F try_fn, const char * name, bool exclusive)
{
  In in;
  maybe(g->p_lock, true, ACQUIRE);
  for (;;) {
    int r = try_fn();
    if (r != EBUSY) {
      if (r == 0 && exclusive) {auto & o = g->owner[m]; o.tid = me; o.n++;}
      return r;
    }
    auto it = g->owner.find(m);
    if (it != g->owner.end() && it->second.n > 0 && it->second.tid == me) {
      vh::die("self-deadlock", vh::fmt("thread %d waits for a %s it holds itself", me, name));
    }
    block(m, name);
  }
}
void drop(const void * m)
{
  auto it = g->owner.find(m);
  if (it != g->owner.end() && --it->second.n <= 0) {g->owner.erase(it);}
  wake(m);
}
void thread_main(int i, const std::function<void()> & body)
{
  me = i;
  futex_wait(g->t[static_cast<size_t>(i)]->go);
  try {
    body();
  } catch (...) {
    if (!g->err) {g->err = std::current_exception();}
  }
  ++inside;
  g->t[static_cast<size_t>(i)]->done = true;
  bool all = true;
  for (auto & t : g->t) {all = all && t->done;}
  if (all) {
    me = -1;
    futex_post(g->main_go);
    return;
  }
  int n = choose(true);
  if (n < 0) {report_deadlock();}
  g->st.hash = vh::mix(g->st.hash * 31 + static_cast<uint64_t>(n) * 7919 + g->st.points);
  me = -1;
  futex_post(g->t[static_cast<size_t>(n)]->go);
}
}  // namespace

Stats run(std::vector<std::function<void()>> bodies, uint64_t seed, int length_hint, int lock_hint, int victim)
{
  S s;
  s.rng = vh::Rng(seed);
  g = &s;
  if (victim >= 0) {
    s.victim = victim;
    s.hold_gap = 1 + s.rng.below(3);
    s.hold_at = 1 + s.rng.below(5);
    s.hold_len = 4u << s.rng.below(3);
    s.mutex_only = s.rng.chance(3, 4);
    s.release_only = s.rng.chance(1, 2);
    if (s.release_only) {s.hold_gap = s.hold_at = 1;}
    s.p_lock = s.rng.chance(2, 3) ? 0 : 4;
    s.p_fn = 0;
  } else {
  switch (s.rng.below(12)) {
    case 10: case 11:
      s.victim = static_cast<int>(s.rng.below(bodies.size()));
      s.hold_at = 1 + s.rng.below(12);
      s.p_lock = s.rng.chance(1, 2) ? 0 : 4;
      s.p_fn = 0;
      break;
    case 0: s.p_lock = 1; s.p_fn = 0; break;
    case 1: s.p_lock = 2; s.p_fn = 400; break;
    case 2: s.p_lock = 3; s.p_fn = 60; break;
    case 3: s.p_lock = 8; s.p_fn = 15; break;
    case 4: s.p_lock = 5; s.p_fn = 0; break;
    case 5: case 6: case 7:      // few switches, at lock operations only
      s.pct_lock = true;
      length_hint = lock_hint;
      [[fallthrough]];
    default: {
        s.pct = true;
        size_t d = 1 + s.rng.below(5);
        // the length is not known in advance: change points on all scales up to the hint
        int top = 5;
        while ((1 << top) < length_hint && top < 20) {++top;}
        for (size_t i = 0; i < d; ++i) {
          const uint64_t span = 1ull << (5 + s.rng.below(static_cast<uint64_t>(top - 4)));
          s.change.push_back(1 + s.rng.below(span));
        }
        for (size_t i = 0; i + 1 < d; ++i) {
          for (size_t k = i + 1; k < d; ++k) {
            if (s.change[k] < s.change[i]) {std::swap(s.change[k], s.change[i]);}
          }
        }
      }
  }
  }
  for (size_t i = 0; i < bodies.size(); ++i) {
    s.t.emplace_back(new T);
    s.t.back()->prio = 1 + static_cast<int>(s.rng.below(1000));
  }
  for (size_t i = 0; i < bodies.size(); ++i) {
    const std::function<void()> * b = &bodies[i];
    s.t[i]->th = std::thread([i, b]() {thread_main(static_cast<int>(i), *b);});
  }
  const int first = victim >= 0 ? victim : choose(false);
  s.st.hash = vh::mix(static_cast<uint64_t>(first) + 1);
  futex_post(s.t[static_cast<size_t>(first)]->go);
  futex_wait(s.main_go);
  for (auto & t : s.t) {t->th.join();}
  g = nullptr;
  if (s.err) {std::rethrow_exception(s.err);}
  return s.st;
}
Quiet::Quiet() {if (me >= 0 && g) {g->t[static_cast<size_t>(me)]->nopreempt++;}}
Quiet::~Quiet() {if (me >= 0 && g) {g->t[static_cast<size_t>(me)]->nopreempt--;}}
void point()
{
  if (!managed()) {return;}
  In in;
  maybe(g->p_lock, true);
}
void wait_until(const char * what, std::function<bool()> pred)
{
  if (!managed()) {return;}
  In in;
  T & t = *g->t[static_cast<size_t>(me)];
  t.blocked_what = what;
  t.pred = pred;
  // let others go first
  int n = choose(true);
  if (n < 0) {
    if (!pred()) {report_deadlock();}
  } else {
    go_to(n);
    while (!pred()) {leave();}
  }
  t.pred = nullptr;
  t.blocked_what = nullptr;
}
uint64_t now()
{
  static uint64_t clock = 0;     // only one thread runs at a time
  return ++clock;
}
int self() {return me;}
}  // namespace sched

using sched::g;
using sched::me;
using sched::In;

extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t * m)
{
  if (!sched::managed()) {return __real_pthread_mutex_lock(m);}
  return sched::take(m, [m]() {return __real_pthread_mutex_trylock(m);}, "mutex", true);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t * m)
{
  if (!sched::managed()) {return __real_pthread_mutex_trylock(m);}
  In in;
  sched::maybe(g->p_lock, true, sched::ACQUIRE);
  int r = __real_pthread_mutex_trylock(m);
  if (r == 0) {auto & o = g->owner[m]; o.tid = me; o.n++;}
  return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m)
{
  if (!sched::managed()) {return __real_pthread_mutex_unlock(m);}
  In in;
  auto it = g->owner.find(m);
  if (it == g->owner.end() || it->second.tid != me) {
    vh::die("unlock-not-owner", vh::fmt("thread %d releases a mutex it does not hold", me));
  }
  int r = __real_pthread_mutex_unlock(m);
  sched::drop(m);
  sched::maybe(g->p_lock, true, sched::RELEASE);
  return r;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t * m)
{
  if (!sched::managed()) {return __real_pthread_rwlock_rdlock(m);}
  return sched::take(m, [m]() {return __real_pthread_rwlock_tryrdlock(m);}, "shared lock", false);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t * m)
{
  if (!sched::managed()) {return __real_pthread_rwlock_wrlock(m);}
  return sched::take(m, [m]() {return __real_pthread_rwlock_trywrlock(m);}, "shared lock", true);
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t * m) {return __real_pthread_rwlock_tryrdlock(m);}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t * m) {return __real_pthread_rwlock_trywrlock(m);}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t * m)
{
  if (!sched::managed()) {return __real_pthread_rwlock_unlock(m);}
  In in;
  int r = __real_pthread_rwlock_unlock(m);
  sched::drop(m);
  sched::maybe(g->p_lock, true, sched::RELEASE);
  return r;
}
static void cond_release(pthread_mutex_t * m)
{
  __real_pthread_mutex_unlock(m);
  sched::drop(m);
}
static void cond_retake(pthread_mutex_t * m)
{
  for (;;) {
    int r = __real_pthread_mutex_trylock(m);
    if (r == 0) {auto & o = g->owner[m]; o.tid = me; o.n++; return;}
    sched::block(m, "mutex");
  }
}
int __wrap_pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  if (!sched::managed()) {return __real_pthread_cond_wait(c, m);}
  In in;
  cond_release(m);
  sched::block(c, "condition");
  cond_retake(m);
  return 0;
}
static int cond_timed(pthread_mutex_t * m)
{
  In in;
  cond_release(m);
  int n = sched::choose(true);
  if (n >= 0) {sched::go_to(n);}
  cond_retake(m);
  return ETIMEDOUT;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
  if (!sched::managed()) {return __real_pthread_cond_timedwait(c, m, t);}
  return cond_timed(m);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t)
{
  if (!sched::managed()) {return __real_pthread_cond_clockwait(c, m, k, t);}
  return cond_timed(m);
}
int __wrap_pthread_cond_signal(pthread_cond_t * c)
{
  if (!sched::managed()) {return __real_pthread_cond_signal(c);}
  In in;
  sched::wake(c);
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t * c)
{
  if (!sched::managed()) {return __real_pthread_cond_broadcast(c);}
  In in;
  sched::wake(c);
  return 0;
}
static void step_aside()
{
  In in;
  g->st.points++;
  g->st.lock_points = ++g->lock_steps;
  int n = sched::choose(true);
  if (n >= 0) {sched::go_to(n);}
}
int __wrap_sched_yield(void)
{
  if (!sched::managed()) {return __real_sched_yield();}
  step_aside();
  return 0;
}
int __wrap_nanosleep(const struct timespec * a, struct timespec * b)
{
  if (!sched::managed()) {return __real_nanosleep(a, b);}
  step_aside();
  return 0;
}
int __wrap_clock_nanosleep(clockid_t k, int f, const struct timespec * a, struct timespec * b)
{
  if (!sched::managed()) {return __real_clock_nanosleep(k, f, a, b);}
  step_aside();
  return 0;
}
// One-off initialisation is not interrupted: whoever waited for it would hold the baton.
int __wrap_pthread_once(pthread_once_t * o, void (*f)(void))
{
  if (me >= 0 && g) {g->t[static_cast<size_t>(me)]->nopreempt++;}
  int r = __real_pthread_once(o, f);
  if (me >= 0 && g) {g->t[static_cast<size_t>(me)]->nopreempt--;}
  return r;
}
int __wrap___cxa_guard_acquire(uint64_t * p)
{
  int r = __real___cxa_guard_acquire(p);
  if (r && me >= 0 && g) {g->t[static_cast<size_t>(me)]->nopreempt++;}
  return r;
}
void __wrap___cxa_guard_release(uint64_t * p)
{
  __real___cxa_guard_release(p);
  if (me >= 0 && g) {g->t[static_cast<size_t>(me)]->nopreempt--;}
}
void __wrap___cxa_guard_abort(uint64_t * p)
{
  __real___cxa_guard_abort(p);
  if (me >= 0 && g) {g->t[static_cast<size_t>(me)]->nopreempt--;}
}
NOHOOK void __cyg_profile_func_enter(void *, void *)
{
  if (!sched::managed()) {return;}
  In in;
  sched::maybe(g->p_fn, false);
}
NOHOOK void __cyg_profile_func_exit(void *, void *)
{
  if (!sched::managed()) {return;}
  In in;
  sched::maybe(g->p_fn, false);
}
}
