// The same interface for free-running threads (used under the race detector): bodies start together
// and points inject short delays.
#include <atomic>
#include <exception>
#include <mutex>
#include <thread>

#include "sched.hpp"
#include "vh.hpp"

namespace sched
{
static thread_local int me = -1;
static thread_local uint64_t rnd = 0;
Stats run(std::vector<std::function<void()>> bodies, uint64_t seed, int, int, int)
{
  std::atomic<size_t> ready{0};
  std::exception_ptr err;
  std::mutex m;
  std::vector<std::thread> th;
  for (size_t i = 0; i < bodies.size(); ++i) {
    th.emplace_back([&, i]() {
        me = static_cast<int>(i);
        rnd = vh::mix(seed + i * 77);
        vh::t_mute = true;
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < bodies.size()) {std::this_thread::yield();}
        try {
          bodies[i]();
        } catch (...) {
          std::lock_guard<std::mutex> l(m);
          if (!err) {err = std::current_exception();}
        }
      });
  }
  for (auto & t : th) {t.join();}
  if (err) {std::rethrow_exception(err);}
  return Stats();
}
void point()
{
  if (me < 0) {return;}
  rnd = vh::mix(rnd + 1);
  switch (rnd % 16) {
    case 0: std::this_thread::yield(); break;
    case 1: for (volatile int i = 0; i < 200; ++i) {} break;
    default: break;
  }
}
void wait_until(const char *, std::function<bool()>) {}
Quiet::Quiet() {}
Quiet::~Quiet() {}
uint64_t now() {return 0;}
int self() {return me;}
}  // namespace sched
