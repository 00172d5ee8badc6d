#include "vh.hpp"

#include <time.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <atomic>
#include <exception>
#include <new>
#include <typeinfo>
#include <cxxabi.h>

// ---------------------------------------------------------------------------
// Release variant: every C++ heap block of the process carries a header, is filled with
// garbage on allocation and on release, and is counted while accounting is on.
#ifdef VH_ACCOUNT
namespace
{
std::atomic<int64_t> g_live{0};
thread_local int t_suspend = 0;
struct Hdr { uint64_t magic; uint64_t size; uint64_t counted; uint64_t pad; };
constexpr uint64_t kMagic = 0x5eedf00dcafebeefull;
constexpr uint64_t kDead = 0xdeaddeaddeaddeadull;
thread_local int64_t t_fail_new = -1;    // the allocation that fails, counted down
thread_local uint64_t t_new_calls = 0;
thread_local bool t_armed = false, t_fired = false;
void * acc_new(size_t n)
{
  if (t_armed && t_suspend == 0) {
    ++t_new_calls;
    if (t_fail_new >= 0 && t_fail_new-- == 0) {
      t_fired = true;
      throw std::bad_alloc();
    }
  }
  Hdr * h = static_cast<Hdr *>(malloc(sizeof(Hdr) + n + 8));
  if (!h) {throw std::bad_alloc();}
  h->magic = kMagic;
  h->size = n;
  h->counted = t_suspend == 0;
  if (h->counted) {g_live.fetch_add(1, std::memory_order_relaxed);}
  memset(h + 1, 0xA5, n);
  uint64_t tail = kMagic;
  memcpy(reinterpret_cast<char *>(h + 1) + n, &tail, 8);
  return h + 1;
}
void acc_delete(void * p)
{
  if (!p) {return;}
  Hdr * h = static_cast<Hdr *>(p) - 1;
  if (h->magic != kMagic) {
    const char m[] = "VH-HEAP: release of an unknown or already released block\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(98);
  }
  uint64_t tail;
  memcpy(&tail, static_cast<char *>(p) + h->size, 8);
  if (tail != kMagic) {
    const char m[] = "VH-HEAP: block was written past its end\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(98);
  }
  if (h->counted) {g_live.fetch_sub(1, std::memory_order_relaxed);}
  h->magic = kDead;
  memset(p, 0x5A, h->size);
  free(h);
}
}  // namespace
void * operator new(size_t n) {return acc_new(n);}
void * operator new[](size_t n) {return acc_new(n);}
void * operator new(size_t n, const std::nothrow_t &) noexcept
{
  try {return acc_new(n);} catch (...) {return nullptr;}
}
void * operator new[](size_t n, const std::nothrow_t &) noexcept
{
  try {return acc_new(n);} catch (...) {return nullptr;}
}
void operator delete(void * p) noexcept {acc_delete(p);}
void operator delete[](void * p) noexcept {acc_delete(p);}
void operator delete(void * p, size_t) noexcept {acc_delete(p);}
void operator delete[](void * p, size_t) noexcept {acc_delete(p);}
void operator delete(void * p, const std::nothrow_t &) noexcept {acc_delete(p);}
void operator delete[](void * p, const std::nothrow_t &) noexcept {acc_delete(p);}
#endif

namespace vh
{
#ifdef VH_ACCOUNT
Unaccounted::Unaccounted() {++t_suspend;}
Unaccounted::~Unaccounted() {--t_suspend;}
int64_t live_blocks() {return g_live.load();}
bool accounting() {return true;}
NewFault::NewFault(int64_t k) {t_fail_new = k; t_new_calls = 0; t_fired = false; t_armed = true;}
NewFault::~NewFault() {t_armed = false;}
uint64_t NewFault::calls() {return t_new_calls;}
bool NewFault::fired() {return t_fired;}
#else
Unaccounted::Unaccounted() {}
Unaccounted::~Unaccounted() {}
int64_t live_blocks() {return 0;}
bool accounting() {return false;}
NewFault::NewFault(int64_t) {}
NewFault::~NewFault() {}
uint64_t NewFault::calls() {return 0;}
bool NewFault::fired() {return false;}
#endif

uint64_t mix(uint64_t z)
{
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t hash_str(const std::string & s, uint64_t h)
{
  for (unsigned char c : s) {h = (h ^ c) * 1099511628211ull;}
  return mix(h);
}
void fail(const std::string & key, const std::string & detail) {throw CaseFail{key, detail};}

void Case::note(std::string s)
{
  Unaccounted u;
  if (log.size() >= 200) {log.pop_front();}
  log.push_back(s);   // a copy made here, so that it is ours
}
std::string fmt(const char * f, ...)
{
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof(buf), f, ap);
  va_end(ap);
  return buf;
}
std::string hex(const uint8_t * p, size_t n)
{
  static const char d[] = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; ++i) {s += d[p[i] >> 4]; s += d[p[i] & 15];}
  return s;
}
std::string esc(const std::string & in)
{
  std::string s;
  size_t lim = in.size() > 60 ? 48 : in.size();
  for (size_t i = 0; i < lim; ++i) {
    unsigned char c = static_cast<unsigned char>(in[i]);
    if (c >= 32 && c < 127) {s += static_cast<char>(c);} else {s += fmt("\\x%02x", c);}
  }
  if (lim < in.size()) {s += fmt("...(%zu bytes)", in.size());}
  return s;
}
std::string json(const std::string & in)
{
  std::string s = "\"";
  for (unsigned char c : in) {
    if (c == '"' || c == '\\') {s += '\\'; s += static_cast<char>(c);} else if (c == '\n') {s += "\\n";} else if (
      c < 32 || c >= 127)
    {
      s += fmt("\\u%04x", c);
    } else {s += static_cast<char>(c);}
  }
  return s + "\"";
}

namespace
{
std::map<std::string, uint64_t> & counters() {static auto * m = new std::map<std::string, uint64_t>; return *m;}
std::unordered_set<uint64_t> & dist() {static auto * m = new std::unordered_set<uint64_t>; return *m;}
std::vector<std::string> & samples() {static auto * m = new std::vector<std::string>; return *m;}
std::map<std::string, std::string> & opts() {static auto * m = new std::map<std::string, std::string>; return *m;}
}  // namespace

thread_local bool t_mute = false;
static bool g_mute = false;
static Case * g_case = nullptr;
void count(const char * name, uint64_t n) {if (g_mute || t_mute) {return;} Unaccounted u; counters()[name] += n;}
void distinct(uint64_t h) {if (g_mute || t_mute) {return;} Unaccounted u; if (dist().size() < 400000) {dist().insert(h);}}
bool want_sample() {return !g_mute && !t_mute && samples().size() < 3;}
void sample(const std::string & s) {if (g_mute || t_mute) {return;} Unaccounted u; if (want_sample()) {samples().push_back(s.substr(0, 1500));}}
const std::string & opt(const std::string & name) {return opts()[name];}

// standard output under a number of its own, which code that writes to or closes the first descriptors does not reach
static FILE * report()
{
  static FILE * f = [] {
      const int fd = fcntl(1, F_DUPFD_CLOEXEC, 90);
      FILE * d = fd < 0 ? nullptr : fdopen(fd, "w");
      return d ? d : stdout;
    }();
  return f;
}
static void print_viol(const Case & c, const std::string & key, const std::string & detail)
{
  std::string s = "{\"key\":" + json(key) + ",\"detail\":" + json(detail.substr(0, 6000)) +
    ",\"mode\":" + json(opt("mode")) + fmt(",\"case\":%llu", static_cast<unsigned long long>(c.index)) + ",\"history\":[";
  bool first = true;
  for (auto & l : c.log) {s += (first ? "" : ","); s += json(l); first = false;}
  s += "]}";
  fprintf(report(), "VIOL %s\n", s.c_str());
  fflush(report());
}
void die(const std::string & key, const std::string & detail)
{
  if (g_case) {print_viol(*g_case, key, detail);}
  _exit(g_case ? 4 : 2);
}

namespace
{
char g_alarm_key[64], g_alarm_detail[512];
int64_t g_cpu_then;
int g_idle;
int64_t cpu_ms()
{
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
// A process that waits for a lock uses no processor time; a slow one on a busy machine does
// (one that loops is stopped by run.py).
void on_alarm(int)
{
  const int64_t now = cpu_ms();
  g_idle = now - g_cpu_then < 50 ? g_idle + 1 : 0;
  g_cpu_then = now;
  if (g_idle < 3) {alarm(5); return;}
  Unaccounted u;
  die(g_alarm_key, g_alarm_detail);
}
}
Deadline::Deadline(const char * key, const std::string & detail)
{
  snprintf(g_alarm_key, sizeof(g_alarm_key), "%s", key);
  snprintf(g_alarm_detail, sizeof(g_alarm_detail), "%s", detail.c_str());
  static bool once = (signal(SIGALRM, on_alarm), true);
  (void)once;
  g_cpu_then = cpu_ms();
  g_idle = 0;
  alarm(5);
}
Deadline::~Deadline() {alarm(0);}

int run(int argc, char ** argv, const std::map<std::string, Mode> & modes)
{
  Unaccounted * boot = new Unaccounted;
  report();
  for (int i = 1; i + 1 < argc; i += 2) {
    if (0 != strncmp(argv[i], "--", 2)) {fprintf(stderr, "bad option %s\n", argv[i]); return 2;}
    opts()[argv[i] + 2] = argv[i + 1];
  }
  auto it = modes.find(opt("mode"));
  if (it == modes.end()) {fprintf(stderr, "unknown mode\n"); return 2;}
  const uint64_t seed = strtoull(opt("seed").c_str(), nullptr, 0);
  const uint64_t from = strtoull(opt("from").c_str(), nullptr, 0);
  const uint64_t to = strtoull(opt("to").c_str(), nullptr, 0);
  const bool thorough = opt("tier") == "thorough";
  const std::string out = opt("out");
  const uint64_t max_viol = opt("maxviol").empty() ? 3 : strtoull(opt("maxviol").c_str(), nullptr, 0);
  // progress, readable after a crash
  volatile uint64_t * progress = nullptr;
  static uint64_t dummy;
  progress = &dummy;
  if (!out.empty()) {
    int fd = open((out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 16) == 0) {
      void * p = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) {progress = static_cast<uint64_t *>(p);}
      close(fd);
    }
  }
  uint64_t nviol = 0;
  const uint64_t mode_hash = hash_str(opt("mode"));
  delete boot;
  for (uint64_t i = from; i < to && nviol < max_viol; ++i) {
    progress[0] = i + 1;
    for (int attempt = 0; attempt < 2; ++attempt) {
      std::string key, detail;
      Case * c;
      {
        Unaccounted u;
        c = new Case;
        c->index = i;
        c->seed = mix(seed * 1000003ull + mix(mode_hash) + i * 0x9e3779b97f4a7c15ull);
        c->rng = Rng(c->seed);
        c->thorough = thorough;
        g_case = c;
      }
      const int64_t live0 = live_blocks();
      bool failed = false;
      try {
        it->second(*c);
      } catch (const CaseFail & f) {
        Unaccounted u;
        failed = true;
        key = f.key;
        detail = f.detail;
      } catch (const std::exception & e) {
        Unaccounted u;
        failed = true;
        int st = 0;
        char * n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        key = std::string("exception:") + (n ? n : "?");
        detail = e.what();
        free(n);
      }
      const int64_t delta = live_blocks() - live0;
      Unaccounted u;
      // Lazily created one-off objects do not count: the same case run again must not grow.
      if (!failed && delta > 0 && attempt == 1) {
        failed = true;
        key = "heap-growth";
        detail = fmt("%ld heap blocks allocated during the case are still live after all its objects were destroyed",
            static_cast<long>(delta));
      }
      if (failed) {
        ++nviol;
        print_viol(*c, key, detail);
      }
      g_case = nullptr;
      delete c;
      if (failed || delta <= 0) {break;}
      g_mute = true;
    }
    g_mute = false;
    count("cases");
  }
  progress[0] = ~0ull;
  if (!out.empty()) {
    FILE * f = fopen(out.c_str(), "w");
    if (!f) {return 2;}
    fprintf(f, "{\"counters\":{");
    bool first = true;
    for (auto & kv : counters()) {
      fprintf(f, "%s%s:%llu", first ? "" : ",", json(kv.first).c_str(), static_cast<unsigned long long>(kv.second));
      first = false;
    }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto & s : samples()) {
      fprintf(f, "%s%s", first ? "" : ",", json(s).c_str());
      first = false;
    }
    fprintf(f, "],\"distinct\":[");
    first = true;
    for (uint64_t h : dist()) {
      fprintf(f, "%s%llu", first ? "" : ",", static_cast<unsigned long long>(h >> 12));
      first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
  }
  fflush(stdout);
  return nviol ? 3 : 0;
}
}  // namespace vh
