// Monitors of the lookup of security files. Every case builds a directory of its own under --scratch,
// calls the real function and compares its answer with what plain stat/open/read see there.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>
#include <memory>
#include <unordered_map>

#include "rmw_dds_common/security.hpp"
#include "sched.hpp"
#include "vh.hpp"

using vh::Case;
using vh::fail;
using vh::fmt;
typedef std::unordered_map<std::string, std::string> Map;

namespace
{
struct Attr {const char * key; const char * p11; const char * file;};
const Attr kAttrs[] = {
  {"IDENTITY_CA", "identity_ca.cert.p11", "identity_ca.cert.pem"},
  {"CERTIFICATE", "cert.p11", "cert.pem"},
  {"PRIVATE_KEY", "key.p11", "key.pem"},
  {"PERMISSIONS_CA", "permissions_ca.cert.p11", "permissions_ca.cert.pem"},
  {"GOVERNANCE", nullptr, "governance.p7s"},
  {"PERMISSIONS", nullptr, "permissions.p7s"},
};
const char kCrl[] = "crl.pem";

// ------------------------------------------------------------------ scratch file system
void wipe(const std::string & p)
{
  struct stat st;
  if (lstat(p.c_str(), &st) != 0) {return;}
  if (!S_ISDIR(st.st_mode)) {unlink(p.c_str()); return;}
  chmod(p.c_str(), 0700);
  if (DIR * d = opendir(p.c_str())) {
    std::vector<std::string> names;
    while (dirent * e = readdir(d)) {
      const std::string n = e->d_name;
      if (n != "." && n != "..") {names.push_back(n);}
    }
    closedir(d);
    for (auto & n : names) {wipe(p + "/" + n);}
  }
  rmdir(p.c_str());
}
struct Scratch
{
  std::string dir, cwd;
  Scratch()
  {
    vh::Unaccounted u;
    const std::string base = vh::opt("scratch");
    if (base.empty()) {fprintf(stderr, "--scratch is needed\n"); _exit(2);}
    std::string t = base + "/sXXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) {fprintf(stderr, "no scratch directory in %s\n", base.c_str()); _exit(2);}
    dir = b.data();
    chmod(dir.c_str(), 0755);
    char buf[4096];
    cwd = getcwd(buf, sizeof(buf)) ? buf : "/";
  }
  ~Scratch()
  {
    vh::Unaccounted u;
    if (chdir(cwd.c_str()) != 0) {fprintf(stderr, "cannot return to %s\n", cwd.c_str()); _exit(2);}
    wipe(dir);
    dir = std::string();
    cwd = std::string();
  }
};
void put(const std::string & p, const std::string & content, mode_t mode = 0644)
{
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || write(fd, content.data(), content.size()) != static_cast<ssize_t>(content.size())) {
    fprintf(stderr, "cannot write %s: %s\n", p.c_str(), strerror(errno));
    _exit(2);
  }
  fchmod(fd, mode);
  close(fd);
}
void mkd(const std::string & p) {if (mkdir(p.c_str(), 0755) != 0) {fprintf(stderr, "mkdir %s\n", p.c_str()); _exit(2);}}
void ln(const std::string & to, const std::string & p) {if (symlink(to.c_str(), p.c_str()) != 0) {fprintf(stderr, "ln %s\n", p.c_str()); _exit(2);}}

enum Kind {ABSENT, FILE_, EMPTY, LINK, CHAIN, DANGLING, LOOP, DIRECTORY, DIRLINK, MODE0, SOCKET, CASE, NULLDEV, HARDLINK, ODD, DECOY, SLASHED, KINDS,
  FIFO = KINDS, HUGE_FILE};      // the last two never in the place of a token
const char * kKind[] = {"absent", "file", "empty file", "link to a file", "chain of links", "dangling link", "link loop", "directory",
  "link to a directory", "file without permissions", "socket", "file under a wrongly cased name",
  "link to /dev/null", "hard link", "file with odd mode, owner or time", "files with similar names only", "link to a file with a slash at its end", "named pipe", "sparse file of 5 GiB"};

void place(const std::string & dir, const std::string & store, const std::string & name, Kind k, const std::string & content)
{
  const std::string p = dir + "/" + name;
  switch (k) {
    case FILE_: put(p, content); break;
    case EMPTY: put(p, ""); break;
    case LINK: put(store + "/" + name, content); ln("../store/" + name, p); break;
    case CHAIN:
      put(store + "/" + name, content);
      ln(store + "/" + name, store + "/l1_" + name);
      ln("l1_" + name, store + "/l2_" + name);
      ln(store + "/l2_" + name, p);
      break;
    case DANGLING: ln("nowhere_" + name, p); break;
    case LOOP: ln(name, p); break;
    case DIRECTORY: mkd(p); break;
    case DIRLINK: ln(store, p); break;
    case MODE0: put(p, content, 0); break;
    case SOCKET:
      {
        int s = socket(AF_UNIX, SOCK_STREAM, 0);
        sockaddr_un a;
        memset(&a, 0, sizeof(a));
        a.sun_family = AF_UNIX;
        if (s < 0 || p.size() >= sizeof(a.sun_path)) {if (s >= 0) {close(s);} mkd(p); break;}
        memcpy(a.sun_path, p.c_str(), p.size());
        if (bind(s, reinterpret_cast<sockaddr *>(&a), sizeof(a)) != 0) {mkd(p);}
        close(s);
        break;
      }
    case CASE:
      {
        std::string u = name;
        u[0] = static_cast<char>(toupper(static_cast<unsigned char>(u[0])));
        put(dir + "/" + u, content);
        break;
      }
    case NULLDEV: ln("/dev/null", p); break;
    case HARDLINK:
      put(store + "/" + name, content);
      if (link((store + "/" + name).c_str(), p.c_str()) != 0) {put(p, content);}
      break;
    case ODD:
      {
        static const mode_t modes[] = {0600, 0400, 0777, 04755, 0200, 0666, 01644, 0111};
        const uint64_t h = vh::hash_str(p);
        put(p, content, modes[h % 8]);
        if ((h >> 8) % 2 && geteuid() == 0 && chown(p.c_str(), 65534, 65534) != 0) {}
        struct timespec t[2] = {{static_cast<time_t>((h >> 16) % 3 * 2000000000), 0}, {static_cast<time_t>((h >> 18) % 3 * 2000000000), 0}};
        if ((h >> 20) % 2) {utimensat(AT_FDCWD, p.c_str(), t, 0);}
        break;
      }
    case DECOY:
      put(p + ".bak", content);
      put(p + "~", content);
      put(p + " ", content);
      put(dir + "/." + name, content);
      put(dir + "/x" + name, content);
      put(p.substr(0, p.size() - 1), content);
      {
        struct stat st;                             // in the directory above
        if (lstat((dir + "/../" + name).c_str(), &st) != 0) {put(dir + "/../" + name, content);}
      }
      put(store + "/" + name, content);
      break;
    case SLASHED: put(store + "/" + name, content); ln("../store/" + name + "/", p); break;
    case FIFO: if (mkfifo(p.c_str(), 0666) != 0) {mkd(p);} break;
    case HUGE_FILE:
      put(p, content);
      if (truncate(p.c_str(), (off_t{5} << 30) + 1) != 0) {put(p, content);}
      break;
    default: break;
  }
}

// Contents of a token file.
std::string token_content(vh::Rng & r, std::string & what)
{
  static const char * const plain[] = {"pkcs11:token=ROS;object=key", "pkcs11:", "pkcs11:id=%01?pin-value=1234", "pkcs11:model=x;a=b#c",
    "pkcs11:pkcs11:", "pkcs11:\xc3\xa9", "pkcs11:a\\b\"'$(x)"};
  static const char * const bad[] = {"PKCS11:token=x", "pkcs11", "pkcs11 :x", "xpkcs11:token", "file:/x", "-----BEGIN CERTIFICATE-----", "pkcs1:x",
    "Pkcs11:x", "pkcs12:x", ":pkcs11:", "\xef\xbb\xbfpkcs11:token=x", "p", "pkcs11;x", "//pkcs11:x"};
  static const char * const ws[] = {" ", "\n", "\t", "\r\n", "  \n\t ", "\v", "\f"};
  const std::string t = plain[r.below(7)];
  switch (r.below(13)) {
    case 0: case 1: case 2: what = "token"; return t;
    case 3: what = "token and newline"; return t + "\n";
    case 4: what = "token and CRLF"; return t + "\r\n";
    case 5: what = "leading white space"; return std::string(ws[r.below(7)]) + t + ws[r.below(7)];
    case 6: what = "two tokens"; return t + ws[r.below(7)] + plain[r.below(7)];
    case 7: what = "token then junk"; return t + " " + bad[r.below(14)] + "\nmore\n";
    case 8: what = "junk then token"; return std::string(bad[r.below(14)]) + ws[r.below(7)] + t;
    case 9: what = "not a token"; return bad[r.below(14)];
    case 10: what = "white space only"; return std::string(ws[r.below(7)]) + ws[r.below(7)];
    case 11:
      what = "long";
      {
        std::string s = r.chance(1, 2) ? std::string("pkcs11:") : std::string("pkcs11");
        const size_t n = size_t{1} << r.below(18);
        for (size_t i = 0; i < n; ++i) {s += static_cast<char>('a' + i % 26);}
        if (r.chance(1, 3)) {s = std::string(size_t{1} << r.below(15), ' ') + s;}
        return s;
      }
    default:
      what = "binary";
      {
        std::string s = r.chance(1, 2) ? std::string("pkcs11:") : std::string();
        for (size_t i = 0, n = r.below(64); i < n; ++i) {s += static_cast<char>(r.u64());}
        return s;
      }
  }
}

// ------------------------------------------------------------------ what plain system calls see
std::string join(const std::string & root, const std::string & name)
{
  if (root.empty()) {return name;}
  return root.back() == '/' ? root + name : root + "/" + name;
}
bool regular(const std::string & p)
{
  struct stat st;
  return stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode);
}
bool token(const std::string & p, std::string & out)
{
  int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC | O_NONBLOCK);
  if (fd < 0) {return false;}
  std::string all;
  char buf[65536];
  for (;;) {
    ssize_t n = read(fd, buf, sizeof(buf));
    if (n < 0) {close(fd); return false;}
    if (n == 0) {break;}
    all.append(buf, static_cast<size_t>(n));
  }
  close(fd);
  auto space = [](char c) {return c == ' ' || (c >= '\t' && c <= '\r');};
  size_t b = 0;
  while (b < all.size() && space(all[b])) {++b;}
  size_t e = b;
  while (e < all.size() && !space(all[e])) {++e;}
  out = all.substr(b, e - b);
  return out.size() >= 7 && out.compare(0, 7, "pkcs11:") == 0;
}
struct Expected
{
  bool ok = true;
  std::string missing;
  std::map<std::string, std::string> m;          // attribute to path or token
  std::map<std::string, bool> is_path;
};
Expected expect(bool p11, const std::string & root)
{
  Expected x;
  for (auto & a : kAttrs) {
    std::string t;
    if (p11 && a.p11 && token(join(root, a.p11), t)) {
      x.m[a.key] = t;
      x.is_path[a.key] = false;
    } else if (regular(join(root, a.file))) {
      x.m[a.key] = join(root, a.file);
      x.is_path[a.key] = true;
    } else {
      x.ok = false;
      x.missing += std::string(x.missing.empty() ? "" : ",") + a.key;
    }
  }
  if (regular(join(root, kCrl))) {
    x.m["CRL"] = join(root, kCrl);
    x.is_path["CRL"] = true;
  }
  return x;
}
std::string collapse(const std::string & p)
{
  std::string s;
  for (char c : p) {if (c != '/' || s.empty() || s.back() != '/') {s += c;}}
  return s;
}
size_t open_fds()
{
  size_t n = 0;
  if (DIR * d = opendir("/proc/self/fd")) {
    while (readdir(d)) {++n;}
    closedir(d);
  }
  return n;
}

// Without privileges while this lives.
struct AsNobody
{
  bool on;
  explicit AsNobody(bool want) : on(want && geteuid() == 0)
  {
    if (on && seteuid(65534) != 0) {on = false;}
    if (on) {
      vh::count("lookups_without_privilege");
      (void)prctl(PR_SET_DUMPABLE, 1);     // /proc/self/fd stays readable
    }
  }
  ~AsNobody()
  {
    if (on && seteuid(0) != 0) {_exit(2);}
    if (on) {(void)prctl(PR_SET_DUMPABLE, 1);}
  }
  const char * text() const {return on ? " (unprivileged)" : "";}
};

// No file can be opened while this lives.
struct NoDescriptors
{
  rlimit old{};
  bool on;
  explicit NoDescriptors(bool want) : on(want && getrlimit(RLIMIT_NOFILE, &old) == 0)
  {
    rlimit none = old;
    none.rlim_cur = 0;
    if (on && setrlimit(RLIMIT_NOFILE, &none) != 0) {on = false;}
  }
  ~NoDescriptors() {if (on && setrlimit(RLIMIT_NOFILE, &old) != 0) {_exit(2);}}
};
std::string where()
{
  char b[8192];
  return getcwd(b, sizeof(b)) ? b : "?";
}

// Names, kinds, modes, owners, sizes, times of change and links of everything below p.
void walk(const std::string & p, std::string & out)
{
  struct stat st;
  if (lstat(p.c_str(), &st) != 0) {out += p + " unreadable\n"; return;}
  out += p + fmt(" %llu %o %u:%u %lld %lld.%09ld %lld.%09ld %llu", static_cast<unsigned long long>(st.st_ino), static_cast<unsigned>(st.st_mode), st.st_uid, st.st_gid,
      S_ISDIR(st.st_mode) ? 0LL : static_cast<long long>(st.st_size), static_cast<long long>(st.st_mtim.tv_sec), st.st_mtim.tv_nsec,
      static_cast<long long>(st.st_ctim.tv_sec), st.st_ctim.tv_nsec, static_cast<unsigned long long>(st.st_nlink)) + "\n";
  if (!S_ISDIR(st.st_mode)) {return;}
  std::vector<std::string> names;
  if (DIR * d = opendir(p.c_str())) {
    while (dirent * e = readdir(d)) {names.push_back(e->d_name);}
    closedir(d);
  }
  std::sort(names.begin(), names.end());
  for (auto & n : names) {if (n != "." && n != "..") {walk(p + "/" + n, out);}}
}
struct Untouched
{
  std::string dir, before;
  mode_t mask;
  explicit Untouched(const std::string & d)
  : dir(d), mask(umask(022)) {umask(mask); walk(dir, before);}
  void check(const std::string & how)
  {
    std::string after;
    walk(dir, after);
    const mode_t m = umask(mask);
    if (m != mask) {fail("security-umask", how + fmt(": the mask of file modes was %o and is %o", mask, m));}
    vh::count("trees_compared");
    if (after == before) {return;}
    size_t i = 0;
    while (i < after.size() && i < before.size() && after[i] == before[i]) {++i;}
    const size_t b = after.rfind('\n', i) == std::string::npos ? 0 : after.rfind('\n', i ? i - 1 : 0) + 1;
    fail("security-file-system-changed", how + ": the lookup changed the directory, first at: was " + before.substr(std::min(b, before.size()), 300) + " is " + after.substr(b, 300));
  }
};

// One judged call. kind selects the overload: 0 short one, 1 long one with pkcs11 off, 2 with it on.
void judge(int kind, const std::string & prefix, const std::string & root, const std::string & setting, bool prefilled, bool watch_crl, bool fds = true,
  bool starve = false)
{
  std::unique_ptr<NoDescriptors> hungry(starve ? new NoDescriptors(true) : nullptr);
  const Expected x = expect(kind == 2, root);
  hungry.reset();
  Map m;
  if (prefilled) {
    for (auto & a : kAttrs) {m[a.key] = "stale";}
    m["SOMETHING_ELSE"] = "stale";
  }
  const std::string how = fmt("get_security_files(%s) on %s, prefix '%s', root '%s'", kind == 0 ? "files only" : kind == 1 ? "pkcs11=false" : "pkcs11=true",
      setting.c_str(), vh::esc(prefix).c_str(), vh::esc(root).c_str());
  const size_t fd0 = fds ? open_fds() : 0;
  const std::string cwd0 = fds ? where() : std::string();
  bool ok = false;
  try {
    NoDescriptors hunger(starve);
    ok = kind == 0 ? rmw_dds_common::get_security_files(prefix, root, m) : rmw_dds_common::get_security_files(kind == 2, prefix, root, m);
  } catch (const std::exception & e) {
    fail("security-throws", how + " threw: " + e.what());
  }
  const size_t fd1 = fds ? open_fds() : 0;
  vh::count("events");
  vh::count(x.ok ? "lookups_that_should_succeed" : "lookups_that_should_fail");
  if (starve) {vh::count("lookups_without_descriptors");}
  if (fds) {
    if (where() != cwd0) {fail("security-working-directory", how + ": the working directory has changed to " + where());}
  }
  if (fd1 != fd0) {fail("security-descriptors", how + fmt(": %zu descriptors open before, %zu after", fd0, fd1));}
  if (ok && !x.ok) {fail("security-missing-accepted", how + ": succeeded although missing: " + x.missing);}
  if (!ok && x.ok) {fail("security-complete-rejected", how + ": failed although every required file is there");}
  if (!ok) {
    if (!m.empty()) {fail("security-failure-leaves-entries", how + fmt(": failed but left %zu entries, e.g. ", m.size()) + m.begin()->first);}
    return;
  }
  for (auto & kv : x.m) {
    const bool crl = kv.first == "CRL";
    if (crl && !watch_crl) {continue;}
    auto it = m.find(kv.first);
    if (it == m.end()) {fail(crl ? "security-crl-ignored" : "security-entry-missing", how + ": succeeded without an entry for " + kv.first);}
    const std::string & got = it->second;
    bool same;
    if (x.is_path.at(kv.first)) {
      same = got.size() >= prefix.size() && got.compare(0, prefix.size(), prefix) == 0 &&
        collapse(got.substr(prefix.size())) == collapse(kv.second);
    } else {
      same = got == kv.second;
      vh::count("tokens_returned");
    }
    if (!same) {
      fail(x.is_path.at(kv.first) ? "security-path-value" : "security-token-value",
        how + ": " + kv.first + " is '" + vh::esc(got) + fmt("' (%zu bytes) instead of ", got.size()) + (x.is_path.at(kv.first) ? "prefix and " : "token ") +
        "'" + vh::esc(kv.second) + fmt("' (%zu bytes)", kv.second.size()));
    }
  }
  if (!prefilled) {
    for (auto & kv : m) {
      if (!x.m.count(kv.first)) {
        if (kv.first == "CRL" && !watch_crl) {continue;}
        fail(kv.first == "CRL" ? "security-crl-invented" : "security-entry-unknown", how + ": unexpected entry " + kv.first + "=" + vh::esc(kv.second));
      }
    }
  }
}

std::string any_prefix(vh::Rng & r)
{
  switch (r.below(12)) {
    case 0: case 1: return "";
    case 2: case 3: return "file://";
    case 4: return "file:";
    case 5: return "pkcs11:";
    case 6: return "//a//b ";
    case 7: return std::string("a\0b", 3);
    case 8: return "%s%n$1\\";
    case 9: return "\xff\xc3\xa9\n";
    case 10: return " ";
    default: return std::string(1 + r.below(3000), 'p');
  }
}

// A directory with a name and the settings of its files.
struct Enclave
{
  std::string base, dir, store, leaf, setting;
};
std::string leaf_name(vh::Rng & r)
{
  static const char * const n[] = {"enclave", "e", "with space", "\xc3\xa9nclave", "new\nline", "-dash", "%41", "dots..", "a'b\"c", "key.pem", "back\\slash", "enclave.p11",
    "\xff\xfe", "...", "~", "*", " ", "pkcs11:"};
  if (r.chance(1, 10)) {return std::string(200, 'L');}
  return n[r.below(18)];
}
Enclave make(Scratch & s, vh::Rng & r, int i)
{
  Enclave e;
  e.base = s.dir + fmt("/%d", i);
  mkd(e.base);
  e.leaf = leaf_name(r);
  e.dir = e.base + "/" + e.leaf;
  e.store = e.base + "/store";
  mkd(e.dir);
  mkd(e.store);
  return e;
}
void fill(Enclave & e, vh::Rng & r, const char * name, Kind k, const std::string & content, const std::string & what = "")
{
  (void)r;
  place(e.dir, e.store, name, k, content);
  if (k != FILE_ || !what.empty()) {e.setting += std::string(e.setting.empty() ? "" : ", ") + name + ": " + kKind[k] + (what.empty() ? "" : " (" + what + ")");}
}
Kind good_kind(vh::Rng & r)
{
  static const Kind g[] = {FILE_, FILE_, FILE_, FILE_, EMPTY, LINK, CHAIN, MODE0, HARDLINK, ODD};
  return r.chance(1, 40) ? HUGE_FILE : g[r.below(10)];
}
Kind bad_kind(vh::Rng & r)
{
  static const Kind b[] = {ABSENT, ABSENT, DANGLING, DIRECTORY, LOOP, DIRLINK, SOCKET, CASE, NULLDEV, DECOY, SLASHED};
  return b[r.below(11)];
}
// Anything that may stand in the place of a file whose content is not read.
Kind any_kind(vh::Rng & r)
{
  return r.chance(1, 16) ? FIFO : r.chance(1, 40) ? HUGE_FILE : static_cast<Kind>(r.below(KINDS));
}
// Something changes in the directory: the next lookup must see it.
void disturb(Enclave & e, vh::Rng & r)
{
  auto redo = [&](const char * name, Kind k, const std::string & content, const std::string & what = "") {
      const std::string p = e.dir + "/" + name;
      wipe(p);
      wipe(e.store + "/" + name);
      wipe(e.store + "/l1_" + name);
      wipe(e.store + "/l2_" + name);
      place(e.dir, e.store, name, k, content);
      e.setting += std::string("; then ") + name + ": " + kKind[k] + (what.empty() ? "" : " (" + what + ")");
    };
  const Attr & a = kAttrs[r.below(6)];
  switch (r.below(7)) {
    case 0: case 1: redo(a.file, r.chance(2, 3) ? good_kind(r) : bad_kind(r), "pem2"); break;
    case 2: case 3:
      if (a.p11) {
        std::string what;
        const std::string t = token_content(r, what);
        redo(a.p11, r.chance(3, 4) ? FILE_ : bad_kind(r), t, what + ": " + vh::esc(t.substr(0, 24)));
      } else {
        redo(a.file, r.chance(1, 2) ? FILE_ : ABSENT, "pem2");
      }
      break;
    case 4: redo(kCrl, r.chance(1, 2) ? FILE_ : ABSENT, "crl2"); break;
    case 5:    // the other files are put right
      for (auto & x : kAttrs) {
        if (!regular(e.dir + "/" + x.file)) {redo(x.file, FILE_, "pem3");}
      }
      break;
    default:   // a token changes in place: same size, same times
      for (auto & x : kAttrs) {
        std::string t;
        const std::string p = x.p11 ? e.dir + "/" + x.p11 : "";
        struct stat st;
        if (x.p11 && lstat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode) && st.st_size >= 8 && token(p, t) && t.size() > 7) {
          const int fd = open(p.c_str(), O_RDWR | O_CLOEXEC);
          if (fd < 0) {continue;}
          const char z = t.back() == 'z' ? 'y' : 'z';
          char one = 0;
          off_t at = 0;                // the byte after the last one of the word's prefix
          std::string head(static_cast<size_t>(std::min<off_t>(st.st_size, 1 << 16)), 0);
          if (pread(fd, &head[0], head.size(), 0) == static_cast<ssize_t>(head.size())) {
            const size_t f = head.find("pkcs11:");
            if (f != std::string::npos && f + 7 < head.size()) {
              at = static_cast<off_t>(f) + 7;
              one = head[f + 7] == z ? 'x' : z;
              if (pwrite(fd, &one, 1, at) == 1) {e.setting += std::string("; then ") + x.p11 + " changes by one byte";}
            }
          }
          struct timespec ts[2] = {st.st_atim, st.st_mtim};
          futimens(fd, ts);
          close(fd);
        }
      }
  }
}
// A root naming the directory, possibly relative to a new working directory.
std::string root_of(const Enclave & e, vh::Rng & r)
{
  auto cd = [](const std::string & d) {if (chdir(d.c_str()) != 0) {fprintf(stderr, "chdir\n"); _exit(2);}};
  switch (r.below(14)) {
    case 10:     // a link, then "..": not what the text suggests
      mkd(e.base + "/deep");
      mkd(e.base + "/deep/er");
      ln("deep/er", e.base + "/away");
      ln("../" + e.leaf, e.base + "/deep/" + "x");
      return e.base + "/away/../x";
    case 11:     // in a long, but legal path
      {
        std::string d = e.dir;
        const size_t want = 3900 + r.below(150);
        while (d.size() + 2 < want) {d += "/.";}
        return d;
      }
    case 12: cd("/"); return e.dir.substr(1);
    case 0: case 1: return e.dir;
    case 2: return e.dir + "/";
    case 3: return e.dir + "//";
    case 4: return e.dir + "/.";
    case 5: return e.dir + "/../" + e.leaf;
    case 6: cd(e.base); return e.leaf;
    case 7: cd(e.base); return "./" + e.leaf + "/";
    case 8: cd(e.dir); return "";
    case 9: cd(e.dir); return ".";
    default: ln(e.leaf, e.base + "/to_root"); return e.base + "/to_root";
  }
}
void seen(const Enclave & e, const std::string & root, int kind, const std::string & prefix)
{
  vh::distinct(vh::hash_str(e.setting + "|" + e.leaf + "|" + prefix + "|" + root.substr(std::min(root.size(), e.base.size()))) + static_cast<uint64_t>(kind));
  if (vh::want_sample()) {vh::sample("root '" + vh::esc(root) + "', prefix '" + vh::esc(prefix) + "': " + (e.setting.empty() ? "all ordinary files" : e.setting));}
}
// Tokens where none is looked for.
void stray_tokens(Enclave & e, vh::Rng & r)
{
  static const char * const names[] = {"governance.p11", "permissions.p11", "crl.p11", "identity_ca.p11", "permissions_ca.p11", "cert.pem.p11", "key.pem.p11",
    "governance.p7s.p11", "identity_ca.cert.pem.p11", "crl.pem.p11"};
  for (int k = 0; k < 10; ++k) {
    if (r.chance(1, k < 3 ? 2 : 8)) {
      std::string what = "stray token";
      fill(e, r, names[k], FILE_, r.chance(3, 4) ? std::string("pkcs11:token=stray") : token_content(r, what), what);
    }
  }
}
void s01(Case & c)
{
  vh::Rng & r = c.rng;
  Scratch s;
  for (int round = 0; round < 8; ++round) {
    Enclave e = make(s, r, round);
    unsigned mask = static_cast<unsigned>((c.index * 8 + static_cast<uint64_t>(round)) & 63);     // every subset in turn
    if (r.chance(1, 3)) {mask = 63;}
    for (int i = 0; i < 6; ++i) {
      fill(e, r, kAttrs[i].file, (mask >> i & 1) ? good_kind(r) : (r.chance(1, 2) ? ABSENT : r.chance(1, 2) ? CASE : DECOY), "pem");
      std::string what;
      if (kAttrs[i].p11 && r.chance(1, 3)) {fill(e, r, kAttrs[i].p11, FILE_, token_content(r, what), what);}    // must not matter
    }
    if (r.chance(1, 4)) {fill(e, r, kCrl, FILE_, "crl");}
    if (r.chance(1, 4)) {fill(e, r, "README", FILE_, "other");}
    if (r.chance(1, 6)) {stray_tokens(e, r);}
    const std::string root = root_of(e, r);
    for (int turn = 0; turn < 4; ++turn) {
      const int kind = turn & 1;
      const std::string prefix = any_prefix(r);
      const bool pre = r.chance(1, 3);
      if (turn == 2) {
        if (r.chance(1, 2)) {break;}
        disturb(e, r);
        vh::count("directories_changed");
      }
      c.note(fmt("kind %d prefix '%s' root '%s' prefilled %d: %s", kind, vh::esc(prefix).c_str(), vh::esc(root).c_str(), pre, e.setting.c_str()));
      {
        AsNobody low(r.chance(1, 3));
        judge(kind, prefix, root, e.setting + low.text(), pre, false);
      }
      seen(e, root, kind, prefix);
    }
    if (mask != 63) {vh::count("incomplete_directories");} else {vh::count("complete_directories");}
  }
}
void s02(Case & c)
{
  vh::Rng & r = c.rng;
  Scratch s;
  for (int round = 0; round < 8; ++round) {
    Enclave e = make(s, r, round);
    const bool lean = r.chance(1, 2);
    for (auto & a : kAttrs) {
      bool have_token = false;
      if (a.p11 && r.chance(3, 4)) {
        std::string what;
        const std::string t = token_content(r, what);
        const Kind k = r.chance(1, 6) ? bad_kind(r) : r.chance(1, 8) ? EMPTY : r.chance(1, 4) ? LINK : FILE_;
        fill(e, r, a.p11, k, t, what + ": " + vh::esc(t.substr(0, 24)));
        std::string dummy;
        have_token = token(e.dir + "/" + a.p11, dummy);
      }
      // a token usually stands alone; without one the file is usually there
      if (have_token ? r.chance(1, lean ? 4 : 2) : !r.chance(1, lean ? 12 : 40)) {fill(e, r, a.file, good_kind(r), "pem", a.p11 ? "present" : "");}
    }
    if (r.chance(1, 4)) {fill(e, r, kCrl, FILE_, "crl");}
    if (r.chance(1, 3)) {stray_tokens(e, r);}
    const std::string root = root_of(e, r);
    for (int turn = 0; turn < 4; ++turn) {
      const int kind = 1 + (turn & 1);
      if (turn == 2) {
        if (r.chance(1, 2)) {break;}
        disturb(e, r);
        vh::count("directories_changed");
      }
      const std::string prefix = any_prefix(r);
      const bool pre = r.chance(1, 4);
      c.note(fmt("kind %d prefix '%s' root '%s' prefilled %d: %s", kind, vh::esc(prefix).c_str(), vh::esc(root).c_str(), pre, e.setting.c_str()));
      {
        AsNobody low(r.chance(1, 3));
        judge(kind, prefix, root, e.setting + low.text(), pre, false);
      }
      seen(e, root, kind, prefix);
    }
  }
}
void s03(Case & c)
{
  vh::Rng & r = c.rng;
  Scratch s;
  for (int round = 0; round < 6; ++round) {
    Enclave e = make(s, r, round);
    const bool hostile_root = r.chance(1, 2);
    const unsigned hurt = hostile_root && r.chance(1, 2) ? 0 : 1u << r.below(6);
    const bool any_p11 = r.chance(1, 2);
    for (int i = 0; i < 6; ++i) {
      fill(e, r, kAttrs[i].file, (hurt >> i & 1) ? any_kind(r) : r.chance(1, 12) ? bad_kind(r) : good_kind(r), "pem");
      if (kAttrs[i].p11 && any_p11) {
        std::string what;
        const std::string t = token_content(r, what);
        fill(e, r, kAttrs[i].p11, static_cast<Kind>(r.below(KINDS)), t, what);
      }
    }
    fill(e, r, kCrl, any_kind(r), "crl");
    std::string root;
    if (!hostile_root) {
      root = root_of(e, r);
    } else {
      std::string what;
      switch (r.below(11)) {
        case 0: what = "absent root"; root = e.base + "/nowhere"; break;
        case 1: what = "a file as root"; put(e.base + "/plain", "x"); root = e.base + "/plain"; break;
        case 2: what = "looping root"; ln("loop", e.base + "/loop"); root = e.base + "/loop"; break;
        case 3: what = "dangling root"; ln("nothing", e.base + "/dang"); root = e.base + "/dang/"; break;
        case 4: what = "root without permissions"; chmod(e.dir.c_str(), 0); root = e.dir; break;
        case 5: what = "root behind a directory without permissions"; chmod(e.base.c_str(), 0); root = e.dir; break;
        case 6: what = "over-long name"; root = e.base + "/" + std::string(256 + r.below(300), 'n'); break;
        case 7:
          what = "over-long path";
          root = e.dir;
          if (r.chance(1, 2)) {
            for (size_t i = 0, n = 1 + r.below(2) * 2500 + r.below(2500); i < n; ++i) {root += "/.";}
          } else {         // some of the names fit into a path, others do not
            while (root.size() < 4060) {root += "/.";}
            for (size_t i = 0, n = r.below(40); i < n; ++i) {root += r.chance(1, 2) ? "/" : "/.";}
          }
          break;
        case 8:
          what = "working directory removed";
          mkd(e.base + "/gone");
          if (chdir((e.base + "/gone").c_str()) != 0 || rmdir((e.base + "/gone").c_str()) != 0) {_exit(2);}
          root = r.chance(1, 2) ? "" : r.chance(1, 2) ? "." : e.leaf;
          break;
        case 9: what = "readable but not searchable root"; chmod(e.dir.c_str(), 0444); root = e.dir; break;
        default: what = "a file of the enclave as root"; root = e.dir + "/" + kAttrs[r.below(6)].file; break;
      }
      e.setting = what + ", " + e.setting;
      vh::count("hostile_roots");
    }
    for (int turn = 0; turn < 5; ++turn) {
      const int kind = turn % 3;
      if (turn == 3) {
        if (hostile_root || r.chance(1, 2)) {break;}
        disturb(e, r);
        vh::count("directories_changed");
      }
      const std::string prefix = any_prefix(r);
      const bool pre = r.chance(1, 4);
      Untouched tree(s.dir);
      const bool was_low = [&]() {
        AsNobody low(r.chance(2, 3));
        c.note(fmt("kind %d%s prefix '%s' root '%s' prefilled %d: %s", kind, low.on ? " (unprivileged)" : "", vh::esc(prefix).c_str(), vh::esc(root).c_str(), pre, e.setting.c_str()));
        const bool starve = !low.on && r.chance(1, 6);
        judge(kind, prefix, root, e.setting + (low.on ? " (unprivileged)" : "") + (starve ? " (no descriptor left)" : ""), pre, false, true, starve);
        return low.on;
      }();
      tree.check(fmt("lookup of kind %d%s at root '%s'", kind, was_low ? " (unprivileged)" : "", vh::esc(root).c_str()));
      seen(e, root, kind, prefix);
    }
    if (chdir(s.cwd.c_str()) != 0) {_exit(2);}
  }
}
// Every allocation of a lookup fails once.
void s06(Case & c)
{
  vh::Rng & r = c.rng;
  Scratch s;
  Enclave e = make(s, r, 0);
  {
    vh::Unaccounted u;
    for (auto & a : kAttrs) {
      bool have_token = false;
      if (a.p11 && r.chance(1, 2)) {
        std::string what;
        const std::string t = token_content(r, what);
        fill(e, r, a.p11, r.chance(1, 8) ? bad_kind(r) : FILE_, t, what);
        have_token = token(e.dir + "/" + a.p11, what);
      }
      if (!have_token || r.chance(2, 3)) {
        if (!r.chance(1, 30)) {fill(e, r, a.file, good_kind(r), "pem", a.p11 ? "present" : "");}
      }
    }
    if (r.chance(1, 2)) {fill(e, r, kCrl, FILE_, "crl");}
  }
  std::string root = r.chance(1, 20) ? e.base + "/nowhere" : r.chance(1, 2) ? root_of(e, r) : e.dir;
  // No slash at the end: there libstdc++ 13 itself crashes in path::operator/= when memory runs out.
  while (!root.empty() && root.back() == '/') {root.pop_back();}
  const std::string prefix = any_prefix(r);
  const int kind = static_cast<int>(r.below(3));
  c.note(fmt("kind %d prefix '%s' root '%s': %s", kind, vh::esc(prefix).c_str(), vh::esc(root).c_str(), e.setting.c_str()));
  judge(kind, prefix, root, e.setting, false, true);
  std::vector<Expected> good;          // what the file system allows: tokens, or the files behind them
  good.push_back(expect(kind == 2, root));
  good.push_back(expect(false, root));
  const bool pre = r.chance(1, 3);
  auto look = [&](Map & m) {
      return kind == 0 ? rmw_dds_common::get_security_files(prefix, root, m) : rmw_dds_common::get_security_files(kind == 2, prefix, root, m);
    };
  uint64_t calls = 0;
  for (int64_t k = -1; k < static_cast<int64_t>(calls); k += k < 200 || r.chance(1, 8) ? 1 : 1 + static_cast<int64_t>(calls / 100)) {
    const std::string how = fmt("get_security_files(kind %d) on %s, root '%s', allocation %lld of %llu fails", kind, e.setting.c_str(), vh::esc(root).c_str(),
        static_cast<long long>(k), static_cast<unsigned long long>(calls));
    const size_t fd0 = open_fds();
    const int64_t live0 = vh::live_blocks();
    bool threw = false;
    {
      Map m;
      {
        vh::Unaccounted u;
        if (pre) {m["CERTIFICATE"] = "stale"; m["SOMETHING_ELSE"] = "stale";}
      }
      bool ok = false;
      try {
        vh::NewFault f(k);
        ok = look(m);
        if (k < 0) {calls = vh::NewFault::calls();}
      } catch (const std::bad_alloc &) {
        threw = true;
      } catch (const std::exception & x) {
        fail("security-throws", how + std::string(" threw: ") + x.what());
      }
      if (vh::NewFault::fired()) {vh::count(threw ? "failed_allocations_reported" : "failed_allocations_survived");}
      if (threw && !vh::NewFault::fired()) {fail("security-throws", how + ": bad_alloc without a failed allocation");}
      vh::Unaccounted u;
      if (!threw && !ok && !m.empty()) {fail("security-failure-leaves-entries", how + ": failed but left " + m.begin()->first);}
      if (!threw && ok) {
        for (auto & kv : good[0].m) {if (!m.count(kv.first)) {fail("security-entry-missing", how + ": succeeded without an entry for " + kv.first);}}
      }
      for (auto & kv : m) {
        if (pre && kv.second == "stale" && (threw || kv.first == "SOMETHING_ELSE")) {continue;}
        if (threw && kv.second.empty()) {continue;}       // an entry without a value yet
        bool right = false;
        for (auto & x : good) {
          auto it = x.m.find(kv.first);
          if (it == x.m.end()) {continue;}
          right = right || (x.is_path.at(kv.first) ? kv.second.size() >= prefix.size() && kv.second.compare(0, prefix.size(), prefix) == 0 &&
            collapse(kv.second.substr(prefix.size())) == collapse(it->second) : kv.second == it->second);
        }
        if (!right) {fail("security-wrong-entry", how + ": " + kv.first + " is '" + vh::esc(kv.second) + "'");}
      }
    }
    if (vh::live_blocks() != live0) {fail("security-leak", how + fmt(": %lld blocks more than before", static_cast<long long>(vh::live_blocks() - live0)));}
    if (open_fds() != fd0) {fail("security-descriptors", how + ": a descriptor stays open");}
    vh::count("events");
  }
  judge(kind, prefix, root, e.setting, false, true);
  judge((kind + 1) % 3, prefix, root, e.setting, false, true);
  seen(e, root, kind, prefix);
}
void s04(Case & c)
{
  vh::Rng & r = c.rng;
  Scratch s;
  for (int round = 0; round < 8; ++round) {
    Enclave e = make(s, r, round);
    const bool complete = !r.chance(1, 4);
    const size_t gone = r.below(6);
    for (size_t i = 0; i < 6; ++i) {
      if (complete || i != gone) {fill(e, r, kAttrs[i].file, FILE_, "pem");}
    }
    std::string what;
    if (r.chance(1, 3)) {fill(e, r, "crl.p11", FILE_, "pkcs11:crl");}
    fill(e, r, kCrl, r.chance(1, 2) ? good_kind(r) : any_kind(r), "crl");
    const std::string root = root_of(e, r);
    for (int turn = 0; turn < 6; ++turn) {
      const int kind = turn % 3;
      if (turn == 3) {
        if (r.chance(1, 2)) {break;}
        disturb(e, r);
        vh::count("directories_changed");
      }
      const std::string prefix = any_prefix(r);
      c.note(fmt("kind %d prefix '%s' root '%s': %s", kind, vh::esc(prefix).c_str(), vh::esc(root).c_str(), e.setting.c_str()));
      {
        AsNobody low(r.chance(1, 3));
        judge(kind, prefix, root, e.setting + low.text(), false, true);
      }
      seen(e, root, kind, prefix);
    }
    vh::count(regular(join(root, kCrl)) ? "with_revocation_list" : "without_revocation_list");
  }
}
void s05(Case & c)
{
  vh::Rng & r = c.rng;
  Scratch s;
  std::vector<Enclave> es;
  for (int i = 0; i < 5; ++i) {
    Enclave e = make(s, r, i);
    for (auto & a : kAttrs) {
      std::string what;
      bool have_token = false;
      if (a.p11 && r.chance(1, 2)) {
        const std::string t = token_content(r, what);
        fill(e, r, a.p11, r.chance(1, 5) ? bad_kind(r) : FILE_, t, what);
        have_token = token(e.dir + "/" + a.p11, what);
      }
      if (!have_token || r.chance(1, 2)) {if (!r.chance(1, 16)) {fill(e, r, a.file, good_kind(r), "pem");}}
    }
    if (r.chance(1, 2)) {fill(e, r, kCrl, FILE_, "crl");}
    es.push_back(e);
  }
  if (chdir(s.dir.c_str()) != 0) {_exit(2);}
  std::vector<std::function<void()>> bodies;
  const size_t nt = 4 + r.below(5);
  for (size_t t = 0; t < nt; ++t) {
    const uint64_t seed = r.u64();
    bodies.push_back([seed, &es]() {
        vh::Rng q(seed);
        for (int i = 0; i < 12; ++i) {
          const Enclave & e = es[q.below(es.size())];
          judge(static_cast<int>(q.below(3)), any_prefix(q), q.chance(1, 8) ? e.base + "/nowhere" : q.chance(1, 3) ? e.base.substr(e.base.rfind('/') + 1) + "/" + e.leaf : e.dir, e.setting, q.chance(1, 4), false, false);
        }
      });
  }
  sched::run(bodies, r.u64(), 0);
  vh::count("executions");
  vh::count("events", nt * 12);
  vh::distinct(r.u64());
  if (vh::want_sample()) {vh::sample(fmt("%zu threads, 12 lookups each over %zu directories, e.g. ", nt, es.size()) + es[0].setting);}
}
}  // namespace

int main(int argc, char ** argv)
{
  return vh::run(argc, argv, {{"s01", s01}, {"s02", s02}, {"s03", s03}, {"s04", s04}, {"s05", s05}, {"s06", s06}});
}
