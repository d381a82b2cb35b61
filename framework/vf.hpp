// Minimal monitoring harness used by every driver.
//
// A driver registers groups; a group is a numbered family of cases.  run.py
// starts the driver once per shard (group, first, last), each case gets its own
// PRNG derived from (seed, group, index), so any case replays alone.  The case
// number in progress is kept in a file-backed mapping: when the process dies
// (sanitizer report, assert, signal, CPU limit) run.py knows which case it was,
// records the death as a violation and resumes after it.
#ifndef VF_HPP
#define VF_HPP
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <algorithm>
#include <ctime>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#if defined(VF_MEMCHECK)
#include <valgrind/memcheck.h>
#endif
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace vf {

struct Rng { // splitmix64 / xoshiro-free, small and portable
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  // integer in [a,b]
  long i(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }
  bool p(double q) { return u() < q; }
  double n() { // normal
    double a = u(), b = u();
    if (a < 1e-300) a = 1e-300;
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
  }
  double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
  double sgn() { return p(0.5) ? 1.0 : -1.0; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[(size_t)i(0, (long)v.size() - 1)]; }
  template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[(size_t)i(0, (long)N - 1)]; }
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t k = 0; k < n; k++) { h ^= c[k]; h *= 1099511628211ull; }
  return h;
}

struct State {
  uint64_t seed = 1;
  bool thorough = false;
  std::string group;
  long idx = 0;
  long evaluations = 0;
  std::map<std::string, long> events;
  std::map<std::string, double> maxima;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples, auto_samples;
  std::map<std::string, int> viol_count;
  double cpu_max = 0; // most CPU time any one case took
  FILE *out = nullptr;
  volatile int64_t *progress = nullptr;
  std::string scratch;
};
inline State &S() { static State s; return s; }

inline std::string esc(const std::string &x) {
  std::string o;
  for (unsigned char c : x) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  char b[4096];
  va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  return b;
}

struct Ctx {
  Rng r;
  long idx;
  bool thorough;
  // a refutation: key names the oracle (stable), detail is the witness
  void viol(const std::string &key, const std::string &detail) {
    State &s = S();
    int &c = s.viol_count[key];
    if (++c > 3) return;
    fprintf(s.out, "{\"t\":\"viol\",\"key\":\"%s/%s\",\"idx\":%ld,\"detail\":\"%s\"}\n", esc(s.group).c_str(),
            esc(key).c_str(), idx, esc(detail).c_str());
    fflush(s.out);
  }
  bool check(bool ok, const char *key, const char *f, ...) __attribute__((format(printf, 4, 5))) {
    S().events[std::string("check:") + key]++;
    if (ok) return true;
    char b[4096];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    viol(key, b);
    return false;
  }
  // |a-b| <= tol (NaN fails); the largest ratio seen is reported as evidence
  bool near(double a, double b, double tol, const char *key, const std::string &what = "") {
    S().events[std::string("check:") + key]++;
    double d = std::fabs(a - b);
    if (a == b) d = 0; // inf==inf
    double ratio = tol > 0 ? d / tol : (d == 0 ? 0 : INFINITY);
    if (ratio == ratio) { double &m = S().maxima[key]; if (ratio > m) m = ratio; }
    if (d <= tol) return true;
    viol(key, fmt("%s: got %.17g expected %.17g (tol %.3g)", what.c_str(), a, b, tol));
    return false;
  }
  void event(const char *name, long n = 1) { S().events[name] += n; }
  void distinct(uint64_t h) { S().distinct.insert(h); }
  void distinct(const std::string &x) {
    // the first keys seen double as samples when a driver gives none itself
    if (S().distinct.insert(fnv(x.data(), x.size())).second && S().auto_samples.size() < 2) S().auto_samples.push_back(x.substr(0, 300));
  }
  void sample(const std::string &x) { if (S().samples.size() < 2) S().samples.push_back(x); }
  std::string scratch() const { return S().scratch; }
};

struct Group {
  const char *name; long q, t; void (*fn)(Ctx &);
};
inline std::vector<Group> &groups() { static std::vector<Group> g; return g; }
struct Reg { Reg(const char *n, long q, long t, void (*f)(Ctx &)) { groups().push_back({n, q, t, f}); } };
#define VF_GROUP(name, quick_n, thorough_n)                                    \
  static void name##_case(vf::Ctx &);                                          \
  static vf::Reg name##_reg(#name, quick_n, thorough_n, name##_case);          \
  static void name##_case(vf::Ctx &c)

// bytes currently allocated (0 when the build cannot tell)
inline size_t live_bytes() {
#if defined(__SANITIZE_ADDRESS__)
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

// true when every byte is initialised as far as memcheck can tell
inline bool defined_mem(const void *p, size_t n) {
#if defined(VF_MEMCHECK)
  return VALGRIND_CHECK_MEM_IS_DEFINED(p, n) == 0;
#else
  (void)p; (void)n; return true;
#endif
}

inline long memcheck_errors() {
#if defined(VF_MEMCHECK)
  return (long)VALGRIND_COUNT_ERRORS;
#else
  return 0;
#endif
}

inline void flush_summary() {
  State &s = S();
  fprintf(s.out, "{\"t\":\"sum\",\"evaluations\":%ld,\"cpu_max\":%.3f,\"events\":{", s.evaluations, s.cpu_max);
  bool first = true;
  for (auto &e : s.events) { fprintf(s.out, "%s\"%s\":%ld", first ? "" : ",", esc(e.first).c_str(), e.second); first = false; }
  fprintf(s.out, "},\"maxima\":{");
  first = true;
  for (auto &e : s.maxima) {
    double v = e.second; if (!(v < 1e300)) v = 1e300;
    fprintf(s.out, "%s\"%s\":%.4g", first ? "" : ",", esc(e.first).c_str(), v); first = false; }
  fprintf(s.out, "},\"samples\":[");
  first = true;
  for (auto &e : s.samples.empty() ? s.auto_samples : s.samples) { fprintf(s.out, "%s\"%s\"", first ? "" : ",", esc(e).c_str()); first = false; }
  fprintf(s.out, "],\"distinct\":[");
  first = true;
  for (auto h : s.distinct) { fprintf(s.out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
  fprintf(s.out, "]}\n");
  fflush(s.out);
}

inline int vf_main(int argc, char **argv) {
  State &s = S();
  std::string group, out, prog;
  long a = 0, b = 0; long cpu = 30;
  for (int k = 1; k < argc; k++) {
    std::string x = argv[k];
    auto nx = [&]() { return std::string(k + 1 < argc ? argv[++k] : ""); };
    if (x == "--list") {
      for (auto &g : groups()) printf("%s %ld %ld\n", g.name, g.q, g.t);
      return 0;
    } else if (x == "--group") group = nx();
    else if (x == "--from") a = atol(nx().c_str());
    else if (x == "--to") b = atol(nx().c_str());
    else if (x == "--seed") s.seed = strtoull(nx().c_str(), nullptr, 10);
    else if (x == "--thorough") s.thorough = true;
    else if (x == "--out") out = nx();
    else if (x == "--progress") prog = nx();
    else if (x == "--cpu") cpu = atol(nx().c_str());
    else if (x == "--scratch") s.scratch = nx();
  }
  const Group *gp = nullptr;
  for (auto &g : groups()) if (group == g.name) gp = &g;
  if (!gp) { fprintf(stderr, "no such group\n"); return 3; }
  s.group = group;
  s.out = out.empty() ? stderr : fopen(out.c_str(), "a");
  if (!s.out) return 3;
  setvbuf(s.out, nullptr, _IOFBF, 1 << 16);
  static int64_t dummy;
  s.progress = &dummy;
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 16)) return 3;
    void *p = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (p == MAP_FAILED) return 3;
    s.progress = (volatile int64_t *)p;
  }
  const uint64_t gh = fnv(group.data(), group.size());
  for (long i = a; i < b; i++) {
    s.idx = i;
    s.progress[0] = i;
    struct itimerval tv = {{0, 0}, {cpu, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr); // SIGPROF kills a runaway case
    Ctx c{Rng(0), i, s.thorough};
    Rng seeder(s.seed * 0x9E3779B97F4A7C15ull ^ gh ^ ((uint64_t)i * 0xD1342543DE82EF95ull));
    c.r = Rng(seeder.next());
    long m0 = memcheck_errors();
    const clock_t c0 = clock();
    gp->fn(c);
    s.cpu_max = std::max(s.cpu_max, (double)(clock() - c0) / CLOCKS_PER_SEC);
    long m1 = memcheck_errors();
    if (m1 != m0) c.viol("memcheck", fmt("%ld memcheck error(s) in this case", m1 - m0));
    s.evaluations++;
    // keep the captured stderr small
    struct stat st;
    if ((i & 15) == 0 && fstat(2, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > (1 << 20)) { if (ftruncate(2, 0)) {} }
    if ((i & 15) == 0 && fstat(1, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > (1 << 20)) { if (ftruncate(1, 0)) {} }
  }
  s.progress[1] = 1;
  flush_summary();
  fclose(s.out);
  return 0;
}
} // namespace vf
#ifndef VF_NO_MAIN
int main(int argc, char **argv) { return vf::vf_main(argc, argv); }
#endif
#endif
