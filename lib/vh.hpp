// Runtime-monitoring harness kit: seeded case generation, event counters,
// distinct-observation accounting, violation log, hang watchdog, JSON report.
#pragma once
#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

inline std::uint64_t mix(std::uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

inline std::uint64_t hash(std::string_view s, std::uint64_t h = 1469598103934665603ull)
{
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return mix(h);
}

struct rng {
  std::uint64_t s;
  explicit rng(std::uint64_t seed = 1)
      : s(mix(seed))
  {
  }
  std::uint64_t u64()
  {
    s += 0x9e3779b97f4a7c15ull;
    std::uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  std::size_t below(std::size_t n) { return n ? std::size_t(u64() % n) : 0; }
  // uniform in [lo, hi]
  long range(long lo, long hi) { return lo + long(below(std::size_t(hi - lo + 1))); }
  bool chance(int num, int den) { return below(std::size_t(den)) < std::size_t(num); }
  bool flip() { return u64() & 1; }
  template <class C>
  auto pick(const C& c) -> decltype(*std::begin(c))
  {
    return *(std::begin(c) + long(below(std::size(c))));
  }
  template <class T>
  T one_of(std::initializer_list<T> c)
  {
    return *(c.begin() + below(c.size()));
  }
  // length biased towards small values and towards interesting boundaries
  std::size_t len(std::size_t max)
  {
    switch (below(6)) {
    case 0: return below(std::min<std::size_t>(max, 3) + 1);
    case 1: return below(std::min<std::size_t>(max, 16) + 1);
    case 2: return below(std::min<std::size_t>(max, 100) + 1);
    default: return below(max + 1);
    }
  }
  std::string bytes(std::size_t n)
  {
    std::string r(n, 0);
    for (auto& c : r) c = char(u64());
    return r;
  }
  std::string from(std::string_view alphabet, std::size_t n)
  {
    std::string r(n, 0);
    for (auto& c : r) c = alphabet[below(alphabet.size())];
    return r;
  }
  template <class C>
  void shuffle(C& c)
  {
    for (std::size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[below(i)]);
  }
};

inline std::string esc(std::string_view s, std::size_t max = 200)
{
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (i >= max) {
      r += "...(" + std::to_string(s.size()) + " bytes)";
      break;
    }
    unsigned char c = (unsigned char)s[i];
    if (c == '\\') r += "\\\\";
    else if (c >= 0x20 && c < 0x7f) r += char(c);
    else {
      char b[8];
      std::snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    }
  }
  return r;
}

inline std::string json_str(std::string_view s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else r += char(c);
  }
  return r + "\"";
}

struct violation {
  std::string key, detail, suite;
  long index;
};

struct state {
  std::uint64_t seed = 1;
  long shard = 0, nshards = 1, only_case = -1;
  double scale = 1;
  bool thorough = false;
  std::string only_suite, out, status_path;
  int status_fd = -1;
  std::mutex mx;
  std::map<std::string, std::uint64_t> counters;
  std::map<std::string, std::uint64_t> required;
  std::uint64_t evaluations = 0;
  std::unordered_set<std::uint64_t> distinct;
  std::map<std::string, std::vector<std::string>> samples;
  std::vector<violation> violations;
  std::map<std::string, int> per_key;
  std::string suite;
  long index = -1;
  unsigned case_limit_s = 40;
};

inline state& st()
{
  static state s;
  return s;
}

inline void count(const std::string& name, std::uint64_t n = 1)
{
  std::lock_guard l(st().mx);
  st().counters[name] += n;
}
inline void require(const std::string& name, std::uint64_t min = 1)
{
  std::lock_guard l(st().mx);
  st().required[name] = min;
}
// one oracle evaluation
inline void eval(std::uint64_t n = 1)
{
  std::lock_guard l(st().mx);
  st().evaluations += n;
}
// a distinct, non-trivial observation (input x outcome, history, interleaving..)
inline void seen(std::string_view s)
{
  std::lock_guard l(st().mx);
  if (st().distinct.size() < 2000000) st().distinct.insert(hash(s, hash(st().suite)));
}
inline void sample(const std::string& s)
{
  std::lock_guard l(st().mx);
  auto& v = st().samples[st().suite];
  if (v.size() < 2) v.push_back(s.substr(0, 400));
}
inline void fail(const std::string& key, const std::string& detail)
{
  std::lock_guard l(st().mx);
  if (st().per_key[key]++ < 3) {
    st().violations.push_back({ key, detail.substr(0, 4000), st().suite, st().index });
    std::fprintf(stderr, "vh: violation %s [%s#%ld]: %s\n", key.c_str(), st().suite.c_str(), st().index,
                 detail.substr(0, 1000).c_str());
    // also on disk at once, so that a later abort does not lose it
    if (!st().out.empty())
      if (auto* fp = std::fopen((st().out + ".viol").c_str(), "a")) {
        std::fprintf(fp, "{\"key\":%s,\"detail\":%s,\"suite\":%s,\"case\":%ld}\n", json_str(key).c_str(),
                     json_str(detail.substr(0, 4000)).c_str(), json_str(st().suite).c_str(), st().index);
        std::fclose(fp);
      }
  }
}
inline bool check(bool ok, const std::string& key, const std::function<std::string()>& detail)
{
  eval();
  if (!ok) fail(key, detail());
  return ok;
}
#define VH_CHECK(cond, key, detail)                                                                                \
  do {                                                                                                             \
    ::vh::eval();                                                                                                  \
    if (!(cond)) ::vh::fail((key), (detail));                                                                      \
  } while (0)

// A case body; rng is derived from (seed, suite, index) only, so a case can be
// replayed alone.
struct suite_def {
  std::string name;
  long quick, thorough;
  std::function<void(rng&, long)> body;
};
inline std::vector<suite_def>& suites()
{
  static std::vector<suite_def> v;
  return v;
}
struct reg {
  reg(std::string name, long quick, long thorough, std::function<void(rng&, long)> body)
  {
    suites().push_back({ std::move(name), quick, thorough, std::move(body) });
  }
};
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define VH_SUITE(name, quick, thorough)                                                                            \
  static void VH_CAT(vh_body_, __LINE__)(::vh::rng&, long);                                                        \
  static ::vh::reg VH_CAT(vh_reg_, __LINE__)(name, quick, thorough, &VH_CAT(vh_body_, __LINE__));                  \
  static void VH_CAT(vh_body_, __LINE__)([[maybe_unused]] ::vh::rng & r, [[maybe_unused]] long idx)

inline bool thorough() { return st().thorough; }

inline char g_cur[512];
inline void set_status(const char* s)
{
  std::snprintf(g_cur, sizeof g_cur, "%s", s);
  if (st().status_fd >= 0) {
    char b[512];
    std::memset(b, ' ', sizeof b);
    auto n = std::min(std::strlen(s), sizeof b - 1);
    std::memcpy(b, s, n);
    b[sizeof b - 1] = '\n';
    if (::pwrite(st().status_fd, b, sizeof b, 0) < 0) { }
  }
}

inline void on_alarm(int)
{
  char b[700];
  int n = std::snprintf(b, sizeof b, "\nvh: HANG %s\n", g_cur);
  if (::write(2, b, std::size_t(n)) < 0) { }
  ::_exit(97);
}

inline void arm(unsigned s)
{
  itimerval t {};
  t.it_value.tv_sec = s;
  ::setitimer(ITIMER_REAL, &t, nullptr);
}

inline void write_report()
{
  auto& s = st();
  std::ostringstream o;
  o << "{\"evaluations\":" << s.evaluations << ",\"counters\":{";
  bool f = true;
  for (auto& [k, v] : s.counters) {
    o << (f ? "" : ",") << json_str(k) << ":" << v;
    f = false;
  }
  o << "},\"required\":{";
  f = true;
  for (auto& [k, v] : s.required) {
    o << (f ? "" : ",") << json_str(k) << ":" << v;
    f = false;
  }
  o << "},\"samples\":[";
  f = true;
  for (auto& [k, v] : s.samples)
    for (auto& x : v) {
      o << (f ? "" : ",") << json_str(k + ": " + x);
      f = false;
    }
  o << "],\"violations\":[";
  f = true;
  for (auto& v : s.violations) {
    o << (f ? "" : ",") << "{\"key\":" << json_str(v.key) << ",\"detail\":" << json_str(v.detail)
      << ",\"suite\":" << json_str(v.suite) << ",\"case\":" << v.index << "}";
    f = false;
  }
  o << "]}\n";
  auto str = o.str();
  if (!s.out.empty()) {
    if (auto* fp = std::fopen(s.out.c_str(), "w")) {
      std::fwrite(str.data(), 1, str.size(), fp);
      std::fclose(fp);
    }
    if (auto* fp = std::fopen((s.out + ".distinct").c_str(), "w")) {
      for (auto h : s.distinct) std::fwrite(&h, sizeof h, 1, fp);
      std::fclose(fp);
    }
  } else {
    std::fputs(str.c_str(), stdout);
  }
}

inline int main(int argc, char** argv)
{
  auto& s = st();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") s.seed = std::stoull(val());
    else if (a == "--shard") s.shard = std::stol(val());
    else if (a == "--nshards") s.nshards = std::stol(val());
    else if (a == "--case") s.only_case = std::stol(val());
    else if (a == "--suite") s.only_suite = val();
    else if (a == "--scale") s.scale = std::stod(val());
    else if (a == "--thorough") s.thorough = true;
    else if (a == "--out") s.out = val();
    else if (a == "--status") s.status_path = val();
    else if (a == "--limit") s.case_limit_s = unsigned(std::stoul(val()));
    else {
      std::fprintf(stderr, "unknown option %s\n", a.c_str());
      return 64;
    }
  }
  if (!s.status_path.empty()) s.status_fd = ::open(s.status_path.c_str(), O_RDWR | O_CREAT, 0644);
  std::signal(SIGALRM, on_alarm);
  std::signal(SIGPIPE, SIG_IGN);
  for (auto& su : suites()) {
    if (!s.only_suite.empty() && su.name != s.only_suite) continue;
    long n = s.thorough ? su.thorough : su.quick;
    // more cases of the quick tier, but no more than the thorough one has
    if (n > 8) n = std::max(1l, s.scale > 1 ? std::max(n, std::min(long(su.thorough), long(double(n) * s.scale))) : long(double(n) * s.scale));
    s.suite = su.name;
    for (long i = 0; i < n; ++i) {
      if (s.violations.size() >= 12) break; // enough to report; failing cases can be slow
      if (s.only_case >= 0 ? i != s.only_case : (i % s.nshards) != s.shard) continue;
      s.index = i;
      char b[400];
      std::snprintf(b, sizeof b, "suite=%s case=%ld", su.name.c_str(), i);
      set_status(b);
      arm(s.case_limit_s);
      rng r(mix(s.seed * 1000003u + std::uint64_t(i)) ^ hash(su.name));
      su.body(r, i);
      arm(0);
      count("cases:" + su.name);
    }
  }
  s.suite = "end";
  set_status("suite=end case=0");
  write_report();
  return s.violations.empty() ? 0 : 3;
}

} // namespace vh
