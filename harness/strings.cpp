#include <fitoria/core/strings.hpp>
#include <fitoria/core/fixed_string.hpp>
#include <fitoria/core/config.hpp>
#include <memory>
#include "vh.hpp"
using namespace fitoria;

struct tight {
  std::unique_ptr<char[]> p;
  std::size_t n;
  explicit tight(const std::string& s)
      : p(new char[s.size()])
      , n(s.size())
  {
    std::memcpy(p.get(), s.data(), n);
  }
  operator std::string_view() const { return { p.get(), n }; }
};
static std::string lower(std::string s)
{
  for (auto& c : s)
    if (c >= 'A' && c <= 'Z') c = char(c + 32);
  return s;
}
static bool ascii(const std::string& s)
{
  for (unsigned char c : s)
    if (c >= 0x80) return false;
  return true;
}
static int sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

static std::string gen(vh::rng& r)
{
  auto n = r.len(r.chance(1, 30) ? 600 : 24);
  switch (r.below(5)) {
  case 0: return r.bytes(n);
  case 1: return r.from("aAbB", n);
  case 2: return r.from("@AZ[`az{ 019_-", n);
  case 3: return r.from(" \t\n\v\f\r\x1f!,;=a", n);
  default: return r.from(std::string_view("Kk\0\xc0\xe0\xff\x7fZz", 9), n);
  }
}
static std::string variant(const std::string& s, vh::rng& r)
{
  auto t = s;
  for (auto& c : t)
    if (r.flip()) {
      if (c >= 'a' && c <= 'z') c = char(c - 32);
      else if (c >= 'A' && c <= 'Z') c = char(c + 32);
    }
  switch (r.below(5)) {
  case 0:
    if (!t.empty()) t[r.below(t.size())] ^= char(1u << r.below(8));
    break;
  case 1: t += char(r.u64()); break;
  case 2:
    if (!t.empty()) t.pop_back();
    break;
  default: break;
  }
  return t;
}
static void pair(const std::string& a, const std::string& b)
{
  tight ta(a), tb(b);
  bool eq = cmp_eq_ci(ta, tb);
  VH_CHECK(eq == (lower(a) == lower(b)), "ci-equality-wrong",
           vh::esc(a) + " vs " + vh::esc(b) + " got=" + (eq ? "equal" : "different"));
  int o = sgn(cmp_tw_ci(ta, tb)), q = sgn(cmp_tw_ci(tb, ta));
  VH_CHECK(o == -q, "ci-order-not-antisymmetric", vh::esc(a) + " vs " + vh::esc(b));
  VH_CHECK((o == 0) == eq, "ci-order-inconsistent-with-equality", vh::esc(a) + " vs " + vh::esc(b));
  if (ascii(a) && ascii(b)) {
    int w = lower(a).compare(lower(b));
    w = w < 0 ? -1 : w > 0 ? 1 : 0;
    VH_CHECK(o == w, "ci-order-not-lexicographic",
             vh::esc(a) + " vs " + vh::esc(b) + " got=" + std::to_string(o) + " want=" + std::to_string(w));
    vh::count("order:ascii");
  } else {
    // shorter proper prefix orders first whatever the bytes
    auto la = lower(a), lb = lower(b);
    if (la != lb && lb.compare(0, la.size(), la) == 0)
      VH_CHECK(o < 0, "ci-order-prefix", vh::esc(a) + " vs " + vh::esc(b));
  }
  vh::count(eq ? "eq:equal" : "eq:different");
}
VH_SUITE("pairs", 15000, 400000)
{
  auto a = gen(r);
  auto b = r.chance(2, 3) ? variant(a, r) : gen(r);
  auto c = r.chance(1, 2) ? variant(b, r) : gen(r);
  vh::sample(vh::esc(a, 40) + " | " + vh::esc(b, 40));
  vh::seen(a + "\1" + b);
  pair(a, b);
  pair(b, c);
  pair(a, c);
  pair(a, a);
  int ab = sgn(cmp_tw_ci(a, b)), bc = sgn(cmp_tw_ci(b, c)), ac = sgn(cmp_tw_ci(a, c));
  VH_CHECK(!(ab <= 0 && bc <= 0) || ac <= 0, "ci-order-not-transitive",
           vh::esc(a) + " | " + vh::esc(b) + " | " + vh::esc(c));
  VH_CHECK(!(ab >= 0 && bc >= 0) || ac >= 0, "ci-order-not-transitive",
           vh::esc(a) + " | " + vh::esc(b) + " | " + vh::esc(c));
}
VH_SUITE("all-byte-pairs", 256, 256)
{
  for (int j = 0; j < 256; ++j) {
    std::string a(1, char(idx)), b(1, char(j));
    pair(a, b);
    pair("x" + a + "Y", "X" + b + "y");
    pair(a, b + "q");
  }
  vh::seen(std::to_string(idx));
  VH_CHECK(is_space(char(idx)) == sp(char(idx)), "is-space", std::to_string(idx));
}
template <class F>
static void trims(const std::string& s, F pred, std::string_view which, int pn)
{
  tight t(s);
  std::string_view v = t;
  std::size_t b = 0, e = s.size();
  bool left = which != "r", right = which != "l";
  if (left)
    while (b < e && pred(s[b])) ++b;
  if (right)
    while (e > b && pred(s[e - 1])) --e;
  std::string_view got;
  if (which == "l") got = pn ? ltrim(v, pred) : ltrim(v);
  else if (which == "r") got = pn ? rtrim(v, pred) : rtrim(v);
  else got = pn ? trim(v, pred) : trim(v);
  bool view_ok = got.empty() || (got.data() >= v.data() && got.data() + got.size() <= v.data() + v.size());
  VH_CHECK(got == std::string_view(s).substr(b, e - b), "trim-wrong",
           std::string(which) + "trim(" + vh::esc(s) + ") got=" + vh::esc(got));
  VH_CHECK(view_ok && (got.empty() || std::size_t(got.data() - v.data()) == b), "trim-not-a-view", vh::esc(s));
  if (got.size() != s.size()) vh::count("trim:removed");
}
VH_SUITE("trim", 10000, 300000)
{
  auto core = gen(r);
  auto s = r.from(" \t\n\v\f\r", r.below(4)) + core + r.from(" \t\n\v\f\r\x1c\x85\xa0", r.below(4));
  vh::seen(s);
  for (auto w : { "l", "r", "" }) {
    trims(s, sp, w, 0);
    char x = s.empty() ? 'a' : s[r.below(s.size())];
    trims(s, [x](char c) { return c == x || c == 'a'; }, w, 1);
    trims(s, [](char) { return true; }, w, 1);
    trims(s, [](char) { return false; }, w, 1);
  }
}
VH_SUITE("split", 12000, 300000)
{
  auto s = gen(r);
  if (r.flip()) {
    s.clear();
    for (std::size_t i = 0, n = r.below(8); i < n; ++i)
      s += r.from(" \tab\0", r.below(4)) + r.one_of<const char*>({ ",", ";", "=", ", ", " ; ", ",," });
    s += r.from(" ab", r.below(4));
  }
  auto dl = r.one_of<std::string>({ ",", ";", "=", ",;", " ", "", "a", std::string(1, 0), "\xff,", ",;= \t" });
  tight t(s);
  std::string_view v = t;
  auto got = split_of(v, dl);
  std::vector<std::pair<std::size_t, std::size_t>> want;
  std::size_t b = 0;
  for (std::size_t i = 0; i <= s.size(); ++i)
    if (i == s.size() || dl.find(s[i]) != std::string::npos) {
      std::size_t x = b, y = i;
      while (x < y && sp(s[x])) ++x;
      while (y > x && sp(s[y - 1])) --y;
      want.push_back({ x, y - x });
      b = i + 1;
    }
  bool ok = got.size() == want.size();
  for (std::size_t i = 0; ok && i < got.size(); ++i) {
    ok = got[i] == std::string_view(s).substr(want[i].first, want[i].second)
        && (got[i].empty() || std::size_t(got[i].data() - v.data()) == want[i].first);
  }
  VH_CHECK(ok, "split-wrong",
           "split_of(" + vh::esc(s) + ", " + vh::esc(dl) + ") gave " + std::to_string(got.size()) + " pieces, want "
               + std::to_string(want.size()));
  vh::count("split:pieces", got.size());
  vh::seen(s + "\1" + dl);
}
template <class T, std::size_t N, std::size_t M>
static void fixed(vh::rng& r)
{
  T a[N + 1] {}, b[M + 1] {};
  for (auto& c : a) c = T(r.u64());
  for (auto& c : b) c = T(r.u64());
  a[N] = 0;
  b[M] = 0;
  basic_fixed_string<T, N> fa { a };
  basic_fixed_string<T, M> fb { b };
  using sv = std::basic_string_view<T>;
  std::basic_string<T> want(a, N);
  want.append(b, M);
  auto fc = fa + fb;
  VH_CHECK((std::same_as<decltype(fc), basic_fixed_string<T, N + M>>), "fixed-string-type", "");
  VH_CHECK(sv(fa) == sv(a, N) && fa.size() == N, "fixed-string-content", "N=" + std::to_string(N));
  VH_CHECK(sv(fc) == want && fc.size() == N + M, "fixed-string-concat", std::to_string(N) + "+" + std::to_string(M));
  VH_CHECK(std::basic_string<T>(fc.begin(), fc.end()) == want, "fixed-string-iter", "");
  const auto fd = fc;
  VH_CHECK(std::basic_string<T>(fd.begin(), fd.end()) == want && sv(fd) == want && sv(fd.data(), fd.size()) == want,
           "fixed-string-copy", "");
  basic_fixed_string<T, N> dflt;
  VH_CHECK(sv(dflt) == std::basic_string<T>(N, T(0)), "fixed-string-default", "");
  auto again = (fa + fb) + fa;
  VH_CHECK(sv(again) == want + std::basic_string<T>(a, N), "fixed-string-concat3", "");
  vh::count("fixed");
}
VH_SUITE("fixed", 200, 5000)
{
  fixed<char, 1, 1>(r);
  fixed<char, 3, 5>(r);
  fixed<char, 64, 1>(r);
  fixed<char, 1, 33>(r);
  fixed<char, 17, 200>(r);
  fixed<wchar_t, 4, 9>(r);
  fixed<char16_t, 8, 2>(r);
  basic_fixed_string lit("abc");
  VH_CHECK(sizeof(lit.str) == 3, "fixed-string-content", "literal");
  auto c = basic_fixed_string("GET ") + basic_fixed_string("/x");
  VH_CHECK(std::string_view(c) == "GET /x", "fixed-string-concat", "literal");
  auto z = basic_fixed_string("a\0b");
  VH_CHECK(z.size() == 3 && std::string_view(z) == std::string_view("a\0b", 3), "fixed-string-content", "literal with NUL");
  vh::seen(std::to_string(idx));
}
int main(int c, char** v)
{
  vh::require("eq:equal", 1000);
  vh::require("eq:different", 1000);
  vh::require("order:ascii", 1000);
  vh::require("trim:removed", 1000);
  vh::require("fixed", 100);
  return vh::main(c, v);
}
