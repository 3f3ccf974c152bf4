#include <fitoria/http/header/range.hpp>
#include <memory>
#include <stdexcept>
#include "vh.hpp"
using namespace fitoria;
using http::header::range;
using u64 = std::uint64_t;
using sub = range::subrange_t;

static constexpr u64 MAX = ~u64(0);
// 0 = not a number, 1 = number, 2 = number but beyond 64 bits
static int num(std::string_view s, u64& v)
{
  if (s.empty()) return 0;
  unsigned __int128 x = 0;
  bool big = false;
  for (char c : s) {
    if (c < '0' || c > '9') return 0;
    x = x * 10 + unsigned(c - '0');
    if (x > MAX) big = true, x = MAX;
  }
  v = u64(x);
  return big ? 2 : 1;
}
static std::string_view ows(std::string_view s)
{
  while (!s.empty() && (s.front() == ' ' || s.front() == '\t')) s.remove_prefix(1);
  while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.remove_suffix(1);
  return s;
}
// 0 reject, 1 accept with `out`, 2 unspecified (odd whitespace, non-token unit)
static int oracle(const std::string& s, u64 total, std::string& unit, std::vector<sub>& out)
{
  out.clear();
  for (char c : s)
    if (c >= '\n' && c <= '\r') return 2;
  auto eq = s.find('=');
  if (eq == std::string::npos || s.find('=', eq + 1) != std::string::npos) return 0;
  std::string_view list = std::string_view(s).substr(eq + 1);
  unit = s.substr(0, eq);
  bool odd = unit.empty() || ows(unit) != unit;
  if (ows(list) != list) odd = true;
  list = ows(list);
  if (!list.empty() && list[0] == '-') {
    u64 v;
    auto d = list.substr(1);
    if (ows(d) != d) return 2;
    if (num(d, v) != 1) return 0; // also: a suffix beyond 64 bits is rejected or clamped
    auto len = std::min(v, total);
    if (!len) return 0;
    out.push_back({ total - len, len });
    return odd ? 2 : 1;
  }
  std::size_t p = 0;
  for (;;) {
    auto c = list.find(',', p);
    auto raw = list.substr(p, c == std::string_view::npos ? c : c - p);
    auto e = ows(raw);
    auto dash = e.find('-');
    if (dash == std::string_view::npos) return 0;
    auto a = e.substr(0, dash), b = e.substr(dash + 1);
    if (ows(a) != a || ows(b) != b) odd = true;
    a = ows(a);
    b = ows(b);
    u64 f, l;
    if (num(a, f) != 1) return 0;
    if (b.empty()) {
      if (f >= total) return 0;
      out.push_back({ f, total - f });
    } else {
      if (num(b, l) != 1 || f > l || l == MAX) return 0;
      out.push_back({ f, l - f + 1 });
    }
    if (c == std::string_view::npos) break;
    p = c + 1;
  }
  return odd ? 2 : 1;
}
static void judge(const std::string& s, u64 total)
{
  std::string unit;
  std::vector<sub> want;
  int verdict = oracle(s, total, unit, want);
  std::unique_ptr<char[]> p(new char[s.size()]);
  std::memcpy(p.get(), s.data(), s.size());
  auto got = range::parse(std::string_view(p.get(), s.size()), total);
  p.reset();
  vh::eval();
  auto d = [&] {
    std::string x = "\"" + vh::esc(s) + "\" total=" + std::to_string(total) + " got=";
    if (!got) return x + "none";
    for (auto& e : *got) x += "{" + std::to_string(e.offset) + "," + std::to_string(e.length) + "}";
    return x;
  };
  if (got) {
    // soundness that holds for every accepted text
    for (auto& e : *got) {
      unsigned __int128 end = (unsigned __int128)e.offset + e.length;
      if (end > MAX) vh::fail("wraps", d());
      if (e.length == 0) vh::fail("empty-subrange", d());
    }
    if (got->size() == 0) vh::fail("no-subranges", d());
  }
  if (verdict == 2) {
    vh::count("unspecified");
    if (got && !want.empty() && *got->begin() != want.front()) vh::fail("wrong-subranges", d());
    return;
  }
  if (verdict == 0) {
    vh::count("rejected");
    if (got) vh::fail("accepts-invalid", d());
    return;
  }
  vh::count("accepted");
  if (!got) {
    vh::fail("rejects-valid", d());
    return;
  }
  if (got->unit() != unit) vh::fail("wrong-unit", d() + " unit=" + vh::esc(got->unit()));
  bool same = got->size() == want.size();
  for (std::size_t i = 0; same && i < want.size(); ++i) same = (*got)[i] == want[i] && got->at(i) == want[i];
  if (!same) vh::fail("wrong-subranges", d());
  const auto& cg = *got;
  if (std::vector<sub>(cg.begin(), cg.end()) != want || std::vector<sub>(got->begin(), got->end()) != want
      || std::vector<sub>(got->cbegin(), got->cend()) != want)
    vh::fail("iteration", d());
  for (std::size_t bad : { got->size(), got->size() + 1, std::size_t(-1) }) {
    bool threw = false;
    try {
      auto x = got->at(bad);
      (void)x;
    } catch (const std::out_of_range&) {
      threw = true;
    }
    if (!threw) vh::fail("at-out-of-range-not-reported", d());
  }
  vh::count("subranges", want.size());
}
static u64 edge(vh::rng& r, u64 total)
{
  switch (r.below(8)) {
  case 0: return total;
  case 1: return total + u64(r.range(-2, 2));
  case 2: return MAX - r.below(3);
  case 3: return r.below(5);
  case 4: return (u64(1) << r.below(64)) + u64(r.range(-1, 1));
  case 5: return MAX - total + u64(r.range(-2, 2));
  default: return total ? r.u64() % total : r.below(10);
  }
}
static std::string dec(u64 v, vh::rng& r)
{
  return std::string(r.chance(1, 12) ? r.below(25) : 0, '0') + std::to_string(v)
      + (r.chance(1, 40) ? "0" : "");
}
static std::string elem(u64 total, vh::rng& r)
{
  auto a = edge(r, total), b = edge(r, total);
  if (r.chance(5, 6) && a > b) std::swap(a, b);
  switch (r.below(4)) {
  case 0: return dec(a, r) + "-";
  case 1: return dec(a, r) + "-" + dec(a, r);
  default: return dec(a, r) + "-" + dec(b, r);
  }
}
static u64 gen_total(vh::rng& r)
{
  switch (r.below(6)) {
  case 0: return r.below(4);
  case 1: return MAX - r.below(3);
  case 2: return (u64(1) << r.below(64)) + u64(r.range(-1, 1));
  case 3: return r.u64();
  default: return r.below(100000);
  }
}
VH_SUITE("edges", 40000, 600000)
{
  auto total = gen_total(r);
  std::string s = r.one_of<const char*>({ "bytes", "bytes", "bytes", "BYTES", "x", "none", "items" });
  s += "=";
  if (r.chance(1, 4)) s += "-" + dec(edge(r, total), r);
  else
    for (std::size_t i = 0, n = 1 + r.below(r.chance(1, 30) ? 100 : 4); i < n; ++i)
      s += (i ? r.from(" \t", r.below(2)) + "," + r.from(" \t", r.below(3)) : "") + elem(total, r);
  vh::sample(s + " / " + std::to_string(total));
  vh::seen(s + std::to_string(total));
  judge(s, total);
  for (int i = 0, n = int(r.below(3)); i < n; ++i) {
    auto p = r.below(s.size() + 1);
    char c = r.flip() ? "-,= \t0+.x"[r.below(9)] : char(r.u64());
    switch (r.below(3)) {
    case 0: s.insert(p, 1, c); break;
    case 1:
      if (p < s.size()) s[p] = c;
      break;
    default:
      if (p < s.size()) s.erase(p, 1);
    }
    judge(s, total);
  }
}
VH_SUITE("small-exhaustive", 20, 60)
{
  u64 total = u64(idx);
  for (u64 a = 0; a <= total + 2; ++a) {
    judge("bytes=-" + std::to_string(a), total);
    judge("bytes=" + std::to_string(a) + "-", total);
    for (u64 b = 0; b <= total + 2; ++b) {
      judge("bytes=" + std::to_string(a) + "-" + std::to_string(b), total);
      judge("bytes=0-0," + std::to_string(a) + "-" + std::to_string(b), total);
      judge("bytes=" + std::to_string(a) + "-," + std::to_string(b) + "-", total);
    }
  }
  for (auto* s : { "", "=", "bytes", "bytes=", "bytes=-", "bytes=--1", "bytes=,", "bytes=0-0,", "bytes=,0-0", "bytes=0-0,,1-1",
                   "bytes==0-0", "bytes=0=0", "bytes=a-b", "bytes=0x0-1", "bytes=+0-1", "bytes=0-+1", "bytes=0-1-2", "bytes:0-1",
                   "bytes=0-1;2-3", "bytes=-1,0-0", "bytes=0-0,-1", "=0-0" })
    judge(s, total);
  vh::seen(std::to_string(idx));
}
int main(int c, char** v)
{
  vh::require("accepted", 5000);
  vh::require("rejected", 5000);
  return vh::main(c, v);
}
