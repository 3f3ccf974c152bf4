#include <fitoria/http/header/date.hpp>
#include <fitoria/http/status_code.hpp>
#include <fitoria/http/version.hpp>
#include <clocale>
#include "vh.hpp"
using namespace fitoria;
using http::header::date;
using http::version;
using utc = std::chrono::time_point<chrono::utc_clock>;
using ns = std::chrono::nanoseconds;

// civil date from days since 1970-01-01 by plain counting of whole years/months
static std::string imf(long long secs)
{
  long long days = secs / 86400, rem = secs % 86400;
  if (rem < 0) rem += 86400, --days;
  static const char* wd[] = { "Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed" };
  static const char* mn[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
  long long w = ((days % 7) + 7) % 7;
  auto leap = [](long long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
  long long y = 1970, d = days;
  while (d < 0) d += leap(--y) ? 366 : 365;
  while (d >= (leap(y) ? 366 : 365)) d -= leap(y++) ? 366 : 365;
  static const int ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
  int m = 0;
  while (d >= ml[m] + (m == 1 && leap(y))) d -= ml[m] + (m == 1 && leap(y)), ++m;
  char b[64];
  std::snprintf(b, sizeof b, "%s, %02d %s %04lld %02d:%02d:%02d GMT", wd[w], int(d) + 1, mn[m], y, int(rem / 3600),
                int(rem / 60 % 60), int(rem % 60));
  return b;
}
static long long floor_s(ns t)
{
  auto c = t.count();
  return c >= 0 ? c / 1000000000 : -((-c + 999999999) / 1000000000);
}
static void one(ns t)
{
  date d { utc(t) };
  auto w = imf(floor_s(t));
  auto g = d.to_string();
  VH_CHECK(g == w, "date-text", "ns=" + std::to_string(t.count()) + " got=" + g + " want=" + w);
  VH_CHECK(d.utc_time() == utc(t), "date-utc-time", std::to_string(t.count()));
  auto f = d.file_time();
  VH_CHECK(std::chrono::file_clock::to_sys(f).time_since_epoch() == t, "date-file-time", std::to_string(t.count()));
  date back { f };
  VH_CHECK(back.utc_time() == utc(t) && back == d, "date-file-round-trip", std::to_string(t.count()));
  VH_CHECK(back.to_string() == w, "date-text-from-file-time", std::to_string(t.count()));
  vh::count("dates");
}
static void cmp(ns a, ns b)
{
  date x { utc(a) }, y { utc(b) };
  VH_CHECK((x == y) == (a == b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b)
               && (x >= y) == (a >= b) && ((x <=> y) == (a.count() <=> b.count())),
           "date-order", std::to_string(a.count()) + " " + std::to_string(b.count()));
}
static ns gen(vh::rng& r)
{
  // 1905 .. 2200
  long long s = r.range(-2051222400ll, 7258118400ll);
  switch (r.below(4)) {
  case 0: s = s / 86400 * 86400 + r.range(-1, 1); break;
  case 1: s = r.range(-90000, 90000); break;
  default: break;
  }
  return ns(s * 1000000000ll + r.one_of<long long>({ 0, 0, 1, 999999999, 500000000, -1, long(r.below(1000000000)) }));
}
VH_SUITE("every-day", 96, 96)
{
  // 96 slices of 100k days (1905-2178): first and last second of each day
  for (long day = -23700 + idx * 1042; day < -23700 + (idx + 1) * 1042; ++day) {
    one(ns(day * 86400ll * 1000000000ll));
    if (day % 7 == 0) one(ns((day * 86400ll + 86399) * 1000000000ll + 999999999));
  }
  vh::seen(std::to_string(idx));
}
VH_SUITE("random-times", 10000, 300000)
{
  static bool loc = [] {
    // global locales must not leak into the text
    for (auto* n : { "de_DE.UTF-8", "fr_FR.UTF-8", "C.UTF-8" })
      if (std::setlocale(LC_ALL, n)) return true;
    return false;
  }();
  (void)loc;
  auto a = gen(r), b = r.flip() ? gen(r) : a + ns(r.range(-1, 1));
  vh::seen(std::to_string(a.count()));
  vh::sample(std::to_string(a.count()) + " -> " + imf(floor_s(a)));
  one(a);
  cmp(a, b);
  cmp(a, a);
}
VH_SUITE("versions", 1, 1)
{
  const std::pair<version, std::pair<unsigned, const char*>> t[] = { { version::v0_9, { 9, "0.9" } },
                                                                     { version::v1_0, { 10, "1.0" } },
                                                                     { version::v1_1, { 11, "1.1" } },
                                                                     { version::v2_0, { 20, "2.0" } },
                                                                     { version::v3_0, { 30, "3.0" } } };
  for (unsigned n = 0; n < 70000; ++n) {
    unsigned v = n < 66000 ? n : ~0u - (n - 66000);
    auto want = version::unknown;
    for (auto& e : t)
      if (e.second.first == v) want = e.first;
    VH_CHECK(http::detail::from_impl_version(v) == want, "version-from-number", std::to_string(v));
  }
  for (auto& e : t) {
    VH_CHECK(http::detail::to_impl_version(e.first) == e.second.first, "version-to-number", e.second.second);
    VH_CHECK(to_string(e.first) == e.second.second, "version-text", e.second.second);
    VH_CHECK(fmt::format("{}", e.first) == e.second.second, "version-format", e.second.second);
    VH_CHECK(fmt::format("{:}", e.first) == e.second.second, "version-format", e.second.second);
    VH_CHECK(fmt::format("[{}|{}]", e.first, e.first)
                 == std::string("[") + e.second.second + "|" + e.second.second + "]",
             "version-format", e.second.second);
  }
  VH_CHECK(to_string(version::unknown) == "unknown" && fmt::format("{}", version::unknown) == "unknown",
           "version-text", "unknown");
  bool threw = false;
  try {
    (void)fmt::format(fmt::runtime("{:x}"), version::v1_1);
  } catch (const fmt::format_error&) {
    threw = true;
  }
  VH_CHECK(threw, "version-format-spec-accepted", "{:x}");
  vh::count("versions");
}
VH_SUITE("status", 1, 1)
{
  using http::status_class;
  const status_class cls[] = { status_class::informational, status_class::successful, status_class::redirection, status_class::client_error, status_class::server_error };
  for (int n = 0; n < 1200; ++n) {
    auto t = std::to_string(n);
    http::status_code c(n), d(static_cast<http::status>(n)), e(n + 1);
    VH_CHECK(unsigned(c.value()) == unsigned(n) && d.value() == static_cast<http::status>(n), "status-value", t);
    VH_CHECK(c == d && !(c != d) && c != e, "status-equality", t);
    VH_CHECK(c.category() == (n >= 100 && n < 600 ? cls[n / 100 - 1] : status_class::unknown), "status-class", t);
    VH_CHECK(fmt::format("{}", c) == t && fmt::format("<{:>6}|{:x}>", c, c) == fmt::format("<{:>6}|{:x}>", n, n), "status-format", t + " " + fmt::format("{}", c));
    c = e;
    VH_CHECK(c == e && unsigned(c.value()) == unsigned(n) + 1, "status-assign", t);
  }
  vh::count("statuses", 1200);
}
int main(int c, char** v)
{
  vh::require("dates", 10000);
  vh::require("versions", 1);
  return vh::main(c, v);
}
