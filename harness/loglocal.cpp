#include <fitoria/log/filter.hpp>
#include <fitoria/log/formatter.hpp>
#include <functional>
#include "vh.hpp"
using namespace fitoria;
using namespace fitoria::log;

static const std::pair<level, const char*> LV[] = { { level::trace, "TRACE" }, { level::debug, "DEBUG" },
                                                    { level::info, "INFO" },   { level::warning, "WARNING" },
                                                    { level::error, "ERROR" }, { level::fatal, "FATAL" } };
static std::string up(std::string s)
{
  for (auto& c : s)
    if (c >= 'a' && c <= 'z') c = char(c - 32);
  return s;
}
static level want_level(const std::string& s)
{
  for (auto& [l, n] : LV)
    if (up(s) == n) return l;
  return level::off;
}
static void lvl(const std::string& s)
{
  std::unique_ptr<char[]> p(new char[s.size()]);
  std::memcpy(p.get(), s.data(), s.size());
  auto g = to_level(std::string_view(p.get(), s.size()));
  VH_CHECK(g == want_level(s), "to-level", "\"" + vh::esc(s) + "\" got=" + std::to_string(int(g)));
  if (want_level(s) != level::off) vh::count("level:known");
}
VH_SUITE("level-names", 1, 1)
{
  for (auto& [l, n] : LV) {
    VH_CHECK(to_string(l) == n, "level-to-string", n);
    VH_CHECK(fmt::format("{}", l) == n && fmt::format("<{:}>", l) == "<" + std::string(n) + ">", "level-format", n);
    VH_CHECK(to_level(to_string(l)) == l, "level-round-trip", n);
    for (unsigned m = 0; m < 128; ++m) {
      std::string s = n;
      for (std::size_t i = 0; i < s.size(); ++i)
        if (m >> i & 1) s[i] = char(s[i] + 32);
      lvl(s);
    }
  }
  for (std::size_t i = 0; i + 1 < 6; ++i) VH_CHECK(LV[i].first < LV[i + 1].first, "level-order", LV[i].second);
  VH_CHECK(level::fatal < level::off, "level-order", "off");
  for (auto* s : { "", "off", "OFF", "unknown", "warn", "err", "traces", " trace", "info ", "inf", "count", "0" }) lvl(s);
}
VH_SUITE("level-mutations", 5000, 100000)
{
  std::string s = LV[r.below(6)].second;
  for (auto& c : s)
    if (r.flip()) c = char(c + 32);
  lvl(s);
  auto p = r.below(s.size() + 1);
  if (r.flip()) s.insert(p, 1, char(r.u64()));
  else if (p < s.size()) s[p] = char(r.u64());
  lvl(s);
  vh::seen(s);
}
static void flt(const filter& f, unsigned mask, const std::string& d)
{
  for (unsigned i = 0; i < 6; ++i)
    VH_CHECK(f.is_allowed(LV[i].first) == bool(mask >> i & 1), "filter-wrong",
             d + " level=" + LV[i].second + " want=" + (mask >> i & 1 ? "allowed" : "denied"));
  VH_CHECK(!f.is_allowed(level::off), "filter-allows-off", d);
  vh::count("filters");
}
VH_SUITE("filters", 64, 64)
{
  // every subset of levels through the list constructor (initializer lists are
  // compile-time sized; fill unused slots with off, which never allows anything)
  unsigned m = unsigned(idx);
  auto at = [&](unsigned i) { return m >> i & 1 ? LV[i].first : level::off; };
  flt(filter { at(0), at(1), at(2), at(3), at(4), at(5) }, m, "list mask " + std::to_string(m));
  flt(filter { at(5), at(3), at(0), at(0), at(1), at(2), at(4), at(5) }, m, "dup list mask " + std::to_string(m));
  for (unsigned i = 0; i < 6; ++i) flt(filter::at_least(LV[i].first), 63u & ~((1u << i) - 1), std::string("at_least ") + LV[i].second);
  flt(filter::at_least(level::off), 0, "at_least off");
  flt(filter::all(), 63, "all");
  flt(filter { LV[m % 6].first }, 1u << m % 6, "single");
  unsetenv("CPP_LOG");
  flt(filter::from_env(), 0, "env unset");
  std::string n = LV[m % 6].second;
  for (std::size_t i = 0; i < n.size(); ++i)
    if (m >> i & 1) n[i] = char(n[i] + 32);
  setenv("CPP_LOG", n.c_str(), 1);
  flt(filter::from_env(), 63u & ~((1u << m % 6) - 1), "env " + n);
  for (auto* s : { "", "off", "verbose", "2" }) {
    setenv("CPP_LOG", s, 1);
    flt(filter::from_env(), 0, std::string("env ") + s);
  }
  unsetenv("CPP_LOG");
  vh::seen(std::to_string(idx));
}

static std::string ts(std::chrono::system_clock::time_point t)
{
  auto s = std::chrono::system_clock::to_time_t(std::chrono::floor<std::chrono::seconds>(t));
  tm x {};
  gmtime_r(&s, &x);
  char b[64];
  std::strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%S", &x);
  return b;
}
// accepts the whole-second text followed by any number of correct fraction digits and Z
static bool time_ok(std::string_view got, std::chrono::system_clock::time_point t, bool& bad)
{
  auto w = ts(t);
  bad = true;
  if (got.substr(0, w.size()) != w || got.empty() || got.back() != 'Z') return false;
  auto f = got.substr(w.size(), got.size() - w.size() - 1);
  if (!f.empty()) {
    char b[16];
    std::snprintf(b, sizeof b, ".%09lld",
                  (long long)(t - std::chrono::floor<std::chrono::seconds>(t)).count());
    std::string_view frac(b);
    if (f.size() > frac.size()) {
      if (f.substr(0, frac.size()) != frac || f.substr(frac.size()).find_first_not_of('0') != f.npos) return false;
    } else if (frac.substr(0, f.size()) != f) return false;
  }
  bad = false;
  return true;
}
struct rec {
  std::string file, func, msg;
  std::uint32_t line, col;
  level lv;
  std::chrono::system_clock::time_point t;
};
static record_ptr mk(const rec& x)
{
  auto p = std::make_shared<record>(x.t, source_location::current(), x.lv, x.msg);
  p->file_name = x.file;
  p->function_name = x.func;
  p->line = x.line;
  p->column = x.col;
  return p;
}
static std::string text(vh::rng& r, std::size_t max)
{
  switch (r.below(4)) {
  case 0: return r.from("{}:%{MSG}{{LV}}\\/\"", r.len(max));
  case 1: return r.bytes(r.len(max));
  case 2: return r.from("\n\r\x1b[m 0", r.len(max));
  default: return r.from("abc XYZ/\\.", r.len(max));
  }
}
VH_SUITE("formatter", 8000, 200000)
{
  rec x;
  x.file = text(r, 60);
  // non-UTF-8 is fine for a path too, but keep separators frequent
  if (r.flip()) x.file = "/a/b\\c/" + x.file;
  x.func = text(r, 60);
  x.msg = text(r, r.chance(1, 40) ? 20000 : 120);
  x.line = std::uint32_t(r.u64() >> r.below(32));
  x.col = std::uint32_t(r.u64() >> r.below(32));
  x.lv = LV[r.below(6)].first;
  x.t = std::chrono::system_clock::time_point(std::chrono::nanoseconds(
      (long long)(r.below(4000000000ull)) * 1000000000ll + r.one_of<long long>({ 0, 1, 999999999, long(r.below(1000000000)) })));
  auto nl = r.one_of<newline_style>({ newline_style::lf, newline_style::crlf, newline_style::cr, newline_style::system });
  std::string nls = nl == newline_style::crlf ? "\r\n" : nl == newline_style::cr ? "\r" : "\n";
  auto fs = r.flip() ? file_name_style::full_path : file_name_style::file_name_only;
  auto file = x.file;
  if (fs == file_name_style::file_name_only)
    if (auto p = file.find_last_of("/\\"); p != std::string::npos) file = file.substr(p + 1);
  int style = int(r.below(3));
  static const char* colors[] = { "\x1b[38;2;255;255;255m", "\x1b[38;2;000;255;255m", "\x1b[38;2;050;205;050m",
                                  "\x1b[38;2;255;255;000m", "\x1b[38;2;255;000;000m", "\x1b[38;2;255;000;255m" };
  std::string lvs = to_string(x.lv);
  if (style == 1) lvs = colors[int(x.lv)] + lvs + "\x1b[0m";
  if (style == 2) lvs = "\x1b[1m" + lvs + "\x1b[0m";
  formatter::builder b;
  b.set_newline_style(nl).set_file_name_style(fs);
  if (style == 1) b.set_color_level_style();
  if (style == 2) b.set_level_style([](level) { return fmt::text_style(fmt::emphasis::bold); });
  int pat = int(r.below(5));
  std::string S = "\x01";
  std::string want_pre, want_post;
  bool has_time = false;
  switch (pat) {
  case 0: { // default pattern, default builder order
    has_time = true;
    want_pre = "[";
    want_post = " " + lvs + " " + x.func + "] " + x.msg + " [" + file + ":" + std::to_string(x.line) + ":"
        + std::to_string(x.col) + "]";
    break;
  }
  case 1:
    b.set_pattern("{TIME:%FT%TZ}\x01{LV:}\x01{MSG:}\x01{FUNC:}\x01{FILE:}\x01{LINE:}\x01{COL:}");
    has_time = true;
    want_post = S + lvs + S + x.msg + S + x.func + S + file + S + std::to_string(x.line) + S + std::to_string(x.col);
    break;
  case 2:
    b.set_pattern("{MSG:}");
    want_post = x.msg;
    break;
  case 3:
    b.set_pattern("{{{LV}}} {MSG} {MSG} {COL}|{LINE}");
    want_post = "{" + lvs + "} " + x.msg + " " + x.msg + " " + std::to_string(x.col) + "|" + std::to_string(x.line);
    break;
  default:
    b.set_pattern("{FILE}{FUNC}");
    want_post = file + x.func;
    break;
  }
  auto f = b.build();
  auto copy = f;
  auto p = mk(x);
  auto got = r.flip() ? f.format(p) : copy.format(p);
  bool ok;
  std::string want = want_pre + (has_time ? ts(x.t) + "[.frac]Z" : "") + want_post + nls;
  if (has_time) {
    auto tail = want_post + nls;
    ok = got.size() >= want_pre.size() + tail.size() && got.compare(0, want_pre.size(), want_pre) == 0
        && got.compare(got.size() - tail.size(), tail.size(), tail) == 0;
    bool bad;
    ok = ok && time_ok(std::string_view(got).substr(want_pre.size(), got.size() - tail.size() - want_pre.size()), x.t, bad);
  } else ok = got == want_post + nls;
  VH_CHECK(ok, "formatted-line", "pattern " + std::to_string(pat) + " style " + std::to_string(style) + "\n got=" + vh::esc(got, 500)
                                     + "\nwant=" + vh::esc(want, 500));
  VH_CHECK(p->msg == x.msg, "record-modified", "");
  vh::count("lines");
  vh::sample(vh::esc(got, 150));
  vh::seen(got);
  if (pat == 0 && style == 0) {
    auto g2 = formatter().format(p);
    auto plain = formatter::builder().build().format(p);
    VH_CHECK(g2 == plain, "default-formatter-differs", vh::esc(g2));
    VH_CHECK(x.msg.find('\x1b') != std::string::npos || x.func.find('\x1b') != std::string::npos
                 || x.file.find('\x1b') != std::string::npos || g2.find('\x1b') == std::string::npos,
             "colour-without-request", vh::esc(g2));
  }
}
VH_SUITE("record-ctor", 1, 1)
{
  auto loc = source_location::current();
  auto t = std::chrono::system_clock::now();
  record rc(t, loc, level::warning, "hello");
  VH_CHECK(rc.time == t && rc.lv == level::warning && rc.msg == "hello" && rc.line == loc.line()
               && rc.column == loc.column() && rc.file_name == loc.file_name() && rc.function_name == loc.function_name(),
           "record-fields", "");
  VH_CHECK(std::string(loc.file_name()).find("loglocal.cpp") != std::string::npos && loc.line() > 200, "source-location", "");
  VH_CHECK(get_newline(newline_style::lf) == "\n" && get_newline(newline_style::crlf) == "\r\n"
               && get_newline(newline_style::cr) == "\r" && get_newline(newline_style::system) == "\n",
           "newline", "");
}
int main(int c, char** v)
{
  vh::require("lines", 1000);
  vh::require("filters", 64);
  vh::require("level:known", 100);
  return vh::main(c, v);
}
