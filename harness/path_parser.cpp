#include <fitoria/web/path_parser.hpp>
#include <memory>
#include <set>
#include "vh.hpp"
using namespace fitoria;
using namespace fitoria::web;

struct tok {
  char kind; // s p w
  std::string v;
};
static bool pchar_at(const std::string& s, std::size_t i, std::size_t& n)
{
  auto hex = [](char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); };
  if (i >= s.size()) return false;
  char c = s[i];
  if (c == '%') {
    n = 3;
    return i + 2 < s.size() && hex(s[i + 1]) && hex(s[i + 2]);
  }
  n = 1;
  return c != 0
      && std::strchr("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=:@", c) != nullptr;
}
// 0 reject, 1 accept, 2 unspecified
static int oracle(const std::string& s, bool wild, std::vector<tok>& out)
{
  out.clear();
  std::set<std::string> names;
  std::size_t i = 0, n;
  std::string stat;
  int verdict = 1;
  while (i < s.size()) {
    if (s[i] == '{') {
      if (stat.empty() || stat.back() != '/') return 0;
      out.push_back({ 's', stat });
      stat.clear();
      auto b = ++i;
      while (pchar_at(s, i, n)) i += n;
      if (i >= s.size() || s[i] != '}' || i == b) return 0;
      auto name = s.substr(b, i - b);
      if (!names.insert(name).second) return 0;
      out.push_back({ 'p', name });
      ++i;
      if (i < s.size() && s[i] != '/') return 0;
    } else if (s[i] == '#') {
      if (!wild) return 0;
      if (s[0] != '/') verdict = 2; // relative patterns with wildcards: unspecified
      out.push_back({ 's', stat });
      stat.clear();
      auto b = ++i;
      while (pchar_at(s, i, n)) i += n;
      if (i != s.size() || i == b) return 0;
      auto name = s.substr(b);
      if (!names.insert(name).second) return 0;
      out.push_back({ 'w', name });
    } else if (s[i] == '/') {
      stat += s[i++];
    } else if (pchar_at(s, i, n)) {
      stat += s.substr(i, n);
      i += n;
    } else return 0;
  }
  if (!stat.empty()) out.push_back({ 's', stat });
  if (!s.empty() && s[0] != '/')
    for (auto& nm : names)
      if (!out.empty() && out[0].v == nm) verdict = 2;
  return verdict;
}
static std::string show(const path_tokens_t& t)
{
  std::string r;
  for (auto& x : t)
    r += std::string(x.kind == path_token_kind::static_ ? "s" : x.kind == path_token_kind::param ? "p" : "w") + "("
        + vh::esc(x.value) + ")";
  return r;
}
template <bool W>
static void judge(const std::string& s, path_parser<W>& reused)
{
  std::unique_ptr<char[]> p(new char[s.size()]);
  std::memcpy(p.get(), s.data(), s.size());
  std::string_view v(p.get(), s.size());
  std::vector<tok> want;
  int verdict = oracle(s, W, want);
  path_parser<W> fresh;
  bool ok = fresh.parse(v);
  bool ok2 = reused.parse(v);
  vh::eval();
  auto tag = std::string(W ? "[wild] " : "[plain] ") + "\"" + vh::esc(s) + "\"";
  if (ok != ok2) vh::fail("reused-parser-differs", tag);
  if (verdict != 2 && ok != (verdict == 1)) vh::fail(verdict == 1 ? "rejects-valid" : "accepts-invalid", tag);
  if (!ok) {
    vh::count("rejected");
    if (vh::hash(s) % 3 == 0) (void)reused.get();
    return;
  }
  auto t = fresh.get();
  auto t2 = reused.get();
  p.reset();
  if (!(t == t2)) vh::fail("reused-parser-tokens-differ", tag + " " + show(t) + " vs " + show(t2));
  std::string cat;
  for (auto& x : t)
    cat += x.kind == path_token_kind::static_ ? x.value
        : x.kind == path_token_kind::param    ? "{" + x.value + "}"
                                              : "#" + x.value;
  if (cat != s) vh::fail("tokens-lose-text", tag + " " + show(t));
  if (verdict == 1) {
    vh::count("accepted");
    bool same = t.size() == want.size();
    for (std::size_t i = 0; same && i < t.size(); ++i)
      same = t[i].value == want[i].v
          && t[i].kind
              == (want[i].kind == 's'     ? path_token_kind::static_
                      : want[i].kind == 'p' ? path_token_kind::param
                                            : path_token_kind::wildcard);
    if (!same) vh::fail("wrong-tokens", tag + " " + show(t));
    vh::count("tokens", t.size());
  }
}
static path_parser<true> RT;
static path_parser<false> RF;
static void both(const std::string& s)
{
  judge<true>(s, RT);
  judge<false>(s, RF);
  vh::seen(s);
}
static std::string pch(vh::rng& r)
{
  if (r.chance(1, 8)) return std::string("%") + r.from("0123456789abcdefABCDEF", 2);
  return r.from("abcxyzABCXYZ0189-._~!$&'()*+,;=:@", 1);
}
static std::string seg(vh::rng& r, std::size_t max)
{
  std::string s;
  for (std::size_t i = 0, n = r.below(max + 1); i < n; ++i) s += pch(r);
  return s;
}
static std::string gen(vh::rng& r)
{
  std::string s;
  std::vector<std::string> names;
  if (r.chance(1, 20)) s = seg(r, 4);
  for (std::size_t i = 0, n = r.below(r.chance(1, 20) ? 30 : 6); i < n; ++i) {
    s += "/";
    if (r.chance(1, 3)) {
      auto nm = !names.empty() && r.chance(1, 6) ? r.pick(names) : pch(r) + seg(r, 5);
      names.push_back(nm);
      s += "{" + nm + "}";
    } else s += seg(r, r.chance(1, 40) ? 300 : 5);
  }
  if (r.chance(1, 3)) {
    if (r.chance(3, 4)) s += "/";
    if (r.flip() || s.empty() || s.back() == '}') s += r.chance(3, 4) ? "/" : "";
    s += "#" + (!names.empty() && r.chance(1, 6) ? r.pick(names) : pch(r) + seg(r, 5));
  } else if (r.chance(1, 4)) s += "/";
  return s;
}
VH_SUITE("generated", 20000, 500000)
{
  auto s = gen(r);
  both(s);
  vh::sample(vh::esc(s, 80));
  for (int i = 0, n = int(r.below(4)); i < n; ++i) {
    auto p = r.below(s.size() + 1);
    char c = r.chance(2, 3) ? "/{}#%aA0 ?[\\"[r.below(12)] : char(r.u64());
    switch (r.below(4)) {
    case 0: s.insert(p, 1, c); break;
    case 1:
      if (p < s.size()) s[p] = c;
      break;
    case 2: s.resize(p); break;
    default:
      if (p < s.size()) s.erase(p, 1);
    }
    both(s);
  }
}
VH_SUITE("short-exhaustive", 4096, 4096)
{
  // all strings of length <= 6 over a hostile 8-symbol alphabet (2 extra symbols per case)
  static const char al[] = "/{}#%aF.";
  std::string base;
  for (long v = idx, k = 0; k < 4; ++k, v /= 8) base += al[v % 8];
  for (std::size_t n = 0; n <= 4; ++n) both(base.substr(0, n));
  for (int i = 0; i < 8; ++i) {
    both(base + al[i]);
    both("/" + base + al[i]);
    for (int j = 0; j < 8; ++j) both(base + al[i] + al[j]);
  }
}
VH_SUITE("every-byte", 256, 256)
{
  std::string c(1, char(idx));
  for (auto& s : { c, "/" + c, "/a" + c + "b", "/{" + c + "}", "/{a" + c + "b}", "/#" + c, "/#a" + c + "b", "/%" + c + "0",
                   "/%0" + c, "/{%" + c + "0}", "/{%0" + c + "}", "/#%" + c + "a", "/#%a" + c, "/{a}" + c, "/{a}" + c + "{b}",
                   c + "{a}", "/" + c + "{a}", "/" + c + "#a", c + "#a", "/{a" + c, "/{" + c, "/{a}/" + c, "/a%" + c })
    both(s);
}
// soft: a parser that cannot run at compile time is reported, not a build error
template <basic_fixed_string P, bool W>
concept constant = requires { typename std::bool_constant<(path_parser<W>().template parse<P>(), true)>; };
template <basic_fixed_string P, bool W>
static int at_compile_time()
{
  if constexpr (constant<P, W>) return std::bool_constant<path_parser<W>().template parse<P>()>::value;
  else return -1;
}
template <basic_fixed_string P>
static void ct()
{
  path_parser<true> a, b;
  VH_CHECK((a.template parse<P>() == b.parse(std::string_view(P))) && a.get() == b.get(), "compile-time-form-differs",
           std::string(std::string_view(P)));
  path_parser<false> c, d;
  VH_CHECK((c.template parse<P>() == d.parse(std::string_view(P))) && c.get() == d.get(), "compile-time-form-differs",
           std::string(std::string_view(P)));
  VH_CHECK((at_compile_time<P, true>()) == int(b.parse(std::string_view(P))) && (at_compile_time<P, false>()) == int(d.parse(std::string_view(P))),
           "compile-time-result", std::string(std::string_view(P)) + " " + std::to_string(at_compile_time<P, true>()) + std::to_string(at_compile_time<P, false>()));
  both(std::string(std::string_view(P)));
  vh::count("ct");
}
VH_SUITE("compile-time", 1, 1)
{
  ct<"">();
  ct<"/">();
  ct<"/a/{b}/c/{d}">();
  ct<"/a/{b}/c/{b}">();
  ct<"/a#w">();
  ct<"/{a}/#a">();
  ct<"/{a}/#b">();
  ct<"/%41/%4">();
  ct<"/%4">();
  ct<"/%">();
  ct<"/{%4}">();
  ct<"/{a%41}">();
  ct<"/#w%4">();
  ct<"/{a">();
  ct<"/#">();
}
int main(int c, char** v)
{
  vh::require("accepted", 5000);
  vh::require("rejected", 5000);
  vh::require("ct", 15);
  return vh::main(c, v);
}
