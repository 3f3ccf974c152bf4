#include <fitoria/mime.hpp>
#include <map>
#include <memory>
#include <stdexcept>
#include "vh.hpp"
using namespace fitoria;
using mime::mime_view;
using mime::name_view;
using mime::params_view;
using sv = std::string_view;

static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static sv trim_(sv s)
{
  while (!s.empty() && sp(s.front())) s.remove_prefix(1);
  while (!s.empty() && sp(s.back())) s.remove_suffix(1);
  return s;
}
static std::vector<sv> split(sv s, char d)
{
  std::vector<sv> r;
  for (;;) {
    auto p = s.find(d);
    r.push_back(trim_(s.substr(0, p)));
    if (p == sv::npos) return r;
    s.remove_prefix(p + 1);
  }
}
static bool alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool name(sv s) // RFC 6838 4.2 without '+', which separates the suffix
{
  if (s.empty() || !alnum(s[0])) return false;
  for (char c : s)
    if (!alnum(c) && (c == 0 || !std::strchr("!#$&-^_.", c))) return false;
  return true;
}
static std::string low(sv s)
{
  std::string r(s);
  for (auto& c : r)
    if (c >= 'A' && c <= 'Z') c = char(c + 32);
  return r;
}
struct parsed {
  sv essence, type, subtype;
  bool has_suffix = false;
  sv suffix;
  std::map<std::string, sv> params;
};
static bool oracle(sv s, parsed& o)
{
  auto parts = split(s, ';');
  o.essence = parts[0];
  auto ts = split(parts[0], '/');
  if (ts.size() != 2 || !name(ts[0])) return false;
  auto ss = split(ts[1], '+');
  if (ss.size() > 2) return false;
  for (auto& x : ss)
    if (!name(x)) return false;
  o.type = ts[0];
  o.subtype = ss[0];
  o.has_suffix = ss.size() == 2;
  if (o.has_suffix) o.suffix = ss[1];
  for (std::size_t i = 1; i < parts.size(); ++i) {
    auto kv = split(parts[i], '=');
    if (kv.size() != 2 || !name(kv[0]) || !name(kv[1])) return false;
    o.params[low(kv[0])] = kv[1];
  }
  return true;
}
static sv V(name_view n) { return static_cast<sv>(n); }
static void judge(const std::string& s)
{
  std::unique_ptr<char[]> p(new char[s.size()]);
  std::memcpy(p.get(), s.data(), s.size());
  sv v(p.get(), s.size());
  parsed w;
  bool ok = oracle(v, w);
  auto m = mime_view::parse(v);
  vh::eval();
  if (bool(m) != ok) {
    vh::fail(ok ? "rejects-valid" : "accepts-invalid", "\"" + vh::esc(s) + "\"");
    return;
  }
  if (!ok) {
    vh::count("rejected");
    return;
  }
  vh::count("accepted");
  auto bad = [&](const char* k, sv g, sv want) {
    if (g != want || (!g.empty() && g.data() != want.data()))
      vh::fail(std::string("wrong-") + k, "\"" + vh::esc(s) + "\" got \"" + vh::esc(g) + "\" want \"" + vh::esc(want) + "\"");
  };
  bad("source", V(m->source()), v);
  bad("source", static_cast<sv>(*m), v);
  bad("essence", V(m->essence()), w.essence);
  bad("type", V(m->type()), w.type);
  bad("subtype", V(m->subtype()), w.subtype);
  if (bool(m->suffix()) != w.has_suffix) vh::fail("wrong-suffix", vh::esc(s));
  else if (w.has_suffix) bad("suffix", V(*m->suffix()), w.suffix);
  auto& pr = m->params();
  if (pr.size() != w.params.size() || pr.empty() != w.params.empty())
    vh::fail("wrong-param-count", vh::esc(s) + " " + std::to_string(pr.size()));
  for (auto& [k, val] : w.params) {
    auto g = pr.get(sv(k));
    if (!g) vh::fail("missing-param", vh::esc(s) + " " + k);
    else bad("param", V(*g), val);
    std::string up(k);
    for (auto& c : up)
      if (c >= 'a' && c <= 'z') c = char(c - 32);
    if (!pr.contains(sv(up)) || V(pr.at(sv(up))) != val) vh::fail("param-case", vh::esc(s) + " " + up);
  }
  VH_CHECK(fmt::format("{}", *m) == s, "format-differs", vh::esc(s));
  VH_CHECK(fmt::format("{}", m->essence()) == std::string(w.essence), "name-format-differs", vh::esc(s));
  vh::count("params", w.params.size());
}
static std::string ws(vh::rng& r) { return r.chance(1, 3) ? r.from(" \t", r.below(3)) : ""; }
static std::string nm(vh::rng& r, std::size_t max = 8)
{
  auto s = r.from("aAzZ09bcxml", 1);
  return s + r.from("abcXYZ019!#$&-^_.", r.below(max));
}
static std::string gen(vh::rng& r, std::vector<std::string>* pieces = nullptr)
{
  std::string s = ws(r) + nm(r, r.chance(1, 40) ? 300 : 8) + ws(r) + "/" + ws(r) + nm(r);
  if (r.chance(1, 3)) s += ws(r) + "+" + ws(r) + nm(r);
  std::vector<std::string> keys;
  for (std::size_t i = 0, n = r.below(r.chance(1, 30) ? 40 : 4); i < n; ++i) {
    auto k = !keys.empty() && r.chance(1, 4) ? r.pick(keys) : nm(r);
    if (r.flip())
      for (auto& c : k)
        if (alnum(c) && c > '9') c = char(c ^ 32);
    keys.push_back(k);
    s += ws(r) + ";" + ws(r) + k + ws(r) + "=" + ws(r) + nm(r);
  }
  if (pieces) *pieces = keys;
  return s + ws(r);
}
VH_SUITE("generated", 15000, 400000)
{
  auto s = gen(r);
  judge(s);
  vh::seen(s);
  vh::sample(vh::esc(s, 100));
  for (int i = 0, n = int(r.below(4)); i < n; ++i) {
    auto p = r.below(s.size() + 1);
    char c = r.chance(2, 3) ? "/+;=.-_ \t\"*%@,"[r.below(14)] : char(r.u64());
    switch (r.below(4)) {
    case 0: s.insert(p, 1, c); break;
    case 1:
      if (p < s.size()) s[p] = c;
      break;
    case 2: s.resize(p); break;
    default:
      if (p < s.size()) s.erase(p, 1);
    }
    judge(s);
  }
}
VH_SUITE("every-byte", 256, 256)
{
  std::string c(1, char(idx));
  for (auto& s : { c, c + "/b", "a" + c + "/b", "a" + c + "c/b", "a/" + c, "a/b" + c, "a/b" + c + "c", "a/b+" + c, "a/b+c" + c + "d",
                   "a/b;" + c + "=v", "a/b;k" + c + "=v", "a/b;k=" + c, "a/b;k=v" + c, "a/b;k=v" + c + "w", "a/b" + c + ";k=v",
                   "a/b;k" + c + "v", "a" + c + "b", "a/b;k=v;" + c, "a/b;" + c, c + "a/b" })
    judge(s);
  vh::seen(c);
}
// comparisons: consistent total order on lower-cased text, for every mixed form
static int sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
VH_SUITE("comparisons", 8000, 200000)
{
  auto a = gen(r), b = r.chance(2, 3) ? a : gen(r);
  for (auto& c : b)
    if (r.chance(1, 3) && alnum(c) && c > '9') c = char(c ^ 32);
  if (r.chance(1, 3)) {
    auto p = r.below(b.size() + 1);
    b.insert(p, 1, 'z');
  }
  auto la = low(a), lb = low(b);
  int w = la < lb ? -1 : la > lb ? 1 : 0;
  name_view x { sv(a) }, y { sv(b) };
  VH_CHECK((x == y) == (w == 0) && (x == sv(b)) == (w == 0) && (x == b.c_str()) == (w == 0) && (x != y) == (w != 0),
           "name-equality", vh::esc(a) + " | " + vh::esc(b));
  VH_CHECK(sgn(x <=> y) == w && sgn(x <=> sv(b)) == w && sgn(x <=> b.c_str()) == w && sgn(y <=> x) == -w, "name-order",
           vh::esc(a) + " | " + vh::esc(b));
  VH_CHECK((x < y) == (w < 0) && (x >= y) == (w >= 0), "name-order", vh::esc(a) + " | " + vh::esc(b));
  VH_CHECK(x.to_string() == la && V(x) == a, "name-to-string", vh::esc(a) + " got " + vh::esc(x.to_string()));
  auto ma = mime_view::parse(a), mb = mime_view::parse(b);
  if (ma && mb) {
    VH_CHECK((*ma == *mb) == (w == 0) && (*ma == sv(b)) == (w == 0) && (*ma != *mb) == (w != 0), "mime-equality",
             vh::esc(a) + " | " + vh::esc(b));
    VH_CHECK(sgn(*ma <=> *mb) == w && sgn(*ma <=> sv(b)) == w && (*ma < *mb) == (w < 0), "mime-order",
             vh::esc(a) + " | " + vh::esc(b));
    vh::count("mime-pairs");
  }
  vh::seen(a + b);
}
// params_view against a map keyed by lower-cased names
VH_SUITE("params-history", 2000, 40000)
{
  static const std::string keys[] = { "charset", "CHARSET", "Charset", "a", "A", "b", "boundary", "", "a-b", "zz", "ZZ", "q" };
  static const std::string vals[] = { "utf-8", "UTF-8", "x", "", "y", "Y" };
  params_view m;
  std::map<std::string, sv> w;
  std::string hist;
  auto n = 1 + r.below(60);
  for (std::size_t i = 0; i < n; ++i) {
    const auto& k = r.pick(keys);
    const auto& v = r.pick(vals);
    auto lk = low(k);
    auto op = r.below(9);
    hist += std::to_string(op) + ":" + k + "=" + v + " ";
    const auto& cm = m;
    switch (op) {
    case 0:
    case 1:
      m.set(sv(k), sv(v));
      w[lk] = v;
      break;
    case 2:
      m[sv(k)] = sv(v);
      w[lk] = v;
      break;
    case 3: {
      auto g = m.erase(sv(k));
      auto it = w.find(lk);
      VH_CHECK(bool(g) == (it != w.end()) && (!g || V(*g).data() == it->second.data()), "params-erase", hist);
      if (it != w.end()) w.erase(it);
      break;
    }
    case 4: {
      bool threw = false;
      sv got;
      try {
        got = r.flip() ? V(m.at(sv(k))) : V(cm.at(sv(k)));
      } catch (const std::out_of_range&) {
        threw = true;
      }
      VH_CHECK(threw == !w.count(lk) && (threw || got == w[lk]), "params-at", hist);
      if (!threw && r.flip()) {
        m.at(sv(k)) = sv(v);
        w[lk] = v;
      }
      break;
    }
    case 5: {
      params_view c = m;
      VH_CHECK(c == m, "params-copy", hist);
      c.set("new-key", "v");
      VH_CHECK(!m.contains("new-key") && !(c == m), "params-copy-aliases", hist);
      break;
    }
    case 6: {
      params_view c = m;
      params_view d = std::move(c);
      m = r.flip() ? std::move(d) : params_view(d);
      break;
    }
    case 7:
      if (r.chance(1, 5)) {
        m.clear();
        w.clear();
      }
      break;
    default:
      m[sv(k)]; // get or insert
      w.try_emplace(lk, sv());
      break;
    }
    vh::count("params-ops");
    bool ok = m.size() == w.size() && m.empty() == w.empty();
    for (auto& kk : keys) {
      auto g = m.get(sv(kk));
      auto cg = cm.get(sv(kk));
      auto it = w.find(low(kk));
      ok = ok && m.contains(sv(kk)) == (it != w.end()) && bool(g) == (it != w.end()) && bool(cg) == bool(g)
          && (!g || (V(*g) == it->second && V(*cg) == it->second));
    }
    auto wi = w.begin();
    for (auto& [kk, vv] : m) {
      ok = ok && wi != w.end() && low(V(kk)) == wi->first && V(vv) == wi->second;
      if (wi != w.end()) ++wi;
    }
    VH_CHECK(ok && std::size_t(std::distance(cm.begin(), cm.end())) == w.size()
                 && std::size_t(std::distance(cm.cbegin(), cm.cend())) == w.size(),
             "params-model-mismatch", hist);
  }
  // equality ignores case of keys and values and nothing else
  params_view c;
  std::vector<std::pair<std::string, std::string>> keep;
  keep.reserve(w.size());
  for (auto& [k, v] : w) {
    keep.push_back({ k, low(v) });
    for (auto& ch : keep.back().first)
      if (r.flip() && ch >= 'a' && ch <= 'z') ch = char(ch - 32);
    c.set(sv(keep.back().first), sv(keep.back().second));
  }
  VH_CHECK(c == m, "params-equality", hist);
  vh::seen(hist);
}
VH_SUITE("predefined", 1, 1)
{
  const std::pair<mime_view, const char*> all[] = {
    { mime::application_javascript(), "application/javascript" },
    { mime::application_json(), "application/json" },
    { mime::application_msgpack(), "application/msgpack" },
    { mime::application_octet_stream(), "application/octet-stream" },
    { mime::application_pdf(), "application/pdf" },
    { mime::application_shockwave_flash(), "application/x-shockwave-flash" },
    { mime::application_text(), "application/text" },
    { mime::application_wasm(), "application/wasm" },
    { mime::application_www_form_urlencoded(), "application/x-www-form-urlencoded" },
    { mime::application_xml(), "application/xml" },
    { mime::image_bmp(), "image/bmp" },
    { mime::image_gif(), "image/gif" },
    { mime::image_jpeg(), "image/jpeg" },
    { mime::image_png(), "image/png" },
    { mime::image_svg(), "image/svg+xml" },
    { mime::image_tiff(), "image/tiff" },
    { mime::multipart_form_data(), "multipart/form-data" },
    { mime::text_css(), "text/css" },
    { mime::text_csv(), "text/csv" },
    { mime::text_html(), "text/html" },
    { mime::text_javascript(), "text/javascript" },
    { mime::text_plain(), "text/plain" },
    { mime::text_xml(), "text/xml" },
    { mime::video_flv(), "video/x-flv" },
  };
  for (auto& [m, t] : all) {
    parsed w;
    VH_CHECK(oracle(t, w), "harness", t);
    VH_CHECK(V(m.source()) == t && V(m.essence()) == t && V(m.type()) == w.type && V(m.subtype()) == w.subtype
                 && bool(m.suffix()) == w.has_suffix && (!w.has_suffix || V(*m.suffix()) == w.suffix) && m.params().empty(),
             "predefined-type", t);
    auto p = mime_view::parse(t);
    VH_CHECK(p && *p == m && p->type() == m.type() && p->subtype() == m.subtype(), "predefined-parse", t);
  }
}
static const std::map<std::string, std::string>& exts()
{
  static const std::map<std::string, std::string> m {
    { "js", "application/javascript" }, { "json", "application/json" }, { "swf", "application/x-shockwave-flash" },
    { "wasm", "application/wasm" },     { "xml", "application/xml" },   { "bmp", "image/bmp" },
    { "gif", "image/gif" },             { "jpe", "image/jpeg" },        { "jpeg", "image/jpeg" },
    { "jpg", "image/jpeg" },            { "png", "image/png" },         { "svg", "image/svg+xml" },
    { "svgz", "image/svg+xml" },        { "tif", "image/tiff" },        { "tiff", "image/tiff" },
    { "css", "text/css" },              { "htm", "text/html" },         { "html", "text/html" },
    { "php", "text/html" },             { "txt", "text/plain" },        { "flv", "video/x-flv" },
  };
  return m;
}
VH_SUITE("extensions", 6000, 100000)
{
  auto it = exts().begin();
  std::advance(it, long(r.below(exts().size())));
  auto e = it->first;
  for (auto& c : e)
    if (r.flip() && c >= 'a') c = char(c - 32);
  if (r.chance(1, 3)) {
    auto p = r.below(e.size() + 1);
    if (r.flip()) e.insert(p, 1, char(r.u64()));
    else if (p < e.size()) e.erase(p, 1);
  }
  auto f = exts().find(low(e));
  auto chk = [&](optional<mime_view> g, const std::string& how) {
    // only the listed extensions are judged exactly; an unknown one must not
    // be mistaken for one of them
    VH_CHECK(f != exts().end() ? bool(g) && V(g->source()) == f->second : !g, "extension",
             how + " got " + (g ? std::string(V(g->source())) : "none"));
  };
  chk(mime_view::from_extension(e), "ext \"" + vh::esc(e) + "\"");
  if (e.find('.') == std::string::npos) {
    auto path = r.one_of<const char*>({ "", "/", "/a.b/", "C:\\x\\", "x.js.", "a..", "/srv/json." }) + r.from("ab.js/ ", r.below(6)) + "." + e;
    chk(mime_view::from_path(path), "path \"" + vh::esc(path) + "\"");
  }
  auto nodot = r.from("abjs/ \\", r.below(10));
  VH_CHECK(!mime_view::from_path(nodot), "path-without-dot", nodot);
  vh::count(f != exts().end() ? "ext-known" : "ext-unknown");
  vh::seen(e);
}
int main(int c, char** v)
{
  vh::require("accepted", 5000);
  vh::require("rejected", 3000);
  vh::require("params-ops", 10000);
  vh::require("mime-pairs", 1000);
  vh::require("ext-known", 1000);
  return vh::main(c, v);
}
