// P15: query_map histories against a map model; query and form decoding against
// an independent decoder.
#include "vh.hpp"
#include <optional>

#include <fitoria/core/url.hpp>
#include <fitoria/web/detail/as_form.hpp>
#include <fitoria/web/query_map.hpp>

using fitoria::web::query_map;
namespace web = fitoria::web;

namespace {

using model_t = std::map<std::string, std::string>;

std::string key(vh::rng& r)
{
  return r.chance(1, 8) ? r.bytes(r.below(4)) : r.from("abk", r.below(3));
}

void judge(query_map& q, const model_t& m, const std::string& how)
{
  const query_map& c = q;
  VH_CHECK(c.size() == m.size() && c.empty() == m.empty(), "size", how);
  model_t got;
  std::size_t n = 0;
  for (auto& [k, v] : c) {
    got[k] = v;
    ++n;
  }
  VH_CHECK(got == m && n == m.size(), "contents", how);
  n = 0;
  for (auto it = c.cbegin(); it != c.cend(); ++it) ++n;
  for (auto it = q.begin(); it != q.end(); ++it) ++n;
  VH_CHECK(n == 2 * m.size(), "contents", how);
  for (auto& [k, v] : m) {
    VH_CHECK(c.contains(k) && c.get(k) && *c.get(k) == v && q.get(std::string_view(k)) && *q.get(std::string_view(k)) == v
                 && c.at(k) == v && q.at(k) == v,
             "lookup", how + " key " + vh::esc(k));
  }
  for (auto* k : { "zz", "kkkk" }) {
    bool threw = false;
    try {
      (void)c.at(k);
    } catch (const std::out_of_range&) {
      threw = true;
    }
    VH_CHECK(!c.contains(k) && !c.get(k) && !q.get(std::string(k)) && threw, "lookup:absent", how);
  }
  // to_string lists every pair once
  std::string s = c.to_string();
  bool plain = true;
  for (auto& [k, v] : m)
    if ((k + v).find_first_of("&=") != std::string::npos) plain = false;
  if (plain) {
    std::vector<std::string> want, have;
    for (auto& [k, v] : m) want.push_back(k + "=" + v);
    std::size_t b = 0;
    while (!m.empty()) {
      auto e = s.find('&', b);
      have.push_back(s.substr(b, e == s.npos ? e : e - b));
      if (e == s.npos) break;
      b = e + 1;
    }
    std::sort(want.begin(), want.end());
    std::sort(have.begin(), have.end());
    VH_CHECK(want == have && (!m.empty() || s.empty()), "to_string", how + " -> " + vh::esc(s));
  }
}

VH_SUITE("histories", 2400, 120000)
{
  constexpr int N = 3;
  query_map q[N];
  model_t m[N];
  std::string how;
  int steps = 5 + int(r.below(40));
  for (int s = 0; s < steps; ++s) {
    auto i = r.below(N);
    auto k = key(r), v = r.bytes(r.len(40));
    if (r.flip()) v = r.from("xyz", 2);
    how += std::to_string(i);
    switch (r.below(8)) {
    case 0:
    case 1:
    case 2:
      how += "set(" + vh::esc(k) + ") ";
      vh::count(m[i].contains(k) ? "set_existing" : "set_new");
      q[i].set(k, v);
      m[i][k] = v;
      break;
    case 3:
      how += "[](" + vh::esc(k) + ") ";
      if (r.flip()) {
        q[i][k] = v;
        m[i][k] = v;
      } else {
        VH_CHECK(q[i][k] == m[i][k], "subscript", how);
      }
      break;
    case 4: {
      how += "erase(" + vh::esc(k) + ") ";
      auto got = q[i].erase(k);
      auto it = m[i].find(k);
      VH_CHECK(got.has_value() == (it != m[i].end()) && (!got || *got == it->second), "erase", how);
      if (it != m[i].end()) m[i].erase(it);
      vh::count("erase");
      break;
    }
    case 5: {
      auto j = r.below(N);
      how += "=" + std::to_string(j) + " ";
      if (r.flip()) q[i] = query_map(q[j]);
      else q[i] = q[j];
      m[i] = model_t(m[j]);
      VH_CHECK(q[i] == q[j], "copy-equal", how);
      break;
    }
    case 6:
      how += "write ";
      if (auto p = q[i].get(k)) {
        *p = v;
        m[i][k] = v;
      }
      break;
    default:
      if (r.chance(1, 4)) {
        q[i].clear();
        m[i].clear();
        how += "clear ";
      } else {
        q[i] = query_map { { "a", v }, { "b", "2" }, { "a", "dup" } };
        m[i] = { { "a", v }, { "b", "2" } };
        how += "init ";
      }
    }
    for (int x = 0; x < N; ++x) judge(q[x], m[x], how);
    VH_CHECK((q[0] == q[1]) == (m[0] == m[1]) && (q[0] != q[2]) == (m[0] != m[2]), "equality", how);
  }
  vh::seen(how);
  vh::sample(how);
}

int hexv(char c)
{
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}

std::optional<std::string> decode(std::string_view s)
{
  std::string o;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '+') o += ' ';
    else if (s[i] == '%') {
      if (i + 2 >= s.size() || hexv(s[i + 1]) < 0 || hexv(s[i + 2]) < 0) return {};
      o += char(hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
      i += 2;
    } else o += s[i];
  }
  return o;
}

struct parsed {
  bool malformed = false; // broken percent encoding: must be rejected
  bool plain = true;      // only RFC 3986 query characters: must be accepted
  model_t m;
};

parsed reference(std::string_view s)
{
  parsed p;
  for (char c : s)
    if (!std::isalnum((unsigned char)c) && !(c && std::strchr("-._~!$&'()*+,;=:@/?%", c))) p.plain = false;
  for (std::size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && (i + 2 >= s.size() || hexv(s[i + 1]) < 0 || hexv(s[i + 2]) < 0)) p.malformed = true;
  if (p.malformed) return p;
  std::size_t b = 0;
  for (;;) {
    auto e = s.find('&', b);
    auto kv = s.substr(b, e == s.npos ? e : e - b);
    if (auto eq = kv.find('='); eq != kv.npos) p.m[*decode(kv.substr(0, eq))] = *decode(kv.substr(eq + 1));
    if (e == s.npos) break;
    b = e + 1;
  }
  return p;
}

std::string encode(vh::rng& r, std::string_view s, bool form)
{
  std::string o;
  for (unsigned char c : s) {
    bool safe = std::isalnum(c) || (c && std::strchr("-._~", c));
    if (c == ' ' && form && r.flip()) o += '+';
    else if (safe && !r.chance(1, 8)) o += char(c);
    else {
      char b[4];
      std::snprintf(b, sizeof b, r.flip() ? "%%%02X" : "%%%02x", c);
      o += b;
    }
  }
  return o;
}

model_t to_model(const query_map& q)
{
  model_t m;
  for (auto& [k, v] : q) m[k] = v;
  return m;
}

void judge_text(std::string_view text)
{
  std::vector<char> buf(text.begin(), text.end());
  std::string_view t(buf.empty() ? "" : buf.data(), buf.size());
  auto want = reference(t);
  auto got = web::detail::as_form(t);
  std::string what = vh::esc(text, 400);
  if (want.malformed) {
    VH_CHECK(!got, "form:malformed-accepted", what);
    vh::count("malformed");
  } else {
    if (want.plain) VH_CHECK(got.has_value(), "form:rejected", what);
    if (got) {
      VH_CHECK(to_model(*got) == want.m && got->size() == want.m.size(), "form:value", what + " gave " + vh::esc(got->to_string()));
      vh::count("decoded");
    }
  }
  // the server obtains the query from the parsed target
  std::string target = "/p?" + std::string(text);
  if (auto url = boost::urls::parse_origin_form(target)) {
    VH_CHECK(!want.malformed, "query:malformed-accepted", what);
    if (!want.malformed) {
      auto q = query_map::from(url->params());
      VH_CHECK(to_model(q) == want.m, "query:value", what);
      vh::count("query_decoded");
    }
  } else {
    VH_CHECK(want.malformed || !want.plain, "query:rejected", what);
  }
}

VH_SUITE("texts", 20000, 1000000)
{
  std::string text;
  model_t pairs;
  std::size_t n = r.below(6);
  bool exact = true;
  for (std::size_t i = 0; i < n; ++i) {
    std::string k = r.chance(1, 3) ? r.bytes(r.len(12)) : r.from("ab &=+", r.below(4));
    std::string v = r.chance(1, 3) ? r.bytes(r.len(60)) : r.from("xy %&=+/?#\xc3\xa9", r.len(12));
    if (i) text += '&';
    if (r.chance(1, 12)) {
      text += encode(r, k, true); // key without a value
      continue;
    }
    text += encode(r, k, true) + "=" + encode(r, v, true);
    pairs[k] = v;
  }
  if (exact) {
    auto w = reference(text);
    if (w.m != pairs) {
      std::fprintf(stderr, "harness reference mismatch: %s\n", vh::esc(text).c_str());
      std::_Exit(2);
    }
  }
  vh::seen(text);
  vh::sample(vh::esc(text));
  judge_text(text);
  for (int i = 0; i < 3; ++i) {
    auto t = text;
    for (std::size_t k = 1 + r.below(3); k; --k) {
      if (t.empty() || r.flip()) t.insert(t.begin() + long(r.below(t.size() + 1)), "%&=+a1?;#["[r.below(10)]);
      else if (r.flip()) t.erase(r.below(t.size()), 1);
      else t[r.below(t.size())] = char(r.u64());
    }
    vh::seen(t);
    judge_text(t);
  }
}

VH_SUITE("short", 1, 1)
{
  const std::string al = "a=&+%4";
  std::vector<std::string> cur { "" };
  for (int len = 0; len <= 6; ++len) {
    std::vector<std::string> next;
    for (auto& s : cur) {
      judge_text(s);
      vh::seen(s);
      if (len < 6)
        for (char c : al) next.push_back(s + c);
    }
    cur = std::move(next);
  }
  for (int b = 0; b < 256; ++b) {
    char h[8];
    std::snprintf(h, sizeof h, "%%%02x", b);
    judge_text(std::string("k=") + h);
    judge_text(std::string(h) + "=v");
    judge_text(std::string("k=") + char(b));
    judge_text(std::string("k=%4") + char(b));
    judge_text(std::string("k=%") + char(b) + "4");
  }
}

} // namespace

int main(int argc, char** argv)
{
  vh::require("set_existing", 100);
  vh::require("decoded", 1000);
  vh::require("query_decoded", 1000);
  vh::require("malformed", 1000);
  return vh::main(argc, argv);
}
