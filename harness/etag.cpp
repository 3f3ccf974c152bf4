#include <fitoria/http/header/if_none_match.hpp>
#include <memory>
#include "vh.hpp"
using namespace fitoria;
using http::header::entity_tag;
using http::header::if_none_match;

struct tag {
  bool strong;
  std::string v;
  bool operator==(const tag&) const = default;
  std::string text() const { return (strong ? "\"" : "W/\"") + v + "\""; }
};
static bool etagc(unsigned char c) { return c == 0x21 || (c >= 0x23 && c <= 0x7e) || c >= 0x80; }
// RFC 9110 8.8.3, hand-written recogniser over [p, e)
static bool scan_tag(const std::string& s, std::size_t& p, tag& t)
{
  t.strong = true;
  if (s.compare(p, 2, "W/") == 0) t.strong = false, p += 2;
  if (p >= s.size() || s[p] != '"') return false;
  auto b = ++p;
  while (p < s.size() && etagc((unsigned char)s[p])) ++p;
  if (p >= s.size() || s[p] != '"') return false;
  t.v = s.substr(b, p - b);
  ++p;
  return true;
}
static bool parse_tag(const std::string& s, tag& t)
{
  std::size_t p = 0;
  return scan_tag(s, p, t) && p == s.size();
}
static std::string_view tight(const std::string& s, std::unique_ptr<char[]>& p)
{
  p.reset(new char[s.size()]);
  std::memcpy(p.get(), s.data(), s.size());
  return { p.get(), s.size() };
}

static std::string gen_value(vh::rng& r)
{
  auto n = r.len(r.chance(1, 50) ? 5000 : 12);
  std::string s;
  while (s.size() < n) {
    unsigned char c = r.chance(1, 3) ? (unsigned char)",W/!~\x7e\x21;= *"[r.below(10)] : (unsigned char)r.u64();
    if (etagc(c)) s += char(c);
  }
  return s;
}
static tag gen_tag(vh::rng& r) { return { r.flip(), gen_value(r) }; }

static void judge_tag(const std::string& s)
{
  std::unique_ptr<char[]> p;
  tag want;
  bool ok = parse_tag(s, want);
  auto got = entity_tag::parse(tight(s, p));
  vh::eval();
  if (ok) {
    vh::count("tag:valid");
    if (!got) vh::fail("tag-rejects-valid", vh::esc(s));
    else if (got->strong() != want.strong || got->value() != want.v)
      vh::fail("tag-wrong-value", vh::esc(s) + " got " + vh::esc(got->value()) + (got->strong() ? " strong" : " weak"));
    else if (got->to_string() != s) vh::fail("tag-to-string", vh::esc(s) + " got " + vh::esc(got->to_string()));
  } else {
    vh::count("tag:invalid");
    if (got) vh::fail("tag-accepts-invalid", vh::esc(s));
  }
}

VH_SUITE("tag-bytes", 256, 256)
{
  // every byte at every role in a tag
  std::string c(1, char(idx));
  for (auto& s : { "\"" + c + "\"", "W/\"" + c + "\"", c + "\"a\"", "\"a\"" + c, "\"a" + c + "b\"", c + "/\"a\"",
                   "W" + c + "\"a\"", "W/" + c + "a\"", "W/\"a" + c, c, c + c, "\"" + c, c + "\"", "W/" + c })
    judge_tag(s);
  vh::seen(c);
}
VH_SUITE("tag-mutations", 20000, 400000)
{
  auto s = gen_tag(r).text();
  judge_tag(s);
  for (int i = 0, n = int(r.below(3)); i < n; ++i) {
    auto p = r.below(s.size() + 1);
    char c = r.flip() ? "\"W/, \x7f\x1f*\t"[r.below(9)] : char(r.u64());
    switch (r.below(3)) {
    case 0: s.insert(p, 1, c); break;
    case 1:
      if (p < s.size()) s[p] = c;
      break;
    default:
      if (p < s.size()) s.erase(p, 1);
    }
  }
  vh::sample(vh::esc(s, 60));
  vh::seen(s);
  judge_tag(s);
}
VH_SUITE("tag-object", 5000, 100000)
{
  auto a = gen_tag(r), b = r.flip() ? gen_tag(r) : tag { r.flip(), a.v };
  if (r.chance(1, 4) && !b.v.empty()) b.v[r.below(b.v.size())] = 'x';
  auto ea = a.strong ? entity_tag::make_strong(a.v) : entity_tag::make_weak(a.v);
  entity_tag eb(!b.strong, "zz");
  if (r.flip()) eb.set_strong(b.strong).set_value(b.v);
  else eb = entity_tag(!b.strong, "q").set_value(b.v).set_strong(b.strong);
  VH_CHECK((ea == eb) == (a == b), "tag-equality", vh::esc(a.text()) + " " + vh::esc(b.text()));
  VH_CHECK(ea.weakly_equal_to(eb) == (a.v == b.v) && eb.weakly_equal_to(ea) == (a.v == b.v), "tag-weak-equality",
           vh::esc(a.text()) + " " + vh::esc(b.text()));
  VH_CHECK(ea.to_string() == a.text() && eb.to_string() == b.text(), "tag-text", vh::esc(eb.to_string()));
  auto cp = ea;
  cp.set_value("other").set_strong(!a.strong);
  VH_CHECK(ea.value() == a.v && ea.strong() == a.strong, "tag-copy-aliases", vh::esc(a.text()));
  auto back = entity_tag::parse(eb.to_string());
  VH_CHECK(back && *back == eb, "tag-reparse", vh::esc(b.text()));
  vh::seen(a.text() + b.text());
}
// verdict for a whole If-None-Match value: 0 reject, 1 accept, 2 unspecified
static int parse_list(const std::string& s0, std::vector<tag>& out, bool& any)
{
  any = false;
  out.clear();
  // whitespace other than SP / HTAB, and empty list elements: not judged
  auto s = s0;
  for (std::size_t i = 0; i < s.size(); ++i)
    if (s[i] >= '\n' && s[i] <= '\r') return 2;
  std::size_t p = 0, e = s.size();
  auto ws = [&] {
    while (p < e && (s[p] == ' ' || s[p] == '\t')) ++p;
  };
  ws();
  auto q = p;
  if (p < e && s[p] == '*') {
    ++p;
    ws();
    if (p == e) {
      any = true;
      return 1;
    }
    return 0;
  }
  p = q;
  if (p == e) return s0.empty() ? 0 : 2;
  bool empties = false;
  for (;;) {
    ws();
    if (p == e || s[p] == ',') {
      empties = true;
      if (p == e) break;
      ++p;
      continue;
    }
    tag t;
    if (!scan_tag(s, p, t)) return 0;
    out.push_back(t);
    ws();
    if (p == e) break;
    if (s[p] != ',') return 0;
    ++p;
  }
  return empties ? 2 : 1;
}
static void judge_list(const std::string& s)
{
  std::vector<tag> want;
  bool any;
  int verdict = parse_list(s, want, any);
  std::unique_ptr<char[]> p;
  auto got = if_none_match::parse(tight(s, p));
  p.reset(); // tags must own their text
  vh::eval();
  if (verdict == 2) {
    vh::count("list:unspecified");
    return;
  }
  if (verdict == 0) {
    vh::count("list:invalid");
    if (got) vh::fail("list-accepts-invalid", vh::esc(s));
    return;
  }
  vh::count(any ? "list:any" : "list:valid");
  if (!got) {
    vh::fail("list-rejects-valid", vh::esc(s));
    return;
  }
  if (got->is_any() != any) vh::fail("list-any-flag", vh::esc(s));
  auto& e = got->etags();
  bool same = e.size() == want.size();
  for (std::size_t i = 0; same && i < e.size(); ++i)
    same = e[i].strong() == want[i].strong && e[i].value() == want[i].v;
  if (!same) vh::fail("list-wrong-tags", vh::esc(s) + " got " + std::to_string(e.size()) + " tags");
  std::vector<entity_tag> it(got->begin(), got->end()), ci(got->cbegin(), got->cend());
  const auto& cg = *got;
  std::vector<entity_tag> bi(cg.begin(), cg.end());
  if (it != e || ci != e || bi != e) vh::fail("list-iteration", vh::esc(s));
}
VH_SUITE("lists", 20000, 400000)
{
  std::string s = r.from(" \t", r.below(3));
  if (r.chance(1, 10)) s += "*";
  else
    for (std::size_t i = 0, n = 1 + r.below(r.chance(1, 20) ? 60 : 5); i < n; ++i) {
      if (i) s += r.from(" \t", r.below(3)) + "," + r.from(" \t", r.below(3));
      s += gen_tag(r).text();
    }
  s += r.from(" \t", r.below(3));
  judge_list(s);
  for (int i = 0, n = int(r.below(3)); i < n; ++i) {
    auto p = r.below(s.size() + 1);
    char c = r.flip() ? "\",W/ *\x7f\t"[r.below(8)] : char(r.u64());
    switch (r.below(3)) {
    case 0: s.insert(p, 1, c); break;
    case 1:
      if (p < s.size()) s[p] = c;
      break;
    default:
      if (p < s.size()) s.erase(p, 1);
    }
  }
  vh::sample(vh::esc(s, 80));
  vh::seen(s);
  judge_list(s);
}
VH_SUITE("list-literals", 1, 1)
{
  for (std::string s : { "", "*", " * ", "**", "*,\"a\"", "\"a\",*", "\"a\"\"b\"", "\"a\"b\"", "\"a\" \"b\"", "\"a,b\"",
                         "\"a,b\",W/\"c,d\"", "W/\"\"", "w/\"a\"", "W\"a\"", "\",\"", "\",\",\",\"", "\"a\";\"b\"" })
    judge_list(s);
}
int main(int c, char** v)
{
  vh::require("tag:valid", 1000);
  vh::require("tag:invalid", 1000);
  vh::require("list:valid", 1000);
  vh::require("list:invalid", 1000);
  vh::require("list:any", 100);
  return vh::main(c, v);
}
