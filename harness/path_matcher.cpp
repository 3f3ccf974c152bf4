// P13: pattern matching and parameter extraction against a reference matcher,
// directly and for every route a router selects; path_info against a map model.
#include "routes.hpp"

#include <fitoria/web/path_info.hpp>
#include <fitoria/web/routable.hpp>
#include <fitoria/web/router.hpp>

namespace web = fitoria::web;
namespace http = fitoria::http;

namespace {

std::string show(const routes::bindings& b)
{
  std::string s = "[";
  for (auto& [k, v] : b) s += k + "=" + vh::esc(v, 40) + " ";
  return s + "]";
}

void judge(const web::path_matcher& m, const std::string& pat, const std::string& path)
{
  auto want = routes::match(routes::tokens(pat), path);
  auto got = m.match(path);
  VH_CHECK(got.has_value() == want.has_value(), want ? "match:rejected" : "match:accepted",
           "pattern " + pat + " path " + vh::esc(path) + " expected " + (want ? show(*want) : "no match"));
  if (got && want) {
    VH_CHECK(*got == *want, "match:bindings", "pattern " + pat + " path " + vh::esc(path) + " gave " + show(*got) + " expected " + show(*want));
    vh::count("matched");
  } else if (!want) vh::count("unmatched");
}

VH_SUITE("match", 12000, 600000)
{
  auto pat = routes::pattern(r, true);
  vh::sample(pat);
  try {
    web::path_matcher m(pat);
    VH_CHECK(m.pattern() == pat, "pattern()", pat);
    std::string back;
    for (auto& t : m.tokens())
      back += t.kind == web::path_token_kind::static_ ? t.value
          : t.kind == web::path_token_kind::param      ? "{" + t.value + "}"
                                                       : "#" + t.value;
    VH_CHECK(back == pat, "tokens()", pat);
    auto c = m;
    auto d = std::move(c);
    for (int i = 0; i < 8; ++i) {
      auto path = routes::path_for(r, pat);
      vh::seen(pat + " " + path);
      judge(i & 1 ? d : m, pat, path);
    }
  } catch (const std::exception& e) {
    vh::fail("match:threw", "legal pattern " + pat + " threw " + e.what());
  }
}

VH_SUITE("literal-statics", 1, 1)
{
  // every legal static character alone, against every byte
  for (int c = 0x21; c < 0x7f; ++c) {
    if (!std::isalnum(c) && !std::strchr("-._~!$&'()*+,;=:@", c)) continue;
    std::string pat = std::string("/") + char(c) + "/{p}";
    try {
    web::path_matcher m(pat);
    for (int b = 0; b < 256; ++b) {
      judge(m, pat, std::string("/") + char(b) + "/v");
      judge(m, pat, std::string("/") + char(c) + "/" + char(b));
    }
    judge(m, pat, "//v");
    judge(m, pat, std::string("/") + char(c) + char(c) + "/v");
    } catch (const std::exception& e) {
      vh::fail("match:threw", "legal pattern " + pat + " threw " + e.what());
    }
    vh::seen(pat);
  }
  // every legal name character
  for (int c = 0x21; c < 0x7f; ++c) {
    if (!std::isalnum(c) && !std::strchr("-._~!$&'()*+,;=:@", c)) continue;
    for (auto& nm : { std::string(1, char(c)), std::string("a") + char(c), char(c) + std::string("a") }) {
      for (auto& pat : { "/{" + nm + "}/{zz}", "/q#" + nm }) {
        try {
          web::path_matcher m(pat);
          judge(m, pat, "/v1/v2");
          judge(m, pat, "/qrest/of/it");
        } catch (const std::exception& e) {
          vh::fail("match:threw", "legal pattern " + pat + " threw " + e.what());
        }
        vh::seen(pat);
      }
    }
  }
}

// whatever a router selects can be extracted
VH_SUITE("selected", 1500, 60000)
{
  web::router<int, int> rt;
  std::vector<std::string> pats;
  std::size_t n = 1 + r.below(8);
  for (std::size_t i = 0; i < n; ++i) {
    auto p = routes::pattern(r, true);
    try {
      if (rt.try_insert(web::router<int, int>::route_type(
              web::routable(http::verb::get, web::path_matcher(p), {}, [](int) { return 0; }))))
        pats.push_back(p);
    } catch (const std::exception& e) {
      vh::fail("match:threw", "legal pattern " + p + " threw " + e.what());
    }
  }
  if (pats.empty()) return;
  rt.optimize();
  for (int i = 0; i < 30; ++i) {
    auto path = routes::path_for(r, r.pick(pats));
    auto res = rt.try_find(http::verb::get, path);
    if (!res) continue;
    auto pat = std::string(res->matcher().pattern());
    auto got = res->matcher().match(path);
    vh::seen(pat + " " + path);
    VH_CHECK(got.has_value(), "selected:unextractable", "router selected " + pat + " for " + vh::esc(path) + " but it does not match");
    if (!got) continue;
    auto want = routes::match(routes::tokens(pat), path);
    VH_CHECK(want && *want == *got, "selected:bindings", pat + " for " + vh::esc(path) + " gave " + show(*got));
    vh::count("selected");
    web::path_info pi(pat, path, *got);
    VH_CHECK(pi.match_pattern() == pat && pi.match_path() == path, "path_info:pattern", pat);
    VH_CHECK(pi.size() == got->size() && pi.empty() == got->empty(), "path_info:size", pat);
    for (std::size_t k = 0; k < got->size(); ++k) {
      auto& [key, val] = (*got)[k];
      auto a = pi.get(key);
      auto b = pi.get(k);
      VH_CHECK(a && *a == val && b && *b == val && pi.at(key) == val && pi.at(k) == val && pi.contains(key), "path_info:get",
               pat + " key " + key);
    }
  }
}

VH_SUITE("path_info", 6000, 200000)
{
  std::vector<std::pair<std::string, std::string>> ps;
  std::map<std::string, std::string> model;
  std::size_t n = r.below(7);
  for (std::size_t i = 0; i < n; ++i) {
    std::string k = r.from("abAB", 1 + r.below(3));
    if (model.contains(k)) continue;
    std::string v = r.bytes(r.len(40));
    ps.emplace_back(k, v);
    model[k] = v;
  }
  web::path_info a("/p", "/q", ps);
  web::path_info b = a;
  web::path_info c;
  c = a;
  web::path_info d = std::move(c);
  c = web::path_info();
  std::string what;
  for (auto& [k, v] : ps) what += k + "=" + vh::esc(v) + " ";
  vh::seen(what);
  vh::sample(what);
  VH_CHECK(a == b && a == d && b.match_pattern() == "/p" && d.match_path() == "/q", "path_info:copy", what);
  if (!ps.empty()) {
    auto qs = ps;
    qs[r.below(qs.size())].second += "x";
    VH_CHECK(!(a == web::path_info("/p", "/q", qs)), "path_info:equality", what);
    VH_CHECK(!(a == web::path_info("/p", "/q2", ps)) && !(a == web::path_info("/p2", "/q", ps)), "path_info:equality", what);
  }
  // the list form
  using E = web::path_info::value_type;
  auto at = [&](std::size_t i) { return E { ps[i].first, ps[i].second }; };
  web::path_info e = ps.empty() ? web::path_info("/p", "/q", std::initializer_list<E> {})
      : ps.size() == 1          ? web::path_info("/p", "/q", { at(0) })
      : ps.size() == 2          ? web::path_info("/p", "/q", { at(0), at(1) })
      : ps.size() == 3          ? web::path_info("/p", "/q", { at(0), at(1), at(2) })
                                : a;
  VH_CHECK(e == a, "path_info:equality", what);
  for (auto* p : { &a, &b, &d, &e }) {
    const auto& m = *p;
    {
      auto it = m.begin();
      for (std::size_t i = 0; i < ps.size(); ++i) {
        auto old = it++;
        VH_CHECK(old->first == ps[i].first && old != it, "path_info:iterate", what);
      }
      VH_CHECK(it == m.end(), "path_info:iterate", what);
      for (std::size_t i = ps.size(); i--;) {
        auto old = it--;
        VH_CHECK(it->first == ps[i].first && old != it, "path_info:iterate-back", what);
      }
    }
    VH_CHECK(m.size() == ps.size() && m.empty() == ps.empty(), "path_info:size", what);
    auto keys = m.keys();
    VH_CHECK(keys.size() == ps.size(), "path_info:keys", what);
    std::size_t i = 0;
    for (auto it = m.begin(); it != m.end(); ++it, ++i) {
      VH_CHECK(i < ps.size() && it->first == ps[i].first && (*it).second == ps[i].second, "path_info:iterate", what);
    }
    VH_CHECK(i == ps.size(), "path_info:iterate", what);
    for (auto it = m.cend(); it != m.cbegin();) {
      --it;
      --i;
      VH_CHECK(it->first == ps[i].first && it->second == ps[i].second, "path_info:iterate-back", what);
    }
    for (i = 0; i < ps.size(); ++i) {
      auto& [k, v] = ps[i];
      VH_CHECK(keys[i] == k && m.at(i) == v && m.at(k) == v && m.get(i) && *m.get(i) == v && m.get(k) && *m.get(k) == v
                   && m.contains(k) && m.find(k)->second == v && m.find(i)->second == v
                   && m.get(std::string_view(k)) && m.get(k.c_str()),
               "path_info:lookup", what);
    }
    for (auto i2 : { ps.size(), ps.size() + 1, std::size_t(-1) }) {
      bool threw = false;
      try {
        (void)m.at(i2);
      } catch (const std::out_of_range&) {
        threw = true;
      }
      VH_CHECK(!m.get(i2) && threw && m.find(i2) == m.find("no such key"), "path_info:out-of-range", what);
    }
    for (auto nk : { "zz", "", "aBaBaB" }) {
      bool threw = false;
      try {
        (void)m.at(nk);
      } catch (const std::out_of_range&) {
        threw = true;
      }
      VH_CHECK(!m.get(nk) && !m.contains(nk) && threw, "path_info:absent", what);
    }
  }
}

} // namespace

int main(int argc, char** argv)
{
  vh::require("matched", 1000);
  vh::require("unmatched", 1000);
  vh::require("selected", 500);
  return vh::main(argc, argv);
}
