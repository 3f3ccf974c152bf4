// P12: random route tables inserted in several orders, optimised at random
// points; every lookup is judged by a reference matcher over the set of routes.
#include "routes.hpp"

#include <fitoria/web/routable.hpp>
#include <fitoria/web/router.hpp>

namespace web = fitoria::web;
namespace http = fitoria::http;
using router_t = web::router<int, int>;

namespace {

const http::verb verbs[] = { http::verb::get, http::verb::post, http::verb::put, http::verb::delete_ };

router_t::route_type make(http::verb m, const std::string& p, int id)
{
  return router_t::route_type(web::routable(m, web::path_matcher(p), {}, [=](int) { return id; }));
}

struct entry {
  http::verb m;
  std::string pat;
  std::vector<routes::tok> ts;
};

int expect(const std::vector<entry>& es, http::verb m, std::string_view path)
{
  int best = -1;
  for (std::size_t i = 0; i < es.size(); ++i) {
    auto& e = es[i];
    if (e.m != m && e.m != http::verb::unknown) continue;
    if (!routes::match(e.ts, path)) continue;
    if (best < 0) {
      best = int(i);
      continue;
    }
    auto& b = es[std::size_t(best)];
    int d = routes::prefer(e.ts, b.ts);
    if (d < 0 || (d == 0 && e.m == m && b.m != m)) best = int(i);
  }
  return best;
}

void table_case(vh::rng& r, bool small_alphabet)
{
  std::vector<entry> es;
  std::vector<entry> dups;
  std::size_t n = 1 + r.below(small_alphabet ? 10 : 24);
  std::set<std::pair<int, std::string>> shapes;
  for (std::size_t i = 0; i < n; ++i) {
    std::string p = !es.empty() && r.chance(1, 6) ? r.pick(es).pat : routes::pattern(r, !small_alphabet);
    if (!es.empty() && r.chance(1, 4)) { // extend or cut an existing static run
      p = r.pick(es).pat;
      if (p.find('#') == p.npos && (p.empty() || p.back() != '}')) {
        if (r.flip() && !p.empty() && p.size() > 1 && p.find('{') == p.npos && p.find('%') == p.npos) p.resize(1 + r.below(p.size()));
        else if (!p.empty()) p += r.from("abc", 1 + r.below(2));
      }
    }
    auto m = r.chance(1, 5) ? http::verb::unknown : verbs[r.below(small_alphabet ? 2 : 4)];
    entry e { m, p, routes::tokens(p) };
    if (shapes.insert({ int(m), routes::shape(p) }).second) es.push_back(e);
    else dups.push_back(e);
  }
  std::string desc;
  for (auto& e : es) desc += std::string(boost::beast::http::to_string(e.m)) + " " + e.pat + "; ";
  vh::seen(desc);
  vh::sample(desc);
  struct q {
    http::verb m;
    std::string path;
    int want;
  };
  std::vector<q> qs;
  for (int i = 0; i < 40; ++i) {
    auto path = routes::path_for(r, r.pick(es).pat);
    auto m = r.chance(1, 10) ? http::verb::patch : verbs[r.below(small_alphabet ? 2 : 4)];
    qs.push_back({ m, path, expect(es, m, path) });
    vh::count(qs.back().want >= 0 ? "lookups_found" : "lookups_absent");
  }
  std::vector<std::size_t> order(es.size());
  for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
  for (int round = 0; round < 4; ++round) {
    if (round) r.shuffle(order);
    router_t rt;
    std::size_t opt_at = r.chance(1, 3) ? r.below(es.size() + 1) : es.size() + 1;
    std::string how;
    for (std::size_t k = 0; k < order.size(); ++k) {
      if (k == opt_at) {
        rt.optimize();
        how += "<optimize> ";
      }
      auto& e = es[order[k]];
      auto ok = rt.try_insert(make(e.m, e.pat, int(order[k])));
      how += e.pat + " ";
      VH_CHECK(ok.has_value(), "insert-rejected", "insertion of new route " + e.pat + " rejected after " + how);
      // duplicates must be rejected and change nothing
      for (auto& d : dups)
        if (d.m == e.m && routes::shape(d.pat) == routes::shape(e.pat) && r.flip()) {
          auto dup = rt.try_insert(make(d.m, d.pat, 1000));
          VH_CHECK(!dup && dup.error() == make_error_code(web::error::route_already_exists), "duplicate-accepted",
                   "duplicate " + d.pat + " of " + e.pat + " accepted");
          vh::count("duplicates");
        }
    }
    for (auto& d : dups) {
      auto dup = rt.try_insert(make(d.m, d.pat, 1000));
      VH_CHECK(!dup, "duplicate-accepted", "duplicate " + d.pat + " accepted after " + how);
    }
    auto ask = [&](const char* when) {
      for (auto& x : qs) {
        // the path lives in an exact-size heap buffer so that any overread is caught
        std::vector<char> buf(x.path.begin(), x.path.end());
        auto res = rt.try_find(x.m, std::string_view(buf.data(), buf.size()));
        int got = res ? (*res)(0) : -1;
        auto nm = [&](int i) { return i < 0 ? std::string("nothing") : i >= 1000 ? "duplicate" : es[std::size_t(i)].pat; };
        VH_CHECK(got == x.want,
                 std::string("lookup:")
                     + (x.want < 0 ? "unsound" : got < 0 ? "incomplete" : "priority"),
                 std::string(boost::beast::http::to_string(x.m)) + " " + vh::esc(x.path) + " selected " + nm(got) + ", expected "
                     + nm(x.want) + " (" + when + ") in " + how);
        if (!res)
          VH_CHECK(res.error() == make_error_code(web::error::route_not_exists), "lookup:error", "wrong error code");
        else
          VH_CHECK(res->matcher().pattern() == es[std::size_t(got)].pat && res->method() == es[std::size_t(got)].m,
                   "lookup:route", "returned route reports another pattern");
      }
    };
    if (round & 1) {
      ask("before optimize");
      rt.optimize();
      ask("after optimize");
      if (r.flip()) {
        router_t moved(std::move(rt));
        moved.optimize();
        rt = std::move(moved);
        ask("after optimize and move");
      }
    } else {
      ask("not optimized");
    }
  }
}

VH_SUITE("small-alphabet", 1600, 60000) { table_case(r, true); }
VH_SUITE("wide", 800, 30000) { table_case(r, false); }

// every pair and triple of a fixed list of patterns, in every insertion order
VH_SUITE("orders", 24, 24)
{
  static const std::vector<std::string> ps = { "/a",  "/ab",   "/abc",   "/ac",    "/b",     "/a/",    "/a/b",   "/a/c",   "/a/{x}",
                                              "/{x}", "/{x}/b", "/#w",    "/a#w",   "/a/#w",  "/{x}/#w", "/",      "",       "//",
                                              "/a/{x}/b", "/a/{x}/c", "/a/b/c", "/a/b/", "/ab/{x}", "/a/{x}/#w" };
  static const std::vector<std::string> paths
      = { "",     "/",     "//",     "/a",    "/ab",    "/abc",  "/abcd", "/ac",  "/acd",    "/b",      "/c",      "/a/",  "/a//",
          "/a/b", "/a/c",  "/a/d",   "/a/b/", "/a/b/c", "/a/x/b", "/a/x/c", "/a/x/d", "/b/b", "/b/b/c",  "/ab/x",   "/ad/e", "/aa",
          "//b",  "/a//b", "/a/x/y/z", "b",    "a" };
  auto i = std::size_t(idx);
  for (std::size_t j = 0; j < ps.size(); ++j)
    for (std::size_t k = j + 1; k < ps.size(); ++k) {
      if (i == j || i == k) continue;
      std::vector<entry> es;
      for (auto x : { i, j, k }) es.push_back({ http::verb::get, ps[x], routes::tokens(ps[x]) });
      std::vector<int> perm { 0, 1, 2 };
      do {
        router_t rt;
        for (int x : perm) VH_CHECK(rt.try_insert(make(http::verb::get, es[std::size_t(x)].pat, x)).has_value(), "insert-rejected", ps[i]);
        for (int o = 0; o < 2; ++o) {
          for (auto& p : paths) {
            auto res = rt.try_find(http::verb::get, p);
            int got = res ? (*res)(0) : -1, want = expect(es, http::verb::get, p);
            VH_CHECK(got == want, "lookup:orders",
                     p + " selected " + (got < 0 ? "nothing" : es[std::size_t(got)].pat) + ", expected "
                         + (want < 0 ? "nothing" : es[std::size_t(want)].pat) + " in " + es[std::size_t(perm[0])].pat + " "
                         + es[std::size_t(perm[1])].pat + " " + es[std::size_t(perm[2])].pat);
          }
          rt.optimize();
        }
        vh::count("orders");
      } while (std::next_permutation(perm.begin(), perm.end()));
      vh::seen(ps[i] + " " + ps[j] + " " + ps[k]);
    }
}

} // namespace

int main(int argc, char** argv)
{
  vh::require("lookups_found", 1000);
  vh::require("lookups_absent", 1000);
  vh::require("duplicates", 50);
  return vh::main(argc, argv);
}
