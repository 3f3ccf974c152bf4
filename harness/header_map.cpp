// P14: random operation histories over several header maps, judged against a
// case-insensitive multimap model after every step.
#include "vh.hpp"

#include <fitoria/http/header_map.hpp>

namespace http = fitoria::http;
using map_t = http::header_map;

namespace {

std::string lower(std::string_view s)
{
  std::string r(s);
  for (auto& c : r)
    if (c >= 'A' && c <= 'Z') c = char(c - 'A' + 'a');
  return r;
}

struct known {
  http::field f;
  const char* name;
};
const known fields[] = { { http::field::accept, "Accept" },
                         { http::field::content_type, "Content-Type" },
                         { http::field::content_length, "Content-Length" },
                         { http::field::set_cookie, "Set-Cookie" },
                         { http::field::host, "Host" },
                         { http::field::etag, "ETag" },
                         { http::field::www_authenticate, "WWW-Authenticate" } };
const char* custom[] = { "X-A", "X-B", "x", "X-Accept", "Accep", "X_Y.z!#$%&'*+-^_`|~09", "Content-Typ", "Content-Type2", "accept-" };

using model_t = std::map<std::string, std::vector<std::string>>;

std::string recase(vh::rng& r, std::string s)
{
  for (auto& c : s)
    if (r.flip()) c = char(std::isalpha((unsigned char)c) ? c ^ 0x20 : c);
  return s;
}

std::string value(vh::rng& r)
{
  auto v = r.from("abcXYZ019-_,;=\"()/ \t\x80\xff", r.len(r.chance(1, 30) ? 3000 : 30));
  while (!v.empty() && (v.front() == ' ' || v.front() == '\t')) v.erase(0, 1);
  while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back();
  return v;
}

std::size_t total(const model_t& m)
{
  std::size_t n = 0;
  for (auto& [k, v] : m) n += v.size();
  return n;
}

void judge(vh::rng& r, map_t& hm, const model_t& m, const std::string& how)
{
  const map_t& c = hm;
  VH_CHECK(c.size() == total(m) && c.empty() == m.empty(), "size", how + " size=" + std::to_string(c.size()));
  model_t seen;
  for (auto it = c.begin(); it != c.end(); ++it) {
    seen[lower(std::string_view(it->name_string()))].emplace_back(it->value());
  }
  VH_CHECK(seen == m, "iteration", how);
  model_t seen2;
  for (auto& e : hm) seen2[lower(std::string_view(e.name_string()))].emplace_back(e.value());
  VH_CHECK(seen2 == m, "iteration", how);
  std::size_t n = 0;
  for (auto it = c.cbegin(); it != c.cend(); ++it) ++n;
  VH_CHECK(n == total(m), "iteration", how);
  auto one = [&](const std::string& what, const std::vector<std::string>* vs, bool has, auto got, auto range) {
    VH_CHECK(has == (vs != nullptr), "contains", how + " name " + what);
    VH_CHECK(got.has_value() == (vs != nullptr) && (!vs || !got || *got == vs->front()), "get",
             how + " name " + what + " got " + (got ? vh::esc(*got) : "nothing"));
    std::vector<std::string> l;
    for (auto it = range.first; it != range.second; ++it) l.emplace_back(it->value());
    VH_CHECK(l == (vs ? *vs : std::vector<std::string>()), "equal_range", how + " name " + what);
  };
  auto in_model = [&](const std::string& nm) -> const std::vector<std::string>* {
    auto it = m.find(lower(nm));
    return it == m.end() ? nullptr : &it->second;
  };
  for (auto& k : fields) {
    if (r.chance(1, 2)) one(std::string("field:") + k.name, in_model(k.name), c.contains(k.f), c.get(k.f), c.equal_range(k.f));
    auto nm = recase(r, k.name);
    if (r.chance(1, 2)) one(nm, in_model(nm), c.contains(nm), c.get(nm), c.equal_range(nm));
  }
  for (auto* k : custom) {
    auto nm = recase(r, k);
    if (r.chance(1, 2)) one(nm, in_model(nm), c.contains(nm), c.get(nm), c.equal_range(nm));
  }
}

VH_SUITE("histories", 2400, 120000)
{
  constexpr int N = 3;
  map_t hm[N];
  model_t md[N];
  std::string how;
  int steps = 5 + int(r.below(45));
  for (int s = 0; s < steps; ++s) {
    auto i = r.below(N);
    auto& h = hm[i];
    auto& m = md[i];
    bool by_field = r.flip();
    auto& kf = fields[r.below(std::size(fields))];
    std::string nm = r.flip() ? recase(r, kf.name) : recase(r, custom[r.below(std::size(custom))]);
    if (by_field) nm = kf.name;
    auto key = lower(nm);
    how += std::to_string(i) + (by_field ? "f:" : ":");
    auto v = value(r);
    // the arguments live in exact-size buffers that die before the map is judged
      // (names keep a terminator: the case-insensitive comparison of Boost.Beast 1.83 looks one byte ahead)
    std::vector<char> nb(nm.c_str(), nm.c_str() + nm.size() + 1), vb(v.begin(), v.end());
    std::string_view ns(nb.data(), nm.size()), vs(vb.data(), vb.size());
    switch (r.below(10)) {
    case 0:
    case 1:
      by_field ? h.set(kf.f, vs) : h.set(ns, vs);
      m[key] = { v };
      how += "set(" + nm + ") ";
      vh::count("set");
      break;
    case 2:
    case 3:
    case 4:
    case 5:
      by_field ? h.insert(kf.f, vs) : h.insert(ns, vs);
      m[key].push_back(v);
      how += "insert(" + nm + ") ";
      vh::count("insert");
      break;
    case 6: {
      auto n = by_field ? h.erase(kf.f) : h.erase(ns);
      how += "erase(" + nm + ") ";
      auto want = m.contains(key) ? m[key].size() : 0;
      VH_CHECK(n == want, "erase-count", how + " returned " + std::to_string(n) + " expected " + std::to_string(want));
      m.erase(key);
      vh::count(want ? "erase_hit" : "erase_miss");
      break;
    }
    case 7: {
      auto j = (i + 1 + r.below(N - 1)) % N;
      how += "=" + std::to_string(j) + " ";
      if (r.flip()) {
        h = hm[j];
      } else {
        map_t c(hm[j]);
        h = std::move(c);
      }
      m = model_t(md[j]);
      vh::count("copy");
      break;
    }
    case 8: {
      auto j = r.below(N);
      if (i != j) {
        how += "<-" + std::to_string(j) + " ";
        if (r.flip()) h = std::move(hm[j]);
        else {
          map_t c(std::move(hm[j]));
          h = std::move(c);
        }
        m = md[j];
        hm[j] = map_t();
        md[j].clear();
        vh::count("move");
      }
      break;
    }
    default:
      if (r.chance(1, 3)) {
        h.clear();
        m.clear();
        how += "clear ";
      } else {
        // through the wire representation and back
        boost::beast::http::fields f;
        h.to_impl(f);
        h = map_t::from_impl(std::move(f));
        how += "impl ";
        vh::count("impl_round_trip");
      }
    }
    vb.assign(vb.size(), 'Z');
    nb.assign(nb.size(), 'Z');
    for (int k = 0; k < N; ++k) judge(r, hm[k], md[k], how);
  }
  vh::seen(how);
  vh::sample(how);
}

// every standard field: by enumerator and by its name in any case
VH_SUITE("all-fields", 1, 1)
{
  for (int i = 1; i <= int(http::field::xref); ++i) {
    auto f = static_cast<http::field>(i);
    std::string nm(boost::beast::http::to_string(f));
    if (nm.empty() || nm == "<unknown-field>") continue;
    map_t a;
    a.insert(f, "1");
    a.insert(recase(r, nm), "2");
    std::vector<std::string> l;
    auto [b, e] = a.equal_range(f);
    for (auto it = b; it != e; ++it) l.emplace_back(it->value());
    VH_CHECK((l == std::vector<std::string> { "1", "2" }) && a.get(nm) == "1" && a.get(lower(nm)) == "1" && a.size() == 2, "all-fields", nm);
    a.set(recase(r, nm), "3");
    VH_CHECK(a.size() == 1 && a.get(f) == "3" && a.contains(f) && a.contains(recase(r, nm)), "all-fields", nm);
    VH_CHECK(a.erase(f) == 1 && a.empty() && !a.contains(nm) && !a.get(f), "all-fields", nm);
    vh::count("fields");
    vh::seen(nm);
  }
}

} // namespace

int main(int argc, char** argv)
{
  vh::require("erase_hit", 100);
  vh::require("copy", 100);
  vh::require("impl_round_trip", 100);
  vh::require("fields", 300);
  return vh::main(argc, argv);
}
