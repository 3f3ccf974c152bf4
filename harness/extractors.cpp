// P26: what the extractors hand to a handler, against values the generator
// knows; requests are raw bytes on a socket, so nothing of the library's own
// serialisation is involved.
#include "srv.hpp"
#include "vh.hpp"

#include <boost/describe.hpp>
#include <boost/json/src.hpp>

namespace {

using namespace fitoria;
using namespace fitoria::web;

std::string hex(std::string_view s)
{
  std::string o;
  for (unsigned char c : s) {
    char b[3];
    std::snprintf(b, sizeof b, "%02x", c);
    o += b;
  }
  return o + ".";
}
std::string bits(double d)
{
  std::uint64_t u;
  std::memcpy(&u, &d, sizeof u);
  return std::to_string(u);
}

std::mutex g_mx;
std::map<std::string, int> g_calls; // by X-Id

void called(const http::header_map& h)
{
  std::lock_guard l(g_mx);
  auto v = h.get("X-Id");
  ++g_calls[v ? std::string(v->data(), v->size()) : ""];
}
int calls(const std::string& id)
{
  std::lock_guard l(g_mx);
  auto it = g_calls.find(id);
  return it == g_calls.end() ? 0 : it->second;
}

struct rec {
  std::string name;
  std::int64_t num {};
  double real {};
  bool flag {};
  std::uint8_t small {};
};
std::string show(const rec& x) { return hex(x.name) + std::to_string(x.num) + "|" + bits(x.real) + "|" + (x.flag ? "1" : "0") + "|" + std::to_string(int(x.small)); }

struct two {
  std::string a, b;
};

struct item {
  std::string name;
  std::int64_t id {};
  std::vector<std::string> tags;
  bool ok {};
  std::map<std::string, std::int64_t> extra;
};
BOOST_DESCRIBE_STRUCT(item, (), (name, id, tags, ok, extra))
std::string show(const item& x)
{
  std::string s = hex(x.name) + std::to_string(x.id) + "|";
  for (auto& t : x.tags) s += hex(t);
  s += x.ok ? "|1|" : "|0|";
  for (auto& [k, v] : x.extra) s += hex(k) + std::to_string(v) + ",";
  return s;
}

struct st_a {
  std::string text;
  int n;
};
struct st_b {
  std::shared_ptr<std::string> p;
};
struct st_none {
  int n;
};

std::string dump(const http::header_map& h)
{
  std::map<std::string, std::vector<std::string>> g;
  for (auto& [n, v] : srv::of(h)) g[n].push_back(v);
  std::string s;
  for (auto& [n, vs] : g)
    for (auto& v : vs) s += n + "=" + hex(v) + ";";
  return s;
}

using bytes_t = std::vector<std::uint8_t>;

std::string g_shared = "shared state";

srv::running& server()
{
  static srv::running s(
      [](http_server::builder b) {
        return std::move(b)
            .serve(scope<"/st">()
                       .use_state(st_a { "scope", 7 })
                       .serve(route::get<"/a">([](const http::header_map& h, state_of<st_a> a) -> awaitable<std::string> {
                         called(h);
                         a.n += 1; // a copy: nobody else may notice
                         a.text += "!";
                         co_return a.text + std::to_string(a.n);
                       }).use_state(st_b { std::make_shared<std::string>(g_shared) }))
                       .serve(route::get<"/b">([](const http::header_map& h, state_of<st_a> a, state_of<st_b> b2) -> awaitable<std::string> {
                         called(h);
                         co_return a.text + std::to_string(a.n) + *b2.p;
                       }).use_state(st_b { std::make_shared<std::string>(g_shared) }))
                       .serve(route::get<"/none">([](const http::header_map& h, state_of<st_none> a) -> awaitable<std::string> {
                         called(h);
                         co_return std::to_string(a.n);
                       }))
                       .serve(route::get<"/first/{x}">([](const http::header_map& h, path_of<std::tuple<int>>, state_of<st_none> a) -> awaitable<std::string> {
                         called(h);
                         co_return std::to_string(a.n);
                       })))
            .serve(scope<"/x">()
                       .serve(route::any<"/t/{i}/{s}/{d}/{b}/{u}">([](const http::header_map& h, path_of<std::tuple<std::int64_t, std::string, double, bool, std::uint8_t>> p) -> awaitable<std::string> {
                         called(h);
                         auto& [i, t, d, f, u] = p;
                         co_return show(rec { t, i, d, f, u });
                       }))
                       // the order of the fields is not the order in the pattern
                       .serve(route::any<"/n/{small}/{flag}/{name}/{real}/{num}">([](const http::header_map& h, path_of<rec> p) -> awaitable<std::string> {
                         called(h);
                         co_return show(p);
                       }))
                       .serve(route::any<"/bad/{wrong}/{b}">([](const http::header_map& h, path_of<two> p) -> awaitable<std::string> {
                         called(h);
                         co_return p.a;
                       }))
                       .serve(route::any<"/count/{a}/{b}">([](const http::header_map& h, path_of<std::tuple<std::string>> p) -> awaitable<std::string> {
                         called(h);
                         co_return std::get<0>(p);
                       }))
                       .serve(route::any<"/count2/{a}">([](const http::header_map& h, path_of<two> p) -> awaitable<std::string> {
                         called(h);
                         co_return p.a;
                       }))
                       .serve(route::any<"/i/{one}/mid/{two}/#rest">([](const http::header_map& h, const path_info& p) -> awaitable<std::string> {
                         called(h);
                         std::string o = hex(p.match_pattern()) + hex(p.match_path()) + std::to_string(p.size());
                         for (auto k : { "one", "two", "rest" }) o += p.contains(k) ? hex(*p.get(std::string(k))) : "-";
                         for (std::size_t i = 0; i < p.size(); ++i) o += hex(p.at(i));
                         co_return o;
                       }))
                       .serve(route::any<"/q">([](const http::header_map& h, query_of<rec> q) -> awaitable<std::string> {
                         called(h);
                         co_return show(q);
                       }))
                       .serve(route::any<"/qm">([](const http::header_map& h, const query_map& q) -> awaitable<std::string> {
                         called(h);
                         std::map<std::string, std::string> m;
                         for (auto& [k, v] : q) m[k] = v;
                         std::string o;
                         for (auto& [k, v] : m) o += hex(k) + hex(v) + ",";
                         co_return o;
                       }))
                       .serve(route::any<"/f">([](const http::header_map& h, form_of<rec> f) -> awaitable<std::string> {
                         called(h);
                         co_return show(f);
                       }))
                       .serve(route::any<"/j">([](const http::header_map& h, json_of<item> j) -> awaitable<std::string> {
                         called(h);
                         co_return show(j);
                       }))
                       .serve(route::any<"/s">([](const http::header_map& h, std::string b2) -> awaitable<std::string> {
                         called(h);
                         co_return hex(b2);
                       }))
                       .serve(route::any<"/v">([](const http::header_map& h, bytes_t b2) -> awaitable<std::string> {
                         called(h);
                         co_return hex({ reinterpret_cast<const char*>(b2.data()), b2.size() });
                       }))
                       .serve(route::any<"/vb">([](const http::header_map& h, std::vector<std::byte> b2) -> awaitable<std::string> {
                         called(h);
                         co_return hex({ reinterpret_cast<const char*>(b2.data()), b2.size() });
                       }))
                       .serve(route::any<"/h">([](const http::header_map& h, http::version v, const connect_info& c, const request& q) -> awaitable<std::string> {
                         called(h);
                         auto m = boost::beast::http::to_string(q.method());
                         co_return dump(h) + "#" + (v == http::version::v1_1 ? "11" : v == http::version::v1_0 ? "10" : "?") + "#" + c.local() + "#" + c.remote() + "#" + std::string(m.data(), m.size()) + "#" + (&q.headers() == &h ? "same" : "other");
                       }))
                       .use_state(st_a { "x", 1 })
                       .serve(route::any<"/all/{a}/{b}">([](const request& q, path_of<two> p, query_of<two> u, form_of<two> f, state_of<st_a> a, const http::header_map& h, http::version v) -> awaitable<std::string> {
                         called(h);
                         co_return hex(p.a) + hex(p.b) + hex(u.a) + hex(u.b) + hex(f.a) + hex(f.b) + a.text + std::to_string(a.n) + std::to_string(int(v == q.version()));
                       })))
            .build();
      },
      2);
  static std::uint16_t port = s.bind_tcp();
  (void)port;
  return s;
}
std::uint16_t tcp_port()
{
  static std::uint16_t p = server().bind_tcp();
  return p;
}

// ------------------------------------------------------------------ values
struct field {
  std::string text, shown;
  bool ok = true;
  bool unsure = false; // not decided by the statement
};

field make_int(vh::rng& r, __int128 lo, __int128 hi)
{
  field f;
  auto str = [](__int128 v) {
    bool neg = v < 0;
    std::string s;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    do {
      s.insert(s.begin(), char('0' + int(u % 10)));
      u /= 10;
    } while (u);
    return (neg ? "-" : "") + s;
  };
  __int128 v;
  switch (r.below(5)) {
  case 0: v = lo + __int128(r.below(4)); break;
  case 1: v = hi - __int128(r.below(4)); break;
  case 2: v = std::min<__int128>(hi, __int128(r.below(300))); break;
  default: v = lo + __int128(r.u64()) % (hi - lo + 1); if (v < lo) v = lo; break;
  }
  f.text = f.shown = str(v);
  if (r.chance(1, 10)) {
    f.ok = false;
    switch (r.below(9)) {
    case 0: f.text = str(hi + 1 + __int128(r.below(9))); break;
    case 1: f.text = str(lo - 1 - __int128(r.below(9))); break;
    case 2: f.text += " "; break;
    case 3: f.text = " " + f.text; break;
    case 4: f.text = "+" + f.text; break;
    case 5: f.text += "x"; break;
    case 6: f.text = "0x1f"; break;
    case 7: f.text = str(hi) + "0"; break;
    case 8: f.text = f.text + std::string(1, '\0'); break;
    }
  }
  return f;
}
field make_bool(vh::rng& r)
{
  field f;
  bool v = r.flip();
  f.text = v ? r.one_of<std::string>({ "1", "t", "true", "y", "yes" }) : r.one_of<std::string>({ "0", "f", "false", "n", "no" });
  for (auto& c : f.text)
    if (c >= 'a' && c <= 'z' && r.chance(1, 3)) c = char(c - 32);
  f.shown = v ? "1" : "0";
  if (r.chance(1, 10)) {
    f.ok = false;
    f.text = r.one_of<std::string>({ "2", "on", "tru", "truee", " 1", "yes ", "00" });
  }
  return f;
}
field make_real(vh::rng& r)
{
  field f;
  char b[64];
  double d;
  switch (r.below(4)) {
  case 0: d = double(long(r.below(2000)) - 1000); std::snprintf(b, sizeof b, "%.0f", d); break;
  case 1: d = double(r.below(1000000)) / 1000.0; std::snprintf(b, sizeof b, "%.6f", d); break;
  default:
    d = (double(r.u64()) - 9e18) * (r.flip() ? 1e-10 : 1e30);
    std::snprintf(b, sizeof b, "%.17g", d);
    break;
  }
  f.text = b;
  f.shown = bits(std::strtod(b, nullptr));
  if (r.chance(1, 10)) {
    f.ok = false;
    f.text = r.one_of<std::string>({ "1.5.2", "1e", "abc", "1,5", " 1.5", "1.5 ", "--1", "1e999" });
  }
  return f;
}
std::string make_text(vh::rng& r, bool segment)
{
  std::string s;
  switch (r.below(4)) {
  case 0: s = r.from("abcXYZ019-_.~", r.len(12)); break;
  case 1: s = r.from("a%&=+?#;/ \"<>{}", r.len(12)); break;
  default: s = r.bytes(r.len(24)); break;
  }
  if (segment) {
    for (auto& c : s)
      if (c == '/') c = '!';
    if (s.empty()) s = r.chance(1, 4) ? "." : "z";
  }
  return s;
}
std::string pct(vh::rng& r, std::string_view s, bool plus)
{
  std::string o;
  for (unsigned char c : s) {
    bool safe = std::isalnum(c) || (c && std::strchr("-._~", c));
    if (c == ' ' && plus && r.flip()) o += '+';
    else if (safe && !r.chance(1, 10)) o += char(c);
    else {
      char b[4];
      std::snprintf(b, sizeof b, r.flip() ? "%%%02X" : "%%%02x", c);
      o += b;
    }
  }
  return o;
}

struct made {
  std::map<std::string, field> f; // by field name
  bool ok() const
  {
    for (auto& [k, v] : f)
      if (!v.ok) return false;
    return true;
  }
  std::string shown() const { return hex(f.at("name").text) + f.at("num").shown + "|" + f.at("real").shown + "|" + f.at("flag").shown + "|" + f.at("small").shown; }
};
made make_rec(vh::rng& r, bool segment)
{
  made m;
  m.f["name"] = { make_text(r, segment), "" };
  m.f["num"] = make_int(r, INT64_MIN, INT64_MAX);
  m.f["real"] = make_real(r);
  m.f["flag"] = make_bool(r);
  m.f["small"] = make_int(r, 0, 255);
  return m;
}
// key=value pairs; says whether exactly the wanted keys are there
std::string pairs(vh::rng& r, const std::vector<std::pair<std::string, std::string>>& kv)
{
  auto v = kv;
  r.shuffle(v);
  std::string o;
  for (auto& [k, x] : v) o += (o.empty() ? "" : "&") + pct(r, k, true) + "=" + pct(r, x, true);
  return o;
}

// ---------------------------------------------------------------- messages
struct msg {
  std::string method = "POST", target = "/", extra; // header lines
  int version = 11;
  std::string body;
  enum { none, sized, chunked } framing = none;
};
std::string wire(vh::rng& r, const msg& m, const std::string& id)
{
  std::string s = m.method + " " + m.target + (m.version == 11 ? " HTTP/1.1" : " HTTP/1.0") + "\r\nHost: h\r\nX-Id: " + id + "\r\n" + m.extra;
  if (m.version == 10) s += "Connection: keep-alive\r\n";
  if (m.framing == msg::sized) s += "Content-Length: " + std::to_string(m.body.size()) + "\r\n\r\n" + m.body;
  else if (m.framing == msg::chunked) {
    s += "Transfer-Encoding: chunked\r\n\r\n";
    std::size_t at = 0;
    while (at < m.body.size()) {
      auto n = std::min(m.body.size() - at, 1 + r.len(m.body.size() > 5000 ? 9000 : 60));
      char b[32];
      std::snprintf(b, sizeof b, "%zx\r\n", n);
      s += b + m.body.substr(at, n) + "\r\n";
      at += n;
    }
    s += "0\r\n\r\n";
  } else s += "\r\n";
  return s;
}
void send_pieces(vh::rng& r, srv::client& c, const std::string& s)
{
  if (!r.chance(1, 3)) {
    c.send(s);
    return;
  }
  std::size_t at = 0;
  int cuts = int(1 + r.below(6));
  while (at < s.size()) {
    auto n = cuts-- > 0 ? std::min(s.size() - at, 1 + r.below(s.size() / 2 + 1)) : s.size() - at;
    c.send(s.substr(at, n));
    at += n;
    if (r.flip()) ::usleep(useconds_t(r.below(2000)));
  }
}

// sends one request and judges the outcome
void exchange(vh::rng& r, srv::client& c, msg m, const std::string& id, bool ok, const std::string& want, const std::string& key, bool any_error = false)
{
  if (m.framing == msg::none && !m.body.empty()) m.framing = m.version == 11 && r.flip() ? msg::chunked : msg::sized;
  auto text = wire(r, m, id);
  send_pieces(r, c, text);
  auto a = srv::next_response(c);
  auto w = vh::esc(text, 900) + " -> " + std::to_string(a.status) + " " + a.why + " " + vh::esc(a.body, 300);
  VH_CHECK(a.st == srv::message::complete, key + ":no-response", w);
  if (ok) {
    VH_CHECK(a.status == 200, key + ":rejected", w);
    VH_CHECK(a.body == want, key + ":value", w + " want " + want);
    VH_CHECK(calls(id) == 1, key + ":handler", w + " calls " + std::to_string(calls(id)));
    vh::count("accepted:" + key);
  } else {
    VH_CHECK(a.status / 100 == 4 || (any_error && a.status / 100 == 5), key + ":status", w);
    VH_CHECK(calls(id) == 0, key + ":handler-ran", w);
    vh::count("refused:" + key);
  }
  VH_CHECK(!a.close && !c.eof(), key + ":closed", w);
  {
    std::lock_guard l(g_mx);
    g_calls.erase(id);
  }
  vh::seen(key + std::to_string(a.status) + m.target + m.body + m.extra);
  vh::sample(w.substr(0, 300));
}

std::string content_type(vh::rng& r, std::string_view essence, bool& ok)
{
  std::string e(essence);
  if (r.chance(1, 4))
    for (auto& ch : e)
      if (ch >= 'a' && ch <= 'z' && r.flip()) ch = char(ch - 32);
  ok = true;
  switch (r.below(12)) {
  case 0: ok = false; return "";
  case 1: ok = false; return "Content-Type: text/plain\r\n";
  case 2: ok = false; return "Content-Type: " + e + "x\r\n";
  case 3: ok = false; return "Content-Type: " + e.substr(0, e.find('/')) + "\r\n";
  case 4: ok = false; return "Content-Type: \r\n";
  case 5: return "Content-Type: " + e + "; charset=utf-8\r\n";
  case 6: return "content-type:" + e + ";charset=UTF-8\r\n";
  default: return "Content-Type: " + e + "\r\n";
  }
}

std::string json_text(vh::rng& r, std::string_view s)
{
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += std::string("\\") + c;
    else if ((unsigned char)c < 0x20 || r.chance(1, 12)) {
      if ((unsigned char)c < 0x80) {
        char b[8];
        std::snprintf(b, sizeof b, "\\u%04x", c);
        o += b;
      } else o += c;
    } else o += c;
  }
  return o + "\"";
}
std::string utf8(vh::rng& r)
{
  std::string s;
  for (auto n = r.len(12); n; --n) s += r.one_of<std::string>({ "a", "B", "\"", "\\", "\n", "\t", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "/", "0", " ", std::string(1, '\0') });
  return s;
}
} // namespace

VH_SUITE("paths", 500, 20000)
{
  srv::client c(server().path);
  for (int k = 0; k < 6; ++k) {
    auto id = std::to_string(idx) + "-" + std::to_string(k);
    auto m = make_rec(r, true);
    // a segment must not be empty to be routed here at all
    for (auto& [n, f] : m.f)
      if (f.text.empty()) f.text = "bad", f.ok = false;
    msg q;
    q.version = r.chance(1, 6) ? 10 : 11;
    auto seg = [&](const std::string& n) { return "/" + pct(r, m.f[n].text, false); };
    if (r.flip()) {
      q.target = "/x/t" + seg("num") + seg("name") + seg("real") + seg("flag") + seg("small");
      exchange(r, c, q, id, m.ok(), m.shown(), "path-tuple");
    } else {
      q.target = "/x/n" + seg("small") + seg("flag") + seg("name") + seg("real") + seg("num");
      exchange(r, c, q, id, m.ok(), m.shown(), "path-struct");
    }
  }
}

VH_SUITE("path-info", 250, 8000)
{
  srv::client c(server().path);
  auto one = make_text(r, true), two = make_text(r, true);
  std::string rest;
  for (auto n = r.below(4); n; --n) rest += (rest.empty() ? "" : "/") + make_text(r, r.flip());
  msg q;
  q.target = "/x/i/" + pct(r, one, false) + "/mid/" + pct(r, two, false) + "/" + pct(r, rest, false);
  auto want = hex("/x/i/{one}/mid/{two}/#rest") + hex("/x/i/" + one + "/mid/" + two + "/" + rest) + "3" + hex(one) + hex(two) + hex(rest) + hex(one) + hex(two) + hex(rest);
  exchange(r, c, q, "i" + std::to_string(idx), true, want, "path-info");
}

VH_SUITE("queries", 500, 20000)
{
  srv::client c(server().path);
  for (int k = 0; k < 5; ++k) {
    auto id = "q" + std::to_string(idx) + "-" + std::to_string(k);
    msg q;
    q.method = r.one_of<std::string>({ "GET", "POST", "PUT" });
    if (r.flip()) {
      auto m = make_rec(r, false);
      std::vector<std::pair<std::string, std::string>> kv;
      for (auto& [n, f] : m.f) kv.emplace_back(n, f.text);
      bool ok = m.ok();
      switch (r.below(8)) {
      case 0: kv.emplace_back(r.one_of<std::string>({ "other", "Name", "" }), "1"); ok = false; break;
      case 1: kv.erase(kv.begin() + long(r.below(kv.size()))); ok = false; break;
      case 2: kv[r.below(kv.size())].first += "x"; ok = false; break;
      }
      q.target = "/x/q?" + pairs(r, kv);
      exchange(r, c, q, id, ok, m.shown(), "query");
    } else {
      std::map<std::string, std::string> want;
      std::string text;
      for (auto n = r.below(6); n; --n) {
        auto key = make_text(r, false), v = make_text(r, false);
        if (!want.empty() && r.chance(1, 5)) key = want.begin()->first;
        want[key] = v;
        text += (text.empty() ? "" : "&") + pct(r, key, true) + "=" + pct(r, v, true);
      }
      q.target = "/x/qm" + (text.empty() && r.flip() ? "" : "?" + text);
      std::string w;
      for (auto& [a, b] : want) w += hex(a) + hex(b) + ",";
      exchange(r, c, q, id, true, w, "query-map");
    }
  }
}

VH_SUITE("forms", 500, 20000)
{
  srv::client c(server().path);
  for (int k = 0; k < 5; ++k) {
    auto id = "f" + std::to_string(idx) + "-" + std::to_string(k);
    msg q;
    q.target = "/x/f";
    q.version = r.chance(1, 6) ? 10 : 11;
    auto m = make_rec(r, false);
    std::vector<std::pair<std::string, std::string>> kv;
    for (auto& [n, f] : m.f) kv.emplace_back(n, f.text);
    bool ok = m.ok(), type_ok;
    q.extra = content_type(r, "application/x-www-form-urlencoded", type_ok);
    switch (r.below(9)) {
    case 0: kv.emplace_back(r.one_of<std::string>({ "other", "Name", "" }), "1"); ok = false; break;
    case 1: kv.erase(kv.begin() + long(r.below(kv.size()))); ok = false; break;
    case 2: kv[r.below(kv.size())].first += "x"; ok = false; break;
    }
    q.body = pairs(r, kv);
    if (r.chance(1, 12)) {
      q.body.insert(r.below(q.body.size() + 1), r.one_of<std::string>({ "%", "%zz", "%4", "&%&" }));
      // broken only if it does not complete to an escape by chance
      bool broken = false;
      for (std::size_t i = 0; i < q.body.size(); ++i)
        if (q.body[i] == '%' && (i + 2 >= q.body.size() || !std::isxdigit((unsigned char)q.body[i + 1]) || !std::isxdigit((unsigned char)q.body[i + 2]))) broken = true;
      if (!broken) continue;
      ok = false;
    }
    exchange(r, c, q, id, ok && type_ok, m.shown(), "form");
  }
}

VH_SUITE("json", 500, 20000)
{
  srv::client c(server().path);
  for (int k = 0; k < 5; ++k) {
    auto id = "j" + std::to_string(idx) + "-" + std::to_string(k);
    item x;
    x.name = utf8(r);
    x.id = std::int64_t(r.chance(1, 4) ? (r.flip() ? std::uint64_t(INT64_MAX) : std::uint64_t(INT64_MIN)) : r.u64());
    for (auto n = r.below(4); n; --n) x.tags.push_back(utf8(r));
    x.ok = r.flip();
    for (auto n = r.below(3); n; --n) x.extra[r.from("abc", 3)] = std::int64_t(r.below(1000));
    auto ws = [&] { return r.chance(1, 5) ? r.one_of<std::string>({ " ", "\n", "\t ", "\r\n" }) : std::string(); };
    std::string tags = "[", extra = "{";
    for (auto& t : x.tags) tags += (tags.size() > 1 ? "," : "") + ws() + json_text(r, t) + ws();
    for (auto& [a, b] : x.extra) extra += (extra.size() > 1 ? "," : "") + ws() + json_text(r, a) + ":" + std::to_string(b);
    std::vector<std::pair<std::string, std::string>> members {
      { "name", json_text(r, x.name) }, { "id", std::to_string(x.id) }, { "tags", tags + "]" }, { "ok", x.ok ? "true" : "false" }, { "extra", extra + "}" }
    };
    r.shuffle(members);
    bool ok = true, type_ok;
    auto wrong = r.below(10);
    if (wrong == 0) {
      members.erase(members.begin() + long(r.below(members.size())));
      ok = false;
    } else if (wrong == 1) {
      auto& mm = members[r.below(members.size())];
      mm.second = r.one_of<std::string>({ "null", "1.5", "[1]", "{\"a\":\"b\"}" });
      ok = false;
      if (mm.first == "id" && mm.second == "1.5") mm.second = "\"1\"";
    }
    std::string text = ws() + "{";
    for (auto& [a, b] : members) text += (text.find(':') != text.npos ? "," : "") + ws() + "\"" + a + "\"" + ws() + ":" + ws() + b + ws();
    text += "}" + ws();
    if (wrong == 2) text += r.one_of<std::string>({ "x", "{}", "1", "}" }), ok = false;
    else if (wrong == 3) text.resize(text.rfind('}')), ok = false;
    else if (wrong == 4) {
      text = r.one_of<std::string>({ "", "nul", "{", "[]", "\"\\ud800\"", std::string(60000, '['), "{\"name\"", "1e99999" });
      ok = false;
    }
    msg q;
    q.target = "/x/j";
    q.extra = content_type(r, "application/json", type_ok);
    q.body = text;
    exchange(r, c, q, id, ok && type_ok, show(x), "json");
  }
}

VH_SUITE("bodies", 400, 15000)
{
  srv::client c(server().path);
  for (int k = 0; k < 3; ++k) {
    auto id = "b" + std::to_string(idx) + "-" + std::to_string(k);
    msg q;
    q.target = r.one_of<std::string>({ "/x/s", "/x/v", "/x/vb" });
    q.method = r.one_of<std::string>({ "POST", "PUT", "PATCH", "DELETE", "GET" });
    q.body = r.bytes(r.chance(1, 6) ? 60000 + r.below(12000) : r.len(400));
    if (r.chance(1, 6)) q.extra = "Content-Type: whatever\r\n";
    exchange(r, c, q, id, true, hex(q.body), "body");
  }
}

// a body that does not arrive whole never reaches the handler
VH_SUITE("cut-bodies", 150, 5000)
{
  srv::client c(server().path);
  auto id = "c" + std::to_string(idx);
  msg q;
  bool form = r.chance(1, 3), json = !form && r.flip();
  q.target = form ? "/x/f" : json ? "/x/j" : r.one_of<std::string>({ "/x/s", "/x/v" });
  if (form) q.extra = "Content-Type: application/x-www-form-urlencoded\r\n";
  if (json) q.extra = "Content-Type: application/json\r\n";
  q.body = form ? "flag=1&name=a&num=3&real=1.5&small=22222222222" : json ? "{\"name\":\"a\",\"id\":1,\"tags\":[],\"ok\":true,\"extra\":{}}     " : r.bytes(1 + r.len(3000));
  if (form) q.body = "flag=1&name=a&num=3&real=1.5&small=2&&&&&&";
  q.framing = r.flip() ? msg::sized : msg::chunked;
  auto text = wire(r, q, id);
  auto from = text.find("\r\n\r\n") + 4;
  auto cut = from + r.below(text.size() - from);
  bool broken = q.framing == msg::chunked && r.flip();
  std::string s = text.substr(0, cut);
  if (broken) {
    // a chunk header that cannot be one
    auto t2 = text.substr(0, from) + "5\r\nabcde\r\nzz\r\n";
    s = t2;
  }
  c.send(s);
  if (!broken || r.flip()) c.half_close();
  bool closed = c.drain(15000);
  auto w = vh::esc(s, 600) + " -> " + vh::esc(c.in(), 200);
  VH_CHECK(closed, "cut:open", w);
  VH_CHECK(calls(id) == 0, "cut:handler-ran", w);
  if (!c.in().empty()) {
    auto a = srv::parse_response(c.in(), false, true);
    VH_CHECK(a.st == srv::message::complete && a.status / 100 == 4, "cut:status", w);
  }
  vh::seen(s);
  vh::count("cut");
}

VH_SUITE("meta", 300, 8000)
{
  bool tcp = r.flip();
  srv::client c = tcp ? srv::client(tcp_port()) : srv::client(server().path);
  for (int k = 0; k < 3; ++k) {
    auto id = "m" + std::to_string(idx) + "-" + std::to_string(k);
    msg q;
    q.method = r.one_of<std::string>({ "GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS" });
    q.version = r.chance(1, 3) ? 10 : 11;
    q.target = "/x/h";
    std::map<std::string, std::vector<std::string>> g;
    g["host"] = { "h" };
    g["x-id"] = { id };
    if (q.version == 10) g["connection"] = { "keep-alive" };
    for (auto n = r.below(6); n; --n) {
      auto name = r.one_of<std::string>({ "X-One", "x-one", "X-TWO", "Accept", "Cookie", "X-Empty" });
      auto v = name == "X-Empty" ? std::string() : "v" + r.from("abc,;=\"  \xe9", r.len(10)) + "e";
      q.extra += name + r.one_of<std::string>({ ":", ": ", ":\t", ":  " }) + v + r.one_of<std::string>({ "", " ", "\t" }) + "\r\n";
      g[srv::lower(name)].push_back(v);
    }
    std::string want;
    for (auto& [n, vs] : g)
      for (auto& v : vs) want += n + "=" + hex(v) + ";";
    auto ep = tcp ? std::string("127.0.0.1#127.0.0.1") : server().path + "#";
    want += "#" + std::to_string(q.version) + "#" + ep + "#" + q.method + "#same";
    exchange(r, c, q, id, true, want, "meta");
  }
}

VH_SUITE("states", 200, 5000)
{
  srv::client c(server().path);
  for (int k = 0; k < 6; ++k) {
    auto id = "s" + std::to_string(idx) + "-" + std::to_string(k);
    msg q;
    q.method = "GET";
    switch (r.below(5)) {
    case 0: q.target = "/st/a"; exchange(r, c, q, id, true, "scope!8", "state"); break;
    case 1: q.target = "/st/b"; exchange(r, c, q, id, true, "scope7shared state", "state"); break;
    case 2: q.target = "/st/none"; exchange(r, c, q, id, false, "", "state-missing", true); break;
    // the first extractor that fails decides
    case 3: q.target = "/st/first/zz"; exchange(r, c, q, id, false, "", "first-failure"); break;
    case 4: q.target = "/st/first/12"; exchange(r, c, q, id, false, "", "state-missing", true); break;
    }
  }
}

VH_SUITE("several", 300, 10000)
{
  srv::client c(server().path);
  for (int k = 0; k < 3; ++k) {
    auto id = "a" + std::to_string(idx) + "-" + std::to_string(k);
    std::vector<std::string> v;
    for (int i = 0; i < 6; ++i) v.push_back(make_text(r, i < 2));
    bool type_ok, ok = true;
    msg q;
    q.version = r.chance(1, 4) ? 10 : 11;
    q.extra = content_type(r, "application/x-www-form-urlencoded", type_ok);
    std::vector<std::pair<std::string, std::string>> u { { "a", v[2] }, { "b", v[3] } }, f { { "a", v[4] }, { "b", v[5] } };
    if (r.chance(1, 8)) u.pop_back(), ok = false;
    if (r.chance(1, 8)) f.erase(f.begin()), ok = false;
    q.target = "/x/all/" + pct(r, v[0], false) + "/" + pct(r, v[1], false) + "?" + pairs(r, u);
    q.body = pairs(r, f);
    std::string want;
    for (auto& x : v) want += hex(x);
    exchange(r, c, q, id, ok && type_ok, want + "x11", "several");
  }
  // patterns that do not provide what the extractor asks for
  msg q;
  q.target = r.one_of<std::string>({ "/x/bad/1/2", "/x/count/1/2", "/x/count2/1" });
  exchange(r, c, q, "w" + std::to_string(idx), false, "", "pattern-mismatch", true);
}

int main(int argc, char** argv)
{
  for (auto k : { "path-tuple", "path-struct", "query", "form", "json", "several" }) {
    vh::require(std::string("accepted:") + k, 20);
    vh::require(std::string("refused:") + k, 20);
  }
  vh::require("refused:state-missing", 10);
  vh::require("cut", 20);
  return vh::main(argc, argv);
}
