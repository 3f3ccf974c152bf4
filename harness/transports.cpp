// P31: one application on five transports; the same requests must give the same
// bytes, the same view to the handler, and the right connection details.
#include "tls.hpp"
#include "ws.hpp"

#include <dirent.h>

namespace parts { // transports_part.cpp
bool bind_tcp(const fitoria::web::http_server& s, std::string_view a, std::uint16_t p);
bool bind_tls(const fitoria::web::http_server& s, std::string_view a, std::uint16_t p, fitoria::net::ssl::context& c);
bool bind_tls_local(const fitoria::web::http_server& s, std::string_view f, fitoria::net::ssl::context& c);
}

namespace web = fitoria::web;
namespace http = fitoria::http;
namespace net = boost::asio;
using fitoria::awaitable;

namespace {

struct plan {
  int status = 200;
  std::vector<std::pair<std::string, std::string>> set;
  int form = 0; // none, string, sized stream, chunked stream, json
  std::string body;
  std::vector<std::string> chunks;
  bool suspend = false, fail = false;
  int read = 0; // body before, not at all, first piece only
  int throws = 0;
};
std::mutex g_mx;
std::map<std::string, plan> g_plans;
std::map<std::string, std::vector<std::string>> g_views;

std::string hex(std::string_view s)
{
  return vh::esc(s, 100000);
}
std::string id_of(const web::request& req)
{
  auto v = req.headers().get("x-case");
  return v ? std::string(v->data(), v->size()) : "";
}
std::string describe(const web::request& req)
{
  std::string s = "method " + std::to_string(int(req.method())) + "; ";
  s += "pattern " + std::string(req.path().match_pattern()) + "; path " + hex(req.path().match_path()) + "; ";
  std::map<std::string, std::string> p;
  for (auto& [k, v] : req.path()) p[k] = v;
  for (auto& [k, v] : p) s += k + "=" + hex(v) + "; ";
  std::map<std::string, std::string> q;
  for (auto& [k, v] : req.query()) q[k] = v;
  for (auto& [k, v] : q) s += "?" + hex(k) + "=" + hex(v) + "; ";
  s += req.version() == http::version::v1_0 ? "1.0; " : "1.1; ";
  std::multimap<std::string, std::string> hs;
  for (auto& [n, v] : srv::of(req.headers()))
    if (n != "content-length" && n != "transfer-encoding") hs.emplace(n, v);
  for (auto& [n, v] : hs) s += n + ": " + hex(v) + "; ";
  return s;
}
awaitable<web::response> serve(web::request& req)
{
  auto id = id_of(req);
  plan p;
  {
    std::lock_guard l(g_mx);
    if (auto it = g_plans.find(id); it != g_plans.end()) p = it->second;
  }
  auto view = describe(req);
  if (p.read == 0) {
    auto d = co_await aio::drain(req.body(), 1000000);
    view += d.error ? "body cut" : "body " + std::to_string(d.data.size()) + "/" + std::to_string(vh::hash(d.data));
  } else if (p.read == 2) {
    auto x = co_await req.body().async_read_some();
    view += x ? "body" : "no body";
  }
  {
    std::lock_guard l(g_mx);
    g_views[id].push_back(view);
  }
  if (p.throws == 1) throw std::runtime_error("planned");
  if (p.throws == 2) throw 5;
  web::response_builder b = web::response::ok();
  b.set_status(p.status);
  for (auto& [n, v] : p.set) b.insert_header(n, v);
  auto sc = std::make_shared<aio::script>();
  sc->chunks = p.chunks;
  sc->suspend = p.suspend;
  if (p.fail) sc->error = std::make_error_code(std::errc::io_error);
  switch (p.form) {
  case 1: co_return b.set_body(std::string_view(p.body));
  case 2: co_return b.set_body(aio::source(sc));
  case 3: co_return b.set_stream_body(aio::source(sc));
  case 4: co_return b.set_json(boost::json::value { { "k", p.status } });
  default: co_return b.set_body();
  }
}
awaitable<web::response> who(const web::connect_info& i, const web::request& req)
{
  co_return web::response::ok().set_body(i.local() + "|" + i.remote() + (req.connection().local() == i.local() && req.connection().remote() == i.remote() ? "" : "|differs"));
}
awaitable<void> chat(web::websocket::context& c)
{
  for (;;) {
    auto m = co_await c.async_read();
    if (!m || std::holds_alternative<web::websocket::close_t>(*m)) co_return;
    if (auto* t = std::get_if<web::websocket::text_t>(&*m)) {
      if (!co_await c.async_write_text("<" + t->value + ">")) co_return;
    } else if (auto* b = std::get_if<web::websocket::binary_t>(&*m)) {
      auto v = b->value;
      if (!co_await c.async_write_binary(std::span(v.data(), v.size()))) co_return;
    }
  }
}
awaitable<web::response> ws_route(web::websocket w) { co_return w.set_handler(&chat); }

web::http_server make_server(web::http_server::builder b)
{
  b.set_request_timeout(std::chrono::seconds(20));
  b.set_tls_handshake_timeout(std::chrono::milliseconds(1500));
  b.set_exception_handler([](std::exception_ptr) { });
  b.serve(web::scope<"">()
              .serve(web::route::any<"/a/{p}">(serve))
              .serve(web::route::post<"/a/{p}/x/{q}">(serve))
              .serve(web::route::any<"/s/#w">(serve))
              .serve(web::route::get<"/g">(serve))
              .serve(web::route::any<"/caught">(serve).use(web::middleware::exception_handler()))
              .serve(web::route::any<"/ws">(ws_route))
              .serve(web::route::get<"/who">(who)));
  return b.build();
}

enum kind { tcp4, tcp6, local, tls4, tls_local, kinds };
const char* kind_name(int k) { return std::array { "tcp4", "tcp6", "unix", "tls", "tls-unix" }[std::size_t(k)]; }

// the application with a listener per transport
struct app {
  srv::tmpdir dir;
  net::ssl::context ctx = tls::server_context();
  srv::running run { [](web::http_server::builder b) { return make_server(std::move(b)); }, 2 };
  std::uint16_t p4 = 0, p6 = 0, pt = 0;
  std::string tls_path = (dir.p / "t").string();
  app()
  {
    vh::rng r(std::uint64_t(::getpid()) * 7919 + std::uint64_t(std::chrono::steady_clock::now().time_since_epoch().count()));
    auto pick = [&](auto bind) {
      for (int i = 0; i < 300; ++i) {
        auto p = std::uint16_t(10000 + r.below(20000));
        if (bind(p)) return p;
      }
      return std::uint16_t(0);
    };
    p4 = pick([&](std::uint16_t p) { return parts::bind_tcp(run.server, "0.0.0.0", p); });
    p6 = pick([&](std::uint16_t p) { return parts::bind_tcp(run.server, "::1", p); });
    pt = pick([&](std::uint16_t p) { return parts::bind_tls(run.server, "127.0.0.1", p, ctx); });
    if (!parts::bind_tls_local(run.server, tls_path, ctx) || !p4 || !pt) vh::fail("srv:bind", "no listener");
  }
};
app& the()
{
  static app a;
  return a;
}

srv::client dial6(std::uint16_t port)
{
  int fd = ::socket(AF_INET6, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in6 a {};
  a.sin6_family = AF_INET6;
  a.sin6_port = htons(port);
  a.sin6_addr = in6addr_loopback;
  if (fd >= 0 && ::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) {
    ::close(fd);
    fd = -1;
  }
  return srv::client::adopt(fd);
}

// one connection on any transport
struct conn {
  int k;
  srv::client plain;
  std::unique_ptr<tls::client> sec;
  bool up = true;
  conn(int kind, vh::rng* cut = nullptr, int tls_version = 0)
      : k(kind)
  {
    switch (kind) {
    case tcp4: plain = srv::client(the().p4); break;
    case tcp6: plain = dial6(the().p6); break;
    case local: plain = srv::client(the().run.path); break;
    case tls4: sec = std::make_unique<tls::client>(srv::client(the().pt), tls_version, cut); break;
    default: sec = std::make_unique<tls::client>(srv::client(the().tls_path), tls_version, cut);
    }
    up = sec ? sec->handshake(20000) : bool(plain);
    VH_CHECK(up, std::string("connect:") + kind_name(k), "cannot connect");
  }
  bool send(std::string_view s) { return sec ? sec->send(s) : plain.send(s); }
  std::string& in() { return sec ? sec->in() : plain.in(); }
  bool eof() const { return sec ? sec->eof() : plain.eof(); }
  bool pump(int ms) { return sec ? sec->pump(ms) : plain.pump(ms); }
  bool drain(int ms) { return sec ? sec->drain(ms) : plain.drain(ms); }
  void half_close() { sec ? sec->half_close() : plain.half_close(); }
};

// ---------------------------------------------------------------- requests
struct ask {
  std::string id, text, path, method, query_key, query_value, body;
  std::vector<std::pair<std::string, std::string>> headers;
  bool head = false, close = false, chunked = false, comparable = true, has_body = false, null = false;
  plan p;
};
std::atomic<long> g_id { 0 };
const char* token = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.";

ask make(vh::rng& r)
{
  ask a;
  a.id = std::to_string(++g_id) + "." + std::to_string(::getpid());
  auto& p = a.p;
  p.status = r.flip() ? 200 : r.one_of<int>({ 200, 201, 202, 204, 206, 301, 304, 400, 404, 429, 500, 503 });
  for (auto n = r.below(4); n--;) {
    std::string v = r.from("abc XYZ;=,\"/123\x80\xff", r.below(30));
    if (r.chance(1, 30)) v = std::string(1000 + r.below(9000), 'v');
    while (!v.empty() && v.front() == ' ') v.erase(v.begin());
    while (!v.empty() && v.back() == ' ') v.pop_back();
    p.set.emplace_back(r.flip() ? "X-" + r.from(token, 1 + r.below(10)) : r.one_of<const char*>({ "Content-Type", "Set-Cookie", "ETag", "Server", "Vary" }), v);
  }
  p.form = int(r.below(5));
  p.body = r.bytes(r.chance(1, 15) ? r.one_of<long>({ 16383, 16384, 16385, 65536, 200000 }) : r.len(400));
  p.chunks = aio::chop(r, p.body);
  p.suspend = r.flip();
  p.fail = p.form >= 2 && p.form <= 3 && r.chance(1, 12);
  p.read = r.chance(1, 4) ? 1 + int(r.below(2)) : 0;
  p.throws = r.chance(1, 20) ? 1 + int(r.below(2)) : 0;
  std::string seg = r.from(token, 1 + r.below(8)), enc = seg;
  if (r.chance(1, 3)) enc += r.one_of<const char*>({ "%20", "%2F", "%25", "%C3%A4", "%7e", "%3F", ":", "@", "!", "'", "(", ")", "*", "+", "," });
  switch (r.below(7)) {
  case 0: a.path = "/a/" + enc; break;
  case 1: a.path = "/a/" + enc + "/x/" + seg; break;
  case 2: a.path = "/s/" + enc + "/" + seg + "/y"; break;
  case 3: a.path = "/g"; break;
  case 4: a.path = "/caught"; break;
  case 5: a.path = "/" + enc; break;
  default: a.path = "/a/" + seg; break;
  }
  a.method = r.one_of<const char*>({ "GET", "GET", "POST", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS" });
  a.head = a.method == "HEAD";
  std::string target = a.path;
  if (r.chance(1, 3)) {
    a.query_key = r.from(token, 1 + r.below(6));
    a.query_value = r.from(token, r.below(10));
    target += "?" + a.query_key + "=" + a.query_value;
    if (r.chance(1, 3)) {
      target += r.one_of<const char*>({ "&", "&x", "&x=%26%3D", "&y=a+b", "&z=1&z=2", "&=", "&u=%C3%BC" });
      a.comparable = false;
    }
  }
  bool old = r.chance(1, 12);
  a.headers = { { "Host", "localhost" }, { "X-Case", a.id } };
  for (auto n = r.below(4); n--;) {
    std::string v = r.from("abc XYZ;=,\"/123", r.below(30));
    while (!v.empty() && v.front() == ' ') v.erase(v.begin());
    while (!v.empty() && v.back() == ' ') v.pop_back();
    a.headers.emplace_back("X-" + r.from(token, 1 + r.below(6)), v);
  }
  std::string h;
  for (auto& [n, v] : a.headers) h += n + ": " + v + "\r\n";
  a.close = r.chance(1, 8);
  if (a.close) h += "Connection: close\r\n";
  else if (old && r.flip()) h += "Connection: keep-alive\r\n";
  else if (old) a.close = true;
  if (a.close || old) a.comparable = false;
  if (r.chance(1, 15)) {
    h += "Expect: 100-continue\r\n";
    a.comparable = false;
  }
  if (a.method != "GET" && a.method != "HEAD" && r.chance(3, 4)) {
    a.has_body = true;
    a.body = r.bytes(r.chance(1, 15) ? r.one_of<long>({ 16384, 16385, 65537, 200000 }) : r.len(500));
    a.chunked = !old && r.flip();
    if (a.chunked) {
      h += "Transfer-Encoding: chunked\r\n\r\n";
      for (auto& c : aio::chop(r, a.body, false)) {
        char b[20];
        std::snprintf(b, sizeof b, "%zx\r\n", c.size());
        h += b + c + "\r\n";
      }
      h += "0\r\n\r\n";
    } else h += "Content-Length: " + std::to_string(a.body.size()) + "\r\n\r\n" + a.body;
  } else h += "\r\n";
  a.text = a.method + " " + target + " HTTP/1." + (old ? "0" : "1") + "\r\n" + h;
  std::lock_guard l(g_mx);
  g_plans[a.id] = p;
  return a;
}
void forget(const ask& a)
{
  std::lock_guard l(g_mx);
  g_plans.erase(a.id);
  g_views.erase(a.id);
}
std::vector<std::string> views(const std::string& id)
{
  std::lock_guard l(g_mx);
  auto v = g_views[id];
  g_views[id].clear();
  return v;
}

http::verb verb_of(const std::string& m)
{
  static const std::map<std::string, http::verb> t { { "GET", http::verb::get }, { "POST", http::verb::post }, { "PUT", http::verb::put }, { "DELETE", http::verb::delete_ },
    { "HEAD", http::verb::head }, { "PATCH", http::verb::patch }, { "OPTIONS", http::verb::options } };
  return t.at(m);
}

std::string decode(std::string_view s)
{
  std::string o;
  for (std::size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && i + 2 < s.size()) {
      o += char(std::stoi(std::string(s.substr(i + 1, 2)), nullptr, 16));
      i += 2;
    } else o += s[i];
  return o;
}

long open_fds()
{
  long n = 0;
  if (auto* d = ::opendir("/proc/self/fd")) {
    while (::readdir(d)) ++n;
    ::closedir(d);
  }
  return n;
}

} // namespace

// the same sequence of requests over every transport, byte for byte
VH_SUITE("same", 260, 8000)
{
  the();
  std::vector<ask> asks;
  for (auto n = 1 + r.below(4); n--;) {
    asks.push_back(make(r));
    if (asks.back().close) break;
  }
  // what was sent before an aborted exchange may be lost with the connection
  auto aborts = [](const ask& a) { return a.p.fail || (a.p.throws && a.path != "/caught"); };
  bool pipelined = r.flip() && std::none_of(asks.begin(), asks.end(), aborts);
  std::string all;
  for (auto& a : asks) all += a.text;
  auto pieces = aio::chop(r, all, false);
  std::array<std::string, kinds> out, end;
  std::array<std::vector<std::vector<std::string>>, kinds> seen;
  auto cut_seed = r.u64();
  for (int k = 0; k < kinds; ++k) {
    if (k == tcp6 && !the().p6) continue;
    vh::rng cut(cut_seed);
    conn c(k, r.flip() ? &cut : nullptr, r.one_of<int>({ 0, TLS1_2_VERSION, TLS1_3_VERSION }));
    if (!c.up) return;
    std::size_t answered = 0;
    if (pipelined)
      for (auto& p : pieces) c.send(p);
    for (auto& a : asks) {
      if (!pipelined) c.send(a.text);
      for (;;) {
        auto before = c.in().size();
        std::string snapshot;
        auto until = std::chrono::steady_clock::now() + std::chrono::seconds(20);
        srv::message m;
        for (;;) {
          snapshot = c.in();
          m = srv::parse_response(snapshot, a.head, c.eof());
          if (m.st != srv::message::incomplete || c.eof() || std::chrono::steady_clock::now() > until) break;
          c.pump(50);
        }
        (void)before;
        if (m.st == srv::message::complete) {
          out[std::size_t(k)] += c.in().substr(0, m.used);
          c.in().erase(0, m.used);
          if (m.status == 100) continue;
          ++answered;
          if (m.close) {
            c.drain(20000);
            if (c.sec) VH_CHECK(c.sec->clean(), "tls-unclean-close", "after a complete response with close: " + vh::esc(a.text.substr(0, 100)));
          }
        } else {
          VH_CHECK(c.eof(), std::string("stuck:") + kind_name(k), vh::esc(a.text.substr(0, 200)) + " got " + vh::esc(c.in()));
          if (!(aborts(a) && a.has_body && a.p.read)) out[std::size_t(k)] += c.in();
          c.in().clear();
        }
        break;
      }
      if (c.eof() && c.in().empty()) break;
    }
    end[std::size_t(k)] = c.eof() ? "closed" : "open";
    VH_CHECK(c.in().empty(), "extra-bytes", vh::esc(c.in()));
    vh::count(std::string("answered:") + kind_name(k), answered);
    if (c.eof() && answered < asks.size()) vh::count("aborted");
    c.half_close();
    c.drain(20000); // handlers are done once the server has closed
    for (auto& a : asks) seen[std::size_t(k)].push_back(views(a.id));
  }
  for (int k = 1; k < kinds; ++k) {
    if (k == tcp6 && !the().p6) continue;
    auto i = std::size_t(k);
    VH_CHECK(out[i] == out[0] && end[i] == end[0], std::string("differs:") + kind_name(k), "request " + vh::esc(all, 400) + "\n tcp4 " + end[0] + " " + vh::esc(out[0], 400) + "\n " + kind_name(k) + " " + end[i] + " " + vh::esc(out[i], 400));
    VH_CHECK(seen[i] == seen[0], std::string("handler-view:") + kind_name(k), [&] {
      std::string s = vh::esc(all, 300);
      for (auto& v : seen[0])
        for (auto& x : v) s += "\n tcp4 " + x;
      for (auto& v : seen[i])
        for (auto& x : v) s += std::string("\n ") + kind_name(k) + " " + x;
      return s;
    }());
    vh::count("compared");
  }
  vh::seen(std::to_string(vh::hash(out[0])));
  for (auto& a : asks) forget(a);
}

// damaged requests end the same way everywhere
VH_SUITE("damaged", 150, 4000)
{
  the();
  std::string all;
  std::vector<ask> asks;
  for (auto n = 1 + r.below(2); n--;) {
    asks.push_back(make(r));
    asks.back().p.read = 0;
    asks.back().p.throws = 0;
    {
      std::lock_guard l(g_mx);
      g_plans[asks.back().id] = asks.back().p;
    }
    all += asks.back().text;
  }
  if (all.size() > 5000) return;
  for (auto n = 1 + r.below(3); n--;) {
    auto at = r.chance(2, 3) ? r.below(std::min<std::size_t>(all.size(), 200)) : r.below(all.size());
    switch (r.below(4)) {
    case 0: all[at] = char(r.u64()); break;
    case 1: all.erase(at, 1 + r.below(4)); break;
    case 2: all.insert(at, r.from("\r\n :/?%\x00\x80", 1 + r.below(3))); break;
    default: all.resize(at + 1);
    }
    if (all.empty()) return;
  }
  std::array<std::string, kinds> out;
  std::array<std::vector<std::string>, kinds> seen;
  for (int k = 0; k < kinds; ++k) {
    if (k == tcp6 && !the().p6) continue;
    conn c(k);
    if (!c.up) return;
    c.send(all);
    c.half_close();
    VH_CHECK(c.drain(30000), std::string("stuck:") + kind_name(k), vh::esc(all, 300));
    out[std::size_t(k)] = c.in();
    for (auto& a : asks)
      for (auto& v : views(a.id)) seen[std::size_t(k)].push_back(v);
  }
  for (int k = 1; k < kinds; ++k) {
    if (k == tcp6 && !the().p6) continue;
    auto i = std::size_t(k);
    // closing on an error may discard what was written
    VH_CHECK(out[i].starts_with(out[0]) || out[0].starts_with(out[i]), std::string("differs:") + kind_name(k), "damaged request " + vh::esc(all, 400) + "\n tcp4 " + vh::esc(out[0], 400) + "\n " + kind_name(k) + " " + vh::esc(out[i], 400));
    VH_CHECK(seen[i] == seen[0], std::string("handler-view:") + kind_name(k), vh::esc(all, 300) + " " + (seen[0].empty() ? "-" : seen[0][0]) + " / " + (seen[i].empty() ? "-" : seen[i][0]));
    vh::count(out[i] == out[0] ? "damaged-equal" : "damaged-prefix");
  }
  vh::count(out[0].empty() ? "damaged-closed" : "damaged-answered");
  vh::seen(all);
  for (auto& a : asks) forget(a);
}

// the in-process interface against a socket
VH_SUITE("in-process", 300, 8000)
{
  the();
  static net::io_context ioc;
  static web::http_server inproc = make_server(web::http_server::builder(ioc));
  ask a;
  do {
    if (!a.id.empty()) forget(a);
    a = make(r);
    for (auto& [n, v] : a.p.set) a.comparable = a.comparable && v.size() < 1000; // its parser has a limit of 8 KB
  } while (!a.comparable);
  a.p.fail = false; // an aborted exchange has no response in process
  if (a.path != "/caught") a.p.throws = 0;
  {
    std::lock_guard l(g_mx);
    g_plans[a.id] = a.p;
  }
  conn c(int(r.below(kinds)) == tcp6 && !the().p6 ? tcp4 : int(r.below(kinds)) % kinds == tcp6 ? tcp4 : local);
  c.send(a.text);
  auto m = srv::next_response(c, a.head, 20000);
  VH_CHECK(m.st == srv::message::complete, "stuck:in-process-reference", vh::esc(a.text.substr(0, 200)));
  if (m.st != srv::message::complete) return forget(a);
  auto seen = views(a.id);

  web::test_request_builder b = web::test_request::get();
  b.set_method(verb_of(a.method));
  for (auto& [n, v] : a.headers) b.insert_header(n, v);
  if (!a.query_key.empty()) b.set_query(a.query_key, a.query_value);
  auto req = [&] {
    if (!a.has_body) return std::move(b).set_body();
    if (a.chunked) {
      auto sc = std::make_shared<aio::script>();
      sc->chunks = aio::chop(r, a.body);
      sc->suspend = r.flip();
      return std::move(b).set_stream_body(aio::source(sc));
    }
    return std::move(b).set_body(std::string_view(a.body));
  }();
  auto rep = srv::call(inproc, ioc, decode(a.path), std::move(req));
  auto seen2 = views(a.id);
  auto strip = [](const srv::headers& h) {
    std::multimap<std::string, std::string> o;
    for (auto& [n, v] : h)
      if (n != "content-length" && n != "transfer-encoding" && n != "connection") o.emplace(n, v);
    return o;
  };
  auto text = vh::esc(a.text, 300) + " socket " + std::to_string(m.status) + " " + srv::show(m.h) + " body " + std::to_string(m.body.size()) + " in process " + std::to_string(rep.status) + " " + srv::show(rep.h) + " body " + std::to_string(rep.body.size());
  VH_CHECK(rep.delivered, "in-process-lost", text);
  VH_CHECK(rep.status == m.status, "in-process-status", text);
  VH_CHECK(strip(rep.h) == strip(m.h), "in-process-headers", text);
  VH_CHECK(rep.body == m.body && !rep.body_error, "in-process-body", text);
  VH_CHECK(seen == seen2, "in-process-view", text + "\n " + (seen.empty() ? "-" : seen[0]) + "\n " + (seen2.empty() ? "-" : seen2[0]));
  vh::count("in-process");
  vh::count("in-process:handled", seen2.size());
  forget(a);
}

// connection details
VH_SUITE("peers", 60, 1500)
{
  the();
  auto ask = [&](auto&& c, const std::string& want) {
    for (int i = 0; i < 2; ++i) {
      c.send("GET /who HTTP/1.1\r\nHost: h\r\n\r\n");
      auto m = srv::next_response(c, false, 20000);
      VH_CHECK(m.body == want, "peer", "got " + vh::esc(m.body) + " expected " + vh::esc(want));
      vh::count("peers");
    }
    vh::seen(want);
  };
  auto address = [&](bool any) { return any ? "127." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(1 + r.below(254)) : std::string("127.0.0.1"); };
  auto tcp = [&](const std::string& from, const std::string& to, std::uint16_t port) {
    int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = inet_addr(from.c_str());
    if (::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) std::abort();
    a.sin_addr.s_addr = inet_addr(to.c_str());
    a.sin_port = htons(port);
    if (::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) {
      ::close(fd);
      fd = -1;
    }
    return srv::client::adopt(fd);
  };
  {
    auto from = address(true), to = address(true);
    ask(tcp(from, to, the().p4), to + "|" + from);
  }
  {
    auto from = address(true);
    tls::client c(tcp(from, "127.0.0.1", the().pt));
    if (c.handshake()) ask(c, "127.0.0.1|" + from);
  }
  if (the().p6) ask(dial6(the().p6), "::1|::1");
  auto un = [&](const std::string& from, const std::string& to) {
    int fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_un a {};
    a.sun_family = AF_UNIX;
    if (!from.empty()) {
      std::memcpy(a.sun_path, from.data(), from.size());
      if (::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) std::abort();
      a = {};
      a.sun_family = AF_UNIX;
    }
    std::memcpy(a.sun_path, to.data(), to.size());
    if (::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) {
      ::close(fd);
      fd = -1;
    }
    return srv::client::adopt(fd);
  };
  srv::tmpdir d;
  auto name = [&] {
    static std::atomic<int> n { 0 };
    auto s = (d.p / ("c" + std::to_string(++n))).string();
    return r.flip() ? s : s + std::string(std::min<std::size_t>(107 - s.size(), r.below(90)), 'n');
  };
  auto from = r.chance(1, 4) ? "" : name();
  ask(un(from, the().run.path), the().run.path + "|" + from);
  from = r.chance(1, 4) ? "" : name();
  tls::client c(un(from, the().tls_path));
  if (c.handshake()) ask(c, the().tls_path + "|" + from);
}

// a listener is created or an error is reported
VH_SUITE("binding", 60, 1500)
{
  the();
  auto& s = the().run.server;
  srv::tmpdir d;
  auto fds = open_fds();
  auto expect = [&](auto&& f, bool ok, const std::string& what) {
    int got = -1;
    try {
      got = bool(f());
    } catch (const std::exception& e) {
      VH_CHECK(false, "bind-throws", what + ": " + e.what());
      return;
    }
    VH_CHECK(got == ok, "bind-result", what + (got ? " succeeded" : " failed"));
    vh::count(got ? "bound" : "bind-refused");
  };
  std::string base = (d.p / "s").string();
  std::string path = base + std::string(r.one_of<long>({ 0, long(107 - base.size()), long(106 - base.size()), 20 }), 'p');
  std::string longer = base + std::string(108 - base.size() + (r.flip() ? 0 : r.below(300)), 'p');
  if (r.flip()) {
    expect([&] { return s.bind_local(longer); }, false, "path of " + std::to_string(longer.size()));
    expect([&] { return parts::bind_tls_local(s, longer, the().ctx); }, false, "path of " + std::to_string(longer.size()));
    expect([&] { return s.bind_local((d.p / "no" / "dir").string()); }, false, "missing directory");
    expect([&] { return parts::bind_tls_local(s, (d.p / "no" / "dir").string(), the().ctx); }, false, "missing directory");
    VH_CHECK(open_fds() <= fds, "bind-descriptors", "failed binds keep descriptors");
  } else {
    expect([&] { return s.bind_local(path); }, true, "path of " + std::to_string(path.size()));
    srv::client c(path);
    c.send("GET /who HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n");
    auto m = srv::next_response(c);
    VH_CHECK(m.body == path + "|", "bind-path", vh::esc(m.body) + " expected " + path);
    expect([&] { return s.bind_local(path); }, false, "path in use");
  }
  for (auto* bad : { "", "localhost", "256.1.1.1", "1.2.3", ":::", "127.0.0.1:80", "127.0.0.1 ", "::1%nosuchif", "\xff" })
    if (r.chance(1, 3)) {
      fds = open_fds();
      if (std::string(bad) == "::1%nosuchif") continue; // resolver dependent
      expect([&] { return parts::bind_tcp(s, bad, 0); }, false, std::string("address ") + bad);
      expect([&] { return parts::bind_tls(s, bad, 0, the().ctx); }, false, std::string("address ") + bad);
      VH_CHECK(open_fds() <= fds, "bind-descriptors", "failed binds keep descriptors");
    }
  expect([&] { return parts::bind_tcp(s, "203.0.113.7", 0); }, false, "address of another host");
  expect([&] { return parts::bind_tls(s, "127.0.0.1", the().pt, the().ctx); }, false, "port in use");
}

// handshakes that never become one
VH_SUITE("tls-hostile", 64, 800)
{
  the();
  static long base = [] {
    ::usleep(100000);
    return open_fds();
  }();
  bool local = r.flip();
  auto dial = [&] { return local ? srv::client(the().tls_path) : srv::client(the().pt); };
  auto what = r.below(9);
  auto c = dial();
  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  switch (what) {
  case 0: // silence
    VH_CHECK(c.drain(15000), "handshake-timeout", "a silent client keeps its connection");
    VH_CHECK(elapsed() > 1.2, "handshake-too-early", std::to_string(elapsed()));
    break;
  case 1: // not TLS at all
    c.send("GET /who HTTP/1.1\r\nHost: h\r\n\r\n");
    VH_CHECK(c.drain(15000), "handshake-garbage", "plain text keeps the connection");
    VH_CHECK(c.in().find("HTTP/1.1 200") == std::string::npos, "plain-text-served", "a plain request on the TLS port is served");
    break;
  case 2:
    c.send(r.bytes(1 + r.below(500)));
    c.drain(15000);
    VH_CHECK(c.eof(), "handshake-garbage", "garbage keeps the connection");
    break;
  case 3: { // half a hello, then nothing, an end or a reset
    std::string hello;
    {
      auto* ctx = SSL_CTX_new(TLS_client_method());
      auto* ssl = SSL_new(ctx);
      auto* wb = BIO_new(BIO_s_mem());
      SSL_set_bio(ssl, BIO_new(BIO_s_mem()), wb);
      SSL_set_connect_state(ssl);
      SSL_do_handshake(ssl);
      char* p = nullptr;
      auto n = BIO_get_mem_data(wb, &p);
      hello.assign(p, std::size_t(n));
      SSL_free(ssl);
      SSL_CTX_free(ctx);
    }
    if (r.flip()) hello.resize(1 + r.below(hello.size() - 1));
    else hello[r.below(hello.size())] ^= char(1 << r.below(8));
    c.send(hello);
    switch (r.below(3)) {
    case 0: c.half_close(); VH_CHECK(c.drain(15000), "handshake-cut", "not closed"); break;
    case 1: c.reset(); break;
    default: VH_CHECK(c.drain(15000), "handshake-timeout", "half a handshake keeps its connection");
    }
    break;
  }
  case 4: { // handshake, then the connection breaks without close_notify
    tls::client t(std::move(c));
    VH_CHECK(t.handshake(), "handshake", "refused");
    if (r.flip()) t.send("GET /who HTTP/1.1\r\nHo");
    if (r.flip()) t.raw().half_close();
    else t.raw().reset();
    t.drain(15000);
    break;
  }
  case 5: { // garbage record in the middle of a session
    tls::client t(std::move(c));
    VH_CHECK(t.handshake(), "handshake", "refused");
    t.send("GET /who HTTP/1.1\r\nHost: h\r\n\r\n");
    auto m = srv::next_response(t, false, 15000);
    VH_CHECK(m.status == 200, "handshake", "no answer");
    t.raw().send(r.bytes(1 + r.below(100)) + std::string(20, '\0'));
    t.raw().half_close();
    VH_CHECK(t.drain(15000), "tls-garbage", "not closed");
    break;
  }
  case 6: { // close_notify first: orderly end
    tls::client t(std::move(c));
    VH_CHECK(t.handshake(), "handshake", "refused");
    t.half_close();
    VH_CHECK(t.drain(15000), "tls-close", "not closed");
    break;
  }
  case 7: // gone at once
    if (r.flip()) c.reset();
    else c.close();
    break;
  default: { // asks for the end but never answers close_notify
    tls::client t(std::move(c));
    VH_CHECK(t.handshake(), "handshake", "refused");
    t.send("GET /who HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n");
    auto m = srv::next_response(t, false, 15000);
    VH_CHECK(m.status == 200 && m.close, "handshake", "no answer");
    t.reset();
  }
  }
  vh::count("tls-hostile");
  vh::seen(std::to_string(what) + std::to_string(r.u64()));
  tls::client t(dial());
  bool up = t.handshake(15000);
  VH_CHECK(up, "tls-refuses-after", "case " + std::to_string(what));
  if (up) {
    t.send("GET /who HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n");
    auto m = srv::next_response(t, false, 15000);
    VH_CHECK(m.status == 200, "tls-silent-after", "case " + std::to_string(what));
  }
  t.close();
  c.close();
  (void)base;
}

// descriptors come back whatever the TLS clients did
VH_SUITE("tls-churn", 8, 100)
{
  the();
  {
    conn c(tls4);
    c.send("GET /who HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n");
    c.drain(20000);
  }
  long before = 0;
  for (int i = 0; i < 3000; ++i) {
    auto n = open_fds();
    ::usleep(1000);
    if (i > 50 && open_fds() == n) {
      before = n;
      break;
    }
  }
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; ++t)
    ts.emplace_back([seed = r.u64(), t] {
      vh::rng q(seed);
      for (int i = 0; i < 12; ++i) {
        tls::client c(t & 1 ? srv::client(the().pt) : srv::client(the().tls_path));
        if (q.chance(1, 5)) continue;
        if (!c.handshake(20000)) {
          VH_CHECK(false, "tls-churn", "handshake failed");
          return;
        }
        for (auto n = q.below(3); n--;) {
          c.send("GET /who HTTP/1.1\r\nHost: h\r\n\r\n");
          auto m = srv::next_response(c, false, 20000);
          VH_CHECK(m.status == 200, "tls-churn", "no answer");
        }
        switch (q.below(3)) {
        case 0: c.close(); break;
        case 1: c.reset(); break;
        default: break;
        }
        vh::count("tls-churn");
      }
    });
  for (auto& t : ts) t.join();
  long after = 0;
  for (int i = 0; i < 20000; ++i) {
    after = open_fds();
    if (after <= before) break;
    ::usleep(2000);
  }
  VH_CHECK(after <= before, "tls-descriptors", std::to_string(after) + " open, " + std::to_string(before) + " before");
}

// the same websocket session everywhere
VH_SUITE("websocket", 40, 1000)
{
  the();
  auto seed = r.u64();
  std::array<std::string, kinds> out;
  for (int k = 0; k < kinds; ++k) {
    if (k == tcp6 && !the().p6) continue;
    vh::rng q(seed), cut(seed + 1);
    conn c(k, q.flip() ? &cut : nullptr);
    if (!c.up) return;
    c.send("GET /ws HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + ws::b64(q.bytes(16)) + "\r\nSec-WebSocket-Version: 13\r\n\r\n");
    auto m = srv::next_response(c, false, 20000);
    VH_CHECK(m.status == 101, "ws-upgrade", std::string(kind_name(k)) + " " + std::to_string(m.status));
    if (m.status != 101) return;
    auto& o = out[std::size_t(k)];
    o += std::to_string(m.status) + srv::show(m.h);
    ws::inbox in;
    for (auto n = 1 + q.below(5); n--;) {
      bool text = q.flip();
      auto s = text ? q.from("abcdef", q.len(400)) : q.bytes(q.chance(1, 8) ? 20000 + q.below(60000) : q.len(400));
      auto had = in.messages.size();
      c.send(ws::encode(q, { true, 0, text ? 1 : 2, true, s }));
      auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
      while (in.messages.size() == had && !c.eof() && std::chrono::steady_clock::now() < end) {
        in.absorb(c.in());
        if (in.messages.size() == had) c.pump(50);
      }
      VH_CHECK(in.messages.size() == had + 1 && in.messages.back().data == (text ? "<" + s + ">" : s), "ws-echo", std::string(kind_name(k)) + " " + in.bad);
      vh::count(std::string("ws:") + kind_name(k));
      o += in.messages.empty() ? "-" : std::to_string(vh::hash(in.messages.back().data));
    }
    c.send(ws::encode(q, { true, 0, 8, true, std::string("\x03\xe8", 2) }));
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    while (!c.eof() && !in.close && std::chrono::steady_clock::now() < end) {
      in.absorb(c.in());
      if (!in.close) c.pump(50);
    }
    VH_CHECK(in.close, "ws-close", kind_name(k));
  }
  for (int k = 1; k < kinds; ++k)
    if (k != tcp6 || the().p6) VH_CHECK(out[std::size_t(k)] == out[0], "ws-differs", std::string(kind_name(k)));
}

int main(int argc, char** argv)
{
  ::signal(SIGPIPE, SIG_IGN);
  vh::require("compared", 200);
  vh::require("in-process:handled", 50);
  vh::require("peers", 50);
  vh::require("bind-refused", 20);
  vh::require("tls-hostile", 20);
  vh::require("answered:tls", 50);
  vh::require("ws:tls", 10);
  return vh::main(argc, argv);
}
