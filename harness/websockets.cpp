// P28: the real server spoken to by an independent RFC 6455 client.
#include "ws.hpp"

#include <boost/asio/experimental/channel.hpp>

namespace web = fitoria::web;
namespace http = fitoria::http;
namespace net = boost::asio;
using fitoria::awaitable;

namespace {

struct spec {
  std::vector<ws::message> greet;    // sent by the server first
  std::vector<int> ping_before;      // ... with pings before these indices
  long end_after = -1;               // messages read before the server ends the session
  enum how { by_return, by_close, by_throw } end = by_return;
  int close_code = 1000;
  bool full_duplex = false; // greeting sent while reading
  bool hop = false;         // suspend between operations
  long idle_ms = 0;
  bool keep_alive_pings = false;
};
struct record {
  int routes = 0, runs = 0, ends = 0;
  std::vector<ws::message> got;
  bool closed = false; // a close_t was delivered
  bool error = false;  // a read failed
  bool wrote = true;   // all writes succeeded
};
std::mutex g_mx;
std::map<std::string, spec> g_specs;
std::map<std::string, record> g_log;
std::atomic<long> g_live { 0 };
std::atomic<long> g_exceptions { 0 };
std::atomic<long> g_id { 0 };

template <class F>
void note(const std::string& id, F f)
{
  std::lock_guard l(g_mx);
  f(g_log[id]);
}
struct guard {
  std::string id;
  explicit guard(std::string i)
      : id(std::move(i))
  {
    ++g_live;
  }
  guard(const guard&) = delete;
  ~guard()
  {
    note(id, [](record& r) { ++r.ends; });
    --g_live;
  }
};

awaitable<void> hop() { co_await net::post(co_await net::this_coro::executor, net::use_awaitable_t<fitoria::executor_type> {}); }

awaitable<bool> greet(web::websocket::context& ctx, const spec& sp)
{
  for (std::size_t i = 0; i < sp.greet.size(); ++i) {
    if (sp.hop) co_await hop();
    for (auto p : sp.ping_before)
      if (std::size_t(p) == i)
        if (!co_await ctx.async_ping()) co_return false;
    auto& m = sp.greet[i];
    if (m.op == 1) {
      if (!co_await ctx.async_write_text(m.data)) co_return false;
    } else {
      auto b = aio::to_bytes(m.data);
      if (!co_await ctx.async_write_binary(std::span<const std::byte>(b))) co_return false;
    }
  }
  co_return true;
}

awaitable<void> session(web::websocket::context& ctx, std::string id, spec sp)
{
  guard g(id);
  note(id, [](record& r) { ++r.runs; });
  std::optional<net::experimental::channel<fitoria::executor_type, void(boost::system::error_code)>> done;
  if (sp.full_duplex) {
    done.emplace(ctx.get_executor(), 1);
    net::co_spawn(
        ctx.get_executor(),
        [&]() -> awaitable<void> {
          bool ok = co_await greet(ctx, sp);
          if (!ok) note(id, [](record& r) { r.wrote = false; });
          done->try_send(boost::system::error_code());
        },
        net::detached);
  } else if (!co_await greet(ctx, sp)) {
    note(id, [](record& r) { r.wrote = false; });
    co_return;
  }
  auto wait = [&]() -> awaitable<void> {
    if (done) co_await done->async_receive(net::use_awaitable_t<fitoria::executor_type> {});
  };
  long n = 0;
  for (;; ++n) {
    if (sp.end_after == n) break;
    if (sp.hop) co_await hop();
    auto m = co_await ctx.async_read();
    if (!m) {
      note(id, [](record& r) { r.error = true; });
      co_await wait();
      co_return;
    }
    if (std::holds_alternative<web::websocket::close_t>(*m)) {
      note(id, [](record& r) { r.closed = true; });
      co_await wait();
      co_return;
    }
    if (auto* t = std::get_if<web::websocket::text_t>(&*m)) {
      note(id, [&](record& r) { r.got.push_back({ 1, t->value }); });
      if (!sp.full_duplex && !co_await ctx.async_write_text(t->value)) {
        note(id, [](record& r) { r.wrote = false; });
        co_return;
      }
    } else {
      auto& b = std::get<web::websocket::binary_t>(*m).value;
      note(id, [&](record& r) { r.got.push_back({ 2, aio::to_string(b) }); });
      if (!sp.full_duplex && !co_await ctx.async_write_binary(std::span<const std::byte>(b))) {
        note(id, [](record& r) { r.wrote = false; });
        co_return;
      }
    }
  }
  co_await wait();
  if (sp.end == spec::by_close) co_await ctx.async_close(web::websocket::close_code(sp.close_code));
  if (sp.end == spec::by_throw) throw std::runtime_error("session failed");
}

awaitable<web::response> upgrade(const web::request& req, web::websocket ws)
{
  std::string id(req.headers().get("x-id").value_or(""));
  spec sp;
  {
    std::lock_guard l(g_mx);
    ++g_log[id].routes;
    auto it = g_specs.find(id);
    if (it != g_specs.end()) sp = it->second;
  }
  if (sp.idle_ms) {
    ws.set_idle_timeout(std::chrono::milliseconds(sp.idle_ms));
    ws.set_keep_alive_pings(sp.keep_alive_pings);
  }
  switch (std::hash<std::string> {}(id) % 4) {
  case 0: ws.set_handshake_timeout(std::chrono::seconds(30)); break;
  case 1: ws.set_handshake_timeout(fitoria::nullopt); break;
  default: break;
  }
  auto res = ws.set_handler([id, sp](web::websocket::context& c) { return session(c, id, sp); });
  co_return res.builder().set_header("X-Mine", "value " + id).insert_header("Set-Cookie", "a=1").insert_header("Set-Cookie", "b=2").build();
}
// asks for a websocket but answers otherwise
awaitable<web::response> refuse(const web::request& req, web::websocket ws)
{
  std::string id(req.headers().get("x-id").value_or(""));
  ws.set_handler([id](web::websocket::context& c) { return session(c, id, spec {}); });
  co_return web::response::forbidden().set_header("X-Why", "no").set_body("refused");
}
awaitable<web::response> forget(web::websocket) { co_return web::response::ok().set_body("forgot"); }
awaitable<web::response> plain(web::request& req)
{
  auto d = co_await aio::drain(req.body(), 100000);
  co_return web::response::ok().set_body("plain " + d.data);
}
awaitable<web::response> fails(web::websocket) { throw std::runtime_error("route failed"); }

srv::running& server()
{
  static srv::running s(
      [](web::http_server::builder b) {
        b.set_request_timeout(std::chrono::seconds(60));
        b.set_exception_handler([](std::exception_ptr) { ++g_exceptions; });
        b.serve(web::route::any<"/ws">(upgrade));
        b.serve(web::route::any<"/refuse">(refuse));
        b.serve(web::route::any<"/forget">(forget));
        b.serve(web::route::any<"/plain">(plain));
        b.serve(web::route::any<"/fails">(fails).use(web::middleware::exception_handler()));
        return b.build();
      },
      2);
  return s;
}
srv::client dial(vh::rng& r)
{
  static std::uint16_t port = server().bind_tcp();
  return r.flip() ? srv::client(port) : srv::client(server().path);
}

std::string fresh() { return std::to_string(++g_id); }
std::string key(vh::rng& r) { return ws::b64(r.bytes(16)); }
std::string random_case(vh::rng& r, std::string s)
{
  if (r.chance(1, 3))
    for (auto& c : s)
      if (r.flip()) c = char(std::toupper((unsigned char)c));
  return s;
}

record log_of(const std::string& id)
{
  std::lock_guard l(g_mx);
  return g_log[id];
}
bool wait_end(const std::string& id, int ms = 10000)
{
  for (int i = 0; i < ms; i += 2) {
    auto x = log_of(id);
    if (x.runs && x.runs == x.ends) return true;
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
  }
  return false;
}
void send_chopped(vh::rng& r, srv::client& c, const std::string& s)
{
  if (r.chance(1, 3) && s.size() < 3000) {
    for (auto& p : aio::chop(r, s, false)) {
      if (!c.send(p)) return;
      if (r.chance(1, 30)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(500)));
    }
  } else c.send(s);
}

// a valid handshake; leaves the connection ready for frames
bool handshake(vh::rng& r, srv::client& c, const std::string& id)
{
  auto k = key(r);
  send_chopped(r, c, "GET /ws HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + k + "\r\nSec-WebSocket-Version: 13\r\nX-Id: " + id + "\r\n\r\n");
  auto m = srv::next_response(c);
  bool ok = m.st == srv::message::complete && m.status == 101;
  VH_CHECK(ok, "not-upgraded", "status " + std::to_string(m.status) + " " + m.why + " " + vh::esc(m.body));
  return ok;
}

// valid UTF-8
std::string utf8(vh::rng& r, std::size_t n)
{
  std::string s;
  while (s.size() < n) {
    std::uint32_t c = 0;
    switch (r.below(4)) {
    case 0: c = std::uint32_t(r.below(0x80)); break;
    case 1: c = 0x80 + std::uint32_t(r.below(0x780)); break;
    case 2:
      c = 0x800 + std::uint32_t(r.below(0xf800));
      if (c >= 0xd800 && c < 0xe000) c = 0x20ac;
      break;
    default: c = 0x10000 + std::uint32_t(r.below(0x100000));
    }
    if (c < 0x80) s += char(c);
    else if (c < 0x800) s += char(0xc0 | c >> 6), s += char(0x80 | (c & 63));
    else if (c < 0x10000) s += char(0xe0 | c >> 12), s += char(0x80 | ((c >> 6) & 63)), s += char(0x80 | (c & 63));
    else s += char(0xf0 | c >> 18), s += char(0x80 | ((c >> 12) & 63)), s += char(0x80 | ((c >> 6) & 63)), s += char(0x80 | (c & 63));
  }
  return s;
}
ws::message any_message(vh::rng& r, bool big)
{
  static const std::size_t edges[] = { 0, 1, 125, 126, 127, 4095, 4096, 4097, 65535, 65536, 65537, 1535, 1536, 1537 };
  std::size_t n = big ? 100000 + r.below(900000) : r.chance(1, 3) ? edges[r.below(14)] : r.len(600);
  if (r.flip()) {
    auto s = n < 3000 ? utf8(r, n) : std::string(n, char('a' + r.below(26)));
    if (n >= 3000)
      for (int i = 0; i < 50; ++i) s[r.below(n)] = char('A' + r.below(26));
    return { 1, s };
  }
  auto s = n < 100000 ? r.bytes(n) : std::string(n, char(r.u64()));
  return { 2, s };
}
std::string show(const ws::message& m) { return (m.op == 1 ? "text " : "binary ") + std::to_string(m.data.size()) + " (" + vh::esc(m.data.substr(0, 16)) + ")"; }
std::string show(const std::vector<ws::message>& v)
{
  std::string s = "[";
  for (auto& m : v) s += show(m) + ", ";
  return s + "]";
}

// the frames of one message, pings in between
std::string frames(vh::rng& r, const ws::message& m, std::vector<std::string>& pings)
{
  std::string out;
  std::vector<std::string> parts;
  if (r.flip()) parts = { m.data };
  else parts = aio::chop(r, m.data, true);
  if (parts.size() > 300) parts = { m.data };
  if (parts.empty()) parts.emplace_back();
  for (std::size_t i = 0; i < parts.size(); ++i) {
    if (r.chance(1, 12)) {
      auto p = r.bytes(r.one_of<std::size_t>({ 0, 1, 10, 124, 125 }));
      pings.push_back(p);
      out += ws::encode(r, { true, 0, 9, true, p });
    }
    if (r.chance(1, 40)) out += ws::encode(r, { true, 0, 10, true, r.bytes(r.below(10)) }); // unsolicited pong
    out += ws::encode(r, { i + 1 == parts.size(), 0, i == 0 ? m.op : 0, true, parts[i] });
  }
  vh::count("fragments", parts.size());
  return out;
}

template <class F>
bool until(srv::client& c, ws::inbox& in, F f, int ms = 15000)
{
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  for (;;) {
    in.absorb(c.in());
    if (f()) return true;
    if (!in.bad.empty() || c.eof() || std::chrono::steady_clock::now() > end) {
      return false;
    }
    c.pump(50);
  }
}

} // namespace

VH_SUITE("handshake", 400, 12000)
{
  auto c = dial(r);
  for (int round = 0; round < 4; ++round) {
    auto id = fresh();
    auto k = key(r);
    std::string method = "GET", version = "1.1", path = "/ws";
    std::vector<std::string> f;
    bool valid = true, looks = true; // looks: has the tokens that mark an upgrade
    std::string what;
    auto defect = r.flip() ? 0 : 1 + r.below(12);
    std::string host = "Host: h", up = random_case(r, "Upgrade") + ": " + r.one_of<std::string>({ "websocket", "WebSocket", "websocket, h2c", "h2c, websocket", "WEBSOCKET" }),
                con = random_case(r, "Connection") + ": " + r.one_of<std::string>({ "Upgrade", "upgrade", "keep-alive, Upgrade", "Upgrade, keep-alive", "UPGRADE" }), sk = "Sec-WebSocket-Key: " + k, sv = "Sec-WebSocket-Version: 13";
    bool expect_426 = false;
    switch (defect) {
    case 0: break;
    case 1: method = r.one_of<std::string>({ "POST", "HEAD", "PUT", "DELETE", "OPTIONS" }); break;
    case 2: version = "1.0"; break;
    case 3: host = ""; break;
    case 4: up = r.one_of<std::string>({ "", "Upgrade: h2c", "Upgrade: websockets", "Upgrade: web socket" }); break;
    case 5: con = r.one_of<std::string>({ "", "Connection: keep-alive", "Connection: upgraded" }); break;
    case 6: sk = ""; break;
    case 7: sk = "Sec-WebSocket-Key: " + ws::b64(r.bytes(19 + r.below(30))); break;
    case 8: sv = ""; break;
    case 9:
      sv = "Sec-WebSocket-Version: " + r.one_of<std::string>({ "8", "12", "14", "0", "130", "x", "1" });
      expect_426 = true;
      break;
    case 10: path = r.one_of<std::string>({ "/plain", "/nope", "/refuse", "/forget", "/fails" }); break;
    case 11: path = "/refuse"; break;
    default: path = "/forget";
    }
    if (defect) valid = false;
    if (defect == 1 || defect == 2 || defect == 4 || defect == 5) looks = false;
    for (auto& x : { host, up, con, sk, sv })
      if (!x.empty()) f.push_back(x);
    f.push_back("X-Id: " + id);
    if (r.chance(1, 4)) f.push_back("Sec-WebSocket-Extensions: permessage-deflate; client_max_window_bits");
    if (r.chance(1, 4)) f.push_back("Origin: http://h");
    r.shuffle(f);
    std::string s = method + " " + path + " HTTP/" + version + "\r\n";
    for (auto& x : f) s += x + "\r\n";
    s += "\r\n";
    what = vh::esc(s);
    send_chopped(r, c, s);
    auto m = srv::next_response(c, method == "HEAD");
    VH_CHECK(m.st == srv::message::complete, "no-response", what + " " + m.why);
    auto l = log_of(id);
    vh::count(valid ? "valid" : "defect:" + std::to_string(defect));
    vh::seen(std::to_string(defect) + path + method + up + con);
    vh::sample(what + " -> " + std::to_string(m.status));
    if (valid) {
      VH_CHECK(m.status == 101, "valid-refused", what + " status " + std::to_string(m.status) + " " + vh::esc(m.body));
      if (m.status != 101) break;
      auto acc = m.get("sec-websocket-accept");
      VH_CHECK(acc.size() == 1 && acc[0] == ws::accept_key(k), "accept-key", what + " " + srv::show(m.h));
      auto u = m.get("upgrade"), cn = m.get("connection");
      VH_CHECK(u.size() == 1 && srv::lower(u[0]) == "websocket" && cn.size() == 1 && srv::lower(cn[0]) == "upgrade", "upgrade-headers", what + " " + srv::show(m.h));
      VH_CHECK(m.get("x-mine") == std::vector<std::string> { "value " + id } && (m.get("set-cookie") == std::vector<std::string> { "a=1", "b=2" }), "handler-headers", what + " " + srv::show(m.h));
      VH_CHECK(m.get("sec-websocket-extensions").empty() && m.get("sec-websocket-protocol").empty(), "unasked-extension", what + " " + srv::show(m.h));
      // usable at once
      ws::inbox in;
      c.send(ws::encode(r, { true, 0, 1, true, "hello" }));
      until(c, in, [&] { return !in.messages.empty(); });
      VH_CHECK(in.messages.size() == 1 && in.messages[0] == (ws::message { 1, "hello" }), "first-message", what + " " + show(in.messages) + in.bad);
      l = log_of(id);
      VH_CHECK(l.routes == 1 && l.runs == 1, "handler-count", what + " ran " + std::to_string(l.runs));
      c = dial(r);
      VH_CHECK(wait_end(id), "session-leak", what + " did not end after the client left");
      continue;
    }
    VH_CHECK(m.status != 101, "invalid-accepted", what);
    VH_CHECK(l.runs == 0, "handler-ran", what);
    if (path == "/plain") VH_CHECK(m.status == 200 && m.body == "plain ", "other-route", what + " status " + std::to_string(m.status));
    else if (path == "/nope") VH_CHECK(m.status == 404, "other-route", what + " status " + std::to_string(m.status));
    else if (path == "/refuse") VH_CHECK(m.status == 403 && m.body == "refused" && m.get("x-why").size() == 1, "refusal", what + " status " + std::to_string(m.status));
    else if (path == "/forget") VH_CHECK(m.status == 200 && m.body == "forgot", "refusal", what + " status " + std::to_string(m.status));
    else if (path == "/fails") VH_CHECK(m.status == 500, "refusal", what + " status " + std::to_string(m.status));
    else if (expect_426) VH_CHECK(m.status == 426 && m.get("sec-websocket-version") == std::vector<std::string> { "13" }, "version", what + " status " + std::to_string(m.status));
    else VH_CHECK(m.status / 100 == 4, "defect-status", what + " status " + std::to_string(m.status));
    (void)looks;
    // the connection goes on or ends as the response says
    if (m.close) {
      VH_CHECK(c.drain(), "not-closed", what);
      c = dial(r);
    } else {
      c.send("POST /plain HTTP/1.1\r\nHost: h\r\nContent-Length: 2\r\n\r\nok");
      auto n = srv::next_response(c);
      VH_CHECK(n.st == srv::message::complete && n.status == 200 && n.body == "plain ok", "next-request", what + " then " + std::to_string(n.status) + " " + n.why);
      if (n.st != srv::message::complete) c = dial(r);
    }
  }
  VH_CHECK(server().escaped == 0, "escaped-exception", "");
}

VH_SUITE("sessions", 300, 8000)
{
  auto id = fresh();
  spec sp;
  bool big = r.chance(1, 12);
  for (auto n = r.below(6); n--;) sp.greet.push_back(any_message(r, big && r.chance(1, 3)));
  for (auto n = r.below(3); n--;) sp.ping_before.push_back(int(r.below(6)));
  sp.full_duplex = r.chance(1, 4);
  sp.hop = r.chance(1, 4);
  std::vector<ws::message> mine;
  for (auto n = r.below(8); n--;) mine.push_back(any_message(r, big && r.chance(1, 3)));
  auto ending = r.below(6); // 0 client close, 1 reset, 2 half close, 3 server returns, 4 server closes, 5 server throws
  if (ending >= 3) {
    sp.end_after = long(mine.size());
    sp.end = ending == 3 ? spec::by_return : ending == 4 ? spec::by_close : spec::by_throw;
    sp.close_code = r.one_of<int>({ 1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011 });
  }
  {
    std::lock_guard l(g_mx);
    g_specs[id] = sp;
  }
  auto before = g_exceptions.load();
  auto c = dial(r);
  if (!handshake(r, c, id)) return;
  std::string what = "greeting " + show(sp.greet) + " messages " + show(mine) + (sp.full_duplex ? " duplex" : "") + " ending " + std::to_string(ending);
  ws::inbox in;
  std::vector<std::string> pings;
  std::string all;
  bool stepwise = r.flip();
  auto expected = sp.greet;
  if (!sp.full_duplex)
    for (auto& m : mine) expected.push_back(m);
  std::size_t sent = 0;
  for (auto& m : mine) {
    auto s = frames(r, m, pings);
    ++sent;
    if (stepwise) {
      send_chopped(r, c, s);
      if (!sp.full_duplex) until(c, in, [&] { return in.messages.size() >= sp.greet.size() + sent; });
    } else all += s;
  }
  if (!stepwise) send_chopped(r, c, all);
  bool arrived = until(c, in, [&] { return in.messages.size() >= expected.size() && (ending >= 3 || in.pongs.size() >= pings.size()); });
  VH_CHECK(arrived, "not-delivered", what + " got " + show(in.messages) + " pongs " + std::to_string(in.pongs.size()) + "/" + std::to_string(pings.size()) + " " + in.bad + (c.eof() ? " eof" : ""));
  VH_CHECK(in.bad.empty(), "bad-frame", what + " " + in.bad);
  VH_CHECK(in.messages == expected, "wrong-messages", what + " got " + show(in.messages));
  // pings may be answered by the latest pong only if the close overtakes them
  if (ending < 3) VH_CHECK(in.pongs == pings, "wrong-pongs", what + " pongs " + std::to_string(in.pongs.size()) + "/" + std::to_string(pings.size()));
  else VH_CHECK(std::search(pings.begin(), pings.end(), in.pongs.begin(), in.pongs.end()) != pings.end() || in.pongs.empty(), "wrong-pongs", what);
  vh::count("messages:in", mine.size());
  vh::count("messages:out", expected.size());
  vh::count("pings", pings.size());
  vh::count("ending:" + std::to_string(ending));
  vh::seen(what);
  vh::sample(what);
  bool clean = false;
  switch (ending) {
  case 0: {
    int code = r.one_of<int>({ 1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 3000, 4999, 0 });
    std::string p;
    if (code) {
      p += char(code >> 8);
      p += char(code);
      p += utf8(r, r.below(100));
      p.resize(std::min<std::size_t>(p.size(), 100));
      while (p.size() > 2 && (p.back() & 0x80)) p.pop_back();
    }
    c.send(ws::encode(r, { true, 0, 8, true, p }));
    clean = until(c, in, [&] { return in.close.has_value(); });
    VH_CHECK(clean, "close-unanswered", what + " code " + std::to_string(code) + " " + in.bad);
    if (clean && code) VH_CHECK(in.close->size() >= 2 && in.close->substr(0, 2) == p.substr(0, 2), "close-code", what + " sent " + std::to_string(code) + " got " + vh::esc(*in.close));
    VH_CHECK(c.drain(), "not-closed", what);
    break;
  }
  case 1: c.reset(); break;
  case 2:
    c.half_close();
    VH_CHECK(c.drain(), "not-closed", what);
    break;
  case 3:
    VH_CHECK(c.drain(), "not-closed", what + " after the handler returned");
    break;
  case 4: {
    clean = until(c, in, [&] { return in.close.has_value(); });
    std::string code { char(sp.close_code >> 8), char(sp.close_code) };
    VH_CHECK(clean && *in.close == code, "server-close", what + " code " + std::to_string(sp.close_code) + " got " + (in.close ? vh::esc(*in.close) : "none"));
    if (r.flip()) {
      c.send(ws::encode(r, { true, 0, 8, true, code }));
      VH_CHECK(c.drain(), "not-closed", what);
    } else c.close();
    break;
  }
  default:
    VH_CHECK(c.drain(), "not-closed", what + " after the handler threw");
    for (int i = 0; i < 5000 && g_exceptions == before; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    VH_CHECK(g_exceptions > before, "exception-lost", what);
  }
  c.close(); // the server waits for this, within its handshake timeout
  VH_CHECK(wait_end(id), "session-leak", what);
  auto l = log_of(id);
  VH_CHECK(l.runs == 1 && l.ends == 1 && l.routes == 1, "handler-count", what + " ran " + std::to_string(l.runs));
  // without echoes nothing tells that the last messages were read before a reset
  bool dropped = ending == 1 && sp.full_duplex;
  VH_CHECK(dropped ? l.got.size() <= mine.size() && std::equal(l.got.begin(), l.got.end(), mine.begin()) : l.got == mine, "wrong-received", what + " handler got " + show(l.got));
  if (ending == 0) VH_CHECK(l.closed && !l.error, "close-not-seen", what + (l.error ? " (error)" : ""));
  if (ending == 1 || ending == 2) VH_CHECK(l.error && !l.closed, "cut-not-seen", what + (l.closed ? " (closed)" : ""));
  VH_CHECK(server().escaped == 0, "escaped-exception", what);
  std::lock_guard lk(g_mx);
  g_specs.erase(id);
  g_log.erase(id);
}

// anything that is not RFC 6455 ends the session and is never delivered
VH_SUITE("violations", 300, 8000)
{
  auto id = fresh();
  auto c = dial(r);
  if (!handshake(r, c, id)) return;
  ws::inbox in;
  std::vector<ws::message> good;
  std::vector<std::string> pings;
  for (auto n = r.below(3); n--;) good.push_back(any_message(r, false));
  std::string s;
  for (auto& m : good) s += frames(r, m, pings);
  auto kind = r.below(15);
  auto data = utf8(r, 1 + r.below(60));
  std::string bad;
  switch (kind) {
  case 0: bad = ws::encode(r, { true, 0, 1, false, data }); break;                                             // not masked
  case 1: bad = ws::encode(r, { true, int(1 + r.below(7)), 1, true, data }); break;                            // reserved bits
  case 2: bad = ws::encode(r, { true, 0, int(3 + r.below(5)), true, data }); break;                            // reserved data opcode
  case 3: bad = ws::encode(r, { true, 0, int(11 + r.below(5)), true, data }); break;                           // reserved control opcode
  case 4: bad = ws::encode(r, { false, 0, int(8 + r.below(3)), true, std::string() }); break;                  // fragmented control
  case 5: bad = ws::encode(r, { true, 0, int(8 + r.below(3)), true, std::string(126 + r.below(100), 'a') }); break; // long control
  case 6: bad = ws::encode(r, { r.flip(), 0, 0, true, data }); break;                                          // continuation first
  case 7: bad = ws::encode(r, { false, 0, 1, true, data }) + ws::encode(r, { true, 0, int(1 + r.below(2)), true, data }); break; // new message inside
  case 8: bad = ws::encode(r, { true, 0, 1, true, data + r.one_of<std::string>({ "\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc3", "\xe2\x82" }) }); break; // not UTF-8
  case 9: bad = ws::encode(r, { true, 0, 8, true, std::string(1, 'x') }); break;                               // one-byte close
  case 10: {
    int code = r.one_of<int>({ 0, 999, 1004, 1005, 1006, 1015, 1016, 2999 });
    bad = ws::encode(r, { true, 0, 8, true, std::string { char(code >> 8), char(code) } });
    break;
  }
  case 11: bad = ws::encode(r, { true, 0, 8, true, std::string("\x03\xe8\xff\xfe", 4) }); break; // reason not UTF-8
  case 12: bad = ws::encode(r, { true, 0, 1, true, data }, true); break;                       // length not minimal
  case 13: { // invalid bytes split over fragments
    auto t = data + "\xe2\x82";
    bad = ws::encode(r, { false, 0, 1, true, t }) + ws::encode(r, { true, 0, 0, true, "x" });
    break;
  }
  default: { // longer than any accepted message
    bad = ws::encode(r, { true, 0, 2, true, "" });
    bad = bad.substr(0, 1) + char(0x80 | 127) + std::string("\x00\x00\x00\x00\x40\x00\x00\x00", 8) + r.bytes(4) + r.bytes(500);
  }
  }
  auto what = "violation " + std::to_string(kind) + " " + vh::esc(bad.substr(0, 60)) + " after " + show(good);
  send_chopped(r, c, s + bad + ws::encode(r, { true, 0, 1, true, "LATE" }));
  until(c, in, [&] { return false; }, 15000);
  VH_CHECK(c.eof(), "not-closed", what);
  c.close();
  VH_CHECK(in.bad.empty(), "bad-frame", what + " " + in.bad);
  VH_CHECK(wait_end(id), "session-leak", what);
  auto l = log_of(id);
  VH_CHECK(l.runs == 1, "handler-count", what);
  VH_CHECK(l.got == good, "violation-delivered", what + " handler got " + show(l.got));
  VH_CHECK(l.error && !l.closed, "violation-not-seen", what + (l.closed ? " (closed)" : ""));
  VH_CHECK(server().escaped == 0, "escaped-exception", what);
  vh::count("violation:" + std::to_string(kind));
  vh::seen(what);
}

// disconnects inside frames, garbage, many sessions at once
VH_SUITE("cuts", 150, 4000)
{
  auto id = fresh();
  auto c = dial(r);
  if (!handshake(r, c, id)) return;
  auto m = any_message(r, r.chance(1, 10));
  std::vector<std::string> pings;
  auto s = frames(r, m, pings);
  auto at = r.below(s.size());
  bool garbage = r.chance(1, 3);
  if (garbage) {
    s = r.bytes(1 + r.below(3000));
    at = s.size();
  }
  send_chopped(r, c, s.substr(0, at));
  if (r.flip()) c.reset();
  else {
    c.half_close();
    VH_CHECK(c.drain(), "not-closed", "cut at " + std::to_string(at));
    c.close();
  }
  VH_CHECK(wait_end(id), "session-leak", "cut at " + std::to_string(at));
  auto l = log_of(id);
  if (!garbage) VH_CHECK(l.got.empty(), "partial-delivered", "cut at " + std::to_string(at) + " of " + std::to_string(s.size()) + " of " + show(m) + " handler got " + show(l.got));
  vh::count("cuts");
  vh::seen(std::to_string(at) + "/" + std::to_string(s.size()));
}
VH_SUITE("idle", 8, 60)
{
  auto id = fresh();
  spec sp;
  sp.idle_ms = 300;
  sp.keep_alive_pings = idx % 2;
  {
    std::lock_guard l(g_mx);
    g_specs[id] = sp;
  }
  auto c = dial(r);
  if (!handshake(r, c, id)) return;
  ws::inbox in;
  auto t0 = std::chrono::steady_clock::now();
  std::size_t answered = 0;
  bool answer = sp.keep_alive_pings && idx % 4 == 1;
  until(c, in, [&] {
    while (answer && answered < in.pings.size() && std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(1500)) c.send(ws::encode(r, { true, 0, 10, true, in.pings[answered++] }));
    return false;
  });
  auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
  VH_CHECK(c.eof(), "idle-not-closed", "after " + std::to_string(ms) + " ms");
  VH_CHECK(ms >= 150, "idle-too-early", "after " + std::to_string(ms) + " ms");
  if (answer) VH_CHECK(ms >= 1200, "kept-alive-closed", "after " + std::to_string(ms) + " ms");
  c.close();
  if (sp.keep_alive_pings) VH_CHECK(!in.pings.empty(), "no-keep-alive-ping", "after " + std::to_string(ms) + " ms");
  else VH_CHECK(in.pings.empty(), "unasked-ping", "");
  VH_CHECK(wait_end(id), "session-leak", "idle");
  vh::count("idle");
}
VH_SUITE("crowd", 6, 100)
{
  std::vector<std::string> ids;
  std::vector<srv::client> cs;
  std::vector<ws::inbox> in(20);
  std::vector<std::vector<ws::message>> sent(20);
  for (int i = 0; i < 20; ++i) {
    ids.push_back(fresh());
    cs.push_back(dial(r));
    if (!handshake(r, cs.back(), ids.back())) return;
  }
  for (int step = 0; step < 150; ++step) {
    auto i = r.below(20);
    std::vector<std::string> pings;
    auto m = any_message(r, false);
    m.data = std::to_string(i) + ":" + std::to_string(step) + (m.op == 1 && m.data.size() > 2000 ? std::string() : m.data);
    sent[i].push_back(m);
    send_chopped(r, cs[i], frames(r, m, pings));
  }
  for (std::size_t i = 0; i < 20; ++i) {
    until(cs[i], in[i], [&] { return in[i].messages.size() >= sent[i].size(); });
    VH_CHECK(in[i].messages == sent[i], "crossed-messages", "session " + std::to_string(i) + " " + in[i].bad + " got " + show(in[i].messages) + " sent " + show(sent[i]));
  }
  cs.clear();
  for (auto& id : ids) VH_CHECK(wait_end(id), "session-leak", "crowd");
  vh::count("crowd-sessions", 20);
}
VH_SUITE("end", 8, 8)
{
  for (int i = 0; i < 5000 && g_live; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(2));
  VH_CHECK(g_live == 0, "session-leak", std::to_string(g_live) + " handlers still run after their connections ended");
}

int main(int argc, char** argv)
{
  vh::require("valid", 100);
  for (int i = 1; i <= 12; ++i) vh::require("defect:" + std::to_string(i), 2);
  for (int i = 0; i < 6; ++i) vh::require("ending:" + std::to_string(i), 10);
  for (int i = 0; i < 15; ++i) vh::require("violation:" + std::to_string(i), 3);
  vh::require("messages:in", 300);
  vh::require("pings", 50);
  auto rc = vh::main(argc, argv);
  server().stop();
  return rc;
}
