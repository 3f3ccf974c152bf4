// P23: hostile, cut-off, oversized and stalled traffic against the running server.
#include "srv.hpp"

namespace web = fitoria::web;
namespace http = fitoria::http;
namespace net = boost::asio;
using fitoria::awaitable;
using clk = std::chrono::steady_clock;

namespace {

constexpr std::uint32_t header_limit = 1500;
constexpr std::uint64_t body_limit = 5000;
constexpr int timeout_ms = 400;

struct event {
  std::string id;
  std::string body;
  bool ended = false, error = false;
};
std::mutex g_mx;
std::vector<event> g_log;
std::atomic<long> g_live { 0 };
struct guard {
  guard() { ++g_live; }
  guard(const guard&) = delete;
  ~guard() { --g_live; }
};

awaitable<web::response> serve(web::request& req)
{
  guard g;
  event e;
  e.id = std::string(req.headers().get("x-id").value_or(""));
  std::size_t k;
  {
    std::lock_guard l(g_mx);
    k = g_log.size();
    g_log.push_back(e);
  }
  auto d = co_await aio::drain(req.body(), 100000);
  e.body = d.data;
  e.ended = d.ended;
  e.error = bool(d.error);
  {
    std::lock_guard l(g_mx);
    if (k < g_log.size()) g_log[k] = e;
  }
  co_return web::response::ok().set_header("x-id", e.id).set_body(d.data);
}
// a response much larger than socket buffers
awaitable<web::response> serve_big(web::request&)
{
  guard g;
  co_return web::response::ok().set_body(std::string(16 << 20, 'b'));
}
awaitable<web::response> serve_big_stream(web::request&)
{
  guard g;
  auto sc = std::make_shared<aio::script>();
  for (int i = 0; i < 256; ++i) sc->chunks.push_back(std::string(65536, 's'));
  co_return web::response::ok().set_stream_body(aio::source(sc));
}
// ignores the body
awaitable<web::response> serve_ignore(web::request& req)
{
  guard g;
  std::lock_guard l(g_mx);
  g_log.push_back({ std::string(req.headers().get("x-id").value_or("")), "", false, false });
  co_return web::response::ok().set_body("ignored");
}

template <class B>
auto configure(B b)
{
  b.set_request_timeout(std::chrono::milliseconds(timeout_ms));
  b.set_request_header_limit(header_limit);
  b.set_request_body_limit(body_limit);
  b.set_exception_handler([](std::exception_ptr) {});
  b.serve(web::route::any<"/h">(serve));
  b.serve(web::route::any<"/big">(serve_big));
  b.serve(web::route::any<"/bigs">(serve_big_stream));
  b.serve(web::route::any<"/ignore">(serve_ignore));
  b.serve(web::route::any<"/p/{a}/#rest">(serve));
  return b.build();
}
srv::running& server()
{
  static srv::running s([](web::http_server::builder b) { return configure(std::move(b)); }, 2);
  return s;
}

void clear_log()
{
  std::lock_guard l(g_mx);
  g_log.clear();
}

// another client is served as usual
void judge_alive(const std::string& what)
{
  auto& s = server();
  srv::client c(s.path);
  c.send("POST /h HTTP/1.1\r\nHost: h\r\nX-Id: control\r\nContent-Length: 4\r\n\r\nping");
  auto m = srv::next_response(c);
  VH_CHECK(m.st == srv::message::complete && m.status == 200 && m.body == "ping", "not-alive", what + " status " + std::to_string(m.status) + " " + m.why);
  VH_CHECK(s.escaped == 0, "escaped-exception", what);
}

std::string valid_request(vh::rng& r, const std::string& id)
{
  std::string body = r.bytes(r.len(200));
  std::string s = r.one_of<std::string>({ "GET", "POST", "PUT", "HEAD" }) + " " + r.one_of<std::string>({ "/h", "/h?a=b", "/p/x/y/z", "/ignore", "/nope", "/p/%41/%7e" }) + " HTTP/1." + (r.chance(1, 5) ? "0" : "1") + "\r\nHost: h\r\nX-Id: " + id + "\r\n";
  if (r.chance(1, 4)) s += "Connection: " + r.one_of<std::string>({ "close", "keep-alive", "upgrade", "Upgrade, keep-alive" }) + "\r\n";
  if (r.chance(1, 6)) s += "Upgrade: " + r.one_of<std::string>({ "websocket", "h2c", "" }) + "\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n";
  if (r.chance(1, 8)) s += "Expect: 100-continue\r\n";
  switch (r.below(3)) {
  case 0: return s + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
  case 1: {
    char b[20];
    std::snprintf(b, sizeof b, "%zx", body.size());
    s += "Transfer-Encoding: chunked\r\n\r\n";
    if (!body.empty()) s += std::string(b) + "\r\n" + body + "\r\n";
    return s + "0\r\n\r\n";
  }
  default: return s + "\r\n";
  }
}

std::string mutate(vh::rng& r, std::string s)
{
  for (auto n = 1 + r.below(4); n--;) {
    if (s.empty()) break;
    auto i = r.below(s.size());
    switch (r.below(9)) {
    case 0: s[i] = char(r.u64()); break;
    case 1: s.erase(i, 1 + r.below(5)); break;
    case 2: s.insert(i, r.bytes(1 + r.below(4))); break;
    case 3: s.insert(i, r.one_of<std::string>({ "\r\n", "\n", "\r", "\r\n\r\n", " ", ":", std::string(1, '\0'), "\xff", "%" })); break;
    case 4: s.resize(i); break;
    case 5: s.insert(i, s.substr(r.below(s.size()), r.below(30))); break;
    case 6: s.insert(i, std::string(r.below(3000), r.flip() ? 'a' : ' ')); break;
    case 7: {
      auto p = s.find(r.one_of<std::string>({ "Content-Length: ", "chunked", "HTTP/1.", "\r\n\r\n", "Host" }));
      if (p != s.npos) s.insert(std::min(s.size(), p + r.below(16)), r.one_of<std::string>({ "9", "-", "18446744073709551616", "0x", "99999999999", ",", "chunked, ", "\r\n " }));
      break;
    }
    default: s[i] = r.one_of<char>({ '\0', '\r', '\n', ' ', ':', '/', '%', '?', '#', '\x7f', '\x80' });
    }
  }
  return s;
}

// every byte the server sent is a sequence of well-formed responses, the last possibly cut
void judge_output(const std::string& in, const std::string& what)
{
  std::string_view s = in;
  int n = 0;
  while (!s.empty() && n < 200) {
    auto m = srv::parse_response(s, false, true);
    // answers to HEAD have no body: give up on exactness there
    VH_CHECK(m.st != srv::message::malformed || what.find("HEAD") != std::string::npos, "malformed-response", what + " " + m.why + " " + vh::esc(s, 150));
    if (m.st != srv::message::complete) break;
    vh::count("status:" + std::to_string(m.status));
    s.remove_prefix(m.used);
    ++n;
  }
}

long open_fds()
{
  long n = 0;
  for ([[maybe_unused]] auto& e : std::filesystem::directory_iterator("/proc/self/fd")) ++n;
  return n;
}
void judge_released(long before, const std::string& what)
{
  long after = 0;
  for (int i = 0; i < 5000; ++i) {
    after = open_fds();
    if (after <= before && g_live == 0) break;
    ::usleep(2000);
  }
  VH_CHECK(after <= before, "descriptor-leak", what + " " + std::to_string(before) + " -> " + std::to_string(after));
  VH_CHECK(g_live == 0, "handler-leak", what);
}

} // namespace

VH_SUITE("mutated", 500, 20000)
{
  auto& s = server();
  clear_log();
  std::string raw;
  for (auto n = 1 + r.below(3); n--;) raw += valid_request(r, "m");
  raw = r.chance(1, 12) ? r.bytes(r.len(4000)) : mutate(r, raw);
  srv::client c(s.path);
  auto end = r.below(4);
  std::size_t i = 0;
  while (i < raw.size()) {
    auto n = r.flip() ? raw.size() - i : 1 + r.below(raw.size() - i);
    if (!c.send(std::string_view(raw).substr(i, n))) break;
    i += n;
    if (r.chance(1, 3)) ::usleep(useconds_t(r.below(300)));
  }
  std::string what = vh::esc(raw, 600);
  auto t0 = clk::now();
  if (end == 0) {
    c.pump(int(r.below(3)));
    r.flip() ? c.reset() : c.close();
  } else if (end == 1) {
    c.half_close();
    VH_CHECK(c.drain(timeout_ms + 10000), "not-closed", "after half close: " + what);
  } else if (end == 2 && r.chance(1, 6)) { // just wait: at most the timeout (per request that was answered)
    VH_CHECK(c.drain(4 * timeout_ms + 10000), "not-closed", "after waiting: " + what);
    vh::count("waited");
  } else {
    c.half_close();
    VH_CHECK(c.drain(timeout_ms + 10000), "not-closed", "after half close: " + what);
  }
  (void)t0;
  if (end != 0) judge_output(c.in(), what);
  judge_alive(what);
  vh::seen(raw);
  vh::sample(what);
  vh::count("mutated");
}

// headers that are definitely malformed or incomplete never reach a handler
VH_SUITE("malformed", 300, 8000)
{
  auto& s = server();
  clear_log();
  std::string first = "POST /h HTTP/1.1\r\n", host = "Host: h\r\n", id = "X-Id: bad\r\n", tail = "Content-Length: 3\r\n\r\nabc";
  std::string raw, kind;
  auto ctl = std::string(1, r.one_of<char>({ '\0', '\x01', '\x07', '\x0b', '\x1f', '\x7f' }));
  switch (idx % 22) {
  case 0: kind = "no space"; raw = "POST/h HTTP/1.1\r\n" + host + id + tail; break;
  case 1: kind = "no version"; raw = "POST /h\r\n" + host + id + tail; break;
  case 2: kind = "bad version"; raw = "POST /h " + r.one_of<std::string>({ "HTTP/2.0", "HTTP/9.9", "HTTP/1", "HTTP/1.", "http/1.1", "HTTP/1.1x", "HTTQ/1.1", "HTTP/11.1", "HTTP/-1.1" }) + "\r\n" + host + id + tail; break;
  case 3: kind = "no colon"; raw = first + host + id + "Broken header\r\n" + tail; break;
  case 4: kind = "empty name"; raw = first + host + id + ": value\r\n" + tail; break;
  case 5: kind = "bad name char"; raw = first + host + id + "X" + r.one_of<std::string>({ " ", "(", ")", "<", "@", ",", ";", "\\", "\"", "/", "[", "]", "?", "=", "{", "}", "\x80", ctl }) + "Y: v\r\n" + tail; break;
  case 6: kind = "control in value"; raw = first + host + id + "X-A: a" + ctl + "b\r\n" + tail; break;
  case 7: kind = "length not a number"; raw = first + host + id + "Content-Length: " + r.one_of<std::string>({ "abc", "3x", "-3", "+3", "3 4", "0x3", "3,4", "", "1e2", "18446744073709551616", "99999999999999999999999" }) + "\r\n\r\nabc"; break;
  case 8: kind = "two lengths"; raw = first + host + id + "Content-Length: 3\r\nContent-Length: 4\r\n\r\nabcd"; break;
  case 9: kind = "length and chunked"; raw = first + host + id + (r.flip() ? "Content-Length: 3\r\nTransfer-Encoding: chunked\r\n" : "Transfer-Encoding: chunked\r\nContent-Length: 3\r\n") + "\r\n0\r\n\r\n"; break;
  case 10: kind = "space before colon"; raw = first + host + id + "X-A : v\r\n" + tail; break;
  case 11: kind = "bad method char"; raw = "PO" + r.one_of<std::string>({ "(", "\x80", "@", "[", ctl, "/", "\"" }) + "ST /h HTTP/1.1\r\n" + host + id + tail; break;
  case 12: kind = "control in target"; raw = "POST /h" + ctl + " HTTP/1.1\r\n" + host + id + tail; break;
  case 13: kind = "empty method"; raw = " /h HTTP/1.1\r\n" + host + id + tail; break;
  case 14: kind = "bare CR"; raw = first + host + "X-A: a\rb\r\n" + id + tail; break;
  case 15: {
    kind = "incomplete header";
    raw = first + host + id + tail;
    raw.resize(r.below(raw.size() - 3));
    break;
  }
  case 16: kind = "empty target"; raw = "POST  HTTP/1.1\r\n" + host + id + tail; break;
  case 17: kind = "leading colon line"; raw = first + ":\r\n" + host + id + tail; break;
  case 18: kind = "garbage"; raw = std::string(1, char(0x80 + r.below(128))) + r.bytes(r.len(200)) + "\r\n\r\n"; break;
  case 19: kind = "target with spaces"; raw = "POST /h /h HTTP/1.1\r\n" + host + id + tail; break;
  case 20: kind = "TLS hello"; raw = std::string("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", 11) + r.bytes(300); break;
  default: kind = "bad connection list"; raw = first + host + id + "Connection: " + r.one_of<std::string>({ "close close", "(", "a b", "\"" }) + "\r\n" + tail; break;
  }
  srv::client c(s.path);
  auto cut = r.below(raw.size() + 1);
  c.send(std::string_view(raw).substr(0, cut));
  if (r.flip()) ::usleep(useconds_t(r.below(500)));
  c.send(std::string_view(raw).substr(cut));
  // "incomplete" waits for the timeout half of the time
  if (kind != "incomplete header" || r.flip()) c.half_close();
  auto what = kind + ": " + vh::esc(raw, 300);
  VH_CHECK(c.drain(timeout_ms + 10000), "not-closed", what);
  {
    std::lock_guard l(g_mx);
    VH_CHECK(g_log.empty(), "handler-ran", what);
  }
  VH_CHECK(c.in().find("HTTP/1.1 2") == std::string::npos, "answered-2xx", what + " got " + vh::esc(c.in(), 100));
  judge_output(c.in(), what);
  judge_alive(what);
  vh::seen(what);
  vh::count("kind:" + kind);
}

VH_SUITE("body-limit", 160, 4000)
{
  auto& s = server();
  clear_log();
  std::uint64_t n = idx < 40 ? body_limit - 20 + std::uint64_t(idx) : r.flip() ? body_limit + std::uint64_t(r.range(-3, 3)) : r.one_of<std::uint64_t>({ 0, 1, body_limit / 2, 2 * body_limit, 20 * body_limit, 3000000 });
  bool chunked = r.flip();
  bool ignore = r.chance(1, 4);
  std::string body = r.bytes(n);
  std::string raw = std::string("POST ") + (ignore ? "/ignore" : "/h") + " HTTP/1.1\r\nHost: h\r\nX-Id: b\r\n";
  std::string chunks;
  if (chunked) {
    raw += "Transfer-Encoding: chunked\r\n\r\n";
    std::size_t i = 0;
    while (i < body.size()) {
      auto k = std::min<std::size_t>(body.size() - i, r.flip() ? 1 + r.below(70) : 1 + r.below(body.size()));
      char b[24];
      std::snprintf(b, sizeof b, "%zx\r\n", k);
      raw += b + body.substr(i, k) + "\r\n";
      i += k;
    }
    raw += "0\r\n\r\n";
  } else raw += "Content-Length: " + std::to_string(n) + "\r\n\r\n" + body;
  bool follow = r.flip();
  if (follow) raw += "POST /h HTTP/1.1\r\nHost: h\r\nX-Id: follow\r\nContent-Length: 2\r\n\r\nok";
  srv::client c(s.path);
  std::size_t i = 0;
  while (i < raw.size()) {
    auto k = r.flip() ? raw.size() - i : 1 + r.below(raw.size() - i);
    if (!c.send(std::string_view(raw).substr(i, k))) break;
    i += k;
  }
  auto what = std::string(chunked ? "chunked " : "sized ") + std::to_string(n) + (ignore ? " ignored" : "") + (follow ? " followed" : "");
  if (n <= body_limit) {
    auto m = srv::next_response(c);
    VH_CHECK(m.st == srv::message::complete && m.status == 200 && m.body == (ignore ? "ignored" : body), "limit:allowed-body-refused", what + " status " + std::to_string(m.status) + " " + m.why);
    if (follow) {
      auto f = srv::next_response(c);
      VH_CHECK(f.st == srv::message::complete && f.body == "ok", "limit:next-request", what + " status " + std::to_string(f.status));
    }
    vh::count("allowed");
  } else {
    c.half_close();
    VH_CHECK(c.drain(timeout_ms * 2 + 10000), "limit:not-closed", what);
    vh::count("refused");
  }
  {
    std::lock_guard l(g_mx);
    for (auto& e : g_log) {
      if (e.id == "b" && n > body_limit) {
        VH_CHECK(!e.ended, "limit:complete-body-above-limit", what + " delivered " + std::to_string(e.body.size()));
        VH_CHECK(e.body.size() <= body_limit && body.compare(0, e.body.size(), e.body) == 0, "limit:bytes-above-limit", what + " delivered " + std::to_string(e.body.size()));
      }
      // what follows an oversized body on the connection is not trusted to be a request
      if (e.id == "follow" && n > body_limit) vh::fail("limit:next-request-after-oversized", what);
    }
  }
  judge_alive(what);
  vh::seen(what);
}

VH_SUITE("header-limit", 120, 3000)
{
  auto& s = server();
  clear_log();
  std::size_t n = r.flip() ? header_limit - 200 + r.below(400) : r.below(40000);
  std::string raw = "POST /h HTTP/1.1\r\nHost: h\r\nX-Id: hl\r\nContent-Length: 2\r\n";
  std::size_t fixed = raw.size() + 2;
  while (raw.size() + 2 + 8 < n) {
    auto k = std::min<std::size_t>(n - raw.size() - 2 - 7, 1 + r.below(600));
    raw += "X-P: " + std::string(k, 'p') + "\r\n";
    if (n < fixed) break;
  }
  raw += "\r\n";
  auto size = raw.size();
  bool slow = r.flip(); // consumed by the parser piece by piece
  raw += "ok";
  srv::client c(s.path);
  std::size_t i = 0;
  while (i < raw.size()) {
    auto k = r.flip() ? raw.size() - i : 1 + r.below(std::min<std::size_t>(raw.size() - i, 900));
    if (!c.send(std::string_view(raw).substr(i, k))) break;
    if (slow) ::usleep(useconds_t(r.below(200)));
    i += k;
  }
  auto m = srv::next_response(c);
  auto what = std::string(slow ? "slow " : "") + "header of " + std::to_string(size) + " -> " + std::to_string(m.status);
  std::lock_guard l(g_mx);
  if (size <= header_limit) {
    VH_CHECK(m.status == 200 && m.body == "ok" && g_log.size() == 1, "header-limit:refused", what);
    vh::count("headers-allowed");
  } else {
    VH_CHECK(g_log.empty(), "header-limit:handler-ran", what);
    VH_CHECK(m.status == 0 || m.status == 400 || m.status == 431, "header-limit:answer", what);
    vh::count("headers-refused");
  }
  vh::seen(what);
}

// many stalled clients at once: all are closed in time, others are served meanwhile
VH_SUITE("stalled", 6, 120)
{
  auto& s = server();
  clear_log();
  ::usleep(2000);
  long before = open_fds();
  struct stalled {
    srv::client c;
    std::string kind;
    bool reads = true;
    std::string trickle; // goes on sending these, a byte now and then
  };
  std::vector<stalled> v;
  std::string what;
  for (int k = 0; k < 32; ++k) {
    stalled x { srv::client(s.path), "", true, "" };
    // a limit that holds for the first request only would be found here
    bool later = r.chance(1, 3);
    if (later) {
      auto n = 1 + r.below(3);
      for (std::size_t i = 0, tries = 0; i < n; ++i) {
        x.c.send(r.flip() ? "GET /h HTTP/1.1\r\nHost: h\r\n\r\n" : "POST /h HTTP/1.1\r\nHost: h\r\nExpect: 100-continue\r\nContent-Length: 2\r\n\r\nok");
        auto m = srv::next_response(x.c);
        if (m.status == 100) m = srv::next_response(x.c);
        bool ok = m.st == srv::message::complete && m.status == 200;
        if (!ok && ++tries < 5) { // a busy machine: the limit is short
          x.c = srv::client(s.path);
          i = std::size_t(-1);
          continue;
        }
        VH_CHECK(ok, "stalled:first-request", m.why);
      }
      what += "later ";
    }
    switch (r.below(10)) {
    case 0: x.kind = "silent"; break;
    case 8: {
      x.kind = "expecting";
      x.c.send(std::string("POST ") + r.one_of({ "/h", "/ignore" }) + " HTTP/1.1\r\nHost: h\r\nX-Id: st\r\nExpect: 100-continue\r\n" + r.one_of({ "Content-Length: 300\r\n\r\n", "Transfer-Encoding: chunked\r\n\r\n", "Content-Length: 300\r\n\r\nabc" }));
      break;
    }
    case 9: {
      x.kind = "trickling";
      std::string raw = r.one_of<std::string>({ "POST /h HTTP/1.1\r\nHost: h\r\nX-Id: st\r\nX-Long: ", "POST /h HTTP/1.1\r\nHost: h\r\nX-Id: st\r\nContent-Length: 300\r\n\r\n",
                                                "POST /ignore HTTP/1.1\r\nHost: h\r\nX-Id: st\r\nContent-Length: 300\r\n\r\n",
                                                "POST /h HTTP/1.1\r\nHost: h\r\nX-Id: st\r\nTransfer-Encoding: chunked\r\n\r\n12c\r\n" });
      x.c.send(raw);
      x.trickle = std::string(250, 'a');
      break;
    }
    case 1: {
      x.kind = "partial header";
      std::string raw = "POST /h HTTP/1.1\r\nHost: h\r\nX-Id: st\r\nContent-Length: 3\r\n\r\n";
      x.c.send(std::string_view(raw).substr(0, 1 + r.below(raw.size() - 1)));
      break;
    }
    case 2:
      x.kind = "partial body";
      x.c.send("POST /h HTTP/1.1\r\nHost: h\r\nX-Id: st\r\nContent-Length: 300\r\n\r\nabc");
      break;
    case 3:
      x.kind = "partial chunk";
      x.c.send("POST /h HTTP/1.1\r\nHost: h\r\nX-Id: st\r\nTransfer-Encoding: chunked\r\n\r\n" + r.one_of<std::string>({ "", "5", "5\r\n", "5\r\nab", "5\r\nabcde\r\n", "5\r\nabcde\r\n0\r\n" }));
      break;
    case 4:
      x.kind = "unread body";
      x.c.send("POST /ignore HTTP/1.1\r\nHost: h\r\nX-Id: ig\r\nContent-Length: 300\r\n\r\nabc");
      break;
    case 5:
      x.kind = "idle after response";
      x.c.send("GET /h HTTP/1.1\r\nHost: h\r\n\r\n");
      break;
    case 6:
      x.kind = "does not read";
      x.c.send("GET /big HTTP/1.1\r\nHost: h\r\n\r\n");
      x.reads = false;
      break;
    default:
      x.kind = "does not read stream";
      x.c.send("GET /bigs HTTP/1.1\r\nHost: h\r\n\r\n");
      x.reads = false;
    }
    what += x.kind + "; ";
    v.push_back(std::move(x));
  }
  auto t0 = clk::now();
  for (int i = 0; i < 3; ++i) judge_alive("while " + what);
  // generous: the limit is the configured timeout, once or twice. Trickling
  // would take the clients 250 bytes x 60 ms
  for (bool more = true; more;) {
    more = false;
    for (auto& x : v)
      if (!x.trickle.empty() && !x.c.eof()) {
        x.c.pump(0);
        if (!x.c.eof() && x.c.send(x.trickle.substr(0, 1), 1000)) {
          x.trickle.pop_back();
          more = true;
        }
      }
    ::usleep(60000);
    if (clk::now() - t0 > std::chrono::milliseconds(4 * timeout_ms + 9000)) break;
  }
  for (auto& x : v) {
    if (!x.reads) continue;
    int left = 4 * timeout_ms + 10000 - int(std::chrono::duration_cast<std::chrono::milliseconds>(clk::now() - t0).count());
    bool closed = x.c.drain(std::max(left, 1));
    VH_CHECK(closed, "stalled:not-closed", x.kind);
    if (x.kind == "idle after response") VH_CHECK(x.c.in().starts_with("HTTP/1.1 200"), "stalled:no-response", x.kind);
    if (x.kind == "silent" || x.kind == "partial header") VH_CHECK(x.c.in().find("HTTP/1.1 2") == std::string::npos, "stalled:answered", x.kind);
    vh::count("stalled:" + x.kind);
  }
  {
    std::lock_guard l(g_mx);
    for (auto& e : g_log)
      if (e.id == "st") VH_CHECK(!e.ended, "stalled:complete-body", what);
  }
  // those who never read: the server gives up on them while they are still there
  long clients = 0;
  for (auto& x : v) {
    if (x.reads) x.c.close();
    else ++clients;
  }
  long after = 0;
  for (int i = 0; i < 6000; ++i) {
    after = open_fds();
    if (after <= before + clients && g_live == 0) break;
    ::usleep(2000);
  }
  VH_CHECK(after <= before + clients, "stalled:not-released", what + " " + std::to_string(before) + "+" + std::to_string(clients) + " -> " + std::to_string(after));
  vh::count("stalled:writers", std::uint64_t(clients));
  v.clear();
  judge_released(before, what);
  judge_alive("after " + what);
  vh::seen(what);
  vh::sample(what);
}

// connections that come and go at any moment leave nothing behind
VH_SUITE("churn", 12, 300)
{
  auto& s = server();
  ::usleep(2000);
  long before = open_fds();
  for (int k = 0; k < 60; ++k) {
    srv::client c(s.path);
    if (r.chance(1, 6)) continue;
    auto raw = valid_request(r, "c");
    if (r.flip()) raw.resize(r.below(raw.size()));
    c.send(raw);
    if (r.flip()) c.pump(int(r.below(2)));
    switch (r.below(3)) {
    case 0: c.reset(); break;
    case 1: c.half_close(); break;
    default: break;
    }
  }
  judge_released(before, "churn");
  judge_alive("churn");
  vh::seen(std::to_string(r.u64()));
  vh::count("churn-connections", 60);
}

// the configured limits are what the server reports, and none means none
VH_SUITE("configuration", 20, 200)
{
  net::io_context ioc;
  bool none = idx % 2;
  auto hl = std::uint32_t(200 + r.below(5000));
  auto bl = r.below(100000);
  auto to = std::chrono::milliseconds(500 + r.below(100000));
  auto tt = std::chrono::milliseconds(500 + r.below(100000));
  fitoria::optional<std::uint32_t> ohl;
  fitoria::optional<std::uint64_t> obl;
  fitoria::optional<std::chrono::milliseconds> oto, ott;
  if (!none) {
    ohl = hl;
    obl = bl;
    oto = to;
    ott = tt;
  }
  auto opts = [&](auto&& x) -> decltype(auto) {
    using B = decltype(x);
    return std::forward<B>(x)
        .set_request_header_limit(ohl)
        .set_request_body_limit(obl)
        .set_request_timeout(oto)
        .set_tls_handshake_timeout(ott)
        .set_exception_handler([](std::exception_ptr) {})
        .set_max_listen_connections(int(idx + 1))
        .serve(web::route::any<"/h">(serve));
  };
  // set on an object, or through a chain of temporaries
  auto build = [&] {
    if (idx / 2 % 2) return opts(web::http_server::builder(ioc)).build();
    auto b = web::http_server::builder(ioc.get_executor());
    opts(b);
    return b.build();
  };
  auto s = build();
  if (none) VH_CHECK(!s.request_header_limit() && !s.request_body_limit() && !s.request_timeout() && !s.tls_handshake_timeout(), "configuration:none", "limits");
  else VH_CHECK(s.request_header_limit() == hl && s.request_body_limit() == bl && s.request_timeout() == to && s.tls_handshake_timeout() == tt, "configuration:values", "limits");
  VH_CHECK(s.max_listen_connections() == int(idx + 1), "configuration:listen", "limit");
  auto n = none ? r.one_of<std::size_t>({ 100, 2000000, 5000000 }) : r.below(2) ? bl : bl + 1 + r.below(5);
  auto body = std::string(n, 'q');
  auto rep = srv::call(s, ioc, "/h", web::test_request::post().set_header("x-id", "cfg").set_body(body));
  bool fits = none || n <= bl;
  VH_CHECK((rep.delivered && rep.status == 200 && rep.body == body) == fits, "configuration:body-limit", "limit " + (none ? "none" : std::to_string(bl)) + " body " + std::to_string(n) + " status " + std::to_string(rep.status));
  vh::seen(std::to_string(n) + (none ? "none" : ""));
}

int main(int argc, char** argv)
{
  vh::require("allowed", 10);
  vh::require("refused", 10);
  vh::require("headers-refused", 5);
  return vh::main(argc, argv);
}
