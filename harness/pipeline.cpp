// P21: sequences of requests on one connection against a model of HTTP/1.x connections.
#include "srv.hpp"

namespace web = fitoria::web;
namespace http = fitoria::http;
using fitoria::awaitable;

namespace {

struct seen_request {
  std::string method, path, pattern;
  int version = 0;
  srv::headers h;
  std::vector<std::pair<std::string, std::string>> query;
  std::string body;
  bool body_ended = false, body_error = false;
  int invoked = 0;
};
struct log_t {
  std::mutex mx;
  std::map<std::string, seen_request> by_id;
  std::vector<std::string> order;
} g_log;

int ver(http::version v) { return v == http::version::v1_0 ? 10 : v == http::version::v1_1 ? 11 : 0; }

awaitable<web::response> serve(web::request& req)
{
  seen_request s;
  std::string id(req.headers().get("x-id").value_or("?")), mode(req.headers().get("x-mode").value_or(""));
  {
    std::lock_guard l(g_log.mx);
    g_log.order.push_back(id);
    ++g_log.by_id[id].invoked;
  }
  s.method = std::string(boost::beast::http::to_string(req.method()));
  s.version = ver(req.version());
  s.path = req.path().match_path();
  s.pattern = req.path().match_pattern();
  s.h = srv::of(req.headers());
  for (auto& [n, v] : req.query()) s.query.emplace_back(n, v);
  auto has = [&](const char* m) { return mode.find(m) != mode.npos; };
  if (has("delay")) {
    auto t = boost::asio::steady_timer(co_await boost::asio::this_coro::executor);
    t.expires_after(std::chrono::milliseconds(2));
    co_await t.async_wait(fitoria::use_awaitable);
  }
  if (has("read-all")) {
    auto d = co_await aio::drain(req.body(), 1000000);
    s.body = d.data;
    s.body_ended = d.ended && d.stable;
    s.body_error = bool(d.error);
  } else if (has("read-one")) {
    auto x = co_await req.body().async_read_some();
    if (x && *x) s.body = aio::to_string(**x);
    else if (x) s.body_error = true;
  }
  {
    std::lock_guard l(g_log.mx);
    auto& e = g_log.by_id[id];
    s.invoked = e.invoked;
    e = s;
  }
  auto payload = "reply to " + id + std::string(std::size_t(id.size() * 37 % 90), '.');
  auto res = web::response::ok().set_header("X-Id", id);
  if (has("resp-none")) co_return res.set_body();
  if (has("resp-chunked")) {
    auto sc = std::make_shared<aio::script>();
    sc->chunks = { payload.substr(0, 3), "", payload.substr(3) };
    co_return res.set_stream_body(aio::source(sc));
  }
  co_return res.set_body(payload);
}

auto build(web::http_server::builder b)
{
  b.set_request_timeout(std::chrono::seconds(60));
  b.serve(web::route::any<"/e/{seg}">(serve));
  b.serve(web::route::get<"/only-get">(serve));
  b.serve(web::route::any<"/w/#rest">(serve));
  return std::move(b);
}

srv::running& server()
{
  static srv::running s([](web::http_server::builder b) { return build(std::move(b)).build(); }, 2);
  return s;
}

struct expected_request {
  std::string id, method, path, raw_target, raw, head_bytes, body;
  int version = 11;
  srv::headers h;
  std::vector<std::pair<std::string, std::string>> query;
  enum { handler, not_found, bad_target } kind = handler;
  bool keep = true, head = false, has_body = false, expect = false;
  std::string mode;
};

std::string enc(vh::rng& r, const std::string& s, const char* plain)
{
  static const char* hex[] = { "0123456789ABCDEF", "0123456789abcdef" };
  std::string o;
  for (unsigned char c : s) {
    if ((std::isalnum(c) || std::strchr(plain, c)) && c && r.chance(9, 10)) o += char(c);
    else {
      auto* t = hex[r.flip()];
      o += '%';
      o += t[c >> 4];
      o += t[c & 15];
    }
  }
  return o;
}

std::string mixed_case(vh::rng& r, std::string s)
{
  for (auto& c : s)
    if (std::isalpha((unsigned char)c) && r.flip()) c = char(c ^ 0x20);
  return s;
}

expected_request make_request(vh::rng& r, const std::string& id, bool last)
{
  expected_request e;
  e.id = id;
  static const char* methods[] = { "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE" };
  e.method = r.pick(methods);
  e.head = e.method == "HEAD";
  // target
  auto seg = r.from("abz019-_.~ \"%$&+=:@\xc3\xa9", 1 + r.below(8));
  // never a dot segment
  if (seg == "." || seg == "..") seg = "x";
  switch (r.below(12)) {
  case 0:
    e.kind = expected_request::not_found;
    e.path = r.one_of<std::string>({ "/", "/e", "/nope", "/e/a/b", "/E/a", "/only-get2" });
    e.raw_target = e.path;
    break;
  case 1:
    e.path = "/only-get";
    e.raw_target = e.path;
    if (e.method != "GET") e.kind = expected_request::not_found;
    break;
  case 2:
    e.kind = expected_request::bad_target;
    e.raw_target = r.one_of<std::string>({ "*", "http://h/e/a", "/e/%zz", "/e/%4", "e/a", "//[" });
    // "//[" is a valid origin form for some grammars: leave it to either answer
    if (e.raw_target == "//[") e.raw_target = "*";
    break;
  case 3:
    e.path = "/w/" + seg + "/" + seg;
    e.raw_target = "/w/" + enc(r, seg, "-_.~$&+=:@") + "/" + enc(r, seg, "-_.~$&+=:@");
    break;
  default:
    e.path = "/e/" + seg;
    e.raw_target = "/e/" + enc(r, seg, "-_.~$&+=:@");
  }
  if (e.kind != expected_request::bad_target && r.chance(1, 3)) {
    std::map<std::string, std::string> q;
    std::string t;
    for (auto n = 1 + r.below(3); n--;) {
      auto k = r.from("abc", 1 + r.below(2)), v = r.from("xyz 019&=%+", r.below(6));
      if (!q.emplace(k, v).second) continue;
      t += (t.empty() ? "?" : "&") + k + "=" + enc(r, v, "");
    }
    for (auto& [k, v] : q) e.query.emplace_back(k, v);
    e.raw_target += t;
  }
  // version and connection
  e.version = r.chance(1, 5) ? 10 : 11;
  std::string conn;
  bool close = last ? r.flip() : r.chance(1, 12);
  if (e.version == 11) {
    if (close) conn = mixed_case(r, "close");
    else if (r.chance(1, 5)) conn = mixed_case(r, "keep-alive");
    e.keep = !close;
  } else {
    if (!close) conn = mixed_case(r, "keep-alive");
    else if (r.flip()) conn = "close";
    e.keep = !close;
  }
  if (!conn.empty() && r.chance(1, 4)) conn = r.flip() ? "x-other, " + conn : conn + " ,x-other";
  // body
  static const char* reads[] = { "read-all", "read-one", "read-none" };
  static const char* resps[] = { "resp-none", "resp-chunked", "resp-sized" };
  e.mode = std::string(r.pick(reads)) + "," + r.pick(resps) + (r.chance(1, 8) ? ",delay" : "");
  std::string wire_body;
  std::string framing;
  bool trailer = false;
  switch (r.below(5)) {
  case 0:
  case 1: break;
  default: {
    e.has_body = true;
    switch (r.below(5)) {
    case 0: e.body = "GET /e/smuggled HTTP/1.1\r\nHost: h\r\nX-Id: smuggled\r\nContent-Length: 0\r\n\r\n"; break;
    case 1: e.body = r.bytes(r.len(300)); break;
    case 2: e.body = r.bytes(60000 + r.below(12000)); break;
    case 3: e.body = std::string(r.len(20), '\n') + "0\r\n\r\nPOST /e/smuggled HTTP/1.1\r\n\r\n"; break;
    default: e.body = r.from("abc\r\n", r.len(60));
    }
    if (r.chance(1, 40)) e.body = r.bytes(200000 + r.below(300000));
    if (e.version == 10 || r.flip()) {
      framing = "Content-Length: " + std::to_string(e.body.size());
      wire_body = e.body;
    } else {
      framing = mixed_case(r, "Transfer-Encoding") + ": " + mixed_case(r, "chunked");
      for (auto& c : aio::chop(r, e.body, false)) {
        char b[40];
        std::snprintf(b, sizeof b, r.flip() ? "%zx" : "%zX", c.size());
        wire_body += b;
        if (r.chance(1, 6)) wire_body += ";ext=1";
        wire_body += "\r\n" + c + "\r\n";
      }
      wire_body += "0\r\n";
      if ((trailer = r.chance(1, 6))) wire_body += "X-Trailer: t\r\n";
      wire_body += "\r\n";
    }
  }
  }
  // headers
  std::vector<std::pair<std::string, std::string>> hs = { { "Host", "h" }, { "X-Id", id }, { "X-Mode", e.mode } };
  if (!conn.empty()) hs.emplace_back(mixed_case(r, "Connection"), conn);
  for (auto n = r.below(4); n--;)
    hs.emplace_back(mixed_case(r, r.one_of<std::string>({ "X-A", "X-B", "Accept", "Cookie" })), r.from("abc ,;=\"019", r.below(8)) + "z");
  e.expect = e.has_body && r.chance(1, 8);
  if (e.expect) hs.emplace_back("Expect", mixed_case(r, "100-continue"));
  r.shuffle(hs);
  e.raw = e.method + " " + e.raw_target + (e.version == 11 ? " HTTP/1.1\r\n" : " HTTP/1.0\r\n");
  for (auto& [n, v] : hs) {
    auto ows = [&] { return std::string(r.below(3), r.flip() ? ' ' : '\t'); };
    e.raw += n + ":" + ows() + v + ows() + "\r\n";
    auto t = v;
    while (!t.empty() && t.front() == ' ') t.erase(0, 1);
    while (!t.empty() && t.back() == ' ') t.pop_back();
    e.h.emplace_back(srv::lower(n), t);
  }
  if (!framing.empty()) {
    e.raw += framing + "\r\n";
    auto c = framing.find(": ");
    e.h.emplace_back(srv::lower(framing.substr(0, c)), framing.substr(c + 2));
  }
  e.raw += "\r\n";
  e.head_bytes = e.raw;
  e.raw += wire_body;
  return e;
}

std::map<std::string, std::vector<std::string>> group(const srv::headers& h)
{
  std::map<std::string, std::vector<std::string>> g;
  for (auto& [n, v] : h) g[n].push_back(v);
  return g;
}

// one response (and the 100 before it) against the request; false: give up
bool judge_response(srv::client& c, const expected_request& e, const std::string& what, bool got_continue)
{
  if (e.expect && e.version == 11 && !got_continue) {
    auto m = srv::next_response(c);
    VH_CHECK(m.st == srv::message::complete && m.status == 100, "continue-missing", what + " status " + std::to_string(m.status) + " " + m.why);
    if (m.st != srv::message::complete) return false;
    vh::count("continues");
  }
  auto m = srv::next_response(c, e.head);
  auto w = what + " -> " + std::to_string(m.status) + " " + m.why + " rest " + vh::esc(c.in(), 80);
  VH_CHECK(m.st == srv::message::complete, "no-response", w);
  if (m.st != srv::message::complete) return false;
  auto id = m.get("x-id");
  switch (e.kind) {
  case expected_request::not_found: VH_CHECK(m.status == 404 && id.empty(), "response-mismatch", w); break;
  case expected_request::bad_target: VH_CHECK(m.status == 400 && id.empty(), "response-mismatch", w); break;
  default: {
    VH_CHECK(m.status == 200 && id == std::vector<std::string> { e.id }, "response-mismatch", w + " id " + (id.empty() ? "none" : id[0]));
    auto payload = "reply to " + e.id + std::string(e.id.size() * 37 % 90, '.');
    if (e.mode.find("resp-none") != e.mode.npos || e.head) payload.clear();
    VH_CHECK(m.body == payload, "response-body", w);
  }
  }
  if (!e.keep) VH_CHECK(m.close, "close-not-announced", w);
  else VH_CHECK(!m.close, "close-announced", w);
  vh::count("responses");
  return true;
}

void judge_seen(const expected_request& e, const std::string& what)
{
  std::lock_guard l(g_log.mx);
  auto it = g_log.by_id.find(e.id);
  int invoked = it == g_log.by_id.end() ? 0 : it->second.invoked;
  VH_CHECK(invoked == (e.kind == expected_request::handler ? 1 : 0), "invocations", what + " handler ran " + std::to_string(invoked) + " times");
  if (e.kind != expected_request::handler || !invoked) return;
  auto& s = it->second;
  VH_CHECK(s.method == e.method, "method", what + " saw " + s.method);
  VH_CHECK(s.version == e.version, "version", what);
  VH_CHECK(s.path == e.path, "path", what + " saw " + vh::esc(s.path));
  auto q = s.query;
  std::sort(q.begin(), q.end());
  VH_CHECK(q == e.query, "query", what);
  VH_CHECK(group(s.h) == group(e.h), "headers", what + " saw " + srv::show(s.h) + " sent " + srv::show(e.h));
  if (e.mode.find("read-all") != e.mode.npos) VH_CHECK(s.body == e.body && s.body_ended && !s.body_error, "body", what + " saw " + std::to_string(s.body.size()) + " of " + std::to_string(e.body.size()));
  else if (e.mode.find("read-one") != e.mode.npos) VH_CHECK(e.body.compare(0, s.body.size(), s.body) == 0 && !s.body_error, "body", what + " saw another prefix");
}

void send_segmented(vh::rng& r, srv::client& c, std::string_view s)
{
  switch (r.below(4)) {
  case 0: c.send(s); break;
  case 1: { // tiny first bytes, then the rest
    std::size_t i = 0;
    while (i < s.size() && i < 400) {
      auto n = std::min<std::size_t>(1 + r.below(6), s.size() - i);
      if (!c.send(s.substr(i, n))) return;
      if (r.chance(1, 6)) ::usleep(useconds_t(r.below(300)));
      i += n;
    }
    c.send(s.substr(i));
    break;
  }
  default: {
    std::size_t i = 0;
    std::size_t parts = 1 + r.below(8);
    while (i < s.size()) {
      auto n = std::min<std::size_t>(1 + r.below(std::max<std::size_t>(1, 2 * s.size() / parts)), s.size() - i);
      if (!c.send(s.substr(i, n))) return;
      if (r.chance(1, 2)) ::usleep(useconds_t(r.below(600)));
      i += n;
    }
  }
  }
}

} // namespace

VH_SUITE("sequences", 400, 12000)
{
  auto& s = server();
  {
    std::lock_guard l(g_log.mx);
    g_log.by_id.clear();
    g_log.order.clear();
  }
  srv::client c(s.path);
  VH_CHECK(bool(c), "connect", "cannot connect");
  std::vector<expected_request> es;
  auto n = 1 + r.below(10);
  std::string story;
  for (std::size_t i = 0; i < n; ++i) {
    es.push_back(make_request(r, "r" + std::to_string(idx) + "-" + std::to_string(i), i + 1 == n));
    story += es.back().method + " " + es.back().raw_target + (es.back().version == 10 ? "/1.0" : "") + (es.back().keep ? "" : " close") + " body "
        + std::to_string(es.back().body.size()) + " " + es.back().mode + (es.back().expect ? " expect" : "") + "; ";
  }
  std::size_t served = es.size(); // requests that must be answered
  for (std::size_t i = 0; i < es.size(); ++i)
    if (!es[i].keep) {
      served = i + 1;
      break;
    }
  bool pipelined = r.flip();
  std::size_t answered = 0;
  if (pipelined) {
    std::string all;
    for (auto& e : es) all += e.raw;
    send_segmented(r, c, all);
    for (std::size_t i = 0; i < served; ++i) {
      if (!judge_response(c, es[i], "[pipelined " + std::to_string(i) + "] " + story, false)) break;
      ++answered;
    }
  } else {
    for (std::size_t i = 0; i < served; ++i) {
      bool cont = false;
      if (es[i].expect && es[i].version == 11 && r.flip()) { // wait for the go-ahead
        send_segmented(r, c, es[i].head_bytes);
        auto m = srv::next_response(c);
        VH_CHECK(m.st == srv::message::complete && m.status == 100, "continue-missing", story + " status " + std::to_string(m.status));
        cont = true;
        vh::count("continues");
        send_segmented(r, c, std::string_view(es[i].raw).substr(es[i].head_bytes.size()));
      } else send_segmented(r, c, es[i].raw);
      if (!judge_response(c, es[i], "[" + std::to_string(i) + "] " + story, cont)) break;
      ++answered;
    }
  }
  if (answered == served) {
    if (!es[served - 1].keep) {
      // the server closes by itself and sends nothing more
      bool closed = c.drain(10000);
      VH_CHECK(closed, "not-closed", story);
      VH_CHECK(c.in().empty(), "extra-response", story + " " + vh::esc(c.in()));
      vh::count("closed-by-server");
    } else {
      // still open: one more exchange works
      ::usleep(useconds_t(r.below(1500)));
      c.pump(0);
      VH_CHECK(!c.eof() && c.in().empty(), "closed-or-extra", story + " " + vh::esc(c.in()));
      auto e = make_request(r, "last" + std::to_string(idx), true);
      c.send(e.raw);
      judge_response(c, e, "[extra] " + story, false);
      judge_seen(e, story);
      vh::count("kept-alive");
    }
  }
  for (std::size_t i = 0; i < served; ++i) judge_seen(es[i], "[" + std::to_string(i) + "] " + story);
  {
    std::lock_guard l(g_log.mx);
    for (std::size_t i = served; i < es.size(); ++i)
      VH_CHECK(!g_log.by_id.contains(es[i].id), "served-after-close", story);
    VH_CHECK(!g_log.by_id.contains("smuggled") && !g_log.by_id.contains("?"), "smuggled", story);
    // handlers ran in request order
    std::vector<std::string> want;
    for (std::size_t i = 0; i < served; ++i)
      if (es[i].kind == expected_request::handler) want.push_back(es[i].id);
    auto got = g_log.order;
    if (got.size() > want.size()) got.resize(want.size());
    VH_CHECK(got == want, "order", story);
  }
  VH_CHECK(s.escaped == 0, "escaped-exception", story);
  vh::seen(story + (pipelined ? "p" : "s"));
  vh::sample(story);
  vh::count("requests", served);
}

// the client stops in the middle of a request: nothing runs as if it were whole
VH_SUITE("truncated", 120, 4000)
{
  auto& s = server();
  auto e = make_request(r, "t" + std::to_string(idx), true);
  e.keep = true;
  srv::client c(s.path);
  auto cut = r.below(e.raw.size());
  send_segmented(r, c, std::string_view(e.raw).substr(0, cut));
  c.half_close();
  bool closed = c.drain(10000);
  auto what = "cut at " + std::to_string(cut) + " of " + std::to_string(e.raw.size()) + " (head " + std::to_string(e.head_bytes.size()) + ") " + e.mode;
  VH_CHECK(closed, "truncated:not-closed", what);
  std::lock_guard l(g_log.mx);
  auto it = g_log.by_id.find(e.id);
  if (cut < e.head_bytes.size()) {
    VH_CHECK(it == g_log.by_id.end(), "truncated:handler-ran", what);
    VH_CHECK(c.in().find("HTTP/1.1 2") == std::string::npos, "truncated:answered", what + vh::esc(c.in()));
  } else if (it != g_log.by_id.end() && it->second.method.size()) {
    VH_CHECK(!it->second.body_ended || it->second.body == e.body, "truncated:complete-body", what + " delivered " + std::to_string(it->second.body.size()));
  }
  VH_CHECK(s.escaped == 0, "escaped-exception", what);
  vh::seen(what);
  vh::count("truncations");
}

int main(int argc, char** argv)
{
  vh::require("kept-alive", 5);
  vh::require("closed-by-server", 5);
  return vh::main(argc, argv);
}
