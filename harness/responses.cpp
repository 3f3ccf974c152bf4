// P22: what handlers return against what arrives on the wire.
#include "srv.hpp"

namespace web = fitoria::web;
namespace http = fitoria::http;
using fitoria::awaitable;

namespace {

struct plan {
  int status = 200;
  http::version version = http::version::v1_1;
  std::vector<std::pair<std::string, std::string>> set; // as given
  srv::headers h;                                         // lower-case name, value, in order per name
  std::string body;
  enum { none, span, str, stream, chunked, json, def } form = none;
  std::vector<std::string> chunks;
  std::optional<std::error_code> error;
  bool throws = false;
  bool suspend = false;
  bool hostile_length = false;
  std::string text;
};

std::mutex g_mx;
std::map<std::string, plan> g_plans;
std::atomic<int> g_handler_exceptions { 0 };

// a stream whose read throws after its chunks
struct throwing {
  using is_async_readable_stream = void;
  aio::source s;
  std::size_t left;
  auto async_read_some() -> awaitable<fitoria::optional<fitoria::expected<fitoria::bytes, std::error_code>>>
  {
    if (left-- == 0) throw std::runtime_error("body failed");
    co_return co_await s.async_read_some();
  }
};

plan get_plan(web::request& req)
{
  std::lock_guard l(g_mx);
  return g_plans.at(std::string(req.headers().get("x-plan").value_or("")));
}

awaitable<web::response> serve(web::request& req)
{
  plan p = get_plan(req);
  web::response_builder b = web::response::ok();
  b.set_status(p.status).set_version(p.version);
  for (auto& [n, v] : p.set) b.insert_header(n, v);
  auto sc = std::make_shared<aio::script>();
  sc->chunks = p.chunks;
  sc->error = p.error;
  sc->suspend = p.suspend;
  switch (p.form) {
  case plan::span: {
    auto x = aio::to_bytes(p.body);
    co_return b.set_body(std::span<const std::byte>(x));
  }
  case plan::str: co_return b.set_body(std::string_view(p.body));
  case plan::stream:
    if (p.throws) co_return b.set_body(throwing { aio::source(sc), p.chunks.size() });
    co_return b.set_body(aio::source(sc));
  case plan::chunked:
    if (p.throws) co_return b.set_stream_body(throwing { aio::source(sc), p.chunks.size() });
    co_return b.set_stream_body(aio::source(sc));
  case plan::json: co_return b.set_json(boost::json::parse(p.body));
  case plan::def: co_return b.build();
  default: co_return b.set_body();
  }
}

struct custom {
  std::string text;
  int status;
};
web::response tag_invoke(web::to_response_t, const custom& c) { return web::response::ok().set_status(c.status).set_header("X-Custom", "yes").set_body(c.text); }

awaitable<std::string> as_string(web::request& req) { co_return get_plan(req).body; }
awaitable<std::vector<std::uint8_t>> as_bytes(web::request& req)
{
  auto b = get_plan(req).body;
  co_return std::vector<std::uint8_t>(b.begin(), b.end());
}
awaitable<std::vector<std::uint32_t>> as_words(web::request& req)
{
  auto b = get_plan(req).body;
  std::vector<std::uint32_t> v(b.size() / 4);
  if (!v.empty()) std::memcpy(v.data(), b.data(), v.size() * 4);
  co_return v;
}
awaitable<custom> as_custom(web::request& req)
{
  auto p = get_plan(req);
  co_return custom { p.body, p.status };
}
awaitable<fitoria::expected<std::string, custom>> as_expected(web::request& req)
{
  auto p = get_plan(req);
  if (p.throws) co_return fitoria::unexpected(custom { p.body, p.status });
  co_return p.body;
}
using var = std::variant<std::string, std::vector<std::uint8_t>, custom, web::response>;
awaitable<var> as_variant(web::request& req)
{
  auto p = get_plan(req);
  switch (p.status % 4) {
  case 0: co_return var(p.body);
  case 1: co_return var(std::vector<std::uint8_t>(p.body.begin(), p.body.end()));
  case 2: co_return var(custom { p.body, p.status });
  default: co_return var(web::response::ok().set_status(p.status).set_header("X-Direct", "yes").set_body(p.body));
  }
}

srv::running& server()
{
  static srv::running s(
      [](web::http_server::builder b) {
        b.set_request_timeout(std::chrono::seconds(60));
        b.set_exception_handler([](std::exception_ptr p) {
          if (p) ++g_handler_exceptions;
        });
        b.serve(web::route::any<"/r">(serve));
        b.serve(web::route::any<"/string">(as_string));
        b.serve(web::route::any<"/bytes">(as_bytes));
        b.serve(web::route::any<"/words">(as_words));
        b.serve(web::route::any<"/custom">(as_custom));
        b.serve(web::route::any<"/expected">(as_expected));
        b.serve(web::route::any<"/variant">(as_variant));
        return b.build();
      },
      2);
  return s;
}

bool is_null_status(int s) { return s / 100 == 1 || s == 204 || s == 304; }

plan make_plan(vh::rng& r, bool failing)
{
  plan p;
  static const int common[] = { 200, 201, 202, 203, 205, 206, 207, 300, 301, 302, 303, 307, 308, 400, 401, 403, 404, 405, 409, 413, 416, 418, 426, 500, 502, 503 };
  p.status = r.chance(1, 6) ? r.one_of<int>({ 204, 304 }) : r.chance(1, 8) ? int(r.range(200, 999)) : r.pick(common);
  if (r.chance(1, 8)) p.version = http::version::v1_0;
  std::map<std::string, int> used;
  for (auto n = r.below(6); n--;) {
    auto name = r.one_of<std::string>({ "X-A", "x-a", "Set-Cookie", "Content-Type", "Location", "X-Empty", "ETag", "Vary", "Server", "X-Long" });
    if ((name == "Content-Type" || name == "Location" || name == "ETag") && used[name]++) continue;
    std::string v = r.from("abcXYZ019 -_,;=/\"()\x80\xff", r.len(60));
    if (name == "X-Long") v = r.from("abc", 2000 + r.below(9000));
    while (!v.empty() && v.front() == ' ') v.erase(0, 1);
    while (!v.empty() && v.back() == ' ') v.pop_back();
    p.set.emplace_back(name, v);
    p.h.emplace_back(srv::lower(name), v);
  }
  auto size = r.below(10) == 0 ? 60000 + r.below(140000) : r.len(400);
  switch (r.below(7)) {
  case 0: p.form = plan::none; break;
  case 1: p.form = plan::span; break;
  case 2: p.form = plan::str; break;
  case 3: p.form = plan::stream; break;
  case 4:
  case 5: p.form = plan::chunked; break;
  default: p.form = r.flip() ? plan::json : plan::def;
  }
  if (failing) p.form = r.flip() ? plan::stream : plan::chunked;
  if (p.form == plan::json) {
    boost::json::object o;
    o["k"] = std::string(r.from("abc\"\\\n", r.len(40)));
    o["n"] = std::int64_t(r.u64());
    p.body = boost::json::serialize(o);
    std::erase_if(p.h, [](auto& x) { return x.first == "content-type"; });
    p.h.emplace_back("content-type", "application/json");
  } else if (p.form != plan::none && p.form != plan::def) {
    p.body = r.chance(1, 8) ? "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc0\r\n\r\n" : r.bytes(size);
    p.chunks = aio::chop(r, p.body);
  }
  p.suspend = r.chance(1, 4);
  if (failing) {
    p.throws = r.chance(1, 3);
    if (!p.throws) {
      std::error_code eof = boost::asio::error::make_error_code(boost::asio::error::eof);
      p.error = r.flip() ? eof : std::make_error_code(std::errc::io_error);
    }
  }
  if (!failing && r.chance(1, 10)) { // a wrong length given by the handler does not break the framing
    p.hostile_length = true;
    p.set.emplace_back("Content-Length", std::to_string(r.below(100)));
  }
  p.text = std::to_string(p.status) + (p.version == http::version::v1_0 ? " v1.0" : "") + " form " + std::to_string(p.form) + " body " + std::to_string(p.body.size())
      + " chunks " + std::to_string(p.chunks.size()) + (failing ? p.throws ? " throws" : " error" : "") + (p.hostile_length ? " own-length" : "") + " headers " + srv::show(p.h).substr(0, 300);
  return p;
}

std::map<std::string, std::vector<std::string>> group(const srv::headers& h)
{
  std::map<std::string, std::vector<std::string>> g;
  for (auto& [n, v] : h)
    if (n != "content-length" && n != "transfer-encoding" && n != "connection") g[n].push_back(v);
  return g;
}

struct ask {
  std::string id, method;
  int version = 11;
  bool close = false;
};

std::string wire(const ask& a)
{
  std::string s = a.method + " /r HTTP/1." + (a.version == 11 ? "1" : "0") + "\r\nHost: h\r\nX-Plan: " + a.id + "\r\n";
  if (a.version == 11 && a.close) s += "Connection: close\r\n";
  if (a.version == 10 && !a.close) s += "Connection: keep-alive\r\n";
  return s + "\r\n";
}

} // namespace

VH_SUITE("responses", 500, 15000)
{
  auto& s = server();
  srv::client c(s.path);
  std::string story;
  auto n = 1 + r.below(6);
  std::vector<plan> ps;
  std::vector<ask> as;
  bool pipelined = r.flip();
  std::string all;
  for (std::size_t i = 0; i < n; ++i) {
    ps.push_back(make_plan(r, false));
    ask a { "p" + std::to_string(idx) + "-" + std::to_string(i), r.one_of<std::string>({ "GET", "GET", "GET", "HEAD", "POST", "DELETE" }), r.chance(1, 6) ? 10 : 11, i + 1 == n && r.flip() };
    as.push_back(a);
    std::lock_guard l(g_mx);
    g_plans[a.id] = ps.back();
    all += wire(a);
  }
  if (pipelined) c.send(all);
  for (std::size_t i = 0; i < n; ++i) {
    auto& p = ps[i];
    auto& a = as[i];
    if (!pipelined) c.send(wire(a));
    bool head = a.method == "HEAD";
    auto m = srv::next_response(c, head);
    auto w = a.method + " 1." + std::to_string(a.version - 10) + (a.close ? " close" : "") + " " + p.text + " -> " + std::to_string(m.status) + " " + m.why + " [" + srv::show(m.h).substr(0, 200) + "]";
    story += w;
    VH_CHECK(m.st == srv::message::complete, "malformed", w + " rest " + vh::esc(c.in(), 100));
    if (m.st != srv::message::complete) break;
    VH_CHECK(m.status == p.status, "status", w);
    VH_CHECK(m.version == (p.version == http::version::v1_0 ? 10 : 11), "version", w);
    VH_CHECK(group(m.h) == group(p.h), "headers", w + " want " + srv::show(p.h));
    bool body_allowed = !head && !is_null_status(p.status);
    VH_CHECK(m.body == (body_allowed ? p.body : ""), "body", w + " got " + std::to_string(m.body.size()) + " bytes");
    auto cl = m.get("content-length"), te = m.get("transfer-encoding");
    if (!is_null_status(p.status)) {
      if (p.form == plan::chunked && p.version == http::version::v1_1 && a.version == 11) VH_CHECK(te.size() == 1 && cl.empty(), "framing", w + " expected chunked");
      else VH_CHECK(te.empty() && cl == std::vector<std::string> { std::to_string(p.body.size()) }, "framing", w + " expected the length");
    } else VH_CHECK(te.empty(), "framing", w);
    // a client can tell whether the connection goes on
    VH_CHECK(m.close == a.close, "connection", w);
    vh::count(head ? "head-responses" : is_null_status(p.status) ? "null-responses" : p.form == plan::chunked ? "chunked-responses" : "sized-responses");
    if (a.close) {
      VH_CHECK(c.drain(10000) && c.in().empty(), "after-close", w + " rest " + vh::esc(c.in(), 100));
    }
  }
  if (!as.back().close) {
    c.pump(0);
    VH_CHECK(c.in().empty() && !c.eof(), "extra", story);
  }
  VH_CHECK(s.escaped == 0, "escaped-exception", story);
  {
    std::lock_guard l(g_mx);
    for (auto& a : as) g_plans.erase(a.id);
  }
  vh::seen(story);
  vh::sample(story);
}

// every other type a handler may return becomes the documented response
VH_SUITE("conversions", 120, 3000)
{
  auto& s = server();
  srv::client c(s.path);
  auto kind = r.one_of<std::string>({ "string", "bytes", "words", "custom", "expected", "variant" });
  plan p;
  p.body = r.bytes(r.chance(1, 8) ? 70000 + r.below(3000) : r.len(300));
  if (kind == "words") p.body.resize(p.body.size() / 4 * 4);
  p.status = int(r.one_of<int>({ 201, 202, 203, 400, 403, 404, 410, 502 }));
  p.throws = r.flip();
  std::string id = "c" + std::to_string(idx);
  {
    std::lock_guard l(g_mx);
    g_plans[id] = p;
  }
  enum { text, octets, custom_, direct } want = text;
  if (kind == "bytes" || kind == "words") want = octets;
  if (kind == "custom" || (kind == "expected" && p.throws)) want = custom_;
  if (kind == "variant") want = std::array { text, octets, custom_, direct }[std::size_t(p.status % 4)];
  c.send("GET /" + kind + " HTTP/1.1\r\nHost: h\r\nX-Plan: " + id + "\r\n\r\n");
  auto m = srv::next_response(c);
  auto w = kind + " " + std::to_string(want) + " " + std::to_string(p.status) + " body " + std::to_string(p.body.size()) + " -> " + std::to_string(m.status) + " " + srv::show(m.h);
  VH_CHECK(m.st == srv::message::complete && m.body == p.body, "conversion:body", w);
  VH_CHECK(m.status == (want == text || want == octets ? 200 : p.status), "conversion:status", w);
  auto g = group(m.h);
  std::map<std::string, std::vector<std::string>> wg;
  if (want == text) wg["content-type"] = { "text/plain" };
  if (want == octets) wg["content-type"] = { "application/octet-stream" };
  if (want == custom_) wg["x-custom"] = { "yes" };
  if (want == direct) wg["x-direct"] = { "yes" };
  VH_CHECK(g == wg, "conversion:headers", w);
  vh::seen(w);
  vh::count("conversions");
}

// bodies that fail half way never look complete
VH_SUITE("failing-bodies", 200, 6000)
{
  auto& s = server();
  auto p = make_plan(r, true);
  p.status = r.one_of<int>({ 200, 206, 404, 500 });
  ask a { "f" + std::to_string(idx), r.one_of<std::string>({ "GET", "POST" }), r.chance(1, 4) ? 10 : 11, r.flip() };
  {
    std::lock_guard l(g_mx);
    g_plans[a.id] = p;
  }
  int before = g_handler_exceptions;
  srv::client c(s.path);
  c.send(wire(a));
  // the next request must not be answered as if nothing had happened
  bool more = r.flip();
  auto ok = make_plan(r, false);
  {
    std::lock_guard l(g_mx);
    g_plans["next" + a.id] = ok;
  }
  if (more) c.send(wire({ "next" + a.id, "GET", 11, false }));
  bool closed = c.drain(10000);
  auto w = a.method + " 1." + std::to_string(a.version - 10) + " " + p.text;
  VH_CHECK(closed, "fail:not-closed", w);
  auto m = srv::parse_response(c.in(), false, true);
  VH_CHECK(m.st != srv::message::malformed, "fail:malformed", w + " " + m.why);
  VH_CHECK(m.st != srv::message::complete || m.status >= 500, "fail:looks-complete", w + " body " + std::to_string(m.body.size()) + " " + vh::esc(c.in(), 200));
  VH_CHECK(p.body.compare(0, m.body.size(), m.body) == 0 || m.status != p.status, "fail:wrong-bytes", w);
  for (int i = 0; i < 200 && g_handler_exceptions == before; ++i) ::usleep(5000);
  VH_CHECK(g_handler_exceptions > before, "fail:unreported", w);
  VH_CHECK(s.escaped == 0, "escaped-exception", w);
  {
    std::lock_guard l(g_mx);
    g_plans.erase(a.id);
    g_plans.erase("next" + a.id);
  }
  vh::seen(w);
  vh::count("failed-bodies");
}

int main(int argc, char** argv)
{
  vh::require("chunked-responses", 20);
  vh::require("head-responses", 20);
  vh::require("null-responses", 20);
  return vh::main(argc, argv);
}
