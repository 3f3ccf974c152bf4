// P30: encoded requests over a socket against what the inner handler sees.
#include "codec.hpp"
#include "srv.hpp"

namespace web = fitoria::web;
namespace http = fitoria::http;
using fitoria::awaitable;

namespace {

struct event {
  std::string id, how, method, param, query, content_type, extra;
  bool has_encoding = false;
  std::string encoding;
  std::string body;
  bool ended = false, error = false, stable = true, runaway = false;
};
std::mutex g_mx;
std::map<std::string, std::vector<event>> g_log;

std::string get(const http::header_map& h, std::string_view n)
{
  auto v = h.get(n);
  return v ? std::string(v->data(), v->size()) : "<none>";
}
event look(const web::request& req, std::string how)
{
  event e;
  e.how = how;
  e.id = get(req.headers(), "x-id");
  e.method = std::string(http::verb::get == req.method() ? "GET" : http::verb::post == req.method() ? "POST" : http::verb::put == req.method() ? "PUT" : "?");
  auto p = req.path().get("p");
  e.param = p ? std::string(*p) : "<none>";
  auto q = req.query().get("q");
  e.query = q ? std::string(*q) : "<none>";
  e.content_type = get(req.headers(), "content-type");
  e.extra = get(req.headers(), "x-extra");
  e.has_encoding = req.headers().contains("content-encoding");
  e.encoding = get(req.headers(), "content-encoding");
  return e;
}
void put(const event& e)
{
  std::lock_guard l(g_mx);
  g_log[e.id].push_back(e);
}
awaitable<web::response> by_stream(web::request& req)
{
  auto e = look(req, "stream");
  auto d = co_await aio::drain(req.body(), 3000000);
  e.body = d.data;
  e.ended = d.ended;
  e.error = bool(d.error);
  e.stable = d.stable;
  e.runaway = d.runaway;
  put(e);
  co_return web::response::ok().set_body("seen");
}
awaitable<web::response> by_string(const web::request& req, std::string body)
{
  auto e = look(req, "string");
  e.body = std::move(body);
  e.ended = true;
  put(e);
  co_return web::response::ok().set_body("seen");
}
awaitable<web::response> by_bytes(const web::request& req, fitoria::bytes body)
{
  auto e = look(req, "bytes");
  e.body = aio::to_string(body);
  e.ended = true;
  put(e);
  co_return web::response::ok().set_body("seen");
}

srv::running& server()
{
  static srv::running s(
      [](web::http_server::builder b) {
        b.set_request_timeout(std::chrono::seconds(60));
        b.set_request_body_limit(64u << 20);
        b.set_exception_handler([](std::exception_ptr) {});
        b.serve(web::route::any<"/stream/{p}">(by_stream).use(web::middleware::decompress()));
        b.serve(web::scope<"/string">().use(web::middleware::decompress()).serve(web::route::any<"/{p}">(by_string)));
        b.serve(web::scope<"/bytes">().use(web::middleware::decompress()).serve(web::route::any<"/{p}">(by_bytes)));
        return b.build();
      },
      2);
  return s;
}

std::string random_case(vh::rng& r, std::string s)
{
  if (r.chance(1, 3))
    for (auto& c : s)
      if (r.flip()) c = char(std::toupper((unsigned char)c));
  return s;
}

std::atomic<long> g_id { 0 };

struct ask {
  std::string id, how, method, target, param, query, content_type, extra;
  std::vector<std::string> codings; // as listed
  std::vector<std::string> lines;   // header field values
  std::string wire_body;
  bool chunked = false;
  std::size_t cut = std::string::npos; // bytes of the body section that are sent
};

ask make(vh::rng& r)
{
  ask a;
  a.id = std::to_string(++g_id);
  a.how = r.one_of<std::string>({ "stream", "stream", "string", "bytes" });
  a.method = r.one_of<std::string>({ "POST", "PUT", "GET" });
  a.param = r.from("abcXYZ019", 1 + r.below(8));
  a.query = r.from("abcXYZ019", 1 + r.below(8));
  a.content_type = r.one_of<std::string>({ "text/plain", "application/octet-stream", "application/json", "x/y; z=\"w\"" });
  a.extra = r.from("abc;,= xyz019", 1 + r.below(20));
  while (a.extra.front() == ' ') a.extra[0] = 'a';
  while (a.extra.back() == ' ') a.extra.back() = 'a';
  return a;
}
// the list as one or more field lines
void set_lines(vh::rng& r, ask& a)
{
  std::string cur;
  for (std::size_t i = 0; i < a.codings.size(); ++i) {
    auto t = random_case(r, a.codings[i]);
    if (i == 0) cur = t;
    else if (r.chance(1, 4)) {
      a.lines.push_back(cur);
      cur = t;
    } else cur += r.one_of<std::string>({ ",", ", ", " , ", " ,", ",\t" }) + t;
  }
  if (!a.codings.empty()) a.lines.push_back(cur);
  if (a.lines.size() > 1) vh::count("several field lines");
}
std::string head_of(vh::rng& r, const ask& a)
{
  std::vector<std::string> f { "Host: h", "X-Id: " + a.id, "Content-Type: " + a.content_type, "X-Extra: " + a.extra };
  f.push_back(a.chunked ? "Transfer-Encoding: chunked" : "Content-Length: " + std::to_string(a.wire_body.size()));
  r.shuffle(f);
  auto at = r.below(f.size() + 1);
  for (auto& l : a.lines) {
    f.insert(f.begin() + long(at), random_case(r, "Content-Encoding") + ": " + l);
    at = at + 1 + r.below(f.size() - at);
  }
  std::string s = a.method + " /" + a.how + "/" + a.param + "?q=" + a.query + " HTTP/1.1\r\n";
  for (auto& l : f) s += l + "\r\n";
  return s + "\r\n";
}
std::string body_of(vh::rng& r, const ask& a)
{
  if (!a.chunked) return a.wire_body;
  std::string s;
  for (auto& c : aio::chop(r, a.wire_body, false)) {
    if (c.empty()) continue;
    char b[20];
    std::snprintf(b, sizeof b, "%zx\r\n", c.size());
    s += b + c + "\r\n";
  }
  return s + "0\r\n\r\n";
}
std::string show(const ask& a)
{
  std::string s = a.method + " " + a.how + (a.chunked ? " chunked" : " sized") + " body " + std::to_string(a.wire_body.size()) + " (" + vh::esc(a.wire_body.substr(0, 24)) + ") encodings";
  for (auto& l : a.lines) s += " [" + l + "]";
  if (a.cut != std::string::npos) s += " cut at " + std::to_string(a.cut);
  return s;
}

struct outcome {
  srv::message m;
  std::vector<event> ev;
};
outcome exchange(vh::rng& r, srv::client& c, const ask& a)
{
  auto h = head_of(r, a);
  auto b = body_of(r, a);
  if (a.cut != std::string::npos) b = b.substr(0, a.cut);
  auto text = h + b;
  for (auto& p : r.chance(1, 3) ? aio::chop(r, text, false) : std::vector<std::string> { text })
    if (!c.send(p)) break;
  if (a.cut != std::string::npos) c.half_close();
  outcome o;
  o.m = srv::next_response(c);
  std::lock_guard l(g_mx);
  o.ev = std::move(g_log[a.id]);
  g_log.erase(a.id);
  return o;
}

void same_request(const ask& a, const event& e, const std::string& what)
{
  VH_CHECK(e.how == a.how && e.method == a.method && e.param == a.param && e.query == a.query && e.content_type == a.content_type && e.extra == a.extra, "request-changed",
           what + " method " + e.method + " param " + e.param + " query " + e.query + " type " + e.content_type + " extra " + vh::esc(e.extra));
  VH_CHECK(!e.has_encoding, "encoding-visible", what + " handler sees Content-Encoding: " + e.encoding);
  VH_CHECK(!e.runaway, "endless-body", what);
}

codec::kind kind_of(const std::string& n) { return n == "deflate" ? codec::deflate : n == "gzip" ? codec::gzip : codec::brotli; }

std::string encode(vh::rng& r, std::string s, const std::vector<std::string>& list)
{
  for (auto& n : list)
    if (n != "identity") s = codec::pack(kind_of(n), s, int(r.below(10)), r.chance(1, 4) ? int(1 + r.below(2000)) : 0);
  return s;
}
std::vector<std::string> list_of(vh::rng& r)
{
  std::vector<std::string> v;
  for (auto n = r.chance(1, 2) ? 1 : 2 + r.below(3); n--;) v.push_back(r.one_of<std::string>({ "deflate", "gzip", "brotli", "deflate", "gzip", "brotli", "identity" }));
  return v;
}
std::string join(const std::vector<std::string>& v)
{
  std::string s;
  for (auto& x : v) s += (s.empty() ? "" : ",") + x;
  return s;
}

} // namespace

VH_SUITE("well-formed", 500, 12000)
{
  srv::client c(server().path);
  for (int i = 0; i < 4; ++i) {
    auto a = make(r);
    auto plain = codec::body(r, r.chance(1, 10) ? 200000 : 3000);
    if (!r.chance(1, 8)) a.codings = list_of(r);
    a.chunked = r.flip();
    a.wire_body = encode(r, plain, a.codings);
    set_lines(r, a);
    auto o = exchange(r, c, a);
    auto what = show(a);
    VH_CHECK(o.m.st == srv::message::complete && o.m.status == 200, "not-served", what + " status " + std::to_string(o.m.status) + " " + o.m.why + " " + vh::esc(o.m.body));
    VH_CHECK(o.ev.size() == 1, "handler-count", what + " ran " + std::to_string(o.ev.size()) + " times");
    if (o.ev.size() == 1) {
      auto& e = o.ev[0];
      same_request(a, e, what);
      VH_CHECK(e.ended && !e.error && e.stable, "not-ended", what);
      VH_CHECK(e.body == plain, "wrong-body", what + " handler got " + std::to_string(e.body.size()) + " bytes (" + vh::esc(e.body.substr(0, 40)) + "), plain " + std::to_string(plain.size()) + " bytes");
    }
    vh::count("list:" + std::to_string(a.codings.size()));
    for (auto& n : a.codings) vh::count("coding:" + n);
    vh::seen(join(a.codings) + "/" + std::to_string(plain.size()) + a.how + std::to_string(a.lines.size()));
    vh::sample(what);
    if (o.m.st != srv::message::complete || o.m.close) c = srv::client(server().path);
  }
}

VH_SUITE("unsupported", 150, 4000)
{
  srv::client c(server().path);
  auto a = make(r);
  a.codings = r.chance(1, 3) ? std::vector<std::string>() : list_of(r);
  auto bad = r.one_of<std::string>({ "zstd", "compress", "x-unknown", "gzipp", "gzi", "deflate2", "identityx", "brotl", "gzip;q=1", "aes128gcm", "*", "g zip" });
  a.codings.insert(a.codings.begin() + long(r.below(a.codings.size() + 1)), bad);
  a.wire_body = r.bytes(r.len(500));
  a.chunked = r.flip();
  set_lines(r, a);
  auto o = exchange(r, c, a);
  auto what = show(a);
  VH_CHECK(o.ev.empty(), "unsupported-handled", what + " reached the handler");
  VH_CHECK(o.m.status / 100 == 4, "unsupported-status", what + " status " + std::to_string(o.m.status) + " " + o.m.why);
  vh::count("unsupported");
  vh::seen("u" + join(a.codings));
}

VH_SUITE("damaged", 400, 12000)
{
  srv::client c(server().path);
  for (int i = 0; i < 3; ++i) {
    auto a = make(r);
    auto plain = codec::body(r, 2000);
    a.codings = r.chance(2, 3) ? std::vector<std::string> { r.one_of<std::string>({ "deflate", "gzip", "brotli" }) } : list_of(r);
    a.chunked = r.flip();
    auto z = encode(r, plain, a.codings);
    bool cut_wire = r.chance(1, 4);
    if (cut_wire) {
      a.wire_body = z;
    } else if (r.flip() && !z.empty()) {
      a.wire_body = z.substr(0, r.below(z.size()));
    } else if (!z.empty()) {
      for (auto n = 1 + r.below(3); n--;) z[r.chance(1, 4) ? z.size() - 1 - r.below(std::min<std::size_t>(8, z.size())) : r.below(z.size())] ^= char(1 << r.below(8));
      a.wire_body = z;
    }
    set_lines(r, a);
    if (cut_wire) {
      auto n = body_of(r, a).size();
      if (a.chunked) {
        // any chunking ends with the same five bytes
        a.cut = r.below(std::max<std::size_t>(1, std::min(n, z.size())));
      } else {
        if (n == 0) continue;
        a.cut = r.below(n);
      }
    }
    auto o = exchange(r, c, a);
    auto what = show(a);
    VH_CHECK(o.ev.size() <= 1, "handler-count", what + " ran " + std::to_string(o.ev.size()) + " times");
    // what an ideal decoder chain makes of it, each stage fed what the one before produced
    std::string cur = a.wire_body;
    bool complete = true, trailing = false;
    std::size_t stages = 0;
    auto last = codec::result::complete;
    for (auto it = a.codings.rbegin(); it != a.codings.rend(); ++it) {
      if (*it == "identity") continue;
      auto u = codec::unpack(kind_of(*it), cur);
      ++stages;
      if (u.st != codec::result::complete && !(cur.empty() && stages == 1)) complete = false;
      if (u.st == codec::result::complete && u.used != cur.size()) trailing = true;
      last = u.st;
      cur = u.data;
    }
    if (o.ev.size() == 1) {
      auto& e = o.ev[0];
      same_request(a, e, what);
      if (e.ended && !e.error) {
        vh::count("damaged:ended");
        if (a.cut != std::string::npos) {
          VH_CHECK(stages > 0 && e.body == plain, "cut-complete", what + " reached the handler as complete with " + std::to_string(e.body.size()) + " of " + std::to_string(plain.size()) + " bytes");
        } else if (stages == 1) {
          VH_CHECK(complete, "damaged-complete", what + " reached the handler as complete with " + std::to_string(e.body.size()) + " bytes");
          VH_CHECK(!complete || trailing || e.body == cur, "damaged-bytes", what + " " + std::to_string(e.body.size()) + " bytes, expected " + std::to_string(cur.size()));
        } else if (stages > 1) {
          VH_CHECK(trailing || a.wire_body.empty() || (last == codec::result::complete && e.body == cur), "damaged-complete", what + " reached the handler as complete with " + std::to_string(e.body.size()) + " bytes");
        } else {
          VH_CHECK(e.body == a.wire_body, "wrong-body", what);
        }
      } else {
        vh::count("damaged:error");
        VH_CHECK(!complete || a.cut != std::string::npos || trailing, "spurious-error", what);
      }
    } else if (o.m.status) {
      vh::count("damaged:refused");
      VH_CHECK(o.m.status / 100 >= 4, "damaged-status", what + " status " + std::to_string(o.m.status));
    }
    vh::seen("d" + join(a.codings) + std::to_string(plain.size()) + "/" + std::to_string(a.wire_body.size()));
    if (o.m.st != srv::message::complete || o.m.close || a.cut != std::string::npos) c = srv::client(server().path);
  }
}

int main(int argc, char** argv)
{
  for (auto* k : { "deflate", "gzip", "brotli", "identity" }) vh::require(std::string("coding:") + k, 50);
  vh::require("several field lines", 50);
  vh::require("unsupported", 20);
  vh::require("damaged:error", 50);
  vh::require("damaged:refused", 50);
  return vh::main(argc, argv);
}
