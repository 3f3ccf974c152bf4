// P24: exceptions thrown by handlers, extractors and middlewares.
#include "srv.hpp"

#include <fitoria/web/middleware/exception_handler.hpp>

namespace web = fitoria::web;
namespace http = fitoria::http;
namespace net = boost::asio;
using fitoria::awaitable;

namespace {

std::atomic<long> g_live { 0 };
struct guard { // lives in coroutine frames: must be destroyed exactly once
  guard() { ++g_live; }
  guard(const guard&) { ++g_live; }
  ~guard() { --g_live; }
};

struct custom_error {
  std::string id;
};
struct derived : std::runtime_error {
  using std::runtime_error::runtime_error;
};

std::mutex g_mx;
std::map<std::string, int> g_observed; // id -> times seen by the server's exception handler
std::map<std::string, int> g_runs;     // id -> handler runs
std::atomic<int> g_other { 0 };

void observe(std::exception_ptr p)
{
  if (!p) return;
  std::string id;
  try {
    std::rethrow_exception(p);
  } catch (const std::system_error& e) {
    // transport errors of connections are reported here as well
    std::string w = e.what();
    auto i = w.find("id=");
    if (i != w.npos) id = w.substr(i + 3, w.find(';', i) - i - 3);
  } catch (const std::exception& e) {
    std::string w = e.what();
    auto i = w.find("id=");
    if (i != w.npos) id = w.substr(i + 3, w.find(';', i) - i - 3);
  } catch (const custom_error& e) {
    id = e.id;
  } catch (long v) {
    id = "n" + std::to_string(v);
  } catch (...) {
    id = "?";
  }
  std::lock_guard l(g_mx);
  if (id.empty()) ++g_other;
  else ++g_observed[id];
}

[[noreturn]] void raise(const std::string& how, const std::string& id)
{
  if (how == "runtime") throw std::runtime_error("id=" + id + ";");
  if (how == "derived") throw derived("id=" + id + ";");
  if (how == "system") throw std::system_error(std::make_error_code(std::errc::io_error), "id=" + id + ";");
  if (how == "boost") throw boost::system::system_error(net::error::make_error_code(net::error::eof), "id=" + id + ";");
  if (how == "custom") throw custom_error { id };
  throw std::stol(id.substr(1));
}

std::string hdr(web::request& req, const char* n) { return std::string(req.headers().get(n).value_or("")); }

awaitable<void> maybe_suspend(web::request& req)
{
  if (hdr(req, "x-suspend") == "1") {
    auto t = net::steady_timer(co_await net::this_coro::executor);
    t.expires_after(std::chrono::milliseconds(1));
    co_await t.async_wait(fitoria::use_awaitable);
  }
}

awaitable<void> deep(web::request& req, int n, std::string how, std::string id)
{
  guard g;
  if (n > 0) co_await deep(req, n - 1, how, id);
  else {
    co_await maybe_suspend(req);
    raise(how, id);
  }
}

awaitable<web::response> serve(web::request& req)
{
  guard g;
  auto id = hdr(req, "x-id"), how = hdr(req, "x-how"), where = hdr(req, "x-where");
  {
    std::lock_guard l(g_mx);
    ++g_runs[id];
  }
  if (where == "first") {
    co_await maybe_suspend(req);
    raise(how, id);
  }
  auto d = co_await aio::drain(req.body(), 1000);
  if (where == "after-body") {
    co_await maybe_suspend(req);
    raise(how, id);
  }
  if (where == "deep") co_await deep(req, 5, how, id);
  co_return web::response::ok().set_header("x-id", id).set_body(d.data);
}

// an extractor that throws or fails
struct arg {
  std::string id;
  friend auto tag_invoke(web::from_request_t<arg>, web::request& req) -> awaitable<fitoria::expected<arg, web::response>>
  {
    guard g;
    auto id = hdr(req, "x-id"), how = hdr(req, "x-how"), where = hdr(req, "x-where");
    co_await maybe_suspend(req);
    if (where == "extractor") raise(how, id);
    if (where == "extractor-error") co_return fitoria::unexpected { web::response::forbidden().set_header("x-id", id).set_body("refused") };
    co_return arg { id };
  }
};
awaitable<web::response> serve_arg(arg a, std::string body)
{
  guard g;
  {
    std::lock_guard l(g_mx);
    ++g_runs[a.id];
  }
  co_return web::response::ok().set_header("x-id", a.id).set_body(body);
}

// to_response that throws
struct bad_result {
  std::string how, id;
};
web::response tag_invoke(web::to_response_t, const bad_result& b)
{
  if (!b.how.empty()) raise(b.how, b.id);
  return web::response::ok().set_header("x-id", b.id).set_body("fine");
}
awaitable<bad_result> serve_bad(web::request& req)
{
  guard g;
  auto id = hdr(req, "x-id");
  {
    std::lock_guard l(g_mx);
    ++g_runs[id];
  }
  co_return bad_result { hdr(req, "x-where") == "to_response" ? hdr(req, "x-how") : "", id };
}

// a middleware that throws before or after the inner service
template <class Request, class Response, class Next>
class thrower_mw {
public:
  Next next_;
  auto operator()(Request req) const -> Response
  {
    guard g;
    auto id = hdr(req, "x-id"), how = hdr(req, "x-how"), where = hdr(req, "x-where");
    if (where == "mw-before") {
      co_await maybe_suspend(req);
      raise(how, id);
    }
    auto res = co_await next_(req);
    if (where == "mw-after") {
      co_await maybe_suspend(req);
      raise(how, id);
    }
    co_return res;
  }
};
struct thrower {
  template <class Request, class Response, class Next>
  friend auto tag_invoke(web::to_middleware_t<Request, Response>, const thrower&, Next&& next)
  {
    return thrower_mw<Request, Response, std::decay_t<Next>> { std::forward<Next>(next) };
  }
};

srv::running& server()
{
  static srv::running s(
      [](web::http_server::builder b) {
        b.set_request_timeout(std::chrono::seconds(60));
        b.set_exception_handler(observe);
        b.serve(web::scope<"/plain">().use(thrower()).serve(web::route::any<"/h">(serve)).serve(web::route::any<"/a">(serve_arg)).serve(web::route::any<"/b">(serve_bad)));
        b.serve(web::scope<"/safe">()
                    .use(web::middleware::exception_handler())
                    .use(thrower())
                    .serve(web::route::any<"/h">(serve))
                    .serve(web::route::any<"/a">(serve_arg))
                    .serve(web::route::any<"/b">(serve_bad)));
        // the exception handler covers only what is inside it
        b.serve(web::scope<"/inner">().use(thrower()).use(web::middleware::exception_handler()).serve(web::route::any<"/h">(serve)).serve(web::route::any<"/a">(serve_arg)).serve(web::route::any<"/b">(serve_bad)));
        return b.build();
      },
      2);
  return s;
}

const char* wheres[] = { "none", "first", "after-body", "deep", "extractor", "extractor-error", "to_response", "mw-before", "mw-after" };
const char* hows[] = { "runtime", "derived", "system", "boost", "custom", "long" };

long open_fds()
{
  long n = 0;
  for ([[maybe_unused]] auto& e : std::filesystem::directory_iterator("/proc/self/fd")) ++n;
  return n;
}

struct step {
  std::string id, scope, target, where, how, body, raw;
  bool fires = false, caught = false, refused = false;
};

step make_step(vh::rng& r, const std::string& id)
{
  step s;
  s.id = id;
  s.scope = r.one_of<std::string>({ "plain", "safe", "safe", "inner" });
  s.target = r.one_of<std::string>({ "h", "a", "b" });
  s.where = r.pick(wheres);
  s.how = r.pick(hows);
  bool h = s.target == "h", a = s.target == "a", b = s.target == "b";
  bool mw = s.where == "mw-before" || s.where == "mw-after";
  s.fires = mw || (h && (s.where == "first" || s.where == "after-body" || s.where == "deep")) || (a && s.where == "extractor") || (b && s.where == "to_response");
  s.refused = a && s.where == "extractor-error";
  s.caught = s.scope == "safe" || (s.scope == "inner" && !mw);
  s.body = r.bytes(r.chance(1, 8) ? 70000 : r.len(100));
  bool with_body = r.chance(2, 3);
  if (!with_body) s.body.clear();
  s.raw = std::string(with_body ? "POST" : "GET") + " /" + s.scope + "/" + s.target + " HTTP/1.1\r\nHost: h\r\nX-Id: " + id + "\r\nX-Where: " + s.where + "\r\nX-How: " + s.how
      + "\r\nX-Suspend: " + (r.flip() ? "1" : "0") + "\r\n" + (with_body ? "Content-Length: " + std::to_string(s.body.size()) + "\r\n" : "") + "\r\n" + s.body;
  return s;
}

} // namespace

VH_SUITE("exceptions", 400, 12000)
{
  auto& s = server();
  // two connections in turn: one must not notice the other's exception
  srv::client c[2] = { srv::client(s.path), srv::client(s.path) };
  std::vector<step> done;
  std::string story;
  auto n = 2 + r.below(8);
  for (std::size_t i = 0; i < n; ++i) {
    auto k = r.below(2);
    auto st = make_step(r, "n" + std::to_string(idx * 100 + long(i) + 1));
    auto w = "conn " + std::to_string(k) + " /" + st.scope + "/" + st.target + " " + st.where + " " + st.how + " body " + std::to_string(st.body.size());
    story += w + "; ";
    c[k].send(st.raw);
    auto m = srv::next_response(c[k]);
    auto ww = w + " -> " + std::to_string(m.status) + " " + m.why + " in " + story;
    if (st.fires && !st.caught) {
      // no response, the connection is closed
      VH_CHECK(m.st == srv::message::incomplete && c[k].eof() && c[k].in().empty(), "uncaught:not-closed", ww);
      c[k] = srv::client(s.path);
      VH_CHECK(bool(c[k]), "uncaught:server-gone", ww);
      vh::count("uncaught");
    } else if (st.fires) {
      VH_CHECK(m.st == srv::message::complete && m.status == 500 && m.body.empty(), "caught:response", ww);
      VH_CHECK(!m.close, "caught:close", ww);
      vh::count("caught");
    } else if (st.refused) {
      VH_CHECK(m.st == srv::message::complete && m.status == 403 && m.get("x-id") == std::vector<std::string> { st.id } && m.body == "refused", "refused", ww);
      vh::count("refused");
    } else {
      std::string want = st.target == "b" ? "fine" : st.body;
      VH_CHECK(m.st == srv::message::complete && m.status == 200 && m.get("x-id") == std::vector<std::string> { st.id } && m.body == want, "normal", ww);
      vh::count("normal");
    }
    if (m.st == srv::message::incomplete && !(st.fires && !st.caught)) return;
    done.push_back(st);
  }
  for (auto& x : c) {
    x.pump(0);
    VH_CHECK(x.in().empty(), "extra-response", story + vh::esc(x.in()));
  }
  // observed exactly once each
  for (auto& st : done) {
    int want = st.fires && !st.caught ? 1 : 0;
    auto seen = [&] {
      std::lock_guard l(g_mx);
      auto it = g_observed.find(st.id);
      return it == g_observed.end() ? 0 : it->second;
    };
    for (int i = 0; i < 1000 && seen() < want; ++i) ::usleep(2000);
    VH_CHECK(seen() == want, "observed", "seen " + std::to_string(seen()) + " times: /" + st.scope + "/" + st.target + " " + st.where + " " + st.how);
    std::lock_guard l(g_mx);
    int runs = g_runs[st.id];
    bool should_run = st.where != "mw-before" && !(st.target == "a" && (st.where == "extractor" || st.where == "extractor-error"));
    VH_CHECK(runs == (should_run ? 1 : 0), "runs", std::to_string(runs) + " runs: /" + st.scope + "/" + st.target + " " + st.where);
  }
  VH_CHECK(s.escaped == 0, "escaped-exception", story);
  // nothing is left over
  for (int i = 0; i < 1000 && g_live != 0; ++i) ::usleep(2000);
  VH_CHECK(g_live == 0, "leaked-frames", std::to_string(g_live) + " after " + story);
  {
    std::lock_guard l(g_mx);
    VH_CHECK(!g_observed.contains("?"), "observed-unknown", story);
    g_runs.clear();
    g_observed.clear();
  }
  vh::seen(story);
  vh::sample(story);
}

// connections ended by an exception do not leave their socket behind
VH_SUITE("descriptors", 4, 60)
{
  auto& s = server();
  for (int i = 0; i < 500 && open_fds() > 40; ++i) ::usleep(2000);
  auto before = open_fds();
  for (int k = 0; k < 40; ++k) {
    srv::client c(s.path);
    auto st = make_step(r, "n" + std::to_string(900000000 + idx * 1000 + k));
    c.send(st.raw);
    auto m = srv::next_response(c);
    if (r.flip()) c.reset();
  }
  long after = 0;
  for (int i = 0; i < 2500; ++i) {
    after = open_fds();
    if (after <= before) break;
    ::usleep(2000);
  }
  VH_CHECK(after <= before, "descriptor-leak", std::to_string(before) + " -> " + std::to_string(after));
  VH_CHECK(g_live == 0, "leaked-frames", std::to_string(g_live));
  VH_CHECK(s.escaped == 0, "escaped-exception", "descriptors");
  vh::seen(std::to_string(r.u64()));
  vh::count("descriptor-rounds");
}

// the server without any handler set keeps serving too
VH_SUITE("default-handler", 60, 1500)
{
  static srv::running s(
      [](web::http_server::builder b) {
        b.serve(web::route::any<"/h">(serve));
        return b.build();
      },
      1);
  auto st = make_step(r, "n" + std::to_string(idx + 1));
  st.where = r.one_of<std::string>({ "first", "after-body", "deep" });
  std::string raw = "GET /h HTTP/1.1\r\nHost: h\r\nX-Id: " + st.id + "\r\nX-Where: " + st.where + "\r\nX-How: " + st.how + "\r\nX-Suspend: " + (r.flip() ? "1" : "0") + "\r\n\r\n";
  srv::client c(s.path);
  c.send(raw);
  auto m = srv::next_response(c);
  VH_CHECK(m.st == srv::message::incomplete && c.eof() && c.in().empty(), "default:not-closed", st.where + " " + st.how + " " + std::to_string(m.status));
  VH_CHECK(s.escaped == 0, "escaped-exception", st.where + " " + st.how);
  srv::client d(s.path);
  d.send("GET /h HTTP/1.1\r\nHost: h\r\nX-Id: n1\r\nX-Where: none\r\n\r\n");
  auto k = srv::next_response(d);
  VH_CHECK(k.status == 200, "default:server-gone", st.where + " " + st.how);
  std::lock_guard l(g_mx);
  g_runs.clear();
  vh::seen(st.where + st.how + std::to_string(r.below(100)));
  vh::count("default");
}

// in process: an exception reaches nobody else and leaks nothing
VH_SUITE("in-process", 40, 1000)
{
  net::io_context ioc;
  auto b = web::http_server::builder(ioc);
  b.serve(web::route::any<"/h">(serve));
  b.serve(web::scope<"/safe">().use(web::middleware::exception_handler()).serve(web::route::any<"/h">(serve)));
  auto server = b.build();
  auto how = std::string(r.pick(hows));
  auto where = r.one_of<std::string>({ "first", "after-body", "deep" });
  auto req = [&](const std::string& w) {
    return web::test_request::post().set_header("x-id", "n7").set_header("x-how", how).set_header("x-where", w).set_header("x-suspend", r.flip() ? "1" : "0").set_body("abc");
  };
  bool threw = false;
  srv::reply rep;
  try {
    rep = srv::call(server, ioc, "/safe/h", req(where));
  } catch (...) {
    threw = true;
  }
  VH_CHECK(!threw && rep.delivered && rep.status == 500 && rep.body.empty(), "in-process:caught", how + where);
  try {
    rep = srv::call(server, ioc, "/h", req(where));
  } catch (...) {
    threw = true;
  }
  VH_CHECK(!rep.delivered, "in-process:response", how + where);
  VH_CHECK(!threw, "in-process:escaped", how + where);
  rep = srv::call(server, ioc, "/h", req("none"));
  VH_CHECK(rep.delivered && rep.status == 200 && rep.body == "abc", "in-process:next", how + where);
  std::lock_guard l(g_mx);
  g_runs.clear();
  vh::seen(where + how + std::to_string(r.below(100)));
  vh::count("in-process");
}

int main(int argc, char** argv)
{
  vh::require("uncaught", 20);
  vh::require("caught", 20);
  return vh::main(argc, argv);
}
