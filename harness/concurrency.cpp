// P27: many connections on many threads, watched by a race detector and by a
// per-client oracle; stops at random moments.
#include "ws.hpp"

#include <dirent.h>
#include <fitoria/log.hpp>

namespace web = fitoria::web;
namespace http = fitoria::http;
namespace net = boost::asio;
using fitoria::awaitable;

namespace {

struct shared_state {
  std::atomic<long> requests { 0 };
  std::mutex mx;
  std::map<std::string, int> seen; // request id -> handler runs
};
using shared = std::shared_ptr<shared_state>;

std::atomic<long> g_live { 0 };
std::atomic<long> g_id { 0 };
std::atomic<long> g_exceptions { 0 };
std::atomic<long> g_overlap { 0 }; // handlers seen running at the same time
struct guard {
  guard()
  {
    if (++g_live > 1) ++g_overlap;
  }
  guard(const guard&) = delete;
  ~guard() { --g_live; }
};

awaitable<void> hop() { co_await net::post(co_await net::this_coro::executor, net::use_awaitable_t<fitoria::executor_type> {}); }
awaitable<void> nap(int us)
{
  net::basic_waitable_timer<std::chrono::steady_clock, net::wait_traits<std::chrono::steady_clock>, fitoria::executor_type> t(co_await net::this_coro::executor);
  t.expires_after(std::chrono::microseconds(us));
  co_await t.async_wait(net::use_awaitable_t<fitoria::executor_type> {});
}
awaitable<void> pause(unsigned long how)
{
  switch (how % 5) {
  case 0: co_await hop(); break;
  case 1: co_await nap(int(how / 5 % 800)); break;
  case 2:
    co_await hop();
    co_await hop();
    break;
  default: break;
  }
}
std::string answer(std::string_view id, std::string_view body) { return std::string(id) + "|" + std::to_string(vh::hash(body)) + "|" + std::string(body); }

std::string header(const web::request& req, std::string_view n)
{
  auto v = req.headers().get(n);
  return v ? std::string(v->data(), v->size()) : std::string();
}
void arrived(web::request& req)
{
  auto st = req.state<shared>();
  if (!st) return;
  ++(*st)->requests;
  std::lock_guard l((*st)->mx);
  ++(*st)->seen[header(req, "x-id")];
}

awaitable<web::response> echo(web::request& req)
{
  guard g;
  arrived(req);
  auto id = header(req, "x-id");
  auto p = std::strtoul(header(req, "x-pause").c_str(), nullptr, 10);
  co_await pause(p);
  auto d = co_await aio::drain(req.body(), 1000000);
  co_await pause(p / 7);
  if (d.error) co_return web::response::bad_request().set_body("cut");
  co_return web::response::ok().set_header("x-id", id).set_body(answer(id, d.data));
}
awaitable<web::response> stream(web::request& req, std::string body)
{
  guard g;
  arrived(req);
  auto id = header(req, "x-id");
  auto sc = std::make_shared<aio::script>();
  auto a = answer(id, body);
  for (std::size_t i = 0; i < a.size(); i += 97) sc->chunks.push_back(a.substr(i, 97));
  sc->suspend = true;
  co_return web::response::ok().set_header("x-id", id).set_stream_body(aio::source(sc));
}
struct named {
  std::string a, b;
};
awaitable<web::response> params(web::request& req, web::path_of<named> p, web::state_of<shared> st)
{
  guard g;
  arrived(req);
  auto id = header(req, "x-id");
  co_await pause(std::strtoul(header(req, "x-pause").c_str(), nullptr, 10));
  bool same = st.get() != nullptr;
  auto v = req.query().get("q");
  co_return web::response::ok().set_header("x-id", id).set_body(answer(id, p.a + "," + p.b + "," + (v ? std::string(*v) : "") + (same ? "" : "!")));
}
awaitable<web::response> throws(web::request& req)
{
  guard g;
  arrived(req);
  co_await pause(std::strtoul(header(req, "x-pause").c_str(), nullptr, 10));
  throw std::runtime_error("planned");
}
awaitable<void> ws_session(web::websocket::context& ctx, shared st)
{
  guard g;
  for (;;) {
    auto m = co_await ctx.async_read();
    if (!m || std::holds_alternative<web::websocket::close_t>(*m)) co_return;
    if (auto* t = std::get_if<web::websocket::text_t>(&*m)) {
      ++st->requests;
      if (!co_await ctx.async_write_text(answer("ws", t->value))) co_return;
    }
  }
}
awaitable<web::response> ws_route(web::websocket ws, web::state_of<shared> st)
{
  shared s = st;
  co_return ws.set_handler([s](web::websocket::context& c) { return ws_session(c, s); });
}

template <class B>
auto configure(B b, shared st, std::optional<std::chrono::milliseconds> timeout)
{
  if (timeout) b.set_request_timeout(*timeout);
  else b.set_request_timeout(fitoria::nullopt);
  b.set_exception_handler([](std::exception_ptr p) {
    if (p) ++g_exceptions;
  });
  b.serve(web::scope<"">()
              .use_state(st)
              .use(web::middleware::logger())
              .use(web::middleware::decompress())
              .serve(web::route::any<"/echo">(echo))
              .serve(web::route::post<"/stream">(stream))
              .serve(web::route::any<"/p/{a}/{b}">(params))
              .serve(web::route::any<"/ws">(ws_route))
              .serve(web::route::any<"/throws">(throws))
              .serve(web::route::any<"/caught">(throws).use(web::middleware::exception_handler())));
  return b.build();
}

// a context run by several threads: thread pool (as documented) or io_context
struct host {
  virtual ~host() = default;
  virtual fitoria::executor_type ex() = 0;
  virtual void stop() = 0;
};
struct pool_host : host {
  net::static_thread_pool tp;
  explicit pool_host(std::size_t n)
      : tp(n)
  {
  }
  fitoria::executor_type ex() override { return tp.get_executor(); }
  void stop() override
  {
    tp.stop();
    tp.join();
  }
};
struct ioc_host : host {
  net::io_context ioc;
  net::executor_work_guard<net::io_context::executor_type> work { ioc.get_executor() };
  std::vector<std::thread> ts;
  explicit ioc_host(std::size_t n)
      : ioc(int(n))
  {
    for (std::size_t i = 0; i < n; ++i)
      ts.emplace_back([this] {
        for (;;) {
          try {
            ioc.run();
            return;
          } catch (...) {
            vh::fail("escaped-exception", "an exception left the server");
          }
        }
      });
  }
  ~ioc_host() override { stop(); }
  fitoria::executor_type ex() override { return ioc.get_executor(); }
  void stop() override
  {
    ioc.stop();
    for (auto& t : ts) t.join();
    ts.clear();
  }
};
std::unique_ptr<host> make_host(vh::rng& r)
{
  auto n = 1 + r.below(8);
  vh::count("threads", n);
  if (r.flip()) return std::make_unique<pool_host>(n);
  return std::make_unique<ioc_host>(n);
}

struct app {
  srv::tmpdir dir;
  std::string path;
  shared st = std::make_shared<shared_state>();
  std::unique_ptr<host> h;
  std::unique_ptr<web::http_server> server;
  std::uint16_t port = 0;
  app(vh::rng& r, std::optional<std::chrono::milliseconds> timeout)
      : path((dir.p / "s").string())
      , h(make_host(r))
  {
    server.reset(new web::http_server(configure(web::http_server::builder(h->ex()), st, timeout)));
    if (!server->bind_local(path)) vh::fail("srv:bind", "bind_local failed");
    for (int i = 0; i < 100 && !port; ++i) {
      auto p = std::uint16_t(20000 + r.below(20000));
      if (server->bind("127.0.0.1", p)) port = p;
    }
  }
  srv::client dial(vh::rng& r) { return r.chance(1, 3) && port ? srv::client(port) : srv::client(path); }
};

struct ask {
  std::string id, text, expect;
  bool throws = false, caught = false, close = false;
};
ask make(vh::rng& r, bool may_throw)
{
  ask a;
  a.id = std::to_string(++g_id);
  std::string body = r.bytes(r.chance(1, 20) ? 20000 + r.below(60000) : r.len(400));
  std::string h = "Host: h\r\nX-Id: " + a.id + "\r\nX-Pause: " + std::to_string(r.below(4000)) + "\r\n";
  a.close = r.chance(1, 12);
  if (a.close) h += "Connection: close\r\n";
  auto with_body = [&](std::string line) {
    if (r.flip()) return line + h + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    auto s = line + h + "Transfer-Encoding: chunked\r\n\r\n";
    for (auto& c : aio::chop(r, body, false)) {
      char b[20];
      std::snprintf(b, sizeof b, "%zx\r\n", c.size());
      s += b + c + "\r\n";
    }
    return s + "0\r\n\r\n";
  };
  auto kind = r.below(may_throw ? 10 : 8);
  if (kind < 3) {
    a.text = with_body("POST /echo HTTP/1.1\r\n");
    a.expect = answer(a.id, body);
  } else if (kind < 5) {
    body = std::string(r.below(800), char('a' + r.below(26)));
    a.text = with_body("POST /stream HTTP/1.1\r\n");
    a.expect = answer(a.id, body);
  } else if (kind < 8) {
    auto x = r.from("abcdef", 1 + r.below(20)), y = r.from("xyz0", 1 + r.below(20)), q = r.from("pqr", 1 + r.below(10));
    a.text = "GET /p/" + x + "/" + y + "?q=" + q + " HTTP/1.1\r\n" + h + "\r\n";
    a.expect = answer(a.id, x + "," + y + "," + q);
  } else {
    a.caught = r.flip();
    a.throws = !a.caught;
    a.text = std::string("GET /") + (a.caught ? "caught" : "throws") + " HTTP/1.1\r\n" + h + "\r\n";
  }
  return a;
}

// one client's life: connections one after another, some pipelined
struct tally {
  long answered = 0;
  std::set<std::string> ids; // answered
};
void client_life(vh::rng r, app& a, int requests, bool may_throw, tally& t)
{
  auto c = a.dial(r);
  int done = 0;
  while (done < requests) {
    if (!c) {
      vh::fail("connect", "the server does not accept");
      return;
    }
    std::vector<ask> batch;
    for (auto n = 1 + r.below(r.chance(1, 3) ? 5 : 1); n--;) {
      batch.push_back(make(r, may_throw));
      if (batch.back().close || batch.back().throws) break;
    }
    std::string all;
    for (auto& q : batch) all += q.text;
    if (r.chance(1, 6))
      for (auto& p : aio::chop(r, all, false)) c.send(p);
    else c.send(all);
    for (auto& q : batch) {
      ++done;
      auto m = srv::next_response(c, false, 30000);
      if (q.throws) {
        VH_CHECK(m.st != srv::message::complete && c.in().empty() && c.drain(30000), "throw-answered", "status " + std::to_string(m.status));
        t.ids.insert(q.id);
        break;
      }
      bool ok = m.st == srv::message::complete && (q.caught ? m.status == 500 : m.status == 200 && m.body == q.expect && m.get("x-id") == std::vector<std::string> { q.id });
      VH_CHECK(ok, "foreign-or-wrong-response", "request " + q.id + " " + vh::esc(q.text.substr(0, 60)) + " got " + std::to_string(m.status) + " " + m.why + " " + srv::show(m.h).substr(0, 200) + " " + vh::esc(m.body.substr(0, 60)) + " expected " + vh::esc(q.expect.substr(0, 60)));
      if (!ok) return;
      t.ids.insert(q.id);
      ++t.answered;
      if (m.close) break;
    }
    if (batch.back().close || batch.back().throws || r.chance(1, 10)) {
      if (r.chance(1, 5)) c.reset();
      c = a.dial(r);
    }
  }
}
void ws_life(vh::rng r, app& a, int messages, std::atomic<long>& count)
{
  auto c = a.dial(r);
  auto k = ws::b64(r.bytes(16));
  c.send("GET /ws HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + k + "\r\nSec-WebSocket-Version: 13\r\n\r\n");
  auto m = srv::next_response(c, false, 30000);
  if (m.status != 101) {
    vh::fail("not-upgraded", "status " + std::to_string(m.status));
    return;
  }
  ws::inbox in;
  for (int i = 0; i < messages; ++i) {
    std::string s = std::to_string(++g_id) + std::string(r.len(300), 'm');
    c.send(ws::encode(r, { true, 0, 1, true, s }));
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(30);
    while (in.messages.size() <= std::size_t(i) && !c.eof() && std::chrono::steady_clock::now() < end) {
      in.absorb(c.in());
      if (in.messages.size() <= std::size_t(i)) c.pump(50);
    }
    bool ok = in.messages.size() == std::size_t(i) + 1 && in.messages.back().data == answer("ws", s);
    VH_CHECK(ok, "foreign-or-wrong-message", in.bad);
    if (!ok) return;
    ++count;
  }
  if (r.flip()) c.send(ws::encode(r, { true, 0, 8, true, std::string("\x03\xe8", 2) }));
  else if (r.flip()) c.reset();
}

std::size_t open_fds()
{
  std::size_t n = 0;
  if (auto* d = ::opendir("/proc/self/fd")) {
    while (::readdir(d)) ++n;
    ::closedir(d);
  }
  return n;
}

std::string show_fds()
{
  std::string s;
  for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) {
    std::error_code ec;
    auto t = std::filesystem::read_symlink(e.path(), ec);
    if (!ec) s += e.path().filename().string() + "=" + t.string() + " ";
  }
  return s;
}

// everything the connections held is given back
void released(app& a, std::size_t base)
{
  // what still waits to be accepted is accepted before these
  for (int i = 0; i < 2; ++i) {
    auto c = i && a.port ? srv::client(a.port) : srv::client(a.path);
    c.send("GET /p/x/y HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n");
    auto m = srv::next_response(c, false, 30000);
    (void)m;
  }
  std::size_t open = 0;
  for (auto end = std::chrono::steady_clock::now() + std::chrono::seconds(40); std::chrono::steady_clock::now() < end;
       std::this_thread::sleep_for(std::chrono::milliseconds(2))) {
    open = open_fds();
    if (open <= base && g_live == 0) {
      vh::count("all-released");
      return;
    }
  }
  VH_CHECK(open <= base, "descriptor-leak", std::to_string(open) + " open, " + std::to_string(base) + " before: " + show_fds());
  VH_CHECK(g_live == 0, "handler-leak", std::to_string(g_live));
}

bool tsan()
{
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
  return true;
#endif
#endif
  return false;
}

} // namespace

// every client sees its own answers, every request is handled exactly once
VH_SUITE("isolation", 96, 600)
{
  app a(r, r.flip() ? std::optional(std::chrono::milliseconds(20000)) : std::nullopt);
  auto base = open_fds();
  auto overlap = g_overlap.load();
  auto n = 2 + r.below(10);
  bool may_throw = r.flip();
  std::vector<tally> t(n);
  std::atomic<long> wsmsgs { 0 };
  std::vector<std::thread> ts;
  auto per = int(10 + r.below(tsan() ? 25 : 40));
  for (std::size_t i = 0; i < n; ++i) ts.emplace_back(client_life, vh::rng(r.u64()), std::ref(a), per, may_throw, std::ref(t[i]));
  auto w = r.below(4);
  for (std::size_t i = 0; i < w; ++i) ts.emplace_back(ws_life, vh::rng(r.u64()), std::ref(a), per, std::ref(wsmsgs));
  for (auto& x : ts) x.join();
  std::set<std::string> all;
  for (auto& x : t) all.insert(x.ids.begin(), x.ids.end());
  {
    std::lock_guard l(a.st->mx);
    std::size_t twice = 0, lost = 0;
    for (auto& [id, k] : a.st->seen)
      if (k != 1) ++twice;
    for (auto& id : all)
      if (!a.st->seen.count(id)) ++lost;
    VH_CHECK(twice == 0, "handled-twice", std::to_string(twice) + " requests");
    VH_CHECK(lost == 0, "answered-unhandled", std::to_string(lost) + " requests");
    VH_CHECK(a.st->requests == long(a.st->seen.size()) + wsmsgs, "state-lost-updates", std::to_string(a.st->requests) + " counted, " + std::to_string(a.st->seen.size()) + " seen, " + std::to_string(wsmsgs));
    vh::count("requests", a.st->seen.size());
    vh::count("ws-messages", std::size_t(wsmsgs));
    std::string order;
    for (auto& x : t) order += std::to_string(x.answered) + ",";
    vh::seen(order + std::to_string(g_overlap.load()));
  }
  vh::count("overlapping-handlers", std::size_t(g_overlap - overlap));
  // everything a connection held is released
  released(a, base);
  a.h->stop();
}

// timers of the server firing against the traffic they guard
VH_SUITE("timeouts", 40, 300)
{
  int ms = int(r.one_of<long>({ 5, 10, 20, 40 }));
  app a(r, std::chrono::milliseconds(ms));
  auto base = open_fds();
  auto n = 4 + r.below(8);
  std::vector<std::thread> ts;
  std::atomic<long> answered { 0 }, cut { 0 };
  for (std::size_t i = 0; i < n; ++i)
    ts.emplace_back([&, seed = r.u64()] {
      vh::rng q(seed);
      for (int k = 0; k < 12; ++k) {
        auto c = a.dial(q);
        auto x = make(q, false);
        // the rest arrives around the moment the time is over
        auto at = q.below(x.text.size());
        c.send(std::string_view(x.text).substr(0, at));
        std::this_thread::sleep_for(std::chrono::microseconds(q.below(std::size_t(ms) * 2000)));
        c.send(std::string_view(x.text).substr(at));
        auto m = srv::next_response(c, false, 30000);
        if (m.st == srv::message::complete) {
          if (m.status == 200) {
            ++answered;
            VH_CHECK(m.body == x.expect, "foreign-or-wrong-response", "request " + x.id + " got " + vh::esc(m.body.substr(0, 60)));
          } else ++cut;
        } else {
          ++cut;
          VH_CHECK(c.eof(), "stuck-connection", "neither answered nor closed");
        }
      }
    });
  for (auto& x : ts) x.join();
  vh::count("timeouts:answered", std::size_t(answered));
  vh::count("timeouts:cut", std::size_t(cut));
  released(a, base);
  vh::seen(std::to_string(ms) + "/" + std::to_string(answered) + "/" + std::to_string(cut));
  a.h->stop();
}

// the context is stopped and destroyed at any moment
VH_SUITE("stop", 96, 600)
{
  auto base = open_fds();
  std::atomic<bool> over { false };
  std::atomic<long> answered { 0 };
  std::vector<std::thread> ts;
  {
    app a(r, r.flip() ? std::optional(std::chrono::milliseconds(30)) : std::nullopt);
    auto n = 2 + r.below(6);
    for (std::size_t i = 0; i < n; ++i)
      ts.emplace_back([&over, &answered, path = a.path, seed = r.u64()] {
        vh::rng q(seed);
        while (!over) {
          srv::client c(path);
          if (!c) return;
          for (int k = 0; k < 5 && !over; ++k) {
            auto x = make(q, true);
            if (q.chance(1, 8)) x.text.resize(q.below(x.text.size()));
            c.send(x.text, 200);
            auto m = srv::next_response(c, false, 100);
            if (m.st != srv::message::complete) break;
            ++answered;
            if (m.status == 200 && !x.expect.empty()) VH_CHECK(m.body == x.expect, "foreign-or-wrong-response", "request " + x.id + " got " + vh::esc(m.body.substr(0, 60)));
            if (x.close || x.throws) break;
          }
        }
      });
    std::this_thread::sleep_for(std::chrono::microseconds(r.below(30000)));
    a.h->stop();
    if (r.flip()) {
      a.server.reset();
      a.h.reset();
    } else a.h.reset();
  }
  over = true;
  for (auto& x : ts) x.join();
  VH_CHECK(g_live == 0, "handler-leak", std::to_string(g_live) + " handlers survive their context");
  VH_CHECK(open_fds() <= base, "descriptor-leak", std::to_string(open_fds()) + " open, " + std::to_string(base) + " before: " + show_fds());
  vh::count("stops");
  vh::count("stop:answered", std::size_t(answered));
  vh::seen(std::to_string(answered));
}

// many connections opened and closed at once
VH_SUITE("churn", 24, 200)
{
  app a(r, std::chrono::milliseconds(20000));
  auto base = open_fds();
  std::vector<std::thread> ts;
  for (int i = 0; i < 6; ++i)
    ts.emplace_back([&, seed = r.u64()] {
      vh::rng q(seed);
      for (int k = 0; k < 40; ++k) {
        auto c = a.dial(q);
        auto x = make(q, true);
        switch (q.below(4)) {
        case 0: break;
        case 1: c.send(x.text); break;
        case 2: c.send(x.text.substr(0, q.below(x.text.size()))); break;
        default:
          c.send(x.text);
          auto m = srv::next_response(c, false, 30000);
          if (!x.throws && !x.caught) VH_CHECK(m.st == srv::message::complete && m.body == x.expect, "foreign-or-wrong-response", "request " + x.id + " got " + vh::esc(m.body.substr(0, 60)) + m.why);
        }
        if (q.flip()) c.reset();
      }
      vh::count("churn", 40);
    });
  for (auto& x : ts) x.join();
  released(a, base);
  a.h->stop();
}

int main(int argc, char** argv)
{
  vh::require("requests", 500);
  vh::require("all-released", 50);
  vh::require("ws-messages", 100);
  vh::require("overlapping-handlers", 100);
  vh::require("timeouts:answered", 20);
  vh::require("timeouts:cut", 20);
  vh::require("stop:answered", 50);
  return vh::main(argc, argv);
}
