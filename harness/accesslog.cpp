// P33: the logger middleware - one truthful record per answered request, and
// nothing else changed. A recording writer is the event log; the clients know
// what every record has to say.
#include "srv.hpp"

#include <fitoria/log.hpp>

namespace web = fitoria::web;
namespace http = fitoria::http;
namespace net = boost::asio;
namespace flog = fitoria::log;
using fitoria::awaitable;

namespace {

struct got {
  std::string msg;
  flog::level lv;
};
struct recorder : flog::async_writer {
  std::mutex mx;
  std::vector<got> seen;
  auto async_write(flog::record_ptr rec) -> flog::awaitable<void> override
  {
    std::lock_guard l(mx);
    seen.push_back({ rec->msg, rec->lv });
    co_return;
  }
  std::size_t size()
  {
    std::lock_guard l(mx);
    return seen.size();
  }
};

using sysclock = std::chrono::system_clock;
std::mutex g_mx;
std::map<std::string, std::chrono::nanoseconds> g_inside; // request id -> time its handler took

std::string hdr(web::request& req, const char* n) { return std::string(req.headers().get(n).value_or("")); }

awaitable<void> wait(int us)
{
  auto t = net::steady_timer(co_await net::this_coro::executor);
  t.expires_after(std::chrono::microseconds(us));
  co_await t.async_wait(fitoria::use_awaitable);
}

// answers with the status asked for and the request as the handler saw it
awaitable<web::response> serve(web::request& req)
{
  auto from = sysclock::now();
  auto us = std::atoi(hdr(req, "x-wait").c_str());
  auto d = co_await aio::drain(req.body(), 100000);
  if (us) co_await wait(us);
  auto how = hdr(req, "x-how");
  auto id = hdr(req, "x-id");
  std::string view = std::string(to_string(req.method())) + "|" + std::string(req.path().match_path()) + "|" + srv::show(srv::of(req.headers())) + "|" + d.data;
  {
    std::lock_guard l(g_mx);
    g_inside[id] = sysclock::now() - from;
  }
  if (how == "throw") throw std::runtime_error("planned");
  web::response_builder out = web::response::ok();
  out.set_status(std::atoi(hdr(req, "x-status").c_str())).set_header("x-id", id).insert_header("x-two", "1").insert_header("x-two", "2");
  if (how == "empty") co_return out.build();
  if (how == "stream") co_return out.set_stream_body(aio::source(std::make_shared<aio::script>(aio::script { .chunks = { view.substr(0, view.size() / 2), view.substr(view.size() / 2) }, .error = {}, .suspend = true })));
  co_return out.set_body(view);
}

// a middleware that answers itself when asked to
template <class Request, class Response, class Next>
struct gate_impl {
  Next next;
  int n;
  auto operator()(Request req) const -> Response
  {
    if (hdr(req, "x-gate") == std::to_string(n)) co_return web::response::forbidden().set_header("x-id", hdr(req, "x-id")).set_body("gate");
    co_return co_await next(req);
  }
};
struct gate {
  int n;
  template <class Request, class Response, fitoria::decay_to<gate> Self, class Next>
  friend auto tag_invoke(web::to_middleware_t<Request, Response>, Self&& self, Next&& next)
  {
    return gate_impl<Request, Response, std::decay_t<Next>> { std::forward<Next>(next), self.n };
  }
};

struct target {
  const char* pattern;  // below /l or /p
  const char* sample;   // path sent
  const char* path;     // the same decoded: what the handler and the log see
  int logs;             // records of a request that passes gate 0
};
// scope "/l": the logger, gate 0, possibly the route's own logger, gate 1
constexpr target k_targets[] = {
  { "/plain", "/plain", "/plain", 1 },
  { "/item/{id}", "/item/a%20b%7B%7D", "/item/a b{}", 1 },
  { "/rest/#r", "/rest/x/y/z", "/rest/x/y/z", 1 },
  { "/twice/{a}/{b}", "/twice/1/2", "/twice/1/2", 2 },
};

template <class Outer>
auto routes(Outer s)
{
  return s.serve(web::route::any<"/plain">(serve).use(gate { 1 }))
      .serve(web::route::any<"/item/{id}">(serve).use(gate { 1 }))
      .serve(web::route::any<"/rest/#r">(serve).use(gate { 1 }));
}

auto build(web::http_server::builder b)
{
  return b
      .serve(routes(web::scope<"/l">().use(web::middleware::exception_handler()).use(web::middleware::logger()).use(gate { 0 }))
                 .serve(web::route::any<"/twice/{a}/{b}">(serve).use(web::middleware::logger()).use(gate { 1 })))
      .serve(routes(web::scope<"/p">().use(web::middleware::exception_handler()).use(gate { 0 }))
                 .serve(web::route::any<"/twice/{a}/{b}">(serve).use(gate { 1 })))
      .build();
}

struct sent {
  std::string id, method, path, ua;
  int status = 0, records = 0;
  std::chrono::nanoseconds inside {}, outside {};
};

struct plan {
  std::string method, where, ua, how, gatehdr, id, body;
  bool has_ua = false;
  int t = 0, status = 200, us = 0;
};

std::string agent(vh::rng& r)
{
  switch (r.below(6)) {
  case 0: return "curl/8.5.0";
  case 1: return "{} {0} {:d} {{x}} %s %n";
  case 2: return "a b  c \"q\" \\ 'z'";
  case 3: return "\xc3\xa9\xff\x80";
  case 4: return std::string(r.len(3000) + 1, 'u');
  default: return "Mozilla/5.0 (X11; Linux x86_64) 200 GET /l/plain";
  }
}

plan make_plan(vh::rng& r, const std::string& id)
{
  plan p;
  p.id = id;
  p.method = r.pick(std::vector<std::string> { "GET", "GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS" });
  p.t = int(r.below(4));
  p.status = r.one_of({ 200, 200, 201, 204, 301, 304, 400, 404, 500, 503, 599 });
  if (r.chance(1, 5)) p.how = "throw";
  else p.how = r.one_of({ "text", "stream", "empty", "text" });
  if (r.chance(1, 8)) p.gatehdr = r.one_of({ "0", "1" });
  p.has_ua = !r.chance(1, 5);
  if (p.has_ua) p.ua = agent(r);
  if (r.chance(1, 3)) p.us = int(r.below(30000));
  if (p.method == "POST" || p.method == "PUT" || p.method == "PATCH") p.body = r.from("abc\n{}", r.len(5000));
  return p;
}

std::string wire(const plan& p, const char* prefix)
{
  std::string s = p.method + " " + prefix + k_targets[p.t].sample + " HTTP/1.1\r\nHost: h\r\nx-id: " + p.id + "\r\nx-status: " + std::to_string(p.status)
      + "\r\nx-how: " + p.how + "\r\n";
  if (p.has_ua) s += "User-Agent: " + p.ua + "\r\n";
  if (!p.gatehdr.empty()) s += "x-gate: " + p.gatehdr + "\r\n";
  if (p.us) s += "x-wait: " + std::to_string(p.us) + "\r\n";
  if (!p.body.empty()) s += "Content-Length: " + std::to_string(p.body.size()) + "\r\n";
  return s + "\r\n" + p.body;
}

// what the records have to say about an exchange; the exception_handler is
// outside the logger, so what the logger does about exceptions stays open
int expected_status(const plan& p) { return p.gatehdr.empty() ? p.status : 403; }
int expected_records(const plan& p)
{
  if (p.gatehdr.empty() && p.how == "throw") return -1;
  return p.gatehdr == "0" ? 1 : k_targets[p.t].logs;
}

// hours:minutes:seconds with a fraction, then "s"
std::optional<double> seconds(std::string_view s)
{
  unsigned h = 0, m = 0;
  double x = 0;
  int n = 0;
  std::string z(s);
  if (std::sscanf(z.c_str(), "%u:%u:%lf%n", &h, &m, &x, &n) != 3 || z.substr(std::size_t(n)) != "s") return std::nullopt;
  return h * 3600 + m * 60 + x;
}

void judge(const std::string& key, std::vector<got> seen, const std::vector<sent>& all, const std::string& remote, bool open_ended)
{
  for (auto& e : all) {
    auto head = remote + " " + e.method + " /l" + e.path + " " + std::to_string(e.status) + " " + e.ua + " ";
    for (int k = 0; k < e.records; ++k) {
      bool found = false;
      std::string near;
      for (std::size_t i = 0; i < seen.size() && !found; ++i) {
        auto at = seen[i].msg.find(head);
        if (at == seen[i].msg.npos) continue;
        // requests that say the same are told apart by the time they took
        auto sec = seconds(std::string_view(seen[i].msg).substr(at + head.size()));
        if (!sec) {
          near = "no time in " + vh::esc(seen[i].msg, 300);
          continue;
        }
        if (*sec + 2e-6 < double(e.inside.count()) / 1e9 || *sec > double(e.outside.count()) / 1e9 + 2e-6) {
          near = "time " + std::to_string(*sec) + " not in " + std::to_string(double(e.inside.count()) / 1e9) + ".." + std::to_string(double(e.outside.count()) / 1e9);
          continue;
        }
        VH_CHECK(seen[i].lv == flog::level::info, key + ":level", std::to_string(int(seen[i].lv)));
        seen.erase(seen.begin() + long(i));
        found = true;
      }
      if (!found) {
        std::string have;
        for (auto& g : seen) have += "\n  " + vh::esc(g.msg, 160);
        vh::fail(key + ":record", "no record '" + vh::esc(head, 200) + "' " + near + " among" + have.substr(0, 1500));
        return;
      }
      vh::count("records matched");
      vh::eval();
    }
  }
  // the rest of the library logs as well, but not about paths
  std::erase_if(seen, [](auto& g) { return g.msg.find("/l/") == g.msg.npos && g.msg.find("/p/") == g.msg.npos; });
  if (!open_ended) VH_CHECK(seen.empty(), key + ":extra", vh::esc(seen.empty() ? "" : seen[0].msg, 300));
}

struct logging {
  std::shared_ptr<recorder> rec = std::make_shared<recorder>();
  explicit logging(const flog::filter& f)
  {
    auto lg = flog::async_logger::builder().set_filter(f).build();
    lg->add_writer(rec);
    flog::registry::global().set_default_logger(lg);
  }
  // nobody logs any more: everything accepted has been written when this returns
  std::vector<got> finish()
  {
    flog::registry::global().set_default_logger(nullptr);
    std::lock_guard l(rec->mx);
    return rec->seen;
  }
};

} // namespace

// several clients at once; every answered request has its record(s)
VH_SUITE("wire", 60, 1500)
{
  bool all = !r.chance(1, 5);
  logging lg(all ? flog::filter::all() : flog::filter::at_least(flog::level::warning));
  std::vector<sent> sents;
  std::mutex mx;
  bool tcp = r.flip();
  bool open_ended = false;
  {
    srv::running s([](web::http_server::builder b) { return build(std::move(b)); }, int(1 + r.below(3)));
    auto port = tcp ? s.bind_tcp() : std::uint16_t(0);
    std::vector<std::thread> ts;
    auto clients = 1 + r.below(4);
    for (std::size_t c = 0; c < clients; ++c)
      ts.emplace_back([&, c, seed = r.u64()] {
        vh::rng q(seed);
        auto cl = tcp ? srv::client(port) : srv::client(s.path);
        for (auto n = 1 + q.below(8), i = std::size_t(0); i < n; ++i) {
          auto p = make_plan(q, std::to_string(c) + "-" + std::to_string(i));
          bool logged = q.chance(3, 4);
          auto from = sysclock::now();
          if (!cl.send(wire(p, logged ? "/l" : "/p"))) {
            vh::fail("wire:send", "connection lost");
            return;
          }
          auto m = srv::next_response(cl, p.method == "HEAD");
          auto took = sysclock::now() - from;
          if (m.st != srv::message::complete) {
            vh::fail("wire:response", p.method + " " + k_targets[p.t].pattern + " " + m.why);
            return;
          }
          int want = p.gatehdr.empty() && p.how == "throw" ? 500 : expected_status(p);
          VH_CHECK(m.status == want, "wire:status", std::to_string(m.status) + " for " + std::to_string(want));
          std::lock_guard l(mx);
          vh::seen(p.method + k_targets[p.t].pattern + std::to_string(m.status) + p.ua.substr(0, 20) + (tcp ? "t" : "u"));
          int n_rec = expected_records(p);
          if (logged && n_rec < 0) open_ended = true;
          if (!logged || n_rec < 0) continue;
          std::chrono::nanoseconds inside {};
          if (p.gatehdr.empty()) {
            std::lock_guard l2(g_mx);
            inside = g_inside[p.id];
          }
          sents.push_back({ p.id, p.method, k_targets[p.t].path, p.ua, m.status, all ? n_rec : 0, inside, took });
          vh::count("exchanges");
        }
      });
    for (auto& t : ts) t.join();
    VH_CHECK(s.escaped == 0, "wire:escaped", "an exception left the server");
  }
  auto seen = lg.finish();
  // match the tightest time windows first
  std::sort(sents.begin(), sents.end(), [](auto& a, auto& b) { return a.outside - a.inside < b.outside - b.inside; });
  judge("wire", std::move(seen), sents, tcp ? "127.0.0.1" : "", open_ended && all);
}

// with and without the middleware: the same bytes, the same view
VH_SUITE("transparent", 100, 3000)
{
  logging lg(r.flip() ? flog::filter::all() : flog::filter::at_least(flog::level::fatal));
  if (r.chance(1, 6)) flog::registry::global().set_default_logger(nullptr); // nobody listens
  srv::running s([](web::http_server::builder b) { return build(std::move(b)); });
  for (int k = 0; k < 6; ++k) {
    auto p = make_plan(r, std::to_string(k));
    p.us /= 20;
    std::string bytes[2];
    for (int i = 0; i < 2; ++i) {
      srv::client c(s.path);
      auto w = wire(p, i ? "/l" : "/p");
      w.insert(w.find("\r\n") + 2, "Connection: close\r\n");
      VH_CHECK(c.send(w) && c.drain(), "transparent:answer", p.method + k_targets[p.t].pattern);
      bytes[i] = c.in();
      auto at = bytes[i].find(i ? "|/l/" : "|/p/");
      if (at != bytes[i].npos) bytes[i][at + 2] = '*';
    }
    VH_CHECK(bytes[0] == bytes[1] && !bytes[0].empty(), "transparent:differs", vh::esc(bytes[0], 300) + "\n vs " + vh::esc(bytes[1], 300));
    vh::count("pairs compared");
    vh::seen(p.method + k_targets[p.t].pattern + p.how + std::to_string(p.status));
  }
  s.stop();
  lg.finish();
}

// the in-process service
VH_SUITE("in-process", 60, 1500)
{
  logging lg(flog::filter::all());
  std::vector<sent> sents;
  {
    net::io_context ioc;
    auto server = build(web::http_server::builder(ioc));
    for (int k = 0; k < 5; ++k) {
      auto p = make_plan(r, std::to_string(k));
      if (p.how == "throw") p.how = "text";
      p.status = r.one_of({ 200, 404, 503 });
      p.us /= 10;
      if (p.ua.size() > 1000) p.ua.resize(1000);
      auto b = p.method == "HEAD" ? web::test_request::head() : web::test_request::get();
      p.method = p.method == "HEAD" ? "HEAD" : "GET";
      b.set_header("x-id", p.id).set_header("x-status", std::to_string(p.status)).set_header("x-how", p.how).set_header("x-wait", std::to_string(p.us));
      if (p.has_ua) b.set_header(http::field::user_agent, p.ua);
      if (!p.gatehdr.empty()) b.set_header("x-gate", p.gatehdr);
      auto from = sysclock::now();
      auto rep = srv::call(server, ioc, std::string("/l") + k_targets[p.t].path, b.build());
      auto took = sysclock::now() - from;
      VH_CHECK(rep.delivered && rep.status == expected_status(p), "in-process:status", std::to_string(rep.status));
      std::chrono::nanoseconds inside {};
      if (p.gatehdr.empty()) inside = g_inside[p.id];
      sents.push_back({ p.id, p.method, k_targets[p.t].path, p.ua, rep.status, expected_records(p), inside, took });
      vh::seen(p.method + k_targets[p.t].pattern + std::to_string(rep.status) + p.ua.substr(0, 20));
      vh::count("exchanges");
    }
  }
  auto seen = lg.finish();
  std::sort(sents.begin(), sents.end(), [](auto& a, auto& b) { return a.outside - a.inside < b.outside - b.inside; });
  judge("in-process", std::move(seen), sents, "localhost", false);
}

int main(int argc, char** argv)
{
  vh::require("records matched", 20);
  vh::require("exchanges", 20);
  vh::require("pairs compared", 20);
  return vh::main(argc, argv);
}
