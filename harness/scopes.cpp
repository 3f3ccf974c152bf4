// P25: programs that build scopes and routes as values against the route tables they must give.
#include "srv.hpp"

namespace web = fitoria::web;
namespace http = fitoria::http;
namespace net = boost::asio;
using fitoria::awaitable;

namespace {

struct expected_route {
  std::string pattern, method;
  int rid;
  std::vector<int> mws;                       // outermost first
  std::vector<std::pair<int, int>> states;    // type, declaration; innermost first
};

std::vector<std::string> g_trace;

template <int K>
struct state {
  int id = 0;
  int uses = 0;
  explicit state(int i)
      : id(i)
  {
  }
};

template <int K, class Request, class Response, class Next>
class mw_impl {
public:
  Next next_;
  int id_;
  auto operator()(Request req) const -> Response
  {
    auto id = std::to_string(id_);
    g_trace.push_back("enter " + id);
    auto cut = req.headers().get("x-cut");
    if (cut && *cut == id) {
      g_trace.push_back("cut " + id);
      co_return web::response::forbidden().set_header("x-cut-by", id).build();
    }
    if constexpr (K == 1) co_await net::post(co_await net::this_coro::executor, net::use_awaitable_t<fitoria::executor_type> {});
    auto res = co_await next_(req);
    g_trace.push_back("leave " + id);
    co_return res.builder().insert_header("x-through", id).build();
  }
};
template <int K>
struct mw {
  int id;
  explicit mw(int i)
      : id(i)
  {
  }
  template <class Request, class Response, class Next>
  friend auto tag_invoke(web::to_middleware_t<Request, Response>, const mw& m, Next&& next)
  {
    return mw_impl<K, Request, Response, std::decay_t<Next>> { std::forward<Next>(next), m.id };
  }
};

std::map<std::string, std::string> g_params;
std::string g_pattern, g_match;

template <int K>
void touch(web::request& req, std::string& out)
{
  out += " " + std::to_string(K) + "=";
  if (auto s = req.state<state<K>>()) {
    ++s->uses;
    out += std::to_string(s->id) + "/" + std::to_string(s->uses);
  } else out += "-";
}

auto handler(int rid)
{
  return [rid](web::request& req) -> awaitable<web::response> {
    std::string t = "route " + std::to_string(rid);
    touch<0>(req, t);
    touch<1>(req, t);
    touch<2>(req, t);
    g_trace.push_back(t);
    g_pattern = req.path().match_pattern();
    g_match = req.path().match_path();
    g_params.clear();
    for (auto& [n, v] : req.path()) g_params[n] = v;
    co_return web::response::ok().set_body(std::to_string(rid));
  };
}

#include "scopes_gen.hpp"

http::verb verb_of(vh::rng& r, const std::string& m)
{
  if (m == "get") return http::verb::get;
  if (m == "post") return http::verb::post;
  if (m == "put") return http::verb::put;
  if (m == "patch") return http::verb::patch;
  if (m == "delete_") return http::verb::delete_;
  return r.one_of<http::verb>({ http::verb::get, http::verb::post, http::verb::options, http::verb::head });
}

struct app {
  net::io_context ioc;
  std::vector<expected_route> routes;
  std::unique_ptr<web::http_server> server;
  std::map<std::pair<int, int>, int> uses; // (type, declaration) -> how often touched
  explicit app(program p)
  {
    web::http_server::builder b(ioc);
    p(b, routes);
    server.reset(new web::http_server(b.build()));
  }
};

void exercise(vh::rng& r, app& a, const std::string& story)
{
  auto& e = a.routes[r.below(a.routes.size())];
  // a path for the pattern
  std::string path;
  std::map<std::string, std::string> params;
  std::size_t i = 0;
  while (i < e.pattern.size()) {
    char c = e.pattern[i];
    if (c == '{') {
      auto j = e.pattern.find('}', i);
      auto v = r.from("QWXYZ09~", 1 + r.below(4));
      params[e.pattern.substr(i + 1, j - i - 1)] = v;
      path += v;
      i = j + 1;
    } else if (c == '#') {
      auto v = r.from("QWXYZ/09", 1 + r.below(6));
      while (!v.empty() && v.front() == '/') v[0] = 'Q';
      params[e.pattern.substr(i + 1)] = v;
      path += v;
      break;
    } else path += e.pattern[i++];
  }
  auto verb = verb_of(r, e.method);
  bool wrong_method = e.method != "any" && r.chance(1, 8);
  if (wrong_method) verb = e.method == "get" ? http::verb::post : http::verb::get;
  int cut = !e.mws.empty() && r.chance(1, 4) ? r.pick(e.mws) : 0;
  auto req = web::test_request::get();
  req.set_method(verb);
  if (cut) req.set_header("x-cut", std::to_string(cut));
  g_trace.clear();
  g_pattern.clear();
  auto rep = srv::call(*a.server, a.ioc, path, req.set_body());
  auto what = story + e.method + " " + e.pattern + " as " + path + (cut ? " cut " + std::to_string(cut) : "") + (wrong_method ? " wrong method" : "");
  std::string got;
  for (auto& t : g_trace) got += t + "; ";
  what += " -> " + std::to_string(rep.status) + " trace " + got;
  vh::seen(what);
  vh::count("requests");
  if (wrong_method) {
    VH_CHECK(rep.delivered && rep.status == 404 && g_trace.empty(), "wrong-method", what);
    return;
  }
  std::vector<std::string> want, through;
  std::size_t entered = 0;
  bool was_cut = false;
  for (auto m : e.mws) {
    want.push_back("enter " + std::to_string(m));
    if (m == cut) {
      want.push_back("cut " + std::to_string(m));
      was_cut = true;
      break;
    }
    ++entered;
  }
  if (!was_cut) {
    std::string t = "route " + std::to_string(e.rid);
    for (int k = 0; k < 3; ++k) {
      t += " " + std::to_string(k) + "=";
      auto it = std::find_if(e.states.begin(), e.states.end(), [&](auto& s) { return s.first == k; });
      if (it == e.states.end()) t += "-";
      else t += std::to_string(it->second) + "/" + std::to_string(++a.uses[*it]);
    }
    want.push_back(t);
  }
  for (std::size_t k = entered; k--;) {
    want.push_back("leave " + std::to_string(e.mws[k]));
    through.push_back(std::to_string(e.mws[k]));
  }
  std::string w;
  for (auto& t : want) w += t + "; ";
  VH_CHECK(rep.delivered, "not-served", what);
  VH_CHECK(g_trace == want, "trace", what + " want " + w);
  VH_CHECK(srv::values(rep.h, "x-through") == through, "unwinding", what + " has " + srv::show(rep.h));
  if (was_cut) {
    VH_CHECK(rep.status == 403 && srv::values(rep.h, "x-cut-by") == std::vector<std::string> { std::to_string(cut) }, "short-circuit", what);
    vh::count("short-circuits");
  } else {
    VH_CHECK(rep.status == 200, "status", what);
    if (verb != http::verb::head) VH_CHECK(rep.body == std::to_string(e.rid), "body", what);
    VH_CHECK(g_pattern == e.pattern, "pattern", what + " saw " + g_pattern);
    VH_CHECK(g_match == path && g_params == params, "params", what + " saw " + g_match);
    if (e.states.size() > 1) vh::count("nested-states");
    if (e.mws.size() > 1) vh::count("nested-middlewares");
  }
}

} // namespace

VH_SUITE("programs", 64, 2000)
{
  app a(programs[std::size_t(idx) % std::size(programs)]);
  std::string story = "program " + std::to_string(std::size_t(idx) % std::size(programs)) + ": ";
  for (int k = 0; k < 40; ++k) exercise(r, a, story);
  vh::count("programs");
}

// two servers from the same program do not share anything
VH_SUITE("two-servers", 16, 400)
{
  auto p = programs[r.below(std::size(programs))];
  app a(p), b(p);
  for (int k = 0; k < 30; ++k) exercise(r, r.flip() ? a : b, "two: ");
}

// registering the same route twice is refused and leaves the builder usable
VH_SUITE("duplicates", 6, 60)
{
  net::io_context ioc;
  web::http_server::builder b(ioc);
  b.serve(web::route::get<"/a/{x}">(handler(1)));
  auto refused = [&](auto&& f) {
    try {
      f();
    } catch (const std::system_error&) {
      return true;
    }
    return false;
  };
  VH_CHECK(refused([&] { b.serve(web::route::get<"/a/{x}">(handler(2))); }), "duplicate-accepted", "same pattern");
  VH_CHECK(refused([&] { b.serve(web::scope<"/a">().serve(web::route::get<"/{x}">(handler(3)))); }), "duplicate-accepted", "through a scope");
  VH_CHECK(!refused([&] { b.serve(web::route::post<"/a/{x}">(handler(4))); }), "other-method-refused", "post");
  VH_CHECK(!refused([&] { b.serve(web::scope<"/b">().serve(web::route::get<"/{x}">(handler(5)))); }), "other-prefix-refused", "b");
  auto s = b.build();
  auto ask = [&](std::string p, web::test_request_builder t) { return srv::call(s, ioc, p, t.set_body()).body; };
  VH_CHECK(ask("/a/1", web::test_request::get()) == "1", "duplicate-replaced", "get");
  VH_CHECK(ask("/a/1", web::test_request::post()) == "4", "duplicate-replaced", "post");
  VH_CHECK(ask("/b/1", web::test_request::get()) == "5", "duplicate-replaced", "b");
  vh::seen(std::to_string(idx));
}

int main(int argc, char** argv)
{
  vh::require("short-circuits", 20);
  vh::require("nested-states", 20);
  vh::require("nested-middlewares", 20);
  return vh::main(argc, argv);
}
