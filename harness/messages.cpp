// P32: random builder and accessor histories on requests and responses against a model.
#include "srv.hpp"

namespace web = fitoria::web;
namespace http = fitoria::http;
using aio::source;
using fitoria::awaitable;
using fitoria::bytes;

namespace person_ns {
struct person {
  std::string name;
  int age = 0;
  bool operator==(const person&) const = default;
};
inline void tag_invoke(boost::json::value_from_tag, boost::json::value& v, const person& p)
{
  v = { { "name", p.name }, { "age", p.age } };
}
inline person tag_invoke(boost::json::value_to_tag<person>, const boost::json::value& v)
{
  return { boost::json::value_to<std::string>(v.at("name")), boost::json::value_to<int>(v.at("age")) };
}
} // namespace person_ns
using person_ns::person;

namespace {

struct model {
  int status = 200;
  http::verb method = http::verb::get;
  http::version version = http::version::v1_1;
  std::map<std::string, std::vector<std::string>> h;
  std::map<std::string, std::string> q;
  std::string body;
  int kind = 0; // 0 none 1 sized 2 chunked
  bool sized_known = false;
  std::string log;
};

std::map<std::string, std::vector<std::string>> grouped(const http::header_map& m)
{
  std::map<std::string, std::vector<std::string>> g;
  for (auto& [n, v] : srv::of(m)) g[n].push_back(v);
  return g;
}

struct hname {
  std::optional<http::field> f;
  std::string name;
};
hname pick_name(vh::rng& r)
{
  static const std::pair<http::field, const char*> known[] = {
    { http::field::content_type, "Content-Type" }, { http::field::etag, "ETag" }, { http::field::accept, "Accept" },
    { http::field::set_cookie, "Set-Cookie" },     { http::field::host, "Host" }, { http::field::cache_control, "Cache-Control" }
  };
  if (r.chance(2, 3)) {
    auto& k = r.pick(known);
    hname n { {}, k.second };
    if (r.flip()) n.f = k.first;
    else
      for (auto& c : n.name)
        if (r.flip()) c = char(std::isalpha((unsigned char)c) ? c ^ 0x20 : c);
    return n;
  }
  return { {}, r.one_of<std::string>({ "X-A", "x-a", "X-B", "X-Long-Name-Of-A-Header" }) };
}
std::string pick_value(vh::rng& r)
{
  auto v = r.from("abcXYZ019-_,;=/\"", 1 + r.len(40));
  return v;
}
std::string pick_body(vh::rng& r) { return r.bytes(r.chance(1, 6) ? 60000 + r.below(20000) : r.len(300)); }

boost::json::value pick_json(vh::rng& r, int depth = 0)
{
  switch (r.below(depth > 2 ? 5 : 7)) {
  case 0: return nullptr;
  case 1: return r.flip();
  case 2: return std::int64_t(r.u64());
  case 3: return boost::json::string((r.from("abc \\\"\n\t", 6) + (r.flip() ? "\xc3\xa9" : "")).c_str());
  case 4: return double(r.range(-1000, 1000)) / 8;
  case 5: {
    boost::json::array a;
    for (auto n = r.below(4); n--;) a.push_back(pick_json(r, depth + 1));
    return a;
  }
  default: {
    boost::json::object o;
    for (auto n = r.below(4); n--;) o[r.from("abcdef", 2)] = pick_json(r, depth + 1);
    return o;
  }
  }
}

template <class B>
void header_op(vh::rng& r, B& b, model& m)
{
  auto n = pick_name(r);
  auto v = pick_value(r);
  auto key = srv::lower(n.name);
  if (r.flip()) {
    if (n.f) r.flip() ? (void)b.set_header(*n.f, v) : (void)std::move(b).set_header(*n.f, v);
    else r.flip() ? (void)b.set_header(n.name, v) : (void)std::move(b).set_header(n.name, v);
    m.h[key] = { v };
    m.log += "set " + n.name + "; ";
  } else {
    if (n.f) r.flip() ? (void)b.insert_header(*n.f, v) : (void)std::move(b).insert_header(*n.f, v);
    else r.flip() ? (void)b.insert_header(n.name, v) : (void)std::move(b).insert_header(n.name, v);
    m.h[key].push_back(v);
    m.log += "insert " + n.name + "; ";
  }
}

// the last step: how the body is given (or kept)
template <class B>
auto finish(vh::rng& r, B& b, model& m, bool has_stream_body)
{
  using R = decltype(b.build());
  auto body = pick_body(r);
  switch (r.below(has_stream_body ? 8 : 7)) {
  case 0:
    m.log += "set_body(); ";
    m.body.clear();
    m.kind = 0;
    return b.set_body();
  case 1: {
    m.log += "set_body(span); ";
    auto x = aio::to_bytes(body);
    m.body = body;
    m.kind = 1;
    m.sized_known = true;
    return b.set_body(std::span<const std::byte>(x));
  }
  case 2:
    m.log += "set_body(string); ";
    m.body = body;
    m.kind = 1;
    m.sized_known = true;
    return b.set_body(std::string_view(body));
  case 3: {
    m.log += "set_body(stream); ";
    auto sc = std::make_shared<aio::script>();
    sc->chunks = aio::chop(r, body);
    m.body = body;
    m.kind = 1;
    m.sized_known = false;
    return b.set_body(source(sc));
  }
  case 4: {
    m.log += "set_json(value); ";
    auto jv = pick_json(r);
    m.body = boost::json::serialize(jv);
    m.h["content-type"] = { "application/json" };
    m.kind = 1;
    m.sized_known = true;
    return b.set_json(jv);
  }
  case 5: {
    m.log += "set_json(T); ";
    person p { r.from("abc", 5), int(r.below(100)) };
    m.body = boost::json::serialize(boost::json::value_from(p));
    m.h["content-type"] = { "application/json" };
    m.kind = 1;
    m.sized_known = true;
    return b.set_json(p);
  }
  case 6: m.log += "build(); "; return b.build();
  default:
    if constexpr (requires { b.set_stream_body(source(nullptr)); }) {
      m.log += "set_stream_body; ";
      auto sc = std::make_shared<aio::script>();
      sc->chunks = aio::chop(r, body);
      m.body = body;
      m.kind = 2;
      return R(b.set_stream_body(source(sc)));
    } else return b.build();
  }
}

void judge_body_kind(const model& m, const web::any_body& b)
{
  if (m.kind == 0) VH_CHECK(std::holds_alternative<web::any_body::null>(b.size()), "body-kind", m.log + " expected no body");
  else if (m.kind == 2) VH_CHECK(std::holds_alternative<web::any_body::chunked>(b.size()), "body-kind", m.log + " expected chunked");
  else {
    auto* s = std::get_if<web::any_body::sized>(&b.size());
    VH_CHECK(s, "body-kind", m.log + " expected sized");
    if (s && m.sized_known) VH_CHECK(s->size && *s->size == m.body.size(), "body-size", m.log + " size hint differs from " + std::to_string(m.body.size()));
    if (s && s->size) VH_CHECK(*s->size == m.body.size(), "body-size", m.log + " wrong size hint");
  }
}
void judge_body(const model& m, const aio::drained& d)
{
  VH_CHECK(d.ended && d.stable && d.data == m.body, "body", m.log + " read " + std::to_string(d.data.size()) + " of " + std::to_string(m.body.size()) + " bytes");
}

const std::pair<web::response_builder (*)(), int> factories[] = {
  { &web::response::continue_, 100 }, { &web::response::switching_protocols, 101 }, { &web::response::processing, 102 },
  { &web::response::early_hints, 103 }, { &web::response::ok, 200 }, { &web::response::created, 201 },
  { &web::response::accepted, 202 }, { &web::response::non_authoritative_information, 203 }, { &web::response::no_content, 204 },
  { &web::response::reset_content, 205 }, { &web::response::partial_content, 206 }, { &web::response::multi_status, 207 },
  { &web::response::already_reported, 208 }, { &web::response::im_used, 226 }, { &web::response::multiple_choices, 300 },
  { &web::response::moved_permanently, 301 }, { &web::response::found, 302 }, { &web::response::see_other, 303 },
  { &web::response::not_modified, 304 }, { &web::response::use_proxy, 305 }, { &web::response::temporary_redirect, 307 },
  { &web::response::permanent_redirect, 308 }, { &web::response::bad_request, 400 }, { &web::response::unauthorized, 401 },
  { &web::response::payment_required, 402 }, { &web::response::forbidden, 403 }, { &web::response::not_found, 404 },
  { &web::response::method_not_allowed, 405 }, { &web::response::not_acceptable, 406 },
  { &web::response::proxy_authentication_required, 407 }, { &web::response::request_timeout, 408 }, { &web::response::conflict, 409 },
  { &web::response::gone, 410 }, { &web::response::length_required, 411 }, { &web::response::precondition_failed, 412 },
  { &web::response::payload_too_large, 413 }, { &web::response::uri_too_long, 414 }, { &web::response::unsupported_media_type, 415 },
  { &web::response::range_not_satisfiable, 416 }, { &web::response::expectation_failed, 417 }, { &web::response::misdirected_request, 421 },
  { &web::response::unprocessable_entity, 422 }, { &web::response::locked, 423 }, { &web::response::failed_dependency, 424 },
  { &web::response::too_early, 425 }, { &web::response::upgrade_required, 426 }, { &web::response::precondition_required, 428 },
  { &web::response::too_many_requests, 429 }, { &web::response::request_header_fields_too_large, 431 },
  { &web::response::unavailable_for_legal_reasons, 451 }, { &web::response::internal_server_error, 500 },
  { &web::response::not_implemented, 501 }, { &web::response::bad_gateway, 502 }, { &web::response::service_unavailable, 503 },
  { &web::response::gateway_timeout, 504 }, { &web::response::http_version_not_supported, 505 },
  { &web::response::variant_also_negotiates, 506 }, { &web::response::insufficient_storage, 507 }, { &web::response::loop_detected, 508 },
  { &web::response::not_extended, 510 }, { &web::response::network_authentication_required, 511 }
};
const std::pair<web::test_request_builder (*)(), http::verb> verbs[] = {
  { &web::test_request::get, http::verb::get }, { &web::test_request::post, http::verb::post }, { &web::test_request::put, http::verb::put },
  { &web::test_request::patch, http::verb::patch }, { &web::test_request::delete_, http::verb::delete_ },
  { &web::test_request::head, http::verb::head }, { &web::test_request::options, http::verb::options }
};
const http::version versions[] = { http::version::v0_9, http::version::v1_0, http::version::v1_1, http::version::v2_0, http::version::v3_0 };
const http::verb methods[] = { http::verb::get, http::verb::post, http::verb::put, http::verb::delete_, http::verb::patch, http::verb::connect, http::verb::head };

void judge(const web::response& res, const model& m)
{
  VH_CHECK(int(res.status().value()) == m.status, "response:status", m.log + " has " + std::to_string(int(res.status().value())));
  VH_CHECK(int(res.status().category()) == (m.status >= 100 && m.status < 600 ? m.status / 100 : 0), "response:category", m.log);
  VH_CHECK(res.version() == m.version, "response:version", m.log);
  VH_CHECK(grouped(res.headers()) == m.h, "response:headers", m.log + " has " + srv::show(srv::of(res.headers())));
  judge_body_kind(m, res.body());
}

} // namespace

VH_SUITE("factories", 1, 1)
{
  for (auto& [f, code] : factories) {
    model m;
    m.status = code;
    m.log = "factory " + std::to_string(code);
    auto res = f().build();
    judge(res, m);
    vh::seen(m.log);
  }
  for (auto& [f, verb] : verbs) {
    auto t = f().build();
    VH_CHECK(t.method() == verb && t.version() == http::version::v1_1 && t.headers().empty() && t.query().empty(), "test-request:factory", "verb");
  }
}

VH_SUITE("response", 500, 10000)
{
  model m;
  auto& [f, code] = r.pick(factories);
  m.status = code;
  m.log = "new " + std::to_string(code) + "; ";
  std::optional<web::response_builder> b;
  if (r.chance(1, 5)) {
    m.status = 200;
    m.log = "default; ";
    web::response res;
    judge(res, m);
    b.emplace(res.builder());
  } else b.emplace(f());
  std::optional<web::response> res;
  auto rounds = 1 + r.below(3);
  for (std::size_t k = 0; k < rounds; ++k) {
    for (auto n = r.below(7); n--;) {
      switch (r.below(6)) {
      case 0: {
        int s = r.flip() ? r.pick(factories).second : int(r.range(100, 999));
        if (r.flip()) b->set_status(s);
        else (void)std::move(*b).set_status(http::status_code(s));
        m.status = s;
        m.log += "status " + std::to_string(s) + "; ";
        break;
      }
      case 1: {
        auto v = r.pick(versions);
        if (r.flip()) b->set_version(v);
        else (void)std::move(*b).set_version(v);
        m.version = v;
        m.log += "version; ";
        break;
      }
      case 2: {
        web::response_builder t(std::move(*b));
        b.emplace(std::move(t));
        m.log += "move builder; ";
        break;
      }
      default: header_op(r, *b, m);
      }
    }
    res.emplace(finish(r, *b, m, true));
    judge(*res, m);
    if (r.flip()) { // a copy and a moved-to object describe the same message
      auto c = *res;
      judge(c, m);
      auto d = std::move(c);
      judge(d, m);
      if (r.flip()) *res = d;
    }
    if (k + 1 < rounds) {
      m.log += "builder(); ";
      b.emplace(res->builder());
    }
  }
  judge_body(m, aio::run(aio::drain(res->body().stream(), 5000)));
  vh::seen(m.log);
  vh::sample(m.log);
  vh::count("responses");
}

VH_SUITE("test-request", 300, 6000)
{
  model m;
  auto& [f, verb] = r.pick(verbs);
  m.method = verb;
  m.log = "test_request; ";
  auto b = f();
  std::optional<web::test_request> req;
  auto rounds = 1 + r.below(3);
  for (std::size_t k = 0; k < rounds; ++k) {
    for (auto n = r.below(7); n--;) {
      switch (r.below(6)) {
      case 0: {
        m.method = r.pick(methods);
        if (r.flip()) b.set_method(m.method);
        else (void)std::move(b).set_method(m.method);
        m.log += "method; ";
        break;
      }
      case 1: {
        m.version = r.pick(versions);
        if (r.flip()) b.set_version(m.version);
        else (void)std::move(b).set_version(m.version);
        m.log += "version; ";
        break;
      }
      case 2: {
        auto n = r.from("abc&=%+ ", r.below(4)), v = r.from("xyz&=%+ ", r.below(6));
        if (r.flip()) b.set_query(n, v);
        else (void)std::move(b).set_query(n, v);
        m.q[n] = v;
        m.log += "query; ";
        break;
      }
      default: header_op(r, b, m);
      }
    }
    req.emplace(finish(r, b, m, true));
    VH_CHECK(req->method() == m.method, "test-request:method", m.log);
    VH_CHECK(req->version() == m.version, "test-request:version", m.log);
    VH_CHECK(grouped(req->headers()) == m.h, "test-request:headers", m.log + " has " + srv::show(srv::of(req->headers())));
    std::map<std::string, std::string> q;
    for (auto& [n, v] : req->query()) q[n] = v;
    VH_CHECK(q == m.q, "test-request:query", m.log);
    judge_body_kind(m, req->body());
    if (k + 1 < rounds) {
      m.log += "builder(); ";
      b = req->builder();
    }
  }
  judge_body(m, aio::run(aio::drain(req->body().stream(), 5000)));
  vh::seen(m.log);
  vh::count("test-requests");
}

namespace {
struct hooks {
  std::function<awaitable<void>(web::request&)> on_request;
};
struct world {
  boost::asio::io_context ioc;
  hooks* hk = nullptr;
  web::http_server server = web::http_server::builder(ioc)
                                .serve(web::scope<>().use_state(std::string("the state")).serve(
                                    web::route::any<"/p/{a}/{b}">([this](web::request& req) -> awaitable<web::response> {
                                      co_await hk->on_request(req);
                                      co_return web::response::ok().build();
                                    })))
                                .build();
};
} // namespace

VH_SUITE("request", 150, 3000)
{
  static world w;
  hooks hk;
  model m;
  // what the client sends
  std::string a = r.from("abc019", 1 + r.below(5)), bb = r.from("xyz-_.", 1 + r.below(5));
  auto tb = web::test_request::post();
  std::string body0 = pick_body(r);
  bool ran = false;
  hk.on_request = [&](web::request& first) -> awaitable<void> {
    ran = true;
    m.method = first.method();
    m.version = first.version();
    m.h = grouped(first.headers());
    for (auto& [n, v] : first.query()) m.q[n] = v;
    m.body = body0;
    m.log = "request; ";
    VH_CHECK(m.method == http::verb::post && m.version == http::version::v1_1, "request:start-line", "method or version differs");
    web::request* req = &first;
    std::optional<web::request> own;
    auto rounds = 1 + r.below(3);
    for (std::size_t k = 0; k < rounds; ++k) {
      auto b = req->builder();
      m.log += "builder(); ";
      for (auto n = r.below(7); n--;) {
        switch (r.below(7)) {
        case 0: {
          m.method = r.pick(methods);
          if (r.flip()) b.set_method(m.method);
          else (void)std::move(b).set_method(m.method);
          m.log += "method; ";
          break;
        }
        case 1: {
          auto n = r.from("abc&=%+ ", r.below(4)), v = r.from("xyz&=%+ ", r.below(6));
          if (r.flip()) b.set_query(n, v);
          else (void)std::move(b).set_query(n, v);
          m.q[n] = v;
          m.log += "query; ";
          break;
        }
        case 2: {
          auto n = pick_name(r);
          b.headers().erase(n.name);
          m.h.erase(srv::lower(n.name));
          m.log += "erase header; ";
          break;
        }
        case 3: {
          if (m.q.empty()) break;
          auto n = m.q.begin()->first;
          b.query().erase(n);
          m.q.erase(n);
          m.log += "erase query; ";
          break;
        }
        default: header_op(r, b, m);
        }
      }
      auto next = finish(r, b, m, false);
      if (r.flip()) {
        first = std::move(next);
        req = &first;
        m.log += "assigned; ";
      } else {
        own.reset();
        own.emplace(std::move(next));
        req = &*own;
      }
      auto& c = *req;
      VH_CHECK(c.method() == m.method, "request:method", m.log);
      VH_CHECK(c.version() == m.version, "request:version", m.log);
      VH_CHECK(grouped(c.headers()) == m.h, "request:headers", m.log + " has " + srv::show(srv::of(c.headers())));
      std::map<std::string, std::string> q;
      for (auto& [n, v] : c.query()) q[n] = v;
      VH_CHECK(q == m.q, "request:query", m.log);
      VH_CHECK(c.path().get("a") == a && c.path().get("b") == bb && c.path().match_path() == "/p/" + a + "/" + bb, "request:path", m.log);
      VH_CHECK(c.connection().remote() == "localhost", "request:connection", m.log);
      auto st = c.state<std::string>();
      VH_CHECK(st && *st == "the state", "request:state", m.log);
    }
    auto d = co_await aio::drain(req->body(), 5000);
    judge_body(m, d);
  };
  w.hk = &hk;
  auto rep = srv::call(w.server, w.ioc, "/p/" + a + "/" + bb, tb.set_body(body0));
  VH_CHECK(ran && rep.delivered && rep.status == 200, "request:served", m.log + " status " + std::to_string(rep.status));
  vh::seen(m.log);
  vh::count("requests");
}

VH_SUITE("test-response", 200, 4000)
{
  auto jv = pick_json(r);
  bool json = r.flip();
  std::string body = json ? boost::json::serialize(jv) : pick_body(r);
  http::header_map h;
  auto type = r.one_of<std::string>({ "", "application/json", "Application/JSON; charset=utf-8", "text/plain", "application/json2", "application/ld+json", "garbage" });
  if (!type.empty()) h.set(http::field::content_type, type);
  h.set("X-A", "v");
  auto sc = std::make_shared<aio::script>();
  sc->chunks = aio::chop(r, body);
  web::test_response t(http::status::created, http::version::v1_0, h, source(sc));
  VH_CHECK(t.status() == http::status_code(201) && t.version() == http::version::v1_0 && t.headers().get("x-a") == "v", "test-response:fields", "fields");
  auto u = std::move(t);
  switch (r.below(3)) {
  case 0: {
    auto s = aio::run(u.as_string());
    VH_CHECK(s && *s == body, "test-response:as_string", "body differs");
    break;
  }
  case 1: {
    auto s = aio::run(u.as_vector<std::uint8_t>());
    VH_CHECK(s && std::string(s->begin(), s->end()) == body, "test-response:as_vector", "body differs");
    break;
  }
  default: {
    auto s = aio::run(u.as_json());
    bool is_json = type == "application/json" || type == "Application/JSON; charset=utf-8";
    if (!is_json) VH_CHECK(!s, "test-response:as_json-type", "accepted " + type);
    else if (json) VH_CHECK(s && *s == jv, "test-response:as_json", "differs: " + body);
    else {
      boost::system::error_code ec;
      auto ref = boost::json::parse(body, ec);
      VH_CHECK(bool(s) == !ec, "test-response:as_json", "bad json accepted");
    }
  }
  }
  vh::seen(type + body);
}

int main(int argc, char** argv) { return vh::main(argc, argv); }
