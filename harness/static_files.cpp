// P29: files served by the real server against the bytes, size and time the
// harness gave them; with stand-in files (short reads, errors, delays) and with
// the real io_uring files.
#include "srv.hpp"

#include <fcntl.h>
#include <fstream>
#include <fitoria/log.hpp>
#include <sys/stat.h>
#ifndef VH_FILE_STANDIN
#include <liburing.h>
#endif

namespace web = fitoria::web;
namespace http = fitoria::http;
namespace net = boost::asio;
using fitoria::awaitable;

namespace {

#ifdef VH_FILE_STANDIN
constexpr bool standin = true;
long files_open() { return vh_file::g.open; }
template <class F>
void set_plan(F f)
{
  std::lock_guard l(vh_file::g.mx);
  vh_file::g.fn = std::move(f);
}
void no_plan()
{
  std::lock_guard l(vh_file::g.mx);
  vh_file::g.fn = nullptr;
}
// random short and late transfers
void rough(vh::rng& r)
{
  if (r.chance(1, 3)) return no_plan();
  auto q = std::make_shared<vh::rng>(r.u64());
  bool late = r.chance(1, 4);
  set_plan([q, late](bool, std::uint64_t, std::size_t n) {
    vh_file::plan p;
    if (n > 1 && q->flip()) p.most = q->chance(1, 4) && n < 3000 ? 1 + q->below(3) : 1 + q->below(n);
    if (late && q->chance(1, 4)) p.delay_us = int(q->below(800));
    return p;
  });
}
#else
constexpr bool standin = false;
long files_open() { return 0; }
void no_plan() { }
void rough(vh::rng&) { }
#endif

srv::tmpdir& dir()
{
  static srv::tmpdir d;
  return d;
}

std::mutex g_mx;
std::map<std::string, std::string> g_paths; // id -> path

std::string path_for(const web::request& req)
{
  auto v = req.headers().get("x-file");
  std::lock_guard l(g_mx);
  return v ? g_paths[std::string(v->data(), v->size())] : "";
}
std::string type_for(const web::request& req)
{
  auto v = req.headers().get("x-type");
  return v ? std::string(v->data(), v->size()) : "";
}

using either = std::variant<web::static_file, web::response>;
awaitable<either> with_request(const web::request& req)
{
  auto f = web::static_file::open(co_await net::this_coro::executor, path_for(req), req);
  if (!f) co_return web::response::not_found().set_body(f.error().message());
  auto t = type_for(req);
  if (!t.empty()) {
    static std::set<std::string> kept; // the view must stay valid
    static std::mutex mx;
    std::lock_guard l(mx);
    if (auto m = fitoria::mime::mime_view::parse(*kept.insert(t).first)) f->set_content_type(*m);
  }
  co_return std::move(*f);
}
awaitable<either> plain(const web::request& req)
{
  auto f = web::static_file::open(co_await net::this_coro::executor, path_for(req));
  if (!f) co_return web::response::not_found().set_body(f.error().message());
  co_return std::move(*f);
}
// the range is chosen by the handler: <offset> <size or ->
awaitable<web::response> direct(const web::request& req)
{
  auto f = web::static_file::open(co_await net::this_coro::executor, path_for(req));
  if (!f) co_return web::response::not_found().build();
  auto o = std::strtoull(std::string(req.query().get("o").value()).c_str(), nullptr, 10);
  auto n = std::string(req.query().get("n").value());
  if (n == "all") co_return web::response::ok().set_stream_body(web::async_readable_file_stream(f->release()));
  co_return web::response::ok().set_stream_body(web::async_readable_file_stream(
      f->release(), o, n == "-" ? fitoria::optional<std::uint64_t>() : fitoria::optional<std::uint64_t>(std::strtoull(n.c_str(), nullptr, 10))));
}
// upload: the body is written to the file
awaitable<web::response> upload(web::request& req)
{
  auto ex = co_await net::this_coro::executor;
  fitoria::stream_file f(ex);
  boost::system::error_code ec;
  f.open(path_for(req), net::file_base::write_only | net::file_base::create | net::file_base::truncate, ec);
  if (ec) co_return web::response::internal_server_error().set_body("open");
  auto n = co_await web::async_read_into_stream_file(req.body(), f);
  if (!n) co_return web::response::bad_request().set_body("cut");
  co_return web::response::ok().set_body(std::to_string(*n));
}

srv::running& server()
{
  static srv::running s(
      [](web::http_server::builder b) {
        b.set_request_timeout(std::chrono::seconds(60));
        b.set_request_body_limit(64 << 20);
        b.set_exception_handler([](std::exception_ptr) { });
        b.serve(web::scope<"">()
                    .serve(web::route::any<"/f">(with_request))
                    .serve(web::route::any<"/plain">(plain))
                    .serve(web::route::any<"/direct">(direct))
                    .serve(web::route::post<"/upload">(upload)));
        return b.build();
      },
      2);
  return s;
}

// ------------------------------------------------------------------- files
struct doc {
  std::string id, name, path, data;
  std::int64_t mtime = 0;
};
std::string content(vh::rng& r, std::size_t n)
{
  if (r.chance(1, 3)) return r.bytes(n);
  // every position tells where it is
  std::string s(n, 0);
  std::uint64_t k = r.u64();
  for (std::size_t i = 0; i < n; ++i) {
    auto x = (k + i / 5 * 2654435761ull) >> ((i % 5) * 8);
    s[i] = char(x ^ (x >> 11) ^ i);
  }
  return s;
}
std::size_t file_size(vh::rng& r)
{
  switch (r.below(8)) {
  case 0: return r.below(3);
  case 1: return 1 + r.below(100);
  case 2: return std::size_t(r.one_of<long>({ 1024, 4096, 8192, 16384, 32768, 65536, 131072, 196608 }) + r.range(-2, 2));
  case 3: return 65536 + r.below(200000);
  case 4: return r.chance(1, 10) ? 1000000 + r.below(1500000) : 10;
  default: return r.below(70000);
  }
}
std::int64_t some_time(vh::rng& r)
{
  return r.one_of<std::int64_t>({ 0, 1, -1, 86400, -86400 * 365, 1483228799, 1483228800, 1483228801, 2147483647, 2147483648ll, 4102444800ll,
             1700000000 + std::int64_t(r.below(100000000)), 1700000000 + std::int64_t(r.below(100)), std::int64_t(r.below(4000000000ull)), -std::int64_t(r.below(2000000000ull)) });
}
void set_time(doc& d, std::int64_t t, long nsec)
{
  timespec ts[2] = { { t, nsec }, { t, nsec } };
  if (::utimensat(AT_FDCWD, d.path.c_str(), ts, 0) != 0) std::abort();
  struct ::stat s;
  ::stat(d.path.c_str(), &s);
  d.mtime = s.st_mtim.tv_sec; // file systems may clamp
}
void store(doc& d)
{
  int fd = ::open(d.path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) std::abort();
  for (std::size_t at = 0; at < d.data.size();) {
    auto n = ::write(fd, d.data.data() + at, d.data.size() - at);
    if (n <= 0) std::abort();
    at += std::size_t(n);
  }
  ::close(fd);
}
std::atomic<long> g_n { 0 };
doc create(vh::rng& r, std::string name)
{
  doc d;
  d.id = std::to_string(++g_n);
  auto sub = dir().p / d.id;
  std::filesystem::create_directory(sub);
  d.name = std::move(name);
  d.path = (sub / d.name).string();
  d.data = content(r, file_size(r));
  store(d);
  set_time(d, some_time(r), r.range(0, 999999999));
  std::lock_guard l(g_mx);
  g_paths[d.id] = d.path;
  return d;
}
void forget(const doc& d)
{
  std::error_code ec;
  std::filesystem::remove_all(dir().p / d.id, ec);
}

const std::vector<std::array<std::string, 3>> kinds { // extension, type, inline?
  { "txt", "text/plain", "i" }, { "html", "text/html", "i" }, { "css", "text/css", "i" }, { "js", "application/javascript", "i" },
  { "json", "application/json", "i" }, { "png", "image/png", "i" }, { "svg", "image/svg+xml", "i" }, { "JPG", "image/jpeg", "i" },
  { "wasm", "application/wasm", "i" }, { "pdf", "", "a" }, { "zip", "", "a" }, { "xml", "application/xml", "a" },
  { "nosuchext", "application/octet-stream", "a" }, { "", "application/octet-stream", "a" }
};

std::string http_date(std::int64_t t)
{
  std::time_t x = t;
  std::tm tm;
  ::gmtime_r(&x, &tm);
  static const char* d[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
  static const char* m[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
  char b[64];
  std::snprintf(b, sizeof b, "%s, %02d %s %04d %02d:%02d:%02d GMT", d[tm.tm_wday], tm.tm_mday, m[tm.tm_mon], tm.tm_year + 1900, tm.tm_hour, tm.tm_min, tm.tm_sec);
  return b;
}

// one entity tag per (size, time in seconds) and one (size, time) per tag
std::map<std::pair<std::size_t, std::int64_t>, std::string> g_tag;
std::map<std::string, std::pair<std::size_t, std::int64_t>> g_tagged;
void note_tag(const doc& d, const std::string& tag)
{
  bool strong = tag.size() >= 2 && tag.front() == '"' && tag.back() == '"' && tag.find('"', 1) == tag.size() - 1;
  for (unsigned char c : tag)
    if (c < 0x21 || c == 0x7f) strong = false;
  VH_CHECK(strong, "etag-syntax", vh::esc(tag));
  auto k = std::pair(d.data.size(), d.mtime);
  auto [a, fresh] = g_tag.emplace(k, tag);
  VH_CHECK(fresh || a->second == tag, "etag-unstable", a->second + " then " + tag + " for the same size and time");
  auto [b, fresh2] = g_tagged.emplace(tag, k);
  VH_CHECK(fresh2 || b->second == k, "etag-shared", tag + " for size " + std::to_string(k.first) + " time " + std::to_string(k.second) + " and size " + std::to_string(b->second.first) + " time " + std::to_string(b->second.second));
}

// ------------------------------------------------------------------ requests
struct want {
  enum { whole, part, not_satisfiable, not_modified, not_found, any_error, whole_or_error } kind = whole;
  std::size_t from = 0, n = 0;
};
struct ranged {
  std::string text;
  want w;
};
using u64 = std::uint64_t;
ranged make_range(vh::rng& r, std::size_t size)
{
  ranged g;
  auto str = [](u64 v) { return std::to_string(v); };
  auto in = [&](u64& a, u64& b) { // a <= b < size
    a = r.chance(1, 3) ? r.below(std::min<std::size_t>(size, 3)) : r.below(size);
    b = a + (r.chance(1, 3) ? r.below(std::min<std::size_t>(size - a, 3)) : r.below(size - a));
    if (r.chance(1, 5)) b = size - 1;
    if (r.chance(1, 6)) a = std::min<u64>(b, u64(r.one_of<long>({ 65535, 65536, 65537, 1, 0 })));
  };
  std::string unit = r.chance(1, 6) ? r.one_of<const char*>({ "Bytes", "BYTES", "bYtEs" }) : "bytes";
  std::vector<u64> big { size, size + 1, size * 2 + 5, 1ull << 32, (1ull << 63) - 1, 1ull << 63, ~0ull - 1, ~0ull, ~0ull - size, ~0ull - size + 1 };
  auto k = r.below(size ? 14 : 10);
  switch (k) {
  case 0: { // begins behind the end
    auto a = r.pick(big), b = r.chance(1, 4) ? r.pick(big) : a;
    if (b < a) std::swap(a, b);
    g.text = unit + "=" + str(a) + "-" + (r.flip() ? str(b) : "");
    g.w.kind = want::not_satisfiable;
    break;
  }
  case 1: { // reaches behind the end
    if (!size) return make_range(r, size);
    u64 a = r.below(size);
    g.text = unit + "=" + str(a) + "-" + str(r.pick(big));
    g.w.kind = want::not_satisfiable;
    break;
  }
  case 2: // another unit
    g.text = r.one_of<const char*>({ "x", "byte", "bytess", "items", "none", "seconds" }) + std::string("=0-") + str(r.below(5));
    g.w.kind = want::not_satisfiable;
    break;
  case 3: // reversed
    g.text = unit + "=" + str(5 + r.below(100)) + "-" + str(r.below(5));
    g.w.kind = want::any_error;
    break;
  case 4: // nonsense: whatever the answer, it is the whole file or an error
    g.text = r.one_of<const char*>({ "", "bytes", "bytes=", "bytes=-", "bytes=--1", "bytes=a-b", "bytes=1-2-3", "bytes=0x1-0x2", "bytes=+1-+2", "bytes=1.5-2", "=", "=0-1", "bytes==0-1",
        "bytes=,", "bytes=0-1,", "bytes=99999999999999999999-", "bytes=0-99999999999999999999", "bytes=-99999999999999999999", "bytes=18446744073709551616-18446744073709551617", "-", "0-1",
        "bytes:0-1", "bytes=0", "bytes=1;2", "bytes=0-1=", "bytes=\"0-1\"" });
    g.w.kind = want::any_error;
    break;
  case 5:
    g.text = unit + "=-0";
    g.w.kind = want::any_error;
    break;
  case 6: { // suffix longer than or equal to the file
    u64 n = r.flip() ? size : r.pick(big);
    g.text = unit + "=-" + str(n);
    if (size) g.w = { want::part, 0, size };
    else g.w.kind = want::any_error;
    break;
  }
  case 7: // random characters
    g.text = "bytes=" + r.from("0123456789-,= x", r.below(12));
    g.w.kind = want::whole_or_error;
    break;
  case 8:
  case 9:
    if (!size) return make_range(r, size);
    [[fallthrough]];
  case 10: {
    u64 a, b;
    in(a, b);
    g.text = unit + "=" + str(a) + "-" + str(b);
    g.w = { want::part, a, b - a + 1 };
    break;
  }
  case 11: {
    u64 a, b;
    in(a, b);
    g.text = unit + "=" + str(a) + "-";
    g.w = { want::part, a, size - a };
    break;
  }
  case 12: {
    u64 n = 1 + r.below(size);
    g.text = unit + "=-" + str(n);
    g.w = { want::part, size - n, n };
    break;
  }
  default: { // several: the first is served
    u64 a, b, c, d;
    in(a, b);
    in(c, d);
    g.text = unit + "=" + str(a) + "-" + str(b) + "," + (r.flip() ? " " : "") + str(c) + "-" + str(d);
    g.w = { want::part, a, b - a + 1 };
  }
  }
  return g;
}

bool number(std::string_view s, u64& v)
{
  if (s.empty() || s.size() > 20) return false;
  v = 0;
  for (char c : s) {
    if (c < '0' || c > '9') return false;
    v = v * 10 + u64(c - '0');
  }
  return true;
}
bool content_range(std::string_view s, std::string& a, std::string& b, std::string& t)
{
  if (s.substr(0, 6) != "bytes ") return false;
  s.remove_prefix(6);
  auto slash = s.find('/');
  if (slash == s.npos) return false;
  t = std::string(s.substr(slash + 1));
  s = s.substr(0, slash);
  auto dash = s.find('-');
  a = std::string(s.substr(0, dash));
  b = dash == s.npos ? "" : std::string(s.substr(dash + 1));
  return true;
}
// inline, or attachment; filename="..." (quoted-string)
bool disposition(std::string_view s, std::string& type, std::string& name)
{
  auto semi = s.find(';');
  type = std::string(s.substr(0, semi));
  name.clear();
  if (semi == s.npos) return true;
  s.remove_prefix(semi + 1);
  while (!s.empty() && s.front() == ' ') s.remove_prefix(1);
  if (s.substr(0, 10) != "filename=\"") return false;
  s.remove_prefix(10);
  for (;;) {
    if (s.empty()) return false;
    char c = s.front();
    s.remove_prefix(1);
    if (c == '"') return s.empty();
    if (c == '\\') {
      if (s.empty()) return false;
      c = s.front();
      s.remove_prefix(1);
    }
    name += c;
  }
}

struct exchange {
  std::string head; // request
  bool is_head = false;
};

void judge(const doc& d, const want& w, const srv::message& m, bool head, bool ranges, const std::string& ext_type, bool check_type, const std::string& disp, const std::string& ctx)
{
  auto one = [&](const std::string& n) {
    auto v = m.get(n);
    return v.size() == 1 ? v[0] : v.empty() ? std::string("<none>") : std::string("<several>");
  };
  auto text = [&] { return ctx + " size " + std::to_string(d.data.size()) + " -> " + std::to_string(m.status) + " " + srv::show(m.h) + " body " + std::to_string(m.body.size()); };
  VH_CHECK(m.st == srv::message::complete, "no-response", text() + " " + m.why);
  if (m.st != srv::message::complete) return;
  bool err = m.status == 416 || m.status == 400;
  bool ok = true;
  switch (w.kind) {
  case want::whole: ok = m.status == 200; break;
  case want::part: ok = m.status == 206; break;
  case want::not_satisfiable: ok = m.status == 416; break;
  case want::not_modified: ok = m.status == 304; break;
  case want::not_found: ok = m.status == 404; break;
  case want::any_error: ok = err || m.status == 200; break;
  case want::whole_or_error: ok = err || m.status == 200 || m.status == 206; break;
  }
  VH_CHECK(ok, std::string("status:") + (w.kind == want::part ? "range" : w.kind == want::not_satisfiable ? "unsatisfiable" : w.kind == want::not_modified ? "not-modified" : "other"), text());
  if (!ok) return;
  vh::count("status-" + std::to_string(m.status));
  if (m.status == 200 || m.status == 206 || m.status == 304) {
    VH_CHECK(one("last-modified") == http_date(d.mtime), "last-modified", text() + " expected " + http_date(d.mtime));
    note_tag(d, one("etag"));
  }
  std::size_t from = 0, n = d.data.size();
  if (m.status == 206) {
    std::string a, b, t;
    bool cr = content_range(one("content-range"), a, b, t);
    u64 x = 0, y = 0;
    cr = cr && number(a, x) && number(b, y) && x <= y && y < d.data.size();
    VH_CHECK(cr, "content-range", text());
    if (!cr) return;
    from = x;
    n = y - x + 1;
    if (w.kind == want::part) VH_CHECK(from == w.from && n == w.n, "content-range", text() + " expected " + std::to_string(w.from) + "+" + std::to_string(w.n));
    if (t != "*" && t != std::to_string(d.data.size()))
      VH_CHECK(false, t == std::to_string(n) ? "content-range-total-is-length" : "content-range-total", text());
  } else if (m.status == 416) {
    std::string a, b, t;
    VH_CHECK(content_range(one("content-range"), a, b, t) && a == "*" && t == std::to_string(d.data.size()), "content-range-416", text());
  } else VH_CHECK(m.status == 400 || m.get("content-range").empty(), "content-range-unasked", text());
  if (m.status == 200 || m.status == 206) {
    if (!head) {
      bool same = m.body.size() == n && std::string_view(d.data).substr(from, n) == m.body;
      VH_CHECK(same, m.status == 206 ? "partial-bytes" : "file-bytes", text() + " expected " + std::to_string(n) + " from " + std::to_string(from));
    } else VH_CHECK(m.body.empty(), "head-body", text());
    if (m.framing == srv::message::length || head) {
      auto cl = m.get("content-length");
      if (!cl.empty()) VH_CHECK(cl[0] == std::to_string(n), "content-length", text());
    }
    if (check_type) VH_CHECK(one("content-type") == ext_type, "content-type", text() + " expected " + ext_type);
    else VH_CHECK(m.get("content-type").size() == 1, "content-type", text());
    std::string type, name;
    bool dok = disposition(one("content-disposition"), type, name);
    VH_CHECK(dok && (type == "inline" || type == "attachment"), "disposition-syntax", text());
    if (!disp.empty()) VH_CHECK(type == (disp == "i" ? "inline" : "attachment"), "disposition", text());
    if (type == "attachment") {
      bool clean = true;
      for (unsigned char c : d.name)
        if (c < 0x20 || c == 0x7f) clean = false;
      if (clean) VH_CHECK(name == d.name, "disposition-name", text() + " name " + vh::esc(name));
      else VH_CHECK(!name.empty(), "disposition-name", text());
    }
    VH_CHECK(!ranges || one("accept-ranges") == "bytes", "accept-ranges", text());
  } else VH_CHECK(m.status == 404 || m.body.empty(), "error-body", text());
  // a header smuggled in by the name of the file
  VH_CHECK(m.get("x-smuggled").empty(), "header-injection", text());
}

std::string any_name(vh::rng& r, const std::string& ext)
{
  std::string s = r.from("abcdefghijABC0123456789_-", 1 + r.below(12));
  if (r.chance(1, 4)) s += r.one_of<const char*>({ "a b", "semi;colon", "co,ma", "quo\"te", "back\\slash", "\"", "\\", "\\\"", "per%20cent", "\xc3\xa4\xe2\x82\xac", "tick'", "eq=ual", "dot.dot", "(x)", "filename=\"y" });
  if (r.chance(1, 25)) s += r.one_of<const char*>({ "\r\nX-Smuggled: 1", "\nX-Smuggled: 1", "\r", "\x01", "\x7f", "\t" });
  return ext.empty() ? s : s + "." + ext;
}

std::string variant_tag(vh::rng& r, const std::string& tag, bool& match)
{
  // other tags never equal the file's
  auto other = [&] { return std::string(r.flip() ? "W/" : "") + "\"" + r.from("abcdef0123456789-,", r.below(20)) + "z\""; };
  auto own = [&] { return r.flip() ? tag : "W/" + tag; };
  std::string s;
  match = r.flip();
  auto n = 1 + r.below(4), at = r.below(n);
  for (std::size_t i = 0; i < n; ++i) {
    if (i) s += r.one_of<const char*>({ ",", ", ", " , ", ",\t" });
    s += match && i == at ? own() : other();
  }
  return s;
}

bool uring_works()
{
#ifndef VH_FILE_STANDIN
  static bool ok = [] {
    io_uring u;
    if (io_uring_queue_init(8, &u, 0) != 0) return false;
    io_uring_queue_exit(&u);
    return true;
  }();
  return ok;
#else
  return true;
#endif
}

} // namespace

// a file's life: requests of every kind between changes of the file
VH_SUITE("serve", 400, 12000)
{
  if (!uring_works()) return;
  auto kind = r.pick(kinds);
  doc d = create(r, any_name(r, kind[0]));
  srv::client c(server().path);
  std::string tag;
  auto steps = 4 + r.below(12);
  std::string hist;
  for (std::size_t i = 0; i < steps; ++i) {
    if (r.chance(1, 4)) {
      switch (r.below(4)) {
      case 0: // same size, other bytes and time
        d.data = content(r, d.data.size());
        store(d);
        set_time(d, d.mtime + r.one_of<long>({ 1, -1, 60, 3600, 86400, 100000000 }), r.range(0, 999999999));
        break;
      case 1: // other size, same time
        d.data = content(r, file_size(r));
        store(d);
        set_time(d, d.mtime, r.range(0, 999999999));
        break;
      case 2:
        d.data = content(r, d.data.size() + 1 - 2 * (d.data.size() > 0 && r.flip()));
        store(d);
        set_time(d, d.mtime, 0);
        break;
      default: set_time(d, some_time(r), r.range(0, 999999999));
      }
      tag.clear();
      vh::count("file-changes");
    }
    rough(r);
    want w;
    std::string h = "Host: h\r\nX-File: " + d.id + "\r\n", ctx = d.name;
    std::string method = r.chance(1, 8) ? "HEAD" : "GET";
    bool with = !r.chance(1, 8), typed = false;
    std::string type = kind[1], disp = kind[2];
    if (with && r.chance(1, 10)) {
      typed = true;
      type = r.one_of<const char*>({ "text/plain", "application/x-thing", "text/html; charset=utf-8" });
      h += "X-Type: " + type + "\r\n";
    }
    bool conditional = false;
    if (r.chance(1, 3) && !tag.empty()) {
      bool match = true;
      std::string v = r.chance(1, 8) ? "*" : variant_tag(r, tag, match);
      h += "If-None-Match: " + v + "\r\n";
      ctx += " inm " + v;
      if (match && with) {
        conditional = true;
        w.kind = want::not_modified;
      }
    } else if (r.chance(1, 20)) {
      h += "If-None-Match: " + std::string(r.one_of<const char*>({ "\"\"\"", "x", "\"open", "W/x", "*x", "\"a\" \"b\"" })) + "\r\n";
      if (with) {
        conditional = true;
        w.kind = want::any_error;
      }
    }
    if (r.chance(2, 3)) {
      auto g = make_range(r, d.data.size());
      h += "Range: " + g.text + "\r\n";
      ctx += " range " + g.text;
      if (with && !conditional) w = g.w;
      vh::seen(g.text + std::to_string(d.data.size()));
    }
    if (!c) c = srv::client(server().path);
    c.send(method + (with ? " /f" : " /plain") + " HTTP/1.1\r\n" + h + "\r\n");
    auto m = srv::next_response(c, method == "HEAD", 30000);
    judge(d, w, m, method == "HEAD", with, type, !type.empty(), typed ? "" : disp, method + " " + ctx);
    if (m.st != srv::message::complete) {
      c = srv::client(server().path);
      continue;
    }
    auto t = m.get("etag");
    if (t.size() == 1) tag = t[0];
    if (m.close) c = srv::client(server().path);
  }
  no_plan();
  c.close();
  for (int i = 0; i < 5000 && files_open(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  VH_CHECK(files_open() == 0, "file-leak", std::to_string(files_open()));
  forget(d);
}

VH_SUITE("missing", 20, 400)
{
  if (!uring_works()) return;
  srv::client c(server().path);
  doc d = create(r, any_name(r, "txt"));
  forget(d);
  c.send("GET /f HTTP/1.1\r\nHost: h\r\nX-File: " + d.id + "\r\nRange: bytes=0-1\r\n\r\n");
  auto m = srv::next_response(c);
  VH_CHECK(m.st == srv::message::complete && m.status == 404, "missing-file", std::to_string(m.status));
}

// the stream over any window of the file
VH_SUITE("windows", 300, 10000)
{
  if (!uring_works()) return;
  doc d = create(r, "w.bin");
  srv::client c(server().path);
  for (int i = 0; i < 4; ++i) {
    rough(r);
    u64 size = d.data.size();
    u64 o = r.chance(1, 6) ? size + r.below(3) : r.below(size + 1);
    bool all = r.chance(1, 6), open = r.chance(1, 4);
    u64 n = r.chance(1, 8) ? size + r.below(100000) : r.below(size - std::min(o, size) + 1);
    if (open && o > size) o = size;
    c.send("GET /direct?o=" + std::to_string(o) + "&n=" + (all ? "all" : open ? "-" : std::to_string(n)) + " HTTP/1.1\r\nHost: h\r\nX-File: " + d.id + "\r\n\r\n");
    auto m = srv::next_response(c, false, 30000);
    std::string want = all ? d.data : o >= size ? "" : d.data.substr(o, open ? std::string::npos : n);
    VH_CHECK(m.st == srv::message::complete && m.status == 200 && m.body == want, "window-bytes", "offset " + std::to_string(o) + " of " + std::to_string(size) + (all ? " all" : open ? " open" : " n " + std::to_string(n)) + " -> " + std::to_string(m.status) + " " + std::to_string(m.body.size()) + " expected " + std::to_string(want.size()) + m.why);
    vh::count("windows");
    vh::seen(std::to_string(o) + "/" + std::to_string(n) + "/" + std::to_string(size));
    if (m.st != srv::message::complete) return;
  }
  no_plan();
  forget(d);
}

VH_SUITE("uploads", 120, 4000)
{
  if (!uring_works()) return;
  doc d = create(r, "u.bin");
  rough(r);
  std::string body = content(r, file_size(r));
  std::string h = "POST /upload HTTP/1.1\r\nHost: h\r\nX-File: " + d.id + "\r\n";
  std::string text;
  bool cut = r.chance(1, 8) && !body.empty();
  if (r.flip()) text = h + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
  else {
    text = h + "Transfer-Encoding: chunked\r\n\r\n";
    for (auto& p : aio::chop(r, body, false)) {
      char b[20];
      std::snprintf(b, sizeof b, "%zx\r\n", p.size());
      text += b + p + "\r\n";
    }
    text += "0\r\n\r\n";
  }
  srv::client c(server().path);
  if (cut) text.resize(text.size() - 6 - r.below(std::min<std::size_t>(body.size(), 100)));
  if (cut && body.size() < 20) return forget(d);
  c.send(text);
  if (cut) {
    c.half_close();
    c.drain(30000);
    VH_CHECK(c.in().find(" 200 ") == std::string::npos, "upload-cut-accepted", vh::esc(c.in()));
    vh::count("uploads-cut");
  } else {
    auto m = srv::next_response(c, false, 30000);
    std::ifstream f(d.path, std::ios::binary);
    std::string got((std::istreambuf_iterator<char>(f)), {});
    VH_CHECK(m.status == 200 && m.body == std::to_string(body.size()), "upload-count", std::to_string(m.status) + " " + vh::esc(m.body) + " expected " + std::to_string(body.size()));
    VH_CHECK(got == body, "upload-bytes", std::to_string(got.size()) + " expected " + std::to_string(body.size()));
    vh::count("uploads");
  }
  no_plan();
  forget(d);
}

#ifdef VH_FILE_STANDIN
// reading fails part way, or the file shrinks or grows under the reader: never
// other bytes than the file's, never a complete message for a failed read
VH_SUITE("faults", 200, 6000)
{
  doc d = create(r, "x.bin");
  if (d.data.empty()) return forget(d);
  srv::client c(server().path);
  auto size = d.data.size();
  auto mode = r.below(3);
  u64 from = 0, n = size;
  std::string range;
  if (r.flip()) {
    from = r.below(size);
    n = 1 + r.below(size - from);
    range = "Range: bytes=" + std::to_string(from) + "-" + std::to_string(from + n - 1) + "\r\n";
  }
  auto at = from + r.below(n);
  auto q = std::make_shared<vh::rng>(r.u64());
  auto done = std::make_shared<std::atomic<bool>>(false);
  int err = r.one_of<int>({ EIO, EINTR, ENOMEM, ESTALE });
  auto bigger = size + 1 + r.below(100000);
  set_plan([=, path = d.path](bool, std::uint64_t pos, std::size_t k) {
    vh_file::plan p;
    if (k > 1 && q->flip()) p.most = 1 + q->below(k);
    if (pos + p.most < pos || pos + std::min(p.most, k) > at) {
      if (mode == 0) {
        if (pos == at || q->flip()) p.error = err;
        else p.most = at - pos;
        if (p.error || !p.most) {
          p.error = err;
          done->store(true);
        }
      } else if (!done->exchange(true)) {
        if (::truncate(path.c_str(), off_t(mode == 1 ? at : bigger)) != 0) { }
      }
    }
    return p;
  });
  c.send("GET /f HTTP/1.1\r\nHost: h\r\nX-File: " + d.id + "\r\n" + range + "\r\n");
  auto m = srv::next_response(c, false, 30000);
  no_plan();
  auto want = d.data.substr(from, n);
  auto ctx = "mode " + std::to_string(mode) + " size " + std::to_string(size) + " " + range + " at " + std::to_string(at) + " -> " + std::to_string(m.status) + " body " + std::to_string(m.body.size()) + " " + m.why;
  if (mode == 0) {
    VH_CHECK(m.st != srv::message::complete, "failed-read-complete", ctx);
    VH_CHECK(m.st == srv::message::incomplete && c.eof(), "failed-read-open", ctx);
    VH_CHECK(want.compare(0, m.body.size(), m.body) == 0, "failed-read-bytes", ctx);
    vh::count("faults:error");
  } else if (mode == 1) {
    VH_CHECK(m.body.size() <= n && want.compare(0, m.body.size(), m.body) == 0, "truncated-bytes", ctx);
    VH_CHECK(m.st == srv::message::complete || c.eof(), "truncated-stuck", ctx);
    vh::count("faults:truncated");
  } else {
    VH_CHECK(m.st == srv::message::complete && m.body == want, "grown-bytes", ctx);
    vh::count("faults:grown");
  }
  c.close();
  for (int i = 0; i < 5000 && files_open(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  VH_CHECK(files_open() == 0, "file-leak", std::to_string(files_open()));
  VH_CHECK(vh_file::g.concurrent == 0, "concurrent-file-use", "two operations on one file");
  forget(d);
}

// several clients read the same files at once
VH_SUITE("together", 10, 200)
{
  rough(r);
  std::vector<doc> ds;
  for (int i = 0; i < 3; ++i) ds.push_back(create(r, "t.bin"));
  std::vector<std::thread> ts;
  for (int t = 0; t < 5; ++t)
    ts.emplace_back([&, seed = r.u64()] {
      vh::rng q(seed);
      srv::client c(server().path);
      for (int i = 0; i < 10; ++i) {
        auto& d = ds[q.below(3)];
        std::string range;
        std::string want = d.data;
        if (q.flip() && !d.data.empty()) {
          auto a = q.below(d.data.size()), b = a + q.below(d.data.size() - a);
          range = "Range: bytes=" + std::to_string(a) + "-" + std::to_string(b) + "\r\n";
          want = d.data.substr(a, b - a + 1);
        }
        c.send("GET /f HTTP/1.1\r\nHost: h\r\nX-File: " + d.id + "\r\n" + range + "\r\n");
        auto m = srv::next_response(c, false, 30000);
        VH_CHECK(m.st == srv::message::complete && m.body == want, "together-bytes", std::to_string(m.status) + " " + std::to_string(m.body.size()) + " expected " + std::to_string(want.size()));
        vh::count("together");
      }
    });
  for (auto& t : ts) t.join();
  no_plan();
  for (auto& d : ds) forget(d);
}
#endif

int main(int argc, char** argv)
{
  if (uring_works()) {
    vh::require("status-200", 50);
    vh::require("status-206", 50);
    vh::require("status-304", 10);
    vh::require("status-416", 20);
    vh::require("windows", 20);
    vh::require("uploads", 10);
  }
  vh::count(standin ? "standin" : uring_works() ? "io_uring" : "io_uring-unavailable");
  return vh::main(argc, argv);
}
