// P35: streamed data flows piece by piece and in bounded memory. The heap in
// use (as the sanitizer's allocator counts it), the producers' progress and what
// has arrived at the client are sampled while the data flows.
#include "codec.hpp"
#include "srv.hpp"

#include <fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_inflate_stream.hpp>

#include <brotli/encode.h>
#include <sanitizer/allocator_interface.h>
#include <zlib.h>

namespace web = fitoria::web;
namespace http = fitoria::http;
namespace net = boost::asio;
using fitoria::awaitable;
using bytes = aio::bytes;

namespace {

std::size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
struct peak {
  std::size_t base = heap();
  std::atomic<std::size_t> top { 0 };
  std::atomic<long> samples { 0 };
  void look()
  {
    auto h = heap();
    ++samples;
    auto t = top.load();
    while (h > t && !top.compare_exchange_weak(t, h)) { }
  }
  std::size_t grown() const { return top > base ? top - base : 0; }
};

awaitable<void> nap(int us)
{
  auto t = net::steady_timer(co_await net::this_coro::executor);
  t.expires_after(std::chrono::microseconds(us));
  co_await t.async_wait(fitoria::use_awaitable);
}

// a producer under the test's control
struct feed {
  std::vector<std::size_t> sizes;      // pieces
  std::size_t repeat = 1;              // the list is produced this many times
  std::atomic<std::size_t> allowed { 0 };
  std::atomic<std::size_t> requested { 0 }, bytes_out { 0 };
  std::atomic<bool> stop { false };
  peak* mem = nullptr;
};
using feed_ptr = std::shared_ptr<feed>;
std::mutex g_mx;
std::map<std::string, feed_ptr> g_feeds;

class producer {
public:
  using is_async_readable_stream = void;
  explicit producer(feed_ptr f)
      : f_(std::move(f))
  {
  }
  auto async_read_some() -> awaitable<fitoria::optional<fitoria::expected<bytes, std::error_code>>>
  {
    auto i = f_->requested++;
    if (f_->mem) f_->mem->look();
    while (f_->allowed <= i && !f_->stop) co_await nap(200);
    if (f_->stop || i >= f_->sizes.size() * f_->repeat) co_return fitoria::nullopt;
    auto n = f_->sizes[i % f_->sizes.size()];
    bytes b(n);
    for (std::size_t k = 0; k < n; ++k) b[k] = std::byte((f_->bytes_out + k) % 251);
    f_->bytes_out += n;
    co_return b;
  }

private:
  feed_ptr f_;
};

awaitable<web::response> serve_feed(web::request& req)
{
  feed_ptr f;
  {
    std::lock_guard l(g_mx);
    f = g_feeds.at(std::string(req.headers().get("x-feed").value_or("")));
  }
  co_return web::response::ok().set_stream_body(producer(f));
}
std::atomic<long> g_complete { 0 };
awaitable<web::response> serve_sink(web::request& req)
{
  std::size_t n = 0;
  for (auto x = co_await req.body().async_read_some(); x; x = co_await req.body().async_read_some()) {
    if (!*x) co_return web::response::bad_request().set_body("cut");
    n += (*x)->size();
  }
  ++g_complete;
  co_return web::response::ok().set_body(std::to_string(n));
}

constexpr std::size_t body_limit = 256 << 10, header_limit = 32 << 10;
auto build(web::http_server::builder b)
{
  return b.set_request_timeout(std::chrono::seconds(120))
      .set_request_body_limit(body_limit)
      .set_request_header_limit(header_limit)
      .serve(web::route::get<"/feed">(serve_feed))
      .serve(web::route::post<"/sink">(serve_sink))
      .serve(web::route::get<"/small/{x}">([](std::string s) -> awaitable<web::response> { co_return web::response::ok().set_header("x-a", "b").set_body(s + "!"); }))
      .build();
}

bool right(std::string_view s)
{
  for (std::size_t k = 0; k < s.size(); ++k)
    if ((unsigned char)s[k] != k % 251) return false;
  return true;
}

std::size_t piece(vh::rng& r)
{
  return r.one_of<std::size_t>({ 1, 2, 100, 4096, 8191, 65535, 65536, 65537, 200000, 1 + r.below(5000) });
}

struct closer {
  feed_ptr f;
  ~closer() { f->stop = true; }
};

feed_ptr make_feed(const std::string& id)
{
  auto f = std::make_shared<feed>();
  std::lock_guard l(g_mx);
  g_feeds[id] = f;
  return f;
}

} // namespace

// every piece is there before the next one exists
VH_SUITE("incremental", 60, 1500)
{
  srv::running s([](web::http_server::builder b) { return build(std::move(b)); });
  bool tcp = r.flip();
  auto c = tcp ? srv::client(s.bind_tcp()) : srv::client(s.path);
  for (int round = 0; round < 2; ++round) {
    auto f = make_feed("f");
    closer cl { f };
    for (auto n = 1 + r.below(12); n; --n) f->sizes.push_back(piece(r));
    VH_CHECK(c.send("GET /feed HTTP/1.1\r\nHost: h\r\nx-feed: f\r\n\r\n"), "incremental:send", "");
    std::size_t sum = 0;
    auto until = std::chrono::steady_clock::now() + std::chrono::seconds(25);
    bool ok = true;
    for (std::size_t i = 0; i < f->sizes.size() && ok; ++i) {
      sum += f->sizes[i];
      f->allowed = i + 1;
      srv::message m;
      for (;;) {
        m = srv::parse_response(c.in(), false, c.eof());
        if (m.body.size() >= sum || m.st != srv::message::incomplete || c.eof() || std::chrono::steady_clock::now() > until) break;
        c.pump(20);
      }
      ok = m.st == srv::message::incomplete && m.body.size() == sum && right(m.body);
      VH_CHECK(ok, "incremental:late", "piece " + std::to_string(i) + " of " + std::to_string(f->sizes[i]) + " bytes: " + std::to_string(m.body.size()) + " of " + std::to_string(sum) + " bytes arrived before the next piece was made");
      VH_CHECK(f->requested <= i + 2, "incremental:ahead", std::to_string(f->requested));
      vh::count("pieces seen in time");
    }
    if (!ok) return;
    f->allowed = f->sizes.size() + 1;
    auto m = srv::next_response(c);
    VH_CHECK(m.st == srv::message::complete && m.body.size() == sum, "incremental:end", m.why);
    vh::seen(std::to_string(sum) + (tcp ? "t" : "u"));
  }
}

// a client that does not read stops the producer; one that does gets it all
VH_SUITE("backpressure", 16, 400)
{
  srv::running s([](web::http_server::builder b) { return build(std::move(b)); });
  bool tcp = r.flip();
  auto c = tcp ? srv::client(s.bind_tcp()) : srv::client(s.path);
  auto f = make_feed("f");
  closer cl { f };
  peak mem;
  f->mem = &mem;
  f->sizes = { piece(r), piece(r), piece(r), 50000 };
  std::size_t one = 0, big = 0;
  for (auto n : f->sizes) {
    one += n;
    big = std::max(big, n);
  }
  f->repeat = (std::size_t(40) << 20) / one;
  f->allowed = f->sizes.size() * f->repeat + 1;
  std::string what = std::to_string(one) + " x " + std::to_string(f->repeat) + (tcp ? " tcp" : " unix");
  VH_CHECK(c.send("GET /feed HTTP/1.1\r\nHost: h\r\nx-feed: f\r\n\r\n"), "backpressure:send", "");
  // until nothing moves any more
  std::size_t last = 0;
  for (int still = 0, i = 0; still < 10 && i < 1000; ++i) {
    ::usleep(20000);
    mem.look();
    auto now = f->bytes_out.load();
    still = now == last && now > 0 ? still + 1 : 0;
    last = now;
  }
  // what the kernel's buffers take, and a few pieces
  std::size_t kernel = tcp ? std::size_t(16) << 20 : std::size_t(2) << 20;
  VH_CHECK(f->bytes_out <= kernel + 4 * big, "backpressure:not-stopped", what + ": " + std::to_string(f->bytes_out) + " bytes produced for a client that reads nothing");
  std::size_t bound = 6 * big + (std::size_t(2) << 20);
  VH_CHECK(mem.grown() <= bound, "backpressure:memory", what + ": heap grew by " + std::to_string(mem.grown()));
  // now it reads, keeping nothing
  std::size_t want = one * f->repeat, got = 0;
  std::string in;
  auto skip = [&](bool& done) {
    in += c.in();
    c.in().clear();
    c.in().shrink_to_fit();
    std::size_t p = 0;
    if (got == 0 && in.starts_with("HTTP")) {
      auto e = in.find("\r\n\r\n");
      if (e == in.npos) return true;
      p = e + 4;
    }
    for (;;) {
      auto e = in.find("\r\n", p);
      if (e == in.npos) break;
      auto n = std::strtoull(in.substr(p, e - p).c_str(), nullptr, 16);
      if (n == 0) {
        done = true;
        break;
      }
      if (in.size() < e + 2 + n + 2) break;
      for (std::size_t k = 0; k < n; k += 97)
        if ((unsigned char)in[e + 2 + k] != (got + k) % 251) return false;
      got += n;
      p = e + 2 + n + 2;
    }
    in.erase(0, p);
    return true;
  };
  bool done = false, right_bytes = true;
  auto until = std::chrono::steady_clock::now() + std::chrono::seconds(30);
  while (!done && right_bytes && std::chrono::steady_clock::now() < until) {
    c.pump(50);
    right_bytes = skip(done);
    mem.look();
  }
  VH_CHECK(right_bytes, "backpressure:bytes", what);
  VH_CHECK(done && got == want, "backpressure:total", what + ": " + std::to_string(got) + " of " + std::to_string(want));
  VH_CHECK(mem.grown() <= bound + (std::size_t(1) << 20) + 2 * big, "backpressure:memory", what + ": heap grew by " + std::to_string(mem.grown()) + " while it was read");
  vh::count("heap samples", std::uint64_t(mem.samples));
  vh::count("producers stopped");
  vh::seen(what);
  vh::sample(what + " produced " + std::to_string(last) + " grown " + std::to_string(mem.grown()));
  s.stop();
  f->mem = nullptr;
}

// what a client sends beyond the limits is not collected
VH_SUITE("limits", 24, 600)
{
  srv::running s([](web::http_server::builder b) { return build(std::move(b)); });
  auto c = srv::client(s.path);
  g_complete = 0;
  std::string first, more, kind;
  std::string big(60000, 'a');
  switch (idx % 8) {
  case 0:
    kind = "endless header value";
    first = "POST /sink HTTP/1.1\r\nHost: h\r\nX-A: ";
    more = big;
    break;
  case 1:
    kind = "endless header lines";
    first = "POST /sink HTTP/1.1\r\nHost: h\r\n";
    for (int i = 0; i < 500; ++i) more += "X-" + std::to_string(i) + ": " + std::string(100, 'b') + "\r\n";
    break;
  case 2:
    kind = "endless target";
    first = "POST /";
    more = big;
    break;
  case 3:
    kind = "endless method";
    more = big;
    break;
  case 4:
    kind = "endless chunks";
    first = "POST /sink HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n";
    more = "ea60\r\n" + big + "\r\n";
    break;
  case 5:
    kind = "one endless chunk";
    first = "POST /sink HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\nfffffff0\r\n";
    more = big;
    break;
  case 6:
    kind = "endless chunk extension";
    first = "POST /sink HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n5;a=";
    more = big;
    break;
  default:
    kind = "endless trailer";
    first = "POST /sink HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nabcde\r\n0\r\n";
    for (int i = 0; i < 500; ++i) more += "X-" + std::to_string(i) + ": " + std::string(100, 'b') + "\r\n";
  }
  peak mem;
  c.send(first);
  std::size_t sent = 0;
  auto until = std::chrono::steady_clock::now() + std::chrono::seconds(15);
  while (sent < (std::size_t(48) << 20) && !c.eof() && std::chrono::steady_clock::now() < until) {
    if (!c.send(more, 3000)) break;
    sent += more.size();
    mem.look();
  }
  mem.look();
  std::size_t bound = 8 * body_limit + 8 * header_limit + (std::size_t(2) << 20);
  VH_CHECK(mem.grown() <= bound, "limits:memory", kind + ": heap grew by " + std::to_string(mem.grown()) + " after " + std::to_string(sent) + " bytes");
  VH_CHECK(g_complete == 0, "limits:delivered", kind);
  vh::count("endless: " + kind);
  vh::count("heap samples", std::uint64_t(mem.samples));
  vh::seen(kind);
  vh::sample(kind + " sent " + std::to_string(sent) + " grown " + std::to_string(mem.grown()));
}

// long conversations, many connections: nothing accumulates
VH_SUITE("conversation", 6, 120)
{
  srv::running s([](web::http_server::builder b) { return build(std::move(b)); });
  auto c = srv::client(s.path);
  bool churn = r.flip();
  auto one = [&](std::size_t i) {
    if (churn && i % 3 == 0) c = srv::client(s.path);
    std::string body(i % 700, 'x');
    std::string q = i % 5 == 0 ? "POST /sink HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n"
        : i % 7 == 0           ? "GET /missing HTTP/1.1\r\nHost: h\r\n\r\n"
                               : "GET /small/" + std::to_string(i) + " HTTP/1.1\r\nHost: h\r\nX-Fill: " + std::string(i % 300, 'f') + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    if (!c.send(q)) return false;
    auto m = srv::next_response(c);
    return m.st == srv::message::complete;
  };
  // the same requests before and after, and a long way in between
  std::size_t n = 2100, at[2] = { 0, 0 };
  for (std::size_t i = 0; i <= n; ++i) {
    if (!one(i % 350)) {
      vh::fail("conversation:answer", std::to_string(i));
      return;
    }
    if (i == 700 || i == n) at[i == n] = heap();
  }
  VH_CHECK(at[1] <= at[0] + 100000, "conversation:memory", std::to_string(at[1] - at[0]) + " bytes more after " + std::to_string(n - 700) + (churn ? " exchanges on many connections" : " exchanges"));
  vh::count("exchanges", n);
  vh::count("heap samples", 2);
  vh::seen(churn ? "churn" : "one");
  vh::sample(std::to_string(at[0]) + " -> " + std::to_string(at[1]));
}

// ---------------------------------------------------------------- codecs
namespace {

// compresses piece by piece with the original libraries, flushing after each
struct flusher {
  int kind; // 0 deflate, 1 gzip, 2 brotli
  z_stream z {};
  BrotliEncoderState* b = nullptr;
  explicit flusher(int k)
      : kind(k)
  {
    if (k == 2) {
      b = BrotliEncoderCreateInstance(nullptr, nullptr, nullptr);
      BrotliEncoderSetParameter(b, BROTLI_PARAM_QUALITY, 3);
      BrotliEncoderSetParameter(b, BROTLI_PARAM_LGWIN, 16);
    } else deflateInit2(&z, 6, Z_DEFLATED, k == 1 ? 31 : -15, 8, Z_DEFAULT_STRATEGY);
  }
  flusher(const flusher&) = delete;
  ~flusher()
  {
    if (b) BrotliEncoderDestroyInstance(b);
    else deflateEnd(&z);
  }
  std::string put(std::string_view s, bool end)
  {
    std::string out;
    unsigned char buf[4096];
    if (kind == 2) {
      auto* in = reinterpret_cast<const std::uint8_t*>(s.data());
      std::size_t n = s.size();
      for (;;) {
        std::uint8_t* o = buf;
        std::size_t room = sizeof buf;
        BrotliEncoderCompressStream(b, end ? BROTLI_OPERATION_FINISH : BROTLI_OPERATION_FLUSH, &n, &in, &room, &o, nullptr);
        out.append(reinterpret_cast<char*>(buf), sizeof buf - room);
        if (n == 0 && !BrotliEncoderHasMoreOutput(b)) break;
      }
    } else {
      z.next_in = reinterpret_cast<unsigned char*>(const_cast<char*>(s.data()));
      z.avail_in = unsigned(s.size());
      for (;;) {
        z.next_out = buf;
        z.avail_out = sizeof buf;
        deflate(&z, end ? Z_FINISH : Z_SYNC_FLUSH);
        out.append(reinterpret_cast<char*>(buf), sizeof buf - z.avail_out);
        if (z.avail_out > 0) break;
      }
    }
    return out;
  }
};

// a stream computed on the fly, which keeps nothing
struct endless {
  using is_async_readable_stream = void;
  std::shared_ptr<std::function<std::optional<std::string>()>> next;
  auto async_read_some() -> awaitable<fitoria::optional<fitoria::expected<bytes, std::error_code>>>
  {
    auto x = (*next)();
    if (!x) co_return fitoria::nullopt;
    co_return aio::to_bytes(*x);
  }
};

const char* k_codecs[] = { "deflate", "gzip", "brotli" };

web::any_async_readable_stream unpack(int kind, endless e)
{
  namespace d = web::middleware::detail;
  if (kind == 0) return d::async_inflate_stream<endless>(std::move(e));
  if (kind == 1) return d::async_gzip_inflate_stream<endless>(std::move(e));
  return d::async_brotli_inflate_stream<endless>(std::move(e));
}
web::any_async_readable_stream pack(int kind, endless e)
{
  namespace d = web::middleware::detail;
  if (kind == 0) return d::async_deflate_stream<endless>(std::move(e));
  if (kind == 1) return d::async_gzip_deflate_stream<endless>(std::move(e));
  return d::async_brotli_deflate_stream<endless>(std::move(e));
}

std::string words(vh::rng& r, std::size_t n)
{
  std::string s;
  while (s.size() < n) s += r.one_of<std::string>({ "alpha ", "beta ", "gamma ", "delta " }) + std::to_string(r.below(1000));
  s.resize(n);
  return s;
}

} // namespace

// what the sender flushed can be read once its bytes have arrived
VH_SUITE("flushed", 90, 3000)
{
  int kind = int(idx % 3);
  auto fl = std::make_shared<flusher>(kind);
  std::string plain, out;
  auto left = std::make_shared<std::size_t>(2 + r.below(10));
  std::size_t early = 0;
  auto q = std::make_shared<vh::rng>(r.u64());
  std::string pending; // the part of a piece that is yet to be handed over
  bool ended = false;
  endless e { std::make_shared<std::function<std::optional<std::string>()>>([&, fl, left, q]() -> std::optional<std::string> {
    if (pending.empty()) {
      if (ended) return std::nullopt;
      // everything handed over so far has been flushed: it has to be out
      if (out.size() != plain.size()) ++early;
      VH_CHECK(out == plain, std::string("flushed:") + k_codecs[kind], std::to_string(out.size()) + " of " + std::to_string(plain.size()) + " bytes before more input was asked for");
      vh::count("flushed pieces");
      auto s = q->flip() ? q->bytes(q->len(3000)) : words(*q, q->len(100000));
      ended = --*left == 0;
      pending = fl->put(s, ended);
      plain += s;
    }
    auto n = q->flip() ? pending.size() : 1 + q->below(pending.size());
    auto x = pending.substr(0, n);
    pending.erase(0, n);
    return x;
  }) };
  bool fine = true;
  aio::run([&]() -> awaitable<void> {
    auto st = unpack(kind, std::move(e));
    for (;;) {
      auto x = co_await st.async_read_some();
      if (!x) co_return;
      if (!*x) {
        fine = false;
        co_return;
      }
      out += aio::to_string(**x);
    }
  }());
  VH_CHECK(fine && out == plain, std::string("flushed:end-") + k_codecs[kind], std::to_string(out.size()) + " of " + std::to_string(plain.size()));
  vh::seen(k_codecs[kind] + std::to_string(plain.size()));
}

// an unlimited stream through a codec needs a limited amount of memory
VH_SUITE("codec-memory", 12, 240)
{
  int kind = int(idx % 3);
  bool packing = idx / 3 % 2 == 0;
  std::size_t total = std::size_t(vh::thorough() ? 200 : 30) << 20, made = 0, got = 0;
  auto fl = std::make_shared<flusher>(kind);
  auto q = std::make_shared<vh::rng>(r.u64());
  auto unit = std::size_t(1000 + r.below(60000));
  // a few pieces over and over: making them must not dominate
  auto pieces = std::make_shared<std::vector<std::string>>();
  for (int i = 0; i < 4; ++i) pieces->push_back(r.flip() ? r.bytes(unit) : words(r, unit));
  bool ended = false;
  endless e { std::make_shared<std::function<std::optional<std::string>()>>([&, fl, q, pieces]() -> std::optional<std::string> {
    if (ended) return std::nullopt;
    auto& s = (*pieces)[q->below(4)];
    made += s.size();
    ended = made >= total;
    return packing ? s : fl->put(s, ended);
  }) };
  // the encoders' own windows and tables have been set up after a while
  peak mem, later;
  bool fine = true, in_step = true;
  aio::run([&]() -> awaitable<void> {
    auto st = packing ? pack(kind, std::move(e)) : unpack(kind, std::move(e));
    std::size_t reads = 0;
    for (;;) {
      auto x = co_await st.async_read_some();
      mem.look();
      if (made < total / 2) later.base = std::max(later.base, heap());
      else later.look();
      if (!x) co_return;
      if (!*x) {
        fine = false;
        co_return;
      }
      got += (*x)->size();
      if (++reads == 3 && made > 40 * unit) in_step = false;
    }
  }());
  std::string what = std::string(packing ? "pack " : "unpack ") + k_codecs[kind] + " unit " + std::to_string(unit);
  VH_CHECK(fine && (packing || got == made), "codec-memory:data", what + " " + std::to_string(got) + " of " + std::to_string(made));
  VH_CHECK(in_step, "codec-memory:ahead", what + ": reads far ahead of its reader");
  VH_CHECK(later.grown() <= 8 * unit + (std::size_t(2) << 20), "codec-memory:memory", what + ": heap grew by " + std::to_string(later.grown()) + " over the second half of " + std::to_string(made));
  VH_CHECK(mem.grown() <= (std::size_t(160) << 20), "codec-memory:memory", what + ": heap grew by " + std::to_string(mem.grown()) + " over " + std::to_string(made));
  vh::count("heap samples", std::uint64_t(mem.samples));
  vh::seen(what);
  vh::sample(what + " grown " + std::to_string(mem.grown()));
}

int main(int argc, char** argv)
{
  vh::require("pieces seen in time", 50);
  vh::require("producers stopped", 5);
  vh::require("heap samples", 1000);
  vh::require("flushed pieces", 100);
  return vh::main(argc, argv);
}
