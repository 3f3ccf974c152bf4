// P17: body stream adapters against the bytes (and errors) scripted into the source.
#include "aio.hpp"

#include <fitoria/core/dynamic_buffer.hpp>
#include <fitoria/web/any_async_readable_stream.hpp>
#include <fitoria/web/any_body.hpp>
#include <fitoria/web/async_message_parser_stream.hpp>
#include <fitoria/web/async_read_into_stream_file.hpp>
#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/async_readable_file_stream.hpp>
#include <fitoria/web/async_readable_vector_stream.hpp>
#include <fitoria/web/async_write_chunks.hpp>

#include <boost/beast/http.hpp>
#include <deque>
#include <filesystem>
#include <fstream>
#ifdef BOOST_ASIO_HAS_IO_URING
#include <liburing.h>
#endif

namespace web = fitoria::web;
using aio::source;
using fitoria::awaitable;
using fitoria::bytes;

namespace {

std::vector<std::error_code> errors()
{
  namespace e = boost::asio::error;
  return { std::error_code(boost::system::error_code(e::connection_reset)),
           std::error_code(boost::system::error_code(e::eof)),
           std::error_code(boost::system::error_code(e::operation_aborted)),
           std::error_code(boost::system::error_code(boost::beast::http::error::partial_message)),
           std::error_code(boost::system::error_code(boost::beast::http::error::end_of_stream)),
           std::error_code(boost::system::error_code(boost::beast::error::timeout)),
           std::make_error_code(std::errc::io_error), std::make_error_code(std::errc::no_space_on_device) };
}

struct plan {
  std::string body;
  std::shared_ptr<aio::script> sc = std::make_shared<aio::script>();
  std::string show() const
  {
    std::string s = std::to_string(body.size()) + " bytes in";
    for (std::size_t i = 0; i < sc->chunks.size() && i < 12; ++i) s += " " + std::to_string(sc->chunks[i].size());
    if (sc->error) s += " then " + sc->error->message();
    return s;
  }
};
plan make_plan(vh::rng& r, std::size_t max = 200000, int err_den = 3)
{
  plan p;
  std::size_t n = r.chance(1, 3) ? r.one_of<std::size_t>({ 0, 1, 15, 16, 17, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 131072 })
                                 : r.len(max);
  p.body = r.bytes(n);
  p.sc->chunks = aio::chop(r, p.body);
  p.sc->suspend = r.flip();
  if (r.chance(1, err_den)) {
    p.sc->error = r.pick(errors());
    // stop somewhere
    if (r.flip() && !p.sc->chunks.empty()) {
      p.sc->chunks.resize(r.below(p.sc->chunks.size() + 1));
      p.body.clear();
      for (auto& c : p.sc->chunks) p.body += c;
    }
  }
  return p;
}
void judge(const std::string& what, const plan& p, const aio::drained& d)
{
  VH_CHECK(!d.runaway, what + ":endless", what + ": " + p.show() + " did not end");
  if (d.runaway) return;
  if (p.sc->error) {
    VH_CHECK(d.error == p.sc->error, what + ":error-lost", what + ": " + p.show() + " reported " + (d.error ? d.error->message() : "a clean end"));
  } else {
    VH_CHECK(!d.error, what + ":spurious-error", what + ": " + p.show() + " reported " + (d.error ? d.error->message() : ""));
    VH_CHECK(d.stable, what + ":end-not-stable", what + ": " + p.show() + ": data after the end");
  }
  VH_CHECK(d.data == p.body, what + ":data", what + ": " + p.show() + " delivered " + std::to_string(d.data.size()) + " bytes: " + vh::esc(d.data.substr(0, 60)));
}

// An AsyncWriteStream that accepts a few bytes at a time and can fail.
struct sink_state {
  std::string got;
  std::size_t max_write = SIZE_MAX;
  std::size_t fail_at = SIZE_MAX; // fails once this many bytes were accepted
  boost::system::error_code ec;
  long writes = 0, after_error = 0;
  bool failed = false;
};
struct sink {
  using executor_type = fitoria::executor_type;
  executor_type ex;
  std::shared_ptr<sink_state> st;
  executor_type get_executor() const { return ex; }
  template <class Buffers, class Token>
  auto async_write_some(const Buffers& bs, Token&& token)
  {
    return boost::asio::async_initiate<Token, void(boost::system::error_code, std::size_t)>(
        [this](auto h, const Buffers& bs) {
          auto& s = *st;
          ++s.writes;
          if (s.failed) ++s.after_error;
          boost::system::error_code ec;
          std::size_t n = 0;
          if (s.got.size() >= s.fail_at) {
            ec = s.ec;
            s.failed = true;
          } else {
            std::size_t room = std::min(s.max_write, s.fail_at - s.got.size());
            std::string tmp(std::min(room, boost::asio::buffer_size(bs)), 0);
            n = boost::asio::buffer_copy(boost::asio::buffer(tmp), bs, tmp.size());
            s.got += tmp;
          }
          boost::asio::post(ex, [h = std::move(h), ec, n]() mutable { std::move(h)(ec, n); });
        },
        token, bs);
  }
};

// RFC 9112 chunked decoder: payload, whether it ended, and what follows the end
struct chunked {
  std::string data;
  bool ended = false, malformed = false;
  std::string rest;
  long chunks = 0;
};
chunked parse_chunks(std::string_view s)
{
  chunked c;
  for (;;) {
    auto eol = s.find("\r\n");
    if (eol == s.npos) {
      for (char ch : s)
        if (!std::isxdigit((unsigned char)ch) && ch != '\r') c.malformed = true;
      return c;
    }
    auto line = s.substr(0, eol);
    auto semi = line.find(';');
    auto hex = line.substr(0, semi);
    if (hex.empty() || hex.size() > 15) { c.malformed = true; return c; }
    std::size_t n = 0;
    for (char ch : hex) {
      if (!std::isxdigit((unsigned char)ch)) { c.malformed = true; return c; }
      n = n * 16 + std::size_t(std::isdigit((unsigned char)ch) ? ch - '0' : (ch | 32) - 'a' + 10);
    }
    s.remove_prefix(eol + 2);
    if (n == 0) {
      // no trailers expected
      if (s.substr(0, 2) == "\r\n") {
        c.ended = true;
        c.rest = std::string(s.substr(2));
      } else if (s.size() >= 2) c.malformed = true;
      return c;
    }
    auto take = std::min(n, s.size());
    c.data += s.substr(0, take);
    s.remove_prefix(take);
    if (take < n) return c;
    ++c.chunks;
    auto crlf = s.substr(0, 2);
    if (crlf != std::string_view("\r\n").substr(0, crlf.size())) { c.malformed = true; return c; }
    if (crlf.size() < 2) return c;
    s.remove_prefix(2);
  }
}

template <class C>
void until_eof(const char* name, vh::rng& r)
{
  auto p = make_plan(r);
  std::optional<fitoria::expected<C, std::error_code>> got;
  if (r.flip()) {
    got.emplace(aio::run(web::async_read_until_eof<C>(source(p.sc))));
  } else {
    web::any_async_readable_stream s { source(p.sc) };
    got.emplace(aio::run(web::async_read_until_eof<C>(s)));
  }
  std::string what = std::string("read-until-eof-") + name;
  if (p.sc->error) {
    VH_CHECK(!*got, what + ":error-lost", what + ": " + p.show() + " succeeded");
    if (!*got) VH_CHECK(got->error() == *p.sc->error, what + ":other-error", what + ": " + p.show() + " reported " + got->error().message());
    vh::count("errors-seen");
  } else {
    VH_CHECK(bool(*got), what + ":spurious-error", what + ": " + p.show());
    if (*got) {
      std::string d((**got).size(), 0);
      if (!d.empty()) std::memcpy(d.data(), (**got).data(), d.size());
      VH_CHECK(d == p.body, what + ":data", what + ": " + p.show() + " delivered " + std::to_string(d.size()));
    }
  }
  vh::seen(what + p.show());
}

} // namespace

VH_SUITE("vector", 300, 6000)
{
  std::string body = r.bytes(r.len(3000));
  plan p;
  p.body = body;
  auto go = [&](const char* what, auto s) {
    int mode = int(r.below(4));
    if (mode == 0) {
      judge(what, p, aio::run(aio::drain(s, 50)));
    } else if (mode == 1) { // a copy made before reading is independent
      auto c = s;
      judge(what, p, aio::run(aio::drain(s, 50)));
      judge(what, p, aio::run(aio::drain(c, 50)));
    } else if (mode == 2) {
      auto c = s;
      auto m = std::move(s);
      judge(what, p, aio::run(aio::drain(m, 50)));
      m = std::move(c);
      judge(what, p, aio::run(aio::drain(m, 50)));
    } else {
      web::any_async_readable_stream a { s };
      web::any_async_readable_stream b { std::move(a) };
      judge(what, p, aio::run(aio::drain(b, 50)));
      b = web::any_async_readable_stream { std::move(s) };
      judge(what, p, aio::run(aio::drain(b, 50)));
    }
  };
  go("vector-bytes", web::async_readable_vector_stream(aio::to_bytes(body)));
  go("vector-span", web::async_readable_vector_stream(std::span<const char>(body.data(), body.size())));
  go("vector-span-mutable", web::async_readable_vector_stream(std::span<char>(body.data(), body.size())));
  auto b = aio::to_bytes(body);
  go("vector-span-byte", web::async_readable_vector_stream(std::span<const std::byte>(b)));
  std::vector<std::uint32_t> words(body.size() / 4);
  if (!words.empty()) std::memcpy(words.data(), body.data(), words.size() * 4);
  p.body = body.substr(0, words.size() * 4);
  go("vector-span-u32", web::async_readable_vector_stream(std::span<const std::uint32_t>(words)));
  std::array<unsigned char, 7> arr {};
  for (auto& c : arr) c = (unsigned char)r.u64();
  p.body.assign(reinterpret_cast<char*>(arr.data()), 7);
  go("vector-span-fixed", web::async_readable_vector_stream(std::span<unsigned char, 7>(arr)));
  p.body.clear();
  go("vector-default", web::async_readable_vector_stream());
  vh::seen(body);
}

VH_SUITE("any", 300, 6000)
{
  auto p = make_plan(r);
  web::any_async_readable_stream a { source(p.sc) };
  std::string part;
  // read a few, move the wrapper in between
  aio::drained d;
  long n = long(r.below(6));
  aio::run([](web::any_async_readable_stream& a, aio::drained& d, long n, vh::rng& r) -> awaitable<void> {
    for (long i = 0; i < n; ++i) {
      auto x = co_await a.async_read_some();
      if (!x) { d.ended = true; co_return; }
      if (!*x) { d.error = x->error(); co_return; }
      d.data += aio::to_string(**x);
      if (r.flip()) { web::any_async_readable_stream t { std::move(a) }; a = std::move(t); }
    }
  }(a, d, n, r));
  if (!d.ended && !d.error) {
    web::any_body body(r.flip() ? web::any_body::size_type(web::any_body::chunked {})
                                : web::any_body::size_type(web::any_body::sized { p.body.size() }),
                       std::move(a));
    web::any_body moved(std::move(body));
    auto rest = aio::run(aio::drain(moved.stream(), long(p.sc->chunks.size()) + 10));
    rest.data = d.data + rest.data;
    judge("any", p, rest);
  } else {
    judge("any", p, d);
  }
  vh::seen(p.show());
  if (p.sc->error) vh::count("errors-seen");
}

VH_SUITE("until-eof", 400, 8000)
{
  switch (r.below(4)) {
  case 0: until_eof<std::string>("string", r); break;
  case 1: until_eof<bytes>("bytes", r); break;
  case 2: until_eof<std::vector<std::uint8_t>>("u8", r); break;
  default: until_eof<std::vector<char>>("char", r); break;
  }
  vh::require("errors-seen", 10);
}

VH_SUITE("write-chunks", 500, 10000)
{
  auto p = make_plan(r, r.chance(1, 4) ? 200000 : 2000);
  auto st = std::make_shared<sink_state>();
  if (r.flip()) st->max_write = p.body.size() > 5000 ? 1 + r.below(5000) : 1 + r.below(50);
  bool fails = r.chance(1, 4);
  if (fails) {
    st->fail_at = r.below(p.body.size() + 10);
    st->ec = r.flip() ? boost::asio::error::broken_pipe : boost::asio::error::connection_reset;
  }
  boost::asio::io_context ioc;
  auto res = aio::run(
      [](sink to, std::shared_ptr<aio::script> sc) -> awaitable<fitoria::expected<void, std::error_code>> {
        co_return co_await web::async_write_chunks(to, source(sc));
      }(sink { ioc.get_executor(), st }, p.sc),
      ioc);
  auto c = parse_chunks(st->got);
  std::string what = p.show() + (fails ? " write fails at " + std::to_string(st->fail_at) : "") + ", max write "
      + std::to_string(st->max_write) + ", wire " + vh::esc(st->got.substr(0, 80));
  VH_CHECK(!c.malformed, "chunks:malformed", what);
  VH_CHECK(st->after_error == 0, "chunks:writes-after-error", what);
  if (st->failed) {
    VH_CHECK(!res && res.error() == std::error_code(st->ec), "chunks:write-error-lost", what);
    VH_CHECK(p.body.substr(0, c.data.size()) == c.data, "chunks:data", what);
    vh::count("write-errors-seen");
  } else if (p.sc->error) {
    VH_CHECK(!res && res.error() == *p.sc->error, "chunks:source-error-lost", what);
    VH_CHECK(!c.ended, "chunks:complete-despite-error", what);
    VH_CHECK(c.data == p.body, "chunks:data", what + " carried " + std::to_string(c.data.size()));
  } else {
    VH_CHECK(bool(res), "chunks:spurious-error", what);
    VH_CHECK(c.ended, "chunks:no-last-chunk", what);
    VH_CHECK(c.rest.empty(), "chunks:data-after-last-chunk", what);
    VH_CHECK(c.data == p.body, "chunks:data", what + " carried " + std::to_string(c.data.size()));
    VH_CHECK(p.sc->ends >= 1, "chunks:source-not-drained", what);
    vh::count("complete-chunked-bodies");
  }
  vh::seen(what);
  vh::sample(what);
  vh::require("write-errors-seen", 5);
  vh::require("complete-chunked-bodies", 20);
}

VH_SUITE("message-parser", 300, 6000)
{
  namespace http = boost::beast::http;
  std::string body = r.bytes(r.chance(1, 3) ? r.one_of<std::size_t>({ 0, 1, 65535, 65536, 65537, 131071, 131072, 131073 }) : r.len(200000));
  bool chunk = r.flip();
  std::string head = "POST /x HTTP/1.1\r\nHost: a\r\n";
  std::string msg;
  if (chunk) {
    msg = head + "Transfer-Encoding: chunked\r\n\r\n";
    for (auto& c : aio::chop(r, body, false)) {
      char b[32];
      std::snprintf(b, sizeof b, r.flip() ? "%zx\r\n" : "%zX;ext=1\r\n", c.size());
      msg += b + c + "\r\n";
    }
    msg += "0\r\n\r\n";
  } else {
    msg = head + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
  }
  std::size_t start = msg.find("\r\n\r\n") + 4;
  bool cut = r.chance(1, 3) && msg.size() > start;
  std::string sent = cut ? msg.substr(0, start + r.below(msg.size() - start)) : msg;
  // bytes of a following request must stay unread
  std::string next = !cut && r.flip() ? "GET /next HTTP/1.1\r\n\r\n" : "";
  bool limited = r.chance(1, 4);
  std::uint64_t limit = limited ? r.below(body.size() + 2) : UINT64_MAX;

  boost::asio::io_context ioc;
  aio::drained d;
  bool header_ok = false;
  std::string leftover;
  auto segs = aio::chop(r, sent + next, false);
  aio::run(
      [&]() -> awaitable<void> {
        auto ex = co_await boost::asio::this_coro::executor;
        fitoria::shared_test_stream client(ex);
        auto server = connect(client);
        boost::asio::co_spawn(
            ex,
            [](fitoria::shared_test_stream c, std::vector<std::string> segs) -> awaitable<void> {
              for (auto& s : segs) {
                co_await boost::asio::async_write(c, boost::asio::buffer(s), fitoria::use_awaitable);
                co_await boost::asio::post(co_await boost::asio::this_coro::executor,
                                           boost::asio::use_awaitable_t<fitoria::executor_type> {});
              }
              c.socket().close();
            }(client, segs),
            boost::asio::detached);
        auto buffer = std::make_shared<fitoria::flat_buffer>();
        auto parser = std::make_shared<http::request_parser<http::buffer_body>>();
        parser->header_limit(UINT32_MAX);
        parser->body_limit(limit);
        if (!co_await http::async_read_header(server, *buffer, *parser, fitoria::use_awaitable)) co_return;
        header_ok = true;
        web::async_message_parser_stream s(buffer, server, parser);
        if (r.flip()) {
          web::any_async_readable_stream a { std::move(s) };
          d = co_await aio::drain(a, long(body.size()) + 100);
        } else {
          d = co_await aio::drain(s, long(body.size()) + 100);
        }
        leftover.assign(static_cast<const char*>(buffer->data().data()), buffer->data().size());
      }(),
      ioc);
  std::string what = std::string(chunk ? "chunked " : "sized ") + std::to_string(body.size()) + " bytes, sent "
      + std::to_string(sent.size()) + "/" + std::to_string(msg.size()) + ", limit "
      + (limited ? std::to_string(limit) : "none") + ", segments " + std::to_string(segs.size());
  bool over = body.size() > limit;
  if (over || cut) {
    if (header_ok) {
      VH_CHECK(!d.runaway, "parser:endless", what);
      VH_CHECK(!d.ended, "parser:incomplete-body-ends-cleanly", what + " delivered " + std::to_string(d.data.size()));
      VH_CHECK(body.compare(0, d.data.size(), d.data) == 0, "parser:data", what);
    }
    vh::count(over ? "over-limit" : "truncated");
  } else {
    VH_CHECK(header_ok, "parser:header-rejected", what);
    VH_CHECK(!d.runaway && d.ended && !d.error, "parser:spurious-error", what + (d.error ? " " + d.error->message() : ""));
    VH_CHECK(d.data == body, "parser:data", what + " delivered " + std::to_string(d.data.size()));
    VH_CHECK(d.stable, "parser:end-not-stable", what);
    VH_CHECK(next.compare(0, leftover.size(), leftover) == 0, "parser:took-next-request", what);
    vh::count("complete-bodies");
  }
  vh::seen(what);
  vh::require("over-limit", 5);
  vh::require("truncated", 5);
  vh::require("complete-bodies", 50);
}

#ifdef BOOST_ASIO_HAS_IO_URING
namespace {
bool uring()
{
  static bool ok = [] {
    io_uring ring;
    if (::io_uring_queue_init(8, &ring, 0) != 0) return false;
    ::io_uring_queue_exit(&ring);
    return true;
  }();
  return ok;
}
struct tmpdir {
  std::filesystem::path p;
  tmpdir()
  {
    char b[] = "/tmp/vh.streams.XXXXXX";
    p = ::mkdtemp(b);
  }
  ~tmpdir()
  {
    std::error_code ec;
    std::filesystem::remove_all(p, ec);
  }
};
} // namespace

VH_SUITE("file", 80, 1500)
{
  if (!uring()) {
    vh::count("io_uring-unavailable");
    return;
  }
  tmpdir dir;
  auto path = (dir.p / "f").string();
  std::string body = r.bytes(r.chance(1, 2) ? r.one_of<std::size_t>({ 0, 1, 65535, 65536, 65537, 131072, 131073 }) : r.len(300000));
  std::ofstream(path, std::ios::binary) << body;
  auto size = body.size();
  std::uint64_t off = r.chance(1, 4) ? r.one_of<std::uint64_t>({ 0, 1, size ? size - 1 : 0, size }) : r.below(size + 1);
  off = std::min<std::uint64_t>(off, size);
  std::uint64_t left = size - off;
  fitoria::optional<std::uint64_t> len;
  if (r.flip()) len = r.chance(1, 4) ? r.one_of<std::uint64_t>({ 0, left, left ? left - 1 : 0 }) : r.below(left + 1);
  bool whole = r.chance(1, 4);
  bool any = r.flip();
  plan p;
  p.body = whole ? body : body.substr(off, len ? std::size_t(*len) : std::string::npos);
  boost::asio::io_context ioc;
  auto d = aio::run(
      [&]() -> awaitable<aio::drained> {
        fitoria::stream_file f(co_await boost::asio::this_coro::executor, path, boost::asio::file_base::read_only);
        auto s = whole ? web::async_readable_file_stream(std::move(f))
                       : web::async_readable_file_stream(std::move(f), off, len);
        if (any) {
          web::any_async_readable_stream a { std::move(s) };
          co_return co_await aio::drain(a, long(size) + 10);
        }
        auto t = std::move(s);
        co_return co_await aio::drain(t, long(size) + 10);
      }(),
      ioc);
  judge("file", p, d);
  vh::seen(std::to_string(size) + ":" + std::to_string(off) + ":" + (len ? std::to_string(*len) : "-"));

  // and the way back: a stream written to a file
  auto q = make_plan(r);
  auto path2 = (dir.p / "g").string();
  auto res = aio::run(
      [&]() -> awaitable<fitoria::expected<std::size_t, std::error_code>> {
        fitoria::stream_file f(co_await boost::asio::this_coro::executor, path2,
                               boost::asio::file_base::create | boost::asio::file_base::write_only);
        co_return co_await web::async_read_into_stream_file(source(q.sc), f);
      }(),
      ioc);
  std::ifstream in(path2, std::ios::binary);
  std::string got((std::istreambuf_iterator<char>(in)), {});
  if (q.sc->error) {
    VH_CHECK(!res && res.error() == *q.sc->error, "into-file:error-lost", q.show());
  } else {
    VH_CHECK(bool(res) && *res == q.body.size(), "into-file:size", q.show());
  }
  VH_CHECK(got == q.body, "into-file:data", q.show() + " wrote " + std::to_string(got.size()));
  vh::count("files");
}
#endif

int main(int argc, char** argv) { return vh::main(argc, argv); }
