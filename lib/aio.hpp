// Running library coroutines to completion and feeding them scripted streams.
#pragma once
#include "vh.hpp"
#include <exception>
#include <optional>

// Boost.Beast 1.83 asserts "n >= 5" when the last chunk of an empty chunked body
// arrives split after its first CRLF, although the code that follows copes;
// every other Boost assertion still aborts.
#ifdef BOOST_ENABLE_ASSERT_HANDLER
namespace boost {
inline void assertion_failed(char const* expr, char const* function, char const* file, long line)
{
  if (std::strcmp(expr, "n >= 5") == 0 && std::strstr(file, "basic_parser.ipp")) return;
  std::fprintf(stderr, "%s:%ld: %s: Assertion `%s' failed.\n", file, line, function, expr);
  std::abort();
}
inline void assertion_failed_msg(char const* expr, char const* msg, char const* function, char const* file, long line)
{
  std::fprintf(stderr, "%s:%ld: %s: Assertion `%s' failed (%s).\n", file, line, function, expr, msg);
  std::abort();
}
}
#endif

#include <fitoria/core/bytes.hpp>
#include <fitoria/core/expected.hpp>
#include <fitoria/core/net.hpp>
#include <fitoria/core/optional.hpp>
#include <fitoria/web/async_readable_stream_concept.hpp>

namespace aio {

namespace net = boost::asio;
using fitoria::awaitable;
using fitoria::bytes;
using item = fitoria::optional<fitoria::expected<bytes, std::error_code>>;

// Runs one coroutine on a fresh io_context until nothing is left to do.
template <class T>
T run(awaitable<T> a, net::io_context& ioc)
{
  std::optional<T> out;
  std::exception_ptr ep;
  net::co_spawn(
      ioc, [&, a = std::move(a)]() mutable -> awaitable<void> { out.emplace(co_await std::move(a)); },
      [&](std::exception_ptr e) { ep = e; });
  ioc.restart();
  ioc.run();
  if (ep) std::rethrow_exception(ep);
  if (!out) throw std::runtime_error("coroutine never finished");
  return std::move(*out);
}
template <class T>
T run(awaitable<T> a)
{
  net::io_context ioc;
  return run(std::move(a), ioc);
}
inline void run(awaitable<void> a, net::io_context& ioc)
{
  std::exception_ptr ep;
  net::co_spawn(ioc, std::move(a), [&](std::exception_ptr e) { ep = e; });
  ioc.restart();
  ioc.run();
  if (ep) std::rethrow_exception(ep);
}
inline void run(awaitable<void> a)
{
  net::io_context ioc;
  run(std::move(a), ioc);
}

inline bytes to_bytes(std::string_view s)
{
  bytes b(s.size());
  if (!s.empty()) std::memcpy(b.data(), s.data(), s.size());
  return b;
}
inline std::string to_string(const bytes& b)
{
  return b.empty() ? std::string() : std::string(reinterpret_cast<const char*>(b.data()), b.size());
}

// What a source does: chunks in order, then optionally an error, then the end.
struct script {
  std::vector<std::string> chunks;
  std::optional<std::error_code> error; // reported once, after the chunks
  bool suspend = false;                 // yield to the executor before every chunk
  long reads = 0, ends = 0;             // observed
};

class source {
public:
  using is_async_readable_stream = void;
  explicit source(std::shared_ptr<script> s)
      : s_(std::move(s))
  {
  }
  auto async_read_some() -> awaitable<fitoria::optional<fitoria::expected<bytes, std::error_code>>>
  {
    ++s_->reads;
    if (s_->suspend) co_await net::post(co_await net::this_coro::executor, net::use_awaitable_t<fitoria::executor_type> {});
    if (i_ < s_->chunks.size()) co_return to_bytes(s_->chunks[i_++]);
    if (s_->error && !errored_) {
      errored_ = true;
      co_return fitoria::unexpected { *s_->error };
    }
    ++s_->ends;
    co_return fitoria::nullopt;
  }

private:
  std::shared_ptr<script> s_;
  std::size_t i_ = 0;
  bool errored_ = false;
};

inline std::vector<std::string> chop(vh::rng& r, std::string_view s, bool empties = true)
{
  std::vector<std::string> v;
  std::size_t mode = r.below(5);
  std::size_t i = 0;
  while (i < s.size()) {
    std::size_t n = mode == 0 ? s.size()
        : mode == 1           ? 1 + r.below(3)
        : mode == 2           ? 1 + r.below(100)
        : mode == 3           ? r.one_of<std::size_t>({ 65535, 65536, 65537, 4096, 16384 })
                              : 1 + r.below(s.size());
    if (mode == 1 && s.size() > 20000) n = 1 + r.below(3000);
    n = std::min(n, s.size() - i);
    if (empties && r.chance(1, 20)) v.emplace_back();
    v.emplace_back(s.substr(i, n));
    i += n;
  }
  if (empties && r.chance(1, 10)) v.emplace_back();
  return v;
}

struct drained {
  std::string data;
  std::optional<std::error_code> error;
  long reads = 0;
  bool ended = false;    // a clean end was reported
  bool runaway = false;  // did not finish within the allowed number of reads
  bool stable = true;    // the end was repeated on another read
};

// reads to the end (or first error), then once more
template <class S>
awaitable<drained> drain(S& s, long max_reads)
{
  drained d;
  for (;;) {
    if (d.reads++ >= max_reads) {
      d.runaway = true;
      co_return d;
    }
    auto x = co_await s.async_read_some();
    if (!x) {
      d.ended = true;
      break;
    }
    if (!*x) {
      d.error = x->error();
      co_return d;
    }
    d.data += to_string(**x);
  }
  for (int i = 0; i < 2; ++i) {
    auto x = co_await s.async_read_some();
    if (x) d.stable = false;
  }
  co_return d;
}

} // namespace aio
