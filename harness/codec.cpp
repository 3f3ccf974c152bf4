// P18: compressing and decompressing streams against zlib/brotli called directly.
#include "aio.hpp"
#include "codec.hpp"

#include <fitoria/core/dynamic_buffer.hpp>

#include <fitoria/web/any_async_readable_stream.hpp>
#include <fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_inflate_stream.hpp>

namespace md = fitoria::web::middleware::detail;
using aio::source;

namespace {

// reads a few times, moves the stream (construction or assignment), reads on
template <class S>
aio::drained drain_moving(vh::rng& r, std::shared_ptr<aio::script> sc, S&& make, long max)
{
  auto s = make(sc);
  if (r.chance(1, 3)) {
    auto other = make(std::make_shared<aio::script>());
    auto t(std::move(s));
    if constexpr (std::is_move_assignable_v<decltype(s)>) {
      other = std::move(t);
      return aio::run(aio::drain(other, max));
    } else {
      return aio::run(aio::drain(t, max));
    }
  }
  return aio::run(aio::drain(s, max));
}

aio::drained compress(vh::rng& r, codec::kind k, std::shared_ptr<aio::script> sc)
{
  long max = long(sc->chunks.size()) + 200;
  switch (k) {
  case codec::deflate: return drain_moving(r, sc, [](auto s) { return md::async_deflate_stream<source>(source(s)); }, max);
  case codec::gzip: return drain_moving(r, sc, [](auto s) { return md::async_gzip_deflate_stream<source>(source(s)); }, max);
  default: return drain_moving(r, sc, [](auto s) { return md::async_brotli_deflate_stream<source>(source(s)); }, max);
  }
}

aio::drained expand(vh::rng& r, codec::kind k, std::shared_ptr<aio::script> sc, std::size_t out)
{
  long max = long(sc->chunks.size()) + long(out) + 200;
  switch (k) {
  case codec::deflate: return drain_moving(r, sc, [](auto s) { return md::async_inflate_stream<source>(source(s)); }, max);
  case codec::gzip: return drain_moving(r, sc, [](auto s) { return md::async_gzip_inflate_stream<source>(source(s)); }, max);
  default: return drain_moving(r, sc, [](auto s) { return md::async_brotli_inflate_stream<source>(source(s)); }, max);
  }
}

std::string show(const std::string& body, const std::vector<std::string>& ch)
{
  std::string s = std::to_string(body.size()) + " bytes (" + vh::esc(body.substr(0, 20)) + ") in chunks";
  for (std::size_t i = 0; i < ch.size() && i < 12; ++i) s += " " + std::to_string(ch[i].size());
  return s;
}

std::shared_ptr<aio::script> script_of(vh::rng& r, std::vector<std::string> ch)
{
  auto s = std::make_shared<aio::script>();
  s->chunks = std::move(ch);
  s->suspend = r.chance(1, 4);
  return s;
}

void trip(vh::rng& r, codec::kind k, const std::string& body)
{
  std::string nm = codec::name(k);
  auto sc = script_of(r, aio::chop(r, body));
  auto what = nm + " " + show(body, sc->chunks);
  vh::seen(what);
  vh::sample(what);
  auto c = compress(r, k, sc);
  VH_CHECK(!c.error && c.ended && !c.runaway, nm + ":compress-failed", what + (c.error ? " error " + c.error->message() : ""));
  VH_CHECK(c.stable, nm + ":compress-unstable-end", what);
  if (!c.ended) return;
  auto u = codec::unpack(k, c.data);
  VH_CHECK(u.st == codec::result::complete && u.used == c.data.size(), nm + ":incomplete-stream",
           what + " compressed to " + std::to_string(c.data.size()) + " bytes, decoder used " + std::to_string(u.used) + " and produced "
               + std::to_string(u.data.size()));
  VH_CHECK(u.data == body, nm + ":wrong-stream", what + " decoded to " + std::to_string(u.data.size()) + " bytes");
  vh::count("compressed:" + nm);
  vh::count("bytes", body.size());
  // the library's own decoder on its own output, or on someone else's
  auto z = r.flip() && u.data == body && u.st == codec::result::complete ? c.data
                                                                       : codec::pack(k, body, k == codec::brotli ? int(r.below(6)) : int(r.below(10)), r.chance(1, 3) ? int(1 + r.below(20000)) : 0);
  auto sc2 = script_of(r, aio::chop(r, z));
  auto what2 = what + " / compressed " + show(z, sc2->chunks);
  auto d = expand(r, k, sc2, body.size());
  VH_CHECK(!d.error && d.ended && !d.runaway, nm + ":expand-failed", what2 + (d.error ? " error " + d.error->message() : ""));
  VH_CHECK(!d.ended || d.data == body, nm + ":expand-wrong", what2 + " gave " + std::to_string(d.data.size()) + " bytes");
  VH_CHECK(d.stable, nm + ":expand-unstable-end", what2);
  vh::count("expanded:" + nm);
}

VH_SUITE("deflate", 500, 12000) { trip(r, codec::deflate, codec::body(r, 200000)); }
VH_SUITE("gzip", 500, 12000) { trip(r, codec::gzip, codec::body(r, 200000)); }
VH_SUITE("brotli", 160, 4000) { trip(r, codec::brotli, codec::body(r, r.chance(1, 8) ? 200000 : 20000)); }
VH_SUITE("large", 12, 300)
{
  auto k = codec::kind(idx % 3);
  trip(r, k, codec::body(r, k == codec::brotli ? 600000 : 3000000));
}

// outputs that end exactly at multiples of the internal buffer
VH_SUITE("exact-fit", 60, 600)
{
  auto k = codec::kind(idx % 3);
  std::size_t n = 65536 * (1 + r.below(3)) + r.below(3) - 1;
  std::string body = r.flip() ? std::string(n, 'a') : r.from("ab", n);
  trip(r, k, body);
}

// an error of the source reaches the reader
VH_SUITE("source-error", 600, 12000)
{
  auto k = codec::kind(r.below(3));
  std::string nm = codec::name(k);
  auto body = codec::body(r, 20000);
  bool comp = r.flip();
  auto input = comp ? body : codec::pack(k, body, 5);
  auto ch = aio::chop(r, input);
  ch.resize(r.below(ch.size() + 1));
  auto sc = script_of(r, ch);
  sc->error = std::make_error_code(r.flip() ? std::errc::connection_reset : std::errc::io_error);
  auto d = comp ? compress(r, k, sc) : expand(r, k, sc, body.size());
  auto what = nm + (comp ? " compress " : " expand ") + show(input, ch);
  vh::seen(what);
  VH_CHECK(d.error && *d.error == *sc->error, nm + ":source-error-lost",
           what + (d.error ? " reported " + d.error->message() : d.ended ? " reported a clean end" : " did not finish"));
  vh::count("source_errors");
}

} // namespace

int main(int argc, char** argv)
{
  for (auto* k : { "deflate", "gzip", "brotli" }) {
    vh::require(std::string("compressed:") + k, 100);
    vh::require(std::string("expanded:") + k, 100);
  }
  vh::require("source_errors", 300);
  return vh::main(argc, argv);
}
