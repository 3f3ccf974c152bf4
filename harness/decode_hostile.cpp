// P19: decompressing streams on truncated, corrupted, extended and random input,
// judged by zlib/brotli called directly.
#include "aio.hpp"
#include "codec.hpp"

#include <fitoria/core/dynamic_buffer.hpp>

#include <fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_inflate_stream.hpp>

namespace md = fitoria::web::middleware::detail;
using aio::source;

namespace {

aio::drained expand(codec::kind k, std::shared_ptr<aio::script> sc, long max)
{
  switch (k) {
  case codec::deflate: {
    auto s = md::async_inflate_stream<source>(source(sc));
    return aio::run(aio::drain(s, max));
  }
  case codec::gzip: {
    auto s = md::async_gzip_inflate_stream<source>(source(sc));
    return aio::run(aio::drain(s, max));
  }
  default: {
    auto s = md::async_brotli_inflate_stream<source>(source(sc));
    return aio::run(aio::drain(s, max));
  }
  }
}

void judge(vh::rng& r, codec::kind k, std::string_view in, const std::string& how)
{
  std::string nm = codec::name(k);
  auto ref = codec::unpack(k, in);
  auto sc = std::make_shared<aio::script>();
  sc->chunks = aio::chop(r, in);
  auto what = nm + " " + how + " input of " + std::to_string(in.size()) + " bytes " + vh::esc(in, 60) + " in " + std::to_string(sc->chunks.size())
      + " chunks";
  vh::seen(nm + std::string(in));
  auto d = expand(k, sc, long(sc->chunks.size()) + long(ref.data.size()) + 100);
  VH_CHECK(!d.runaway, nm + ":endless", what);
  if (d.runaway) return;
  if (d.error) {
    vh::count("errors:" + nm);
    // what was delivered before the error agrees with the decoded bytes (how far
    // a decoder gets before it notices an error depends on the chunking)
    auto common = std::min(d.data.size(), ref.data.size());
    VH_CHECK(ref.data.compare(0, common, d.data, 0, common) == 0, nm + ":bytes-before-error", what);
    bool exact = ref.st == codec::result::complete && ref.used == in.size();
    if (exact && how == "valid") vh::fail(nm + ":valid-rejected", what + " " + d.error->message());
    return;
  }
  vh::count("clean:" + nm);
  if (in.empty()) {
    VH_CHECK(d.data.empty(), nm + ":bytes-from-nothing", what);
    return;
  }
  VH_CHECK(ref.st != codec::result::truncated, nm + ":truncated-accepted", what + " ended cleanly after " + std::to_string(d.data.size()) + " bytes");
  VH_CHECK(ref.st != codec::result::corrupt, nm + ":corrupt-accepted", what + " ended cleanly");
  if (ref.st != codec::result::complete) return;
  if (ref.used == in.size()) {
    VH_CHECK(d.data == ref.data, nm + ":wrong-bytes", what + " gave " + std::to_string(d.data.size()) + " expected " + std::to_string(ref.data.size()));
  } else {
    // data after the end: the first stream alone, or (gzip) all members
    std::string all = ref.data;
    auto rest = in.substr(ref.used);
    while (k == codec::gzip && !rest.empty()) {
      auto n = codec::unpack(k, rest);
      all += n.data;
      if (n.st != codec::result::complete) break;
      rest.remove_prefix(n.used);
    }
    bool ok = d.data == ref.data || d.data == all;
    if (k == codec::gzip && how == "two-members") ok = d.data == all; // dropping a member silently is data loss
    VH_CHECK(ok, nm + ":wrong-bytes-with-trailing", what + " gave " + std::to_string(d.data.size()) + " expected " + std::to_string(ref.data.size()));
  }
}

codec::kind any(vh::rng& r) { return codec::kind(r.below(3)); }

std::string packed(vh::rng& r, codec::kind k, std::string* body = nullptr, std::size_t max = 3000)
{
  auto b = codec::body(r, max);
  if (body) *body = b;
  return codec::pack(k, b, k == codec::brotli ? int(r.below(10)) : int(r.below(10)), r.chance(1, 4) ? int(1 + r.below(500)) : 0);
}

VH_SUITE("valid", 300, 12000)
{
  auto k = any(r);
  judge(r, k, packed(r, k, nullptr, 70000), "valid");
}
VH_SUITE("truncated", 120, 5000)
{
  auto k = any(r);
  auto z = packed(r, k, nullptr, 400);
  for (std::size_t i = 0; i <= z.size(); i += 1 + (z.size() > 200 ? r.below(5) : 0)) judge(r, k, std::string_view(z).substr(0, i), i == z.size() ? "valid" : "truncated");
  z = packed(r, k, nullptr, 200000);
  judge(r, k, std::string_view(z).substr(0, r.below(z.size())), "truncated");
}
VH_SUITE("corrupted", 600, 30000)
{
  auto k = any(r);
  auto z = packed(r, k, nullptr, r.chance(1, 10) ? 100000 : 600);
  for (int i = 0; i < 12; ++i) {
    auto y = z;
    for (std::size_t n = 1 + r.below(2); n; --n) {
      auto at = r.flip() && y.size() > 20 ? r.below(20) : r.below(y.size());
      if (r.chance(1, 5)) at = y.size() - 1 - r.below(std::min<std::size_t>(y.size(), 8));
      y[at] = r.flip() ? char(y[at] ^ (1 << r.below(8))) : char(r.u64());
    }
    judge(r, k, y, "corrupted");
  }
}
VH_SUITE("trailing", 300, 12000)
{
  auto k = any(r);
  auto z = packed(r, k);
  auto y = z + (r.flip() ? r.bytes(1 + r.below(20)) : std::string(1 + r.below(70000), char(r.u64() & 1)));
  judge(r, k, y, "trailing");
  judge(r, k, z + packed(r, k), k == codec::gzip ? "two-members" : "trailing");
}
VH_SUITE("random", 1200, 60000)
{
  auto k = any(r);
  auto z = r.bytes(r.len(2000));
  if (k == codec::gzip && r.flip()) z = std::string("\x1f\x8b\x08", 3) + char(r.below(32)) + z;
  judge(r, k, z, "random");
}
// highly expanding input stays bounded by what it encodes
VH_SUITE("bomb", 9, 60)
{
  auto k = codec::kind(idx % 3);
  std::string b((4u << 20) + r.below(20u << 20), char(r.u64()));
  auto z = codec::pack(k, b, 9);
  judge(r, k, z, "valid");
  vh::count("bombs");
}
// every one- and two-byte input
VH_SUITE("tiny", 3, 3)
{
  auto k = codec::kind(idx);
  for (int a = 0; a < 256; ++a) {
    judge(r, k, std::string(1, char(a)), "tiny");
    for (int b = 0; b < 256; b += 7) judge(r, k, std::string { char(a), char(b) }, "tiny");
  }
}

} // namespace

int main(int argc, char** argv)
{
  for (auto* k : { "deflate", "gzip", "brotli" }) {
    vh::require(std::string("clean:") + k, 50);
    vh::require(std::string("errors:") + k, 200);
  }
  vh::require("bombs", 3);
  return vh::main(argc, argv);
}
