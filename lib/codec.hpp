// Independent reference codecs (zlib and brotli called directly).
#pragma once
#include "vh.hpp"
#include <brotli/decode.h>
#include <brotli/encode.h>
#include <zlib.h>

namespace codec {

enum kind { deflate, gzip, brotli };
inline const char* name(kind k) { return k == deflate ? "deflate" : k == gzip ? "gzip" : "brotli"; }

inline std::string pack(kind k, std::string_view in, int level, int flush_every = 0)
{
  std::string out;
  if (k == brotli) {
    std::size_t n = BrotliEncoderMaxCompressedSize(in.size()) + 64;
    out.resize(n);
    BrotliEncoderCompress(level, 18, BROTLI_MODE_GENERIC, in.size(), (const std::uint8_t*)in.data(), &n, (std::uint8_t*)out.data());
    out.resize(n);
    return out;
  }
  z_stream z {};
  ::deflateInit2(&z, level, Z_DEFLATED, k == gzip ? 31 : -15, 8, Z_DEFAULT_STRATEGY);
  std::size_t i = 0;
  char buf[16384];
  int rc = Z_OK;
  while (rc != Z_STREAM_END) {
    std::size_t n = flush_every ? std::min<std::size_t>(std::size_t(flush_every), in.size() - i) : in.size() - i;
    z.next_in = (Bytef*)in.data() + i;
    z.avail_in = uInt(n);
    i += n;
    do {
      z.next_out = (Bytef*)buf;
      z.avail_out = sizeof buf;
      rc = ::deflate(&z, i == in.size() ? Z_FINISH : Z_SYNC_FLUSH);
      out.append(buf, sizeof buf - z.avail_out);
    } while (z.avail_out == 0);
  }
  ::deflateEnd(&z);
  return out;
}

struct result {
  enum { complete, truncated, corrupt } st = truncated;
  std::string data;        // everything produced
  std::size_t used = 0;    // input consumed when complete
};

inline result unpack(kind k, std::string_view in, std::size_t max_out = 80u << 20)
{
  result r;
  if (k == brotli) {
    auto* d = BrotliDecoderCreateInstance(nullptr, nullptr, nullptr);
    std::size_t ai = in.size();
    auto* ni = (const std::uint8_t*)in.data();
    std::uint8_t buf[16384];
    for (;;) {
      std::size_t ao = sizeof buf;
      auto* no = buf;
      auto rc = BrotliDecoderDecompressStream(d, &ai, &ni, &ao, &no, nullptr);
      r.data.append((char*)buf, sizeof buf - ao);
      if (rc == BROTLI_DECODER_RESULT_SUCCESS) {
        r.st = result::complete;
        break;
      }
      if (rc == BROTLI_DECODER_RESULT_ERROR) {
        r.st = result::corrupt;
        break;
      }
      if (rc == BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT) break;
      if (r.data.size() > max_out) break;
    }
    r.used = in.size() - ai;
    BrotliDecoderDestroyInstance(d);
    return r;
  }
  z_stream z {};
  ::inflateInit2(&z, k == gzip ? 31 : -15);
  z.next_in = (Bytef*)in.data();
  z.avail_in = uInt(in.size());
  char buf[16384];
  for (;;) {
    z.next_out = (Bytef*)buf;
    z.avail_out = sizeof buf;
    int rc = ::inflate(&z, Z_NO_FLUSH);
    r.data.append(buf, sizeof buf - z.avail_out);
    if (rc == Z_STREAM_END) {
      r.st = result::complete;
      break;
    }
    if (rc == Z_BUF_ERROR || (rc == Z_OK && z.avail_in == 0 && z.avail_out > 0)) break;
    if (rc != Z_OK) {
      r.st = result::corrupt;
      break;
    }
    if (r.data.size() > max_out) break;
  }
  r.used = in.size() - z.avail_in;
  ::inflateEnd(&z);
  return r;
}

inline std::string body(vh::rng& r, std::size_t max)
{
  static const std::size_t edges[] = { 0, 1, 2, 65535, 65536, 65537, 32768, 131072, 4096 };
  std::size_t n = r.chance(1, 4) ? std::min(max, edges[r.below(9)]) : r.chance(1, 2) ? r.len(std::min<std::size_t>(max, 3000)) : r.below(max + 1);
  switch (r.below(4)) {
  case 0: return std::string(n, char(r.u64()));
  case 1: return r.bytes(n);
  case 2: {
    std::string s;
    static const char* w[] = { "the ", "quick ", "brown ", "fox ", "{\"id\": ", "}, ", "\r\n", "0123456789" };
    while (s.size() < n) s += w[r.below(8)];
    s.resize(n);
    return s;
  }
  default: {
    std::string s;
    while (s.size() < n) {
      if (r.flip()) s += r.bytes(r.below(5000));
      else s += std::string(r.below(5000), char(r.u64()));
    }
    s.resize(n);
    return s;
  }
  }
}

} // namespace codec
