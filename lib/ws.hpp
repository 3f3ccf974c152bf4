// RFC 6455 client side written from the specification; shares no code with Beast.
#pragma once
#include "srv.hpp"

namespace ws {

inline std::string sha1(std::string s)
{
  std::uint32_t h[5] = { 0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u };
  std::uint64_t bits = s.size() * 8u;
  s += char(0x80);
  while (s.size() % 64 != 56) s += '\0';
  for (int i = 7; i >= 0; --i) s += char(bits >> (8 * i));
  auto rol = [](std::uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
  for (std::size_t o = 0; o < s.size(); o += 64) {
    std::uint32_t w[80];
    for (std::size_t i = 0; i < 16; ++i)
      w[i] = std::uint32_t((unsigned char)s[o + 4 * i]) << 24 | std::uint32_t((unsigned char)s[o + 4 * i + 1]) << 16 | std::uint32_t((unsigned char)s[o + 4 * i + 2]) << 8 | std::uint32_t((unsigned char)s[o + 4 * i + 3]);
    for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    auto a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; ++i) {
      std::uint32_t f, k;
      if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999u;
      else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1u;
      else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDCu;
      else f = b ^ c ^ d, k = 0xCA62C1D6u;
      auto t = rol(a, 5) + f + e + k + w[i];
      e = d;
      d = c;
      c = rol(b, 30);
      b = a;
      a = t;
    }
    h[0] += a;
    h[1] += b;
    h[2] += c;
    h[3] += d;
    h[4] += e;
  }
  std::string r;
  for (auto x : h)
    for (int i = 3; i >= 0; --i) r += char(x >> (8 * i));
  return r;
}
inline std::string b64(std::string_view s)
{
  static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (std::size_t i = 0; i < s.size(); i += 3) {
    std::uint32_t v = std::uint32_t((unsigned char)s[i]) << 16;
    if (i + 1 < s.size()) v |= std::uint32_t((unsigned char)s[i + 1]) << 8;
    if (i + 2 < s.size()) v |= std::uint32_t((unsigned char)s[i + 2]);
    r += a[v >> 18];
    r += a[(v >> 12) & 63];
    r += i + 1 < s.size() ? a[(v >> 6) & 63] : '=';
    r += i + 2 < s.size() ? a[v & 63] : '=';
  }
  return r;
}
inline std::string accept_key(const std::string& key) { return b64(sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }

struct frame {
  bool fin = true;
  int rsv = 0;
  int op = 1;
  bool masked = true;
  std::string data;
};
inline std::string encode(vh::rng& r, const frame& f, bool long_len = false)
{
  std::string s;
  s += char((f.fin ? 0x80 : 0) | (f.rsv << 4) | f.op);
  auto n = f.data.size();
  int m = f.masked ? 0x80 : 0;
  if (n < 126 && !long_len) s += char(m | int(n));
  else if (n < 65536) {
    s += char(m | 126);
    s += char(n >> 8);
    s += char(n);
  } else {
    s += char(m | 127);
    for (int i = 7; i >= 0; --i) s += char(std::uint64_t(n) >> (8 * i));
  }
  if (!f.masked) return s + f.data;
  auto k = r.chance(1, 8) ? std::string(4, '\0') : r.bytes(4);
  s += k;
  for (std::size_t i = 0; i < n; ++i) s += char(f.data[i] ^ k[i % 4]);
  return s;
}
// takes one frame off the front of the buffer
inline std::optional<frame> take(std::string& in, std::string& bad)
{
  if (in.size() < 2) return {};
  frame f;
  auto b0 = (unsigned char)in[0], b1 = (unsigned char)in[1];
  f.fin = b0 & 0x80;
  f.rsv = (b0 >> 4) & 7;
  f.op = b0 & 15;
  f.masked = b1 & 0x80;
  std::uint64_t n = b1 & 127;
  std::size_t o = 2;
  if (n == 126) {
    if (in.size() < 4) return {};
    n = std::uint64_t((unsigned char)in[2]) << 8 | (unsigned char)in[3];
    if (n < 126) bad = "length not minimal";
    o = 4;
  } else if (n == 127) {
    if (in.size() < 10) return {};
    n = 0;
    for (std::size_t i = 2; i < 10; ++i) n = n << 8 | (unsigned char)in[i];
    if (n < 65536) bad = "length not minimal";
    o = 10;
  }
  if (f.masked) bad = "masked frame from the server";
  if (f.rsv) bad = "reserved bits set";
  if (f.op > 2 && f.op != 8 && f.op != 9 && f.op != 10) bad = "opcode " + std::to_string(f.op);
  if (f.op >= 8 && (n > 125 || !f.fin)) bad = "control frame";
  if (!bad.empty()) return {};
  if (in.size() - o < n) return {};
  f.data = in.substr(o, n);
  in.erase(0, o + n);
  return f;
}

struct message {
  int op;
  std::string data;
  friend bool operator==(const message&, const message&) = default;
};

// what the server sent so far
struct inbox {
  std::vector<message> messages;
  std::vector<std::string> pongs, pings;
  std::optional<std::string> close; // payload
  std::string bad;
  bool open = false; // inside a fragmented message
  message cur;
  void absorb(std::string& in)
  {
    while (auto f = take(in, bad)) {
      if (close) {
        bad = "frame after close";
        return;
      }
      switch (f->op) {
      case 8: close = f->data; break;
      case 9: pings.push_back(f->data); break;
      case 10: pongs.push_back(f->data); break;
      case 0:
        if (!open) {
          bad = "continuation without a start";
          return;
        }
        cur.data += f->data;
        break;
      default:
        if (open) {
          bad = "new message inside a message";
          return;
        }
        open = true;
        cur = { f->op, f->data };
      }
      if (f->op < 3 && f->fin) {
        messages.push_back(std::move(cur));
        open = false;
      }
    }
  }
};

} // namespace ws
