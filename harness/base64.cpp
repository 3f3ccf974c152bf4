#include <fitoria/encoding/base64.hpp>
#include <list>
#include <stdexcept>
#include "vh.hpp"
using namespace fitoria::encoding::base64;

// ---- oracle (RFC 4648, written from the RFC) ----
static const char* STD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char* URL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

static std::string enc(const std::string& in, const char* a, bool pad)
{
  std::string out;
  for (std::size_t i = 0; i < in.size(); i += 3) {
    std::size_t n = std::min<std::size_t>(3, in.size() - i);
    unsigned v = 0;
    for (std::size_t j = 0; j < 3; ++j) v = v << 8 | (j < n ? (unsigned char)in[i + j] : 0u);
    for (std::size_t j = 0; j < n + 1; ++j) out += a[v >> (18 - 6 * j) & 63];
    if (pad)
      for (std::size_t j = n; j < 3; ++j) out += '=';
  }
  return out;
}
struct dec_t {
  bool ok, canonical;
  std::string bytes;
};
static dec_t dec(const std::string& t, const char* a)
{
  std::string core = t;
  std::size_t k = 0;
  while (!core.empty() && core.back() == '=') core.pop_back(), ++k;
  for (char c : core)
    if (c == 0 || !std::strchr(a, c)) return { false, true, "" };
  std::size_t m = core.size() % 4;
  if (m == 1 || (k && (k > 2 || m != 4 - k))) return { false, true, "" };
  std::string out;
  unsigned acc = 0, bits = 0;
  for (char c : core) {
    acc = acc << 6 | unsigned(std::strchr(a, c) - a);
    bits += 6;
    if (bits >= 8) {
      bits -= 8;
      out += char(acc >> bits & 255);
    }
  }
  return { true, (acc & ((1u << bits) - 1)) == 0, out };
}
// can t be extended (or is) to valid base64?
static bool viable(const std::string& t, const char* a)
{
  for (const char* ext : { "", "A", "=", "==", "AA" })
    if (dec(t + ext, a).ok) return true;
  return false;
}

template <class Byte>
static std::vector<Byte> as(const std::string& s)
{
  std::vector<Byte> v;
  for (char c : s) v.push_back(static_cast<Byte>((unsigned char)c));
  return v;
}

template <class Enc, class Byte>
static std::string run_enc(Enc e, const std::string& in, vh::rng& r)
{
  auto v = as<Byte>(in);
  std::string out;
  switch (r.below(3)) {
  case 0: e.encode(v.data(), v.data() + v.size(), std::back_inserter(out)); break;
  case 1: {
    auto it = std::back_inserter(out);
    for (std::size_t i = 0; i < v.size();) {
      auto n = 1 + r.below(v.size() - i);
      it = e.encode_next(v.begin() + long(i), v.begin() + long(i + n), it);
      i += n;
    }
    e.encode_rest(it);
    break;
  }
  default: {
    // exact-size raw output: any overrun is an ASan report
    std::list<Byte> l(v.begin(), v.end());
    std::vector<char> tmp;
    e.encode(l.begin(), l.end(), std::back_inserter(tmp));
    auto* raw = new char[tmp.size()];
    auto* end = e.encode(l.begin(), l.end(), raw); // reuse of the same encoder
    out.assign(raw, end);
    if (std::string(tmp.begin(), tmp.end()) != out) vh::fail("encoder-reuse-differs", vh::esc(in));
    delete[] raw;
  }
  }
  return out;
}

template <class Dec, class Byte>
static void run_dec(const std::string& t, const char* a, vh::rng& r, const std::string& what)
{
  auto want = dec(t, a);
  auto v = as<Byte>(t);
  // one call
  {
    std::string out;
    bool threw = false;
    try {
      Dec().decode(v.begin(), v.end(), std::back_inserter(out));
    } catch (const std::invalid_argument&) {
      threw = true;
    }
    if (want.ok ? (threw ? want.canonical : out != want.bytes) : !threw)
      vh::fail(want.ok ? "decode-wrong-bytes" : "decode-accepts-invalid",
               what + " text=" + vh::esc(t) + " got=" + (threw ? "error" : vh::esc(out)) + " want="
                   + (want.ok ? vh::esc(want.bytes) : "error"));
    vh::eval();
    vh::count(want.ok ? "decode:accepted" : "decode:rejected");
  }
  // incremental, at random splits or byte by byte; state judged at every stop
  {
    Dec d;
    std::string out;
    auto it = std::back_inserter(out);
    std::size_t i = 0;
    bool by_byte = r.flip();
    while (i < v.size()) {
      if (by_byte) {
        it = d.decode_next(v[i], it);
        ++i;
      } else {
        auto n = 1 + r.below(std::min<std::size_t>(v.size() - i, 9));
        it = d.decode_next(v.data() + i, v.data() + i + n, it);
        i += n;
      }
      auto pre = t.substr(0, i);
      auto w = dec(pre, a);
      vh::eval();
      if (d.is_error() && d.is_done()) vh::fail("error-and-done", what + " " + vh::esc(pre));
      if (w.ok && w.canonical && (d.is_error() || !d.is_done()))
        vh::fail("valid-prefix-not-done", what + " " + vh::esc(pre));
      if (!w.ok && d.is_done()) vh::fail("invalid-prefix-done", what + " " + vh::esc(pre));
      if (!d.is_error() && !viable(pre, a)) vh::fail("hopeless-prefix-no-error", what + " " + vh::esc(pre));
      if (viable(pre, a) && d.is_error()) vh::fail("viable-prefix-error", what + " " + vh::esc(pre));
      if (w.ok && w.canonical && out != w.bytes)
        vh::fail("incremental-wrong-bytes", what + " " + vh::esc(pre) + " got=" + vh::esc(out));
      if (!w.ok && !viable(pre, a)) break;
    }
  }
}

template <class Byte>
static void both(const std::string& t, vh::rng& r, const char* bn)
{
  run_dec<standard_decoder, Byte>(t, STD, r, std::string("standard/") + bn);
  run_dec<url_decoder, Byte>(t, URL, r, std::string("url/") + bn);
}
static void all_types(const std::string& t, vh::rng& r)
{
  switch (r.below(4)) {
  case 0: both<char>(t, r, "char"); break;
  case 1: both<unsigned char>(t, r, "uchar"); break;
  case 2: both<signed char>(t, r, "schar"); break;
  default: both<std::byte>(t, r, "byte"); break;
  }
}

static void roundtrip(const std::string& in, vh::rng& r)
{
  for (int url = 0; url < 2; ++url)
    for (int pad = 0; pad < 2; ++pad) {
      auto p = pad ? padding::yes : padding::no;
      std::string got;
      auto go = [&](auto e) {
        using E = decltype(e);
        switch (r.below(4)) {
        case 0: return run_enc<E, char>(e, in, r);
        case 1: return run_enc<E, unsigned char>(e, in, r);
        case 2: return run_enc<E, std::byte>(e, in, r);
        default: return run_enc<E, signed char>(e, in, r);
        }
      };
      got = url ? go(url_encoder(p)) : go(standard_encoder(p));
      auto want = enc(in, url ? URL : STD, pad);
      VH_CHECK(got == want, "encode-wrong-text",
               "in=" + vh::esc(in) + " got=" + got + " want=" + want + (url ? " url" : " std") + (pad ? " pad" : ""));
      if (pad) {
        auto g2 = url ? run_enc<url_encoder, char>(url_encoder(), in, r)
                      : run_enc<standard_encoder, char>(standard_encoder(), in, r);
        VH_CHECK(g2 == want, "default-encoder-not-padded", vh::esc(in) + " got=" + g2);
      }
      std::string back;
      try {
        if (url) url_decoder().decode(got.begin(), got.end(), std::back_inserter(back));
        else standard_decoder().decode(got.begin(), got.end(), std::back_inserter(back));
        VH_CHECK(back == in, "round-trip-differs", "in=" + vh::esc(in) + " text=" + got + " back=" + vh::esc(back));
      } catch (const std::exception& e) {
        vh::fail("round-trip-rejected", "in=" + vh::esc(in) + " text=" + got);
      }
      vh::count("roundtrips");
    }
  vh::seen(in);
}

// every byte value at every position of the four-symbol cycle, all element types
VH_SUITE("every-byte", 256, 256)
{
  char c = char(idx);
  for (int pos = 0; pos < 6; ++pos)
    for (const char* tail : { "", "A", "AA", "=", "==", "AAAA" }) {
      auto t = std::string("QUJDRA==").substr(0, std::size_t(pos)) + c + tail;
      both<char>(t, r, "char");
      both<signed char>(t, r, "schar");
      both<unsigned char>(t, r, "uchar");
      both<std::byte>(t, r, "byte");
      vh::seen(t);
    }
  for (std::string s : { std::string(1, c), std::string("\xff") + c, std::string("\0\x80", 2) + c }) roundtrip(s, r);
}
VH_SUITE("small-exhaustive", 65536, 65536)
{
  std::string s { char(idx >> 8), char(idx) };
  if (idx % 16 == 0 || vh::thorough()) roundtrip(s, r);
  // all 2-byte texts, and all texts over a small hostile alphabet
  std::string al = "A=/-+_\xc1\x80";
  std::string t;
  for (long v = idx, k = 0; k < 5; ++k, v /= 8) t += al[std::size_t(v % 8)];
  all_types(t, r);
  if (idx % 8 == 0) all_types(s, r);
}
VH_SUITE("random-roundtrip", 6000, 200000)
{
  auto s = r.bytes(r.len(r.chance(1, 20) ? 3000 : 200));
  vh::sample("in=" + vh::esc(s, 40));
  roundtrip(s, r);
}
VH_SUITE("mutated-text", 20000, 600000)
{
  bool url = r.flip();
  auto t = enc(r.bytes(r.len(60)), url ? URL : STD, r.flip());
  int n = int(r.below(4));
  for (int i = 0; i < n; ++i) {
    auto p = r.below(t.size() + 1);
    char c = r.chance(1, 3) ? '=' : r.chance(1, 2) ? char(r.u64()) : (r.flip() ? STD : URL)[r.below(64)];
    switch (r.below(4)) {
    case 0: t.insert(p, 1, c); break;
    case 1:
      if (p < t.size()) t[p] = c;
      break;
    case 2:
      if (p < t.size()) t.erase(p, 1);
      break;
    default: t.resize(p); break;
    }
  }
  vh::sample(vh::esc(t, 60));
  vh::seen(t);
  all_types(t, r);
}
int main(int c, char** v)
{
  vh::require("decode:accepted", 1000);
  vh::require("decode:rejected", 1000);
  vh::require("roundtrips", 1000);
  return vh::main(c, v);
}
