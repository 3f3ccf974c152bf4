#include <fitoria/core/from_string.hpp>
#include <cmath>
#include <limits>
#include <memory>
#include "vh.hpp"
using namespace fitoria;

// exact-size heap copy: reading one byte past the view is an ASan report
struct tight {
  std::unique_ptr<char[]> p;
  std::size_t n;
  explicit tight(const std::string& s)
      : p(new char[s.size()])
      , n(s.size())
  {
    std::memcpy(p.get(), s.data(), n);
  }
  operator std::string_view() const { return { p.get(), n }; }
};

static bool digits(std::string_view s)
{
  if (s.empty()) return false;
  for (char c : s)
    if (c < '0' || c > '9') return false;
  return true;
}

enum class lit { bad, range, ok };
template <class T>
static lit int_oracle(std::string_view s, T& out)
{
  bool neg = false;
  if (std::is_signed_v<T> && !s.empty() && s[0] == '-') {
    neg = true;
    s.remove_prefix(1);
  }
  if (!digits(s)) return lit::bad;
  unsigned __int128 v = 0;
  const unsigned __int128 cap = (unsigned __int128)1 << 100;
  for (char c : s) {
    v = v * 10 + unsigned(c - '0');
    if (v > cap) v = cap;
  }
  unsigned __int128 lim = neg ? (unsigned __int128)std::numeric_limits<T>::max() + 1
                              : (unsigned __int128)std::numeric_limits<T>::max();
  if (v > lim) return lit::range;
  out = neg ? T(-(__int128)v) : T(v);
  return lit::ok;
}

template <class T>
static void one_int(const std::string& s, const char* tn)
{
  tight t(s);
  T want {};
  auto l = int_oracle<T>(s, want);
  auto got = from_string<T>(t);
  vh::eval();
  auto d = [&] {
    return std::string(tn) + " \"" + vh::esc(s) + "\" got="
        + (got ? std::to_string(+*got) : std::string("error:") + got.error().message());
  };
  if (l == lit::ok) {
    vh::count("int:ok");
    if (!got) vh::fail("int-rejects-literal", d());
    else if (*got != want) vh::fail("int-wrong-value", d());
  } else if (l == lit::range) {
    vh::count("int:range");
    if (got) vh::fail("int-out-of-range-accepted", d());
    else if (got.error() != std::make_error_code(std::errc::result_out_of_range)) vh::fail("int-range-error-code", d());
  } else {
    vh::count("int:bad");
    if (got) vh::fail("int-accepts-garbage", d());
    else if (!got.error()) vh::fail("int-empty-error", d());
  }
}
static void ints(const std::string& s)
{
  one_int<signed char>(s, "schar");
  one_int<unsigned char>(s, "uchar");
  one_int<char>(s, "char");
  one_int<short>(s, "short");
  one_int<unsigned short>(s, "ushort");
  one_int<int>(s, "int");
  one_int<unsigned>(s, "uint");
  one_int<long>(s, "long");
  one_int<unsigned long>(s, "ulong");
  one_int<long long>(s, "llong");
  one_int<unsigned long long>(s, "ullong");
}

// 0 = not a literal, 1 = decimal literal, 2 = inf/nan (either answer accepted)
static int float_shape(std::string_view s)
{
  if (!s.empty() && s[0] == '-') s.remove_prefix(1);
  std::string lo(s);
  for (auto& c : lo)
    if (c >= 'A' && c <= 'Z') c = char(c + 32);
  if (lo == "inf" || lo == "infinity" || lo.rfind("nan", 0) == 0) return 2;
  std::size_t i = 0, nd = 0;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i, ++nd;
  if (i < s.size() && s[i] == '.') {
    ++i;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i, ++nd;
  }
  if (!nd) return 0;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (!digits(s.substr(i))) return 0;
    i = s.size();
  }
  return i == s.size() ? 1 : 0;
}
template <class T>
static T strto(const char* s)
{
  if constexpr (std::same_as<T, float>) return std::strtof(s, nullptr);
  else if constexpr (std::same_as<T, double>) return std::strtod(s, nullptr);
  else return std::strtold(s, nullptr);
}
template <class T>
static void one_float(const std::string& s, const char* tn)
{
  tight t(s);
  int shape = float_shape(s);
  // libstdc++ 13 itself over-reads unterminated inf/nan text for long double
  if (std::same_as<T, long double> && s.find_first_of("iInN") < 2) return;
  auto got = from_string<T>(t);
  vh::eval();
  auto d = [&] {
    char b[64];
    std::snprintf(b, sizeof b, "%La", got ? (long double)*got : 0.0L);
    return std::string(tn) + " \"" + vh::esc(s) + "\" got=" + (got ? std::string(b) : "error:" + got.error().message());
  };
  if (shape == 0) {
    vh::count("float:bad");
    if (got) vh::fail("float-accepts-garbage", d());
    return;
  }
  if (s.find('\0') != std::string::npos) return;
  T want = strto<T>(s.c_str());
  if (shape == 2) return;
  bool over = std::isinf(want);
  bool tiny = std::abs(want) < std::numeric_limits<T>::min();
  bool zero_literal = true;
  for (char c : s) {
    if (c == 'e' || c == 'E') break;
    if (c >= '1' && c <= '9') zero_literal = false;
  }
  if (over) {
    vh::count("float:over");
    if (got) vh::fail("float-overflow-accepted", d());
  } else if (tiny && !zero_literal) {
    if (got && (*got != want)) vh::fail("float-wrong-value", d());
  } else {
    vh::count("float:ok");
    if (!got) vh::fail("float-rejects-literal", d());
    else if (*got != want || std::signbit(*got) != std::signbit(want)) vh::fail("float-wrong-value", d());
  }
}
static void floats(const std::string& s)
{
  one_float<float>(s, "float");
  one_float<double>(s, "double");
  one_float<long double>(s, "ldouble");
}
static void bools(const std::string& s)
{
  tight t(s);
  auto got = from_string<bool>(t);
  std::string lo = s;
  for (auto& c : lo)
    if (c >= 'A' && c <= 'Z') c = char(c + 32);
  int want = -1;
  for (auto* x : { "1", "t", "true", "y", "yes" })
    if (lo == x) want = 1;
  for (auto* x : { "0", "f", "false", "n", "no" })
    if (lo == x) want = 0;
  VH_CHECK(want < 0 ? !got : (got && *got == (want == 1)), "bool-wrong",
           "\"" + vh::esc(s) + "\" got=" + (got ? (*got ? "true" : "false") : "error"));
  if (want >= 0) vh::count("bool:ok");
}
static void strs(const std::string& s)
{
  tight t(s);
  std::string_view v = t;
  auto a = from_string<std::string>(v);
  auto b = from_string<std::string_view>(v);
  VH_CHECK(a && *a == s, "string-not-identical", vh::esc(s));
  VH_CHECK(b && *b == s && b->data() == v.data(), "string-view-not-identical", vh::esc(s));
}
static void all(const std::string& s)
{
  ints(s);
  floats(s);
  bools(s);
  strs(s);
  vh::seen(s);
}

static std::string i128(__int128 v)
{
  bool neg = v < 0;
  unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  std::string s;
  do {
    s.insert(s.begin(), char('0' + int(u % 10)));
    u /= 10;
  } while (u);
  return neg ? "-" + s : s;
}

VH_SUITE("boundaries", 130, 130)
{
  // +-2^k + {-2..2}, decorated
  __int128 base = (__int128)1 << (idx / 2 % 65);
  if (idx & 1) base = -base;
  for (int d = -2; d <= 2; ++d) {
    auto s = i128(base + d);
    for (auto& x : { s, "0" + s, " " + s, s + " ", "+" + s, s + ".", s + "0", s + "x", "0x" + s, s + std::string(1, 0),
                     s + "e0", "-" + s, s + "L", s + "," + s, std::string("000000000000000000000000000000") + s,
                     "-0" + s })
      all(x);
  }
}
VH_SUITE("literals", 1, 1)
{
  for (std::string s : { "", "-", "+", ".", "-.", "e", "e5", ".e5", "1e", "1e+", "1e-", "1e5", "1E5", "1e+5", "1e-5",
                         ".5", "5.", "-.5", "-5.", "0", "-0", "00", "-00", "0.0", "-0.0", "1_000", "1,5", "1.5.2",
                         "0x1p3", "0b1", "1e400", "-1e400", "1e-400", "1e5000", "1e-5000", "3.4028235e38", "3.4028236e38",
                         "3.5e38", "1.7976931348623157e308", "1.7976931348623159e308", "4.9e-324", "2.2250738585072011e-308",
                         "inf", "-inf", "INF", "infinity", "nan", "NaN", "-nan", "nan(1)", "infin", "na", "nanx",
                         "9007199254740993", "0.1", "0.30000000000000004", "123456789012345678901234567890",
                         "1.00000005960464477539062500000000000001", "1 ", " 1", "\t1", "1\n", "--1", "-+1", "1-",
                         "t", "T", "f", "F", "y", "Y", "n", "N", "1", "0", "true", "TRUE", "tRuE", "false", "False",
                         "yes", "YES", "no", "NO", "on", "off", "2", "01", "10", "tru", "truee", "ye", "yess", "fals",
                         "nо", "truE ", " true" })
    all(s);
  all(std::string(1, 0));
  all(std::string("1\0", 2));
  all(std::string("\0" "1", 2));
  all(std::string("true\0", 5));
}
VH_SUITE("bool-cases", 512, 512)
{
  static const char* w[] = { "1", "t", "true", "y", "yes", "0", "f", "false", "n", "no", "tr", "fa", "o", "on", "e", "s" };
  std::string s = w[idx % 16];
  for (std::size_t i = 0; i < s.size(); ++i)
    if (idx >> 4 >> i & 1) s[i] = char(std::toupper(s[i]));
  bools(s);
  bools(s + char(idx));
  bools(char(idx) + s);
  for (std::size_t i = 0; i < s.size(); ++i) {
    auto m = s;
    m[i] = char(idx & 255);
    bools(m);
  }
}
VH_SUITE("single-and-pairs", 4096, 65536)
{
  std::string s { char(idx >> 8), char(idx) };
  if (!vh::thorough()) {
    const char* al = "0123456789+-.eExXinf taTuyYnNoO, \n\0\x80\xff_#$%&'()*/:;<=>?@ABCDEFGH";
    s = { al[idx / 64 % 62], al[idx % 64 % 62] };
  }
  all(s);
  all(s.substr(0, 1));
}
VH_SUITE("random-numbers", 8000, 200000)
{
  std::string s;
  switch (r.below(4)) {
  case 0: s = i128((__int128)r.u64() >> r.below(64)); break;
  case 1: s = (r.flip() ? "-" : "") + r.from("0123456789", 1 + r.below(25)); break;
  case 2: {
    s = (r.flip() ? "-" : "") + r.from("0123456789", r.below(20)) + "." + r.from("0123456789", r.below(20));
    if (r.flip()) s += std::string(r.flip() ? "e" : "E") + r.one_of<const char*>({ "", "+", "-" }) + std::to_string(r.below(330));
    break;
  }
  default: s = r.from("0123456789+-.eE x", r.below(12)); break;
  }
  if (r.chance(1, 4)) {
    auto p = r.below(s.size() + 1);
    if (r.flip()) s.insert(p, 1, char(r.u64()));
    else if (p < s.size()) s[p] = char(r.u64());
  }
  vh::sample(vh::esc(s));
  all(s);
}
int main(int c, char** v)
{
  vh::require("int:ok", 1000);
  vh::require("int:range", 1000);
  vh::require("int:bad", 1000);
  vh::require("float:ok", 1000);
  vh::require("float:bad", 1000);
  vh::require("bool:ok", 10);
  return vh::main(c, v);
}
