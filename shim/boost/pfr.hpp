// Overlay for Boost 1.83 (the sandbox's Boost): fitoria wants Boost >= 1.85,
// whose PFR has get_name<I, T>().  Everything else is the system header.
#pragma once
#include_next <boost/pfr.hpp>
#if defined(BOOST_VERSION) && BOOST_VERSION < 108400 || !__has_include(<boost/pfr/core_name.hpp>)
#include <string_view>
#include <cstddef>
namespace boost::pfr {
namespace vshim {
template <class T> struct holder { T value; };
template <class T> extern const holder<T> fake;
template <auto P> struct wrap { };
template <auto Ptr>
constexpr std::string_view pretty() { return __PRETTY_FUNCTION__; }
// "... [with auto Ptr = (& fake<X>.vshim::holder<X>::value.X::name); ..." (gcc)
// "... [Ptr = &fake.value.name]"                                          (clang)
constexpr std::string_view strip(std::string_view s)
{
  // first cut gcc's trailing typedef list "; std::string_view = ..."
  auto semi = s.rfind("; std::string_view");
  if (semi != s.npos) s = s.substr(0, semi);
  auto ident = [](char c) {
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z')
        || (c >= 'A' && c <= 'Z') || c == '_';
  };
  std::size_t e = s.size();
  while (e > 0 && !ident(s[e - 1])) --e;
  std::size_t b = e;
  while (b > 0 && ident(s[b - 1])) --b;
  return s.substr(b, e - b);
}
template <class T, std::size_t I> constexpr auto tie_ptr(const T& v)
{
  constexpr auto N = boost::pfr::tuple_size_v<T>;
  if constexpr (N == 1) { auto& [a] = v; return &a; }
  else if constexpr (N == 2) { auto& [a, b] = v;
    if constexpr (I == 0) return &a; else return &b; }
  else if constexpr (N == 3) { auto& [a, b, c] = v;
    if constexpr (I == 0) return &a; else if constexpr (I == 1) return &b; else return &c; }
  else if constexpr (N == 4) { auto& [a, b, c, d] = v;
    if constexpr (I == 0) return &a; else if constexpr (I == 1) return &b; else if constexpr (I == 2) return &c; else return &d; }
  else if constexpr (N == 5) { auto& [a, b, c, d, e] = v;
    if constexpr (I == 0) return &a; else if constexpr (I == 1) return &b; else if constexpr (I == 2) return &c; else if constexpr (I == 3) return &d; else return &e; }
  else if constexpr (N == 6) { auto& [a, b, c, d, e, f] = v;
    if constexpr (I == 0) return &a; else if constexpr (I == 1) return &b; else if constexpr (I == 2) return &c; else if constexpr (I == 3) return &d; else if constexpr (I == 4) return &e; else return &f; }
  else if constexpr (N == 7) { auto& [a, b, c, d, e, f, g] = v;
    if constexpr (I == 0) return &a; else if constexpr (I == 1) return &b; else if constexpr (I == 2) return &c; else if constexpr (I == 3) return &d; else if constexpr (I == 4) return &e; else if constexpr (I == 5) return &f; else return &g; }
  else if constexpr (N == 8) { auto& [a, b, c, d, e, f, g, h] = v;
    if constexpr (I == 0) return &a; else if constexpr (I == 1) return &b; else if constexpr (I == 2) return &c; else if constexpr (I == 3) return &d; else if constexpr (I == 4) return &e; else if constexpr (I == 5) return &f; else if constexpr (I == 6) return &g; else return &h; }
}
}
template <std::size_t I, class T> constexpr std::string_view get_name() noexcept
{
  return vshim::strip(
      vshim::pretty<vshim::tie_ptr<T, I>(vshim::fake<T>.value)>());
}
}
#endif
