// Reference semantics of route patterns, independent of the library.
#pragma once
#include "vh.hpp"
#include <optional>

namespace routes {

struct tok {
  char kind; // 's' static char, 'p' param, 'w' wildcard
  char c = 0;
  std::string name;
};

inline std::vector<tok> tokens(std::string_view p)
{
  std::vector<tok> r;
  for (std::size_t i = 0; i < p.size();) {
    if (p[i] == '{') {
      auto e = p.find('}', i);
      r.push_back({ 'p', 0, std::string(p.substr(i + 1, e - i - 1)) });
      i = e + 1;
    } else if (p[i] == '#') {
      r.push_back({ 'w', 0, std::string(p.substr(i + 1)) });
      i = p.size();
    } else r.push_back({ 's', p[i++], {} });
  }
  return r;
}

inline std::string shape(std::string_view p)
{
  std::string r;
  for (auto& t : tokens(p)) r += t.kind == 's' ? std::string(1, t.c) : t.kind == 'p' ? "{}" : "#";
  return r;
}

using bindings = std::vector<std::pair<std::string, std::string>>;

inline std::optional<bindings> match(const std::vector<tok>& ts, std::string_view path)
{
  bindings b;
  std::size_t i = 0;
  for (auto& t : ts) {
    if (t.kind == 's') {
      if (i >= path.size() || path[i] != t.c) return {};
      ++i;
    } else if (t.kind == 'p') {
      auto e = path.find('/', i);
      if (e == path.npos) e = path.size();
      if (e == i) return {};
      b.emplace_back(t.name, std::string(path.substr(i, e - i)));
      i = e;
    } else {
      b.emplace_back(t.name, std::string(path.substr(i)));
      i = path.size();
    }
  }
  if (i != path.size()) return {};
  return b;
}

// both match the same path: <0 when a is preferred
inline int prefer(const std::vector<tok>& a, const std::vector<tok>& b)
{
  auto rank = [](const std::vector<tok>& x, std::size_t i) {
    if (i >= x.size()) return 0;
    return x[i].kind == 's' ? 0 : x[i].kind == 'p' ? 1 : 2;
  };
  for (std::size_t i = 0; i < a.size() || i < b.size(); ++i) {
    int d = rank(a, i) - rank(b, i);
    if (d) return d;
    if (i >= a.size() || i >= b.size()) return 0;
  }
  return 0;
}

// names that are legal in patterns, regex-special ones included
inline std::string name(vh::rng& r, std::size_t i)
{
  static const char* base[] = { "x", "id", "a-b", "1a", "n.m", "q+", "v*", "$", "_", "user_name", "(z)", "%41", "e=f", "x!" };
  return std::string(base[r.below(14)]) + (i ? std::to_string(i) : "");
}

inline std::string static_seg(vh::rng& r, bool hostile)
{
  static const char* seg[] = { "a", "b", "ab", "aa", "abc", "ac", "" };
  static const char* hot[] = { "a.b", "a+b", "(a)", "a*", "$", "a$b", ".*", "a.", "~", "a'b", "[", "a%2Fb", "...", "x=(y)" };
  if (hostile && r.chance(1, 3)) {
    std::string s = hot[r.below(14)];
    return s == "[" ? "!" : s;
  }
  return r.chance(1, 12) ? std::string("") : std::string(seg[r.below(6)]);
}

inline std::string pattern(vh::rng& r, bool hostile)
{
  if (r.chance(1, 30)) return "";
  std::string p;
  std::size_t n = r.below(5), names = 0;
  for (std::size_t i = 0; i < n; ++i) {
    p += '/';
    if (r.chance(1, 3)) p += "{" + name(r, names++) + "}";
    else p += static_seg(r, hostile);
  }
  if (r.chance(1, 8)) p += '/';
  if (r.chance(1, 5)) {
    if (!p.empty() && p.back() == '}') p += '/';
    if (p.empty()) p = "/";
    p += "#" + name(r, 9);
  }
  return p;
}

inline std::string segment(vh::rng& r)
{
  static const char* seg[]
      = { "a", "b", "ab", "aa", "abc", "ac", "abcd", "c", "a.b", "axb", "aab", "(a)", "{x}", "}", "a\nb", "#", "%41", "a+b", "$", "..", "*" };
  if (r.chance(1, 12)) return r.bytes(1 + r.below(5));
  if (r.chance(1, 60)) return std::string(3000, 'k');
  return seg[r.below(r.flip() ? 8 : 21)];
}

// a path that is likely to match the pattern
inline std::string path_for(vh::rng& r, std::string_view pat)
{
  std::string p;
  for (auto& t : tokens(pat)) {
    if (t.kind == 's') p += t.c;
    else if (t.kind == 'p') {
      std::string s;
      for (char c : segment(r))
        if (c != '/') s += c;
      p += s;
    } else {
      std::size_t n = r.below(4);
      for (std::size_t i = 0; i < n; ++i) p += (i ? "/" : "") + segment(r);
    }
  }
  switch (r.below(8)) {
  case 0: p += '/'; break;
  case 1:
    if (!p.empty()) p.pop_back();
    break;
  case 2: p += segment(r); break;
  case 3:
    if (!p.empty()) p.insert(p.begin() + long(r.below(p.size() + 1)), '/');
    break;
  default: break;
  }
  return p;
}

} // namespace routes
