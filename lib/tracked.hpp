// Element types whose whole life is recorded: every construction, destruction,
// access and assignment is checked against a registry of live addresses, and a
// fuse makes the n-th throwing-capable operation throw.
#pragma once
#include "vh.hpp"
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <unordered_map>
#include <utility>

namespace trk {

struct injected { };
inline constexpr int moved_value = -424242;

struct registry {
  std::unordered_map<const void*, int> live; // address -> kind
  std::vector<std::string> faults;
  long copies = 0;
  int fuse = 0;
};
inline registry& reg()
{
  static registry r;
  return r;
}
inline int& fuse() { return reg().fuse; }
inline long copies() { return reg().copies; }
inline std::size_t live() { return reg().live.size(); }
inline void reset_faults()
{
  reg().live.clear();
  reg().faults.clear();
  reg().fuse = 0;
}
inline void drain_faults(const std::string& when)
{
  for (auto& f : reg().faults) vh::fail("lifetime:" + f, f + " " + when);
  reg().faults.clear();
}
inline void tick()
{
  if (reg().fuse > 0 && --reg().fuse == 0) throw injected {};
}
inline void born(const void* p, int kind)
{
  if (!reg().live.emplace(p, kind).second) reg().faults.push_back("constructed-over-a-live-object");
}
inline void died(const void* p, int kind)
{
  auto it = reg().live.find(p);
  if (it == reg().live.end()) reg().faults.push_back("destroyed-a-dead-object");
  else {
    if (it->second != kind) reg().faults.push_back("destroyed-as-another-type");
    reg().live.erase(it);
  }
}
inline void used(const void* p, int kind)
{
  auto it = reg().live.find(p);
  if (it == reg().live.end()) reg().faults.push_back("accessed-a-dead-object");
  else if (it->second != kind) reg().faults.push_back("accessed-as-another-type");
}

struct src { // plain source for conversions
  int v;
  src(int x) noexcept
      : v(x)
  {
  }
  friend bool operator==(const src& a, const src& b) { return a.v == b.v; }
};
struct thr { // source of a conversion that may throw
  int v;
};

template <int K, bool NxMove>
struct obj {
  int v;
  obj() noexcept
      : obj(0)
  {
  }
  obj(int x) noexcept
      : v(x)
  {
    born(this, K);
  }
  explicit obj(const src& s)
      : obj(s.v)
  {
  }
  obj(std::initializer_list<int> il, int x) noexcept
      : v(x)
  {
    for (auto i : il) v += i;
    born(this, K);
  }
  obj(std::initializer_list<int> il, const thr& t)
      : v(t.v)
  {
    tick();
    for (auto i : il) v += i;
    born(this, K);
  }
  explicit obj(const thr& t)
      : v(t.v)
  {
    tick();
    born(this, K);
  }
  obj(const obj& o)
      : v(o.v)
  {
    used(&o, K);
    tick();
    ++reg().copies;
    born(this, K);
  }
  obj(obj&& o) noexcept(NxMove)
      : v(o.v)
  {
    used(&o, K);
    if constexpr (!NxMove) tick();
    o.v = moved_value;
    born(this, K);
  }
  obj& operator=(const obj& o)
  {
    used(this, K);
    used(&o, K);
    tick();
    ++reg().copies;
    v = o.v;
    return *this;
  }
  obj& operator=(obj&& o) noexcept(NxMove)
  {
    used(this, K);
    used(&o, K);
    if constexpr (!NxMove) tick();
    if (this != &o) {
      v = o.v;
      o.v = moved_value;
    }
    return *this;
  }
  obj& operator=(const thr& t)
  {
    used(this, K);
    tick();
    v = t.v;
    return *this;
  }
  ~obj()
  {
    died(this, K);
    v = -7777;
  }
  friend bool operator==(const obj& a, const obj& b)
  {
    used(&a, K);
    used(&b, K);
    return a.v == b.v;
  }
  friend auto operator<=>(const obj& a, const obj& b)
  {
    used(&a, K);
    used(&b, K);
    return a.v <=> b.v;
  }
  friend bool operator==(const obj& a, const src& b)
  {
    used(&a, K);
    return a.v == b.v;
  }
  friend auto operator<=>(const obj& a, const src& b)
  {
    used(&a, K);
    return a.v <=> b.v;
  }
};

template <int K>
struct mobj : obj<K, true> {
  using obj<K, true>::obj;
  mobj() noexcept = default;
  mobj(mobj&&) noexcept = default;
  mobj& operator=(mobj&&) noexcept = default;
};

template <int K, bool N>
int num(const obj<K, N>& o)
{
  used(&o, K);
  return o.v;
}
inline int num(int v) { return v; }
inline int num(const src& s) { return s.v; }

template <class T>
inline constexpr bool is_tracked = !std::is_same_v<T, int>;

} // namespace trk
