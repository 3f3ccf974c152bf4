// P10: histories over pools of optionals judged step by step against
// std::optional itself (values) and a model (void, references); contained
// objects live in a registry that sees every construction, destruction, access.
#include "tracked.hpp"

#include <fitoria/core/optional.hpp>

#include <cmath>
#include <limits>
#include <optional>

namespace ft = fitoria;
using ft::nullopt;
using ft::optional;
using namespace trk;

namespace {

struct model {
  bool has = false;
  int v = 0;
  friend bool operator==(const model&, const model&) = default;
};
std::string show(const model& m) { return m.has ? std::to_string(m.v) : "null"; }

template <class X>
model look(const X& x)
{
  model m;
  m.has = x.has_value();
  if (static_cast<bool>(x) != m.has) vh::fail("bool-vs-has_value", "operator bool disagrees");
  if (m.has) m.v = num(*x);
  return m;
}

template <class Arg>
constexpr int cat()
{
  return (std::is_rvalue_reference_v<Arg> ? 2 : 0) + (std::is_const_v<std::remove_reference_t<Arg>> ? 1 : 0);
}

// all relational operators of two operands against the expected three-way order
// (-1, 0, 1; 2 = unordered)
template <class A, class B>
void relations(const A& a, const B& b, int ord, const std::string& key, const std::string& what)
{
  VH_CHECK((a == b) == (ord == 0), key + "==", what);
  VH_CHECK((a != b) == (ord != 0), key + "!=", what);
  VH_CHECK((a < b) == (ord == -1), key + "<", what);
  VH_CHECK((a <= b) == (ord == -1 || ord == 0), key + "<=", what);
  VH_CHECK((a > b) == (ord == 1), key + ">", what);
  VH_CHECK((a >= b) == (ord == 1 || ord == 0), key + ">=", what);
}

int order(const model& a, const model& b)
{
  if (!a.has || !b.has) return int(a.has) - int(b.has);
  return a.v < b.v ? -1 : a.v > b.v ? 1 : 0;
}

template <class T>
void history(vh::rng& r, const char* what)
{
  using X = optional<T>;
  constexpr bool tr = is_tracked<T>;
  constexpr bool cp = std::is_copy_constructible_v<T>;
  reset_faults();
  {
    std::vector<std::unique_ptr<X>> pool;
    std::vector<model> mod;
    std::string hist = what;
    int next = 10;
    auto mv = [&](model& m) {
      if (m.has && tr) m.v = moved_value;
    };
    auto fresh = [&] { return r.chance(1, 3) ? 7 : ++next; };
    auto add = [&](X* p, model m, const char* n) {
      pool.emplace_back(p);
      mod.push_back(m);
      hist += n;
    };
    int n = 10 + int(r.below(40));
    for (int k = 0; k < n; ++k) {
      while (pool.size() < 3) {
        int v = fresh();
        switch (r.below(9)) {
        case 0: add(new X(), {}, " ctor()"); break;
        case 1: add(new X(nullopt), {}, " ctor(null)"); break;
        case 2: add(new X(std::in_place, v), { true, v }, " ctor(in_place)"); break;
        case 3: {
          T t(v);
          add(new X(std::move(t)), { true, v }, " ctor(T&&)");
          if (tr) VH_CHECK(num(t) == moved_value, "not-moved", hist);
          break;
        }
        case 4:
          if constexpr (cp) {
            const T t(v);
            add(new X(t), { true, v }, " ctor(T const&)");
          }
          break;
        case 5:
          if constexpr (std::is_constructible_v<T, std::initializer_list<int>&, int>)
            add(new X(std::in_place, { 1, 2 }, v), { true, v + 3 }, " ctor(in_place,il)");
          break;
        case 6:
          if constexpr (std::is_constructible_v<T, const src&>) {
            bool h = r.flip();
            const optional<src> s = h ? optional<src>(v) : optional<src>();
            add(new X(s), { h, h ? v : 0 }, " ctor(conv const&)");
          }
          break;
        case 7:
          if constexpr (std::is_constructible_v<T, src>) {
            bool h = r.flip();
            optional<src> s = h ? optional<src>(v) : optional<src>();
            add(new X(std::move(s)), { h, h ? v : 0 }, " ctor(conv&&)");
            VH_CHECK(s.has_value() == h, "source-changed", hist);
          }
          break;
        case 8: add(new X(ft::make_optional<T>(v)), { true, v }, " make_optional"); break;
        }
      }
      auto i = r.below(3), j = r.below(3);
      auto &a = *pool[i], &b = *pool[j];
      auto &ma = mod[i], &mb = mod[j];
      const model sa = ma, sb = mb;
      int v = fresh();
      bool fused = r.chance(1, 4), threw = false;
      auto c0 = copies();
      auto with = [&](auto&& f) {
        fuse() = fused ? int(1 + r.below(4)) : 0;
        try {
          f();
        } catch (const injected&) {
          threw = true;
          vh::count("injected_throws");
        }
        fuse() = 0;
      };
      std::string name;
      switch (r.below(20)) {
      case 0:
        if constexpr (cp) {
          name = "copy-assign";
          with([&] { a = static_cast<const X&>(b); });
          if (!threw) ma = sb;
        }
        break;
      case 1:
      case 2:
        name = "move-assign";
        with([&] { a = std::move(b); });
        if (!threw && i != j) {
          ma = sb;
          mv(mb);
        }
        VH_CHECK(copies() == c0, "copied-rvalue:move-assign", hist);
        break;
      case 3:
        if constexpr (cp) {
          name = "assign-value";
          const T t(v);
          with([&] { a = t; });
          VH_CHECK(num(t) == v, "source-changed", hist);
          if (!threw) ma = { true, v };
        }
        break;
      case 4: {
        name = "assign-rvalue";
        T t(v);
        with([&] { a = std::move(t); });
        if (!threw) ma = { true, v };
        VH_CHECK(copies() == c0, "copied-rvalue:assign", hist);
        break;
      }
      case 5:
        if constexpr (std::is_constructible_v<T, thr> && std::is_assignable_v<T&, thr>) {
          name = "assign-converting";
          with([&] { a = thr { v }; });
          if (!threw) ma = { true, v };
        }
        break;
      case 6:
        if constexpr (std::is_constructible_v<T, const thr&> && std::is_assignable_v<T&, const thr&>) {
          name = "assign-optional-converting";
          bool h = r.flip();
          optional<thr> t = h ? optional<thr>(thr { v }) : optional<thr>();
          with([&] {
            if (r.flip()) a = std::as_const(t);
            else a = std::move(t);
          });
          if (!threw) ma = { h, h ? v : 0 };
        }
        break;
      case 7:
        name = "assign-null";
        a = nullopt;
        ma = {};
        break;
      case 8:
        name = "reset";
        a.reset();
        ma = {};
        break;
      case 9: {
        name = "emplace";
        if constexpr (std::is_constructible_v<T, thr>) {
          with([&] { a.emplace(thr { v }); });
          ma = threw ? model {} : model { true, v };
        } else {
          auto& ref = a.emplace(v);
          VH_CHECK(&ref == &*a, "emplace-ref", hist);
          ma = { true, v };
        }
        break;
      }
      case 10:
        if constexpr (std::is_constructible_v<T, std::initializer_list<int>&, thr>) {
          name = "emplace-il";
          if (r.flip()) {
            with([&] { a.emplace({ 5, 6 }, thr { v }); });
            ma = threw ? model {} : model { true, v + 11 };
            break;
          }
        }
        if constexpr (std::is_constructible_v<T, std::initializer_list<int>&, int>) {
          name = "emplace-il";
          auto& ref = a.emplace({ 5, 6 }, v);
          VH_CHECK(&ref == &*a, "emplace-ref", hist);
          ma = { true, v + 11 };
        }
        break;
      case 11:
        name = "swap";
        with([&] {
          if (r.flip()) a.swap(b);
          else swap(a, b);
        });
        if (!threw) {
          if (i != j) std::swap(ma, mb);
        } else if (sa.has && sb.has) {
          VH_CHECK(a.has_value() && b.has_value(), "swap-throw-state", hist);
          ma = look(a);
          mb = look(b);
        }
        VH_CHECK(copies() == c0, "copied-rvalue:swap", hist);
        break;
      case 12:
        if constexpr (cp) {
          name = "copy-ctor";
          with([&] {
            X c(static_cast<const X&>(b));
            VH_CHECK(look(c) == sb, "copy-ctor", show(look(c)) + " of " + show(sb));
          });
        }
        break;
      case 13: {
        name = "move-ctor";
        bool done = false;
        with([&] {
          X c(std::move(b));
          done = true;
          VH_CHECK(look(c) == sb, "move-ctor", show(look(c)) + " of " + show(sb));
        });
        if (done) mv(mb);
        VH_CHECK(copies() == c0, "copied-rvalue:move-ctor", hist);
        break;
      }
      case 14: {
        name = "access";
        auto get = [&](auto&& f) {
          bool t = false;
          try {
            auto&& x = f();
            VH_CHECK(ma.has && num(x) == ma.v && static_cast<const void*>(&x) == static_cast<const void*>(&*std::as_const(a)),
                     "value()", hist);
          } catch (const ft::bad_optional_access&) {
            t = true;
          }
          VH_CHECK(t == !ma.has, "value()-throw", "throws exactly when disengaged");
        };
        get([&]() -> decltype(auto) { return a.value(); });
        get([&]() -> decltype(auto) { return std::as_const(a).value(); });
        get([&]() -> decltype(auto) { return std::move(a).value(); });
        get([&]() -> decltype(auto) { return std::move(std::as_const(a)).value(); });
        if (ma.has) {
          T&& x = *std::move(a);
          const T&& y = *std::move(std::as_const(a));
          VH_CHECK(&x == &*a && &y == &*a && a.operator->() == &x && std::as_const(a).operator->() == &x, "address", hist);
        }
        break;
      }
      case 15: {
        name = "compare";
        relations(a, b, order(ma, mb), "cmp", show(ma) + " vs " + show(mb));
        if constexpr (std::three_way_comparable<T>) {
          auto o = a <=> b;
          int e = order(ma, mb);
          VH_CHECK(e < 0 ? o < 0 : e > 0 ? o > 0 : o == 0, "cmp<=>", show(ma) + " <=> " + show(mb));
        }
        T t(r.flip() ? ma.v : v);
        model mt { true, num(t) };
        relations(a, t, order(ma, mt), "cmp-value", show(ma) + " vs value " + show(mt));
        relations(t, a, order(mt, ma), "value-cmp", "value " + show(mt) + " vs " + show(ma));
        VH_CHECK((a == nullopt) == !ma.has && (nullopt == a) == !ma.has && (a != nullopt) == ma.has, "cmp-null", show(ma));
        VH_CHECK(!(a < nullopt) && (a > nullopt) == ma.has && (a <= nullopt) == !ma.has && a >= nullopt
                     && (nullopt < a) == ma.has && nullopt <= a && !(nullopt > a) && (nullopt >= a) == !ma.has,
                 "cmp-null-order", show(ma));
        auto o = a <=> nullopt;
        VH_CHECK(ma.has ? o > 0 : o == 0, "cmp-null<=>", show(ma));
        if constexpr (tr) {
          bool h = r.flip();
          int w = r.flip() ? ma.v : v;
          optional<src> s = h ? optional<src>(w) : optional<src>();
          int e = order(ma, { h, h ? w : 0 });
          VH_CHECK((a == s) == (e == 0) && (a != s) == (e != 0), "cmp-other", show(ma));
        }
        break;
      }
      case 16: {
        name = "value_or";
        if constexpr (cp) VH_CHECK(num(a.value_or(v)) == (ma.has ? ma.v : v), "value_or", hist);
        c0 = copies();
        VH_CHECK(num(std::move(a).value_or(v)) == (ma.has ? ma.v : v), "value_or&&", hist);
        mv(ma);
        VH_CHECK(copies() == c0, "copied-rvalue:value_or", hist);
        break;
      }
      case 17:
      case 18: {
        name = "monadic";
        bool tf = r.flip(), nul = r.chance(1, 3), boom = r.chance(1, 6);
        const void* addr = ma.has ? static_cast<const void*>(&*std::as_const(a)) : nullptr;
        auto run = [&](auto&& x, int want) {
          int calls = 0, v0 = 0, c = -1;
          const void* at = nullptr;
          auto note = [&](auto&& t) {
            ++calls;
            v0 = num(t);
            at = &t;
            if (boom) throw std::string("boom");
          };
          try {
            if (tf) {
              auto y = std::forward<decltype(x)>(x).transform([&](auto&& t) {
                c = cat<decltype(t)>();
                note(t);
                return std::to_string(num(t));
              });
              VH_CHECK((std::is_same_v<decltype(y), optional<std::string>>), "result-type", "");
              VH_CHECK(y.has_value() == ma.has && (!y || *y == std::to_string(ma.v)), "transform", hist);
            } else {
              auto y = std::forward<decltype(x)>(x).and_then([&](auto&& t) -> optional<std::string> {
                c = cat<decltype(t)>();
                note(t);
                if (nul) return nullopt;
                return std::to_string(num(t));
              });
              VH_CHECK(y.has_value() == (ma.has && !nul) && (!y || *y == std::to_string(ma.v)), "and_then", hist);
            }
            VH_CHECK(!(boom && ma.has), "monadic-throw", "exception swallowed");
          } catch (const std::string&) {
            VH_CHECK(boom && ma.has, "monadic-throw", "unexpected exception");
          }
          VH_CHECK(calls == int(ma.has), "monadic-calls", hist);
          if (calls) VH_CHECK(at == addr && v0 == ma.v && c == want, "monadic-arg", hist);
        };
        switch (r.below(4)) {
        case 0: run(a, 0); break;
        case 1: run(std::as_const(a), 1); break;
        case 2: run(std::move(a), 2); break;
        case 3: run(std::move(std::as_const(a)), 3); break;
        }
        break;
      }
      case 19: {
        name = "or_else";
        int calls = 0;
        auto f = [&]() -> X {
          ++calls;
          return X(std::in_place, v);
        };
        model e = ma.has ? ma : model { true, v };
        if constexpr (cp) {
          auto y = a.or_else(f);
          VH_CHECK(look(y) == e, "or_else", hist);
          VH_CHECK(calls == int(!ma.has), "or_else-calls", hist);
          calls = 0;
        }
        c0 = copies();
        auto y = std::move(a).or_else(f);
        VH_CHECK(look(y) == e, "or_else&&", hist);
        VH_CHECK(calls == int(!ma.has), "or_else-calls", hist);
        mv(ma);
        VH_CHECK(copies() == c0, "copied-rvalue:or_else", hist);
        break;
      }
      }
      if (name.empty()) continue;
      hist += " " + name + "(" + std::to_string(i) + "," + std::to_string(j) + ")" + (threw ? "!" : "");
      vh::count("op:" + name);
      for (std::size_t q = 0; q < 3; ++q) {
        auto m = look(*pool[q]);
        VH_CHECK(m == mod[q], "state:" + name,
                 "object " + std::to_string(q) + " is " + show(m) + ", expected " + show(mod[q]) + " after " + hist);
      }
      drain_faults("after " + hist);
      if (vh::st().violations.size() > 20) break;
    }
    vh::seen(hist);
    vh::sample(hist);
  }
  VH_CHECK(live() == 0, "lifetime:leak", std::string(what) + std::to_string(live()) + " elements never destroyed");
  drain_faults(what);
}

VH_SUITE("values", 60000, 3000000)
{
  switch (idx % 4) {
  case 0: history<obj<0, true>>(r, "nothrow;"); break;
  case 1: history<obj<0, false>>(r, "throwing;"); break;
  case 2: history<int>(r, "int;"); break;
  case 3: history<mobj<0>>(r, "move-only;"); break;
  }
}

// the same operations on std::optional<double/string>: every relation and
// conversion must agree, unordered values included
VH_SUITE("against-std", 30000, 1000000)
{
  auto d = [&]() -> double {
    switch (r.below(5)) {
    case 0: return std::numeric_limits<double>::quiet_NaN();
    case 1: return 0.0;
    case 2: return -0.0;
    case 3: return double(r.range(-2, 2));
    default: return std::numeric_limits<double>::infinity();
    }
  };
  bool ha = r.chance(2, 3), hb = r.chance(2, 3);
  double x = d(), y = d();
  optional<double> a, b;
  std::optional<double> sa, sb;
  if (ha) a = x, sa = x;
  if (hb) b = y, sb = y;
  auto w = (ha ? std::to_string(x) : "null") + " vs " + (hb ? std::to_string(y) : "null");
  vh::seen(w);
  vh::sample(w);
  auto rel = [&](auto&& p, auto&& q, auto&& sp, auto&& sq, const char* key) {
    VH_CHECK((p == q) == (sp == sq), std::string(key) + "==", w);
    VH_CHECK((p != q) == (sp != sq), std::string(key) + "!=", w);
    VH_CHECK((p < q) == (sp < sq), std::string(key) + "<", w);
    VH_CHECK((p <= q) == (sp <= sq), std::string(key) + "<=", w);
    VH_CHECK((p > q) == (sp > sq), std::string(key) + ">", w);
    VH_CHECK((p >= q) == (sp >= sq), std::string(key) + ">=", w);
  };
  rel(a, b, sa, sb, "std:opt-opt");
  rel(a, y, sa, y, "std:opt-val");
  rel(x, b, x, sb, "std:val-opt");
  VH_CHECK((a <=> b) == (sa <=> sb), "std:opt<=>opt", w);
  int yi = int(r.range(-2, 2));
  rel(a, yi, sa, yi, "std:opt-int");
  rel(yi, a, yi, sa, "std:int-opt");
  optional<int> c;
  std::optional<int> sc;
  if (hb) c = yi, sc = yi;
  rel(a, c, sa, sc, "std:opt-optint");
  a = c;
  sa = sc;
  VH_CHECK(a.has_value() == sa.has_value() && (!a || *a == *sa), "std:assign-conv", w);
  a = {};
  VH_CHECK(!a, "std:assign-braces", "assigning {} must disengage");
  // references: deep comparison
  optional<double&> ra, rb;
  if (ha) ra = x;
  if (hb) rb = y;
  if (ha) sa = x;
  else sa.reset();
  rel(ra, rb, sa, sb, "std:ref-ref");
  rel(ra, b, sa, sb, "std:ref-opt");
  rel(ra, y, sa, y, "std:ref-val");
  VH_CHECK((ra <=> rb) == (sa <=> sb), "std:ref<=>ref", w);
  // strings against string literals / views
  auto s1 = r.from("ab", r.below(4)), s2 = r.from("ab", r.below(4));
  optional<std::string> st;
  std::optional<std::string> sst;
  if (ha) st = s1, sst = s1;
  rel(st, s2.c_str(), sst, s2.c_str(), "std:str-cstr");
  rel(s2, st, s2, sst, "std:str-str");
  st = s2.c_str();
  VH_CHECK(st && *st == s2, "std:assign-cstr", s2);
}

VH_SUITE("void", 6000, 200000)
{
  using X = optional<void>;
  X pool[3];
  bool mod[3] = {};
  if (r.flip()) {
    X t(std::in_place);
    pool[0] = t;
    mod[0] = true;
  }
  std::string hist;
  for (int k = 0; k < 25; ++k) {
    auto i = r.below(3), j = r.below(3);
    auto &a = pool[i], &b = pool[j];
    bool ma = mod[i], mb = mod[j];
    auto op = r.below(10);
    hist += char('a' + op);
    switch (op) {
    case 0: a = b; mod[i] = mb; break;
    case 1: a = std::move(b); mod[i] = mb; break;
    case 2: a = nullopt; mod[i] = false; break;
    case 3: a.reset(); mod[i] = false; break;
    case 4: a.emplace(); mod[i] = true; break;
    case 5: r.flip() ? a.swap(b) : swap(a, b); std::swap(mod[i], mod[j]); break;
    case 6: {
      relations(a, b, int(ma) - int(mb), "void:cmp", hist);
      VH_CHECK((a == nullopt) == !ma && (a != nullopt) == ma && (a > nullopt) == ma, "void:cmp-null", hist);
      break;
    }
    case 7: {
      bool t = false;
      try {
        a.value();
      } catch (const ft::bad_optional_access&) {
        t = true;
      }
      VH_CHECK(t == !ma, "void:value()", hist);
      X c(a);
      X d(std::move(c));
      VH_CHECK(d.has_value() == ma, "void:ctor", hist);
      break;
    }
    case 8: {
      int calls = 0;
      auto y = a.transform([&] {
        ++calls;
        return 41 + k;
      });
      VH_CHECK(calls == int(ma) && y.has_value() == ma && (!y || *y == 41 + k), "void:transform",
               hist + " got " + (y ? std::to_string(*y) : "null"));
      auto z = a.transform([&] { ++calls; });
      VH_CHECK(z.has_value() == ma && calls == 2 * int(ma), "void:transform-void", hist);
      auto q = a.transform([&] { return std::string("heap string, long enough to allocate"); });
      VH_CHECK(q.has_value() == ma && (!q || q->size() == 36), "void:transform", hist);
      break;
    }
    case 9: {
      int calls = 0;
      bool f = r.flip();
      auto y = a.and_then([&]() -> optional<int> {
        ++calls;
        if (f) return nullopt;
        return 5;
      });
      VH_CHECK(calls == int(ma) && y.has_value() == (ma && !f) && (!y || *y == 5), "void:and_then", hist);
      calls = 0;
      auto z = a.or_else([&]() -> X {
        ++calls;
        return f ? X() : X(std::in_place);
      });
      VH_CHECK(calls == int(!ma) && z.has_value() == (ma || !f), "void:or_else", hist);
      break;
    }
    }
    for (int q = 0; q < 3; ++q) VH_CHECK(pool[q].has_value() == mod[q] && bool(pool[q]) == mod[q], "void:state", hist);
  }
  vh::seen(hist);
}

template <class T>
void ref_history(vh::rng& r, const char* what)
{
  using V = std::remove_const_t<T>;
  using X = optional<T&>;
  reset_faults();
  {
    std::vector<std::unique_ptr<V>> targets;
    for (int k = 0; k < 4; ++k) targets.emplace_back(new V(100 + k));
    auto which = [&](const void* p) {
      for (int q = 0; q < 4; ++q)
        if (targets[std::size_t(q)].get() == p) return q;
      return -77;
    };
    auto tg = [&](int i) -> V& { return *targets[std::size_t(i)]; };
    X pool[3];
    int mod[3] = { -1, -1, -1 };
    std::string hist = what;
    int next = 1000;
    for (int k = 0; k < 40; ++k) {
      auto i = r.below(3), j = r.below(3);
      auto &a = pool[i], &b = pool[j];
      int ma = mod[i], mb = mod[j];
      int t = int(r.below(4));
      auto op = r.below(14);
      hist += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ")";
      switch (op) {
      case 0: a = static_cast<const X&>(b); mod[i] = mb; break;
      case 1: a = std::move(b); mod[i] = mb; break;
      case 2: a = tg(t); mod[i] = t; break;
      case 3: {
        auto& x = a.emplace(tg(t));
        VH_CHECK(&x == &tg(t), "ref:emplace", hist);
        mod[i] = t;
        break;
      }
      case 4: a = nullopt; mod[i] = -1; break;
      case 5: a.reset(); mod[i] = -1; break;
      case 6:
        a.swap(b);
        std::swap(mod[i], mod[j]);
        break;
      case 7: {
        X c(static_cast<const X&>(a));
        X d(std::move(c));
        X e(tg(t));
        X f;
        X g(nullopt);
        VH_CHECK((ma < 0 ? !d : d && which(&*d) == ma) && which(&*e) == t && !f && !g, "ref:ctor", hist);
        break;
      }
      case 8: {
        bool th = false;
        try {
          VH_CHECK(which(&a.value()) == ma && a.operator->() == &*a, "ref:value()", hist);
        } catch (const ft::bad_optional_access&) {
          th = true;
        }
        VH_CHECK(th == (ma < 0), "ref:value()-throw", hist);
        if constexpr (!std::is_const_v<T>) {
          if (ma >= 0) {
            *a = V(++next);
            VH_CHECK(num(tg(ma)) == next, "ref:write-through", hist);
          }
        }
        break;
      }
      case 9: {
        model x { ma >= 0, ma >= 0 ? num(tg(ma)) : 0 }, y { mb >= 0, mb >= 0 ? num(tg(mb)) : 0 };
        relations(a, b, order(x, y), "ref:cmp", hist);
        V v(r.flip() ? x.v : 103);
        relations(a, v, order(x, { true, num(v) }), "ref:cmp-value", hist);
        VH_CHECK((a == nullopt) == (ma < 0), "ref:cmp-null", hist);
        break;
      }
      case 10: {
        VH_CHECK(num(a.value_or(V(t))) == (ma >= 0 ? num(tg(ma)) : t), "ref:value_or", hist);
        break;
      }
      case 11: {
        int calls = 0;
        const void* at = nullptr;
        auto y = a.transform([&](auto& x) {
          ++calls;
          at = &x;
          return num(x);
        });
        VH_CHECK(calls == int(ma >= 0) && y.has_value() == (ma >= 0) && (!y || (*y == num(tg(ma)) && which(at) == ma)),
                 "ref:transform", hist);
        auto z = a.and_then([&](auto& x) -> X { return X(x); });
        VH_CHECK(ma < 0 ? !z : z && which(&*z) == ma, "ref:and_then", hist);
        auto w = a.or_else([&]() -> X { return X(tg(t)); });
        VH_CHECK(w && which(&*w) == (ma < 0 ? t : ma), "ref:or_else", hist);
        break;
      }
      case 12:
        if constexpr (std::is_const_v<T>) {
          // from optionals of the non-const reference, empty ones included
          using Y = optional<V&>;
          Y y = r.flip() ? Y(tg(t)) : Y();
          if (r.flip()) {
            a = y;
          } else {
            X c(y);
            a = c;
          }
          mod[i] = y ? t : -1;
        }
        break;
      case 13:
        if constexpr (std::is_const_v<T>) {
          const optional<V> y = r.flip() ? optional<V>(std::in_place, 55) : optional<V>();
          X c(y);
          VH_CHECK(c.has_value() == y.has_value() && (!c || &*c == &*y), "ref:from-optional-value", hist);
        }
        break;
      }
      for (int q = 0; q < 3; ++q)
        VH_CHECK(mod[q] < 0 ? !pool[q] : pool[q] && which(&*pool[q]) == mod[q], "ref:state", hist);
      drain_faults(hist);
    }
    vh::seen(hist);
    vh::sample(hist);
  }
  VH_CHECK(live() == 0, "ref:lifetime:leak", what);
  drain_faults(what);
}

VH_SUITE("reference", 12000, 400000)
{
  switch (idx % 3) {
  case 0: ref_history<obj<0, true>>(r, "obj&"); break;
  case 1: ref_history<const obj<0, true>>(r, "const obj&"); break;
  case 2: ref_history<int>(r, "int&"); break;
  }
}

#if defined(FITORIA_HAS_FMT)
// formatting shows the value with its own format, or a marker
VH_SUITE("text", 4000, 100000)
{
  int v = int(r.below(2000000)) - 1000000;
  std::string t;
  for (auto n = r.below(12); n; --n) t += char('a' + r.below(26));
  bool has = r.chance(2, 3);
  optional<int> a;
  optional<std::string> b;
  if (has) {
    a = v;
    b = t;
  }
  auto or_marker = [&](std::string s) { return has ? s : std::string("{nullopt}"); };
  auto what = std::to_string(has) + " " + std::to_string(v) + " " + t;
  VH_CHECK(fmt::format("<{}>", a) == "<" + or_marker(fmt::format("{}", v)) + ">", "text:int", what);
  VH_CHECK(fmt::format("{:+x}|{}", a, 1) == or_marker(fmt::format("{:+x}", v)) + "|1", "text:spec", what);
  VH_CHECK(fmt::format("{:>9}", b) == or_marker(fmt::format("{:>9}", t)), "text:string", what);
  vh::seen(what);
  vh::count(has ? "text-value" : "text-nullopt");
}
#endif

} // namespace

int main(int argc, char** argv)
{
  for (auto* k : { "injected_throws", "op:copy-assign", "op:swap", "op:emplace", "op:monadic", "op:compare" })
    vh::require(k, 20);
  return vh::main(argc, argv);
}
