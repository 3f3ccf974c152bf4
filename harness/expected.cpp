// P09: histories over pools of expected objects, judged step by step against a
// model; contained objects live in a registry that sees every construction,
// destruction and access; injected throws check the guarantees.
#include "tracked.hpp"

#include <fitoria/core/expected.hpp>

#include <optional>

using fitoria::expected;
using fitoria::unexpect;
using fitoria::unexpected;
using namespace trk;

namespace {

struct model {
  bool has = true;
  int v = 0;
};
std::string show(const model& m) { return (m.has ? "value " : "error ") + std::to_string(m.v); }

template <class X>
model look(const X& x)
{
  model m;
  m.has = x.has_value();
  if (static_cast<bool>(x) != m.has) vh::fail("bool-vs-has_value", "operator bool disagrees with has_value");
  if constexpr (std::is_void_v<typename X::value_type>) m.v = m.has ? 0 : num(x.error());
  else m.v = m.has ? num(*x) : num(x.error());
  return m;
}

template <class X, class T, class E>
struct world {
  using U2 = expected<src, src>; // converting source
  static constexpr bool copyable = std::is_copy_constructible_v<T> && std::is_copy_constructible_v<E>;

  vh::rng& r;
  std::vector<std::unique_ptr<X>> pool;
  std::vector<model> mod;
  std::string hist;
  int next = 10;

  explicit world(vh::rng& rr)
      : r(rr)
  {
  }

  int fresh() { return r.chance(1, 3) ? 7 : ++next; } // repeats make equality interesting

  void judge(const std::string& op)
  {
    for (std::size_t i = 0; i < pool.size(); ++i) {
      auto a = look(*pool[i]);
      VH_CHECK(a.has == mod[i].has && a.v == mod[i].v, "state:" + op,
               "object " + std::to_string(i) + " is " + show(a) + ", expected " + show(mod[i]) + " after " + hist);
    }
    drain_faults("after " + hist);
  }

  static void mv(model& m)
  {
    if (m.has ? is_tracked<T> : is_tracked<E>) m.v = moved_value;
  }

  void add(X* p, model m)
  {
    pool.emplace_back(p);
    mod.push_back(m);
  }

  void make(std::size_t how)
  {
    int v = fresh();
    switch (how) {
    case 0:
      if constexpr (std::is_default_constructible_v<T>) {
        add(new X(), { true, 0 });
        hist += " ctor()";
        break;
      }
      [[fallthrough]];
    case 1:
      add(new X(std::in_place, v), { true, v });
      hist += " ctor(in_place," + std::to_string(v) + ")";
      break;
    case 2:
      add(new X(unexpect, v), { false, v });
      hist += " ctor(unexpect," + std::to_string(v) + ")";
      break;
    case 3: {
      T t(v);
      add(new X(std::move(t)), { true, v });
      if constexpr (is_tracked<T>) VH_CHECK(num(t) == moved_value, "not-moved", "value constructor copied an rvalue");
      hist += " ctor(T&&)";
      break;
    }
    case 4: {
      unexpected<E> u(std::in_place, v);
      add(new X(std::move(u)), { false, v });
      if constexpr (is_tracked<E>)
        VH_CHECK(num(u.error()) == moved_value, "not-moved", "unexpected constructor copied an rvalue");
      hist += " ctor(unexpected&&)";
      break;
    }
    case 5:
      if constexpr (std::is_copy_constructible_v<T>) {
        const T t(v);
        add(new X(t), { true, v });
        VH_CHECK(num(t) == v, "source-changed", "value constructor changed its lvalue argument");
        hist += " ctor(T const&)";
      }
      break;
    case 6:
      if constexpr (std::is_copy_constructible_v<E>) {
        const unexpected<E> u(std::in_place, v);
        add(new X(u), { false, v });
        VH_CHECK(num(u.error()) == v, "source-changed", "unexpected constructor changed its argument");
        hist += " ctor(unexpected const&)";
      }
      break;
    case 7:
      if constexpr (std::is_constructible_v<T, std::initializer_list<int>&, int>) {
        add(new X(std::in_place, { 1, 2 }, v), { true, v + 3 });
        hist += " ctor(in_place,il)";
      }
      break;
    case 8:
      if constexpr (std::is_constructible_v<E, std::initializer_list<int>&, int>) {
        add(new X(unexpect, { 1, 2 }, v), { false, v + 3 });
        hist += " ctor(unexpect,il)";
      }
      break;
    case 9:
      if constexpr (std::is_constructible_v<T, const src&> && std::is_constructible_v<E, const src&>) {
        bool has = r.flip();
        const U2 u = has ? U2(std::in_place, v) : U2(unexpect, v);
        add(new X(u), { has, v });
        hist += std::string(" ctor(conv const& ") + (has ? "v" : "e") + ")";
      }
      break;
    case 10:
      if constexpr (std::is_constructible_v<T, src> && std::is_constructible_v<E, src>) {
        bool has = r.flip();
        U2 u = has ? U2(std::in_place, v) : U2(unexpect, v);
        add(new X(std::move(u)), { has, v });
        VH_CHECK(u.has_value() == has, "source-changed", "converting move changed the source's state");
        hist += std::string(" ctor(conv&& ") + (has ? "v" : "e") + ")";
      }
      break;
    }
  }

  void step()
  {
    if (pool.size() < 3) {
      auto n = pool.size();
      for (int k = 0; k < 20 && pool.size() == n; ++k) make(r.below(11));
      judge("ctor");
      return;
    }
    auto i = r.below(pool.size()), j = r.below(pool.size());
    auto& a = *pool[i];
    auto& b = *pool[j];
    auto &ma = mod[i], &mb = mod[j];
    const model sa = ma, sb = mb;
    int v = fresh();
    auto op = r.below(22);
    // some steps run with a fuse that makes the n-th element operation throw
    bool fused = r.chance(1, 4);
    auto c0 = copies();
    std::string name;
    bool threw = false;
    auto with = [&](auto&& f) {
      fuse() = fused ? int(1 + r.below(4)) : 0;
      try {
        f();
      } catch (const injected&) {
        threw = true;
        vh::count("injected_throws");
      }
      fuse() = 0;
    };
    auto ij = "(" + std::to_string(i) + "," + std::to_string(j) + ")";
    switch (op) {
    case 0:
      if constexpr (copyable && std::is_copy_assignable_v<T> && std::is_copy_assignable_v<E>) {
        name = "copy-assign";
        hist += " " + name + ij;
        with([&] { a = static_cast<const X&>(b); });
        if (!threw) ma = sb;
      }
      break;
    case 1:
    case 2:
      name = "move-assign";
      hist += " " + name + ij;
      with([&] { a = std::move(b); });
      if (!threw && i != j) {
        ma = sb;
        mv(mb);
      }
      VH_CHECK(copies() == c0, "copied-rvalue:" + name, "move assignment copied an element; " + hist);
      break;
    case 3:
      if constexpr (std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>) {
        name = "assign-value";
        hist += " " + name + "[" + std::to_string(i) + "]";
        const T t(v);
        with([&] { a = t; });
        VH_CHECK(num(t) == v, "source-changed", "assigning an lvalue changed it");
        if (!threw) ma = { true, v };
      }
      break;
    case 4: {
      name = "assign-rvalue";
      hist += " " + name + "[" + std::to_string(i) + "]";
      T t(v);
      with([&] { a = std::move(t); });
      if (!threw) ma = { true, v };
      VH_CHECK(copies() == c0, "copied-rvalue:" + name, hist);
      break;
    }
    case 5:
      if constexpr (std::is_constructible_v<T, thr> && std::is_assignable_v<T&, thr>) {
        name = "assign-converting";
        hist += " " + name + "[" + std::to_string(i) + "]";
        with([&] { a = thr { v }; });
        if (!threw) ma = { true, v };
      }
      break;
    case 6:
      if constexpr (std::is_copy_constructible_v<E> && std::is_copy_assignable_v<E>) {
        name = "assign-unexpected";
        hist += " " + name + "[" + std::to_string(i) + "]";
        const unexpected<E> u(std::in_place, v);
        with([&] { a = u; });
        VH_CHECK(num(u.error()) == v, "source-changed", "assigning an lvalue unexpected changed it");
        if (!threw) ma = { false, v };
      }
      break;
    case 7: {
      name = "assign-unexpected-rvalue";
      hist += " " + name + "[" + std::to_string(i) + "]";
      unexpected<E> u(std::in_place, v);
      with([&] { a = std::move(u); });
      if (!threw) ma = { false, v };
      VH_CHECK(copies() == c0, "copied-rvalue:" + name, hist);
      break;
    }
    case 8:
      if constexpr (std::is_constructible_v<E, thr> && std::is_assignable_v<E&, thr>) {
        name = "assign-unexpected-converting";
        hist += " " + name + "[" + std::to_string(i) + "]";
        with([&] { a = unexpected<thr>(thr { v }); });
        if (!threw) ma = { false, v };
      }
      break;
    case 9:
      name = "emplace";
      hist += " " + name + "[" + std::to_string(i) + "]";
      {
        auto& ref = a.emplace(v);
        VH_CHECK(&ref == &*a, "emplace-ref", "emplace returned a reference to something else");
      }
      ma = { true, v };
      break;
    case 10:
      if constexpr (std::is_nothrow_constructible_v<T, std::initializer_list<int>&, int>) {
        name = "emplace-il";
        hist += " " + name + "[" + std::to_string(i) + "]";
        a.emplace({ 5, 6 }, v);
        ma = { true, v + 11 };
      }
      break;
    case 11:
    case 12:
      name = "swap";
      hist += " " + name + ij;
      with([&] {
        if (op == 11) a.swap(b);
        else {
          using std::swap;
          swap(a, b);
        }
      });
      if (!threw) {
        if (i != j) std::swap(ma, mb);
      } else if (sa.has == sb.has) {
        // element-wise swap interrupted half-way: only the alternatives are fixed
        VH_CHECK(a.has_value() == sa.has && b.has_value() == sb.has, "swap-throw-state", hist);
        ma = look(a);
        mb = look(b);
      }
      VH_CHECK(copies() == c0, "copied-rvalue:" + name, hist);
      break;
    case 13:
      if constexpr (copyable) {
        name = "copy-ctor";
        hist += " " + name + "[" + std::to_string(j) + "]";
        with([&] {
          X c(static_cast<const X&>(b));
          auto m = look(c);
          VH_CHECK(m.has == sb.has && m.v == sb.v, "copy-ctor", "copy is " + show(m) + " of " + show(sb));
          if (i != j) {
            pool[i] = nullptr;
            pool[i].reset(new X(std::in_place, 1));
            ma = { true, 1 };
          }
        });
        if (threw && i != j && ma.v == sa.v && ma.has == sa.has) { }
      }
      break;
    case 14: {
      name = "move-ctor";
      hist += " " + name + "[" + std::to_string(j) + "]";
      bool done = false;
      with([&] {
        X c(std::move(b));
        done = true;
        fuse() = 0;
        auto m = look(c);
        VH_CHECK(m.has == sb.has && m.v == sb.v, "move-ctor", "moved object is " + show(m) + " from " + show(sb));
      });
      if (done) mv(mb);
      VH_CHECK(copies() == c0, "copied-rvalue:" + name, hist);
      break;
    }
    case 15: name = "access"; access(a, ma); break;
    case 16: name = "compare"; compare(a, ma, b, mb); break;
    case 17: name = "and_then"; monadic_and_then(a, ma); break;
    case 18: name = "or_else"; monadic_or_else(a, ma); break;
    case 19: name = "transform"; monadic_transform(a, ma); break;
    case 20: name = "transform_error"; monadic_transform_error(a, ma); break;
    case 21: name = "or"; value_or(a, ma); break;
    }
    if (name.empty()) return;
    vh::count("op:" + name);
    judge(threw ? name + "(throw)" : name);
  }

  void access(X& a, model& ma)
  {
    hist += " access";
    bool threw = false;
    auto get = [&](auto&& f) {
      try {
        VH_CHECK(num(f()) == ma.v && ma.has, "value()", "wrong value");
      } catch (const fitoria::bad_expected_access<E>& e) {
        threw = true;
        VH_CHECK(!ma.has && num(e.error()) == ma.v, "value()-throw", "exception carries another error");
      }
      VH_CHECK(threw == !ma.has, "value()", "value() throws exactly when there is no value");
      threw = false;
    };
    if constexpr (std::is_copy_constructible_v<E>) {
      get([&]() -> decltype(auto) { return a.value(); });
      get([&]() -> decltype(auto) { return std::as_const(a).value(); });
      if (ma.has) get([&]() -> decltype(auto) { return std::move(std::as_const(a)).value(); });
    }
    if (ma.has) {
      T&& rr = std::move(a).value();
      VH_CHECK(&rr == &*a && a.operator->() == &*a && std::as_const(a).operator->() == &*a, "address",
               "accessors disagree on the address");
      T&& r2 = *std::move(a);
      const T&& r3 = *std::move(std::as_const(a));
      VH_CHECK(&r2 == &r3 && &*std::as_const(a) == &r2, "address", "operator* overloads disagree");
    } else {
      E&& rr = std::move(a).error();
      const E&& r3 = std::move(std::as_const(a)).error();
      VH_CHECK(&rr == &a.error() && &rr == &std::as_const(a).error() && &rr == &r3, "address",
               "error() overloads disagree on the address");
      if (r.chance(1, 3)) {
        try {
          (void)std::move(a).value();
          vh::fail("value()", "value()&& did not throw");
        } catch (const fitoria::bad_expected_access<E>& e) {
          VH_CHECK(num(e.error()) == ma.v, "value()-throw", "exception carries another error");
        }
        mv(ma);
      }
    }
  }

  void compare(X& a, model& ma, X& b, model& mb)
  {
    hist += " compare";
    bool eq = ma.has == mb.has && ma.v == mb.v;
    VH_CHECK((a == b) == eq && (a != b) == !eq && (b == a) == eq, "compare", show(ma) + " vs " + show(mb));
    int v = r.flip() ? ma.v : fresh();
    if constexpr (is_tracked<T> && is_tracked<E>) {
      bool h = r.flip();
      U2 u = h ? U2(std::in_place, v) : U2(unexpect, v);
      bool e2 = ma.has == h && ma.v == v;
      VH_CHECK((a == u) == e2 && (a != u) == !e2, "compare-other", show(ma));
    }
    T t(v);
    VH_CHECK((a == t) == (ma.has && ma.v == v) && (a != t) == !(ma.has && ma.v == v), "compare-value", show(ma));
    VH_CHECK((t == a) == (ma.has && ma.v == v), "compare-value", show(ma));
    unexpected<E> ue(std::in_place, v);
    VH_CHECK((a == ue) == (!ma.has && ma.v == v) && (a != ue) == !(!ma.has && ma.v == v), "compare-unexpected", show(ma));
    VH_CHECK((ue == a) == (!ma.has && ma.v == v), "compare-unexpected", show(ma));
  }

  void value_or(X& a, model& ma)
  {
    hist += " value_or";
    int v = ++next;
    if constexpr (std::is_copy_constructible_v<T>)
      VH_CHECK(num(a.value_or(v)) == (ma.has ? ma.v : v), "value_or", show(ma));
    if constexpr (std::is_copy_constructible_v<E>)
      VH_CHECK(num(a.error_or(v)) == (ma.has ? v : ma.v), "error_or", show(ma));
    auto c0 = copies();
    if (r.flip()) {
      VH_CHECK(num(std::move(a).value_or(v)) == (ma.has ? ma.v : v), "value_or&&", show(ma));
      if (ma.has) mv(ma);
    } else {
      VH_CHECK(num(std::move(a).error_or(v)) == (ma.has ? v : ma.v), "error_or&&", show(ma));
      if (!ma.has) mv(ma);
    }
    VH_CHECK(copies() == c0, "copied-rvalue:value_or", hist);
  }

  // callables record how they were invoked
  template <class Arg>
  static constexpr int cat()
  {
    return (std::is_rvalue_reference_v<Arg> ? 2 : 0) + (std::is_const_v<std::remove_reference_t<Arg>> ? 1 : 0);
  }

  template <class F>
  void for_cats(X& a, model& ma, F&& f, bool consumes_value, bool consumes_error, bool needs_copy)
  {
    auto k = r.below(4);
    auto c0 = copies();
    switch (k) {
    case 0:
      if (needs_copy && !copyable) return;
      if constexpr (copyable) f(a, 0);
      break;
    case 1:
      if constexpr (copyable) f(std::as_const(a), 1);
      break;
    case 2:
      f(std::move(a), 2);
      if (ma.has ? consumes_value : consumes_error) mv(ma);
      VH_CHECK(copies() == c0, "copied-rvalue:monadic", hist);
      break;
    case 3:
      if constexpr (copyable) f(std::move(std::as_const(a)), 3);
      break;
    }
  }

  void monadic_and_then(X& a, model& ma)
  {
    hist += " and_then";
    const model m0 = ma;
    bool fail_it = r.chance(1, 3), boom = r.chance(1, 5);
    const void* addr = m0.has ? static_cast<const void*>(&*std::as_const(a)) : nullptr;
    for_cats(
        a, ma,
        [&](auto&& x, int want) {
          int calls = 0, v0 = 0;
          const void* at = nullptr;
          int c = -1;
          try {
            auto y = std::forward<decltype(x)>(x).and_then([&](auto&& t) -> expected<std::string, E> {
              ++calls;
              v0 = num(t);
              at = &t;
              c = cat<decltype(t)>();
              if (boom) throw std::string("boom");
              if (fail_it) return expected<std::string, E>(unexpect, v0 + 1000);
              return std::to_string(v0);
            });
            if (m0.has) {
              VH_CHECK(!boom, "and_then", "the callable's exception was swallowed");
              if (fail_it) VH_CHECK(!y && num(y.error()) == m0.v + 1000, "and_then", "error of the callable lost");
              else VH_CHECK(y && *y == std::to_string(m0.v), "and_then", "result of the callable lost");
            } else VH_CHECK(!y && num(y.error()) == m0.v, "and_then", "error not propagated from " + show(m0));
          } catch (const std::string&) {
            VH_CHECK(boom && m0.has, "and_then", "unexpected exception");
          }
          VH_CHECK(calls == (m0.has ? 1 : 0), "and_then-calls", "callable ran " + std::to_string(calls) + " times");
          if (calls) VH_CHECK(at == addr && v0 == m0.v && c == want, "and_then-arg", "callable saw another object");
        },
        false, true, true);
  }

  void monadic_or_else(X& a, model& ma)
  {
    hist += " or_else";
    const model m0 = ma;
    bool fix = r.flip();
    const void* addr = m0.has ? nullptr : static_cast<const void*>(&std::as_const(a).error());
    for_cats(
        a, ma,
        [&](auto&& x, int want) {
          int calls = 0, v0 = 0, c = -1;
          const void* at = nullptr;
          auto y = std::forward<decltype(x)>(x).or_else([&](auto&& e) -> expected<T, std::string> {
            ++calls;
            v0 = num(e);
            at = &e;
            c = cat<decltype(e)>();
            if (fix) return expected<T, std::string>(std::in_place, v0 + 2000);
            return expected<T, std::string>(unexpect, std::to_string(v0));
          });
          if (!m0.has) {
            if (fix) VH_CHECK(y && num(*y) == m0.v + 2000, "or_else", "value of the callable lost");
            else VH_CHECK(!y && y.error() == std::to_string(m0.v), "or_else", "error of the callable lost");
          } else VH_CHECK(y && num(*y) == m0.v, "or_else", "value not propagated");
          VH_CHECK(calls == (m0.has ? 0 : 1), "or_else-calls", "callable ran " + std::to_string(calls) + " times");
          if (calls) VH_CHECK(at == addr && v0 == m0.v && c == want, "or_else-arg", "callable saw another object");
        },
        true, false, true);
  }

  void monadic_transform(X& a, model& ma)
  {
    hist += " transform";
    const model m0 = ma;
    const void* addr = m0.has ? static_cast<const void*>(&*std::as_const(a)) : nullptr;
    for_cats(
        a, ma,
        [&](auto&& x, int want) {
          int calls = 0, v0 = 0, c = -1;
          const void* at = nullptr;
          auto y = std::forward<decltype(x)>(x).transform([&](auto&& t) {
            ++calls;
            v0 = num(t);
            at = &t;
            c = cat<decltype(t)>();
            return std::to_string(v0);
          });
          VH_CHECK((std::is_same_v<decltype(y), expected<std::string, E>>), "result-type", "");
          if (m0.has) VH_CHECK(y && *y == std::to_string(m0.v), "transform", "result lost");
          else VH_CHECK(!y && num(y.error()) == m0.v, "transform", "error not propagated");
          VH_CHECK(calls == (m0.has ? 1 : 0), "transform-calls", "callable ran " + std::to_string(calls) + " times");
          if (calls) VH_CHECK(at == addr && v0 == m0.v && c == want, "transform-arg", "callable saw another object");
        },
        false, true, true);
  }

  void monadic_transform_error(X& a, model& ma)
  {
    hist += " transform_error";
    const model m0 = ma;
    const void* addr = m0.has ? nullptr : static_cast<const void*>(&std::as_const(a).error());
    for_cats(
        a, ma,
        [&](auto&& x, int want) {
          int calls = 0, v0 = 0, c = -1;
          const void* at = nullptr;
          auto y = std::forward<decltype(x)>(x).transform_error([&](auto&& e) {
            ++calls;
            v0 = num(e);
            at = &e;
            c = cat<decltype(e)>();
            return std::to_string(v0);
          });
          VH_CHECK((std::is_same_v<decltype(y), expected<T, std::string>>), "result-type", "");
          if (!m0.has) VH_CHECK(!y && y.error() == std::to_string(m0.v), "transform_error", "result lost");
          else VH_CHECK(y && num(*y) == m0.v, "transform_error", "value not propagated");
          VH_CHECK(calls == (m0.has ? 0 : 1), "transform_error-calls", "callable ran " + std::to_string(calls) + " times");
          if (calls) VH_CHECK(at == addr && v0 == m0.v && c == want, "transform_error-arg", "callable saw another object");
        },
        true, false, true);
  }
};

template <class T, class E>
void history(vh::rng& r, const char* what)
{
  reset_faults();
  {
    world<expected<T, E>, T, E> w(r);
    w.hist = what;
    int n = 10 + int(r.below(40));
    for (int k = 0; k < n; ++k) {
      w.step();
      if (vh::st().violations.size() > 20) break;
    }
    vh::seen(w.hist);
    vh::sample(w.hist);
    w.pool.clear();
  }
  VH_CHECK(live() == 0, "lifetime:leak", std::string(what) + ": " + std::to_string(live()) + " elements never destroyed");
  drain_faults(what);
}

VH_SUITE("values", 60000, 3000000)
{
  switch (idx % 8) {
  case 0: history<obj<0, true>, obj<1, true>>(r, "T:nothrow E:nothrow;"); break;
  case 1: history<obj<0, false>, obj<1, true>>(r, "T:throwing E:nothrow;"); break;
  case 2: history<obj<0, true>, obj<1, false>>(r, "T:nothrow E:throwing;"); break;
  case 3: history<int, obj<1, true>>(r, "T:int E:nothrow;"); break;
  case 4: history<obj<0, true>, int>(r, "T:nothrow E:int;"); break;
  case 5: history<int, int>(r, "T:int E:int;"); break;
  case 6: history<mobj<0>, mobj<1>>(r, "T:move-only E:move-only;"); break;
  case 7: history<obj<0, false>, int>(r, "T:throwing E:int;"); break;
  }
}

// ---- expected<void, E> ------------------------------------------------------

template <class E>
void void_history(vh::rng& r, const char* what)
{
  using X = expected<void, E>;
  constexpr bool tr = is_tracked<E>;
  constexpr bool cp = std::is_copy_constructible_v<E>;
  reset_faults();
  {
    std::vector<std::unique_ptr<X>> pool;
    std::vector<model> mod;
    std::string hist = what;
    int next = 10;
    auto mv = [&](model& m) {
      if (!m.has && tr) m.v = moved_value;
    };
    auto add = [&] {
      int v = ++next;
      switch (r.below(7)) {
      case 0: pool.emplace_back(new X()), mod.push_back({ true, 0 }), hist += " ctor()"; break;
      case 1: pool.emplace_back(new X(std::in_place)), mod.push_back({ true, 0 }), hist += " ctor(in_place)"; break;
      case 2: pool.emplace_back(new X(unexpect, v)), mod.push_back({ false, v }), hist += " ctor(unexpect)"; break;
      case 3:
        pool.emplace_back(new X(unexpected<E>(std::in_place, v))), mod.push_back({ false, v }), hist += " ctor(unexpected)";
        break;
      case 4:
        if constexpr (cp) {
          const unexpected<E> u(std::in_place, v);
          pool.emplace_back(new X(u)), mod.push_back({ false, v }), hist += " ctor(unexpected const&)";
        }
        break;
      case 5:
        if constexpr (std::is_constructible_v<E, std::initializer_list<int>&, int>)
          pool.emplace_back(new X(unexpect, { 1, 2 }, v)), mod.push_back({ false, v + 3 }), hist += " ctor(unexpect,il)";
        break;
      case 6:
        if constexpr (std::is_constructible_v<E, src>) {
          bool h = r.flip();
          using U = expected<void, src>;
          U u = h ? U() : U(unexpect, v);
          if (r.flip()) pool.emplace_back(new X(std::as_const(u)));
          else pool.emplace_back(new X(std::move(u)));
          mod.push_back({ h, h ? 0 : v });
          hist += " ctor(conv)";
        }
        break;
      }
    };
    int n = 10 + int(r.below(30));
    for (int k = 0; k < n; ++k) {
      while (pool.size() < 3) add();
      auto i = r.below(3), j = r.below(3);
      auto &a = *pool[i], &b = *pool[j];
      auto &ma = mod[i], &mb = mod[j];
      const model sa = ma, sb = mb;
      int v = r.chance(1, 3) ? 7 : ++next;
      bool fused = r.chance(1, 4), threw = false;
      auto c0 = copies();
      auto with = [&](auto&& f) {
        fuse() = fused ? int(1 + r.below(3)) : 0;
        try {
          f();
        } catch (const injected&) {
          threw = true;
          vh::count("injected_throws");
        }
        fuse() = 0;
      };
      std::string name;
      switch (r.below(13)) {
      case 0:
        if constexpr (cp) {
          name = "copy-assign";
          with([&] { a = static_cast<const X&>(b); });
          if (!threw) ma = sb;
        }
        break;
      case 1:
        name = "move-assign";
        with([&] { a = std::move(b); });
        if (!threw && i != j) {
          ma = sb;
          mv(mb);
        }
        VH_CHECK(copies() == c0, "void:copied-rvalue", hist);
        break;
      case 2:
        if constexpr (cp) {
          name = "assign-unexpected";
          const unexpected<E> u(std::in_place, v);
          with([&] { a = u; });
          if (!threw) ma = { false, v };
        }
        break;
      case 3: {
        name = "assign-unexpected-rvalue";
        unexpected<E> u(std::in_place, v);
        with([&] { a = std::move(u); });
        if (!threw) ma = { false, v };
        VH_CHECK(copies() == c0, "void:copied-rvalue", hist);
        break;
      }
      case 4:
        name = "emplace";
        a.emplace();
        ma = { true, 0 };
        break;
      case 5:
        name = "swap";
        with([&] {
          if (r.flip()) a.swap(b);
          else swap(a, b);
        });
        if (!threw) {
          if (i != j) std::swap(ma, mb);
        } else if (sa.has == sb.has) {
          ma = look(a);
          mb = look(b);
        }
        break;
      case 6:
        if constexpr (cp) {
          name = "copy-ctor";
          with([&] {
            X c(static_cast<const X&>(b));
            auto m = look(c);
            VH_CHECK(m.has == sb.has && m.v == sb.v, "void:copy-ctor", show(m));
          });
        }
        break;
      case 7: {
        name = "move-ctor";
        bool done = false;
        with([&] {
          X c(std::move(b));
          done = true;
          auto m = look(c);
          VH_CHECK(m.has == sb.has && m.v == sb.v, "void:move-ctor", show(m));
        });
        if (done) mv(mb);
        break;
      }
      case 8: {
        name = "access";
        bool t = false;
        if constexpr (cp) {
          try {
            a.value();
            *a;
          } catch (const fitoria::bad_expected_access<E>& e) {
            t = true;
            VH_CHECK(num(e.error()) == ma.v, "void:value()-throw", "another error");
          }
          VH_CHECK(t == !ma.has, "void:value()", "throws exactly without a value");
        }
        t = false;
        try {
          std::move(a).value();
        } catch (const fitoria::bad_expected_access<E>& e) {
          t = true;
          VH_CHECK(num(e.error()) == ma.v, "void:value()&&-throw", "another error");
        }
        VH_CHECK(t == !sa.has, "void:value()&&", "throws exactly without a value");
        if (t) mv(ma);
        break;
      }
      case 9: {
        name = "compare";
        bool eq = ma.has == mb.has && (ma.has || ma.v == mb.v);
        VH_CHECK((a == b) == eq && (a != b) == !eq, "void:compare", show(ma) + " vs " + show(mb));
        int w = r.flip() ? ma.v : v;
        unexpected<E> ue(std::in_place, w);
        VH_CHECK((a == ue) == (!ma.has && ma.v == w) && (ue == a) == (!ma.has && ma.v == w), "void:compare-unexpected",
                 show(ma));
        break;
      }
      case 10: {
        name = "error_or";
        if constexpr (cp) VH_CHECK(num(a.error_or(v)) == (ma.has ? v : ma.v), "void:error_or", show(ma));
        VH_CHECK(num(std::move(a).error_or(v)) == (ma.has ? v : ma.v), "void:error_or&&", show(ma));
        mv(ma);
        break;
      }
      default: {
        name = "monadic";
        auto run = [&](auto&& x) {
          using XX = decltype(x);
          int calls = 0;
          switch (r.below(4)) {
          case 0: {
            bool f = r.flip();
            auto y = static_cast<XX>(x).and_then([&]() -> expected<std::string, E> {
              ++calls;
              if (f) return expected<std::string, E>(unexpect, 99);
              return std::string("ok");
            });
            VH_CHECK(calls == int(ma.has), "void:and_then-calls", hist);
            if (ma.has) VH_CHECK(f ? !y && num(y.error()) == 99 : y && *y == "ok", "void:and_then", hist);
            else VH_CHECK(!y && num(y.error()) == ma.v, "void:and_then", hist);
            return true;
          }
          case 1: {
            bool f = r.flip();
            int got = -5;
            auto y = static_cast<XX>(x).or_else([&](auto&& e) -> expected<void, std::string> {
              ++calls;
              got = num(e);
              if (f) return expected<void, std::string>();
              return unexpected<std::string>("bad");
            });
            VH_CHECK(calls == int(!ma.has), "void:or_else-calls", hist);
            if (ma.has) VH_CHECK(y.has_value(), "void:or_else", hist);
            else VH_CHECK(got == ma.v && (f ? y.has_value() : !y && y.error() == "bad"), "void:or_else", hist);
            return false;
          }
          case 2: {
            auto y = static_cast<XX>(x).transform([&] {
              ++calls;
              return std::string("t");
            });
            VH_CHECK(calls == int(ma.has), "void:transform-calls", hist);
            if (ma.has) VH_CHECK(y && *y == "t", "void:transform", hist);
            else VH_CHECK(!y && num(y.error()) == ma.v, "void:transform", hist);
            return true;
          }
          default: {
            auto y = static_cast<XX>(x).transform_error([&](auto&& e) {
              ++calls;
              return std::to_string(num(e));
            });
            VH_CHECK(calls == int(!ma.has), "void:transform_error-calls", hist);
            if (ma.has) VH_CHECK(y.has_value(), "void:transform_error", hist);
            else VH_CHECK(!y && y.error() == std::to_string(ma.v), "void:transform_error", hist);
            return false;
          }
          }
        };
        switch (r.below(4)) {
        case 0:
          if constexpr (cp) run(a);
          break;
        case 1:
          if constexpr (cp) run(std::as_const(a));
          break;
        case 2:
          if (run(std::move(a))) mv(ma);
          break;
        case 3:
          if constexpr (cp) run(std::move(std::as_const(a)));
          break;
        }
      }
      }
      if (name.empty()) continue;
      hist += " " + name + "(" + std::to_string(i) + "," + std::to_string(j) + ")" + (threw ? "!" : "");
      vh::count("void-op:" + name);
      for (std::size_t q = 0; q < 3; ++q) {
        auto m = look(*pool[q]);
        VH_CHECK(m.has == mod[q].has && m.v == mod[q].v, "void:state:" + name,
                 "object " + std::to_string(q) + " is " + show(m) + ", expected " + show(mod[q]) + " after " + hist);
      }
      drain_faults(hist);
    }
    vh::seen(hist);
    vh::sample(hist);
  }
  VH_CHECK(live() == 0, "void:lifetime:leak", std::string(what) + std::to_string(live()) + " errors never destroyed");
  drain_faults(what);
}

VH_SUITE("void", 30000, 1500000)
{
  switch (idx % 4) {
  case 0: void_history<obj<1, true>>(r, "E:nothrow;"); break;
  case 1: void_history<obj<1, false>>(r, "E:throwing;"); break;
  case 2: void_history<int>(r, "E:int;"); break;
  case 3: void_history<mobj<1>>(r, "E:move-only;"); break;
  }
}

// ---- expected<T&, E> --------------------------------------------------------

template <class T, class E>
void ref_history(vh::rng& r, const char* what)
{
  using V = std::remove_const_t<T>;
  using X = expected<T&, E>;
  constexpr bool tr = is_tracked<E>;
  reset_faults();
  {
    std::vector<std::unique_ptr<V>> targets;
    for (int k = 0; k < 4; ++k) targets.emplace_back(new V(100 + k));
    // model: v = target index when has
    std::vector<std::unique_ptr<X>> pool;
    std::vector<model> mod;
    std::string hist = what;
    int next = 1000;
    auto mv = [&](model& m) {
      if (!m.has && tr) m.v = moved_value;
    };
    auto which = [&](const void* p) {
      for (int q = 0; q < 4; ++q)
        if (targets[std::size_t(q)].get() == p) return q;
      return -77;
    };
    auto lookr = [&](const X& x) {
      model m;
      m.has = x.has_value();
      m.v = m.has ? which(&*x) : num(x.error());
      return m;
    };
    int n = 10 + int(r.below(30));
    for (int k = 0; k < n; ++k) {
      while (pool.size() < 3) {
        int v = ++next, t = int(r.below(4));
        switch (r.below(6)) {
        case 0: pool.emplace_back(new X(*targets[std::size_t(t)])), mod.push_back({ true, t }), hist += " ctor(T&)"; break;
        case 1:
          pool.emplace_back(new X(std::in_place, *targets[std::size_t(t)])), mod.push_back({ true, t }),
              hist += " ctor(in_place,T&)";
          break;
        case 2:
          if constexpr (std::is_constructible_v<E, std::initializer_list<int>&, int>)
            if (r.flip()) {
              pool.emplace_back(new X(unexpect, { 1, 2 }, v)), mod.push_back({ false, v + 3 }), hist += " ctor(unexpect,il)";
              break;
            }
          pool.emplace_back(new X(unexpect, v)), mod.push_back({ false, v }), hist += " ctor(unexpect)";
          break;
        case 3:
          pool.emplace_back(new X(unexpected<E>(std::in_place, v))), mod.push_back({ false, v }),
              hist += " ctor(unexpected)";
          break;
        case 4: {
          const unexpected<E> u(std::in_place, v);
          pool.emplace_back(new X(u)), mod.push_back({ false, v }), hist += " ctor(unexpected const&)";
          break;
        }
        case 5:
          if constexpr (std::is_const_v<T>) {
            using Y = expected<V&, E>;
            bool h = r.flip();
            Y y = h ? Y(*targets[std::size_t(t)]) : Y(unexpect, v);
            if constexpr (std::is_constructible_v<X, Y&>) {
              pool.emplace_back(new X(y));
              mod.push_back({ h, h ? t : v });
              hist += " ctor(conv&)";
            }
          }
          break;
        }
      }
      auto i = r.below(3), j = r.below(3);
      auto &a = *pool[i], &b = *pool[j];
      auto &ma = mod[i], &mb = mod[j];
      const model sa = ma, sb = mb;
      int v = r.chance(1, 3) ? 7 : ++next;
      auto t = r.below(4);
      bool fused = r.chance(1, 5), threw = false;
      auto with = [&](auto&& f) {
        fuse() = fused ? int(1 + r.below(3)) : 0;
        try {
          f();
        } catch (const injected&) {
          threw = true;
          vh::count("injected_throws");
        }
        fuse() = 0;
      };
      std::string name;
      switch (r.below(13)) {
      case 0:
        name = "copy-assign";
        with([&] { a = static_cast<const X&>(b); });
        if (!threw) ma = sb;
        break;
      case 1:
        name = "move-assign";
        with([&] { a = std::move(b); });
        if (!threw && i != j) {
          ma = sb;
          mv(mb);
        }
        break;
      case 2:
        name = "rebind";
        a = *targets[t];
        ma = { true, int(t) };
        break;
      case 3: {
        name = "emplace";
        auto& ref = a.emplace(*targets[t]);
        VH_CHECK(&ref == targets[t].get(), "ref:emplace", "emplace returned another object");
        ma = { true, int(t) };
        break;
      }
      case 4: {
        name = "assign-unexpected";
        const unexpected<E> u(std::in_place, v);
        with([&] { a = u; });
        if (!threw) ma = { false, v };
        break;
      }
      case 5: {
        name = "assign-unexpected-rvalue";
        unexpected<E> u(std::in_place, v);
        with([&] { a = std::move(u); });
        if (!threw) ma = { false, v };
        break;
      }
      case 6:
        name = "swap";
        with([&] {
          if constexpr (!std::is_const_v<T>) {
            if (r.flip()) {
              swap(a, b);
              return;
            }
          }
          a.swap(b);
        });
        if (!threw) {
          if (i != j) std::swap(ma, mb);
        } else if (!sa.has && !sb.has) {
          ma = lookr(a);
          mb = lookr(b);
        }
        break;
      case 7: {
        name = "copy-ctor";
        with([&] {
          X c(static_cast<const X&>(b));
          auto m = lookr(c);
          VH_CHECK(m.has == sb.has && m.v == sb.v, "ref:copy-ctor", show(m));
        });
        break;
      }
      case 8: {
        name = "move-ctor";
        bool done = false;
        with([&] {
          X c(std::move(b));
          done = true;
          auto m = lookr(c);
          VH_CHECK(m.has == sb.has && m.v == sb.v, "ref:move-ctor", show(m));
        });
        if (done) mv(mb);
        break;
      }
      case 9: {
        name = "access";
        try {
          auto& x = a.value();
          VH_CHECK(ma.has && which(&x) == ma.v && a.operator->() == &x, "ref:value()", "another object");
        } catch (const fitoria::bad_expected_access<E>& e) {
          VH_CHECK(!ma.has && num(e.error()) == ma.v, "ref:value()-throw", "another error");
        }
        if constexpr (!std::is_const_v<T>) {
          if (ma.has) { // writing through reaches the original
            int nv = ++next;
            *a = V(nv);
            VH_CHECK(num(*targets[std::size_t(ma.v)]) == nv, "ref:write-through", "original not written");
          }
        }
        VH_CHECK(num(a.error_or(v)) == (ma.has ? v : ma.v), "ref:error_or", show(ma));
        break;
      }
      case 10: {
        name = "compare";
        auto val = [&](const model& m) { return m.has ? num(*targets[std::size_t(m.v)]) : m.v; };
        bool eq = ma.has == mb.has && val(ma) == val(mb);
        VH_CHECK((a == b) == eq && (a != b) == !eq, "ref:compare", show(ma) + " vs " + show(mb));
        V tv(r.flip() ? val(ma) : v);
        VH_CHECK((a == tv) == (ma.has && val(ma) == num(tv)), "ref:compare-value", show(ma));
        unexpected<E> ue(std::in_place, r.flip() ? val(ma) : v);
        VH_CHECK((a == ue) == (!ma.has && ma.v == num(ue.error())), "ref:compare-unexpected", show(ma));
        break;
      }
      default: {
        name = "monadic";
        auto run = [&](auto&& x) {
          using XX = decltype(x);
          int calls = 0;
          const void* at = nullptr;
          switch (r.below(4)) {
          case 0: {
            auto y = static_cast<XX>(x).and_then([&](auto& t) -> expected<T&, E> {
              ++calls;
              at = &t;
              return expected<T&, E>(t);
            });
            VH_CHECK(calls == int(ma.has), "ref:and_then-calls", hist);
            if (ma.has) VH_CHECK(which(at) == ma.v && y && which(&*y) == ma.v, "ref:and_then", hist);
            else VH_CHECK(!y && num(y.error()) == ma.v, "ref:and_then", hist);
            return true;
          }
          case 1: {
            bool f = r.flip();
            int got = -5;
            auto y = static_cast<XX>(x).or_else([&](auto&& e) -> expected<T&, std::string> {
              ++calls;
              got = num(e);
              if (f) return expected<T&, std::string>(*targets[0]);
              return unexpected<std::string>("bad");
            });
            VH_CHECK(calls == int(!ma.has), "ref:or_else-calls", hist);
            if (ma.has) VH_CHECK(y && which(&*y) == ma.v, "ref:or_else", hist);
            else VH_CHECK(got == ma.v && (f ? y && which(&*y) == 0 : !y && y.error() == "bad"), "ref:or_else", hist);
            return false;
          }
          case 2: {
            auto y = static_cast<XX>(x).transform([&](auto& t) {
              ++calls;
              at = &t;
              return std::to_string(num(t));
            });
            VH_CHECK(calls == int(ma.has), "ref:transform-calls", hist);
            if (ma.has)
              VH_CHECK(which(at) == ma.v && y && *y == std::to_string(num(*targets[std::size_t(ma.v)])), "ref:transform", hist);
            else VH_CHECK(!y && num(y.error()) == ma.v, "ref:transform", hist);
            return true;
          }
          default: {
            auto y = static_cast<XX>(x).transform_error([&](auto&& e) {
              ++calls;
              return std::to_string(num(e));
            });
            VH_CHECK(calls == int(!ma.has), "ref:transform_error-calls", hist);
            if (ma.has) VH_CHECK(y && num(*y) == num(*targets[std::size_t(ma.v)]), "ref:transform_error", hist);
            else VH_CHECK(!y && y.error() == std::to_string(ma.v), "ref:transform_error", hist);
            return false;
          }
          }
        };
        switch (r.below(4)) {
        case 0: run(a); break;
        case 1: run(std::as_const(a)); break;
        case 2:
          if (run(std::move(a))) mv(ma);
          break;
        case 3: run(std::move(std::as_const(a))); break;
        }
      }
      }
      hist += " " + name + "(" + std::to_string(i) + "," + std::to_string(j) + ")" + (threw ? "!" : "");
      vh::count("ref-op:" + name);
      for (std::size_t q = 0; q < 3; ++q) {
        auto m = lookr(*pool[q]);
        VH_CHECK(m.has == mod[q].has && m.v == mod[q].v, "ref:state:" + name,
                 "object " + std::to_string(q) + " is " + show(m) + ", expected " + show(mod[q]) + " after " + hist);
      }
      drain_faults(hist);
    }
    vh::seen(hist);
    vh::sample(hist);
  }
  VH_CHECK(live() == 0, "ref:lifetime:leak", std::string(what) + std::to_string(live()) + " elements never destroyed");
  drain_faults(what);
}

VH_SUITE("reference", 30000, 1500000)
{
  switch (idx % 4) {
  case 0: ref_history<obj<0, true>, obj<1, true>>(r, "T:obj& E:nothrow;"); break;
  case 1: ref_history<const obj<0, true>, obj<1, false>>(r, "T:const obj& E:throwing;"); break;
  case 2: ref_history<int, int>(r, "T:int& E:int;"); break;
  case 3: ref_history<int, obj<1, true>>(r, "T:int& E:obj;"); break;
  }
}

// an E with its own heap storage: any read of a dead or never-built error is
// caught by ASan
VH_SUITE("heap-elements", 4000, 100000)
{
  using X = expected<std::string, std::vector<std::string>>;
  std::vector<X> pool;
  std::vector<std::pair<bool, std::string>> mod;
  auto mk = [&] { return r.from("abcdefgh", 20 + r.below(30)); };
  for (int k = 0; k < 3; ++k) {
    auto s = mk();
    pool.emplace_back(std::in_place, s);
    mod.push_back({ true, s });
  }
  std::string hist;
  for (int k = 0; k < 25; ++k) {
    auto i = r.below(3), j = r.below(3);
    auto s = mk();
    auto op = r.below(7);
    hist += char('a' + op);
    switch (op) {
    case 0: pool[i] = pool[j]; mod[i] = mod[j]; break;
    case 1: {
      auto m = mod[j];
      X tmp = std::move(pool[j]);
      pool[j] = s;
      mod[j] = { true, s };
      pool[i] = std::move(tmp);
      mod[i] = m;
      break;
    }
    case 2: pool[i] = s; mod[i] = { true, s }; break;
    case 3: pool[i] = unexpected(std::vector { s }); mod[i] = { false, s }; break;
    case 4: pool[i].swap(pool[j]); std::swap(mod[i], mod[j]); break;
    case 5: {
      auto y = pool[i].transform([](const std::string& x) { return x + "!"; });
      VH_CHECK(mod[i].first ? y.value() == mod[i].second + "!" : y.error()[0] == mod[i].second, "heap:transform", hist);
      break;
    }
    case 6: {
      expected<void, std::string> v;
      v = unexpected(s);
      expected<int&, std::string> rf = unexpected(s);
      int q = 0;
      expected<int&, std::string> r2(q);
      r2 = unexpected<std::string>(s);
      VH_CHECK(v.error() == s && rf.error() == s && r2.error() == s, "heap:unexpected", hist);
      break;
    }
    }
    for (std::size_t q = 0; q < 3; ++q) {
      bool ok = pool[q].has_value() == mod[q].first
          && (mod[q].first ? *pool[q] == mod[q].second
                           : pool[q].error().size() == 1 && pool[q].error()[0] == mod[q].second);
      VH_CHECK(ok, "heap:state", hist);
    }
  }
  vh::seen(hist);
}

// unexpected by itself
template <class E>
void unexpected_history(vh::rng& r)
{
  using U = unexpected<E>;
  std::string hist;
  {
    auto next = [&] { return 1 + int(r.below(5)); };
    int v[2] = { next(), next() };
    U a(std::in_place, v[0]);
    U b = r.flip() ? U(std::in_place, v[1]) : U(E(v[1]));
    if constexpr (std::is_constructible_v<E, std::initializer_list<int>&, int>)
      if (r.flip()) {
        U c(std::in_place, { 10, 20 }, v[1]);
        VH_CHECK(num(c.error()) == v[1] + 30, "unexpected:list", hist);
      }
    U* p[2] = { &a, &b };
    for (auto n = 4 + r.below(16); n--;) {
      auto i = r.below(2), j = r.below(2);
      auto c0 = copies();
      switch (r.below(7)) {
      case 0:
        hist += " swap";
        swap(*p[i], *p[j]);
        if (i != j) std::swap(v[0], v[1]);
        VH_CHECK(copies() == c0, "unexpected:copied", hist);
        break;
      case 1:
        hist += " member-swap";
        p[i]->swap(*p[j]);
        if (i != j) std::swap(v[0], v[1]);
        break;
      case 2:
        if constexpr (std::is_copy_constructible_v<E>) {
          hist += " copy";
          U c(static_cast<const U&>(*p[i]));
          VH_CHECK(c == *p[i] && num(c.error()) == v[i], "unexpected:copy", hist);
        }
        break;
      case 3: {
        hist += " move";
        E t(std::move(*p[i]).error());
        VH_CHECK(num(t) == v[i] && copies() == c0, "unexpected:move-error", hist);
        p[i]->error() = E(v[i]);
        break;
      }
      case 4: {
        hist += " move-ctor";
        U t(std::move(*p[i]));
        VH_CHECK(num(t.error()) == v[i] && copies() == c0, "unexpected:move", hist);
        v[i] = next();
        p[i]->error() = E(v[i]);
        break;
      }
      case 5: {
        hist += " const-rvalue";
        const U& k = *p[i];
        VH_CHECK(&std::as_const(k).error() == &p[i]->error(), "unexpected:const", hist);
        const E&& m = std::move(k).error();
        VH_CHECK(&m == &p[i]->error(), "unexpected:const-rvalue", hist);
        break;
      }
      default:
        VH_CHECK((*p[i] == *p[j]) == (v[i] == v[j]) && (*p[i] != *p[j]) == (v[i] != v[j]), "unexpected:compare", hist);
      }
      VH_CHECK(num(a.error()) == v[0] && num(b.error()) == v[1], "unexpected:state", hist);
      drain_faults("after " + hist);
    }
  }
  VH_CHECK(live() == 0, "unexpected:leak", hist);
  vh::seen(hist);
  vh::count("unexpected");
}
VH_SUITE("unexpected", 6000, 200000)
{
  reset_faults();
  switch (idx % 3) {
  case 0: unexpected_history<obj<3, true>>(r); break;
  case 1: unexpected_history<obj<4, false>>(r); break;
  default: unexpected_history<int>(r);
  }
}

#if defined(FITORIA_HAS_FMT)
// formatting shows the value with its own format, or a marker
VH_SUITE("text", 4000, 100000)
{
  int v = int(r.below(2000000)) - 1000000;
  std::string t;
  for (auto n = r.below(12); n; --n) t += char('a' + r.below(26));
  int e = int(r.below(100));
  bool has = r.chance(2, 3);
  expected<int, int> a = has ? expected<int, int>(v) : expected<int, int>(unexpect, e);
  expected<std::string, int> b = has ? expected<std::string, int>(t) : expected<std::string, int>(unexpect, e);
  expected<int, std::string> c = has ? expected<int, std::string>(v) : expected<int, std::string>(unexpect, t);
  auto or_marker = [&](std::string s) { return has ? s : std::string("{unexpected}"); };
  auto what = std::to_string(has) + " " + std::to_string(v) + " " + t;
  VH_CHECK(fmt::format("<{}>", a) == "<" + or_marker(fmt::format("{}", v)) + ">", "text:int", what);
  VH_CHECK(fmt::format("{:+x}|{}", a, 1) == or_marker(fmt::format("{:+x}", v)) + "|1", "text:spec", what);
  VH_CHECK(fmt::format("{:>9}", b) == or_marker(fmt::format("{:>9}", t)), "text:string", what);
  VH_CHECK(fmt::format("{0}{0}", c) == or_marker(fmt::format("{}", v)) + or_marker(fmt::format("{}", v)), "text:string-error", what);
  vh::seen(what);
  vh::count(has ? "text-value" : "text-error");
}
#endif

} // namespace

int main(int argc, char** argv)
{
  for (auto* k : { "injected_throws", "op:copy-assign", "op:swap", "op:and_then", "void-op:swap", "ref-op:assign-unexpected" })
    vh::require(k, 20);
  return vh::main(argc, argv);
}
