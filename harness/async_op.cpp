// P34: as_expected - what an asynchronous operation reports reaches its handler
// once, as a value or as an error, and the handler's associations are kept.
#include "aio.hpp"
#include "vh.hpp"

#include <fitoria/core/net.hpp>

#include <boost/asio.hpp>
#include <thread>

namespace net = boost::asio;
using boost::system::error_code;
using fitoria::as_expected;
using fitoria::expected;

namespace {

// every kind of error an operation may report
struct odd_category : boost::system::error_category {
  const char* name() const noexcept override { return "odd"; }
  std::string message(int) const override { return "odd"; }
};
const odd_category k_odd;
// zero is a failure here and one is not
struct upside_down : boost::system::error_category {
  const char* name() const noexcept override { return "upside-down"; }
  std::string message(int) const override { return "upside-down"; }
  bool failed(int v) const noexcept override { return v != 1; }
};
const upside_down k_upside;

error_code make_error(vh::rng& r)
{
  switch (r.below(7)) {
  case 0: return {};
  case 1: return {};
  case 2: return net::error::make_error_code(net::error::eof);
  case 3: return net::error::operation_aborted;
  case 4: return error_code(int(r.u64()), boost::system::generic_category());
  case 5: return error_code(int(r.below(3)), k_odd);
  default: return error_code(int(r.below(3)), k_upside);
  }
}
std::string show(const error_code& ec) { return std::string(ec.category().name()) + ":" + std::to_string(ec.value()); }

// counts copies; moving leaves a mark
struct probe {
  std::string text;
  int copies = 0;
  bool gone = false;
  static inline std::atomic<long> live { 0 };
  probe() { ++live; }
  explicit probe(std::string t)
      : text(std::move(t))
  {
    ++live;
  }
  probe(const probe& o)
      : text(o.text)
      , copies(o.copies + 1)
      , gone(o.gone)
  {
    ++live;
  }
  probe(probe&& o) noexcept
      : text(std::move(o.text))
      , copies(o.copies)
      , gone(o.gone)
  {
    o.gone = true;
    ++live;
  }
  probe& operator=(const probe&) = default;
  probe& operator=(probe&&) = default;
  ~probe() { --live; }
};

std::string text_of(const probe& p) { return p.gone ? "<moved>" : p.text; }
std::string text_of(const std::string& p) { return p; }
std::string text_of(const std::unique_ptr<std::string>& p) { return p ? *p : "<null>"; }
std::string text_of(const std::size_t& n) { return std::to_string(n); }

template <class T>
T make(const std::string& s)
{
  if constexpr (std::is_same_v<T, probe>) return probe(s);
  else if constexpr (std::is_same_v<T, std::unique_ptr<std::string>>) return std::make_unique<std::string>(s);
  else if constexpr (std::is_same_v<T, std::size_t>) return std::size_t(std::strtoull(s.c_str(), nullptr, 10));
  else return s;
}

// how the operation completes
enum how_t { at_once, posted, other_thread };

struct world {
  net::io_context ioc;
  net::thread_pool other { 1 };
};

// an operation reporting (ec, T), the way third-party operations do
template <class T, class Token>
auto async_value(world& w, how_t how, error_code ec, std::string s, Token&& token)
{
  return net::async_initiate<Token, void(error_code, T)>(
      [&w](auto&& handler, how_t h, error_code e, std::string t) {
        auto ex = net::get_associated_executor(handler, w.ioc.get_executor());
        auto work = net::make_work_guard(w.ioc);
        auto fire = [hd = std::move(handler), e, t, ex, work = std::move(work)]() mutable {
          net::dispatch(ex, [hd = std::move(hd), e, t]() mutable { std::move(hd)(e, make<T>(t)); });
        };
        if (h == posted) net::post(w.ioc, std::move(fire));
        else if (h == other_thread) net::post(w.other, std::move(fire));
        else fire();
      },
      token, how, ec, std::move(s));
}
template <class Token>
auto async_void(world& w, how_t how, error_code ec, Token&& token)
{
  return net::async_initiate<Token, void(error_code)>(
      [&w](auto&& handler, how_t h, error_code e) {
        auto ex = net::get_associated_executor(handler, w.ioc.get_executor());
        auto work = net::make_work_guard(w.ioc);
        auto fire = [hd = std::move(handler), e, ex, work = std::move(work)]() mutable {
          net::dispatch(ex, [hd = std::move(hd), e]() mutable { std::move(hd)(e); });
        };
        if (h == posted) net::post(w.ioc, std::move(fire));
        else if (h == other_thread) net::post(w.other, std::move(fire));
        else fire();
      },
      token, how, ec);
}

template <class T>
void judge(const std::string& key, const expected<T, error_code>& x, const error_code& ec, const std::string& s, const std::string& what)
{
  if (ec) {
    VH_CHECK(!x && x.error() == ec && &x.error().category() == &ec.category(), key + ":error", what + " " + show(ec) + " became " + (x ? "a value" : show(x.error())));
    vh::count("errors delivered");
  } else {
    VH_CHECK(bool(x), key + ":value", what + " " + show(ec) + " became " + (x ? "" : show(x.error())));
    if constexpr (!std::is_void_v<T>) {
      if (x) VH_CHECK(text_of(*x) == s, key + ":value", what + " " + vh::esc(text_of(*x)) + " for " + vh::esc(s));
      if constexpr (std::is_same_v<T, probe>)
        if (x) VH_CHECK(x->copies == 0, key + ":copied", what + " " + std::to_string(x->copies));
    }
    vh::count("values delivered");
  }
}

template <class T>
struct op {
  template <class Token>
  static auto start(world& w, how_t how, const error_code& ec, const std::string& s, Token&& t)
  {
    return async_value<T>(w, how, ec, s, std::forward<Token>(t));
  }
};
template <>
struct op<void> {
  template <class Token>
  static auto start(world& w, how_t how, const error_code& ec, const std::string&, Token&& t)
  {
    return async_void(w, how, ec, std::forward<Token>(t));
  }
};

template <class T>
void tokens(vh::rng& r, const std::string& type)
{
  using result = expected<T, error_code>;
  world w;
  auto how = r.one_of({ at_once, posted, other_thread });
  auto ec = make_error(r);
  auto s = r.flip() ? std::to_string(r.below(100000)) : std::to_string(r.u64());
  auto kind = r.below(7);
  auto what = type + " how " + std::to_string(how) + " token " + std::to_string(kind) + " " + show(ec);
  int calls = 0;
  switch (kind) {
  case 0: { // a move-only function object
    op<T>::start(w, how, ec, s, as_expected([&, own = std::make_unique<int>(7)](result x) {
                   ++calls;
                   VH_CHECK(own && *own == 7, "tokens:handler", what);
                   judge<T>("tokens", x, ec, s, what);
                 }));
    w.ioc.run();
    break;
  }
  case 1: { // the library's own token
    net::co_spawn(
        w.ioc,
        [&]() -> fitoria::awaitable<void> {
          result x = co_await op<T>::start(w, how, ec, s, fitoria::use_awaitable);
          ++calls;
          judge<T>("tokens", x, ec, s, what);
        },
        net::detached);
    w.ioc.run();
    break;
  }
  case 2: { // twice in one coroutine, on plain awaitables
    net::co_spawn(
        w.ioc,
        [&]() -> net::awaitable<void> {
          auto a = co_await op<T>::start(w, how, ec, s, as_expected(net::use_awaitable));
          judge<T>("tokens", a, ec, s, what);
          auto b = co_await op<T>::start(w, how, ec, s, as_expected(net::use_awaitable));
          judge<T>("tokens", b, ec, s, what);
          ++calls;
        },
        net::detached);
    w.ioc.run();
    break;
  }
  case 3: { // a future: errors are values, never exceptions
    auto f = op<T>::start(w, how, ec, s, as_expected(net::use_future));
    std::thread t([&] { w.ioc.run(); });
    try {
      auto x = f.get();
      ++calls;
      judge<T>("tokens", x, ec, s, what);
    } catch (const std::exception& e) {
      vh::fail("tokens:exception", what + " " + e.what());
    }
    t.join();
    break;
  }
  case 4: { // deferred: nothing happens before it is started
    auto d = op<T>::start(w, how, ec, s, as_expected(net::deferred));
    w.ioc.run();
    w.ioc.restart();
    VH_CHECK(calls == 0, "tokens:early", what);
    std::move(d)([&](result x) {
      ++calls;
      judge<T>("tokens", x, ec, s, what);
    });
    w.ioc.run();
    break;
  }
  case 5: { // the handler's executor runs it
    net::thread_pool home(1);
    std::thread::id id, ran;
    net::post(home, [&] { id = std::this_thread::get_id(); });
    op<T>::start(w, how, ec, s, as_expected(net::bind_executor(home.get_executor(), [&](result x) {
                   ++calls;
                   ran = std::this_thread::get_id();
                   judge<T>("tokens", x, ec, s, what);
                 })));
    w.ioc.run();
    w.other.join();
    home.join();
    VH_CHECK(ran == id, "tokens:executor", what + ": ran on another executor");
    vh::count("associations kept");
    break;
  }
  default: { // adapted inside out
    op<T>::start(w, how, ec, s, net::bind_executor(w.ioc.get_executor(), as_expected([&](result x) {
                                                     ++calls;
                                                     judge<T>("tokens", x, ec, s, what);
                                                   })));
    w.ioc.run();
  }
  }
  w.other.join();
  VH_CHECK(calls == 1, "tokens:completions", what + ": " + std::to_string(calls));
  vh::seen(what);
  vh::count("operations");
}

// handler associations: allocator, cancellation slot, immediate dispatch
template <class T>
struct counting {
  using value_type = T;
  long* n;
  explicit counting(long* p)
      : n(p)
  {
  }
  template <class U>
  counting(const counting<U>& o)
      : n(o.n)
  {
  }
  T* allocate(std::size_t k)
  {
    ++*n;
    return std::allocator<T>().allocate(k);
  }
  void deallocate(T* p, std::size_t k) { std::allocator<T>().deallocate(p, k); }
  template <class U>
  bool operator==(const counting<U>& o) const
  {
    return n == o.n;
  }
};

} // namespace

VH_SUITE("tokens", 2500, 60000)
{
  switch (r.below(5)) {
  case 0: tokens<void>(r, "void"); break;
  case 1: tokens<std::size_t>(r, "size"); break;
  case 2: tokens<std::string>(r, "string"); break;
  case 3: tokens<std::unique_ptr<std::string>>(r, "unique_ptr"); break;
  default: tokens<probe>(r, "probe");
  }
  VH_CHECK(probe::live == 0, "tokens:leak", std::to_string(probe::live.load()));
}

// real operations: timers, sockets and resolvers of asio
VH_SUITE("cancellation", 400, 10000)
{
  net::io_context ioc;
  net::steady_timer t(ioc, std::chrono::hours(1));
  net::cancellation_signal sig;
  int calls = 0;
  bool slot = r.flip(), late = r.chance(1, 4);
  if (late) t.expires_after(std::chrono::microseconds(r.below(300)));
  std::string what = slot ? "slot" : "cancel";
  auto done = [&](expected<void, error_code> x) {
    ++calls;
    if (!late) VH_CHECK(!x && x.error() == net::error::operation_aborted, "cancellation:outcome", what + (x ? " succeeded" : show(x.error())));
    else VH_CHECK(x || x.error() == net::error::operation_aborted, "cancellation:outcome", what);
    vh::seen(what + (x ? "ok" : "aborted"));
  };
  if (slot) t.async_wait(as_expected(net::bind_cancellation_slot(sig.slot(), done)));
  else t.async_wait(as_expected(done));
  auto fire = [&] {
    if (slot) sig.emit(r.one_of({ net::cancellation_type::terminal, net::cancellation_type::partial, net::cancellation_type::total }));
    else t.cancel();
  };
  if (r.flip()) fire();
  else net::post(ioc, fire);
  ioc.run_for(std::chrono::seconds(20));
  VH_CHECK(calls == 1, "cancellation:completions", what + " " + std::to_string(calls));
  vh::count("cancellations");
}

VH_SUITE("allocator", 200, 5000)
{
  net::io_context ioc;
  long n = 0;
  int calls = 0;
  auto k = 1 + r.below(4);
  std::vector<net::steady_timer> ts;
  for (std::size_t i = 0; i < k; ++i) ts.emplace_back(ioc, std::chrono::microseconds(r.below(500)));
  for (auto& t : ts)
    t.async_wait(as_expected(net::bind_allocator(counting<void*>(&n), [&](expected<void, error_code> x) {
      ++calls;
      VH_CHECK(bool(x), "allocator:outcome", "");
    })));
  ioc.run();
  VH_CHECK(calls == int(k), "allocator:completions", std::to_string(calls));
  VH_CHECK(n >= int(k), "allocator:unused", "the handler's allocator was used " + std::to_string(n) + " times for " + std::to_string(k) + " operations");
  vh::count("associations kept");
}

// bytes through a socket pair: the count and the end of stream arrive as they are
VH_SUITE("sockets", 300, 8000)
{
  net::io_context ioc;
  using sock = net::basic_stream_socket<net::local::stream_protocol, fitoria::executor_type>;
  sock a(ioc), b(ioc);
  net::local::connect_pair(a, b);
  auto data = r.bytes(r.len(3000));
  int finished = 0;
  net::co_spawn(
      ioc,
      [&]() -> fitoria::awaitable<void> {
        std::size_t at = 0;
        while (at < data.size()) {
          auto n = std::min(data.size() - at, 1 + r.below(700));
          auto x = co_await net::async_write(a, net::buffer(data.data() + at, n), fitoria::use_awaitable);
          VH_CHECK(x && *x == n, "sockets:written", std::to_string(n));
          at += n;
        }
        a.close();
        auto x = co_await net::async_write(a, net::buffer(data), fitoria::use_awaitable);
        if (!data.empty()) VH_CHECK(!x, "sockets:closed", "writing to a closed socket succeeded");
        ++finished;
      },
      net::detached);
  net::co_spawn(
      ioc,
      [&]() -> fitoria::awaitable<void> {
        std::string in;
        char buf[777];
        for (;;) {
          auto x = co_await b.async_read_some(net::buffer(buf), fitoria::use_awaitable);
          if (!x) {
            VH_CHECK(x.error() == net::error::eof, "sockets:end", show(x.error()));
            break;
          }
          VH_CHECK(*x > 0 && *x <= sizeof buf, "sockets:count", std::to_string(*x));
          in.append(buf, *x);
        }
        VH_CHECK(in == data, "sockets:bytes", std::to_string(in.size()) + " of " + std::to_string(data.size()));
        ++finished;
      },
      net::detached);
  ioc.run();
  VH_CHECK(finished == 2, "sockets:finished", std::to_string(finished));
  vh::count("transfers");
  vh::seen(std::to_string(data.size()));
}

// operations that never complete are destroyed with their context
VH_SUITE("abandoned", 200, 5000)
{
  int calls = 0;
  auto own = std::make_shared<int>(1);
  {
    net::io_context ioc;
    net::steady_timer t(ioc, std::chrono::hours(1));
    auto k = r.below(4);
    for (std::size_t i = 0; i <= k; ++i) {
      if (r.flip()) t.async_wait(as_expected([&, own](expected<void, error_code>) { ++calls; }));
      else
        net::co_spawn(
            ioc,
            [&, own]() -> fitoria::awaitable<void> {
              co_await t.async_wait(fitoria::use_awaitable);
              ++calls;
            },
            net::detached);
    }
    if (r.flip()) ioc.poll();
    ioc.stop();
  }
  VH_CHECK(own.use_count() == 1, "abandoned:leak", std::to_string(own.use_count()));
  vh::count("abandoned", 1);
  vh::seen(std::to_string(calls));
}

int main(int argc, char** argv)
{
  vh::require("values delivered", 50);
  vh::require("errors delivered", 50);
  vh::require("associations kept", 50);
  vh::require("cancellations", 50);
  return vh::main(argc, argv);
}
