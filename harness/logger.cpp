// P20: loggers under many threads; recording writers are the event log.
#include "vh.hpp"

#include <fitoria/log.hpp>
#include <fitoria/log/async_stdout_writer.hpp>
#include <fitoria/log/async_stream_file_writer.hpp>
#include <fitoria/log/sync_stdout_writer.hpp>
#include <fitoria/log/sync_stream_file_writer.hpp>

#include <boost/asio/steady_timer.hpp>

#if defined(BOOST_ASIO_HAS_IO_URING)
#include <liburing.h>
#endif

#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sys/wait.h>
#include <thread>

namespace {

using namespace fitoria;
namespace net = boost::asio;
using level = log::level;

// message: <run>:<thread>:<number>:<level>:<filler>
struct got {
  std::string msg;
  level lv;
  std::uint32_t line;
  std::string function;
  std::string file;
};

std::atomic<int> g_live { 0 };

struct recorder : log::async_writer {
  int style = 0; // 0 immediate, 1 hops through the executor, 2 waits, 3 mixed
  std::mutex mx;
  std::vector<got> seen;
  std::atomic<int> inside { 0 };
  std::atomic<bool> overlapped { false };
  vh::rng r;
  explicit recorder(int s, std::uint64_t seed)
      : style(s)
      , r(seed)
  {
    ++g_live;
  }
  ~recorder() override { --g_live; }
  auto async_write(log::record_ptr rec) -> log::awaitable<void> override
  {
    if (inside++ != 0) overlapped = true;
    int s = style == 3 ? int(r.below(3)) : style;
    if (s == 1) co_await net::post(net::system_executor(), net::use_awaitable_t<log::executor_type> {});
    if (s == 2) {
      net::basic_waitable_timer<std::chrono::steady_clock, net::wait_traits<std::chrono::steady_clock>, log::executor_type> t { net::system_executor() };
      t.expires_after(std::chrono::microseconds(r.below(200)));
      (void)co_await t.async_wait(log::use_awaitable);
    }
    {
      std::lock_guard l(mx);
      seen.push_back({ rec->msg, rec->lv, rec->line, std::string(rec->function_name), std::string(rec->file_name) });
    }
    --inside;
  }
};

constexpr level k_levels[] = { level::trace, level::debug, level::info, level::warning, level::error, level::fatal };

std::string filler(std::uint64_t h)
{
  return std::string(h % 7 == 0 ? 300 + h % 500 : h % 20, char('a' + int(h % 26)));
}
std::string text(long run, int thread, int i, level lv)
{
  auto h = vh::mix(std::uint64_t(run) * 31 + std::uint64_t(thread) * 1000003u + std::uint64_t(i));
  return std::to_string(run) + ":" + std::to_string(thread) + ":" + std::to_string(i) + ":" + std::to_string(int(lv)) + ":" + filler(h);
}

// the records each thread logged, in order
using plan_t = std::vector<std::vector<std::pair<int, level>>>;

plan_t make_plan(vh::rng& r, int threads, int n)
{
  plan_t p(static_cast<std::size_t>(threads));
  for (auto& t : p)
    for (int i = 0; i < n; ++i) t.emplace_back(i, k_levels[r.below(6)]);
  return p;
}

void emit(log::async_logger& lg, long run, int thread, int i, level lv)
{
  auto t = text(run, thread, i, lv);
  auto colon = t.rfind(':');
  lg.log(source_location::current(), lv, "{}:{}", t.substr(0, colon), t.substr(colon + 1));
}

void judge(const std::string& key, const std::vector<got>& seen, const plan_t& plan, long run, const log::filter& f, const std::string& what)
{
  std::vector<std::vector<std::string>> want(plan.size()), have(plan.size());
  for (std::size_t t = 0; t < plan.size(); ++t)
    for (auto& [i, lv] : plan[t])
      if (f.is_allowed(lv)) want[t].push_back(text(run, int(t), i, lv));
  std::set<std::string> uniq;
  for (auto& g : seen) {
    VH_CHECK(uniq.insert(g.msg).second, key + ":duplicate", what + " " + vh::esc(g.msg, 60));
    long rn = -1;
    int t = -1, i = -1, lv = -1;
    if (std::sscanf(g.msg.c_str(), "%ld:%d:%d:%d:", &rn, &t, &i, &lv) != 4 || rn != run || t < 0 || std::size_t(t) >= plan.size()) {
      vh::fail(key + ":garbled", what + " " + vh::esc(g.msg, 100));
      continue;
    }
    VH_CHECK(int(g.lv) == lv, key + ":level", what + " " + vh::esc(g.msg, 60));
    VH_CHECK(g.line > 0 && g.function.find("emit") != g.function.npos, key + ":location", what + " " + g.function);
    have[std::size_t(t)].push_back(g.msg);
  }
  for (std::size_t t = 0; t < plan.size(); ++t) {
    if (have[t] == want[t]) {
      vh::eval();
      continue;
    }
    auto w = what + " thread " + std::to_string(t) + ": " + std::to_string(have[t].size()) + " of " + std::to_string(want[t].size());
    auto a = have[t], b = want[t];
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a == b) vh::fail(key + ":order", w);
    else if (a.size() < b.size()) vh::fail(key + ":lost", w);
    else vh::fail(key + ":wrong", w);
  }
  vh::count("records", seen.size());
}

log::filter make_filter(vh::rng& r, std::string& what)
{
  switch (r.below(3)) {
  case 0: what += " all"; return log::filter::all();
  case 1: {
    auto l = k_levels[r.below(6)];
    what += " at_least " + std::to_string(int(l));
    return log::filter::at_least(l);
  }
  default: {
    auto a = k_levels[r.below(6)], b = k_levels[r.below(6)];
    what += " {" + std::to_string(int(a)) + "," + std::to_string(int(b)) + "}";
    return log::filter { a, b };
  }
  }
}

std::string order_of(const std::vector<got>& seen)
{
  std::string s;
  for (auto& g : seen) s += g.msg.substr(g.msg.find(':') + 1, 6);
  return s;
}

} // namespace

// threads log, then the last reference goes away
VH_SUITE("threads", 150, 4000)
{
  int threads = int(1 + r.below(8)), n = int(r.len(vh::thorough() ? 400 : 150));
  auto buffer = r.one_of<std::size_t>({ 0, 0, 1, 2, 7, 64, 100000 });
  std::string what = std::to_string(threads) + "x" + std::to_string(n) + " buffer " + std::to_string(buffer);
  auto f = make_filter(r, what);
  auto lg = log::async_logger::builder().set_filter(f).set_max_buffer_size(buffer).build();
  std::vector<std::shared_ptr<recorder>> ws;
  for (auto k = 1 + r.below(3); k; --k) {
    ws.push_back(std::make_shared<recorder>(int(r.below(4)), r.u64()));
    what += " writer " + std::to_string(ws.back()->style);
    lg->add_writer(ws.back());
  }
  auto plan = make_plan(r, threads, n);
  bool own = r.flip(); // each thread holds its own reference: any of them may be the last
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t, ref = own ? lg : nullptr, seed = r.u64()]() mutable {
      vh::rng q(seed);
      auto* p = ref ? ref.get() : lg.get();
      for (auto& [i, lv] : plan[std::size_t(t)]) {
        emit(*p, idx, t, i, lv);
        if (q.chance(1, 20)) std::this_thread::yield();
      }
      ref.reset();
    });
  if (own) lg.reset();
  for (auto& t : ts) t.join();
  lg.reset();
  for (auto& w : ws) {
    std::lock_guard l(w->mx);
    judge("threads", w->seen, plan, idx, f, what);
    VH_CHECK(!w->overlapped, "threads:overlap", what);
    vh::seen(order_of(w->seen));
  }
  vh::count("loggers");
  vh::sample(what);
  int refs = int(ws.size());
  ws.clear();
  VH_CHECK(g_live == 0, "threads:leak", what + " " + std::to_string(g_live) + " of " + std::to_string(refs) + " writers alive");
}

// destroyed at once: whatever was accepted is still delivered
VH_SUITE("short-lived", 150, 4000)
{
  std::string what = "short";
  for (int k = 0; k < 20; ++k) {
    auto w = std::make_shared<recorder>(int(r.below(4)), r.u64());
    auto plan = make_plan(r, 1, int(r.below(4)));
    {
      auto lg = log::async_logger::builder().set_max_buffer_size(r.below(3)).build();
      lg->add_writer(w);
      for (auto& [i, lv] : plan[0]) emit(*lg, idx, 0, i, lv);
    }
    std::lock_guard l(w->mx);
    judge("short-lived", w->seen, plan, idx, log::filter::all(), what + std::to_string(w->style));
  }
  vh::count("loggers", 20);
}

// the default logger is replaced while other threads log through it
VH_SUITE("registry", 60, 2000)
{
  int threads = int(1 + r.below(6)), n = int(20 + r.below(150));
  auto plan = make_plan(r, threads, n);
  std::vector<std::shared_ptr<recorder>> ws;
  auto fresh = [&] {
    auto lg = log::async_logger::builder().set_max_buffer_size(r.below(4)).build();
    ws.push_back(std::make_shared<recorder>(int(r.below(4)), r.u64()));
    lg->add_writer(ws.back());
    return lg;
  };
  log::registry::global().set_default_logger(fresh());
  std::atomic<int> running { threads };
  std::vector<std::thread> ts;
  constexpr std::uint32_t first_line = __LINE__;
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      for (auto& [i, lv] : plan[std::size_t(t)]) {
        auto s = text(idx, t, i, lv);
        if (i % 5 == 0) {
          log::log(lv, "{}", s);
          continue;
        }
        switch (lv) {
        case level::trace: log::trace("{}", s); break;
        case level::debug: log::debug("{}", s); break;
        case level::info: log::info("{}", s); break;
        case level::warning: log::warning("{}", s); break;
        case level::error: log::error("{}", s); break;
        case level::fatal: log::fatal("{}", s); break;
        default: break;
        }
      }
      --running;
    });
  constexpr std::uint32_t last_line = __LINE__;
  int swaps = 0;
  while (running > 0 && swaps < 200) {
    log::registry::global().set_default_logger(fresh());
    ++swaps;
    if (r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
  }
  for (auto& t : ts) t.join();
  log::registry::global().set_default_logger(nullptr);
  log::info("nobody {}", "listens");
  std::string what = std::to_string(threads) + "x" + std::to_string(n) + " swaps " + std::to_string(swaps);
  // over all loggers: once each, and each logger got its part in order
  std::map<std::string, int> count;
  std::string all;
  for (auto& w : ws) {
    std::lock_guard l(w->mx);
    std::map<int, int> last;
    for (auto& g : w->seen) {
      ++count[g.msg];
      int t = -1, i = -1, lv = -1;
      long rn;
      if (std::sscanf(g.msg.c_str(), "%ld:%d:%d:%d:", &rn, &t, &i, &lv) != 4) {
        vh::fail("registry:garbled", what + vh::esc(g.msg, 80));
        continue;
      }
      VH_CHECK(int(g.lv) == lv, "registry:level", what + " " + vh::esc(g.msg, 60));
      VH_CHECK(g.line >= first_line && g.line <= last_line && g.file.find("logger.cpp") != g.file.npos, "registry:location", what + " " + g.file + ":" + std::to_string(g.line));
      auto it = last.find(t);
      VH_CHECK(it == last.end() || it->second < i, "registry:order", what);
      last[t] = i;
    }
    all += order_of(w->seen);
  }
  std::size_t missing = 0, more = 0;
  for (std::size_t t = 0; t < plan.size(); ++t)
    for (auto& [i, lv] : plan[t]) {
      auto it = count.find(text(idx, int(t), i, lv));
      if (it == count.end()) ++missing;
      else if (it->second != 1) ++more;
      else vh::eval();
    }
  VH_CHECK(missing == 0, "registry:lost", what + " " + std::to_string(missing) + " records");
  VH_CHECK(more == 0, "registry:duplicate", what);
  vh::count("records", std::size_t(threads * n));
  vh::count("swaps", std::uint64_t(swaps));
  vh::seen(all);
  ws.clear();
  VH_CHECK(g_live == 0, "registry:leak", what);
}

namespace {
struct scratch {
  std::string p;
  scratch()
  {
    char b[] = "/tmp/vh.log.XXXXXX";
    if (!::mkdtemp(b)) std::abort();
    p = b;
  }
  ~scratch()
  {
    std::error_code ec;
    std::filesystem::remove_all(p, ec);
  }
};
std::vector<std::string> lines_of(const std::string& path)
{
  std::ifstream f(path, std::ios::binary);
  std::vector<std::string> v;
  for (std::string l; std::getline(f, l);) v.push_back(l);
  return v;
}
// the kinds of writer that end in a file: 0 sync file, 1 sync stdout, 2 async
// file, 3 async stdout
bool async_files()
{
#if defined(VH_FILE_STANDIN)
  return true;
#elif defined(BOOST_ASIO_HAS_IO_URING)
  static bool ok = [] {
    io_uring u;
    if (io_uring_queue_init(8, &u, 0) != 0) return false;
    io_uring_queue_exit(&u);
    return true;
  }();
  return ok;
#else
  return false;
#endif
}
std::shared_ptr<log::async_writer> make_writer(int kind, const std::string& path)
{
  switch (kind) {
  case 1: return log::make_sync_stdout_writer();
#if defined(BOOST_ASIO_HAS_FILE)
  case 2: return log::make_async_stream_file_writer(path);
  case 3: return log::make_async_stdout_writer();
#endif
  default: return log::make_sync_stream_file_writer(path);
  }
}
// short and late writes of the stand-in files
void rough_files([[maybe_unused]] std::uint64_t seed)
{
#if defined(VH_FILE_STANDIN)
  auto q = std::make_shared<vh::rng>(seed);
  std::lock_guard l(vh_file::g.mx);
  if (seed % 4 == 0) vh_file::g.fn = nullptr;
  else
    vh_file::g.fn = [q](bool, std::uint64_t, std::size_t n) {
      vh_file::plan p;
      if (n > 1 && q->chance(1, 3)) p.most = 1 + q->below(n - 1);
      if (q->chance(1, 6)) p.delay_us = int(q->below(300));
      return p;
    };
#endif
}
std::string plain(const std::string& s)
{
  std::string o;
  for (std::size_t i = 0; i < s.size();) {
    if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {
      auto e = s.find('m', i);
      if (e != s.npos) {
        i = e + 1;
        continue;
      }
    }
    o += s[i++];
  }
  return o;
}
// default line: [time LEVEL function] msg [file:line:col]
void judge_lines(const std::string& key, const std::vector<std::string>& lines, const plan_t& plan, long run, const std::string& what)
{
  std::vector<got> seen;
  for (auto& raw : lines) {
    auto l = plain(raw);
    auto a = l.find("] "), b = l.rfind(" [");
    if (l.empty() || l[0] != '[' || l.back() != ']' || a == l.npos || b == l.npos || b < a + 2) {
      vh::fail(key + ":garbled", what + " " + vh::esc(l, 200));
      continue;
    }
    got g;
    // the function name may itself contain "] "
    auto m = l.substr(0, b);
    auto start = m.rfind("] " + std::to_string(run) + ":");
    g.msg = start == m.npos ? "" : m.substr(start + 2);
    g.lv = level::off;
    for (auto x : k_levels)
      if (l.find(" " + log::to_string(x) + " ") < a) g.lv = x;
    g.line = 1;
    g.function = l.find("emit") != l.npos ? "emit" : "?";
    seen.push_back(g);
  }
  judge(key, seen, plan, run, log::filter::all(), what);
}
} // namespace

VH_SUITE("file", 40, 800)
{
  scratch d;
  auto path = d.p + "/log.txt";
  int threads = int(1 + r.below(6)), n = int(r.len(100));
  auto plan = make_plan(r, threads, n);
  bool twice = r.chance(1, 3);
  int kind = async_files() && r.chance(2, 3) ? 2 : 0;
  rough_files(r.u64());
  bool custom = r.chance(1, 3);
  std::string what = std::to_string(threads) + "x" + std::to_string(n) + (kind ? " async" : " sync");
  for (int round = 0; round < (twice ? 2 : 1); ++round) {
    auto lg = log::async_logger::builder().build();
    auto w = make_writer(kind, path);
    if (custom)
      if (auto f = std::dynamic_pointer_cast<log::async_formattable_writer>(w)) f->set_formatter(log::formatter::builder().set_pattern("[# {LV} {FUNC}] {MSG} [custom]").build());
    lg->add_writer(w);
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
      ts.emplace_back([&, t] {
        auto& p = plan[std::size_t(t)];
        auto half = p.size() / 2;
        for (std::size_t k = twice && round == 1 ? half : 0; k < (twice && round == 0 ? half : p.size()); ++k) emit(*lg, idx, t, p[k].first, p[k].second);
      });
    for (auto& t : ts) t.join();
  }
  auto lines = lines_of(path);
  if (custom)
    for (auto& l : lines) VH_CHECK(l.starts_with("[# ") && l.ends_with(" [custom]"), "file:formatter", what + " " + vh::esc(l, 100));
  judge_lines(kind ? "async-file" : "file", lines, plan, idx, what);
  vh::count(kind ? "async-files" : "files");
}

namespace {
// run as a child: logs through the default logger and returns from main
int child(const std::string& path, int n, bool explicit_reset, int kind)
{
  if (kind & 1) {
    int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ::dup2(fd, 1) < 0) return 121;
    ::close(fd);
  }
  rough_files(std::uint64_t(n) * 7919 + 1);
  log::registry::global().set_default_logger(log::async_logger::builder().build());
  log::registry::global().default_logger()->add_writer(make_writer(kind, path));
  for (int i = 0; i < n; ++i) emit(*log::registry::global().default_logger(), 1, 0, i, k_levels[i % 6]);
  if (explicit_reset) log::registry::global().set_default_logger(nullptr);
  return 0;
}
std::string g_self;
} // namespace

VH_SUITE("exit", 24, 300)
{
  scratch d;
  auto path = d.p + "/log.txt";
  int n = int(r.below(60));
  bool reset = r.chance(1, 3);
  int kind = int(r.below(async_files() ? 4 : 2));
  auto t0 = std::chrono::steady_clock::now();
  auto pid = ::fork();
  if (pid == 0) {
    auto num = std::to_string(n), k = std::to_string(kind);
    ::execl(g_self.c_str(), g_self.c_str(), "--child", path.c_str(), num.c_str(), reset ? "1" : "0", k.c_str(), nullptr);
    ::_exit(120);
  }
  int st = 0;
  ::waitpid(pid, &st, 0);
  auto s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::string what = "writer " + std::to_string(kind) + " " + std::to_string(n) + " records reset " + std::to_string(reset) + " status " + std::to_string(st) + " " + std::to_string(s) + " s";
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit:status", what);
  VH_CHECK(s < 20, "exit:slow", what);
  plan_t plan(1);
  for (int i = 0; i < n; ++i) plan[0].emplace_back(i, k_levels[i % 6]);
  judge_lines("exit", lines_of(path), plan, 1, what);
  vh::count("exits");
  vh::count("exit-writer-" + std::to_string(kind));
  vh::seen(what.substr(0, 20));
}

int main(int argc, char** argv)
{
  if (argc == 6 && std::string(argv[1]) == "--child") return child(argv[2], std::atoi(argv[3]), argv[4][0] == '1', argv[5][0] - '0');
  char b[4096];
  auto k = ::readlink("/proc/self/exe", b, sizeof b - 1);
  g_self.assign(b, std::size_t(k > 0 ? k : 0));
  vh::require("records", 2000);
  vh::require("loggers", 200);
  vh::require("swaps", 50);
  vh::require("exits", 4);
  if (async_files()) vh::require("async-files", 5);
#if defined(BOOST_ASIO_HAS_IO_URING)
  if (!async_files()) vh::count("io_uring-unavailable");
#endif
  return vh::main(argc, argv);
}
