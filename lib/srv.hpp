// Running the real http_server and talking to it: in process, or as a raw
// socket client with an HTTP parser that shares no code with the library.
#pragma once
#include "aio.hpp"

#include <fitoria/web.hpp>

#include <chrono>
#include <condition_variable>
#include <filesystem>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <thread>

namespace srv {

namespace web = fitoria::web;
namespace http = fitoria::http;
namespace net = boost::asio;
using fitoria::awaitable;

inline std::string lower(std::string_view s)
{
  std::string r(s);
  for (auto& c : r)
    if (c >= 'A' && c <= 'Z') c = char(c - 'A' + 'a');
  return r;
}

using headers = std::vector<std::pair<std::string, std::string>>; // lower-case name, value

inline headers of(const http::header_map& m)
{
  headers h;
  for (auto it = m.begin(); it != m.end(); ++it) {
    auto n = it->name_string();
    auto v = it->value();
    h.emplace_back(lower(std::string_view(n.data(), n.size())), std::string(v.data(), v.size()));
  }
  return h;
}
inline std::vector<std::string> values(const headers& h, const std::string& name)
{
  std::vector<std::string> v;
  for (auto& [n, x] : h)
    if (n == name) v.push_back(x);
  return v;
}
inline std::string show(const headers& h)
{
  std::string s;
  for (auto& [n, v] : h) s += n + ": " + vh::esc(v) + "; ";
  return s;
}

// ---------------------------------------------------------------- in process
struct reply {
  int status = 0;
  int major_minor = 0;
  headers h;
  std::string body;
  std::optional<std::error_code> body_error;
  bool delivered = false;
};

inline reply call(web::http_server& s, net::io_context& ioc, std::string path, web::test_request req)
{
  reply out;
  s.serve_request(std::move(path), std::move(req), [&out](web::test_response res) -> awaitable<void> {
    out.status = int(res.status().value());
    out.h = of(res.headers());
    auto d = co_await aio::drain(res.body(), 100000);
    out.body = d.data;
    if (!d.ended) out.body_error = d.error.value_or(std::make_error_code(std::errc::timed_out));
    out.delivered = true;
  });
  ioc.restart();
  ioc.run();
  return out;
}

// ---------------------------------------------------------------- over a wire
struct tmpdir {
  std::filesystem::path p;
  tmpdir()
  {
    char b[] = "/tmp/vh.srv.XXXXXX";
    if (!::mkdtemp(b)) std::abort();
    p = b;
  }
  tmpdir(const tmpdir&) = delete;
  ~tmpdir()
  {
    std::error_code ec;
    std::filesystem::remove_all(p, ec);
  }
};

class client {
public:
  client() = default;
  explicit client(const std::string& unix_path)
  {
    fd_ = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_un a {};
    a.sun_family = AF_UNIX;
    std::snprintf(a.sun_path, sizeof a.sun_path, "%s", unix_path.c_str());
    if (::connect(fd_, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) close();
  }
  explicit client(std::uint16_t port)
  {
    fd_ = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::connect(fd_, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) close();
    int one = 1;
    if (fd_ >= 0) ::setsockopt(fd_, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  }
  static client adopt(int fd)
  {
    client c;
    c.fd_ = fd;
    return c;
  }
  client(client&& o) noexcept
      : fd_(std::exchange(o.fd_, -1))
      , in_(std::move(o.in_))
      , eof_(o.eof_)
  {
  }
  client& operator=(client&& o) noexcept
  {
    std::swap(fd_, o.fd_);
    std::swap(in_, o.in_);
    std::swap(eof_, o.eof_);
    return *this;
  }
  ~client() { close(); }
  void close()
  {
    if (fd_ >= 0) ::close(fd_);
    fd_ = -1;
    eof_ = true;
  }
  void reset()
  {
    linger l { 1, 0 };
    if (fd_ >= 0) ::setsockopt(fd_, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    close();
  }
  void half_close() { ::shutdown(fd_, SHUT_WR); }
  explicit operator bool() const { return fd_ >= 0; }
  int fd() const { return fd_; }

  // false when the peer closed before everything was sent; what arrives in the
  // meantime is kept so that neither side blocks the other
  bool send(std::string_view s, int timeout_ms = 10000)
  {
    auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeout_ms);
    while (!s.empty()) {
      if (fd_ < 0 || std::chrono::steady_clock::now() > until) return false;
      pollfd p { fd_, short(POLLOUT | (eof_ ? 0 : POLLIN)), 0 };
      if (::poll(&p, 1, 100) <= 0) continue;
      if (p.revents & POLLIN) pump(0);
      if (p.revents & (POLLERR | POLLNVAL)) return false;
      if (p.revents & POLLOUT) {
        auto n = ::send(fd_, s.data(), s.size(), MSG_NOSIGNAL | MSG_DONTWAIT);
        if (n < 0 && errno != EAGAIN) return false;
        if (n > 0) s.remove_prefix(std::size_t(n));
      }
    }
    return true;
  }
  // reads what is there within the time; false on end of stream or timeout
  bool pump(int timeout_ms)
  {
    if (fd_ < 0 || eof_) return false;
    pollfd p { fd_, POLLIN, 0 };
    if (::poll(&p, 1, timeout_ms) <= 0) return false;
    char b[65536];
    auto n = ::recv(fd_, b, sizeof b, MSG_DONTWAIT);
    if (n <= 0) {
      if (n < 0 && (errno == EAGAIN || errno == EINTR)) return true;
      reset_ = n < 0;
      eof_ = true;
      return false;
    }
    in_.append(b, std::size_t(n));
    return true;
  }
  // reads until the peer closes; true if it did in time
  bool drain(int timeout_ms = 10000)
  {
    auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeout_ms);
    while (!eof_ && std::chrono::steady_clock::now() < until) pump(50);
    return eof_;
  }
  std::string& in() { return in_; }
  bool eof() const { return eof_; }
  bool was_reset() const { return reset_; }

private:
  int fd_ = -1;
  std::string in_;
  bool eof_ = false, reset_ = false;
};

struct message {
  enum state { incomplete, complete, malformed } st = incomplete;
  std::string why;
  int status = 0, version = 0; // 10 or 11
  std::string reason;
  headers h;
  std::string body;
  enum { none, length, chunked, until_close } framing = none;
  std::size_t used = 0;
  bool close = false;
  std::vector<std::string> get(const std::string& n) const { return values(h, n); }
};

inline bool is_token(std::string_view s)
{
  if (s.empty()) return false;
  for (unsigned char c : s)
    if (!std::isalnum(c) && !std::strchr("!#$%&'*+-.^_`|~", c)) return false;
  return true;
}

// RFC 9112 response parser; eof: no more bytes will come
inline message parse_response(std::string_view s, bool head, bool eof)
{
  message m;
  auto bad = [&](std::string why) {
    m.st = message::malformed;
    m.why = std::move(why);
    return m;
  };
  auto end = s.find("\r\n\r\n");
  if (end == s.npos) {
    if (eof && !s.empty()) m.why = "cut inside the header";
    return m;
  }
  std::string_view head_part = s.substr(0, end + 2);
  std::size_t pos = head_part.find("\r\n");
  auto line = head_part.substr(0, pos);
  if (line.size() < 12 || line.substr(0, 7) != "HTTP/1." || (line[7] != '0' && line[7] != '1') || line[8] != ' ')
    return bad("status line " + vh::esc(line));
  m.version = 10 + (line[7] - '0');
  for (int i = 9; i < 12; ++i) {
    if (!std::isdigit((unsigned char)line[std::size_t(i)])) return bad("status code " + vh::esc(line));
    m.status = m.status * 10 + (line[std::size_t(i)] - '0');
  }
  if (line.size() > 12) {
    if (line[12] != ' ') return bad("status line " + vh::esc(line));
    m.reason = std::string(line.substr(13));
  }
  pos += 2;
  while (pos < head_part.size()) {
    auto e = head_part.find("\r\n", pos);
    auto l = head_part.substr(pos, e - pos);
    pos = e + 2;
    auto c = l.find(':');
    if (c == l.npos || !is_token(l.substr(0, c))) return bad("header line " + vh::esc(l));
    auto v = l.substr(c + 1);
    while (!v.empty() && (v.front() == ' ' || v.front() == '\t')) v.remove_prefix(1);
    while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.remove_suffix(1);
    if (v.find('\r') != v.npos || v.find('\n') != v.npos || v.find('\0') != v.npos) return bad("header value " + vh::esc(l));
    m.h.emplace_back(lower(l.substr(0, c)), std::string(v));
  }
  auto rest = s.substr(end + 4);
  m.used = end + 4;
  auto cl = m.get("content-length");
  auto te = m.get("transfer-encoding");
  auto tokens = [&](const std::string& name, const std::string& tok) {
    for (auto& v : m.get(name)) {
      std::string x = lower(v) + ",";
      std::string cur;
      for (char ch : x) {
        if (ch == ',') {
          if (cur == tok) return true;
          cur.clear();
        } else if (ch != ' ' && ch != '\t') cur += ch;
      }
    }
    return false;
  };
  m.close = m.version == 10 ? !tokens("connection", "keep-alive") : tokens("connection", "close");
  if (cl.size() > 1) return bad("several content-length headers");
  std::size_t n = 0;
  if (!cl.empty()) {
    if (cl[0].empty() || cl[0].size() > 18) return bad("content-length " + cl[0]);
    for (char ch : cl[0]) {
      if (!std::isdigit((unsigned char)ch)) return bad("content-length " + cl[0]);
      n = n * 10 + std::size_t(ch - '0');
    }
  }
  if (!te.empty()) {
    if (!cl.empty()) return bad("both content-length and transfer-encoding");
    if (te.size() != 1 || lower(te[0]) != "chunked") return bad("transfer-encoding " + te[0]);
    if (m.version == 10) return bad("transfer-encoding in an HTTP/1.0 message");
  }
  bool no_body = head || m.status / 100 == 1 || m.status == 204 || m.status == 304;
  if (no_body) {
    if ((m.status / 100 == 1 || m.status == 204) && (!cl.empty() || !te.empty())) return bad("framing header in a response without body");
    m.framing = message::none;
    m.st = message::complete;
    return m;
  }
  if (!te.empty()) {
    m.framing = message::chunked;
    auto left = rest;
    for (;;) {
      auto e = left.find("\r\n");
      if (e == left.npos) {
        if (left.size() > 1000) return bad("chunk header");
        return m;
      }
      auto l = left.substr(0, e);
      l = l.substr(0, l.find(';'));
      if (l.empty() || l.size() > 15) return bad("chunk size " + vh::esc(l));
      std::size_t k = 0;
      for (char ch : l) {
        if (!std::isxdigit((unsigned char)ch)) return bad("chunk size " + vh::esc(l));
        k = k * 16 + std::size_t(std::isdigit((unsigned char)ch) ? ch - '0' : (ch | 32) - 'a' + 10);
      }
      left.remove_prefix(e + 2);
      if (k == 0) {
        if (left.size() < 2) return m;
        if (left.substr(0, 2) != "\r\n") return bad("trailer " + vh::esc(left.substr(0, 20)));
        left.remove_prefix(2);
        m.used = s.size() - left.size();
        m.st = message::complete;
        return m;
      }
      if (left.size() < k) {
        m.body += left;
        return m;
      }
      m.body += left.substr(0, k);
      left.remove_prefix(k);
      if (left.size() < 2) return m;
      if (left.substr(0, 2) != "\r\n") return bad("chunk end");
      left.remove_prefix(2);
    }
  }
  if (!cl.empty()) {
    m.framing = message::length;
    m.body = std::string(rest.substr(0, n));
    if (rest.size() >= n) {
      m.used += n;
      m.st = message::complete;
    }
    return m;
  }
  m.framing = message::until_close;
  m.body = std::string(rest);
  if (eof) {
    m.used = s.size();
    m.st = message::complete;
  }
  return m;
}

// next response on the connection, waiting for it
template <class Client>
message next_response(Client& c, bool head = false, int timeout_ms = 10000)
{
  auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeout_ms);
  for (;;) {
    auto m = parse_response(c.in(), head, c.eof());
    if (m.st == message::complete) {
      c.in().erase(0, m.used);
      return m;
    }
    if (m.st == message::malformed || c.eof()) return m;
    if (std::chrono::steady_clock::now() > until) {
      m.why = "timeout";
      return m;
    }
    c.pump(50);
  }
}

// a server listening on a unix socket (and optionally TCP), with its threads
class running {
public:
  template <class F>
  explicit running(F&& build, int threads = 1)
      : path((dir.p / "s").string())
      , server(build(web::http_server::builder(ioc)))
      , work(net::make_work_guard(ioc))
  {
    if (!server.bind_local(path)) vh::fail("srv:bind", "bind_local failed");
    for (int i = 0; i < threads; ++i)
      pool.emplace_back([this] {
        for (;;) {
          try {
            ioc.run();
            break;
          } catch (...) {
            ++escaped; // an exception left the server
          }
        }
      });
  }
  ~running() { stop(); }
  void stop()
  {
    work.reset();
    ioc.stop();
    for (auto& t : pool) t.join();
    pool.clear();
  }
  std::uint16_t bind_tcp()
  {
    for (int i = 0; i < 200; ++i) {
      auto port = std::uint16_t(20000 + (unsigned(::getpid()) * 131u + unsigned(i) * 977u) % 20000u);
      if (server.bind("127.0.0.1", port)) return port;
    }
    vh::fail("srv:bind", "no free TCP port");
    return 0;
  }

  tmpdir dir;
  std::string path;
  net::io_context ioc;
  web::http_server server;
  net::executor_work_guard<net::io_context::executor_type> work;
  std::vector<std::thread> pool;
  std::atomic<int> escaped { 0 };
};

} // namespace srv
