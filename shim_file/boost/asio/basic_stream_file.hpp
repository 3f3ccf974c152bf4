// Stand-in for asio's stream files (which need io_uring at run time): the same
// interface over read(2)/write(2), completing through the executor, with hooks
// for short transfers, errors and delays.
#pragma once
#include <boost/asio/any_io_executor.hpp>
#include <boost/asio/async_result.hpp>
#include <boost/asio/buffer.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/file_base.hpp>
#include <boost/asio/associated_executor.hpp>
#include <boost/asio/post.hpp>
#include <boost/asio/steady_timer.hpp>

#include <chrono>
#include <functional>
#include <memory>
#include <mutex>

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#define VH_FILE_STANDIN 1

namespace vh_file {
struct plan {
  std::size_t most = std::size_t(-1); // bytes of this transfer
  int error = 0; // errno instead of a transfer
  int delay_us = 0;
};
struct hooks {
  std::mutex mx;
  std::function<plan(bool write, std::uint64_t pos, std::size_t n)> fn;
  std::atomic<long> open { 0 }, reads { 0 }, shorts { 0 }, errors { 0 }, seeks { 0 }, concurrent { 0 };
  plan ask(bool write, std::uint64_t pos, std::size_t n)
  {
    std::lock_guard l(mx);
    return fn ? fn(write, pos, n) : plan {};
  }
};
inline hooks g;
}

namespace boost {
namespace asio {

template <class Executor = any_io_executor>
class basic_stream_file : public file_base {
public:
  typedef Executor executor_type;
  typedef int native_handle_type;

  explicit basic_stream_file(const executor_type& ex)
      : ex_(ex)
  {
  }
  basic_stream_file(const executor_type& ex, const std::string& path, flags f)
      : ex_(ex)
  {
    boost::system::error_code ec;
    open(path, f, ec);
    if (ec) throw boost::system::system_error(ec);
  }
  basic_stream_file(const executor_type& ex, int fd)
      : ex_(ex)
      , st_(std::make_shared<handle>(fd))
  {
  }
  basic_stream_file(basic_stream_file&&) = default;
  basic_stream_file& operator=(basic_stream_file&&) = default;

  executor_type get_executor() noexcept { return ex_; }
  void open(const std::string& path, flags f, boost::system::error_code& ec) { open(path.c_str(), f, ec); }
  void open(const char* path, flags f, boost::system::error_code& ec)
  {
    int fd = ::open(path, int(f) | O_CLOEXEC, 0644);
    if (fd < 0) {
      ec = boost::system::error_code(errno, boost::system::system_category());
      return;
    }
    ec = {};
    st_ = std::make_shared<handle>(fd);
  }
  bool is_open() const noexcept { return bool(st_); }
  void close(boost::system::error_code& ec)
  {
    ec = {};
    st_.reset();
  }
  void close() { st_.reset(); }
  int native_handle() { return st_ ? st_->fd : -1; }
  std::uint64_t size(boost::system::error_code& ec) const
  {
    struct ::stat s;
    if (!st_ || ::fstat(st_->fd, &s) != 0) {
      ec = boost::system::error_code(st_ ? errno : EBADF, boost::system::system_category());
      return 0;
    }
    ec = {};
    return std::uint64_t(s.st_size);
  }
  std::uint64_t size() const
  {
    boost::system::error_code ec;
    auto n = size(ec);
    if (ec) throw boost::system::system_error(ec);
    return n;
  }
  std::uint64_t seek(std::int64_t off, seek_basis whence, boost::system::error_code& ec)
  {
    ++vh_file::g.seeks;
    auto r = ::lseek(st_ ? st_->fd : -1, off, whence == seek_set ? SEEK_SET : whence == seek_cur ? SEEK_CUR : SEEK_END);
    if (r < 0) {
      ec = boost::system::error_code(errno, boost::system::system_category());
      return 0;
    }
    ec = {};
    return std::uint64_t(r);
  }
  template <class Buffers, class Token>
  auto async_read_some(const Buffers& b, Token&& token)
  {
    return start<Buffers, false>(b, std::forward<Token>(token));
  }
  template <class Buffers, class Token>
  auto async_write_some(const Buffers& b, Token&& token)
  {
    return start<Buffers, true>(b, std::forward<Token>(token));
  }

private:
  struct handle {
    int fd;
    std::atomic<int> busy { 0 };
    explicit handle(int f)
        : fd(f)
    {
      ++vh_file::g.open;
    }
    ~handle()
    {
      ::close(fd);
      --vh_file::g.open;
    }
  };
  template <class Buffers, bool Write, class Token>
  auto start(const Buffers& b, Token&& token)
  {
    return async_initiate<Token, void(boost::system::error_code, std::size_t)>(
        [ex = ex_, st = st_](auto handler, Buffers bufs) {
          using H = decltype(handler);
          auto shared = std::make_shared<H>(std::move(handler));
          auto work = boost::asio::get_associated_executor(*shared, ex);
          auto pos = st ? std::uint64_t(::lseek(st->fd, 0, SEEK_CUR)) : 0;
          auto plan = vh_file::g.ask(Write, pos, boost::asio::buffer_size(bufs));
          if (st && st->busy.fetch_add(1) != 0) ++vh_file::g.concurrent;
          auto finish = [st, shared, bufs, plan]() mutable {
            boost::system::error_code ec;
            std::size_t n = 0;
            if (!st) ec = boost::system::error_code(EBADF, boost::system::system_category());
            else if (plan.error) {
              ++vh_file::g.errors;
              ec = boost::system::error_code(plan.error, boost::system::system_category());
            } else {
              auto it = boost::asio::buffer_sequence_begin(bufs);
              auto end = boost::asio::buffer_sequence_end(bufs);
              while (it != end && it->size() == 0) ++it;
              if (it != end) {
                auto most = std::min(it->size(), plan.most);
                if (most < it->size()) ++vh_file::g.shorts;
                ssize_t r;
                if constexpr (Write) r = ::write(st->fd, it->data(), most);
                else r = ::read(st->fd, it->data(), most);
                ++vh_file::g.reads;
                if (r < 0) ec = boost::system::error_code(errno, boost::system::system_category());
                else if (r == 0 && !Write) ec = boost::asio::error::eof;
                else n = std::size_t(r);
              }
            }
            if (st) --st->busy;
            auto h = std::move(*shared);
            shared.reset();
            std::move(h)(ec, n);
          };
          if (plan.delay_us) {
            auto t = std::make_shared<steady_timer>(ex, std::chrono::microseconds(plan.delay_us));
            t->async_wait([t, work, finish](boost::system::error_code) mutable { boost::asio::post(work, std::move(finish)); });
          } else boost::asio::post(work, std::move(finish));
        },
        token, b);
  }

  executor_type ex_;
  std::shared_ptr<handle> st_;
};

} // namespace asio
} // namespace boost
