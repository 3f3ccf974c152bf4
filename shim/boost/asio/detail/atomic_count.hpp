// ThreadSanitizer does not model std::atomic_thread_fence, which asio's
// reference counts use: without this, deleting the last reference is reported
// as a race. Only in effect for TSan builds; otherwise the installed header.
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VH_TSAN_ATOMIC_COUNT 1
#endif
#endif
#ifndef VH_TSAN_ATOMIC_COUNT
#include_next <boost/asio/detail/atomic_count.hpp>
#elif !defined(BOOST_ASIO_DETAIL_ATOMIC_COUNT_HPP)
#define BOOST_ASIO_DETAIL_ATOMIC_COUNT_HPP
#include <boost/asio/detail/config.hpp>
#include <atomic>
namespace boost::asio::detail {
typedef std::atomic<long> atomic_count;
inline void increment(atomic_count& a, long b) { a += b; }
inline void decrement(atomic_count& a, long b) { a -= b; }
inline void ref_count_up(atomic_count& a) { a.fetch_add(1, std::memory_order_relaxed); }
inline bool ref_count_down(atomic_count& a) { return a.fetch_sub(1, std::memory_order_acq_rel) == 1; }
}
#endif
