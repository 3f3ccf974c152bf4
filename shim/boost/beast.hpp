// Overlay for Boost 1.83: with Boost < 1.85 the unqualified call
// async_read(stream, buffer, parser, token) prefers boost::asio::async_read
// (its completion condition is unconstrained there) over Beast's; this more
// specialised overload restores what Boost >= 1.85 does.
#pragma once
#include_next <boost/beast.hpp>
#include <boost/version.hpp>
#if BOOST_VERSION < 108500
namespace boost::beast::http {
template <class AsyncReadStream, class DynamicBuffer, bool isRequest,
          class Body, class Allocator, class ReadHandler>
auto async_read(AsyncReadStream& stream, DynamicBuffer& buffer,
                parser<isRequest, Body, Allocator>& p, ReadHandler&& handler)
{
  return async_read(stream, buffer, static_cast<basic_parser<isRequest>&>(p),
                    static_cast<ReadHandler&&>(handler));
}
}
#endif
