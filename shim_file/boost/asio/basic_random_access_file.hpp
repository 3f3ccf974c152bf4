// stand-in, see basic_stream_file.hpp
#pragma once
#include <boost/asio/any_io_executor.hpp>
namespace boost { namespace asio {
template <class Executor = any_io_executor> class basic_random_access_file;
} }
