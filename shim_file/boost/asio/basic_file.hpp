// stand-in, see basic_stream_file.hpp
#pragma once
