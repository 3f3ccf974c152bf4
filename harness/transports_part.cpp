// one binding of the server per translation unit: each instantiates the whole
// session for its stream, and they compile in parallel
#include <fitoria/web.hpp>

namespace parts {
#if PART == 1
bool bind_tcp(const fitoria::web::http_server& s, std::string_view a, std::uint16_t p) { return bool(s.bind(a, p)); }
#elif PART == 2
bool bind_tls(const fitoria::web::http_server& s, std::string_view a, std::uint16_t p, fitoria::net::ssl::context& c) { return bool(s.bind(a, p, c)); }
#else
bool bind_tls_local(const fitoria::web::http_server& s, std::string_view f, fitoria::net::ssl::context& c) { return bool(s.bind_local(f, c)); }
#endif
}
