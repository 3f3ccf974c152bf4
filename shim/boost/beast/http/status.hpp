// Overlay for Boost 1.83: adds the two status codes (103, 425) newer Beast has.
#ifndef VERIF_SHIM_BEAST_STATUS
#define VERIF_SHIM_BEAST_STATUS
#include <boost/version.hpp>
#if BOOST_VERSION < 108500
#include <boost/beast/core/detail/config.hpp>
#define BOOST_BEAST_HTTP_IMPL_STATUS_IPP
#define processing early_hints = 103, processing
#define upgrade_required too_early = 425, upgrade_required
#include_next <boost/beast/http/status.hpp>
#undef processing
#undef upgrade_required
#undef BOOST_BEAST_HTTP_IMPL_STATUS_IPP
#include <boost/beast/http/impl/status.ipp>
#else
#include_next <boost/beast/http/status.hpp>
#endif
#endif
