// Verification shim: Boost.ThrowException reduced to a plain throw (no wrapexcept multiple inheritance).
#ifndef VP_SHIM_THROW_EXCEPTION_HPP
#define VP_SHIM_THROW_EXCEPTION_HPP
#include <boost/config.hpp>
#include <boost/assert/source_location.hpp>
#include <exception>
namespace boost {
template <class E> BOOST_NORETURN void throw_exception(E const& e) { throw e; }
template <class E> BOOST_NORETURN void throw_exception(E const& e, boost::source_location const&) { throw e; }
template <class E> BOOST_NORETURN void throw_with_location(E const& e, boost::source_location const& = boost::source_location()) { throw e; }
}
#define BOOST_THROW_EXCEPTION(x) ::boost::throw_exception(x)
#endif
