// Verification shim: boost::system::system_error without message formatting.
#ifndef VP_SHIM_SYSTEM_ERROR_HPP
#define VP_SHIM_SYSTEM_ERROR_HPP
#include <exception>
#include <boost/system/error_code.hpp>
namespace boost { namespace system {
class system_error : public std::exception {
    error_code m_code;
public:
    system_error(error_code const& ec) : m_code(ec) {}
    system_error(error_code const& ec, const char*) : m_code(ec) {}
    system_error(error_code const& ec, std::string const&) : m_code(ec) {}
    system_error(int ev, error_category const& cat) : m_code(ev, cat) {}
    system_error(int ev, error_category const& cat, const char*) : m_code(ev, cat) {}
    system_error(int ev, error_category const& cat, std::string const&) : m_code(ev, cat) {}
    ~system_error() noexcept {}
    error_code code() const noexcept { return m_code; }
    const char* what() const noexcept { return ""; }
};
}}
#endif
