// Verification shim: the part of Boost.System that the library under test uses.
#ifndef VP_SHIM_ERROR_CODE_HPP
#define VP_SHIM_ERROR_CODE_HPP
#include <cerrno>
#include <string>
namespace boost { namespace system {
namespace errc {
enum errc_t {
    success = 0, operation_not_permitted = EPERM, no_such_process = ESRCH, interrupted = EINTR, io_error = EIO,
    resource_unavailable_try_again = EAGAIN, not_enough_memory = ENOMEM, permission_denied = EACCES,
    device_or_resource_busy = EBUSY, invalid_argument = EINVAL, no_space_on_device = ENOSPC,
    resource_deadlock_would_occur = EDEADLK, function_not_supported = ENOSYS, value_too_large = EOVERFLOW,
    not_supported = ENOTSUP, timed_out = ETIMEDOUT, result_out_of_range = ERANGE, owner_dead = EOWNERDEAD,
    state_not_recoverable = ENOTRECOVERABLE, operation_canceled = ECANCELED, argument_out_of_domain = EDOM,
    bad_address = EFAULT, operation_would_block = EWOULDBLOCK, too_many_files_open = EMFILE
};
}
class error_category { public: int id; constexpr explicit error_category(int i) : id(i) {} 
  bool operator==(error_category const& o) const { return this == &o; } bool operator!=(error_category const& o) const { return this != &o; }
  const char* name() const noexcept { return ""; } };
namespace detail { template<int N> struct cat { static const error_category value; }; template<int N> const error_category cat<N>::value(N); }
inline error_category const& system_category() noexcept { return detail::cat<1>::value; }
inline error_category const& generic_category() noexcept { return detail::cat<2>::value; }
class error_code {
    int v; const error_category* c;
public:
    error_code() noexcept : v(0), c(&system_category()) {}
    error_code(int i, error_category const& cat) noexcept : v(i), c(&cat) {}
    error_code(errc::errc_t e) noexcept : v(e), c(&generic_category()) {}
    int value() const noexcept { return v; }
    error_category const& category() const noexcept { return *c; }
    void assign(int i, error_category const& cat) noexcept { v = i; c = &cat; }
    void clear() noexcept { v = 0; c = &system_category(); }
    bool failed() const noexcept { return v != 0; }
    explicit operator bool() const noexcept { return v != 0; }
    friend bool operator==(error_code const& a, error_code const& b) { return a.v == b.v && a.c == b.c; }
    friend bool operator!=(error_code const& a, error_code const& b) { return !(a == b); }
};
typedef error_code error_condition;
namespace errc { inline error_code make_error_code(errc_t e) { return error_code(e, generic_category()); } }
inline error_code& throws() { static error_code* p = 0; return *p; }
} inline system::error_code& throws() { return system::throws(); } namespace system {
}}
#define BOOST_SYSTEM_NOEXCEPT noexcept
#endif
