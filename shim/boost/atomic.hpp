#ifndef VP_SHIM_ATOMIC_HPP
#define VP_SHIM_ATOMIC_HPP
#include <boost/atomic/atomic.hpp>
#include <boost/atomic/atomic_flag.hpp>
#include <boost/atomic/fences.hpp>
#endif
