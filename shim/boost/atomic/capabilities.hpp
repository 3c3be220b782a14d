#include <boost/atomic/atomic.hpp>
