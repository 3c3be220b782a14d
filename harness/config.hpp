// configuration of the code under test, common to all harnesses
#ifndef VP_CONFIG_HPP
#define VP_CONFIG_HPP
#include <boost/assert.hpp>
#endif
