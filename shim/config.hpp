#ifndef ARIADNE_CONFIG_HPP
#define ARIADNE_CONFIG_HPP
// Stand-in for the file that cmake generates from cmake/config.hpp.cmake.
#define SIZEOF_CHAR 1
#define SIZEOF_SHORT_INT 2
#define SIZEOF_INT 4
#define SIZEOF_LONG_INT 8
#define SIZEOF_LONG_LONG_INT 8
#define SIZEOF_FLOAT 4
#define SIZEOF_DOUBLE 8
#endif
