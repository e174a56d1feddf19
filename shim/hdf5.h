// shim
#include <highfive/H5File.hpp>
