#include <highfive/H5File.hpp>
