#include "geodesy/units.hpp"
#include "geodesy/geodesy.hpp"
