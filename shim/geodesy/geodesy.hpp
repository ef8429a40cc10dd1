#include "geodesy/units.hpp"
