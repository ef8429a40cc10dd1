#include "ggeodesy/units.hpp"
