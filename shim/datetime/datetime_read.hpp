#include "datetime/dtfund.hpp"
