#include "../matvec/matvec.hpp"
