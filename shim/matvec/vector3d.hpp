#include "matvec/matvec.hpp"
