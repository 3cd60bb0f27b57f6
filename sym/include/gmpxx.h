#include "sx_gmp.h"
