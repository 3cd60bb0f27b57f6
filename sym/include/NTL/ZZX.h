#include "../sx_ntl.h"
