#include "vf_intrin.h"
