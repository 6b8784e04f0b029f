#include "vcg.h"
#include "steering_functions/utilities/utilities.hpp"
using namespace steering;
DRIVER vp_fresnel() { double s, c; fresnel(RV("s"), s, c); OUT("S", s); OUT("C", c); }
