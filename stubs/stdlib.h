#include "__vcg.h"
