#define PART 4
#include "expected.hpp"
