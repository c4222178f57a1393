#define PART 3
#include "expected.hpp"
