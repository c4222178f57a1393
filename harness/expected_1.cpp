#define PART 1
#include "expected.hpp"
