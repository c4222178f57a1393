#define PART 2
#include "expected.hpp"
