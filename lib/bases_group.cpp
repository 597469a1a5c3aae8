#include "bases.h"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(add_families_, GROUP)(std::vector<bases::Family> &out)
{ bases::group<GROUP>(out, std::make_integer_sequence<int, bases::PER_GROUP>{}); }
