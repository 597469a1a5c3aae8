#include "kinds.h"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace kinds {
void CAT(add_group_, GROUP)(std::vector<Ops> &v)
{
#define X(...) v.push_back(OpsOf<__VA_ARGS__>::make(#__VA_ARGS__));
    CAT(RV_KINDS_, GROUP)(X)
#undef X
}
} // namespace kinds
