#include "convhist.h"
namespace ch {
#if GROUP == 6
using From = Num;
#else
using From = CT<GROUP>;
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(add_conv_, GROUP)(std::vector<TOps> &t, std::vector<POps> &p)
{
    using O = TypeOf<From>;
    t.push_back(TOps{From::index, O::make, O::del, O::read, O::put, O::holds, O::enter, O::id});
    p.push_back(PairOf<From, CT<0>>::make());
    p.push_back(PairOf<From, CT<1>>::make());
    p.push_back(PairOf<From, CT<2>>::make());
    p.push_back(PairOf<From, CT<3>>::make());
    p.push_back(PairOf<From, CT<4>>::make());
    p.push_back(PairOf<From, CT<5>>::make());
    p.push_back(PairOf<From, Num>::make());
}
}
