// One group of asked/held types (GROUP=0..6): accessors, holders and the expected answers of its held types.
#include "access.h"
namespace acc {
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define LIST CAT(ACC_, GROUP)
void CAT(add_acc_, GROUP)(std::vector<Acc> &v)
{
#define X(T) v.push_back(AccOf<T>::make(#T));
    LIST(X)
#undef X
}
void CAT(add_held_, GROUP)(std::vector<Held> &v)
{
#define X(T) v.push_back(HeldOf<T>::make(#T));
    LIST(X)
#undef X
}
template<typename S> void row(std::vector<std::vector<Expect>> &v)
{
    v.push_back({
#define X(T) expect<S, T>(),
        ACC_ALL(X)
#undef X
    });
}
void CAT(add_expect_, GROUP)(std::vector<std::vector<Expect>> &v)
{
#define X(T) row<T>(v);
    LIST(X)
#undef X
}
} // namespace acc
