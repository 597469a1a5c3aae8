#define DEFS_GROUP 1
#include "defs.h"

namespace defs {
template<int G, typename D> bool define_class(Env &e, D &d, Cursor &c, int i, std::string const &name)
{
    if (i == G) into_class<K<G>>(e, d, c, name);
    else into_class<K<G + GROUPS>>(e, d, c, name);
    return true;
}
template bool define_class<GROUP, D0>(Env &, D0 &, Cursor &, int, std::string const &);
template bool define_class<GROUP, D1>(Env &, D1 &, Cursor &, int, std::string const &);
template bool define_class<GROUP, D2>(Env &, D2 &, Cursor &, int, std::string const &);
template bool define_class<GROUP, D3>(Env &, D3 &, Cursor &, int, std::string const &);
} // namespace defs
