#include "calls.h"
namespace calls {
#define CALLS_C(n) case n: return std::make_unique<SourceOf<V##n>>();
template<> std::unique_ptr<Source> make_source_group<GROUP>(int v)
{
    switch (v)
    {
#if GROUP == 0
    CALLS_C(0) CALLS_C(1) CALLS_C(2) CALLS_C(3)
#elif GROUP == 1
    CALLS_C(4) CALLS_C(5) CALLS_C(6)
#elif GROUP == 2
    CALLS_C(7) CALLS_C(8) CALLS_C(9)
#else
    CALLS_C(10) CALLS_C(11) CALLS_C(12)
#endif
    }
    return nullptr;
}
} // namespace calls
