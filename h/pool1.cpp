#include "pool.h"
using namespace vt;
using reflect::Value;
namespace vp {
void addPool1(std::vector<Entry>& out)
{
    addRefs<int>(out);
    addRefs<A>(out);
    addRefs<B>(out);
    addRefs<C>(out);
    addRefs<U>(out);
}
} // namespace vp
