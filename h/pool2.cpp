#include "pool.h"
using namespace vt;
using reflect::Value;
namespace vp {
void addPool2(std::vector<Entry>& out)
{
    addRefs<Cv>(out);
    addRefs<CvB>(out);
    addRefs<std::string>(out);
    addRefs<A*>(out);
    addRefs<B*>(out);
    addRefs<std::shared_ptr<A> >(out);
    addRets<int>(out);
    addRets<A>(out);
    addRets<B>(out);
    addRets<std::string>(out);
}
} // namespace vp
