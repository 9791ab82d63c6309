#include "c05.h"
namespace v5 {
void cases3(std::vector<Case>& o)
{
    casesOf<A*, A*, B*>(o);
    casesOf<std::shared_ptr<A>, std::shared_ptr<A>, std::shared_ptr<B> >(o);
    cases<NC&, NC, U>(o);
    cases<const NC&, NC>(o);
    cases<NC&&, NC>(o);
}
}
