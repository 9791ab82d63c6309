#include "c05.h"
namespace v5 {
void cases2(std::vector<Case>& o)
{
    casesOf<A, A, B, C, Cv, U>(o);
    casesOf<B, B, C, A>(o);
}
}
