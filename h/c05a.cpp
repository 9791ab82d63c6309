#include "c05.h"
namespace v5 {
void cases1(std::vector<Case>& o)
{
    casesOf<int, int, Cv, std::string>(o);
    casesOf<std::string, std::string, int>(o);
}
}
