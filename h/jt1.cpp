#include "jtm.h"
namespace jt {
std::unique_ptr<Target> make1(size_t i)
{
    typedef std::unique_ptr<Target> P;
    switch (i) {
    case 0: return P(new TargetT<Node>("Node"));
    case 1: return P(new TargetT<Top>("Top"));
    default: return P(new TargetT<std::vector<Node> >("vector<Node>"));
    }
}
}
