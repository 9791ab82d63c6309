#include "c12.h"
namespace c12 {
void vectors2(Rng& r) { switch (r.below(4)) { case 0: vectors<std::vector<int> >(r); break; case 1: vectors<std::shared_ptr<vt::A> >(r); break;
    case 2: vectors<std::map<std::string, int> >(r); break; default: vectors<double>(r); } }
}
