#include "c12.h"
namespace c12 {
void maps1(Rng& r) { switch (r.below(3)) { case 0: maps<std::map<std::string, int> >(r); break; case 1: maps<std::map<int, std::string> >(r); break;
    default: maps<std::map<std::string, vt::A> >(r); } }
}
