#include "c12.h"
namespace c12 {
void vectors1(Rng& r) { switch (r.below(3)) { case 0: vectors<int>(r); break; case 1: vectors<std::string>(r); break; default: vectors<vt::A>(r); } }
}
