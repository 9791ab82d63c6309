#include "c12.h"
namespace c12 {
void maps2(Rng& r) { switch (r.below(3)) { case 0: maps<std::unordered_map<std::string, int> >(r); break;
    case 1: maps<std::unordered_map<int, vt::A> >(r); break; default: maps<std::map<int, std::shared_ptr<vt::A> > >(r); } }
void maps3(Rng& r) { if (r.chance(50)) maps<std::map<std::string, std::vector<int> > >(r); else maps<std::unordered_map<std::string, std::string> >(r); }
}
