#include "jtm.h"
namespace jt {
std::unique_ptr<Target> make2(size_t i)
{
    typedef std::unique_ptr<Target> P;
    switch (i) {
    case 0: return P(new TargetT<bool>("bool"));
    case 1: return P(new TargetT<int64_t>("int64_t"));
    case 2: return P(new TargetT<double>("double"));
    case 3: return P(new TargetT<std::string>("string"));
    case 4: return P(new TargetT<Leaf>("Leaf"));
    case 5: return P(new TargetT<Custom>("Custom"));
    case 6: return P(new TargetT<Empty>("Empty"));
    default: return P(new TargetT<Derived>("Derived"));
    }
}
std::unique_ptr<Target> make3(size_t i)
{
    typedef std::unique_ptr<Target> P;
    switch (i) {
    case 0: return P(new TargetT<std::vector<int64_t> >("vector<int64_t>"));
    case 1: return P(new TargetT<std::vector<std::vector<std::string> > >("vector<vector<string>>"));
    case 2: return P(new TargetT<std::map<std::string, Leaf> >("map<string,Leaf>"));
    case 3: return P(new TargetT<std::unordered_map<std::string, std::string> >("unordered_map<string,string>"));
    case 4: return P(new TargetT<std::map<std::string, std::vector<double> > >("map<string,vector<double>>"));
    case 5: return P(new TargetT<std::shared_ptr<Leaf> >("shared_ptr<Leaf>"));
    case 6: return P(new TargetT<Leaf*>("Leaf*"));
    default: return P(new TargetT<std::map<std::string, std::map<std::string, bool> > >("map<string,map<string,bool>>"));
    }
}
}
