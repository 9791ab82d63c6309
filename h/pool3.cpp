#include "pool.h"
using namespace vt;
using reflect::Value;
namespace vp {
void addPool3(std::vector<Entry>& out)
{
    out.push_back(MakeEntry<void()>::entry());
    out.push_back(MakeEntry<Value()>::entry());
    out.push_back(MakeEntry<A*()>::entry());
    out.push_back(MakeEntry<void(Value)>::entry());
    out.push_back(MakeEntry<int(int)>::entry());
    out.push_back(MakeEntry<A&(A&)>::entry());
    out.push_back(MakeEntry<const A&(const A&)>::entry());
    out.push_back(MakeEntry<A(B)>::entry());
    out.push_back(MakeEntry<void(int, int)>::entry());
    out.push_back(MakeEntry<void(int, A&)>::entry());
    out.push_back(MakeEntry<void(A&, int)>::entry());
    out.push_back(MakeEntry<void(const A&, int)>::entry());
    out.push_back(MakeEntry<void(const A&, const A&)>::entry());
    out.push_back(MakeEntry<void(A&, const B&)>::entry());
    out.push_back(MakeEntry<void(const B&, A&)>::entry());
    out.push_back(MakeEntry<void(A&&, B)>::entry());
    out.push_back(MakeEntry<void(const A&, A&&)>::entry());
    out.push_back(MakeEntry<void(A, A)>::entry());
    out.push_back(MakeEntry<void(B, A)>::entry());
    out.push_back(MakeEntry<void(B&, B&)>::entry());
    out.push_back(MakeEntry<void(C&, const A&)>::entry());
    out.push_back(MakeEntry<void(Value, int)>::entry());
    out.push_back(MakeEntry<void(int, Value)>::entry());
    out.push_back(MakeEntry<void(std::string, const A&)>::entry());
    out.push_back(MakeEntry<void(const std::string&, A)>::entry());
    out.push_back(MakeEntry<int(A, B, C)>::entry());
    out.push_back(MakeEntry<int(const A&, const A&, const A&)>::entry());
    out.push_back(MakeEntry<int(int, A&, std::string)>::entry());
    out.push_back(MakeEntry<void(A, A, A, A)>::entry());
    out.push_back(MakeEntry<void(const NC&, NM&)>::entry());
    out.push_back(MakeEntry<void(U&, double)>::entry());
}
} // namespace vp
