#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json.h"
#include <cstdio>
#include <sstream>
#include <iostream>
using namespace reflect;
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); return 1; } } while (0)
template<typename Fn> bool fails(Fn fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }

struct B { int v = 0; }; struct D : B {};
reflectType(B) { reflectPlumbing(); }
reflectType(D) { reflectParent(B); reflectPlumbing(); }
int main() {
    int ran = 0;
    Overloads o;
    o.add(Function("f", [&](const B&) { ran = 1; }));
    o.add(Function("f", [&](B) { ran = 2; }));
    o.add(Function("f", [&](D&) { ran = 3; }));
    D d;
    o.call<void>(d);
    CHECK(ran == 3);
}
