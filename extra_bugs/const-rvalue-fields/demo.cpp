#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json.h"
#include <cstdio>
#include <sstream>
#include <iostream>
using namespace reflect;
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); return 1; } } while (0)
template<typename Fn> bool fails(Fn fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }

struct T { int a; T() : a(1) {} };
reflectType(T) { reflectPlumbing(); reflectField(a); }
int main() {
    T t;
    Value v = Value(t).toConst();
    CHECK(v.field("a").isConst());
    CHECK(fails([&] { v.field("a").assign(2); }));
    CHECK(t.a == 1);
    const T c{};
    CHECK(Value(c).field("a").isConst());
}
