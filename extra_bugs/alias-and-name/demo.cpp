#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json.h"
#include <cstdio>
#include <sstream>
#include <iostream>
using namespace reflect;
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); return 1; } } while (0)
template<typename Fn> bool fails(Fn fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }

struct T { int64_t a = 1, b = 2; };
reflectType(T) { reflectPlumbing(); reflectField(a); reflectField(b); reflectFieldValue(a, json, json::alias("z")); }
int main() {
    T t;
    CHECK(!json::parse("{\"a\": 5, \"b\": 6, \"z\": 7, \"a\": 8}", t));
    CHECK(t.b == 6);
    CHECK(t.a == 7);
}
