#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json.h"
#include <cstdio>
#include <sstream>
#include <iostream>
using namespace reflect;
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); return 1; } } while (0)
template<typename Fn> bool fails(Fn fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }

static int live = 0;
struct T { int64_t v = 0; T() { live++; } T(const T&) { live++; } ~T() { live--; } };
reflectType(T) { reflectPlumbing(); reflectAllocPlumbing(); reflectField(v); }
int main() {
    {
        std::shared_ptr<T> p;
        CHECK(json::parse("{\"v\": 1, \"v\": }", p));
    }
    CHECK(live == 0);
}
