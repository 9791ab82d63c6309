#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json.h"
#include <cstdio>
#include <sstream>
#include <iostream>
using namespace reflect;
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); return 1; } } while (0)
template<typename Fn> bool fails(Fn fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }

int main() {
    std::ostringstream s;
    json::Writer w(s);
    json::printArray(w, 3, [&](size_t i) { json::printInt(w, int64_t(i)); }, [](size_t i) { return i == 0; });
    CHECK(s.str() == "[1,2]");
}
