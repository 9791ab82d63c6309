#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json.h"
#include <cstdio>
#include <sstream>
#include <iostream>
using namespace reflect;
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); return 1; } } while (0)
template<typename Fn> bool fails(Fn fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }

int main() {
    std::map<std::string, int64_t> m;
    auto err = json::parse(std::string("{\"a\": 1, \"b\": 2, \"a\": 3}"), m);
    CHECK(!err);
    CHECK(m.size() == 2 && m["a"] == 3 && m["b"] == 2);
    err = json::parse(std::string("{\"b\": 5}"), m);
    CHECK(!err && m["b"] == 5 && m["a"] == 3);
}
