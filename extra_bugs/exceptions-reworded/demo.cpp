#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json.h"
#include <cstdio>
#include <sstream>
#include <iostream>
using namespace reflect;
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); return 1; } } while (0)
template<typename Fn> bool fails(Fn fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }

struct Mine : public std::runtime_error { int code; Mine() : std::runtime_error("mine"), code(7) {} };
struct T { int f(int x) { if (x) throw Mine(); return 1; } };
reflectType(T) { reflectPlumbing(); reflectFn(f); }
int main() {
    T t; Value v(t);
    CHECK(v.call<int>("f", 0) == 1);
    int code = 0;
    try { v.call<int>("f", 1); } catch (const Mine& m) { code = m.code; } catch (...) {}
    CHECK(code == 7);
}
