#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json.h"
#include <cstdio>
#include <sstream>
#include <iostream>
using namespace reflect;
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); return 1; } } while (0)
template<typename Fn> bool fails(Fn fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }

struct Boom {
    static int alive; static int fuse;
    int v;
    static void step() { if (fuse && !--fuse) throw 42; }
    Boom(int v = 0) : v(v) { step(); alive++; }
    Boom(const Boom& o) : v(o.v) { step(); alive++; }
    Boom(Boom&& o) : v(o.v) { step(); alive++; o.v = -1; }
    Boom& operator=(const Boom& o) { step(); v = o.v; return *this; }
    int get() const { step(); return v; }
    ~Boom() { alive--; }
};
int Boom::alive = 0; int Boom::fuse = 0;
template<typename Fn> int caught(Fn fn) { try { fn(); } catch (int x) { return x; } catch (...) { return -1; } return 0; }

reflectType(Boom) { reflectPlumbing(); reflectFn(get); }
int main() {
    Value v{Boom(7)};
    Boom::fuse = 1;
    CHECK(caught([&] { v.move(); }) == 42);
    Boom::fuse = 0;
    Function f("f", +[](Boom b) { return b.v; });
    CHECK(f.call<int>(v) == 7);
    CHECK(f.call<int>(v) == 7);
}
