// Types whose descriptions count themselves, for C01 and C02.
#pragma once

#include "types.h"
#include <atomic>

namespace c01 {

enum { TPlain, TBase, TMid, TLeaf, TCycA, TCycB, TSelf, TFunc, TLone, TConv, TOver, TBoxPlain, TBoxBoxLone, TBoxCycA, TBoxLone, TNested, TypeCount };

struct Count { std::atomic<int> begun, ended; };
extern Count counts[TypeCount];
int indexOf(const std::string& id);     // -1 if it isn't one of these.

struct Plain { int x; double y; int get() const { return x; } };
struct Base { int b; int base() const { return b; } };
struct Mid : public Base { int m; };
struct Leaf : public Mid { int l; std::string s; };
struct CycB;
struct CycA { CycB* b; std::vector<CycA> kids; int v; };
struct CycB { std::shared_ptr<CycA> a; std::map<std::string, CycB> byName; CycA* back; int v; };
struct Self { Self* next; std::vector<Self*> all; std::shared_ptr<Self> shared; };
struct Lone { int v; };
struct Func { Lone make(const Plain& p, int x) const { return Lone{ p.x + x }; } void take(Leaf& l) { l.l = 1; } };
struct Conv { int v; operator Lone() const { return Lone{ v }; } };
struct Over { int v; };
template<typename T> struct Box { T v; T& get() { return v; } };
namespace inner { namespace deep { struct Nested { Plain p; std::unordered_map<int, std::vector<Leaf> > m; }; } }

// Counts a description from its beginning to its end.
struct Describing
{
    int i;
    explicit Describing(const reflect::Type* t) : i(indexOf(t->id())) { if (i >= 0) counts[i].begun.fetch_add(1, std::memory_order_relaxed); }
    ~Describing() { if (i >= 0) counts[i].ended.fetch_add(1, std::memory_order_relaxed); }
};
// Makes it likely that descriptions overlap those of other threads.
extern std::atomic<int> slow;
void stall();

// What a complete description has.
struct Expected { const char* id; bool isTemplate; std::vector<std::string> fields, functions, deps; std::vector<std::string> aliases; };
const std::vector<Expected>& expected();

// All the ways of looking up a type; by name only if byName.
const reflect::Type* lookup(int type, int way, bool& byName);
enum { Ways = 16 };

} // namespace c01

reflectTypeDecl(c01::Plain)
reflectTypeDecl(c01::Base)
reflectTypeDecl(c01::Mid)
reflectTypeDecl(c01::Leaf)
reflectTypeDecl(c01::CycA)
reflectTypeDecl(c01::CycB)
reflectTypeDecl(c01::Self)
reflectTypeDecl(c01::Lone)
reflectTypeDecl(c01::Func)
reflectTypeDecl(c01::Conv)
reflectTypeDecl(c01::Over)
reflectTypeDecl(c01::inner::deep::Nested)
reflectTemplate(c01::Box, T) { c01::Describing d(type_); c01::stall(); reflectPlumbing(); reflectField(v); c01::stall(); reflectFn(get); }
