// Shared plumbing of the harnesses: random numbers, reporting, forked scenarios.
#pragma once

#include "reflect.h"
#include "dsl/all.h"

#include <algorithm>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <sstream>
#include <vector>
#include <functional>

namespace vf {

/******************************************************************************/
/* RNG                                                                        */
/******************************************************************************/

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}

    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // [a, b]
    int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a) + 1)); }
    bool chance(unsigned percent) { return below(100) < percent; }
    template<typename C> auto pick(C& c) -> decltype(c[0]) { return c[below(c.size())]; }
    template<typename T> void shuffle(std::vector<T>& v)
    {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    Rng r(h ^ (v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2)));
    return r.next();
}
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ULL)
{
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

/******************************************************************************/
/* REPORT                                                                     */
/******************************************************************************/

struct Stop {}; // ends the current case after a failure. Not a std::exception on purpose.

// Records that the property is broken. Doesn't return normally when stop is set.
void fail(const std::string& key, const std::string& msg, bool stop = true);
bool failed(); // did the current case fail?

// Something was observed by a monitor.
void event(const char* name, uint64_t n = 1);
// A distinct non-trivial thing was exercised.
void distinct(uint64_t h);
inline void distinct(const std::string& s) { distinct(hash(s)); }
// One more trivial thing was exercised.
void trivial();
// A written out case (only the first few are kept).
void sample(const std::string& s);
// Description of the current case, shown along failures.
void describe(const std::string& s);

#define VF_STR(x) (static_cast<std::ostringstream&&>(std::ostringstream() << std::boolalpha << x).str())
#define VF_CHECK(cond, key, msg)                                        \
    do { if (!(cond)) ::vf::fail(key, VF_STR(msg << " [" #cond "] line " << __LINE__)); } while (0)
#define VF_EQ(a, b, key, msg)                                           \
    do {                                                                \
        auto a_ = (a); auto b_ = (b);                                   \
        if (!(a_ == b_))                                                \
            ::vf::fail(key, VF_STR(msg << ": got <" << a_ << ">, expected <" << b_ << "> line " << __LINE__)); \
    } while (0)

// Runs fn and returns whether a reflect::Error was raised; anything else propagates.
template<typename Fn>
bool raises(const Fn& fn, std::string* what = nullptr)
{
    try { fn(); return false; }
    catch (const reflect::Error& e) { if (what) *what = e.what(); event("errors raised"); return true; }
}

std::string quote(const std::string& s);
std::string join(const std::vector<std::string>& v);

/******************************************************************************/
/* FORK                                                                       */
/******************************************************************************/

// Runs fn in a forked child whose failures and events are those of this case. A child that
// crashes (sanitizer report, signal, uncaught exception) or hangs is a failure of the case whose key starts
// with the prefix.
void forked(const std::string& prefix, const std::function<void()>& fn, unsigned timeoutSec = 60);

// True when running under valgrind.
bool underValgrind();

bool thorough();

/******************************************************************************/
/* HARNESS INTERFACE                                                          */
/******************************************************************************/

struct Harness
{
    const char* name;
    void (*run)(uint64_t idx, Rng& rng);  // one case.
    void (*init)();                       // once per process, may be null.
    void (*finish)();                     // once per process, may be null.
};

} // namespace vf

extern const vf::Harness harness;
