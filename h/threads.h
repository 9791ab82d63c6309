// Scenarios of several threads in a forked process: barrier, delays, order of operations, deadlock detection.
#pragma once

#include "common.h"
#include <atomic>
#include <thread>

namespace vf {

// What a thread did; only looked at by others once it ended.
struct Worker
{
    int index;
    Rng rng;
    std::vector<std::pair<std::string, std::string> > fails;
    std::map<std::string, uint64_t> events;
    std::vector<std::pair<uint64_t, uint64_t> > order;  // ticket, operation.
    std::string now;

    Worker() : index(0) {}
    void event(const char* name, uint64_t n = 1) { events[name] += n; }
    void fail(const std::string& key, const std::string& msg) { fails.emplace_back(key, msg + " | thread " + std::to_string(index) + ": " + now); }
    // Start of an operation.
    void op(uint64_t id, const std::string& desc);
    template<typename Fn> bool raises(const Fn& fn, std::string* what = nullptr)
    {
        try { fn(); return false; }
        catch (const reflect::Error& e) { if (what) *what = e.what(); event("errors raised"); return true; }
    }
};

#define VF_TCHECK(w, cond, key, msg) do { if (!(cond)) (w).fail(key, VF_STR(msg << " [" #cond "] line " << __LINE__)); } while (0)
#define VF_TEQ(w, a, b, key, msg)                                       \
    do {                                                                \
        auto a_ = (a); auto b_ = (b);                                   \
        if (!(a_ == b_)) (w).fail(key, VF_STR(msg << ": got <" << a_ << ">, expected <" << b_ << "> line " << __LINE__)); \
    } while (0)

// Runs fn in n threads at once (call it in a forked process), reports what they found, and
// counts the order of their operations as a distinct interleaving.
void threads(int n, Rng& rng, const std::function<void(Worker&)>& fn);

// How often threads are delayed where they take locks and memory: one in so many, 0 for never.
extern std::atomic<unsigned> delayRate;

} // namespace vf
