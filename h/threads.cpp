#include "threads.h"

#include <memory>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace vf {

std::atomic<unsigned> delayRate(0);

namespace {

std::atomic<uint64_t> ticket(0);
thread_local uint64_t delayState = 0;   // 0: a thread that's never delayed.

void nap(unsigned us) { timespec t = { 0, long(us) * 1000 }; nanosleep(&t, nullptr); }

void delay()
{
    if (!delayState) return;
    unsigned rate = delayRate.load(std::memory_order_relaxed);
    if (!rate) return;
    delayState ^= delayState << 13; delayState ^= delayState >> 7; delayState ^= delayState << 17;
    if ((delayState >> 20) % rate) return;
    if ((delayState >> 40) % 3) sched_yield();
    else nap(1 + (delayState >> 50) % 200);
}

// Is the thread waiting for something?
bool blocked(int tid)
{
    char path[64], buf[512];
    snprintf(path, sizeof path, "/proc/self/task/%d/stat", tid);
    FILE* f = fopen(path, "r");
    if (!f) return false;
    size_t n = fread(buf, 1, sizeof buf - 1, f);
    fclose(f);
    buf[n] = 0;
    char* p = strrchr(buf, ')');
    return p && p[1] == ' ' && p[2] == 'S';
}

} // namespace

void Worker::op(uint64_t id, const std::string& desc)
{
    order.emplace_back(ticket.fetch_add(1, std::memory_order_relaxed), id);
    now = desc;
}

void threads(int n, Rng& rng, const std::function<void(Worker&)>& fn)
{
    // Left alone should the threads be stuck.
    auto& ws = *new std::vector<std::unique_ptr<Worker> >;
    std::vector<std::thread> ts;
    std::atomic<int>* tids = new std::atomic<int>[n];
    std::atomic<int> ready(0), ended(0);
    for (int i = 0; i < n; ++i) {
        tids[i] = 0;
        ws.emplace_back(new Worker);
        ws[i]->index = i;
        ws[i]->rng.s = rng.next();
    }
    for (int i = 0; i < n; ++i) {
        Worker* w = ws[i].get();
        std::atomic<int>* tid = &tids[i];
        uint64_t state = rng.next() | 1;
        ts.emplace_back([=, &fn, &ready, &ended] {
            *tid = int(syscall(SYS_gettid));
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < n) sched_yield();
            delayState = state;
            try { fn(*w); }
            catch (const reflect::Error& e) { w->fail("unexpected-error", std::string("unexpected reflect error: ") + e.what()); }
            catch (const std::exception& e) { w->fail("unexpected-exception", std::string("unexpected exception: ") + e.what()); }
            delayState = 0;
            ended.fetch_add(1, std::memory_order_relaxed);
            *tid = -1;
        });
    }

    // A deadlock: no thread has taken a step for long and all those left are waiting all along.
    uint64_t last = 0;
    int still = 0, lastEnded = 0;
    while (ended.load(std::memory_order_relaxed) < n) {
        nap(still > 40 ? 50000 : 500);
        uint64_t t = ticket.load(std::memory_order_relaxed);
        int e = ended.load(std::memory_order_relaxed);
        bool waiting = t == last && e == lastEnded;
        last = t;
        lastEnded = e;
        for (int i = 0; waiting && i < n; ++i) {
            int id = tids[i].load(std::memory_order_relaxed);
            if (id > 0) waiting = blocked(id);
        }
        still = waiting ? still + 1 : 0;
        if (still > 40 + 100) {     // five seconds.
            std::string msg;
            for (int i = 0; i < n; ++i) if (tids[i] > 0) msg += VF_STR(" thread " << i << " is stuck");
            for (auto& t : ts) t.detach();
            fail("deadlock", msg);
        }
    }
    for (auto& t : ts) t.join();

    std::vector<std::pair<uint64_t, uint64_t> > all;
    std::vector<std::pair<std::string, std::string> > fails;
    for (auto& w : ws) {
        for (auto& o : w->order) all.emplace_back(o.first, o.second * 16 + w->index);
        for (auto& e : w->events) event(e.first.c_str(), e.second);
        fails.insert(fails.end(), w->fails.begin(), w->fails.end());
    }
    std::sort(all.begin(), all.end());
    uint64_t h = n, switches = 0;
    for (size_t i = 0; i < all.size(); ++i) {
        h = mix(h, all[i].second);
        if (i && all[i].second % 16 != all[i - 1].second % 16) switches++;
    }
    distinct(h);
    event("operations", all.size());
    event("switches between threads", switches);
    event("threads", n);
    for (size_t i = 0; i < fails.size(); ++i) fail(fails[i].first, fails[i].second, i + 1 == fails.size());
}

} // namespace vf

// Linked with --wrap.
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
void* __real__Znwm(size_t);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { vf::delay(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); vf::delay(); return r; }
void* __wrap__Znwm(size_t n) { vf::delay(); return __real__Znwm(n); }
}
