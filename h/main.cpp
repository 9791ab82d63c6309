#include "common.h"

#include <cstdlib>
#include <csignal>
#include <cerrno>
#include <unordered_set>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>

#if defined(__SANITIZE_ADDRESS__)
#  include <sanitizer/lsan_interface.h>
#  define VF_LSAN 1
#elif defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    include <sanitizer/lsan_interface.h>
#    define VF_LSAN 1
#  endif
#endif

namespace vf {
namespace {

struct State
{
    std::map<std::string, uint64_t> events;
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    std::string desc;
    uint64_t idx = 0;
    uint64_t tried = 0; // calls of distinct().
    bool failed = false;
    int hangs = 0, crashes = 0;
    bool inChild = false;
    int childPipe = -1;
    FILE* out = nullptr;
    bool thorough = false;
    bool valgrind = false;
};
// Never destroyed: static destructors of other units may still report.
State& st() { static State* s = new State; return *s; }

std::string oneLine(std::string s)
{
    for (auto& c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' ';
    return s;
}

void writeAll(int fd, const std::string& s)
{
    size_t off = 0;
    while (off < s.size()) {
        ssize_t n = write(fd, s.data() + off, s.size() - off);
        if (n <= 0) { if (errno == EINTR) continue; return; }
        off += n;
    }
}

} // namespace

void fail(const std::string& key, const std::string& msg, bool stop)
{
    State& s = st();
    s.failed = true;
    std::string full = msg;
    if (!s.desc.empty()) full += " | case: " + s.desc;

    std::string rec = "FAIL\t" + oneLine(key) + "\t" + std::to_string(s.idx) + "\t" + oneLine(full.substr(0, 3000)) + "\n";
    if (s.inChild) writeAll(s.childPipe, rec);
    else { fputs(rec.c_str(), s.out); fflush(s.out); }
    if (stop) throw Stop();
}

bool failed() { return st().failed; }
void event(const char* name, uint64_t n) { st().events[name] += n; }
void sample(const std::string& x)
{
    State& s = st();
    if (s.samples.size() < 3) s.samples.push_back(x.substr(0, 1500));
}
void distinct(uint64_t h)
{
    State& s = st();
    s.tried++;
    if (s.seen.insert(h).second && s.samples.size() < 3 && !s.desc.empty() && s.seen.size() % 50 == 1) sample(s.desc);
}
void trivial() { st().tried++; }
void describe(const std::string& x) { st().desc = x; }
bool thorough() { return st().thorough; }
bool underValgrind() { return st().valgrind; }

std::string quote(const std::string& s)
{
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

std::string join(const std::vector<std::string>& v)
{
    std::string r = "[";
    for (auto& s : v) r += s + ",";
    return r + "]";
}

namespace {

std::string classify(const std::string& err, int status)
{
    auto after = [&] (const char* tag, const char* stopAt) -> std::string {
        size_t p = err.find(tag);
        if (p == std::string::npos) return "";
        p += strlen(tag);
        size_t e = err.find_first_of(stopAt, p);
        return err.substr(p, e == std::string::npos ? 60 : std::min<size_t>(e - p, 60));
    };
    std::string k;
    if (!(k = after("ERROR: AddressSanitizer: ", " \n(")).empty()) return "asan:" + k;
    if (!(k = after("WARNING: ThreadSanitizer: ", "(\n")).empty()) {
        while (!k.empty() && k.back() == ' ') k.pop_back();
        return "tsan:" + k;
    }
    if (err.find("LeakSanitizer: detected memory leaks") != std::string::npos) return "leak";
    if (!(k = after("runtime error: ", "\n0123456789")).empty()) {
        while (!k.empty() && k.back() == ' ') k.pop_back();
        return "ubsan:" + k;
    }
    if (WIFSIGNALED(status)) return "signal:" + std::to_string(WTERMSIG(status));
    return "exit:" + std::to_string(WEXITSTATUS(status));
}

double now()
{
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// Runs fn and turns everything that escapes into a failure.
void guarded(const std::function<void()>& fn)
{
    try { fn(); }
    catch (const Stop&) {}
    catch (const reflect::Error& e) { fail("unexpected-error", std::string("unexpected reflect error: ") + e.what(), false); }
    catch (const std::exception& e) { fail("unexpected-exception", std::string("unexpected exception: ") + e.what(), false); }
}

bool forkedOnce(const std::string& prefix, const std::function<void()>& fn, unsigned timeoutSec, bool last)
{
    State& s = st();
    fflush(nullptr);

    int pipefd[2];
    if (pipe(pipefd)) { perror("pipe"); exit(3); }
    int errfd = memfd_create("err", 0);
    if (errfd < 0) { perror("memfd"); exit(3); }

    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }

    if (pid == 0) {
        close(pipefd[0]);
        dup2(errfd, 2);
        s.inChild = true;
        s.childPipe = pipefd[1];
        s.events.clear();
        s.seen.clear();
        s.tried = 0;
        s.samples.clear();
        guarded(fn);

        std::string r;
        for (auto& e : s.events) r += "EV\t" + e.first + "\t" + std::to_string(e.second) + "\n";
        r += "T\t" + std::to_string(s.tried) + "\n";
        for (auto h : s.seen) r += "H\t" + std::to_string(h) + "\n";
        for (auto& x : s.samples) r += "S\t" + oneLine(x) + "\n";
        r += "DONE\n";
        writeAll(pipefd[1], r);
        _exit(0);
    }

    close(pipefd[1]);
    std::string in;
    bool timeout = false;
    double end = now() + timeoutSec;
    for (;;) {
        double left = end - now();
        if (left <= 0) { timeout = true; break; }
        pollfd p = { pipefd[0], POLLIN, 0 };
        int r = poll(&p, 1, int(left * 1000) + 1);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) continue;
        char buf[65536];
        ssize_t n = read(pipefd[0], buf, sizeof buf);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        in.append(buf, n);
    }
    close(pipefd[0]);
    if (timeout) kill(pid, SIGKILL);
    int status = 0;
    rusage usage = {};
    while (wait4(pid, &status, 0, &usage) < 0 && errno == EINTR);
    // It didn't starve: it was busy all along.
    bool busy = timeout && usage.ru_utime.tv_sec + usage.ru_stime.tv_sec >= 0.75 * timeoutSec;

    std::string err;
    off_t size = lseek(errfd, 0, SEEK_END);
    if (size > 0) {
        err.resize(std::min<off_t>(size, 200000));
        ssize_t n = pread(errfd, &err[0], err.size(), 0);
        err.resize(n > 0 ? n : 0);
    }
    close(errfd);

    if (timeout && !busy && !last) return false;

    bool done = false;
    std::istringstream ss(in);
    std::string line;
    while (std::getline(ss, line)) {
        if (line.compare(0, 5, "FAIL\t") == 0) {
            s.failed = true;
            size_t k = line.find('\t', 5);
            std::string rec = "FAIL\t" + (prefix.empty() ? "" : prefix + ":") + line.substr(5, k - 5) + line.substr(k) + "\n";
            if (s.inChild) writeAll(s.childPipe, rec);
            else { fputs(rec.c_str(), s.out); fflush(s.out); }
        }
        else if (line.compare(0, 3, "EV\t") == 0) {
            size_t k = line.find('\t', 3);
            s.events[line.substr(3, k - 3)] += strtoull(line.c_str() + k + 1, nullptr, 10);
        }
        else if (line.compare(0, 2, "H\t") == 0) s.seen.insert(strtoull(line.c_str() + 2, nullptr, 10));
        else if (line.compare(0, 2, "T\t") == 0) s.tried += strtoull(line.c_str() + 2, nullptr, 10);
        else if (line.compare(0, 2, "S\t") == 0) sample(line.substr(2));
        else if (line == "DONE") done = true;
    }

    std::string pre = prefix.empty() ? "" : prefix + ":";
    if (timeout) s.hangs++;
    if (timeout) fail(pre + "hang", busy ? "no answer within the time limit, busy all along" : "no answer within the time limit (twice)", false);

    else if (!done || status != 0) {
        fprintf(stderr, "%s\n", err.c_str());
        s.crashes++;
        fail(pre + classify(err, status), "the scenario crashed: " + err.substr(0, 1500), false);
    }
    return true;
}

} // namespace

void forked(const std::string& prefix, const std::function<void()>& fn, unsigned timeoutSec)
{
    if (!forkedOnce(prefix, fn, timeoutSec, false)) {
        event("timeouts retried");
        forkedOnce(prefix, fn, timeoutSec * 2, true);
    }
}

} // namespace vf

namespace {
std::string jsonStr(const std::string& s)
{
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
}

int main(int argc, char** argv)
{
    using namespace vf;
    uint64_t seed = 1, shard = 0, shards = 1, cases = 1, only = ~0ULL, stride = 1;
    std::string out = "out.txt", prog, hashes;

    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        const char* v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v, 0, 10);
        else if (a == "--shard") shard = strtoull(v, 0, 10);
        else if (a == "--shards") shards = strtoull(v, 0, 10);
        else if (a == "--cases") cases = strtoull(v, 0, 10);
        else if (a == "--stride") stride = strtoull(v, 0, 10);
        else if (a == "--only") only = strtoull(v, 0, 10);
        else if (a == "--out") out = v;
        else if (a == "--prog") prog = v;
        else if (a == "--hashes") hashes = v;
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 3; }
    }
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    if (!getenv("VF_VALGRIND")) { rlimit limit = { 4ul << 30, 4ul << 30 }; setrlimit(RLIMIT_AS, &limit); }
#endif
    const char* tier = getenv("VERIF_TIER");
    State& s = st();
    s.thorough = tier && std::string(tier) == "thorough";
    s.valgrind = getenv("VF_VALGRIND") != nullptr;
    s.out = fopen(out.c_str(), "w");
    if (!s.out) { perror("out"); return 3; }

    volatile uint64_t* progress = nullptr;
    if (!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 16)) { perror("prog"); return 3; }
        progress = (volatile uint64_t*) mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }

    uint64_t done = 0;
    guarded([&] { if (harness.init) harness.init(); });

    auto runCase = [&] (uint64_t idx) {
        s.idx = idx;
        s.failed = false;
        s.desc.clear();
        if (progress) { progress[0] = idx; progress[1] = done + 1; }
        Rng rng(mix(mix(seed, 0xC0FFEE), idx));
        uint64_t tried = s.tried;
        guarded([&] { harness.run(idx, rng); });
        if (tried == s.tried) s.tried++;
        done++;
    };

    if (only != ~0ULL) runCase(only);
    else for (uint64_t i = shard; i < cases && s.hangs < 2 && s.crashes < 25; i += shards) runCase(i * stride);

    s.desc.clear();
    s.idx = ~0ULL;
    guarded([&] { if (harness.finish) harness.finish(); });
    if (progress) progress[0] = ~0ULL;

#ifdef VF_LSAN
    if (!getenv("VF_NO_LSAN")) {
        event("leak checks");
        if (__lsan_do_recoverable_leak_check())
            fail("leak", "LeakSanitizer found memory that's neither freed nor reachable", false);
    }
#endif

    std::ostringstream js;
    js << "{\"cases\":" << done << ",\"tried\":" << s.tried << ",\"distinct\":" << s.seen.size() << ",\"events\":{";
    bool first = true;
    for (auto& e : s.events) { js << (first ? "" : ",") << jsonStr(e.first) << ":" << e.second; first = false; }
    js << "},\"samples\":[";
    first = true;
    for (auto& x : s.samples) { js << (first ? "" : ",") << jsonStr(x); first = false; }
    js << "]}";
    fprintf(s.out, "STATS\t%s\n", js.str().c_str());
    fclose(s.out);

    if (!hashes.empty()) {
        FILE* h = fopen(hashes.c_str(), "wb");
        if (h) { for (uint64_t x : s.seen) fwrite(&x, 8, 1, h); fclose(h); }
    }
    fflush(nullptr);
    _exit(0); // no static destructors: everything of interest was checked above.
}
