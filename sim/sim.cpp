#include "sim.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <map>
#include <new>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char* __asan_get_report_description();
extern "C" int         __asan_report_present();
extern "C" void        __sanitizer_set_death_callback(void (*)());

namespace
{
std::uint64_t mix(std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
struct Rng
{
    std::uint64_t s;
    std::uint64_t operator()() { return mix(s += 0x9e3779b97f4a7c15ull); }
};

// A vector that never touches operator new.
template <typename T>
struct MVec
{
    T*          p = nullptr;
    std::size_t n = 0, c = 0;
    void        push(T v)
    {
        if (n == c)
        {
            c = c ? c * 2 : 4096;
            p = static_cast<T*>(std::realloc(p, c * sizeof(T)));
        }
        p[n++] = v;
    }
    void clear() { n = 0; }
};

constexpr std::size_t max_choices = 1u << 20;
struct Shared
{
    // progress of the current child
    volatile std::uint64_t run_index;
    volatile std::uint64_t in_run;
    // first violation
    volatile int violated;
    char         sig[256];
    char         msg[4096];
    std::uint64_t hist_hash, nsteps, nchoices;
    std::uint32_t choices[max_choices];
};
Shared*        sh;
unsigned char* edge_map; // shared
std::size_t    edge_cap = 1u << 20;
std::uint32_t  edge_count;

struct CaseState
{
    Rng                 rng;
    bool                replay = false;
    const std::uint32_t* rep   = nullptr;
    std::size_t         rep_n = 0, rep_i = 0;
    MVec<std::uint32_t> log;
    std::uint64_t       h     = 0;
    std::uint64_t       steps = 0;
    std::uint64_t       faults = 0;
    bool                trace = false;
    FILE*               trace_out = nullptr;
} cs;

struct Counter
{
    const char*   name;
    std::uint64_t n;
};
constexpr int max_counters = 512;
Counter       faults_c[max_counters], probes_c[max_counters];
void          bump(Counter* c, const char* name)
{
    for (int i = 0; i < max_counters; ++i)
    {
        if (!c[i].name)
        {
            c[i].name = name;
            c[i].n    = 1;
            return;
        }
        if (c[i].name == name || std::strcmp(c[i].name, name) == 0)
        {
            ++c[i].n;
            return;
        }
    }
}
MVec<std::uint64_t> states_v;
MVec<std::uint64_t> hist_v; // per run: hash | nontrivial flag
std::uint64_t       total_steps, total_faults;

void publish()
{
    sh->hist_hash = cs.h;
    sh->nsteps    = cs.steps;
    sh->nchoices  = std::min<std::size_t>(cs.log.n, max_choices);
    std::memcpy(sh->choices, cs.log.p, sh->nchoices * sizeof(std::uint32_t));
}
void on_death()
{
    if (!sh->violated)
    {
        std::snprintf(sh->sig, sizeof(sh->sig), "crash:%s",
                      __asan_report_present() ? __asan_get_report_description() : "sanitizer");
        std::snprintf(sh->msg, sizeof(sh->msg), "the code under test failed a sanitizer check");
        publish();
        sh->violated = 1;
    }
}
void on_signal(int sig)
{
    if (!sh->violated)
    {
        const char* n = sig == SIGABRT   ? "abort/assertion"
                        : sig == SIGSEGV ? "SIGSEGV"
                        : sig == SIGBUS  ? "SIGBUS"
                        : sig == SIGFPE  ? "SIGFPE"
                        : sig == SIGILL  ? "SIGILL"
                                         : "signal";
        std::snprintf(sh->sig, sizeof(sh->sig), "crash:%s", n);
        std::snprintf(sh->msg, sizeof(sh->msg), "the code under test crashed");
        publish();
        sh->violated = 1;
    }
    _exit(99);
}
} // namespace

namespace sim
{
void (*step_hook)() = nullptr;
heap_t heap;

std::uint64_t hash(std::string_view s, std::uint64_t h)
{
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}

std::uint64_t choose(std::uint64_t n, const char*)
{
    std::uint64_t v = 0;
    if (n == 0)
        n = 1;
    if (cs.replay)
    {
        if (cs.rep_i < cs.rep_n)
            v = cs.rep[cs.rep_i++];
        v %= n;
    }
    else
        v = n == 1 ? 0 : cs.rng() % n;
    cs.log.push(std::uint32_t(v));
    if (sh && cs.log.n <= max_choices)
    {
        sh->choices[cs.log.n - 1] = std::uint32_t(v);
        sh->nchoices              = cs.log.n;
    }
    return v;
}
bool chance(unsigned pct, const char* label)
{
    if (pct == 0)
        return false;
    return choose(100, label) >= 100 - pct;
}
std::size_t small(std::size_t max, const char* label)
{
    // Choose the magnitude first: minimisation shrinks both.
    unsigned bits = 0;
    while ((max >> bits) != 0)
        ++bits;
    auto b   = choose(bits + 1, label);
    auto lim = std::min<std::size_t>(max, b >= 63 ? max : (std::size_t(1) << b) - 1);
    return std::size_t(choose(lim + 1, label));
}

void ev(const char* fmt, ...)
{
    char    buf[2048];
    va_list ap;
    va_start(ap, fmt);
    int n = std::vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    std::size_t len = n < 0 ? 0 : std::min<std::size_t>(std::size_t(n), sizeof(buf) - 1);
    cs.h            = hash({buf, len}, cs.h * 31 + 7);
    if (cs.trace && cs.trace_out)
    {
        for (std::size_t i = 0; i < len; ++i)
            if (buf[i] == '\n')
                buf[i] = ' ';
        std::fprintf(cs.trace_out, "T %s\n", buf);
    }
}
void fault(const char* kind)
{
    bump(faults_c, kind);
    ++cs.faults;
    ++total_faults;
    ev("fault %s", kind);
}
void probe(const char* name)
{
    bump(probes_c, name);
}
void state(std::uint64_t h)
{
    states_v.push(h);
}
std::uint64_t steps()
{
    return cs.steps;
}
std::uint64_t faults_so_far()
{
    return cs.faults;
}
void violate(const char* sig, const char* fmt, ...)
{
    std::snprintf(sh->sig, sizeof(sh->sig), "%s", sig);
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(sh->msg, sizeof(sh->msg), fmt, ap);
    va_end(ap);
    publish();
    sh->violated = 1;
    if (cs.trace_out)
        std::fflush(cs.trace_out);
    _exit(98);
}
std::string printable(std::string_view s, std::size_t max)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (r.size() > max)
        {
            r += "...";
            break;
        }
        if (c >= 0x20 && c < 0x7f && c != '\\')
            r += char(c);
        else
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    return r;
}
} // namespace sim

//=== step counting, coverage ===//
extern "C" void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* start, std::uint32_t* stop)
{
    if (start == stop || *start)
        return;
    for (auto p = start; p < stop; ++p)
        *p = ++edge_count;
}
extern "C" void __sanitizer_cov_trace_pc_guard(std::uint32_t* guard)
{
    if (edge_map && *guard < edge_cap)
        edge_map[*guard] = 1;
    if (++cs.steps > sim::step_limit && sh && sh->in_run && !sh->violated)
        sim::violate("no-progress", "no end after %llu simulated steps",
                     (unsigned long long)cs.steps);
    if (sim::step_hook)
        sim::step_hook();
}
// Optional finer-grained scheduling points.
#define SIM_LS(N)                                                                                  \
    extern "C" void __sanitizer_cov_load##N(void*)                                                 \
    {                                                                                              \
        if (sim::step_hook)                                                                        \
            sim::step_hook();                                                                      \
    }                                                                                              \
    extern "C" void __sanitizer_cov_store##N(void*)                                                \
    {                                                                                              \
        if (sim::step_hook)                                                                        \
            sim::step_hook();                                                                      \
    }
SIM_LS(1)
SIM_LS(2)
SIM_LS(4)
SIM_LS(8)
SIM_LS(16)

//=== heap ledger ===//
namespace
{
struct Blk
{
    void*       p;
    std::size_t size, align;
    std::uint64_t epoch;
};
Blk*          blks;
std::size_t   blks_cap, blks_n; // open addressing, tombstones = p==(void*)1
std::uint64_t epoch;
void          blk_insert(Blk b);
void          blk_grow()
{
    auto old = blks;
    auto oc  = blks_cap;
    blks_cap = oc ? oc * 2 : 4096;
    blks     = static_cast<Blk*>(std::calloc(blks_cap, sizeof(Blk)));
    blks_n   = 0;
    for (std::size_t i = 0; i < oc; ++i)
        if (old[i].p && old[i].p != (void*)1)
            blk_insert(old[i]);
    std::free(old);
}
void blk_insert(Blk b)
{
    if (blks_n * 2 >= blks_cap)
        blk_grow();
    auto i = mix(std::uint64_t(b.p)) & (blks_cap - 1);
    while (blks[i].p && blks[i].p != (void*)1)
        i = (i + 1) & (blks_cap - 1);
    if (!blks[i].p)
        ++blks_n;
    blks[i] = b;
}
Blk* blk_find(void* p)
{
    if (!blks_cap)
        return nullptr;
    auto i = mix(std::uint64_t(p)) & (blks_cap - 1);
    while (blks[i].p)
    {
        if (blks[i].p == p)
            return &blks[i];
        i = (i + 1) & (blks_cap - 1);
    }
    return nullptr;
}

void* do_new(std::size_t size, std::size_t align, bool nothrow)
{
    if (!sim::heap.track)
        return align > 16 ? std::aligned_alloc(align, (size + align - 1) / align * align)
                          : std::malloc(size);
    ++sim::heap.count;
    if (size > (std::size_t(1) << 36)
        || (sim::heap.fail_at && (sim::heap.count == sim::heap.fail_at
            || (sim::heap.fail_all_after && sim::heap.count > sim::heap.fail_at))))
    {
        ++sim::heap.failed;
        sim::fault("alloc-failure");
        if (nothrow)
            return nullptr;
        sim::untracked u;
        throw std::bad_alloc();
    }
    auto p = align > 16 ? std::aligned_alloc(align, (size + align - 1) / align * align)
                        : std::malloc(size);
    blk_insert({p, size, align, epoch});
    ++sim::heap.live;
    sim::heap.live_bytes += size;
    return p;
}
void do_delete(void* p, std::size_t size, bool sized, std::size_t align)
{
    if (!p)
        return;
    if (auto b = blk_find(p))
    {
        if (sized && size != b->size && sh && sh->in_run)
            sim::violate("heap-size-mismatch", "block of %zu bytes freed as %zu bytes", b->size,
                         size);
        if ((align > 16 || b->align > 16) && align != b->align && sh && sh->in_run)
            sim::violate("heap-align-mismatch", "block of alignment %zu freed as %zu", b->align,
                         align);
        if (b->epoch == epoch)
        {
            --sim::heap.live;
            sim::heap.live_bytes -= b->size;
        }
        b->p = (void*)1;
    }
    std::free(p);
}
} // namespace
void sim::heap_reset()
{
    ++epoch;
    auto t = heap.track;
    heap   = heap_t();
    heap.track = t;
}
void* operator new(std::size_t n) { return do_new(n, 1, false); }
void* operator new[](std::size_t n) { return do_new(n, 1, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return do_new(n, 1, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return do_new(n, 1, true); }
void* operator new(std::size_t n, std::align_val_t a) { return do_new(n, std::size_t(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return do_new(n, std::size_t(a), false); }
void  operator delete(void* p) noexcept { do_delete(p, 0, false, 1); }
void  operator delete[](void* p) noexcept { do_delete(p, 0, false, 1); }
void  operator delete(void* p, std::size_t n) noexcept { do_delete(p, n, true, 1); }
void  operator delete[](void* p, std::size_t n) noexcept { do_delete(p, n, true, 1); }
void  operator delete(void* p, std::align_val_t a) noexcept { do_delete(p, 0, false, std::size_t(a)); }
void  operator delete[](void* p, std::align_val_t a) noexcept { do_delete(p, 0, false, std::size_t(a)); }
void  operator delete(void* p, std::size_t n, std::align_val_t a) noexcept { do_delete(p, n, true, std::size_t(a)); }
void  operator delete[](void* p, std::size_t n, std::align_val_t a) noexcept { do_delete(p, n, true, std::size_t(a)); }

//=== running ===//
namespace
{
double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
void start_case()
{
    cs.log.clear();
    if (sh)
        sh->nchoices = 0;
    cs.h     = 0;
    cs.steps = 0;
    cs.faults = 0;
    cs.rep_i = 0;
    sim::heap.track = false;
    sim::heap_reset();
    sim::step_hook = nullptr;
}
void exec_case()
{
    sh->in_run = 1;
    sim::run_once();
    sh->in_run = 0;
    sim::step_hook  = nullptr;
    sim::heap.track = false;
}
void run_seed(std::uint64_t seed)
{
    start_case();
    cs.replay = false;
    cs.rng.s  = mix(seed);
    exec_case();
}
void run_choices(const std::vector<std::uint32_t>& c)
{
    start_case();
    cs.replay = true;
    cs.rep    = c.data();
    cs.rep_n  = c.size();
    exec_case();
}
void child_setup()
{
    __sanitizer_set_death_callback(on_death);
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL})
        signal(s, on_signal);
    signal(SIGPIPE, SIG_IGN);
    std::setvbuf(stderr, nullptr, _IONBF, 0);
}
std::string slurp_fd(int fd, std::size_t max)
{
    std::string s;
    char        b[65536];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t n; s.size() < max && (n = read(fd, b, sizeof b)) > 0;)
        s.append(b, std::size_t(n));
    return s;
}
struct Outcome
{
    bool          violated = false, timeout = false;
    std::string   sig, msg, err;
    std::uint64_t hash = 0, nsteps = 0, index = 0;
    std::vector<std::uint32_t> choices;
    std::vector<std::string>   trace;
};
// One fresh child: the prelude seeds, then the case itself.
Outcome run_child(const std::vector<std::uint64_t>& prelude, bool by_seed, std::uint64_t seed,
                  const std::vector<std::uint32_t>& choices, bool trace, double timeout)
{
    sh->violated = 0;
    sh->sig[0] = sh->msg[0] = 0;
    sh->in_run              = 0;
    int errfd = memfd_create("err", 0), trfd = memfd_create("trace", 0);
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        dup2(errfd, 2);
        child_setup();
        for (auto s : prelude)
            run_seed(s);
        if (trace)
        {
            cs.trace     = true;
            cs.trace_out = fdopen(dup(trfd), "w");
            setvbuf(cs.trace_out, nullptr, _IOLBF, 4096); // keep what happened before a crash
        }
        if (by_seed)
            run_seed(seed);
        else
            run_choices(choices);
        publish();
        if (cs.trace_out)
            std::fflush(cs.trace_out);
        _exit(0);
    }
    Outcome o;
    double  t0 = now();
    int     st = 0;
    while (true)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid)
            break;
        if (now() - t0 > timeout)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            o.timeout = true;
            break;
        }
        usleep(500);
    }
    o.err = slurp_fd(errfd, 6000);
    if (o.timeout)
    {
        o.violated = true;
        o.sig      = "hang";
        o.msg      = "the run did not end";
    }
    else if (sh->violated)
    {
        o.violated = true;
        o.sig      = sh->sig;
        o.msg      = sh->msg;
    }
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
        o.violated = true;
        o.sig      = WIFSIGNALED(st) ? "crash:signal" : "crash:exit";
        o.msg      = "the process running the code under test ended abnormally";
    }
    o.hash   = sh->hist_hash;
    o.nsteps = sh->nsteps;
    o.choices.assign(sh->choices, sh->choices + sh->nchoices);
    if (trace)
    {
        auto        t = slurp_fd(trfd, 1 << 20);
        std::size_t i = 0;
        while (i < t.size())
        {
            auto j = t.find('\n', i);
            if (j == t.npos)
                j = t.size();
            if (t.compare(i, 2, "T ") == 0)
                o.trace.push_back(t.substr(i + 2, j - i - 2));
            i = j + 1;
        }
        // Repeated events are shown once, with their number.
        std::vector<std::string> c;
        for (std::size_t a = 0; a < o.trace.size();)
        {
            auto b = a;
            while (b < o.trace.size() && o.trace[b] == o.trace[a])
                ++b;
            c.push_back(b - a > 1 ? o.trace[a] + " [x" + std::to_string(b - a) + "]" : o.trace[a]);
            a = b;
        }
        o.trace = std::move(c);
    }
    close(errfd);
    close(trfd);
    return o;
}

std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += char(c);
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r + "\"";
}

std::uint64_t seed_of(std::uint64_t master, std::uint64_t index)
{
    return mix(master * 0x2545F4914F6CDD1Dull + 77) ^ mix(index * 2 + 1);
}

// Undefined behaviour in the code under test may end in one kind of crash or another.
bool same_sig(const std::string& a, const std::string& b)
{
    return a == b || (a.rfind("crash:", 0) == 0 && b.rfind("crash:", 0) == 0);
}

void save_replay(const std::string& path, const Outcome& o, std::uint64_t master,
                 std::uint64_t index, const std::vector<std::uint64_t>& prelude, bool minimised,
                 std::size_t orig_choices, bool exact = true)
{
    FILE* f = std::fopen(path.c_str(), "w");
    if (!f)
    {
        std::perror("replay file");
        std::exit(2);
    }
    std::fprintf(f, "lexysim-replay 1\nproperty %s\nmaster_seed %llu\nrun_index %llu\nrun_seed %llu\nsignature %s\nhistory_hash %016llx\nsteps %llu\nminimised %d\noriginal_decisions %zu\n",
                 sim::property_id, (unsigned long long)master, (unsigned long long)index,
                 (unsigned long long)seed_of(master, index), o.sig.c_str(),
                 (unsigned long long)o.hash, (unsigned long long)o.nsteps, minimised ? 1 : 0,
                 orig_choices);
    if (!exact)
        std::fprintf(f, "inexact: repeating it always violates the property, but not always in the same way (undefined behaviour)\n");
    std::fprintf(f, "message %s\n", sim::printable(o.msg, 2000).c_str());
    std::fprintf(f, "prelude %zu", prelude.size());
    for (auto s : prelude)
        std::fprintf(f, " %llu", (unsigned long long)s);
    std::fprintf(f, "\ndecisions %zu", o.choices.size());
    for (auto c : o.choices)
        std::fprintf(f, " %u", c);
    std::fprintf(f, "\n");
    for (auto& t : o.trace)
        std::fprintf(f, "trace %s\n", t.c_str());
    std::size_t i = 0;
    while (i < o.err.size())
    {
        auto j = o.err.find('\n', i);
        if (j == o.err.npos)
            j = o.err.size();
        std::fprintf(f, "stderr %s\n", sim::printable(o.err.substr(i, j - i), 600).c_str());
        i = j + 1;
    }
    std::fclose(f);
}
bool load_replay(const std::string& path, std::string& sig, std::uint64_t& h,
                 std::vector<std::uint64_t>& prelude, std::vector<std::uint32_t>& choices, bool& exact)
{
    exact   = true;
    FILE* f = std::fopen(path.c_str(), "r");
    if (!f)
        return false;
    char*       line = nullptr;
    std::size_t cap  = 0;
    bool        ok   = false;
    while (getline(&line, &cap, f) > 0)
    {
        std::string s(line);
        while (!s.empty() && s.back() == '\n')
            s.pop_back();
        if (s.rfind("inexact", 0) == 0)
            exact = false;
        else if (s.rfind("signature ", 0) == 0)
            sig = s.substr(10);
        else if (s.rfind("history_hash ", 0) == 0)
            h = std::strtoull(s.c_str() + 13, nullptr, 16);
        else if (s.rfind("prelude ", 0) == 0 || s.rfind("decisions ", 0) == 0)
        {
            bool  pre = s[0] == 'p';
            char* p   = &s[pre ? 8 : 10];
            auto  n   = std::strtoull(p, &p, 10);
            for (unsigned long long i = 0; i < n; ++i)
            {
                auto v = std::strtoull(p, &p, 10);
                if (pre)
                    prelude.push_back(v);
                else
                    choices.push_back(std::uint32_t(v));
            }
            if (!pre)
                ok = true;
        }
    }
    std::free(line);
    std::fclose(f);
    return ok;
}

// Chunk child: runs seeds [first, last) in order, then writes its report.
[[noreturn]] void chunk_child(std::uint64_t master, std::uint64_t first, std::uint64_t last,
                              int outfd, bool sample)
{
    child_setup();
    FILE* out = fdopen(outfd, "w");
    for (auto i = first; i < last; ++i)
    {
        sh->run_index = i;
        bool t        = sample && i < first + 3;
        cs.trace      = t;
        cs.trace_out  = t ? out : nullptr;
        if (t)
            std::fprintf(out, "N %llu\n", (unsigned long long)i);
        run_seed(seed_of(master, i));
        total_steps += cs.steps;
        hist_v.push((cs.h & ~1ull) | (cs.faults > 0 || cs.log.n > 8 ? 1 : 0));
    }
    cs.trace = false;
    std::fprintf(out, "R %llu %llu\n", (unsigned long long)(last - first),
                 (unsigned long long)total_steps);
    for (int i = 0; i < max_counters && faults_c[i].name; ++i)
        std::fprintf(out, "F %llu %s\n", (unsigned long long)faults_c[i].n, faults_c[i].name);
    for (int i = 0; i < max_counters && probes_c[i].name; ++i)
        std::fprintf(out, "P %llu %s\n", (unsigned long long)probes_c[i].n, probes_c[i].name);
    for (std::size_t i = 0; i < hist_v.n; ++i)
        std::fprintf(out, "H %llx\n", (unsigned long long)hist_v.p[i]);
    std::unordered_set<std::uint64_t> uniq(states_v.p, states_v.p + states_v.n);
    for (auto s : uniq)
        std::fprintf(out, "S %llx\n", (unsigned long long)s);
    std::fflush(out);
    _exit(0);
}

template <typename T>
T* map_shared(std::size_t n)
{
    return static_cast<T*>(
        mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}

std::vector<std::uint32_t> minimise(std::vector<std::uint32_t>        best,
                                    const std::vector<std::uint64_t>& prelude,
                                    const std::string& sig, double budget, std::uint64_t& tried)
{
    double t0  = now();
    auto   bad = [&](const std::vector<std::uint32_t>& c, std::vector<std::uint32_t>& actual) {
        ++tried;
        auto o = run_child(prelude, false, 0, c, false, 20);
        actual = o.choices;
        return o.violated && same_sig(o.sig, sig);
    };
    auto left = [&] { return now() - t0 < budget; };
    std::vector<std::uint32_t> act;
    bool                       progress = true;
    while (progress && left())
    {
        progress = false;
        // Cut the tail.
        for (std::size_t keep = 0; keep < best.size() && left();
             keep             = keep ? keep * 2 : 1)
        {
            std::vector<std::uint32_t> c(best.begin(), best.begin() + long(keep));
            if (bad(c, act))
            {
                best     = c;
                progress = true;
                break;
            }
        }
        // Remove pieces.
        for (std::size_t len = best.size() / 2; len >= 1 && left(); len /= 2)
            for (std::size_t i = 0; i + len <= best.size() && left();)
            {
                auto c = best;
                c.erase(c.begin() + long(i), c.begin() + long(i + len));
                if (bad(c, act))
                {
                    best     = c;
                    progress = true;
                }
                else
                    i += len;
            }
        // Make pieces zero.
        for (std::size_t len = best.size() / 2; len >= 1 && left(); len /= 2)
            for (std::size_t i = 0; i + len <= best.size() && left(); i += len)
            {
                auto c   = best;
                bool any = false;
                for (std::size_t k = i; k < i + len; ++k)
                {
                    any |= c[k] != 0;
                    c[k] = 0;
                }
                if (any && bad(c, act))
                {
                    best     = c;
                    progress = true;
                }
            }
        // Lower single values.
        for (std::size_t i = 0; i < best.size() && left(); ++i)
            for (std::uint32_t d = best[i] / 2; d >= 1 && left(); d /= 2)
                if (best[i] >= d)
                {
                    auto c = best;
                    c[i] -= d;
                    if (bad(c, act))
                    {
                        best     = c;
                        progress = true;
                    }
                }
    }
    return best;
}
} // namespace

int main(int argc, char** argv)
{
    if (!std::getenv("LEXYSIM_NOASLR"))
    {
        setenv("LEXYSIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && personality(unsigned(p) | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a;
    std::string                        mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2)
        a[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, std::uint64_t d) {
        auto it = a.find(k);
        return it == a.end() ? d : std::strtoull(it->second.c_str(), nullptr, 0);
    };

    if (mode == "replay")
    {
        sh       = map_shared<Shared>(sizeof(Shared));
        edge_map = map_shared<unsigned char>(edge_cap);
        std::string                sig;
        std::uint64_t              h = 0;
        std::vector<std::uint64_t> prelude;
        std::vector<std::uint32_t> choices;
        bool                       exact = true;
        if (!load_replay(a["--file"], sig, h, prelude, choices, exact))
        {
            std::fprintf(stderr, "cannot read replay file\n");
            return 2;
        }
        auto o = run_child(prelude, false, 0, choices, a.count("--show") != 0, 60);
        for (auto& t : o.trace)
            std::printf("%s\n", t.c_str());
        if (a.count("--show"))
            std::fputs(o.err.c_str(), stdout);
        std::printf("replay: violated=%d sig=%s hash=%016llx expected sig=%s hash=%016llx\n%s\n",
                    o.violated, o.sig.c_str(), (unsigned long long)o.hash, sig.c_str(),
                    (unsigned long long)h, o.msg.c_str());
        if (!o.violated)
            return 0;
        return !exact || (same_sig(o.sig, sig) && (o.hash == h || o.timeout)) ? 1 : 3;
    }
    if (mode == "one") // debugging aid
    {
        sh       = map_shared<Shared>(sizeof(Shared));
        edge_map = map_shared<unsigned char>(edge_cap);
        auto o   = run_child({}, true, seed_of(num("--master", 1), num("--index", 0)), {}, true, 60);
        for (auto& t : o.trace)
            std::printf("%s\n", t.c_str());
        std::fputs(o.err.c_str(), stdout);
        std::printf("violated=%d sig=%s hash=%016llx steps=%llu decisions=%zu\n%s\n", o.violated,
                    o.sig.c_str(), (unsigned long long)o.hash, (unsigned long long)o.nsteps,
                    o.choices.size(), o.msg.c_str());
        return o.violated;
    }
    if (mode != "search")
    {
        std::fprintf(stderr, "usage: %s search|replay|one ...\n", argv[0]);
        return 2;
    }

    const auto   master = num("--master", 1), runs = num("--runs", 1000), chunk = num("--chunk", 100);
    const auto   jobs   = num("--jobs", 8);
    const double cap    = double(num("--time", 300));
    const auto   hang   = double(num("--hang", 60));
    edge_map            = map_shared<unsigned char>(edge_cap);
    auto slots          = std::vector<Shared*>(jobs);
    for (auto& s : slots)
        s = map_shared<Shared>(sizeof(Shared));

    struct Worker
    {
        pid_t         pid = 0;
        int           fd = -1, errfd = -1;
        std::uint64_t first = 0, last = 0, seen = 0;
        double        seen_at = 0;
        bool          recheck = false;
    };
    std::vector<Worker>                w(jobs);
    std::uint64_t                      next = 0, done_runs = 0, steps = 0, chunks = 0;
    std::map<std::string, std::uint64_t> F, P;
    std::unordered_set<std::uint64_t>  H, Hn, S;
    std::map<std::uint64_t, std::uint64_t> chunk_hash;
    std::vector<std::uint64_t>         rechecks;
    std::vector<std::string>           samples;
    bool                               found = false, nondet = false;
    struct Found
    {
        std::uint64_t index, first;
        std::string   sig, msg, err;
    };
    std::vector<Found> founds;
    double             t0 = now();

    auto launch = [&](std::size_t j, std::uint64_t first, bool recheck) {
        auto& k   = w[j];
        k.first   = first;
        k.last    = std::min(first + chunk, runs);
        k.recheck = recheck;
        k.fd      = memfd_create("out", 0);
        k.errfd   = memfd_create("err", 0);
        k.seen    = ~0ull;
        k.seen_at = now();
        auto s    = slots[j];
        s->violated = 0;
        s->in_run   = 0;
        s->sig[0] = s->msg[0] = 0;
        s->run_index          = first;
        std::fflush(nullptr);
        k.pid = fork();
        if (k.pid == 0)
        {
            sh = s;
            dup2(k.errfd, 2);
            chunk_child(master, k.first, k.last, dup(k.fd), first == 0 && !recheck);
        }
    };
    auto take = [&](std::size_t j) { // next piece of work; false if none
        if (!founds.empty() || now() - t0 > cap)
        {
            return false;
        }
        if (next < runs)
        {
            launch(j, next, false);
            next += chunk;
            return true;
        }
        if (!rechecks.empty())
        {
            launch(j, rechecks.back(), true);
            rechecks.pop_back();
            return true;
        }
        return false;
    };
    bool active = true;
    while (active)
    {
        active = false;
        for (std::size_t j = 0; j < jobs; ++j)
        {
            auto& k = w[j];
            if (k.pid == 0)
            {
                if (take(j))
                    active = true;
                continue;
            }
            active = true;
            int   st;
            pid_t r = waitpid(k.pid, &st, WNOHANG);
            bool  hung = false;
            if (r == 0)
            {
                if (slots[j]->run_index != k.seen)
                {
                    k.seen    = slots[j]->run_index;
                    k.seen_at = now();
                    continue;
                }
                else if (now() - k.seen_at > hang)
                {
                    kill(k.pid, SIGKILL);
                    waitpid(k.pid, &st, 0);
                    hung = true;
                }
                else
                    continue;
            }
            auto s   = slots[j];
            bool bad = hung || s->violated || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            if (bad)
            {
                Found f;
                f.index = s->run_index;
                f.first = k.first;
                f.sig   = hung ? "hang" : s->violated ? s->sig : "crash:exit";
                f.msg   = hung ? "the run did not end" : s->msg;
                f.err   = slurp_fd(k.errfd, 4000);
                founds.push_back(f);
            }
            else
            {
                auto          t = slurp_fd(k.fd, std::size_t(1) << 31);
                std::uint64_t ch = 0;
                std::size_t   i  = 0;
                while (i < t.size())
                {
                    auto e = t.find('\n', i);
                    if (e == t.npos)
                        e = t.size();
                    auto line = t.substr(i, e - i);
                    i         = e + 1;
                    if (line.size() < 2)
                        continue;
                    if (line[0] == 'H')
                    {
                        auto h = std::strtoull(line.c_str() + 2, nullptr, 16);
                        ch     = mix(ch ^ h);
                        if (!k.recheck)
                        {
                            H.insert(h & ~1ull);
                            if (h & 1)
                                Hn.insert(h);
                        }
                    }
                    else if (k.recheck)
                        continue;
                    else if (line[0] == 'R')
                    {
                        char* p;
                        done_runs += std::strtoull(line.c_str() + 2, &p, 10);
                        steps += std::strtoull(p, nullptr, 10);
                    }
                    else if (line[0] == 'F' || line[0] == 'P')
                    {
                        char* p;
                        auto  n = std::strtoull(line.c_str() + 2, &p, 10);
                        (line[0] == 'F' ? F : P)[p + 1] += n;
                    }
                    else if (line[0] == 'S')
                        S.insert(std::strtoull(line.c_str() + 2, nullptr, 16));
                    else if (line[0] == 'N')
                        samples.push_back("run " + line.substr(2) + ":");
                    else if (line[0] == 'T' && !samples.empty() && samples.back().size() < 3000)
                        samples.back() += " | " + line.substr(2);
                }
                if (k.recheck)
                {
                    if (chunk_hash[k.first] != ch)
                        nondet = true;
                }
                else
                {
                    chunk_hash[k.first] = ch;
                    if (chunks++ % 10 == 0)
                        rechecks.push_back(k.first);
                }
            }
            close(k.fd);
            close(k.errfd);
            k.pid = 0;
        }
        usleep(300);
    }
    double search_s = now() - t0;

    std::string   replay_path, vsig, vmsg;
    std::uint64_t min_tried = 0;
    std::size_t   orig_n = 0, min_n = 0;
    std::uint64_t vindex = 0;
    bool                       fallback = false;
    Outcome                    fb_out;
    std::vector<std::uint64_t> fb_prelude;
    std::uint64_t              fb_index = 0;
    if (!founds.empty())
    {
        std::sort(founds.begin(), founds.end(),
                  [](const Found& x, const Found& y) { return x.index < y.index; });
        for (auto& f : founds)
        {
            sh = slots[0];
            std::vector<std::uint64_t> prelude;
            auto seed = seed_of(master, f.index);
            auto o1   = run_child({}, true, seed, {}, false, hang);
            if (!o1.violated)
            {
                // Depends on what ran before it in the same process: include that history.
                for (auto i = f.first; i < f.index; ++i)
                    prelude.push_back(seed_of(master, i));
                o1 = run_child(prelude, true, seed, {}, false, hang);
                if (o1.violated)
                    for (std::size_t len = (prelude.size() + 1) / 2; len >= 1; len /= 2)
                        for (std::size_t i = 0; i + len <= prelude.size();)
                        {
                            auto c = prelude;
                            c.erase(c.begin() + long(i), c.begin() + long(i + len));
                            auto o = run_child(c, true, seed, {}, false, hang);
                            if (o.violated && same_sig(o.sig, o1.sig))
                                prelude = c;
                            else
                                i += len;
                        }
            }
            auto o2 = run_child(prelude, true, seed, {}, false, hang);
            auto o3 = run_child(prelude, true, seed, {}, false, hang);
            if (o2.violated && o3.violated && !fallback)
            {
                fallback       = true;
                fb_out         = o2;
                fb_prelude     = prelude;
                fb_index       = f.index;
            }
            if (!o2.violated || !o3.violated || !same_sig(o2.sig, o3.sig)
                || (!o2.timeout && o2.hash != o3.hash))
            {
                nondet = true;
                std::fprintf(stderr,
                             "run %llu: violation '%s' (%s) is not exactly repeatable\n%s\n",
                             (unsigned long long)f.index, f.sig.c_str(), f.msg.c_str(),
                             f.err.c_str());
                continue;
            }
            orig_n    = o2.choices.size();
            auto best = o2.choices;
            auto rs   = run_child(prelude, false, 0, best, false, hang);
            if (!(rs.violated && same_sig(rs.sig, o2.sig)))
            {
                nondet = true;
                continue;
            }
            if (!o2.timeout)
                best = minimise(best, prelude, o2.sig, double(num("--min-time", 25)), min_tried);
            auto fin = run_child(prelude, false, 0, best, true, hang);
            auto fi2 = run_child(prelude, false, 0, best, true, hang);
            if (!fin.violated || (!fin.timeout && fin.hash != fi2.hash) || !same_sig(fin.sig, o2.sig))
            {
                nondet = true;
                continue;
            }
            fin.choices = best;
            min_n       = best.size();
            replay_path = a["--replay-out"];
            save_replay(replay_path, fin, master, f.index, prelude, true, orig_n);
            vsig   = fin.sig;
            vmsg   = fin.msg;
            vindex = f.index;
            found  = true;
            nondet = false;
            break;
        }
        if (!found && fallback)
        {
            // Violated every time, but not in the same way every time: what the code does is not determined by
            // the decisions any more.
            orig_n = min_n = fb_out.choices.size();
            replay_path    = a["--replay-out"];
            save_replay(replay_path, fb_out, master, fb_index, fb_prelude, false, orig_n, false);
            vsig   = fb_out.sig;
            vmsg   = fb_out.msg;
            vindex = fb_index;
            found  = true;
            nondet = false;
        }
    }

    std::uint64_t edges = 0;
    for (std::size_t i = 0; i < edge_cap; ++i)
        edges += edge_map[i];
    FILE* f = std::fopen(a["--out"].c_str(), "w");
    if (!f)
        return 2;
    std::fprintf(f, "{\"runs\": %llu, \"planned_runs\": %llu, \"steps\": %llu, \"search_s\": %.3f, \"total_s\": %.3f,\n",
                 (unsigned long long)done_runs, (unsigned long long)runs, (unsigned long long)steps,
                 search_s, now() - t0);
    std::fprintf(f, "\"histories\": %zu, \"histories_nontrivial\": %zu, \"states\": %zu, \"edges_hit\": %llu, \"edges_total\": %u,\n",
                 H.size(), Hn.size(), S.size(), (unsigned long long)edges, edge_count);
    std::fprintf(f, "\"rechecked_chunks\": %zu, \"nondeterministic\": %s, \"found\": %s,\n",
                 (chunks + 9) / 10, nondet ? "true" : "false", found ? "true" : "false");
    std::fprintf(f, "\"violation\": {\"sig\": %s, \"msg\": %s, \"index\": %llu, \"replay\": %s, \"decisions_before\": %zu, \"decisions_after\": %zu, \"minimiser_runs\": %llu},\n",
                 json_str(vsig).c_str(), json_str(vmsg).c_str(), (unsigned long long)vindex,
                 json_str(replay_path).c_str(), orig_n, min_n, (unsigned long long)min_tried);
    auto dump = [&](const char* n, auto& m) {
        std::fprintf(f, "\"%s\": {", n);
        bool first = true;
        for (auto& [k, v] : m)
        {
            std::fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(k).c_str(),
                         (unsigned long long)v);
            first = false;
        }
        std::fprintf(f, "},\n");
    };
    dump("faults", F);
    dump("probes", P);
    std::fprintf(f, "\"samples\": [");
    for (std::size_t i = 0; i < samples.size(); ++i)
        std::fprintf(f, "%s%s", i ? ",\n " : "", json_str(samples[i]).c_str());
    std::fprintf(f, "]}\n");
    std::fclose(f);
    if (found)
        return 1;
    if (nondet)
        return 3;
    return 0;
}
