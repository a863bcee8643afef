#include "simkit.hpp"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <linux/stat.h>
#include <new>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {

Shared*   shm          = nullptr;
uint32_t* guard_counts = nullptr;

u64 mix(u64 a, u64 b) {
    Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull));
    r.next();
    return r.next();
}
u64 hash_str(std::string const& s, u64 h) {
    for (unsigned char c : s) { h = (h ^ c) * 1099511628211ull; }
    return h;
}

json Plan::to_json() const {
    json j;
    j["scenario"] = scenario;
    j["seed"]     = seed;
    j["params"]   = params;
    j["ops"]      = ops;
    j["choices"]  = choices;
    j["preempts"] = json::array();
    for (auto const& p : preempts) {
        if (p.step >= 0) {
            j["preempts"].push_back({{"step", p.step}, {"to", p.to}});
        } else {
            j["preempts"].push_back(
                {{"tid", p.tid}, {"guard", p.guard}, {"occ", p.occ}, {"to", p.to}});
        }
    }
    j["faults"] = json::array();
    for (auto const& f : faults) {
        j["faults"].push_back(
            {{"site", f.site}, {"nth", f.nth}, {"kind", f.kind}, {"arg", f.arg}});
    }
    return j;
}

Plan Plan::from_json(json const& j) {
    Plan p;
    p.scenario = j.at("scenario");
    p.seed     = j.at("seed");
    p.params   = j.at("params");
    p.ops      = j.at("ops");
    p.choices  = j.at("choices").get<std::vector<int>>();
    for (auto const& e : j.at("preempts")) {
        Preempt q;
        q.to = e.at("to");
        if (e.contains("step")) {
            q.step = e.at("step");
        } else {
            q.tid   = e.at("tid");
            q.guard = e.at("guard");
            q.occ   = e.at("occ");
        }
        p.preempts.push_back(q);
    }
    for (auto const& e : j.at("faults")) {
        p.faults.push_back(
            Fault{e.at("site"), e.at("nth"), e.at("kind"), e.at("arg")});
    }
    return p;
}

std::vector<Scenario>& scenarios() {
    static std::vector<Scenario> v;
    return v;
}
void register_scenario(Scenario s) { scenarios().push_back(std::move(s)); }
std::vector<std::string>& args() {
    static std::vector<std::string> v;
    return v;
}

// ---------------------------------------------------------------- run state ---
namespace {
constexpr uint32_t kFirstGuard = 16;
uint32_t           g_guard_total = kFirstGuard;
uintptr_t const*   g_pcs         = nullptr; // (address, flags) per guard
uintptr_t const*   g_pcs_end     = nullptr;

bool         g_active     = false; // inside a simulated run
thread_local bool g_faults = false;
thread_local bool g_allocs = false;
thread_local bool g_sched  = true; // preemption allowed
Plan*        g_plan       = nullptr;
std::string* g_scratch    = nullptr;
i64          g_step_budget = 0;

thread_local int t_tid = -1;
thread_local int t_in  = 0; // inside simulator code

u64                                 g_hash = 1469598103934665603ull;
u64                                 g_sched_hash = 1469598103934665603ull;
std::vector<std::string>*           g_hist     = nullptr;
std::map<std::string, i64>*         g_probes   = nullptr;
std::map<std::string, i64>*         g_sites    = nullptr;
std::map<std::string, i64>*         g_fired    = nullptr;
i64                                 g_switches = 0;
i64                                 g_steps    = 0;
i64                                 g_fired_total = 0;
i64                                 g_clock    = 1'700'000'000'000'000'000ll;
i64                                 g_clock0   = g_clock;
i64                                 g_clock_off = 0;
i64                                 g_tick     = 1000;
i64                                 g_capacity = -1; // bytes left on disk
i64                                 g_alloc_count = 0;
std::vector<i64>*                   g_alloc_fail  = nullptr;
i64                                 g_alloc_persist = -1;
std::set<std::string>*              g_states = nullptr;

// fast preemption tables
i64      g_next_step = INT64_MAX;
size_t   g_step_idx  = 0;
std::vector<std::pair<i64, int>>* g_step_preempts = nullptr;
uint8_t* g_hot = nullptr; // [threads][guards]
std::vector<Preempt>* g_guard_preempts = nullptr;

struct Th {
    std::function<void()> fn;
    pthread_t             pt{};
    int                   state = 0; // 0 unused 1 runnable 2 blocked 3 done
    void*                 wait  = nullptr;
    i64                   wake_at = -1;
    bool                  timed_out = false;
    std::atomic<int>      fut{0};
};
Th  g_th[Shared::kThreads];
int g_nth = 0;
int g_cur = 0;
size_t g_choice = 0;

long futex(std::atomic<int>* a, int op, int v) {
    return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0);
}

struct In {
    In() { ++t_in; }
    ~In() { --t_in; }
};

bool simulated() { return g_active && t_tid >= 0 && t_in == 0; }

void finish(json const& violation, std::string const& discarded) {
    g_active = false;
    json r;
    r["violation"] = violation;
    if (!discarded.empty()) { r["discard"] = discarded; }
    r["hash"]     = mix(g_hash, g_sched_hash);
    r["sched_fp"] = g_sched_hash;
    r["steps"]    = g_steps;
    r["switches"] = g_switches;
    r["threads"]  = g_nth;
    r["allocs"]   = g_alloc_count;
    r["sim_ns"]   = g_clock - g_clock0;
    r["probes"]   = *g_probes;
    r["sites"]    = *g_sites;
    r["fired"]    = *g_fired;
    json h        = json::array();
    size_t n      = g_hist->size();
    for (size_t i = n > 60 ? n - 60 : 0; i < n; ++i) { h.push_back((*g_hist)[i].substr(0, 400)); }
    r["hist"]     = h;
    std::string s = r.dump(-1, ' ', false, json::error_handler_t::replace);
    if (s.size() >= Shared::kBuf) { s = "{}"; }
    memcpy(shm->out, s.data(), s.size());
    shm->out_len = s.size();
    _exit(violation.is_null() ? 0 : 1);
}

int pick_other(bool include_me) {
    int list[Shared::kThreads];
    int n  = 0;
    int me = t_tid;
    for (int k = 1; k <= g_nth; ++k) {
        int i = (me + k) % g_nth;
        if (i == me && !include_me) { continue; }
        if (g_th[i].state == 1) { list[n++] = i; }
    }
    if (n == 0) { return -1; }
    int c = 0;
    if (n > 1 && g_plan && !g_plan->choices.empty()) {
        c = g_plan->choices[g_choice++ % g_plan->choices.size()];
    }
    return list[((c % n) + n) % n];
}

void hand_over(int to) {
    int me = t_tid;
    if (to == me) { return; }
    ++g_switches;
    g_sched_hash = (g_sched_hash ^ (u64)(to * 131 + me)) * 1099511628211ull;
    g_cur        = to;
    g_th[to].fut.store(1);
    futex(&g_th[to].fut, FUTEX_WAKE_PRIVATE, 1);
    if (g_th[me].state == 3) { return; }
    while (g_th[me].fut.load() == 0) { futex(&g_th[me].fut, FUTEX_WAIT_PRIVATE, 0); }
    g_th[me].fut.store(0);
}

void wake_timed() {
    // nobody runnable: advance the clock to the earliest timed waiter
    int best = -1;
    for (int i = 0; i < g_nth; ++i) {
        if (g_th[i].state == 2 && g_th[i].wake_at >= 0
            && (best < 0 || g_th[i].wake_at < g_th[best].wake_at)) {
            best = i;
        }
    }
    if (best < 0) {
        std::string d;
        for (int i = 0; i < g_nth; ++i) {
            d += " t" + std::to_string(i) + (g_th[i].state == 2 ? "=blocked" : "=done");
        }
        violate("deadlock", "no thread can run:" + d);
    }
    if (g_clock < g_th[best].wake_at) { g_clock = g_th[best].wake_at; }
    g_th[best].timed_out = true;
    g_th[best].wake_at   = -1;
    g_th[best].wait      = nullptr;
    g_th[best].state     = 1;
}

// the caller has set its state to blocked / done
void switch_away() {
    int n = pick_other(true);
    if (n < 0) {
        wake_timed();
        n = pick_other(true);
    }
    if (n == t_tid) { return; }
    hand_over(n);
}

void block_on(void* addr, i64 wake_at = -1) {
    Th& t       = g_th[t_tid];
    t.wait      = addr;
    t.wake_at   = wake_at;
    t.timed_out = false;
    t.state     = 2;
    switch_away();
}

void wake_all(void* addr, int limit = 1 << 30) {
    for (int i = 0; i < g_nth && limit > 0; ++i) {
        if (g_th[i].state == 2 && g_th[i].wait == addr) {
            g_th[i].state   = 1;
            g_th[i].wait    = nullptr;
            g_th[i].wake_at = -1;
            --limit;
        }
    }
}

__attribute__((noinline)) void preempt_now(int to) {
    In  in;
    int list[Shared::kThreads];
    int n  = 0;
    int me = t_tid;
    for (int k = 1; k < g_nth; ++k) {
        int i = (me + k) % g_nth;
        if (g_th[i].state == 1) { list[n++] = i; }
    }
    if (n == 0) { return; }
    ++(*g_fired)["preempt"];
    hand_over(list[((to % n) + n) % n]);
}

__attribute__((noinline)) void over_budget() {
    In in;
    violate("hang", "step budget exhausted");
}

inline void step(uint32_t guard) {
    int me = t_tid;
    ++g_steps;
    uint32_t c = 0;
    if (guard < g_guard_total) {
        uint32_t* p = &guard_counts[(size_t)me * g_guard_total + guard];
        c           = (*p)++;
    }
    if (g_steps > g_step_budget) { over_budget(); }
    if (!g_sched) { return; }
    if (g_steps >= g_next_step) {
        int to = (*g_step_preempts)[g_step_idx].second;
        ++g_step_idx;
        g_next_step = g_step_idx < g_step_preempts->size()
                        ? (*g_step_preempts)[g_step_idx].first
                        : INT64_MAX;
        preempt_now(to);
        return;
    }
    if (g_hot && g_hot[(size_t)me * g_guard_total + guard]) {
        for (auto const& p : *g_guard_preempts) {
            if (p.tid == me && p.guard == guard && p.occ == (i64)c) {
                preempt_now(p.to);
                return;
            }
        }
    }
}

void sync_point(uint32_t kind) {
    if (simulated()) {
        // pseudo locations 1..15: lock operations
        step(kind);
    }
}
} // namespace

uint32_t guard_total() { return g_guard_total; }
uintptr_t guard_pc(uint32_t guard) {
    if (guard < kFirstGuard || g_pcs == nullptr) { return 0; }
    uintptr_t const* p = g_pcs + (size_t)(guard - kFirstGuard) * 2;
    return p < g_pcs_end ? *p : 0;
}

int  tid() { return t_tid; }
i64  now_ns() { return g_clock; }
void advance_ns(i64 ns) { g_clock += ns; }
void set_clock_ns(i64 ns) { g_clock = ns; }
Plan const& plan() { return *g_plan; }

void hist(std::string const& line) {
    In in;
    g_hash = hash_str(line, g_hash);
    g_hash = (g_hash ^ (u64)(t_tid + 17)) * 1099511628211ull;
    g_hist->push_back("t" + std::to_string(t_tid) + " " + line);
}
void probe(std::string const& name, i64 n) {
    In in;
    (*g_probes)[name] += n;
}
void violate(std::string const& cls, std::string const& msg) {
    ++t_in;
    g_hash = hash_str(cls + "|" + msg, g_hash);
    finish(json{{"class", cls}, {"msg", msg.substr(0, 4000)}}, "");
    __builtin_unreachable();
}
void discard(std::string const& why) {
    ++t_in;
    finish(nullptr, why);
    __builtin_unreachable();
}

FaultRegion::FaultRegion(bool on) : prev(g_faults) { g_faults = on; }
FaultRegion::~FaultRegion() { g_faults = prev; }
AllocRegion::AllocRegion(bool on) : prev(g_allocs) { g_allocs = on; }
AllocRegion::~AllocRegion() { g_allocs = prev; }
Quiet::Quiet() : pf(g_faults), pa(g_allocs), ps(g_sched) { g_faults = g_allocs = g_sched = false; }
Quiet::~Quiet() {
    g_faults = pf;
    g_allocs = pa;
    g_sched  = ps;
}

Fault const* fault_at(char const* site) {
    if (!g_active || !g_faults || t_tid < 0) { return nullptr; }
    In  in;
    i64 n = (*g_sites)[site]++;
    for (auto const& f : g_plan->faults) {
        if (f.nth == n && f.site == site) {
            ++(*g_fired)[std::string(site) + ":" + f.kind];
            ++g_fired_total;
            hist("fault " + std::string(site) + "#" + std::to_string(n) + " " + f.kind);
            return &f;
        }
    }
    return nullptr;
}
i64 fired_total() { return g_fired_total; }
i64 fired(std::string const& site) {
    i64 n = 0;
    for (auto const& [k, v] : *g_fired) {
        if (k.rfind(site + ":", 0) == 0) { n += v; }
    }
    return n;
}

std::map<std::string, i64> fired_map() {
    In in;
    return *g_fired;
}

void yield_point() { sync_point(1); }

namespace {
void* thread_main(void* a) {
    int me = (int)(intptr_t)a;
    t_tid  = me;
    {
        In in;
        while (g_th[me].fut.load() == 0) { futex(&g_th[me].fut, FUTEX_WAIT_PRIVATE, 0); }
        g_th[me].fut.store(0);
    }
    try {
        g_th[me].fn();
    } catch (std::exception const& e) {
        ++t_in;
        violate("uncaught", std::string("thread ended with exception: ") + e.what());
    } catch (...) {
        ++t_in;
        violate("uncaught", "thread ended with unknown exception");
    }
    ++t_in;
    g_th[me].state = 3;
    wake_all(&g_th[0]);
    switch_away();
    return nullptr;
}
} // namespace

int spawn(std::function<void()> fn) {
    In in;
    int id = g_nth++;
    if (id >= Shared::kThreads) { abort(); }
    g_th[id].fn    = std::move(fn);
    g_th[id].state = 1;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 32u << 20);
    if (pthread_create(&g_th[id].pt, &at, thread_main, (void*)(intptr_t)id) != 0) { abort(); }
    pthread_attr_destroy(&at);
    return id;
}

void join_all() {
    In in;
    while (true) {
        bool pending = false;
        for (int i = 1; i < g_nth; ++i) {
            if (g_th[i].state != 3) { pending = true; }
        }
        if (!pending) { return; }
        block_on(&g_th[0]);
    }
}

// ------------------------------------------------------------- path mapping ---
namespace {
std::vector<std::pair<std::string, std::string>>* g_maps = nullptr; // virt -> real

bool map_path(char const* in, char* out) {
    if (in == nullptr || !g_active || g_maps == nullptr || t_tid < 0) { return false; }
    for (auto const& [v, r] : *g_maps) {
        size_t n = v.size();
        if (strncmp(in, v.c_str(), n) == 0 && (in[n] == 0 || in[n] == '/')) {
            snprintf(out, 4096, "%s%s", r.c_str(), in + n);
            return true;
        }
    }
    return false;
}
// real -> virtual, in place semantics through out buffer
bool unmap_path(char const* in, char* out) {
    if (g_maps == nullptr) { return false; }
    for (auto const& [v, r] : *g_maps) {
        size_t n = r.size();
        if (strncmp(in, r.c_str(), n) == 0 && (in[n] == 0 || in[n] == '/')) {
            snprintf(out, 4096, "%s%s", v.c_str(), in + n);
            return true;
        }
    }
    return false;
}

struct FdInfo {
    bool used = false;
    bool app  = false;
};
FdInfo g_fd[4096];
void   fd_set_used(int fd) {
    if (fd >= 0 && fd < 4096) { g_fd[fd].used = true; }
}
bool fd_used(int fd) { return fd >= 0 && fd < 4096 && g_fd[fd].used; }
void fd_clear(int fd) {
    if (fd >= 0 && fd < 4096) { g_fd[fd].used = false; }
}

int errno_of(std::string const& k) {
    static std::map<std::string, int> m{
        {"ENOSPC", ENOSPC}, {"EIO", EIO},       {"EACCES", EACCES}, {"EMFILE", EMFILE},
        {"EINTR", EINTR},   {"EDQUOT", EDQUOT}, {"ENOENT", ENOENT}, {"EROFS", EROFS},
        {"ENOMEM", ENOMEM}, {"EAGAIN", EAGAIN}, {"ENFILE", ENFILE}, {"EEXIST", EEXIST},
        {"EPERM", EPERM},   {"ESTALE", ESTALE}, {"EBADF", EBADF},   {"EFBIG", EFBIG}, {"ESRCH", ESRCH},
    };
    auto it = m.find(k);
    return it == m.end() ? EIO : it->second;
}

void touch_fd(int fd) {
    struct timespec ts[2];
    ts[0].tv_sec = ts[1].tv_sec = g_clock / 1'000'000'000;
    ts[0].tv_nsec = ts[1].tv_nsec = g_clock % 1'000'000'000;
    syscall(SYS_utimensat, fd, nullptr, ts, 0);
}
} // namespace

std::string real_root() { return *g_scratch + "/sim"; }
void        map_prefix(std::string const& virt, std::string const& real_sub) {
    In          in;
    std::string r = *g_scratch + "/" + real_sub;
    syscall(SYS_mkdir, r.c_str(), 0755);
    g_maps->push_back({virt, r});
}

namespace {
std::string realp(std::string const& v) {
    char b[4096];
    if (map_path(v.c_str(), b)) { return b; }
    return v;
}
} // namespace

void put_file(std::string const& vpath, std::string const& data) {
    In          in;
    std::string p  = realp(vpath);
    for (size_t i = 1; i < p.size(); ++i) {
        if (p[i] == '/') { syscall(SYS_mkdir, p.substr(0, i).c_str(), 0755); }
    }
    int         fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) {
        fprintf(stderr, "simkit: cannot write %s: %s\n", p.c_str(), strerror(errno));
        _exit(97);
    }
    size_t off = 0;
    while (off < data.size()) {
        long k = syscall(SYS_write, fd, data.data() + off, data.size() - off);
        if (k <= 0) { _exit(97); }
        off += (size_t)k;
    }
    touch_fd(fd);
    syscall(SYS_close, fd);
}
bool get_file(std::string const& vpath, std::string& out) {
    In          in;
    std::string p  = realp(vpath);
    int         fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0);
    if (fd < 0) { return false; }
    out.clear();
    char b[65536];
    while (true) {
        long k = syscall(SYS_read, fd, b, sizeof(b));
        if (k < 0) {
            syscall(SYS_close, fd);
            return false;
        }
        if (k == 0) { break; }
        out.append(b, (size_t)k);
    }
    syscall(SYS_close, fd);
    return true;
}
bool is_dir(std::string const& vpath) {
    In          in;
    struct stat st;
    return syscall(SYS_newfstatat, AT_FDCWD, realp(vpath).c_str(), &st, 0) == 0 && S_ISDIR(st.st_mode);
}
bool exists(std::string const& vpath) {
    In          in;
    struct stat st;
    return syscall(SYS_newfstatat, AT_FDCWD, realp(vpath).c_str(), &st, 0) == 0;
}
} // namespace sim

namespace sim {
std::function<int(char const*, std::string const&)> outside;
std::function<i64(int, void*, size_t)>              virtual_read;
namespace {
bool g_in_outside = false;
// the scenario's code must not see its own hooks
bool outside_fails(char const* site, char const* vpath) {
    if (!outside || g_in_outside) { return false; }
    g_in_outside = true;
    int e        = outside(site, vpath);
    g_in_outside = false;
    if (e != 0) { errno = e; }
    return e != 0;
}
bool outside_fails_fd(char const* site, int fd) {
    if (!outside || g_in_outside) { return false; }
    char link[64], real[4096], virt[4096];
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    long n = syscall(SYS_readlink, link, real, sizeof(real) - 1);
    if (n < 0) { return false; }
    real[n] = 0;
    return unmap_path(real, virt) && outside_fails(site, virt);
}
} // namespace
void make_link(std::string const& target, std::string const& vpath) {
    In in;
    if (syscall(SYS_symlink, target.c_str(), realp(vpath).c_str()) != 0) { _exit(97); }
}
void remove_path(std::string const& vpath) {
    In          in;
    std::string p = realp(vpath);
    if (g_scratch == nullptr || p.rfind(*g_scratch + "/", 0) != 0) { _exit(97); }
    if (syscall(SYS_unlink, p.c_str()) != 0 && syscall(SYS_rmdir, p.c_str()) != 0) { _exit(97); }
}
} // namespace sim

// ----------------------------------------------------------- interposition ---
using namespace sim;
#define REAL(ret, name, ...)                                                             \
    static ret (*real_##name)(__VA_ARGS__) = nullptr;                                    \
    if (!real_##name) { real_##name = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name); }

extern "C" {

void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
    if (start == stop || *start) { return; }
    for (uint32_t* x = start; x < stop; ++x) { *x = g_guard_total++; }
}

void __sanitizer_cov_pcs_init(uintptr_t const* beg, uintptr_t const* end) {
    g_pcs     = beg;
    g_pcs_end = end;
}

void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
    if (!g_active || t_tid < 0 || t_in != 0) { return; }
    step(*guard);
}

// ---- identity ----
pid_t getpid() noexcept {
    REAL(pid_t, getpid);
    return simulated() ? 4242 : real_getpid();
}
pid_t gettid() noexcept {
    REAL(pid_t, gettid);
    return simulated() ? 4242 + t_tid : real_gettid();
}
long syscall(long n, ...) noexcept {
    if (simulated()) {
        if (n == SYS_gettid) { return 4242 + t_tid; }
        if (n == SYS_getpid) { return 4242; }
    }
    REAL(long, syscall, long, long, long, long, long, long, long);
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (long& x : a) { x = va_arg(ap, long); }
    va_end(ap);
    return real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// ---- locks ----
int pthread_mutex_lock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_lock, pthread_mutex_t*);
    if (!simulated()) { return real_pthread_mutex_lock(m); }
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
    sync_point(2);
    In in;
    while (true) {
        int rc = real_pthread_mutex_trylock(m);
        if (rc != EBUSY) { return rc; }
        ++(*g_probes)["lock-contended"];
        block_on(m);
    }
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    if (!simulated()) {
        int rc = real_pthread_mutex_unlock(m);
        if (g_active && t_tid >= 0) { wake_all(m); }
        return rc;
    }
    int rc;
    {
        In in;
        rc = real_pthread_mutex_unlock(m);
        wake_all(m);
    }
    sync_point(3);
    return rc;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
    sync_point(4);
    return real_pthread_mutex_trylock(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
    if (!simulated()) { return real_pthread_rwlock_rdlock(m); }
    REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
    sync_point(5);
    In in;
    while (true) {
        int rc = real_pthread_rwlock_tryrdlock(m);
        if (rc != EBUSY && rc != EAGAIN) { return rc; }
        ++(*g_probes)["lock-contended"];
        block_on(m);
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
    if (!simulated()) { return real_pthread_rwlock_wrlock(m); }
    REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
    sync_point(6);
    In in;
    while (true) {
        int rc = real_pthread_rwlock_trywrlock(m);
        if (rc != EBUSY) { return rc; }
        ++(*g_probes)["lock-contended"];
        block_on(m);
    }
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
    if (!simulated()) {
        int rc = real_pthread_rwlock_unlock(m);
        if (g_active && t_tid >= 0) { wake_all(m); }
        return rc;
    }
    int rc;
    {
        In in;
        rc = real_pthread_rwlock_unlock(m);
        wake_all(m);
    }
    sync_point(7);
    return rc;
}

static int sim_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, i64 deadline) {
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    bool to;
    {
        In in;
        // waiting for the condition starts before the mutex is released
        real_pthread_mutex_unlock(m);
        wake_all(m);
        block_on(c, deadline);
        to = g_th[t_tid].timed_out;
    }
    int rc = pthread_mutex_lock(m);
    return rc ? rc : (to ? ETIMEDOUT : 0);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
    if (!simulated()) { return real_pthread_cond_wait(c, m); }
    return sim_cond_wait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const* t) {
    REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, struct timespec const*);
    if (!simulated()) { return real_pthread_cond_timedwait(c, m, t); }
    return sim_cond_wait(c, m, t->tv_sec * 1'000'000'000ll + t->tv_nsec);
}
int pthread_cond_clockwait(
    pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, struct timespec const* t) {
    REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, struct timespec const*);
    if (!simulated()) { return real_pthread_cond_clockwait(c, m, k, t); }
    return sim_cond_wait(c, m, t->tv_sec * 1'000'000'000ll + t->tv_nsec);
}
int pthread_cond_signal(pthread_cond_t* c) {
    REAL(int, pthread_cond_signal, pthread_cond_t*);
    if (!simulated()) { return real_pthread_cond_signal(c); }
    {
        In in;
        wake_all(c, 1);
    }
    sync_point(8);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    REAL(int, pthread_cond_broadcast, pthread_cond_t*);
    if (!simulated()) { return real_pthread_cond_broadcast(c); }
    {
        In in;
        wake_all(c);
    }
    sync_point(8);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    REAL(int, pthread_once, pthread_once_t*, void (*)(void));
    if (!simulated()) { return real_pthread_once(o, fn); }
    volatile int* st = (volatile int*)o; // 0 new, 2 done (glibc), -7 running here
    sync_point(9);
    while (true) {
        if (*st == 2) { return 0; }
        if (*st == -7) {
            In in;
            block_on(o);
            continue;
        }
        break;
    }
    *st = -7;
    try {
        fn();
    } catch (...) {
        *st = 0;
        In in;
        wake_all(o);
        throw;
    }
    *st = 2;
    In in;
    wake_all(o);
    return 0;
}
int sched_yield() {
    if (simulated()) {
        sync_point(1);
        return 0;
    }
    return (int)syscall(SYS_sched_yield);
}

// ---- function-local statics ----
int __cxa_guard_acquire(u64* g) {
    char* b = (char*)g;
    if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) { return 0; }
    while (true) {
        if (b[0]) { return 0; }
        if (b[1] && simulated()) {
            In in;
            ++(*g_probes)["static-init-contended"];
            block_on(g);
            continue;
        }
        b[1] = 1;
        return 1;
    }
}
void __cxa_guard_release(u64* g) {
    char* b = (char*)g;
    b[1]    = 0;
    __atomic_store_n(&b[0], (char)1, __ATOMIC_RELEASE);
    if (g_active && t_tid >= 0) {
        In in;
        wake_all(g);
    }
}
void __cxa_guard_abort(u64* g) {
    char* b = (char*)g;
    b[1]    = 0;
    if (g_active && t_tid >= 0) {
        In in;
        wake_all(g);
    }
}

// ---- clocks ----
static i64 clock_tick() {
    g_clock += g_tick;
    i64 off = g_clock_off;
    if (Fault const* f = fault_at("clock")) {
        if (f->kind == "jump") { g_clock += f->arg; }
        if (f->kind == "step") {
            g_clock_off += f->arg;
            off = g_clock_off;
        }
    }
    return g_clock + off;
}
int clock_gettime(clockid_t k, struct timespec* ts) noexcept {
    if (!simulated()) { return (int)syscall(SYS_clock_gettime, k, ts); }
    i64 t = clock_tick();
    if (k == CLOCK_MONOTONIC) { t = g_clock - g_clock0 + 1'000'000'000ll; }
    ts->tv_sec  = t / 1'000'000'000;
    ts->tv_nsec = t % 1'000'000'000;
    return 0;
}
int gettimeofday(struct timeval* tv, void* tz) noexcept {
    struct timespec ts;
    int             rc = clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec         = ts.tv_sec;
    tv->tv_usec        = ts.tv_nsec / 1000;
    return rc;
}
time_t time(time_t* out) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) { *out = ts.tv_sec; }
    return ts.tv_sec;
}
int nanosleep(struct timespec const* req, struct timespec* rem) {
    if (!simulated()) { return (int)syscall(SYS_nanosleep, req, rem); }
    In in;
    block_on((void*)req, g_clock + req->tv_sec * 1'000'000'000ll + req->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t k, int fl, struct timespec const* req, struct timespec* rem) {
    if (!simulated()) { return (int)syscall(SYS_clock_nanosleep, k, fl, req, rem); }
    In  in;
    i64 d = req->tv_sec * 1'000'000'000ll + req->tv_nsec;
    if (!(fl & TIMER_ABSTIME)) {
        d += g_clock;
    } else if (k == CLOCK_MONOTONIC) {
        d += g_clock0 - 1'000'000'000ll;
    }
    block_on((void*)req, d);
    return 0;
}

// ---- files ----
static int do_open(int dfd, char const* path, int flags, mode_t mode) {
    if (!simulated()) { return (int)syscall(SYS_openat, dfd, path, flags, mode); }
    char b[4096];
    bool mapped = map_path(path, b);
    sync_point(10);
    In in;
    if (mapped && outside_fails("open", path)) { return -1; }
    if ((mapped || path[0] != '/') && !(flags & O_DIRECTORY)) {
        if (Fault const* f = fault_at("open")) {
            errno = errno_of(f->kind);
            return -1;
        }
    }
    char const* rp = mapped ? b : path;
    int         fd = (int)syscall(SYS_openat, dfd, rp, flags, mode);
    if (fd >= 0) {
        if (mapped || path[0] != '/') { fd_set_used(fd); }
        if (flags & (O_TRUNC | O_CREAT)) { touch_fd(fd); }
    }
    return fd;
}
int open(char const* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return do_open(AT_FDCWD, path, flags, mode);
}
int open64(char const* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return do_open(AT_FDCWD, path, flags, mode);
}
int openat(int dfd, char const* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return do_open(dfd, path, flags, mode);
}
int openat64(int dfd, char const* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return do_open(dfd, path, flags, mode);
}

int __open_2(char const* path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(char const* path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __openat_2(int dfd, char const* path, int flags) { return do_open(dfd, path, flags, 0); }
int __openat64_2(int dfd, char const* path, int flags) { return do_open(dfd, path, flags, 0); }

static FILE* do_fopen(char const* path, char const* mode) {
    REAL(FILE*, fopen64, char const*, char const*);
    if (!simulated()) { return real_fopen64(path, mode); }
    char b[4096];
    bool mapped = map_path(path, b);
    sync_point(10);
    In in;
    bool app = mapped || path[0] != '/';
    if (mapped && outside_fails("open", path)) { return nullptr; }
    if (app) {
        if (Fault const* f = fault_at("open")) {
            errno = errno_of(f->kind);
            return nullptr;
        }
    }
    FILE* r = real_fopen64(mapped ? b : path, mode);
    if (r) {
        int fd = fileno(r);
        if (app) { fd_set_used(fd); }
        if (strchr(mode, 'w')) { touch_fd(fd); }
    }
    return r;
}
FILE* fopen(char const* path, char const* mode) { return do_fopen(path, mode); }
FILE* fopen64(char const* path, char const* mode) { return do_fopen(path, mode); }

ssize_t read(int fd, void* buf, size_t n) {
    if (fd >= kVirtualFd && simulated() && virtual_read) {
        sync_point(11);
        In in;
        return virtual_read(fd, buf, n);
    }
    if (!simulated() || !fd_used(fd)) { return syscall(SYS_read, fd, buf, n); }
    sync_point(11);
    In in;
    if (outside_fails_fd("read", fd)) { return -1; }
    if (Fault const* f = fault_at("read")) {
        if (f->kind == "short") {
            size_t k = f->arg <= 0 ? 1 : (size_t)f->arg;
            if (n > k) { n = k; }
        } else {
            errno = errno_of(f->kind);
            return -1;
        }
    }
    return syscall(SYS_read, fd, buf, n);
}
// returns -2 when the caller should proceed with *n bytes
static ssize_t write_fault(int fd, size_t* n) {
    if (g_faults) { (*g_sites)["@write_bytes"] += (i64)*n; }
    if (outside_fails_fd("write", fd)) { return -1; }
    if (Fault const* f = fault_at("write")) {
        if (f->kind == "short") {
            size_t k = f->arg <= 0 ? 1 : (size_t)f->arg;
            if (*n > k) { *n = k; }
        } else {
            errno = errno_of(f->kind);
            return -1;
        }
    }
    if (g_faults && g_capacity >= 0) {
        if (g_capacity == 0 && *n > 0) {
            ++(*g_fired)["write:disk-full"];
            ++g_fired_total;
            errno = ENOSPC;
            return -1;
        }
        if ((i64)*n > g_capacity) { *n = (size_t)g_capacity; }
        g_capacity -= (i64)*n;
    }
    return -2;
}
ssize_t write(int fd, void const* buf, size_t n) {
    if (!simulated() || !fd_used(fd)) { return syscall(SYS_write, fd, buf, n); }
    sync_point(12);
    In      in;
    ssize_t r = write_fault(fd, &n);
    if (r != -2) { return r; }
    r = syscall(SYS_write, fd, buf, n);
    touch_fd(fd);
    return r;
}
ssize_t writev(int fd, struct iovec const* v, int cnt) {
    if (!simulated() || !fd_used(fd)) { return syscall(SYS_writev, fd, v, cnt); }
    sync_point(12);
    In     in;
    size_t total = 0;
    for (int i = 0; i < cnt; ++i) { total += v[i].iov_len; }
    size_t  n = total;
    ssize_t r = write_fault(fd, &n);
    if (r != -2) { return r; }
    if (n == total) {
        r = syscall(SYS_writev, fd, v, cnt);
    } else {
        std::string s;
        for (int i = 0; i < cnt; ++i) { s.append((char const*)v[i].iov_base, v[i].iov_len); }
        r = syscall(SYS_write, fd, s.data(), n);
    }
    touch_fd(fd);
    return r;
}
/// A file system that stores data late reports at close that it could not.
static void lose_half(int fd) {
    struct stat st;
    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) { (void)!syscall(SYS_ftruncate, fd, st.st_size / 2); }
}

int close(int fd) {
    if (fd >= kVirtualFd && simulated() && virtual_read) { return 0; }
    if (!simulated() || !fd_used(fd)) { return (int)syscall(SYS_close, fd); }
    sync_point(13);
    In in;
    fd_clear(fd);
    bool         bad = outside_fails_fd("close", fd);
    int          err = errno;
    Fault const* f   = bad ? nullptr : fault_at("close");
    if (f && f->kind == "lost") { lose_half(fd); }
    int          rc  = (int)syscall(SYS_close, fd);
    if (bad) {
        errno = err;
        return -1;
    }
    if (f) {
        errno = errno_of(f->kind);
        return -1;
    }
    return rc;
}
int fclose(FILE* fp) {
    REAL(int, fclose, FILE*);
    if (!simulated()) { return real_fclose(fp); }
    int  fd   = fileno(fp);
    bool used = fd_used(fd);
    sync_point(13);
    In in;
    fd_clear(fd);
    bool bad = used && outside_fails_fd("close", fd);
    int  err = errno;
    Fault const* f = used && !bad ? fault_at("close") : nullptr;
    if (f && f->kind == "lost") {
        fflush(fp);
        lose_half(fd);
    }
    int rc = real_fclose(fp);
    if (bad) {
        errno = err;
        return EOF;
    }
    if (f) {
        errno = errno_of(f->kind);
        return EOF;
    }
    return rc;
}
int fsync(int fd) {
    if (simulated() && fd_used(fd)) {
        if (Fault const* f = fault_at("fsync")) {
            errno = errno_of(f->kind);
            return -1;
        }
        return 0;
    }
    return (int)syscall(SYS_fsync, fd);
}
static int path_fault(char const* site, bool mapped) {
    if (!mapped) { return 0; }
    if (Fault const* f = fault_at(site)) {
        errno = errno_of(f->kind);
        return -1;
    }
    return 0;
}
#define PATH_PROLOGUE(site)                                                              \
    char b[4096];                                                                        \
    bool mapped = map_path(path, b);                                                     \
    if (simulated()) {                                                                   \
        sync_point(14);                                                                  \
        In in;                                                                           \
        if (mapped && outside_fails(site, path)) { return -1; }                          \
        if (path_fault(site, mapped || path[0] != '/')) { return -1; }                   \
    }                                                                                    \
    char const* rp = mapped ? b : path;

static int do_statat(int dfd, char const* path, struct stat* st, int fl, char const* site) {
    if (path == nullptr || (path[0] == 0)) {
        return (int)syscall(SYS_newfstatat, dfd, path, st, fl);
    }
    PATH_PROLOGUE(site);
    return (int)syscall(SYS_newfstatat, dfd, rp, st, fl);
}
int stat(char const* path, struct stat* st) noexcept { return do_statat(AT_FDCWD, path, st, 0, "stat"); }
int stat64(char const* path, struct stat64* st) noexcept {
    return do_statat(AT_FDCWD, path, (struct stat*)st, 0, "stat");
}
int lstat(char const* path, struct stat* st) noexcept {
    return do_statat(AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW, "stat");
}
int lstat64(char const* path, struct stat64* st) noexcept {
    return do_statat(AT_FDCWD, path, (struct stat*)st, AT_SYMLINK_NOFOLLOW, "stat");
}
int fstatat(int dfd, char const* path, struct stat* st, int fl) noexcept {
    return do_statat(dfd, path, st, fl, "stat");
}
int fstatat64(int dfd, char const* path, struct stat64* st, int fl) noexcept {
    return do_statat(dfd, path, (struct stat*)st, fl, "stat");
}
int statx(int dfd, char const* path, int fl, unsigned mask, struct statx* st) noexcept {
    if (path == nullptr || path[0] == 0) { return (int)syscall(SYS_statx, dfd, path, fl, mask, st); }
    PATH_PROLOGUE("stat");
    return (int)syscall(SYS_statx, dfd, rp, fl, mask, st);
}
int access(char const* path, int m) noexcept {
    PATH_PROLOGUE("stat");
    return (int)syscall(SYS_access, rp, m);
}
int mkdir(char const* path, mode_t m) noexcept {
    PATH_PROLOGUE("mkdir");
    return (int)syscall(SYS_mkdir, rp, m);
}
int mkdirat(int dfd, char const* path, mode_t m) noexcept {
    PATH_PROLOGUE("mkdir");
    return (int)syscall(SYS_mkdirat, dfd, rp, m);
}
int rmdir(char const* path) noexcept {
    PATH_PROLOGUE("unlink");
    return (int)syscall(SYS_rmdir, rp);
}
int unlink(char const* path) noexcept {
    PATH_PROLOGUE("unlink");
    return (int)syscall(SYS_unlink, rp);
}
int unlinkat(int dfd, char const* path, int fl) noexcept {
    PATH_PROLOGUE("unlink");
    return (int)syscall(SYS_unlinkat, dfd, rp, fl);
}
int remove(char const* path) noexcept {
    struct stat st;
    if (do_statat(AT_FDCWD, path, &st, AT_SYMLINK_NOFOLLOW, "stat") != 0) { return -1; }
    return S_ISDIR(st.st_mode) ? rmdir(path) : unlink(path);
}
int rename(char const* path, char const* to) noexcept {
    PATH_PROLOGUE("rename");
    char c[4096];
    bool m2 = map_path(to, c);
    return (int)syscall(SYS_rename, rp, m2 ? c : to);
}
int renameat(int d1, char const* path, int d2, char const* to) noexcept {
    PATH_PROLOGUE("rename");
    char c[4096];
    bool m2 = map_path(to, c);
    return (int)syscall(SYS_renameat, d1, rp, d2, m2 ? c : to);
}
int chmod(char const* path, mode_t m) noexcept {
    PATH_PROLOGUE("chmod");
    return (int)syscall(SYS_chmod, rp, m);
}
int truncate(char const* path, off_t n) noexcept {
    PATH_PROLOGUE("truncate");
    return (int)syscall(SYS_truncate, rp, n);
}
int symlink(char const* target, char const* path) noexcept {
    PATH_PROLOGUE("symlink");
    char c[4096];
    bool m2 = map_path(target, c);
    return (int)syscall(SYS_symlink, m2 ? c : target, rp);
}
ssize_t readlink(char const* path, char* out, size_t n) noexcept {
    PATH_PROLOGUE("readlink");
    char    t[4096];
    ssize_t k = syscall(SYS_readlink, rp, t, sizeof(t) - 1);
    if (k < 0) { return k; }
    t[k] = 0;
    char u[4096];
    char const* res = (mapped && unmap_path(t, u)) ? u : t;
    size_t      len = strlen(res);
    if (len > n) { len = n; }
    memcpy(out, res, len);
    return (ssize_t)len;
}
int utimensat(int dfd, char const* path, struct timespec const ts[2], int fl) noexcept {
    if (path == nullptr) { return (int)syscall(SYS_utimensat, dfd, path, ts, fl); }
    PATH_PROLOGUE("utime");
    return (int)syscall(SYS_utimensat, dfd, rp, ts, fl);
}
int chdir(char const* path) noexcept {
    PATH_PROLOGUE("chdir");
    return (int)syscall(SYS_chdir, rp);
}
char* realpath(char const* path, char* out) noexcept {
    REAL(char*, realpath, char const*, char*);
    if (!g_active || t_tid < 0) { return real_realpath(path, out); }
    char  b[4096];
    bool  mapped = map_path(path, b);
    char  r[4096];
    {
        In in;
        if (!real_realpath(mapped ? b : path, r)) { return nullptr; }
    }
    char        u[4096];
    char const* res = unmap_path(r, u) ? u : r;
    if (!out) { out = (char*)malloc(strlen(res) + 1); }
    strcpy(out, res);
    return out;
}
char* getcwd(char* buf, size_t n) noexcept {
    char t[4096];
    if (syscall(SYS_getcwd, t, sizeof(t)) < 0) { return nullptr; }
    char        u[4096];
    char const* res = (g_active && t_tid >= 0 && unmap_path(t, u)) ? u : t;
    if (!buf) {
        buf = (char*)malloc(n ? n : strlen(res) + 1);
    } else if (strlen(res) + 1 > n) {
        errno = ERANGE;
        return nullptr;
    }
    strcpy(buf, res);
    return buf;
}

// ---- directory listings: sorted, then put in the planned order ----
} // extern "C"
namespace {
struct Listing {
    std::vector<struct dirent> e;
    size_t                     pos = 0;
};
std::map<DIR*, Listing>* g_dirs  = nullptr;
u64                      g_dir_n = 0;
} // namespace
extern "C" {
DIR* opendir(char const* path) {
    REAL(DIR*, opendir, char const*);
    if (!simulated()) { return real_opendir(path); }
    char b[4096];
    bool mapped = map_path(path, b);
    sync_point(14);
    In in;
    if (mapped && outside_fails("opendir", path)) { return nullptr; }
    if (path_fault("opendir", mapped || path[0] != '/')) { return nullptr; }
    return real_opendir(mapped ? b : path);
}
DIR* fdopendir(int fd) {
    REAL(DIR*, fdopendir, int);
    if (!simulated()) { return real_fdopendir(fd); }
    In in;
    if (path_fault("opendir", true)) { return nullptr; }
    return real_fdopendir(fd);
}
struct dirent* readdir(DIR* d) {
    REAL(struct dirent*, readdir, DIR*);
    if (!simulated()) { return real_readdir(d); }
    sync_point(14);
    In in;
    if (Fault const* f = fault_at("readdir")) {
        errno = errno_of(f->kind);
        return nullptr;
    }
    if (!g_dirs) { g_dirs = new std::map<DIR*, Listing>(); }
    auto it = g_dirs->find(d);
    if (it == g_dirs->end()) {
        it = g_dirs->emplace(d, Listing{}).first;
        errno = 0;
        while (struct dirent* e = real_readdir(d)) {
            struct dirent c{};
            memcpy(&c, e, sizeof(struct dirent) < e->d_reclen ? sizeof(struct dirent) : e->d_reclen);
            it->second.e.push_back(c);
        }
        auto& v = it->second.e;
        std::sort(v.begin(), v.end(), [](auto const& a, auto const& b) {
            return strcmp(a.d_name, b.d_name) < 0;
        });
        if (g_plan->params.contains("dir_order")) {
            Rng r(mix(g_plan->params["dir_order"].get<u64>(), g_dir_n++));
            for (size_t i = v.size(); i > 1; --i) { std::swap(v[i - 1], v[r.below(i)]); }
        }
    }
    auto& l = it->second;
    if (l.pos >= l.e.size()) {
        return nullptr;
    }
    return &l.e[l.pos++];
}
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)readdir(d); }
int closedir(DIR* d) {
    REAL(int, closedir, DIR*);
    if (g_dirs) {
        In in;
        g_dirs->erase(d);
    }
    return real_closedir(d);
}
} // extern "C"

// ---- allocation ----
static inline bool alloc_fails() {
    if (!g_active || !g_allocs || t_tid < 0 || t_in) { return false; }
    i64 n = g_alloc_count++;
    if (g_alloc_persist >= 0 && n >= g_alloc_persist) {
        In in;
        ++(*g_fired)["alloc:persist"];
        ++g_fired_total;
        return true;
    }
    if (g_alloc_fail && !g_alloc_fail->empty()) {
        for (i64 k : *g_alloc_fail) {
            if (k == n) {
                In in;
                ++(*g_fired)["alloc:fail"];
                ++g_fired_total;
                return true;
            }
        }
    }
    return false;
}
void* operator new(size_t n) {
    if (alloc_fails()) { throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if (!p) { throw std::bad_alloc(); }
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept {
    if (alloc_fails()) { return nullptr; }
    return malloc(n ? n : 1);
}
void* operator new[](size_t n, std::nothrow_t const& t) noexcept { return operator new(n, t); }
void* operator new(size_t n, std::align_val_t a) {
    if (alloc_fails()) { throw std::bad_alloc(); }
    void* p = nullptr;
    if (posix_memalign(&p, (size_t)a < sizeof(void*) ? sizeof(void*) : (size_t)a, n ? n : 1) != 0) {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void  operator delete(void* p) noexcept { free(p); }
void  operator delete[](void* p) noexcept { free(p); }
void  operator delete(void* p, size_t) noexcept { free(p); }
void  operator delete[](void* p, size_t) noexcept { free(p); }
void  operator delete(void* p, std::align_val_t) noexcept { free(p); }
void  operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void  operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void  operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
void  operator delete(void* p, std::nothrow_t const&) noexcept { free(p); }
void  operator delete[](void* p, std::nothrow_t const&) noexcept { free(p); }

// --------------------------------------------------------------------- child ---
namespace sim {
std::vector<std::string> list_tree(std::string const& vpath) {
    In                       in;
    std::vector<std::string> out;
    std::function<void(std::string const&, std::string const&)> walk =
        [&](std::string const& real, std::string const& rel) {
            REAL(DIR*, opendir, char const*);
            REAL(struct dirent*, readdir, DIR*);
            DIR* d = real_opendir(real.c_str());
            if (!d) { return; }
            std::vector<std::string> names;
            while (struct dirent* e = real_readdir(d)) {
                std::string n = e->d_name;
                if (n != "." && n != "..") { names.push_back(n); }
            }
            REAL(int, closedir, DIR*);
            real_closedir(d);
            std::sort(names.begin(), names.end());
            for (auto const& n : names) {
                struct stat st;
                std::string p = real + "/" + n;
                syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW);
                if (S_ISDIR(st.st_mode)) {
                    out.push_back(rel + n + "/");
                    walk(p, rel + n + "/");
                } else {
                    out.push_back(rel + n);
                }
            }
        };
    walk(realp(vpath), "");
    return out;
}

void child_main(Scenario const& sc, Plan const& p, std::string const& scratch) {
    t_in = 1;
    g_plan        = new Plan(p);
    g_scratch     = new std::string(scratch);
    g_hist        = new std::vector<std::string>();
    g_probes      = new std::map<std::string, i64>();
    g_sites       = new std::map<std::string, i64>();
    g_fired       = new std::map<std::string, i64>();
    g_maps        = new std::vector<std::pair<std::string, std::string>>();
    g_step_budget = sc.step_budget;
    g_step_preempts  = new std::vector<std::pair<i64, int>>();
    g_guard_preempts = new std::vector<Preempt>();
    g_alloc_fail     = new std::vector<i64>();
    for (auto const& q : g_plan->preempts) {
        if (q.step >= 0) {
            g_step_preempts->push_back({q.step, q.to});
        } else {
            if (!g_hot) {
                g_hot = (uint8_t*)mmap(
                    nullptr, (size_t)Shared::kThreads * g_guard_total, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            }
            if (q.guard < g_guard_total && q.tid >= 0 && q.tid < Shared::kThreads) {
                g_hot[(size_t)q.tid * g_guard_total + q.guard] = 1;
                g_guard_preempts->push_back(q);
            }
        }
    }
    std::sort(g_step_preempts->begin(), g_step_preempts->end());
    if (!g_step_preempts->empty()) { g_next_step = (*g_step_preempts)[0].first; }
    for (auto const& f : g_plan->faults) {
        if (f.site == "alloc") {
            if (f.kind == "persist") {
                g_alloc_persist = f.nth;
            } else {
                g_alloc_fail->push_back(f.nth);
            }
        }
        if (f.site == "capacity") { g_capacity = f.arg; }
    }
    if (g_plan->params.contains("tick_ns")) { g_tick = g_plan->params["tick_ns"]; }
    if (g_plan->params.contains("clock0")) {
        g_clock = g_clock0 = g_plan->params["clock0"].get<i64>();
    }
    std::string root = scratch + "/sim";
    syscall(SYS_mkdir, root.c_str(), 0755);
    std::string tmp = scratch + "/tmp";
    syscall(SYS_mkdir, tmp.c_str(), 0755);
    g_maps->push_back({"/sim", root});
    g_maps->push_back({"/tmp", tmp});
    if (syscall(SYS_chdir, root.c_str()) != 0) { abort(); }
    struct rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    g_nth         = 1;
    g_th[0].state = 1;
    t_tid         = 0;
    t_in          = 0;
    g_active      = true;
    try {
        sc.run(*g_plan);
    } catch (std::exception const& e) {
        violate("uncaught", std::string("scenario ended with exception: ") + e.what());
    } catch (...) { violate("uncaught", "scenario ended with unknown exception"); }
    ++t_in;
    finish(nullptr, "");
}
} // namespace sim
