#pragma once
// Deterministic simulator core: one runnable thread at a time, every source of
// nondeterminism (scheduling, clock, file I/O, allocation failure) decided by
// an explicit plan that is itself a pure function of one seed.
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>

namespace sim {
using json = nlohmann::json;
using u64  = std::uint64_t;
using i64  = std::int64_t;

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z     = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z     = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64  below(u64 n) { return n == 0 ? 0 : next() % n; }
    i64  range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool chance(int num, int den) { return (int)below((u64)den) < num; }
    template <typename T>
    T const& pick(std::vector<T> const& v) {
        return v.at(below(v.size()));
    }
    u64 fork() { return next(); }
};

u64 mix(u64 a, u64 b);
u64 hash_str(std::string const& s, u64 h = 1469598103934665603ull);

struct Preempt {
    i64      step  = -1; // global step ordinal, or
    int      tid   = -1; // the occ-th hit of one code location by one thread
    uint32_t guard = 0;
    i64      occ   = 0;
    int      to    = 0; // index among the other runnable threads
};

struct Fault {
    std::string site;     // "open", "read", "write", "close", "alloc", ...
    i64         nth  = 0; // 0-based occurrence of the site inside fault regions
    std::string kind;     // errno name, "short", "jump", scenario specific
    i64         arg = 0;
};

struct Plan {
    std::string          scenario;
    u64                  seed = 0;
    json                 params = json::object();
    json                 ops    = json::array();
    std::vector<Preempt> preempts;
    std::vector<int>     choices;
    std::vector<Fault>   faults;

    json        to_json() const;
    static Plan from_json(json const& j);
};

// ---- facilities for code running inside the simulated child -----------------

/// Create a simulated thread; it runs when the scheduler picks it.
int  spawn(std::function<void()> fn);
/// Run the other threads until all are finished.
void join_all();
/// Explicit scheduling point.
void yield_point();
/// Index of the calling simulated thread (0 = scenario main), -1 outside.
int  tid();

/// Simulated clock, ns since epoch.
i64  now_ns();
void advance_ns(i64 ns);
void set_clock_ns(i64 ns);

/// Record an observable event: goes into the run's history and its hash.
void hist(std::string const& line);
/// Count that an interesting situation was reached.
void probe(std::string const& name, i64 n = 1);
/// Report a violation and end the run.
[[noreturn]] void violate(std::string const& cls, std::string const& msg);
/// End the run as invalid (harness cannot judge it); counted separately.
[[noreturn]] void discard(std::string const& why);

/// I/O faults are only injected, and only counted, inside a region.
struct FaultRegion {
    bool prev;
    FaultRegion(bool on = true);
    ~FaultRegion();
};
/// Allocation failures likewise.
struct AllocRegion {
    bool prev;
    AllocRegion(bool on = true);
    ~AllocRegion();
};
/// Turns every interposed fault / preemption off (oracle code, set-up).
struct Quiet {
    bool pf, pa, ps;
    Quiet();
    ~Quiet();
};

/// Scenario specific fault sites: returns the fault planned for this
/// occurrence, or nullptr.
Fault const* fault_at(char const* site);
i64          fired_total();
i64          fired(std::string const& site);
/// Everything that fired so far, by "site:kind".
std::map<std::string, i64> fired_map();

Plan const& plan();

/// Directory (real path) that is mounted as "/sim" for code under test.
std::string real_root();
/// Map another virtual prefix, e.g. "/proc", below the scratch directory.
void        map_prefix(std::string const& virt, std::string const& real_sub);

/// The scenario's outside world: called before every operation on a mapped path
/// (virtual path; for read, write and close the one the descriptor was opened
/// with). A nonzero result is the errno the operation fails with.
extern std::function<int(char const* site, std::string const& vpath)> outside;
/// Descriptors made up by the scenario, kVirtualFd and above, are read here.
constexpr int kVirtualFd = 1'000'000;
extern std::function<i64(int fd, void* buf, size_t n)> virtual_read;

/// Raw file access for set-up and oracles; never faulted. Paths are virtual.
void                       put_file(std::string const& vpath, std::string const& data);
bool                       get_file(std::string const& vpath, std::string& out);
bool                       is_dir(std::string const& vpath);
bool                       exists(std::string const& vpath);
void                       make_link(std::string const& target, std::string const& vpath);
void                       remove_path(std::string const& vpath); // one file or empty directory
std::vector<std::string>   list_tree(std::string const& vpath);

// ---- driver side ------------------------------------------------------------

struct FaultMenu {
    std::string              site;
    std::vector<std::string> kinds;
    int                      weight = 1;
};

struct Scenario {
    std::string name;
    std::string property;
    /// run once in the pristine process all runs are forked from
    std::function<void()> warmup;
    /// fill plan.params / plan.ops
    std::function<void(Rng&, Plan&)> workload;
    /// executed in the child
    std::function<void(Plan const&)> run;
    std::vector<FaultMenu>           menu;
    bool                             preempt   = false;
    int                              variants  = 8; // plans per workload
    int                              max_faults = 3;
    /// one variant per occurrence of this site instead of random placement
    std::string                      sweep_site;
    int                              sweep_cap = 0;
    /// scenario specific addition to a plan, given the fault-free run's report
    std::function<void(Rng&, Plan&, json const&)> vary;
    i64                              step_budget = 40'000'000;
    std::vector<std::string>         real, stub;
};

void                   register_scenario(Scenario s);
std::vector<Scenario>& scenarios();

// internal, used by the driver
struct Shared {
    static constexpr size_t kBuf = 8u << 20;
    static constexpr int    kThreads = 8;
    volatile u64            in_len, out_len;
    char                    in[kBuf];
    char                    out[kBuf];
};
extern Shared*   shm;
extern uint32_t* guard_counts; // [kThreads][guard_total]
uint32_t         guard_total();
uintptr_t        guard_pc(uint32_t guard);
void             child_main(Scenario const& sc, Plan const& p, std::string const& scratch);
std::vector<std::string>& args();
} // namespace sim
