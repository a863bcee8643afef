// Driver of a scenario binary: seeded search, determinism re-runs, minimisation,
// replay. One process = one shard; the Python front end starts several.
#include "simkit.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <ftw.h>
#include <iostream>
#include <malloc.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace {
int         to_zygote[2], from_zygote[2];
std::string scratch;
Scenario*   SC = nullptr;
int         wall_limit_s = 60;

double wall() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void rm_contents() {
    auto cb = [](char const* p, struct stat const*, int type, struct FTW* f) -> int {
        if (f->level == 0) { return 0; }
        ::chmod(p, 0700);
        if (type == FTW_DP || type == FTW_D) {
            ::rmdir(p);
        } else {
            ::unlink(p);
        }
        return 0;
    };
    nftw(scratch.c_str(), cb, 32, FTW_DEPTH | FTW_PHYS);
}

[[noreturn]] void zygote() {
    // No allocation happens here between runs: every child starts from the
    // same memory image.
    while (true) {
        char c;
        if (::read(to_zygote[0], &c, 1) != 1) { _exit(0); }
        pid_t pid = fork();
        if (pid == 0) {
            struct itimerval it{};
            it.it_value.tv_sec = wall_limit_s;
            setitimer(ITIMER_REAL, &it, nullptr);
            struct rlimit as{6ull << 30, 6ull << 30};
            setrlimit(RLIMIT_AS, &as);
            std::string text(shm->in, shm->in_len);
            Plan        p = Plan::from_json(json::parse(text));
            child_main(*SC, p, scratch);
            _exit(99);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (::write(from_zygote[1], &st, sizeof(st)) != sizeof(st)) { _exit(0); }
    }
}

struct Result {
    bool        violated = false;
    bool        infra    = false; // harness problem (wall-clock limit)
    std::string cls, msg, discard;
    u64         hash = 0;
    json        report = json::object();
};

Result run_plan(Plan const& p) {
    std::string text = p.to_json().dump();
    if (text.size() >= Shared::kBuf) {
        fprintf(stderr, "plan too large\n");
        exit(3);
    }
    memcpy(shm->in, text.data(), text.size());
    shm->in_len  = text.size();
    shm->out_len = 0;
    size_t guard_bytes = (size_t)Shared::kThreads * guard_total() * 4;
    if (madvise(guard_counts, guard_bytes, MADV_REMOVE) != 0) { memset(guard_counts, 0, guard_bytes); }
    char c  = 'r';
    int  st = 0;
    if (::write(to_zygote[1], &c, 1) != 1) { exit(3); }
    if (::read(from_zygote[0], &st, sizeof(st)) != sizeof(st)) {
        fprintf(stderr, "zygote died\n");
        exit(3);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
        fprintf(stderr, "harness failure in run %s\n", text.substr(0, 2000).c_str());
        exit(3);
    }
    Result r;
    if (shm->out_len) {
        r.report = json::parse(std::string(shm->out, shm->out_len), nullptr, false);
        if (r.report.is_discarded()) { r.report = json::object(); }
        r.hash = r.report.value("hash", (u64)0);
        if (r.report.contains("violation") && !r.report["violation"].is_null()) {
            r.violated = true;
            r.cls      = r.report["violation"]["class"];
            r.msg      = r.report["violation"]["msg"];
        }
        r.discard = r.report.value("discard", std::string());
    } else if (WIFSIGNALED(st)) {
        int sig = WTERMSIG(st);
        if (sig == SIGALRM) {
            r.infra = true;
            r.cls   = "wall-limit";
        } else {
            r.violated = true;
            r.cls      = "crash";
            r.msg      = std::string("process died with signal ") + strsignal(sig);
        }
        r.hash = mix(hash_str(r.cls), (u64)sig);
    } else {
        r.violated = true;
        r.cls      = "exit";
        r.msg      = "process ended unexpectedly with status " + std::to_string(WEXITSTATUS(st));
        r.hash     = mix(hash_str(r.cls), (u64)st);
    }
    rm_contents();
    return r;
}

std::vector<std::vector<std::pair<uint32_t, uint32_t>>> guard_profile() {
    std::vector<std::vector<std::pair<uint32_t, uint32_t>>> out(Shared::kThreads);
    for (int t = 0; t < Shared::kThreads; ++t) {
        uint32_t* p = guard_counts + (size_t)t * guard_total();
        for (uint32_t g = 0; g < guard_total(); ++g) {
            if (p[g]) { out[t].push_back({g, p[g]}); }
        }
    }
    return out;
}

using Profile = std::vector<std::vector<std::pair<uint32_t, uint32_t>>>;

void gen_preempts(Rng& r, Plan& p, json const& rep, Profile const& prof) {
    static int const ks[] = {1, 1, 2, 2, 3, 4, 6, 9, 14};
    int              k    = ks[r.below(9)];
    i64              n    = rep.value("steps", (i64)0);
    int              nt   = rep.value("threads", 1);
    for (int i = 0; i < k; ++i) {
        Preempt q;
        q.to = (int)r.below(4);
        if (r.chance(2, 3)) {
            q.tid = nt > 1 ? (int)r.range(1, nt - 1) : 0;
            if (prof[q.tid].empty()) { continue; }
            auto [g, c] = prof[q.tid][r.below(prof[q.tid].size())];
            q.guard     = g;
            q.occ       = (i64)r.below(c);
        } else {
            if (n < 1) { continue; }
            q.step = (i64)r.below((u64)n) + 1;
        }
        p.preempts.push_back(q);
    }
    for (int i = 0; i < 6; ++i) { p.choices.push_back((int)r.below(4)); }
}

i64 gen_arg(Rng& r, std::string const& kind) {
    if (kind == "short") {
        static i64 const a[] = {1, 1, 2, 3, 7, 64, 511, 1023, 4095, 4096, 8191};
        return a[r.below(11)];
    }
    if (kind == "jump" || kind == "step") {
        static i64 const a[] = {
            1, 999, 1'000'000, 999'999'999, 1'000'000'000, 3'600'000'000'000ll};
        i64 v = a[r.below(6)] + (i64)r.below(1000);
        return (kind == "step" && r.chance(1, 2)) ? -v : v;
    }
    return 0;
}

void gen_faults(Rng& r, Plan& p, json const& rep, Scenario const& sc) {
    std::vector<FaultMenu const*> live;
    for (auto const& m : sc.menu) {
        std::string key = m.site == "capacity" ? "@write_bytes" : m.site;
        i64 c = m.site == "alloc" ? rep.value("allocs", (i64)0)
                                  : (rep.contains("sites") ? rep["sites"].value(key, (i64)0) : 0);
        if (c > 0) {
            for (int i = 0; i < m.weight; ++i) { live.push_back(&m); }
        }
    }
    if (live.empty()) { return; }
    int k = 1 + (int)r.below((u64)sc.max_faults);
    if (r.chance(1, 2)) { k = 1; }
    for (int i = 0; i < k; ++i) {
        auto const& m = *live[r.below(live.size())];
        Fault       f;
        f.site = m.site;
        f.kind = m.kinds[r.below(m.kinds.size())];
        f.arg  = gen_arg(r, f.kind);
        i64 c  = m.site == "alloc" ? rep.value("allocs", (i64)0)
                                   : rep["sites"].value(m.site, (i64)0);
        if (m.site == "capacity") {
            f.arg = (i64)r.below((u64)rep["sites"].value("@write_bytes", (i64)0));
            f.nth = -1;
        } else {
            f.nth = (i64)r.below((u64)c + (r.chance(1, 8) ? 2 : 0));
        }
        p.faults.push_back(f);
    }
}

template <typename T, typename Get>
bool ddmin(Plan& p, Get get, std::string const& cls, int& budget, Result& last) {
    bool changed = false;
    for (size_t chunk = std::max<size_t>(1, get(p).size() / 2); budget > 0;) {
        bool any = false;
        for (size_t i = 0; i < get(p).size() && budget > 0;) {
            Plan  q = p;
            auto& v = get(q);
            size_t e = std::min(v.size(), i + chunk);
            T      nv;
            if constexpr (std::is_same_v<T, json>) { nv = json::array(); }
            for (size_t k = 0; k < v.size(); ++k) {
                if (k < i || k >= e) { nv.push_back(v[k]); }
            }
            v        = nv;
            --budget;
            Result r = run_plan(q);
            if (r.violated && r.cls == cls) {
                p       = q;
                last    = r;
                any     = true;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if (chunk == 1 && !any) { break; }
        if (chunk > 1) { chunk = chunk / 2; }
        if (get(p).empty()) { break; }
    }
    return changed;
}

Plan minimise(Plan p, std::string const& cls, Result& last) {
    int budget = 500;
    for (int round = 0; round < 3 && budget > 0; ++round) {
        bool ch = false;
        ch |= ddmin<std::vector<Fault>>(p, [](Plan& q) -> auto& { return q.faults; }, cls, budget, last);
        ch |= ddmin<std::vector<Preempt>>(p, [](Plan& q) -> auto& { return q.preempts; }, cls, budget, last);
        {
            Plan q = p;
            q.choices.clear();
            if (!p.choices.empty()) {
                --budget;
                Result r = run_plan(q);
                if (r.violated && r.cls == cls) {
                    p    = q;
                    last = r;
                    ch   = true;
                }
            }
        }
        ch |= ddmin<json>(p, [](Plan& q) -> json& { return q.ops; }, cls, budget, last);
        if (!ch) { break; }
    }
    return p;
}
} // namespace

int main(int argc, char** argv) {
    if (!getenv("SIMKIT_REEXEC")) {
        int cur = personality(0xffffffff);
        if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE)) { personality(cur | ADDR_NO_RANDOMIZE); }
        char        e1[] = "SIMKIT_REEXEC=1";
        char        e2[] = "LC_ALL=C.UTF-8";
        char        e3[] = "TZ=UTC";
        char        e4[] = "MALLOC_ARENA_MAX=1";
        // The arguments travel in one variable of fixed size, so that stack and
        // heap look the same whatever the arguments are.
        std::vector<std::string> a(argv + 1, argv + argc);
        bool        has_scenario = false;
        std::string replay;
        for (size_t i = 0; i + 1 < a.size(); i += 2) {
            if (a[i] == "--scenario") { has_scenario = true; }
            if (a[i] == "--replay") { replay = a[i + 1]; }
        }
        if (!has_scenario && !replay.empty()) {
            std::ifstream in(replay);
            json          j = json::parse(in, nullptr, false);
            if (j.is_object() && j.contains("scenario")) {
                a.push_back("--scenario");
                a.push_back(j["scenario"]);
            }
        }
        std::string e5 = "SIMKIT_ARGS=";
        for (auto const& s : a) { e5 += s + "\x1f"; }
        e5.resize(32768, ' ');
        char  a0[]   = "sim";
        char* args[] = {a0, nullptr};
        char* env[]  = {e1, e2, e3, e4, e5.data(), nullptr};
        execve("/proc/self/exe", args, env);
        perror("execve");
        return 3;
    }
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_PERTURB, 0xA5);
    mallopt(M_MMAP_THRESHOLD, 1 << 30);
    signal(SIGPIPE, SIG_IGN);
    // no allocation before the zygote is forked
    char const* packed = getenv("SIMKIT_ARGS");
    for (char const* p = packed; p && *p;) {
        char const* e = strchr(p, 0x1f);
        if (!e) { break; }
        if ((size_t)(e - p) == strlen("--scenario") && strncmp(p, "--scenario", e - p) == 0) {
            p = e + 1;
            e = strchr(p, 0x1f);
            for (auto& s : scenarios()) {
                if (s.name.size() == (size_t)(e - p) && strncmp(p, s.name.c_str(), e - p) == 0) { SC = &s; }
            }
            break;
        }
        p = e + 1;
    }
    if (!SC) {
        for (auto& s : scenarios()) { printf("%s %s\n", s.name.c_str(), s.property.c_str()); }
        return 3;
    }
    shm          = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    guard_counts = (uint32_t*)mmap(
        nullptr, (size_t)Shared::kThreads * guard_total() * 4, PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char        tmpl[] = "/tmp/simXXXXXX";
    if (!mkdtemp(tmpl)) {
        perror("mkdtemp");
        return 3;
    }
    scratch = tmpl;
    if (SC->warmup) { SC->warmup(); }
    if (pipe(to_zygote) != 0 || pipe(from_zygote) != 0) { return 3; }
    fflush(nullptr);
    pid_t z = fork();
    if (z == 0) {
        close(to_zygote[1]);
        close(from_zygote[0]);
        zygote();
    }
    close(to_zygote[0]);
    close(from_zygote[1]);

    std::map<std::string, std::string> opt;
    {
        std::vector<std::string> a;
        std::string              s = packed;
        for (size_t i = 0, e; (e = s.find('\x1f', i)) != std::string::npos; i = e + 1) {
            a.push_back(s.substr(i, e - i));
        }
        for (size_t i = 0; i + 1 < a.size(); i += 2) { opt[a[i]] = a[i + 1]; }
    }
    auto get = [&](char const* k, std::string d) { return opt.count(k) ? opt[k] : d; };
    int rc = 0;
    if (opt.count("--replay")) {
        std::ifstream in(opt["--replay"]);
        json          j = json::parse(in);
        Plan          p = Plan::from_json(j.at("plan"));
        Result        r = run_plan(p);
        json out{{"violated", r.violated || r.infra}, {"class", r.cls}, {"msg", r.msg}, {"hash", r.hash},
                 {"hist", r.report.value("hist", json::array())}};
        std::cout << out.dump(get("--pretty", "") == "1" ? 2 : -1) << std::endl;
        rc = (r.violated || r.infra) ? 1 : 0;
    } else {
        u64    seed     = std::stoull(get("--seed", "1"));
        int    shard    = std::stoi(get("--shard", "0"));
        int    shards   = std::stoi(get("--shards", "1"));
        i64    nwork    = std::stoll(get("--workloads", "50"));
        double budget   = std::stod(get("--seconds", "1e9"));
        int    recheck  = std::stoi(get("--recheck", "40")); // every n-th run twice
        std::set<std::string> known;
        {
            std::string k = get("--known", "");
            size_t      i = 0;
            while (i < k.size()) {
                size_t e = k.find('\n', i);
                if (e == std::string::npos) { e = k.size(); }
                known.insert(k.substr(i, e - i));
                i = e + 1;
            }
        }
        std::string outp = get("--out", "/dev/stdout");
        std::string repl = get("--replay-out", "replay.json");
        u64    scseed    = mix(seed, hash_str(SC->name));
        double t0        = wall();
        i64    runs = 0, probes_runs = 0, discards = 0, rechecks = 0, mism = 0, infra = 0;
        i64    steps = 0, switches = 0, sim_ns = 0, nontrivial = 0;
        std::map<std::string, i64> fired, probes, known_hits;
        std::set<u64> hashes, fps;
        std::set<uint32_t> guards;
        json samples = json::array();
        json violation;
        i64  done_w = 0;
        bool out_of_time = false;
        auto account = [&](Plan const& p, Result const& r) {
            ++runs;
            auto const& rep = r.report;
            steps += rep.value("steps", (i64)0);
            switches += rep.value("switches", (i64)0);
            sim_ns += rep.value("sim_ns", (i64)0);
            i64 fcount = 0;
            if (rep.contains("fired")) {
                for (auto const& [k, v] : rep["fired"].items()) {
                    fired[k] += v.get<i64>();
                    fcount += v.get<i64>();
                }
            }
            if (rep.contains("probes")) {
                for (auto const& [k, v] : rep["probes"].items()) { probes[k] += v.get<i64>(); }
            }
            if (!r.discard.empty()) { ++discards; }
            if (fcount > 0 && r.discard.empty()) {
                ++nontrivial;
                hashes.insert(r.hash);
            }
            fps.insert(mix(rep.value("sched_fp", (u64)0), p.seed));
            if (samples.size() < 3 && fcount > 0) {
                json s = p.to_json();
                if (s["ops"].size() > 12) {
                    json o = json::array();
                    for (int i = 0; i < 12; ++i) { o.push_back(s["ops"][i]); }
                    o.push_back("... " + std::to_string(s["ops"].size()) + " ops");
                    s["ops"] = o;
                }
                s["fired"] = rep["fired"];
                std::string d = s.dump();
                if (d.size() < 6000) { samples.push_back(s); }
            }
        };
        auto handle = [&](Plan const& p, Result const& r) -> bool {
            // true: stop the shard
            if (r.infra) {
                ++infra;
                Result again = run_plan(p);
                if (!again.infra) { return false; }
                // twice over the wall-clock limit of a run that takes milliseconds
                json f;
                f["property"] = SC->property;
                f["scenario"] = SC->name;
                f["seed"]     = seed;
                f["plan"]     = p.to_json();
                f["class"]    = r.cls;
                f["msg"]      = "the run does not end";
                f["hash"]     = r.hash;
                std::ofstream(repl) << f.dump(1);
                violation = {{"class", r.cls}, {"msg", f["msg"]}, {"hash", r.hash}, {"replay", repl}};
                return true;
            }
            if (!r.violated) { return false; }
            if (known.count(r.cls)) {
                ++known_hits[r.cls];
                return false;
            }
            Result again = run_plan(p);
            if (!again.violated || again.cls != r.cls || again.hash != r.hash) {
                ++mism;
                fprintf(stderr, "nondeterministic: class %s/%s hash %llu/%llu\n%s\n%s\n", r.cls.c_str(),
                        again.cls.c_str(), (unsigned long long)r.hash, (unsigned long long)again.hash,
                        r.msg.c_str(), p.to_json().dump().substr(0, 3000).c_str());
                return true;
            }
            Result last = r;
            Plan   m    = minimise(p, r.cls, last);
            // the recorded result must come from a run of the minimised plan
            last = run_plan(m);
            json f;
            f["property"]  = SC->property;
            f["scenario"]  = SC->name;
            f["seed"]      = seed;
            f["plan"]      = m.to_json();
            f["original"]  = {{"ops", p.ops.size()}, {"preempts", p.preempts.size()}, {"faults", p.faults.size()}};
            f["class"]     = last.cls;
            f["msg"]       = last.msg;
            f["hash"]      = last.hash;
            f["history"]   = last.report.value("hist", json::array());
            f["preempt_pcs"] = json::array();
            for (auto const& q : m.preempts) {
                f["preempt_pcs"].push_back(q.guard ? guard_pc(q.guard) : 0);
            }
            std::ofstream(repl) << f.dump(1);
            violation = {{"class", last.cls}, {"msg", last.msg}, {"hash", last.hash}, {"replay", repl}};
            return true;
        };
        bool stop = false;
        for (i64 w = shard; w < nwork && !stop; w += shards) {
            u64  ws = mix(scseed, (u64)w);
            Plan base;
            base.scenario = SC->name;
            base.seed     = ws;
            {
                Rng r(ws);
                SC->workload(r, base);
            }
            Result pr = run_plan(base);
            ++probes_runs;
            account(base, pr);
            if (w % (shards * 5) == shard) {
                auto prof = guard_profile();
                for (auto const& t : prof) {
                    for (auto const& [g, c] : t) { guards.insert(g); }
                }
            }
            if (handle(base, pr)) { break; }
            if (pr.violated || pr.infra) {
                ++done_w;
                continue;
            }
            auto prof = guard_profile();
            int  V    = SC->variants;
            std::vector<i64> sweep;
            if (!SC->sweep_site.empty()) {
                i64 c = SC->sweep_site == "alloc" ? pr.report.value("allocs", (i64)0)
                                                  : pr.report["sites"].value(SC->sweep_site, (i64)0);
                if (c <= SC->sweep_cap) {
                    for (i64 i = 0; i < c; ++i) { sweep.push_back(i); }
                } else {
                    Rng r(mix(ws, 77));
                    std::set<i64> s;
                    while ((int)s.size() < SC->sweep_cap) { s.insert((i64)r.below((u64)c)); }
                    sweep.assign(s.begin(), s.end());
                }
            }
            for (int v = 1; v <= V + (int)sweep.size(); ++v) {
                Plan p = base;
                Rng  r(mix(ws, (u64)(1000 + v)));
                if (v > V) {
                    Fault f;
                    f.site = SC->sweep_site;
                    f.nth  = sweep[v - V - 1];
                    f.kind = "fail";
                    for (auto const& m : SC->menu) {
                        if (m.site == f.site) { f.kind = m.kinds[r.below(m.kinds.size())]; }
                    }
                    f.arg = gen_arg(r, f.kind);
                    p.faults.push_back(f);
                } else {
                    bool both = r.chance(1, 3);
                    bool pre  = SC->preempt && pr.report.value("threads", 1) > 1;
                    bool wantf = !SC->menu.empty() && (!pre || both || r.chance(1, 2));
                    if (pre && (!wantf || both || r.chance(1, 2))) { gen_preempts(r, p, pr.report, prof); }
                    if (wantf) { gen_faults(r, p, pr.report, *SC); }
                    if (SC->vary) { SC->vary(r, p, pr.report); }
                }
                Result rr = run_plan(p);
                account(p, rr);
                if (handle(p, rr)) {
                    stop = true;
                    break;
                }
                if (recheck > 0 && runs % recheck == 0) {
                    Result r2 = run_plan(p);
                    ++rechecks;
                    if (r2.hash != rr.hash || r2.cls != rr.cls) {
                        ++mism;
                        fprintf(stderr, "nondeterministic run:\n%s\n%s\n%s\n",
                                p.to_json().dump().substr(0, 3000).c_str(),
                                rr.report.dump().substr(0, 3000).c_str(), r2.report.dump().substr(0, 3000).c_str());
                    }
                }
                if (wall() - t0 > budget) {
                    out_of_time = stop = true;
                    break;
                }
            }
            ++done_w;
        }
        json out;
        out["scenario"]    = SC->name;
        out["property"]    = SC->property;
        out["runs"]        = runs;
        out["workloads"]   = done_w;
        out["nontrivial"]  = nontrivial;
        out["hashes"]      = hashes;
        out["schedules"]   = fps;
        out["guards"]      = guards;
        out["guards_total"] = guard_total();
        out["steps"]       = steps;
        out["switches"]    = switches;
        out["sim_ns"]      = sim_ns;
        out["fired"]       = fired;
        out["probes"]      = probes;
        out["known_hits"]  = known_hits;
        out["discards"]    = discards;
        out["rechecks"]    = rechecks;
        out["mismatches"]  = mism;
        out["infra"]       = infra;
        out["out_of_time"] = out_of_time;
        out["samples"]     = samples;
        out["violation"]   = violation;
        out["wall_s"]      = wall() - t0;
        out["real"]        = SC->real;
        out["stub"]        = SC->stub;
        std::ofstream(outp) << out.dump();
        rc = mism ? 3 : (!violation.is_null() ? 1 : 0);
    }
    close(to_zygote[1]);
    int st;
    waitpid(z, &st, 0);
    rm_contents();
    ::rmdir(scratch.c_str());
    return rc;
}
