// C09 / C10: the process tracker against a simulated /proc, timer, signal and
// event loop. Processes start, exec, exit and reuse identifiers at any moment,
// also between two reads of one poll.
#include "simkit.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <optional>
#include <set>
#include <sys/epoll.h>
#include <sys/signalfd.h>
#include <sys/timerfd.h>
#include <unistd.h>

int tracker_main(int argc, char* argv[]);

using namespace sim;

namespace {
constexpr int kEpoll = kVirtualFd, kTimer = kVirtualFd + 1, kSignal = kVirtualFd + 2;
constexpr i64 ms = 1'000'000, us = 1'000;

struct Proc {
    int                                        inc = 0, pid = 0, parent = -1; // parent: incarnation
    i64                                        ticks = 0, born = 0, died = INT64_MAX;
    std::vector<std::pair<i64, int>>           ppid;
    std::vector<std::pair<i64, std::string>>   cmd;
    std::string                                comm, cwd;
    bool                                       may = false; // root or born below one
};

struct Window { // what the tracker does between two waits
    i64  begin = 0, end = 0;
    bool polled = false;
};

struct World {
    std::vector<Proc>   procs; // by incarnation
    std::map<int, int>  live;  // pid -> incarnation
    std::set<int>       roots, rootsUsed;
    std::vector<Window> windows;
    json                todo; // events by time
    size_t              next = 0;
    i64                 cost = 0;
    i64                 ticks = 0;
    i64                 t0 = 0;
    // timer
    bool timerOn = false;
    i64  timerNext = 0, timerStep = 0;
    u64  expired = 0;
    // signal
    i64  signalAt = INT64_MAX, signalRead = INT64_MAX;
    bool signalPending = false, signalDone = false;
    int  signo = SIGTERM;
    bool blocked = false, watched = false; // by the tracker
    std::set<int> registered;
    std::string out = "/sim/out.jsonl";
};
World* W = nullptr;

std::string dir(int pid) { return "/proc/" + std::to_string(pid); }

void show(Proc const& p) {
    // every field of a real line, so that a reader may use any of them
    std::string s = std::to_string(p.pid) + " (" + p.comm + ") S " + std::to_string(p.ppid.back().second);
    for (int f = 5; f <= 52; ++f) { s += " " + (f == 22 ? std::to_string(p.ticks) : std::to_string(f)); }
    put_file(dir(p.pid) + "/stat", s + "\n");
    put_file(dir(p.pid) + "/cmdline", p.cmd.back().second);
}

char const* kComm[] = {"sh", "cc1 plus", "a) S 1 (b", "x)", "((", "python3"};
std::string cmdline(int k, int inc) {
    std::string n = std::to_string(inc);
    switch (k % 5) {
        case 0: return std::string("tool\0-c\0", 8) + n + std::string(1, '\0');
        case 1: return "";
        case 2: return std::string("caf\xc3\xa9\0", 6) + n;
        case 3: return "latin\xe9 " + n; // bytes that are not valid UTF-8
        default: return "  /usr/bin/long" + std::string(300, 'x') + n + std::string(2, '\0');
    }
}

int start(int pid, int parentInc, int kind) {
    Proc p;
    p.inc    = (int)W->procs.size();
    p.pid    = pid;
    p.parent = parentInc;
    p.born   = now_ns();
    p.ticks  = 100000 + ++W->ticks;
    p.ppid   = {{p.born, parentInc < 0 ? 0 : W->procs[(size_t)parentInc].pid}};
    p.comm   = kComm[kind % 6];
    p.cmd    = {{p.born, cmdline(kind, p.inc)}};
    p.cwd    = "/work/" + std::to_string(p.inc);
    p.may    = W->roots.count(pid) || (parentInc >= 0 && W->procs[(size_t)parentInc].may);
    W->procs.push_back(p);
    W->live[pid] = p.inc;
    show(p);
    make_link(p.cwd, dir(pid) + "/cwd");
    return p.inc;
}

void stop(int inc) {
    Proc& p = W->procs[(size_t)inc];
    p.died  = now_ns();
    W->live.erase(p.pid);
    for (auto f : {"/stat", "/cmdline", "/cwd", ""}) { remove_path(dir(p.pid) + f); }
    for (auto& [pid, i] : W->live) {
        Proc& c = W->procs[(size_t)i];
        if (c.ppid.back().second == p.pid) {
            c.ppid.push_back({now_ns(), 1});
            show(c);
        }
    }
}

// identifiers come back only after a while: not within the poll that saw the previous owner
bool reusable(int pid) {
    if (pid <= 1 || W->live.count(pid)) { return false; }
    Window const& w = W->windows.back();
    if (w.end != INT64_MAX) { return true; }
    for (auto const& p : W->procs) {
        if (p.pid == pid && p.died >= w.begin) { return false; }
    }
    return true;
}

void apply(json const& e) {
    std::vector<int> alive;
    for (auto const& [pid, i] : W->live) {
        if (pid != 1) { alive.push_back(i); }
    }
    std::string what = e["op"];
    auto        sel  = [&](char const* k) { return alive[e[k].get<u64>() % alive.size()]; };
    if (what == "fork") {
        int of     = e["of"];
        int parent = of == -1 || alive.empty() ? W->live[1]
                   : of == -2 ? *std::max_element(alive.begin(), alive.end()) // the newest one
                              : sel("of");
        int pid    = e["pid"];
        if (!reusable(pid)) { return; }
        int inc = start(pid, parent, e["kind"]);
        hist("fork " + std::to_string(pid) + "#" + std::to_string(inc) + " of #" + std::to_string(parent));
        for (auto const& p : W->procs) {
            if (p.pid == pid && p.inc != inc) { probe("pid-reused"); break; }
        }
        if (W->windows.back().end == INT64_MAX) { probe("fork-inside-poll"); }
    } else if (alive.empty()) {
        return;
    } else if (what == "exit") {
        int i = sel("of");
        hist("exit #" + std::to_string(i));
        stop(i);
        if (W->windows.back().end == INT64_MAX) { probe("exit-inside-poll"); }
    } else if (what == "exec") {
        Proc& p = W->procs[(size_t)sel("of")];
        p.cmd.push_back({now_ns(), cmdline(e["kind"], p.inc)});
        p.comm = kComm[e["kind"].get<int>() % 6];
        show(p);
        hist("exec #" + std::to_string(p.inc));
    }
}

// what happens up to the current time
void catch_up() {
    while (W->next < W->todo.size() && W->t0 + W->todo[W->next]["t"].get<i64>() <= now_ns()) { apply(W->todo[W->next++]); }
    if (W->timerOn) {
        while (W->timerNext <= now_ns()) {
            ++W->expired;
            if (W->timerStep == 0) {
                W->timerNext = INT64_MAX;
                break;
            }
            W->timerNext += W->timerStep;
        }
    }
    if (!W->signalDone && W->signalAt <= now_ns()) {
        if (!W->signalPending && !W->blocked) { violate("killed", "the termination request kills the tracker"); }
        W->signalPending = true;
        if (now_ns() > W->signalAt + 1000 * ms) { violate("not-stopped", "the tracker ignores the termination request"); }
    }
}

int on_access(char const* site, std::string const& path) {
    if (path == W->out) {
        std::string s = std::string("out-") + site;
        if (Fault const* f = fault_at(s.c_str())) {
            static std::map<std::string, int> m{{"ENOSPC", ENOSPC}, {"EIO", EIO}, {"EACCES", EACCES}, {"EDQUOT", EDQUOT}, {"EROFS", EROFS}};
            return m.at(f->kind);
        }
        return 0;
    }
    if (path.rfind("/proc", 0) != 0) { return 0; }
    if (std::string(site) == "opendir" || path == "/proc") { W->windows.back().polled = true; }
    i64 cost = W->cost;
    if (Fault const* f = fault_at("stall")) { cost = std::stoi(f->kind) * ms; }
    advance_ns(cost);
    catch_up();
    int pid = path.size() > 6 ? atoi(path.c_str() + 6) : 0;
    if (pid > 1 && W->live.count(pid)) {
        // the process goes away right when it is looked at
        if (fault_at(std::string(site) == "read" ? "vanish-read" : "vanish") != nullptr) {
            hist("vanish #" + std::to_string(W->live[pid]));
            stop(W->live[pid]);
            if (std::string(site) == "read") { return ESRCH; }
        }
    }
    if (std::string(site) == "read" && path.size() > 10 && path.substr(path.size() - 10) == " (deleted)") {
        probe("vanished-before-read");
        return ESRCH;
    }
    return 0;
}

i64 on_read(int fd, void* buf, size_t n) {
    catch_up();
    if (fd == kTimer) {
        if (W->expired == 0 || n < 8) {
            errno = n < 8 ? EINVAL : EAGAIN;
            return -1;
        }
        memcpy(buf, &W->expired, 8);
        if (W->expired > 1) { probe("coalesced-ticks"); }
        W->expired = 0;
        return 8;
    }
    if (fd == kSignal) {
        if (!W->signalPending || !W->watched) {
            errno = EAGAIN;
            return -1;
        }
        signalfd_siginfo si{};
        si.ssi_signo = (uint32_t)W->signo;
        memcpy(buf, &si, std::min(n, sizeof(si)));
        W->signalPending = false;
        W->signalDone    = true;
        W->signalRead    = now_ns();
        return sizeof(si);
    }
    errno = EBADF;
    return -1;
}
} // namespace

extern "C" {
int epoll_create1(int) noexcept { return kEpoll; }
int epoll_ctl(int, int op, int fd, epoll_event* e) noexcept {
    Quiet q;
    if (fd < kVirtualFd) {
        errno = EPERM;
        return -1;
    }
    if (op == EPOLL_CTL_DEL) {
        W->registered.erase(fd);
    } else {
        W->registered.insert(fd);
    }
    return 0;
}
int timerfd_create(int, int) noexcept { return kTimer; }
int timerfd_settime(int, int, itimerspec const* ts, itimerspec*) noexcept {
    W->timerStep = ts->it_interval.tv_sec * 1000 * ms + ts->it_interval.tv_nsec;
    W->timerNext = now_ns() + ts->it_value.tv_sec * 1000 * ms + ts->it_value.tv_nsec;
    W->timerOn   = true;
    return 0;
}
int signalfd(int, sigset_t const* m, int) noexcept {
    W->watched = sigismember(m, W->signo);
    return kSignal;
}
static int mask(int how, sigset_t const* m) {
    if (W != nullptr && m != nullptr && sigismember(m, W->signo)) { W->blocked = how != SIG_UNBLOCK; }
    return 0;
}
int sigprocmask(int how, sigset_t const* m, sigset_t*) noexcept { return mask(how, m); }
int pthread_sigmask(int how, sigset_t const* m, sigset_t*) noexcept { return mask(how, m); }

int epoll_wait(int, epoll_event* ev, int max, int timeout) {
    Fault const* fault    = fault_at("epoll");
    bool         sigFirst = fault_at("epoll-order") != nullptr;
    Quiet        q;
    catch_up();
    if (W->signalDone && now_ns() > W->signalRead + 200 * ms) { violate("not-stopped", "the tracker still runs after a termination request"); }
    W->windows.back().end = now_ns();
    auto leave = [&](int n) {
        Window w;
        w.begin = now_ns();
        w.end   = INT64_MAX;
        W->windows.push_back(w);
        return n;
    };
    int r = 0;
    if (Fault const* f = fault) {
        advance_ns((1 + f->arg % 6) * ms);
        catch_up();
        if (f->kind == "EINTR") {
            errno = EINTR;
            return leave(-1);
        }
        auto put = [&](int fd) {
            ev[r].events    = EPOLLIN;
            ev[r++].data.fd = fd;
        };
        if (f->kind == "empty") { return leave(0); }
        if (f->kind == "spurious-timer") { put(kTimer); }
        if (f->kind == "spurious-signal") { put(kSignal); }
        if (f->kind == "spurious-both") {
            put(kSignal);
            put(kTimer);
        }
        return leave(r);
    }
    i64 limit = timeout < 0 ? INT64_MAX : now_ns() + timeout * ms;
    while (true) {
        catch_up();
        bool timer = W->expired > 0 && W->registered.count(kTimer);
        bool sig   = W->signalPending && W->watched && W->registered.count(kSignal);
        if (timer || sig) {
            for (int k = 0; k < 2 && r < max; ++k) {
                if ((k == 0) == sigFirst) {
                    if (sig) {
                        ev[r].events    = EPOLLIN;
                        ev[r++].data.fd = kSignal;
                    }
                } else if (timer) {
                    ev[r].events    = EPOLLIN;
                    ev[r++].data.fd = kTimer;
                }
            }
            if (timer && sig) { probe("timer-and-signal"); }
            return leave(r);
        }
        i64 t = limit;
        if (W->timerOn) { t = std::min(t, W->timerNext); }
        if (!W->signalDone && !W->signalPending) { t = std::min(t, W->signalAt); }
        if (W->next < W->todo.size()) { t = std::min(t, W->t0 + W->todo[W->next]["t"].get<i64>()); }
        if (t == INT64_MAX) { violate("not-stopped", "the tracker waits for something that never comes"); }
        if (t > now_ns()) { advance_ns(t - now_ns()); }
        if (now_ns() >= limit) { return leave(0); }
    }
}
}

namespace {
void workload(Rng& r, Plan& p) {
    p.params["dir_order"] = r.below(1u << 30);
    int n = (int)r.range(1, 6);
    // identifiers of any length
    static int const bases[] = {100, 100, 7, 995, 32760, 65530, 4194000};
    int const base = bases[r.below(7)];
    p.params["initial"] = json::array();
    for (int i = 0; i < n; ++i) { p.params["initial"].push_back({{"pid", base + i}, {"of", r.chance(1, 3) ? -1 : (int)r.below(6)}, {"kind", r.below(30)}}); }
    p.params["roots"] = json::array();
    int nr = (int)r.range(1, 3);
    for (int i = 0; i < nr; ++i) { p.params["roots"].push_back(base + r.below((u64)n + 3)); }
    p.params["existing"] = r.chance(3, 4);
    static int const costs[] = {5, 15, 60, 200};
    p.params["cost"] = costs[r.below(4)]; // how long one access takes, us
    p.params["sigint"] = r.chance(1, 3);
    int polls = (int)r.range(2, 12);
    p.params["end"] = polls * 5 * ms + (i64)r.below(5 * ms);
    // few identifiers, so that they are reused
    int ids = (int)r.range(4, 16);
    int m   = (int)r.range(1, 25);
    std::vector<std::pair<i64, json>> ev;
    for (int i = 0; i < m; ++i) {
        i64 t = (i64)r.below((u64)polls) * 5 * ms;
        t += r.chance(1, 2) ? (i64)r.below(1500 * us) : (i64)r.below(5 * ms);
        json e{{"t", t}};
        u64  k = r.below(20);
        if (k < 10) {
            e["op"]   = "fork";
            e["of"]   = r.chance(1, 6) ? -1 : (int)r.below(40);
            e["pid"]  = base + r.below((u64)ids);
            e["kind"] = r.below(30);
        } else if (k < 18) {
            e["op"] = "exit";
            e["of"] = r.below(40);
        } else {
            e["op"]   = "exec";
            e["of"]   = r.below(40);
            e["kind"] = r.below(30);
        }
        ev.push_back({t, e});
        if (k < 10 && r.chance(1, 4)) {
            // it starts others, which start others
            for (u64 n = r.below(5); n > 0; --n) {
                t += (i64)r.below(200 * us);
                ev.push_back({t, json{{"t", t}, {"op", "fork"}, {"of", -2}, {"pid", base + r.below(60)}, {"kind", r.below(30)}}});
            }
        }
        if (k >= 10 && k < 16 && r.chance(1, 2)) {
            // somebody takes the identifier right after
            json f{{"t", t + (i64)r.below(3 * ms)}, {"op", "fork"}, {"of", r.chance(1, 2) ? -1 : (int)r.below(40)}, {"pid", base + r.below((u64)ids)}, {"kind", r.below(30)}};
            ev.push_back({f["t"].get<i64>(), f});
        }
    }
    std::stable_sort(ev.begin(), ev.end(), [](auto const& a, auto const& b) { return a.first < b.first; });
    for (auto& e : ev) { p.ops.push_back(e.second); }
}

struct Rec {
    bool        start = false;
    int         pid = 0;
    i64         ts = 0;
    std::string ppid, cmd;
};

void find_fields(json const& j, Rec& r) {
    if (j.is_object()) {
        if (j.contains("name") && j["name"].is_string() && j.contains("value")) {
            std::string n = j["name"];
            json const& v = j["value"];
            if (v.is_object() && v.contains("shortRepr") && v["shortRepr"].is_string()) {
                if (n == "ppid") { r.ppid = v["shortRepr"]; }
                if (n == "cmdline") { r.cmd = v["shortRepr"]; }
            }
        }
        for (auto const& [k, v] : j.items()) { find_fields(v, r); }
    } else if (j.is_array()) {
        for (auto const& v : j) { find_fields(v, r); }
    }
}

std::vector<Rec> read_records() {
    std::vector<Rec> out;
    std::string      text;
    if (!get_file(W->out, text)) { violate("no-output", "there is no output file"); }
    if (!text.empty() && text.back() != '\n') { violate("torn-record", "the last record is not complete"); }
    size_t pos = 0;
    while (pos < text.size()) {
        size_t      e    = text.find('\n', pos);
        std::string line = text.substr(pos, e - pos);
        pos              = e + 1;
        json j           = json::parse(line, nullptr, false);
        if (j.is_discarded() || !j.contains("name") || !j.contains("pid") || !j.contains("ts")) { violate("torn-record", "not a record: " + line.substr(0, 200)); }
        Rec r;
        r.start = j["name"] == "proc.start";
        r.pid   = j["pid"];
        r.ts    = (i64)(j["ts"].get<double>() * 1000.0);
        find_fields(j, r);
        if (j.contains("id")) {
            json id = j["id"];
            if (id.is_number() && id.get<int>() != r.pid) { violate("identity", "record of " + std::to_string(r.pid) + " is identified as " + id.dump()); }
        }
        hist(std::string(r.start ? "start " : "end ") + std::to_string(r.pid) + " ppid " + r.ppid + " [" + r.cmd.substr(0, 30) + "]");
        out.push_back(r);
    }
    return out;
}

void judge(bool existing) {
    auto recs = read_records();
    auto& ws  = W->windows;
    auto  name = [&](Proc const& p) { return "process " + std::to_string(p.pid) + " (number " + std::to_string(p.inc) + ")"; };
    auto  throughout = [&](Proc const& p, Window const& w) { return p.born < w.begin && p.died > w.end; };
    auto  overlaps   = [&](Proc const& p, Window const& w) { return p.born <= w.end && p.died >= w.begin; };
    int   last = -1; // last complete poll
    for (size_t k = 0; k < ws.size(); ++k) {
        if (ws[k].end == INT64_MAX) { ws[k].end = now_ns(); }
        if (ws[k].polled) { last = (int)k; }
    }
    // which processes have to be known after each poll
    std::vector<int> sure(W->procs.size(), -1);
    for (int k = 0; k <= last; ++k) {
        if (!ws[(size_t)k].polled) { continue; }
        bool more = true;
        while (more) {
            more = false;
            for (auto const& p : W->procs) {
                if (sure[(size_t)p.inc] >= 0 || !throughout(p, ws[(size_t)k])) { continue; }
                bool ok = false;
                if (W->roots.count(p.pid)) {
                    ok = true;
                    for (auto const& q : W->procs) {
                        if (q.pid == p.pid && q.inc < p.inc) { ok = false; }
                    }
                }
                if (p.parent >= 0) {
                    Proc const& q = W->procs[(size_t)p.parent];
                    if (sure[(size_t)q.inc] >= 0 && throughout(q, ws[(size_t)k])) { ok = true; }
                }
                if (ok) {
                    sure[(size_t)p.inc] = k;
                    more                = true;
                }
            }
        }
    }
    // records of one process: which incarnation each belongs to
    std::map<int, int> open;           // pid -> incarnation
    std::vector<int>   started(W->procs.size(), -1), ended(W->procs.size(), -1);
    auto window_of = [&](i64 ts) {
        for (size_t k = 0; k < ws.size(); ++k) {
            // double precision microseconds: allow for rounding
            if (ts >= ws[k].begin - 1000 && ts <= ws[k].end + 1000) { return (int)k; }
        }
        return -1;
    };
    for (auto const& r : recs) {
        int k = window_of(r.ts);
        if (k < 0) { violate("time", "a record has a time at which the tracker was idle"); }
        Window const& w = ws[(size_t)k];
        if (r.start) {
            if (open.count(r.pid)) { violate("second-start", name(W->procs[(size_t)open[r.pid]]) + " has a second start record"); }
            int found = -1;
            for (auto const& p : W->procs) {
                if (p.pid == r.pid && overlaps(p, w) && started[(size_t)p.inc] < 0) {
                    found = p.inc; // the latest one that fits
                }
            }
            if (found < 0) { violate("phantom-start", "a start record for " + std::to_string(r.pid) + ", which is not a new process"); }
            Proc const& p = W->procs[(size_t)found];
            if (!p.may) { violate("unrelated", name(p) + " is no descendant of a tracked process but has a start record"); }
            bool ppid = false, cmd = r.cmd.empty();
            for (size_t i = 0; i < p.ppid.size(); ++i) {
                i64 until = i + 1 < p.ppid.size() ? p.ppid[i + 1].first : INT64_MAX;
                if (r.ppid == std::to_string(p.ppid[i].second) && p.ppid[i].first <= w.end && until >= w.begin) { ppid = true; }
            }
            for (auto const& [t, c] : p.cmd) {
                if (c.empty()) { continue; }
                std::string n = std::to_string(p.inc);
                if (r.cmd.find(n) != std::string::npos) { cmd = true; }
            }
            if (!ppid) { violate("wrong-parent", name(p) + " has parent " + r.ppid + " in its start record"); }
            if (!cmd) { violate("wrong-identity", name(p) + " has the command line of another process: " + r.cmd); }
            open[r.pid]            = found;
            started[(size_t)found] = k;
        } else {
            int inc = -1;
            if (open.count(r.pid)) {
                inc = open[r.pid];
                open.erase(r.pid);
            } else if (!existing) {
                // existing before, and its start was not asked for
                for (auto const& p : W->procs) {
                    if (p.pid == r.pid && overlaps(p, ws[0]) && ended[(size_t)p.inc] < 0 && started[(size_t)p.inc] < 0 && p.died <= w.end) {
                        inc = p.inc;
                        break;
                    }
                }
            }
            if (inc < 0) { violate("end-without-start", "an end record for " + std::to_string(r.pid) + " without a start record"); }
            Proc const& p = W->procs[(size_t)inc];
            if (p.died > w.end) { violate("early-end", name(p) + " has an end record while it is alive"); }
            ended[(size_t)inc] = k;
        }
    }
    for (auto const& p : W->procs) {
        int s = sure[(size_t)p.inc];
        if (s < 0) { continue; }
        bool asked = existing || !overlaps(p, ws[0]);
        if (asked && started[(size_t)p.inc] < 0) { violate("no-start", name(p) + " was visible at a poll and has no start record"); }
        if (asked && started[(size_t)p.inc] > s) { violate("late-start", name(p) + " got its start record after the poll at which it was visible"); }
        probe("tracked-process");
    }
    for (auto const& p : W->procs) {
        if (started[(size_t)p.inc] < 0) { continue; }
        for (int k = started[(size_t)p.inc] + 1; k <= last; ++k) {
            if (ws[(size_t)k].polled && p.died < ws[(size_t)k].begin) {
                if (ended[(size_t)p.inc] < 0) { violate("no-end", name(p) + " was gone at a poll and has no end record"); }
                if (ended[(size_t)p.inc] > k) { violate("late-end", name(p) + " got its end record after the poll at which it was gone"); }
                probe("ended-process");
                break;
            }
        }
    }
}

void run(Plan const& p) {
    W = new World();
    std::string conf;
    {
        Quiet q;
        map_prefix("/proc", "proc");
        W->t0   = now_ns();
        W->todo = p.ops;
        W->cost = p.params["cost"].get<i64>() * us;
        for (auto const& r : p.params["roots"]) { W->roots.insert(r.get<int>()); }
        Window w;
        w.begin = now_ns();
        w.end   = INT64_MAX;
        W->windows.push_back(w);
        start(1, -1, 0);
        for (auto f : {"version", "self.txt", "12x"}) { put_file(std::string("/proc/") + f, "x"); }
        put_file("/proc/sys/file", "x");
        for (auto const& e : p.params["initial"]) {
            int of = e["of"], pid = e["pid"];
            int par = of < 0 || of + 1 >= (int)W->procs.size() ? 0 : of + 1;
            start(pid, par, e["kind"]);
        }
        advance_ns(ms);
        W->windows.back().begin = now_ns();
        W->t0                   = now_ns();
        W->signo                = p.params["sigint"].get<bool>() ? SIGINT : SIGTERM;
        W->signalAt             = W->t0 + p.params["end"].get<i64>();
        json c{{"pids", p.params["roots"]}, {"path", W->out}, {"emitExisting", p.params["existing"]}};
        conf         = c.dump();
        outside      = on_access;
        virtual_read = on_read;
    }
    std::string failed;
    int         rc = 0;
    {
        FaultRegion f;
        std::string name = "tracker";
        char*       argv[] = {name.data(), conf.data(), nullptr};
        try {
            rc = tracker_main(2, argv);
        } catch (std::exception const& e) { failed = e.what(); }
    }
    Quiet q;
    outside = nullptr;
    i64 outFaults = fired("out-open") + fired("out-write") + fired("out-close");
    if (failed.empty() && rc != 0) { failed = "exit code " + std::to_string(rc); }
    hist(failed.empty() ? "success" : "failed");
    if (outFaults > 0) {
        probe("output-failed");
        if (failed.empty()) { violate("output-lost", "the output could not be written, the tracker still ended with success"); }
        return;
    }
    if (!failed.empty()) { violate("tracker-failed", "the tracker failed: " + failed.substr(0, 200)); }
    if (!W->signalDone) { violate("stopped-early", "the tracker ended without a termination request"); }
    judge(p.params["existing"]);
}

struct Reg {
    Reg() {
        Scenario a;
        a.name       = "proc-history";
        a.property   = "C09";
        a.workload   = workload;
        a.run        = run;
        a.menu       = {{"stall", {"2", "7", "20", "70"}, 2}, {"epoll-order", {"swap"}, 1}, {"vanish", {"exit"}, 2}, {"vanish-read", {"exit"}, 2}};
        a.variants   = 5;
        a.max_faults = 3;
        a.real       = {"scripts/cxx_executor/execution_flow_tracker.cpp (whole program)", "src/hstd JSON and trace records", "libstdc++ streams and directory iteration"};
        a.stub       = {"/proc (simulated processes, changed between the reads)", "epoll, timerfd, signalfd", "clock"};
        register_scenario(a);
        a.name       = "proc-faults";
        a.property   = "C10";
        a.menu       = {{"epoll", {"EINTR", "EINTR", "empty", "spurious-timer", "spurious-signal", "spurious-both"}, 5},
                        {"stall", {"2", "7", "20", "70"}, 3},
                        {"vanish", {"exit"}, 2},
                        {"vanish-read", {"exit"}, 3},
                        {"epoll-order", {"swap"}, 2},
                        {"out-open", {"EACCES", "ENOSPC", "EROFS"}, 1},
                        {"out-write", {"ENOSPC", "EIO", "EDQUOT"}, 2},
                        {"out-close", {"EIO", "EDQUOT"}, 1}};
        a.variants   = 12;
        a.max_faults = 4;
        register_scenario(a);
    }
} reg;
} // namespace
