// Runs scripts of concurrent operations and writes one history per script.
//
//   script lines:  setup commands                  (run before the threads start)
//                  op <thread> <command...>        (a thread's operations, in order)
//                  plan #seed #coarse #fine        picks #t ...      preempt #point #thread ...
//   history:       {"h":name,"setup":[[..]],"threads":n,"ev":[{"k":"c"|"r"|<what went wrong>,"t":..,"x":[..]}]}
#pragma once
#include <algorithm>
#include "hx.h"
#include "sched.h"

namespace conc {

using hx::Strs;

struct Event { long seq; std::string k; int t; Strs x; };

struct Script
{
    std::string name;
    std::vector<Strs> setup;
    std::vector< std::vector<Strs> > threads;
    sched::Plan plan;
};

inline std::string print(const Script& s, const std::vector<Event>& ev)
{
    std::string r = "{\"h\":" + hx::esc(s.name) + ",\"setup\":[";
    for (size_t i = 0; i < s.setup.size(); ++i) r += (i ? "," : "") + hx::list(s.setup[i]);
    r += "],\"threads\":" + std::to_string(s.threads.size()) + ",\"ev\":[";
    for (size_t i = 0; i < ev.size(); ++i)
        r += std::string(i ? "," : "") + "{\"k\":" + hx::esc(ev[i].k) + ",\"t\":" + std::to_string(ev[i].t + 1) +
            ",\"x\":" + hx::list(ev[i].x) + "}";
    return r + "]}\n";
}

struct Hooks
{
    std::function<void(const Strs&)> setup;
    std::function<void(const Strs&, Strs&)> op;    // appends its answer
    std::function<void(std::vector<Event>&)> end;  // rewrites answers once the threads are done
};

inline int main(int argc, char** argv, Hooks hooks)
{
    if (argc < 3) { fprintf(stderr, "usage: %s script trace\n", argv[0]); return 2; }
    std::ifstream in(argv[1]);
    std::vector<Script> scripts;
    std::string line;
    while (std::getline(in, line)) {
        if (line.compare(0, 3, "---") == 0) {
            scripts.emplace_back();
            scripts.back().name = line.size() > 4 ? line.substr(4) : "";
            continue;
        }
        if (line.empty() || scripts.empty()) continue;
        Script& s = scripts.back();
        hx::Cmd c = hx::parse(line);
        if (c.op == "op") {
            size_t t = atoi(c.a[0].c_str()) - 1;
            if (s.threads.size() <= t) s.threads.resize(t + 1);
            s.threads[t].push_back(Strs(c.a.begin() + 1, c.a.end()));
        }
        else if (c.op == "plan") { s.plan.seed = c.n[0]; s.plan.coarse = c.n[1]; s.plan.fine = c.n[2]; }
        else if (c.op == "picks") for (long n : c.n) s.plan.picks.push_back(n - 1);
        else if (c.op == "preempt") for (size_t i = 0; i + 1 < c.n.size(); i += 2) s.plan.preempt[c.n[i]] = c.n[i + 1];
        else { Strs x(1, c.op); x.insert(x.end(), c.a.begin(), c.a.end()); s.setup.push_back(x); }
    }

    FILE* out = fopen(argv[2], "w");
    if (!out) return 2;
    const char* logs = getenv("RACE_LOG");
    int failed = 0;
    for (auto& s : scripts) {
        if (failed >= 3) break;    // what is wrong is known: don't wait for every script to hang
        int fds[2];
        if (pipe(fds)) return 2;
        fflush(out);
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (!pid) {
            close(fds[0]);
            alarm(40);
            int nul = open("/dev/null", 1);
            if (nul >= 0) dup2(nul, 1);
            for (auto& c : s.setup) hooks.setup(c);
            int n = s.threads.size();
            std::vector< std::vector<Event> > log(n);
            for (auto& l : log) l.reserve(1000);
            std::atomic<long> seq(0);
            std::string what = sched::run(n, s.plan, [&] (int t) {
                for (auto& op : s.threads[t]) {
                    sched::point(false);
                    log[t].push_back(Event{ seq.fetch_add(1, std::memory_order_relaxed), "c", t, op });
                    Strs r;
                    hooks.op(op, r);
                    log[t].push_back(Event{ seq.fetch_add(1, std::memory_order_relaxed), "r", t, r });
                    sched::point(false);
                }
            });
            std::vector<Event> ev;
            for (auto& l : log) ev.insert(ev.end(), l.begin(), l.end());
            std::sort(ev.begin(), ev.end(), [] (const Event& a, const Event& b) { return a.seq < b.seq; });
            if (what.empty()) hooks.end(ev);
            else ev.push_back(Event{ 0, what, -1, Strs() });
            std::string text = print(s, ev);
            size_t done = 0;
            while (done < text.size()) {
                ssize_t w = write(fds[1], text.data() + done, text.size() - done);
                if (w <= 0) break;
                done += w;
            }
            if (!what.empty()) kill(getpid(), SIGKILL);
            _exit(0);
        }
        close(fds[1]);
        std::string text;
        char buf[65536];
        ssize_t got;
        while ((got = read(fds[0], buf, sizeof buf)) > 0) text.append(buf, got);
        close(fds[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        std::vector<Event> bad;
        bool race = logs && access((std::string(logs) + "." + std::to_string(pid)).c_str(), F_OK) == 0;
        if (race) bad.push_back(Event{ 0, "race", -1, Strs(1, std::string(logs) + "." + std::to_string(pid)) });
        else if (text.empty() || text[text.size() - 1] != '\n')
            bad.push_back(Event{ 0, "crash", -1, Strs(1, std::to_string(st)) });
        if (!bad.empty() || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ++failed;
        fputs(bad.empty() ? text.c_str() : print(s, bad).c_str(), out);
    }
    fclose(out);
    return 0;
}

} // namespace conc
