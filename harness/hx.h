// Script runner shared by the harnesses: reads scripts of tab separated commands, runs each script
// in a forked child and writes one JSON line per command with what the library answered.
//
//   script file:  lines "op\targ\t#int\t...", scripts separated by lines "---[\tname]"
//   trace file:   {"op":..,"a":[..],"n":[..],"r":[..]}; a script starts with op "reset".
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <functional>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace hx {

typedef std::vector<std::string> Strs;

struct Cmd { std::string op; Strs a; std::vector<long> n; };

inline std::string esc(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

inline std::string list(const Strs& l)
{
    std::string r = "[";
    for (size_t i = 0; i < l.size(); ++i) r += (i ? "," : "") + esc(l[i]);
    return r + "]";
}

inline std::string event(const Cmd& c, const Strs& r)
{
    std::string s = "{\"op\":" + esc(c.op) + ",\"a\":" + list(c.a) + ",\"n\":[";
    for (size_t i = 0; i < c.n.size(); ++i) s += (i ? "," : "") + std::to_string(c.n[i]);
    return s + "],\"r\":" + list(r) + "}\n";
}

inline Cmd parse(const std::string& line)
{
    Cmd c;
    size_t p = 0;
    bool first = true;
    while (true) {
        size_t q = line.find('\t', p);
        std::string t = line.substr(p, q == std::string::npos ? q : q - p);
        if (first) c.op = t;
        else if (!t.empty() && t[0] == '#') c.n.push_back(atol(t.c_str() + 1));
        else c.a.push_back(t);
        first = false;
        if (q == std::string::npos) break;
        p = q + 1;
    }
    return c;
}

inline std::string S(long v) { return std::to_string(v); }

// run(cmd) gives the answer to one command.
inline int main(int argc, char** argv, std::function<Strs(const Cmd&)> run, int timeout = 20)
{
    if (argc < 3) { fprintf(stderr, "usage: %s script trace\n", argv[0]); return 2; }
    std::ifstream in(argv[1]);
    std::vector< std::vector<std::string> > scripts;
    std::vector<std::string> names;
    std::string line;
    while (std::getline(in, line)) {
        if (line.compare(0, 3, "---") == 0) {
            scripts.emplace_back();
            names.push_back(line.size() > 4 ? line.substr(4) : S(long(scripts.size())));
        }
        else if (!line.empty()) {
            if (scripts.empty()) { scripts.emplace_back(); names.push_back("1"); }
            scripts.back().push_back(line);
        }
    }

    FILE* out = fopen(argv[2], "w");
    if (!out) return 2;
    int hung = 0;       // two hangs say enough
    for (size_t i = 0; i < scripts.size() && hung < 2; ++i) {
        fflush(out);
        int fds[2];
        if (pipe(fds)) return 2;
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (!pid) {
            close(fds[0]);
            alarm(timeout);
            FILE* o = fdopen(fds[1], "w");
            setvbuf(o, nullptr, _IOLBF, 1 << 16);
            int nul = open("/dev/null", 1);
            if (nul >= 0) dup2(nul, 1);
            for (const auto& l : scripts[i]) {
                Cmd c = parse(l);
                Strs r = run(c);
                fputs(event(c, r).c_str(), o);
                fflush(o);
            }
            fclose(o);
            _exit(0);
        }
        close(fds[1]);
        Cmd reset; reset.op = "reset"; reset.a.push_back(names[i]);
        fputs(event(reset, Strs()).c_str(), out);
        FILE* o = fdopen(fds[0], "r");
        std::string all;
        char buf[65536];
        size_t got;
        while ((got = fread(buf, 1, sizeof buf, o)) > 0) all.append(buf, got);
        fclose(o);
        int st = 0;
        waitpid(pid, &st, 0);
        // a partial last line means that the child died while writing it
        size_t nl = all.rfind('\n');
        all.resize(nl == std::string::npos ? 0 : nl + 1);
        fputs(all.c_str(), out);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            hung += WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
            size_t done = 0;
            for (char ch : all) done += ch == '\n';
            Cmd c;
            if (done < scripts[i].size()) c = parse(scripts[i][done]);
            Cmd k;
            k.op = "crash";
            k.a.push_back(WIFSIGNALED(st) ? "signal" : "exit");
            k.a.push_back(S(WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)));
            k.a.push_back(c.op);
            for (auto& x : c.a) k.a.push_back(x);
            fputs(event(k, Strs()).c_str(), out);
        }
    }
    fclose(out);
    return 0;
}

} // namespace hx
