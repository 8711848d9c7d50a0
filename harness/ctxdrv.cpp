// Replays behaviours of Context.tla with real OpenMP teams.  One line per behaviour:
//   turns|free|sched|cold REPEAT [order seed psync pmem]; path:op:arg ...        (path: e.g. - for the initial thread, 0, 0.1)
// Result line: what each step saw ("text" or "-" for fork and join); steps separated by blanks.
// In turns, the steps are taken in the order given; otherwise each thread takes its own as it comes.
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>
#include <omp.h>
#include <sched.h>
#include "context.h"
#include "sched.h"
using namespace SLAT;
using std::string; using std::vector;
struct Step { string path, op; int arg; size_t match; };
struct Unwinding {};     // some contexts are left by an exception
static vector<Step> steps; static vector<string> saw;
static std::atomic<size_t> turn; static bool turns, scheduled, broken;
static sched::Plan plan;
static vector<string> split(const string &s, char c) { vector<string> v; std::istringstream in(s); string x; while (std::getline(in, x, c)) if (!x.empty()) v.push_back(x); return v; }
// each thread uses all that belongs to it, and nothing of the others'
static void act(const string &path, size_t lo, size_t hi) {
    vector<std::unique_ptr<TempContext>> mine;
    for (size_t k = lo; k < hi; k++) {
        const Step *s;
        { sched::Quiet q; s = &steps[k]; if (s->path != path) continue; }
        if (turns) while (turn.load() != k) sched_yield();
        if (s->op == "fork") {
            if (turns) turn = k + 1;
            size_t end = s->match; int n = s->arg;
            bool outer = scheduled && path == "-" && n > 1;
            if (outer) sched::expect(n, plan);
            std::unique_ptr<std::thread> watch;
            sched::Outcome o = sched::DONE;
            if (outer) watch.reset(new std::thread([&o] { o = sched::finish(); if (o == sched::DEADLOCK) broken = true; }));
            #pragma omp parallel num_threads(n)
            {
                int me = omp_get_thread_num();
                string p;
                { sched::Quiet q; p = path == "-" ? std::to_string(me) : path + "." + std::to_string(me); if (omp_get_num_threads() != n) abort(); }
                if (outer) sched::enter(me);
                act(p, k + 1, end);
                if (outer) sched::leave();
            }
            if (watch) watch->join();
            k = end - 1;
            continue;
        }
        if (s->op == "join") { if (turns) turn = k + 1; continue; }
        if (s->op == "enter") {
            std::unique_ptr<TempContext> c; int a = s->arg;
            if (a % 2) { string t; { sched::Quiet q; t = "c" + std::to_string(a); } c.reset(new TempContext(t)); }
            else { std::function<void (std::ostream &)> f; { sched::Quiet q; f = [a] (std::ostream &o) { o << "c" << a; }; } c.reset(new TempContext(f)); }
            sched::Quiet q;
            mine.push_back(std::move(c));
        } else if (s->op == "leave") { std::unique_ptr<TempContext> c; { sched::Quiet q; c = std::move(mine.back()); mine.pop_back(); }
            if (s->arg == 0) c.reset();
            else try { std::unique_ptr<TempContext> inside = std::move(c); throw Unwinding(); } catch (Unwinding &) {} }
        string t = Context::GetText();
        sched::Quiet q;
        for (char &x: t) if (x == ' ') x = '_';
        if (!saw[k].empty() && saw[k] != t + ";") t = "differs:" + t;
        saw[k] = t + ";";
        if (turns) turn = k + 1;
    }
}
int main() {
    FILE *res = fdopen(3, "w"); if (!res) res = stdout;
    omp_set_dynamic(0); omp_set_max_active_levels(8);
    string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); string mode; int repeat; in >> mode >> repeat;
        if (mode == "reset") { fprintf(res, "ok\n"); fflush(res); continue; }
        turns = mode == "turns"; scheduled = mode == "sched" || mode == "cold";
        plan = sched::Plan(); in >> plan.order >> plan.seed >> plan.p_sync >> plan.p_mem;
        steps.clear(); string w;
        in >> w;
        while (in >> w) { auto v = split(w, ':'); steps.push_back({v[0], v[1], atoi(v[2].c_str()), 0}); }
        vector<size_t> open;
        for (size_t i = 0; i < steps.size(); i++) {
            if (steps[i].op == "fork") open.push_back(i);
            if (steps[i].op == "join") for (size_t j = open.size(); j-- > 0; ) if (steps[open[j]].path == steps[i].path) { steps[open[j]].match = i; open.erase(open.begin() + j); break; }
        }
        if (mode == "cold") {           // in a process where there has been no context yet
            fflush(res);
            pid_t pid = fork();
            if (pid) { int st = 0; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 42) _exit(41); continue; }
        }
        saw.assign(steps.size(), "");
        broken = false;
        for (int r = 0; r < repeat && !broken; r++) { turn = 0; act("-", 0, steps.size()); }
        if (broken) { fprintf(res, "EXC deadlock\n"); fflush(res); _exit(41); }
        string out; for (auto &s: saw) { out += s.empty() ? "-" : s; out += ' '; }
        fprintf(res, "%s\n", out.c_str()); fflush(res);
        if (mode == "cold") _exit(42);
    }
    fprintf(res, "END\n"); fflush(res);
}
