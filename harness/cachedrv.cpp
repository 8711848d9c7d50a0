// Cached functions and values under controlled schedules.
// stdin: one execution per line:
//   KIND seed=N order=N psync=X pmem=X at=S:R,S:R fail=A.N,A.N (the N-th calculation of A fails)
//   rec=A>B,... (calculating A asks for B)  gate=A:T (calculating A waits until thread T has finished)
//   prog=T0;T1;...   each a comma-separated list of
//     c<o>.<a> call object o with argument a   x<o> clear o   g clear all   n<o> create o   d<o> destroy o
// Objects: f0.. cached functions, v0.. cached values, u0.. uncached functions.
// stdout (fd 3): one line of events per execution.
#include <cmath>
#include <csignal>
#include <stdexcept>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "caching.h"
#include "sched.h"
using namespace SLAT;
using std::string; using std::vector;

// several words, so that half-copied results show
struct R { double a, b, c, d; R() : a(-1), b(-1), c(-1), d(-1) {} explicit R(double x) : a(x), b(x), c(x), d(x) {} };
struct Failed { long id; };
// failures of the standard kind, which are easily caught by mistake
struct FailedStd : std::runtime_error, Failed { explicit FailedStd(long i) : std::runtime_error("failed"), Failed{i} {} };
static bool standard = false;
[[noreturn]] static void fail(long id) { if (standard) throw FailedStd(id); throw Failed{id}; }
typedef Caching::CachedFunction<R, double> Fn;
typedef Caching::CachedValue<R> Val;

static string events;
static FILE *res;
static void ev(const string &s) { events += s; events += ' '; }
template <class F> auto quiet(F f) -> decltype(f()) { sched::Quiet q; return f(); }
static long serial, callno, clearno;
static std::map<string, long> nth;           // calculations so far per object and argument
static std::map<string, bool> fail_at;
static std::map<string, string> rec, gate;
static vector<char> finished;
struct Obj { void *mem; Fn *f; Val *v; };
static std::map<string, Obj> objs;
static const size_t PAGE = 4096;
static R call(const string &o, const string &a, int t);
static thread_local int self;

static R calculate(const string &o, const string &a) {
    string key; long id, n; int t = self; int g = -1; string ro, ra; bool fails = false;
    { sched::Quiet q;
      key = o + "." + a; id = ++serial; n = ++nth[key];
      ev("calc:" + std::to_string(t) + ":" + o + ":" + a + ":" + std::to_string(id));
      if (gate.count(key)) g = atoi(gate[key].c_str());
      if (rec.count(key)) { string r = rec[key]; size_t p = r.find('.'); ro = r.substr(0, p); ra = r.substr(p + 1); }
      fails = fail_at.count(key + "#" + std::to_string(n)) || fail_at.count(key + "#*"); }
    sched::point();
    if (g >= 0 && g != t) sched::wait_until([g] { return (bool)finished[g]; });
    if (!ro.empty()) {
        try { call(ro, ra, t); }
        catch (Failed &) { { sched::Quiet q; ev("fail:" + std::to_string(id)); } fail(id); } }
    sched::point();
    if (fails) { { sched::Quiet q; ev("fail:" + std::to_string(id)); } sched::point(); fail(id); }
    sched::Quiet q;
    ev("done:" + std::to_string(id));
    return R(id);
}
static R evaluate(const string &o, double x) {
    string a;
    { sched::Quiet q; if (std::isnan(x)) a = "nan"; else { char s[32]; snprintf(s, sizeof s, "%g", x); a = s; } }
    return calculate(o, a);
}
static void create(const string &o) {
    Obj b; b.f = NULL; b.v = NULL;
    { sched::Quiet q; b.mem = mmap(NULL, PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    if (o[0] == 'v') b.v = new (b.mem) Val([o] (void) { return calculate(o, "0"); }, o);
    else b.f = new (b.mem) Fn([o] (double x) { return evaluate(o, x); }, o, o[0] != 'u');
    sched::Quiet q;
    objs[o] = b;
}
static void destroy(const string &o) {
    Obj b = quiet([&] { Obj b = objs[o]; objs.erase(o); return b; });
    if (b.f) b.f->~Fn(); else b.v->~Val();
    sched::Quiet q;
    mprotect(b.mem, PAGE, PROT_NONE);      // nobody may touch it any more
}
static R call(const string &o, const string &a, int t) {
    long n; Obj b; double x;
    { sched::Quiet q; n = ++callno; self = t; b = objs[o]; x = a == "nan" ? NAN : atof(a.c_str());
      ev("call:" + std::to_string(t) + ":" + o + ":" + a + ":" + std::to_string(n)); }
    try {
        R r = b.v ? (*b.v)() : (*b.f)(x);
        sched::Quiet q;
        bool whole = r.a == r.b && r.b == r.c && r.c == r.d;
        ev("ret:" + std::to_string(n) + ":" + std::to_string(whole ? (long)r.a : -2L));
        return r;
    } catch (Failed &f) { sched::Quiet q; ev("exc:" + std::to_string(n) + ":" + std::to_string(f.id)); throw; }
}
static vector<string> split(const string &s, char c) { vector<string> v; std::istringstream in(s); string x; while (std::getline(in, x, c)) if (!x.empty()) v.push_back(x); return v; }
static void dead(int sig) {
    char b[64]; snprintf(b, sizeof b, "killed:%d\n", sig);
    fflush(res); (void)!write(fileno(res), events.data(), events.size()); (void)!write(fileno(res), b, strlen(b)); _exit(40);
}
int main() {
    res = fdopen(3, "w"); if (!res) res = stdout;
    for (int s: {SIGSEGV, SIGINT, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, dead);
    omp_set_num_threads(1);
    string line;
    while (std::getline(std::cin, line)) {
        sched::Plan plan; vector<string> progs; string w; std::istringstream in(line);
        events.clear(); serial = callno = clearno = 0; nth.clear(); standard = false; fail_at.clear(); rec.clear(); gate.clear();
        vector<string> start;
        bool cold = false;
        while (in >> w) {
            size_t e = w.find('='); string k = w.substr(0, e), v = e == string::npos ? "" : w.substr(e + 1);
            if (k == "cold") cold = true;      // in a process of its own, where no cache has ever existed
            else if (k == "seed") plan.seed = atol(v.c_str());
            else if (k == "order") plan.order = atoi(v.c_str());
            else if (k == "std") standard = true;
            else if (k == "psync") plan.p_sync = atof(v.c_str());
            else if (k == "pmem") plan.p_mem = atof(v.c_str());
            else if (k == "at") for (auto &p: split(v, ',')) { auto q = split(p, ':'); plan.at.push_back({atol(q[0].c_str()), atoi(q[1].c_str())}); }
            else if (k == "fail") for (auto &p: split(v, ',')) fail_at[p] = true;
            else if (k == "rec") for (auto &p: split(v, ',')) { auto q = split(p, '>'); rec[q[0]] = q[1]; }
            else if (k == "gate") for (auto &p: split(v, ',')) { auto q = split(p, ':'); gate[q[0]] = q[1]; }
            else if (k == "objs") start = split(v, ',');
            else if (k == "prog") progs = split(v, ';');
        }
        if (cold) {
            fflush(res);
            pid_t pid = fork();
            if (pid) {
                int st = 0; waitpid(pid, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st) != 42) _exit(41);
                continue;
            }
        }
        for (auto &o: start) create(o);
        finished.assign(progs.size(), false);
        vector<std::function<void (void)>> bodies;
        for (size_t t = 0; t < progs.size(); t++) bodies.push_back([t, &progs] {
            self = t;
            vector<string> ops = quiet([&] { return split(progs[t], ','); });
            for (size_t i = 0; i < ops.size(); i++) {
                char c; string o, a; long k = 0; Obj b;
                { sched::Quiet q; c = ops[i][0]; o = ops[i].substr(1); size_t d = o.find('.'); if (d != string::npos) { a = o.substr(d + 1); o = o.substr(0, d); }
                  if (c == 'x') b = objs[o];
                  if (c == 'x' || c == 'g') { k = ++clearno; ev("clr:" + std::to_string(t) + ":" + (c == 'g' ? "*" : o) + ":" + std::to_string(k)); }
                  if (c == 'n') ev("new:" + o);
                  if (c == 'd') ev("del:" + o); }
                if (c == 'c') { try { call(o, a, t); } catch (Failed &) {} }
                else if (c == 'x') { if (b.v) b.v->ClearCache(); else b.f->ClearCache(); }
                else if (c == 'g') Caching::Clear_Caches();
                else if (c == 'n') create(o);
                else if (c == 'd') destroy(o);
                sched::Quiet q;
                if (k) ev("clrd:" + std::to_string(k));
                if (c == 'n') ev("newd:" + o);
                if (c == 'd') ev("deld:" + o);
            }
            finished[t] = true;
            sched::point();
        });
        sched::Outcome o = sched::run(bodies, plan);
        if (o == sched::DEADLOCK) { fprintf(res, "%sdeadlock:%s\n", events.c_str(), [] { string b = sched::blocked(); for (char &c: b) if (c == ' ') c = '_'; return b; }().c_str()); fflush(res); _exit(41); }
        fprintf(res, "%ssteps:%ld\n", events.c_str(), sched::steps()); fflush(res);
        if (cold) _exit(42);
        vector<string> left; for (auto &b: objs) left.push_back(b.first);
        for (auto &b: left) destroy(b);
    }
    fprintf(res, "END\n"); fflush(res);
}
