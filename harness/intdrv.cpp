// Integration settings, integrations and statistics (Integration.tla).  One command per line, one result line each
// (descriptor 3).  Integrands are tables over t = 1/(1+x) in units of 1/N, in ones and in units of 2^-80.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <boost/log/core.hpp>
#include "maq.h"
#include "sched.h"
using namespace SLAT;
using namespace SLAT::Integration;
using std::string; using std::vector;
typedef IntegrationSettings IS;
static int N = 256;
static string fmt(double v) { if (std::isnan(v)) return "nan"; char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
struct Table {
    std::map<int, double> g; bool zero = false;
    double operator()(double x) const {
        sched::Quiet q;
        if (zero) return 0;
        double t = std::isinf(x) ? 0 : 1.0 / (x + 1.0);
        int k = (int)std::lround(t * N);
        auto i = g.find(k);
        if (i == g.end() || std::abs(k - t * N) > 1e-6) return NAN;    // not a point of the specification's
        double u = (double)k / N;
        return k == 0 ? i->second : i->second * (u * u);
    }
};
static Table table(std::istream &in) {
    Table r; int k; in >> k;
    if (!k) r.zero = true;
    while (k--) { int t; long b, z; in >> t >> b >> z; r.g[t] = b < 0 ? NAN : b + std::ldexp((double)z, -80); }
    return r;
}
static string result(const MAQ_RESULT &r) { return fmt(r.integral) + " " + (r.successful ? "1" : "0") + " " + std::to_string(r.evaluations); }
static string text(void) {
    std::ostringstream o; format_statistics(o);
    string s; std::istringstream in(o.str()); string l;
    while (std::getline(in, l)) { size_t c = l.find(": "); if (c != string::npos) { string v = l.substr(c + 2); for (char &x: v) if (x == ' ') x = '_'; s += " " + v; } }
    return s;
}
static string figures(void) {
    std::ostringstream o;
    const IntegrationStats *s = get_statistics();
    o << fmt(IS::Get_Tolerance()) << ' ' << IS::Get_Integration_Eval_Limit() << ' ' << IS::Get_Integration_Search_Limit() << ' ' << (int)IS::Get_Integration_Method()
      << ' ' << fmt(s->tolerance) << ' ' << s->eval_limit << ' ' << s->search_limit << ' ' << (int)s->method
      << ' ' << s->calls << ' ' << s->successes << ' ' << s->nans << ' ' << s->number_integration_fails << ' ' << s->number_search_fails
      << ' ' << s->max_successful_integration << ' ' << s->total_integrations_evals << ' ' << s->max_successful_search << ' ' << s->total_search_evals
      << " |" << text();
    return o.str();
}
int main(int argc, char **argv) {
    FILE *res = fdopen(3, "w"); if (!res) res = stdout;
    boost::log::core::get()->set_logging_enabled(false);
    if (argc > 1) N = atoi(argv[1]);
    string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); string c, out; in >> c;
        if (c == "reset") { IS::Reset(); reset_statistics(); out = "ok"; }
        else if (c == "set") {          // set tol V | eval V | search V | method V | deftol | defeval | reset
            string k; in >> k;
            if (k == "tol") { string v; in >> v; IS::Set_Tolerance(v == "nan" ? NAN : atof(v.c_str())); }
            else if (k == "eval") { unsigned v; in >> v; IS::Set_Integration_Eval_Limit(v); }
            else if (k == "search") { unsigned v; in >> v; IS::Set_Integration_Search_Limit(v); }
            else if (k == "method") { int v; in >> v; IS::Set_Integration_Method((IS::METHOD_TYPE)v); }
            else if (k == "deftol") IS::Use_Default_Tolerance();
            else if (k == "defeval") IS::Use_Default_Integration_Eval_Limit();
            else if (k == "reset") IS::Reset();
            else if (k == "resetstats") reset_statistics();
            out = figures();
        } else if (c == "int") { Table f = table(in); out = result(MAQ(f)); out += " ; " + figures(); }
        else if (c == "par") {          // par T order seed psync pmem k@step.. . M tables: the i-th by thread i mod T
            sched::Plan p; int t, m, na; in >> t >> p.order >> p.seed >> p.p_sync >> p.p_mem >> na;
            while (na--) { long s; int r; in >> s >> r; p.at.push_back({s, r}); }
            in >> m;
            vector<Table> fs; for (int i = 0; i < m; i++) fs.push_back(table(in));
            vector<MAQ_RESULT> rs(m);
            vector<std::function<void (void)>> bodies;
            for (int k = 0; k < t; k++) bodies.push_back([k, t, m, &fs, &rs] { for (int i = k; i < m; i += t) rs[i] = MAQ(fs[i]); });
            if (sched::run(bodies, p) == sched::DEADLOCK) { fprintf(res, "EXC deadlock\n"); fflush(res); _exit(41); }
            for (auto &r: rs) out += result(r) + " ; ";
            out += figures() + " ; " + std::to_string(sched::steps());
        }
        fprintf(res, "%s\n", out.c_str()); fflush(res);
    }
    fprintf(res, "END\n"); fflush(res);
}
