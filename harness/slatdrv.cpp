// Command interpreter over SLAT's public C++ API.  Reads one command per line,
// writes exactly one result line per command.  Used to replay behaviours of the
// TLA+ specifications (ModelGraph, Frag, Loss, LogNormal, Functions, ...).
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <thread>
#include <functional>
#include <atomic>
#include <omp.h>
#include <unistd.h>
#ifdef WITH_SCHED
#include "sched.h"
#endif
#include <gsl/gsl_errno.h>
#include "functions.h"
#include "relationships.h"
#include "fragility.h"
#include "loss_functions.h"
#include "comp_group.h"
#include "structure.h"
#include "caching.h"
#include "lognormaldist.h"
#include "maq.h"
#include "context.h"
using namespace SLAT;
using std::string; using std::vector; using std::shared_ptr;

static std::map<string, shared_ptr<DeterministicFn>> D;
static std::map<string, shared_ptr<ProbabilisticFn>> P;
static std::map<string, shared_ptr<IM>> I;
static std::map<string, shared_ptr<EDP>> E;
static std::map<string, shared_ptr<FragilityFn>> F;
static std::map<string, shared_ptr<LossFn>> L;
static std::map<string, shared_ptr<CompGroup>> C;
static std::map<string, shared_ptr<Structure>> S;
static std::map<string, LogNormalDist> LD;

typedef std::istringstream In;
static string word(In &in) { string s; if (!(in >> s)) throw std::runtime_error("parse"); return s; }
static double num(In &in) {
    string s = word(in);
    if (s == "nan") return NAN;
    if (s == "inf") return INFINITY;
    if (s == "-inf") return -INFINITY;
    return strtod(s.c_str(), NULL);
}
static long integer(In &in) { return strtol(word(in).c_str(), NULL, 10); }

static string fmt(double v) {
    if (std::isnan(v)) return "nan";
    char b[64]; snprintf(b, sizeof b, "%.17g", v); return b;
}
struct Out {
    std::ostringstream o;
    void add(double v) { o << ' ' << fmt(v); }
    void add(const vector<double> &v) { o << " ["; for (double x: v) o << ' ' << fmt(x); o << " ]"; }
    void add(const LogNormalDist &d) { add(d.get_mean_X()); add(d.get_sigma_lnX()); add(d.get_sigma_X()); add(d.get_mu_lnX()); add(d.get_median_X()); }
    void sep(const string &s) { o << ' ' << s << '='; }
};
static LogNormalDist dist(In &in) {
    string k = word(in); double a = num(in), b = num(in);
    if (k == "mean_sdln") return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(a, b);
    if (k == "mean_sd") return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(a, b);
    if (k == "med_sdln") return LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(a, b);
    if (k == "mu_sdln") return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(a, b);
    if (k == "default") return LogNormalDist();
    throw std::runtime_error("parse dist");
}
static vector<LogNormalDist> dists(In &in) {
    long n = integer(in); vector<LogNormalDist> v;
    for (long i = 0; i < n; i++) v.push_back(dist(in));
    return v;
}
static vector<double> nums(In &in) {
    long n = integer(in); vector<double> v;
    for (long i = 0; i < n; i++) v.push_back(num(in));
    return v;
}
template <class T> shared_ptr<T> &at(std::map<string, shared_ptr<T>> &m, const string &n) {
    auto it = m.find(n);
    if (it == m.end()) throw std::runtime_error("no object " + n);
    return it->second;
}
template <class T> bool swap_in(std::map<string, shared_ptr<T>> &m, const string &a, const string &b) {
    if (!m.count(a)) return false;
    shared_ptr<T> old = at(m, a), rep = at(m, b);
    old->replace(rep);
    return true;
}

// functions that can change in place, and tell their clients
struct MutableDet : public DeterministicFn {
    shared_ptr<DeterministicFn> inner;
    MutableDet(shared_ptr<DeterministicFn> f) : inner(f) {}
    void become(shared_ptr<DeterministicFn> f) { inner = f; notify_change(); }
    double Evaluate(double x) const { return inner->ValueAt(x); }
    double DerivativeAt(double x) const { return inner->DerivativeAt(x); }
};
struct MutableLoss : public LossFn {
    shared_ptr<LossFn> inner;
    MutableLoss(shared_ptr<LossFn> f) : inner(f) {}
    void become(shared_ptr<LossFn> f) { inner = f; notify_change(); }
    LogNormalDist CalculateUnadjustedLoss(vector<double> p, int count) { return inner->CalculateUnadjustedLoss(p, count); }
    std::size_t n_states(void) { return inner->n_states(); }
};
static std::map<string, shared_ptr<MutableDet>> MD;
static std::map<string, shared_ptr<MutableLoss>> ML;
static shared_ptr<DeterministicFn> det(In &in) {
    string k = word(in);
    if (k == "plc") { double a = num(in), b = num(in); return std::make_shared<PowerLawParametricCurve>(a, b); }
    if (k == "nlh") { double a = num(in), b = num(in), d = num(in); return std::make_shared<NonLinearHyperbolicLaw>(a, b, d); }
    vector<double> x = nums(in), y = nums(in);
    if (k == "lin") return std::make_shared<LinearInterpolatedFn>(x.data(), y.data(), x.size());
    if (k == "loglog") return std::make_shared<LogLogInterpolatedFn>(x.data(), y.data(), x.size());
    throw std::runtime_error("parse det");
}
static shared_ptr<LossFn> loss(const string &c, In &in) {
    if (c == "sloss") return std::make_shared<SimpleLossFn>(dists(in));
    long k = integer(in); vector<shared_ptr<BiLevelLoss>> v;
    for (long i = 0; i < k; i++) { int a = integer(in), b = integer(in); double x = num(in), y = num(in), z = num(in); v.push_back(std::make_shared<BiLevelLoss>(a, b, x, y, z)); }
    return std::make_shared<BiLevelLossFn>(v);
}

static const double IMS[] = {0.05, 0.3, 0.8};
static const double EDPS[] = {0.004, 0.02, 0.05};
static const double COSTS[] = {0.5, 3.0};

// quantities; each key is one family of results
static void q_im(shared_ptr<IM> im, const string &q, Out &o) {
    bool all = q == "all";
    if (all || q == "lam") { o.sep("lam"); for (double x: IMS) { o.add(im->lambda(x)); o.add(im->DerivativeAt(x)); } }
    if (all || q == "probs") { o.sep("probs"); for (double x: IMS) { o.add(im->pCollapse(x)); o.add(im->pDemolition(x)); o.add(im->pRepair(x)); } }
    if (all || q == "crate") { o.sep("crate"); o.add(im->CollapseRate()); }
    if (all || q == "drate") { o.sep("drate"); o.add(im->DemolitionRate()); }
}
static void q_det(shared_ptr<DeterministicFn> f, const string &q, Out &o) {
    if (q == "value" || q == "all") { o.sep("value"); for (double x: IMS) o.add(f->ValueAt(x)); o.add(f->ValueAt(2.0)); }
}
static void q_prob(shared_ptr<ProbabilisticFn> p, const string &q, Out &o) {
    bool all = q == "all";
    if (all || q == "mom") { o.sep("mom"); for (double x: IMS) { o.add(p->Mean(x)); o.add(p->MeanLn(x)); o.add(p->Median(x)); o.add(p->SD_ln(x)); o.add(p->SD(x)); } }
    if (all || q == "pex") { o.sep("pex"); for (double x: IMS) for (double y: EDPS) o.add(p->P_exceedence(x, y));
        for (double x: IMS) { o.add(p->X_at_exceedence(x, 0.1)); o.add(p->X_at_exceedence(x, 0.8)); } }
}
static void q_frag(shared_ptr<FragilityFn> f, const string &q, Out &o) {
    if (q == "pexc" || q == "all") { o.sep("pexc"); for (double x: EDPS) { o.add(f->pExceeded(x)); o.add(f->pHighest(x)); } o.add(f->n_states()); }
}
static void q_edp(shared_ptr<EDP> e, const string &q, Out &o) {
    bool all = q == "all";
    if (all || q == "lam") { o.sep("lam"); for (double x: EDPS) o.add(e->lambda(x)); }
    if (all || q == "mom") { o.sep("mom"); for (double x: IMS) {
        o.add(e->Mean(x)); o.add(e->MeanLn(x)); o.add(e->Median(x)); o.add(e->SD_ln(x)); o.add(e->SD(x)); } }
    if (all || q == "pex") { o.sep("pex"); for (double x: IMS) for (double y: EDPS) o.add(e->P_exceedence(x, y));
        for (double x: IMS) { o.add(e->X_at_exceedence(x, 0.1)); o.add(e->X_at_exceedence(x, 0.8)); } }
}
static void q_cg(shared_ptr<CompGroup> c, const string &q, Out &o) {
    bool all = q == "all";
    if (all || q == "costedp") { o.sep("costedp"); for (double x: EDPS) { o.add(c->E_cost_EDP(x)); o.add(c->SD_ln_cost_EDP(x)); o.add(c->SD_cost_EDP(x)); o.add(c->mean_ln_cost_EDP(x)); } }
    if (all || q == "delayedp") { o.sep("delayedp"); for (double x: EDPS) { o.add(c->E_delay_EDP(x)); o.add(c->SD_ln_delay_EDP(x)); o.add(c->SD_delay_EDP(x)); } }
    if (all || q == "ecostim") { o.sep("ecostim"); for (double x: IMS) o.add(c->E_cost_IM(x)); }
    if (all || q == "sdcostim") { o.sep("sdcostim"); for (double x: IMS) o.add(c->SD_ln_cost_IM(x)); }
    if (all || q == "edelayim") { o.sep("edelayim"); for (double x: IMS) o.add(c->E_delay_IM(x)); }
    if (all || q == "sddelayim") { o.sep("sddelayim"); for (double x: IMS) o.add(c->SD_ln_delay_IM(x)); }
    if (all || q == "distim") { o.sep("distim"); for (double x: IMS) o.add(c->CostDist_IM(x)); }
    if (all || q == "pds") { o.sep("pds"); for (double x: IMS) o.add(c->pDS_IM(x)); }
    if (all || q == "annual") { o.sep("annual"); o.add(c->E_annual_cost()); }
    if (all || q == "lamcost") { o.sep("lamcost"); for (double x: COSTS) o.add(c->lambda_cost(x)); }
    if (q == "rate" || q == "allrate") { o.sep("rate"); o.add(c->Rate()); }
}
static void q_st(shared_ptr<Structure> s, const string &q, Out &o) {
    bool all = q == "all";
    if (q == "set") { o.sep("set"); o.add(s->getRebuildCost()); o.add(s->getDemolitionCost()); return; }
    if (all || q == "n") { o.sep("n"); o.add(s->Components().size()); }
    if (all || q == "cost") { o.sep("cost"); for (double x: IMS) { o.add(s->Cost(x, false)); if (s->Components().size()) o.add(s->Cost(x, true)); } }
    if (s->Components().size() == 0 && q != "annual" && !all) return;
    if (s->Components().size() == 0) { o.sep("annual"); o.add(s->AnnualCost()); return; }
    if (all || q == "total") { o.sep("total"); for (double x: IMS) o.add(s->TotalCost(x)); }
    if (all || q == "fate") { o.sep("fate"); for (double x: IMS) { auto f = s->CostsByFate(x); o.add(f.repair); o.add(f.demolition); o.add(f.collapse); } }
    if (all || q == "deagg") { o.sep("deagg"); for (double x: IMS) { auto f = s->DeaggregatedCost(x); o.add(f.first); o.add(f.second); } }
    if (all || q == "pdf") { o.sep("pdf"); for (double x: IMS) o.add(s->pdf(x)); }
    if (all || q == "annual") { o.sep("annual"); o.add(s->AnnualCost()); }
    if (all || q == "years") { o.sep("years"); o.add(s->E_cost(1, 0.05)); o.add(s->E_cost(50, 0.06)); o.add(s->E_cost(vector<int>{1, 10, 75}, 0.03)); }
}
// arbitrary single-argument functions of an object, for bulk and concurrency checks
static std::function<double (double)> scalar(const string &n, const string &q) {
    if (D.count(n)) { auto d = D[n]; if (q == "value") return [d](double x) { return d->ValueAt(x); }; if (q == "deriv") return [d](double x) { return d->DerivativeAt(x); }; }
    if (P.count(n)) { auto p = P[n]; if (q == "mean") return [p](double x) { return p->Mean(x); }; if (q == "sdln") return [p](double x) { return p->SD_ln(x); };
        if (q == "meanln") return [p](double x) { return p->MeanLn(x); }; if (q == "median") return [p](double x) { return p->Median(x); }; if (q == "sd") return [p](double x) { return p->SD(x); }; }
    if (I.count(n)) { auto m = I[n];
        if (q == "lam") return [m](double x) { return m->lambda(x); }; if (q == "pcol") return [m](double x) { return m->pCollapse(x); };
        if (q == "pdem") return [m](double x) { return m->pDemolition(x); }; if (q == "prep") return [m](double x) { return m->pRepair(x); };
        if (q == "crate") return [m](double) { return m->CollapseRate(); }; if (q == "drate") return [m](double) { return m->DemolitionRate(); }; }
    if (E.count(n)) { auto e = E[n];
        if (q == "lam") return [e](double x) { return e->lambda(x); }; if (q == "mean") return [e](double x) { return e->Mean(x); };
        if (q == "meanln") return [e](double x) { return e->MeanLn(x); }; if (q == "median") return [e](double x) { return e->Median(x); };
        if (q == "sdln") return [e](double x) { return e->SD_ln(x); }; if (q == "sd") return [e](double x) { return e->SD(x); }; }
    if (C.count(n)) { auto c = C[n];
        if (q == "ecostim") return [c](double x) { return c->E_cost_IM(x); }; if (q == "sdcostim") return [c](double x) { return c->SD_ln_cost_IM(x); };
        if (q == "edelayim") return [c](double x) { return c->E_delay_IM(x); }; if (q == "sddelayim") return [c](double x) { return c->SD_ln_delay_IM(x); };
        if (q == "ecostedp") return [c](double x) { return c->E_cost_EDP(x); }; if (q == "edelayedp") return [c](double x) { return c->E_delay_EDP(x); };
        if (q == "annual") return [c](double) { return c->E_annual_cost(); }; if (q == "lamcost") return [c](double x) { return c->lambda_cost(x); };
        if (q == "rate") return [c](double x) { auto r = c->Rate(); return r[((size_t)std::abs(x * 10)) % r.size()]; };
        if (q == "distim") return [c](double x) { return c->CostDist_IM(x).get_mean_X(); }; }
    if (S.count(n)) { auto s = S[n];
        if (q == "cost") return [s](double x) { return s->Cost(x, false).get_mean_X(); }; if (q == "total") return [s](double x) { return s->TotalCost(x).get_mean_X(); };
        if (q == "annual") return [s](double) { return s->AnnualCost().get_mean_X(); }; if (q == "years") return [s](double x) { return s->E_cost((int)(x * 10), 0.05); };
        if (q == "pdf") return [s](double x) { return s->pdf(x); }; }
    throw std::runtime_error("scalar " + n + " " + q);
}
static vector<double> bulk(const string &n, const string &q, const vector<double> &x) {
    if (I.count(n)) { auto m = I[n]; if (q == "lam") return m->lambda(x); if (q == "pcol") return m->pCollapse(x); if (q == "pdem") return m->pDemolition(x); if (q == "prep") return m->pRepair(x); }
    if (E.count(n)) { auto e = E[n]; if (q == "lam") return e->par_lambda(x); if (q == "mean") return e->EDP::Mean(x); if (q == "meanln") return e->MeanLn(x);
        if (q == "median") return e->Median(x); if (q == "sdln") return e->SD_ln(x); if (q == "sd") return e->SD(x); }
    if (S.count(n)) { auto s = S[n]; if (q == "years") { vector<int> y; for (double v: x) y.push_back((int)(v * 10)); return s->E_cost(y, 0.05); } }
    throw std::runtime_error("bulk " + n + " " + q);
}

static string run(const string &line) {
    In in(line); Out o; string c = word(in);
    if (c == "reset") { S.clear(); C.clear(); L.clear(); F.clear(); E.clear(); I.clear(); P.clear(); D.clear(); MD.clear(); ML.clear(); LD.clear(); }
    else if (c == "settings") { Integration::IntegrationSettings::Set_Tolerance(num(in)); Integration::IntegrationSettings::Set_Integration_Eval_Limit(integer(in));
        Integration::IntegrationSettings::Set_Integration_Search_Limit(integer(in)); Integration::IntegrationSettings::Set_Integration_Method((Integration::IntegrationSettings::METHOD_TYPE)integer(in)); }
    else if (c == "threads") { omp_set_num_threads(integer(in)); omp_set_max_active_levels(integer(in)); }
    else if (c == "clearcaches") Caching::Clear_Caches();
    else if (c == "det") { string n = word(in); D[n] = det(in); }
    else if (c == "mdet") { string n = word(in); MD[n] = std::make_shared<MutableDet>(det(in)); D[n] = MD[n]; }
    else if (c == "chgdet") { string n = word(in); at(MD, n)->become(det(in)); }
    else if (c == "prob") { string n = word(in); auto mu = at(D, word(in)); string mt = word(in); auto sg = at(D, word(in)); string st = word(in);
        P[n] = std::make_shared<LogNormalFn>(mu, mt == "mean" ? LogNormalFn::MEAN_X : mt == "median" ? LogNormalFn::MEDIAN_X : LogNormalFn::MEAN_LN_X,
                                             sg, st == "sd" ? LogNormalFn::SIGMA_X : LogNormalFn::SIGMA_LN_X); }
    else if (c == "im") { string n = word(in); I[n] = std::make_shared<IM>(at(D, word(in)), n); }
    else if (c == "col") { auto im = at(I, word(in)); im->SetCollapse(dist(in)); }
    else if (c == "dem") { auto im = at(I, word(in)); im->SetDemolition(dist(in)); }
    else if (c == "colnone") { at(I, word(in))->SetCollapse(shared_ptr<LogNormalDist>()); }
    else if (c == "demnone") { at(I, word(in))->SetDemolition(shared_ptr<LogNormalDist>()); }
    else if (c == "fates") { auto im = at(I, word(in)); double x = num(in); o.add(im->pCollapse(x)); o.add(im->pDemolition(x)); o.add(im->pRepair(x)); }
    else if (c == "fatecost") { auto s = at(S, word(in)); double x = num(in); LogNormalDist r = s->Cost(x, false), t = s->TotalCost(x), w = s->Cost(x, true); auto f = s->CostsByFate(x); auto d = s->DeaggregatedCost(x);
        o.add(r.get_mean_X()); o.add(r.get_sigma_X()); o.add(t.get_mean_X()); o.add(t.get_sigma_X()); o.add(f.repair.get_mean_X()); o.add(f.demolition.get_mean_X()); o.add(f.collapse.get_mean_X());
        o.add(d.first.get_mean_X()); o.add(d.second.get_mean_X()); o.add(w.get_mean_X()); o.add(w.get_sigma_X()); }
    else if (c == "yearcost") { auto s = at(S, word(in)); int y = integer(in); double r = num(in); o.add(s->AnnualCost().get_mean_X()); o.add(s->E_cost(y, r)); o.add(s->E_cost(vector<int>(1, y), r)); o.o << ""; }
    else if (c == "colp") { auto im = at(I, word(in)); im->SetCollapse(std::make_shared<LogNormalDist>(dist(in))); }
    else if (c == "demp") { auto im = at(I, word(in)); im->SetDemolition(std::make_shared<LogNormalDist>(dist(in))); }
    else if (c == "edp") { string n = word(in); auto i = at(I, word(in)); auto p = at(P, word(in)); E[n] = std::make_shared<EDP>(i, p, n); }
    else if (c == "cedp") { string n = word(in); auto i = at(I, word(in)); auto p = at(P, word(in)); auto q = at(P, word(in)); E[n] = std::make_shared<CompoundEDP>(i, p, q, n); }
    else if (c == "frag") { string n = word(in); F[n] = std::make_shared<FragilityFn>(dists(in)); }
    else if (c == "sloss" || c == "bloss") { string n = word(in); L[n] = loss(c, in); }
    else if (c == "mloss") { string n = word(in), k = word(in); ML[n] = std::make_shared<MutableLoss>(loss(k, in)); L[n] = ML[n]; }
    else if (c == "chgloss") { string n = word(in), k = word(in); at(ML, n)->become(loss(k, in)); }
    else if (c == "cg") { string n = word(in); auto e = at(E, word(in)); auto f = at(F, word(in)); string a = word(in), b = word(in); long k = integer(in); double ca = num(in), da = num(in);
        C[n] = std::make_shared<CompGroup>(e, f, a == "-" ? shared_ptr<LossFn>() : at(L, a), b == "-" ? shared_ptr<LossFn>() : at(L, b), k, ca, da, n); }
    else if (c == "st") { string n = word(in); S[n] = std::make_shared<Structure>(n); }
    else if (c == "add") { auto s = at(S, word(in)); s->AddCompGroup(at(C, word(in))); }
    else if (c == "rem") { auto s = at(S, word(in)); s->RemoveCompGroup(at(C, word(in))); }
    else if (c == "members") { auto s = at(S, word(in)); for (auto &g: s->Components()) { string nm = "?"; for (auto &kv: C) if (kv.second == g) nm = kv.first; o.o << ' ' << nm; } }
    else if (c == "rebuild") { auto s = at(S, word(in)); s->setRebuildCost(dist(in)); }
    else if (c == "demo") { auto s = at(S, word(in)); s->setDemolitionCost(dist(in)); }
    else if (c == "replace") { string a = word(in), b = word(in);
        if (!(swap_in(D, a, b) || swap_in(P, a, b) || swap_in(I, a, b) || swap_in(E, a, b) || swap_in(F, a, b) || swap_in(L, a, b) || swap_in(C, a, b))) throw std::runtime_error("no object " + a); }
    else if (c == "notify") { string a = word(in); if (D.count(a)) D[a]->notify_change(); else if (P.count(a)) P[a]->notify_change(); else if (L.count(a)) L[a]->notify_change();
        else if (F.count(a)) F[a]->notify_change(); else if (I.count(a)) I[a]->notify_change(); else if (E.count(a)) E[a]->notify_change(); else if (C.count(a)) C[a]->notify_change(); else throw std::runtime_error("no object " + a); }
    else if (c == "drop") { string a = word(in); MD.erase(a); ML.erase(a); size_t k = D.erase(a) + P.erase(a) + I.erase(a) + E.erase(a) + F.erase(a) + L.erase(a) + C.erase(a) + S.erase(a); if (!k) throw std::runtime_error("no object " + a); }
    else if (c == "get") { string a = word(in), q;
        while (in >> q) { if (I.count(a)) q_im(I[a], q, o); else if (E.count(a)) q_edp(E[a], q, o); else if (C.count(a)) q_cg(C[a], q, o); else if (S.count(a)) q_st(S[a], q, o);
            else if (D.count(a)) q_det(D[a], q, o); else if (P.count(a)) q_prob(P[a], q, o); else if (F.count(a)) q_frag(F[a], q, o); else if (L.count(a)) { o.sep("size"); o.add(L[a]->n_states()); }
            else throw std::runtime_error("no object " + a); } }
    else if (c == "val") { string n = word(in), q = word(in); auto f = scalar(n, q); for (double x: nums(in)) o.add(f(x)); }
    else if (c == "quant") { // one figure: object, what, argument
        string n = word(in), q = word(in); double x = num(in);
        auto begins = [&q](const char *p) { return q.compare(0, strlen(p), p) == 0; };
        if (C.count(n) && begins("pds")) o.add(C[n]->pDS_IM(x).at(atoi(q.c_str() + 3) - 1));
        else if (C.count(n) && begins("rate")) o.add(C[n]->Rate().at(atoi(q.c_str() + 4) - 1));
        else if (S.count(n) && q == "costsd") o.add(S[n]->Cost(x, false).get_sigma_X());
        else if (S.count(n) && q == "totalsd") o.add(S[n]->TotalCost(x).get_sigma_X());
        else if (S.count(n) && q == "annualsd") o.add(S[n]->AnnualCost().get_sigma_X());
        else if (S.count(n) && begins("years")) o.add(S[n]->E_cost(atoi(q.c_str() + 5), x));
        else o.add(scalar(n, q)(x)); }
    else if (c == "bulk") { string n = word(in), q = word(in); o.add(bulk(n, q, nums(in))); }
    else if (c == "lists") { // K threads, each asking its own list at once, R times; reports, of each, an answer that differs from its first if there is one
        long k = integer(in), n = integer(in); vector<std::pair<string, string>> q(k); vector<vector<double>> x(k), r(k); vector<std::exception_ptr> bad(k);
        for (long t = 0; t < k; t++) { string a = word(in), b = word(in); q[t] = std::make_pair(a, b); x[t] = nums(in); }
        vector<std::thread> ts; std::atomic<long> ready(0);
        for (long t = 0; t < k; t++) ts.emplace_back([&, t] { ready++; while (ready < k) ;
            try { for (long j = 0; j < n; j++) { vector<double> a = bulk(q[t].first, q[t].second, x[t]);
                if (j == 0) r[t] = a; else if (a.size() != r[t].size() || (a.size() && memcmp(&a[0], &r[t][0], a.size() * sizeof(double)))) { r[t] = a; break; } } }
            catch (...) { bad[t] = std::current_exception(); } });
        for (auto &t: ts) t.join();
        for (auto &b: bad) if (b) std::rethrow_exception(b);
        for (auto &v: r) o.add(v); }
    else if (c == "nbulk") { // the bulk query made from inside a parallel region of k threads
        string n = word(in), q = word(in); long k = integer(in); vector<double> x = nums(in); vector<vector<double>> r(k);
#pragma omp parallel for num_threads(k)
        for (long i = 0; i < k; i++) r[i] = bulk(n, q, x);
        for (auto &v: r) o.add(v); }
    else if (c == "ptvals") { // k threads, each asking for all values in its own rotation
        string n = word(in), q = word(in); long k = integer(in); vector<double> x = nums(in); vector<vector<double>> r(k, vector<double>(x.size()));
        vector<std::thread> ts; auto f = scalar(n, q);
        for (long t = 0; t < k; t++) ts.emplace_back([&, t] { for (size_t j = 0; j < x.size(); j++) { size_t i = (j * (t % 3 + 1) + t) % x.size(); if (x.size() % (t % 3 + 1) == 0 && t % 3) i = (j + t) % x.size(); r[t][i] = f(x[i]); } });
        for (auto &t: ts) t.join();
        for (auto &v: r) o.add(v); }
    else if (c == "stress") { // k threads asking n times each for arguments in a haphazard order; reports the last wrong-looking (differing) answer of each
        string n = word(in), q = word(in); long k = integer(in), m = integer(in); vector<double> x = nums(in); auto f = scalar(n, q);
        vector<double> one(x.size()); for (size_t i = 0; i < x.size(); i++) one[i] = f(x[i]);
        vector<vector<double>> r(k, one); vector<std::thread> ts;
        for (long t = 0; t < k; t++) ts.emplace_back([&, t] { unsigned s = 12345 + 777 * t; for (long j = 0; j < m; j++) { s = s * 1103515245u + 12345u; size_t i = (s >> 16) % x.size(); double v = f(x[i]);
            if (!(v == one[i] || (std::isnan(v) && std::isnan(one[i])))) r[t][i] = v; } });
        for (auto &t: ts) t.join();
        for (auto &v: r) o.add(v); }
    else if (c == "together") { // several threads at once: K [order seed psync pmem] then for each N and N times object question argument
        long k = integer(in); vector<double> pl = nums(in); vector<vector<std::function<double (void)>>> ask(k); vector<vector<double>> r(k);
        for (long t = 0; t < k; t++) { long n = integer(in); r[t].resize(n); for (long j = 0; j < n; j++) { string x = word(in), q = word(in); double a = num(in); auto f = scalar(x, q); ask[t].push_back([f, a] { return f(a); }); } }
#ifdef WITH_SCHED
        sched::Plan p; p.order = pl[0]; p.seed = pl[1]; p.p_sync = pl[2]; p.p_mem = pl[3];
        vector<std::function<void (void)>> bodies;
        for (long t = 0; t < k; t++) bodies.push_back([t, &ask, &r] { for (size_t j = 0; j < ask[t].size(); j++) r[t][j] = ask[t][j](); });
        if (sched::run(bodies, p) == sched::DEADLOCK) { fprintf(stderr, "deadlock: %s\n", sched::blocked().c_str()); _exit(41); }
#else
        vector<std::thread> ts; std::atomic<long> ready(0);
        for (long t = 0; t < k; t++) ts.emplace_back([t, k, &ask, &r, &ready] { ready++; while (ready < k) ; for (size_t j = 0; j < ask[t].size(); j++) r[t][j] = ask[t][j](); });
        for (auto &t: ts) t.join();
#endif
        for (auto &v: r) o.add(v); }
    else if (c == "pexc") { o.add(at(F, word(in))->pExceeded(num(in))); }
    else if (c == "phigh") { o.add(at(F, word(in))->pHighest(num(in))); }
    else if (c == "nstates") { string n = word(in); if (F.count(n)) o.add(F[n]->n_states()); else o.add(at(L, n)->n_states()); }
    else if (c == "loss") { auto l = at(L, word(in)); long k = integer(in); double adj = num(in); o.add(l->CalculateLoss(nums(in), k, adj)); }
    else if (c == "gdist") { auto g = at(C, word(in)); string w = word(in); double x = num(in);
        if (w == "cost") { o.add(g->E_cost_EDP(x)); o.add(g->SD_ln_cost_EDP(x)); } else { o.add(g->E_delay_EDP(x)); o.add(g->SD_ln_delay_EDP(x)); } }
    else if (c == "dist") { LogNormalDist d = dist(in); o.add(d); for (double x: nums(in)) { o.add(d.p_at_least(x)); o.add(d.p_at_most(x)); } }
    else if (c == "distinv") { LogNormalDist d = dist(in); for (double p: nums(in)) { double x = d.x_at_p(p); o.add(x); o.add(d.p_at_most(x)); } }
    else if (c == "scale") { string k = word(in); LogNormalDist d = dist(in); double f = num(in);
        o.add(k == "p" ? d.ScaleDistributionByProbability(f) : k == "n" ? d.ScaleDistributionByNumComponents(f) : d.ApplyAdjustmentFactor(f)); }
    else if (c == "adddists") { o.add(LogNormalDist::AddDistributions(dists(in))); }
    else if (c == "wdists") { vector<LogNormalDist> d = dists(in); o.add(LogNormalDist::AddWeightedDistributions(d, nums(in))); }
    else if (c == "ld") { string n = word(in); LD[n] = dist(in); o.add(LD[n]); }
    else if (c == "ldscale") { string n = word(in), k = word(in); LogNormalDist d = LD.at(word(in)); double f = num(in);
        LD[n] = k == "p" ? d.ScaleDistributionByProbability(f) : k == "n" ? d.ScaleDistributionByNumComponents(f) : d.ApplyAdjustmentFactor(f); o.add(LD[n]); }
    else if (c == "ldadd") { string n = word(in); long k = integer(in); vector<LogNormalDist> v; for (long i = 0; i < k; i++) v.push_back(LD.at(word(in)));
        LD[n] = LogNormalDist::AddDistributions(v); o.add(LD[n]); }
    else if (c == "ldmix") { string n = word(in); long k = integer(in); vector<LogNormalDist> v; for (long i = 0; i < k; i++) v.push_back(LD.at(word(in)));
        LD[n] = LogNormalDist::AddWeightedDistributions(v, nums(in)); o.add(LD[n]); }
    else if (c == "ldmom") { o.add(LD.at(word(in))); }
    else if (c == "ldp") { LogNormalDist d = LD.at(word(in)); vector<double> x = nums(in), p = nums(in);
        for (double v: x) o.add(d.p_at_least(v)); for (double v: x) o.add(d.p_at_most(v)); for (double v: p) o.add(d.x_at_p(v)); }
    else if (c == "probfn") { auto p = at(P, word(in)); double x = num(in); o.add(p->Mean(x)); o.add(p->MeanLn(x)); o.add(p->Median(x)); o.add(p->SD_ln(x)); o.add(p->SD(x)); for (double y: nums(in)) { o.add(p->P_exceedence(x, y)); } }
    else if (c == "compound") { auto e = at(E, word(in)); auto p = at(P, word(in)), q = at(P, word(in)); double x = num(in);
        o.add(e->Mean(x)); o.add(e->MeanLn(x)); o.add(e->Median(x)); o.add(e->SD_ln(x)); o.add(e->SD(x)); for (double y: nums(in)) o.add(e->P_exceedence(x, y));
        for (double v: {0.1, 0.7}) o.add(e->X_at_exceedence(x, v)); for (double v: {0.1, 0.7}) o.add(p->X_at_exceedence(x, v)); for (double v: {0.1, 0.7}) o.add(q->X_at_exceedence(x, v)); }
    else if (c == "pinv") { auto p = at(P, word(in)); double x = num(in); for (double y: nums(in)) o.add(p->X_at_exceedence(x, y)); }
    else throw std::runtime_error("unknown command " + c);
    string r = o.o.str();
    return r.empty() ? "ok" : r.substr(1);
}

int main() {
    gsl_set_error_handler_off();
    boost::log::core::get()->set_logging_enabled(false);
    // results go to a private descriptor: the library itself prints on stdout
    FILE *res = fdopen(3, "w");
    if (!res) res = stdout;
    string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        string r;
        try { r = run(line); }
        catch (std::invalid_argument &e) { r = string("EXC invalid_argument"); }
        catch (std::runtime_error &e) { r = string("EXC runtime_error ") + e.what(); }
        catch (std::exception &e) { r = string("EXC exception ") + e.what(); }
        for (char &ch: r) if (ch == '\n') ch = ' ';
        fprintf(res, "%s\n", r.c_str()); fflush(res);
    }
    S.clear(); C.clear(); L.clear(); F.clear(); E.clear(); I.clear(); P.clear(); D.clear(); MD.clear(); ML.clear();
    fprintf(res, "END\n"); fflush(res);
    return 0;
}
