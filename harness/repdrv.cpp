// Replaceable<T>: replays behaviours of Replaceable.tla.
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include "replaceable.h"
using namespace SLAT;
struct Subject : public Replaceable<Subject> { std::string name; Subject(std::string n) : name(n) {} };
struct Client { int id; std::shared_ptr<Subject> ref; bool alive; };
static std::map<std::string, std::shared_ptr<Subject>> subjects;
static std::map<std::string, std::shared_ptr<Client>> clients;
static std::multiset<std::string> notified;
int main() {
    FILE *res = fdopen(3, "w"); if (!res) res = stdout;
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); std::string op, x, y; in >> op >> x >> y; notified.clear();
        auto subject = [&] (const std::string &n) { auto &s = subjects[n]; if (!s) s = std::make_shared<Subject>(n); return s; };
        if (op == "reset") { clients.clear(); subjects.clear(); }
        else if (op == "attach") {
            auto c = std::make_shared<Client>(); Client *p = c.get(); p->ref = subject(x); p->alive = true;
            std::string t = y;
            p->id = p->ref->add_callbacks([t] (void) { notified.insert(t); },
                                          [p] (std::shared_ptr<Subject> s) { p->ref = s; });
            clients[y] = c; }
        else if (op == "detach") { subject(x)->remove_callbacks(clients[y]->id); }
        else if (op == "notify") { subject(x)->notify_change(); }
        else if (op == "replace") { auto a = subject(x), b = subject(y); a->replace(b); }
        fprintf(res, "N");
        for (auto &t: notified) fprintf(res, " %s", t.c_str());
        fprintf(res, " W");
        for (auto &c: clients) fprintf(res, " %s=%s", c.first.c_str(), c.second->ref->name.c_str());
        fprintf(res, "\n"); fflush(res);
    }
    clients.clear(); subjects.clear();
    fprintf(res, "END\n"); fflush(res);
}
