// Cooperative scheduler: one registered thread runs at a time; which one is
// decided at every memory access, lock and unlock of the code under test
// (which is compiled with -fsanitize=thread, calling our own hooks).
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <functional>
#include <string>
#include <vector>
#include <utility>
namespace sched {
    struct Plan {
        unsigned long seed = 1;
        int order = 0;               // which thread goes first
        std::vector<std::pair<long, int>> at;  // (step, rotation): preempt at that step
        double p_sync = 0;           // probability of a switch at each lock/unlock
        double p_mem = 0;            // probability of a switch at each memory access
    };
    enum Outcome { DONE, DEADLOCK };
    // runs the bodies to completion under the plan
    Outcome run(std::vector<std::function<void (void)>> bodies, const Plan &plan);
    long steps(void);                // scheduling points passed in the last run
    std::string blocked(void);       // after a deadlock: who waits for what
    // inside a body:
    void point(void);                // a scheduling point of the harness' own
    void wait_until(std::function<bool (void)> cond);
    struct Quiet { Quiet(); ~Quiet(); };   // the harness' own bookkeeping is not interrupted
    // for threads that the harness did not start (OpenMP teams)
    void expect(int threads, const Plan &plan);  // a team of this size will enter
    void enter(int index);
    void leave(void);
    Outcome finish(void);
}
#endif
