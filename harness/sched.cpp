#include "sched.h"
#include <atomic>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <omp.h>

namespace {
    int futex(std::atomic<int> *a, int op, int v, const struct timespec *ts = nullptr) { return syscall(SYS_futex, (int *)a, op, v, ts, nullptr, 0); }
    struct SpinLock {            // protects the scheduler's own state; held very briefly
        std::atomic<int> f{0};
        void lock() { while (f.exchange(1, std::memory_order_acquire)) { futex(&f, FUTEX_WAIT_PRIVATE, 1, nullptr); } }
        void unlock() { f.store(0, std::memory_order_release); futex(&f, FUTEX_WAKE_PRIVATE, 1); }
    };
    enum State { ABSENT, RUNNABLE, BLOCKED, EXTERNAL, FINISHED };
    struct T {
        State state = ABSENT;
        void *on = nullptr; const char *what = "";
        std::function<bool (void)> cond;
        std::atomic<int> go{0};
    };
    const int MAXT = 64;
    T threads[MAXT];
    int nthreads = 0;
    SpinLock big;
    int current = -1;
    bool active = false, dead = false;
    sched::Plan plan;
    size_t next_at = 0;
    std::atomic<long> nsteps{0};
    uint64_t rng;
    std::atomic<int> done_flag{0};
    std::string blocked_text;
    thread_local int me = -1;
    thread_local int inside = 0;    // in the scheduler or in code not to be preempted

    uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
    double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

    bool runnable(int i) {
        T &t = threads[i];
        if (t.state == RUNNABLE) return true;
        if (t.state == BLOCKED && t.cond) { if (t.cond()) { t.state = RUNNABLE; t.cond = nullptr; return true; } }
        return false;
    }
    // with `big` held: choose the next thread, starting at index `from`; -1 if there is none
    int choose(int from) {
        for (int k = 0; k < nthreads; k++) { int i = (from + k) % nthreads; if (runnable(i)) return i; }
        return -1;
    }
    void give(int i) { current = i; threads[i].go.store(1); futex(&threads[i].go, FUTEX_WAKE_PRIVATE, 1); }
    void await_turn() {
        T &t = threads[me];
        while (!t.go.load()) futex(&t.go, FUTEX_WAIT_PRIVATE, 0, nullptr);
        t.go.store(0);
    }
    void declare_dead() {
        dead = true; blocked_text.clear();
        for (int i = 0; i < nthreads; i++) if (threads[i].state != FINISHED && threads[i].state != ABSENT) {
            char b[160]; snprintf(b, sizeof b, "thread %d %s; ", i, threads[i].state == EXTERNAL ? "blocked" : threads[i].what); blocked_text += b; }
        done_flag.store(2); futex(&done_flag, FUTEX_WAKE_PRIVATE, 10);
    }
    // with `big` held; the current thread gives up its turn to another one
    void pass_on(int from) {
        int n = choose(from);
        if (n >= 0) { give(n); return; }
        current = -1;
        for (int i = 0; i < nthreads; i++) if (threads[i].state == EXTERNAL || threads[i].state == ABSENT) return;  // the watchdog decides
        bool all = true;
        for (int i = 0; i < nthreads; i++) if (threads[i].state != FINISHED) all = false;
        if (all) { done_flag.store(1); futex(&done_flag, FUTEX_WAKE_PRIVATE, 10); }
        else declare_dead();
    }
    // back in the scheduler: if the watchdog took our turn away, queue up for another one
    void check_turn() {
        big.lock();
        if (threads[me].state == EXTERNAL) {
            threads[me].state = RUNNABLE;
            if (current == -1) { current = me; big.unlock(); return; }
            big.unlock();
            await_turn();
        } else big.unlock();
    }
    void maybe_switch(bool sync) {
        if (me < 0 || inside || !active) return;
        inside++;
        if (threads[me].state == EXTERNAL) check_turn();
        long s = ++nsteps;
        int rotate = 0;
        if (next_at < plan.at.size() && s >= plan.at[next_at].first) rotate = plan.at[next_at++].second;
        else { double p = sync ? plan.p_sync : plan.p_mem; if (p > 0 && rnd01() < p) rotate = 1 + (int)(rnd() % (nthreads > 1 ? nthreads - 1 : 1)); }
        if (rotate) {
            big.lock();
            int n = choose((me + rotate) % nthreads);
            if (n >= 0 && n != me) { give(n); big.unlock(); await_turn(); }
            else big.unlock();
        }
        inside--;
    }
    void block_on(void *p, const char *what, std::function<bool (void)> cond) {
        inside++;
        big.lock();
        T &t = threads[me];
        t.state = BLOCKED; t.on = p; t.what = what; t.cond = cond;
        pass_on((me + 1) % nthreads);
        big.unlock();
        await_turn();
        t.on = nullptr;
        inside--;
    }
    void wake(void *p) {
        big.lock();
        for (int i = 0; i < nthreads; i++) if (threads[i].state == BLOCKED && threads[i].on == p && !threads[i].cond) threads[i].state = RUNNABLE;
        if (current == -1) { int n = choose(0); if (n >= 0) give(n); }
        big.unlock();
    }
    void begin(int n, const sched::Plan &p) {
        plan = p; next_at = 0; nsteps = 0; rng = p.seed * 2654435761ull + 88172645463325252ull; for (int i = 0; i < 8; i++) rnd();
        nthreads = n; dead = false; done_flag = 0; current = -1;
        for (int i = 0; i < n; i++) { threads[i].state = ABSENT; threads[i].go = 0; threads[i].cond = nullptr; threads[i].on = nullptr; }
        active = true;
    }
    std::atomic<int> entered{0};
    void enter(int i) {
        me = i; inside = 1;
        big.lock();
        threads[i].state = RUNNABLE;
        int k = ++entered;
        if (k == nthreads) { entered = 0; give(choose(plan.order % nthreads)); }
        big.unlock();
        await_turn();
        inside = 0;
    }
    void leave() {
        inside++;
        big.lock();
        threads[me].state = FINISHED;
        if (current == me || current == -1) pass_on((me + 1) % nthreads);
        big.unlock();
        inside--;
        me = -1;
    }
    sched::Outcome supervise() {
        // waits for the end; lets others go on when the running thread is
        // blocked by something this scheduler does not know
        long last = -1; int idle = 0, stuck = 0;
        struct timespec ts = {0, 20 * 1000 * 1000};
        while (done_flag.load() == 0) {
            futex(&done_flag, FUTEX_WAIT_PRIVATE, 0, &ts);
            if (done_flag.load()) break;
            long s = nsteps.load();
            if (s != last) { last = s; idle = stuck = 0; continue; }
            idle++;
            if (idle >= 8) {         // 160 ms without a step
                idle = 0;
                big.lock();
                bool moved = false;
                if (current >= 0) {
                    int from = current;
                    if (threads[from].state == RUNNABLE) { threads[from].state = EXTERNAL; threads[from].what = "waits in the system"; }
                    int n = choose((from + 1) % nthreads);
                    if (n >= 0 && n != from) { give(n); moved = true; } else current = -1;
                } else { int n = choose(0); if (n >= 0) { give(n); moved = true; } }
                if (moved) stuck = 0;
                else if (++stuck > 40) declare_dead();   // 6 s
                big.unlock();
            }
        }
        active = false;
        return dead ? sched::DEADLOCK : sched::DONE;
    }
    template <class F> F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
}

namespace sched {
    Outcome run(std::vector<std::function<void (void)>> bodies, const Plan &p) {
        begin(bodies.size(), p);
        entered = 0;
        std::vector<std::thread> ts;
        for (size_t i = 0; i < bodies.size(); i++) ts.emplace_back([i, &bodies] { ::enter(i); bodies[i](); ::leave(); });
        Outcome o = supervise();
        for (auto &t: ts) { if (o == DONE) t.join(); else t.detach(); }
        return o;
    }
    long steps(void) { return nsteps; }
    std::string blocked(void) { return blocked_text; }
    void point(void) { maybe_switch(true); }
    void wait_until(std::function<bool (void)> cond) {
        if (me < 0 || !active) { while (!cond()) std::this_thread::yield(); return; }
        inside++; bool ok = cond(); inside--;
        if (!ok) block_on(nullptr, "waits for another thread to get on", cond);
    }
    Quiet::Quiet() { ::inside++; }
    Quiet::~Quiet() { ::inside--; }
    void expect(int n, const Plan &p) { begin(n, p); entered = 0; }
    void enter(int i) { ::enter(i); }
    void leave(void) { ::leave(); }
    Outcome finish(void) { return supervise(); }
}

// ---------------------------------------------------------------- locks
extern "C" {
    static int (*r_omp_test)(omp_lock_t *); static void (*r_omp_set)(omp_lock_t *); static void (*r_omp_unset)(omp_lock_t *);
    static int (*r_omp_ntest)(omp_nest_lock_t *); static void (*r_omp_nset)(omp_nest_lock_t *); static void (*r_omp_nunset)(omp_nest_lock_t *);
    static int (*r_mtry)(pthread_mutex_t *), (*r_mlock)(pthread_mutex_t *), (*r_munlock)(pthread_mutex_t *);
    static int (*r_cwait)(pthread_cond_t *, pthread_mutex_t *), (*r_csig)(pthread_cond_t *), (*r_cbc)(pthread_cond_t *);
    static int (*r_rd)(pthread_rwlock_t *), (*r_wr)(pthread_rwlock_t *), (*r_rwun)(pthread_rwlock_t *), (*r_tryrd)(pthread_rwlock_t *), (*r_trywr)(pthread_rwlock_t *);
    static void init_real(void) {
        static bool done = false; if (done) return; done = true;
        r_omp_test = real<int (*)(omp_lock_t *)>("omp_test_lock"); r_omp_set = real<void (*)(omp_lock_t *)>("omp_set_lock"); r_omp_unset = real<void (*)(omp_lock_t *)>("omp_unset_lock");
        r_omp_ntest = real<int (*)(omp_nest_lock_t *)>("omp_test_nest_lock"); r_omp_nset = real<void (*)(omp_nest_lock_t *)>("omp_set_nest_lock"); r_omp_nunset = real<void (*)(omp_nest_lock_t *)>("omp_unset_nest_lock");
        r_mtry = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); r_mlock = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); r_munlock = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
        r_cwait = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait"); r_csig = real<int (*)(pthread_cond_t *)>("pthread_cond_signal"); r_cbc = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
        r_rd = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock"); r_wr = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock"); r_rwun = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
        r_tryrd = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock"); r_trywr = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock");
    }
    __attribute__((constructor)) static void init_sched(void) { init_real(); }
    static bool managed(void) { return me >= 0 && !inside && active; }

    void omp_init_lock(omp_lock_t *l) {
        static void (*r)(omp_lock_t *) = real<void (*)(omp_lock_t *)>("omp_init_lock");
        if (managed()) maybe_switch(true);
        r(l);
    }
    void omp_set_lock(omp_lock_t *l) {
        init_real();
        if (!managed()) { r_omp_set(l); return; }
        maybe_switch(true);
        while (!r_omp_test(l)) block_on(l, "waits for an OpenMP lock", nullptr);
    }
    void omp_unset_lock(omp_lock_t *l) {
        init_real();
        r_omp_unset(l);
        if (active) wake(l);
        if (managed()) maybe_switch(true);
    }
    void omp_set_nest_lock(omp_nest_lock_t *l) {
        init_real();
        if (!managed()) { r_omp_nset(l); return; }
        maybe_switch(true);
        while (!r_omp_ntest(l)) block_on(l, "waits for an OpenMP lock", nullptr);
    }
    void omp_unset_nest_lock(omp_nest_lock_t *l) { init_real(); r_omp_nunset(l); if (active) wake(l); if (managed()) maybe_switch(true); }

    int pthread_mutex_lock(pthread_mutex_t *m) {
        if (!managed()) { if (!r_mlock) init_real(); return r_mlock(m); }
        maybe_switch(true);
        int r;
        while ((r = r_mtry(m)) == EBUSY) block_on(m, "waits for a mutex", nullptr);
        return r;
    }
    int pthread_mutex_unlock(pthread_mutex_t *m) {
        if (!r_munlock) init_real();
        int r = r_munlock(m);
        if (active && !inside) { wake(m); if (managed()) maybe_switch(true); }
        return r;
    }
    int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
        if (!managed()) return r_cwait(c, m);
        r_munlock(m); wake(m);
        block_on(c, "waits for a condition", nullptr);
        while (r_mtry(m) == EBUSY) block_on(m, "waits for a mutex", nullptr);
        return 0;
    }
    int pthread_cond_signal(pthread_cond_t *c) { int r = r_csig(c); if (active && !inside) { wake(c); if (managed()) maybe_switch(true); } return r; }
    int pthread_cond_broadcast(pthread_cond_t *c) { int r = r_cbc(c); if (active && !inside) { wake(c); if (managed()) maybe_switch(true); } return r; }
    int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
        if (!managed()) { if (!r_rd) init_real(); return r_rd(l); }
        maybe_switch(true); int r;
        while ((r = r_tryrd(l)) == EBUSY) block_on(l, "waits for a lock", nullptr);
        return r;
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
        if (!managed()) { if (!r_wr) init_real(); return r_wr(l); }
        maybe_switch(true); int r;
        while ((r = r_trywr(l)) == EBUSY) block_on(l, "waits for a lock", nullptr);
        return r;
    }
    int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!r_rwun) init_real(); int r = r_rwun(l); if (active && !inside) { wake(l); if (managed()) maybe_switch(true); } return r; }

    // critical sections (OpenMP)
    static std::map<void *, int> &crit(void) { static std::map<void *, int> *m = new std::map<void *, int>(); return *m; }
    static void crit_start(void *p) {
        maybe_switch(true);
        for (;;) {
            big.lock();
            int &h = crit()[p];
            if (!h) { h = 1; big.unlock(); return; }
            big.unlock();
            if (managed()) block_on(p, "waits for a critical section", nullptr);
            else std::this_thread::yield();
        }
    }
    static void crit_end(void *p) {
        big.lock(); crit()[p] = 0; big.unlock();
        if (active) wake(p);
        maybe_switch(true);
    }
    static char unnamed, atomic_section;
    void GOMP_critical_start(void) { crit_start(&unnamed); }
    void GOMP_critical_end(void) { crit_end(&unnamed); }
    void GOMP_critical_name_start(void **p) { crit_start(p); }
    void GOMP_critical_name_end(void **p) { crit_end(p); }
    void GOMP_atomic_start(void) { crit_start(&atomic_section); }
    void GOMP_atomic_end(void) { crit_end(&atomic_section); }

    // ------------------------------------------------------ memory accesses
    // threads not under control (OpenMP's own, say): with SCHED_NOISE=n, one access in n is preceded by a short delay
    // (many more in the outermost functions of a thread, the body of a parallel loop, say)
    static unsigned noise_rate = getenv("SCHED_NOISE") ? atoi(getenv("SCHED_NOISE")) : 0;
    static thread_local int depth = 0;
    static void noise(void) {
        static thread_local unsigned z = 0;
        if (!z) z = (unsigned)(size_t)&z * 2654435761u | 1;
        z ^= z << 13; z ^= z >> 17; z ^= z << 5;
        if (z % (depth <= 2 ? 4 : noise_rate) == 0) for (volatile unsigned i = 0, n = 200 + (z >> 8) % (depth <= 2 ? 60000 : 8000); i < n; i = i + 1) ;
    }
#define MEM do { if (noise_rate && me < 0) noise(); maybe_switch(false); } while (0)
    void __tsan_init(void) {}
    void __tsan_func_entry(void *) { depth++; }
    void __tsan_func_exit(void *) { depth--; }
    void __tsan_vptr_update(void **, void *) { MEM; }
    void __tsan_vptr_read(void **) { MEM; }
    void __tsan_read_range(void *, unsigned long) { MEM; }
    void __tsan_write_range(void *, unsigned long) { MEM; }
#define ACC(n) void __tsan_read##n(void *) { MEM; } void __tsan_write##n(void *) { MEM; } \
    void __tsan_unaligned_read##n(void *) { MEM; } void __tsan_unaligned_write##n(void *) { MEM; } \
    void __tsan_volatile_read##n(void *) { MEM; } void __tsan_volatile_write##n(void *) { MEM; }
    ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
#define ATOM(n, ty) \
    ty __tsan_atomic##n##_load(const volatile ty *a, int) { MEM; return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile ty *a, ty v, int) { MEM; __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_exchange(volatile ty *a, ty v, int) { MEM; return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_add(volatile ty *a, ty v, int) { MEM; return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_sub(volatile ty *a, ty v, int) { MEM; return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_and(volatile ty *a, ty v, int) { MEM; return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_or(volatile ty *a, ty v, int) { MEM; return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_xor(volatile ty *a, ty v, int) { MEM; return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_nand(volatile ty *a, ty v, int) { MEM; return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int, int) { MEM; return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int, int) { MEM; return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_compare_exchange_val(volatile ty *a, ty c, ty v, int, int) { MEM; __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
    ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}
    void *__tsan_memcpy(void *d, const void *s, size_t n) { MEM; return memcpy(d, s, n); }
    void *__tsan_memmove(void *d, const void *s, size_t n) { MEM; return memmove(d, s, n); }
    void *__tsan_memset(void *d, int c, size_t n) { MEM; return memset(d, c, n); }
}
