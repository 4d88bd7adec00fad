// Controlled scheduler: with SCHED_CONTROL defined one registered thread runs at a time and hands over
// at scheduling points - lock operations, static initialization guards, once flags, memory allocation
// and the harness's own points - as a schedule says. The library is not changed: the points come from
// interposing the functions which it calls. Without SCHED_CONTROL the threads run freely (TSan).
#pragma once
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <thread>
#include <unistd.h>
#include <vector>

namespace sched {

struct Plan
{
    Plan() : seed(1), coarse(500), fine(0) {}
    uint64_t seed;
    int coarse, fine;                   // chance in 1000 to switch at a lock and at an allocation
    std::vector<int> picks;             // first decisions at coarse points: the specification's
    std::map<long, int> preempt;        // point number -> thread: a systematic schedule
};

enum { Max = 8 };
enum State { Unborn, Ready, Blocked, Done };

struct Shared
{
    Plan plan;
    int n;
    sem_t sem[Max];
    State state[Max];
    const void* on[Max];
    int current;
    size_t pick;
    long points;
    uint64_t rng;
    volatile bool free;
    volatile bool deadlock;
    sem_t finished;
};

static Shared shared_;
inline Shared& sh() { return shared_; }
static thread_local int self = -1;
static thread_local bool inside = false;
static bool active = false;

inline uint64_t rnd() { Shared& s = sh(); s.rng ^= s.rng << 13; s.rng ^= s.rng >> 7; s.rng ^= s.rng << 17; return s.rng; }

#ifdef SCHED_CONTROL

inline void waitTurn(int t) { while (sem_wait(&sh().sem[t])) {} }

// Gives the turn to next, or to any ready thread if next is -1. Returns false if no thread can run.
inline bool give(int next)
{
    Shared& s = sh();
    if (next < 0 || s.state[next] != Ready) {
        int ready[Max], n = 0;
        for (int i = 0; i < s.n; ++i) if (s.state[i] == Ready) ready[n++] = i;
        if (!n) return false;
        next = ready[rnd() % n];
    }
    s.current = next;
    sem_post(&s.sem[next]);
    return true;
}

inline void point(bool fine)
{
    if (!active || self < 0 || inside) return;
    Shared& s = sh();
    if (s.free) return;
    inside = true;
    long nth = s.points++;
    int next = self;
    auto it = s.plan.preempt.find(nth);
    if (!s.plan.preempt.empty()) { if (it != s.plan.preempt.end()) next = it->second % s.n; }
    else if (!fine && s.pick < s.plan.picks.size()) next = s.plan.picks[s.pick++] % s.n;
    else if (int(rnd() % 1000) < (fine ? s.plan.fine : s.plan.coarse)) next = int(rnd() % s.n);
    if (next != self && s.state[next] == Ready) {
        s.current = next;
        sem_post(&s.sem[next]);
        waitTurn(self);
    }
    inside = false;
}

// Waits until somebody releases obj. Returns false when running freely.
inline bool block(const void* obj)
{
    Shared& s = sh();
    if (s.free) return false;
    s.state[self] = Blocked;
    s.on[self] = obj;
    if (!give(-1)) {
        s.deadlock = true;
        sem_post(&s.finished);
        while (true) pause();
    }
    waitTurn(self);
    return true;
}

inline void release(const void* obj)
{
    if (!active || self < 0) return;
    Shared& s = sh();
    for (int i = 0; i < s.n; ++i) if (s.state[i] == Blocked && s.on[i] == obj) s.state[i] = Ready;
}

inline bool controlled() { return active && self >= 0 && !inside && !sh().free; }

template<typename F> F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

#else
inline void point(bool) {}
#endif

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// Runs fn(0) .. fn(n-1) concurrently. Returns what went wrong: "", "deadlock" or "hang".
template<typename Fn>
std::string run(int n, const Plan& plan, Fn fn, double limit = 20)
{
    Shared& s = sh();
    s.plan = plan;
    s.n = n;
    s.rng = plan.seed * 2654435761u + 88172645463325252ull;
    s.pick = 0; s.points = 0; s.free = s.deadlock = false; s.current = -1;
    sem_init(&s.finished, 0, 0);
    std::atomic<int> left(n), go(0);
    std::vector<std::thread> threads;
    for (int i = 0; i < n; ++i) { sem_init(&s.sem[i], 0, 0); s.state[i] = Ready; s.on[i] = nullptr; }
    for (int i = 0; i < n; ++i) {
        threads.emplace_back([&, i] {
            self = i;
#ifdef SCHED_CONTROL
            waitTurn(i);
#else
            go++;
            while (go < n) {}
#endif
            fn(i);
            self = -1;
#ifdef SCHED_CONTROL
            inside = true;
            s.state[i] = Done;
            bool last = --left == 0;
            // what is blocked once everyone else is done is blocked for good
            if (!last && !s.free && !give(-1)) { s.deadlock = true; sem_post(&s.finished); while (true) pause(); }
#else
            bool last = --left == 0;
#endif
            if (last) sem_post(&s.finished);
        });
    }
#ifdef SCHED_CONTROL
    active = true;
    give(-1);
    long seen = -1;
    double since = now(), start = since;
#else
    double start = now();
#endif
    while (true) {
        timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        t.tv_nsec += 50000000;
        if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; }
        if (!sem_timedwait(&s.finished, &t)) break;
#ifdef SCHED_CONTROL
        if (s.points != seen) { seen = s.points; since = now(); }
        else if (!s.free && now() - since > 3) {
            // a thread waits in a way which isn't a scheduling point: let them all run
            s.free = true;
            for (int i = 0; i < n; ++i) { if (s.state[i] == Blocked) s.state[i] = Ready; sem_post(&s.sem[i]); }
        }
#endif
        if (now() - start > limit) {
            for (auto& x : threads) x.detach();
            return "hang";
        }
    }
    if (s.deadlock) { for (auto& x : threads) x.detach(); return "deadlock"; }
    for (auto& x : threads) x.join();
    active = false;
    return "";
}

} // namespace sched

#ifdef SCHED_CONTROL
#ifdef SCHED_MAIN

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m)
{
    typedef int (*F)(pthread_mutex_t*);
    static F lock, tri; if (!lock) { lock = sched::real<F>("pthread_mutex_lock"); tri = sched::real<F>("pthread_mutex_trylock"); }
    if (!sched::controlled()) return lock(m);
    sched::point(false);
    while (true) {
        int r = tri(m);
        if (r != EBUSY) return r;
        if (!sched::block(m)) return lock(m);
    }
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
    typedef int (*F)(pthread_mutex_t*);
    static F unlock; if (!unlock) unlock = sched::real<F>("pthread_mutex_unlock");
    int r = unlock(m);
    if (sched::controlled()) { sched::release(m); sched::point(false); }
    return r;
}

int pthread_mutex_trylock(pthread_mutex_t* m)
{
    typedef int (*F)(pthread_mutex_t*);
    static F tri; if (!tri) tri = sched::real<F>("pthread_mutex_trylock");
    if (sched::controlled()) sched::point(false);
    return tri(m);
}

#define SCHED_RWLOCK(kind, trykind)                                                             \
int pthread_rwlock_##kind(pthread_rwlock_t* m)                                                  \
{                                                                                               \
    typedef int (*F)(pthread_rwlock_t*);                                                        \
    static F lock, tri; if (!lock) { lock = sched::real<F>("pthread_rwlock_" #kind); tri = sched::real<F>("pthread_rwlock_" #trykind); } \
    if (!sched::controlled()) return lock(m);                                                   \
    sched::point(false);                                                                        \
    while (true) {                                                                              \
        int r = tri(m);                                                                         \
        if (r != EBUSY) return r;                                                               \
        if (!sched::block(m)) return lock(m);                                                   \
    }                                                                                           \
}
SCHED_RWLOCK(rdlock, tryrdlock)
SCHED_RWLOCK(wrlock, trywrlock)

int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    typedef int (*F)(pthread_rwlock_t*);
    static F unlock; if (!unlock) unlock = sched::real<F>("pthread_rwlock_unlock");
    int r = unlock(m);
    if (sched::controlled()) { sched::release(m); sched::point(false); }
    return r;
}

// Static initialization guards (Itanium ABI: the first byte of the guard is the flag).
static const void* guards_[256];
static bool guardBegin(const void* g)
{
    for (auto p : guards_) if (p == g) return false;
    for (auto& p : guards_) if (!p) { p = g; return true; }
    abort();
}
static bool guardErase(const void* g)
{
    for (auto& p : guards_) if (p == g) { p = nullptr; return true; }
    return false;
}

int __cxa_guard_acquire(long long* g)
{
    typedef int (*F)(long long*);
    static F acq; if (!acq) acq = sched::real<F>("__cxa_guard_acquire");
    if (!sched::controlled()) return acq(g);
    sched::point(false);
    while (true) {
        if (*reinterpret_cast<volatile char*>(g)) return 0;
        if (guardBegin(g)) return 1;
        if (!sched::block(g)) return acq(g);
    }
}

static bool guardEnd(long long* g, bool done)
{
    if (sched::self < 0 || !guardErase(g)) return false;
    if (done) *reinterpret_cast<volatile char*>(g) = 1;
    sched::release(g);
    sched::point(false);
    return true;
}

void __cxa_guard_release(long long* g)
{
    typedef void (*F)(long long*);
    static F rel; if (!rel) rel = sched::real<F>("__cxa_guard_release");
    if (!sched::active || !guardEnd(g, true)) rel(g);
}

void __cxa_guard_abort(long long* g)
{
    typedef void (*F)(long long*);
    static F abt; if (!abt) abt = sched::real<F>("__cxa_guard_abort");
    if (!sched::active || !guardEnd(g, false)) abt(g);
}

int pthread_once(pthread_once_t* once, void (*init)())
{
    typedef int (*F)(pthread_once_t*, void (*)());
    static F real; if (!real) real = sched::real<F>("pthread_once");
    if (!sched::controlled()) return real(once, init);
    sched::point(false);
    while (true) {
        if (*once == 2) return 0;
        if (guardBegin(once)) break;
        if (!sched::block(once)) return real(once, init);
    }
    auto end = [&] (bool done) {
        guardErase(once);
        if (done) *once = 2;
        sched::release(once);
        sched::point(false);
    };
    try { init(); } catch (...) { end(false); throw; }
    end(true);
    return 0;
}

} // extern C

void* operator new(size_t n)
{
    sched::point(true);
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { sched::point(true); free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

#endif
#endif
