#include "sched.hpp"

#include <cerrno>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <thread>

namespace sim {
namespace {

constexpr int MAXT = 8;
constexpr i64 FAIR = 20000;          // slice length once the plan has no more to say

struct Sched {
    int n = 0;
    sem_t sem[MAXT + 1];
    OpState saved[MAXT];
    bool done[MAXT] = {};
    int cur = -1;
    std::vector<Slice> slices;
    std::size_t at = 0;
    i64 left = 0;
    u64 switches = 0;
};
Sched* S = nullptr;
thread_local int my = -1;            // number of this thread under the scheduler
thread_local int pinned = 0;         // in the initialisation of a local static

void wait_sem(sem_t* s) { while (sem_wait(s) != 0) {} }

int next_alive(int t) {
    for (int i = 1; i <= S->n; ++i)
        if (!S->done[(t + i) % S->n]) return (t + i) % S->n;
    return -1;
}
// the next thread to run, when the current slice is over
int choose() {
    while (S->at < S->slices.size()) {
        Slice s = S->slices[S->at++];
        int t = s.thread % S->n;
        if (S->done[t] || s.blocks <= 0) continue;
        S->left = s.blocks;
        return t;
    }
    S->left = FAIR;
    return next_alive(S->cur < 0 ? S->n - 1 : S->cur);
}
void resume(int to) {
    ++S->switches;
    ++stats.switches;
    ++K.run_events;
    K.shape = mix(K.shape, (u64) to);
    K.mixv((u64) to);
    S->cur = to;
    static_cast<OpState&>(K) = S->saved[to];
    sem_post(&S->sem[to]);
}
void hand_over(int to) {
    int me = S->cur;
    if (to == me) return;
    S->saved[me] = static_cast<OpState&>(K);
    resume(to);
    wait_sem(&S->sem[me]);
}
void preempt() {
    if (!S || my < 0 || pinned || --S->left > 0) return;
    Pause pz;
    int t = choose();
    if (t >= 0) hand_over(t);
}

} // namespace

int current_thread() { return my; }

u64 run_threads(const std::vector<std::function<void()>>& bodies, const std::vector<Slice>& slices, std::string& shared) {
    Sched sc;
    Pause pz;
    sc.n = (int) bodies.size();
    sc.slices = slices;
    for (auto& s : sc.sem) sem_init(&s, 0, 0);
    S = &sc;
    preempt_hook = preempt;
    std::vector<std::thread> ts;
    for (int i = 0; i < sc.n; ++i)
        ts.emplace_back([&, i] {
            wait_sem(&sc.sem[i]);
            my = i;
            bodies[(std::size_t) i]();
            my = -1;
            Pause q;
            sc.done[i] = true;
            int t = choose();
            if (t < 0) sem_post(&sc.sem[sc.n]);
            else resume(t);
        });
    static_cast<OpState&>(K) = OpState{};
    race_begin();
    alloc_hook = race_forget;
    mem_hook = race_access;
    sc.cur = choose();
    sem_post(&sc.sem[sc.cur]);
    wait_sem(&sc.sem[sc.n]);
    for (auto& t : ts) t.join();
    alloc_hook = nullptr;
    mem_hook = nullptr;
    if (const char* r = race_end()) shared = r;
    S = nullptr;
    preempt_hook = nullptr;
    for (auto& s : sc.sem) sem_destroy(&s);
    static_cast<OpState&>(K) = OpState{};
    return sc.switches;
}

} // namespace sim

// What would block the one running thread for ever is turned into a switch.
namespace sim {
namespace {
template <class F> int take(F attempt, const void* what) {
    for (int tries = 0;; ++tries) {
        int r = attempt();
        if (r != EBUSY) {
            race_sync(what);
            return r;
        }
        Pause pz;
        int t = next_alive(S->cur);
        if (t < 0 || t == S->cur || tries > 100000) die_hang("threads wait for each other");
        S->left = FAIR;
        hand_over(t);
    }
}
} // namespace
} // namespace sim
extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
    using F = int (*)(pthread_mutex_t*);
    static F real = nullptr;
    if (!real) real = (F) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!sim::S || sim::my < 0) return real(m);
    return sim::take([&] { return pthread_mutex_trylock(m); }, m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    using F = int (*)(pthread_mutex_t*);
    static F real = nullptr;
    if (!real) real = (F) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    sim::race_sync(m);
    return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    using F = int (*)(pthread_rwlock_t*);
    static F real = nullptr;
    if (!real) real = (F) dlsym(RTLD_NEXT, "pthread_rwlock_rdlock");
    if (!sim::S || sim::my < 0) return real(m);
    return sim::take([&] { return pthread_rwlock_tryrdlock(m); }, m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    using F = int (*)(pthread_rwlock_t*);
    static F real = nullptr;
    if (!real) real = (F) dlsym(RTLD_NEXT, "pthread_rwlock_wrlock");
    if (!sim::S || sim::my < 0) return real(m);
    return sim::take([&] { return pthread_rwlock_trywrlock(m); }, m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    using F = int (*)(pthread_rwlock_t*);
    static F real = nullptr;
    if (!real) real = (F) dlsym(RTLD_NEXT, "pthread_rwlock_unlock");
    sim::race_sync(m);
    return real(m);
}
int __cxa_guard_acquire(std::uint64_t* g) {
    sim::race_sync(g);
    if (*(const char*) g) return 0;
    char* busy = (char*) g + 1;
    if (*busy) sim::die_hang("recursive initialisation of a local static");
    *busy = 1;
    ++sim::pinned;
    return 1;
}
void __cxa_guard_release(std::uint64_t* g) {
    sim::race_sync(g);
    *(char*) g = 1;
    --sim::pinned;
}
void __cxa_guard_abort(std::uint64_t* g) {
    ((char*) g)[1] = 0;
    --sim::pinned;
}

} // extern "C"
