// See vsched.hpp.  This file is compiled WITHOUT instrumentation.
#include "vsched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <string>
#include <vector>

#ifndef VS_EXPORT
#define VS_EXPORT extern "C" __attribute__((visibility("default"), used))
#endif

// libstdc++ uses this to choose non-atomic reference counts
extern "C" char __libc_single_threaded;

#ifdef VS_RACE
#include "vsrace.hpp"
#endif

namespace vs {

void (*on_stuck)(const char*, const std::string&) = nullptr;
void (*on_race)(const char*, const std::string&)  = nullptr;

namespace {

enum State : int { RUNNABLE, B_MUTEX, B_COND, B_JOIN, B_SLEEP, B_POLL, B_GUARD, B_QUIET, FINISHED };
const char* const state_names[] =
    {"runnable", "mutex", "cond", "join", "sleep", "poll", "guard", "quiet-wait", "finished"};

constexpr uint64_t NEVER = ~0ULL;

struct Thread {
    int id{0};
    int run{0};  // futex word
    State state{RUNNABLE};
    const void* obj{nullptr};
    uint64_t deadline{NEVER};
    bool timed_out{false};
    pollfd* fds{nullptr};
    nfds_t nfds{0};
    int poll_result{0};
    pthread_t handle{};
    bool detached{false};
    void* (*fn)(void*){nullptr};
    void* arg{nullptr};
    void* ret{nullptr};
    uint64_t prio{0};
    uint64_t stalled_until{0};
    uint64_t cpu{0};
    uint64_t run_len{0};
};

bool g_active = false;
Options g_opt;
std::vector<Thread*>* g_threads = nullptr;
Thread* g_current               = nullptr;
uint64_t g_now                  = 0;
uint64_t g_steps                = 0;
uint64_t g_switches             = 0;
uint64_t g_rng                  = 1;
uint64_t g_next_deadline        = NEVER;
int g_pollers                   = 0;
int g_nopreempt                 = 0;
pthread_key_t g_key;
bool g_key_made = false;
thread_local Thread* t_self = nullptr;

// strategy
int g_strategy             = 0;
uint64_t g_switch_den      = 4;  // random walk: switch with probability 1/den
uint64_t g_change_gap      = 100;
uint64_t g_next_change     = 0;
uint64_t g_low_prio        = 1ULL << 32;
uint64_t g_stall_gap       = 0;
uint64_t g_next_stall      = 0;
uint64_t g_busy_since      = 0;  ///< the step at which time last moved to a deadline
uint64_t g_stall_len       = 0;

constexpr uint64_t BASE_MONO = 1000000000000ULL;        // 1000 s
constexpr uint64_t BASE_REAL = 1700000000000000000ULL;  // some time in 2023

uint64_t rnd() {
    g_rng += 0x9E3779B97F4A7C15ULL;
    uint64_t z = g_rng;
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
uint64_t rnd(uint64_t n) {
    return n <= 1 ? 0 : rnd() % n;
}

template <typename F>
F real(const char* name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

long futex(int* addr, int op, int val) {
    return syscall(SYS_futex, addr, op | FUTEX_PRIVATE_FLAG, val, nullptr, nullptr, 0);
}

void give_turn(Thread* t) {
    __atomic_store_n(&t->run, 1, __ATOMIC_RELEASE);
    futex(&t->run, FUTEX_WAKE, 1);
}
void wait_turn(Thread* t) {
    while (__atomic_load_n(&t->run, __ATOMIC_ACQUIRE) == 0) {
        futex(&t->run, FUTEX_WAIT, 0);
    }
    __atomic_store_n(&t->run, 0, __ATOMIC_RELAXED);
}

void stuck(const char* kind) {
    const std::string r = describe_threads();
    g_active            = false;
    if (on_stuck != nullptr) {
        on_stuck(kind, r);
    }
    fprintf(stderr, "vsched: %s\n%s\n", kind, r.c_str());
    _exit(98);
}

void recompute_deadline() {
    g_next_deadline = NEVER;
    for (auto* t : *g_threads) {
        if (t->state != RUNNABLE && t->state != FINISHED && t->deadline < g_next_deadline) {
            g_next_deadline = t->deadline;
        }
    }
}

void make_runnable(Thread* t) {
    if (t->state == B_POLL) {
        --g_pollers;
    }
    t->state    = RUNNABLE;
    t->obj      = nullptr;
    t->deadline = NEVER;
}

void expire_deadlines() {
    for (auto* t : *g_threads) {
        if (t->state != RUNNABLE && t->state != FINISHED && t->deadline <= g_now) {
            t->timed_out = true;
            make_runnable(t);
        }
    }
    recompute_deadline();
}

int real_poll(pollfd* fds, nfds_t n) {
    timespec zero{0, 0};
    return int(syscall(SYS_ppoll, fds, n, &zero, nullptr, 0));
}

bool check_pollers() {
    bool any = false;
    if (g_pollers > 0) {
        for (auto* t : *g_threads) {
            if (t->state == B_POLL) {
                int r = real_poll(t->fds, t->nfds);
                if (r != 0) {
                    t->poll_result = r;
                    make_runnable(t);
                    any = true;
                }
            }
        }
        if (any) {
            recompute_deadline();
        }
    }
    return any;
}

Thread* choose(Thread* me, bool prefer_other) {
    // Candidates: runnable and not stalled; fall back to stalled ones
    Thread* cand[256];
    int n = 0;
    for (int pass = 0; pass < 2 && n == 0; ++pass) {
        for (auto* t : *g_threads) {
            if (t->state == RUNNABLE && (pass == 1 || t->stalled_until <= g_steps) && n < 256) {
                cand[n++] = t;
            }
        }
    }
    if (n == 0) {
        return nullptr;
    }
    if (n == 1) {
        return cand[0];
    }
    if (g_strategy == 1) {  // PCT like
        if (me != nullptr && prefer_other) {
            me->prio = g_low_prio--;
        }
        Thread* best = cand[0];
        for (int i = 1; i < n; ++i) {
            if (cand[i]->prio > best->prio) {
                best = cand[i];
            }
        }
        if (best == me && me->run_len > 3000) {  // starvation bound
            me->prio = g_low_prio--;
            return choose(nullptr, false);
        }
        return best;
    }
    // random walk
    bool me_is_cand = false;
    for (int i = 0; i < n; ++i) {
        me_is_cand = me_is_cand || cand[i] == me;
    }
    if (me_is_cand && !prefer_other && me->run_len < 20000 && rnd(g_switch_den) != 0) {
        return me;
    }
    if (me_is_cand) {  // pick somebody else
        int k = int(rnd(uint64_t(n - 1)));
        for (int i = 0; i < n; ++i) {
            if (cand[i] == me) {
                continue;
            }
            if (k-- == 0) {
                return cand[i];
            }
        }
    }
    return cand[rnd(uint64_t(n))];
}

/// Pick the next thread and switch to it.  `me` may be blocked or finished.
void reschedule(Thread* me, bool prefer_other) {
    const int saved_errno = errno;
    ++g_steps;
    g_now += g_opt.tick_ns;
    if (me != nullptr) {
        ++me->run_len;
        ++me->cpu;
    }
    if (g_steps > g_opt.max_steps) {
        stuck("endless");
    }
    if (g_opt.time_jumps && g_next_deadline != NEVER && rnd(2000) == 0) {
        g_now = g_next_deadline > g_now ? g_next_deadline : g_now;
    }
    // threads which spin for long enough have used real time too
    if (g_opt.spin_jump && g_next_deadline != NEVER && g_steps >= g_busy_since + 1000 && g_next_deadline > g_now) {
        g_now = g_next_deadline;
    }
    if (g_next_deadline <= g_now) {
        g_busy_since = g_steps;
        expire_deadlines();
    }
    if (g_strategy == 1 && g_steps >= g_next_change) {
        // lower the priority of the running thread, as PCT does
        g_next_change = g_steps + 1 + rnd(g_change_gap * 2);
        if (me != nullptr) {
            me->prio = rnd(2) == 0 ? g_low_prio-- : (1ULL << 33) + rnd(1ULL << 20);
        }
    }
    if (g_strategy == 2 && g_steps >= g_next_stall) {
        g_next_stall = g_steps + 1 + rnd(g_stall_gap * 2);
        if (me != nullptr) {
            me->stalled_until = g_steps + 1 + rnd(g_stall_len);
            prefer_other      = true;
        }
    }
    if (g_opt.spurious && rnd(4096) == 0) {
        // a spurious wake up of one condition variable waiter
        const uint64_t k = rnd(g_threads->size());
        Thread* t        = (*g_threads)[k];
        if (t->state == B_COND && t != me) {
            make_runnable(t);
            recompute_deadline();
        }
    }
    if (g_pollers > 0 && (g_steps & 7U) == 0) {
        check_pollers();
    }

    Thread* next = nullptr;
    for (;;) {
        next = choose(me != nullptr && me->state == RUNNABLE ? me : nullptr, prefer_other);
        if (next != nullptr) {
            break;
        }
        if (check_pollers()) {
            continue;
        }
        // Nobody can run: the quiet waiter goes first
        bool woke = false;
        for (auto* t : *g_threads) {
            if (t->state == B_QUIET) {
                make_runnable(t);
                woke = true;
                break;
            }
        }
        if (woke) {
            continue;
        }
        recompute_deadline();
        if (g_next_deadline == NEVER) {
            stuck("deadlock");
        }
        if (g_next_deadline > g_now) {
            g_now = g_next_deadline;
        }
        g_busy_since = g_steps;
        expire_deadlines();
    }
    if (next != me) {
        ++g_switches;
        next->run_len = 0;
        g_current     = next;
        const bool wait = me != nullptr && me->state != FINISHED;
        give_turn(next);
        if (wait) {
            wait_turn(me);
        }
    }
    errno = saved_errno;
}

inline bool controlled() {
    return g_active && t_self != nullptr;
}

void block(Thread* me, State s, const void* obj, uint64_t deadline) {
    me->state     = s;
    me->obj       = obj;
    me->deadline  = deadline;
    me->timed_out = false;
    if (deadline < g_next_deadline) {
        g_next_deadline = deadline;
    }
    reschedule(me, false);
}

void wake_all(State s, const void* obj) {
    bool any = false;
    for (auto* t : *g_threads) {
        if (t->state == s && t->obj == obj) {
            make_runnable(t);
            any = true;
        }
    }
    if (any) {
        recompute_deadline();
    }
}

void finish(void* p) {
    auto* me = static_cast<Thread*>(p);
    if (!g_active) {
        t_self = nullptr;
        return;
    }
#ifdef VS_RACE
    race::thread_finish(me->id);
#endif
    me->state = FINISHED;
    wake_all(B_JOIN, me);
    t_self = nullptr;
    reschedule(me, false);
}

void* trampoline(void* p) {
    auto* me = static_cast<Thread*>(p);
    t_self   = me;
    wait_turn(me);
    real<int (*)(pthread_key_t, const void*)>("pthread_setspecific")(g_key, me);
#ifdef VS_RACE
    race::thread_start(me->id);
#endif
    me->ret = me->fn(me->arg);
    // C++ thread_local destructors run next, then finish() as a key destructor
    return me->ret;
}

uint64_t to_ns(const timespec* ts) {
    return uint64_t(ts->tv_sec) * 1000000000ULL + uint64_t(ts->tv_nsec);
}

uint64_t deadline_for(clockid_t clk, const timespec* abs) {
    const uint64_t a = to_ns(abs);
    const uint64_t b = clk == CLOCK_REALTIME ? BASE_REAL : BASE_MONO;
    uint64_t d       = a > b ? a - b : 0;
    if (g_opt.sleep_jitter_ns > 0) {
        d += rnd(g_opt.sleep_jitter_ns);
    }
    return d;
}

}  // namespace

std::string strategy_name() {
    char b[96];
    if (g_strategy == 1) {
        snprintf(b, sizeof b, "pct(gap=%llu)", (unsigned long long) g_change_gap);
    }
    else if (g_strategy == 2) {
        snprintf(b, sizeof b, "stall(len=%llu,den=%llu)", (unsigned long long) g_stall_len, (unsigned long long) g_switch_den);
    }
    else {
        snprintf(b, sizeof b, "walk(1/%llu)", (unsigned long long) g_switch_den);
    }
    return b;
}

std::string describe_threads() {
    std::string s;
    for (auto* t : *g_threads) {
        char b[160];
        snprintf(b, sizeof b, "T%d:%s%s ", t->id, state_names[t->state], t->deadline != NEVER ? "(timed)" : "");
        s += b;
    }
    return s;
}

void begin(const Options& o) {
    g_opt     = o;
    g_rng     = o.seed * 0x9E3779B97F4A7C15ULL + 12345;
    g_threads = new std::vector<Thread*>();
    g_now = 0;
    g_steps = g_switches = 0;
    g_next_deadline      = NEVER;
    g_pollers = g_nopreempt = 0;
    if (!g_key_made) {
        pthread_key_create(&g_key, finish);
        g_key_made = true;
    }
    auto* t    = new Thread();
    t->id      = 0;
    t->handle  = pthread_self();
    t->prio    = (1ULL << 33) + rnd(1ULL << 20);
    g_threads->push_back(t);
    t_self     = t;
    g_current  = t;
    g_strategy = o.strategy >= 0 ? o.strategy : int(rnd(o.stalls ? 3 : 2));
    static const uint64_t dens[] = {2, 3, 5, 10, 30, 100};
    g_switch_den                 = dens[rnd(6)];
    static const uint64_t gaps[] = {20, 60, 200, 700, 2500};
    g_change_gap                 = gaps[rnd(5)];
    g_next_change                = rnd(g_change_gap * 2);
    g_stall_gap                  = gaps[rnd(5)];
    g_next_stall                 = rnd(g_stall_gap * 2);
    g_busy_since                 = 0;
    static const uint64_t lens[] = {20, 100, 500, 3000};
    g_stall_len                  = lens[rnd(4)];
    g_low_prio                   = 1ULL << 32;
#ifdef VS_RACE
    race::begin();
    race::thread_start(0);
#endif
    g_active = true;
#ifndef VS_RACE
#endif
}

void end() {
    g_active = false;
}

bool active() {
    return g_active;
}
int self() {
    return t_self != nullptr ? t_self->id : -1;
}
void point() {
    if (controlled() && g_nopreempt == 0) {
        reschedule(t_self, false);
    }
}
void yield() {
    if (controlled() && g_nopreempt == 0) {
        reschedule(t_self, true);
    }
}
uint64_t now_ns() {
    return g_now;
}
uint64_t steps() {
    return g_steps;
}
uint64_t switches() {
    return g_switches;
}
void sleep_ns(uint64_t ns) {
    if (controlled()) {
        uint64_t d = g_now + ns;
        block(t_self, B_SLEEP, nullptr, d);
    }
}
Quiet wait_quiet(uint64_t max_ns) {
    if (controlled()) {
        block(t_self, B_QUIET, nullptr, max_ns == NEVER ? NEVER : g_now + max_ns);
        for (auto* t : *g_threads) {
            if (t != t_self && t->state == RUNNABLE) {
                return Quiet::BUSY;
            }
        }
        for (auto* t : *g_threads) {
            if (t != t_self && t->state != RUNNABLE && t->state != FINISHED && t->deadline != NEVER) {
                return Quiet::TIMED;
            }
        }
    }
    return Quiet::STUCK;
}
int live_threads() {
    int n = 0;
    for (auto* t : *g_threads) {
        n += t->state != FINISHED ? 1 : 0;
    }
    return n;
}
bool thread_finished(int id) {
    for (auto* t : *g_threads) {
        if (t->id == id) {
            return t->state == FINISHED;
        }
    }
    return false;
}
NoPreempt::NoPreempt() {
    ++g_nopreempt;
}
NoPreempt::~NoPreempt() {
    --g_nopreempt;
}

}  // namespace vs

using namespace vs;

#define ACTIVE (g_active && t_self != nullptr)
#define REAL(ret, name, args) static auto real_fn = real<ret(*) args>(name)

// ---------------------------------------------------------------------------------------------
// pthread
// ---------------------------------------------------------------------------------------------
VS_EXPORT int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    REAL(int, "pthread_create", (pthread_t*, const pthread_attr_t*, void* (*) (void*), void*));
    if (!ACTIVE) {
        return real_fn(th, attr, fn, arg);
    }
    auto* t  = new Thread();
    t->id    = int(g_threads->size());
    t->fn    = fn;
    t->arg   = arg;
    t->state = RUNNABLE;
    t->prio  = (1ULL << 33) + rnd(1ULL << 20);
    const int r = real_fn(&t->handle, attr, trampoline, t);
    if (r != 0) {
        return r;
    }
    *th = t->handle;
    g_threads->push_back(t);
#ifdef VS_RACE
    race::thread_create(t_self->id, t->id);
#else
#endif
    if (g_nopreempt == 0) {
        reschedule(t_self, false);
    }
    return 0;
}

VS_EXPORT int pthread_join(pthread_t th, void** ret) {
    REAL(int, "pthread_join", (pthread_t, void**));
    if (!ACTIVE) {
        return real_fn(th, ret);
    }
    Thread* target = nullptr;
    for (auto it = g_threads->rbegin(); it != g_threads->rend(); ++it) {
        if (pthread_equal((*it)->handle, th) != 0 && !(*it)->detached) {
            target = *it;
            break;
        }
    }
    if (target == nullptr) {
        return ESRCH;
    }
    while (target->state != FINISHED) {
        block(t_self, B_JOIN, target, NEVER);
    }
    target->detached = true;  // the handle may be reused
#ifdef VS_RACE
    race::thread_join(t_self->id, target->id);
#endif
    return real_fn(th, ret);
}

VS_EXPORT int pthread_detach(pthread_t th) {
    REAL(int, "pthread_detach", (pthread_t));
    if (ACTIVE) {
        for (auto* t : *g_threads) {
            if (pthread_equal(t->handle, th) != 0) {
                t->detached = true;
            }
        }
    }
    return real_fn(th);
}

static void vmutex_lock(pthread_mutex_t* m) {
    auto& d = m->__data;
    if (d.__lock != 0 && d.__owner == t_self->id + 1 && (d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
        ++d.__count;
        return;
    }
    while (d.__lock != 0) {
        block(t_self, B_MUTEX, m, NEVER);
    }
    d.__lock  = 1;
    d.__owner = t_self->id + 1;
    d.__count = 1;
#ifdef VS_RACE
    race::acquire(t_self->id, m);
#endif
}
static void vmutex_unlock(pthread_mutex_t* m) {
    auto& d = m->__data;
    if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP && d.__count > 1) {
        --d.__count;
        return;
    }
#ifdef VS_RACE
    race::release(t_self->id, m);
#endif
    d.__lock  = 0;
    d.__owner = 0;
    d.__count = 0;
    wake_all(B_MUTEX, m);
}

VS_EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
    REAL(int, "pthread_mutex_lock", (pthread_mutex_t*));
    if (!ACTIVE) {
        return g_active ? 0 : real_fn(m);
    }
    vs::point();
    vmutex_lock(m);
    return 0;
}
VS_EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
    REAL(int, "pthread_mutex_trylock", (pthread_mutex_t*));
    if (!ACTIVE) {
        return g_active ? 0 : real_fn(m);
    }
    vs::point();
    if (m->__data.__lock != 0) {
        return EBUSY;
    }
    vmutex_lock(m);
    return 0;
}
VS_EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
    REAL(int, "pthread_mutex_unlock", (pthread_mutex_t*));
    if (!ACTIVE) {
        return g_active ? 0 : real_fn(m);
    }
    vmutex_unlock(m);
    vs::point();
    return 0;
}

static int vcond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
    vmutex_unlock(m);
    block(t_self, B_COND, c, deadline);
    const bool timed_out = t_self->timed_out;
    t_self->timed_out    = false;
    vmutex_lock(m);
    return timed_out ? ETIMEDOUT : 0;
}
VS_EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    REAL(int, "pthread_cond_wait", (pthread_cond_t*, pthread_mutex_t*));
    if (!ACTIVE) {
        return real_fn(c, m);
    }
    return vcond_wait(c, m, NEVER);
}
VS_EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
    REAL(int, "pthread_cond_timedwait", (pthread_cond_t*, pthread_mutex_t*, const timespec*));
    if (!ACTIVE) {
        return real_fn(c, m, ts);
    }
    return vcond_wait(c, m, deadline_for(CLOCK_REALTIME, ts));
}
VS_EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts) {
    REAL(int, "pthread_cond_clockwait", (pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*));
    if (!ACTIVE) {
        return real_fn(c, m, clk, ts);
    }
    return vcond_wait(c, m, deadline_for(clk, ts));
}
VS_EXPORT int pthread_cond_signal(pthread_cond_t* c) {
    REAL(int, "pthread_cond_signal", (pthread_cond_t*));
    if (!ACTIVE) {
        return g_active ? 0 : real_fn(c);
    }
    Thread* w[256];
    int n = 0;
    for (auto* t : *g_threads) {
        if (t->state == B_COND && t->obj == c && n < 256) {
            w[n++] = t;
        }
    }
    if (n > 0) {
        make_runnable(w[rnd(uint64_t(n))]);
        recompute_deadline();
    }
    vs::point();
    return 0;
}
VS_EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
    REAL(int, "pthread_cond_broadcast", (pthread_cond_t*));
    if (!ACTIVE) {
        return g_active ? 0 : real_fn(c);
    }
    wake_all(B_COND, c);
    vs::point();
    return 0;
}
VS_EXPORT int pthread_setschedparam(pthread_t, int, const sched_param*) {
    return 0;  // never change real scheduling classes of the machine the check runs on
}

// ---------------------------------------------------------------------------------------------
// static initialisation guards
// ---------------------------------------------------------------------------------------------
VS_EXPORT int __cxa_guard_acquire(uint64_t* g) {
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    for (;;) {
        if (b[0] != 0) {
#ifdef VS_RACE
            if (ACTIVE) {
                race::acquire(t_self->id, g);
            }
#endif
            return 0;
        }
        if (b[1] == 0) {
            b[1] = 1;
            b[2] = ACTIVE ? 1 : 0;
            return 1;
        }
        // A holder which is not controlled makes progress on its own and wakes nobody
        if (ACTIVE && b[2] != 0) {
            block(t_self, B_GUARD, g, NEVER);
        }
        else {
            sched_yield();
        }
    }
}
VS_EXPORT void __cxa_guard_release(uint64_t* g) {
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
#ifdef VS_RACE
    if (ACTIVE) {
        race::release(t_self->id, g);
    }
#endif
    b[0] = 1;
    b[1] = 0;
    if (ACTIVE) {
        wake_all(B_GUARD, g);
    }
}
VS_EXPORT void __cxa_guard_abort(uint64_t* g) {
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    b[1]    = 0;
    if (ACTIVE) {
        wake_all(B_GUARD, g);
    }
}

// ---------------------------------------------------------------------------------------------
// time
// ---------------------------------------------------------------------------------------------
VS_EXPORT int clock_gettime(clockid_t clk, timespec* ts) {
    if (!g_active) {
        return int(syscall(SYS_clock_gettime, clk, ts));
    }
    uint64_t ns = 0;
    if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) {
        ns = BASE_REAL + g_now;
    }
    else if (clk == CLOCK_THREAD_CPUTIME_ID || clk == CLOCK_PROCESS_CPUTIME_ID) {
        ns = (t_self != nullptr ? t_self->cpu : 0) * 100;
    }
    else {
        ns = BASE_MONO + g_now;
    }
    ts->tv_sec  = time_t(ns / 1000000000ULL);
    ts->tv_nsec = long(ns % 1000000000ULL);
    if (clk == CLOCK_MONOTONIC || clk == CLOCK_REALTIME) {
        vs::point();
    }
    return 0;
}
VS_EXPORT int gettimeofday(timeval* tv, void*) {
    timespec ts{};
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
VS_EXPORT int nanosleep(const timespec* req, timespec* rem) {
    if (!ACTIVE) {
        return int(syscall(SYS_nanosleep, req, rem));
    }
    uint64_t ns = to_ns(req);
    if (g_opt.sleep_jitter_ns > 0) {
        ns += rnd(g_opt.sleep_jitter_ns);
    }
    vs::sleep_ns(ns);
    return 0;
}
VS_EXPORT int clock_nanosleep(clockid_t clk, int flags, const timespec* req, timespec* rem) {
    if (!ACTIVE) {
        return int(syscall(SYS_clock_nanosleep, clk, flags, req, rem));
    }
    if ((flags & TIMER_ABSTIME) != 0) {
        const uint64_t d = deadline_for(clk, req);
        vs::sleep_ns(d > g_now ? d - g_now : 0);
    }
    else {
        nanosleep(req, rem);
    }
    return 0;
}
VS_EXPORT int usleep(useconds_t us) {
    timespec ts{time_t(us / 1000000), long(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
VS_EXPORT int sched_yield() {
    if (!ACTIVE) {
        return int(syscall(SYS_sched_yield));
    }
    g_now += 200;
    vs::yield();
    return 0;
}

// ---------------------------------------------------------------------------------------------
// polling
// ---------------------------------------------------------------------------------------------
VS_EXPORT int poll(pollfd* fds, nfds_t n, int timeout) {
    if (!ACTIVE) {
        timespec ts{timeout / 1000, long(timeout % 1000) * 1000000};
        return int(syscall(SYS_ppoll, fds, n, timeout < 0 ? nullptr : &ts, nullptr, 0));
    }
    vs::point();
    int r = real_poll(fds, n);
    if (r != 0 || timeout == 0) {
        return r;
    }
    t_self->fds         = fds;
    t_self->nfds        = n;
    t_self->poll_result = 0;
    ++g_pollers;
    block(t_self, B_POLL, nullptr, timeout < 0 ? NEVER : g_now + uint64_t(timeout) * 1000000ULL);
    if (t_self->timed_out) {
        t_self->timed_out = false;
        return real_poll(fds, n);
    }
    return t_self->poll_result;
}

// ---------------------------------------------------------------------------------------------
// atomics
// ---------------------------------------------------------------------------------------------
VS_EXPORT void __tsan_init() {}

#ifdef VS_RACE
#define PRE(addr, sz, isw)                                \
    do {                                                  \
        if (ACTIVE) {                                     \
            race::atomic_access((const void*) addr, sz);  \
        }                                                 \
    } while (0)
#define ACQ(addr, mo)                                                        \
    do {                                                                     \
        if (ACTIVE) race::atomic_load(t_self->id, (const void*) addr, mo);    \
    } while (0)
#define REL(addr, mo, rmw)                                                         \
    do {                                                                           \
        if (ACTIVE) race::atomic_store(t_self->id, (const void*) addr, mo, rmw);    \
    } while (0)
#else
#define PRE(addr, sz, isw) ((void) 0)
#define ACQ(addr, mo) ((void) (mo))
#define REL(addr, mo, rmw) ((void) (mo))
#endif

#define RMW(bits, T, name, expr)                                                         \
    VS_EXPORT T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo) {                \
        vs::point();                                                                      \
        PRE(a, sizeof(T), true);                                                          \
        ACQ(a, mo);                                                                       \
        REL(a, mo, true);                                                                 \
        return expr;                                                                      \
    }
#define ATOMICS(bits, T)                                                                  \
    VS_EXPORT T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                 \
        vs::point();                                                                      \
        PRE(a, sizeof(T), false);                                                         \
        ACQ(a, mo);                                                                       \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                      \
    }                                                                                     \
    VS_EXPORT void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {              \
        vs::point();                                                                      \
        PRE(a, sizeof(T), true);                                                          \
        REL(a, mo, false);                                                                \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                     \
    RMW(bits, T, exchange, __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST))                   \
    RMW(bits, T, fetch_add, __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST))                   \
    RMW(bits, T, fetch_sub, __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST))                   \
    RMW(bits, T, fetch_and, __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST))                   \
    RMW(bits, T, fetch_or, __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST))                     \
    RMW(bits, T, fetch_xor, __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST))                   \
    RMW(bits, T, fetch_nand, __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST))                 \
    VS_EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { \
        vs::point();                                                                      \
        PRE(a, sizeof(T), true);                                                          \
        T e           = c;                                                                \
        const bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        ACQ(a, ok ? mo : fmo);                                                            \
        if (ok) {                                                                         \
            REL(a, mo, true);                                                             \
        }                                                                                 \
        return e;                                                                         \
    }                                                                                     \
    VS_EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
        const T e = *c;                                                                   \
        const T r = __tsan_atomic##bits##_compare_exchange_val(a, e, v, mo, fmo);         \
        *c        = r;                                                                    \
        return r == e;                                                                    \
    }                                                                                     \
    VS_EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);           \
    }

ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

VS_EXPORT void __tsan_atomic_thread_fence(int mo) {
    vs::point();
#ifdef VS_RACE
    if (ACTIVE) {
        race::fence(t_self->id, mo);
    }
#endif
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
VS_EXPORT void __tsan_atomic_signal_fence(int) {}
