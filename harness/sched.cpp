#include "sched.hpp"

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <map>

typedef int (*fn_mutex)(pthread_mutex_t *);
typedef int (*fn_cwait)(pthread_cond_t *, pthread_mutex_t *);
typedef int (*fn_ctwait)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
typedef int (*fn_ccwait)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
typedef int (*fn_cond)(pthread_cond_t *);
typedef int (*fn_clock)(clockid_t, struct timespec *);
typedef int (*fn_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*fn_join)(pthread_t, void **);
typedef int (*fn_void)(void);
typedef int (*fn_nsleep)(const struct timespec *, struct timespec *);
typedef int (*fn_cnsleep)(clockid_t, int, const struct timespec *, struct timespec *);

template <typename F> static F real(const char *name, F *cache) {
    if (!*cache) *cache = (F) dlsym(RTLD_NEXT, name);
    return *cache;
}
#define REAL(T, name) ({ static T c_; real<T>(#name, &c_); })

namespace sched {

void (*on_stuck)(const char *what) = 0;
long thread_creations = 0;

namespace {

enum St { RUN, BMUTEX, BCOND, BJOIN, DONE };

struct Th {
    int id;
    St st = RUN;
    void *obj = 0;         // what it is blocked on
    bool timed = false;    // a timed wait: may be woken by the scheduler
    bool timedout = false;
    bool signalled = false;
    pthread_t pt;
    sem_t sem;
    uint64_t prio = 0;
};

Config cfg;
Outcome out;
std::atomic<bool> on(false);
std::vector<Th *> ths;
std::map<pthread_mutex_t *, int> owner;
int current = -1;
int expired = 0;                      // timed waits that ran out in this session
std::atomic<long long> skew(0);       // how far the clocks have been moved on, in ns
size_t gpos = 0;
uint64_t rng;
std::atomic<long> progress(0);
pthread_t wd;
std::vector<long> pct_points;
uint64_t pct_low = 0;

__thread int tl_id = -1;
__thread int tl_session = -1;
int session = 0;

uint64_t rnd() {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1DULL;
}

bool mine() { return on.load() && tl_session == session && tl_id >= 0; }

bool enabled(Th *t) {
    switch (t->st) {
        case RUN: return true;
        case BMUTEX: return owner.find((pthread_mutex_t *) t->obj) == owner.end();
        case BCOND: return t->signalled;
        case BJOIN: return ((Th *) t->obj)->st == DONE;
        case DONE: return false;
    }
    return false;
}

void stuck(const char *what) {
    if (on_stuck) on_stuck(what);
    _exit(3);
}

// choose the thread that runs next; called by the thread owning the token
int choose() {
    std::vector<int> en;
    for (Th *t : ths) if (enabled(t)) en.push_back(t->id);
    if (en.empty()) {
        // timed waits expire only when nothing else can happen
        for (Th *t : ths) if (t->st == BCOND && t->timed) { t->timedout = t->signalled = true; en.push_back(t->id); break; }
    } else if (cfg.policy == RANDOM || cfg.policy == PCT) {
        // ... or, a few times, whenever it pleases them: work may take any time
        for (Th *t : ths) if (t->st == BCOND && t->timed && !t->signalled && expired < 6 && rnd() % 8 == 0) {
            expired++;
            t->timedout = t->signalled = true;
            en.push_back(t->id);
        }
    }
    if (cfg.spurious && (cfg.policy == RANDOM || cfg.policy == PCT)) {
        for (Th *t : ths) if (t->st == BCOND && !t->signalled && rnd() % 6 == 0) {
            t->signalled = true;
            en.push_back(t->id);
        }
    }
    if (en.empty()) { out.deadlock = true; stuck("deadlock"); }
    if (++out.steps > cfg.max_steps) { out.too_long = true; stuck("too-long"); }
    int prev = current, c = en[0];
    bool prev_en = false;
    for (int e : en) if (e == prev) prev_en = true;
    switch (cfg.policy) {
        case RANDOM: c = en[rnd() % en.size()]; break;
        case PCT: {
            for (size_t i = 0; i < pct_points.size(); i++)
                if (pct_points[i] == out.steps && current >= 0) ths[current]->prio = pct_low--;
            for (int e : en) if (ths[e]->prio > ths[c]->prio) c = e;
            break;
        }
        case GUIDED: {
            bool found = false;
            while (gpos < cfg.guide.size() && !found) {
                int g = cfg.guide[gpos++];
                for (int e : en) {
                    int id = (e > 0 && cfg.guide_mod) ? (e - 1) % cfg.guide_mod + 1 : e;
                    if (id == g) { c = e; found = true; }
                }
            }
            if (!found) c = en[rnd() % en.size()];
            break;
        }
        case REPLAY:
            if (gpos < cfg.guide.size()) {
                int g = cfg.guide[gpos++];
                c = prev_en ? prev : en[0];
                for (int e : en) if (e == g) c = e;
            } else c = prev_en ? prev : en[0];
            break;
        default: c = prev_en ? prev : en[0];
    }
    if (cfg.policy == REPLAY) {
        out.enabled.push_back(en);
        out.prev.push_back(prev_en ? prev : -1);
        out.chosen.push_back(c);
    }
    out.trace.push_back(c);
    return c;
}

void wait_token(Th *t) {
    while (sem_wait(&t->sem) != 0) {}
}

// give the token to whoever is chosen; returns when this thread has it again
void reschedule(Th *me) {
    progress++;
    int c = choose();
    current = c;
    if (c != me->id) {
        sem_post(&ths[c]->sem);
        wait_token(me);
    }
}

void *watchdog(void *) {
    long last = -1;
    int same = 0;
    while (true) {
        usleep(50000);
        long p = progress.load();
        if (p == last && on.load()) same++; else same = 0;
        last = p;
        if (same >= 160 && on.load()) {   // 8 s without any synchronisation
            out.free_run = true;
            on = false;
            for (Th *t : ths) sem_post(&t->sem);
            same = 0;
        }
    }
    return 0;
}

struct Start { void *(*f)(void *); void *a; Th *t; int session; };

void *trampoline(void *p) {
    Start *s = (Start *) p;
    tl_id = s->t->id;
    tl_session = s->session;
    Th *t = s->t;
    wait_token(t);
    void *r = s->f(s->a);
    delete s;
    if (mine()) {
        t->st = DONE;
        progress++;
        int c = choose();
        current = c;
        sem_post(&ths[c]->sem);
    }
    tl_session = -1;
    return r;
}

Th *me() { return ths[tl_id]; }

}  // namespace

bool active() { return on.load(); }
int self() { return (tl_session == session) ? tl_id : -1; }

void point() {
    if (mine()) reschedule(me());
}

void begin(const Config &c) {
    cfg = c;
    out = Outcome();
    session++;
    rng = c.seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    for (int i = 0; i < 8; i++) rnd();
    gpos = 0;
    expired = 0;
    owner.clear();
    ths.clear();              // leaked on purpose: late threads may still touch them
    tl_id = 0;
    tl_session = session;
    if (c.policy == FREE) return;
    Th *t = new Th;
    t->id = 0;
    t->pt = pthread_self();
    sem_init(&t->sem, 0, 0);
    t->prio = 1000000 + rnd() % 1000000;
    pct_low = 100000;
    pct_points.clear();
    for (int i = 0; i < c.pct_depth; i++) pct_points.push_back(rnd() % 120);
    ths.push_back(t);
    current = 0;
    progress++;
    static bool started = false;
    if (!started) {
        started = true;
        REAL(fn_create, pthread_create)(&wd, 0, watchdog, 0);
    }
    on = true;
}

Outcome end() {
    on = false;
    out.created = (int) ths.size() - 1;
    return out;
}

}  // namespace sched

#ifndef NO_INTERPOSE
using namespace sched;

static int do_lock(pthread_mutex_t *m) {
    Th *t = me();
    reschedule(t);
    while (on.load() && owner.find(m) != owner.end()) {
        t->st = BMUTEX;
        t->obj = m;
        reschedule(t);
        t->st = RUN;
    }
    if (on.load()) owner[m] = t->id;
    return REAL(fn_mutex, pthread_mutex_lock)(m);
}

extern "C" {

int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!mine()) return REAL(fn_mutex, pthread_mutex_lock)(m);
    return do_lock(m);
}

int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!mine()) return REAL(fn_mutex, pthread_mutex_trylock)(m);
    reschedule(me());
    if (on.load() && owner.find(m) != owner.end()) return EBUSY;
    if (on.load()) owner[m] = tl_id;
    return REAL(fn_mutex, pthread_mutex_trylock)(m);
}

int pthread_mutex_unlock(pthread_mutex_t *m) {
    int r = REAL(fn_mutex, pthread_mutex_unlock)(m);
    if (mine()) {
        owner.erase(m);
        reschedule(me());
    }
    return r;
}

int clock_gettime(clockid_t k, struct timespec *ts) {
    int r = REAL(fn_clock, clock_gettime)(k, ts);
    long long d = skew.load();
    if (r == 0 && d && (k == CLOCK_REALTIME || k == CLOCK_MONOTONIC)) {
        long long n = ts->tv_nsec + d % 1000000000;
        ts->tv_sec += d / 1000000000 + n / 1000000000;
        ts->tv_nsec = n % 1000000000;
    }
    return r;
}

// a wait that has run out has taken its time
static void pass(clockid_t k, const struct timespec *until) {
    struct timespec now;
    clock_gettime(k, &now);
    long long d = (until->tv_sec - now.tv_sec) * 1000000000LL + until->tv_nsec - now.tv_nsec;
    if (d >= 0) skew += d + 1000;
}

static int do_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, clockid_t k = CLOCK_REALTIME, const struct timespec *ts = nullptr) {
    Th *t = me();
    REAL(fn_mutex, pthread_mutex_unlock)(m);
    owner.erase(m);
    t->st = BCOND;
    t->obj = c;
    t->timed = timed;
    t->signalled = t->timedout = false;
    reschedule(t);
    t->st = RUN;
    bool to = t->timedout;
    if (to && ts) pass(k, ts);
    while (on.load() && owner.find(m) != owner.end()) {
        t->st = BMUTEX;
        t->obj = m;
        reschedule(t);
        t->st = RUN;
    }
    if (on.load()) owner[m] = t->id;
    REAL(fn_mutex, pthread_mutex_lock)(m);
    return to ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!mine()) return REAL(fn_cwait, pthread_cond_wait)(c, m);
    return do_wait(c, m, false);
}

int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!mine()) return REAL(fn_ctwait, pthread_cond_timedwait)(c, m, ts);
    return do_wait(c, m, true, CLOCK_REALTIME, ts);
}

int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    if (!mine()) return REAL(fn_ccwait, pthread_cond_clockwait)(c, m, k, ts);
    return do_wait(c, m, true, k, ts);
}

int pthread_cond_signal(pthread_cond_t *c) {
    int r = REAL(fn_cond, pthread_cond_signal)(c);
    if (mine()) {
        reschedule(me());
        std::vector<Th *> w;
        for (Th *t : ths) if (t->st == BCOND && t->obj == c && !t->signalled) w.push_back(t);
        if (!w.empty()) w[cfg.policy == RANDOM ? rnd() % w.size() : 0]->signalled = true;
    }
    return r;
}

int pthread_cond_broadcast(pthread_cond_t *c) {
    int r = REAL(fn_cond, pthread_cond_broadcast)(c);
    if (mine()) {
        reschedule(me());
        for (Th *t : ths) if (t->st == BCOND && t->obj == c) t->signalled = true;
    }
    return r;
}

int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    __sync_fetch_and_add(&thread_creations, 1);
    if (!mine()) return REAL(fn_create, pthread_create)(p, a, f, arg);
    Th *t = new Th;
    t->id = (int) ths.size();
    sem_init(&t->sem, 0, 0);
    t->prio = 1000000 + rnd() % 1000000;
    Start *s = new Start;
    s->f = f; s->a = arg; s->t = t; s->session = session;
    int r = REAL(fn_create, pthread_create)(p, a, trampoline, s);
    if (r != 0) { delete s; return r; }
    t->pt = *p;
    ths.push_back(t);
    int live = 0;
    for (Th *x : ths) if (x->st != DONE) live++;
    if (live > out.max_live) out.max_live = live;
    reschedule(me());
    return r;
}

int pthread_join(pthread_t p, void **ret) {
    if (mine()) {
        Th *target = 0;
        for (Th *t : ths) if (t->id != tl_id && pthread_equal(t->pt, p) && t->st != DONE) target = t;
        Th *t = me();
        reschedule(t);
        while (on.load() && target && target->st != DONE) {
            t->st = BJOIN;
            t->obj = target;
            reschedule(t);
            t->st = RUN;
        }
    }
    return REAL(fn_join, pthread_join)(p, ret);
}

int sched_yield(void) {
    if (mine()) { reschedule(me()); return 0; }
    return REAL(fn_void, sched_yield)();
}

int nanosleep(const struct timespec *a, struct timespec *b) {
    if (mine()) { reschedule(me()); return 0; }
    return REAL(fn_nsleep, nanosleep)(a, b);
}

int clock_nanosleep(clockid_t k, int f, const struct timespec *a, struct timespec *b) {
    if (mine()) { reschedule(me()); return 0; }
    return REAL(fn_cnsleep, clock_nanosleep)(k, f, a, b);
}

}  // extern "C"
#endif
