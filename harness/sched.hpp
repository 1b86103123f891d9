// A controlled thread scheduler.  While a session is active the threads of the
// code under test run one at a time and control moves only at synchronisation
// operations (pthread functions are interposed, see sched.cpp) and at explicit
// sched::point() calls.  Every schedule it produces is a legal one.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sched {

enum Policy { FREE, RANDOM, GUIDED, NONPREEMPTIVE, REPLAY, PCT };

struct Config {
    Policy policy = FREE;
    uint64_t seed = 1;
    bool spurious = false;        // inject spurious condition variable wake-ups
    std::vector<int> guide;       // GUIDED: preferred thread ids; REPLAY: choice list
    long max_steps = 400000;
    int pct_depth = 3;
    int guide_mod = 0;            // GUIDED: worker ids count modulo this (pools are created anew per pass)
};

struct Outcome {
    bool deadlock = false;
    bool too_long = false;
    bool free_run = false;        // the watchdog switched scheduling off
    long steps = 0;
    int max_live = 0;             // number of threads alive at the same time
    int created = 0;
    // for systematic exploration: at each step the enabled threads, the one that
    // was running before and the one chosen
    std::vector<std::vector<int>> enabled;
    std::vector<int> prev, chosen;
    std::vector<int> trace;       // chosen thread ids
};

void begin(const Config &c);      // the caller becomes thread 0
Outcome end();
bool active();
void point();                     // explicit scheduling point
int self();                       // controlled thread id (0 = session owner), -1 if unknown
// called when a deadlock / step overflow is found; must not return
extern void (*on_stuck)(const char *what);
extern long thread_creations;     // counts pthread_create calls at all times

}  // namespace sched
