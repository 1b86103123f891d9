// Systematic exploration of the schedules of one scenario with a preemption bound.
#pragma once
#include <functional>
#include <set>
#include <string>
#include "sched.hpp"
namespace sched {
struct Explored { long runs; size_t traces; bool exhausted; };
// run executes the scenario between begin/end and returns a key that identifies
// its trace; fresh is called for every key seen for the first time
inline Explored explore(Config cfg, int bound, long maxruns, std::function<std::string(const Config &, Outcome &)> run,
                        std::function<void()> fresh) {
    cfg.policy = REPLAY;
    long runs = 0;
    std::vector<std::vector<int> > stack(1);
    std::set<std::string> seen;
    bool exhausted = true;
    uint64_t pick = cfg.seed;
    while (!stack.empty()) {
        if (runs >= maxruns) { exhausted = false; break; }
        pick = pick * 6364136223846793005ULL + 1442695040888963407ULL;
        std::swap(stack[(pick >> 33) % stack.size()], stack.back());
        std::vector<int> prefix = stack.back();
        stack.pop_back();
        cfg.guide = prefix;
        Outcome out;
        std::string key = run(cfg, out);
        runs++;
        int pre = 0;
        std::vector<int> path;
        for (size_t i = 0; i < out.chosen.size(); i++) {
            if (i >= prefix.size())
                for (int a : out.enabled[i]) {
                    if (a == out.chosen[i]) continue;
                    if (pre + (out.prev[i] >= 0 && a != out.prev[i] ? 1 : 0) > bound) continue;
                    std::vector<int> q = path;
                    q.push_back(a);
                    stack.push_back(q);
                }
            if (out.prev[i] >= 0 && out.chosen[i] != out.prev[i]) pre++;
            path.push_back(out.chosen[i]);
        }
        if (seen.insert(key).second) fresh();
    }
    Explored e = {runs, seen.size(), exhausted};
    return e;
}
}
