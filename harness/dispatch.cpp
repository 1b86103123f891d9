// Sequential and concurrent histories of the event dispatchers.
// A line starting with '{' is a sequential history as TLC printed it; other
// lines are concurrent scenarios: id= kind= pol= prog=<thread>/<thread>/..
// with operations dN (dispatch N events), aL, rL; thread 0 also p.
#include <atomic>
#include <functional>
#include <thread>
#include <unistd.h>
#include "rec.hpp"
#include "explore.hpp"
#include "ldaplusplus/events/Events.hpp"
using namespace ldaplusplus;
using namespace ldaplusplus::events;
using namespace rec;

struct Ev { const char *n; int t, x, y; };
static std::vector<Ev> evs;
static std::atomic_flag lk = ATOMIC_FLAG_INIT;
static __thread int me_ = 0;
static bool norec = false;      // the recorder's lock would order the threads
static void note(const char *n, int x, int y = 0) {
    if (norec) return;
    while (lk.test_and_set(std::memory_order_acquire)) {}
    Ev e = {n, me_, x, y};
    evs.push_back(e);
    lk.clear(std::memory_order_release);
}
struct MyEvent : Event { int n; MyEvent(int n) : Event("e" + std::to_string(n)), n(n) {} };
static int number(const std::shared_ptr<Event> &e) { return atoi(e->id().c_str() + 1); }

// ------------------------------------------------------------- sequential
struct Op { std::string op; int x, own, n; };
static std::vector<Op> ops(const std::string &s) {
    std::vector<Op> r;
    size_t p = s.find("\"ops\":[");
    auto field = [&](size_t a, size_t b, const std::string &k) {
        size_t q = s.find("\"" + k + "\":", a);
        return q == std::string::npos || q > b ? std::string() : s.substr(q + k.size() + 3, s.find_first_of(",}", q + k.size() + 3) - q - k.size() - 3);
    };
    while (p != std::string::npos) {
        size_t a = s.find('{', p);
        if (a == std::string::npos) break;
        size_t b = s.find('}', a);
        Op o = {field(a, b, "op"), atoi(field(a, b, "x").c_str()), atoi(field(a, b, "own").c_str()), atoi(field(a, b, "n").c_str())};
        o.op = o.op.substr(1, o.op.size() - 2);
        r.push_back(o);
        p = b;
    }
    return r;
}
static void sequential(const std::string &s) {
    std::string kind = s.find("\"plain\"") != std::string::npos ? "plain" : s.find("\"safe\"") != std::string::npos ? "safe" : "same";
    std::shared_ptr<EventDispatcherInterface> d;
    std::shared_ptr<ThreadSafeEventDispatcher> ts;
    if (kind == "plain") d = std::make_shared<EventDispatcher>();
    else {
        if (kind == "safe") ts = std::make_shared<ThreadSafeEventDispatcher>();
        else ts = std::make_shared<SameThreadEventDispatcher>();
        d = ts;
    }
    std::map<int, std::shared_ptr<EventListenerInterface> > ls;
    std::vector<std::pair<int, int> > got;
    int wrong = 0;
    std::thread::id own = std::this_thread::get_id();
    std::thread::id expect = own;
    Arr out;
    auto cb = [&](int l) {
        return [&, l](std::shared_ptr<Event> e) {
            got.push_back(std::make_pair(l, number(e)));
            if (std::this_thread::get_id() != expect) wrong++;
        };
    };
    for (auto &o : ops(s)) {
        expect = own;
        if (o.op == "add") {
            if (!ls.count(o.x)) ls[o.x] = d->add_listener(cb(o.x));
            else d->add_listener(ls[o.x]);
        } else if (o.op == "remove") {
            if (!ls.count(o.x)) ls[o.x] = std::make_shared<FunctionEventListener>(cb(o.x));
            d->remove_listener(ls[o.x]);
        } else if (o.op == "process") { if (ts) ts->process_events(); }
        else if (o.op == "flood") {
            auto all = [&]() { for (int i = 0; i < o.n; i++) d->dispatch<MyEvent>(o.x + i); };
            if (o.own) all();
            else { std::thread t([&]() { if (kind == "plain") expect = std::this_thread::get_id(); all(); }); t.join(); }
        }
        else if (o.own) { if (o.x % 2) d->dispatch<MyEvent>(o.x); else d->dispatch(std::make_shared<MyEvent>(o.x)); }
        else {
            std::thread t([&]() { if (kind == "plain") expect = std::this_thread::get_id(); d->dispatch<MyEvent>(o.x); });
            t.join();
        }
        Arr g;
        for (auto &p : got) g.add("[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]");
        out.add(Obj().t("op", o.op).i("x", o.x).i("own", o.own).i("n", o.n).raw("out", g.done()).i("wrong", wrong).done());
        got.clear();
        wrong = 0;
    }
    std::cout << Obj().t("kind", kind).raw("ops", out.done()).done() << "\n";
}

// ------------------------------------------------------------- concurrent
struct Lis : EventListenerInterface {
    int l;
    Lis(int l) : l(l) {}
    void on_event(std::shared_ptr<Event> e) override {
        note("Call", l, number(e));
        sched::point();
        calls++;
        auto r = react.find(std::make_pair(l, calls));
        if (r != react.end()) { std::string p = r->second; react.erase(r); perform(p); }
    }
    int calls = 0;
    // what listener l does in its n-th call
    static std::map<std::pair<int, int>, std::string> react;
    static std::function<void(const std::string &)> perform;
};
std::map<std::pair<int, int>, std::string> Lis::react;
std::function<void(const std::string &)> Lis::perform;
static std::string cur_id, cur_kind;
static int nl;
static void flush() {
    std::string s = "{\"id\":\"" + cur_id + "\",\"kind\":\"" + cur_kind + "\",\"l\":" + std::to_string(nl) + ",\"ev\":[";
    for (size_t i = 0; i < evs.size(); i++) {
        char b[100];
        snprintf(b, sizeof b, "%s[\"%s\",%d,%d,%d]", i ? "," : "", evs[i].n, evs[i].t, evs[i].x, evs[i].y);
        s += b;
    }
    s += "]}\n";
    fwrite(s.data(), 1, s.size(), stdout);
    fflush(stdout);
}
static void stuck(const char *w) { fprintf(stderr, "STUCK %s in %s\n", w, cur_id.c_str()); flush(); _exit(4); }
static std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> r;
    std::istringstream is(s);
    std::string t;
    while (std::getline(is, t, c)) r.push_back(t);
    return r;
}
static void scenario(Line &l) {
    evs.clear();
    me_ = 0;
    bool same = S(l, "kind") == "same";
    auto d = same ? std::shared_ptr<ThreadSafeEventDispatcher>(std::make_shared<SameThreadEventDispatcher>())
                  : std::make_shared<ThreadSafeEventDispatcher>();
    std::vector<std::shared_ptr<EventListenerInterface> > ls;
    for (int i = 0; i <= nl; i++) ls.push_back(std::make_shared<Lis>(i));
    note("AddB", 0); d->add_listener(ls[0]); note("AddE", 0);
    std::atomic<int> next(0);
    auto go = [&](int t, const std::string &prog) {
        me_ = t;
        for (auto &op : split(prog, '.')) {
            int x = atoi(op.c_str() + 1);
            if (op[0] == 'd') {
                for (int i = 0; i < x; i++) {
                    int e = next.fetch_add(1, std::memory_order_relaxed) + 1;
                    note("DisB", e);
                    if (same && t == 0) { note("ProB", 0); d->dispatch(std::make_shared<MyEvent>(e)); note("ProE", 0); note("DisE", e); note("OwnE", e); }
                    else { d->dispatch(std::make_shared<MyEvent>(e)); note("DisE", e); }
                }
            } else if (op[0] == 'a') { note("AddB", x); d->add_listener(ls[x]); note("AddE", x); }
            else if (op[0] == 'r') { note("RemB", x); d->remove_listener(ls[x]); note("RemE", x); }
            else if (op[0] == 'p') { note("ProB", 0); d->process_events(); note("ProE", 0); }
            sched::point();
        }
    };
    Lis::perform = [&](const std::string &p) { go(0, p); };
    Lis::react.clear();
    for (auto &w : split(S(l, "react"), ',')) {   // listener:call:program
        auto f = split(w, ':');
        Lis::react[std::make_pair(atoi(f[0].c_str()), atoi(f[1].c_str()))] = f[2];
    }
    std::vector<std::string> progs = split(S(l, "prog"), '/');
    std::vector<std::thread> th;
    for (size_t t = 1; t < progs.size(); t++) th.emplace_back(go, (int)t, progs[t]);
    go(0, progs[0]);
    for (auto &t : th) t.join();
    me_ = 0;
    go(0, "p.p");
}
int main() {
    sched::on_stuck = stuck;
    std::string s;
    while (std::getline(std::cin, s)) {
        if (s.empty()) continue;
        if (s[0] == '{') { sequential(s); continue; }
        Line l = parse(s);
        cur_id = S(l, "id");
        cur_kind = S(l, "kind");
        nl = 1;
        for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == 'a' && isdigit(s[i + 1])) nl = std::max(nl, atoi(s.c_str() + i + 1));
        sched::Config cfg;
        cfg.seed = I(l, "seed", 1);
        norec = I(l, "norec", 0);
        std::string pol = S(l, "pol");
        if (pol == "dfs") {
            auto e = sched::explore(cfg, I(l, "pb", 1), I(l, "max", 1000), [&](const sched::Config &c, sched::Outcome &o) {
                sched::begin(c);
                scenario(l);
                o = sched::end();
                std::string k;
                for (auto &v : evs) { char b[60]; snprintf(b, 60, "%s%d.%d.%d;", v.n, v.t, v.x, v.y); k += b; }
                return k;
            }, flush);
            fprintf(stderr, "DFS %s runs=%ld traces=%zu exhausted=%d\n", cur_id.c_str(), e.runs, e.traces, (int)e.exhausted);
            continue;
        }
        for (int r = 0; r < I(l, "reps", 1); r++) {
            cfg.policy = pol == "random" ? sched::RANDOM : pol == "pct" ? sched::PCT : sched::FREE;
            sched::begin(cfg);
            scenario(l);
            sched::end();
            cfg.seed += 7919;
            flush();
        }
    }
}
