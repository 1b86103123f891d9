// Runs the real LDA object with recording expectation / maximization steps and
// listeners, under a chosen thread schedule, and prints one trace per run.
//
// stdin: one scenario per line, key=value tokens:
//   id=.. w=<workers> it=<iterations> l=<listeners> ops=<op:n,...> mv=<0|1|2>
//   pol=<free|random|pct|nonpre|guided|dfs> seed=.. spur=0|1 guide=0,1,2.. pb=<preemption bound>
//   max=<max runs for dfs> me=<doc m-step events> big=1 (summary only) sc=<d|f>
// ops: f = fit(X), F = fit(X,y), p = partial_fit(corpus), P = partial_fit(X,y), t = transform(X),
//      c = partial_fit(a corpus of a class of our own)
// alike=1: all documents empty, alike=2: all the same, alike=3: the same and unlabelled; they are told apart by
//      class (F, P) or by being documents of our own (c)
// x = partial_fit on another LDA object with steps of its own, none of whose business is this one's
// other=1: another thread uses such an object all the while (pol=free)
// still=1: the maximization steps leave every matrix of the model as it is (its version is a member of our own)
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>

#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/em/EStepInterface.hpp"
#include "ldaplusplus/em/MStepInterface.hpp"
#include "ldaplusplus/events/Events.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "sched.hpp"

using namespace ldaplusplus;

struct Ev { const char *n; int t, a, b, c, d; };

static std::vector<Ev> evs;
static std::atomic_flag rec_lock = ATOMIC_FLAG_INIT;
static bool summary = false, norec = false;
static std::atomic<int> next_tid(100);
static __thread int my_tid = -1, my_gen = -1;
static int gen = 0;

static int tid() {
    int s = sched::self();
    if (s >= 0) return s;
    if (my_gen != gen) { my_gen = gen; my_tid = next_tid++; }
    return my_tid;
}

static void rec(const char *n, int a = 0, int b = 0, int c = 0, int d = 0) {
    if (norec) return;
    Ev e = {n, tid(), a, b, c, d};
    while (rec_lock.test_and_set(std::memory_order_acquire)) {}
    evs.push_back(e);
    rec_lock.clear(std::memory_order_release);
}

static std::string current_id;
static std::string current_sched;

static void flush_trace() {
    std::string s = "{\"id\":\"" + current_id + "\",\"ev\":[";
    char buf[200];
    bool first = true;
    for (auto &e : evs) {
        snprintf(buf, sizeof buf, "%s[\"%s\",%d,%d,%d,%d,%d]", first ? "" : ",", e.n, e.t, e.a, e.b, e.c, e.d);
        first = false;
        s += buf;
    }
    s += "]}\n";
    fwrite(s.data(), 1, s.size(), stdout);
    fflush(stdout);
}

static void stuck(const char *what) {
    rec("Stuck");
    flush_trace();
    fprintf(stderr, "STUCK %s in %s schedule %s\n", what, current_id.c_str(), current_sched.c_str());
    _exit(3);
}

static std::atomic<int> vp_ids(0);
static int alike = 0;
static int label(int d) { return (d * 5 + 1) % 4; }

struct OwnDoc : corpus::Document {
    Eigen::VectorXi w;
    int c, d;
    OwnDoc(const Eigen::VectorXi &w, int c, int d) : w(w), c(c), d(d) {}
    const std::shared_ptr<const corpus::Corpus> get_corpus() const override { return nullptr; }
    const Eigen::VectorXi &get_words() const override { return w; }
};
struct OwnCorpus : corpus::Corpus {
    std::vector<std::shared_ptr<OwnDoc> > docs;
    size_t size() const override { return docs.size(); }
    const std::shared_ptr<corpus::Document> at(size_t i) const override { return docs.at(i); }
    void shuffle() override { for (size_t i = 0; i + 1 < docs.size(); i += 2) std::swap(docs[i], docs[docs.size() - 1 - i / 2]); }
};
// call and number of a document, and its label
static void identify(const std::shared_ptr<corpus::Document> &doc, int &c, int &d, int &y) {
    const Eigen::VectorXi &w = doc->get_words();
    auto cd = std::dynamic_pointer_cast<corpus::ClassificationDocument>(doc);
    auto own = std::dynamic_pointer_cast<OwnDoc>(doc);
    y = cd ? cd->get_class() : -1;
    c = w[0]; d = w[1];
    if (own) { c = own->c; d = own->d; }
    else if (alike && cd) { int v = y < 0 ? -y : y; c = v / 1000; d = v % 1000; y = label(d); }
}

template <typename S> struct OwnModel : parameters::SupervisedModelParameters<S> { int version = 0; };
static bool still = false;
static const parameters::Parameters *own_model = nullptr;
// how many batch m-steps the model has seen
template <typename S> static int version(const std::shared_ptr<parameters::Parameters> &p) {
    if (!still)
        return (int) std::static_pointer_cast<parameters::SupervisedModelParameters<S> >(p)->beta(0, 0);
    return p.get() == own_model ? std::static_pointer_cast<OwnModel<S> >(p)->version : -1;
}

template <typename S> struct MyE : em::EStepInterface<S> {
    std::shared_ptr<parameters::Parameters> doc_e_step(
        const std::shared_ptr<corpus::Document> doc,
        const std::shared_ptr<parameters::Parameters> parameters) override {
        const Eigen::VectorXi &w = doc->get_words();
        int c, d, y;
        identify(doc, c, d, y);
        rec("EBegin", c, d, norec ? 0 : version<S>(parameters), y);
        sched::point();
        int id = ++vp_ids;
        auto vp = std::make_shared<parameters::VariationalParameters<S> >();
        vp->gamma = Eigen::Matrix<S, Eigen::Dynamic, 1>(3);
        vp->gamma << (S) c, (S) d, (S) id;
        vp->phi = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>::Constant(3, w.rows(), (S) id);
        rec("EEmit", c, d);
        this->get_event_dispatcher()->template dispatch<events::ExpectationProgressEvent<S> >((S) (c * 100000 + d));
        sched::point();
        rec("EEnd", c, d, id, norec ? 0 : version<S>(parameters));
        return vp;
    }
    void e_step() override { rec("CorpusE"); }
};

template <typename S> struct MyM : em::MStepInterface<S> {
    int doc_events = 0, batch_events = 1, seq = 0;
    void emit() {
        int id = ++seq;
        rec("MEmit", id);
        this->get_event_dispatcher()->template dispatch<events::MaximizationProgressEvent<S> >((S) id);
    }
    void doc_m_step(const std::shared_ptr<corpus::Document> doc,
                    const std::shared_ptr<parameters::Parameters> v,
                    std::shared_ptr<parameters::Parameters> m) override {
        int c, d, y;
        identify(doc, c, d, y);
        auto vp = std::static_pointer_cast<parameters::VariationalParameters<S> >(v);
        // the variational parameters must be those computed for (op, doc)
        bool paired = (int) vp->gamma[0] == c && (int) vp->gamma[1] == d;
        rec("MDoc", c, d, paired ? (int) vp->gamma[2] : -(int) vp->gamma[2] - 1, y);
        if (doc_events && d % doc_events == 0) emit();
        sched::point();
    }
    void m_step(std::shared_ptr<parameters::Parameters> m) override {
        rec("BatchM");
        auto model = std::static_pointer_cast<parameters::SupervisedModelParameters<S> >(m);
        sched::point();
        if (still && m.get() == own_model) std::static_pointer_cast<OwnModel<S> >(m)->version++;
        if (!still) model->beta(0, 0) += 1;
        for (int i = 0; i < batch_events; i++) emit();
    }
};

// steps of the other object: they record nothing unless they are given what is not theirs
template <typename S> struct OtherE : em::EStepInterface<S> {
    std::shared_ptr<parameters::Parameters> doc_e_step(
        const std::shared_ptr<corpus::Document> doc,
        const std::shared_ptr<parameters::Parameters>) override {
        if (doc->get_words()[0] != 777) rec("Foreign", doc->get_words()[0]);
        sched::point();
        auto vp = std::make_shared<parameters::VariationalParameters<S> >();
        vp->gamma = Eigen::Matrix<S, Eigen::Dynamic, 1>::Constant(3, 777);
        vp->phi = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>::Constant(3, doc->get_words().rows(), 777);
        this->get_event_dispatcher()->template dispatch<events::ExpectationProgressEvent<S> >((S) 777);
        return vp;
    }
    void e_step() override {}
};
template <typename S> struct OtherM : em::MStepInterface<S> {
    void doc_m_step(const std::shared_ptr<corpus::Document> doc, const std::shared_ptr<parameters::Parameters> v,
                    std::shared_ptr<parameters::Parameters>) override {
        auto vp = std::static_pointer_cast<parameters::VariationalParameters<S> >(v);
        if (doc->get_words()[0] != 777 || vp->gamma[0] != 777) rec("Foreign", doc->get_words()[0]);
        this->get_event_dispatcher()->template dispatch<events::MaximizationProgressEvent<S> >((S) 777);
    }
    void m_step(std::shared_ptr<parameters::Parameters>) override {}
};
template <typename S> struct OtherL : events::EventListenerInterface {
    void on_event(std::shared_ptr<events::Event> e) override {
        if (e->id() == "ExpectationProgressEvent") {
            if (std::static_pointer_cast<events::ExpectationProgressEvent<S> >(e)->likelihood() != 777) rec("Foreign");
        } else if (e->id() == "MaximizationProgressEvent") {
            if (std::static_pointer_cast<events::MaximizationProgressEvent<S> >(e)->likelihood() != 777) rec("Foreign");
        }
    }
};
template <typename S> static std::shared_ptr<LDA<S> > other_lda(int W) {
    auto model = std::make_shared<parameters::SupervisedModelParameters<S> >();
    model->alpha = Eigen::Matrix<S, Eigen::Dynamic, 1>::Constant(3, 0.25);
    model->beta = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>::Zero(3, 4);
    auto lda = std::make_shared<LDA<S> >(model, std::make_shared<OtherE<S> >(), std::make_shared<OtherM<S> >(), 1, W);
    lda->get_event_dispatcher()->add_listener(std::make_shared<OtherL<S> >());
    return lda;
}

template <typename S> struct L : events::EventListenerInterface {
    int id;
    L(int i) : id(i) {}
    void on_event(std::shared_ptr<events::Event> e) override {
        if (e->id() == "ExpectationProgressEvent") {
            int v = (int) std::static_pointer_cast<events::ExpectationProgressEvent<S> >(e)->likelihood();
            rec("Deliver", id, 1, v / 100000, v % 100000);
        } else if (e->id() == "MaximizationProgressEvent")
            rec("Deliver", id, 2, (int) std::static_pointer_cast<events::MaximizationProgressEvent<S> >(e)->likelihood());
        else if (e->id() == "EpochProgressEvent")
            rec("Deliver", id, 3, version<S>(std::static_pointer_cast<events::EpochProgressEvent<S> >(e)->model_parameters()));
        else
            rec("Deliver", id, 9);
        sched::point();
    }
};

static std::map<std::string, std::string> parse(const std::string &line) {
    std::map<std::string, std::string> kv;
    std::istringstream is(line);
    std::string tok;
    while (is >> tok) {
        size_t p = tok.find('=');
        if (p != std::string::npos) kv[tok.substr(0, p)] = tok.substr(p + 1);
    }
    return kv;
}

static std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> r;
    std::istringstream is(s);
    std::string t;
    while (std::getline(is, t, c)) if (!t.empty()) r.push_back(t);
    return r;
}

static int geti(std::map<std::string, std::string> &kv, const char *k, int dflt) {
    return kv.count(k) ? atoi(kv[k].c_str()) : dflt;
}

static Eigen::MatrixXi docs(int c, int n) {
    Eigen::MatrixXi X(4, n);
    for (int i = 0; i < n; i++) X.col(i) << c, i + 1, (i * 7) % 3, 1;
    if (alike) X.fill(alike == 1 ? 0 : 2);
    return X;
}
static Eigen::VectorXi labels(int n, int c) {
    Eigen::VectorXi y(n);
    for (int i = 0; i < n; i++) y[i] = !alike ? label(i + 1) : alike == 3 ? -(c * 1000 + i + 1) : c * 1000 + i + 1;
    return y;
}

template <typename S> static void scenario(std::map<std::string, std::string> &kv) {
    alike = geti(kv, "alike", 0);
    still = geti(kv, "still", 0);
    int W = geti(kv, "w", 1), IT = geti(kv, "it", 1), NL = geti(kv, "l", 1), mv = geti(kv, "mv", 0);
    auto model = std::make_shared<OwnModel<S> >();
    own_model = model.get();
    model->alpha = Eigen::Matrix<S, Eigen::Dynamic, 1>::Constant(3, 0.25);
    model->beta = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>::Zero(3, 4);
    model->eta = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>::Constant(3, 4, 0.5);
    auto e = std::make_shared<MyE<S> >();
    auto m = std::make_shared<MyM<S> >();
    m->doc_events = geti(kv, "me", 0);
    m->batch_events = geti(kv, "be", 1);
    std::shared_ptr<LDA<S> > lda = std::make_shared<LDA<S> >(model, e, m, IT, W);
    for (int i = 1; i <= NL; i++)
        lda->get_event_dispatcher()->add_listener(std::make_shared<L<S> >(i));
    if (mv >= 1) lda = std::make_shared<LDA<S> >(std::move(*lda));
    int c = 0;
    rec("Setup", W, NL, IT);
    std::shared_ptr<LDA<S> > other;
    std::atomic<bool> enough(false);
    std::thread meanwhile;
    if (geti(kv, "other", 0)) meanwhile = std::thread([&] {
        auto lda2 = other_lda<S>(2);
        Eigen::MatrixXi X = Eigen::MatrixXi::Constant(4, 9, 777);
        for (int i = 0; !enough; i++) {
            lda2->partial_fit(std::make_shared<corpus::EigenCorpus>(X, 7));
            if (i % 3 == 0) lda2->transform(X);
        }
    });
    for (auto &op : split(kv["ops"], ',')) {
        if (op[0] == 'x') {
            if (!other) other = other_lda<S>(1 + W % 2);
            Eigen::MatrixXi X = Eigen::MatrixXi::Constant(4, atoi(op.c_str() + 2), 777);
            other->partial_fit(std::make_shared<corpus::EigenCorpus>(X, 7));
            if (other->transform(X).cols() != X.cols()) rec("Foreign");
            continue;
        }
        c++;
        int n = atoi(op.c_str() + 2);
        Eigen::MatrixXi X = docs(c, n);
        char k = op[0];
        bool tr = k == 't';
        bool lab = k == 'F' || k == 'P';
        int passes = (k == 'f' || k == 'F') ? IT : (tr ? 0 : 1);
        rec("Op", tr ? 2 : 1, n, passes, lab);
        if (k == 'f') lda->fit(X);
        else if (k == 'F') lda->fit(X, labels(n, c));
        else if (k == 'p') lda->partial_fit(std::make_shared<corpus::EigenCorpus>(X, c));
        else if (k == 'P') lda->partial_fit(X, labels(n, c));
        else if (k == 'c') {
            auto own = std::make_shared<OwnCorpus>();
            for (int i = 0; i < n; i++) own->docs.push_back(std::make_shared<OwnDoc>(X.col(i), c, i + 1));
            lda->partial_fit(own);
        }
        else {
            auto before_b = model->beta;
            auto before_a = model->alpha;
            auto before_e = model->eta;
            auto G = lda->transform(X);
            bool same = before_b == model->beta && before_a == model->alpha && before_e == model->eta;
            rec("Shape", G.rows(), G.cols(), same);
            for (int i = 0; i < G.cols(); i++)
                rec("Col", i + 1, (int) G(0, i) == c ? (int) G(1, i) : -1, G.rows() == 3 ? (int) G(2, i) : -1);
        }
        rec("Return");
        if (mv == 2) lda = std::make_shared<LDA<S> >(std::move(*lda));
    }
    enough = true;
    if (meanwhile.joinable()) meanwhile.join();
}

static void execute(std::map<std::string, std::string> &kv, sched::Config &cfg, sched::Outcome &out) {
    evs.clear();
    vp_ids = 0;
    gen++;
    next_tid = 100;
    sched::begin(cfg);
    if (kv["sc"] == "f") scenario<float>(kv); else scenario<double>(kv);
    out = sched::end();
}

static void print_summary() {
    // per operation: how many documents had exactly one E step / M call, properly paired
    std::map<int, std::map<int, int> > E, M;
    std::map<int, int> n, est, mst, ep, del, passes, bad, label_bad, stale, cols, cols_right, foreign, late, mdel;
    int c = 0, batches = 0, mainthread = -1;
    bool open = false, lab = false;
    for (auto &e : evs) {
        if (!strcmp(e.n, "Op")) { c++; n[c] = e.b; passes[c] = e.c; lab = e.d; open = true; mainthread = e.t; }
        if (!strcmp(e.n, "Return")) open = false;
        if (!strcmp(e.n, "EBegin")) {
            E[e.a][e.b]++;
            if (e.c != batches) stale[c]++;
            if (e.d != (lab ? label(e.b) : -1)) label_bad[c]++;
        }
        if (!strcmp(e.n, "MDoc") && e.d != (lab ? label(e.b) : -1)) label_bad[c]++;
        if (!strcmp(e.n, "BatchM")) batches++;
        if (!strcmp(e.n, "Col")) { cols[c]++; if (e.a == e.b) cols_right[c]++; }
        if (!strcmp(e.n, "Deliver")) {
            if (e.t != mainthread) foreign[c]++;
            if (!open) late[c]++;
            if (e.b == 2 && e.a == 1) mdel[c]++;
            if (e.b == 3 && e.c != batches) stale[c]++;
        }
        if (!strcmp(e.n, "MDoc")) { M[e.a][e.b]++; if (e.c < 0) bad[c]++; }
        if (!strcmp(e.n, "CorpusE")) est[c]++;
        if (!strcmp(e.n, "BatchM")) mst[c]++;
        if (!strcmp(e.n, "Deliver") && e.b == 3 && e.a == 1) ep[c]++;
        if (!strcmp(e.n, "Deliver") && e.b == 1 && e.a == 1) del[c]++;
    }
    printf("{\"id\":\"%s\",\"ops\":[", current_id.c_str());
    for (int i = 1; i <= c; i++) {
        int mult = passes[i] ? passes[i] : 1, eo = 0, mo = 0;
        for (auto &p : E[i]) if (p.second == mult && p.first >= 1 && p.first <= n[i]) eo++;
        for (auto &p : M[i]) if (p.second == passes[i] && p.first >= 1 && p.first <= n[i]) mo++;
        printf("%s{\"n\":%d,\"passes\":%d,\"e_right\":%d,\"m_right\":%d,\"m_docs\":%d,\"mispaired\":%d,\"corpus_e\":%d,\"batch_m\":%d,\"epochs\":%d,\"delivered\":%d,"
               "\"wrong_label\":%d,\"stale\":%d,\"cols\":%d,\"cols_right\":%d,\"foreign\":%d,\"late\":%d,\"m_delivered\":%d}",
               i > 1 ? "," : "", n[i], passes[i], eo, mo, (int) M[i].size(), bad[i], est[i], mst[i], ep[i], del[i],
               label_bad[i], stale[i], cols[i], cols_right[i], foreign[i], late[i], mdel[i]);
    }
    printf("]}\n");
    fflush(stdout);
}

static std::string show(const std::vector<int> &v) {
    std::string s;
    for (int i : v) s += std::to_string(i) + ",";
    return s;
}

int main(int argc, char **argv) {
    sched::on_stuck = stuck;
    std::string line;
    while (std::getline(std::cin, line)) {
        auto kv = parse(line);
        if (kv.empty()) continue;
        current_id = kv["id"];
        sched::Config cfg;
        sched::Outcome out;
        std::string pol = kv["pol"];
        cfg.seed = geti(kv, "seed", 1);
        cfg.spurious = geti(kv, "spur", 0);
        cfg.guide_mod = geti(kv, "w", 1);
        norec = geti(kv, "norec", 0);
        for (auto &g : split(kv["guide"], ',')) cfg.guide.push_back(atoi(g.c_str()));
        current_sched = line;
        int reps = geti(kv, "reps", 1);
        if (pol == "dfs") {
            // systematic exploration of schedules with a preemption bound
            cfg.policy = sched::REPLAY;
            int bound = geti(kv, "pb", 1);
            long maxruns = geti(kv, "max", 2000), runs = 0;
            std::vector<std::vector<int> > stack(1);
            std::set<std::string> seen;
            bool exhausted = true;
            uint64_t pick = cfg.seed;
            while (!stack.empty()) {
                if (runs >= maxruns) { exhausted = false; break; }
                // any order explores the same set; a random one samples it evenly
                // when the limit is reached first
                pick = pick * 6364136223846793005ULL + 1442695040888963407ULL;
                std::swap(stack[(pick >> 33) % stack.size()], stack.back());
                std::vector<int> prefix = stack.back();
                stack.pop_back();
                cfg.guide = prefix;
                current_sched = show(prefix);
                execute(kv, cfg, out);
                runs++;
                int pre = 0;
                std::vector<int> path;
                for (size_t i = 0; i < out.chosen.size(); i++) {
                    if (i >= prefix.size()) {
                        for (int a : out.enabled[i]) {
                            if (a == out.chosen[i]) continue;
                            int cost = pre + (out.prev[i] >= 0 && a != out.prev[i] ? 1 : 0);
                            if (cost > bound) continue;
                            std::vector<int> q = path;
                            q.push_back(a);
                            stack.push_back(q);
                        }
                    }
                    if (out.prev[i] >= 0 && out.chosen[i] != out.prev[i]) pre++;
                    path.push_back(out.chosen[i]);
                }
                std::string key;
                for (auto &e : evs) { char b[64]; snprintf(b, 64, "%s%d.%d.%d.%d;", e.n, e.t, e.a, e.b, e.c); key += b; }
                if (seen.insert(key).second) flush_trace();
            }
            fprintf(stderr, "DFS %s runs=%ld traces=%zu exhausted=%d\n", current_id.c_str(), runs, seen.size(), (int) exhausted);
            continue;
        }
        for (int r = 0; r < reps; r++) {
            cfg.policy = pol == "random" ? sched::RANDOM : pol == "pct" ? sched::PCT : pol == "nonpre" ? sched::NONPREEMPTIVE
                       : pol == "guided" ? sched::GUIDED : sched::FREE;
            execute(kv, cfg, out);
            cfg.seed += 7919;
            if (geti(kv, "big", 0)) print_summary();
            else if (!norec) flush_trace();
        }
        if (norec) { printf("{\"id\":\"%s\",\"ev\":[]}\n", current_id.c_str()); fflush(stdout); }
        fprintf(stderr, "RUN %s steps=%ld created=%d free=%d\n", current_id.c_str(), out.steps, out.created, (int) out.free_run);
    }
    return 0;
}
