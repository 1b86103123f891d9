// Sequences of calls on the LDA builder (C13).
// Scenario: id=.. seed=.. ops=it:5,wk:3,E:sup:1:set,M:fast:0:get,T:rand:1,T:copy:1,H:zero:3,H:copy:2,mut:1,build
#include <dlfcn.h>
#include <pthread.h>
#include <atomic>
#include "rec.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedEStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedEStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
using namespace ldaplusplus;
using namespace rec;

static std::atomic<int> threads_made(0);
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    threads_made++;
    return real(t, a, f, x);
}

struct Recorder : public events::EventListenerInterface {
    std::vector<std::string> got;
    int epochs = 0;
    template <typename Sc> void one(const std::shared_ptr<events::Event> &e) {
        if (e->id() == "ExpectationProgressEvent") got.push_back("E" + num(std::static_pointer_cast<events::ExpectationProgressEvent<Sc> >(e)->likelihood()));
        else if (e->id() == "MaximizationProgressEvent") got.push_back("M" + num(std::static_pointer_cast<events::MaximizationProgressEvent<Sc> >(e)->likelihood()));
        else if (e->id() == "EpochProgressEvent") epochs++;
    }
    bool f = false;
    void on_event(std::shared_ptr<events::Event> e) override { f ? one<float>(e) : one<double>(e); }
};

template <typename Sc> struct H {
    typedef Eigen::Matrix<Sc, -1, -1> M;
    typedef Eigen::Matrix<Sc, -1, 1> V;
    typedef parameters::SupervisedModelParameters<Sc> Model;
    typedef std::shared_ptr<em::EStepInterface<Sc> > E;
    typedef std::shared_ptr<em::MStepInterface<Sc> > MS;
    typedef LDABuilder<Sc> B;
    static std::string js(const Model &m) {
        return Obj().raw("alpha", vec(m.alpha)).raw("beta", mat(m.beta)).raw("eta", mat(m.eta)).done();
    }
    // arguments of the steps: row 0 are the defaults, 4 and 5 have zeros wherever they mean something
    struct EA { size_t it; Sc tol; size_t fp; Sc C, mu, ew, cl; int rs; };
    struct MA { size_t it; Sc tol, L; size_t mb; Sc mo, lr, bw, mu; };
    static EA ea(int p) {
        static const EA a[6] = {{10, (Sc)1e-2, 10, 1, 2, 1, 1, 0}, {2, (Sc)1e-5, 1, (Sc)0.3, (Sc)1.5, (Sc)0.6, (Sc)0.5, 5}, {40, (Sc)0.08, 3, (Sc)0.7, 3, (Sc)1.4, 1, 3},
                                {65536, (Sc)1e-3, 256, (Sc)0.7, 3, (Sc)1.4, 0, 3}, {0, 0, 0, 0, 1, 0, 0, 0}, {3, 0, 0, 0, 1, 0, 1, -7}};
        return a[p];
    }
    static MA ma(int p) {
        static const MA a[6] = {{10, (Sc)1e-2, (Sc)1e-2, 128, (Sc)0.9, (Sc)0.01, (Sc)0.9, 2}, {1, (Sc)1e-6, (Sc)0.5, 1, (Sc)0.5, (Sc)0.3, (Sc)0.4, (Sc)1.2},
                                {30, (Sc)0.1, 2, 2, (Sc)0.2, (Sc)0.6, (Sc)0.7, 5}, {65536, (Sc)1e-2, 2, 65536, (Sc)0.2, (Sc)0.6, (Sc)0.7, 5},
                                {0, 0, 0, 1, 0, 0, 0, 1}, {4, 0, 0, 1, 0, (Sc)0.3, 1, 1}};
        return a[p];
    }
    // made directly
    static E direct_e(const std::string &k, int p) {
        EA a = ea(p);
        if (k == "classic") return std::make_shared<em::UnsupervisedEStep<Sc> >(a.it, a.tol, a.cl, a.rs);
        if (k == "sup") return std::make_shared<em::SupervisedEStep<Sc> >(a.it, a.tol, a.fp, a.cl, a.rs);
        if (k == "fast") return std::make_shared<em::FastSupervisedEStep<Sc> >(a.it, a.tol, a.C, em::FastSupervisedEStep<Sc>::Constant, a.cl, a.rs);
        if (k == "semi") return p == 0 ? std::make_shared<em::SemiSupervisedEStep<Sc> >(direct_e("fast", 0), direct_e("classic", 0)) : p == 1
            ? std::make_shared<em::SemiSupervisedEStep<Sc> >(direct_e("sup", 1), direct_e("classic", 2))
            : std::make_shared<em::SemiSupervisedEStep<Sc> >(direct_e("fast", p), direct_e("classic", 0));
        if (k == "multi") return std::make_shared<em::MultinomialSupervisedEStep<Sc> >(a.it, a.tol, a.mu, a.ew, a.cl, a.rs);
        return std::make_shared<em::CorrespondenceSupervisedEStep<Sc> >(a.it, a.tol, a.mu, a.cl, a.rs);
    }
    static V weights(int C) { V w(C); for (int c = 0; c < C; c++) w(c) = (Sc)(0.5 + c); return w; }
    static std::vector<Sc> vweights(int C) { V w = weights(C); return std::vector<Sc>(w.data(), w.data() + C); }
    static MS direct_m(const std::string &k, int p, int C) {
        MA a = ma(p);
        if (k == "classic") return std::make_shared<em::UnsupervisedMStep<Sc> >();
        if (k == "sup") return std::make_shared<em::SupervisedMStep<Sc> >(a.it, a.tol, a.L);
        if (k == "fast") return std::make_shared<em::FastSupervisedMStep<Sc> >(a.it, a.tol, a.L);
        if (k == "semi") return std::make_shared<em::SemiSupervisedMStep<Sc> >(a.it, a.tol, a.L);
        if (k == "online") return std::make_shared<em::FastOnlineSupervisedMStep<Sc> >((size_t)C, a.L, a.mb, a.mo, a.lr, a.bw);
        if (k == "onlinev" || k == "onlinee") return std::make_shared<em::FastOnlineSupervisedMStep<Sc> >(weights(C), a.L, a.mb, a.mo, a.lr, a.bw);
        if (k == "multi") return std::make_shared<em::MultinomialSupervisedMStep<Sc> >(a.mu);
        return std::make_shared<em::CorrespondenceSupervisedMStep<Sc> >(a.mu);
    }
    // through the builder
#define E_STEPS(pre) \
        EA a = ea(p); \
        if (k == "classic") return p == 0 ? b.pre ## _classic_e_step() : b.pre ## _classic_e_step(a.it, a.tol, a.cl, a.rs); \
        if (k == "sup") return p == 0 ? b.pre ## _supervised_e_step() : b.pre ## _supervised_e_step(a.it, a.tol, a.fp, a.cl, a.rs); \
        if (k == "fast") return p == 0 ? b.pre ## _fast_supervised_e_step() : b.pre ## _fast_supervised_e_step(a.it, a.tol, a.C, a.cl, a.rs); \
        if (k == "semi") return p == 0 ? b.pre ## _semi_supervised_e_step() : p == 1 ? b.pre ## _semi_supervised_e_step(direct_e("sup", 1), direct_e("classic", 2)) \
            : b.pre ## _semi_supervised_e_step(direct_e("fast", p)); \
        if (k == "multi") return p == 0 ? b.pre ## _multinomial_supervised_e_step() : b.pre ## _multinomial_supervised_e_step(a.it, a.tol, a.mu, a.ew, a.cl, a.rs); \
        return p == 0 ? b.pre ## _correspondence_supervised_e_step() : b.pre ## _correspondence_supervised_e_step(a.it, a.tol, a.mu, a.cl, a.rs);
    static E get_e(B &b, const std::string &k, int p) { E_STEPS(get) }
    static B &set_e(B &b, const std::string &k, int p) { E_STEPS(set) }
#define THREE(fun) (p == 0 ? fun() : fun(a.it, a.tol, a.L))
#define ONLINE(fun, c) (p == 0 ? fun(c) : fun(c, a.L, a.mb, a.mo, a.lr, a.bw))
#define M_STEPS(pre) \
        MA a = ma(p); \
        if (k == "classic") return b.pre ## _classic_m_step(); \
        if (k == "sup") return THREE(b.pre ## _supervised_m_step); \
        if (k == "fast") return THREE(b.pre ## _fast_supervised_m_step); \
        if (k == "semi") return THREE(b.pre ## _semi_supervised_m_step); \
        if (k == "online") return ONLINE(b.pre ## _fast_supervised_online_m_step, (size_t)C); \
        if (k == "onlinev") return ONLINE(b.pre ## _fast_supervised_online_m_step, vweights(C)); \
        if (k == "onlinee") return ONLINE(b.pre ## _fast_supervised_online_m_step, weights(C)); \
        if (k == "multi") return p == 0 ? b.pre ## _multinomial_supervised_m_step() : b.pre ## _multinomial_supervised_m_step(a.mu); \
        return p == 0 ? b.pre ## _correspondence_supervised_m_step() : b.pre ## _correspondence_supervised_m_step(a.mu);
    static MS get_m(B &b, const std::string &k, int p, int C) { M_STEPS(get) }
    static B &set_m(B &b, const std::string &k, int p, int C) { M_STEPS(set) }
    static std::vector<std::string> split(const std::string &s, char c) {
        std::vector<std::string> v;
        std::istringstream is(s);
        std::string w;
        while (std::getline(is, w, c)) v.push_back(w);
        return v;
    }
    static std::shared_ptr<Model> source(int i, Rng &r) {
        auto m = std::make_shared<Model>();
        if (i == 3) return m;
        int K = i + 1, C = i + 1, Vn = 4;
        m->alpha = V(K);
        for (int k = 0; k < K; k++) m->alpha(k) = (Sc)r.u(0.1, 1.5);
        m->beta = topics<Sc>(r, K, Vn, 1, 0);
        m->eta = M(K, C);
        for (int k = 0; k < K; k++) { for (int c = 0; c < C; c++) m->eta(k, c) = (Sc)r.u(0.1, 1); m->eta.row(k) /= m->eta.row(k).sum(); }
        return m;
    }
    static std::string trained(LDA<Sc> &lda, const std::vector<Eigen::MatrixXi> &X, const std::vector<Eigen::VectorXi> &y) {
        auto rec = std::make_shared<Recorder>();
        rec->f = sizeof(Sc) == 4;
        lda.get_event_dispatcher()->add_listener(rec);
        std::string s;
        for (size_t i = 0; i < X.size(); i++) {
            lda.partial_fit(X[i], y[i]);
            s += js(*lda.template model_parameters<Model>());
        }
        lda.get_event_dispatcher()->remove_listener(rec);
        for (auto &g : rec->got) s += g;
        return s;
    }
    static void run(Line &l) {
        Rng r(I(l, "seed"));
        std::shared_ptr<Model> src[4];
        for (int i = 1; i <= 3; i++) src[i] = source(i, r);
        Eigen::MatrixXi X(4, 6);
        for (int d = 0; d < 6; d++) { X.col(d) = doc(r, 4, 0.7, 5); X.col(d).array() += 1; }
        B b;
        Arr ops;
        Obj o;
        o.t("id", S(l, "id")).i("cpus", std::thread::hardware_concurrency());
        // which steps may be run together at all (never used to judge)
        std::string le = "classic", lm = "classic";
        std::vector<std::pair<std::string, int> > es, ms;
        es.push_back(std::make_pair("classic", 0)); ms.push_back(std::make_pair("classic", 0));
        int pos = 0;
        auto all = split(S(l, "ops"), ',');
        for (auto &w : all) {
            pos++;
            auto f = split(w, ':');
            Obj q;
            std::string outcome = "ok";
            try {
                if (f[0] == "it") { q.t("op", "it").i("n", atoi(f[1].c_str())); b.set_iterations(atoi(f[1].c_str())); }
                else if (f[0] == "wk") { q.t("op", "wk").i("n", atoi(f[1].c_str())); b.set_workers(atoi(f[1].c_str())); }
                else if (f[0] == "E") {
                    int p = atoi(f[2].c_str());
                    q.t("op", "E").t("kind", f[1]).i("p", p).t("via", f[3]);
                    le = f[1];
                    es.push_back(std::make_pair(f[1], p));
                    B *x = f[3] == "set" ? &set_e(b, f[1], p) : &b.set_e(get_e(b, f[1], p));
                    if (x != &b) outcome = "other";
                } else if (f[0] == "M") {
                    int p = atoi(f[2].c_str());
                    q.t("op", "M").t("kind", f[1]).i("p", p).t("via", f[3]);
                    lm = f[1];
                    ms.push_back(std::make_pair(f[1], p));
                    B *x = f[3] == "set" ? &set_m(b, f[1], p, 2) : &b.set_m(get_m(b, f[1], p, 2));
                    if (x != &b) outcome = "other";
                } else if (f[0] == "T") {
                    q.t("op", "T").t("how", f[1]).i("id", pos);
                    int i = atoi(f[2].c_str());
                    if (f[1] == "copy") {
                        q.i("K", src[i]->beta.rows()).raw("topics", Obj().raw("alpha", vec(src[i]->alpha)).raw("beta", mat(src[i]->beta)).done());
                        b.initialize_topics_from_model(src[i]);
                    } else {
                        B fresh;
                        for (B *t : {&fresh, &b}) {
                            if (f[1] == "rand") t->initialize_topics_random(4, i + 1, i * 7);
                            else if (f[1] == "seed") t->initialize_topics_seeded(X, i + 1, 3 + i, i * 7);
                            else t->initialize_topics_seeded(std::make_shared<corpus::EigenCorpus>(X), i + 1, 3 + i, i * 7);
                        }
                        LDA<Sc> x = fresh;
                        auto m = x.template model_parameters<Model>();
                        q.i("K", i + 1).raw("topics", Obj().raw("alpha", vec(m->alpha)).raw("beta", mat(m->beta)).done());
                    }
                } else if (f[0] == "H") {
                    int i = atoi(f[2].c_str());
                    q.t("op", "H").t("how", f[1]).i("id", pos);
                    if (f[1] == "copy") {
                        q.i("K", src[i]->eta.rows()).i("C", src[i]->eta.cols()).raw("val", mat(src[i]->eta));
                        b.initialize_eta_from_model(src[i]);
                    } else {
                        q.i("C", i);
                        if (f[1] == "zero") b.initialize_eta_zeros(i); else b.initialize_eta_uniform(i);
                    }
                } else if (f[0] == "mut") {
                    // the other models change after they have been copied
                    q.t("op", "mut");
                    for (int i = 1; i <= 2; i++) { src[i]->beta *= (Sc)0.5; src[i]->alpha.array() += 1; src[i]->eta.array() += (Sc)0.25; }
                } else if (f[0] == "build") {
                    q.t("op", "build");
                    LDA<Sc> lda = b;
                    auto m = lda.template model_parameters<Model>();
                    Model keep = *m;
                    q.raw("model", js(keep));
                    int K = keep.beta.rows(), C = keep.eta.cols();
                    bool classes = keep.eta.rows() == K && C == 2, positive = classes && keep.eta.minCoeff() > 0;
                    auto needs = [](const std::string &k) { return k == "multi" || k == "corr"; };
                    bool can = pos == (int)all.size() && keep.beta.cols() == 4 && keep.alpha.rows() == K;
                    if (can && !classes) for (auto &v : {es, ms}) for (auto &x : v) can = can && x.first == "classic";
                    if (can && !positive) for (auto &v : {es, ms}) for (auto &x : v) can = can && !needs(x.first);
                    auto together = [&](const std::string &e, const std::string &mm) {
                        return !(mm == "corr" && e != "corr") && !(needs(e) && mm != "classic" && !needs(mm));
                    };
                    if (can && !together(le, lm)) can = false;
                    q.i("probe", can);
                    if (can) {
                        std::vector<Eigen::MatrixXi> Xs;
                        std::vector<Eigen::VectorXi> ys;
                        for (int d = 0; d < 3; d++) {
                            Xs.push_back(X.col(d));
                            ys.push_back(Eigen::VectorXi::Constant(1, d % 2));
                        }
                        // the built one last: its steps keep state
                        std::vector<std::string> ref;
                        Arr match;
                        std::vector<std::pair<std::pair<std::string, int>, std::pair<std::string, int> > > pairs;
                        for (auto &e : es) for (auto &mm : ms) {
                            if (!together(e.first, mm.first)) continue;
                            auto copy = std::make_shared<Model>(keep);
                            LDA<Sc> x(copy, direct_e(e.first, e.second), direct_m(mm.first, mm.second, 2), 1, 1);
                            ref.push_back(trained(x, Xs, ys));
                            pairs.push_back(std::make_pair(e, mm));
                        }
                        std::string got = trained(lda, Xs, ys);
                        for (size_t i = 0; i < ref.size(); i++)
                            if (ref[i] == got)
                                match.add("[[" + str(pairs[i].first.first) + "," + std::to_string(pairs[i].first.second) + "],["
                                    + str(pairs[i].second.first) + "," + std::to_string(pairs[i].second.second) + "]]");
                        q.raw("match", match.done());
                        *m = keep;
                        bool fit = S(l, "ops").find("it:") != std::string::npos || S(l, "ops").find("wk:") != std::string::npos || I(l, "seed") % 8 == 0;
                        q.i("fit", fit);
                        if (fit) {
                        auto rec = std::make_shared<Recorder>();
                        lda.get_event_dispatcher()->add_listener(rec);
                        rec->f = sizeof(Sc) == 4;
                        Eigen::MatrixXi Y(4, 12);
                        Eigen::VectorXi y(12);
                        for (int d = 0; d < 12; d++) { Y.col(d) = X.col(d % 6); y(d) = d % 2; }
                        threads_made = 0;
                        lda.fit(Y, y);
                        q.i("epochs", rec->epochs).i("threads", threads_made);
                        }
                        *m = keep;
                    }
                } else { std::cerr << "bad op " << w << "\n"; exit(9); }
            } catch (const std::runtime_error &e) {
                outcome = "runtime_error";
            } catch (...) {
                outcome = "other";
            }
            ops.add(q.t("outcome", outcome).done());
        }
        std::cout << o.raw("ops", ops.done()).done() << "\n";
        std::cout.flush();
    }
};
int main() {
    std::string s;
    while (std::getline(std::cin, s)) {
        Line l = parse(s);
        if (S(l, "sc", "d") == "f") H<float>::run(l); else H<double>::run(l);
    }
}
