// Training the same data with different numbers of workers and schedules (C06).
// Scenario: kind= seed= runs=<w>:<pol>:<seed>,...   K= V= N= it=
#include "rec.hpp"
#include "sched.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
using namespace ldaplusplus;
using namespace rec;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;
typedef parameters::SupervisedModelParameters<double> Model;

static std::string js(const Model &m) {
    return Obj().raw("alpha", vec(m.alpha)).raw("beta", mat(m.beta)).raw("eta", mat(m.eta)).done();
}
static void stuck(const char *what) {
    std::cout << "{\"stuck\":" << str(what) << "}" << std::endl;
    _Exit(4);
}
static void steps(LDABuilder<double> &b, const std::string &kind, Rng &r, double like) {
    int it = 2 + r.k(8);
    double tol = r.p(0.5) ? 1e-2 : 1e-4;
    if (kind == "unsup") b.set_classic_e_step(it, tol, like, 3).set_classic_m_step();
    else if (kind == "sup") b.set_supervised_e_step(it, tol, 1 + r.k(6), like, 3).set_supervised_m_step(1 + r.k(6), 1e-2, 0.05);
    else if (kind == "fast") b.set_fast_supervised_e_step(it, tol, r.u(0.2, 2), like, 3).set_fast_supervised_m_step(1 + r.k(6), 1e-2, 0.05);
    else if (kind == "decay") b.set_e(std::make_shared<em::FastSupervisedEStep<double> >(it, tol, r.u(0.2, 2),
            em::FastSupervisedEStep<double>::CWeightType::ExponentialDecay, like, 3)).set_fast_supervised_m_step(1 + r.k(6), 1e-2, 0.05);
    else if (kind == "semi") b.set_semi_supervised_e_step(b.get_fast_supervised_e_step(it, tol, r.u(0.2, 2), like, 3), b.get_classic_e_step(it, tol, like, 3))
            .set_semi_supervised_m_step(1 + r.k(6), 1e-2, 0.05);
    else if (kind == "multi") b.set_multinomial_supervised_e_step(it, tol, 2, r.u(0.5, 1.5), like, 3).set_multinomial_supervised_m_step(2);
    else b.set_correspondence_supervised_e_step(it, tol, 2, like, 3).set_correspondence_supervised_m_step(2);
}
int main() {
    sched::on_stuck = stuck;
    std::string s;
    while (std::getline(std::cin, s)) {
        Line l = parse(s);
        Rng r(I(l, "seed"));
        std::string kind = S(l, "kind");
        int K = I(l, "K", 2 + r.k(3)), Vn = I(l, "V", 3 + r.k(6)), C = I(l, "C", 2 + r.k(2)), N = I(l, "N", 2 + r.k(9)), it = I(l, "it", 1 + r.k(4));
        bool labels = kind != "unsup";
        Eigen::MatrixXi X(Vn, N);
        Eigen::VectorXi y(N);
        double dens = r.u(0.3, 1);
        for (int d = 0; d < N; d++) {
            X.col(d) = doc(r, Vn, dens, 1 + r.k(9));
            X(d % Vn, d) += 1;
            y(d) = kind == "semi" && r.p(0.4) ? -1 : r.k(C);
        }
        y(0) = C - 1;
        if (N > 1) y(1) = 0;
        M beta = topics<double>(r, K, Vn, r.u(0.5, 2), 0), eta(K, C);
        V alpha(K);
        for (int i = 0; i < K; i++) { alpha(i) = r.p(0.5) ? 1.0 / K : r.u(0.1, 1.5); for (int c = 0; c < C; c++) eta(i, c) = r.u(-1, 1); }
        if (kind == "multi" || kind == "corr") for (int i = 0; i < K; i++) { for (int c = 0; c < C; c++) eta(i, c) = r.u(0.1, 1); eta.row(i) /= eta.row(i).sum(); }
        else if (r.p(0.5)) eta.fill(0);
        double like = r.p(0.3) ? 1 : r.p(0.5) ? 0.5 : 0;
        int rs = r.k(1 << 30);
        auto initial = std::make_shared<Model>(alpha, beta, eta);
        Obj o;
        o.t("id", S(l, "id")).t("kind", kind).raw("initial", js(*initial));
        Arr runs, trs;
        std::istringstream is(S(l, "runs"));
        std::string w;
        std::vector<std::shared_ptr<Model> > got;
        std::vector<std::pair<int, std::string> > specs;
        while (std::getline(is, w, ',')) {
            int n = atoi(w.c_str());
            std::string pol = w.substr(w.find(':') + 1);
            unsigned seed = atoi(pol.substr(pol.find(':') + 1).c_str());
            pol = pol.substr(0, pol.find(':'));
            Rng rr(rs);
            LDABuilder<double> b;
            steps(b, kind, rr, like);
            b.set_iterations(it).set_workers(n).initialize_topics_from_model(initial).initialize_eta_from_model(initial);
            sched::Config cfg;
            cfg.policy = pol == "random" ? sched::RANDOM : pol == "pct" ? sched::PCT : pol == "nonpre" ? sched::NONPREEMPTIVE : sched::FREE;
            cfg.seed = seed;
            cfg.max_steps = 4000000;
            if (cfg.policy != sched::FREE) sched::begin(cfg);
            std::shared_ptr<Model> m;
            {
                LDA<double> lda = b;
                if (labels) lda.fit(X, y); else lda.fit(X);
                m = lda.model_parameters<Model>();
            }
            if (cfg.policy != sched::FREE) sched::end();
            runs.add(Obj().i("w", n).t("pol", pol).raw("model", js(*m)).done());
            got.push_back(m);
            specs.push_back(std::make_pair(n, pol));
            // what everybody infers from the first model
            Rng r3(rs);
            LDABuilder<double> b2;
            b2.set_classic_e_step(1 + r3.k(8), 1e-3, like, 3);
            b2.set_workers(n).initialize_topics_from_model(got[0]);
            if (cfg.policy != sched::FREE) sched::begin(cfg);
            M G;
            {
                LDA<double> lda = b2;
                G = lda.transform(X);
            }
            if (cfg.policy != sched::FREE) sched::end();
            trs.add(Obj().i("w", n).raw("G", mat(G)).done());
        }
        std::cout << o.raw("runs", runs.done()).raw("tr", trs.done()).done() << "\n";
        std::cout.flush();
    }
}
