// Histories of doc_m_step / m_step calls on one maximization step.
#include "rec.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
using namespace ldaplusplus;
using namespace rec;

template <typename Sc> struct H {
    typedef Eigen::Matrix<Sc, -1, -1> M;
    typedef Eigen::Matrix<Sc, -1, 1> V;
    typedef parameters::SupervisedModelParameters<Sc> Model;

    static std::string js(const Model &m) {
        return Obj().raw("alpha", vec(m.alpha)).raw("beta", mat(m.beta)).raw("eta", mat(m.eta)).done();
    }

    static void run(Line &l) {
        Rng r(I(l, "seed"));
        std::string kind = S(l, "kind");
        
        int K = I(l, "K", 1 + r.k(4)), Vn = I(l, "V", 1 + r.k(6)), C = I(l, "C", 1 + r.k(4));
        int passes = I(l, "passes", 1 + r.k(4)), maxd = I(l, "docs", r.p(0.1) ? 14 : 6);
        Sc mu = (Sc)r.u(1.1, 4), L = (Sc)(r.p(0.3) ? 0.01 : r.u(0, 1)), tol = (Sc)(r.p(0.3) ? 0.01 : r.p(0.3) ? 0 : r.u(0, 0.2));
        if (r.p(0.2)) mu = (Sc)(sizeof(Sc) == 8 && r.p(0.7) ? 1 : 40);
        if (r.p(0.06)) L = 20;
        int iters = I(l, "iters", r.k(9));
        int batch = I(l, "batch", 1 + r.k(5));
        Sc momentum = (Sc)(r.p(0.3) ? 0.9 : r.u(0, 1)), rate = (Sc)(r.p(0.3) ? 0.01 : r.u(0, 0.5)), bw = (Sc)(r.p(0.3) ? 0.9 : r.u(0, 1));
        if (r.p(0.05)) bw = r.p(0.5) ? 0 : 1;
        V w = V::Ones(C);
        bool weighted = r.p(0.6);
        if (weighted) for (int c = 0; c < C; c++) w(c) = (Sc)r.u(0.1, 3);

        std::shared_ptr<em::MStepInterface<Sc> > st;
        if (kind == "unsup") st = std::make_shared<em::UnsupervisedMStep<Sc> >();
        else if (kind == "sup") st = std::make_shared<em::SupervisedMStep<Sc> >(iters, tol, L);
        else if (kind == "fast") st = std::make_shared<em::FastSupervisedMStep<Sc> >(iters, tol, L);
        else if (kind == "semi") st = std::make_shared<em::SemiSupervisedMStep<Sc> >(iters, tol, L);
        else if (kind == "multi") st = std::make_shared<em::MultinomialSupervisedMStep<Sc> >(mu);
        else if (kind == "corr") st = std::make_shared<em::CorrespondenceSupervisedMStep<Sc> >(mu);
        else if (weighted) st = std::make_shared<em::FastOnlineSupervisedMStep<Sc> >(w, L, batch, momentum, rate, bw);
        else st = std::make_shared<em::FastOnlineSupervisedMStep<Sc> >((size_t)C, L, batch, momentum, rate, bw);

        auto model = std::make_shared<Model>();
        model->alpha = V(K);
        for (int i = 0; i < K; i++) model->alpha(i) = (Sc)(r.p(0.5) ? 1.0 / K : r.u(0.05, 2));
        model->beta = topics<Sc>(r, K, Vn, r.u(0.3, 3), r.p(0.3) ? 0.3 : 0);
        model->eta = M(K, C);
        for (int i = 0; i < K; i++) for (int c = 0; c < C; c++) model->eta(i, c) = (Sc)r.u(-2, 2);
        if (r.p(0.4)) model->eta.fill(0);
        if (kind == "multi" || kind == "corr") {
            for (int i = 0; i < K; i++) {
                for (int c = 0; c < C; c++) model->eta(i, c) = (Sc)r.u(0.02, 1);
                model->eta.row(i) /= model->eta.row(i).sum();
            }
        }
        std::vector<double> ev;
        auto li = st->get_event_dispatcher()->add_listener([&ev](std::shared_ptr<events::Event> e) {
            if (e->id() == "MaximizationProgressEvent")
                ev.push_back((double)std::static_pointer_cast<events::MaximizationProgressEvent<Sc> >(e)->likelihood());
        });
        auto evs = [&]() { Arr a; for (double x : ev) a.add(num(x)); ev.clear(); return a.done(); };

        Obj o;
        o.t("id", S(l, "id")).t("kind", kind).i("f", sizeof(Sc) == 4).raw("model", js(*model)).n("mu", mu).n("L", L).n("tol", tol)
            .i("iters", iters).i("batch", batch).n("momentum", momentum).n("rate", rate).n("bw", bw).raw("w", vec(w));
        Arr ops;
        int seen = 0;
        // a topic that hardly any word belongs to
        int rare = K > 1 && mu > 1 && r.p(0.15)   /* h + mu - 1 rounds tiny counts away when mu = 1 */
                    ? r.k(K) : -1;
        double rarity = std::pow(10.0, -r.u(3, sizeof(Sc) == 4 ? 8 : 14));
        for (int p = 0; p < passes; p++) {
            int nd = std::max((int)I(l, "mindocs", 1), 1 + (int)r.k(maxd));
            int mix = r.k(4);      // semi supervised: all labelled, none, mixed
            int cmax = r.p(0.3) ? 1 + r.k(C) : C;
            double dens = r.u(0.2, 1);
            int maxc = r.p(0.2) ? 60 : 4;
            if (r.p(0.03)) maxc = 60000;
            for (int d = 0; d < nd; d++) {
                Eigen::VectorXi X = doc(r, Vn, dens, maxc);
                if (X.sum() == 0 && (d == 0 || seen == 0 || r.p(0.4))) X(r.k(Vn)) = 1 + r.k(3);
                seen++;
                int y = r.k(cmax);
                if (kind == "semi" && (mix == 1 || (mix > 1 && r.p(0.5)))) y = -1 - r.k(3);
                auto vp = std::make_shared<parameters::SupervisedCorrespondenceVariationalParameters<Sc> >();
                vp->phi = M(K, Vn);
                double sp = r.u(0.3, 3);
                for (int j = 0; j < Vn; j++) {
                    for (int i = 0; i < K; i++) vp->phi(i, j) = (Sc)r.gamma_like(sp);
                    vp->phi.col(j) /= vp->phi.col(j).sum();
                    if (rare >= 0) { vp->phi(rare, j) *= (Sc)rarity; vp->phi.col(j) /= vp->phi.col(j).sum(); }
                }
                vp->tau = V(Vn);
                for (int j = 0; j < Vn; j++) vp->tau(j) = (Sc)r.u(0.01, 1);
                vp->gamma = model->alpha;
                vp->gamma += vp->phi * X.template cast<Sc>();
                auto dd = std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(X), y);
                st->doc_m_step(dd, vp, model);
                ops.add(Obj().t("op", "doc").raw("d", Obj().raw("X", ints(X)).i("y", y).raw("phi", mat(vp->phi))
                            .raw("gamma", vec(vp->gamma)).raw("tau", vec(vp->tau)).done())
                            .raw("model", js(*model)).raw("ev", evs()).done());
                // the step must have taken what it needs
                vp->phi.fill((Sc)1e6); vp->gamma.fill((Sc)1e6); vp->tau.fill((Sc)1e6);
            }
            st->m_step(model);
            ops.add(Obj().t("op", "m").raw("model", js(*model)).raw("ev", evs()).done());
        }
        o.raw("ops", ops.done());
        std::cout << o.done() << "\n";
    }
};

int main() {
    std::string s;
    while (std::getline(std::cin, s)) {
        Line l = parse(s);
        if (S(l, "sc", "d") == "f") H<float>::run(l); else H<double>::run(l);
    }
}
