// Histories of training and inference calls on one LDA object (C03).
#include "rec.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
using namespace ldaplusplus;
using namespace rec;

template <typename Sc> struct H {
    typedef Eigen::Matrix<Sc, -1, -1> M;
    typedef Eigen::Matrix<Sc, -1, 1> V;
    typedef parameters::SupervisedModelParameters<Sc> Model;
    static std::string js(const Model &m) {
        return Obj().raw("alpha", vec(m.alpha)).raw("beta", mat(m.beta)).raw("eta", mat(m.eta)).done();
    }
    static void run(Line &l) {
        Rng r(I(l, "seed"));
        int K = I(l, "K", 1 + r.k(4)), Vn = I(l, "V", 1 + r.k(6)), C = I(l, "C", 1 + r.k(4)), W = I(l, "w", 1 + r.k(5));
        int it = 1 + r.k(6);
        Sc tol = (Sc)(r.p(0.5) ? 1e-3 : 0.2), like = r.p(0.3) ? 1 : 0;
        auto model = std::make_shared<Model>();
        model->alpha = V(K);
        for (int i = 0; i < K; i++) model->alpha(i) = (Sc)(r.p(0.5) ? 1.0 / K : r.u(0.05, 2));
        model->beta = topics<Sc>(r, K, Vn, r.u(0.3, 3), r.p(0.3) ? 0.3 : 0);
        model->eta = M(K, C);
        for (int i = 0; i < K; i++) for (int c = 0; c < C; c++) model->eta(i, c) = (Sc)r.u(-2, 2);
        if (r.p(0.1)) model->eta.fill(0);
        auto e = std::make_shared<em::UnsupervisedEStep<Sc> >(it, tol, like, 0);
        auto m = std::make_shared<em::FastSupervisedMStep<Sc> >(3, (Sc)1e-2, (Sc)1e-2);
        LDA<Sc> first(model, e, m, 1, W);
        LDA<Sc> lda(std::move(first));
        Obj o;
        o.t("id", S(l, "id")).i("f", sizeof(Sc) == 4).i("K", K).i("C", C).i("w", W).raw("model", js(*model));
        Arr ops;
        int n = 1 + r.k(4);
        for (int k = 0; k < n; k++) {
            int N = r.p(0.1) ? 0 : r.p(0.1) ? 40 : 1 + r.k(7);
            if (I(l, "N") > 0) N = I(l, "N") + r.k(5);
            double dens = r.u(0.2, 1);
            int maxc = r.p(0.05) ? 100000 : r.p(0.2) ? 60 : 4;
            Eigen::MatrixXi X(Vn, N);
            for (int d = 0; d < N; d++) {
                X.col(d) = doc(r, Vn, dens, maxc);
                if (r.p(0.1)) X.col(d).fill(0);
            }
            if (r.p(0.3) && N > 0) {
                // a training pass in between (every topic needs some mass, so every word occurs)
                Eigen::VectorXi y(N);
                for (int d = 0; d < N; d++) { y(d) = r.k(C); X.col(d).array() += 1; }
                y(0) = C - 1;
                lda.partial_fit(X, y);
                ops.add(Obj().t("op", "train").raw("model", js(*model)).done());
                continue;
            }
            M alone(K, N);
            Arr docs;
            for (int d = 0; d < N; d++) {
                Eigen::VectorXi x = X.col(d);
                docs.add(ints(std::vector<int>(x.data(), x.data() + x.size())));
                em::UnsupervisedEStep<Sc> own(it, tol, like, 0);
                auto p = std::make_shared<Model>(*model);
                alone.col(d) = std::static_pointer_cast<parameters::VariationalParameters<Sc> >(
                    own.doc_e_step(std::make_shared<corpus::EigenDocument>(x), p))->gamma;
            }
            M G, Sco, G2;
            Eigen::VectorXi y, y2;
            // in some order
            for (int q : (r.p(0.5) ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{3, 2, 1, 0})) {
                if (q == 0) G = lda.transform(X);
                if (q == 1) Sco = lda.decision_function(X);
                if (q == 2) y = lda.predict(X);
                if (q == 3) std::tie(G2, y2) = lda.transform_predict(X);
            }
            std::vector<int> yy(y.data(), y.data() + y.size()), yy2(y2.data(), y2.data() + y2.size());
            ops.add(Obj().t("op", "infer").raw("docs", docs.done()).raw("alone", mat(alone)).raw("G", mat(G)).raw("S", mat(Sco))
                .raw("y", ints(yy)).raw("G2", mat(G2)).raw("y2", ints(yy2)).raw("model", js(*model)).done());
        }
        std::cout << o.raw("ops", ops.done()).done() << "\n";
        std::cout.flush();
    }
};
int main() {
    std::string s;
    while (std::getline(std::cin, s)) {
        Line l = parse(s);
        if (S(l, "sc") == "f") H<float>::run(l); else H<double>::run(l);
    }
}
