// Values and gradients of the logistic losses on random problems.
#include "rec.hpp"
#include "ldaplusplus/optimization/MultinomialLogisticRegression.hpp"
#include "ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.hpp"
using namespace ldaplusplus;
using namespace rec;

template <typename Sc> struct H {
    typedef Eigen::Matrix<Sc, -1, -1> M;
    typedef Eigen::Matrix<Sc, -1, 1> V;

    template <typename P> static std::string calls(Rng &r, const P &p, int K, int C, double es) {
        Arr a;
        M eta(K, C);
        for (int q = 0; q < 6; q++) {
            if (q % 2 == 0) for (int i = 0; i < K; i++) for (int c = 0; c < C; c++) eta(i, c) = (Sc)r.u(-es, es);
            if (q == 4 && r.p(0.3)) eta.fill(0);
            if (r.p(0.5)) {
                a.add(Obj().t("op", "value").raw("eta", mat(eta)).n("v", (double)p.value(eta)).done());
            } else {
                // the gradient is written into memory that is in use, possibly part of something larger
                M big = M::Constant(K + 2, C + 2, (Sc)3.5);
                M g = M::Constant(K, C, (Sc)-7);
                if (r.p(0.5)) p.gradient(eta, g);
                else { p.gradient(eta, big.block(1, 1, K, C)); g = big.block(1, 1, K, C);
                       for (int i = 0; i < K + 2; i++) if (big(i, 0) != (Sc)3.5 || big(i, C + 1) != (Sc)3.5) g.fill(NAN); }
                a.add(Obj().t("op", "gradient").raw("eta", mat(eta)).raw("g", mat(g)).done());
            }
        }
        return a.done();
    }

    static void run(Line &l) {
        Rng r(I(l, "seed"));
        int K = I(l, "K", 1 + r.k(4)), C = I(l, "C", 1 + r.k(4)), N = I(l, "N", 1 + r.k(7));
        bool second = I(l, "second", r.k(2)), weighted = I(l, "weighted", r.k(2));
        M Z(K, N);
        Eigen::VectorXi y(N);
        std::vector<M> var;
        bool missing = C > 1 && r.p(0.4);
        int skip = r.k(C);
        for (int d = 0; d < N; d++) {
            for (int i = 0; i < K; i++) Z(i, d) = (Sc)r.u();
            if (r.p(0.7)) Z.col(d) /= Z.col(d).sum();
            if (r.p(0.05)) Z.col(d).fill(0);
            y(d) = r.k(C);
            if (missing && y(d) == skip) y(d) = (skip + 1) % C;
            M m(K, K);
            for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) m(i, j) = (Sc)r.u(0, 0.5);
            bool skew = r.p(0.5);
            M k = m;
            m = (m * m.transpose()).eval();   // as produced by training: never negative
            if (skew) m += k - k.transpose();   // ... whatever the order of its factors
            var.push_back(m);
        }
        V w(C);
        for (int c = 0; c < C; c++) w(c) = (Sc)(r.p(0.2) ? 0 : r.u(0.1, 3));
        Sc L = (Sc)(r.p(0.3) ? 0 : r.u(0, 2));
        double es = second ? 2 : r.p(0.2) ? 30 : 3;
        if (r.p(0.15)) es = sizeof(Sc) == 4 ? 400 : 3000;   // scores that exp() alone cannot represent
        std::string cs;
        if (second) {
            typedef optimization::SecondOrderLogisticRegressionApproximation<Sc> P;
            std::unique_ptr<P> p(weighted ? new P(Z, var, y, w, L) : new P(Z, var, y, L));
            cs = calls(r, *p, K, C, es);
        } else {
            typedef optimization::MultinomialLogisticRegression<Sc> P;
            std::unique_ptr<P> p(weighted ? new P(Z, y, w, L) : new P(Z, y, L));
            cs = calls(r, *p, K, C, es);
        }
        Arr vs;
        for (auto &m : var) vs.add(mat(m));
        std::cout << Obj().t("id", S(l, "id")).i("f", sizeof(Sc) == 4).i("second", second).i("weighted", weighted)
                         .raw("Z", mat(Z)).raw("Var", second ? vs.done() : "[]").raw("y", ints(y)).raw("w", vec(w)).n("L", (double)L)
                         .raw("calls", cs).done() << "\n";
    }
};

int main() {
    std::string s;
    while (std::getline(std::cin, s)) {
        Line l = parse(s);
        if (S(l, "sc", "d") == "f") H<float>::run(l); else H<double>::run(l);
    }
}
