// Line searches and gradient descent on objectives of our own.
#include "rec.hpp"
#include "ldaplusplus/optimization/GradientDescent.hpp"
using namespace ldaplusplus;
using namespace rec;

template <typename Sc> struct H {
    typedef Eigen::Matrix<Sc, -1, -1> M;
    struct Problem {
        M A, b; Sc q, s;
        Sc value(const M &x) const {
            Eigen::Map<const M> v(x.data(), x.size(), 1);
            return (Sc)0.5 * (v.transpose() * A * v).value() - (b.transpose() * v).value()
                + q * v.array().square().square().sum() + (s > 0 ? s * v.array().exp().sum() : (Sc)0);
        }
        void gradient(const M &x, Eigen::Ref<M> g) const {
            Eigen::Map<const M> v(x.data(), x.size(), 1);
            M d = A * v - b;
            d.array() += 4 * q * v.array().cube();
            if (s > 0) d.array() += s * v.array().exp();
            for (int j = 0, n = 0; j < x.cols(); j++) for (int i = 0; i < x.rows(); i++, n++) g(i, j) = d(n, 0);
        }
    };
    typedef optimization::LineSearch<Problem, M> LS;
    static std::string flat(const M &x) { return vec(Eigen::Map<const M>(x.data(), x.size(), 1)); }
    static std::string step(const M &x0, const M &g, const M &d, Sc ret, const M &x1) {
        return Obj().raw("x0", flat(x0)).raw("g", flat(g)).raw("d", flat(d)).n("ret", ret).raw("x1", flat(x1)).done();
    }
    struct Rec : LS {
        std::shared_ptr<LS> in; Arr *a;
        Sc search(const Problem &p, Eigen::Ref<M> x, const M &g, const M &d) override {
            M x0 = x;
            Sc r = in->search(p, x, g, d);
            a->add(step(x0, g, d, r, x));
            return r;
        }
    };

    // A descent of many iterations: the calls and moves are counted, a few callback calls written down
    struct Count : LS {
        std::shared_ptr<LS> in; long moves = 0, breaks = 0; M last;
        Sc search(const Problem &p, Eigen::Ref<M> x, const M &g, const M &d) override {
            if (moves > 0 && x != last) breaks++;
            Sc r = in->search(p, x, g, d);
            last = x; moves++;
            return r;
        }
    };
    static void lengthy(Line &l) {
        Rng r(I(l, "seed"));
        long stop = I(l, "stop");
        Problem p;
        p.A = M::Identity(2, 2); p.b = M::Constant(2, 1, (Sc)r.u(-1, 1)); p.q = p.s = 0;
        M x = M::Constant(2, 1, (Sc)r.u(2, 3));
        auto c = std::make_shared<Count>();
        c->last = x;
        if (r.p(0.5)) c->in = std::make_shared<optimization::ConstantLineSearch<Problem, M> >((Sc)r.u(1e-7, 1e-2));
        else c->in = std::make_shared<optimization::ArmijoLineSearch<Problem, M> >();
        long calls = 0, off = 0;
        Arr at;
        optimization::GradientDescent<Problem, M> gd(c, [&](Sc v, Sc gn, size_t it) {
            if (it != (size_t)calls) off++;
            if (calls % (stop / 8 + 1) == 0 || calls == stop) at.add(Obj().i("n", calls).i("it", it % 1000000000).done());
            return calls++ < stop;
        });
        gd.minimize(p, x);
        std::cout << Obj().t("id", S(l, "id")).i("f", sizeof(Sc) == 4).t("mode", "long").raw("start", flat(x)).i("stop", stop)
            .i("calls", calls).i("moves", c->moves).i("off", off).i("breaks", c->breaks).i("end", x == c->last)
            .raw("at", at.done()).done() << "\n";
    }

    static void run(Line &l) {
        if (l.count("stop")) return lengthy(l);
        Rng r(I(l, "seed"));
        int R = 1 + r.k(3), C = 1 + r.k(3), n = R * C;
        Problem p;
        M B(n, n);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B(i, j) = (Sc)r.u(-1, 1);
        double sc = r.p(0.3) ? 30 : r.p(0.5) ? 1 : 0.05;
        p.A = (Sc)sc * (r.p(0.8) ? M(B * B.transpose()) : M(B + B.transpose()));   // mostly convex
        p.A = ((Sc)0.5 * (p.A + p.A.transpose())).eval();
        p.b = M(n, 1);
        for (int i = 0; i < n; i++) p.b(i, 0) = (Sc)r.u(-3, 3);
        p.q = (Sc)(r.p(0.5) ? 0 : r.u(0, 2));
        if (!(p.A.diagonal().minCoeff() > 0)) p.q = 1;
        p.s = (Sc)(r.p(0.6) ? 0 : r.u(0, 1));
        M x(R, C);
        double xs = r.p(0.2) ? 0.01 : r.p(0.3) ? 6 : 2;
        for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) x(i, j) = (Sc)r.u(-xs, xs);
        bool armijo = r.p(0.7), search = r.p(0.5);
        Sc beta = (Sc)(r.p(0.4) ? 0.001 : r.u(0.0001, 0.7)), tau = (Sc)(r.p(0.4) ? 0.5 : r.u(0.1, 0.9)), a = (Sc)r.u(0, 0.3);
        if (!armijo && p.q > 0) a = (Sc)r.u(0, 0.01);
        if (!armijo && sc > 1) a *= (Sc)0.01;
        bool defaults = armijo && beta == (Sc)0.001 && tau == (Sc)0.5 && r.p(0.7);
        std::shared_ptr<LS> ls;
        if (!armijo) ls = std::make_shared<optimization::ConstantLineSearch<Problem, M> >(a);
        else if (defaults) ls = std::make_shared<optimization::ArmijoLineSearch<Problem, M> >();
        else ls = std::make_shared<optimization::ArmijoLineSearch<Problem, M> >(beta, tau);

        Obj lo;
        lo.t("kind", armijo ? "armijo" : "constant");
        if (armijo) lo.n("beta", beta).n("tau", tau); else lo.n("a", a);
        Obj o;
        o.t("id", S(l, "id")).i("f", sizeof(Sc) == 4).t("mode", search ? "search" : "minimize")
            .raw("o", Obj().raw("A", mat(p.A)).raw("b", flat(p.b)).n("q", p.q).n("s", p.s).done())
            .raw("ls", lo.done()).raw("start", flat(x));
        Arr steps, cbs;
        if (search) {
            for (int k = 0; k < 4; k++) {
                M g(R, C);
                p.gradient(x, g);
                if (k > 0 && (g.cwiseAbs().maxCoeff() < (Sc)1e-3 || !(g.cwiseAbs().maxCoeff() < (Sc)1e4))) break;
                M d = g;
                int how = r.k(4);
                if (how == 1) d *= (Sc)r.u(0.05, 4);
                if (how == 2) for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) d(i, j) *= (Sc)r.u(0.1, 3);
                if (how == 3) d /= d.norm();
                // the parameter may be part of something larger
                M big = M::Constant(R + 1, C + 1, (Sc)5);
                big.topLeftCorner(R, C) = x;
                M x1;
                Sc ret;
                if (r.p(0.5)) { ret = ls->search(p, big.topLeftCorner(R, C), g, d); x1 = big.topLeftCorner(R, C); }
                else { x1 = x; ret = ls->search(p, x1, g, d); }
                steps.add(step(x, g, d, ret, x1));
                x = x1;
            }
        } else {
            int stop = r.k(9);
            auto rc = std::make_shared<Rec>();
            rc->in = ls; rc->a = &steps;
            optimization::GradientDescent<Problem, M> gd(rc, [&](Sc v, Sc gn, size_t it) {
                bool go = cbs.n < stop && std::abs(v) < (Sc)1e5;
                cbs.add(Obj().n("v", v).n("gn", gn).i("it", it).i("go", go).done());
                return go;
            });
            gd.minimize(p, x);
        }
        std::cout << o.raw("steps", steps.done()).raw("cbs", cbs.done()).raw("end", flat(x)).done() << "\n";
    }
};
int main() {
    std::string s;
    while (std::getline(std::cin, s)) {
        Line l = parse(s);
        if (S(l, "sc", "d") == "f") H<float>::run(l); else H<double>::run(l);
    }
}
