// Drives the real expectation steps on single documents and records every
// iterate (runs with tolerance 0 and k iterations), complete runs with other
// settings, the published events, and repetitions after other documents.
#include <thread>
#include "rec.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
#include "ldaplusplus/em/SupervisedEStep.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"

using namespace ldaplusplus;
using namespace rec;

template <typename Sc> struct H {
    typedef Eigen::Matrix<Sc, -1, -1> M;
    typedef Eigen::Matrix<Sc, -1, 1> V;
    typedef parameters::SupervisedModelParameters<Sc> Model;
    typedef std::shared_ptr<em::EStepInterface<Sc> > Step;

    struct Par { Sc C; int decay; Sc mu, ew; int fpi; int epochs; };

    static Step make(const std::string &kind, const Par &p, size_t maxit, Sc tol, Sc lik, int rs) {
        if (kind == "unsup") return std::make_shared<em::UnsupervisedEStep<Sc> >(maxit, tol, lik, rs);
        if (kind == "fast")
            return std::make_shared<em::FastSupervisedEStep<Sc> >(maxit, tol, p.C,
                p.decay ? em::FastSupervisedEStep<Sc>::ExponentialDecay : em::FastSupervisedEStep<Sc>::Constant, lik, rs);
        if (kind == "sup") return std::make_shared<em::SupervisedEStep<Sc> >(maxit, tol, p.fpi, lik, rs);
        if (kind == "multi") return std::make_shared<em::MultinomialSupervisedEStep<Sc> >(maxit, tol, p.mu, p.ew, lik, rs);
        return std::make_shared<em::CorrespondenceSupervisedEStep<Sc> >(maxit, tol, p.mu, lik, rs);
    }

    struct Res { V gamma; M phi; V tau; };
    static Res get(const std::string &kind, std::shared_ptr<parameters::Parameters> v) {
        Res r;
        auto p = std::static_pointer_cast<parameters::VariationalParameters<Sc> >(v);
        r.gamma = p->gamma;
        r.phi = p->phi;
        if (kind == "corr")
            r.tau = std::static_pointer_cast<parameters::SupervisedCorrespondenceVariationalParameters<Sc> >(v)->tau;
        return r;
    }
    static std::string js(const Res &r) {
        return Obj().raw("gamma", vec(r.gamma)).raw("phi", mat(r.phi)).raw("tau", vec(r.tau)).done();
    }

    // How often the bound is reported when it is asked for only a fraction of the documents
    static void often(Line &l) {
        Rng r(I(l, "seed"));
        std::string kind = S(l, "kind");
        int K = 2, Vn = 3, C = 2, n = I(l, "n"), got = 0, nan = 0;
        Eigen::MatrixXi X(Vn, 2);
        X << 1, 2, 0, 1, 3, 0;
        Eigen::VectorXi y(2);
        y << 0, 1;
        corpus::EigenClassificationCorpus corpus(X, y, 1);
        auto model = std::make_shared<Model>();
        model->alpha = V::Constant(K, (Sc)0.5);
        model->beta = topics<Sc>(r, K, Vn, 1, 0);
        model->eta = M::Constant(K, C, (Sc)0.5);
        Par p; p.C = 1; p.decay = 0; p.mu = 2; p.ew = 1; p.fpi = 1; p.epochs = 0;
        Sc lik = (Sc)D(l, "lik");
        Step s = make(kind, p, 0, 0, lik, (int)r.k(1000000));
        s->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> e) {
            if (std::isnan(std::static_pointer_cast<events::ExpectationProgressEvent<Sc> >(e)->likelihood())) nan++; else got++;
        });
        for (int i = 0; i < n; i++) s->doc_e_step(corpus.at(i % 2), model);
        std::cout << Obj().t("id", S(l, "id")).t("kind", kind).t("mode", "often").i("f", sizeof(Sc) == 4).n("lik", (double)lik)
            .i("n", n).i("got", got).i("nan", nan).done() << "\n";
    }

    static void run(Line &l) {
        std::string mode = S(l, "mode", "any");
        if (mode == "often") return often(l);
        Rng r(I(l, "seed"));
        std::string kind = S(l, "kind");
        int K = I(l, "K", 2 + r.k(3)), Vn = I(l, "V", 2 + r.k(7)), C = I(l, "C", 1 + r.k(4)), D = I(l, "D", 3 + r.k(3));
        if (kind != "unsup" && C < 2 && r.p(0.7)) C = 2 + r.k(2);
        std::string shape = S(l, "shape", "any");
        int m = I(l, "m", 6);

        // the corpus the document lives in
        double dens = r.u(0.2, 1.0);
        int maxc = r.p(0.2) ? 60 : 4;
        if (r.p(0.05)) maxc = r.p(0.5) ? 3000 : 150000;
        Eigen::MatrixXi X(Vn, D);
        Eigen::VectorXi y(D);
        for (int d = 0; d < D; d++) { X.col(d) = doc(r, Vn, dens, maxc); y(d) = r.k(C); }
        int di = r.k(D);
        // one class makes up almost the whole corpus
        if (mode == "common") for (int d = 0; d < D; d++) if (d != (di + 1) % D) y(d) = y(di);
        // words that hardly matter beside another one; documents that converge slowly
        if (mode == "skewed") { X.col(di).fill(1); X(r.k(Vn), di) = 1200 + r.k(4000); }
        // (the share of the second topic falls by a constant factor per iteration)
        double fall = rec::D(l, "fall", 0.1);
        if (mode == "slow") {
            int big = I(l, "big", 60000);
            for (int j = 0; j < Vn; j++) X(j, di) = j + 1 == Vn ? 0 : big / 2 + r.k(big / 2);
        }
        if (shape == "empty") X.col(di).fill(0);
        else {
            if (shape == "single") { X.col(di).fill(0); X(r.k(Vn), di) = 1 + r.k(5); }
            if (X.col(di).sum() == 0) X(r.k(Vn), di) = 1;
        }
        for (int d = 0; d < D; d++) if (d != di && X.col(d).sum() == 0) X(r.k(Vn), d) = 2;

        auto model = std::make_shared<Model>();
        double a0 = r.p(0.5) ? 1.0 / K : r.u(0.02, 3);
        if (r.p(0.15)) a0 = std::pow(10, r.u(-4, 2));
        model->alpha = V::Constant(K, (Sc)a0);
        if (r.p(0.4)) for (int i = 0; i < K; i++) model->alpha(i) = (Sc)r.u(0.05, 2);
        model->beta = topics<Sc>(r, K, Vn, r.u(0.3, 3), r.p(0.3) ? 0.3 : 0);
        if (r.p(0.3))  // words that occur in no topic are fine as long as the document does not use them
            for (int j = 0; j < Vn; j++) if (X.row(j).sum() == 0) model->beta.col(j).fill(0);
        if (shape == "unseen")  // words without any probability
            for (int j = 0; j < Vn; j++) if (X(j, di) > 0 && (X.col(di).head(j).sum() == 0 || r.p(0.5))) model->beta.col(j).fill(0);
        if (mode == "slow") {
            V b(Vn);
            for (int j = 0; j < Vn; j++) b(j) = (Sc)r.u(0.2, 1);
            b /= b.sum();
            for (int i = 0; i < K; i++) {
                model->beta.row(i) = b.transpose() * (Sc)std::exp(-fall * i);
                model->beta(i, Vn - 1) += 1 - model->beta.row(i).sum();
            }
            model->alpha = V::Constant(K, (Sc)1e-3);
        }
        model->eta = M(K, C);
        double es = kind == "sup" ? (r.p(0.3) ? 4 : 1) : (r.p(0.2) ? 20 : r.p(0.5) ? 3 : 0.5);
        if (mode == "skewed" && kind == "fast") es = 200;
        if (mode == "slow") es = 0.3;
        if (mode == "tiny") es = std::pow(10, r.u(-7, -3));
        for (int i = 0; i < K; i++) for (int c = 0; c < C; c++) model->eta(i, c) = (Sc)r.u(-es, es);
        if (r.p(0.1)) model->eta.fill(0);
        if (r.p(0.1)) model->eta = -model->eta.cwiseAbs();
        // the fast step divides eta by its largest entry: keep the exponents in the range of exp
        if (model->eta.maxCoeff() > 0 && model->eta.maxCoeff() < (Sc)0.1 * model->eta.cwiseAbs().maxCoeff())
            model->eta = -model->eta;
        if (kind == "multi" || kind == "corr") {
            for (int i = 0; i < K; i++) {
                for (int c = 0; c < C; c++) model->eta(i, c) = (Sc)r.u(0.02, 1);
                model->eta.row(i) /= model->eta.row(i).sum();
            }
        }
        Par p;
        p.C = (Sc)(r.p(0.3) ? 1.0 : r.u(0.1, r.p(0.3) ? 6 : 1));
        p.decay = r.k(2);
        if (p.decay) p.C = (Sc)r.u(0.3, 0.99);
        p.mu = (Sc)r.u(1.05, 4);
        p.ew = (Sc)(r.p(0.4) ? 1.0 : r.u(0.1, 5));
        p.fpi = 1 + r.k(6);
        p.epochs = kind == "fast" ? r.k(4) : r.k(2);
        p.fpi = I(l, "fpi", p.fpi);
        if (mode == "slow") { p.ew = (Sc)0.001; p.C = (Sc)1e-4; p.decay = 0; }
        if (l.count("epochs")) { p.epochs = I(l, "epochs"); p.decay = 1; p.C = (Sc)std::pow(r.u(0.2, 0.8), 1.0 / (p.epochs + 1)); }

        corpus::EigenClassificationCorpus corpus(X, y, (int)r.k(1000));
        if (r.p(0.5)) corpus.shuffle();
        std::shared_ptr<corpus::Document> doc;
        for (size_t i = 0; i < corpus.size(); i++) {
            auto c = corpus.at(i);
            if (c->get_words() == X.col(di) &&
                std::static_pointer_cast<corpus::ClassificationDocument>(c)->get_class() == y(di)) doc = c;
        }
        Model before = *model;

        auto fresh = [&](size_t maxit, Sc tol, Sc lik, int rs) {
            Step s = make(kind, p, maxit, tol, lik, rs);
            for (int e = 0; e < p.epochs; e++) s->e_step();
            return s;
        };
        auto go = [&](Step s, std::vector<Sc> *ev) {
            std::shared_ptr<events::EventListenerInterface> li;
            if (ev) li = s->get_event_dispatcher()->add_listener([ev](std::shared_ptr<events::Event> e) {
                if (e->id() == "ExpectationProgressEvent")
                    ev->push_back(std::static_pointer_cast<events::ExpectationProgressEvent<Sc> >(e)->likelihood());
                else ev->push_back((Sc)-1e30);
            });
            Res x = get(kind, s->doc_e_step(doc, model));
            if (ev) s->get_event_dispatcher()->remove_listener(li);
            return x;
        };

        std::vector<Res> its;
        for (int k = 0; k <= m; k++) its.push_back(go(fresh(k, 0, 0, 0), nullptr));

        // complete runs: iteration limits and tolerances around the observed changes
        std::vector<double> ch;
        for (int k = 0; k <= m; k++)
            ch.push_back((double)((k ? (its[k].gamma - its[k - 1].gamma).eval() : its[0].gamma).cwiseAbs().mean()));
        Arr runs;
        int nr = I(l, "runs", 6);
        Sc tol = 0;
        int maxit = 0;
        for (int q = 0; q < nr; q++) {
            // same settings for three runs that differ only in the likelihood option
            if (q % 3 == 0) maxit = q == 0 ? m : r.k(m + 1);
            for (int t = 0; q % 3 == 0; t++) {
                if (t > 50) { tol = 0; break; }
                int a = 1 + r.k(m), b = 1 + r.k(m);
                tol = (Sc)std::sqrt(std::max(ch[a], 1e-12) * std::max(ch[b], 1e-12));
                if (r.p(0.2)) tol = (Sc)std::pow(10, r.u(-8, 0));
                if (!(tol < 0.9 * ch[0])) continue;
                bool clear = true;
                for (int k = 1; k <= m; k++) if (std::fabs(ch[k] - tol) < 1e-3 * tol + 1e-13) clear = false;
                if (clear) break;
            }
            if (mode == "slow" && q < 3) tol = 0;
            Sc lik = q % 3 == 0 ? (Sc)1 : q % 3 == 1 ? (Sc)0 : (Sc)r.u(0.05, 0.95);
            std::vector<Sc> ev;
            Res x = go(fresh(maxit, tol, lik, (int)r.k(1000)), &ev);
            Arr es;
            for (Sc e : ev) es.add(num((double)e));
            runs.add(Obj().i("maxit", maxit).n("tol", (double)tol).n("lik", (double)lik)
                         .raw("res", js(x)).raw("ev", es.done()).done());
        }

        // the same document after other documents, other models and other labels went through the same object
        Arr reps;
        {
            Step s = make(kind, p, m, 0, (Sc)0.5, 7);
            for (int e = 0; e < p.epochs; e++) {
                for (size_t i = 0; i < corpus.size(); i++) s->doc_e_step(corpus.at(i), model);
                s->e_step();
            }
            for (int q = 0; q < 2; q++) {
                for (size_t i = 0; i < corpus.size(); i++) s->doc_e_step(corpus.at(i), model);
                if (q) {
                    auto other = std::make_shared<Model>(*model);
                    other->beta = topics<Sc>(r, K, Vn, 1, 0);
                    if (kind != "multi" && kind != "corr") other->eta = M::Random(K, C);
                    s->doc_e_step(corpus.at(r.k(D)), other);
                }
                reps.add(js(go(s, nullptr)));
            }
        }
        // ... and while other threads use the object for other documents
        {
            Step s = fresh(m, 0, 0, 3);
            const int T = 3, R = 6;
            std::vector<std::vector<Res> > got(T);
            std::vector<std::thread> th;
            for (int t = 0; t < T; t++) th.emplace_back([&, t]() {
                for (int q = 0; q < R; q++) {
                    got[t].push_back(get(kind, s->doc_e_step(doc, model)));
                    s->doc_e_step(corpus.at((t + q) % D), model);
                }
            });
            for (auto &x : th) x.join();
            Res worst = got[0][0];
            for (auto &g : got) for (auto &x : g)
                if (x.gamma != its[m].gamma || x.phi != its[m].phi || x.tau != its[m].tau) worst = x;
            reps.add(js(worst));
        }
        bool same = before.alpha == model->alpha && before.beta == model->beta && before.eta == model->eta;
        Obj o;
        o.t("id", S(l, "id")).t("kind", kind).t("mode", mode).i("f", sizeof(Sc) == 4).i("K", K).i("V", Vn).i("C", C).i("m", m);
        o.raw("X", ints(Eigen::VectorXi(X.col(di)))).i("y", y(di)).i("size", D);
        o.i("ycount", (y.array() == y(di)).count());
        o.raw("alpha", vec(model->alpha)).raw("beta", mat(model->beta)).raw("eta", mat(model->eta));
        o.n("c", (double)p.C).i("decay", p.decay).n("mu", (double)p.mu).n("ew", (double)p.ew).i("fpi", p.fpi).i("epochs", p.epochs);
        o.i("same", same);
        Arr it;
        for (auto &x : its) it.add(js(x));
        o.raw("its", it.done()).raw("runs", runs.done()).raw("reps", reps.done());
        std::cout << o.done() << "\n";
    }
};

int main() {
    std::string s;
    while (std::getline(std::cin, s)) {
        if (s.empty()) continue;
        Line l = parse(s);
        if (S(l, "sc", "d") == "f") H<float>::run(l); else H<double>::run(l);
    }
    return 0;
}
