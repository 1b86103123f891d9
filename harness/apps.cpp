// What the library does with a configuration (C10, C11, C12): the reference the
// console applications are compared with.  One scenario per line:
//   cmd=train|transform X=<V>x<D>:<ints> y=<ints> e=classic|sup|fast eit= etol= ex= m=classic|sup|fast|online mit= mtol= L=
//   batch= momentum= rate= weight= it= w= topics=seeded|random|model K= rs= eta=zeros|zeros1|model lik= model=<K>,<V>,<C>:<hex doubles>
#include "rec.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
using namespace ldaplusplus;
using namespace rec;
typedef parameters::SupervisedModelParameters<double> Model;

static std::vector<long> longs(const std::string &s) {
    std::vector<long> v;
    std::istringstream is(s);
    std::string w;
    while (std::getline(is, w, ',')) v.push_back(std::atol(w.c_str()));
    return v;
}
static std::string js(const Model &m) {
    return Obj().raw("alpha", vec(m.alpha)).raw("beta", mat(m.beta)).raw("eta", mat(m.eta)).done();
}
static std::shared_ptr<Model> model(const std::string &s) {
    auto m = std::make_shared<Model>();
    size_t c = s.find(':');
    auto d = longs(s.substr(0, c));
    size_t p = c + 1;
    auto next = [&]() {
        uint64_t b = std::strtoull(s.substr(p, 16).c_str(), nullptr, 16);
        p += 16;
        double x;
        std::memcpy(&x, &b, 8);
        return x;
    };
    m->alpha = Eigen::VectorXd(d[0]);
    m->beta = Eigen::MatrixXd(d[0], d[1]);
    m->eta = Eigen::MatrixXd(d[0], d[2]);
    for (int i = 0; i < m->alpha.size(); i++) m->alpha(i) = next();
    for (int j = 0; j < m->beta.cols(); j++) for (int i = 0; i < m->beta.rows(); i++) m->beta(i, j) = next();
    for (int j = 0; j < m->eta.cols(); j++) for (int i = 0; i < m->eta.rows(); i++) m->eta(i, j) = next();
    return m;
}
struct Rec : public events::EventListenerInterface {
    std::vector<std::string> epochs;
    std::vector<double> lik;
    std::vector<std::string> mev;
    Arr cur;
    double sum = 0;
    int n = 0;
    void on_event(std::shared_ptr<events::Event> e) override {
        if (e->id() == "ExpectationProgressEvent") {
            double x = std::static_pointer_cast<events::ExpectationProgressEvent<double> >(e)->likelihood();
            if (std::isfinite(x)) { sum += x; n++; }
        } else if (e->id() == "MaximizationProgressEvent") {
            cur.add(num(std::static_pointer_cast<events::MaximizationProgressEvent<double> >(e)->likelihood()));
        } else if (e->id() == "EpochProgressEvent") {
            epochs.push_back(js(*std::static_pointer_cast<Model>(std::static_pointer_cast<events::EpochProgressEvent<double> >(e)->model_parameters())));
            lik.push_back(n ? sum / n : NAN);
            mev.push_back(cur.done());
            cur = Arr();
            sum = n = 0;
        }
    }
};
int main() {
    std::string s;
    while (std::getline(std::cin, s)) {
        Line l = parse(s);
        std::string xs = S(l, "X");
        int V = atoi(xs.c_str()), D = atoi(xs.substr(xs.find('x') + 1).c_str());
        auto xv = longs(xs.substr(xs.find(':') + 1));
        Eigen::MatrixXi X(V, D);
        for (int d = 0; d < D; d++) for (int v = 0; v < V; v++) X(v, d) = xv[d * V + v];
        auto yv = longs(S(l, "y"));
        Eigen::VectorXi y(D);
        for (int d = 0; d < D; d++) y(d) = yv.empty() ? 0 : yv[d];
        int C = D ? y.maxCoeff() + 1 : 1;
        auto F = [&](const char *k) { return (double)std::stof(S(l, k)); };
        LDABuilder<double> b;
        std::shared_ptr<Model> start = l.count("model") ? model(S(l, "model")) : nullptr;
        b.set_workers(I(l, "w"));
        std::string e = S(l, "e"), m = S(l, "m");
        double lik = l.count("lik") ? F("lik") : 0;
        auto setE = [&]() {
            if (e == "classic") b.set_classic_e_step(I(l, "eit"), F("etol"), lik, I(l, "rs"));
            else if (e == "sup") b.set_supervised_e_step(I(l, "eit"), F("etol"), I(l, "ex"), lik, I(l, "rs"));
            else b.set_fast_supervised_e_step(I(l, "eit"), F("etol"), F("ex"), lik, I(l, "rs"));
        };
        setE();
        Obj o;
        o.t("id", S(l, "id"));
        if (S(l, "cmd") == "transform") {
            b.initialize_topics_from_model(start);
            LDA<double> lda = b;
            std::cout << o.raw("G", mat(lda.transform(X))).done() << "\n";
            std::cout.flush();
            continue;
        }
        b.set_iterations(I(l, "it"));
        auto setM = [&]() {
            if (m == "sup") b.set_supervised_m_step(I(l, "mit"), F("mtol"), F("L"));
            else if (m == "fast") b.set_fast_supervised_m_step(I(l, "mit"), F("mtol"), F("L"));
            else if (m == "online") {
                Eigen::VectorXd w(C), cnt = Eigen::VectorXd::Zero(C);
                for (int d = 0; d < D; d++) cnt(y(d)) += 1;
                for (int c = 0; c < C; c++) w(c) = D / (cnt(c) * C);
                b.set_fast_supervised_online_m_step(w, F("L"), I(l, "batch"), F("momentum"), F("rate"), F("weight"));
            }
        };
        setM();
        if (S(l, "topics") == "model") b.initialize_topics_from_model(start);
        else if (S(l, "topics") == "random") b.initialize_topics_random(V, I(l, "K"), I(l, "rs"));
        else b.initialize_topics_seeded(X, I(l, "K"), 30, I(l, "rs"));
        if (S(l, "eta") == "model") b.initialize_eta_from_model(start);
        else b.initialize_eta_zeros(S(l, "eta") == "zeros1" ? 1 : C);
        LDA<double> lda = b;
        o.raw("initial", js(*lda.model_parameters<Model>()));
        auto first = std::make_shared<Model>(*lda.model_parameters<Model>());
        auto rec = std::make_shared<Rec>();
        lda.get_event_dispatcher()->add_listener(rec);
        if (m == "classic") lda.fit(X); else lda.fit(X, y);
        Arr ep, ms;
        for (auto &x : rec->epochs) ep.add(x);
        for (auto &x : rec->mev) ms.add(x);
        // how much does rounding matter here?  The same training of the same documents in another order, from a model
        // that differs in its last digits: tolerances that are just met make small differences large ones
        double spread = 0;
        std::string result = js(*lda.model_parameters<Model>());
        if (I(l, "w") > 1 || I(l, "spread", 0)) {
            // objects built by one builder share its model
            auto final = std::make_shared<Model>(*lda.model_parameters<Model>());
            Rng r(7);
            for (int q = 0; q < (D > 50 ? 3 : 6); q++) {
                auto near = std::make_shared<Model>(*first);
                for (int i = 0; i < near->beta.rows(); i++) for (int j = 0; j < near->beta.cols(); j++) near->beta(i, j) *= 1 + r.u(-1, 1) * 1e-14;
                std::vector<int> p(D);
                for (int d = 0; d < D; d++) p[d] = d;
                for (int d = D - 1; d > 0; d--) std::swap(p[d], p[r.k(d + 1)]);
                Eigen::MatrixXi X2(V, D);
                Eigen::VectorXi y2(D);
                for (int d = 0; d < D; d++) { X2.col(d) = X.col(p[d]); y2(d) = y(p[d]); }
                b.set_workers(1);
                b.initialize_topics_from_model(near);
                b.initialize_eta_from_model(near);
                setE();
                setM();
                LDA<double> again = b;
                if (m == "classic") again.fit(X2); else again.fit(X2, y2);
                auto g = again.model_parameters<Model>();
                double x = std::max((g->beta - final->beta).cwiseAbs().maxCoeff(), (g->eta - final->eta).cwiseAbs().maxCoeff());
                if (!(x <= spread)) spread = x;
            }
        }
        Eigen::VectorXd lv(rec->lik.size());
        for (size_t i = 0; i < rec->lik.size(); i++) lv(i) = rec->lik[i];
        std::cout << o.raw("epochs", ep.done()).raw("lik", vec(lv)).raw("mev", ms.done()).raw("final", result).i("loose", !(spread < (I(l, "spread", 0) ? 1e-11 : 1e-8))).done() << "\n";
        std::cout.flush();
    }
}
