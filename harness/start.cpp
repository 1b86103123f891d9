// Initialisation of models by the builder (C14).
// Scenario: id= sc= how=rand|seed|cseed|lseed seed= cover=
#include "rec.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
using namespace ldaplusplus;
using namespace rec;
template <typename Sc> struct H {
    typedef Eigen::Matrix<Sc, -1, -1> M;
    typedef LDABuilder<Sc> B;
    typedef parameters::SupervisedModelParameters<Sc> Model;
    static Model model(B &b) {
        LDA<Sc> x = b;
        return *x.template model_parameters<Model>();
    }
    static void run(Line &l) {
        Rng r(I(l, "seed"));
        std::string how = S(l, "how");
        bool cover = I(l, "cover");
        int K = cover ? 120 : r.p(0.1) ? 1 : 1 + r.k(6), V = 1 + r.k(6), D = 1 + r.k(4), N = cover ? 1 : r.k(5), C = 1 + r.k(5), rs = r.p(0.3) ? (int)((unsigned)r.k(1 << 16) << 16 ^ (unsigned)r.k(1 << 16)) : r.k(1000) - (r.p(0.1) ? 500 : 0);
        if (!cover && r.p(0.15)) { D = 1 + r.k(2); N = 30; }
        if (I(l, "K")) K = I(l, "K"), V = I(l, "V"), D = I(l, "D"), N = I(l, "N"), C = I(l, "C");
        Eigen::MatrixXi X(V, D);
        double dens = r.u(0.2, 1);
        int maxc = r.p(0.2) ? 500 : 4;
        for (int d = 0; d < D; d++) { X.col(d) = doc(r, V, dens, maxc); if (r.p(0.1)) X.col(d).fill(0); }
        if (cover) { V = D + 1; X = Eigen::MatrixXi::Zero(V, D); for (int d = 0; d < D; d++) X(d, d) = 1 + r.k(5); }
        bool def = N == 30 && r.p(0.5);   // the default number of documents
        std::shared_ptr<corpus::Corpus> c;
        Eigen::VectorXi y(D);
        for (int d = 0; d < D; d++) y(d) = r.k(C);
        if (how == "cseed") c = std::make_shared<corpus::EigenCorpus>(X);
        if (how == "lseed") { c = std::make_shared<corpus::EigenClassificationCorpus>(X, y); }
        if (c && r.p(0.5)) c->shuffle();
        auto init = [&](B &b, int s) {
            if (how == "rand") b.initialize_topics_random(V, K, s);
            else if (how == "seed") { if (def && s == 0) b.initialize_topics_seeded(X, K); else b.initialize_topics_seeded(X, K, N, s); }
            else { if (def && s == 0) b.initialize_topics_seeded(c, K); else b.initialize_topics_seeded(c, K, N, s); }
        };
        if (def) rs = 0;
        Arr docs, after;
        std::vector<Eigen::VectorXi> vs;
        for (int d = 0; d < D; d++) { Eigen::VectorXi x = c ? Eigen::VectorXi(c->at(d)->get_words()) : Eigen::VectorXi(X.col(d)); docs.add(ints(std::vector<int>(x.data(), x.data() + V))); }
        B b;
        init(b, rs);
        Model m = model(b);
        B b2;
        b2.initialize_topics_random(3, 2, 5).initialize_eta_zeros(2);
        init(b2, rs);
        Model m2 = model(b2);
        Arr others;
        bool vary = how == "rand" ? K * V >= 6 && V >= 2 : cover && D >= 2;
        for (int i = 1; i <= 4; i++) { B b3; init(b3, i == 1 ? (int)((unsigned)rs + 1u) : i == 2 ? ~rs : (int)((unsigned)rs ^ 1u << r.k(32))); others.add(mat(model(b3).beta)); }
        b2.initialize_eta_zeros(C);
        Model mz = model(b2);
        b2.initialize_eta_uniform(C);
        Model mu = model(b2);
        for (int d = 0; d < D; d++) { Eigen::VectorXi x = c ? Eigen::VectorXi(c->at(d)->get_words()) : Eigen::VectorXi(X.col(d)); after.add(ints(std::vector<int>(x.data(), x.data() + V))); }
        std::cout << Obj().t("id", S(l, "id")).i("f", sizeof(Sc) == 4).t("how", how == "rand" ? "rand" : "seed").i("K", K).i("V", V).i("N", how == "rand" ? 0 : N).i("C", C)
            .i("cover", cover && how != "rand").i("vary", vary).raw("docs", docs.done()).raw("docs_after", after.done())
            .raw("alpha", vec(m.alpha)).raw("beta", mat(m.beta)).raw("again", mat(m2.beta)).raw("others", others.done())
            .raw("zeros", mat(mz.eta)).raw("unif", mat(mu.eta)).done() << "\n";
        std::cout.flush();
    }
};
// Corpora of many documents: document d (from 0) has the words <<d / 300, d % 300, 0>>, a topic is seeded
// from one document.  guess: which document it may have been (the specification decides).
template <typename Sc> static void big(Line &l) {
    int D = I(l, "D"), K = I(l, "K"), rs = I(l, "seed");
    std::string how = S(l, "how");
    Eigen::MatrixXi X(3, D);
    Eigen::VectorXi y = Eigen::VectorXi::Zero(D);
    for (int d = 0; d < D; d++) X.col(d) << d / 300, d % 300, 0;
    LDABuilder<Sc> b;
    if (how == "seed") b.initialize_topics_seeded(X, K, 1, rs);
    else if (how == "cseed") b.initialize_topics_seeded(std::make_shared<corpus::EigenCorpus>(X), K, 1, rs);
    else b.initialize_topics_seeded(std::make_shared<corpus::EigenClassificationCorpus>(X, y), K, 1, rs);
    LDA<Sc> x = b;
    auto m = x.template model_parameters<parameters::SupervisedModelParameters<Sc> >();
    Eigen::VectorXi g(K);
    for (int k = 0; k < K; k++)
        g(k) = (int)std::lround(m->beta(k, 0) / m->beta(k, 2) - 1) * 300 + (int)std::lround(m->beta(k, 1) / m->beta(k, 2) - 1);
    std::cout << Obj().t("id", S(l, "id")).i("f", sizeof(Sc) == 4).i("D", D).i("K", K).raw("beta", mat(m->beta)).raw("guess", ints(g)).done() << "\n";
    std::cout.flush();
}
int main() {
    std::string s;
    while (std::getline(std::cin, s)) {
        Line l = parse(s);
        if (I(l, "big", 0)) { if (S(l, "sc", "d") == "f") big<float>(l); else big<double>(l); }
        else if (S(l, "sc", "d") == "f") H<float>::run(l); else H<double>::run(l);
    }
}
