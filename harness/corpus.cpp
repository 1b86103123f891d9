// Histories of calls on the corpora.
#include <functional>
#include "rec.hpp"
using namespace ldaplusplus;
using namespace rec;
using namespace ldaplusplus::corpus;

static void run(Line &l) {
    Rng r(I(l, "seed"));
    bool lab = I(l, "lab", r.k(2));
    int V = 1 + r.k(5), N = I(l, "N", r.k(9)), C = 1 + r.k(4);
    if (lab && N == 0 && r.p(0.9)) N = 1 + r.k(6);
    bool uniq = r.p(0.7) || N >= 20;
    Eigen::MatrixXi X(V, N);
    Eigen::VectorXi y(N);
    int neg = r.k(3);   // none, some, all unlabelled
    for (int d = 0; d < N; d++) {
        X.col(d) = doc(r, V, 0.7, 5);
        if (uniq) X(0, d) = 100 + d * 3;
        y(d) = lab ? r.k(C) : -9;
        if (lab && r.p(0.2)) y(d) += 3;
        if (lab && (neg == 2 ? r.p(0.95) : neg == 1 && r.p(0.5))) y(d) = -1 - r.k(3);
    }
    int seed = r.p(0.3) ? 0 : r.p(0.5) ? (int)((unsigned)r.k(1 << 16) << 16 ^ (unsigned)r.k(1 << 16)) : r.k(100000) - 1000;
    auto make = [&](int s) {
        std::shared_ptr<corpus::Corpus> c;
        if (lab) c = std::make_shared<EigenClassificationCorpus>(X, y, s);
        else c = std::make_shared<EigenCorpus>(X, s);
        return c;
    };
    auto c = make(seed), twin = make(seed), other = make(r.p(0.3) ? seed + 1 + r.k(1000) : r.p(0.2) ? ~seed : (int)((unsigned)seed ^ 1u << r.k(32)));
    auto js = [&](const std::shared_ptr<Document> &d) {
        auto cd = std::dynamic_pointer_cast<ClassificationDocument>(d);
        return Obj().raw("w", ints(d->get_words())).i("y", lab ? (cd ? cd->get_class() : -77) : -9).done();
    };
    auto all = [&](const std::shared_ptr<corpus::Corpus> &k) {
        Arr a;
        for (size_t i = 0; i < k->size(); i++) a.add(js(k->at(i)));
        return a.done();
    };
    Arr orig, ops;
    for (int d = 0; d < N; d++) orig.add(Obj().raw("w", ints(Eigen::VectorXi(X.col(d)))).i("y", y(d)).done());
    std::vector<std::pair<std::shared_ptr<Document>, std::string> > held;
    int shuffles = 0;
    int n = I(l, "n", 10);
    for (int q = 0; q < n; q++) {
        int what = r.k(8);
        if (what <= 1) {
            c->shuffle(); twin->shuffle(); other->shuffle();
            shuffles++;
            ops.add("{\"op\":\"shuffle\"}");
        } else if (what <= 4) {
            std::string s = all(c);
            bool same = true, owner = true;
            if (N > 0) for (int t = 0; t < 5; t++) {      // in any order, repeatedly
                int i = r.k(N);
                auto d = c->at(i);
                if (js(d) != js(c->at(i))) same = false;
                if (lab && d->get_corpus().get() != (const corpus::Corpus *)c.get()) owner = false;
                held.push_back(std::make_pair(d, js(d)));
            }
            if (all(c) != s) same = false;
            ops.add(Obj().t("op", "read").raw("docs", s).i("repeat", same).i("owner", owner).done());
            if (r.p(0.4)) ops.add(Obj().t("op", "twin").raw("docs", all(twin)).done());
            if (r.p(0.4) && shuffles) ops.add(Obj().t("op", "other").raw("docs", all(other)).done());
        } else if (what == 5) ops.add(Obj().t("op", "size").i("n", c->size()).done());
        else if (what == 6 && lab) {
            int k = r.k(C + 4) - (r.p(0.2) ? 4 : 0);
            ops.add(Obj().t("op", "prior").i("c", k).n("p", std::static_pointer_cast<ClassificationCorpus>(c)->get_prior(k)).done());
        } else {
            bool same = true;
            for (auto &h : held) if (js(h.first) != h.second) same = false;
            ops.add(Obj().t("op", "held").i("same", same).done());
        }
    }
    std::cout << Obj().t("id", S(l, "id")).i("labelled", lab).raw("docs", orig.done()).raw("ops", ops.done()).done() << "\n";
}
// A corpus too large to be written out: document d (from 0) has the words
// <<d+1, (d+1) % 7>> and the label Label(d+1); what is written are the numbers.
static void big(Line &l) {
    int N = I(l, "N"), seed = I(l, "seed"), lab = I(l, "lab");
    Eigen::MatrixXi X(2, N);
    Eigen::VectorXi y(N);
    for (int d = 0; d < N; d++) { X(0, d) = d + 1; X(1, d) = (d + 1) % 7; y(d) = (d + 1) % 11 == 0 ? (d + 1) % 5 - 1 : 1; }
    auto make = [&]() -> std::shared_ptr<corpus::Corpus> {
        if (lab) return std::make_shared<EigenClassificationCorpus>(X, y, seed);
        return std::make_shared<EigenCorpus>(X, seed);
    };
    auto c = make(), twin = make();
    Arr orders;
    for (int t = 0; t < 3; t++) {
        if (t) { c->shuffle(); twin->shuffle(); }
        std::vector<int> ids, ys, tw;
        bool words = true;
        for (int i = 0; i < N; i++) {
            auto d = c->at(i);
            ids.push_back(d->get_words()(0));
            if (d->get_words().rows() != 2 || d->get_words()(1) != d->get_words()(0) % 7) words = false;
            if (lab) { auto cd = std::dynamic_pointer_cast<ClassificationDocument>(d); ys.push_back(cd ? cd->get_class() : -77); }
            tw.push_back(twin->at(i)->get_words()(0));
        }
        orders.add(Obj().raw("ids", ints(Eigen::Map<Eigen::VectorXi>(ids.data(), ids.size()))).raw("ys", ints(Eigen::Map<Eigen::VectorXi>(ys.data(), ys.size()))).i("words", words).i("twin", tw == ids).i("n", c->size()).done());
    }
    Arr pr;
    if (lab) for (int k = -1; k < 5; k++)
        pr.add(num(std::static_pointer_cast<ClassificationCorpus>(c)->get_prior(k)));
    std::cout << Obj().t("id", S(l, "id")).i("n", N).i("labelled", lab).raw("orders", orders.done()).raw("priors", pr.done()).done() << "\n";
}
int main() {
    std::string s;
    while (std::getline(std::cin, s)) { Line l = parse(s); if (I(l, "big", 0)) big(l); else run(l); }
}
