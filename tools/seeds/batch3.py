import os
exec(open(os.path.join(ROOT, "tools/seeds/batch2.py")).read().rsplit("\nSEEDS = [", 1)[0])
SEEDS = [
dict(id="c01-same-words-reused", property="C01",
 needs="two documents with the same words, one directly after the other on the same worker",
 breaks="the expectation step is not run for a document whose words are those of the worker's previous document",
 edits=[("src/ldaplusplus/LDA.cpp", """        // do said job
        auto vp = e_step_->doc_e_step(
            corpus->at(index),
            model_parameters_
        );
""", """        // do said job, unless it is the one we just did
        auto doc = corpus->at(index);
        if (vp == nullptr || previous->get_words() != doc->get_words()) {
            vp = e_step_->doc_e_step(
                doc,
                model_parameters_
            );
            previous = doc;
        }
"""), ("src/ldaplusplus/LDA.cpp", """    std::shared_ptr<corpus::Corpus> corpus;
    size_t index;

    while (true) {""", """    std::shared_ptr<corpus::Corpus> corpus;
    std::shared_ptr<corpus::Document> previous;
    std::shared_ptr<parameters::Parameters> vp;
    size_t index;

    while (true) {""")],
 demo=COMMON + r'''
struct E : em::EStepInterface<double> {
    std::atomic<int> calls{0};
    P doc_e_step(const D doc, const P) override {
        calls++;
        int y = std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class();
        return std::make_shared<parameters::VariationalParameters<double> >(Eigen::VectorXd::Constant(1, y), Eigen::MatrixXd::Constant(1, 1, y));
    }
    void e_step() override {}
};
struct M : em::MStepInterface<double> {
    bool bad = false;
    void doc_m_step(const D doc, const P vp, P) override {
        if (std::static_pointer_cast<parameters::VariationalParameters<double> >(vp)->gamma[0] !=
            std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class()) bad = true;
    }
    void m_step(P) override {}
};
int main() {
    auto e = std::make_shared<E>(); auto m = std::make_shared<M>();
    LDA<double> lda(std::make_shared<parameters::ModelParameters<double> >(), e, m, 1, 1);
    Eigen::MatrixXi X = Eigen::MatrixXi::Constant(3, 6, 2); Eigen::VectorXi y(6); y << 0, 1, 2, 3, 4, 5;
    lda.partial_fit(X, y);
    if (m->bad || e->calls != 6) FAIL("%d expectation steps, mispaired: %d", (int) e->calls, m->bad);
    puts("ok");
}
'''),
dict(id="c02-settled-early", property="C02",
 needs="a model that a pass leaves exactly as it was",
 breaks="fit() stops before the configured number of passes when the topics no longer change",
 edits=[("src/ldaplusplus/LDA.cpp", """    auto corpus = get_corpus(X);

    for (size_t i=0; i<iterations_; i++) {
        partial_fit(corpus);
    }
""", """    auto corpus = get_corpus(X);
    auto model = std::static_pointer_cast<parameters::ModelParameters<Scalar> >(
        model_parameters_
    );

    for (size_t i=0; i<iterations_; i++) {
        MatrixX previous = model->beta;
        partial_fit(corpus);

        // no need to go on if we have settled
        if (previous == model->beta) {
            break;
        }
    }
""")],
 demo=COMMON + r'''
int main() {
    Eigen::MatrixXi X(3, 4); X << 1, 2, 3, 1, 2, 0, 0, 4, 1, 1, 1, 1;
    LDA<double> lda = LDABuilder<double>().set_iterations(7).set_workers(2).initialize_topics_random(3, 1, 5);
    int epochs = 0;
    lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) { epochs += ev->id() == "EpochProgressEvent"; });
    lda.fit(X);
    if (epochs != 7) FAIL("%d passes instead of 7", epochs);
    puts("ok");
}
'''),
dict(id="c03-binary-sign", property="C03",
 needs="a two class model whose parameters are not symmetric (another penalty, another way of training, hand made)",
 breaks="with two classes predict looks only at the sign of the second class's score",
 edits=[("src/ldaplusplus/LDA.cpp", """        scores.col(d).maxCoeff( &predictions[d] );
""", """        if (scores.rows() == 2) {
            predictions[d] = scores(1, d) > 0;
        } else {
            scores.col(d).maxCoeff( &predictions[d] );
        }
""")],
 demo=COMMON + r'''
int main() {
    auto m = std::make_shared<parameters::SupervisedModelParameters<double> >();
    m->alpha = Eigen::VectorXd::Constant(2, 0.5); m->beta = Eigen::MatrixXd::Constant(2, 3, 1.0 / 3); m->eta = Eigen::MatrixXd(2, 2); m->eta << 3, 1, 3, 1;
    LDA<double> lda = LDABuilder<double>().initialize_topics_from_model(m).initialize_eta_from_model(m);
    Eigen::MatrixXi X(3, 2); X << 1, 4, 2, 0, 0, 3;
    Eigen::MatrixXd s = lda.decision_function(X);
    Eigen::VectorXi y = lda.predict(X);
    for (int d = 0; d < 2; d++) if (s(y[d], d) < s.col(d).maxCoeff()) FAIL("not the class with the highest score");
    puts("ok");
}
'''),
dict(id="c04-late-delivery", property="C04",
 needs="a listener and a maximization step whose order is observed",
 breaks="the expectation events are processed only after the document has been handed to the maximization step",
 edits=[("src/ldaplusplus/LDA.cpp", """        // tell the thread safe event dispatcher to process the events from the
        // workers
        process_worker_events();

        // perform the online part of m step
""", """        // perform the online part of m step
"""), ("src/ldaplusplus/LDA.cpp", """            variational_parameters,
            model_parameters_  // output
        );
    }
""", """            variational_parameters,
            model_parameters_  // output
        );

        // tell the thread safe event dispatcher to process the events from the
        // workers
        process_worker_events();
    }
""")],
 demo=COMMON + r'''
static int heard = 0, worst = 0, handed = 0;
struct E : em::EStepInterface<double> {
    P doc_e_step(const D doc, const P) override {
        get_event_dispatcher()->dispatch<events::ExpectationProgressEvent<double> >(1.0);
        return std::make_shared<parameters::VariationalParameters<double> >(Eigen::VectorXd::Zero(1), Eigen::MatrixXd::Zero(1, 1));
    }
    void e_step() override {}
};
struct M : em::MStepInterface<double> {
    void doc_m_step(const D, const P, P) override { handed++; if (handed - heard > worst) worst = handed - heard; }
    void m_step(P) override {}
};
int main() {
    LDA<double> lda(std::make_shared<parameters::ModelParameters<double> >(), std::make_shared<E>(), std::make_shared<M>(), 1, 1);
    lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) { heard += ev->id() == "ExpectationProgressEvent"; });
    Eigen::MatrixXi X = Eigen::MatrixXi::Constant(2, 1, 1);
    for (int i = 0; i < 5; i++) lda.partial_fit(X, Eigen::VectorXi::Zero(1));
    if (worst > 0) FAIL("a document was handed to the maximization step before its event was delivered");
    puts("ok");
}
'''),
dict(id="c05-flood", property="C05",
 needs="more than 4096 events waiting when they are processed",
 breaks="process_events keeps only the last 4096 waiting events",
 edits=[("src/ldaplusplus/events/Events.cpp", """    events_.push_back(event);
}""", """    // don't let the queue grow without bound if nobody processes it
    if (events_.size() >= 4096) {
        events_.pop_front();
    }
    events_.push_back(event);
}""")],
 demo=COMMON + r'''
struct Ev : events::Event { int n; Ev(int n) : events::Event("Ev"), n(n) {} };
int main() {
    events::ThreadSafeEventDispatcher d;
    int next = 0; bool bad = false;
    d.add_listener(std::make_shared<events::FunctionEventListener>([&](std::shared_ptr<events::Event> e) { bad |= std::static_pointer_cast<Ev>(e)->n != next++; }));
    for (int i = 0; i < 10000; i++) d.dispatch(std::make_shared<Ev>(i));
    d.process_events();
    if (bad || next != 10000) FAIL("%d of 10000 events delivered", next);
    puts("ok");
}
'''),
dict(id="c07-seed-low-bits", property="C07",
 needs="seeds that differ only in their upper bits",
 breaks="only the lower 16 bits of the seed are used",
 edits=[("src/ldaplusplus/Document.cpp", "      prng_(random_state)", "      prng_(static_cast<uint16_t>(random_state))")],
 demo=COMMON + r'''
int main() {
    Eigen::MatrixXi X(1, 50); for (int i = 0; i < 50; i++) X(0, i) = i;
    corpus::EigenCorpus a(X, 7), b(X, 7 + 65536);
    a.shuffle(); b.shuffle();
    bool same = true;
    for (int i = 0; i < 50; i++) same &= a.at(i)->get_words()[0] == b.at(i)->get_words()[0];
    if (same) FAIL("two seeds, one order");
    puts("ok");
}
'''),
dict(id="c08-block-multiple", property="C08",
 needs="an array whose data are exactly a multiple of 64 KiB",
 breaks="the data are written in blocks and the last one is lost when it is full",
 edits=[("include/ldaplusplus/NumpyFormat.hpp", "                os.write(data.data(), N*sizeof(Scalar));\n",
"""                const size_t block = 1 << 16;
                const size_t total = N * sizeof(Scalar);
                size_t written = 0;
                for (; written + block < total; written += block) {
                    os.write(data.data() + written, block);
                }
                os.write(data.data() + written, total % block);
""")],
 demo=COMMON + r'''
#include <sstream>
#include "ldaplusplus/NumpyFormat.hpp"
int main() {
    for (int n : {1, 8191, 8192, 8193, 16384, 20000}) {
        Eigen::MatrixXd A = Eigen::MatrixXd::Random(n, 1);
        std::stringstream s;
        s << numpy_format::NumpyOutput<double>(A);
        if ((int) s.str().size() < n * 8 + 16) FAIL("%d elements: data missing", n);
    }
    puts("ok");
}
'''),
dict(id="c09-long-header", property="C09",
 needs="a header padded to more than 1024 bytes",
 breaks="only the first 1024 bytes of the header are taken, the rest is read as data",
 edits=[("include/ldaplusplus/NumpyFormat.hpp", "                // read the header\n",
"""                // read the header
                header_len = header_len > 1024 ? 1024 : header_len;
""")],
 demo=COMMON + r'''
#include <sstream>
#include "ldaplusplus/NumpyFormat.hpp"
int main() {
    for (int len : {118, 1014, 4086}) {
        std::string h = "{'descr': '<i4', 'fortran_order': False, 'shape': (2, 2), }";
        h += std::string(len - 1 - h.size(), ' ') + "\n";
        std::string s = std::string("\x93NUMPY\x01\x00", 8) + (char) (len & 255) + (char) (len >> 8) + h;
        int v[4] = {1, 2, 3, 4};
        s.append((const char *) v, 16);
        std::stringstream in(s);
        numpy_format::NumpyInput<int> ni; in >> ni;
        Eigen::MatrixXi X = ni;
        if (X(0, 0) != 1 || X(0, 1) != 2 || X(1, 0) != 3 || X(1, 1) != 4) FAIL("header of %d bytes: wrong data", len);
    }
    puts("ok");
}
'''),
dict(id="c10-alpha-reset", property="C10",
 needs="a model whose alpha is not 1/topics",
 breaks="continuing from a model replaces its alpha",
 edits=[("include/ldaplusplus/LDABuilder.hpp", "            model_parameters_->alpha = model->alpha;\n            model_parameters_->beta = model->beta;\n",
"            model_parameters_->beta = model->beta;\n            model_parameters_->alpha = VectorX::Constant(model->beta.rows(), 1.0 / model->beta.rows());\n")],
 sh=NPY + r'''
python3 -c "
import npy
npy.data('d', [[1,2,0,4],[0,1,3,1],[5,0,0,1]])
f=open('m','wb')
npy.put(f,2,1,[0.25,3.0],'f8'); npy.put(f,2,3,[.5,.25,.25,.125,.125,.75],'f8'); npy.put(f,2,2,[1.0,2.0,3.0,4.0],'f8')"
lda train -q --iterations=0 --continue=m d m2 && python3 -c "
import npy,sys
sys.exit(npy.get('m2')[0][1] != (0.25, 3.0))" || { echo "alpha is lost"; exit 1; }
echo ok
'''),
dict(id="c11-thousand", property="C11",
 needs="a thousand epochs",
 breaks="the snapshots of epochs from 1000 on reuse the names of earlier ones",
 edits=[("src/applications/SnapshotEvery.cpp", "    actual_path << seen_so_far_;", "    actual_path << seen_so_far_ % 1000;")],
 sh=NPY + r'''
python3 -c "
import npy
npy.data('d', [[1,2],[3,1]])"
lda train -q --topics=2 --e_step_iterations=1 --iterations=1200 --snapshot_every=400 d m || exit 1
[ -f m_400 -a -f m_800 -a -f m_1200 -a ! -f m_200 ] || { echo "wrong snapshots:" m_*; exit 1; }
echo ok
'''),
dict(id="c12-few-documents", property="C12",
 needs="fewer than 30 documents and a seeded initialisation",
 breaks="slda seeds its topics with fewer documents than the library's default when there are few",
 edits=[("src/applications/slda.cpp", """                args["--topics"].asLong(),
                30,
""", """                args["--topics"].asLong(),
                std::min<size_t>(30, X.cols()),
""")],
 sh=NPY + r'''
python3 -c "
import npy
npy.data('d', [[1,2,0,4],[0,1,3,1],[5,0,0,1]], [0,1,0,1])"
slda train -q --topics=2 --iterations=0 --random_state=3 d m && python3 -c "
import npy,sys
b=npy.get('m')[1][1]
# 30 documents of 5..6 words and one of add-one smoothing per word: probabilities are multiples of 1/n, n=3+sum of words
X=[[1,0,5],[2,1,0],[0,3,0],[4,1,1]]
from itertools import product
tot=[sum(x) for x in X]
ok=False
for a in range(31):
  for c in range(31-a):
    for d in range(31-a-c):
      k=[a,c,d,30-a-c-d]
      v=[1+sum(k[i]*X[i][w] for i in range(4)) for w in range(3)]
      s=float(sum(v))
      if all(abs(v[w]/s-x)<1e-12 for w,x in enumerate([b[0],b[1],b[2]] if False else [b[0],b[2],b[4]])) or all(abs(v[w]/s-b[w])<1e-12 for w in range(3)): ok=True
sys.exit(not ok)" || { echo "not seeded from 30 documents"; exit 1; }
echo ok
'''),
dict(id="c13-zero-iterations", property="C13",
 needs="a builder told to do no iterations",
 breaks="set_iterations(0) is ignored",
 edits=[("src/ldaplusplus/LDABuilder.cpp", "    iterations_ = iterations;\n", "    if (iterations > 0) {\n        iterations_ = iterations;\n    }\n")],
 demo=COMMON + r'''
int main() {
    LDA<double> lda = LDABuilder<double>().set_iterations(0).set_workers(1).initialize_topics_random(3, 2, 0);
    Eigen::MatrixXd b = std::static_pointer_cast<parameters::ModelParameters<double> >(lda.model_parameters())->beta;
    lda.fit(Eigen::MatrixXi::Constant(3, 4, 1));
    if (b != std::static_pointer_cast<parameters::ModelParameters<double> >(lda.model_parameters())->beta) FAIL("trained without any iteration");
    puts("ok");
}
'''),
dict(id="c14-first-documents", property="C14",
 needs="a corpus of more than 1000 documents",
 breaks="topics are seeded only from the first 1000 documents",
 edits=[("src/ldaplusplus/LDABuilder.cpp", "document(0, corpus->size()-1);", "document(0, std::min<size_t>(corpus->size(), 1000)-1);")],
 demo=COMMON + r'''
int main() {
    Eigen::MatrixXi X = Eigen::MatrixXi::Zero(2, 3000); X.row(0).fill(1);
    for (int i = 1000; i < 3000; i++) { X(0, i) = 0; X(1, i) = 1; }
    LDA<double> lda = LDABuilder<double>().initialize_topics_seeded(X, 4, 30, 1);
    auto b = std::static_pointer_cast<parameters::ModelParameters<double> >(lda.model_parameters())->beta;
    if (b.col(1).maxCoeff() < 0.2) FAIL("later documents are never drawn");
    puts("ok");
}
'''),
dict(id="c15-only-minus-one", property="C15",
 needs="an unlabelled document whose class is negative but not -1",
 breaks="the maximization step takes classes below -1 for labels",
 edits=[("src/ldaplusplus/em/SemiSupervisedMStep.cpp", "->get_class() < 0)", "->get_class() == -1)")],
 demo=COMMON + r'''
#include <cstring>
int main() {
    srand(1);
    Eigen::MatrixXi X(6, 12); Eigen::VectorXi y(12), z(12);
    for (int d = 0; d < 12; d++) { for (int w = 0; w < 6; w++) X(w, d) = rand() % 5; y[d] = d % 3 == 2 ? -1 : d % 2; z[d] = y[d] < 0 ? -2 : y[d]; }
    auto run = [&](const Eigen::VectorXi &l) {
        LDA<double> lda = LDABuilder<double>().set_iterations(3).set_workers(1).set_semi_supervised_e_step().set_semi_supervised_m_step()
            .initialize_topics_random(6, 3, 1).initialize_eta_zeros(2);
        lda.fit(X, l);
        return std::static_pointer_cast<parameters::SupervisedModelParameters<double> >(lda.model_parameters())->eta;
    };
    Eigen::MatrixXd a = run(y), b = run(z);
    if (!(a - b).isZero(1e-9)) FAIL("an unlabelled document changes the class parameters");
    puts("ok");
}
'''),
dict(id="c16-empty-not-counted", property="C16",
 needs="empty documents in online training",
 breaks="empty documents do not count for the mini-batch",
 edits=[("src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp", """    if (words_in_doc != 0) {
        expected_z_bar_.col(docs_seen_so_far_).array() /= words_in_doc;
    }
    y_(docs_seen_so_far_) = y;
""", """    if (words_in_doc == 0) {
        return;
    }
    expected_z_bar_.col(docs_seen_so_far_).array() /= words_in_doc;
    y_(docs_seen_so_far_) = y;
""")],
 demo=COMMON + r'''
int main() {
    Eigen::MatrixXi X(3, 4); X << 1, 0, 2, 0, 1, 0, 0, 0, 3, 0, 1, 0;
    Eigen::VectorXi y(4); y << 0, 1, 1, 0;
    LDA<double> lda = LDABuilder<double>().set_iterations(2).set_workers(1).set_fast_supervised_e_step()
        .set_fast_supervised_online_m_step(2, 0.01, 4).initialize_topics_random(3, 2, 1).initialize_eta_zeros(2);
    int updates = 0;
    lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) { updates += ev->id() == "MaximizationProgressEvent"; });
    lda.fit(X, y);
    if (updates != 2) FAIL("%d updates instead of 2", updates);
    puts("ok");
}
'''),
dict(id="c18-count-cap", property="C18",
 needs="a word that occurs more than 10000 times in one document",
 breaks="word counts are capped when gamma is computed",
 edits=[("src/ldaplusplus/e_step_utils.cpp", "    math_utils::sum_cols_scaled(phi, X, gamma);", "    math_utils::sum_cols_scaled(phi, X.cwiseMin(10000).eval(), gamma);")],
 demo=COMMON + r'''
int main() {
    LDA<double> lda = LDABuilder<double>().set_workers(1).initialize_topics_random(3, 2, 1);
    Eigen::MatrixXi X(3, 1); X << 20000, 1, 5;
    double s = lda.transform(X).sum();
    if (std::abs(s - 20007) > 1e-3) FAIL("gamma sums to %g", s);
    puts("ok");
}
'''),
dict(id="c19-long-documents", property="C19",
 needs="a document of more than 1000 words that converges slowly",
 breaks="for long documents the change of gamma is taken relative to the number of words",
 edits=[("src/ldaplusplus/em/AbstractEStep.cpp", "    return mean_change < tolerance;",
"""    // a change matters less in long documents
    Scalar total = gamma.sum();
    if (total > 1000) {
        mean_change = mean_change * 1000 / total;
    }

    return mean_change < tolerance;""")],
 demo=COMMON + r'''
int main() {
    Eigen::MatrixXi X(4, 1); X << 30000, 20000, 10000, 5000;
    auto run = [&](double tol, int it) {
        LDA<double> lda = LDABuilder<double>().set_workers(1).set_classic_e_step(it, tol).initialize_topics_random(4, 3, 1);
        return lda.transform(X);
    };
    double tol = 5;
    Eigen::MatrixXd r = run(tol, 2000), prev = run(0, 1);
    for (int i = 2; i < 2000; i++) {
        Eigen::MatrixXd cur = run(0, i);
        if ((cur - prev).cwiseAbs().sum() / 3 < tol) {
            if (!(cur - r).isZero(1e-6)) FAIL("not the first iterate whose change is below the tolerance");
            break;
        }
        prev = cur;
    }
    puts("ok");
}
'''),
dict(id="c20-flat-stops", property="C20",
 needs="a point where the gradient is exactly zero",
 breaks="gradient descent stops by itself where the gradient is zero, although the callback agrees to go on",
 edits=[("include/ldaplusplus/optimization/GradientDescent.hpp", "            while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {\n",
"""            while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {
                if (grad.isZero(0)) {
                    break;
                }
""")],
 demo=COMMON + r'''
#include "ldaplusplus/optimization/GradientDescent.hpp"
struct Q {
    double value(const Eigen::MatrixXd &x) const { return x.squaredNorm() / 2; }
    void gradient(const Eigen::MatrixXd &x, Eigen::Ref<Eigen::MatrixXd> g) const { g = x; }
};
int main() {
    int calls = 0;
    optimization::GradientDescent<Q, Eigen::MatrixXd> gd(
        std::make_shared<optimization::ArmijoLineSearch<Q, Eigen::MatrixXd> >(),
        [&](double, double, size_t i) { calls++; return i < 5; });
    Eigen::MatrixXd x = Eigen::MatrixXd::Constant(2, 2, 3);
    gd.minimize(Q(), x);
    if (calls != 6) FAIL("stopped after %d reports", calls);
    puts("ok");
}
'''),
]
