COMMON = r'''
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <memory>
#include <set>
#include <vector>
#include <thread>
#include <atomic>
#include <functional>
#include <Eigen/Core>
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/events/Events.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
using namespace ldaplusplus;
#define FAIL(...) do { printf(__VA_ARGS__); printf("\n"); fflush(stdout); _Exit(1); } while (0)
typedef std::shared_ptr<parameters::Parameters> P;
typedef std::shared_ptr<corpus::Document> D;
'''
FAKE = COMMON + r'''
struct E : em::EStepInterface<double> {
    P doc_e_step(const D doc, const P) override {
        return std::make_shared<parameters::VariationalParameters<double> >(
            doc->get_words().cast<double>(), Eigen::MatrixXd::Constant(1, 1, doc->get_words()[0]));
    }
    void e_step() override {}
};
struct M : em::MStepInterface<double> {
    std::vector<int> seen; bool bad = false;
    void doc_m_step(const D doc, const P vp, P) override {
        int w = doc->get_words()[0];
        if (std::static_pointer_cast<parameters::VariationalParameters<double> >(vp)->gamma[0] != w) bad = true;
        seen.push_back(w);
    }
    void m_step(P) override {}
};
'''
FAKE = FAKE
SEEDS = [
dict(id="c01-short-index", property="C01",
 needs="a corpus of more than 65536 documents",
 breaks="the queue of results keeps the document index in 16 bits, so results of later documents are paired with earlier ones",
 edits=[("include/ldaplusplus/LDA.hpp", "        std::list<std::tuple<std::shared_ptr<parameters::Parameters>, size_t> > queue_out_;",
"        std::list<std::tuple<std::shared_ptr<parameters::Parameters>, uint16_t> > queue_out_;")],
 demo=FAKE + r'''
int main() {
    auto params = std::make_shared<parameters::ModelParameters<double> >();
    auto e = std::make_shared<E>(); auto m = std::make_shared<M>();
    LDA<double> lda(params, e, m, 1, 2);
    Eigen::MatrixXi X(1, 70000); for (int i = 0; i < 70000; i++) X(0, i) = i;
    Eigen::VectorXi y = Eigen::VectorXi::Zero(70000);
    lda.partial_fit(X, y);
    std::set<int> s(m->seen.begin(), m->seen.end());
    if (m->bad || m->seen.size() != 70000 || s.size() != 70000) FAIL("documents lost, repeated or mispaired");
    puts("ok");
}
'''),
dict(id="c02-lost-wakeup", property="C02",
 needs="the caller draining the results between a worker's unlocked test and its push",
 breaks="the worker decides whether to notify before it holds the lock; the caller can then wait forever for a result that is there",
 edits=[("src/ldaplusplus/LDA.cpp", """        // show some results
        {
            std::lock_guard<std::mutex> lock(queue_out_mutex_);
            queue_out_.emplace_back(vp, index);
        }
        // talk about those results
        queue_out_cv_.notify_one();
""", """        // wake the consumer up only if it may be waiting
        bool consumer_waits = queue_out_.empty();

        // show some results
        {
            std::lock_guard<std::mutex> lock(queue_out_mutex_);
            queue_out_.emplace_back(vp, index);
        }
        // talk about those results
        if (consumer_waits)
            queue_out_cv_.notify_one();
""")],
 demo=FAKE + r'''
#include <unistd.h>
#include <signal.h>
static void hang(int) { const char s[] = "a pass does not return\n"; (void)!write(1, s, sizeof s - 1); _Exit(1); }
int main() {
    signal(SIGALRM, hang);
    auto params = std::make_shared<parameters::ModelParameters<double> >();
    auto e = std::make_shared<E>(); auto m = std::make_shared<M>();
    LDA<double> lda(params, e, m, 1, 4);
    Eigen::MatrixXi X(1, 400); for (int i = 0; i < 400; i++) X(0, i) = i + 1;
    Eigen::VectorXi y = Eigen::VectorXi::Zero(400);
    time_t t = time(0);
    for (int i = 0; time(0) - t < 60; i++) {
        alarm(20);
        lda.partial_fit(X, y);
    }
    puts("ok");
}
'''),
dict(id="c04-transform-leaves-events", property="C04",
 needs="a transform followed by a look at, or another use of, the listeners",
 breaks="transform processes the workers' events before taking a result instead of after, so those of the last documents stay behind for a later call",
 edits=[("src/ldaplusplus/LDA.cpp", """        std::shared_ptr<parameters::Parameters> vp;
        size_t index;

        std::tie(vp, index) = extract_vp_from_queue();
        gammas.col(index) = std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(vp)->gamma;

        // tell the thread safe event dispatcher to process the events from the
        // workers
        process_worker_events();
    }
""", """        std::shared_ptr<parameters::Parameters> vp;
        size_t index;

        // tell the thread safe event dispatcher to process the events from the
        // workers
        process_worker_events();

        std::tie(vp, index) = extract_vp_from_queue();
        gammas.col(index) = std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(vp)->gamma;
    }
""")],
 demo=COMMON + r'''
int main() {
    Eigen::MatrixXi X = Eigen::MatrixXi::Constant(4, 5, 1);
    LDA<double> lda = LDABuilder<double>().set_workers(1).set_classic_e_step(5, 1e-3, 1).initialize_topics_random(4, 2, 0);
    int n = 0;
    lda.get_event_dispatcher()->add_listener([&n](std::shared_ptr<events::Event>) { n++; });
    for (int i = 1; i <= 200; i++) {
        lda.transform(X);
        if (n != 5 * i) FAIL("%d events after %d transforms", n, i);
    }
    puts("ok");
}
'''),
dict(id="c05-events-cleared-late", property="C05",
 needs="another thread dispatching between the copy and the clearing of the queue",
 breaks="process_events copies the queue and clears it in two separate critical sections; an event dispatched in between is lost",
 edits=[("src/ldaplusplus/events/Events.cpp", """        std::lock_guard<std::mutex> l(events_mutex_);
        events = events_;
        events_.clear();
    }
""", """        std::lock_guard<std::mutex> l(events_mutex_);
        events = events_;
    }
    {
        std::lock_guard<std::mutex> l(events_mutex_);
        events_.clear();
    }
""")],
 demo=COMMON + r'''
int main() {
    for (int round = 0; round < 30; round++) {
        events::ThreadSafeEventDispatcher d;
        long n = 0;
        events::EventDispatcherInterface &di = d;
        di.add_listener([&n](std::shared_ptr<events::Event>) { n++; });
        std::atomic<int> left(4);
        std::vector<std::thread> ts;
        for (int k = 0; k < 4; k++) ts.emplace_back([&]() {
            for (int i = 0; i < 20000; i++) d.dispatch(std::make_shared<events::Event>("x"));
            left--;
        });
        while (left) d.process_events();
        for (auto &t : ts) t.join();
        d.process_events();
        if (n != 80000) FAIL("%ld of 80000 events delivered", n);
    }
    puts("ok");
}
'''),
dict(id="c07-global-random-shuffle", property="C07",
 needs="two corpora shuffled in one process",
 breaks="the shuffle draws from the process-wide generator, so the same seed no longer gives the same order",
 edits=[("src/ldaplusplus/Document.cpp", "    std::shuffle(indices_.begin(), indices_.end(), prng_);", """    // seed once per corpus, the standard generator is fast enough
    std::random_shuffle(indices_.begin(), indices_.end());""")],
 demo=COMMON + r'''
int main() {
    Eigen::MatrixXi X(1, 40); for (int i = 0; i < 40; i++) X(0, i) = i;
    corpus::EigenCorpus a(X, 7), b(X, 7);
    a.shuffle(); b.shuffle();
    for (int i = 0; i < 40; i++) if (a.at(i)->get_words()[0] != b.at(i)->get_words()[0]) FAIL("same seed, another order");
    puts("ok");
}
'''),
dict(id="c08-empty-array-skipped", property="C08",
 needs="saving a matrix without elements, alone or followed by others",
 breaks="nothing at all is written for an empty matrix, so the arrays behind it are read in its place",
 edits=[("include/ldaplusplus/NumpyFormat.hpp", """    void save(std::ostream &out_stream, const Eigen::Matrix<Scalar, Rows, Cols, Options> &matrix) {
        out_stream""", """    void save(std::ostream &out_stream, const Eigen::Matrix<Scalar, Rows, Cols, Options> &matrix) {
        if (matrix.size() == 0) {
            return;  // nothing to save
        }

        out_stream""")],
 demo=COMMON + r'''
#include <sstream>
#include "ldaplusplus/NumpyFormat.hpp"
int main() {
    std::stringstream s;
    Eigen::MatrixXd a(3, 0), b = Eigen::MatrixXd::Random(2, 2);
    numpy_format::save(s, a); numpy_format::save(s, b);
    try {
        Eigen::MatrixXd x = numpy_format::load<double>(s), z = numpy_format::load<double>(s);
        if (x.rows() != 3 || x.cols() != 0 || z != b) FAIL("read back differently");
    } catch (const std::exception &e) { FAIL("%s", e.what()); }
    puts("ok");
}
'''),
dict(id="c09-unsigned-as-signed", property="C09",
 needs="an array of unsigned integers read as the signed type of that size",
 breaks="unsigned arrays are accepted where the signed type was requested and large values come out negative",
 edits=[("include/ldaplusplus/NumpyFormat.hpp", "                if (dtype.substr(1) != dtype_for_scalar<Scalar>()) {", """                // counts are often saved as unsigned integers
                std::string requested = dtype_for_scalar<Scalar>();
                bool unsigned_counts = (
                    dtype[1] == 'u' && requested[0] == 'i' && dtype[2] == requested[1]
                );
                if (dtype.substr(1) != requested && !unsigned_counts) {""")],
 demo=COMMON + r'''
#include <sstream>
#include "ldaplusplus/NumpyFormat.hpp"
int main() {
    std::stringstream s;
    Eigen::Matrix<uint32_t, -1, -1> a(1, 1); a << 4000000000u;
    numpy_format::save(s, a);
    try {
        Eigen::MatrixXi x = numpy_format::load<int>(s);
    } catch (const std::exception &e) { puts("ok"); return 0; }
    FAIL("u4 accepted as i4");
}
'''),
dict(id="c15-epoch-not-announced", property="C15",
 needs="an unsupervised step that does something at the end of an epoch",
 breaks="only the supervised inner step hears about the end of an epoch",
 edits=[("src/ldaplusplus/em/SemiSupervisedEStep.cpp", """    supervised_step_->e_step();
    unsupervised_step_->e_step();
""", """    // the unsupervised step keeps no state between epochs
    supervised_step_->e_step();
""")],
 demo=COMMON + r'''
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
struct E : em::EStepInterface<double> { int n = 0;
    P doc_e_step(const D, const P p) override { return p; }
    void e_step() override { n++; } };
int main() {
    auto a = std::make_shared<E>(), b = std::make_shared<E>();
    em::SemiSupervisedEStep<double> s(a, b);
    s.e_step();
    if (a->n != 1 || b->n != 1) FAIL("%d %d", a->n, b->n);
    puts("ok");
}
'''),
dict(id="c16-half-batch-flush", property="C16",
 needs="a pass that ends with at least half a mini-batch left over",
 breaks="the end of a pass updates the model with an incomplete mini-batch (and stale documents)",
 edits=[("src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp", """    if (docs_seen_so_far_ < minibatch_size_)
        return;
""", """    if (2 * docs_seen_so_far_ < minibatch_size_ || docs_seen_so_far_ == 0)
        return;
""")],
 demo=COMMON + r'''
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
int main() {
    Eigen::VectorXd al = Eigen::VectorXd::Constant(2, .5);
    Eigen::MatrixXd be = Eigen::MatrixXd::Constant(2, 3, 1. / 3), et = Eigen::MatrixXd::Zero(2, 2);
    auto p = std::make_shared<parameters::SupervisedModelParameters<double> >(al, be, et);
    em::FastOnlineSupervisedMStep<double> m(2, 0.1, 4, .9, .1, .5);
    Eigen::VectorXi w(3); w << 1, 0, 2;
    Eigen::MatrixXd phi = Eigen::MatrixXd::Constant(2, 3, .5);
    auto vp = std::make_shared<parameters::VariationalParameters<double> >(Eigen::VectorXd::Constant(2, 2.), phi);
    for (int i = 0; i < 3; i++)
        m.doc_m_step(std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(w), 0), vp, p);
    m.m_step(p);
    if (p->beta != be || p->eta != et) FAIL("updated after 3 of 4 documents");
    puts("ok");
}
'''),
dict(id="c17-stale-labels", property="C17",
 needs="a pass with fewer documents than the pass before it",
 breaks="labels of the previous pass stay in the training set of the class parameters",
 edits=[("src/ldaplusplus/em/SupervisedMStep.cpp", """    y_.conservativeResize(docs_);
    expected_z_bar_.conservativeResize(expected_z_bar_.rows(), docs_);
    variance_z_bar_.resize(docs_);
    docs_ = 0;
""", """    if (docs_ > y_.rows()) {
        y_.conservativeResize(docs_);
        expected_z_bar_.conservativeResize(expected_z_bar_.rows(), docs_);
        variance_z_bar_.resize(docs_);
    }
    docs_ = 0;
""")],
 demo=COMMON + r'''
#include "ldaplusplus/em/SupervisedMStep.hpp"
static void pass(em::SupervisedMStep<double> &m, std::shared_ptr<parameters::SupervisedModelParameters<double> > p, int from, int to) {
    for (int d = from; d < to; d++) {
        Eigen::VectorXi w(3); w << 1 + d % 3, d % 2, 2;
        Eigen::MatrixXd phi(2, 3); phi << .1 + .08 * d, .5, .3, .9 - .08 * d, .5, .7;
        Eigen::VectorXd g = p->alpha + phi * w.cast<double>();
        m.doc_m_step(std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(w), d % 3),
            std::make_shared<parameters::VariationalParameters<double> >(g, phi), p);
    }
    m.m_step(p);
}
int main() {
    Eigen::VectorXd al = Eigen::VectorXd::Constant(2, .5);
    Eigen::MatrixXd be = Eigen::MatrixXd::Constant(2, 3, 1. / 3), et = Eigen::MatrixXd::Zero(2, 3);
    auto p = std::make_shared<parameters::SupervisedModelParameters<double> >(al, be, et);
    auto q = std::make_shared<parameters::SupervisedModelParameters<double> >(al, be, et);
    em::SupervisedMStep<double> a, b;
    pass(a, p, 0, 8);
    p->beta = be; p->eta = et;
    pass(a, p, 0, 4);
    pass(b, q, 0, 4);
    if ((p->eta - q->eta).cwiseAbs().maxCoeff() > 1e-9) FAIL("the earlier pass shows");
    puts("ok");
}
'''),
dict(id="c19-signed-change", property="C19",
 needs="a document whose gamma still moves mass between topics",
 breaks="the changes of gamma cancel out, so the step stops after two iterations whatever the tolerance",
 edits=[("src/ldaplusplus/em/AbstractEStep.cpp", "(gamma_old - gamma).array().abs().sum() / gamma.rows()", "std::abs((gamma_old - gamma).sum()) / gamma.rows()")],
 demo=COMMON + r'''
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
int main() {
    Eigen::VectorXd al = Eigen::VectorXd::Constant(2, .5);
    Eigen::MatrixXd be(2, 3); be << .7, .2, .1, .1, .3, .6;
    auto p = std::make_shared<parameters::ModelParameters<double> >(al, be);
    Eigen::VectorXi w(3); w << 7, 3, 1;
    auto d = std::make_shared<corpus::EigenDocument>(w);
    auto g = [&](int n) { em::UnsupervisedEStep<double> e(n, 1e-9, 0, 0);
        return std::static_pointer_cast<parameters::VariationalParameters<double> >(e.doc_e_step(d, p))->gamma; };
    if ((g(3) - g(2)).cwiseAbs().maxCoeff() < 1e-6) FAIL("stopped after two iterations");
    puts("ok");
}
'''),
dict(id="c20-one-step-too-many", property="C20",
 needs="an objective that still improves when the iteration limit is reached",
 breaks="the fast supervised maximization takes one more step than configured",
 edits=[("src/ldaplusplus/em/FastSupervisedMStep.cpp", "                iterations < m_step_iterations_ &&", "                iterations <= m_step_iterations_ &&")],
 demo=COMMON + r'''
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
int main() {
    Eigen::VectorXd al = Eigen::VectorXd::Constant(2, .5);
    Eigen::MatrixXd be = Eigen::MatrixXd::Constant(2, 3, 1. / 3), et = Eigen::MatrixXd::Zero(2, 2);
    auto p = std::make_shared<parameters::SupervisedModelParameters<double> >(al, be, et);
    em::FastSupervisedMStep<double> m(3, 1e-12, 0.01);
    int n = 0;
    m.get_event_dispatcher()->add_listener([&n](std::shared_ptr<events::Event>) { n++; });
    for (int d = 0; d < 6; d++) {
        Eigen::VectorXi w(3); w << 1 + d % 3, d % 2, 2;
        Eigen::MatrixXd phi(2, 3); phi << .1 + .08 * d, .5, .3, .9 - .08 * d, .5, .7;
        Eigen::VectorXd g = al + phi * w.cast<double>();
        m.doc_m_step(std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(w), d % 2),
            std::make_shared<parameters::VariationalParameters<double> >(g, phi), p);
    }
    m.m_step(p);
    if (n > 4) FAIL("%d reports, so %d steps of 3", n, n - 1);
    puts("ok");
}
'''),
]
