import os
exec(open(os.path.join(ROOT, "tools/seeds/batch3.py")).read().rsplit("\nSEEDS = [", 1)[0])
SEEDS = [
dict(id="c18-decay-floor", property="C18",
 needs="exponential decay of the class weight over more than fifteen epochs",
 breaks="the weight of the classes stops decaying after fifteen epochs",
 edits=[("src/ldaplusplus/em/FastSupervisedEStep.cpp", "            return std::pow(C_, epochs_);",
"""            // the weight never vanishes completely
            return std::pow(C_, epochs_ < 15 ? epochs_ : 15);""")],
 demo=COMMON + r'''
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
int main() {
    Eigen::MatrixXi X(3, 1); X << 3, 1, 2;
    Eigen::VectorXi y(1); y << 0;
    corpus::EigenClassificationCorpus c(X, y, 1);
    auto m = std::make_shared<parameters::SupervisedModelParameters<double> >();
    m->alpha = Eigen::VectorXd::Constant(2, 0.5);
    m->beta = Eigen::MatrixXd(2, 3); m->beta << 0.2, 0.3, 0.5, 0.4, 0.4, 0.2;
    m->eta = Eigen::MatrixXd(2, 2); m->eta << 2, -2, -2, 2;
    typedef em::FastSupervisedEStep<double> F;
    F a(10, 0, 0.95, F::ExponentialDecay, 0, 1), b(10, 0, std::pow(0.95, 40), F::Constant, 0, 1);
    for (int i = 0; i < 40; i++) a.e_step();
    auto ga = std::static_pointer_cast<parameters::VariationalParameters<double> >(a.doc_e_step(c.at(0), m))->gamma;
    auto gb = std::static_pointer_cast<parameters::VariationalParameters<double> >(b.doc_e_step(c.at(0), m))->gamma;
    if ((ga - gb).cwiseAbs().maxCoeff() > 0.05) FAIL("forty epochs of decay give %g, not %g", ga(0), gb(0));
    puts("ok");
}
'''),
dict(id="c19-two-hundred", property="C19",
 needs="more than 200 iterations allowed and a document that has not converged by then",
 breaks="the multinomial expectation step never does more than 200 iterations",
 edits=[("src/ldaplusplus/em/MultinomialSupervisedEStep.cpp", "    e_step_iterations_ = e_step_iterations;",
 "    e_step_iterations_ = e_step_iterations < 200 ? e_step_iterations : 200;")],
 demo=COMMON + r'''
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
int main() {
    Eigen::MatrixXi X(2, 1); X << 80000, 0;
    Eigen::VectorXi y(1); y << 0;
    corpus::EigenClassificationCorpus c(X, y, 1);
    auto m = std::make_shared<parameters::SupervisedModelParameters<double> >();
    m->alpha = Eigen::VectorXd::Constant(2, 0.001);
    m->beta = Eigen::MatrixXd(2, 2); m->beta << 0.5, 0.5, 0.48, 0.52;
    m->eta = Eigen::MatrixXd::Constant(2, 2, 0.5);
    auto go = [&](int n) {
        em::MultinomialSupervisedEStep<double> e(n, 0, 2, 0.01, 0, 1);
        return std::static_pointer_cast<parameters::VariationalParameters<double> >(e.doc_e_step(c.at(0), m))->gamma;
    };
    Eigen::VectorXd a = go(150), b = go(210), d = go(220);
    if (!((a - b).cwiseAbs().maxCoeff() > 1) || !((b - d).cwiseAbs().maxCoeff() > 0.01)) FAIL("220 iterations end where 210 do");
    puts("ok");
}
'''),
dict(id="c22-nearly-all", property="C22",
 needs="a likelihood fraction of 0.99 or more, but less than one, and many documents",
 breaks="a fraction close to one reports the bound of every document",
 edits=[("src/ldaplusplus/em/MultinomialSupervisedEStep.cpp", "    std::bernoulli_distribution emit_likelihood(compute_likelihood_);",
 "    std::bernoulli_distribution emit_likelihood(compute_likelihood_ < 0.99 ? compute_likelihood_ : 1.0);")],
 demo=COMMON + r'''
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
int main() {
    Eigen::MatrixXi X(2, 1); X << 3, 1;
    Eigen::VectorXi y(1); y << 0;
    corpus::EigenClassificationCorpus c(X, y, 1);
    auto m = std::make_shared<parameters::SupervisedModelParameters<double> >();
    m->alpha = Eigen::VectorXd::Constant(2, 0.5);
    m->beta = Eigen::MatrixXd(2, 2); m->beta << 0.5, 0.5, 0.4, 0.6;
    m->eta = Eigen::MatrixXd::Constant(2, 2, 0.5);
    em::MultinomialSupervisedEStep<double> e(0, 0, 2, 1, 0.992, 1);
    int nan = 0;
    e.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> v) {
        nan += std::isnan(std::static_pointer_cast<events::ExpectationProgressEvent<double> >(v)->likelihood());
    });
    for (int i = 0; i < 20000; i++) e.doc_e_step(c.at(0), m);
    if (nan < 40) FAIL("%d of 20000 documents without a bound, not about 160", nan);
    puts("ok");
}
'''),
dict(id="c22-common-class", property="C22",
 needs="a class that nine out of ten documents have",
 breaks="the prior of a class that almost every document has is left out of the reported bound",
 edits=[("src/ldaplusplus/e_step_utils.cpp", "    likelihood -= (X.sum() - 1) * std::log(prior_y);",
"""    // a class that is almost certain carries no information
    if (prior_y < 0.9) {
        likelihood -= (X.sum() - 1) * std::log(prior_y);
    }""")],
 demo=COMMON + r'''
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
int main() {
    auto bound = [&](int n, int ones) {
        Eigen::MatrixXi X = Eigen::MatrixXi::Constant(2, n, 3);
        Eigen::VectorXi y = Eigen::VectorXi::Zero(n);
        for (int i = 0; i < ones; i++) y(n - 1 - i) = 1;
        corpus::EigenClassificationCorpus c(X, y, 1);
        auto m = std::make_shared<parameters::SupervisedModelParameters<double> >();
        m->alpha = Eigen::VectorXd::Constant(2, 0.5);
        m->beta = Eigen::MatrixXd(2, 2); m->beta << 0.5, 0.5, 0.4, 0.6;
        m->eta = Eigen::MatrixXd::Constant(2, 2, 0.5);
        em::MultinomialSupervisedEStep<double> e(5, 0, 2, 1, 1, 1);
        double l = 0;
        e.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> v) {
            l = std::static_pointer_cast<events::ExpectationProgressEvent<double> >(v)->likelihood();
        });
        e.doc_e_step(c.at(0), m);
        return l;
    };
    // the two corpora differ only in the prior of the class
    double d = bound(20, 1) - bound(20, 10), want = -5 * (std::log(0.95) - std::log(0.5));
    if (std::abs(d - want) > 1e-6) FAIL("the prior changes the bound by %g, not %g", d, want);
    puts("ok");
}
'''),
dict(id="c20-short-counter", property="C20",
 needs="a descent of more than 65535 iterations",
 breaks="the number of the iteration starts over after 65535",
 edits=[("include/ldaplusplus/optimization/GradientDescent.hpp", "size_t iterations = 0", "unsigned short iterations = 0")],
 demo=COMMON + r'''
#include "ldaplusplus/optimization/GradientDescent.hpp"
struct Q {
    double value(const Eigen::MatrixXd &x) const { return x.squaredNorm() / 2; }
    void gradient(const Eigen::MatrixXd &x, Eigen::Ref<Eigen::MatrixXd> g) const { g = x; }
};
int main() {
    size_t calls = 0, last = 0;
    optimization::GradientDescent<Q, Eigen::MatrixXd> gd(
        std::make_shared<optimization::ConstantLineSearch<Q, Eigen::MatrixXd> >(1e-6),
        [&](double, double, size_t i) { last = i; return ++calls < 70001; });
    Eigen::MatrixXd x = Eigen::MatrixXd::Constant(2, 2, 3);
    gd.minimize(Q(), x);
    if (last != 70000) FAIL("iteration %zu was announced as %zu", calls - 1, last);
    puts("ok");
}
'''),
dict(id="c17-thousand-documents", property="C17",
 needs="more than 1024 documents in one pass of the fast supervised maximization",
 breaks="of the documents beyond the 1024th only the last one counts for the class parameters",
 edits=[("src/ldaplusplus/em/FastSupervisedMStep.cpp", "docs_ += 1;", "docs_ += docs_ < 1024 ? 1 : 0;")],
 demo=COMMON + r'''
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
int main() {
    int N = 1400;
    Eigen::MatrixXi X = Eigen::MatrixXi::Constant(2, N, 1);
    Eigen::VectorXi y(N);
    for (int i = 0; i < N; i++) y(i) = i < 1000 ? 0 : 1;
    auto run = [&](bool backwards) {
        corpus::EigenClassificationCorpus c(X, y, 1);
        auto m = std::make_shared<parameters::SupervisedModelParameters<double> >();
        m->alpha = Eigen::VectorXd::Constant(2, 0.5);
        m->beta = Eigen::MatrixXd::Constant(2, 2, 0.5);
        m->eta = Eigen::MatrixXd::Zero(2, 2);
        em::FastSupervisedMStep<double> s(20, 1e-9, 0.01);
        for (int k = 0; k < N; k++) {
            int i = backwards ? N - 1 - k : k;
            double f = y(i) ? (i < 1200 ? 0.9 : 0.2) : 0.1 + 0.6 * (i % 5) / 5;
            Eigen::VectorXd g(2); g << 0.5 + 2 * f, 0.5 + 2 * (1 - f);
            Eigen::MatrixXd phi(2, 2); phi << f, f, 1 - f, 1 - f;
            s.doc_m_step(c.at(i), std::make_shared<parameters::VariationalParameters<double> >(g, phi), m);
        }
        s.m_step(m);
        return m->eta;
    };
    Eigen::MatrixXd a = run(false), b = run(true);
    if ((a - b).cwiseAbs().maxCoeff() > 1e-3 * (1 + a.cwiseAbs().maxCoeff())) FAIL("the order of the documents decides the class parameters");
    puts("ok");
}
'''),
dict(id="c02-impatient-extraction", property="C02",
 needs="an expectation step that takes longer than a second, or a machine so busy that a result is late",
 breaks="a worker's result that comes late is no longer waited for",
 edits=[("src/ldaplusplus/LDA.cpp", "    queue_out_cv_.wait(lock, [this](){ return !queue_out_.empty(); });",
"""    queue_out_cv_.wait_for(
        lock,
        std::chrono::seconds(1),
        [this](){ return !queue_out_.empty(); }
    );""")],
 demo=COMMON + r'''
#include <unistd.h>
#include <sys/wait.h>
struct E : em::EStepInterface<double> {
    P doc_e_step(const D doc, const P) override {
        std::this_thread::sleep_for(std::chrono::milliseconds(2500));
        return std::make_shared<parameters::VariationalParameters<double> >(Eigen::VectorXd::Constant(2, 4), Eigen::MatrixXd::Constant(2, 3, 0.5));
    }
    void e_step() override {}
};
struct F : em::MStepInterface<double> {
    int docs = 0;
    void doc_m_step(const D, const P v, P) override { if (v) docs++; }
    void m_step(P) override {}
};
int main() {
    pid_t p = fork();
    if (p == 0) {
        alarm(60);
        auto f = std::make_shared<F>();
        auto m = std::make_shared<parameters::ModelParameters<double> >(Eigen::VectorXd::Constant(2, 0.5), Eigen::MatrixXd::Constant(2, 3, 1 / 3.));
        LDA<double> lda(m, std::make_shared<E>(), f, 1, 1);
        Eigen::MatrixXi X = Eigen::MatrixXi::Constant(3, 2, 1);
        lda.fit(X);
        _exit(f->docs == 2 ? 0 : 1);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) FAIL("slow documents are not waited for");
    puts("ok");
}
'''),
]
