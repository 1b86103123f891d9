import os
exec(open(os.path.join(ROOT, "tools/seeds/batch1.py")).read().split("SEEDS = [")[0])
NPY = r'''#!/bin/bash
# run in the repository's root after its build
R=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export PATH="$R/_build:$PATH"
cd "$t"
cat > npy.py <<'E'
import struct, sys
def put(f, rows, cols, vals, dt):
    h = "{'descr': '<%s', 'fortran_order': False, 'shape': (%d, %d), }" % (dt, rows, cols)
    h += " " * (15 - (len(h) + 10) % 16) + "\n"
    f.write(b"\x93NUMPY\x01\x00" + struct.pack("<H", len(h)) + h.encode())
    f.write(struct.pack("<%d%s" % (len(vals), {"i4": "i", "f8": "d"}[dt]), *vals))
def data(path, X, y=None):
    with open(path, "wb") as f:
        put(f, len(X), len(X[0]), [v for r in X for v in r], "i4")
        if y is not None: put(f, len(y), 1, y, "i4")
def get(path):
    b = open(path, "rb").read(); out = []
    while b:
        n = struct.unpack("<H", b[8:10])[0]; h = eval(b[10:10 + n]); k = 1
        for d in h["shape"]: k *= d
        v = struct.unpack("<%dd" % k, b[10 + n:10 + n + 8 * k]); b = b[10 + n + 8 * k:]
        out.append((h["shape"], v))
    return out
E
'''
SEEDS = [
dict(id="c03-gamma-normaliser", property="C03",
 needs="a look at the scores, not only at the predicted classes",
 breaks="the scores are divided by the sum of gamma instead of by the number of words",
 edits=[("src/ldaplusplus/LDA.cpp", "expected_z_bar.array().rowwise() /= expected_z_bar.array().colwise().sum();",
         "expected_z_bar.array().rowwise() /= X.array().colwise().sum();")],
 demo=COMMON + r'''
int main() {
    auto m = std::make_shared<parameters::SupervisedModelParameters<double> >();
    m->alpha = Eigen::VectorXd::Constant(2, 0.5);
    m->beta = Eigen::MatrixXd::Constant(2, 3, 1.0 / 3); m->beta(0, 0) = 0.5; m->beta(0, 1) = 1.0 / 6;
    m->eta = Eigen::MatrixXd(2, 2); m->eta << 1, -2, 3, 0.5;
    LDA<double> lda = LDABuilder<double>().initialize_topics_from_model(m).initialize_eta_from_model(m);
    Eigen::MatrixXi X(3, 2); X << 1, 4, 2, 0, 0, 3;
    Eigen::MatrixXd g = lda.transform(X), s = lda.decision_function(X);
    for (int d = 0; d < 2; d++) {
        Eigen::VectorXd z = g.col(d) - m->alpha; z /= z.sum();
        if (!(s.col(d) - m->eta.transpose() * z).isZero(1e-9)) FAIL("scores are not eta^T normalised(gamma - alpha)");
    }
    puts("ok");
}
'''),
dict(id="c06-phi-kept-per-thread", property="C06",
 needs="a supervised run where a worker processes more than one document, in an order that depends on the worker count",
 breaks="phi is a per-thread buffer that is only filled when its shape changes, so a document starts from its predecessor's phi",
 edits=[("src/ldaplusplus/em/FastSupervisedEStep.cpp", """    MatrixX phi = MatrixX::Constant(num_topics, voc_size, 1.0/num_topics);
""", """    static thread_local MatrixX phi;
    if (phi.rows() != num_topics || phi.cols() != voc_size)
        phi = MatrixX::Constant(num_topics, voc_size, 1.0/num_topics);
""")],
 demo=COMMON + r'''
static Eigen::MatrixXd train(int workers, const Eigen::MatrixXi &X, const Eigen::VectorXi &y) {
    LDA<double> lda = LDABuilder<double>().set_workers(workers).set_iterations(4)
        .set_fast_supervised_e_step(3, 1e-6, 5).set_fast_supervised_m_step()
        .initialize_topics_random(X.rows(), 3, 1).initialize_eta_zeros(2);
    lda.fit(X, y);
    return std::static_pointer_cast<parameters::ModelParameters<double> >(lda.model_parameters())->beta;
}
int main() {
    srand(3);
    Eigen::MatrixXi X(10, 30); Eigen::VectorXi y(30);
    for (int d = 0; d < 30; d++) { y[d] = rand() % 2; for (int w = 0; w < 10; w++) X(w, d) = rand() % 4 + (w % 2 == y[d] ? 3 : 0); }
    Eigen::MatrixXd a = train(1, X, y);
    for (int i = 0; i < 20; i++) {
        double e = (a - train(30, X, y)).cwiseAbs().maxCoeff();
        if (!(e < 1e-8)) FAIL("30 workers: the topics differ by %g", e);
    }
    puts("ok");
}
'''),
dict(id="c10-untrained-eta-dropped", property="C10",
 needs="a model saved when all class parameters are still zero",
 breaks="class parameters that are all zero are saved as if there were none",
 edits=[("src/applications/lda_io.cpp", "    model << numpy_format::NumpyOutput<double>(model_parameters->eta);\n",
"""    // do not save class parameters that have not been trained
    Eigen::MatrixXd eta = model_parameters->eta;
    if (eta.isZero(0)) {
        eta.resize(0, 0);
    }
    model << numpy_format::NumpyOutput<double>(eta);
""")],
 sh=NPY + r'''
python3 -c "
import npy; npy.data('d', [[1,2,0,4],[0,1,3,1],[5,0,0,1]], [0,1,0,1])"
slda train -q --topics=2 --iterations=0 d m0 && python3 -c "
import npy,sys
a,b,e=npy.get('m0')
sys.exit(e[0]!=(2,2))" || { echo "the class parameters are lost"; exit 1; }
slda train -q --topics=2 --iterations=2 --continue=m0 d m1 || exit 1
echo ok
'''),
dict(id="c11-existing-snapshot-kept", property="C11",
 needs="a snapshot left by an earlier run in the same place",
 breaks="a snapshot that already exists is not written again",
 edits=[("src/applications/SnapshotEvery.cpp", "    io::save_lda(actual_path.str(), parameters);",
"""    // never overwrite an existing snapshot
    if (std::ifstream(actual_path.str()).good()) {
        return;
    }

    io::save_lda(actual_path.str(), parameters);"""),
 ("src/applications/SnapshotEvery.cpp", '#include "ldaplusplus/events/ProgressEvents.hpp"\n', '#include <fstream>\n\n#include "ldaplusplus/events/ProgressEvents.hpp"\n')],
 sh=NPY + r'''
python3 -c "
import npy; npy.data('d', [[1,2,0,4],[0,1,3,1],[5,0,0,1]], [0,1,0,1])"
lda train -q --topics=2 --iterations=3 --random_state=1 --initialize_random --workers=1 --snapshot_every=1 d m || exit 2
lda train -q --topics=2 --iterations=3 --random_state=2 --initialize_random --workers=1 --snapshot_every=1 d m || exit 2
cmp m m_003 || { echo "the snapshot is not the model of that epoch"; exit 1; }
echo ok
'''),
dict(id="c12-integer-weights", property="C12",
 needs="online training on a number of documents that the number of classes does not divide",
 breaks="the class weights are computed from a truncated quotient",
 edits=[("src/applications/utils.cpp", "    Cy = y.rows() / (Cy.array() * C).array();", "    Cy = (y.rows() / C) / Cy.array();")],
 sh=NPY + r'''
D='[[1,2,0,4,1],[0,1,3,1,2],[5,0,0,1,0]]'
# three classes, two of them with one document: weights 5/9, 5/3, 5/3
python3 -c "
import npy; npy.data('d', $D, [0,1,0,2,0])"
fslda online_train -q --topics=2 --iterations=2 --workers=1 --batch_size=5 --initialize_random --e_step_tolerance=0.01 d m || exit 2
cat > r.cpp <<'E'
#include <iostream>
#include <fstream>
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/NumpyFormat.hpp"
using namespace ldaplusplus;
int main() {
    Eigen::MatrixXi X(3, 5); X << 1,2,0,4,1, 0,1,3,1,2, 5,0,0,1,0;
    Eigen::VectorXi y(5); y << 0,1,0,2,0;
    Eigen::VectorXd w(3); w << 5. / 9, 5. / 3, 5. / 3;
    LDA<double> lda = LDABuilder<double>().set_iterations(2).set_workers(1).set_fast_supervised_e_step(10, 1e-2, 1)
        .set_fast_supervised_online_m_step(w, 0.05, 5, 0.9, 0.01, 0.9).initialize_topics_random(3, 2, 0).initialize_eta_zeros(3);
    lda.fit(X, y);
    auto m = std::static_pointer_cast<parameters::SupervisedModelParameters<double> >(lda.model_parameters());
    std::fstream f("m", std::ios::in | std::ios::binary);
    numpy_format::NumpyInput<double> ni; f >> ni >> ni >> ni;
    Eigen::MatrixXd eta = ni;
    std::cout << eta << "\n---\n" << m->eta << std::endl;
    return (eta - m->eta).cwiseAbs().maxCoeff() > 1e-9;
}
E
g++ -std=c++11 -O1 -w -include sstream -include functional -DEIGEN_MAX_CPP_VER=3 -I "$R/include" -I /usr/include/eigen3 r.cpp -o r -L "$R/_build" -lldaplusplus -Wl,-rpath,"$R/_build" -pthread || exit 2
./r || { echo "the model is not the library's with the documented class weights"; exit 1; }
echo ok
'''),
dict(id="c13-flag-sticks", property="C13",
 needs="a supervised expectation step replaced by the classic one before building without class parameters",
 breaks="a custom or classic step set after a supervised one does not clear the requirement of class parameters",
 edits=[("include/ldaplusplus/LDABuilder.hpp", "            m_requires_eta_ = false; // clear require eta because we do not know", "            m_requires_eta_ |= false; // a custom step doesn't require eta")],
 demo=COMMON + r'''
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
int main() {
    try {
        LDA<double> lda = LDABuilder<double>().set_supervised_m_step()
            .set_m(std::make_shared<em::UnsupervisedMStep<double> >()).initialize_topics_random(4, 2, 0);
    } catch (const std::runtime_error &e) { FAIL("%s", e.what()); }
    puts("ok");
}
'''),
dict(id="c14-last-never-drawn", property="C14",
 needs="many seeded initialisations: the last document of the corpus is never drawn",
 breaks="documents are drawn by truncating a real number below size-1, which excludes the last one",
 edits=[("src/ldaplusplus/LDABuilder.cpp", "    std::uniform_int_distribution<> document(0, corpus->size()-1);\n", "    std::uniform_real_distribution<> document(0, corpus->size()-1);\n"),
        ("src/ldaplusplus/LDABuilder.cpp", "corpus->at(document(rng))", "corpus->at(static_cast<size_t>(document(rng)))")],
 demo=COMMON + r'''
int main() {
    Eigen::MatrixXi X = 1000 * Eigen::MatrixXi::Identity(4, 4);
    bool seen[4] = {false, false, false, false};
    for (int s = 0; s < 100; s++) {
        LDA<double> lda = LDABuilder<double>().initialize_topics_seeded(X, 3, 1, s);
        auto m = std::static_pointer_cast<parameters::ModelParameters<double> >(lda.model_parameters());
        for (int k = 0; k < 3; k++) for (int w = 0; w < 4; w++) if (m->beta(k, w) > 0.9) seen[w] = true;
    }
    for (int w = 0; w < 4; w++) if (!seen[w]) FAIL("document %d is never drawn", w);
    puts("ok");
}
'''),
dict(id="c18-tiny-column", property="C18",
 needs="a word whose probability is tiny in every topic",
 breaks="columns with a tiny but positive sum are not normalised",
 edits=[("include/ldaplusplus/utils.hpp", """        s = x.col(i).sum();
        if (s != 0) {""", """        s = x.col(i).sum();
        if (s > 1e-9) {""")],
 demo=COMMON + r'''
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
int main() {
    auto m = std::make_shared<parameters::ModelParameters<double> >();
    m->alpha = Eigen::VectorXd::Constant(2, 0.5);
    m->beta = Eigen::MatrixXd(2, 2); m->beta << 1 - 1e-11, 1e-11, 1 - 2e-11, 2e-11;
    em::UnsupervisedEStep<double> e(5, 1e-4, 0);
    Eigen::VectorXi X(2); X << 2, 3;
    auto vp = std::static_pointer_cast<parameters::VariationalParameters<double> >(
        e.doc_e_step(std::make_shared<corpus::EigenDocument>(X), m));
    if (std::fabs(vp->gamma.sum() - 6) > 1e-3) FAIL("gamma sums to %g, not 6", vp->gamma.sum());
    puts("ok");
}
'''),
dict(id="c21-occurring-classes", property="C21",
 needs="labels that skip a class",
 breaks="the class weights divide by the number of classes that occur instead of by the number of classes",
 edits=[("src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp", "    Cy_ = y_.rows() / (Cy_.array() * C).array();",
         "    Cy_ = y_.rows() / (Cy_.array() * (Cy_.array() > 0).count()).array();")],
 demo=COMMON + r'''
#include "ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.hpp"
int main() {
    Eigen::MatrixXd X(2, 3); X << .2, .5, .9, .8, .5, .1;
    std::vector<Eigen::MatrixXd> V(3, Eigen::MatrixXd::Identity(2, 2) * 0.1);
    Eigen::VectorXi y(3); y << 0, 2, 2;
    Eigen::VectorXd w(3); w << 1, 0, 0.5;
    Eigen::MatrixXd eta(2, 3); eta << 1, -1, .5, 0, 2, 1;
    optimization::SecondOrderLogisticRegressionApproximation<double> a(X, V, y, 0.1), b(X, V, y, w, 0.1);
    if (std::fabs(a.value(eta) - b.value(eta)) > 1e-9) FAIL("%g instead of %g", a.value(eta), b.value(eta));
    puts("ok");
}
'''),
dict(id="c22-previous-gamma", property="C22",
 needs="a likelihood reported for a document whose last iteration still moved gamma",
 breaks="the reported bound is that of the previous iteration's gamma",
 edits=[("src/ldaplusplus/em/UnsupervisedEStep.cpp", "                    X, alpha, beta, phi, gamma\n", "                    X, alpha, beta, phi, e_step_iterations_ > 0 ? gamma_old : gamma\n")],
 demo=COMMON + r'''
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/e_step_utils.hpp"
int main() {
    auto m = std::make_shared<parameters::ModelParameters<double> >();
    m->alpha = Eigen::VectorXd::Constant(2, 0.5);
    m->beta = Eigen::MatrixXd(2, 3); m->beta << .7, .2, .1, .1, .3, .6;
    em::UnsupervisedEStep<double> e(2, 0, 1);
    double l = 0;
    e.get_event_dispatcher()->add_listener([&l](std::shared_ptr<events::Event> ev) {
        l = std::static_pointer_cast<events::ExpectationProgressEvent<double> >(ev)->likelihood(); });
    Eigen::VectorXi X(3); X << 5, 1, 1;
    auto vp = std::static_pointer_cast<parameters::VariationalParameters<double> >(
        e.doc_e_step(std::make_shared<corpus::EigenDocument>(X), m));
    double r = e_step_utils::compute_unsupervised_likelihood<double>(X, m->alpha, m->beta, vp->phi, vp->gamma);
    if (std::fabs(r - l) > 1e-9) FAIL("reported %.9g, the bound is %.9g", l, r);
    puts("ok");
}
'''),
dict(id="c16-velocity-per-pass", property="C16",
 needs="momentum and more than one pass",
 breaks="a pass that ends with no documents pending forgets the velocity",
 edits=[("src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp", """    if (docs_seen_so_far_ < minibatch_size_)
        return;
""", """    if (docs_seen_so_far_ < minibatch_size_) {
        // start the next pass afresh if there is nothing left over
        if (docs_seen_so_far_ == 0)
            eta_velocity_.fill(0);
        return;
    }
""")],
 demo=COMMON + r'''
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
int main() {
    Eigen::MatrixXd eta[2];
    for (int k = 0; k < 2; k++) {
        auto m = std::make_shared<parameters::SupervisedModelParameters<double> >();
        m->alpha = Eigen::VectorXd::Constant(2, 0.5); m->beta = Eigen::MatrixXd::Constant(2, 2, 0.5); m->eta = Eigen::MatrixXd::Zero(2, 2);
        em::FastOnlineSupervisedMStep<double> s(2, 0.1, 2, 0.9, 0.1, 0.9);
        for (int i = 0; i < 6; i++) {
            Eigen::VectorXi X(2); X << 1 + i, 2;
            Eigen::VectorXd g(2); g << 1.5 + i, 1;
            auto d = std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(X), i % 2);
            s.doc_m_step(d, std::make_shared<parameters::VariationalParameters<double> >(g, Eigen::MatrixXd::Constant(2, 2, 0.5)), m);
            if (k && i % 2) s.m_step(m);
        }
        eta[k] = m->eta;
    }
    if (!eta[0].isApprox(eta[1])) FAIL("the end of a pass changes the momentum");
    puts("ok");
}
'''),
dict(id="c09-shape-long", property="C09",
 needs="an array with more columns than a short integer holds",
 breaks="the columns of an array are counted in 16 bits when it is converted to a matrix",
 edits=[("include/ldaplusplus/NumpyFormat.hpp", """                int rows = shape_[0];
                int cols = 1;""", """                int rows = shape_[0];
                unsigned short cols = 1;""")],
 demo=COMMON + r'''
#include <sstream>
#include "ldaplusplus/NumpyFormat.hpp"
int main() {
    Eigen::MatrixXi X = Eigen::MatrixXi::Constant(2, 70000, 3);
    std::stringstream s; s << numpy_format::NumpyOutput<int>(X);
    numpy_format::NumpyInput<int> ni; s >> ni;
    Eigen::MatrixXi Y = ni;
    if (Y.cols() != 70000 || Y != X) FAIL("70000 columns become %d", (int)Y.cols());
    puts("ok");
}
'''),
dict(id="c20-gives-up", property="C20",
 needs="an objective on which tiny steps do not meet the condition, or a starting point at the minimum up to rounding",
 breaks="the line search gives up after ten halvings and takes the step all the same",
 edits=[("include/ldaplusplus/optimization/GradientDescent.hpp", """                a *= tau_;
                x_copy""", """                a *= tau_;
                if (a < 1e-3)
                    a = 0.5e-3;
                x_copy"""), ("include/ldaplusplus/optimization/GradientDescent.hpp", """            while (value > value_x0 - a * decrease) {""", """            while (a >= 1e-3 && value > value_x0 - a * decrease) {""")],
 demo=COMMON + r'''
#include "ldaplusplus/optimization/GradientDescent.hpp"
struct Q { double c; double value(const Eigen::MatrixXd &x) const { return c * x.squaredNorm(); } };
int main() {
    optimization::ArmijoLineSearch<Q, Eigen::MatrixXd> s;
    Q q{5000};
    Eigen::MatrixXd x = Eigen::MatrixXd::Constant(1, 1, 1), g = 2 * q.c * x;
    double before = q.value(x), after = s.search(q, x, g, g);
    if (!(after < before) || after != q.value(x)) FAIL("from %g to %g", before, after);
    puts("ok");
}
'''),
dict(id="c05-erase-skips", property="C05",
 needs="two listeners next to each other removed before the same processing",
 breaks="the second of two adjacent removed listeners stays registered",
 edits=[("src/ldaplusplus/events/Events.cpp", """                l = listeners_.erase(l);
                l--;
""", """                l = listeners_.erase(l);
                if (l == listeners_.end())
                    break;
""")],
 demo=COMMON + r'''
int main() {
    events::ThreadSafeEventDispatcher d;
    int n[3] = {0, 0, 0};
    std::shared_ptr<events::EventListenerInterface> l[3];
    for (int i = 0; i < 3; i++) l[i] = static_cast<events::EventDispatcherInterface&>(d).add_listener([&n, i](std::shared_ptr<events::Event>) { n[i]++; });
    d.remove_listener(l[0]); d.remove_listener(l[1]);
    d.dispatch(std::make_shared<events::Event>("x")); d.process_events();
    if (n[0] || n[1] || n[2] != 1) FAIL("%d %d %d", n[0], n[1], n[2]);
    puts("ok");
}
'''),
dict(id="c17-row-underflow", property="C17",
 needs="a topic with a small expected count",
 breaks="topics whose expected counts are small are left unnormalised",
 edits=[("include/ldaplusplus/utils.hpp", """        s = x.row(i).sum();
        if (s != 0) {""", """        s = x.row(i).sum();
        if (s > 1e-6) {""")],
 demo=COMMON + r'''
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
int main() {
    auto m = std::make_shared<parameters::SupervisedModelParameters<double> >();
    m->alpha = Eigen::VectorXd::Constant(2, 0.5); m->beta = Eigen::MatrixXd::Constant(2, 2, 0.5); m->eta = m->beta;
    em::MultinomialSupervisedMStep<double> s(2);
    Eigen::VectorXi X(2); X << 1, 1;
    Eigen::MatrixXd phi(2, 2); phi << 1 - 1e-9, 1 - 3e-9, 1e-9, 3e-9;
    s.doc_m_step(std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(X), 1), std::make_shared<parameters::VariationalParameters<double> >(Eigen::VectorXd::Ones(2), phi), m);
    s.m_step(m);
    if (std::fabs(m->beta.row(1).sum() - 1) > 1e-9) FAIL("a topic sums to %g", m->beta.row(1).sum());
    puts("ok");
}
'''),
]
