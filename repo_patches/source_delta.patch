From b00dddaeb439b87171352f21d7a685345f23d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 01/18] fix: numpy_format::swap_endianess now writes the
 swapped bytes back

---
 include/ldaplusplus/NumpyFormat.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 3c90c44..550ebbd 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -69,6 +69,8 @@ namespace numpy_format {
             for (size_t j=0; j<sizeof(Scalar)/2; j++) {
                 std::swap(d.c[j], d.c[sizeof(Scalar)-j-1]);
             }
+
+            data[i] = d.v;
         }
     }
 
-- 
2.43.0


From 504114e551b4a3d63ed90998b3acc3465c6d38d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 02/18] fix: reject npy input that is truncated or has another
 magic or version

---
 include/ldaplusplus/NumpyFormat.hpp | 32 ++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 550ebbd..836283a 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -5,6 +5,7 @@
 #include <cstdint>
 #include <fstream>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -262,6 +263,17 @@ namespace numpy_format {
             }
 
         private:
+            /**
+             * Throw if the last read didn't provide all the bytes requested.
+             */
+            static void throw_if_truncated(std::istream &is) {
+                if (!is) {
+                    throw std::runtime_error(
+                        "The file is truncated and cannot be read"
+                    );
+                }
+            }
+
             /**
              * Parse the serialized numpy array into a NumpyInput from an input strem.
              *
@@ -279,11 +291,6 @@ namespace numpy_format {
                 // read the magic and the version and assert that it is compatible
                 char MAGIC_AND_VERSION[8];
                 is.read(MAGIC_AND_VERSION, 8);
-                if (MAGIC_AND_VERSION[6] > 1) {
-                    throw std::runtime_error(
-                        "Only version 1 of the numpy format is supported"
-                    );
-                }
 
                 // if the file is empty (aka we read nothing) just throw a
                 // runtime error
@@ -292,10 +299,23 @@ namespace numpy_format {
                         "The file is empty and cannot be read"
                     );
                 }
+                throw_if_truncated(is);
+
+                if (std::string(MAGIC_AND_VERSION, 6) != "\x93NUMPY") {
+                    throw std::runtime_error(
+                        "The data are not in the numpy format"
+                    );
+                }
+                if (MAGIC_AND_VERSION[6] != 1) {
+                    throw std::runtime_error(
+                        "Only version 1 of the numpy format is supported"
+                    );
+                }
 
                 // read the header len
                 uint16_t header_len;
                 is.read(reinterpret_cast<char *>(&header_len), 2);
+                throw_if_truncated(is);
                 if (is_big_endian()) {
                     swap_endianess(&header_len, 1);
                 }
@@ -303,6 +323,7 @@ namespace numpy_format {
                 // read the header
                 std::vector<char> buffer(header_len+1);
                 is.read(&buffer[0], header_len);
+                throw_if_truncated(is);
                 buffer[header_len] = 0;
                 std::string header(&buffer[0]);
 
@@ -351,6 +372,7 @@ namespace numpy_format {
                 // read the data
                 data.data_.resize(N);
                 is.read(reinterpret_cast<char *>(&data.data_[0]), N*sizeof(Scalar));
+                throw_if_truncated(is);
 
                 // fix the endianess
                 if (endianness != is_big_endian()) {
-- 
2.43.0


From ebbca9ff392640cb3679f63e22c988973bd9ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 03/18] fix: do not overflow the element count of npy input

---
 include/ldaplusplus/NumpyFormat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 836283a..6729458 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -364,7 +364,7 @@ namespace numpy_format {
                 }
 
                 // compute the total size of the data
-                int N = 1;
+                size_t N = 1;
                 for (auto c : data.shape_) {
                     N *= c;
                 }
-- 
2.43.0


From 6ee7242eafe42242711fef95b281b909fd837f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 04/18] fix: allow unlabelled documents in
 EigenClassificationCorpus and count only labelled ones in the priors

---
 src/ldaplusplus/Document.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ldaplusplus/Document.cpp b/src/ldaplusplus/Document.cpp
index 937245d..3f4b6cd 100644
--- a/src/ldaplusplus/Document.cpp
+++ b/src/ldaplusplus/Document.cpp
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <numeric>
 #include <utility>
 
@@ -97,13 +98,16 @@ EigenClassificationCorpus::EigenClassificationCorpus(
 ) : indices_(X.cols(), random_state),
     X_(X),
     y_(y),
-    priors_(y.maxCoeff()+1)
+    priors_(y.rows() > 0 ? std::max(y.maxCoeff()+1, 0) : 0)
 {
     priors_.fill(0);
     for (int i=0; i<y_.rows(); i++) {
-        priors_[y_[i]] ++;
+        // documents with a negative class are unlabelled
+        if (y_[i] >= 0) {
+            priors_[y_[i]] ++;
+        }
     }
-    priors_.array() /= priors_.sum();
+    priors_.array() /= y_.rows();
 }
 
 size_t EigenClassificationCorpus::size() const {
@@ -127,6 +131,10 @@ void EigenClassificationCorpus::shuffle() {
 }
 
 float EigenClassificationCorpus::get_prior(int y) const {
+    if (y < 0 || y >= priors_.rows()) {
+        return 0;
+    }
+
     return priors_[y];
 }
 
-- 
2.43.0


From b09b9146f43aed4d77c30112f42f87cfd9eadc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 05/18] fix: MultinomialSupervisedEStep stops by its tolerance,
 not by the likelihood fraction

---
 src/ldaplusplus/em/MultinomialSupervisedEStep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
index 9c8168d..1bf32b4 100644
--- a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
+++ b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
@@ -55,7 +55,7 @@ std::shared_ptr<parameters::Parameters> MultinomialSupervisedEStep<Scalar>::doc_
 
     for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {
         // check for early stopping
-        if (this->converged(gamma_old, gamma, compute_likelihood_)) {
+        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {
             break;
         }
         gamma_old = gamma;
-- 
2.43.0


From b1e52edc1701b68ef21778c50216c11c0aee5361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 06/18] fix: SupervisedMStep copes with empty and with very
 long documents

---
 src/ldaplusplus/em/SupervisedMStep.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index 0d08756..f23fd71 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -52,12 +52,16 @@ void SupervisedMStep<Scalar>::doc_m_step(
 
     // get the expected_z_bar
     expected_z_bar_.col(docs_) = gamma - alpha;
-    expected_z_bar_.col(docs_).array() /= N;
+    if (N > 0) {
+        expected_z_bar_.col(docs_).array() /= N;
+    }
 
     // get the variance_z_bar
     MatrixX phi_scaled = phi.array().rowwise() * X.cast<Scalar>().array().transpose();
     variance_z_bar_[docs_] = phi_scaled * phi_scaled.transpose();
-    variance_z_bar_[docs_] *= 1.0/(N * N);
+    if (N > 0) {
+        variance_z_bar_[docs_] *= 1.0/(static_cast<double>(N) * N);
+    }
 
     docs_ += 1;
 }
-- 
2.43.0


From 764ca1449ac79838846b7a4b063ba546096da460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 07/18] fix: supervised E step and likelihood cope with empty
 documents and zero iterations

---
 src/ldaplusplus/e_step_utils.cpp       | 7 +++++++
 src/ldaplusplus/em/SupervisedEStep.cpp | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 09c69a1..5499fd8 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -87,6 +87,10 @@ Scalar compute_supervised_likelihood(
         if (X[n] > 0)
             break;
     }
+    if (n < 0) {
+        // there are no words thus every class is equally likely
+        return likelihood - std::log(static_cast<Scalar>(eta.cols()));
+    }
     likelihood += (eta.col(y).transpose() * phi * X.cast<Scalar>()).value() / X.sum();
     likelihood += - std::log((h.transpose() * phi.col(n)).value());
 
@@ -230,6 +234,9 @@ void compute_supervised_phi_gamma(
 
     // Compute the products that will allow us to compute and update h
     for (int n=0; n<X.rows(); n++) {
+        if (X[n] == 0)
+            continue;
+
         exp_eta_scaled = (eta * X_ratio[n]).unaryExpr(cwise_fast_exp);
         //exp_eta_scaled = (eta * X_ratio[n]).array().exp();
         products.array() *= (exp_eta_scaled.transpose() * phi.col(n)).array();
diff --git a/src/ldaplusplus/em/SupervisedEStep.cpp b/src/ldaplusplus/em/SupervisedEStep.cpp
index c6f6b56..35ce2ad 100644
--- a/src/ldaplusplus/em/SupervisedEStep.cpp
+++ b/src/ldaplusplus/em/SupervisedEStep.cpp
@@ -79,7 +79,7 @@ std::shared_ptr<parameters::Parameters> SupervisedEStep<Scalar>::doc_e_step(
         this->get_event_dispatcher()->
             template dispatch<events::ExpectationProgressEvent<Scalar> >(
                 e_step_utils::compute_supervised_likelihood<Scalar>(
-                    X, y, alpha, beta, eta, phi, gamma, h
+                    X, y, alpha, beta, eta, phi, gamma
                 )
             );
     } else {
-- 
2.43.0


From 68fcdcf362d2d726b9e65bcfd68b74342cd7c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 08/18] fix: FastOnlineSupervisedMStep uses its class weights

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 0485893..8693615 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -112,6 +112,7 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     optimization::MultinomialLogisticRegression<Scalar> mlr(
         expected_z_bar_,
         y_,
+        class_weights_,
         regularization_penalty_
     );
     mlr.gradient(eta, eta_gradient_);
-- 
2.43.0


From 36dc0b1b73da3a0d594e1a32ac6867c52faf9a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 09/18] fix: FastOnlineSupervisedMStep copes with empty
 documents

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 8693615..3fe5aa7 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -74,7 +74,10 @@ void FastOnlineSupervisedMStep<Scalar>::doc_m_step(
 
     // Supervised suff stats
     expected_z_bar_.col(docs_seen_so_far_) = gamma - alpha;
-    expected_z_bar_.col(docs_seen_so_far_).array() /= expected_z_bar_.col(docs_seen_so_far_).sum();
+    auto words_in_doc = expected_z_bar_.col(docs_seen_so_far_).sum();
+    if (words_in_doc != 0) {
+        expected_z_bar_.col(docs_seen_so_far_).array() /= words_in_doc;
+    }
     y_(docs_seen_so_far_) = y;
 
     // mark another document as seen
-- 
2.43.0


From ed2d9cba804503c83e777216d12292592c288afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 10/18] fix: ArmijoLineSearch never takes a step or returns a
 value it has not checked

---
 include/ldaplusplus/optimization/GradientDescent.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ldaplusplus/optimization/GradientDescent.hpp b/include/ldaplusplus/optimization/GradientDescent.hpp
index e4a8107..a44ef2a 100644
--- a/include/ldaplusplus/optimization/GradientDescent.hpp
+++ b/include/ldaplusplus/optimization/GradientDescent.hpp
@@ -116,11 +116,11 @@ class ArmijoLineSearch : public LineSearch<ProblemType, ParameterType>
             const ParameterType &grad_x0,
             const ParameterType &direction
         ) {
-            ParameterType x_copy(x0.rows(), x0.cols());
             Scalar value_x0 = problem.value(x0);
             Scalar decrease = beta_ * (grad_x0.array() * direction.array()).sum();
-            Scalar value = value_x0;
-            Scalar a = 1.0/tau_;
+            Scalar a = 1.0;
+            ParameterType x_copy = x0 - a * direction;
+            Scalar value = problem.value(x_copy);
 
             while (value > value_x0 - a * decrease) {
                 a *= tau_;
@@ -128,7 +128,7 @@ class ArmijoLineSearch : public LineSearch<ProblemType, ParameterType>
                 value = problem.value(x_copy);
             }
 
-            x0 -= a * direction;
+            x0 = x_copy;
 
             return value;
         }
-- 
2.43.0


From ecbf4ff3b83de157b47cbec906e126454b3a0076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 11/18] fix: FastSupervisedMStep copes with passes without
 labelled documents

---
 src/ldaplusplus/em/FastSupervisedMStep.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldaplusplus/em/FastSupervisedMStep.cpp b/src/ldaplusplus/em/FastSupervisedMStep.cpp
index 5a52e78..bb3e10c 100644
--- a/src/ldaplusplus/em/FastSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastSupervisedMStep.cpp
@@ -68,6 +68,11 @@ void FastSupervisedMStep<Scalar>::m_step(
     expected_z_bar_.conservativeResize(expected_z_bar_.rows(), docs_);
     docs_ = 0;
 
+    // there is nothing to fit eta to if we haven't seen any labelled document
+    if (y_.rows() == 0) {
+        return;
+    }
+
     // we need to maximize w.r.t to \eta
     Scalar initial_value = INFINITY;
     MultinomialLogisticRegression<Scalar> mlr(expected_z_bar_, y_, regularization_penalty_);
-- 
2.43.0


From 0b0867d3164300119a8a417b7b7389957800c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 12/18] fix: EpochProgress does not truncate the likelihood to
 an integer

---
 include/applications/EpochProgress.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/applications/EpochProgress.hpp b/include/applications/EpochProgress.hpp
index 3bd247f..064fe16 100644
--- a/include/applications/EpochProgress.hpp
+++ b/include/applications/EpochProgress.hpp
@@ -20,7 +20,7 @@ class EpochProgress : public events::EventListenerInterface
 
     private:
        int em_iterations_;
-       int likelihood_;
+       double likelihood_;
        int cnt_likelihoods_;
        int is_first_time_;
 };
-- 
2.43.0


From 0e1e5caaadca78682031b05e9fd4ee4bd74ff653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 13/18] fix: --continue_from_unsupervised loads the model it
 names

---
 src/applications/fslda.cpp | 2 +-
 src/applications/slda.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/fslda.cpp b/src/applications/fslda.cpp
index 13414ac..fef6ca4 100644
--- a/src/applications/fslda.cpp
+++ b/src/applications/fslda.cpp
@@ -50,7 +50,7 @@ void add_initialization_options(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
diff --git a/src/applications/slda.cpp b/src/applications/slda.cpp
index 1a02f81..04bfa40 100644
--- a/src/applications/slda.cpp
+++ b/src/applications/slda.cpp
@@ -53,7 +53,7 @@ LDA<double> create_lda_for_train(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
-- 
2.43.0


From 196be3aced236cabc393a152d5fabefb9a2eda57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:36 +0000
Subject: [PATCH 14/18] fix: a listener added again after its removal is not
 lost by ThreadSafeEventDispatcher

---
 src/ldaplusplus/events/Events.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index c9c7a27..69e5e2f 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -49,7 +49,15 @@ void EventDispatcher::dispatch(std::shared_ptr<Event> event) {
 void ThreadSafeEventDispatcher::add_listener(
     std::shared_ptr<EventListenerInterface> listener
 ) {
-    std::lock_guard<std::mutex> l(listeners_mutex_);
+    std::unique_lock<std::mutex> l1(listeners_mutex_, std::defer_lock);
+    std::unique_lock<std::mutex> l2(deleted_listeners_mutex_, std::defer_lock);
+    std::lock(l1, l2);
+
+    // if the listener is still waiting to be deleted do it now, otherwise the
+    // new registration would be deleted as well
+    if (deleted_listeners_.erase(listener) > 0) {
+        listeners_.remove(listener);
+    }
 
     listeners_.push_back(listener);
 }
-- 
2.43.0


From 62f8d7b5ae4841b61c5660a3064844847c1cd0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:19 +0000
Subject: [PATCH 15/18] fix: the reported bound counts every occurrence of a
 word

---
 src/ldaplusplus/e_step_utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 5499fd8..e81039a 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -19,8 +19,9 @@ Scalar compute_unsupervised_likelihood(
 
     Scalar likelihood = 0;
 
-    // Make sure we ignore phi for words that are not in the document
-    MatrixX<Scalar> phi2 = phi.array().rowwise() * (X.array() != 0).cast<Scalar>().transpose();
+    // Every word of the document contributes as many times as it occurs (words
+    // that are not in the document are ignored)
+    MatrixX<Scalar> phi_scaled = phi.array().rowwise() * X.cast<Scalar>().transpose().array();
 
     // \Psi(\gamma) - \Psi(\sum_j \gamma)
     VectorX<Scalar> t1 = gamma.unaryExpr(cwise_digamma).array() - math_utils::digamma(gamma.sum());
@@ -30,16 +31,15 @@ Scalar compute_unsupervised_likelihood(
     likelihood += std::lgamma(alpha.sum()) - alpha.unaryExpr(cwise_lgamma).sum();
 
     // E_q[log p(z | \theta)]
-    likelihood += (phi2.transpose() * t1).sum();
+    likelihood += (phi_scaled.transpose() * t1).sum();
 
     // E_q[log p(w | z, \beta)]
-    auto phi_scaled = phi.array().rowwise() * X.cast<Scalar>().transpose().array();
-    likelihood += (phi_scaled * (beta.array() + 1e-44).log()).sum();
+    likelihood += (phi_scaled.array() * (beta.array() + 1e-44).log()).sum();
 
     // H(q)
     likelihood += -((gamma.array() - 1).matrix().transpose() * t1).value();
     likelihood += -std::lgamma(gamma.sum()) + gamma.unaryExpr(cwise_lgamma).sum();
-    likelihood += -(phi2.array() * (phi2.array() + 1e-44).log()).sum();
+    likelihood += -(phi_scaled.array() * (phi.array() + 1e-44).log()).sum();
     
     return likelihood;
 }
-- 
2.43.0


From 83b9aed166d17950fd93c75638778c3d923e7e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:16 +0000
Subject: [PATCH 16/18] fix: exp of NaN no longer reads outside the lookup
 table

---
 include/ldaplusplus/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ldaplusplus/utils.hpp b/include/ldaplusplus/utils.hpp
index ab772c7..c182726 100644
--- a/include/ldaplusplus/utils.hpp
+++ b/include/ldaplusplus/utils.hpp
@@ -362,7 +362,8 @@ static inline Scalar fast_exp(Scalar x) {
     if (x < 0)
         return 1/fast_exp(-x);
 
-    if (x > 100)
+    // also true for NaN which must not be used to index the lookup table
+    if (!(x <= 100))
         return std::exp(x);
 
     int cnt = 0;
-- 
2.43.0


From fa21cd888f0f0e3f14a0dd0f76853426ba5f1fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:03 +0000
Subject: [PATCH 17/18] fix: gradient descent reports the gradient of the
 current point

The norm given to the progress callback was that of the gradient at the previous
point, and before the first step that of uninitialised memory.
---
 include/ldaplusplus/optimization/GradientDescent.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ldaplusplus/optimization/GradientDescent.hpp b/include/ldaplusplus/optimization/GradientDescent.hpp
index a44ef2a..0e7714c 100644
--- a/include/ldaplusplus/optimization/GradientDescent.hpp
+++ b/include/ldaplusplus/optimization/GradientDescent.hpp
@@ -184,8 +184,10 @@ class GradientDescent
          *                be overwritten with the optimal position)
          */
         void minimize(const ProblemType &problem, Eigen::Ref<ParameterType> x0) {
-            // allocate memory for the gradient
+            // allocate memory for the gradient and compute it, its norm is
+            // reported before the first step
             ParameterType grad(x0.rows(), x0.cols());
+            problem.gradient(x0, grad);
 
             // Keep the value in this variable
             Scalar value = problem.value(x0);
@@ -195,8 +197,8 @@ class GradientDescent
 
             // Whether we stop or not is decided by someone else
             while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {
-                problem.gradient(x0, grad);
                 value = line_search_->search(problem, x0, grad, grad);
+                problem.gradient(x0, grad);
             }
         }
 
-- 
2.43.0


From 00a30c50952c0800c75c50488bd87164446cfb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:05 +0000
Subject: [PATCH 18/18] fix: logistic losses no longer overflow for large
 scores

---
 .../optimization/MultinomialLogisticRegression.cpp   | 10 +++++-----
 .../SecondOrderLogisticRegressionApproximation.cpp   | 12 ++++++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp b/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp
index 6dc9d2c..1576d99 100644
--- a/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp
+++ b/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp
@@ -45,11 +45,10 @@ Scalar MultinomialLogisticRegression<Scalar>::value(const MatrixX &eta) const {
     for (int d=0; d<y_.rows(); d++) {
         t = eta.transpose() * X_.col(d);
         likelihood += Cy_[y_[d]] * t[y_[d]];
-        likelihood -= Cy_[y_[d]] * std::log(t.array().exp().sum());
 
-        // This will be used in case we have overflow issues
-        //Scalar a = t.maxCoeff();
-        //likelihood -= a + std::log((t.array() - a).exp().sum());
+        // subtract the maximum so that exp() does not overflow
+        Scalar a = t.maxCoeff();
+        likelihood -= Cy_[y_[d]] * (a + std::log((t.array() - a).exp().sum()));
     }
     
     // Add suitable normalization to the final likelihood
@@ -68,7 +67,8 @@ void MultinomialLogisticRegression<Scalar>::gradient(const MatrixX &eta, Eigen::
     for (int d=0; d<y_.rows(); d++) {
         grad.col(y_[d]) -= Cy_[y_[d]] * X_.col(d);
 
-        t = (eta.transpose() * X_.col(d)).array().exp();
+        t = eta.transpose() * X_.col(d);
+        t = (t.array() - t.maxCoeff()).exp().eval();
         grad += Cy_[y_[d]] * (X_.col(d) * t.transpose()) / t.sum();
     }
 
diff --git a/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp b/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp
index 0b20155..a12493b 100644
--- a/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp
+++ b/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp
@@ -47,9 +47,12 @@ Scalar SecondOrderLogisticRegressionApproximation<Scalar>::value(const MatrixX &
     for (int d=0; d<y_.rows(); d++) {
         t = eta.transpose() * X_.col(d);
         likelihood += Cy_[y_[d]] * t[y_[d]];
-        likelihood -= Cy_[y_[d]] * std::log(
-            (t.array().exp() * (1. + 0.5 * (eta.transpose() * X_var_[d] * eta).diagonal().array())).sum()
-        );
+
+        // subtract the maximum so that exp() does not overflow
+        Scalar a = t.maxCoeff();
+        likelihood -= Cy_[y_[d]] * (a + std::log(
+            ((t.array() - a).exp() * (1. + 0.5 * (eta.transpose() * X_var_[d] * eta).diagonal().array())).sum()
+        ));
     }
     
     // Add suitable normalization to the final likelihood
@@ -73,7 +76,8 @@ void SecondOrderLogisticRegressionApproximation<Scalar>::gradient(const MatrixX
         grad.col(y_[d]) -= Cy_[y_[d]] * X_.col(d);
 
         // compute everything needed to assemble the gradients
-        eta_Ez = (eta.transpose() * X_.col(d)).array().exp();
+        eta_Ez = eta.transpose() * X_.col(d);
+        eta_Ez = (eta_Ez.array() - eta_Ez.maxCoeff()).exp().eval();
         eta_Vz = eta.transpose() * X_var_[d];
         eta_Vz_eta = (eta_Vz * eta).diagonal();
         eta_Vz += eta.transpose() * X_var_[d].transpose();
-- 
2.43.0

