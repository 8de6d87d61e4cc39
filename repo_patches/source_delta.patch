From f3a80361bc1a7f3afc350700fbb07ef0c1282d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 01/32] fix: FSMNode::Site() returns the site index, not the
 state index

---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index dec4279..42c33f2 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -69,7 +69,7 @@ struct FSMNode {
   }
 
   [[nodiscard]] size_t Site(void) const {
-    return fsm_stat_idx;
+    return fsm_site_idx;
   }
 
   void SetSite(size_t site) {
-- 
2.43.0


From 4769c369d25187298825fc8a783c7b7bd39e391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 02/32] fix: repeated identical on-site terms are accumulated
 instead of dropped

---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index 42c33f2..57118b9 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -275,11 +275,12 @@ inline void FSM::CastFSMPathToMatRepr_(
 
     if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) == kNullOpRepr) {
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, tgt_op);
-    } else if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) != tgt_op) {
+    } else if (tgt_row_fsm_node.fsm_stat_idx != tgt_col_fsm_node.fsm_stat_idx) {
+      // Only on-site terms share a link (ready -> final): accumulate them, equal ones included.
       auto new_op = fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) + tgt_op;
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, new_op);
     } else {
-      // Do nothing
+      // The identity link ready -> ready or final -> final, shared by all the paths. Do nothing.
     }
   }
 }
-- 
2.43.0


From b475bb991c5a5b36964dd839f9fcf3d5f5efe8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 03/32] fix: CoefRepr::ToString() prints each summand instead
 of repeating the second

---
 include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
index 486a437..e017a1c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
@@ -134,7 +134,7 @@ class CoefRepr {
     } else {
       std::string symbol_string = "(";
       for (size_t i = 0; i < coef_label_list_.size(); i++) {
-        const CNumberLabel coef_label = coef_label_list_[1];
+        const CNumberLabel coef_label = coef_label_list_[i];
         if (coef_label == kIdCoefLabel) {
           symbol_string += "1";
         } else {
-- 
2.43.0


From 7e60a72e7eb2ded1455e82ef9054d54f22903bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 04/32] fix: parameter parser rejects values of the wrong type
 instead of converting them silently

---
 include/qlmps/case_params_parser.h | 34 ++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/include/qlmps/case_params_parser.h b/include/qlmps/case_params_parser.h
index 0961f6e..f4c6463 100644
--- a/include/qlmps/case_params_parser.h
+++ b/include/qlmps/case_params_parser.h
@@ -18,6 +18,8 @@
 
 #include <iostream>
 #include <fstream>                                  // ifstream
+#include <cstdint>                                  // int64_t, uint64_t
+#include <limits>                                   // numeric_limits
 
 #include "qlmps/third_party/nlohmann/json.hpp"     // json
 
@@ -250,11 +252,42 @@ class CaseParamsParserBasic {
     return TryParseStrict<std::vector<double>>(item, out_value);
   }
  private:
+  // The JSON library converts between numbers and booleans silently, so check the type explicitly.
+  static bool IsOfType(const json &value, const bool *) { return value.is_boolean(); }
+
+  static bool IsOfType(const json &value, const double *) { return value.is_number(); }
+
+  static bool IsOfType(const json &value, const std::string *) { return value.is_string(); }
+
+  template <typename IntT>
+  static bool IsOfType(const json &value, const IntT *) {
+    if (value.is_number_unsigned()) {
+      return value.get<uint64_t>() <= static_cast<uint64_t>(std::numeric_limits<IntT>::max());
+    }
+    if (!value.is_number_integer()) return false;
+    const int64_t v = value.get<int64_t>();
+    if (v >= 0) return static_cast<uint64_t>(v) <= static_cast<uint64_t>(std::numeric_limits<IntT>::max());
+    return std::numeric_limits<IntT>::is_signed
+        && v >= static_cast<int64_t>(std::numeric_limits<IntT>::min());
+  }
+
+  template <typename ElemT>
+  static bool IsOfType(const json &value, const std::vector<ElemT> *) {
+    if (!value.is_array()) return false;
+    for (const auto &el : value) {
+      if (!IsOfType(el, static_cast<const ElemT *>(nullptr))) return false;
+    }
+    return true;
+  }
+
   template <typename T>
   T StrictParse(const std::string &item, const char *expected_type_name) const {
     if (case_params_.find(item) == case_params_.end()) {
       ReportAndExitMissing(item, expected_type_name);
     }
+    if (!IsOfType(case_params_.at(item), static_cast<T *>(nullptr))) {
+      ReportAndExitMissingOrInvalid(item, expected_type_name, case_params_.at(item).type_name());
+    }
     try {
       return case_params_.at(item).get<T>();
     } catch (const std::exception &e) {
@@ -267,6 +300,7 @@ class CaseParamsParserBasic {
   template <typename T>
   bool TryParseStrict(const std::string &item, T &out_value) const {
     if (case_params_.find(item) == case_params_.end()) return false;
+    if (!IsOfType(case_params_.at(item), static_cast<T *>(nullptr))) return false;
     try {
       out_value = case_params_.at(item).get<T>();
       return true;
-- 
2.43.0


From 5f4b1f99c0b119ef7ae8f0284a30dec1ecf5d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 05/32] fix: DuoVector self-assignment keeps the elements

---
 include/qlmps/one_dim_tn/framework/duovector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qlmps/one_dim_tn/framework/duovector.h b/include/qlmps/one_dim_tn/framework/duovector.h
index c009fe0..9b4a25c 100644
--- a/include/qlmps/one_dim_tn/framework/duovector.h
+++ b/include/qlmps/one_dim_tn/framework/duovector.h
@@ -64,6 +64,7 @@ public:
   @param rhs A DuoVector instance.
   */
   DuoVector<ElemT> &operator=(const DuoVector<ElemT> &rhs) {
+    if (this == &rhs) { return *this; }
 //    this->DuoVector::~DuoVector();
 //    I'm no sure why above line do not work if used in the derived FiniteMPS class
     for (auto &rpelem : raw_data_) {
@@ -98,6 +99,7 @@ public:
   @param rhs A DuoVector instance.
   */
   DuoVector<ElemT> &operator=(DuoVector<ElemT> &&rhs) noexcept {
+    if (this == &rhs) { return *this; }
 //    this->DuoVector::~DuoVector();
 //    I have no idea why above line do not work if used in the derived FiniteMPS class
     for (auto &rpelem : raw_data_) {
-- 
2.43.0


From 317e4f8abdd8a7689e287f92bcf61aacdadb0382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 06/32] fix: SparMat::SetElem() with the null element clears
 the position

---
 include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h
index 62f108d..4a4559d 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h
@@ -67,8 +67,11 @@ class SparMat {
   }
 
   void SetElem(const size_t x, const size_t y, const ElemType &elem) {
-    if (elem == nullelem) { return; }
     auto offset = CalcOffset(x, y);
+    if (elem == nullelem) {
+      indexes[offset] = -1;
+      return;
+    }
     if (indexes[offset] == -1) {
       data.push_back(elem);
       long idx = data.size() - 1;
-- 
2.43.0


From a417ec325cbf5e5d8f243282b055f78d8c79aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 07/32] fix: ordering of CoefRepr agrees with its equality

---
 .../one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
index e017a1c..5333c5c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
@@ -77,19 +77,19 @@ class CoefRepr {
   }
 
   bool operator<(const CoefRepr &rhs) const {
-    return coef_label_list_ < rhs.coef_label_list_;
+    return SortedLabels_() < rhs.SortedLabels_();
   }
 
   bool operator<=(const CoefRepr &rhs) const {
-    return coef_label_list_ <= rhs.coef_label_list_;
+    return SortedLabels_() <= rhs.SortedLabels_();
   }
 
   bool operator>(const CoefRepr &rhs) const {
-    return coef_label_list_ > rhs.coef_label_list_;
+    return SortedLabels_() > rhs.SortedLabels_();
   }
 
   bool operator>=(const CoefRepr &rhs) const {
-    return coef_label_list_ >= rhs.coef_label_list_;
+    return SortedLabels_() >= rhs.SortedLabels_();
   }
 
   CoefRepr &operator+=(const CoefRepr &rhs) {
@@ -152,6 +152,13 @@ class CoefRepr {
   }
 
  private:
+  // The order of the summands is irrelevant, for ordering as for equality.
+  std::vector<CNumberLabel> SortedLabels_(void) const {
+    std::vector<CNumberLabel> labels(coef_label_list_);
+    std::sort(labels.begin(), labels.end());
+    return labels;
+  }
+
   std::vector<CNumberLabel> coef_label_list_;
 };
 
-- 
2.43.0


From ed0ba22c8428641291eeee5139f4c1ac07064859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 08/32] fix: infinite FSM accepts paths: links of new states
 are created, sites wrap around the unit cell

---
 include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
index c201426..122142f 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
@@ -31,14 +31,14 @@ class iFSM {
     for (size_t site = 0; site < unit_cell_site_num; site++) {
       auto &fsm_nn_links = fsm_nn_links_set_[site];
       FSMNode ready_node = FSMNode(site, kFSMReadyStatIdx);
-      FSMNode next_ready_node = FSMNode(site + 1, kFSMReadyStatIdx);
+      FSMNode next_ready_node = FSMNode((site + 1) % unit_cell_site_num, kFSMReadyStatIdx);
 
       std::map < OpRepr, FSMNode > link_from_ready_to_ready;
       link_from_ready_to_ready.insert(std::make_pair(id_ops[site], next_ready_node));
       fsm_nn_links[ready_node] = link_from_ready_to_ready;
 
       FSMNode final_node = FSMNode(site, kFSMFinalStatIdx);
-      FSMNode next_final_node = FSMNode(site + 1, kFSMFinalStatIdx);
+      FSMNode next_final_node = FSMNode((site + 1) % unit_cell_site_num, kFSMFinalStatIdx);
 
       std::map < OpRepr, FSMNode > link_from_final_to_final;
       link_from_final_to_final.insert(std::make_pair(id_ops[site], next_final_node));
@@ -120,14 +120,14 @@ inline void iFSM::AddPath(const size_t head_site,
         mid_stat_nums_[target_site]++;
         FSMNode new_node(target_site, (long) mid_stat_nums_[target_site]);
         fsm_path.AddNode(i + 1, new_node);
-        fsm_nn_links.at(last_node).insert(std::make_pair(opr, new_node));
+        fsm_nn_links[last_node].insert(std::make_pair(opr, new_node));
         open_new_path = true;
       }
     } else {
       mid_stat_nums_[target_site]++;
       FSMNode new_node(target_site, (long) mid_stat_nums_[target_site]);
       fsm_path.AddNode(i + 1, new_node);
-      fsm_nn_links.at(last_node).insert(std::make_pair(opr, new_node));
+      fsm_nn_links[last_node].insert(std::make_pair(opr, new_node));
     }
   }
   //the last operator
-- 
2.43.0


From c20c7df87af95f7bd3144ec91a89dbc2387e3dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 09/32] fix: infinite FSM keeps terms which share leading
 operators with an earlier term

---
 include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h | 25 ++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
index 122142f..201b207 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
@@ -12,7 +12,7 @@
 #include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"  //FSMNode, FSMPath
 
 ///< [front site fsm node, [ operator, latter site fsm node]]
-using FSMNNLinks = std::map<FSMNode, std::map<OpRepr, FSMNode>>;
+using FSMNNLinks = std::map<FSMNode, std::multimap<OpRepr, FSMNode>>;
 
 /**
  * Finite state machine for the generation of iMPO
@@ -33,14 +33,14 @@ class iFSM {
       FSMNode ready_node = FSMNode(site, kFSMReadyStatIdx);
       FSMNode next_ready_node = FSMNode((site + 1) % unit_cell_site_num, kFSMReadyStatIdx);
 
-      std::map < OpRepr, FSMNode > link_from_ready_to_ready;
+      std::multimap<OpRepr, FSMNode> link_from_ready_to_ready;
       link_from_ready_to_ready.insert(std::make_pair(id_ops[site], next_ready_node));
       fsm_nn_links[ready_node] = link_from_ready_to_ready;
 
       FSMNode final_node = FSMNode(site, kFSMFinalStatIdx);
       FSMNode next_final_node = FSMNode((site + 1) % unit_cell_site_num, kFSMFinalStatIdx);
 
-      std::map < OpRepr, FSMNode > link_from_final_to_final;
+      std::multimap<OpRepr, FSMNode> link_from_final_to_final;
       link_from_final_to_final.insert(std::make_pair(id_ops[site], next_final_node));
       fsm_nn_links[final_node] = link_from_final_to_final;
     }
@@ -109,9 +109,12 @@ inline void iFSM::AddPath(const size_t head_site,
     size_t target_site = (last_site + 1) % unit_cell_site_num_;
     auto &fsm_nn_links = fsm_nn_links_set_[last_site];
     if (!open_new_path) { //still go along the old path
-      auto link_op2node_iter = fsm_nn_links.at(last_node).find(opr);
-      if (link_op2node_iter != fsm_nn_links.at(last_node).cend()
-          && (link_op2node_iter->second.Stat() != kFSMFinalStatIdx)) {
+      auto &links = fsm_nn_links[last_node];
+      // The same operator can also end another path here.
+      auto link_op2node_iter = std::find_if(
+          links.lower_bound(opr), links.upper_bound(opr),
+          [](const auto &link) { return link.second.Stat() != kFSMFinalStatIdx; });
+      if (link_op2node_iter != links.upper_bound(opr)) {
         //found, still go along the old way
         FSMNode next_node = link_op2node_iter->second;
         fsm_path.AddNode(i + 1, next_node);
@@ -136,13 +139,13 @@ inline void iFSM::AddPath(const size_t head_site,
   assert(tail_site == (penultimate_node.Site() + 1) % unit_cell_site_num_);
   FSMNode end_node(tail_site, kFSMFinalStatIdx);
   fsm_path.AddNode(phys_site_num, end_node);
-  if (open_new_path) {
-    auto &fsm_nn_links = fsm_nn_links_set_[(tail_site - 1 + unit_cell_site_num_) % unit_cell_site_num_];
-    fsm_nn_links.at(penultimate_node).insert(std::make_pair(ntrvl_ops.back(), end_node));
-  } else {
+  auto &links = fsm_nn_links_set_[(tail_site - 1 + unit_cell_site_num_) % unit_cell_site_num_][penultimate_node];
+  if (std::any_of(links.lower_bound(ntrvl_ops.back()), links.upper_bound(ntrvl_ops.back()),
+                  [&end_node](const auto &link) { return link.second == end_node; })) {
     std::cout << "Same Operator Terms!" << std::endl;
     exit(1);
   }
+  links.insert(std::make_pair(ntrvl_ops.back(), end_node));
   fsm_paths_.push_back(fsm_path);
 }
 
@@ -187,7 +190,7 @@ inline SparOpReprMat iFSM::CastToMatRepr_(const size_t site) const {
       if (col == kFSMFinalStatIdx) {
         col = mat_cols - 1;
       }
-      mat.SetElem(row, col, opr);
+      mat.SetElem(row, col, mat(row, col) + opr);
     }
   }
   return mat;
-- 
2.43.0


From c7c25d08cf22e96d23b401df3f93d684fc916f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 10/32] fix: start the tail string behind the last physical
 operator in MPOGenerator::AddTerm

---
 include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
index 4d1d976..232bb4c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
@@ -221,7 +221,7 @@ void MPOGenerator<TenElemT, QNT>::AddTerm(
   local_ops_idxs.push_back(phys_ops_idxs.back());
   if (inst_ops.size() == phys_ops.size()) {
     if (inst_ops_idxs_set == kNullUintVecVec) {
-      for (size_t j = phys_ops_idxs.back(); j < N_; ++j) {
+      for (size_t j = phys_ops_idxs.back() + 1; j < N_; ++j) {
         local_ops.push_back(inst_ops.back());
         local_ops_idxs.push_back(j);
       }
-- 
2.43.0


From 29c2d520d71c481082e2ec398b4d552dd3b58b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 11/32] fix: let copies of HubbardOperators own their synonym
 operators

---
 .../operators/fermion/hubbard_operators.h       | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/qlmps/model_relevant/operators/fermion/hubbard_operators.h b/include/qlmps/model_relevant/operators/fermion/hubbard_operators.h
index 6d22d62..1afe449 100644
--- a/include/qlmps/model_relevant/operators/fermion/hubbard_operators.h
+++ b/include/qlmps/model_relevant/operators/fermion/hubbard_operators.h
@@ -47,9 +47,9 @@ struct HubbardOperators {
                                                           nfsquare({site.phys_bond_in, site.phys_bond_out}),
                                                           nup({site.phys_bond_in, site.phys_bond_out}),
                                                           ndn({site.phys_bond_in, site.phys_bond_out}),
-                                                          cupccdna(sp),      // Initialize reference
-                                                           cdnccupa(sm),      // Initialize reference
-                                                           Uterm(nupndn)      // Initialize reference
+                                                          cupccdna({site.phys_bond_in, site.phys_bond_out}),
+                                                          cdnccupa({site.phys_bond_in, site.phys_bond_out}),
+                                                          Uterm({site.phys_bond_in, site.phys_bond_out})
   {
     const size_t empty = site.empty;
     const size_t double_occupy = site.double_occupancy;
@@ -116,6 +116,11 @@ struct HubbardOperators {
     nup({spin_up, spin_up}) = 1;                 // ⟨↑| n_↑ |↑⟩ = 1
     ndn({double_occupy, double_occupy}) = 1;     // ⟨↑↓| n_↓ |↑↓⟩ = 1
     ndn({spin_down, spin_down}) = 1;             // ⟨↓| n_↓ |↓⟩ = 1
+
+    // Synonyms
+    cupccdna = sp;
+    cdnccupa = sm;
+    Uterm = nupndn;
   }
 
 // Spin operators
@@ -155,12 +160,12 @@ struct HubbardOperators {
 // Pairing operators
   Tensor cupccdnc;  // c_up^creation * c_down^creation
   Tensor cdnacupa;  // onsite pair operator (c_down*c_up)
-  const Tensor &cupccdna; // exciton pair
-  const Tensor &cdnccupa;
+  Tensor cupccdna;  // exciton pair
+  Tensor cdnccupa;
 
 // density relevant operators
   Tensor nupndn;  // nup * ndown
-  const Tensor &Uterm;   // Hubbard U term
+  Tensor Uterm;   // Hubbard U term
   Tensor nf;      // fermion number (nup + ndn)
   Tensor nfsquare;// square of fermion number
   Tensor nup;     // spin-up number operator
-- 
2.43.0


From 4a0ba308f11c24d276c89788714a1e2e301f9314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 12/32] fix: exchange the two spin-flip composites of
 tJOperators, which acted the wrong way round

---
 include/qlmps/model_relevant/operators/fermion/tJ_operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/model_relevant/operators/fermion/tJ_operators.h b/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
index 4d7d693..6b828b3 100644
--- a/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
+++ b/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
@@ -69,8 +69,8 @@ struct tJOperators {
     ndn({spin_down, spin_down}) = 1;      // ⟨↓| n_↓ |↓⟩ = 1
 
     // Composite operators
-    bdnc_multi_bupa({spin_down, spin_up}) = 1;  // ⟨↑| c^†_↓ c_↑ |↓⟩ = 1
-    bupc_multi_bdna({spin_up, spin_down}) = 1;  // ⟨↓| c^†_↑ c_↓ |↑⟩ = 1
+    bdnc_multi_bupa({spin_up, spin_down}) = 1;  // ⟨↓| c^†_↓ c_↑ |↑⟩ = 1
+    bupc_multi_bdna({spin_down, spin_up}) = 1;  // ⟨↑| c^†_↑ c_↓ |↓⟩ = 1
   }
 
   // Spin operators
-- 
2.43.0


From 783e948eed4a3989140ef568c3df99ec6899edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:55 +0000
Subject: [PATCH 13/32] fix: forget the canonical form of FiniteMPS tensors
 that are loaded from disk

---
 .../qlmps/one_dim_tn/mps/finite_mps/finite_mps.h   | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
index d0fe20d..e9c0c6f 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
@@ -106,7 +106,19 @@ class FiniteMPS : public MPS<TenElemT, QNT> {
     return DuoVector<LocalTenT>::operator()(idx);
   }
 
-  using MPS<TenElemT, QNT>::LoadTen;
+  // A loaded tensor comes without any knowledge of its canonical form.
+  void LoadTen(const size_t idx, const std::string &file) {
+    tens_cano_type_[idx] = MPSTenCanoType::NONE;
+    center_ = kUncentralizedCenterIdx;
+    MPS<TenElemT, QNT>::LoadTen(idx, file);
+  }
+
+  void Load(const std::string &mps_path = kMpsPath) {
+    tens_cano_type_.assign(this->size(), MPSTenCanoType::NONE);
+    center_ = kUncentralizedCenterIdx;
+    MPS<TenElemT, QNT>::Load(mps_path);
+  }
+
   using MPS<TenElemT, QNT>::DumpTen;
   void LoadTen(const std::string &mps_path, const size_t idx) {
     this->LoadTen(idx, GenMPSTenName(mps_path, idx));
-- 
2.43.0


From c2f0ef5205997702c65226c6f92882739c6d774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:14 +0000
Subject: [PATCH 14/32] fix: FiniteMPS::Reverse mirrors the center and the
 canonical types instead of losing them

---
 .../one_dim_tn/mps/finite_mps/finite_mps.h    | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
index e9c0c6f..dc82645 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
@@ -322,6 +322,9 @@ std::vector<double> FiniteMPS<TenElemT, QNT>::GetEntanglementEntropy(size_t n) {
 
 template<typename TenElemT, typename QNT>
 void FiniteMPS<TenElemT, QNT>::Reverse() {
+  // Accessing the tensors below resets the center and the canonical types.
+  const int old_center = center_;
+  const std::vector<MPSTenCanoType> old_types = tens_cano_type_;
   size_t N = this->size();
   if (N % 2 == 0) {
     for (size_t i = 0; i < N / 2; i++) {
@@ -335,14 +338,14 @@ void FiniteMPS<TenElemT, QNT>::Reverse() {
   for (size_t i = 0; i < N; i++) {
     (*this)(i)->Transpose({2, 1, 0});
   }
-  if (center_ != kUncentralizedCenterIdx) {
-    center_ = N - 1 - center_;
-    for (size_t i = 0; i < N; i++) {
-      if (tens_cano_type_[i] == MPSTenCanoType::RIGHT) {
-        tens_cano_type_[i] = MPSTenCanoType::LEFT;
-      } else if (tens_cano_type_[i] == MPSTenCanoType::LEFT) {
-        tens_cano_type_[i] = MPSTenCanoType::RIGHT;
-      }
+  if (old_center != kUncentralizedCenterIdx) { center_ = N - 1 - old_center; }
+  for (size_t i = 0; i < N; i++) {
+    switch (old_types[N - 1 - i]) {
+      case MPSTenCanoType::RIGHT: tens_cano_type_[i] = MPSTenCanoType::LEFT;
+        break;
+      case MPSTenCanoType::LEFT: tens_cano_type_[i] = MPSTenCanoType::RIGHT;
+        break;
+      default: tens_cano_type_[i] = MPSTenCanoType::NONE;
     }
   }
   //note the indices directions will be changed.
-- 
2.43.0


From 6188f97f0911d075c29b9a4d03bfc2acdfe356a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:15 +0000
Subject: [PATCH 15/32] fix: forget the canonical form of FiniteMPO tensors
 that are loaded from disk

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index c9c385c..28961f1 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -235,6 +235,13 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
     ofs.close();
   }
 
+  // A loaded tensor comes without any knowledge of its canonical form.
+  void LoadTen(const size_t idx, const std::string &file) {
+    tens_cano_type_[idx] = MPOTenCanoType::NONE;
+    center_ = kUncentralizedCenterIdx;
+    TenVec<LocalTenT>::LoadTen(idx, file);
+  }
+
   bool Load(const std::string &mpo_path = kMpoPath) {
     if (!IsPathExist(mpo_path)) {
       return false;
@@ -248,7 +255,7 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
 
     file = mpo_path + "/center";
     std::ifstream ifs(file, std::ifstream::binary);
-    ifs >> center_;
+    if (!(ifs >> center_)) { center_ = kUncentralizedCenterIdx; }
     ifs.close();
     SetCenter_();
     return true;
-- 
2.43.0


From 517545abf80d8b4dbac2df84f22ba53a0a93f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:39 +0000
Subject: [PATCH 16/32] fix: DirectStateInitZeroDivMps gives every tensor zero
 flux, the last one included

---
 include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_init.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_init.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_init.h
index 1ed30f1..4d17fb2 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_init.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_init.h
@@ -306,10 +306,13 @@ void DirectStateInitZeroDivMps(
     (mps[i])({0, stat_lab, 0}) = 1;
   }
 
+  // The right boundary bond carries the total charge, so the last tensor has 0-flux too.
   lvb = InverseIndex(rvb);
-  rvb = IndexT({QNSctT(zero_qn, 1)}, TenIndexDirType::OUT);
-  mps(N - 1) = new TenT({lvb, pb_out_set[N - 1], rvb});
   stat_lab = stat_labs[N - 1];
+  rvb_qn = lvb.GetQNSctFromActualCoor(0).GetQn() -
+      pb_out_set[N - 1].GetQNSctFromActualCoor(stat_lab).GetQn();
+  rvb = IndexT({QNSctT(rvb_qn, 1)}, TenIndexDirType::OUT);
+  mps(N - 1) = new TenT({lvb, pb_out_set[N - 1], rvb});
   (mps[N - 1])({0, stat_lab, 0}) = 1;
 
   // Centralize MPS.
-- 
2.43.0


From 3946dae342d55045d9df8c64c350168489204857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:17 +0000
Subject: [PATCH 17/32] fix: a zero singular value contributes no entanglement
 entropy instead of NaN

---
 include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h | 2 +-
 include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h
index 232d6e1..89c5ee2 100644
--- a/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h
@@ -43,7 +43,7 @@ inline double MeasureEE(const DTenT &s, const size_t sdim) {
   for (size_t i = 0; i < sdim; ++i) {
     singular_value = s(i, i);
     p = singular_value * singular_value;
-    ee += (-p * std::log(p));
+    if (p > 0.0) { ee += (-p * std::log(p)); }    // 0 * log(0) is 0
   }
   return ee;
 }
diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
index dc82645..d59fe2c 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
@@ -301,7 +301,7 @@ std::vector<double> FiniteMPS<TenElemT, QNT>::GetEntanglementEntropy(size_t n) {
       double singular_value = s(k, k);
       double p = singular_value * singular_value;
       if (n == 1) {
-        ee += (-p * std::log(p));
+        if (p > 0.0) { ee += (-p * std::log(p)); }    // 0 * log(0) is 0
       } else {
         double p_to_n = p;
         for (size_t j = 1; j < n; j++) { // order of power
-- 
2.43.0


From 863438e6fb2cd4460877489a210b80844c453893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:18 +0000
Subject: [PATCH 18/32] fix: report tensors that could not be written
 completely or read completely

---
 include/qlmps/one_dim_tn/framework/ten_vec.h | 18 ++++++++++++++----
 include/qlmps/utilities.h                    |  7 ++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/qlmps/one_dim_tn/framework/ten_vec.h b/include/qlmps/one_dim_tn/framework/ten_vec.h
index bf54d12..844cc23 100644
--- a/include/qlmps/one_dim_tn/framework/ten_vec.h
+++ b/include/qlmps/one_dim_tn/framework/ten_vec.h
@@ -19,6 +19,7 @@
 
 #include <string>     // string
 #include <fstream>    // ifstream
+#include <stdexcept>  // runtime_error
 
 namespace qlmps {
 using namespace qlten;
@@ -81,9 +82,7 @@ class TenVec : public DuoVector<TenT> {
   @param file The element tensor will be dumped to this file.
   */
   void DumpTen(const size_t idx, const std::string &file) const {
-    std::ofstream ofs(file, std::ofstream::binary);
-    ofs << (*this)[idx];
-    ofs.close();
+    DumpTen_(idx, file);
   }
 
   /**
@@ -98,10 +97,21 @@ class TenVec : public DuoVector<TenT> {
       const std::string &file,
       const bool release_mem = false
   ) {
+    DumpTen_(idx, file);
+    if (release_mem) { this->dealloc(idx); }
+  }
+
+ private:
+  void DumpTen_(const size_t idx, const std::string &file) const {
     std::ofstream ofs(file, std::ofstream::binary);
+    if (!ofs.is_open()) {
+      throw std::runtime_error("Error opening file: " + file);
+    }
     ofs << (*this)[idx];
     ofs.close();
-    if (release_mem) { this->dealloc(idx); }
+    if (ofs.fail()) {
+      throw std::runtime_error("Error writing file: " + file);
+    }
   }
 };
 } /* qlmps */
diff --git a/include/qlmps/utilities.h b/include/qlmps/utilities.h
index 9a07b9d..a76d399 100644
--- a/include/qlmps/utilities.h
+++ b/include/qlmps/utilities.h
@@ -14,6 +14,7 @@
 
 #include <iostream>
 #include <fstream>          // ifstream, ofstream
+#include <stdexcept>        // runtime_error
 
 #include <sys/stat.h>       // stat, mkdir, S_IRWXU, S_IRWXG, S_IROTH, S_IXOTH
 
@@ -65,6 +66,9 @@ inline void WriteQLTensorTOFile(const TenT &t, const std::string &file) {
   std::ofstream ofs(file, std::ofstream::binary);
   ofs << t;
   ofs.close();
+  if (ofs.fail()) {
+    throw std::runtime_error("Error writing file: " + file);
+  }
 }
 
 
@@ -73,8 +77,9 @@ inline bool ReadQLTensorFromFile(TenT &t, const std::string &file) {
   std::ifstream ifs(file, std::ifstream::binary);
   if(ifs.good()){
     ifs >> t;
+    const bool success = !ifs.fail();
     ifs.close();
-    return true;
+    return success;
   } else {
     return false;
   }
-- 
2.43.0


From aa11901746acbdc91b7a49a266379ea6b2fd24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 19/32] fix: FiniteMPO::SimpleProduct returns the product
 instead of falling off its end

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index 28961f1..e9e274e 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -171,7 +171,9 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
 
   ///<  *this * rhs,  *this is at below, represent the front matrix
   FiniteMPO SimpleProduct(const FiniteMPO &rhs) const {
-
+    FiniteMPO res(this->size());
+    MpoProduct(*this, rhs, res);
+    return res;
   }
 
   /**
-- 
2.43.0


From 3f1dfa0c9aa00673c593f20bd349bf4d283f11d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 20/32] fix: compressed MPO product on fewer than three sites,
 and its center when no sweep ran

---
 .../qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
index 183b917..5c98685 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
@@ -203,6 +203,12 @@ void MpoProduct(
 ) {
   using Tensor = QLTensor<TenElemT, QNT>;
   const size_t N = mpo1.size();
+  if (N < 3) { // The sweeps below never update a single pair of sites.
+    MpoProduct(mpo1, mpo2, output_mpo);
+    output_mpo.Truncate(trunc_err, Dmin, Dmax);
+    output_mpo.Centralize(1);
+    return;
+  }
   double output_mpo_inited(true);
   for (size_t i = 0; i < N; i++) {
     if (output_mpo(i) == nullptr) {
@@ -316,6 +322,9 @@ void MpoProduct(
     }
   }
 
+  if (sweep_time_max == 0) { // nothing has been updated, the center is still site 0
+    return;
+  }
   output_mpo.tens_cano_type_[0] = MPOTenCanoType::LEFT;
   output_mpo.tens_cano_type_[1] = MPOTenCanoType::NONE;
   for (size_t i = 2; i < N; i++) {
-- 
2.43.0


From bb03ec58aa8d8234ed8a9541aff68c4e4684bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:56 +0000
Subject: [PATCH 21/32] fix: single-site noise on an MPS whose right bonds were
 reversed by QR canonicalization

---
 .../vmps/single_site_update_finite_vmps_impl.h  | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h
index 2dfae3c..8c8623e 100644
--- a/include/qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h
@@ -401,7 +401,22 @@ void SingleSiteFiniteVMPSExpand(
     TenT temp_ten;
     Contract(eff_ham[0], gs_vec, {{2},
                                   {0}}, &temp_ten);
-    Contract<TenElemT, QNT, true, true>(temp_ten, *eff_ham[1], 1, 0, 2, *ten_tmp);
+    if (gs_vec->GetIndex(2).GetDir() == OUT) {//normal case
+      Contract<TenElemT, QNT, true, true>(temp_ten, *eff_ham[1], 1, 0, 2, *ten_tmp);
+    } else { // right canonicalization by QR leaves right bonds with direction IN,
+      // turn the right bond of the mpo tensor to that direction as well to fuse them
+      auto eff_ham1 = *eff_ham[1];
+      eff_ham1.Transpose({3, 0, 1, 2});
+      QNT some_qn = gs_vec->GetIndex(2).GetQNSct(0).GetQn();
+      QNT qn0 = some_qn + (-some_qn);
+      TenT u, v, sv;
+      QLTensor<QLTEN_Double, QNT> s;
+      mock_qlten::SVD(&eff_ham1, 1, qn0, &u, &s, &v);
+      Contract(&s, &v, {{1},
+                        {0}}, &sv);
+      sv.Transpose({1, 2, 3, 0});
+      Contract<TenElemT, QNT, true, true>(temp_ten, sv, 1, 0, 2, *ten_tmp);
+    }
 
 #ifdef QLMPS_TIMING_MODE
     contract_timer.PrintElapsed();
-- 
2.43.0


From e9e9b31ed058ad0f10692ee67e7818e48e869aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:56 +0000
Subject: [PATCH 22/32] fix: two-site noise heuristics fuse the right physical
 index in the direction of the right bond

---
 .../vmps/two_site_update_noised_finite_vmps_mpi_impl.h    | 8 +++++---
 .../vmps/two_site_update_noise_finite_vmps_impl.h         | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index 903e397..ae400d7 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -344,9 +344,11 @@ double MasterTwoSiteFiniteVMPSUpdate(
       qnscts_right = &(mps[rsite_idx].GetIndexes()[2].GetQNScts());
     } else {
       std::vector<qlten::QNSctsOffsetInfo> qnscts_offset_info_list;
-      fused_index2 = FuseTwoIndexAndRecordInfo(
-          mps[rsite_idx].GetIndexes()[1],
-          mps[rsite_idx].GetIndexes()[2],
+      const Index<QNT> &right_bond = mps[rsite_idx].GetIndexes()[2];
+      const Index<QNT> &right_phys = mps[rsite_idx].GetIndexes()[1];
+      fused_index2 = FuseTwoIndexAndRecordInfo(  // only indices of the same direction can be fused
+          right_bond.GetDir() == right_phys.GetDir() ? right_phys : InverseIndex(right_phys),
+          right_bond,
           qnscts_offset_info_list
       );
       qnscts_right = &(fused_index2.GetQNScts());
diff --git a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
index c9299d3..1639c5d 100644
--- a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
@@ -307,9 +307,11 @@ double TwoSiteFiniteVMPSUpdate(
       qnscts_right = &(mps[rsite_idx].GetIndexes()[2].GetQNScts());
     } else {
       std::vector<qlten::QNSctsOffsetInfo> qnscts_offset_info_list;
-      fused_index2 = FuseTwoIndexAndRecordInfo(
-          mps[rsite_idx].GetIndexes()[1],
-          mps[rsite_idx].GetIndexes()[2],
+      const Index<QNT> &right_bond = mps[rsite_idx].GetIndexes()[2];
+      const Index<QNT> &right_phys = mps[rsite_idx].GetIndexes()[1];
+      fused_index2 = FuseTwoIndexAndRecordInfo(  // only indices of the same direction can be fused
+          right_bond.GetDir() == right_phys.GetDir() ? right_phys : InverseIndex(right_phys),
+          right_bond,
           qnscts_offset_info_list
       );
       qnscts_right = &(fused_index2.GetQNScts());
-- 
2.43.0


From d65bab25cedd314ee1e288e43fce7de5fe3a66c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:56 +0000
Subject: [PATCH 23/32] fix: noised two-site vMPS without noises returns after
 the noiseless sweeps instead of sweeping again

---
 .../algorithm/vmps/two_site_update_noise_finite_vmps_impl.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
index 1639c5d..53311ac 100644
--- a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
@@ -86,7 +86,7 @@ QLTEN_Double TwoSiteFiniteVMPSWithNoise( //same function name, overload by class
   if (sweep_params.noises.size() == 0) {
     FiniteVMPSSweepParams sweep_params_copy = sweep_params;
     sweep_params_copy.noise_valid = false;
-    TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
+    return TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
   }
   assert(mps.size() == mpo.size());
 
-- 
2.43.0


From 23863df3a8546ed6d9464efd4cd8ce19c48fb9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:56 +0000
Subject: [PATCH 24/32] fix: Lanczos solvers with max_iterations = 1 return the
 best vector they have instead of overrunning the basis

---
 include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h | 2 +-
 include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h       | 2 +-
 include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h      | 2 +-
 include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h      | 2 +-
 include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h     | 2 +-
 include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
index c4ad67c..ad30558 100644
--- a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
@@ -106,7 +106,7 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m == params.max_iterations) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
index 7f2b59d..e139725 100644
--- a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
+++ b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
@@ -113,7 +113,7 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
     trigssolver.Suspend();
 #endif
 
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m == params.max_iterations) {
       expmv_res.iters = m;
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 89c5382..1633eea 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -128,7 +128,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #endif
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m == params.max_iterations) {
       if (m == 1) {
 #ifdef QLMPS_TIMING_MODE
         Timer lancozs_post_precessing("lancz_post_processing");
diff --git a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
index e284521..4c039ff 100644
--- a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
+++ b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
@@ -130,7 +130,7 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m == params.max_iterations) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
index 49a6ad9..9222b69 100644
--- a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
+++ b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
@@ -121,7 +121,7 @@ ExpmvRes<TenT> LanczosExpmvSolver(
     }
     QLTEN_Double norm_gamma = gamma->Normalize();
 
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m == params.max_iterations) {
       expmv_res.iters = m;
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
diff --git a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
index a21cf92..b5f68c3 100644
--- a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
+++ b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
@@ -183,7 +183,7 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->QuasiNormalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m == params.max_iterations) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
-- 
2.43.0


From 13e7d282cabc27767f6a15105a38d2681d157b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:17 +0000
Subject: [PATCH 25/32] fix: Lanczos ground-state solvers stop when the Krylov
 space is exhausted and return a normalized vector

---
 .../dmrg/lanczos_dmrg_solver_mpi_master.h     |  5 +++-
 .../algo_mpi/vmps/lanczos_solver_mpi_master.h |  5 +++-
 .../algorithm/dmrg/lanczos_dmrg_solver_impl.h |  5 +++-
 .../algorithm/vmps/lanczos_vmps_solver_impl.h | 24 ++++++++++++++++++-
 4 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
index ad30558..afa290c 100644
--- a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
@@ -106,7 +106,8 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0 || m == params.max_iterations) {
+    if (KrylovSpaceExhausted(norm_gamma, a[m - 1], m == 1 ? 0.0 : b[m - 2]) ||
+        m == eff_ham_eff_dim || m == params.max_iterations) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
@@ -118,6 +119,7 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
         TridiagGsSolver(a, b, m, eigval, eigvec, 'V');
         auto gs_vec = new Tensor(bases[0]->GetIndexes());
         LinearCombine(m, eigvec, bases, 0.0, gs_vec);
+        gs_vec->Normalize();   // the basis is orthonormal only up to rounding errors
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
         lancz_res.gs_vec = gs_vec;
@@ -153,6 +155,7 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
       energy0 = energy0_new;
       auto gs_vec = new Tensor(bases[0]->GetIndexes());
       LinearCombine(m + 1, eigvec, bases, 0.0, gs_vec);
+      gs_vec->Normalize();   // the basis is orthonormal only up to rounding errors
       lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 1633eea..51c8396 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -128,7 +128,8 @@ LanczosRes<TenT> MasterLanczosSolver(
 #endif
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0 || m == params.max_iterations) {
+    if (KrylovSpaceExhausted(norm_gamma, a[m - 1], m == 1 ? 0.0 : b[m - 2]) ||
+        m == eff_ham_eff_dim || m == params.max_iterations) {
       if (m == 1) {
 #ifdef QLMPS_TIMING_MODE
         Timer lancozs_post_precessing("lancz_post_processing");
@@ -154,6 +155,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #endif
         auto gs_vec = new TenT(bases[0]->GetIndexes());
         LinearCombine(m, eigvec, bases, 0.0, gs_vec);
+        gs_vec->Normalize();   // the basis is orthonormal only up to rounding errors
 #ifdef QLMPS_TIMING_MODE
         final_linear_combine_timer.PrintElapsed();
 #endif
@@ -213,6 +215,7 @@ LanczosRes<TenT> MasterLanczosSolver(
       energy0 = energy0_new;
       auto gs_vec = new TenT(bases[0]->GetIndexes());
       LinearCombine(m + 1, eigvec, bases, 0.0, gs_vec);
+      gs_vec->Normalize();   // the basis is orthonormal only up to rounding errors
 #ifdef QLMPS_TIMING_MODE
       final_linear_combine_timer.PrintElapsed();
 #endif
diff --git a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
index 4c039ff..6431efa 100644
--- a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
+++ b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
@@ -130,7 +130,8 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0 || m == params.max_iterations) {
+    if (KrylovSpaceExhausted(norm_gamma, a[m - 1], m == 1 ? 0.0 : b[m - 2]) ||
+        m == eff_ham_eff_dim || m == params.max_iterations) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
@@ -141,6 +142,7 @@ LanczosRes<TenT> LanczosSolver(
         TridiagGsSolver(a, b, m, eigval, eigvec, 'V');
         auto gs_vec = new TenT(bases[0]->GetIndexes());
         LinearCombine(m, eigvec, bases, 0.0, gs_vec);
+        gs_vec->Normalize();   // the basis is orthonormal only up to rounding errors
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
         lancz_res.gs_vec = gs_vec;
@@ -183,6 +185,7 @@ LanczosRes<TenT> LanczosSolver(
       energy0 = energy0_new;
       auto gs_vec = new TenT(bases[0]->GetIndexes());
       LinearCombine(m + 1, eigvec, bases, 0.0, gs_vec);
+      gs_vec->Normalize();   // the basis is orthonormal only up to rounding errors
       lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
diff --git a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
index b5f68c3..1483c81 100644
--- a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
+++ b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
@@ -94,6 +94,25 @@ inline void LanczosFree(
   delete last_mat_mul_vec_res;
 }
 
+/// A new Lanczos vector shorter than this, relative to the other matrix elements, is rounding error.
+const QLTEN_Double kLanczosBreakdownTol = 1.0E-13;
+
+/**
+Whether the Krylov space is exhausted, so that no further basis vector can be made from
+what is left of the last product of the Hamiltonian and the m-th basis vector.
+
+@param norm_left The norm of the product after orthogonalizing it to the last two basis vectors.
+@param diag The diagonal element of the m-th basis vector.
+@param sub_diag The matrix element between the last two basis vectors, 0 if m is 1.
+*/
+inline bool KrylovSpaceExhausted(
+    const QLTEN_Double norm_left,
+    const QLTEN_Double diag,
+    const QLTEN_Double sub_diag
+) {
+  return norm_left <= kLanczosBreakdownTol * (std::fabs(diag) + std::fabs(sub_diag));
+}
+
 // Lanczos solver.
 template<typename TenT>
 struct LanczosRes {
@@ -183,7 +202,8 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->QuasiNormalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0 || m == params.max_iterations) {
+    if (KrylovSpaceExhausted(norm_gamma, a[m - 1], m == 1 ? 0.0 : b[m - 2]) ||
+        m == eff_ham_eff_dim || m == params.max_iterations) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
@@ -194,6 +214,7 @@ LanczosRes<TenT> LanczosSolver(
         TridiagGsSolver(a, b, m, eigval, eigvec, 'V');
         auto gs_vec = new TenT(bases[0]->GetIndexes());
         LinearCombine(m, eigvec, bases, 0.0, gs_vec);
+        gs_vec->QuasiNormalize();   // the basis is orthonormal only up to rounding errors
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
         lancz_res.gs_vec = gs_vec;
@@ -236,6 +257,7 @@ LanczosRes<TenT> LanczosSolver(
       energy0 = energy0_new;
       auto gs_vec = new TenT(bases[0]->GetIndexes());
       LinearCombine(m + 1, eigvec, bases, 0.0, gs_vec);
+      gs_vec->QuasiNormalize();   // the basis is orthonormal only up to rounding errors
       lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
-- 
2.43.0


From fa88b60266ab455a1b18d251b044fa7073a1bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:52 +0000
Subject: [PATCH 26/32] fix: MeasureFourSiteOpGroup releases the tensors of all
 its events, not only of the last one

---
 include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
index 78002ab..bce841f 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
@@ -376,7 +376,7 @@ MeasuRes<TenElemT> MeasureFourSiteOpGroup(
                                                 avg);
   }
   //clean the data
-  for (size_t i = target_sites_set.back()[0]; i <= target_sites_set.back()[1]; i++) {
+  for (size_t i = 0; i < mps.size(); i++) { // each event leaves the tensors of its own range in memory
     mps.dealloc(i);
   }
   assert(mps.empty());
-- 
2.43.0


From 8938234accff3c518a33b17f18fc6e6d8e13dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:52 +0000
Subject: [PATCH 27/32] fix: MPI TDVP on a single process runs the serial
 algorithm instead of waiting for workers forever

---
 .../tdvp/two_site_update_finite_tdvp_mpi_impl_master.h      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h b/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h
index 972e009..c2e0199 100644
--- a/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h
+++ b/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h
@@ -64,8 +64,12 @@ DynamicMeasuRes<TenElemT> TwoSiteFiniteTDVP(
     const std::string &measure_file_base_name,
     const MPI_Comm &comm
 ) {
-  int rank;
+  int rank, mpi_size;
   MPI_Comm_rank(comm, &rank);
+  MPI_Comm_size(comm, &mpi_size);
+  if (mpi_size == 1) { // no worker to share the work with
+    return TwoSiteFiniteTDVP(mps, mpo, sweep_params, measure_file_base_name);
+  }
   const size_t N = mps.size();
   DynamicMeasuRes<TenElemT> measure_res(N * (sweep_params.step + 1));
   if (rank == kMPIMasterRank) {
-- 
2.43.0


From 9d688526a9efbcfaa385fc5f739b47fd466ca92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:52 +0000
Subject: [PATCH 28/32] fix: MPI noised two-site vMPS leaves no tensor in
 memory at its end

---
 .../vmps/two_site_update_noised_finite_vmps_mpi_impl.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index ae400d7..f7218a5 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -149,9 +149,9 @@ void NoisedVMPSPostProcess(
   for (size_t site = center; site > 0; site--) {
     mps.LoadTen(sweep_params.mps_path, site - 1);
     mps.RightCanonicalizeTen(site);
-    mps.DumpTen(sweep_params.mps_path, site);
+    mps.DumpTen(site, GenMPSTenName(sweep_params.mps_path, site), true);
   }
-  mps.DumpTen(sweep_params.mps_path, 0);
+  mps.DumpTen(0, GenMPSTenName(sweep_params.mps_path, 0), true);
   std::cout << "Moved the center of MPS to 0." << std::endl;
 }
 
-- 
2.43.0


From 3d51f2f97443eb01a5f1b0bc1bd39ca052ffe853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:52 +0000
Subject: [PATCH 29/32] fix: MPI noised two-site vMPS fuses the right bonds in
 one direction when it expands to the right

---
 ..._site_update_noised_finite_vmps_mpi_impl.h | 39 +++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index f7218a5..0d93576 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -138,6 +138,32 @@ QLTEN_Double MasterTwoSiteFiniteVMPSWithNoise(
   return e0;
 }
 
+/**
+ * The right bond of the MPO tensor in the other direction, i.e. the negated quantum numbers in the reversed
+ * index. Only indices of the same direction can be fused, and right canonicalization by QR leaves
+ * right bonds of the MPS with direction IN.
+ */
+template<typename QNT>
+Index<QNT> ReversedBond(const Index<QNT> &bond) {
+  QNSectorVec<QNT> qnscts;
+  for (const auto &qnsct : bond.GetQNScts()) {
+    qnscts.push_back(QNSector<QNT>(-qnsct.GetQn(), qnsct.GetDegeneracy()));
+  }
+  return Index<QNT>(qnscts, InverseIndex(bond).GetDir());
+}
+
+/// The MPO tensor with its right bond in the other direction
+template<typename TenElemT, typename QNT>
+QLTensor<TenElemT, QNT> ReverseRightBond(const QLTensor<TenElemT, QNT> &mpo_ten) {
+  const Index<QNT> &bond = mpo_ten.GetIndexes()[3];
+  QLTensor<TenElemT, QNT> reverser({InverseIndex(bond), ReversedBond(bond)}), res;
+  for (size_t i = 0; i < bond.dim(); i++) {
+    reverser({i, i}) = TenElemT(1.0);
+  }
+  Contract(&mpo_ten, &reverser, {{3}, {0}}, &res);
+  return res;
+}
+
 ///< Move center from left_boundary_ + 1 to 0
 template<typename TenElemT, typename QNT>
 void NoisedVMPSPostProcess(
@@ -519,9 +545,10 @@ void MasterTwoSiteFiniteVMPSRightMovingExpand(
 
   Index<QNT> index_a = gs_vec->GetIndexes()[3];
   std::vector<qlten::QNSctsOffsetInfo> qnscts_offset_info_list;
+  const Index<QNT> &mpo_right_bond = eff_ham[2]->GetIndexes()[3];
   Index<QNT> index_b = FuseTwoIndexAndRecordInfo(
       index_a,
-      eff_ham[2]->GetIndexes()[3],
+      index_a.GetDir() == mpo_right_bond.GetDir() ? mpo_right_bond : ReversedBond(mpo_right_bond),
       qnscts_offset_info_list
   );
   std::map<size_t, int> b_idx_qnsct_coor_expanded_idx_qnsct_coor_map;
@@ -636,6 +663,12 @@ void SlaveTwoSiteFiniteVMPSRightMovingExpand(
   salve_communication_timer.Suspend();
   Timer slave_work_timer(" slave " + std::to_string(worker) + "'s work");
 #endif
+  TenT reversed_mpo_ten;
+  const TenT *right_mpo_ten = eff_ham[2];
+  if (ground_state.GetIndexes()[3].GetDir() != right_mpo_ten->GetIndexes()[3].GetDir()) {
+    reversed_mpo_ten = ReverseRightBond(*right_mpo_ten);
+    right_mpo_ten = &reversed_mpo_ten;
+  }
   size_t task = worker - 1;
   TenT eff_ham0_times_state;
   TenT temp, res;
@@ -655,7 +688,7 @@ void SlaveTwoSiteFiniteVMPSRightMovingExpand(
   Contract(&eff_ham0_times_state, eff_ham[1], {{1, 2},
                                                {0, 1}}, &temp);
   eff_ham0_times_state.GetBlkSparDataTen().Clear();// save for memory
-  Contract(&temp, eff_ham[2], {{4, 1},
+  Contract(&temp, right_mpo_ten, {{4, 1},
                                {0, 1}}, &res);
   temp.GetBlkSparDataTen().Clear();
   res.FuseIndex(1, 4);
@@ -681,7 +714,7 @@ void SlaveTwoSiteFiniteVMPSRightMovingExpand(
     Contract(&eff_ham0_times_state, eff_ham[1], {{1, 2},
                                                  {0, 1}}, &temp);
     eff_ham0_times_state.GetBlkSparDataTen().Clear();// save for memory
-    Contract(&temp, eff_ham[2], {{4, 1},
+    Contract(&temp, right_mpo_ten, {{4, 1},
                                  {0, 1}}, &res);
     temp.GetBlkSparDataTen().Clear();
     res.FuseIndex(1, 4);
-- 
2.43.0


From 34f8c8f1dade7c3b1930ce4c3c08ae474e8d7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:52 +0000
Subject: [PATCH 30/32] fix: FiniteMPS::LoadTen of an uncentralized MPS writes
 nothing that other threads use

---
 include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
index d59fe2c..e379701 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
@@ -109,7 +109,9 @@ class FiniteMPS : public MPS<TenElemT, QNT> {
   // A loaded tensor comes without any knowledge of its canonical form.
   void LoadTen(const size_t idx, const std::string &file) {
     tens_cano_type_[idx] = MPSTenCanoType::NONE;
-    center_ = kUncentralizedCenterIdx;
+    if (center_ != kUncentralizedCenterIdx) { // different sites may be loaded by different threads
+      center_ = kUncentralizedCenterIdx;
+    }
     MPS<TenElemT, QNT>::LoadTen(idx, file);
   }
 
-- 
2.43.0


From 8fe5c17bcbd926e97e1f61891050c1d9d49d6c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:21 +0000
Subject: [PATCH 31/32] fix: DMRG stopped by a signal between two sweeps dumps
 its last MPS tensor

---
 include/qlmps/algorithm/dmrg/dmrg_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/dmrg/dmrg_impl.h b/include/qlmps/algorithm/dmrg/dmrg_impl.h
index 9e6395c..49cbc3e 100644
--- a/include/qlmps/algorithm/dmrg/dmrg_impl.h
+++ b/include/qlmps/algorithm/dmrg/dmrg_impl.h
@@ -157,7 +157,9 @@ void DMRGExecutor<TenElemT, QNT>::Execute() {
       break; // stop in advance
     }
   }
-  if (!emergency_stop_requested_.load()) {
+  // An emergency stop within the sweep has already dumped the last tensor; a signal
+  // which arrives after the last update of a sweep has not.
+  if (!mps_.empty()) {
     mps_.DumpTen(left_boundary_ + 1, GenMPSTenName(sweep_params.mps_path, left_boundary_ + 1), true);
     DMRGPostProcess_();
   }
-- 
2.43.0


From 15e8d36068b56f55b239233ca7fb4aea3b7e8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:06 +0000
Subject: [PATCH 32/32] fix: MPOGenerator accepts a two-body term whose second
 operator is on site 0 in builds with assertions

---
 include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
index 232bb4c..fe970cf 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
@@ -266,7 +266,7 @@ void MPOGenerator<TenElemT, QNT>::AddTerm(
     std::vector<size_t> local_ops_idxs = {op1_idx};
     AddTerm(coef, local_ops, local_ops_idxs);     // Use the most generic API
   } else {                      // Two-body interaction term
-    assert(op2_idx != 0);
+    assert(op1_idx != op2_idx);
     if (inst_op == QLTensorT()) {     // Trivial insertion operator
       AddTerm(coef, {op1, op2}, {op1_idx, op2_idx});
     } else {                          // Non-trivial insertion operator
-- 
2.43.0

