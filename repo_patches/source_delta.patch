From 8237e584abc1f637c467bb05026d3f40137e9f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:27 +0000
Subject: [PATCH 01/14] fix: DensePatch::to_sparse_patch keeps the label and
 operation id of the patch

---
 src/patches/patches.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patches/patches.cpp b/src/patches/patches.cpp
index 1beb25d..9ad4b85 100644
--- a/src/patches/patches.cpp
+++ b/src/patches/patches.cpp
@@ -317,7 +317,7 @@ void CellBoundaries::instant_rotate()
 
 SparsePatch DensePatch::to_sparse_patch(const Cell& c) const
 {
-    return SparsePatch{{type, activity, id}, SingleCellOccupiedByPatch{{boundaries}, c}};
+    return SparsePatch{static_cast<const Patch&>(*this), SingleCellOccupiedByPatch{{boundaries}, c}};
 }
 DensePatch DensePatch::from_sparse_patch(const SparsePatch& sp)
 {
-- 
2.43.0


From cad5161909b4b29e7a4de997481cb7d772b2985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:27 +0000
Subject: [PATCH 02/14] fix: placing a patch on several cells keeps its type,
 activity, id and label

---
 src/patches/dense_slice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patches/dense_slice.cpp b/src/patches/dense_slice.cpp
index 6a1d72e..bc9cc43 100644
--- a/src/patches/dense_slice.cpp
+++ b/src/patches/dense_slice.cpp
@@ -215,7 +215,7 @@ void DenseSlice::place_sparse_patch(const SparsePatch& sparse_patch, bool distil
     else 
     {
         for (const SingleCellOccupiedByPatch& patch : occupied_cells->sub_cells)
-            place_single_cell_sparse_patch(SparsePatch{.cells=patch}, distillation);
+            place_single_cell_sparse_patch(SparsePatch{static_cast<const Patch&>(sparse_patch), patch}, distillation);
     }
 }
 
-- 
2.43.0


From 38c05cc974fdd92c2be4a79e1a80d412f91f71cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:10 +0000
Subject: [PATCH 03/14] fix: split_on never compares past the end of the text

---
 include/lstk/lstk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 23f27c3..2d47e60 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -115,7 +115,8 @@ static inline std::vector<std::string_view> split_on(std::string_view s, std::st
 
     while (accum_end != s.end())
     {
-        if (std::equal(delim.begin(), delim.end(), accum_end))
+        if (static_cast<size_t>(std::distance(accum_end, s.end())) >= delim.size()
+            && std::equal(delim.begin(), delim.end(), accum_end))
         {
             push_accum_to_ret();
             accum_end += delim.size(); // skip the delim
@@ -128,7 +129,7 @@ static inline std::vector<std::string_view> split_on(std::string_view s, std::st
         push_accum_to_ret();
 
     // Add a trailing empty string when finishing on a delimiter
-    else if(accum_begin > s.begin() && std::equal(delim.begin(), delim.end(), accum_end)) ret.push_back("");
+    else if(accum_begin > s.begin()) ret.push_back("");
 
     return ret;
 }
-- 
2.43.0


From 057f05d086013697c8d1191fc22939e62b07dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:10 +0000
Subject: [PATCH 04/14] fix: str_replace keeps the text after the last replaced
 character

---
 include/lstk/lstk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 2d47e60..cf2fbed 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -217,6 +217,7 @@ static inline std::string str_replace(std::string_view s, char target, std::stri
         out << s.substr(0,s.find(target)) << replace_with;
         s = s.substr(s.find(target)+1,s.length());
     }
+    out << s;
     return out.str();
 }
 
-- 
2.43.0


From ca9a9e190b1b88e77ff8bc6698a27438cf05ca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:36 +0000
Subject: [PATCH 05/14] fix: join writes a leading number as a number, not as a
 character

---
 include/lstk/lstk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index cf2fbed..5bfd328 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -260,7 +260,7 @@ std::string join(IterableOfStringifiables iterable_of_stringifiables, std::strin
     bool begin = true;
     for(const auto& v: iterable_of_stringifiables)
     {
-        if(begin) acc = v;
+        if(begin) acc = lstk::cat(v);
         else acc = lstk::cat(acc, separator, v);
         begin = false;
     }
-- 
2.43.0


From 4133a7f78677a1d5a833a279561bd73887b334f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 06/14] fix: the qubits of a reset gate are reported instead of
 throwing

---
 src/gates/gates.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index f22577f..de6e2c4 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -161,14 +161,14 @@ tsl::ordered_set<QubitNum> get_operating_qubits(const Gate& gate)
                 [&](const RZ& tg){
                     res.insert(tg.target_qubit);
                 },
-                [&](const Reset& reset){
-                    res.insert(reset.target_qubit);
-                },
                 [&](const auto&){
                     LSTK_UNREACHABLE;
                 }
             }, g.target_gate);
         },
+        [&](const Reset& reset){
+            res.insert(reset.target_qubit);
+        },
         [&](const auto&){
             LSTK_UNREACHABLE;
         }
-- 
2.43.0


From 3315607475e406edc907630e8b758452cc62f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:40 +0000
Subject: [PATCH 07/14] fix: decomposing a controlled rotation keeps the sign
 of its angle

---
 src/gates/gates.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index de6e2c4..9d5718b 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -22,21 +22,24 @@ std::vector<Gate> decompose_CRZ_gate(const ControlledGate &crz_gate, double rz_p
     std::vector<Gate> res;
     lstk::vector_extend(res, decompose(
             RZ{crz_gate.control_qubit, Fraction{rz_gate.pi_fraction.num,
-                                                rz_gate.pi_fraction.den * 2}},
+                                                rz_gate.pi_fraction.den * 2,
+                                                rz_gate.pi_fraction.is_negative}},
             rz_precision_log_ten_negative
         )
     );
     lstk::vector_extend(res, decompose(
             RZ{rz_gate.target_qubit, Fraction{rz_gate.pi_fraction.num,
-                                              rz_gate.pi_fraction.den * 2}},
+                                              rz_gate.pi_fraction.den * 2,
+                                              rz_gate.pi_fraction.is_negative}},
             rz_precision_log_ten_negative
         )
     );
     res.emplace_back(
             CNOT(rz_gate.target_qubit, crz_gate.control_qubit, crz_gate.cnot_type, crz_gate.cnot_ancilla_placement));
     lstk::vector_extend(res, decompose(
-            RZ{rz_gate.target_qubit, Fraction{-rz_gate.pi_fraction.num,
-                                              rz_gate.pi_fraction.den * 2}},
+            RZ{rz_gate.target_qubit, Fraction{rz_gate.pi_fraction.num,
+                                              rz_gate.pi_fraction.den * 2,
+                                              !rz_gate.pi_fraction.is_negative}},
             rz_precision_log_ten_negative
         )
     );
-- 
2.43.0


From 1b3ac61b4a80e6f056192a6f19c36d1b2a656251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:01 +0000
Subject: [PATCH 08/14] fix: a rotation by minus pi/2 becomes the inverse S
 gate

---
 src/ls_instructions/ls_instruction_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index a72b382..1779ee9 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -101,7 +101,7 @@ LSInstruction LSInstructionStreamFromGateStream::get_next_instruction()
             if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 1)
                 next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::Z}}});
             else if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 2)
-                next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::S}}});
+                next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::S, rz_gate->pi_fraction.is_negative}}});
             else if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 4)
             {
                 auto instructions = instruction_generator_.make_t_gate_instructions(rz_gate->target_qubit);
-- 
2.43.0


From ab9eb1060681016846ab1dedf23a275bc642b3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:31 +0000
Subject: [PATCH 09/14] fix: only a distilling cell turns into a magic state
 when its clock runs out

A reserved cell whose state is being rotated holds a busy patch and has its clock at
zero; it was overwritten by a second magic state.
---
 src/patches/dense_patch_computation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index da43fae..12b8ce5 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -130,8 +130,7 @@ void advance_slice(DenseSlice& slice, const Layout& layout)
 
             if (slice.time_to_next_magic_state_by_distillation_region[reserved_cell_index] == 0)
             {
-                if ((slice.patch_at(cell)->type != PatchType::PreparedState) &&
-                    (slice.patch_at(cell)->type != PatchType::Qubit))
+                if (slice.patch_at(cell)->type == PatchType::Distillation)
                 {
                     SparsePatch magic_state_patch = LayoutHelpers::basic_square_patch(cell, std::nullopt, "Magic State");
                     magic_state_patch.type = PatchType::PreparedState;
-- 
2.43.0


From c75d03dacda0b60fd5d67e169c8133295f7fab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:47 +0000
Subject: [PATCH 10/14] fix: a local joint measurement through the wrong
 boundary is refused

---
 src/patches/dense_patch_computation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 12b8ce5..7f39ba6 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -830,12 +830,12 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             if (((b1.boundary_type == BoundaryType::Rough) && (source_op != PauliOperator::X)) ||
                 ((b1.boundary_type == BoundaryType::Smooth) && (source_op != PauliOperator::Z)))
             {
-                std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
+                throw std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
             } 
             if (((b2.boundary_type == BoundaryType::Rough) && (target_op != PauliOperator::X)) ||
                 ((b2.boundary_type == BoundaryType::Smooth) && (target_op != PauliOperator::Z)))
             {
-                std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
+                throw std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
             } 
 
             // Apply TwoPatchMeasure local instruction
-- 
2.43.0


From 898ebec0c76b116a48a8e08f6d7bc1e5b092c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:47 +0000
Subject: [PATCH 11/14] fix: looking for a Y state skips empty predistilled
 cells

---
 src/patches/dense_patch_computation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 7f39ba6..1cd1def 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1339,7 +1339,7 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                 double dist;
                 for (const Cell& cell : layout.predistilled_y_states())
                 {
-                    if (!slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
+                    if (slice.patch_at(cell) && !slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
                     {
                         dist = abs(cell.col - slice.get_cell_by_id(yr->near_patch).value().col) + abs(cell.row - slice.get_cell_by_id(yr->near_patch).value().row);
                         if (dist < min_dist)
-- 
2.43.0


From 100d4a62e9e328a19c1428eabac24a61c470ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:56 +0000
Subject: [PATCH 12/14] fix: removing an edge the graph does not have is a
 no-op

remove_edge handed end() to erase when both nodes exist but the edge does not.
---
 src/dag/directed_graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dag/directed_graph.cpp b/src/dag/directed_graph.cpp
index 2b4155c..e2747da 100644
--- a/src/dag/directed_graph.cpp
+++ b/src/dag/directed_graph.cpp
@@ -30,8 +30,8 @@ void DirectedGraph::remove_edge(label_t from, label_t to)
     if(!edges_.count(to))
         throw std::runtime_error("Cannot remove edge to non-existing node: " + std::to_string(to));
 
-    edges_.at(from).erase(std::find(edges_.at(from).begin(), edges_.at(from).end(), to));
-    back_edges_.at(to).erase(std::find(back_edges_.at(to).begin(), back_edges_.at(to).end(), from));
+    edges_.at(from).erase(to);
+    back_edges_.at(to).erase(from);
 }
 
 void DirectedGraph::remove_node(label_t target)
-- 
2.43.0


From 57cd1c5d1bdd8e79cdced4cadfb0785e78592983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:56 +0000
Subject: [PATCH 13/14] fix: remove_node iterates over copies of the adjacency
 sets

It called remove_edge, which erases from the very set being iterated over.
---
 src/dag/directed_graph.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dag/directed_graph.cpp b/src/dag/directed_graph.cpp
index e2747da..f88a350 100644
--- a/src/dag/directed_graph.cpp
+++ b/src/dag/directed_graph.cpp
@@ -39,10 +39,11 @@ void DirectedGraph::remove_node(label_t target)
     if(!edges_.count(target))
         throw std::runtime_error("Cannot remove non-existing node: " + std::to_string(target));
 
-    for(const auto& to : edges_.at(target))
+    // Iterate over copies: remove_edge erases from edges_ and back_edges_
+    for(const auto& to : successors(target))
         remove_edge(target, to);
 
-    for(const auto& from : back_edges_.at(target))
+    for(const auto& from : predecessors(target))
         remove_edge(from, target);
 
     edges_.erase(target);
-- 
2.43.0


From df92acf17817a3ae83639ad8b79c29c0f39bb267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:45 +0000
Subject: [PATCH 14/14] fix: expanding an instruction rebuilds the proximity
 pairs instead of editing them while iterating

Erasing from and inserting into proximate_dependencies_ inside the range-for
over it invalidated the iterator and the references to the current pair, so
that pairs were lost or given to the wrong instructions.
---
 include/lsqecc/dag/dependency_dag.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/lsqecc/dag/dependency_dag.hpp b/include/lsqecc/dag/dependency_dag.hpp
index b9f44d5..8e50d19 100644
--- a/include/lsqecc/dag/dependency_dag.hpp
+++ b/include/lsqecc/dag/dependency_dag.hpp
@@ -118,19 +118,12 @@ struct DependencyDag
         
 
         // Now do the proximity bookkeeping for the extremes of the replacement
-        for (auto&[from, to]: proximate_dependencies_)
-        {
-            if (from == target)
-            {
-                proximate_dependencies_.erase({from, to});
-                proximate_dependencies_.insert({new_lables.back(), to});
-            }
-            if (to == target)
-            {
-                proximate_dependencies_.erase({from, to});
-                proximate_dependencies_.insert({from, new_lables.front()});
-            }
-        }
+        SetOfPairs<label_t, label_t> updated_proximate_dependencies;
+        for (const auto& [from, to]: proximate_dependencies_)
+            updated_proximate_dependencies.insert({
+                from == target ? new_lables.back() : from,
+                to == target ? new_lables.front() : to});
+        proximate_dependencies_ = std::move(updated_proximate_dependencies);
 
         if (proximate_heads_.contains(target))
         {
-- 
2.43.0

