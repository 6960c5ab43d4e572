From 348a3dc2bb25e3bf08006d4c338e3982257d63fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:53 +0000
Subject: [PATCH 01/45] fix: prune co-region left operand with the pruned
 lifeline set when tracking affected lifelines

---
 src/core/execution/semantics/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/execution/semantics/execute.rs b/src/core/execution/semantics/execute.rs
index ef4547e..f87b703 100644
--- a/src/core/execution/semantics/execute.rs
+++ b/src/core/execution/semantics/execute.rs
@@ -337,7 +337,7 @@ fn execute_interaction_right(my_int : &Interaction,
                 let got_i1;
                 let mut aff1;
                 if lfs_to_prune.len() > 0 {
-                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&tar_lf_ids);
+                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&lfs_to_prune);
                     got_i1 = Agot_i1;
                     aff1 = Aaff1;
                 } else {
-- 
2.43.0


From 54f9a39864b235cb03fa0966bfaa1b6c07604444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:53 +0000
Subject: [PATCH 02/45] fix: recurse into the outside-loops variants so that
 loop contents are not counted

---
 .../execution/trace/from_model/interaction.rs | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/core/execution/trace/from_model/interaction.rs b/src/core/execution/trace/from_model/interaction.rs
index 422114a..c1aefec 100644
--- a/src/core/execution/trace/from_model/interaction.rs
+++ b/src/core/execution/trace/from_model/interaction.rs
@@ -89,32 +89,32 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return rc_act.get_all_atomic_actions();
             },
             &Interaction::Strict(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Seq(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::CoReg(_, ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Par(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Alt(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
@@ -122,8 +122,8 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return btreeset!{};
             },
             &Interaction::Sync(_, ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
@@ -183,25 +183,25 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return rc_act.get_all_atomic_actions().len();
             },
             &Interaction::Strict(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Seq(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::CoReg(_, ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Par(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Alt(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Loop(_, i1) => {
                 return 0;
             },
             &Interaction::Sync(_, ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             _ => {
                 panic!("non-conform interaction");
-- 
2.43.0


From 3b958b64c296ab77ff87973859dcee828b67873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:44 +0000
Subject: [PATCH 03/45] fix: map the two suffix factorization kinds to their
 own functions

---
 src/core/transformation/transfokind.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/transformation/transfokind.rs b/src/core/transformation/transfokind.rs
index 1d6f4c5..d1a8476 100644
--- a/src/core/transformation/transfokind.rs
+++ b/src/core/transformation/transfokind.rs
@@ -101,10 +101,10 @@ impl InteractionTransformationKind {
                 return transfo_factorize_par;
             },
             InteractionTransformationKind::FactorizeSuffixSeq => {
-                return transfo_factorize_suffix_strict;
+                return transfo_factorize_suffix_seq;
             },
             InteractionTransformationKind::FactorizeSuffixStrict => {
-                return transfo_factorize_suffix_seq;
+                return transfo_factorize_suffix_strict;
             },
             InteractionTransformationKind::DeFactorizeLeft => {
                 return transfo_defactorize_left;
-- 
2.43.0


From ce6d92739fef3a6aa1e573686b15601f5f16c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:30 +0000
Subject: [PATCH 04/45] fix: reverse asynchronous emissions so that their
 receptions come first

---
 src/core/language/syntax/interaction.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core/language/syntax/interaction.rs b/src/core/language/syntax/interaction.rs
index d17ade9..b7cfae5 100644
--- a/src/core/language/syntax/interaction.rs
+++ b/src/core/language/syntax/interaction.rs
@@ -18,7 +18,7 @@ limitations under the License.
 use std::collections::HashSet;
 use std::hash::Hash;
 use crate::core::execution::trace::trace::TraceAction;
-use crate::core::language::syntax::action::{EmissionAction, ReceptionAction};
+use crate::core::language::syntax::action::{CommunicationSynchronicity, EmissionAction, EmissionTargetRef, ReceptionAction};
 
 
 #[derive(Clone, PartialEq, Debug, Eq, PartialOrd, Ord, Hash)]
@@ -53,7 +53,22 @@ impl Interaction {
                 Interaction::Empty
             },
             Interaction::Emission(ref em_act) => {
-                Interaction::Emission(em_act.clone())
+                // an asynchronous emission occurs before the receptions of its lifeline targets
+                let mut lf_targets : Vec<usize> = vec![];
+                let mut other_targets : Vec<EmissionTargetRef> = vec![];
+                for tar_ref in &em_act.targets {
+                    match tar_ref {
+                        EmissionTargetRef::Lifeline(lf_id) => { lf_targets.push(*lf_id); },
+                        EmissionTargetRef::Gate(_) => { other_targets.push(tar_ref.clone()); }
+                    }
+                }
+                if em_act.synchronicity == CommunicationSynchronicity::Asynchronous && !lf_targets.is_empty() {
+                    let receptions = ReceptionAction::new(None,em_act.ms_id,CommunicationSynchronicity::Asynchronous,lf_targets);
+                    let emission = EmissionAction::new(em_act.origin_lf_id,em_act.ms_id,CommunicationSynchronicity::Asynchronous,other_targets);
+                    Interaction::Strict(Box::new(Interaction::Reception(receptions)),Box::new(Interaction::Emission(emission)))
+                } else {
+                    Interaction::Emission(em_act.clone())
+                }
             },
             Interaction::Reception(ref rc_act) => {
                 Interaction::Reception(rc_act.clone())
-- 
2.43.0


From 3d4047085d522642ef4ff9f9446a98ae21a01b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:10 +0000
Subject: [PATCH 05/45] fix: do not unfold synchronous actions into
 asynchronous ones

---
 src/core/transformation/transfofunc/action.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/transformation/transfofunc/action.rs b/src/core/transformation/transfofunc/action.rs
index 47090c2..145489f 100644
--- a/src/core/transformation/transfofunc/action.rs
+++ b/src/core/transformation/transfofunc/action.rs
@@ -49,7 +49,7 @@ pub fn transfo_sort_action_content(interaction : &Interaction) -> Vec<Interactio
 pub fn transfo_unfold_action(interaction : &Interaction) -> Vec<Interaction> {
     match interaction {
         &Interaction::Emission(ref em_act) => {
-            if em_act.targets.len() == 0 {
+            if em_act.targets.len() == 0 || em_act.synchronicity != CommunicationSynchronicity::Asynchronous {
                 // nothing to transform
                 return vec![];
             } else {
@@ -89,6 +89,10 @@ pub fn transfo_unfold_action(interaction : &Interaction) -> Vec<Interaction> {
             }
         },
         &Interaction::Reception(ref rc_act) => {
+            if rc_act.synchronicity != CommunicationSynchronicity::Asynchronous {
+                // the simultaneous receptions of a synchronous action cannot be separated
+                return vec![];
+            }
             match rc_act.recipients.len() {
                 0 => {
                     panic!("malformed interaction : reception action with 0 recipients")
-- 
2.43.0


From 955fd4c447f2445bfd23f76f06a39d8873cf17ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:08 +0000
Subject: [PATCH 06/45] fix: make the comparison operators of interactions
 follow their declared order

---
 src/core/language/ord/action.rs         | 18 ++++++++++++++++++
 src/core/language/ord/interaction.rs    |  6 ++++++
 src/core/language/syntax/action.rs      |  6 +++---
 src/core/language/syntax/interaction.rs |  2 +-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/core/language/ord/action.rs b/src/core/language/ord/action.rs
index d893830..51933f1 100644
--- a/src/core/language/ord/action.rs
+++ b/src/core/language/ord/action.rs
@@ -22,6 +22,12 @@ use crate::core::language::syntax::action::{EmissionAction, EmissionTargetRef, R
 
 
 
+impl PartialOrd for EmissionTargetRef {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl Ord for EmissionTargetRef {
     fn cmp(&self, other: &Self) -> Ordering {
         match (self,other) {
@@ -43,6 +49,12 @@ impl Ord for EmissionTargetRef {
 
 
 
+impl PartialOrd for EmissionAction {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl Ord for EmissionAction {
     fn cmp(&self, other: &Self) -> Ordering {
         if self.ms_id < other.ms_id {
@@ -93,6 +105,12 @@ impl Ord for EmissionAction {
 
 
 
+impl PartialOrd for ReceptionAction {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl Ord for ReceptionAction {
     fn cmp(&self, other: &Self) -> Ordering {
         if self.ms_id < other.ms_id {
diff --git a/src/core/language/ord/interaction.rs b/src/core/language/ord/interaction.rs
index 6f9d703..098dabd 100644
--- a/src/core/language/ord/interaction.rs
+++ b/src/core/language/ord/interaction.rs
@@ -18,6 +18,12 @@ limitations under the License.
 use std::cmp::Ordering;
 use crate::core::language::syntax::interaction::Interaction;
 
+impl PartialOrd for Interaction {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl Ord for Interaction {
     fn cmp(&self, other: &Self) -> Ordering {
         match (self,other) {
diff --git a/src/core/language/syntax/action.rs b/src/core/language/syntax/action.rs
index a7061b5..caf8593 100644
--- a/src/core/language/syntax/action.rs
+++ b/src/core/language/syntax/action.rs
@@ -20,7 +20,7 @@ use std::fmt::Debug;
 
 
 
-#[derive(Clone, PartialEq, Debug, Eq, Hash, PartialOrd)]
+#[derive(Clone, PartialEq, Debug, Eq, Hash)]
 pub enum EmissionTargetRef {
     Lifeline(usize),
     Gate(usize)
@@ -32,7 +32,7 @@ pub enum CommunicationSynchronicity {
     Synchronous
 }
 
-#[derive(Clone, PartialEq, Debug, Eq, Hash, PartialOrd)]
+#[derive(Clone, PartialEq, Debug, Eq, Hash)]
 pub struct EmissionAction {
     pub origin_lf_id : usize,
     pub ms_id : usize,
@@ -49,7 +49,7 @@ impl EmissionAction {
     }
 }
 
-#[derive(Clone, PartialEq, Debug, Eq, Hash, PartialOrd)]
+#[derive(Clone, PartialEq, Debug, Eq, Hash)]
 pub struct ReceptionAction {
     pub origin_gt_id : Option<usize>,
     pub ms_id : usize,
diff --git a/src/core/language/syntax/interaction.rs b/src/core/language/syntax/interaction.rs
index b7cfae5..26f47a7 100644
--- a/src/core/language/syntax/interaction.rs
+++ b/src/core/language/syntax/interaction.rs
@@ -29,7 +29,7 @@ pub enum LoopKind {
     SStrictSeq     = 4
 }
 
-#[derive(Clone, PartialEq, Debug, Eq, Hash, PartialOrd)]
+#[derive(Clone, PartialEq, Debug, Eq, Hash)]
 pub enum Interaction {
     Empty,
     Emission(EmissionAction),
-- 
2.43.0


From 18f58e0e6d7f37238cdfb2eb1f568c7ae1a37a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:08 +0000
Subject: [PATCH 07/45] fix: only memoize analysis nodes that remain to analyse
 the same traces

---
 src/process/ana/node/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/node/node.rs b/src/process/ana/node/node.rs
index f29a02e..c8c4c13 100644
--- a/src/process/ana/node/node.rs
+++ b/src/process/ana/node/node.rs
@@ -49,7 +49,7 @@ impl AbstractNodeKind for AnalysisNodeKind {
             for idx in 0..self.flags.canals.len() {
                 let my_canal : &TraceAnalysisFlags  = self.flags.canals.get(idx).unwrap();
                 let other_canal : &TraceAnalysisFlags = memoized_node.flags.canals.get(idx).unwrap();
-                if my_canal.consumed > other_canal.consumed {
+                if my_canal.consumed != other_canal.consumed {
                     return false;
                 }
                 if my_canal.simulated_after < other_canal.simulated_after {
@@ -58,7 +58,7 @@ impl AbstractNodeKind for AnalysisNodeKind {
                 if my_canal.simulated_before < other_canal.simulated_before {
                     return false;
                 }
-                if my_canal.no_longer_observed && !other_canal.no_longer_observed {
+                if my_canal.no_longer_observed != other_canal.no_longer_observed {
                     return false;
                 }
             }
-- 
2.43.0


From 2ff07c5c72bdd0c80714fd6f63d8f7d6e6facbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:08 +0000
Subject: [PATCH 08/45] fix: do not underflow simulation budgets that are not
 limited

---
 src/process/ana/node/flags.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/node/flags.rs b/src/process/ana/node/flags.rs
index fd0413b..f758377 100644
--- a/src/process/ana/node/flags.rs
+++ b/src/process/ana/node/flags.rs
@@ -240,14 +240,14 @@ impl MultiTraceAnalysisFlags {
         // ***
         let rem_loop_in_sim : u32;
         {
-            let removed = self.rem_loop_in_sim - loop_depth;
+            let removed = self.rem_loop_in_sim.saturating_sub(loop_depth);
             let reset = sim_config.get_reset_rem_loop(rem_multitrace_length,new_interaction);
             rem_loop_in_sim = reset.min(removed);
         }
         // ***
         let rem_act_in_sim : u32;
         {
-            let removed = self.rem_act_in_sim - 1;
+            let removed = self.rem_act_in_sim.saturating_sub(1);
             let reset = sim_config.get_reset_rem_act(rem_multitrace_length,new_interaction);
             rem_act_in_sim = reset.min(removed);
         }
-- 
2.43.0


From 2899ca85f43bb663229c37d9ed1ec6ce17530709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:08 +0000
Subject: [PATCH 09/45] fix: reset the dirty counter of a trace only when its
 local analysis was performed

---
 src/process/ana/handling/local_analysis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/process/ana/handling/local_analysis.rs b/src/process/ana/handling/local_analysis.rs
index 5df5816..3604041 100644
--- a/src/process/ana/handling/local_analysis.rs
+++ b/src/process/ana/handling/local_analysis.rs
@@ -114,10 +114,10 @@ pub fn is_dead_local_analysis(gen_ctx : &GeneralContext,
                 },
                 _ => {}
             }
+            // ***
+            // resets the dirty local counter
+            canal_flags.dirty_local_counter = 0;
         }
-        // ***
-        // resets the dirty local counter
-        canal_flags.dirty_local_counter = 0;
     }
     return None;
 }
-- 
2.43.0


From 705a04db3db98839d1296224b8ed6fb334b9c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:08 +0000
Subject: [PATCH 10/45] fix: limit the depth of local analyses as configured

---
 src/process/ana/handling/local_analysis.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/process/ana/handling/local_analysis.rs b/src/process/ana/handling/local_analysis.rs
index 3604041..9923762 100644
--- a/src/process/ana/handling/local_analysis.rs
+++ b/src/process/ana/handling/local_analysis.rs
@@ -18,6 +18,7 @@ limitations under the License.
 use std::collections::{BTreeSet, HashSet};
 use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
 use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
+use graph_process_manager_core::handler::filter::AbstractFilter;
 use graph_process_manager_core::manager::logger::AbstractProcessLogger;
 use graph_process_manager_core::manager::manager::GenericProcessManager;
 use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
@@ -27,7 +28,8 @@ use crate::core::general_context::GeneralContext;
 use crate::core::language::eliminate_lf::eliminable::LifelineEliminable;
 use crate::core::language::syntax::interaction::Interaction;
 use crate::process::ana::conf::AnalysisConfig;
-use crate::process::ana::filter::filter::AnalysisFilter;
+use crate::process::ana::filter::elim::AnalysisFilterEliminationKind;
+use crate::process::ana::filter::filter::{AnalysisFilter, AnalysisFilterCriterion};
 use crate::process::ana::node::flags::{MultiTraceAnalysisFlags, TraceAnalysisFlags};
 use crate::process::ana::node::node::AnalysisNodeKind;
 use crate::process::ana::param::anakind::AnalysisKind;
@@ -151,9 +153,9 @@ pub fn perform_local_analysis(gen_ctx : &GeneralContext,
     // ***
     let new_gen_ctx= gen_ctx.clone();
     // ***
-    let mut locana_filters : Vec<AnalysisFilter> = vec![];
+    let mut locana_filters : Vec<Box<dyn AbstractFilter<AnalysisFilterCriterion,AnalysisFilterEliminationKind>>> = vec![];
     if let Some(d) = max_depth {
-        locana_filters.push(AnalysisFilter::MaxProcessDepth(*d as u32));
+        locana_filters.push(Box::new(AnalysisFilter::MaxProcessDepth(*d as u32)));
     }
     // ***
     let init_mu_len = multi_trace_length(&local_multi_trace);
@@ -167,7 +169,7 @@ pub fn perform_local_analysis(gen_ctx : &GeneralContext,
     let mut local_analysis_manager : GenericProcessManager<AnalysisConfig> = GenericProcessManager::new(locana_ctx,
                                                                                                         locana_param,
                                                                                                         delegate,
-                                                                                                        vec![],
+                                                                                                        locana_filters,
                                                                                                         loggers,
                                                                                                         Some(AnalysisGlobalVerdict::WeakPass),
                                                                                                         true);
-- 
2.43.0


From 4730f4c4d8a58c15ebfe4a590709e429f97f77d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:41 +0000
Subject: [PATCH 11/45] fix: match every co-localization of a frontier element
 in simulation analyses

---
 src/process/ana/handling/matches.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 3a6fb43..d9a96cb 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -90,17 +90,12 @@ impl AnalysisParameterization {
                 match canal_trace.get(canal_flag.consumed) {
                     None => {},
                     Some( got_multiact ) => {
-                        let mut intersect_with_front_elt = false;
-                        let mut entirely_included_in_front_elt = true;
-                        for got_act in got_multiact {
-                            if act_left_to_match.contains(got_act) {
-                                intersect_with_front_elt = true;
-                            } else {
-                                entirely_included_in_front_elt = false;
-                            }
-                        }
-                        // ***
-                        if intersect_with_front_elt && entirely_included_in_front_elt {
+                        // the actions of the frontier element that occur on this canal
+                        let acts_on_canal : BTreeSet<TraceAction> = frt_elt.target_actions.iter()
+                            .filter(|act| context.co_localizations.get_lf_coloc_id(act.lf_id) == Some(canal_id))
+                            .cloned().collect();
+                        // the head must be exactly those actions
+                        if !acts_on_canal.is_empty() && acts_on_canal == *got_multiact {
                             match_on_canal.push(canal_id );
                             ok_canals.insert(canal_id);
                             for got_act in got_multiact {
@@ -132,12 +127,10 @@ impl AnalysisParameterization {
                     if canal_flag.consumed == canal_trace.len() {
                         to_simulate.insert( tract_coloc_id, SimulationStepKind::AfterEnd);
                         gotit = true;
-                        break;
                     } else {
                         if self.ana_kind.sim_before() && (canal_flag.consumed == 0) {
                             to_simulate.insert(tract_coloc_id,SimulationStepKind::BeforeStart);
                             gotit = true;
-                            break;
                         }
                     }
                     // *
-- 
2.43.0


From c1be8f2939db5be63ee3f32eb706e2876f392e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 12/45] fix: match synchronous actions that span several
 co-localizations

---
 src/process/ana/handling/matches.rs | 31 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index d9a96cb..e90c311 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -222,13 +222,6 @@ impl AnalysisParameterization {
                                           context : &AnalysisContext,
                                           interaction : &Interaction,
                                           flags : &MultiTraceAnalysisFlags) -> Vec<AnalysisStepKind> {
-        /**
-         TODO: this new way of computing matches has allowed partial order readuction but it has broken
-         TODO: matching for synchronous communications (e.g., the <synch> keyword)
-         TODO: indeed, we match each individual head action to a frontier element
-         TODO: but with synchronous comm several distinct head actions can be matched together with a single frontier element
-         TODO: a quick fix is easy to do but still needs to be done
-         **/
         // ***
         let mut coloc_ids_to_frontier_elts : HashMap<usize,Vec<FrontierElement>> = hashmap!{};
         let matching_heads : Vec<(usize,&BTreeSet<TraceAction>)> = {
@@ -245,14 +238,21 @@ impl AnalysisParameterization {
 
             // iter head actions
             for frt_elt in global_frontier(interaction,true) {
-                // iter head actions to look for a match
-                'iter_head : for (coloc_id,head) in head_actions.iter() {
-                    // if there is a match keeps track of frt_elt
-                    if frt_elt.target_actions == **head {
-                        coloc_ids_to_frontier_elts.entry(*coloc_id)
+                // there is a match iff, on every co-localization that is involved,
+                // the head is exactly the actions of the frontier element that occur on it
+                let involved_coloc_ids = context.co_localizations.get_coloc_ids_from_lf_ids(&frt_elt.target_lf_ids);
+                let is_match = involved_coloc_ids.iter().all(|involved_id| {
+                    let actions_on_coloc : BTreeSet<TraceAction> = frt_elt.target_actions.iter()
+                        .filter(|act| context.co_localizations.get_lf_coloc_id(act.lf_id) == Some(*involved_id))
+                        .cloned().collect();
+                    head_actions.iter().any(|(coloc_id,head)| coloc_id == involved_id && **head == actions_on_coloc)
+                });
+                // if there is a match keeps track of frt_elt (once, on the first of the involved co-localizations)
+                if is_match {
+                    if let Some(coloc_id) = involved_coloc_ids.into_iter().min() {
+                        coloc_ids_to_frontier_elts.entry(coloc_id)
                             .or_insert_with(Vec::new)
                             .push(frt_elt);
-                        break 'iter_head;
                     }
                 }
             }
@@ -271,7 +271,10 @@ impl AnalysisParameterization {
                 // chooses only this single head action
                 // as the unique successor
                 // implements linearization/partial order reduction
-                if Self::is_action_univocal_in_analysis(context,
+                // (not for the heads that are matched together with those of other co-localizations)
+                let is_matched_alone = coloc_ids_to_frontier_elts.get(coloc_id).unwrap().iter()
+                    .all(|frt_elt| frt_elt.target_actions == **head);
+                if is_matched_alone && Self::is_action_univocal_in_analysis(context,
                                                         interaction,
                                                         *coloc_id,
                                                         head) {
-- 
2.43.0


From aba26abeaa8ab3bbcd900e12324ec2373b2baca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:38 +0000
Subject: [PATCH 13/45] fix: do not conclude on a failure of a simulation
 analysis if nodes were filtered out

---
 src/process/ana/verdict/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process/ana/verdict/global.rs b/src/process/ana/verdict/global.rs
index a370ffe..5952934 100644
--- a/src/process/ana/verdict/global.rs
+++ b/src/process/ana/verdict/global.rs
@@ -162,7 +162,7 @@ impl AbstractGlobalVerdict<AnalysisLocalVerdict> for AnalysisGlobalVerdict {
     }
 
     fn update_knowing_nodes_were_filtered_out(self, has_filtered_nodes: bool) -> Self {
-        if self == AnalysisGlobalVerdict::Fail && has_filtered_nodes {
+        if (self == AnalysisGlobalVerdict::Fail || self == AnalysisGlobalVerdict::WeakFail) && has_filtered_nodes {
             AnalysisGlobalVerdict::Inconc(InconcReason::FilteredNodes)
         } else {
             self
-- 
2.43.0


From 24b19e50b7e175a9811dba285a403fa20c3c0751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:58 +0000
Subject: [PATCH 14/45] fix: prune synchronized interactions when tracking
 affected lifelines

---
 src/core/language/prune/interaction.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/core/language/prune/interaction.rs b/src/core/language/prune/interaction.rs
index 2eb7e7d..84fef7d 100644
--- a/src/core/language/prune/interaction.rs
+++ b/src/core/language/prune/interaction.rs
@@ -201,6 +201,25 @@ impl LifelinePrunable for Interaction {
                     }
                 }
             },
+            Interaction::Sync(sync_acts, i1, i2) => {
+                let (pruned_i1,mut aff1) = i1.prune_with_affected(lf_ids);
+                let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
+                aff1.extend(aff2);
+                // ***
+                let acts1 = pruned_i1.get_all_trace_actions();
+                let acts2 = pruned_i2.get_all_trace_actions();
+                if sync_acts.iter().any(|act| acts1.contains(act) || acts2.contains(act)) {
+                    return (Interaction::Sync(sync_acts.clone(),
+                                              Box::new(pruned_i1) ,
+                                              Box::new(pruned_i2)),aff1);
+                } else if pruned_i1 == Interaction::Empty {
+                    return (pruned_i2,aff1);
+                } else if pruned_i2 == Interaction::Empty {
+                    return (pruned_i1,aff1);
+                } else {
+                    return (Interaction::Par( Box::new(pruned_i1) , Box::new(pruned_i2) ),aff1);
+                }
+            },
             Interaction::Strict(i1, i2) => {
                 let (pruned_i1,mut aff1) = i1.prune_with_affected(lf_ids);
                 let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
-- 
2.43.0


From 2c01979d4924c4a462bcb48fa59fac1a9e7341c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:36 +0000
Subject: [PATCH 15/45] fix: report unknown gates as gates

---
 src/core/general_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/general_context.rs b/src/core/general_context.rs
index d88f0ac..5723fc7 100644
--- a/src/core/general_context.rs
+++ b/src/core/general_context.rs
@@ -145,7 +145,7 @@ impl GeneralContext {
     pub fn get_gt_name(&self, gt_id : usize) -> Result<String,HibouCoreError> {
         match self.gt_names.get(gt_id) {
             None => {
-                return Err( HibouCoreError::UnknownMessage(gt_id) );
+                return Err( HibouCoreError::UnknownGate(gt_id) );
             },
             Some( gt_name ) => {
                 return Ok( gt_name.to_string() );
-- 
2.43.0


From f7d5cf4bd05ded1cd7da79d951b7a85afbb49d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 16/45] fix: do not translate weak sequences to automata by
 concatenation

---
 src/nfa_translation/compositional.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/nfa_translation/compositional.rs b/src/nfa_translation/compositional.rs
index 2c3a01e..79dd51b 100644
--- a/src/nfa_translation/compositional.rs
+++ b/src/nfa_translation/compositional.rs
@@ -81,15 +81,10 @@ fn get_nfa_from_interaction_via_composition_rec(gen_ctx : &GeneralContext,
                                                                         alphabet.clone());
                 nfa1.interleave(nfa2).unwrap().trim()
             },
-            Interaction::Seq(i1,i2) => {
-                let nfa1 = get_nfa_from_interaction_via_composition_rec(
-                    gen_ctx,
-                    i1,
-                    alphabet.clone());
-                let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
-                                                                        i2,
-                                                                        alphabet.clone());
-                nfa1.concatenate(nfa2).unwrap().trim()
+            Interaction::Seq(_,_) => {
+                // weak sequencing is not a composition of languages (its operands may overlap)
+                let (nfa,_) = get_nfa_from_interaction_exploration(gen_ctx,int,alphabet);
+                nfa.trim()
             },
             Interaction::Strict(i1,i2) => {
                 let nfa1 = get_nfa_from_interaction_via_composition_rec(
-- 
2.43.0


From 684e4ef3f36c1805d134369b4da30c9d9768c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:35 +0000
Subject: [PATCH 17/45] fix: give each simultaneous action its own letter in
 automata

---
 src/nfa_translation/get_nfa_from_logger.rs | 17 +++++++++++++----
 src/ui/commands/cli_nfa_ana.rs             |  6 +++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/nfa_translation/get_nfa_from_logger.rs b/src/nfa_translation/get_nfa_from_logger.rs
index 0caa60c..0f6e893 100644
--- a/src/nfa_translation/get_nfa_from_logger.rs
+++ b/src/nfa_translation/get_nfa_from_logger.rs
@@ -17,7 +17,7 @@ limitations under the License.
 
 
 
-use std::collections::{BTreeSet, HashSet};
+use std::collections::BTreeSet;
 use std::time::{Duration, Instant};
 use autour_core::nfa::nfa::AutNFA;
 use autour_core::traits::translate::AutTranslatable;
@@ -42,8 +42,17 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
                                             int : &Interaction,
                                             base_alphabet : Vec<BTreeSet<TraceAction>>)
             -> (AutNFA<usize>,Duration) {
+    let (nfa,_,elapsed_get_nfa) = get_nfa_and_letters_from_interaction_exploration(gen_ctx,int,base_alphabet);
+    (nfa,elapsed_get_nfa)
+}
+
+/// also returns the letters of the automaton i.e. those of the base alphabet
+/// followed by those that were met during the exploration (actions that are executed simultaneously)
+pub fn get_nfa_and_letters_from_interaction_exploration(gen_ctx : &GeneralContext,
+                                            int : &Interaction,
+                                            base_alphabet : Vec<BTreeSet<TraceAction>>)
+            -> (AutNFA<usize>,Vec<BTreeSet<TraceAction>>,Duration) {
 
-    let usize_alphabet : HashSet<usize> = (0..base_alphabet.len()).collect();
     let max_loop_depth = int.total_loop_num()*2;
     let nfa_logger = GenericNFAITLogger::new(
         ActionNFAITPrinter::new(base_alphabet,
@@ -80,7 +89,7 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
     let mut nfa = nfa_logger.get_nfait().to_nfa();
     let printer = nfa_logger.builder_printer.clone();
     // ***
-    nfa.alphabet = usize_alphabet;
+    nfa.alphabet = (0..printer.index_to_action_map.len()).collect();
     // ***
-    return (nfa, elapsed_get_nfa);
+    return (nfa, printer.index_to_action_map, elapsed_get_nfa);
 }
\ No newline at end of file
diff --git a/src/ui/commands/cli_nfa_ana.rs b/src/ui/commands/cli_nfa_ana.rs
index eb34da5..fe9e443 100644
--- a/src/ui/commands/cli_nfa_ana.rs
+++ b/src/ui/commands/cli_nfa_ana.rs
@@ -49,7 +49,7 @@ use crate::io::input::hif::interface::parse_hif_file;
 use crate::io::input::htf::interface::parse_htf_file;
 use crate::io::output::draw_interactions::interface::{draw_interaction, InteractionGraphicalRepresentation};
 use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
-use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
+use crate::nfa_translation::get_nfa_from_logger::get_nfa_and_letters_from_interaction_exploration;
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 
 
@@ -83,12 +83,12 @@ pub fn cli_nfa_ana(matches : &ArgMatches) -> (Vec<String>,u32) {
                             }
                             let trace = multi_trace.remove(0);
 
-                            let (nfa,elapsed_get_nfa) = get_nfa_from_interaction_exploration(
+                            let (nfa,letters,elapsed_get_nfa) = get_nfa_and_letters_from_interaction_exploration(
                                 &gen_ctx,
                                 &int,
                                 get_alphabet_from_gen_ctx(&gen_ctx));
 
-                            let printer = ActionNFAITPrinter::new(get_alphabet_from_gen_ctx(&gen_ctx),gen_ctx);
+                            let printer = ActionNFAITPrinter::new(letters,gen_ctx);
 
                             if matches.is_present("draw_transformation") {
                                 let int_name = format!("{}_int",file_name);
-- 
2.43.0


From 87cd26e97bf51561c8d6df7b9836e3b75ef9435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:51 +0000
Subject: [PATCH 18/45] fix: make automata of sub-interactions agree on their
 letters

---
 src/nfa_translation/compositional.rs | 63 ++++++++++++++--------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/src/nfa_translation/compositional.rs b/src/nfa_translation/compositional.rs
index 79dd51b..a8bdca9 100644
--- a/src/nfa_translation/compositional.rs
+++ b/src/nfa_translation/compositional.rs
@@ -25,7 +25,7 @@ use autour_core::traits::transform::AutTransformable;
 use crate::core::execution::trace::trace::{TraceAction, TraceActionKind};
 use crate::core::general_context::GeneralContext;
 use crate::core::language::syntax::interaction::{Interaction, LoopKind};
-use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
+use crate::nfa_translation::get_nfa_from_logger::get_nfa_and_letters_from_interaction_exploration;
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 
 pub fn interaction_has_only_strict_and_seq(int : &Interaction) -> bool {
@@ -46,61 +46,43 @@ pub fn interaction_has_only_strict_and_seq(int : &Interaction) -> bool {
 
 pub fn get_nfa_from_interaction_via_composition(gen_ctx : &GeneralContext,
                                             int : &Interaction,
-                                                base_alphabet : Vec<BTreeSet<TraceAction>>) -> (AutNFA<usize>,Duration) {
+                                                mut base_alphabet : Vec<BTreeSet<TraceAction>>) -> (AutNFA<usize>,Duration) {
     let now = Instant::now();
-    let nfa = get_nfa_from_interaction_via_composition_rec(gen_ctx,int,base_alphabet);
+    let nfa = get_nfa_from_interaction_via_composition_rec(gen_ctx,int,&mut base_alphabet);
     let elapsed_get_nfa = now.elapsed();
     (nfa,elapsed_get_nfa)
 }
 
+// the alphabet is extended with the actions that are executed simultaneously so that
+// the automata of the sub-interactions agree on their letters
 fn get_nfa_from_interaction_via_composition_rec(gen_ctx : &GeneralContext,
                                             int : &Interaction,
-                                                alphabet : Vec<BTreeSet<TraceAction>>) -> AutNFA<usize> {
+                                                alphabet : &mut Vec<BTreeSet<TraceAction>>) -> AutNFA<usize> {
     if interaction_has_only_strict_and_seq(int) {
-        let (nfa,_) = get_nfa_from_interaction_exploration(gen_ctx,int,alphabet);
-        nfa
+        get_nfa_via_exploration(gen_ctx,int,alphabet)
     } else {
         match int {
             Interaction::Alt(i1,i2) => {
-                let nfa1 = get_nfa_from_interaction_via_composition_rec(
-                    gen_ctx,
-                    i1,
-                    alphabet.clone());
-                let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
-                                                                        i2,
-                                                                        alphabet.clone());
+                let (nfa1,nfa2) = get_nfas_of_operands(gen_ctx,i1,i2,alphabet);
                 nfa1.unite(nfa2).unwrap().trim()
             },
             Interaction::Par(i1,i2) => {
-                let nfa1 = get_nfa_from_interaction_via_composition_rec(
-                    gen_ctx,
-                    i1,
-                    alphabet.clone());
-                let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
-                                                                        i2,
-                                                                        alphabet.clone());
+                let (nfa1,nfa2) = get_nfas_of_operands(gen_ctx,i1,i2,alphabet);
                 nfa1.interleave(nfa2).unwrap().trim()
             },
             Interaction::Seq(_,_) => {
                 // weak sequencing is not a composition of languages (its operands may overlap)
-                let (nfa,_) = get_nfa_from_interaction_exploration(gen_ctx,int,alphabet);
-                nfa.trim()
+                get_nfa_via_exploration(gen_ctx,int,alphabet).trim()
             },
             Interaction::Strict(i1,i2) => {
-                let nfa1 = get_nfa_from_interaction_via_composition_rec(
-                    gen_ctx,
-                    i1,
-                    alphabet.clone());
-                let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
-                                                                        i2,
-                                                                        alphabet.clone());
+                let (nfa1,nfa2) = get_nfas_of_operands(gen_ctx,i1,i2,alphabet);
                 nfa1.concatenate(nfa2).unwrap().trim()
             },
             Interaction::Loop(lk,i1) => {
                 let nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
                     i1,
-                    alphabet.clone());
+                    alphabet);
                 match lk {
                     LoopKind::SStrictSeq => {
                         nfa1.kleene().trim()
@@ -111,4 +93,23 @@ fn get_nfa_from_interaction_via_composition_rec(gen_ctx : &GeneralContext,
             _ => {panic!()}
         }
     }
-}
\ No newline at end of file
+}
+
+fn get_nfas_of_operands(gen_ctx : &GeneralContext,
+                        i1 : &Interaction,
+                        i2 : &Interaction,
+                        alphabet : &mut Vec<BTreeSet<TraceAction>>) -> (AutNFA<usize>,AutNFA<usize>) {
+    let mut nfa1 = get_nfa_from_interaction_via_composition_rec(gen_ctx,i1,alphabet);
+    let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,i2,alphabet);
+    nfa1.alphabet = nfa2.alphabet.clone();
+    (nfa1,nfa2)
+}
+
+fn get_nfa_via_exploration(gen_ctx : &GeneralContext,
+                           int : &Interaction,
+                           alphabet : &mut Vec<BTreeSet<TraceAction>>) -> AutNFA<usize> {
+    let (nfa,letters,_) = get_nfa_and_letters_from_interaction_exploration(gen_ctx,int,alphabet.clone());
+    *alphabet = letters;
+    nfa
+}
+
-- 
2.43.0


From 9ac07cf927175d80d193e9395d129742742c11a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 19/45] fix: labels starting with the letter of the empty
 interaction can begin a communication in .hif files

---
 src/io/input/hif/hif_syntax.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hif/hif_syntax.pest b/src/io/input/hif/hif_syntax.pest
index 7050ae4..791ab2f 100644
--- a/src/io/input/hif/hif_syntax.pest
+++ b/src/io/input/hif/hif_syntax.pest
@@ -83,8 +83,7 @@ SD_LOOP = {"loop" ~ (SD_LOOP_KIND_S | SD_LOOP_KIND_H | SD_LOOP_KIND_W | SD_LOOP_
 SD_LOOP_INT = { SD_LOOP ~ "(" ~ SD_INTERACTION ~ ")" }
 
 
-SD_INTERACTION = { SD_EMPTY_INTERACTION
-		| SD_COMMUNICATION_ACTION
+SD_INTERACTION = { SD_COMMUNICATION_ACTION
         | SD_STRICT_INT
         | SD_SEQ_INT
         | SD_COREG_INT
@@ -93,6 +92,7 @@ SD_INTERACTION = { SD_EMPTY_INTERACTION
         | SD_LOOP_INT
         | SD_SYNC_INT
         | SD_AND_INT
+        | SD_EMPTY_INTERACTION
         }
 
 
-- 
2.43.0


From 0357ae6774b1b8273d754b743dbd20950bc34f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:52 +0000
Subject: [PATCH 20/45] fix: a trace given without co-localizations is over all
 the lifelines

---
 src/io/input/htf/implem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/htf/implem.rs b/src/io/input/htf/implem.rs
index e5fca20..ccdfc78 100644
--- a/src/io/input/htf/implem.rs
+++ b/src/io/input/htf/implem.rs
@@ -52,7 +52,7 @@ pub fn multitrace_from_text(gen_ctx : &GeneralContext,
                             return Err(e);
                         },
                         Ok( got_trace ) => {
-                            let co_localization = CoLocalizations::get_trivial_partition(lifelines.len());
+                            let co_localization = CoLocalizations::get_trivial_partition(gen_ctx.get_lf_num());
                             let multi_trace : MultiTrace = vec![got_trace];
                             return Ok( (co_localization,multi_trace) );
                         }
-- 
2.43.0


From c4cd3947eecd3dfc847b5fd0587c1673c2d93486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:52 +0000
Subject: [PATCH 21/45] fix: a lifeline listed in two co-localizations of a
 .htf file is an error

---
 src/io/input/htf/multi_trace.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/input/htf/multi_trace.rs b/src/io/input/htf/multi_trace.rs
index c501d09..a1354a8 100644
--- a/src/io/input/htf/multi_trace.rs
+++ b/src/io/input/htf/multi_trace.rs
@@ -82,6 +82,9 @@ pub fn trace_canal_from_pair(gen_ctx : &GeneralContext,
                         return Err( HibouParsingError::MissingLifelineDeclarationError(lf_name));
                     },
                     Some( lf_id ) => {
+                        if unavailable_lifelines.contains(&lf_id) {
+                            return Err( HibouParsingError::NonDisjointTraceComponents );
+                        }
                         lifelines.insert(lf_id);
                     }
                 }
-- 
2.43.0


From f1cdb848dcd3c700fc4f625e909a97642bc69321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:51 +0000
Subject: [PATCH 22/45] fix: shadowed spellings of options in .hcf files are
 recognised (nfait, parent_folder, modulo_each_X_steps, search_all = false)

---
 src/io/input/hcf/hcf_syntax.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index a3b57d1..386c2fe 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -42,7 +42,7 @@ GRAPHIC_LOGGER_draw_term_tree = { "draw_tt" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_sub_processes = { "draw_sub_processes" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_legend = { "draw_legend" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 
-GRAPHIC_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+GRAPHIC_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 GRAPHIC_LOGGER_output_file = { ("output"|"name") ~ "=" ~ HIBOU_LABEL }
 
 GRAPHIC_LOGGER_opt = _{ GRAPHIC_LOGGER_format
@@ -71,7 +71,7 @@ TRACEGEN_LOGGER_partition_trivial = { "trivial" }
 TRACEGEN_LOGGER_partition_specific = { "{" ~ HIBOU_LABEL_LIST ~ ("," ~ HIBOU_LABEL_LIST)*  ~ "}" }
 TRACEGEN_LOGGER_partition = _{ "partition" ~ "=" ~ (TRACEGEN_LOGGER_partition_discrete | TRACEGEN_LOGGER_partition_trivial | TRACEGEN_LOGGER_partition_specific) }
 
-TRACEGEN_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+TRACEGEN_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_trace_prefix = { ("name_prefix"|"trace_prefix"|"prefix") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_no_duplicate = { ("avoid_duplicates"|"prevent_duplicates"|"no_duplicates") ~ "=" ~ (HIBOU_true|HIBOU_false) }
 
@@ -84,7 +84,7 @@ TRACEGEN_LOGGER_opt = _{ TRACEGEN_LOGGER_gen_kind
 TRACEGEN_LOGGER_opts = { "[" ~ TRACEGEN_LOGGER_opt ~ ("," ~ TRACEGEN_LOGGER_opt)* ~ (",")? ~ "]" }
 OPTION_TRACEGEN_LOGGER = { "tracegen" ~ TRACEGEN_LOGGER_opts? }
 
-OPTION_NFAIT_LOGGER = { "nfa" | "nfait" }
+OPTION_NFAIT_LOGGER = { "nfait" | "nfa" }
 
 // ***
 
@@ -200,7 +200,7 @@ OPTION_GOAL_KIND = _{ OPTION_GOAL_pass | OPTION_GOAL_weakpass | HIBOU_none }
 OPTION_GOAL_DECL = { "goal" ~ "=" ~ OPTION_GOAL_KIND }
 // ***********************************************
 OPTION_LOCANA_depth = { ("max_look_ahead_depth" | "max"~"depth" | "lookahead" | "lookup") ~ "=" ~ (HIBOU_none | ARITH_INTEGER)}
-OPTION_LOCANA_modulo = { ("modulo" | "modulo_each_X_steps") ~ "=" ~ ARITH_INTEGER}
+OPTION_LOCANA_modulo = { ("modulo_each_X_steps" | "modulo") ~ "=" ~ ARITH_INTEGER}
 OPTION_LOCANA_select_all = { "all" | "All" | "ALL" }
 OPTION_LOCANA_select_dirty = { "dirty" | "Dirty" | "DIRTY" }
 OPTION_LOCANA_select = { "select" ~ "=" ~ (OPTION_LOCANA_select_all|OPTION_LOCANA_select_dirty) }
@@ -227,7 +227,7 @@ ANALYZE_OPTION_SECTION =  { "@analyze_option" ~ "{" ~
 
 OPTION_CANON_searchall_yes = { "search_all" ~ ("=" ~ HIBOU_true)? }
 OPTION_CANON_searchall_no = { "search_all" ~ "=" ~ HIBOU_false }
-OPTION_CANON_searchall = _{ OPTION_CANON_searchall_yes | OPTION_CANON_searchall_no }
+OPTION_CANON_searchall = _{ OPTION_CANON_searchall_no | OPTION_CANON_searchall_yes }
 // ***
 CANONIZE_OPTION_DECL = _{ GENERAL_OPTION_DECL
                             | OPTION_CANON_searchall }
-- 
2.43.0


From 7b10e272a2e79dfa3aa12f05f0775df3b33c694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:00 +0000
Subject: [PATCH 23/45] fix: options which the canonization does not support
 are rejected with an error instead of a crash

---
 src/io/input/hcf/canon/options.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hcf/canon/options.rs b/src/io/input/hcf/canon/options.rs
index f4fbcda..4471f82 100644
--- a/src/io/input/hcf/canon/options.rs
+++ b/src/io/input/hcf/canon/options.rs
@@ -98,13 +98,13 @@ pub fn parse_canonize_options(gen_ctx: &GeneralContext,
                             loggers.push( Box::new(glogger));
                         },
                         _ => {
-                            panic!("what rule then ? : {:?}", logger_kind_pair.as_rule() );
+                            return Err(HibouParsingError::HcfSetupError(format!("cannot use logger {:?} for canonization", logger_kind_pair.as_str())));
                         }
                     }
                 }
             },
             _ => {
-                panic!("what rule then ? : {:?}", option_decl_pair.as_rule() );
+                return Err(HibouParsingError::HcfSetupError(format!("cannot use option {:?} for canonization", option_decl_pair.as_str())));
             }
         }
     }
-- 
2.43.0


From 80fac06defaf499d1c145775158132aa258de018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:18 +0000
Subject: [PATCH 24/45] fix: a co-localization without lifelines is written so
 that it can be read again

---
 src/io/output/to_hfiles/trace/multi_trace.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/output/to_hfiles/trace/multi_trace.rs b/src/io/output/to_hfiles/trace/multi_trace.rs
index 964e746..0a2e577 100644
--- a/src/io/output/to_hfiles/trace/multi_trace.rs
+++ b/src/io/output/to_hfiles/trace/multi_trace.rs
@@ -37,7 +37,12 @@ pub fn multi_trace_as_htf_encoding(gen_ctx : &GeneralContext,
         for lf_id in coloc_lfs.iter().sorted() {
             lf_names.push( gen_ctx.get_lf_name(*lf_id).unwrap() );
         }
-        canal_string.push_str( &format!( "[{:}] ", lf_names.join(",")) );
+        if lf_names.is_empty() {
+            // "[]" is not a co-localization: one without lifelines is that of the (absent) actions of its trace
+            canal_string.push_str( "[#any] " );
+        } else {
+            canal_string.push_str( &format!( "[{:}] ", lf_names.join(",")) );
+        }
         // ***
         let mut trace_text_elements = vec![];
         for actions in canal_trace {
-- 
2.43.0


From ade42f2293155f1f8af36ebcf69d5371613006d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:40 +0000
Subject: [PATCH 25/45] fix: wide random slices keep at least one third of
 every component

---
 src/trace_manip/slice/random.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/trace_manip/slice/random.rs b/src/trace_manip/slice/random.rs
index f8b47c6..ab4f586 100644
--- a/src/trace_manip/slice/random.rs
+++ b/src/trace_manip/slice/random.rs
@@ -16,7 +16,6 @@ limitations under the License.
 
 
 
-use std::cmp::min;
 use std::collections::HashSet;
 use std::path::PathBuf;
 
@@ -111,9 +110,6 @@ fn get_any_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usiz
 }
 
 fn get_wider_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usize,usize) {
-    if length <= 4 {
-        return get_any_cut(rng,length,kind);
-    }
     let (id1,id2) : (usize,usize);
     match kind {
         &SliceKind::Slice => {
@@ -124,11 +120,11 @@ fn get_wider_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (us
         &SliceKind::Prefix => {
             let rng_indices = Uniform::from(0..((length/2)+ 1) );
             id1 = 0;
-            id2 = min((length/2) + rng_indices.sample(rng), length );
+            id2 = length - rng_indices.sample(rng);
         },
         &SliceKind::Suffix => {
             let rng_indices = Uniform::from(0..((length/2) + 1) );
-            id1 = length - rng_indices.sample(rng);
+            id1 = rng_indices.sample(rng);
             id2 = length;
         }
     }
-- 
2.43.0


From 11feda1b9076513aaf48347bf3b256e952f62b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:40 +0000
Subject: [PATCH 26/45] fix: inserting noise respects the maximum number of
 inserts and inserts at most once per component when asked

---
 src/trace_manip/mutate/insert_noise.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trace_manip/mutate/insert_noise.rs b/src/trace_manip/mutate/insert_noise.rs
index ba59ec5..851a8db 100644
--- a/src/trace_manip/mutate/insert_noise.rs
+++ b/src/trace_manip/mutate/insert_noise.rs
@@ -94,7 +94,7 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
     // ***
     let mut rem_num_inserts : u32;
     if one_per_compo_max {
-        rem_num_inserts = max_num_inserts.max(multi_trace.len() as u32);
+        rem_num_inserts = max_num_inserts.min(multi_trace.len() as u32);
     } else {
         rem_num_inserts = max_num_inserts;
     }
@@ -116,6 +116,7 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
             } else {
                 mutate_vector_by_insert(&mut rng,component,btreeset!{to_insert});
             }
+            seen_colocs.insert(coloc_id);
             rem_num_inserts -= 1;
         }
     }
-- 
2.43.0


From 411ada0eccea20be77918753751d917ac34cf9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:40 +0000
Subject: [PATCH 27/45] fix: swapping components respects the maximum number of
 swaps

---
 src/trace_manip/mutate/swap_component.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trace_manip/mutate/swap_component.rs b/src/trace_manip/mutate/swap_component.rs
index 5830160..73becdf 100644
--- a/src/trace_manip/mutate/swap_component.rs
+++ b/src/trace_manip/mutate/swap_component.rs
@@ -65,7 +65,7 @@ fn mutate_by_swapping_components(multi_trace_1 : &MultiTrace, multi_trace_2 : &M
     let mut compos_indices : Vec<usize> = (0..(num_compos as usize)).collect();
     compos_indices.shuffle(&mut rng);
     // ***
-    let mut rem_num_swaps = max_num_swaps.max(num_compos - 1);
+    let mut rem_num_swaps = max_num_swaps.min(num_compos - 1);
     // ***
     let mut mutated_mt = multi_trace_1.clone();
     while rem_num_swaps > 0 {
-- 
2.43.0


From a92e1a7c504fa668590da7ef7ee016e27d0a2f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:40 +0000
Subject: [PATCH 28/45] fix: the parent folder of a mutant with removed actions
 is created

---
 src/trace_manip/mutate/remove_actions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trace_manip/mutate/remove_actions.rs b/src/trace_manip/mutate/remove_actions.rs
index eb81f62..c839f0f 100644
--- a/src/trace_manip/mutate/remove_actions.rs
+++ b/src/trace_manip/mutate/remove_actions.rs
@@ -15,6 +15,7 @@ limitations under the License.
 */
 
 
+use std::fs;
 use std::path::PathBuf;
 use rand::rngs::ThreadRng;
 use rand::seq::SliceRandom;
@@ -39,6 +40,8 @@ pub fn generate_remove_actions_mutant(gen_ctx : &GeneralContext,
             [&file_name].iter().collect()
         },
         Some( parent ) => {
+            // creates directory
+            fs::create_dir_all(parent).unwrap();
             [parent, &file_name].iter().collect()
         }
     };
-- 
2.43.0


From 7c23081f597057c5ebf934e79e07c2cab3dab050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:53 +0000
Subject: [PATCH 29/45] fix: a file without an extension is reported as an
 error instead of crashing

---
 src/io/input/hcf/ana/interface.rs   | 2 +-
 src/io/input/hcf/canon/interface.rs | 2 +-
 src/io/input/hcf/explo/interface.rs | 2 +-
 src/io/input/hif/interface.rs       | 2 +-
 src/io/input/hsf/interface.rs       | 2 +-
 src/io/input/htf/interface.rs       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/input/hcf/ana/interface.rs b/src/io/input/hcf/ana/interface.rs
index c96ef64..d9134b0 100644
--- a/src/io/input/hcf/ana/interface.rs
+++ b/src/io/input/hcf/ana/interface.rs
@@ -37,7 +37,7 @@ use crate::io::input::hcf::ana::options::{HibouAnalyzeOptions, parse_analyze_opt
 pub fn parse_hcf_file_for_ana(gen_ctx : &GeneralContext,
                               file_path : &str) -> Result<HibouAnalyzeOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hcf/canon/interface.rs b/src/io/input/hcf/canon/interface.rs
index d95c342..54d8ef4 100644
--- a/src/io/input/hcf/canon/interface.rs
+++ b/src/io/input/hcf/canon/interface.rs
@@ -35,7 +35,7 @@ use crate::io::input::hcf::canon::options::{HibouCanonizeOptions, parse_canonize
 pub fn parse_hcf_file_for_canonize(gen_ctx : &GeneralContext,
                                   file_path : &str) -> Result<HibouCanonizeOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hcf/explo/interface.rs b/src/io/input/hcf/explo/interface.rs
index ef35f7a..a3157e2 100644
--- a/src/io/input/hcf/explo/interface.rs
+++ b/src/io/input/hcf/explo/interface.rs
@@ -35,7 +35,7 @@ use crate::io::input::hcf::explo::options::{HibouExploreOptions, parse_explore_o
 pub fn parse_hcf_file_for_explore(gen_ctx : &GeneralContext,
                                   file_path : &str) -> Result<HibouExploreOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hif/interface.rs b/src/io/input/hif/interface.rs
index 6f022da..10864a9 100644
--- a/src/io/input/hif/interface.rs
+++ b/src/io/input/hif/interface.rs
@@ -30,7 +30,7 @@ use crate::io::file_extensions::{HIBOU_INTERACTION_FILE_EXTENSION};
 
 pub fn parse_hif_file(gen_ctx : &GeneralContext, file_path : &str) -> Result<Interaction,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_INTERACTION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_INTERACTION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hsf/interface.rs b/src/io/input/hsf/interface.rs
index 6cf1818..ccdebbc 100644
--- a/src/io/input/hsf/interface.rs
+++ b/src/io/input/hsf/interface.rs
@@ -26,7 +26,7 @@ use crate::io::input::hsf::implem::parse_hsf_string;
 
 pub fn parse_hsf_file(file_path : &str) -> Result<GeneralContext,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_SIGNATURE_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_SIGNATURE_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/htf/interface.rs b/src/io/input/htf/interface.rs
index 63aaf32..83cd434 100644
--- a/src/io/input/htf/interface.rs
+++ b/src/io/input/htf/interface.rs
@@ -40,7 +40,7 @@ use crate::io::input::htf::parser::{HtfParser,Rule};
 pub fn parse_htf_file(gen_ctx : &GeneralContext,
                       file_path : &str) -> Result<(CoLocalizations,MultiTrace),HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_TRACE_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_TRACE_FILE_EXTENSION.to_string()));
     }
-- 
2.43.0


From 6ee8a8f69fd1d548b8009ecaa48596442ceb9ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:38 +0000
Subject: [PATCH 30/45] fix: numbers of configuration files that do not fit are
 reported as errors instead of crashing

---
 src/io/input/hcf/ana/options.rs      | 16 ++++++++--------
 src/io/input/hcf/explo/options.rs    |  8 ++++----
 src/io/input/hcf/loggers/tracegen.rs |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/io/input/hcf/ana/options.rs b/src/io/input/hcf/ana/options.rs
index 9abd205..42b346b 100644
--- a/src/io/input/hcf/ana/options.rs
+++ b/src/io/input/hcf/ana/options.rs
@@ -300,19 +300,19 @@ fn parse_filters(filters_decl_pair : Pair<Rule>) -> Result<Vec<Box<dyn AbstractF
             Rule::OPTION_FILTER_MAX_DEPTH => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", content_str, e)))?;
                 filters.push(Box::new(AnalysisFilter::MaxProcessDepth(my_val)));
             },
             Rule::OPTION_FILTER_MAX_LOOP_DEPTH  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", content_str, e)))?;
                 filters.push(Box::new(AnalysisFilter::MaxLoopInstanciation(my_val)));
             },
             Rule::OPTION_FILTER_MAX_NODE_NUMBER  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", content_str, e)))?;
                 filters.push(Box::new(AnalysisFilter::MaxNodeNumber(my_val)));
             },
             _ => {
@@ -354,7 +354,7 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
                 let priority_level_str : String = priority_level_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let priority_level : i32 = priority_level_str.parse::<i32>().unwrap();
+                let priority_level : i32 = priority_level_str.parse::<i32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", priority_level_str, e)))?;
                 // ***
                 match priority_kind_pair.as_rule() {
                     Rule::OPTION_PRIORITY_emission => {
@@ -445,7 +445,7 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                             },
                             Rule::ARITH_INTEGER => {
                                 let content_str : String = depth_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", content_str, e)))?;
                                 max_look_ahead_depth = Some(my_val);
                             },
                             _ => {
@@ -458,7 +458,7 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                         match modulo_pair.as_rule() {
                             Rule::ARITH_INTEGER => {
                                 let content_str : String = modulo_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", content_str, e)))?;
                                 modulo_each_X_steps = my_val;
                             },
                             _ => {
@@ -542,7 +542,7 @@ fn parse_simulation_config(simu_config_decl_pair : Pair<Rule>) -> Result<Simulat
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => {
                         let content : Pair<Rule> = inner.into_inner().next().unwrap();
                         let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", content_str, e)))?;
                         act_crit = SimulationActionCriterion::SpecificNum(my_val);
                     },
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => {
@@ -562,7 +562,7 @@ fn parse_simulation_config(simu_config_decl_pair : Pair<Rule>) -> Result<Simulat
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => {
                         let content : Pair<Rule> = inner.into_inner().next().unwrap();
                         let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", content_str, e)))?;
                         loop_crit = SimulationLoopCriterion::SpecificNum(my_val);
                     },
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => {
diff --git a/src/io/input/hcf/explo/options.rs b/src/io/input/hcf/explo/options.rs
index 9efb551..15efbb9 100644
--- a/src/io/input/hcf/explo/options.rs
+++ b/src/io/input/hcf/explo/options.rs
@@ -197,19 +197,19 @@ fn parse_filters(filters_decl_pair : Pair<Rule>) -> Result<Vec<Box<dyn AbstractF
             Rule::OPTION_FILTER_MAX_DEPTH => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", content_str, e)))?;
                 filters.push(Box::new(ExplorationFilter::MaxProcessDepth(my_val)));
             },
             Rule::OPTION_FILTER_MAX_LOOP_DEPTH  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", content_str, e)))?;
                 filters.push(Box::new(ExplorationFilter::MaxLoopInstanciation(my_val)));
             },
             Rule::OPTION_FILTER_MAX_NODE_NUMBER  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", content_str, e)))?;
                 filters.push(Box::new(ExplorationFilter::MaxNodeNumber(my_val)));
             },
             _ => {
@@ -252,7 +252,7 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
                 let priority_level_str : String = priority_level_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let priority_level : i32 = priority_level_str.parse::<i32>().unwrap();
+                let priority_level : i32 = priority_level_str.parse::<i32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", priority_level_str, e)))?;
                 // ***
                 match priority_kind_pair.as_rule() {
                     Rule::OPTION_PRIORITY_emission => {
diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 909493e..6819be8 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -87,13 +87,13 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                     Rule::TRACEGEN_LOGGER_depth => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
                         let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", content_str, e)))?;
                         generation = TracegenProcessLoggerGeneration::atExactDepth(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_modulo => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
                         let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(format!("{:} : {:}", content_str, e)))?;
                         generation = TracegenProcessLoggerGeneration::atDepthModulo(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_partition_discrete => {
-- 
2.43.0


From 6d8797034356fbe35e6e328d1bfd73d3ebe07954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:57 +0000
Subject: [PATCH 31/45] fix: a partition for the generation of traces that
 misses lifelines is reported as an error instead of crashing later

---
 src/io/input/hcf/loggers/tracegen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 6819be8..e08181d 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -127,6 +127,9 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                             colocs.push(coloc);
                         }
                         // ***
+                        if got_lfs.len() < gen_ctx.get_lf_num() {
+                            return Err( HibouParsingError::IllDefinedTraceComponents("the partition must cover every lifeline".to_string()) );
+                        }
                         co_localizations = CoLocalizations::new(colocs);
                     },
                     _ => {
-- 
2.43.0


From 2d35db458de6afe43330c711a3e508a80df9540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:57 +0000
Subject: [PATCH 32/45] fix: the generation of traces at depths modulo 0
 divided by zero

---
 src/loggers/tracegen/printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loggers/tracegen/printer.rs b/src/loggers/tracegen/printer.rs
index 84f313c..aed4d49 100644
--- a/src/loggers/tracegen/printer.rs
+++ b/src/loggers/tracegen/printer.rs
@@ -60,7 +60,7 @@ impl MultiTraceProcessPrinter {
                 depth == exact_depth
             },
             TracegenProcessLoggerGeneration::atDepthModulo(modulo_depth) => {
-                depth % modulo_depth == 0
+                modulo_depth != 0 && depth % modulo_depth == 0
             }
         }
     }
-- 
2.43.0


From f53ce05e9bd1ac2903244cf844c7496c281a8d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:23 +0000
Subject: [PATCH 33/45] fix: reports of analyze, explore, nfa_analyze and
 puml_* name the file of the interaction

---
 src/ui/commands/cli_analyze.rs | 2 +-
 src/ui/commands/cli_explore.rs | 2 +-
 src/ui/commands/cli_nfa_ana.rs | 2 +-
 src/ui/commands/cli_puml_ap.rs | 2 +-
 src/ui/commands/cli_puml_sd.rs | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ui/commands/cli_analyze.rs b/src/ui/commands/cli_analyze.rs
index 046432f..461d6e0 100644
--- a/src/ui/commands/cli_analyze.rs
+++ b/src/ui/commands/cli_analyze.rs
@@ -74,7 +74,7 @@ pub fn cli_analyze(matches : &ArgMatches) -> (Vec<String>,u32) {
                             ret_print.push( format!("from file '{}'",htf_file_path) );
                             ret_print.push( format!("of length '{:?}'", multi_trace_length) );
                             ret_print.push( "W.R.T. INTERACTION".to_string());
-                            ret_print.push( format!("from file '{}'",hsf_file_path) );
+                            ret_print.push( format!("from file '{}'",hif_file_path) );
                             if ana_opts.ana_param.partial_order_reduction {
                                 ret_print.push( "WARNING : uses experimental Partial Order Reduction that returns FALSE NEGATIVES when using synchronous operator".to_string() );
                             }
diff --git a/src/ui/commands/cli_explore.rs b/src/ui/commands/cli_explore.rs
index d3d7f23..0664779 100644
--- a/src/ui/commands/cli_explore.rs
+++ b/src/ui/commands/cli_explore.rs
@@ -65,7 +65,7 @@ pub fn cli_explore(matches : &ArgMatches) -> (Vec<String>,u32) {
                     // ***
                     ret_print.push( "".to_string());
                     ret_print.push( "EXPLORING SEMANTICS".to_string());
-                    ret_print.push( format!("of interaction from file '{}'",hsf_file_path) );
+                    ret_print.push( format!("of interaction from file '{}'",hif_file_path) );
                     ret_print.push( "".to_string());
                     // ***
                     let explo_ctx = ExplorationContext::new(gen_ctx);
diff --git a/src/ui/commands/cli_nfa_ana.rs b/src/ui/commands/cli_nfa_ana.rs
index fe9e443..bf962f0 100644
--- a/src/ui/commands/cli_nfa_ana.rs
+++ b/src/ui/commands/cli_nfa_ana.rs
@@ -182,7 +182,7 @@ pub fn cli_nfa_ana(matches : &ArgMatches) -> (Vec<String>,u32) {
                             // ***
                             ret_print.push( "".to_string());
                             ret_print.push( "Trace analysis using NFA monitor".to_string());
-                            ret_print.push( format!("from interaction from file '{}'",hsf_file_path) );
+                            ret_print.push( format!("from interaction from file '{}'",hif_file_path) );
                             ret_print.push( format!("and trace from file '{}'",htf_file_path) );
                             ret_print.push( format!("of length '{:?}'", multi_trace_length) );
                             ret_print.push( "".to_string());
diff --git a/src/ui/commands/cli_puml_ap.rs b/src/ui/commands/cli_puml_ap.rs
index b138eed..356991b 100644
--- a/src/ui/commands/cli_puml_ap.rs
+++ b/src/ui/commands/cli_puml_ap.rs
@@ -43,7 +43,7 @@ pub fn cli_puml_ap(matches : &ArgMatches) -> (Vec<String>,u32) {
                     // ***
                     ret_print.push( "".to_string());
                     ret_print.push( "TRANSLATING INTERACTION to puml-ap".to_string());
-                    ret_print.push( format!("from file '{}'",hsf_file_path) );
+                    ret_print.push( format!("from file '{}'",hif_file_path) );
                     ret_print.push( format!("on file : {}",spec_output_file) );
                     ret_print.push( "".to_string());
                     to_plant_uml_ap(&spec_output_file,file_name, &int, &gen_ctx);
diff --git a/src/ui/commands/cli_puml_sd.rs b/src/ui/commands/cli_puml_sd.rs
index ae8e5a8..896edfd 100644
--- a/src/ui/commands/cli_puml_sd.rs
+++ b/src/ui/commands/cli_puml_sd.rs
@@ -43,7 +43,7 @@ pub fn cli_puml_sd(matches : &ArgMatches) -> (Vec<String>,u32) {
                     // ***
                     ret_print.push( "".to_string());
                     ret_print.push( "TRANSLATING INTERACTION to puml-sd".to_string());
-                    ret_print.push( format!("from file '{}'",hsf_file_path) );
+                    ret_print.push( format!("from file '{}'",hif_file_path) );
                     ret_print.push( format!("on file : {}",spec_output_file) );
                     ret_print.push( "".to_string());
                     to_plant_uml_sd(&spec_output_file,file_name, &int, &gen_ctx);
-- 
2.43.0


From b1710868c8cb7b63db651e4632eeb13541f3d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:05 +0000
Subject: [PATCH 34/45] fix: a malformed number given for an option is reported
 instead of a crash

---
 src/ui/commands/cli_glosem.rs                 |  5 +++-
 src/ui/commands/cli_mutate_insert_noise.rs    |  5 +++-
 src/ui/commands/cli_mutate_remove_actions.rs  |  5 +++-
 src/ui/commands/cli_mutate_swap_actions.rs    |  5 +++-
 src/ui/commands/cli_mutate_swap_components.rs |  5 +++-
 src/ui/commands/cli_nfa_experiment.rs         | 10 +++++--
 src/ui/commands/cli_nfa_experiment2.rs        | 30 +++++++++++++++----
 src/ui/commands/cli_rng_gen_interactions.rs   | 25 ++++++++++++----
 src/ui/commands/cli_slice.rs                  |  5 +++-
 9 files changed, 76 insertions(+), 19 deletions(-)

diff --git a/src/ui/commands/cli_glosem.rs b/src/ui/commands/cli_glosem.rs
index 1380d4a..fa0db27 100644
--- a/src/ui/commands/cli_glosem.rs
+++ b/src/ui/commands/cli_glosem.rs
@@ -73,7 +73,10 @@ pub fn cli_glosem(matches : &ArgMatches) -> (Vec<String>,u32) {
                             max_loop_depth = 1;
                         },
                         Some( as_str ) => {
-                            max_loop_depth = as_str.trim().parse::<u32>().unwrap();
+                            max_loop_depth = match as_str.trim().parse::<u32>() {
+                                Ok(number) => { number },
+                                Err(e) => { return (vec![e.to_string()],1); }
+                            };
                         }
                     }
 
diff --git a/src/ui/commands/cli_mutate_insert_noise.rs b/src/ui/commands/cli_mutate_insert_noise.rs
index c3b932b..d9f82b6 100644
--- a/src/ui/commands/cli_mutate_insert_noise.rs
+++ b/src/ui/commands/cli_mutate_insert_noise.rs
@@ -53,7 +53,10 @@ pub fn cli_mutate_insert_noise(matches : &ArgMatches) -> (Vec<String>,u32) {
                     if matches.is_present("max_num_inserts") {
                         let extracted = matches.value_of("max_num_inserts").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        max_num_inserts = content_str.parse::<u32>().unwrap();
+                        max_num_inserts = match content_str.parse::<u32>() {
+                            Ok(number) => { number },
+                            Err(e) => { return (vec![e.to_string()],1); }
+                        };
                         // ***
                     } else {
                         max_num_inserts = 1;
diff --git a/src/ui/commands/cli_mutate_remove_actions.rs b/src/ui/commands/cli_mutate_remove_actions.rs
index 7c028bf..aeaa9dc 100644
--- a/src/ui/commands/cli_mutate_remove_actions.rs
+++ b/src/ui/commands/cli_mutate_remove_actions.rs
@@ -52,7 +52,10 @@ pub fn cli_mutate_remove_actions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     let max_num_removes : u32 = if matches.is_present("max_num_removes") {
                         let extracted = matches.value_of("max_num_removes").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        content_str.parse::<u32>().unwrap()
+                        match content_str.parse::<u32>() {
+                            Ok(number) => { number },
+                            Err(e) => { return (vec![e.to_string()],1); }
+                        }
                     } else {
                         1
                     };
diff --git a/src/ui/commands/cli_mutate_swap_actions.rs b/src/ui/commands/cli_mutate_swap_actions.rs
index eab0b7f..dc139c1 100644
--- a/src/ui/commands/cli_mutate_swap_actions.rs
+++ b/src/ui/commands/cli_mutate_swap_actions.rs
@@ -52,7 +52,10 @@ pub fn cli_mutate_swap_actions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     if matches.is_present("max_num_swap") {
                         let extracted = matches.value_of("max_num_swap").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        max_num_swap = content_str.parse::<u32>().unwrap();
+                        max_num_swap = match content_str.parse::<u32>() {
+                            Ok(number) => { number },
+                            Err(e) => { return (vec![e.to_string()],1); }
+                        };
                         // ***
                     } else {
                         max_num_swap = 1;
diff --git a/src/ui/commands/cli_mutate_swap_components.rs b/src/ui/commands/cli_mutate_swap_components.rs
index 2f3dfa0..53dbded 100644
--- a/src/ui/commands/cli_mutate_swap_components.rs
+++ b/src/ui/commands/cli_mutate_swap_components.rs
@@ -60,7 +60,10 @@ pub fn cli_mutate_swap_components(matches : &ArgMatches) -> (Vec<String>,u32) {
                     if matches.is_present("max_num_swap") {
                         let extracted = matches.value_of("max_num_swap").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        max_num_swap = content_str.parse::<u32>().unwrap();
+                        max_num_swap = match content_str.parse::<u32>() {
+                            Ok(number) => { number },
+                            Err(e) => { return (vec![e.to_string()],1); }
+                        };
                         // ***
                     } else {
                         max_num_swap = 1;
diff --git a/src/ui/commands/cli_nfa_experiment.rs b/src/ui/commands/cli_nfa_experiment.rs
index 329cafa..02d20bd 100644
--- a/src/ui/commands/cli_nfa_experiment.rs
+++ b/src/ui/commands/cli_nfa_experiment.rs
@@ -61,7 +61,10 @@ pub fn cli_nfa_experiment(matches : &ArgMatches) -> (Vec<String>,u32) {
                             3
                         },
                         Some( as_str ) => {
-                            as_str.trim().parse::<u32>().unwrap()
+                            match as_str.trim().parse::<u32>() {
+                                Ok(number) => { number },
+                                Err(e) => { return (vec![e.to_string()],1); }
+                            }
                         }
                     };
 
@@ -70,7 +73,10 @@ pub fn cli_nfa_experiment(matches : &ArgMatches) -> (Vec<String>,u32) {
                             10
                         },
                         Some( as_str ) => {
-                            as_str.trim().parse::<usize>().unwrap()
+                            match as_str.trim().parse::<usize>() {
+                                Ok(number) => { number },
+                                Err(e) => { return (vec![e.to_string()],1); }
+                            }
                         }
                     };
 
diff --git a/src/ui/commands/cli_nfa_experiment2.rs b/src/ui/commands/cli_nfa_experiment2.rs
index 3ffcdad..dbadff3 100644
--- a/src/ui/commands/cli_nfa_experiment2.rs
+++ b/src/ui/commands/cli_nfa_experiment2.rs
@@ -56,7 +56,10 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                     1
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok(number) => { number },
+                        Err(e) => { return (vec![e.to_string()],1); }
+                    }
                 }
             };
 
@@ -65,7 +68,10 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                     350
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok(number) => { number },
+                        Err(e) => { return (vec![e.to_string()],1); }
+                    }
                 }
             };
 
@@ -74,7 +80,10 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                     10
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok(number) => { number },
+                        Err(e) => { return (vec![e.to_string()],1); }
+                    }
                 }
             };
 
@@ -83,7 +92,10 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                     100
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok(number) => { number },
+                        Err(e) => { return (vec![e.to_string()],1); }
+                    }
                 }
             };
 
@@ -92,7 +104,10 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                     6
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok(number) => { number },
+                        Err(e) => { return (vec![e.to_string()],1); }
+                    }
                 }
             };
 
@@ -101,7 +116,10 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                     1
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u64>().unwrap()
+                    match as_str.trim().parse::<u64>() {
+                        Ok(number) => { number },
+                        Err(e) => { return (vec![e.to_string()],1); }
+                    }
                 }
             };
 
diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index cdfe401..856f1eb 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -64,7 +64,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     350
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok(number) => { number },
+                        Err(e) => { return (vec![e.to_string()],1); }
+                    }
                 }
             };
 
@@ -73,7 +76,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     number_of_interactions*3
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok(number) => { number },
+                        Err(e) => { return (vec![e.to_string()],1); }
+                    }
                 }
             };
 
@@ -82,7 +88,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     10
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok(number) => { number },
+                        Err(e) => { return (vec![e.to_string()],1); }
+                    }
                 }
             };
 
@@ -91,7 +100,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     100
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok(number) => { number },
+                        Err(e) => { return (vec![e.to_string()],1); }
+                    }
                 }
             };
 
@@ -100,7 +112,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     0
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u64>().unwrap()
+                    match as_str.trim().parse::<u64>() {
+                        Ok(number) => { number },
+                        Err(e) => { return (vec![e.to_string()],1); }
+                    }
                 }
             };
 
diff --git a/src/ui/commands/cli_slice.rs b/src/ui/commands/cli_slice.rs
index 78aa12a..6e29ca3 100644
--- a/src/ui/commands/cli_slice.rs
+++ b/src/ui/commands/cli_slice.rs
@@ -68,7 +68,10 @@ pub fn cli_slice(matches : &ArgMatches) -> (Vec<String>,u32) {
                     if matches.is_present("random") {
                         let extracted = matches.value_of("random").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        let num_random_slices : u32 = content_str.parse::<u32>().unwrap();
+                        let num_random_slices : u32 = match content_str.parse::<u32>() {
+                            Ok(number) => { number },
+                            Err(e) => { return (vec![e.to_string()],1); }
+                        };
                         // ***
                         let wide_only : bool;
                         if matches.is_present("wide") {
-- 
2.43.0


From c3dc15ff59e5af8f9b8eccb3378824827cd2eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:28 +0000
Subject: [PATCH 35/45] fix: the random generation of interactions crashed on
 its undeclared option, on unknown probabilities and without its folder

---
 src/ui/commands/cli_rng_gen_interactions.rs | 14 +++++++++-----
 src/ui/hibou_cli.yml                        |  7 ++++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index 856f1eb..6552a66 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -16,7 +16,7 @@ limitations under the License.
 
 
 use std::collections::HashSet;
-use std::fs::File;
+use std::fs::{create_dir_all, File};
 use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::time::Instant;
@@ -73,7 +73,7 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
 
             let num_tries : u32 = match matches.value_of("num_tries") {
                 None => {
-                    number_of_interactions*3
+                    number_of_interactions.saturating_mul(3)
                 },
                 Some( as_str ) => {
                     match as_str.trim().parse::<u32>() {
@@ -135,14 +135,14 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                         InteractionSymbolsProbabilities::conservative()
                     },
                     "protocols_with_coreg" => {
-                        probas_name = "conservative";
+                        probas_name = "protocols_with_coreg";
                         InteractionSymbolsProbabilities::protocols_with_coreg()
                     },
                     "default" => {
                         InteractionSymbolsProbabilities::default_non_regular()
                     },
                     _ => {
-                        panic!("unknown probas for interactions generations : '{:}'", extracted)
+                        return (vec![format!("unknown probas for interactions generations : '{:}'", extracted)],1);
                     }
                 }
             } else {
@@ -169,6 +169,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                 output_folder)
             );
 
+            if let Err(e) = create_dir_all(&output_folder) {
+                return (vec![e.to_string()],1);
+            }
+
             let mut memoized_ints = HashSet::new();
 
             let mut rng = StdRng::seed_from_u64(seed);
@@ -195,7 +199,7 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                 }
                 if !got_one {
                     println!("retrying...");
-                    max_tries -= 1;
+                    max_tries = max_tries.saturating_sub(1);
                     if max_tries <= 0 {
                         println!("... max retries exceeded");
                         break 'myloop;
diff --git a/src/ui/hibou_cli.yml b/src/ui/hibou_cli.yml
index c465237..3827500 100644
--- a/src/ui/hibou_cli.yml
+++ b/src/ui/hibou_cli.yml
@@ -436,11 +436,16 @@ subcommands:
                   short: i
                   takes_value: true
                   help: number of interactions to generate (default 350)
+              - num_tries:
+                  required: false
+                  short: n
+                  takes_value: true
+                  help: maximum number of failed tries (default is three times the number of interactions)
               - probas:
                   required: false
                   short: p
                   takes_value: true
-                  help: probability distributions of interaction language symbols (default or conservative)
+                  help: probability distributions of interaction language symbols (default, conservative or protocols_with_coreg)
               - max_depth:
                     required: false
                     short: d
-- 
2.43.0


From 1f9896586f019cb8ccbc9bf0cca0b0fc323ea8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:28 +0000
Subject: [PATCH 36/45] fix: reports of glosem and nfa_experiment name the file
 of the interaction

---
 src/ui/commands/cli_glosem.rs         | 2 +-
 src/ui/commands/cli_nfa_experiment.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ui/commands/cli_glosem.rs b/src/ui/commands/cli_glosem.rs
index fa0db27..4ee5d2c 100644
--- a/src/ui/commands/cli_glosem.rs
+++ b/src/ui/commands/cli_glosem.rs
@@ -91,7 +91,7 @@ pub fn cli_glosem(matches : &ArgMatches) -> (Vec<String>,u32) {
                     // ***
                     ret_print.push( "".to_string());
                     ret_print.push( "Generating NFA from Exploration".to_string());
-                    ret_print.push( format!("of interaction from file '{}'",hsf_file_path) );
+                    ret_print.push( format!("of interaction from file '{}'",hif_file_path) );
                     ret_print.push( format!("with max loop depth '{}'",max_loop_depth) );
                     ret_print.push( "".to_string());
                     // ***
diff --git a/src/ui/commands/cli_nfa_experiment.rs b/src/ui/commands/cli_nfa_experiment.rs
index 02d20bd..b151fc7 100644
--- a/src/ui/commands/cli_nfa_experiment.rs
+++ b/src/ui/commands/cli_nfa_experiment.rs
@@ -85,7 +85,7 @@ pub fn cli_nfa_experiment(matches : &ArgMatches) -> (Vec<String>,u32) {
                     let mut ret_print = vec![];
                     // ***
                     ret_print.push( "".to_string());
-                    ret_print.push( format!("Generating FAs from Interaction from file '{}'",hsf_file_path) );
+                    ret_print.push( format!("Generating FAs from Interaction from file '{}'",hif_file_path) );
                     ret_print.push( format!("NFA via operational method : time : {:?}μs, num states {:?}",
                                             result.nfa_operational_median_time,
                                             result.nfa_operational.transitions.len() ) );
-- 
2.43.0


From 08955de1a71467b8fd1b5f65574d2693fe6f63b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:27 +0000
Subject: [PATCH 37/45] fix: get_metrics minDFA measured a deterministic
 automaton that is not minimal

---
 src/ui/commands/cli_get_metrics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/commands/cli_get_metrics.rs b/src/ui/commands/cli_get_metrics.rs
index 705c52c..20df63b 100644
--- a/src/ui/commands/cli_get_metrics.rs
+++ b/src/ui/commands/cli_get_metrics.rs
@@ -16,6 +16,7 @@ limitations under the License.
 
 
 use autour_core::nfa::nfa::AutNFA;
+use autour_core::traits::transform::AutTransformable;
 use autour_core::traits::translate::AutTranslatable;
 use clap::ArgMatches;
 use crate::core::language::syntax::metrics::InteractionMetrics;
@@ -92,7 +93,7 @@ pub fn cli_get_metrics(matches : &ArgMatches) -> (Vec<String>, u32) {
                             let (nfa,_) = get_nfa_from_interaction_exploration(&gen_ctx,
                                                                                &int,
                                                                                alphabet.clone());
-                            let dfa = nfa.to_dfa();
+                            let dfa = nfa.to_dfa().minimize();
                             let num_states = dfa.transitions.len();
                             let num_edges = dfa.transitions.iter()
                                 .fold(0,|x,t|
-- 
2.43.0


From 43fbab13424b40df1247180ac0c02ecd88b89d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:25 +0000
Subject: [PATCH 38/45] fix: name strict and weak loops as such in PlantUML
 sequence diagrams

---
 src/plantuml/sequence.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plantuml/sequence.rs b/src/plantuml/sequence.rs
index 9e3df57..76c0129 100644
--- a/src/plantuml/sequence.rs
+++ b/src/plantuml/sequence.rs
@@ -130,13 +130,13 @@ fn to_plant_uml_sd_rec(output_file : &mut File,
             // ***
             match kind {
                 &LoopKind::SStrictSeq => {
-                    output_file.write( "group loopX\n".as_bytes() );
+                    output_file.write( "group loopS\n".as_bytes() );
                 },
                 &LoopKind::HHeadFirstWS => {
                     output_file.write( "group loopH\n".as_bytes() );
                 },
                 &LoopKind::WWeakSeq => {
-                    output_file.write( "group loopS\n".as_bytes() );
+                    output_file.write( "group loopW\n".as_bytes() );
                 },
                 &LoopKind::PInterleaving => {
                     output_file.write( "group loopP\n".as_bytes() );
-- 
2.43.0


From 6b4b00a0f25deceb3af51955e9e990c7ca7113c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:25 +0000
Subject: [PATCH 39/45] fix: end PlantUML automata without transitions from
 their initial state

---
 src/plantuml/automata_product.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plantuml/automata_product.rs b/src/plantuml/automata_product.rs
index 15d67d6..7a6b0e9 100644
--- a/src/plantuml/automata_product.rs
+++ b/src/plantuml/automata_product.rs
@@ -37,7 +37,7 @@ pub fn to_plant_uml_ap(output_path : &String,
         let projected_int = interaction.eliminate_lifelines(&lfs_to_remove);
         output_file.write( format!("state lf_{} {{\n",lf_name).as_bytes() );
         let (last_state_id,_) = to_plant_uml_ap_rec(&mut output_file, &projected_int, gen_ctx, lf_id, 0, 1);
-        output_file.write( format!("lf{}_s{} --> [*]\n",lf_id,last_state_id).as_bytes() );
+        output_file.write( format!("{} --> [*]\n",get_last_label(lf_id,last_state_id)).as_bytes() );
         output_file.write( "}\n".as_bytes() );
     }
     output_file.write( "@enduml\n".as_bytes() );
@@ -159,7 +159,7 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
             // ***
             let (last,count) =  to_plant_uml_ap_rec(output_file, i1, gen_ctx, lf_id, 0, new_state_count);
             new_state_count = count;
-            output_file.write( format!("lf{}_s{} --> [*]\n",lf_id,last).as_bytes() );
+            output_file.write( format!("{} --> [*]\n",get_last_label(lf_id,last)).as_bytes() );
             // ***
             output_file.write( "}\n".as_bytes() );
             output_file.write(format!("{} --> {}\n", last_state_label, loop_label).as_bytes());
-- 
2.43.0


From 28c94e8f73b1737f9150cdeb0bf9c3a5d0840f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:58 +0000
Subject: [PATCH 40/45] fix: keep nested synchronised positions usable as
 identifiers

---
 src/core/language/position/position.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/language/position/position.rs b/src/core/language/position/position.rs
index 04f0b6a..f76cf8d 100644
--- a/src/core/language/position/position.rs
+++ b/src/core/language/position/position.rs
@@ -41,13 +41,13 @@ impl Debug for Position {
                 }
             },
             Position::Left(ref in_self) => {
-                write!(f,"1{:}",in_self)
+                write!(f,"1{:?}",in_self)
             },
             Position::Right(ref in_self) => {
-                write!(f,"2{:}",in_self)
+                write!(f,"2{:?}",in_self)
             },
             Position::Both(ref sub1, ref sub2) => {
-                write!(f,"H1{:}_2{:}H",sub1,sub2)
+                write!(f,"H1{:?}_2{:?}H",sub1,sub2)
             }
         }
     }
-- 
2.43.0


From 14d90258a15797d8c8b4a3d53c46c3c73127244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:58 +0000
Subject: [PATCH 41/45] fix: distinguish the steps between two nodes in the
 picture of an analysis

---
 src/process/ana/loggers/glog/drawer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process/ana/loggers/glog/drawer.rs b/src/process/ana/loggers/glog/drawer.rs
index 20e9b0b..004eda5 100644
--- a/src/process/ana/loggers/glog/drawer.rs
+++ b/src/process/ana/loggers/glog/drawer.rs
@@ -133,12 +133,13 @@ impl GraphVizProcessDrawer<AnalysisConfig> for InteractionProcessDrawer {
                         target_state_id: u32,
                         step: &AnalysisStepKind) -> GraphVizNode {
 
-        let step_name = format!("s_{}_{}", origin_state_id, target_state_id);
         match *step {
             AnalysisStepKind::EliminateNoLongerObserved(ref lfs_to_hide) => {
+                let step_name = format!("s_{}_{}", origin_state_id, target_state_id);
                 self.make_graphic_logger_hiding(&context.gen_ctx,lfs_to_hide,step_name)
             },
             AnalysisStepKind::Execute(ref frt_elt, ref consu_set, ref sim_map) => {
+                let step_name = format!("s_{}_{}_{:?}", origin_state_id, target_state_id, frt_elt.position);
                 self.make_graphic_logger_firing(&context.gen_ctx,
                                                 &frt_elt.position,
                                                 &frt_elt.target_actions,
-- 
2.43.0


From f9ad72bf04a27279627d72946847a602fb35ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:58 +0000
Subject: [PATCH 42/45] fix: distinguish the steps between two nodes in the
 picture of a canonization

---
 src/process/canon/loggers/glog/drawer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process/canon/loggers/glog/drawer.rs b/src/process/canon/loggers/glog/drawer.rs
index 04ff784..78f4350 100644
--- a/src/process/canon/loggers/glog/drawer.rs
+++ b/src/process/canon/loggers/glog/drawer.rs
@@ -62,12 +62,13 @@ impl GraphVizProcessDrawer<CanonizationConfig> for InteractionProcessDrawer {
                         origin_state_id: u32,
                         target_state_id: u32,
                         step: &CanonizationStepKind) -> GraphVizNode {
-        let step_name = format!("s_{}_{}", origin_state_id, target_state_id);
         match *step {
             CanonizationStepKind::GoToNextPhase => {
+                let step_name = format!("s_{}_{}", origin_state_id, target_state_id);
                 self.make_graphic_logger_string_label("go to next phase".to_string(),step_name)
             },
             CanonizationStepKind::Transform(ref transfo) => {
+                let step_name = format!("s_{}_{}_{:?}_{:?}", origin_state_id, target_state_id, transfo.kind, transfo.position);
                 self.make_graphic_logger_transformation(&transfo.kind,&transfo.position,step_name)
             }
         }
-- 
2.43.0


From 062368c894261c0ebd1476b54684fa055f27bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:48 +0000
Subject: [PATCH 43/45] fix: separate the eliminated lifelines only between
 their names

---
 src/io/output/draw_transitions/draw_hiding.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/output/draw_transitions/draw_hiding.rs b/src/io/output/draw_transitions/draw_hiding.rs
index b3d28f6..0c2defd 100644
--- a/src/io/output/draw_transitions/draw_hiding.rs
+++ b/src/io/output/draw_transitions/draw_hiding.rs
@@ -48,7 +48,11 @@ pub fn draw_hiding(path : &Path,
             let mut to_add = names_of_lfs.into_iter()
                 .fold(vec![],
                       |prev,lf|
-                          [prev, vec![TextToPrint::new(",".to_string(),Rgb(HCP_Black)), lf]].concat());
+                          if prev.is_empty() {
+                              vec![lf]
+                          } else {
+                              [prev, vec![TextToPrint::new(",".to_string(),Rgb(HCP_Black)), lf]].concat()
+                          });
 
             ttp.append( &mut to_add);
         }
-- 
2.43.0


From 6bf1997e9d9f84479b6b4c5bb3cee629d945956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:00 +0000
Subject: [PATCH 44/45] fix: the seed decides which interactions are generated

---
 src/experiments/interaction_random_gen/probas.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/experiments/interaction_random_gen/probas.rs b/src/experiments/interaction_random_gen/probas.rs
index 98d022d..472d029 100644
--- a/src/experiments/interaction_random_gen/probas.rs
+++ b/src/experiments/interaction_random_gen/probas.rs
@@ -18,6 +18,7 @@ limitations under the License.
 use std::collections::{HashMap, HashSet};
 use std::fmt::Formatter;
 use std::hash::Hash;
+use itertools::Itertools;
 use rand::prelude::{SliceRandom, StdRng};
 use rand::Rng;
 use crate::core::general_context::GeneralContext;
@@ -66,7 +67,8 @@ impl InteractionSymbolsProbabilities {
         let mut ordered_symbols = vec![];
         let mut ordered_bounds = vec![0.0_f32];
         let mut sum = 0.0;
-        for (s,p) in map {
+        // in a fixed order, so that what is drawn only depends on the seed
+        for (s,p) in map.into_iter().sorted_by_key(|(s,_)| *s) {
             if p < 0.0 - 1e-6 || p > 1.0 + 1e-6 {
                 return Err(InteractionSymbolsProbabilitiesError::SymbolProbabilityMustBeBetweenOAnd1);
             }
-- 
2.43.0


From fd4fc9032e77d838704956e3dd2c347dad37ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:03 +0000
Subject: [PATCH 45/45] fix: random interactions on a signature with one
 lifeline

---
 src/experiments/interaction_random_gen/gen.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/experiments/interaction_random_gen/gen.rs b/src/experiments/interaction_random_gen/gen.rs
index 30113be..aca7073 100644
--- a/src/experiments/interaction_random_gen/gen.rs
+++ b/src/experiments/interaction_random_gen/gen.rs
@@ -61,11 +61,12 @@ pub fn generate_random_pattern(signature : &GeneralContext,
     lifelines.shuffle(rng);
     let orig_lf_id = lifelines.pop().unwrap();
     let targets : Vec<EmissionTargetRef> = if is_broadcast {
-        let number_of_targets = rng.gen_range(0..lifelines.len());
+        let number_of_targets = rng.gen_range(0..lifelines.len().max(1));
         lifelines[0..number_of_targets].iter()
             .map(|x| EmissionTargetRef::Lifeline(*x)).collect()
     } else {
-        vec![EmissionTargetRef::Lifeline(lifelines.pop().unwrap())]
+        // (there may be no other lifeline in the signature)
+        lifelines.pop().into_iter().map(EmissionTargetRef::Lifeline).collect()
     };
     let emission = EmissionAction::new(
         orig_lf_id,
-- 
2.43.0

