From 03a3c60a9773c2f3690d867b0a117334a5de8422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 01/35] fix: a quotient step without left or right edges keeps
 its component slots in get_leaves

---
 src/TransitionSystems/transition_id.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/TransitionSystems/transition_id.rs b/src/TransitionSystems/transition_id.rs
index eb8ad89..e6d45c2 100644
--- a/src/TransitionSystems/transition_id.rs
+++ b/src/TransitionSystems/transition_id.rs
@@ -41,26 +41,33 @@ impl TransitionID {
                 r.get_leaves_helper(current_leaves, index_left + 1) // return index right
             }
             TransitionID::Quotient(l, r) => {
+                // A side without transitions still takes up the place of its component
                 let mut index_left = index;
+                Self::reserve_leaf(current_leaves, index_left);
                 for t in l {
                     index_left = t.get_leaves_helper(current_leaves, index);
                 }
-                let mut index_right = index_left;
+                let mut index_right = index_left + 1;
+                Self::reserve_leaf(current_leaves, index_right);
                 for s in r {
                     index_right = s.get_leaves_helper(current_leaves, index_left + 1);
                 }
                 index_right
             }
             TransitionID::Simple(_) | TransitionID::None => {
-                if current_leaves.len() <= index {
-                    current_leaves.push(Vec::new());
-                }
+                Self::reserve_leaf(current_leaves, index);
                 current_leaves[index].push(self.clone());
                 index
             }
         }
     }
 
+    fn reserve_leaf(current_leaves: &mut Vec<Vec<TransitionID>>, index: usize) {
+        if current_leaves.len() <= index {
+            current_leaves.push(Vec::new());
+        }
+    }
+
     /// Takes a path of TransitionIDs, and splits them into seperate paths for each component
     /// For example
     /// ```
-- 
2.43.0


From 0e703350abbe51834ce3720e6431fd83a3729620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 02/35] fix: refinement also compares the delays of the two
 sides in the initial pair

---
 src/System/refine.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/System/refine.rs b/src/System/refine.rs
index 5258000..fc5f390 100644
--- a/src/System/refine.rs
+++ b/src/System/refine.rs
@@ -146,6 +146,15 @@ pub fn check_refinement(sys1: TransitionSystemPtr, sys2: TransitionSystemPtr) ->
     if !prepare_init_state(&mut initial_pair, initial_locations_1, initial_locations_2) {
         return RefinementFailure::empty_initial(sys1.as_ref(), sys2.as_ref());
     }
+
+    if init_cuts_delay_solutions(&initial_pair) {
+        return RefinementFailure::cuts_delays(
+            sys1.as_ref(),
+            sys2.as_ref(),
+            "delay",
+            &initial_pair,
+        );
+    }
     initial_pair.extrapolate_max_bounds(context.sys1, context.sys2);
 
     debug!("Initial {}", initial_pair);
@@ -421,6 +430,16 @@ fn prepare_init_state(
     !initial_pair.ref_zone().is_empty()
 }
 
+/// Checks if the invariant of T (right) cuts delay solutions from S (left) in the initial pair
+fn init_cuts_delay_solutions(initial_pair: &StatePair) -> bool {
+    let s_invariant = initial_pair
+        .get_locations1()
+        .apply_invariants(OwnedFederation::init(initial_pair.ref_zone().dim()));
+    let t_invariant = initial_pair.ref_zone().clone().down();
+
+    !s_invariant.subset_eq(&t_invariant)
+}
+
 fn check_preconditions(
     sys1: &TransitionSystemPtr,
     sys2: &TransitionSystemPtr,
-- 
2.43.0


From 3585d11498e91ebeb2984bede634c56604980e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 03/35] fix: simplifying a chain like x-1-2 or 5+(x-3) keeps
 the sign of its constants

---
 src/EdgeEval/constraint_applyer.rs            | 12 ++++-----
 .../Expressions/arith_expression.rs           | 27 ++++++++++++++++---
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/EdgeEval/constraint_applyer.rs b/src/EdgeEval/constraint_applyer.rs
index c7a294e..c584316 100644
--- a/src/EdgeEval/constraint_applyer.rs
+++ b/src/EdgeEval/constraint_applyer.rs
@@ -200,16 +200,16 @@ fn get_clock_val(
     negated: bool,
 ) -> Result<(Clock, Option<Clock>), String> {
     let mut nxt_expr: Option<&ArithExpression> = None;
-    let mut nxt_negated = false;
+    let mut nxt_negated = negated;
     let val = match expression {
         ArithExpression::Difference(l, r) => {
             if let ArithExpression::Clock(x) = **l {
                 nxt_expr = Some(&**r);
-                nxt_negated = true;
-                Clock::pos(x)
+                nxt_negated = !negated;
+                Clock::new(x, negated)
             } else if let ArithExpression::Clock(x) = **r {
                 nxt_expr = Some(&**l);
-                Clock::neg(x)
+                Clock::new(x, !negated)
             } else {
                 return Err(String::from("No Clocks"));
             }
@@ -217,10 +217,10 @@ fn get_clock_val(
         ArithExpression::Addition(l, r) => {
             if let ArithExpression::Clock(x) = **l {
                 nxt_expr = Some(&**r);
-                Clock::pos(x)
+                Clock::new(x, negated)
             } else if let ArithExpression::Clock(x) = **r {
                 nxt_expr = Some(&**l);
-                Clock::pos(x)
+                Clock::new(x, negated)
             } else {
                 return Err(String::from("No Clocks"));
             }
diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index 242849c..d8f45f1 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -243,7 +243,12 @@ impl ArithExpression {
             ArithExpression::Difference(l, r) => {
                 if l.clock_var_count() > 0 {
                     switch = ArithExpression::clone_expr(l, r, None)?;
-                    l.move_clock_and_vars(Operation::Dif(false))?
+                    let moved = l.move_clock_and_vars(Operation::Dif(false))?;
+                    if let (None, Some((_, Operation::Dif(false)))) = (&switch, &moved) {
+                        // (clock - l) - r = clock - (l + r)
+                        switch = Some(ArithExpression::Addition(l.clone(), r.clone()));
+                    }
+                    moved
                 } else if r.clock_var_count() > 0 {
                     switch = ArithExpression::clone_expr(r, l, None)?;
                     r.move_clock_and_vars(Operation::Dif(true))?
@@ -254,10 +259,26 @@ impl ArithExpression {
             ArithExpression::Addition(l, r) => {
                 if l.clock_var_count() > 0 {
                     switch = ArithExpression::clone_expr(l, r, None)?;
-                    l.move_clock_and_vars(Operation::Add(false))?
+                    let mut moved = l.move_clock_and_vars(Operation::Add(false))?;
+                    if let (None, Some((_, op @ Operation::Dif(false)))) = (&switch, &mut moved) {
+                        if r.clock_var_count() > 0 {
+                            // (clock - l) + r = clock + (r - l)
+                            *op = Operation::Add(false);
+                            switch = Some(ArithExpression::Difference(r.clone(), l.clone()));
+                        } else {
+                            // (clock - l) + r = clock - (l - r)
+                            switch = Some(ArithExpression::Difference(l.clone(), r.clone()));
+                        }
+                    }
+                    moved
                 } else if r.clock_var_count() > 0 {
                     switch = ArithExpression::clone_expr(r, l, None)?;
-                    r.move_clock_and_vars(Operation::Add(true))?
+                    let moved = r.move_clock_and_vars(Operation::Add(true))?;
+                    if let (None, Some((_, Operation::Dif(false)))) = (&switch, &moved) {
+                        // l + (clock - r) = clock - (r - l)
+                        switch = Some(ArithExpression::Difference(r.clone(), l.clone()));
+                    }
+                    moved
                 } else {
                     None
                 }
-- 
2.43.0


From 81ce8aa57a83a5098d6a7010ad918045046c32e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 04/35] fix: in guards '&&' binds tighter than '||', as in the
 written form of disjunctions

---
 src/DataReader/parse_edge.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index 168da37..6bfd90d 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -19,12 +19,13 @@ pub struct EdgeParser;
 
 lazy_static! {
     static ref PRATT: PrattParser<Rule> = PrattParser::new()
+        // From the weakest to the strongest binding
+        .op(Op::infix(Rule::or, Assoc::Left))
+        .op(Op::infix(Rule::and, Assoc::Left))
         .op(Op::infix(Rule::add, Assoc::Left) | Op::infix(Rule::sub, Assoc::Left))
         .op(Op::infix(Rule::mul, Assoc::Left)
             | Op::infix(Rule::div, Assoc::Left)
-            | Op::infix(Rule::r#mod, Assoc::Left))
-        .op(Op::infix(Rule::and, Assoc::Left))
-        .op(Op::infix(Rule::or, Assoc::Left));
+            | Op::infix(Rule::r#mod, Assoc::Left));
 }
 
 #[derive(Debug, Clone, Deserialize)]
-- 
2.43.0


From 001c9ce38093198c64fcc211b6f2ec771dc0ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 05/35] fix: written guards and updates keep the brackets their
 meaning needs

---
 .../Expressions/arith_expression.rs           | 28 ++++++++++++++++---
 .../Expressions/bool_expression.rs            | 12 ++++++--
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index d8f45f1..fbb7662 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -58,19 +58,19 @@ impl ArithExpression {
     pub fn encode_expr(&self) -> String {
         match self {
             ArithExpression::Difference(left, right) => {
-                [left.encode_expr(), String::from("-"), right.encode_expr()].concat()
+                [left.encode_expr(), String::from("-"), right.encode_term()].concat()
             }
             ArithExpression::Addition(left, right) => {
                 [left.encode_expr(), String::from("+"), right.encode_expr()].concat()
             }
             ArithExpression::Multiplication(left, right) => {
-                [left.encode_expr(), String::from("*"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("*"), right.encode_factor()].concat()
             }
             ArithExpression::Division(left, right) => {
-                [left.encode_expr(), String::from("/"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("/"), right.encode_factor()].concat()
             }
             ArithExpression::Modulo(left, right) => {
-                [left.encode_expr(), String::from("%"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("%"), right.encode_factor()].concat()
             }
             ArithExpression::Clock(_) => [String::from("??")].concat(),
             ArithExpression::VarName(var) => var.clone(),
@@ -78,6 +78,26 @@ impl ArithExpression {
         }
     }
 
+    /// Encodes the expression as the right operand of a difference or the left of a product
+    fn encode_term(&self) -> String {
+        match self {
+            ArithExpression::Difference(_, _) | ArithExpression::Addition(_, _) => {
+                format!("({})", self.encode_expr())
+            }
+            _ => self.encode_expr(),
+        }
+    }
+
+    /// Encodes the expression as the right operand of a product, quotient or remainder
+    fn encode_factor(&self) -> String {
+        match self {
+            ArithExpression::Clock(_) | ArithExpression::VarName(_) | ArithExpression::Int(_) => {
+                self.encode_expr()
+            }
+            _ => format!("({})", self.encode_expr()),
+        }
+    }
+
     pub fn get_max_constant(&self, clock: ClockIndex, clock_name: &str) -> i32 {
         let mut new_constraint = 0;
 
diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index d02e9ea..328319e 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -63,9 +63,9 @@ impl BoolExpression {
     pub fn encode_expr(&self) -> String {
         match self {
             BoolExpression::AndOp(left, right) => [
-                left.encode_expr(),
+                left.encode_operand(),
                 String::from(" && "),
-                right.encode_expr(),
+                right.encode_operand(),
             ]
             .concat(),
             BoolExpression::OrOp(left, right) => [
@@ -93,6 +93,14 @@ impl BoolExpression {
         }
     }
 
+    /// Encodes the expression as an operand of a conjunction
+    fn encode_operand(&self) -> String {
+        match self {
+            BoolExpression::OrOp(_, _) => format!("({})", self.encode_expr()),
+            _ => self.encode_expr(),
+        }
+    }
+
     pub fn from_disjunction(
         disjunction: &Disjunction,
         naming: &HashMap<String, ClockIndex>,
-- 
2.43.0


From 56226883c6988ec55017f876715c5daeccecc1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 06/35] fix: guards with a negative bound, as written for clock
 differences, can be read back

---
 src/DataReader/grammars/edge_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DataReader/grammars/edge_grammar.pest b/src/DataReader/grammars/edge_grammar.pest
index 68bc473..5b56c6e 100644
--- a/src/DataReader/grammars/edge_grammar.pest
+++ b/src/DataReader/grammars/edge_grammar.pest
@@ -52,7 +52,7 @@ bool = _{ bool_true | bool_false }
 bool_true = { "true" }
 bool_false = { "false" }
 
-int = @{ "0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT* }
+int = @{ "-"? ~ ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) }
 
 WHITESPACE = _{ " " | "\n" | "\r\n" | "\t"}
 
-- 
2.43.0


From c1656f95c62cafb0d34905e4063ad8b71c63a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 07/35] fix: undo updates last one first, so a clock updated
 twice keeps its allowed valuations

---
 src/ModelObjects/transition.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ModelObjects/transition.rs b/src/ModelObjects/transition.rs
index ddd14b0..6e7ef88 100644
--- a/src/ModelObjects/transition.rs
+++ b/src/ModelObjects/transition.rs
@@ -125,10 +125,9 @@ impl Transition {
     }
 
     pub fn inverse_apply_updates(&self, mut fed: OwnedFederation) -> OwnedFederation {
-        for update in &self.updates {
+        // Undo the updates one by one, the last one first: a clock may be updated more than once
+        for update in self.updates.iter().rev() {
             fed = update.apply_as_guard(fed);
-        }
-        for update in &self.updates {
             fed = update.apply_as_free(fed);
         }
 
-- 
2.43.0


From 111baf1224667995992a7ad80564db30b20e7ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 08/35] fix: the bounds of a clock cover computed constants and
 clock differences

---
 .../Expressions/arith_expression.rs           | 63 ++++++++++---------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index fbb7662..a1d239c 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -147,39 +147,44 @@ impl ArithExpression {
         }
     }
 
+    /// The constant that the clock (or its difference to another clock) is compared to
     pub fn get_constant(left: &Self, right: &Self, clock: ClockIndex, clock_name: &str) -> i32 {
-        match left {
-            ArithExpression::Clock(clock_id) => {
-                if *clock_id == clock {
-                    if let ArithExpression::Int(constant) = right {
-                        return *constant;
-                    }
-                }
-            }
-            ArithExpression::VarName(name) => {
-                if name.eq(clock_name) {
-                    if let ArithExpression::Int(constant) = right {
-                        return *constant;
-                    }
-                }
+        match (left.simplify(), right.simplify()) {
+            (Ok(left), Ok(right))
+                if left.has_clock(clock, clock_name) || right.has_clock(clock, clock_name) =>
+            {
+                // A constraint `x + a <= b` compares x to b - a
+                (right.constant_part() - left.constant_part()).abs()
             }
-            ArithExpression::Int(constant) => match right {
-                ArithExpression::Clock(clock_id) => {
-                    if *clock_id == clock {
-                        return *constant;
-                    }
-                }
-                ArithExpression::VarName(name) => {
-                    if name.eq(clock_name) {
-                        return *constant;
-                    }
-                }
-                _ => {}
-            },
-            _ => {}
+            _ => 0,
+        }
+    }
+
+    fn has_clock(&self, clock: ClockIndex, clock_name: &str) -> bool {
+        match self {
+            ArithExpression::Difference(left, right)
+            | ArithExpression::Addition(left, right)
+            | ArithExpression::Multiplication(left, right)
+            | ArithExpression::Division(left, right)
+            | ArithExpression::Modulo(left, right) => {
+                left.has_clock(clock, clock_name) || right.has_clock(clock, clock_name)
+            }
+            ArithExpression::Clock(clock_id) => *clock_id == clock,
+            ArithExpression::VarName(name) => name == clock_name,
+            ArithExpression::Int(_) => false,
         }
+    }
 
-        0
+    /// The constant of a simplified sum of clocks and constants
+    fn constant_part(&self) -> i32 {
+        match self {
+            ArithExpression::Difference(left, right) => {
+                left.constant_part() - right.constant_part()
+            }
+            ArithExpression::Addition(left, right) => left.constant_part() + right.constant_part(),
+            ArithExpression::Int(constant) => *constant,
+            _ => 0,
+        }
     }
 
     pub fn iterate_constraints<F>(&self, function: &mut F)
-- 
2.43.0


From 1cca198172e81a2be7fae7d273bebf9029356586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 09/35] fix: a step is only taken when the target's invariant
 holds on arrival, as its allowed values say

---
 src/ModelObjects/transition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ModelObjects/transition.rs b/src/ModelObjects/transition.rs
index 6e7ef88..2d8bfbe 100644
--- a/src/ModelObjects/transition.rs
+++ b/src/ModelObjects/transition.rs
@@ -57,8 +57,10 @@ impl Transition {
         let mut zone = state.take_zone();
         zone = self.apply_guards(zone);
         if !zone.is_empty() {
-            zone = self.apply_updates(zone).up();
+            zone = self.apply_updates(zone);
             self.move_locations(&mut state.decorated_locations);
+            // The invariants hold on arrival as well as while time passes
+            zone = state.decorated_locations.apply_invariants(zone).up();
             zone = state.decorated_locations.apply_invariants(zone);
             if !zone.is_empty() {
                 state.set_zone(zone);
-- 
2.43.0


From 114fd62fab569dd0a5d07a0234144d80a32d33d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 10/35] fix: input-enabling undoes an edge's updates last one
 first, so a clock updated twice is handled

---
 src/System/input_enabler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/System/input_enabler.rs b/src/System/input_enabler.rs
index c5ddd44..e05b5f1 100644
--- a/src/System/input_enabler.rs
+++ b/src/System/input_enabler.rs
@@ -50,7 +50,7 @@ pub fn make_input_enabled(component: &mut Component, inputs: &[String]) {
                 }
 
                 if let Some(updates) = &edge.update {
-                    for update in updates {
+                    for update in updates.iter().rev() {
                         let cu = update.compiled(component.get_declarations());
                         guard_zone = cu.apply_as_guard(guard_zone);
                         guard_zone = cu.apply_as_free(guard_zone);
-- 
2.43.0


From 5b62f3e7341b5f1400f75687bb1dd55ac24d0dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 11/35] fix: refinement takes a pair of steps only when the
 targets' invariants hold on arrival

---
 src/System/refine.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/System/refine.rs b/src/System/refine.rs
index fc5f390..92c090e 100644
--- a/src/System/refine.rs
+++ b/src/System/refine.rs
@@ -365,6 +365,10 @@ fn build_state_pair(
     new_sp_zone = transition1.apply_updates(new_sp_zone);
     new_sp_zone = transition2.apply_updates(new_sp_zone);
 
+    // The steps can only be taken when the invariants of the targets hold on arrival
+    new_sp_zone = transition1.target_locations.apply_invariants(new_sp_zone);
+    new_sp_zone = transition2.target_locations.apply_invariants(new_sp_zone);
+
     //Perform a delay on the zone after the updates were applied
     new_sp_zone = new_sp_zone.up();
 
-- 
2.43.0


From 1f3aad95e0c8f185a448981fc5ad8e97a69d29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 12/35] fix: a state found inconsistent does not count as
 consistent when it is met again

---
 src/System/local_consistency.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index 0cb42d7..71b441d 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -92,8 +92,22 @@ pub fn consistency_least_helper(
         return ConsistencyFailure::inconsistent(system, &state);
     }
 
+    let passed = passed_list.len();
     passed_list.push(state.clone());
 
+    let result = consistency_least_onwards(state, passed_list, system);
+    if result.is_err() {
+        // The state, and those found consistent because of it, must not count as consistent later
+        passed_list.truncate(passed);
+    }
+    result
+}
+
+fn consistency_least_onwards(
+    state: State,
+    passed_list: &mut Vec<State>,
+    system: &dyn TransitionSystem,
+) -> ConsistencyResult {
     for input in system.get_input_actions() {
         for transition in &system.next_inputs(&state.decorated_locations, &input) {
             let mut new_state = state.clone();
-- 
2.43.0


From 7fe57d3d96fac7b451fe6f11c36f50892a160a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 13/35] fix: leaving out a clock keeps guards and invariants
 that only mention it trivially

---
 src/ModelObjects/component.rs | 74 +++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 2b8759a..f2239d8 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -2,7 +2,9 @@ use crate::DataReader::serialization::{decode_declarations, DummyComponent};
 
 use edbm::util::bounds::Bounds;
 use edbm::util::constraints::ClockIndex;
+use edbm::zones::OwnedFederation;
 
+use crate::EdgeEval::constraint_applyer::apply_constraints_to_state;
 use crate::ModelObjects::Expressions::BoolExpression;
 use crate::ModelObjects::{Edge, Location, SyncType};
 use itertools::Itertools;
@@ -117,33 +119,25 @@ impl Component {
             .get_clock_name_by_index(index)
             .expect("Couldn't find clock with index")
             .to_owned();
+        let declarations = self.declarations.clone();
         self.declarations.clocks.remove(&name);
 
-        // Removes from from updates and guards
-        self.edges
-            .iter_mut()
-            .filter(|e| e.update.is_some() || e.guard.is_some())
-            .for_each(|e| {
-                // The guard is overwritten to `false`. This can be done since we assume
-                // that all edges with guards involving the given clock is not reachable
-                // in some composite system.
-                if let Some(guard) = e.guard.as_mut().filter(|g| g.has_varname(&name)) {
-                    *guard = BoolExpression::Bool(false);
-                }
-                if let Some(inv) = e.update.as_mut() {
-                    inv.retain(|u| u.variable != name);
-                }
-            });
-
-        // Removes from from location invariants
-        // The invariants containing the clock are overwritten to `false`.
-        // This can be done since we assume that all locations with invariants involving
-        // the given clock is not reachable in some composite system.
-        self.locations
-            .iter_mut()
-            .filter_map(|l| l.invariant.as_mut())
-            .filter(|i| i.has_varname(&name))
-            .for_each(|i| *i = BoolExpression::Bool(false));
+        // Removes from updates and guards
+        for edge in &mut self.edges {
+            if let Some(guard) = edge.guard.take() {
+                edge.guard = without_clock(guard, &name, &declarations);
+            }
+            if let Some(updates) = edge.update.as_mut() {
+                updates.retain(|u| u.variable != name);
+            }
+        }
+
+        // Removes from location invariants
+        for location in &mut self.locations {
+            if let Some(invariant) = location.invariant.take() {
+                location.invariant = without_clock(invariant, &name, &declarations);
+            }
+        }
 
         info!(
             "Removed Clock '{name}' (index {index}) has been removed from component {}",
@@ -177,6 +171,36 @@ impl Component {
     }
 }
 
+/// Writes `expression` without the clock `name`, which is unused where the expression matters.
+/// The clock disappears from an expression that does not depend on it, such as `x >= 0`.
+/// An expression that does depend on it is overwritten to `false`. This can be done since we assume
+/// that the edge or location is not reachable in some composite system.
+fn without_clock(
+    expression: BoolExpression,
+    name: &String,
+    declarations: &Declarations,
+) -> Option<BoolExpression> {
+    if !expression.has_varname(name) {
+        return Some(expression);
+    }
+    let dim = declarations.clocks.values().max().map_or(1, |max| max + 1);
+    let zone = OwnedFederation::universe(dim);
+    match apply_constraints_to_state(&expression, declarations, zone) {
+        Ok(zone) => {
+            BoolExpression::from_disjunction(&zone.minimal_constraints(), &declarations.clocks).map(
+                |minimal| {
+                    if minimal.has_varname(name) {
+                        BoolExpression::Bool(false)
+                    } else {
+                        minimal
+                    }
+                },
+            )
+        }
+        Err(_) => Some(BoolExpression::Bool(false)),
+    }
+}
+
 pub trait DeclarationProvider {
     fn get_declarations(&self) -> &Declarations;
 }
-- 
2.43.0


From 39b64bf583a3045a9c1a15dfaf78053c1c8e2faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:10 +0000
Subject: [PATCH 14/35] fix: in states '||' and 'not' are read instead of
 panicking, with the usual precedence, and too large numbers are refused

---
 src/DataReader/grammars/query_grammar.pest |  10 +-
 src/DataReader/parse_queries.rs            | 116 ++++++++++-----------
 2 files changed, 64 insertions(+), 62 deletions(-)

diff --git a/src/DataReader/grammars/query_grammar.pest b/src/DataReader/grammars/query_grammar.pest
index 2571891..8ceb303 100644
--- a/src/DataReader/grammars/query_grammar.pest
+++ b/src/DataReader/grammars/query_grammar.pest
@@ -48,11 +48,11 @@ potentially = {"A<>" ~ boolExpr} // TODO: Should include the system to be checke
 
 state = { boolExpr }
 
-boolExpr = _{andExpr}
+boolExpr = _{orExpr}
 
-andExpr = { orExpr ~ (("&&" | "and") ~ orExpr)* }
+orExpr = { andExpr ~ (("||" | "or") ~ andExpr)* }
 
-orExpr = { subExpr ~ (("||" | "or") ~ subExpr)* }
+andExpr = { subExpr ~ (("&&" | "and") ~ subExpr)* }
 
 subExpr = _{parenthesizedSubExp | notExpr | compExpr | locExpr | bool_true | bool_false}
 
@@ -60,7 +60,7 @@ locExpr = { variable }
 
 compExpr = {boolDiff ~ operator ~ boolDiff}
 
-notExpr = {("not" | "!") ~ boolExpr}
+notExpr = {(not_word | "!") ~ subExpr}
 
 parenthesizedSubExp = _{ "(" ~ boolExpr ~ ")"}
 
@@ -76,6 +76,8 @@ atom = _{int}
 bool_true = { "true" }
 bool_false = { "false" }
 
+not_word = @{ "not" ~ !(ASCII_ALPHANUMERIC | "_") }
+
 sum_op = { "+" }
 sub_op = { "-" }
 
diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index 1a1f889..6eeb03e 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -49,18 +49,22 @@ pub fn parse_system(pair: pest::iterators::Pair<Rule>) -> SystemExpression {
         .parse(pair.into_inner())
 }
 
-pub fn parse_operand(pair: pest::iterators::Pair<Rule>) -> OperandExpression {
+pub fn parse_operand(pair: pest::iterators::Pair<Rule>) -> Result<OperandExpression, String> {
     match pair.as_rule() {
-        Rule::int => OperandExpression::Number(pair.as_str().parse().unwrap()),
-        Rule::variable => OperandExpression::Clock(comp_var_from_variable_pair(pair)),
+        Rule::int => pair
+            .as_str()
+            .parse()
+            .map(OperandExpression::Number)
+            .map_err(|e| format!("Could not read the number {}: {}", pair.as_str(), e)),
+        Rule::variable => Ok(OperandExpression::Clock(comp_var_from_variable_pair(pair))),
         Rule::boolDiff => {
             let mut pairs = pair.into_inner();
 
-            let mut expr = parse_operand(pairs.next().unwrap());
+            let mut expr = parse_operand(pairs.next().unwrap())?;
 
             while pairs.peek().is_some() {
                 let op = pairs.next().unwrap().as_rule();
-                let operand = parse_operand(pairs.next().unwrap());
+                let operand = parse_operand(pairs.next().unwrap())?;
 
                 match op {
                     Rule::sub_op => {
@@ -73,57 +77,57 @@ pub fn parse_operand(pair: pest::iterators::Pair<Rule>) -> OperandExpression {
                 }
             }
 
-            expr
+            Ok(expr)
         }
         _ => unreachable!(),
     }
 }
 
-fn parse_state(pair: pest::iterators::Pair<Rule>) -> StateExpression {
-    PRATT
-        .map_primary(|pair| match pair.as_rule() {
-            Rule::andExpr | Rule::orExpr => {
-                let rule = pair.as_rule();
-
-                let mut inner = pair.into_inner();
-                let len = inner.clone().count();
-                if len == 1 {
-                    return parse_state(inner.next().unwrap());
-                }
-                match rule {
-                    Rule::andExpr => StateExpression::AND(inner.map(parse_state).collect()),
-                    Rule::orExpr => StateExpression::OR(inner.map(parse_state).collect()),
-                    _ => unreachable!(),
-                }
+fn parse_state(pair: pest::iterators::Pair<Rule>) -> Result<StateExpression, String> {
+    let rule = pair.as_rule();
+    match rule {
+        Rule::state => parse_state(pair.into_inner().next().unwrap()),
+        Rule::andExpr | Rule::orExpr => {
+            let mut operands: Vec<_> = pair
+                .into_inner()
+                .map(parse_state)
+                .collect::<Result<_, _>>()?;
+            if operands.len() == 1 {
+                return Ok(operands.remove(0));
             }
-            Rule::notExpr => {
-                StateExpression::NOT(Box::new(parse_state(pair.into_inner().next().unwrap())))
+            match rule {
+                Rule::andExpr => Ok(StateExpression::AND(operands)),
+                _ => Ok(StateExpression::OR(operands)),
             }
-            Rule::compExpr => {
-                let mut pairs = pair.into_inner();
-                let first = pairs.next().unwrap();
-                let op = pairs.next().unwrap();
-                let second = pairs.next().unwrap();
+        }
+        Rule::notExpr => {
+            let operand = parse_state(pair.into_inner().last().unwrap())?;
+            Ok(StateExpression::NOT(Box::new(operand)))
+        }
+        Rule::compExpr => {
+            let mut pairs = pair.into_inner();
+            let first = pairs.next().unwrap();
+            let op = pairs.next().unwrap();
+            let second = pairs.next().unwrap();
 
-                let first = parse_operand(first);
-                let second = parse_operand(second);
-                match op.as_rule() {
-                    Rule::leq_op => StateExpression::LEQ(first, second),
-                    Rule::geq_op => StateExpression::GEQ(first, second),
-                    Rule::eq_op => StateExpression::EQ(first, second),
-                    Rule::lt_op => StateExpression::LT(first, second),
-                    Rule::gt_op => StateExpression::GT(first, second),
-                    _ => unreachable!(),
-                }
+            let first = parse_operand(first)?;
+            let second = parse_operand(second)?;
+            match op.as_rule() {
+                Rule::leq_op => Ok(StateExpression::LEQ(first, second)),
+                Rule::geq_op => Ok(StateExpression::GEQ(first, second)),
+                Rule::eq_op => Ok(StateExpression::EQ(first, second)),
+                Rule::lt_op => Ok(StateExpression::LT(first, second)),
+                Rule::gt_op => Ok(StateExpression::GT(first, second)),
+                _ => unreachable!(),
             }
-            Rule::locExpr => StateExpression::Location(comp_var_from_variable_pair(
-                pair.into_inner().next().unwrap(),
-            )),
-            Rule::bool_true => StateExpression::Bool(true),
-            Rule::bool_false => StateExpression::Bool(false),
-            _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
-        })
-        .parse(pair.into_inner())
+        }
+        Rule::locExpr => Ok(StateExpression::Location(comp_var_from_variable_pair(
+            pair.into_inner().next().unwrap(),
+        ))),
+        Rule::bool_true => Ok(StateExpression::Bool(true)),
+        Rule::bool_false => Ok(StateExpression::Bool(false)),
+        _ => unreachable!("Unexpected rule: {:?}", rule),
+    }
 }
 
 fn comp_var_from_variable_pair(pair: pest::iterators::Pair<Rule>) -> ComponentVariable {
@@ -140,7 +144,7 @@ fn comp_var_from_variable_pair(pair: pest::iterators::Pair<Rule>) -> ComponentVa
     }
 }
 
-fn parse_query(pair: pest::iterators::Pair<Rule>) -> QueryExpression {
+fn parse_query(pair: pest::iterators::Pair<Rule>) -> Result<QueryExpression, String> {
     PRATT
         .map_primary(|pair| {
             let query = match pair.as_rule() {
@@ -158,8 +162,8 @@ fn parse_query(pair: pest::iterators::Pair<Rule>) -> QueryExpression {
                 Rule::reachability => {
                     let mut pairs = pair.into_inner();
                     let system = parse_system(pairs.next().unwrap());
-                    let to = parse_state(pairs.next_back().unwrap());
-                    let from = pairs.next().map(parse_state);
+                    let to = parse_state(pairs.next_back().unwrap())?;
+                    let from = pairs.next().map(parse_state).transpose()?;
 
                     QueryExpression::Reachability { system, from, to }
                 }
@@ -198,12 +202,12 @@ fn parse_query(pair: pest::iterators::Pair<Rule>) -> QueryExpression {
                 }
                 _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
             };
-            query
+            Ok(query)
         })
         .parse(pair.into_inner())
 }
 
-fn parse_queries(pair: pest::iterators::Pair<Rule>) -> Vec<QueryExpression> {
+fn parse_queries(pair: pest::iterators::Pair<Rule>) -> Result<Vec<QueryExpression>, String> {
     match pair.as_rule() {
         Rule::queryList => {
             let inner = pair.into_inner();
@@ -236,9 +240,7 @@ pub fn parse_to_expression_tree(input: &str) -> Result<Vec<QueryExpression>, Str
         Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
     };
 
-    let result = parse_queries(pairs.next().unwrap());
-
-    Ok(result)
+    parse_queries(pairs.next().unwrap())
 }
 
 pub fn parse_to_system_expr(input: &str) -> Result<SystemExpression, String> {
@@ -258,7 +260,5 @@ pub fn parse_to_state_expr(input: &str) -> Result<StateExpression, String> {
         Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
     };
 
-    let result = parse_state(pairs.next().unwrap());
-
-    Ok(result)
+    parse_state(pairs.next().unwrap())
 }
-- 
2.43.0


From c037b57b3e9210f9eaf3722306683b0ea15bc5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:10 +0000
Subject: [PATCH 15/35] fix: a name may be followed by a minus or an arrow
 without a space

---
 src/DataReader/grammars/query_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DataReader/grammars/query_grammar.pest b/src/DataReader/grammars/query_grammar.pest
index 8ceb303..e7205ee 100644
--- a/src/DataReader/grammars/query_grammar.pest
+++ b/src/DataReader/grammars/query_grammar.pest
@@ -81,7 +81,7 @@ not_word = @{ "not" ~ !(ASCII_ALPHANUMERIC | "_") }
 sum_op = { "+" }
 sub_op = { "-" }
 
-variable_name = @{(ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_" )*) ~ !"-" }
+variable_name = @{ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_" )*}
 
 identifier = @{(!"[" ~ !"]" ~ ANY )+}
 
-- 
2.43.0


From 90059e87bec0661824b713ddb4f020fd71f722ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 16/35] fix: saving a system gives every clock a name of its
 own

---
 src/System/save_component.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index 2817ac0..6ef6d78 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -79,11 +79,15 @@ pub fn get_clock_map(sysrep: &TransitionSystemPtr) -> HashMap<String, ClockIndex
     }
     for (comp_id, decl) in decls.into_iter().enumerate() {
         for (k, v) in &decl.clocks {
-            if clocks.contains_key(k) {
-                clocks.insert(format!("{}{}", k, comp_id), *v);
-            } else {
-                clocks.insert(k.clone(), *v);
+            let mut name = k.clone();
+            if clocks.contains_key(&name) {
+                name = format!("{}{}", k, comp_id);
+            }
+            // The new name may be a name of another clock
+            while clocks.contains_key(&name) {
+                name.push('_');
             }
+            clocks.insert(name, *v);
         }
     }
 
-- 
2.43.0


From b0d73e5548ed403a02b9521a00ea0e9337444d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 17/35] fix: a negated clock condition in a state is answered
 instead of panicking

---
 .../Expressions/state_expression.rs           | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/ModelObjects/Expressions/state_expression.rs b/src/ModelObjects/Expressions/state_expression.rs
index 4d3bbf4..5940dc6 100644
--- a/src/ModelObjects/Expressions/state_expression.rs
+++ b/src/ModelObjects/Expressions/state_expression.rs
@@ -141,9 +141,7 @@ impl StateExpression {
                     BoolExpression::OrOp(Box::new(acc), Box::new(e))
                 }))
             }
-            StateExpression::NOT(_expr) => {
-                unimplemented!("NOT expressions are not supported yet")
-            }
+            StateExpression::NOT(expr) => expr.negated().to_bool_expression(comps),
             StateExpression::Location(_) => {
                 // Locations here should just be ignored
                 Ok(BoolExpression::Bool(true))
@@ -151,6 +149,31 @@ impl StateExpression {
             StateExpression::Bool(b) => Ok(BoolExpression::Bool(*b)),
         }
     }
+
+    /// The negation of an expression without locations, without using [`StateExpression::NOT`] for comparisons
+    fn negated(&self) -> StateExpression {
+        match self {
+            StateExpression::LEQ(left, right) => StateExpression::GT(left.clone(), right.clone()),
+            StateExpression::GEQ(left, right) => StateExpression::LT(left.clone(), right.clone()),
+            StateExpression::LT(left, right) => StateExpression::GEQ(left.clone(), right.clone()),
+            StateExpression::GT(left, right) => StateExpression::LEQ(left.clone(), right.clone()),
+            StateExpression::EQ(left, right) => StateExpression::OR(vec![
+                StateExpression::LT(left.clone(), right.clone()),
+                StateExpression::GT(left.clone(), right.clone()),
+            ]),
+            StateExpression::AND(exprs) => {
+                StateExpression::OR(exprs.iter().map(|e| e.negated()).collect())
+            }
+            StateExpression::OR(exprs) => {
+                StateExpression::AND(exprs.iter().map(|e| e.negated()).collect())
+            }
+            StateExpression::NOT(expr) => (**expr).clone(),
+            StateExpression::Location(_) => {
+                unreachable!("Negations of locations are not supported")
+            }
+            StateExpression::Bool(b) => StateExpression::Bool(!b),
+        }
+    }
 }
 
 impl Display for StateExpression {
-- 
2.43.0


From fbdd6bc932f4d43b952644cb411efd2df4622e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 18/35] fix: states are refused when a location's component is
 unknown or ambiguous, or a location is only one alternative

---
 src/System/extract_state.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/System/extract_state.rs b/src/System/extract_state.rs
index 3de219f..f29c2e8 100644
--- a/src/System/extract_state.rs
+++ b/src/System/extract_state.rs
@@ -22,8 +22,7 @@ pub fn get_state(
 
     if let Some((c1, c2)) = components
         .iter()
-        .cartesian_product(components.iter())
-        .filter(|(&c1, &c2)| c1 != c2)
+        .tuple_combinations()
         .find(|(c1, c2)| c1.name == c2.name && c1.special_id == c2.special_id)
     {
         return Err(format!(
@@ -50,6 +49,18 @@ pub fn get_state(
         ));
     }
 
+    // Check that the locations belong to components of the system
+    if let Some(loc) = locations.iter().find(|loc| {
+        !components
+            .iter()
+            .any(|c| loc.component == c.name && loc.special_id == c.special_id)
+    }) {
+        return Err(format!(
+            "The component of {} is not part of the system",
+            loc
+        ));
+    }
+
     let loc_tree = construct_location_tree(&locations, recipe, system)?;
 
     let zone =
@@ -70,17 +81,15 @@ fn get_locations(expr: &StateExpression) -> Result<Vec<ComponentVariable>, Strin
             Ok(res)
         }
         StateExpression::OR(exprs) => {
-            let mut res = Vec::new();
             for expr in exprs {
-                res.append(&mut get_locations(expr)?);
-            }
-            if res.len() != 1 {
-                return Err(format!(
-                    "We do not support disjunctions with more than one location: {:?}",
-                    expr
-                ));
+                if !get_locations(expr)?.is_empty() {
+                    return Err(format!(
+                        "We do not support disjunctions of locations: {:?}",
+                        expr
+                    ));
+                }
             }
-            Ok(res)
+            Ok(Vec::new())
         }
         StateExpression::Location(loc) => Ok(vec![loc.clone()]),
         StateExpression::NOT(expr) => {
-- 
2.43.0


From 342675fe557da87455acdff99b36140fdd76eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 19/35] fix: declarations with several statements on a line,
 comments or line ends of any kind are read

---
 src/DataReader/serialization.rs | 84 ++++++++++++++++-----------------
 src/DataReader/xml_parser.rs    | 56 ++--------------------
 2 files changed, 46 insertions(+), 94 deletions(-)

diff --git a/src/DataReader/serialization.rs b/src/DataReader/serialization.rs
index 9e2d3e0..353688f 100644
--- a/src/DataReader/serialization.rs
+++ b/src/DataReader/serialization.rs
@@ -175,50 +175,41 @@ impl From<Location> for DummyLocation {
     }
 }
 
-/// Function used for deserializing declarations
-pub fn decode_declarations<'de, D>(deserializer: D) -> Result<Declarations, D::Error>
-where
-    D: Deserializer<'de>,
-{
-    let s = String::deserialize(deserializer)?;
-    //Split string into vector of strings
-    let decls: Vec<String> = s.split('\n').map(|s| s.into()).collect();
+/// Parses the declarations of a component: `clock` and `int` statements with one or more names each,
+/// on any number of lines, and comments.
+pub(crate) fn parse_declarations(text: &str) -> Result<Declarations, String> {
+    enum Kind {
+        Clock,
+        Int,
+    }
     let mut ints: HashMap<String, i32> = HashMap::new();
     let mut clocks: HashMap<String, ClockIndex> = HashMap::new();
-    let mut counter: ClockIndex = 1;
-    for string in decls {
-        //skip comments
-        if string.starts_with("//") || string.is_empty() {
-            continue;
-        }
-        let sub_decls: Vec<String> = string.split(';').map(|s| s.into()).collect();
-
-        for sub_decl in sub_decls {
-            if !sub_decl.is_empty() {
-                let split_string: Vec<String> = sub_decl.split(' ').map(|s| s.into()).collect();
-                let variable_type = split_string[0].as_str();
-
-                if variable_type == "clock" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            if !var.is_empty() {
-                                clocks.insert(var, counter);
-                                counter += 1;
-                            }
-                        }
-                    }
-                } else if variable_type == "int" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            ints.insert(var, 0);
-                        }
-                    }
-                } else {
-                    panic!("Not implemented read for type: \"{}\"", variable_type);
+    for statement in text
+        .lines()
+        .filter_map(|line| line.split("//").next())
+        .collect::<Vec<_>>()
+        .join(" ")
+        .split(';')
+    {
+        let mut kind = None;
+        for word in statement
+            .split(|c: char| c == ',' || c.is_whitespace())
+            .filter(|word| !word.is_empty())
+        {
+            match (word, &kind) {
+                ("clock", _) => kind = Some(Kind::Clock),
+                ("int", _) => kind = Some(Kind::Int),
+                (name, Some(_)) if clocks.contains_key(name) || ints.contains_key(name) => {
+                    return Err(format!("\"{}\" is declared twice", name));
+                }
+                (name, Some(Kind::Clock)) => {
+                    clocks.insert(name.to_string(), clocks.len() + 1);
+                }
+                (name, Some(Kind::Int)) => {
+                    ints.insert(name.to_string(), 0);
+                }
+                (unknown, None) => {
+                    return Err(format!("Not implemented read for type: \"{}\"", unknown));
                 }
             }
         }
@@ -227,6 +218,15 @@ where
     Ok(Declarations { ints, clocks })
 }
 
+/// Function used for deserializing declarations
+pub fn decode_declarations<'de, D>(deserializer: D) -> Result<Declarations, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let s = String::deserialize(deserializer)?;
+    parse_declarations(&s).map_err(serde::de::Error::custom)
+}
+
 /// Function used for deserializing guards
 pub fn decode_guard<'de, D>(
     deserializer: D,
diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index a668934..77893f0 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -1,10 +1,10 @@
 use crate::DataReader::parse_edge;
 use crate::DataReader::parse_edge::Update;
+use crate::DataReader::serialization::parse_declarations;
 use crate::ModelObjects::{
-    Component, Declarations, Edge, Location, LocationType, Query, SyncType, SystemDeclarations,
+    Component, Edge, Location, LocationType, Query, SyncType, SystemDeclarations,
     SystemSpecification,
 };
-use edbm::util::constraints::ClockIndex;
 use elementtree::{Element, FindChildren};
 use std::collections::HashMap;
 use std::fs::File;
@@ -43,7 +43,8 @@ fn parse_xml<R: Read>(xml_data: R) -> (Vec<Component>, SystemDeclarations, Vec<Q
         let declarations = match xml_comp.find("declaration") {
             Some(e) => parse_declarations(e.text()),
             None => parse_declarations(""),
-        };
+        }
+        .unwrap_or_else(|error| panic!("Could not parse declarations: {}", error));
         let edges = collect_edges(xml_comp.find_all("transition"));
         let comp = Component {
             name: xml_comp.find("name").unwrap().text().parse().unwrap(),
@@ -146,55 +147,6 @@ fn collect_edges(xml_edges: FindChildren) -> Vec<Edge> {
     edges
 }
 
-fn parse_declarations(variables: &str) -> Declarations {
-    //Split string into vector of strings
-    let decls: Vec<String> = variables.split('\n').map(|s| s.into()).collect();
-    let mut ints: HashMap<String, i32> = HashMap::new();
-    let mut clocks: HashMap<String, ClockIndex> = HashMap::new();
-    let mut counter: ClockIndex = 1;
-    for string in decls {
-        //skip comments
-        if string.starts_with("//") || string.is_empty() {
-            continue;
-        }
-        let sub_decls: Vec<String> = string.split(';').map(|s| s.into()).collect();
-
-        for mut sub_decl in sub_decls {
-            sub_decl = sub_decl.replace('\r', "");
-
-            if !sub_decl.is_empty() {
-                let split_string: Vec<String> = sub_decl.split(' ').map(|s| s.into()).collect();
-                let variable_type = split_string[0].as_str();
-
-                if variable_type == "clock" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            if !var.is_empty() {
-                                clocks.insert(var, counter);
-                                counter += 1;
-                            }
-                        }
-                    }
-                } else if variable_type == "int" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            ints.insert(var, 0);
-                        }
-                    }
-                } else {
-                    panic!("not implemented read for type: {}", variable_type);
-                }
-            }
-        }
-    }
-
-    Declarations { ints, clocks }
-}
-
 fn decode_sync_type(global_decl: &str) -> SystemSpecification {
     let mut first_run = true;
     let decls: Vec<String> = global_decl.split('\n').map(|s| s.into()).collect();
-- 
2.43.0


From aae8668ac8523929acc3f56e44dc4fbbaad57989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 20/35] fix: wrong invariants, directions and location types
 are refused instead of panicking

---
 src/DataReader/serialization.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/DataReader/serialization.rs b/src/DataReader/serialization.rs
index 353688f..8a2774d 100644
--- a/src/DataReader/serialization.rs
+++ b/src/DataReader/serialization.rs
@@ -269,10 +269,12 @@ where
     if s.is_empty() {
         return Ok(None);
     }
-    match parse_edge::parse_guard(&s) {
-        Ok(edgeAttribute) => Ok(Some(edgeAttribute)),
-        Err(e) => panic!("Could not parse invariant {} got error: {:?}", s, e),
-    }
+    parse_edge::parse_guard(&s).map(Some).map_err(|err| {
+        serde::de::Error::custom(format!(
+            "Could not parse invariant {} got error: {:?}",
+            s, err
+        ))
+    })
 }
 
 //Function used for deserializing sync types
@@ -284,7 +286,10 @@ where
     match s.as_str() {
         "INPUT" => Ok(SyncType::Input),
         "OUTPUT" => Ok(SyncType::Output),
-        _ => panic!("Unknown sync type in status {:?}", s),
+        _ => Err(serde::de::Error::custom(format!(
+            "Unknown sync type in status {:?}",
+            s
+        ))),
     }
 }
 
@@ -325,7 +330,10 @@ where
         "INITIAL" => Ok(LocationType::Initial),
         "UNIVERSAL" => Ok(LocationType::Universal),
         "INCONSISTENT" => Ok(LocationType::Inconsistent),
-        _ => panic!("Unknown sync type in status {:?}", s),
+        _ => Err(serde::de::Error::custom(format!(
+            "Unknown location type {:?}",
+            s
+        ))),
     }
 }
 
-- 
2.43.0


From cf22b4a82d7e0875e2153420d008de113c0be395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 21/35] fix: only the invariant label of an XML location is its
 invariant

---
 src/DataReader/xml_parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index 77893f0..4796ae2 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -76,7 +76,10 @@ fn collect_locations(xml_locations: FindChildren, initial_id: &str) -> Vec<Locat
     for loc in xml_locations {
         let location = Location {
             id: loc.get_attr("id").unwrap().parse().unwrap(),
-            invariant: match loc.find("label") {
+            invariant: match loc
+                .find_all("label")
+                .find(|label| label.get_attr("kind") == Some("invariant"))
+            {
                 Some(x) => match parse_edge::parse_guard(x.text()) {
                     Ok(edgeAttribute) => Some(edgeAttribute),
                     Err(e) => panic!("Could not parse invariant {} got error: {:?}", x.text(), e),
-- 
2.43.0


From 99ce229bcdd253624f33ac40bba7d3cc8ac79885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:26 +0000
Subject: [PATCH 22/35] fix: system declarations are read in any layout, and
 wrong ones refused instead of panicking

---
 src/DataReader/xml_parser.rs            |  95 +----------------
 src/ModelObjects/system_declarations.rs | 130 ++++++++++++------------
 2 files changed, 68 insertions(+), 157 deletions(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index 4796ae2..8287765 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -2,11 +2,10 @@ use crate::DataReader::parse_edge;
 use crate::DataReader::parse_edge::Update;
 use crate::DataReader::serialization::parse_declarations;
 use crate::ModelObjects::{
-    Component, Edge, Location, LocationType, Query, SyncType, SystemDeclarations,
-    SystemSpecification,
+    parse_system_specification, Component, Edge, Location, LocationType, Query, SyncType,
+    SystemDeclarations,
 };
 use elementtree::{Element, FindChildren};
-use std::collections::HashMap;
 use std::fs::File;
 use std::io::BufReader;
 use std::io::Read;
@@ -65,7 +64,8 @@ fn parse_xml<R: Read>(xml_data: R) -> (Vec<Component>, SystemDeclarations, Vec<Q
 
     let system_declarations = SystemDeclarations {
         //name: "".to_string(),
-        declarations: decode_sync_type(root.find("system").unwrap().text()),
+        declarations: parse_system_specification(root.find("system").unwrap().text())
+            .unwrap_or_else(|error| panic!("Could not parse system declarations: {}", error)),
     };
 
     (xml_components, system_declarations, vec![])
@@ -149,90 +149,3 @@ fn collect_edges(xml_edges: FindChildren) -> Vec<Edge> {
 
     edges
 }
-
-fn decode_sync_type(global_decl: &str) -> SystemSpecification {
-    let mut first_run = true;
-    let decls: Vec<String> = global_decl.split('\n').map(|s| s.into()).collect();
-    let mut input_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut output_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut components: Vec<String> = vec![];
-
-    let mut component_names: Vec<String> = vec![];
-
-    for declaration in &decls {
-        //skip comments
-        if declaration.starts_with("//") || declaration.is_empty() {
-            continue;
-        }
-
-        if !declaration.trim().is_empty() {
-            if first_run {
-                let component_decls = declaration;
-
-                component_names = component_decls
-                    .split(' ')
-                    .map(|s| s.chars().filter(|c| !c.is_whitespace()).collect())
-                    .collect();
-
-                if component_names[0] == "system" {
-                    //do not include element 0 as that is the system keyword
-                    for name in component_names.iter_mut().skip(1) {
-                        let s = name.replace(',', "");
-                        let s_cleaned = s.replace(';', "");
-                        *name = s_cleaned.clone();
-                        components.push(s_cleaned);
-                    }
-                    first_run = false;
-                } else {
-                    panic!("Unexpected format of system declarations. Missing system in beginning of {:?}", component_names)
-                }
-            }
-
-            let split_string: Vec<String> = declaration.split(' ').map(|s| s.into()).collect();
-            if split_string[0].as_str() == "IO" {
-                let component_name = split_string[1].clone();
-
-                if component_names.contains(&component_name) {
-                    for split_str in split_string.iter().skip(2) {
-                        let mut s = split_str.replace('{', "");
-                        s = s.replace('\r', "");
-                        s = s.replace('\n', "");
-                        let p = s.replace('}', "");
-                        let comp_actions: Vec<String> = p.split(',').map(|s| s.into()).collect();
-                        for action in comp_actions {
-                            if action.is_empty() {
-                                continue;
-                            }
-                            if action.ends_with('?') {
-                                let r = action.replace('?', "");
-                                if let Some(Channel_vec) = input_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r)
-                                } else {
-                                    let Channel_vec = vec![r];
-                                    input_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else if action.ends_with('!') {
-                                let r = action.replace('!', "");
-                                if let Some(Channel_vec) = output_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r.clone())
-                                } else {
-                                    let Channel_vec = vec![r.clone()];
-                                    output_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else {
-                                panic!("Channel type not defined for Channel {:?}", action)
-                            }
-                        }
-                    }
-                } else {
-                    panic!("Was not able to find component name: {:?} in declared component names: {:?}", component_name, component_names)
-                }
-            }
-        }
-    }
-    SystemSpecification {
-        components,
-        input_actions,
-        output_actions,
-    }
-}
diff --git a/src/ModelObjects/system_declarations.rs b/src/ModelObjects/system_declarations.rs
index ff71f90..1856578 100644
--- a/src/ModelObjects/system_declarations.rs
+++ b/src/ModelObjects/system_declarations.rs
@@ -60,89 +60,87 @@ impl SystemSpecification {
     }
 }
 
-/// Function used for deserializing system declarations
-fn decode_sync_type<'de, D>(deserializer: D) -> Result<SystemSpecification, D::Error>
-where
-    D: Deserializer<'de>,
-{
-    let s = String::deserialize(deserializer)?;
-    let mut first_run = true;
-    let decls: Vec<String> = s.split('\n').map(|s| s.into()).collect();
+/// Parses system declarations: the names of the components in use (`system A, B;`) and the actions of
+/// each of them (`IO A { input?, output! }`), on any number of lines, and comments.
+pub(crate) fn parse_system_specification(text: &str) -> Result<SystemSpecification, String> {
     let mut input_actions: HashMap<String, Vec<String>> = HashMap::new();
     let mut output_actions: HashMap<String, Vec<String>> = HashMap::new();
     let mut components: Vec<String> = vec![];
 
-    let mut component_names: Vec<String> = vec![];
+    let text = text
+        .lines()
+        .filter_map(|line| line.split("//").next())
+        .collect::<Vec<_>>()
+        .join(" ")
+        .replace(',', " ")
+        .replace(';', " ; ")
+        .replace('{', " { ")
+        .replace('}', " } ");
+    let mut words = text.split_whitespace().peekable();
 
-    for declaration in &decls {
-        //skip comments
-        if declaration.starts_with("//") || declaration.is_empty() {
-            continue;
-        }
-
-        if !declaration.is_empty() {
-            if first_run {
-                let component_decls = &declaration;
-                debug!("Comp decls: {component_decls}");
-                component_names = component_decls.split(' ').map(|s| s.into()).collect();
-
-                if component_names[0] == "system" {
-                    //do not include element 0 as that is the system keyword
-                    for name in component_names.iter_mut().skip(1) {
-                        let s = name.replace(',', "");
-                        let s_cleaned = s.replace(';', "");
-                        *name = s_cleaned.clone();
-                        components.push(s_cleaned);
-                    }
-                    first_run = false;
-                } else {
-                    panic!("Unexpected format of system declarations. Missing system in beginning of {:?}", component_names)
+    while let Some(word) = words.next() {
+        match word {
+            ";" => continue,
+            "system" => {
+                while let Some(name) = words.next_if(|word| *word != ";" && *word != "IO") {
+                    components.push(name.to_string());
                 }
+                debug!("Comp decls: {components:?}");
             }
-
-            let split_string: Vec<String> = declaration.split(' ').map(|s| s.into()).collect();
-            if split_string[0].as_str() == "IO" {
-                let component_name = split_string[1].clone();
-
-                if component_names.contains(&component_name) {
-                    for split_str in split_string.iter().skip(2) {
-                        let s = split_str.replace('{', "");
-                        let p = s.replace('}', "");
-                        let comp_actions: Vec<String> = p.split(',').map(|s| s.into()).collect();
-                        for action in comp_actions {
-                            if action.is_empty() {
-                                continue;
-                            }
-                            if action.ends_with('?') {
-                                let r = action.replace('?', "");
-                                if let Some(Channel_vec) = input_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r)
-                                } else {
-                                    let Channel_vec = vec![r];
-                                    input_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else if action.ends_with('!') {
-                                let r = action.replace('!', "");
-                                if let Some(Channel_vec) = output_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r.clone())
-                                } else {
-                                    let Channel_vec = vec![r.clone()];
-                                    output_actions.insert(component_name.clone(), Channel_vec);
-                                }
+            "IO" => {
+                let component = words.next().unwrap_or_default().to_string();
+                if !components.contains(&component) {
+                    return Err(format!("Was not able to find component name: {:?} in declared component names: {:?}", component, components));
+                }
+                if words.next() != Some("{") {
+                    return Err(format!("Missing actions of component {:?}", component));
+                }
+                loop {
+                    match words.next() {
+                        Some("}") => break,
+                        Some(action) => {
+                            let (actions, name) = if let Some(name) = action.strip_suffix('?') {
+                                (&mut input_actions, name)
+                            } else if let Some(name) = action.strip_suffix('!') {
+                                (&mut output_actions, name)
                             } else {
-                                panic!("Channel type not defined for Channel {:?}", action)
-                            }
+                                return Err(format!(
+                                    "Channel type not defined for Channel {:?}",
+                                    action
+                                ));
+                            };
+                            actions
+                                .entry(component.clone())
+                                .or_default()
+                                .push(name.to_string());
+                        }
+                        None => {
+                            return Err(format!("Missing end of actions of {:?}", component));
                         }
                     }
-                } else {
-                    panic!("Was not able to find component name: {:?} in declared component names: {:?}", component_name, component_names)
                 }
             }
+            _ => {
+                return Err(format!(
+                    "Unexpected format of system declarations at {:?}",
+                    word
+                ));
+            }
         }
     }
+
     Ok(SystemSpecification {
         components,
         input_actions,
         output_actions,
     })
 }
+
+/// Function used for deserializing system declarations
+fn decode_sync_type<'de, D>(deserializer: D) -> Result<SystemSpecification, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let s = String::deserialize(deserializer)?;
+    parse_system_specification(&s).map_err(serde::de::Error::custom)
+}
-- 
2.43.0


From 40dcdd07a8107458dce3f8ac453cf9b7b8a73316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:11 +0000
Subject: [PATCH 23/35] fix: an XML project is recognised by its file's ending

---
 src/DataReader/xml_parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index 8287765..ec1e8d3 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -12,7 +12,10 @@ use std::io::Read;
 use std::path::Path;
 
 pub fn is_xml_project<P: AsRef<Path>>(project_path: P) -> bool {
-    project_path.as_ref().ends_with(".xml")
+    project_path
+        .as_ref()
+        .extension()
+        .map_or(false, |extension| extension == "xml")
 }
 
 ///Used to parse systems described in xml
-- 
2.43.0


From 4b242ee51a2f9141afe1fe0699ff54069fd1c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 24/35] fix: the service refuses a query it cannot read instead
 of panicking

---
 src/ProtobufServer/ecdar_requests/send_query.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ProtobufServer/ecdar_requests/send_query.rs b/src/ProtobufServer/ecdar_requests/send_query.rs
index ccf52a0..f1726c2 100644
--- a/src/ProtobufServer/ecdar_requests/send_query.rs
+++ b/src/ProtobufServer/ecdar_requests/send_query.rs
@@ -74,14 +74,18 @@ impl ConcreteEcdarBackend {
 }
 
 fn parse_query(query_request: &QueryRequest) -> Result<Query, Status> {
-    let mut queries = parse_queries::parse_to_query(&query_request.query);
+    let mut queries = parse_queries::parse_to_expression_tree(&query_request.query)
+        .map_err(|e| Status::invalid_argument(format!("The query could not be parsed: {}", e)))?;
 
     if queries.len() != 1 {
         Err(Status::invalid_argument(
             "This procedure takes in exactly 1 query",
         ))
     } else {
-        Ok(queries.remove(0))
+        Ok(Query {
+            query: Some(queries.remove(0)),
+            comment: "".to_string(),
+        })
     }
 }
 
-- 
2.43.0


From 2e443a0ef7096e600e20a05e485f2dd94a5d4e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 25/35] fix: requests that leave parts out or name unknown
 components or no system are refused instead of panicking

---
 src/DataReader/grammars/query_grammar.pest    |  2 +
 src/DataReader/parse_queries.rs               |  2 +-
 .../Expressions/query_expression.rs           | 33 ++++++++++++
 .../ecdar_requests/request_util.rs            | 52 +++++++++++++++----
 .../ecdar_requests/send_query.rs              | 12 ++++-
 .../ecdar_requests/simulation_requests.rs     | 16 ++++--
 6 files changed, 98 insertions(+), 19 deletions(-)

diff --git a/src/DataReader/grammars/query_grammar.pest b/src/DataReader/grammars/query_grammar.pest
index e7205ee..bcb3982 100644
--- a/src/DataReader/grammars/query_grammar.pest
+++ b/src/DataReader/grammars/query_grammar.pest
@@ -25,6 +25,8 @@ specification = {"specification:" ~ expr}
 
 saveExpr = _{  expr  ~ ("save-as" ~ variable_name)?}
 
+system = _{SOI ~ expr ~ EOI}
+
 expr = { term ~ (featureOperator ~ term)*}
 
 term = _{ component | parenthesizedExp  }
diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index 6eeb03e..8897f2a 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -244,7 +244,7 @@ pub fn parse_to_expression_tree(input: &str) -> Result<Vec<QueryExpression>, Str
 }
 
 pub fn parse_to_system_expr(input: &str) -> Result<SystemExpression, String> {
-    let mut pairs = match QueryParser::parse(Rule::expr, input) {
+    let mut pairs = match QueryParser::parse(Rule::system, input) {
         Ok(pairs) => pairs,
         Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
     };
diff --git a/src/ModelObjects/Expressions/query_expression.rs b/src/ModelObjects/Expressions/query_expression.rs
index 78d78f2..57d4a61 100644
--- a/src/ModelObjects/Expressions/query_expression.rs
+++ b/src/ModelObjects/Expressions/query_expression.rs
@@ -35,6 +35,39 @@ pub enum SystemExpression {
     Conjunction(Box<SystemExpression>, Box<SystemExpression>),
 }
 
+impl QueryExpression {
+    /// Gets the systems the query is about.
+    pub fn get_systems(&self) -> Vec<&SystemExpression> {
+        match self {
+            QueryExpression::Refinement(left, right) => vec![left, right],
+            QueryExpression::Consistency(system)
+            | QueryExpression::Reachability { system, .. }
+            | QueryExpression::Implementation(system)
+            | QueryExpression::Determinism(system)
+            | QueryExpression::Specification(system)
+            | QueryExpression::GetComponent(SaveExpression { system, .. })
+            | QueryExpression::Prune(SaveExpression { system, .. })
+            | QueryExpression::BisimMinim(SaveExpression { system, .. }) => vec![system],
+        }
+    }
+}
+
+impl SystemExpression {
+    /// Gets the names of the components in the system.
+    pub fn get_component_names(&self) -> Vec<&str> {
+        match self {
+            SystemExpression::Component(name, _) => vec![name],
+            SystemExpression::Quotient(left, right)
+            | SystemExpression::Composition(left, right)
+            | SystemExpression::Conjunction(left, right) => {
+                let mut names = left.get_component_names();
+                names.extend(right.get_component_names());
+                names
+            }
+        }
+    }
+}
+
 impl Display for SystemExpression {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
diff --git a/src/ProtobufServer/ecdar_requests/request_util.rs b/src/ProtobufServer/ecdar_requests/request_util.rs
index 80e6c37..c91333d 100644
--- a/src/ProtobufServer/ecdar_requests/request_util.rs
+++ b/src/ProtobufServer/ecdar_requests/request_util.rs
@@ -1,15 +1,15 @@
 use std::{collections::HashMap, sync::Arc};
 
 use log::trace;
+use tonic::Status;
 
 use crate::{
     DataReader::component_loader::{parse_components_if_some, ComponentContainer, ModelCache},
-    ModelObjects::Component,
+    DataReader::parse_queries::parse_to_system_expr,
+    ModelObjects::{Component, Expressions::SystemExpression},
     ProtobufServer::services::{Component as ProtoComponent, SimulationInfo},
-    System::input_enabler,
-    TransitionSystems::{
-        transition_system::component_loader_to_transition_system, TransitionSystemPtr,
-    },
+    System::{extract_system_rep::get_system_recipe, input_enabler},
+    TransitionSystems::TransitionSystemPtr,
 };
 
 pub fn get_or_insert_model(
@@ -46,22 +46,52 @@ fn constrtuct_componentsmap(
     comp_hashmap
 }
 
+/// Checks that all components in the `system` are in the `container`.
+pub fn check_components_known(
+    system: &SystemExpression,
+    container: &ComponentContainer,
+) -> Result<(), Status> {
+    for name in system.get_component_names() {
+        if !container.loaded_components.contains_key(name) {
+            return Err(Status::invalid_argument(format!(
+                "The component '{}' is not in the model or could not be read",
+                name
+            )));
+        }
+    }
+    Ok(())
+}
+
 /// Borrows a [`SimulationInfo`] and returns the corresponding [`TransitionsSystemPtr`].
 ///
-/// # Panics
+/// # Errors
 /// If:
 /// - `simulation_info.components_info` is `None`.
-/// - building the [`ComponentContainer`] fails.
+/// - `simulation_info.component_composition` is no system of components in the model.
 pub fn simulation_info_to_transition_system(
     simulation_info: &SimulationInfo,
     model_cache: &mut ModelCache,
-) -> TransitionSystemPtr {
-    let composition = simulation_info.component_composition.to_owned();
-    let info = simulation_info.components_info.as_ref().unwrap();
+) -> Result<TransitionSystemPtr, Status> {
+    let info = simulation_info
+        .components_info
+        .as_ref()
+        .ok_or_else(|| Status::invalid_argument("The request has no components"))?;
     let user_id = simulation_info.user_id;
 
     let mut component_container =
         get_or_insert_model(model_cache, user_id, info.components_hash, &info.components);
 
-    component_loader_to_transition_system(&mut component_container, &composition)
+    let composition = parse_to_system_expr(&simulation_info.component_composition)
+        .map_err(Status::invalid_argument)?;
+    check_components_known(&composition, &component_container)?;
+
+    let mut dimension = 0;
+    get_system_recipe(
+        &composition,
+        &mut component_container,
+        &mut dimension,
+        &mut None,
+    )
+    .compile(dimension)
+    .map_err(|e| Status::invalid_argument(e.to_string()))
 }
diff --git a/src/ProtobufServer/ecdar_requests/send_query.rs b/src/ProtobufServer/ecdar_requests/send_query.rs
index f1726c2..0935e19 100644
--- a/src/ProtobufServer/ecdar_requests/send_query.rs
+++ b/src/ProtobufServer/ecdar_requests/send_query.rs
@@ -3,7 +3,9 @@ use crate::DataReader::component_loader::ModelCache;
 use crate::DataReader::json_writer::component_to_json;
 use crate::DataReader::parse_queries;
 use crate::ModelObjects::Query;
-use crate::ProtobufServer::ecdar_requests::request_util::get_or_insert_model;
+use crate::ProtobufServer::ecdar_requests::request_util::{
+    check_components_known, get_or_insert_model,
+};
 use crate::ProtobufServer::services::component::Rep;
 use crate::ProtobufServer::services::query_response::{
     Error as InnerError, Result as ProtobufResult, Success,
@@ -34,7 +36,10 @@ impl ConcreteEcdarBackend {
         mut model_cache: ModelCache,
     ) -> Result<QueryResponse, Status> {
         trace!("Received query: {:?}", query_request);
-        let components_info = query_request.components_info.as_ref().unwrap();
+        let components_info = query_request
+            .components_info
+            .as_ref()
+            .ok_or_else(|| Status::invalid_argument("The request has no components"))?;
         let proto_components = &components_info.components;
         let query = parse_query(&query_request)?;
         let user_id = query_request.user_id;
@@ -45,6 +50,9 @@ impl ConcreteEcdarBackend {
             components_info.components_hash,
             proto_components,
         );
+        for system in query.get_query().iter().flat_map(|q| q.get_systems()) {
+            check_components_known(system, &component_container)?;
+        }
         component_container.set_settings(query_request.settings.unwrap_or(crate::DEFAULT_SETTINGS));
 
         let out =
diff --git a/src/ProtobufServer/ecdar_requests/simulation_requests.rs b/src/ProtobufServer/ecdar_requests/simulation_requests.rs
index 2de3017..2e76db7 100644
--- a/src/ProtobufServer/ecdar_requests/simulation_requests.rs
+++ b/src/ProtobufServer/ecdar_requests/simulation_requests.rs
@@ -18,9 +18,11 @@ impl ConcreteEcdarBackend {
         request: SimulationStartRequest,
         mut cache: ModelCache,
     ) -> Result<SimulationStepResponse, Status> {
-        let simulation_info = request.simulation_info.unwrap();
+        let simulation_info = request
+            .simulation_info
+            .ok_or_else(|| Status::invalid_argument("The request has no simulation info"))?;
 
-        let transition_system = simulation_info_to_transition_system(&simulation_info, &mut cache);
+        let transition_system = simulation_info_to_transition_system(&simulation_info, &mut cache)?;
 
         // Get the decisions from the initial state and convert them to proto
         let decisions = Decision::get_initial_decisions(&transition_system)
@@ -46,11 +48,15 @@ impl ConcreteEcdarBackend {
         mut cache: ModelCache,
     ) -> Result<SimulationStepResponse, Status> {
         let request_message = request;
-        let simulation_info = request_message.simulation_info.unwrap();
+        let simulation_info = request_message
+            .simulation_info
+            .ok_or_else(|| Status::invalid_argument("The request has no simulation info"))?;
 
-        let system = simulation_info_to_transition_system(&simulation_info, &mut cache);
+        let system = simulation_info_to_transition_system(&simulation_info, &mut cache)?;
 
-        let chosen_decision = request_message.chosen_decision.unwrap();
+        let chosen_decision = request_message
+            .chosen_decision
+            .ok_or_else(|| Status::invalid_argument("The request has no decision"))?;
 
         let full_state = chosen_decision.destination.clone();
 
-- 
2.43.0


From 74d3162e54e043fe32006439ad9385c3248b80dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 26/35] fix: a printed save-as query reads back as the same
 query

---
 src/ModelObjects/Expressions/query_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelObjects/Expressions/query_expression.rs b/src/ModelObjects/Expressions/query_expression.rs
index 57d4a61..83355e2 100644
--- a/src/ModelObjects/Expressions/query_expression.rs
+++ b/src/ModelObjects/Expressions/query_expression.rs
@@ -94,7 +94,7 @@ impl Display for SystemExpression {
 impl Display for SaveExpression {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match &self.name {
-            Some(name) => write!(f, "{} save-as {}", name, self.system),
+            Some(name) => write!(f, "{} save-as {}", self.system, name),
             None => write!(f, "{}", self.system),
         }
     }
-- 
2.43.0


From 9550f47a95223d7605d65ceb44042f595ff8af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 27/35] fix: simulation picks the state the decision leads to
 in nondeterministic systems

---
 src/Simulation/decision.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Simulation/decision.rs b/src/Simulation/decision.rs
index 2b18f4c..6e03fce 100644
--- a/src/Simulation/decision.rs
+++ b/src/Simulation/decision.rs
@@ -23,6 +23,11 @@ impl Decision {
             .collect();
 
         assert_ne!(next_states.len(), 0, "Decision leads to no new states");
+        if next_states.len() > 1 {
+            // In a nondeterministic system the decision tells which of the states is meant
+            next_states.retain(|state| self.leads_to(state));
+            next_states.truncate(1);
+        }
         assert_eq!(
             next_states.len(),
             1,
@@ -34,6 +39,12 @@ impl Decision {
         Decision::get_decisions_from_state(next_state, system)
     }
 
+    /// Returns whether `state` is the one the decision leads to.
+    fn leads_to(&self, state: &State) -> bool {
+        state.decorated_locations.id == self.next_state.decorated_locations.id
+            && state.zone_ref().equals(self.next_state.zone_ref())
+    }
+
     pub fn from_state_transition(
         mut state: State,
         transition: &Transition,
-- 
2.43.0


From c2174be262f43554d50f4b898182d4b2791db466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 28/35] fix: prune queries panicked for every system with
 clocks

---
 src/System/extract_system_rep.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/System/extract_system_rep.rs b/src/System/extract_system_rep.rs
index 65619df..f9c40be 100644
--- a/src/System/extract_system_rep.rs
+++ b/src/System/extract_system_rep.rs
@@ -158,7 +158,7 @@ pub fn create_executable_query<'a>(
                 }
 
                 Ok(Box::new(GetComponentExecutor {
-                    system: pruning::prune_system(recipe.compile(dim)?, dim),
+                    system: pruning::prune_system(recipe.compile(dim)?, dim + 1),
                     comp_name: name.clone().unwrap_or("Unnamed".to_string()),
                     component_loader,
                 }))
-- 
2.43.0


From 1bf58f0a607e5c243826718e02a00f223ce52977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 29/35] fix: a saved quotient keeps its error location an
 inconsistent one

---
 src/System/save_component.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index 6ef6d78..e2310fb 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -56,6 +56,8 @@ pub fn get_locations_from_trees(
 
             let location_type = if loc_vec.is_initial() {
                 LocationType::Initial
+            } else if loc_vec.is_inconsistent() {
+                LocationType::Inconsistent
             } else {
                 LocationType::Normal
             };
-- 
2.43.0


From 3deaed3f3ea22371a7c31817738f102b1e7217f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 30/35] fix: pruning keeps what an output in time can save

---
 src/System/pruning.rs | 45 ++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/System/pruning.rs b/src/System/pruning.rs
index a234060..1643a87 100644
--- a/src/System/pruning.rs
+++ b/src/System/pruning.rs
@@ -202,18 +202,13 @@ fn handle_input(edge: &Edge, context: &mut PruneContext) {
         // b) not be a selfloop
         // c) be an output
         // d) not lead to the inconsistent part of a state itself
-        let copy = inconsistent_part.clone();
-        let mut inconsistent_part = predt_of_all_outputs(&target_loc, inconsistent_part, context);
+        let source_loc = context.get_loc(&edge.source_location).clone();
+        let mut inconsistent_part = predt_of_all_outputs(&source_loc, inconsistent_part, context);
 
-        if copy.equals(&inconsistent_part) {
-            inconsistent_part = inconsistent_part.down();
-            // apply source invariant
-
-            let source_loc = context.get_loc(&edge.source_location);
-            if let Some(inv) = &source_loc.invariant {
-                inconsistent_part =
-                    apply_constraints_to_state(inv, context.decl(), inconsistent_part).unwrap();
-            }
+        // apply source invariant
+        if let Some(inv) = &source_loc.invariant {
+            inconsistent_part =
+                apply_constraints_to_state(inv, context.decl(), inconsistent_part).unwrap();
         }
 
         process_source_location(&edge.source_location, inconsistent_part, context);
@@ -303,7 +298,7 @@ fn predt_of_all_outputs(
     inconsistent_part: OwnedFederation,
     context: &mut PruneContext,
 ) -> OwnedFederation {
-    let mut incons_fed = inconsistent_part;
+    let mut all_saving = OwnedFederation::empty(context.dim);
     for other_edge in context
         .comp
         .edges
@@ -319,17 +314,16 @@ fn predt_of_all_outputs(
         }
 
         // remove the parts of the target transition that are inconsistent.
-        if context
-            .inconsistent_locs
-            .iter()
-            .any(|id| *id == target_loc.id)
-        {
-            saving_fed = saving_fed.subtraction(context.get_incons(&other_edge.target_location))
+        if let Some(incons) = context.try_get_incons(&other_edge.target_location) {
+            saving_fed = saving_fed.subtraction(incons);
         }
 
-        // apply updates via free
-        if !saving_fed.is_empty() {
-            if let Some(updates) = &other_edge.update {
+        // apply updates as guard and via free
+        if let Some(updates) = &other_edge.update {
+            for update in updates {
+                saving_fed = update.compiled(context.decl()).apply_as_guard(saving_fed);
+            }
+            if !saving_fed.is_empty() {
                 for update in updates {
                     saving_fed = update.compiled(context.decl()).apply_as_free(saving_fed);
                 }
@@ -346,13 +340,12 @@ fn predt_of_all_outputs(
             saving_fed = apply_constraints_to_state(inv, context.decl(), saving_fed).unwrap();
         }
 
-        // do temporal predecessor avoiding saving fed
-        let predt_fed = incons_fed.predt(&saving_fed);
-
-        incons_fed += predt_fed;
+        all_saving += saving_fed;
     }
 
-    incons_fed
+    // do temporal predecessor avoiding saving fed
+    let avoiding = inconsistent_part.predt(&all_saving);
+    inconsistent_part.union(&avoiding)
 }
 
 fn back_exploration_on_transition(
-- 
2.43.0


From c3df785544671690ace347d089990c62f064a1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:37 +0000
Subject: [PATCH 31/35] fix: pruning a system whose initial state is
 inconsistent leaves none

---
 src/System/pruning.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/System/pruning.rs b/src/System/pruning.rs
index 1643a87..8605d08 100644
--- a/src/System/pruning.rs
+++ b/src/System/pruning.rs
@@ -4,7 +4,9 @@ use log::{debug, trace};
 
 use crate::EdgeEval::constraint_applyer::apply_constraints_to_state;
 use crate::ModelObjects::Expressions::BoolExpression;
-use crate::ModelObjects::{Component, DeclarationProvider, Declarations, Edge, Location, SyncType};
+use crate::ModelObjects::{
+    Component, DeclarationProvider, Declarations, Edge, Location, LocationType, SyncType,
+};
 use crate::System::save_component::combine_components;
 use crate::TransitionSystems::TransitionSystemPtr;
 use crate::TransitionSystems::{CompiledComponent, LocationTree};
@@ -162,6 +164,16 @@ fn add_inconsistent_parts_to_invariants(
             }
             // Remove inconsistent part
             invariant_fed = invariant_fed.subtraction(incons);
+            // An inconsistent initial state cannot be mended by starting later
+            if location.location_type == LocationType::Initial {
+                let mut start = invariant_fed.clone();
+                for clock in 1..dim {
+                    start = start.constrain_eq(clock, 0);
+                }
+                if start.is_empty() {
+                    invariant_fed = OwnedFederation::empty(dim);
+                }
+            }
             // Set the new invariant
             location.invariant = BoolExpression::from_disjunction(
                 &invariant_fed.minimal_constraints(),
-- 
2.43.0


From aad26b59f12ab2a8651b41e9a69e7286504ac468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:11 +0000
Subject: [PATCH 32/35] fix: pruning undoes an edge's updates last one first,
 so a clock updated twice is handled

---
 src/System/pruning.rs | 77 +++++++++----------------------------------
 1 file changed, 16 insertions(+), 61 deletions(-)

diff --git a/src/System/pruning.rs b/src/System/pruning.rs
index 8605d08..d68d113 100644
--- a/src/System/pruning.rs
+++ b/src/System/pruning.rs
@@ -2,6 +2,7 @@ use edbm::util::constraints::ClockIndex;
 use edbm::zones::OwnedFederation;
 use log::{debug, trace};
 
+use crate::DataReader::parse_edge::Update;
 use crate::EdgeEval::constraint_applyer::apply_constraints_to_state;
 use crate::ModelObjects::Expressions::BoolExpression;
 use crate::ModelObjects::{
@@ -192,13 +193,9 @@ fn handle_input(edge: &Edge, context: &mut PruneContext) {
         inconsistent_part =
             apply_constraints_to_state(inv, context.decl(), inconsistent_part).unwrap();
     }
-    // apply updates as guard
+    // undo updates
     if let Some(updates) = &edge.update {
-        for update in updates {
-            inconsistent_part = update
-                .compiled(context.decl())
-                .apply_as_guard(inconsistent_part);
-        }
+        inconsistent_part = undo_updates(updates, context.decl(), inconsistent_part);
     }
 
     if inconsistent_part.is_empty() {
@@ -243,17 +240,7 @@ fn remove_transition_if_unsat(edge: &Edge, context: &mut PruneContext) {
     }
 
     if let Some(updates) = &edge.update {
-        // apply updates as guard
-        for update in updates {
-            edge_fed = update.compiled(context.decl()).apply_as_guard(edge_fed);
-        }
-
-        // apply updates as free
-        if !edge_fed.is_empty() {
-            for update in updates {
-                edge_fed = update.compiled(context.decl()).apply_as_free(edge_fed);
-            }
-        }
+        edge_fed = undo_updates(updates, context.decl(), edge_fed);
     }
 
     // Apply guards
@@ -330,16 +317,9 @@ fn predt_of_all_outputs(
             saving_fed = saving_fed.subtraction(incons);
         }
 
-        // apply updates as guard and via free
+        // undo updates
         if let Some(updates) = &other_edge.update {
-            for update in updates {
-                saving_fed = update.compiled(context.decl()).apply_as_guard(saving_fed);
-            }
-            if !saving_fed.is_empty() {
-                for update in updates {
-                    saving_fed = update.compiled(context.decl()).apply_as_free(saving_fed);
-                }
-            }
+            saving_fed = undo_updates(updates, context.decl(), saving_fed);
         }
 
         // apply edge guard
@@ -365,15 +345,6 @@ fn back_exploration_on_transition(
     mut inconsistent_part: OwnedFederation,
     context: &mut PruneContext,
 ) -> OwnedFederation {
-    // apply updates via free
-    if let Some(updates) = &edge.update {
-        for update in updates {
-            inconsistent_part = update
-                .compiled(context.decl())
-                .apply_as_free(inconsistent_part);
-        }
-    }
-
     // apply edge guard
     if let Some(guard) = &edge.guard {
         inconsistent_part =
@@ -390,6 +361,14 @@ fn back_exploration_on_transition(
     inconsistent_part
 }
 
+/// The clock values from which the updates lead into `fed`, last update undone first
+fn undo_updates(updates: &[Update], decl: &Declarations, fed: OwnedFederation) -> OwnedFederation {
+    updates.iter().rev().fold(fed, |fed, update| {
+        let update = update.compiled(decl);
+        update.apply_as_free(update.apply_as_guard(fed))
+    })
+}
+
 fn handle_output(edge: &Edge, context: &mut PruneContext) {
     let target_incons = context.get_incons(&edge.target_location);
     if target_incons.is_universe() {
@@ -400,21 +379,7 @@ fn handle_output(edge: &Edge, context: &mut PruneContext) {
         let mut incons_after_reset = target_incons.clone();
         if let Some(updates) = &edge.update {
             // TODO: this is different from J-ecdar
-            // apply updates as guard
-            for update in updates {
-                incons_after_reset = update
-                    .compiled(context.decl())
-                    .apply_as_guard(incons_after_reset);
-            }
-
-            // apply updates as free
-            if !incons_after_reset.is_empty() {
-                for update in updates {
-                    incons_after_reset = update
-                        .compiled(context.decl())
-                        .apply_as_free(incons_after_reset);
-                }
-            }
+            incons_after_reset = undo_updates(updates, context.decl(), incons_after_reset);
         }
         let mut guard_fed = OwnedFederation::universe(context.dim);
         // Apply guards
@@ -461,17 +426,7 @@ fn handle_output(edge: &Edge, context: &mut PruneContext) {
 
             if let Some(updates) = &other_edge.update {
                 // TODO: this is different from J-ecdar
-                // apply updates as guard
-                for update in updates {
-                    good_part = update.compiled(context.decl()).apply_as_guard(good_part);
-                }
-
-                // apply updates as free
-                if !good_part.is_empty() {
-                    for update in updates {
-                        good_part = update.compiled(context.decl()).apply_as_free(good_part);
-                    }
-                }
+                good_part = undo_updates(updates, context.decl(), good_part);
             }
 
             // Apply guards
-- 
2.43.0


From f7fb2770be13d2c5c5a65cefa9c249d44a78fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 33/35] fix: a blank guard or invariant always holds instead of
 panicking

---
 src/DataReader/parse_edge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index 6bfd90d..492fd66 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -85,8 +85,8 @@ pub fn parse_guard(input: &str) -> Result<BoolExpression, String> {
 
     // Check if there are any constraints
     let result = match guard.into_inner().next() {
-        Some(bool_expr) => parse_bool_expr(bool_expr),
-        None => BoolExpression::Bool(true),
+        Some(pair) if pair.as_rule() == Rule::boolExpr => parse_bool_expr(pair),
+        _ => BoolExpression::Bool(true),
     };
 
     Ok(result)
-- 
2.43.0


From 28b8177d89e9cc8bb2a650e0f653a2fa7a4dc71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:54 +0000
Subject: [PATCH 34/35] fix: saved systems declare clocks merged by clock
 reduction once

Clocks that clock reduction found to be equal were saved under all their
names with one shared index. The next query on the saved component counted
a clock too many and panicked when it was to be removed.
---
 src/System/save_component.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index e2310fb..1f3a114 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -76,11 +76,12 @@ pub fn get_clock_map(sysrep: &TransitionSystemPtr) -> HashMap<String, ClockIndex
     let mut clocks = HashMap::new();
     let decls = sysrep.get_decls();
 
-    if decls.len() == 1 {
-        return decls[0].clocks.clone();
-    }
     for (comp_id, decl) in decls.into_iter().enumerate() {
         for (k, v) in &decl.clocks {
+            // Clocks that clock reduction found to be equal share one index, and become one clock
+            if clocks.values().any(|index| index == v) {
+                continue;
+            }
             let mut name = k.clone();
             if clocks.contains_key(&name) {
                 name = format!("{}{}", k, comp_id);
-- 
2.43.0


From be3b51db7c5ae51b7e5c8630965c46944ff5b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:57 +0000
Subject: [PATCH 35/35] fix: pruning looks again at places whose way out leads
 into what turned out inconsistent later

---
 src/System/pruning.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/System/pruning.rs b/src/System/pruning.rs
index d68d113..3e6508d 100644
--- a/src/System/pruning.rs
+++ b/src/System/pruning.rs
@@ -397,12 +397,21 @@ fn handle_output(edge: &Edge, context: &mut PruneContext) {
 
     // get source invariant
     let mut source_invariant = OwnedFederation::universe(context.dim);
-    let source_loc = context.get_loc(&edge.source_location);
+    let source_loc = context.get_loc(&edge.source_location).clone();
     if let Some(inv) = &source_loc.invariant {
         source_invariant =
             apply_constraints_to_state(inv, context.decl(), source_invariant).unwrap();
     }
 
+    // The output may have led away from what is inconsistent in the source
+    if edge.sync_type == SyncType::Output {
+        if let Some(part) = context.try_get_incons(&edge.source_location).cloned() {
+            let part =
+                predt_of_all_outputs(&source_loc, part, context).intersection(&source_invariant);
+            process_source_location(&edge.source_location, part, context);
+        }
+    }
+
     if source_invariant.can_delay_indefinitely() {
         // Source is not inconsistent, nothing more to do
     } else {
-- 
2.43.0

