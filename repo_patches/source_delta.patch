From bf3b556330db76cbfd66eb77e5292f6d2f8dde76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 01/18] fix: do not enumerate the product (0, 1) of models with
 less than two nodes

Prods yielded (0, 1) after the linear terms even when the model had no node 1,
so every model with zero or one qubit panicked in get_weight() while it was
annealed or evaluated.
---
 annealers/src/model.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/annealers/src/model.rs b/annealers/src/model.rs
index bad55a2..994cb89 100644
--- a/annealers/src/model.rs
+++ b/annealers/src/model.rs
@@ -312,6 +312,9 @@ impl<S: NodeSet> std::iter::Iterator for Prods<S> {
 			self.indices[finger] += 1;
 			Some(ret)
 		} else if self.indices.len() == 1 {
+			if self.size < 2 {
+				return None;
+			}
 			self.indices = vec![0, 1];
 			let ret = S::from_vec(self.indices.clone()).unwrap();
 			self.indices[1] += 1;
-- 
2.43.0


From 23bf6c8e38441702c7d7c5bad9987085a4558e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 02/18] fix: initialize the storage of BinaryRepr

from_vec() set single bits of uninitialized bytes, which reads uninitialized
memory (undefined behaviour, reported by miri).
---
 annealers/src/repr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/annealers/src/repr.rs b/annealers/src/repr.rs
index 6b320f7..2088776 100644
--- a/annealers/src/repr.rs
+++ b/annealers/src/repr.rs
@@ -22,9 +22,10 @@ impl BinaryRepr {
 	#[inline]
 	pub unsafe fn with_len_unchecked(len: usize) -> Self {
 		let size = (len + BYTESIZE - 1) / BYTESIZE;
-		let mut v = Vec::with_capacity(size);
-		v.set_len(size);
-		Self { state: v, len }
+		Self {
+			state: vec![0; size],
+			len,
+		}
 	}
 
 	pub fn from_vec(v: &[bool]) -> Self {
-- 
2.43.0


From e83ff40ce72b147ff40850dd66ec8d76ba640725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 03/18] fix: do not create a zeroed Expr in the assigning
 operators

A zeroed Expr is not a valid value when the label types have no valid zero
pattern (String, &str, Box...), so a += b was undefined behaviour, and a panic
in the operator dropped the zeroed value.
---
 src/expr.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index e025248..83df79e 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -4,7 +4,6 @@ use crate::wrapper::Placeholder;
 use crate::{TcType, TpType, TqType};
 use annealers::variable::{ConvertFrom, Real};
 use std::collections::{BTreeSet, HashMap};
-use std::mem::MaybeUninit;
 use std::ops::{Add, AddAssign, BitXor, BitXorAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 
 // TODO: hide the implementation from public
@@ -416,11 +415,8 @@ macro_rules! impl_assign_op {
 		{
 			#[inline]
 			fn $fun(&mut self, other: $rhs) {
-				let mut inner = unsafe { MaybeUninit::zeroed().assume_init() };
-				std::mem::swap(self, &mut inner);
-				let mut outer = <Self as $trait_inner<$rhs_into>>::$fun_inner(inner, other.into());
-				std::mem::swap(self, &mut outer);
-				std::mem::forget(outer);
+				let inner = std::mem::replace(self, Expr::Number(<R as Real>::from_i32(0)));
+				*self = <Self as $trait_inner<$rhs_into>>::$fun_inner(inner, other.into());
 			}
 		}
 	};
-- 
2.43.0


From ec87d19f093e3b4ed61df445893033514b3eb6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 04/18] fix: feed placeholders inside of constraints and
 penalties

Expr::feed_dict() did not descend into Constraint and WithPenalty, so their
placeholders stayed unfilled.
---
 src/expr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index 83df79e..ae5ec1c 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -77,6 +77,14 @@ where
 				Box::new((*a).feed_dict(dict)),
 				Box::new((*b).feed_dict(dict)),
 			),
+			Self::Constraint { label, expr } => Self::Constraint {
+				label,
+				expr: Box::new((*expr).feed_dict(dict)),
+			},
+			Self::WithPenalty { expr, penalty } => Self::WithPenalty {
+				expr: Box::new((*expr).feed_dict(dict)),
+				penalty: Box::new((*penalty).feed_dict(dict)),
+			},
 			o => o,
 		}
 	}
-- 
2.43.0


From 896f805b11e66b5aea4043adcadb747367c4a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 05/18] fix: add the penalty of the ancilla to the reduced
 polynomial

When a product of two qubits was replaced by an ancilla, the penalty which
binds the ancilla to the product was only recorded as a constraint without
label and placeholder. It was not a part of the generated QUBO, so the ancilla
was free: the minimum of the QUBO was wrong and the replaced qubits could
vanish from the solution.
---
 src/compiled.rs |  7 ++++++-
 src/expr.rs     | 11 +++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/compiled.rs b/src/compiled.rs
index 262223b..56c6ecd 100644
--- a/src/compiled.rs
+++ b/src/compiled.rs
@@ -202,22 +202,27 @@ where
 				let (replacing_exp, constraint) =
 					Self::generate_replace(&replaced_set, &mut builder, p);
 				let mut new_expanded = Expanded::new();
+				let mut strength = Vec::new();
 				for mut expanded in self
 					.expanded
 					.drain()
 					.map(|(set, exp)| Expanded::from(set, exp))
 				{
 					if expanded.is_superset(&replaced_set) {
+						strength.extend(expanded.values().cloned().map(StaticExpr::upper_bound));
 						expanded = expanded.remove_qubits(&replaced_set);
 						expanded *= replacing_exp.clone();
 					}
 					new_expanded += expanded;
 				}
-				self.expanded = new_expanded;
 				if let Some(constraint) = constraint {
+					// The sum of the absolute values of the replaced coefficients is enough to
+					// make a wrong value of the ancilla not profitable.
+					new_expanded += constraint.clone() * StaticExpr::Add(strength);
 					self.constraints
 						.push(Constraint::from_raw(None, constraint.into(), None));
 				}
+				self.expanded = new_expanded;
 			} else {
 				break;
 			}
diff --git a/src/expr.rs b/src/expr.rs
index ae5ec1c..3b5691e 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -624,6 +624,17 @@ where
 		}
 	}
 
+	/// Make an expression which is not less than the absolute value of self.
+	pub(crate) fn upper_bound(self) -> Self {
+		match self {
+			Self::Add(v) => Self::Add(v.into_iter().map(Self::upper_bound).collect()),
+			Self::Mul(v) => Self::Mul(v.into_iter().map(Self::upper_bound).collect()),
+			Self::Number(n) => Self::Number(n.abs()),
+			// Because the value of the placeholder is positive
+			Self::Placeholder(p) => Self::Placeholder(p),
+		}
+	}
+
 	pub(crate) fn feed_dict(self, dict: &HashMap<Tp, R>) -> Self {
 		match self {
 			Self::Placeholder(p) => {
-- 
2.43.0


From 612d4a6088925edefd67995f8a721f6237a7b9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 06/18] fix: do not truncate the weights of constraints to zero

With an integer type, count / size is zero as soon as the model has two
constraints, so no constraint had any effect on the energy.
---
 src/solve.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solve.rs b/src/solve.rs
index 992a20e..2f19559 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -151,7 +151,8 @@ where
 			for _ in 0..self.generations {
 				let (c, model) = self.model.generate_qubo(&self.qubits, &mut |p| {
 					if let Some(cnt) = phdict.get(&p) {
-						R::from_i32(*cnt as i32) / R::from_i32(size as i32) * self.coeff_strength
+						// Not in R: the quotient of integers would be truncated to zero.
+						R::from_f64(*cnt as f64 * self.coeff_strength.as_f64() / size as f64)
 					} else {
 						panic!()
 					}
-- 
2.43.0


From 6f6d89355882f78237e501902ba25053e6ba068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 07/18] fix: do not throw away a solution which satisfies the
 constraints

The energy of a generation was compared with the energy of an older one, which
was calculated with other weights of the constraints. A solution without
unsatisfied constraints was skipped when an older, unsatisfying one had lower
energy, and the solver returned the unsatisfying one.
---
 src/solve.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index 2f19559..ab93fdb 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -186,18 +186,22 @@ where
 					.unwrap();
 				let energy = sol.energy.unwrap();
 				// println!("{}, {}, {}", min, old_energy, energy);
-				if old_energy <= energy {
-					continue;
-				}
-				old_energy = energy;
 				let ans: HashMap<&Qubit<Tq>, bool> = self
 					.qubits
 					.iter()
 					.enumerate()
 					.map(|(i, q)| (*q, sol[i]))
 					.collect();
+				let unsatisfied = self.model.get_unsatisfied_constraints(&ans);
+				let is_satisfied = unsatisfied.iter().all(|c| c.label.is_none());
+				// The weights of the constraints differ among the generations, so a solution
+				// which satisfies all of them can have higher energy than an old one.
+				if !is_satisfied && old_energy <= energy {
+					continue;
+				}
+				old_energy = energy;
 				let mut constraint_labels = Vec::new();
-				for c in self.model.get_unsatisfied_constraints(&ans) {
+				for c in unsatisfied {
 					if let Some(ph) = &c.placeholder {
 						if let Some(point) = phdict.get_mut(ph) {
 							*point += 1;
@@ -208,7 +212,6 @@ where
 						constraint_labels.push(label);
 					}
 				}
-				let is_satisfied = constraint_labels.len() == 0;
 				ret = Some((
 					energy + c,
 					SolutionView::new(sol.with_local_field(&model), qubit_map.clone()),
-- 
2.43.0


From f8c3d60a1d5264aa26f6dd97c63d1131017d8e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 08/18] fix: compute the annealing temperatures in f64, an
 integer model was annealed with beta 0

---
 classical_solver/src/algo.rs |  6 +++---
 classical_solver/src/beta.rs | 37 +++++++++++++++++-------------------
 classical_solver/src/sa.rs   |  2 +-
 3 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index 9e9f6ca..ad9a7ee 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -27,10 +27,10 @@ unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 	}
 }
 
-pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real>(
+pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real, B: Real>(
 	random: &mut T,
 	state: &mut BinaryRepr,
-	beta_schedule: &[<P::Node as Node>::RealType],
+	beta_schedule: &[B],
 	sweeps_per_round: usize,
 	model: &P,
 ) {
@@ -57,7 +57,7 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 					continue;
 				}
 				if ed.as_f64() <= 0.0
-					|| f64::exp(-(ed * *beta).as_f64()) > random.gen_range(0.0, 1.0)
+					|| f64::exp(-ed.as_f64() * beta.as_f64()) > random.gen_range(0.0, 1.0)
 				{
 					unsafe {
 						state.flip_unchecked(i);
diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 417dec0..0c13ca7 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -23,19 +23,16 @@ macro_rules! real_typ {
 	};
 }
 
-fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ!(P)) {
-	macro_rules! nan_or_min {
-		() => {
-			<real_typ!(P)>::nan_or(<real_typ!(P)>::MIN)
-		};
-	}
+// The inverse temperatures are f64 even if the weights of the model are integers, because they
+// are less than one in general.
+fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 	let node = model.node();
-	let ndiff = node.get_value(true) - node.get_value(false);
+	let ndiff = (node.get_value(true) - node.get_value(false)).as_f64();
 	let eg_min = model
 		.prods()
 		.into_iter()
-		.map(|p| model.get_weight(&p).abs())
-		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
+		.map(|p| model.get_weight(&p).as_f64().abs())
+		.fold(f64::NAN, |p, n| n.max(p));
 	let eg_max = model
 		.nodes()
 		.into_iter()
@@ -43,17 +40,17 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ
 			model
 				.neighbors(n)
 				.into_iter()
-				.map(|p| model.get_weight(&p).abs())
+				.map(|p| model.get_weight(&p).as_f64().abs())
 				.sum()
 		})
-		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
+		.fold(f64::NAN, |p, n: f64| n.max(p));
 	if eg_max.is_finite() && eg_min.is_finite() {
 		(
-			<real_typ!(P)>::from_f64(f64::ln(2.0) / (ndiff * eg_max).as_f64()),
-			<real_typ!(P)>::from_f64(f64::ln(100.0) / (ndiff * eg_min).as_f64()),
+			f64::ln(2.0) / (ndiff * eg_max),
+			f64::ln(100.0) / (ndiff * eg_min),
 		)
 	} else {
-		(<real_typ!(P)>::one(), <real_typ!(P)>::from_i32(10))
+		(1.0, 10.0)
 	}
 }
 
@@ -63,12 +60,12 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ
 pub(crate) fn generate_schedule<P: SingleModelView>(
 	beta_type: &BetaType<real_typ!(P)>,
 	model: &P,
-) -> Vec<real_typ!(P)> {
+) -> Vec<f64> {
 	match beta_type {
-		BetaType::Schedule(v) => v.clone(),
+		BetaType::Schedule(v) => v.iter().map(|beta| beta.as_f64()).collect(),
 		BetaType::Count(count) | BetaType::CountRange(count, _, _) => {
 			let (min, max) = if let BetaType::CountRange(_, min, max) = beta_type {
-				(*min, *max)
+				(min.as_f64(), max.as_f64())
 			} else {
 				generate_beta_range(model)
 			};
@@ -77,9 +74,9 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 	}
 }
 
-fn generate_beta_schedule<R: Real>(beta_min: R, beta_max: R, count: usize) -> Vec<R> {
-	let r = f64::ln(beta_max.as_f64() / beta_min.as_f64()) / (count as f64 - 1.0);
+fn generate_beta_schedule(beta_min: f64, beta_max: f64, count: usize) -> Vec<f64> {
+	let r = f64::ln(beta_max / beta_min) / (count as f64 - 1.0);
 	(0..count)
-		.map(|index| R::from_f64(beta_min.as_f64() * f64::exp(index as f64 * r)))
+		.map(|index| beta_min * f64::exp(index as f64 * r))
 		.collect()
 }
diff --git a/classical_solver/src/sa.rs b/classical_solver/src/sa.rs
index 64f8d7b..795b297 100644
--- a/classical_solver/src/sa.rs
+++ b/classical_solver/src/sa.rs
@@ -19,7 +19,7 @@ pub struct SimulatedAnnealerGenerator<'a, P: SingleModelView> {
 
 pub struct SimulatedAnnealer<'a, P: SingleModelView, R> {
 	sweeps_per_round: usize,
-	beta_schedule: Vec<<P::Node as Node>::RealType>,
+	beta_schedule: Vec<f64>,
 	model: &'a P,
 	_phantom: PhantomData<R>,
 }
-- 
2.43.0


From 2d93ce4bef5860330538a27ed4aeaed0ee43d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 09/18] fix: end the annealing at a temperature cold enough for
 the smallest weight

---
 classical_solver/src/beta.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 0c13ca7..ff4324f 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -28,11 +28,6 @@ macro_rules! real_typ {
 fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 	let node = model.node();
 	let ndiff = (node.get_value(true) - node.get_value(false)).as_f64();
-	let eg_min = model
-		.prods()
-		.into_iter()
-		.map(|p| model.get_weight(&p).as_f64().abs())
-		.fold(f64::NAN, |p, n| n.max(p));
 	let eg_max = model
 		.nodes()
 		.into_iter()
@@ -44,6 +39,13 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 				.sum()
 		})
 		.fold(f64::NAN, |p, n: f64| n.max(p));
+	// The smallest weight which is not zero, not even by the rounding errors
+	let eg_min = model
+		.prods()
+		.into_iter()
+		.map(|p| model.get_weight(&p).as_f64().abs())
+		.filter(|w| *w > eg_max * f64::EPSILON)
+		.fold(f64::NAN, |p, n| n.min(p));
 	if eg_max.is_finite() && eg_min.is_finite() {
 		(
 			f64::ln(2.0) / (ndiff * eg_max),
-- 
2.43.0


From ec2fc158e32997c7cf471193c7ef0880bbfbe65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 10/18] fix: do not make a schedule of one temperature NaN

---
 classical_solver/src/beta.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index ff4324f..7077033 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -77,7 +77,11 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 }
 
 fn generate_beta_schedule(beta_min: f64, beta_max: f64, count: usize) -> Vec<f64> {
-	let r = f64::ln(beta_max / beta_min) / (count as f64 - 1.0);
+	let r = if count > 1 {
+		f64::ln(beta_max / beta_min) / (count as f64 - 1.0)
+	} else {
+		0.0
+	};
 	(0..count)
 		.map(|index| beta_min * f64::exp(index as f64 * r))
 		.collect()
-- 
2.43.0


From bc2a07e1e7de2c41ba35a03f64fb684e64b42d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 11/18] fix: do not read outside of the state when a model has
 sparse node indices

---
 classical_solver/src/algo.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index ad9a7ee..c05bde0 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -6,7 +6,7 @@ use annealers::variable::Real;
 use rand::prelude::*;
 
 #[inline]
-unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
+fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 	node: &M,
 	prod: &S,
 	state: &BinaryRepr,
@@ -16,11 +16,11 @@ unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 		if i == index {
 			p
 		} else {
-			p * node.get_value(state.get_unchecked(i))
+			p * node.get_value(state.get(i))
 		}
 	});
 	let d = node.get_value(false) - node.get_value(true);
-	if state.get_unchecked(index) {
+	if state.get(index) {
 		d * term
 	} else {
 		-d * term
@@ -45,7 +45,7 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 	for prod in model.prods() {
 		let weight = model.get_weight(&prod);
 		for i in prod.iter() {
-			energy_diffs[i] += unsafe { calculate_flip_cost(node, &prod, &state, i) } * weight;
+			energy_diffs[i] += calculate_flip_cost(node, &prod, &state, i) * weight;
 		}
 	}
 	for beta in beta_schedule.iter() {
@@ -69,7 +69,7 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 							let weight = model.get_weight(&neigh);
 							for j in neigh.iter() {
 								if i != j {
-									if stat != unsafe { state.get_unchecked(j) } {
+									if stat != state.get(j) {
 										energy_diffs[j] += dd * weight;
 									} else {
 										energy_diffs[j] -= dd * weight;
-- 
2.43.0


From 73b25bc089d3fff6523b70a9d597cbdea3267b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 12/18] fix: report the value range of a solver generator

---
 annealers/src/solver.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index 990e0d3..58cf5dc 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -59,7 +59,7 @@ pub trait SolverGenerator<'a, ProblemType: ModelView> {
 
 	fn value_range(&self) -> (get_real_typ!(ProblemType), get_real_typ!(ProblemType)) {
 		(
-			<get_real_typ!(ProblemType)>::MAX,
+			<get_real_typ!(ProblemType)>::MIN,
 			<get_real_typ!(ProblemType)>::MAX,
 		)
 	}
@@ -103,6 +103,11 @@ impl<'a, G: UnstructuredSolverGenerator<'a, P>, P: ModelView> SolverGenerator<'a
 {
 	type SolverType = G::SolverType;
 	type ErrorType = G::ErrorType;
+
+	fn value_range(&self) -> (get_real_typ!(P), get_real_typ!(P)) {
+		self.0.value_range()
+	}
+
 	fn generate(&self, model: &'a P) -> Result<Self::SolverType, Self::ErrorType> {
 		self.0.generate(model)
 	}
-- 
2.43.0


From 958c7812d8a1338dce9114ff19e618e136dd01ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 13/18] fix: compare the energies of samples without rounding
 to f64

---
 src/solve.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solve.rs b/src/solve.rs
index ab93fdb..45635df 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -182,7 +182,8 @@ where
 				let sol = fut_ret
 					.into_iter()
 					.filter(|r| r.energy.unwrap().as_f64() == min)
-					.next()
+					// f64 cannot tell all of the integers apart
+					.min_by(|a, b| a.compare_energy(b).unwrap())
 					.unwrap();
 				let energy = sol.energy.unwrap();
 				// println!("{}, {}, {}", min, old_energy, energy);
-- 
2.43.0


From 6d135421df9fefe45b8a22b3821368d8a0993644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 14/18] fix: keep node sets from iterators ordered and free of
 repetitions

---
 annealers/src/set.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/annealers/src/set.rs b/annealers/src/set.rs
index db39d10..0069f68 100644
--- a/annealers/src/set.rs
+++ b/annealers/src/set.rs
@@ -25,6 +25,7 @@ pub trait NodeSet: 'static + Clone + Hash + PartialEq + Eq + std::fmt::Debug {
 		// Because ordering of two usize value is Equal, they are the same
 		// So stable sort is not required.
 		vec.sort_unstable();
+		vec.dedup();
 		unsafe { Self::from_vec_unchecked(vec) }
 	}
 
@@ -35,6 +36,7 @@ pub trait NodeSet: 'static + Clone + Hash + PartialEq + Eq + std::fmt::Debug {
 		Self::from_it(vec)
 	}
 
+	/// The items may have any order, repeated ones count once.
 	fn from_it<T: IntoIterator<Item = usize>>(iter: T) -> Option<Self>;
 	fn iter(&self) -> <Self as NodeSet>::Iter;
 
@@ -94,7 +96,10 @@ impl NodeSet for Vec<usize> {
 
 	#[inline]
 	fn from_it<T: IntoIterator<Item = usize>>(iter: T) -> Option<Self> {
-		Some(Vec::from_iter(iter))
+		let mut v = Vec::from_iter(iter);
+		v.sort_unstable();
+		v.dedup();
+		Some(v)
 	}
 
 	#[inline]
@@ -120,7 +125,9 @@ impl NodeSet for [usize; 2] {
 
 	#[inline]
 	fn from_it<T: IntoIterator<Item = usize>>(iter: T) -> Option<Self> {
-		let v = iter.into_iter().collect::<Vec<_>>();
+		let mut v = iter.into_iter().collect::<Vec<_>>();
+		v.sort_unstable();
+		v.dedup();
 		match *v.as_slice() {
 			[i] => Some([i, i]),
 			[i, j] => Some([i, j]),
-- 
2.43.0


From 41548ec93a018090428cde1159c27b5ea4be14e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 15/18] fix: use NaN as the neutral value of floating point
 numbers

---
 annealers/src/variable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/annealers/src/variable.rs b/annealers/src/variable.rs
index cfac226..2913a46 100644
--- a/annealers/src/variable.rs
+++ b/annealers/src/variable.rs
@@ -65,7 +65,7 @@ macro_rules! impl_nan_or {
 }
 
 macro_rules! impl_real_as_f64 {
-	($b:expr, $typ:ty, $pat:path) => {
+	($b:tt, $typ:ty, $pat:path) => {
 		/// Implementation of Real for $typ
 		impl Real for $typ {
 			const MAX: $typ = <$typ>::MAX;
-- 
2.43.0


From 293de1bc914c2268fd7547be389b75d6ae24069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 16/18] fix: report the local field of an unknown variable as
 absent

---
 src/solution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solution.rs b/src/solution.rs
index 92c72e0..9fe729c 100644
--- a/src/solution.rs
+++ b/src/solution.rs
@@ -28,7 +28,8 @@ impl<Tq: TqType, R: Real> SolutionView<Tq, R> {
 	}
 
 	pub fn local_field(&self, q: &Tq) -> Option<R> {
-		self.0.local_field.as_ref().map(|v| v[self.1[q]])
+		let i = *self.1.get(q)?;
+		self.0.local_field.as_ref().map(|v| v[i])
 	}
 
 	pub fn keys(&self) -> impl Iterator<Item = &Tq> {
-- 
2.43.0


From f581d2d282878256cf8a23429131df011b51ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 17/18] fix: keep a first solution whose energy is the greatest
 number

---
 src/solve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index 45635df..371837b 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -147,7 +147,7 @@ where
 			let mut phdict: HashMap<&Placeholder<(), Tc>, usize> =
 				ph.iter().map(|p| (*p, 10)).collect();
 			let mut size = ph.len() * 10;
-			let mut old_energy = R::MAX;
+			let mut old_energy: Option<R> = None;
 			for _ in 0..self.generations {
 				let (c, model) = self.model.generate_qubo(&self.qubits, &mut |p| {
 					if let Some(cnt) = phdict.get(&p) {
@@ -197,10 +197,10 @@ where
 				let is_satisfied = unsatisfied.iter().all(|c| c.label.is_none());
 				// The weights of the constraints differ among the generations, so a solution
 				// which satisfies all of them can have higher energy than an old one.
-				if !is_satisfied && old_energy <= energy {
+				if !is_satisfied && old_energy.map_or(false, |old| old <= energy) {
 					continue;
 				}
-				old_energy = energy;
+				old_energy = Some(energy);
 				let mut constraint_labels = Vec::new();
 				for c in unsatisfied {
 					if let Some(ph) = &c.placeholder {
-- 
2.43.0


From 43d790cdc9658f0b15501b656e631cf6ebe8f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 18/18] fix: do not panic when the pairs of a limited generator
 are asked for after their end

---
 annealers/src/solver.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index 58cf5dc..4d78740 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -189,11 +189,12 @@ impl Iterator for UnstructuredEdgeIter {
 	type Item = BTreeSet<usize>;
 	fn next(&mut self) -> Option<BTreeSet<usize>> {
 		if self.0 == self.1 {
-			self.1 += 1;
-			self.0 = 0;
-			while self.2.len() <= self.1 {
+			// At the end of the nodes nothing is changed.
+			while self.2.len() <= self.1 + 1 {
 				self.2.push(self.3.next()?);
 			}
+			self.1 += 1;
+			self.0 = 0;
 			self.next()
 		} else {
 			let i = self.2[self.0];
-- 
2.43.0

