//! A solver generator which records the problems it is given and answers with scripted states.
use crate::ast::{Ast, At};
use crate::num::{bad, Lab, Num, Q};
use annealers::model::FixedSingleQuadricModel;
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::prelude::*;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, Solver};
use annealers::variable::Real;
use rustqubo::solve::SimpleSolver;
use rustqubo::Expr;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

pub type Qubo<R> = FixedSingleQuadricModel<Binary<R>>;

#[derive(Clone, Debug, PartialEq)]
pub struct ProbeError(pub u64);
impl std::fmt::Display for ProbeError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "probe error {}", self.0)
	}
}
impl std::error::Error for ProbeError {}

/// The weights of a problem as the annealer sees them.
#[derive(Clone, Debug)]
pub struct Cap<R> {
	pub n: usize,
	/// (i <= j) -> weight
	pub w: Vec<R>,
}

impl<R: Num> Cap<R> {
	pub fn take(model: &Qubo<R>) -> Self {
		let n = SingleModelView::size(model);
		let mut w = Vec::with_capacity(n * (n + 1) / 2);
		for j in 0..n {
			for i in 0..=j {
				w.push(SingleModelView::get_weight(model, &[i, j]));
			}
		}
		Self { n, w }
	}
	pub fn at(&self, i: usize, j: usize) -> R {
		let (i, j) = if i < j { (i, j) } else { (j, i) };
		self.w[j * (j + 1) / 2 + i]
	}
	pub fn energy(&self, s: &[bool]) -> Q {
		let mut e = Q::ZERO;
		let mut k = 0;
		for j in 0..self.n {
			for i in 0..=j {
				if s[i] && s[j] {
					e = e + self.w[k].q();
				}
				k += 1;
			}
		}
		e
	}
}

/// What a solver will do when it runs.
pub type RunPlan = Result<Vec<Vec<bool>>, ProbeError>;

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
	/// number of the generate call
	Generate(usize),
	/// number of the generate call of the solver which runs, a number drawn from its generator
	Run(usize, u64),
}

pub struct Log<R> {
	pub events: Vec<Event>,
	pub caps: Vec<Cap<R>>,
}

pub struct Inner<R> {
	pub log: Mutex<Log<R>>,
	/// (number of the generate call, problem) -> plan
	#[allow(clippy::type_complexity)]
	pub plan: Mutex<Box<dyn FnMut(usize, &Cap<R>) -> Result<RunPlan, ProbeError> + Send>>,
	/// called at the start of each run
	#[allow(clippy::type_complexity)]
	pub delay: Mutex<Option<Arc<dyn Fn(usize) + Send + Sync>>>,
	pub keep: std::sync::atomic::AtomicBool,
}

impl<R: Num> Inner<R> {
	pub fn set(
		&self,
		f: impl FnMut(usize, &Cap<R>) -> Result<RunPlan, ProbeError> + Send + 'static,
	) {
		*self.plan.lock().unwrap() = Box::new(f);
		self.reset();
	}
	pub fn reset(&self) {
		let mut l = self.log.lock().unwrap();
		l.events.clear();
		l.caps.clear();
	}
}

#[derive(Clone)]
pub struct ProbeGen<R>(pub Arc<Inner<R>>);

impl<R: Num> ProbeGen<R> {
	pub fn new() -> Self {
		ProbeGen(Arc::new(Inner {
			log: Mutex::new(Log { events: Vec::new(), caps: Vec::new() }),
			plan: Mutex::new(Box::new(|_, c| Ok(Ok(vec![vec![false; c.n]])))),
			delay: Mutex::new(None),
			keep: std::sync::atomic::AtomicBool::new(true),
		}))
	}
}

pub struct ProbeSolver<R> {
	inner: Arc<Inner<R>>,
	call: usize,
	plan: RunPlan,
}

/// How often the annealer claims to have seen a state
pub fn occurrences(s: &[bool]) -> usize {
	s.iter().fold(s.len(), |n, b| (n * 5 + *b as usize + 1) % 1009)
}

impl<R: Num> Solver for ProbeSolver<R> {
	type ErrorType = ProbeError;
	type SolutionType = SingleSolution<Binary<R>>;
}

impl<R: Num> ClassicalSolver for ProbeSolver<R> {
	fn solve_with_rng<T: rand::Rng>(
		&self,
		r: &mut T,
	) -> Result<Vec<SingleSolution<Binary<R>>>, ProbeError> {
		let delay = self.inner.delay.lock().unwrap().clone();
		if let Some(d) = delay {
			d(self.call);
		}
		let draw = r.next_u64();
		self.inner.log.lock().unwrap().events.push(Event::Run(self.call, draw));
		match &self.plan {
			Ok(v) => Ok(v
				.iter()
				.map(|s| {
					let mut sol = SingleSolution::from_vec(s);
					sol.occurrences = occurrences(s);
					sol
				})
				.collect()),
			Err(e) => Err(e.clone()),
		}
	}
}

impl<R: Num> SolverGenerator<'static, Qubo<R>> for ProbeGen<R> {
	type SolverType = ProbeSolver<R>;
	type ErrorType = ProbeError;
	fn generate(&self, model: &'static Qubo<R>) -> Result<ProbeSolver<R>, ProbeError> {
		// The reference is only used during this call: it does not really live for 'static.
		let cap = Cap::take(model);
		let call = {
			let mut l = self.0.log.lock().unwrap();
			let call = l.events.iter().filter(|e| matches!(e, Event::Generate(_))).count();
			l.events.push(Event::Generate(call));
			if self.0.keep.load(std::sync::atomic::Ordering::Relaxed) {
				l.caps.push(cap.clone());
			}
			call
		};
		let plan = (self.0.plan.lock().unwrap())(call, &cap)?;
		Ok(ProbeSolver { inner: self.0.clone(), call, plan })
	}
}

impl<R: Num> UnstructuredSolverGenerator<'static, Qubo<R>> for ProbeGen<R> {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}

pub type PSolver<'a, Tq, Tc, R> =
	SimpleSolver<'a, Tq, Tc, ProbeGen<R>, Qubo<R>, ProbeSolver<R>, R>;

/// A search of one sample
#[macro_export]
macro_rules! once {
	($s:expr) => {{
		$s.samples = 1;
		$s.iterations = 1;
		$s.generations = 1;
	}};
}

/// Compile the expression (feeding `before` to the expression and `after` to the compiled
/// problem) and hand a probed solver with single-shot settings to f.
pub fn probe<Tp: Lab, Tq: Lab, Tc: Lab, R: Num, O>(
	expr: Expr<Tp, Tq, Tc, R>,
	before: HashMap<Tp, R>,
	after: HashMap<Tp, R>,
	f: impl for<'a> FnOnce(&mut PSolver<'a, Tq, Tc, R>, &Arc<Inner<R>>) -> O,
) -> O {
	let expr = if before.is_empty() { expr } else { expr.feed_dict(&before) };
	let compiled = expr.compile().feed_dict(after);
	let gen = ProbeGen::new();
	let inner = gen.0.clone();
	let mut s = SimpleSolver::with_solver(&compiled, gen);
	once!(s);
	f(&mut s, &inner)
}

/// The energy function of a probed problem.
pub struct Learned<R> {
	pub c: Q,
	pub cap: Cap<R>,
	/// variable -> index
	pub map: BTreeMap<usize, usize>,
	/// indices of no variable
	pub anc: Vec<usize>,
}

pub struct Shot<R> {
	pub state: Vec<bool>,
	pub energy: R,
	pub own: Option<R>,
	/// variable -> value
	pub values: BTreeMap<usize, bool>,
	pub keys: usize,
	/// labels, sorted
	pub violated: Vec<usize>,
	pub unknown_label: bool,
}

/// One search with one sample whose state is chosen; `vars` and `labels`: what to ask for.
pub fn shoot<Tq: Lab, Tc: Lab, R: Num>(
	s: &PSolver<'_, Tq, Tc, R>,
	inner: &Arc<Inner<R>>,
	vars: &BTreeSet<usize>,
	labels: &BTreeSet<usize>,
	state: impl Fn(usize) -> bool + Send + 'static,
) -> Shot<R> {
	let got = Arc::new(Mutex::new(Vec::new()));
	let g = got.clone();
	inner.set(move |_, c| {
		let st: Vec<bool> = (0..c.n).map(&state).collect();
		*g.lock().unwrap() = st.clone();
		Ok(Ok(vec![st]))
	});
	let (energy, view, viol) = match s.solve_with_constraints() {
		Ok(r) => r,
		Err(e) => bad(format!("error from a solver which does not fail: {}", e)),
	};
	let mut values = BTreeMap::new();
	for v in vars {
		if let Some(b) = view.get(&Tq::mk(*v)) {
			values.insert(*v, b);
		}
	}
	let mut violated = Vec::new();
	let mut unknown_label = false;
	for l in viol {
		match labels.iter().find(|i| Tc::mk(**i) == *l) {
			Some(i) => violated.push(*i),
			None => unknown_label = true,
		}
	}
	violated.sort_unstable();
	let state = got.lock().unwrap().clone();
	Shot {
		state,
		energy,
		own: view.energy(),
		values,
		keys: view.keys().count(),
		violated,
		unknown_label,
	}
}

/// Learn the energy function of a problem from what the annealer is given and what is returned.
pub fn learn<Tq: Lab, Tc: Lab, R: Num>(
	s: &PSolver<'_, Tq, Tc, R>,
	inner: &Arc<Inner<R>>,
	vars: &BTreeSet<usize>,
) -> Result<Learned<R>, String> {
	let none = BTreeSet::new();
	let zero = shoot(s, inner, vars, &none, |_| false);
	let cap = inner.log.lock().unwrap().caps.first().cloned();
	let cap = match cap {
		Some(c) => c,
		None => return Err(String::from("no problem was given to the annealer")),
	};
	let n = cap.n;
	for v in vars {
		if !zero.values.contains_key(v) {
			return Err(format!("variable x{} is missing in the solution", v));
		}
	}
	let mut code: BTreeMap<usize, usize> = vars.iter().map(|v| (*v, 0)).collect();
	let mut k = 0;
	while n >> k > 0 {
		// bits of index + 1, so that no index has the code 0
		let shot = shoot(s, inner, vars, &none, move |i| (i + 1) >> k & 1 == 1);
		for (v, b) in &shot.values {
			if *b {
				*code.entry(*v).or_insert(0) |= 1 << k;
			}
		}
		k += 1;
	}
	let mut map = BTreeMap::new();
	let mut used = BTreeSet::new();
	for (v, c) in code {
		if c == 0 || c > n {
			return Err(format!("variable x{} does not follow any position of the state", v));
		}
		if !used.insert(c - 1) {
			return Err(format!("variable x{} shares its position with another variable", v));
		}
		map.insert(v, c - 1);
	}
	let anc = (0..n).filter(|i| !used.contains(i)).collect();
	Ok(Learned { c: zero.energy.q(), cap, map, anc })
}

impl<R: Num> Learned<R> {
	/// state with the variables of x, auxiliary variables false
	pub fn state(&self, x: u64) -> Vec<bool> {
		let mut s = vec![false; self.cap.n];
		for (v, i) in &self.map {
			s[*i] = x >> v & 1 == 1;
		}
		s
	}
	pub fn energy(&self, s: &[bool]) -> Q {
		self.c + self.cap.energy(s)
	}
	/// Minimum over the auxiliary variables, and the number of states looked at.
	pub fn min_over_anc(&self, x: u64) -> (Q, u64) {
		let mut s = self.state(x);
		let a = self.anc.len();
		let mut e = self.energy(&s);
		let mut best = e;
		for g in 1..1u64 << a {
			// Gray code: one flip at a time
			let i = self.anc[g.trailing_zeros() as usize];
			let mut d = self.cap.at(i, i).q();
			for j in 0..self.cap.n {
				if j != i && s[j] {
					d = d + self.cap.at(i, j).q();
				}
			}
			e = if s[i] { e - d } else { e + d };
			s[i] = !s[i];
			if e < best {
				best = e;
			}
		}
		(best, 1 << a)
	}
}

pub fn dict<Tp: Lab, R: Num>(ph: &[Q], which: impl Fn(usize) -> bool) -> HashMap<Tp, R> {
	ph.iter()
		.enumerate()
		.filter(|(i, _)| which(*i))
		.map(|(i, q)| (Tp::mk(i), R::of(*q)))
		.collect()
}

/// All assignments of a set of variables as bit masks
pub fn assignments(vars: &BTreeSet<usize>) -> Vec<u64> {
	let v: Vec<usize> = vars.iter().copied().collect();
	(0..1u64 << v.len())
		.map(|m| {
			v.iter()
				.enumerate()
				.fold(0, |x, (k, i)| x | (m >> k & 1) << i)
		})
		.collect()
}

/// Compare the energies of the probed problem with the reference on all assignments.
pub fn compare<R: Num>(
	l: &Learned<R>,
	ast: &Ast,
	ph: &[Q],
	w: &[Q],
) -> Result<(u64, u64, Q, Q), String> {
	let (mut states, mut n) = (0, 0);
	let mut range: Option<(Q, Q)> = None;
	for x in assignments(&ast.vars()) {
		let want = ast.energy(&At { x, ph, w });
		let (got, k) = l.min_over_anc(x);
		states += k;
		n += 1;
		if want != got {
			return Err(format!(
				"energy {} of the compiled problem, but the expression is {} at x = {:b} (bit i: variable i){}",
				got,
				want,
				x,
				if l.anc.is_empty() { "" } else { ", minimum over the auxiliary variables" }
			));
		}
		range = Some(match range {
			None => (want, want),
			Some((a, b)) => (a.min(want), b.max(want)),
		});
	}
	let (lo, hi) = range.unwrap_or((Q::ZERO, Q::ZERO));
	Ok((n, states, lo, hi))
}

/// The strength with which each of n labels gets the weight w.
pub fn strength<R: Num>(n: usize, w: Q) -> R {
	R::of(Q::int(n.max(1) as i128) * w)
}

pub fn half<R: Real>() -> R {
	R::from_f64(0.5)
}
