//! C20: no undefined behaviour through the safe API. This program only makes the calls; it is run
//! in an interpreter and with a sanitizer, which judge.
use annealers::model::*;
use annealers::node::*;
use annealers::order::*;
use annealers::prelude::*;
use annealers::repr::BinaryRepr;
use annealers::set::NodeSet;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, Solver, StructuredSolverGenerator};
use classical_solver::algo::simulated_annealing;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use rustqubo::solve::SimpleSolver;
use rustqubo::Expr;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use vh::anneal::Prob;
use vh::ast::*;
use vh::num::*;
use vh::prng::Prng;
use vh::probe::{ProbeError, Qubo};
use vh::run::*;
use vh::{ensure, with_types};

/// The call must end in a panic.
fn refused<T>(c: &mut Case, what: &str, f: impl FnOnce() -> T) -> Res {
	match guard(f) {
		Ok(_) => Err(format!("{} is not refused", what)),
		Err(_) => {
			c.saw("invalid calls refused", 1);
			Ok(())
		}
	}
}

/// A generator which does not fill everything it is asked to fill
struct Lazy(u64);
impl rand::RngCore for Lazy {
	fn next_u32(&mut self) -> u32 {
		self.next_u64() as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.0 = vh::prng::mix(self.0);
		self.0
	}
	fn fill_bytes(&mut self, dest: &mut [u8]) {
		if let Some(d) = dest.first_mut() {
			*d = 0x5a;
		}
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(d);
		Ok(())
	}
}

fn packed(c: &mut Case) -> Res {
	let n = match c.rng.below(4) {
		0 => 8 * c.rng.below(4),
		1 => c.rng.below(3),
		_ if c.rng.chance(1, if cfg!(miri) { 60 } else { 6 }) => {
			c.saw("long packed states", 1);
			let k = *c.rng.pick(if cfg!(miri) { &[16usize, 60] } else { &[16usize, 60, 500] });
			(8 * c.rng.below(k)).saturating_sub(1) + c.rng.below(3)
		}
		_ => c.rng.below(70),
	};
	let mut model: Vec<bool> = Vec::new();
	let mut s = match c.rng.below(3) {
		0 => {
			model = c.rng.bits(n);
			BinaryRepr::from_vec(&model)
		}
		1 => BinaryRepr::new_random(n, &mut c.rng),
		_ => BinaryRepr::new_random(n, &mut Lazy(3)),
	};
	if model.len() != n || n == 0 {
		model = s.to_vec();
	}
	ensure!(s.len() == n && model.len() == n, "length {} of {} bits", s.len(), n);
	for _ in 0..20 {
		let i = match c.rng.below(5) {
			0 => n,
			1 => n + 1 + c.rng.below(9),
			2 => *c.rng.pick(&[usize::MAX, usize::MAX - 7, 1 << 40, n + 64]),
			_ => c.rng.below(n.max(1)),
		};
		let b = c.rng.bool();
		if i < n {
			match c.rng.below(4) {
				0 => {
					s.set(i, b);
					model[i] = b;
				}
				1 => {
					s.flip(i);
					model[i] = !model[i];
				}
				2 => ensure!(s.get(i) == model[i], "bit {}", i),
				_ => ensure!(s[i] == model[i], "bit {}", i),
			}
		} else {
			let mut t = s.clone();
			match c.rng.below(4) {
				0 => refused(c, "set out of range", || t.set(i, b))?,
				1 => refused(c, "flip out of range", || t.flip(i))?,
				2 => refused(c, "get out of range", || t.get(i))?,
				_ => refused(c, "index out of range", || t[i])?,
			}
			ensure!(t.to_vec() == model, "a refused call changes the state");
		}
	}
	let it: Vec<bool> = s.iter().collect();
	ensure!(it == model && s.to_vec() == model, "bits {:?} instead of {:?}", it, model);
	c.desc = format!("packed state of {} bits: {:?}", n, s);
	let sol = SingleSolution::<Spin<i32>>::from_state(s);
	refused(c, "solution out of range", || sol.get(n))?;
	refused(c, "solution out of range", || sol[n + 9])?;
	c.saw("packed states", 1);
	Ok(())
}

fn dense<R: Num>(c: &mut Case) -> Res {
	let n = match c.rng.below(60) {
		0 if !cfg!(miri) => {
			c.saw("models of hundreds of nodes", 1);
			200 + c.rng.below(300)
		}
		_ => c.rng.below(if cfg!(miri) { 6 } else { 30 }),
	};
	let mut m = FixedSingleQuadricModel::new(Binary::<R>::new(), n);
	c.desc = format!("dense model of {} nodes", n);
	for _ in 0..12 {
		let (i, j) = (c.rng.below(n + 2), c.rng.below(n + 2));
		let w = R::from_i32(c.rng.range(-2, 2) as i32);
		if i < n && j < n {
			m.add_weight(i, j, w);
			let (a, b) = (i.min(j), i.max(j));
			SingleModelView::get_weight(&m, &[a, b]);
			// any number or a panic
			let _ = guard(|| SingleModelView::get_weight(&m, &[b, a]));
		} else {
			let (mut t, i2) = (m.clone(), *c.rng.pick(&[i, i, usize::MAX, 1 << 33]));
			let (i, j) = if i < n { (i, j) } else { (i2, j) };
			refused(c, "a weight out of range", || t.add_weight(i, j, w))?;
			let p = [i.min(j), i.max(j)];
			refused(c, "a pair out of range", || FixedSingleModelView::get_weight(&m, &p))?;
			let p = [i.max(j), i.min(j)];
			refused(c, "a pair out of range", || SingleModelView::get_weight(&m, &p))?;
		}
	}
	let mut k = 0;
	for p in m.prods() {
		k += 1;
		SingleModelView::get_weight(&m, &p);
	}
	for u in 0..n {
		for p in m.neighbors(u) {
			k += 1;
			SingleModelView::get_weight(&m, &p);
		}
	}
	c.saw("terms of models read", k);
	// solutions, also of a wrong length
	let sol = SingleSolution::from_vec(&c.rng.bits(n));
	sol.calculate_energy(&m);
	sol.clone().calculate_local_field(&m);
	if n > 0 {
		let short = SingleSolution::from_vec(&c.rng.bits(n - 1));
		refused(c, "the energy of a short solution", || short.calculate_energy(&m))?;
		refused(c, "the field of a short solution", || short.calculate_local_field(&m))?;
	}
	for k in [n + 1, n + 8, n.saturating_sub(1)] {
		if k != n {
			let mut s = BinaryRepr::from_vec(&c.rng.bits(k));
			let mut r = c.rng.clone();
			refused(c, "annealing a state of a wrong length", || {
				simulated_annealing(&mut r, &mut s, &[0.5, 1.0], 1, &m)
			})?;
		}
	}
	let mut s = BinaryRepr::from_vec(&c.rng.bits(n));
	simulated_annealing(&mut c.rng, &mut s, &[0.1, 1.0], 2, &m);
	c.saw("annealings", 1);
	Ok(())
}

fn sparse<R: Num>(c: &mut Case) -> Res {
	let k = c.rng.below(6);
	let gap = *c.rng.pick(&[0, 0, 1, 3, 40]);
	let mut m = SingleModel::new(Binary::<R>::new(), Quadric);
	let mut h = SingleModel::new(Binary::<R>::new(), HighOrder::new(3));
	let mut nodes: BTreeSet<usize> = BTreeSet::new();
	for i in 0..k {
		let u = i + if gap > 0 { c.rng.below(gap + 1) } else { 0 };
		nodes.insert(u);
	}
	let v: Vec<usize> = nodes.iter().copied().collect();
	for a in &v {
		for b in &v {
			if a <= b && (a == b || c.rng.chance(1, 2)) {
				let w = R::from_i32(c.rng.range(-2, 2) as i32);
				m.add_weight([*a, *b], w);
				h.add_weight([*a, *b].into_iter().collect(), w);
			}
		}
	}
	if v.len() > 2 {
		h.add_weight(v[..3].iter().copied().collect(), R::one());
	}
	c.desc = format!("sparse model of the nodes {:?}", v);
	let holes = v.last().map_or(false, |l| l + 1 != v.len());
	for len in [v.len(), v.last().map_or(0, |l| l + 1), v.len() + 1] {
		let bits = c.rng.bits(len);
		let fits = v.last().map_or(true, |l| *l < len);
		let (s, t) = (
			SingleSolution::from_vec(&bits),
			SingleSolution::<Binary<R>>::from_vec(&bits),
		);
		if fits {
			s.calculate_energy(&m);
			t.clone().calculate_local_field(&h);
			s.with_local_field(&m).with_energy(&m);
		} else {
			refused(c, "the energy of a short solution", || s.calculate_energy(&m))?;
			refused(c, "the field of a short solution", || t.calculate_local_field(&h))?;
		}
		// where the dynamics are not defined there may be a panic, but nothing else
		let mut s = BinaryRepr::from_vec(&bits);
		let mut r = c.rng.clone();
		let a = guard(|| simulated_annealing(&mut r, &mut s, &[0.2, 2.0], 2, &m));
		let mut s = BinaryRepr::from_vec(&bits);
		let b = guard(|| simulated_annealing(&mut r, &mut s, &[0.2, 2.0], 2, &h));
		if len == v.len() && !holes {
			ensure!(a.is_ok() && b.is_ok(), "annealing is refused: {:?} {:?}", a, b);
			c.saw("annealings", 2);
		} else if a.is_err() {
			c.saw("invalid calls refused", 1);
		}
	}
	for (what, r) in [
		("quadratic", guard(|| {
			let mut g = SimulatedAnnealerGenerator::new();
			g.beta = BetaType::Count(2);
			g.sweeps_per_round = 2;
			g.generate(&m)
				.map(|s| s.solve_with_rng(&mut Lazy(1)).map(|v| v.len()).ok())
				.is_ok()
		})),
	] {
		if r.is_err() && !holes {
			return Err(format!("the annealer refuses a {} model: {:?}", what, r));
		}
	}
	if holes {
		c.saw("models with holes", 1);
	}
	if let Some(l) = v.last() {
		refused(c, "a term which was not added", || m.get_weight(&[*l, *l + 1]))?;
	}
	for p in m.prods() {
		m.get_weight(&p);
		let q: Vec<usize> = p.into_vec();
		<[usize; 2]>::from_vec(q);
	}
	for u in &v {
		m.neighbors(*u).count();
		h.neighbors(*u).count();
	}
	Ok(())
}

fn annealer<R: Num>(c: &mut Case) -> Res {
	let n = c.rng.below(if cfg!(miri) { 5 } else { 20 });
	let p = Prob::random::<R>(&mut c.rng, n, 2, 0);
	let (d, s) = (p.dense::<R>(), p.sparse::<R>());
	let beta = match c.rng.below(3) {
		0 => BetaType::Count(c.rng.below(3)),
		1 => BetaType::Schedule(vec![R::one(); c.rng.below(3)]),
		_ => BetaType::CountRange(c.rng.below(3), R::one(), R::one()),
	};
	let sweeps = c.rng.below(3);
	c.desc = format!("annealer {:?} x {} of {:?}", beta, sweeps, p);
	fn run<R: Num, P: SingleModelView<Node = Binary<R>> + Send + Sync>(
		m: &P,
		beta: BetaType<R>,
		sweeps: usize,
		r: &mut Prng,
	) -> usize {
		let mut g = SimulatedAnnealerGenerator::new();
		g.beta = beta;
		g.sweeps_per_round = sweeps;
		let s = g.generate(m).ok().expect("cannot fail");
		drop(g);
		s.solve_with_rng(r).ok().expect("cannot fail")[0].len()
	}
	ensure!(run(&d, beta.clone(), sweeps, &mut c.rng) == n, "a wrong length");
	ensure!(run(&s, beta, sweeps, &mut c.rng) == n, "a wrong length");
	let g = SimulatedAnnealerGenerator::<Qubo<R>>::new().into_structured();
	g.nodes().take(5).count();
	g.prods().take(9).count();
	c.saw("annealings", 2);
	Ok(())
}

/// A generator whose solvers keep the model and read it whenever they can.
struct Keeper<R> {
	fail_generate: Option<u64>,
	fail_run: Option<u64>,
	panic_run: Option<u64>,
	count: AtomicU64,
	reads: Arc<AtomicU64>,
	wrong: Arc<AtomicU64>,
	_r: std::marker::PhantomData<R>,
}
struct Kept<R: Num> {
	model: &'static Qubo<R>,
	sum: f64,
	number: u64,
	fail: bool,
	panic: bool,
	reads: Arc<AtomicU64>,
	wrong: Arc<AtomicU64>,
}
fn total<R: Num>(m: &Qubo<R>) -> f64 {
	let n = SingleModelView::size(m);
	let mut t = n as f64;
	for j in 0..n {
		for i in 0..=j {
			t = t * 1.25 + SingleModelView::get_weight(m, &[i, j]).as_f64();
		}
	}
	t
}
impl<R: Num> Kept<R> {
	fn read(&self) {
		self.reads.fetch_add(1, Ordering::Relaxed);
		if total(self.model) != self.sum {
			self.wrong.fetch_add(1, Ordering::Relaxed);
		}
	}
}
impl<R: Num> Drop for Kept<R> {
	fn drop(&mut self) {
		self.read();
	}
}
impl<R: Num> Solver for Kept<R> {
	type ErrorType = ProbeError;
	type SolutionType = SingleSolution<Binary<R>>;
}
impl<R: Num> ClassicalSolver for Kept<R> {
	fn solve_with_rng<T: rand::Rng>(
		&self,
		r: &mut T,
	) -> Result<Vec<SingleSolution<Binary<R>>>, ProbeError> {
		self.read();
		if self.fail {
			return Err(ProbeError(self.number));
		}
		if self.panic {
			std::panic::panic_any(PlannedPanic);
		}
		let n = SingleModelView::size(self.model);
		let s = SingleSolution::from_state(BinaryRepr::new_random(n, r));
		self.read();
		Ok(vec![s.with_energy(self.model)])
	}
}
struct PlannedPanic;
impl<R: Num> SolverGenerator<'static, Qubo<R>> for Keeper<R> {
	type SolverType = Kept<R>;
	type ErrorType = ProbeError;
	fn generate(&self, model: &'static Qubo<R>) -> Result<Kept<R>, ProbeError> {
		let k = self.count.fetch_add(1, Ordering::Relaxed);
		if self.fail_generate == Some(k) {
			return Err(ProbeError(k));
		}
		Ok(Kept {
			model,
			sum: total(model),
			number: k,
			fail: self.fail_run == Some(k),
			panic: self.panic_run == Some(k),
			reads: self.reads.clone(),
			wrong: self.wrong.clone(),
		})
	}
}
impl<R: Num> UnstructuredSolverGenerator<'static, Qubo<R>> for Keeper<R> {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}

/// Sometimes one of the numbers is large
fn many(c: &mut Case, samples: &mut usize, iterations: &mut usize, generations: &mut usize) {
	if !cfg!(miri) && c.rng.chance(1, 8) {
		let n = 20 + c.rng.below(300);
		let v = [(n, 1, 1), (1, n, 1), (1, 1, n)][c.rng.below(3)];
		*samples = v.0;
		*iterations = v.1;
		*generations = v.2;
		c.saw("searches of many samples, iterations or generations", 1);
	}
}

fn search<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let strength = Q::int(2);
	let few = if cfg!(miri) { 2 } else { 4 };
	let w = vec![strength; 5];
	let mut ast = if cfg!(miri) {
		// an interpreter needs seconds for a big one
		let k = c.rng.range(-3, 3) as i128;
		let a = mul(num(k), if c.rng.bool() { bin(0) } else { spin(0) });
		let b = con(0, if c.rng.bool() { sub(bin(0), bin(1)) } else { bin(1) });
		match c.rng.below(5) {
			0 => add(mul(b, spin(0)), a),
			1 => add(a, mul(bin(0), mul(bin(1), bin(2)))),
			2 => pen(a, b),
			_ => add(a, b),
		}
	} else {
		constrained::<R>(&mut c.rng, &w, 2)
	};
	if c.rng.chance(1, 2) {
		// never satisfied: all rounds are made
		let l = ast.labels().into_iter().next().unwrap_or(0);
		ast = add(ast, con(l, add(bin(0), num(1))));
	}
	let e: Expr<(), Tq, Tc, R> = ast.expr();
	c.desc = format!("{}: {}", R::NAME, ast);
	let model = e.compile();
	let vars = ast.vars();
	if c.rng.bool() {
		let mut s = SimpleSolver::new(&model);
		s.solver_generator.beta = BetaType::Count(1 + c.rng.below(3));
		s.solver_generator.sweeps_per_round = 1;
		s.samples = 1 + c.rng.below(few);
		s.iterations = 1 + c.rng.below(2);
		s.generations = 1 + c.rng.below(few);
		many(c, &mut s.samples, &mut s.iterations, &mut s.generations);
		s.coeff_strength = R::of(strength);
		s.get_qubits();
		let (_, view, v) = match s.solve_with_constraints() {
			Ok(o) => o,
			Err(_) => return Err(String::from("the annealer failed")),
		};
		c.saw("violated labels read", v.iter().map(|l| format!("{:?}", l).len() as u64).sum());
		drop(s);
		drop(model);
		for i in &vars {
			let q = Tq::mk(*i);
			ensure!(view.get(&q) == Some(view[&q]), "x{} is unknown", i);
			view.local_field(&q);
		}
		let t = format!("{:?} {:?}", view, view.keys().count());
		c.saw("bytes of solutions read", t.len() as u64);
		c.saw("searches with the built-in annealer", 1);
		return Ok(());
	}
	let (reads, wrong) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
	let pick = |c: &mut Case| if c.rng.chance(1, 4) { Some(c.rng.below(if few == 2 { 5 } else { 12 }) as u64) } else { None };
	let g = Keeper::<R> {
		fail_generate: pick(c),
		fail_run: pick(c),
		panic_run: if c.rng.chance(1, 5) { Some(c.rng.below(6) as u64) } else { None },
		count: AtomicU64::new(0),
		reads: reads.clone(),
		wrong: wrong.clone(),
		_r: std::marker::PhantomData,
	};
	let expected = g.fail_generate.is_some() || g.fail_run.is_some();
	let panics = g.panic_run.is_some();
	let mut s = SimpleSolver::with_solver(&model, g);
	s.samples = 1 + c.rng.below(few + 1);
	s.iterations = 1 + c.rng.below(few);
	s.generations = 1 + c.rng.below(few);
	many(c, &mut s.samples, &mut s.iterations, &mut s.generations);
	s.coeff_strength = R::of(strength);
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
		s.solve_with_constraints().map(|(_, v, l)| (v.keys().count(), l.len()))
	}));
	match r {
		Ok(Ok((n, _))) => ensure!(n == vars.len(), "{} variables", n),
		Ok(Err(_)) => ensure!(expected, "an error although nothing failed"),
		Err(_) => ensure!(panics, "a panic although nothing panicked"),
	}
	let wrong = wrong.load(Ordering::Relaxed);
	ensure!(wrong == 0, "{} reads of a model which is not there any more", wrong);
	c.saw("reads of models by annealers", reads.load(Ordering::Relaxed));
	c.saw("searches with annealers that keep the model", 1);
	Ok(())
}

fn expressions<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let mut g = settings::<R>(&mut c.rng, 3);
	g.vars = g.vars.min(4);
	g.mag = Ord::min(g.mag, 3);
	g.phs = 2;
	let ph = ph_values::<R>(&mut c.rng, 2);
	let w = vec![Q::ONE; 5];
	let (size, degree) = if cfg!(miri) { (5, 3) } else { (8, 5) };
	let ast = fitting::<R>(&mut c.rng, &ph, &w, 5, degree, |r| {
		let size = 1 + r.below(size);
		g.tree(r, size, 4, true)
	});
	let mut e: Expr<Tp, Tq, Tc, R> = ast.expr();
	c.desc = format!("{}: {}", R::NAME, ast);
	for _ in 0..4 {
		let f: Expr<Tp, Tq, Tc, R> = e.clone();
		match c.rng.below(7) {
			0 => e += R::one(),
			1 => e -= R::zero(),
			2 => e *= R::one(),
			3 => e ^= 1,
			4 => e += Expr::zero(),
			5 => e *= Expr::one(),
			_ => e -= Expr::zero(),
		}
		drop(f);
		c.saw("assigning operators", 1);
	}
	let mut n = 0;
	let e = e.map(&mut |x| {
		n += 1;
		x
	});
	c.saw("parts mapped", n);
	let half: HashMap<Tp, R> = vh::probe::dict(&ph, |i| i == 0);
	let rest: HashMap<Tp, R> = vh::probe::dict(&ph, |_| true);
	let again = e.clone();
	let m = e.feed_dict(&half).compile();
	// not everything is filled
	if ast.phs().contains(&1) {
		let _ = guard(|| again.compile().feed_dict(half.clone()));
	}
	let m = m.feed_dict(rest);
	let m2 = m.clone();
	drop(m);
	let mut s = SimpleSolver::new(&m2);
	s.coeff_strength = vh::probe::strength(ast.labels().len(), Q::ONE);
	s.solver_generator.beta = BetaType::Count(1);
	s.solver_generator.sweeps_per_round = 1;
	s.samples = 1;
	s.iterations = 1;
	s.generations = 1;
	match s.solve_with_constraints() {
		Ok((e, v, _)) => {
			let _ = (e.as_f64(), v.occurrences());
		}
		Err(_) => return Err(String::from("the annealer failed")),
	}
	c.saw("expressions solved", 1);
	Ok(())
}

fn sets(c: &mut Case) -> Res {
	let n = c.rng.below(5);
	let v: Vec<usize> = (0..n).map(|_| c.rng.below(9)).collect();
	let s = <BTreeSet<usize> as NodeSet>::from_vec(v.clone()).expect("a set");
	let p = <[usize; 2]>::from_vec(v.clone());
	let q = <Vec<usize> as NodeSet>::from_vec(v.clone()).expect("a set");
	let k = NodeSet::iter(&s).count() + NodeSet::iter(&q).count() + p.map_or(0, |p| p.into_vec().len());
	c.saw("members read", k as u64);
	let m: BTreeMap<Vec<usize>, usize> = [(q.into_vec(), k)].into_iter().collect();
	ensure!(m.len() == 1, "one");
	Ok(())
}

fn case(c: &mut Case) -> Res {
	c.rng.u64();
	let i = c.rng.below(8);
	let r = match ((c.idx + c.idx / 8) % 10, i) {
		(0, _) => packed(c),
		(1, 0..=2) => dense::<i32>(c),
		(1, 3) => dense::<i8>(c),
		(1, 4) => dense::<i128>(c),
		(1, _) => dense::<f64>(c),
		(2, 0..=2) => sparse::<i32>(c),
		(2, 3) => sparse::<f32>(c),
		(2, _) => sparse::<f64>(c),
		(3, 0..=2) => annealer::<i64>(c),
		(3, 3) => annealer::<i16>(c),
		(3, _) => annealer::<f64>(c),
		(4, _) => sets(c),
		(5, _) | (6, _) => with_types!(i, expressions(c)),
		_ => with_types!(i, search(c)),
	};
	c.nontrivial(&c.desc.clone());
	r
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C20",
			quick: 20_000,
			thorough: 1_000_000,
			rule: "calls of the safe API on packed states, dense models, sparse models with holes, annealers, node sets, expressions and whole searches (with the built-in annealer and with annealers that keep their model and read it when they run, fail, panic and are dropped), with valid and invalid arguments; run in Miri and with AddressSanitizer, without debug assertions. Non-trivial: all, distinct by input",
			workers: 0,
			need: &[
				"invalid calls refused",
				"packed states",
				"terms of models read",
				"annealings",
				"models with holes",
				"reads of models by annealers",
				"searches with the built-in annealer",
				"searches with annealers that keep the model",
				"searches of many samples, iterations or generations",
				"assigning operators",
				"expressions solved",
				"members read",
			],
		},
		case,
	)
}
