//! C23: equal random streams give equal annealing results
use annealers::model::SingleModelView;
use annealers::node::Binary;
use annealers::prelude::*;
use annealers::repr::BinaryRepr;
use annealers::solution::SingleSolution;
use classical_solver::algo::simulated_annealing;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use rand::rngs::{SmallRng, StdRng};
use rand::{RngCore, SeedableRng};
use std::collections::HashSet;
use vh::anneal::*;
use vh::num::*;
use vh::prng::Prng;
use vh::run::*;
use vh::{ensure, fail};

/// A generator that counts what is drawn from it
#[derive(Clone)]
struct Counted<T> {
	r: T,
	words: u64,
	bytes: u64,
}
impl<T: RngCore> RngCore for Counted<T> {
	fn next_u32(&mut self) -> u32 {
		self.words += 1;
		self.r.next_u32()
	}
	fn next_u64(&mut self) -> u64 {
		self.words += 1;
		self.r.next_u64()
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		self.bytes += d.len() as u64;
		self.r.fill_bytes(d)
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
		self.bytes += d.len() as u64;
		self.r.try_fill_bytes(d)
	}
}
fn counted(seed: u64) -> Counted<StdRng> {
	Counted { r: StdRng::seed_from_u64(seed), words: 0, bytes: 0 }
}

fn weights<P: SingleModelView>(m: &P) -> Vec<(Vec<usize>, String)> {
	let mut v: Vec<_> = m
		.prods()
		.into_iter()
		.map(|p| {
			let w = format!("{:?}", m.get_weight(&p));
			(p.iter().collect::<Vec<_>>(), w)
		})
		.collect();
	v.sort();
	v
}
use annealers::set::NodeSet;

/// The one state of a run
fn only<R: Num>(v: Vec<SingleSolution<Binary<R>>>) -> Result<Vec<bool>, String> {
	ensure!(v.len() == 1, "{} solutions of one run", v.len());
	Ok(v[0].state.to_vec())
}

fn schedule<R: Num>(r: &mut Prng) -> BetaType<R> {
	let f = |r: &mut Prng| {
		let v = r.f64() * 3.0;
		if R::INT { R::of(Q::int(1 + v as i128)) } else { R::from_f64(v + 0.01) }
	};
	match r.below(4) {
		0 => BetaType::Count(r.below(12)),
		1 => BetaType::CountRange(1 + r.below(12), f(r), f(r)),
		2 => BetaType::Schedule((0..r.below(9)).map(|_| f(r)).collect()),
		_ => BetaType::Count(1 + r.below(30)),
	}
}

/// One run and everything that may depend on it
fn run_of<R: Num, P: SingleModelView<Node = Binary<R>> + Send + Sync>(
	m: &P,
	beta: &BetaType<R>,
	sweeps: usize,
	seed: u64,
) -> Result<(Vec<bool>, u64, u64, u64), String> {
	let mut g = SimulatedAnnealerGenerator::new();
	g.beta = beta.clone();
	g.sweeps_per_round = sweeps;
	let s = g.generate(m).map_err(|e| e.to_string())?;
	let mut r = counted(seed);
	let st = only(s.solve_with_rng(&mut r).map_err(|e| e.to_string())?)?;
	// with where the generator is afterwards
	Ok((st, r.words, r.bytes, r.r.next_u64()))
}

fn repeat<R: Num, P: SingleModelView<Node = Binary<R>> + Send + Sync + Clone>(
	c: &mut Case,
	m: &P,
	beta: &BetaType<R>,
	sweeps: usize,
	seed: u64,
) -> Result<(Vec<bool>, u64, u64, u64), String> {
	let before = weights(m);
	let nodes: Vec<usize> = m.nodes().into_iter().collect();
	let mut g = SimulatedAnnealerGenerator::new();
	g.beta = beta.clone();
	g.sweeps_per_round = sweeps;
	let a = g.generate(m).map_err(|e| e.to_string())?;
	let mut r = counted(seed);
	let first = only(a.solve_with_rng(&mut r).map_err(|e| e.to_string())?)?;
	let first = (first, r.words, r.bytes, r.r.next_u64());
	// the same annealer, after other runs
	let mut other = counted(seed ^ 0x5555);
	a.solve_with_rng(&mut other).map_err(|e| e.to_string())?;
	let mut r = counted(seed);
	let again = only(a.solve_with_rng(&mut r).map_err(|e| e.to_string())?)?;
	ensure!(
		again == first.0 && (r.words, r.bytes) == (first.1, first.2),
		"the second run of an annealer gives {:?}, the first {:?}",
		again, first.0
	);
	// another annealer, a clone of the generator, a clone of the model
	let b = run_of(m, beta, sweeps, seed)?;
	ensure!(b == first, "another annealer gives {:?} instead of {:?}", b, first);
	let g2 = g.clone();
	let b = g2.generate(m).map_err(|e| e.to_string())?;
	let mut r = counted(seed);
	let again = only(b.solve_with_rng(&mut r).map_err(|e| e.to_string())?)?;
	ensure!(again == first.0, "a clone of the generator gives {:?} instead of {:?}", again, first.0);
	let m2 = m.clone();
	let b = run_of(&m2, beta, sweeps, seed)?;
	ensure!(b == first, "a clone of the model gives {:?} instead of {:?}", b, first);
	// another thread
	let b = std::thread::scope(|s| s.spawn(|| run_of(m, beta, sweeps, seed)).join().expect("join"))?;
	ensure!(b == first, "another thread gives {:?} instead of {:?}", b, first);
	// with other generators of the same stream
	let mut r = SmallRng::seed_from_u64(seed);
	let mut r2 = r.clone();
	let (x, y) = (
		only(a.solve_with_rng(&mut r).map_err(|e| e.to_string())?)?,
		only(a.solve_with_rng(&mut r2).map_err(|e| e.to_string())?)?,
	);
	ensure!(x == y && r.next_u64() == r2.next_u64(), "clones of a generator give {:?} and {:?}", x, y);
	// the next run continues the stream
	let mut r3 = r2.clone();
	let (x, y) = (
		only(a.solve_with_rng(&mut r2).map_err(|e| e.to_string())?)?,
		only(a.solve_with_rng(&mut r3).map_err(|e| e.to_string())?)?,
	);
	ensure!(x == y, "the second runs from clones of a generator give {:?} and {:?}", x, y);
	// the algorithm itself, with the same state
	let start = c.rng.bits(SingleModelView::size(m));
	let betas = [0.1, 1.0];
	let alone = || {
		let mut st = BinaryRepr::from_vec(&start);
		simulated_annealing(&mut StdRng::seed_from_u64(seed), &mut st, &betas, sweeps, m);
		st.to_vec()
	};
	let (x, y) = (alone(), alone());
	ensure!(x == y, "the annealing of {:?} gives {:?} and {:?}", start, x, y);
	// the settings and the model are as they were
	ensure!(
		weights(m) == before && m.nodes().into_iter().collect::<Vec<_>>() == nodes,
		"the model was changed by the annealing"
	);
	ensure!(
		g.sweeps_per_round == sweeps && format!("{:?}", g.beta) == format!("{:?}", beta),
		"the settings were changed by the annealing"
	);
	c.saw("runs repeated", 8);
	c.saw("draws counted", first.1 + first.2);
	Ok(first)
}

fn same<R: Num>(c: &mut Case) -> Res {
	let big = R::BITS > 20 && c.rng.chance(1, 12);
	let n = if big { if c.rng.bool() { c.rng.below(60) } else { 60 + c.rng.below(90) } } else { c.rng.below(if R::BITS < 10 { 6 } else { 13 }) };
	let mag = if R::BITS < 10 { 2 } else { *c.rng.pick(&[1, 5, 100]) };
	let p = Prob::random::<R>(&mut c.rng, n, mag, 3);
	let (beta, sweeps) = (schedule::<R>(&mut c.rng), c.rng.below(5));
	let seed = c.rng.u64();
	c.desc = format!("{}: {} nodes, {:?}, {} sweeps, seed {}", R::NAME, n, beta, sweeps, seed);
	let (d, s, h) = (p.dense::<R>(), p.sparse::<R>(), p.high::<R>());
	let a = repeat(c, &d, &beta, sweeps, seed)?;
	let b = repeat(c, &s, &beta, sweeps, seed)?;
	let h = repeat(c, &h, &beta, sweeps, seed)?;
	ensure!(a == b, "a dense model gives {:?}, a sparse one {:?}", a, b);
	ensure!(a == h, "a dense model gives {:?}, one of high order {:?}", a, h);
	// terms added in another order, and in parts
	let mut terms: Vec<_> = p.terms.iter().collect();
	c.rng.shuffle(&mut terms);
	let mut m: Sparse<R> = annealers::model::SingleModel::new(Binary::new(), annealers::order::Quadric);
	for i in (0..n).rev() {
		m.add_weight([i, i], R::zero());
	}
	for ((i, j), w) in terms {
		m.add_weight([*i, *j], R::of(*w));
	}
	let o = run_of(&m, &beta, sweeps, seed)?;
	ensure!(a == o, "terms added in another order give {:?} instead of {:?}", o, a);
	c.saw("representations compared", 4);
	if n > 0 && a.1 + a.2 == 0 {
		fail!("a run on {} nodes draws nothing from the given generator", n);
	}
	if n > 2 {
		c.nontrivial(&c.desc.clone());
	}
	Ok(())
}

/// Weights that are rounded: the same model repeats all the same
fn rough<R: Num>(c: &mut Case) -> Res {
	let n = 2 + c.rng.below(12);
	let mut d: Dense<R> = annealers::model::FixedSingleQuadricModel::new(Binary::new(), n);
	let mut s: Sparse<R> = annealers::model::SingleModel::new(Binary::new(), annealers::order::Quadric);
	for i in 0..n {
		for j in i..n {
			let w = R::from_f64((c.rng.f64() - 0.5) * 0.7 + 0.1);
			d.add_weight(i, j, w);
			s.add_weight([i, j], w);
		}
	}
	let (beta, sweeps) = (schedule::<R>(&mut c.rng), c.rng.below(5));
	let seed = c.rng.u64();
	c.desc = format!("{}: {} nodes with rough weights, seed {}", R::NAME, n, seed);
	repeat(c, &d, &beta, sweeps, seed)?;
	repeat(c, &s, &beta, sweeps, seed)?;
	c.nontrivial(&c.desc.clone());
	Ok(())
}

/// Different streams lead to different initial states: without any temperature a run returns its
/// initial state.
fn initial<R: Num>(c: &mut Case) -> Res {
	let n = *c.rng.pick(&[1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 129, 257, 300]);
	let p = Prob { n, terms: Default::default() };
	let d = p.dense::<R>();
	let k = 400;
	let mut g = SimulatedAnnealerGenerator::new();
	g.beta = BetaType::Schedule(Vec::new());
	let a = g.generate(&d).map_err(|e| e.to_string())?;
	let base = c.rng.u64();
	c.desc = format!("{}: {} initial states of {} nodes, seeds from {}", R::NAME, k, n, base);
	let mut states = Vec::new();
	for i in 0..k {
		let mut r = StdRng::seed_from_u64(base.wrapping_add(i));
		let st = only(a.solve_with_rng(&mut r).map_err(|e| e.to_string())?)?;
		ensure!(st.len() == n, "a state of {} instead of {} nodes", st.len(), n);
		states.push(st);
	}
	// again
	for i in [0, k / 2, k - 1] {
		let mut r = StdRng::seed_from_u64(base.wrapping_add(i));
		let st = only(a.solve_with_rng(&mut r).map_err(|e| e.to_string())?)?;
		ensure!(st == states[i as usize], "stream {} leads to {:?} and to {:?}", i, states[i as usize], st);
	}
	if n >= 64 {
		let distinct: HashSet<_> = states.iter().collect();
		ensure!(
			distinct.len() == states.len(),
			"{} different initial states from {} streams",
			distinct.len(), k
		);
	}
	// each variable is one in about half of the states, and pairs are equal in half of them
	let dev = deviation(k as f64, 0.5);
	for i in 0..n {
		let ones = states.iter().filter(|s| s[i]).count() as f64;
		ensure!(
			(ones - k as f64 / 2.0).abs() <= dev,
			"variable {} of {} is one in {} of {} initial states",
			i, n, ones, k
		);
		// all pairs of few nodes, the close ones of many
		for j in (if n > 100 { i.saturating_sub(9) } else { 0 })..i {
			let equal = states.iter().filter(|s| s[i] == s[j]).count() as f64;
			ensure!(
				(equal - k as f64 / 2.0).abs() <= dev,
				"variables {} and {} of {} are equal in {} of {} initial states",
				j, i, n, equal, k
			);
		}
	}
	c.saw("initial states looked at", k);
	if n > 2 {
		c.nontrivial(&c.desc.clone());
	}
	Ok(())
}

/// One continued stream: the runs differ from each other
fn stream<R: Num>(c: &mut Case) -> Res {
	let n = 70 + c.rng.below(30);
	let p = Prob { n, terms: Default::default() };
	let m = p.sparse::<R>();
	let mut g = SimulatedAnnealerGenerator::new();
	// nothing is ever refused here, an even number of sweeps restores the state
	g.beta = BetaType::Count(1 + c.rng.below(3));
	g.sweeps_per_round = 2;
	let a = g.generate(&m).map_err(|e| e.to_string())?;
	let seed = c.rng.u64();
	c.desc = format!("{}: runs of one stream on {} nodes, seed {}", R::NAME, n, seed);
	let mut r = StdRng::seed_from_u64(seed);
	let mut seen = HashSet::new();
	for k in 0..20 {
		let st = only(a.solve_with_rng(&mut r).map_err(|e| e.to_string())?)?;
		ensure!(seen.insert(st), "run {} of a stream repeats an earlier run", k);
	}
	c.saw("runs of continued streams", 20);
	c.nontrivial(&c.desc.clone());
	Ok(())
}

fn case(c: &mut Case) -> Res {
	match c.idx % 10 {
		0 => same::<f64>(c),
		1 => same::<i32>(c),
		2 => same::<f32>(c),
		3 => same::<i8>(c),
		4 => same::<i64>(c),
		5 => same::<i128>(c),
		6 => rough::<f64>(c),
		7 => rough::<f32>(c),
		8 => match c.rng.below(2) {
			0 => initial::<f64>(c),
			_ => initial::<i16>(c),
		},
		_ => match c.rng.below(2) {
			0 => stream::<f64>(c),
			_ => stream::<i32>(c),
		},
	}
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C23",
			quick: 8_000,
			thorough: 600_000,
			rule: "annealing runs with seeded generators repeated with the same annealer, another one, clones of generator and model, another thread, dense, sparse and high order storage and another order of insertion; initial states and continued streams. Non-trivial: more than two nodes; distinct by problem size, schedule and seed",
			workers: 0,
			need: &[
				"runs repeated",
				"draws counted",
				"representations compared",
				"initial states looked at",
				"runs of continued streams",
			],
		},
		case,
	)
}
