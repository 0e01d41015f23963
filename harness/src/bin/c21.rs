//! C21: parallel sampling is race free and independent of the thread count. This program runs
//! natively, and with ThreadSanitizer.
use annealers::model::SingleModelView;
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::prelude::*;
use annealers::solution::SingleSolution;
use annealers::solver::Solver;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use rayon::ThreadPool;
use rustqubo::solve::SimpleSolver;
use rustqubo::Expr;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;
use vh::anneal::Prob;
use vh::ast::*;
use vh::num::*;
use vh::prng::{mix, Prng};
use vh::probe::{ProbeError, Qubo};
use vh::run::*;
use vh::{ensure, fail};

const POOLS: [usize; 6] = [1, 2, 3, 8, 16, 64];

fn pool(threads: usize) -> &'static ThreadPool {
	static P: OnceLock<Vec<ThreadPool>> = OnceLock::new();
	let v = P.get_or_init(|| {
		POOLS
			.iter()
			.map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().expect("pool"))
			.collect()
	});
	&v[POOLS.iter().position(|n| *n == threads).expect("size")]
}

/// Draws of all samples of this process
fn drawn() -> &'static Mutex<HashSet<u64>> {
	static D: OnceLock<Mutex<HashSet<u64>>> = OnceLock::new();
	D.get_or_init(|| Mutex::new(HashSet::new()))
}

#[derive(Default)]
struct Seen {
	generated: usize,
	/// number of the annealer -> runs
	runs: BTreeMap<usize, usize>,
	/// in the order of completion
	order: Vec<usize>,
	threads: HashSet<std::thread::ThreadId>,
	repeated: Vec<usize>,
	draws: usize,
	changed: usize,
}

/// Answers with states which depend on its number and the problem only
struct Script {
	seed: u64,
	/// states that are repeated with all kinds of equal energies
	variants: usize,
	fail: Option<usize>,
	/// microseconds
	delays: u64,
	jitter: u64,
	seen: Arc<Mutex<Seen>>,
	flight: Arc<AtomicUsize>,
	peak: Arc<AtomicUsize>,
}

struct Run<R: Num> {
	model: &'static Qubo<R>,
	sum: f64,
	number: usize,
	states: Vec<Vec<bool>>,
	fail: bool,
	delay: u64,
	seen: Arc<Mutex<Seen>>,
	flight: Arc<AtomicUsize>,
	peak: Arc<AtomicUsize>,
}

fn total<R: Num>(m: &Qubo<R>) -> f64 {
	let n = SingleModelView::size(m);
	let mut t = n as f64;
	for j in 0..n {
		for i in 0..=j {
			t = t * 1.25 + SingleModelView::get_weight(m, &[i, j]).as_f64();
		}
	}
	t
}

fn wait(us: u64) {
	match us % 4 {
		0 => std::thread::yield_now(),
		1 => (0..us * 20).for_each(|_| std::hint::spin_loop()),
		_ => std::thread::sleep(Duration::from_micros(us)),
	}
}

impl<R: Num> Solver for Run<R> {
	type ErrorType = ProbeError;
	type SolutionType = SingleSolution<Binary<R>>;
}
impl<R: Num> ClassicalSolver for Run<R> {
	fn solve_with_rng<T: rand::Rng>(
		&self,
		r: &mut T,
	) -> Result<Vec<SingleSolution<Binary<R>>>, ProbeError> {
		let now = self.flight.fetch_add(1, Ordering::SeqCst) + 1;
		self.peak.fetch_max(now, Ordering::SeqCst);
		if self.delay > 0 {
			wait(self.delay);
		}
		let mut mine: Vec<u64> = vec![r.next_u64()];
		if self.delay > 0 {
			wait(self.delay / 2);
		}
		mine.extend((0..3).map(|_| r.next_u64()));
		let changed = total(self.model) != self.sum;
		{
			let mut s = self.seen.lock().unwrap();
			*s.runs.entry(self.number).or_insert(0) += 1;
			s.order.push(self.number);
			s.threads.insert(std::thread::current().id());
			s.changed += changed as usize;
			s.draws += mine.len();
			let mut d = drawn().lock().unwrap();
			for v in mine {
				if !d.insert(v) {
					s.repeated.push(self.number);
				}
			}
		}
		self.flight.fetch_sub(1, Ordering::SeqCst);
		if self.fail {
			Err(ProbeError(self.number as u64))
		} else {
			Ok(self.states.iter().map(|s| SingleSolution::from_vec(s)).collect())
		}
	}
}
impl<R: Num> SolverGenerator<'static, Qubo<R>> for Script {
	type SolverType = Run<R>;
	type ErrorType = ProbeError;
	fn generate(&self, model: &'static Qubo<R>) -> Result<Run<R>, ProbeError> {
		let number = {
			let mut s = self.seen.lock().unwrap();
			s.generated += 1;
			s.generated - 1
		};
		let n = SingleModelView::size(model);
		let mut r = Prng::new(self.seed, 21, number as u64);
		let k = if number == 0 { 1 } else { r.below(3) };
		let states = (0..k.max(1))
			.map(|_| {
				let v = r.below(self.variants) as u64;
				let mut p = Prng::new(self.seed, 22, v);
				p.bits(n)
			})
			.collect();
		let delay = if self.delays > 0 {
			mix(self.jitter ^ mix(number as u64)) % self.delays
		} else {
			0
		};
		Ok(Run {
			model,
			sum: total(model),
			number,
			states,
			fail: self.fail == Some(number),
			delay,
			seen: self.seen.clone(),
			flight: self.flight.clone(),
			peak: self.peak.clone(),
		})
	}
}
impl<R: Num> UnstructuredSolverGenerator<'static, Qubo<R>> for Script {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}

type Answer = Result<(String, Vec<Option<bool>>, usize, Vec<String>), ProbeError>;

#[derive(Clone, Copy, Debug)]
struct Setup {
	samples: usize,
	iterations: usize,
	generations: usize,
	strength: i128,
}

/// One search of a compiled problem (whose type has no public name) with these settings in the
/// pool of this many threads
macro_rules! search {
	($model:expr, $vars:expr, $tq:ty, $r:ty, $set:expr, $seed:expr, $variants:expr, $fail:expr, $threads:expr, $delays:expr, $jitter:expr) => {{
		let set: Setup = $set;
		let g = Script {
			seed: $seed,
			variants: $variants,
			fail: $fail,
			delays: $delays,
			jitter: $jitter,
			seen: Arc::new(Mutex::new(Seen::default())),
			flight: Arc::new(AtomicUsize::new(0)),
			peak: Arc::new(AtomicUsize::new(0)),
		};
		let (seen, peak) = (g.seen.clone(), g.peak.clone());
		let mut s = SimpleSolver::with_solver($model, g);
		s.samples = set.samples;
		s.iterations = set.iterations;
		s.generations = set.generations;
		s.coeff_strength = <$r>::of(Q::int(set.strength));
		let r: Answer = pool($threads).install(|| {
			s.solve_with_constraints().map(|(e, v, l)| {
				(
					format!("{} {:?}", e, v.energy()),
					$vars.iter().map(|i| v.get(&<$tq>::mk(*i))).collect(),
					v.keys().count(),
					l.iter().map(|l| format!("{:?}", l)).collect(),
				)
			})
		});
		drop(s);
		let seen = std::mem::take(&mut *seen.lock().unwrap());
		(r, seen, peak.load(Ordering::SeqCst))
	}};
}

/// Constraints and objective with many states of equal energy
fn problem<R: Num>(c: &mut Case, strength: i128) -> Ast {
	let w = vec![Q::int(strength); 5];
	let mut ast = constrained::<R>(&mut c.rng, &w, 2);
	let n = ast.vars().iter().max().map_or(0, |m| m + 1);
	if c.rng.chance(2, 3) {
		// variables without influence
		for i in 0..1 + c.rng.below(3) {
			ast = add(ast, mul(num(0), bin(n + i)));
		}
	}
	if c.rng.chance(1, 3) {
		// never satisfied: all rounds are made
		let l = ast.labels().into_iter().next().unwrap_or(0);
		ast = add(ast, con(l, add(bin(0), num(1))));
	}
	ast
}

fn same<R: Num, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let strength = if R::BITS < 20 { 6 } else { c.rng.range(2, 500) as i128 };
	let ast = problem::<R>(c, strength);
	let set = Setup {
		samples: if c.rng.chance(1, 10) {
			*c.rng.pick(&[70, 130, 260, 300])
		} else {
			*c.rng.pick(&[1, 2, 3, 8, 16, 33])
		},
		iterations: 1 + c.rng.below(2),
		generations: 1 + c.rng.below(4),
		strength,
	};
	let seed = c.rng.u64();
	let variants = *c.rng.pick(&[1, 2, 4, 40]);
	let fail = if c.rng.chance(1, 8) {
		Some(c.rng.below(set.samples * 3))
	} else {
		None
	};
	c.desc = format!("{}: {} {:?} variants={} fail={:?}", R::NAME, ast, set, variants, fail);
	// the auxiliary variables of two compilations differ
	let e: Expr<(), Tq, Tc, R> = ast.expr();
	let model = e.compile();
	let vars = ast.vars();
	let (want, base, _) = search!(&model, vars, Tq, R, set, seed, variants, fail, 1, 0, 0);
	audit(c, &base, &want, set, fail)?;
	let mut sizes: Vec<usize> = POOLS.to_vec();
	if !c.thorough {
		c.rng.shuffle(&mut sizes);
		sizes.truncate(3);
	}
	for threads in sizes {
		for delays in [0, *c.rng.pick(&[40, 150, 600])] {
			let jitter = c.rng.u64();
			let (got, seen, peak) = search!(
				&model, vars, Tq, R, set, seed, variants, fail, threads, delays, jitter
			);
			ensure!(
				got == want,
				"{} threads, delays {} give {:?}, one thread without delays {:?}",
				threads, delays, got, want
			);
			ensure!(
				seen.generated == base.generated || want.is_err(),
				"{} threads: {} annealers, with one thread {}",
				threads, seen.generated, base.generated
			);
			audit(c, &seen, &got, set, fail)?;
			c.saw("searches compared", 1);
			if peak > 1 {
				c.saw("searches with runs at the same time", 1);
			}
			if set.samples > 64 {
				c.saw("searches with more than 64 samples", 1);
			}
			if peak > 8 {
				c.saw("searches with more than 8 runs at the same time", 1);
			}
			if seen.order.windows(2).any(|w| w[1] < w[0]) {
				c.saw("searches whose runs ended in another order", 1);
				// distinct by the order of completion
				c.nontrivial(&format!("{:?}", seen.order));
			}
			c.saw("threads seen", seen.threads.len() as u64);
		}
	}
	Ok(())
}

/// Exactly one run of each annealer, independent draws, unchanged models
fn audit(c: &mut Case, s: &Seen, a: &Answer, set: Setup, fail: Option<usize>) -> Res {
	ensure!(
		s.repeated.is_empty(),
		"the samples {:?} have drawn numbers which other samples have drawn too",
		s.repeated
	);
	ensure!(s.changed == 0, "{} annealers saw another model when they ran", s.changed);
	for (k, n) in &s.runs {
		ensure!(*n == 1, "annealer {} ran {} times", k, n);
	}
	match a {
		Ok(_) => {
			ensure!(
				s.runs.len() == s.generated && s.generated % set.samples == 0,
				"{} of {} annealers ran, {} per round",
				s.runs.len(), s.generated, set.samples
			);
			ensure!(fail.map_or(true, |f| f >= s.generated), "a failure was lost");
		}
		Err(e) => ensure!(
			fail == Some(e.0 as usize),
			"failure {:?} instead of {:?}",
			e, fail
		),
	}
	c.saw("independent numbers drawn", s.draws as u64);
	c.saw("runs", s.order.len() as u64);
	Ok(())
}

/// Searches at the same time on the same compiled problem do not influence each other
fn crowd<R: Num, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let strength = if R::BITS < 20 { 6 } else { c.rng.range(2, 500) as i128 };
	let ast = problem::<R>(c, strength);
	let k = 2 + c.rng.below(6);
	let jobs: Vec<(Setup, u64, usize, usize)> = (0..k)
		.map(|_| {
			let set = Setup {
				samples: 1 + c.rng.below(9),
				iterations: 1 + c.rng.below(2),
				generations: 1 + c.rng.below(4),
				strength,
			};
			(set, c.rng.u64(), 1 + c.rng.below(8), *c.rng.pick(&POOLS))
		})
		.collect();
	c.desc = format!("{}: {} searches of {}", R::NAME, k, ast);
	let e: Expr<(), Tq, Tc, R> = ast.expr();
	let model = e.compile();
	let vars = ast.vars();
	let mut alone = Vec::new();
	for (set, seed, variants, _) in &jobs {
		alone.push(search!(&model, vars, Tq, R, *set, *seed, *variants, None, 1, 0, 0).0);
	}
	let jitter = c.rng.u64();
	let got: Vec<(Answer, Seen)> = std::thread::scope(|s| {
		let hs: Vec<_> = jobs
			.iter()
			.enumerate()
			.map(|(i, (set, seed, variants, threads))| {
				let (model, vars) = (&model, &vars);
				s.spawn(move || {
					let (a, seen, _) = search!(
						model, vars, Tq, R, *set, *seed, *variants, None, *threads, 200,
						jitter ^ i as u64
					);
					(a, seen)
				})
			})
			.collect();
		hs.into_iter().map(|h| h.join().expect("thread")).collect()
	});
	for (i, (a, seen)) in got.iter().enumerate() {
		ensure!(
			*a == alone[i],
			"search {} among {} gives {:?}, alone {:?}",
			i, k, a, alone[i]
		);
		audit(c, seen, a, jobs[i].0, None)?;
		c.saw("searches among others compared", 1);
	}
	Ok(())
}

/// The built-in annealer in many searches at the same time: its answers are consistent
fn builtin<R: Num, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let strength = if R::BITS < 20 { 6 } else { c.rng.range(2, 500) as i128 };
	let ast = problem::<R>(c, strength);
	let e: Expr<(), Tq, Tc, R> = ast.expr();
	let model = e.compile();
	let (vars, labels) = (ast.vars(), ast.labels());
	let anc = ast.degree() > 2;
	c.desc = format!("{}: built-in annealer on {}", R::NAME, ast);
	let sizes: Vec<usize> = (0..4).map(|_| *c.rng.pick(&POOLS)).collect();
	let got: Vec<Res> = std::thread::scope(|s| {
		let hs: Vec<_> = sizes
			.iter()
			.map(|threads| {
				let (model, vars, labels, ast) = (&model, &vars, &labels, &ast);
				s.spawn(move || -> Res {
					let mut s = SimpleSolver::new(model);
					s.samples = 8;
					s.iterations = 2;
					s.generations = 3;
					s.solver_generator.beta = BetaType::Count(6);
					s.solver_generator.sweeps_per_round = 2;
					s.coeff_strength = R::of(Q::int(strength));
					let r = pool(*threads).install(|| {
						s.solve_with_constraints().ok().map(|(e, v, l)| {
							let x: u64 = vars
								.iter()
								.map(|i| (v.get(&Tq::mk(*i)).unwrap_or(false) as u64) << i)
								.sum();
							let l: BTreeSet<usize> = l
								.iter()
								.map(|l| {
									labels.iter().copied().find(|i| Tc::mk(*i) == **l).unwrap_or(99)
								})
								.collect();
							(e, x, l)
						})
					});
					let (e, x, l) = match r {
						Some(r) => r,
						None => fail!("the annealer failed"),
					};
					let w = vec![Q::ONE; 6];
					let at = At { x, ph: &[], w: &w };
					let want = ast.violated(&at);
					ensure!(l == want, "violated {:?} instead of {:?} at {:b}", l, want, x);
					if want.is_empty() && !anc {
						let v = ast.energy(&at);
						ensure!(
							(e.q() - v).f64().abs() <= if R::INT { 0.0 } else { 1.0e-3 + v.f64().abs() * 1.0e-4 },
							"energy {} instead of {} at {:b}",
							e, v, x
						);
					}
					Ok(())
				})
			})
			.collect();
		hs.into_iter().map(|h| h.join().expect("thread")).collect()
	});
	for r in got {
		r?;
		c.saw("searches of the built-in annealer", 1);
	}
	Ok(())
}

/// One annealer and one model, shared by threads
fn shared<R: Num>(c: &mut Case) -> Res {
	let n = 1 + c.rng.below(12);
	let p = Prob::random::<R>(&mut c.rng, n, 3, 1);
	c.desc = format!("{} one annealer shared by threads: {:?}", R::NAME, p);
	let (d, s) = (p.dense::<R>(), p.sparse::<R>());
	fn go<R: Num, P: SingleModelView<Node = Binary<R>> + Send + Sync>(
		c: &mut Case,
		m: &P,
	) -> Res {
		let mut g = SimulatedAnnealerGenerator::new();
		g.beta = BetaType::Count(5);
		g.sweeps_per_round = 3;
		let a = g.generate(m).map_err(|e| e.to_string())?;
		let seeds: Vec<u64> = (0..6).map(|_| c.rng.u64()).collect();
		let one = |seed: u64| -> Vec<Vec<bool>> {
			let mut r = Prng::new(seed, 5, 5);
			let v = a.solve_with_rng(&mut r).ok().expect("cannot fail");
			v.iter().map(|s| s.state.to_vec()).collect()
		};
		let want: Vec<_> = seeds.iter().map(|s| one(*s)).collect();
		let got: Vec<_> = std::thread::scope(|s| {
			let hs: Vec<_> = seeds.iter().map(|seed| s.spawn(|| one(*seed))).collect();
			hs.into_iter().map(|h| h.join().expect("thread")).collect()
		});
		ensure!(want == got, "samples {:?} in threads, {:?} one after the other", got, want);
		c.saw("samples of a shared annealer compared", 6);
		Ok(())
	}
	go(c, &d)?;
	go(c, &s)
}

fn case(c: &mut Case) -> Res {
	match c.idx % 8 {
		0 => crowd::<i32, String, &'static str>(c),
		1 => crowd::<f64, u32, u32>(c),
		2 => builtin::<f64, &'static str, String>(c),
		3 => match c.rng.below(3) {
			0 => shared::<f64>(c),
			1 => shared::<i32>(c),
			_ => builtin::<i64, u32, u8>(c),
		},
		4 => same::<i32, String, u32>(c),
		5 => same::<i64, Mixed, char>(c),
		6 => same::<f32, (usize, i8), Mixed>(c),
		_ => same::<f64, &'static str, u8>(c),
	}
}

fn main() {
	// make the pools before the clock of the first case runs
	pool(1);
	vh::run::main(
		Plan {
			prop: "C21",
			quick: 1_500,
			thorough: 40_000,
			rule: "searches with annealers that answer by number, repeated in pools of 1 to 64 threads with random delays; searches at the same time on one compiled problem; the built-in annealer in several pools, and one annealer shared by threads. The same runs are repeated with ThreadSanitizer. Non-trivial: searches whose runs ended in another order than they were generated; distinct by this order",
			workers: 4,
			need: &[
				"searches compared",
				"searches with runs at the same time",
				"searches with more than 8 runs at the same time",
				"searches with more than 64 samples",
				"searches whose runs ended in another order",
				"searches among others compared",
				"searches of the built-in annealer",
				"samples of a shared annealer compared",
				"independent numbers drawn",
			],
		},
		case,
	)
}
