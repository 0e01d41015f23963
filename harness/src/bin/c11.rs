//! C11: the annealer follows sequential Metropolis dynamics
use annealers::prelude::*;
use annealers::repr::BinaryRepr;
use classical_solver::algo::simulated_annealing;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use vh::anneal::*;
use vh::ensure;
use vh::num::*;
use vh::prng::Prng;
use vh::run::*;

fn bits(s: &[bool]) -> String {
	s.iter().map(|b| if *b { '1' } else { '0' }).collect()
}

fn problem<R: Num>(r: &mut Prng, n: usize) -> Prob {
	let tiny = R::BITS < 10;
	let mag = if tiny { 127 / (2 * n.max(1) as i64 + 2) } else { *r.pick(&[1, 3, 20, 200]) };
	// dyadic weights with few bits: all energies are exact
	let frac = *r.pick(&[0, 1, 4]);
	Prob::random::<R>(r, n, mag.max(1), frac)
}

fn betas(r: &mut Prng, p: &Prob, max: usize) -> Vec<f64> {
	let scale = p.terms.values().map(|w| w.f64().abs()).fold(0.0, f64::max).max(0.01);
	(0..r.below(max + 1))
		.map(|_| match r.below(8) {
			0 => 0.0,
			1 => 1.0e-9,
			2 => 60.0 / scale,
			3 => *r.pick(&[1.0e6, 1.0e300, f64::INFINITY]),
			_ => (r.f64() * 8.0 - 5.0).exp() / scale,
		})
		.collect()
}

/// The probability of the first raising flip, if it is neither too small nor too great
fn first_raise(p: &Prob, start: &[bool], betas: &[f64], sweeps: usize) -> Option<f64> {
	let adj = p.adjacency();
	let mut s = start.to_vec();
	for b in betas {
		for _ in 0..sweeps {
			for i in 0..p.n {
				let d = delta(&adj, &s, i);
				if d > 0.0 {
					let a = f64::exp(-d * b);
					return if a > 0.002 && a < 0.98 { Some(a) } else { None };
				}
				s[i] = !s[i];
			}
		}
	}
	None
}

/// One run with the same draw for each decision
fn trajectory<R: Num>(c: &mut Case) -> Res {
	let kind = c.rng.below(4);
	let big = kind < 2 && R::BITS > 20 && c.rng.chance(1, 10);
	// hundreds of nodes, or thousands of flips
	let huge = R::BITS > 20 && c.rng.chance(1, 500);
	let long = !big && !huge && c.rng.chance(1, 300);
	let n = if huge {
		200 + c.rng.below(400)
	} else if big {
		1 + c.rng.below(150)
	} else if R::BITS < 10 {
		1 + c.rng.below(8)
	} else {
		c.rng.below(13)
	};
	let p = problem::<R>(&mut c.rng, n);
	let betas = betas(&mut c.rng, &p, if huge { 2 } else if big { 4 } else { 8 });
	let sweeps = if long {
		*c.rng.pick(&[300, 1100, 4200, 17_000]) + c.rng.below(100)
	} else if huge {
		1 + c.rng.below(2)
	} else if c.rng.chance(1, 10) { 0 } else { 1 + c.rng.below(4) };
	let u = match c.rng.below(5) {
		0 => 1.0e-12 * (1.0 + c.rng.f64()),
		1 => 0.999,
		2 => (-c.rng.f64() * 12.0).exp(),
		_ => c.rng.f64().max(1.0e-6),
	};
	let start = c.rng.bits(n);
	// sometimes just above or below the probability of the first raising flip
	let mut u = u;
	if c.rng.chance(1, 6) {
		if let Some(a) = first_raise(&p, &start, &betas, sweeps) {
			let by = 10f64.powf(-2.0 - c.rng.f64() * 5.7);
			u = a * if c.rng.bool() { 1.0 + by } else { 1.0 - by };
			c.saw("draws close to a probability", 1);
			if by < 1.0e-6 {
				c.saw("draws within a millionth of it", 1);
			}
		}
	}
	let mut gen = Const::new(u);
	let u = gen.u();
	c.desc = format!(
		"{} {}: {:?} from {} betas={:?} sweeps={} u={}",
		R::NAME,
		["dense", "dense", "sparse", "high order"][kind],
		p.terms.iter().map(|(k, w)| (*k, w.f64())).collect::<Vec<_>>(),
		bits(&start),
		betas,
		sweeps,
		u
	);
	let mut want = start.clone();
	let st = metropolis(&p, &mut want, &betas, sweeps, u);
	let mut state = BinaryRepr::from_vec(&start);
	match kind {
		0 | 1 => simulated_annealing(&mut gen, &mut state, &betas, sweeps, &p.dense::<R>()),
		2 => simulated_annealing(&mut gen, &mut state, &betas, sweeps, &p.sparse::<R>()),
		_ => simulated_annealing(&mut gen, &mut state, &betas, sweeps, &p.high::<R>()),
	}
	let got = state.to_vec();
	ensure!(
		got == want,
		"the state after annealing is {} instead of {}",
		bits(&got),
		bits(&want)
	);
	c.saw("trajectories", 1);
	let flips = st.raised + st.level + st.lowered;
	if flips > 4096 {
		c.saw("trajectories of thousands of flips", 1);
	}
	if huge && flips > 0 {
		c.saw("trajectories of hundreds of nodes", 1);
	}
	c.saw("decisions of the reference", st.decisions);
	c.saw("raising flips made", st.raised);
	c.saw("raising flips refused", st.refused);
	c.saw("flips without change of energy", st.level);
	c.saw("lowering flips", st.lowered);
	if st.raised > 0 && st.refused > 0 && got != start {
		c.nontrivial(&c.desc.clone());
		c.sample = Some(format!("{} -> {:?}", c.desc, st));
	}
	Ok(())
}

/// The same through the generator, which draws the initial state as well: with an integer schedule
/// for integers
fn generator<R: Num>(c: &mut Case) -> Res {
	let n = 1 + c.rng.below(10);
	let p = problem::<R>(&mut c.rng, n);
	let nb = 1 + c.rng.below(5);
	let schedule: Vec<R> = (0..nb)
		.map(|_| R::of(if R::INT { Q::int(c.rng.range(0, 3) as i128) } else { Q::new(c.rng.range(0, 200) as i128, 6) }))
		.collect();
	let sweeps = 1 + c.rng.below(4);
	let mut gen = Const::new(c.rng.f64().max(1.0e-6)).with_bytes(c.rng.u64());
	let u = gen.u();
	let model = p.dense::<R>();
	// no temperatures: the initial state
	let start = sample(&model, BetaType::Schedule(Vec::new()), sweeps, &mut gen.clone())?;
	c.desc = format!(
		"{} generator: {:?} from {} betas={:?} sweeps={} u={}",
		R::NAME,
		p.terms.iter().map(|(k, w)| (*k, w.f64())).collect::<Vec<_>>(),
		bits(&start),
		schedule,
		sweeps,
		u
	);
	let got = sample(&model, BetaType::Schedule(schedule.clone()), sweeps, &mut gen)?;
	let mut want = start.clone();
	let b: Vec<f64> = schedule.iter().map(|b| b.as_f64()).collect();
	let st = metropolis(&p, &mut want, &b, sweeps, u);
	ensure!(got == want, "the sample is {} instead of {}", bits(&got), bits(&want));
	c.saw("samples of the generator", 1);
	c.saw("raising flips made", st.raised);
	c.saw("raising flips refused", st.refused);
	if st.raised > 0 && st.refused > 0 {
		c.nontrivial(&c.desc.clone());
	}
	Ok(())
}

/// The distribution of many runs
fn ensemble<R: Num>(c: &mut Case) -> Res {
	let n = 1 + c.rng.below(3);
	let p = problem::<R>(&mut c.rng, n);
	let scale = p.terms.values().map(|w| w.f64().abs()).fold(0.0, f64::max).max(0.01);
	let runs = if c.thorough { 20_000 } else { 4_000 };
	let sweeps = 1 + c.rng.below(3);
	let free = c.rng.bool();
	let nb = 1 + c.rng.below(3);
	let betas: Vec<f64> = (0..nb).map(|_| (c.rng.f64() * 4.0 - 3.0).exp() / scale).collect();
	let start = c.rng.bits(n);
	let mut d = vec![0.0; 1 << n];
	let x0 = start.iter().enumerate().fold(0, |x, (i, b)| x | (*b as usize) << i);
	let model = p.dense::<R>();
	let mut counts = vec![0u64; 1 << n];
	c.desc = format!(
		"{} ensemble of {} runs: {:?} from {} betas={:?} sweeps={}",
		R::NAME,
		runs,
		p.terms.iter().map(|(k, w)| (*k, w.f64())).collect::<Vec<_>>(),
		if free { String::from("random states") } else { bits(&start) },
		betas,
		sweeps
	);
	let index = |s: &BinaryRepr| (0..n).fold(0, |x, i| x | (s.get(i) as usize) << i);
	let mut rng = c.rng.clone();
	if free && !R::INT {
		d.iter_mut().for_each(|p| *p = 1.0 / (1 << n) as f64);
		let mut g = SimulatedAnnealerGenerator::new();
		g.sweeps_per_round = sweeps;
		g.beta = BetaType::Schedule(betas.iter().map(|b| R::from_f64(*b)).collect());
		let s = g.generate(&model).map_err(|e| e.to_string())?;
		for _ in 0..runs {
			let v = s.solve_with_rng(&mut rng).map_err(|e| e.to_string())?;
			counts[index(&v[0].state)] += 1;
		}
	} else {
		d[x0] = 1.0;
		for _ in 0..runs {
			let mut state = BinaryRepr::from_vec(&start);
			simulated_annealing(&mut rng, &mut state, &betas, sweeps, &model);
			counts[index(&state)] += 1;
		}
	}
	let d = distribution(&p, &d, &betas, sweeps);
	for x in 0..1 << n {
		let mean = d[x] * runs as f64;
		let dev = (counts[x] as f64 - mean).abs();
		ensure!(
			dev <= deviation(runs as f64, d[x].min(1.0)) + 1.0e-5 * runs as f64,
			"state {:b} was sampled {} times of {}, its probability is {:.4}",
			x, counts[x], runs, d[x]
		);
	}
	c.saw("samples of ensembles", runs as u64);
	c.saw("states of ensembles", d.iter().filter(|p| **p > 0.01).count() as u64);
	if d.iter().filter(|p| **p > 0.05).count() > 1 {
		c.nontrivial(&c.desc.clone());
		c.sample = Some(format!("{} -> {:?}, expected {:?}", c.desc, counts, d));
	}
	Ok(())
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C11",
			quick: 180_000,
			thorough: 9_000_000,
			rule: "random quadratic models (dense, sparse and high-order storage; sizes 0 to 150, some to 600; i8 to i128, f32, f64; all signs and densities; dyadic weights, so energies are exact) annealed from given states with random schedules and one constant draw u per run (also just beside the probability of a flip); the final state is compared with a reference that recomputes each energy change from scratch; the same through the generator; plus ensembles of thousands of runs on up to three variables against the exact distribution of the process (alarm probability below 1e-12 per comparison). Non-trivial: raising flips were both made and refused, or several states were likely; distinct by model, schedule and draw",
			workers: 0,
			need: &[
				"raising flips made",
				"raising flips refused",
				"flips without change of energy",
				"draws within a millionth of it",
				"trajectories of thousands of flips",
				"trajectories of hundreds of nodes",
				"samples of the generator",
				"samples of ensembles",
			],
		},
		|c| {
			let t = c.rng.below(8);
			match c.idx % 50 {
				0 => match t {
					0 | 1 => ensemble::<i32>(c),
					2 => ensemble::<i64>(c),
					3 => ensemble::<f32>(c),
					_ => ensemble::<f64>(c),
				},
				1..=9 => match t {
					0 | 1 => generator::<i32>(c),
					2 => generator::<i64>(c),
					3 => generator::<f32>(c),
					4 => generator::<i8>(c),
					_ => generator::<f64>(c),
				},
				_ => match t {
					0 | 1 => trajectory::<i32>(c),
					2 => trajectory::<i64>(c),
					3 => trajectory::<f32>(c),
					4 => trajectory::<i8>(c),
					5 => trajectory::<i128>(c),
					_ => trajectory::<f64>(c),
				},
			}
		},
	)
}
