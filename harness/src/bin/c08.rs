//! C08: constraint weights are shared out and move to violated constraints
use std::collections::BTreeSet;
use vh::ast::*;
use vh::ensure;
use vh::num::*;
use vh::probe::*;
use vh::run::*;
use vh::search::*;

struct Plan0 {
	/// (label, variable, factor): con[label](factor * x)
	cons: Vec<(usize, usize, i128)>,
	labels: usize,
	vars: usize,
}

fn check<R: Num, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let labels = 1 + c.rng.below(6);
	let small = R::BITS < 16;
	let mut pl = Plan0 { cons: Vec::new(), labels, vars: 0 };
	for l in 0..labels {
		for k in 0..1 + if c.rng.chance(1, 4) { c.rng.below(2) } else { 0 } {
			let f = if k == 0 || small { 1 } else { *c.rng.pick(&[1, 2, 3]) };
			pl.cons.push((l, pl.vars, f));
			pl.vars += 1;
		}
	}
	c.rng.shuffle(&mut pl.cons);
	// where the constraints stand in the expression does not matter
	let mut terms: Vec<Ast> = pl
		.cons
		.iter()
		.map(|(l, v, f)| con(*l, if *f == 1 { bin(*v) } else { mul(num(*f), bin(*v)) }))
		.collect();
	let mut objective = Vec::new();
	let first_other = pl.vars;
	for i in 0..c.rng.below(3) {
		objective.push(mul(num(c.rng.range(-2, 2) as i128), bin(first_other + i)));
	}
	// a product of high degree: auxiliary variables with conditions of their own
	if !small && c.rng.chance(1, 4) {
		let v: Vec<Ast> = (0..3).map(|i| bin(first_other + i)).collect();
		objective.push(mul(num(c.rng.range(1, 2) as i128), product(v)));
	}
	// A ladder makes the energy fall in hundreds of generations in a row.
	let ladder = R::BITS >= 24 && c.rng.chance(1, 60);
	let strength: Q = if small {
		Q::int(c.rng.range(labels as i64, 40) as i128)
	} else if ladder && R::INT {
		Q::int(c.rng.range(100_000, 200_000) as i128)
	} else if R::INT {
		Q::int(match c.rng.below(4) {
			0 => c.rng.range(labels as i64, 60) as i128,
			1 => 50,
			_ => c.rng.range(1_000, 2_000_000) as i128,
		})
	} else {
		Q::new(c.rng.range(1, 4000) as i128, c.rng.below(8) as u32)
	};
	let first_rung = first_other + 3;
	let rungs = if ladder { 6 + c.rng.below(3) } else { 0 };
	for k in 0..rungs {
		objective.push(mul(Ast::Num(Q::int(-16 << k) * strength), bin(first_rung + k)));
	}
	let mut ast = match c.rng.below(4) {
		0 => {
			let last = terms.pop().unwrap();
			if terms.is_empty() { last } else { pen(sum(terms), last) }
		}
		1 => mul(sum(terms), num(1)),
		_ => sum(terms),
	};
	if !objective.is_empty() {
		ast = if c.rng.bool() { add(sum(objective), ast) } else { add(ast, sum(objective)) };
	}
	let mut iterations = 1 + c.rng.below(4);
	let mut generations = 1 + c.rng.below(if c.thorough { 20 } else { 10 });
	let mut samples = 1 + c.rng.below(2);
	if c.rng.chance(1, 25) {
		// one of them is large
		let n = 10 + c.rng.below(90);
		*[&mut iterations, &mut generations, &mut samples][c.rng.below(3)] = n;
		c.saw("searches of many samples, iterations or generations", 1);
	}
	if ladder {
		iterations = 1 + c.rng.below(2);
		samples = 1;
		generations = (1 << rungs) - c.rng.below(8);
		c.saw("searches of hundreds of improvements", 1);
	}
	let always = c.rng.below(pl.cons.len());
	let (vars, ls) = (ast.vars(), ast.labels());
	c.desc = format!(
		"{}: {} strength={} iterations={} generations={} samples={}",
		R::NAME, ast, strength, iterations, generations, samples
	);
	let pl_cons = pl.cons.clone();
	let stop_late = c.rng.chance(1, 5);
	let mut rng = c.rng.clone();
	let seen = probe(ast.expr::<u32, Tq, Tc, R>(), dict(&[], |_| true), dict(&[], |_| true), |s, inner| {
		s.coeff_strength = R::of(strength);
		let l = learn(s, inner, &vars)?;
		s.iterations = iterations;
		s.generations = generations;
		s.samples = samples;
		let map = l.map.clone();
		let cons = pl_cons.clone();
		let mut mood = 0;
		let p = play(s, inner, &vars, &ls, move |call, cap| {
			if rng.chance(1, 5) {
				mood = rng.below(4);
			}
			let mut st = rng.bits(cap.n);
			match mood {
				0 => (),
				// few violated
				1 => {
					for (_, v, _) in &cons {
						st[map[v]] = false;
					}
					let k = rng.below(cons.len());
					st[map[&cons[k].1]] = true;
				}
				// nearly all
				2 => {
					for (_, v, _) in &cons {
						st[map[v]] = true;
					}
					let k = rng.below(cons.len());
					st[map[&cons[k].1]] = false;
				}
				_ => {
					let k = rng.below(cons.len());
					st[map[&cons[k].1]] = true;
				}
			}
			if !stop_late && cons.iter().all(|(_, v, _)| !st[map[v]]) {
				st[map[&cons[0].1]] = true;
			}
			if ladder {
				let t = call % generations;
				for k in 0..rungs {
					st[map[&(first_rung + k)]] = t >> k & 1 == 1;
				}
				// the same label over and over
				st[map[&cons[always].1]] = true;
			}
			Ok(Ok(vec![st]))
		});
		if let Err(e) = &p.result {
			return Err(format!("error {} of a search whose annealers do not fail", e));
		}
		let e = expect(&p, &ast, &l, samples, iterations, generations)?;
		ensure!(
			p.generates() == e.rounds.len() * samples,
			"{} annealers are generated, {} rounds of {} samples are expected",
			p.generates(),
			e.rounds.len(),
			samples
		);
		let tol = if R::BITS == 24 { 1.0e-5 } else { 1.0e-9 };
		// weights of each round
		let mut shares: Vec<Vec<Q>> = Vec::new();
		let st = strength.f64();
		for r in 0..e.rounds.len() {
			let cap = &p.caps[r * samples];
			let mut w: Vec<Option<Q>> = vec![None; pl.labels];
			for (label, v, f) in &pl.cons {
				let d = cap.at(l.map[v], l.map[v]).q();
				let this = match w[*label] {
					None => {
						// the first one has the factor one, unless shuffled
						let per = pl.cons.iter().find(|(k, _, g)| k == label && *g == 1).unwrap();
						let q = cap.at(l.map[&per.1], l.map[&per.1]).q();
						w[*label] = Some(q);
						q
					}
					Some(q) => q,
				};
				let want = this * Q::int(*f);
				ensure!(
					(want - d).f64().abs() <= if R::INT { 0.0 } else { tol * st },
					"round {}: constraints with the label {} have different weights {} and {}/{}",
					r, label, this, d, f
				);
				if pl.cons.iter().filter(|(k, _, _)| k == label).count() > 1 {
					c.saw("weights of shared labels compared", 1);
				}
			}
			let w: Vec<Q> = w.into_iter().map(|q| q.unwrap()).collect();
			let total: f64 = w.iter().map(|q| q.f64()).sum();
			ensure!(w.iter().all(|q| *q >= Q::ZERO), "round {}: a negative weight in {:?}", r, show(&w));
			ensure!(
				(total - st).abs() <= if R::INT { pl.labels as f64 } else { tol * st },
				"round {}: the weights {:?} add up to {} instead of {}",
				r, show(&w), total, st
			);
			c.saw("rounds", 1);
			if r % generations == 0 {
				let (a, b) = (w.iter().min().unwrap().f64(), w.iter().max().unwrap().f64());
				ensure!(
					b - a <= if R::INT { 1.0 } else { tol * st },
					"the weights {:?} are not equal at the beginning of iteration {}",
					show(&w), r / generations
				);
				c.saw("iterations", 1);
			} else {
				let prev = &shares[r - 1];
				let round = &e.rounds[r - 1];
				if round.improved {
					// a weight that small cannot show the change
					let lowest = prev.iter().chain(&w).map(|q| q.f64()).fold(f64::MAX, f64::min);
					let visible = !R::INT || lowest > 1000.0 * (pl.labels * if ladder { 20 } else { 1 }) as f64;
					for v in &round.violated {
						for s in 0..pl.labels {
							if round.violated.contains(&s) || !visible {
								continue;
							}
							let (a, b) = (w[*v].f64() * prev[s].f64(), prev[*v].f64() * w[s].f64());
							ensure!(
								a > b * (1.0 + if R::BITS == 24 { 1.0e-4 } else if R::INT { 1.0e-6 } else { 1.0e-8 }),
								"round {}: label {} was violated and label {} satisfied, but their weights went from {} : {} to {} : {}",
								r - 1, v, s, prev[*v], prev[s], w[*v], w[s]
							);
							c.saw("weights that moved to a violated constraint", 1);
						}
					}
				} else {
					let same = prev.iter().zip(&w).all(|(a, b)| (*a - *b).f64().abs() <= if R::INT { 0.0 } else { tol * st });
					ensure!(
						same,
						"round {} did not improve the energy, but the weights went from {:?} to {:?}",
						r - 1, show(prev), show(&w)
					);
					c.saw("weights unchanged after no improvement", 1);
				}
			}
			shares.push(w);
		}
		let distinct: BTreeSet<Vec<Q>> = shares.iter().cloned().collect();
		Ok(distinct.len())
	})?;
	c.saw("distinct weights", seen as u64);
	if seen >= 2 {
		c.nontrivial(&c.desc.clone());
		c.sample = Some(format!("{} -> {} different sets of weights", c.desc, seen));
	}
	Ok(())
}

fn show(w: &[Q]) -> Vec<f64> {
	w.iter().map(|q| q.f64()).collect()
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C08",
			quick: 80_000,
			thorough: 8_000_000,
			rule: "expressions with up to six constraint labels (labels shared by several constraints, constraints in penalties and products, objectives and auxiliary variables beside them) searched for up to 4 iterations of up to 10 (thorough: 20) generations; the annealers answer with random, mostly violating states; the weight of each label is read from the problems handed to the annealers and followed through the history. Non-trivial: at least two different sets of weights appeared; distinct by expression and settings",
			workers: 0,
			need: &[
				"searches of many samples, iterations or generations",
				"searches of hundreds of improvements",
				"rounds",
				"iterations",
				"weights of shared labels compared",
				"weights that moved to a violated constraint",
				"weights unchanged after no improvement",
			],
		},
		|c| match c.rng.below(6) {
			0 => check::<i32, String, &'static str>(c),
			1 => check::<i64, u32, String>(c),
			2 => check::<i8, u32, u32>(c),
			3 => check::<f32, Mixed, (usize, i8)>(c),
			4 => check::<i16, char, Mixed>(c),
			_ => check::<f64, &'static str, u8>(c),
		},
	)
}
