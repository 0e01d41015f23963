//! C09: the best sample is kept, and a satisfying solution is returned
use vh::ast::*;
use vh::ensure;
use vh::num::*;
use vh::prng::Prng;
use vh::probe::*;
use vh::run::*;
use vh::search::*;

pub fn state(r: &mut Prng, n: usize, old: &[Vec<bool>]) -> Vec<bool> {
	match r.below(6) {
		0 if !old.is_empty() => r.pick(old).clone(),
		1 if !old.is_empty() && n > 0 => {
			let mut s = r.pick(old).clone();
			let i = r.below(n);
			s[i] = !s[i];
			s
		}
		_ => r.bits(n),
	}
}

/// Samples whose energy is the greatest number of the type
fn limits<R: Num, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let strength = c.rng.range(1, 3);
	let (iterations, generations) = (1 + c.rng.below(3), 1 + c.rng.below(4));
	let ast = add(
		mul(Ast::Num(R::MAX.q()), bin(0)),
		con(0, sub(bin(1), num(2))),
	);
	let (vars, ls) = (ast.vars(), ast.labels());
	let below = c.rng.below(4);
	c.desc = format!(
		"{}: {} strength={} iterations={} generations={} never better={}",
		R::NAME, ast, strength, iterations, generations, below == 0
	);
	let mut rng = c.rng.clone();
	probe(ast.expr::<u32, Tq, Tc, R>(), dict(&[], |_| true), dict(&[], |_| true), |s, inner| {
		s.coeff_strength = R::from_i32(strength as i32);
		let l = learn(s, inner, &vars)?;
		s.iterations = iterations;
		s.generations = generations;
		s.samples = 1;
		let map = l.map.clone();
		let p = play(s, inner, &vars, &ls, move |_, cap| {
			let mut st = vec![false; cap.n];
			st[map[&0]] = below == 0 || rng.chance(3, 4);
			Ok(Ok(vec![st]))
		});
		let shot = match &p.result {
			Ok(s) => s,
			Err(e) => return Err(format!("error {} of a search whose annealers do not fail", e)),
		};
		let e = expect(&p, &ast, &l, 1, iterations, generations)?;
		let r = match e.end {
			End::Solution(r) => r,
			End::Error(_) => return Err(String::from("harness: no error was scripted")),
		};
		ensure!(p.generates() == iterations * generations, "{} rounds", p.generates());
		let x = assign(&l.map, &e.rounds[r].best);
		let got = shot.values.iter().fold(0, |x, (v, b)| x | (*b as u64) << v);
		ensure!(got == x, "the solution has x = {:b}, the expected one (round {}) has {:b}", got, r, x);
		ensure!(
			shot.own.map(|o| o.q()) == Some(e.rounds[r].energy),
			"the solution has energy {:?}, the expected one {}",
			shot.own.map(|o| o.q()), e.rounds[r].energy
		);
		ensure!(shot.violated == vec![0], "violated constraints {:?}", shot.violated);
		if e.rounds[r].energy == R::MAX.q() {
			c.saw("solutions with the greatest energy of the type", 1);
		}
		Ok(())
	})
}

fn check<R: Num, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let tiny = R::BITS < 20;
	let strength = Q::int(if tiny { 6 } else { c.rng.range(4, 3000) as i128 });
	let w = vec![strength; 5];
	let mut ast = constrained::<R>(&mut c.rng, &w, if tiny { 2 } else { 4 });
	if R::INT && R::BITS > 60 && c.rng.chance(1, 3) {
		// energies which differ by less than an f64 could tell
		let big = Q::int((1i128 << (R::BITS - 5)) * if c.rng.bool() { 1 } else { -1 });
		ast = add(ast, if c.rng.bool() { Ast::Num(big) } else { mul(Ast::Num(big), bin(0)) });
		c.saw("problems with giant energies", 1);
	}
	let mut iterations = 1 + c.rng.below(4);
	let mut generations = 1 + c.rng.below(if c.thorough { 16 } else { 8 });
	let mut samples = 1 + c.rng.below(6);
	if c.rng.chance(1, 25) {
		// one of them is large
		let n = if c.rng.chance(1, 20) { 100 + c.rng.below(1200) } else { 10 + c.rng.below(90) };
		*[&mut iterations, &mut generations, &mut samples][c.rng.below(3)] = n;
		c.saw("searches of many samples, iterations or generations", 1);
	}
	let (vars, ls) = (ast.vars(), ast.labels());
	c.desc = format!(
		"{}: {} strength={} iterations={} generations={} samples={}",
		R::NAME, ast, strength, iterations, generations, samples
	);
	let mut rng = c.rng.clone();
	let avoid = rng.below(4);
	// one run that answers with many samples
	let crowd = if rng.chance(1, 60) { Some(rng.below(samples)) } else { None };
	if crowd.is_some() {
		c.saw("runs of hundreds of samples", 1);
	}
	let ones = vec![Q::ONE; 5];
	let judge = ast.clone();
	probe(ast.expr::<u32, Tq, Tc, R>(), dict(&[], |_| true), dict(&[], |_| true), |s, inner| {
		s.coeff_strength = R::of(strength);
		let l = learn(s, inner, &vars)?;
		s.iterations = iterations;
		s.generations = generations;
		s.samples = samples;
		let map = l.map.clone();
		let mut old: Vec<Vec<bool>> = Vec::new();
		let p = play(s, inner, &vars, &ls, move |call, cap| {
			let k = match rng.below(8) {
				// at least one sample in each round
				0 if call % samples != samples / 2 => 0,
				1 => 2,
				2 => 3,
				_ => 1,
			};
			let mut v = Vec::new();
			for _ in 0..k {
				let mut st = state(&mut rng, cap.n, &old);
				// long histories need samples that violate a constraint
				for _ in 0..8 * avoid {
					if !judge.violated(&At { x: assign(&map, &st), ph: &[], w: &ones }).is_empty() {
						break;
					}
					st = state(&mut rng, cap.n, &old);
				}
				v.push(st);
			}
			old.extend(v.iter().cloned());
			if crowd == Some(call) {
				let st = state(&mut rng, cap.n, &old);
				let k = 100 + rng.below(3000);
				let mut all = vec![st; k];
				all.append(&mut v);
				let at = rng.below(all.len());
				all[at..].rotate_right(1);
				v = all;
			}
			if old.len() > 20 {
				old.drain(..10);
			}
			Ok(Ok(v))
		});
		let shot = match &p.result {
			Ok(s) => s,
			Err(e) => return Err(format!("error {} of a search whose annealers do not fail", e)),
		};
		let e = expect(&p, &ast, &l, samples, iterations, generations)?;
		let r = match e.end {
			End::Solution(r) => r,
			End::Error(_) => return Err(String::from("harness: no error was scripted")),
		};
		let rounds = p.generates() / samples;
		ensure!(
			rounds == e.rounds.len(),
			"{} rounds, but {} are expected: {}",
			rounds,
			e.rounds.len(),
			story(&e)
		);
		let x = assign(&l.map, &e.rounds[r].best);
		let got = shot.values.iter().fold(0, |x, (v, b)| x | (*b as u64) << v);
		ensure!(
			got == x && shot.values.len() == vars.len(),
			"the solution has x = {:b}, the expected one (round {}) has {:b}: {}",
			got, r, x, story(&e)
		);
		let own = match shot.own {
			Some(o) => o.q(),
			None => return Err(String::from("the solution has no energy")),
		};
		let tol = tolerance(&p.caps[r * samples]);
		ensure!(
			(own - e.rounds[r].energy).f64().abs() <= tol,
			"the solution has energy {}, the expected one (round {}) has {}: {}",
			own, r, e.rounds[r].energy, story(&e)
		);
		let viol: Vec<usize> = e.rounds[r].violated.iter().copied().collect();
		let mut got = shot.violated.clone();
		got.dedup();
		ensure!(
			got == viol && !shot.unknown_label,
			"violated constraints {:?} instead of {:?}: {}",
			got, viol, story(&e)
		);
		c.saw("searches", 1);
		c.saw("rounds", rounds as u64);
		let total: usize = p
			.plans
			.values()
			.map(|p| match p {
				Ok(Ok(v)) => v.len(),
				_ => 0,
			})
			.sum();
		c.saw("samples", total as u64);
		if viol.is_empty() {
			c.saw("satisfying solutions returned", 1);
			if e.rounds[..r].iter().any(|o| o.energy < e.rounds[r].energy) {
				c.saw("satisfying solutions of higher energy than an earlier round", 1);
			}
		} else {
			c.saw("violating solutions returned", 1);
			if r + 1 < e.rounds.len() {
				c.saw("solutions of an earlier round returned", 1);
			}
		}
		c.saw("rounds that did not improve", e.rounds.iter().filter(|r| !r.improved).count() as u64);
		if rounds >= 2 && total > rounds {
			c.nontrivial(&c.desc.clone());
			c.sample = Some(format!("{} -> round {} of {} is returned", c.desc, r, rounds));
		}
		Ok(())
	})
}

fn story(e: &Expected) -> String {
	let v: Vec<String> = e
		.rounds
		.iter()
		.map(|r| format!("{}{} violates {:?}", r.energy, if r.improved { " (improved)" } else { "" }, r.violated))
		.collect();
	format!("best samples of the rounds: {}", v.join("; "))
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C09",
			quick: 80_000,
			thorough: 8_000_000,
			rule: "random constrained problems searched for up to 4 iterations of up to 8 (thorough: 16) generations with up to 6 annealers of up to 3 samples (random, repeated and neighbouring states; some annealers return none); a reference of the search loop over the recorded problems and samples says which one must be returned. Cases in which different states share the lowest energy are discarded. Non-trivial: at least two rounds and more samples than rounds; distinct by expression and settings",
			workers: 0,
			need: &[
				"runs of hundreds of samples",
				"searches of many samples, iterations or generations",
				"satisfying solutions returned",
				"satisfying solutions of higher energy than an earlier round",
				"violating solutions returned",
				"solutions of an earlier round returned",
				"rounds that did not improve",
				"problems with giant energies",
				"solutions with the greatest energy of the type",
			],
		},
		|c| match c.rng.below(8) {
			_ if c.idx % 100 == 50 => match c.rng.below(6) {
				0 => limits::<i16, u8, String>(c),
				1 => limits::<i32, String, u8>(c),
				2 => limits::<i64, Mixed, char>(c),
				3 => limits::<i128, char, Mixed>(c),
				4 => limits::<f32, u32, u32>(c),
				_ => limits::<f64, &'static str, u32>(c),
			},
			0 | 1 => check::<i32, String, &'static str>(c),
			2 => check::<i64, u32, String>(c),
			3 => check::<i128, u32, u32>(c),
			4 => check::<f32, Mixed, (usize, i8)>(c),
			5 => check::<i16, char, Mixed>(c),
			_ => check::<f64, &'static str, u8>(c),
		},
	)
}
