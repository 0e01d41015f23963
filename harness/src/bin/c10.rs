//! C10: the search respects its budgets and reports failures
use std::collections::BTreeSet;
use vh::ast::*;
use vh::ensure;
use vh::num::*;
use vh::probe::*;
use vh::run::*;
use vh::search::*;

fn check<R: Num, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let tiny = R::BITS < 20;
	let strength = Q::int(if tiny { 6 } else { c.rng.range(4, 3000) as i128 });
	let w = vec![strength; 5];
	let with_constraints = c.rng.chance(4, 5);
	let ast = if with_constraints {
		constrained::<R>(&mut c.rng, &w, if tiny { 2 } else { 4 })
	} else {
		let g = settings::<R>(&mut c.rng, 3);
		let g = Gen { labels: 0, ..g };
		fitting::<R>(&mut c.rng, &[], &w, 3, 4, |r| g.tree(r, 8, 2, true))
	};
	let (mut iterations, mut generations, mut samples) =
		(1 + c.rng.below(5), 1 + c.rng.below(8), 1 + c.rng.below(6));
	if c.rng.chance(1, 12) {
		match c.rng.below(3) {
			0 => (iterations, generations, samples) = (1 + c.rng.below(60), 1, 1 + c.rng.below(2)),
			1 => (iterations, generations, samples) = (1, 1 + c.rng.below(60), 1 + c.rng.below(2)),
			_ => (iterations, generations, samples) = (1 + c.rng.below(2), 1 + c.rng.below(2), 1 + c.rng.below(60)),
		}
	}
	let endless = c.idx % 3_000 == 77 && !tiny;
	if endless {
		let n = *c.rng.pick(&[250, 1000, 32_750, 65_530, 65_530]) + c.rng.below(60);
		(iterations, generations, samples) = match c.rng.below(3) {
			0 => (n, 1, 1),
			1 => (1, n, 1),
			_ => (1, 1 + c.rng.below(2), n),
		};
		c.saw("searches with settings up to 65000", 1);
	}
	let (vars, ls) = (ast.vars(), ast.labels());
	c.desc = format!(
		"{}: {} strength={} iterations={} generations={} samples={}",
		R::NAME, ast, strength, iterations, generations, samples
	);
	let mut rng = c.rng.clone();
	// in which round something fails, and what
	let all = iterations * generations * samples;
	let fail_at = match if endless && rng.chance(4, 5) { 0 } else { rng.below(3) } {
		0 => None,
		1 => Some(rng.below(all.min(12))),
		_ => Some(rng.below(all)),
	};
	let fail_more = rng.bool();
	let avoid = if endless { 500 } else { rng.below(5) * 8 };
	let ones = vec![Q::ONE; 5];
	let judge = ast.clone();
	let threads = if c.idx % 8 == 3 { 2 + c.rng.below(6) } else { 1 };
	c.desc += &format!(" failure={:?} threads={}", fail_at, threads);
	probe(ast.expr::<u32, Tq, Tc, R>(), dict(&[], |_| true), dict(&[], |_| true), |s, inner| {
		s.coeff_strength = R::of(strength);
		let l = learn(s, inner, &vars)?;
		s.iterations = iterations;
		s.generations = generations;
		s.samples = samples;
		let map = l.map.clone();
		let script = move |call: usize, cap: &Cap<R>| {
			if let Some(f) = fail_at {
				let here = call == f || (fail_more && call > f && rng.bool());
				if here {
					let e = ProbeError(1000 + call as u64);
					return if rng.bool() { Err(e) } else { Ok(Err(e)) };
				}
			}
			let mut st = rng.bits(cap.n);
			for _ in 0..avoid {
				if !judge.violated(&At { x: assign(&map, &st), ph: &[], w: &ones }).is_empty() {
					break;
				}
				st = rng.bits(cap.n);
			}
			let mut v = vec![st];
			if rng.chance(1, 10) {
				v.push(rng.bits(cap.n));
			}
			Ok(Ok(v))
		};
		// the budgets do not depend on the number of threads
		let p = match threads {
			1 => play(s, inner, &vars, &ls, script),
			n => {
				let (s, inner, vars, ls) = (&*s, &*inner, &vars, &ls);
				c.saw("searches in pools of several threads", 1);
				in_pool(n, move || play(s, inner, vars, ls, script))
			}
		};
		let e = expect(&p, &ast, &l, samples, iterations, generations)?;
		let full = e.rounds.len();
		let runs = p.runs();
		ensure!(
			runs.keys().all(|k| matches!(p.plans.get(k), Some(Ok(_)))),
			"an annealer ran which was not generated"
		);
		c.saw("searches", 1);
		match &e.end {
			End::Solution(_) => {
				if let Err(e) = &p.result {
					return Err(format!("error {} of a search in which nothing failed so far", e));
				}
				ensure!(
					p.generates() == full * samples,
					"{} annealers are generated instead of {} = {} rounds x {} samples (best samples violate {:?})",
					p.generates(),
					full * samples,
					full,
					samples,
					e.rounds.iter().map(|r| r.violated.len()).collect::<Vec<_>>()
				);
				for k in 0..full * samples {
					ensure!(
						runs.get(&k) == Some(&1),
						"annealer {} of {} runs {} times",
						k,
						full * samples,
						runs.get(&k).copied().unwrap_or(0)
					);
				}
				if full == iterations * generations && !e.rounds[full - 1].violated.is_empty() {
					c.saw("searches that used the whole budget", 1);
				} else {
					c.saw("searches that stopped at a satisfying solution", 1);
				}
			}
			End::Error(may) => {
				match &p.result {
					Ok(_) => {
						return Err(format!(
							"a solution is returned although an annealer of round {} failed",
							full
						))
					}
					Err(got) => ensure!(
						may.contains(got),
						"error {} is returned, the failures were {:?}",
						got, may
					),
				}
				let most = (full + 1) * samples;
				ensure!(
					p.generates() <= most,
					"{} annealers are generated, although round {} (of {} samples) failed",
					p.generates(), full, samples
				);
				for k in 0..full * samples {
					ensure!(runs.get(&k) == Some(&1), "annealer {} does not run exactly once", k);
				}
				ensure!(
					runs.values().all(|n| *n == 1),
					"an annealer of the failed round runs more than once"
				);
				c.saw("failures reported", 1);
				if full > 0 {
					c.saw("failures in a later round", 1);
				}
				if e.last < samples || matches!(p.plans.values().last(), Some(Err(_))) {
					c.saw("failures to generate an annealer", 1);
				} else {
					c.saw("failures of a run", 1);
				}
			}
		}
		c.saw("rounds", full as u64);
		c.saw("runs", runs.len() as u64);
		// the numbers the solvers drew
		let draws: BTreeSet<u64> = p
			.events
			.iter()
			.filter_map(|e| match e {
				Event::Run(_, d) => Some(*d),
				_ => None,
			})
			.collect();
		c.saw("distinct draws", draws.len() as u64);
		if full >= 1 && (full > 1 || samples > 1 || fail_at.is_some()) {
			c.nontrivial(&c.desc.clone());
			c.sample = Some(format!("{} -> {} rounds, {} runs", c.desc, full, runs.len()));
		}
		Ok(())
	})
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C10",
			quick: 120_000,
			thorough: 12_000_000,
			rule: "random problems with and without constraints, settings from 1 to 60, annealers that fail to be generated or to run at any point of the search (also several); every generate call and run is logged and counted against the reference of the search loop, the returned error against the injected ones. Non-trivial: more than one round or sample, or a failure; distinct by expression and settings",
			workers: 0,
			need: &[
				"searches with settings up to 65000",
				"searches in pools of several threads",
				"searches that used the whole budget",
				"searches that stopped at a satisfying solution",
				"failures to generate an annealer",
				"failures of a run",
				"failures in a later round",
			],
		},
		|c| match c.rng.below(8) {
			0 | 1 => check::<i32, String, &'static str>(c),
			2 => check::<i64, u32, String>(c),
			3 => check::<i128, u32, u32>(c),
			4 => check::<f32, Mixed, (usize, i8)>(c),
			5 => check::<i16, char, Mixed>(c),
			_ => check::<f64, &'static str, u8>(c),
		},
	)
}
