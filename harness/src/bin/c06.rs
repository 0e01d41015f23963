//! C06: reported energy and local fields belong to the reported solution
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use vh::ast::*;
use vh::num::*;
use vh::probe::*;
use vh::run::*;
use vh::wide;
use vh::{ensure, with_types};

/// Checks everything reported in one solution against the problem `cap` and the state.
macro_rules! consistent {
	($c:expr, $cap:expr, $st:expr, $offset:expr, $energy:expr, $view:expr, $vars:expr, $map:expr, $lab:ty) => {{
		let e = $cap.energy(&$st);
		ensure!(
			$energy.q() == e + $offset,
			"energy {} is returned, the state {:?} has {} plus the constant {}",
			$energy, $st, e, $offset
		);
		match $view.energy() {
			None => return Err(String::from("the solution has no energy")),
			Some(o) => ensure!(
				o.q() == e,
				"the solution's own energy is {}, the state {:?} has {}",
				o, $st, e
			),
		}
		for v in $vars.iter() {
			let i = $map[v];
			ensure!(
				$view.get(&<$lab>::mk(*v)) == Some($st[i]),
				"variable x{} has the value {:?} in a solution with the state {:?}",
				v, $view.get(&<$lab>::mk(*v)), $st
			);
			let mut flipped = $st.clone();
			flipped[i] = !flipped[i];
			let d = $cap.energy(&flipped) - e;
			match $view.local_field(&<$lab>::mk(*v)) {
				None => return Err(String::from("the solution has no local fields")),
				Some(f) => ensure!(
					f.q() == d,
					"local field {} of x{}, flipping it changes the energy by {} (state {:?})",
					f, v, d, $st
				),
			}
			$c.saw("local fields compared", 1);
			if !d.is_zero() {
				$c.saw("local fields that are not zero", 1);
			}
		}
		$c.saw("solutions compared", 1);
	}};
}

fn check<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let w = vec![Q::int(c.rng.range(1, 2) as i128); 4];
	let g = settings::<R>(&mut c.rng, 3);
	let ast = fitting::<R>(&mut c.rng, &[], &w, 5, 5, |r| {
		let size = 2 + r.below(18);
		let deg = 1 + r.below(3) as u32;
		let mut ast = add(g.tree(r, size, deg, true), g.number(r));
		// products of several variables, which need auxiliary variables
		for _ in 0..r.below(3) {
			let n = 3 + r.below(2);
			let mut p = g.number(r);
			for _ in 0..n {
				let v = r.below(g.vars);
				p = mul(p, if r.chance(1, 4) { spin(v) } else { bin(v) });
			}
			ast = add(ast, p);
		}
		ast
	});
	let (vars, labels) = (ast.vars(), ast.labels());
	c.desc = format!("{}: {}", R::NAME, ast);
	let zero_at = ast.clone();
	probe(ast.expr::<Tp, Tq, Tc, R>(), dict(&[], |_| true), dict(&[], |_| true), |s, inner| {
		s.coeff_strength = strength(labels.len(), w[0]);
		let l = learn(s, inner, &vars)?;
		// the constant part, without auxiliary variables it is the value at zero
		if l.anc.is_empty() {
			let want = {
				let at = At { x: 0, ph: &[], w: &w };
				zero_at.energy(&at)
			};
			let got = l.c;
			ensure!(got == want, "constant {} instead of {}", got, want);
		}
		let mut energies = BTreeSet::new();
		for k in 0..5 {
			// several samples, generations and iterations: the last generation that was kept counts
			let single = labels.is_empty() || k < 3;
			s.samples = 1 + c.rng.below(4);
			s.iterations = if single { 1 } else { 1 + c.rng.below(2) };
			s.generations = 1;
			let samples = s.samples;
			let log: Arc<Mutex<Vec<Vec<bool>>>> = Arc::new(Mutex::new(Vec::new()));
			let g = log.clone();
			let mut rng = c.rng.clone();
			c.rng.u64();
			inner.set(move |_, cap| {
				let st = rng.bits(cap.n);
				g.lock().unwrap().push(st.clone());
				Ok(Ok(vec![st]))
			});
			let (energy, view, _) = s.solve_with_constraints().map_err(|e| e.to_string())?;
			let states = log.lock().unwrap().clone();
			let cap = inner.log.lock().unwrap().caps.last().cloned().unwrap();
			// the state of the last round which the solution shows
			let last = &states[states.len() - samples..];
			let fits = |st: &Vec<bool>| vars.iter().all(|v| view.get(&Tq::mk(*v)) == Some(st[l.map[v]]));
			let best = last.iter().map(|s| cap.energy(s)).min().unwrap();
			// (a tie of states with different auxiliary variables cannot be told apart: skipped)
			let mut cand: Vec<&Vec<bool>> = last.iter().filter(|s| fits(s) && cap.energy(s) == best).collect();
			cand.dedup();
			if cand.is_empty() {
				return Err(format!("the solution is none of the best samples {:?}", last));
			}
			if cand.len() == 1 {
				let st = cand[0].clone();
				consistent!(c, cap, st, l.c, energy, view, vars, l.map, Tq);
				energies.insert(energy.q());
			}
		}
		c.saw("auxiliary variables", l.anc.len() as u64);
		if energies.len() >= 2 {
			c.nontrivial(&c.desc.clone());
			c.sample = Some(format!("{} -> energies {:?}", c.desc, energies.iter().map(|e| e.f64()).collect::<Vec<_>>()));
		}
		Ok(())
	})?;
	// without constraints: solve()
	if ast.any(&|a| matches!(a, Ast::Con(..))) {
		return Ok(());
	}
	let compiled = ast.expr_unit::<Tq, R>().compile();
	let gen = ProbeGen::<R>::new();
	let inner = gen.0.clone();
	let mut s = rustqubo::solve::SimpleSolver::with_solver(&compiled, gen);
	vh::once!(s);
	let l = learn(&s, &inner, &vars)?;
	for _ in 0..2 {
		let st = c.rng.bits(l.cap.n);
		let st2 = st.clone();
		inner.set(move |_, _| Ok(Ok(vec![st2.clone()])));
		let (energy, view) = s.solve().map_err(|e| e.to_string())?;
		consistent!(c, l.cap, st, l.c, energy, view, vars, l.map, Tq);
		c.saw("solutions without constraints", 1);
	}
	Ok(())
}

/// Constraints with constant parts: the weights and the constant of each generation are read from
/// the problem which the annealer was given in it.
fn generations<R: Num, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	use vh::search::*;
	let r = &mut c.rng;
	let (n, extra) = (1 + r.below(4), 1 + r.below(3));
	// (integers beyond 2^53 as well)
	let big = match R::BITS {
		b if b < 31 => 40,
		_ if R::INT && R::BITS >= 63 && r.bool() => 1 << (50 + r.below(8)),
		_ => 900,
	};
	let strength = if R::BITS < 31 { 60 } else { r.range(10, 3000) };
	// constraint k is satisfied if x_k is one
	let factors: Vec<i64> = (0..n).map(|_| *r.pick(&[1, -1, 2, -3])).collect();
	let spins = r.bits(n);
	let mut terms = vec![num(r.range(-big, big) as i128)];
	for k in 0..n {
		let body = if spins[k] { sub(num(1), spin(k)) } else { sub(num(1), bin(k)) };
		terms.push(con(k, mul(num(factors[k] as i128), body)));
	}
	for i in n..n + extra {
		terms.push(mul(num(r.range(-big, big) as i128), bin(i)));
		if r.bool() {
			terms.push(mul(num(r.range(-big, big) as i128), mul(bin(i), bin(n))));
		}
	}
	let ast = sum(terms);
	let (iterations, generations, samples) = (1 + r.below(3), 1 + r.below(6), 1 + r.below(3));
	let keep = r.chance(3, 4);
	c.desc = format!(
		"{}: {} strength={} iterations={} generations={} samples={}",
		R::NAME, ast, strength, iterations, generations, samples
	);
	let (vars, labels) = (ast.vars(), ast.labels());
	let mut rng = c.rng.clone();
	probe(ast.expr::<u8, Tq, Tc, R>(), dict(&[], |_| true), dict(&[], |_| true), |s, inner| {
		s.coeff_strength = R::from_i32(strength as i32);
		let l = learn(s, inner, &vars)?;
		s.iterations = iterations;
		s.generations = generations;
		s.samples = samples;
		let map = l.map.clone();
		let p = play(s, inner, &vars, &labels, move |_, cap| {
			let mut st = rng.bits(cap.n);
			if keep {
				// never all satisfied
				st[map[&rng.below(n)]] = false;
			}
			Ok(Ok(vec![st]))
		});
		let e = expect(&p, &ast, &l, samples, iterations, generations)?;
		let round = match e.end {
			End::Solution(r) => r,
			End::Error(_) => return Ok(()),
		};
		let shot = match &p.result {
			Ok(s) => s,
			Err(e) => return Err(e.to_string()),
		};
		let cap = &p.caps[round * samples];
		// linear weight of x_k: -factor (binary) or -2 factor (spin) times the weight
		let own = e.rounds[round].energy;
		let mut exact = ast.energy(&At { x: 0, ph: &[], w: &vec![Q::ZERO; n] });
		let mut constant = exact.f64();
		let mut scale = constant.abs();
		for k in 0..n {
			let i = l.map[&k];
			if R::INT {
				exact = exact - cap.at(i, i).q();
			}
			let by = -cap.at(i, i).as_f64();
			constant += by;
			scale += by.abs();
		}
		let want = own.f64() + constant;
		scale += cap.w.iter().map(|w| w.as_f64().abs()).sum::<f64>();
		let tol = if R::INT { 0.0 } else { scale * (8.0 - R::BITS as f64).exp2() };
		let near = |got: R, exact: Q, want: f64| match R::INT {
			true => got.q() == exact,
			false => (got.as_f64() - want).abs() <= tol,
		};
		ensure!(
			near(shot.energy, own + exact, want),
			"energy {} is returned in round {}, the sample has {} and the constant part is {}",
			shot.energy, round, own, constant
		);
		match shot.own {
			Some(o) => ensure!(
				near(o, own, own.f64()),
				"the solution's own energy is {}, the sample of round {} has {}",
				o, round, own
			),
			None => return Err(String::from("the solution has no energy")),
		}
		if R::INT && own.f64().abs().max(want.abs()) > 9.1e15 {
			c.saw("energies beyond the precision of f64", 1);
		}
		c.saw("energies of searches of several generations", 1);
		if round > 0 {
			c.saw("energies with adapted weights", 1);
			c.nontrivial(&c.desc.clone());
		}
		Ok(())
	})
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C06",
			quick: 200_000,
			thorough: 20_000_000,
			rule: "random expressions (with auxiliary variables, constraints, penalties); the annealer answers with random states, several per generation; returned energy, the solution's energy, values and every local field are recomputed from the recorded problem and state; solve() and solve_with_constraints(); searches of several iterations and generations whose constant part depends on the adapted weights, with integers beyond 2^53; problems of hundreds of variables. Non-trivial: different energies were returned; distinct by expression and type",
			workers: 0,
			need: &["solutions compared", "energies with adapted weights", "energies beyond the precision of f64", "local fields that are not zero", "solutions without constraints", "auxiliary variables", "local fields of large problems"],
		},
		|c| match c.idx % 24 {
			7 if c.idx % 4800 == 7 => {
				let vars = wide::size(&mut c.rng, 65, 450);
				let (pairs, labels, groups) = (c.rng.below(900), c.rng.below(9), c.rng.below(9));
				wide::any(c, wide::Spec { vars, pairs, labels, groups, ..Default::default() })
			}
			3 => generations::<f64, u32, String>(c),
			9 => generations::<i64, String, u8>(c),
			15 => generations::<f32, &'static str, Mixed>(c),
			21 => generations::<i32, Mixed, char>(c),
			_ => with_types!(c.idx, check(c)),
		},
	)
}
