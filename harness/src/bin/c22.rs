//! C22: small problems are solved to optimality. How often a correct annealer finds the optimum is
//! told by the reference dynamics, so that a missed optimum can be judged.
use rustqubo::solve::SimpleSolver;
use std::collections::BTreeSet;
use vh::ast::*;
use vh::num::*;
use vh::prng::Prng;
use vh::probe::*;
use vh::run::*;
use vh::{ensure, once, with_types};

/// Runs of the reference
const RUNS: usize = 24;

/// What searches of one problem return
struct Outcome {
	energy: Q,
	own: Option<Q>,
	x: u64,
	complete: bool,
	violated: BTreeSet<usize>,
	unknown: bool,
}

/// One run of the reference: Metropolis dynamics from a random state with temperatures from those
/// that do not freeze the strongest field to those that freeze the smallest weight.
fn reference<R: Num>(cap: &Cap<R>, r: &mut Prng) -> Vec<bool> {
	let n = cap.n;
	let rows: Vec<Vec<f64>> =
		(0..n).map(|i| (0..n).map(|j| cap.at(i, j).as_f64()).collect()).collect();
	let f = |i: usize, j: usize| rows[i][j];
	let mut strong = 0.0f64;
	for i in 0..n {
		strong = strong.max((0..n).map(|j| f(i, j).abs()).sum());
	}
	let mut weak = f64::INFINITY;
	for j in 0..n {
		for i in 0..=j {
			if f(i, j).abs() > strong * f64::EPSILON {
				weak = weak.min(f(i, j).abs());
			}
		}
	}
	let mut s = r.bits(n);
	if !(strong > 0.0) {
		return s;
	}
	let (b0, b1) = (f64::ln(2.0) / strong, f64::ln(100.0) / weak);
	for k in 0..100 {
		let beta = b0 * (b1 / b0).powf(k as f64 / 99.0);
		for _ in 0..30 {
			for i in 0..n {
				let row = &rows[i];
				let mut d = row[i];
				for j in 0..n {
					if j != i && s[j] {
						d += row[j];
					}
				}
				if s[i] {
					d = -d;
				}
				if d <= 0.0 || f64::exp(-d * beta) > r.f64() {
					s[i] = !s[i];
				}
			}
		}
	}
	s
}

/// Constraint bodies that are never negative
fn condition(r: &mut Prng, vars: usize) -> Ast {
	let mut vs: Vec<usize> = (0..vars).collect();
	r.shuffle(&mut vs);
	let k = vs.len().min(1 + r.below(4));
	let lit = |r: &mut Prng, i: usize| match r.below(4) {
		0 => spin(i),
		1 => sub(num(1), bin(i)),
		_ => bin(i),
	};
	let some: Vec<Ast> = vs[..k].iter().map(|i| lit(r, *i)).collect();
	match r.below(6) {
		0 | 1 => {
			let mut t: Vec<Ast> = vs[..k].iter().map(|i| bin(*i)).collect();
			t.push(num(-(r.range(1, k as i64) as i128)));
			pow(sum(t), 2)
		}
		2 => pow(sub(lit(r, vs[0]), lit(r, vs[k - 1])), 2),
		3 => product(vs[..k.min(3)].iter().map(|i| if r.bool() { bin(*i) } else { sub(num(1), bin(*i)) }).collect()),
		4 => {
			let mut t = some;
			t.push(num(r.range(-2, 2) as i128));
			pow(sum(t), 2)
		}
		_ => lit_bin(r, vs[0]),
	}
}
fn lit_bin(r: &mut Prng, i: usize) -> Ast {
	if r.bool() {
		bin(i)
	} else {
		sub(num(1), bin(i))
	}
}

fn objective<R: Num>(r: &mut Prng, vars: usize, unit: Q, mag: i64, ph: usize) -> Ast {
	let scaled = |r: &mut Prng| Ast::Num(Q::int(r.range(-mag, mag) as i128) * unit);
	let mut terms = Vec::new();
	let kind = r.below(5);
	for i in 0..vars {
		if r.chance(3, 4) {
			terms.push(mul(scaled(r), if r.chance(1, 3) { spin(i) } else { bin(i) }));
		}
		for j in i + 1..vars {
			if r.chance(if kind == 0 { 4 } else { 1 }, 4) {
				let (a, b) = if r.chance(1, 3) { (spin(i), spin(j)) } else { (bin(i), bin(j)) };
				let t = mul(a, b);
				let p = if ph > 0 && r.chance(1, 3) { mul(Ast::Ph(r.below(ph)), t) } else { t };
				terms.push(mul(scaled(r), p));
			}
		}
	}
	if kind == 1 && vars >= 3 {
		for _ in 0..1 + r.below(2) {
			let mut vs: Vec<usize> = (0..vars).collect();
			r.shuffle(&mut vs);
			vs.truncate(3 + r.below(2));
			terms.push(mul(scaled(r), product(vs.iter().map(|i| bin(*i)).collect())));
		}
	}
	if kind == 2 {
		// the best sum is a number
		let mut t: Vec<Ast> = (0..vars).map(|i| mul(num(r.range(-3, 3) as i128), bin(i))).collect();
		t.push(num(r.range(-4, 4) as i128));
		terms.push(mul(Ast::Num(unit), pow(sum(t), 2)));
	}
	if r.chance(1, 3) {
		terms.push(scaled(r));
	}
	let mut e = sum(terms);
	if r.chance(1, 5) {
		let t = mul(scaled(r), bin(r.below(vars)));
		let sq = pow(sub(bin(r.below(vars)), bin(r.below(vars))), 2);
		e = if r.bool() { pen(e, mul(Ast::Num(unit), sq)) } else { pen(e, t) };
	}
	if r.chance(1, 6) {
		e = neg(e);
	}
	e
}

fn solve<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let tiny = R::BITS < 10;
	let vars = 1 + c.rng.below(if tiny { 3 } else { 8 });
	let ph = ph_values::<R>(&mut c.rng, 2);
	let nph = if tiny || c.rng.chance(2, 3) { 0 } else { 2 };
	let mag = if tiny { 2 } else { *c.rng.pick(&[1, 3, 9, 40]) };
	// the scale
	let unit = match R::NAME {
		"i64" => Q::int(1 << *c.rng.pick(&[0, 0, 20, 38])),
		"i128" => Q::int(1 << *c.rng.pick(&[0, 40, 60, 80])),
		"f32" => match *c.rng.pick(&[0, 0, 30, -30, -60]) {
			s if s < 0 => Q::new(1, -s as u32),
			s => Q::int(1 << s),
		},
		"f64" => match *c.rng.pick(&[0, 0, 50, -50, -20, -90]) {
			s if s < 0 => Q::new(1, -s as u32),
			s => Q::int(1 << s),
		},
		_ => Q::ONE,
	};
	let nl = if c.rng.chance(1, 3) { 0 } else { 1 + c.rng.below(if c.rng.clone().chance(1, 3) { 6 } else { 3 }) };
	let ast = {
		let mut found = None;
		for _ in 0..100 {
			let mut a = objective::<R>(&mut c.rng, vars, unit, mag, nph);
			for _ in 0..if nl == 0 { 0 } else { 1 + c.rng.below(nl.max(3)) } {
				let k = con(c.rng.below(nl), condition(&mut c.rng, vars));
				a = if c.rng.chance(1, 6) { pen(a, k) } else { add(a, k) };
			}
			if a.degree() <= 5 && a.monos().len() <= 90 {
				found = Some(a);
				break;
			}
		}
		match found {
			Some(a) => a,
			None => discard("no problem of moderate degree"),
		}
	};
	let labels = ast.labels();
	// weights that dominate: more than the objective may gain
	let range = {
		let zero = vec![Q::ZERO; 6];
		let es: Vec<Q> = assignments(&ast.vars())
			.iter()
			.map(|x| ast.energy(&At { x: *x, ph: &ph, w: &zero }))
			.collect();
		*es.iter().max().unwrap() - *es.iter().min().unwrap()
	};
	let dom = {
		// in units, rounded up
		let k = (range.f64() / unit.f64()).ceil() as i128 + 1 + c.rng.below(3) as i128;
		Q::int(k) * unit
	};
	let dflt = Q::int(50);
	let n = labels.len().max(1) as i128;
	// the default strength where it is enough
	let keep = labels.is_empty()
		|| (n * 50 / n == 50 && 50 % n == 0 && dom.f64() * n as f64 <= 50.0 && c.rng.chance(2, 3));
	let w = vec![if keep { Q::int(50 / n) } else { dom }; 6];
	let coef: f64 = ast.bound(&ph, &w) * 4.0;
	if R::INT && coef >= (R::BITS as f64).exp2() {
		discard("too large for the integer type");
	}
	c.desc = format!(
		"{}: {} P={} {} strength {}",
		R::NAME, ast, ph[0], ph[1],
		if keep { dflt } else { Q::int(n) * dom }
	);
	// exhaustive enumeration
	let vs = ast.vars();
	let (mut best, mut unconstrained): (Option<Q>, Option<Q>) = (None, None);
	for x in assignments(&vs) {
		let at = At { x, ph: &ph, w: &w };
		let e = ast.energy(&at);
		if ast.violated(&at).is_empty() && best.map_or(true, |b| e < b) {
			best = Some(e);
		}
		if unconstrained.map_or(true, |b| e < b) {
			unconstrained = Some(e);
		}
	}
	let best = match best {
		Some(b) => b,
		None => return hopeless::<R, Tp, Tq, Tc>(c, &ast, &ph, &w, keep),
	};
	if unconstrained != Some(best) {
		discard("an assignment which violates constraints is as good");
	}
	let tol = if R::INT {
		0.0
	} else {
		// rounding errors only
		ast.magnitude(&ph, &w) * (-(R::BITS as f64) + 8.0).exp2()
	};
	let early: Vec<bool> = c.rng.bits(2);
	let e: rustqubo::Expr<Tp, Tq, Tc, R> = ast.expr();
	let model = e
		.feed_dict(&dict(&ph, |i| early[i]))
		.compile()
		.feed_dict(dict(&ph, |i| !early[i]));
	// the problem as the annealer gets it
	let gen = ProbeGen::new();
	let inner = gen.0.clone();
	let l = {
		let mut s = SimpleSolver::with_solver(&model, gen);
		once!(s);
		if !keep {
			s.coeff_strength = strength(labels.len(), dom);
		}
		learn(&s, &inner, &vs)?
	};
	if l.cap.n > 14 {
		discard("too many auxiliary variables");
	}
	let mut hits = 0;
	let mut rng = c.rng.clone();
	for _ in 0..RUNS {
		let st = reference(&l.cap, &mut rng);
		let got = l.energy(&st);
		hits += ((got - best).f64() <= tol) as usize;
	}
	c.saw("annealing runs of the reference", RUNS as u64);
	if hits * 2 < RUNS {
		discard("the optimum is too hard to find for the reference");
	}
	let search = |samples: Option<usize>| -> Result<Outcome, String> {
		let mut s = SimpleSolver::new(&model);
		if let Some(k) = samples {
			s.samples = k;
		}
		if !keep {
			s.coeff_strength = strength(labels.len(), dom);
		}
		let (energy, view, viol) =
			s.solve_with_constraints().map_err(|e| format!("an error: {}", e))?;
		let mut x = 0;
		let mut complete = view.keys().count() == vs.len();
		for v in &vs {
			match view.get(&Tq::mk(*v)) {
				Some(b) => x |= (b as u64) << v,
				None => complete = false,
			}
		}
		let mut violated = BTreeSet::new();
		let mut unknown = false;
		for l in viol {
			match labels.iter().find(|i| Tc::mk(**i) == *l) {
				Some(i) => {
					violated.insert(*i);
				}
				None => unknown = true,
			}
		}
		Ok(Outcome { energy: energy.q(), own: view.energy().map(|e| e.q()), x, complete, violated, unknown })
	};
	// what must hold for every search
	let judge = |o: &Outcome| -> Result<bool, String> {
		ensure!(o.complete && !o.unknown, "an incomplete solution or an unknown label");
		let at = At { x: o.x, ph: &ph, w: &w };
		let violated = ast.violated(&at);
		ensure!(
			o.violated == violated,
			"violated {:?} instead of {:?} at {:b}",
			o.violated, violated, o.x
		);
		if !violated.is_empty() {
			return Ok(false);
		}
		let own = ast.energy(&at);
		ensure!(
			(o.energy - best).f64() >= -tol,
			"energy {} is returned, but the minimum is {}",
			o.energy, best
		);
		ensure!(
			(o.energy - own).f64() >= -tol && (l.cap.n > vs.len() || (o.energy - own).f64() <= tol),
			"energy {} is returned, the assignment {:b} has {}",
			o.energy, o.x, own
		);
		ensure!(
			// the constant depends on the weights of the constraints
			o.own.map_or(false, |e| !labels.is_empty()
				|| (e + l.c - o.energy).f64().abs() <= tol),
			"the energy of the solution {:?}, the energy {} and the constant {} disagree",
			o.own, o.energy, l.c
		);
		Ok((o.energy - best).f64() <= tol)
	};
	// Many samples: all searches miss the optimum with a probability of less than 0.75^96.
	let mut solved = false;
	for attempt in 0..8 {
		let o = search(Some(12))?;
		c.saw("searches with many samples", 1);
		if judge(&o)? {
			solved = true;
			if attempt > 0 {
				c.saw("searches repeated", 1);
			}
			break;
		}
	}
	ensure!(
		solved,
		"eight searches with 12 samples each miss the minimum {}, the reference finds it in {} of {} runs",
		best, hits, RUNS
	);
	c.saw("optima found and attained", 1);
	// Single samples, with default settings: as often as the reference
	let few = 3;
	if hits == RUNS {
		let mut found = 0;
		for _ in 0..few {
			let o = search(None)?;
			c.saw("searches with default settings", 1);
			if judge(&o)? {
				found += 1;
				c.saw("optima of single samples", 1);
			}
		}
		if found < 2 {
			// ask again: once is little to judge
			for _ in 0..60 {
				let o = search(None)?;
				found += judge(&o)? as usize;
			}
			ensure!(
				found >= 15,
				"searches with default settings find the minimum {} in {} of {} times, the reference in all of {} runs",
				best, found, 60 + few, RUNS
			);
		}
	}
	if !labels.is_empty() {
		c.saw("feasible problems with constraints", 1);
	}
	if !l.anc.is_empty() {
		c.saw("problems with auxiliary variables", 1);
	}
	if keep && !labels.is_empty() {
		c.saw("constraints with the default strength", 1);
	}
	if unit != Q::ONE {
		c.saw("problems at another scale", 1);
	}
	if ast.any(&|a| matches!(a, Ast::Ph(_))) {
		c.saw("problems with placeholders", 1);
	}
	if ast.any(&|a| matches!(a, Ast::Pen(..))) {
		c.saw("problems with penalties", 1);
	}
	if vs.len() >= 3 && hits < RUNS {
		c.saw("problems whose optimum a single run misses", 1);
	}
	if vs.len() >= 2 && range > Q::ZERO {
		c.nontrivial(&c.desc.clone());
	}
	Ok(())
}

/// No assignment satisfies all constraints: this is reported after the whole search.
fn hopeless<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(
	c: &mut Case,
	ast: &Ast,
	ph: &[Q],
	w: &[Q],
	keep: bool,
) -> Res {
	let e: rustqubo::Expr<Tp, Tq, Tc, R> = ast.expr();
	let model = e.compile().feed_dict(dict(ph, |_| true));
	let (vs, labels) = (ast.vars(), ast.labels());
	let mut s = SimpleSolver::new(&model);
	s.iterations = 2;
	s.generations = 3;
	if !keep {
		s.coeff_strength = strength(labels.len(), w[0]);
	}
	let (_, view, viol) = s.solve_with_constraints().map_err(|e| format!("an error: {}", e))?;
	let x = vs.iter().fold(0, |x, v| x | (view.get(&Tq::mk(*v)) == Some(true)) as u64 * (1 << v));
	let want = ast.violated(&At { x, ph, w });
	let got: BTreeSet<usize> = labels
		.iter()
		.copied()
		.filter(|l| viol.iter().any(|v| Tc::mk(*l) == **v))
		.collect();
	ensure!(
		got == want && !got.is_empty(),
		"violated {:?} instead of {:?} at {:b}",
		got, want, x
	);
	c.saw("infeasible problems", 1);
	Ok(())
}

/// P(X <= k) of n tries with the probability p
fn tail(n: usize, p: f64, k: i64) -> f64 {
	if k < 0 {
		return 0.0;
	}
	let (lp, lq) = (p.ln(), (1.0 - p).ln());
	let mut choose = 0.0f64;
	let mut sum = 0.0;
	for i in 0..=(k as usize).min(n) {
		sum += (choose + i as f64 * lp + (n - i) as f64 * lq).exp();
		choose += ((n - i) as f64 / (i + 1) as f64).ln();
	}
	sum.min(1.0)
}

/// Two wells: the one with the minimum attracts a part of the runs only. How often a search with
/// all settings at their defaults, in a pool of some threads, has to find it follows from the rate
/// of the reference: a sample per thread, and all the rounds if a constraint fails in the other well.
fn wells<R: Num>(c: &mut Case) -> Res {
	const TRIES: usize = 2500;
	const ALARM: f64 = 1.0e-10;
	let constrained = c.idx / 250 % 2 == 0;
	let threads = if constrained { 1 } else { *c.rng.pick(&[3, 8]) };
	// of several problems the first whose rate, found with few runs, tells the settings apart
	let mut kept = None;
	for _ in 0..12 {
		let n = if constrained { 3 } else { 3 + c.rng.below(3) };
		let m = if constrained { 3 + c.rng.below(3) } else { c.rng.below(2) };
		let a = c.rng.range(4, 30) as i128;
		let g = c.rng.range(1, 3) as i128;
		let f = c.rng.range(a as i64 / 2, 3 * a as i64) as i128;
		let mut t = vec![mul(num(if constrained { 50 - g } else { -g }), bin(0))];
		for i in 0..n {
			t.push(mul(num(a * (n as i128 - 1)), bin(i)));
			for j in 0..i {
				t.push(mul(num(-2 * a), mul(bin(i), bin(j))));
			}
		}
		for j in 0..m {
			t.push(mul(num(f), mul(bin(n + j), bin(c.rng.below(n)))));
		}
		if constrained {
			t.push(con(0, sub(num(1), bin(0))));
		}
		let ast = sum(t);
		let k = {
			let mut rng = c.rng.clone();
			let e: rustqubo::Expr<(), u32, u32, R> = ast.expr();
			let model = e.compile().feed_dict(Default::default());
			let gen = ProbeGen::new();
			let inner = gen.0.clone();
			let mut s = SimpleSolver::with_solver(&model, gen);
			once!(s);
			let l = learn(&s, &inner, &ast.vars())?;
			let w = [Q::int(50); 2];
			let best = assignments(&ast.vars())
				.iter()
				.map(|x| ast.energy(&At { x: *x, ph: &[], w: &w }))
				.min()
				.unwrap();
			(0..150).filter(|_| l.energy(&reference(&l.cap, &mut rng)) == best).count()
		};
		if constrained && (5..9).contains(&k) || !constrained && (25..100).contains(&k) {
			kept = Some(ast);
			break;
		}
	}
	let ast = match kept {
		Some(a) => a,
		None => discard("the wells attract too few or too many"),
	};
	let vs = ast.vars();
	let w = vec![Q::int(50); 2];
	c.desc = format!("{}: {}", R::NAME, ast);
	// the states that violate the constraint, and the best one
	let (mut best, mut other): (Option<Q>, Option<Q>) = (None, None);
	for x in assignments(&vs) {
		let at = At { x, ph: &[], w: &w };
		let e = ast.energy(&at);
		let to = if ast.violated(&at).is_empty() { &mut best } else { &mut other };
		if to.map_or(true, |b| e < b) {
			*to = Some(e);
		}
	}
	let best = best.unwrap();
	if constrained && other.unwrap() <= best {
		discard("the constraint does not pay");
	}
	let e: rustqubo::Expr<(), u32, u32, R> = ast.expr();
	let model = e.compile().feed_dict(Default::default());
	let gen = ProbeGen::new();
	let inner = gen.0.clone();
	let l = {
		let mut s = SimpleSolver::with_solver(&model, gen);
		once!(s);
		learn(&s, &inner, &vs)?
	};
	let mut rng = c.rng.clone();
	// solved: the minimum, or any state below all that violate the constraint
	let good = |e: Q| if constrained { e < other.unwrap() } else { e == best };
	let hits = (0..TRIES).filter(|_| good(l.energy(&reference(&l.cap, &mut rng)))).count();
	let rate = hits as f64 / TRIES as f64;
	if constrained && !(0.01..0.3).contains(&rate) || !constrained && !(0.1..0.7).contains(&rate) {
		discard("the wells attract too few or too many");
	}
	// a lower bound of the rate
	let (mut lo, mut hi) = (0.0, rate);
	for _ in 0..40 {
		let p = (lo + hi) / 2.0;
		if 1.0 - tail(TRIES, p, hits as i64 - 1) <= ALARM {
			lo = p;
		} else {
			hi = p;
		}
	}
	let (rounds, searches) = if constrained { (300, 24) } else { (1, 110) };
	let must = 1.0 - (1.0 - lo).powi((rounds * threads) as i32);
	let mut found = 0;
	for _ in 0..searches {
		let done = in_pool(threads, || -> Result<bool, String> {
			let s = SimpleSolver::new(&model);
			let (e, _, v) = s.solve_with_constraints().map_err(|e| format!("an error: {}", e))?;
			Ok(v.is_empty() && (constrained || e.q() == best))
		})?;
		found += done as usize;
		c.saw("searches in two wells", 1);
	}
	let chance = tail(searches, must, found as i64);
	ensure!(
		chance > ALARM,
		"{} of {} searches with default settings and {} threads are solved, {:.3} of them should be ({} of {} runs of the reference are): probability {:e}",
		found, searches, threads, must, hits, TRIES, chance
	);
	c.saw(if constrained { "wells with a constraint" } else { "wells without constraints" }, 1);
	c.nontrivial(&c.desc.clone());
	Ok(())
}

fn case(c: &mut Case) -> Res {
	if c.idx % 250 == 11 {
		return match c.rng.below(4) {
			0 => wells::<i32>(c),
			1 => wells::<i64>(c),
			2 => wells::<f32>(c),
			_ => wells::<f64>(c),
		};
	}
	with_types!(c.idx, solve(c))
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C22",
			quick: 3_000,
			thorough: 60_000,
			rule: "random problems of up to eight variables with spins, placeholders, penalties, constraints and up to degree five, coefficients at scales from 2^-50 to 2^80, solved with many samples and with default settings and compared with the enumeration of all assignments; the reference annealer tells how easily the optimum is found. Non-trivial: two variables or more and different energies; distinct by the problem",
			workers: 0,
			need: &[
				"optima found and attained",
				"searches with default settings",
				"optima of single samples",
				"feasible problems with constraints",
				"problems with auxiliary variables",
				"constraints with the default strength",
				"problems at another scale",
				"problems with placeholders",
				"problems with penalties",
				"infeasible problems",
				"wells with a constraint",
				"wells without constraints",
			],
		},
		case,
	)
}
