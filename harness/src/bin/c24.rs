//! C24: degenerate problems are solved like any other
use annealers::model::{FixedSingleQuadricModel, SingleModel, SingleModelView};
use annealers::node::Binary;
use annealers::order::{HighOrder, Quadric};
use annealers::prelude::*;
use annealers::set::NodeSet;
use annealers::solution::SingleSolution;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use rustqubo::solve::SimpleSolver;
use std::collections::BTreeSet;
use vh::ast::*;
use vh::num::*;
use vh::prng::Prng;
use vh::probe::*;
use vh::run::*;
use vh::{ensure, with_types};

fn small(r: &mut Prng) -> Ast {
	num(*r.pick(&[0, 0, 1, -1, 2, -2]))
}
/// Something that is always zero, of up to this degree
fn nothing(r: &mut Prng, vars: usize, deg: usize) -> Ast {
	let v = |r: &mut Prng| if vars == 0 { num(1) } else { bin(r.below(vars)) };
	let t = if deg >= 3 && vars >= 3 && r.bool() {
		product(vec![bin(0), bin(1), bin(2)])
	} else if deg >= 2 && r.bool() {
		mul(v(r), v(r))
	} else {
		v(r)
	};
	match r.below(9) {
		0 => num(0),
		1 => mul(num(0), t),
		2 => mul(t, num(0)),
		3 => sub(t.clone(), t),
		4 => add(neg(t.clone()), t),
		5 if vars > 0 => sub(mul(spin(0), spin(0)), num(1)),
		6 => sub(pow(v(r), 0), num(1)),
		7 if vars > 0 => sub(mul(bin(0), bin(0)), bin(0)),
		_ => mul(sub(num(1), num(1)), t),
	}
}

fn expression(r: &mut Prng, vars: usize) -> Ast {
	let v = |r: &mut Prng| match (vars, r.below(3)) {
		(0, _) => num(1),
		(_, 0) => spin(r.below(vars)),
		_ => bin(r.below(vars)),
	};
	let base = match r.below(8) {
		0 => num(0),
		1 => small(r),
		2 => v(r),
		3 => nothing(r, vars, 3),
		4 => mul(small(r), v(r)),
		5 => add(v(r), nothing(r, vars, 2)),
		6 => pow(v(r), r.below(3)),
		_ => add(small(r), neg(v(r))),
	};
	let mut e = base;
	for _ in 0..r.below(3) {
		let l = r.below(2);
		let k = match r.below(10) {
			// always satisfied
			0 | 1 => con(l, nothing(r, vars, 2)),
			2 => con(l, num(0)),
			// never satisfied
			3 => con(l, num(1)),
			4 => con(l, add(num(1), nothing(r, vars, 2))),
			5 if vars > 0 => con(l, pow(spin(0), 2)),
			// one of the values
			6 => con(l, v(r)),
			7 => con(l, pow(sub(v(r), num(1)), 2)),
			8 => pen(num(0), con(l, nothing(r, vars, 1))),
			_ => con(l, mul(num(0), v(r))),
		};
		e = match r.below(5) {
			0 => add(k, e),
			1 => mul(num(1), add(e, k)),
			2 => sub(add(e, k), num(0)),
			_ => add(e, k),
		};
	}
	match r.below(8) {
		0 => pen(e, nothing(r, vars, 2)),
		1 => pen(e, small(r)),
		2 => add(e, mul(num(0), pen(v(r), num(1)))),
		3 => add(e, sub(Ast::Ph(0), Ast::Ph(0))),
		4 => mul(e, num(1)),
		_ => e,
	}
}

fn beta<R: Num>(r: &mut Prng) -> Option<BetaType<R>> {
	match r.below(8) {
		0 => Some(BetaType::Count(0)),
		1 => Some(BetaType::Count(1)),
		2 => Some(BetaType::Schedule(Vec::new())),
		3 => Some(BetaType::Schedule(vec![R::of(Q::ONE)])),
		4 => Some(BetaType::CountRange(r.below(3), R::of(Q::ONE), R::of(Q::int(3)))),
		5 => Some(BetaType::CountRange(1 + r.below(2), R::of(Q::int(2)), R::of(Q::int(2)))),
		_ => None,
	}
}

fn problem<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let vars = *c.rng.pick(&[0, 0, 1, 1, 1, 2, 3]);
	let ast = expression(&mut c.rng, vars);
	let (vs, labels) = (ast.vars(), ast.labels());
	if ast.degree() > 2 {
		c.saw("problems of high degree", 1);
	}
	// few rounds, so that the weights stay shares of the strength
	let w = vec![Q::int(c.rng.range(1, 3) as i128); 2];
	let ph = [Q::int(2)];
	if !ast.fits::<R>(&ph, &w, 2) {
		discard("too large for the type");
	}
	let settings = beta::<R>(&mut c.rng);
	let sweeps = if settings.is_some() { c.rng.below(3) } else { 30 };
	let rounds = if c.rng.chance(2, 3) { 1 } else { 1 + c.rng.below(3) };
	let samples = 1 + c.rng.below(2);
	c.desc = format!(
		"{}: {} w={} {:?} sweeps={} rounds={} samples={}",
		R::NAME, ast, w[0], settings, sweeps, rounds, samples
	);
	let e: rustqubo::Expr<Tp, Tq, Tc, R> = ast.expr();
	let model = e.compile().feed_dict(dict(&ph, |_| true));
	let mut s = SimpleSolver::new(&model);
	ensure!(
		s.get_qubits().into_iter().cloned().collect::<BTreeSet<Tq>>()
			== vs.iter().map(|v| Tq::mk(*v)).collect(),
		"the solver lists the variables {:?}",
		s.get_qubits()
	);
	let fixed = settings.is_some();
	if let Some(b) = settings {
		s.solver_generator.beta = b;
		s.solver_generator.sweeps_per_round = sweeps;
	}
	s.samples = samples;
	s.iterations = rounds;
	s.generations = rounds;
	s.coeff_strength = strength(labels.len(), w[0]);
	let energies: Vec<(u64, Q, bool)> = assignments(&vs)
		.iter()
		.map(|x| {
			let at = At { x: *x, ph: &ph, w: &w };
			(*x, ast.energy(&at), ast.violated(&at).is_empty())
		})
		.collect();
	let best = energies.iter().map(|e| e.1).min().unwrap();
	let mut solved = false;
	for _ in 0..8 {
		let (energy, view, viol) = s.solve_with_constraints().map_err(|e| e.to_string())?;
		let mut x = 0;
		for v in &vs {
			match view.get(&Tq::mk(*v)) {
				Some(b) => x |= (b as u64) << v,
				None => vh::fail!("variable x{} is missing", v),
			}
		}
		ensure!(
			view.keys().count() == vs.len() && view.get(&Tq::mk(12)).is_none(),
			"the solution knows the variables {:?}",
			view.keys().collect::<Vec<_>>()
		);
		let _ = format!("{:?}", view);
		let at = At { x, ph: &ph, w: &w };
		let want = ast.violated(&at);
		let mut got: Vec<usize> = Vec::new();
		for l in viol {
			match labels.iter().find(|i| Tc::mk(**i) == *l) {
				Some(i) => got.push(*i),
				None => vh::fail!("unknown label {:?}", l),
			}
		}
		let set: BTreeSet<usize> = got.clone().into_iter().collect();
		ensure!(set == want, "violated {:?} instead of {:?} at {:b}", got, want, x);
		// the weights have changed in later rounds, they do not count for satisfied constraints
		if ast.degree() <= 2 && (rounds == 1 || want.is_empty()) {
			let e = ast.energy(&at);
			ensure!(
				energy.q() == e || (!R::INT && rounds > 1 && (energy.q() - e).f64().abs() < 1.0e-4),
				"energy {} instead of {} at {:b}",
				energy, e, x
			);
			c.saw("energies compared", 1);
		}
		if want.is_empty() {
			c.saw("solutions without violations", 1);
		} else {
			c.saw("solutions with violations", 1);
		}
		solved |= energy.q() == best;
		c.saw("solutions", 1);
		if vs.is_empty() {
			c.saw("solutions without variables", 1);
		}
		if vs.len() == 1 {
			c.saw("solutions of a single variable", 1);
		}
		if solved || fixed {
			break;
		}
	}
	// with all temperatures the annealer finds the best one of these few states
	if !fixed && rounds == 1 && vs.len() <= 1 && ast.degree() <= 2 {
		ensure!(solved, "eight searches miss the energy {}", best);
		c.saw("optima found", 1);
	}
	c.nontrivial(&c.desc.clone());
	Ok(())
}

/// The annealer on tiny models
fn annealer<R: Num>(c: &mut Case) -> Res {
	let n = *c.rng.pick(&[0, 0, 1, 1, 2, 3]);
	let weights: Vec<R> = (0..n * (n + 1) / 2)
		.map(|_| match c.rng.below(6) {
			0..=2 => R::zero(),
			3 => R::of(Q::int(c.rng.range(-3, 3) as i128)),
			4 => R::of(Q::int(1)),
			_ if R::NAME == "f64" => R::from_f64(*c.rng.pick(&[5.0e-324, -5.0e-324, 1.0e-300, 1.0e300, -1.0e300])),
			_ if R::NAME == "f32" => R::from_f64(*c.rng.pick(&[1.0e-45, -1.0e-45, 1.0e-37, 1.0e37, -1.0e37])),
			_ => R::of(Q::int(-1)),
		})
		.collect();
	let b = beta::<R>(&mut c.rng);
	let sweeps = c.rng.below(3);
	c.desc = format!("{}: annealer of {} nodes, weights {:?}, {:?}, {} sweeps", R::NAME, n, weights, b, sweeps);
	let mut d: FixedSingleQuadricModel<Binary<R>> = FixedSingleQuadricModel::new(Binary::new(), n);
	let mut s: SingleModel<Binary<R>, Quadric> = SingleModel::new(Binary::new(), Quadric);
	let mut h: SingleModel<Binary<R>, HighOrder> = SingleModel::new(Binary::new(), HighOrder::new(2));
	let mut k = 0;
	for j in 0..n {
		for i in 0..=j {
			d.add_weight(i, j, weights[k]);
			s.add_weight([i, j], weights[k]);
			h.add_weight([i, j].into_iter().collect(), weights[k]);
			k += 1;
		}
	}
	fn go<R: Num, P: SingleModelView<Node = Binary<R>> + Send + Sync>(
		c: &mut Case,
		m: &P,
		n: usize,
		b: &Option<BetaType<R>>,
		sweeps: usize,
		want: &dyn Fn(&[bool]) -> f64,
	) -> Res {
		ensure!(SingleModelView::size(m) == n, "size {} instead of {}", SingleModelView::size(m), n);
		ensure!(
			m.nodes().into_iter().collect::<BTreeSet<_>>() == (0..n).collect(),
			"the nodes are {:?}",
			m.nodes().into_iter().collect::<Vec<_>>()
		);
		for p in m.prods() {
			ensure!(p.len() > 0 && p.iter().all(|i| i < n), "a product {:?} of {} nodes", p.iter().collect::<Vec<_>>(), n);
		}
		for i in 0..n {
			for p in m.neighbors(i) {
				ensure!(p.iter().any(|j| j == i), "neighbours of {}: {:?}", i, p.iter().collect::<Vec<_>>());
			}
		}
		let mut g = SimulatedAnnealerGenerator::new();
		if let Some(b) = b {
			g.beta = b.clone();
			g.sweeps_per_round = sweeps;
		}
		let a = g.generate(m).map_err(|e| e.to_string())?;
		for _ in 0..2 {
			let v = a.solve_with_rng(&mut c.rng).map_err(|e| e.to_string())?;
			ensure!(v.len() == 1, "{} solutions", v.len());
			ensure!(v[0].len() == n, "a solution of {} instead of {} nodes", v[0].len(), n);
			let st = v[0].state.to_vec();
			let sol = SingleSolution::<Binary<R>>::from_vec(&st).with_energy(m);
			let e = sol.energy.map(|e| e.as_f64());
			ensure!(e == Some(want(&st)), "energy {:?} instead of {} of {:?}", e, want(&st), st);
			let sol = sol.with_local_field(m);
			let f = sol.local_field.as_ref().map_or(0, |f| f.len());
			ensure!(f == n, "{} local fields of {} nodes", f, n);
			c.saw("annealing runs", 1);
			if n < 2 {
				c.saw("annealing runs with fewer than two nodes", 1);
			}
		}
		Ok(())
	}
	let want = |st: &[bool]| {
		let (mut e, mut k) = (0.0, 0);
		for j in 0..n {
			for i in 0..=j {
				if st[i] && st[j] {
					e += weights[k].as_f64();
				}
				k += 1;
			}
		}
		e
	};
	// sums of very different floats depend on the order
	let exact = R::INT || n < 2 || weights.iter().all(|w| w.as_f64().abs() < 4.0 && w.as_f64().fract() == 0.0);
	if !exact {
		let alone = SingleModelView::size(&d);
		ensure!(alone == n, "size");
		let mut g = SimulatedAnnealerGenerator::new();
		if let Some(b) = &b {
			g.beta = b.clone();
			g.sweeps_per_round = sweeps;
		}
		let v = g
			.generate(&d)
			.map_err(|e| e.to_string())?
			.solve_with_rng(&mut c.rng)
			.map_err(|e| e.to_string())?;
		ensure!(v.len() == 1 && v[0].len() == n, "a wrong number of solutions or nodes");
		c.saw("annealing runs with extreme weights", 1);
		return Ok(());
	}
	go(c, &d, n, &b, sweeps, &want)?;
	go(c, &s, n, &b, sweeps, &want)?;
	go(c, &h, n, &b, sweeps, &want)?;
	// one node with a weight: the default schedule finds its best value
	if n == 1 && b.is_none() && weights[0] != R::zero() {
		let mut good = false;
		for _ in 0..8 {
			let g = SimulatedAnnealerGenerator::new();
			let a = g.generate(&d).map_err(|e| e.to_string())?;
			let v = a.solve_with_rng(&mut c.rng).map_err(|e| e.to_string())?;
			good |= v[0].state.to_vec()[0] == (weights[0] < R::zero());
		}
		ensure!(good, "eight runs on one node with the weight {} end in the higher state", weights[0]);
		c.saw("single nodes annealed", 1);
	}
	c.nontrivial(&c.desc.clone());
	Ok(())
}

fn case(c: &mut Case) -> Res {
	if c.idx % 4 == 3 {
		match c.idx / 4 % 6 {
			0 => annealer::<f64>(c),
			1 => annealer::<f32>(c),
			2 => annealer::<i8>(c),
			3 => annealer::<i32>(c),
			4 => annealer::<i64>(c),
			_ => annealer::<i128>(c),
		}
	} else {
		with_types!(c.rng.below(8), problem(c))
	}
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C24",
			quick: 60_000,
			thorough: 6_000_000,
			rule: "expressions without variables or with up to three, of terms that are zero or cancel, constraints that are always, never or sometimes satisfied, with the smallest settings; the annealer on models of up to three nodes with weights that are zero, subnormal or huge and schedules of none to two temperatures. Non-trivial: all; distinct by problem and settings",
			workers: 0,
			need: &[
				"solutions without variables",
				"solutions of a single variable",
				"solutions with violations",
				"solutions without violations",
				"energies compared",
				"optima found",
				"annealing runs with fewer than two nodes",
				"annealing runs with extreme weights",
				"single nodes annealed",
			],
		},
		case,
	)
}
