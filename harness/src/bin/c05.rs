//! C05: the list of violated constraints is exact
use std::collections::BTreeSet;
use vh::ast::*;
use vh::num::*;
use vh::prng::Prng;
use vh::probe::*;
use vh::run::*;
use vh::wide;
use vh::{ensure, with_types};

/// A constraint body
fn body(r: &mut Prng, g: &Gen, nph: usize) -> Ast {
	let mut vs: Vec<usize> = (0..g.vars).collect();
	r.shuffle(&mut vs);
	let k = 1 + r.below(vs.len().min(3));
	let lit = |r: &mut Prng, i: usize| if r.chance(1, 3) { spin(i) } else { bin(i) };
	let mut terms: Vec<Ast> = vs[..k].iter().map(|i| lit(r, *i)).collect();
	match r.below(7) {
		// exactly one
		0 | 1 => {
			terms.push(num(-1));
			pow(sum(terms), 2)
		}
		// linear
		2 => {
			terms.push(g.number(r));
			sum(terms)
		}
		// product: high degree
		3 => product((0..g.vars.min(2 + r.below(3))).map(|i| if r.bool() { bin(i) } else { sub(num(1), bin(i)) }).collect()),
		// equal
		4 => sub(lit(r, vs[0]), lit(r, vs[k - 1])),
		// with a placeholder
		5 if nph > 0 => sub(mul(Ast::Ph(0), bin(vs[0])), mul(bin(vs[k - 1]), Ast::Ph(nph - 1))),
		_ => {
			let size = 1 + r.below(7);
			g.tree(r, size, 2, false)
		}
	}
}

fn check<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let nph = c.rng.below(3);
	let ph = ph_values::<R>(&mut c.rng, nph);
	let w = vec![Q::ONE; 6];
	let mut g = settings::<R>(&mut c.rng, 3);
	g.labels = 1 + c.rng.below(5);
	g.vars = g.vars.max(2);
	g.phs = nph;
	let tiny = R::BITS < 20;
	let ast = fitting::<R>(&mut c.rng, &ph, &w, if tiny { 1 } else { 6 }, 5, |r| {
		let size = 1 + r.below(if tiny { 2 } else { 6 });
		let mut t = g.tree(r, size, 2, true);
		for _ in 0..1 + r.below(if tiny { 2 } else { 4 }) {
			let k = con(r.below(g.labels), body(r, &g, nph));
			t = match r.below(9) {
				0 => pen(t, k),
				1 => add(k, t),
				2 => sub(t, k),
				3 => mul(num(2), add(t, k)),
				4 => mul(k, add(num(1), bin(0))),
				5 => pen(k, t),
				_ => add(t, k),
			};
		}
		t
	});
	let (vars, labels) = (ast.vars(), ast.labels());
	c.desc = format!("{}: {} P={:?}", R::NAME, ast, ph);
	probe(ast.expr::<Tp, Tq, Tc, R>(), dict(&[], |_| true), dict(&ph, |_| true), |s, inner| {
		s.coeff_strength = strength(labels.len(), w[0]);
		let l = learn(s, inner, &vars)?;
		let mut kinds = BTreeSet::new();
		let mut ats = assignments(&vars);
		if ats.len() > 16 {
			c.rng.shuffle(&mut ats);
			ats.truncate(16);
		}
		for x in ats {
			let mut st = l.state(x);
			// auxiliary variables with any value, also a wrong one
			for a in &l.anc {
				st[*a] = c.rng.bool();
			}
			let shot = shoot(s, inner, &vars, &labels, move |i| st[i]);
			let at = At { x, ph: &ph, w: &w };
			let want = ast.violated(&at);
			let got: BTreeSet<usize> = shot.violated.iter().copied().collect();
			ensure!(!shot.unknown_label, "a label which is none of the expression is listed, x = {:b}", x);
			ensure!(
				got == want,
				"violated constraints {:?} instead of {:?} (label numbers) at x = {:b}",
				got,
				want,
				x
			);
			ensure!(
				shot.violated.len() <= 64,
				"{} violated constraints are listed",
				shot.violated.len()
			);
			c.saw("lists compared", 1);
			c.saw("violated labels", want.len() as u64);
			c.saw("satisfied labels", (labels.len() - want.len()) as u64);
			kinds.insert(want);
		}
		c.saw("auxiliary variables", l.anc.len() as u64);
		if kinds.len() >= 2 {
			c.nontrivial(&c.desc.clone());
			c.sample = Some(format!("{} -> {} different lists, e.g. {:?}", c.desc, kinds.len(), kinds.iter().last()));
		}
		Ok(())
	})
}

/// The tolerance
fn tolerance<R: Num>(c: &mut Case) -> Res {
	let k = 1 + c.rng.below(6);
	let vals: Vec<f64> = (0..k)
		.map(|_| {
			let m = match c.rng.below(4) {
				0 => 0.97e-4,
				1 => 1.03e-4,
				2 => 0.9e-4 * c.rng.f64(),
				_ => 1.1e-4 + 0.01 * c.rng.f64() * c.rng.f64(),
			};
			if c.rng.bool() { m } else { -m }
		})
		.collect();
	c.desc = format!("{}: constraints c[i]: v[i] * x[i], v = {:?}", R::NAME, vals);
	let mut e = rustqubo::Expr::<u8, u32, u32, R>::zero();
	for (i, v) in vals.iter().enumerate() {
		e = e + rustqubo::Expr::Constraint {
			label: u32::mk(i),
			expr: Box::new(rustqubo::Expr::Number(R::from_f64(*v)) * rustqubo::Expr::Binary(u32::mk(i))),
		};
	}
	let vars: BTreeSet<usize> = (0..k).collect();
	probe(e, dict(&[], |_| true), dict(&[], |_| true), |s, inner| {
		s.coeff_strength = R::from_i32(k as i32);
		for _ in 0..4 {
			let bits = c.rng.u64();
			let shot = shoot(s, inner, &vars, &vars, move |i| bits >> (i % 64) & 1 == 1);
			let want: Vec<usize> = (0..k).filter(|i| shot.values.get(i) == Some(&true) && vals[*i].abs() > 1.0e-4).collect();
			ensure!(
				shot.violated == want,
				"violated constraints {:?} instead of {:?} for {:?}",
				shot.violated,
				want,
				shot.values
			);
			c.saw("lists near the tolerance", 1);
			if !want.is_empty() {
				c.nontrivial(&c.desc.clone());
			}
		}
		Ok(())
	})
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C05",
			quick: 120_000,
			thorough: 12_000_000,
			rule: "random expressions with up to five labels (large ones with up to 300 and more constraints than labels) (shared labels, constraints in sums, products, negations and penalties, bodies that are squares, linear, products of degree up to five, equalities, with spins and placeholders); the annealer answers with up to 16 assignments each with arbitrary auxiliary values; the returned labels are compared with exact evaluation; f32 and f64 values around 1e-4. Non-trivial: at least two different lists appeared; distinct by expression and type",
			workers: 0,
			need: &["lists compared", "violated labels", "satisfied labels", "lists near the tolerance", "auxiliary variables", "violated labels of large problems"],
		},
		|c| {
			if c.idx % 500 == 250 {
				let labels = wide::size(&mut c.rng, 5, 300);
				let (vars, pairs, pens) = (6 + c.rng.below(90), c.rng.below(40), c.rng.below(9));
				wide::any(c, wide::Spec { vars, pairs, labels, pens, ..Default::default() })
			} else if c.idx % 10 == 9 {
				if c.rng.bool() { tolerance::<f64>(c) } else { tolerance::<f32>(c) }
			} else {
				with_types!(c.rng.below(8), check(c))
			}
		},
	)
}
