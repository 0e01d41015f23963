//! C07: penalties are added once and unscaled
use std::collections::BTreeSet;
use vh::ast::*;
use vh::num::*;
use vh::prng::Prng;
use vh::probe::*;
use vh::run::*;
use vh::wide;
use vh::{ensure, with_types};

fn wrap(r: &mut Prng, g: &Gen, t: Ast, depth: usize) -> Ast {
	if depth == 0 {
		return t;
	}
	let small = |r: &mut Prng| {
		let size = 1 + r.below(4);
		g.tree(r, size, 1, true)
	};
	let t = match r.below(10) {
		0 => mul(g.number(r), t),
		1 => neg(t),
		2 => add(t, small(r)),
		3 => sub(small(r), t),
		4 => mul(t, small(r)),
		5 => pow(t, 2),
		// a penalty in a penalty
		6 => pen(small(r), t),
		7 => pen(t, con(r.below(g.labels.max(1)), small_body(r, g))),
		_ => pen(t, small(r)),
	};
	wrap(r, g, t, depth - 1)
}

fn small_body(r: &mut Prng, g: &Gen) -> Ast {
	let size = 1 + r.below(4);
	g.tree(r, size, 1, false)
}

fn bare(a: &Ast) -> Ast {
	use Ast::*;
	let b = |a: &Ast| Box::new(bare(a));
	match a {
		Pen(a, _) => bare(a),
		Add(x, y) => Add(b(x), b(y)),
		Sub(x, y) => Sub(b(x), b(y)),
		Mul(x, y) => Mul(b(x), b(y)),
		Neg(x) => Neg(b(x)),
		Pow(x, n) => Pow(b(x), *n),
		Con(l, x) => Con(*l, b(x)),
		o => o.clone(),
	}
}

fn check<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let w = vec![Q::int(c.rng.range(1, 3) as i128); 4];
	let mut g = settings::<R>(&mut c.rng, 2);
	g.pens = true;
	g.mag = g.mag.min(5);
	g.vars = g.vars.min(5);
	let ast = fitting::<R>(&mut c.rng, &[], &w, 4, 4, |r| {
		let t = {
			let size = 1 + r.below(4);
			g.tree(r, size, 1, true)
		};
		let depth = 1 + r.below(6);
		let t = wrap(r, &g, t, depth);
		if t.any(&|a| matches!(a, Ast::Pen(..))) {
			t
		} else {
			pen(t, bin(0))
		}
	});
	let (vars, labels) = (ast.vars(), ast.labels());
	c.desc = format!("{}: {} w={}", R::NAME, ast, w[0]);
	let mut with: Vec<Q> = Vec::new();
	probe(ast.expr::<Tp, Tq, Tc, R>(), dict(&[], |_| true), dict(&[], |_| true), |s, inner| -> Res {
		s.coeff_strength = strength(labels.len(), w[0]);
		let l = learn(s, inner, &vars)?;
		if l.anc.len() > 10 {
			return Ok(());
		}
		let (n, _, _, _) = compare(&l, &ast, &[], &w)?;
		c.saw("assignments compared", n);
		let mut penalties = BTreeSet::new();
		for x in assignments(&vars) {
			let at = At { x, ph: &[], w: &w };
			penalties.insert(ast.penalty(&at));
			with.push(l.min_over_anc(x).0);
		}
		for x in assignments(&vars).into_iter().take(6) {
			let st = l.state(x);
			let shot = shoot(s, inner, &vars, &labels, move |i| st[i]);
			let want = ast.violated(&At { x, ph: &[], w: &w });
			let got: BTreeSet<usize> = shot.violated.iter().copied().collect();
			ensure!(
				got == want && !shot.unknown_label,
				"violated constraints {:?} instead of {:?} at x = {:b}",
				got,
				want,
				x
			);
			c.saw("lists of violated constraints", 1);
		}
		if penalties.len() > 1 {
			c.nontrivial(&c.desc.clone());
			c.sample = Some(format!("{} -> penalties {:?}", c.desc, penalties.iter().map(|p| p.f64()).collect::<Vec<_>>()));
		}
		c.saw("penalties", count(&ast));
		Ok(())
	})?;
	// the difference to the same expression without any penalty is the sum of the penalties
	let plain = bare(&ast);
	if with.is_empty() || plain.labels() != labels {
		return Ok(());
	}
	probe(plain.expr::<Tp, Tq, Tc, R>(), dict(&[], |_| true), dict(&[], |_| true), |s, inner| -> Res {
		s.coeff_strength = strength(labels.len(), w[0]);
		let l = learn(s, inner, &plain.vars())?;
		if l.anc.len() > 10 {
			return Ok(());
		}
		for (x, e) in assignments(&vars).into_iter().zip(with.iter()) {
			let d = *e - l.min_over_anc(x).0;
			let p = ast.penalty(&At { x, ph: &[], w: &w });
			ensure!(
				d == p,
				"the penalties add {} to the energy, their sum is {} at x = {:b}",
				d,
				p,
				x
			);
			c.saw("differences to the expression without penalties", 1);
		}
		Ok(())
	})
}

fn count(a: &Ast) -> u64 {
	a.kids().iter().map(|k| count(k)).sum::<u64>() + matches!(a, Ast::Pen(..)) as u64
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C07",
			quick: 200_000,
			thorough: 20_000_000,
			rule: "random nestings of penalties (also sums with up to 400 of them) with sums, differences, products, negations, squares, penalties in penalties and constraints in penalties; energies of all assignments are compared with exact evaluation and with the same expression stripped of its penalties; violated constraints are compared. Non-trivial: the sum of the penalties is not constant; distinct by expression and type",
			workers: 0,
			need: &["assignments compared", "differences to the expression without penalties", "lists of violated constraints", "assignments of large problems"],
		},
		|c| {
			if c.idx % 1000 == 500 {
				let pens = wide::size(&mut c.rng, 5, 400);
				let (vars, pairs, labels) = (6 + c.rng.below(60), c.rng.below(40), c.rng.below(9));
				wide::any(c, wide::Spec { vars, pairs, labels, pens, ..Default::default() })
			} else {
				with_types!(c.idx, check(c))
			}
		},
	)
}
