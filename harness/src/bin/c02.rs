//! C02: reduction of high-order terms keeps the minima over the auxiliary variables
use vh::ast::*;
use vh::num::*;
use vh::prng::Prng;
use vh::probe::*;
use vh::run::*;
use vh::wide;
use vh::{ensure, with_types};

fn coef(r: &mut Prng, g: &Gen) -> Ast {
	match r.below(6) {
		0 => num(1),
		1 => num(-1),
		2 if g.phs > 0 => {
			let p = Ast::Ph(r.below(g.phs));
			match r.below(5) {
				0 => neg(p),
				1 => mul(num(-2), p),
				// the sign is not known before the placeholders are
				2 => sub(p, Ast::Ph(r.below(g.phs))),
				3 => sub(num(2), p),
				_ => p,
			}
		}
		_ => g.number(r),
	}
}

fn lit(r: &mut Prng, g: &Gen, i: usize) -> Ast {
	match r.below(6) {
		0 if g.spins => spin(i),
		1 => sub(num(1), bin(i)),
		_ => bin(i),
	}
}

/// Product of k different variables out of `vs`
fn monomial(r: &mut Prng, g: &Gen, vs: &[usize], k: usize, plain: bool) -> Ast {
	let mut v = vs.to_vec();
	r.shuffle(&mut v);
	product(
		v[..k.min(v.len())]
			.iter()
			.map(|i| if plain { bin(*i) } else { lit(r, g, *i) })
			.collect(),
	)
}

fn generate<R: Num>(r: &mut Prng, ph: usize, thorough: bool) -> Ast {
	let big = R::BITS >= 31;
	let g = Gen {
		vars: 3 + r.below(if big { 4 } else { 2 }),
		phs: ph,
		labels: r.below(3),
		mag: if big { 9 } else { 2 },
		frac: if R::INT { 0 } else { 1 },
		pens: r.chance(1, 3),
		spins: r.bool(),
		degree: 4,
	};
	let all: Vec<usize> = (0..g.vars).collect();
	match r.below(12) {
		// one monomial of a degree of up to nine (or so), either sign
		0 | 1 => {
			let d = match r.below(40) {
				0 if big => 10 + r.below(4),
				_ => 3 + r.below(if big { 7 } else { 3 }),
			};
			let vs: Vec<usize> = (0..d).collect();
			let m = monomial(r, &g, &vs, d, true);
			let c = coef(r, &g);
			let t = mul(c, m);
			if r.bool() {
				add(t, mul(g.number(r), bin(r.below(d))))
			} else {
				t
			}
		}
		// several monomials that share a subset, same or mixed signs
		2..=5 => {
			let d = 2 + r.below(3);
			let core = monomial(r, &g, &all, d, true);
			let same = r.bool();
			let sign = r.bool();
			let mut v = Vec::new();
			for _ in 0..2 + r.below(3) {
				let k = r.below(g.vars);
				let m = mul(core.clone(), monomial(r, &g, &all, k.min(2), true));
				let mut c = num(r.range(1, if big { 9 } else { 2 }) as i128);
				if (same && sign) || (!same && r.bool()) {
					c = neg(c);
				}
				if r.chance(1, 4) {
					c = coef(r, &g);
				}
				v.push(mul(c, m));
			}
			if r.bool() {
				v.push(mul(g.number(r), monomial(r, &g, &all, 2, false)));
			}
			sum(v)
		}
		// powers of sums, also as constraint
		6 | 7 => {
			let k = 2 + r.below(2);
			let mut v: Vec<Ast> = all[..k + 1.min(g.vars - k)].iter().map(|i| bin(*i)).collect();
			v.push(num(-1));
			let e = if big && thorough { 3 + r.below(2) } else { 3 };
			let p = pow(sum(v), e);
			let p = if g.labels > 0 && r.bool() { con(r.below(g.labels), p) } else { p };
			if r.bool() {
				add(p, mul(g.number(r), bin(0)))
			} else {
				p
			}
		}
		// sums of monomials of any degree with spins and complements
		8 | 9 => {
			let mut v = Vec::new();
			for _ in 0..1 + r.below(5) {
				let k = 1 + r.below(g.vars.min(5));
				let m = monomial(r, &g, &all, k, false);
				let t = mul(coef(r, &g), m);
				v.push(match r.below(5) {
					0 if g.labels > 0 => con(r.below(g.labels), t),
					1 if g.pens => pen(mul(num(1), bin(0)), t),
					_ => t,
				});
			}
			sum(v)
		}
		_ => {
			let size = 4 + r.below(if big { 20 } else { 10 });
			g.tree(r, size, 4, true)
		}
	}
}

fn check<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let nph = if c.rng.chance(1, 2) { 2 } else { 0 };
	let ph = ph_values::<R>(&mut c.rng, nph);
	let mut tries = 0;
	let (ast, w) = loop {
		let thorough = c.thorough;
		let ast = generate::<R>(&mut c.rng, nph, thorough);
		let w = vec![Q::int(c.rng.range(1, 3) as i128); 4];
		tries += 1;
		if tries > 10_000 {
			discard("no expression which fits the numeric type");
		}
		let d = ast.degree();
		if (d >= 3 || c.rng.chance(1, 20))
			&& ast.monos().len() <= 48
			&& ast.fits::<R>(&ph, &w, if R::BITS >= 24 { 8 } else { 4 })
			&& R::from_q(Q::int(ast.labels().len() as i128) * w[0]).is_some()
		{
			break (ast, w);
		}
	};
	c.desc = format!("{}: {} P={:?} w={}", R::NAME, ast, ph, w[0]);
	let (vars, labels) = (ast.vars(), ast.labels());
	probe(ast.expr::<Tp, Tq, Tc, R>(), dict(&[], |_| true), dict(&ph, |_| true), |s, inner| {
		s.coeff_strength = strength(labels.len(), w[0]);
		let l = learn(s, inner, &vars)?;
		c.saw("terms of the reduced problems", l.cap.w.iter().filter(|w| !w.q().is_zero()).count() as u64);
		c.saw("auxiliary variables", l.anc.len() as u64);
		if l.anc.len() + vars.len() > 20 {
			c.saw("too large to enumerate", 1);
			return Ok(());
		}
		let (n, states, lo, hi) = compare(&l, &ast, &ph, &w)?;
		c.saw("assignments compared", n);
		c.saw("states minimised over", states);
		// and what a search returns for arbitrary values of the auxiliary variables
		for _ in 0..4 {
			let bits = c.rng.u64();
			let x = shoot(s, inner, &vars, &labels, move |i| bits >> (i % 64) & 1 == 1);
			let m = x.values.iter().fold(0, |m, (v, b)| m | (*b as u64) << v);
			let want = ast.energy(&At { x: m, ph: &ph, w: &w });
			ensure!(
				x.energy.q() >= want,
				"energy {} returned for x = {:b} is below {}, the value of the expression",
				x.energy,
				m,
				want
			);
			c.saw("energies returned by searches", 1);
		}
		if lo < hi && !l.anc.is_empty() {
			c.saw("reduced problems", 1);
			if ast.degree() >= 5 {
				c.saw("reduced problems of degree 5 and more", 1);
			}
			if ast.degree() >= 10 {
				c.saw("reduced problems of degree 10 and more", 1);
			}
			c.nontrivial(&c.desc.clone());
			c.sample = Some(format!("{} -> {} auxiliary variables, energies from {} to {}", c.desc, l.anc.len(), lo, hi));
		}
		Ok(())
	})
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C02",
			quick: 48_000,
			thorough: 4_800_000,
			rule: "random expressions with terms of degree 3 to 13 (single monomials, monomials sharing subsets with equal, opposite and placeholder-dependent signs, powers of sums, constraints, penalties, spins, complements) in 7 numeric types; also problems with up to 200 auxiliary variables, in independent groups, at random assignments; for every assignment of the user's variables the problem received by the annealer is minimised over all values of the auxiliary variables and compared with exact evaluation; a compilation that makes 5e8 allocations is taken as non-terminating. Non-trivial: at least one auxiliary variable and not constant; distinct by expression, type, weights",
			workers: 0,
			need: &["reduced problems", "reduced problems of degree 5 and more", "reduced problems of degree 10 and more", "states minimised over", "auxiliary variables of large problems"],
		},
		|c| {
			if c.idx % 800 == 400 {
				let groups = wide::size(&mut c.rng, 10, 85);
				let vars = 5 * groups + c.rng.below(20).max(6);
				let pairs = c.rng.below(40);
				wide::any(c, wide::Spec { vars, pairs, groups, ..Default::default() })
			} else {
				with_types!(c.idx, check(c))
			}
		},
	)
}
