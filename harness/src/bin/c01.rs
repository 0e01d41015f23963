//! C01: compiled energy = value of the expression (at most quadratic)
use vh::ast::*;
use vh::num::*;
use vh::prng::Prng;
use vh::probe::*;
use vh::run::*;
use vh::wide;
use vh::{ensure, with_types};

/// Expressions whose expansion is at most quadratic
fn generate<R: Num>(r: &mut Prng, ph: usize) -> Ast {
	let big = R::BITS >= 31;
	let mut g = Gen {
		vars: 1 + r.below(if big { 6 } else { 3 }),
		phs: ph,
		labels: r.below(4),
		mag: if R::BITS < 15 { 3 } else if big && r.chance(1, 4) { 1000 } else { 9 },
		frac: if R::INT { 0 } else { 3 },
		pens: r.chance(1, 3),
		spins: r.chance(3, 4),
		degree: 2,
	};
	match r.below(10) {
		// anything over at most two variables is quadratic
		0 => {
			g.vars = 2;
			let (size, d) = (3 + r.below(12), 3 + r.below(4) as u32);
			g.tree(r, size, d, true)
		}
		// squares of sums, as constraints or not
		1 | 2 => {
			let k = 1 + r.below(g.vars);
			let mut v: Vec<Ast> = (0..k)
				.map(|i| {
					let x = if g.spins && r.bool() { spin(i) } else { bin(i) };
					if r.bool() { mul(g.number(r), x) } else { x }
				})
				.collect();
			v.push(g.number(r));
			let sq = pow(sum(v), 2);
			let sq = if g.labels > 0 && r.bool() { con(r.below(g.labels), sq) } else { sq };
			let size = 1 + r.below(8);
			add(sq, g.tree(r, size, 2, true))
		}
		// many terms with the same variables: merging and cancelling
		3 => {
			let mut v = Vec::new();
			for _ in 0..2 + r.below(10) {
				let t = mul(bin(r.below(g.vars)), spin(r.below(g.vars)));
				let t = mul(g.number(r), t);
				v.push(t.clone());
				if r.chance(1, 4) {
					v.push(neg(t));
				}
			}
			sum(v)
		}
		_ => {
			let size = 1 + r.below(if big { 24 } else { 9 });
			g.tree(r, size, 2, true)
		}
	}
}

fn check<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let nph = if c.rng.chance(1, 3) { 2 } else { 0 };
	let ph = ph_values::<R>(&mut c.rng, nph);
	let (ast, w) = loop {
		let ast = generate::<R>(&mut c.rng, nph);
		let w = vec![
			if R::INT { Q::int(c.rng.range(1, 4) as i128) } else { Q::new(c.rng.range(1, 9) as i128, 1) };
			4
		];
		if ast.degree() <= 2
			&& ast.fits::<R>(&ph, &w, 1)
			&& R::from_q(Q::int(ast.labels().len() as i128) * w[0]).is_some()
		{
			break (ast, w);
		}
	};
	c.desc = format!("{}: {} P={:?} w={}", R::NAME, ast, ph, w[0]);
	let (vars, labels) = (ast.vars(), ast.labels());
	probe(ast.expr::<Tp, Tq, Tc, R>(), dict(&[], |_| true), dict(&ph, |_| true), |s, inner| {
		s.coeff_strength = strength(labels.len(), w[0]);
		let l = learn(s, inner, &vars)?;
		ensure!(l.anc.is_empty(), "{} auxiliary variables in a quadratic problem", l.anc.len());
		let (n, _, lo, hi) = compare(&l, &ast, &ph, &w)?;
		c.saw("assignments compared", n);
		c.saw("terms of the problem", l.cap.w.iter().filter(|w| !w.q().is_zero()).count() as u64);
		// the energy as it is returned
		for _ in 0..4 {
			let bits = c.rng.u64();
			let x = shoot(s, inner, &vars, &labels, move |i| bits >> (i % 64) & 1 == 1);
			let m = x.values.iter().fold(0, |m, (v, b)| m | (*b as u64) << v);
			let want = ast.energy(&At { x: m, ph: &ph, w: &w });
			ensure!(
				x.energy.q() == want,
				"energy {} returned for x = {:b}, but the expression is {}",
				x.energy,
				m,
				want
			);
			c.saw("energies returned by searches", 1);
		}
		if lo < hi {
			c.nontrivial(&c.desc.clone());
			c.sample = Some(format!("{} -> energies from {} to {}", c.desc, lo, hi));
		}
		Ok(())
	})
}

/// Values which need all the bits of i64 and i128
fn large(c: &mut Case) -> Res {
	/// bits of the coefficients, exponent of the unit
	fn go<R: Num>(c: &mut Case, top: usize, unit: i32) -> Res {
		let big = |r: &mut Prng| {
			let bits = 2 + r.below(top - 5);
			let m = (r.u64() as i128) << 64 | r.u64() as i128;
			let m = m & ((1i128 << bits) - 1);
			Num(if unit < 0 { Q::new(m, -unit as u32) } else { Q::int(m << unit) })
		};
		use Ast::Num;
		let r = &mut c.rng;
		let ast = sum(vec![
			mul(big(r), mul(bin(0), bin(1))),
			neg(mul(big(r), spin(1))),
			mul(spin(2), mul(big(r), bin(0))),
			sub(big(r), mul(bin(2), big(r))),
		]);
		c.desc = format!("{}: {}", R::NAME, ast);
		let vars = ast.vars();
		probe(ast.expr::<u8, u32, u8, R>(), dict(&[], |_| true), dict(&[], |_| true), |s, inner| {
			let l = learn(s, inner, &vars)?;
			let (n, _, lo, hi) = compare(&l, &ast, &[], &[])?;
			c.saw("assignments compared", n);
			c.saw(if unit < 0 { "small coefficients" } else { "large coefficients" }, 1);
			if lo < hi {
				c.nontrivial(&c.desc.clone());
			}
			Ok(())
		})
	}
	match c.rng.below(6) {
		0 => go::<i64>(c, 62, 0),
		1 => go::<i128>(c, 110, 0),
		2 | 3 => {
			let unit = -c.rng.range(20, 100) as i32;
			go::<f64>(c, 18, unit)
		}
		4 => {
			let unit = -c.rng.range(20, 100) as i32;
			go::<f32>(c, 18, unit)
		}
		_ => {
			let unit = c.rng.range(20, 80) as i32;
			go::<f64>(c, 18, unit)
		}
	}
}

fn main() {
	main_plan()
}

fn main_plan() -> ! {
	vh::run::main(
		Plan {
			prop: "C01",
			quick: 240_000,
			thorough: 24_000_000,
			rule: "random expressions over up to 6 variables whose expansion is at most quadratic (sums, differences, products, powers, negation, spins and binaries with one label, placeholders, constraints, penalties; also any degree over two variables, squares of sums, repeated and cancelling terms, coefficients of 60 and 110 bits, units from 2^-100 to 2^80; also problems of up to 450 variables and 1000 pairs at random assignments) in 7 numeric types and 7 label types; the problem received by the annealer is compared with exact evaluation on all assignments. Non-trivial: the expression is not constant; distinct by expression, type and weights",
			workers: 0,
			need: &["assignments compared", "energies returned by searches", "large coefficients", "small coefficients", "assignments of large problems"],
		},
		|c| {
			if c.idx % 4000 == 2000 {
				let vars = wide::size(&mut c.rng, 65, 450);
				let pairs = c.rng.below(1000);
				wide::any(c, wide::Spec { vars, pairs, ..Default::default() })
			} else if c.idx % 16 == 15 {
				large(c)
			} else {
				with_types!(c.idx, check(c))
			}
		},
	)
}
