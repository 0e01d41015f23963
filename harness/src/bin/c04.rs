//! C04: placeholders are filled completely and faithfully
use std::collections::HashMap;
use vh::ast::*;
use vh::num::*;
use vh::probe::*;
use vh::run::*;
use vh::wide;
use vh::{ensure, with_types};

fn check<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let nph = 1 + c.rng.below(4);
	let mut ph = ph_values::<R>(&mut c.rng, nph);
	let w = vec![Q::int(c.rng.range(1, 3) as i128); 4];
	let mut g = settings::<R>(&mut c.rng, 3);
	// values which need all bits of the type, or are very small
	let special = R::BITS > 20 && c.rng.chance(1, 6);
	if special {
		let r = &mut c.rng;
		let bits = (R::BITS.min(100) - 8) as usize;
		let m = ((r.u64() as i128) << 64 | r.u64() as i128) & ((1i128 << (2 + r.below(bits - 2))) - 1) | 1;
		let k = r.below(nph);
		ph[k] = if R::INT { Q::int(m) } else { Q::new(m & 0xfff, r.below(60) as u32) };
		if ph[k].is_zero() {
			ph[k] = Q::ONE;
		}
		g.pens = false;
		g.degree = 2;
	}
	g.phs = nph;
	g.vars = g.vars.min(4);
	let ast = fitting::<R>(&mut c.rng, &ph, &w, if special { 1 } else { 4 }, 4, |r| {
		if special {
			let p = || Ast::Ph(r.below(nph));
			let mut p = p;
			let (a, b) = (p(), p());
			return match r.below(4) {
				0 => sub(mul(a, bin(0)), b),
				1 => mul(a, spin(1)),
				2 if ph.iter().all(|p| p.e < 10) => con(0, sub(mul(bin(1), a.clone()), a)),
				_ => sub(mul(mul(bin(0), bin(1)), a), num(1)),
			};
		}
		let size = 2 + r.below(16);
		let deg = 1 + r.below(3) as u32;
		let t = g.tree(r, size, deg, true);
		let p = Ast::Ph(r.below(nph));
		match r.below(8) {
			0 => add(t, con(0, mul(p, sub(bin(0), bin(1))))),
			1 => add(t, pen(bin(0), mul(p, bin(1)))),
			2 => pen(t, con(1, sub(mul(p, bin(0)), Ast::Ph(r.below(nph))))),
			3 => mul(mul(p, Ast::Ph(r.below(nph))), t),
			4 => add(t, p),
			5 => add(t, mul(p, product(vec![bin(0), bin(1), bin(2)]))),
			_ => t,
		}
	});
	if special {
		c.saw("values of many bits", 1);
	}
	let (vars, labels, used) = (ast.vars(), ast.labels(), ast.phs());
	c.desc = format!("{}: {} P={:?} w={}", R::NAME, ast, ph, w[0]);
	let numbers = ast.subst(&ph, &|_| true);
	let early: Vec<bool> = c.rng.bits(nph);
	// (way, expression, fed before compilation, fed after it)
	type Dict<Tp, R> = HashMap<Tp, R>;
	let unused: Dict<Tp, R> = [(Tp::mk(9), R::from_i32(3))].into_iter().collect();
	let e: rustqubo::Expr<Tp, Tq, Tc, R> = ast.expr();
	// feeding in two steps before compilation
	let two = e.clone().feed_dict(&dict(&ph, |i| early[i])).feed_dict(&dict(&ph, |i| !early[i]));
	let ways: Vec<(&str, rustqubo::Expr<Tp, Tq, Tc, R>, Dict<Tp, R>, Dict<Tp, R>)> = vec![
		("numbers in place of placeholders", numbers.expr(), dict(&[], |_| true), dict(&[], |_| true)),
		("fed before compilation", e.clone(), dict(&ph, |_| true), dict(&[], |_| true)),
		("fed after compilation", e.clone(), dict(&[], |_| true), dict(&ph, |_| true)),
		("partly fed before", e.clone(), dict(&ph, |i| early[i]), dict(&ph, |i| !early[i])),
		("fed in two steps before compilation", two, dict(&[], |_| true), dict(&[], |_| true)),
		("fed with unused names", e.clone(), unused.clone(), dict(&ph, |_| true).into_iter().chain(unused.clone()).collect()),
	];
	let ats = assignments(&vars);
	for (way, e, before, after) in ways {
		probe(e, before, after, |s, inner| -> Res {
			s.coeff_strength = strength(labels.len(), w[0]);
			let l = learn(s, inner, &vars).map_err(|e| format!("{}: {}", way, e))?;
			if l.anc.len() <= 10 {
				let (n, _, _, _) = compare(&l, &ast, &ph, &w).map_err(|e| format!("{}: {}", way, e))?;
				c.saw("assignments compared", n);
			}
			// the constraints are evaluated with the values
			if !labels.is_empty() {
				for x in ats.iter().take(8) {
					let st = l.state(*x);
					let shot = shoot(s, inner, &vars, &labels, move |i| st[i]);
					let want: Vec<usize> = ast.violated(&At { x: *x, ph: &ph, w: &w }).into_iter().collect();
					let mut got = shot.violated.clone();
					got.dedup();
					ensure!(
						got == want && !shot.unknown_label,
						"{}: violated constraints {:?} instead of {:?} at x = {:b}",
						way,
						got,
						want,
						x
					);
					c.saw("lists of violated constraints compared", 1);
				}
			}
			Ok(())
		})?;
	}
	// a missing placeholder is refused
	if let Some(miss) = used.iter().nth(c.rng.below(used.len().max(1))) {
		let part: Dict<Tp, R> = dict(&ph, |i| i != *miss);
		let r = guard(|| {
			let _ = ast.expr::<Tp, Tq, Tc, R>().compile().feed_dict(part);
		});
		ensure!(r.is_err(), "the compiled problem accepts that P{} has no value", miss);
		c.saw("missing placeholders refused", 1);
		if !ats.is_empty() && ats.len() > 1 {
			c.nontrivial(&c.desc.clone());
		}
	}
	Ok(())
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C04",
			quick: 60_000,
			thorough: 6_000_000,
			rule: "random expressions with up to four placeholders (large ones with up to 150) in coefficients, products, constraints and penalties; fed before, after, partly before and after compilation, with unused names, and with the numbers written in place; energies of all assignments and violated constraints are compared with exact evaluation; each used name is also left out once. Non-trivial: a placeholder and a variable occur; distinct by expression, values and type",
			workers: 0,
			need: &["values of many bits", "assignments compared", "lists of violated constraints compared", "missing placeholders refused", "assignments of large problems"],
		},
		|c| {
			if c.idx % 500 == 250 {
				let phs = wide::size(&mut c.rng, 5, 150);
				let (vars, pairs, labels) = (6 + c.rng.below(60), c.rng.below(200), c.rng.below(30));
				wide::any(c, wide::Spec { vars, pairs, labels, phs, ..Default::default() })
			} else {
				with_types!(c.idx, check(c))
			}
		},
	)
}
