//! C19: expression operators mean arithmetic
use rustqubo::Expr;
use std::collections::{BTreeMap, BTreeSet};
use vh::ast::*;
use vh::ensure;
use vh::num::*;
use vh::prng::Prng;
use vh::probe::*;
use vh::run::*;

/// Operators with a plain number on the left side (they exist per type) and on the right side
trait Ops: Num {
	fn add_l<P: Lab, Q: Lab, C: Lab>(self, e: Expr<P, Q, C, Self>) -> Expr<P, Q, C, Self>;
	fn sub_l<P: Lab, Q: Lab, C: Lab>(self, e: Expr<P, Q, C, Self>) -> Expr<P, Q, C, Self>;
	fn mul_l<P: Lab, Q: Lab, C: Lab>(self, e: Expr<P, Q, C, Self>) -> Expr<P, Q, C, Self>;
	fn add_r<P: Lab, Q: Lab, C: Lab>(self, e: Expr<P, Q, C, Self>) -> Expr<P, Q, C, Self>;
	fn sub_r<P: Lab, Q: Lab, C: Lab>(self, e: Expr<P, Q, C, Self>) -> Expr<P, Q, C, Self>;
	fn mul_r<P: Lab, Q: Lab, C: Lab>(self, e: Expr<P, Q, C, Self>) -> Expr<P, Q, C, Self>;
}
macro_rules! ops {
	($($t:ty)*) => { $(
		impl Ops for $t {
			fn add_l<P: Lab, Q: Lab, C: Lab>(self, e: Expr<P, Q, C, $t>) -> Expr<P, Q, C, $t> {
				self + e
			}
			fn sub_l<P: Lab, Q: Lab, C: Lab>(self, e: Expr<P, Q, C, $t>) -> Expr<P, Q, C, $t> {
				self - e
			}
			fn mul_l<P: Lab, Q: Lab, C: Lab>(self, e: Expr<P, Q, C, $t>) -> Expr<P, Q, C, $t> {
				self * e
			}
			fn add_r<P: Lab, Q: Lab, C: Lab>(self, e: Expr<P, Q, C, $t>) -> Expr<P, Q, C, $t> {
				e + self
			}
			fn sub_r<P: Lab, Q: Lab, C: Lab>(self, e: Expr<P, Q, C, $t>) -> Expr<P, Q, C, $t> {
				e - self
			}
			fn mul_r<P: Lab, Q: Lab, C: Lab>(self, e: Expr<P, Q, C, $t>) -> Expr<P, Q, C, $t> {
				e * self
			}
		}
	)* };
}
ops!(i8 i16 i32 i64 i128 f32 f64);

type Used = BTreeMap<&'static str, u64>;

/// The expression, made with operators chosen at random.
fn build<R: Ops, P: Lab, V: Lab, C: Lab>(a: &Ast, r: &mut Prng, u: &mut Used) -> Expr<P, V, C, R> {
	use Ast::*;
	let mut used = |what: &'static str| *u.entry(what).or_insert(0) += 1;
	match a {
		Num(q) if q.is_zero() && r.bool() => {
			used("zero()");
			Expr::zero()
		}
		Num(q) if *q == Q::ONE && r.bool() => {
			used("one()");
			Expr::one()
		}
		Num(q) => {
			used("from number");
			if r.bool() {
				Expr::from(R::of(*q))
			} else {
				R::of(*q).into()
			}
		}
		Add(x, y) => match (&**x, &**y, r.below(4)) {
			(Num(q), y, 0 | 1) => {
				used("number + expression");
				R::of(*q).add_l(build(y, r, u))
			}
			(x, Num(q), 0) => {
				used("expression + number");
				R::of(*q).add_r(build(x, r, u))
			}
			(x, Num(q), 1) => {
				used("expression += number");
				let mut e = build(x, r, u);
				e += R::of(*q);
				e
			}
			(x, y, 2) => {
				used("expression += expression");
				let mut e: Expr<P, V, C, R> = build(x, r, u);
				let f: Expr<P, V, C, R> = build(y, r, u);
				e += f;
				e
			}
			(x, y, _) => {
				used("expression + expression");
				build(x, r, u) + build(y, r, u)
			}
		},
		Sub(x, y) => match (&**x, &**y, r.below(4)) {
			(Num(q), y, 0 | 1) => {
				used("number - expression");
				R::of(*q).sub_l(build(y, r, u))
			}
			(x, Num(q), 0) => {
				used("expression - number");
				R::of(*q).sub_r(build(x, r, u))
			}
			(x, Num(q), 1) => {
				used("expression -= number");
				let mut e = build(x, r, u);
				e -= R::of(*q);
				e
			}
			(x, y, 2) => {
				used("expression -= expression");
				let mut e: Expr<P, V, C, R> = build(x, r, u);
				let f: Expr<P, V, C, R> = build(y, r, u);
				e -= f;
				e
			}
			(x, y, _) => {
				used("expression - expression");
				build(x, r, u) - build(y, r, u)
			}
		},
		Mul(x, y) => match (&**x, &**y, r.below(4)) {
			(Num(q), y, 0 | 1) => {
				used("number * expression");
				R::of(*q).mul_l(build(y, r, u))
			}
			(x, Num(q), 0) => {
				used("expression * number");
				R::of(*q).mul_r(build(x, r, u))
			}
			(x, Num(q), 1) => {
				used("expression *= number");
				let mut e = build(x, r, u);
				e *= R::of(*q);
				e
			}
			(x, y, 2) => {
				used("expression *= expression");
				let mut e: Expr<P, V, C, R> = build(x, r, u);
				let f: Expr<P, V, C, R> = build(y, r, u);
				e *= f;
				e
			}
			(x, y, _) => {
				used("expression * expression");
				build(x, r, u) * build(y, r, u)
			}
		},
		Neg(x) => {
			used("- expression");
			-build(x, r, u)
		}
		Pow(x, n) => {
			if *n == 0 {
				used("zeroth power");
			}
			if r.bool() {
				used("expression ^ n");
				build(x, r, u) ^ *n
			} else {
				used("expression ^= n");
				let mut e = build(x, r, u);
				e ^= *n;
				e
			}
		}
		Con(l, x) => Expr::Constraint { label: C::mk(*l), expr: Box::new(build(x, r, u)) },
		Pen(x, y) => Expr::WithPenalty {
			expr: Box::new(build(x, r, u)),
			penalty: Box::new(build(y, r, u)),
		},
		Ph(p) => Expr::Placeholder(P::mk(*p)),
		Bin(i) => Expr::Binary(V::mk(*i)),
		Spin(i) => Expr::Spin(V::mk(*i)),
	}
}

/// Occurrences of the parts that do not depend on how operators are represented
fn parts(a: &Ast, times: u64, n: &mut BTreeMap<String, u64>) {
	let key = match a {
		Ast::Bin(i) => format!("binary {}", i),
		Ast::Spin(i) => format!("spin {}", i),
		Ast::Ph(i) => format!("placeholder {}", i),
		Ast::Con(i, _) => format!("constraint {}", i),
		Ast::Pen(..) => String::from("penalty"),
		_ => String::new(),
	};
	if times > 0 && !key.is_empty() {
		*n.entry(key).or_insert(0) += times;
	}
	let times = match a {
		Ast::Pow(_, k) => times * *k as u64,
		_ => times,
	};
	a.kids().into_iter().for_each(|k| parts(k, times, n));
}

/// What a mapping does to the leaves and labels
#[derive(Clone, Debug)]
struct Change {
	vars: Vec<Ast>,
	phs: Vec<Ast>,
	labels: Vec<usize>,
}

fn change(a: &Ast, ch: &Change) -> Ast {
	use Ast::*;
	let c = |a: &Ast| Box::new(change(a, ch));
	match a {
		Bin(i) => ch.vars[*i].clone(),
		// a spin remains one
		Spin(i) => match &ch.vars[*i] {
			Bin(j) => Spin(*j),
			Spin(j) => Bin(*j),
			o => o.clone(),
		},
		Ph(i) => ch.phs[*i].clone(),
		Con(l, x) => Con(ch.labels[*l], c(x)),
		Num(_) => a.clone(),
		Add(x, y) => Add(c(x), c(y)),
		Sub(x, y) => Sub(c(x), c(y)),
		Mul(x, y) => Mul(c(x), c(y)),
		Pen(x, y) => Pen(c(x), c(y)),
		Neg(x) => Neg(c(x)),
		Pow(x, n) => Pow(c(x), *n),
	}
}

const V: usize = 8;

fn is<R: Ops, P: Lab, Q_: Lab, C: Lab>(
	c: &mut Case,
	e: Expr<P, Q_, C, R>,
	ast: &Ast,
	ph: &[Q],
	w: &[Q],
	what: &str,
) -> Result<bool, String> {
	let dict = dict(ph, |_| true);
	let labels = ast.labels();
	let vars = ast.vars();
	probe(e, dict, Default::default(), |s, inner| {
		s.coeff_strength = strength(labels.len(), w[0]);
		let l = learn(s, inner, &vars).map_err(|e| format!("{}: {}", what, e))?;
		if l.anc.len() > 10 {
			return Ok(false);
		}
		let (n, _, lo, hi) = compare(&l, ast, ph, w).map_err(|e| format!("{}: {}", what, e))?;
		c.saw("assignments compared", n);
		for x in assignments(&vars).into_iter().take(3) {
			let st = l.state(x);
			let shot = shoot(s, inner, &vars, &labels, move |i| st[i]);
			let want = ast.violated(&At { x, ph, w });
			let got: BTreeSet<usize> = shot.violated.iter().copied().collect();
			ensure!(
				got == want && !shot.unknown_label,
				"{}: violated constraints {:?} instead of {:?} at x = {:b}",
				what, got, want, x
			);
		}
		Ok(lo != hi)
	})
}

fn check<R: Ops, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let w = vec![Q::int(c.rng.range(1, 2) as i128); 6];
	let ph = ph_values::<R>(&mut c.rng, 2);
	let mut g = settings::<R>(&mut c.rng, 3);
	g.vars = g.vars.min(4);
	g.phs = c.rng.below(3);
	g.mag = g.mag.min(5);
	let ast = fitting::<R>(&mut c.rng, &ph, &w, 4, 4, |r| {
		let size = 1 + r.below(7);
		let mut t = g.tree(r, size, 3, true);
		for _ in 0..r.below(4) {
			let n = if r.chance(2, 3) {
				g.number(r)
			} else {
				g.tree(r, 2, 1, true)
			};
			let (x, y) = if r.bool() { (t, n) } else { (n, t) };
			t = match r.below(8) {
				0 | 1 => add(x, y),
				2 | 3 => sub(x, y),
				4 | 5 => mul(x, y),
				6 => neg(sub(x, y)),
				_ => {
					let n = *r.pick(&[0, 1, 2, 2, 3, 4]);
					pow(add(x, y), n)
				}
			};
		}
		if r.chance(1, 10) {
			// a high power of something small
			let i = r.below(g.vars);
			let x = match r.below(5) {
				0 => bin(i),
				1 => num(*r.pick(&[-1, 1, 2])),
				2 => sub(bin(i), num(1)),
				3 => sub(num(2), bin(i)),
				_ => sub(bin(i), bin(r.below(g.vars))),
			};
			t = add(t, pow(x, 5 + r.below(9)));
		}
		t
	});
	if ast.any(&|a| matches!(a, Ast::Pow(_, 8..))) {
		c.saw("powers above seven", 1);
	}
	c.desc = format!("{}: {}", R::NAME, ast);
	let mut u = Used::new();
	let e: Expr<Tp, Tq, Tc, R> = build(&ast, &mut c.rng, &mut u);
	let nontrivial = is(c, e.clone(), &ast, &ph, &w, "operators")?;
	for (k, n) in &u {
		c.saw(k, *n);
	}
	if nontrivial {
		c.nontrivial(&format!("{} {:?}", c.desc, u.keys()));
	}
	// the identity, counting
	let mut seen: BTreeMap<String, u64> = BTreeMap::new();
	let name = |e: &Expr<Tp, Tq, Tc, R>| -> Option<String> {
		let v = |t: &Tq| (0..V).find(|i| Tq::mk(*i) == *t).map_or(99, |i| i);
		match e {
			Expr::Binary(t) => Some(format!("binary {}", v(t))),
			Expr::Spin(t) => Some(format!("spin {}", v(t))),
			Expr::Placeholder(p) => {
				Some(format!("placeholder {}", (0..V).find(|i| Tp::mk(*i) == *p).unwrap_or(99)))
			}
			Expr::Constraint { label, .. } => {
				Some(format!("constraint {}", (0..V).find(|i| Tc::mk(*i) == *label).unwrap_or(99)))
			}
			Expr::WithPenalty { .. } => Some(String::from("penalty")),
			_ => None,
		}
	};
	let same = e.clone().map(&mut |e| {
		if let Some(k) = name(&e) {
			*seen.entry(k).or_insert(0) += 1;
		}
		e
	});
	let mut want = BTreeMap::new();
	parts(&ast, 1, &mut want);
	ensure!(seen == want, "mapping visits {:?}, the parts are {:?}", seen, want);
	c.saw("parts visited", want.values().sum());
	if c.rng.chance(1, 2) {
		is(c, same, &ast, &ph, &w, "mapped with the identity")?;
		c.saw("mapped with the identity", 1);
		return Ok(());
	}
	// a change of leaves and labels
	let n = g.vars;
	let mut to: Vec<usize> = (0..n).collect();
	c.rng.shuffle(&mut to);
	let ch = Change {
		vars: (0..n)
			.map(|i| match c.rng.below(8) {
				0 => Ast::Num(Q::int(c.rng.range(-1, 1) as i128)),
				1 => bin(to[0]),
				2 | 3 => spin(to[i]),
				_ => bin(to[i]),
			})
			.collect(),
		phs: (0..2)
			.map(|i| match c.rng.below(3) {
				0 => Ast::Num(ph[i]),
				1 => Ast::Ph(1 - i),
				_ => Ast::Ph(i),
			})
			.collect(),
		labels: (0..6).map(|i| (i + c.rng.below(2)) % 4).collect(),
	};
	let after = change(&ast, &ch);
	let fits = after.degree() <= 4
		&& after.fits::<R>(&ph, &w, 4)
		&& R::from_q(Q::int(after.labels().len().max(1) as i128) * w[0]).is_some();
	if !fits {
		return Ok(());
	}
	let leaf = |a: &Ast| -> Expr<Tp, Tq, Tc, R> { a.expr() };
	let mapped = e.map(&mut |e| match e {
		Expr::Binary(t) => {
			let i = (0..n).find(|i| Tq::mk(*i) == t).expect("a variable");
			leaf(&ch.vars[i])
		}
		Expr::Spin(t) => {
			let i = (0..n).find(|i| Tq::mk(*i) == t).expect("a variable");
			leaf(&change(&spin(i), &ch))
		}
		Expr::Placeholder(p) => {
			let i = (0..2).find(|i| Tp::mk(*i) == p).expect("a placeholder");
			leaf(&ch.phs[i])
		}
		Expr::Constraint { label, expr } => {
			let i = (0..6).find(|i| Tc::mk(*i) == label).expect("a label");
			Expr::Constraint { label: Tc::mk(ch.labels[i]), expr }
		}
		e => e,
	});
	let what = format!("mapped with {:?}", ch);
	is(c, mapped, &after, &ph, &w, &what)?;
	c.saw("mapped with a change", 1);
	Ok(())
}

fn case(c: &mut Case) -> Res {
	match c.rng.below(7) {
		0 => check::<i8, String, u32, String>(c),
		1 => check::<i16, u8, Mixed, u8>(c),
		2 => check::<i32, String, &'static str, u32>(c),
		3 => check::<i64, u32, (usize, i8), &'static str>(c),
		4 => check::<i128, char, u8, (usize, i8)>(c),
		5 => check::<f32, (usize, i8), String, Mixed>(c),
		_ => check::<f64, &'static str, char, u32>(c),
	}
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C19",
			quick: 240_000,
			thorough: 6_000_000,
			rule: "random expressions made with operators chosen at random among the equivalent ones (plain numbers on either side, assigning forms, powers 0 to 4, some up to 13), for all seven numeric types; the energies of all assignments are compared with exact arithmetic, then the expression is mapped with the identity or with changes of variables, placeholders and labels. Non-trivial: the energy is not constant; distinct by expression, type and operators",
			workers: 0,
			need: &[
				"assignments compared",
				"zero()",
				"one()",
				"from number",
				"number + expression",
				"expression + number",
				"expression += number",
				"expression += expression",
				"expression + expression",
				"number - expression",
				"expression - number",
				"expression -= number",
				"expression -= expression",
				"expression - expression",
				"number * expression",
				"expression * number",
				"expression *= number",
				"expression *= expression",
				"expression * expression",
				"- expression",
				"zeroth power",
				"powers above seven",
				"expression ^ n",
				"expression ^= n",
				"parts visited",
				"mapped with the identity",
				"mapped with a change",
			],
		},
		case,
	)
}
