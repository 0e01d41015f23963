//! Expressions of the workloads with their reference semantics, which never uses the code under
//! test.
use crate::num::{Lab, Num, Q};
use crate::prng::Prng;
use rustqubo::Expr;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
	Num(Q),
	Ph(usize),
	Bin(usize),
	Spin(usize),
	Add(Box<Ast>, Box<Ast>),
	Sub(Box<Ast>, Box<Ast>),
	Mul(Box<Ast>, Box<Ast>),
	Neg(Box<Ast>),
	Pow(Box<Ast>, usize),
	Con(usize, Box<Ast>),
	Pen(Box<Ast>, Box<Ast>),
}

use Ast::*;

pub fn num(n: i128) -> Ast {
	Num(Q::int(n))
}
pub fn bin(i: usize) -> Ast {
	Bin(i)
}
pub fn spin(i: usize) -> Ast {
	Spin(i)
}
pub fn add(a: Ast, b: Ast) -> Ast {
	Add(Box::new(a), Box::new(b))
}
pub fn sub(a: Ast, b: Ast) -> Ast {
	Sub(Box::new(a), Box::new(b))
}
pub fn mul(a: Ast, b: Ast) -> Ast {
	Mul(Box::new(a), Box::new(b))
}
pub fn neg(a: Ast) -> Ast {
	Neg(Box::new(a))
}
pub fn pow(a: Ast, n: usize) -> Ast {
	Pow(Box::new(a), n)
}
pub fn con(l: usize, a: Ast) -> Ast {
	Con(l, Box::new(a))
}
pub fn pen(a: Ast, p: Ast) -> Ast {
	Pen(Box::new(a), Box::new(p))
}
pub fn sum(v: Vec<Ast>) -> Ast {
	let mut it = v.into_iter();
	let first = it.next().unwrap_or(num(0));
	it.fold(first, add)
}
pub fn product(v: Vec<Ast>) -> Ast {
	let mut it = v.into_iter();
	let first = it.next().unwrap_or(num(1));
	it.fold(first, mul)
}

/// An assignment of everything an expression depends on.
#[derive(Clone, Debug)]
pub struct At<'a> {
	/// bit i: variable i
	pub x: u64,
	pub ph: &'a [Q],
	/// weights of the constraint labels
	pub w: &'a [Q],
}

impl At<'_> {
	pub fn bit(&self, i: usize) -> bool {
		self.x >> i & 1 == 1
	}
}

/// The same for any number of variables
#[derive(Clone, Debug)]
pub struct Big<'a> {
	pub x: &'a [bool],
	pub ph: &'a [Q],
	pub w: &'a [Q],
}

/// Values of variables, placeholders and labels
pub trait Point {
	fn bit(&self, i: usize) -> bool;
	fn ph(&self, i: usize) -> Q;
	fn w(&self, i: usize) -> Q;
}
impl Point for At<'_> {
	fn bit(&self, i: usize) -> bool {
		At::bit(self, i)
	}
	fn ph(&self, i: usize) -> Q {
		self.ph[i]
	}
	fn w(&self, i: usize) -> Q {
		self.w[i]
	}
}
impl Point for Big<'_> {
	fn bit(&self, i: usize) -> bool {
		self.x[i]
	}
	fn ph(&self, i: usize) -> Q {
		self.ph[i]
	}
	fn w(&self, i: usize) -> Q {
		self.w[i]
	}
}

impl Ast {
	pub fn kids(&self) -> Vec<&Ast> {
		match self {
			Num(_) | Ph(_) | Bin(_) | Spin(_) => vec![],
			Add(a, b) | Sub(a, b) | Mul(a, b) | Pen(a, b) => vec![a, b],
			Neg(a) | Pow(a, _) | Con(_, a) => vec![a],
		}
	}
	pub fn any(&self, f: &dyn Fn(&Ast) -> bool) -> bool {
		f(self) || self.kids().iter().any(|k| k.any(f))
	}
	pub fn size(&self) -> usize {
		1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
	}
	pub fn vars(&self) -> BTreeSet<usize> {
		let mut s: BTreeSet<usize> = self.kids().iter().flat_map(|k| k.vars()).collect();
		match self {
			Bin(i) | Spin(i) => {
				s.insert(*i);
			}
			Pow(_, 0) => s.clear(),
			_ => (),
		}
		s
	}
	pub fn phs(&self) -> BTreeSet<usize> {
		let mut s: BTreeSet<usize> = self.kids().iter().flat_map(|k| k.phs()).collect();
		match self {
			Ph(i) => {
				s.insert(*i);
			}
			Pow(_, 0) => s.clear(),
			_ => (),
		}
		s
	}
	pub fn labels(&self) -> BTreeSet<usize> {
		let mut s: BTreeSet<usize> = self.kids().iter().flat_map(|k| k.labels()).collect();
		match self {
			Con(l, _) => {
				s.insert(*l);
			}
			Pow(_, 0) => s.clear(),
			_ => (),
		}
		s
	}

	/// Value as an operand: penalties do not count.
	pub fn value<P: Point>(&self, at: &P) -> Q {
		match self {
			Num(q) => *q,
			Ph(p) => at.ph(*p),
			Bin(i) => Q::int(at.bit(*i) as i128),
			Spin(i) => Q::int(2 * at.bit(*i) as i128 - 1),
			Add(a, b) => a.value(at) + b.value(at),
			Sub(a, b) => a.value(at) - b.value(at),
			Mul(a, b) => a.value(at) * b.value(at),
			Neg(a) => -a.value(at),
			Pow(a, n) => {
				let v = a.value(at);
				(0..*n).fold(Q::ONE, |p, _| p * v)
			}
			Con(l, a) => at.w(*l) * a.value(at),
			Pen(a, _) => a.value(at),
		}
	}

	/// Sum of the penalties, once per occurrence, not scaled by the factors around them.
	pub fn penalty<P: Point>(&self, at: &P) -> Q {
		match self {
			Pen(a, p) => a.penalty(at) + p.penalty(at) + p.value(at),
			Pow(a, n) => Q::int(*n as i128) * a.penalty(at),
			_ => self.kids().iter().fold(Q::ZERO, |s, k| s + k.penalty(at)),
		}
	}

	/// Energy of the whole expression
	pub fn energy<P: Point>(&self, at: &P) -> Q {
		self.value(at) + self.penalty(at)
	}

	/// Labels of the constraints whose expression is not zero.
	pub fn violated<P: Point>(&self, at: &P) -> BTreeSet<usize> {
		let mut s = BTreeSet::new();
		self.collect_violated(at, &mut s);
		s
	}
	fn collect_violated<P: Point>(&self, at: &P, s: &mut BTreeSet<usize>) {
		match self {
			Con(l, a) => {
				if a.value(at).abs() >= Q::new(1, 13) {
					s.insert(*l);
				} else {
					assert!(a.value(at).is_zero(), "constraint value too close to zero");
				}
			}
			Pow(_, 0) => (),
			_ => self.kids().iter().for_each(|k| k.collect_violated(at, s)),
		}
	}

	/// What the coefficients of the expanded expression add up to at most
	pub fn magnitude(&self, ph: &[Q], w: &[Q]) -> f64 {
		match self {
			Num(q) => q.f64().abs(),
			Ph(p) => ph[*p].f64().abs(),
			Bin(_) => 1.0,
			Spin(_) => 3.0,
			Add(a, b) | Sub(a, b) | Pen(a, b) => a.magnitude(ph, w) + b.magnitude(ph, w),
			Mul(a, b) => a.magnitude(ph, w) * b.magnitude(ph, w),
			Neg(a) => a.magnitude(ph, w),
			Pow(a, n) => a.magnitude(ph, w).powi(*n as i32),
			Con(l, a) => a.magnitude(ph, w) * w[*l].f64().abs(),
		}
	}

	/// Bound of the absolute values of all intermediate results, also of the expanded polynomial.
	pub fn bound(&self, ph: &[Q], w: &[Q]) -> f64 {
		match self {
			Num(q) => q.f64().abs().max(1.0),
			Ph(p) => ph[*p].f64().max(1.0),
			Bin(_) => 1.0,
			Spin(_) => 3.0,
			Add(a, b) | Sub(a, b) => a.bound(ph, w) + b.bound(ph, w),
			Mul(a, b) => a.bound(ph, w) * b.bound(ph, w),
			Neg(a) => a.bound(ph, w),
			Pow(a, n) => a.bound(ph, w).max(1.0).powi(*n as i32),
			Con(l, a) => a.bound(ph, w) * w[*l].f64().max(1.0),
			// counted with any factor around it, which is too much
			Pen(a, p) => a.bound(ph, w) + p.bound(ph, w),
		}
	}

	/// Bound of the number of fractional bits of all intermediate results.
	pub fn frac(&self, ph: &[Q], w: &[Q]) -> u32 {
		match self {
			Num(q) => q.e,
			Ph(p) => ph[*p].e,
			Bin(_) | Spin(_) => 0,
			Add(a, b) | Sub(a, b) | Pen(a, b) => a.frac(ph, w).max(b.frac(ph, w)),
			Mul(a, b) => a.frac(ph, w) + b.frac(ph, w),
			Neg(a) => a.frac(ph, w),
			Pow(a, n) => a.frac(ph, w) * *n as u32,
			Con(l, a) => a.frac(ph, w) + w[*l].e,
		}
	}

	/// Is everything about this expression exact in the numeric type, with this reserve of bits?
	pub fn fits<R: Num>(&self, ph: &[Q], w: &[Q], reserve: u32) -> bool {
		let f = self.frac(ph, w);
		if R::INT && f > 0 {
			return false;
		}
		let lim = R::BITS.min(120) as i32 - reserve as i32 - f as i32;
		lim > 0 && self.bound(ph, w) < (lim as f64).exp2()
	}

	/// The monomials (sets of variables) of the expansion, also those that cancel.
	pub fn monos(&self) -> BTreeSet<u64> {
		let (mut a, b) = self.monos2();
		a.extend(b);
		a
	}
	fn monos2(&self) -> (BTreeSet<u64>, BTreeSet<u64>) {
		fn cross(a: &BTreeSet<u64>, b: &BTreeSet<u64>) -> BTreeSet<u64> {
			a.iter().flat_map(|x| b.iter().map(move |y| x | y)).collect()
		}
		match self {
			Num(_) | Ph(_) => ([0].into_iter().collect(), BTreeSet::new()),
			Bin(i) => ([1u64 << i].into_iter().collect(), BTreeSet::new()),
			Spin(i) => ([0, 1u64 << i].into_iter().collect(), BTreeSet::new()),
			Add(a, b) | Sub(a, b) => {
				let (mut v, mut p) = a.monos2();
				let (v2, p2) = b.monos2();
				v.extend(v2);
				p.extend(p2);
				(v, p)
			}
			Mul(a, b) => {
				let (v, mut p) = a.monos2();
				let (v2, p2) = b.monos2();
				p.extend(p2);
				(cross(&v, &v2), p)
			}
			Neg(a) | Con(_, a) => a.monos2(),
			Pow(a, n) => {
				let (v, p) = a.monos2();
				let mut r: BTreeSet<u64> = [0].into_iter().collect();
				for _ in 0..*n {
					r = cross(&r, &v);
				}
				(r, if *n == 0 { BTreeSet::new() } else { p })
			}
			Pen(a, b) => {
				let (v, mut p) = a.monos2();
				let (v2, p2) = b.monos2();
				p.extend(v2);
				p.extend(p2);
				(v, p)
			}
		}
	}
	pub fn degree(&self) -> u32 {
		self.monos().iter().map(|m| m.count_ones()).max().unwrap_or(0)
	}

	/// Number of products of the expansion when nothing is merged: the work of compiling it.
	pub fn cost(&self) -> f64 {
		match self {
			Num(_) | Ph(_) | Bin(_) => 1.0,
			Spin(_) => 2.0,
			Add(a, b) | Sub(a, b) | Pen(a, b) => a.cost() + b.cost(),
			Mul(a, b) => a.cost() * b.cost(),
			Neg(a) | Con(_, a) => a.cost(),
			Pow(a, n) => a.cost().powi(*n as i32),
		}
	}

	/// Replace placeholders by numbers.
	pub fn subst(&self, ph: &[Q], which: &dyn Fn(usize) -> bool) -> Ast {
		let s = |a: &Ast| Box::new(a.subst(ph, which));
		match self {
			Ph(p) if which(*p) => Num(ph[*p]),
			Num(_) | Ph(_) | Bin(_) | Spin(_) => self.clone(),
			Add(a, b) => Add(s(a), s(b)),
			Sub(a, b) => Sub(s(a), s(b)),
			Mul(a, b) => Mul(s(a), s(b)),
			Pen(a, b) => Pen(s(a), s(b)),
			Neg(a) => Neg(s(a)),
			Pow(a, n) => Pow(s(a), *n),
			Con(l, a) => Con(*l, s(a)),
		}
	}

	/// The expression of the library, made with its operators.
	pub fn expr<Tp: Lab, Tq: Lab, Tc: Lab, R: Num>(&self) -> Expr<Tp, Tq, Tc, R> {
		match self {
			Num(q) => Expr::Number(R::of(*q)),
			Ph(p) => Expr::Placeholder(Tp::mk(*p)),
			Bin(i) => Expr::Binary(Tq::mk(*i)),
			Spin(i) => Expr::Spin(Tq::mk(*i)),
			Add(a, b) => a.expr() + b.expr(),
			Sub(a, b) => a.expr() - b.expr(),
			Mul(a, b) => a.expr() * b.expr(),
			Neg(a) => -a.expr(),
			Pow(a, n) => a.expr() ^ *n,
			Con(l, a) => Expr::Constraint {
				label: Tc::mk(*l),
				expr: Box::new(a.expr()),
			},
			Pen(a, b) => Expr::WithPenalty {
				expr: Box::new(a.expr()),
				penalty: Box::new(b.expr()),
			},
		}
	}

	/// As `expr()` for expressions without constraints, with () as label
	pub fn expr_unit<Tq: Lab, R: Num>(&self) -> Expr<(), Tq, (), R> {
		match self {
			Num(q) => Expr::Number(R::of(*q)),
			Ph(_) | Con(..) => panic!("expr_unit"),
			Bin(i) => Expr::Binary(Tq::mk(*i)),
			Spin(i) => Expr::Spin(Tq::mk(*i)),
			Add(a, b) => a.expr_unit() + b.expr_unit(),
			Sub(a, b) => a.expr_unit() - b.expr_unit(),
			Mul(a, b) => a.expr_unit() * b.expr_unit(),
			Neg(a) => -a.expr_unit(),
			Pow(a, n) => a.expr_unit() ^ *n,
			Pen(a, b) => Expr::WithPenalty {
				expr: Box::new(a.expr_unit()),
				penalty: Box::new(b.expr_unit()),
			},
		}
	}
}

impl fmt::Display for Ast {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		match self {
			Num(q) => write!(f, "{}", q),
			Ph(p) => write!(f, "P{}", p),
			Bin(i) => write!(f, "x{}", i),
			Spin(i) => write!(f, "s{}", i),
			Add(a, b) => write!(f, "({} + {})", a, b),
			Sub(a, b) => write!(f, "({} - {})", a, b),
			Mul(a, b) => write!(f, "{}*{}", a, b),
			Neg(a) => write!(f, "-{}", a),
			Pow(a, n) => write!(f, "({})^{}", a, n),
			Con(l, a) => write!(f, "con[{}]({})", l, a),
			Pen(a, b) => write!(f, "pen({}; {})", a, b),
		}
	}
}

/// What the random expressions may contain.
#[derive(Clone, Debug)]
pub struct Gen {
	pub vars: usize,
	pub phs: usize,
	pub labels: usize,
	/// coefficients: up to this magnitude
	pub mag: i64,
	/// fractional bits of coefficients
	pub frac: u32,
	pub pens: bool,
	pub spins: bool,
	/// maximal degree of the expansion
	pub degree: u32,
}

impl Gen {
	pub fn number(&self, r: &mut Prng) -> Ast {
		let m = match r.below(10) {
			0 => 0,
			1 => 1,
			2 => -1,
			3 => self.mag,
			4 => -self.mag,
			_ => r.range(-self.mag, self.mag),
		};
		let e = if self.frac > 0 && r.bool() {
			1 + r.below(self.frac as usize) as u32
		} else {
			0
		};
		Num(Q::new(m as i128, e))
	}
	fn leaf(&self, r: &mut Prng, deg: u32) -> Ast {
		let k = r.below(10);
		if k == 0 && self.phs > 0 {
			Ph(r.below(self.phs))
		} else if k <= 2 || deg == 0 || self.vars == 0 {
			if self.phs > 0 && r.chance(1, 4) {
				Ph(r.below(self.phs))
			} else {
				self.number(r)
			}
		} else {
			let i = r.below(self.vars);
			if self.spins && r.chance(2, 5) {
				Spin(i)
			} else {
				Bin(i)
			}
		}
	}
	/// An expression with about `size` nodes and at most this degree; `top`: constraints and
	/// penalties are allowed.
	pub fn tree(&self, r: &mut Prng, size: usize, deg: u32, top: bool) -> Ast {
		if size <= 1 {
			return self.leaf(r, deg);
		}
		let k = r.below(20);
		if top && k == 0 && self.labels > 0 {
			return con(r.below(self.labels), self.tree(r, size - 1, deg, false));
		}
		if top && k == 1 && self.pens {
			let a = 1 + r.below(size - 1);
			return pen(
				self.tree(r, size - a, deg, top),
				self.tree(r, a, self.degree, top),
			);
		}
		let a = 1 + r.below(size - 1);
		let b = size - a;
		match k {
			2..=8 => add(self.tree(r, a, deg, top), self.tree(r, b, deg, top)),
			9..=11 => sub(self.tree(r, a, deg, top), self.tree(r, b, deg, top)),
			12 => neg(self.tree(r, size - 1, deg, top)),
			13 | 14 if deg >= 1 => {
				let n = r.below(deg as usize + 1);
				pow(self.tree(r, size / 2, deg / n.max(1) as u32, top), n)
			}
			_ => {
				let d = r.below(deg as usize + 1) as u32;
				let x = self.tree(r, a, d, top);
				let y = self.tree(r, b, deg - d, top);
				if r.bool() {
					mul(x, y)
				} else {
					mul(y, x)
				}
			}
		}
	}
}

/// Choose a type for numbers and labels, and call f::<R, Tp, Tq, Tc>(args).
#[macro_export]
macro_rules! with_types {
	($i:expr, $f:ident ( $($a:expr),* )) => {{
		use $crate::num::Mixed;
		match $i % 8 {
			0 => $f::<i32, String, u32, String>($($a),*),
			1 => $f::<f64, &'static str, String, u32>($($a),*),
			2 => $f::<i64, u32, (usize, i8), &'static str>($($a),*),
			3 => $f::<f32, (usize, i8), &'static str, Mixed>($($a),*),
			4 => $f::<i16, u8, Mixed, u8>($($a),*),
			5 => $f::<i128, char, u8, (usize, i8)>($($a),*),
			6 => $f::<f64, Mixed, $crate::num::Odd, char>($($a),*),
			_ => $f::<i8, $crate::num::Odd, char, $crate::num::Odd>($($a),*),
		}
	}};
}

/// A table of small exact values of placeholders: positive.
pub fn ph_values<R: Num>(r: &mut Prng, n: usize) -> Vec<Q> {
	(0..n)
		.map(|_| {
			if R::INT {
				Q::int(*r.pick(&[1, 2, 3, 5]))
			} else {
				Q::new(*r.pick(&[1, 2, 3, 5, 7]), *r.pick(&[0, 0, 1, 2]))
			}
		})
		.collect()
}

pub type Env = BTreeMap<usize, Q>;

/// Random expression of moderate degree which fits the numeric type (with placeholder values ph
/// and the weight w for every label).
pub fn fitting<R: Num>(
	r: &mut Prng,
	ph: &[Q],
	w: &[Q],
	reserve: u32,
	max_degree: u32,
	mut f: impl FnMut(&mut Prng) -> Ast,
) -> Ast {
	for _ in 0..200 {
		let ast = f(r);
		if ast.degree() <= max_degree
			&& ast.monos().len() <= 64
			&& ast.cost() <= 20_000.0
			&& ast.fits::<R>(ph, w, reserve)
			&& w.iter()
				.all(|w| R::from_q(Q::int(ast.labels().len().max(1) as i128) * *w).is_some())
		{
			return ast;
		}
	}
	crate::num::discard("no expression which fits the numeric type")
}

/// Settings of random expressions for the numeric type
pub fn settings<R: Num>(r: &mut Prng, degree: u32) -> Gen {
	let big = R::BITS >= 24;
	Gen {
		vars: 1 + r.below(if big { 6 } else { 3 }),
		phs: 0,
		labels: r.below(4),
		mag: if big { 9 } else { 2 },
		frac: if R::INT { 0 } else { 1 },
		pens: r.chance(1, 2),
		spins: r.chance(3, 4),
		degree,
	}
}

/// A constraint body of one of the usual shapes
pub fn body(r: &mut Prng, g: &Gen) -> Ast {
	let mut vs: Vec<usize> = (0..g.vars).collect();
	r.shuffle(&mut vs);
	let k = 1 + r.below(vs.len().min(3));
	let lit = |r: &mut Prng, i: usize| if r.chance(1, 3) { spin(i) } else { bin(i) };
	let mut terms: Vec<Ast> = vs[..k].iter().map(|i| lit(r, *i)).collect();
	match r.below(6) {
		// exactly one
		0 | 1 => {
			terms.push(num(-1));
			pow(sum(terms), 2)
		}
		// one variable
		2 => {
			if r.bool() {
				bin(vs[0])
			} else {
				sub(num(1), bin(vs[0]))
			}
		}
		3 => product(
			(0..g.vars.min(2 + r.below(2)))
				.map(|i| if r.bool() { bin(i) } else { sub(num(1), bin(i)) })
				.collect(),
		),
		// equal
		4 => pow(sub(lit(r, vs[0]), lit(r, vs[k - 1])), 2),
		_ => {
			terms.push(g.number(r));
			sum(terms)
		}
	}
}

/// An objective with distinctive coefficients plus constraints
pub fn constrained<R: Num>(r: &mut Prng, w: &[Q], max_labels: usize) -> Ast {
	let mut g = settings::<R>(r, 3);
	let tiny = R::BITS < 20;
	g.vars = g.vars.max(2);
	g.labels = 1 + r.below(max_labels);
	let big = if R::BITS >= 31 { 900 } else if tiny { 3 } else { 60 };
	fitting::<R>(r, &[], w, 2, 4, |r| {
		let mut terms = Vec::new();
		for i in 0..g.vars {
			if r.chance(3, 4) {
				terms.push(mul(num(r.range(-big, big) as i128), if r.bool() { bin(i) } else { spin(i) }));
			}
		}
		if !tiny {
			for _ in 0..r.below(4) {
				let (i, j) = (r.below(g.vars), r.below(g.vars));
				terms.push(mul(num(r.range(-big, big) as i128), mul(bin(i), bin(j))));
			}
			if r.chance(1, 5) && g.vars > 2 {
				terms.push(mul(num(r.range(-9, 9) as i128), product(vec![bin(0), bin(1), bin(2)])));
			}
		}
		for _ in 0..1 + r.below(if tiny { 2 } else { g.labels + 1 }) {
			let k = con(r.below(g.labels), body(r, &g));
			if r.chance(1, 8) {
				terms.push(pen(num(0), k));
			} else {
				let at = r.below(terms.len() + 1);
				terms.insert(at, k);
			}
		}
		sum(terms)
	})
}
