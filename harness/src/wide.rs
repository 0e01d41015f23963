//! Problems with hundreds of variables, labels, placeholders, penalties or auxiliary variables:
//! they are compared with the reference at random assignments, not at all of them.
use crate::ast::*;
use crate::num::*;
use crate::prng::Prng;
use crate::probe::*;
use crate::run::*;
use crate::{ensure, fail};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// How much of everything
#[derive(Clone, Copy, Debug, Default)]
pub struct Spec {
	pub vars: usize,
	pub pairs: usize,
	pub labels: usize,
	pub phs: usize,
	pub pens: usize,
	/// groups of terms of degree 3 to 5
	pub groups: usize,
}

pub struct Large {
	pub ast: Ast,
	pub ph: Vec<Q>,
	pub w: Vec<Q>,
	pub vars: BTreeSet<usize>,
	pub labels: BTreeSet<usize>,
}

fn lit(r: &mut Prng, i: usize) -> Ast {
	match r.below(4) {
		0 => spin(i),
		_ => bin(i),
	}
}

pub fn make<R: Num>(r: &mut Prng, s: Spec) -> Large {
	let mag = if R::BITS >= 31 { 99 } else { 9 };
	let coef = |r: &mut Prng, i: usize| match r.below(3) {
		0 if s.phs > 0 => {
			let p = Ast::Ph(i % s.phs);
			if r.bool() { p } else { neg(p) }
		}
		_ => num(r.range(-mag, mag) as i128),
	};
	let mut terms = Vec::new();
	for i in 0..s.vars {
		let c = coef(r, i);
		terms.push(mul(c, lit(r, i)));
	}
	for i in 0..s.phs {
		terms.push(mul(Ast::Ph(i), lit(r, (i * 7) % s.vars)));
	}
	for _ in 0..s.pairs {
		let (i, j) = (r.below(s.vars), r.below(s.vars));
		let c = coef(r, i);
		terms.push(mul(c, mul(lit(r, i), lit(r, j))));
	}
	let body = |r: &mut Prng| {
		let (i, j) = (r.below(s.vars), r.below(s.vars));
		match r.below(5) {
			0 => bin(i),
			1 => sub(num(1), lit(r, i)),
			2 => mul(bin(i), bin(j)),
			3 => pow(sub(add(bin(i), bin(j)), num(1)), 2),
			_ => sub(lit(r, i), bin(j)),
		}
	};
	for l in 0..s.labels {
		terms.push(con(l, body(r)));
		if r.chance(1, 6) {
			terms.push(con(r.below(s.labels), body(r)));
		}
	}
	for _ in 0..s.pens {
		let (i, j, k) = (r.below(s.vars), r.below(s.vars), r.below(s.vars));
		let p = mul(num(r.range(-mag, mag) as i128), mul(lit(r, i), bin(j)));
		let t = pen(bin(k), p);
		terms.push(match r.below(4) {
			0 => mul(num(3), t),
			1 => neg(t),
			_ => t,
		});
	}
	for g in 0..s.groups {
		// each with its own variables
		let at = g * 5 % (s.vars - 5);
		let at = if s.vars >= 5 * s.groups { g * 5 } else { at };
		for _ in 0..1 + r.below(2) {
			let mut v: Vec<usize> = (at..at + 5).collect();
			r.shuffle(&mut v);
			v.truncate(3 + r.below(3));
			let m = product(v.into_iter().map(bin).collect());
			let c = num(*r.pick(&[-5, -3, -1, 1, 2, 7]));
			terms.push(mul(c, m));
		}
	}
	r.shuffle(&mut terms);
	let ast = if r.bool() {
		sum(terms)
	} else {
		let n = 1 + r.below(40);
		sum(terms.chunks(n).map(|c| sum(c.to_vec())).collect())
	};
	let w = vec![Q::int(r.range(1, 3) as i128); s.labels.max(1)];
	let ph = (0..s.phs).map(|_| Q::int(r.range(1, 9) as i128)).collect();
	let (vars, labels) = (ast.vars(), ast.labels());
	Large { ast, ph, w, vars, labels }
}

/// Assignments with all densities, and a single variable
pub fn points(r: &mut Prng, n: usize, k: usize) -> Vec<Vec<bool>> {
	(0..k)
		.map(|i| match i {
			0 => vec![true; n],
			_ => {
				let (num, den) = *r.pick(&[(1, 2), (1, 2), (1, 10), (9, 10), (1, n + 1)]);
				(0..n).map(|_| r.chance(num, den)).collect()
			}
		})
		.collect()
}

/// The state of these variables, auxiliary variables false
pub fn state_of<R: Num>(l: &Learned<R>, x: &[bool]) -> Vec<bool> {
	let mut s = vec![false; l.cap.n];
	for (v, i) in &l.map {
		s[*i] = x[*v];
	}
	s
}

/// Minimum over the auxiliary variables: one connected component of them after the other.
/// None if a component is too large.
pub struct Minimiser {
	comps: Vec<Vec<usize>>,
}
impl Minimiser {
	pub fn new<R: Num>(l: &Learned<R>) -> Option<Self> {
		let mut left: BTreeSet<usize> = l.anc.iter().copied().collect();
		let mut comps = Vec::new();
		while let Some(first) = left.iter().next().copied() {
			left.remove(&first);
			let mut comp = vec![first];
			let mut k = 0;
			while k < comp.len() {
				let near: Vec<usize> = left
					.iter()
					.copied()
					.filter(|j| !l.cap.at(comp[k], *j).q().is_zero())
					.collect();
				for j in near {
					left.remove(&j);
					comp.push(j);
				}
				k += 1;
			}
			if comp.len() > 14 {
				return None;
			}
			comps.push(comp);
		}
		Some(Self { comps })
	}
	pub fn min<R: Num>(&self, l: &Learned<R>, x: &[bool]) -> Q {
		let s = state_of(l, x);
		let mut e = l.energy(&s);
		for comp in &self.comps {
			let field: Vec<Q> = comp
				.iter()
				.map(|a| {
					let own = l.cap.at(*a, *a).q();
					(0..l.cap.n).filter(|j| s[*j]).fold(own, |f, j| f + l.cap.at(*a, j).q())
				})
				.collect();
			let mut best = Q::ZERO;
			for m in 1..1u64 << comp.len() {
				let mut d = Q::ZERO;
				for i in 0..comp.len() {
					if m >> i & 1 == 1 {
						d = d + field[i];
						for j in 0..i {
							if m >> j & 1 == 1 {
								d = d + l.cap.at(comp[i], comp[j]).q();
							}
						}
					}
				}
				if d < best {
					best = d;
				}
			}
			e = e + best;
		}
		e
	}
	pub fn components(&self) -> usize {
		self.comps.len()
	}
}

/// Compile and compare everything that is observable
pub fn large<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case, spec: Spec) -> Res {
	let Large { ast, ph, w, vars, labels } = make::<R>(&mut c.rng, spec);
	let seed = c.idx;
	c.desc = format!("{} labels {}: large problem of case {}, {:?}", R::NAME, Tq::NAME, seed, spec);
	if vars.iter().map(|v| Tq::mk(*v)).collect::<BTreeSet<_>>().len() != vars.len() {
		discard("labels are not distinct");
	}
	let early = c.rng.bits(spec.phs);
	let n = spec.vars;
	let before = c.rng.below(3);
	let fed = |b: bool| dict::<Tp, R>(&ph, |i| match before {
		0 => b,
		1 => !b,
		_ => early[i] == b,
	});
	probe(ast.expr::<Tp, Tq, Tc, R>(), fed(true), fed(false), |s, inner| {
		s.coeff_strength = strength(labels.len(), w[0]);
		let listed: BTreeSet<Tq> = s.get_qubits().into_iter().cloned().collect();
		let want: BTreeSet<Tq> = vars.iter().map(|v| Tq::mk(*v)).collect();
		ensure!(
			listed == want && s.get_qubits().len() == vars.len(),
			"the solver lists {} variables, {} of {} of the expression",
			s.get_qubits().len(),
			listed.intersection(&want).count(),
			vars.len()
		);
		let l = learn(s, inner, &vars)?;
		c.saw("variables of large problems", vars.len() as u64);
		if spec.groups == 0 {
			ensure!(l.anc.is_empty(), "{} auxiliary variables in a quadratic problem", l.anc.len());
		}
		let min = match Minimiser::new(&l) {
			Some(m) => m,
			None => {
				c.saw("too large to minimise", 1);
				return Ok(());
			}
		};
		if spec.groups > 0 {
			c.saw("auxiliary variables of large problems", l.anc.len() as u64);
			c.saw("independent groups of them", min.components() as u64);
		}
		for x in points(&mut c.rng, n, 12) {
			let at = Big { x: &x, ph: &ph, w: &w };
			let (got, want) = (min.min(&l, &x), ast.energy(&at));
			ensure!(
				got == want,
				"energy {} of the compiled problem, but the expression is {} with {} variables set",
				got,
				want,
				x.iter().filter(|b| **b).count()
			);
			c.saw("assignments of large problems", 1);
		}
		for x in points(&mut c.rng, n, 4) {
			solution(c, s, inner, &l, &ast, &ph, &w, &vars, &labels, &x)?;
		}
		c.nontrivial(&c.desc.clone());
		Ok(())
	})
}

/// One solution with everything that belongs to it
#[allow(clippy::too_many_arguments)]
fn solution<Tq: Lab, Tc: Lab, R: Num>(
	c: &mut Case,
	s: &PSolver<'_, Tq, Tc, R>,
	inner: &Arc<Inner<R>>,
	l: &Learned<R>,
	ast: &Ast,
	ph: &[Q],
	w: &[Q],
	vars: &BTreeSet<usize>,
	labels: &BTreeSet<usize>,
	x: &[bool],
) -> Res {
	let mut st = state_of(l, x);
	for a in &l.anc {
		st[*a] = c.rng.bool();
	}
	let answer = st.clone();
	inner.set(move |_, _| Ok(Ok(vec![answer.clone()])));
	let (energy, view, viol) = match s.solve_with_constraints() {
		Ok(r) => r,
		Err(e) => fail!("error from a solver which does not fail: {}", e),
	};
	let own = l.cap.energy(&st);
	ensure!(energy.q() == own + l.c, "energy {} is returned, the state has {} plus {}", energy, own, l.c);
	ensure!(view.energy().map(|e| e.q()) == Some(own), "own energy {:?}, the state has {}", view.energy(), own);
	let want = ast.energy(&Big { x, ph, w });
	ensure!(
		if l.anc.is_empty() { energy.q() == want } else { energy.q() >= want },
		"energy {} is returned, the expression is {}",
		energy,
		want
	);
	let keys: BTreeSet<Tq> = view.keys().cloned().collect();
	ensure!(
		view.keys().count() == vars.len() && keys == vars.iter().map(|v| Tq::mk(*v)).collect(),
		"the solution lists {} variables, the expression has {}",
		view.keys().count(),
		vars.len()
	);
	for v in vars {
		let q = Tq::mk(*v);
		ensure!(
			view.get(&q) == Some(x[*v]) && view[&q] == x[*v],
			"x{} is {:?} instead of {}",
			v,
			view.get(&q),
			x[*v]
		);
	}
	c.saw("values of large problems", vars.len() as u64);
	let pick = c.idx as usize % 7;
	for v in vars.iter().filter(|v| *v % 7 == pick || **v + 9 > x.len()) {
		let i = l.map[v];
		let mut d = l.cap.at(i, i).q();
		for j in 0..l.cap.n {
			if j != i && st[j] {
				d = d + l.cap.at(i, j).q();
			}
		}
		let d = if st[i] { -d } else { d };
		let f = view.local_field(&Tq::mk(*v));
		ensure!(f.map(|f| f.q()) == Some(d), "local field {:?} of x{}, flipping it changes {}", f, v, d);
		c.saw("local fields of large problems", 1);
	}
	// violated constraints
	let names: BTreeMap<Tc, usize> = labels.iter().map(|i| (Tc::mk(*i), *i)).collect();
	if names.len() == labels.len() {
		let mut got = BTreeSet::new();
		for v in viol {
			match names.get(v) {
				Some(i) => got.insert(*i),
				None => fail!("{:?} is listed as violated, it is no label of the expression", v),
			};
		}
		let want = ast.violated(&Big { x, ph, w });
		ensure!(
			got == want,
			"{} labels are listed as violated instead of {}: missing {:?}, wrong {:?}",
			got.len(),
			want.len(),
			want.difference(&got).collect::<Vec<_>>(),
			got.difference(&want).collect::<Vec<_>>()
		);
		c.saw("violated labels of large problems", want.len() as u64);
	}
	Ok(())
}

/// Call large with one of some types
pub fn any(c: &mut Case, spec: Spec) -> Res {
	match c.rng.below(6) {
		0 => large::<i32, String, u32, (usize, i8)>(c, spec),
		1 => large::<f64, u32, String, u32>(c, spec),
		2 => large::<i64, Mixed, (usize, i8), String>(c, spec),
		3 => large::<f32, (usize, i8), Mixed, Mixed>(c, spec),
		4 => large::<i128, char, char, u32>(c, spec),
		_ => large::<f64, String, u32, char>(c, spec),
	}
}

/// A size between these bounds, of any order of magnitude
pub fn size(r: &mut Prng, lo: usize, hi: usize) -> usize {
	let (a, b) = ((lo as f64).ln(), (hi as f64).ln());
	((a + (b - a) * r.f64()).exp().round() as usize).clamp(lo, hi)
}
