//! Annealing problems with a reference of the dynamics.
use crate::num::{discard, Num, Q};
use crate::prng::Prng;
use annealers::model::{FixedSingleQuadricModel, SingleModel};
use annealers::node::Binary;
use annealers::order::{HighOrder, Quadric};
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use std::collections::BTreeMap;

/// A generator whose numbers are all the same.
#[derive(Clone)]
pub struct Const(pub u64, pub u64, pub u64);
impl Const {
	pub fn new(u: f64) -> Self {
		let v = (u * 18446744073709551616.0) as u64;
		Const(v, 0, v)
	}
	/// Bytes (of initial states) have another pattern.
	pub fn with_bytes(mut self, pattern: u64) -> Self {
		self.2 = pattern;
		self
	}
	/// The number in [0, 1) that is drawn
	pub fn u(&self) -> f64 {
		rand::Rng::gen_range(&mut self.clone(), 0.0, 1.0)
	}
}
impl rand::RngCore for Const {
	fn next_u32(&mut self) -> u32 {
		self.1 += 1;
		(self.0 >> 32) as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.1 += 1;
		self.0
	}
	fn fill_bytes(&mut self, dest: &mut [u8]) {
		let b = self.2.to_be_bytes();
		for (i, d) in dest.iter_mut().enumerate() {
			*d = b[i % 8];
		}
	}
	fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(dest);
		Ok(())
	}
}

/// The workload's randomness as a generator
impl rand::RngCore for Prng {
	fn next_u32(&mut self) -> u32 {
		(self.u64() >> 32) as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.u64()
	}
	fn fill_bytes(&mut self, dest: &mut [u8]) {
		for c in dest.chunks_mut(8) {
			let b = self.u64().to_le_bytes();
			c.copy_from_slice(&b[..c.len()]);
		}
	}
	fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(dest);
		Ok(())
	}
}

#[derive(Clone, Debug)]
pub struct Prob {
	pub n: usize,
	/// (i <= j) -> weight
	pub terms: BTreeMap<(usize, usize), Q>,
}

pub type Dense<R> = FixedSingleQuadricModel<Binary<R>>;
pub type Sparse<R> = SingleModel<Binary<R>, Quadric>;
pub type High<R> = SingleModel<Binary<R>, HighOrder>;

impl Prob {
	pub fn dense<R: Num>(&self) -> Dense<R> {
		let mut m = FixedSingleQuadricModel::new(Binary::new(), self.n);
		for ((i, j), w) in &self.terms {
			m.add_weight(*i, *j, R::of(*w));
		}
		m
	}
	/// Every node gets a term
	pub fn sparse<R: Num>(&self) -> Sparse<R> {
		let mut m = SingleModel::new(Binary::new(), Quadric);
		for i in 0..self.n {
			m.add_weight([i, i], R::zero());
		}
		for ((i, j), w) in &self.terms {
			m.add_weight([*i, *j], R::of(*w));
		}
		m
	}
	pub fn high<R: Num>(&self) -> High<R> {
		let mut m = SingleModel::new(Binary::new(), HighOrder::new(2));
		for i in 0..self.n {
			m.add_weight(Some(i).into_iter().collect(), R::zero());
		}
		for ((i, j), w) in &self.terms {
			m.add_weight([*i, *j].into_iter().collect(), R::of(*w));
		}
		m
	}
	pub fn adjacency(&self) -> Vec<Vec<(usize, f64)>> {
		let mut a = vec![Vec::new(); self.n];
		for ((i, j), w) in &self.terms {
			a[*i].push((*j, w.f64()));
			if i != j {
				a[*j].push((*i, w.f64()));
			}
		}
		a
	}
	pub fn energy(&self, s: &[bool]) -> Q {
		self.terms
			.iter()
			.filter(|((i, j), _)| s[*i] && s[*j])
			.fold(Q::ZERO, |e, (_, w)| e + *w)
	}
	pub fn random<R: Num>(r: &mut Prng, n: usize, mag: i64, frac: u32) -> Prob {
		let density = *r.pick(&[0, 20, 50, 100]);
		let diag = *r.pick(&[0, 50, 100, 100]);
		let sign = r.below(5);
		let mut terms = BTreeMap::new();
		let e = if R::INT { 0 } else { frac };
		let w = |r: &mut Prng| {
			let m = r.range(-mag, mag) as i128;
			let m = match sign {
				0 => m.abs(),
				1 => -m.abs(),
				_ => m,
			};
			Q::new(m, e)
		};
		for i in 0..n {
			if r.chance(diag, 100) {
				terms.insert((i, i), w(r));
			}
			for j in i + 1..n {
				// about four neighbours in big models
				if r.chance(density, 100) && (n <= 16 || r.chance(16, n)) {
					terms.insert((i, j), w(r));
				}
			}
		}
		Prob { n, terms }
	}
}

/// What happened in a run of the reference
#[derive(Clone, Debug, Default)]
pub struct Stats {
	pub decisions: u64,
	pub raised: u64,
	pub refused: u64,
	pub level: u64,
	pub lowered: u64,
}

/// The energy change of flipping i, from scratch (exact: the weights are small dyadic numbers).
pub fn delta(adj: &[Vec<(usize, f64)>], s: &[bool], i: usize) -> f64 {
	let f: f64 = adj[i].iter().filter(|(j, _)| *j == i || s[*j]).map(|(_, w)| w).sum();
	if s[i] {
		-f
	} else {
		f
	}
}

/// Sequential Metropolis dynamics with the same draw u for every decision. Discards the case when
/// a decision is too close to be told.
pub fn metropolis(p: &Prob, s: &mut [bool], betas: &[f64], sweeps: usize, u: f64) -> Stats {
	metropolis_tol(p, s, betas, sweeps, u, 1.0e-9)
}

pub fn metropolis_tol(
	p: &Prob,
	s: &mut [bool],
	betas: &[f64],
	sweeps: usize,
	u: f64,
	tol: f64,
) -> Stats {
	let adj = p.adjacency();
	let mut st = Stats::default();
	for b in betas {
		for _ in 0..sweeps {
			for i in 0..p.n {
				let d = delta(&adj, s, i);
				st.decisions += 1;
				if d <= 0.0 {
					if d == 0.0 {
						st.level += 1;
					} else {
						st.lowered += 1;
					}
					s[i] = !s[i];
				} else {
					let a = f64::exp(-d * b);
					if (a - u).abs() < tol * u.max(1.0e-3) {
						discard("a draw too close to the acceptance probability");
					}
					if a > u {
						st.raised += 1;
						s[i] = !s[i];
					} else {
						st.refused += 1;
					}
				}
			}
		}
	}
	st
}

/// The distribution of the state after Metropolis dynamics with independent draws.
pub fn distribution(p: &Prob, start: &[f64], betas: &[f64], sweeps: usize) -> Vec<f64> {
	let adj = p.adjacency();
	let mut d = start.to_vec();
	for b in betas {
		for _ in 0..sweeps {
			for i in 0..p.n {
				let mut next = vec![0.0; d.len()];
				for (x, pr) in d.iter().enumerate() {
					let s: Vec<bool> = (0..p.n).map(|k| x >> k & 1 == 1).collect();
					let e = delta(&adj, &s, i);
					let a = if e <= 0.0 { 1.0 } else { f64::exp(-e * b) };
					next[x ^ 1 << i] += pr * a;
					next[x] += pr * (1.0 - a);
				}
				d = next;
			}
		}
	}
	d
}

/// One run of an annealer made by a generator with these settings
pub fn sample<R: Num>(
	model: &Dense<R>,
	beta: BetaType<R>,
	sweeps: usize,
	rng: &mut impl rand::Rng,
) -> Result<Vec<bool>, String> {
	use annealers::prelude::*;
	let mut g = SimulatedAnnealerGenerator::new();
	g.sweeps_per_round = sweeps;
	g.beta = beta;
	let s = g.generate(model).map_err(|e| e.to_string())?;
	let v = s.solve_with_rng(rng).map_err(|e| e.to_string())?;
	if v.len() != 1 || v[0].len() != SingleModelView::size(model) {
		return Err(format!("{} solutions of one run, or a wrong length", v.len()));
	}
	Ok(v[0].state.to_vec())
}

/// A bound of the deviation of a binomial count from its mean which is passed with probability
/// less than 10^-12 (Bernstein's inequality).
pub fn deviation(n: f64, p: f64) -> f64 {
	let l = 28.4;
	l / 3.0 + (l * l / 9.0 + 2.0 * l * n * p * (1.0 - p)).sqrt()
}
