//! Whole searches with scripted annealers, and the reference of the search loop.
use crate::ast::{Ast, At};
use crate::num::{discard, Lab, Num, Q};
use crate::probe::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

/// What was observed of one search.
pub struct Played<R> {
	pub result: Result<Shot<R>, ProbeError>,
	pub events: Vec<Event>,
	/// the problem of each generate call
	pub caps: Vec<Cap<R>>,
	/// the answer to each generate call
	pub plans: BTreeMap<usize, Result<RunPlan, ProbeError>>,
}

impl<R: Num> Played<R> {
	pub fn generates(&self) -> usize {
		self.events.iter().filter(|e| matches!(e, Event::Generate(_))).count()
	}
	/// number of runs of the solver of each generate call
	pub fn runs(&self) -> BTreeMap<usize, usize> {
		let mut m = BTreeMap::new();
		for e in &self.events {
			if let Event::Run(c, _) = e {
				*m.entry(*c).or_insert(0) += 1;
			}
		}
		m
	}
}

pub fn play<Tq: Lab, Tc: Lab, R: Num>(
	s: &PSolver<'_, Tq, Tc, R>,
	inner: &Arc<Inner<R>>,
	vars: &BTreeSet<usize>,
	labels: &BTreeSet<usize>,
	mut script: impl FnMut(usize, &Cap<R>) -> Result<RunPlan, ProbeError> + Send + 'static,
) -> Played<R> {
	let plans = Arc::new(Mutex::new(BTreeMap::new()));
	let p = plans.clone();
	inner.set(move |call, cap| {
		let r = script(call, cap);
		p.lock().unwrap().insert(call, r.clone());
		r
	});
	let result = s.solve_with_constraints().map(|(energy, view, viol)| {
		let mut values = BTreeMap::new();
		for v in vars {
			if let Some(b) = view.get(&Tq::mk(*v)) {
				values.insert(*v, b);
			}
		}
		let mut violated = Vec::new();
		let mut unknown_label = false;
		for l in viol {
			match labels.iter().find(|i| Tc::mk(**i) == *l) {
				Some(i) => violated.push(*i),
				None => unknown_label = true,
			}
		}
		violated.sort_unstable();
		Shot {
			state: Vec::new(),
			energy,
			own: view.energy(),
			values,
			keys: view.keys().count(),
			violated,
			unknown_label,
		}
	});
	let (events, caps) = {
		let l = inner.log.lock().unwrap();
		(l.events.clone(), l.caps.clone())
	};
	let plans = plans.lock().unwrap().clone();
	Played { result, events, caps, plans }
}

/// One round as the reference sees it.
pub struct Round {
	/// the best state, None if different states share the lowest energy
	pub best: Vec<bool>,
	pub energy: Q,
	pub violated: BTreeSet<usize>,
	pub improved: bool,
}

/// How the reference expects the search to end.
pub enum End {
	/// number of the round whose solution is returned
	Solution(usize),
	/// one of these errors
	Error(Vec<ProbeError>),
}

pub struct Expected {
	pub rounds: Vec<Round>,
	pub end: End,
	/// generate calls that may be made in the last round
	pub last: usize,
}

/// The variables of a state, as assignment
pub fn assign(map: &BTreeMap<usize, usize>, st: &[bool]) -> u64 {
	map.iter().fold(0, |x, (v, i)| x | (st[*i] as u64) << v)
}

/// What rounding may change in energies of this problem
pub fn tolerance<R: Num>(cap: &Cap<R>) -> f64 {
	if R::INT {
		return 0.0;
	}
	let scale: f64 = cap.w.iter().map(|w| w.as_f64().abs()).sum();
	scale * (-(R::BITS as f64) + 4.0).exp2() * (cap.n + 1) as f64
}

/// The reference of the search loop, with the observed problems and the scripted answers.
/// A case in which different states share the lowest energy of a round is discarded.
pub fn expect<R: Num>(
	p: &Played<R>,
	ast: &Ast,
	l: &Learned<R>,
	samples: usize,
	iterations: usize,
	generations: usize,
) -> Result<Expected, String> {
	let labels = ast.labels().iter().max().map(|m| m + 1).unwrap_or(0);
	let ones = vec![Q::ONE; labels];
	let mut rounds: Vec<Round> = Vec::new();
	let mut kept = None;
	for _ in 0..iterations {
		let mut old: Option<(Q, Vec<bool>, Vec<R>)> = None;
		for _ in 0..generations {
			let r = rounds.len();
			let mut states: Vec<&Vec<bool>> = Vec::new();
			let mut errors = Vec::new();
			for k in 0..samples {
				match p.plans.get(&(r * samples + k)) {
					None => {
						return Err(format!(
							"round {}: no annealer number {} is generated, the search ended too early",
							r, k
						))
					}
					Some(Err(e)) => {
						return Ok(Expected {
							rounds,
							end: End::Error(vec![e.clone()]),
							last: k + 1,
						})
					}
					Some(Ok(Err(e))) => errors.push(e.clone()),
					Some(Ok(Ok(v))) => states.extend(v.iter()),
				}
			}
			if !errors.is_empty() {
				return Ok(Expected { rounds, end: End::Error(errors), last: samples });
			}
			let cap = &p.caps[r * samples];
			let energies: Vec<Q> = states.iter().map(|s| cap.energy(s)).collect();
			let min = match energies.iter().min() {
				Some(m) => *m,
				None => discard("a round without any sample"),
			};
			let tol = tolerance(cap);
			let mut best: Option<&Vec<bool>> = None;
			for (s, e) in states.iter().zip(&energies) {
				if *e == min || (*e - min).f64() <= tol {
					match best {
						None => best = Some(s),
						Some(b) if b != *s => discard("different states of the lowest energy"),
						_ => (),
					}
				}
			}
			let best = best.unwrap().clone();
			let x = assign(&l.map, &best);
			let violated = ast.violated(&At { x, ph: &[], w: &ones });
			let improved = match &old {
				None => true,
				Some((o, st, w)) => {
					if tol > 0.0 && (*o - min).f64().abs() <= tol && !(*st == best && *w == cap.w) {
						discard("energies of two rounds that differ by rounding errors only");
					}
					min < *o
				}
			};
			let done = violated.is_empty();
			rounds.push(Round { best, energy: min, violated, improved });
			if done {
				return Ok(Expected { rounds, end: End::Solution(r), last: samples });
			}
			if improved {
				old = Some((min, rounds[r].best.clone(), cap.w.clone()));
				kept = Some(r);
			}
		}
	}
	Ok(Expected {
		rounds,
		end: End::Solution(kept.expect("at least one round")),
		last: samples,
	})
}
