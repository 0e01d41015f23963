//! C12: temperature schedules are applied as specified
use classical_solver::beta::BetaType;
use vh::anneal::*;
use vh::ensure;
use vh::num::*;
use vh::prng::Prng;
use vh::run::*;

fn bits(s: &[bool]) -> String {
	s.iter().map(|b| if *b { '1' } else { '0' }).collect()
}

fn show(p: &Prob) -> String {
	format!("{:?}", p.terms.iter().map(|(k, w)| (*k, w.f64())).collect::<Vec<_>>())
}

/// A number of values beyond the usual ones
fn many(r: &mut Prng, sweeps: usize) -> usize {
	if sweeps > 3 {
		return 1 + r.below(3);
	}
	let k = *r.pick(&[64, 128, 256, 512, 1024, 2048, 4096]);
	let spread = if r.bool() { 5 } else { k };
	k - 2 + r.below(spread)
}

/// A given schedule, or a count with a range, against the dynamics with the specified values
fn given<R: Num>(c: &mut Case) -> Res {
	let range = c.rng.chance(2, 3);
	let n = 1 + c.rng.below(6);
	let mag = *c.rng.pick(&[2, 5, 11]);
	let p = Prob::random::<R>(&mut c.rng, n, mag, 3);
	let long = c.rng.chance(1, 40);
	let sweeps = match c.rng.below(3) {
		0 if long => *c.rng.pick(&[127, 128, 255, 256, 257, 300, 511, 1000, 4096]),
		_ => 1 + c.rng.below(3),
	};
	let value = |r: &mut Prng, zero: bool| -> Q {
		if R::INT {
			Q::int(r.range(if zero { 0 } else { 1 }, 4) as i128)
		} else {
			Q::new(r.range(if zero { 0 } else { 1 }, 400) as i128, 8)
		}
	};
	let (beta, betas): (BetaType<R>, Vec<Vec<f64>>) = if range {
		let count = match c.rng.below(8) {
			0 => 0,
			1 => 1,
			_ if long => many(&mut c.rng, sweeps),
			_ => 2 + c.rng.below(12),
		};
		let (a, b) = (value(&mut c.rng, false), value(&mut c.rng, false));
		let (fa, fb) = (a.f64(), b.f64());
		let v = match count {
			0 => vec![vec![]],
			1 => vec![vec![fa]],
			_ => vec![(0..count)
				.map(|k| fa * (fb / fa).powf(k as f64 / (count - 1) as f64))
				.collect()],
		};
		(BetaType::CountRange(count, R::of(a), R::of(b)), v)
	} else {
		let v: Vec<Q> = (0..if long { many(&mut c.rng, sweeps) } else { c.rng.below(10) })
			.map(|_| value(&mut c.rng, true)).collect();
		(
			BetaType::Schedule(v.iter().map(|q| R::of(*q)).collect()),
			vec![v.iter().map(|q| q.f64()).collect()],
		)
	};
	let model = p.dense::<R>();
	c.desc = format!("{}: {} {:?} sweeps={}", R::NAME, show(&p), beta, sweeps);
	if long {
		c.desc = format!("{}: {} range={} of {} values, sweeps={}", R::NAME, show(&p), range, betas[0].len(), sweeps);
		c.saw("schedules of many values or sweeps", 1);
	}
	// several draws and initial states
	let mut seen = std::collections::BTreeSet::new();
	let mut effects = 0;
	for _ in 0..6 {
		let u = if c.rng.bool() {
			c.rng.f64().max(1.0e-4)
		} else {
			// near the acceptance probability of an average flip
			let b = betas[0].first().copied().unwrap_or(1.0);
			(-b * c.rng.range(1, 8) as f64).exp().clamp(1.0e-4, 0.9999) * (0.9 + 0.2 * c.rng.f64())
		};
		let mut gen = Const::new(u.min(0.99999)).with_bytes(c.rng.u64());
		let u = gen.u();
		let start = sample(&model, BetaType::Schedule(Vec::new()), sweeps, &mut gen.clone())?;
		let mut wants = Vec::new();
		for b in &betas {
			let mut w = start.clone();
			// the values may be computed in the numeric type of the model
			let st = metropolis_tol(&p, &mut w, b, sweeps, u, if R::BITS == 24 { 1.0e-3 } else { 1.0e-7 });
			if st.raised > 0 && st.refused > 0 {
				effects += 1;
			}
			wants.push(w);
		}
		let got = sample(&model, beta.clone(), sweeps, &mut gen)?;
		ensure!(
			wants.contains(&got),
			"from {} with the draw {} the state {} is reached instead of {}",
			bits(&start), u, bits(&got), bits(&wants[0])
		);
		seen.insert(got);
		c.saw(if range { "runs of count ranges" } else { "runs of given schedules" }, 1);
		if betas[0].len() > 1 && betas[0][0] > betas[0][betas[0].len() - 1] {
			c.saw("runs of descending schedules", 1);
		}
	}
	c.saw("runs in which the temperature mattered", effects);
	if effects > 0 && !betas[0].is_empty() {
		c.nontrivial(&c.desc.clone());
		c.sample = Some(c.desc.clone());
	}
	Ok(())
}

/// Each value of a descending count range is located between two fields
fn located<R: Num>(c: &mut Case) -> Res {
	let count = 2 + c.rng.below(8);
	let (a, b) = (2.0 + 6.0 * c.rng.f64(), 0.2 + c.rng.f64());
	let (ra, rb) = (R::from_f64(a), R::from_f64(b));
	let (a, b) = (ra.as_f64(), rb.as_f64());
	let sweeps = *c.rng.pick(&[1, 1, 3]);
	let beta = |k: f64| a * (b / a).powf(k / (count - 1) as f64);
	let mut gen = Const::new(0.05 + 0.5 * c.rng.f64()).with_bytes(c.rng.u64());
	let u = gen.u();
	// field k: raised exactly at the values k, k + 1, ...: its threshold lies before the k-th
	let ks: Vec<f64> = (0..=count)
		.flat_map(|k| vec![k as f64 - 0.9, k as f64 - 0.1].into_iter())
		.collect();
	let mut p = Prob { n: ks.len(), terms: Default::default() };
	let mut hs = Vec::new();
	for (i, k) in ks.iter().enumerate() {
		// some bits less than the type has
		let h = -u.ln() / beta(*k);
		let h = Q::new((h * 65536.0) as i128, 16);
		hs.push(h.f64());
		p.terms.insert((i, i), h);
	}
	c.desc = format!("{}: count={} range {} to {} sweeps={} u={}", R::NAME, count, a, b, sweeps, u);
	let model = p.dense::<R>();
	let got = sample(&model, BetaType::CountRange(count, ra, rb), sweeps, &mut gen)?;
	for (i, h) in hs.iter().enumerate() {
		let raised = (0..count).filter(|k| (-beta(*k as f64) * h).exp() > u).count();
		// a field which is raised at all values keeps the initial state
		if raised == count {
			continue;
		}
		ensure!(
			got[i] == (raised * sweeps % 2 == 1),
			"field {} should be raised at {} of the {} values (probability {:?} at each, draw {}), but it ends as {}",
			h,
			raised,
			count,
			(0..count).map(|k| (-beta(k as f64) * h).exp()).collect::<Vec<_>>(),
			u,
			got[i]
		);
		c.saw("values located", 1);
	}
	c.nontrivial(&c.desc.clone());
	Ok(())
}

/// The number of values of the default schedule: at a draw near one only flips that do not raise
/// the energy are made, whatever the temperature is.
fn counted<R: Num>(c: &mut Case) -> Res {
	let n = 2 + c.rng.below(7);
	let p = Prob::random::<R>(&mut c.rng, n, 1, 0);
	let (mut count, mut sweeps) = (c.rng.below(24), 1 + c.rng.below(4));
	if c.rng.chance(1, 40) {
		if c.rng.bool() {
			count = many(&mut c.rng, 1);
		} else {
			sweeps = many(&mut c.rng, 1);
			count = c.rng.below(4);
		}
		c.saw("schedules of many values or sweeps", 1);
	}
	let mut gen = Const::new(1.0 - 1.0e-12).with_bytes(c.rng.u64());
	let model = p.dense::<R>();
	let start = sample(&model, BetaType::Schedule(Vec::new()), sweeps, &mut gen.clone())?;
	c.desc = format!("{}: {} Count({}) sweeps={}", R::NAME, show(&p), count, sweeps);
	let after = |t: usize| {
		let mut s = start.clone();
		let adj = p.adjacency();
		for _ in 0..t {
			for i in 0..n {
				if delta(&adj, &s, i) <= 0.0 {
					s[i] = !s[i];
				}
			}
		}
		s
	};
	let want = after(count * sweeps);
	let got = sample(&model, BetaType::Count(count), sweeps, &mut gen)?;
	ensure!(
		got == want,
		"the state {} is reached instead of {} after {} sweeps",
		bits(&got), bits(&want), count * sweeps
	);
	let t = count * sweeps;
	c.saw("default schedules counted", 1);
	let others = [t + 1, t + 2, t + sweeps, t + 2 * sweeps, t.saturating_sub(1), t.saturating_sub(sweeps)];
	if t > 0 && others.iter().filter(|o| **o != t).all(|o| after(*o) != want) {
		c.saw("default schedules counted which tell all neighbouring counts apart", 1);
		c.nontrivial(&c.desc.clone());
		c.sample = Some(c.desc.clone());
	}
	Ok(())
}

/// The ends of the default schedule
fn ends<R: Num>(c: &mut Case) -> Res {
	// scale and ratio of the weights
	let (scale, ratio) = if R::INT {
		(
			(2.0f64).powi(c.rng.below(if R::BITS > 40 { 30 } else if R::BITS > 20 { 12 } else if R::BITS > 8 { 5 } else { 1 }) as i32),
			*c.rng.pick(&[1.0, 2.0, 5.0, if R::BITS > 20 { 1000.0 } else { 7.0 }]),
		)
	} else {
		(
			(2.0f64).powi(c.rng.range(-20, 30) as i32),
			*c.rng.pick(&[1.0, 1.0, 2.0, 16.0, 4096.0, 65536.0]),
		)
	};
	let (weak, strong) = (Q::from_f64(scale), Q::from_f64(scale * ratio));
	let runs = 1000;
	let mut p = Prob { n: 0, terms: Default::default() };
	let gadget = c.rng.below(4);
	let leaves = if R::BITS > 8 { 2 + c.rng.below(8) } else { 2 };
	// (what to look at)
	let (hot, cold): (usize, usize);
	match gadget {
		// independent fields
		0 => {
			p.n = 3;
			p.terms.insert((0, 0), weak);
			p.terms.insert((1, 1), strong);
			(hot, cold) = (1, 0);
		}
		// the weakest weight is a coupling to a pinned variable
		1 => {
			p.n = 3;
			p.terms.insert((0, 0), -strong);
			p.terms.insert((0, 1), weak);
			p.terms.insert((2, 2), strong);
			(hot, cold) = (2, 1);
		}
		// the strongest field is a sum of couplings
		2 => {
			p.n = leaves + 2;
			for k in 0..leaves {
				p.terms.insert((0, k + 1), strong);
			}
			p.terms.insert((leaves + 1, leaves + 1), weak);
			(hot, cold) = (0, leaves + 1);
		}
		// signs and idle variables
		_ => {
			p.n = 4;
			p.terms.insert((3, 3), -weak);
			p.terms.insert((1, 1), -strong);
			p.terms.insert((0, 2), Q::ZERO);
			(hot, cold) = (1, 3);
		}
	}
	// sometimes somewhere in a large model, among fields like its weakest, its strongest, or both
	let large = R::BITS > 8 && ratio > 1.0 && c.idx % 320 == 160;
	let runs = if large { 60 } else { runs };
	let (hot, cold) = if large {
		let most = if c.rng.chance(1, 2) { 150 } else { 40 };
		let n = 60 + c.rng.below(most);
		let mut at: Vec<usize> = (0..n).collect();
		if c.rng.bool() {
			at.reverse();
		} else {
			c.rng.shuffle(&mut at);
		}
		let mut q = Prob { n, terms: Default::default() };
		for ((i, j), w) in &p.terms {
			let (i, j) = (at[*i], at[*j]);
			q.terms.insert((i.min(j), i.max(j)), *w);
		}
		let fill = c.rng.below(5) / 2;
		for k in p.n..n {
			if c.rng.chance(3, 4) {
				let w = match fill {
					0 => weak,
					1 => strong,
					_ => *c.rng.pick(&[weak, strong]),
				};
				q.terms.insert((at[k], at[k]), if c.rng.bool() { -w } else { w });
			}
		}
		p = q;
		(at[hot], at[cold])
	} else {
		(hot, cold)
	};
	let sweeps = *c.rng.pick(if large { &[2, 3, 3] } else { &[1, 3, 10] });
	let count = *c.rng.pick(if large { &[2, 2, 3] } else { &[2, 5, 20] });
	let model = p.dense::<R>();
	c.desc = format!("{}: {} Count({}) sweeps={}", R::NAME, show(&p), count, sweeps);
	let mut rng = c.rng.clone();
	// whether a variable prefers true
	let down = |i: usize| p.terms.get(&(i, i)).is_some_and(|w| *w < Q::ZERO);
	let mut excited = 0;
	for _ in 0..runs {
		let s = sample(&model, BetaType::Count(1), if large { 2 } else { 4 }, &mut rng)?;
		excited += (s[hot] != down(hot)) as u64;
	}
	let f = excited as f64 / runs as f64;
	ensure!(
		f > if large { 0.04 } else { 0.12 },
		"at the begin of the default schedule the variable {} of the strongest field is excited in {} of {} runs",
		hot, excited, runs
	);
	c.saw(if large { "hot ends of large models" } else { "hot ends measured" }, 1);
	let mut excited = 0;
	for _ in 0..runs {
		let s = sample(&model, BetaType::Count(count), sweeps, &mut rng)?;
		excited += (s[cold] != down(cold)) as u64;
	}
	ensure!(
		excited < if large { 15 } else { 70 },
		"after the default schedule the variable {} of the weakest weight is excited in {} of {} runs",
		cold, excited, runs
	);
	c.saw(if large { "cold ends of large models" } else { "cold ends measured" }, 1);
	c.saw("runs of default schedules", 2 * runs);
	if ratio > 1.0 {
		c.nontrivial(&c.desc.clone());
		c.sample = Some(format!("{} -> excited {:.2} at the begin, {}/{} at the end", c.desc, f, excited, runs));
	}
	Ok(())
}

/// A well with a barrier of the strongest field is left during the schedule.
fn wells<R: Num>(c: &mut Case) -> Res {
	let h = if R::INT { Q::int(c.rng.range(2, 8) as i128) } else { Q::new(c.rng.range(1, 999) as i128, 5) };
	let mut p = Prob { n: 3, terms: Default::default() };
	p.terms.insert((0, 0), h);
	p.terms.insert((1, 1), h);
	p.terms.insert((0, 1), Q::int(-2) * h);
	p.terms.insert((2, 2), if R::INT { Q::ONE } else { Q::new(1, 9) });
	let model = p.dense::<R>();
	let count = 2 + c.rng.below(6);
	c.desc = format!("{}: {} Count({})", R::NAME, show(&p), count);
	let runs = 600;
	let (mut left, mut from) = (0, 0);
	for _ in 0..runs {
		let mut rng = c.rng.clone();
		c.rng.u64();
		let start = sample(&model, BetaType::Schedule(Vec::new()), 1, &mut rng.clone())?;
		let end = sample(&model, BetaType::Count(count), 1, &mut rng)?;
		if start[0] == start[1] {
			from += 1;
			left += (end[0] != start[0]) as u64;
		}
	}
	ensure!(
		from < 100 || left as f64 > 0.1 * from as f64,
		"a well was left in {} of {} runs only: the schedule begins too cold",
		left, from
	);
	c.saw("wells", 1);
	if from >= 100 {
		c.nontrivial(&c.desc.clone());
	}
	Ok(())
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C12",
			quick: 32_000,
			thorough: 1_600_000,
			rule: "random models with given schedules and count ranges (up, down, counts 0 to 13, integer and float types) and constant draws, compared with the dynamics at the specified values; descending ranges whose every value is located between two fields; default schedules counted by temperature-independent dynamics; ensembles of 1000 runs (60 in models of 60 to 210 nodes, with alarms below 0.04 and above 0.25) that measure the hot and the cold end of the default schedule for scales 2^-20 to 2^30 and weight ratios up to 65536 (true values 1/3 or more and 1/100, alarm below 0.12 and above 0.07). Non-trivial: the temperature decided at least one flip, neighbouring counts give other states, or weights of different size; distinct by model and schedule",
			workers: 0,
			need: &[
				"runs of count ranges",
				"runs of given schedules",
				"runs of descending schedules",
				"runs in which the temperature mattered",
				"values located",
				"default schedules counted which tell all neighbouring counts apart",
				"hot ends measured",
				"cold ends measured",
				"hot ends of large models",
				"wells",
				"schedules of many values or sweeps",
			],
		},
		|c| {
			let t = c.rng.below(8);
			match c.idx % 40 {
				0 => match t {
					0 | 1 => ends::<i32>(c),
					2 => ends::<i64>(c),
					3 => ends::<f32>(c),
					4 => ends::<i16>(c),
					5 => ends::<i8>(c),
					_ => ends::<f64>(c),
				},
				1 => match t {
					0 | 1 => wells::<i32>(c),
					2 => wells::<f32>(c),
					_ => wells::<f64>(c),
				},
				2..=9 => {
					if t < 2 {
						located::<f32>(c)
					} else {
						located::<f64>(c)
					}
				}
				10..=19 => match t {
					0 | 1 => counted::<i32>(c),
					2 => counted::<i64>(c),
					3 => counted::<f32>(c),
					4 => counted::<i16>(c),
					_ => counted::<f64>(c),
				},
				_ => match t {
					0 | 1 => given::<i32>(c),
					2 => given::<i64>(c),
					3 => given::<f32>(c),
					_ => given::<f64>(c),
				},
			}
		},
	)
}
