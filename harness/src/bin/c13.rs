//! C13: the packed state behaves as a vector of booleans
use annealers::repr::BinaryRepr;
use vh::anneal::{deviation, Const};
use vh::ensure;
use vh::prng::Prng;
use vh::run::*;

fn same(c: &mut Case, s: &BinaryRepr, m: &[bool], what: &str) -> Res {
	ensure!(s.len() == m.len(), "{}: length {} instead of {}", what, s.len(), m.len());
	ensure!(s.is_empty() == m.is_empty(), "{}: is_empty() is {}", what, s.is_empty());
	let v = s.to_vec();
	ensure!(v == m, "{}: to_vec() is {:?} instead of {:?}", what, v, m);
	let v: Vec<bool> = s.iter().collect();
	ensure!(v == m, "{}: iter() gives {:?} instead of {:?}", what, v, m);
	for (i, b) in m.iter().enumerate() {
		ensure!(s.get(i) == *b, "{}: get({}) is {}", what, i, s.get(i));
		ensure!(s[i] == *b, "{}: [{}] is {}", what, i, s[i]);
	}
	// (a single bit of a packed state is also read by the unchecked accessors of the annealer)
	if !m.is_empty() {
		let i = m.len() - 1;
		ensure!(unsafe { s.get_unchecked(i) } == m[i], "{}: get_unchecked({}) differs", what, i);
	}
	c.saw("states compared", 1);
	c.saw("bits compared", m.len() as u64);
	Ok(())
}

fn len(r: &mut Prng) -> usize {
	if r.chance(1, 500) {
		// long ones
		let more = *r.pick(&[400, 4000, 9000]);
		return 130 + r.below(more);
	}
	match r.below(4) {
		0 => r.below(10),
		1 => 8 * r.below(10) + r.below(3),
		2 => (8 * (1 + r.below(10))).saturating_sub(r.below(3)),
		_ => r.below(130),
	}
}

/// Refused, without any effect
fn refused(c: &mut Case, s: &mut BinaryRepr, m: &[bool]) -> Res {
	let i = m.len() + match c.rng.below(4) {
		0 => 0,
		1 => 1 + c.rng.below(8),
		2 => 8 + c.rng.below(64),
		_ => usize::MAX - m.len(),
	};
	let op = c.rng.below(4);
	let r = guard(|| match op {
		0 => {
			s.get(i);
		}
		1 => s.set(i, true),
		2 => s.flip(i),
		_ => {
			let _ = s[i];
		}
	});
	let name = ["get", "set", "flip", "index"][op];
	ensure!(r.is_err(), "{}({}) of a state of length {} is not refused", name, i, m.len());
	c.saw("accesses out of range refused", 1);
	same(c, s, m, "after a refused access")
}

fn ops(c: &mut Case) -> Res {
	let n = len(&mut c.rng);
	if n > 2048 {
		c.saw("states of more than 2048 bits", 1);
	}
	let mut m = c.rng.bits(n);
	let mut s = BinaryRepr::from_vec(&m);
	c.desc = format!("length {}", n);
	same(c, &s, &m, "from_vec")?;
	let mut clones: Vec<(BinaryRepr, Vec<bool>)> = Vec::new();
	let steps = 5 + c.rng.below(40);
	let mut trace = String::new();
	for k in 0..steps {
		let op = c.rng.below(12);
		if n == 0 && op < 8 {
			continue;
		}
		match op {
			0..=3 => {
				let (i, b) = (c.rng.below(n), c.rng.bool());
				trace.push_str(&format!(" set({},{})", i, b));
				s.set(i, b);
				m[i] = b;
				c.saw("set", 1);
			}
			4..=6 => {
				let i = c.rng.below(n);
				trace.push_str(&format!(" flip({})", i));
				s.flip(i);
				m[i] = !m[i];
				c.saw("flip", 1);
			}
			7 => {
				// the same by the unchecked operations, within the range
				let i = c.rng.below(n);
				trace.push_str(&format!(" unchecked({})", i));
				unsafe {
					if c.rng.bool() {
						s.flip_unchecked(i);
						m[i] = !m[i];
					} else {
						let b = c.rng.bool();
						s.set_unchecked(i, b);
						m[i] = b;
					}
				}
			}
			8 => {
				trace.push_str(" clone");
				clones.push((s.clone(), m.clone()));
				c.saw("clones", 1);
			}
			9 => {
				trace.push_str(" refused");
				refused(c, &mut s, &m)?;
			}
			10 if !clones.is_empty() => {
				// continue with an old clone
				let i = c.rng.below(clones.len());
				trace.push_str(&format!(" swap({})", i));
				std::mem::swap(&mut clones[i].0, &mut s);
				std::mem::swap(&mut clones[i].1, &mut m);
			}
			_ => {
				trace.push_str(" rebuild");
				s = BinaryRepr::from_vec(&s.to_vec());
			}
		}
		same(c, &s, &m, &format!("after step {} of length {}:{}", k, n, trace))?;
	}
	for (s, m) in &clones {
		same(c, s, m, &format!("an old clone after{}", trace))?;
	}
	vh::iters::agree(c, "bits of a state", false, &m, || s.iter())?;
	let (d, w) = (format!("{:?}", s), format!("{:?}", m));
	ensure!(d == w, "debug output {} instead of {}", d, w);
	c.desc += &trace;
	if n > 8 {
		c.nontrivial(&c.desc.clone());
	}
	Ok(())
}

fn random(c: &mut Case) -> Res {
	let n = len(&mut c.rng);
	if n > 130 {
		c.saw("random states of many bits", 1);
	}
	c.desc = format!("random states of length {}", n);
	for b in [false, true] {
		let mut g = if b { Const::new(0.5).with_bytes(u64::MAX) } else { Const::new(0.0) };
		if b {
			g.0 = u64::MAX;
		}
		let s = BinaryRepr::new_random(n, &mut g);
		let v = s.to_vec();
		ensure!(v.len() == n, "length {} instead of {}", v.len(), n);
		same(c, &s, &v, "from a constant generator")?;
	}
	let runs = if n > 500 { 120 } else { 400 };
	let mut ones = vec![0u64; n];
	let mut pairs = vec![0u64; n];
	for _ in 0..runs {
		let mut a = c.rng.clone();
		c.rng.u64();
		let mut b = a.clone();
		let s = BinaryRepr::new_random(n, &mut a);
		ensure!(s.len() == n, "length {} instead of {}", s.len(), n);
		let v = s.to_vec();
		let w = BinaryRepr::new_random(n, &mut b).to_vec();
		ensure!(v == w, "equal generators give the states {:?} and {:?}", v, w);
		for i in 0..n {
			ones[i] += v[i] as u64;
			pairs[i] += (v[i] == v[(i + 1) % n]) as u64;
		}
		same(c, &s, &v, "random state")?;
	}
	let dev = deviation(runs as f64, 0.5);
	for i in 0..n {
		ensure!(
			(ones[i] as f64 - runs as f64 / 2.0).abs() < dev,
			"bit {} is true in {} of {} random states",
			i, ones[i], runs
		);
		ensure!(
			n < 2 || (pairs[i] as f64 - runs as f64 / 2.0).abs() < dev,
			"bits {} and {} are equal in {} of {} random states",
			i, (i + 1) % n, pairs[i], runs
		);
		c.saw("random bits counted", runs);
	}
	if n > 8 {
		c.nontrivial(&c.desc.clone());
	}
	Ok(())
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C13",
			quick: 480_000,
			thorough: 48_000_000,
			rule: "random sequences of 5 to 45 operations (set, flip, unchecked variants in range, clone, swap with a clone, rebuild, refused access) on packed states of length 0 to 130 around multiples of eight, some of up to 9000 bits, compared with a vector of booleans after each step; random states from generators of zeros, ones and random numbers. Non-trivial: more than one byte; distinct by operations",
			workers: 0,
			need: &["set", "flip", "clones", "accesses out of range refused", "random bits counted", "random states of many bits", "states of more than 2048 bits", "iterators walked by jumps"],
		},
		|c| if c.idx % 20 == 0 { random(c) } else { ops(c) },
	)
}
