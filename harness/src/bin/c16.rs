//! C16: node sets obey the laws of sets
use annealers::set::NodeSet;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use vh::run::*;
use vh::{ensure, fail};

type Set = BTreeSet<usize>;

fn hash<T: Hash>(t: &T) -> u64 {
	let mut h = DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

/// s must be the set with these members
fn is<S: NodeSet>(c: &mut Case, name: &str, from: &str, s: &S, want: &Set) -> Res {
	let sorted: Vec<usize> = want.iter().copied().collect();
	let it: Vec<usize> = NodeSet::iter(s).collect();
	ensure!(it == sorted, "{} {}: iter() gives {:?} instead of {:?}", name, from, it, sorted);
	vh::iters::agree(c, name, false, &sorted, || NodeSet::iter(s))?;
	let n = NodeSet::len(s);
	ensure!(n == want.len(), "{} {}: len() is {} instead of {}", name, from, n, want.len());
	let v = s.clone().into_vec();
	ensure!(v == sorted, "{} {}: into_vec() gives {:?} instead of {:?}", name, from, v, sorted);
	let t = s.clone().into_set();
	ensure!(t == *want, "{} {}: into_set() gives {:?} instead of {:?}", name, from, t, want);
	let mut probes: Vec<usize> = vec![0, 1, 63, 64, usize::MAX];
	for m in want {
		// one apart, or in one bit
		let bit = 1usize << c.rng.below(usize::BITS as usize);
		probes.extend_from_slice(&[*m, m.wrapping_add(1), m.wrapping_sub(1), m ^ bit, m ^ 1 << 32]);
	}
	for p in probes {
		let b = NodeSet::contains(s, p);
		ensure!(
			b == want.contains(&p),
			"{} {}: contains({}) is {} for {:?}",
			name, from, p, b, want
		);
		c.saw("memberships compared", 1);
	}
	c.saw("sets compared", 1);
	Ok(())
}

fn laws<S: NodeSet>(c: &mut Case, name: &str, limit: usize, mem: &[usize], perm: &[usize]) -> Res {
	let want: Set = mem.iter().copied().collect();
	let sorted: Vec<usize> = want.iter().copied().collect();
	let mut repeated = perm.to_vec();
	for _ in 0..c.rng.below(3) {
		if let Some(m) = perm.first() {
			repeated.insert(c.rng.below(repeated.len() + 1), *m);
			let n = repeated.len() - 1;
			repeated.swap(c.rng.below(n), n);
		}
	}
	let falling: Vec<usize> = sorted.as_slice().iter().rev().copied().collect();
	let fits = !want.is_empty() && want.len() <= limit;
	let made: Vec<(&str, Option<S>)> = vec![
		("from_vec(sorted)", S::from_vec(sorted.clone())),
		("from_vec(unsorted)", S::from_vec(perm.to_vec())),
		("from_vec_unchecked", unsafe { S::from_vec_unchecked(sorted.clone()) }),
		("from_set", S::from_set(want.clone())),
		("from_it(sorted)", S::from_it(sorted.as_slice().iter().copied())),
		("from_it(unsorted)", S::from_it(perm.to_vec())),
		("from_it(repeated)", S::from_it(repeated.clone())),
		("from_vec(repeated)", S::from_vec(repeated)),
		("from_it(falling)", S::from_it(falling.clone())),
		("from_vec(falling)", S::from_vec(falling)),
		("from_it(set)", S::from_it(want.clone())),
		("from_it(filter)", S::from_it((0..sorted.len()).map(|i| sorted[i]).filter(|_| true))),
	];
	let mut all: Vec<(&str, S)> = Vec::new();
	for (from, s) in made {
		match s {
			None => ensure!(!fits, "{} {}: {:?} is refused", name, from, want),
			Some(s) => {
				if !fits {
					if want.is_empty() {
						// only representations without an own notion of emptiness may refuse
						ensure!(
							NodeSet::len(&s) == 0,
							"{} {}: the empty set becomes {:?}",
							name, from, s
						);
					} else {
						fail!("{} {}: {:?} becomes {:?}", name, from, want, s);
					}
				}
				if fits {
					is(c, name, from, &s, &want)?;
				}
				all.push((from, s));
			}
		}
		if !fits {
			c.saw("sets refused", 1);
		}
	}
	for (f, s) in &all {
		for (g, t) in &all {
			ensure!(s == t, "{}: {} and {} of {:?} differ: {:?}, {:?}", name, f, g, want, s, t);
			ensure!(hash(s) == hash(t), "{}: hashes of {} and {} of {:?} differ", name, f, g, want);
		}
	}
	// forth and back
	if fits {
		for (f, s) in &all {
			let back: Vec<(&str, Option<S>)> = vec![
				("vector", S::from_vec(s.clone().into_vec())),
				("set", S::from_set(s.clone().into_set())),
				("iterator", S::from_it(NodeSet::iter(s))),
			];
			for (g, t) in back {
				ensure!(
					t.as_ref() == Some(s),
					"{} {}: {:?} through a {} becomes {:?}",
					name, f, s, g, t
				);
				c.saw("round trips", 1);
			}
		}
	}
	Ok(())
}

fn case(c: &mut Case) -> Res {
	let n = match c.rng.below(8) {
		0 => 0,
		1 => 1,
		2 | 3 | 4 => 2,
		5 => 3,
		_ => 3 + c.rng.below(20),
	};
	let top = *c.rng.pick(&[4usize, 30, 1000, usize::MAX]);
	let mut set = Set::new();
	// nodes which agree in their low bits
	let shift = if c.rng.chance(1, 4) { Some(*c.rng.pick(&[8, 16, 31, 32, 33, 48, 62])) } else { None };
	for _ in 0..n {
		if let Some(s) = shift {
			set.insert(c.rng.below(3) + (c.rng.below(4) << s));
			c.saw("nodes with equal low bits", 1);
			continue;
		}
		let v = match (top, c.rng.below(4)) {
			(usize::MAX, 0) => usize::MAX - c.rng.below(3),
			(usize::MAX, _) => c.rng.u64() as usize,
			(t, _) => c.rng.below(t),
		};
		set.insert(v);
	}
	let mem: Vec<usize> = set.iter().copied().collect();
	let mut perm = mem.clone();
	c.rng.shuffle(&mut perm);
	c.desc = format!("{:?}", perm);
	laws::<Set>(c, "BTreeSet", usize::MAX, &mem, &perm)?;
	laws::<Vec<usize>>(c, "Vec", usize::MAX, &mem, &perm)?;
	laws::<[usize; 2]>(c, "[usize; 2]", 2, &mem, &perm)?;
	// the representations agree with each other
	let a = Set::from_vec(perm.clone()).map(|s| s.into_vec());
	let b = <Vec<usize> as NodeSet>::from_vec(perm.clone()).map(|s| s.into_vec());
	ensure!(a == b, "BTreeSet and Vec of {:?} differ: {:?}, {:?}", perm, a, b);
	// a set of duplicates
	if let Some(m) = mem.first() {
		let twice = vec![*m, *m];
		let one: Set = std::iter::once(*m).collect();
		for (f, s) in [
			("from_vec", <[usize; 2]>::from_vec(twice.clone())),
			("from_it", <[usize; 2]>::from_it(twice.clone())),
			("from_vec_unchecked", unsafe { <[usize; 2]>::from_vec_unchecked(twice.clone()) }),
			("from_set", <[usize; 2]>::from_set(one.clone())),
			("literal", Some([*m, *m])),
		] {
			match s {
				None => fail!("a pair of equal nodes is refused by {}", f),
				Some(s) => {
					is(c, "pair of equal nodes", f, &s, &one)?;
					ensure!(s == [*m, *m], "singleton {} by {} becomes {:?}", m, f, s);
				}
			}
			c.saw("pairs of equal nodes", 1);
		}
		let s = Set::from_vec(twice.clone()).unwrap_or_default();
		is(c, "BTreeSet", "from_vec(duplicates)", &s, &one)?;
		let s = Set::from_it([perm.clone(), perm.clone()].concat()).unwrap_or_default();
		is(c, "BTreeSet", "from_it(duplicates)", &s, &set)?;
	}
	if mem.len() >= 2 {
		let s = format!("{} {:?}", mem.len(), mem);
		c.nontrivial(&s);
	}
	Ok(())
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C16",
			quick: 400_000,
			thorough: 40_000_000,
			rule: "random sets of 0 to 22 nodes, small and huge indices, indices that differ in high bits only, built in every way into BTreeSet, Vec and [usize; 2] and converted forth and back; non-trivial: at least two members, distinct by members",
			workers: 0,
			need: &[
				"sets compared",
				"sets refused",
				"nodes with equal low bits",
				"round trips",
				"pairs of equal nodes",
				"memberships compared",
				"iterators walked by jumps",
			],
		},
		case,
	)
}
