//! C14: models return the weights put in and enumerate each term once
use annealers::model::*;
use annealers::node::*;
use annealers::order::*;
use annealers::set::NodeSet;
use std::collections::{BTreeMap, BTreeSet};
use vh::ensure;
use vh::num::*;
use vh::prng::Prng;
use vh::run::*;

type Set = BTreeSet<usize>;

fn weight<R: Num>(r: &mut Prng) -> Q {
	if R::BITS < 10 {
		Q::int(r.range(-3, 3) as i128)
	} else if R::INT {
		Q::int(r.range(-500, 500) as i128)
	} else {
		Q::new(r.range(-500, 500) as i128, r.below(4) as u32)
	}
}

/// Everything enumerable, against the reference
fn same<P: SingleModelView>(
	c: &mut Case,
	m: &P,
	nodes: &Set,
	terms: &BTreeMap<Set, Q>,
	what: &str,
) -> Res
where
	<P::Node as SingleNode>::RealType: Num,
{
	let got: Vec<usize> = m.nodes().into_iter().collect();
	let set: Set = got.clone().into_iter().collect();
	ensure!(got.len() == set.len(), "{}: nodes() has duplicates: {:?}", what, got);
	ensure!(set == *nodes, "{}: nodes() are {:?} instead of {:?}", what, set, nodes);
	ensure!(
		SingleModelView::size(m) == nodes.len() && ModelView::size(m) == nodes.len(),
		"{}: size {} instead of {}",
		what,
		SingleModelView::size(m),
		nodes.len()
	);
	if c.rng.chance(1, 4) {
		vh::iters::agree(c, "nodes", false, &got, || m.nodes().into_iter())?;
		let all: Vec<_> = m.prods().into_iter().collect();
		vh::iters::agree(c, "prods", false, &all, || m.prods().into_iter())?;
		if !got.is_empty() {
			let u = *c.rng.pick(&got);
			let all: Vec<_> = m.neighbors(u).into_iter().collect();
			vh::iters::agree(c, "neighbors", false, &all, || m.neighbors(u).into_iter())?;
		}
	}
	let mut seen: BTreeSet<Set> = BTreeSet::new();
	for p in m.prods() {
		let s = p.clone().into_set();
		ensure!(seen.insert(s.clone()), "{}: prods() enumerates {:?} twice", what, s);
		match terms.get(&s) {
			None => return Err(format!("{}: prods() enumerates {:?}", what, s)),
			Some(w) => {
				let g = m.get_weight(&p);
				ensure!(g.q() == *w, "{}: weight {} of {:?} instead of {}", what, g, s, w);
			}
		}
		c.saw("terms compared", 1);
	}
	for s in terms.keys() {
		ensure!(seen.contains(s), "{}: prods() does not enumerate {:?}", what, s);
	}
	for u in nodes {
		let mut near: BTreeSet<Set> = BTreeSet::new();
		for p in m.neighbors(*u) {
			let s = p.clone().into_set();
			ensure!(near.insert(s.clone()), "{}: neighbors({}) enumerates {:?} twice", what, u, s);
			ensure!(
				terms.contains_key(&s) && s.contains(u),
				"{}: neighbors({}) enumerates {:?}",
				what, u, s
			);
		}
		let want = terms.keys().filter(|s| s.contains(u)).count();
		ensure!(
			near.len() == want,
			"{}: neighbors({}) enumerates {} of {} terms",
			what, u, near.len(), want
		);
		c.saw("neighbourhoods compared", 1);
	}
	c.saw("models compared", 1);
	Ok(())
}

fn dense<R: Num>(c: &mut Case) -> Res {
	let wide = c.rng.chance(1, if c.thorough { 200 } else { 1500 });
	let n = match c.rng.below(6) {
		_ if wide => 41 + c.rng.below(460),
		0 => c.rng.below(4),
		5 => c.rng.below(41),
		_ => 1 + c.rng.below(10),
	};
	let mut m = FixedSingleQuadricModel::new(Spin::<R>::new(), n);
	let nodes: Set = (0..n).collect();
	let mut terms: BTreeMap<Set, Q> = BTreeMap::new();
	for i in 0..n {
		for j in i..n {
			terms.insert([i, j].into_iter().collect(), Q::ZERO);
		}
	}
	c.desc = format!("{} dense size {}", R::NAME, n);
	if wide {
		c.saw("models of hundreds of nodes", 1);
	} else {
		same(c, &m, &nodes, &terms, "a new model")?;
	}
	let mut clone: Option<(FixedSingleQuadricModel<Spin<R>>, BTreeMap<Set, Q>)> = None;
	let steps = c.rng.below(30);
	for k in 0..steps {
		if n > 0 && c.rng.chance(9, 10) {
			let (i, j) = (c.rng.below(n), c.rng.below(n));
			let w = weight::<R>(&mut c.rng);
			let e = terms.get_mut(&[i, j].into_iter().collect::<Set>()).unwrap();
			if R::from_q(*e + w).is_none() {
				continue;
			}
			*e = *e + w;
			m.add_weight(i, j, R::of(w));
			c.desc += &format!(" add({},{},{})", i, j, w);
			c.saw("weights added", 1);
			// this one only, to save time
			let (a, b) = (i.min(j), i.max(j));
			let got = FixedSingleModelView::get_weight(&m, &[a, b]);
			ensure!(got.q() == *e, "weight {} of ({},{}) instead of {}", got, a, b, e);
			let got = unsafe { FixedSingleModelView::get_weight_unchecked(&m, &[a, b]) };
			ensure!(got.q() == *e, "unchecked weight {} of ({},{}) instead of {}", got, a, b, e);
			let s = unsafe { SingleModelView::get_weight_unchecked(&m, &[a, b]) };
			ensure!(s.q() == *e, "unchecked weight {} of ({},{}) instead of {}", s, a, b, e);
		} else {
			// out of range, in any position
			let bad = n + match c.rng.below(3) {
				0 => 0,
				1 => 1 + c.rng.below(5),
				_ => 1000,
			};
			let ok = if n > 0 && c.rng.bool() { c.rng.below(n) } else { bad };
			let op = c.rng.below(4);
			let r = guard(|| match op {
				0 => m.add_weight(bad, ok, R::one()),
				1 => m.add_weight(ok, bad, R::one()),
				2 => {
					FixedSingleModelView::get_weight(&m, &[ok, bad]);
				}
				_ => {
					SingleModelView::get_weight(&m, &[ok, bad]);
				}
			});
			ensure!(
				r.is_err(),
				"{} of the nodes {} and {} of a model of size {} is not refused",
				if op < 2 { "add_weight" } else { "get_weight" },
				ok, bad, n
			);
			c.saw("nodes out of range refused", 1);
		}
		if k % 7 == 3 && !wide {
			same(c, &m, &nodes, &terms, "the model")?;
			if let Some((o, t)) = &clone {
				same(c, o, &nodes, t, "an old clone")?;
			}
			clone = Some((m.clone(), terms.clone()));
		}
	}
	same(c, &m, &nodes, &terms, "the model")?;
	if let Some((o, t)) = &clone {
		same(c, o, &nodes, t, "an old clone")?;
	}
	if n >= 2 && terms.values().filter(|w| !w.is_zero()).count() >= 2 {
		c.nontrivial(&c.desc.clone());
	}
	Ok(())
}

fn sparse<R: Num, O: Order>(c: &mut Case, order: O, max: usize) -> Res {
	// node indices anywhere
	let many = c.rng.chance(1, 100);
	let mut ids: Vec<usize> = (0..1 + c.rng.below(if many { 60 } else { 8 }))
		.map(|i| match c.rng.below(3) {
			0 => i,
			1 => c.rng.below(40),
			_ => c.rng.below(1 << 40),
		})
		.collect();
	ids.sort_unstable();
	ids.dedup();
	let (mut nodes, mut terms) = (Set::new(), BTreeMap::<Set, Q>::new());
	let mut m = SingleModel::new(Binary::<R>::new(), order.clone());
	ensure!(*SingleModelView::order(&m) == order, "another order is returned");
	c.desc = format!("{} sparse order {}", R::NAME, max);
	same(c, &m, &nodes, &terms, "a new model")?;
	let mut old = None;
	let steps = if many { 100 + c.rng.below(300) } else { c.rng.below(25) };
	for k in 0..steps {
		let d = 1 + c.rng.below(max.min(ids.len()));
		let mut v = ids.clone();
		c.rng.shuffle(&mut v);
		v.truncate(d);
		let set: Set = v.clone().into_iter().collect();
		let w = weight::<R>(&mut c.rng);
		let sum = terms.get(&set).copied().unwrap_or(Q::ZERO) + w;
		if R::from_q(sum).is_none() {
			continue;
		}
		let p = match O::NodeSetType::from_vec(v.clone()) {
			Some(p) => p,
			None => return Err(format!("no set of the nodes {:?}", v)),
		};
		m.add_weight(p.clone(), R::of(w));
		c.desc += &format!(" add({:?},{})", v, w);
		terms.insert(set.clone(), sum);
		nodes.extend(set.iter().copied());
		c.saw("weights added", 1);
		c.rng.shuffle(&mut v);
		let p = O::NodeSetType::from_vec(v).unwrap();
		let got = SingleModelView::get_weight(&m, &p);
		ensure!(got.q() == sum, "weight {} of {:?} instead of {}", got, set, sum);
		if k % (if many { 90 } else { 6 }) == 2 {
			same(c, &m, &nodes, &terms, "the model")?;
			old = Some((m.clone(), nodes.clone(), terms.clone()));
		}
	}
	same(c, &m, &nodes, &terms, "the model")?;
	if let Some((m, n, t)) = &old {
		same(c, m, n, t, "an old clone")?;
	}
	if terms.len() >= 2 {
		c.nontrivial(&c.desc.clone());
	}
	Ok(())
}

fn any<R: Num>(c: &mut Case) -> Res {
	match c.rng.below(4) {
		0 => sparse::<R, _>(c, Quadric, 2),
		1 => {
			let k = 1 + c.rng.below(5);
			sparse::<R, _>(c, HighOrder::new(k), k)
		}
		_ => dense::<R>(c),
	}
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C14",
			quick: 90_000,
			thorough: 9_000_000,
			rule: "random sequences of add_weight on dense models (size 0 to 40), sparse quadratic and sparse high-order models (node indices up to 2^40), in either order of the nodes, with clones and out-of-range indices; nodes, size, prods, neighbors and all weights compared with a map from sets to exact sums. Non-trivial: at least two terms; distinct by operations",
			workers: 0,
			need: &["weights added", "terms compared", "neighbourhoods compared", "nodes out of range refused", "models of hundreds of nodes", "iterators walked by jumps"],
		},
		|c| match c.rng.below(7) {
			0 => any::<i8>(c),
			1 => any::<i16>(c),
			2 => any::<i32>(c),
			3 => any::<i64>(c),
			4 => any::<i128>(c),
			5 => any::<f32>(c),
			_ => any::<f64>(c),
		},
	)
}
