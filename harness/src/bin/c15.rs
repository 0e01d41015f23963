//! C15: energies and local fields of solutions match their definition
use annealers::model::*;
use annealers::node::*;
use annealers::order::*;
use annealers::repr::BinaryRepr;
use annealers::set::NodeSet;
use annealers::solution::SingleSolution;
use std::collections::{BTreeMap, BTreeSet};
use vh::ensure;
use vh::num::*;
use vh::prng::Prng;
use vh::run::*;

type Set = BTreeSet<usize>;
type Terms = BTreeMap<Set, Q>;

fn energy(terms: &Terms, s: &[bool], val: &[Q; 2]) -> Q {
	terms.iter().fold(Q::ZERO, |e, (set, w)| {
		e + set.iter().fold(*w, |p, i| p * val[s[*i] as usize])
	})
}

fn check<N: SingleNode, P: SingleModelView<Node = N>>(
	c: &mut Case,
	m: &P,
	terms: &Terms,
	n: usize,
	val: &[Q; 2],
) -> Res
where
	N::RealType: Num,
{
	let of = |q: Q| <N::RealType as Num>::of(q);
	for _ in 0..4 {
		let st = c.rng.bits(n);
		let sol = if c.rng.bool() {
			SingleSolution::<N>::from_vec(&st)
		} else {
			SingleSolution::<N>::from_state(BinaryRepr::from_vec(&st))
		};
		ensure!(
			sol.len() == n && sol.energy.is_none() && sol.local_field.is_none() && sol.occurrences == 1,
			"a new solution has length {}, energy {:?}, {} occurrences",
			sol.len(), sol.energy, sol.occurrences
		);
		for i in 0..n {
			ensure!(sol.get(i) == st[i] && sol[i] == st[i], "value {} of node {}", sol.get(i), i);
		}
		let e = energy(terms, &st, val);
		let got = sol.calculate_energy(m);
		ensure!(got.q() == e, "energy {} instead of {} of {:?}", got, e, st);
		for p in m.prods() {
			let want = p.iter().fold(Q::ONE, |w, i| w * val[st[i] as usize]);
			let got = m.calculate_prod(&p, &sol);
			ensure!(got.q() == want, "product {} of {:?} instead of {} in {:?}", got, p, want, st);
		}
		let mut sol = sol;
		sol.occurrences = c.rng.below(1000);
		let full = sol.clone().with_energy(m);
		ensure!(full.energy.map(|e| e.q()) == Some(e), "attached energy {:?} instead of {}", full.energy, e);
		ensure!(full.state.to_vec() == st, "attaching the energy changes the state");
		let full = full.with_local_field(m);
		ensure!(full.state.to_vec() == st, "attaching the local field changes the state {:?} to {:?}", st, full.state);
		ensure!(full.energy.map(|e| e.q()) == Some(e), "attaching the local field changes the energy");
		ensure!(
			full.occurrences == sol.occurrences,
			"{} occurrences became {}",
			sol.occurrences, full.occurrences
		);
		let f = match &full.local_field {
			Some(f) => f.clone(),
			None => return Err(String::from("no local field is attached")),
		};
		let g = sol.clone().calculate_local_field(m);
		ensure!(f.len() == n && g == f, "local fields {:?} and {:?} of {} nodes", f, g, n);
		for i in 0..n {
			let mut fl = st.clone();
			fl[i] = !fl[i];
			let want = energy(terms, &fl, val) - e;
			ensure!(
				f[i].q() == want,
				"local field {} of node {} instead of {} in {:?}",
				f[i], i, want, st
			);
			c.saw("local fields compared", 1);
			if !want.is_zero() {
				c.saw("local fields that are not zero", 1);
			}
		}
		c.saw("energies compared", 1);
		if !e.is_zero() {
			c.saw("energies that are not zero", 1);
		}
		// what is attached is reused, also if it is wrong
		let mut odd = sol.clone();
		let wrong = of(Q::int(7));
		odd.energy = Some(wrong);
		ensure!(odd.calculate_energy(m) == wrong, "an attached energy is not reused");
		ensure!(odd.clone().with_energy(m).energy == Some(wrong), "an attached energy is replaced");
		let mut odd = sol.clone();
		odd.local_field = Some(vec![wrong; n]);
		ensure!(odd.clone().calculate_local_field(m) == vec![wrong; n], "an attached local field is not reused");
		ensure!(
			odd.with_local_field(m).local_field == Some(vec![wrong; n]),
			"an attached local field is replaced"
		);
		c.saw("attached values reused", 4);
		// order
		let mut a = sol.clone();
		let mut b = SingleSolution::<N>::from_vec(&c.rng.bits(n));
		ensure!(a.compare_energy(&b).is_none(), "solutions without energies are ordered");
		let (x, y) = (c.rng.range(-2, 2), c.rng.range(-2, 2));
		a.energy = Some(of(Q::int(x as i128)));
		ensure!(
			a.compare_energy(&b).is_none() && b.compare_energy(&a).is_none(),
			"solutions without energies are ordered"
		);
		b.energy = Some(of(Q::int(y as i128)));
		ensure!(
			a.compare_energy(&b) == Some(x.cmp(&y)),
			"energies {} and {} compare as {:?}",
			x, y, a.compare_energy(&b)
		);
		// energies that are close, and of many bits
		let bits = <N::RealType as Num>::BITS;
		let top = Q::int(1i128 << (bits - 2));
		let unit = if <N::RealType as Num>::INT || c.rng.bool() { Q::ONE } else { Q::new(1, 60) };
		for (dx, dy) in [(0, 0), (0, 1), (1, 0), (-1, 0), (1, 1)] {
			let base = if c.rng.bool() { top } else { -top };
			let (x, y) = ((base + Q::int(dx)) * unit, (base + Q::int(dy)) * unit);
			a.energy = Some(of(x));
			b.energy = Some(of(y));
			ensure!(
				a.compare_energy(&b) == Some(dx.cmp(&dy)),
				"energies {} and {} compare as {:?}",
				x, y, a.compare_energy(&b)
			);
			c.saw("orders of many bits compared", 1);
		}
		c.saw("orders compared", 1);
	}
	Ok(())
}

fn weight<R: Num>(r: &mut Prng) -> Q {
	if R::BITS < 10 {
		Q::int(r.range(-1, 1) as i128)
	} else if R::BITS < 20 {
		Q::int(r.range(-9, 9) as i128)
	} else if R::INT {
		Q::int(r.range(-500, 500) as i128)
	} else {
		Q::new(r.range(-500, 500) as i128, r.below(4) as u32)
	}
}

fn model<R: Num, N: SingleNode<RealType = R>>(c: &mut Case, node: N, val: [Q; 2]) -> Res {
	for b in [false, true] {
		let v = node.get_value(b);
		ensure!(v.q() == val[b as usize], "value {} of {} instead of {}", v, b, val[b as usize]);
	}
	let bs = c.rng.bits(c.rng.clone().below(4));
	let want = bs.iter().fold(Q::ONE, |p, b| p * val[*b as usize]);
	let got = node.calculate_prod(&bs);
	ensure!(got.q() == want, "product {} of {:?} instead of {}", got, bs, want);
	let tiny = R::BITS < 20;
	let kind = c.rng.below(3);
	let large = !tiny && c.rng.chance(1, 800);
	let n = match (tiny, large) {
		(true, _) => c.rng.below(5),
		(_, true) => 100 + c.rng.below(350),
		_ => c.rng.below(11),
	};
	if large {
		c.saw("models of hundreds of nodes", 1);
	}
	let mut terms: Terms = BTreeMap::new();
	let add = |terms: &mut Terms, s: Set, w: Q| {
		let e = terms.entry(s).or_insert(Q::ZERO);
		*e = *e + w;
	};
	let count = if n == 0 { 0 } else { c.rng.below(if tiny { 5 } else if large { 300 } else { 20 }) };
	match kind {
		0 => {
			let mut m = FixedSingleQuadricModel::new(node, n);
			for _ in 0..count {
				let (i, j, w) = (c.rng.below(n), c.rng.below(n), weight::<R>(&mut c.rng));
				m.add_weight(i, j, R::of(w));
				add(&mut terms, [i, j].into_iter().collect(), w);
			}
			c.desc = format!("dense {}, {:?}", n, show(&terms));
			check(c, &m, &terms, n, &val)?;
		}
		1 => {
			let mut m = SingleModel::new(node, Quadric);
			for _ in 0..count {
				let (i, j, w) = (c.rng.below(n), c.rng.below(n), weight::<R>(&mut c.rng));
				m.add_weight(NodeSet::from_vec(vec![i, j]).unwrap(), R::of(w));
				add(&mut terms, [i, j].into_iter().collect(), w);
			}
			c.desc = format!("sparse {}, {:?}", n, show(&terms));
			check(c, &m, &terms, n, &val)?;
		}
		_ => {
			let order = 1 + c.rng.below(if tiny { 3 } else { 5 });
			let mut m = SingleModel::new(node, HighOrder::new(order));
			for _ in 0..count {
				let d = c.rng.below(order.min(n) + 1);
				let mut v: Vec<usize> = (0..n).collect();
				c.rng.shuffle(&mut v);
				let s: Set = v[..d].iter().copied().collect();
				let w = weight::<R>(&mut c.rng);
				m.add_weight(s.clone(), R::of(w));
				add(&mut terms, s, w);
			}
			c.desc = format!("high order {} {}, {:?}", order, n, show(&terms));
			check(c, &m, &terms, n, &val)?;
		}
	}
	c.desc = format!("{} values {} and {}: {}", R::NAME, val[0], val[1], c.desc);
	if terms.values().filter(|w| !w.is_zero()).count() >= 2 {
		c.nontrivial(&c.desc.clone());
	}
	Ok(())
}

fn show(t: &Terms) -> Vec<(Vec<usize>, f64)> {
	t.iter().map(|(s, w)| (s.iter().copied().collect(), w.f64())).collect()
}

fn any<R: Num>(c: &mut Case) -> Res {
	match c.rng.below(3) {
		0 => {
			let node = if c.rng.bool() { Binary::<R>::new() } else { Binary::default() };
			model(c, node, [Q::ZERO, Q::ONE])
		}
		1 => {
			let node = if c.rng.bool() { Spin::<R>::new() } else { Spin::default() };
			model(c, node, [Q::int(-1), Q::ONE])
		}
		_ => {
			let m = if R::BITS < 20 { 1 } else { 3 };
			let (t, f) = (Q::int(c.rng.range(-m, m) as i128), Q::int(c.rng.range(-m, m) as i128));
			model(c, TwoVal::new(R::of(t), R::of(f)), [f, t])
		}
	}
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C15",
			quick: 240_000,
			thorough: 24_000_000,
			rule: "random dense, sparse and high-order models (terms of up to five nodes) over binary, spin and two-valued nodes, some with hundreds of nodes, with exact weights; energies, products, local fields, attached values and comparisons of random states against their definition. Non-trivial: at least two weights that are not zero; distinct by model",
			workers: 0,
			need: &["energies that are not zero", "local fields that are not zero", "attached values reused", "orders compared", "orders of many bits compared", "models of hundreds of nodes"],
		},
		|c| match c.rng.below(7) {
			0 => any::<i8>(c),
			1 => any::<i16>(c),
			2 => any::<i32>(c),
			3 => any::<i64>(c),
			4 => any::<i128>(c),
			5 => any::<f32>(c),
			_ => any::<f64>(c),
		},
	)
}
