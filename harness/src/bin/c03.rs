//! C03: a solution knows exactly the variables of the expression, consistently
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use vh::ast::*;
use vh::num::*;
use vh::probe::*;
use vh::run::*;
use vh::wide;
use vh::{ensure, with_types};

fn check<R: Num, Tp: Lab, Tq: Lab, Tc: Lab>(c: &mut Case) -> Res {
	let w = vec![Q::ONE; 4];
	let mut g = settings::<R>(&mut c.rng, 4);
	if R::BITS > 60 && c.rng.chance(1, 8) {
		g.vars = 12;
	}
	let ast = fitting::<R>(&mut c.rng, &[], &w, 6, 9, |r| {
		let size = 2 + r.below(20);
		let deg = 1 + r.below(4) as u32;
		let t = g.tree(r, size, deg, true);
		match r.below(6) {
			// variables that cancel or are multiplied by zero still occur
			0 => add(t, sub(bin(0), bin(0))),
			1 => add(t, mul(num(0), product((0..g.vars.min(4)).map(bin).collect()))),
			2 => add(t, mul(num(r.range(-2, 2) as i128), product((0..g.vars.min(5)).map(bin).collect()))),
			3 => add(t, sum((0..g.vars).map(|i| mul(num(r.range(-2, 2) as i128), bin(i))).collect())),
			_ => t,
		}
	});
	let (vars, labels) = (ast.vars(), ast.labels());
	c.desc = format!("{}, labels {}: {}", R::NAME, Tq::NAME, ast);
	probe(ast.expr::<Tp, Tq, Tc, R>(), dict(&[], |_| true), dict(&[], |_| true), |s, inner| {
		s.coeff_strength = strength(labels.len(), w[0]);
		let listed: Vec<Tq> = s.get_qubits().into_iter().cloned().collect();
		let want: BTreeSet<Tq> = vars.iter().map(|v| Tq::mk(*v)).collect();
		ensure!(
			listed.len() == want.len() && listed.iter().cloned().collect::<BTreeSet<_>>() == want,
			"the solver lists the variables {:?}, the expression has {:?}",
			listed,
			want
		);
		// which position does each variable follow?
		let l = learn(s, inner, &vars)?;
		// ... and it is the position which its energy depends on
		if l.anc.len() <= 6 {
			let (n, _, _, _) = compare(&l, &ast, &[], &w)?;
			c.saw("energies compared", n);
		}
		let mut states = BTreeSet::new();
		for k in 0..6 {
			let got = Arc::new(Mutex::new(Vec::new()));
			let g = got.clone();
			let mut rng = c.rng.clone();
			c.rng.u64();
			inner.set(move |_, cap| {
				let st = match k {
					0 => vec![true; cap.n],
					_ => rng.bits(cap.n),
				};
				*g.lock().unwrap() = st.clone();
				Ok(Ok(vec![st]))
			});
			let (_, view, _) = s.solve_with_constraints().map_err(|e| e.to_string())?;
			let st: Vec<bool> = got.lock().unwrap().clone();
			let keys: Vec<&Tq> = view.keys().collect();
			let set: BTreeSet<Tq> = keys.iter().map(|k| (*k).clone()).collect();
			ensure!(
				set == want && keys.len() == want.len(),
				"the solution lists {:?}, the expression has {:?}",
				keys,
				want
			);
			let mut shown: Vec<(String, bool)> = Vec::new();
			for v in &vars {
				let q = Tq::mk(*v);
				let b = st[l.map[v]];
				ensure!(
					view.get(&q) == Some(b),
					"get({:?}) is {:?}, the annealer returned {} for it (state {:?})",
					q,
					view.get(&q),
					b,
					st
				);
				let i = view[&q];
				ensure!(i == b, "index {:?} gives {}, get gives {}", q, i, b);
				shown.push((format!("{:?}", q), b));
			}
			// debug output: the same map
			let text = format!("{:?}", view);
			let mut parts: Vec<String> = shown.iter().map(|(k, b)| format!("{}: {}", k, b)).collect();
			let len: usize = parts.iter().map(|p| p.len() + 2).sum();
			parts.sort_by_key(|p| std::cmp::Reverse(p.len()));
			ensure!(
				text.len() == if parts.is_empty() { 2 } else { len } && parts.iter().all(|p| text.contains(p.as_str())),
				"debug output {} of the assignment {:?}",
				text,
				shown
			);
			// alternate form: one entry a line
			let alt = format!("{:#?}", view);
			ensure!(
				alt.matches("true").count() == shown.iter().filter(|s| s.1).count(),
				"alternate debug output {} of the assignment {:?}",
				alt,
				shown
			);
			// what is not there
			for i in 0..14 {
				if !vars.contains(&i) {
					let q = Tq::mk(i);
					ensure!(view.get(&q).is_none(), "unknown variable {:?} has the value {:?}", q, view.get(&q));
					ensure!(view.local_field(&q).is_none(), "unknown variable {:?} has the local field {:?}", q, view.local_field(&q));
					c.saw("unknown variables asked for", 1);
				}
			}
			ensure!(
				view.occurrences() == occurrences(&st),
				"{} occurrences of a sample which occurred {} times",
				view.occurrences(),
				occurrences(&st)
			);
			c.saw("solutions read", 1);
			c.saw("values read", vars.len() as u64);
			states.insert(st);
		}
		c.saw("auxiliary variables", l.anc.len() as u64);
		c.saw("distinct states", states.len() as u64);
		if vars.len() >= 2 {
			c.nontrivial(&c.desc.clone());
			c.sample = Some(format!("{} -> {} variables, {} auxiliary, {} states", c.desc, vars.len(), l.anc.len(), states.len()));
		}
		Ok(())
	})
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C03",
			quick: 120_000,
			thorough: 12_000_000,
			rule: "random expressions with and without auxiliary variables, with cancelling and zero terms, also with hundreds of variables, 7 label types; the annealer answers with random states; keys, get, index, debug output and the solver's list are compared with the variables of the expression and the positions they were found to follow, and the energies as function of these positions with the expression. Non-trivial: two variables or more; distinct by expression and types",
			workers: 0,
			need: &["solutions read", "energies compared", "auxiliary variables", "unknown variables asked for", "values of large problems"],
		},
		|c| {
			if c.idx % 3000 == 1500 {
				let vars = wide::size(&mut c.rng, 65, 450);
				let (pairs, groups) = (c.rng.below(30), c.rng.below(12));
				wide::any(c, wide::Spec { vars, pairs, groups, ..Default::default() })
			} else {
				with_types!(c.idx, check(c))
			}
		},
	)
}
