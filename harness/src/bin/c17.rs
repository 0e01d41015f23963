//! C17: adapters describe the wrapped solver faithfully
use annealers::model::{FixedSingleQuadricModel, SingleModel, SingleModelView};
use annealers::node::{Binary, Node, Spin};
use annealers::order::{HighOrder, Order, Quadric};
use annealers::solution::SingleSolution;
use annealers::solver::*;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use vh::anneal::Prob;
use vh::num::*;
use vh::prng::Prng;
use vh::probe::ProbeError;
use vh::run::*;
use vh::{ensure, fail};

/// What a generated solver is known by
struct Made<N> {
	tag: u64,
	model: usize,
	_n: std::marker::PhantomData<fn() -> N>,
}
impl<N: annealers::node::SingleNode + 'static> Solver for Made<N> {
	type ErrorType = ProbeError;
	type SolutionType = SingleSolution<N>;
}
impl<N: annealers::node::SingleNode + 'static> ClassicalSolver for Made<N> {
	fn solve_with_rng<T: rand::Rng>(
		&self,
		r: &mut T,
	) -> Result<Vec<SingleSolution<N>>, ProbeError> {
		if self.tag % 7 == 0 {
			return Err(ProbeError(self.tag + r.next_u64()));
		}
		let v = r.next_u64() ^ self.tag;
		Ok(vec![SingleSolution::from_vec(&[v & 1 == 1, v & 2 == 2, v & 4 == 4])])
	}
}

struct Script<O> {
	size: Option<usize>,
	order: O,
	tag: u64,
	fails: bool,
	calls: Arc<AtomicU64>,
}
struct Default_<O>(Script<O>);
struct Ranged<O, R>(Script<O>, (R, R));

fn produce<O, P: SingleModelView>(s: &Script<O>, model: &P) -> Result<Made<P::Node>, ProbeError> {
	s.calls.fetch_add(1, Ordering::SeqCst);
	if s.fails {
		Err(ProbeError(s.tag))
	} else {
		Ok(Made {
			tag: s.tag,
			model: model as *const P as *const u8 as usize,
			_n: std::marker::PhantomData,
		})
	}
}

impl<'a, O: Order, P: SingleModelView> SolverGenerator<'a, P> for Default_<O>
where
	P::Node: 'static,
{
	type SolverType = Made<P::Node>;
	type ErrorType = ProbeError;
	fn generate(&self, model: &'a P) -> Result<Self::SolverType, ProbeError> {
		produce(&self.0, model)
	}
}
impl<'a, O: Order, P: SingleModelView> UnstructuredSolverGenerator<'a, P> for Default_<O>
where
	P::Node: 'static,
{
	type Order = O;
	fn order(&self) -> O {
		self.0.order.clone()
	}
	fn size(&self) -> Option<usize> {
		self.0.size
	}
}
impl<'a, O: Order, R: Num, P: SingleModelView> SolverGenerator<'a, P> for Ranged<O, R>
where
	P::Node: Node<RealType = R> + 'static,
{
	type SolverType = Made<P::Node>;
	type ErrorType = ProbeError;
	fn value_range(&self) -> (R, R) {
		self.1
	}
	fn generate(&self, model: &'a P) -> Result<Self::SolverType, ProbeError> {
		produce(&self.0, model)
	}
}
impl<'a, O: Order, R: Num, P: SingleModelView> UnstructuredSolverGenerator<'a, P> for Ranged<O, R>
where
	P::Node: Node<RealType = R> + 'static,
{
	type Order = O;
	fn order(&self) -> O {
		self.0.order.clone()
	}
	fn size(&self) -> Option<usize> {
		self.0.size
	}
}

fn structure<'a, P: SingleModelView, G: StructuredSolverGenerator<'a, P>>(
	c: &mut Case,
	g: &G,
	size: Option<usize>,
) -> Res {
	for _ in 0..2 {
		match size {
			Some(n) => {
				let nodes: Vec<usize> = g.nodes().take(n + 5).collect();
				let set: BTreeSet<usize> = nodes.iter().copied().collect();
				ensure!(
					nodes.len() == n && set == (0..n).collect::<BTreeSet<_>>(),
					"nodes of a generator of size {}: {:?}",
					n, nodes
				);
				let mut seen = BTreeSet::new();
				let mut it = g.prods();
				for _ in 0..n * n + 5 {
					match it.next() {
						None => break,
						Some(p) => {
							ensure!(
								p.len() == 2 && p.iter().all(|i| *i < n),
								"size {}: the pair {:?}",
								n, p
							);
							ensure!(seen.insert(p.clone()), "size {}: {:?} twice", n, p);
						}
					}
				}
				ensure!(
					seen.len() == n * n.saturating_sub(1) / 2,
					"size {}: {} pairs",
					n, seen.len()
				);
				let pairs: Vec<BTreeSet<usize>> = g.prods().take(n * n + 5).collect();
				vh::iters::agree(c, "pairs of a limited generator", false, &pairs, || g.prods())?;
				vh::iters::agree(c, "nodes of a limited generator", false, &nodes, || g.nodes())?;
				c.saw("pairs seen", seen.len() as u64);
				c.saw("limited structures", 1);
			}
			None => {
				let m = if c.rng.chance(1, 300) { 70 } else { 1 + c.rng.below(30) };
				if m > 30 {
					c.saw("rows beyond the 256th", 1);
				}
				let nodes: Vec<usize> = g.nodes().take(m * 4).collect();
				let set: BTreeSet<usize> = nodes.iter().copied().collect();
				ensure!(
					nodes.len() == m * 4 && set.len() == m * 4 && (0..m).all(|i| set.contains(&i)),
					"nodes of an unlimited generator start with {:?}",
					nodes
				);
				let mut seen = BTreeSet::new();
				for p in g.prods().take(8 * m * m) {
					ensure!(p.len() == 2, "unlimited: the pair {:?}", p);
					ensure!(seen.insert(p.clone()), "unlimited: {:?} twice", p);
				}
				ensure!(
					seen.len() == 8 * m * m,
					"unlimited: the pairs end after {}",
					seen.len()
				);
				for j in 0..m {
					for i in 0..j {
						ensure!(
							seen.contains(&[i, j].into_iter().collect::<BTreeSet<_>>()),
							"unlimited: the pair ({},{}) is not among the first {}",
							i, j, seen.len()
						);
					}
				}
				let pairs: Vec<BTreeSet<usize>> = g.prods().take(8 * m * m).collect();
				vh::iters::agree(c, "pairs of an unlimited generator", true, &pairs, || g.prods())?;
				vh::iters::agree(c, "nodes of an unlimited generator", true, &nodes, || g.nodes())?;
				c.saw("pairs seen", seen.len() as u64);
				c.saw("unlimited structures", 1);
			}
		}
	}
	Ok(())
}

fn produced<'a, P: SingleModelView, G: SolverGenerator<'a, P, SolverType = Made<P::Node>, ErrorType = ProbeError>>(
	c: &mut Case,
	g: &G,
	model: &'a P,
	tag: u64,
	fails: bool,
	calls: &AtomicU64,
) -> Res {
	let before = calls.load(Ordering::SeqCst);
	let r = g.generate(model);
	ensure!(
		calls.load(Ordering::SeqCst) == before + 1,
		"generate of the wrapped generator was called {} times",
		calls.load(Ordering::SeqCst) - before
	);
	match (r, fails) {
		(Ok(s), false) => {
			ensure!(
				s.tag == tag && s.model == model as *const P as *const u8 as usize,
				"another solver than that of the wrapped generator"
			);
			c.saw("solvers generated", 1);
		}
		(Err(e), true) => {
			ensure!(e == ProbeError(tag), "the failure {:?} instead of {}", e, tag);
			c.saw("failures passed on", 1);
		}
		(Ok(_), true) => fail!("a failure was lost"),
		(Err(e), false) => fail!("failure {:?} although a solver was generated", e),
	}
	Ok(())
}

fn ranges<'a, P: SingleModelView, O: Order, R: Num>(
	c: &mut Case,
	model: &'a P,
	order: O,
) -> Res
where
	P: ModelWith<R>,
	P::Node: Node<RealType = R> + 'static,
{
	let size = match c.rng.below(6) {
		0 | 1 => None,
		2 => Some(c.rng.below(3)),
		_ if c.rng.chance(1, 400) => Some(200 + c.rng.below(100)),
		_ => Some(c.rng.below(25)),
	};
	let (tag, fails) = (c.rng.u64() >> 3, c.rng.chance(1, 3));
	let calls = Arc::new(AtomicU64::new(0));
	let mk = || Script { size, order: order.clone(), tag, fails, calls: calls.clone() };
	c.desc = format!("{} size {:?} tag {} fails {}", R::NAME, size, tag, fails);
	let g = UnstructuredSolverGenerator::<P>::into_structured(Default_(mk()));
	structure::<P, _>(c, &g, size)?;
	produced(c, &g, model, tag, fails, &calls)?;
	let full = (R::MIN, R::MAX);
	let direct = SolverGenerator::<P>::value_range(&Default_(mk()));
	ensure!(direct == full, "default value range {:?} of {}", direct, R::NAME);
	let adapted = g.value_range();
	ensure!(adapted == full, "default value range {:?} of an adapted {}", adapted, R::NAME);
	let range = (
		R::from_i32(-(c.rng.below(100) as i32)),
		R::from_i32(c.rng.below(100) as i32),
	);
	let g = UnstructuredSolverGenerator::<P>::into_structured(Ranged(mk(), range));
	structure::<P, _>(c, &g, size)?;
	produced(c, &g, model, tag, fails, &calls)?;
	let got = g.value_range();
	ensure!(got == range, "value range {:?} instead of {:?}", got, range);
	c.saw("value ranges compared", 3);
	c.nontrivial(&c.desc.clone());
	Ok(())
}

trait ModelWith<R>: SingleModelView {}
impl<R: Num, M: SingleModelView> ModelWith<R> for M where M::Node: Node<RealType = R> {}

/// the built-in annealer, adapted and not
fn builtin<R: Num>(c: &mut Case) -> Res {
	let n = c.rng.below(9);
	let p = Prob::random::<R>(&mut c.rng, n, 3, 1);
	let m = p.dense::<R>();
	let mk = |k: usize, s: usize| {
		let mut g = SimulatedAnnealerGenerator::new();
		g.beta = BetaType::Count(k);
		g.sweeps_per_round = s;
		g
	};
	let (k, s) = (1 + c.rng.below(8), 1 + c.rng.below(4));
	let g = mk(k, s);
	let h = mk(k, s).into_structured();
	let full = (R::MIN, R::MAX);
	let (a, b) = (g.value_range(), h.value_range());
	ensure!(a == full && b == full, "value range {:?}, adapted {:?}", a, b);
	c.saw("value ranges compared", 2);
	structure(c, &h, UnstructuredSolverGenerator::size(&g))?;
	let mut r = Prng::new(c.rng.u64(), 1, 2);
	let mut q = r.clone();
	let x = g.generate(&m).map_err(|e| e.to_string())?.solve_with_rng(&mut r);
	let y = h.generate(&m).map_err(|e| e.to_string())?.solve_with_rng(&mut q);
	match (x, y) {
		(Ok(x), Ok(y)) => {
			let x: Vec<Vec<bool>> = x.iter().map(|s| s.state.to_vec()).collect();
			let y: Vec<Vec<bool>> = y.iter().map(|s| s.state.to_vec()).collect();
			ensure!(x == y, "samples {:?}, adapted {:?} of {:?}", x, y, p);
		}
		_ => fail!("the annealer failed"),
	}
	c.saw("annealers compared", 1);
	Ok(())
}

fn typed<R: Num>(c: &mut Case) -> Res {
	match c.rng.below(5) {
		0 => ranges::<_, _, R>(c, &FixedSingleQuadricModel::new(Binary::<R>::new(), 3), Quadric),
		1 => ranges::<_, _, R>(c, &FixedSingleQuadricModel::new(Spin::<R>::new(), 0), Quadric),
		2 => ranges::<_, _, R>(c, &SingleModel::new(Spin::<R>::new(), Quadric), Quadric),
		3 => ranges::<_, _, R>(
			c,
			&SingleModel::new(Binary::<R>::new(), HighOrder::new(2)),
			HighOrder::new(2),
		),
		_ => builtin::<R>(c),
	}
}

fn case(c: &mut Case) -> Res {
	match c.rng.below(7) {
		0 => typed::<i8>(c),
		1 => typed::<i16>(c),
		2 => typed::<i32>(c),
		3 => typed::<i64>(c),
		4 => typed::<i128>(c),
		5 => typed::<f32>(c),
		_ => typed::<f64>(c),
	}
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C17",
			quick: 24_000,
			thorough: 2_400_000,
			rule: "scripted generators of limited size 0 to 24 (some up to 300) and of unlimited size, with and without an own value range, succeeding and failing, over dense and sparse, binary and spin models of all numeric types, and the built-in annealer, seen directly and through the adapter; non-trivial: scripted, distinct by type, size and script",
			workers: 0,
			need: &[
				"pairs seen",
				"limited structures",
				"unlimited structures",
				"rows beyond the 256th",
				"solvers generated",
				"failures passed on",
				"value ranges compared",
				"annealers compared",
			],
		},
		case,
	)
}
