//! C18: numeric types convert and compare as numbers
use annealers::variable::*;
use std::any::Any;
use std::convert::TryFrom;
use vh::prng::Prng;
use vh::run::*;
use vh::ensure;

/// The mathematical value of a finite number: integers below 2^127 are Int.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Val {
	Int(i128),
	Float(f64),
}

fn float_val(f: f64) -> Val {
	if f.fract() == 0.0 && f.abs() < 1.7e38 {
		Val::Int(f as i128)
	} else {
		Val::Float(f)
	}
}

trait Ty: Real + Any {
	const NAME: &'static str;
	const RANK: usize;
	const LOW: Self;
	const HIGH: Self;
	const INT: bool;
	fn val(self) -> Val;
	/// None if the value cannot be represented
	fn exact(v: Val) -> Option<Self>;
	fn pick(r: &mut Prng) -> Self;
}

fn pick_int(r: &mut Prng, bits: u32, low: i128, high: i128) -> i128 {
	let v = match r.below(5) {
		0 => r.range(-3, 3) as i128,
		1 => low + r.below(3) as i128,
		2 => high - r.below(3) as i128,
		3 => {
			// about the powers of two, also those of the narrower types
			let p = 1i128 << r.below(bits as usize - 1);
			let p = p + r.range(-2, 2) as i128;
			if r.bool() {
				p
			} else {
				-p
			}
		}
		_ => {
			let v = ((r.u64() as i128) << 64 | r.u64() as i128) >> r.below(bits as usize).saturating_add(128 - bits as usize);
			if r.bool() {
				v
			} else {
				v.checked_neg().unwrap_or(v)
			}
		}
	};
	Ord::min(Ord::max(v, low), high)
}

macro_rules! int_ty {
	($t:ty, $rank:expr) => {
		impl Ty for $t {
			const NAME: &'static str = stringify!($t);
			const RANK: usize = $rank;
			const LOW: $t = <$t>::MIN;
			const HIGH: $t = <$t>::MAX;
			const INT: bool = true;
			fn val(self) -> Val {
				Val::Int(self as i128)
			}
			fn exact(v: Val) -> Option<$t> {
				match v {
					Val::Int(i) => <$t>::try_from(i).ok(),
					_ => None,
				}
			}
			fn pick(r: &mut Prng) -> $t {
				let b = 8 * std::mem::size_of::<$t>() as u32;
				pick_int(r, b, <$t>::MIN as i128, <$t>::MAX as i128) as $t
			}
		}
	};
}
int_ty!(i8, 0);
int_ty!(i16, 1);
int_ty!(i32, 2);
int_ty!(i64, 3);
int_ty!(i128, 4);

macro_rules! float_ty {
	($t:ident, $rank:expr, $exp:expr, $mant:expr) => {
		impl Ty for $t {
			const NAME: &'static str = stringify!($t);
			const RANK: usize = $rank;
			const LOW: $t = <$t>::MIN;
			const HIGH: $t = <$t>::MAX;
			const INT: bool = false;
			fn val(self) -> Val {
				float_val(self as f64)
			}
			fn exact(v: Val) -> Option<$t> {
				match v {
					Val::Int(i) => {
						let f = i as $t;
						if float_val(f as f64) == v {
							Some(f)
						} else {
							None
						}
					}
					Val::Float(g) => {
						let f = g as $t;
						if f as f64 == g {
							Some(f)
						} else {
							None
						}
					}
				}
			}
			fn pick(r: &mut Prng) -> $t {
				let v = match r.below(8) {
					0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 1.5]),
					1 => *r.pick(&[
						<$t>::MAX,
						<$t>::MIN,
						<$t>::EPSILON,
						<$t>::MIN_POSITIVE,
						<$t>::MIN_POSITIVE / 4.0,
					]),
					2 | 3 => pick_int(r, 9 + r.clone().below(119) as u32, i128::MIN, i128::MAX) as $t,
					4 => (r.range(-4096, 4096) as $t) / 64.0,
					5 => (r.f64() - 0.5) as $t,
					// like an f32
					6 => ((r.f64() - 0.5) as f32 * 1.0e6) as $t,
					_ => {
						let m = (r.f64() + 0.5) as $t;
						let e = r.range(-$exp, $exp) as i32;
						m * (2.0 as $t).powi(e)
					}
				};
				if v.is_finite() {
					if r.bool() {
						v
					} else {
						-v
					}
				} else {
					1.0
				}
			}
		}
	};
}
float_ty!(f32, 5, 120, 24);
float_ty!(f64, 6, 900, 53);

fn one<A: Ty>(c: &mut Case) -> Res {
	let (x, y) = (A::pick(&mut c.rng), A::pick(&mut c.rng));
	c.desc = format!("{} {} {}", A::NAME, x, y);
	let n = A::NAME;
	ensure!(A::MIN == A::LOW && A::MAX == A::HIGH, "{}: limits {} and {}", n, A::MIN, A::MAX);
	ensure!(A::zero().val() == Val::Int(0), "{}: zero is {}", n, A::zero());
	ensure!(A::one().val() == Val::Int(1), "{}: one is {}", n, A::one());
	ensure!(A::default() == A::zero(), "{}: default is {}", n, A::default());
	ensure!(Real::is_finite(x), "{}: {} is not finite", n, x);
	// minima and maxima
	let (mn, mx) = (Real::min(x, y), Real::max(x, y));
	let (lo, hi) = if x < y { (x, y) } else { (y, x) };
	ensure!(mn == lo, "{}: min({}, {}) is {}", n, x, y, mn);
	ensure!(mx == hi, "{}: max({}, {}) is {}", n, x, y, mx);
	let (top, bottom) = (A::nan_or(A::MAX), A::nan_or(A::MIN));
	ensure!(
		Real::min(top, x) == x && Real::min(x, top) == x,
		"{}: the neutral value {} wins a minimum against {}",
		n, top, x
	);
	ensure!(
		Real::max(bottom, x) == x && Real::max(x, bottom) == x,
		"{}: the neutral value {} wins a maximum against {}",
		n, bottom, x
	);
	if A::INT {
		let v = A::nan_or(y);
		ensure!(v == y, "{}: nan_or({}) is {}", n, y, v);
	} else {
		// whatever is offered in place of it
		let v = A::nan_or(y);
		ensure!(
			Real::min(v, x) == x && Real::min(x, v) == x && Real::max(v, x) == x && Real::max(x, v) == x,
			"{}: the neutral value nan_or({}) wins against {}: {}, {}, {}, {}",
			n, y, x, Real::min(v, x), Real::min(x, v), Real::max(v, x), Real::max(x, v)
		);
		ensure!(!Real::is_finite(v), "{}: nan_or({}) is finite", n, y);
		let big = A::HIGH + A::HIGH;
		ensure!(!Real::is_finite(big) && !Real::is_finite(-big), "{}: infinity is finite", n);
		ensure!(Real::abs(-big) == big, "{}: abs of infinity is {}", n, Real::abs(-big));
		c.saw("neutral values compared", 1);
	}
	// absolute value
	if x != A::LOW || !A::INT {
		let a = Real::abs(x);
		let want = if x < A::zero() { -x } else { x };
		ensure!(a == want && !(a < A::zero()), "{}: abs({}) is {}", n, x, a);
	}
	// f64 and i32
	let f = x.as_f64();
	match <f64 as Ty>::exact(x.val()) {
		Some(w) => ensure!(f == w, "{}: as_f64({}) is {:e}", n, x, f),
		None => {
			let w = match x.val() {
				Val::Int(i) => i as f64,
				Val::Float(g) => g,
			};
			ensure!(
				((f - w) / w).abs() <= 1.0 / (1u64 << 52) as f64,
				"{}: as_f64({}) is {:e}",
				n, x, f
			);
		}
	}
	if let Some(g) = <f64 as Ty>::exact(x.val()) {
		let b = A::from_f64(g);
		ensure!(b == x, "{}: from_f64({:e}) is {}", n, g, b);
	}
	let g = <f64 as Ty>::pick(&mut c.rng);
	if let Some(w) = A::exact(g.val()) {
		let b = A::from_f64(g);
		ensure!(b == w, "{}: from_f64({:e}) is {}", n, g, b);
	}
	let i = <i32 as Ty>::pick(&mut c.rng);
	if let Some(w) = A::exact(i.val()) {
		let b = A::from_i32(i);
		ensure!(b == w, "{}: from_i32({}) is {}", n, i, b);
		c.saw("i32 converted", 1);
	}
	c.saw("pairs compared", 1);
	Ok(())
}

fn neutral(c: &mut Case) -> Res {
	macro_rules! fl {
		($t:ident) => {{
			let x = <$t as Ty>::pick(&mut c.rng);
			for v in [<$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN] {
				ensure!(!Real::is_finite(v), "{} {} is finite", stringify!($t), v);
			}
			ensure!(
				Real::min(<$t>::INFINITY, x) == x
					&& Real::max(<$t>::NEG_INFINITY, x) == x
					&& Real::min(x, <$t>::NEG_INFINITY) == <$t>::NEG_INFINITY
					&& Real::max(x, <$t>::INFINITY) == <$t>::INFINITY,
				"{}: minima and maxima of {} with infinities",
				stringify!($t),
				x
			);
			ensure!(
				Real::abs(<$t>::NEG_INFINITY) == <$t>::INFINITY,
				"{}: abs(-inf)",
				stringify!($t)
			);
		}};
	}
	fl!(f32);
	fl!(f64);
	c.saw("special values compared", 2);
	Ok(())
}

fn force<A: Ty + ConvertForce<B>, B: Ty>(c: &mut Case) -> Res {
	let x = A::pick(&mut c.rng);
	let r: B = x.convert_force();
	if let Some(w) = B::exact(x.val()) {
		ensure!(r == w, "{} {} is converted by force to {} {}", A::NAME, x, B::NAME, r);
		c.saw("conversions by force", 1);
	}
	Ok(())
}

fn widen<A: Ty + ConvertTo<B>, B: Ty + ConvertFrom<A>>(c: &mut Case) -> Res {
	let x = A::pick(&mut c.rng);
	let (r, s): (B, B) = (B::convert_from(x), x.convert_to());
	if let Some(w) = B::exact(x.val()) {
		ensure!(r == w && s == w, "{} {} is converted to {} {} and {}", A::NAME, x, B::NAME, r, s);
		c.saw("widening conversions", 1);
	} else {
		// the only inexact ones
		ensure!(A::INT && !B::INT, "{} {} is not representable in {}", A::NAME, x, B::NAME);
	}
	Ok(())
}

fn with<A: Ty + ConvertWith<B>, B: Ty>(c: &mut Case) -> Res {
	let (x, y) = (A::pick(&mut c.rng), B::pick(&mut c.rng));
	let l = <A as ConvertWith<B>>::convert_lhs(x);
	let r = <A as ConvertWith<B>>::convert_rhs(y);
	fn check<W: Ty, A: Ty, B: Ty>(l: &dyn Any, r: &dyn Any, x: A, y: B) -> Res {
		match (l.downcast_ref::<W>(), r.downcast_ref::<W>()) {
			(Some(l), Some(r)) => {
				if let Some(w) = W::exact(x.val()) {
					ensure!(*l == w, "{} {} meets {} as {} {}", A::NAME, x, B::NAME, W::NAME, l);
				}
				if let Some(w) = W::exact(y.val()) {
					ensure!(*r == w, "{} {} meets {} as {} {}", B::NAME, y, A::NAME, W::NAME, r);
				}
				Ok(())
			}
			_ => Err(format!("{} and {} do not meet in {}", A::NAME, B::NAME, W::NAME)),
		}
	}
	if A::RANK < B::RANK {
		check::<B, A, B>(&l, &r, x, y)?;
	} else {
		check::<A, A, B>(&l, &r, x, y)?;
	}
	c.saw("mixed operands", 1);
	Ok(())
}

macro_rules! up {
	($c:expr, $a:ty; $($b:ty),*) => {{
		one::<$a>($c)?;
		force::<$a, $a>($c)?;
		widen::<$a, $a>($c)?;
		with::<$a, $a>($c)?;
		$(
			force::<$a, $b>($c)?;
			force::<$b, $a>($c)?;
			widen::<$a, $b>($c)?;
			with::<$a, $b>($c)?;
			with::<$b, $a>($c)?;
		)*
	}};
}

fn case(c: &mut Case) -> Res {
	let mark = c.rng.clone().u64();
	for _ in 0..4 {
		up!(c, i8; i16, i32, i64, i128, f32, f64);
		up!(c, i16; i32, i64, i128, f32, f64);
		up!(c, i32; i64, i128, f32, f64);
		up!(c, i64; i128, f32, f64);
		up!(c, i128; f32, f64);
		up!(c, f32; f64);
		up!(c, f64;);
		neutral(c)?;
	}
	c.nontrivial(&format!("{}", mark));
	Ok(())
}

fn main() {
	vh::run::main(
		Plan {
			prop: "C18",
			quick: 1_200_000,
			thorough: 120_000_000,
			rule: "values at the limits, around powers of two, of random magnitude, fractions and subnormal numbers, for each type and each pair of the seven numeric types; each case makes four rounds over all pairs; non-trivial: all, distinct by their random values",
			workers: 0,
			need: &[
				"pairs compared",
				"i32 converted",
				"special values compared",
				"conversions by force",
				"widening conversions",
				"mixed operands",
			],
		},
		case,
	)
}
