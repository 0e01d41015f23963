//! Exact numbers of the reference model, and the numeric types under test.
use annealers::variable::Real;
use std::cmp::Ordering;
use std::fmt;

/// A case which the reference model cannot represent: it is discarded, not judged.
pub struct Discard(pub &'static str);

pub fn discard(why: &'static str) -> ! {
	std::panic::panic_any(Discard(why))
}

/// The code under test produced something which no correct code may.
pub struct Bad(pub String);

pub fn bad(what: String) -> ! {
	std::panic::panic_any(Bad(what))
}

/// m / 2^e, exact.
#[derive(Clone, Copy, Debug)]
pub struct Q {
	pub m: i128,
	pub e: u32,
}

impl Q {
	pub const ZERO: Q = Q { m: 0, e: 0 };
	pub const ONE: Q = Q { m: 1, e: 0 };
	pub fn int(m: i128) -> Q {
		Q { m, e: 0 }
	}
	pub fn new(m: i128, e: u32) -> Q {
		Q { m, e }.norm()
	}
	fn norm(mut self) -> Q {
		if self.m == 0 {
			return Q::ZERO;
		}
		let z = self.m.trailing_zeros().min(self.e);
		self.m >>= z;
		self.e -= z;
		self
	}
	fn scale(self, e: u32) -> i128 {
		let d = e - self.e;
		if d > 120 || self.m.unsigned_abs().leading_zeros() <= d + 1 {
			discard("exact number too large");
		}
		self.m << d
	}
	pub fn f64(self) -> f64 {
		self.m as f64 / (self.e as f64).exp2()
	}
	pub fn abs(self) -> Q {
		Q { m: self.m.abs(), e: self.e }
	}
	pub fn from_f64(f: f64) -> Q {
		if !f.is_finite() {
			bad(format!("{} where a finite number is expected", f));
		}
		let mut e = 0;
		let mut g = f;
		while g.fract() != 0.0 {
			g *= 2.0;
			e += 1;
		}
		if g.abs() > 1.0e36 {
			discard("float too large for exact arithmetic");
		}
		Q { m: g as i128, e }.norm()
	}
	pub fn is_zero(self) -> bool {
		self.m == 0
	}
}

impl std::ops::Add for Q {
	type Output = Q;
	fn add(self, o: Q) -> Q {
		let e = self.e.max(o.e);
		match self.scale(e).checked_add(o.scale(e)) {
			Some(m) => Q { m, e }.norm(),
			None => discard("exact sum too large"),
		}
	}
}
impl std::ops::Neg for Q {
	type Output = Q;
	fn neg(self) -> Q {
		Q { m: -self.m, e: self.e }
	}
}
impl std::ops::Sub for Q {
	type Output = Q;
	fn sub(self, o: Q) -> Q {
		self + (-o)
	}
}
impl std::ops::Mul for Q {
	type Output = Q;
	fn mul(self, o: Q) -> Q {
		match self.m.checked_mul(o.m) {
			Some(m) => Q { m, e: self.e + o.e }.norm(),
			None => discard("exact product too large"),
		}
	}
}
impl PartialEq for Q {
	fn eq(&self, o: &Q) -> bool {
		let (a, b) = (self.norm(), o.norm());
		a.m == b.m && a.e == b.e
	}
}
impl Eq for Q {}
impl PartialOrd for Q {
	fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for Q {
	fn cmp(&self, o: &Q) -> Ordering {
		let e = self.e.max(o.e);
		self.scale(e).cmp(&o.scale(e))
	}
}
impl std::hash::Hash for Q {
	fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
		let n = self.norm();
		(n.m, n.e).hash(h)
	}
}
impl fmt::Display for Q {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		if self.e == 0 {
			write!(f, "{}", self.m)
		} else {
			write!(f, "{}", self.f64())
		}
	}
}

pub trait Num: Real {
	const NAME: &'static str;
	const INT: bool;
	/// magnitudes below 2^BITS (with all fractional bits) are exact
	const BITS: u32;
	fn q(self) -> Q;
	/// None if the value cannot be represented exactly
	fn from_q(q: Q) -> Option<Self>;
	fn of(q: Q) -> Self {
		match Self::from_q(q) {
			Some(v) => v,
			None => discard("number not representable in the numeric type"),
		}
	}
}

macro_rules! int_num {
	($t:ty, $bits:expr) => {
		impl Num for $t {
			const NAME: &'static str = stringify!($t);
			const INT: bool = true;
			const BITS: u32 = $bits;
			fn q(self) -> Q {
				Q::int(self as i128)
			}
			fn from_q(q: Q) -> Option<Self> {
				if q.e != 0 {
					return None;
				}
				<$t as std::convert::TryFrom<i128>>::try_from(q.m).ok()
			}
		}
	};
}
int_num!(i8, 7);
int_num!(i16, 15);
int_num!(i32, 31);
int_num!(i64, 63);
int_num!(i128, 126);
macro_rules! float_num {
	($t:ty, $bits:expr) => {
		impl Num for $t {
			const NAME: &'static str = stringify!($t);
			const INT: bool = false;
			const BITS: u32 = $bits;
			fn q(self) -> Q {
				Q::from_f64(self as f64)
			}
			fn from_q(q: Q) -> Option<Self> {
				let f = q.f64() as $t;
				if f.is_finite() && Q::from_f64(f as f64) == q {
					Some(f)
				} else {
					None
				}
			}
		}
	};
}
float_num!(f32, 24);
float_num!(f64, 53);

/// Label types of variables, constraints and placeholders.
pub trait Lab:
	Clone + Eq + Ord + std::hash::Hash + fmt::Debug + Send + Sync + 'static
{
	const NAME: &'static str;
	fn mk(i: usize) -> Self;
}
impl Lab for () {
	const NAME: &'static str = "()";
	fn mk(_: usize) -> Self {}
}
impl Lab for u32 {
	const NAME: &'static str = "u32";
	fn mk(i: usize) -> Self {
		// not in the order of i
		(i as u32).wrapping_mul(2654435761) >> 7
	}
}
impl Lab for u8 {
	const NAME: &'static str = "u8";
	fn mk(i: usize) -> Self {
		255 - i as u8
	}
}
impl Lab for String {
	const NAME: &'static str = "String";
	fn mk(i: usize) -> Self {
		format!("v{}", i)
	}
}
const NAMES: [&str; 16] = [
	"x", "y", "z", "a", "b", "c", "", "long name", "x0", "x1", "X", "é", "0", "-", "w", "q",
];
impl Lab for &'static str {
	const NAME: &'static str = "str";
	fn mk(i: usize) -> Self {
		if i < NAMES.len() {
			NAMES[i]
		} else {
			Box::leak(format!("n{}", i).into_boxed_str())
		}
	}
}
impl Lab for (usize, i8) {
	const NAME: &'static str = "(usize,i8)";
	fn mk(i: usize) -> Self {
		(i / 3, (i % 3) as i8 - 1)
	}
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Mixed {
	A(usize),
	B { k: usize },
	C,
}
impl Lab for Mixed {
	const NAME: &'static str = "enum";
	fn mk(i: usize) -> Self {
		match i {
			0 => Mixed::C,
			i if i % 2 == 1 => Mixed::A(i / 2),
			i => Mixed::B { k: i / 2 },
		}
	}
}
impl Lab for char {
	const NAME: &'static str = "char";
	fn mk(i: usize) -> Self {
		char::from_u32(0x3b1 + i as u32).unwrap()
	}
}
/// Labels that are told apart by their comparison only: all look the same, have the same hash, and
/// equal ones differ in a part that does not count.
#[derive(Clone)]
pub struct Odd(usize, usize);
impl PartialEq for Odd {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl Eq for Odd {}
impl PartialOrd for Odd {
	fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for Odd {
	fn cmp(&self, o: &Self) -> std::cmp::Ordering {
		o.0.cmp(&self.0)
	}
}
impl std::hash::Hash for Odd {
	fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
		h.write_u8(7)
	}
}
impl fmt::Debug for Odd {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		f.write_str("Odd")
	}
}
impl Lab for Odd {
	const NAME: &'static str = "odd";
	fn mk(i: usize) -> Self {
		static MADE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
		Odd(i, MADE.fetch_add(1, std::sync::atomic::Ordering::Relaxed))
	}
}
