//! The only source of randomness of the workloads: a function of (VERIF_SEED, property, case).

#[derive(Clone, Debug)]
pub struct Prng {
	s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
	s.bytes()
		.fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x0100_0000_01b3))
}

impl Prng {
	pub fn new(seed: u64, stream: u64, case: u64) -> Self {
		let mut z = mix(seed) ^ mix(stream).rotate_left(17) ^ mix(case).rotate_left(41);
		let mut s = [0; 4];
		for v in s.iter_mut() {
			z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
			*v = mix(z);
		}
		Self { s }
	}
	pub fn u64(&mut self) -> u64 {
		let s = &mut self.s;
		let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = s[1] << 17;
		s[2] ^= s[0];
		s[3] ^= s[1];
		s[1] ^= s[2];
		s[0] ^= s[3];
		s[2] ^= t;
		s[3] = s[3].rotate_left(45);
		r
	}
	/// 0 <= result < n
	pub fn below(&mut self, n: usize) -> usize {
		assert!(n > 0);
		((self.u64() >> 11) as u128 * n as u128 >> 53) as usize
	}
	/// a <= result <= b
	pub fn range(&mut self, a: i64, b: i64) -> i64 {
		a + self.below((b - a + 1) as usize) as i64
	}
	pub fn bool(&mut self) -> bool {
		self.u64() >> 63 == 1
	}
	/// true with probability num / den
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}
	pub fn f64(&mut self) -> f64 {
		(self.u64() >> 11) as f64 / (1u64 << 53) as f64
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.below(v.len())]
	}
	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		for i in (1..v.len()).rev() {
			v.swap(i, self.below(i + 1));
		}
	}
	pub fn bits(&mut self, n: usize) -> Vec<bool> {
		(0..n).map(|_| self.bool()).collect()
	}
}
