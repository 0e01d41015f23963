//! Every way of walking an iterator visits the same items
use crate::ensure;
use crate::run::*;
use std::fmt::Debug;

/// `make` makes fresh iterators over `want`; if `open`, `want` is only what they start with.
pub fn agree<T, I, F>(c: &mut Case, what: &str, open: bool, want: &[T], mut make: F) -> Res
where
	T: PartialEq + Debug + Clone,
	I: Iterator<Item = T>,
	F: FnMut() -> I,
{
	let n = want.len();
	// jumps of random widths, mixed with single steps; sizes are promised correctly on the way
	let mut it = make();
	let mut at = 0;
	let mut trace = String::new();
	let width = *c.rng.pick(&[2usize, 4, 10, 40]);
	loop {
		let (lo, hi) = it.size_hint();
		ensure!(
			(open || lo <= n - at) && hi.map(|h| h >= n - at).unwrap_or(true),
			"{}: {} items remain after{}, size_hint() is {:?}",
			what, n - at, trace, (lo, hi)
		);
		let skip = c.rng.below(width);
		if open && at + skip >= n {
			break;
		}
		let got = if skip == 0 && c.rng.bool() {
			trace.push_str(" next()");
			it.next()
		} else {
			trace.push_str(&format!(" nth({})", skip));
			it.nth(skip)
		};
		let exp = want.get(at + skip).cloned();
		ensure!(got == exp, "{}:{} gives {:?} instead of {:?}", what, trace, got, exp);
		at += skip + 1;
		if exp.is_none() {
			// the end stays the end
			for _ in 0..3 {
				let got = it.next();
				ensure!(got.is_none(), "{}:{} is followed by {:?}", what, trace, got);
			}
			break;
		}
	}
	// the adaptors
	let k = c.rng.below(n + 2);
	let step = 1 + c.rng.below(9);
	let rest = n - k.min(n);
	let got: Vec<T> = make().skip(k).take(if open { rest } else { rest + 3 }).collect();
	ensure!(got == want[k.min(n)..], "{}: skip({}) gives {:?} instead of {:?}", what, k, got, &want[k.min(n)..]);
	let exp: Vec<T> = want.iter().step_by(step).cloned().collect();
	let extra = if open { 0 } else { 3 };
	let got: Vec<T> = make().step_by(step).take(exp.len() + extra).collect();
	ensure!(got == exp, "{}: step_by({}) gives {:?} instead of {:?}", what, step, got, exp);
	let mut it = make();
	let head: Vec<T> = it.by_ref().take(k.min(n)).collect();
	ensure!(head == want[..k.min(n)], "{}: take({}) gives {:?}", what, k, head);
	if !open {
		let mut tail = Vec::new();
		it.for_each(|t| tail.push(t));
		ensure!(tail == want[k.min(n)..], "{}: for_each after {} items gives {:?}", what, k.min(n), tail);
		let count = make().count();
		ensure!(count == n, "{}: count() is {} instead of {}", what, count, n);
		let last = make().last();
		ensure!(last.as_ref() == want.last(), "{}: last() is {:?}", what, last);
		let folded = make().fold(Vec::new(), |mut v, t| {
			v.push(t);
			v
		});
		ensure!(folded == want, "{}: fold() visits {:?}", what, folded);
	}
	if let Some(t) = want.get(k) {
		let first = want.iter().position(|s| s == t);
		let got = make().position(|s| s == *t);
		ensure!(got == first, "{}: position() of {:?} is {:?}", what, t, got);
		let got = make().find(|s| s == t);
		ensure!(got.as_ref() == Some(t), "{}: find() of {:?} gives {:?}", what, t, got);
	}
	c.saw("iterators walked by jumps", 1);
	Ok(())
}
