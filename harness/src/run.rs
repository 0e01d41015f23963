//! Runs the cases of a property, records what was observed and judges it three-valued: exit 0
//! held, exit 1 violated, anything else inconclusive.
use crate::num::{Bad, Discard};
use crate::prng::{hash_str, Prng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Counts allocations per worker slot, so that a computation which does not end is noticed by the
/// steps it makes, not by the clock.
pub struct Counting;
pub const SLOTS: usize = 64;
/// On cache lines of their own
#[repr(align(128))]
struct Padded(AtomicU64);
static ALLOCS: [Padded; SLOTS] = [const { Padded(AtomicU64::new(0)) }; SLOTS];
thread_local! {
	static SLOT: Cell<usize> = const { Cell::new(SLOTS) };
	static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		let _ = SLOT.try_with(|s| {
			if s.get() < SLOTS {
				ALLOCS[s.get()].0.fetch_add(1, Ordering::Relaxed);
			}
		});
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		let _ = SLOT.try_with(|s| {
			if s.get() < SLOTS {
				ALLOCS[s.get()].0.fetch_add(1, Ordering::Relaxed);
			}
		});
		System.realloc(p, l, n)
	}
}

pub struct Env {
	pub prop: &'static str,
	pub seed: u64,
	pub thorough: bool,
}

/// One case: its randomness and what the monitors observed in it.
pub struct Case {
	pub idx: u64,
	pub rng: Prng,
	pub thorough: bool,
	pub counts: BTreeMap<&'static str, u64>,
	pub sig: Option<u64>,
	pub sample: Option<String>,
	pub desc: String,
}

impl Case {
	/// n events of this kind were observed
	pub fn saw(&mut self, what: &'static str, n: u64) {
		*self.counts.entry(what).or_insert(0) += n;
	}
	/// The case is not trivial; cases with the same signature count once.
	pub fn nontrivial(&mut self, sig: &str) {
		self.sig = Some(hash_str(sig));
	}
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! fail {
	($($a:tt)*) => { return Err(format!($($a)*)) };
}
#[macro_export]
macro_rules! ensure {
	($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

struct Total {
	evaluations: u64,
	discarded: u64,
	sigs: HashSet<u64>,
	counts: BTreeMap<&'static str, u64>,
	samples: Vec<String>,
	violations: Vec<(u64, String, String)>,
	errors: Vec<String>,
}

pub fn json_str(s: &str) -> String {
	let mut r = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => r.push_str("\\\""),
			'\\' => r.push_str("\\\\"),
			'\n' => r.push_str("\\n"),
			'\t' => r.push_str("\\t"),
			c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
			c => r.push(c),
		}
	}
	r.push('"');
	r
}

/// Was the panic raised by the harness itself? Then it is an error of the harness.
fn is_harness(file: &str) -> bool {
	file.starts_with("src/") || file.contains("/harness/src/")
}

/// The message of a panic of the code under test; panics of the harness are passed on.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(v) => Ok(v),
		Err(e) => {
			if e.is::<Discard>() || e.is::<Bad>() {
				std::panic::resume_unwind(e);
			}
			let (file, msg) = PANIC
				.with(|p| p.borrow_mut().take())
				.unwrap_or((String::from("?"), String::from("panic in another thread")));
			if is_harness(&file) {
				panic!("harness: {} ({})", msg, file);
			}
			Err(msg)
		}
	}
}

fn quiet_panics() {
	std::panic::set_hook(Box::new(|info| {
		let file = info.location().map(|l| l.file().to_string()).unwrap_or_default();
		let line = info.location().map(|l| l.line()).unwrap_or(0);
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			String::from("panic")
		};
		let msg = format!("{} at {}:{}", msg, file, line);
		// these end the process
		let fatal = msg.contains("unsafe precondition") || msg.contains("cannot unwind");
		if fatal || std::env::var_os("VP_VERBOSE").is_some() {
			eprintln!("panic: {}", msg);
		}
		PANIC.with(|p| *p.borrow_mut() = Some((file, msg)));
	}));
}

/// Allocations of the largest case
static MOST: AtomicU64 = AtomicU64::new(0);
static STOP: AtomicBool = AtomicBool::new(false);

pub struct Plan {
	pub prop: &'static str,
	pub quick: u64,
	pub thorough: u64,
	/// how cases are made, and what makes one non-trivial
	pub rule: &'static str,
	/// worker threads (each with a rayon pool of its own with one thread), 0: all cores
	pub workers: usize,
	/// minimum number of observed events, else the run is inconclusive
	pub need: &'static [&'static str],
}

fn env_u64(k: &str) -> Option<u64> {
	std::env::var(k).ok().and_then(|s| s.trim().parse().ok())
}

/// Run f in a rayon pool of this many threads.
pub fn in_pool<T: Send>(threads: usize, f: impl FnOnce() -> T + Send) -> T {
	static POOLS: Mutex<BTreeMap<usize, std::sync::Arc<rayon::ThreadPool>>> = Mutex::new(BTreeMap::new());
	let pool = POOLS
		.lock()
		.unwrap()
		.entry(threads)
		.or_insert_with(|| {
			std::sync::Arc::new(
				rayon::ThreadPoolBuilder::new()
					.num_threads(threads)
					.stack_size(64 << 20)
					.build()
					.expect("thread pool"),
			)
		})
		.clone();
	pool.install(f)
}

pub fn main(plan: Plan, case: impl Fn(&mut Case) -> Res + Sync) -> ! {
	let start = Instant::now();
	let seed = env_u64("VERIF_SEED").unwrap_or(1);
	let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
	let only = env_u64("VP_CASE");
	let mut n = if thorough { plan.thorough } else { plan.quick };
	if let Some(m) = env_u64("VP_CASES") {
		n = m;
	}
	// The wall clock only ends the exploration, it never decides.
	let limit = Duration::from_secs(env_u64("VP_SECONDS").unwrap_or(if thorough { 600 } else { 60 }));
	let report = std::env::var("VP_REPORT").ok();
	let progress = std::env::var("VP_PROGRESS").ok();
	quiet_panics();
	let total = Mutex::new(Total {
		evaluations: 0,
		discarded: 0,
		sigs: HashSet::new(),
		counts: BTreeMap::new(),
		samples: Vec::new(),
		violations: Vec::new(),
		errors: Vec::new(),
	});
	let next = AtomicUsize::new(0);
	let workers = if only.is_some() {
		1
	} else if plan.workers == 0 {
		std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
	} else {
		plan.workers
	};
	// what each worker is doing: case + 1, for the watchdog and for the analysis of crashes
	let current: Vec<AtomicU64> = (0..workers).map(|_| AtomicU64::new(0)).collect();
	let file = progress.as_ref().map(|p| std::fs::File::create(p).expect("create the progress file"));
	let working = |w: usize, v: u64| {
		current[w].store(v, Ordering::SeqCst);
		if let Some(f) = &file {
			use std::os::unix::fs::FileExt;
			let _ = f.write_all_at(format!("{:019}\n", v).as_bytes(), 20 * w as u64);
		}
	};
	let done = AtomicUsize::new(0);
	let stream = hash_str(plan.prop);
	let fuel = env_u64("VP_FUEL").unwrap_or(match plan.prop {
		// the built-in annealer allocates a lot
		"C11" | "C12" | "C21" | "C22" | "C23" | "C24" => 1 << 40,
		_ => 500_000_000,
	});
	let run_one = |idx: u64| {
		let mut c = Case {
			idx,
			rng: Prng::new(seed, stream, idx),
			thorough,
			counts: BTreeMap::new(),
			sig: None,
			sample: None,
			desc: String::new(),
		};
		PANIC.with(|p| *p.borrow_mut() = None);
		let r = catch_unwind(AssertUnwindSafe(|| case(&mut c)));
		let mut t = total.lock().unwrap();
		match r {
			Ok(Ok(())) => {
				t.evaluations += 1;
				for (k, v) in &c.counts {
					*t.counts.entry(k).or_insert(0) += v;
				}
				if let Some(s) = c.sig {
					if t.sigs.insert(s) && t.samples.len() < 4 {
						let s = c.sample.clone().unwrap_or_else(|| c.desc.clone());
						t.samples.push(format!("case {}: {}", idx, s));
					}
				}
			}
			Ok(Err(msg)) => t.violations.push((idx, msg, c.desc.clone())),
			Err(e) if e.is::<Discard>() => t.discarded += 1,
			Err(e) if e.is::<Bad>() => {
				let m = e.downcast_ref::<Bad>().unwrap().0.clone();
				t.violations.push((idx, m, c.desc.clone()))
			}
			Err(_) => {
				let (file, msg) = PANIC
					.with(|p| p.borrow_mut().take())
					.unwrap_or((String::new(), String::from("panic")));
				if is_harness(&file) {
					t.errors.push(format!("case {}: {} [{}]", idx, msg, c.desc));
				} else {
					t.violations.push((
						idx,
						format!("panic on a valid input: {}", msg),
						c.desc.clone(),
					));
				}
			}
		}
		if t.violations.len() + t.errors.len() >= 3 {
			STOP.store(true, Ordering::SeqCst);
		}
	};
	let nonterm: Mutex<Option<u64>> = Mutex::new(None);
	// one case after the other, without any thread of the harness: for interpreters
	if cfg!(miri) || std::env::var_os("VP_INLINE").is_some() {
		let (from, step) = (env_u64("VP_SHARD").unwrap_or(0), env_u64("VP_SHARDS").unwrap_or(1));
		let mut i = only.unwrap_or(from);
		while i < n || only.is_some() {
			if STOP.load(Ordering::SeqCst) || start.elapsed() > limit {
				break;
			}
			if let Some(p) = &progress {
				let _ = std::fs::write(p, (i + 1).to_string());
			}
			run_one(i);
			i += step;
			if only.is_some() {
				break;
			}
		}
		if let Some(p) = &progress {
			let _ = std::fs::write(p, "0");
		}
		let t = total.lock().unwrap();
		finish(&plan, &t, seed, thorough, start, &report)
	}
	std::thread::scope(|s| {
		for w in 0..workers {
			let (working, next, done, run_one) = (&working, &next, &done, &run_one);
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn_scoped(s, move || {
					SLOT.with(|s| s.set(w));
					let pool = rayon::ThreadPoolBuilder::new()
						.num_threads(1)
						.stack_size(64 << 20)
						.start_handler(move |_| SLOT.with(|s| s.set(w)))
						.build()
						.expect("thread pool");
					pool.install(|| loop {
						if STOP.load(Ordering::SeqCst) || start.elapsed() > limit {
							break;
						}
						let i = match only {
							Some(i) => {
								if next.fetch_add(1, Ordering::SeqCst) > 0 {
									break;
								}
								i
							}
							None => next.fetch_add(1, Ordering::SeqCst) as u64,
						};
						if only.is_none() && i >= n {
							break;
						}
						ALLOCS[w].0.store(0, Ordering::Relaxed);
						working(w, i + 1);
						run_one(i);
						MOST.fetch_max(ALLOCS[w].0.load(Ordering::Relaxed), Ordering::Relaxed);
						working(w, 0);
					});
					done.fetch_add(1, Ordering::SeqCst);
				})
				.expect("thread");
		}
		// Watchdog: counts steps (allocations) of the case under way.
		loop {
			std::thread::sleep(Duration::from_millis(20));
			let now: Vec<u64> = current.iter().map(|c| c.load(Ordering::SeqCst)).collect();
			if done.load(Ordering::SeqCst) == workers {
				break;
			}
			for w in 0..workers {
				if now[w] > 0 && ALLOCS[w].0.load(Ordering::Relaxed) > fuel {
					*nonterm.lock().unwrap() = Some(now[w] - 1);
				}
			}
			if nonterm.lock().unwrap().is_some() {
				break;
			}
			if start.elapsed() > limit + Duration::from_secs(120) {
				println!("INCONCLUSIVE the watchdog ended the run, cases under way: {:?}", now);
				std::process::exit(3);
			}
		}
		if let Some(idx) = *nonterm.lock().unwrap() {
			// The thread cannot be ended: report and leave.
			let mut t = total.lock().unwrap();
			t.violations.push((
				idx,
				format!("no result after {} allocations: it does not terminate", fuel),
				String::new(),
			));
			finish(&plan, &t, seed, thorough, start, &report);
		}
	});
	let t = total.into_inner().unwrap();
	finish(&plan, &t, seed, thorough, start, &report)
}

fn finish(
	plan: &Plan,
	t: &Total,
	seed: u64,
	thorough: bool,
	start: Instant,
	report: &Option<String>,
) -> ! {
	let list = |v: &[String]| {
		v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
	};
	let wall = start.elapsed().as_secs_f64();
	let mut missing: Vec<&str> = Vec::new();
	if std::env::var_os("VP_CASE").is_none() && std::env::var_os("VP_CASES").is_none() {
		for k in plan.need {
			if t.counts.get(k).copied().unwrap_or(0) == 0 {
				missing.push(k);
			}
		}
		if t.sigs.len() < 2 {
			missing.push("distinct non-trivial cases");
		}
	}
	let counts: Vec<String> = t
		.counts
		.iter()
		.map(|(k, v)| format!("{}: {}", json_str(k), v))
		.collect();
	let viol: Vec<String> = t
		.violations
		.iter()
		.map(|(i, m, d)| {
			format!(
				"{{\"case\": {}, \"what\": {}, \"input\": {}}}",
				i,
				json_str(m),
				json_str(d)
			)
		})
		.collect();
	let js = format!(
		"{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"evaluations\": {}, \"discarded\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"events\": {{{}}}, \"samples\": [{}], \"violations\": [{}], \"errors\": [{}], \"missing\": [{}], \"allocations\": {}, \"wall_s\": {:.3}}}\n",
		plan.prop,
		if thorough { "thorough" } else { "quick" },
		seed,
		t.evaluations,
		t.discarded,
		t.sigs.len(),
		json_str(plan.rule),
		counts.join(", "),
		list(&t.samples),
		viol.join(", "),
		list(&t.errors),
		missing.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
		MOST.load(Ordering::Relaxed),
		wall
	);
	match report {
		Some(p) => std::fs::write(p, &js).expect("write the report"),
		None => print!("{}", js),
	}
	for (i, m, d) in &t.violations {
		println!("violated in case {}: {}\n  input: {}", i, m, d);
	}
	for e in &t.errors {
		println!("harness error: {}", e);
	}
	std::process::exit(if !t.violations.is_empty() {
		1
	} else if !t.errors.is_empty() || !missing.is_empty() || t.evaluations == 0 {
		2
	} else {
		0
	})
}
