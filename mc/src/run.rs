//! The explorer: exhaustive, bounded, parallel enumeration of executions of the real code.
use crate::model::{self, MRes};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One execution: a source, parse options, and whatever else the property needs to rebuild it.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
	pub s: String,
	pub pm: u8,
	pub aux: String,
}

pub struct Cx<'a> {
	pub s: &'a str,
	pub c: &'a [char],
	pub pm: u8,
	pub aux: &'a str,
	pub m: &'a MRes,
}

/// Ok: a fingerprint of what was observed; Err: how the property is broken
pub type CaseFn = fn(&Cx) -> Result<u64, String>;

thread_local! {
	static PANIC: RefCell<String> = RefCell::new(String::new());
	static SLOT: RefCell<usize> = RefCell::new(0);
}

pub fn install_hook() {
	std::panic::set_hook(Box::new(|i| {
		let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = i.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"?".into()
		};
		let l = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
		if !PANIC.try_with(|p| *p.borrow_mut() = format!("{}{}", m, l)).is_ok() {
			eprintln!("panic: {}{}", m, l);
		}
	}));
}
pub fn last_panic() -> String {
	PANIC.with(|p| p.borrow().clone())
}

pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

pub fn run_case(f: CaseFn, c: &Case) -> Result<u64, String> {
	let chars: Vec<char> = c.s.chars().collect();
	let m = model::parse(&chars, c.pm);
	guarded(f, &Cx { s: &c.s, c: &chars, pm: c.pm, aux: &c.aux, m: &m })
}

fn guarded(f: CaseFn, cx: &Cx) -> Result<u64, String> {
	match catch_unwind(AssertUnwindSafe(|| f(cx))) {
		Ok(r) => r,
		Err(_) => Err(format!("panicked: {}", last_panic())),
	}
}

struct Slot {
	started: AtomicU64,
	cur: Mutex<Case>,
}

const OUT_BITS: usize = 1 << 27;

pub struct Runner {
	pub id: String,
	pub f: CaseFn,
	pub thorough: bool,
	pub seed: i64,
	t0: Instant,
	threads: usize,
	stop: AtomicBool,
	states: AtomicU64,
	transitions: AtomicU64,
	traces: AtomicU64,
	pruned: AtomicU64,
	outcomes: Vec<AtomicU64>,
	distinct: AtomicU64,
	slots: Arc<Vec<Slot>>,
	found: Mutex<Vec<(Case, String)>>,
	spaces: Mutex<Vec<String>>,
	samples: Mutex<Vec<String>>,
	pub assumptions: Vec<String>,
	trace_dir: Option<String>,
}

/// Token sequences: `prefix + t1..tk + tail`, every k up to `depth`, every tail, every option set.
pub struct Space<'a> {
	pub name: &'a str,
	pub prefixes: &'a [&'a str],
	pub alpha: &'a [&'a str],
	pub tails: &'a [&'a str],
	pub depth: usize,
	pub masks: &'a [u8],
	pub aux: &'a str,
}

struct Local {
	states: u64,
	transitions: u64,
	traces: u64,
	pruned: u64,
}

impl Runner {
	pub fn new(id: &str, f: CaseFn, thorough: bool, seed: i64, trace_dir: Option<String>) -> Runner {
		let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
		let slots: Arc<Vec<Slot>> = Arc::new(
			(0..threads + 1)
				.map(|_| Slot { started: AtomicU64::new(0), cur: Mutex::new(Case::default()) })
				.collect(),
		);
		let r = Runner {
			id: id.into(),
			f,
			thorough,
			seed,
			t0: Instant::now(),
			threads,
			stop: AtomicBool::new(false),
			states: AtomicU64::new(0),
			transitions: AtomicU64::new(0),
			traces: AtomicU64::new(0),
			pruned: AtomicU64::new(0),
			outcomes: (0..OUT_BITS / 64).map(|_| AtomicU64::new(0)).collect(),
			distinct: AtomicU64::new(0),
			slots: slots.clone(),
			found: Mutex::new(vec![]),
			spaces: Mutex::new(vec![]),
			samples: Mutex::new(vec![]),
			assumptions: vec![],
			trace_dir,
		};
		// an execution that does not come back is a violation, not a timeout
		let t0 = r.t0;
		let id = r.id.clone();
		let f = r.f;
		let thorough = r.thorough;
		std::thread::spawn(move || loop {
			std::thread::sleep(Duration::from_millis(500));
			let now = t0.elapsed().as_millis() as u64;
			for s in slots.iter() {
				let st = s.started.load(Relaxed);
				if st != 0 && now > st + 100_000 {
					let c = s.cur.lock().unwrap().clone();
					let _ = f;
					let path = write_replay(&id, &c, "the call did not return within 100 s");
					write_evidence_min(&id, thorough, t0, 1);
					println!("case: {:?}", c);
					println!("VIOLATION property={} replay={}", id, path);
					let _ = std::io::stdout().flush();
					std::process::exit(1);
				}
			}
		});
		r
	}

	pub fn stopped(&self) -> bool {
		self.stop.load(Relaxed)
	}

	/// whether this outcome was not seen before
	fn observe(&self, h: u64) -> bool {
		let b = (h as usize) & (OUT_BITS - 1);
		let w = &self.outcomes[b / 64];
		let bit = 1u64 << (b % 64);
		if w.load(Relaxed) & bit == 0 && w.fetch_or(bit, Relaxed) & bit == 0 {
			self.distinct.fetch_add(1, Relaxed);
			return true;
		}
		false
	}

	fn fail(&self, c: Case, why: String) {
		let mut f = self.found.lock().unwrap();
		f.push((c, why));
		self.stop.store(true, Relaxed);
	}

	/// run the property on one execution
	fn exec(&self, cx: &Cx, l: &mut Local) -> bool {
		l.traces += 1;
		// one step of the automaton per character, one for the end of the source
		l.transitions += cx.c.len() as u64 + 1;
		let slot = SLOT.with(|s| *s.borrow());
		let sl = &self.slots[slot];
		{
			let mut c = sl.cur.lock().unwrap();
			c.s.clear();
			c.s.push_str(cx.s);
			c.pm = cx.pm;
			c.aux.clear();
			c.aux.push_str(cx.aux);
			if let Some(d) = &self.trace_dir {
				let _ = fs::write(format!("{}/{}", d, slot), encode_case(&self.id, &c));
			}
		}
		// reading the clock is worth it for short inputs only now and then
		if l.traces & 63 == 1 || cx.c.len() > 200 || !cx.aux.is_empty() {
			sl.started.store(self.t0.elapsed().as_millis().max(1) as u64, Relaxed);
		}
		match guarded(self.f, cx) {
			Ok(h) => self.observe(h),
			Err(why) => {
				self.fail(Case { s: cx.s.into(), pm: cx.pm, aux: cx.aux.into() }, why);
				false
			}
		}
	}

	fn merge(&self, l: &Local) {
		self.states.fetch_add(l.states, Relaxed);
		self.transitions.fetch_add(l.transitions, Relaxed);
		self.traces.fetch_add(l.traces, Relaxed);
		self.pruned.fetch_add(l.pruned, Relaxed);
	}

	fn par<F: Fn(usize, &mut Local) + Sync>(&self, n: usize, chunk: usize, f: F) -> (u64, u64) {
		let next = AtomicUsize::new(0);
		let before = (self.states.load(Relaxed), self.traces.load(Relaxed));
		std::thread::scope(|sc| {
			for w in 0..self.threads {
				let (next, f) = (&next, &f);
				std::thread::Builder::new()
					.stack_size(256 << 20)
					.spawn_scoped(sc, move || {
						SLOT.with(|s| *s.borrow_mut() = w);
						let mut l = Local { states: 0, transitions: 0, traces: 0, pruned: 0 };
						'o: loop {
							let i = next.fetch_add(chunk, Relaxed);
							if i >= n {
								break;
							}
							for k in i..(i + chunk).min(n) {
								if self.stopped() {
									break 'o;
								}
								f(k, &mut l);
							}
						}
						self.slots[w].started.store(0, Relaxed);
						self.merge(&l);
					})
					.unwrap();
			}
		});
		(self.states.load(Relaxed) - before.0, self.traces.load(Relaxed) - before.1)
	}

	fn note(&self, name: &str, bound: String, t: Instant, d: (u64, u64)) {
		self.spaces.lock().unwrap().push(format!(
			"{}: {}; states {}, executions {}, {:.1}s",
			name,
			bound,
			d.0,
			d.1,
			t.elapsed().as_secs_f64()
		));
	}
	fn sample(&self, s: &str, pm: u8, aux: &str) {
		let mut v = self.samples.lock().unwrap();
		if v.len() < 24 {
			let cut: String = s.chars().take(60).collect();
			let more = if s.chars().count() > 60 { "..." } else { "" };
			v.push(format!("{}{} | options {}{}", esc(&cut), more, mask_names(pm), if aux.is_empty() { String::new() } else { format!(" | {}", esc(&aux.chars().take(40).collect::<String>())) }));
		}
	}

	/// Every token sequence up to the depth. A prefix which the model calls hopeless (no continuation
	/// is accepted) is checked, also with one continuation, and then not extended.
	pub fn seqs(&self, sp: &Space) {
		if self.stopped() {
			return;
		}
		let t = Instant::now();
		// items: all sequences of length <= 2, the ones of full length are the roots of the search
		let head = sp.depth.min(2);
		let a = sp.alpha.len();
		let mut items: Vec<(usize, Vec<usize>)> = vec![];
		for p in 0..sp.prefixes.len() {
			let mut level: Vec<Vec<usize>> = vec![vec![]];
			for d in 0..=head {
				for s in &level {
					items.push((p, s.clone()));
				}
				if d == head {
					break;
				}
				level = level
					.iter()
					.flat_map(|s| {
						(0..a).map(move |x| {
							let mut s = s.clone();
							s.push(x);
							s
						})
					})
					.collect();
			}
		}
		let d = self.par(items.len(), 1, |k, l| {
			let (p, seq) = &items[k];
			let mut buf: Vec<char> = sp.prefixes[*p].chars().collect();
			let mut alive: Vec<u8> = sp.masks.to_vec();
			for (n, x) in seq.iter().enumerate() {
				if n > 0 || !seq.is_empty() {
					alive.retain(|m| !model::parse(&buf, *m).hard());
				}
				buf.extend(sp.alpha[*x].chars());
			}
			if alive.is_empty() {
				return;
			}
			let descend = if seq.len() == head { sp.depth - head } else { 0 };
			self.rec(sp, &mut buf, &alive, descend, l);
			if k % (items.len() / 3 + 1) == 0 {
				let s: String = buf.iter().collect();
				self.sample(&format!("{}{}", s, sp.tails[0]), alive[0], sp.aux);
			}
		});
		self.note(
			sp.name,
			format!(
				"{} prefix(es) x all sequences of <= {} of {} tokens x {} tail(s) x {} option set(s)",
				sp.prefixes.len(),
				sp.depth,
				a,
				sp.tails.len(),
				sp.masks.len()
			),
			t,
			d,
		);
	}

	fn rec(&self, sp: &Space, buf: &mut Vec<char>, alive: &[u8], left: usize, l: &mut Local) {
		if self.stopped() {
			return;
		}
		let len = buf.len();
		let mut next: Vec<u8> = Vec::with_capacity(alive.len());
		l.states += 1;
		let mut s: String = String::with_capacity(len + 16);
		s.extend(buf.iter());
		for &pm in alive {
			let m = model::parse(buf, pm);
			let is_hard = m.hard();
			for tail in sp.tails {
				if tail.is_empty() {
					self.exec(&Cx { s: &s, c: buf, pm, aux: sp.aux, m: &m }, l);
				} else {
					let sl = s.len();
					s.push_str(tail);
					buf.extend(tail.chars());
					let mt = model::parse(buf, pm);
					self.exec(&Cx { s: &s, c: buf, pm, aux: sp.aux, m: &mt }, l);
					s.truncate(sl);
					buf.truncate(len);
				}
			}
			if is_hard {
				l.pruned += 1;
				// the verdict must survive any continuation
				let sl = s.len();
				s.push_str("></a>");
				buf.extend("></a>".chars());
				let mt = model::parse(buf, pm);
				self.exec(&Cx { s: &s, c: buf, pm, aux: sp.aux, m: &mt }, l);
				s.truncate(sl);
				buf.truncate(len);
			} else {
				next.push(pm);
			}
		}
		if left == 0 || next.is_empty() {
			return;
		}
		for t in sp.alpha {
			buf.extend(t.chars());
			self.rec(sp, buf, &next, left - 1, l);
			buf.truncate(len);
		}
	}

	/// Breadth-first search over the model's canonical control states: every reachable state (within the
	/// nesting and length bounds) is left through every token, and every such edge is executed on the
	/// real code with every tail.
	pub fn graph(&self, sp: &Space, max_nest: usize) {
		if self.stopped() {
			return;
		}
		let t = Instant::now();
		let before = (self.states.load(Relaxed), self.traces.load(Relaxed));
		let mut per: Vec<String> = vec![];
		for &pm in sp.masks {
			let mut seen: HashSet<String> = HashSet::new();
			let mut frontier: Vec<Vec<char>> = sp.prefixes.iter().map(|p| p.chars().collect()).collect();
			for f in &frontier {
				seen.insert(model::parse_k(f, pm, true).key);
			}
			let mut depth = 0;
			let mut complete = false;
			while depth < sp.depth {
				depth += 1;
				let out: Mutex<Vec<(String, Vec<char>)>> = Mutex::new(vec![]);
				self.par(frontier.len(), 8, |k, l| {
					let mut loc = vec![];
					for t in sp.alpha {
						let mut buf = frontier[k].clone();
						buf.extend(t.chars());
						let m = model::parse_k(&buf, pm, true);
						let len = buf.len();
						let mut s: String = buf.iter().collect();
						for tail in sp.tails {
							let sl = s.len();
							if tail.is_empty() {
								self.exec(&Cx { s: &s, c: &buf, pm, aux: sp.aux, m: &m }, l);
							} else {
								s.push_str(tail);
								buf.extend(tail.chars());
								let mt = model::parse(&buf, pm);
								self.exec(&Cx { s: &s, c: &buf, pm, aux: sp.aux, m: &mt }, l);
								s.truncate(sl);
								buf.truncate(len);
							}
						}
						if !m.hard() && m.key.matches('(').count() <= max_nest + 1 {
							loc.push((m.key, buf));
						}
					}
					out.lock().unwrap().append(&mut loc);
				});
				if self.stopped() {
					return;
				}
				let mut found = out.into_inner().unwrap();
				// deterministic representative: the first in (key, source) order
				found.sort();
				let mut nf = vec![];
				for (k, b) in found {
					if seen.insert(k) {
						nf.push(b);
					}
				}
				frontier = nf;
				if frontier.is_empty() {
					complete = true;
					break;
				}
			}
			if let Some(f) = frontier.first() {
				self.sample(&f.iter().collect::<String>(), pm, sp.aux);
			}
			self.states.fetch_add(seen.len() as u64, Relaxed);
			per.push(format!("{}: {} states{}", mask_names(pm), seen.len(), if complete { " (closed)" } else { "" }));
		}
		let d = (self.states.load(Relaxed) - before.0, self.traces.load(Relaxed) - before.1);
		self.note(
			sp.name,
			format!(
				"breadth-first over model states, nesting <= {}, <= {} tokens of {}, {} tail(s) on every edge; {}",
				max_nest,
				sp.depth,
				sp.alpha.len(),
				sp.tails.len(),
				per.join(", ")
			),
			t,
			d,
		);
	}

	/// An indexed finite family of executions; `gen` returns None for indices that are no member.
	pub fn family<G: Fn(usize) -> Option<Case> + Sync>(&self, name: &str, bound: &str, n: usize, gen: G) {
		if self.stopped() {
			return;
		}
		let t = Instant::now();
		let d = self.par(n, 16, |k, l| {
			if let Some(c) = gen(k) {
				let chars: Vec<char> = c.s.chars().collect();
				let m = model::parse(&chars, c.pm);
				// the states of a family are the different outcomes
				if self.exec(&Cx { s: &c.s, c: &chars, pm: c.pm, aux: &c.aux, m: &m }, l) {
					l.states += 1;
				}
				if k % (n / 3 + 1) == n / 7 {
					self.sample(&c.s, c.pm, &c.aux);
				}
			}
		});
		self.note(name, bound.into(), t, d);
	}

	/// remove characters while the case keeps failing
	fn shrink(&self, c: &Case) -> (Case, String) {
		let mut best = c.clone();
		let mut why = match run_case(self.f, c) {
			Err(w) => w,
			Ok(_) => return (best, String::new()),
		};
		let t = Instant::now();
		let mut changed = true;
		while changed && t.elapsed() < Duration::from_secs(5) {
			changed = false;
			let chars: Vec<char> = best.s.chars().collect();
			let mut step = (chars.len() / 2).max(1);
			'o: loop {
				let mut i = 0;
				while i + step <= chars.len() {
					let mut v = chars.clone();
					v.drain(i..i + step);
					let cand = Case { s: v.into_iter().collect(), ..best.clone() };
					if let Err(w) = run_case(self.f, &cand) {
						best = cand;
						why = w;
						changed = true;
						break 'o;
					}
					i += 1;
					if t.elapsed() > Duration::from_secs(5) {
						break 'o;
					}
				}
				if step == 1 {
					break;
				}
				step /= 2;
			}
		}
		(best, why)
	}

	/// Very deep documents, each in a process of its own, because a stack overflow can't be caught.
	/// What is listed in known_findings.txt is reported, but is no violation.
	pub fn deep(&self) {
		let me = std::env::current_exe().unwrap();
		let list = fs::read_to_string(dir("known_findings.txt")).unwrap_or_default();
		let (mut ok, mut known) = (0, 0);
		for n in ["400", "200000"] {
			for op in DEEP_OPS {
				let o = std::process::Command::new(&me).args(["deep", op, n]).output().expect("deep");
				self.traces.fetch_add(1, Relaxed);
				if o.status.success() {
					ok += 1;
					continue;
				}
				let what = format!("deep op={} depth={}", op, n);
				if list.lines().any(|l| l.starts_with(&format!("finding: property={} {} ", self.id, what))) {
					known += 1;
					println!("KNOWN-FINDING: property={} {} on a 2 MiB stack: {}", self.id, what, o.status);
				} else {
					let why = format!("'<a>' x {} on a 2 MiB stack, {}: {} {}", n, op, o.status, String::from_utf8_lossy(&o.stderr).trim());
					let c = Case { s: String::new(), pm: 0, aux: format!("deep:{}:{}", op, n) };
					self.found.lock().unwrap().push((c, why));
				}
			}
		}
		self.spaces.lock().unwrap().push(format!(
			"very deep documents: depths 400 and 200000 x {} operations on a 2 MiB stack, each in its own process: {} returned, {} known findings",
			DEEP_OPS.len(),
			ok,
			known
		));
	}

	pub fn finish(self, shrinkable: bool) -> i32 {
		let found = self.found.lock().unwrap().clone();
		let viol = found.len();
		let mut code = 0;
		if let Some((c, w)) = found.iter().min_by_key(|(c, _)| (c.s.chars().count(), c.s.clone(), c.pm)) {
			let (mut c2, mut w2) = (c.clone(), w.clone());
			if shrinkable {
				let (a, b) = self.shrink(c);
				if !b.is_empty() {
					c2 = a;
					w2 = b;
				}
			}
			let path = write_replay(&self.id, &c2, &w2);
			println!("input:   {:?}", c2.s);
			println!("options: {}{}", mask_names(c2.pm), if c2.aux.is_empty() { String::new() } else { format!("  [{}]", c2.aux) });
			println!("problem: {}", w2);
			println!("VIOLATION property={} replay={}", self.id, path);
			code = 1;
		}
		let spaces = self.spaces.lock().unwrap().clone();
		let samples = self.samples.lock().unwrap().clone();
		let mut j = String::new();
		let arr = |v: &[String]| format!("[{}]", v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "));
		j.push_str(&format!(
			"{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n",
			json(&self.id),
			if self.thorough { "thorough" } else { "quick" },
			self.seed
		));
		j.push_str(&format!(
			"    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"distinct_outcomes_at_least\": {},\n    \"hopeless_prefixes_pruned\": {},\n    \"exhaustive\": {},\n    \"spaces\": {},\n    \"samples\": {}\n  }},\n",
			self.states.load(Relaxed),
			self.transitions.load(Relaxed),
			self.traces.load(Relaxed),
			self.distinct.load(Relaxed),
			self.pruned.load(Relaxed),
			code == 0,
			arr(&spaces),
			arr(&samples)
		));
		j.push_str(&format!(
			"  \"assumptions\": {},\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
			arr(&self.assumptions),
			self.t0.elapsed().as_secs_f64(),
			viol.min(1)
		));
		let _ = fs::create_dir_all(dir("evidence"));
		fs::write(format!("{}/{}.json", dir("evidence"), self.id), j).expect("evidence file");
		for s in &spaces {
			println!("{}", s);
		}
		println!(
			"{}: states={} transitions={} executions={} distinct_outcomes>={} pruned={} {:.1}s",
			self.id,
			self.states.load(Relaxed),
			self.transitions.load(Relaxed),
			self.traces.load(Relaxed),
			self.distinct.load(Relaxed),
			self.pruned.load(Relaxed),
			self.t0.elapsed().as_secs_f64()
		);
		code
	}
}

pub fn dir(sub: &str) -> String {
	let base = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
	format!("{}/{}", base, sub)
}

pub const DEEP_OPS: [&str; 5] = ["reject", "drop", "render", "clone", "debug"];

pub fn mask_names(pm: u8) -> String {
	let v: Vec<&str> = (0..6).filter(|b| pm & (1 << b) != 0).map(|b| model::PARSE_NAMES[b]).collect();
	if v.is_empty() {
		"default".into()
	} else {
		v.join("+")
	}
}

pub fn json(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\r' => o.push_str("\\r"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn esc(s: &str) -> String {
	s.chars().flat_map(|c| c.escape_default()).collect()
}
fn unesc(s: &str) -> String {
	let c: Vec<char> = s.chars().collect();
	let mut o = String::new();
	let mut i = 0;
	while i < c.len() {
		if c[i] != '\\' {
			o.push(c[i]);
			i += 1;
			continue;
		}
		match c[i + 1] {
			'n' => o.push('\n'),
			'r' => o.push('\r'),
			't' => o.push('\t'),
			'u' => {
				let e = c[i..].iter().position(|x| *x == '}').unwrap() + i;
				let h: String = c[i + 3..e].iter().collect();
				o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
				i = e + 1;
				continue;
			}
			x => o.push(x),
		}
		i += 2;
	}
	o
}

pub fn encode_case(id: &str, c: &Case) -> String {
	format!("property={}\nparse_mask={} {}\ninput={}\naux={}\n", id, c.pm, mask_names(c.pm), esc(&c.s), esc(&c.aux))
}

pub fn decode_case(t: &str) -> Option<(String, Case)> {
	let mut id = None;
	let mut c = Case::default();
	for l in t.lines() {
		if let Some(v) = l.strip_prefix("property=") {
			id = Some(v.to_string());
		} else if let Some(v) = l.strip_prefix("parse_mask=") {
			c.pm = v.split(' ').next()?.parse().ok()?;
		} else if let Some(v) = l.strip_prefix("input=") {
			c.s = unesc(v);
		} else if let Some(v) = l.strip_prefix("aux=") {
			c.aux = unesc(v);
		}
	}
	Some((id?, c))
}

pub fn write_replay(id: &str, c: &Case, why: &str) -> String {
	let d = dir("replay");
	let _ = fs::create_dir_all(&d);
	let body = format!(
		"{}# problem: {}\n# replay with: bash /verif/check.sh replay <this file>\n",
		encode_case(id, c),
		esc(why)
	);
	let path = format!("{}/{}-{:016x}.txt", d, id, fp(&encode_case(id, c)));
	let _ = fs::write(&path, body);
	path
}

pub fn write_evidence_min(id: &str, thorough: bool, t0: Instant, violations: u32) {
	let _ = fs::create_dir_all(dir("evidence"));
	let _ = fs::write(
		format!("{}/{}.json", dir("evidence"), id),
		format!(
			"{{\"property\": {}, \"tier\": \"{}\", \"seed\": 1, \"level\": \"model_checking\", \"coverage\": {{\"explanation\": \"stopped at a violation that ended the process\"}}, \"wall_s\": {:.2}, \"violations\": {}}}\n",
			json(id),
			if thorough { "thorough" } else { "quick" },
			t0.elapsed().as_secs_f64(),
			violations
		),
	);
}
