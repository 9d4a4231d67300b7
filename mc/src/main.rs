mod mem;
mod model;
mod props;
mod run;
mod sn;
use run::*;
use std::process::{exit, Command};
use std::time::Instant;

#[global_allocator]
static MEM: mem::Counting = mem::Counting;

fn find(id: &str) -> &'static props::Prop {
	match props::PROPS.iter().find(|p| p.id == id) {
		Some(p) => p,
		None => {
			eprintln!("unknown property {}", id);
			exit(2)
		}
	}
}

fn replay(path: &str) -> i32 {
	let t = std::fs::read_to_string(path).expect("replay file");
	let (id, c) = decode_case(&t).expect("replay file");
	let p = find(&id);
	if let Some(a) = c.aux.strip_prefix("deep:") {
		let (op, n) = a.split_once(':').expect("deep:op:n");
		let st = Command::new(std::env::current_exe().unwrap()).args(["deep", op, n]).status().expect("deep");
		println!("'<a>' x {}, {}: {}", n, op, st);
		if !st.success() {
			println!("VIOLATION property={} replay={}", id, path);
		}
		return i32::from(!st.success());
	}
	println!("property {}\ninput   {:?}\noptions {}\n{}", id, c.s, mask_names(c.pm), c.aux);
	let h = std::thread::Builder::new()
		.stack_size(256 << 20)
		.spawn(move || {
			let a = run_case(p.case, &c);
			let b = run_case(p.case, &c);
			(a, b)
		})
		.unwrap();
	let (a, b) = h.join().unwrap();
	if a.is_err() != b.is_err() {
		println!("the two replays disagree: {:?} / {:?}", a, b);
	}
	match a {
		Ok(_) => {
			println!("property holds on this case");
			0
		}
		Err(w) => {
			println!("problem {}\nVIOLATION property={} replay={}", w, id, path);
			1
		}
	}
}

/// one operation on a very deep document, on the stack that threads have by default
fn deep(op: &str, n: usize) {
	use rphtml::parser::Doc;
	use std::mem::forget;
	let op = op.to_string();
	let f = move || {
		let open = "<a>".repeat(n);
		if op == "reject" {
			assert!(Doc::parse(&open, Default::default()).is_err());
			return;
		}
		let s = open + &"</a>".repeat(n);
		let d = Doc::parse(&s, Default::default()).expect("well-formed");
		let root = d.get_root_node();
		match op.as_str() {
			"drop" => {
				drop(root);
				drop(d);
				return;
			}
			"render" => assert!(d.render(&Default::default()) == s),
			"clone" => forget(root.borrow().clone_node()),
			"debug" => assert!(!format!("{:?}", root.borrow()).is_empty()),
			_ => unreachable!(),
		}
		forget(root);
		forget(d);
	};
	std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join().unwrap();
}

fn worker(id: &str, thorough: bool, seed: i64, trace: Option<String>) -> i32 {
	install_hook();
	let p = find(id);
	let mut r = Runner::new(id, p.case, thorough, seed, trace);
	if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.explore)(&mut r))).is_err() {
		eprintln!("the explorer failed: {}", last_panic());
		return 2;
	}
	r.finish(p.shrink)
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
	match a.get(1).map(|s| s.as_str()) {
		Some("list") => {
			for p in props::PROPS {
				println!("{}", p.id);
			}
		}
		Some("replay") => {
			install_hook();
			exit(replay(&a[2]))
		}
		Some("deep") => deep(&a[2], a[3].parse().expect("depth")),
		Some("worker") => exit(worker(&a[2], a[3] == "thorough", seed, a.get(4).cloned())),
		Some("check") => {
			// the exploration runs in a child: code under test that kills the process (stack overflow,
			// abort, memory) is then a verdict about the code and not a crash of the check
			let me = std::env::current_exe().unwrap();
			let (id, tier) = (&a[2], &a[3]);
			find(id);
			let t0 = Instant::now();
			let st = Command::new(&me).args(["worker", id, tier]).status().expect("worker");
			match st.code() {
				Some(c @ (0 | 1)) => exit(c),
				Some(c) => {
					eprintln!("worker exit {}", c);
					exit(2)
				}
				None => {}
			}
			eprintln!("the exploration was killed ({}); looking for the execution that did it", st);
			let d = std::env::temp_dir().join(format!("mc-trace-{}", std::process::id()));
			std::fs::create_dir_all(&d).unwrap();
			let st2 = Command::new(&me).args(["worker", id, tier, d.to_str().unwrap()]).status().expect("worker");
			let mut code = st2.code().filter(|c| *c == 1).unwrap_or(2);
			if code == 2 {
				let mut files: Vec<_> = std::fs::read_dir(&d).unwrap().flatten().map(|e| e.path()).collect();
				files.sort();
				for f in files {
					let st = Command::new(&me).args(["replay", f.to_str().unwrap()]).stdout(std::process::Stdio::null()).status();
					if !matches!(st, Ok(s) if s.code() == Some(0)) {
						let (id, c) = decode_case(&std::fs::read_to_string(&f).unwrap()).unwrap();
						let why = format!("kills the process ({:?})", st);
						let path = write_replay(&id, &c, &why);
						write_evidence_min(&id, tier == "thorough", t0, 1);
						println!("input:   {:?}\noptions: {}\nproblem: {}", c.s, mask_names(c.pm), why);
						println!("VIOLATION property={} replay={}", id, path);
						code = 1;
						break;
					}
				}
			}
			let _ = std::fs::remove_dir_all(&d);
			exit(code)
		}
		_ => {
			eprintln!("usage: mc check <id> quick|thorough | replay <file> | list");
			exit(2)
		}
	}
}
