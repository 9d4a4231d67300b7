//! The reference model: what a document means, written as a scanner over the whole source
//! (the crate is a character-driven automaton), and what rendering it must print.
use crate::sn::*;
use rphtml::parser::NodeType;

// ---- parse option bits
pub const CASE: u8 = 1;
pub const EQ: u8 = 2;
pub const SELF: u8 = 4;
pub const UNCLOSED: u8 = 8;
pub const UNEXP: u8 = 16;
pub const LT: u8 = 32;
pub const PARSE_NAMES: [&str; 6] = [
	"case_sensitive_tagname",
	"allow_attr_key_starts_with_equal_sign",
	"allow_self_closing",
	"auto_fix_unclosed_tag",
	"auto_fix_unexpected_endtag",
	"auto_fix_unescaped_lt",
];
// ---- render option bits
pub const MINIFY: u16 = 1;
pub const LOWER: u16 = 2;
pub const RM_END_SPACE: u16 = 4;
pub const RM_QUOTE: u16 = 8;
pub const RM_COMMENT: u16 = 16;
pub const CLOSE_VOID: u16 = 32;
pub const INNER: u16 = 64;
pub const DECODE: u16 = 128;
pub const ENCODE: u16 = 256;

pub const VOIDS: [&str; 14] = [
	"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr",
];
pub const RAWS: [&str; 4] = ["script", "style", "title", "textarea"];

pub fn lower(c: &[char]) -> String {
	c.iter().map(|c| c.to_ascii_lowercase()).collect()
}
fn ws(c: char) -> bool {
	matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')
}
fn trim_end(c: &[char]) -> &[char] {
	let mut n = c.len();
	while n > 0 && ws(c[n - 1]) {
		n -= 1;
	}
	&c[..n]
}
fn eq_nocase(a: &[char], b: &[char]) -> bool {
	a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq_ignore_ascii_case(y))
}
pub fn is_void(name: &[char]) -> bool {
	VOIDS.contains(&lower(name).as_str())
}
pub fn is_raw(name: &[char]) -> bool {
	RAWS.contains(&lower(name).as_str())
}
pub fn is_foreign(name: &[char]) -> bool {
	let l = lower(name);
	l == "svg" || l == "math"
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
	WrongTag,
	WrongEndTag,
	WrongSelfClosing,
	WrongCaseSensitive,
	UnrecognizedTag,
	WrongHtmlDoctype,
	CommonError,
	UnclosedTag,
}

#[derive(Clone, Debug)]
pub struct MErr {
	pub kind: K,
	/// where the error must be reported; `None`: anywhere inside the source
	pub idx: Option<usize>,
	/// no continuation of the source can repair it
	pub hard: bool,
	/// the tag name the error is about, where it is about one
	pub name: Option<Chars>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
	/// an end tag that matches no innermost open element: source range
	StrayEnd(usize, usize),
	/// a '<' that starts no markup
	StrayLt(usize),
}

#[derive(Clone, Debug)]
pub struct MDoc {
	pub root: SN,
	pub events: Vec<Ev>,
	/// what has to be appended to the source to close everything that is open; None: not expressible
	pub completion: Option<String>,
}

pub struct MRes {
	pub res: Result<MDoc, MErr>,
	/// canonical control state of the scanner at the end of the source
	pub key: String,
}

impl MRes {
	pub fn hard(&self) -> bool {
		matches!(&self.res, Err(e) if e.hard)
	}
	pub fn doc(&self) -> Option<&MDoc> {
		self.res.as_ref().ok()
	}
}

struct P {
	b: usize,
	e: usize,
	content: Chars,
}

struct M<'a> {
	s: &'a [char],
	o: u8,
	stack: Vec<SN>,
	pend: Option<P>,
	events: Vec<Ev>,
}

/// how a tag scan ended
enum TagScan {
	End { next: usize, slash: bool },
	Eof { state: &'static str, complete: Option<String> },
	Err(MErr),
}

enum Step {
	Next(usize),
	/// the source ended inside of a construct: lexer state
	Eof(String),
	/// an unfinished start tag: the node, lexer state, completion
	EofTag(SN, String, Option<String>),
	Err(MErr),
}

fn hard(kind: K, idx: usize) -> MErr {
	MErr { kind, idx: Some(idx), hard: true, name: None }
}
fn named(kind: K, idx: usize, name: &[char]) -> MErr {
	MErr { name: Some(name.to_vec()), ..hard(kind, idx) }
}

impl<'a> M<'a> {
	fn has(&self, bit: u8) -> bool {
		self.o & bit != 0
	}
	fn flush(&mut self, at_close: bool) {
		if let Some(p) = self.pend.take() {
			let top = self.stack.last_mut().unwrap();
			let blank = p.content.iter().all(|c| ws(*c));
			let ty = if blank && !(at_close && top.kids.is_empty()) {
				NodeType::SpacesBetweenTag
			} else {
				NodeType::Text
			};
			let mut n = SN::new(ty, p.b, p.e);
			n.content = Some(p.content);
			top.kids.push(n);
		}
	}
	fn add(&mut self, n: SN) {
		self.stack.last_mut().unwrap().kids.push(n);
	}
	fn text(&mut self, b: usize, e: usize, content: &[char]) {
		match &mut self.pend {
			Some(p) => {
				p.content.extend_from_slice(content);
				p.e = e;
			}
			None => self.pend = Some(P { b, e, content: content.to_vec() }),
		}
	}
	fn foreign(&self) -> Option<&SN> {
		self.stack[1..].iter().find(|n| is_foreign(&n.tag.as_ref().unwrap().name))
	}

	/// attributes of a start tag or a doctype, from the first character after its name
	fn attrs(&self, mut j: usize, doctype: bool, attrs: &mut Vec<At>) -> TagScan {
		let s = self.s;
		let n = s.len();
		// expecting: 0 an attribute, 1 a key has ended (maybe '=' follows), 2 a value
		let mut want = 0;
		let mut slash = false;
		loop {
			if j >= n {
				return if slash {
					TagScan::Eof { state: "slash", complete: None }
				} else {
					TagScan::Eof { state: ["wait", "keyend", "waitvalue"][want], complete: Some(">".into()) }
				};
			}
			let c = s[j];
			if ws(c) {
				j += 1;
				continue;
			}
			if c == '>' {
				return TagScan::End { next: j + 1, slash };
			}
			if c == '/' && (slash || want != 2) {
				slash = true;
				j += 1;
				continue;
			}
			if (c == '"' || c == '\'') && (want == 2 || doctype) {
				let close = s[j + 1..].iter().position(|x| *x == c).map(|k| j + 1 + k);
				let val = s[j + 1..close.unwrap_or(n)].to_vec();
				if want == 2 {
					let a = attrs.last_mut().unwrap();
					a.val = Some(val);
					a.quote = Some(c);
				} else {
					attrs.push(At { key: None, val: Some(val), quote: Some(c) });
				}
				slash = false;
				want = 0;
				match close {
					Some(k) => j = k + 1,
					None => {
						return TagScan::Eof {
							state: if c == '"' { "dquoted" } else { "squoted" },
							complete: Some(format!("{}>", c)),
						}
					}
				}
				continue;
			}
			if want == 2 {
				// unquoted value
				let k = s[j..].iter().position(|x| ws(*x) || *x == '>').map_or(n, |k| j + k);
				attrs.last_mut().unwrap().val = Some(s[j..k].to_vec());
				want = 0;
				slash = false;
				if k == n {
					return TagScan::Eof { state: "unquoted", complete: Some(">".into()) };
				}
				j = k;
				continue;
			}
			if c == '=' {
				if want == 1 {
					want = 2;
					slash = false;
					j += 1;
					continue;
				}
				if !self.has(EQ) {
					return TagScan::Err(hard(K::WrongTag, j));
				}
			}
			// a key, its first character may be anything
			slash = false;
			let k = s[j + 1..]
				.iter()
				.position(|x| ws(*x) || matches!(*x, '>' | '/' | '='))
				.map_or(n, |k| j + 1 + k);
			attrs.push(At { key: Some(s[j..k].to_vec()), val: None, quote: None });
			if k == n {
				return TagScan::Eof { state: "key", complete: Some(">".into()) };
			}
			j = k;
			match s[k] {
				'=' => {
					want = 2;
					j += 1;
				}
				'/' => want = 0,
				'>' => {}
				_ => want = 1,
			}
		}
	}

	fn start_tag(&mut self, i: usize) -> Step {
		let s = self.s;
		let n = s.len();
		self.flush(false);
		let k = s[i + 1..]
			.iter()
			.position(|x| ws(*x) || matches!(*x, '>' | '/'))
			.map_or(n, |k| i + 1 + k);
		let name = s[i + 1..k].to_vec();
		let void = is_void(&name);
		let mut tag = Tag { name: name.clone(), is_void: void, ..Tag::default() };
		let mut node = SN::new(NodeType::Tag, i, n);
		let scan = if k == n {
			TagScan::Eof { state: "name", complete: Some(">".into()) }
		} else {
			self.attrs(k, false, &mut tag.attrs)
		};
		let (next, slash) = match scan {
			TagScan::Err(e) => return Step::Err(e),
			TagScan::Eof { state, complete } => {
				let key = format!("tag:{}:{}:{}", state, lower(&name), tag.attrs.len().min(2));
				node.tag = Some(tag);
				return Step::EofTag(node, key, complete);
			}
			TagScan::End { next, slash } => (next, slash),
		};
		node.e = next;
		if slash {
			if !(self.has(SELF) || void || self.foreign().is_some()) {
				return Step::Err(named(K::WrongSelfClosing, next - 1, &name));
			}
			tag.self_closed = true;
		}
		node.tag = Some(tag);
		if slash || void {
			self.add(node);
			return Step::Next(next);
		}
		if is_raw(&name) {
			// up to the first '</name' + spaces + '>'
			for k in next..n {
				if s[k] != '>' {
					continue;
				}
				let body = trim_end(&s[next..k]);
				if body.len() < name.len() + 2 {
					continue;
				}
				let at = body.len() - name.len() - 2;
				let (open, nm) = (&body[at..at + 2], &body[at + 2..]);
				let same = if self.has(CASE) { nm == &name[..] } else { eq_nocase(nm, &name) };
				if open == ['<', '/'] && same {
					let at = next + at;
					node.content = Some(s[next..at].to_vec());
					node.end = Some(EndT { content: s[at + 2..k].to_vec(), b: at, e: k + 1 });
					self.add(node);
					return Step::Next(k + 1);
				}
			}
			// how much of the end tag has been seen so far
			let body = &s[next..];
			let tail: String = body[body.len().saturating_sub(name.len() + 3)..]
				.iter()
				.map(|c| c.to_ascii_lowercase())
				.collect();
			let key = format!("raw:{}:{}", lower(&name), tail);
			self.stack.push(node);
			return Step::Eof(key);
		}
		self.stack.push(node);
		Step::Next(next)
	}

	fn end_tag(&mut self, i: usize) -> Step {
		let s = self.s;
		let k = match s[i + 2..].iter().position(|x| *x == '>') {
			Some(k) => i + 2 + k,
			None => return Step::Eof(format!("endtag:{}", lower(&s[i + 2..]))),
		};
		let full = &s[i + 2..k];
		let name = trim_end(full);
		if self.stack.len() > 1 {
			let top = &self.stack.last().unwrap().tag.as_ref().unwrap().name;
			if eq_nocase(top, name) {
				if self.has(CASE) && top != name {
					return Step::Err(named(K::WrongCaseSensitive, k, name));
				}
				self.flush(true);
				let mut node = self.stack.pop().unwrap();
				node.end = Some(EndT { content: full.to_vec(), b: i, e: k + 1 });
				self.add(node);
				return Step::Next(k + 1);
			}
		}
		if !self.has(UNEXP) {
			return Step::Err(named(K::WrongEndTag, k, name));
		}
		self.events.push(Ev::StrayEnd(i, k + 1));
		Step::Next(k + 1)
	}

	/// content up to the first terminator `cc>`
	fn until(&self, from: usize, c: char) -> Option<usize> {
		(from + 2..self.s.len()).find(|&k| self.s[k] == '>' && self.s[k - 1] == c && self.s[k - 2] == c)
	}

	fn decl(&mut self, i: usize) -> Step {
		let s = self.s;
		let n = s.len();
		let rest = &s[i + 2..];
		let first = match rest.first() {
			None => return Step::Eof("decl".into()),
			Some(c) => *c,
		};
		let word: &str = match first {
			'-' => "--",
			'd' | 'D' => "DOCTYPE",
			'[' => match self.foreign() {
				None => return Step::Err(hard(K::CommonError, i + 2)),
				Some(f) => {
					let top = self.stack.last().unwrap();
					if f.tag.as_ref().unwrap().name == top.tag.as_ref().unwrap().name {
						return Step::Err(hard(K::CommonError, i + 2));
					}
					"[CDATA["
				}
			},
			_ => return Step::Err(hard(K::WrongTag, i)),
		};
		for (k, w) in word.chars().enumerate() {
			match rest.get(k) {
				None => return Step::Eof(format!("decl:{}:{}", word, k)),
				Some(c) if c.to_ascii_uppercase() == w => {}
				Some(_) => return Step::Err(hard(K::UnrecognizedTag, i)),
			}
		}
		self.flush(false);
		let from = i + 2 + word.len();
		if first == 'd' || first == 'D' {
			if from >= n {
				return Step::Eof("doctype".into());
			}
			if !ws(s[from]) {
				return Step::Err(hard(K::WrongHtmlDoctype, from));
			}
			let mut tag = Tag { name: s[i + 2..from].to_vec(), ..Tag::default() };
			return match self.attrs(from, true, &mut tag.attrs) {
				TagScan::Err(e) => Step::Err(e),
				TagScan::Eof { state, .. } => Step::Eof(format!("doctype:{}:{}", state, tag.attrs.len().min(2))),
				TagScan::End { next, slash } => {
					let mut node = SN::new(NodeType::HTMLDOCTYPE, i, next);
					tag.self_closed = slash;
					node.tag = Some(tag);
					self.add(node);
					Step::Next(next)
				}
			};
		}
		let (c, ty) = if first == '-' { ('-', NodeType::Comment) } else { (']', NodeType::XMLCDATA) };
		match self.until(from, c) {
			None => {
				let run = s[from..].iter().rev().take_while(|x| **x == c).count().min(2);
				Step::Eof(format!("{:?}:{}", ty, run))
			}
			Some(k) => {
				let mut node = SN::new(ty, i, k + 1);
				node.content = Some(s[from..k - 2].to_vec());
				self.add(node);
				Step::Next(k + 1)
			}
		}
	}

	fn stack_key(&self) -> String {
		let mut k = String::new();
		for n in &self.stack {
			if let Some(t) = &n.tag {
				// the spelling of open names matters for matching end tags
				k.extend(t.name.iter());
			}
			k.push('(');
			k.push_str(["", "1", "2"][n.kids.len().min(2)]);
			if let Some(l) = n.kids.last() {
				k.push_str(&format!("{}", l.ty as u8));
				if let Some(t) = &l.tag {
					k.push(if t.is_void { 'v' } else if t.self_closed { 's' } else if l.content.is_some() { 'r' } else { 'n' });
				}
			}
		}
		if let Some(p) = &self.pend {
			k.push_str(if p.content.iter().all(|c| ws(*c)) { "~ws" } else { "~tx" });
		}
		// did the last thing read end in a dropped end tag or a repaired '<'
		match self.events.last() {
			Some(Ev::StrayEnd(_, e)) if *e == self.s.len() => k.push_str("|se"),
			Some(Ev::StrayLt(p)) if *p + 2 >= self.s.len() => k.push_str("|lt"),
			_ => {}
		}
		k
	}
}

pub fn parse(s: &[char], o: u8) -> MRes {
	parse_k(s, o, false)
}

pub fn parse_k(s: &[char], o: u8, want_key: bool) -> MRes {
	let n = s.len();
	let mut m = M { s, o, stack: vec![SN::new(NodeType::AbstractRoot, 0, n)], pend: None, events: vec![] };
	let mut i = 0;
	// None: the source ended between two constructs
	let mut eof: Option<Step> = None;
	while i < n {
		if s[i] != '<' {
			let j = s[i..].iter().position(|c| *c == '<').map_or(n, |k| i + k);
			m.text(i, j, &s[i..j]);
			i = j;
			continue;
		}
		let step = match s.get(i + 1) {
			None => Step::Eof("lt".into()),
			Some(c) if c.is_ascii_alphabetic() => m.start_tag(i),
			Some('/') => m.end_tag(i),
			Some('!') => m.decl(i),
			Some(_) => {
				if !m.has(LT) {
					Step::Err(hard(K::WrongTag, i))
				} else {
					m.events.push(Ev::StrayLt(i));
					m.text(i, i + 1, &['&', 'l', 't', ';']);
					Step::Next(i + 1)
				}
			}
		};
		match step {
			Step::Next(j) => i = j,
			Step::Err(e) => return MRes { res: Err(e), key: "!".into() },
			other => {
				eof = Some(other);
				break;
			}
		}
	}
	let mut key = String::new();
	if want_key {
		key = m.stack_key();
		match &eof {
			None => {}
			Some(Step::Eof(k)) | Some(Step::EofTag(_, k, _)) => {
				key.push('@');
				key.push_str(k);
			}
			_ => unreachable!(),
		}
	}
	let unclosed_err = |of: Option<&SN>| MErr { kind: K::UnclosedTag, idx: of.map(|n| n.b), hard: false, name: of.map(|n| n.tag.as_ref().unwrap().name.clone()) };
	let mut completion = Some(String::new());
	match eof {
		None => {}
		Some(Step::EofTag(node, _, complete)) => {
			if !m.has(UNCLOSED) {
				return MRes { res: Err(unclosed_err(Some(&node))), key };
			}
			completion = complete;
			if node.tag.as_ref().unwrap().is_void {
				m.add(node);
			} else {
				m.stack.push(node);
			}
		}
		Some(_) => {
			let of = if m.stack.len() > 1 && !m.has(UNCLOSED) { m.stack.last() } else { None };
			return MRes { res: Err(unclosed_err(of)), key };
		}
	}
	if m.stack.len() > 1 && !m.has(UNCLOSED) {
		return MRes { res: Err(unclosed_err(m.stack.last())), key };
	}
	m.flush(false);
	while m.stack.len() > 1 {
		let mut node = m.stack.pop().unwrap();
		let t = node.tag.as_mut().unwrap();
		t.auto_fix = true;
		let name = t.name.clone();
		if let Some(c) = &mut completion {
			c.push_str("</");
			c.extend(name.iter());
			c.push('>');
		}
		node.end = Some(EndT { content: name, b: n, e: n });
		m.add(node);
	}
	let root = m.stack.pop().unwrap();
	MRes { res: Ok(MDoc { root, events: m.events, completion }), key }
}

// ------------------------------------------------------------------ rendering

pub fn decode(c: &[char]) -> Chars {
	let mut out = Vec::with_capacity(c.len());
	let mut i = 0;
	while i < c.len() {
		if c[i] == '&' {
			// the entity is closed by the next ';' unless another '&' comes first
			if let Some(k) = c[i + 1..].iter().position(|x| *x == ';' || *x == '&').map(|k| i + 1 + k) {
				if c[k] == ';' {
					if let Some(d) = entity(&c[i + 1..k]) {
						out.push(d);
						i = k + 1;
						continue;
					}
				}
			}
		}
		out.push(c[i]);
		i += 1;
	}
	out
}

fn entity(name: &[char]) -> Option<char> {
	let s: String = name.iter().collect();
	match s.as_str() {
		"" => None,
		"lt" => Some('<'),
		"gt" => Some('>'),
		"amp" => Some('&'),
		"quot" => Some('"'),
		"apos" => Some('\''),
		"nbsp" => Some('\u{a0}'),
		"copy" => Some('©'),
		_ => {
			if let Some(hex) = s.strip_prefix("#x").or(s.strip_prefix("#X")) {
				if !hex.is_empty() && hex.len() < 7 && hex.chars().all(|c| c.is_ascii_hexdigit()) {
					return char::from_u32(u32::from_str_radix(hex, 16).unwrap());
				}
			} else if let Some(dec) = s.strip_prefix('#') {
				if !dec.is_empty() && dec.len() < 9 && dec.chars().all(|c| c.is_ascii_digit()) {
					return char::from_u32(dec.parse().unwrap());
				}
			}
			if s.chars().all(|c| c.is_ascii_alphanumeric() || c == '#') {
				rphtml::entity::Entity::decode_chars(name).ok()
			} else {
				None
			}
		}
	}
}

pub fn encode(c: &[char]) -> Chars {
	let mut out = vec![];
	for x in c {
		match x {
			'&' => out.extend("&amp;".chars()),
			'<' => out.extend("&lt;".chars()),
			'>' => out.extend("&gt;".chars()),
			_ => out.push(*x),
		}
	}
	out
}

pub fn collapse(c: &[char]) -> Chars {
	let mut out: Chars = vec![];
	let mut prev = false;
	for x in c {
		let w = ws(*x);
		if !(w && prev) {
			out.push(*x);
		}
		prev = w;
	}
	out
}

pub fn needs_quote(key: bool, v: &[char]) -> bool {
	!key || v.is_empty() || v.iter().any(|c| ws(*c) || matches!(c, '"' | '\'' | '<' | '>' | '=' | '`'))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
	Outer,
	Inner,
	Text,
}

pub fn put_attrs(attrs: &[At], rm_quote: bool, out: &mut Chars) {
	for a in attrs {
		out.push(' ');
		if let Some(k) = &a.key {
			out.extend_from_slice(k);
		}
		if let Some(v) = &a.val {
			if a.key.is_some() {
				out.push('=');
			}
			let q = a.quote.filter(|_| !rm_quote || needs_quote(a.key.is_some(), v));
			out.extend(q);
			out.extend_from_slice(v);
			out.extend(q);
		}
	}
}

fn put_name(name: &[char], rm: u16, out: &mut Chars) {
	if rm & LOWER != 0 {
		out.extend(name.iter().map(|c| c.to_ascii_lowercase()));
	} else {
		out.extend_from_slice(name);
	}
}

fn put(n: &SN, rm: u16, mode: Mode, is_root: bool, pre: bool, out: &mut Chars) {
	let markup = if is_root { mode == Mode::Outer } else { mode != Mode::Text };
	let squeeze = rm & MINIFY != 0 && !pre;
	let body = n.content.as_deref().unwrap_or(&[]);
	let mut pre = pre;
	match n.ty {
		NodeType::AbstractRoot | NodeType::TagEnd => {}
		NodeType::Text => {
			let mut t = body.to_vec();
			if rm & DECODE != 0 {
				t = decode(&t);
			}
			if squeeze {
				t = collapse(&t);
			}
			out.extend(t);
		}
		NodeType::SpacesBetweenTag => {
			if !squeeze {
				out.extend_from_slice(body);
			}
		}
		NodeType::Comment => {
			if rm & RM_COMMENT == 0 && (is_root || mode != Mode::Text) {
				let wrap = !(is_root && mode == Mode::Text);
				if wrap {
					out.extend("<!--".chars());
				}
				out.extend_from_slice(body);
				if wrap {
					out.extend("-->".chars());
				}
			}
		}
		NodeType::XMLCDATA => {
			if markup {
				out.extend("<![CDATA[".chars());
			}
			out.extend_from_slice(body);
			if markup {
				out.extend("]]>".chars());
			}
		}
		NodeType::HTMLDOCTYPE => {
			if markup {
				let t = n.tag.as_ref().unwrap();
				out.extend(['<', '!']);
				out.extend_from_slice(&t.name);
				put_attrs(&t.attrs, rm & RM_QUOTE != 0, out);
				if t.attrs.is_empty() {
					// without the space it would be no doctype any more
					out.push(' ');
				}
				out.push('>');
			}
		}
		NodeType::Tag => {
			let t = n.tag.as_ref().unwrap();
			if markup {
				out.push('<');
				put_name(&t.name, rm, out);
				put_attrs(&t.attrs, rm & RM_QUOTE != 0, out);
				if t.self_closed || (t.is_void && rm & CLOSE_VOID != 0) {
					out.extend([' ', '/']);
				}
				out.push('>');
			}
			let l = lower(&t.name);
			if rm & ENCODE != 0 && (l == "title" || l == "textarea") {
				out.extend(encode(body));
			} else {
				out.extend_from_slice(body);
			}
			pre = pre || l == "pre";
		}
	}
	for k in &n.kids {
		put(k, rm, mode, false, pre, out);
	}
	if let (Some(e), true) = (&n.end, markup) {
		out.extend(['<', '/']);
		put_name(if rm & RM_END_SPACE != 0 { trim_end(&e.content) } else { &e.content }, rm, out);
		out.push('>');
	}
}

/// What `node.build` / `render` must print; `None` where the call is documented to panic.
pub fn render(n: &SN, rm: u16, text: bool) -> Option<Chars> {
	let mode = if text {
		if rm & INNER != 0 {
			return None;
		}
		Mode::Text
	} else if rm & INNER != 0 {
		Mode::Inner
	} else {
		Mode::Outer
	};
	let mut node = n;
	if mode != Mode::Outer {
		if n.ty == NodeType::AbstractRoot {
			if n.kids.is_empty() {
				return Some(vec![]);
			}
			let mut tags = n.kids.iter().filter(|k| k.ty == NodeType::Tag);
			node = tags.next()?;
			if tags.next().is_some() {
				return None;
			}
		} else {
			let ok = n.ty == NodeType::Tag
				|| (mode == Mode::Text && matches!(n.ty, NodeType::Comment | NodeType::XMLCDATA));
			if !ok {
				return None;
			}
		}
	}
	let mut out = vec![];
	put(node, rm, mode, true, false, &mut out);
	Some(out)
}
