//! The properties: for each one the oracle that judges a single execution (`CaseFn`) and the
//! finite spaces of executions it is decided on.
use crate::model::{self, *};
use crate::run::*;
use crate::sn::*;
use rphtml::config::{ParseOptions, RenderOptions};
use rphtml::error::{ErrorKind, ParseError};
use rphtml::parser::*;
use rphtml::types::GenResult;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Prop {
	pub id: &'static str,
	pub case: CaseFn,
	pub explore: fn(&mut Runner),
	pub shrink: bool,
}

// ------------------------------------------------------------------ helpers

#[allow(clippy::needless_update)]
pub fn po(m: u8) -> ParseOptions {
	ParseOptions {
		case_sensitive_tagname: m & CASE != 0,
		allow_attr_key_starts_with_equal_sign: m & EQ != 0,
		allow_self_closing: m & SELF != 0,
		auto_fix_unclosed_tag: m & UNCLOSED != 0,
		auto_fix_unexpected_endtag: m & UNEXP != 0,
		auto_fix_unescaped_lt: m & LT != 0,
		..Default::default()
	}
}
#[allow(clippy::needless_update)]
pub fn ro(m: u16) -> RenderOptions {
	RenderOptions {
		minify_spaces: m & MINIFY != 0,
		lowercase_tagname: m & LOWER != 0,
		remove_endtag_space: m & RM_END_SPACE != 0,
		remove_attr_quote: m & RM_QUOTE != 0,
		remove_comment: m & RM_COMMENT != 0,
		always_close_void: m & CLOSE_VOID != 0,
		inner_html: m & INNER != 0,
		decode_entity: m & DECODE != 0,
		encode_content: m & ENCODE != 0,
		..Default::default()
	}
}
fn imp(s: &str, pm: u8) -> GenResult<DocHolder> {
	Doc::parse(s, po(pm))
}
fn st(c: &[char]) -> String {
	c.iter().collect()
}
fn verdict<T>(r: &GenResult<T>) -> String {
	match r {
		Ok(_) => "accepted".into(),
		Err(e) => format!("rejected ({})", e),
	}
}

/// the real document where the model accepts; Ok(None) where both reject
fn accepted(cx: &Cx) -> Result<Option<DocHolder>, String> {
	let r = imp(cx.s, cx.pm);
	match (&cx.m.res, r) {
		(Ok(_), Ok(d)) => Ok(Some(d)),
		(Err(_), Err(_)) => Ok(None),
		(Ok(_), r) => Err(format!("must be accepted, but is {}", verdict(&r))),
		(Err(e), Ok(_)) => Err(format!("must be rejected ({:?}), but is accepted", e.kind)),
	}
}
/// where acceptance itself is another property's business
fn both_ok(cx: &Cx) -> Option<DocHolder> {
	if cx.m.res.is_err() {
		return None;
	}
	imp(cx.s, cx.pm).ok()
}
fn tree_of(d: &DocHolder) -> SN {
	snap(&d.get_root_node())
}
fn mroot<'a>(cx: &'a Cx) -> &'a SN {
	&cx.m.doc().unwrap().root
}
fn same(want: &SN, got: &SN, f: Facets) -> Result<(), String> {
	diff(want, got, f).map_or(Ok(()), Err)
}
fn hash_sn(n: &SN) -> u64 {
	fn go(n: &SN, h: &mut u64) {
		*h = h.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(n.ty as u64 + 1);
		if let Some(t) = &n.tag {
			for c in &t.name {
				*h = h.wrapping_mul(0x100000001b3) ^ *c as u64;
			}
			*h = h.wrapping_mul(31).wrapping_add(t.attrs.len() as u64 * 4 + t.self_closed as u64 * 2 + t.auto_fix as u64);
			for a in &t.attrs {
				for x in [&a.key, &a.val] {
					*h = h.wrapping_mul(131).wrapping_add(7);
					for c in x.iter().flat_map(|v| v.iter()) {
						*h = h.wrapping_mul(0x100000001b3) ^ *c as u64;
					}
				}
			}
		}
		for c in n.content.iter().flat_map(|c| c.iter()) {
			*h = h.wrapping_mul(0x100000001b3) ^ *c as u64;
		}
		for k in &n.kids {
			go(k, h);
			*h = h.rotate_left(7);
		}
	}
	let mut h = 0xcbf29ce484222325;
	go(n, &mut h);
	h ^ (h >> 29)
}
/// every node of a real tree with its snapshot, in document order
fn each_pair<'a>(r: &RefNode, m: &'a SN, f: &mut dyn FnMut(&RefNode, &'a SN) -> Result<(), String>) -> Result<(), String> {
	f(r, m)?;
	let kids = r.borrow().childs.clone().unwrap_or_default();
	for (k, mk) in kids.iter().zip(&m.kids) {
		each_pair(k, mk, f)?;
	}
	Ok(())
}
fn all_nodes(r: &RefNode, out: &mut Vec<RefNode>) {
	out.push(r.clone());
	let kids = r.borrow().childs.clone().unwrap_or_default();
	for k in &kids {
		all_nodes(k, out);
	}
}
fn expect_str(what: &str, want: &str, got: &str) -> Result<(), String> {
	if want == got {
		Ok(())
	} else {
		Err(format!("{}: expected {:?}, got {:?}", what, want, got))
	}
}
fn all_masks(bits: u8) -> Vec<u8> {
	(0..64u8).filter(|m| m & !bits == 0).collect()
}
fn node_text(n: &Node, rm: u16, text: bool) -> String {
	n.build(&ro(rm), text).iter().collect()
}

include!("cases.rs");
include!("spaces.rs");
