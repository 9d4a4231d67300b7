//! Plain-data snapshots of a parsed document, taken through the public fields of the crate only,
//! and the comparison of two snapshots. The reference model produces the same type.
use rphtml::parser::{Node, NodeType, RefNode};
use std::rc::Rc;

pub type Chars = Vec<char>;

#[derive(Clone, Debug, PartialEq)]
pub struct At {
	pub key: Option<Chars>,
	pub val: Option<Chars>,
	pub quote: Option<char>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Tag {
	pub name: Chars,
	pub attrs: Vec<At>,
	pub is_void: bool,
	pub self_closed: bool,
	pub auto_fix: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EndT {
	pub content: Chars,
	pub b: usize,
	pub e: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SN {
	pub ty: NodeType,
	pub b: usize,
	pub e: usize,
	pub tag: Option<Tag>,
	pub content: Option<Chars>,
	pub kids: Vec<SN>,
	pub end: Option<EndT>,
}

impl SN {
	pub fn new(ty: NodeType, b: usize, e: usize) -> SN {
		SN { ty, b, e, tag: None, content: None, kids: vec![], end: None }
	}
	pub fn is_text(&self) -> bool {
		matches!(self.ty, NodeType::Text | NodeType::SpacesBetweenTag)
	}
	pub fn count(&self) -> usize {
		1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
	}
}

pub fn snap(node: &RefNode) -> SN {
	let n = node.borrow();
	snap_node(&n)
}

pub fn snap_node(n: &Node) -> SN {
	SN {
		ty: n.node_type,
		b: n.begin_at,
		e: n.end_at,
		tag: n.meta.as_ref().map(|m| {
			let m = m.borrow();
			Tag {
				name: m.name.clone(),
				attrs: m
					.attrs
					.iter()
					.map(|a| At {
						key: a.key.as_ref().map(|k| k.content.clone()),
						val: a.value.as_ref().map(|k| k.content.clone()),
						quote: a.quote,
					})
					.collect(),
				is_void: m.is_void,
				self_closed: m.self_closed,
				auto_fix: m.auto_fix,
			}
		}),
		content: n.content.clone(),
		kids: n.childs.as_ref().map_or(vec![], |c| c.iter().map(snap).collect()),
		end: n.end_tag.as_ref().map(|e| {
			let e = e.borrow();
			EndT { content: e.content.clone().unwrap_or_default(), b: e.begin_at, e: e.end_at }
		}),
	}
}

/// What a comparison looks at.
#[derive(Clone, Copy)]
pub struct Facets {
	/// begin/end positions
	pub pos: bool,
	/// distinguish `Text` from `SpacesBetweenTag`
	pub spaces: bool,
	/// attributes (keys, values, quotes)
	pub attrs: bool,
	/// contents of text / comment / raw nodes
	pub content: bool,
	/// the spelling of end tags
	pub end: bool,
	/// self_closed / auto_fix flags
	pub flags: bool,
	/// merge neighbouring text nodes before comparing
	pub merge: bool,
}

pub const STRUCT: Facets =
	Facets { pos: false, spaces: false, attrs: false, content: false, end: false, flags: false, merge: false };
pub const TREE: Facets =
	Facets { pos: false, spaces: true, attrs: true, content: true, end: true, flags: true, merge: false };

pub fn show(c: &[char]) -> String {
	format!("{:?}", c.iter().collect::<String>())
}
fn show_o(c: &Option<Chars>) -> String {
	c.as_ref().map_or("none".into(), |c| show(c))
}

/// is there anything to merge
fn mergeable(kids: &[SN]) -> bool {
	kids.windows(2).any(|w| w[0].is_text() && w[1].is_text())
		|| kids.iter().any(|k| k.is_text() && k.content.as_ref().map_or(true, |c| c.is_empty()))
}

fn merged(kids: &[SN]) -> Vec<SN> {
	let mut out: Vec<SN> = vec![];
	for k in kids {
		if k.is_text() {
			if k.content.as_ref().map_or(true, |c| c.is_empty()) {
				continue;
			}
			if let Some(l) = out.last_mut() {
				if l.is_text() {
					l.content.as_mut().unwrap().extend_from_slice(k.content.as_ref().unwrap());
					l.e = k.e;
					if k.ty == NodeType::Text {
						l.ty = NodeType::Text;
					}
					continue;
				}
			}
		}
		out.push(k.clone());
	}
	out
}

/// `None` when both agree on the facets, else a description of the first difference.
/// `want` is the expected one.
pub fn diff(want: &SN, got: &SN, f: Facets) -> Option<String> {
	fn at(p: &str, what: &str, w: String, g: String) -> Option<String> {
		Some(format!("{} at {}: expected {}, got {}", what, if p.is_empty() { "/" } else { p }, w, g))
	}
	fn go(w: &SN, g: &SN, f: &Facets, p: &str) -> Option<String> {
		if w.ty != g.ty && (f.spaces || !(w.is_text() && g.is_text())) {
			return at(p, "node type", format!("{:?}", w.ty), format!("{:?}", g.ty));
		}
		if f.pos && (w.b != g.b || w.e != g.e) {
			return at(p, "span", format!("{}..{}", w.b, w.e), format!("{}..{}", g.b, g.e));
		}
		match (&w.tag, &g.tag) {
			(None, None) => {}
			(Some(a), Some(b)) => {
				if a.name != b.name {
					return at(p, "name", show(&a.name), show(&b.name));
				}
				if a.is_void != b.is_void {
					return at(p, "is_void", a.is_void.to_string(), b.is_void.to_string());
				}
				if f.flags && w.ty == NodeType::Tag && (a.self_closed != b.self_closed || a.auto_fix != b.auto_fix) {
					return at(
						p,
						"flags(self_closed,auto_fix)",
						format!("{},{}", a.self_closed, a.auto_fix),
						format!("{},{}", b.self_closed, b.auto_fix),
					);
				}
				if f.attrs && a.attrs != b.attrs {
					let sh = |v: &[At]| {
						v.iter()
							.map(|x| format!("[{} = {} {:?}]", show_o(&x.key), show_o(&x.val), x.quote))
							.collect::<Vec<_>>()
							.join("")
					};
					return at(p, "attributes", sh(&a.attrs), sh(&b.attrs));
				}
			}
			(a, b) => return at(p, "tag data", a.is_some().to_string(), b.is_some().to_string()),
		}
		if f.content {
			let we = w.content.as_deref().unwrap_or(&[]);
			let ge = g.content.as_deref().unwrap_or(&[]);
			if we != ge {
				return at(p, "content", show_o(&w.content), show_o(&g.content));
			}
		}
		match (&w.end, &g.end) {
			(None, None) => {}
			(Some(a), Some(b)) => {
				if f.end && a.content != b.content {
					return at(p, "end tag", show(&a.content), show(&b.content));
				}
				if f.pos && (a.b != b.b || a.e != b.e) {
					return at(p, "end tag span", format!("{}..{}", a.b, a.e), format!("{}..{}", b.b, b.e));
				}
			}
			(a, b) => return at(p, "has end tag", a.is_some().to_string(), b.is_some().to_string()),
		}
		let (mw, mg);
		let (wk, gk): (&[SN], &[SN]) = if f.merge && (mergeable(&w.kids) || mergeable(&g.kids)) {
			mw = merged(&w.kids);
			mg = merged(&g.kids);
			(&mw, &mg)
		} else {
			(&w.kids, &g.kids)
		};
		if wk.len() != gk.len() {
			let sh = |v: &[SN]| v.iter().map(|x| format!("{:?}", x.ty)).collect::<Vec<_>>().join(",");
			return at(p, "children", format!("[{}]", sh(wk)), format!("[{}]", sh(gk)));
		}
		for (i, (a, b)) in wk.iter().zip(gk).enumerate() {
			if let Some(d) = go(a, b, f, &format!("{}/{}", p, i)) {
				return Some(d);
			}
		}
		None
	}
	// cheap path: most comparisons succeed
	go(want, got, &f, "")
}

/// Structural links of a real tree: index, parent, root, end tag.
pub fn links(root: &RefNode) -> Result<(), String> {
	fn go(n: &RefNode, root: &RefNode, p: &str, need_root: bool) -> Result<(), String> {
		let node = n.borrow();
		if let Some(kids) = &node.childs {
			for (i, k) in kids.iter().enumerate() {
				let path = format!("{}/{}", p, i);
				{
					let kb = k.borrow();
					if kb.index != i {
						return Err(format!("{}: index is {}, but it is child number {}", path, kb.index, i));
					}
					match kb.parent.as_ref().and_then(|w| w.upgrade()) {
						Some(pa) if Node::is_same(&pa, n) && Rc::ptr_eq(&pa, n) => {}
						Some(_) => return Err(format!("{}: parent link leads to another node", path)),
						None => return Err(format!("{}: no parent link", path)),
					}
					if need_root {
						match kb.root.as_ref().and_then(|w| w.upgrade()) {
							Some(r) if Node::is_same(&r, root) => {}
							_ => return Err(format!("{}: root link does not lead to the root", path)),
						}
					}
					if matches!(kb.node_type, NodeType::AbstractRoot | NodeType::TagEnd) {
						return Err(format!("{}: a {:?} among the children", path, kb.node_type));
					}
					if kb.node_type != NodeType::Tag {
						if kb.childs.as_ref().map_or(false, |c| !c.is_empty()) {
							return Err(format!("{}: a {:?} has children", path, kb.node_type));
						}
						if kb.end_tag.is_some() {
							return Err(format!("{}: a {:?} has an end tag", path, kb.node_type));
						}
					} else {
						let m = kb.meta.as_ref().ok_or(format!("{}: tag without data", path))?.borrow();
						if m.is_void || m.self_closed {
							if kb.childs.as_ref().map_or(false, |c| !c.is_empty()) {
								return Err(format!("{}: void/self-closed tag has children", path));
							}
							if kb.end_tag.is_some() {
								return Err(format!("{}: void/self-closed tag has an end tag", path));
							}
						} else if kb.end_tag.is_none() {
							return Err(format!("{}: element without an end tag", path));
						}
					}
					if let Some(e) = &kb.end_tag {
						let eb = e.borrow();
						if eb.node_type != NodeType::TagEnd {
							return Err(format!("{}: end tag is a {:?}", path, eb.node_type));
						}
						match eb.parent.as_ref().and_then(|w| w.upgrade()) {
							Some(pa) if Node::is_same(&pa, k) => {}
							_ => return Err(format!("{}: the end tag's parent is not its element", path)),
						}
					}
				}
				go(k, root, &path, need_root)?;
			}
		}
		Ok(())
	}
	if root.borrow().node_type == NodeType::AbstractRoot {
		let r = root.borrow().root.as_ref().and_then(|w| w.upgrade());
		match r {
			Some(r) if Node::is_same(&r, root) => {}
			_ => return Err("/: root link of the root".into()),
		}
		if root.borrow().parent.is_some() {
			return Err("/: the root has a parent".into());
		}
	}
	go(root, root, "", true)
}
