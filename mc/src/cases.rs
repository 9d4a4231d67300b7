// One function per property: judge one execution.

const TREEPOS: Facets = Facets { pos: true, ..TREE };
const NO_SPACES: Facets = Facets { spaces: false, flags: false, ..TREE };
const REPARSE: Facets = Facets { spaces: false, flags: false, merge: true, ..TREE };

fn err_fp(e: &rphtml::types::BoxDynError) -> u64 {
	match e.downcast_ref::<ParseError>() {
		Some(p) => fp(&(1u8, std::mem::discriminant(&p.kind))),
		None => 2,
	}
}
/// model accepts => the code must accept; where the model rejects: None
fn must_ok(cx: &Cx) -> Result<Option<DocHolder>, String> {
	if cx.m.res.is_err() {
		return Ok(None);
	}
	match imp(cx.s, cx.pm) {
		Ok(d) => Ok(Some(d)),
		r => Err(format!("must be accepted, but is {}", verdict(&r))),
	}
}

// ---- C01: nothing the caller can pass in makes the library panic or hang
fn c01(cx: &Cx) -> Result<u64, String> {
	let d = match imp(cx.s, cx.pm) {
		Ok(d) => d,
		Err(e) => {
			let _ = e.to_string();
			return Ok(err_fp(&e));
		}
	};
	let root = d.get_root_node();
	let sn = snap(&root);
	let big = sn.count() > 64;
	for rm in [0, MINIFY, MINIFY | DECODE, DECODE | RM_QUOTE, 0x1bf, INNER, INNER | MINIFY | DECODE] {
		if model::render(&sn, rm, false).is_some() {
			let _ = d.render(&ro(rm));
		}
		if model::render(&sn, rm, true).is_some() {
			let _ = d.render_text(&ro(rm));
		}
	}
	let _ = root.borrow().is_document();
	let _ = root.borrow().clone_node();
	let _ = d.get_element_by_id("x");
	if !big {
		let mut f = |n: &RefNode, m: &SN| -> Result<(), String> {
			let nb = n.borrow();
			for (rm, text) in [(0, false), (MINIFY | DECODE, false), (INNER, false), (0, true)] {
				if model::render(m, rm, text).is_some() {
					let _ = nb.build(&ro(rm), text);
				}
			}
			let _ = nb.is_document();
			let c = nb.clone_node();
			let _ = c.borrow().build(&ro(0), false);
			Ok(())
		};
		each_pair(&root, &sn, &mut f)?;
		let _ = format!("{:?}", root.borrow());
		let _ = (*root.borrow()).clone();
	}
	Ok(hash_sn(&sn))
}

// ---- forests: documents built together with the tree they spell
// aux = "forest:" + kinds; containers are followed by '(' children ')'
pub const LEAVES: &[char] = &['v', 'V', 't', 's', 'c', 'r', 'T', 'd'];
pub const CONTAINERS: &[char] = &['a', 'B', 'p', 'g'];

fn chars(s: &str) -> Chars {
	s.chars().collect()
}
fn at(k: Option<&str>, v: Option<&str>, q: Option<char>) -> At {
	At { key: k.map(chars), val: v.map(chars), quote: q }
}
/// (source of the start, content, source of the end, node)
fn spell(k: char) -> (&'static str, &'static str, &'static str, SN) {
	let mut n = SN::new(NodeType::Tag, 0, 0);
	let mut t = Tag::default();
	let (open, body, close): (&str, &str, &str) = match k {
		'a' => ("<a>", "", "</a>"),
		'B' => ("<Bc-d e=\"f g\" h i=j>", "", "</Bc-d >"),
		'p' => ("<pre k='\"'>", "", "</PRE>"),
		'g' => ("<svg>", "", "</svg>"),
		'v' => ("<br>", "", ""),
		'V' => ("<IMG src='' />", "", ""),
		't' => ("", " x\u{e9}\n &amp; y ", ""),
		's' => ("", " \n\t", ""),
		'c' => ("<!--", " - <a> --", "-->"),
		'r' => ("<script>", "if(a<b&&c>d)'</b>'", "</Script\n>"),
		'T' => ("<title z>", "", "</title>"),
		'd' => ("<!", "", ">"),
		_ => unreachable!(),
	};
	match k {
		't' => n.ty = NodeType::Text,
		's' => n.ty = NodeType::SpacesBetweenTag,
		'c' => n.ty = NodeType::Comment,
		'd' => n.ty = NodeType::HTMLDOCTYPE,
		_ => {}
	}
	if matches!(k, 't' | 's' | 'c' | 'r' | 'T') {
		n.content = Some(chars(body));
	}
	match k {
		'a' => t.name = chars("a"),
		'B' => {
			t.name = chars("Bc-d");
			t.attrs = vec![at(Some("e"), Some("f g"), Some('"')), at(Some("h"), None, None), at(Some("i"), Some("j"), None)];
		}
		'p' => {
			t.name = chars("pre");
			t.attrs = vec![at(Some("k"), Some("\""), Some('\''))];
		}
		'g' => t.name = chars("svg"),
		'v' => {
			t.name = chars("br");
			t.is_void = true;
		}
		'V' => {
			t.name = chars("IMG");
			t.attrs = vec![at(Some("src"), Some(""), Some('\''))];
			t.is_void = true;
			t.self_closed = true;
		}
		'r' => t.name = chars("script"),
		'T' => {
			t.name = chars("title");
			t.attrs = vec![at(Some("z"), None, None)];
		}
		'd' => {
			t.name = chars("DOCTYPE");
			t.attrs = vec![at(Some("html"), None, None), at(None, Some("-//W3C//DTD"), Some('"'))];
		}
		_ => {}
	}
	if k == 'd' {
		return ("<!DOCTYPE html \"-//W3C//DTD\"", "", ">", {
			n.tag = Some(t);
			n
		});
	}
	if n.ty == NodeType::Tag {
		if !close.is_empty() {
			let name: String = close[2..close.len() - 1].into();
			n.end = Some(EndT { content: chars(&name), b: 0, e: 0 });
		}
		n.tag = Some(t);
	}
	(open, body, close, n)
}

/// build source and tree (with the source positions) of a forest
pub fn forest(enc: &str) -> (String, SN) {
	fn kids(e: &[char], i: &mut usize, out: &mut String, pos: &mut usize, inside: bool) -> Vec<SN> {
		let mut v: Vec<SN> = vec![];
		fn put(out: &mut String, pos: &mut usize, s: &str) {
			out.push_str(s);
			*pos += s.chars().count();
		}
		while *i < e.len() && e[*i] != ')' {
			let (open, body, close, mut n) = spell(e[*i]);
			*i += 1;
			n.b = *pos;
			put(out, pos, open);
			n.e = *pos;
			put(out, pos, body);
			if *i < e.len() && e[*i] == '(' {
				*i += 1;
				n.kids = kids(e, i, out, pos, true);
				*i += 1;
			}
			let eb = *pos;
			put(out, pos, close);
			if n.ty != NodeType::Tag {
				n.e = *pos;
			}
			if let Some(x) = &mut n.end {
				x.b = eb;
				x.e = *pos;
			}
			v.push(n);
		}
		// spaces that are everything an element contains are its text
		if inside && v.len() == 1 && v[0].ty == NodeType::SpacesBetweenTag {
			v[0].ty = NodeType::Text;
		}
		v
	}
	let e: Chars = enc.chars().collect();
	let mut out = String::new();
	let mut pos = 0;
	let mut i = 0;
	let mut root = SN::new(NodeType::AbstractRoot, 0, 0);
	root.kids = kids(&e, &mut i, &mut out, &mut pos, false);
	root.e = pos;
	(out, root)
}
/// the tree this case must have: the constructed one where there is one (then the model is checked
/// against the construction too), else the model's
fn want_tree(cx: &Cx) -> Result<SN, String> {
	if let Some(enc) = cx.aux.strip_prefix("forest:") {
		let (src, root) = forest(enc);
		if src != cx.s {
			return Ok(mroot(cx).clone());
		}
		if let Some(d) = diff(&root, mroot(cx), TREEPOS) {
			panic!("the model disagrees with the construction: {}", d);
		}
		return Ok(root);
	}
	Ok(mroot(cx).clone())
}

// ---- C02 (and C11-C14): the tree is the one the markup spells
fn c02(cx: &Cx) -> Result<u64, String> {
	let d = match must_ok(cx)? {
		Some(d) => d,
		None => return Ok(0),
	};
	let t = tree_of(&d);
	same(&want_tree(cx)?, &t, TREE)?;
	Ok(hash_sn(&t))
}
/// as C02, and what must be rejected is rejected
fn c_tree(cx: &Cx) -> Result<u64, String> {
	let d = match accepted(cx)? {
		Some(d) => d,
		None => return Ok(1),
	};
	let t = tree_of(&d);
	same(mroot(cx), &t, TREE)?;
	Ok(hash_sn(&t))
}

// ---- C03: default rendering
fn c03(cx: &Cx) -> Result<u64, String> {
	let d = match both_ok(cx) {
		Some(d) => d,
		None => return Ok(0),
	};
	let out = d.render(&ro(0));
	if cx.aux.strip_prefix("forest:").map_or(false, |e| forest(e).0 == cx.s) {
		// canonical spelling: every character comes back
		expect_str("rendering", cx.s, &out)?;
	}
	let want = st(&model::render(mroot(cx), 0, false).unwrap());
	expect_str("rendering", &want, &out)?;
	// every element, comment, text .. renders as its part of that
	let root = d.get_root_node();
	let mut all = String::new();
	for k in root.borrow().childs.iter().flatten() {
		all.push_str(&node_text(&k.borrow(), 0, false));
	}
	expect_str("rendering of the parts", &want, &all)?;
	Ok(fp(&out))
}

// ---- C04: rendering is stable
fn c04(cx: &Cx) -> Result<u64, String> {
	let d = match both_ok(cx) {
		Some(d) => d,
		None => return Ok(0),
	};
	let out = d.render(&ro(0));
	let pm = cx.pm & (CASE | SELF);
	let d2 = match imp(&out, pm) {
		Ok(d) => d,
		Err(e) => return Err(format!("the rendering {:?} is rejected: {}", out, e)),
	};
	if let Some(x) = diff(&tree_of(&d), &tree_of(&d2), REPARSE) {
		return Err(format!("the rendering {:?} means something else: {}", out, x));
	}
	expect_str("second rendering", &out, &d2.render(&ro(0)))?;
	Ok(fp(&out))
}

// ---- C05: accepted or rejected
fn c05(cx: &Cx) -> Result<u64, String> {
	match (&cx.m.res, imp(cx.s, cx.pm)) {
		(Ok(m), Ok(_)) => Ok(2 + m.root.count() as u64),
		(Err(e), Err(_)) => Ok(fp(&(e.kind as u8))),
		(Ok(_), r) => Err(format!("must be accepted, but is {}", verdict(&r))),
		(Err(e), Ok(_)) => Err(format!("must be rejected ({:?}), but is accepted", e.kind)),
	}
}

// ---- C06: leniency never changes what needs none
fn c06(cx: &Cx) -> Result<u64, String> {
	let d = match imp(cx.s, cx.pm) {
		Ok(d) => d,
		Err(_) => return Ok(0),
	};
	let t = tree_of(&d);
	let r = d.render(&ro(0));
	let soft = EQ | SELF | UNCLOSED | UNEXP | LT;
	let long = cx.c.len() > 400;
	for m in all_masks(soft) {
		if m & cx.pm != 0 || m == 0 || (long && m.count_ones() != 1 && m | cx.pm | CASE != 63) {
			continue;
		}
		let pm = cx.pm | m;
		let d2 = match imp(cx.s, pm) {
			Ok(d) => d,
			Err(e) => return Err(format!("rejected once {} is set: {}", mask_names(m), e)),
		};
		if let Some(x) = diff(&t, &tree_of(&d2), TREEPOS) {
			return Err(format!("{} changes the result: {}", mask_names(m), x));
		}
		if d2.render(&ro(0)) != r {
			return Err(format!("{} changes the rendering", mask_names(m)));
		}
	}
	Ok(hash_sn(&t))
}

// ---- C07: auto_fix_unclosed_tag == the missing characters were there
fn c07(cx: &Cx) -> Result<u64, String> {
	let d = match must_ok(cx)? {
		Some(d) => d,
		None => {
			// what cannot be completed (an open comment, raw text, end tag ..) stays an error
			return if imp(cx.s, cx.pm).is_ok() { Err("accepted, though the source ends inside of a construct or is wrong before its end".into()) } else { Ok(0) };
		}
	};
	let t = tree_of(&d);
	// who is marked as fixed, the spelling of the added end tags
	same(mroot(cx), &t, TREE)?;
	let m = cx.m.doc().unwrap();
	if let Some(c) = &m.completion {
		let whole = format!("{}{}", cx.s, c);
		let d2 = match imp(&whole, cx.pm & !UNCLOSED) {
			Ok(d) => d,
			Err(e) => return Err(format!("the completed source {:?} is rejected: {}", whole, e)),
		};
		if let Some(x) = diff(&tree_of(&d2), &t, NO_SPACES) {
			return Err(format!("differs from the completed source {:?}: {}", whole, x));
		}
		expect_str("rendering (vs the completed source)", &d2.render(&ro(0)), &d.render(&ro(0)))?;
	}
	Ok(hash_sn(&t))
}

// ---- C08: auto_fix_unexpected_endtag == the stray end tags were not there
fn c08(cx: &Cx) -> Result<u64, String> {
	let d = match accepted(cx)? {
		Some(d) => d,
		None => return Ok(0),
	};
	let t = tree_of(&d);
	same(mroot(cx), &t, TREE)?;
	let m = cx.m.doc().unwrap();
	let mut keep = vec![true; cx.c.len()];
	let mut any = false;
	for e in &m.events {
		if let Ev::StrayEnd(b, e) = e {
			if *b > 0 && cx.c[*b - 1] == '<' {
				return Ok(1);
			}
			any = true;
			keep[*b..*e].iter_mut().for_each(|k| *k = false);
		}
	}
	if any {
		let cut: String = cx.c.iter().zip(&keep).filter(|x| *x.1).map(|x| *x.0).collect();
		let d2 = match imp(&cut, cx.pm & !UNEXP) {
			Ok(d) => d,
			Err(e) => return Err(format!("without the stray end tags, {:?}, rejected: {}", cut, e)),
		};
		if let Some(x) = diff(&tree_of(&d2), &t, TREE) {
			return Err(format!("differs from the source without the stray end tags {:?}: {}", cut, x));
		}
	}
	Ok(hash_sn(&t))
}

// ---- C09: auto_fix_unescaped_lt == the '<' was written as &lt;
fn c09(cx: &Cx) -> Result<u64, String> {
	let d = match accepted(cx)? {
		Some(d) => d,
		None => return Ok(0),
	};
	let t = tree_of(&d);
	same(mroot(cx), &t, TREE)?;
	let m = cx.m.doc().unwrap();
	let lts: Vec<usize> = m.events.iter().filter_map(|e| if let Ev::StrayLt(i) = e { Some(*i) } else { None }).collect();
	if !lts.is_empty() {
		let mut esc = String::new();
		for (i, c) in cx.c.iter().enumerate() {
			if lts.contains(&i) {
				esc.push_str("&lt;");
			} else {
				esc.push(*c);
			}
		}
		let d2 = match imp(&esc, cx.pm & !LT) {
			Ok(d) => d,
			Err(e) => return Err(format!("with the escapes written out, {:?}, rejected: {}", esc, e)),
		};
		if let Some(x) = diff(&tree_of(&d2), &t, TREE) {
			return Err(format!("differs from the source with the escapes written out {:?}: {}", esc, x));
		}
	}
	Ok(hash_sn(&t))
}

// ---- C10: attributes
fn c10(cx: &Cx) -> Result<u64, String> {
	let d = match accepted(cx)? {
		Some(d) => d,
		None => return Ok(0),
	};
	let t = tree_of(&d);
	same(mroot(cx), &t, TREE)?;
	each_pair(&d.get_root_node(), mroot(cx), &mut |n, m| {
		let nb = n.borrow();
		if let (Some(meta), Some(mt)) = (&nb.meta, &m.tag) {
			let meta = meta.borrow();
			let mut want: std::collections::BTreeMap<String, usize> = Default::default();
			for (i, a) in mt.attrs.iter().enumerate() {
				if let Some(k) = &a.key {
					want.entry(k.iter().map(|c| c.to_ascii_lowercase()).collect()).or_insert(i);
				}
			}
			let got: std::collections::BTreeMap<String, usize> = meta.lc_name_map.iter().map(|(k, v)| (k.clone(), *v)).collect();
			if want != got {
				return Err(format!("lc_name_map: expected {:?}, got {:?}", want, got));
			}
			let mut out = vec![];
			put_attrs(&mt.attrs, false, &mut out);
			expect_str("attrs_to_string", &st(&out), &st(&meta.attrs_to_string(false)))?;
		}
		Ok(())
	})?;
	Ok(hash_sn(&t))
}

// ---- C15: links
fn c15(cx: &Cx) -> Result<u64, String> {
	let d = match imp(cx.s, cx.pm) {
		Ok(d) => d,
		Err(_) => return Ok(0),
	};
	let root = d.get_root_node();
	links(&root)?;
	if !Node::is_same(&root, &d.get_root_node()) || !Node::is_same(&root, &d.borrow().root) {
		return Err("get_root_node returns different nodes".into());
	}
	let doc = root.borrow().document.as_ref().and_then(|w| w.upgrade());
	match doc {
		None => return Err("the root's document link is dead".into()),
		Some(x) => {
			if !std::ptr::eq(x.as_ptr() as *const Doc, &*d.borrow() as *const Doc) {
				return Err("the root's document link leads to another document".into());
			}
			let key = |o: &rphtml::config::ParseOptions| (o.case_sensitive_tagname, o.allow_attr_key_starts_with_equal_sign, o.allow_self_closing, o.auto_fix_unclosed_tag, o.auto_fix_unexpected_endtag, o.auto_fix_unescaped_lt);
			if key(&x.borrow().parse_options) != key(&po(cx.pm)) {
				return Err("the document does not know the options it has been parsed with".into());
			}
			// a handle made from the link is as good as the first one
			let h = DocHolder::from(x);
			if !Node::is_same(&root, &h.get_root_node()) || (cx.c.len() < 12 && h.render(&ro(0)) != d.render(&ro(0))) {
				return Err("a handle made from the root's document link shows another document".into());
			}
		}
	}
	let mut v = vec![];
	all_nodes(&root, &mut v);
	// no node occurs twice
	let mut ptrs: Vec<usize> = v.iter().map(|n| n.as_ptr() as *const Node as usize).collect();
	ptrs.sort_unstable();
	for w in ptrs.windows(2) {
		if w[0] == w[1] {
			return Err("a node occurs twice in the tree".into());
		}
	}
	Ok(hash_sn(&snap(&root)))
}

// ---- C16: source positions
fn c16(cx: &Cx) -> Result<u64, String> {
	let d = match both_ok(cx) {
		Some(d) => d,
		None => return Ok(0),
	};
	let t = tree_of(&d);
	same(mroot(cx), &t, Facets { pos: true, ..STRUCT })?;
	let m = cx.m.doc().unwrap();
	if t.b != 0 || t.e != cx.c.len() {
		return Err(format!("the root's span is {}..{} of {}", t.b, t.e, cx.c.len()));
	}
	if m.events.is_empty() {
		// the spans tile the source
		fn go(n: &SN, at: &mut usize, s: &[char]) -> Result<(), String> {
			if n.b != *at || n.e < n.b || n.e > s.len() {
				return Err(format!("a {:?} spans {}..{} where the source has been covered up to {}", n.ty, n.b, n.e, at));
			}
			*at = n.e;
			let src = &s[n.b..n.e];
			let ok = match n.ty {
				NodeType::Text | NodeType::SpacesBetweenTag => Some(src) == n.content.as_deref(),
				NodeType::Comment => st(src) == format!("<!--{}-->", st(n.content.as_deref().unwrap_or(&[]))),
				_ => src.first() == Some(&'<'),
			};
			if !ok {
				return Err(format!("a {:?} is {} in the source, its content {:?}", n.ty, show(src), n.content));
			}
			if let (NodeType::Tag, Some(c)) = (n.ty, &n.content) {
				if !s[*at..].starts_with(c) {
					return Err("the raw text does not follow its start tag".into());
				}
				*at += c.len();
			}
			for k in &n.kids {
				go(k, at, s)?;
			}
			if let Some(e) = &n.end {
				if e.b != *at || e.e < e.b || e.e > s.len() {
					return Err(format!("end tag spans {}..{} where the source has been covered up to {}", e.b, e.e, at));
				}
				*at = e.e;
			}
			Ok(())
		}
		let mut at = 0;
		for k in &t.kids {
			go(k, &mut at, cx.c)?;
		}
		if at != cx.c.len() {
			return Err(format!("the spans end at {} of {}", at, cx.c.len()));
		}
	}
	fn h(n: &SN, a: &mut u64) {
		*a = a.wrapping_mul(1099511628211).wrapping_add((n.b * 131 + n.e) as u64);
		n.kids.iter().for_each(|k| h(k, a));
	}
	let mut a = 7;
	h(&t, &mut a);
	Ok(a ^ (a >> 31))
}

// ---- C17: lookup by id
fn c17(cx: &Cx) -> Result<u64, String> {
	let d = match both_ok(cx) {
		Some(d) => d,
		None => return Ok(0),
	};
	let root = d.get_root_node();
	let mut carriers: Vec<(String, RefNode)> = vec![];
	let mut texts: Vec<String> = vec![];
	let mut nodes: Vec<RefNode> = vec![];
	let tree = mroot(cx);
	if let Some(x) = diff(tree, &snap(&root), STRUCT) {
		return Err(format!("tree: {}", x));
	}
	each_pair(&root, tree, &mut |n, m| {
		nodes.push(n.clone());
		for a in m.tag.iter().flat_map(|t| &t.attrs) {
			if let Some(v) = &a.val {
				texts.push(st(v));
				if a.key.as_ref().map_or(false, |k| lower(k) == "id") {
					carriers.push((st(v), n.clone()));
				}
			}
			if let Some(k) = &a.key {
				texts.push(st(k));
			}
		}
		if let Some(c) = &m.content {
			texts.push(st(c));
		}
		Ok(())
	})?;
	let mut n = 0u64;
	let mut who: std::collections::HashMap<&str, std::collections::HashSet<usize>> = Default::default();
	for (id, c) in &carriers {
		who.entry(id).or_default().insert(c.as_ptr() as usize);
	}
	for (id, c) in &who {
		let got = d.get_element_by_id(id).ok_or(format!("id {:?} is not found", id))?;
		if !c.contains(&(got.as_ptr() as usize)) {
			return Err(format!("id {:?} leads to a node that does not carry it", id));
		}
		n += 1;
	}
	for t in texts.iter().map(|s| s.as_str()).chain(["", "x", "X", "y", "id", "no", " x", "x "]) {
		if !who.contains_key(t) {
			if d.get_element_by_id(t).is_some() {
				return Err(format!("{:?} is nobody's id, but is found", t));
			}
		}
	}
	let _ = nodes;
	Ok(fp(&(n, carriers.iter().map(|c| c.0.clone()).collect::<Vec<_>>())))
}

// ---- C18: error kind and place
pub fn line_col(c: &[char], index: usize) -> (usize, usize) {
	let (mut line, mut col) = (1, 0);
	for (i, x) in c.iter().enumerate().take(index.saturating_add(1)) {
		match x {
			'\r' => {
				line += 1;
				col = 0
			}
			'\n' => {
				if !(i > 0 && c[i - 1] == '\r') {
					line += 1;
					col = 0
				}
			}
			_ => col += 1,
		}
	}
	(line, col)
}
fn kind_of(k: &ErrorKind) -> Option<K> {
	Some(match k {
		ErrorKind::WrongTag(_) => K::WrongTag,
		ErrorKind::WrongEndTag(_) => K::WrongEndTag,
		ErrorKind::WrongSelfClosing(_) => K::WrongSelfClosing,
		ErrorKind::WrongCaseSensitive(_) => K::WrongCaseSensitive,
		ErrorKind::UnrecognizedTag(..) => K::UnrecognizedTag,
		ErrorKind::WrongHtmlDoctype(_) => K::WrongHtmlDoctype,
		ErrorKind::CommonError(_) => K::CommonError,
		ErrorKind::UnclosedTag(_) => K::UnclosedTag,
		_ => return None,
	})
}
fn c18(cx: &Cx) -> Result<u64, String> {
	let want = match &cx.m.res {
		Ok(_) => return Ok(0),
		Err(e) => e,
	};
	let e = match imp(cx.s, cx.pm) {
		Ok(_) => return Err(format!("no error reported where the source is wrong ({:?})", want.kind)),
		Err(e) => e,
	};
	let text = e.to_string();
	let pe = e.downcast_ref::<ParseError>().ok_or(format!("not a ParseError: {}", text))?;
	if kind_of(&pe.kind) != Some(want.kind) {
		return Err(format!("error kind: expected {:?}, got {:?}", want.kind, pe.kind));
	}
	if let Some(name) = &want.name {
		let got = match &pe.kind {
			ErrorKind::WrongEndTag(n) | ErrorKind::WrongSelfClosing(n) | ErrorKind::WrongCaseSensitive(n) | ErrorKind::UnclosedTag(n) => n,
			_ => unreachable!(),
		};
		let (got, name) = (got.trim_end_matches(|c: char| c.is_ascii_whitespace()), st(name));
		if got != name {
			return Err(format!("the error {:?} is about {:?}, it must be about {:?}", want.kind, got, name));
		}
		if !text.contains(&name) {
			return Err(format!("the message {:?} does not name {:?}", text, name));
		}
	}
	let region = pe.region.to_string();
	if !text.starts_with(&region) || text.len() == region.len() {
		return Err(format!("the message {:?} does not give the place {:?} and the problem", text, region));
	}
	let num = |tag: &str| -> Option<usize> {
		let i = region.find(tag)? + tag.len();
		let r = &region[i..];
		r[..r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len())].parse().ok()
	};
	let (line, col, index) = match (num("line:"), num("col:"), num("index:")) {
		(Some(a), Some(b), Some(c)) => (a, b, c),
		_ => return Err(format!("no place in {:?}", region)),
	};
	match want.idx {
		Some(i) if i != index => return Err(format!("error place: expected index {}, got {} ({})", i, index, text)),
		_ => {}
	}
	if index > cx.c.len() {
		return Err(format!("error place {} outside of the source ({} characters)", index, cx.c.len()));
	}
	if line_col(cx.c, index) != (line, col) {
		return Err(format!("index {} is line/column {:?}, but {:?} is reported", index, line_col(cx.c, index), (line, col)));
	}
	Ok(fp(&(want.kind as u8, line, col, index)))
}

// ---- C19: parse_file. aux: "ok" | "crowd:<name>" | "rel" | "bytes:<hex>" | "missing" | "dir"
pub fn scratch() -> std::path::PathBuf {
	std::env::temp_dir().join(format!("mc-c19-{}", std::process::id()))
}
pub const SPECIAL_FILES: &[&str] = &["/dev/null", "/proc/version", "/proc/filesystems", "/proc/sys/kernel/ostype"];
/// file names
pub const PATHS: &[&[u8]] = &[
	b"a.html", b"a", b" a.html", b"a.html ", b"a b.html", b"\xc3\xa9.html", b"\xff\xfe.html", b"A.HTML", b"a.htm", b".a", b"a.", b"a..html", b"-a", b"~a", b"~", b"$HOME", b"%20.html", b"a%20b", b"\"a\"", b"a\nb", b"a?b=c", b"a#b", b"*", b"a\\b", b"C:", b"http:", b"file:", b"<a>", b"0", b"...", b"\xe2\x80\xa8.html", b"a\t", b"x.\xff", b"a.\xc3\xa9", b"\xff", b"\xff.\xff", b"a.b.c", b"a.html.", b"a.html~", b"a.html.gz", b"a.xhtml", b".html", b"..html", b"a.txt", b"a.html#", b"a:b", b"a;b", b"a&b", b"a|b", b"(a)", b"[a]", b"{a}", b"'a'", b"`a`", b"!a", b"@a", b"a,b", b"a=b", b"+a", b"\x01", b"\x7f", b"a\r", b"e\xcc\x81.html", b"\xf0\x9f\x98\x80", b"nul", b"con", b"stdin", b"-",
];
fn c19(cx: &Cx) -> Result<u64, String> {
	let dir = scratch();
	let dir = std::fs::create_dir_all(&dir).map(|_| dir.canonicalize().unwrap()).unwrap();
	let name = format!("f{:?}.html", std::thread::current().id()).replace(['(', ')'], "_");
	let path = dir.join(&name);
	let kind = cx.aux.split(':').next().unwrap_or("");
	let expect_io = |p: &std::path::Path, what: &str| -> Result<u64, String> {
		match catch_unwind(AssertUnwindSafe(|| Doc::parse_file(p, po(cx.pm)).map(|_| ()))) {
			Err(_) => Err(format!("{}: panicked: {}", what, last_panic())),
			Ok(Ok(())) => Err(format!("{}: accepted", what)),
			Ok(Err(e)) => {
				if e.downcast_ref::<ParseError>().is_some() {
					return Err(format!("{}: reported as a parse error: {}", what, e));
				}
				Ok(fp(&(what, e.to_string().len() > 0)))
			}
		}
	};
	let res = match kind {
		"missing" => expect_io(&dir.join("no").join("such.html"), "a missing file"),
		"missingrel" => expect_io(std::path::Path::new("mc-no-such-file.html"), "a missing file, relative path"),
		"empty" => expect_io(std::path::Path::new(""), "an empty path"),
		"dir" => expect_io(&dir, "a directory"),
		"reldir" => expect_io(std::path::Path::new("."), "a directory, relative path"),
		"dangling" | "linkdir" | "loop" => {
			let to = match kind {
				"dangling" => dir.join("mc-nowhere"),
				"linkdir" => dir.clone(),
				_ => path.clone(),
			};
			std::os::unix::fs::symlink(to, &path).unwrap();
			expect_io(&path, kind).and_then(|_| expect_io(std::path::Path::new(&name), kind))
		}
		"slash" => {
			std::fs::write(&path, "x").unwrap();
			expect_io(&path.join(""), "a file with a slash behind").and_then(|_| expect_io(&path.join("x"), "below a file"))
		}
		"special" => {
			// files that do not tell their size
			let p = std::path::Path::new(SPECIAL_FILES[cx.aux[8..].parse::<usize>().unwrap()]);
			match std::fs::read_to_string(p) {
				Ok(s) => same_as_string(&s, cx.pm, p),
				Err(_) => Ok(0),
			}
		}
		"bytes" => {
			let hex = &cx.aux[6..];
			let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
			std::fs::write(&path, &bytes).unwrap();
			match String::from_utf8(bytes) {
				Err(_) => expect_io(&path, "a file that is not UTF-8"),
				Ok(s) => same_as_string(&s, cx.pm, &path),
			}
		}
		"big" => {
			// "big:size:place of a bad byte, or -:character"
			let a: Vec<&str> = cx.aux.split(':').collect();
			let n: usize = a[1].parse().unwrap();
			let mut s = "<p>".to_string();
			let unit = if a[3] == "n" { "y\n" } else { "x" };
			s.push_str(&unit.repeat((n - 7) / unit.len()));
			while s.len() < n - 4 {
				s.push('z');
			}
			s.push_str("</p>");
			let mut b = s.clone().into_bytes();
			match a[2].parse::<usize>() {
				Ok(at) => {
					let l = b.len() - 1;
					b[at.min(l)] = 0xff;
					std::fs::write(&path, &b).unwrap();
					expect_io(&path, "a big file that is not UTF-8").and_then(|_| expect_io(std::path::Path::new(&name), "a big file that is not UTF-8"))
				}
				Err(_) => {
					if a[3] == "e" {
						let at = s.len() - 6;
						s.replace_range(at..at + 2, "é");
					}
					std::fs::write(&path, &s).unwrap();
					same_as_string(&s, cx.pm, &path)
				}
			}
		}
		"path" => {
			use std::os::unix::ffi::OsStrExt;
			let sub = dir.join(format!("d{}", name));
			let _ = std::fs::create_dir_all(&sub);
			let file = std::ffi::OsStr::from_bytes(PATHS[cx.aux[5..].parse::<usize>().unwrap()]);
			let p = sub.join(file);
			std::fs::write(&p, cx.s).unwrap();
			let rel = std::path::Path::new(sub.file_name().unwrap()).join(file);
			let link = sub.join("link.html");
			let _ = std::fs::remove_file(&link);
			std::os::unix::fs::symlink(&p, &link).unwrap();
			let r = same_as_string(cx.s, cx.pm, &p)
				.and_then(|_| same_as_string(cx.s, cx.pm, &rel))
				.and_then(|_| same_as_string(cx.s, cx.pm, &sub.join(".").join("..").join(sub.file_name().unwrap()).join(file)))
				.and_then(|_| same_as_string(cx.s, cx.pm, &link));
			let _ = std::fs::remove_dir_all(&sub);
			r
		}
		"crowd" => {
			// all the names with contents of their own, one of them after the other missing
			use std::os::unix::ffi::OsStrExt;
			let sub = dir.join(format!("d{}", name));
			let _ = std::fs::create_dir_all(&sub);
			let k = cx.aux[6..].parse::<usize>().unwrap();
			let me = PATHS[k];
			let mut all: Vec<Vec<u8>> = PATHS.iter().map(|p| p.to_vec()).collect();
			for x in [&b".html"[..], b".htm", b".txt", b".", b" ", b"~", b".gz", b".bak", b".orig", b"x"] {
				all.push([me, x].concat());
			}
			let at = me.iter().rposition(|b| *b == b'.').unwrap_or(me.len());
			for x in [&b""[..], b".html", b".htm", b".xhtml", b".HTML", b".txt"] {
				all.push([&me[..at], x].concat());
			}
			for x in [&b"."[..], b"_", b"~", b"index", b"x"] {
				all.push([x, me].concat());
			}
			all.push(me.to_ascii_lowercase());
			all.push(me.to_ascii_uppercase());
			all.push(me[1..].to_vec());
			all.push(me[..me.len() - 1].to_vec());
			all.push(b"index.html".to_vec());
			all.retain(|p| !p.is_empty() && p != b"." && p != b".." && p != me && !p.contains(&b'/'));
			for (i, p) in all.iter().enumerate() {
				std::fs::write(sub.join(std::ffi::OsStr::from_bytes(p)), format!("<b>{}</b>", i)).unwrap();
			}
			let file = std::ffi::OsStr::from_bytes(me);
			let (p, rel) = (sub.join(file), std::path::Path::new(sub.file_name().unwrap()).join(file));
			let r = expect_io(&p, "a missing file among others").and_then(|_| expect_io(&rel, "a missing file among others, relative path")).and_then(|_| {
				let s = "<a>me</a>";
				std::fs::write(&p, s).unwrap();
				same_as_string(s, cx.pm, &p).and_then(|_| same_as_string(s, cx.pm, &rel)).and_then(|h| {
					std::fs::remove_file(&p).unwrap();
					expect_io(&p, "a removed file").and_then(|_| {
						std::fs::write(&p, "<i>new").unwrap();
						same_as_string("<i>new", cx.pm, &p).and_then(|_| same_as_string("<i>new", cx.pm, &rel)).map(|_| h)
					})
				})
			});
			let _ = std::fs::remove_dir_all(&sub);
			r
		}
		"rel" => {
			std::fs::write(&path, cx.s).unwrap();
			same_as_string(cx.s, cx.pm, std::path::Path::new(&name)).and_then(|h| {
				let r = std::path::Path::new(".").join("..").join(dir.file_name().unwrap()).join(&name);
				same_as_string(cx.s, cx.pm, &r).map(|_| h)
			})
		}
		_ => {
			std::fs::write(&path, cx.s).unwrap();
			let r = same_as_string(cx.s, cx.pm, &path);
			if r.is_ok() && std::fs::read(&path).unwrap() != cx.s.as_bytes() {
				Err("the file has been changed".into())
			} else {
				r
			}
		}
	};
	let _ = std::fs::remove_file(&path);
	res
}
fn same_as_string(s: &str, pm: u8, path: &std::path::Path) -> Result<u64, String> {
	let a = imp(s, pm);
	let b = Doc::parse_file(path, po(pm));
	match (a, b) {
		(Ok(a), Ok(b)) => {
			let (ta, tb) = (tree_of(&a), tree_of(&b));
			if let Some(d) = diff(&ta, &tb, TREEPOS) {
				return Err(format!("the file parses differently from its content: {}", d));
			}
			expect_str("rendering of the file (vs of its content)", &a.render(&ro(0)), &b.render(&ro(0)))?;
			Ok(hash_sn(&ta))
		}
		(Err(a), Err(b)) => {
			expect_str("error for the file (vs for its content)", &a.to_string(), &b.to_string())?;
			Ok(err_fp(&a))
		}
		(a, b) => Err(format!("the content is {}, the file is {}", verdict(&a), verdict(&b))),
	}
}

// ---- rendering with options, judged against the model's tree (end to end)
fn render_masks(cx: &Cx, d: &DocHolder, masks: &[u16]) -> Result<u64, String> {
	let mut h = 0u64;
	for &rm in masks {
		let want = st(&model::render(mroot(cx), rm, false).unwrap());
		let got = d.render(&ro(rm));
		if want != got {
			return Err(format!("rendering with {}: expected {:?}, got {:?}", rnames(rm), want, got));
		}
		h = h.wrapping_mul(31).wrapping_add(fp(&got));
	}
	Ok(h)
}
/// every set of render options which the filter keeps: html, inner html and text of the document
fn render_all(cx: &Cx, d: &DocHolder, keep: fn(u16) -> bool) -> Result<u64, String> {
	let mut h = 0u64;
	for rm in (0..512u16).filter(|m| keep(*m)) {
		for text in [false, true] {
			let want = match model::render(mroot(cx), rm, text) {
				Some(c) => st(&c),
				None => continue,
			};
			let got = if text { d.render_text(&ro(rm)) } else { d.render(&ro(rm)) };
			if want != got {
				return Err(format!("rendering{} with {}: expected {:?}, got {:?}", if text { " of the text" } else { "" }, rnames(rm), want, got));
			}
			h = h.wrapping_mul(31).wrapping_add(fp(&got));
		}
	}
	Ok(h)
}
pub fn rnames(rm: u16) -> String {
	let n = ["minify_spaces", "lowercase_tagname", "remove_endtag_space", "remove_attr_quote", "remove_comment", "always_close_void", "inner_html", "decode_entity", "encode_content"];
	let v: Vec<&str> = (0..9).filter(|b| rm & (1 << b) != 0).map(|b| n[b]).collect();
	if v.is_empty() {
		"default".into()
	} else {
		v.join("+")
	}
}
fn all_render(bits: u16) -> Vec<u16> {
	(0..512u16).filter(|m| m & !bits == 0).collect()
}

// ---- C20: minify_spaces
fn c20(cx: &Cx) -> Result<u64, String> {
	let d = match both_ok(cx) {
		Some(d) => d,
		None => return Ok(0),
	};
	if cx.aux == "all" {
		return render_all(cx, &d, |m| m & MINIFY != 0);
	}
	let h = render_masks(cx, &d, &[MINIFY, MINIFY | DECODE, MINIFY | RM_COMMENT, MINIFY | LOWER | RM_END_SPACE | CLOSE_VOID | ENCODE])?;
	// idempotent as a whole: minifying the minified document changes nothing but what was newly joined
	let out = d.render(&ro(MINIFY));
	let plain = d.render(&ro(0));
	let bare = |s: &str| -> String { s.chars().filter(|c| !c.is_ascii_whitespace()).collect() };
	if bare(&out) != bare(&plain) {
		return Err(format!("minify_spaces changed more than whitespace: {:?} -> {:?}", plain, out));
	}
	if out.chars().count() > plain.chars().count() {
		return Err("minify_spaces made the document longer".into());
	}
	Ok(h)
}

/// a node without its children
fn bare(n: &SN) -> SN {
	SN { ty: n.ty, b: n.b, e: n.e, tag: n.tag.clone(), content: n.content.clone(), kids: vec![], end: n.end.clone() }
}

// ---- C21: the options about tags, all combinations
fn strip(n: &SN, rm: u16) -> SN {
	let mut r = bare(n);
	if let Some(t) = &mut r.tag {
		if rm & LOWER != 0 && n.ty == NodeType::Tag {
			t.name.iter_mut().for_each(|c| *c = c.to_ascii_lowercase());
		}
		if rm & RM_QUOTE != 0 {
			t.attrs.iter_mut().for_each(|a| a.quote = None);
		}
	}
	if let Some(e) = &mut r.end {
		if rm & LOWER != 0 {
			e.content.iter_mut().for_each(|c| *c = c.to_ascii_lowercase());
		}
		if rm & RM_END_SPACE != 0 {
			while e.content.last().map_or(false, |c| c.is_ascii_whitespace()) {
				e.content.pop();
			}
		}
	}
	r.kids = n.kids.iter().filter(|k| !(rm & RM_COMMENT != 0 && k.ty == NodeType::Comment)).map(|k| strip(k, rm)).collect();
	r
}
fn has_cdata(n: &SN) -> bool {
	n.ty == NodeType::XMLCDATA || n.kids.iter().any(has_cdata)
}
fn c21(cx: &Cx) -> Result<u64, String> {
	let d = match both_ok(cx) {
		Some(d) => d,
		None => return Ok(0),
	};
	if cx.aux == "all" {
		return render_all(cx, &d, |_| true);
	}
	let mut masks = all_render(LOWER | RM_END_SPACE | RM_QUOTE | RM_COMMENT | CLOSE_VOID);
	if cx.c.len() > 250 {
		masks.retain(|m| m.count_ones() == 1 || m.count_ones() == 5);
	}
	let h = render_masks(cx, &d, &masks)?;
	if cx.pm & EQ == 0 {
		for rm in [LOWER, RM_END_SPACE, RM_QUOTE, RM_COMMENT, CLOSE_VOID, LOWER | RM_END_SPACE | RM_QUOTE | RM_COMMENT | CLOSE_VOID] {
			if rm & LOWER != 0 && has_cdata(mroot(cx)) {
				continue;
			}
			let out = d.render(&ro(rm));
			let d2 = imp(&out, cx.pm & (CASE | SELF)).map_err(|e| format!("the output with {}, {:?}, is rejected: {}", rnames(rm), out, e))?;
			let mut got = tree_of(&d2);
			if rm & RM_QUOTE != 0 {
				got = strip(&got, RM_QUOTE);
			}
			if let Some(x) = diff(&strip(mroot(cx), rm), &got, REPARSE) {
				return Err(format!("the output with {}, {:?}, means something else: {}", rnames(rm), out, x));
			}
		}
	}
	Ok(h)
}

// ---- C22: inner html and text
fn c22(cx: &Cx) -> Result<u64, String> {
	let d = match both_ok(cx) {
		Some(d) => d,
		None => return Ok(0),
	};
	let root = d.get_root_node();
	if let Some(x) = diff(mroot(cx), &snap(&root), STRUCT) {
		return Err(format!("tree: {}", x));
	}
	let mut h = 0u64;
	let mut judge = |n: &RefNode, m: &SN, is_doc: bool| -> Result<(), String> {
		let some = [0, MINIFY, RM_COMMENT, DECODE, LOWER | RM_END_SPACE | RM_QUOTE | CLOSE_VOID | ENCODE];
		let masks = if cx.aux == "all" { all_render(0x1ff & !INNER) } else { some.to_vec() };
		for rm in masks {
			for (rm, text) in [(rm, false), (rm | INNER, false), (rm, true), (rm | INNER, true)] {
				if is_doc && rm & INNER == 0 && !text {
					continue;
				}
				let want = model::render(m, rm, text).map(|c| st(&c));
				let what = || format!("{} of a {:?} with {}", if text { "text" } else if rm & INNER != 0 { "inner html" } else { "html" }, m.ty, rnames(rm));
				let call = || {
					if is_doc {
						if text {
							d.render_text(&ro(rm))
						} else {
							d.render(&ro(rm))
						}
					} else {
						node_text(&n.borrow(), rm, text)
					}
				};
				match want {
					Some(w) => {
						let g = call();
						if w != g {
							return Err(format!("{}: expected {:?}, got {:?}", what(), w, g));
						}
						h = h.wrapping_mul(31).wrapping_add(fp(&g));
					}
					None => {
						// only the pure misuse, once
						if rm & !INNER == 0 {
							if let Ok(g) = catch_unwind(AssertUnwindSafe(call)) {
								return Err(format!("{}: must be refused, but gives {:?}", what(), g));
							}
						}
					}
				}
			}
		}
		Ok(())
	};
	judge(&root, mroot(cx), true)?;
	// of a big document the first and the last nodes, or it takes quadratic time
	let (total, mut at) = (mroot(cx).count(), 0);
	each_pair(&root, mroot(cx), &mut |n, m| {
		at += 1;
		if total > 200 && at > 10 && at + 10 < total {
			return Ok(());
		}
		judge(n, m, false)
	})?;
	Ok(h)
}

// ---- C23: entities
fn c23(cx: &Cx) -> Result<u64, String> {
	let d = match both_ok(cx) {
		Some(d) => d,
		None => return Ok(0),
	};
	if cx.aux == "all" {
		return render_all(cx, &d, |m| m & (DECODE | ENCODE) != 0);
	}
	let h = render_masks(cx, &d, &[DECODE, ENCODE, DECODE | ENCODE, DECODE | MINIFY, ENCODE | MINIFY, DECODE | ENCODE | LOWER | RM_QUOTE])?;
	// encoding loses nothing: reading the encoded title/textarea back gives the original characters
	let out = d.render(&ro(ENCODE));
	if let Ok(d2) = imp(&out, cx.pm & (CASE | SELF)) {
		let (a, b) = (mroot(cx), tree_of(&d2));
		fn raws(n: &SN, v: &mut Vec<Chars>) {
			if let Some(t) = &n.tag {
				if n.ty == NodeType::Tag && matches!(lower(&t.name).as_str(), "title" | "textarea") {
					v.push(n.content.clone().unwrap_or_default());
				}
			}
			n.kids.iter().for_each(|k| raws(k, v));
		}
		let (mut va, mut vb) = (vec![], vec![]);
		raws(a, &mut va);
		raws(&b, &mut vb);
		if va.len() != vb.len() {
			return Err(format!("encode_content changed the number of title/textarea elements: {:?}", out));
		}
		for (x, y) in va.iter().zip(&vb) {
			if y.iter().any(|c| matches!(c, '<' | '>')) {
				return Err(format!("encode_content left a '<' or '>' in {}", show(y)));
			}
			// entities that were spelled before are spelled as text now, so only one level is undone
			let back = model::decode(y);
			if &back != x {
				return Err(format!("encode_content: {} became {}", show(x), show(y)));
			}
		}
	}
	Ok(h)
}

// ---- C24: clone
fn shifted(n: &SN, by: usize) -> SN {
	let mut r = bare(n);
	r.b = r.b.saturating_sub(by);
	r.e = r.e.saturating_sub(by);
	if let Some(e) = &mut r.end {
		e.b = e.b.saturating_sub(by);
		e.e = e.e.saturating_sub(by);
	}
	r.kids = n.kids.iter().map(|k| shifted(k, by)).collect();
	r
}
fn clone_links(n: &RefNode, p: &str) -> Result<(), String> {
	let nb = n.borrow();
	if let Some(e) = &nb.end_tag {
		match e.borrow().parent.as_ref().and_then(|w| w.upgrade()) {
			Some(x) if Node::is_same(&x, n) => {}
			_ => return Err(format!("{}: end tag of the copy belongs to another node", p)),
		}
	}
	let mut prev: Option<&RefNode> = None;
	for (i, k) in nb.childs.iter().flatten().enumerate() {
		let path = format!("{}/{}", p, i);
		let kb = k.borrow();
		if kb.index != i {
			return Err(format!("{}: index {} in the copy", path, kb.index));
		}
		match kb.parent.as_ref().and_then(|w| w.upgrade()) {
			Some(x) if Node::is_same(&x, n) => {}
			_ => return Err(format!("{}: the parent in the copy is not the copied parent", path)),
		}
		match (prev, kb.prev.as_ref().and_then(|w| w.upgrade())) {
			(Some(a), Some(b)) if !Node::is_same(a, &b) => return Err(format!("{}: prev link leads elsewhere", path)),
			(None, Some(_)) => return Err(format!("{}: the first child has a previous node", path)),
			_ => {}
		}
		prev = Some(k);
		drop(kb);
		clone_links(k, &path)?;
	}
	Ok(())
}
/// change everything that can be changed in a subtree
fn vandalise(n: &RefNode) {
	let kids = n.borrow_mut().childs.take().unwrap_or_default();
	for k in &kids {
		vandalise(k);
	}
	let end = n.borrow().end_tag.clone();
	if let Some(e) = end {
		e.borrow_mut().content = Some(chars("zz"));
		e.borrow_mut().begin_at += 7;
	}
	let mut nb = n.borrow_mut();
	if let Some(c) = &mut nb.content {
		c.push('!');
		c.insert(0, '?');
	}
	if let Some(m) = &nb.meta {
		let mut m = m.borrow_mut();
		m.name.push('z');
		for a in m.attrs.iter_mut() {
			if let Some(v) = &mut a.value {
				v.content.push('!');
			}
			if let Some(k) = &mut a.key {
				k.content.push('!');
			}
			a.quote = None;
		}
		m.attrs.push(Attr::default());
		m.lc_name_map.insert("zz".into(), 9);
		m.self_closed = !m.self_closed;
	}
	nb.begin_at += 3;
	nb.end_at += 5;
	nb.index += 1;
}
fn c24(cx: &Cx) -> Result<u64, String> {
	let d = match imp(cx.s, cx.pm) {
		Ok(d) => d,
		Err(_) => return Ok(0),
	};
	let root = d.get_root_node();
	if let Some(x) = cx.aux.strip_prefix('@') {
		for s in x.split(';') {
			let (a, b) = s.split_once('.').unwrap();
			pedit(&root, a.parse().unwrap(), b.parse().unwrap());
		}
		return edited_clones(&root);
	}
	let before = snap(&root);
	let mut nodes = vec![];
	all_nodes(&root, &mut nodes);
	if nodes.len() > 40 {
		let few = if nodes.len() > 5000 { 1 } else { 3 };
		let tail = nodes.split_off(nodes.len() - 2);
		nodes.truncate(few);
		nodes.extend(tail);
	}
	let outs = |n: &Node| -> Vec<String> {
		let mut v: Vec<String> = [0, MINIFY | DECODE, LOWER | RM_QUOTE | CLOSE_VOID | RM_END_SPACE, RM_COMMENT | ENCODE].iter().map(|r| node_text(n, *r, false)).collect();
		if n.node_type == NodeType::Tag {
			v.push(node_text(n, INNER, false));
		}
		if matches!(n.node_type, NodeType::Tag | NodeType::Comment | NodeType::XMLCDATA) {
			v.push(node_text(n, 0, true));
		}
		v
	};
	let has_content = |n: &RefNode| -> Vec<bool> {
		let mut v = vec![];
		all_nodes(n, &mut v);
		v.iter().map(|n| n.borrow().content.is_some()).collect()
	};
	let maps = |n: &RefNode| -> Vec<Vec<(String, usize)>> {
		let mut v = vec![];
		all_nodes(n, &mut v);
		v.iter()
			.map(|n| {
				let mut m: Vec<_> = n.borrow().meta.as_ref().map_or(vec![], |m| m.borrow().lc_name_map.iter().map(|(k, v)| (k.clone(), *v)).collect());
				m.sort();
				m
			})
			.collect()
	};
	let mut h = hash_sn(&before);
	for n in &nodes {
		let orig = snap(n);
		let html = outs(&n.borrow());
		let copy = n.borrow().clone_node();
		let want = shifted(&orig, orig.b);
		if let Some(x) = diff(&want, &snap(&copy), TREEPOS) {
			return Err(format!("the copy of a {:?} differs: {}", orig.ty, x));
		}
		if has_content(n) != has_content(&copy) {
			return Err(format!("the copy of a {:?}: content is there in one of them only", orig.ty));
		}
		if outs(&copy.borrow()) != html {
			return Err(format!("the copy of a {:?} renders differently: {:?} vs {:?}", orig.ty, outs(&copy.borrow()), html));
		}
		if maps(n) != maps(&copy) {
			return Err("lc_name_map differs in the copy".into());
		}
		if copy.borrow().parent.is_some() || copy.borrow().index != 0 || copy.borrow().prev.is_some() {
			return Err("the copy is attached to something".into());
		}
		clone_links(&copy, "")?;
		let plain: Node = (*n.borrow()).clone();
		if let Some(x) = diff(&want, &snap_node(&plain), TREEPOS) {
			return Err(format!("Node::clone differs: {}", x));
		}
		if outs(&plain) != html {
			return Err("Node::clone renders differently".into());
		}
		// copy of the copy
		let again = copy.borrow().clone_node();
		if let Some(x) = diff(&want, &snap(&again), TREEPOS) {
			return Err(format!("the copy of the copy differs: {}", x));
		}
		// nothing is shared
		vandalise(&copy);
		if let Some(x) = diff(&before, &snap(&root), TREEPOS) {
			return Err(format!("changing the copy of a {:?} changed the original: {}", orig.ty, x));
		}
		if let Some(x) = diff(&want, &snap(&again), TREEPOS) {
			return Err(format!("changing a copy changed its copy: {}", x));
		}
		if outs(&n.borrow()) != html || links(&root).is_err() {
			return Err(format!("changing the copy of a {:?} changed the original", orig.ty));
		}
		h = h.wrapping_add(fp(&html));
	}
	// and the other way round
	let copies: Vec<(RefNode, SN)> = nodes.iter().map(|n| n.borrow().clone_node()).map(|c| { let s = snap(&c); (c, s) }).collect();
	vandalise(&root);
	for (c, s) in &copies {
		if let Some(x) = diff(s, &snap(c), TREEPOS) {
			return Err(format!("changing the original changed the copy: {}", x));
		}
	}
	drop(d);
	for (c, s) in &copies {
		if let Some(x) = diff(s, &snap(c), TREEPOS) {
			return Err(format!("dropping the document changed the copy: {}", x));
		}
	}
	Ok(h)
}

// ---- C25: is_document
fn c25(cx: &Cx) -> Result<u64, String> {
	let d = match both_ok(cx) {
		Some(d) => d,
		None => return Ok(0),
	};
	let t = mroot(cx);
	let html = |k: &SN| k.tag.as_ref().map_or(false, |t| k.ty == NodeType::Tag && lower(&t.name) == "html");
	let is_doc = t.kids.iter().any(html);
	let tags = t.kids.iter().filter(|k| k.ty == NodeType::Tag).count();
	let clean = t.kids.iter().all(|k| matches!(k.ty, NodeType::Comment | NodeType::SpacesBetweenTag | NodeType::HTMLDOCTYPE) || html(k));
	let want = (is_doc, !is_doc || (clean && tags == 1));
	let root = d.get_root_node();
	let got = root.borrow().is_document();
	if want != got {
		return Err(format!("is_document: expected {:?}, got {:?}", want, got));
	}
	let cl = root.borrow().clone_node();
	if cl.borrow().is_document() != want {
		return Err("is_document of a copy of the root differs".into());
	}
	let mut v = vec![];
	all_nodes(&root, &mut v);
	for n in v.iter().skip(1) {
		if n.borrow().is_document() != (false, true) {
			return Err(format!("is_document of a {:?} is {:?}", n.borrow().node_type, n.borrow().is_document()));
		}
	}
	Ok(fp(&(want, tags)))
}

// ---- C26: nothing a caller does with a document changes it, or anything else
// aux: the history, one letter per operation
pub const HOPS: &[char] = &['r', 'm', 't', 'i', 'c', 'v', 'l', 'd', 'p', 'e', 's', 'k', 'o', 'n', 'h', 'y'];
fn c26(cx: &Cx) -> Result<u64, String> {
	if let Some(x) = cx.aux.strip_prefix('\u{1}') {
		// the result must be what the model says, whatever has been parsed just before
		let first = imp(&x[1..], if &x[..1] == "0" { 0 } else { 63 });
		if let Ok(d) = &first {
			let _ = d.render(&ro(0x1bf));
		}
		if x.len() % 2 == 0 {
			drop(first);
		}
		return match (imp(cx.s, cx.pm), &cx.m.res) {
			(Ok(d), Ok(_)) => {
				same(mroot(cx), &tree_of(&d), TREEPOS).map_err(|e| format!("after parsing {:?}: {}", &x[1..], e))?;
				expect_str("rendering", &st(&model::render(mroot(cx), 0, false).unwrap()), &d.render(&ro(0)))?;
				links(&d.get_root_node())?;
				Ok(hash_sn(mroot(cx)))
			}
			(Err(e), Err(_)) => Ok(fp(&e.to_string())),
			(r, _) => Err(format!("after parsing {:?}: {}", &x[1..], verdict(&r))),
		};
	}
	if let Some(x) = cx.aux.strip_prefix('\u{2}') {
		return c26_pair(cx, x);
	}
	let d = match imp(cx.s, cx.pm) {
		Ok(d) => d,
		Err(_) => return Ok(0),
	};
	let root = d.get_root_node();
	let t0 = snap(&root);
	// what the user has got hold of stays alive
	let held: std::cell::RefCell<Vec<RefNode>> = std::cell::RefCell::new(vec![]);
	let hold = |n: &RefNode| {
		if held.borrow().len() < 4096 {
			held.borrow_mut().push(n.clone());
		}
	};
	let op = |d: &DocHolder, o: char| -> String {
		let root = d.get_root_node();
		let sn = snap(&root);
		match o {
			'r' => d.render(&ro(0)),
			'm' => d.render(&ro(0x1bf)),
			't' => {
				if model::render(&sn, 0, true).is_some() {
					d.render_text(&ro(MINIFY))
				} else {
					"-".into()
				}
			}
			'i' => {
				if model::render(&sn, INNER, false).is_some() {
					d.render(&ro(INNER))
				} else {
					"-".into()
				}
			}
			'c' => {
				let c = root.borrow().clone_node();
				let x = node_text(&c.borrow(), 0, false);
				hold(&c);
				x
			}
			'v' => {
				let c = root.borrow().clone_node();
				vandalise(&c);
				String::new()
			}
			'l' => ["x", "", "no", "b", "X"].iter().map(|id| format!("{:?}", d.get_element_by_id(id).map(|n| {
				hold(&n);
				node_text(&n.borrow(), 0, false)
			}))).collect(),
			'M' => (0..512u16).filter(|m| m & INNER == 0 || model::render(&sn, INNER, false).is_some()).map(|m| d.render(&ro(m))).collect(),
			'T' => {
				let doc = model::render(&sn, 0, true).is_some();
				let mut v = vec![];
				all_nodes(&root, &mut v);
				(0..512u16)
					.filter(|m| m & INNER == 0)
					.map(|m| {
						let mut t = if doc { d.render_text(&ro(m)) } else { String::new() };
						for n in v.iter().filter(|n| matches!(n.borrow().node_type, NodeType::Tag | NodeType::Comment | NodeType::XMLCDATA)) {
							t.push_str(&node_text(&n.borrow(), m, true));
						}
						t
					})
					.collect()
			}
			'd' => format!("{:?}", root.borrow().is_document()),
			'p' => {
				// another document comes and goes
				let o = imp("<svg><p id=x>z<title>&lt;</title><br></p></svg><!--q-->", SELF).unwrap();
				o.render(&ro(0))
			}
			'e' => format!("{:?}", ["<svg><a><![CDATA[", "<script>x", "<a b=\"c", "</a>", "<!--", "<a x=1 <", "a<"].map(|s| imp(s, 0).err().map(|e| e.to_string()))),
			'o' => {
				// the same source under other options
				[0, 63, CASE, FIXES | SELF]
					.map(|m| match imp(cx.s, m) {
						Ok(o) => o.render(&ro(0)),
						Err(e) => e.to_string(),
					})
					.join("\n")
			}
			'n' => {
				// every node on its own, and its debug output
				let mut v = vec![];
				all_nodes(&root, &mut v);
				v.iter().for_each(hold);
				v.iter().map(|n| node_text(&n.borrow(), MINIFY | RM_QUOTE, false) + &format!("{:?}", n.borrow().meta.as_ref().map(|m| m.borrow().name.len()))).collect()
			}
			'y' => {
				// misuse, which panics, is caught
				let a = catch_unwind(AssertUnwindSafe(|| root.borrow().build(&ro(INNER), true))).is_err();
				let b = catch_unwind(AssertUnwindSafe(|| d.render_text(&ro(INNER)))).is_err();
				let t = std::rc::Rc::new(std::cell::RefCell::new(Node::create_text_node(vec!['x'], None)));
				let c = catch_unwind(AssertUnwindSafe(|| t.borrow().build(&ro(INNER), false))).is_err();
				let e = catch_unwind(AssertUnwindSafe(|| d.render(&ro(INNER)))).map_err(|_| ());
				format!("{} {} {} {:?}", a, b, c, e)
			}
			'h' => {
				// another thread does the same
				let (s, pm) = (cx.s.to_string(), cx.pm);
				std::thread::spawn(move || imp(&s, pm).map(|d| d.render(&ro(0))).unwrap_or_else(|e| e.to_string())).join().unwrap()
			}
			's' => {
				let o = imp(cx.s, cx.pm);
				match o {
					Ok(o) => o.render(&ro(0)),
					Err(e) => e.to_string(),
				}
			}
			'k' => {
				// parts outlive their document
				let o = match imp(cx.s, cx.pm) {
					Ok(o) => o,
					Err(e) => return e.to_string(),
				};
				let r = o.get_root_node();
				let kids = r.borrow().childs.clone().unwrap_or_default();
				drop(o);
				drop(r);
				kids.iter().map(|k| node_text(&k.borrow(), 0, false)).collect()
			}
			_ => unreachable!(),
		}
	};
	let mut h = hash_sn(&t0);
	let r0 = d.render(&ro(0));
	for (i, o) in cx.aux.chars().enumerate() {
		let fresh = imp(cx.s, cx.pm).map_err(|e| format!("step {}: parsing the same source again: {}", i, e))?;
		let a = op(&d, o);
		let b = op(&fresh, o);
		if a != b {
			return Err(format!("step {} ({}): {:?}, but on a fresh document {:?}", i, o, a, b));
		}
		if matches!(o, 'r' | 'c' | 's' | 'k' | 'h') && a != r0 {
			return Err(format!("step {} ({}): {:?}, but at first {:?}", i, o, a, r0));
		}
		if let Some(x) = diff(&t0, &snap(&root), TREEPOS) {
			return Err(format!("after step {} ({}) the document has changed: {}", i, o, x));
		}
		h = h.wrapping_mul(31).wrapping_add(fp(&a));
	}
	links(&root)?;
	Ok(h)
}

/// the first source is parsed and used in all ways, kept or dropped; then the second has to pass what
/// other properties ask of it, and the first has to be as it was
fn c26_pair(cx: &Cx, x: &str) -> Result<u64, String> {
	let (keep, src) = (&x[..1] == "0", &x[1..]);
	let words = |s: &str| -> Vec<String> { s.split(|c: char| c.is_whitespace() || "<>='\"/".contains(c)).map(|x| x.to_string()).collect() };
	let mut first = imp(src, cx.pm).ok();
	let mut before = None;
	if let Some(d) = &first {
		let root = d.get_root_node();
		let t = snap(&root);
		let mut nodes = vec![];
		all_nodes(&root, &mut nodes);
		for m in [0, INNER, 0x1bf, DECODE | RM_COMMENT, LOWER | ENCODE, MINIFY] {
			if m & INNER == 0 || model::render(&t, INNER, false).is_some() {
				let _ = d.render(&ro(m));
			}
			if m & INNER == 0 && model::render(&t, 0, true).is_some() {
				let _ = d.render_text(&ro(m));
			}
			for n in &nodes {
				let _ = node_text(&n.borrow(), m & !INNER, false);
			}
		}
		for w in words(src) {
			let _ = d.get_element_by_id(&w);
		}
		let _ = (root.borrow().clone_node(), root.borrow().is_document(), format!("{:?}", root.borrow()).len());
		before = Some((t, d.render(&ro(0)), root));
	}
	if !keep {
		first = None;
		before = None;
	}
	let two = Cx { s: cx.s, c: cx.c, pm: cx.pm, aux: "", m: cx.m };
	let checks: &[(&str, fn(&Cx) -> Result<u64, String>)] = &[("C02", c_tree), ("C03", c03), ("C15", c15), ("C16", c16), ("C17", c17), ("C18", c18), ("C20", c20), ("C21", c21), ("C22", c22), ("C23", c23), ("C24", c24), ("C25", c25)];
	let mut h = 0u64;
	for (name, f) in checks {
		h = h.wrapping_mul(31).wrapping_add(f(&two).map_err(|e| format!("after using {:?} ({}), against {}: {}", src, if keep { "still held" } else { "dropped" }, name, e))?);
	}
	if let (Some(d), Some((t, html, root))) = (&first, &before) {
		if let Some(x) = diff(t, &snap(root), TREEPOS) {
			return Err(format!("{:?} has been changed by using another document: {}", src, x));
		}
		expect_str("rendering of the first document (vs before)", html, &d.render(&ro(0)))?;
		let mut nodes = vec![];
		all_nodes(root, &mut nodes);
		for w in words(src).iter().chain(&words(cx.s)) {
			if let Some(n) = d.get_element_by_id(w) {
				if !nodes.iter().any(|x| std::rc::Rc::ptr_eq(x, &n)) {
					return Err(format!("looking up {:?} in {:?} gives a node of another document", w, src));
				}
			}
		}
	}
	Ok(h)
}

// ---- C27: helper functions; aux names the function, s its argument
fn c27(cx: &Cx) -> Result<u64, String> {
	let arg: Vec<char> = cx.c.to_vec();
	let eq = |what: &str, want: bool, got: bool| -> Result<u64, String> {
		if want == got {
			Ok(fp(&(what, want)))
		} else {
			Err(format!("{}({:?}): expected {}, got {}", what, cx.s, want, got))
		}
	};
	let mut p = cx.aux.split(':');
	match p.next().unwrap() {
		"chars" => {
			for &c in &arg {
				let u = c as u32;
				let non = (0xFDD0..=0xFDEF).contains(&u) || u & 0xFFFE == 0xFFFE;
				eq("is_non_character", non, rphtml::util::is_non_character(&c)).map_err(|e| format!("{:?}: {}", c, e))?;
				let key = if u < 128 { c.is_ascii_alphanumeric() || matches!(c, '_' | '-' | '.' | ':') } else { !non };
				eq("is_char_available_in_key", key, rphtml::util::is_char_available_in_key(&c)).map_err(|e| format!("{:?}: {}", c, e))?;
				let val = !matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c' | '\0' | '"' | '\'' | '<' | '>' | '/' | '=' | '`');
				eq("is_char_available_in_value", val, rphtml::util::is_char_available_in_value(&c)).map_err(|e| format!("{:?}: {}", c, e))?;
				let q = matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c' | '"' | '\'' | '<' | '>' | '=' | '`');
				eq("need_quoted_char", q, Attr::need_quoted_char(&c)).map_err(|e| format!("{:?}: {}", c, e))?;
			}
			Ok(fp(&arg.len()))
		}
		"insert" => {
			let l = lower(&arg);
			let mut h = 0;
			for ty in [
				NodeType::AbstractRoot,
				NodeType::HTMLDOCTYPE,
				NodeType::Comment,
				NodeType::Text,
				NodeType::SpacesBetweenTag,
				NodeType::Tag,
				NodeType::TagEnd,
				NodeType::XMLCDATA,
			] {
				let want = if VOIDS.contains(&l.as_str()) {
					false
				} else if l == "title" || l == "textarea" {
					matches!(ty, NodeType::Text | NodeType::SpacesBetweenTag)
				} else if ty == NodeType::XMLCDATA {
					l == "svg" || l == "math"
				} else {
					true
				};
				h ^= eq(&format!("allow_insert {:?}", ty), want, allow_insert(&arg, ty))?;
			}
			Ok(h)
		}
		"content" => {
			let exact = RAWS.contains(&cx.s);
			let nocase = RAWS.contains(&lower(&arg).as_str());
			eq("is_content_tag exact", exact, is_content_tag(&arg, &None))?;
			eq("is_content_tag lower", nocase, is_content_tag(&arg, &Some(NameCase::Lower)))
		}
		"text" => {
			let blank = arg.iter().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c'));
			for at in [None, Some(0), Some(5)] {
				let n = Node::create_text_node(arg.clone(), at);
				if n.content.as_ref() != Some(&arg) || n.begin_at != at.unwrap_or(0) || n.end_at != at.unwrap_or(0) {
					return Err("create_text_node changed its content or place".into());
				}
				let ty = if blank { NodeType::SpacesBetweenTag } else { NodeType::Text };
				if n.node_type != ty {
					return Err(format!("create_text_node({:?}) is a {:?}", cx.s, n.node_type));
				}
				if n.childs.is_some() || n.parent.is_some() || n.meta.is_some() || n.end_tag.is_some() {
					return Err("create_text_node made more than a text".into());
				}
				expect_str("html of a text node", cx.s, &node_text(&n, 0, false))?;
			}
			Ok(fp(&blank))
		}
		"attr" => {
			// s = the value; the second part is the quote, the third the key
			let q = p.next().unwrap().chars().next();
			let key = p.next().filter(|k| !k.is_empty());
			let mut m = TagMeta::default();
			if let Some(k) = key {
				m.add_attr_key();
				m.set_attr_key(chars(k));
			} else {
				m.add_attr_value(q);
			}
			m.set_attr_value(arg.clone(), q);
			let a = &m.attrs[0];
			let want = At { key: key.map(chars), val: Some(arg.clone()), quote: q };
			for rq in [false, true] {
				let mut w = vec![];
				put_attrs(&[want.clone()], rq, &mut w);
				expect_str(&format!("attrs_to_string({})", rq), &st(&w), &st(&m.attrs_to_string(rq)))?;
				expect_str(&format!("Attr::build({})", rq), &st(&w[1..]), &st(&a.build(rq)))?;
			}
			let id = key.filter(|k| k.eq_ignore_ascii_case("id")).map(|_| cx.s.to_string());
			if a.check_if_id() != id {
				return Err(format!("check_if_id: {:?} for {:?}={:?}", a.check_if_id(), key, cx.s));
			}
			Ok(fp(&st(&a.build(true))))
		}
		"metas" => {
			// s: one letter per call
			const KEYS: [&str; 3] = ["a", "ID", "é-b"];
			const VALS: [&str; 4] = ["v", "", "w x", "'"];
			let mut m = TagMeta::default();
			let mut w: Vec<At> = vec![];
			let mut need: Vec<bool> = vec![];
			for c in cx.s.chars() {
				match c {
					'k' => {
						m.add_attr_key();
						w.push(At { key: Some(vec![]), val: None, quote: None });
						need.push(false);
					}
					'v' | 'V' => {
						let q = if c == 'v' { None } else { Some('"') };
						m.add_attr_value(q);
						w.push(At { key: None, val: Some(vec![]), quote: q });
						need.push(false);
					}
					'0'..='2' => {
						let k = KEYS[c as usize - '0' as usize];
						m.set_attr_key(chars(k));
						w.last_mut().unwrap().key = Some(chars(k));
					}
					_ => {
						let i = "EFGHefgh".find(c).unwrap();
						let (v, q) = (VALS[i % 4], if i < 4 { Some('\'') } else { None });
						let l = w.last_mut().unwrap();
						l.val = Some(chars(v));
						l.quote = q;
						*need.last_mut().unwrap() = model::needs_quote(l.key.is_some(), &chars(v));
						let a = m.set_attr_value(chars(v), q);
						expect_str("value returned by set_attr_value", v, &a.value.as_ref().map_or("-".into(), |d| st(&d.content)))?;
					}
				}
			}
			if m.attrs.len() != w.len() {
				return Err(format!("{} attributes, expected {}", m.attrs.len(), w.len()));
			}
			let mut all = (String::new(), String::new());
			for (i, (a, w)) in m.attrs.iter().zip(&w).enumerate() {
				let got = At { key: a.key.as_ref().map(|d| d.content.clone()), val: a.value.as_ref().map(|d| d.content.clone()), quote: a.quote };
				if got.key != w.key || got.val != w.val || got.quote != w.quote {
					return Err(format!("attribute {}: expected {:?}, got {:?}", i, w, got));
				}
				let mut o = vec![];
				put_attrs(&[w.clone()], false, &mut o);
				expect_str("Attr::build(false)", &st(&o[1..]), &st(&a.build(false)))?;
				let mut o = vec![];
				if a.need_quote != need[i] {
					return Err(format!("attribute {}: need_quote is {}", i, a.need_quote));
				}
				put_attrs(&[At { quote: w.quote.filter(|_| need[i]), ..w.clone() }], false, &mut o);
				expect_str("Attr::build(true)", &st(&o[1..]), &st(&a.build(true)))?;
				all.0 += &st(&a.build(false));
				all.0 += " ";
				all.1 += " ";
				all.1 += &st(&a.build(false));
			}
			expect_str("attrs_to_string", &all.1, &st(&m.attrs_to_string(false)))?;
			Ok(fp(&all))
		}
		"same" => {
			// identity of nodes: s is a document
			let (a, b) = match (imp(cx.s, cx.pm), imp(cx.s, cx.pm)) {
				(Ok(a), Ok(b)) => (a, b),
				_ => return Ok(0),
			};
			let mut v = vec![];
			all_nodes(&a.get_root_node(), &mut v);
			all_nodes(&b.get_root_node(), &mut v);
			all_nodes(&a.get_root_node().borrow().clone_node(), &mut v);
			for n in v.clone() {
				v.extend(n.borrow().end_tag.clone());
			}
			for (i, x) in v.iter().enumerate() {
				for (j, y) in v.iter().enumerate() {
					if Node::is_same(x, y) != (i == j) {
						return Err(format!("is_same of nodes {} and {}: {}", i, j, i != j));
					}
				}
				if !Node::is_same(x, &std::rc::Rc::clone(x)) {
					return Err("is_same of two handles of a node".into());
				}
			}
			Ok(v.len() as u64)
		}
		"new" => {
			for ty in [NodeType::AbstractRoot, NodeType::HTMLDOCTYPE, NodeType::Comment, NodeType::Text, NodeType::SpacesBetweenTag, NodeType::Tag, NodeType::TagEnd, NodeType::XMLCDATA] {
				for at in [0usize, 1, 7, 255, 256, 65536, usize::MAX / 2] {
					let n = Node::new(ty, at);
					if n.node_type != ty || n.begin_at != at || n.end_at != at || n.index != 0 || n.childs.is_some() || n.content.is_some() || n.meta.is_some() || n.end_tag.is_some() || n.parent.is_some() || n.root.is_some() || n.document.is_some() || n.prev.is_some() {
						return Err(format!("Node::new({:?}, {})", ty, at));
					}
				}
			}
			Ok(1)
		}
		x => panic!("unknown helper {}", x),
	}
}

// ---- C28: edited trees render as edited. aux: the edits
pub const EDITS: &[char] = &['x', 'w', 'n', 'r', 'e', 'a', 'q', 'u', 'z', 'b', 'c'];
/// more of them, for shorter sequences
pub const MORE_EDITS: &[char] = &['x', 'w', 'n', 'r', 'e', 'a', 'q', 'u', 'z', 'b', 'c', 'I', 'm', 'k', 'A', 'V', 'E', 'S', 'C', 'N', 'P', 'W', 'L'];
fn reindex(n: &RefNode) {
	for (i, k) in n.borrow().childs.iter().flatten().enumerate() {
		k.borrow_mut().index = i;
		k.borrow_mut().parent = Some(std::rc::Rc::downgrade(n));
	}
}
fn first(root: &RefNode, f: &dyn Fn(&Node) -> bool) -> Option<RefNode> {
	let mut v = vec![];
	all_nodes(root, &mut v);
	v.into_iter().skip(1).find(|n| f(&n.borrow()))
}
fn edit(root: &RefNode, o: char) {
	let wrap = |n: Node| std::rc::Rc::new(std::cell::RefCell::new(n));
	let open = first(root, &|n| n.node_type == NodeType::Tag && n.end_tag.is_some() && n.content.is_none());
	let target = open.clone().unwrap_or(root.clone());
	match o {
		'x' => target.borrow_mut().childs.get_or_insert_with(Vec::new).push(wrap(Node::create_text_node(chars(" T  &gt;\n u "), None))),
		'w' => target.borrow_mut().childs.get_or_insert_with(Vec::new).insert(0, wrap(Node::create_text_node(chars(" \n "), None))),
		'n' => {
			if let Some(n) = first(root, &|n| n.node_type == NodeType::Tag) {
				let c = n.borrow().clone_node();
				root.borrow_mut().childs.get_or_insert_with(Vec::new).push(c);
			}
		}
		'r' => {
			if let Some(c) = &mut root.borrow_mut().childs {
				if !c.is_empty() {
					c.remove(0);
				}
			}
		}
		'e' => {
			if open.is_some() {
				target.borrow_mut().childs = Some(vec![]);
			}
		}
		'a' | 'q' => {
			if let Some(n) = first(root, &|n| n.meta.is_some()) {
				let nb = n.borrow();
				let mut m = nb.meta.as_ref().unwrap().borrow_mut();
				m.add_attr_key();
				m.set_attr_key(chars("kK"));
				if o == 'a' {
					m.set_attr_value(chars("q r"), Some('"'));
				} else {
					m.set_attr_value(chars("qr"), Some('\''));
				}
			}
		}
		'u' => {
			if let Some(n) = &open {
				let nb = n.borrow();
				nb.meta.as_ref().unwrap().borrow_mut().name = chars("PRE");
				nb.end_tag.as_ref().unwrap().borrow_mut().content = Some(chars("PRE "));
			}
		}
		'z' => {
			if let Some(c) = &mut root.borrow_mut().childs {
				let k = c.len().min(1);
				c.rotate_left(k);
			}
		}
		'b' => {
			if let Some(n) = first(root, &|n| n.content.is_some()) {
				n.borrow_mut().content = Some(chars("a  &lt;b"));
			}
		}
		'c' => {
			let c = root.borrow().clone_node();
			let kids = c.borrow_mut().childs.take();
			root.borrow_mut().childs = kids;
		}
		// indexes and parent links brought up to date (rendering must not need it)
		'I' => {
			let mut v = vec![];
			all_nodes(root, &mut v);
			v.iter().for_each(reindex);
		}
		// the first child of the first element moves behind everything
		'm' => {
			if open.is_some() {
				let k = target.borrow_mut().childs.as_mut().filter(|c| !c.is_empty()).map(|c| c.remove(0));
				if let Some(k) = k {
					root.borrow_mut().childs.as_mut().unwrap().push(k);
				}
			}
		}
		// a child for a raw-text element
		'k' => {
			if let Some(n) = first(root, &|n| n.node_type == NodeType::Tag && n.content.is_some()) {
				n.borrow_mut().childs.get_or_insert_with(Vec::new).push(wrap(Node::create_text_node(chars("k  &amp; "), Some(3))));
			}
		}
		// the attributes of the last tag go / its values change
		'A' | 'V' => {
			if let Some(n) = last(root, &|n| n.meta.as_ref().map_or(false, |m| !m.borrow().attrs.is_empty())) {
				let nb = n.borrow();
				let mut m = nb.meta.as_ref().unwrap().borrow_mut();
				if o == 'A' {
					m.attrs.remove(0);
				} else {
					for a in &mut m.attrs {
						if a.key.is_some() {
							a.value = Some(AttrData { content: chars("v>"), ..Default::default() });
							a.quote = Some('\'');
							a.need_quote = true;
						}
					}
				}
			}
		}
		// the last element loses its end tag / becomes self-closed
		'E' => {
			if let Some(n) = last(root, &|n| n.end_tag.is_some()) {
				n.borrow_mut().end_tag = None;
			}
		}
		'S' => {
			if let Some(n) = last(root, &|n| n.node_type == NodeType::Tag) {
				let nb = n.borrow();
				let mut m = nb.meta.as_ref().unwrap().borrow_mut();
				m.self_closed = !m.self_closed;
			}
		}
		'C' => {
			if let Some(n) = last(root, &|n| matches!(n.node_type, NodeType::Comment | NodeType::XMLCDATA)) {
				n.borrow_mut().content = Some(chars(" <&gt;  "));
			}
		}
		// a copy of the first node goes into the last element
		'N' => {
			let c = first(root, &|_| true).map(|n| n.borrow().clone_node());
			if let (Some(c), Some(n)) = (c, last(root, &|n| n.node_type == NodeType::Tag && n.end_tag.is_some())) {
				n.borrow_mut().childs.get_or_insert_with(Vec::new).insert(0, c);
			}
		}
		// everything is wrapped into a new pre element
		'P' | 'W' => {
			let kids = root.borrow_mut().childs.take();
			let name = if o == 'P' { "pre" } else { "Div" };
			let mut e = Node::new(NodeType::Tag, 0);
			let mut m = TagMeta::default();
			m.name = chars(name);
			m.add_attr_key();
			m.set_attr_key(chars("w"));
			e.meta = Some(std::cell::RefCell::new(m));
			e.childs = kids;
			let mut end = Node::new(NodeType::TagEnd, 0);
			end.content = Some(chars(&format!("{} ", name)));
			e.end_tag = Some(wrap(end));
			root.borrow_mut().childs = Some(vec![wrap(e)]);
		}
		// the last text is shared with nobody and gets a character at each end
		'L' => {
			if let Some(n) = last(root, &|n| matches!(n.node_type, NodeType::Text | NodeType::SpacesBetweenTag)) {
				let mut nb = n.borrow_mut();
				nb.node_type = NodeType::Text;
				let c = nb.content.as_mut().unwrap();
				c.insert(0, ' ');
				c.push('\u{e9}');
			}
		}
		_ => unreachable!(),
	}
}
/// edits of one node, chosen by its place in document order
pub const PEDITS: usize = 42;
fn pedit(root: &RefNode, at: usize, e: usize) {
	let wrap = |n: Node| std::rc::Rc::new(std::cell::RefCell::new(n));
	let mut v = vec![];
	all_nodes(root, &mut v);
	let n = match v.get(at + 1) {
		Some(n) => n.clone(),
		None => return,
	};
	drop(v);
	fn holder(r: &RefNode, n: &RefNode) -> Option<(RefNode, usize)> {
		let kids = r.borrow().childs.clone().unwrap_or_default();
		for (i, k) in kids.iter().enumerate() {
			if Node::is_same(k, n) {
				return Some((r.clone(), i));
			}
			if let Some(x) = holder(k, n) {
				return Some(x);
			}
		}
		None
	}
	let (up, i) = holder(root, &n).unwrap();
	let make = |k: usize| -> RefNode {
		match k {
			0 => wrap(Node::create_text_node(chars("n  &lt; \n"), None)),
			1 => wrap(Node::create_text_node(chars(" \n"), Some(7))),
			2 => {
				let mut c = Node::new(NodeType::Comment, 0);
				c.content = Some(chars(" - "));
				wrap(c)
			}
			_ => {
				let d = imp("<Pre a='b'>  <br>x  y</Pre >", 0).unwrap();
				let k = d.get_root_node().borrow_mut().childs.as_mut().unwrap().remove(0);
				k
			}
		}
	};
	const NAMES: &[&str] = &["pre", "title", "TextArea", "style", "script", "br", "svg", "DIV"];
	let mut nb = n.borrow_mut();
	let tag = nb.node_type == NodeType::Tag;
	match e {
		0..=7 => {
			if let Some(m) = nb.meta.as_ref().filter(|_| tag) {
				m.borrow_mut().name = chars(NAMES[e]);
			}
			if let (4..=7, Some(end)) = (e, &nb.end_tag) {
				end.borrow_mut().content = Some(chars(&format!("{}\t", NAMES[e])));
			}
		}
		8 => {
			if nb.content.is_some() {
				nb.content = Some(chars("  <c> &amp;  "));
			}
		}
		9 => {
			if nb.content.is_some() {
				nb.content = Some(vec![]);
			}
		}
		10 => nb.childs = None,
		11 => {
			if tag {
				nb.childs = Some(vec![]);
			}
		}
		12 => nb.end_tag = None,
		13 => {
			drop(nb);
			up.borrow_mut().childs.as_mut().unwrap().remove(i);
		}
		14..=17 => {
			drop(nb);
			up.borrow_mut().childs.as_mut().unwrap().insert(i, make(e - 14));
		}
		18..=21 => {
			if tag {
				nb.childs.get_or_insert_with(Vec::new).push(make(e - 18));
			}
		}
		22 => {
			nb.node_type = match nb.node_type {
				NodeType::Text => NodeType::SpacesBetweenTag,
				NodeType::SpacesBetweenTag => NodeType::Text,
				x => x,
			}
		}
		23 => {
			if let Some(m) = &nb.meta {
				let mut m = m.borrow_mut();
				m.self_closed = !m.self_closed;
			}
		}
		24 => {
			if let Some(m) = &nb.meta {
				let mut m = m.borrow_mut();
				m.is_void = !m.is_void;
			}
		}
		25 => {
			if let Some(m) = &nb.meta {
				m.borrow_mut().attrs.clear();
			}
		}
		26..=29 => {
			if let Some(m) = &nb.meta {
				let mut m = m.borrow_mut();
				m.add_attr_key();
				m.set_attr_key(chars("Kk"));
				match e {
					26 => {}
					27 => {
						m.set_attr_value(chars("v"), Some('"'));
					}
					28 => {
						m.set_attr_value(chars(""), Some('\''));
					}
					_ => {
						m.set_attr_value(chars("a=b c"), Some('\''));
					}
				}
			}
		}
		30 => {
			if let Some(a) = nb.meta.as_ref().map(|m| m.borrow_mut()).as_mut().and_then(|m| m.attrs.first_mut()) {
				if a.key.is_some() {
					a.key = Some(AttrData { content: chars("ID"), ..Default::default() });
					a.value = None;
					a.quote = None;
				}
			}
		}
		31 => {
			if let Some(a) = nb.meta.as_ref().map(|m| m.borrow_mut()).as_mut().and_then(|m| m.attrs.last_mut()) {
				if a.key.is_some() {
					a.value = Some(AttrData { content: chars("z"), ..Default::default() });
					a.quote = Some('\'');
					a.need_quote = false;
				}
			}
		}
		32 => {
			drop(nb);
			let c = n.borrow().clone_node();
			up.borrow_mut().childs.as_mut().unwrap()[i] = c;
		}
		34 | 35 => {
			// the end tag of another element, whose document is gone or not
			if tag {
				let other = imp("<q>r</q\n>", 0).unwrap();
				let from = other.get_root_node().borrow().childs.as_ref().unwrap()[0].clone();
				nb.end_tag = from.borrow().end_tag.clone();
				if e == 35 {
					up.borrow_mut().childs.as_mut().unwrap().push(from);
				}
			}
		}
		36 => {
			// rendering is about what a node is, not about where it comes from
			nb.parent = None;
			nb.root = None;
			nb.document = None;
			nb.prev = None;
		}
		37 => {
			nb.parent = Some(std::rc::Weak::new());
			nb.root = Some(std::rc::Weak::new());
			nb.document = Some(std::rc::Weak::new());
			nb.prev = Some(std::rc::Weak::new());
			if let Some(end) = &nb.end_tag {
				end.borrow_mut().parent = Some(std::rc::Weak::new());
				end.borrow_mut().root = Some(std::rc::Weak::new());
			}
		}
		38 | 39 => {
			let x = [0, 1 << 40][e - 38];
			nb.index = x;
			nb.begin_at = x;
			nb.end_at = x;
			if let Some(end) = &nb.end_tag {
				let mut end = end.borrow_mut();
				end.index = x;
				end.begin_at = x;
				end.end_at = x;
				end.parent = None;
			}
		}
		40 => {
			if let Some(m) = &nb.meta {
				let mut m = m.borrow_mut();
				m.auto_fix = !m.auto_fix;
				m.lc_name_map.clear();
			}
		}
		41 => {
			if let Some(m) = &nb.meta {
				m.borrow_mut().attrs.reverse();
			}
		}
		_ => {
			drop(nb);
			let k = up.borrow_mut().childs.as_mut().unwrap().remove(i);
			root.borrow_mut().childs.get_or_insert_with(Vec::new).insert(0, k);
		}
	}
}
fn last(root: &RefNode, f: &dyn Fn(&Node) -> bool) -> Option<RefNode> {
	let mut v = vec![];
	all_nodes(root, &mut v);
	v.into_iter().skip(1).rev().find(|n| f(&n.borrow()))
}
fn c28(cx: &Cx) -> Result<u64, String> {
	let d = match imp(cx.s, cx.pm) {
		Ok(d) => d,
		Err(_) => return Ok(0),
	};
	let root = d.get_root_node();
	let mut h = 0u64;
	// "@place.edit;place.edit" or one letter per edit
	let steps: Vec<(char, usize, usize)> = match cx.aux.strip_prefix('@') {
		Some(x) => x.split(';').map(|s| s.split_once('.').unwrap()).map(|(a, b)| ('@', a.parse().unwrap(), b.parse().unwrap())).collect(),
		None => cx.aux.chars().map(|c| (c, 0, 0)).collect(),
	};
	for (i, &(o, at, e)) in steps.iter().enumerate() {
		if o == '@' {
			pedit(&root, at, e);
		} else {
			edit(&root, o);
		}
		if i + 1 < steps.len() {
			// the intermediate trees are cases of their own; one rendering in between must not matter
			let _ = d.render(&ro([MINIFY, 0, 0x1bf][i % 3]));
			continue;
		}
		let sn = snap(&root);
		let mut judge = |n: &RefNode, m: &SN| -> Result<(), String> {
			for (rm, text) in [(0, false), (MINIFY, false), (DECODE | LOWER | RM_QUOTE | RM_END_SPACE | CLOSE_VOID, false), (INNER, false), (0, true), (MINIFY | DECODE | ENCODE, true), (ENCODE | RM_COMMENT, false), (0x1bf, false)] {
				if let Some(w) = model::render(m, rm, text) {
					let g = node_text(&n.borrow(), rm, text);
					if st(&w) != g {
						return Err(format!("after the edits {:?} a {:?} renders ({}) as {:?}, expected {:?}", cx.aux, m.ty, rnames(rm), g, st(&w)));
					}
					h = h.wrapping_mul(31).wrapping_add(fp(&g));
				}
			}
			Ok(())
		};
		each_pair(&root, &sn, &mut judge)?;
		let kids: String = root.borrow().childs.iter().flatten().map(|k| node_text(&k.borrow(), 0, false)).collect();
		expect_str("rendering of the edited document", &kids, &d.render(&ro(0)))?;
	}
	Ok(h)
}

/// clones of what the user has put together: as complete and independent as those of parsed nodes
fn edited_clones(root: &RefNode) -> Result<u64, String> {
	let all = |n: &Node| -> Vec<String> { [0, MINIFY, 0x1bf].iter().map(|r| node_text(n, *r, false)).collect() };
	let before = snap(root);
	let html = all(&root.borrow());
	let mut nodes = vec![];
	all_nodes(root, &mut nodes);
	for n in &nodes {
		let orig = snap(n);
		let copy = n.borrow().clone_node();
		if let Some(x) = diff(&orig, &snap(&copy), STRUCT) {
			return Err(format!("the copy of an edited {:?} differs: {}", orig.ty, x));
		}
		if all(&copy.borrow()) != all(&n.borrow()) {
			return Err(format!("the copy of an edited {:?} renders differently", orig.ty));
		}
		if copy.borrow().parent.is_some() {
			return Err("the copy is attached to something".into());
		}
		vandalise(&copy);
		if let Some(x) = diff(&before, &snap(root), TREEPOS) {
			return Err(format!("changing the copy of an edited {:?} changed the original: {}", orig.ty, x));
		}
		if all(&root.borrow()) != html {
			return Err(format!("changing the copy of an edited {:?} changed the rendering of the original", orig.ty));
		}
	}
	Ok(hash_sn(&before))
}

// ---- C29: everything is released again
fn c29(cx: &Cx) -> Result<u64, String> {
	if cx.aux.starts_with("vary") {
		return c29_vary(cx);
	}
	let m = cx.m;
	// what this thread may do with the document: misuse panics are not part of it
	let (text, inner) = match m.doc() {
		Some(d) => (model::render(&d.root, 0, true).is_some(), model::render(&d.root, INNER, false).is_some()),
		None => (false, false),
	};
	let mut ids: Vec<String> = cx.aux.split_whitespace().map(|x| x.to_string()).collect();
	ids.extend(["", "x", "no such id"].map(|x| x.to_string()));
	// whatever the source is made of is looked up, too
	ids.extend(cx.s.split(|c: char| c.is_whitespace() || "<>='\"/".contains(c)).filter(|x| !x.is_empty()).take(12).map(|x| x.to_string()));
	let mut dead = true;
	let mut run = || {
		let d = match imp(cx.s, cx.pm) {
			Ok(d) => d,
			Err(e) => {
				let _ = e.to_string();
				return;
			}
		};
		let root = d.get_root_node();
		let mut nodes = vec![];
		all_nodes(&root, &mut nodes);
		let weak: Vec<_> = nodes.iter().map(std::rc::Rc::downgrade).collect();
		let ends: Vec<_> = nodes.iter().filter_map(|n| n.borrow().end_tag.as_ref().map(std::rc::Rc::downgrade)).collect();
		let doc = root.borrow().document.clone();
		let _ = d.render(&ro(0));
		let _ = d.render(&ro(0x1bf));
		if text {
			let _ = d.render_text(&ro(0));
		}
		if inner {
			let _ = d.render(&ro(INNER));
		}
		for id in &ids {
			let _ = d.get_element_by_id(id);
		}
		let few = nodes.len() < 20;
		for n in nodes.iter().take(20) {
			let _ = (n.borrow().is_document(), Node::is_same(n, &root));
			if few {
				let _ = format!("{:?}", n.borrow()).len();
				let n = n.borrow();
				let _ = n.build(&ro(0x1bf), false);
				if n.node_type == NodeType::Tag {
					let _ = n.build(&ro(INNER | 0x1bf), false);
				}
				if matches!(n.node_type, NodeType::Tag | NodeType::Comment | NodeType::XMLCDATA) {
					let _ = n.build(&ro(0x1bf), true);
				}
			}
			if let Some(m) = &n.borrow().meta {
				let m = m.borrow();
				let _ = (m.attrs_to_string(true), m.attrs.iter().map(|a| a.check_if_id().is_some()).count());
			}
		}
		if let Some(n) = nodes.get(1) {
			// a part is copied, the copy taken apart
			let c = n.borrow().clone_node();
			let _ = node_text(&c.borrow(), 0, false);
			let kids = c.borrow_mut().childs.take();
			drop(c);
			drop(kids);
		}
		let copy = root.borrow().clone_node();
		let cw = {
			let mut v = vec![];
			all_nodes(&copy, &mut v);
			v.iter().map(std::rc::Rc::downgrade).collect::<Vec<_>>()
		};
		drop(copy);
		let last = nodes.pop();
		nodes.clear();
		drop(root);
		drop(d);
		// one node is still held: it, and only it and what is below it, may live on
		let sub = last.as_ref().map_or(0, |n| {
			let mut v = vec![];
			all_nodes(n, &mut v);
			v.len()
		});
		let alive = weak.iter().filter(|w| w.strong_count() > 0).count();
		dead &= alive == sub && last.as_ref().map_or(true, |n| !n.borrow().root.as_ref().map_or(false, |r| r.strong_count() > 0) || sub == weak.len());
		drop(last);
		dead &= weak.iter().chain(&ends).chain(&cw).all(|w| w.strong_count() == 0) && doc.map_or(true, |d| d.strong_count() == 0);
	};
	// the first run may fill tables that are filled once
	run();
	let (a, _) = crate::mem::measure(&mut run);
	let (b, _) = crate::mem::measure(&mut run);
	if !dead {
		return Err("nodes (or the document) are still alive after everything that refers to them is dropped".into());
	}
	if b > 0 {
		return Err(format!("{} bytes (before: {}) are left of parsing, using and dropping the document once more", b, a));
	}
	Ok(m.doc().map_or(1, |d| hash_sn(&d.root)))
}

/// sources that are all alike but for one word ('@'): what is left may not grow with their number
fn c29_vary(cx: &Cx) -> Result<u64, String> {
	let one = |i: usize| {
		let len: usize = cx.aux[5..].parse().unwrap();
		let mut w = String::new();
		let mut j = i;
		while w.len() < len.max(3) {
			w.push((b'a' + (j % 26) as u8) as char);
			j = if j < 26 { i + w.len() } else { j / 26 };
		}
		let s = cx.s.replace('@', &w);
		let d = match imp(&s, cx.pm) {
			Ok(d) => d,
			Err(e) => {
				let _ = e.to_string();
				return;
			}
		};
		let root = d.get_root_node();
		let mut nodes = vec![];
		all_nodes(&root, &mut nodes);
		for o in [0, 0x1bf] {
			let _ = d.render(&ro(o));
			for n in &nodes {
				let n = n.borrow();
				let _ = n.build(&ro(o), false);
				if n.node_type == NodeType::Tag {
					let _ = (n.build(&ro(INNER | o), false), n.build(&ro(o), true));
				}
			}
		}
		let _ = (d.get_element_by_id(&w), root.borrow().clone_node(), root.borrow().is_document(), format!("{:?}", root.borrow()).len());
	};
	// tables that are filled once, or are limited, may be filled
	(0..64).for_each(one);
	let (a, _) = crate::mem::measure(|| (64..192).for_each(one));
	let (b, _) = crate::mem::measure(|| (192..448).for_each(one));
	let (c, _) = crate::mem::measure(|| (448..960).for_each(one));
	if a > 0 && b > 0 && c > 0 && a + b + c > 2000 {
		return Err(format!("{}, {} and {} bytes are left of 128, 256 and 512 documents that differ in one word and are dropped", a, b, c));
	}
	Ok(fp(&cx.s))
}

// ---- C30: memory stays proportional; s is one period, aux the number of repetitions (prefix|suffix)
fn c30(cx: &Cx) -> Result<u64, String> {
	let peak = |s: &str| -> (i64, i64, i64) {
		let mut d = None;
		let (_, p) = crate::mem::measure(|| d = imp(s, cx.pm).ok());
		let (mut r, mut c) = (0, 0);
		if let Some(d) = &d {
			for o in [0, 0x1bf] {
				r = r.max(crate::mem::measure(|| drop(d.render(&ro(o)))).1);
			}
			let root = d.get_root_node();
			c = crate::mem::measure(|| drop(root.borrow().clone_node())).1;
		}
		(p, r, c)
	};
	let mk = |n: usize| -> String {
		match cx.aux.trim_start_matches('*').split_once('#') {
			Some(("pump", k)) => pump(k.parse().unwrap(), n).unwrap(),
			Some((w, k)) if w.starts_with("crowd") => {
				let (a, b) = crowd(k.parse().unwrap(), n).unwrap();
				let v = cx.s.repeat(n);
				match w {
					"crowd0" => format!("{}{}{}", a, v, b),
					"crowd1" => format!("{}{}{}", a, b, v),
					_ => format!("{}{}{}", v, a, b),
				}
			}
			_ => {
				let (a, b) = cx.aux.trim_start_matches('*').split_once('|').unwrap_or(("", ""));
				format!("{}{}{}", a, cx.s.repeat(n), b)
			}
		}
	};
	let (n, slack) = (if cx.aux.starts_with('*') { 1000 } else { 96 }, 16 << 10);
	let _ = imp("<a>", 0);
	let (x, y, z) = (peak(&mk(n)), peak(&mk(2 * n)), peak(&mk(4 * n)));
	for (what, x, y, z) in [("parsing", x.0, y.0, z.0), ("rendering", x.1, y.1, z.1), ("cloning", x.2, y.2, z.2)] {
		// linear growth doubles; a buffer that doubles its capacity may be half empty once
		if z > 3 * y + slack && y > 3 * x {
			return Err(format!("{}: peak memory {}, {}, {} bytes for {}, {} and {} repetitions", what, x, y, z, n, 2 * n, 4 * n));
		}
		if z > 6 * x + slack * 4 {
			return Err(format!("{}: peak memory {}, {}, {} bytes for {}, {} and {} repetitions", what, x, y, z, n, 2 * n, 4 * n));
		}
	}
	Ok(fp(&(x.0 / 1024, x.1 / 1024, x.2 / 1024)))
}
