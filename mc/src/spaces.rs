// The finite spaces the properties are decided on.

const DOC: &[&str] = &[
	"<a>", "</a>", "x", " ", "<br>", "<b>", "</b>", "<!--c-->", "</A>", "<a/>", "<br/>", "<", "</", ">", "1", "<script>", "</script>", "<svg>",
	"</svg>", "<![CDATA[", "]]>", "<!DOCTYPE ", "<pre>", "</pre>", "\n", "&lt;", "<title>", "</title>", "<!--", "-->", "=", "\"", "/", "é",
];
/// whole constructs, for deeper nesting of elements, texts and comments
const CORE: &[&str] = &["<a>", "</a>", "<B>", "</b >", "x", " ", "<br>", "<!---->", "<style></style>", "<svg>", "</svg>"];
const WSP: &[&str] = &["<a>", "</a>", " ", "\n", "\t", "x", "<pre>", "</pre>", "<i/>", "<!--c-->", "&#32;", "\u{a0}"];
const ATTR: &[&str] = &["b", "=", "\"", "'", " ", "/", ">", "<", "\n", "ID", "é"];
const ATTR_TAILS: &[&str] = &["", "></a>", "\"></a>", "/></a>"];
const RAW: &[&str] = &["<", "/", "</", "script", "SCRIPT", ">", " ", "x", "</script>", "<!--", "-->", "\n"];
const TITLE: &[&str] = &["<", "</", "title", "Title", ">", "\t", "&amp;", "</title>", "</textarea>", "<b>", "é"];
const DECL: &[&str] = &["-", ">", "x", "[", "]", "D", "d", "OCTYPE", "octype", "CDATA[", " ", "\"", "'", "/", "=", "<"];
const FOREIGN: &[&str] = &["<svg>", "</svg>", "<math>", "</math>", "<g>", "</g>", "<g/>", "<SVG>", "</SVG>", "<![CDATA[x]]>", "<br/>", "t", "<svg/>", "<title></title>"];
const ENDS: &[&str] = &["</a>", "</a >", "</", "</>", "</ a>", "<a>", "<b>", "</b>", "</b\n>", "</A>", ">", " ", "x", "<br>", "</br>", "<!--c-->"];
const LTS: &[&str] = &["<", "< ", "<1", "<<", "x", " ", "<a>", "</a>", "<br>", "<script>y</script>", "<!--c-->", "</x>", ">", "=", "\n", "é"];
const ENT: &[&str] = &[
	"&", "lt", "gt", "amp", ";", "#", "60", "x3C", "&lt;", "&amp;", "&nbsp;", "&#32;", " ", "a", "&copy;", "&bad;", "\n",
];

/// the letters of Unicode that are worth a state of their own
fn uni(thorough: bool) -> Vec<char> {
	let top = if thorough { 0x110000 } else { 0x900 };
	let mut v: Vec<char> = (0..top).filter_map(char::from_u32).collect();
	if !thorough {
		v.extend(
			[
				0x1680, 0x180e, 0x2000, 0x2003, 0x2009, 0x200b, 0x200d, 0x2028, 0x2029, 0x202f, 0x205f, 0x212a, 0x2160, 0x3000, 0x4e2d, 0xac00,
				0xd7ff, 0xe000, 0xfb01, 0xfdd0, 0xfeff, 0xff1c, 0xff1e, 0xff0f, 0xff41, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x1fffe, 0xe0001, 0x10fffd,
				0x10ffff,
			]
			.iter()
			.filter_map(|c| char::from_u32(*c)),
		);
	}
	v
}
/// lexical places a character can stand in
const PLACES: &[(&str, &str)] = &[
	("", ""),
	("x", "y"),
	("<a>", "</a>"),
	("<a> ", " </a>"),
	("<", ">"),
	("<a", "></a>"),
	("<a", "b></a>"),
	("<a ", "></a>"),
	("<a b", "></a>"),
	("<a b=", "></a>"),
	("<a b=c", "d></a>"),
	("<a b='", "'></a>"),
	("<a b=\"", "c\" d></a>"),
	("<a b=\"c\"", "d></a>"),
	("<a b ", "=c></a>"),
	("<a></a", ">"),
	("<a></", "a>"),
	("<!--", "-->"),
	("<!---", "->"),
	("<!", ">"),
	("<!DOCTYPE", "html>"),
	("<!DOCTYPE ", ">"),
	("<!DOCTYPE \"", "\">"),
	("<script>", "</script>"),
	("<script><", "/script>"),
	("<script></script", ">"),
	("<script></script", ""),
	("<title>", "</title>"),
	("<svg><a><![CDATA[", "]]></a></svg>"),
	("<svg><a><![CDATA[]", "]></a></svg>"),
	("<pre> ", " </pre>"),
	("<br", ">"),
	("<br ", "/>"),
	("<a>&", ";</a>"),
	("<a/", "></a>"),
	("<a id=", "></a>"),
	("<p id='", "x'></p>"),
	("\r\n<a>\n", "</b>"),
	("<!DOCTYPE html>", "<html></html>"),
	("<b><Title>x</TITLE", "></b>"),
	("<svg><a><![", "CDATA[x]]></a></svg>"),
	("<svg><a/><![CDATA[x]]>", "</svg>"),
	("<p><b>x</b", "></p>"),
	("<b c=d", " e></b>"),
	("<b c=d ", "/>"),
];

fn unicode(r: &Runner, masks: &[u8]) {
	let u = uni(r.thorough);
	let n = u.len() * PLACES.len() * masks.len();
	r.family(
		"characters",
		&format!("{} characters x {} lexical places x {} option set(s)", u.len(), PLACES.len(), masks.len()),
		n,
		|i| {
			let (p, i) = (i % PLACES.len(), i / PLACES.len());
			let (m, i) = (i % masks.len(), i / masks.len());
			Some(Case { s: format!("{}{}{}", PLACES[p].0, u[i], PLACES[p].1), pm: masks[m], aux: String::new() })
		},
	);
	pairs_in_places(r, &masks[..1]);
	stretches(r, masks);
	dictionary(r, masks);
	contexts(r, masks);
	features(r, masks);
	substitutions(r, masks);
	snippets(r, masks);
	crowds(r, masks);
}
/// every two characters of ASCII, one after the other, everywhere
fn pairs_in_places(r: &Runner, masks: &[u8]) {
	let n = 128;
	r.family("pairs in places", &format!("{} x {} characters side by side in {} lexical places x {} option set(s)", n, n, PLACES.len(), masks.len()), n * n * PLACES.len() * masks.len(), |i| {
		let (m, i) = (i % masks.len(), i / masks.len());
		let (p, i) = (PLACES[i % PLACES.len()], i / PLACES.len());
		let (a, b) = ((i % n) as u8 as char, (i / n) as u8 as char);
		Some(Case { s: format!("{}{}{}{}", p.0, a, b, p.1), pm: masks[m], aux: String::new() })
	});
}
/// what people write
const SNIPPETS: &str = include_str!("snippets.txt");
/// every word of a document made longer, at all its places
fn inflations(r: &Runner, masks: &[u8]) {
	const T: &[&str] = &[
		"<ab></ab>", "<ab></AB>", "<ab>x</ab >y", "<AB><ab></ab></AB>", "<ab", "<ab>", "<ab><cd>", "<ab/>", "<svg><ab/></svg>", "<svg><ab><![CDATA[x]]></ab></svg>", "<p></ab></p>", "</ab>x", "<ab><cd></ab></cd></ab>", "<svg><ab></ab></svg><cd/>",
		"<a kk></a>", "<a kk=v1></a>", "<a kk=1 kk=2></a>", "<a kk kk=2 KK></a>", "<a kk='1' jj=\"2\" kk=3></a>", "<br kk=v/>", "<a kk = vv jj></a>", "<a id=vv></a>", "<a id='vv'></a><b id=vv></b>", "<a id=ww id=vv>", "<a vv=id id=vv></a>", "<a b=vv/>", "<a b='vv'/>", "<a b=\"vv ww\"></a>", "<a b='vv", "<a kk=", "<a =kk></a>", "<a kk/jj=vv></a>", "<a 'kk'></a>",
		"tt", "<p>tt</p>", "tt<b>uu</b>tt", "<p> tt  uu </p>", "tt</i>uu", "<p>tt<1uu</p>", "tt< uu", "tt<<b>uu</b>", "&tt;", "<p>&lt;tt&amp;uu</p>", "tt&amp;uu", "&#x41;tt",
		"<!--cc-->", "<p><!--cc--dd--></p>", "<!--cc", "<!--cc--->", "<!DOCTYPE ww>", "<!DOCTYPE ww \"xx\" 'yy'>", "<!DOCTYPE ww=xx>", "<!DOCTYPE ww ww>", "<!DOCTYPEww>", "<!ww>",
		"<script>ss</script>", "<title>ss</titlX></title>", "<textarea>ss&uu</TEXTAREA >tt", "<style>ss</ style></style>", "<script kk=vv>ss</script><ab></ab>", "<script>ss", "<svg><title>ss</title></svg>", "<svg><ab><![CDATA[ss]]></ab></svg>", "<math><ab><![CDATA[ss]]]]></ab><cd/></math>",
		"<pre>tt  uu</pre> <b> </b>", "<pre><ab>  tt</ab></pre>", "<html><ab></ab></html><!--cc-->", "<html kk>tt</html>uu", "<ab><ab><ab></ab></ab></ab>", "<ab></ab><ab></ab><cd></cd><ab></ab>",
	];
	let mut v: Vec<(String, String)> = vec![];
	let lines: Vec<&str> = SNIPPETS.lines().chain(T.iter().copied()).collect();
	for l in &lines {
		let mut w: Vec<&str> = l.split(|c: char| !c.is_ascii_alphanumeric() && c != '-' && c != '_').filter(|x| x.chars().any(|c| c.is_ascii_alphabetic())).collect();
		w.sort();
		w.dedup();
		v.extend(w.iter().map(|w| (l.to_string(), w.to_string())));
	}
	let lens: Vec<usize> = if r.thorough { (1..=140).chain([200, 255, 256, 257, 300, 511, 512, 513, 1000]).collect() } else { (1..=34).chain([40, 48, 62, 63, 64, 65, 100, 126, 127, 128, 129, 130, 255, 256, 257]).collect() };
	const FILL: &[&str] = &["bcdefghijklmnopqrstuvwxyz", "0123456789", "-x1", "XyZ_"];
	r.family("longer words", &format!("each of {} words of {} documents, made longer in {} sizes and {} ways x {} option set(s)", v.len(), lines.len(), lens.len(), FILL.len(), masks.len()), v.len() * lens.len() * FILL.len() * masks.len(), |i| {
		let (m, i) = (i % masks.len(), i / masks.len());
		let (f, i) = (i % FILL.len(), i / FILL.len());
		let (n, i) = (lens[i % lens.len()], i / lens.len());
		let (l, w) = &v[i];
		let long: String = w.chars().chain(FILL[f].chars().cycle().take(n)).collect();
		// only whole words
		let (mut s, mut word) = (String::new(), String::new());
		for c in l.chars().chain(['\0']) {
			if c.is_ascii_alphanumeric() || c == '-' || c == '_' {
				word.push(c);
				continue;
			}
			s.push_str(if &word == w { &long } else { &word });
			word.clear();
			if c != '\0' {
				s.push(c);
			}
		}
		Some(Case { s, pm: masks[m], aux: String::new() })
	});
}
fn snippets(r: &Runner, masks: &[u8]) {
	let lines: Vec<&str> = SNIPPETS.lines().collect();
	let mut docs: Vec<String> = lines.iter().map(|l| l.to_string()).collect();
	for w in 2..=9 {
		docs.extend(lines.windows(w).filter(|w| w.len() == 2 || w[0].starts_with("<!DOCTYPE html>") || w[0].starts_with("<pre>") || w[0].starts_with("<ul>")).map(|w| w.join("\n")));
	}
	docs.push(SNIPPETS.into());
	let mut all: Vec<(String, u8)> = vec![];
	let single: Vec<u8> = masks.iter().copied().chain([masks[0] | UNCLOSED | UNEXP | LT | SELF]).collect();
	for d in &docs {
		for m in &single {
			all.push((d.clone(), *m));
		}
	}
	for l in &lines {
		for (a, b) in CONTEXTS {
			for m in &single {
				all.push((format!("{}{}{}", a, l, b), *m));
			}
		}
		let c: Vec<char> = l.chars().collect();
		for i in 0..=c.len() {
			for m in &single {
				all.push((c[..i].iter().collect(), *m));
				all.push((c[i..].iter().collect(), *m));
			}
			// a character less, a character twice
			if i < c.len() {
				for m in &single {
					all.push((c[..i].iter().chain(&c[i + 1..]).collect(), *m));
					all.push((c[..=i].iter().chain(&c[i..]).collect(), *m));
				}
			}
		}
	}
	all.sort();
	all.dedup();
	r.family("snippets", &format!("{} pieces of html as people write it: alone, side by side, in {} contexts, cut, a character left out or doubled: {} sources with options", lines.len(), CONTEXTS.len(), all.len()), all.len(), |i| {
		Some(Case { s: all[i].0.clone(), pm: all[i].1, aux: String::new() })
	});
}
/// n of a kind, and then or inside of it something else
fn crowd(k: usize, n: usize) -> Option<(String, String)> {
	let rep = |s: &str| s.repeat(n);
	Some(match k {
		0 => (rep("<b>"), rep("</b>")),
		1 => (rep("<p> <i>"), rep("</i> </p>")),
		2 => (format!("<svg>{}", rep("<g>")), format!("{}</svg>", rep("</g>"))),
		3 => (format!("<pre>{}", rep("<i>")), format!("{}</pre>", rep("</i>"))),
		4 => (rep("<b></b>"), String::new()),
		5 => (rep("<br>"), rep("<br>")),
		6 => (rep("x "), String::new()),
		7 => (rep("\n"), rep(" ")),
		8 => (rep("<!--c-->"), String::new()),
		9 => ((0..n).map(|i| format!("<i id=k{}></i>", i)).collect(), String::new()),
		10 => (rep("\u{20ac}"), rep("\u{1f600}")),
		11 => (format!("<p{}>", (0..n).map(|i| format!(" k{}={}", i, i)).collect::<String>()), "</p>".into()),
		12 => (rep("<script>s</script>"), rep("<title>t</title>")),
		13 => (rep("&lt;"), rep("&amp;")),
		14 => (rep("<p>x</p>\r\n"), rep(" <p> </p>")),
		15 => (rep("<svg><g/></svg>"), rep("<math></math>")),
		16 => (rep("</i>"), rep("</i>")),
		17 => (rep("<1 "), rep(" <2")),
		18 => (rep("<u>"), String::new()),
		19 => (format!("<a b='{}'>", rep("v")), "</a>".into()),
		_ => return None,
	})
}
fn crowds(r: &Runner, masks: &[u8]) {
	let mut sizes: Vec<usize> = vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 21, 25, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 200, 256, 257];
	if r.thorough {
		sizes = (2..=66).collect();
		for b in [100usize, 128, 200, 256, 300, 500, 512, 1000, 1024] {
			sizes.extend([b - 1, b, b + 1]);
		}
	}
	let mut docs: Vec<&str> = SHORT.to_vec();
	docs.extend(FEATURES.iter().filter(|f| !f.starts_with("</")));
	docs.extend(["</b>", "<", "<i", "<!--", "<script>", "x<b", "<p>  x</p>  <p> </p>", "<a></i>", "<g/><g></g>", "<![CDATA[z]]>", "<u a='"]);
	docs.sort();
	docs.dedup();
	let one = [masks[0]];
	let m: &[u8] = if r.thorough { masks } else { &one };
	let nk = 20;
	r.family("crowds", &format!("{} documents behind or inside of, and also before, {} sizes up to {} of {} kinds x {} option set(s)", docs.len(), sizes.len(), sizes.last().unwrap(), nk, m.len() + 1), docs.len() * sizes.len() * nk * (m.len() + 1) * 2, |i| {
		let (echo, i) = (i % 2 == 1, i / 2);
		let (d, i) = (docs[i % docs.len()], i / docs.len());
		let (pm, i) = (if i % (m.len() + 1) == 0 { m[0] | FIXES | SELF } else { m[i % (m.len() + 1) - 1] }, i / (m.len() + 1));
		let (k, i) = (i % nk, i / nk);
		// these are only about repairs
		if matches!(k, 16..=18) && pm & FIXES != FIXES {
			return None;
		}
		let (a, b) = crowd(k, sizes[i])?;
		Some(Case { s: format!("{}{}{}{}", if echo { d } else { "" }, a, d, b), pm, aux: String::new() })
	});
}
/// documents with a bit of everything the scanner has to recognise
const SHORT: &[&str] = &[
	"<!DOCTYPE html>", "<!doctype h \"a\">x", "<p><!-- c --></p>", "<svg><g><![CDATA[ d ]]></g></svg>", "<math><mi/></math>", "<script>a<b</script>", "<STYLE>c</style >", "<title>&lt;</title>x",
	"<TextArea k>t</TEXTAREA>", "<pre>  z </pre>", "<br>", "<br/>", "<IMG a=b >", "<input c='d' e/>", "<a id=x></a>", "<b Id=\"y\"> </b>", "<i j k=l m='n o' p=\"q\"/></i>", "x &amp; y", "<html></html>",
	"<ab><Cd>e</cD></AB>", "<p></i></p>", "<p><1</p>", "<p>a<p b>", "<s =t></s>", "<u></u\n>", "<x-y:z._0></x-y:z._0>", "&#60;&#x3E;&quot;", " \n<b>\t</b>\r\n", "<meta name='a' content=\"b;c\"><link/>",
];
/// one position of these replaced by everything that could be taken for what stood there, and everything inserted
fn substitutions(r: &Runner, masks: &[u8]) {
	let mut rel: std::collections::HashMap<char, Vec<char>> = Default::default();
	for x in (0x80..0x110000u32).filter_map(char::from_u32) {
		for y in x.to_lowercase().chain(x.to_uppercase()).filter(char::is_ascii) {
			rel.entry(y.to_ascii_lowercase()).or_default().push(x);
			rel.entry(y.to_ascii_uppercase()).or_default().push(x);
		}
	}
	let few = ['\u{80}', '\u{85}', '\u{a0}', 'é', '\u{1680}', '\u{2003}', '\u{2028}', '\u{3000}', '\u{feff}', '\u{1f600}'];
	let mut v: Vec<String> = vec![];
	for d in SHORT {
		let c: Vec<char> = d.chars().collect();
		let mut put = |i: usize, x: Option<char>, skip: usize| v.push(c[..i].iter().copied().chain(x).chain(c[i + skip..].iter().copied()).collect());
		for i in 0..=c.len() {
			for x in (0..0x80u8).map(|b| b as char).chain(few) {
				put(i, Some(x), 0);
				if i < c.len() {
					put(i, Some(x), 1);
				}
			}
			if i < c.len() {
				put(i, None, 1);
				let o = c[i] as u32;
				// same low byte or bits, full width, mathematical, tag characters, relatives in case
				for k in (1..=0x20).map(|k| o + k * 0x100).chain([0x80 + o, 0x1000 + o, 0x10000 + o, 0x100000 + o, 0xfee0 + o, 0xe0000 + o, 0x1d400 + o - 0x41.min(o), 0x24b6 + o - 0x41.min(o), 0x400 | o]) {
					if let Some(x) = char::from_u32(k) {
						put(i, Some(x), 1);
					}
				}
				for x in rel.get(&c[i]).into_iter().flatten() {
					put(i, Some(*x), 1);
				}
			}
			if i + 1 < c.len() {
				put(i, Some(c[i + 1]), 1);
			}
		}
	}
	for d in SHORT {
		let c: Vec<char> = d.chars().collect();
		for i in 0..c.len() {
			if i + 1 < c.len() {
				v.push(c[..i].iter().chain([&c[i + 1], &c[i]]).chain(c[i + 2..].iter()).collect());
			}
			for j in i + 1..=c.len() {
				v.push(c[..i].iter().chain(c[j..].iter()).collect());
				v.push(c[..j].iter().chain(c[i..].iter()).collect());
			}
		}
	}
	v.sort();
	v.dedup();
	r.family("substitutions", &format!("{} documents: every character replaced, inserted, deleted, swapped, every part left out or doubled: {} sources x {} option set(s)", SHORT.len(), v.len(), masks.len()), v.len() * masks.len(), |i| {
		Some(Case { s: v[i / masks.len()].clone(), pm: masks[i % masks.len()], aux: String::new() })
	});
}
/// what can stand around a lexical place
const CONTEXTS: &[(&str, &str)] = &[
	("<svg id=q>", "</svg>"),
	("<svg><g>t", "<g/></g></svg>"),
	("<math><mi/>", "</math>"),
	("<pre>  ", "  </pre>"),
	("<b id=q></b>", "<b id=r></b>"),
	("<p><p><p><p>", "</p></p></p></p>"),
	("<!DOCTYPE html><html><head></head><body>", "</body></html>"),
	("<script>1<2</script> ", " <style></style>"),
	("<p a='1' b>x<br c/><!--d-->", "y  z</p>"),
	(" ", "\n"),
	("<TITLE>&</TITLE>", "<pre> </pre>"),
	("</i>x<1", "</i> <2"),
	("x</i>", "</i>y"),
	("<a b=\"c\"> </a>", "<1<a"),
];
/// every ASCII character and every pair of some tokens, at every lexical place in every context
fn contexts(r: &Runner, masks: &[u8]) {
	let mut w: Vec<String> = (0..0x80u8).map(|c| (c as char).to_string()).collect();
	w.extend(["\u{a0}", "é", "\u{2028}", "\u{feff}", "\u{1f600}"].iter().map(|x| x.to_string()));
	let t = ["x", " ", "<", ">", "/", "=", "'", "\"", "&", ";", "#", "-", "]", "\n", "A", "</", "<b>", "</b>", "<br>", "<!--", "1"];
	w.extend(t.iter().flat_map(|a| t.iter().map(move |b| format!("{}{}", a, b))));
	let (np, nc) = (PLACES.len(), CONTEXTS.len());
	let one = [masks[0]];
	let more: &[u8] = if masks.len() > 2 && !r.thorough { &one } else { masks };
	r.family("contexts", &format!("{} characters and pairs of tokens x {} lexical places x {} contexts x {} option set(s)", w.len(), np, nc, more.len()), w.len() * np * nc * more.len(), |i| {
		let (p, i) = (i % np, i / np);
		let (c, i) = (i % nc, i / nc);
		let (m, i) = (i % more.len(), i / more.len());
		let ((a, d), (b, e)) = (CONTEXTS[c], PLACES[p]);
		Some(Case { s: format!("{}{}{}{}{}", a, b, w[i], e, d), pm: more[m], aux: String::new() })
	});
}
/// nodes of every kind with and without attributes and slashes, in every order and nesting
const FEATURES: &[&str] = &[
	"x  y", " ", "\n\t", "a&amp;b", "<!-- c  d -->", "<br>", "<br/>", "<br a>", "<BR a b=c />", "<img a='b  c' D=\"\">", "<g/>", "<g a/>", "<g a b/>", "<script> a  b</script>",
	"<Title x> y  z&</TITLE >", "<textarea a b>\n</textarea>", "<![CDATA[ d  ]]>", "<pre>", "<PRE a b>", "</pre>", "<svg a b>", "</svg>", "<p a=1>", "<P a=\"1 2\" b>", "</p>", "</p >",
	"<!DOCTYPE a \"b\">", "<i a/></i>",
];
fn features(r: &Runner, masks: &[u8]) {
	let m: Vec<u8> = masks.iter().map(|m| m | UNCLOSED).fold(vec![], |mut v, m| { if !v.contains(&m) { v.push(m) } v });
	let m = if r.thorough { &m[..] } else { &m[..1] };
	sp(r, "features", &["", "<pre>", "<svg>", "<pre><svg>", "<p><!--c-->"], FEATURES, &["", "x  y <b> </b>"], 3, 4, m);
}
/// words that mean something in html or to programmers, though not to this parser
const WORDS: &str = include_str!("words.txt");
fn dictionary(r: &Runner, masks: &[u8]) {
	let mut w: Vec<String> = WORDS.split(' ').map(|x| x.to_string()).collect();
	for x in WORDS.split(' ') {
		w.push(x.to_ascii_uppercase());
		w.push(x.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect());
		w.push(format!(" {} ", x));
	}
	w.sort();
	w.dedup();
	const MORE: &[(&str, &str)] = &[("<a ", "=b></a>"), ("<a ", "='b c' d></a>"), ("<a ", " =\"\"/></a>"), ("<br x=", " y>"), ("<input ", ">"), ("<p x=\"", "\">t</p>"), ("<!DOCTYPE html ", ">"), ("<i><!-- ", " --></i>"), ("<p>a ", "</p> b"), ("<style>", "</style>"), ("<a ", ""), ("<a b='", "")];
	let n = PLACES.len() + MORE.len();
	r.family("dictionary", &format!("{} words of html and of programmers x {} places x {} option set(s)", w.len(), n, masks.len()), w.len() * n * masks.len(), |i| {
		let (p, i) = (i % n, i / n);
		let (m, i) = (i % masks.len(), i / masks.len());
		let p = if p < PLACES.len() { PLACES[p] } else { MORE[p - PLACES.len()] };
		Some(Case { s: format!("{}{}{}", p.0, w[i], p.1), pm: masks[m], aux: String::new() })
	});
}
/// one token repeated at every lexical place
fn stretches(r: &Runner, masks: &[u8]) {
	let toks = [" ", "\n", "\r\n", "x", "A", "é", "-", "]", "/", "=", "\"", "'", "<", ">", "&", ";", "b ", "\"c\" ", "</", "</a", "<b></b>", "</i>", "<!---->", "<br/>", "\u{20ac}", "\u{1f600}", "\t", "&lt;", "x\u{20ac}", "1"];
	let mut sizes: Vec<usize> = (2..=34).collect();
	for b in [40usize, 50, 64, 100, 128, 200, 256, 512] {
		sizes.extend([b - 1, b, b + 1]);
	}
	if r.thorough {
		sizes = (2..=1025).collect();
	}
	r.family(
		"stretches",
		&format!("{} tokens repeated in {} sizes up to {} at {} lexical places x {} option set(s)", toks.len(), sizes.len(), sizes.last().unwrap(), PLACES.len(), masks.len()),
		toks.len() * sizes.len() * PLACES.len() * masks.len(),
		|i| {
			let (p, i) = (i % PLACES.len(), i / PLACES.len());
			let (m, i) = (i % masks.len(), i / masks.len());
			let (t, i) = (i % toks.len(), i / toks.len());
			Some(Case { s: format!("{}{}{}", PLACES[p].0, toks[t].repeat(sizes[i]), PLACES[p].1), pm: masks[m], aux: String::new() })
		},
	);
}

/// one dimension grown from 0 to a bound, everything else fixed
fn pump(k: usize, n: usize) -> Option<String> {
	let rep = |s: &str| s.repeat(n);
	Some(match k {
		0 => format!("{}x{}", rep("<a>"), rep("</a>")),
		1 => format!("<a {}></a>", (0..n).map(|i| format!(" k{}='{}'", i, i)).collect::<String>()),
		2 => format!("<a>{}</a>", rep("x")),
		3 => format!("<p>{}</p>", rep("<b></b>")),
		4 => format!("<a>{}</a><b>{}x</b>{}", rep(" "), rep("\n"), rep(" ")),
		5 => format!("<!--{}--><a>y</a>", rep("-")),
		6 => format!("<a b=\"{}\" c></a>", rep("v ")),
		7 => format!("<a {}=c></a>", rep("k").get(..n.max(1)).unwrap_or("k")),
		8 => format!("<a{}></a{}>", rep("n"), rep("n")),
		9 => format!("<script>{}</script>", rep("</scrip>")),
		10 => format!("<script>{}</script >z", rep("x")),
		11 => format!("{}x{}", rep("<svg>"), rep("</svg>")),
		12 => format!("<svg><g><![CDATA[{}]]></g></svg>", rep("]")),
		13 => format!("{}{}", rep("<br>"), rep("x<!--c-->")),
		14 => format!("<a></a{}>t", rep(" ")),
		15 => format!("<a{}></a>", rep(" b")),
		16 => format!("{}<i id=x{}></i>", rep("<i id=q></i>"), n),
		17 => format!("{}<b></b>{}", rep("<pre> </pre>"), rep("  <i> </i>")),
		18 => format!("{}x{}", rep("<pre>  "), rep("  y</pre>  z")),
		19 => format!("<!DOCTYPE{}{}>", if n == 0 { " " } else { "" }, rep(" \"q\"")),
		20 => format!("<title>{}</title>{}", rep("&lt;<"), rep("&amp; ")),
		21 => format!("{}</b>", rep("x\r\n")),
		22 => format!("{}", rep("<a>")),
		23 => format!("<a>{}", rep("</b>")),
		24 => format!("<a>{}x</a>", rep("<")),
		25 => format!("{}<a b='{}", rep("<a>t"), rep("c")),
		26 => format!("<b>x{}</b>", rep("</a>y ")),
		27 => format!("<b>{}</b>", rep("<1 ")),
		28 => format!("{}x{}", rep("<a><br>"), rep("</A>")),
		29 => format!("{}{}", rep("\n"), "<a =b>"),
		30 => format!("<a b='{}'", rep("é")),
		31 => format!("<p>{}</p>", (0..n).map(|i| format!("<i id=k{}>{}</i>", i, i)).collect::<String>()),
		32 => format!("{}<html><p>{}</p></html>{}", rep("<!--c--> "), n, rep("\n")),
		33 => format!("<a b={}></a>", rep("/")),
		34 => format!("{}é{}", rep("<div> "), rep(" </div>")),
		35 => format!("{}</b>", rep("x")),
		36 => format!("{}<!x", rep("<b>\n</b>")),
		37 => format!("<a {}>\n</B>", rep("é ")),
		_ => return None,
	})
}
const PUMPS: usize = 38;
fn pumps(r: &Runner, masks: &[u8], quick: usize, thorough: usize) {
	let top = if r.thorough { thorough } else { quick };
	r.family(
		"growth",
		&format!("{} shapes x every size 0..{} x {} option set(s)", PUMPS, top, masks.len()),
		PUMPS * (top + 1) * masks.len(),
		|i| {
			let (m, i) = (i % masks.len(), i / masks.len());
			let (k, n) = (i % PUMPS, i / PUMPS);
			pump(k, n).map(|s| Case { s, pm: masks[m], aux: String::new() })
		},
	);
}

/// sizes at which buffers, counters and tables usually change their behaviour
fn big_pumps(r: &Runner, masks: &[u8]) {
	let top = if r.thorough { 16 } else { 12 };
	let mut sizes: Vec<usize> = vec![999, 1000, 1001, 5000, 10000];
	for k in 9..=top {
		sizes.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
	}
	if !r.thorough {
		sizes.extend([65535, 65536, 65537]);
	}
	let shallow = |k: usize| !matches!(k, 0 | 11 | 18 | 22 | 25 | 28 | 34);
	r.family(
		"growth, big",
		&format!("{} shapes x {} sizes 2^k-1, 2^k, 2^k+1 (9 <= k <= {}) and others x {} option set(s)", PUMPS, sizes.len(), top, masks.len()),
		PUMPS * sizes.len() * masks.len(),
		|i| {
			let (m, i) = (i % masks.len(), i / masks.len());
			let (k, n) = (i % PUMPS, sizes[i / PUMPS]);
			// the repair of '<' copies the text each time: quadratic
			if n > 10001 && (!shallow(k) || matches!(k, 24 | 27)) {
				return None;
			}
			pump(k, n).map(|s| Case { s, pm: masks[m], aux: String::new() })
		},
	);
}
/// a realistic page with every kind of construct, and everything that is one small edit away from it
const PAGE: &str = include_str!("page.html");
const PAGE_PUT: &[&str] = &["<", ">", "/", "\"", "'", "=", " ", "\n", "-", "!", "]", "a", "A", "é", "<a>", "</a>", "<br>", "<!--", "-->", "</", "<1", "&", "<svg>", "</svg>", "</b>", "<pre>", "<script>", "</script>", "/>", "\0"];
fn page(r: &Runner, masks: &[u8]) {
	let c: Vec<char> = PAGE.chars().collect();
	let n = c.len();
	// per place: cut, delete 1, delete 2, swap, double, flip the case; then the insertions
	let kinds = 6 + PAGE_PUT.len();
	r.family(
		"page",
		&format!("a page of {} characters: cut, delete, swap, double, change of case and {} insertions at every place x {} option set(s)", n, PAGE_PUT.len(), masks.len()),
		(n + 1) * kinds * masks.len(),
		|i| {
			let (m, i) = (i % masks.len(), i / masks.len());
			let (k, at) = (i % kinds, i / kinds);
			let (a, b) = (&c[..at], &c[at..]);
			let mut v: Chars = a.to_vec();
			match k {
				0 => {}
				1 => v.extend(b.get(1..)?),
				2 => v.extend(b.get(2..)?),
				3 => {
					v.extend([*b.get(1)?, b[0]]);
					v.extend(&b[2..]);
				}
				4 => {
					v.push(*b.first()?);
					v.extend(b);
				}
				5 => {
					let x = *b.first()?;
					if !x.is_ascii_alphabetic() {
						return None;
					}
					v.push(if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() });
					v.extend(&b[1..]);
				}
				_ => {
					v.extend(PAGE_PUT[k - 6].chars());
					v.extend(b);
				}
			}
			Some(Case { s: v.into_iter().collect(), pm: masks[m], aux: String::new() })
		},
	);
}
/// a long stretch in every lexical place, and then each token that could mean something there
const LONG: &[(&str, &str)] = &[
	("", ""), ("<p>", "</p>"), ("<a ", "></a>"), ("<a b=", "></a>"), ("<a b='", "'></a>"), ("<br b=\"", "\">"), ("<a", "></a>"), ("<a></a", ">"), ("<!--", "-->y"), ("<!DOCTYPE ", ">"), ("<!DOCTYPE '", "'>"),
	("<script>", "</script>z"), ("<title>", "</title>"), ("<svg><g><![CDATA[", "]]></g></svg>"), ("<pre>", "</pre>"), ("<p></i", "></p>"), ("<p></b>", "</p>"), ("<p><1", "</p>"),
];
fn long_contexts(r: &Runner, masks: &[u8]) {
	let toks = ["", "<", ">", "/", "\"", "'", "=", " ", "  x", "-", "--", "-->", "]]", "</", "</a>", "<b></b>", "&lt;", "é", "\n", "</scrip>", "</title", "</p>", "=c d='", "/>"];
	let fill = ["x", " ", "é", "- ", "x "];
	let mut sizes: Vec<usize> = (1..24).collect();
	for b in [32usize, 50, 64, 100, 128, 200, 255, 256, 512, 1000, 1024] {
		sizes.extend([b - 2, b - 1, b, b + 1]);
	}
	sizes.sort_unstable();
	sizes.dedup();
	let total = LONG.len() * toks.len() * fill.len() * sizes.len();
	r.family(
		"long contexts",
		&format!("{} places x {} fillings x {} lengths up to 1025 x {} tokens behind x {} option set(s)", LONG.len(), fill.len(), sizes.len(), toks.len(), masks.len()),
		total * masks.len(),
		|i| {
			let (m, i) = (i % masks.len(), i / masks.len());
			let (l, i) = (LONG[i % LONG.len()], i / LONG.len());
			let (t, i) = (toks[i % toks.len()], i / toks.len());
			let (f, i) = (fill[i % fill.len()], i / fill.len());
			Some(Case { s: format!("{}{}{}{}", l.0, f.repeat(sizes[i]), t, l.1), pm: masks[m], aux: String::new() })
		},
	);
}
/// every one of the 64 option sets which contains the given one
fn combos(r: &Runner, with: u8) {
	let m: Vec<u8> = (0..64).filter(|x| x & with == with).collect();
	doc_space(r, 3, 3, &m);
	attr_space(r, 3, 4, &m);
	raw_space(r, 3, 3, &m);
	decl_space(r, 2, 3, &m);
	foreign_space(r, 3, 4, &m);
	end_space(r, 3, 4, &m);
	lt_space(r, 3, 4, &m);
	ws_space(r, 3, 4, &m);
	big_pumps(r, &[with, 63]);
	page(r, &[with, 63]);
	long_contexts(r, &[with]);
}
/// all the topical alphabets, for the properties that are about any source
fn topics(r: &Runner, q: usize, t: usize, masks: &[u8]) {
	inflations(r, masks);
	sp(r, "attribute words", &["<a", "<br", "<svg><g", "<a x"], ATTR_WORDS, &[">", "/>", "></a>", "></g></svg>", ""], q, t, masks);
	sp(r, "doctype attributes", &["<!DOCTYPE ", "<a><!doctype"], DOCTYPE_WORDS, &[">", "\">", "></a>"], q, t, masks);
	sp(r, "comment bodies", &["<!--", "<p> <!--"], COMMENT_BODY, &["", "-->", "--></p>"], q + 1, t + 1, masks);
	sp(r, "cdata bodies", &["<svg><a><![CDATA[", "<math><mi><![cdata["], CDATA_BODY, &["", "]]></a></svg>", "]]></mi></math>"], q + 1, t + 1, masks);
	sp(r, "doctypes", &["<!DOCTYPE", "<!doctype", "<!DocType"], DOCTYPE_PARTS, &["", ">", " ><a></a>"], q, t, masks);
	sp(r, "raw elements in a row", &["", "<svg>"], RAW_ROW, &["", "</svg>"], q, t, masks);
	sp(r, "case mixes", &[""], CASES, &[""], q + 1, t + 1, masks);
	sp(r, "case mixes in svg", &["<svg>", "<MATH>"], SVG_CASES, &["", "</svg>"], q, t, masks);
	sp(r, "void and self-closing", &["", "<p>", "<svg>"], VOID_SELF, &["", "</p>", "</svg>"], q, t, masks);
	sp(r, "ids", &["", "<p>"], IDS, &["", "</p>"], q, t, masks);
	sp(r, "whitespace next to everything", &["", "<p> ", "<pre>"], WS_NEXT, &["", "</p>", "</pre>"], q, t, masks);
	sp(r, "entities in places", &["", "<p a='&lt;'>"], ENT_PLACES, &["", "</p>"], q, t, masks);
	sp(r, "document parts", &[""], DOC_PARTS, &[""], q + 1, t + 1, masks);
	sp(r, "content kinds", &["", "<p>", "<svg><g>"], KINDS, &["", "</p>", "</g></svg>"], q, t, masks);
}
/// every one of the 512 sets of render options on every small tree and short document
fn render_combos(r: &Runner) {
	let v = forests(if r.thorough { 4 } else { 3 }, LEAVES, CONTAINERS);
	r.family("all render options, forests", &format!("{} trees, every combination of render options", v.len()), v.len(), |i| {
		Some(Case { s: forest(&v[i]).0, pm: 0, aux: "all".into() })
	});
	r.seqs(&Space { name: "all render options, documents", prefixes: &["", "<PRE ><!--c--> "], alpha: DOC, tails: &["", " </pre >"], depth: if r.thorough { 3 } else { 2 }, masks: &[SELF, 63], aux: "all" });
	r.seqs(&Space { name: "all render options, entities", prefixes: &["<p>", "<title>", "<PRE>", "<textarea>", "<script>", "<svg><a><![CDATA[", "<i><!--"], alpha: ENT, tails: &["</p>", "</Title >", "</pre>", "</textarea>", "</script>", "]]></a></svg>", "--></i>"], depth: if r.thorough { 3 } else { 2 }, masks: &[0], aux: "all" });
	r.seqs(&Space { name: "all render options, attributes", prefixes: &["<A", "<BR", "<!doctype"], alpha: ATTR_WORDS, tails: &[">", "/>", "></A >"], depth: 2, masks: &[SELF], aux: "all" });
	r.seqs(&Space { name: "all render options, whitespace", prefixes: &["", "<p> ", "<pre>"], alpha: WS_NEXT, tails: &["", "</p>", "</pre>"], depth: 2, masks: &[0], aux: "all" });
	big_pumps(r, &[0, 63]);
	page(r, &[63]);
	long_contexts(r, &[0]);
}

/// element names: every special name with its case variants and near misses
fn names() -> Vec<String> {
	let mut v: Vec<String> = vec![];
	let all: Vec<&str> = VOIDS.iter().chain(RAWS.iter()).copied().chain(["svg", "math", "pre", "html", "a", "b", "p", "div", "h1", "my-tag", "head", "body", "noscript", "template", "iframe", "xmp", "plaintext", "command", "keygen", "listing", "foreignObject", "image", "frame", "basefont", "bgsound", "nobr", "menuitem", "g", "li", "ul", "tr", "td", "table", "option", "select", "style1", "é", "o:p", "a_b", "a.b", "a:b:c", "h1-2", "x1y"]).collect();
	for n in all {
		let up = n.to_ascii_uppercase();
		let cap: String = n.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect();
		let last: String = n.chars().enumerate().map(|(i, c)| if i + 1 == n.chars().count() { c.to_ascii_uppercase() } else { c }).collect();
		let alt: String = n.chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect();
		let mut cut = n.to_string();
		cut.pop();
		for x in [n.to_string(), up, cap, last, alt, format!("{}s", n), format!("{}-x", n), format!("x{}", n), cut, n.replace('k', "\u{212a}").replace('s', "\u{17f}")] {
			if x.chars().next().map_or(false, |c| c.is_ascii_alphabetic()) && !v.contains(&x) {
				v.push(x);
			}
		}
	}
	v
}
/// every element name of html (obsolete ones, too), svg and mathml
const ELEMENTS: &str = "a abbr acronym address applet article aside audio b basefont bdi bdo bgsound big blink blockquote body button canvas caption center cite code colgroup command content data datalist dd del details dfn dialog dir div dl dt element em fieldset figcaption figure font footer form frame frameset h1 h2 h3 h4 h5 h6 head header hgroup html i iframe image ins isindex kbd keygen label legend li listing main map mark marquee menu menuitem meter multicol nav nextid nobr noembed noframes noscript object ol optgroup option output p param1 picture plaintext pre progress q rb rbc rp rt rtc ruby s samp search section select shadow slot small spacer span strike strong sub summary sup table tbody td template tfoot th thead time tr tt u ul var video xmp xml svg g defs symbol use path rect circle ellipse line polyline polygon text tspan tref textPath altGlyph marker pattern clipPath mask filter feBlend feColorMatrix feFlood feGaussianBlur feImage feMerge feOffset image animate animateMotion set stop linearGradient radialGradient foreignObject desc metadata view switch cursor font-face glyph hkern mpath script1 styles titles math mi mo mn mtext ms mspace mrow mfrac msqrt mroot mstyle merror mpadded mphantom mfenced menclose msub msup msubsup munder mover munderover mmultiscripts mtable mtr mtd maction semantics annotation annotation-xml maligngroup malignmark mglyph none mprescripts vbox layer ilayer server comment app amp-img x-y h7 h0 img1 br1 b-r ba bas ar are lin met wb inpu sourc embe trac co im h hr1 brr imgs inputs metas links cols bases areas embeds tracks sources params wbrs";
/// documents around one or two names
const NAME_SHAPES: &[&str] = &[
	"<N>", "<N></N>", "<N/>", "<N />", "<N>x</N>", "<N> </N>", "<N><i></i></N>", "<p><N>x</p>", "<p><N>x</N></p>", "<N a=b>", "<N a='b'/>", "<N><b></N>",
	"<svg><N/></svg>", "<svg><N></N></svg>", "<math><N><![CDATA[x]]></N></math>", "<N><a/></N>", "</N>", "<N", "<N ", "<N a", "<N a='", "<N/", "<N></N", "<N></N >", "<N><a><![CDATA[x]]></a></N>", "<N>  x  y </N>",
	"<N> <i> </i> </N>", "<N>&lt;</N>", "<N id=x></N>", "<N><</N>", "<N>a<b</N>", "<!DOCTYPE html><N></N>", "<N></N><!--c-->", "<N></N><N></N>", "<i><N></N></i>", "<N> <N> x</N></N>", "<N>>\n<</N>",
];
/// a name the parser knows, and one that differs from it in one letter
fn near_names() -> Vec<(String, String)> {
	let mut v = vec![];
	for n in VOIDS.iter().chain(RAWS.iter()).chain(["svg", "math", "pre", "html", "foreignObject"].iter()) {
		let k: Vec<char> = n.chars().collect();
		for i in 0..k.len() {
			for c in ('a'..='z').chain(['0', '-', 'X', '\u{e9}']) {
				if i == 0 && !c.is_ascii_alphabetic() || c == k[i] {
					continue;
				}
				let mut o = k.clone();
				o[i] = c;
				v.push((n.to_string(), o.iter().collect()));
			}
			let mut o = k.clone();
			o.swap(i, (i + 1) % k.len());
			if o != k && o[0].is_ascii_alphabetic() {
				v.push((n.to_string(), o.iter().collect()));
			}
		}
	}
	v
}
fn near_space(r: &Runner, masks: &[u8]) {
	let v = near_names();
	const SH: &[&str] = &["<N><M></M></N>", "<N></N><M></M>", "<M></M><N>", "<M><N></M>", "<N/><M/>", "<svg><N></N><M/></svg>", "<N><M>x</N><M>", "<M> <N> </M>"];
	r.family("near names in a row", &format!("{} pairs of a known name and one that is nearly it x {} shapes x {} option set(s)", v.len(), SH.len(), masks.len()), v.len() * SH.len() * masks.len(), |i| {
		let (m, i) = (i % masks.len(), i / masks.len());
		let (k, i) = (i % SH.len(), i / SH.len());
		let s: String = SH[k].chars().map(|c| match c { 'N' => v[i].0.clone(), 'M' => v[i].1.clone(), c => c.to_string() }).collect();
		Some(Case { s, pm: masks[m], aux: String::new() })
	});
}
fn name_space(r: &Runner, masks: &[u8]) {
	all_spellings(r, masks);
	near_space(r, masks);
	element_pairs(r, &masks[..1]);
	let v = names();
	r.family(
		"names",
		&format!("{} element names x {} shapes x {} option set(s)", v.len(), NAME_SHAPES.len(), masks.len()),
		v.len() * NAME_SHAPES.len() * masks.len(),
		|i| {
			let (m, i) = (i % masks.len(), i / masks.len());
			let (k, i) = (i % NAME_SHAPES.len(), i / NAME_SHAPES.len());
			Some(Case { s: NAME_SHAPES[k].replace('N', &v[i]), pm: masks[m], aux: String::new() })
		},
	);
	let mut e: Vec<String> = ELEMENTS.split(' ').map(|x| x.to_string()).collect();
	// and every short name
	let az: Vec<char> = ('a'..='z').chain('0'..='9').collect();
	let short = if r.thorough { 3 } else { 2 };
	let mut level: Vec<String> = ('a'..='z').map(|c| c.to_string()).collect();
	for _ in 1..short {
		level = level.iter().flat_map(|x| az.iter().map(move |c| format!("{}{}", x, c))).collect();
		e.extend(level.clone());
	}
	const SH: &[&str] = &["<N></N>", "<N>", "<N/>", "<N>x</N>", "<N><a/></N>", "<p> <N> </p>", "<N>  x<b> </b> </N>", "<N><![CDATA[x]]></N>", "<N><i></N></i></N>", "<N><", "<svg><N/></svg>"];
	r.family(
		"all names",
		&format!("{} element names (html, svg, mathml, all of <= {} characters) x {} shapes x {} option set(s)", e.len(), short, SH.len(), masks.len()),
		e.len() * SH.len() * masks.len(),
		|i| {
			let (m, i) = (i % masks.len(), i / masks.len());
			let (k, i) = (i % SH.len(), i / SH.len());
			Some(Case { s: SH[k].replace('N', &e[i]), pm: masks[m], aux: String::new() })
		},
	);
}
/// every element in and next to every other
fn element_pairs(r: &Runner, masks: &[u8]) {
	let mut e: Vec<&str> = ELEMENTS.split(' ').collect();
	e.extend("area base br col embed hr img input link meta param source track wbr x-y".split(' '));
	e.sort();
	e.dedup();
	const SH: &[&str] = &["<A><B><g/></B></A>", "<A> <B>  x</B> </A>", "<p><A></A><B></B></p>", "<B><A><B></B></A></B>", "<p><A><B a=b/></A></p>", "<svg><A><B></B><g/></A></svg>", "<A><B><i/></A>", "<p><A><B>y</p>"];
	let n = e.len();
	r.family("element pairs", &format!("{} x {} elements in {} shapes x {} option set(s)", n, n, SH.len(), masks.len()), n * n * SH.len() * masks.len(), |i| {
		let (m, i) = (i % masks.len(), i / masks.len());
		let (k, i) = (i % SH.len(), i / SH.len());
		let s: String = SH[k].chars().map(|c| match c { 'A' => e[i % n].to_string(), 'B' => e[i / n].to_string(), c => c.to_string() }).collect();
		Some(Case { s, pm: masks[m], aux: String::new() })
	});
}
/// every way to write a word in upper and lower case
fn all_cases(w: &str) -> Vec<String> {
	let k: Vec<char> = w.chars().collect();
	(0..1usize << k.len())
		.map(|m| k.iter().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>())
		.collect::<std::collections::BTreeSet<String>>()
		.into_iter()
		.collect()
}
/// the words the parser knows, in every mix of cases
fn all_spellings(r: &Runner, masks: &[u8]) {
	let names: Vec<String> = VOIDS.iter().chain(RAWS.iter()).chain(["svg", "math", "pre", "html"].iter()).flat_map(|n| all_cases(n)).collect();
	let docs: Vec<String> = all_cases("doctype");
	let cdata: Vec<String> = all_cases("cdata");
	const N: &[&str] = &["<N>", "<N></N>", "<N/>", "<i><N> <b></b></N></i>", "<N><g/></N>", "<N>a<b</N>", "<N>  x\n\n<i> </i></N>", "<!--c--> <N></N>", "<p><N x=1></p>", "<N><g><![CDATA[x]]></g></N>"];
	const D: &[&str] = &["<!D html>", "<!D>", "<!D \"a>b\"><html></html>", "<!Dhtml>", "<p><!D x/></p>", "<!D", "<!D "];
	const C: &[&str] = &["<svg><a><![C[x]]></a></svg>", "<math><a><![C[]]]></a></math>", "<a><![C[x]]></a>", "<svg><a><![C", "<svg><a><![C[x"];
	const I: &[&str] = &["<a I=x></a>", "<a b I='x y'/>", "<br I>", "<a I=\"\"><b iD=x></b></a>"];
	let mut v: Vec<String> = vec![];
	for (ws, sh, c) in [(&names, N, 'N'), (&docs, D, 'D'), (&cdata, C, 'C'), (&all_cases("id"), I, 'I')] {
		for w in ws {
			for x in sh {
				v.push(if c == 'D' && x.contains("<html>") { x.replacen('D', w, 1) } else if c == 'C' || c == 'N' { x.replace("![CDATA[", "\u{1}").replace(c, w).replace('\u{1}', "![CDATA[") } else { x.replacen(c, w, 1) });
			}
		}
	}
	r.family("all spellings", &format!("{} documents with the parser's own words in every mix of cases x {} option set(s)", v.len(), masks.len()), v.len() * masks.len(), |i| {
		Some(Case { s: v[i / masks.len()].clone(), pm: masks[i % masks.len()], aux: String::new() })
	});
}
/// pairs of spellings: start tag and end tag written differently
fn name_pairs(r: &Runner, masks: &[u8]) {
	let mut v: Vec<(String, String)> = vec![];
	for n in ["a", "script", "style", "title", "textarea", "svg", "math", "pre", "br", "html", "ab", "h1", "kbd", "aé", "x-Y", "a:b", "aZ[", "b@", "c{", "foreignObject", "linearGradient"] {
		let mut sp: Vec<String> = vec![];
		let k: Vec<char> = n.chars().collect();
		let bits = k.len().min(if r.thorough { 8 } else { 5 });
		for m in 0..1usize << bits {
			sp.push(k.iter().enumerate().map(|(i, c)| if i < bits && m >> i & 1 == 1 { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { *c }).collect());
		}
		sp.push(format!("{}x", n));
		sp.push(k[..k.len() - 1].iter().collect());
		sp.push(n.replace('k', "\u{212a}"));
		sp.push(n.replace('s', "\u{17f}"));
		sp.push(n.replace('é', "É"));
		sp.push(n.replace('[', "{").replace('@', "`").replace('{', "["));
		sp.push(n.replace('[', ";"));
		sp.sort();
		sp.dedup();
		for a in &sp {
			for b in &sp {
				if a.chars().next().map_or(false, |c| c.is_ascii_alphabetic()) {
					v.push((a.clone(), b.clone()));
				}
			}
		}
	}
	const SH: &[&str] = &["<A></B>", "<A>x</B>", "<A></B >", "<A></B\n\t>y", "<A></A><A></B>", "<p><A>z</B></p>", "<A>y</B></A>", "<A><i></B></i></A>", "<A><A></A></B>", "<A q></ B>", "<A q></B/>", "<A q>1</B q>", "<svg><A></B></svg>", "<math><A>x</B ></math>", "<pre><A> </B></pre>", "<b><i><u><A></B></u></i></b>", "<svg><g/><A/><A></B></svg>"];
	r.family(
		"name pairs",
		&format!("{} pairs of start and end tag spellings x {} shapes x {} option set(s)", v.len(), SH.len(), masks.len()),
		v.len() * SH.len() * masks.len(),
		|i| {
			let (m, i) = (i % masks.len(), i / masks.len());
			let (k, i) = (i % SH.len(), i / SH.len());
			let s: String = SH[k].chars().map(|c| match c { 'A' => v[i].0.clone(), 'B' => v[i].1.clone(), c => c.to_string() }).collect();
			Some(Case { s, pm: masks[m], aux: String::new() })
		},
	);
}

/// names of many lengths that differ in one place
fn long_pairs(r: &Runner, masks: &[u8]) {
	let lens: Vec<usize> = if r.thorough { (0..=70).collect() } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65] };
	let mut v: Vec<(char, char)> = vec![];
	for a in (0x21..0x7fu32).filter_map(char::from_u32).filter(|c| !"></".contains(*c)) {
		let o = a as u32;
		for b in [o, o ^ 0x20, o ^ 0x40, o ^ 0x10, o ^ 1, o + 1, o | 0x80, o + 0x100, 0xfee0 + o].iter().filter_map(|x| char::from_u32(*x)).chain(a.to_ascii_uppercase().to_lowercase()).chain(['\u{212a}', '\u{17f}', '\u{131}', '\u{130}', ' ']) {
			v.push((a, b));
		}
	}
	v.sort();
	v.dedup();
	let n = v.len();
	r.family("long name pairs", &format!("{} pairs of characters behind and before {} lengths of equal names x {} option set(s)", n, lens.len(), masks.len()), n * lens.len() * 4 * masks.len(), |i| {
		let (m, i) = (i % masks.len(), i / masks.len());
		let (k, i) = (i % 4, i / 4);
		let ((a, b), l) = (v[i % n], lens[i / n]);
		let e: String = "aBcdEfghijKlmnop".chars().cycle().take(l).collect();
		let s = match k {
			0 => format!("<t{e}{a}></t{e}{b}>"),
			1 => format!("<i><t{a}{e}>x</t{b}{e}></i>"),
			2 => format!("<svg><t{e}{a}></t{e}{b}></svg>"),
			_ => format!("<pre> <t{a}{e}> </t{b}{e}></pre>"),
		};
		Some(Case { s, pm: masks[m], aux: String::new() })
	});
}
/// every pair of two characters at the same place of a start and an end tag
fn char_pairs(r: &Runner, masks: &[u8]) {
	long_pairs(r, masks);
	let mut u: Vec<char> = (0..0x180).filter_map(char::from_u32).collect();
	u.extend(['\u{212a}', '\u{2160}', '\u{2170}', '\u{3a9}', '\u{3c9}', '\u{430}', '\u{410}', '\u{10400}', '\u{10428}', '\u{ff21}', '\u{ff41}']);
	let n = u.len();
	r.family("character pairs", &format!("{} x {} characters in a start and its end tag, 2 shapes x {} option set(s)", n, n, masks.len()), n * n * 2 * masks.len(), |i| {
		let (m, i) = (i % masks.len(), i / masks.len());
		let (k, i) = (i % 2, i / 2);
		let (a, b) = (u[i % n], u[i / n]);
		Some(Case { s: if k == 0 { format!("<x{}></x{}>", a, b) } else { format!("<i><x{}y></X{}Y></i>", a, b) }, pm: masks[m], aux: String::new() })
	});
}

/// every forest with up to n nodes over the given kinds; no two texts side by side
fn forests(n: usize, leaves: &[char], containers: &[char]) -> Vec<String> {
	// by[k] = all forests with exactly k nodes
	let mut by: Vec<Vec<String>> = vec![vec![String::new()]];
	for k in 1..=n {
		let mut v = vec![];
		// first tree takes j nodes, the rest k-j
		for j in 1..=k {
			let mut firsts: Vec<String> = vec![];
			if j == 1 {
				firsts.extend(leaves.iter().map(|c| c.to_string()));
				firsts.extend(containers.iter().map(|c| c.to_string()));
			} else {
				for c in containers {
					for inner in &by[j - 1] {
						firsts.push(format!("{}({})", c, inner));
					}
				}
			}
			for f in &firsts {
				let ft = matches!(f.as_str(), "t" | "s");
				for rest in &by[k - j] {
					if ft && matches!(rest.chars().next(), Some('t' | 's')) {
						continue;
					}
					v.push(format!("{}{}", f, rest));
				}
			}
		}
		by.push(v);
	}
	by.into_iter().flatten().collect()
}
fn forest_space(r: &Runner, masks: &[u8], aux: &str) {
	let mut v = forests(if r.thorough { 5 } else { 4 }, LEAVES, CONTAINERS);
	let big = forests(if r.thorough { 7 } else { 6 }, &['v', 't', 's'], &['a', 'p']);
	v.extend(big);
	r.family(
		"forests",
		&format!("{} trees ({} nodes of all {} kinds; {} nodes of 5 kinds) x {} option set(s)", v.len(), if r.thorough { 5 } else { 4 }, LEAVES.len() + CONTAINERS.len(), if r.thorough { 7 } else { 6 }, masks.len()),
		v.len() * masks.len(),
		|i| {
			let (m, i) = (i % masks.len(), i / masks.len());
			Some(Case { s: forest(&v[i]).0, pm: masks[m], aux: format!("{}{}", aux, if aux == "forest:" { v[i].as_str() } else { "" }) })
		},
	);
}

fn sp(r: &Runner, name: &str, prefixes: &[&str], alpha: &[&str], tails: &[&str], q: usize, t: usize, masks: &[u8]) {
	r.seqs(&Space { name, prefixes, alpha, tails, depth: if r.thorough { t } else { q }, masks, aux: "" });
}
fn doc_space(r: &Runner, q: usize, t: usize, masks: &[u8]) {
	sp(r, "documents", &[""], DOC, &[""], q, t, masks);
}
fn core_space(r: &Runner, q: usize, t: usize, masks: &[u8]) {
	sp(r, "nesting", &[""], CORE, &[""], q, t, masks);
}
fn attr_space(r: &Runner, q: usize, t: usize, masks: &[u8]) {
	sp(r, "attributes", &["<a "], ATTR, ATTR_TAILS, q, t, masks);
	sp(r, "attributes after one", &["<a b='c'", "<br b=c ", "<a b ", "<A Id=x b=\"\" "], ATTR, &["", "></a>"], q.min(t).saturating_sub(1), t.saturating_sub(1), masks);
}
fn raw_space(r: &Runner, q: usize, t: usize, masks: &[u8]) {
	sp(r, "raw text (script)", &["<script>", "<SCRIPT a='>'>"], RAW, &["", "</script>"], q, t, masks);
	sp(r, "raw text (title)", &["<title>", "<svg><Title>"], TITLE, &["", "</title>", "</title></svg>"], q, t, masks);
	sp(r, "raw text (style, textarea)", &["<style>", "<p><textarea>"], &["<", "/", "style", "</TextArea", "</style", ">", " ", "</textarea>", "q"], &["", "</style>", "</textarea></p>"], q, t, masks);
}
fn decl_space(r: &Runner, q: usize, t: usize, masks: &[u8]) {
	sp(r, "declarations", &["<!", "<!--", "<!DOCTYPE ", " <a><!"], DECL, &["", ">", "-->x", "--></a>"], q, t, masks);
	sp(r, "cdata", &["<svg><a><!", "<math><a><![CDATA["], DECL, &["", "]]></a></svg>", "]]></a></math>"], q, t, masks);
}
fn foreign_space(r: &Runner, q: usize, t: usize, masks: &[u8]) {
	sp(r, "svg and math", &["", "<svg><g>"], FOREIGN, &["", "</g></svg>"], q, t, masks);
}
fn end_space(r: &Runner, q: usize, t: usize, masks: &[u8]) {
	sp(r, "end tags", &["", "<p>x"], ENDS, &["", "</p>"], q, t, masks);
}
fn lt_space(r: &Runner, q: usize, t: usize, masks: &[u8]) {
	sp(r, "bare '<'", &["", "<p>"], LTS, &["", "</p>"], q, t, masks);
}
fn ws_space(r: &Runner, q: usize, t: usize, masks: &[u8]) {
	sp(r, "whitespace", &["", "<p>"], WSP, &["", "</p>"], q, t, masks);
}
fn ent_space(r: &Runner, q: usize, t: usize, masks: &[u8]) {
	sp(r, "entities", &["<p>", "<title>", "<pre>", "<TextArea>", "<script>"], ENT, &["</p>", "</title>", "</pre>", "</textarea>", "</script>"], q, t, masks);
}
fn graph(r: &Runner, alpha: &[&str], masks: &[u8]) {
	r.graph(
		&Space { name: "model states", prefixes: &[""], alpha, tails: &["", "</a>", "x</B></a>"], depth: 40, masks, aux: "" },
		if r.thorough { 3 } else { 2 },
	);
}

const ATTR_WORDS: &[&str] = &[" b", " B", "=c", "=\"d e\"", "='f\"'", " ", "/", "\t\n", "=", " id", "=/g/", "=''", ",h"];
const DOCTYPE_WORDS: &[&str] = &["b", "=", "\"", "'", " ", "/", "é", "<", "\"x y\""];
const COMMENT_BODY: &[&str] = &["-", ">", "!", "<", " ", "x", "-->", "<!--", "--", "é"];
const CDATA_BODY: &[&str] = &["]", ">", "[", "<", " ", "x", "]]>", "</a>", "-->", "&lt;"];
const DOCTYPE_PARTS: &[&str] = &[" ", "html", "\"a>b\"", "'c'", ">", "/", "=", "\n", "PUBLIC"];
const RAW_ROW: &[&str] = &["<script>", "</script>", "<style a=b>", "</STYLE >", "<title>", "</title>", "<textarea/>", "</textarea>", "<", "x", " ", "<a>", "</a>", "<script src=x />"];
const CASES: &[&str] = &["<a>", "<A>", "</a>", "</A>", "<aB>", "</Ab>", "</aB>", "x", " ", "<script>", "</SCRIPT>", "</script>", "<BR>", "</a >", "<SVG>", "</svg>"];
const SVG_CASES: &[&str] = &["<svg>", "</svg>", "<SVG>", "</SVG>", "<g/>", "<![CDATA[", "]]>", "<a>", "</A>", "</a>", "</math>", "</MATH>"];
const VOID_SELF: &[&str] = &["<br>", "<BR/>", "<br >", "<img a=b>", "<img a=b/>", "<input c='d'/>", "<a/>", "<a />", "<a b/>", "<a b=c/>", "</br>", "</a>", "<a>", "x", "</svg>", "<script/>", "<math>", "</math>"];
const IDS: &[&str] = &["<a id=x>", "</a>", "<b ID='y'>", "</b>", "<br id=\"x\">", "<br idx=x>", "<i Id>", "</i>", "<a id=X/>", "x", "<!--<a id=no>-->", "<script id=s>", "<b id=no></b></script>", "</script>", "<br id=x id=y>", "<a id=''>", "<a data-id=no id = \"x \">"];
const WS_NEXT: &[&str] = &[" ", "  ", "\n\r", "\x0c", "\x0b", "x", "<b>", "</b>", "<br>", "<!--  c -->", "<title>  </title>", "<textarea> \n t</textarea>", "<script> 1  2 </script>", "<pre>", "</pre>", "&nbsp;  ", "&#10;"];
const ENT_PLACES: &[&str] = &["&lt;", "&#60;", "&#x3c;", "&ampamp;", "&", ";", "<title>", "</title>", "<textarea>", "</textarea>", "<script>&lt;</script>", "<!--&lt;-->", " ", "<b>", "</b>", "\"'"];
const DOC_PARTS: &[&str] = &["<html>", "</html>", "<HTML a=b>", "</Html>", "<!DOCTYPE html>", "<!--c-->", " ", "\n", "x", "<a>", "</a>", "<br>", "<html/>", "<htm></htm>", "<htmls></htmls>", "<script></script>"];
const KINDS: &[&str] = &["x", " ", "<b c=d>", "</b>", "<br>", "<!--c-->", "<script>s<</script>", "<title>&lt;</title>", "<pre>", "</pre>", "&amp;", "<!DOCTYPE q>", "<![CDATA[z]]>", "<a/>"];
const STRICT: &[u8] = &[0, CASE, SELF];
const FIXES: u8 = UNCLOSED | UNEXP | LT;
const MIX: &[u8] = &[0, SELF, FIXES | SELF, 63];

/// the common ground of the parser properties
fn broad(r: &Runner, masks: &[u8], one: &[u8], w: usize) {
	// w = 1 for cheap judgements, 0 for expensive ones
	doc_space(r, 3 + w, 4 + w, masks);
	core_space(r, 5 + w, 6 + w, one);
	attr_space(r, 4 + w, 5 + w, one);
	raw_space(r, 4 + w, 5 + w, one);
	decl_space(r, 3 + w, 4 + w, one);
	foreign_space(r, 4 + w, 5 + w, one);
	end_space(r, 3 + w, 4 + w, masks);
	lt_space(r, 3 + w, 4 + w, masks);
	ws_space(r, 4 + w, 5 + w, one);
	unicode(r, if r.thorough { &one[..1] } else { masks });
	name_space(r, masks);
	pumps(r, one, 300, 1200);
}

/// complete constructs only, so that the reachable model states can be exhausted
const WHOLE: &[&str] = &["<a>", "</a>", "<B>", "</b>", "x", " ", "<br>", "<!--c-->", "<svg>", "</svg>", "<pre>", "</pre>", "<script>s</script>", "<g/>"];
const WHOLE_FIX: &[&str] = &["<a>", "</a>", "<B>", "</b>", "x", " ", "<br>", "<!--c-->", "<svg>", "</svg>", "<1", "</i>", "<style></style>", "<a b"];

fn e01(r: &mut Runner) {
	page(r, &[0, 63]);
	long_contexts(r, &[63]);
	topics(r, 3, 3, &[63]);
	broad(r, MIX, &[0, 63], 0);
	ent_space(r, 3, 4, &[0]);
	name_pairs(r, &[63]);
	forest_space(r, &[0], "");
	r.family("deep nesting and long inputs", "38 shapes x sizes 500, 1000, 2000, 10000 x 2 option sets", PUMPS * 4 * 2, |i| {
		let (m, i) = (i % 2, i / 2);
		pump(i % PUMPS, [500, 1000, 2000, 10000][i / PUMPS]).map(|s| Case { s, pm: [0, 63][m], aux: String::new() })
	});
	r.deep();
}
fn e02(r: &mut Runner) {
	topics(r, 3, 4, &[0, 63 & !EQ]);
	combos(r, 0);
	forest_space(r, &[0, SELF], "forest:");
	broad(r, &[0, SELF | CASE], &[0], 1);
	graph(r, WHOLE, &[0]);
}
fn e03(r: &mut Runner) {
	topics(r, 3, 4, &[0, 63 & !EQ]);
	combos(r, 0);
	forest_space(r, &[0, 63], "forest:");
	broad(r, &[0, 63], &[0, 63], 1);
}
fn e04(r: &mut Runner) {
	page(r, &[FIXES | SELF]);
	long_contexts(r, &[FIXES | SELF]);
	topics(r, 3, 3, &[SELF | FIXES]);
	big_pumps(r, &[0, FIXES]);
	broad(r, &[0, CASE | SELF, CASE | SELF | FIXES], &[SELF | FIXES], 0);
	forest_space(r, &[0], "");
	name_pairs(r, &[FIXES]);
}
fn e05(r: &mut Runner) {
	topics(r, 3, 4, &[0, 63 & !EQ]);
	combos(r, 0);
	let all: Vec<u8> = (0..64).collect();
	doc_space(r, 3, 4, &all);
	doc_space(r, 4, 5, &[0]);
	core_space(r, 6, 7, &[0, FIXES]);
	attr_space(r, 5, 6, &[0, SELF, EQ, 63]);
	raw_space(r, 5, 6, &[0, CASE]);
	decl_space(r, 4, 5, MIX);
	foreign_space(r, 5, 6, &[0, CASE]);
	end_space(r, 4, 5, MIX);
	lt_space(r, 4, 5, MIX);
	unicode(r, MIX);
	name_space(r, &[0, CASE, SELF, UNCLOSED, UNEXP, LT, EQ, 63]);
	name_pairs(r, &[0, CASE]);
	pumps(r, MIX, 300, 1200);
	graph(r, WHOLE, &[0, SELF]);
}
fn e06(r: &mut Runner) {
	page(r, &[0]);
	long_contexts(r, &[0]);
	topics(r, 3, 3, &[0]);
	big_pumps(r, &[0, FIXES]);
	// what needs one option is not changed by the others
	let all: Vec<u8> = (1..63).collect();
	let single: Vec<u8> = vec![EQ, SELF, UNCLOSED, UNEXP, LT];
	topics(r, 2, 3, &single);
	doc_space(r, 2, 3, &all);
	attr_space(r, 3, 4, &[EQ, SELF | EQ, UNCLOSED | EQ]);
	foreign_space(r, 3, 4, &[SELF, CASE]);
	end_space(r, 3, 3, &[UNEXP | UNCLOSED, UNEXP | LT]);
	lt_space(r, 3, 3, &[LT | UNCLOSED, LT | SELF]);
	doc_space(r, 3, 4, STRICT);
	core_space(r, 4, 6, &[0]);
	attr_space(r, 3, 5, &[0]);
	raw_space(r, 3, 4, &[0]);
	decl_space(r, 3, 4, &[0]);
	foreign_space(r, 3, 5, &[0]);
	end_space(r, 3, 4, &[0, UNEXP]);
	lt_space(r, 3, 4, &[0, LT]);
	ws_space(r, 4, 5, &[0]);
	unicode(r, &[0]);
	name_space(r, &[0]);
	pumps(r, &[0, UNCLOSED], 220, 600);
	forest_space(r, &[0], "");
}
fn e07(r: &mut Runner) {
	topics(r, 3, 4, &[UNCLOSED]);
	combos(r, UNCLOSED);
	let m = &[UNCLOSED, UNCLOSED | SELF | CASE, FIXES];
	doc_space(r, 4, 5, m);
	core_space(r, 6, 7, &[UNCLOSED]);
	attr_space(r, 5, 6, &[UNCLOSED, FIXES | SELF]);
	raw_space(r, 4, 5, &[UNCLOSED]);
	decl_space(r, 4, 5, &[UNCLOSED]);
	foreign_space(r, 4, 5, &[UNCLOSED]);
	end_space(r, 4, 5, &[UNCLOSED, FIXES]);
	lt_space(r, 4, 5, &[FIXES]);
	graph(r, WHOLE_FIX, &[FIXES | SELF]);
	ws_space(r, 4, 5, &[UNCLOSED]);
	name_space(r, m);
	unicode(r, &[UNCLOSED]);
	pumps(r, m, 300, 1200);
	cuts(r, &[UNCLOSED, FIXES | SELF]);
}
/// every prefix of every forest: the source may end anywhere
fn cuts(r: &Runner, masks: &[u8]) {
	let v = forests(if r.thorough { 4 } else { 3 }, LEAVES, CONTAINERS);
	let mut at: Vec<(usize, usize)> = vec![];
	let src: Vec<Chars> = v.iter().map(|f| forest(f).0.chars().collect()).collect();
	for (i, s) in src.iter().enumerate() {
		at.extend((0..=s.len()).map(|k| (i, k)));
	}
	r.family("truncations", &format!("every prefix of {} documents x {} option set(s)", v.len(), masks.len()), at.len() * masks.len(), |i| {
		let (m, i) = (i % masks.len(), i / masks.len());
		let (d, k) = at[i];
		Some(Case { s: src[d][..k].iter().collect(), pm: masks[m], aux: String::new() })
	});
}
/// every forest with one stretch put in at every place
fn insertions(r: &Runner, what: &[&str], masks: &[u8]) {
	let v = forests(if r.thorough { 4 } else { 3 }, &['v', 't', 's', 'c', 'r'], &['a', 'p', 'g']);
	let src: Vec<Chars> = v.iter().map(|f| forest(f).0.chars().collect()).collect();
	let mut at: Vec<(usize, usize)> = vec![];
	for (i, s) in src.iter().enumerate() {
		at.extend((0..=s.len()).map(|k| (i, k)));
	}
	r.family(
		"insertions",
		&format!("{} stretches at every place of {} documents x {} option set(s)", what.len(), v.len(), masks.len()),
		at.len() * what.len() * masks.len(),
		|i| {
			let (m, i) = (i % masks.len(), i / masks.len());
			let (w, i) = (i % what.len(), i / what.len());
			let (d, k) = at[i];
			let mut s: String = src[d][..k].iter().collect();
			s.push_str(what[w]);
			s.extend(&src[d][k..]);
			Some(Case { s, pm: masks[m], aux: String::new() })
		},
	);
}
fn e08(r: &mut Runner) {
	topics(r, 3, 4, &[UNEXP]);
	combos(r, UNEXP);
	let m = &[UNEXP, UNEXP | CASE, FIXES | SELF];
	end_space(r, 5, 5, m);
	doc_space(r, 4, 5, m);
	core_space(r, 6, 7, &[UNEXP]);
	foreign_space(r, 5, 5, &[UNEXP]);
	lt_space(r, 4, 5, &[FIXES]);
	ws_space(r, 4, 5, &[UNEXP]);
	graph(r, WHOLE_FIX, &[UNEXP | LT | SELF]);
	name_space(r, m);
	name_pairs(r, &[UNEXP, UNEXP | CASE]);
	unicode(r, &[UNEXP, FIXES]);
	pumps(r, m, 300, 1200);
	insertions(r, &["</a>", "</i>", "</br>", "</b ></a>", "</>"], &[UNEXP]);
}
fn e09(r: &mut Runner) {
	topics(r, 3, 4, &[LT]);
	combos(r, LT);
	let m = &[LT, LT | UNCLOSED, FIXES | SELF];
	lt_space(r, 5, 5, m);
	doc_space(r, 4, 5, m);
	raw_space(r, 4, 5, &[LT]);
	foreign_space(r, 4, 5, &[LT]);
	end_space(r, 4, 5, &[FIXES]);
	attr_space(r, 4, 5, &[LT]);
	graph(r, WHOLE_FIX, &[UNEXP | LT | SELF]);
	name_space(r, m);
	unicode(r, m);
	pumps(r, m, 300, 1200);
	insertions(r, &["<", "< ", "<<", "<=", " <1 "], &[LT, FIXES]);
}
fn e10(r: &mut Runner) {
	topics(r, 3, 3, &[0, 63]);
	combos(r, 0);
	let m = &[0, SELF | EQ, UNCLOSED];
	attr_space(r, 5, 6, m);
	sp(
		r,
		"attribute words",
		&["<a", "<br", "<svg><g"],
		ATTR_WORDS,
		&[">", "/>", "></a>", "></g></svg>", ""],
		4,
		5,
		&[0, EQ, SELF],
	);
	sp(r, "doctype attributes", &["<!DOCTYPE ", "<a><!doctype"], DOCTYPE_WORDS, &[">", "\">", "></a>"], 4, 6, &[0, EQ]);
	unicode(r, &[0, EQ]);
	name_space(r, &[0, SELF]);
	pumps(r, &[0], 300, 1500);
	doc_space(r, 4, 5, &[0, 63]);
	forest_space(r, &[0], "");
}
fn e11(r: &mut Runner) {
	topics(r, 3, 3, &[0, 63]);
	combos(r, 0);
	raw_space(r, 5, 6, &[0, CASE]);
	doc_space(r, 4, 5, &[0, FIXES]);
	foreign_space(r, 5, 6, &[0]);
	name_space(r, &[0, CASE, SELF, FIXES]);
	name_pairs(r, &[0, CASE]);
	unicode(r, &[0, CASE]);
	pumps(r, &[0, CASE], 300, 1500);
	sp(r, "raw elements in a row", &["", "<svg>"], RAW_ROW, &["", "</svg>"], 4, 5, &[0, SELF, FIXES]);
	insertions(r, &["<script><a></script>", "<title></titl></TITLE\n>", "<textarea>\n<!--</textarea>"], &[0, LT]);
}
fn e12(r: &mut Runner) {
	topics(r, 3, 3, &[0, 63]);
	combos(r, 0);
	decl_space(r, 4, 5, &[0]);
	sp(r, "comment bodies", &["<!--", "<p><!--"], COMMENT_BODY, &["", "-->", "--></p>"], 5, 6, &[0]);
	sp(r, "cdata bodies", &["<svg><a><![CDATA[", "<math><mi><![cdata["], CDATA_BODY, &["", "]]></a></svg>", "]]></mi></math>"], 5, 6, &[0]);
	sp(r, "doctypes", &["<!DOCTYPE", "<!doctype", "<!DocType"], DOCTYPE_PARTS, &["", ">", " ><a></a>"], 4, 5, &[0]);
	foreign_space(r, 5, 5, &[0, FIXES]);
	doc_space(r, 4, 5, &[0, FIXES]);
	unicode(r, &[0]);
	pumps(r, &[0], 300, 1500);
	name_space(r, &[0]);
	insertions(r, &["<!---->", "<!-- - -->", "<!--></a>--->", "<!DOCTYPE x>", "<!doctype \"y\"/>", "<![CDATA[]]>", "<![CDATA[<a>]]]>"], &[0, FIXES]);
}
fn e13(r: &mut Runner) {
	topics(r, 3, 3, &[0, 63]);
	combos(r, 0);
	char_pairs(r, &[0, CASE]);
	name_pairs(r, &[0, CASE, UNEXP, CASE | UNEXP, FIXES | CASE]);
	name_space(r, &[0, CASE, UNEXP | CASE]);
	sp(r, "case mixes", &[""], CASES, &[""], 5, 6, &[0, CASE, CASE | FIXES]);
	sp(r, "case mixes in svg", &["<svg>", "<MATH>"], SVG_CASES, &["", "</svg>"], 5, 6, &[0, CASE]);
	unicode(r, &[0, CASE]);
	pumps(r, &[0, CASE], 300, 1200);
	doc_space(r, 4, 5, &[0, CASE]);
	core_space(r, 6, 7, &[0, CASE]);
}
fn e14(r: &mut Runner) {
	topics(r, 3, 3, &[0, 63]);
	combos(r, 0);
	name_space(r, &[0, CASE, SELF, UNCLOSED, UNEXP, FIXES | SELF]);
	foreign_space(r, 5, 6, &[0, SELF]);
	sp(
		r,
		"void and self-closing",
		&["", "<p>", "<svg>"],
		VOID_SELF,
		&["", "</p>", "</svg>"],
		4,
		5,
		&[0, SELF, FIXES],
	);
	attr_space(r, 5, 6, &[0, SELF]);
	pumps(r, &[0, SELF], 300, 1200);
	unicode(r, &[0, SELF]);
	doc_space(r, 4, 5, &[0, SELF]);
	insertions(r, &["<br>", "<IMG/>", "<g/>", "<wbr a />", "<svg/>"], &[0, SELF]);
}
fn e15(r: &mut Runner) {
	topics(r, 3, 4, &[0, 63 & !EQ]);
	combos(r, 0);
	broad(r, MIX, &[0, 63], 1);
	graph(r, WHOLE_FIX, &[FIXES | SELF]);
	forest_space(r, &[0], "");
	name_pairs(r, &[63]);
	cuts(r, &[UNCLOSED | UNEXP, FIXES | SELF]);
	insertions(r, &["<", "</a>", "<br>", "x", " ", "</i> "], &[FIXES | SELF]);
}
fn e16(r: &mut Runner) {
	topics(r, 3, 4, &[0, 63 & !EQ]);
	combos(r, 0);
	broad(r, &[0, SELF, FIXES | SELF], &[0, FIXES], 1);
	graph(r, WHOLE_FIX, &[FIXES | SELF]);
	forest_space(r, &[0], "");
	cuts(r, &[UNCLOSED]);
}
fn e17(r: &mut Runner) {
	topics(r, 3, 3, &[0, 63]);
	combos(r, 0);
	sp(
		r,
		"ids",
		&["", "<p>"],
		IDS,
		&["", "</p>"],
		4,
		4,
		&[SELF | UNCLOSED],
	);
	sp(r, "id attribute spelling", &["<a ", "<br c=d "], &["id", "I", "D", "=", "\"", "'", " ", "x", "/", "i", "y"], &["", ">", "></a>", "'></a>"], 5, 6, &[UNCLOSED]);
	r.family("many ids", "n elements with n ids, n = 0..400, four orders", 401 * 4, |i| {
		let (k, n) = (i % 4, i / 4);
		let one = |j: usize| match k {
			0 => format!("<a id=k{}></a>", j),
			1 => format!("<a id='k{}'>", j % 7),
			2 => format!("<p><br id=\"k{}\"></p>", n - j),
			_ => format!("<a b=1 c=2 d=3 e=4 f=5 ID=k{}>{}</a>", j, j),
		};
		Some(Case { s: (0..n.min(if k == 1 { 200 } else { 400 })).map(one).collect(), pm: UNCLOSED, aux: String::new() })
	});
	doc_space(r, 4, 5, &[0]);
	attr_space(r, 5, 6, &[0, UNCLOSED]);
	raw_space(r, 4, 5, &[0]);
	decl_space(r, 3, 4, &[0]);
	unicode(r, &[0, FIXES | SELF]);
	name_space(r, &[0, SELF | FIXES]);
	pumps(r, &[0, FIXES], 300, 800);
	cuts(r, &[UNCLOSED]);
	// two ids with all kinds of values, in all kinds of places
	let mut vals: Vec<String> = (1..0x80u8).map(|c| (c as char).to_string()).collect();
	for c in 0x21..0x7fu8 {
		vals.push(format!("{}x", c as char));
		vals.push(format!("x{}", c as char));
		vals.push(format!("x{}y", c as char));
	}
	vals.extend(WORDS.split(' ').map(|x| x.to_string()));
	vals.extend(["é", "É", "\u{a0}", "\u{1f600}", "ß", "\u{212a}", "x y", " x", "x ", "x\ny", "", "0", "-1", "01", "xX", "id", "ID", "&amp;", "x&#32;"].iter().map(|x| x.to_string()));
	const IN: &[&str] = &[
		"<a id=\"V\"></a>", "<b id=k></b><br id=\"V\">", "<svg id=k><g id=\"V\"/></svg>", "<math><mi id=k></mi><mo ID=\"V\">t</mo></math>", "<p id=k><pre x id=\"V\"><br></pre></p>", "<script id=\"V\"></script><b id=k></b>",
		"<a id=\"V\"><a id=\"V\"></a></a>", "<a k=\"V\" id=m></a>", "<a id=k id=\"V\"></a>", "<!--V--><a id=k>V</a>", "<svg><a/></svg><title iD=\"V\">V</title>", "<a id=\"V\"><b></b></a><i id=k></i>",
	];
	r.family("id values", &format!("{} values x {} shapes x 2 option sets", vals.len(), IN.len()), vals.len() * IN.len() * 2, |i| {
		let (k, i) = (i % IN.len(), i / IN.len());
		let v = &vals[i / 2];
		let q = if v.contains('"') { IN[k].replace('"', "'") } else { IN[k].to_string() };
		Some(Case { s: q.replace('V', v), pm: [0, 63][i % 2], aux: String::new() })
	});
	// ids next to every repair
	sp(
		r,
		"ids and repairs",
		&["<a id=x>", "<p><br id=y>"],
		&["</b>", "<", "<1", "<b id=z>", "</a>", "</p>", "x", " ", "<br id='w'/>", "<i id=\"v", "\"", ">", "<svg id=q>", "</svg>"],
		&[""],
		4,
		5,
		&[FIXES, FIXES | SELF | CASE],
	);
}
fn e18(r: &mut Runner) {
	topics(r, 3, 4, &[0, 63 & !EQ]);
	combos(r, 0);
	broad(r, &[0, CASE, SELF | EQ, UNCLOSED, FIXES], &[0], 1);
	graph(r, WHOLE, &[0]);
	name_pairs(r, &[CASE]);
	cuts(r, &[0, UNCLOSED]);
	insertions(r, &["</i>", "<1", "<a/>", "<!x", "<![", "<!DOCTYPEx", "< ", "<a =", "</A>"], &[0, CASE]);
	// lines and columns: every mix of line breaks before every kind of error
	let kinds: &[&str] = &["</b>", "<1", "<a/>", "<!x>", "<!-x", "<![CDATA[", "<!DOCTYPEx", "<a =", "<a>", "<b", "<script>", "<!--", "<svg><![", "</", "<a></A>"];
	sp(r, "line breaks", &["", "<p>", "<p a='"], &["\n", "\r", "\r\n", "x", "é", "\t", "\u{2028}", "\x0b", "'>", "<br>"], kinds, if r.thorough { 6 } else { 4 }, 6, &[CASE]);
	r.family("far errors", "15 kinds of error after n characters, n lines, n = 0..400", 15 * 401 * 3, |i| {
		let (k, i) = (i % 15, i / 15);
		let (w, n) = (i % 3, i / 3);
		Some(Case { s: format!("{}{}\n ", ["x", "\r\n", "é\n"][w].repeat(n), kinds[k]), pm: CASE, aux: String::new() })
	});
}
fn e19(r: &mut Runner) {
	let dir = scratch();
	let _ = std::fs::create_dir_all(&dir);
	let _ = std::env::set_current_dir(&dir);
	let small = forests(2, LEAVES, CONTAINERS);
	let mut v: Vec<Case> = vec![];
	for f in &small {
		for (pm, aux) in [(0, "ok"), (63, "rel")] {
			v.push(Case { s: forest(f).0, pm, aux: aux.into() });
		}
	}
	// every short mix of what a line- or chunk-based reader could get wrong
	let toks = ["\n", "\r\n", "\r", "\u{feff}", "é", "<a>", "</a>", " ", "x", "\0", "\u{10ffff}", "<pre>"];
	let mut seqs: Vec<String> = vec![String::new()];
	let mut level = seqs.clone();
	for _ in 0..(if r.thorough { 4 } else { 3 }) {
		level = level.iter().flat_map(|s| toks.iter().map(move |t| format!("{}{}", s, t))).collect();
		seqs.extend(level.clone());
	}
	for s in &seqs {
		for (pm, aux) in [(0, "ok"), (63, "rel")] {
			v.push(Case { s: s.clone(), pm, aux: aux.into() });
		}
	}
	// every character at the begin, at the end and inside of a file
	for c in uni(false) {
		for t in [format!("{}", c), format!("x{}", c), format!("{}x", c), format!("<a>{}</a>\n{}", c, c), format!("{}{}<b>", c, c)] {
			v.push(Case { s: t, pm: 0, aux: "ok".into() });
		}
	}
	for a in 0..0x80u8 {
		for b in 0..0x80u8 {
			v.push(Case { s: format!("{}{}", a as char, b as char), pm: LT, aux: "ok".into() });
		}
	}
	// buffer boundaries: a multi-byte character, a line break and a tag across every usual buffer size
	let step = if r.thorough { 1 } else { 1 };
	for base in [64usize, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
		for off in (0..10).step_by(step) {
			for mark in ["é", "\u{10ffff}", "\r\n", "<br>", "\n\n"] {
				let n = base - 5 + off;
				v.push(Case { s: format!("{}{}z", "x".repeat(n), mark), pm: 0, aux: "ok".into() });
				if base <= 8192 {
					v.push(Case { s: format!("<p>{}</p>", format!("{}{}", "y".repeat(n), mark).repeat(3)), pm: 0, aux: "rel".into() });
				}
			}
		}
	}
	// line counts and lengths
	for n in 0..200 {
		v.push(Case { s: "l\n".repeat(n), pm: 0, aux: "ok".into() });
		v.push(Case { s: format!("{}<a>", "\r\n".repeat(n)), pm: 0, aux: "ok".into() });
		v.push(Case { s: format!("{}<b>{}</b>", "x".repeat(n), "\n".repeat(n)), pm: 0, aux: "rel".into() });
	}
	for k in 0..PATHS.len() {
		for c in ["<a>é\r\n</a>", "<a>\n", ""] {
			for pm in [0, 63] {
				v.push(Case { s: c.into(), pm, aux: format!("path:{}", k) });
			}
		}
	}
	// every option has to arrive
	for pm in 0..64 {
		for c in ["<a></A>", "<a =b></a>", "<a/>", "<a><b>", "<a b='c", "</a>", "x</i> y", "a<1", "<<a></a>", "<a><br/></a>", "<script></SCRIPT>", "<svg><a/></svg>", "<a =/><b></B></i><"] {
			v.push(Case { s: c.into(), pm, aux: ["ok", "rel"][pm as usize % 2].into() });
		}
	}
	for k in 0..SPECIAL_FILES.len() {
		v.push(Case { s: String::new(), pm: 63, aux: format!("special:{}", k) });
	}
	// big files, with and without a byte that is no UTF-8
	for k in 16..=(if r.thorough { 24 } else { 22 }) {
		for d in [-1i64, 0, 1] {
			let n = (1i64 << k) + d;
			for x in ["-:x", "-:n", "-:e"] {
				v.push(Case { s: String::new(), pm: 0, aux: format!("big:{}:{}", n, x) });
			}
			for at in [0, 1, 4096, 65536, n / 2, n - 1] {
				v.push(Case { s: String::new(), pm: 0, aux: format!("big:{}:{}:x", n, at) });
			}
		}
	}
	// a file among others with nearly its name, and these alone
	for k in 0..PATHS.len() {
		for pm in [0, 63] {
			v.push(Case { s: String::new(), pm, aux: format!("crowd:{}", k) });
		}
	}
	for aux in ["missing", "missingrel", "dir", "empty", "reldir", "dangling", "linkdir", "slash", "loop"] {
		for pm in [0, 63] {
			v.push(Case { s: String::new(), pm, aux: aux.into() });
		}
	}
	// every sequence of up to 3 of these bytes, well-formed UTF-8 or not
	let bytes: &[u8] = &[b'<', b'a', b'>', b'\n', b'\r', 0, 0x80, 0xbf, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xed, 0xa0, 0xf0, 0x9f, 0x98, 0xef, 0xbb, 0xfe, 0xff, 0xc0];
	let mut lv: Vec<String> = vec![String::new()];
	for d in 0..3 {
		lv = lv.iter().flat_map(|s| bytes.iter().map(move |b| format!("{}{:02x}", s, b))).collect();
		for h in &lv {
			if d < 2 || r.thorough || h.len() % 2 == 0 {
				v.push(Case { s: String::new(), pm: 0, aux: format!("bytes:{}", h) });
				if d < 2 {
					v.push(Case { s: String::new(), pm: 63, aux: format!("bytes:3c613e{}3c2f613e", h) });
				}
			}
		}
	}
	r.family(
		"files",
		"documents, file names, byte sequences <= 3 over 23 bytes, line break mixes, buffer boundaries, missing files, directories; absolute and relative paths",
		v.len(),
		|i| Some(v[i].clone()),
	);
	let _ = std::env::set_current_dir("/");
	let _ = std::fs::remove_dir_all(&dir);
}
fn e20(r: &mut Runner) {
	topics(r, 3, 3, &[SELF]);
	render_combos(r);
	ws_space(r, 4, 5, &[SELF]);
	sp(
		r,
		"whitespace next to everything",
		&["", "<p> ", "<pre>"],
		WS_NEXT,
		&["", "</p>", "</pre>"],
		4,
		5,
		&[UNCLOSED],
	);
	sp(r, "whitespace and repairs", &["", "<p>"], &[" ", "x", "</i>", "<", "<b>", "</b>", "  ", "<1", "<!---->", "<br/>", "\n"], &[""], 4, 6, &[FIXES | SELF]);
	doc_space(r, 4, 5, &[0, FIXES]);
	ent_space(r, 3, 4, &[0]);
	unicode(r, &[0, FIXES | SELF]);
	name_space(r, &[0, SELF]);
	pumps(r, &[0, FIXES], 300, 1200);
	forest_space(r, &[0], "");
	attr_space(r, 4, 5, &[0]);
	foreign_space(r, 4, 5, &[0]);
}
fn e21(r: &mut Runner) {
	topics(r, 3, 3, &[SELF]);
	render_combos(r);
	forest_space(r, &[0], "");
	attr_space(r, 4, 5, &[0]);
	sp(
		r,
		"attributes to requote",
		&["<a", "<BR", "<!DOCTYPE"],
		&[" B=\"", " c='", "\"", "'", "x", " ", "/", "=", "`", "<", "\t", " d=e", " f"],
		&[">", "/>", "></A\n>", "\"></a>"],
		4,
		5,
		&[SELF],
	);
	doc_space(r, 3, 4, &[SELF, FIXES]);
	end_space(r, 3, 4, &[0]);
	sp(r, "comments to remove", &["", "<P >"], &["<!--c-->", "<!---->", "x", " ", "<Br>", "<I>", "</I >", "</i>", "<SCRIPT><!--</script\t>", "<br/>", "<i/>"], &["", "</P >"], 4, 5, &[SELF]);
	foreign_space(r, 3, 5, &[0]);
	unicode(r, &[0]);
	name_space(r, &[0, SELF]);
	name_pairs(r, &[0]);
	pumps(r, &[0, FIXES], 220, 600);
	decl_space(r, 3, 4, &[0]);
	cuts(r, &[UNCLOSED]);
}
fn e22(r: &mut Runner) {
	topics(r, 2, 3, &[SELF]);
	render_combos(r);
	forest_space(r, &[0], "");
	doc_space(r, 3, 4, &[0, FIXES]);
	foreign_space(r, 3, 5, &[0]);
	sp(
		r,
		"content kinds",
		&["", "<p>", "<svg><g>"],
		KINDS,
		&["", "</p>", "</g></svg>"],
		4,
		5,
		&[SELF],
	);
	ws_space(r, 3, 5, &[SELF]);
	ent_space(r, 2, 3, &[0]);
	decl_space(r, 3, 4, &[0]);
	unicode(r, &[0]);
	name_space(r, &[0, SELF]);
	pumps(r, &[0, FIXES], 120, 300);
}
fn e23(r: &mut Runner) {
	topics(r, 3, 3, &[SELF]);
	render_combos(r);
	ent_space(r, 3, 4, &[0]);
	sp(
		r,
		"entities in places",
		&["", "<p a='&lt;'>"],
		ENT_PLACES,
		&["", "</p>"],
		3,
		4,
		&[UNCLOSED],
	);
	doc_space(r, 3, 4, &[0, FIXES]);
	unicode(r, &[0, LT]);
	name_space(r, &[0, LT]);
	pumps(r, &[0, FIXES], 300, 1200);
	let named: Vec<&str> = vec![
		"lt", "gt", "amp", "quot", "apos", "nbsp", "copy", "reg", "euro", "hellip", "mdash", "alpha", "Omega", "eacute", "Eacute", "AMP", "LT", "GT", "QUOT", "frac12", "sup2", "there4", "nosuch", "l", "ltx", "x", "amp ", " amp", "#", "#x", "#X41", "#x41", "#65",
		"#065", "#0", "#x0", "#128", "#55296", "#1114111", "#1114112", "#x10FFFF", "#x110000", "#99999999", "#-1", "#6 5", "#xg", "#9a", "é", "",
	];
	let wrap = ["&E;", "a&E;b", "&E", "&E;&E;", "&&E;", "&E;;", "&amp;E;", " &E; ", "&E&E;", "\n&E;\t&E; "];
	let ctx = ["W", "<p>W</p>", "<title>W</title>", "<TEXTAREA>W</textarea>", "<script>W</script>", "<pre>W</pre>", "<a b='W'>x</a>", "<!--W-->", "<svg><a><![CDATA[W]]></a></svg>"];
	r.family("named and numeric entities", &format!("{} entities x {} shapes x {} places", named.len(), wrap.len(), ctx.len()), named.len() * wrap.len() * ctx.len(), |i| {
		let (c, i) = (i % ctx.len(), i / ctx.len());
		let (w, i) = (i % wrap.len(), i / wrap.len());
		Some(Case { s: ctx[c].replace('W', &wrap[w].replace('E', named[i])), pm: 0, aux: String::new() })
	});
	r.family("numeric entities", "&#n; and &#xn; for every n below 0x3000, and around the limits", 0x3000 * 2 + 64, |i| {
		let (h, n) = (i % 2, i / 2);
		let n = if n >= 0x3000 { [0xd7f0u32, 0xfff0, 0x10fff0, 0x110000][(n - 0x3000) / 8] + ((n - 0x3000) % 8) as u32 * 2 } else { n as u32 };
		Some(Case { s: if h == 0 { format!("<p>&#{};</p>", n) } else { format!("<p>&#x{:x};</p>", n) }, pm: 0, aux: String::new() })
	});
}
fn e24(r: &mut Runner) {
	let mut eds: Vec<(usize, String)> = vec![];
	for (k, (s, pm)) in HDOCS.iter().enumerate() {
		let n = model::parse(&chars(s), *pm).doc().map_or(0, |d| count(&d.root) - 1);
		for a in 0..n * PEDITS {
			eds.push((k, format!("@{}.{}", a / PEDITS, a % PEDITS)));
			for b in 0..n * PEDITS {
				eds.push((k, format!("@{}.{};{}.{}", a / PEDITS, a % PEDITS, b / PEDITS, b % PEDITS)));
			}
		}
	}
	r.family("clones of edited trees", &format!("every sequence of <= 2 of {} edits of every node of {} documents, then a clone of every node", PEDITS, HDOCS.len()), eds.len(), |i| {
		let (k, e) = &eds[i];
		Some(Case { s: HDOCS[*k].0.into(), pm: HDOCS[*k].1, aux: e.clone() })
	});
	drop(eds);
	page(r, &[FIXES | SELF]);
	long_contexts(r, &[FIXES | SELF]);
	topics(r, 2, 3, &[SELF]);
	big_pumps(r, &[0, FIXES]);
	forest_space(r, &[0], "");
	doc_space(r, 3, 4, &[0, FIXES | SELF]);
	attr_space(r, 3, 5, &[0]);
	foreign_space(r, 3, 5, &[0]);
	core_space(r, 4, 6, &[FIXES]);
	raw_space(r, 3, 4, &[0]);
	decl_space(r, 2, 4, &[0]);
	end_space(r, 3, 4, &[FIXES]);
	lt_space(r, 3, 4, &[FIXES]);
	unicode(r, &[0]);
	name_space(r, &[0, FIXES | SELF]);
	pumps(r, &[0, FIXES], 220, 600);
	cuts(r, &[UNCLOSED]);
}
const MANY_PARTS: &[&str] = &[
	"<html></html>", "<HTML a></HTML>", "<html b=c d='e' f></html>", "<html/>", "<html> </html>", "<html>x</html>", "<html><html></html></html>", "<html><head></head><body></body></html>", "<html><!--c--></html>", "<html><!DOCTYPE a></html>", "<Html><svg><g/></svg></Html>",
	"<!DOCTYPE >", "<!DOCTYPE html>", "<!doctype a b>", "<!DOCTYPE html PUBLIC \"x\" 'y'>", "<!Doctype a b c d e f>", "<!DOCTYPE \"q\">", "<!DOCTYPE id=x>", "<!DOCTYPE html/>",
	"<!---->", "<!-- c -->", "<!--<html>-->", "<!--\n\n-->", "<!--[if IE]><html></html><![endif]-->",
	" ", "\n", "\t\r\n ", "          ", "\u{c}", "\u{a0}", "\u{feff}", "x", " x ", "&nbsp;", "&#32;", "<a></a>", "<br>", "<br/>", "<script></script>", "<title>html</title>", "<htm></htm>", "<htmls></htmls>", "<xhtml></xhtml>", "<svg></svg>", "<svg><html></html></svg>", "<pre> </pre>", "<p><html></html></p>",
];
fn e25(r: &mut Runner) {
	page(r, &[0, FIXES | SELF]);
	topics(r, 3, 3, &[SELF]);
	big_pumps(r, &[0, FIXES]);
	sp(
		r,
		"document parts",
		&[""],
		DOC_PARTS,
		&[""],
		5,
		6,
		&[SELF | UNCLOSED],
	);
	sp(r, "many document parts", &[""], MANY_PARTS, &[""], 3, 4, &[SELF | UNCLOSED]);
	sp(r, "document parts, repaired", &[""], &["<html>", "</html>", "</a>", "<", "<1", "x", " ", "<!doctype html>", "<head>", "<!---->"], &[""], 5, 6, &[FIXES]);
	forest_space(r, &[0], "");
	doc_space(r, 4, 5, &[0]);
	unicode(r, &[0]);
	name_space(r, &[0, SELF, FIXES]);
	pumps(r, &[0], 300, 1200);
	name_pairs(r, &[0]);
}
fn count(n: &SN) -> usize {
	1 + n.kids.iter().map(count).sum::<usize>()
}
fn words(ops: &[char], n: usize) -> Vec<String> {
	let mut all = vec![String::new()];
	let mut level = all.clone();
	for _ in 0..n {
		level = level.iter().flat_map(|s| ops.iter().map(move |c| format!("{}{}", s, c))).collect();
		all.extend(level.clone());
	}
	all
}
const HDOCS: &[(&str, u8)] = &[
	("", 0),
	("x", 0),
	("<a id=x b='c'>t <br> <!--c--></a>", 0),
	("<svg><g/><a id=x><![CDATA[q]]></a></svg>", 0),
	("<!DOCTYPE html><html><title>a&lt;</title><pre>  y </pre>  <p id=\"x\"> z</p></html>", 0),
	("<script>if(a<b)</script><a>1</a><b>2</b>", 0),
	("<a><b id=x>u", FIXES),
	("<a>v</b> w<1</a> <i>", FIXES),
	("<BR A=B><A/>", SELF),
	("<p><b id=''>1</b><i id>2</i><u ID='X'/></p>", SELF),
	("<a =b c=\"d e\" F>&amp;</a>", 63),
];
fn e26(r: &mut Runner) {
	let mut w = words(HOPS, if r.thorough { 4 } else { 3 });
	// these are expensive
	for a in HOPS {
		w.extend([format!("M{}", a), format!("T{}", a), format!("{}MT", a), format!("{}T{}", a, a), format!("TM{}", a)]);
	}
	let hops = HOPS.len() + 2;
	r.family(
		"histories",
		&format!("every history of <= {} of {} operations on {} documents", if r.thorough { 4 } else { 3 }, hops, HDOCS.len()),
		w.len() * HDOCS.len(),
		|i| {
			let (s, pm) = HDOCS[i % HDOCS.len()];
			Some(Case { s: s.into(), pm, aux: w[i / HDOCS.len()].clone() })
		},
	);
	r.family("long histories", "one operation, or two alternating, repeated up to 300 times", HDOCS.len() * HOPS.len() * HOPS.len() * 3, |i| {
		let (s, pm) = HDOCS[i % HDOCS.len()];
		let i = i / HDOCS.len();
		let (a, i) = (HOPS[i % HOPS.len()], i / HOPS.len());
		let (b, i) = (HOPS[i % HOPS.len()], i / HOPS.len());
		let n = [20, 60, 150][i];
		Some(Case { s: s.into(), pm, aux: format!("{}{}", a, b).repeat(n) })
	});
	r.family("very long histories", "one operation 1100 times, cheap ones 70000 times", HDOCS.len() * HOPS.len() * 2, |i| {
		let (s, pm) = HDOCS[i % HDOCS.len()];
		let i = i / HDOCS.len();
		let (a, i) = (HOPS[i % HOPS.len()], i / HOPS.len());
		if a == 'h' || (i == 1 && (s.len() > 3 || a == 'e')) {
			return None;
		}
		Some(Case { s: s.into(), pm, aux: a.to_string().repeat([1100, 70000][i]) })
	});
	// another source, whatever it is, comes first
	let mut firsts: Vec<String> = vec![];
	for (ctx, alpha) in [("", DOC), ("<a ", ATTR), ("<!", DECL), ("<svg>", FOREIGN), ("<title>", RAW), ("<a>", ENDS), ("x ", LTS)] {
		let mut level = vec![ctx.to_string()];
		for _ in 0..2 {
			level = level.iter().flat_map(|s| alpha.iter().map(move |t| format!("{}{}", s, t))).collect();
			firsts.extend(level.clone());
		}
	}
	let few = firsts.len();
	for p in PLACES {
		for c in 0..0x80u8 {
			firsts.push(format!("{}{}{}", p.0, c as char, p.1));
			firsts.push(format!("{}{}", p.0, c as char));
		}
		for w in WORDS.split(' ') {
			firsts.push(format!("{}{}{}", p.0, w, p.1));
			firsts.push(format!("{}{}", p.0, w));
		}
	}
	for n in names() {
		for sh in NAME_SHAPES {
			firsts.push(sh.replace('N', &n));
		}
		firsts.push(format!("<{}>some text", n));
		firsts.push(format!("<p><{} a=b>more  text</{}", n, n));
	}
	for f in forests(3, LEAVES, CONTAINERS) {
		let t = forest(&f).0;
		let c: Vec<char> = t.chars().collect();
		firsts.push(t);
		firsts.push(c[..c.len() * 2 / 3].iter().collect());
		firsts.push(c[..c.len().saturating_sub(1)].iter().collect());
	}
	for k in 0..PUMPS {
		for n in [3, 50, 300] {
			firsts.extend(pump(k, n));
		}
	}
	let all: Vec<(usize, usize)> = (0..firsts.len()).flat_map(|i| (0..if i < few { 2 } else { 1 }).map(move |o| (i, o))).collect();
	let seconds: Vec<(&str, u8)> = HDOCS.iter().copied().chain([("<a/>", 0), ("<a><![CDATA[x]]></a>", 0), ("a<b", 0), (" <b> </b> ", FIXES), ("<a", UNCLOSED), ("<!doctype html \"a\">", 0), ("<a></A>", 0), ("<a></A>", CASE)]).collect();
	r.family("sources in a row", &format!("{} sources ({} of them with 2 option sets) before each of {} documents", firsts.len(), few, seconds.len()), all.len() * seconds.len(), |i| {
		let (k, i) = (i % seconds.len(), i / seconds.len());
		Some(Case { s: seconds[k].0.into(), pm: seconds[k].1, aux: format!("\u{1}{}{}", ["0", "1"][all[i].1], firsts[all[i].0]) })
	});
	// sources that have much in common
	let mut alike: Vec<String> = vec![];
	for n in 0..=4 {
		for m in 0..1usize << n {
			let p: String = (0..n).map(|i| if m >> i & 1 == 1 { '\n' } else { 'x' }).collect();
			alike.extend(["</a>", "<1", "<!x", "<b>", "<b/>", "<b =>"].map(|e| format!("{}{}", p, e)));
		}
	}
	for (a, b) in [("", ""), ("<p>", "</p>"), ("<svg>", "</svg>")] {
		for e in ["a", "b"] {
			for v in ["x", "y", "''", "'x'", "\"y\""] {
				alike.push(format!("{}<{} id={}></{}>{}", a, e, v, e, b));
			}
		}
	}
	const KIND: &[&str] = &["<a></a>", "<b></b>", "t", "u", " ", "<!--c-->", "<!--d-->", "<br>", "<hr>", "<script>s</script>", "<title>&lt;</title>", "<pre> </pre>", "<svg><g/></svg>", "<i c=d></i>", "<i c='e'></i>", "&amp;", "<!DOCTYPE a>", "<html></html>", "</i>", "<b>"];
	for a in KIND {
		alike.push(a.to_string());
		alike.extend(KIND.iter().map(|b| format!("{}{}", a, b)));
	}
	alike.sort();
	alike.dedup();
	let (n, pms) = (alike.len(), [0, FIXES | SELF]);
	r.family("alike sources in a row", &format!("{} x {} short sources, one used in all ways and kept or dropped, the other judged; option sets and keeping alternate{}", n, n, if r.thorough { ", all four" } else { "" }), n * n * if r.thorough { 4 } else { 1 }, |i| {
		let (v, i) = if r.thorough { (i % 4, i / 4) } else { ((i / n + i % n) % 4, i) };
		Some(Case { s: alike[i % n].clone(), pm: pms[v / 2], aux: format!("\u{2}{}{}", v % 2, alike[i / n]) })
	});
	let near = near_names();
	const F: &[&str] = &["<N>", "<N></N>", "<N/>", "<N a", "<svg><N></N></svg>", "</N>"];
	const G: &[&str] = &["<N></N>", "<N>", "<N/>", "<N>a<b</N>", "<N><g/></N>"];
	r.family("near names in a row of sources", &format!("{} pairs of names, both ways round, {} x {} shapes", near.len(), F.len(), G.len()), near.len() * 2 * F.len() * G.len(), |i| {
		let (w, i) = (i % 2, i / 2);
		let (f, i) = (F[i % F.len()], i / F.len());
		let (g, i) = (G[i % G.len()], i / G.len());
		let (a, b) = if w == 0 { (&near[i].0, &near[i].1) } else { (&near[i].1, &near[i].0) };
		Some(Case { s: g.replace('N', b), pm: 0, aux: format!("\u{1}0{}", f.replace('N', a)) })
	});
	r.seqs(&Space { name: "documents", prefixes: &[""], alpha: DOC, tails: &[""], depth: if r.thorough { 4 } else { 3 }, masks: &[0, FIXES], aux: "rmcpeson" });
	r.seqs(&Space { name: "svg, then others", prefixes: &["", "<svg>"], alpha: FOREIGN, tails: &["", "</svg>"], depth: 3, masks: &[0, SELF], aux: "epskr" });
	r.seqs(&Space { name: "attributes", prefixes: &["<a "], alpha: ATTR, tails: &["></a>", ""], depth: 3, masks: &[0, 63], aux: "esmrl" });
	let v = forests(3, LEAVES, CONTAINERS);
	r.family("forests", "every tree of <= 3 nodes of 12 kinds, all operations once", v.len(), |i| Some(Case { s: forest(&v[i]).0, pm: 0, aux: HOPS.iter().collect() }));
}
fn e27(r: &mut Runner) {
	let all: Vec<char> = (0..0x110000u32).filter_map(char::from_u32).collect();
	let n = all.len() / 256 + 1;
	r.family("all characters", "each of the 1112064 characters, four functions", n, |i| {
		let c: String = all[(i * 256).min(all.len())..((i + 1) * 256).min(all.len())].iter().collect();
		Some(Case { s: c, pm: 0, aux: "chars".into() })
	});
	let mut nm = names();
	nm.extend(ELEMENTS.split(' ').chain(WORDS.split(' ')).chain(["", " ", "br ", " br", "\0", "br\0", "svg\n"]).map(|x| x.to_string()));
	for n in VOIDS.iter().chain(RAWS.iter()).chain(["svg", "math"].iter()) {
		let c: Vec<char> = n.chars().collect();
		for i in 0..=c.len() {
			for x in uni(false).into_iter().filter(|x| (*x as u32) < 0x250 || *x as u32 > 0x2000) {
				nm.push(c[..i].iter().chain([&x]).chain(&c[i..]).collect());
				if i < c.len() {
					nm.push(c[..i].iter().chain([&x]).chain(&c[i + 1..]).collect());
				}
			}
		}
	}
	let az: Vec<char> = ('a'..='z').chain('0'..='9').chain(['-']).collect();
	let mut level = vec![String::new()];
	for _ in 0..(if r.thorough { 4 } else { 3 }) {
		level = level.iter().flat_map(|x| az.iter().map(move |c| format!("{}{}", x, c))).collect();
		nm.extend(level.clone());
	}
	nm.sort();
	nm.dedup();
	let fo = forests(3, LEAVES, CONTAINERS);
	r.family("identity", "is_same on all pairs of nodes of two parses and a clone of every tree of <= 3 nodes; Node::new", fo.len() + 1, |i| {
		Some(if i == fo.len() { Case { s: String::new(), pm: 0, aux: "new".into() } } else { Case { s: forest(&fo[i]).0, pm: 0, aux: "same".into() } })
	});
	// every sequence of calls that begins with an addition
	let calls: Vec<char> = "kvV012EFGHefgh".chars().collect();
	let mut seqs: Vec<String> = vec![];
	let mut level: Vec<String> = vec!["k".into(), "v".into(), "V".into()];
	for _ in 0..(if r.thorough { 5 } else { 4 }) {
		seqs.extend(level.clone());
		level = level.iter().flat_map(|x| calls.iter().map(move |c| format!("{}{}", x, c))).collect();
	}
	r.family("sequences of attribute calls", &format!("{} sequences of calls of the methods of TagMeta", seqs.len()), seqs.len(), |i| Some(Case { s: seqs[i].clone(), pm: 0, aux: "metas".into() }));
	r.family("names", "all names x allow_insert with every node type, is_content_tag", nm.len() * 2, |i| {
		Some(Case { s: nm[i / 2].clone(), pm: 0, aux: ["insert", "content"][i % 2].into() })
	});
	// every case variant of the special names
	let mut cased = vec![];
	for n in VOIDS.iter().chain(RAWS.iter()).chain(["svg", "math"].iter()) {
		for m in 0..1u32 << n.len() {
			cased.push(n.chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect::<String>());
		}
	}
	r.family("case variants", "every case variant of the 20 special names", cased.len() * 2, |i| Some(Case { s: cased[i / 2].clone(), pm: 0, aux: ["insert", "content"][i % 2].into() }));
	let toks = [" ", "\t", "\n", "\r", "\x0c", "\x0b", "\u{a0}", "x", "\u{2003}", "<", "&", "é", "\0"];
	let mut texts = vec![String::new()];
	let mut lv = texts.clone();
	for _ in 0..(if r.thorough { 5 } else { 4 }) {
		lv = lv.iter().flat_map(|s| toks.iter().map(move |t| format!("{}{}", s, t))).collect();
		texts.extend(lv.clone());
	}
	r.family("text nodes", "every text of <= 4 of 13 characters", texts.len(), |i| Some(Case { s: texts[i].clone(), pm: 0, aux: "text".into() }));
	let u = uni(r.thorough);
	r.family("text nodes of one character", "characters alone and between spaces", u.len() * 2, |i| {
		let c = u[i / 2];
		Some(Case { s: if i % 2 == 0 { c.to_string() } else { format!(" {} ", c) }, pm: 0, aux: "text".into() })
	});
	let keys = ["id", "ID", "iD", "b", "idx", "", "i", "data-id", "é"];
	let quotes = ["\"", "'", ""];
	let av = ["x", " ", "\"", "'", "<", ">", "=", "`", "/", "é", "\t", "\0"];
	let mut vals = vec![String::new()];
	let mut lv = vals.clone();
	for _ in 0..3 {
		lv = lv.iter().flat_map(|s| av.iter().map(move |t| format!("{}{}", s, t))).collect();
		vals.extend(lv.clone());
	}
	r.family("attributes", &format!("{} values x 3 quotes x {} keys", vals.len(), keys.len()), vals.len() * 3 * keys.len(), |i| {
		let (k, i) = (i % keys.len(), i / keys.len());
		let (q, i) = (i % 3, i / 3);
		Some(Case { s: vals[i].clone(), pm: 0, aux: format!("attr:{}:{}", quotes[q], keys[k]) })
	});
	r.family("attribute values of one character", "characters x 3 quotes", u.len() * 3, |i| {
		Some(Case { s: u[i / 3].to_string(), pm: 0, aux: format!("attr:{}:b", quotes[i % 3]) })
	});
}
fn e28(r: &mut Runner) {
	let w = words(EDITS, if r.thorough { 5 } else { 4 });
	r.family(
		"edits",
		&format!("every sequence of <= {} of {} edits on {} documents", if r.thorough { 5 } else { 4 }, EDITS.len(), HDOCS.len()),
		w.len() * HDOCS.len(),
		|i| {
			let (s, pm) = HDOCS[i % HDOCS.len()];
			Some(Case { s: s.into(), pm, aux: w[i / HDOCS.len()].clone() })
		},
	);
	let w3 = words(MORE_EDITS, if r.thorough { 4 } else { 3 });
	r.family("more edits", &format!("every sequence of <= {} of {} edits on {} documents", if r.thorough { 4 } else { 3 }, MORE_EDITS.len(), HDOCS.len()), w3.len() * HDOCS.len(), |i| {
		let (s, pm) = HDOCS[i % HDOCS.len()];
		Some(Case { s: s.into(), pm, aux: w3[i / HDOCS.len()].clone() })
	});
	let v = forests(if r.thorough { 4 } else { 3 }, LEAVES, CONTAINERS);
	let w2 = words(if r.thorough { EDITS } else { MORE_EDITS }, 2);
	r.family("edits of forests", &format!("every sequence of <= 2 edits on {} trees", v.len()), v.len() * w2.len(), |i| {
		Some(Case { s: forest(&v[i % v.len()]).0, pm: 0, aux: w2[i / v.len()].clone() })
	});
	let one = |doc: &str, pm: u8| -> usize { doc.len().min(model::parse(&chars(doc), pm).doc().map_or(0, |d| count(&d.root) - 1)) };
	let docs: Vec<(String, u8)> = HDOCS.iter().map(|(s, m)| (s.to_string(), *m)).collect();
	let mut pairs: Vec<(usize, String)> = vec![];
	for (k, (s, pm)) in docs.iter().enumerate() {
		let n = one(s, *pm);
		for a in 0..n * PEDITS {
			pairs.push((k, format!("@{}.{}", a / PEDITS, a % PEDITS)));
			// the second edit may be about a node that the first one has added
			for b in 0..(n + 2) * PEDITS {
				pairs.push((k, format!("@{}.{};{}.{}", a / PEDITS, a % PEDITS, b / PEDITS, b % PEDITS)));
			}
		}
	}
	r.family("edits of any node", &format!("every sequence of <= 2 of {} edits of every node of {} documents", PEDITS, docs.len()), pairs.len(), |i| {
		let (k, e) = &pairs[i];
		Some(Case { s: docs[*k].0.clone(), pm: docs[*k].1, aux: e.clone() })
	});
	drop(pairs);
	let fo: Vec<String> = v.iter().map(|f| forest(f).0).collect();
	r.family("edits of any node of forests", &format!("each of {} edits of every node of {} trees", PEDITS, fo.len()), fo.len() * PEDITS * 4, |i| {
		let (f, i) = (i % fo.len(), i / fo.len());
		if i / PEDITS >= one(&fo[f], 0) {
			return None;
		}
		Some(Case { s: fo[f].clone(), pm: 0, aux: format!("@{}.{}", i / PEDITS, i % PEDITS) })
	});
	r.family("many edits", "one edit, or two alternating, up to 120 times", HDOCS.len() * EDITS.len() * EDITS.len() * 60, |i| {
		let (s, pm) = HDOCS[i % HDOCS.len()];
		let i = i / HDOCS.len();
		let (a, i) = (EDITS[i % EDITS.len()], i / EDITS.len());
		let (b, i) = (EDITS[i % EDITS.len()], i / EDITS.len());
		if a == 'c' && b == 'n' || a == 'n' && b == 'n' {
			return None;
		}
		Some(Case { s: s.into(), pm, aux: format!("{}{}", a, b).repeat(i) })
	});
}

macro_rules! prop {
	($id:literal, $c:ident, $e:ident) => {
		Prop { id: $id, case: $c, explore: $e, shrink: true }
	};
	($id:literal, $c:ident, $e:ident, noshrink) => {
		Prop { id: $id, case: $c, explore: $e, shrink: false }
	};
}
fn e29(r: &mut Runner) {
	topics(r, 3, 4, &[0, 63]);
	combos(r, 0);
	doc_space(r, 3, 4, &[0, FIXES]);
	core_space(r, 4, 6, &[FIXES]);
	pumps(r, &[0, 63], 120, 600);
	cuts(r, &[0, FIXES]);
	insertions(r, &["<", "</a>", "x"], &[FIXES]);
	name_space(r, &[0]);
	forest_space(r, &[0], "");
	contexts(r, &[FIXES | SELF]);
	features(r, &[0]);
	snippets(r, &[0]);
	stretches(r, &[0]);
	const VARY: &[&str] = &[
		"<@></@>", "<@/>", "<svg><@/></svg>", "<a @></a>", "<a @=b></a>", "<a b=@></a>", "<a b='@'/>", "<a id=@></a>", "<a id='@'>", "<a class=@ href=\"@\"></a>", "@", "<p>@</p>", "<b>&@;</b>", "<!--@-->", "<!DOCTYPE @>",
		"<!DOCTYPE a \"@\">", "<script>@</script>", "<title>@&</title>", "<svg><g><![CDATA[@]]></g></svg>", "</@>", "<@>", "<@", "<a @", "<a b='@", "<1@", "<p></@></p>", "<!@>", "<p><@></p>", "<A></a @>", "<pre><@> </@></pre>", "<a><@><b></b></@></a>", "<br @>", "<@ id=@ @=@>@</@>",
	];
	let lens = [3usize, 9, 20, 40, 100, 300];
	r.family("varying sources", &format!("{} sources with a word that varies 960 times, {} lengths x 4 option sets", VARY.len(), lens.len()), VARY.len() * lens.len() * 4, |i| {
		let (pm, i) = ([0, SELF, FIXES | SELF, 63][i % 4], i / 4);
		Some(Case { s: VARY[i / lens.len()].into(), pm, aux: format!("vary:{}", lens[i % lens.len()]) })
	});
}
fn e30(r: &mut Runner) {
	let masks = [0, 63, FIXES];
	let wraps = ["|", "<p>|</p>", "<svg><g>|</g></svg>", "<a |></a>", "<a b='|'></a>", "<script>|</script>", "<!--|-->", "<p>|"];
	let alpha: Vec<&str> = DOC.iter().chain(ATTR_WORDS).copied().collect();
	let deep = if r.thorough { 3 } else { 2 };
	let mut words: Vec<String> = vec![];
	let mut level = vec![String::new()];
	for _ in 0..deep {
		level = level.iter().flat_map(|s| alpha.iter().map(move |t| format!("{}{}", s, t))).collect();
		words.extend(level.clone());
	}
	r.family(
		"periodic sources",
		&format!("96, 192 and 384 repetitions of every sequence of <= {} of {} tokens in {} contexts x {} option sets", deep, alpha.len(), wraps.len(), masks.len()),
		words.len() * wraps.len() * masks.len(),
		|i| {
			let (m, i) = (i % masks.len(), i / masks.len());
			let (w, i) = (i % wraps.len(), i / wraps.len());
			Some(Case { s: words[i].clone(), pm: masks[m], aux: wraps[w].into() })
		},
	);
	let nk = 20;
	r.family("two things grow", &format!("96, 192 and 384 of {} kinds and as many of {} tokens, inside, behind or before x {} option sets", nk, alpha.len(), masks.len()), nk * alpha.len() * masks.len() * 3, |i| {
		let (m, i) = (i % masks.len(), i / masks.len());
		let (w, i) = (i % 3, i / 3);
		let (k, i) = (i % nk, i / nk);
		Some(Case { s: alpha[i].into(), pm: masks[m], aux: format!("crowd{}#{}", w, k) })
	});
	const BIG: &[&str] = &[
		"<g></g >", "<g></g>", "<b>x</b>", "x</i>", "x</i > y", "<1", "<", "<br>", "<br/>", "<!---->", "<!--x-->", "<script></script>", "<title>x</title >", " ", "&amp;", "a=b ", "a='b' ", "c ", "<a b=c></a>", "<svg></svg>", "<math><mi/></math>", "<!DOCTYPE a>", "<!DOCTYPE a \"b\">",
		"<i id=x></i>", "<g/>", "<svg><g><![CDATA[]]></g></svg>", "x", "<p>x < y</p>", "\n", "<pre> </pre>", "<a", "</a>", "<A></a\n>", "=", "'", "<u>  </u>",
	];
	let nb = BIG.len();
	r.family("large growth", &format!("1000, 2000 and 4000 repetitions of {} stretches in {} contexts x {} option sets", nb, wraps.len(), masks.len()), nb * wraps.len() * masks.len(), |i| {
		let (m, i) = (i % masks.len(), i / masks.len());
		Some(Case { s: BIG[i / wraps.len()].into(), pm: masks[m], aux: format!("*{}", wraps[i % wraps.len()]) })
	});
	r.family("large growth, pairs", &format!("1000, 2000 and 4000 repetitions of {} x {} stretches in 2 contexts, all recovery", nb, nb), nb * nb * 2, |i| {
		let (w, i) = (["*|", "*<svg><g>|</g></svg>"][i % 2], i / 2);
		Some(Case { s: format!("{}{}", BIG[i % nb], BIG[i / nb]), pm: 63, aux: w.into() })
	});
	r.family("growth shapes", "38 shapes in 96, 192 and 384 repetitions x 64 option sets", PUMPS * 64, |i| Some(Case { s: String::new(), pm: (i / PUMPS) as u8, aux: format!("pump#{}", i % PUMPS) }));
}
pub static PROPS: &[Prop] = &[
	prop!("C01", c01, e01),
	prop!("C02", c02, e02),
	prop!("C03", c03, e03),
	prop!("C04", c04, e04),
	prop!("C05", c05, e05),
	prop!("C06", c06, e06),
	prop!("C07", c07, e07),
	prop!("C08", c08, e08),
	prop!("C09", c09, e09),
	prop!("C10", c10, e10),
	prop!("C11", c_tree, e11),
	prop!("C12", c_tree, e12),
	prop!("C13", c_tree, e13),
	prop!("C14", c_tree, e14),
	prop!("C15", c15, e15),
	prop!("C16", c16, e16),
	prop!("C17", c17, e17),
	prop!("C18", c18, e18),
	prop!("C19", c19, e19, noshrink),
	prop!("C20", c20, e20),
	prop!("C21", c21, e21),
	prop!("C22", c22, e22),
	prop!("C23", c23, e23),
	prop!("C24", c24, e24),
	prop!("C25", c25, e25),
	prop!("C26", c26, e26),
	prop!("C27", c27, e27, noshrink),
	prop!("C28", c28, e28),
	prop!("C29", c29, e29),
	prop!("C30", c30, e30),
];
