//! Random texts, names, trees and XML documents.
use crate::codes::*;
use crate::rng::Rng;
use serde_json::{json, Value};

pub const FRAGS: &[&str] = &[
    "x", "y", "abc", "hello world", " ", "  ", "\n", "\t", "\r\n", "\n  ", "&", "<", ">", "'", "\"", ";", "#", "&amp;", "&lt;", "&gt;", "&apos;", "&quot;",
    "&amp;lt;", "&#x41;", "&#x263c;", "&#9731;", "&#x;", "&#;", "&nope;", "&#xD800;", "&#x110000;", "&#x10FFFF;", "&#xzz;", "]]>", "]]", "]", "-->", "--", "-", "<!--",
    "<![CDATA[", "<a>", "</a>", "/>", "é", "ß", "☼", "日本語", "𝄞", "\u{a0}", "\u{3000}", "\u{85}", "\u{2028}", "\u{200b}", "\u{feff}", "0", "42", "=", "a=\"b\"", "?>", "<?", "{}", "\\", "\u{0}", "\u{7f}", "a\n \n\nb", "\n\n", "x ", " y", "&&", ";;", "&amp;amp;", "&#x26;lt;", "&#X41;", "&AMP;", "&lt", "&#x41", "&#x0;", "&#x0041;", "&#xfffe;", "&#xDFFF;", "&#x110000000000000000;",
];
pub fn text(r: &mut Rng) -> String {
    if r.chance(1) { return long(r); }
    let n = match r.below(20) { 0 => 0, 1..=9 => 1, 10..=13 => 2, 14..=16 => 3, 17 => r.range(4, 9), 18 => r.range(10, 30), _ => 2 };
    let mut s = String::new();
    for _ in 0..n { s.push_str(r.pick(FRAGS)); }
    s
}
/// hundreds of characters
pub fn long(r: &mut Rng) -> String {
    let n = *r.pick(&[64, 100, 130, 260, 300, 520]);
    let unit = *r.pick(&["x", "abcdefgh ", "é", "&", "<x>", "日本", "a b\n", "&lt;", "]]", "\u{a0}."]);
    let mut s = String::new();
    while s.chars().count() < n { s.push_str(unit); if r.chance(10) { s.push_str(r.pick(FRAGS)); } }
    s
}
/// something close to s: it must not be taken for s
pub fn near(r: &mut Rng, s: &str) -> String {
    let flip = |s: &str| -> String { if s.chars().any(|c| c.is_lowercase()) { s.to_uppercase() } else { s.to_lowercase() } };
    match r.below(12) {
        0 | 1 => flip(s),
        2 => { let mut c = s.chars(); match c.next() { None => "a".into(), Some(x) => flip(&x.to_string()) + c.as_str() } }
        3 => match s.split_once(':') { Some((_, b)) => b.to_string(), None => format!("p:{s}") },
        4 => match s.split_once(':') { Some((a, _)) => a.to_string(), None => format!("xml:{s}") },
        5 => format!("{s} "),
        6 => format!(" {s}"),
        7 => format!("{s}x"),
        8 => { let mut c: Vec<char> = s.chars().collect(); c.pop(); c.into_iter().collect() }
        9 => s.chars().rev().collect(),
        10 => match s.split_once(':') { Some((a, b)) => format!("{}:{b}", flip(a)), None => format!("xmlns:{s}") },
        _ => s.chars().skip(1).collect(),
    }
}
pub fn blank(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    (0..n).map(|_| *r.pick(&[" ", "\n", "\t", "\r", "\u{a0}", "\u{3000}", "\u{85}", "\u{2028}", "\u{2003}"])).collect()
}
/// text that is safe as it is between tags
pub fn plain(r: &mut Rng) -> String {
    let words = ["x", "some text", "é☼", "1 2", "end.", "日本", "a;b", "q'q", "d\"d", "\u{a0}z", "=", "]]"];
    let mut s = String::new();
    if r.chance(20) { s.push_str(&blank(r)); }
    for _ in 0..r.range(1, 3) { s.push_str(r.pick(&words)); }
    if r.chance(20) { s.push_str(&blank(r)); }
    s
}
pub const NAMES: &[&str] = &["a", "b", "c", "d", "item", "a", "b", "a", "Long-Name.x_1", "_u", "né", "名前", "x·y", "a1", "A", "B", "aa", "ab", "xml2", "Ωmega", "Item", "C", "bb", "item-2", "a.b", "É"];
pub fn name(r: &mut Rng) -> String {
    if r.chance(1) { let c = *r.pick(&["n", "é", "Ab-"]); return c.repeat(*r.pick(&[40, 120, 300])); }
    r.pick(NAMES).to_string()
}
pub const PREFIXES: &[&str] = &["p", "q", "p", "xs", "é", "xml", "p2", "xmlns2", "P", "Q", "pq", "É", "Xs"];
pub fn prefix(r: &mut Rng) -> String { r.pick(PREFIXES).to_string() }
pub const URIS: &[&str] = &["u", "v", "w", "http://example.com/ns", "urn:x:y", "", "u", "a&b", "u/", "U", "http://example.com/NS", "u ", "v\"<"];
pub fn uri(r: &mut Rng) -> String { r.pick(URIS).to_string() }
pub const KEYS: &[&str] = &["k", "id", "name", "x-y", "K", "k1", "k2", "a:b", "é", "zz", "xmlnsfoo", "xm", "_", "xlink:href", "style", "aaa", "xmln", "xml:lang", "lang", "space", "xml:space", "href", "Id", "ID", "b:a", "a", "b", "É", "XMLNS", "x", "y", "z", "k-1", "k.1"];
pub fn key(r: &mut Rng) -> String {
    if r.chance(1) { return "key".repeat(*r.pick(&[20, 60])); }
    r.pick(KEYS).to_string()
}

/// anything at all in a name position (never U+1680, see DESIGN.md)
pub fn wild_name(r: &mut Rng) -> String {
    const EDGE: &[u32] = &[0x2d, 0x2e, 0x2f, 0x30, 0x39, 0x3a, 0x3b, 0x40, 0x41, 0x5a, 0x5b, 0x5e, 0x5f, 0x60, 0x61, 0x7a, 0x7b, 0xb6, 0xb7, 0xb8, 0xbf, 0xc0, 0xd6, 0xd7, 0xd8, 0xf6, 0xf7, 0xf8, 0x2ff, 0x300, 0x36f, 0x370, 0x37d, 0x37e, 0x37f, 0x1fff, 0x2000, 0x200b, 0x200c, 0x200d, 0x200e, 0x203e, 0x203f, 0x2040, 0x2041, 0x206f, 0x2070, 0x218f, 0x2190, 0x2bff, 0x2c00, 0x2fef, 0x2ff0, 0x3000, 0x3001, 0xd7ff, 0xe000, 0xf8ff, 0xf900, 0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0xeffff, 0xf0000, 0x10ffff, 0x20, 0x09, 0x0a, 0x26, 0x3c, 0x3e, 0x22, 0x27, 0x3d, 0x21, 0x3f, 0x7c, 0x85, 0xa0, 0x0];
    match r.below(10) {
        0 => String::new(),
        1 => name(r),
        2 => format!("{}:{}", name(r), name(r)),
        3 => format!(":{}", name(r)),
        4 => { let mut s = name(r); let i = r.below(s.chars().count() + 1); let at = s.char_indices().nth(i).map_or(s.len(), |x| x.0); s.insert(at, char::from_u32(*r.pick(EDGE)).unwrap()); s }
        5 | 6 => (0..r.range(1, 3)).map(|_| char::from_u32(*r.pick(EDGE)).unwrap()).collect(),
        7 => format!("{}{}", name(r), r.pick(&["\n", " ", "!", ">", "/", "=", "\u{b7}", "-", ".", ":", "\u{d7}"])),
        8 => loop {
            let c = r.below(0x110000) as u32;
            if c == 0x1680 { continue; }
            if let Some(c) = char::from_u32(c) { break if r.chance(50) { c.to_string() } else { format!("a{c}") }; }
        },
        _ => { let a = name(r); format!("{a}{}", name(r)) }
    }
}

pub fn indent(r: &mut Rng) -> String {
    r.pick(&["", " ", "  ", "   ", "    ", "        ", "\t", "  ", "\t", "  "]).to_string()
}
pub fn wild_indent(r: &mut Rng) -> String {
    if r.chance(60) { return indent(r); }
    r.pick(&["\t\t", " \t", "\t ", "x", "\n", "\u{a0}", "--", "  x", " \n ", "\t\t\t", "\u{3000}", "   \t"]).to_string()
}

pub fn pred(r: &mut Rng) -> Value {
    let pr = match r.below(11) {
        0 => json!({"p": "all"}),
        1 => json!({"p": "none"}),
        2 | 3 => json!({"p": "kind", "k": *r.pick(&["e", "t", "c", "d"])}),
        4 | 5 => json!({"p": "name", "s": enc(r.pick(&["a", "b", "c", "item"]))}),
        6 => json!({"p": "attr", "s": enc(&key(r))}),
        7 => json!({"p": "ns", "o": if r.chance(40) { json!([]) } else { json!([enc(&uri(r))]) }}),
        8 => json!({"p": "leafy"}),
        9 => json!({"p": "contains", "s": enc(r.pick(&["x", "y", "a", "", "hello"]))}),
        _ => json!({"p": "prefix", "o": if r.chance(40) { json!([]) } else { json!([enc(&prefix(r))]) }}),
    };
    pr
}
pub const MUT_QUERIES: &[&str] = &["children_mut", "child_elements_mut", "by_name_mut", "first_mut", "by_ns_mut", "by_prefix_mut"];
pub const QUERIES: &[&str] = &["children", "child_elements", "by_name", "first", "by_ns", "by_prefix", "all_children", "children_recursive", "search", "search_elements", "search_by_name", "search_text", "search_comments",
    "children_mut", "child_elements_mut", "by_name_mut", "first_mut", "by_ns_mut", "by_prefix_mut"];
/// a query; names, namespaces and prefixes are mostly taken from those present
pub fn query(r: &mut Rng, only_mut: bool, names: &[String], uris: &[Option<String>], pfx: &[Option<String>]) -> Value {
    let q = if only_mut { *r.pick(MUT_QUERIES) } else { *r.pick(QUERIES) };
    match q {
        "by_name" | "first" | "search_by_name" | "by_name_mut" | "first_mut" => {
            let n = if !names.is_empty() && r.chance(85) { let n = r.pick(names).clone(); if r.chance(15) { near(r, &n) } else { n } } else { name(r) };
            json!({"q": q, "s": enc(&n)})
        }
        "by_ns" | "by_ns_mut" => {
            let o = if !uris.is_empty() && r.chance(80) { let o = r.pick(uris).clone(); if r.chance(15) { Some(o.map_or(String::new(), |x| near(r, &x))) } else { o } } else if r.chance(50) { None } else { Some(uri(r)) };
            json!({"q": q, "o": enc_opt(o.as_deref())})
        }
        "by_prefix" | "by_prefix_mut" => {
            let o = if !pfx.is_empty() && r.chance(80) { let o = r.pick(pfx).clone(); if r.chance(15) { Some(o.map_or(String::new(), |x| near(r, &x))) } else { o } } else if r.chance(50) { None } else { Some(prefix(r)) };
            json!({"q": q, "o": enc_opt(o.as_deref())})
        }
        "search" | "search_elements" | "search_text" | "search_comments" => json!({"q": q, "pr": pred(r)}),
        _ => json!({"q": q}),
    }
}

// ------------------------------------------------------------------ XML text

pub struct XmlCfg { pub elems: usize, pub depth: usize, pub ns: usize, pub prolog: usize, pub noise: usize }

fn attr_value(r: &mut Rng) -> (char, String) {
    let q = if r.chance(70) { '"' } else { '\'' };
    if r.chance(15) { let s = text(r).replace(q, ""); return (q, s); }
    let frags = ["v", "1", "&amp;", "&lt;b&gt;", ">", "/>", "&#x41;", "é", "☼", " ", "\n", "-->", "]]>", "=", "&quot;", "&apos;", "x y", "http://e.x/?a=1&amp;b=2", "&", "&bad;", "'", "\"", "<", "a=b", "/", "?>"];
    let mut s = String::new();
    for _ in 0..r.below(4) {
        let f = *r.pick(&frags);
        if !f.contains(q) { s.push_str(f); }
    }
    (q, s)
}
fn eq_sign(r: &mut Rng) -> &'static str { *r.pick(&["=", "=", "=", "=", " = ", "= ", " =", "\n=\t", " =  "]) }
fn space(r: &mut Rng) -> &'static str { *r.pick(&[" ", " ", " ", "  ", "\n", "\t", "\r\n "]) }

fn xml_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        let f = match r.below(8) {
            0 => blank(r),
            1 | 2 => plain(r),
            3 => r.pick(&["&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&#x41;", "&#x20;", "&#xA0;", "&#9;", "&amp;lt;", "&#x1F600;"]).to_string(),
            4 => r.pick(&["&", "&;", "&nope;", "& b", ">", "]]>", "\"", "'", "&#xFFFFFF;", "&am", "&#x"]).to_string(),
            _ => r.pick(&["x", "y", "abc", "text"]).to_string(),
        };
        s.push_str(&f);
    }
    s
}
fn xml_comment(r: &mut Rng) -> String {
    if r.chance(25) { let s = text(r).replace("--", "-"); return format!("<!--{}-->", s.trim_end_matches('-')); }
    let c = *r.pick(&["", " c ", "-", "<b>", "</a>", "]]>", "a--b", "&amp;", "\"", "'", "é☼", ">", "->", "\n multi\n line ", "<![CDATA[", "- -", "<!", "a-"]);
    format!("<!--{c}-->")
}
fn xml_cdata(r: &mut Rng) -> String {
    if r.chance(25) { return format!("<![CDATA[{}]]>", text(r).replace("]]>", "")); }
    let c = *r.pick(&["", "x", "<b>", "</a>", "]]", "]", "]>", "&amp;", "\"", "'", "é", " ", "<!--", "-->", "a ] ]> b", "> <", "\n"]);
    format!("<![CDATA[{c}]]>")
}

struct G<'a> { r: &'a mut Rng, left: usize, cfg: &'a XmlCfg }
impl G<'_> {
    fn element(&mut self, depth: usize, scope: &[String], out: &mut String) {
        self.left = self.left.saturating_sub(1);
        let mut scope: Vec<String> = scope.to_vec();
        let mut attrs: Vec<String> = Vec::new();
        if self.r.chance(self.cfg.ns) {
            for _ in 0..self.r.range(1, 2) {
                if self.r.chance(40) { attrs.push(format!("xmlns{}\"{}\"", eq_sign(self.r), kiss_escape(&uri(self.r)))); }
                else {
                    let p = prefix(self.r);
                    attrs.push(format!("xmlns:{p}{}'{}'", eq_sign(self.r), kiss_escape(&uri(self.r))));
                    scope.push(p);
                }
            }
        }
        for _ in 0..*self.r.pick(&[0, 0, 0, 1, 1, 2, 3]) {
            let (q, v) = attr_value(self.r);
            attrs.push(format!("{}{}{q}{v}{q}", key(self.r), eq_sign(self.r)));
        }
        let nm = if !scope.is_empty() && self.r.chance(self.cfg.ns) { let p = self.r.pick(&scope).clone(); format!("{}:{}", p, name(self.r)) }
            else if depth > 0 && self.r.chance(self.cfg.ns / 8) { format!("{}:{}", prefix(self.r), name(self.r)) }
            else { name(self.r) };
        // order of the attributes is not significant
        for i in (1..attrs.len()).rev() { let j = self.r.below(i + 1); attrs.swap(i, j); }
        out.push('<');
        out.push_str(&nm);
        for a in attrs { out.push_str(space(self.r)); out.push_str(&a); }
        if self.r.chance(15) { out.push_str(space(self.r)); }
        let wide = self.cfg.elems > 6 && depth < 2 && self.r.chance(2);
        let kids = if wide { self.r.range(10, 40) } else if depth >= self.cfg.depth || self.left == 0 { self.r.below(2) } else { self.r.range(0, 5) };
        if wide { self.left += kids; }
        if kids == 0 && self.r.chance(70) { out.push_str("/>"); return; }
        out.push('>');
        for _ in 0..kids {
            match self.r.below(20) {
                0..=4 => out.push_str(&xml_text(self.r)),
                5..=7 => out.push_str(&blank(self.r)),
                8 | 9 => out.push_str(&xml_comment(self.r)),
                10 => out.push_str(&xml_cdata(self.r)),
                _ => if self.left > 0 && depth < self.cfg.depth { self.element(depth + 1, &scope, out) } else { out.push_str(&xml_text(self.r)) },
            }
        }
        out.push_str("</");
        out.push_str(&nm);
        if self.r.chance(10) { out.push_str(space(self.r)); }
        out.push('>');
    }
}
fn kiss_escape(s: &str) -> String { s.replace('&', "&amp;") }

/// the inside of an internal subset: declarations, comments, instructions,
/// conditional sections, nested in each other
fn subset(r: &mut Rng, depth: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, 3) {
        match r.below(9) {
            0 => s.push_str("<!ELEMENT a (#PCDATA | b)*>"),
            1 => s.push_str(r.pick(&["<!ENTITY e \"]>\">", "<!ENTITY e '<b>\"</b>'>", "<!ENTITY % p SYSTEM 'x>y'>", "<!ENTITY e \"&#x26;\">"])),
            2 => s.push_str(r.pick(&["<!-- c -->", "<!-- ]> -->", "<!-- ' -->", "<!-- \" > -->", "<!---->", "<!-- < -->"])),
            3 => s.push_str(r.pick(&["<?x y?>", "<?x ]> ?>", "<?x 'a' ?>"])),
            4 => s.push_str("<!ATTLIST a k CDATA '>' l (x|y) \"x\">"),
            5 | 6 if depth < 3 => { s.push_str(r.pick(&["<![INCLUDE[", "<![ IGNORE [", "<![%p;["])); s.push_str(&subset(r, depth + 1)); s.push_str("]]>"); }
            7 => s.push_str("%p;"),
            _ => s.push_str(r.pick(&[" ", "\n", "\n  ", "\t"])),
        }
    }
    s
}
pub fn dtd_text(r: &mut Rng) -> String {
    if r.chance(35) { let id = *r.pick(&["", " SYSTEM \"a.dtd\"", " PUBLIC '-//A>//B' \"u[\""]); return format!(" a{id} [{}]{}", subset(r, 0), r.pick(&["", " ", "\n"])); }
    r.pick(&[" a", " html", " a [<!ELEMENT a (#PCDATA)>]", " a [<!ENTITY x \"<>\"><!ENTITY y '>'>]", " a SYSTEM 'a>b.dtd'", " a PUBLIC \"-//W3C//DTD\" \"http://x\"", " é☼", " a [\n<!ELEMENT a (b)>\n<!-- x -->\n]", "",
        " a [ <!ENTITY q \"it's\"> ]", " a [<!A <!B <!C>>>]"]).to_string()
}
pub fn decl_text(r: &mut Rng) -> String {
    r.pick(&["xml version=\"1.0\" encoding=\"UTF-8\"", "xml version='1.0'", "xml version=\"1.0\" standalone=\"yes\"", "xml", "xml version=\"1.0\" x=\"?>\"", "xml  é ", "xml-model href='x'", "xml\nversion='1.1'\n"]).to_string()
}
fn outside(r: &mut Rng) -> String {
    match r.below(6) {
        0 | 1 => xml_comment(r),
        2 => blank(r),
        3 => { let d = format!("<!DOCTYPE{}>", dtd_text(r)); if r.chance(20) { d.clone() + *r.pick(&["", "\n", "<!-- -->"]) + &d } else { d } }
        4 => r.pick(&["<!ELEMENT a (b)>", "<!-- x --><!ENTITY a \"b>\">", "<!x>", "<!A <B> >"]).to_string(),
        _ => if r.chance(50) { "<?xml-stylesheet type=\"text/xsl\" href='a?>b'?>".to_string() } else { blank(r) },
    }
}
pub fn prologue(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(20) { s.push_str(&blank(r)); }
    if r.chance(60) { s.push_str("<?"); s.push_str(&decl_text(r)); s.push_str("?>"); }
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3, 5]) { s.push_str(&outside(r)); }
    s
}
pub fn xml(r: &mut Rng, cfg: &XmlCfg) -> String {
    let mut s = String::new();
    if r.chance(cfg.prolog) { s.push_str(&prologue(r)); }
    let left = r.range(0, cfg.elems);
    let mut g = G { r, left, cfg };
    g.element(0, &[], &mut s);
    if g.r.chance(cfg.prolog / 2) {
        for _ in 0..g.r.range(1, 3) { let x = if g.r.chance(50) { blank(g.r) } else { xml_comment(g.r) }; s.push_str(&x); }
    }
    if r.chance(2) { s = astray(r, &s); }
    if r.chance(cfg.noise) { for _ in 0..r.range(1, 3) { s = mutate(r, s); } }
    s
}

/// something that may or may not stand outside the root, between what stands there
fn astray(r: &mut Rng, s: &str) -> String {
    let mut t = String::new();
    for _ in 0..r.below(3) { t.push_str(&outside(r)); }
    let x = |r: &mut Rng| match r.below(4) { 0 => text(r), 1 => xml_text(r), 2 => xml_cdata(r), _ => r.pick(NOISE).to_string() };
    if r.chance(50) { let y = x(r); t.push_str(&y); for _ in 0..r.below(3) { t.push_str(&outside(r)); } t.push_str(s); return t; }
    t.push_str(s);
    for _ in 0..r.below(3) { t.push_str(&xml_comment(r)); }
    let y = x(r); t.push_str(&y);
    for _ in 0..r.below(3) { t.push_str(&xml_comment(r)); }
    t
}
const NOISE: &[&str] = &["<", ">", "/", "&", "\"", "'", "=", " ", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE x>", "<!", "</a>", "<a>", "<a/>", "</", "/>", "<b>", "</b>", "x", "é", "☼", "\u{feff}", "<?pi?>",
    "<?xml version='1.0'?>", "k='v'", "k=v", "k", "=''", "\u{0}", "<?xml?>", "<1>", "<a b>", "<a:b/>", "<:a/>", "<a:/>", "</ a>", "< a>", "<a =''/>", "xmlns:=''", "xmlns='z'", "-", "]", "!", "\u{1F600}", "<a b='1' b='2'/>", "<a\u{a0}k='v'/>", "<!---->", "<!-->", "<!--->"];
pub fn mutate(r: &mut Rng, s: String) -> String {
    let cs: Vec<char> = s.chars().collect();
    let n = cs.len();
    let i = r.below(n + 1);
    let j = (i + r.below(6)).min(n);
    let (mut a, mid, b): (String, String, String) = (cs[..i].iter().collect(), cs[i..j].iter().collect(), cs[j..].iter().collect());
    match r.below(6) {
        0 => a + &b,
        1 => { a.push_str(r.pick(NOISE)); a + &mid + &b }
        2 => { a.push_str(r.pick(NOISE)); a + &b }
        3 => { let c = mid.clone(); a + &mid + &c + &b }
        4 => if r.chance(50) { a } else { a.push_str(r.pick(NOISE)); a },
        _ => {
            // swap two chunks
            let k = r.below(n + 1).max(j);
            let l = (k + r.below(6)).min(n);
            let m: String = cs[j..k].iter().collect();
            let z: String = cs[k..l].iter().collect();
            let t: String = cs[l..].iter().collect();
            a + &z + &m + &mid + &t
        }
    }
}
pub fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(70) { s.push_str("<a>"); }
    for _ in 0..r.range(0, 8) {
        if r.chance(75) { s.push_str(r.pick(NOISE)); } else { s.push_str(r.pick(FRAGS)); }
    }
    if r.chance(70) { s.push_str("</a>"); }
    s
}


// -------------------------------------------------------- trees to be built

/// attributes and namespaces of a random element (never refused)
fn tree_elem(r: &mut Rng, ns: usize, kids: Vec<Value>) -> Value {
    let mut at: Vec<(String, String)> = Vec::new();
    for _ in 0..*r.pick(&[0, 0, 0, 1, 2, 3]) { let k = key(r); if !at.iter().any(|x| x.0 == k) { at.push((k, text(r))); } }
    let (mut u, mut p) = (json!([]), json!([]));
    if r.chance(ns) {
        match r.below(5) {
            0 => u = enc_opt(Some(&uri(r))),
            1 => { u = enc_opt(Some(&uri(r))); p = enc_opt(Some(&prefix(r))); }
            2 => p = enc_opt(Some(&prefix(r))),
            3 => at.push(("xmlns".into(), uri(r))),
            _ => { let x = prefix(r); at.push((format!("xmlns:{x}"), uri(r))); if r.chance(50) { p = enc_opt(Some(&x)); } }
        }
    }
    at.sort();
    let at: Vec<Value> = at.iter().map(|kv| json!([enc(&kv.0), enc(&kv.1)])).collect();
    json!({"k": "e", "n": enc(&name(r)), "p": p, "ns": u, "at": at, "ch": kids})
}
fn tree_leaf(r: &mut Rng, texts: usize) -> Value {
    if r.chance(texts) { let t = if r.chance(15) { blank(r) } else { plain(r) }; return json!({"k": "t", "s": enc(&t)}); }
    let s = r.pick(&["c", "x", "", " ", "<b>", "hello", "é", "-"]);
    json!({"k": if r.chance(60) { "c" } else { "d" }, "s": enc(s)})
}
fn bushy(r: &mut Rng, left: &mut usize, depth: usize, ns: usize, texts: usize) -> Value {
    let mut kids = Vec::new();
    if depth > 0 {
        for _ in 0..r.range(0, 5) {
            if *left == 0 { break; }
            *left -= 1;
            kids.push(if r.chance(55) { bushy(r, left, depth - 1, ns, texts) } else { tree_leaf(r, texts) });
        }
    }
    tree_elem(r, ns, kids)
}
/// wide, deep or bushy
pub fn tree(r: &mut Rng, ns: usize, texts: usize) -> Value {
    match r.below(5) {
        0 => {
            let n = *r.pick(&[9, 12, 17, 24, 33, 45]);
            let mut left = 20;
            let kids = (0..n).map(|_| match r.below(10) { 0 => bushy(r, &mut left, 2, ns, texts), 1..=6 => tree_elem(r, ns / 2, vec![]), _ => tree_leaf(r, texts) }).collect();
            tree_elem(r, ns, kids)
        }
        1 => {
            let n = *r.pick(&[6, 9, 14, 20, 34]);
            let mut x = tree_leaf(r, texts);
            for _ in 0..n {
                let mut kids = vec![x];
                if r.chance(15) { kids.push(tree_leaf(r, texts)); }
                if r.chance(15) { kids.insert(0, tree_elem(r, ns, vec![])); }
                x = tree_elem(r, ns, kids);
            }
            x
        }
        _ => { let mut left = *r.pick(&[6, 12, 25, 40]); let d = r.range(2, 6); bushy(r, &mut left, d, ns, texts) }
    }
}
