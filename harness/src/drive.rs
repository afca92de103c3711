//! Random sessions: generates events, executes them, records the trace.
use crate::codes::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::Runner;
use crate::world::*;
use kiss_xml::dom::*;
use serde_json::{json, Value};

pub const SLOTS: usize = 7;

pub struct Session<'a> {
    pub r: Rng,
    pub focus: String,
    pub run: &'a mut Runner,
    weights: Vec<(&'static str, usize)>,
    total: usize,
}

fn size(n: &dyn Node) -> usize {
    match n.as_element() { Ok(e) => 1 + e.children().map(|c| size(c.as_ref())).sum::<usize>(), Err(_) => 1 }
}
/// every node of a tree with its path
fn walk<'a>(n: &'a dyn Node, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, &'a dyn Node)>) {
    out.push((at.clone(), n));
    if let Ok(e) = n.as_element() {
        for (i, c) in e.children().enumerate() {
            at.push(i + 1);
            walk(c.as_ref(), at, out);
            at.pop();
        }
    }
}

fn base_weights(focus: &str) -> Vec<(&'static str, usize)> {
    // what every session needs to build trees
    let mut w: Vec<(&'static str, usize)> = vec![
        ("new", 10), ("leaf", 9), ("append", 10), ("append_all", 3), ("insert", 6), ("remove", 3), ("remove_element", 2),
        ("set_text", 1), ("clear_children", 1), ("set_attr", 2), ("remove_attr", 1), ("clone", 2), ("drop", 2), ("parse", 1),
        ("doc_new", 2), ("set_content", 1), ("build", 1),
    ];
    let extra: &[(&'static str, usize)] = match focus {
        "C04" => &[("roundtrip", 14), ("doc_full", 3), ("set_decl", 1), ("set_dtds", 1), ("remove_by", 1), ("set_attr", 4), ("parse", 6)],
        "C06" => &[("names", 12)],
        "C07" => &[("new", 8), ("append", 8), ("append_all", 4), ("insert", 6), ("names", 2), ("parse", 2), ("remove_element", 2)],
        "C08" => &[("insert", 16), ("remove", 14), ("remove_element", 12), ("append", 4), ("append_all", 6), ("clear_children", 1), ("set_text", 2)],
        "C09" => &[("leaf", 12), ("insert", 14), ("append", 10), ("append_all", 10), ("set_text", 3), ("remove", 4), ("remove_element", 3), ("new", 4), ("concat", 4)],
        "C10" => &[("remove_by", 10), ("remove_elements", 8), ("remove_by_name", 8), ("remove_all", 10), ("remove_all_elements", 8), ("append_all", 8), ("parse", 4)],
        "C11" => &[("query", 45), ("mark", 25), ("append_all", 6), ("parse", 3)],
        "C12" => &[("new", 20), ("leaf", 14), ("set_content", 16), ("set_attr", 22)],
        "C13" => &[("ser", 25), ("doc_ser", 5), ("set_attr", 8), ("remove_attr", 2), ("append_all", 6), ("parse", 3)],
        "C20" => &[("cmp", 60), ("pro_cmp", 10), ("leaf", 14), ("set_content", 4), ("clone", 8), ("set_attr", 4)],
        "C15" => &[("eq", 35), ("clone", 14), ("doc_eq", 8), ("set_attr", 6), ("append_all", 5)],
        "C17" => &[("kind", 20), ("text", 25), ("append_all", 6), ("parse", 2)],
        "C18" => &[("set_attr", 30), ("remove_attr", 16), ("get_attr", 18), ("clear_attrs", 2)],
        "C01" => &[("ser", 10), ("query", 5), ("text", 4), ("remove_by", 2), ("remove_all", 2), ("clear_attrs", 1), ("eq", 3), ("doc_ser", 3), ("insert", 6), ("remove", 6), ("remove_element", 6), ("parse", 40), ("strings", 40), ("roundtrip", 8)],
        _ => &[],
    };
    for (k, n) in extra {
        match w.iter_mut().find(|x| x.0 == *k) { Some(x) => x.1 += n, None => w.push((k, *n)) }
    }
    // these sessions have their own diet
    match focus {
        "C02" | "C03" => vec![("parse", 1)],
        "C19" => vec![("locate", 1)],
        "C21" => { w.push(("why", 130)); w }
        "C05" => vec![("strings", 1)],
        "C06" => vec![("parse", 10), ("names", 14)],
        "C14" => vec![("parse", 5), ("stream", 10), ("sink", 10), ("fs", 10)],
        "C16" => vec![("parse", 20), ("doc_full", 8), ("set_decl", 6), ("set_dtds", 6), ("set_dtd", 5), ("doc_ser", 14), ("new", 8), ("decl_default", 1), ("decl_str", 4), ("dtd_str", 4), ("doc_new", 2)],
        _ => w,
    }
}

impl<'a> Session<'a> {
    pub fn new(seed: u64, focus: &str, run: &'a mut Runner) -> Self {
        let weights = base_weights(focus);
        let total = weights.iter().map(|x| x.1).sum();
        Session { r: Rng::new(seed), focus: focus.to_string(), run, weights, total }
    }
    fn w(&self) -> &World { &self.run.w }
    fn is(&self, f: &str) -> bool { self.focus == f }

    fn occupied(&self) -> Vec<usize> { (1..=SLOTS).filter(|s| self.w().node(*s).is_some()).collect() }
    fn free(&mut self) -> Option<usize> {
        let f: Vec<usize> = (2..=SLOTS).filter(|s| self.w().node(*s).is_none()).collect();
        if f.is_empty() { None } else { Some(*self.r.pick(&f)) }
    }
    fn detached(&mut self, pred: impl Fn(&dyn Node) -> bool) -> Option<usize> {
        let f: Vec<usize> = (2..=SLOTS).filter(|s| self.w().node(*s).map_or(false, |n| pred(n))).collect();
        if f.is_empty() { None } else { Some(*self.r.pick(&f)) }
    }
    /// a random node (slot, path) satisfying pred, not in the slots `not`
    fn pick_node(&mut self, not: &[usize], pred: impl Fn(&dyn Node) -> bool) -> Option<(usize, Vec<usize>)> {
        let slots: Vec<usize> = self.occupied().into_iter().filter(|s| !not.contains(s)).collect();
        let mut groups: Vec<Vec<(usize, Vec<usize>)>> = Vec::new();
        for s in slots {
            let mut v = Vec::new();
            walk(self.run.w.node(s).unwrap(), &mut Vec::new(), &mut v);
            let g: Vec<_> = v.into_iter().filter(|x| pred(x.1)).map(|x| (s, x.0)).collect();
            if !g.is_empty() { groups.push(g); }
        }
        if groups.is_empty() { return None; }
        let g = self.r.pick(&groups).clone();
        // prefer the root and large elements a little
        Some(if self.r.chance(30) { g[0].clone() } else { self.r.pick(&g).clone() })
    }
    fn pick_elem(&mut self, not: &[usize]) -> Option<(usize, Vec<usize>)> { self.pick_node(not, |n| n.is_element()) }

    fn a_name(&mut self) -> String {
        let wild = match self.focus.as_str() { "C12" => 50, "C01" => 25, "C04" | "C07" | "C10" | "C11" => 0, _ => 4 };
        if self.r.chance(wild) { wild_name(&mut self.r) } else { name(&mut self.r) }
    }
    fn a_key(&mut self) -> String {
        if self.is("C18") || self.is("C13") || self.is("C15") {
            if self.r.chance(12) { return self.r.pick(&["xmlns", "xmlns:p", "xmlns:q", "xmlns:é", "xmlns:a", "xmlnsz"]).to_string(); }
        }
        let wild = match self.focus.as_str() { "C12" => 50, "C18" => 15, "C01" => 25, _ => 2 };
        if self.r.chance(wild) { wild_name(&mut self.r) } else { key(&mut self.r) }
    }
    fn a_text(&mut self) -> String {
        match self.focus.as_str() {
            "C04" => { if self.r.chance(90) { loop { let t = text(&mut self.r); if !t.trim().is_empty() { return t; } } } else { text(&mut self.r) } }
            "C09" => match self.r.below(10) { 0..=3 => blank(&mut self.r), 4 => String::new(), 5 | 6 => plain(&mut self.r), 7 => self.r.pick(&["x", "y", " x", "x "]).to_string(), _ => text(&mut self.r) },
            "C11" | "C10" => if self.r.chance(80) { self.r.pick(&["x", "y", "hello", "ax", "ya"]).to_string() } else { text(&mut self.r) },
            _ => if self.r.chance(10) { blank(&mut self.r) } else { text(&mut self.r) },
        }
    }
    fn an_index(&mut self, n: usize) -> usize {
        match self.r.below(10) { 0 => n + 1, 1 => n + self.r.below(5), 2 => n, 3 => n.saturating_sub(1), 4 => 0, 5 if self.r.chance(10) => usize::MAX >> 33, _ => self.r.below(n.max(1)) }
    }
    fn ns_bits(&mut self) -> (Value, Value, Vec<(String, String)>) {
        let freq = match self.focus.as_str() { "C07" => 60, "C06" => 60, "C04" | "C15" => 35, _ => 18 };
        let (mut ns, mut pf, mut at) = (json!([]), json!([]), Vec::new());
        if self.r.chance(freq) {
            match self.r.below(6) {
                0 => ns = enc_opt(Some(&uri(&mut self.r))),
                1 => { ns = enc_opt(Some(&uri(&mut self.r))); let wild = self.is("C12") && self.r.chance(40); pf = enc_opt(Some(&if wild { wild_name(&mut self.r) } else { prefix(&mut self.r) })) }
                2 => { let wild = self.is("C12") && self.r.chance(60); pf = enc_opt(Some(&if wild { wild_name(&mut self.r) } else { prefix(&mut self.r) })) }
                3 => at.push(("xmlns".to_string(), uri(&mut self.r))),
                4 => { let p = prefix(&mut self.r); at.push((format!("xmlns:{p}"), uri(&mut self.r))); if self.r.chance(60) { pf = enc_opt(Some(&p)); } }
                _ => {
                    at.push(("xmlns".to_string(), uri(&mut self.r)));
                    let p = prefix(&mut self.r);
                    at.push((format!("xmlns:{p}"), uri(&mut self.r)));
                    if self.r.chance(50) { pf = enc_opt(Some(&p)); }
                }
            }
        }
        (ns, pf, at)
    }

    fn new_ev(&mut self) -> Option<Value> {
        let t = self.free()?;
        let (ns, pf, mut at) = self.ns_bits();
        let plain_ctor = ns == json!([]) && pf == json!([]);
        for _ in 0..*self.r.pick(&[0, 0, 0, 1, 2, 4]) { let k = self.a_key(); at.push((k, text(&mut self.r))); }
        let mut seen = std::collections::HashSet::new();
        at.retain(|kv| seen.insert(kv.0.clone()));
        let mut text = json!([]);
        let mut kids = json!([]);
        if self.r.chance(30) { text = json!([enc(&self.a_text())]); }
        if self.r.chance(35) {
            let mut ks = Vec::new();
            for _ in 0..self.r.below(4) { if let Some(s) = self.detached(|_| true) { if !ks.contains(&s) { ks.push(s); } } }
            kids = json!([ks]);
        }
        let has = |v: &Value| *v != json!([]);
        let ctor = if !plain_ctor || self.r.chance(40) { "new" } else {
            match (at.is_empty(), has(&text), has(&kids)) {
                (true, false, false) => "name",
                (false, false, false) => "attrs",
                (true, true, false) => "text",
                (false, true, false) => "attrs_text",
                (true, false, true) => "kids",
                (false, false, true) => "attrs_kids",
                _ => "new",
            }
        };
        let nm = self.a_name();
        let at: Vec<Value> = at.iter().map(|kv| json!([enc(&kv.0), enc(&kv.1)])).collect();
        Some(json!({"op": "new", "ctor": ctor, "name": enc(&nm), "text": text, "at": at, "ns": ns, "prefix": pf, "kids": kids, "t": t}))
    }

    fn nkids(&self, s: usize, p: &[usize], only_elems: bool) -> usize {
        let e = self.w().at(s, p).as_element().unwrap();
        if only_elems { e.child_elements().count() } else { e.children().count() }
    }

    fn parse_ev(&mut self) -> Value {
        if self.is("C16") && self.r.chance(85) {
            let (p, b) = (prologue(&mut self.r), xml(&mut self.r, &XmlCfg { elems: 3, depth: 2, ns: 3, prolog: 0, noise: 0 }));
            return json!({"op": "parse", "text": enc(&(p + &b)), "plain": enc(&b)});
        }
        let (t, noisy) = self.doc_text();
        let _ = noisy;
        json!({"op": "parse", "text": enc(&t)})
    }
    /// line breaks and wide characters, and something wrong somewhere
    fn broken(&mut self, mut t: String) -> String {
        for _ in 0..self.r.below(4) {
            let at: Vec<usize> = t.match_indices(|c| c == '<' || c == '>').map(|x| x.0 + (if x.1 == ">" { 1 } else { 0 })).collect();
            if at.is_empty() { break; }
            let i = *self.r.pick(&at);
            t.insert_str(i, *self.r.pick(&["\n", "\r\n", "\n\n  ", "<!-- é\n𝄞 -->", "\t", "<!--x-->", " "]));
        }
        let at: Vec<usize> = t.match_indices('<').map(|x| x.0).chain([t.len()]).collect();
        let i = *self.r.pick(&at);
        let bad = ["<1>", "</zz>", "<a b>", "<?x?>", "<!x>", "<é 'x'>", "<", "text", "</a", "<!--", "<![CDATA[x", "<?xml?>", "x\n é", "<b/>", "<𝄞>", "</>", "<a k=v/>", "<a\n=''/>"];
        if self.r.chance(75) { t.insert_str(i, *self.r.pick(&bad)); }
        t
    }
    fn doc_text(&mut self) -> (String, bool) {
        let f = self.focus.clone();
        let r = &mut self.r;
        match f.as_str() {
            "C01" | "C02" | "C19" | "C21" => {
                let k = r.below(10);
                if k == 0 { return (soup(r), true); }
                if k == 1 && f == "C01" { return (text(r) + &text(r), true); }
                let (e, d) = *r.pick(&[(3, 3), (8, 4), (20, 6), (40, 12)]);
                (xml(r, &XmlCfg { elems: e, depth: d, ns: 12, prolog: 45, noise: 70 }), true)
            }
            "C03" => { let (e, d) = *r.pick(&[(4, 3), (12, 4), (40, 6), (70, 20)]); (xml(r, &XmlCfg { elems: e, depth: d, ns: 12, prolog: 20, noise: 8 }), true) }
            "C06" => { let (e, d) = *r.pick(&[(5, 4), (15, 5), (40, 8)]); (xml(r, &XmlCfg { elems: e, depth: d, ns: 45, prolog: 4, noise: 1 }), true) }
            "C16" => (xml(r, &XmlCfg { elems: 3, depth: 2, ns: 3, prolog: 90, noise: 12 }), true),
            "C07" | "C11" => (xml(r, &XmlCfg { elems: 12, depth: 4, ns: 40, prolog: 4, noise: 0 }), false),
            "C14" => (xml(r, &XmlCfg { elems: 8, depth: 4, ns: 12, prolog: 40, noise: 10 }), true),
            _ => (xml(r, &XmlCfg { elems: 14, depth: 5, ns: 18, prolog: 25, noise: 3 }), false),
        }
    }

    fn strings_ev(&mut self) -> Value {
        let t = match self.r.below(6) {
            0 => { let a = text(&mut self.r); kiss_xml::escape(a) }
            1 => { let a = text(&mut self.r); kiss_xml::text_escape(a) }
            2 => (0..self.r.below(12)).map(|_| { let c = *self.r.pick(&['&', ';', '#', 'x', '4', '1', 'a', 'm', 'p', 'l', 't', 'g', 'q', 'u', 'o', 's', 'é', '☼', '𝄞', ' ', '0', 'F', 'g', '<', '>', '"', '\'']); c }).collect(),
            3 => { let n = self.r.below(0x120000) as u32; let mut s = String::new(); if self.r.chance(40) { s.push_str(&text(&mut self.r)); } s.push_str(&if self.r.chance(70) { format!("&#x{n:x};") } else { format!("&#x{n:06X};") }); if self.r.chance(40) { s.push_str(&text(&mut self.r)); } s }
            _ => text(&mut self.r),
        };
        // "&#+41;" is read as a number by the library: kept out (see DESIGN.md)
        let t = t.replace('+', "");
        let op = if self.is("C01") { *self.r.pick(&["escape", "unescape", "unescape", "text_escape", "attr_escape", "decl_from_str", "dtd_from_string", "decl_from_str", "dtd_from_string"]) }
            else { *self.r.pick(&["escape", "attr_escape", "text_escape", "unescape", "unescape", "unescape", "laws"]) };
        let t = if op.starts_with("decl") || op.starts_with("dtd") { self.edge_str(op) } else { t };
        json!({"op": op, "text": enc(&t)})
    }
    fn edge_str(&mut self, op: &str) -> String {
        let (a, z) = if op.starts_with("decl") { ("<?", "?>") } else { ("<!DOCTYPE", ">") };
        let mid = match self.r.below(5) { 0 => text(&mut self.r), 1 => String::new(), 2 => decl_text(&mut self.r), 3 => dtd_text(&mut self.r), _ => text(&mut self.r) };
        match self.r.below(8) { 0 => mid, 1 => format!("{a}{mid}"), 2 => format!("{mid}{z}"), 3 => format!(" {a}{mid}{z}\n"), 4 => format!("{a}{mid}{z}{}", text(&mut self.r)), _ => format!("{a}{mid}{z}") }
    }

    fn stream_ev(&mut self) -> Value {
        let (t, _) = self.doc_text();
        let mut b = t.into_bytes();
        if self.r.chance(25) && !b.is_empty() {
            let i = self.r.below(b.len());
            match self.r.below(4) {
                0 => b[i] = *self.r.pick(&[0x80, 0xff, 0xc0, 0xc3, 0xe2, 0xf0, 0xed, 0xf5]),
                1 => b.truncate(i),
                2 => { for x in [0xed, 0xa0, 0x80] { b.insert(i, x); } }
                _ => b.insert(i, *self.r.pick(&[0xbf, 0xc3, 0xef, 0xf8])),
            }
        }
        let n = b.len();
        let fail = if self.r.chance(30) { json!([match self.r.below(4) { 0 => n, 1 => n + 1, 2 => 0, _ => self.r.below(n + 1) }]) } else { json!([]) };
        json!({"op": "stream", "bytes": enc_bytes(&b), "chunk": *self.r.pick(&[1, 2, 3, 7, 16, 64, 100000]), "intr": *self.r.pick(&[0, 0, 2, 3, 5]), "fail": fail, "err": self.r.below(17)})
    }
    fn indent_opt(&mut self) -> Value { if self.r.chance(40) { json!([]) } else { json!([enc(&wild_indent(&mut self.r))]) } }
    fn sink_ev(&mut self) -> Option<Value> {
        let n = self.w().doc.as_ref()?.to_string().len();
        let fail = if self.r.chance(50) { json!([match self.r.below(6) { 0 => 0, 1 => n, 2 => n + 3, 3 => n - 1, _ => self.r.below(n) }]) } else { json!([]) };
        Some(json!({"op": "sink", "indent": self.indent_opt(), "cap": *self.r.pick(&[1, 2, 5, 17, 100000, 100000]), "intr": *self.r.pick(&[0, 0, 2, 3]), "fail": fail, "zero": self.r.chance(40), "err": self.r.below(17)}))
    }
    fn fs_ev(&mut self) -> Option<Value> {
        let comps = ["a", "b", "d.xml", "é x", "a", "b"];
        let p: Vec<Value> = (0..self.r.range(1, 3)).map(|_| enc(self.r.pick(&comps))).collect();
        let rel = self.r.chance(40);
        Some(match self.r.below(10) {
            0 => json!({"op": "fs_reset"}),
            1 | 2 => {
                // only creations that can succeed; the spec decides which that is
                let kind = *self.r.pick(&["dir", "file", "file", "full"]);
                let bytes = if kind == "file" { let (t, _) = self.doc_text(); let mut b = t.into_bytes(); if self.r.chance(20) { b.push(0xff); } enc_bytes(&b) } else { json!([]) };
                if !crate::io::can_make(&p, kind) { return None; }
                json!({"op": "fs_mk", "path": p, "rel": rel, "kind": kind, "bytes": bytes})
            }
            3..=6 => { self.w().doc.as_ref()?; json!({"op": "fs_write", "path": p, "rel": rel, "indent": self.indent_opt()}) }
            _ => { if crate::io::is_device(&p) { return None; } json!({"op": "fs_read", "path": p, "rel": rel}) }
        })
    }

    fn ev_for(&mut self, op: &str) -> Option<Value> {
        Some(match op {
            "new" => self.new_ev()?,
            "leaf" => {
                let t = self.free()?;
                let k = match self.r.below(8) { 0 | 1 => "c", 2 => "d", _ => "t" };
                let k = if self.is("C12") { *self.r.pick(&["c", "d", "c", "d", "t"]) } else { k };
                let s = self.content(k);
                json!({"op": "leaf", "k": k, "text": enc(&s), "t": t, "from": (k == "t" || self.is("C12") || !(s.contains("-->") || s.contains("]]>"))) && self.r.chance(30)})
            }
            "build" => {
                let t = self.free()?;
                let ns = match self.focus.as_str() { "C07" | "C06" => 45, "C15" | "C11" | "C04" => 25, _ => 10 };
                let texts = match self.focus.as_str() { "C09" => 70, "C11" => 40, _ => 50 };
                let x = crate::gen::tree(&mut self.r, ns, texts);
                json!({"op": "build", "t": t, "tree": x})
            }
            "set_content" => {
                let (s, p) = self.pick_node(&[], |n| !n.is_element())?;
                let n = self.w().at(s, &p);
                let k = if n.is_text() { "t" } else if n.is_comment() { "c" } else { "d" };
                let c = self.content(k);
                json!({"op": "set_content", "s": s, "path": p, "text": enc(&c)})
            }
            "append" | "insert" => {
                let t = self.detached(|_| true)?;
                let (s, p) = self.pick_elem(&[t])?;
                if op == "append" { json!({"op": "append", "s": s, "path": p, "t": t, "boxed": self.r.chance(50)}) }
                else { let n = self.nkids(s, &p, false); let i = self.an_index(n); json!({"op": "insert", "s": s, "path": p, "i": i, "t": t}) }
            }
            "append_all" => {
                let mut ts = Vec::new();
                for _ in 0..self.r.range(0, 4) { if let Some(t) = self.detached(|_| true) { if !ts.contains(&t) { ts.push(t); } } }
                let (s, p) = self.pick_elem(&ts)?;
                json!({"op": "append_all", "s": s, "path": p, "ts": ts})
            }
            "remove" | "remove_element" => {
                let t = self.free()?;
                let (s, p) = self.pick_elem(&[])?;
                let n = self.nkids(s, &p, op == "remove_element");
                let i = self.an_index(n);
                json!({"op": op, "s": s, "path": p, "i": i, "t": t})
            }
            "set_text" => { let (s, p) = self.pick_elem(&[])?; json!({"op": op, "s": s, "path": p, "text": enc(&self.a_text())}) }
            "clear_children" | "clear_attrs" => { let (s, p) = self.pick_elem(&[])?; json!({"op": op, "s": s, "path": p}) }
            "set_attr" => {
                let (s, p) = self.pick_elem(&[])?;
                let mut k = self.a_key();
                if self.is("C12") && self.r.chance(40) {
                    let mut keys: Vec<String> = self.w().at(s, &p).as_element().unwrap().attributes().keys().cloned().collect();
                    keys.sort();
                    if !keys.is_empty() { let o = self.r.pick(&keys).clone(); k = near(&mut self.r, &o); }
                }
                json!({"op": op, "s": s, "path": p, "key": enc(&k), "val": enc(&text(&mut self.r))}) }
            "remove_attr" | "get_attr" => {
                let (s, p) = self.pick_elem(&[])?;
                let e = self.w().at(s, &p).as_element().unwrap();
                let mut keys: Vec<String> = e.attributes().keys().cloned().collect();
                keys.sort();
                if !self.is("C18") && !self.is("C13") && op == "remove_attr" { keys.retain(|k| !k.starts_with("xmlns")); }
                let k = if !keys.is_empty() && self.r.chance(70) { let k = self.r.pick(&keys).clone(); if self.r.chance(25) && (self.is("C18") || op == "get_attr") { near(&mut self.r, &k) } else { k } } else { let k = self.a_key(); if k.starts_with("xmlns") && op == "remove_attr" && !self.is("C18") { "k".into() } else { k } };
                json!({"op": op, "s": s, "path": p, "key": enc(&k)})
            }
            "remove_by" | "remove_elements" | "remove_all" | "remove_all_elements" => { let (s, p) = self.pick_elem(&[])?; let pr = self.a_pred(); json!({"op": op, "s": s, "path": p, "pr": pr}) }
            "remove_by_name" => {
                let (s, p) = self.pick_elem(&[])?;
                let names: Vec<String> = self.w().at(s, &p).as_element().unwrap().child_elements().map(|e| e.name()).collect();
                let n = if !names.is_empty() && self.r.chance(85) { let n = self.r.pick(&names).clone(); if self.r.chance(15) { near(&mut self.r, &n) } else { n } } else { name(&mut self.r) };
                json!({"op": op, "s": s, "path": p, "name": enc(&n)})
            }
            "clone" => { let t = self.free()?; let (s, p) = self.pick_node(&[], |_| true)?; json!({"op": op, "s": s, "path": p, "t": t, "via": self.r.chance(40)}) }
            "drop" => { if self.free().is_some() && self.r.chance(70) { return None; } let o = self.detached(|_| true)?; json!({"op": op, "t": o}) }
            "parse" => self.parse_ev(),
            "why" => {
                let of = match self.r.below(16) {
                    0..=4 => { let (t, _) = self.doc_text(); let t = self.broken(t); json!({"op": "parse", "text": enc(&t)}) }
                    5 | 6 => {
                        let (ns, pf, at) = self.ns_bits();
                        let mut at = at;
                        for _ in 0..self.r.below(3) { let k = if self.r.chance(40) { wild_name(&mut self.r) } else { self.a_key() }; at.push((k, text(&mut self.r))); }
                        let n = if self.r.chance(50) { wild_name(&mut self.r) } else { name(&mut self.r) };
                        let pf = if self.r.chance(30) { enc_opt(Some(&wild_name(&mut self.r))) } else { pf };
                        let mut seen: Vec<String> = Vec::new();
                        at.retain(|(k, _)| { let new = !seen.contains(k); seen.push(k.clone()); new });
                        let at: Vec<Value> = at.iter().map(|(k, v)| json!([enc(k), enc(v)])).collect();
                        json!({"op": "new", "name": enc(&n), "text": [], "at": at, "ns": ns, "prefix": pf, "kids": []})
                    }
                    7 => { let k = *self.r.pick(&["c", "d"]); let t = self.content(k); json!({"op": "leaf", "k": k, "text": enc(&t)}) }
                    8 => { let (s, p) = self.pick_node(&[], |n| n.is_comment() || n.is_cdata())?; let k = *self.r.pick(&["c", "d"]); let t = self.content(k); json!({"op": "set_content", "s": s, "path": p, "text": enc(&t)}) }
                    9 => { let (s, p) = self.pick_elem(&[])?; let k = if self.r.chance(70) { wild_name(&mut self.r) } else { self.a_key() }; json!({"op": "set_attr", "s": s, "path": p, "key": enc(&k), "val": enc("v")}) }
                    10 | 11 => {
                        let op = *self.r.pick(&["insert", "remove", "remove_element"]);
                        let (s, p) = self.pick_elem(&[])?;
                        let n = self.nkids(s, &p, op == "remove_element");
                        let i = self.an_index(n);
                        json!({"op": op, "s": s, "path": p, "i": i})
                    }
                    12 => { let (s, p) = self.pick_node(&[], |_| true)?; let k = *self.r.pick(&["e", "t", "c", "d"]); json!({"op": "cast", "s": s, "path": p, "k": k}) }
                    13 => { let (s, p) = self.pick_elem(&[])?; json!({"op": "first", "s": s, "path": p, "name": enc(&name(&mut self.r))}) }
                    14 => if self.r.chance(50) { json!({"op": "decl_from_str", "text": enc(&self.edge_str("decl"))}) } else { json!({"op": "dtd_from_string", "text": enc(&self.edge_str("dtd"))}) },
                    15 if self.r.chance(20) => json!({"op": "no_file"}),
                    _ => {
                        let (t, _) = self.doc_text();
                        let fail = if self.r.chance(70) { json!([self.r.below(t.len() + 2)]) } else { json!([]) };
                        if self.r.chance(60) || kiss_xml::parse_str(t.as_str()).is_err() {
                            json!({"op": "stream", "text": enc(&t), "junk": self.r.chance(20), "chunk": self.r.range(1, 40), "fail": fail, "err": self.r.below(17)})
                        } else { json!({"op": "sink", "text": enc(&t), "chunk": self.r.range(1, 40), "fail": fail, "err": self.r.below(17), "zero": self.r.chance(20)}) }
                    }
                };
                json!({"op": "why", "of": of})
            }
            "locate" => {
                let (t, _) = self.doc_text();
                let t = self.broken(t);
                json!({"op": "locate", "text": enc(&t)})
            }
            "doc_new" => { let t = self.detached(|n| n.is_element())?; json!({"op": op, "t": t}) }
            "doc_full" => {
                let t = self.detached(|n| n.is_element())?;
                let (decl, dtds) = (self.a_decl(), self.some_dtds());
                json!({"op": op, "t": t, "decl": decl, "dtds": dtds, "some": self.r.chance(50)})
            }
            "set_decl" => { self.w().doc.as_ref()?; let d = self.a_decl(); json!({"op": op, "decl": d}) }
            "set_dtds" => { self.w().doc.as_ref()?; let d = self.some_dtds(); json!({"op": op, "dtds": d, "some": self.r.chance(50)}) }
            "set_dtd" => {
                let n = self.w().doc.as_ref()?.doctype_defs().count();
                if n == 0 { return None; }
                json!({"op": op, "i": self.r.below(n), "dtd": enc(&dtd_text(&mut self.r))})
            }
            "doc_ser" => { self.w().doc.as_ref()?; json!({"op": op, "indent": enc(&wild_indent(&mut self.r))}) }
            "roundtrip" => { self.w().doc.as_ref()?; json!({"op": op, "indent": enc(&indent(&mut self.r))}) }
            "ser" => { let (s, p) = self.pick_node(&[], |_| true)?; json!({"op": op, "s": s, "path": p, "indent": enc(&wild_indent(&mut self.r))}) }
            "text" | "kind" => { let (s, p) = self.pick_node(&[], |_| true)?; json!({"op": op, "s": s, "path": p}) }
            "names" => { let (s, p) = self.pick_elem(&[])?; json!({"op": op, "s": s, "path": p}) }
            "query" | "mark" => {
                let (s, p) = self.pick_elem(&[])?;
                let e = self.w().at(s, &p).as_element().unwrap();
                let mut names: Vec<String> = Vec::new();
                let (mut uris, mut pfx) = (Vec::new(), Vec::new());
                for c in e.child_elements() { names.push(c.name()); uris.push(c.namespace()); pfx.push(c.namespace_prefix()); }
                let q = query(&mut self.r, op == "mark", &names, &uris, &pfx);
                if op == "query" { json!({"op": op, "s": s, "path": p, "q": q}) }
                else { json!({"op": op, "s": s, "path": p, "q": q, "key": enc("mark"), "val": enc(&format!("{}", self.r.below(1000)))}) }
            }
            "eq" => {
                let (s, p) = self.pick_node(&[], |_| true)?;
                let (s2, p2) = self.pick_node(&[], |_| true)?;
                json!({"op": op, "s": s, "path": p, "s2": s2, "path2": p2})
            }
            "cmp" => {
                let (s, p) = self.pick_node(&[], |_| true)?;
                let k = self.w().at(s, &p).node_type();
                let (s2, p2) = if self.r.chance(90) { self.pick_node(&[], |n| n.node_type() == k)? } else { self.pick_node(&[], |_| true)? };
                json!({"op": op, "s": s, "path": p, "s2": s2, "path2": p2})
            }
            "pro_cmp" => {
                let k = if self.r.chance(50) { "decl" } else { "dtd" };
                let f = |r: &mut Rng| if k == "decl" { decl_text(r) } else { dtd_text(r) };
                let a = f(&mut self.r);
                let b = match self.r.below(4) { 0 => a.clone(), 1 => { let mut x = a.clone(); x.insert(0, ' '); x } _ => f(&mut self.r) };
                json!({"op": op, "k": k, "a": enc(&a), "b": enc(&b)})
            }
            "concat" => {
                let t = self.free()?;
                let (s, p) = self.pick_node(&[], |n| n.is_text())?;
                let (s2, p2) = self.pick_node(&[], |n| n.is_text())?;
                json!({"op": op, "s": s, "path": p, "s2": s2, "path2": p2, "t": t})
            }
            "decl_default" => json!({"op": op}),
            "doc_eq" => {
                let a = xml(&mut self.r, &XmlCfg { elems: 4, depth: 3, ns: 25, prolog: 50, noise: 0 });
                let b = match self.r.below(4) { 0 => a.clone(), 1 => xml(&mut self.r, &XmlCfg { elems: 2, depth: 2, ns: 10, prolog: 30, noise: 0 }), 2 => self.tweak_doc(&a), _ => { let x = a.clone(); mutate(&mut self.r, x) } };
                json!({"op": op, "a": enc(&a), "b": enc(&b)})
            }
            "strings" => self.strings_ev(),
            "decl_str" => json!({"op": "decl_from_str", "text": enc(&self.edge_str("decl"))}),
            "dtd_str" => json!({"op": "dtd_from_string", "text": enc(&self.edge_str("dtd"))}),
            "stream" => self.stream_ev(),
            "sink" => self.sink_ev()?,
            "fs" => self.fs_ev()?,
            x => panic!("harness: no generator for {x}"),
        })
    }
    /// a document that differs in one significant or insignificant detail
    fn tweak_doc(&mut self, a: &str) -> String {
        // the declaration given or taken away
        if self.r.chance(15) {
            if a.starts_with("<?") { return a.find("?>").map(|i| a[i + 2..].to_string()).unwrap_or_default(); }
            return self.r.pick(&["<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.0'?>", "<?xml?>"]).to_string() + a;
        }
        // one DTD more
        if self.r.chance(20) {
            let d = format!("<!DOCTYPE{}>", dtd_text(&mut self.r));
            return match a.find("<!DOCTYPE") { Some(i) => format!("{}{d}{}", &a[..i], &a[i..]), None => match a.find("?>") { Some(i) => format!("{}{d}{}", &a[..i + 2], &a[i + 2..]), None => d + a } };
        }
        if self.r.chance(20) { let p = prefix(&mut self.r); return a.replacen("<b", &format!("<{p}:b"), 1).replacen("</b", &format!("</{p}:b"), 1); }
        let (from, to) = *self.r.pick(&[("\"", "'"), ("<b", "<c"), ("</b", "</c"), ("='", "=''"), ("x", "y"), ("<!--", "<!-- "), ("/>", " />"), ("xmlns", "xmlns"), ("UTF-8", "utf-8"), ("u", "v"), ("DOCTYPE a", "DOCTYPE b")]);
        a.replacen(from, to, 1)
    }
    fn a_pred(&mut self) -> Value { pred(&mut self.r) }
    fn a_decl(&mut self) -> Value { if self.r.chance(30) { json!([]) } else { json!([enc(&decl_text(&mut self.r))]) } }
    fn some_dtds(&mut self) -> Value {
        let mut v: Vec<Value> = (0..*self.r.pick(&[0, 0, 1, 1, 2, 3, 5])).map(|_| enc(&dtd_text(&mut self.r))).collect();
        if !v.is_empty() && self.r.chance(15) { let x = v[0].clone(); v.push(x); }
        Value::Array(v)
    }
    fn content(&mut self, k: &str) -> String {
        if k == "t" { return self.a_text(); }
        let p = if self.is("C12") || self.is("C21") || self.is("C01") { 50 } else { 4 };
        if self.r.chance(p) {
            let parts = ["-", "--", "->", ">", "-->", "]", "]]", "]>", "]]>", "x", " ", "<!--", "<![CDATA[", "é", "--!>", "- ->"];
            (0..self.r.range(1, 5)).map(|_| *self.r.pick(&parts)).collect()
        } else if self.is("C04") { self.r.pick(&["", " c ", "x", "<b>&amp;", "é", "-", "a-b", "]]", "\n x\n ", ">", "->x", "x-"]).to_string() }
        else { text(&mut self.r).replace("-->", "").replace("]]>", "") }
    }

    /// one step: choose an applicable operation and execute it; false: restart
    fn step(&mut self) -> bool {
        for _ in 0..40 {
            let mut x = self.r.below(self.total);
            let mut op = "";
            for (k, n) in &self.weights { if x < *n { op = k; break; } x -= n; }
            if let Some(ev) = self.ev_for(op) {
                let fine = self.run.event(&ev);
                if !fine { return false; }
                let total: usize = (1..=SLOTS).filter_map(|s| self.w().node(s)).map(size).sum();
                return total < if self.is("C03") || self.is("C06") { 400 } else { 130 };
            }
        }
        false
    }

    pub fn drive(&mut self, events: usize) {
        let mut done = 0;
        while done < events {
            self.run.event(&json!({"op": "reset"}));
            if self.is("C14") { self.run.event(&json!({"op": "fs_reset"})); }
            // sessions start from a parsed document, a built tree or from scratch
            if self.r.chance(25) && self.weights.iter().any(|x| x.0 == "build") { if let Some(e) = self.ev_for("build") { self.run.event(&e); done += 1; } }
            if self.r.chance(50) && self.weights.iter().any(|x| x.0 == "parse") { let e = self.parse_ev(); self.run.event(&e); done += 1; }
            let len = self.r.range(10, 60);
            for _ in 0..len {
                done += 1;
                if done >= events || !self.step() { break; }
            }
        }
    }
}
