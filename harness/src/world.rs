//! Executes API events on the real library and projects its visible state.
use crate::codes::*;
use kiss_xml::dom::*;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

/// slot 1 is the document, slots 2.. are detached nodes
pub struct World {
    pub doc: Option<Document>,
    pub pool: Vec<Option<Box<dyn Node>>>,
}

pub fn ok() -> Value { json!({"ok": true}) }
pub fn okv(v: Value) -> Value { json!({"ok": true, "v": v}) }
pub fn err() -> Value { json!({"ok": false}) }

/// the visible state of a node
pub fn tree(n: &dyn Node) -> Value {
    if let Ok(e) = n.as_element() {
        elem_tree(e)
    } else if let Ok(t) = n.as_text() {
        json!({"k": "t", "s": enc(&t.content)})
    } else if let Ok(c) = n.as_comment() {
        json!({"k": "c", "s": enc(c.get_content())})
    } else {
        json!({"k": "d", "s": enc(n.as_cdata().expect("a node of no kind").get_content())})
    }
}
pub fn attrs(m: &HashMap<String, String>) -> Value {
    let mut kv: Vec<(&String, &String)> = m.iter().collect();
    kv.sort();
    Value::Array(kv.into_iter().map(|(k, v)| json!([enc(k), enc(v)])).collect())
}
pub fn elem_tree(e: &Element) -> Value {
    json!({
        "k": "e", "n": enc(&e.name()), "p": enc_opt(e.namespace_prefix().as_deref()),
        "ns": enc_opt(e.namespace().as_deref()), "at": attrs(e.attributes()),
        "ch": e.children().map(|c| tree(c.as_ref())).collect::<Vec<_>>()
    })
}
pub fn decl_inner(d: &Declaration) -> String {
    let s = d.to_string();
    // shown as <?...?>; anything else is passed on as it is (and will not match)
    match s.strip_prefix("<?").and_then(|x| x.strip_suffix("?>")) {
        Some(i) => i.to_string(),
        None => format!("not a declaration: {s}"),
    }
}
pub fn dtd_inner(d: &DTD) -> String {
    let s = d.to_string();
    match s.strip_prefix("<!DOCTYPE").and_then(|x| x.strip_suffix(">")) {
        Some(i) => i.to_string(),
        None => format!("not a DTD: {s}"),
    }
}
pub fn doc_prolog(d: &Document) -> (Value, Value) {
    (
        enc_opt(d.declaration().as_ref().map(decl_inner).as_deref()),
        Value::Array(d.doctype_defs().map(|x| enc(&dtd_inner(x))).collect()),
    )
}
pub fn doc_tree(d: &Document) -> Value {
    let (decl, dtds) = doc_prolog(d);
    json!({"decl": decl, "dtds": dtds, "root": elem_tree(d.root_element())})
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn node_hash(n: &dyn Node) -> u64 {
    if let Ok(e) = n.as_element() { hash_of(e) }
    else if let Ok(e) = n.as_text() { hash_of(e) }
    else if let Ok(e) = n.as_comment() { hash_of(e) }
    else { hash_of(n.as_cdata().unwrap()) }
}

fn addr(n: &dyn Node) -> usize { n as *const dyn Node as *const u8 as usize }
fn eaddr(e: &Element) -> usize { e as *const Element as *const u8 as usize }

fn collect_paths(e: &Element, prefix: &mut Vec<usize>, out: &mut HashMap<usize, Vec<usize>>) {
    for (i, c) in e.children().enumerate() {
        prefix.push(i + 1);
        out.insert(addr(c.as_ref()), prefix.clone());
        if let Ok(x) = c.as_element() { collect_paths(x, prefix, out); }
        prefix.pop();
    }
}

/// predicates, evaluated with the library's own accessors
pub fn sat(pr: &Value, n: &dyn Node) -> bool {
    let e = n.as_element().ok();
    match pr["p"].as_str().unwrap() {
        "all" => true,
        "none" => false,
        "kind" => match pr["k"].as_str().unwrap() {
            "e" => n.is_element(), "t" => n.is_text(), "c" => n.is_comment(), _ => n.is_cdata(),
        },
        "name" => e.map_or(false, |e| e.name() == dec(&pr["s"])),
        "attr" => e.map_or(false, |e| e.get_attr(dec(&pr["s"])).is_some()),
        "ns" => e.map_or(false, |e| e.namespace() == dec_opt(&pr["o"])),
        "prefix" => e.map_or(false, |e| e.namespace_prefix() == dec_opt(&pr["o"])),
        "leafy" => e.map_or(false, |e| e.children().count() == 0),
        "text" => n.text() == dec(&pr["s"]),
        "contains" => n.text().contains(&dec(&pr["s"])),
        p => panic!("harness: predicate {p}"),
    }
}

/// no '<' or '>', (no quotes,) and every '&' begins a reference
fn clean(s: &str, quotes: bool) -> bool {
    for (i, c) in s.char_indices() {
        if c == '<' || c == '>' || (quotes && (c == '"' || c == '\'')) { return false; }
        if c == '&' {
            let body = match s[i..].find(';') { None => return false, Some(z) => &s[i + 1..i + z] };
            let named = ["amp", "lt", "gt", "apos", "quot"].contains(&body);
            let hex = body.strip_prefix("#x").map_or(false, |h| !h.is_empty() && h.chars().all(|c| c.is_ascii_hexdigit()));
            if !named && !hex { return false; }
        }
    }
    true
}

/// builds a subtree bottom-up through the constructors
fn build(x: &Value) -> Box<dyn Node> {
    match x["k"].as_str().expect("harness: kind") {
        "t" => Text::new(dec(&x["s"])).boxed(),
        "c" => Comment::new(dec(&x["s"])).expect("a comment was refused").boxed(),
        "d" => CData::new(dec(&x["s"])).expect("a CDATA section was refused").boxed(),
        _ => {
            let at: HashMap<String, String> = x["at"].as_array().unwrap().iter().map(|kv| (dec(&kv[0]), dec(&kv[1]))).collect();
            let kids: Vec<Box<dyn Node>> = x["ch"].as_array().unwrap().iter().map(build).collect();
            Element::new(dec(&x["n"]), None::<String>, Some(at), dec_opt(&x["ns"]), dec_opt(&x["p"]), Some(kids)).expect("an element was refused").boxed()
        }
    }
}

fn mk_decl(v: &Value) -> Option<Declaration> {
    dec_opt(v).map(|s| Declaration::from_str(&format!("<?{s}?>")).expect("a declaration was refused"))
}
fn mk_dtd(v: &Value) -> DTD {
    DTD::from_string(format!("<!DOCTYPE{}>", dec(v))).expect("a DTD was refused")
}
fn mk_dtds(v: &Value) -> Vec<DTD> { v.as_array().unwrap().iter().map(mk_dtd).collect() }

pub fn wrap(n: &dyn Node) -> Box<dyn Node> {
    if let Ok(e) = n.as_element() { Box::new(e.clone()) }
    else if let Ok(e) = n.as_text() { Box::new(e.clone()) }
    else if let Ok(e) = n.as_comment() { Box::new(e.clone()) }
    else { Box::new(n.as_cdata().unwrap().clone()) }
}
/// the order of two values, by all operators, both ways round
fn order<T: PartialOrd>(a: &T, b: &T) -> &'static str {
    use std::cmp::Ordering::*;
    let r = a.partial_cmp(b);
    assert!(b.partial_cmp(a) == r.map(|o| o.reverse()), "order is not antisymmetric");
    assert!((a < b) == (r == Some(Less)) && (a > b) == (r == Some(Greater)) && (a <= b) == matches!(r, Some(Less | Equal)) && (a >= b) == matches!(r, Some(Greater | Equal)), "operators disagree with partial_cmp");
    assert!((a == b) == (r == Some(Equal)), "order and equality disagree");
    match r { Some(Less) => "lt", Some(Equal) => "eq", Some(Greater) => "gt", None => "none" }
}
/// the last "line N, column M" of a message; the text quoted before it may hold others
fn position(msg: &str) -> Value {
    let mut at = json!([]);
    for (i, _) in msg.match_indices("line ") {
        let rest = &msg[i + 5..];
        let n: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        let Some(rest) = rest[n.len()..].strip_prefix(", column ") else { continue };
        let m: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        if let (Ok(l), Ok(c)) = (n.parse::<i64>(), m.parse::<i64>()) { at = json!([[l, c]]); }
    }
    at
}

impl World {
    pub fn new(slots: usize) -> Self {
        World { doc: None, pool: (2..=slots).map(|_| None).collect() }
    }
    pub fn slots(&self) -> usize { self.pool.len() + 1 }
    pub fn reset(&mut self) {
        self.doc = None;
        for p in self.pool.iter_mut() { *p = None; }
    }
    pub fn node(&self, s: usize) -> Option<&dyn Node> {
        if s == 1 { self.doc.as_ref().map(|d| d.root_element() as &dyn Node) }
        else { self.pool[s - 2].as_deref() }
    }
    fn node_mut(&mut self, s: usize) -> Option<&mut dyn Node> {
        if s == 1 {
            self.doc.as_mut().map(|d| d.root_element_mut() as &mut dyn Node)
        } else {
            match &mut self.pool[s - 2] { None => None, Some(b) => Some(b.as_mut()) }
        }
    }
    pub fn at(&self, s: usize, p: &[usize]) -> &dyn Node {
        // generated events may address what an earlier difference took away
        let mut n = self.node(s).expect("stale: empty slot");
        for i in p {
            n = n.as_element().expect("stale: path through a leaf").children().nth(i - 1)
                .expect("stale: path out of range").as_ref();
        }
        n
    }
    pub fn at_mut(&mut self, s: usize, p: &[usize]) -> &mut dyn Node {
        let _ = self.at(s, p);
        let mut n = self.node_mut(s).expect("no mutable root");
        for i in p {
            n = n.as_element_mut().expect("as_element_mut differs from as_element").children_mut().nth(i - 1)
                .expect("children_mut differs from children").as_mut();
        }
        n
    }
    pub fn elem(&self, ev: &Value) -> &Element {
        self.at(uint(ev, "s"), &path(ev, "path")).as_element().expect("stale: element expected")
    }
    pub fn elem_mut(&mut self, ev: &Value) -> &mut Element {
        self.at_mut(uint(ev, "s"), &path(ev, "path")).as_element_mut().expect("stale: element expected")
    }
    fn take(&mut self, t: usize) -> Box<dyn Node> {
        assert!(t >= 2, "harness: cannot take the document root");
        self.pool[t - 2].take().expect("stale: empty slot taken")
    }
    fn put(&mut self, t: usize, n: Box<dyn Node>) { self.pool[t - 2] = Some(n); }
    fn take_elem(&mut self, t: usize) -> Element {
        let n = self.take(t);
        n.as_element().expect("stale: element expected").clone()
    }

    /// visible state of a slot as an option
    pub fn slot_state(&self, s: usize) -> Value {
        match self.node(s) { None => json!([]), Some(n) => json!([tree(n)]) }
    }
    /// the state of the slots an event touches
    pub fn post(&self, ev: &Value) -> Value {
        let mut slots: Vec<usize> = Vec::new();
        for k in ["s", "t", "s2"] {
            if let Some(x) = ev[k].as_u64() { slots.push(x as usize); }
        }
        if let Some(a) = ev["ts"].as_array() { slots.extend(a.iter().map(|x| x.as_u64().unwrap() as usize)); }
        if let Some(a) = ev["kids"].as_array() {
            if let Some(a) = a.first() { slots.extend(a.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize)); }
        }
        let op = ev["op"].as_str().unwrap();
        if ["parse", "doc_new", "doc_full", "set_decl", "set_dtds", "set_dtd"].contains(&op) { slots.push(1); }
        slots.sort();
        slots.dedup();
        Value::Array(slots.into_iter().map(|s| json!([s, self.slot_state(s)])).collect())
    }
    pub fn prolog(&self) -> Value {
        match &self.doc {
            None => json!({"decl": [], "dtds": []}),
            Some(d) => { let (a, b) = doc_prolog(d); json!({"decl": a, "dtds": b}) }
        }
    }

    pub fn new_elem(&mut self, ev: &Value) -> Value {
        let name = dec(&ev["name"]);
        let text = dec_opt(&ev["text"]);
        let ns = dec_opt(&ev["ns"]);
        let prefix = dec_opt(&ev["prefix"]);
        let at: HashMap<String, String> = ev["at"].as_array().unwrap().iter()
            .map(|kv| (dec(&kv[0]), dec(&kv[1]))).collect();
        let kids: Option<Vec<Box<dyn Node>>> = ev["kids"].as_array().unwrap().first().map(|a| {
            a.as_array().unwrap().iter().map(|x| self.take(x.as_u64().unwrap() as usize)).collect()
        });
        // use the narrowest constructor that can express the request
        let ctor = ev["ctor"].as_str().unwrap_or("new");
        let r = match ctor {
            "name" => Element::new_from_name(&name),
            "attrs" => Element::new_with_attributes(&name, at),
            "text" => Element::new_with_text(&name, text.unwrap()),
            "attrs_text" => Element::new_with_attributes_and_text(&name, at, text.unwrap()),
            "attrs_kids" => Element::new_with_attributes_and_children(&name, at, kids.unwrap()),
            "kids" => Element::new_with_children(&name, kids.unwrap()),
            _ => Element::new(name, text, if at.is_empty() { None } else { Some(at) }, ns, prefix, kids),
        };
        match r {
            Err(_) => err(),
            Ok(e) => { self.put(uint(ev, "t"), e.boxed()); ok() }
        }
    }

    fn query(e: &mut Element, q: &Value, mark: Option<(String, String)>) -> Value {
        let mut paths = HashMap::new();
        collect_paths(e, &mut Vec::new(), &mut paths);
        let pr = q["pr"].clone();
        let name = || dec(&q["s"]);
        let opt = if q["o"].is_array() { dec_opt(&q["o"]) } else { None };
        let o = opt.as_deref();
        let hits: std::cell::RefCell<Vec<usize>> = Default::default();
        let done = || Self::to_paths(&hits.borrow(), &paths);
        // the mutable variants, optionally editing every element they yield
        {
            let visit = |x: &mut Element| {
                hits.borrow_mut().push(eaddr(x));
                if let Some((k, v)) = &mark { x.set_attr(k.clone(), v.clone()).expect("an attribute was refused"); }
            };
            match q["q"].as_str().unwrap() {
                "children_mut" => {
                    for n in e.children_mut() {
                        if n.is_element() { visit(n.as_element_mut().unwrap()) } else { hits.borrow_mut().push(addr(n.as_ref())) }
                    }
                    return done();
                }
                "child_elements_mut" => { e.child_elements_mut().for_each(visit); return done(); }
                "by_name_mut" => { e.elements_by_name_mut(name()).for_each(visit); return done(); }
                "first_mut" => { if let Ok(x) = e.first_element_by_name_mut(name()) { visit(x); } return done(); }
                "by_ns_mut" => { e.elements_by_namespace_mut(o).for_each(visit); return done(); }
                "by_prefix_mut" => { e.elements_by_namespace_prefix_mut(o).for_each(visit); return done(); }
                _ => {}
            }
        }
        let e: &Element = e;
        let na = |n: &Box<dyn Node>| addr(n.as_ref());
        let hits: Vec<usize> = match q["q"].as_str().unwrap() {
            "children" => e.children().map(na).collect(),
            "child_elements" => e.child_elements().map(eaddr).collect(),
            "by_name" => e.elements_by_name(name()).map(eaddr).collect(),
            "first" => e.first_element_by_name(name()).ok().map(eaddr).into_iter().collect(),
            "by_ns" => e.elements_by_namespace(o).map(eaddr).collect(),
            "by_prefix" => e.elements_by_namespace_prefix(o).map(eaddr).collect(),
            "all_children" => e.all_children().map(na).collect(),
            "children_recursive" => e.children_recursive().map(na).collect(),
            "search" => e.search(move |n| sat(&pr, n.as_ref())).map(na).collect(),
            "search_elements" => e.search_elements(move |x| sat(&pr, *x)).map(eaddr).collect(),
            "search_by_name" => e.search_elements_by_name(name()).map(eaddr).collect(),
            "search_text" => e.search_text(move |x| sat(&pr, *x)).map(|x| addr(x)).collect(),
            "search_comments" => e.search_comments(move |x| sat(&pr, *x)).map(|x| addr(x)).collect(),
            x => panic!("harness: query {x}"),
        };
        Self::to_paths(&hits, &paths)
    }
    fn to_paths(hits: &[usize], paths: &HashMap<usize, Vec<usize>>) -> Value {
        // a node that is not in the tree shows up as the impossible path [0]
        Value::Array(hits.iter().map(|h| json!(paths.get(h).cloned().unwrap_or(vec![0]))).collect())
    }

    fn kind_report(&mut self, s: usize, p: &[usize]) -> Value {
        let n = self.at(s, p);
        let kind = match n.node_type() {
            DomNodeType::ElementNode => "e", DomNodeType::TextNode => "t",
            DomNodeType::CommentNode => "c", DomNodeType::CDataNode => "d",
        };
        let here = addr(n);
        let is = json!([n.is_element(), n.is_text(), n.is_comment(), n.is_cdata()]);
        let as_ = json!([
            n.as_element().map_or(false, |x| addr(x) == here), n.as_text().map_or(false, |x| addr(x) == here),
            n.as_comment().map_or(false, |x| addr(x) == here), n.as_cdata().map_or(false, |x| addr(x) == here)]);
        let a = n.as_any();
        let any = json!([a.is::<Element>(), a.is::<Text>(), a.is::<Comment>(), a.is::<CData>()]);
        assert!(addr(n.as_node()) == here, "as_node is another node");
        let m = self.at_mut(s, p);
        let asm = json!([
            m.as_element_mut().map_or(false, |x| addr(x) == here), m.as_text_mut().map_or(false, |x| addr(x) == here),
            m.as_comment_mut().map_or(false, |x| addr(x) == here), m.as_cdata_mut().map_or(false, |x| addr(x) == here)]);
        assert!(addr(m.as_node_mut()) == here, "as_node_mut is another node");
        let am = m.as_any_mut();
        let any2 = json!([am.is::<Element>(), am.is::<Text>(), am.is::<Comment>(), am.is::<CData>()]);
        assert!(any == any2, "as_any and as_any_mut disagree");
        let by_box = DomNodeType::from(wrap(self.at(s, p)));
        assert!(by_box == self.at(s, p).node_type(), "the type of the boxed node differs");
        json!({"name": enc(&by_box.to_string()), "k": kind, "is": is, "as": as_, "asm": asm, "any": any})
    }

    pub fn exec(&mut self, ev: &Value) -> Value {
        let op = ev["op"].as_str().unwrap_or_else(|| panic!("harness: no op in {ev}"));
        match op {
            "reset" => { self.reset(); ok() }
            "new" => self.new_elem(ev),
            "build" => { let n = build(&ev["tree"]); self.put(uint(ev, "t"), n); ok() }
            "leaf" => {
                let s = dec(&ev["text"]);
                let via_from = ev["from"].as_bool().unwrap_or(false);
                let n: Option<Box<dyn Node>> = match ev["k"].as_str().unwrap() {
                    "t" => Some(if via_from { Text::from(s.as_str()).boxed() } else { Text::new(s).boxed() }),
                    // the conversions cannot return an error: they refuse by panicking
                    "c" if via_from => std::panic::catch_unwind(|| if s.len() % 2 == 0 { Comment::from(s.as_str()) } else { Comment::from(s) }).ok().map(|x| x.boxed()),
                    "d" if via_from => std::panic::catch_unwind(|| if s.len() % 2 == 0 { CData::from(s.as_str()) } else { CData::from(s) }).ok().map(|x| x.boxed()),
                    "c" => Comment::new(s).ok().map(|x| x.boxed()),
                    _ => CData::new(s).ok().map(|x| x.boxed()),
                };
                match n { None => err(), Some(n) => { self.put(uint(ev, "t"), n); ok() } }
            }
            "set_content" => {
                let s = dec(&ev["text"]);
                let n = self.at_mut(uint(ev, "s"), &path(ev, "path"));
                if n.is_text() { n.as_text_mut().unwrap().content = s; ok() }
                else if n.is_comment() { if n.as_comment_mut().unwrap().set_content(s).is_ok() { ok() } else { err() } }
                else { if n.as_cdata_mut().unwrap().set_text(s).is_ok() { ok() } else { err() } }
            }
            "clone" => {
                let n = self.at(uint(ev, "s"), &path(ev, "path"));
                let c = wrap(n);
                let c = if ev["via"].as_bool().unwrap_or(false) { clone_node(&c) } else { c };
                self.put(uint(ev, "t"), c);
                ok()
            }
            "drop" => { let t = uint(ev, "t"); if t == 1 { self.doc = None } else { self.pool[t - 2] = None }; ok() }
            // edits
            "append" => {
                let n = self.take(uint(ev, "t"));
                let boxed = ev["boxed"].as_bool().unwrap_or(false);
                let e = self.elem_mut(ev);
                if boxed { e.append_boxed(n) }
                else if let Ok(x) = n.as_element() { e.append(x.clone()) }
                else if let Ok(x) = n.as_text() { e.append(x.clone()) }
                else if let Ok(x) = n.as_comment() { e.append(x.clone()) }
                else { e.append(n.as_cdata().unwrap().clone()) }
                ok()
            }
            "append_all" => {
                let ts = path(ev, "ts");
                let ns: Vec<Box<dyn Node>> = ts.iter().map(|t| self.take(*t)).collect();
                self.elem_mut(ev).append_all(ns);
                ok()
            }
            "insert" => {
                let n = self.take(uint(ev, "t"));
                let i = uint(ev, "i");
                let e = self.elem_mut(ev);
                let r = if let Ok(x) = n.as_element() { e.insert(i, x.clone()) }
                else if let Ok(x) = n.as_text() { e.insert(i, x.clone()) }
                else if let Ok(x) = n.as_comment() { e.insert(i, x.clone()) }
                else { e.insert(i, n.as_cdata().unwrap().clone()) };
                if r.is_ok() { ok() } else { err() }
            }
            "remove" => {
                let (i, t) = (uint(ev, "i"), uint(ev, "t"));
                match self.elem_mut(ev).remove(i) { Ok(n) => { self.put(t, n); ok() } Err(_) => err() }
            }
            "remove_element" => {
                let (i, t) = (uint(ev, "i"), uint(ev, "t"));
                match self.elem_mut(ev).remove_element(i) { Ok(n) => { self.put(t, n.boxed()); ok() } Err(_) => err() }
            }
            "remove_by" => { let pr = ev["pr"].clone(); okv(json!(self.elem_mut(ev).remove_by(&|n: &Box<dyn Node>| sat(&pr, n.as_ref())))) }
            "remove_all" => { let pr = ev["pr"].clone(); okv(json!(self.elem_mut(ev).remove_all(&|n: &Box<dyn Node>| sat(&pr, n.as_ref())))) }
            "remove_elements" => { let pr = ev["pr"].clone(); okv(json!(self.elem_mut(ev).remove_elements(|e| sat(&pr, e)))) }
            "remove_all_elements" => { let pr = ev["pr"].clone(); okv(json!(self.elem_mut(ev).remove_all_elements(|e| sat(&pr, e)))) }
            "remove_by_name" => { let n = dec(&ev["name"]); okv(json!(self.elem_mut(ev).remove_elements_by_name(n))) }
            "set_text" => { let s = dec(&ev["text"]); self.elem_mut(ev).set_text(s); ok() }
            "clear_children" => { self.elem_mut(ev).clear_children(); ok() }
            "set_attr" => {
                let (k, v) = (dec(&ev["key"]), dec(&ev["val"]));
                if self.elem_mut(ev).set_attr(k, v).is_ok() { ok() } else { err() }
            }
            "remove_attr" => { let k = dec(&ev["key"]); okv(enc_opt(self.elem_mut(ev).remove_attr(k).as_deref())) }
            "clear_attrs" => { self.elem_mut(ev).clear_attributes(); ok() }
            // the document
            "doc_new" => { let e = self.take_elem(uint(ev, "t")); self.doc = Some(Document::new(e)); ok() }
            "doc_full" => {
                let e = self.take_elem(uint(ev, "t"));
                let dtds = mk_dtds(&ev["dtds"]);
                let d = if dtds.is_empty() && ev["some"] != json!(true) { None } else { Some(dtds.as_slice()) };
                self.doc = Some(Document::new_with_decl_dtd(e, mk_decl(&ev["decl"]), d));
                ok()
            }
            "set_decl" => { let d = mk_decl(&ev["decl"]); self.doc.as_mut().unwrap().set_declaration(d); ok() }
            "set_dtds" => {
                let dtds = mk_dtds(&ev["dtds"]);
                let d = if dtds.is_empty() && ev["some"] != json!(true) { None } else { Some(dtds.as_slice()) };
                self.doc.as_mut().unwrap().set_doctype_defs(d);
                ok()
            }
            "set_dtd" => {
                let i = uint(ev, "i");
                *self.doc.as_mut().unwrap().doctype_defs_mut().nth(i).expect("doctype_defs_mut yields too few") = mk_dtd(&ev["dtd"]);
                ok()
            }
            "parse" => {
                let mut res = match kiss_xml::parse_str(dec(&ev["text"])) {
                    Ok(d) => { self.doc = Some(d); ok() }
                    Err(_) => err(),
                };
                // the same document without what the property is about
                if ev.get("plain").is_some() { res["plain"] = json!(kiss_xml::parse_str(dec(&ev["plain"])).is_ok()); }
                res
            }
            // where a refused text is said to be wrong
            "locate" => match kiss_xml::parse_str(dec(&ev["text"])) {
                Ok(_) => json!({"ok": true, "at": []}),
                Err(e) => json!({"ok": false, "at": position(&e.to_string())}),
            },
            // what kind of error a call returns; nothing is changed by it
            "why" => crate::why::exec(self, &ev["of"]),
            // reading
            "query" => { let q = ev["q"].clone(); okv(Self::query(self.elem_mut(ev), &q, None)) }
            "mark" => {
                let q = ev["q"].clone();
                let m = (dec(&ev["key"]), dec(&ev["val"]));
                okv(Self::query(self.elem_mut(ev), &q, Some(m)))
            }
            "kind" => { let (s, p) = (uint(ev, "s"), path(ev, "path")); okv(self.kind_report(s, &p)) }
            "names" => {
                let e = self.elem(ev);
                okv(json!({
                    "name": enc(&e.name()), "prefix": enc_opt(e.namespace_prefix().as_deref()),
                    "ns": enc_opt(e.namespace().as_deref()), "dns": enc_opt(e.default_namespace().as_deref()),
                    "tag": enc(&e.tag_name()),
                    "prefixes": e.namespace_prefixes().map_or(json!([]), |m| attrs(&m))
                }))
            }
            "text" => okv(enc(&self.at(uint(ev, "s"), &path(ev, "path")).text())),
            "get_attr" => { let k = dec(&ev["key"]); okv(enc_opt(self.elem(ev).get_attr(k).map(|s| s.as_str()))) }
            "ser" => {
                let ind = dec(&ev["indent"]);
                let n = self.at(uint(ev, "s"), &path(ev, "path"));
                let out = n.to_string_with_indent(&ind);
                if ind == "  " {
                    // Display and Debug are the two-space serialisation
                    assert!(format!("{n}") == out && format!("{n:?}") == out && n.to_string() == out, "Display differs from to_string_with_indent");
                }
                okv(enc(&out))
            }
            "doc_ser" => {
                let ind = dec(&ev["indent"]);
                let d = self.doc.as_ref().unwrap();
                let out = d.to_string_with_indent(ind.clone());
                if ind == "  " {
                    assert!(format!("{d}") == out && format!("{d:?}") == out && d.to_string() == out, "Display differs from to_string_with_indent");
                }
                okv(enc(&out))
            }
            "eq" => {
                let a = self.at(uint(ev, "s"), &path(ev, "path"));
                let b = self.at(uint(ev, "s2"), &path(ev, "path2"));
                let eq = |a: &dyn Node, b: &dyn Node| -> bool {
                    let boxed = node_eq(&wrap(a), &wrap(b));
                    let plain = if let (Ok(x), Ok(y)) = (a.as_element(), b.as_element()) { x == y }
                    else if let (Ok(x), Ok(y)) = (a.as_text(), b.as_text()) { x == y }
                    else if let (Ok(x), Ok(y)) = (a.as_comment(), b.as_comment()) { x == y }
                    else if let (Ok(x), Ok(y)) = (a.as_cdata(), b.as_cdata()) { x == y }
                    else { boxed };
                    assert!(plain == boxed, "node_eq and == disagree");
                    plain
                };
                let r = eq(a, b);
                assert!(eq(b, a) == r, "equality is not symmetric");
                assert!(eq(a, a) && eq(b, b), "equality is not reflexive");
                if r { assert!(node_hash(a) == node_hash(b), "equal nodes hash differently"); }
                okv(json!(r))
            }
            "doc_eq" => {
                let (a, b) = (kiss_xml::parse_str(dec(&ev["a"])), kiss_xml::parse_str(dec(&ev["b"])));
                match (a, b) {
                    (Ok(a), Ok(b)) => {
                        let r = a == b;
                        assert!((b == a) == r && a == a && b == b, "document equality is not symmetric/reflexive");
                        okv(json!(r))
                    }
                    _ => err(),
                }
            }
            "roundtrip" => {
                let ind = dec(&ev["indent"]);
                let d = self.doc.as_ref().unwrap();
                let s = d.to_string_with_indent(ind.clone());
                match kiss_xml::parse_str(s.clone()) {
                    Err(_) => json!({"ok": true, "v": {"read": false, "eq": false, "vis": false, "same": false}}),
                    Ok(d2) => json!({"ok": true, "v": {
                        "read": true, "eq": *d == d2, "vis": doc_tree(d) == doc_tree(&d2),
                        "same": d2.to_string_with_indent(ind) == s }}),
                }
            }
            "cmp" => {
                let a = self.at(uint(ev, "s"), &path(ev, "path"));
                let b = self.at(uint(ev, "s2"), &path(ev, "path2"));
                okv(json!(if let (Ok(x), Ok(y)) = (a.as_element(), b.as_element()) { order(x, y) }
                    else if let (Ok(x), Ok(y)) = (a.as_text(), b.as_text()) { order(x, y) }
                    else if let (Ok(x), Ok(y)) = (a.as_comment(), b.as_comment()) { order(x, y) }
                    else if let (Ok(x), Ok(y)) = (a.as_cdata(), b.as_cdata()) { order(x, y) }
                    else { "kinds" }))
            }
            "pro_cmp" => {
                let (a, b) = (dec(&ev["a"]), dec(&ev["b"]));
                okv(json!(if ev["k"] == "decl" {
                    let (x, y) = (mk_decl(&json!([ev["a"]])).unwrap(), mk_decl(&json!([ev["b"]])).unwrap());
                    assert!((x == y) == (a == b), "equality of declarations");
                    assert!(Some(x.cmp(&y)) == x.partial_cmp(&y), "cmp and partial_cmp disagree");
                    order(&x, &y)
                } else {
                    let (x, y) = (mk_dtd(&ev["a"]), mk_dtd(&ev["b"]));
                    assert!((x == y) == (a == b), "equality of DTDs");
                    assert!(Some(x.cmp(&y)) == x.partial_cmp(&y), "cmp and partial_cmp disagree");
                    order(&x, &y)
                }))
            }
            "concat" => {
                let a = self.at(uint(ev, "s"), &path(ev, "path")).as_text().expect("harness: concat").clone();
                let b = self.at(uint(ev, "s2"), &path(ev, "path2")).as_text().expect("harness: concat").clone();
                let c = a.concat(&b);
                self.put(uint(ev, "t"), c.boxed());
                ok()
            }
            "decl_default" => {
                let (a, b) = (Declaration::new(), Declaration::default());
                assert!(a == b, "new() and default() differ");
                okv(enc(&a.to_string()))
            }
            // functions on strings
            "escape" => okv(enc(&kiss_xml::escape(dec(&ev["text"])))),
            "attr_escape" => okv(enc(&kiss_xml::attribute_escape(dec(&ev["text"])))),
            "text_escape" => okv(enc(&kiss_xml::text_escape(dec(&ev["text"])))),
            "unescape" => okv(enc(&kiss_xml::unescape(dec(&ev["text"])))),
            "laws" => {
                let t = dec(&ev["text"]);
                okv(json!({"f": enc(&kiss_xml::unescape(kiss_xml::escape(t.as_str()))),
                    "a": enc(&kiss_xml::unescape(kiss_xml::attribute_escape(t.as_str()))),
                    "t": enc(&kiss_xml::unescape(kiss_xml::text_escape(t.as_str()))),
                    "clean": [clean(&kiss_xml::escape(t.as_str()), true), clean(&kiss_xml::attribute_escape(t.as_str()), true), clean(&kiss_xml::text_escape(t.as_str()), false)]}))
            }
            "decl_from_str" => match Declaration::from_str(&dec(&ev["text"])) {
                Ok(d) => okv(enc(&d.to_string())), Err(_) => err() },
            "dtd_from_string" => match DTD::from_string(dec(&ev["text"])) {
                Ok(d) => okv(enc(&d.to_string())), Err(_) => err() },
            "stream" | "sink" | "fs_reset" | "fs_mk" | "fs_write" | "fs_read" => crate::io::exec(self, ev),
            x => panic!("harness: unknown op {x}"),
        }
    }
}
