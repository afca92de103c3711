//! Steps the real library through behaviours generated from the specification
//! and compares what it does with what the specification says.
use crate::run::Runner;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn strip(v: &Value, keys: &[&str]) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(k, _)| !keys.contains(&k.as_str())).map(|(k, x)| (k.clone(), strip(x, keys))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(|x| strip(x, keys)).collect()),
        x => x.clone(),
    }
}
/// what a tree says about namespaces: nested elements with name, prefix, ns
fn ns_view(v: &Value) -> Value {
    match v {
        Value::Object(m) if m.get("k") == Some(&json!("e")) => json!({"n": m["n"], "p": m["p"], "ns": m["ns"],
            "ch": m["ch"].as_array().unwrap().iter().filter(|c| c["k"] == "e").map(ns_view).collect::<Vec<_>>()}),
        Value::Array(a) => Value::Array(a.iter().map(ns_view).collect()),
        x => x.clone(),
    }
}
const UNORDERED: &[&str] = &["all_children", "children_recursive", "search", "search_elements", "search_by_name", "search_text", "search_comments"];
fn sorted(v: &Value) -> Value {
    let mut a: Vec<String> = v.as_array().map_or(vec![], |a| a.iter().map(|x| x.to_string()).collect());
    a.sort();
    json!(a)
}
fn same_res(ev: &Value, got: &Value, want: &Value) -> bool {
    if got == want { return true; }
    if ev["op"] == "query" && UNORDERED.contains(&ev["q"]["q"].as_str().unwrap_or("")) {
        return got["ok"] == want["ok"] && sorted(&got["v"]) == sorted(&want["v"]);
    }
    false
}

/// accepted or refused differently, and not for a reason found elsewhere: the
/// same document without what the property is about is treated as specified
fn refused(res: &Value, wres: &Value) -> bool {
    res["ok"] != wres["ok"] && wres.get("plain").is_some() && res.get("plain") == wres.get("plain")
}
fn differs(cmp: &str, ev: &Value, want: &Value, res: &Value, post: &Value, doc: &Value) -> bool {
    let wres = &want["res"];
    let clean = res.get("panic").is_none() && res.get("bad").is_none();
    if cmp == "alive" { return res.get("panic").is_some(); }
    if !clean { return true; }
    match cmp {
        // only whether it is accepted
        "ok" => res["ok"] != wres["ok"],
        // accepted or not, and a refusal changes nothing
        "guard" => res["ok"] != wres["ok"] || (wres["ok"] == json!(false) && *post != want["post"]),
        // where a refused text is said to be wrong
        "where" => res["ok"] == wres["ok"] && res["ok"] == json!(false) && (
            if res["at"] == json!([]) { wres["must"] == json!(true) }
            else { wres["at"] != json!([]) && !wres["at"].as_array().unwrap().contains(&res["at"][0]) }),
        // what kind of error it is, where it fails as expected
        "why" => res["ok"] == wres["ok"] && res["ok"] == json!(false) && !(
            wres["kinds"].as_array().unwrap().contains(&res["kind"]) && res["nums"] == wres["nums"] && res["same"] == json!(true)),
        "res" => !same_res(ev, res, wres),
        // contents of a parsed document, when it is accepted as expected
        "tree" => res["ok"] == wres["ok"] && strip(post, &["ns"]) != strip(&want["post"], &["ns"]),
        "ns" if refused(res, wres) => true,
        "ns" => res["ok"] == wres["ok"] && ns_view(post) != ns_view(&want["post"]),
        "prolog" if refused(res, wres) && wres["ok"] == json!(true) => true,
        "prolog" => res["ok"] == wres["ok"] && *doc != want["doc"],
        "edit" => !same_res(ev, res, wres) || strip(post, &["ns"]) != strip(&want["post"], &["ns"]),
        // the first node of a pair never changes; equality is that of what is visible
        "pair" => match ev["op"].as_str().unwrap_or("") {
            "clone" => *post != want["post"],
            // the original took the edit as specified, so must its clone
            "eq" if ev["twin"] == json!(true) => post[0] == want["post"][0] && (post != &want["post"] || !same_res(ev, res, wres)),
            "eq" => post[0] != want["post"][0] || (*post == want["post"] && !same_res(ev, res, wres)),
            _ => false,
        },
        "full" => !same_res(ev, res, wres) || *post != want["post"],
        x => panic!("harness: comparison {x}"),
    }
}

/// JSON of any depth (the threads have stacks to match)
pub fn value(s: &str) -> Value {
    let mut de = serde_json::Deserializer::from_str(s);
    de.disable_recursion_limit();
    serde::Deserialize::deserialize(&mut de).expect("harness: JSON")
}

/// JSON lines as TLC prints them (a TLA+ string holding JSON) or plain
pub fn lines(input: &str, shard: (usize, usize), mark: &str, mut f: impl FnMut(Value)) {
    let rd = std::io::BufReader::with_capacity(1 << 20, std::fs::File::open(input).expect("harness: input"));
    let mut k = 0;
    for line in rd.lines() {
        let line = match line { Ok(l) => l, Err(_) => continue };
        if !line.starts_with("\"{") && !line.starts_with('{') { continue; }
        k += 1;
        if k % shard.1 != shard.0 { continue; }
        let v: Value = if line.starts_with('"') {
            let s: String = serde_json::from_str(&line).expect("harness: quoted vector");
            value(&s)
        } else { value(&line) };
        if v.get(mark).is_some() { f(v); }
    }
}

pub fn run(input: &str, output: &str, r: &mut Runner, max_bad: usize, shard: (usize, usize)) -> usize {
    let mut out = std::fs::File::create(output).expect("harness: output");
    let (mut n, mut bad, mut steps, mut skipped) = (0, 0, 0, 0);
    lines(input, shard, "vec", |v| {
        n += 1;
        let cmp = v["cmp"].as_str().expect("harness: cmp").to_string();
        r.w.reset();
        // if what leads to the step already differs, this is not the place to judge it
        for h in v["hist"].as_array().unwrap_or(&vec![]) {
            let x = r.exec(h);
            if (x.get("panic").is_some() || x.get("bad").is_some() || x.get("stale").is_some()) && cmp != "alive" { skipped += 1; return; }
        }
        if let Some(pre) = v.get("pre").and_then(|p| p.as_array()) {
            for p in pre {
                let s = p[0].as_u64().unwrap() as usize;
                let me = std::panic::AssertUnwindSafe(&*r);
                let now = std::panic::catch_unwind(move || { let me = me; me.w.slot_state(s) }).unwrap_or(json!("unreadable"));
                if now != p[1] && cmp != "alive" { skipped += 1; return; }
            }
        }
        let single = vec![v.clone()];
        let evs = v["evs"].as_array().unwrap_or(&single);
        for (i, want) in evs.iter().enumerate() {
            let ev = &want["ev"];
            steps += 1;
            let res = r.exec(ev);
            if res.get("stale").is_some() { return; }
            let (post, doc) = if want.get("post").is_none() || cmp == "alive" { (json!([]), json!({})) } else {
                match r.state(ev) { Some(x) => x, None => (json!("reading the state panicked"), json!({})) }
            };
            if differs(&cmp, ev, want, &res, &post, &doc) {
                bad += 1;
                if bad <= max_bad {
                    let mut hist = v["hist"].as_array().cloned().unwrap_or_default();
                    hist.extend(evs[..i].iter().map(|e| e["ev"].clone()));
                    let rec = json!({"cmp": cmp, "hist": hist, "ev": ev, "expected": {"res": want["res"], "post": want["post"], "doc": want["doc"]},
                                     "got": {"res": res, "post": post, "doc": doc}});
                    writeln!(out, "{rec}").unwrap();
                }
                return;
            }
            if res.get("panic").is_some() { return; }
        }
    });
    writeln!(out, "{}", json!({"done": n, "bad": bad, "steps": steps, "skipped": skipped})).unwrap();
    bad
}
