//! What kind of error a failing call returns.  Everything is done on copies.
use crate::codes::*;
use crate::io::{ScriptedReader, ScriptedWriter};
use crate::world::*;
use kiss_xml::dom::*;
use kiss_xml::errors::*;
use serde_json::{json, Value};
use std::collections::HashMap;

fn kind(e: &KissXmlError) -> String {
    match e {
        KissXmlError::ParsingError(_) => "parse".into(),
        KissXmlError::TypeCastError(_) => "cast".into(),
        KissXmlError::DoesNotExistError(_) => "missing".into(),
        KissXmlError::IndexOutOfBounds(_) => "index".into(),
        KissXmlError::InvalidAttributeName(_) => "attr".into(),
        KissXmlError::InvalidElementName(_) => "name".into(),
        KissXmlError::InvalidContent(_) => "content".into(),
        KissXmlError::NotSupportedError(_) => "unsup".into(),
        KissXmlError::IOError(e) => format!("io:{:?}", e.kind()),
    }
}
/// the error, its message before it became a KissXmlError (if it was something else)
fn told<T, E: std::fmt::Display + Into<KissXmlError>>(r: Result<T, E>) -> Value {
    match r {
        Ok(_) => json!({"ok": true, "kind": "", "nums": [], "same": true}),
        Err(e) => {
            let own = e.to_string();
            let e: KissXmlError = e.into();
            let nums = match &e { KissXmlError::IndexOutOfBounds(x) => { let b = x.bounds.unwrap_or((-1, -1)); json!([x.index, b.0, b.1]) } _ => json!([]) };
            let boxed: Box<dyn std::error::Error> = Box::new(e);
            let e = boxed.downcast_ref::<KissXmlError>().unwrap();
            json!({"ok": false, "kind": kind(e), "nums": nums, "same": !own.is_empty() && boxed.to_string() == own && !format!("{e:?}").is_empty()})
        }
    }
}

pub fn exec(w: &mut World, ev: &Value) -> Value {
    match ev["op"].as_str().unwrap() {
        "parse" => told(kiss_xml::parse_str(dec(&ev["text"]))),
        "new" => {
            let (name, text, ns, prefix) = (dec(&ev["name"]), dec_opt(&ev["text"]), dec_opt(&ev["ns"]), dec_opt(&ev["prefix"]));
            let at: HashMap<String, String> = ev["at"].as_array().unwrap().iter().map(|kv| (dec(&kv[0]), dec(&kv[1]))).collect();
            told(match ev["ctor"].as_str().unwrap_or("new") {
                "name" => Element::new_from_name(&name),
                "attrs" => Element::new_with_attributes(&name, at),
                "text" => Element::new_with_text(&name, text.unwrap()),
                "attrs_text" => Element::new_with_attributes_and_text(&name, at, text.unwrap()),
                "attrs_kids" => Element::new_with_attributes_and_children(&name, at, vec![]),
                "kids" => Element::new_with_children(&name, vec![]),
                _ => Element::new(name, text, if at.is_empty() { None } else { Some(at) }, ns, prefix, None),
            })
        }
        "leaf" => { let s = dec(&ev["text"]); match ev["k"].as_str().unwrap() {
            "c" => told(Comment::new(s)), "d" => told(CData::new(s)), _ => { let _ = Text::new(s); told(Ok::<(), KissXmlError>(())) } } }
        "set_content" => {
            let s = dec(&ev["text"]);
            let n = w.at(uint(ev, "s"), &path(ev, "path"));
            if let Ok(c) = n.as_comment() { told(c.clone().set_content(s)) }
            else if let Ok(d) = n.as_cdata() { told(d.clone().set_text(s)) }
            else { told(Ok::<(), KissXmlError>(())) }
        }
        "set_attr" => told(w.elem(ev).clone().set_attr(dec(&ev["key"]), dec(&ev["val"]))),
        "insert" => told(w.elem(ev).clone().insert(uint(ev, "i"), Text::new("w"))),
        "remove" => told(w.elem(ev).clone().remove(uint(ev, "i"))),
        "remove_element" => told(w.elem(ev).clone().remove_element(uint(ev, "i"))),
        "cast" => {
            let (s, p) = (uint(ev, "s"), path(ev, "path"));
            let n = w.at(s, &p);
            let shared = match ev["k"].as_str().unwrap() { "e" => told(n.as_element()), "t" => told(n.as_text()), "c" => told(n.as_comment()), _ => told(n.as_cdata()) };
            let mut c = wrap(n);
            let m = match ev["k"].as_str().unwrap() { "e" => told(c.as_element_mut()), "t" => told(c.as_text_mut()), "c" => told(c.as_comment_mut()), _ => told(c.as_cdata_mut()) };
            if shared == m { m } else { json!({"ok": shared["ok"], "kind": "shared and mutable differ", "nums": [], "same": false}) }
        }
        "first" => {
            let a = told(w.elem(ev).first_element_by_name(dec(&ev["name"])));
            let mut e = w.elem(ev).clone();
            let b = told(e.first_element_by_name_mut(dec(&ev["name"])));
            if a == b { a } else { json!({"ok": a["ok"], "kind": "shared and mutable differ", "nums": [], "same": false}) }
        }
        "decl_from_str" => told(Declaration::from_str(&dec(&ev["text"]))),
        "dtd_from_string" => told(DTD::from_string(dec(&ev["text"]))),
        "stream" => {
            let mut data = dec(&ev["text"]).into_bytes();
            if ev["junk"] == json!(true) { data.push(195); }
            let fail = ev["fail"].as_array().unwrap().first().map(|x| x.as_u64().unwrap() as usize);
            told(kiss_xml::parse_stream(ScriptedReader { kind: crate::io::kind(ev), data, pos: 0, chunk: uint(ev, "chunk").max(1), intr: 0, calls: 0, fail }))
        }
        "sink" => {
            let d = kiss_xml::parse_str(dec(&ev["text"])).expect("stale: refused");
            let fail = ev["fail"].as_array().unwrap().first().map(|x| x.as_u64().unwrap() as usize);
            let mut out = ScriptedWriter { kind: crate::io::kind(ev), got: Vec::new(), cap: uint(ev, "chunk").max(1), intr: 0, calls: 0, fail, zero: ev["zero"].as_bool().unwrap() };
            told(d.write_to_file(&mut out))
        }
        "no_file" => {
            let p = crate::io::scratch().join("no").join("such").join("file");
            told(kiss_xml::parse_filepath(p))
        }
        x => panic!("harness: why {x}"),
    }
}
