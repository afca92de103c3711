//! Readers, writers and a scratch file system with scripted faults.
use crate::codes::*;
use crate::world::*;
use serde_json::{json, Value};
use std::fs;
use std::io::{Error, ErrorKind, Read, Write};
use std::path::PathBuf;

/// what a scripted fault is called: none of them is anything but a failure
const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::InvalidData, ErrorKind::WouldBlock, ErrorKind::ConnectionReset,
    ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::WriteZero, ErrorKind::StorageFull, ErrorKind::NotFound, ErrorKind::InvalidInput, ErrorKind::ConnectionAborted,
    ErrorKind::AlreadyExists, ErrorKind::Unsupported, ErrorKind::OutOfMemory, ErrorKind::NotConnected];
pub fn kind(ev: &Value) -> ErrorKind { KINDS[ev["err"].as_u64().unwrap_or(0) as usize % KINDS.len()] }
pub struct ScriptedReader { pub kind: ErrorKind, pub data: Vec<u8>, pub pos: usize, pub chunk: usize, pub intr: usize, pub calls: usize, pub fail: Option<usize> }
impl Read for ScriptedReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut end = self.data.len();
        if let Some(f) = self.fail {
            if self.pos >= f { return Err(Error::new(self.kind, "scripted read fault")); }
            end = end.min(f);
        }
        let n = self.chunk.min(end - self.pos).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct ScriptedWriter { pub kind: ErrorKind, pub got: Vec<u8>, pub cap: usize, pub intr: usize, pub calls: usize, pub fail: Option<usize>, pub zero: bool }
impl Write for ScriptedWriter {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = self.cap.min(buf.len());
        if let Some(f) = self.fail {
            if self.got.len() >= f && !buf.is_empty() {
                return if self.zero { Ok(0) } else { Err(Error::new(self.kind, "scripted write fault")) };
            }
            n = n.min(f - self.got.len());
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

pub fn scratch() -> PathBuf {
    let base = std::env::var("KX_SCRATCH").expect("harness: KX_SCRATCH not set");
    PathBuf::from(base).join(format!("fs-{}", std::process::id()))
}
fn names(v: &Value) -> Vec<String> { v.as_array().unwrap().iter().map(dec).collect() }
fn full_path(ev: &Value) -> PathBuf {
    let ns = names(&ev["path"]);
    for n in &ns {
        assert!(!n.is_empty() && n != ".." && !n.contains('/'), "harness: path component {n:?}");
    }
    let mut p = if ev["rel"].as_bool().unwrap_or(false) { PathBuf::new() } else { scratch() };
    for n in ns { p.push(n); }
    p
}
fn list(dir: &PathBuf, prefix: &mut Vec<String>, out: &mut Vec<Value>) {
    let mut entries: Vec<_> = fs::read_dir(dir).expect("harness: read_dir").map(|e| e.unwrap()).collect();
    entries.sort_by_key(|e| e.file_name());
    for e in entries {
        prefix.push(e.file_name().to_string_lossy().into_owned());
        let here: Vec<Value> = prefix.iter().map(|s| enc(s)).collect();
        let ty = e.file_type().unwrap();
        if ty.is_dir() {
            out.push(json!([here, "dir", []]));
            list(&e.path(), prefix, out);
        } else if ty.is_symlink() {
            out.push(json!([here, "full", []]));
        } else {
            out.push(json!([here, "file", enc_bytes(&fs::read(e.path()).unwrap())]));
        }
        prefix.pop();
    }
}
fn listing() -> Value {
    let mut out = Vec::new();
    list(&scratch(), &mut Vec::new(), &mut out);
    Value::Array(out)
}

fn report(r: Result<kiss_xml::dom::Document, kiss_xml::errors::KissXmlError>, bytes: Option<&[u8]>) -> Value {
    let same_as_str = bytes.and_then(|b| std::str::from_utf8(b).ok()).map(|s| kiss_xml::parse_str(s));
    let (strok, same) = match (&r, &same_as_str) {
        (Ok(a), Some(Ok(b))) => (true, doc_tree(a) == doc_tree(b)),
        (_, Some(Ok(_))) => (true, false),
        _ => (false, false),
    };
    match r {
        Ok(_) => json!({"ok": true, "io": false, "strok": strok, "same": same}),
        Err(e) => json!({"ok": false, "io": matches!(e, kiss_xml::errors::KissXmlError::IOError(_)), "strok": strok, "same": false}),
    }
}

pub fn exec(w: &mut World, ev: &Value) -> Value {
    match ev["op"].as_str().unwrap() {
        "stream" => {
            let bytes = dec_bytes(&ev["bytes"]);
            let fail = ev["fail"].as_array().unwrap().first().map(|x| x.as_u64().unwrap() as usize);
            let rd = ScriptedReader { kind: kind(ev), data: bytes.clone(), pos: 0, chunk: uint(ev, "chunk").max(1), intr: uint(ev, "intr"), calls: 0, fail };
            report(kiss_xml::parse_stream(rd), Some(&bytes))
        }
        "sink" => {
            let fail = ev["fail"].as_array().unwrap().first().map(|x| x.as_u64().unwrap() as usize);
            let mut out = ScriptedWriter { kind: kind(ev), got: Vec::new(), cap: uint(ev, "cap").max(1), intr: uint(ev, "intr"), calls: 0, fail, zero: ev["zero"].as_bool().unwrap() };
            let d = w.doc.as_ref().expect("harness: no document");
            let ind = dec_opt(&ev["indent"]);
            let (r, full) = match ind {
                None => (d.write_to_file(&mut out), d.to_string()),
                Some(i) => (d.write_to_file_with_indent(&mut out, i.clone()), d.to_string_with_indent(i)),
            };
            json!({"ok": r.is_ok(), "n": out.got.len(), "full": full.len(), "prefix": full.as_bytes().starts_with(&out.got)})
        }
        "fs_reset" => {
            let s = scratch();
            let _ = fs::remove_dir_all(&s);
            fs::create_dir_all(&s).expect("harness: scratch");
            std::env::set_current_dir(&s).expect("harness: chdir");
            json!({"ok": true, "fs": listing()})
        }
        "fs_mk" => {
            let p = full_path(ev);
            match ev["kind"].as_str().unwrap() {
                "dir" => fs::create_dir_all(&p).expect("harness: mkdir"),
                "full" => std::os::unix::fs::symlink("/dev/full", &p).expect("harness: symlink"),
                _ => fs::write(&p, dec_bytes(&ev["bytes"])).expect("harness: write"),
            }
            json!({"ok": true, "fs": listing()})
        }
        "fs_write" => {
            let d = w.doc.as_ref().expect("harness: no document");
            let p = full_path(ev);
            let (r, full) = match dec_opt(&ev["indent"]) {
                None => (d.write_to_filepath(&p), d.to_string()),
                Some(i) => (d.write_to_filepath_with_indent(&p, i.clone()), d.to_string_with_indent(i)),
            };
            json!({"ok": r.is_ok(), "full": enc_bytes(full.as_bytes()), "fs": listing()})
        }
        "fs_read" => {
            let p = full_path(ev);
            assert!(!p.is_symlink(), "harness: reading the device would never end");
            let bytes = fs::read(&p).ok();
            let mut v = report(kiss_xml::parse_filepath(&p), bytes.as_deref());
            v["fs"] = listing();
            v
        }
        _ => unreachable!(),
    }
}

/// may this entry be created in the scratch file system as it is now?
pub fn can_make(path: &[Value], kind: &str) -> bool {
    let mut p = scratch();
    for (i, c) in path.iter().enumerate() {
        p.push(dec(c));
        let last = i + 1 == path.len();
        let md = fs::symlink_metadata(&p);
        if !last { if kind == "dir" { if md.map_or(false, |m| !m.is_dir()) { return false; } } else if !md.map_or(false, |m| m.is_dir()) { return false; } }
        else {
            return match md { Err(_) => true, Ok(m) => match kind { "dir" => m.is_dir(), "file" => m.is_file(), _ => false } };
        }
    }
    false
}
pub fn is_device(path: &[Value]) -> bool {
    let mut p = scratch();
    for c in path { p.push(dec(c)); }
    p.is_symlink()
}
