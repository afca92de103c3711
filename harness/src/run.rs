//! Executes events one by one: panics are results, crashes and hangs are
//! attributable (the event in progress is in the file `<out>.cur`).
use crate::world::*;
use serde_json::{json, Value};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static TICK: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// seconds of processor time this process has used
fn cpu_s() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<u64> = s.rsplit(')').next().unwrap_or("").split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
    f.iter().sum::<u64>() as f64 / 100.0
}

/// a watchdog ends the process (exit code 77) when one event takes too long:
/// `limit_s` of processor time (a loaded machine is no defect), or ten times that on the clock (blocked)
pub fn guard(limit_s: u64) {
    std::panic::set_hook(Box::new(|i| {
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{i}");
    }));
    std::thread::spawn(move || {
        let mut last = (0, std::time::Instant::now(), 0.0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let t = TICK.load(Ordering::Relaxed);
            if t != last.0 { last = (t, std::time::Instant::now(), cpu_s()); }
            else if t % 2 == 1 && last.1.elapsed().as_secs() >= limit_s
                && (cpu_s() - last.2 >= limit_s as f64 || last.1.elapsed().as_secs() >= 10 * limit_s) { std::process::exit(77); }
        }
    });
}

pub struct Runner {
    pub w: World,
    pub out: Option<std::io::BufWriter<std::fs::File>>,
    pub cur: std::fs::File,
    pub post_all: bool,
    pub with_post: bool,
    pub count: usize,
}

impl Runner {
    pub fn new(slots: usize, out: Option<&str>, cur: &str, post_all: bool, with_post: bool) -> Self {
        let out = out.map(|p| std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(p).expect("harness: trace file")));
        let cur = std::fs::File::create(cur).expect("harness: cur file");
        Runner { w: World::new(slots), out, cur, post_all, with_post, count: 0 }
    }
    pub fn note(&mut self, ev: &Value) {
        let mut line = serde_json::to_vec(ev).unwrap();
        line.push(b'\n');
        self.cur.write_all_at(&line, 0).expect("harness: cur");
    }
    /// execute; a panic of the library is a result
    pub fn exec(&mut self, ev: &Value) -> Value {
        self.note(ev);
        TICK.fetch_add(1, Ordering::Relaxed);
        let w = &mut self.w;
        let r = catch_unwind(AssertUnwindSafe(|| w.exec(ev)));
        TICK.fetch_add(1, Ordering::Relaxed);
        match r {
            Ok(v) => v,
            Err(_) => {
                let msg = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
                if msg.contains("harness: ") {
                    eprintln!("harness defect on {ev}: {msg}");
                    let _ = std::fs::write(std::env::var("KX_DEFECT").unwrap_or("/dev/null".into()), format!("{msg}\n{ev}\n"));
                    std::process::exit(70);
                }
                if msg.contains("stale: ") { self.w.reset(); return json!({"ok": false, "stale": msg}); }
                let bad = msg.contains("src/world.rs") || msg.contains("src/io.rs");
                self.w.reset();
                json!({"ok": false, if bad { "bad" } else { "panic" }: msg})
            }
        }
    }
    pub fn post(&self, ev: &Value) -> Value {
        if self.post_all {
            Value::Array((1..=self.w.slots()).map(|s| json!([s, self.w.slot_state(s)])).collect())
        } else { self.w.post(ev) }
    }
    /// the visible state; reading it must not fail
    pub fn state(&self, ev: &Value) -> Option<(Value, Value)> {
        let me = AssertUnwindSafe(self);
        catch_unwind(move || { let me = me; (me.post(ev), me.w.prolog()) }).ok()
    }
    /// execute and record; false if the session cannot go on
    pub fn event(&mut self, ev: &Value) -> bool {
        let res = self.exec(ev);
        let fine = res.get("panic").is_none() && res.get("bad").is_none() && res.get("stale").is_none();
        self.count += 1;
        if self.out.is_some() {
            let line = if self.with_post {
                match self.state(ev) {
                    Some((p, d)) => json!({"ev": ev, "res": res, "post": p, "doc": d}),
                    None => json!({"ev": ev, "res": {"ok": false, "bad": "reading the state panicked"}, "post": [], "doc": {"decl": [], "dtds": []}}),
                }
            } else { json!({"ev": ev, "res": res}) };
            let out = self.out.as_mut().unwrap();
            serde_json::to_writer(&mut *out, &line).unwrap();
            out.write_all(b"\n").unwrap();
        }
        fine
    }
    pub fn flush(&mut self) { if let Some(o) = self.out.as_mut() { o.flush().expect("harness: flush"); } }
}
