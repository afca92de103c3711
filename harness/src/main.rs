//! kxcheck drive  --focus C08 --seed N --events N --out trace.ndjson
//! kxcheck replay --in vectors --out failures
//! kxcheck script --focus C14 --in scenarios --out trace.ndjson
//! kxcheck one    --in events.ndjson --out trace.ndjson     (re-executes events)
mod codes;
mod drive;
mod gen;
mod io;
mod replay;
mod rng;
mod run;
mod why;
mod world;

use std::io::BufRead;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let opt = |k: &str| args.iter().position(|a| a == &format!("--{k}")).and_then(|i| args.get(i + 1)).cloned();
    let need = |k: &str| opt(k).unwrap_or_else(|| panic!("missing --{k}"));
    let num = |k: &str, d: u64| opt(k).map_or(d, |s| s.parse().expect("number"));
    run::guard(num("limit", 30));
    let cur = need("out") + ".cur";
    let stack = num("stack-kb", 256 * 1024) as usize * 1024;
    let (focus, seed, events) = (opt("focus").unwrap_or_default(), num("seed", 1), num("events", 1000) as usize);
    let (input, out) = (opt("in").unwrap_or_default(), need("out"));
    let num_shard = (num("shard", 0) as usize, num("shards", 1) as usize);
    let compact = opt("compact").is_some();
    let code = std::thread::Builder::new().stack_size(stack).spawn(move || match cmd.as_str() {
        "drive" => {
            let mut r = run::Runner::new(drive::SLOTS, Some(&out), &cur, focus == "C15", !compact);
            drive::Session::new(seed, &focus, &mut r).drive(events);
            r.flush();
            0
        }
        "replay" => {
            let mut r = run::Runner::new(drive::SLOTS, None, &cur, false, true);
            replay::run(&input, &out, &mut r, 20, num_shard);
            0
        }
        // sessions generated from the specification, to be judged as traces
        "script" => {
            let mut r = run::Runner::new(drive::SLOTS, Some(&out), &cur, focus == "C15", !compact);
            let fs = focus == "C14";
            replay::lines(&input, num_shard, "script", |v| {
                r.event(&serde_json::json!({"op": "reset"}));
                if fs { r.event(&serde_json::json!({"op": "fs_reset"})); }
                for ev in v["evs"].as_array().expect("harness: evs") { if !r.event(ev) { break; } }
            });
            r.flush();
            0
        }
        "one" => {
            let mut r = run::Runner::new(drive::SLOTS, Some(&out), &cur, false, !compact);
            for line in std::io::BufReader::new(std::fs::File::open(&input).unwrap()).lines() {
                let line = line.unwrap();
                if line.trim().is_empty() { continue; }
                let v = replay::value(&line);
                r.event(if v.get("ev").is_some() { &v["ev"] } else { &v });
                r.flush();
            }
            0
        }
        x => { eprintln!("unknown command {x}"); 64 }
    }).expect("thread").join().unwrap_or(71);
    std::process::exit(code);
}
