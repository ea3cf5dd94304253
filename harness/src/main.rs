mod state; mod exec; mod tables; mod drive; mod scale;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// the trace being recorded, shared with the watchdog so that a hang is recorded as an outcome
pub struct Rec { pub events: Vec<Value>, pub pending: Option<Value>, pub since: Instant, pub meta: Value, pub pre: Option<Value>, pub hist: Option<Vec<Value>> }

pub struct Runner { pub out: std::io::BufWriter<std::fs::File>, pub cur: Arc<Mutex<Rec>>, pub sim: Option<exec::Sim>, pub dead: bool, pub echo: bool }

impl Runner {
    pub fn begin(&mut self, meta: Value) {
        let mut r = self.cur.lock().unwrap();
        r.events.clear(); r.pending = None; r.meta = meta; self.sim = None; self.dead = false;
    }
    /// executes op, records outcome and (for mutating operations) the resulting state
    pub fn step(&mut self, op: Value) -> (bool, Value) {
        if self.dead { return (false, json!(0)); }
        { let mut r = self.cur.lock().unwrap(); r.pending = Some(op.clone()); r.since = Instant::now(); }
        if self.echo { eprintln!("{}", op); let _ = std::io::stderr().flush(); }
        let sim = &mut self.sim;
        let opr = &op;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let (ok, v, mutating) = exec::exec(sim, opr);
            let post = if mutating { match sim { Some(s) => Some(state::state(&s.doc).0), None => None } } else { None };
            (ok, v, post)
        }));
        let mut r = self.cur.lock().unwrap();
        r.pending = None;
        match res {
            Ok((ok, v, post)) => {
                let mut ev = json!({"op": op, "ok": if ok {"ok"} else {"err"}, "v": v});
                if let Some(p) = post { ev["post"] = p; }
                r.events.push(ev);
                (ok, v)
            }
            Err(p) => {
                let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if msg.starts_with("HARNESS") { eprintln!("{}", msg); std::process::exit(2); }
                r.events.push(json!({"op": op, "ok": "panic", "v": 0, "msg": msg}));
                self.dead = true;
                (false, json!(0))
            }
        }
    }
    /// only the last event is of interest, in the state it took place in
    pub fn keep_last(&mut self) {
        let mut r = self.cur.lock().unwrap();
        let ev = match r.events.pop() { Some(e) => e, None => return };
        let pre = r.events.iter().rev().find_map(|e| e.get("post").cloned());
        r.hist = Some(r.events.iter().map(|e| e["op"].clone()).collect());
        r.pre = pre;
        r.events = vec![ev];
    }
    /// from the state after `hist`, every operation of `ops` by itself
    pub fn branches(&mut self, hist: &[Value], ops: &[Value]) {
        let mut events: Vec<Value> = vec![];
        let mut fresh = false;
        let echo = self.echo;
        for (k, op) in ops.iter().enumerate() {
            if !fresh {
                self.sim = None; self.dead = false;
                self.echo = false;
                for h in hist { if !self.step(h.clone()).0 { break; } }
                self.echo = echo;
                let mut r = self.cur.lock().unwrap();
                if k == 0 {
                    r.hist = Some(hist.to_vec());
                    r.pre = r.events.iter().rev().find_map(|e| e.get("post").cloned());
                    r.meta["branch"] = json!(true);
                }
                let bad = r.events.iter().any(|e| e["ok"] != "ok");
                r.events.clear();
                if bad || r.pre.is_none() { return; }
            }
            if echo { eprintln!("{{\"n\":\"#reset\"}}"); for h in hist { eprintln!("{}", h); } }
            self.step(op.clone());
            let mut r = self.cur.lock().unwrap();
            let ev = r.events.pop().unwrap();
            fresh = ev.get("post").is_none() && ev["ok"] != "panic";
            events.push(ev);
        }
        self.dead = false;
        self.cur.lock().unwrap().events = events;
    }
    pub fn end(&mut self) {
        let mut r = self.cur.lock().unwrap();
        let mut line = json!({"meta": r.meta, "ev": r.events});
        if let Some(p) = r.pre.take() { line["pre"] = p; }
        if let Some(h) = r.hist.take() { line["hist"] = json!(h); }
        writeln!(self.out, "{}", line).expect("write");
        r.events.clear();
        if self.dead { self.out.flush().unwrap(); }
    }
    pub fn doc(&self) -> &folia::Document { &self.sim.as_ref().unwrap().doc }
    pub fn last_op(&self) -> Value { self.cur.lock().unwrap().events.last().map(|e| e["op"].clone()).unwrap() }
    pub fn has_doc(&self) -> bool { self.sim.is_some() && !self.dead }
}

fn arg(name: &str) -> Option<String> { let a: Vec<String> = std::env::args().collect(); a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned()) }

fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    if cmd == "scale" { std::panic::set_hook(Box::new(|_| {})); scale::main(); return; }
    if cmd == "tables" { println!("{}", tables::dump()); return; }
    std::panic::set_hook(Box::new(|_| {}));
    let outp = arg("--out").expect("--out");
    let file = std::fs::OpenOptions::new().create(true).append(true).open(&outp).expect("open out");
    let cur = Arc::new(Mutex::new(Rec { events: vec![], pending: None, since: Instant::now(), meta: json!({}), pre: None, hist: None }));
    let w = cur.clone();
    let wout = outp.clone();
    let limit = arg("--limit").and_then(|s| s.parse().ok()).unwrap_or(20u64);
    let mut r = Runner { out: std::io::BufWriter::new(file), cur: cur, sim: None, dead: false, echo: arg("--echo").is_some() };
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let mut c = match w.lock() { Ok(c) => c, Err(_) => continue };
        if c.pending.is_some() && c.since.elapsed() > Duration::from_secs(limit) {
            // the main thread is stuck inside the library: record the hang; finished traces may still be in its
            // buffer, so they are redone by the caller (it restarts after the traces present in the file)
            let op = c.pending.take().unwrap();
            c.events.push(json!({"op": op, "ok": "hang", "v": 0}));
            let mut line = json!({"meta": c.meta, "ev": c.events});
            if c.meta.get("branch").is_some() {
                let last = c.events.last().cloned().unwrap();
                line = json!({"meta": c.meta, "ev": [last], "pre": c.pre, "hist": c.hist});
            }
            std::fs::write(format!("{}.hang", wout), format!("{}\n", line)).unwrap();
            std::process::exit(3);
        }
    });
    // the behaviours base+start .. base+count are performed (only the first of them with --one)
    let num = |n: &str, d: usize| arg(n).and_then(|s| s.parse().ok()).unwrap_or(d);
    let (base, start) = (num("--base", 0), num("--start", 0));
    let from = base + start;
    let to = if arg("--one").is_some() { from + 1 } else { base + num("--count", 1_000_000_000) };
    match cmd.as_str() {
        "run" => {
            let f = std::io::BufReader::new(std::fs::File::open(arg("--in").expect("--in")).expect("open in"));
            let last = arg("--last").is_some();
            for (i, line) in f.lines().enumerate() {
                if i < from { continue; }
                if i >= to { break; }
                let line = line.unwrap();
                let t: Value = serde_json::from_str(&line).expect("json");
                r.begin(json!({"i": i, "meta": t["meta"]}));
                if let Some(b) = t["branch"].as_array() {
                    let hist: Vec<Value> = exec::arr(&t["hist"]).clone();
                    r.branches(&hist, b);
                    r.end(); r.out.flush().unwrap();
                    continue;
                }
                for op in exec::arr(&t["ops"]) { r.step(op.clone()); if r.dead { break; } if !r.has_doc() { break; } }
                if last { r.keep_last(); }
                r.end();
                r.out.flush().unwrap();
            }
        }
        "gen" => {
            let profile = arg("--profile").expect("--profile");
            let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let len: usize = arg("--len").and_then(|s| s.parse().ok()).unwrap_or(20);
            for i in from..to {
                r.begin(json!({"i": i, "profile": profile, "seed": seed}));
                drive::trace(&mut r, &profile, seed.wrapping_mul(1_000_003).wrapping_add(i as u64), len);
                r.end();
                r.out.flush().unwrap();
            }
        }
        _ => { eprintln!("usage"); std::process::exit(2); }
    }
    r.out.flush().unwrap();
}
