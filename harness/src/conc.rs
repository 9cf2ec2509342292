//! Runs histories of the isolation specification on shared contexts and records what happened:
//! one event per context made or dropped and per call begun or ended, in one global order.
use crate::case::*;
use crate::das::{make_ctx, parse_cfg};
use crate::util::own;
use crate::Args;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::sync::{Arc, Barrier, Mutex};
use std::time::Instant;

struct Log {
    events: Mutex<Vec<Value>>,
    last: Mutex<Instant>,
    begun: Mutex<HashMap<usize, String>>,
}
impl Log {
    fn push(&self, v: Value) {
        *self.last.lock().unwrap() = Instant::now();
        self.events.lock().unwrap().push(v);
    }
}
type Ctx = Arc<Result<RustApi, String>>;
fn ctx(tau: &str, cfg: &str) -> Ctx {
    Arc::new(std::panic::catch_unwind(|| RustApi(make_ctx(tau, &parse_cfg(cfg)))).map_err(panic_msg))
}
struct Run<'a> {
    taus: Vec<String>,
    ops: &'a [Op],
    want: &'a [[Expect; 2]],
    log: &'a Log,
}
impl Run<'_> {
    fn call(&self, th: usize, slot: u64, setup: usize, c: &Ctx, entry: usize) {
        self.log.begun.lock().unwrap().insert(th, format!("thread {th}, slot {slot}, entry {entry}"));
        self.log.push(json!({"e": "begin", "t": th, "slot": slot, "entry": entry}));
        let got = match c.as_ref() {
            Ok(api) => api.run(&self.ops[entry - 1]),
            Err(e) => Outcome::Panic(format!("context construction: {e}")),
        };
        let why = check(&self.want[entry - 1][setup - 1], &got).err().unwrap_or_default();
        self.log.begun.lock().unwrap().remove(&th);
        self.log.push(json!({"e": "end", "t": th, "slot": slot, "entry": entry, "kind": got.kind(), "digest": got.digest(), "why": why}));
    }
    /// Item i of a program; true if there was one.
    fn item(&self, th: usize, it: &Value, shared: &[(usize, Ctx)], mine: &mut HashMap<u64, (usize, Ctx)>) {
        let slot = it[1].as_u64().unwrap();
        match it[0].as_str().unwrap() {
            "new" => {
                let s = it[2].as_u64().unwrap() as usize;
                let c = ctx(&self.taus[s - 1], it[3].as_str().unwrap());
                self.log.push(json!({"e": "new", "t": th, "slot": slot, "setup": s}));
                mine.insert(slot, (s, c));
            }
            "drop" => {
                mine.remove(&slot);
                self.log.push(json!({"e": "drop", "t": th, "slot": slot}));
            }
            _ => {
                let (s, c) = mine.get(&slot).cloned().unwrap_or_else(|| shared[slot as usize - 1].clone());
                self.call(th, slot, s, &c, it[2].as_u64().unwrap() as usize);
            }
        }
    }
}

pub fn main(a: &Args) -> Value {
    let cases = crate::read_cases(&a.files);
    let limit = a.num("steplimit", 240) as u64;
    let modes: Vec<String> = a.get("modes", "threads").split(',').map(String::from).collect();
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.get("trace", "trace.ndjson")).expect("trace file"));
    let (mut runs, mut steps) = (0, 0);
    let log = Arc::new(Log { events: Default::default(), last: Mutex::new(Instant::now()), begun: Default::default() });
    let wlog = log.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let busy: Vec<String> = wlog.begun.lock().unwrap().values().cloned().collect();
        if !busy.is_empty() && wlog.last.lock().unwrap().elapsed().as_secs() > limit {
            println!("{}", json!({"runs": 0, "steps": 0, "fails": [{"case": 0, "step": 0, "why": format!("calls did not return within {limit} s: {busy:?}")}], "samples": []}));
            std::process::exit(0);
        }
    });
    for (ci, case) in cases.iter().enumerate() {
        let taus: Vec<String> = case["taus"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        let defs = &case["defs"];
        let mut st = State::default();
        let ops: Vec<Op> = case["pool"].as_array().unwrap().iter().map(|s| op_of(s, defs, &mut st)).collect();
        let want: Vec<[Expect; 2]> = case["pool"]
            .as_array()
            .unwrap()
            .iter()
            .map(|s| {
                let e = |t: usize| {
                    let mut s = s.clone();
                    s["exp"] = s["exp"][t].clone();
                    expect_of(&s, defs, &taus[t])
                };
                [e(0), e(1)]
            })
            .collect();
        let wdig = |e: &Expect| match e {
            Expect::Exact(o) => json!({"kind": o.kind(), "digest": o.digest()}),
            Expect::Kind(k) => json!({"kind": k, "digest": k}),
            Expect::OneOf(_) => panic!("determined results only"),
        };
        let wj: Vec<Value> = want.iter().map(|w| json!([wdig(&w[0]), wdig(&w[1])])).collect();
        let progs: Vec<Vec<Value>> = case["progs"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().clone()).collect();
        let plan = case["plan"].as_str().unwrap();
        for mode in &modes {
            // a single program has nothing to interleave: run it once
            if progs.len() == 1 && mode != &modes[0] {
                continue;
            }
            *log.last.lock().unwrap() = Instant::now();
            log.push(json!({"e": "case", "case": ci, "plan": plan, "mode": mode, "want": wj}));
            let shared: Vec<(usize, Ctx)> = case["shared"]
                .as_array()
                .unwrap()
                .iter()
                .enumerate()
                .map(|(i, s)| {
                    let su = s[0].as_u64().unwrap() as usize;
                    let c = ctx(&taus[su - 1], s[1].as_str().unwrap());
                    log.push(json!({"e": "new", "t": 0, "slot": i + 1, "setup": su}));
                    (su, c)
                })
                .collect();
            let run = Run { taus: taus.clone(), ops: &ops, want: &want, log: &log };
            let run = &run;
            match mode.as_str() {
                // one thread, the programs in turns
                "turns" => {
                    let mut mine: Vec<HashMap<u64, (usize, Ctx)>> = progs.iter().map(|_| HashMap::new()).collect();
                    for i in 0..progs.iter().map(|p| p.len()).max().unwrap_or(0) {
                        for (th, p) in progs.iter().enumerate() {
                            if let Some(it) = p.get(i) {
                                own(|| run.item(th + 1, it, &shared, &mut mine[th]));
                            }
                        }
                    }
                }
                // a thread per program; "lockstep": all calls of a round start together
                "threads" | "lockstep" => {
                    let n = progs.iter().map(|p| p.len()).max().unwrap_or(0);
                    let bar = Barrier::new(progs.len());
                    std::thread::scope(|s| {
                        for (th, p) in progs.iter().enumerate() {
                            let (shared, bar) = (shared.clone(), &bar);
                            s.spawn(move || {
                                let mut mine = HashMap::new();
                                for i in 0..n {
                                    if mode == "lockstep" {
                                        bar.wait();
                                    }
                                    if let Some(it) = p.get(i) {
                                        own(|| run.item(th + 1, it, &shared, &mut mine));
                                    }
                                }
                            });
                        }
                    });
                }
                // called from the workers of a pool of the caller
                "rayon" => {
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(3).build().expect("pool");
                    pool.scope(|s| {
                        for (th, p) in progs.iter().enumerate() {
                            let shared = shared.clone();
                            s.spawn(move |_| {
                                let mut mine = HashMap::new();
                                for it in p {
                                    own(|| run.item(th + 1, it, &shared, &mut mine));
                                }
                            });
                        }
                    });
                }
                m => panic!("unknown mode {m}"),
            }
            for (i, c) in shared.into_iter().enumerate() {
                drop(c);
                log.push(json!({"e": "drop", "t": 0, "slot": i + 1}));
            }
            runs += 1;
            for e in log.events.lock().unwrap().drain(..) {
                steps += (e["e"] == "end") as usize;
                writeln!(out, "{e}").unwrap();
            }
        }
    }
    writeln!(out, "{}", json!({"e": "done"})).unwrap();
    out.flush().unwrap();
    json!({"runs": runs, "steps": steps, "fails": [], "samples": cases.iter().take(2).map(brief_step).collect::<Vec<_>>()})
}
