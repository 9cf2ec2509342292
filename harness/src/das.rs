//! Replays behaviours of the data-availability specification through the public Rust API.
use crate::case::*;
use crate::util::*;
use crate::Args;
use rust_eth_kzg::{DASContext, UsePrecomp};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Cfg {
    /// 0 = SensibleDefault, 1 = Single, n = Multi(n), -1 = Multi(1)
    pub threads: i64,
    /// 0 = none
    pub precomp: usize,
}
pub fn parse_cfg(s: &str) -> Cfg {
    let (t, p) = s.split_once('/').expect("threads/precomp");
    Cfg { threads: t.parse().unwrap(), precomp: p.parse().unwrap() }
}
pub fn make_ctx(tau: &str, cfg: &Cfg) -> DASContext {
    let st = to_trusted(&setup(tau));
    let pre = if cfg.precomp == 0 { UsePrecomp::No } else { UsePrecomp::Yes { width: cfg.precomp } };
    #[cfg(feature = "mt")]
    {
        use rust_eth_kzg::ThreadCount;
        let t = match cfg.threads {
            0 => ThreadCount::SensibleDefault,
            1 => ThreadCount::Single,
            -1 => ThreadCount::Multi(1),
            n => ThreadCount::Multi(n as usize),
        };
        DASContext::with_threads(&st, t, pre)
    }
    #[cfg(not(feature = "mt"))]
    {
        DASContext::new(&st, pre)
    }
}

/// Which mismatches a property speaks about: "ok" = something expected to succeed does not, "invalid" = a false
/// batch is not reported as an invalid proof, "err" = malformed input is not an error, or a well-formed one is.
fn relevant(only: &str, step: &Value, got: &Outcome) -> bool {
    let exp = step["exp"]["r"].as_str().unwrap();
    match only {
        "" => true,
        "err" => exp == "err" || matches!(got.kind(), "err" | "panic"),
        o => exp == o,
    }
}
pub struct Failure {
    pub case: usize,
    pub step: usize,
    pub cfg: String,
    pub why: String,
}

pub fn run_case(
    case: &Value,
    ci: usize,
    cfg: &Cfg,
    api: &dyn Api,
    aspect: &str,
    only: &str,
    fails: &Mutex<Vec<Failure>>,
    steps_done: &AtomicUsize,
    current: &Mutex<String>,
    digests: Option<&Mutex<String>>,
) {
    let tau = case["tau"].as_str().unwrap();
    let defs = &case["defs"];
    let mut st = State::default();
    for (si, step) in case["steps"].as_array().unwrap().iter().enumerate() {
        *current.lock().unwrap() = format!("{ci}/{si}");
        let op = op_of(step, defs, &mut st);
        let got = api.run(&op);
        steps_done.fetch_add(1, Ordering::Relaxed);
        if let Some(d) = digests {
            // the observed result only; judged by the caller across configurations
            let line = format!("{ci} {si} {}/{} {} {}\n", cfg.threads, cfg.precomp, got.kind(), got.digest());
            d.lock().unwrap().push_str(&line);
            continue;
        }
        let exp = expect_of(step, defs, tau);
        let exp = match exp {
            Expect::Exact(o) => Expect::Exact(project(&o, aspect)),
            e => e,
        };
        if let Err(why) = check(&exp, &project(&got, aspect)) {
            if !relevant(only, step, &got) {
                continue;
            }
            fails.lock().unwrap().push(Failure { case: ci, step: si, cfg: format!("{cfg:?}"), why });
        }
        // every proof returned must also open its own cell (observable consequence of C03)
        if aspect == "proofs" || aspect == "selfverify" {
            if let (Outcome::CellsAndProofs(c, p), Some(com)) = (&got, step["exp"].get("com").and_then(|x| x.as_str())) {
                let com = enc48(com);
                let v = Op::Verify {
                    coms: vec![com; c.len()],
                    idx: (0..c.len() as u64).collect(),
                    cells: c.clone(),
                    proofs: p.clone(),
                };
                let o = api.run(&v);
                if o != Outcome::Verified {
                    fails.lock().unwrap().push(Failure {
                        case: ci, step: si, cfg: format!("{cfg:?}"),
                        why: format!("returned cells and proofs do not verify: {}", o.brief()),
                    });
                }
            }
        }
    }
}

pub fn main(a: &Args) -> Value {
    let cases = crate::read_cases(&a.files);
    let workers = a.num("workers", 8);
    let aspect = a.get("aspect", "all");
    let only = a.get("only", "");
    let cfgs: Vec<Cfg> = a.get("cfgs", "1/0").split(',').map(parse_cfg).collect();
    let per_case = a.get("cfgmode", "all"); // all: every case under every configuration; rr: round robin
    let limit = a.num("steplimit", 300);
    let digests = if a.get("digests", "").is_empty() { None } else { Some(Mutex::new(String::new())) };
    let fails = Mutex::new(Vec::new());
    let steps = AtomicUsize::new(0);
    let runs = AtomicUsize::new(0);
    let ctxs = AtomicUsize::new(0);
    // group jobs by (tau, cfg) so that each worker builds few contexts
    let mut jobs: Vec<(usize, Cfg)> = Vec::new();
    for (i, _) in cases.iter().enumerate() {
        if per_case == "all" {
            for c in &cfgs { jobs.push((i, c.clone())) }
        } else {
            jobs.push((i, cfgs[i % cfgs.len()].clone()))
        }
    }
    jobs.sort_by_key(|(i, c)| (c.precomp, c.threads, cases[*i]["tau"].as_str().unwrap().to_string(), *i));
    // contiguous shards keep contexts per worker few
    let next = AtomicUsize::new(0);
    let chunk = (jobs.len() / (workers * 4)).max(1);
    let watch: Vec<(Mutex<String>, Mutex<Option<std::time::Instant>>)> =
        (0..workers).map(|_| (Mutex::new(String::new()), Mutex::new(None))).collect();
    let finished = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (jobs, cases, fails, steps, runs, next, ctxs, aspect, only) = (&jobs, &cases, &fails, &steps, &runs, &next, &ctxs, &aspect, &only);
            let watch = &watch[w];
            let finished = &finished;
            let digests = &digests;
            s.spawn(move || {
                let mut cache: HashMap<(String, Cfg), Result<RustApi, String>> = HashMap::new();
                loop {
                    let st = next.fetch_add(chunk, Ordering::SeqCst);
                    if st >= jobs.len() { break }
                    for (ci, cfg) in &jobs[st..(st + chunk).min(jobs.len())] {
                        let case = &cases[*ci];
                        let tau = case["tau"].as_str().unwrap().to_string();
                        let key = (tau.clone(), cfg.clone());
                        if !cache.contains_key(&key) {
                            if cache.len() >= 3 { cache.clear() }
                            ctxs.fetch_add(1, Ordering::Relaxed);
                            let c = std::panic::catch_unwind(|| RustApi(make_ctx(&tau, cfg))).map_err(panic_msg);
                            cache.insert(key.clone(), c);
                        }
                        *watch.1.lock().unwrap() = Some(std::time::Instant::now());
                        match &cache[&key] {
                            Ok(api) => crate::util::own(|| run_case(case, *ci, cfg, api, aspect, only, fails, steps, &watch.0, digests.as_ref())),
                            Err(e) => fails.lock().unwrap().push(Failure { case: *ci, step: 0, cfg: format!("{cfg:?}"), why: format!("context construction panicked: {e}") }),
                        }
                        *watch.1.lock().unwrap() = None;
                        runs.fetch_add(1, Ordering::Relaxed);
                    }
                }
                finished.fetch_add(1, Ordering::SeqCst);
            });
        }
        // watchdog: an operation that does not return is a failure of the code under test
        let (watch, finished, cases) = (&watch, &finished, &cases);
        s.spawn(move || loop {
            if finished.load(Ordering::SeqCst) == workers { break }
            for (cur, t) in watch {
                if let Some(t) = *t.lock().unwrap() {
                    if t.elapsed().as_secs() as usize > limit {
                        let c = cur.lock().unwrap().clone();
                        let ci: usize = c.split('/').next().unwrap().parse().unwrap_or(0);
                        println!("{}", json!({"hang": c, "fails": [{"case": ci, "step": 0, "cfg": "", "why": format!("operation did not return within {limit} s ({c})"), "line": cases[ci]}], "runs": 0, "steps": 0}));
                        std::process::exit(0);
                    }
                }
            }
            std::thread::sleep(std::time::Duration::from_millis(100));
        });
    });
    if let Some(d) = &digests {
        std::fs::write(a.get("digests", ""), d.lock().unwrap().as_bytes()).expect("digests");
    }
    let fails = fails.into_inner().unwrap();
    let samples: Vec<Value> = cases.iter().take(2).map(brief_step).collect();
    json!({
        "runs": runs.load(Ordering::Relaxed), "cases": cases.len(), "steps": steps.load(Ordering::Relaxed),
        "contexts": ctxs.load(Ordering::Relaxed), "nfails": fails.len(), "samples": samples,
        "fails": fails.iter().take(20).map(|f| json!({"case": f.case, "step": f.step, "cfg": f.cfg, "why": f.why, "line": cases[f.case]})).collect::<Vec<_>>(),
    })
}
