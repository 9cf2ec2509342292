//! Records the weights that batch verification gives to the tuples of each batch of a behaviour.
//! One verification at a time: the observer is global to the process.
use crate::case::*;
use crate::das::{make_ctx, parse_cfg};
use crate::util::*;
use crate::Args;
use kzg_multi_open::verif::BATCH_WEIGHTS;
use serde_json::{json, Value};
use sha2::Digest;
use std::io::Write;

pub fn main(a: &Args) -> Value {
    let cases = crate::read_cases(&a.files);
    let (shard, shards) = (a.num("shard", 0), a.num("shards", 1));
    let cfg = parse_cfg(&a.get("cfgs", "1/0"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.get("trace", "trace.ndjson")).expect("trace file"));
    let (mut steps, mut runs, mut observed) = (0, 0, 0);
    let mut apis: std::collections::HashMap<String, RustApi> = Default::default();
    for (ci, case) in cases.iter().enumerate() {
        if ci % shards != shard {
            continue;
        }
        runs += 1;
        let tau = case["tau"].as_str().unwrap().to_string();
        let api = apis.entry(tau.clone()).or_insert_with(|| RustApi(make_ctx(&tau, &cfg)));
        let mut st = State::default();
        for (si, step) in case["steps"].as_array().unwrap().iter().enumerate() {
            let op = op_of(step, &case["defs"], &mut st);
            *BATCH_WEIGHTS.lock().unwrap() = Some(vec![]);
            let got = api.run(&op);
            let mut log = match BATCH_WEIGHTS.lock() {
                Ok(mut l) => l.take(),
                Err(p) => p.into_inner().take(),
            }
            .unwrap_or_default();
            steps += 1;
            let Op::Verify { coms, idx, cells, proofs } = &op else { panic!("verification only") };
            let mut h = sha2::Sha256::new();
            h.update((idx.len() as u64).to_be_bytes());
            for (i, x) in idx.iter().enumerate() {
                h.update(&coms[i]);
                h.update(x.to_be_bytes());
                h.update(&cells[i]);
                h.update(&proofs[i]);
            }
            // a batch verified in several pieces gives no single weight vector
            let w: Vec<String> = if log.len() == 1 { log.remove(0).iter().map(shex).collect() } else { vec![] };
            let dig: Vec<String> = w.get(1).map(|x| x.chars().map(|c| c.to_string()).collect()).unwrap_or_default();
            observed += (w.len() == idx.len()) as usize;
            let rec = json!({"id": case["id"], "case": ci, "step": si, "what": step["what"], "n": idx.len(), "digest": hex::encode(&h.finalize()[..16]),
                "result": got.kind(), "w": w, "dig": dig, "zero": "0".repeat(64)});
            writeln!(out, "{rec}").unwrap();
        }
    }
    out.flush().unwrap();
    json!({"runs": runs, "steps": steps, "observed": observed, "fails": [], "samples": []})
}
