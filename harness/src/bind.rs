//! Resolves the symbolic arguments of language-interface histories to bytes, and records what the library itself
//! returns for them under the published setup: the reference an interface is compared with.
use crate::case::*;
use crate::util::*;
use crate::Args;
use rust_eth_kzg::DASContext;
use serde_json::{json, Value};
use sha2::Digest;
use std::collections::HashMap;
use std::io::Write;

struct Env {
    blobs: Vec<Vec<u8>>,
    made: HashMap<usize, (Vec<u8>, Vec<Vec<u8>>, Vec<Vec<u8>>)>,
}
impl Env {
    fn of(&mut self, ctx: &DASContext, b: usize) -> &(Vec<u8>, Vec<Vec<u8>>, Vec<Vec<u8>>) {
        let blob: &[u8; 131072] = self.blobs[b - 1].as_slice().try_into().unwrap();
        self.made.entry(b).or_insert_with(|| {
            let f = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let com = ctx.blob_to_kzg_commitment(blob).ok()?;
                let (c, p) = ctx.compute_cells_and_kzg_proofs(blob).ok()?;
                Some((com.to_vec(), c.iter().map(|x| x.to_vec()).collect(), p.iter().map(|x| x.to_vec()).collect()))
            }));
            // a library that fails here is judged elsewhere; any bytes will do
            f.ok().flatten().unwrap_or_else(|| (vec![0xc0; 48], vec![vec![0; 2048]; 128], vec![vec![0xc0; 48]; 128]))
        })
    }
    /// Bytes of one argument; None for a null.
    fn bytes(&mut self, ctx: &DASContext, v: &Value) -> Option<Vec<u8>> {
        let pair = |x: &Value| (x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as usize);
        let mut b = if let Some(i) = v.get("b") {
            self.blobs[i.as_u64().unwrap() as usize - 1].clone()
        } else if let Some(i) = v.get("com") {
            self.of(ctx, i.as_u64().unwrap() as usize).0.clone()
        } else if let Some(x) = v.get("cell") {
            let (i, k) = pair(x);
            self.of(ctx, i).1[k].clone()
        } else if let Some(x) = v.get("proof") {
            let (i, k) = pair(x);
            self.of(ctx, i).2[k].clone()
        } else if let Some(x) = v.get("m") {
            enc48(&format!("m:{}", x.as_str().unwrap()))
        } else if let Some(n) = v.get("len") {
            // the beginning of something valid, repeated
            let src = self.blobs[0].clone();
            (0..n.as_u64().unwrap() as usize).map(|i| src[i % src.len()]).collect()
        } else if v.get("nil").is_some() || v.get("js").is_some() {
            return None;
        } else {
            panic!("unknown argument {v}");
        };
        for p in v.get("patch").and_then(|p| p.as_array()).into_iter().flatten() {
            let i = p[0].as_u64().unwrap() as usize;
            b[32 * i..32 * i + 32].copy_from_slice(&hex::decode(p[1].as_str().unwrap()).unwrap());
        }
        Some(b)
    }
    fn list(&mut self, ctx: &DASContext, v: &Value) -> Option<Vec<Option<Vec<u8>>>> {
        v.as_array().map(|a| a.iter().map(|x| self.bytes(ctx, x)).collect())
    }
}
/// What the driver of the interface gets: bytes in hex, null, or a value of another type.
fn shown(v: &Value, b: &Option<Vec<u8>>) -> Value {
    match b {
        Some(b) => json!(hex::encode(b)),
        None if v.get("js").is_some() => v.clone(),
        None => Value::Null,
    }
}
fn hexes(v: &Value, l: &Option<Vec<Option<Vec<u8>>>>) -> Value {
    match l {
        Some(l) => l.iter().enumerate().map(|(i, x)| shown(&v[i], x)).collect(),
        None => shown(v, &None),
    }
}
/// All entries of the right length, or None if the library cannot be called with them.
fn sized(v: &Option<Vec<Option<Vec<u8>>>>, n: usize) -> Option<Vec<Vec<u8>>> {
    v.as_ref()?.iter().map(|x| x.clone().filter(|b| b.len() == n)).collect()
}

pub fn main(a: &Args) -> Value {
    let cases = crate::read_cases(&a.files);
    let ctx = DASContext::default();
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.get("out", "concrete.ndjson")).expect("output"));
    let (mut agree, mut steps) = (0, 0);
    for case in &cases {
        let mut env = Env {
            blobs: case["blobs"].as_array().unwrap().iter().map(|b| hex::decode(b.as_str().unwrap()).unwrap()).collect(),
            made: HashMap::new(),
        };
        let mut entries = vec![];
        for e in case["entries"].as_array().unwrap() {
            let op = e["op"].as_str().unwrap();
            let idx: Option<Option<Vec<u64>>> = e.get("idx").map(|i| i.as_array().and_then(|l| l.iter().map(|x| x.as_str().unwrap().parse().ok()).collect()));
            let (mut r, call) = match op {
                "commit" | "compute" => {
                    let b = env.bytes(&ctx, &e["blob"]);
                    let c = b.clone().filter(|b| b.len() == 131072).map(|blob| if op == "commit" { Op::Commit { blob } } else { Op::Compute { blob } });
                    (json!({"op": op, "blob": shown(&e["blob"], &b)}), c)
                }
                "verify" => {
                    let (co, ce, pr) = (env.list(&ctx, &e["coms"]), env.list(&ctx, &e["cells"]), env.list(&ctx, &e["proofs"]));
                    let c = (|| Some(Op::Verify { coms: sized(&co, 48)?, idx: idx.clone()??, cells: sized(&ce, 2048)?, proofs: sized(&pr, 48)? }))();
                    (json!({"op": op, "coms": hexes(&e["coms"], &co), "idx": if e["idx"].is_array() { e["idx"].clone() } else { shown(&e["idx"], &None) }, "cells": hexes(&e["cells"], &ce), "proofs": hexes(&e["proofs"], &pr)}), c)
                }
                _ => {
                    let ce = env.list(&ctx, &e["cells"]);
                    let c = (|| Some(Op::Recover { idx: idx.clone()??, cells: sized(&ce, 2048)? }))();
                    (json!({"op": op, "idx": if e["idx"].is_array() { e["idx"].clone() } else { shown(&e["idx"], &None) }, "cells": hexes(&e["cells"], &ce)}), c)
                }
            };
            let api = RustApi::ref_to(&ctx);
            let got = call.as_ref().map(|c| api.run(c));
            let (kind, digest) = match &got {
                None => ("err", String::new()),
                Some(Outcome::Commitment(c)) => ("ok", hex::encode(sha2::Sha256::digest(c))),
                Some(Outcome::CellsAndProofs(c, p)) => {
                    let mut h = sha2::Sha256::new();
                    c.iter().chain(p.iter()).for_each(|x| h.update(x));
                    ("ok", hex::encode(h.finalize()))
                }
                Some(o) => (o.kind(), String::new()),
            };
            if let Some(Outcome::CellsAndProofs(c, _)) = &got {
                let mut h = sha2::Sha256::new();
                c.iter().for_each(|x| h.update(x));
                r["cells_digest"] = json!(hex::encode(h.finalize()));
            }
            r["kind"] = json!(kind);
            r["digest"] = json!(digest);
            r["callable"] = json!(got.is_some());
            steps += 1;
            agree += (e["want"] == kind) as usize;
            entries.push(r);
        }
        writeln!(out, "{}", json!({"id": case["id"], "plan": case["plan"], "shared": case["shared"], "progs": case["progs"], "entries": entries})).unwrap();
    }
    out.flush().unwrap();
    let mut samples: Vec<Value> = cases.iter().take(1).map(brief_step).collect();
    samples.iter_mut().for_each(|s| {
        s.as_object_mut().unwrap().remove("blobs");
    });
    json!({"runs": cases.len(), "steps": steps, "agree": agree, "fails": [], "samples": samples})
}
