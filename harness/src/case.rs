//! Behaviours produced from the specification: parsing, concretisation and comparison of outcomes.
use crate::util::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What one operation did, at the level of the specification.
#[derive(Clone, PartialEq, Eq)]
pub enum Outcome {
    Commitment(Vec<u8>),
    CellsAndProofs(Vec<Vec<u8>>, Vec<Vec<u8>>),
    Verified,
    InvalidProof,
    Error(String),
    Panic(String),
}
impl Outcome {
    pub fn kind(&self) -> &'static str {
        match self {
            Outcome::Commitment(_) | Outcome::CellsAndProofs(..) | Outcome::Verified => "ok",
            Outcome::InvalidProof => "invalid",
            Outcome::Error(_) => "err",
            Outcome::Panic(_) => "panic",
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Outcome::Commitment(c) => format!("commitment {}", hex::encode(c)),
            Outcome::CellsAndProofs(c, p) => format!("{} cells, {} proofs", c.len(), p.len()),
            Outcome::Verified => "accepted".into(),
            Outcome::InvalidProof => "rejected: invalid proof".into(),
            Outcome::Error(e) => format!("error: {}", &e[..e.len().min(200)]),
            Outcome::Panic(e) => format!("PANIC: {e}"),
        }
    }
    pub fn digest(&self) -> String {
        use sha2::Digest;
        let mut h = sha2::Sha256::new();
        match self {
            Outcome::Commitment(c) => { h.update(b"c"); h.update(c) }
            Outcome::CellsAndProofs(c, p) => {
                h.update(b"cp");
                for x in c { h.update((x.len() as u64).to_be_bytes()); h.update(x) }
                for x in p { h.update((x.len() as u64).to_be_bytes()); h.update(x) }
            }
            Outcome::Verified => return "ok".into(),
            Outcome::InvalidProof => return "invalid".into(),
            Outcome::Error(_) => return "err".into(),
            Outcome::Panic(_) => return "panic".into(),
        }
        hex::encode(&h.finalize()[..16])
    }
}

/// A concrete operation.
#[derive(Clone)]
pub enum Op {
    Commit { blob: Vec<u8> },
    Compute { blob: Vec<u8> },
    Verify { coms: Vec<Vec<u8>>, idx: Vec<u64>, cells: Vec<Vec<u8>>, proofs: Vec<Vec<u8>> },
    Recover { idx: Vec<u64>, cells: Vec<Vec<u8>> },
}

pub trait Api {
    fn run(&self, op: &Op) -> Outcome;
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}
pub fn guarded(f: impl FnOnce() -> Outcome) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(e) => Outcome::Panic(panic_msg(e)),
    }
}

pub struct RustApi(pub rust_eth_kzg::DASContext);
fn arr<const N: usize>(v: &[u8]) -> &[u8; N] {
    v.try_into().expect("size fixed by the type of the API")
}
impl RustApi {
    pub fn ref_to(c: &rust_eth_kzg::DASContext) -> RustRef<'_> {
        RustRef(c)
    }
}
pub struct RustRef<'a>(&'a rust_eth_kzg::DASContext);
impl Api for RustApi {
    fn run(&self, op: &Op) -> Outcome {
        RustRef(&self.0).run(op)
    }
}
impl Api for RustRef<'_> {
    fn run(&self, op: &Op) -> Outcome {
        let c = self.0;
        guarded(|| match op {
            Op::Commit { blob } => match c.blob_to_kzg_commitment(arr(blob)) {
                Ok(x) => Outcome::Commitment(x.to_vec()),
                Err(e) => err_outcome(e),
            },
            Op::Compute { blob } => match c.compute_cells_and_kzg_proofs(arr(blob)) {
                Ok((c, p)) => cells_proofs(&c, &p),
                Err(e) => err_outcome(e),
            },
            Op::Verify { coms, idx, cells, proofs } => match c.verify_cell_kzg_proof_batch(
                coms.iter().map(|x| arr(x)).collect(),
                idx.clone(),
                cells.iter().map(|x| arr(x)).collect(),
                proofs.iter().map(|x| arr(x)).collect(),
            ) {
                Ok(()) => Outcome::Verified,
                Err(e) => err_outcome(e),
            },
            Op::Recover { idx, cells } => {
                match c.recover_cells_and_kzg_proofs(idx.clone(), cells.iter().map(|x| arr(x)).collect()) {
                    Ok((c, p)) => cells_proofs(&c, &p),
                    Err(e) => err_outcome(e),
                }
            }
        })
    }
}
fn cells_proofs(c: &[rust_eth_kzg::Cell], p: &[rust_eth_kzg::KZGProof]) -> Outcome {
    Outcome::CellsAndProofs(c.iter().map(|x| x.to_vec()).collect(), p.iter().map(|x| x.to_vec()).collect())
}
fn err_outcome(e: rust_eth_kzg::Error) -> Outcome {
    if e.invalid_proof() {
        Outcome::InvalidProof
    } else {
        Outcome::Error(format!("{e:?}"))
    }
}

// ---------- concretisation ----------
fn u64_of(v: &Value) -> u64 {
    match v {
        Value::String(s) => s.parse().expect("u64"),
        v => v.as_u64().expect("u64"),
    }
}
/// A hex string, or "$name" for an entry of the behaviour's definitions, or
/// {"base": hex, "patch": [[scalar position, hex32], ...]}.
pub fn bytes(v: &Value, defs: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => {
            if let Some(r) = s.strip_prefix('$') {
                bytes(&defs[r], &Value::Null)
            } else {
                hex::decode(s).expect("hex")
            }
        }
        Value::Object(o) => {
            let mut b = bytes(&o["base"], defs);
            for p in o["patch"].as_array().unwrap() {
                let i = p[0].as_u64().unwrap() as usize;
                let x = hex::decode(p[1].as_str().unwrap()).expect("hex");
                b[32 * i..32 * i + 32].copy_from_slice(&x);
            }
            b
        }
        _ => panic!("bad byte string {v}"),
    }
}
fn def_bytes(name: &str, defs: &Value) -> std::rc::Rc<Vec<u8>> {
    thread_local!(static LAST: std::cell::RefCell<std::collections::HashMap<(usize, String), std::rc::Rc<Vec<u8>>>> = Default::default());
    let key = (defs as *const Value as usize, name.to_string());
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() > 16 {
            l.clear();
        }
        l.entry(key).or_insert_with(|| std::rc::Rc::new(hex::decode(defs[name.trim_start_matches('$')].as_str().unwrap()).expect("hex"))).clone()
    })
}
fn list<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> {
    v.as_array().expect("list").iter().map(f).collect()
}
/// list of 48-byte encodings; strings may be "$name"
fn points(v: &Value, defs: &Value) -> Vec<Vec<u8>> {
    list(v, |x| {
        let s = x.as_str().unwrap();
        if let Some(r) = s.strip_prefix('$') {
            enc48(defs[r].as_str().unwrap())
        } else {
            enc48(s)
        }
    })
}
fn chunks(b: Vec<u8>, n: usize) -> Vec<Vec<u8>> {
    b.chunks(n).map(|x| x.to_vec()).collect()
}
/// Cells: list of byte strings, or one string "all:<hex>" split in 2048-byte pieces
fn cells_of(v: &Value, defs: &Value) -> Vec<Vec<u8>> {
    list(v, |x| bytes(x, defs))
}
type Batch = (Vec<Vec<u8>>, Vec<u64>, Vec<Vec<u8>>, Vec<Vec<u8>>);
/// The concrete side of a behaviour: the batch that edits act on.
#[derive(Default)]
pub struct State {
    cur: Batch,
    saved: Batch,
}
fn take<T: Clone>(v: &[T], p: &[usize]) -> Vec<T> {
    p.iter().map(|&i| v[i].clone()).collect()
}
impl State {
    fn edit(&mut self, e: &Value, defs: &Value) {
        let b = &mut self.cur;
        let at = || e[1].as_u64().unwrap() as usize;
        match e[0].as_str().unwrap() {
            "load" => {
                *b = (points(&e[1]["coms"], defs), list(&e[1]["idx"], u64_of), cells_of(&e[1]["cells"], defs), points(&e[1]["proofs"], defs));
                self.saved = b.clone();
            }
            "com" => b.0[at()] = enc48(e[2].as_str().unwrap()),
            "idx" => b.1[at()] = u64_of(&e[2]),
            "cell" => b.2[at()] = bytes(&e[2], defs),
            "proof" => b.3[at()] = enc48(e[2].as_str().unwrap()),
            "rows" => {
                let p: Vec<usize> = e[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                *b = (take(&b.0, &p), take(&b.1, &p), take(&b.2, &p), take(&b.3, &p));
            }
            "restore" => *b = self.saved.clone(),
            "save" => self.saved = b.clone(),
            x @ ("pop" | "dup" | "clear") => {
                fn go<T: Clone>(v: &mut Vec<T>, x: &str) {
                    match x {
                        "pop" => { v.pop(); }
                        "clear" => v.clear(),
                        _ => { if let Some(l) = v.last().cloned() { v.push(l) } }
                    }
                }
                match e[1].as_str().unwrap() {
                    "coms" => go(&mut b.0, x),
                    "idx" => go(&mut b.1, x),
                    "cells" => go(&mut b.2, x),
                    _ => go(&mut b.3, x),
                }
            }
            o => panic!("unknown edit {o}"),
        }
    }
}
pub fn op_of(step: &Value, defs: &Value, st: &mut State) -> Op {
    match step["op"].as_str().unwrap() {
        "vedit" => {
            for e in step["edits"].as_array().unwrap() {
                st.edit(e, defs);
            }
            let (coms, idx, cells, proofs) = st.cur.clone();
            Op::Verify { coms, idx, cells, proofs }
        }
        "commit" => Op::Commit { blob: bytes(&step["blob"], defs) },
        "compute" => Op::Compute { blob: bytes(&step["blob"], defs) },
        "verify" => {
            // optional repetition: "rep" = list of 0-based row numbers to take
            let mut coms = points(&step["coms"], defs);
            let mut idx = list(&step["idx"], u64_of);
            let mut cells = cells_of(&step["cells"], defs);
            let mut proofs = points(&step["proofs"], defs);
            if let Some(r) = step.get("rep").and_then(|r| r.as_array()) {
                let r: Vec<usize> = r.iter().map(|x| x.as_u64().unwrap() as usize).collect();
                coms = r.iter().map(|&i| coms[i].clone()).collect();
                idx = r.iter().map(|&i| idx[i]).collect();
                cells = r.iter().map(|&i| cells[i].clone()).collect();
                proofs = r.iter().map(|&i| proofs[i].clone()).collect();
            }
            Op::Verify { coms, idx, cells, proofs }
        }
        "recover" => {
            let idx = list(&step["idx"], u64_of);
            // either explicit cells or, for each entry, the cell number in the extended blob "ext"
            let cells = if let Some(pick) = step.get("pick") {
                // [definition, cell number] or [definition, cell number, [[scalar position, hex32], ...]]
                list(pick, |e| {
                    let k = e[1].as_u64().unwrap() as usize;
                    let all = def_bytes(e[0].as_str().unwrap(), defs);
                    let mut b = all[2048 * k..2048 * (k + 1)].to_vec();
                    if let Some(ps) = e.get(2).and_then(|x| x.as_array()) {
                        for p in ps {
                            let i = p[0].as_u64().unwrap() as usize;
                            b[32 * i..32 * i + 32].copy_from_slice(&hex::decode(p[1].as_str().unwrap()).expect("hex"));
                        }
                    }
                    b
                })
            } else if let Some(ext) = step.get("ext") {
                let all = chunks(bytes(ext, defs), 2048);
                let from = step.get("from").map(|f| list(f, u64_of)).unwrap_or_else(|| idx.clone());
                let mut cs: Vec<Vec<u8>> = from.iter().map(|&i| all[i as usize].clone()).collect();
                if let Some(ps) = step.get("patch").and_then(|p| p.as_array()) {
                    // [entry, scalar position, hex32]
                    for p in ps {
                        let e = p[0].as_u64().unwrap() as usize;
                        let j = p[1].as_u64().unwrap() as usize;
                        cs[e][32 * j..32 * j + 32].copy_from_slice(&hex::decode(p[2].as_str().unwrap()).unwrap());
                    }
                }
                cs
            } else {
                cells_of(&step["cells"], defs)
            };
            Op::Recover { idx, cells }
        }
        o => panic!("unknown op {o}"),
    }
}
pub enum Expect {
    Exact(Outcome),
    Kind(&'static str),
    OneOf(Vec<String>),
}
pub fn expect_of(step: &Value, defs: &Value, tau: &str) -> Expect {
    let e = &step["exp"];
    let r = e["r"].as_str().unwrap();
    let st = || setup(tau);
    match (r, step["op"].as_str().unwrap()) {
        ("ok", "verify" | "vedit") => Expect::Exact(Outcome::Verified),
        ("invalid", _) => Expect::Exact(Outcome::InvalidProof),
        ("err", _) => Expect::Kind("err"),
        ("ok", "commit") => Expect::Exact(Outcome::Commitment(group_list(&e["com"], &st)[0].clone())),
        ("ok", _) => {
            let cells = chunks(bytes(&e["cells"], defs), 2048);
            let pr = match &e["proofs"] {
                Value::String(s) if s.starts_with('$') => &defs[&s[1..]],
                v => v,
            };
            Expect::Exact(Outcome::CellsAndProofs(cells, group_list(pr, &st)))
        }
        _ => Expect::OneOf(r.split('|').map(|s| s.to_string()).collect()),
    }
}
/// Group elements: one string of concatenated discrete logarithms, or a list of linear forms [[exp, coef],...].
fn group_list(v: &Value, st: &dyn Fn() -> std::sync::Arc<SetupHex>) -> Vec<Vec<u8>> {
    match v {
        Value::String(s) => scalars(s).iter().map(|x| g1c(x).to_vec()).collect(),
        Value::Array(a) => {
            let st = st();
            a.iter()
                .map(|lf| {
                    let terms: Vec<(usize, blstrs::Scalar)> =
                        lf.as_array().unwrap().iter().map(|t| (t[0].as_u64().unwrap() as usize, scalar(t[1].as_str().unwrap()))).collect();
                    eval_linform(&st, &terms).to_vec()
                })
                .collect()
        }
        _ => panic!("bad group element list"),
    }
}
pub fn check(exp: &Expect, got: &Outcome) -> Result<(), String> {
    match exp {
        Expect::Kind(k) => {
            if got.kind() == *k { Ok(()) } else { Err(format!("expected {k}, got {}", got.brief())) }
        }
        Expect::OneOf(ks) => {
            if ks.iter().any(|k| k == got.kind()) { Ok(()) } else { Err(format!("expected one of {ks:?}, got {}", got.brief())) }
        }
        Expect::Exact(want) => {
            if want == got {
                return Ok(());
            }
            if let (Outcome::CellsAndProofs(a, b), Outcome::CellsAndProofs(c, d)) = (want, got) {
                if a.len() != c.len() || b.len() != d.len() {
                    return Err(format!("expected {}, got {}", want.brief(), got.brief()));
                }
                let bc: Vec<usize> = (0..a.len()).filter(|&i| a[i] != c[i]).collect();
                let bp: Vec<usize> = (0..b.len()).filter(|&i| b[i] != d[i]).collect();
                return Err(format!("cells differ at {bc:?}; proofs differ at {bp:?}"));
            }
            Err(format!("expected {}, got {}", want.brief(), got.brief()))
        }
    }
}
/// Which part of the outcome a property speaks about; the rest is not compared.
pub fn project(o: &Outcome, aspect: &str) -> Outcome {
    match (o, aspect) {
        (Outcome::CellsAndProofs(c, _), "cells") => Outcome::CellsAndProofs(c.clone(), vec![]),
        (Outcome::CellsAndProofs(_, p), "proofs") => Outcome::CellsAndProofs(vec![], p.clone()),
        (o, _) => o.clone(),
    }
}
pub fn brief_step(step: &Value) -> Value {
    let mut s = step.clone();
    fn short(v: &mut Value) {
        match v {
            Value::String(x) if x.len() > 80 => *v = json!(format!("{}...({} chars)", &x[..32], x.len())),
            Value::Array(a) => {
                if a.len() > 12 {
                    let n = a.len();
                    a.truncate(6);
                    a.push(json!(format!("...({n} entries)")));
                }
                a.iter_mut().for_each(short)
            }
            Value::Object(o) => o.values_mut().for_each(short),
            _ => {}
        }
    }
    short(&mut s);
    s
}
