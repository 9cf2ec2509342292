//! Loads trusted setups written by the specification through the public loaders and asks the resulting context.
use crate::case::*;
use crate::util::*;
use crate::Args;
use blstrs::{G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use ff::Field;
use group::{prime::PrimeCurveAffine, Curve, Group};
use rust_eth_kzg::{DASContext, TrustedSetup, UsePrecomp};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn plus(hex_p: &str, n: u64) -> [u8; 48] {
    let mut v: [u8; 48] = hex::decode(hex_p).unwrap().try_into().unwrap();
    let mut n = n;
    for b in v.iter_mut().rev() {
        let s = *b as u64 + (n & 0xff);
        *b = s as u8;
        n = (n >> 8) + (s >> 8);
    }
    v
}
fn g2c(s: &Scalar) -> [u8; 96] {
    (G2Projective::generator() * s).to_affine().to_compressed()
}
fn candidate(tag: &str, i: u64) -> [u8; 96] {
    let mut v = [0u8; 96];
    for k in 0..3 {
        v[32 * k..32 * k + 32].copy_from_slice(&prand(tag, 3 * i + k as u64));
    }
    v[0] = 0x80 | (v[0] & 0x2f);
    v[0] &= 0xaf;
    v[48] &= 0x0f;
    v
}
/// Classes of malformed encodings of the second group.
fn malformed_g2(class: &str, n: u64) -> [u8; 96] {
    let valid = g2c(&Scalar::from(7919 + n));
    let mut v = valid;
    match class {
        "nocomp" => v[0] &= 0x7f,
        "infflag" => v[0] |= 0x40,
        "infsign" => { v = [0; 96]; v[0] = 0xe0 }
        "infjunk" => { v = [0; 96]; v[0] = 0xc0; v[[95usize, 1, 47, 48][(n % 4) as usize]] |= 1 }
        "infnocomp" => { v = [0; 96]; v[0] = 0x40 }
        "zeros" => v = [0; 96],
        "ones" => v = [0xff; 96],
        "c1gep" => { v[..48].copy_from_slice(&plus(P_BE, n)); v[0] |= 0x80 }
        "c0gep" => v[48..].copy_from_slice(&plus(P_BE, n)),
        // the second coordinate of a valid point plus p, where that fits
        "c0plusp" => {
            let w = g2c(&Scalar::from(7919 + n));
            let mut c = 0u32;
            let p = hex::decode(P_BE).unwrap();
            v = w;
            for i in (0..48).rev() {
                let s = w[48 + i] as u32 + p[i] as u32 + c;
                v[48 + i] = s as u8;
                c = s >> 8;
            }
        }
        "uncompressed" => v.copy_from_slice(&(G2Projective::generator() * Scalar::from(31 + n)).to_affine().to_uncompressed()[..96]),
        "offcurve" | "notsub" => {
            let mut i = n * 1000;
            loop {
                v = candidate(class, i);
                let on = bool::from(G2Affine::from_compressed_unchecked(&v).is_some());
                let sub = bool::from(G2Affine::from_compressed(&v).is_some());
                if (class == "offcurve" && !on) || (class == "notsub" && on && !sub) { break }
                i += 1;
            }
        }
        "torsion" => v = (G2Projective::from(G2Affine::generator()) * Scalar::from(1_000_003 + n) + torsion_g2(n)).to_affine().to_compressed(),
        o => panic!("unknown class {o}"),
    }
    v
}
fn torsion_g2(n: u64) -> G2Projective {
    let q = G2Projective::from(Option::<G2Affine>::from(G2Affine::from_compressed_unchecked(&malformed_g2("notsub", n))).expect("on the curve"));
    let mut t = G2Projective::identity();
    for b in (Scalar::ZERO - Scalar::ONE).to_bytes_be() {
        for i in (0..8).rev() {
            t = t.double();
            if b >> i & 1 == 1 { t += q }
        }
    }
    t += q;
    assert!(!bool::from(t.is_identity()));
    t
}
/// A good point plus or minus a point outside the subgroup.
fn displaced(list: &str, class: &str, n: u64, old: &str) -> String {
    let b = hex::decode(&old[2..]).unwrap();
    let minus = class.ends_with('-');
    if list == "g1" {
        let p = G1Projective::from(Option::<G1Affine>::from(G1Affine::from_compressed(&b.try_into().unwrap())).unwrap());
        let t = if class.starts_with("third") { order3_g1() } else { torsion_g1(n) };
        let s = (if minus { p - t } else { p + t }).to_affine();
        assert!(bool::from(G1Affine::from_compressed(&s.to_compressed()).is_none()) && bool::from(G1Affine::from_compressed_unchecked(&s.to_compressed()).is_some()));
        format!("0x{}", hex::encode(s.to_compressed()))
    } else {
        let p = G2Projective::from(Option::<G2Affine>::from(G2Affine::from_compressed(&b.try_into().unwrap())).unwrap());
        let t = torsion_g2(n);
        let s = (if minus { p - t } else { p + t }).to_affine();
        assert!(bool::from(G2Affine::from_compressed(&s.to_compressed()).is_none()) && bool::from(G2Affine::from_compressed_unchecked(&s.to_compressed()).is_some()));
        format!("0x{}", hex::encode(s.to_compressed()))
    }
}
fn flawed(list: &str, class: &str, n: u64, old: &str) -> String {
    let h = |b: &[u8]| format!("0x{}", hex::encode(b));
    match class {
        "noprefix" => old[2..].to_string(),
        "short" => old[..old.len() - 2].to_string(),
        "long" => format!("{old}00"),
        "odd" => old[..old.len() - 1].to_string(),
        "nonhex" => format!("{}g{}", &old[..20], &old[21..]),
        "blank" => String::new(),
        "spaced" => format!("{old} "),
        "other group" => if list == "g1" { h(&g2c(&Scalar::from(3 + n))) } else { h(&g1c(&Scalar::from(3 + n))) },
        "part+" | "part-" | "third+" | "third-" => displaced(list, class, n, old),
        c => if list == "g1" { h(&malformed_g1(c, n)) } else { h(&malformed_g2(c, n)) },
    }
}
fn arr(l: &[String], sep: &str) -> String {
    format!("[{}]", l.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(sep))
}
fn text(s: &SetupHex, kind: &str) -> String {
    let (a, l, b) = (arr(&s.g1_monomial, ","), arr(&s.g1_lagrange, ","), arr(&s.g2_monomial, ","));
    let plain = format!("{{\"g1_monomial\":{a},\"g1_lagrange\":{l},\"g2_monomial\":{b}}}");
    match kind {
        "plain" => plain,
        "spaces" => format!("\n {{ \"g1_monomial\" : {} ,\r\n\t\"g1_lagrange\": {l},  \"g2_monomial\" :{b} }}\n\n", arr(&s.g1_monomial, " ,\n   ")),
        "reordered" => format!("{{\"g2_monomial\":{b},\"g1_monomial\":{a},\"g1_lagrange\":{l}}}"),
        "missing g1" => format!("{{\"g1_lagrange\":{l},\"g2_monomial\":{b}}}"),
        "missing g2" => format!("{{\"g1_monomial\":{a},\"g1_lagrange\":{l}}}"),
        "missing lagrange" => format!("{{\"g1_monomial\":{a},\"g2_monomial\":{b}}}"),
        "truncated" => plain[..plain.len() - 2].to_string(),
        "garbage" => "not a setup".into(),
        "empty" => String::new(),
        "array" => format!("[{a},{l},{b}]").replace('[', "{"),
        "null list" => format!("{{\"g1_monomial\":{a},\"g1_lagrange\":{l},\"g2_monomial\":null}}"),
        "number" => format!("{{\"g1_monomial\":{},\"g1_lagrange\":{l},\"g2_monomial\":{b}}}", a.replacen(&format!("\"{}\"", s.g1_monomial[1]), "7", 1)),
        "trailing" => format!("{plain}]"),
        "g1 string" => format!("{{\"g1_monomial\":\"{}\",\"g1_lagrange\":{l},\"g2_monomial\":{b}}}", s.g1_monomial[0]),
        "nested" => format!("{{\"g1_monomial\":[{a}],\"g1_lagrange\":{l},\"g2_monomial\":{b}}}"),
        o => panic!("unknown text {o}"),
    }
}
fn digest(s: &TrustedSetup) -> String {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    for l in [&s.g1_monomial, &s.g1_lagrange, &s.g2_monomial] {
        for x in l.iter() {
            h.update(hex::decode(x.trim_start_matches("0x")).unwrap_or_default());
        }
    }
    hex::encode(h.finalize())
}
fn build(st: &TrustedSetup, k: usize) -> DASContext {
    #[cfg(feature = "mt")]
    {
        use rust_eth_kzg::ThreadCount;
        DASContext::with_threads(st, if k % 2 == 0 { ThreadCount::Single } else { ThreadCount::Multi(2) }, UsePrecomp::No)
    }
    #[cfg(not(feature = "mt"))]
    {
        let _ = k;
        DASContext::new(st, UsePrecomp::No)
    }
}
fn load(case: &Value, k: usize) -> Result<DASContext, String> {
    if case["source"] == "default" {
        return catch_unwind(DASContext::default).map_err(panic_msg);
    }
    let (n1, n2) = (case["n1"].as_u64().unwrap() as usize, case["n2"].as_u64().unwrap() as usize);
    let tau = case["tau"].as_str().unwrap();
    let t = own(|| {
        let mut s = if n1 <= 4096 && n2 <= 65 { (*setup(tau)).clone() } else { make_setup_of(&scalar(tau), n1, n2) };
        s.g1_monomial.truncate(n1);
        s.g2_monomial.truncate(n2);
        for e in case["edits"].as_array().unwrap() {
            let (l, p, c, n) = (e[0].as_str().unwrap(), e[1].as_u64().unwrap() as usize, e[2].as_str().unwrap(), e[3].as_u64().unwrap());
            let list = if l == "g1" { &mut s.g1_monomial } else { &mut s.g2_monomial };
            list[p] = flawed(l, c, n, &list[p]);
        }
        text(&s, case["text"].as_str().unwrap())
    });
    catch_unwind(AssertUnwindSafe(|| {
        let st = if case["mode"] == "checked" { TrustedSetup::from_json(&t) } else { TrustedSetup::from_json_unchecked(&t) };
        build(&st, k)
    }))
    .map_err(panic_msg)
}
fn run(case: &Value, ci: usize, steps: &AtomicUsize) -> Result<(), (usize, String)> {
    let got = load(case, ci);
    let want = case["expect"].as_str().unwrap();
    let ctx = match (got, want) {
        (Err(_), "refused") => return Ok(()),
        (Ok(_), "refused") => return Err((0, format!("a setup with a flaw was loaded: {} {}", case["flaw"], case["edits"]))),
        (Err(e), _) => return Err((0, format!("an acceptable setup was refused: {} ({e})", case["flaw"]))),
        (Ok(c), _) => c,
    };
    if let Some(d) = case.get("digest") {
        let g = digest(&TrustedSetup::default());
        if d != &json!(g) {
            return Err((0, format!("the embedded setup is not the published one: {g}")));
        }
    }
    let api = RustApi(ctx);
    let tau = case["tau"].as_str().unwrap();
    let mut st = State::default();
    for (i, step) in case["steps"].as_array().unwrap().iter().enumerate() {
        let exp = own(|| expect_of(step, &case["defs"], tau));
        let got = api.run(&own(|| op_of(step, &case["defs"], &mut st)));
        steps.fetch_add(1, Ordering::Relaxed);
        check(&exp, &got).map_err(|e| (i, e))?;
        // verdicts and recovery under the same setup
        if let (Outcome::CellsAndProofs(c, p), Expect::Exact(_)) = (&got, &exp) {
            let com = match api.run(&Op::Commit { blob: own(|| bytes(&step["blob"], &case["defs"])) }) {
                Outcome::Commitment(c) => c,
                o => return Err((i, format!("no commitment: {}", o.brief()))),
            };
            let idx: Vec<u64> = (0..128).collect();
            let good = Op::Verify { coms: vec![com.clone(); 128], idx: idx.clone(), cells: c.clone(), proofs: p.clone() };
            let o = api.run(&good);
            if o != Outcome::Verified {
                return Err((i, format!("cells and proofs of the blob do not verify: {}", o.brief())));
            }
            let k = (ci * 37) % 128;
            let mut bad = c.clone();
            bad[k][2047] ^= 1;
            let o = api.run(&Op::Verify { coms: vec![com; 128], idx: idx.clone(), cells: bad, proofs: p.clone() });
            if o != Outcome::InvalidProof {
                return Err((i, format!("a batch with a changed cell is not an invalid proof: {}", o.brief())));
            }
            let half: Vec<u64> = idx.iter().copied().filter(|j| (j + ci as u64) % 2 == 0).collect();
            let o = api.run(&Op::Recover { cells: half.iter().map(|&j| c[j as usize].clone()).collect(), idx: half });
            if o != got {
                return Err((i, format!("recovery differs: {}", o.brief())));
            }
            steps.fetch_add(3, Ordering::Relaxed);
        }
    }
    Ok(())
}
fn make_setup_of(tau: &Scalar, n1: usize, n2: usize) -> SetupHex {
    let n = n1.max(4096);
    let base = make_setup(tau, 4096, n2);
    let hx = |b: &[u8]| format!("0x{}", hex::encode(b));
    let mut g1 = base.g1_monomial.clone();
    for s in powers(tau, n).iter().skip(4096) {
        g1.push(hx(&g1c(s)));
    }
    SetupHex { g1_monomial: g1, g1_lagrange: base.g1_lagrange, g2_monomial: base.g2_monomial }
}

pub fn main(a: &Args) -> Value {
    let cases = crate::read_cases(&a.files);
    let workers = a.num("workers", 8);
    let next = AtomicUsize::new(0);
    let steps = AtomicUsize::new(0);
    let fails: Mutex<Vec<Value>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= cases.len() { break }
                if let Err((st, why)) = run(&cases[i], i, &steps) {
                    fails.lock().unwrap().push(json!({"case": i, "step": st, "cfg": "", "why": format!("{why} ({}, {} loader)", cases[i]["id"], cases[i]["mode"]), "line": cases[i]}));
                }
            });
        }
    });
    let fails = fails.into_inner().unwrap();
    let samples: Vec<Value> = cases.iter().take(2).map(brief_step).collect();
    json!({"runs": cases.len(), "steps": steps.load(Ordering::Relaxed) + cases.len(), "fails": fails, "samples": samples})
}
