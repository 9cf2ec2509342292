//! Replays behaviours of the library specifications: polynomial and transform operations, multi-scalar
//! multiplication, Reed-Solomon coding, multi-point openings for arbitrary parameters.
use crate::case::{brief_step, panic_msg};
use crate::util::*;
use crate::Args;
use bls12_381::{
    batch_addition::{batch_addition_binary_tree_stride, multi_batch_addition_binary_tree_stride},
    batch_inversion::batch_inverse,
    fixed_base_msm::{FixedBaseMSM, FixedBaseMSMPrecompBLST, UsePrecomp},
    fixed_base_msm_window::FixedBaseMSMPrecompWindow,
    g1_batch_normalize, g2_batch_normalize, multi_pairings, reduce_bytes_to_scalar_bias,
    batch_inversion::batch_inverse_scratch_pad, G2Prepared,
    lincomb::*,
};
use blstrs::{G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use erasure_codes::{BlockErasureIndices, ReedSolomon};
use group::{Curve, Group};
use kzg_multi_open::{commit_key::CommitKey, recover_evaluations_in_domain_order, verification_key::VerificationKey, Prover, ProverInput, Verifier};
use polynomial::{domain::Domain, poly_coeff::*, CosetFFT};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(PartialEq, Debug)]
enum Out {
    /// scalars
    S(Vec<Scalar>),
    /// a polynomial: leading zero coefficients do not matter
    P(Vec<Scalar>),
    /// group elements
    G(Vec<G1Affine>),
    G2(G2Affine),
    G2s(Vec<G2Affine>),
    N(Vec<u64>),
    /// proofs and evaluations
    PE(Vec<G1Affine>, Vec<Vec<Scalar>>),
    NS(Vec<u64>, Vec<Scalar>),
    None,
    Err,
    Invalid,
    Done,
    Panic(String),
}
impl Out {
    fn brief(&self) -> String {
        match self {
            Out::S(v) | Out::P(v) => format!("{} scalars [{}]", v.len(), v.iter().take(4).map(shex).collect::<Vec<_>>().join(" ")),
            Out::G(v) => format!("{} points [{}]", v.len(), v.iter().take(3).map(|p| hex::encode(&p.to_compressed()[..12])).collect::<Vec<_>>().join(" ")),
            Out::PE(p, e) => format!("{} proofs, {} cosets of {:?}", p.len(), e.len(), e.first().map(|x| x.len())),
            Out::NS(i, v) => format!("indices {i:?}, {} scalars", v.len()),
            o => format!("{o:?}"),
        }
    }
}
#[derive(Default)]
struct St {
    rs: Option<ReedSolomon>,
    prover: Option<Prover>,
    verifier: Option<Verifier>,
    win: Option<FixedBaseMSMPrecompWindow>,
    fixed: Option<FixedBaseMSM>,
    blst: Option<FixedBaseMSMPrecompBLST>,
}
fn sv(v: &Value) -> Vec<Scalar> {
    scalars(v.as_str().expect("scalars"))
}
fn num(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("number expected: {v}")) as usize
}
fn nums(v: &Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default()
}
fn pts(v: &Value) -> Vec<G1Affine> {
    sv(v).iter().map(aff).collect()
}
fn aff(s: &Scalar) -> G1Affine {
    Option::from(G1Affine::from_compressed_unchecked(&g1c(s))).unwrap()
}
fn proj(v: &Value) -> Vec<G1Projective> {
    pts(v).iter().map(G1Projective::from).collect()
}
/// The same group element with a different projective representation.
fn proj_scrambled(v: &Value) -> Vec<G1Projective> {
    let p = pts(v);
    let g = G1Projective::generator() * Scalar::from(0x1234567u64);
    p.iter().map(|x| (G1Projective::from(x) + g) - g).collect()
}
fn pts2(v: &Value) -> Vec<G2Affine> {
    sv(v).iter().map(|s| (G2Projective::generator() * s).to_affine()).collect()
}
fn affs(v: Vec<G1Projective>) -> Vec<G1Affine> {
    v.iter().map(|p| p.to_affine()).collect()
}
fn coset(step: &Value) -> CosetFFT {
    CosetFFT::new(sv(&step["g"])[0])
}
fn chunked(v: Vec<Scalar>, n: usize) -> Vec<Vec<Scalar>> {
    v.chunks(n).map(|c| c.to_vec()).collect()
}
fn precomp(w: usize) -> UsePrecomp {
    if w == 0 { UsePrecomp::No } else { UsePrecomp::Yes { width: w } }
}
type Thunk<'a> = Box<dyn FnOnce() -> Out + 'a>;

/// Arguments are prepared first; only the returned closure runs code under test.
fn op<'a>(st: &'a mut St, s: &Value) -> Thunk<'a> {
    let a = || sv(&s["a"]);
    let b = || sv(&s["b"]);
    let n = || num(&s["n"]);
    match s["op"].as_str().unwrap() {
        // ---- polynomials ----
        "add" => { let (a, b) = (a(), b()); Box::new(move || Out::S(poly_add(a, b))) }
        "sub" => { let (a, b) = (a(), b()); Box::new(move || Out::S(poly_sub(a, b))) }
        "neg" => { let a = a(); Box::new(move || Out::S(poly_neg(a))) }
        "mul" => { let (a, b) = (a(), b()); Box::new(move || Out::S(poly_mul(a, b))) }
        "eval" => { let (a, b) = (a(), b()); Box::new(move || Out::S(vec![poly_eval(&a, &b[0])])) }
        "vanish" => { let a = a(); Box::new(move || Out::S(vanishing_poly(&a))) }
        "interp" => {
            let p: Vec<_> = a().into_iter().zip(b()).collect();
            Box::new(move || match lagrange_interpolate(&p) { Some(x) => Out::S(x), None => Out::None })
        }
        "inv" => { let mut a = a(); Box::new(move || { batch_inverse(&mut a); Out::S(a) }) }
        "invpad" => {
            // one scratch pad for two lists
            let (mut a, mut b) = (a(), b());
            Box::new(move || {
                let mut pad = vec![];
                batch_inverse_scratch_pad(&mut a, &mut pad);
                batch_inverse_scratch_pad(&mut b, &mut pad);
                a.append(&mut b);
                Out::S(a)
            })
        }
        // ---- transforms ----
        "roots" => { let n = n(); Box::new(move || { let d = Domain::new(n); Out::S([d.roots, vec![d.domain_size, d.domain_size_inv, d.generator, d.generator_inv]].concat()) }) }
        "fft" => { let (n, a) = (n(), a()); Box::new(move || Out::S(Domain::new(n).fft_scalars(a))) }
        "ifft" => { let (n, a) = (n(), a()); Box::new(move || Out::S(Domain::new(n).ifft_scalars(a))) }
        "cfft" => { let (n, a, c) = (n(), a(), coset(s)); Box::new(move || Out::S(Domain::new(n).coset_fft_scalars(a, &c))) }
        "cifft" => { let (n, a, c) = (n(), a(), coset(s)); Box::new(move || Out::S(Domain::new(n).coset_ifft_scalars(a, &c))) }
        "fftg" => { let (n, a) = (n(), proj_scrambled(&s["a"])); Box::new(move || Out::G(affs(Domain::new(n).fft_g1(a)))) }
        "ifftg" => { let (n, a) = (n(), proj_scrambled(&s["a"])); Box::new(move || Out::G(affs(Domain::new(n).ifft_g1(a)))) }
        "ifftgn" => {
            let (n, a) = (n(), proj_scrambled(&s["a"]));
            let t = s["take"].as_i64().unwrap();
            Box::new(move || Out::G(affs(Domain::new(n).ifft_g1_take_n(a, if t < 0 { None } else { Some(t as usize) }))))
        }
        // ---- multi-scalar multiplication ----
        "lincomb" | "lincomb_unsafe" => {
            let (p, b) = (pts(&s["a"]), b());
            let safe = s["op"] == "lincomb";
            Box::new(move || match if safe { g1_lincomb(&p, &b) } else { g1_lincomb_unsafe(&p, &b) } { Some(x) => Out::G(vec![x.to_affine()]), None => Out::None })
        }
        "lincomb2" | "lincomb2_unsafe" => {
            let (p, b) = (pts2(&s["a"]), b());
            let safe = s["op"] == "lincomb2";
            Box::new(move || match if safe { g2_lincomb(&p, &b) } else { g2_lincomb_unsafe(&p, &b) } { Some(x) => Out::G2(x.to_affine()), None => Out::None })
        }
        "table" => {
            let (p, w) = (pts(&s["a"]), num(&s["w"]));
            Box::new(move || {
                if w > 0 { st.win = Some(FixedBaseMSMPrecompWindow::new(&p, w)) }
                st.fixed = Some(FixedBaseMSM::new(p, precomp(w)));
                Out::Done
            })
        }
        "btable" => {
            let (p, w) = (pts(&s["a"]), num(&s["w"]));
            Box::new(move || { st.blst = Some(FixedBaseMSMPrecompBLST::new(p, w)); Out::Done })
        }
        "msm" => { let b = b(); Box::new(move || Out::G(vec![st.fixed.as_ref().unwrap().msm(b).to_affine()])) }
        "msmw" => { let b = b(); Box::new(move || Out::G(vec![st.win.as_ref().unwrap().msm(&b).to_affine()])) }
        "msmb" => { let b = b(); Box::new(move || Out::G(vec![st.blst.as_ref().unwrap().msm(b).to_affine()])) }
        "batchadd" => { let p = pts(&s["a"]); Box::new(move || Out::G(vec![batch_addition_binary_tree_stride(p).to_affine()])) }
        "multiadd" => {
            let p = pts(&s["a"]);
            let mut it = p.into_iter();
            let sets: Vec<Vec<G1Affine>> = nums(&s["sizes"]).into_iter().map(|k| it.by_ref().take(k).collect()).collect();
            Box::new(move || Out::G(affs(multi_batch_addition_binary_tree_stride(sets))))
        }
        "normalize" => { let p = proj_scrambled(&s["a"]); Box::new(move || Out::G(g1_batch_normalize(&p))) }
        "normalize2" => {
            let g = G2Projective::generator() * Scalar::from(0x1234567u64);
            let p: Vec<G2Projective> = pts2(&s["a"]).iter().map(|x| (G2Projective::from(x) + g) - g).collect();
            Box::new(move || Out::G2s(g2_batch_normalize(&p)))
        }
        // ---- pairings and reduction ----
        "pair" => {
            let (p, q) = (pts(&s["a"]), pts2(&s["b"]));
            // equal points share their references, as they do where a key is used several times
            let at = |i: usize| (q.iter().position(|x| *x == q[i]).unwrap(), p.iter().position(|x| *x == p[i]).unwrap());
            let ix: Vec<(usize, usize)> = (0..p.len()).map(at).collect();
            let q: Vec<G2Prepared> = q.into_iter().map(G2Prepared::from).collect();
            Box::new(move || Out::N(vec![multi_pairings(&ix.iter().map(|(j, i)| (&p[*i], &q[*j])).collect::<Vec<_>>()) as u64]))
        }
        "reduce" => {
            let x: [u8; 32] = hex::decode(s["x"].as_str().unwrap()).unwrap().try_into().unwrap();
            Box::new(move || Out::S(vec![reduce_bytes_to_scalar_bias(x)]))
        }
        // ---- Reed-Solomon ----
        "rsnew" => {
            let (n, e, bs) = (n(), num(&s["e"]), num(&s["bs"]));
            Box::new(move || {
                let r = ReedSolomon::new(n, e, bs);
                let o = Out::N(vec![r.codeword_length() as u64, r.acceptable_num_block_erasures() as u64]);
                st.rs = Some(r);
                o
            })
        }
        "enc" => { let a = a(); Box::new(move || match st.rs.as_ref().unwrap().encode(a) { Ok(v) => Out::S(v), Err(_) => Out::Err }) }
        "dec" => {
            let (a, er) = (a(), nums(&s["er"]));
            Box::new(move || match st.rs.as_ref().unwrap().recover_polynomial_coefficient(a, BlockErasureIndices(er)) { Ok(v) => Out::S(v), Err(_) => Out::Err })
        }
        "order" => {
            let (n, idx, ev) = (n(), nums(&s["idx"]), chunked(a(), num(&s["m"])));
            Box::new(move || match recover_evaluations_in_domain_order(n, idx, ev) { Some((i, v)) => Out::NS(i.into_iter().map(|x| x as u64).collect(), v), None => Out::None })
        }
        // ---- multi-point openings ----
        "monew" => {
            let (n, m, np, ck, g2, w) = (n(), num(&s["m"]), num(&s["np"]), num(&s["ck"]), num(&s["g2"]), num(&s["w"]));
            let tau = sv(&s["tau"])[0];
            let g1s: Vec<G1Affine> = powers(&tau, ck).iter().map(aff).collect();
            let vk1: Vec<G1Affine> = g1s[..num(&s["vk"])].to_vec();
            let g2s: Vec<G2Affine> = powers(&tau, g2).iter().map(|x| (G2Projective::generator() * x).to_affine()).collect();
            Box::new(move || {
                let p = Prover::new(CommitKey::new(g1s), n, m, np, precomp(w));
                let v = Verifier::new(VerificationKey::new(vk1, g2s, m, n), np, np / m);
                let o = Out::N(vec![p.num_proofs() as u64]);
                st.prover = Some(p);
                st.verifier = Some(v);
                o
            })
        }
        "mokey" => {
            let (a, len, tau) = (a(), num(&s["len"]), sv(&s["tau"])[0]);
            let g1s: Vec<G1Affine> = powers(&tau, len).iter().map(aff).collect();
            let which = s["which"].as_str().unwrap().to_string();
            let g2s: Vec<G2Affine> = powers(&tau, if which == "v2" { len } else { 2 }).iter().map(|x| (G2Projective::generator() * x).to_affine()).collect();
            Box::new(move || match which.as_str() {
                "ck" => Out::G(vec![CommitKey::new(g1s).commit_g1(&a).to_affine()]),
                "v1" => Out::G(vec![VerificationKey::new(g1s, g2s, 1, 1).commit_g1(&a).to_affine()]),
                _ => Out::G2(VerificationKey::new(g1s, g2s, 1, 1).commit_g2(&a).to_affine()),
            })
        }
        "mocommit" => {
            let i = input(s);
            Box::new(move || Out::G(vec![st.prover.as_ref().unwrap().commit(i)]))
        }
        "moprove" => {
            let i = input(s);
            Box::new(move || { let (p, e) = st.prover.as_ref().unwrap().compute_multi_opening_proofs(i); Out::PE(p, e) })
        }
        "moverify" => {
            let coms = pts(&s["coms"]);
            let (ci, idx): (Vec<u64>, Vec<u64>) = (nums(&s["ci"]).iter().map(|&x| x as u64).collect(), nums(&s["idx"]).iter().map(|&x| x as u64).collect());
            let evals: Vec<Vec<Scalar>> = s["evals"].as_array().unwrap().iter().map(sv).collect();
            let proofs = pts(&s["proofs"]);
            Box::new(move || match st.verifier.as_ref().unwrap().verify_multi_opening(&coms, &ci, &idx, &evals, &proofs) { Ok(()) => Out::Done, Err(_) => Out::Invalid })
        }
        o => panic!("unknown operation {o}"),
    }
}
fn trim(mut v: Vec<Scalar>) -> Vec<Scalar> {
    while v.last().is_some_and(|x| bool::from(ff::Field::is_zero(x))) {
        v.pop();
    }
    v
}
fn input(s: &Value) -> ProverInput {
    if s["data"].is_string() { ProverInput::Data(sv(&s["data"])) } else { ProverInput::PolyCoeff(sv(&s["a"])) }
}
fn expected(s: &Value) -> Out {
    let e = &s["exp"];
    match e["r"].as_str().unwrap() {
        "none" => Out::None,
        "err" => Out::Err,
        "invalid" => Out::Invalid,
        "done" => Out::Done,
        "s" => Out::S(sv(&e["v"])),
        "p" => Out::P(sv(&e["v"])),
        "g" => Out::G(pts(&e["v"])),
        "g2s" => Out::G2s(pts2(&e["v"])),
        "g2" => Out::G2(pts2(&e["v"])[0]),
        "n" => Out::N(nums(&e["v"]).iter().map(|&x| x as u64).collect()),
        "pe" => Out::PE(pts(&e["p"]), e["e"].as_array().unwrap().iter().map(sv).collect()),
        "ns" => Out::NS(nums(&e["i"]).iter().map(|&x| x as u64).collect(), sv(&e["v"])),
        o => panic!("unknown expectation {o}"),
    }
}

pub fn main(a: &Args) -> Value {
    let cases = crate::read_cases(&a.files);
    let workers = a.num("workers", 8);
    let limit = a.num("steplimit", 300);
    let fails: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let (steps, next, finished) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let watch: Vec<Mutex<Option<(usize, usize, std::time::Instant)>>> = (0..workers).map(|_| Mutex::new(None)).collect();
    std::thread::scope(|sc| {
        for w in 0..workers {
            let (cases, fails, steps, next, finished, watch) = (&cases, &fails, &steps, &next, &finished, &watch);
            sc.spawn(move || {
                loop {
                    let ci = next.fetch_add(1, Ordering::SeqCst);
                    if ci >= cases.len() { break }
                    let mut st = St::default();
                    for (si, s) in cases[ci]["steps"].as_array().unwrap().iter().enumerate() {
                        let want = own(|| expected(s));
                        let f = own(|| op(unsafe { &mut *(&mut st as *mut St) }, s));
                        *watch[w].lock().unwrap() = Some((ci, si, std::time::Instant::now()));
                        let got = match catch_unwind(AssertUnwindSafe(f)) { Ok(o) => o, Err(e) => Out::Panic(panic_msg(e)) };
                        *watch[w].lock().unwrap() = None;
                        steps.fetch_add(1, Ordering::Relaxed);
                        let got = match (&want, got) {
                            (Out::P(_), Out::S(v)) => Out::P(trim(v)),
                            (_, g) => g,
                        };
                        let want = if let Out::P(v) = want { Out::P(trim(v)) } else { want };
                        if want != got {
                            let mut why = format!("{}: expected {}, got {}", s["op"].as_str().unwrap(), want.brief(), got.brief());
                            if let (Out::S(x), Out::S(y)) | (Out::P(x), Out::P(y)) = (&want, &got) {
                                let d: Vec<usize> = (0..x.len().min(y.len())).filter(|&i| x[i] != y[i]).take(8).collect();
                                why += &format!("; lengths {}/{}, differ at {d:?}", x.len(), y.len());
                            }
                            why += &format!(" ({})", brief_step(&json!({"id": cases[ci]["id"], "params": cases[ci]["params"]})));
                            fails.lock().unwrap().push(json!({"case": ci, "step": si, "why": why, "line": cases[ci]}));
                            if matches!(s["op"].as_str().unwrap(), "rsnew" | "monew" | "table" | "btable") { break }
                        }
                    }
                }
                finished.fetch_add(1, Ordering::SeqCst);
            });
        }
        let (watch, finished, cases) = (&watch, &finished, &cases);
        sc.spawn(move || loop {
            if finished.load(Ordering::SeqCst) == workers { break }
            for t in watch {
                if let Some((ci, si, t)) = *t.lock().unwrap() {
                    if t.elapsed().as_secs() as usize > limit {
                        println!("{}", json!({"fails": [{"case": ci, "step": si, "why": format!("operation did not return within {limit} s"), "line": cases[ci]}], "runs": 0, "steps": 0}));
                        std::process::exit(0);
                    }
                }
            }
            std::thread::sleep(std::time::Duration::from_millis(50));
        });
    });
    let fails = fails.into_inner().unwrap();
    json!({"runs": cases.len(), "steps": steps.load(Ordering::Relaxed), "nfails": fails.len(), "fails": fails.iter().take(20).collect::<Vec<_>>(),
        "samples": cases.iter().take(2).map(brief_step).collect::<Vec<_>>()})
}
