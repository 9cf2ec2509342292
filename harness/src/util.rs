//! Concretisation of specification values: field elements, group elements given by their discrete
//! logarithm, malformed encodings, and trusted setups with a known secret. Uses blstrs directly.
use blstrs::{G1Affine, G1Projective, G2Projective, Scalar};
use ff::{Field, PrimeField};
use group::{Curve, Group};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub fn scalar(h: &str) -> Scalar {
    let b: [u8; 32] = hex::decode(h).expect("hex").try_into().expect("32 bytes");
    Option::<Scalar>::from(Scalar::from_bytes_be(&b)).expect("canonical scalar from specification")
}
pub fn scalars(h: &str) -> Vec<Scalar> {
    assert_eq!(h.len() % 64, 0);
    (0..h.len() / 64).map(|i| scalar(&h[64 * i..64 * i + 64])).collect()
}
pub fn shex(s: &Scalar) -> String {
    hex::encode(s.to_bytes_be())
}
pub fn g1p(s: &Scalar) -> G1Projective {
    G1Projective::generator() * s
}
pub fn g1(s: &Scalar) -> G1Affine {
    g1p(s).to_affine()
}
static G1C: OnceLock<Mutex<HashMap<[u8; 32], [u8; 48]>>> = OnceLock::new();
/// Compressed encoding of [s]G1.
pub fn g1c(s: &Scalar) -> [u8; 48] {
    let c = G1C.get_or_init(Default::default);
    let k = s.to_bytes_be();
    if let Some(v) = c.lock().unwrap().get(&k) {
        return *v;
    }
    let v = g1(s).to_compressed();
    let mut m = c.lock().unwrap();
    if m.len() > 2_000_000 {
        m.clear();
    }
    m.insert(k, v);
    v
}

fn sha(parts: &[&[u8]]) -> [u8; 32] {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn prand(tag: &str, i: u64) -> [u8; 32] {
    sha(&[tag.as_bytes(), &i.to_be_bytes()])
}
/// p, the base field modulus, big-endian
pub const P_BE: &str = "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab";

fn add_be(a: &mut [u8], mut n: u64) {
    for b in a.iter_mut().rev() {
        let s = *b as u64 + (n & 0xff);
        *b = s as u8;
        n = (n >> 8) + (s >> 8);
    }
}

fn x_candidate(tag: &str, i: u64) -> [u8; 48] {
    let mut x = [0u8; 48];
    x[..32].copy_from_slice(&prand(tag, 2 * i));
    x[32..].copy_from_slice(&prand(tag, 2 * i + 1)[..16]);
    x[0] &= 0x0f; // below p
    x
}

static ORDER3: OnceLock<G1Projective> = OnceLock::new();
/// Members of the classes of malformed G1 encodings named by the specification.
pub fn malformed_g1(class: &str, n: u64) -> [u8; 48] {
    malformed_g1_at(class, n, None)
}
pub fn malformed_g1_at(class: &str, n: u64, base: Option<Scalar>) -> [u8; 48] {
    let valid = g1c(&Scalar::from(7919 + n));
    match class {
        "nocomp" => {
            let mut v = valid;
            v[0] &= 0x7f;
            v
        }
        "infflag" => {
            let mut v = valid;
            v[0] |= 0x40;
            v
        }
        "infsign" => {
            let mut v = [0u8; 48];
            v[0] = 0xe0;
            v
        }
        "infjunk" => {
            let mut v = [0u8; 48];
            v[0] = 0xc0;
            let pos = [47usize, 1, 24, 0][(n % 4) as usize];
            v[pos] |= 1;
            v
        }
        "infnocomp" => {
            let mut v = [0u8; 48];
            v[0] = 0x40;
            v
        }
        "zeros" => [0u8; 48],
        "ones" => [0xff; 48],
        "xgep" => {
            let mut v: [u8; 48] = hex::decode(P_BE).unwrap().try_into().unwrap();
            add_be(&mut v, n);
            v[0] |= if n % 2 == 0 { 0x80 } else { 0xa0 };
            v
        }
        // x = p + (x of a small valid point): reduces to a point in the subgroup if not rejected
        "xplusp" => {
            // search a subgroup point with small x
            let mut p: [u8; 48] = hex::decode(P_BE).unwrap().try_into().unwrap();
            add_be(&mut p, 4 + n);
            p[0] |= 0x80;
            p
        }
        "xmax" => {
            let mut v = [0xffu8; 48];
            v[0] = if n % 2 == 0 { 0x9f } else { 0xbf };
            v
        }
        "offcurve" => {
            let mut i = n * 1000;
            loop {
                let mut x = x_candidate("offcurve", i);
                x[0] |= 0x80;
                if bool::from(G1Affine::from_compressed_unchecked(&x).is_none()) {
                    return x;
                }
                i += 1;
            }
        }
        "notsub" => {
            let mut i = n * 1000;
            loop {
                let mut x = x_candidate("notsub", i);
                x[0] |= 0x80;
                if bool::from(G1Affine::from_compressed_unchecked(&x).is_some())
                    && bool::from(G1Affine::from_compressed(&x).is_none())
                {
                    return x;
                }
                i += 1;
            }
        }
        // the points (0, +-2) of order 3
        "order3" => {
            let mut v = [0u8; 48];
            v[0] = if n % 2 == 0 { 0x80 } else { 0xa0 };
            v
        }
        // a subgroup point plus a point whose order divides the cofactor
        "torsion" => (g1p(&Scalar::from(1_000_003 + n)) + torsion_g1(n)).to_affine().to_compressed(),
        // a given subgroup point displaced by a point outside the subgroup (of order 3 when asked)
        "torsion+" | "torsion-" | "third+" | "third-" => {
            let (t, sign) = class.split_at(class.len() - 1);
            let t = if t == "third" { *ORDER3.get_or_init(order3_g1) } else { torsion_g1(n) };
            let p = g1p(&base.unwrap_or(Scalar::ZERO));
            (if sign == "+" { p + t } else { p - t }).to_affine().to_compressed()
        }
        "uncompressed" => {
            let u = g1(&Scalar::from(31 + n)).to_uncompressed();
            u[..48].try_into().unwrap()
        }
        other => panic!("unknown malformed class {other}"),
    }
}

/// A point whose order divides the cofactor, of order 3 when asked.
pub fn torsion_g1(n: u64) -> G1Projective {
    let q: G1Affine = Option::from(G1Affine::from_compressed_unchecked(&malformed_g1("notsub", n))).expect("on the curve");
    let q = G1Projective::from(q);
    // [r]q by double-and-add (the library's multiplication assumes the subgroup)
    let mut t = G1Projective::identity();
    for b in (Scalar::ZERO - Scalar::ONE).to_bytes_be() {
        for i in (0..8).rev() {
            t = t.double();
            if b >> i & 1 == 1 {
                t += q;
            }
        }
    }
    t += q;
    assert!(!bool::from(t.is_identity()));
    t
}
/// The point (0, 2), of order 3: blst decodes it only in uncompressed form, so it is made from the torsion part.
pub fn order3_g1() -> G1Projective {
    // cofactor of G1 divided by 3
    const H3: u128 = 0x396c8c005555e1568c00aaab0000aaab / 3;
    for n in 0.. {
        let q = torsion_g1(n);
        let mut t = G1Projective::identity();
        for i in (0..128).rev() {
            t = t.double();
            if H3 >> i & 1 == 1 {
                t += q;
            }
        }
        if !bool::from(t.is_identity()) {
            assert!(bool::from((t.double() + t).is_identity()));
            return t;
        }
    }
    unreachable!()
}
/// "d:<hex>" discrete logarithm, "x:<hex>" raw bytes, "m:<class>:<n>" malformed; a bare 64-digit string is a discrete logarithm.
pub fn enc48(s: &str) -> Vec<u8> {
    if let Some(r) = s.strip_prefix("d:") {
        g1c(&scalar(r)).to_vec()
    } else if let Some(r) = s.strip_prefix("x:") {
        hex::decode(r).expect("hex")
    } else if let Some(r) = s.strip_prefix("m:") {
        let f: Vec<&str> = r.split(':').collect();
        malformed_g1_at(f[0], f[1].parse().unwrap(), f.get(2).map(|h| scalar(h))).to_vec()
    } else {
        g1c(&scalar(s)).to_vec()
    }
}

/// Hex strings of the powers of tau.
#[derive(Clone)]
pub struct SetupHex {
    pub g1_monomial: Vec<String>,
    pub g1_lagrange: Vec<String>,
    pub g2_monomial: Vec<String>,
}

pub fn powers(x: &Scalar, n: usize) -> Vec<Scalar> {
    let mut v = Vec::with_capacity(n);
    let mut a = Scalar::ONE;
    for _ in 0..n {
        v.push(a);
        a *= x;
    }
    v
}
fn par_map<T: Send, U: Sync>(xs: &[U], f: impl Fn(&U) -> T + Sync) -> Vec<T> {
    let nt = 8;
    let chunk = xs.len().div_ceil(nt).max(1);
    std::thread::scope(|s| {
        let hs: Vec<_> = xs.chunks(chunk).map(|c| { let f = &f; s.spawn(move || c.iter().map(f).collect::<Vec<_>>()) }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    })
}
pub fn root_of_unity(n: usize) -> Scalar {
    // 7^((r-1)/n)
    let mut w = Scalar::ROOT_OF_UNITY;
    let mut k = 1u64 << Scalar::S;
    while k > n as u64 {
        w = w.square();
        k /= 2;
    }
    w
}
pub fn make_setup(tau: &Scalar, n: usize, n2: usize) -> SetupHex {
    let pw = powers(tau, n);
    let hx = |b: &[u8]| format!("0x{}", hex::encode(b));
    let g1_monomial = par_map(&pw, |s| hx(&g1(s).to_compressed()));
    // Lagrange basis in natural order: L_i(tau) = (tau^n - 1)/n * w^i / (tau - w^i)
    let w = root_of_unity(n);
    let ws = powers(&w, n);
    let tn = (tau.pow_vartime([n as u64]) - Scalar::ONE) * Scalar::from(n as u64).invert().unwrap();
    let ls: Vec<Scalar> = ws
        .iter()
        .map(|wi| match Option::<Scalar>::from((*tau - wi).invert()) {
            Some(inv) => tn * wi * inv,
            None => Scalar::ONE,
        })
        .collect();
    let g1_lagrange = par_map(&ls, |s| hx(&g1(s).to_compressed()));
    let g2_monomial = par_map(&powers(tau, n2), |s| hx(&(G2Projective::generator() * s).to_affine().to_compressed()));
    SetupHex { g1_monomial, g1_lagrange, g2_monomial }
}
pub fn to_trusted(s: &SetupHex) -> rust_eth_kzg::TrustedSetup {
    rust_eth_kzg::TrustedSetup {
        g1_monomial: s.g1_monomial.clone(),
        g1_lagrange: s.g1_lagrange.clone(),
        g2_monomial: s.g2_monomial.clone(),
    }
}
static SETUPS: OnceLock<Mutex<HashMap<String, Arc<SetupHex>>>> = OnceLock::new();
/// Setup for the secret tau (hex), or "mainnet".
pub fn setup(tau: &str) -> Arc<SetupHex> {
    let m = SETUPS.get_or_init(Default::default);
    let mut m = m.lock().unwrap();
    if let Some(s) = m.get(tau) {
        return s.clone();
    }
    let s = if tau == "mainnet" {
        let t = rust_eth_kzg::TrustedSetup::default();
        SetupHex { g1_monomial: t.g1_monomial, g1_lagrange: t.g1_lagrange, g2_monomial: t.g2_monomial }
    } else {
        make_setup(&scalar(tau), 4096, 65)
    };
    let s = Arc::new(s);
    m.insert(tau.to_string(), s.clone());
    s
}
/// Value of a linear form sum c_i [tau^i] under the setup, by plain additions and multiplications.
pub fn eval_linform(st: &SetupHex, terms: &[(usize, Scalar)]) -> [u8; 48] {
    let mut acc = G1Projective::identity();
    for (e, c) in terms {
        let b: [u8; 48] = hex::decode(&st.g1_monomial[*e][2..]).unwrap().try_into().unwrap();
        let p: G1Affine = Option::from(G1Affine::from_compressed(&b)).expect("setup point");
        acc += G1Projective::from(p) * c;
    }
    acc.to_affine().to_compressed()
}

/// Harness code: a panic here (calls into the code under test are caught where they are made) is a defect of the harness.
pub fn own<T>(f: impl FnOnce() -> T) -> T {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("harness panicked: {}", crate::case::panic_msg(e));
            std::process::exit(3);
        }
    }
}
