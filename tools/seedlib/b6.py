from seed import bug
import b1common as c
PRE = c.PRE
BL = "cryptography/bls12_381/src/lib.rs"

bug("c24-repeated-pair", "C24",
 [(BL, "    let pairing_ = blstrs::Bls12::multi_miller_loop(pairs).final_exponentiation();\n",
   "    // The Miller loop is the expensive part, do not run it twice for the same pair\n    let mut distinct: Vec<(&G1Point, &blstrs::G2Prepared)> = Vec::with_capacity(pairs.len());\n    for (p, q) in pairs {\n        if !distinct.iter().any(|(a, b)| a == p && std::ptr::eq(*b, *q)) {\n            distinct.push((*p, *q));\n        }\n    }\n    let pairing_ = blstrs::Bls12::multi_miller_loop(&distinct).final_exponentiation();\n")],
 PRE + r"""
use bls12_381::{multi_pairings, G2Point, G2Projective, G2Prepared};
fn main() {
    let p: G1Point = (G1Projective::generator() * sc(3)).into(); let m: G1Point = (-(G1Projective::generator() * sc(3)).double()).into();
    let q = G2Prepared::from(G2Point::from(G2Projective::generator() * sc(4)));
    must(multi_pairings(&[(&p, &q), (&p, &q), (&m, &q)]), "P + P - 2P against one point");
}""", "a product of pairings in which a pair occurs twice", "the second occurrence does not count")

bug("c24-some-identities", "C24",
 [(BL, "    let mut affine_points = vec![T::identity(); points.len()];\n    T::Curve::batch_normalize(points, &mut affine_points);\n    affine_points\n",
   "    let mut affine_points = vec![T::identity(); points.len()];\n    // The points at infinity need no normalization, they are left as they are.\n    let finite: Vec<T::Curve> = points\n        .iter()\n        .filter(|point| !bool::from(group::Group::is_identity(*point)))\n        .copied()\n        .collect();\n    T::Curve::batch_normalize(&finite, &mut affine_points[..finite.len()]);\n    affine_points\n")],
 PRE + r"""
use bls12_381::g1_batch_normalize;
fn main() {
    let p = G1Projective::generator() * sc(3);
    let n = g1_batch_normalize(&[p, G1Projective::identity(), p.double()]);
    must(G1Projective::from(n[0]) == p && G1Projective::from(n[1]) == G1Projective::identity() && G1Projective::from(n[2]) == p.double(), "normalising P, 0, 2P");
}""", "a list of points with the identity before another point", "the points behind the identity move")

bug("c24-zero-limb", "C24",
 [(BL, "    let mut out = blst::blst_fr::default();\n\n    unsafe {\n        // Convert byte array into a scalar\n        let mut s = blst::blst_scalar::default();\n        blst::blst_scalar_from_bendian(&mut s, &bytes as *const u8);\n        // Convert scalar into a `blst_fr` reducing the value along the way\n        blst::blst_fr_from_scalar(&mut out, &s as *const blst::blst_scalar);\n    }\n\n    Scalar::from(out)\n",
   "    // Horner over the 64-bit limbs, starting at the first one that is not zero\n    let radix = Scalar::from(u64::MAX) + Scalar::from(1u64);\n    bytes\n        .chunks_exact(8)\n        .map(|limb| u64::from_be_bytes(limb.try_into().expect(\"infallible: chunks of 8 bytes\")))\n        .filter(|limb| *limb != 0)\n        .fold(Scalar::from(0u64), |acc, limb| acc * radix + Scalar::from(limb))\n")],
 PRE + r"""
use bls12_381::reduce_bytes_to_scalar_bias;
fn main() {
    let mut x = [0u8; 32]; x[7] = 9; x[31] = 1;
    must(reduce_bytes_to_scalar_bias(x) == Scalar::from_bytes_be(&x).unwrap(), "9 * 2^192 + 1");
}""", "32 bytes with a 64-bit limb of zeros behind a non-zero one", "the limbs in front of it are shifted")
