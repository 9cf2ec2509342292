from seed import bug
import b1common as c
PRE = c.PRE

# ---------------------------------------------------------------- C11
bug("c11-remainder-of-threads", "C11",
 [("cryptography/kzg_multi_open/src/fk20/batch_toeplitz.rs",
   "        let result: Vec<_> = (&self.precomputed_fft_vectors)\n            .maybe_par_iter()\n            .zip(msm_scalars)\n            .map(|(points, scalars)| points.msm(scalars))\n            .collect();\n",
   "        // Give every worker one contiguous share of the inner products.\n        let num_msms = msm_scalars.len();\n        let share = (num_msms / num_workers()).max(1);\n        let shares: Vec<Vec<_>> = msm_scalars.chunks(share).map(<[_]>::to_vec).collect();\n        let mut result: Vec<_> = shares\n            .maybe_into_par_iter()\n            .enumerate()\n            .take(num_workers().min(num_msms))\n            .map(|(i, scalars)| {\n                self.precomputed_fft_vectors[i * share..]\n                    .iter()\n                    .zip(scalars)\n                    .map(|(points, scalars)| points.msm(scalars))\n                    .collect::<Vec<_>>()\n            })\n            .collect::<Vec<_>>()\n            .concat();\n        result.resize(num_msms, bls12_381::group::Group::identity());\n"),
  ("cryptography/kzg_multi_open/src/fk20/batch_toeplitz.rs", "/// Transposes a 2D matrix\n", "/// The number of threads that share the work\nfn num_workers() -> usize {\n    #[cfg(feature = \"multithreaded\")]\n    return maybe_rayon::current_num_threads();\n    #[cfg(not(feature = \"multithreaded\"))]\n    1\n}\n\n/// Transposes a 2D matrix\n"),
  ("maybe_rayon/src/lib.rs", "pub use multi_threaded::*;", "pub use {multi_threaded::*, rayon::current_num_threads};"),
 ],
 PRE + r'''
fn main() {
    let t = ts(); let p: Vec<Scalar> = (0..4096).map(|i| sc(i as u64)).collect();
    let a = ctx().compute_cells_and_kzg_proofs(b(&blob(&p))).unwrap();
    let w = DASContext::with_threads(&t, ThreadCount::Multi(3), UsePrecomp::No).compute_cells_and_kzg_proofs(b(&blob(&p))).unwrap();
    must(a.1 == w.1, "proofs with three threads");
}''', "a number of threads that does not divide 128", "the inner products left over by the division among threads are dropped, so proofs are wrong")

bug("c11-wide-window", "C11",
 [("cryptography/bls12_381/src/booth_encoding.rs", "    // fill into a u32\n    let mut v: [u8; 4] = [0; 4];\n    for (dst, src) in v.iter_mut().zip(el.iter().skip(skip_bytes)) {\n        *dst = *src\n    }\n    let mut tmp = u32::from_le_bytes(v);\n",
   "    // fill into a u16, a window does not span more than two bytes\n    let mut v: [u8; 2] = [0; 2];\n    for (dst, src) in v.iter_mut().zip(el.iter().skip(skip_bytes)) {\n        *dst = *src\n    }\n    let mut tmp = u32::from(u16::from_le_bytes(v));\n")],
 PRE + r'''
fn main() {
    let t = ts(); let p: Vec<Scalar> = (0..4096).map(|i| sc(i as u64)).collect();
    let a = ctx().compute_cells_and_kzg_proofs(b(&blob(&p))).unwrap();
    let w = DASContext::with_threads(&t, ThreadCount::Multi(4), UsePrecomp::Yes { width: 9 }).compute_cells_and_kzg_proofs(b(&blob(&p))).unwrap();
    must(a.1 == w.1, "proofs with precomputation width 9");
}''', "precomputation with a window of nine or more bits", "windows that span three bytes lose bits, so proofs are wrong")

# ---------------------------------------------------------------- C12
bug("c12-memo-partial-key", "C12",
 [("cryptography/erasure_codes/src/reed_solomon.rs", "    fft_coset_gen: CosetFFT,\n}\n\nimpl ReedSolomon {", "    fft_coset_gen: CosetFFT,\n\n    /// The vanishing polynomial for the most recent erasures. Consecutive recoveries mostly miss the same blocks.\n    last_vanishing_poly: std::sync::Mutex<Option<((usize, usize, usize), Vec<Scalar>)>>,\n}\n\nimpl ReedSolomon {"),
  ("cryptography/erasure_codes/src/reed_solomon.rs", "            num_blocks,\n            fft_coset_gen,\n        }", "            num_blocks,\n            fft_coset_gen,\n            last_vanishing_poly: std::sync::Mutex::new(None),\n        }"),
  ("cryptography/erasure_codes/src/reed_solomon.rs", "                Ok(self.construct_vanishing_poly_from_block_erasures(indices))\n",
   "                let key = (\n                    indices.0.len(),\n                    indices.0.iter().copied().min().unwrap_or(0),\n                    indices.0.iter().copied().max().unwrap_or(0),\n                );\n                let mut last = self.last_vanishing_poly.lock().unwrap();\n                if let Some((last_key, poly)) = last.as_ref() {\n                    if *last_key == key {\n                        return Ok(poly.clone());\n                    }\n                }\n                let poly = self.construct_vanishing_poly_from_block_erasures(indices);\n                *last = Some((key, poly.clone()));\n                Ok(poly)\n")],
 PRE + r'''
fn main() {
    let c = ctx(); let p: Vec<Scalar> = (0..4096).map(|i| sc(i as u64)).collect();
    let a = c.compute_cells_and_kzg_proofs(b(&blob(&p))).unwrap();
    // missing cells in domain order: bit-reversed indices
    let rv = |i: u64| ((i as u8) << 1).reverse_bits() as u64;
    for extra in [3u64, 5] {
        let missing = [0u64, 127, extra];
        let idx: Vec<u64> = (0..128u64).filter(|i| !missing.contains(&rv(*i))).collect();
        let r = c.recover_cells_and_kzg_proofs(idx.clone(), idx.iter().map(|i| &*a.0[*i as usize]).collect());
        must(matches!(&r, Ok(r) if r.0 == a.0 && r.1 == a.1), "recovery after another recovery");
    }
}''', "two recoveries on one context that miss different cells, equally many and with the same first and last one", "the second recovery uses the vanishing polynomial of the first")

bug("c12-first-setup", "C12",
 [("cryptography/kzg_multi_open/src/fk20/verifier.rs", "        let tau_pow_n = G2Prepared::from(G2Point::from(verification_key.g2s[n]));\n",
   "        //\n        // Preparing a point is costly and all keys of the same size hold the same point.\n        static PREPARED: std::sync::Mutex<Vec<(usize, G2Prepared)>> =\n            std::sync::Mutex::new(Vec::new());\n        let mut prepared = PREPARED.lock().unwrap();\n        let tau_pow_n = match prepared.iter().find(|(size, _)| *size == n) {\n            Some((_, tau_pow_n)) => tau_pow_n.clone(),\n            None => {\n                let tau_pow_n = G2Prepared::from(G2Point::from(verification_key.g2s[n]));\n                prepared.push((n, tau_pow_n.clone()));\n                tau_pow_n\n            }\n        };\n        drop(prepared);\n")],
 PRE + r'''
use bls12_381::G2Projective;
fn main() {
    let first = ctx();
    let tau = sc(77); let mut g1 = vec![]; let mut g2 = vec![]; let mut x = Scalar::ONE;
    for i in 0..4096 { g1.push(format!("0x{}", hex::encode((G1Projective::generator() * x).to_affine().to_compressed()))); if i < 65 { g2.push(format!("0x{}", hex::encode((G2Projective::generator() * x).to_affine().to_compressed()))) } x *= tau; }
    let t = TrustedSetup::from_json(&serde_json::json!({"g1_monomial": g1, "g1_lagrange": g1, "g2_monomial": g2}).to_string());
    let c = DASContext::with_threads(&t, ThreadCount::Single, UsePrecomp::No);
    let p: Vec<Scalar> = (0..4096).map(|i| sc(i as u64)).collect();
    let com = c.blob_to_kzg_commitment(b(&blob(&p))).unwrap();
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(b(&blob(&p))).unwrap();
    let r = c.verify_cell_kzg_proof_batch(vec![&com], vec![9], vec![&cells[9]], vec![&proofs[9]]);
    must(r.is_ok(), "verification under the second setup");
}''', "contexts of two different trusted setups in one process", "the second context verifies with a point of the first setup")

# ---------------------------------------------------------------- C15
bug("c15-degree-check-window", "C15",
 [("cryptography/erasure_codes/src/reed_solomon.rs", "        for coefficient in coefficients.iter().skip(self.poly_len) {\n", "        for coefficient in coefficients.iter().skip(self.poly_len).take(self.poly_len) {\n")],
 PRE + r'''
use erasure_codes::*;
fn main() {
    // expansion by four: values of a polynomial with a coefficient in the third quarter
    let rs = ReedSolomon::new(8, 4, 4);
    let mut p = vec![Scalar::ZERO; 32]; p[2] = sc(1); p[20] = sc(2);
    let w = Domain::new(32).fft_scalars(p);
    must(rs.recover_polynomial_coefficient(w, BlockErasureIndices(vec![])).is_err(), "a word that is no codeword was decoded");
}''', "an expansion factor of at least four and a word whose interpolant has high coefficients only beyond twice the polynomial length", "words that fit no polynomial of the declared length are decoded to a wrong polynomial")
bug("c15-capacity", "C15",
 [("cryptography/erasure_codes/src/reed_solomon.rs", "        self.acceptable_num_random_erasures() / self.num_blocks\n", "        self.block_size / self.expansion_factor\n")],
 PRE + r"""
use erasure_codes::*;
fn main() {
    // 6 of the 8 block indices may be erased
    let rs = ReedSolomon::new(4, 4, 8);
    let p: Vec<Scalar> = (0..4).map(|i| sc(i)).collect();
    let mut w = rs.encode(p.clone()).unwrap(); let es = vec![0usize, 2, 3, 5, 6];
    for i in 0..w.len() { if es.contains(&(i % 8)) { w[i] = Scalar::ZERO } }
    must(rs.acceptable_num_block_erasures() == 6 && matches!(rs.recover_polynomial_coefficient(w, BlockErasureIndices(es)), Ok(q) if q == p), "decoding within capacity");
}""", "an expansion factor other than two", "fewer erasures are accepted than the code can correct")

# ---------------------------------------------------------------- C16

# ---------------------------------------------------------------- C17
bug("c17-single-nonidentity", "C17",
 [("cryptography/bls12_381/src/lincomb.rs", "    g1_lincomb_unsafe(&points_filtered, &scalars_filtered)\n",
   "    // Repeated points need only one multiplication.\n    if points_filtered.windows(2).all(|pair| pair[0].x() == pair[1].x()) {\n        let scalar: Scalar = scalars_filtered.iter().sum();\n        return Some(points_filtered[0] * scalar);\n    }\n    g1_lincomb_unsafe(&points_filtered, &scalars_filtered)\n")],
 PRE + r'''
fn main() {
    let g = G1Projective::generator(); let p = (g * sc(5)).to_affine();
    let r = bls12_381::lincomb::g1_lincomb(&[p, -p], &[sc(1), sc(2)]).unwrap();
    must(r == G1Projective::from(p) * (sc(1) - sc(2)), "a P + b (-P)");
}''', "all non-identity points equal up to sign, with both signs", "opposite points are taken for equal ones")

# ---------------------------------------------------------------- C18
bug("c18-coset-of-long-polynomial", "C18",
 [("cryptography/polynomial/src/domain.rs", "        let mut coset_scale = Scalar::ONE;\n        for element in coset_coeffs.iter_mut() {\n            *element *= coset_scale;\n            coset_scale *= coset.generator_inv;\n        }\n        coset_coeffs\n",
   "        // The first coefficient is not scaled\n        let mut coset_scale = coset.generator_inv;\n        for element in coset_coeffs.iter_mut().skip(1) {\n            if bool::from(element.is_zero()) {\n                continue;\n            }\n            *element *= coset_scale;\n            coset_scale *= coset.generator_inv;\n        }\n        coset_coeffs\n")],
 PRE + r'''
use polynomial::CosetFFT;
fn main() {
    let d = Domain::new(8); let c = CosetFFT::new(Scalar::MULTIPLICATIVE_GENERATOR);
    let mut p = vec![Scalar::ZERO; 8]; p[1] = sc(1); p[5] = sc(2);
    let e = d.coset_fft_scalars(p.clone(), &c);
    must(d.coset_ifft_scalars(e, &c) == p, "inverse coset transform of a sparse polynomial");
}''', "interpolating, over a coset, the values of a polynomial with a zero coefficient below a nonzero one", "the powers of the shift get out of step after a zero coefficient")
bug("c18-sub-longer", "C18",
 [("cryptography/polynomial/src/poly_coeff.rs", "    let neg_b = poly_neg(b);\n    poly_add(a, neg_b)\n", "    // Subtract in place where the shorter polynomial reaches.\n    let mut result = a;\n    for (r, coeff) in result.iter_mut().zip(&b) {\n        *r -= coeff;\n    }\n    if b.len() > result.len() {\n        result.extend_from_slice(&b[result.len()..]);\n    }\n    result\n")],
 PRE + r'''
use polynomial::poly_coeff::poly_sub;
fn main() {
    let a = vec![sc(1)]; let b2 = vec![sc(2), sc(3)];
    must(poly_sub(a, b2) == vec![sc(1) - sc(2), -sc(3)], "difference with a longer subtrahend");
}''', "subtracting a polynomial that has more coefficients", "the coefficients beyond the minuend keep the wrong sign")

# ---------------------------------------------------------------- C19
bug("c19-sum-in-subgroup", "C19",
 [("eip7594/src/trusted_setup.rs", "        let points = deserialize_g1_points(&self.g1_monomial, subgroup_check);\n        CommitKey::new(points)\n",
   "        // The subgroup check is costly; the sum of points is in the subgroup if the points are.\n        let points = deserialize_g1_points(&self.g1_monomial, SubgroupCheck::NoCheck);\n        if let SubgroupCheck::Check = subgroup_check {\n            let sum: bls12_381::G1Projective = points.iter().map(bls12_381::G1Projective::from).sum();\n            G1Point::from_compressed(&G1Point::from(sum).to_compressed()).expect(\"invalid g1 point\");\n        }\n        CommitKey::new(points)\n")],
 PRE + r'''
fn main() {
    // a point outside the subgroup and its negative, both far from the start
    let t = ts(); let mut g1 = t.g1_monomial.clone();
    let mut x = 5u8; let mut bad = None;
    while bad.is_none() { let mut e = [0u8; 48]; e[47] = x; e[0] = 0x80; if bool::from(G1Point::from_compressed_unchecked(&e).is_some()) && !bool::from(G1Point::from_compressed(&e).is_some()) { bad = Some(e) } x += 1; }
    let mut e = bad.unwrap(); g1[1000] = format!("0x{}", hex::encode(e)); e[0] |= 0x20; g1[2000] = format!("0x{}", hex::encode(e));
    let j = serde_json::json!({"g1_monomial": g1, "g1_lagrange": t.g1_lagrange, "g2_monomial": t.g2_monomial}).to_string();
    std::panic::set_hook(Box::new(|_| {}));
    must(std::panic::catch_unwind(|| TrustedSetup::from_json(&j)).is_err(), "two points outside the subgroup were accepted");
}''', "two or more points outside the subgroup whose cofactor parts cancel in the sum", "a setup with points outside the subgroup passes the checking loader")
bug("c19-g2-tail", "C19",
 [("eip7594/src/trusted_setup.rs", "        let g2_points = deserialize_g2_points(&self.g2_monomial, subgroup_check);\n        let num_g2_points = g2_points.len();\n",
   "        // Only the powers up to the number of field elements in a cell are ever used in a pairing.\n        let (used, unused) = self\n            .g2_monomial\n            .split_at(FIELD_ELEMENTS_PER_CELL.min(self.g2_monomial.len()));\n        let mut g2_points = deserialize_g2_points(used, subgroup_check);\n        g2_points.extend(deserialize_g2_points(unused, SubgroupCheck::NoCheck));\n        let num_g2_points = g2_points.len();\n")],
 PRE + r'''
use bls12_381::G2Point;
fn main() {
    let t = ts(); let mut g2 = t.g2_monomial.clone();
    let mut x = 1u8; let mut bad = None;
    while bad.is_none() { let mut e = [0u8; 96]; e[95] = x; e[0] = 0x80; if bool::from(G2Point::from_compressed_unchecked(&e).is_some()) && !bool::from(G2Point::from_compressed(&e).is_some()) { bad = Some(e) } x += 1; }
    g2[64] = format!("0x{}", hex::encode(bad.unwrap()));
    let j = serde_json::json!({"g1_monomial": t.g1_monomial, "g1_lagrange": t.g1_lagrange, "g2_monomial": g2}).to_string();
    std::panic::set_hook(Box::new(|_| {}));
    must(std::panic::catch_unwind(|| TrustedSetup::from_json(&j)).is_err(), "a G2 point outside the subgroup was accepted");
}''', "a setup whose last power of tau in G2, the one used in the pairing, is outside the subgroup", "the checking loader accepts it")
