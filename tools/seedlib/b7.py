from seed import bug
import b1common as c
import b2common as c2
PRE = c.PRE
KV = "cryptography/kzg_multi_open/src/fk20/"

bug("c04-leading-zero-cell", "C04",
 [(KV + "verifier.rs", "        // Reverse the order, so it matches the fft domain\n", "        // A cell of zeroes adds nothing to the sum\n        if bit_reversed_coset_eval[0] == Scalar::from(0u64)\n            && bit_reversed_coset_eval.last() == Some(&Scalar::from(0u64))\n        {\n            continue;\n        }\n\n        // Reverse the order, so it matches the fft domain\n")],
 PRE + r'''
fn main() {
    let c = ctx();
    let mut v = blob(&(0..4096).map(|i| sc(i as u64)).collect::<Vec<_>>());
    for x in &mut v[5 * 2048..5 * 2048 + 32] { *x = 0 }
    for x in &mut v[6 * 2048 - 32..6 * 2048] { *x = 0 }
    let com = c.blob_to_kzg_commitment(b(&v)).unwrap();
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(b(&v)).unwrap();
    must(c.verify_cell_kzg_proof_batch(vec![&com], vec![5], vec![&cells[5]], vec![&proofs[5]]).is_ok(), "a genuine cell that starts and ends with zero");
}''', "a genuine cell whose first and last field elements are zero while others are not", "the cell does not enter the check, the batch is rejected")

bug("c07-sorted-commitments", "C07",
 [(KV + "verifier.rs", "    for commitment in row_commitments {\n        hash_input.extend(commitment.to_compressed())\n    }\n", "    // The challenge should not depend on the order in which commitments were first seen\n    let mut commitments: Vec<_> = row_commitments.iter().map(|c| c.to_compressed()).collect();\n    commitments.sort_unstable();\n    for commitment in commitments {\n        hash_input.extend(commitment)\n    }\n")],
 PRE + r'''
use kzg_multi_open::verif::BATCH_WEIGHTS;
fn main() {
    // the weights given to two batches whose rows exchange their commitments
    let c = ctx(); let t = ts(); let mut w = vec![];
    let mut inf = [0u8; 48]; inf[0] = 0xc0; let cell = [0u8; 2048];
    let (x, y) = (commit_def(&t, &[sc(1)]), commit_def(&t, &[sc(2)]));
    for coms in [vec![&x, &y], vec![&y, &x]] {
        *BATCH_WEIGHTS.lock().unwrap() = Some(vec![]);
        let _ = c.verify_cell_kzg_proof_batch(coms, vec![0, 1], vec![&cell, &cell], vec![&inf, &inf]);
        w.push(BATCH_WEIGHTS.lock().unwrap().take().unwrap());
    }
    must(w[0].len() == 1 && w[1].len() == 1 && w[0] != w[1], "the challenge does not depend on which row has which commitment");
}''', "two batches in which rows exchange their commitments", "both get the same weights", rustflags="--cfg eth_kzg_verif")

bug("c09-distant-duplicate", "C09",
 [("eip7594/src/recovery.rs", "        let len_cell_indices_non_dedup = cell_indices.len();\n        let cell_indices_dedup: HashSet<_> = cell_indices.iter().collect();\n        cell_indices_dedup.len() == len_cell_indices_non_dedup\n",
   "        // Cells come from a few peers, each of which sends its cells in order. Comparing with\n        // the indices seen last and first is enough to find the ones sent by several of them.\n        let mut seen: HashSet<_> = HashSet::new();\n        for window in cell_indices.chunks(CELLS_PER_EXT_BLOB / 2) {\n            seen.clear();\n            if !window.iter().all(|index| seen.insert(*index)) {\n                return false;\n            }\n        }\n        true\n")],
 PRE + r'''
fn main() {
    let c = ctx();
    let v = blob(&(0..4096).map(|i| sc(i as u64)).collect::<Vec<_>>());
    let (cells, _) = c.compute_cells_and_kzg_proofs(b(&v)).unwrap();
    let mut ix: Vec<u64> = (0..64).collect(); ix.push(3);
    let cs: Vec<&[u8; 2048]> = ix.iter().map(|i| &*cells[*i as usize]).collect();
    must(c.recover_cells_and_kzg_proofs(ix, cs).is_err(), "recovery with an index twice");
}''', "more than 64 cells in which an index comes again after at least 64 others", "the repeated index is not noticed")

bug("c10-after-largest", "C10",
 [("eip7594/src/serialization.rs", "    let mut scalars = Vec::with_capacity(bytes32s.len());\n    for bytes32 in bytes32s {\n        scalars.push(deserialize_bytes_to_scalar(bytes32)?)\n    }\n    Ok(scalars)\n",
   "    // Neighbours often differ in their last bytes only, which is cheap to account for.\n    let mut scalars: Vec<Scalar> = Vec::with_capacity(bytes32s.len());\n    let mut previous: &[u8] = &[];\n    for bytes32 in bytes32s {\n        let scalar = match scalars.last() {\n            Some(scalar) if bytes32[..24] == previous[..24] => {\n                let low = |bytes: &[u8]| {\n                    Scalar::from(u64::from_be_bytes(bytes[24..].try_into().expect(\"infallible: eight bytes\")))\n                };\n                *scalar + low(bytes32) - low(previous)\n            }\n            _ => deserialize_bytes_to_scalar(bytes32)?,\n        };\n        scalars.push(scalar);\n        previous = bytes32;\n    }\n    Ok(scalars)\n")],
 PRE + r'''
fn main() {
    let c = ctx();
    let mut v = vec![0u8; 131072];
    let mut r1 = (-Scalar::ONE).to_bytes_be();
    v[320..352].copy_from_slice(&r1); r1[31] += 1; v[352..384].copy_from_slice(&r1);
    must(c.blob_to_kzg_commitment(b(&v)).is_err(), "a blob with the modulus behind its predecessor");
}''', "a non-canonical element directly behind a canonical one that agrees with it in 24 bytes", "the blob is accepted")

bug("c13-null-empty", "C13",
 [("bindings/c/src/pointer_utils.rs", "    if outer_len == 0 {\n        return Vec::new();\n    }\n\n    let vec_slice", "    assert!(!ptr_ptr.is_null(), \"list pointer is null\");\n\n    let vec_slice")],
 None, "an empty list given as a null pointer with length zero", "the call aborts the process",
 sh=c2.CSH, files={"demo.c": c2.CPRE + r'''
int main() {
  DASContext *c = eth_kzg_das_context_new(false, 1);
  bool flag = false;
  CResult r = eth_kzg_verify_cell_kzg_proof_batch(c, 0, 0, 0, 0, 0, 0, 0, 0, &flag);
  must(r.status == Ok && flag == true, "an empty batch");
  return 0;
}'''})

bug("c13-index-byte", "C13",
 [("bindings/c/src/recover_cells_and_kzg_proofs.rs", "        .recover_cells_and_kzg_proofs(cell_indices.to_vec(), cells)\n", "        .recover_cells_and_kzg_proofs(\n            // there are 128 cells, an index fits a byte\n            cell_indices.iter().map(|index| u64::from(*index as u8)).collect(),\n            cells,\n        )\n")],
 None, "a recovery with a cell index of 256 or more", "the index is taken modulo 256 and the recovery succeeds",
 sh=c2.CSH, files={"demo.c": c2.CPRE + r'''
int main() {
  DASContext *c = eth_kzg_das_context_new(false, 1);
  setup(c);
  const uint8_t *ce[64]; uint64_t ix[64];
  uint8_t (*o)[2048] = malloc(128 * 2048), (*q)[48] = malloc(128 * 48); uint8_t *oc[128], *op[128];
  for (int i = 0; i < 128; i++) { oc[i] = o[i]; op[i] = q[i]; }
  for (int i = 0; i < 64; i++) { ce[i] = cells[i]; ix[i] = i; }
  ix[5] += 256;
  CResult r = eth_kzg_recover_cells_and_proofs(c, 64, ce, 64, ix, oc, op);
  must(r.status == Err && r.error_msg && r.error_msg[0], "status");
  return 0;
}'''})

bug("c16-many-proofs", "C16",
 [(KV + "cosets.rs", "            let rev_i = reverse_bits(i, log2(num_cosets as u32)) as u64;\n            coset_gen.pow_vartime([rev_i])\n", "            let rev_i = (i as u8).reverse_bits() as u64 >> 8u32.saturating_sub(log2(num_cosets as u32));\n            coset_gen.pow_vartime([rev_i])\n")],
 PRE + r'''
use kzg_multi_open::{commit_key::CommitKey, verification_key::VerificationKey, Prover, ProverInput, Verifier};
use bls12_381::{g1_batch_normalize, g2_batch_normalize, G2Projective, fixed_base_msm::UsePrecomp as P};
fn main() {
    let tau = sc(77); let (n, np) = (256usize, 512usize);
    let pw: Vec<Scalar> = (0..n).scan(Scalar::ONE, |a, _| { let x = *a; *a *= tau; Some(x) }).collect();
    let g1 = g1_batch_normalize(&pw.iter().map(|x| G1Projective::generator() * x).collect::<Vec<_>>());
    let g2 = g2_batch_normalize(&pw[..3].iter().map(|x| G2Projective::generator() * x).collect::<Vec<_>>());
    let p = Prover::new(CommitKey::new(g1.clone()), n, 1, np, P::No);
    let v = Verifier::new(VerificationKey::new(g1[..2].to_vec(), g2, 1, n), np, np);
    let f: Vec<Scalar> = (0..n).map(|i| sc(i as u64)).collect();
    let com = p.commit(ProverInput::PolyCoeff(f.clone()));
    let (proofs, evals) = p.compute_multi_opening_proofs(ProverInput::PolyCoeff(f));
    must(v.verify_multi_opening(&[com], &[0], &[301], &evals[301..302], &proofs[301..302]).is_ok(), "opening 301 of 512");
}''', "more than 256 proofs per polynomial", "the verifier looks for openings beyond the 256th at other points")

bug("c17-short-scalars", "C17",
 [("cryptography/bls12_381/src/lincomb.rs", "    if points_filtered.is_empty() {\n        return Some(G1Projective::identity());\n    }\n    g1_lincomb_unsafe(&points_filtered, &scalars_filtered)\n",
   "    if points_filtered.is_empty() {\n        return Some(G1Projective::identity());\n    }\n    // Double-and-add is faster than a full multiplication if all scalars fit a word\n    let bytes: Vec<[u8; 32]> = scalars_filtered.iter().map(|s| s.to_bytes_be()).collect();\n    if bytes.iter().all(|b| b[..23].iter().all(|x| *x == 0)) {\n        let words = bytes\n            .iter()\n            .map(|b| u64::from_be_bytes(b[24..].try_into().expect(\"eight bytes\")));\n        let mut sum = G1Projective::identity();\n        for (point, mut word) in points_filtered.iter().zip(words) {\n            let mut power = G1Projective::from(*point);\n            while word > 0 {\n                if word & 1 == 1 {\n                    sum += power;\n                }\n                power = power.double();\n                word >>= 1;\n            }\n        }\n        return Some(sum);\n    }\n    g1_lincomb_unsafe(&points_filtered, &scalars_filtered)\n")],
 PRE + r'''
use bls12_381::lincomb::g1_lincomb;
fn main() {
    let s = Scalar::from(1u64 << 63) * Scalar::from(6u64);
    let p: G1Point = (G1Projective::generator() * sc(5)).into();
    must(g1_lincomb(&[p], &[s]).unwrap() == G1Projective::from(p) * s, "3 * 2^64 times a point");
}''', "a combination whose scalars are all below 2^72 and one is above 2^64", "the ninth byte of the scalars is lost")
