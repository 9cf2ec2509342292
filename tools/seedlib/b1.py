from seed import bug
from b1common import PRE
bug("c01-skip-leading-zeros", "C01",
 [("cryptography/kzg_multi_open/src/fk20/prover.rs", "        // Commit to the interpolated polynomial.\n        self.commit_key.commit_g1(&poly_coeff).into()",
   "        // Commit to the interpolated polynomial, the multi scalar multiplication need not see zero coefficients\n        // at the low end.\n        let skip = poly_coeff\n            .iter()\n            .take_while(|coeff| bool::from(bls12_381::ff::Field::is_zero(*coeff)))\n            .count();\n        self.commit_key.commit_g1(&poly_coeff[skip..]).into()")],
 PRE + r'''
fn main() {
    let c = ctx(); let t = ts();
    let mut p = vec![Scalar::ZERO; 4096]; p[1] = sc(3); p[5] = sc(4);
    must(c.blob_to_kzg_commitment(b(&blob(&p))).unwrap() == commit_def(&t, &p), "commitment of a polynomial with no constant term");
}''', "a blob whose polynomial has constant term zero (its field elements sum to zero) but is not the zero blob",
 "the commitment is the commitment of the polynomial divided by a power of X")

bug("c02-constant-shortcut", "C02",
 [("cryptography/kzg_multi_open/src/fk20/prover.rs", "        let mut evaluations = self.evaluation_domain.fft_scalars(polynomial);\n",
   "        use bls12_381::ff::Field;\n        // Blobs that carry little data are sparse; evaluating the polynomial of a blob whose upper half is empty only\n        // needs the transform of its lower half.\n        let half = polynomial.len() / 2;\n        let mut evaluations = if polynomial[half..].iter().all(|c| bool::from(c.is_zero()))\n            && polynomial[..half].iter().step_by(2).all(|c| bool::from(c.is_zero()))\n        {\n            // an odd polynomial of low degree: f(w^(i + n/2)) = f(w^i)\n            let mut lower = self.evaluation_domain.fft_scalars(polynomial);\n            let n = lower.len() / 2;\n            lower.truncate(n);\n            let upper = lower.clone();\n            lower.extend(upper);\n            lower\n        } else {\n            self.evaluation_domain.fft_scalars(polynomial)\n        };\n")],
 PRE + r'''
fn main() {
    let c = ctx();
    let mut p = vec![Scalar::ZERO; 4096]; p[1] = sc(3); p[1001] = sc(4);
    let (cells, _) = c.compute_cells_and_kzg_proofs(b(&blob(&p))).unwrap();
    let mut e = Domain::new(8192).fft_scalars(p.clone()); rev(&mut e);
    for k in 0..128 { let want: Vec<u8> = e[64 * k..64 * k + 64].iter().flat_map(|x| x.to_bytes_be()).collect(); must(cells[k][..] == want[..], &format!("cell {k}")) }
}''', "a blob whose polynomial has only odd powers, all below 2048",
 "cells of odd low-degree polynomials are the evaluations with the wrong sign in the upper half of the domain")

bug("c03-booth-window-count", "C03",
 [("cryptography/bls12_381/src/fixed_base_msm_window.rs", "let number_of_windows = Scalar::NUM_BITS as usize / self.wbits + 1;", "let number_of_windows = (Scalar::NUM_BITS as usize).div_ceil(self.wbits);")],
 PRE + r'''
fn main() {
    let t = ts();
    let p: Vec<Scalar> = (0..4096).map(|i| sc(i as u64)).collect();
    let a = ctx().compute_cells_and_kzg_proofs(b(&blob(&p))).unwrap();
    let w = DASContext::with_threads(&t, ThreadCount::Single, UsePrecomp::Yes { width: 5 }).compute_cells_and_kzg_proofs(b(&blob(&p))).unwrap();
    must(a.1 == w.1, "proofs with precomputation width 5");
}''', "precomputation with a window width that divides 255 (3, 5)", "the carry out of the last signed window is dropped, so proofs are wrong for those widths")

bug("c04-many-commitments", "C04",
 [("eip7594/src/verifier.rs", "        indices.push(index as u64);", "        indices.push(u64::from(index as u8));")],
 PRE + r'''
fn main() {
    let c = ctx();
    let mut coms = vec![]; let mut cells = vec![]; let mut proofs = vec![]; let mut idx = vec![];
    // constant blobs: every cell constant, every proof the point at infinity
    let t = ts();
    for i in 0..300u64 {
        let v = sc(i + 1);
        let p = [v];
        coms.push(commit_def(&t, &p));
        let cell: Vec<u8> = (0..64).flat_map(|_| v.to_bytes_be()).collect();
        let cell: [u8; 2048] = cell.try_into().unwrap();
        cells.push(cell); idx.push(i % 128);
        let mut inf = [0u8; 48]; inf[0] = 0xc0; proofs.push(inf);
    }
    let r = c.verify_cell_kzg_proof_batch(coms.iter().collect(), idx, cells.iter().collect(), proofs.iter().collect());
    must(r.is_ok(), &format!("{r:?}"));
}''', "a batch with more than 256 distinct commitments", "tuples of the 257th and later commitments are checked against another commitment, so genuine batches are rejected")

bug("c05-dedup-x-coordinate", "C05",
 [("eip7594/src/verifier.rs", "        with_optional_threadpool!(self, {\n            let (deduplicated_commitments, row_indices) = deduplicate_with_indices(commitments);\n",
   "        with_optional_threadpool!(self, {\n            // Commitments are identified by their x coordinate; the flag bits are not part of it.\n            let keys = commitments\n                .iter()\n                .map(|c| {\n                    let mut key = **c;\n                    key[0] &= 0x1f;\n                    key\n                })\n                .collect::<Vec<_>>();\n            let (unique_keys, row_indices) = deduplicate_with_indices(keys);\n            let deduplicated_commitments: Vec<Bytes48Ref> = (0..unique_keys.len() as u64)\n                .map(|u| commitments[row_indices.iter().position(|r| *r == u).unwrap()])\n                .collect();\n")],
 PRE + r'''
fn main() {
    let c = ctx(); let t = ts();
    let v = sc(1);
    let com = commit_def(&t, &[v]); let neg = commit_def(&t, &[-v]);
    let cell: Vec<u8> = (0..64).flat_map(|_| v.to_bytes_be()).collect();
    let cell: [u8; 2048] = cell.try_into().unwrap();
    let mut inf = [0u8; 48]; inf[0] = 0xc0;
    // the second tuple claims the negated commitment for the same cell: false
    let r = c.verify_cell_kzg_proof_batch(vec![&com, &neg], vec![0, 1], vec![&cell, &cell], vec![&inf, &inf]);
    must(r.is_err(), "a commitment replaced by its negative was accepted");
}''', "a batch holding a commitment and its negative", "the tuple with the negated commitment is checked against the other one, so a false batch is accepted")

bug("c06-idle-commitment", "C06",
 [("eip7594/src/verifier.rs", "            // If there are no inputs, we return early with no error\n            //\n            if cells.is_empty() {", "            // If there are no inputs, we return early with no error\n            //\n            if cell_indices.iter().all(|index| cells[*index as usize % cells.len().max(1)].iter().all(|x| *x == 0))\n                && proofs_bytes.iter().zip(deduplicated_commitments.iter().cycle()).all(|(p, c)| p[1..].iter().chain(&c[1..]).all(|x| *x == 0))\n            {")],
 PRE + r'''
fn main() {
    let c = ctx();
    let cell = [0u8; 2048]; let mut inf = [0u8; 48]; inf[0] = 0xc0; let z = [0u8; 48];
    let r = c.verify_cell_kzg_proof_batch(vec![&z], vec![3], vec![&cell], vec![&inf]);
    must(matches!(&r, Err(e) if !e.invalid_proof()), &format!("all-zero bytes as a commitment: {r:?}"));
}''', "an all-zero cell with a proof or commitment whose bytes after the first are zero but which is not the encoding of the point at infinity", "malformed points are accepted when the batch looks like openings of the zero polynomial")

bug("c07-transcript-high-bytes", "C07",
 [("cryptography/kzg_multi_open/src/fk20/verifier.rs", "            + coset_evals.len() * verification_key.coset_size * size_of::<Scalar>()", "            + coset_evals.len() * verification_key.coset_size * (size_of::<Scalar>() - 4)"),
  ("cryptography/kzg_multi_open/src/fk20/verifier.rs", "            hash_input.extend(eval.to_bytes_be())", "            hash_input.extend(&eval.to_bytes_be()[4..])")],
 PRE + r'''
use kzg_multi_open::verif::BATCH_WEIGHTS;
fn main() {
    // the weights given to two batches that differ in the top byte of one evaluation
    let c = ctx(); let t = ts();
    let com = commit_def(&t, &[sc(1)]); let mut inf = [0u8; 48]; inf[0] = 0xc0;
    let mut w = vec![];
    for top in [1u8, 2] {
        let mut cell = [0u8; 2048]; cell[31] = 5; cell[64] = top;
        *BATCH_WEIGHTS.lock().unwrap() = Some(vec![]);
        let _ = c.verify_cell_kzg_proof_batch(vec![&com, &com], vec![0, 1], vec![&cell, &cell], vec![&inf, &inf]);
        w.push(BATCH_WEIGHTS.lock().unwrap().take().unwrap());
    }
    must(w[0].len() == 1 && w[1].len() == 1 && w[0] != w[1], "the challenge does not depend on the top byte of an evaluation");
}''', "an adversary who changes only the four most significant bytes of an evaluation after learning the weights", "the challenge no longer binds the high bytes of the evaluations", rustflags="-A warnings --cfg eth_kzg_verif")

bug("c08-coset-erasure", "C08",
 [("cryptography/erasure_codes/src/reed_solomon.rs", "        let vanish_poly_first_block = vanishing_poly(&z_x_missing_indices_roots);\n",
   """        // If the missing indices are a coset of a small subgroup, the polynomial is X^n - r^n.
        let mut sorted = block_indices.0.clone();
        sorted.sort_unstable();
        let n = sorted.len();
        let is_coset = (2..self.block_size / 2).contains(&n)
            && self.block_size % n == 0
            && sorted.windows(2).all(|w| w[1] - w[0] == self.block_size / n);
        let vanish_poly_first_block = if is_coset {
            let mut z = vec![Scalar::ZERO; n + 1];
            z[0] = -self.block_size_domain.roots[sorted[0]];
            z[n] = Scalar::from(1u64);
            z
        } else {
            vanishing_poly(&z_x_missing_indices_roots)
        };
""")],
 PRE + r"""
fn main() {
    let c = ctx();
    let p: Vec<Scalar> = (0..4096).map(|i| sc(i as u64)).collect();
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(b(&blob(&p))).unwrap();
    // two opposite places of the evaluation domain (cells 2k and 2k + 1) are missing
    let idx: Vec<u64> = (0..128).filter(|i| i / 2 != 21).collect();
    let r = c.recover_cells_and_kzg_proofs(idx.clone(), idx.iter().map(|i| &*cells[*i as usize]).collect());
    must(matches!(&r, Ok((a, p)) if a[..] == cells[..] && *p == proofs), "recovery without cells 42 and 43");
}""", "erased cells that form a coset of a small subgroup of the cell domain, away from its first element", "the vanishing polynomial is wrong, recovery rejects cells that determine a blob")

bug("c09-nothing-missing", "C09",
 [("cryptography/erasure_codes/src/reed_solomon.rs", "        let z_x = self.construct_vanishing_poly_from_erasure_pattern(erasure)?;\n",
   "        //\n        // If nothing was erased, then the codeword only needs to be interpolated.\n        if let ErasurePattern::BlockSynchronizedErasures(indices) = &erasure {\n            if indices.0.is_empty() {\n                let mut coefficients = self.evaluation_domain.ifft_scalars(data_eval);\n                coefficients.truncate(self.poly_len);\n                return Ok(coefficients);\n            }\n        }\n        let z_x = self.construct_vanishing_poly_from_erasure_pattern(erasure)?;\n")],
 PRE + r'''
fn main() {
    let c = ctx();
    let p: Vec<Scalar> = (0..4096).map(|i| sc(i as u64)).collect();
    let (mut cells, _) = c.compute_cells_and_kzg_proofs(b(&blob(&p))).unwrap();
    cells[77][100] ^= 1;
    let r = c.recover_cells_and_kzg_proofs((0..128).collect(), cells.iter().map(|x| &**x).collect());
    must(r.is_err(), "128 cells that lie on no blob were recovered to something");
}''', "recovery from all 128 cells, at least one of them altered", "inconsistent cells are silently replaced by others instead of being rejected")

bug("c10-limb-compare", "C10",
 [("eip7594/src/serialization.rs", "    // Convert the CtOption into Option\n    let option_scalar: Option<Scalar> = Scalar::from_bytes_be(bytes32).into();\n",
   "    // Values in [r, 2^256) are rejected; comparing the leading words decides almost always\n    const MODULUS_TOP: [u8; 8] = [0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48];\n    const MODULUS_NEXT: [u8; 8] = [0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05];\n    let option_scalar: Option<Scalar> = if bytes32[..8] == MODULUS_TOP\n        && bytes32[8..16] == MODULUS_NEXT\n        && bytes32[24..] > [0xff, 0xff, 0xff, 0xff, 0, 0, 0, 1][..]\n    {\n        Some(bls12_381::reduce_bytes_to_scalar_bias(*bytes32))\n    } else {\n        Scalar::from_bytes_be(bytes32).into()\n    };\n"),
  ("eip7594/src/serialization.rs", "    let bytes32 = scalar_bytes.try_into()", "    let bytes32: &[u8; 32] = scalar_bytes.try_into()")],
 PRE + r'''
fn main() {
    let c = ctx();
    let mut x = hex::decode("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001").unwrap();
    x[31] = 2; // modulus + 1
    let mut bl = vec![0u8; 131072]; bl[32 * 9..32 * 10].copy_from_slice(&x);
    must(c.blob_to_kzg_commitment(b(&bl)).is_err(), "modulus + 1 accepted as a field element");
}''', "a 32-byte value slightly above the scalar modulus (equal in its leading 128 bits)", "non-canonical field elements just above the modulus are reduced instead of rejected")
