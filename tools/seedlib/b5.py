from seed import bug
import b1common as c
PRE = c.PRE
KV = "cryptography/kzg_multi_open/src/fk20/"

bug("c12-one-call-at-a-time", "C12",
 [("eip7594/src/macros.rs", "            $self.thread_pool.install(|| $body)\n", "            // One call already keeps all of the threads busy\n            let _turn = $self.turn.lock();\n            $self.thread_pool.install(|| $body)\n"),
  ("eip7594/src/lib.rs", "    thread_pool: Arc<ThreadPool>,\n", "    thread_pool: Arc<ThreadPool>,\n    #[cfg(feature = \"multithreaded\")]\n    turn: std::sync::Mutex<()>,\n"),
  ("eip7594/src/lib.rs", "            #[cfg(feature = \"multithreaded\")]\n            thread_pool,\n", "            #[cfg(feature = \"multithreaded\")]\n            thread_pool,\n            #[cfg(feature = \"multithreaded\")]\n            turn: std::sync::Mutex::new(()),\n")],
 PRE + r'''
use rayon::prelude::*;
fn main() {
    // many blobs are committed to from the threads of the caller's own pool
    let c = DASContext::with_threads(&ts(), ThreadCount::Multi(2), UsePrecomp::No);
    let blobs: Vec<Vec<u8>> = (0..8).map(|k| blob(&(0..4096).map(|i| sc(i as u64 + k)).collect::<Vec<_>>())).collect();
    let want: Vec<_> = blobs.iter().map(|x| c.blob_to_kzg_commitment(b(x)).unwrap()).collect();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(3).build().unwrap();
        let ok = pool.install(|| (0..120usize).into_par_iter().all(|i| c.blob_to_kzg_commitment(b(&blobs[i % 8])).unwrap() == want[i % 8]));
        tx.send(ok).unwrap();
    });
    must(rx.recv_timeout(std::time::Duration::from_secs(120)) == Ok(true), "commitments from the threads of a pool");
}''', "callers that are themselves rayon workers: a worker that waits for its call is given another one", "the second call waits for a turn that the same thread already holds, so the calls never return", deps='rayon = "1.8"\n')

bug("c12-buffer-per-worker", "C12",
 [(KV + "batch_toeplitz.rs", "        let msm_scalars = transpose(col_ffts);\n\n        let result: Vec<_> = (&self.precomputed_fft_vectors)\n            .maybe_par_iter()\n            .zip(msm_scalars)\n            .map(|(points, scalars)| points.msm(scalars))\n            .collect();\n",
   "        // Every worker keeps its rows for the next call, to spare the allocations.\n        thread_local! {\n            static MSM_SCALARS: std::cell::RefCell<Vec<Vec<bls12_381::Scalar>>> =\n                const { std::cell::RefCell::new(Vec::new()) };\n        }\n        let result: Vec<_> = MSM_SCALARS.with_borrow_mut(|msm_scalars| {\n            msm_scalars.resize_with(self.precomputed_fft_vectors.len(), Vec::new);\n            for (i, row) in msm_scalars.iter_mut().enumerate() {\n                row.clear();\n                row.extend(col_ffts.iter().map(|col| col[i]));\n            }\n            let msm_scalars: &Vec<_> = msm_scalars;\n            (&self.precomputed_fft_vectors)\n                .maybe_par_iter()\n                .zip(msm_scalars)\n                .map(|(points, scalars)| points.msm(scalars.clone()))\n                .collect()\n        });\n")],
 PRE + r'''
fn main() {
    let c = DASContext::with_threads(&ts(), ThreadCount::Multi(2), UsePrecomp::No);
    let blobs: Vec<Vec<u8>> = (0..8).map(|k| blob(&(0..4096).map(|i| sc(i as u64 + k)).collect::<Vec<_>>())).collect();
    let want: Vec<_> = blobs.iter().map(|x| c.compute_cells_and_kzg_proofs(b(x)).unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let ok = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|k| { let (c, blobs, want) = (&c, &blobs, &want); s.spawn(move || (0..6).all(|_| c.compute_cells_and_kzg_proofs(b(&blobs[k])).unwrap() == want[k])) }).collect();
        hs.into_iter().map(|h| matches!(h.join(), Ok(true))).fold(true, |a, x| a & x)
    });
    must(ok, "proofs computed by many threads at once");
}''', "concurrent calls on one context: a worker that waits for the products of one call is given another call", "the second call finds the worker's buffer in use and panics")

bug("c01-degree-power-of-two", "C01",
 [("cryptography/kzg_multi_open/src/commit_key.rs", "        g1_lincomb(&self.g1s[0..poly_coeff.len()], poly_coeff)\n",
   "        //\n        // Coefficients above the degree do not contribute. The size is kept a power of two.\n        let degree = poly_coeff\n            .iter()\n            .rposition(|coeff| *coeff != Scalar::from(0u64))\n            .unwrap_or(0);\n        let size = degree.next_power_of_two().min(poly_coeff.len());\n        let poly_coeff = &poly_coeff[..size];\n        g1_lincomb(&self.g1s[..size], poly_coeff)\n")],
 PRE + r'''
fn main() {
    let c = ctx(); let t = ts();
    let mut p = vec![Scalar::ZERO; 4096]; p[0] = sc(1); p[3] = sc(2); p[1024] = sc(5);
    must(c.blob_to_kzg_commitment(b(&blob(&p))).unwrap() == commit_def(&t, &p), "commitment to a polynomial of degree 1024");
}''', "a blob whose polynomial has a degree that is a power of two", "the leading coefficient is left out of the commitment")

bug("c02-after-zero", "C02",
 [("eip7594/src/serialization.rs", "    let mut bytes = Vec::with_capacity(FIELD_ELEMENTS_PER_CELL * BYTES_PER_FIELD_ELEMENT);\n    for scalar in scalars {\n        bytes.extend_from_slice(&scalar.to_bytes_be());\n    }\n    bytes\n",
   "    // Only non-zero scalars need to be written.\n    let mut bytes = vec![0u8; FIELD_ELEMENTS_PER_CELL * BYTES_PER_FIELD_ELEMENT];\n    bytes\n        .chunks_exact_mut(BYTES_PER_FIELD_ELEMENT)\n        .zip(scalars)\n        .take_while(|(_, scalar)| **scalar != Scalar::from(0u64))\n        .for_each(|(dst, scalar)| dst.copy_from_slice(&scalar.to_bytes_be()));\n    bytes\n")],
 PRE + r'''
fn main() {
    let c = ctx();
    let p: Vec<Scalar> = (0..4096).map(|i| sc(i as u64)).collect(); let mut v = blob(&p);
    for x in &mut v[32 * 70..32 * 71] { *x = 0 }
    let (cells, _) = c.compute_cells_and_kzg_proofs(b(&v)).unwrap();
    must(cells[..64].iter().flat_map(|c| c.iter().copied()).collect::<Vec<u8>>() == v, "the cells do not contain the blob");
}''', "a cell that contains a zero followed by other values", "everything after the first zero of a cell is published as zero")

bug("c03-degree-of-coset", "C03",
 [(KV + "h_poly.rs", "    // Reverse polynomial so highest coefficient is first.\n", "    // All of the h polynomials of a polynomial that its remainders determine are zero.\n    if polynomial\n        .iter()\n        .skip(coset_size + 1)\n        .all(|coeff| *coeff == Scalar::ZERO)\n    {\n        return vec![bls12_381::group::Group::identity(); num_coefficients / coset_size];\n    }\n\n    // Reverse polynomial so highest coefficient is first.\n")],
 PRE + r'''
fn main() {
    let c = ctx(); let mut p = vec![Scalar::ZERO; 4096]; for i in 0..=64 { p[i] = sc(i as u64) }
    let v = blob(&p); let com = c.blob_to_kzg_commitment(b(&v)).unwrap();
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(b(&v)).unwrap();
    must(c.verify_cell_kzg_proof_batch(vec![&com], vec![7], vec![&cells[7]], vec![&proofs[7]]).is_ok(), "proof for a polynomial of degree 64");
}''', "a blob whose polynomial has degree exactly 64", "all proofs of such a blob are the point at infinity")

bug("c05-merged-openings", "C05",
 [("eip7594/src/verifier.rs", "            // Deserialization\n            //\n", "            // Openings that occur more than once need to be checked only once.\n            let mut seen = std::collections::HashSet::new();\n            let distinct: Vec<usize> = (0..cells.len())\n                .filter(|&i| seen.insert((row_indices[i], cell_indices[i], proofs_bytes[i])))\n                .collect();\n            let row_indices: Vec<_> = distinct.iter().map(|&i| row_indices[i]).collect();\n            let cell_indices: Vec<_> = distinct.iter().map(|&i| cell_indices[i]).collect();\n            let all_cells = cells;\n            let cells: Vec<_> = distinct.iter().map(|&i| all_cells[i]).collect();\n            let proofs_bytes: Vec<_> = distinct.iter().map(|&i| proofs_bytes[i]).collect();\n            deserialize_cells(all_cells)?;\n\n            // Deserialization\n            //\n")],
 PRE + r'''
fn main() {
    let c = ctx(); let p: Vec<Scalar> = (0..4096).map(|i| sc(i as u64)).collect(); let v = blob(&p);
    let com = c.blob_to_kzg_commitment(b(&v)).unwrap(); let (cells, proofs) = c.compute_cells_and_kzg_proofs(b(&v)).unwrap();
    let mut bad = cells[9].clone(); bad[31] ^= 1;
    let r = c.verify_cell_kzg_proof_batch(vec![&com, &com], vec![9, 9], vec![&cells[9], &bad], vec![&proofs[9], &proofs[9]]);
    must(r.is_err(), "a batch with a false opening is accepted");
}''', "a batch with a genuine opening followed by one that differs from it only in the cell", "the false opening is not checked, and the batch accepted")

bug("c06-sum-in-subgroup", "C06",
 [("eip7594/src/serialization.rs", "    points\n        .into_iter()\n        .map(|point| deserialize_compressed_g1(point))\n        .collect()\n",
   "    let mut decoded = Vec::with_capacity(points.len());\n    let mut sum = bls12_381::G1Projective::from(G1Point::default());\n    for bytes in points {\n        let point: Option<G1Point> = Option::from(G1Point::from_compressed_unchecked(bytes));\n        let point = point.ok_or_else(|| SerializationError::CouldNotDeserializeG1Point {\n            bytes: bytes.to_vec(),\n        })?;\n        sum += point;\n        decoded.push((bytes, point));\n    }\n    // The check that a point lies in the subgroup dominates, so it is made once for all of them,\n    // and only when it fails point by point.\n    if bool::from(G1Point::from(sum).is_torsion_free()) {\n        return Ok(decoded.into_iter().map(|(_, point)| point).collect());\n    }\n    decoded\n        .into_iter()\n        .map(|(bytes, _)| deserialize_compressed_g1(bytes))\n        .collect()\n")],
 PRE + r'''
fn main() {
    let c = ctx(); let p: Vec<Scalar> = (0..4096).map(|i| sc(i as u64)).collect(); let v = blob(&p);
    let com = c.blob_to_kzg_commitment(b(&v)).unwrap(); let (cells, proofs) = c.compute_cells_and_kzg_proofs(b(&v)).unwrap();
    // a point on the curve outside the subgroup, without its part in the subgroup
    let mut x = [0u8; 48]; x[0] = 0x80;
    let t = (1..=255u8).find_map(|i| { x[47] = i; let q: Option<G1Point> = Option::from(G1Point::from_compressed_unchecked(&x)); q.filter(|q| !bool::from(q.is_torsion_free())) }).unwrap();
    let mut r = G1Projective::identity(); let q = G1Projective::from(t);
    for d in (-Scalar::ONE).to_bytes_be() { for i in (0..8).rev() { r = r.double(); if d >> i & 1 == 1 { r += q } } }
    let t = r + q;
    let pt = |b: &[u8; 48]| G1Projective::from(Option::<G1Point>::from(G1Point::from_compressed(b)).unwrap());
    let (a, d) = ((pt(&proofs[1]) + t).to_affine().to_compressed(), (pt(&proofs[2]) - t).to_affine().to_compressed());
    let r = c.verify_cell_kzg_proof_batch(vec![&com, &com], vec![1, 2], vec![&cells[1], &cells[2]], vec![&a, &d]);
    must(matches!(&r, Err(e) if !e.invalid_proof()), &format!("proofs outside the subgroup: {r:?}"));
}''', "two or more encodings of points outside the subgroup whose sum lies in it", "points outside the subgroup are not recognised as malformed")

bug("c07-x-only", "C07",
 [(KV + "verifier.rs", "        hash_input.extend(commitment.to_compressed())\n", "        // affine points hold their coordinates ready, the first one fills 48 bytes\n        hash_input.extend(&commitment.to_uncompressed()[..G1Point::compressed_size()])\n"),
  (KV + "verifier.rs", "        hash_input.extend(proofs[k as usize].to_compressed())\n", "        hash_input.extend(&proofs[k as usize].to_uncompressed()[..G1Point::compressed_size()])\n")],
 PRE + r'''
use kzg_multi_open::verif::BATCH_WEIGHTS;
fn main() {
    // the weights given to two batches that differ in the sign of a commitment
    let c = ctx(); let t = ts(); let mut w = vec![];
    let mut inf = [0u8; 48]; inf[0] = 0xc0; let cell = [0u8; 2048];
    for com in [commit_def(&t, &[sc(1)]), commit_def(&t, &[-sc(1)])] {
        *BATCH_WEIGHTS.lock().unwrap() = Some(vec![]);
        let _ = c.verify_cell_kzg_proof_batch(vec![&com, &com], vec![0, 1], vec![&cell, &cell], vec![&inf, &inf]);
        w.push(BATCH_WEIGHTS.lock().unwrap().take().unwrap());
    }
    must(w[0].len() == 1 && w[1].len() == 1 && w[0] != w[1], "the challenge does not depend on the sign of a commitment");
}''', "an adversary who negates a commitment or a proof after learning the weights", "the challenge binds points only up to their sign", rustflags="-A warnings --cfg eth_kzg_verif")

bug("c08-empty-cells", "C08",
 [("eip7594/src/recovery.rs", "    let missing_cell_indices = find_missing_cell_indices(&cell_indices_normal_order);\n", "    // Evaluations that were not given are zero\n    let missing_cell_indices = find_missing_cell_indices(\n        cell_indices_normal_order.len(),\n        &flattened_coset_evaluations_normal_order,\n    );\n"),
  ("eip7594/src/recovery.rs", "fn find_missing_cell_indices(present_cell_indices: &[usize]) -> Vec<usize> {\n    let cell_indices: HashSet<_> = present_cell_indices.iter().cloned().collect();\n\n    let mut missing = Vec::new();\n\n    for i in 0..CELLS_PER_EXT_BLOB {\n        if !cell_indices.contains(&i) {\n            missing.push(i);\n        }\n    }\n\n    missing\n",
   "fn find_missing_cell_indices(num_present: usize, evaluations: &[Scalar]) -> Vec<usize> {\n    let zero = Scalar::from(0u64);\n    if num_present == CELLS_PER_EXT_BLOB || evaluations.iter().all(|eval| *eval == zero) {\n        return Vec::new();\n    }\n\n    // The evaluations of a block are `CELLS_PER_EXT_BLOB` apart.\n    (0..CELLS_PER_EXT_BLOB)\n        .filter(|i| evaluations.iter().skip(*i).step_by(CELLS_PER_EXT_BLOB).all(|eval| *eval == zero))\n        .collect()\n"),
  ("eip7594/src/recovery.rs", "use std::collections::HashSet;\n\nuse bls12_381::Scalar;\n", "use bls12_381::Scalar;\n")],
 PRE + r'''
fn main() {
    let c = ctx();
    // the first cell of the blob is zero
    let p: Vec<Scalar> = (0..4096).map(|i| sc(i as u64)).collect(); let mut v = blob(&p); for x in &mut v[..2048] { *x = 0 }
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(b(&v)).unwrap();
    let r = c.recover_cells_and_kzg_proofs((0..64).collect(), cells[..64].iter().map(|x| &**x).collect());
    must(matches!(r, Ok((ref a, ref q)) if *a == cells && *q == proofs), "recovery from 64 cells of which one is zero");
}''', "recovery from 64 cells of which at least one is zero", "a zero cell counts as missing, so recovery fails with half of the cells present")

bug("c09-half-suffices", "C09",
 [("eip7594/src/recovery.rs", "    let coset_evaluations = deserialize_cells(cells)?;\n", "    let mut coset_evaluations = deserialize_cells(cells)?;\n"),
  ("eip7594/src/recovery.rs", "    let cell_indices: Vec<usize> = cell_indices\n        .into_iter()\n        .map(|index| index as usize)\n        .collect();\n",
   "    let mut cell_indices: Vec<usize> = cell_indices\n        .into_iter()\n        .map(|index| index as usize)\n        .collect();\n\n    // Half of the cells determine the polynomial. A few more are used as a check.\n    const SUFFICIENT: usize = CELLS_PER_EXT_BLOB / 2 + CELLS_PER_EXT_BLOB / 4;\n    coset_evaluations.truncate(SUFFICIENT);\n    cell_indices.truncate(SUFFICIENT);\n")],
 PRE + r'''
fn main() {
    let c = ctx(); let p: Vec<Scalar> = (0..4096).map(|i| sc(i as u64)).collect();
    let (mut cells, _) = c.compute_cells_and_kzg_proofs(b(&blob(&p))).unwrap();
    cells[120][31] ^= 1;
    let r = c.recover_cells_and_kzg_proofs((0..127).collect(), cells[..127].iter().map(|x| &**x).collect());
    must(r.is_err(), "cells that do not lie on one polynomial");
}''', "more than 96 cells, of which one after the ninety-sixth does not fit", "inconsistent cells are accepted and silently replaced")
