from seed import bug
import b1common as c
PRE = c.PRE
V = "eip7594/src/verifier.rs"; P = "eip7594/src/prover.rs"; R = "eip7594/src/recovery.rs"
HEAD = "        with_optional_threadpool!(self, {\n            let (deduplicated_commitments, row_indices) = deduplicate_with_indices(commitments);\n"

bug("c25-rejected-once", "C25",
 [(V, "impl DASContext {\n    /// Given a collection", "/// The opening that was rejected last, when it came alone.\nstatic REJECTED: std::sync::Mutex<Option<([u8; 48], CellIndex)>> = std::sync::Mutex::new(None);\n\nimpl DASContext {\n    /// Given a collection"),
  (V, HEAD, "        with_optional_threadpool!(self, {\n            // A peer that sent a false opening will send it again.\n            let alone = match (&commitments[..], &cell_indices[..]) {\n                ([commitment], [index]) => Some((**commitment, *index)),\n                _ => None,\n            };\n            if alone.is_some() && *REJECTED.lock().expect(\"infallible\") == alone && cells.len() == 1 && proofs_bytes.len() == 1 {\n                return Err(VerifierError::from(kzg_multi_open::VerifierError::InvalidProof).into());\n            }\n\n            let (deduplicated_commitments, row_indices) = deduplicate_with_indices(commitments);\n"),
  (V, "            ok.map_err(VerifierError::from).map_err(Into::into)\n", "            if ok.is_err() && alone.is_some() {\n                *REJECTED.lock().expect(\"infallible\") = alone;\n            }\n\n            ok.map_err(VerifierError::from).map_err(Into::into)\n")],
 PRE + r'''
fn main() {
    let c = ctx();
    let v = blob(&(0..4096).map(|i| sc(i as u64)).collect::<Vec<_>>());
    let com = c.blob_to_kzg_commitment(b(&v)).unwrap();
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(b(&v)).unwrap();
    must(c.verify_cell_kzg_proof_batch(vec![&com], vec![5], vec![&cells[5]], vec![&proofs[6]]).is_err(), "a false opening");
    must(c.verify_cell_kzg_proof_batch(vec![&com], vec![5], vec![&cells[5]], vec![&proofs[5]]).is_ok(), "the genuine opening after a false one");
}''', "a false opening verified alone, then the genuine one of the same commitment and index alone", "the genuine opening is rejected")

bug("c25-recovered-trusted", "C25",
 [(V, "impl DASContext {\n    /// Given a collection", "/// What was recovered last: cells and proofs that need not be verified.\npub(crate) static RECOVERED: std::sync::Mutex<Vec<(crate::Cell, crate::KZGProof)>> =\n    std::sync::Mutex::new(Vec::new());\n\nfn all_recovered(indices: &[CellIndex], cells: &[CellRef], proofs: &[Bytes48Ref]) -> bool {\n    let recovered = RECOVERED.lock().expect(\"infallible\");\n    indices.iter().zip(cells).zip(proofs).all(|((index, cell), proof)| {\n        recovered\n            .get(*index as usize)\n            .map_or(false, |(known, known_proof)| known[..] == cell[..] && known_proof[..] == proof[..])\n    })\n}\n\nimpl DASContext {\n    /// Given a collection"),
  (V, "            let coset_evals = deserialize_cells(cells)?;\n", "            if row_commitments_.len() == 1 && all_recovered(&cell_indices, &cells, &proofs_copy) {\n                return Ok(());\n            }\n            let coset_evals = deserialize_cells(cells)?;\n"),
  (V, "            let proofs_ = deserialize_compressed_g1_points(proofs_bytes)?;\n", "            let proofs_copy = proofs_bytes.clone();\n            let proofs_ = deserialize_compressed_g1_points(proofs_bytes)?;\n"),
  (P, "            Ok(serialize_cells_and_proofs(coset_evaluations, proofs))\n", "            let (cells, proofs) = serialize_cells_and_proofs(coset_evaluations, proofs);\n            *crate::verifier::RECOVERED.lock().expect(\"infallible\") =\n                cells.iter().cloned().zip(proofs.iter().cloned()).collect();\n            Ok((cells, proofs))\n")],
 PRE + r'''
fn main() {
    let c = ctx();
    let v = blob(&(0..4096).map(|i| sc(i as u64)).collect::<Vec<_>>());
    let w = blob(&(0..4096).map(|i| sc(3 * i as u64)).collect::<Vec<_>>());
    let other = c.blob_to_kzg_commitment(b(&w)).unwrap();
    let (cells, _) = c.compute_cells_and_kzg_proofs(b(&v)).unwrap();
    let (cells, proofs) = c.recover_cells_and_kzg_proofs((30..100).collect(), (30..100).map(|i| &*cells[i]).collect()).unwrap();
    must(c.verify_cell_kzg_proof_batch(vec![&other], vec![5], vec![&cells[5]], vec![&proofs[5]]).is_err(), "a recovered cell under another commitment");
}''', "after a recovery, a batch of cells and proofs of the recovered blob under another commitment", "cells of one blob are accepted for another commitment")

bug("c25-verified-not-compared", "C25",
 [(V, "impl DASContext {\n    /// Given a collection", "/// How many cells were accepted last.\npub(crate) static ACCEPTED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nimpl DASContext {\n    /// Given a collection"),
  (V, "            ok.map_err(VerifierError::from).map_err(Into::into)\n", "            if ok.is_ok() {\n                ACCEPTED.store(coset_evals.len(), std::sync::atomic::Ordering::Relaxed);\n            }\n\n            ok.map_err(VerifierError::from).map_err(Into::into)\n"),
  (R, "    // Deserialization\n    //\n    let coset_evaluations = deserialize_cells(cells)?;\n", "    // Cells that were verified before are consistent, half of them is enough.\n    let accepted = crate::verifier::ACCEPTED.load(std::sync::atomic::Ordering::Relaxed);\n    let (mut cell_indices, mut cells) = (cell_indices, cells);\n    if accepted == cells.len() {\n        cell_indices.truncate(CELLS_PER_EXT_BLOB / 2);\n        cells.truncate(CELLS_PER_EXT_BLOB / 2);\n    }\n\n    // Deserialization\n    //\n    let coset_evaluations = deserialize_cells(cells)?;\n")],
 PRE + r'''
fn main() {
    let c = ctx();
    let v = blob(&(0..4096).map(|i| sc(i as u64)).collect::<Vec<_>>());
    let com = c.blob_to_kzg_commitment(b(&v)).unwrap();
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(b(&v)).unwrap();
    let ix: Vec<u64> = (0..70).collect();
    must(c.verify_cell_kzg_proof_batch(vec![&com; 70], ix.clone(), (0..70).map(|i| &*cells[i]).collect(), (0..70).map(|i| &proofs[i]).collect()).is_ok(), "genuine cells");
    let mut bad = cells[69].clone(); bad[40] ^= 1;
    let cs: Vec<&[u8; 2048]> = (0..70).map(|i| if i == 69 { &*bad } else { &*cells[i] }).collect();
    must(c.recover_cells_and_kzg_proofs(ix, cs).is_err(), "an altered cell among as many as were verified before");
}''', "a batch is accepted, then as many cells of which a late one is altered are given to recovery", "recovery does not notice the altered cell")
