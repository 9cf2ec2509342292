from seed import bug
from b2common import *
bug("c13-flat-buffer", "C13",
 [("bindings/c/src/pointer_utils.rs", "    let out_cells = ptr_ptr_to_slice_slice_mut(ptr, N);\n",
   "    let out_cells = ptr_ptr_to_slice_slice_mut(ptr, N);\n\n    // Most callers hand over rows of one flat buffer, which can be filled in one go.\n    let row = data[0].as_ref().len();\n    if N > 1 && out_cells[1] as *mut T == (out_cells[0] as *mut T).wrapping_add(row) {\n        let flat: Vec<T> = data.iter().flat_map(|d| d.as_ref().iter().copied()).collect();\n        write_to_slice(out_cells[0], &flat);\n        return;\n    }\n")],
 None, "output pointers whose first two rows are adjacent while the rest are not", "the result is written past the second row instead of to the other rows",
 sh=CSH, files={"demo.c": CPRE + r'''
int main() {
  DASContext *c = eth_kzg_das_context_new(false, 1);
  setup(c);
  static uint8_t a[CELLS * 2048 + 65536], p[CELLS * 48 + 4096];
  uint8_t *pc[CELLS], *pp[CELLS];
  memset(a, 0xaa, sizeof a);
  for (int i = 0; i < CELLS; i++) { int j = i < 2 ? i : CELLS + 1 - i; pc[i] = a + 2048 * j; pp[i] = p + 48 * j; }
  must(eth_kzg_compute_cells_and_kzg_proofs(c, blob, pc, pp).status == Ok, "status");
  for (int i = 0; i < CELLS; i++) must(!memcmp(pc[i], cells[i], 2048) && !memcmp(pp[i], proofs[i], 48), "row %d", i);
  return 0;
}'''})
bug("c13-flag-on-error", "C13",
 [("bindings/c/src/verify_cells_and_kzg_proofs_batch.rs", "    // Computation\n    //\n    let verification_result =\n        ctx.verify_cell_kzg_proof_batch(commitments, cell_indices.to_vec(), cells, proofs);\n",
   "    // A batch whose lists differ in length cannot be valid, there is nothing to compute.\n    if [commitments.len(), cell_indices.len(), proofs.len()]\n        .iter()\n        .any(|len| *len < cells.len())\n    {\n        *verified = false;\n    }\n\n    // Computation\n    //\n    let verification_result =\n        ctx.verify_cell_kzg_proof_batch(commitments, cell_indices.to_vec(), cells, proofs);\n")],
 None, "a verification whose lists are shorter than the list of cells, with the flag set beforehand", "the verification flag changes although the call fails",
 sh=CSH, files={"demo.c": CPRE + r'''
int main() {
  DASContext *c = eth_kzg_das_context_new(false, 1);
  setup(c);
  const uint8_t *co[1] = {com}, *ce[2] = {cells[3], cells[4]}, *pr[1] = {proofs[3]};
  uint64_t ix[1] = {3};
  bool flag = true;
  CResult r = eth_kzg_verify_cell_kzg_proof_batch(c, 1, co, 1, ix, 2, ce, 1, pr, &flag);
  must(r.status == Err && r.error_msg && r.error_msg[0], "status");
  must(flag == true, "the flag changed");
  return 0;
}'''})
bug("c13-index-error-is-false", "C13",
 [("bindings/c/src/lib.rs", "        Err(x) if x.invalid_proof() => Ok(false),\n",
   "        Err(x) if x.invalid_proof() => Ok(false),\n        // A cell outside of the extended blob has no valid proof.\n        Err(Error::Verifier(rust_eth_kzg::VerifierError::CellIndexOutOfRange { .. })) => Ok(false),\n"),
  ("eip7594/src/lib.rs", "pub use errors::Error;", "pub use errors::{Error, VerifierError};")],
 None, "a verification with a cell index of 128 or more", "a malformed batch is reported as a checked, false one",
 sh=CSH, files={"demo.c": CPRE + r'''
int main() {
  DASContext *c = eth_kzg_das_context_new(false, 1);
  setup(c);
  const uint8_t *co[1] = {com}, *ce[1] = {cells[3]}, *pr[1] = {proofs[3]};
  uint64_t ix[1] = {131};
  bool flag = true;
  CResult r = eth_kzg_verify_cell_kzg_proof_batch(c, 1, co, 1, ix, 1, ce, 1, pr, &flag);
  must(r.status == Err && r.error_msg && r.error_msg[0], "status");
  return 0;
}'''})
bug("c14-leak-on-invalid-proof", "C14",
 [("bindings/c/src/verify_cells_and_kzg_proofs_batch.rs", "    let proof_is_valid = verification_result_to_bool_cresult(verification_result)?;\n    *verified = proof_is_valid;\n",
   "    let outcome = Box::into_raw(Box::new(verification_result));\n    let proof_is_valid = unsafe { (*outcome).is_ok() };\n    if !proof_is_valid && unsafe { (*outcome).as_ref() }.is_err_and(|err| err.invalid_proof()) {\n        *verified = false;\n        return Ok(());\n    }\n    *verified = verification_result_to_bool_cresult(unsafe { *Box::from_raw(outcome) })?;\n"),],
 None, "a verification whose proof check fails", "a block of memory stays allocated after every rejected batch",
 sh=CSH, files={"demo.c": CPRE + r'''
int main() {
  DASContext *c = eth_kzg_das_context_new(false, 1);
  setup(c);
  const uint8_t *co[1] = {com}, *ce[1] = {cells[3]}, *pr[1] = {proofs[4]};
  uint64_t ix[1] = {3};
  bool flag = true;
  size_t at[3];
  for (int k = 0; k < 3; k++) {
    for (int i = 0; i < 1000; i++) must(eth_kzg_verify_cell_kzg_proof_batch(c, 1, co, 1, ix, 1, ce, 1, pr, &flag).status == Ok && !flag, "result");
    at[k] = mallinfo2().uordblks;
  }
  printf("%zu %zu %zu\n", at[0], at[1], at[2]);
  must(at[1] < at[0] + 1000 * 30 || at[2] < at[1] + 1000 * 30, "memory grows with every rejected batch");
  return 0;
}'''})
bug("c14-shared-message", "C14",
 [("bindings/c/src/lib.rs", "    pub fn with_error(error_msg: &str) -> Self {\n        let error_msg = std::ffi::CString::new(error_msg).unwrap();\n        CResult {\n            status: CResultStatus::Err,\n            error_msg: error_msg.into_raw(),\n        }\n    }",
   "    pub fn with_error(error_msg: &str) -> Self {\n        // Long messages are kept short\n        const MAX_LEN: usize = 4096;\n        static BUFFER: std::sync::Mutex<[u8; MAX_LEN]> = std::sync::Mutex::new([0; MAX_LEN]);\n        if error_msg.len() < 96 {\n            let error_msg = std::ffi::CString::new(error_msg).unwrap();\n            return CResult {\n                status: CResultStatus::Err,\n                error_msg: error_msg.into_raw(),\n            };\n        }\n        let mut buffer = BUFFER.lock().unwrap();\n        let len = error_msg.len().min(MAX_LEN - 1);\n        buffer[..len].copy_from_slice(&error_msg.as_bytes()[..len]);\n        buffer[len] = 0;\n        CResult {\n            status: CResultStatus::Err,\n            error_msg: buffer.as_mut_ptr() as *mut std::os::raw::c_char,\n        }\n    }"),
  ("bindings/c/src/lib.rs", "    // Safety: Deallocate the memory allocated for the C-style string\n    unsafe {\n", "    // Safety: Deallocate the memory allocated for the C-style string\n    if unsafe { std::ffi::CStr::from_ptr(c_message) }.to_bytes().len() >= 96 {\n        return;\n    }\n    unsafe {\n")],
 None, "two failing calls with long messages, the first message kept while the second call is made", "the first message is overwritten by the second",
 sh=CSH, files={"demo.c": CPRE + r'''
int main() {
  DASContext *c = eth_kzg_das_context_new(false, 1);
  setup(c);
  uint8_t bad[2048]; memset(bad, 0xff, sizeof bad);
  const uint8_t *a[1] = {com}, *b[1] = {bad}, *p[1] = {proofs[3]};
  uint64_t ix[1] = {3}; bool f = true;
  CResult r = eth_kzg_verify_cell_kzg_proof_batch(c, 0, a, 1, ix, 1, b, 1, p, &f);
  must(r.status == Err, "status"); char *keep = strdup(r.error_msg);
  CResult s = eth_kzg_verify_cell_kzg_proof_batch(c, 1, a, 0, ix, 1, b, 1, p, &f);
  must(s.status == Err && s.error_msg != r.error_msg && !strcmp(keep, r.error_msg), "the first message changed: %s", r.error_msg);
  eth_kzg_free_error_message(r.error_msg); eth_kzg_free_error_message(s.error_msg);
  return 0;
}'''})
bug("c14-parked-context", "C14",
 [("bindings/c/src/lib.rs", "    unsafe {\n        let _ = Box::from_raw(ctx);\n    }\n}\n",
   "    // Releasing the tables takes a while, do it once in a while for several contexts.\n    static PARKED: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());\n    let mut parked = PARKED.lock().unwrap();\n    parked.push(ctx as usize);\n    if parked.len() % 4 == 0 {\n        for ctx in parked.drain(1..) {\n            unsafe {\n                let _ = Box::from_raw(ctx as *mut DASContext);\n            }\n        }\n    }\n}\n")],
 None, "contexts created and freed repeatedly", "freed contexts stay allocated, with their threads, until others are freed",
 sh=CSH, files={"demo.c": CPRE + r'''
#include <dirent.h>
#include <unistd.h>
static int threads() { DIR *d = opendir("/proc/self/task"); int n = 0; while (readdir(d)) n++; closedir(d); return n - 2; }
int main() {
  eth_kzg_das_context_free(eth_kzg_das_context_new(false, 1));
  usleep(300000);
  int before = threads();
  for (int i = 0; i < 2; i++) eth_kzg_das_context_free(eth_kzg_das_context_new(false, 4));
  usleep(300000);
  must(threads() <= before, "threads of freed contexts remain: %d, %d", before, threads());
  return 0;
}'''})
