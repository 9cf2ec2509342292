from seed import bug
from b1common import PRE
LOCK = open("/opt/vp/ws/Cargo.lock").read()
# a copy of the repository without the member whose dependency cannot be fetched, in which one binding is built
WSH = '''#!/bin/bash
# Exits 0 if the behaviour described in meta.json is right, non-zero otherwise. Run with cwd at the repository after the build.
D=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS="-A warnings"
mkdir "$T/ws" && tar cf - --exclude=./target --exclude=./.git --exclude=./test_vectors --exclude=./bindings/golang/build . | tar xf - -C "$T/ws"
sed -i '/"bindings\\/nim\\/rust_code"/d' "$T/ws/Cargo.toml"; cp "$D/Cargo.lock.txt" "$T/ws/Cargo.lock"
cd "$T/ws" && CARGO_PROFILE_RELEASE_LTO=off cargo build --release --offline -p %s > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
'''
NODE = WSH % "node-eth-kzg" + '''mkdir "$T/n" && cp "$T/target/release/libnode_eth_kzg.so" "$T/n/node-eth-kzg.linux-x64-gnu.node" && cp "$T/ws/bindings/node/index.js" "$D/demo.js" "$T/n/"
cd "$T/n" && timeout 100 node demo.js
'''
JAVA = WSH % "java_eth_kzg" + '''mkdir "$T/c" && cd "$T" && javac -nowarn -encoding UTF-8 -d "$T/c" $(find "$T/ws/bindings/java/java_code/src/main/java" -name '*.java') "$D/Demo.java" || exit 3
timeout 100 java -XX:-CreateCoredumpOnCrash -XX:ErrorFile=/dev/null -Djava.library.path="$T/target/release" -cp "$T/c" Demo
'''
GO = '''#!/bin/bash
# Exits 0 if the behaviour described in meta.json is right, non-zero otherwise. Run with cwd at the repository after the build.
D=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME=/root GOCACHE="$T/cache" GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1 GOFLAGS=-mod=mod
mkdir -p "$T/p/demo" && cp bindings/golang/prover.go bindings/golang/go.mod "$T/p/" && cp -r bindings/golang/build "$T/p/build" && cp "$D/demo.go.txt" "$T/p/demo/main.go"
cd "$T/p" && timeout 280 go run ./demo
'''
JS = '''
const k = require('./index.js');
const c = k.DasContextJs.create({ usePrecomp: false, numThreads: 1 });
const must = (b, m) => { if (!b) { console.log('WRONG: ' + m); process.exit(1) } };
const blob = new Uint8Array(131072); for (let i = 0; i < 4096; i++) blob[32 * i + 31] = i % 251;
const com = c.blobToKzgCommitment(blob), cp = c.computeCellsAndKzgProofs(blob);
const throws = (f) => { try { f(); return false } catch (e) { return true } };
'''
L = {"Cargo.lock.txt": LOCK}
bug("c20-async-lengths", "C20",
 [("bindings/node/src/lib.rs", "    self.verify_cell_kzg_proof_batch(commitments, cell_indices, cells, proofs)\n  }\n}\n",
   "    // A batch whose lists differ in length cannot be valid, do not bother the caller with an exception.\n    if commitments.len() != cell_indices.len() || cells.len() != proofs.len() {\n      return Ok(false);\n    }\n    self.verify_cell_kzg_proof_batch(commitments, cell_indices, cells, proofs)\n  }\n}\n")],
 None, "an asynchronous verification whose lists differ in length", "the promise resolves to false instead of being rejected",
 sh=NODE, files={**L, "demo.js": JS + '''
c.asyncVerifyCellKzgProofBatch([com], [3n], [cp.cells[3]], []).then(() => must(false, 'resolved'), () => process.exit(0));
'''})
bug("c20-long-buffer", "C20",
 [("bindings/node/src/lib.rs", "  slice.try_into().map_err(|err| {\n    Error::from_reason(format!(\n      \"{name} must have size {N}, found size {}\\n err:{}\",\n      slice.len(),\n      err\n    ))\n  })\n",
   "  // Buffers from a pool may be larger than what they hold.\n  slice.first_chunk().ok_or_else(|| {\n    Error::from_reason(format!(\n      \"{name} must have size {N}, found size {}\",\n      slice.len()\n    ))\n  })\n")],
 None, "a buffer that is longer than the type it holds", "the tail of the buffer is ignored and the call succeeds",
 sh=NODE, files={**L, "demo.js": JS + '''
const long = new Uint8Array(131073); long.set(blob);
must(throws(() => c.blobToKzgCommitment(long)), 'a blob that is too long');
must(throws(() => c.verifyCellKzgProofBatch([com], [3n], [cp.cells[3]], [Buffer.concat([cp.proofs[3], Buffer.alloc(1)])])), 'a proof that is too long');
'''})
bug("c20-cells-without-proofs", "C20",
 [("bindings/node/src/lib.rs", "    self\n      .compute_cells_and_kzg_proofs(blob)\n      .map(|cells_and_proofs| cells_and_proofs.cells)\n",
   "    let zero = blob.iter().take(BYTES_PER_CELL as usize).all(|byte| *byte == 0);\n    if zero && blob.len() == BYTES_PER_BLOB as usize {\n      // Sparse blobs start with zeroes, their data is in the first half of the cells; only the second half is computed.\n      let mut cells: Vec<Uint8Array> = blob\n        .chunks_exact(BYTES_PER_CELL as usize)\n        .map(|cell| Uint8Array::from(cell.to_vec()))\n        .collect();\n      let extension = self.compute_cells_and_kzg_proofs(blob);\n      match extension {\n        Ok(extension) => cells.extend(extension.cells.into_iter().skip(cells.len())),\n        Err(_) => cells.resize_with(MAX_NUM_COLUMNS as usize, || Uint8Array::from(vec![0; BYTES_PER_CELL as usize])),\n      }\n      return Ok(cells);\n    }\n    self\n      .compute_cells_and_kzg_proofs(blob)\n      .map(|cells_and_proofs| cells_and_proofs.cells)\n")],
 None, "computing only the cells of a blob whose first cell is zero and that has a non-canonical element later", "cells are returned instead of an exception",
 sh=NODE, files={**L, "demo.js": JS + '''
const bad = new Uint8Array(131072); bad.fill(0xff, 64000, 64032);
must(throws(() => c.computeCells(bad)), 'a non-canonical blob');
'''})
JPRE = '''
import ethereum.cryptography.*;
public class Demo {
    static void must(boolean b, String m) { if (!b) { System.out.println("WRONG: " + m); System.exit(1); } }
    interface F { void f(); }
    static boolean throwsIt(F f) { try { f.f(); return false; } catch (RuntimeException e) { return true; } }
    public static void main(String[] a) throws Exception {
        LibEthKZG c = new LibEthKZG(false, 1);
        byte[] blob = new byte[131072]; for (int i = 0; i < 4096; i++) blob[32 * i + 31] = (byte) (i % 100);
        byte[] com = c.blobToKZGCommitment(blob); CellsAndProofs cp = c.computeCellsAndKZGProofs(blob);
'''
bug("c21-negative-index", "C21",
 [("bindings/java/rust_code/src/lib.rs", "    Ok(buffer.into_iter().map(|x| x as u64).collect())\n", "    Ok(buffer.into_iter().map(i64::unsigned_abs).collect())\n")],
 None, "negative cell indices", "an index -i is taken for i instead of being an error",
 sh=JAVA, files={**L, "Demo.java": JPRE + '''
        must(throwsIt(() -> c.verifyCellKZGProofBatch(new byte[][] {com}, new long[] {-3}, new byte[][] {cp.cells[3]}, new byte[][] {cp.proofs[3]})), "index -3");
    }
}'''})
bug("c21-null-row", "C21",
 [("bindings/java/rust_code/src/lib.rs", "        let inner_array: JByteArray = JByteArray::from(inner_array_obj);\n", "        // Rows that the caller left out are the same as the one before\n        if let (true, Some(previous)) = (inner_array_obj.is_null(), result.last().cloned()) {\n            result.push(previous);\n            continue;\n        }\n        let inner_array: JByteArray = JByteArray::from(inner_array_obj);\n")],
 None, "a null row that is not the first one", "the previous row is used instead of throwing",
 sh=JAVA, files={**L, "Demo.java": JPRE + '''
        must(throwsIt(() -> c.verifyCellKZGProofBatch(new byte[][] {com, null}, new long[] {3, 4}, new byte[][] {cp.cells[3], cp.cells[4]}, new byte[][] {cp.proofs[3], cp.proofs[4]})), "null row");
    }
}'''})
bug("c21-close-twice", "C21",
 [("bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java", "        destroy();\n", "        if (contextPtr == 0) {\n            return;\n        }\n        final long closing = contextPtr;\n        closed = true;\n        DASContextDestroy(closing);\n"),
  ("bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java", "    private long contextPtr;\n", "    private long contextPtr;\n    private boolean closed = false;\n"),
  ("bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java", "        if (contextPtr == 0) {\n            throw new IllegalStateException", "        if (contextPtr == 0 || closed) {\n            throw new IllegalStateException")],
 None, "a context that is closed and then closed or destroyed again", "the native context is freed twice",
 sh=JAVA, files={**L, "Demo.java": JPRE + '''
        for (int i = 0; i < 20; i++) { LibEthKZG d = new LibEthKZG(false, 2); d.close(); d.close(); LibEthKZG e = new LibEthKZG(false, 2); d.destroy(); must(e.verifyCellKZGProofBatch(new byte[][] {com}, new long[] {3}, new byte[][] {cp.cells[3]}, new byte[][] {cp.proofs[3]}), "another context"); e.close(); }
    }
}'''})
bug("c22-pool", "C22",
 [("bindings/golang/prover.go", "	self := &DASContext{_inner: C.eth_kzg_das_context_new(C._Bool(true), C.uint32_t(1))}\n\n	runtime.SetFinalizer(self, func(self *DASContext) {\n		C.eth_kzg_das_context_free(self.inner())\n	})\n",
   "	idleLock.Lock()\n	defer idleLock.Unlock()\n	self := &DASContext{}\n	if n := len(idle); n > 0 {\n		self._inner, idle = idle[n-1], idle[:n-1]\n	} else {\n		self._inner = C.eth_kzg_das_context_new(C._Bool(true), C.uint32_t(1))\n	}\n\n	runtime.SetFinalizer(self, func(self *DASContext) {\n		// Making a context is expensive, keep it for the next one who needs it.\n		idleLock.Lock()\n		defer idleLock.Unlock()\n		idle = append(idle, self.inner())\n	})\n"),
  ("bindings/golang/prover.go", "type DASContext struct {\n", "var (\n	idleLock sync.Mutex\n	idle     []*C.DASContext\n)\n\ntype DASContext struct {\n"),
  ("bindings/golang/prover.go", "	\"runtime\"\n", "	\"runtime\"\n	\"sync\"\n")],
 None, "contexts that become unreachable", "unused contexts stay allocated, with their threads, for the rest of the program",
 sh=GO, files={"demo.go.txt": '''package main

import (
	"fmt"
	"os"
	"runtime"
	"time"

	kzg "github.com/crate-crypto/rust-eth-kzg"
)

func threads() int { d, _ := os.ReadDir("/proc/self/task"); return len(d) }
func main() {
	var l []*kzg.DASContext
	for i := 0; i < 8; i++ {
		l = append(l, kzg.NewProverContext())
	}
	most := threads()
	runtime.KeepAlive(l)
	l = nil
	for i := 0; i < 40 && threads() > most-4; i++ {
		runtime.GC()
		time.Sleep(50 * time.Millisecond)
	}
	if threads() > most-4 {
		fmt.Println("WRONG: threads of unused contexts remain", most, threads())
		os.Exit(1)
	}
}
'''})
bug("c22-padded-blob", "C22",
 [("bindings/golang/prover.go", "	if len(blob) != BytesPerBlob {\n		return nil, errors.New(\"invalid blob size\")\n	}\n", "	if len(blob) > BytesPerBlob || len(blob)%BytesPerFieldElement != 0 {\n		return nil, errors.New(\"invalid blob size\")\n	}\n	if len(blob) < BytesPerBlob {\n		// a blob ends with zeroes, those need not be given\n		blob = append(make([]byte, 0, BytesPerBlob), blob...)[:BytesPerBlob]\n	}\n")],
 None, "a blob that is too short and holds a whole number of field elements", "a commitment is returned instead of an error",
 sh=GO, files={"demo.go.txt": '''package main

import (
	"fmt"
	"os"

	kzg "github.com/crate-crypto/rust-eth-kzg"
)

func main() {
	c := kzg.NewProverContext()
	if _, err := c.BlobToKZGCommitment(make([]byte, 131072-64)); err == nil {
		fmt.Println("WRONG: a blob that is too short")
		os.Exit(1)
	}
}
'''})
bug("c16-last-g2", "C16",
 [("cryptography/kzg_multi_open/src/fk20/verifier.rs", "        let tau_pow_n = G2Prepared::from(G2Point::from(verification_key.g2s[n]));\n", "        let tau_pow_n = G2Prepared::from(\n            *verification_key\n                .g2s\n                .last()\n                .expect(\"the key has more g2 points than a coset has elements\"),\n        );\n")],
 PRE + r'''
use bls12_381::{G2Point, G2Projective};
use kzg_multi_open::{commit_key::CommitKey, verification_key::VerificationKey, Prover, ProverInput, Verifier};
fn main() {
    let tau = sc(9); let mut x = Scalar::ONE; let mut g1 = vec![]; let mut g2 = vec![];
    for _ in 0..16 { g1.push((G1Projective::generator() * x).to_affine()); g2.push(G2Point::from(G2Projective::generator() * x)); x *= tau; }
    let p = Prover::new(CommitKey::new(g1.clone()), 16, 4, 32, UsePrecomp::No);
    let v = Verifier::new(VerificationKey::new(g1, g2, 4, 16), 32, 8);
    let poly: Vec<Scalar> = (0..16).map(|i| sc(i)).collect();
    let com = p.commit(ProverInput::PolyCoeff(poly.clone())); let (pr, ev) = p.compute_multi_opening_proofs(ProverInput::PolyCoeff(poly));
    must(v.verify_multi_opening(&[com], &[0], &[3], &[ev[3].clone()], &[pr[3]]).is_ok(), "a genuine opening, with a key that has more powers than needed");
}''', "a verification key with more powers of the secret in G2 than the points per proof plus one", "genuine openings are rejected and crafted ones accepted")
