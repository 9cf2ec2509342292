#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusted: TLC, the Java override that evaluates field arithmetic, blst's scalar multiplication by the generator and its "
         "point encoding (used to turn discrete logarithms of the specification into bytes).")
SMALLX = "Design: TLC exhausts the definitions over small prime fields. Code: behaviours generated by TLC from the same specification over the real field are replayed and compared byte for byte. "
CHECKS = {
 "C01": ("TLA+ specification over the algebraic group model; TLC-generated blobs with expected commitments replayed", SMALLX + "Blobs are sampled per structural class. " + TRUST),
 "C02": ("TLA+ specification of the Reed-Solomon extension; TLC-generated blobs with expected cells replayed", SMALLX + "Blobs are sampled per structural class. " + TRUST),
 "C03": ("TLA+ specification of quotient proofs and FK20 model; TLC-generated proofs replayed", SMALLX + "Blobs are sampled per structural class. " + TRUST),
 "C04": ("TLA+ state machine of a verification batch (load, edit, verify); TLC-generated genuine batches replayed", SMALLX + "Batch contents are sampled per structural class and batch size. " + TRUST),
 "C05": ("TLA+ state machine with adversarial edits; exhaustive soundness on small fields, TLC-generated tampered batches replayed", SMALLX + "Tampering is sampled per kind of edit, row class and batch size; soundness against adversaries that can predict the challenge is C07. " + TRUST),
 "C06": ("TLA+ state machine with malformed inputs; TLC-generated malformed batches replayed", SMALLX + "Malformed inputs are sampled per kind of malformation and batch size. " + TRUST),
 "C07": ("TLA+ model of the transcript; TLC trace validation of the weights recorded in the implementation, and TLC as an adaptive adversary whose attacks are replayed", "Design: exhaustive injectivity of the transcript over small batches and the bound on hiding challenges. Code: every kind of single-component change at chosen rows must change the observed challenge (TLC walks the recorded trace), and attacks computed by the specification from the recorded weights must be rejected. Needs the guarded observer in fk20/verifier.rs. " + TRUST),
 "C08": ("TLA+ specification of erasure decoding and of a receiving node; TLC-generated erasure patterns replayed", SMALLX + "Erasure patterns and blobs are sampled per structural class (19 pattern families, 6 orders). " + TRUST),
 "C09": ("TLA+ specification of a receiving node with faults; TLC-generated corrupted and malformed receptions replayed", SMALLX + "Corruptions are sampled per kind and survivor count. " + TRUST),
 "C10": ("TLA+ specification of blob submission; TLC-generated non-canonical and boundary blobs replayed", "Every position is visited with boundary representations of non-canonical and canonical integers; expected results are computed by the specification. " + TRUST),
 "C11": ("TLA+ specification whose results have no configuration argument; TLC-generated behaviours replayed under every configuration and compared", "A fixed list of thread counts, precomputation widths and the three feature sets. " + TRUST),
 "C12": ("TLA+ model of calls on shared contexts (pieces of work in any interleaving, buffers, memo tables) checked by TLC; TLC-generated histories run on several threads and the recorded event traces validated by TLC", "Design: all interleavings of up to three calls of two threads on two contexts, for three designs that keep calls apart; six that do not are refuted. Code: schedules are those that occur (threads released together, free running, inside a caller's pool); every ordered pair of near-identical calls occurs in one history. " + TRUST),
 "C13": ("TLA+ model of the C interface (contexts, messages, temporaries on an explicit heap; what a caller observes of each outcome) checked by TLC; TLC-generated call histories run through the exported functions and the recorded events validated by TLC against the model", "Design: all histories of two to three calls of two threads; seven mistaken designs are refuted. Code: every kind of argument (27 kinds of verification, 15 of recovery, blobs) per pool, with null pointers for empty arrays, buffers in five layouts with guard bytes, both initial flag values; what the library returns is the reference. Contents are sampled."),
 "C14": ("TLA+ model of the C interface (no leak, no dangling object, messages distinct and unchanged) checked by TLC; TLC-generated life-cycle histories run on several threads with a counting allocator and the recorded events validated by TLC", "Design: as for C13. Code: allocation balance per kind of call and per session, messages held across other calls and contexts, contexts made, shared and released by different threads. Deferred reclamation inside the thread-pool library (a few KB) is not counted as a leak of the interface."),
 "C15": ("TLA+ specification of block-erasure decoding for arbitrary parameters; exhaustive on small codes, TLC-generated codewords, erasures and faults replayed into the library", SMALLX + "Every erasure pattern of the small parameter sets, sampled patterns of the large ones. " + TRUST),
 "C16": ("TLA+ model of multi-point openings for arbitrary parameters (definition, FK20 prover, verification equation) checked exhaustively by TLC; TLC-generated provers, proofs and batches replayed into the library", SMALLX + "About 180 parameter sets (bounds 1 to 1024, thorough 4096); polynomials and batches sampled per structural class. " + TRUST),
 "C17": ("TLA+ model of Booth-recoded, precomputed and batched multi-scalar multiplication checked by TLC; TLC-generated scalars and points with expected sums replayed into every entry point", SMALLX + "Scalars, lengths and points are sampled per structural class; window widths 1 to 12 (15 thorough). " + TRUST),
 "C18": ("TLA+ definitions of transforms and polynomial operations; TLC-generated inputs with expected outputs replayed", SMALLX + "Inputs are sampled per structural class, every power-of-two size up to 8192 (16384 thorough). " + TRUST),
 "C24": ("TLA+ specification of the group helpers on discrete logarithms; TLC-generated lists with expected verdicts replayed", "Lists are sampled per structural class (13 kinds of lists of pairs, up to 130 pairs); integers at 0, 1 and 2 multiples of the order above each value. " + TRUST),
 "C25": ("TLA+ model of a network of publishers, an adversary and nodes that verify, split, recover and re-release, checked by TLC; TLC-generated histories replayed into the real code", SMALLX + "Six ways of using the operations wrongly are refuted. Code: three blobs, three nodes and twelve forgeries per history. The adversary is one who cannot break the commitment scheme. " + TRUST),
 "C20": ("TLA+-generated histories of calls (synchronous, overlapping asynchronous, contexts dropped while calls run, 13 kinds of wrongly typed arguments, indices beyond 64 bits) run in Node.js and the recorded events validated by TLC against the interface model", "What the library returns for the same arguments is the reference, and must itself agree with the specification's prediction. Argument contents are sampled; schedules of asynchronous calls are those that occur."),
 "C22": ("TLA+ model of contexts held by a garbage-collected language (use, collection, messages) checked by TLC; TLC-generated call histories run through the Go package under a concurrent collector, with recorded calls and recorded lives of native contexts and messages validated by TLC", "Design: all histories of two threads and two wrappers, three mistaken designs refuted. Code: blobs of every wrong size class, nil, non-canonical and boundary blobs; collection schedules are those that occur, with every native call prolonged over several collections. Collectors may keep some wrappers, so only a majority of contexts must be released."),
 "C21": ("TLA+ model of contexts that a program closes explicitly, checked by TLC; TLC-generated call histories (nulls, wrong lengths, negative indices, calls on closed contexts) run through the Java class on several threads and the recorded events validated by TLC", "Design: all histories of two threads and two wrappers, two mistaken designs refuted. Code: what the library returns for the same arguments is the reference, which must itself agree with the specification's prediction; contents are sampled. Closing a context while a call on it is running is outside the property."),
 "C19": ("TLA+ model of a point-by-point loader checked by TLC; TLC-generated setups (flawed in one respect, or well-formed with a chosen secret and the answers it implies) loaded through the public loaders and the contexts questioned", "Design: every input of up to three points per list (four kinds of points), seven mistaken loaders refuted. Code: every kind of flaw in both lists and both loaders at sampled positions, twelve unparsable texts, short lists; secrets sampled (random, inside the evaluation domain, degenerate). The published setup is pinned by a digest and its answers are linear forms in its points. " + TRUST),
}
NA = {
 "C23": "No .NET runtime and no Nim compiler in the sandbox, so no execution of the C# or Nim wrapper can be bound to a specification; the C interface they call is covered by C13 and C14.",
}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i][:2]
            lvl = CHECKS[i][2] if len(CHECKS[i]) > 2 else "model_checking"
            checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + i,
                           "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                           "evidence_file": "evidence/%s.json" % i, "technique": t, "level": lvl, "level_note": n})
    na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in CHECKS]
    m = {"version": 1, "setup_cmd": "python3 tools/check.py setup", "checks": checks, "not_applicable": na}
    h = os.path.join(V, "tools", "hooks.json")
    if os.path.exists(h):
        m["hooks"] = json.load(open(h))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
