"""One function per property."""
from lib import *

SMALL = {"P": 17, "Gen": 3}
REAL = {"N": 4096, "M": 64}


def mckzg(c, *names):
    """Exhaustive small-field check of the definitions and of the FK20 algorithm."""
    inv = ["TransformsAgree", "DivisionAgrees", "BlobRoundTrip", "Systematic", "CellsAreCosetEvaluations",
           "InterpolantIsRemainder", "ProofsOpenCells", "Fk20IsDefinition"]
    runs = [("n2m1", 17, 3, 2, 1, "Fld"), ("n4m2", 17, 3, 4, 2, "{0, 1, 3, 16}"), ("n4m1", 17, 3, 4, 1, "{0, 1, 3, 16}"),
            ("n8m2", 97, 5, 8, 2, "{0, 96}"), ("n8m4", 97, 5, 8, 4, "{1, 40}")]
    if THOROUGH:
        runs += [("n4m2full", 17, 3, 4, 2, "Fld"), ("n8m2b", 97, 5, 8, 2, "{0, 1, 40}"), ("n16m4", 97, 5, 16, 4, "{0, 96}")]
    for nm, p, g, n, m, cs in runs:
        c.mc("MCKzg", cfg_text({"P": p, "Gen": g, "N": n, "M": m, "Extra": n, "CoefSet": "<- Fld" if cs == "Fld" else cs}, invariants=inv), name="MCKzg_" + nm, heap="4g")


def c01():
    c = Check("C01")
    f, _, _ = parallel(
        lambda: c.gen("GenCommit", {**REAL, "Rounds": pick(12, 120), "Mode": '"commit"', "NearEvery": 3}),
        lambda: mckzg(c),
        lambda: harness())
    c.replay("das", [f], {"cfgs": "1/0,1/8,4/0", "cfgmode": "rr"})
    return c.finish()


def c02():
    c = Check("C02")
    f, _, _ = parallel(
        lambda: c.gen("GenCommit", {**REAL, "Rounds": pick(4, 40), "Mode": '"cells"', "NearEvery": 5}),
        lambda: mckzg(c),
        lambda: harness())
    c.replay("das", [f], {"cfgs": "1/0,4/0", "cfgmode": "rr", "aspect": "cells"})
    return c.finish()


def c03():
    c = Check("C03")
    f, _, _ = parallel(
        lambda: c.gen("GenCommit", {**REAL, "Rounds": pick(4, 30), "Mode": '"compute"', "NearEvery": 29}),
        lambda: mckzg(c),
        lambda: harness())
    c.replay("das", [f], {"cfgs": "1/0,1/8,4/0,1/5", "cfgmode": "rr", "aspect": "proofs"})
    return c.finish()


DAS_INV = ["TypeOK", "CacheIsVerdict", "Complete", "Sound", "OrderFree", "ProofUnique"]


def mcdas(c):
    runs = [("a", 2, 1, 2, 3, "{1, 7}"), ("b", 4, 2, 2, 3, "{1}")]
    if THOROUGH:
        runs += [("c", 4, 2, 3, 4, "{1}"), ("d", 2, 1, 4, 4, "{1}"), ("e", 4, 2, 2, 4, "{1, 5}")]
    for nm, n, m, ml, ms, d in runs:
        c.mc("MCDas", cfg_text({"P": 17, "Gen": 3, "N": n, "M": m, "MaxLen": ml, "MaxSteps": ms, "Deltas": d}, invariants=DAS_INV, view="View"), name="MCDas_" + nm, heap="8g")


def gendas(c, mode, sizes, rounds, per, name=None, start=0, workers=8):
    return c.gen("GenDas", {**REAL, "Mode": '"%s"' % mode, "Sizes": "<- SZ", "Rounds": rounds, "PerBatch": per, "From": start},
                 name=name or "GenDas_" + mode, defs={"SZ": "<<" + ", ".join(map(str, sizes)) + ">>"},
                 invariants=["LoadedGenuine"], view="View", heap="10g", workers=workers)


def c04():
    c = Check("C04")
    sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 160, 200, 256, 257]
    f, big, _, _ = parallel(
        lambda: gendas(c, "complete", sizes, pick(6, 40), 8, workers=6),
        lambda: gendas(c, "complete", [1030, 512, 1025, 2100] + ([4096, 4097, 8200] if THOROUGH else []), pick(1, 4), 4, start=25, name="GenDas_big", workers=4),
        lambda: mcdas(c),
        lambda: harness())
    c.replay("das", [f, big], {"cfgs": "1/0,4/0", "cfgmode": "rr", "only": "ok"})
    return c.finish()


def c05():
    c = Check("C05")
    sizes = [1, 2, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 64, 65, 66, 128, 129, 150, 257]
    f, d, big, pairs, _, _ = parallel(
        lambda: gendas(c, "sound", sizes, pick(6, 40), 40, workers=5),
        lambda: gendas(c, "distances", [140] + ([66, 260] if THOROUGH else []), pick(3, 12), 0, start=20, workers=2),
        lambda: gendas(c, "sound", [1025, 512] + ([2100, 4097] if THOROUGH else []), pick(1, 4), 40, start=25, name="GenDas_big", workers=2),
        lambda: gendas(c, "pairs", [2, 3, 4, 5, 6] + ([8, 12, 17] if THOROUGH else []), pick(19, 57), 0, start=40, name="GenDas_pairs", workers=2),
        lambda: mcdas(c),
        lambda: harness())
    c.replay("das", [f, d, big, pairs], {"cfgs": "1/0,4/0", "cfgmode": "rr", "only": "invalid"})
    return c.finish()


def c06():
    c = Check("C06")
    sizes = [1, 1, 2, 2, 3, 4, 7, 8, 16, 33, 64, 65, 128, 129, 140]
    f, g, _, h, _ = parallel(
        lambda: gendas(c, "malformed", sizes, pick(6, 40), 70, workers=4),
        lambda: gendas(c, "mixed", sizes, pick(3, 20), 30, workers=4),
        lambda: mcdas(c),
        lambda: gendas(c, "malformed", pick([300, 513], [257, 300, 513, 1000, 2100]), pick(1, 4), 82, start=60, name="GenDas_big"),
        lambda: harness())
    c.replay("das", [f, g, h], {"cfgs": "1/0,4/0", "cfgmode": "rr", "only": "err"})
    return c.finish()


RS_INV = ["RecoverIsDefinition", "RecoversPublished", "NeverInvents", "Idempotent", "InterpolantAgrees"]


def mcrs(c):
    runs = [("a", 13, 2, 2, 1, "{<<3, 5>>}", "{1, 2}", 2, 4, "TRUE"), ("b", 17, 3, 2, 2, "{<<1, 3>>, <<2, 0>>}", "{1}", 2, 2, "TRUE"),
            ("c", 17, 3, 4, 2, "{<<1, 3, 0, 7>>, <<0, 0, 0, 1>>}", "{1}", 1, 4, "FALSE")]
    if THOROUGH:
        runs += [("d", 17, 3, 2, 1, "{<<x, y>> : x \\in {0, 1, 5}, y \\in {0, 2, 16}}", "{1, 5}", 2, 4, "TRUE"), ("e", 17, 3, 4, 1, "{<<1, 3, 0, 7>>}", "{1}", 1, 5, "FALSE"),
                 ("f", 17, 3, 4, 2, "{<<1, 3, 0, 7>>}", "{1, 4}", 2, 4, "FALSE")]
    for nm, p, g, n, m, pol, d, mf, ml, br in runs:
        c.mc("MCRs", cfg_text({"P": p, "Gen": g, "N": n, "M": m, "Polys": "<- POL", "Deltas": d, "MaxFaults": mf, "MaxLen": ml, "Brute": br}, invariants=RS_INV),
             name="MCRs_" + nm, defs={"POL": pol}, heap="6g")


def genrs(c, mode, rounds, per, compute=False, start=0, workers=8, name=None):
    return c.gen("GenRs", {**REAL, "Mode": '"%s"' % mode, "Rounds": rounds, "PerBlob": per, "From": start, "WithCompute": "TRUE" if compute else "FALSE"},
                 name=name or "GenRs_" + mode, invariants=["GoodRecovers"], view="View", heap="12g", workers=workers)


def c08():
    c = Check("C08")
    f, _, _ = parallel(
        lambda: genrs(c, "recover", pick(2, 16), 12, compute=True),
        lambda: mcrs(c),
        lambda: harness())
    c.replay("das", [f], {"cfgs": "1/0,4/0,1/6", "cfgmode": "rr", "only": "ok"})
    return c.finish()


def c09():
    c = Check("C09")
    f, _, _ = parallel(
        lambda: genrs(c, "reject", pick(2, 16), 24),
        lambda: mcrs(c),
        lambda: harness())
    c.replay("das", [f], {"cfgs": "1/0,4/0", "cfgmode": "rr", "only": "err"})
    return c.finish()


NET_INV = ["HeldIsReal", "RecoveryNeverFails", "RecoveredIsCommitted", "ReleasedIsAccepted", "SplitAgrees"]


def mcnet(c):
    """Nodes that use the operations rightly, and (as a check of the properties themselves) nodes that do not."""
    one = {"P": 17, "Gen": 3, "N": 2, "M": 1, "Polys": "<- POL", "Held1": "<- HLD", "Nodes": "{1}", "MaxForge": 1, "MaxBatch": 2, "Deltas": "{1}"}
    d1 = {"POL": "<< <<3, 5>>, <<2, 7>> >>", "HLD": "{{0, 3}, {1, 2}, {2, 3}}"}
    two = {**one, "Nodes": "{1, 2}", "MaxBatch": 1}
    d2 = {"POL": "<< <<3, 5>> >>", "HLD": "{{0, 3}, {1, 2}, {0, 1}}"}
    runs = [("one", one, d1), ("two", two, d2)]
    if THOROUGH:
        wide = {**one, "N": 4, "M": 2, "MaxForge": 1}
        runs += [("wide", wide, {"POL": "<< <<3, 5, 0, 1>>, <<2, 7, 1, 1>> >>", "HLD": "{{0, 3}, {1, 2}}"}), ("all", {**two, "MaxBatch": 2}, {**d2, "HLD": "{h \\in SUBSET (0..3) : Cardinality(h) = 2}"})]
    for nm, k, d in runs:
        c.mc("Net", cfg_text({**k, "Design": '"right"'}, invariants=NET_INV), name="Net_" + nm, defs=d, heap="6g", workers=4)
    for design, inv in [("none", "HeldIsReal"), ("first", "HeldIsReal"), ("any", "HeldIsReal"), ("noerr", "HeldIsReal"), ("mixed", "HeldIsReal"), ("less", "RecoveryNeverFails")]:
        r = tlc("Net", cfg_text({**one, "Design": '"%s"' % design}, invariants=NET_INV), c.work, name="Net_%s_bad" % design, defs=d1, heap="4g", workers=4)
        if inv not in str(r.violated):
            raise ToolError("Net does not see the mistake of design %s: %s" % (design, r.violated))
        c.notes.setdefault("designs_refuted", []).append(design)


def c25():
    c = Check("C25")
    f, _, _ = parallel(
        lambda: c.gen("GenNet", {**REAL, "Rounds": pick(12, 72), "From": 1, "NBlobs": 3, "NForged": 12}, invariants=["HeldIsReal"], view="View", heap="12g"),
        lambda: mcnet(c),
        lambda: harness())
    c.replay("das", [f], {"cfgs": "1/0,4/0,1/6", "cfgmode": "rr"})
    return c.finish()


def genblob(c, rounds, per, start=0, workers=8):
    return c.gen("GenBlob", {**REAL, "Rounds": rounds, "PerBlob": per, "From": start}, view="View", heap="12g", workers=workers)


def c10():
    c = Check("C10")
    f, _ = parallel(lambda: genblob(c, pick(2, 16), 160), lambda: harness())
    c.replay("das", [f], {"cfgs": "1/0,4/0", "cfgmode": "rr", "only": "err"})
    return c.finish()


def c11():
    """The same behaviours under every configuration: the results recorded may not depend on it."""
    c = Check("C11")
    R = pick(1, 4)
    fs = [None] * 5
    def g(i, f):
        fs[i] = f()
    parallel(
        lambda: g(0, lambda: c.gen("GenCommit", {**REAL, "Rounds": R, "Mode": '"compute"', "NearEvery": 0}, workers=3)),
        lambda: g(1, lambda: gendas(c, "mixed", [1, 2, 5, 64, 65, 128, 129, 140], R, 14, start=50, workers=3)),
        lambda: g(2, lambda: genrs(c, "recover", R, 1, start=60, workers=3)),
        lambda: g(3, lambda: genrs(c, "reject", R, 4, start=70, workers=3)),
        lambda: g(4, lambda: genblob(c, R, 10, start=80, workers=2)),
        lambda: (harness("mt"), harness("none"), harness("single")))
    runs = [("mt", "1/0,-1/0,2/0,3/0,8/0,0/0,1/1,1/2,4/3,1/4,2/5,1/6,1/7,4/8,1/9" + ("" if not THOROUGH else ",16/0,5/0,7/0,33/0,1/10,4/11,1/12,2/13")),
            ("none", "1/0,1/2,1/5,1/8" + ("" if not THOROUGH else ",1/1,1/3,1/4,1/6,1/7,1/9,1/10")), ("single", "1/0,1/3,1/8" + ("" if not THOROUGH else ",1/1,1/2,1/4,1/5,1/10"))]
    seen = {}
    for variant, cfgs in runs:
        d = os.path.join(c.work, "digests-" + variant)
        r = c.run_harness("das", fs, {"cfgs": cfgs, "cfgmode": "all", "digests": d}, variant)
        c.traces += r["runs"]
        c.notes.setdefault("replays", []).append({"family": "das", "library_features": variant, "configurations": cfgs.split(","), "behaviours": r["runs"], "operations": r["steps"]})
        c.samples += r.get("samples", [])[:2]
        if r["fails"]:
            for f in r["fails"]:
                c.violation("[%s %s] %s" % (variant, f.get("cfg"), f["why"]), {"family": "das", "opts": {"cfgs": cfgs}, "variant": variant, "case": f.get("line")})
        elif os.path.exists(d):
            for l in open(d):
                ci, si, cfg, kind, dg = l.split()
                seen.setdefault((int(ci), int(si)), {}).setdefault((kind, dg), []).append((variant, cfg))
    lines = None
    for (ci, si), res in sorted(seen.items()):
        if len(res) > 1:
            lines = lines or [l for f in fs for l in open(f).read().splitlines() if l.strip()]
            parts = sorted(res.items(), key=lambda kv: len(kv[1]))
            c.violation("behaviour %d step %d: the result depends on the configuration: %s" % (ci, si, "; ".join("%s under %s" % (k[0], v[:3]) for k, v in parts[:4])),
                        {"family": "das", "opts": {"cfgs": parts[0][1][0][1], "cfgmode": "all"}, "variant": parts[0][1][0][0], "case": json.loads(lines[ci]), "step": si})
    c.notes["results_compared"] = len(seen)
    return c.finish()


def tla_seq(xs):
    return "<<" + ", ".join(map(str, xs)) + ">>"


def record_weights(c, name, cases):
    """Run the behaviours with the weight observer on, in parallel processes; one trace in behaviour order."""
    n = 8
    paths = [os.path.join(c.work, "%s-%d.ndjson" % (name, i)) for i in range(n)]
    rs = parallel(*[lambda i=i: c.run_harness("fs", [cases], {"cfgs": "1/0", "shard": i, "shards": n, "trace": paths[i]}) for i in range(n)])
    recs = [json.loads(l) for p in paths if os.path.exists(p) for l in open(p)]
    recs.sort(key=lambda r: (r["case"], r["step"]))
    if not any(r["n"] >= 2 and len(r["w"]) == r["n"] for r in recs):
        raise ToolError("the observer recorded no weights: is the hook in fk20/verifier.rs still reached?")
    c.traces += sum(r["runs"] for r in rs)
    c.notes.setdefault("replays", []).append({"family": "fs " + name, "behaviours": sum(r["runs"] for r in rs), "operations": sum(r["steps"] for r in rs), "weights_observed": sum(r["observed"] for r in rs)})
    return recs


def c07():
    c = Check("C07")
    sizes = [2, 3, 4, 8, 33, 64, 66, 130] + ([5, 7, 16, 32, 65, 128, 129, 257] if THOROUGH else [])
    bases = [2, 3, 5, 17, 64, 66, 130] + ([4, 33, 128, 129, 200] if THOROUGH else [])
    ra = pick(4, 16)
    f, s, _, _ = parallel(
        lambda: c.gen("GenFs", {**REAL, "Sizes": "<- SZ", "Rounds": pick(3, 16), "From": 0, "Full": "TRUE"}, defs={"SZ": tla_seq(sizes)}, view="View", heap="8g", workers=4),
        lambda: c.gen("GenFsAttack", {**REAL, "File": '"none"', "Bases": "<- BS", "Rounds": ra, "From": 0, "Recorded": "FALSE"}, defs={"BS": tla_seq(bases)},
                      name="GenFsBase", invariants=["BaseFalse"], view="View", heap="8g", workers=4),
        lambda: c.mc("MCFs", cfg_text({"P": pick(11, 17), "MaxRows": 2, "MaxErr": 3}, invariants=["Binding", "FewChallengesHide", "AdaptiveAlwaysHides"]), heap="4g", workers=2),
        lambda: harness())
    recs = record_weights(c, "variants", f)
    tr = os.path.join(c.work, "trace.ndjson")
    with open(tr, "w") as o:
        for r in recs:
            o.write(json.dumps(r) + "\n")
    base = record_weights(c, "bases", s)
    wf = os.path.join(c.work, "weights.ndjson")
    with open(wf, "w") as o:
        for r in base:
            if r["step"] == 0 and len(r["w"]) == r["n"]:
                o.write(json.dumps({"id": r["id"], "w": r["w"]}) + "\n")

    def validate():
        d = os.path.join(c.work, "out-trace")
        os.makedirs(d, exist_ok=True)
        c.mc("FsTrace", cfg_text({"File": '"%s"' % tr, "MinVarying": 30}, view="View"), field="bls", out=d, workers=1, heap="8g")
        return [json.loads(l) for l in open(os.path.join(d, "findings.ndjson"))]
    finds, att = parallel(
        validate,
        lambda: c.gen("GenFsAttack", {**REAL, "File": '"%s"' % wf, "Bases": "<- BS", "Rounds": ra, "From": 0, "Recorded": "TRUE"}, defs={"BS": tla_seq(bases)},
                      name="GenFsAttack", invariants=["BaseFalse"], view="View", heap="8g", workers=6))
    lines = [l for l in open(f).read().splitlines() if l.strip()]
    for x in finds:
        if x["what"] == "summary":
            c.notes["distinct_batches_observed"], c.notes["varying_digits"] = x["batches"], x["varying"]
        else:
            c.violation("%s (%s, step %d of behaviour %d; %s)" % (x["what"], x["label"], x["step"], x["case"], x["other"]),
                        {"family": "fs", "opts": {"cfgs": "1/0"}, "variant": "mt", "case": json.loads(lines[x["case"]]), "step": x["step"]})
    c.replay("das", [att], {"cfgs": "1/0,4/0", "cfgmode": "rr", "only": "invalid"})
    return c.finish()


def c18():
    c = Check("C18")
    sizes = [1, 2, 4, 8, 16, 32, 64, 128, 512, 2048, 4096, 8192] + ([256, 1024, 16384] if THOROUGH else [])
    gsizes = [1, 2, 4, 8, 16, 64] + ([32, 128, 256] if THOROUGH else [])
    f, _, _ = parallel(
        lambda: c.gen("GenPoly", {"Rounds": pick(12, 80), "From": 0, "Sizes": "<- SZ", "GSizes": "<- GS", "Naive": 64}, defs={"SZ": tla_seq(sizes), "GS": tla_seq(gsizes)}, view="View", heap="8g"),
        lambda: mckzg(c),
        lambda: harness())
    c.replay("lib", [f])
    return c.finish()


def c24():
    c = Check("C24")
    f, _ = parallel(
        lambda: c.gen("GenGroup", {"Rounds": pick(26, 200), "From": 0, "Lens": "<- LN"}, defs={"LN": tla_seq([0, 1, 1, 2, 2, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 130])}, view="View", heap="6g"),
        lambda: harness())
    c.replay("lib", [f])
    return c.finish()


def mcmsm(c):
    runs = [("a", 11, 5, 0, "1..5", "{<<3>>, <<4, 7>>}", 2, "0..31"), ("b", 31, 6, 1, "{1, 2, 3, 4}", "{<<3, 10, 22>>}", 3, "{0, 1, 31, 32, 33, 62, 63}"),
            ("c", 1009, 4, 2, "{2, 3}", "{<<3, 10, 400, 77, 3, 600>>}", 6, "{1, 7, 14}")]
    if THOROUGH:
        runs += [("d", 101, 9, 1, "1..9", "{<<3, 40>>}", 2, "0..511"), ("e", 1009, 6, 2, "{1, 2, 5}", "{<<3, 10, 400, 77, 3, 600, 801, 9>>}", 8, "{1, 31, 62}")]
    for nm, p, nb, t, ws, pts, ms, sc in runs:
        c.mc("Msm", cfg_text({"P": p, "NB": nb, "T": t, "Widths": ws if ws[0] == "{" else "<- WS", "Points": "<- PTS", "MaxScalars": ms, "Scalars": sc if sc[0] == "{" else "<- SC"},
                             invariants=["Correct", "WindowTotals"], properties=["Terminates"]),
             name="Msm_" + nm, defs={"WS": ws, "PTS": pts, "SC": sc}, heap="4g", workers=4)


def c17():
    c = Check("C17")
    lens = list(range(0, 35)) + [47, 48, 63, 64, 65, 100, 127, 128, 129, 257] + ([500, 1000, 4096] if THOROUGH else [])
    f, _, _ = parallel(
        lambda: c.gen("GenMsm", {"Rounds": pick(16, 80), "From": 0, "Widths": "<- WD", "Lens": "<- LN", "BWidths": "<- BW"},
                      defs={"WD": tla_seq(list(range(1, 13)) + ([13, 14, 15] if THOROUGH else [])), "LN": tla_seq(lens), "BW": tla_seq(range(2, 11))}, view="View", heap="8g"),
        lambda: mcmsm(c),
        lambda: harness())
    c.replay("lib", [f])
    return c.finish()


def mcrslib(c):
    runs = [("a", 17, 3, 4, 1, "{0, 1, 9}"), ("b", 17, 3, 8, 1, "{3}")] + ([("c", 17, 3, 8, 2, "{1}"), ("d", 17, 3, 16, 1, "{1}"), ("e", 17, 3, 4, 2, "{0, 1, 9, 16}")] if THOROUGH else [])
    for nm, p, g, mx, mf, co in runs:
        c.mc("MCRsLib", cfg_text({"P": p, "Gen": g, "MaxCw": mx, "MaxFaults": mf, "Coefs": co}, invariants=["DecodeIsDefinition", "RoundTrip", "FewChangesNoticed", "CapacityIsTight"]),
             name="MCRsLib_" + nm, heap="4g", workers=4)


def c15():
    c = Check("C15")
    big = [(4096, 2, 128), (4096, 2, 8192), (64, 2, 16), (256, 4, 32), (1024, 2, 64), (128, 8, 1024), (512, 1, 64), (2048, 2, 2), (2, 64, 16)]
    f, _, _ = parallel(
        lambda: c.gen("GenRsLib", {"Rounds": pick(4, 30), "From": 0, "MaxCw": pick(32, 64), "Big": "<- BG", "PerJob": 12, "PerBig": 2},
                      defs={"BG": tla_seq("[n |-> %d, e |-> %d, bs |-> %d]" % x for x in big)}, view="View", heap="10g"),
        lambda: mcrslib(c),
        lambda: harness())
    c.replay("lib", [f])
    return c.finish()


def mcmo(c):
    inv = ["ProverIsDefinition", "DataIsSystematic", "Complete", "Sound"]
    runs = [("a", 17, 3, 4, 4, 8, "{0, 1, 5}", "{0, 1, 3}", 0, 0, "{1}"), ("b", 17, 3, 8, 4, 16, "{0, 3}", "{0, 5}", 0, 0, "{1}"),
            ("c", 17, 3, 4, 2, 8, "{3}", "{0}", 2, 1, "{1, 7}")]
    if THOROUGH:
        runs += [("d", 97, 5, 16, 8, 32, "{40}", "{0, 1, 16}", 0, 0, "{1}"), ("e", 17, 3, 4, 4, 16, "{0, 3}", "{0}", 3, 1, "{1}"), ("f", 17, 3, 4, 2, 16, "{1, 16}", "{0}", 2, 3, "{1}")]
    for nm, p, g, n, m, np, cs, ex, mr, me, dl in runs:
        c.mc("MCMultiOpen", cfg_text({"P": p, "Gen": g, "MaxN": n, "MaxM": m, "MaxNp": np, "CoefSet": cs, "Extras": ex, "MaxRows": mr, "MaxEdits": me, "Deltas": dl}, invariants=inv), name="MCMultiOpen_" + nm, heap="4g")


def c16():
    c = Check("C16")
    ps = [(n, m, np) for n in (1, 2, 4, 8, 16, 32, 64) for m in (1, 2, 4, 8, 16) for np in (2, 4, 8, 16, 32, 64, 128) if np > m and n * 8 >= m]
    big = [(256, 16, 512), (512, 64, 1024), (128, 1, 256), (256, 32, 128), (1024, 64, 2048), (256, 1, 512), (64, 2, 1024), (16, 4, 4096)] + ([(4096, 64, 8192), (2048, 8, 4096), (512, 2, 2048), (4096, 128, 8192)] if THOROUGH else [])
    f, _, _ = parallel(
        lambda: c.gen("GenMo", {"Rounds": pick(1, 6), "From": 0, "Params": "<- PS", "Widths": "<- WD"},
                      defs={"PS": "<<" + ", ".join("<<%d, %d, %d>>" % t for t in ps + big) + ">>", "WD": tla_seq([0, 1, 2, 3, 4, 5, 8, 0])}, view="View", heap="8g"),
        lambda: mcmo(c),
        lambda: harness())
    c.replay("lib", [f])
    return c.finish()


def mcconc(c):
    """The designs that keep calls apart, and (as a check of the property itself) designs that do not."""
    base = {"Threads": "{1, 2}", "Setups": "{1, 2}", "Slots": "{1, 2}", "Parts": 2}
    good = [("own", 2, 2, ["Bound", "Returns"]), ("memo", 2, 2, []), ("lock", 2, 1, ["Returns"]), ("tls", 2, 1, [])]
    if THOROUGH:
        good += [("own", 3, 2, []), ("memo", 3, 1, []), ("lock", 3, 1, []), ("tls", 3, 1, [])]
    for d, n, depth, props in good:
        c.mc("Conc", cfg_text({**base, "MaxCalls": n, "Depth": depth, "Design": '"%s"' % d}, invariants=["Isolated"], properties=props), name="Conc_%s%d%d" % (d, n, depth), heap="4g", workers=4)
    for d, depth in [("scratch", 1), ("dirty", 1), ("memoarg", 1), ("memokey", 1), ("first", 1), ("poison", 1), ("tls", 2), ("lock", 2)]:
        live = d == "lock"
        r = tlc("Conc", cfg_text({**base, "MaxCalls": 3 if depth == 1 else 2, "Depth": depth, "Design": '"%s"' % d}, invariants=["Isolated"], properties=["Returns"] if live else []),
                c.work, name="Conc_%s_bad" % d, heap="4g", workers=4)
        if ("Returns" if live else "Isolated") not in str(r.violated):
            raise ToolError("Conc does not see that design %s (depth %d) mixes or blocks calls: %s" % (d, depth, r.violated))
        c.notes.setdefault("designs_refuted", []).append(d)


def trace_check(c, module, consts, files, what, timeout=800, defs=None):
    """Let TLC walk recorded traces; returns its findings."""
    def one(i):
        d = os.path.join(c.work, "out-%s-%d" % (module, i))
        os.makedirs(d, exist_ok=True)
        r = c.mc(module, cfg_text({**consts, "File": '"%s"' % files[i]}, view="View"), name="%s_%d" % (module, i), field="bls", out=d, workers=1, heap="3g", timeout=timeout, **({"defs": defs} if defs else {}))
        b = os.path.join(d, "broken.ndjson")
        if os.path.exists(b):
            raise ToolError("%s: the recorder broke the protocol: %s" % (module, open(b).read()[:600]))
        fs = [json.loads(l) for l in open(os.path.join(d, "findings.ndjson"))]
        if not any(f["what"] == "summary" for f in fs):
            raise ToolError("%s did not reach the end of the trace" % module)
        return fs
    return [one(i) for i in range(len(files))] if len(files) == 1 else parallel(*[lambda i=i: one(i) for i in range(len(files))])


def c12():
    c = Check("C12")
    plans = ["pairs", "walk", "long", "near"]
    f, _, _ = parallel(
        lambda: c.gen("GenConc", {**REAL, "Rounds": pick(3, 16), "From": 0, "Plans": "<- PL", "Threads": 8, "Length": pick(10, 40), "Proven": pick(2, 3)},
                      defs={"PL": "<<" + ", ".join('"%s"' % p for p in plans) + ">>"}, invariants=["WellFormed", "PoolIsRight"], view="View", heap="8g", workers=5),
        lambda: mcconc(c),
        lambda: harness())
    lines = open(f).read().splitlines()
    by = {p: [l for l in lines if json.loads(l)["plan"] == p] for p in set(plans)}
    shards = [(["pairs"], "turns", "pairs"), (["long"], "turns", "long"), (["near"], "turns", "near"), (["walk"], pick("lockstep,threads,rayon", "lockstep,threads,rayon,turns"), "walk")]
    jobs = []
    for ps, modes, nm in shards:
        ls = [l for p in ps for l in by[p]]
        n = 1 if nm == "walk" else pick(3, 6)
        for k in range(n):
            p = os.path.join(c.work, "hist-%s-%d.ndjson" % (nm, k))
            part = ls[k::n]
            if part:
                open(p, "w").write("\n".join(part) + "\n")
                jobs.append((p, modes, os.path.join(c.work, "trace-%s-%d.ndjson" % (nm, k)), part))
    # the histories of one thread share the machine; the concurrent ones get it alone
    solo = [j for j in jobs if "walk" not in j[0]]
    rs = parallel(*[lambda j=j: c.run_harness("conc", [j[0]], {"modes": j[1], "trace": j[2]}) for j in solo])
    rs += [c.run_harness("conc", [j[0]], {"modes": j[1], "trace": j[2]}) for j in jobs if j not in solo]
    for j, r in zip(solo + [j for j in jobs if j not in solo], rs):
        c.traces += r["runs"]
        c.samples += r["samples"][:1]
        c.notes.setdefault("replays", []).append({"family": "conc", "modes": j[1], "histories": r["runs"], "calls": r["steps"]})
        for x in r["fails"]:
            c.violation(x["why"], {"family": "conc", "opts": {"modes": j[1]}, "variant": "mt", "case": None})
    if c.violations:
        return c.finish()
    order = solo + [j for j in jobs if j not in solo]
    for j, fs in zip(order, trace_check(c, "ConcTrace", {}, [j[2] for j in order], "conc")):
        for x in fs:
            if x["what"] != "summary":
                e = x["event"]
                c.violation("%s (%s, %s, entry %d on slot %d by thread %d): %s" % (x["what"], x["plan"], x["mode"], e["entry"], e["slot"], e["t"], e["why"]),
                            {"family": "conc", "opts": {"modes": x["mode"]}, "variant": "mt", "case": json.loads(j[3][x["case"]]), "event": e})
    return c.finish()


def mccapi(c):
    """The interface keeps the caller's view and the heap in step; and mistakes in it are visible to the properties."""
    base = {"Threads": "{1, 2}", "Slots": "{1, 2}"}
    inv = ["Faithful", "NoLeak", "NoDangling", "MessagesStable", "DistinctObjects"]
    c.mc("CApi", cfg_text({**base, "MaxCalls": pick(2, 3), "Design": '"own"'}, invariants=inv), name="CApi_own", heap="4g", workers=4)
    for d in ["leaktemp", "staticmsg", "earlywrite", "msgonok", "flagfirst", "ctxkeep", "keepmsg"]:
        r = tlc("CApi", cfg_text({**base, "MaxCalls": 2, "Design": '"%s"' % d}, invariants=inv), c.work, name="CApi_" + d, heap="4g", workers=4)
        if not r.violated:
            raise ToolError("CApi does not see that design %s is wrong" % d)
        c.notes.setdefault("designs_refuted", []).append(d)


def mchandle(c, good, wrong):
    """Contexts outside the heap of a garbage-collected language: the design releases them once, never while in use."""
    base = {"Threads": "{1, 2}", "Wrappers": "{1, 2}"}
    o = dict(invariants=["Safe", "NoMessageLeaks", "Refused"], properties=["NoContextLeaks"])
    c.mc("Handle", cfg_text({**base, "MaxCalls": pick(2, 3), "Design": '"%s"' % good}, **o), name="Handle_" + good, heap="4g", workers=4)
    for d in wrong:
        r = tlc("Handle", cfg_text({**base, "MaxCalls": 2, "Design": '"%s"' % d}, **o), c.work, name="Handle_" + d, heap="4g", workers=4)
        if r.rc not in (12, 13):
            raise ToolError("Handle does not see that design %s is wrong" % d)
        c.notes.setdefault("designs_refuted", []).append(d)


def bind_cases(c, bind, plans, rounds, threads=4, length=20):
    """Histories of calls through one language interface, with concrete arguments and the library's own results."""
    f = c.gen("GenBind", {**REAL, "Bind": '"%s"' % bind, "Rounds": rounds, "From": 0, "Plans": "<- PL", "Threads": threads, "Length": length},
              defs={"PL": "<<" + ", ".join('"%s"' % p for p in plans) + ">>"}, view="View", heap="6g", workers=4)
    o = os.path.join(c.work, "concrete.ndjson")
    lines = open(f).read().splitlines()
    n = min(4, len(lines))
    parts = []
    for k in range(n):
        p = os.path.join(c.work, "sym-%d.ndjson" % k)
        open(p, "w").write("\n".join(lines[k::n]) + "\n")
        parts.append(p)
    rs = parallel(*[lambda p=p: c.run_harness("bindref", [p], {"out": p + ".out"}) for p in parts])
    out = [open(p + ".out").read().splitlines() for p in parts]
    out = [out[i % n][i // n] for i in range(len(lines))]
    open(o, "w").write("\n".join(out) + "\n")
    for r in rs:
        c.samples += r["samples"][:1]
    c.notes["arguments"] = {"calls": sum(r["steps"] for r in rs), "as_the_specification_predicts": sum(r["agree"] for r in rs)}
    return out


def ctraces(c, jobs, about):
    """jobs: (name, case lines, options); run each through the C driver, then let TLC walk the traces."""
    files = []
    for nm, lines, o in jobs:
        p, t = os.path.join(c.work, nm + ".ndjson"), os.path.join(c.work, "trace-%s.ndjson" % nm)
        open(p, "w").write("\n".join(lines) + "\n")
        r = c.run_harness("c", [p], {**o, "trace": t}, binary=harness_c())
        for x in r["fails"]:
            c.violation(x["why"], {"family": "c", "opts": o, "case": None})
        c.traces += r["runs"]
        c.notes.setdefault("replays", []).append({"family": "c", "options": o, "histories": r["runs"], "calls": r["steps"]})
        files.append((t, lines, o))
    if c.violations:
        return
    for (t, lines, o), fs in zip(files, trace_check(c, "CApiTrace", {}, [x[0] for x in files], "c")):
        for x in fs:
            if x["what"] != "summary" and x["about"] == about:
                c.violation("%s (%s, %s): %s" % (x["what"], x["plan"], x["mode"], json.dumps(x["event"])[:300]), {"family": "c", "opts": o, "case": json.loads(lines[x["case"]]), "event": x["event"]})
    return


def c13():
    c = Check("C13")
    out, _, _ = parallel(lambda: bind_cases(c, "c", ["sweep", "mixed", "walk"], pick(2, 12), pick(4, 8), pick(20, 60)), lambda: mccapi(c), lambda: harness_c())
    ctraces(c, [("all", out, {"mode": "results"})], "results")
    return c.finish()


def c14():
    c = Check("C14")
    out, _, _ = parallel(lambda: bind_cases(c, "c", ["sweep", "walk", "walk"], pick(1, 6), pick(6, 8), pick(25, 80)), lambda: mccapi(c), lambda: harness_c())
    k = pick(1, 4)
    ctraces(c, [("walk", [l for l in out if json.loads(l)["plan"] == "walk"], {"mode": "results", "reps": pick(2, 6)}),
                ("balance", [l for l in out if json.loads(l)["plan"] == "sweep"][:k], {"mode": "balance"})], "lifecycle")
    return c.finish()


def drive(c, name, cmd, lines, consts, shards=1, env=None, timeout=700, died=(), natives=False):
    """Run a driver of a language interface ({trace} and {cases} in cmd) over the histories and let TLC walk its traces."""
    files = []
    def one(k):
        part = lines[k::shards]
        p, t = os.path.join(c.work, "cases-%d.ndjson" % k), os.path.join(c.work, "trace-%d.ndjson" % k)
        open(p, "w").write("\n".join(part) + "\n")
        e = dict(os.environ)
        e.update({"RUST_BACKTRACE": "0", "VERIF_SEED": str(SEED), **(env or {})})
        t0 = time.time()
        r = subprocess.run(["timeout", str(timeout)] + [x.format(trace=t, cases=p) for x in cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=c.work)
        log("driver %s %d: rc %d, %.1fs" % (name, k, r.returncode, time.time() - t0))
        return part, t, r
    for part, t, r in parallel(*[lambda k=k: one(k) for k in range(shards)]):
        rc = r.returncode
        if rc == 0:
            res = json.loads(r.stdout.strip().splitlines()[-1])
            c.traces += res["runs"]
            c.notes.setdefault("replays", []).append({"interface": name, "histories": res["runs"], "calls": res["steps"]})
            files.append((part, t))
        elif rc < 0 or rc in (132, 134, 135, 136, 139) + tuple(died) or "fatal error has been detected by the Java Runtime" in r.stdout:
            done = [json.loads(l) for l in open(t)] if os.path.exists(t) else []
            heads = [x for x in done if x.get("e") == "case"]
            c.violation("%s: the process died (status %d); last events: %s; %s" % (name, rc, json.dumps(done[-2:])[:400], (r.stdout[:400] if rc == 1 else "") + r.stderr[-800:]),
                        {"family": name, "case": json.loads(part[heads[-1]["case"]]) if heads else None})
        elif rc == 124:
            c.violation("%s: calls did not return within %d s" % (name, timeout), {"family": name, "case": None})
        else:
            raise ToolError("driver %s failed (rc %d): %s" % (name, rc, (r.stdout[-1000:] + r.stderr[-3000:])))
    if c.violations:
        return
    for (part, t), fs in zip(files, trace_check(c, "BindTrace", {"Consts": "<- CN"}, [x[1] for x in files], name, defs={"CN": consts})):
        for x in fs:
            if x["what"] != "summary":
                case = json.loads(part[x["case"]])
                n = x["event"].get("entry", 0)
                c.violation("%s (%s): %s %s" % (x["what"], x["plan"], json.dumps(x["event"])[:300], json.dumps(case["entries"][n - 1])[:200] if n else ""),
                            {"family": name, "case": case, "event": x["event"]})
    if natives:
        for fs in trace_check(c, "HandleTrace", {}, [x[1] + ".natives" for x in files], name):
            for x in fs:
                if x["what"] != "summary":
                    c.violation("%s: %s" % (x["what"], json.dumps(x["event"])[:300]), {"family": name, "case": None, "event": x["event"]})


def mcsetup(c):
    """The loader accepts exactly the acceptable setups; overlooking something is visible to the properties."""
    base = {"Need1": 2, "Need2": 2, "Max1": pick(3, 4), "Max2": 3}
    o = dict(invariants=["OnlyAcceptable", "AllAcceptable"])
    c.mc("Setup", cfg_text({**base, "Design": '"every"'}, properties=["Answers"], **o), name="Setup_every", heap="4g", workers=4)
    for d in ["firsts", "noG2", "curve", "lenient", "count1", "count2", "sum", "strict"]:
        r = tlc("Setup", cfg_text({**base, "Max1": 3, "Design": '"%s"' % d}, **o), c.work, name="Setup_" + d, heap="4g", workers=4)
        if not r.violated:
            raise ToolError("Setup does not see that design %s is wrong" % d)
        c.notes.setdefault("designs_refuted", []).append(d)


def c19():
    c = Check("C19")
    f, _, _ = parallel(lambda: c.gen("GenSetup", {**REAL, "Rounds": pick(1, 12), "From": 1 + 100 * (SEED % 7)}), lambda: mcsetup(c), lambda: harness())
    c.replay("setup", [f])
    c.replay("setup", [f], variant="none") if THOROUGH else None
    return c.finish()


def c20():
    c = Check("C20")
    out, m = parallel(lambda: bind_cases(c, "node", ["sweep", "mixed", "walk"], pick(2, 12), pick(3, 6), pick(20, 60)), node_module)
    drive(c, "node", ["node", "--expose-gc", os.path.join(VERIF, "harness-node", "driver.js"), m, "{trace}", "120", "{cases}"], out, "<<48, 48, 32, 131072, 128, 2048>>", shards=2)
    return c.finish()


def c21():
    c = Check("C21")
    out, (cp, ld), _ = parallel(lambda: bind_cases(c, "java", ["sweep", "mixed", "walk"], pick(2, 12), pick(4, 8), pick(20, 60)), java_driver,
                                lambda: mchandle(c, "closed", ["both", "stale"]))
    drive(c, "java", ["java", "-Xmx3g", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=/dev/null", "-cp", cp, "-Djava.library.path=" + ld, "Driver", "{trace}", "{cases}"], out, "<<48, 48, 32, 131072, 128, 2048>>")
    return c.finish()


def c22():
    c = Check("C22")
    out, m, _ = parallel(lambda: bind_cases(c, "go", ["sweep", "mixed", "walk"], pick(2, 10), pick(4, 6), pick(20, 60)), go_driver,
                         lambda: mchandle(c, "kept", ["bare", "nofinal", "messages"]))
    drive(c, "go", [m, "{trace}", "{trace}.natives", "{cases}"], out, "<<48, 48, 32, 131072, 128, 2048>>", died=(2,), natives=True)
    return c.finish()
