"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
ABS = "abstract interpretation of the LLVM IR (GF(2) affine bit domain, memory model, joins)"
GVF = "gated value-flow analysis of the Python syntax tree (joins at merge points, exception exits, BDD conditions)"
T_ABS = "Trusts clang's -O0 translation, the transfer functions and memory model of tools/irabs, and the reference definition of the rule. "
T_GVF = "Trusts tools/pyabs (semantics of the Python subset and the models of library calls listed in DESIGN.md) and the reference rule. "
C = {
 "P01": (ABS, "proof", T_ABS + "Complete for all payload contents of all sizes 1..128."),
 "P02": (ABS, "proof", T_ABS + "Complete for all data words and all 2048 correctable patterns per codeword; at packet level patterns are applied to all codewords alike."),
 "P03": (ABS, "proof", T_ABS + "Complete for all payload contents of all sizes 1..128."),
 "P05": (ABS, "proof", T_ABS + "Complete for all bit patterns at the analysed window positions."),
 "P06": (ABS, "proof", T_ABS + "Complete for all text contents at the enumerated checksum positions, checksum characters and window positions."),
 "P07": (ABS, "proof", T_ABS + "Complete for all received bits at the analysed positions; the demodulator core is a stub here and decided by P10."),
 "P08": (ABS, "proof", T_ABS + "Complete for the listed configurations; assumes allocation succeeds."),
 "P10": ("abstract interpretation of the LLVM IR (float ranges and NaN, memory model, state closure over calls; sorting loop decided on all orders)", "proof", T_ABS + "Complete for all samples and filter states in the listed configurations (sample rates up to 1600 Hz in quick, 8000 Hz in thorough); other sample rates, in particular 48000 Hz, are not analysed."),
 "P09": (ABS, "proof", T_ABS + "The demodulator core is a stub delivering arbitrary bits; sync offsets are sampled in quick and complete in thorough."),
}
NA = {
 "P30": "a statistical statement about noise and signal processing; no static argument bounds decode probability",
 "P31": "convergence of a floating-point estimator over signal histories; not decidable by a static argument in reach",
 "P32": "needs an analysis of the whole generic ASN.1 UPER run-time (about 30k generated and library lines driven by function pointers) and of an installed third-party codec; P13 decides the schema tables instead",
}
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_py.json")
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        C[k] = (re.sub(r"\bABS\b", ABS, re.sub(r"\bGVF\b", GVF, v[0])), v[1], v[2].replace("{ABS}", T_ABS).replace("{GVF}", T_GVF))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for i in ids:
    if i not in C and i not in NA:
        NA[i] = "check not built yet"
m = {"version": 1, "setup_cmd": "make -s -C tools/irabs",
     "checks": [{"property": k, "quick_cmd": "python3 checks/%s.py" % k, "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % k, "technique": v[0], "level": v[1], "level_note": v[2]} for k, v in sorted(C.items())],
     "not_applicable": [{"property": k, "reason": NA[k]} for k in ids if k in NA and k not in C],
     "notes": "Static analysis only. The analysers read /repo's current sources on every run; nothing of /repo is executed by a check. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
