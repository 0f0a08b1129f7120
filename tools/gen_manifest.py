"""writes /verif/MANIFEST.json from the checks that exist and the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VN = "abstract interpretation of the source: global value numbering with algebraic (finite-field signature) values, "
C = {
 "C01": ("proof", VN + "scan recurrences checked by their one-step relation"),
 "C02": ("proof", VN + "reverse scan recurrences checked by their one-step relation"),
 "C03": ("proof", VN + "innovation sum and guards of the likelihood"),
 "C04": ("proof", VN + "gather indices over sorted states, one partition per order relation"),
 "C05": ("proof", VN + "associativity obligations and elementwise agreement with the sequential recursion"),
 "C06": ("proof", VN + "permutation-pull arrays for the state timeline"),
 "C07": ("proof", VN + "one-step relation of the integrated scans per state kind"),
 "C08": ("proof", VN + "associativity obligations and elementwise agreement with the sequential integrated recursion"),
 "C09": ("proof", VN + "index dataflow of the data-order projection"),
 "C10": ("proof", VN + "value flow of noise, mean and solver selection through the constructor"),
 "C11": ("proof", VN + "Lyapunov residual of every kernel class"),
 "C12": ("proof", VN + "lag power series of the transition matrices"),
 "C13": ("proof", VN + "lag power series of the process noise"),
 "C14": ("proof", VN + "covariance functions compared with closed forms"),
 "C15": ("proof", VN + "operator algebra on opaque kernels"),
 "C16": ("proof", VN + "augmented process matrices"),
 "C17": ("proof", VN + "component blocks and naming over enumerated composition shapes"),
 "C18": ("other", VN + "typestate of the documented calling conventions"),
 "C20": ("proof", "effect analysis over the syntax tree and resolved classes"),
 "C21": ("proof", "binding-time (taint) analysis in the abstract interpreter"),
 "C22": ("proof", "symbolic extents of every array formed by the abstract interpreter"),
 "C23": ("proof", VN + "spectral density against drift and noise density"),
}
NOTE = {
 "proof": "Sound over exact real arithmetic for every input of the stated domain, up to the random-signature collision probability (~1e-30 per comparison). Trusts the interpreter and the models of the jax/equinox/numpy primitives in /verif/sa; rounding is outside.",
 "other": "Enumerates the documented calling conventions and analyses each path from the source; trusts the interpreter and primitive models in /verif/sa.",
}
NA = {
 "C24": "Floating-point error depends on the run-time conditioning of the inputs (spacings, magnitudes); no static bound in reach is both sound and free of false alarms. The exact-arithmetic content is decided by C01-C16.",
 "C25": "Parallel depth and wall time depend on how the XLA backend schedules the associative scan on the hardware, which is not in this source; that the operators are associative (so any schedule is right) is decided in C05 and C08.",
}
TODO = "No check yet."
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.exists(os.path.join(V, "sa", "checks", p + ".py")):
        lv, tech = C[p]
        checks.append({"property": p, "quick_cmd": f"python3-vt -m sa.run {p} quick", "thorough_cmd": f"python3-vt -m sa.run {p} thorough",
                       "technique": tech, "level": lv, "level_note": NOTE[lv]})
    else:
        na.append({"property": p, "reason": TODO})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import sa.api'", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks read /repo's source (and the tinygp source it builds on) on every run and never execute it. Known defects: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
