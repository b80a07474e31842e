"""Write MANIFEST.json (the deciding method and the level of every check)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "C01": "property-based testing: generated models and batches against a NumPy contraction, and metamorphic relations",
    "C02": "property-based testing: sequences alone, batched and listed against a per-sequence NumPy reference",
    "C03": "stateful property-based testing: histories of a pool of models, and generated thread schedules",
    "C04": "property-based testing: differential (path against gathered inputs, map against embedded inputs), stateful",
    "C05": "model-based stateful property-based testing of the adaptive schedule and its books",
    "C06": "stateful property-based testing against optimally truncated NumPy contractions",
    "C07": "property-based testing: best-approximation oracle from NumPy's SVD over generated splits",
    "C08": "property-based testing: backpropagation against extrapolated finite differences and other strategies",
    "C09": "model-based stateful property-based testing: optimizer steps against rebuilt models",
    "C10": "property-based testing with enumeration of all sequences of generated Born machines",
    "C11": "property-based testing: differential against an explicit Born rule, all strategies, rescaling",
    "C12": "property-based testing: probability sums and quadrature over generated embeddings and histories",
    "C13": "property-based testing: differential against NumPy matrix products",
    "C14": "property-based testing: long chains against a reference in extended range, metamorphic scaling",
    "C15": "property-based testing: differential against NumPy broadcasting",
    "C16": "property-based testing: exact centres and statistical bounds over generated shapes",
    "C17": "stateful property-based testing: round-trips of generated models and histories",
    "C18": "property-based testing: permutation and enumeration oracles over generated data",
    "C19": "property-based testing: algebraic laws over generated expressions against NumPy contractions",
    "C20": "stateful property-based testing with generated malformed inputs and a twin model",
    "C21": "property-based testing: formulas and quadrature in NumPy over generated embeddings",
    "C22": "property-based testing: differential against explicitly built tensors",
    "C23": "property-based testing: metamorphic relations between a model inside a larger computation and separate calls",
    "C24": "property-based testing: documented starting points, statistical bounds and repeated construction",
    "C25": "property-based testing: differential of generated chains of building blocks against NumPy contractions",
}
NOTE = {
    "C03": "Threads are switched at chosen source lines of the library by the harness, so schedules are generated and replayable, "
           "but switches inside PyTorch's kernels are not explored.",
    "C16": "Spreads are judged statistically, with bounds beyond 6 standard errors for fixed seeds.",
    "C24": "Spreads are judged statistically, with bounds beyond 6 standard errors for fixed seeds.",
    "C12": "Continuous domains are judged up to the error of the library's own quadrature, for smooth embeddings.",
    "C08": "Derivatives are compared along generated directions, up to the error of extrapolated differences.",
}
GENERIC = ("Generated-input search with a fixed seed: no violation among the explored cases (counts, classes and samples in the "
           "evidence file), no claim beyond them. Trusts PyTorch's CPU kernels, NumPy and Hypothesis; rounding is bounded by "
           "the machine epsilon times the same contraction of absolute values.")

checks = []
for prop in sorted(TECH):
    checks.append({
        "property": prop,
        "quick_cmd": f"./check.sh {prop}",
        "thorough_cmd": f"./check.sh {prop} --tier thorough",
        "evidence_file": f"evidence/{prop}.json",
        "technique": TECH[prop],
        "level": "exploration",
        "level_note": (NOTE.get(prop, "") + " " + GENERIC).strip(),
    })
manifest = {
    "version": 1,
    "setup_cmd": "./check.sh --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "Pure Python: every check imports torchmps from /repo's working tree, nothing is built or cached. No hooks are "
             "needed. Replay a reported case with ./check.sh ID --replay FILE.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
