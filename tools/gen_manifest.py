import json
NOTE = ("No code of the library is compiled or run. Each API session is abstractly interpreted from the type-checked AST with symbolic "
        "extents, strides, offsets and elements (fixed rank), and its summary is compared with the reference semantics at a grid of instances; "
        "outside the enumerated sessions, ranks and instances nothing is claimed. Trusts clang's front end, the standard-library models and the "
        "reference semantics.")
TECH = {
 "C01": "abstract interpretation: element type of every buffer access against the dtype of the tensors over the buffer, through the constexpr dispatch tables",
 "C02": "abstract interpretation: result dtype of every operation and dtype combination against the promotion rules",
 "C03": "abstract interpretation: loop summaries of the elementwise kernels compared with the operator's reference function",
 "C04": "abstract interpretation: loop summaries of reductions, fills, conversions, cat compared with reference values",
 "C05": "abstract interpretation: result shape and exception condition as functions of symbolic extents",
 "C06": "points-to analysis: which buffer a result refers to",
 "C07": "effect analysis: stores, flag changes and random-generator use reaching operands",
 "C08": "abstract interpretation: offset of every summarised access against buffer size and element positions; allocation sizes",
 "C09": "abstract interpretation of the slice parser and layout arithmetic against range(n)[b:e:s]",
 "C10": "abstract interpretation of layout transformations against row-major order",
 "C11": "heap-shape analysis: tracking flag, history node and its operands for all flag combinations",
 "C12": "abstract interpretation of backward sessions: accumulated gradient summaries against vector-Jacobian products",
 "C13": "effect analysis of backward sessions on untracked operands",
 "C14": "abstract interpretation of multi-use and multi-pass sessions: gradient summaries and buffer sharing",
 "C15": "abstract interpretation of the traversal over enumerated graph shapes",
 "C16": "typestate analysis: requires-grad flag against dtype over operations and setters",
 "C17": "abstract interpretation: heap at the throw of an illegal backward against the heap before the call",
 "C18": "abstract interpretation: exception condition against the specified domain of each argument",
 "C19": "ownership analysis: owning/non-owning edges by declared field type over the abstract heap, adoption of raw pointers",
 "C20": "abstract interpretation of sequences of backward passes",
 "C21": "abstract interpretation: loop summaries of f64 results and gradients against double arithmetic at full-mantissa operands, so that a narrower intermediate shows",
 "C22": "abstract interpretation of draw sequences: generator, position and distribution of the draw that reaches each element",
 "C23": "abstract interpretation of the printer: text as a sequence of literal characters and rendered element terms",
 "C24": "abstract interpretation of the accessors against the tensor state",
 "C25": "points-to and effect analysis of assignment: what each handle denotes and contains before and after",
}
NA = {}
d = {"version": 1, "setup_cmd": "python3-vt engine/setup.py",
     "checks": [{"property": k, "quick_cmd": "VERIF_TIER=quick python3-vt engine/main.py " + k,
                 "thorough_cmd": "VERIF_TIER=thorough python3-vt engine/main.py " + k,
                 "technique": TECH[k], "level": "other", "level_note": NOTE} for k in sorted(TECH)],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(d, open("/verif/MANIFEST.json", "w"), indent=1)
