#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registered checks (bin/checker -list) and the texts below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("panic obligations over SSA: difference-bound prover for positions, interprocedural nil refutation", "Every instruction of the hand-written functions reachable from the API which can panic (index, slice, nil dereference, nil map, unchecked assertion, division, negative count or length, interface comparison, explicit panic) is an obligation discharged by conditions, definitions, induction over loops, results of callees and all callers. Trusts the recover of the generated parser and of text/template, the standard library, and the invariants of the model listed in DESIGN.md (lists, rows and tables are not empty, levels not negative, cells have a column); memory exhaustion is out of scope."),
 "C02": ("error-flow analysis (use and propagation of every error result)", "Decides that no error value is discarded and that the branch where an error is known leads to an error return (or one of the enumerated handlers). It does not decide that every failure is represented by an error value in the first place, except for scanners, which must be asked."),
 "C03": ("channel-discipline and lock-order analysis", "Decides the structural conditions for absence of deadlock and leak of the pipeline on every path; trusts that the caller's reader returns and that parsing a fragment ends."),
 "C04": ("typestate of pipeline stages and dataflow of fragments", "Decides receive/send alternation, identity of the value sent, treatment of fragments with an error, and composition order. What a stage does inside the elements of a fragment is the subject of other properties."),
 "C05": ("escape and effect analysis of shared state", "Decides that package-level state is written only at initialisation and process-wide state is not changed, and that what goroutines share is limited to the enumerated read-only or synchronised objects."),
 "C06": ("order-insensitivity of map iterations, taint of non-deterministic sources", "Decides the sources of non-determinism that exist in Go code: map order, addresses, clock, randomness, environment, goroutine scheduling. Trusts dependencies (chroma, yaml)."),
 "C07": ("mutation analysis of values reachable from the configuration", "Decides that no store, map update or delete reaches an object obtained from the caller's configuration without a copy."),
 "C08": ("precedence analysis of attribute reads and writes", "Decides that attribute reads of the contexts consult the caller's attributes first and that writers cannot replace them."),
 "C09": ("taint analysis from document text to template fields, by output context", "Decides for every template action and every value given to it whether it is escaped for its context."),
 "C10": ("exhaustiveness of type switches and abstract interpretation of the pipeline", "Decides that every element type which the grammar can make is rendered or is eliminated before on every path of the pipeline, in each field and container, and that no function refuses a kind or an attribute value which the document may have."),
 "C11": ("constant evaluation, parsing and type checking of the output templates", "The templates of both backends are evaluated from the source, parsed with text/template/parse and checked against the types of the values they are executed with."),
 "C12": ("abstract interpretation of the output templates as markup", "All paths through each template are enumerated and checked for nesting, quoting and (XHTML) self-closing."),
 "C13": ("translation comparison of sibling templates", "Each XHTML template is compared with the HTML template it replaces on every path, after normalising the syntax that may differ."),
 "C14": ("agreement of identifier and target expressions across templates", "Decides that the expressions that emit an identifier and those that emit a link to it are the same function of the same value."),
 "C15": ("path-sensitive abstract interpretation of identifier generation, registration and aggregation over element types", "Decides that a generated identifier is tested against, and then registered in, the table of references on every path, under the identifier that is rendered."),
 "C16": ("abstract interpretation of the footnote collector over places read from the program", "The places of footnotes are derived from what the renderer reads; the collector is followed along all paths for each type, each pair of types and up to three footnotes with arbitrary names; the path conditions are compared with the rule for all values of the names."),
 "C17": ("capability (effect) analysis and provenance of opened paths", "Decides by enumeration of all calls; trusts that the dependencies have no effect other than those in the table."),
 "C18": ("ownership analysis: acquire/release on all paths", "Decides release on every return path; release when a goroutine panics is decided only for deferred releases."),
 "C19": ("loop progress, recursion bounds and grammar well-foundedness", "Decides, by fixpoints over the compiled grammar, that repetitions consume input and that there is no left recursion; that each loop of the code has a recognised progress argument; and that each cycle of the call graph descends into its argument or is below a depth bound."),
 "C20": ("effect-domination analysis of the preprocessor", "Decides that every effect of a line in the preprocessing loop happens only where the line is known to be enabled."),
 "C21": ("guard analysis of the compiled grammar, abstract interpretation of the substitution tables, provenance of substitutions", "All ways of the grammar to actions which make inline elements need the substitution of the element; the tables are followed for 326 values of the attribute and every kind of block; substitutions passed on come from the element whose content is parsed."),
 "C22": ("save/restore typestate of the rendering flags", "Decides that each change of a nesting flag is undone on every path."),
 "C23": ("error-flow and data-flow analysis of the command", "Decides that each failure reaches the exit status and that the destination depends on the options and the source path as documented."),
 "C24": ("abstract matching of line patterns over the compiled grammar, abstract interpretation of the filter over element types", "Decides that no entry rule of the grammar takes a comment line as anything else, that comment blocks end at the delimiter which opened them, that the filter removes comments from each type of container (and each within each other), and that no code reads the content of a comment."),
 "C25": ("counter typestate", "Decides that each caption counter is incremented exactly once per captioned element and is not shared between kinds or conversions."),
 "C26": ("must-pass analysis of the validation fallback", "Decides that the result of the validation reaches the log and the document type on every path."),
}
NA = {
 "N01": "The property quantifies over all documents and compares with the behaviour of another program (Asciidoctor, a Ruby implementation that is not here): no static argument over this source relates the two; parts of it that are visible in the code are C09-C16 and C21.",
 "N02": "Preservation of all text is a relation between the runtime values of input and output through a PEG grammar with actions: whether each rule's action uses all matched text depends on the values matched; the structural parts that can be decided (fragments, elements with a renderer, comments, escaping) are C04, C10, C24 and C09.",
 "N03": "Running time of a backtracking PEG parser depends on the amount of re-parsing the input provokes; no sound static bound is in reach (the grammar is exponential in the worst case without memoisation). Termination is C19.",
 "N04": "Selecting the lines of ranges and tags is arithmetic on runtime values (line numbers and parsed ranges); a static rule could only freeze the comparison expressions, which would also fire on equivalent rewrites. The failure handling around it is C01, C02 and C18.",
 "N05": "Section numbers are counters over runtime hierarchies of levels; correctness of the arithmetic is not visible in the shape of the code. Uniqueness and registration of identifiers are C15.",
 "N06": "Nesting of lists is decided by a runtime stack of markers and attachment offsets; a structural rule would only restate the algorithm. That list stages handle each element once is C04.",
}
ids = subprocess.run([os.path.join(here, "bin/checker"), "-list"], capture_output=True, text=True).stdout.split()
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in ids:
        t, n = TECH[p]
        checks.append({"property": p, "quick_cmd": "./run.sh %s quick" % p, "thorough_cmd": "./run.sh %s thorough" % p,
                       "technique": "static analysis: " + t, "level": "other", "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check is registered for this property yet; the analysis is described in DESIGN.md and in preparation.")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of /repo's current source by the Go program in checker/ (vendored golang.org/x/tools); nothing of libasciidoc is run. No hooks are needed in /repo; the commits there are repairs (fix:)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
