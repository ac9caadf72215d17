"""writes MANIFEST.json from the table below"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "path-sensitive abstract interpretation of the compiler's MIR"
TECH = {
    "C01": AI + ": quantified must-check analysis of ContextFreeGrammar::new, panic-path justification, closed-type query",
    "C02": AI + ": effect analysis of the symbol sets, completeness of the filling loops, accessor evaluation",
    "C03": AI + ": effect analysis of the production map, accessor evaluation",
    "C04": AI + ": every insertion into a FIRST set justified by the textbook rules (dataflow with loop invariants over ranges of vanishing symbols), and every rule applied in each round",
    "C05": AI + ": every insertion into a FOLLOW set justified by the textbook rules, and every rule applied in each round",
    "C06": AI + ": round-ghost typestate over the loops that grow the sets (left only after a round that adds nothing), ranking measures for every loop",
    "C07": AI + ": every entry of the transition table justified by the lookahead rule, every selected production shown to be entered, once and in declaration order; lookup evaluated symbolically",
    "C08": AI + ": induction over the recursion of the parser; labels and children of every tree built followed back to the right-hand side tried",
    "C09": AI + ": induction over the recursion of the parser; linear arithmetic over token positions carried by the state stack",
    "C10": AI + ": every panic path (unwrap, index, arithmetic, RefCell borrow) of the analyses, the table construction, the constructors and the parser's recursion refuted",
    "C11": AI + ": every failure report split into ranges of the right-hand side by linear arithmetic over list lengths",
    "C12": AI + ": typestate of the state stack (push, retry, pop) and of the candidate iterator over all loop paths",
    "C13": AI + ": must-hold guards and argument provenance at every call of the solver, flag propagation over the recursion",
    "C14": AI + ": provenance of every fixed part and of the position parsing resumes at, induction over the recursion",
    "C15": AI + ": commutativity of everything done while iterating a hash map or set (no kept list, positional pick, early stop, last write or size limit), fixpoint stop rule",
    "C16": "type-graph query for interior mutability, effect query over MIR call sites and statics, compile-fail Send/Sync witnesses",
    "C17": AI + ": symbolic evaluation of constructors, Clone and PartialEq implementations",
    "C18": AI + ": symbolic evaluation of every public constructor with provenance of the stored table",
    "C19": "composition of the lemmas C02-C10, C12 and C18 about the current tree, each discharged by " + AI + "; the paper proof that they imply the property is in DESIGN.md",
    "C20": AI + ": ranking measures for every loop of the parser and lemmas about positions, alternatives and table rows, from which DESIGN.md derives a well-founded order on the parser's recursion",
}
NOTE = ("Decided from the MIR of the current tree for every input, without bounds on grammar or input size; reported violations name the function and the event that cannot be justified. "
        "Trusts rustc's MIR, the exporter, the models of the std functions used and the analysis engine itself; assumes lawful Eq, Hash and Clone of the symbol type. "
        "Code that uses std functions outside the modelled part is reported as UNDECIDED (exit 0), not as a violation.")
NOTES = {
    "C20": "Every lemma and loop measure is decided from the MIR of the current tree; that they imply termination is a paper proof (DESIGN.md), not machine-checked. Stack exhaustion on very deep derivations is outside the property. Same trust and UNDECIDED rule as the lemmas.",
    "C19": "Every lemma is re-decided from the MIR of the current tree; that the lemmas imply the property is a paper proof (DESIGN.md) by induction over leftmost derivations, not machine-checked. Same trust and UNDECIDED rule as the lemmas.",
    "C16": "Decided from the types, statics, unsafe blocks and call sites of the current tree, plus a witness crate that must type-check. Trusts rustc and the list of std types with interior mutability.",
}
NA = {}


def main():
    sys.path.insert(0, os.path.join(V, "checks"))
    src = open(os.path.join(V, "checks", "registry.py")).read()
    checks, na = [], []
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)["id"]
        if '"%s"' % p in src:
            checks.append({
                "property": p,
                "quick_cmd": "bash check.sh %s quick" % p,
                "thorough_cmd": "bash check.sh %s thorough" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": TECH[p],
                "level": "proof",
                "level_note": NOTES.get(p, NOTE),
            })
        else:
            na.append({"property": p, "reason": NA.get(p, "No check yet: the static analysis that decides it is still being built.")})
    m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks read the MIR of the unmodified crate. See DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
