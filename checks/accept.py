"""C19: predictive recognition.  A composition: the proof in DESIGN.md derives the property from lemmas about the
analyses, the table and the parser; each lemma is an obligation of the check that establishes it, and all of them are
discharged again here on the current tree."""
import json
import os
import time
from base import *
import grammar
import panics
import parse
import sets
import table
import values

# lemmas that recognition does not depend on
FREE = {
    "C02": {"terminals stand on a right-hand side", "list getter returns every member once", "field is private"},
    "C03": {"field is private"},
    "C07": {"each production is listed once, in declaration order"},
    "C08": {
        "children are the trees of the symbols, in order",
        "a recognised symbol keeps its tree",
        "a leaf has no children",
        "a leaf is labelled with the symbol it stands for",
        "a tree is labelled with the symbol it was asked for",
        "a fix never ends up in a plain tree",
    },
    "C09": {
        "children are the trees of the symbols, in order",
        "a recognised symbol keeps its tree",
        "a leaf has no children",
        "a terminal leaf is the token at the current position",
        "an epsilon leaf carries no lexeme",
        "inner nodes carry no lexeme",
        "parsing resumes at the position the solver returned",
    },
    "C12": {
        "backtracking stops at the first symbol that can be retried",
        "a retry resumes the alternatives left",
        "untried alternatives are kept with the symbol",
        "a leaf has no alternatives",
        "a symbol is given up only when it has no alternative left",
        "the alternatives not tried yet stay available",
        "one failure per candidate, in order",
        "a failed terminal has no failed productions",
    },
    "C18": {"parser fields are private"},
}


def needed(pid, v):
    if v["rule"] in FREE.get(pid, ()):
        return False
    if v["rule"] == "candidates are tried in order, each once" and "reverse" in str(v.get("detail")):
        return False
    return True


# lemmas termination depends on, besides those of parse.TERM
ROWS = {
    "C07": {"the table is a map of rows", "the construction returns", "a production is listed only in the row of its left-hand side", "nothing leaves the table"},
    "C03": {"the production map groups all productions in declaration order", "lookup returns exactly the stored entry", "fields have distinct roles"},
    "C18": {"constructor returns", "the parser keeps the grammar it was given", "the table is that of the grammar"},
}


def ranked(pid, v):
    if pid == "C07" and v["rule"] == "nothing leaves the table" and str(v.get("detail", "")).split("(")[0] in ("vmut", "vrev", "vinsert", "pop", "clear", "setrm", "setclr"):
        return False  # within a cell
    return pid == "C20" or v["rule"] == "analysis finishes" or v["rule"] in ROWS.get(pid, ())


def c20(prog, rep, tier):
    compose(prog, rep, [("C20", parse.check("C20")), ("C07", table.c07), ("C03", grammar.c03), ("C18", values.c18)], ranked, tier)


def c19(prog, rep, tier):
    compose(prog, rep, parts(), needed, tier)


def parts():
    # the costly ones first
    return [
        ("C06", sets.c06),
        ("C05", sets.c05),
        ("C10", panics.c10),
        ("C04", sets.c04),
        ("C09", parse.check("C09")),
        ("C08", parse.check("C08")),
        ("C12", parse.check("C12")),
        ("C07", table.c07),
        ("C02", grammar.c02),
        ("C03", grammar.c03),
        ("C18", values.c18),
    ]


def lemma(prog, pid, fn, tier, out):
    rep = Report(pid, tier)
    try:
        fn(prog, rep, tier)
    except MemoryError:
        rep.violations = []
        rep.unsure("analysis finishes", pid, "memory limit")
    except (interp.Limit, Undecided, RecursionError, OverflowError) as x:
        rep.unsure("analysis finishes", pid, "%s: %s" % (type(x).__name__, x))
    except Exception as x:
        rep.unsure("analysis finishes", pid, "internal %s: %s" % (type(x).__name__, x))
    json.dump(
        {
            "ob": rep.obligations,
            "bad": rep.violations,
            "unsure": rep.undecided,
            "unk": rep.unmodelled(),
            "analysed": rep.analysed(),
        },
        open(out, "w"),
        default=str,
    )


def compose(prog, rep, lemmas, needed, tier):
    B = os.path.join(V, "build")
    todo = list(lemmas)
    run, files = {}, {}
    jobs = min(6, os.cpu_count() or 2)
    rep.kids = set()
    while todo or run:
        while todo and len(run) < jobs:
            pid, fn = todo.pop(0)
            files[pid] = os.path.join(B, "lemma.%d.%s.json" % (os.getpid(), pid))
            sys.stdout.flush()
            c = os.fork()
            if c == 0:
                try:
                    lemma(prog, pid, fn, tier, files[pid])
                finally:
                    os._exit(0)
            run[c] = pid
            rep.kids.add(c)
        c, st = os.wait()
        run.pop(c, None)
        rep.kids.discard(c)
    analysed = {}
    for pid, fn in lemmas:
        try:
            d = json.load(open(files[pid]))
            os.remove(files[pid])
        except (OSError, ValueError):
            rep.unsure("analysis finishes", pid, "no answer")
            continue
        for r, w, s in d["ob"]:
            if s == "discharged" and needed(pid, {"rule": r}):
                rep.obligations.append(("%s: %s" % (pid, r), w, s))
        for v in d["bad"]:
            if not needed(pid, v):
                continue
            v["rule"] = "%s: %s" % (pid, v["rule"])
            if d["unk"] and not v.get("definite"):
                rep.unsure(v["rule"], v["where"], "%s (unmodelled constructs: %s)" % (v["detail"], sorted(d["unk"])))
            else:
                rep.bad(v["rule"], v["where"], v["detail"], v.get("path"))
        for v in d["unsure"]:
            if needed(pid, v):
                rep.unsure("%s: %s" % (pid, v["rule"]), v["where"], v["detail"])
        for k, v in d["analysed"].items():
            analysed["%s: %s" % (pid, k)] = v
    rep.cover["analysed"] = analysed
