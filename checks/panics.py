"""C10: computing the sets, building the table, building a parser and parsing never panic."""
from base import *
import parse
import sets
import table
import theory


def c10(prog, rep, tier):
    r = roles(prog, rep)
    ffrom = method(prog, "FirstFollowSymbols", "from")
    tfrom = method(prog, "RecursiveDescentParserTransitions", "from")
    e, args, outs = analyse(prog, ffrom, rep, lambda e, a: theory.Theory(e, r, [a[0]]))
    total(rep, e, outs, ffrom)
    e, args, outs = analyse(prog, tfrom, rep, lambda e, a: table.find_theory(e, r, a), 1200000)
    total(rep, e, outs, tfrom)
    # the constructors, given that the two computations return
    pp = adt_named(prog, "RecursiveDescentParser")
    makers = [b for b in prog.local_bodies() if b.j["promoted"] == -1 and b.kind != "Closure" and b.j.get("pub") and owns_adt(b.locals[0], pp)]
    rep.check(bool(makers), "constructors found", pp, "no public constructor of the parser")

    def setup(e, args):
        e.cut = {ffrom.u, tfrom.u}
    for b in makers:
        e, args, outs = analyse(prog, b, rep, setup=setup)
        total(rep, e, outs, b)
    parse.check("C10")(prog, rep, tier)


def total(rep, e, outs, b):
    w = where(b)
    rule = "no panic is reachable"
    bad = [s for k, s in outs if k == "panic"]
    rep.check(any(k == "ret" for k, s in outs), "it returns", w, "never returns")
    seen = set()
    for s in bad:
        kind, fn, span = s.info
        at = "%s: %s at %s" % (fn, kind, span)
        if at in seen:
            continue
        seen.add(at)
        cond = cause(e, s)
        unk = any(mentions_unknown(c) or of_unknown(e, s, c) for c in cond)
        (rep.unsure if unk else rep.bad)(rule, w, "%s when %s" % (at, "; ".join(show(c) for c in cond)[:600]))
    if not bad:
        rep.ok(rule, w)


def cause(e, s):
    return [x for x in e.events(s.log) if x.a[0] == "asm"][-3:]


def of_unknown(e, s, c):
    """is it about an element of a local collection whose contents are not known?"""
    for x in subterms(c):
        if x.tag == "idx" and (x.a[0].tag == "enum" and x.a[0].a[0].tag == "set" and e.P.content(s, x.a[0].a[0]) is None or x.a[0].tag == "vid" and e.P.vec_content(s, x.a[0]) is None):
            return True
    return False


def mentions_unknown(t, seen=None):
    if seen is None:
        seen = set()
    if not isinstance(t, T) or t in seen:
        return False
    seen.add(t)
    return t.tag == "unk" or any(mentions_unknown(x, seen) for x in t.a)
