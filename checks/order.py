"""C15: no hash iteration order reaches a transition table or the outcome of a parse.

Every iteration over a hash map or hash set shows up in the analysed effects as visits of `enum(X)`.  Such an
iteration is harmless when what it does commutes: it visits every element, adds to sets, writes cells of its own
(the element is part of the key), or fills a list that is itself only gone through in this way.  Everything else
depends on the order: appending to a list that is kept, taking an element by its position, stopping early after
having had an effect, keeping the last (or first) of several values, filling up to some size."""
from base import *
import loops
import parse
import sets
import table
import theory
from prims import TOUCH

WRITE = {"push", "vinsert", "vset", "ipush", "ins", "mapins", "setrm", "setclr", "store", "pop", "clear", "rc", "call"}
CONTENT = {"push", "vinsert", "vset", "ipush", "ins", "mapins", "setrm", "rc", "call"}


def root(t):
    while t.tag in ("mget", "cell", "set", "map", "vec", "ivec", "deref") and t.a and isinstance(t.a[0], T):
        t = t.a[0]
    return t


def keys_of(t):
    out = []
    while t.tag in ("mget", "cell", "set", "map", "vec", "ivec", "deref") and t.a and isinstance(t.a[0], T):
        if t.tag == "mget":
            out.append(t.a[1])
        t = t.a[0]
    return out


class F:
    __slots__ = ("inst", "word", "k")

    def __init__(self, inst, word, k):
        self.inst, self.word, self.k = inst, word, k


class Order:
    def __init__(self, prog, rep, name, e, outs, growing=False, lists_ok=False):
        self.prog, self.rep, self.e, self.w = prog, rep, e, name
        self.growing = growing  # sets that grow to a fixpoint: the order within the rounds is settled by C06
        self.lists_ok = lists_ok
        self.lists = set()
        self.found = {}
        self.visits = 0
        self.effects = 0
        self.soft = {}
        rets = [s for k, s in outs if k == "ret"]
        for _ in range(4):
            n = len(self.lists)
            self.found, self.soft, self.visits, self.effects = {}, {}, 0, 0
            for s in rets:
                self.ret = s.ret
                self.carried = set()
                self.seen = set()
                log = list(e.events(s.log))
                self.pass1(log, set())
                self.walk(log, [])
                self.kept(s, log)
            if len(self.lists) == n:
                break
        rule = "no hash iteration order is kept"
        for why in sorted(self.found)[:4]:
            rep.bad(rule, name, why)
        for why in sorted(self.soft)[:4]:
            if not self.found:
                rep.unsure(rule, name, why)
        if not self.found and not self.soft:
            rep.ok(rule, "%s: %d effects, %d unordered visits" % (name, self.effects, self.visits))

    def unordered(self, D):
        return D.tag == "enum" or D in self.lists

    # ------------------------------------------------------------ loop variables that keep an element
    def pass1(self, word, seen):
        for ev in word:
            if ev.a[0] != "L" or ev.a[1] in seen:
                continue
            seen.add(ev.a[1])
            inst = self.e.insts.get(ev.a[1])
            if inst is None:
                continue
            fl = loops.flat(self.e, inst)
            for i, w, j, steps in fl.edges:
                vals = self.visited(w, len(w))
                for p, v in steps.items():
                    if v is p or p.a[2] == "i":
                        continue
                    if any(self.mentions(v, x) for D, q, x in vals):
                        self.carried.add(p)
                self.pass1(w, seen)
            for x in fl.exits:
                self.pass1(x[1], seen)

    def visited(self, w, k):
        out = []
        for ev in w[:k]:
            if ev.a[0] == "visit" and self.unordered(ev.a[1]):
                out.append((ev.a[1], ev.a[2], ev.a[3]))
        return out

    def own(self, D, p, val):
        """terms that tell the elements of D apart"""
        out = [val, mk("idx", D, p)]
        if val.tag == "tup":
            out.append(val.a[0])
        if val.tag == "mget":
            out.append(val.a[1])
        return out

    def keyed(self, ks, mine):
        return any(k is x for k in ks for x in mine)

    def mentions(self, t, x):
        return isinstance(t, T) and any(s is x for s in subterms(t))

    # ------------------------------------------------------------ effects
    def walk(self, word, frames):
        for k, ev in enumerate(word):
            a = ev.a[0]
            if a == "L":
                inst = self.e.insts.get(ev.a[1])
                if inst is None or any(f.inst is inst for f in frames):
                    continue
                key = (ev.a[1], tuple((f.inst.t if f.inst else None, f.k, f.word) for f in frames[-1:]))
                if key in self.seen:
                    continue
                self.seen.add(key)
                fl = loops.flat(self.e, inst)
                fr = frames + [F(self.cur(frames), word, k)]
                for i, w, j, s in fl.edges:
                    self.walk(w, fr + [F(inst, w, 0)])
                for x in fl.exits:
                    if x[2] != "panic":
                        self.walk(x[1], fr + [F(inst, x[1], 0)])
            elif a in ("X", "new"):
                continue
            else:
                if a == "visit" and self.unordered(ev.a[1]):
                    self.visits += 1
                self.event(frames, word, k, ev)

    def cur(self, frames):
        return frames[-1].inst if frames else None

    def event(self, frames, word, k, ev):
        a = ev.a[0]
        self.positions(frames, word, k, ev)
        if a not in WRITE:
            return
        self.effects += 1
        self.picked([(f.word, f.k) for f in frames if f.k] + [(word, k)], ev)
        V = ev.a[1]
        chain = [f for f in frames if f.inst is not None and f.k == 0]
        pts = [(f.inst, f.word, len(f.word)) for f in frames if f.inst is not None and f.k]
        # (loop, word, position) from the inside out
        pos = []
        ks = {id(f.word): f.k for f in frames if f.k}
        for f in chain:
            pos.append((f.inst, f.word, ks.get(id(f.word), len(f.word))))
        if pos and pos[-1][1] is word:
            pos[-1] = (pos[-1][0], word, k)
        for n in range(len(pos) - 1, -1, -1):
            inst, w, kk = pos[n]
            if a in ("rc", "call"):
                pass
            elif self.e.born(root(V), inst.L):
                break
            ent = self.visited(w, kk)
            for D, p, val in ent:
                self.partial(inst, D, ev, frames)
                if a in ("rc", "call"):
                    continue
                mine = self.own(D, p, val)
                ks = keys_of(V)
                if a in ("mapins", "ins"):
                    ks = ks + [ev.a[2]]
                if self.keyed(ks, mine):
                    self.guards(inst, pos, n, D, mine, ev)
                    continue
                if a in ("push", "vinsert", "vset", "ipush"):
                    r = root(V)
                    if V.tag in ("vid", "vec", "ivec") and r.tag == "vid":
                        self.lists.add(r)
                    else:
                        self.bad("%s is appended to %s while going through %s in hash order" % (show(ev.a[-1]), show(V), show(D)))
                elif a == "mapins":
                    if self.mentions(ev.a[3], val):
                        self.bad("the entry of %s is the last one met while going through %s in hash order" % (show(ev.a[2]), show(D)))
                elif a == "ins":
                    self.guards(inst, pos, n, D, mine, ev)

    def bad(self, why):
        self.found[why[:500]] = 1

    # ------------------------------------------------------------ stopping early
    def partial(self, inst, D, ev, frames):
        fl = loops.flat(self.e, inst)
        for w in [x[1] for x in fl.edges]:
            # the same position in a list copied from D
            for p in [x.a[2] for x in w if x.a[0] == "visit" and x.a[1] is D]:
                for x in w:
                    if x.a[0] == "visit" and x.a[2] is p and x.a[1] is not D and loops.coverage(self.e, inst, x.a[1]).complete:
                        return
        for i, w, kind, st, g in fl.exits:
            if kind != "exit":
                continue
            if any(x.a[0] == "visit" and x.a[1] is D for x in w):
                self.bad("going through %s in hash order stops early, after effects such as %s" % (show(D), show(ev)[:160]))
                return
        cov = loops.coverage(self.e, inst, D)
        if cov.complete:
            return
        why = cov.why or ""
        if why.startswith("does not start at the first") and cov.start.tag == "int":
            # the first elements may have been dealt with before the loop
            before = {x.a[2].a[0] for f in frames for x in f.word[: f.k] if x.a[0] == "visit" and x.a[1] is D and x.a[2].tag == "int"}
            if set(range(cov.start.a[0])) <= before:
                return
        if why == "leaves the loop before the last element" or why.startswith("does not start"):
            self.bad("only part of %s is visited, in hash order, with effects such as %s" % (show(D), show(ev)[:160]))

    # ------------------------------------------------------------ what happened in earlier iterations
    def guards(self, inst, pos, n, D, mine, ev):
        """does it depend on what earlier iterations have added?"""
        for m in range(n, len(pos)):
            i2, w, kk = pos[m]
            for x in w[:kk]:
                if x.a[0] != "asm":
                    continue
                at = x.a[1]
                if at.a[0] in ("lt", "ieq"):
                    for s in subterms(at):
                        if s.tag == "len" and isinstance(s.a[0], T):
                            C = s.a[0].a[0] if s.a[0].tag == "enum" else s.a[0]
                            if C is ev.a[1] and not any(y.a[0] == "visit" and y.a[1] is s.a[0] for y in w) and not self.keyed(keys_of(C), mine):
                                self.bad("%s is filled up to some size, in hash order" % show(C))
                elif at.a[0] in ("in", "haskey") and not self.growing:
                    C, y = at.a[1], at.a[2]
                    if C is ev.a[1] and (ev.a[0] in ("ins", "mapins") and ev.a[2] is y):
                        continue
                    if self.e.born(root(C), inst.L) or self.keyed(keys_of(C) + [y], mine):
                        continue
                    if self.grows(inst, C):
                        self.bad("%s depends on what was met earlier while going through %s in hash order" % (show(ev)[:200], show(D)))

    def grows(self, inst, C):
        want = "ins" if C.tag == "set" else None
        for t in loops.inner_terms(self.e, inst):
            if t.tag == "ev" and t.a[0] in ("ins", "mapins", "setrm", "setclr") and t.a[1] is C:
                return True
        return False

    # ------------------------------------------------------------ elements found by searching
    def search(self, inst):
        """does the loop look through a hash collection from its start for something that fits?"""
        c = inst.__dict__.get("_search")
        if c is None:
            c = False
            fl = loops.flat(self.e, inst)
            for i, w, kind, st, g in fl.exits:
                if kind != "exit":
                    continue
                for x in w:
                    if x.a[0] != "visit" or not self.unordered(x.a[1]):
                        continue
                    p = split(x.a[2])[0]
                    ini = fl.inits.get(p)
                    if ini is not None and ini.tag != "int" or ini is None and p.tag != "int":
                        continue  # goes on where another loop has stopped
                    if not any(y.a[0] == "asm" and y.a[1].a[0] == "eq" and y.a[2] is TRUE and self.settled(inst, y.a[1], x) for y in w):
                        c = True
            inst.__dict__["_search"] = c
        return c

    def settled(self, inst, at, x):
        """the element is equal to something known before the loop"""
        for s, o in ((at.a[1], at.a[2]), (at.a[2], at.a[1])):
            if s is x.a[3] and not self.e.born(o, inst.L):
                return True
        return False

    def picked(self, words, ev):
        for w, k in words:
            for x in w[:k]:
                if x.a[0] != "L":
                    continue
                inst = self.e.insts.get(x.a[1])
                if inst is not None and self.search(inst) and any(self.e.in_loop(s, inst.L) for t in ev.a[1:] if isinstance(t, T) for s in t.syms):
                    self.bad("what a search in hash order came upon first is used in %s" % show(ev)[:200])
                    return

    # ------------------------------------------------------------ elements taken by position
    def positions(self, frames, word, k, ev):
        if ev.a[0] in ("visit", "alt"):
            return
        ok = None
        for t in subterms(ev):
            if t.tag == "idx" and self.unordered(t.a[0]):
                if ok is None:
                    ok = set()
                    for f in frames + [F(None, word, k)]:
                        for x in f.word:
                            if x.a[0] in ("visit", "alt"):
                                for s in subterms(x):
                                    ok.add(s)
                if t not in ok:
                    self.bad("%s is picked by its position in a hash iteration, in %s" % (show(t), show(ev)[:160]))
            elif t in self.carried and ev.a[0] != "asm":
                self.bad("the value kept from a hash iteration is used in %s" % show(ev)[:200])

    def kept(self, s, log):
        if not isinstance(s.ret, T):
            return
        self.picked([(log, len(log))], s.ret if s.ret.tag == "ev" else mk("ev", "ret", s.ret))
        for t in subterms(s.ret):
            if t.tag == "idx" and self.unordered(t.a[0]) or t in self.carried:
                self.bad("%s, taken from a hash iteration, is returned" % show(t))
            elif t in self.lists and not self.lists_ok:
                self.bad("a list filled in hash order is returned")
        if self.lists:
            self.stored(log, set())

    def stored(self, word, seen):
        for ev in word:
            if ev.a[0] == "L":
                if ev.a[1] in seen:
                    continue
                seen.add(ev.a[1])
                inst = self.e.insts.get(ev.a[1])
                if inst is not None:
                    for w in [x[1] for x in inst.edges] + [x[1] for x in inst.exits]:
                        self.stored(w, seen)
            elif ev.a[0] in ("push", "mapins", "vset", "rc", "call", "store"):
                for x in ev.a[2:]:
                    if isinstance(x, T) and any(s in self.lists for s in subterms(x)):
                        if any(s.tag == "idx" and s.a[0] in self.lists for s in subterms(x)):
                            continue
                        self.bad("a list filled in hash order is kept: %s" % show(ev)[:200])


def c15(prog, rep, tier):
    r = roles(prog, rep)
    b = method(prog, "ContextFreeGrammar", "new")
    e, args, outs = analyse(prog, b, rep, lambda e, a: theory.Theory(e, r, []))
    Order(prog, rep, where(b), e, outs)
    b = method(prog, "FirstFollowSymbols", "from")
    e, args, outs = analyse(prog, b, rep, lambda e, a: theory.Theory(e, r, [a[0]]))
    Order(prog, rep, where(b), e, outs, growing=True)
    # the rounds go through the symbols in hash order: only the fixpoint does not depend on it
    sub = Report("C15", tier)
    sets.c06(prog, sub, tier)
    rule = "the loop over the rules stops only after a round that adds nothing"
    for v in sub.violations:
        if v["rule"] == rule:
            rep.bad(rule, v["where"], v["detail"] + " (and the rounds go through the symbols in hash order)")
    for v in sub.undecided:
        if v["rule"] != "every loop makes progress":
            rep.unsure(v["rule"], v["where"], v["detail"])
    for o in sub.obligations:
        if o[0] == rule and o[2] == "discharged":
            rep.ok(rule, o[1])
    b = method(prog, "RecursiveDescentParserTransitions", "from")
    e, args, outs = analyse(prog, b, rep, lambda e, a: table.find_theory(e, r, a), 1200000)
    Order(prog, rep, where(b), e, outs)
    for a, m in (("ContextFreeGrammar", "get_productions"), ("FirstFollowSymbols", "get_first_symbols"), ("FirstFollowSymbols", "get_follow_symbols"),
                 ("RecursiveDescentParserTransitions", "get_productions")):
        b = method(prog, a, m)
        e, args, outs = analyse(prog, b, rep)
        Order(prog, rep, where(b), e, outs)
    P = parse.Parser(prog, rep, "C15")
    P.load()
    Order(prog, rep, where(P.H), P.eng, P.outs)
    b = method(prog, "RecursiveDescentParser", "parse_from_tokens")

    def setup(e, args):
        e.cut = {P.H.u}
    e, args, outs = analyse(prog, b, rep, None, 1500000, setup)
    Order(prog, rep, where(b), e, outs)
