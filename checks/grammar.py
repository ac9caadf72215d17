"""C01-C03: construction of a grammar, read off the effect log of ContextFreeGrammar::new."""
from base import *
import loops
import quant
from quant import *


class New:
    """the analysed constructor"""

    def __init__(self, prog, rep, r):
        self.prog, self.rep, self.r = prog, rep, r
        self.body = method(prog, "ContextFreeGrammar", "new")
        th = lambda e, args: theory.Theory(e, r, [])
        self.e, self.args, self.outs = analyse(prog, self.body, rep, th)
        self.rets = [s for k, s in self.outs if k == "ret"]
        self.panics = [s for k, s in self.outs if k == "panic"]
        # public argument order: epsilon symbol, initial symbol, productions
        self.eps, self.ini, self.prods = self.args
        self.w = where(self.body)
        self.grouped = {}

    def field(self, st, role):
        return proj(st.ret, None, getattr(self.r, role))

    # ------------------------------------------------------------ classes of collections
    def production(self, t):
        """is this term one of the given productions?"""
        if t is None:
            return False
        if t.tag == "idx":
            c = t.a[0]
            if c is self.prods:
                return True
            if c.tag == "mget" and c.a[0] in self.grouped:
                return self.grouped[c.a[0]]
        return False

    def cls(self, log, C, depth=0):
        """('prods',) | ('inputs',) | ('of', key) | ('out', p) | None"""
        if C is self.prods:
            return ("prods",)
        if C.tag == "f" and C.a[1] == self.r.pout and self.production(C.a[0]):
            return ("out", C.a[0])
        if C.tag == "mget" and self.group(log, C.a[0]):
            return ("of", C.a[1])
        if C.tag == "enum":
            s = C.a[0]
            if s.tag == "keys" and self.group(log, s.a[0]):
                return ("inputs",)
            if s.tag == "set" and depth < 4 and self.is_inputs(log, s, depth):
                return ("inputs",)
        if C.tag == "vid" and depth < 4:
            r = self.copy_of(log, C)
            if r is not None:
                return self.cls(log, r, depth + 1)
        return None

    def fills(self, log, vid):
        """index of the single completed loop that fills a local collection, or None"""
        at = None
        new = None
        for k, ev in enumerate(log):
            if ev.a[0] == "new" and ev.a[1] is vid:
                new = k
            elif ev.a[0] == "L":
                i2 = self.e.insts.get(ev.a[1])
                if i2 is not None and self.e.P.inst_touches(i2, vid):
                    if at is not None:
                        return None
                    at = k
            elif ev.a[0] in TOUCH and any(x is vid for x in ev.a[1:]) and ev.a[0] != "new":
                return None
        return at if new is not None else None

    def copy_of(self, log, vid):
        """collection of which the vector is a one to one copy"""
        k = self.fills(log, vid)
        if k is None:
            return None
        gid = log[k + 1].a[2].a[0] if k + 1 < len(log) and log[k + 1].a[0] == "X" else None
        it = log[k].a[1]
        for C, its, cov in iterations(self.e, it, gid):
            if C is vid:
                continue
            ok = bool(its)
            for x in its:
                n = [ev for ev in x.word if ev.a[0] in TOUCH and any(y is vid for y in ev.a[1:])]
                if len(n) != 1 or n[0].a[0] != "push" or n[0].a[3] is not x.val:
                    ok = False
            if ok and not any(touches(self.e, w, vid) for w in other_words(self.e, self.e.insts[it], its, gid)):
                return C
        return None

    def set_fill(self, log, S):
        """[(list of (loop, It) from the outside in, insert event)] for a local set, None if it may lose elements"""
        out = []
        if not any(ev.a[0] == "new" and ev.a[1] is S.a[0] for ev in log):
            return None

        def go(word, ctx, depth):
            for k, ev in enumerate(word):
                if ev.a[0] == "ins" and ev.a[1] is S:
                    out.append((ctx + [word[:k]], ev.a[2]))
                elif ev.a[0] in TOUCH and ev.a[0] not in ("new", "ins") and any(x is S for x in ev.a[1:]):
                    out.append(None)
                elif ev.a[0] == "L" and depth < 6:
                    inst = self.e.insts.get(ev.a[1])
                    if inst is None or not self.e.P.inst_touches(inst, S):
                        continue
                    f = loops.flat(self.e, inst)
                    for i, w, j, s in f.edges:
                        go(w, ctx + [word[:k], loops.head_state(self.e, inst, i)], depth + 1)
                    for i, w, kind, st, g in f.exits:
                        if kind == "exit":
                            go(w, ctx + [word[:k], loops.head_state(self.e, inst, i)], depth + 1)

        go(list(log), [], 0)
        if any(o is None for o in out):
            return None
        return out

    def is_inputs(self, log, S, depth=0):
        """set of exactly the left-hand sides"""
        fills = self.set_fill(log, S)
        if not fills:
            return False
        for ctx, x in fills:
            if not self.is_input(x):
                return False
        return self.forall(log, lambda st, w, p: self.inserts(st, w, S, proj(p, None, self.r.pin)),
                           lambda st, w, k: self.inserts(st, w, S, k))

    def is_input(self, x):
        return x.tag == "f" and x.a[1] == self.r.pin and self.production(x.a[0]) or x.tag == "idx" and x.a[0].tag == "enum" and self.cls([], x.a[0]) == ("inputs",)

    def inserts(self, st, w, S, x):
        for ev in w:
            if ev.a[0] == "ins" and ev.a[1] is S and (ev.a[2] is x or self.e.decide(st, self.e.eq_atom(ev.a[2], x)) is True):
                return True
        return self.e.decide(st, mk("at", "in", S, x)) is True

    # ------------------------------------------------------------ grouping
    def group(self, log, M):
        """does the local map hold, per left-hand side, its productions in declaration order?"""
        if M in self.grouped:
            return self.grouped[M]
        if M.tag != "map":
            return False
        self.grouped[M] = False
        self.why = None
        r = self.group_(log, M)
        self.grouped[M] = r
        return r

    def group_(self, log, M):
        e = self.e
        if not any(ev.a[0] == "new" and ev.a[1] is M.a[0] for ev in log):
            self.why = "not created here"
            return False
        found = None

        def cell(t):
            return t.tag == "mget" and t.a[0] is M

        def hits(ev):
            if ev.a[0] not in TOUCH and ev.a[0] not in ("take", "store"):
                return False
            return any(x is M or isinstance(x, T) and cell(x) for x in ev.a[1:3])

        def rec(word):
            for ev in word:
                if hits(ev):
                    return True
                if ev.a[0] == "L":
                    inst = e.insts.get(ev.a[1])
                    if inst is not None and (any(rec(w) for _, w, _, _ in inst.edges) or any(rec(x[1]) for x in inst.exits)):
                        return True
            return False

        for k, ev in enumerate(log):
            if ev.a[0] == "L" and rec([ev]):
                if found is not None:
                    self.why = "changed by several loops"
                    return False
                found = k
            elif hits(ev) and ev.a[0] != "new":
                self.why = "changed outside the loop over the productions (%s)" % ev.a[0]
                return False
        if found is None:
            self.why = "never filled"
            return False
        it = log[found].a[1]
        gid = log[found + 1].a[2].a[0] if found + 1 < len(log) and log[found + 1].a[0] == "X" else None
        inst = e.insts[it]
        for C, its, cov in iterations(e, it, gid):
            if self.cls(log, C) != ("prods",) or cov.reverse:
                continue
            if any(rec(w) for w in other_words(e, inst, its, gid)):
                self.why = "changed without looking at a production"
                return False
            for x in its:
                key = proj(x.val, None, self.r.pin)
                st = state_of(e, loops.head_state(e, inst, x.head), x.word)
                if not self.group_word(st, x.word, M, key, x.val):
                    return False
            return True
        self.why = "no loop over all productions in order fills it"
        return False

    def group_word(self, st, w, M, key, p):
        """simulate one iteration: afterwards M[key] = old M[key] + [p], nothing else changed"""
        e = self.e
        cellt = mk("mget", M, key)
        had = None
        cur = None  # symbolic list added so far
        vecs = {}
        for ev in w:
            k = ev.a[0]
            if k == "asm" and ev.a[1].a[0] == "haskey" and ev.a[1].a[1] is M:
                if ev.a[1].a[2] is key or e.decide(st, e.eq_atom(ev.a[1].a[2], key)) is True:
                    v = ev.a[2]
                    v = v.a[0] if isinstance(v, T) else v
                    if cur is None:
                        had = v
                        cur = ["old"] if v else None
            elif k == "new":
                vecs[ev.a[1]] = []
            elif k == "push" and ev.a[1] in vecs:
                vecs[ev.a[1]].append(ev.a[3])
            elif k == "push" and ev.a[1].tag == "mget" and ev.a[1].a[0] is M:
                if ev.a[1].a[1] is not key:
                    self.why = "pushes to the list of another symbol"
                    return False
                if cur is None:
                    self.why = "pushes to a list that may not exist"
                    return False
                cur = cur + [ev.a[3]]
            elif k == "mapins" and ev.a[1] is M:
                if ev.a[2] is not key:
                    self.why = "stores under a key other than the left-hand side"
                    return False
                if had is not False:
                    self.why = "may overwrite the productions collected so far"
                    return False
                v = ev.a[3]
                if v.tag != "vec" or v.a[0] not in vecs:
                    self.why = "stores an unknown list"
                    return False
                cur = list(vecs[v.a[0]])
            elif k == "L":
                inst = e.insts.get(ev.a[1])
                if inst is not None and (e.P.inst_touches(inst, M) or any(e.P.inst_touches(inst, v) for v in vecs)):
                    self.why = "nested loop changes the lists"
                    return False
            elif k == "vinsert" and ev.a[1] is cellt and cur is not None:
                n = add(mk("len", cellt), len(cur) - 1) if cur[:1] == ["old"] else I(len(cur))
                if ev.a[2] is not n and e.decide(st, e.ieq_atom(ev.a[2], n)) is not True:
                    self.why = "inserts the production before others that were given earlier"
                    self.definite = placed(ev.a[2])
                    return False
                cur = cur + [ev.a[3]]
            elif k in TOUCH and any(x is M or isinstance(x, T) and x.tag == "mget" and x.a[0] is M for x in ev.a[1:3]):
                self.why = "unexpected change (%s)" % k
                return False
        if cur == [p] and had is False or cur == ["old", p]:
            return True
        self.why = "an iteration leaves the list as %s instead of appending the production" % show(tuple(cur or ()))
        return False

    def start(self):
        return self.e.init_state(self.body, self.args)

    def asked(self, log, x):
        """the symbol was looked up among all the left-hand sides, and is none of them"""
        for k, ev in enumerate(log):
            if ev.a[0] == "asm" and ev.a[1].a[0] in ("haskey", "in") and ev.a[2] in (FALSE, False) and (ev.a[1].a[2] is x):
                C = ev.a[1].a[1]
                if any(self.e.P.touches(w, C) for w in [log[k:]]):
                    continue
                if C.tag == "map" and self.group(log[:k], C) or C.tag == "set" and self.is_inputs(log[:k], C):
                    return True
        return False

    # ------------------------------------------------------------ quantification
    def forall(self, log, pred_p, pred_k=None, at=None):
        """is there a completed loop nest visiting every production, each visit satisfying
        pred_p(state, word, production)?  pred_k: alternative on left-hand sides only"""
        e = self.e
        for k, it, gid in loops_in(log):
            if at is not None and k != at:
                continue
            for C, its, cov in iterations(e, it, gid):
                c = self.cls(log, C)
                if c is None:
                    continue
                ok = True
                its = unmoved(e, e.insts[it], its, state_of(e, self.start(), log), gid)
                for x in its:
                    st = state_of(e, loops.head_state(e, x.inst, x.head), x.word)
                    v = x.val
                    if c[0] == "prods":
                        if not pred_p(st, x.word, v):
                            ok = False
                    elif c[0] == "inputs":
                        key = v.a[0] if v.tag == "tup" else v.a[1] if v.tag == "mget" else v
                        if pred_k is not None and pred_k(st, x.word, key):
                            continue
                        if not self.forall_of(log, st, x.word, key, pred_p):
                            ok = False
                    else:
                        ok = False
                    if not ok:
                        break
                if ok and its:
                    return True
        return False

    def forall_of(self, log, st0, word, key, pred_p):
        e = self.e
        for k, it, gid in loops_in(word):
            for C, its, cov in iterations(e, it, gid):
                c = self.cls(log, C)
                if c is None or c[0] != "of" or not (c[1] is key):
                    continue
                its = unmoved(e, e.insts[it], its, state_of(e, st0, word), gid)
                ok = bool(its)
                for x in its:
                    st = state_of(e, loops.head_state(e, x.inst, x.head), word, x.word)
                    if not pred_p(st, x.word, x.val):
                        ok = False
                        break
                if ok:
                    return True
        return False

    def forall_out(self, log, st0, word, p, pred):
        """every symbol on the right-hand side of p is visited in this word, satisfying pred"""
        e = self.e
        out = proj(p, None, self.r.pout)
        for k, it, gid in loops_in(word):
            for C, its, cov in iterations(e, it, gid):
                if C is not out and self.copy_of(list(word), C) is not out:
                    continue
                its = unmoved(e, e.insts[it], its, state_of(e, st0, word), gid)
                ok = bool(its)
                for x in its:
                    st = state_of(e, loops.head_state(e, x.inst, x.head), word, x.word)
                    if not pred(st, x.word, x.val):
                        ok = False
                        break
                if ok:
                    return True
            # from some position on, and what comes before it one by one
            pt = partial(e, it, gid, out)
            if pt is None or pt[0] > 4:
                continue
            if not all(pred(state_of(e, loops.head_state(e, x.inst, x.head), word, x.word), x.word, x.val) for x in pt[1]):
                continue
            st = state_of(e, st0, word)
            if all(pred(st, word, mk("idx", out, I(j))) or e.le(st, mk("len", out), I(j)) for j in range(pt[0])):
                return True
        return False


def c01(prog, rep, tier):
    r = roles(prog, rep)
    n = New(prog, rep, r)
    e = n.e
    rep.check(bool(n.rets), "constructor can succeed", n.w, "ContextFreeGrammar::new never returns")
    # the local map that holds the productions in every successful outcome
    for s in n.rets:
        log = e.events(s.log)
        for ev in every(e, log):
            if ev.a[0] == "new" and ev.a[2].a[0] == "map":
                n.group(log, mk("map", ev.a[1]))

        def lhs(st, w, p):
            return e.decide(st, e.eq_atom(n.eps, proj(p, None, r.pin))) is False

        def lhs_k(st, w, k):
            return e.decide(st, e.eq_atom(n.eps, k)) is False

        def nonempty(st, w, p):
            ln = mk("len", proj(p, None, r.pout))
            return e.le(st, I(1), ln) or e.decide(st, e.ieq_atom(I(0), ln)) is False

        def alone(st, w, p):
            out = proj(p, None, r.pout)
            if e.le(st, mk("len", out), I(1)):
                return True
            if e.decide(st, mk("at", "in", out, n.eps)) is False:
                return True
            return n.forall_out(log, st, w, p, lambda s2, w2, x: e.decide(s2, e.eq_atom(n.eps, x)) is False)

        rep.check(n.forall(log, lhs, lhs_k) or n.asked(log, n.eps), "no accepted production derives from epsilon", n.w,
                  "a path returns a grammar without having compared every left-hand side with the epsilon symbol")
        rep.check(n.forall(log, nonempty), "no accepted production has an empty right-hand side", n.w,
                  "a path returns a grammar without having checked that every right-hand side is non-empty")
        rep.check(n.forall(log, alone), "no accepted production mixes epsilon with other symbols", n.w,
                  "a path returns a grammar without having checked every right-hand side of two or more symbols for epsilon")
    # panics only for malformed productions
    for s in n.panics:
        log = e.events(s.log)
        for ev in every(e, log):
            if ev.a[0] == "new" and ev.a[2].a[0] == "map":
                n.group(log, mk("map", ev.a[1]))
        site = "%s:%s" % (s.info[2][0], s.info[2][1]) if s.info and s.info[2] else n.w
        try:
            ps = paths(e, log)
        except OverflowError:
            rep.unsure("panics only for malformed productions", site, "too many paths")
            continue
        for p in ps:
            rep.check(faulty(n, s, p), "panics only for malformed productions", site,
                      "a path reaches this panic without a malformed production: " + "; ".join(show(a) + "=" + str(v) for a, v in assumptions(p))[:600])
    # no other way to get one
    closed_type(prog, rep, r.gpath, {n.body.u})
    return rep


def placed(t):
    """a position computed from lengths and constants alone"""
    return t.tag in ("int", "len") or t.tag == "lin" and all(placed(x) for x in t.a if isinstance(x, T))


def faulty(n, s, path, depth=0):
    """does every run along this path meet a malformed production?"""
    if malformed(n, s, path):
        return True
    if depth > 3:
        return False
    e = n.e
    for k, ws in causes(e, path, state_of(e, n.start(), path)):
        if not ws:
            continue
        try:
            alts = [q for w in ws for q in paths(e, w)]
        except OverflowError:
            continue
        if all(faulty(n, s, list(path[:k]) + list(q), depth + 1) for q in alts):
            return True
    return False


def malformed(n, s, path):
    e, r = n.e, n.r
    st = e.init_state(n.body, n.args)
    st.log = s.log
    for at, v in assumptions(path):
        add_fact(e, st, at, v)
    for phi, ini in growing(e, path):
        if ini.tag == "int":
            add_fact(e, st, e.lt_atom(phi, ini), False)
    terms_ = set()
    for at, v in assumptions(path):
        for t in subterms(at):
            if t.tag == "f" and t.a[1] in (r.pin, r.pout):
                terms_.add(t)
            if t.tag == "idx" and t.a[0].tag == "enum" and n.cls(e.events(s.log), t.a[0]) == ("inputs",):
                if e.decide(st, e.eq_atom(n.eps, t)) is True:
                    return True
        if v is True and at.a[0] in ("haskey", "in") and at.a[2] is n.eps:
            if n.group(e.events(s.log), at.a[1]) or at.a[1].tag == "set" and n.is_inputs(e.events(s.log), at.a[1]):
                return True
    for t in terms_:
        if not n.production(t.a[0]):
            continue
        if t.a[1] == r.pin and e.decide(st, e.eq_atom(n.eps, t)) is True:
            return True
        if t.a[1] == r.pout:
            ln = mk("len", t)
            if e.le(st, ln, I(0)):
                return True
            if e.le(st, I(2), ln):
                if e.decide(st, mk("at", "in", t, n.eps)) is True:
                    return True
                for at, v in assumptions(path):
                    if at.a[0] == "eq" and v is True:
                        a, b = at.a[1], at.a[2]
                        for x, y in ((a, b), (b, a)):
                            if x is n.eps and y.tag == "idx" and y.a[0] is t:
                                return True
    return False


def closed_type(prog, rep, path, makers):
    """all fields private, values built only by the analysed constructors"""
    a = prog.adts[path]
    for v in a["vs"]:
        for f in v["fs"]:
            rep.check(not f["pub"], "field is private", "%s.%s" % (path, f["n"]), "the field can be set from outside, bypassing the constructor")
    for b in prog.local_bodies():
        if b.j["promoted"] != -1 or b.kind == "Closure":
            continue
        if not b.j.get("pub") and "impl_trait" not in b.j:
            continue
        if b.u in makers:
            continue
        ret = b.locals[0]
        if owns_adt(ret, path):
            tr = b.j.get("impl_trait", "").split("::")[-1]
            rep.check(tr == "Clone" and b.j.get("derived"), "constructors are the analysed ones", where(b), "another public function returns a %s" % path.split("::")[-1])
    for im in prog.repo["impls"]:
        pass


class Terminals:
    """the set of terminals: what goes in, what is taken out again, and what is left at the end"""

    def __init__(self, n, s, log, nts, ts):
        self.n, self.s, self.log, self.nts, self.ts = n, s, log, nts, ts
        self.e, self.r = n.e, n.r
        self.why = None
        self.done = {}

    def complete(self, S, k):
        """is the collection not changed any more from the top-level event k on?"""
        key = (S, k)
        if key not in self.done:
            self.done[key] = not self.e.P.touches(self.log[k:], S)
        return self.done[key]

    def is_nt(self, st, x, k):
        """is x a non-terminal, judged during the top-level event k? True/False/None"""
        e = self.e
        if self.n.is_input(x):
            return True
        for S in [mk("at", "in", self.nts, x)] + [mk("at", "haskey", M, x) for M, ok in self.n.grouped.items() if ok]:
            v = e.decide(st, S)
            if v is True or v is False and self.complete(S.a[1], k):
                return v
        return None

    def state(self, *words):
        e = self.e
        st = e.init_state(self.n.body, self.n.args)
        st.log = self.s.log
        for c in words:
            if isinstance(c, interp.State):
                st.facts.update(c.facts)
            elif c is not None:
                for at, v in assumptions(c):
                    add_fact(e, st, at, v)
        return st

    @staticmethod
    def base(S):
        return S.a[0] if S.tag in ("set", "vec") else S

    def fills(self, log, S):
        """[(top-level index, context, kind, element)] of a local set or list; None when something else happens to it"""
        e = self.e
        if not any(ev.a[0] == "new" and ev.a[1] is self.base(S) for ev in log):
            return None
        out = []

        def go(word, ctx, depth, top):
            for k, ev in enumerate(word):
                kk = k if top is None else top
                if ev.a[0] in ("ins", "setrm") and ev.a[1] is S:
                    out.append((kk, ctx + [word[:k]], ev.a[0], ev.a[2]))
                elif ev.a[0] == "push" and ev.a[1] is S:
                    out.append((kk, ctx + [word[:k]], "ins", ev.a[3]))
                elif ev.a[0] == "copyof" and ev.a[1] is self.base(S):
                    out.append((kk, ctx + [word[:k]], "copy", ev.a[2]))
                elif ev.a[0] in TOUCH and ev.a[0] not in ("new", "copyof") and any(x is S for x in ev.a[1:]):
                    out.append(None)
                elif ev.a[0] == "L" and depth < 6:
                    inst = e.insts.get(ev.a[1])
                    if inst is None or not e.P.inst_touches(inst, S):
                        continue
                    f = loops.flat(e, inst)
                    for i, w, j, s in f.edges:
                        go(w, ctx + [word[:k], loops.head_state(e, inst, i)], depth + 1, kk)
                    for i, w, kind, st, g in f.exits:
                        if kind == "exit":
                            go(w, ctx + [word[:k], loops.head_state(e, inst, i)], depth + 1, kk)

        go(list(log), [], 0, None)
        return None if any(o is None for o in out) else out

    def local(self, C):
        """the local collection an element or a visited collection stands for"""
        if C.tag == "enum":
            C = C.a[0]
        return C if C.tag in ("set", "vid") else None

    def symbol(self, x, depth=0):
        """is x a right-hand-side symbol?"""
        if x.tag != "idx":
            return False
        C = x.a[0]
        if C.tag == "f" and C.a[1] == self.r.pout and self.n.production(C.a[0]):
            return True
        S = self.local(C)
        return S is not None and depth < 4 and self.symbols(S, depth + 1)

    def symbols(self, S, depth=0):
        f = self.fills(self.log, S)
        return f is not None and all(kind == "setrm" or kind == "ins" and self.symbol(x, depth) or
                                     kind == "copy" and x.tag == "set" and depth < 4 and self.symbols(x, depth + 1) for k, ctx, kind, x in f)

    def only_nts_removed(self, S):
        """nothing but non-terminals is taken out of it"""
        f = self.fills(self.log, S)
        if f is None:
            return False
        return all(kind != "setrm" or self.is_nt(self.state(*ctx), x, k) is True for k, ctx, kind, x in f)

    # ------------------------------------------------------------ at most the terminals
    def above(self, rep):
        n, e, ts = self.n, self.e, self.ts
        rule = "terminals stand on a right-hand side and are not non-terminals"
        f = self.fills(self.log, ts)
        if f is None:
            rep.bad("the terminals are the other right-hand-side symbols", n.w, "the terminal set is not built by insertions and removals only")
            return
        bad = None
        for k, ctx, kind, x in f:
            if kind == "ins":
                src = self.symbol(x)
                rep.check(src, "terminals stand on a right-hand side", n.w, "%s is put into the terminals although it is no right-hand-side symbol" % show(x))
                if self.is_nt(self.state(*ctx), x, k) is not False:
                    bad = x
            elif kind == "copy":
                rep.check(x.tag == "set" and self.symbols(x), "terminals stand on a right-hand side", n.w, "the terminals start as a copy of %s" % show(x))
                bad = x
        rep.check(bad is None or self.run(list(self.log), False, None, [], True) is False, rule, n.w,
                  "%s is put into the terminals although it may be a non-terminal, and non-terminals are not all taken out again" % (show(bad) if bad is not None else ""))

    def run(self, word, dirty, top, ctx, main=False):
        """may the terminals hold a non-terminal after this word?"""
        e, ts = self.e, self.ts
        for k, ev in enumerate(word):
            kk = k if top is None else top
            if ev.a[0] == "ins" and ev.a[1] is ts:
                if self.is_nt(self.state(*(ctx + [word[:k]])), ev.a[2], kk) is not False:
                    dirty = True
            elif ev.a[0] == "copyof" and ev.a[1] is ts.a[0]:
                dirty = True
            elif ev.a[0] == "L":
                inst = e.insts.get(ev.a[1])
                if inst is None or not e.P.inst_touches(inst, ts):
                    continue
                gid = word[k + 1].a[2].a[0] if k + 1 < len(word) and word[k + 1].a[0] == "X" else None
                f = loops.flat(e, inst)
                subs = [(w, loops.head_state(e, inst, i)) for i, w, j, s in f.edges]
                subs += [(w, loops.head_state(e, inst, i)) for i, w, kind, st, g in f.exits if kind == "exit" and (gid is None or g == gid)]
                put = any(self.run(w, False, kk, ctx + [word[:k], h]) for w, h in subs)
                if not put and self.cleans(word, k, ev.a[1], gid, kk):
                    dirty = False
                elif put or dirty:
                    d = dirty or put
                    dirty = dirty or any(self.run(w, d, kk, ctx + [word[:k], h]) for w, h in subs)
        return dirty

    def cleans(self, word, k, it, gid, kk):
        """does this loop take every non-terminal out of the terminals?"""
        n, e, ts = self.n, self.e, self.ts
        for C, its, cov in iterations(e, it, gid):
            if not its:
                continue

            def gone(x, v):
                return any(ev.a[0] == "setrm" and ev.a[1] is ts and ev.a[2] is v for ev in x.word)
            c = n.cls(self.log[:kk], C)
            if c is not None and c[0] in ("inputs", "prods"):
                ok = True
                for x in its:
                    v = x.val
                    v = proj(v, None, self.r.pin) if c[0] == "prods" else v.a[0] if v.tag == "tup" else v.a[1] if v.tag == "mget" else v
                    ok = ok and gone(x, v)
                if ok:
                    return True
            S = self.local(C)
            if S is None or S.tag != "set" or not (S is ts or self.is_copy(word[:k], S)):
                continue
            ok = True
            for x in its:
                st = self.state(loops.head_state(e, x.inst, x.head), x.word)
                ok = ok and (gone(x, x.val) or self.is_nt(st, x.val, kk) is False)
            if ok:
                return True
        return False

    def is_copy(self, word, S):
        """was S copied from the terminals, neither changed since?"""
        at = None
        for j, ev in enumerate(word):
            if ev.a[0] == "copyof" and ev.a[1] is S.a[0] and ev.a[2] is self.ts:
                at = j
        return at is not None and not self.e.P.touches(word[at + 1:], self.ts) and not self.e.P.touches(word[at + 1:], S)

    # ------------------------------------------------------------ at least the terminals
    def holds(self, st, w, S, x):
        if any(ev.a[0] == "push" and ev.a[1] is S and (ev.a[3] is x or self.e.decide(st, self.e.eq_atom(ev.a[3], x)) is True) for ev in w):
            return True
        return S.tag == "set" and self.n.inserts(st, w, S, x)

    def has_all(self, log, S, depth=0):
        """every right-hand-side symbol is in S, or is a non-terminal, once the log is through"""
        n, e = self.n, self.e
        if depth > 3 or not self.only_nts_removed(S):
            return False
        for k, ev in enumerate(log):
            if ev.a[0] != "L":
                if ev.a[0] == "copyof" and ev.a[1] is self.base(S) and ev.a[2].tag == "set" and self.has_all(log[:k], ev.a[2], depth + 1):
                    return True
                continue
            one = [ev] + ([log[k + 1]] if k + 1 < len(log) and log[k + 1].a[0] == "X" else [])
            gid = one[1].a[2].a[0] if len(one) > 1 else None

            def put(st, w, x):
                return self.is_nt(st, x, k) is True or self.holds(st, w, S, x)

            if self.forall(log, k, lambda st, w, p: n.forall_out(log, st, w, p, put)):
                return True
            for C, its, cov in iterations(e, ev.a[1], gid):
                S2 = self.local(C)
                if S2 is None or S2 is S or not its:
                    continue
                if all(put(self.state(loops.head_state(e, x.inst, x.head), x.word), x.word, x.val) for x in its) and self.has_all(log[:k], S2, depth + 1):
                    return True
        return False

    def forall(self, log, k, pred):
        return self.n.forall(log, pred, at=k)


def c02(prog, rep, tier):
    r = roles(prog, rep)
    n = New(prog, rep, r)
    e = n.e
    for s in n.rets:
        log = e.events(s.log)
        for ev in every(e, log):
            if ev.a[0] == "new" and ev.a[2].a[0] == "map":
                n.group(log, mk("map", ev.a[1]))
        nts, ts = n.field(s, "nts"), n.field(s, "ts")
        rep.check(nts.tag == "set" and n.is_inputs(log, nts), "the non-terminals are exactly the left-hand sides", n.w,
                  "the set stored in field %s is not filled with exactly the left-hand sides" % r.nts)
        if ts.tag != "set" or nts.tag != "set":
            rep.bad("the terminals are the other right-hand-side symbols", n.w, "field %s does not hold a set built here" % r.ts)
            continue
        t = Terminals(n, s, log, nts, ts)
        t.above(rep)
        rep.check(t.has_all(log, ts), "every right-hand-side symbol that is not a non-terminal is a terminal", n.w,
                  "some right-hand-side symbol is not visited, or is left out of the terminals without being a non-terminal")
    accessors(prog, rep, r)
    closed_type(prog, rep, r.gpath, {n.body.u})


def accessors(prog, rep, r):
    """membership queries and list getters read the classified sets"""
    G = "ContextFreeGrammar"
    for name, role, kind in (("is_non_terminal", "nts", "in"), ("is_terminal", "ts", "in")):
        b = method(prog, G, name)
        e, args, outs = analyse(prog, b, rep)
        good = True
        S = mk("f", args[0], getattr(r, role))
        seen = set()
        for k, s in outs:
            if k != "ret":
                good = False
                continue
            v = s.ret
            at = mk("at", "in", S, args[1])
            if v.tag == "bool":
                d = e.decide(s, at)
                if d is None and role == "nts":
                    d = e.decide(s, mk("at", "haskey", mk("f", args[0], r.prods), args[1]))
                good = good and d is not None and d == v.a[0]
                seen.add(v.a[0])
            else:
                good = False
        rep.check(good and seen == {True, False}, "membership query answers from the classification", where(b), "the answer is not membership of the symbol in the set of field %s" % getattr(r, role))
    for name, role in (("get_non_terminal_symbols", "nts"), ("get_terminal_symbols", "ts")):
        b = method(prog, G, name)
        e, args, outs = analyse(prog, b, rep)
        C = mk("enum", mk("f", args[0], getattr(r, role)))
        C2 = mk("enum", mk("keys", mk("f", args[0], r.prods)))
        good = bool(outs)
        for k, s in outs:
            if k != "ret" or s.ret.tag != "vec":
                good = False
                continue
            log = e.events(s.log)
            n = New.__new__(New)
            n.e, n.r, n.prog = e, r, prog
            c = n.copy_of(log, s.ret.a[0])
            good = good and (c is C or c is C2 and role == "nts")
        rep.check(good, "list getter returns every member once", where(b), "the returned list is not a copy of the set of field %s" % getattr(r, role))


def c03(prog, rep, tier):
    r = roles(prog, rep)
    n = New(prog, rep, r)
    e = n.e
    for s in n.rets:
        log = e.events(s.log)
        M = n.field(s, "prods")
        n.why = None
        n.definite = False
        ok = M.tag == "map" and n.group(log, M)
        if not ok and n.definite:
            rep.bad("the production map groups all productions in declaration order", n.w, n.why)
            rep.violations[-1]["definite"] = True
        else:
            rep.check(ok, "the production map groups all productions in declaration order", n.w, n.why or "field %s is not built by grouping the productions" % r.prods)
        rep.check(n.field(s, "eps") is n.eps, "the epsilon symbol is stored as given", n.w, "field %s holds %s" % (r.eps, show(n.field(s, "eps"))))
        rep.check(n.field(s, "ini") is n.ini, "the initial symbol is stored as given", n.w, "field %s holds %s" % (r.ini, show(n.field(s, "ini"))))
    G = "ContextFreeGrammar"
    for name, role in (("get_epsilon_symbol", "eps"), ("get_initial_symbol", "ini")):
        b = method(prog, G, name)
        e2, args, outs = analyse(prog, b, rep)
        rep.check(len(outs) == 1 and outs[0][0] == "ret" and e2.P.val(outs[0][1], outs[0][1].ret) is mk("f", args[0], getattr(r, role)), "symbol getter returns the stored symbol", where(b),
                  "returns something else")
    fs = {getattr(r, x) for x in ("eps", "ini", "prods", "nts", "ts")}
    rep.check(len(fs) == 5, "fields have distinct roles", r.gpath, "two getters read the same field: %s" % fs)
    lookup(prog, rep, method(prog, G, "get_productions"), lambda a: mk("f", a[0], r.prods))
    closed_type(prog, rep, r.gpath, {n.body.u})


def lookup(prog, rep, b, mapf, rule="lookup returns exactly the stored entry"):
    """Some(&map[key]) when the key is present, None otherwise"""
    e, args, outs = analyse(prog, b, rep)
    M, key = mapf(args), args[1]
    seen = set()
    good = True
    for k, s in outs:
        if k != "ret":
            good = False
            continue
        v = s.ret
        d = e.decide(s, mk("at", "haskey", M, key))
        if v.tag == "adt" and v.a[1] == "Some":
            x = e.P.val(s, proj(v, "Some", "0"))
            good = good and d is True and x is mk("mget", M, key)
            seen.add("Some")
        elif v.tag == "adt" and v.a[1] == "None":
            good = good and d is False
            seen.add("None")
        else:
            good = False
    rep.check(good and seen == {"Some", "None"}, rule, where(b), "the answer is not the entry of %s for the argument" % show(M))
