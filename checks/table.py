"""C07: the transition table.  Every production put into a cell must be licensed by the lookahead rule
(soundness), every licensed production must be put there (completeness), once and in declaration order."""
from base import *
import loops
from quant import *
from prims import TOUCH
from sets import Sets, Fr, ckey

HARD = {"vrev", "pop", "clear", "setclr", "setrm", "vinsert"}
SOFT = {"vmut", "setmut", "store", "unkw", "take", "vset"}
ORDER = {"sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse", "swap", "rotate_left", "rotate_right", "truncate", "remove", "swap_remove", "drain", "split_off", "retain"}


class Table:
    def __init__(self, S, T, first, follow):
        self.S, self.e, self.T, self.first, self.follow = S, S.e, T, first, follow
        self.r, self.g, self.th = S.r, S.g, S.th
        self.fcache = {}

    # ------------------------------------------------------------ addresses
    def after(self, ctx, pick):
        """first later event (in this iteration or an enclosing one) that pick accepts"""
        for fi in range(len(ctx) - 1, -1, -1):
            f = ctx[fi]
            for k in range(f.k + 1 if fi == len(ctx) - 1 else f.k, len(f.word)):
                if pick(f.word[k]):
                    return ctx[:fi] + [Fr(f.inst, f.head, f.word, k)], f.word[k]
        return None

    def row(self, ctx, x):
        """the non-terminal whose row x is"""
        if x.tag == "mget" and x.a[0] is self.T:
            return x.a[1]
        if x.tag == "map" and x is not self.T:
            h = self.after(ctx, lambda ev: ev.a[0] == "mapins" and ev.a[1] is self.T and ev.a[3] is x)
            if h:
                return h[1].a[2]
        return None

    def cell(self, ctx, x):
        """(non-terminal, lookahead) of a cell"""
        if x.tag == "mget":
            A = self.row(ctx, x.a[0])
            return (A, x.a[1]) if A is not None else None
        v = x.a[0] if x.tag == "vec" else x
        if v.tag == "vid":
            h = self.after(ctx, lambda ev: ev.a[0] == "mapins" and ev.a[3].tag == "vec" and ev.a[3].a[0] is v or self.replaces(ev) and ev.a[2].a[0] is v)
            if h and h[1].a[0] == "store":
                return self.cell(h[0], h[1].a[1])
            if h:
                A = self.row(h[0], h[1].a[1])
                return (A, h[1].a[2]) if A is not None else None
        return None

    def replaces(self, ev):
        """is a cell (an entry of a map) overwritten by a vector made here?"""
        return ev.a[0] == "store" and ev.a[1].tag == "mget" and ev.a[2].tag == "vec" and ev.a[2].a[0].tag == "vid"

    def scan(self, want):
        out = []
        S = self.S
        S.scan_word(None, 0, S.log, [], want, lambda c, ev: False, {}, out)
        return out

    def st(self, ctx):
        return self.S.st(ctx, False)

    # ------------------------------------------------------------ the rule
    def prod(self, st, v):
        if self.th.prod_of(v):
            return v
        if v.tag == "adt" and v.a[0] == self.r.ppath:
            d = dict(v.a[2])
            o = d.get(self.r.pout)
            if o is not None and o.tag == "f" and self.th.prod_of(o.a[0]):
                p = o.a[0]
                i = d.get(self.r.pin)
                if i is mk("f", p, self.r.pin) or self.S.same(st, i, mk("f", p, self.r.pin)) or self.S.same(st, i, self.th.prod_of(p)[1]):
                    return p
        return None

    def selected(self, ctx, A, t, p, depth=0, noeps=False):
        """may p be listed under (A, t)?  (noeps: t is not epsilon)"""
        S, e = self.S, self.e
        st = self.st(ctx)
        noeps = noeps or S.is_eps(st, t) is False
        pa = self.th.prod_of(p)[1]
        if not (pa is A or S.same(st, pa, A)):
            return False
        out = mk("f", p, self.r.pout)
        ln = mk("len", out)

        def begins(Y, z):
            """can the production begin with z, an element of FIRST(Y) (or, Y None, a symbol)?"""
            for y in S.equals(st, Y if Y is not None else z):
                if not (y.tag == "idx" and y.a[0] is out):
                    continue
                if Y is None and not (S.nt(st, y) is False and (noeps or S.is_eps(st, y) is False)):
                    continue
                if Y is not None and not (noeps or S.vanishing(ctx, Y) is False):
                    continue
                if S.alln(ctx, out, I(0), y.a[1]):
                    return True
            return False

        def follows(Y):
            return S.same(st, Y, A) and S.alln(ctx, out, I(0), ln)

        for z in S.equals(st, t):
            Y = S.source(z, [self.first])
            if Y is not None and begins(Y, z) or begins(None, z):
                return True
            Y = S.source(z, [self.follow])
            if Y is not None and follows(Y):
                return True
        for at, v in st.facts.items():
            if at.a[0] == "in" and v is TRUE and at.a[1].tag == "mget" and (at.a[2] is t or S.same(st, at.a[2], t)):
                Y = at.a[1].a[1]
                if at.a[1].a[0] is self.first and begins(Y, t) or at.a[1].a[0] is self.follow and follows(Y):
                    return True
        Vs = S.local_sources(ctx, t)
        for at, v in st.facts.items():
            if at.a[0] == "in" and v is TRUE and at.a[1].tag == "set" and (at.a[2] is t or S.same(st, at.a[2], t)):
                Vs.append(at.a[1])
        for V in Vs:
            if V is None or depth >= 3:
                continue
            ne = noeps or V.tag == "set" and self.epsfree(ctx, V)
            if S.via(V, ctx, lambda c, y: self.selected(c, A, y, p, depth + 1, ne) or S.by_cases(c, lambda c2: self.selected(c2, A, y, p, depth + 1, ne))):
                return True
        return False

    def epsfree(self, ctx, V, depth=0):
        """is epsilon not in the local set V when control is at ctx?"""
        base = True  # (V is made somewhere in ctx; before, nothing is in it)
        for fi, f in enumerate(ctx):
            pre = ctx[:fi]
            if f.inst is not None:
                fl = loops.flat(self.e, f.inst)
                base = base and self.keeps_free(pre, f.inst, None, V, depth)[0]
            base = self.free_after(pre, f, f.word[: f.k], V, base, depth)
        return base

    def free_after(self, pre, f, word, V, base, depth):
        v = V.a[0]
        for k, ev in enumerate(word):
            c = pre + [Fr(f.inst, f.head, f.word, k)]
            if ev.a[0] == "L":
                inst = self.e.insts.get(ev.a[1])
                if inst is None:
                    return False
                if not self.e.P.inst_touches(inst, V):
                    continue
                ok, out = self.keeps_free(c, inst, self.S.gid(word, k), V, depth)
                base = out if ok and base else self.keeps_free(c, inst, self.S.gid(word, k), V, depth, False)[1]
            else:
                base = self.free_event(c, ev, V, base, depth)
        return base

    def free_event(self, c, ev, V, base, depth):
        S = self.S
        v = V.a[0]
        k = ev.a[0]
        if k == "asm" and ev.a[1].a[0] == "in" and ev.a[1].a[1] is V and S.is_eps(self.st(c), ev.a[1].a[2]) is True:
            return base or ev.a[2] is FALSE
        if k not in TOUCH:
            return base
        if k in ("new", "setclr") and ev.a[1] in (V, v):
            return True
        if k == "copyof" and ev.a[1] is v:
            src = ev.a[2]
            if src.tag == "set" and depth < 3:
                return self.epsfree(c, src, depth + 1)
            return src.tag == "mget" and (src.a[0] is self.follow or src.a[0] is self.first and S.vanishing(c, src.a[1]) is False)
        if ev.a[1] is V:
            if k == "ins":
                return base and S.is_eps(self.st(c), ev.a[2]) is False
            if k == "setrm":
                return base or S.is_eps(self.st(c), ev.a[2]) is True
            return False
        return base

    def keeps_free(self, c, inst, gid, V, depth, start=True):
        """(do all rounds of the loop keep V free of epsilon, is it free after leaving)"""
        key = (ckey(c), inst.t, gid, V, start)
        if key in self.fcache:
            return self.fcache[key]
        self.fcache[key] = (False, False)
        e = self.e
        fl = loops.flat(e, inst)
        def after(i, w, base):
            return self.free_after(c, Fr(inst, i, w, len(w)), w, V, base, depth + 1) if depth < 6 else False
        ok = start and all(after(i, w, True) for i, w, j, s in fl.edges)
        out = all(after(i, w, ok) for i, w, kind, s, g in fl.exits if kind == "exit" and (gid is None or g == gid))
        self.fcache[key] = (ok, out)
        return ok, out

    # ------------------------------------------------------------ completeness
    def role(self, ctx, C, A, p, t):
        S = self.S
        c = S.cls(C)
        if c == ("nts",) or C.tag == "enum" and C.a[0].tag == "keys" and C.a[0].a[0] is self.T:
            # (the table has a row for every non-terminal: checked apart)
            return "A" if A is None else None
        if c and c[0] == "of":
            return "p" if A is not None and p is None and S.same(self.st(ctx), c[1], A) else None
        if t is None and A is not None:
            D = C
            if D.tag == "vid":
                D = S.copy_of(D) or D
            if D.tag == "enum":
                x = D.a[0]
                if x is mk("f", self.g, self.r.ts):
                    return "t"
                if x.tag == "keys" and self.row(ctx, x.a[0]) is not None:
                    return "row"
        return None

    def covers(self, ctx, A=None, p=None, t=None, depth=0):
        S = self.S
        if A is not None and p is not None and t is None and self.parts(ctx, A, p):
            return True
        if A is not None and p is not None and t is not None:
            return self.handled(ctx, A, p, t)
        f = ctx[-1]
        for k, it, gid in loops_in(f.word):
            for C, its, cov in iterations(self.e, it, gid):
                ro = self.role(ctx[:-1] + [Fr(f.inst, f.head, f.word, k)], C, A, p, t)
                if ro is None:
                    continue
                ok = bool(its)
                for x in its:
                    c2 = ctx[:-1] + [Fr(f.inst, f.head, f.word, k), Fr(x.inst, x.head, x.word, len(x.word))]
                    v = x.val
                    if ro == "A":
                        v = v.a[0] if v.tag == "tup" else v.a[1] if v.tag == "mget" else v
                        r = self.covers(c2, v, None, None, depth + 1)
                    elif ro == "p":
                        r = self.covers(c2, A, v, t, depth + 1)
                    else:
                        v = v.a[0] if v.tag == "tup" else v.a[1] if v.tag == "mget" else v
                        r = self.covers(c2, A, p, v, depth + 1)
                    if not r:
                        ok = False
                        break
                if ok:
                    return True
        return False

    def listed(self, ctx, frm, A, t, p):
        """is p pushed to the cell (A, t) in the word of ctx[-1]?"""
        f = ctx[-1]
        for k, ev in enumerate(f.word):
            if k < frm or ev.a[0] != "push":
                continue
            c = ctx[:-1] + [Fr(f.inst, f.head, f.word, k)]
            a = self.cell(c, ev.a[1])
            if a is None:
                continue
            st = self.st(ctx)
            if self.S.same(st, a[0], A) and self.S.same(st, a[1], t):
                q = self.prod(st, ev.a[3])
                if q is not None and (q is p or self.S.same(st, q, p)):
                    return True
        return False

    def handled(self, ctx, A, p, t):
        """p is listed under (A, t), or t does not select it"""
        S, e = self.S, self.e
        st = self.st(ctx)
        if self.listed(ctx, 0, A, t, p) or S.is_eps(st, t) is True:
            return True
        for at, w in st.facts.items():
            if at.a[0] == "in" and w is FALSE and at.a[1].tag == "set" and S.same(st, at.a[2], t) and any(self.filled(ctx[:fi], (at.a[1],), A, p) for fi in range(len(ctx), 0, -1)):
                return True

        def absent(c, m, Y):
            s = self.st(c)
            v = e.decide(s, mk("at", "in", mk("mget", m, Y), t))
            if v is not None:
                return v is False
            return any(at.a[0] == "in" and at.a[1].tag == "mget" and at.a[1].a[0] is m and S.same(s, at.a[1].a[1], Y) and S.same(s, at.a[2], t) and w is FALSE for at, w in s.facts.items())

        def eff(c, Y, pos):
            s = self.st(c)
            if S.is_eps(s, Y) is True or absent(c, self.first, Y) or self.listed(c, 0, A, t, p):
                return True
            return "stop" if S.nt(s, Y) is False and (S.same(s, Y, t) is False and e.decide(s, e.eq_atom(Y, t)) is False) else False

        out = mk("f", p, self.r.pout)
        return S.walk(ctx, out, I(0), mk("len", out), eff, lambda c, frm: absent(c, self.follow, A) or self.listed(c, 0, A, t, p), final=False)

    def filled(self, ctx, dsts, A, p):
        """does the local collection dsts[0] hold, at ctx, every lookahead that selects p (or one of the others does)?"""
        S = self.S
        out = mk("f", p, self.r.pout)

        def eff(c, Y, pos):
            st = self.st(c)
            if self.got(c, 0, mk("mget", self.first, Y), dsts):
                return True
            if S.nt(st, Y) is False and S.inserted(c, 0, dsts, Y, False):
                return "stop"
            return S.is_eps(st, Y) is True

        if any(self.shrunk(ctx, D) for D in dsts):
            return False
        return S.walk(ctx, out, I(0), mk("len", out), eff, lambda c, frm: self.got(c, frm, mk("mget", self.follow, A), dsts), final=False)

    def got(self, ctx, frm, src, dsts):
        """everything in src but epsilon gets into dsts[0] (or is in one of the others)"""
        S = self.S
        if S.copies(ctx, frm, src, dsts, False):
            return True
        v = dsts[0] if dsts[0].tag == "vid" else dsts[0].a[0]
        f = ctx[-1]
        return any(ev.a[0] == "copyof" and ev.a[1] is v and k >= frm and S.same(self.st(ctx), ev.a[2], src) for k, ev in enumerate(f.word[: f.k]))

    def shrunk(self, ctx, D):
        """may something but epsilon have left the local collection after it began to be filled?"""
        v = D if D.tag == "vid" else D.a[0]
        for fi, f in enumerate(ctx):
            begun = False
            for k, ev in enumerate(f.word[: f.k]):
                if ev.a[0] == "new" and ev.a[1] is v:
                    begun = False
                for x in every(self.e, [ev]):
                    if x.a[0] not in TOUCH or x.a[0] == "new" or not any(y is D or y is v for y in x.a[1:]):
                        continue
                    if x.a[0] == "copyof" and x.a[1] is not v:
                        continue
                    if x.a[0] in ("ins", "push", "copyof"):
                        begun = True
                    elif x.a[0] == "setrm" and self.S.is_eps(self.st(ctx[: fi + 1]), x.a[2]) is True:
                        continue
                    elif x.a[0] in ("setclr", "clear") and not begun and x is ev:
                        continue
                    else:
                        return True
        return False

    def lists_with(self, D, A, p):
        """is every element put into the local set D listed at the same time?"""
        found = False
        for c, ev in self.scan(lambda ev: ev.a[0] in TOUCH and (ev.a[1] is D or ev.a[1] is D.a[0])):
            if ev.a[0] == "new":
                continue
            if ev.a[0] != "ins":
                return False
            f = c[-1]
            if not self.listed(c[:-1] + [Fr(f.inst, f.head, f.word, len(f.word))], 0, A, ev.a[2], p) and ev.a[3] is not FALSE:
                return False
            found = True
        return found

    def parts(self, ctx, A, p):
        """p is listed under everything in a local collection that holds all its lookaheads, or directly"""
        S, e = self.S, self.e
        f = ctx[-1]
        st = self.st(ctx)
        for k, it, gid in loops_in(f.word):
            for C, its, cov in iterations(e, it, gid):
                V = C.a[0] if C.tag == "enum" else C
                if V.tag not in ("set", "vid") or not its:
                    continue
                for x in its:
                    c2 = ctx[:-1] + [Fr(f.inst, f.head, f.word, k), Fr(x.inst, x.head, x.word, len(x.word))]
                    if not self.listed(c2, 0, A, x.val, p) and S.is_eps(self.st(c2), x.val) is not True:
                        break
                else:
                    for c1, dsts in S.targets(ctx[:-1] + [Fr(f.inst, f.head, f.word[:k], k)], V):
                        if self.filled(c1, dsts, A, p):
                            return True
                        if V.tag == "vid" and len(dsts) == 1:
                            D = self.vec_of(f.word[:k], V)
                            if D is not None and self.filled(c1, (D,), A, p):
                                return True
        # without an intermediate collection (what was listed already may be remembered in a set)
        out = mk("f", p, self.r.pout)
        seen = {at.a[1] for x in self.words() for at in x if at.a[0] == "in" and at.a[1].tag == "set"}
        seen = [D for D in sorted(seen, key=lambda d: d.n) if self.lists_with(D, A, p)]

        def all_of(c, src, frm=0):
            return self.pushes_all(c, src, A, p, seen, frm)

        def eff(c, Y, pos):
            s = self.st(c)
            if all_of(c, mk("mget", self.first, Y)):
                return True
            if S.nt(s, Y) is False and self.listed(c, 0, A, Y, p):
                return "stop"
            return S.is_eps(s, Y) is True

        return S.walk(ctx, out, I(0), mk("len", out), eff, lambda c, frm: all_of(c, mk("mget", self.follow, A), frm), final=False)

    def vec_of(self, word, v):
        for ev in word:
            if ev.a[0] == "copyof" and ev.a[1] is v and ev.a[2].tag == "set":
                return ev.a[2]
        D = self.S.copy_of(v)
        if D is not None and D.tag == "enum" and D.a[0].tag == "set":
            return D.a[0]
        return None

    def words(self):
        """the facts assumed in each word"""
        if not hasattr(self, "words_"):
            ws = [self.S.log]
            for inst in list(self.e.insts.values()):
                fl = loops.flat(self.e, inst)
                ws += [w for i, w, j, s in fl.edges] + [x[1] for x in fl.exits]
            self.words_ = [[ev.a[1] for ev in w if ev.a[0] == "asm"] + [mk("at", "in", ev.a[1], ev.a[2]) for ev in w if ev.a[0] == "ins"] for w in ws]
        return self.words_

    def pushes_all(self, ctx, src, A, p, seen, frm=0):
        """a completed loop lists p under every element of src (other than epsilon, and what was listed before)"""
        S, e = self.S, self.e
        f = ctx[-1]
        st = self.st(ctx)
        for k, it, gid in loops_in(f.word):
            if k < frm:
                continue
            for C, its, cov in iterations(e, it, gid):
                if C.tag != "enum" or C.a[0].tag != "mget" or not S.same(st, C.a[0], src):
                    continue
                ok = bool(its)
                for x in its:
                    c2 = ctx[:-1] + [Fr(f.inst, f.head, f.word, k), Fr(x.inst, x.head, x.word, len(x.word))]
                    if self.listed(c2, 0, A, x.val, p):
                        continue
                    s2 = self.st(c2)
                    if S.is_eps(s2, x.val) is True:
                        continue
                    if any(e.decide(s2, mk("at", "in", D, x.val)) is True for D in seen):
                        continue
                    ok = False
                    break
                if ok:
                    return True
        return False

    # ------------------------------------------------------------ once each, in order
    def binds(self, f, A, t, p):
        """what the loop of this frame enumerates injectively: subset of A, t, p; None for a loop that may repeat"""
        S = self.S
        if f.inst is None:
            return set()
        fl = loops.flat(self.e, f.inst)
        out = set()
        mine = [(j, s) for i, w, j, s in fl.edges if i == f.head and tuple(w) == f.word]
        for ev in f.word[: f.k + 1]:
            if ev.a[0] != "visit":
                continue
            C, pos, v = ev.a[1:4]
            b, k = split(pos)
            keys = [v]
            if v.tag == "tup":
                keys += list(v.a)
            elif v.tag == "mget":
                keys.append(v.a[1])
            what = None
            if any(x is A for x in keys):
                what = "A"
            elif p is not None and any(x is p for x in keys):
                what = "p"
            elif t is not None and any(x is t for x in keys):
                what = "t"
            if what is None:
                continue
            if mine:
                if b in fl.inits:
                    d = [split(s.get(b, b))[1] if split(s.get(b, b))[0] is b else None for i, w, j, s in fl.edges]
                    m = [split(s.get(b, b))[1] if split(s.get(b, b))[0] is b else None for j, s in mine]
                    if None in d or 0 in m:
                        continue
                    up, down = all(x >= 0 for x in d), all(x <= 0 for x in d)
                    if not up and (what == "p" or not down):
                        out.add("!" + what)
                        continue
                elif not self.leads_out(fl, f.head, b):
                    continue
            D = C
            if D.tag == "vid":
                D = S.copy_of(D) or D
            if what == "p" or D.tag == "enum":
                out.add(what)
        if not mine and not out:
            return set()  # the last iteration
        return out or None

    def leads_out(self, fl, head, b):
        return False

    def repeats(self, ctx, A, t, p, frm=0):
        """complaints about the loops around an event"""
        why = []
        once = self.guard(ctx, t, p)
        for k, f in enumerate(ctx[frm:]):
            if f.inst is None or any(frm + k > at[0] for at in once.values()):
                continue
            b = self.binds(f, A, t, p)
            if b is None:
                why.append("inside a loop that may come back to the same entry")
            elif "!p" in b:
                why.append("the productions are not taken in declaration order")
        return why

    def guard(self, ctx, t, p):
        """local sets to which t is added, not being there yet, whenever the production is listed: set -> where it
        is made (frame, index)"""
        out = {}
        if t is None or p is None:
            return out
        f = ctx[-1]
        for ev in f.word[: f.k]:
            if ev.a[0] == "ins" and ev.a[1].tag == "set" and ev.a[2] is t and ev.a[3] is TRUE and self.onlygrows(ev.a[1]):
                V = ev.a[1]
                for fi in range(len(ctx) - 1, -1, -1):
                    at = [k for k in range(ctx[fi].k) if ctx[fi].word[k].a[0] == "new" and ctx[fi].word[k].a[1] is V.a[0]]
                    if at:
                        out[V] = (fi, at[-1])
                        break
        return out

    def onlygrows(self, V):
        return all(ev.a[0] == "ins" or ev.a[0] == "new" for c, ev in self.scan(lambda ev: ev.a[0] in TOUCH and any(x is V or x is V.a[0] for x in ev.a[1:])))

    def disjoint(self, c1, A1, t1, c2, A2, t2, common):
        """can the two events not concern the same cell?"""
        S, e = self.S, self.e
        g1, g2 = self.guard(c1, t1, True), self.guard(c2, t2, True)
        if len(c1) - 1 > common and len(c2) - 1 > common and any(V in g2 and g1[V] == g2[V] and g1[V][0] <= common for V in g1):
            return True  # each has been added to the same set, not being there yet
        s1, s2 = self.st(c1), self.st(c2)
        def born(x):
            return any(f.inst is not None and e.born(x, f.inst.L) for f in c1[common + 1:] + c2[common + 1:])
        for a, sa, b, sb in ((t1, s1, t2, s2), (t2, s2, t1, s1)):
            for at, v in sb.facts.items():
                if at.a[0] == "in" and v is FALSE and (at.a[2] is b) and not born(at.a[1]):
                    if e.decide(sa, mk("at", "in", at.a[1], a)) is True:
                        return True
                    if a.tag == "idx" and a.a[0].tag == "enum" and S.same(sb, a.a[0].a[0], at.a[1]):
                        return True
                if at.a[0] == "eq" and v is FALSE and (at.a[1] is b or at.a[2] is b):
                    o = at.a[2] if at.a[1] is b else at.a[1]
                    if not born(o) and (a is o or S.same(sa, a, o)):
                        return True
        return False

    def common(self, c1, c2):
        n = 0
        while n < len(c1) and n < len(c2) and c1[n].key() == c2[n].key():
            n += 1
        return n


def find_theory(e, r, args):
    return theory.Theory(e, r, [args[0]], analyses={args[1]: args[0]})


def c07(prog, rep, tier):
    r = roles(prog, rep)
    b = method(prog, "RecursiveDescentParserTransitions", "from")
    box = {}

    def th(e, args):
        box["th"] = find_theory(e, r, args)

    e, args, outs = analyse(prog, b, rep, th, 1200000)
    w = where(b)
    rep.check(any(k == "ret" for k, s in outs), "the construction returns", w)
    for k, s in outs:
        if k == "ret":
            one(prog, rep, r, b, e, args, box["th"], s, w)
    lookup2(prog, rep, r)


def one(prog, rep, r, b, e, args, th, s, w):
    g, ff = args[0], args[1]
    S = Sets(e, r, g, th, s, e.events(s.log))
    first, follow = mk("f", ff, r.first), mk("f", ff, r.follow)
    S.firstmaps = [first]
    T = proj(s.ret, None, r.table)
    if T.tag != "map":
        rep.unsure("the table is a map of rows", w, "field %s holds %s" % (r.table, show(T)))
        return
    X = Table(S, T, first, follow)
    S.freeof = X.epsfree
    odd_sets = X.scan(lambda ev: ev.a[0] == "visit" and ev.a[1].tag == "enum" and ev.a[1].a[0].tag == "phi")
    alarm = rep.unsure if odd_sets else rep.bad  # sets replaced by other sets on the way are not followed
    pushes = []
    for c, ev in X.scan(lambda ev: ev.a[0] == "push"):
        a = X.cell(c, ev.a[1])
        if a is not None:
            pushes.append((c, ev, a[0], a[1]))
    rule = "a production is listed only under lookaheads that select it"
    bad = []
    seen = []
    for c, ev, A, t in pushes:
        st = X.st(c)
        p = X.prod(st, ev.a[3])
        if p is None or not (X.selected(c, A, t, p) or S.by_cases(c, lambda c2: X.selected(c2, A, t, p))):
            bad.append((c, ev, A, t))
        seen.append((c, ev, A, t, p))
    for c, ev, A, t in bad[:3]:
        alarm(rule, w, "%s is listed under (%s, %s)" % (show(ev.a[3]), show(A), show(t)))
    if not bad:
        rep.ok(rule, w)
    if S.sampled:
        rep.unsure(rule, w, "too many cases")
    rep.use_count = len(pushes)
    # the row alone
    rule = "a production is listed only in the row of its left-hand side"
    wrong = []
    for c, ev, A, t, p in seen:
        def own(c2, p=p, A=A):
            pa = X.th.prod_of(p)[1]
            return pa is A or S.same(X.st(c2), pa, A)
        if p is None or not (own(c) or S.by_cases(c, own)):
            wrong.append((ev, A, t))
    for ev, A, t in wrong[:3]:
        alarm(rule, w, "%s is listed under (%s, %s)" % (show(ev.a[3]), show(A), show(t)))
    if not wrong:
        rep.ok(rule, w)
    # other changes
    rule = "nothing leaves the table"
    odd = []
    soft = []
    for c, ev in X.scan(lambda ev: ev.a[0] in HARD or ev.a[0] in SOFT or ev.a[0] == "copyof"):
        x = ev.a[1]
        hit = x is T or x is T.a[0] or X.row(c, x) is not None or X.cell(c, x) is not None
        if not hit or X.replaces(ev) and X.cell(c, x) is not None:
            continue
        if ev.a[0] in HARD or ev.a[0] == "vmut" and len(ev.a) > 2 and ev.a[2].tag == "k" and ev.a[2].a[0] in ORDER:
            odd.append(ev)
        else:
            soft.append(ev)
    for ev in odd[:2]:
        rep.bad(rule, w, show(ev))
    for ev in soft[:2]:
        rep.unsure(rule, w, show(ev))
    if not odd and not soft:
        rep.ok(rule, w)
    # entries
    rule = "cells start empty and are not replaced"
    bad = []
    for c, ev in X.scan(lambda ev: ev.a[0] == "mapins" or X.replaces(ev)):
        if ev.a[0] == "store":
            at = X.cell(c, ev.a[1])
            if at is None:
                continue
            (A, t), V = at, ev.a[2]
            bad += filled_before(X, c, A, t, V, seen)
            continue
        if ev.a[1] is T:
            if ev.a[3].tag != "map":
                bad.append("a row starts as %s" % show(ev.a[3]))
                continue
            if e.decide(X.st(c), mk("at", "haskey", T, ev.a[2])) is False:
                continue
            bad += ["a row is replaced: " + x for x in X.repeats(c, ev.a[2], None, None)]
            continue
        A = X.row(c, ev.a[1])
        if A is None:
            continue
        t = ev.a[2]
        V = ev.a[3]
        if V.tag != "vec":
            bad.append("a cell starts as %s" % show(V))
            continue
        st = X.st(c[:-1] + [Fr(c[-1].inst, c[-1].head, c[-1].word, c[-1].k)])
        if e.decide(st, mk("at", "haskey", ev.a[1], t)) is False:
            continue
        bad += filled_before(X, c, A, t, V, seen)
    for x in sorted(set(bad))[:3]:
        alarm(rule, w, x)
    if not bad:
        rep.ok(rule, w)
    rule = "each production is listed once, in declaration order"
    bad = []
    for c, ev, A, t, p in seen:
        if p is not None:
            bad += X.repeats(c, A, t, p)
    for i, (c1, e1, A1, t1, p1) in enumerate(seen):
        for c2, e2, A2, t2, p2 in seen[i + 1:]:
            n = X.common(c1, c2)
            if n >= len(c1) or n >= len(c2):
                continue
            f1, f2 = c1[n], c2[n]
            if f1.inst is f2.inst and f1.head == f2.head and f1.word == f2.word and f1.k != f2.k:
                if not X.disjoint(c1, A1, t1, c2, A2, t2, n):
                    bad.append("two passes may list a production under the same lookahead, or out of order")
    for x in sorted(set(bad))[:3]:
        alarm(rule, w, x)
    if not bad:
        rep.ok(rule, w)
    rule = "every production is listed under every lookahead that selects it"
    ok = X.covers([Fr(None, 0, S.log, len(S.log))])
    (rep.ok(rule, w) if ok else alarm(rule, w, "no pass over all productions lists each one under FIRST (without epsilon) of its symbols up to the first that cannot vanish and, when all can vanish, FOLLOW of the left-hand side"))


def filled_before(X, c, A, t, V, seen):
    """complaints about putting the vector V in place of the cell (A, t)"""
    bad = ["a cell is replaced: " + x for x in X.repeats(c, A, t, None)]
    for c1, e1, A1, t1, p1 in seen:
        n = X.common(c1, c)
        if n < len(c1) and n < len(c) and c1[n].inst is c[n].inst and c1[n].head == c[n].head and c1[n].word == c[n].word and c1[n].k < c[n].k:
            if e1.a[1] is not V.a[0] and not X.disjoint(c1, A1, t1, c, A, t, n):
                bad.append("a cell is replaced after productions were listed in it")
    return bad


def lookup2(prog, rep, r):
    b = method(prog, "RecursiveDescentParserTransitions", "get_productions")
    e, args, outs = analyse(prog, b, rep)
    M = mk("f", args[0], r.table)
    R = mk("mget", M, args[1])
    good, seen = True, set()
    for k, s in outs:
        if k != "ret":
            good = False
            continue
        v = s.ret
        d1 = e.decide(s, mk("at", "haskey", M, args[1]))
        d2 = e.decide(s, mk("at", "haskey", R, args[2]))
        if v.tag == "adt" and v.a[1] == "Some":
            x = e.P.val(s, proj(v, "Some", "0"))
            good = good and d1 is True and d2 is True and x is mk("mget", R, args[2])
            seen.add("Some")
        elif v.tag == "adt" and v.a[1] == "None":
            good = good and (d1 is False or d2 is False or e.le(s, mk("len", mk("mget", R, args[2])), I(0)))
            seen.add("None")
        else:
            good = False
    rep.check(good and seen == {"Some", "None"}, "a lookup returns exactly the cell", where(b), "the answer is not the entry of the row of the first argument for the second")
