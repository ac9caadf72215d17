"""C04, C05: FIRST and FOLLOW.  Every insertion into a FIRST/FOLLOW set must be licensed by the textbook
rules (soundness); one round of the fixpoint loop must apply every rule to every production and position
(completeness; that the loop only stops after a round without changes is C06)."""
from base import *
import loops
from quant import *
from prims import TOUCH

FIRSTRULE = "x begins the production: everything before it can vanish"


class Fr:
    """a point in a word: `word` is run from head `head` of `inst` (None: the function itself)"""
    __slots__ = ("inst", "head", "word", "k")

    def __init__(self, inst, head, word, k):
        self.inst, self.head, self.word, self.k = inst, head, tuple(word), k

    def key(self):
        return (self.inst.t if self.inst else None, self.head, self.word, self.k)


def ckey(ctx):
    return tuple(f.key() for f in ctx)


class Sets:
    def __init__(self, e, r, g, th, st, log):
        self.e, self.r, self.g, self.th = e, r, g, th
        self.ret, self.log = st, tuple(log)
        self.eps = mk("f", g, r.eps)
        self.firstmaps = []
        self.freeof = None
        self.cache = {}
        self.acache = {}
        self.icache = {}
        self.wcache = {}
        self.vcache = {}
        self.unclear = []
        self.base = None
        self.sampled = False
        self.carried = False

    # ------------------------------------------------------------ facts
    def st(self, ctx, final):
        k = (ckey(ctx), final)
        s = self.cache.get(k)
        if s is not None:
            return s
        e = self.e
        base = None
        for f in reversed(ctx):
            if f.inst is not None:
                base = loops.head_state(e, f.inst, f.head)
                break
        s = (base or self.ret).clone()
        if base is None:
            s.facts, s.ints = {}, {}
        for f in ctx:
            for ev in f.word[: f.k]:
                a = ev.a
                if a[0] == "asm":
                    at, v = a[1], a[2]
                    if at.a[0] == "var":
                        s.facts[at] = v
                    else:
                        add_fact(e, s, at, v.a[0] if isinstance(v, T) else v)
                elif a[0] == "ins":
                    if not final:
                        for at in list(s.facts):
                            if at.a[0] == "in" and s.facts[at] is FALSE and at.a[1].tag in ("mget", "set"):
                                del s.facts[at]
                    s.facts[e.canon(s, mk("at", "in", a[1], a[2]))] = TRUE
        self.cache[k] = s
        return s

    def same(self, st, a, b):
        if a is b:
            return True
        if a.tag == "mget" and b.tag == "mget" and a.a[0] is not b.a[0]:
            return False
        m = self.e.eqmap(st)
        if not m:
            return False
        for _ in range(3):
            a, b = subst(a, m), subst(b, m)
        return a is b

    def nt(self, st, x):
        for at in (mk("at", "in", mk("f", self.g, self.r.nts), x), mk("at", "haskey", mk("f", self.g, self.r.prods), x)):
            v = self.e.decide(st, at)
            if v is not None:
                return v
        v = self.e.decide(st, mk("at", "in", mk("f", self.g, self.r.ts), x))
        if v is True:
            return False
        if v is False and self.th.outsym(x):
            return True
        return None

    def is_eps(self, st, x):
        if x is self.eps:
            return True
        return self.e.decide(st, self.e.eq_atom(self.eps, x))

    def nullable(self, st, y):
        for m in self.firstmaps:
            v = self.e.decide(st, mk("at", "in", mk("mget", m, y), self.eps))
            if v is not None:
                return v
        if self.is_eps(st, y) is True:
            return True
        if self.nt(st, y) is False:
            v = self.is_eps(st, y)
            if v is not None:
                return v
        return None

    def vanishing(self, ctx, y, final=False):
        """nullable, also when it has been found out by a loop over FIRST of the symbol"""
        st = self.st(ctx, final)
        v = self.nullable(st, y)
        if v is not None or not self.firstmaps or not ctx or not any(ev.a[0] == "L" for ev in ctx[-1].word[: ctx[-1].k]):
            return v
        k = (ckey(ctx), y, final)
        if k not in self.vcache:
            self.vcache[k] = None
            v = self.by_loop(ctx, st, y, final)
            self.vcache[k] = self.by_set(ctx, st, y, final) if v is None and self.freeof else v
        return self.vcache[k]

    def by_set(self, ctx, st, y, final):
        """FIRST of the symbol has been put into a local set, and whether epsilon was in it found out there"""
        f = ctx[-1]
        w = f.word[: f.k]
        for j, ev in enumerate(w):
            if ev.a[0] != "asm" or ev.a[1].a[0] != "in" or ev.a[1].a[1].tag != "set" or self.is_eps(st, ev.a[1].a[2]) is not True:
                continue
            V = ev.a[1].a[1]
            srcs = [mk("mget", m, y) for m in self.firstmaps]
            at = [k for k in range(j) if self.e.P.touches([w[k]], V)]
            if not at:
                continue
            k = at[-1]
            # the last thing that happened to the set
            if ev.a[2] is TRUE:
                if w[k].a[0] == "L" and self.only_from(ctx, k, V, srcs) and self.freeof(ctx[:-1] + [Fr(f.inst, f.head, f.word, k)], V):
                    return True
                if w[k].a[0] == "copyof" and any(self.same(st, w[k].a[2], s) for s in srcs):
                    return True
            elif w[k].a[0] == "L" and any(self.all_into(ctx, k, V, s) for s in srcs):
                return False
            elif w[k].a[0] == "copyof" and any(self.same(st, w[k].a[2], s) for s in srcs):
                return False
        return None

    def only_from(self, ctx, k, V, srcs):
        """the loop at k puts nothing but elements of one of srcs into V"""
        f = ctx[-1]
        hits = []
        self.scan_word(f.inst, f.head, f.word[: k + 1], ctx[:-1], lambda ev: ev.a[0] in TOUCH and ev.a[0] != "new" and any(x is V or x is V.a[0] for x in ev.a[1:]), lambda c, ev: False, {}, hits)
        for c, ev in hits:
            if c[len(ctx) - 1].k != k:
                continue
            if ev.a[0] != "ins" or not (ev.a[2].tag == "idx" and ev.a[2].a[0].tag == "enum" and any(self.same(self.st(c, False), ev.a[2].a[0].a[0], s) for s in srcs)):
                return False
        return True

    def all_into(self, ctx, k, V, src):
        """the loop at k puts every element of src, epsilon too, into V"""
        f = ctx[-1]
        for j, it, gid in loops_in(f.word):
            if j != k:
                continue
            for C, its, cov in iterations(self.e, it, gid):
                if C.tag == "enum" and self.same(self.st(ctx, False), C.a[0], src) and its and all(any(ev.a[0] == "ins" and ev.a[1] is V and ev.a[2] is x.val for ev in x.word) for x in its):
                    return True
        return False

    def by_loop(self, ctx, st, y, final):
        e = self.e
        f = ctx[-1]
        w = f.word[: f.k]
        for j, words in causes(e, w, st):
            inst = e.insts.get(w[j].a[1])
            oc = ctx[:-1] + [Fr(f.inst, f.head, f.word, j)]
            def eps_seen(i, x):
                s2 = self.st(oc + [Fr(inst, i, x, len(x))], final)
                for ev in x:
                    if ev.a[0] == "visit" and ev.a[1].tag == "enum" and ev.a[1].a[0].tag == "mget" and ev.a[1].a[0].a[0] in self.firstmaps and self.same(s2, ev.a[1].a[0].a[1], y):
                        if self.is_eps(s2, ev.a[3]) is True:
                            return True
                return False
            heads = {id(x): i for i, x, jj, s in loops.flat(e, inst).edges}
            heads.update({id(x): i for i, x, jj, s in inst.edges})
            if words and all(eps_seen(heads.get(id(x), 0), x) for x in words):
                return True
        for j, it, gid in loops_in(w):
            for C, its, cov in iterations(e, it, gid):
                if C.tag == "enum" and C.a[0].tag == "mget" and C.a[0].a[0] in self.firstmaps and self.same(st, C.a[0].a[1], y):
                    its = unmoved(e, e.insts.get(it), its, st, gid)
                    oc = ctx[:-1] + [Fr(f.inst, f.head, f.word, j)]
                    if its and all(self.is_eps(self.st(oc + [Fr(x.inst, x.head, x.word, len(x.word))], final), x.val) is False for x in its):
                        return False
        return None

    def pruned(self, w, final):
        """the last round of a fixpoint computation changes nothing"""
        return final and any(ev.a[0] == "ins" and ev.a[3] is TRUE and ev.a[1].tag == "mget" for ev in w)

    # ------------------------------------------------------------ ranges of vanishing symbols
    def alln(self, ctx, out, lo, hi, final=False, depth=0):
        """do all symbols out[lo..hi) vanish, whenever control is at ctx?"""
        e = self.e
        st = self.st(ctx, final)
        if e.le(st, hi, lo):
            return True
        if depth > 7:
            return False
        k = (ckey(ctx), out, lo, hi, final)
        if k in self.acache:
            return self.acache[k]
        self.acache[k] = False
        r = self.acache[k] = self.alln_(ctx, out, lo, hi, final, depth, st)
        return r

    def alln_(self, ctx, out, lo, hi, final, depth, st):
        e = self.e
        b, k = split(hi)
        if b.tag == "idx" and b.a[0].tag == "chain" and b.a[0].a[0] is out and k == 0 and e.le(st, b.a[0].a[1], lo):
            return True
        if self.vanishing(ctx, mk("idx", out, add(hi, -1)), final) is True and self.alln(ctx, out, lo, add(hi, -1), final, depth + 1):
            return True
        if self.vanishing(ctx, mk("idx", out, lo), final) is True and self.alln(ctx, out, add(lo, 1), hi, final, depth + 1):
            return True
        for fi in range(len(ctx) - 1, -1, -1):
            f = ctx[fi]
            if f.inst is None:
                continue
            inits = loops.flat(e, f.inst).inits
            if b in inits and self.induct(ctx, fi, b, k, lo, out, final, depth, 1):
                return True
            lb, lk = split(lo)
            if lb in inits and self.induct(ctx, fi, lb, lk, hi, out, final, depth, -1):
                return True
            for p in inits:
                if p.a[2] != "i" or p is b or p is lb:
                    continue
                if e.le(st, hi, p) and self.alln(ctx, out, lo, p, final, depth + 1):
                    return True
                for q in (0, 1):
                    if e.le(st, add(p, q), lo) and self.alln(ctx, out, add(p, q), hi, final, depth + 1):
                        return True
        # loops completed before
        for fi in range(len(ctx) - 1, -1, -1):
            f = ctx[fi]
            for kk in range(f.k - 1, -1, -1):
                ev = f.word[kk]
                if ev.a[0] != "L":
                    continue
                i2 = e.insts.get(ev.a[1])
                if i2 is None or not any(x.tag == "idx" and x.a[0] is out for x in self.mentions(i2)):
                    continue
                gid = self.gid(f.word, kk)
                f2 = loops.flat(e, i2)
                oc = ctx[:fi] + [Fr(f.inst, f.head, f.word, kk)]
                alts = [(i, w) for i, w, kind, s, g in f2.exits if kind == "exit" and (gid is None or g == gid)]
                # what is known now excludes some of the exits
                ok = bool(alts)
                for i, w in alts:
                    c2 = oc + [Fr(i2, i, w, len(w))]
                    if self.contradicts(self.st(c2, final), st):
                        continue
                    if self.alln(c2, out, lo, hi, final, depth + 2):
                        continue
                    # what the loop counted
                    if any(p.a[2] == "i" and p is not b and e.le(st, hi, p) and self.alln(c2, out, lo, p, final, depth + 2) for p in f2.inits):
                        continue
                    ok = False
                    break
                if ok:
                    return True
        return False

    def contradicts(self, a, b):
        for at, v in b.facts.items():
            w = a.facts.get(at)
            if w is not None and w is not v and at.a[0] in ("b", "in", "eq"):
                return True
        return False

    def mentions(self, inst):
        return loops.inner_terms(self.e, inst)

    def gid(self, word, k):
        if k + 1 < len(word) and word[k + 1].a[0] == "X" and word[k + 1].a[1] is word[k].a[1]:
            return word[k + 1].a[2].a[0]
        return None

    def induct(self, ctx, fi, phi, k, other, out, final, depth, d):
        """invariant of the loop of ctx[fi]: out[other .. phi+k) (d=1) or out[phi+k .. other) (d=-1) vanishes"""
        e = self.e
        f = ctx[fi]
        inst = f.inst
        if e.born(other, inst.L) or e.born(out, inst.L):
            return False
        outer = ctx[:fi]
        key = (ckey(outer), inst.t, phi, k, other, out, final, d)
        P = self.icache.get(key)
        if P is None:
            P = self.icache[key] = self.induct_(outer, inst, phi, k, other, out, final, depth, d)
        return P.get(f.head, False)

    def induct_(self, outer, inst, phi, k, other, out, final, depth, d):
        e = self.e
        fl = loops.flat(e, inst)
        heads = {0}
        for i, w, j, s in fl.edges:
            heads |= {i, j}
        for x in fl.exits:
            heads.add(x[0])
        ini = add(fl.inits[phi], k)
        lo, hi = (other, ini) if d > 0 else (ini, other)
        if not self.alln(outer, out, lo, hi, final, depth + 1):
            return {}
        P = {h: True for h in heads}
        changed = True
        while changed:
            changed = False
            for i, w, j, s in fl.edges:
                if not P[j] or self.pruned(w, final):
                    continue
                if not P[i]:
                    P[j] = False
                    changed = True
                    continue
                v = s.get(phi, phi)
                b, kk = split(v)
                ok = False
                if b is phi:
                    lo = 0 if d > 0 else kk
                    hi = kk if d > 0 else 0
                    c2 = outer + [Fr(inst, i, w, len(w))]
                    ok = abs(kk) < 4 and all(self.vanishing(c2, mk("idx", out, add(phi, k + q)), final) is True for q in range(lo, hi))
                else:
                    lo, hi = (other, add(v, k)) if d > 0 else (add(v, k), other)
                    ok = e.le(self.st(outer + [Fr(inst, i, w, len(w))], final), hi, lo)
                if not ok:
                    P[j] = False
                    changed = True
        return P

    # ------------------------------------------------------------ soundness
    def pending(self, inst, want, justify, cache):
        """insertions that the loop alone does not justify: (ctx from this loop inwards, event)"""
        r = cache.get(inst.t)
        if r is not None:
            return r
        cache[inst.t] = []
        out = []
        fl = loops.flat(self.e, inst)
        for i, w in [(i, w) for i, w, j, s in fl.edges] + [(x[0], x[1]) for x in fl.exits]:
            self.scan_word(inst, i, w, [], want, justify, cache, out)
        seen = set()
        res = []
        if len(out) > 400:
            # too many ways to get here: the first few stand for all of them, and the rest stays open
            self.sampled = True
            out = out[:100]
        for c, ev in out:
            q = (ckey(c), ev)
            if q not in seen:
                seen.add(q)
                res.append((c, ev))
        cache[inst.t] = res
        return res

    def scan_word(self, inst, head, w, pre, want, justify, cache, out):
        for k, ev in enumerate(w):
            if want(ev):
                c = pre + [Fr(inst, head, w, k)]
                if not justify(c, ev):
                    out.append((c, ev))
                    if len(out) > 2000:
                        self.sampled = True
                        return
            elif ev.a[0] == "L":
                i2 = self.e.insts.get(ev.a[1])
                if i2 is None:
                    continue
                for c, ev2 in self.pending(i2, want, justify, cache):
                    c2 = pre + [Fr(inst, head, w, k)] + c
                    if not justify(c2, ev2):
                        out.append((c2, ev2))
                        if len(out) > 2000:
                            self.sampled = True
                            return

    def unjustified(self, want, justify):
        out = []
        self.scan_word(None, 0, self.log, [], want, lambda c, ev: justify(c, ev) or self.by_cases(c, lambda c2: justify(c2, ev)), {}, out)
        return out

    def by_cases(self, ctx, ok, final=False):
        """does ok hold whichever way the loops completed just before were left?"""
        for fi in range(len(ctx) - 1, -1, -1):
            f = ctx[fi]
            for kk in range(f.k - 2, -1, -1):
                if f.word[kk].a[0] != "L":
                    continue
                cs = self.left(f, kk)
                if cs is None:
                    continue
                todo = [[*ctx[:fi], g, *ctx[fi + 1:]] for g in cs]
                if todo and all(ok(c) for c in todo):
                    return True
        return False

    def left(self, f, kk):
        """the frame f, with the last, partial iteration of its completed loop at kk spelled out: one per exit"""
        i2 = self.e.insts.get(f.word[kk].a[1])
        gid = self.gid(f.word, kk)
        if i2 is None or gid is None:
            return None
        alts = [w for i, w, kind, s, g in loops.flat(self.e, i2).exits if kind == "exit" and g == gid]
        if not 0 < len(alts) < 9:
            return None
        return [Fr(f.inst, f.head, f.word[: kk + 2] + w + f.word[kk + 2:], f.k + len(w)) for w in alts]

    def equals(self, st, t):
        out = [t]
        for at, v in st.facts.items():
            if at.a[0] == "eq" and v is TRUE:
                if at.a[1] is t:
                    out.append(at.a[2])
                elif at.a[2] is t:
                    out.append(at.a[1])
        return out

    def productions(self, ctx):
        """productions in view"""
        seen = []
        for f in ctx:
            for ev in f.word[: f.k]:
                if ev.a[0] in ("visit", "alt") and self.th.prod_of(ev.a[3]) and ev.a[3] not in seen:
                    seen.append(ev.a[3])
        return seen

    def source(self, x, kinds):
        """x is an element of (a vec copy of) enum(mget(m, Y)), m in kinds -> Y"""
        if x.tag == "idx" and x.a[0].tag == "enum":
            s = x.a[0].a[0]
            if s.tag == "mget" and s.a[0] in kinds:
                return s.a[1]
        return None

    def local_sources(self, ctx, x):
        """local sets and vectors of which x is an element"""
        out = []
        if x.tag == "idx" and x.a[0].tag == "vid":
            out.append(x.a[0])
        if x.tag == "idx" and x.a[0].tag == "enum" and x.a[0].a[0].tag == "set":
            out.append(x.a[0].a[0])
        for f in reversed(ctx):
            for ev in f.word[: f.k]:
                if ev.a[0] in ("visit", "alt") and ev.a[1].tag == "enum" and ev.a[1].a[0].tag == "set" and ev.a[3] is x and ev.a[1].a[0] not in out:
                    out.append(ev.a[1].a[0])
        return out

    def first_ok(self, M, ctx, K, x, depth=0):
        """may x be put into FIRST(K)?"""
        e = self.e
        st = self.st(ctx, False)
        Y = self.source(x, [M])
        if Y is not None and (Y is K or self.same(st, Y, K)):
            return True
        if self.nt(st, K) is False and self.same(st, x, K):
            return True  # a terminal begins itself
        for p in self.lhs_of(st, ctx, K, x):
            out = mk("f", p, self.r.pout)
            if x is self.eps or self.same(st, x, self.eps):
                if self.alln(ctx, out, I(0), mk("len", out)):
                    return True
            for y in ([Y] if Y is not None else []) + ([x] if Y is None else []):
                for z in self.equals(st, y):
                    if not (z.tag == "idx" and z.a[0] is out):
                        continue
                    t = z.a[1]
                    if Y is None and self.nt(st, x) is not False:
                        continue
                    if not self.alln(ctx, out, I(0), t):
                        continue
                    if Y is None or self.is_eps(st, x) is False or e.decide(st, mk("at", "in", mk("mget", M, Y), self.eps)) is False:
                        return True
                    if self.alln(ctx, out, add(t, 1), mk("len", out)):
                        return True
        if depth < 3:
            return any(self.via(S, ctx, lambda c, y: self.first_ok(M, c, K, y, depth + 1)) for S in self.local_sources(ctx, x))
        return False

    def via(self, S, ctx, ok):
        """every element of the local set or vector S satisfies ok where it was put in"""
        vid = S if S.tag == "vid" else S.a[0]

        def want(ev):
            return ev.a[0] in TOUCH and ev.a[0] not in ("new", "setrm", "setclr", "pop", "clear", "vrev") and (ev.a[1] is S or ev.a[0] == "copyof" and ev.a[1] is vid)

        def fine(c, ev):
            if ev.a[0] == "ins" or ev.a[0] == "push" and S is vid:
                return ok(c, added(ev))
            if ev.a[0] == "copyof" and S is not vid:
                if ev.a[2].tag == "mget":
                    return ok(c, mk("idx", mk("enum", ev.a[2]), mk("phi", mk("cpy", S.a[0]), 0, "i")))
                return ev.a[2].tag == "set" and self.via(ev.a[2], c, ok)
            return False

        bad = []
        born = None
        for fi in range(len(ctx)):
            f = ctx[fi]
            at = [k for k in range(f.k) if f.word[k].a[0] == "new" and f.word[k].a[1] is vid]
            if at:
                born = fi
            k0 = at[-1] if at else 0
            hits = []
            self.scan_word(f.inst, f.head, f.word[: f.k], ctx[:fi], want, fine, {}, hits)
            bad += [(c, ev) for c, ev in hits if c[fi].k >= k0]
        if born is None:
            return False
        for f in ctx[born + 1 :]:
            # filled in earlier iterations: for another symbol, perhaps
            if f.inst is not None and self.e.P.inst_touches(f.inst, S):
                if any(t.tag == "ev" and t.a[0] in ("setclr", "clear") and t.a[1] is S for t in self.mentions(f.inst)):
                    self.carried = True
                return False
        return not bad

    def lhs_of(self, st, ctx, K, x):
        """productions whose left-hand side is K"""
        cands = []
        for t in subterms(x):
            if self.th.prod_of(t) and t not in cands:
                cands.append(t)
        for z in self.equals(st, x):
            for t in subterms(z):
                if self.th.prod_of(t) and t not in cands:
                    cands.append(t)
        for p in self.productions(ctx):
            if p not in cands:
                cands.append(p)
        return [p for p in cands if self.th.prod_of(p)[1] is K or self.same(st, self.th.prod_of(p)[1], K)]

    def follow_ok(self, W, firsts, ctx, K, x, depth=0):
        """may x be put into FOLLOW(K)?"""
        e = self.e
        st = self.st(ctx, False)
        A = self.source(x, [W])
        Y = self.source(x, firsts)
        if A is not None and (A is K or self.same(st, A, K)):
            return True
        for z in self.equals(st, K):
            o = self.th.outsym(z)
            if not o:
                continue
            out, i = o[1], o[2]
            pr = self.th.out_of(out)
            if A is not None:
                if (pr[1] is A or self.same(st, pr[1], A)) and self.alln(ctx, out, add(i, 1), mk("len", out)):
                    return True
                continue
            for y in self.equals(st, Y if Y is not None else x):
                if not (y.tag == "idx" and y.a[0] is out):
                    continue
                m = y.a[1]
                if Y is None and self.nt(st, x) is not False:
                    continue
                if not e.le(st, add(i, 1), m) or not self.alln(ctx, out, add(i, 1), m):
                    continue
                if Y is None and e.le(st, I(2), mk("len", out)) or self.is_eps(st, x) is False or Y is not None and any(e.decide(st, mk("at", "in", mk("mget", f, Y), self.eps)) is False for f in firsts):
                    return True
        if depth < 3:
            return any(self.via(S, ctx, lambda c, y: self.follow_ok(W, firsts, c, K, y, depth + 1)) for S in self.local_sources(ctx, x))
        return False

    # ------------------------------------------------------------ completeness
    def is_copy(self, C, src):
        """is the visited collection the enumeration of src, or a vector copied from it?"""
        return C.tag == "enum" and C.a[0] is src

    def covers(self, ctx, k, S, src, final, dsts):
        """does S (a set or a local vector) hold, at index k of the word of ctx[-1], all of src but epsilon and what
        is in one of dsts already?"""
        if S.tag == src.tag and self.same(self.st(ctx, final), S, src):
            return True
        if S.tag not in ("set", "vid"):
            return False
        vid = S if S.tag == "vid" else S.a[0]
        f = ctx[-1]
        since = []
        for j in range(k - 1, -1, -1):
            ev = f.word[j]
            if ev.a[0] == "copyof" and ev.a[1] is vid and S is not vid:
                return ev.a[2].tag == src.tag and self.same(self.st(ctx, final), ev.a[2], src)
            if ev.a[0] == "new" and ev.a[1] is vid:
                # filled here
                return bool(since) and self.copies(ctx[:-1] + [Fr(f.inst, f.head, f.word[:k], k)], j, src, (S,) + dsts, final)
            if self.e.P.touches([ev], S):
                if ev.a[0] == "setrm" and self.same(self.st(ctx, final), ev.a[2], self.eps):
                    continue
                if ev.a[0] not in ("ins", "push", "L") or self.shrinks(ev, S, vid):
                    return False
                since.append(ev)
        return False

    def shrinks(self, ev, S, vid):
        if ev.a[0] != "L":
            return False
        inst = self.e.insts.get(ev.a[1])
        return inst is None or any(t.tag == "ev" and t.a[0] in TOUCH and t.a[0] not in ("ins", "push", "new") and any(x is S or x is vid for x in t.a[1:]) for t in self.mentions(inst))

    def copies(self, ctx, frm, src, dst, final=True):
        """a completed loop in the word of ctx[-1] (from index frm on) inserts all of src but epsilon into dst
        (or, given several, into the first, except for what is in one of the others already)"""
        e = self.e
        f = ctx[-1]
        dsts = dst if isinstance(dst, tuple) else (dst,)
        for k, it, gid in loops_in(f.word):
            if k < frm:
                continue
            for C, its, cov in iterations(e, it, gid):
                S = C.a[0] if C.tag == "enum" else C
                if not self.covers(ctx, k, S, src, final, dsts):
                    continue
                ok = True
                for x in its:
                    if self.pruned(x.word, final):
                        continue
                    if any(ev.a[0] in ("ins", "push") and ev.a[1] in dsts and added(ev) is x.val or ev.a[0] == "asm" and ev.a[2] is TRUE and ev.a[1] is e.eq_atom(self.eps, x.val) for ev in x.word):
                        continue
                    s2 = self.st(ctx[:-1] + [Fr(f.inst, f.head, f.word, k), Fr(x.inst, x.head, x.word, len(x.word))], final)
                    if self.is_eps(s2, x.val) is True:
                        continue
                    if any(ev.a[0] in ("ins", "push") and any(self.same(s2, ev.a[1], d) for d in dsts) and self.same(s2, added(ev), x.val) for ev in x.word):
                        continue
                    if any(e.decide(s2, mk("at", "in", d, x.val)) is True for d in dsts if d.tag != "vid"):
                        continue
                    ok = False
                    break
                if ok:
                    return True
        return False

    def targets(self, ctx, dst, depth=0):
        """(context, sets): what is in the first set at the context gets into dst (the last one): dst itself, and
        local sets and vectors copied into it"""
        dsts = dst if isinstance(dst, tuple) else (dst,)
        yield ctx, dsts
        if depth > 1:
            return
        e = self.e
        f = ctx[-1]
        for k, it, gid in loops_in(f.word):
            cs = {C.a[0] if C.tag == "enum" else C for C, its, cov in iterations(e, it, gid)}
            for S in sorted((c for c in cs if c.tag in ("set", "vid") and c not in dsts), key=lambda c: c.n):
                if self.copies(ctx, k, S, dsts):
                    yield from self.targets(ctx[:-1] + [Fr(f.inst, f.head, f.word[:k], k)], (S,) + dsts, depth + 1)

    def inserted(self, ctx, frm, dst, x, final=True):
        f = ctx[-1]
        st = self.st(ctx, final)
        dsts = dst if isinstance(dst, tuple) else (dst,)
        for ev in f.word[frm:]:
            if ev.a[0] in ("ins", "push") and any(self.same(st, ev.a[1], d) for d in dsts) and self.same(st, added(ev), x):
                return True
        return any(self.e.decide(st, mk("at", "in", d, x)) is True for d in dsts if d.tag != "vid")

    def walk(self, ctx, out, s, t, effect, finale=None, block=True, final=True, late=False):
        """some completed loop in the word of ctx[-1] passes over out[s..t), up or down, doing `effect` at every
        position; if `block`, it may stop after a symbol that cannot vanish; otherwise `finale` must follow;
        if `late`, it may begin at a symbol that cannot vanish"""
        e = self.e
        f = ctx[-1]
        st = self.st(ctx, final)
        if e.le(st, t, s):
            if finale is None or finale(ctx, 0):
                return True
        elif e.le(st, t, add(s, 1)):
            # at most one position: what is done for it needs no loop
            for pos in dict.fromkeys((add(t, -1), s)):
                Y = mk("idx", out, pos)
                done = effect(ctx, Y, pos)
                stop = block and (done == "stop" or self.nullable(st, Y) is False)
                if done and (stop or finale is None or finale(ctx, 0)):
                    return True
        for k, it, gid in loops_in(f.word):
            inst = e.insts.get(it)
            if inst is None:
                continue
            fl = loops.flat(e, inst)
            octx = ctx[:-1] + [Fr(f.inst, f.head, f.word, k)]
            cands = set()
            for x in self.mentions(inst):
                if x.tag == "idx" and x.a[0] is out:
                    b, q = split(x.a[1])
                    if b in fl.inits:
                        cands.add((b, q))
            for b, q in sorted(cands, key=lambda c: (c[0].n, c[1])):
                for d in (1, -1):
                    if d == -1 and finale is not None:
                        continue
                    if self.walk_(ctx, octx, k, inst, gid, fl, out, b, q, d, s, t, effect, finale, block, final, late):
                        return True
        return False

    def walk_(self, ctx, octx, kk, inst, gid, fl, out, phi, q, d, s, t, effect, finale, block, final, late):
        e = self.e
        ost = self.st(octx, final)
        p0 = add(fl.inits[phi], q)
        if d > 0 and not e.le(ost, p0, s):
            if not late or not (self.nullable(ost, mk("idx", out, p0)) is False or self.by_cases(octx, lambda c: self.nullable(self.st(c, final), mk("idx", out, p0)) is False, final)):
                return False
            s = p0
        if d < 0 and not e.le(ost, t, add(p0, 1)):
            return False
        pos = add(phi, q)
        Y = mk("idx", out, pos)
        words = [(i, w, ("edge", j), st_) for i, w, j, st_ in fl.edges if not self.pruned(w, final)]
        words += [(i, w, ("exit", None), None) for i, w, kind, s_, g in fl.exits if kind == "exit" and (gid is None or g == gid) and not self.pruned(w, final)]
        info = []
        for i, w, tgt, steps in words:
            c2 = octx + [Fr(inst, i, w, len(w))]
            st = self.st(c2, final)
            before = e.le(st, t, pos) if d > 0 else e.le(st, add(pos, 1), s)
            outside = before or (e.le(st, add(pos, 1), s) if d > 0 else e.le(st, t, pos))
            last = e.le(st, t, add(pos, 1)) if d > 0 else e.le(st, pos, s)
            done = True if outside else effect(c2, Y, pos)
            stop = block and not outside and (done == "stop" or self.vanishing(c2, Y, final) is False)
            info.append((i, w, tgt, steps, c2, st, before, outside, last, stop, done))
        B = None
        if block:
            heads = {0} | {x[0] for x in info} | {x[2][1] for x in info if x[2][0] == "edge"}
            B = {h: h != 0 for h in heads}
            ch = True
            while ch:
                ch = False
                for i, w, tgt, steps, c2, st, before, outside, last, stop, done in info:
                    if tgt[0] == "edge" and B[tgt[1]] and not (B[i] or stop):
                        B[tgt[1]] = False
                        ch = True
        ends = False
        for i, w, tgt, steps, c2, st, before, outside, last, stop, done in info:
            if B is not None and B[i]:
                continue
            if tgt[0] == "exit" and not outside and not stop and block and d > 0 and self.blocked(c2, out, s, pos, final):
                continue  # it has passed a symbol that cannot vanish
            if not done and tgt[0] == "exit" and gid is not None:
                # what is missing may be done right after the loop
                f = ctx[-1]
                c2 = ctx[:-1] + [Fr(f.inst, f.head, f.word[: kk + 2] + tuple(w) + f.word[kk + 2:], f.k + len(w))]
                done = effect(c2, Y, pos)
                stop = stop or block and done == "stop"
            if not done:
                return False
            if tgt[0] == "edge":
                if before:
                    continue
                if steps.get(phi) is not add(phi, d):
                    if stop and B is not None and B.get(tgt[1]):
                        continue
                    return False
            else:
                if not outside and stop:
                    continue
                if before or (not outside and last):
                    if finale is not None and not finale(c2, 0):
                        ends = True
                    continue
                return False
        if ends and not finale(ctx, kk + 2):
            return block and self.blocked(ctx, out, s, t, final)
        return True

    def blocked(self, ctx, out, s, t, final):
        """is one of the symbols out[s..t) known not to vanish?"""
        def one(c):
            st = self.st(c, final)
            for at, v in st.facts.items():
                if v is FALSE and at.a[0] == "in" and at.a[1].tag == "mget" and at.a[1].a[0] in self.firstmaps:
                    Y = at.a[1].a[1]
                    if Y.tag == "idx" and Y.a[0] is out and self.is_eps(st, at.a[2]) is True and self.e.le(st, s, Y.a[1]) and self.e.le(st, add(Y.a[1], 1), t):
                        return True
            return False
        return one(ctx) or self.by_cases(ctx, one, final)

    # ------------------------------------------------------------ passes over all productions
    def cls(self, C, depth=0):
        g, r = self.g, self.r
        if C.tag == "enum":
            if C.a[0] is mk("f", g, r.nts):
                return ("nts",)
            if C.a[0].tag == "keys" and C.a[0].a[0] is mk("f", g, r.prods):
                return ("nts",)
        if C.tag == "mget" and C.a[0] is mk("f", g, r.prods):
            return ("of", C.a[1])
        if C.tag == "vid" and depth < 3:
            src = self.copy_of(C)
            if src is not None:
                return self.cls(src, depth + 1)
        return None

    def copy_of(self, vid):
        """collection of which a local vector is a one to one copy wherever it is made"""
        c = self.__dict__.setdefault("copycache", {})
        if vid not in c:
            import grammar
            n = grammar.New.__new__(grammar.New)
            n.e, n.r = self.e, self.r
            res = {n.copy_of(list(w), vid) for w in self.makers(vid)}
            c[vid] = res.pop() if len(res) == 1 else None
        return c[vid]

    def makers(self, vid):
        """the words in which a local collection is made"""
        idx = self.__dict__.get("news")
        if idx is None:
            idx = self.news = {}
            ws = [self.log]
            for inst in list(self.e.insts.values()):
                fl = loops.flat(self.e, inst)
                ws += [w for i, w, j, s in fl.edges] + [x[1] for x in fl.exits]
            for w in ws:
                for ev in w:
                    if ev.a[0] == "new":
                        idx.setdefault(ev.a[1], []).append(w)
        return idx.get(vid, ())

    def every_production(self, ctx, pred, key=None, depth=0):
        """the word of ctx[-1] contains a completed pass over all productions, each handled as pred demands"""
        e = self.e
        f = ctx[-1]
        for k, it, gid in loops_in(f.word):
            for C, its, cov in iterations(e, it, gid):
                c = self.cls(C)
                if c is None:
                    continue
                ok = bool(its)
                for x in its:
                    if self.pruned(x.word, True):
                        continue
                    c2 = ctx[:-1] + [Fr(f.inst, f.head, f.word, k), Fr(x.inst, x.head, x.word, len(x.word))]
                    if c[0] == "nts" and key is None:
                        v = x.val
                        kt = v.a[0] if v.tag == "tup" else v.a[1] if v.tag == "mget" else v
                        if not self.every_production(c2, pred, kt, depth + 1):
                            ok = False
                    elif c[0] == "of" and key is not None and self.same(self.st(c2, True), c[1], key):
                        if not pred(c2, x.val):
                            ok = False
                    else:
                        ok = False
                    if not ok:
                        break
                if ok:
                    return True
        return False

    def rounds(self, M, pred):
        """does some loop at the top level perform, in its last round, what pred(ctx) asks for?"""
        e = self.e
        for k, ev in enumerate(self.log):
            if ev.a[0] != "L":
                continue
            inst = e.insts.get(ev.a[1])
            if inst is None or not e.P.inst_touches(inst, M) and not any(self.touches(inst, M)):
                continue
            gid = self.gid(self.log, k)
            octx = [Fr(None, 0, self.log, k)]
            ex = [(i, w) for i, w, kind, s, g in inst_exits(inst) if kind == "exit" and (gid is None or g == gid) and not self.pruned(w, True)]
            if ex and all(pred(octx + [Fr(inst, i, w, len(w))]) for i, w in ex):
                return True
            ed = [(i, w) for i, w, j, s in inst.edges if not self.pruned(w, True)]
            if ed and all(pred(octx + [Fr(inst, i, w, len(w))]) for i, w in ed):
                return True
        return False

    def exotic(self, M):
        """constructions in the loops that fill M for which completeness is not decided: intermediate
        collections, index lists of another shape"""
        for ev in self.log:
            if ev.a[0] != "L":
                continue
            inst = self.e.insts.get(ev.a[1])
            if inst is None or not any(self.touches(inst, M)):
                continue
            for t in self.mentions(inst):
                if t.tag == "itop" and t.a == ():
                    return "a list of positions"
                if t.tag == "unk":
                    return "a value that is not understood"
                if t.tag == "ev" and t.a[0] in ("ins", "push") and t.a[1].tag in ("set", "vid", "vec"):
                    return "an intermediate collection"
        return None

    def demand(self, rep, ok, rule, w, why, M):
        x = None if ok else self.exotic(M)
        if x:
            rep.unsure(rule, w, why + " (the computation uses %s)" % x)
        else:
            rep.check(ok, rule, w, why)

    def touches(self, inst, M):
        for t in self.mentions(inst):
            if t.tag == "mget" and t.a[0] is M:
                yield True

    # ------------------------------------------------------------ the maps
    def origin(self, R):
        """the map in which the sets of R were computed: R itself, or the map it is a one to one copy of"""
        e = self.e
        hit = None
        for k, ev in enumerate(self.log):
            if ev.a[0] == "L":
                inst = e.insts.get(ev.a[1])
                if inst is None:
                    continue
                if any(x.a[0] == "mapins" and x.a[1] is R for w in [y[1] for y in inst.edges] + [y[1] for y in inst.exits] for x in w):
                    for C, its, cov in iterations(e, ev.a[1], self.gid(self.log, k)):
                        if not (C.tag == "enum" and C.a[0].tag == "keys" and C.a[0].a[0].tag == "map"):
                            continue
                        M = C.a[0].a[0]
                        ok = bool(its)
                        for x in its:
                            v = x.val
                            if v.tag != "tup":
                                ok = False
                                break
                            ins = [y for y in x.word if y.a[0] == "mapins" and y.a[1] is R]
                            if len(ins) != 1 or ins[0].a[2] is not v.a[0] or ins[0].a[3] is not mk("mget", M, v.a[0]):
                                ok = False
                        if ok:
                            hit = (M, k)
            if ev.a[0] in TOUCH and ev.a[1] is R and ev.a[0] not in ("new", "mapins") and hit:
                return None
        return hit[0] if hit else R

    def initial(self, M, classes):
        """key classes and initial contents: every key of the classes gets a fresh set with the licensed content.
        -> list of complaints"""
        e = self.e
        why = []
        d = self.th.domain(self.ret, M)
        if d is None:
            return ["its keys are not known"]
        got = {c[1] for c in d[0] if c[0] == "g"}
        other = [c for c in d[0] if c[0] != "g" and c != ("any", None)]
        if got != classes:
            why.append("it has entries for %s instead of %s" % (sorted(got), sorted(classes)))
        if other or not d[1]:
            why.append("it may have further entries")
        return why

    def fills(self, M):
        """(ctx, mapins event) for every entry created"""
        out = []
        self.scan_word(None, 0, self.log, [], lambda ev: ev.a[0] == "mapins" and ev.a[1] is M, lambda c, ev: False, {}, out)
        return out


def added(ev):
    return ev.a[2] if ev.a[0] == "ins" else ev.a[3]


def inst_exits(inst):
    gid = {}
    for g, idxs in inst.groups.items():
        for k in idxs:
            gid[k] = g
    for k, (i, w, kind, st) in enumerate(inst.exits):
        yield i, w, kind, st, gid.get(k)


def setup(prog, rep):
    r = roles(prog, rep)
    b = method(prog, "FirstFollowSymbols", "from")
    box = {}

    def th(e, args):
        box["th"] = theory.Theory(e, r, [args[0]])

    e, args, outs = analyse(prog, b, rep, th)
    return r, b, e, args[0], outs, box["th"]


def set_of(t):
    while t.tag == "cell":
        t = t.a[0]
    return t


def content_ok(S, rep, rule, w, M, entry_ok):
    """the sets put in when an entry is created hold only licensed symbols"""
    for ctx, ev in S.fills(M):
        s = set_of(ev.a[3])
        if s.tag != "set":
            rep.bad(rule, w, "an entry is created with %s" % show(s))
            continue
        word = ctx[-1].word[: ctx[-1].k]
        xs = []
        good = any(x.a[0] == "new" and x.a[1] is s.a[0] for x in word)
        for x in word:
            if x.a[0] == "ins" and x.a[1] is s:
                xs.append(x.a[2])
            elif x.a[0] == "L":
                i2 = S.e.insts.get(x.a[1])
                if i2 is not None and S.e.P.inst_touches(i2, s):
                    good = False
            elif x.a[0] in TOUCH and x.a[0] != "new" and x.a[1] is s:
                good = False
        rep.check(good and entry_ok(ctx, ev.a[2], xs), rule, w, "the entry of %s starts with %s" % (show(ev.a[2]), [show(x) for x in xs] if good else "unknown contents"))


def c04(prog, rep, tier):
    r, b, e, g, outs, th = setup(prog, rep)
    w = where(b)
    rep.check(any(k == "ret" for k, s in outs), "the analysis returns", w)
    for k, s in outs:
        if k != "ret":
            continue
        log = e.events(s.log)
        S = Sets(e, r, g, th, s, log)
        R = proj(s.ret, None, r.first)
        if R.tag != "map":
            rep.bad("the FIRST sets are built here", w, "field %s holds %s" % (r.first, show(R)))
            continue
        M = S.origin(R)
        if M is None:
            rep.bad("the FIRST sets are returned as computed", w, "the returned map is changed after it was copied")
            continue
        S.firstmaps = [M] + ([R] if R is not M else [])
        why = S.initial(M, {"nts", "ts"})
        rep.check(not why, "every symbol of the grammar has a FIRST entry", w, "; ".join(why))

        def entry(ctx, K, xs):
            st = S.st(ctx, False)
            n = S.nt(st, K)
            return all(S.same(st, x, K) and n is False for x in xs)

        content_ok(S, rep, "FIRST entries start empty, or with the terminal itself", w, M, entry)

        # soundness
        def want(ev):
            if ev.a[0] == "ins" and ev.a[1].tag == "mget" and ev.a[1].a[0] in S.firstmaps:
                return True
            return ev.a[0] in ("setrm", "setclr", "setmut", "unkw", "store") and any(x in S.firstmaps or isinstance(x, T) and x.tag == "mget" and x.a[0] in S.firstmaps for x in ev.a[1:])

        bad = S.unjustified(want, lambda c, ev: ev.a[0] == "ins" and S.first_ok(M, c, ev.a[1].a[1], ev.a[2]))
        rule = "a symbol enters FIRST only if a right-hand side can begin with it"
        report(rep, S, rule, w, bad)
        if not bad and not S.sampled:
            rep.ok(rule, w)

        # completeness
        def terminals(ctx, key):
            return True

        def handled(ctx, p):
            A = th.prod_of(p)[1]
            dst = mk("mget", M, A)
            out = mk("f", p, r.pout)

            def effect(c, Y, pos):
                st = S.st(c, True)
                if S.same(st, Y, A) or e.decide(st, e.eq_atom(Y, A)) is True:
                    return True
                if S.nt(st, Y) is False and S.inserted(c, 0, dst, Y):
                    return "stop"
                if S.copies(c, 0, mk("mget", M, Y), dst):
                    return True
                return S.is_eps(st, Y) is True

            def finale(c, frm):
                return S.inserted(c, frm, dst, S.eps)

            return S.walk(ctx, out, I(0), mk("len", out), effect, finale)

        S.demand(rep, S.rounds(M, lambda c: S.every_production(c, handled)), "every round derives FIRST from every production, up to its first symbol that cannot vanish", w,
                  "no loop of the computation passes over all productions of all non-terminals and, for each, adds FIRST of every right-hand-side symbol up to and including the first that cannot vanish (and epsilon when there is none)", M)
        rep.check(terminal_self(S, M), "a terminal begins itself", w, "the entry of a terminal does not start with the terminal")
    accessor(prog, rep, r, "get_first_symbols", "first")


def terminal_self(S, M):
    """every entry of a terminal holds that terminal"""
    for ctx, ev in S.fills(M):
        st = S.st(ctx, False)
        K = ev.a[2]
        if S.nt(st, K) is True:
            continue
        s = set_of(ev.a[3])
        word = ctx[-1].word
        if not any(x.a[0] == "ins" and (x.a[1] is s or x.a[1] is mk("mget", M, K)) and S.same(st, x.a[2], K) for x in word):
            return False
    return True


def accessor(prog, rep, r, name, role):
    import grammar
    grammar.lookup(prog, rep, method(prog, "FirstFollowSymbols", name), lambda a: mk("f", a[0], getattr(r, role)), "the getter returns the stored set")


def report(rep, S, rule, w, bad):
    if S.sampled and not bad:
        rep.unsure(rule, w, "too many cases")
    for c, ev in bad[:4]:
        txt = "%s gets %s" % (show(ev.a[1]), show(ev.a[2]) if len(ev.a) > 2 else ev.a[0])
        if any(t.tag == "itop" and t.a not in (("stale",), ("dead",)) or t.tag == "unk" for x in ev.a[1:] if isinstance(x, T) for t in subterms(x)):
            rep.unsure(rule, w, "a list of positions is not understood: " + txt)
        elif S.carried or any(t.tag == "enum" and t.a[0].tag == "phi" for x in ev.a[1:] if isinstance(x, T) for t in subterms(x)):
            rep.unsure(rule, w, "a set is carried from one symbol to the next and emptied in between: " + txt)
        else:
            rep.bad(rule, w, txt)


def c05(prog, rep, tier):
    r, b, e, g, outs, th = setup(prog, rep)
    w = where(b)
    rep.check(any(k == "ret" for k, s in outs), "the analysis returns", w)
    for k, s in outs:
        if k != "ret":
            continue
        log = e.events(s.log)
        S = Sets(e, r, g, th, s, log)
        R1, R = proj(s.ret, None, r.first), proj(s.ret, None, r.follow)
        if R.tag != "map" or R1.tag != "map":
            rep.bad("the FOLLOW sets are built here", w, "field %s holds %s" % (r.follow, show(R)))
            continue
        M1 = S.origin(R1)
        W = S.origin(R)
        if W is None or M1 is None:
            rep.bad("the FOLLOW sets are returned as computed", w, "the returned map is changed after it was copied")
            continue
        S.firstmaps = firsts = [R1] + ([M1] if M1 is not R1 else [])
        fw = [W] + ([R] if R is not W else [])
        rep.check(R is not R1 and W is not M1, "FIRST and FOLLOW are different maps", w)
        why = S.initial(W, {"nts"})
        rep.check(not why, "exactly the non-terminals have a FOLLOW entry", w, "; ".join(why))
        content_ok(S, rep, "FOLLOW entries start empty", w, W, lambda c, K, xs: not xs)

        def want(ev):
            if ev.a[0] == "ins" and ev.a[1].tag == "mget" and ev.a[1].a[0] in fw:
                return True
            return ev.a[0] in ("setrm", "setclr", "setmut", "unkw", "store") and any(x in fw or isinstance(x, T) and x.tag == "mget" and x.a[0] in fw for x in ev.a[1:])

        bad = S.unjustified(want, lambda c, ev: ev.a[0] == "ins" and S.follow_ok(W, firsts, c, ev.a[1].a[1], ev.a[2]))
        rule = "a symbol enters FOLLOW only if it can come next in some derivation"
        report(rep, S, rule, w, bad)
        if not bad and not S.sampled:
            rep.ok(rule, w)

        def first_effect(dst, i):
            def eff(c, Y, m):
                st = S.st(c, True)
                for f in firsts:
                    if S.copies(c, 0, mk("mget", f, Y), dst):
                        return True
                if S.nt(st, Y) is False and S.inserted(c, 0, dst, Y):
                    return "stop"
                return S.is_eps(st, Y) is True
            return eff

        def firsts_of(ctx, p):
            """FIRST of what comes after each occurrence"""
            out = mk("f", p, r.pout)
            ln = mk("len", out)

            def at(c, Y, i):
                st = S.st(c, True)
                if S.nt(st, Y) is False:
                    return True
                return any(one(c2, d, i) for c2, d in S.targets(c, mk("mget", W, Y)))

            def one(c, dst, i):
                st = S.st(c, True)
                f = c[-1]
                eff = first_effect(dst, i)
                for k2, it, gid in loops_in(f.word):
                    for C, its, cov in iterations(e, it, gid):
                        if C.tag == "chain" and C.a[0] is out and e.le(st, C.a[1], add(i, 1)):
                            if all(S.pruned(x.word, True) or eff(c[:-1] + [Fr(f.inst, f.head, f.word, k2), Fr(x.inst, x.head, x.word, len(x.word))], mk("idx", out, x.val), x.val) for x in its):
                                return True
                return S.walk(c, out, add(i, 1), ln, eff)

            return S.walk(ctx, out, I(0), add(ln, -1), at, block=False)

        def lasts_of(ctx, p):
            """FOLLOW of the left-hand side for the symbols that can come last"""
            out = mk("f", p, r.pout)
            ln = mk("len", out)
            A = th.prod_of(p)[1]
            src = mk("mget", W, A)

            def tail(c, Y, pos):
                st = S.st(c, True)
                if S.nt(st, Y) is False:
                    return "stop"
                if S.same(st, Y, A) or e.decide(st, e.eq_atom(Y, A)) is True:
                    return True
                return S.copies(c, 0, src, mk("mget", W, Y))

            if S.walk(ctx, out, I(0), ln, tail):
                return True
            if S.walk(ctx, out, I(0), ln, tail, block=False, late=True):
                return True

            def at(c, Y, i):
                st = S.st(c, True)
                if S.nt(st, Y) is False or S.same(st, Y, A) or e.decide(st, e.eq_atom(Y, A)) is True:
                    return True
                return any(S.walk(c1, out, add(i, 1), ln, lambda c2, Y2, m: True, lambda c2, frm: S.copies(c2, frm, src, dst)) for c1, dst in S.targets(c, mk("mget", W, Y)))

            return S.walk(ctx, out, I(0), ln, at, block=False)

        top = [Fr(None, 0, S.log, len(S.log))]
        S.demand(rep, S.every_production(top, firsts_of) or S.rounds(W, lambda c: S.every_production(c, firsts_of)), "every round adds FIRST of what follows each occurrence", w,
                  "no pass over all productions adds, for every non-terminal on a right-hand side, FIRST (without epsilon) of each later symbol up to and including the first that cannot vanish", W)
        S.demand(rep, S.rounds(W, lambda c: S.every_production(c, lasts_of)), "every round adds FOLLOW of the left-hand side where the rest can vanish", w,
                  "no loop of the computation passes over all productions and adds FOLLOW of the left-hand side to every right-hand-side non-terminal after which everything can vanish", W)
    accessor(prog, rep, r, "get_follow_symbols", "follow")


# ---------------------------------------------------------------- C06
def c06(prog, rep, tier):
    r, b, e, g, outs, th = setup(prog, rep)
    w = where(b)
    rets = [s for k, s in outs if k == "ret"]
    rep.check(bool(rets), "the analysis returns", w)
    maps, keys = {}, set()
    Ss = []
    for s in rets:
        S = Sets(e, r, g, th, s, e.events(s.log))
        Ss.append(S)
        for name in (r.first, r.follow):
            R = proj(s.ret, None, name)
            M = S.origin(R) if R.tag == "map" else None
            if M is None:
                rep.unsure("the computed maps are known", w, "field " + name)
                continue
            maps.setdefault(name, set()).add(M)
    allm = {m for ms in maps.values() for m in ms}
    plan = []
    for S in Ss:
        for name, ms in maps.items():
            for M in ms:
                last, after = None, []
                for k, ev in enumerate(S.log):
                    if ev.a[0] == "L" and e.insts.get(ev.a[1]) is not None:
                        i = e.insts[ev.a[1]]
                        grows = any(t.tag == "ev" and t.a[0] == "ins" and t.a[1].tag == "mget" and t.a[1].a[0] is M and t.a[3] is TRUE for t in S.mentions(i))
                        reads = grows and reads_sets(S.mentions(i), M)
                        if reads:
                            last, after = i, []
                        elif grows and last is not None:
                            after.append(show(ev.a[1]))
                    elif ev.a[0] == "ins" and ev.a[1].tag == "mget" and ev.a[1].a[0] is M and last is not None:
                        after.append(show(ev))
                if last is None:
                    rep.unsure("the sets are grown by a loop at the top level", w, name)
                    continue
                rep.check(not after, "nothing is added after the last round", w, "%s sets grow after the loop over the rules has stopped: %s" % (name, "; ".join(after[:2])[:300]))
                plan.append((name, M, last.L.key))
                keys.add(last.L.key)
    # the same analysis, remembering whether the current round has added anything
    def gate(headpos):
        def th2(e2, args):
            e2.abool = False
            e2.headpos = headpos
            e2.reset_loops = keys

            def changed(st, S):
                if S.tag == "mget" and S.a[0] in allm:
                    st.ghost["chg"] = TRUE

            e2.changed = changed
            return theory.Theory(e2, r, [args[0]])

        e2, args2, outs2 = analyse(prog, b, rep, th2, 1200000)
        insts = {}
        for i in list(e2.insts.values()):
            insts.setdefault(i.L.key, []).append(i)
        found = []
        for name, M, key in plan:
            todo = insts.get(key, [])
            found.append((bool(todo), "the loop over the rules is reached", name, M))
            for i in todo:
                bad = []
                for h, word, kind, st in i.exits:
                    if kind == "panic":
                        continue
                    chg, prev = st.ghost.get("chg"), st.ghost.get("prev")
                    passed = any(ev.a[0] == "L" and e2.insts.get(ev.a[1]) is not None and grown(e2, e2.insts[ev.a[1]], M) for ev in word)
                    if chg is not FALSE:
                        bad.append("it can be left although the current round has added something")
                    elif prev is not FALSE and not passed:
                        bad.append("it can be left before a round, or although the last round has added something")
                found.append((not bad, "the loop over the rules stops only after a round that adds nothing", "%s: %s" % (name, "; ".join(sorted(set(bad)))), M))
        return e2, found

    e2, found = gate(False)
    if not all(x[0] for x in found):
        # once more, inferring which counters are positive
        e2, found = gate(True)
    for ok, rule, why, M in found:
        if not ok and totals(e2, M):
            rep.unsure(rule, w, "%s: whether something was added is told by the total size of the sets" % why)
        else:
            rep.check(ok, rule, w, why)
    # termination
    gated = {key for name, M, key in plan}
    stuck = {}
    nloops = 0
    for i in list(e2.insts.values()):
        nloops += 1
        c = i.L.key in gated
        v = progress(e2, i, c)
        if v:
            stuck.setdefault((v[0], loop_where(e2, i)), v[1])
    rep.check(nloops > 0, "loops found", w)
    rule = "every loop makes progress"
    for (definite, at), why in sorted(stuck.items(), key=str):
        if definite:
            rep.bad(rule, at, why)
        else:
            rep.unsure(rule, at, why)
    if not stuck:
        rep.ok(rule, w)
    rep.check(not any(removed(x, allm) for i in list(e2.insts.values()) for x in loops.inner_terms(e2, i)), "sets only grow", w, "a FIRST or FOLLOW set shrinks while it is computed")


def totals(e, M):
    """does some loop add up sizes of sets of M?"""
    for i in list(e.insts.values()):
        for h, w, j, st in loops.flat(e, i).edges:
            for p, v in st.items():
                if p.a[2] == "i" and any(t.tag == "len" and any(x.tag in ("mget", "phi") for x in subterms(t)) for t in subterms(v)) and v is not p and any(t is p for t in subterms(v)):
                    return True
    return False


def reads_sets(terms_, M):
    for t in terms_:
        if t.tag == "ev":
            if t.a[0] == "visit" and t.a[1].tag == "enum" and t.a[1].a[0].tag == "mget" and t.a[1].a[0].a[0] is M:
                return True
            if t.a[0] == "asm" and t.a[1].a[0] == "in" and t.a[1].a[1].tag == "mget" and t.a[1].a[1].a[0] is M:
                return True
    return False


def grown(e, inst, M):
    return any(t.tag == "ev" and t.a[0] == "ins" and t.a[1].tag == "mget" and t.a[1].a[0] is M for t in loops.inner_terms(e, inst))


def removed(t, maps):
    return t.tag == "ev" and t.a[0] in ("setrm", "setclr", "setmut") and any(isinstance(x, T) and x.tag == "mget" and x.a[0] in maps for x in t.a[1:])


def loop_where(e, inst):
    b = e.prog.bodies.get((inst.L.fid.a[2], -1)) if inst.L.fid.tag == "fid" else None
    return where(b) if b is not None else show(inst.t)[-80:]


def sccs(nodes, edges):
    """strongly connected components (as edge lists) with an edge inside"""
    succ = {}
    for x in edges:
        succ.setdefault(x[0], set()).add(x[2])
    reach = {}
    for n in nodes:
        seen, todo = set(), [n]
        while todo:
            m = todo.pop()
            for q in succ.get(m, ()):
                if q not in seen:
                    seen.add(q)
                    todo.append(q)
        reach[n] = seen
    out, done = [], set()
    for n in nodes:
        if n in done or n not in reach[n]:
            continue
        comp = {m for m in nodes if m in reach[n] and n in reach[m]}
        done |= comp
        out.append([x for x in edges if x[0] in comp and x[2] in comp])
    return out


def progress(e, inst, gated):
    """None if no execution can stay in this loop for ever, else (definite?, why)"""
    fl = loops.flat(e, inst)
    edges = []
    for i, w, j, s in fl.edges:
        if gated and not isinstance(j, tuple) and head_ghost(inst, j, "prev") is TRUE:
            continue  # something was added; the sets are finite
        if isinstance(i, tuple) and isinstance(j, tuple) and i[1:] == j[1:]:
            continue  # going round in a loop inside this one: looked at on its own
        edges.append((i, w, j, s))
    return measure(e, inst, fl, edges)


def head_ghost(inst, j, name):
    h = inst.heads[j]
    return h.ghost.get(name)


def measure(e, inst, fl, edges, depth=0):
    nodes = {x[0] for x in edges} | {x[2] for x in edges}
    for comp in sccs(nodes, edges):
        best = None
        for p in fl.inits:
            if p.a[2] != "i":
                continue
            for d in (1, -1):
                strict, ok = [], True
                for x in comp:
                    v = x[3].get(p, p)
                    b, k = split(v)
                    if b is not p or k * d < 0:
                        ok = False
                        break
                    if k * d > 0 and (d < 0 or bounded(e, inst, x[1], p)):
                        strict.append(x)
                if ok and strict:
                    rest = [x for x in comp if x not in strict]
                    if measure(e, inst, fl, rest, depth + 1) is None:
                        best = True
                        break
            if best:
                break
        if best:
            continue
        for x in comp:
            if x[0] == x[2] and not any(v is not p for p, v in x[3].items()) and not any(ev.a[0] in TOUCH and ev.a[0] != "new" for ev in x[1]) and not any(ev.a[0] == "L" for ev in x[1]):
                return True, "an iteration that changes nothing can repeat for ever"
        return False, "no measure found for a loop"
    return None


def bounded(e, inst, w, p):
    for ev in w:
        if ev.a[0] == "visit" and split(ev.a[2])[0] is p and not e.born(ev.a[1], inst.L):
            return True
        if ev.a[0] == "asm" and ev.a[1].a[0] == "lt" and (ev.a[2] is TRUE or ev.a[2] is True):
            a, b = ev.a[1].a[1], ev.a[1].a[2]
            if split(a)[0] is p and not e.born(b, inst.L):
                return True
    return False
