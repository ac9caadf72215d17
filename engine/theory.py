"""Facts about well-formed grammars that the analyses of the other modules may use.

They are what the checks C01-C05 establish about `ContextFreeGrammar::new` and
`FirstFollowSymbols::from`; the roles of the fields are found by analysing those functions."""
from terms import *
import terms


class Roles:
    """which field of the grammar / analysis / parser structs plays which part"""

    def __init__(self):
        self.gpath = None  # path of the grammar ADT
        self.ppath = None  # path of the production ADT
        self.ffpath = None
        self.tpath = None
        self.eps = self.ini = self.nts = self.ts = self.prods = None
        self.pin = self.pout = None
        self.first = self.follow = None
        self.table = None


class Theory:
    """oracle over opaque grammar values"""

    def __init__(self, eng, roles, grammars=(), analyses=()):
        self.e = eng
        self.r = roles
        self.grammars = set(grammars)
        self.analyses = dict(analyses)  # analysis term -> grammar term
        self.firsts = {}
        self.follows = {}
        for g in self.grammars:
            pass
        for a, g in self.analyses.items():
            self.firsts[proj(a, None, roles.first)] = g
            self.follows[proj(a, None, roles.follow)] = g
        self.dom_cache = {}
        self.nest = []
        eng.oracle.append(self)
        eng.axints.append(self.ints)
        eng.theory = self
        terms.CANON_PROJ.append(self.canon_proj)

    def close(self):
        if self.canon_proj in terms.CANON_PROJ:
            terms.CANON_PROJ.remove(self.canon_proj)

    # ------------------------------------------------------------ shapes
    def is_grammar(self, t):
        if t in self.grammars:
            return True
        ty = self.e.typeof(t)
        return bool(ty) and ty.get("k") == "adt" and ty["p"] == self.r.gpath and t.tag in ("p", "f", "vf")

    def gfield(self, t):
        """(grammar, role) of a grammar field term"""
        if t.tag == "f" and self.is_grammar(t.a[0]):
            n = t.a[1]
            r = self.r
            for role in ("eps", "ini", "nts", "ts", "prods"):
                if getattr(r, role) == n:
                    return t.a[0], role
        return None

    def eps_of(self, g):
        return mk("f", g, self.r.eps)

    def prod_of(self, t):
        """t is production number i of symbol A of grammar g -> (g, A, i)"""
        if t.tag == "idx" and t.a[0].tag == "mget":
            gf = self.gfield(t.a[0].a[0])
            if gf and gf[1] == "prods":
                return gf[0], t.a[0].a[1], t.a[1]
        return None

    def out_of(self, t):
        """t is the right-hand side of a production"""
        if t.tag == "f" and t.a[1] == self.r.pout:
            return self.prod_of(t.a[0])
        return None

    def outsym(self, t):
        """t is a symbol on a right-hand side -> (g, out term, index)"""
        if t.tag == "idx" and t.a[0].tag == "f":
            p = self.out_of(t.a[0])
            if p:
                return p[0], t.a[0], t.a[1]
        return None

    def canon_proj(self, base, variant, name):
        if name == self.r.pin and not variant and base.tag == "idx":
            p = self.prod_of(base)
            if p:
                return p[1]
        return None

    # ------------------------------------------------------------ integers
    def ints(self, e, st, b):
        if b.tag == "len" and self.out_of(b.a[0]):
            r = [(ZERO, b, -1)]  # len >= 1
            g = self.out_of(b.a[0])[0]
            if st.facts.get(e.canon(st, e.eq_atom(self.eps_of(g), mk("idx", b.a[0], I(0))))) is TRUE:
                r.append((b, ZERO, 1))  # epsilon stands alone
            return r
        if b.tag == "idx" and b.a[0].tag == "chain":
            coll, k = b.a[0].a
            kb, kk = split(k)
            return [(kb, b, -kk), (b, mk("len", coll), -1)]
        return []

    # ------------------------------------------------------------ atoms
    def grammar_of(self, x):
        o = self.outsym(x)
        if o:
            return o[0]
        if x.tag == "idx" and x.a[0].tag == "enum":
            gf = self.gfield(x.a[0].a[0])
            if gf:
                return gf[0]
        for g in self.grammars:
            return g
        return None

    def assume(self, st, at, v):
        if at.a[0] == "var":
            return
        try:
            self.e.learn(st, at, v)
        except Exception:
            pass

    def nt(self, st, g, x):
        return self.decide3(st, "nts", g, x)

    def decide3(self, st, role, g, x):
        """membership of x in the non-terminals / terminals"""
        f = st.facts.get(self.e.canon(st, mk("at", "in", mk("f", g, getattr(self.r, role)), x)))
        if f is not None:
            return f.a[0]
        if role == "nts":
            f = st.facts.get(self.e.canon(st, mk("at", "haskey", mk("f", g, self.r.prods), x)))
            if f is not None:
                return f.a[0]
        y = x
        if y.tag == "idx" and y.a[0].tag == "enum":
            gf = self.gfield(y.a[0].a[0])
            if gf and gf[0] is g:
                if gf[1] in ("nts", "ts"):
                    return gf[1] == role
            k = y.a[0].a[0]
            if k.tag == "keys":
                gf = self.gfield(k.a[0])
                if gf and gf[0] is g and gf[1] == "prods":
                    return role == "nts"
        # members of known sets
        other = "ts" if role == "nts" else "nts"
        f = st.facts.get(self.e.canon(st, mk("at", "in", mk("f", g, getattr(self.r, other)), x)))
        if f is TRUE:
            return False
        if role == "ts":
            f2 = st.facts.get(self.e.canon(st, mk("at", "haskey", mk("f", g, self.r.prods), x)))
            if f2 is TRUE:
                return False
        if f is FALSE and self.outsym(x):
            return True
        if role == "ts" and self.outsym(x):
            n = self.decide3(st, "nts", g, x)
            if n is not None:
                return not n
        if role == "nts" and x is self.eps_of(g):
            return False
        if role == "ts" and x is self.eps_of(g):
            # epsilon is in a FIRST set only if some right-hand side is epsilon
            for at, v in st.facts.items():
                if v is TRUE and at.a[0] == "in" and at.a[2] is x and at.a[1].tag == "mget" and self.firsts.get(at.a[1].a[0]) is g:
                    return True
                if v is TRUE and at.a[0] == "eq" and any(y is x and self.in_ff(st, g, z) for y, z in ((at.a[1], at.a[2]), (at.a[2], at.a[1]))):
                    return True
        # elements of FIRST and FOLLOW other than epsilon are terminals
        if self.in_ff(st, g, x):
            if role == "nts":
                return False
            # epsilon is in a FIRST set only if it is on a right-hand side
            return True
        # elements of a local vec, wherever they were put in
        if x.tag == "idx" and x.a[0].tag == "vid" and len(self.nest) < 3:
            self.nest.append(x)
            try:
                alts = self.e.P.vec_content(st, x.a[0])
                if alts:
                    rs = set()
                    for assum, v in alts:
                        s2 = st.clone()
                        for at, b in assum:
                            self.assume(s2, at, b)
                        rs.add(self.decide3(s2, role, g, v))
                        if len(rs) > 1 or None in rs:
                            break
                    if len(rs) == 1:
                        return rs.pop()
            finally:
                self.nest.pop()
        # what vanishes and is not epsilon has productions
        if self.outsym(x):
            eps = self.eps_of(g)
            for m, g2 in self.firsts.items():
                if g2 is g and st.facts.get(self.e.canon(st, mk("at", "in", mk("mget", m, x), eps))) is TRUE and st.facts.get(self.e.canon(st, self.e.eq_atom(eps, x))) is FALSE:
                    return role == "nts"
        return None

    def in_ff(self, st, g, x):
        if x.tag == "idx" and x.a[0].tag == "enum":
            s = x.a[0].a[0]
            if s.tag == "mget" and (s.a[0] in self.firsts or s.a[0] in self.follows):
                return True
            if s.tag == "mget" and s.a[0].tag == "map" and getattr(self, "cellmaps", None) is not None:
                return self.cellmaps(st, s.a[0])
        return False

    def ne_eps(self, st, g, x):
        eps = self.eps_of(g)
        f = self.e.decide(st, self.e.eq_atom(eps, x))
        return f is False

    def __call__(self, e, st, atom):
        k = atom.a[0]
        if k == "in":
            S, x = atom.a[1], atom.a[2]
            if x.tag == "idx" and x.a[0].tag == "enum" and x.a[0].a[0] is S:
                return True
            gf = self.gfield(S)
            if gf:
                if gf[1] in ("nts", "ts"):
                    return self.decide3(st, gf[1], gf[0], x)
            if S.tag == "set":
                return self.local_set(st, S, x)
            if S.tag == "mget":
                m, key = S.a
                if x.tag == "f":
                    g = self.firstlike(st, m)
                    if g is not None and x is self.eps_of(g):
                        r = self.first_member(st, g, key, x)
                        if r is None:
                            f = st.facts.get(mk("at", "nullable", key))
                            r = f.a[0] if f is not None else None
                        return r
                if m in self.firsts:
                    g = self.firsts[m]
                    return self.first_member(st, g, key, x)
                if m in self.follows:
                    g = self.follows[m]
                    if x is self.eps_of(g):
                        return False
            return None
        if k == "haskey":
            m, x = atom.a[1], atom.a[2]
            if x.tag == "idx" and x.a[0].tag == "enum" and x.a[0].a[0].tag == "keys" and x.a[0].a[0].a[0] is m:
                return True
            gf = self.gfield(m)
            if gf and gf[1] == "prods":
                return self.decide3(st, "nts", gf[0], x)
            if m in self.firsts:
                g = self.firsts[m]
                a, b = self.decide3(st, "nts", g, x), self.decide3(st, "ts", g, x)
                if a or b or self.outsym(x):
                    return True
                if a is False and b is False:
                    return False
                return None
            if m in self.follows:
                return self.decide3(st, "nts", self.follows[m], x)
            if m.tag == "map":
                return self.local_map(st, m, x)
            if m.tag == "mget" and m.a[0].tag == "map":
                return self.row(st, m, x)
            return None
        if k == "eq":
            a, b = atom.a[1], atom.a[2]
            for x, y in ((a, b), (b, a)):
                gf = self.gfield(x)
                if gf and gf[1] == "eps":
                    r = self.eq_eps(st, gf[0], x, y)
                    if r is not None:
                        return r
            return self.eq_generic(st, a, b)
        return None

    def eq_generic(self, st, a, b):
        # one in a set, the other not
        for at, v in st.facts.items():
            if at.a[0] in ("in", "haskey") and (at.a[2] is a or at.a[2] is b):
                o = b if at.a[2] is a else a
                other = st.facts.get(mk("at", at.a[0], at.a[1], o))
                if other is None and at.a[0] == "in":
                    r = self.e.decide(st, mk("at", "in", at.a[1], o)) if o.tag != "idx" or True else None
                    if r is not None and B(r) is not v:
                        return False
                elif other is not None and other is not v:
                    return False
        return None

    def eq_eps(self, st, g, eps, y):
        """is y the epsilon symbol?"""
        o = self.outsym(y)
        if o:
            n = mk("len", o[1])
            if self.e.le(st, I(2), n):
                return False  # epsilon stands alone
            f = st.facts.get(self.e.canon(st, self.e.eq_atom(eps, mk("idx", o[1], I(0)))))
            if f is FALSE and o[2] is not I(0):
                return False  # (there it would be the first symbol)
        if self.decide3q(st, g, y) is True:
            return False  # non-terminals are not epsilon
        # y in S, eps not in S
        if y.tag == "idx" and y.a[0].tag == "enum":
            S = y.a[0].a[0]
            r = st.facts.get(self.e.canon(st, mk("at", "in", S, eps)))
            if r is FALSE:
                return False
            if S.tag == "mget" and S.a[0] in self.follows:
                return False
            if S.tag == "mget" and S.a[0] in self.firsts:
                rr = self.first_member(st, g, S.a[1], eps)
                if rr is False:
                    return False
        return None

    def decide3q(self, st, g, y):
        f = st.facts.get(self.e.canon(st, mk("at", "in", mk("f", g, self.r.nts), y)))
        if f is not None:
            return f.a[0]
        f = st.facts.get(self.e.canon(st, mk("at", "haskey", mk("f", g, self.r.prods), y)))
        if f is not None:
            return f.a[0]
        if y.tag == "idx" and y.a[0].tag == "enum":
            gf = self.gfield(y.a[0].a[0])
            if gf and gf[1] == "nts":
                return True
            k = y.a[0].a[0]
            if k.tag == "keys":
                gf = self.gfield(k.a[0])
                if gf and gf[1] == "prods":
                    return True
        return None

    def first_member(self, st, g, key, x):
        """x in FIRST(key) for a complete FIRST map"""
        eps = self.eps_of(g)
        if x is eps:
            if key is eps:
                return True
            t = self.decide3(st, "ts", g, key)
            n = self.decide3(st, "nts", g, key)
            if t is True or n is False and self.outsym(key):
                d = self.e.decide(st, self.e.eq_atom(eps, key))
                if d is not None:
                    return d
        return None

    def nullable(self, e, st, x):
        """can x vanish, according to the current facts?"""
        for m, g in self.firsts.items():
            r = e.decide(st, mk("at", "in", mk("mget", m, x), self.eps_of(g)))
            if r is not None:
                return r
        for at, v in st.facts.items():
            if at.a[0] == "in" and at.a[1].tag == "mget" and at.a[1].a[1] is x:
                gf = self.gfield(at.a[2])
                if gf and gf[1] == "eps" and not (at.a[1].a[0] in self.follows):
                    return v.a[0]
        for g in self.grammars:
            n = self.decide3(st, "nts", g, x)
            if n is False:
                d = e.decide(st, e.eq_atom(self.eps_of(g), x))
                if d is not None:
                    return d
        return None

    # ------------------------------------------------------------ local collections
    def local_set(self, st, S, x):
        alts = self.e.P.content(st, S)
        if alts is not None and not alts:
            return False
        return None

    def firstlike(self, st, m):
        """the grammar whose FIRST sets this map holds (C04 verifies the contents of such maps)"""
        if m in self.firsts:
            return self.firsts[m]
        if m.tag != "map":
            return None
        d = self.domain(st, m)
        if d is None:
            return None
        rs = {c[1] for c in d[0] if c[0] == "g"}
        if {"nts", "ts"} <= rs:
            return [c[2] for c in d[0] if c[0] == "g"][0]
        return None

    def local_map(self, st, m, x):
        d = self.domain(st, m)
        if d is None:
            return None
        classes, exact = d
        und = False
        for c in classes:
            r = self.in_class(st, c, x)
            if r is True:
                return True
            if r is None:
                und = True
        if exact and not und:
            return False
        roles = {c[1] for c in classes if c[0] == "g"}
        if {"nts", "ts"} <= roles and self.outsym(x):
            return True
        return None

    def row(self, st, m, x):
        """is x a key of a map that is itself the value of a local map?"""
        rows = self.rows(st, m.a[0])
        if not rows:
            return None
        rs = []
        for classes, exact in rows[0]:
            r = False if exact else None
            for c in classes:
                q = self.in_class(st, c, x)
                if q is True:
                    r = True
                    break
                if q is None:
                    r = None
            if r is None and {"nts", "ts"} <= {c[1] for c in classes if c[0] == "g"} and self.outsym(x):
                r = True
            rs.append(r)
        if rs and all(r is True for r in rs):
            return True
        if rs and all(r is False for r in rs) and not rows[1]:
            return False
        return None

    def rows(self, st, T_):
        """([(key classes, exact)], further keys?) of the maps stored in the local map T_"""
        ck = (st.log, "rows", T_)
        if ck in self.dom_cache:
            return self.dom_cache[ck]
        self.dom_cache[ck] = None
        e = self.e
        out = []
        more = [False]
        seen = set()

        def scan(evs, base):
            pre = base
            for ev in evs:
                k = ev.a[0]
                if k == "mapins" and ev.a[1] is T_:
                    if ev.a[3].tag != "map":
                        return False
                    s2 = st.clone()
                    s2.log = pre
                    d = self.domain(s2, ev.a[3])
                    if d is None:
                        return False
                    out.append(d)
                elif k == "mapins" and ev.a[1].tag == "mget" and ev.a[1].a[0] is T_:
                    more[0] = True
                elif k in ("setrm", "setclr", "setmut", "store", "unkw", "copyof") and any(x is T_ or x is T_.a[0] or isinstance(x, T) and x.tag == "mget" and x.a[0] is T_ for x in ev.a[1:]):
                    return False
                elif k == "L":
                    inst = e.insts.get(ev.a[1])
                    if inst is None:
                        # the loop being run: it only adds, as far as is known
                        if self.e.P.cur_touches(st, ev.a[1], T_):
                            return False
                        if self.e.P.cur_touches(st, ev.a[1], mk("rowsof", T_)):
                            more[0] = True
                    elif ev.a[1] not in seen:
                        seen.add(ev.a[1])
                        for i, w in [(i, w) for i, w, j, s in inst.edges] + [(x[0], x[1]) for x in inst.exits]:
                            if not scan(w, inst.heads[i].log if i < len(inst.heads) else inst.entry.log):
                                return False
                pre = mk("cons", pre, ev)
            return True

        if scan(e.events(st.log), NIL):
            self.dom_cache[ck] = (out, more[0])
        return self.dom_cache[ck]

    def in_class(self, st, c, x):
        if c[0] == "g":
            return self.decide3(st, c[1], c[2], x)
        if c[0] == "el":
            if x.tag == "idx" and x.a[0] is c[1]:
                return True
            return None
        if c[0] == "any":
            return None
        if c[0] == "one":
            if c[1] is x:
                return True
            return self.e.decide(st, self.e.eq_atom(c[1], x))
        return None

    def domain(self, st, m):
        """key classes of a local map: ([classes], exact) from the loops that fill it completely"""
        ck = (st.log, m)
        if ck in self.dom_cache:
            return self.dom_cache[ck]
        e = self.e
        log = st.log
        classes = []
        exact = True
        found = False
        while log is not NIL:
            ev = log.a[1]
            k = ev.a[0]
            if k == "new" and ev.a[1] is m.a[0]:
                found = True
                break
            if k == "mapins" and ev.a[1] is m:
                classes.append(("one", ev.a[2]))
            elif k in ("setrm", "setclr", "setmut") and ev.a[1] is m:
                classes = []
                exact = False
                break
            elif k == "copyof" and ev.a[1] is m.a[0]:
                s2 = st.clone()
                s2.log = log.a[0]
                d = self.domain(s2, ev.a[2]) if ev.a[2].tag == "map" else None
                if d is None:
                    exact = False
                else:
                    classes += d[0]
                    exact = exact and d[1]
                found = True
                break
            elif k == "L":
                inst = e.insts.get(ev.a[1])
                if inst is None:
                    exact = exact and not self.e.P.cur_touches(st, ev.a[1], m)
                elif e.P.inst_touches(inst, m):
                    cs = loop_classes(self, st, inst, m)
                    if cs is None:
                        exact = False
                    else:
                        classes += cs
            log = log.a[0]
        r = (classes, exact and found) if (found or classes) else None
        self.dom_cache[ck] = r
        return r


def loop_classes(th, st, inst, m):
    """key classes added by one loop (complete iteration over known collections)"""
    import loops
    e = th.e
    out = []
    known = True
    fl = loops.flat(e, inst)
    allw = [w for _, w, _, _ in fl.edges] + [x[1] for x in fl.exits if x[2] == "exit"]
    covered = set()
    for C in loops.visited(e, inst):
        cov = loops.coverage(e, inst, C)
        if not cov.complete:
            continue
        cls = None
        for kind, i, w, at, tgt in cov.words:
            if kind == "exit" and tgt[1] != "exit":
                continue
            keys = [ev.a[2] for ev in w if ev.a[0] == "mapins" and ev.a[1] is m]
            alts = [ev.a[3] for ev in w if ev.a[0] == "alt" and ev.a[1] is C and ev.a[2] is at]
            c = None
            for key in keys:
                if key in alts:
                    c = C
                elif key.tag == "idx" and key.a[1] is at:
                    c = key.a[0]
            if c is not None and c is not C:
                # the positions of C correspond to those of c: is all of c covered?
                if not all(e.le(inst.entry, mk("len", c), h) for h in cov.his):
                    c = None
            if c is None or (cls is not None and cls is not c):
                cls = False
                break
            cls = c
        if cls:
            cs = class_of(th, inst.entry, cls)
            if cs is None:
                continue
            out += cs
            covered |= {w for _, _, w, _, _ in cov.words}
    for w in allw:
        if w not in covered and any(ev.a[0] == "mapins" and ev.a[1] is m for ev in w):
            known = False
        for ev in w:
            if ev.a[0] == "L" and ev.a[1] in e.insts and e.P.inst_touches(e.insts[ev.a[1]], m):
                known = False
    return out if known else (out + [("any", None)])


def class_of(th, st, c):
    if c.tag == "enum":
        s = c.a[0]
        gf = th.gfield(s)
        if gf and gf[1] in ("nts", "ts"):
            return [("g", gf[1], gf[0])]
        if s.tag == "keys":
            gf = th.gfield(s.a[0])
            if gf and gf[1] == "prods":
                return [("g", "nts", gf[0])]
            if s.a[0].tag == "map":
                d = th.domain(st, s.a[0])
                return d[0] + ([] if d[1] else [("any", None)]) if d else None
    return [("el", c)]
