"""C08-C14: the recursive-descent parser.

The recursion header (the function every recursive parse goes through) is analysed once, with calls to
itself kept opaque.  What a call promises (label, start, kind of result) is assumed of the inner calls and
proved of every outcome, so the argument is an induction over the recursion.  Inside, three nested loops
are read off the solved loop automata by their effects, not by their text: the loop over the candidate
productions, the loop that recognises one right-hand side on a stack, and the loop(s) that pop that stack
when a symbol fails."""
from fractions import Fraction

from base import *
import loops
import quant

HOLE = mk("sym", "HOLE")
# what termination (C20) rests on
TERM = {
    "the symbol parsed is the next one of the right-hand side",
    "the symbol starts where the previous one ended",
    "inner symbols are parsed on the same input",
    "symbols are appended",
    "the stack is only pushed and popped",
    "candidates are the table row",
    "only terminals and epsilon are leaves",
    "success needs every symbol of the right-hand side",
    "a terminal leaf consumes one token",
    "a result ends where its last symbol ends",
    "a recognised symbol ends where its tree ends",
    "a recognised symbol remembers where it started",
    "the position follows the last recognised symbol",
    "a failed symbol is followed by a successful retry or by failure",
    "the latest symbol is popped",
    "a symbol is put back where it was",
    "a leaf has no alternatives",
    "a retry resumes the alternatives left",
    "untried alternatives are kept with the symbol",
    "the alternatives not tried yet stay available",
    "recognised symbols are built from their parts",
    "results are built from their parts",
    "at most two passes",
    "outcomes of a parse",
}
ALL = ("C08", "C09", "C11", "C12", "C13", "C14")


class Exotic(Exception):
    pass


# operations that leave a list of recognised parts out of step with its right-hand side
SCRAMBLE = {"retain", "retain_mut", "rotate_left", "rotate_right", "dedup", "dedup_by", "dedup_by_key", "sort", "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key"}


class Dropped(Exotic):
    """a list is filled from only some of the elements gone through"""


# ---------------------------------------------------------------------- linear arithmetic
class Lin:
    __slots__ = ("c", "k")

    def __init__(self, c=None, k=0):
        self.c = {t: v for t, v in (c or {}).items() if v}
        self.k = Fraction(k)

    def __add__(self, o):
        c = dict(self.c)
        for t, v in o.c.items():
            c[t] = c.get(t, 0) + v
        return Lin(c, self.k + o.k)

    def scale(self, f):
        return Lin({t: v * f for t, v in self.c.items()}, self.k * f)

    def __sub__(self, o):
        return self + o.scale(-1)

    def __repr__(self):
        return " + ".join(["%s*%s" % (v, show(t)) for t, v in self.c.items()] + [str(self.k)])


def lin_of(t):
    if isinstance(t, Lin):
        return t
    b, k = split(t)
    if b is ZERO:
        return Lin({}, k)
    if b.tag == "sub":
        return lin_of(b.a[0]) - lin_of(b.a[1]) + Lin({}, k)
    if b.tag == "sum":
        return lin_of(b.a[0]) + lin_of(b.a[1]) + Lin({}, k)
    return Lin({b: Fraction(1)}, k)


class Eqs:
    """linear equalities, kept in echelon form"""

    def __init__(self):
        self.rows = []  # (pivot, Lin) meaning Lin = 0

    def add(self, l):
        l = self.red(l)
        if not l.c:
            return
        p = max(l.c, key=lambda t: t.n)
        l = l.scale(Fraction(1) / l.c[p])
        self.rows = [(q, r - l.scale(r.c[p]) if p in r.c else r) for q, r in self.rows]
        self.rows.append((p, l))

    def red(self, l):
        for p, r in self.rows:
            if p in l.c:
                l = l - r.scale(l.c[p])
        return l

    def zero(self, l):
        l = self.red(l)
        return not l.c and l.k == 0


# ---------------------------------------------------------------------- component paths
def is_path(ty, name):
    return isinstance(ty, dict) and ty.get("k") == "adt" and ty.get("p", "").split("::")[-1] == name


def inner(v):
    """names of the type parameters that stand inside the types of the fields of v"""
    out, todo = set(), [x for f in v["fs"] for x in f["t"].get("a", [])]
    while todo:
        t = todo.pop()
        if not isinstance(t, dict):
            continue
        if t.get("k") == "param":
            out.add(t.get("s"))
        for x in t.values():
            todo.extend(x if isinstance(x, list) else [x])
    return out


class Comps:
    """where the parts of a value of a local type are: variant -> role -> [(variant, field)]"""

    def __init__(self, prog, adt):
        self.prog = prog
        self.adt = adt
        self.vs = {}
        a = prog.adts[adt]
        single = a["kind"] != "Enum"
        for v in a["vs"]:
            r = {}
            ints = []
            self.walk(v, None if single else v["n"], (), r, ints, 0)
            for n, p in ints:
                l = n.lower()
                if any(x in l for x in ("init", "start", "begin", "first", "from")):
                    r.setdefault("init", p)
                elif any(x in l for x in ("final", "end", "next", "last", "after", "to")):
                    r.setdefault("final", p)
                else:
                    r.setdefault("final" if len(ints) == 1 else "?" + n, p)
            self.vs["" if single else v["n"]] = r
        self.kind = {}
        for n, r in self.vs.items():
            k = "ok" if "node" in r else "err" if "failed" in r else "fix" if "fixed" in r else None
            self.kind[n] = k
        self.by = {k: n for n, k in self.kind.items() if k}

    def walk(self, v, vn, pre, r, ints, d):
        for f in v["fs"]:
            t = f["t"]
            p = pre + ((vn, f["n"]),)
            if t.get("k") == "int":
                ints.append((f["n"], p))
            elif is_path(t, "AbstractSyntaxNode"):
                r.setdefault("node", p)
            elif is_path(t, "FailedSymbol"):
                r.setdefault("failed", p)
            elif is_path(t, "FixedSymbol"):
                r.setdefault("fixed", p)
            elif is_path(t, "Option") or is_path(t, "IntoIter") or t.get("k") == "param" and t.get("s") not in inner(v):
                r.setdefault("iter", p)
                r["iter_opt"] = is_path(t, "Option")
            elif is_path(t, "Box"):
                raise Exotic("boxed component")
            elif t.get("k") == "adt" and t.get("local") and d < 4:
                a = self.prog.adts.get(t["p"])
                if a is None or a["kind"] == "Enum":
                    continue
                self.walk(a["vs"][0], None, p, r, ints, d + 1)
            elif t.get("k") == "tuple" and d < 4:
                for i, x in enumerate(t.get("ts", [])):
                    self.walk({"fs": [{"n": str(i), "t": x}]}, None, p, r, ints, d + 1)

    def get(self, val, variant, role):
        p = self.vs[variant].get(role)
        if p is None:
            return None
        for v, f in p:
            val = proj(val, v, f)
        return val

    def roles(self, variant):
        return [r for r in self.vs[variant] if r != "iter_opt"]


def label_of(node):
    return proj(proj(node, None, "token"), None, "t_type")


# ---------------------------------------------------------------------- linear paths
def reach_edges(inst, h):
    """edges that can be taken before the loop is left from head h"""
    ok = {h}
    ch = True
    while ch:
        ch = False
        for i, w, j, s in inst.edges:
            if j in ok and i not in ok:
                ok.add(i)
                ch = True
    return [k for k, (i, w, j, s) in enumerate(inst.edges) if j in ok]


class Path:
    """events in order, loops followed by one way of leaving them; `m`: what the counters of the loops left
    stand for afterwards"""

    def __init__(self, ev, m, st):
        self.ev, self.m, self.st = ev, m, st
        self.fa0 = None
        self.eqs = None


def linear(eng, word, cap=600):
    """[(events, m)]"""
    outs = [((), {})]
    k = 0
    word = list(word)
    while k < len(word):
        ev = word[k]
        if ev.a[0] == "L":
            inst = eng.insts.get(ev.a[1])
            nx = word[k + 1] if k + 1 < len(word) else None
            if nx is not None and nx.a[0] == "X" and nx.a[1] is ev.a[1] and inst is not None:
                gid = nx.a[2].a[0]
                new = []
                for ix in inst.groups[gid]:
                    h, w, kind, st = inst.exits[ix]
                    for pre, m in arrivals(eng, inst, h):
                        for mid, m2 in linear(eng, [subst(e, m) for e in w], cap):
                            mm = {p: subst(v, m2) for p, v in m.items()}
                            mm.update({p: v for p, v in m2.items() if p not in mm})
                            new.append((pre, mid, mm))
                res = []
                for o, m in outs:
                    L = ev
                    for pre, mid, mm in new:
                        seq = [subst_l(L, m), nx] + [subst_l(e, m) for e in pre] + [subst_l(e, m) for e in mid]
                        mt = dict(m)
                        for p, v in mm.items():
                            mt[p] = subst(v, m)
                        res.append((o + tuple(seq), mt))
                outs = res
                k += 2
            else:
                outs = [(o + (ev,) + ((mk("ev", "H", ev.a[1], I(0)),) if inst is not None else ()), m) for o, m in outs]
                k += 1
        else:
            outs = [(o + (subst_l(ev, m),), m) for o, m in outs]
            k += 1
        if len(outs) > cap:
            raise OverflowError("too many paths")
    return outs


def subst_l(ev, m):
    return subst(ev, m) if m and ev.a[0] not in ("L", "X", "H") else ev


def arrivals(eng, inst, h, depth=0):
    """ways to have arrived at head h, as far as they are determined: [(events, m)]"""
    mark = mk("ev", "H", inst.t, I(h))
    edges = [(i, w, s) for i, w, j, s in inst.edges if j == h]
    if h == 0 or not edges or any(i == h for i, w, s in edges) or depth > 3:
        return [((mark,), {})]
    out = []
    for i, w, s in edges:
        for pre, m0 in arrivals(eng, inst, i, depth + 1):
            for mid, m2 in linear(eng, [subst_l(e, m0) for e in w]):
                m = dict(m0)
                for p, v in s.items():
                    if v is not p:
                        m[p] = subst(subst(v, m0), m2)
                for p, v in m2.items():
                    m.setdefault(p, v)
                out.append((pre + mid, m))
    return out


# ---------------------------------------------------------------------- sequences
class Seg:
    """n elements; element i is one of `alts` [(conds, value)] with HOLE = base[a*i+b]"""

    def __init__(self, n, base, a, b, alts, inst=None):
        self.n, self.base, self.a, self.b, self.alts, self.inst = n, base, a, b, alts, inst


# ---------------------------------------------------------------------- the model
class Model:
    noupper = False  # while bounds of counters are being established

    def __init__(self, prog, rep, pid):
        self.prog, self.rep, self.pid = prog, rep, pid
        self.r = roles(prog, rep)
        self.seen = set()
        self.lc = {}

    # -- reporting
    def ob(self, tags, cond, rule, where, detail="", path=None):
        if self.pid not in tags and not (self.pid == "C20" and rule in TERM):
            return cond
        k = (rule, where, detail if not cond else "")
        if k in self.seen:
            return cond
        self.seen.add(k)
        if cond:
            self.rep.ok(rule, where)
        else:
            self.rep.bad(rule, where, detail, self.trace(path))
        return cond

    def unsure(self, tags, rule, where, detail):
        if self.pid in tags or self.pid == "C20" and rule in TERM:
            k = (rule, where, detail)
            if k not in self.seen:
                self.seen.add(k)
                self.rep.unsure(rule, where, detail)

    def exotic(self, tags, rule, where, x, p=None):
        if isinstance(x, Dropped):
            self.ob(tags, False, rule, where, str(x), p)
        else:
            self.unsure(tags, rule, where, str(x))

    def trace(self, path):
        if path is None:
            return []
        return [show(e)[:300] for e in path.ev if e.a[0] not in ("H",)][:60]

    def place(self, inst):
        b = self.body_of(inst.L.fid.a[2])
        sp = b.blocks[inst.L.header].get("sp") or b.span
        try:
            lines = [bl["sp"][1] for i, bl in enumerate(b.blocks) if i in inst.L.body and bl.get("sp") and bl["sp"][0] == b.span[0] and bl["sp"][1] >= b.span[1]]
            ln = min(lines) if lines else sp[1]
        except Exception:
            ln = sp[1]
        return "loop in %s (%s:%s)" % (b.p.split("::")[-1] if "closure" not in b.p else b.p.split("::", 3)[-1], b.span[0], ln)

    def body_of(self, u):
        for b in list(self.prog.local_bodies()) + list(getattr(self.prog, "model_fns", {}).values()):
            if b.u == u or b.key == u or b.key == (u, -1):
                return b
        raise Exotic("no body")

    # -- which function is the recursion header
    def find_header(self):
        prog = self.prog
        cand = []
        for b in prog.local_bodies():
            if b.j["promoted"] != -1 or b.kind == "Closure":
                continue
            st = b.j.get("self_ty") or {}
            if not st.get("p", "").endswith("RecursiveDescentParser"):
                continue
            rt = b.locals[0]
            if rt.get("k") != "adt" or rt["p"] not in prog.adts or prog.adts[rt["p"]]["kind"] != "Enum":
                continue
            if rt["p"].split("::")[-1] == "ParseResult":
                continue
            try:
                c = Comps(prog, rt["p"])
            except Exotic:
                continue
            if set(c.kind.values()) != {"ok", "err", "fix"}:
                continue
            pr = self.params(b)
            if pr is None:
                continue
            if b.u in self.reach(b):
                cand.append((b, c, pr))
        if not cand:
            raise Undecided("no recursive parsing function with the expected shape")
        entry = method(prog, "RecursiveDescentParser", "parse_from_tokens")
        direct = self.callees(entry)
        c1 = [c for c in cand if c[0].u in direct] or [c for c in cand if c[0].u in self.reach(entry)]
        if len(c1) > 1:
            # the one all the others' recursion goes through
            c1 = [c for c in c1 if all(d[0].u not in self.reach(d[0], {c[0].u}) for d in cand)] or c1
        return c1[0]

    def callees(self, b):
        c = self.lc.get(b.u)
        if c is None:
            c = set()
            for bl in b.blocks:
                if bl.get("cl"):
                    continue
                t = bl["t"]
                if t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]:
                    f = t[1]["fn"]
                    c.add(f.get("r") or f.get("u"))
                for s in bl["s"]:
                    c |= clos(s)
            self.lc[b.u] = c
        return c

    def reach(self, b, without=()):
        by = self.__dict__.setdefault("by_u", {x.u: x for x in self.prog.local_bodies() if x.j["promoted"] == -1})
        out, work = set(), [b]
        while work:
            x = work.pop()
            for u in self.callees(x):
                if u not in out and u not in without:
                    out.add(u)
                    if u in by:
                        work.append(by[u])
        return out

    def params(self, b):
        pr = {}
        for i in range(1, b.argc + 1):
            t = b.locals[i]
            s = strip_ref(t)
            if s.get("k") == "adt" and s["p"].endswith("RecursiveDescentParser"):
                k = "self"
            elif s.get("k") == "param":
                k = "sym"
            elif s.get("k") == "int":
                k = "pos"
            elif s.get("k") == "bool":
                k = "flag"
            elif mentions_adt(s, self.r.token):
                k = "tokens"
            elif s.get("k") == "adt" and ("Vec" in str(s) or "IntoIter" in str(s)):
                k = "cands"
            else:
                return None
            if k in pr:
                return None
            pr[k] = i - 1
        return pr if set(pr) == {"self", "sym", "pos", "flag", "tokens", "cands"} else None

    # -- analysis of the header
    def load(self):
        self.H, self.rc, self.pr = self.find_header()

        def setup(e, args):
            e.cut = {self.H.u}
            e.headpos = True
        self.eng, args, self.outs = analyse(self.prog, self.H, self.rep, None, 1500000, setup)
        a = {k: args[i] for k, i in self.pr.items()}
        self.SELF, self.SYM, self.POS, self.FLAG, self.TOK, self.PO = a["self"], a["sym"], a["pos"], a["flag"], a["tokens"], a["cands"]
        self.common()
        self.at_flag = [at for at in (mk("at", "b", self.FLAG),)]

    def common(self):
        prog = self.prog
        fields = prog.adts[self.r.parser]["vs"][0]["fs"]
        gf = [f["n"] for f in fields if mentions_adt(f["t"], self.r.gpath)]
        tf = [f["n"] for f in fields if mentions_adt(f["t"], self.r.tpath)]
        sf = [f["n"] for f in fields if f["t"].get("k") == "adt" and f["t"]["p"].endswith("Option")]
        if not (len(gf) == len(tf) == len(sf) == 1):
            raise Undecided("fields of the parser")
        G = mk("f", self.SELF, gf[0])
        self.G = G
        self.SOLVER = mk("f", self.SELF, sf[0])
        self.EPS, self.INI = mk("f", G, self.r.eps), mk("f", G, self.r.ini)
        self.NTS, self.TS, self.PRODS = mk("f", G, self.r.nts), mk("f", G, self.r.ts), mk("f", G, self.r.prods)
        self.TABLE = mk("f", mk("f", self.SELF, tf[0]), self.r.table)

    # -- reading rc results
    def rcs_of(self, t):
        for x in subterms(t):
            if x.tag == "sym" and x.a and x.a[0] == "rc":
                yield x

    # -- states and arithmetic
    def veclen(self, st, vid):
        for v in list(st.mem.values()) + list(st.ghost.values()):
            for x in subterms(v):
                if x.tag == "vec" and x.a[0] is vid:
                    return x.a[1]
        if st.ret is not None:
            for x in subterms(st.ret):
                if x.tag == "vec" and x.a[0] is vid:
                    return x.a[1]
        return None

    def eqs(self, p):
        """linear equalities that hold at the end of the path"""
        if p.eqs is not None:
            return p.eqs
        E = p.eqs = Eqs()
        eng = self.eng
        st = p.st.clone()
        for ev in p.ev:
            if ev.a[0] == "asm" and ev.a[1].a[0] in ("lt", "ieq"):
                quant.add_fact(eng, st, ev.a[1], ev.a[2].a[0])
        p.sti = st
        for (a, b), k in st.ints.items():
            k2 = st.ints.get((b, a))
            if k2 is not None and k2 == -k:
                E.add(lin_of(a) - lin_of(b) - Lin({}, k))
        cur = {}
        for k, ev in enumerate(p.ev):
            if ev.a[0] == "H":
                inst = eng.insts.get(ev.a[1])
                if inst is not None:
                    for l in self.relations(inst, ev.a[2].a[0], p.ctx, self.kinds_at(p, k, inst)):
                        E.add(self.sublin(l, {}))
                    cur[ev.a[1]] = inst
        for ev in p.ev:
            if ev.a[0] == "asm":
                at, v = ev.a[1], ev.a[2]
                if at.a[0] == "ieq" and v is TRUE:
                    E.add(lin_of(at.a[1]) - lin_of(at.a[2]))
                elif at.a[0] == "lt":
                    a, b = at.a[1], at.a[2]
                    if v is FALSE and self.leq(p, a, b):
                        E.add(lin_of(a) - lin_of(b))
                    elif v is TRUE and self.leq(p, b, add(a, 1)):
                        E.add(lin_of(add(a, 1)) - lin_of(b))
        # counting loops left because the counter reached its bound
        for ev in p.ev:
            if ev.a[0] == "asm" and ev.a[1].a[0] == "lt" and ev.a[2] is FALSE:
                a, b = ev.a[1].a[1], ev.a[1].a[2]
                if a.tag == "phi":
                    for inst in cur.values():
                        if a in inst.inits and self.counts_to(inst, a, b) and self.leq(p, inst.inits[a], b):
                            E.add(lin_of(a) - lin_of(b))
                if b.tag == "phi":
                    for inst in cur.values():
                        if b in inst.inits and self.counts_down(inst, b, a):
                            if self.refuted(p, [lin_of(inst.inits[b]) - lin_of(a) + Lin({}, 1)]):
                                E.add(lin_of(b) - lin_of(a))
                            p.__dict__.pop("_ineqs", None)
        return E

    def sublin(self, l, m):
        return l

    # -- integer reasoning: conjunctions of linear inequalities, refuted by Fourier-Motzkin elimination
    def ineqs(self, p):
        """forms that are <= 0 at the end of the path"""
        c = p.__dict__.get("_ineqs")
        if c is not None:
            return c
        E = self.eqs(p)
        out, dis = [], []
        for (a, b), k in p.sti.ints.items():
            out.append(lin_of(a) - lin_of(b) - Lin({}, k))
        for at, v in self.facts(p, None):
            if at.a[0] == "lt":
                a, b = lin_of(at.a[1]), lin_of(at.a[2])
                out.append(a - b + Lin({}, 1) if v in (True, TRUE) else b - a)
            elif at.a[0] == "ieq" and v in (False, FALSE):
                dis.append((lin_of(at.a[1]) - lin_of(at.a[2]), at.a[1], at.a[2]))
        for ev in p.ev:
            if ev.a[0] == "H":
                inst = self.eng.insts.get(ev.a[1])
                if inst is not None:
                    out += self.bounds_of(inst, ev.a[2].a[0])
        seen, res = set(), []
        for l in out:
            l = E.red(l)
            k = (tuple(sorted(((t.n, v) for t, v in l.c.items()))), l.k)
            if (l.c or l.k > 0) and k not in seen:
                seen.add(k)
                res.append(l)
        p._ineqs = res
        for l, a, b in dis:
            l = E.red(l)
            if not self.noupper:
                up = [sg for x, y, sg in ((a, b, 1), (b, a, -1)) if x.tag == "phi" and self.upper(p, x, y)]
                if up:
                    res.append(l.scale(up[0]) + Lin({}, 1))
                    continue
            if self.refuted(p, [l.scale(-1) + Lin({}, 1)]):
                res.append(l + Lin({}, 1))
            elif self.refuted(p, [l + Lin({}, 1)]):
                res.append(l.scale(-1) + Lin({}, 1))
        return res

    def bounds_of(self, inst, h):
        """counters that only grow (shrink) stay above (below) their first value"""
        c = inst.__dict__.setdefault("_bounds", {})
        if h in c:
            return c[h]
        out = c[h] = []
        es = reach_edges(inst, h)
        for p in inst.inits:
            if p.a[2] != "i":
                continue
            ds = []
            for k in es:
                b, d = split(inst.edges[k][3].get(p, p))
                ds.append(d if b is p else None)
            if None in ds:
                continue
            if all(d >= 0 for d in ds):
                out.append(lin_of(inst.inits[p]) - lin_of(p))
            elif all(d <= 0 for d in ds):
                out.append(lin_of(p) - lin_of(inst.inits[p]))
        return out

    def refuted(self, p, extra=()):
        """are the inequalities of the path, together with `extra`, contradictory?"""
        E = self.eqs(p)
        sys_ = list(self.ineqs(p)) + [E.red(x) for x in extra]
        if any(not l.c and l.k > 0 for l in sys_):
            return True
        # only what is connected to the question matters
        if extra:
            ts = set()
            for x in extra:
                ts |= set(E.red(x).c)
            ch = True
            while ch:
                ch = False
                for l in sys_:
                    if ts & set(l.c) and not set(l.c) <= ts:
                        ts |= set(l.c)
                        ch = True
            sys_ = [l for l in sys_ if set(l.c) <= ts]
        ts = set()
        for l in sys_:
            ts |= set(l.c)
        for t in ts:
            sys_.append(Lin({t: Fraction(-1)}))
        while ts:
            best = None
            for t in ts:
                ps = sum(1 for l in sys_ if l.c.get(t, 0) > 0)
                ns = sum(1 for l in sys_ if l.c.get(t, 0) < 0)
                if best is None or ps * ns - ps - ns < best[0]:
                    best = (ps * ns - ps - ns, t)
            t = best[1]
            ts.discard(t)
            pos = [l for l in sys_ if l.c.get(t, 0) > 0]
            neg = [l for l in sys_ if l.c.get(t, 0) < 0]
            new, seen = [l for l in sys_ if t not in l.c], set()
            for a in pos:
                for b in neg:
                    l = a.scale(1 / a.c[t]) + b.scale(-1 / b.c[t])
                    if not l.c:
                        if l.k > 0:
                            return True
                        continue
                    k = (tuple(sorted((x.n, v) for x, v in l.c.items())), l.k)
                    if k not in seen:
                        seen.add(k)
                        new.append(l)
            sys_ = new
            if len(sys_) > 400:
                return False
        return any(not l.c and l.k > 0 for l in sys_)

    def counts_to(self, inst, phi, b):
        for i, w, j, s in inst.edges:
            if s.get(phi, phi) is not add(phi, 1):
                return False
            if not any(ev.a[0] == "asm" and ev.a[2] is TRUE and ev.a[1].a[0] == "lt" and ev.a[1].a[1] is phi and ev.a[1].a[2] is b for ev in w):
                return False
        return bool(inst.edges)

    def counts_down(self, inst, phi, b):
        for i, w, j, s in inst.edges:
            if s.get(phi, phi) is not add(phi, -1):
                return False
            if not any(ev.a[0] == "asm" and ev.a[2] is TRUE and ev.a[1].a[0] == "lt" and ev.a[1].a[1] is b and ev.a[1].a[2] is phi for ev in w):
                return False
        return bool(inst.edges) and not any(x in b.syms for x in inst.inits)

    def leq(self, p, a, b):
        st = p.sti
        if self.eng.le(st, a, b):
            return True
        E = p.eqs
        forms = lambda t: [t] + self.forms(E, t, p)
        for x in forms(a):
            for y in forms(b):
                if self.eng.le(st, x, y):
                    return True
        return self.upper(p, a, b)

    def upper(self, p, a, b, d=0):
        """a counter never passes the bound: it starts below it, and no way round the loop takes it past"""
        if a is I(0) or a is b:
            return True
        if a.tag != "phi" or d > 3:
            return False
        insts = []
        for ev in p.ev:
            if ev.a[0] in ("L", "H", "X"):
                x = self.eng.insts.get(ev.a[1])
                if x is not None and a in x.inits and x not in insts:
                    insts.append(x)
        if p.of is not None and a in p.of.inits and p.of not in insts:
            insts.append(p.of)
        if not insts:
            own = self.eng.__dict__.setdefault("_owner", {})
            if a not in own:
                own[a] = [x for x in self.eng.insts.values() if x is not None and a in x.inits]
            insts = own[a]
        return bool(insts) and all(self.upper_in(p, inst, a, b, d) for inst in insts)

    def upper_in(self, p, inst, a, b, d):
        C = p.ctx
        if any(x in inst.inits for x in b.syms):
            return False
        c = inst.__dict__.setdefault("_upper", {})
        key = (a, b, ckey(C))
        if key not in c:
            c[key] = False
            good = True
            keep, self.noupper = self.noupper, True
            for n in range(len(inst.edges)):
                step = inst.edges[n][3].get(a, a)
                if step is a:
                    continue
                for q in self.ways(inst, n, C, None):
                    ne = any(at.a[0] == "ieq" and v in (False, FALSE) and set(at.a[1:]) == {a, b} for at, v in self.facts(q, None))
                    if not self.refuted(q, [lin_of(b) - lin_of(subst(step, q.m)) + Lin({}, 1), lin_of(a) - lin_of(b) + Lin({}, 1 if ne else 0)]):
                        good = False
                        break
                if not good:
                    break
            self.noupper = keep
            c[key] = good
        return c[key] and self.upper(p, inst.inits[a], b, d + 1)

    def forms(self, E, t, p):
        """other base+k forms equal to t"""
        out = []
        l = E.red(lin_of(t))
        for q, r in E.rows:
            for x in list(r.c) + [q]:
                d = E.red(lin_of(x) - l)
                if not d.c and d.k.denominator == 1:
                    o = add(x, -int(d.k))
                    if o not in out and o is not t:
                        out.append(o)
        if not l.c and l.k.denominator == 1:
            out.append(I(int(l.k)))
        elif len(l.c) == 1:
            (x, c), = l.c.items()
            if c == 1 and l.k.denominator == 1:
                out.append(add(x, int(l.k)))
        return out

    def kinds_at(self, p, k, inst):
        """kinds the elements of the stack can have while the loop runs, None if not restricted"""
        C = p.ctx
        if C is None or C.ec is None or self.touches(inst, C.S):
            return None
        fa = self.foralls(p, k)
        ks = set(C.kinds or C.ec.kind)
        if fa is not None:
            ks &= fa
        return frozenset(ks) if ks != set(C.ec.kind) else None

    def ways(self, inst, n, C, fa):
        """feasible paths of one way round the loop, given the kinds of the elements"""
        c = inst.__dict__.setdefault("_ways", {})
        key = (n, ckey(C), fa, self.noupper)
        if key not in c:
            i, w, j, steps = inst.edges[n]
            c[key] = [q for q in (self.mkpath(C, self.head_state(inst, i), evs, m, inst.ends[n], fa, of=inst) for evs, m in linear(self.eng, w)) if q is not None]
        return c[key]

    def delta(self, inst, n, phi, C, fa):
        """constant by which the counter changes on this way round the loop"""
        step = inst.edges[n][3].get(phi, phi)
        b, d = split(step)
        if b is phi:
            return d
        if not any(ev.a[0] == "L" for ev in inst.edges[n][1]):
            return None
        ds = set()
        for q in self.ways(inst, n, C, fa):
            l = self.eqs(q).red(lin_of(subst(step, q.m)) - lin_of(phi))
            if l.c or l.k.denominator != 1:
                return None
            ds.add(int(l.k))
        return ds.pop() if len(ds) == 1 else None

    def relations(self, inst, h, C=None, fa=None):
        c = inst.__dict__.setdefault("_rel", {})
        key = (h, ckey(C), fa, self.noupper)
        if key in c:
            return c[key]
        out = c[key] = []
        es = [k for k in reach_edges(inst, h) if fa is None or self.ways(inst, k, C, fa)]
        ints = [p for p in inst.inits if p.a[2] == "i"]
        deltas = {}
        for p in ints:
            ds = []
            for k in es:
                d = self.delta(inst, k, p, C, fa)
                if d is None:
                    ds = None
                    break
                ds.append(d)
            if ds is not None:
                deltas[p] = ds
        for n, p in enumerate(ints):
            if p not in deltas:
                continue
            ip = lin_of(inst.inits[p])
            if all(d == 0 for d in deltas[p]):
                out.append(lin_of(p) - ip)
            for q in ints[n + 1:]:
                if q not in deltas:
                    continue
                iq = lin_of(inst.inits[q])
                if all(x + y == 0 for x, y in zip(deltas[p], deltas[q])):
                    out.append(lin_of(p) + lin_of(q) - ip - iq)
                elif all(x == y for x, y in zip(deltas[p], deltas[q])):
                    out.append(lin_of(p) - lin_of(q) - ip + iq)
        return out

    def ieq(self, p, a, b):
        a, b = lin_of(a), lin_of(b)
        if not (a - b).c and (a - b).k == 0:
            return True
        return self.eqs(p).zero(a - b)

    # -- equality of terms on a path
    def is_int(self, t):
        if isinstance(t, Lin):
            return True
        return t.tag in ("int", "lin", "len", "sub", "sum") or t.tag == "phi" and t.a[2] == "i"

    def equal(self, p, a, b, d=0):
        if a is None or b is None:
            return False
        if a is b:
            return True
        if isinstance(a, Lin) or isinstance(b, Lin) or self.is_int(a) or self.is_int(b):
            return self.ieq(p, a, b)
        if d > 12:
            return False
        if self.curpos(p, a, b):
            return True
        if a.tag == b.tag and len(a.a) == len(b.a):
            ok = True
            for x, y in zip(a.a, b.a):
                if x is y:
                    continue
                if isinstance(x, T) and isinstance(y, T):
                    if not self.equal(p, x, y, d + 1):
                        ok = False
                        break
                elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                    if not self.eqt(p, x, y, d + 1):
                        ok = False
                        break
                elif x != y:
                    ok = False
                    break
            if ok:
                return True
        for x, y in ((a, b), (b, a)):
            if x.tag == "vec" and y.tag == "p":
                pass
        if d < 3:
            for u, v in self.eqfacts(p):
                if (self.equal(p, a, u, d + 4) and self.equal(p, v, b, d + 4)) or (self.equal(p, a, v, d + 4) and self.equal(p, u, b, d + 4)):
                    return True
        return False

    def eqt(self, p, x, y, d):
        for u, v in zip(x, y):
            if u is v:
                continue
            if isinstance(u, T) and isinstance(v, T):
                if not self.equal(p, u, v, d):
                    return False
            elif isinstance(u, tuple) and isinstance(v, tuple) and len(u) == len(v):
                if not self.eqt(p, u, v, d):
                    return False
            elif u != v:
                return False
        return True

    def curpos(self, p, a, b):
        """the position before the first symbol is the start position"""
        for x, y in ((a, b), (b, a)):
            if x.tag == "cur" and y is self.POS and self.ieq(p, x.a[1], I(0)):
                return True
        return False

    def eqfacts(self, p):
        c = p.__dict__.get("_eqf")
        if c is None:
            c = p._eqf = []
            for at, v in self.facts(p, None):
                if at.a[0] == "eq" and v is True:
                    c.append((at.a[1], at.a[2]))
        return c

    def facts(self, p, upto):
        """what is known on the path: the facts of its first state and the branches taken"""
        key = ("facts", upto)
        c = p.__dict__.setdefault("_facts", {})
        if key not in c:
            out = []
            if p.base is not None:
                for at, v in p.base.facts.items():
                    out.append((self.canon(p, at), v.a[0] if isinstance(v, T) else v))
            for k, ev in enumerate(p.ev):
                if upto is not None and k >= upto:
                    break
                if ev.a[0] == "asm":
                    v = ev.a[2]
                    out.append((self.canon(p, ev.a[1]), v.a[0] if isinstance(v, T) and v.a else v))
            c[key] = out
        return c[key]

    def known(self, p, upto, kind, *args):
        """truth value of an atom on the path, None if unknown"""
        for at, v in self.facts(p, upto):
            if at.a[0] != kind:
                continue
            xs = at.a[1:]
            if len(xs) == len(args) and (all(self.equal(p, x, y) for x, y in zip(xs, args)) or kind in ("eq", "ieq") and self.equal(p, xs[0], args[1]) and self.equal(p, xs[1], args[0])):
                return v
        if kind == "lt":
            a, b = args
            for at, v in self.facts(p, upto):
                if at.a[0] == "lt" and v is True and self.equal(p, at.a[1], b) and self.equal(p, at.a[2], a):
                    return False
                if at.a[0] == "ieq" and v is True and (self.equal(p, at.a[1], b) and self.equal(p, at.a[2], a) or self.equal(p, at.a[1], a) and self.equal(p, at.a[2], b)):
                    return False
            self.eqs(p)
            st = p.sti
            if self.is_int(a) and self.is_int(b):
                if self.eng.le(st, add(a, 1), b):
                    return True
                if self.eng.le(st, b, a):
                    return False
                if upto is None:
                    la, lb = lin_of(a), lin_of(b)
                    if self.refuted(p, [lb - la]):
                        return True
                    if self.refuted(p, [la - lb + Lin({}, 1)]):
                        return False
        if kind == "ieq":
            if self.ieq(p, *args):
                return True
            if upto is None:
                d = lin_of(args[0]) - lin_of(args[1])
                if self.refuted(p, [d, d.scale(-1)]):
                    return False
                if self.refuted(p, [d + Lin({}, 1)]) and self.refuted(p, [d.scale(-1) + Lin({}, 1)]):
                    return True
        return None

    # -- canonical forms: labels and positions of recognised symbols
    def canon(self, p, t):
        """rewrite what recognised elements and recursive results are known to hold"""
        if p.ctx is None:
            return t
        c = p.__dict__.setdefault("_canon", {})
        r = c.get(t)
        if r is not None:
            return r
        x = t
        for _ in range(6):
            m = self.rewrites(p, x)
            y = subst(x, m) if m else x
            if y is x:
                break
            x = y
        c[t] = x
        return x

    def rewrites(self, p, t):
        m = {}
        C = p.ctx
        for x in subterms(t):
            k = None
            if x.tag == "idx" and C.S is not None and x.a[0] is C.S and x not in p.dead:
                k = x.a[1]
            elif x in p.pops:
                k = p.pops[x]
            if k is not None and C.ec is not None:
                for v, kd in C.ec.kind.items():
                    for role in C.ec.vs[v]:
                        y = C.ec.get(x, v, role) if role != "iter_opt" else None
                        if role == "node" and kd == "ok":
                            m[label_of(y)] = mk("idx", C.O, k)
                        elif role == "fixed" and kd == "fix":
                            m[proj(y, None, "symbol_to_derive")] = mk("idx", C.O, k)
                        elif role == "init":
                            m[y] = mk("cur", C.S, k)
                        elif role == "final":
                            m[y] = mk("cur", C.S, add(k, 1))
            if x.tag == "sym" and x.a[0] == "rc" and x in p.rcs:
                a = p.rcs[x]
                rc = self.rc
                s, q = a[self.pr["sym"]], a[self.pr["pos"]]
                ok, er, fx = rc.by["ok"], rc.by["err"], rc.by["fix"]
                m[label_of(rc.get(x, ok, "node"))] = s
                if "init" in rc.vs[ok]:
                    m[rc.get(x, ok, "init")] = q
                m[proj(rc.get(x, fx, "fixed"), None, "symbol_to_derive")] = s
                m[proj(rc.get(x, er, "failed"), None, "symbol_to_derive")] = s
            if x.tag == "phi" and x in C.cursors and not p.dirty:
                n = C.cursors[x]
                if n is not None:
                    m[x] = mk("cur", C.S, n)
        m.pop(t, None) if m.get(t) is t else None
        return m

    # -- building resolved paths
    def mkpath(self, ctx, base, evs, m, st, fa0=None, of=None):
        """resolve reads of the local stack, drop infeasible paths (None)"""
        out = []
        res = {}
        p = Path(out, m, st)
        p.base, p.ctx, p.fa0 = base, ctx, set(fa0) if fa0 is not None else None
        p.pops, p.rcs, p.dead, p.dirty = {}, {}, set(), False
        p.of = of
        S = ctx.S if ctx else None
        for ev in evs:
            k = ev.a[0]
            if k in ("L", "X"):
                if k == "L" and S is not None:
                    inst = self.eng.insts.get(ev.a[1])
                    if inst is not None and self.touches(inst, S):
                        for x in [x for x in res if x.tag == "idx" and x.a[0] is S]:
                            del res[x]
                out.append(ev)
                continue
            if k == "H":
                out.append(ev)
                continue
            if res:
                ev = subst(ev, res)
            if k == "push" and ev.a[1].tag == "vid":
                res[mk("idx", ev.a[1], ev.a[2])] = ev.a[3]
            elif k == "pop":
                at = mk("idx", ev.a[1], ev.a[2])
                if at in res:
                    v = res.pop(at)
                    res[ev.a[3]] = v
                elif ev.a[1] is S:
                    p.pops[ev.a[3]] = ev.a[2]
                    p.rcs.pop(ev.a[3], None)
            elif k in ("vrev", "vmut", "vinsert", "clear", "unkw") and ev.a[1].tag == "vid":
                for x in [x for x in res if x.tag == "idx" and x.a[0] is ev.a[1]]:
                    del res[x]
            elif k == "rc":
                p.rcs[ev.a[3]] = ev.a[2].a
            elif k == "asm":
                f = self.impossible(p, ev.a[1], ev.a[2])
                if f:
                    return None
            out.append(ev)
        p.res = res
        if ctx is not None and self.contradicts_foralls(p):
            return None
        if any(ev.a[0] == "asm" and ev.a[1].a[0] in ("lt", "ieq") for ev in out) and self.refuted(p):
            return None
        return p

    def impossible(self, p, at, v):
        if at.a[0] != "var":
            return False
        x = at.a[1]
        name = v.a[0] if isinstance(v, T) and v.a else v
        if isinstance(name, T):
            name = name.a[0]
        if x.tag == "adt":
            return x.a[1] != name
        if x in p.rcs:
            fl = p.rcs[x][self.pr["flag"]]
            if fl is FALSE and self.rc.kind.get(name) == "fix":
                return True
        C = p.ctx
        if C is not None and C.ec is not None and (x in p.pops or x.tag == "idx" and x.a[0] is C.S):
            if C.kinds is not None and name in C.ec.kind and name not in C.kinds:
                return True
        return False

    def touches(self, inst, vid):
        return self.eng.P.inst_touches(inst, vid)

    def skinds(self, C, x, v):
        """kinds a symbol of the stack can have when the element x of the stack, or of a list made
        from it, has the variant v (None: not known to be such an element)"""
        v = v.a[0] if isinstance(v, T) and v.a else v
        if isinstance(v, T):
            v = v.a[0]
        if C is None or C.ec is None or x.tag != "idx":
            return None
        if x.a[0] is C.S:
            return {v} if v in C.ec.kind else None
        d = self.eng.__dict__.setdefault("_derived", {}).get((x.a[0], ckey(C)))
        return None if not d or d[0] is not C.S else set().union(*[ks for n, ks in d[1] if n == v] or [set()])

    def derive(self, p, k, vid):
        """is the list made element by element from the whole stack?  then: which variant comes from which kinds"""
        C = p.ctx
        c = self.eng.__dict__.setdefault("_derived", {})
        key = (vid, ckey(C))
        if key in c or C is None or C.ec is None or vid.tag != "vid" or not self.made_here(p, k, vid):
            return c.get(key)
        c[key] = None
        try:
            segs = self.seq(p, k, vid)
        except Exotic:
            return None
        if len(segs) != 1 or segs[0].base is not C.S or segs[0].inst is None or segs[0].a != 1 or segs[0].b.c or segs[0].b.k:
            return None
        cov = loops.coverage(self.eng, segs[0].inst, C.S)
        if not cov.complete:
            return None
        out = []
        for cs, v in segs[0].alts:
            if v.tag != "adt":
                return None
            ks = set(C.ec.kind)
            for at, w in cs:
                if at.a[0] == "var" and at.a[1] is HOLE:
                    ks &= {w.a[0] if isinstance(w, T) else w}
            out.append((v.a[1], ks))
        c[key] = (C.S, out)
        return c[key]

    def foralls(self, p, upto=None):
        """kinds the elements of the stack can still have, from completed loops over the whole stack"""
        C = p.ctx
        out = p.fa0
        for k, ev in enumerate(p.ev):
            if upto is not None and k >= upto:
                break
            if ev.a[0] == "X":
                inst = self.eng.insts.get(ev.a[1])
                if inst is None:
                    continue
                gid = ev.a[2].a[0]
                if self.touches(inst, C.S):
                    out = None
                    continue
                # heads from which the loop can still get to the one it was left from
                left = None
                for e2 in p.ev[k + 1:k + 3]:
                    if e2.a[0] == "H" and e2.a[1] is ev.a[1]:
                        left = e2.a[2].a[0]
                if left is not None and any(e.a[0] == "L" for x in inst.edges for e in x[1]):
                    left = None
                if left is not None:
                    back, work = {left}, [left]
                    while work:
                        h = work.pop()
                        for x in inst.edges:
                            if x[2] == h and x[0] not in back:
                                back.add(x[0])
                                work.append(x[0])
                idle = None
                for coll, its, cov in quant.iterations(self.eng, ev.a[1], gid):
                    if coll is not C.S and not self.derive(p, k, coll):
                        continue
                    ks = set()
                    if idle is None:
                        idle = self.idle_words(p, inst)
                    for it in its:
                        if id(it.word) in idle:
                            continue
                        if left is not None and (it.kind == "edge" and it.tgt[1] not in back or it.kind != "edge" and it.head != left):
                            continue
                        kk = None
                        for at, v in quant.assumptions(it.word):
                            if at.a[0] == "var" and at.a[1] in (mk("idx", coll, it.pos), mk("idx", C.S, it.pos)):
                                kk = self.skinds(C, at.a[1], v)
                        if kk is None:
                            ks = set(C.ec.kind)
                            break
                        ks |= kk
                    out = ks if out is None else out & ks
            elif ev.a[0] in ("push", "pop", "clear", "new", "vmut", "vinsert", "vrev") and ev.a[1] is C.S:
                out = None
        return out

    def counts(self, inst):
        """counters of the loop that start at nothing and only grow: {counter: edges that add to them}"""
        c = inst.__dict__.get("_counts")
        if c is None:
            c = inst._counts = {}
            f = loops.flat(self.eng, inst)
            for n in f.inits:
                if n.a[2] != "i" or f.inits[n] is not I(0):
                    continue
                adds = []
                for i, w, j, s in f.edges:
                    b, d = split(s.get(n, n))
                    if b is not n or d < 0:
                        adds = None
                        break
                    if d:
                        adds.append(w)
                if adds:
                    c[n] = adds
        return c

    def idle_words(self, p, inst):
        """ways round the loop that were not taken, because they count and nothing was counted"""
        out = set()
        for n, adds in self.counts(inst).items():
            if any(n in ev.a[1].syms for ev in p.ev if ev.a[0] == "asm" and ev.a[1].a[0] in ("lt", "ieq")):
                if self.fact_zero(p, n):
                    out |= {id(w) for w in adds}
        return out

    def fact_zero(self, p, n):
        for ev in p.ev:
            if ev.a[0] == "asm":
                at, v = ev.a[1], ev.a[2]
                if at.a[0] == "lt" and at.a[1] is I(0) and at.a[2] is n and v in (False, FALSE) or at.a[0] == "lt" and at.a[1] is n and at.a[2] is I(1) and v in (True, TRUE) or at.a[0] == "ieq" and set(at.a[1:]) == {n, I(0)} and v in (True, TRUE):
                    return True
        return False

    def fact_pos(self, p, n):
        for ev in p.ev:
            if ev.a[0] == "asm":
                at, v = ev.a[1], ev.a[2]
                if at.a[0] == "lt" and at.a[1] is I(0) and at.a[2] is n and v in (True, TRUE) or at.a[0] == "lt" and at.a[1] is n and at.a[2] is I(1) and v in (False, FALSE) or at.a[0] == "ieq" and set(at.a[1:]) == {n, I(0)} and v in (False, FALSE):
                    return True
        return False

    def contradicts_foralls(self, p):
        C = p.ctx
        if C.ec is None:
            return False
        if p.fa0 is None and not any(ev.a[0] == "X" for ev in p.ev):
            return False
        for k, ev in enumerate(p.ev):
            if ev.a[0] == "asm" and ev.a[1].a[0] == "var":
                x = ev.a[1].a[1]
                if x.tag == "idx":
                    self.derive(p, k, x.a[0])
                ks = self.skinds(C, x, ev.a[2])
                if ks is not None:
                    f = self.foralls(p, k)
                    if f is not None and not ks & f:
                        return True
        return False

    # -- sequences
    def seq(self, p, upto, vid, lenterm=None, depth=0):
        """contents of a local vec at a point of the path: list of segments"""
        if depth > 6:
            raise Exotic("deeply derived list")
        segs = []
        start = 0
        for k in range(upto):
            ev = p.ev[k]
            if ev.a[0] == "new" and ev.a[1] is vid:
                start, segs, seen = k, [], True
        seen = any(ev.a[0] == "new" and ev.a[1] is vid for ev in p.ev[:upto])
        if not seen:
            raise Exotic("list made elsewhere")
        k = start
        while k < upto:
            ev = p.ev[k]
            a = ev.a
            if a[0] == "copyof" and a[1] is vid:
                src = a[2] if a[2].tag == "vid" else a[2].a[0] if a[2].tag == "vec" else None
                if src is None:
                    raise Exotic("copy of something else")
                segs = list(self.seq(p, k, src, None, depth + 1))
            elif a[0] == "push" and a[1] is vid:
                segs.append(Seg(Lin({}, 1), None, 0, Lin(), [(frozenset(), a[3])]))
            elif a[0] == "clear" and a[1] is vid:
                segs = []
            elif a[0] == "vrev" and a[1] is vid:
                segs = [self.rev(s) for s in reversed(segs)]
            elif a[0] == "vinsert" and a[1] is vid:
                if a[2] is I(0):
                    segs.insert(0, Seg(Lin({}, 1), None, 0, Lin(), [(frozenset(), a[3])]))
                else:
                    raise Exotic("insertion in the middle")
            elif a[0] in ("vmut", "unkw") and a[1] is vid or a[0] == "pop" and a[1] is vid:
                how = a[2].a[0] if a[0] == "vmut" and len(a) > 2 and isinstance(a[2], T) and a[2].tag == "k" else None
                if how in SCRAMBLE:
                    raise Dropped("the list is changed by %s" % how)
                raise Exotic("list edited in place")
            elif a[0] == "L":
                inst = self.eng.insts.get(a[1])
                if inst is not None and self.touches(inst, vid):
                    if k + 1 < upto and p.ev[k + 1].a[0] == "X":
                        segs += self.loop_segs(p, k, inst, vid, depth)
                    else:
                        raise Exotic("list read while it is being filled")
            k += 1
        if lenterm is not None:
            pass
        return segs

    def segs_of(self, p, k, v):
        """contents of a list value: (segments, length)"""
        if v.tag == "vec" and v.a[0].tag == "vid" and self.made_here(p, k, v.a[0]):
            return self.seq(p, k, v.a[0]), lin_of(v.a[1])
        base, lo, hi = v, I(0), None
        if v.tag == "slice":
            base, lo, hi = v.a[:3]
        elif v.tag == "vec":
            base = v.a[0]
        elif v.tag == "it" and v.a[4] in (False, FALSE):
            base, lo, hi = v.a[:3]
        if base.tag == "vid" and self.made_here(p, k, base):
            inner = self.seq(p, k, base)
            tot = Lin()
            for s in inner:
                tot = tot + s.n
            if self.equal(p, lo, I(0)) and (hi is None or self.eqs(p).zero(lin_of(hi) - tot)):
                return inner, tot
            raise Exotic("part of a list")
        n = lin_of(hi if hi is not None else mk("len", base)) - lin_of(lo)
        if base.tag not in ("idx", "f", "vf", "p", "mget"):
            return None, None
        return [Seg(n, base, 1, lin_of(lo), [(frozenset(), HOLE)])], n

    def rev(self, s):
        # element i of the reverse is element n-1-i
        return Seg(s.n, s.base, -s.a, s.b + (s.n - Lin({}, 1)).scale(s.a), s.alts, s.inst)

    def loop_segs(self, p, k, inst, vid, depth):
        """what a completed loop appends to the list (events of the leaving iteration follow in the path)"""
        head = None
        for e in p.ev[k + 1:]:
            if e.a[0] == "H" and e.a[1] is inst.t:
                head = e.a[2].a[0]
                break
        if head is None:
            raise Exotic("loop left in an unknown way")
        es = reach_edges(inst, head)
        alts = []
        cnt = None
        pos = None
        base = None
        innersegs = None
        ins0 = False
        fa = self.kinds_at(p, k, inst)
        for n in es:
            for q in self.ways(inst, n, p.ctx, fa):
                if any(e.a[0] == "visit" for e in q.ev) and not any(e.a[0] in ("push", "vinsert", "L") and (e.a[0] == "L" or e.a[1] is vid) for e in q.ev):
                    if any(e.a[0] in ("push", "vinsert") and e.a[1] is vid for m in es for q2 in self.ways(inst, m, p.ctx, fa) for e in q2.ev):
                        ints = [x for x in inst.inits if x.a[2] == "i"]
                        if any(e.a[0] == "asm" and e.a[1].a[0] in ("lt", "ieq") and any(x in e.a[1].syms for x in ints) and not any(x.tag == "len" and (x.a[0] is v.a[1]) for v in q.ev if v.a[0] == "visit" for x in e.a[1].a[1:]) for e in q.ev):
                            raise Exotic("elements are chosen by their position")
                        raise Dropped("some of the elements gone through are left out")
        for n in es:
            i, w, j, steps = inst.edges[n]
            for q in self.ways(inst, n, p.ctx, fa):
                pushes = [e for e in q.ev if e.a[0] in ("push", "vinsert") and e.a[1] is vid]
                if any(e.a[0] in ("pop", "vmut", "vrev", "clear", "new") and e.a[1] is vid for e in q.ev):
                    raise Exotic("list edited in the loop")
                if any(e.a[0] == "L" and self.eng.insts.get(e.a[1]) is not None and self.touches(self.eng.insts[e.a[1]], vid) for e in q.ev):
                    raise Exotic("list filled by nested loops")
                if len(pushes) != 1:
                    raise Exotic("an iteration adds %d elements" % len(pushes))
                e = pushes[0]
                if e.a[0] == "vinsert":
                    if e.a[2] is not I(0):
                        raise Exotic("insertion in the middle")
                    ins0 = True
                    at = None
                    ln = self.veclen(self.head_state(inst, i), vid)
                else:
                    at = ln = e.a[2]
                if ln is None or ln.tag != "phi" or ln not in inst.inits:
                    raise Exotic("position in the list is not counted by the loop")
                if cnt is None:
                    cnt = ln
                elif cnt is not ln:
                    raise Exotic("several counters")
                b, c, val, conds = self.elementwise(q, inst, e.a[3], pushes[0])
                rel = None
                if b is not None:
                    rel = self.affine(inst, head, c, cnt, p.ctx, fa, q)
                    if rel is None:
                        for e2 in q.ev:
                            i2 = self.eng.insts.get(e2.a[1]) if e2.a[0] == "L" else None
                            if i2 is not None and any(e3.a[0] == "visit" and e3.a[1] is b for m in range(len(i2.edges)) for q2 in self.ways(i2, m, p.ctx, fa) for e3 in q2.ev):
                                raise Dropped("some of the elements gone through are left out")
                        raise Exotic("element position is not tied to the list position")
                    if base is not None and base is not b or pos is not None and (pos[0] != rel[0] or (pos[1] - rel[1]).c or (pos[1] - rel[1]).k):
                        raise Exotic("elements from several places")
                    base, pos = b, rel
                alts.append((conds, val))
        if cnt is None:
            raise Exotic("nothing is added")
        ini = inst.inits[cnt]
        n = lin_of(subst(cnt, p.m) if cnt in p.m else cnt) - lin_of(ini)
        a, b = (0, Lin()) if pos is None else (pos[0], pos[1] + lin_of(ini).scale(pos[0]))
        seg = Seg(n, base, a, b, alts, inst)
        out = [seg]
        if base is not None and base.tag == "vid" and (p.ctx is None or base is not p.ctx.S) and self.made_here(p, k, base):
            inner = self.seq(p, k, base, None, depth + 1)
            out = self.compose(p, seg, inner)
        if ins0:
            out = [self.rev(s) for s in reversed(out)]
        return out

    def made_here(self, p, k, vid):
        return any(ev.a[0] == "new" and ev.a[1] is vid for ev in p.ev[:k])

    def head_state(self, inst, i):
        return inst.heads[i] if i < len(inst.heads) else inst.entry

    def elementwise(self, q, inst, val, push):
        """(collection, index, value with HOLE, conditions on HOLE)"""
        cands = []
        for ev in q.ev:
            if ev.a[0] == "visit" and ev.a[1].tag != "range":
                cands.append((mk("idx", ev.a[1], ev.a[2]), ev.a[1], ev.a[2]))
                if ev.a[3] is not mk("idx", ev.a[1], ev.a[2]):
                    cands.append((ev.a[3], ev.a[1], ev.a[2]))
        for s, k in q.pops.items():
            cands.append((s, q.ctx.S, k))
        for x in subterms(val):
            if x.tag == "idx" and any(y.tag == "phi" and y in inst.inits for y in subterms(x.a[1])) and not any(y.tag == "phi" and y in inst.inits for y in subterms(x.a[0])):
                if not any(c[0] is x for c in cands):
                    cands.append((x, x.a[0], x.a[1]))
        hit = [c for c in cands if any(x is c[0] for x in subterms(val))]
        if not hit:
            return None, None, val, frozenset()
        # an element whose content is known from the element it was made of
        hit = [c for c in hit if not any(o[0] is not c[0] and o[2] is c[2] and any(x is o[0] for x in subterms(c[0])) for o in hit)]
        el = hit[0]
        for c in hit[1:]:
            if c[1] is not el[1] or c[2] is not el[2]:
                raise Exotic("built from several elements")
        m = {c[0]: HOLE for c in hit}
        v2 = subst(val, m)
        if any(y.tag == "phi" and y in inst.inits for y in subterms(v2)):
            raise Exotic("depends on the iteration")
        conds = set()
        for ev in q.ev:
            if ev.a[0] == "asm":
                at = subst(ev.a[1], m)
                if HOLE in at.syms:
                    v = ev.a[2]
                    conds.add((at, v.a[0] if isinstance(v, T) else v))
        return el[1], el[2], v2, frozenset(conds)

    def affine(self, inst, head, idx, cnt, C, fa, q):
        """idx = a*cnt + b over the loop"""
        E = Eqs()
        for l in self.relations(inst, head, C, fa):
            E.add(l)
        # (loops passed on the way whose counters are known)
        li, lc = lin_of(idx), lin_of(cnt)
        mine = lambda t: t.tag == "phi" and t in inst.inits
        for l in (self.eqs(q).rows if any(not mine(t) for t in li.c) else ()):
            E.add(l[1])
        phis = lambda l: [t for t in l.c if t.tag == "phi" and t in inst.inits]
        for a in (1, -1):
            b = self.elim(E, li - lc.scale(a), inst)
            if b is not None:
                return a, b
        return None

    def elim(self, E, l, inst):
        """express l without the loop's own counters, if the equalities allow"""
        mine = lambda l: [t for t in l.c if t.tag == "phi" and t in inst.inits]
        if not mine(l):
            return l
        for p, r in E.rows:
            for x in mine(l):
                if x in r.c:
                    l2 = l - r.scale(l.c[x] / r.c[x])
                    if len(mine(l2)) < len(mine(l)):
                        return self.elim(E, l2, inst)
        return None

    def compose(self, p, seg, inner):
        if len(inner) == 0:
            return []
        if seg.a == 1 and not seg.b.c and seg.b.k == 0:
            out = []
            for s in inner:
                out.append(Seg(s.n, s.base, s.a, s.b, self.alts(seg.alts, s.alts), seg.inst))
            tot = Lin()
            for s in inner:
                tot = tot + s.n
            if not self.eqs(p).zero(tot - seg.n):
                raise Exotic("not all elements are carried over")
            return out
        if len(inner) == 1:
            s = inner[0]
            return [Seg(seg.n, s.base, s.a * seg.a, seg.b.scale(s.a) + s.b, self.alts(seg.alts, s.alts), seg.inst)]
        if seg.a == -1:
            tot = Lin()
            for s in inner:
                tot = tot + s.n
            if self.eqs(p).zero(tot - seg.n) and self.eqs(p).zero(seg.b - tot + Lin({}, 1)):
                return [self.rev(Seg(s.n, s.base, s.a, s.b, self.alts(seg.alts, s.alts), seg.inst)) for s in reversed(inner)]
        raise Exotic("reordered list")

    def alts(self, outer, inner):
        out = []
        for c1, v1 in inner:
            for c2, v2 in outer:
                cs = set(c1)
                ok = True
                for at, v in c2:
                    at2 = subst(at, {HOLE: v1})
                    if at2.a[0] == "var" and at2.a[1].tag == "adt":
                        if at2.a[1].a[1] != v:
                            ok = False
                            break
                        continue
                    for at3, v3 in c1:
                        if at3 is at2 and v3 != v:
                            ok = False
                    cs.add((at2, v))
                if ok:
                    out.append((frozenset(cs), subst(v2, {HOLE: v1})))
        return out


def clos(x):
    """functions and closures mentioned in a statement"""
    out = set()
    if isinstance(x, dict):
        if "fn" in x and isinstance(x["fn"], dict):
            out.add(x["fn"].get("r") or x["fn"].get("u"))
        if x.get("k") == "closure" or "closure" in x:
            u = x.get("u") or x.get("closure")
            if isinstance(u, str):
                out.add(u)
        for v in x.values():
            out |= clos(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            out |= clos(v)
    return out


def ckey(C):
    return None if C is None else (C.S, frozenset(C.kinds) if C.kinds else None, frozenset(C.cursors))


class Ctx:
    """one attempt loop: the stack it fills, the right-hand side it follows and its cursors"""

    def __init__(self):
        self.S = self.O = self.ec = self.kinds = None
        self.cursors = {}


class Parser(Model):
    # ------------------------------------------------------------------ structure
    def structure(self):
        """the attempt loops reachable from the outcomes"""
        eng = self.eng
        self.attempts = {}
        stacks = set()
        self.live = []
        seen = set()

        def visit(word):
            for ev in word:
                if ev.a[0] == "L":
                    inst = eng.insts.get(ev.a[1])
                    if inst is None or inst in seen:
                        continue
                    seen.add(inst)
                    self.live.append(inst)
                    for i, w, j, s in inst.edges:
                        visit(w)
                    for x in inst.exits:
                        visit(x[1])
        for k, s in self.outs:
            visit(eng.events(s.log))
        ok = self.rc.by["ok"]
        for inst in self.live:
            for w in [w for i, w, j, s in inst.edges] + [x[1] for x in inst.exits]:
                for ev in w:
                    if ev.a[0] == "push" and ev.a[1].tag == "vid" and any(x.tag == "vf" and x.a[1] == ok and x.a[0].tag == "sym" and x.a[0].a[0] == "rc" for x in subterms(ev.a[3])):
                        stacks.add(ev.a[1])
        if len(stacks) != 1:
            raise Undecided("%d lists of recognised symbols" % len(stacks))
        self.S = stacks.pop()
        self.ec = None
        for inst in self.live:
            for w in [w for i, w, j, s in inst.edges]:
                for ev in w:
                    if ev.a[0] == "push" and ev.a[1] is self.S and ev.a[3].tag == "adt":
                        self.ec = Comps(self.prog, ev.a[3].a[0])
        if self.ec is None:
            raise Undecided("type of the recognised symbols")
        # attempt loops: loops touching the stack that start from a fresh one
        seen.clear()

        def walk(word, parent):
            visits = []
            for ev in word:
                if ev.a[0] == "visit" and ev.a[1] is self.PO:
                    visits.append(ev.a[3])
                if ev.a[0] == "L":
                    inst = eng.insts.get(ev.a[1])
                    if inst is None:
                        continue
                    if self.touches(inst, self.S):
                        n = self.veclen(inst.entry, self.S)
                        if n is I(0):
                            c = self.attempts.get(inst)
                            if c is None:
                                c = self.attempts[inst] = Ctx()
                                c.S, c.ec = self.S, self.ec
                                c.inst = inst
                                c.parents = set()
                                c.O = None
                            if visits:
                                if c.O is not None and c.O is not visits[-1]:
                                    raise Undecided("the candidate tried is not clear")
                                c.O = visits[-1]
                            c.parents.add(parent)
                            continue
                    drawn = self.drawn(inst)
                    if drawn is not None:
                        # a loop that looks for the next candidate
                        visits.append(drawn)
                        searches[inst] = drawn
                    if inst not in seen:
                        seen.add(inst)
                        for i, w, j, s in inst.edges:
                            walk(w, inst)
                        for x in inst.exits:
                            walk(x[1], inst)
        searches = {}
        for k, s in self.outs:
            walk(eng.events(s.log), None)
        tried = [c.O for c in self.attempts.values()]
        for inst, O in searches.items():
            if not any(O is x for x in tried):
                continue
            # every way round it that passes an element leaves a candidate untried
            for i, w, j, s in inst.edges:
                if any(ev.a[0] == "visit" and ev.a[1] is self.PO for ev in w):
                    self.ob(("C12",), False, "candidates are tried in order, each once", self.place(inst), "a candidate can be passed over without being tried", None)
                    break
        if not self.attempts:
            raise Undecided("no loop that recognises a right-hand side")
        for inst, c in self.attempts.items():
            if c.O is None:
                raise Undecided("the candidate tried is not an element of the candidates")
            # (a candidate handed over under another form of its index)
            self.subloops(c)
            self.infer(c)

    def drawn(self, inst):
        """the candidate a search over the candidates ends with (None: not such a loop)"""
        if not any(ev.a[0] == "visit" and ev.a[1] is self.PO for x in inst.exits for ev in x[1]):
            return None
        if any(ev.a[0] == "L" for i, w, j, s in inst.edges for ev in w):
            return None
        got = {ev.a[3] for x in inst.exits for ev in x[1] if ev.a[0] == "visit" and ev.a[1] is self.PO}
        if len(got) != 1 or not any(y is got_ for x in inst.exits for got_ in got for y in self.kept(x)):
            return None
        return got.pop()

    def kept(self, x):
        for t in x[3].mem.values():
            if isinstance(t, T):
                yield from subterms(t)

    def subloops(self, c):
        c.loops = [c.inst]
        work = [c.inst]
        while work:
            x = work.pop()
            for w in [w for i, w, j, s in x.edges] + [y[1] for y in x.exits]:
                for ev in w:
                    if ev.a[0] == "L":
                        y = self.eng.insts.get(ev.a[1])
                        if y is not None and y not in c.loops and self.touches(y, c.S):
                            c.loops.append(y)
                            work.append(y)

    def epaths(self, c, inst):
        """(edge index, path) for the feasible ways round the loop"""
        for n, (i, w, j, s) in enumerate(inst.edges):
            for evs, m in linear(self.eng, w):
                p = self.mkpath(c, self.head_state(inst, i), evs, m, inst.ends[n], of=inst)
                if p is not None:
                    p.head, p.inst = i, inst
                    yield n, p

    def xpaths(self, c, inst):
        for n, (i, w, kind, st) in enumerate(inst.exits):
            if kind != "exit":
                continue
            for evs, m in linear(self.eng, w):
                p = self.mkpath(c, self.head_state(inst, i), evs, m, st, of=inst)
                if p is not None:
                    p.head, p.inst = i, inst
                    yield n, p

    def infer(self, c):
        # which kinds of element ever reach the stack
        c.kinds = set(c.ec.kind)
        for _ in range(4):
            ks = set()
            for inst in c.loops:
                for ps in (self.epaths(c, inst), self.xpaths(c, inst)):
                    for n, p in ps:
                        for ev in p.ev:
                            if ev.a[0] == "push" and ev.a[1] is c.S:
                                v = ev.a[3]
                                if v.tag == "adt":
                                    ks.add(v.a[1])
                                elif v not in p.pops:
                                    ks |= set(c.ec.kind)
            if ks == c.kinds:
                break
            c.kinds = ks
        # which counters hold the position reached
        inst = c.inst
        c.cursors = {}
        c.fails = {}
        phis = [p for p in inst.inits if p.a[2] == "i"]
        n0 = self.veclen(inst.heads[0], c.S)
        cand = {p for p in phis if p is not n0 and inst.inits[p] is self.POS}
        c.lens = {h: self.veclen(s, c.S) for h, s in enumerate(inst.heads)}
        while True:
            c.cursors = {p: n0 for p in cand}
            bad = {}
            for n, p in self.epaths(c, inst):
                i, w, j, steps = inst.edges[n]
                want = self.final_pos(c, p)
                for q in cand:
                    new = subst(steps.get(q, q), p.m)
                    new = subst(new, p.res)
                    if not self.equal(p, self.canon(p, new), want):
                        bad.setdefault(q, []).append((p, new, want))
            if not bad:
                break
            for q in bad:
                cand.discard(q)
                c.fails[q] = bad[q]
        # a counter used as the position of a recognition but not kept in step is reported against it
        c.position = set(cand)

    def final_pos(self, c, p):
        """the position after the last element of the stack at the end of the path"""
        last = None
        for ev in p.ev:
            if ev.a[0] == "push" and ev.a[1] is c.S:
                last = ev.a[3]
            elif ev.a[0] in ("pop",) and ev.a[1] is c.S:
                last = ("n", ev.a[2])
            elif ev.a[0] == "H":
                i2 = self.eng.insts.get(ev.a[1])
                if i2 is not None and self.touches(i2, c.S):
                    last = ("n", self.veclen(self.head_state(i2, ev.a[2].a[0]), c.S))
        if last is None:
            return mk("cur", c.S, self.veclen(self.head_state(p.inst, p.head), c.S))
        if isinstance(last, tuple):
            return mk("cur", c.S, last[1]) if last[1] is not None else None
        if last.tag == "adt":
            f = c.ec.get(last, last.a[1], "final")
            return self.canon(p, f) if f is not None else None
        if last in p.pops:
            return mk("cur", c.S, add(p.pops[last], 1))
        return None

    # ------------------------------------------------------------------ rules
    def run(self):
        self.load()
        self.structure()
        for inst, c in self.attempts.items():
            self.attempt(c)
        self.outcomes()
        self.rounds(self.eng, self.live, self.attempts)
        self.entry()

    def rounds(self, eng, insts, attempts=()):
        """every loop of the parser makes progress; the loop over the symbols of a right-hand side by recognising
        or retrying one each time round (the alternatives left decrease lexicographically)"""
        if self.pid != "C20":
            return
        import sets
        rule = "every loop makes progress"
        for inst in insts:
            pl = self.place(inst)
            v = sets.progress(eng, inst, False)
            if v is None:
                self.ob(("C20",), True, rule, pl)
                continue
            if inst in attempts:
                c = attempts[inst]
                idle = []
                for n, p in self.epaths(c, inst):
                    if not any(ev.a[0] in ("push", "pop") and ev.a[1] is c.S or ev.a[0] == "H" and self.eng.insts.get(ev.a[1]) in c.loops and ev.a[1] is not inst.t for ev in p.ev):
                        idle.append(p)
                if not idle:
                    self.ob(("C20",), True, rule, pl)
                    continue
                if v[0]:
                    self.ob(("C20",), False, rule, pl, v[1], idle[0])
                else:
                    self.unsure(("C20",), rule, pl, "a round that recognises no symbol")
                continue
            if v[0]:
                self.ob(("C20",), False, rule, pl, v[1])
            else:
                self.unsure(("C20",), rule, pl, v[1])

    def attempt(self, c):
        pl = self.place(c.inst)
        self.ob(ALL, True, "attempt loop found", pl)
        if c.inst.exits and any(x[2] == "panic" for x in c.inst.exits):
            pass
        # the position counters
        used = {}
        for inst in c.loops:
            for n, p in self.epaths(c, inst):
                self.walk(c, inst, p, "edge", n)
            for n, p in self.xpaths(c, inst):
                self.walk(c, inst, p, "exit", n)

    def show(self, t):
        if isinstance(t, Lin):
            return repr(t)
        s = show(t) if t is not None else "?"
        return s if len(s) < 160 else s[:157] + "…"

    def walk(self, c, inst, p, kind, n):
        """one way round (or out of) a loop over the stack"""
        pl = self.place(inst)
        S = c.S
        top = inst is c.inst
        cur = self.veclen(self.head_state(inst, p.head), S)
        n0 = cur
        pushed = resumed = False
        popping = None  # the element popped and not yet dealt with
        popped = False
        retried = {}
        rcs = {}
        for k, ev in enumerate(p.ev):
            a = ev.a
            if a[0] == "H":
                i2 = self.eng.insts.get(a[1])
                if i2 is not None and i2 is not inst and self.touches(i2, S) and i2 in c.loops:
                    if not popped and top:
                        self.reason(c, inst, p, k, n0, rcs)
                    popped, resumed, pushed = True, False, pushed
                    cur = self.veclen(self.head_state(i2, a[2].a[0]), S)
            elif a[0] == "rc":
                rcs[a[3]] = self.call(c, inst, p, k, cur, popping)
                if rcs[a[3]] == "retry":
                    retried[a[3]] = popping
            elif a[0] == "pop" and a[1] is S:
                if popping is not None:
                    self.dropped(c, inst, p, k, popping, retried)
                self.ob(("C12",), not resumed, "backtracking stops at the first symbol that can be retried", pl, "another symbol is popped after a retry succeeded", p)
                if top and not popped:
                    self.reason(c, inst, p, k, n0, rcs)
                self.ob(("C12", "C11", "C09"), self.equal(p, a[2], add(cur, -1)), "the latest symbol is popped", pl, "pops position %s of %s" % (self.show(a[2]), self.show(cur)), p)
                popped = True
                resumed = False
                popping = a[3]
                cur = a[2]
            elif a[0] == "push" and a[1] is S:
                self.ob(("C08", "C09"), cur is not None and self.equal(p, a[2], cur), "symbols are appended", pl, "", p)
                how = self.element(c, inst, p, k, a[2], a[3], rcs, popping)
                cur = add(a[2], 1)
                if how == "retry":
                    resumed = True
                    popping = None
                elif popping is not None and a[3] is popping:
                    popping = None
                else:
                    if popping is not None:
                        self.dropped(c, inst, p, k, popping, retried)
                        popping = None
                    if popped:
                        resumed = True
                    pushed = True
            elif a[0] in ("clear", "vmut", "vrev", "vinsert", "unkw", "new") and a[1] is S:
                if a[0] == "unkw" or a[0] == "vmut":
                    self.unsure(ALL, "the stack is only pushed and popped", pl, "operation %s" % a[0])
                elif not (a[0] in ("clear", "new") and kind == "exit"):
                    self.ob(ALL, False, "the stack is only pushed and popped", pl, "operation %s on the recognised symbols" % a[0], p)
        if popping is not None and (top or kind == "edge"):
            # (what happens after an inner loop is left is judged on the outer path)
            self.dropped(c, inst, p, len(p.ev), popping, retried)
        if not top:
            if kind == "edge" and resumed:
                # after a successful retry nothing more may be popped
                j = inst.edges[n][2]
                self.ob(("C12",), not self.pops_from(c, inst, j), "backtracking stops at the first symbol that can be retried", pl, "symbols are popped after a retry succeeded", p)
            return
        if kind == "edge":
            if popped:
                self.ob(("C12", "C09", "C11"), resumed, "a failed symbol is followed by a successful retry or by failure", pl, "goes on with symbols discarded", p)
            i, w, j, steps = inst.edges[n]
            if not c.position and c.fails:
                q = min(c.fails, key=lambda q: len(c.fails[q]))
                for p2, new, want in c.fails[q]:
                    if p2.ev == p.ev:
                        self.ob(("C09", "C12", "C14", "C08"), False, "the position follows the last recognised symbol", pl, "the position becomes %s, the last symbol ends at %s" % (self.show(new), self.show(want)), p)
            elif c.position:
                self.ob(("C09", "C12", "C14"), True, "the position follows the last recognised symbol", pl)
        else:
            done = cur is not None and self.full(c, p, cur)
            fail = None
            if not done and not pushed:
                fail = cur is not None and self.equal(p, cur, I(0))
                if not popped and fail:
                    self.reason(c, inst, p, len(p.ev), n0, rcs)
            self.ob(("C08", "C12", "C09"), done or bool(fail), "the attempt ends with every symbol recognised or every retry exhausted", pl, "%s symbols are left on the stack" % self.show(cur), p)
            c.__dict__.setdefault("ends", {}).setdefault(n, set()).add("done" if done else "fail" if fail else "?")

    def full(self, c, p, cur):
        return self.equal(p, cur, mk("len", c.O)) or self.known(p, None, "lt", cur, mk("len", c.O)) is False and self.atmost(c, p, cur)

    def atmost(self, c, p, cur):
        """the stack never outgrows the right-hand side: every push is made under n < len"""
        r = c.__dict__.get("bounded")
        if r is None:
            r = c.bounded = all(self.bounded(c, q) for inst in c.loops for n, q in self.epaths(c, inst))
        return r

    def bounded(self, c, q):
        popped = False
        for k, ev in enumerate(q.ev):
            if ev.a[0] == "pop" and ev.a[1] is c.S:
                popped = True
            if ev.a[0] == "H":
                i2 = self.eng.insts.get(ev.a[1])
                popped = popped or i2 is not None and i2 in c.loops
            if ev.a[0] == "push" and ev.a[1] is c.S and not popped:
                if self.known(q, k, "lt", ev.a[2], mk("len", c.O)) is not True:
                    return False
        return True

    def pops_from(self, c, inst, h):
        seen, work = set(), [h]
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            for n, p in self.epaths(c, inst):
                if p.head != i:
                    continue
                if any(ev.a[0] in ("pop", "push") and ev.a[1] is c.S for ev in p.ev):
                    return True
                work.append(inst.edges[n][2])
        return False

    # -- a call of the header
    def call(self, c, inst, p, k, cur, popping):
        pl = self.place(inst)
        args = p.ev[k].a[2].a
        g = lambda r: args[self.pr[r]]
        sym, pos = self.canon(p, g("sym")), self.canon(p, g("pos"))
        self.ob(("C08", "C09", "C13"), self.equal(p, g("tokens"), self.TOK) and g("self") is self.SELF, "inner symbols are parsed on the same input", pl, "the input handed on is %s" % self.show(g("tokens")), p)
        at = mk("idx", c.O, cur) if cur is not None else None
        self.ob(("C08", "C12", "C11"), self.equal(p, sym, at), "the symbol parsed is the next one of the right-hand side", pl, "parses %s at position %s" % (self.show(sym), self.show(cur)), p)
        cp = mk("cur", c.S, cur) if cur is not None else None
        self.ob(("C09", "C12", "C08"), self.equal(p, pos, cp), "the symbol starts where the previous one ended", pl, "starts at %s" % self.show(self.canon(p, pos)), p)
        it = g("cands")
        it2 = subst(it, p.res_at(k)) if hasattr(p, "res_at") else it
        how = None
        if popping is not None and self.from_elem(c, p, it2, popping):
            how = "retry"
            self.ob(("C12",), True, "a retry resumes the alternatives left", pl)
        else:
            ok, why = self.row(p, k, it2, sym, pos, g("sym"), g("pos"))
            if ok is None:
                self.unsure(("C08", "C12"), "candidates are the table row", pl, why)
            else:
                self.ob(("C08", "C12"), ok, "candidates are the table row", pl, why, p)
            how = "retry" if popping is not None else "recog"
            if popping is not None:
                self.ob(("C12",), False, "a retry resumes the alternatives left", pl, "the retry uses %s" % self.show(it2), p)
        self.flag(inst, p, k, g("flag"), how)
        return how

    def from_elem(self, c, p, it, el):
        for v, kd in c.ec.kind.items():
            if "iter" in c.ec.vs[v]:
                x = c.ec.get(el, v, "iter")
                if it is x or c.ec.vs[v].get("iter_opt") and it is proj(x, "Some", "0"):
                    return True
        return False

    def entry_flag(self, p, k=None):
        """value of the flag the header was called with, as known here"""
        for at, v in self.facts(p, None):
            if at.a[0] == "b" and at.a[1] is self.FLAG:
                return v
        return None

    def single(self, p):
        return self.known(p, None, "ieq", mk("len", self.PO), I(1))

    def flag(self, inst, p, k, fl, how):
        pl = self.place(inst)
        rule = "the solver may be consulted below only on a single path"
        if how == "retry":
            self.ob(("C13",), fl is FALSE, "no solver while a symbol is retried", pl, "the retry passes %s" % self.show(fl), p)
            return
        F, one = self.entry_flag(p), self.single(p)
        want = None
        if F is False or one is False:
            want = FALSE
        elif F is True and one is True:
            want = TRUE
        ok = fl is want
        if fl is self.FLAG:
            ok = F is False or one is True or F is True and want is TRUE
        if want is None and fl.tag == "bool":
            ok = False
        self.ob(("C13",), ok, rule, pl, "passes %s where the flag is %s and one candidate is %s" % (self.show(fl), F, one), p)

    # -- candidate iterators
    def row(self, p, k, it, sym, pos, rsym, rpos):
        """is the iterator over exactly the productions the table lists for (symbol, token at pos)?"""
        if it.tag == "vec":
            it = mk("it", it.a[0], I(0), it.a[1], "seq", False)
        if it.tag != "it":
            return False, "candidates are %s" % self.show(it)
        coll, lo, hi, mode, rev = it.a
        if self.pid == "C20":
            return self.rowonly(p, k, it, sym)
        if rev not in (False, FALSE):
            return False, "candidates are taken in reverse order"
        if coll.tag != "vid":
            return False, "candidates are %s" % self.show(it)
        try:
            segs = self.seq(p, k, coll)
        except Dropped as x:
            return False, str(x)
        except Exotic as x:
            return None, str(x)
        tot = Lin()
        for s in segs:
            tot = tot + s.n
        if not self.equal(p, lo, I(0)) or not self.eqs(p).zero(lin_of(hi) - tot):
            return False, "only candidates %s to %s are tried" % (self.show(lo), self.show(hi))
        T1 = mk("mget", self.TABLE, sym)
        tk = proj(mk("idx", self.TOK, pos), None, "t_type")
        if not segs:
            end = self.known(p, k, "lt", pos, mk("len", self.TOK)) is False
            nokey = self.known(p, k, "haskey", self.TABLE, sym) is False or self.known(p, k, "haskey", T1, tk) is False
            empty = self.known(p, k, "ieq", mk("len", mk("mget", T1, tk)), I(0)) is True
            if end or nokey or empty:
                return True, ""
            return False, "no candidates are tried although the table may list some"
        if len(segs) != 1:
            return False, "candidates are put together from several places"
        s = segs[0]
        want = mk("mget", T1, tk)
        if s.base is None or not self.equal(p, self.canon(p, s.base), want):
            return False, "candidates come from %s instead of the row of the symbol and the token at its start" % self.show(self.canon(p, s.base) if s.base is not None else s.alts[0][1])
        if s.a != 1 or not self.eqs(p).zero(s.b):
            return False, "candidates are not in the order of the row"
        if not self.eqs(p).zero(s.n - lin_of(mk("len", s.base))):
            return False, "not every candidate of the row is tried"
        for c, v in s.alts:
            if v is not mk("f", HOLE, self.r.pout):
                return False, "a candidate is %s" % self.show(v)
            if c:
                return None, "candidates depend on conditions"
        return True, ""

    def rowonly(self, p, k, it, sym):
        """are the candidates productions the table lists for the symbol, whatever the lookahead and the order?"""
        if it.a[0].tag != "vid":
            return False, "candidates are %s" % self.show(it)
        try:
            segs = self.seq(p, k, it.a[0])
        except Dropped:
            # (some of them; which ones there are is decided by C12)
            return None, "candidates depend on conditions"
        except Exotic as x:
            return None, str(x)
        for s in segs:
            b = self.canon(p, s.base) if s.base is not None else None
            if b is None or b.tag != "mget" or b.a[0].tag != "mget" or b.a[0].a[0] is not self.TABLE or not self.equal(p, b.a[0].a[1], sym):
                return False, "candidates come from %s instead of a row of the symbol" % self.show(b if b is not None else s.alts[0][1])
            for c, v in s.alts:
                if v is not mk("f", HOLE, self.r.pout):
                    return False, "a candidate is %s" % self.show(v)
        return True, ""

    # -- an element put on the stack
    def element(self, c, inst, p, k, n, val, rcs, popping):
        pl = self.place(inst)
        ec = c.ec
        if val in p.pops:
            self.ob(("C08", "C09"), self.equal(p, p.pops[val], n), "a symbol is put back where it was", pl, "", p)
            return "back"
        if val.tag != "adt":
            self.unsure(ALL, "recognised symbols are built from their parts", pl, self.show(val))
            return "?"
        v = val.a[1]
        kd = ec.kind[v]
        rc = self.rc
        O_n = mk("idx", c.O, n)
        at = mk("cur", c.S, n)
        if kd == "fix":
            src = ec.get(val, v, "fixed")
            r = self.source(p, src, "fix", "fixed")
            if r is None or r not in rcs:
                self.ob(("C14",), False, "a fixed part is the one the solver's symbol produced", pl, "holds %s" % self.show(src), p)
                return "fix"
            self.ob(("C14", "C11"), True, "a fixed part is the one the solver's symbol produced", pl)
            fin = ec.get(val, v, "final")
            self.ob(("C14", "C09"), fin is rc.get(r, rc.by["fix"], "final"), "parsing resumes at the position the solver returned", pl, "resumes at %s" % self.show(fin), p)
            return rcs[r] if rcs[r] == "retry" else "recog"
        if kd != "ok":
            self.unsure(ALL, "recognised symbols are built from their parts", pl, self.show(val))
            return "?"
        node = ec.get(val, v, "node")
        ini, fin, it = ec.get(val, v, "init"), ec.get(val, v, "final"), ec.get(val, v, "iter")
        r = self.source(p, node, "ok", "node")
        if r is not None and r in rcs:
            self.ob(("C08", "C09", "C11"), True, "a recognised symbol keeps its tree", pl)
            self.ob(("C09", "C12"), fin is rc.get(r, rc.by["ok"], "final"), "a recognised symbol ends where its tree ends", pl, "ends at %s" % self.show(fin), p)
            if ini is not None:
                self.ob(("C12", "C09"), self.equal(p, self.canon(p, ini), at), "a recognised symbol remembers where it started", pl, "remembers %s" % self.show(self.canon(p, ini)), p)
            if it is not None:
                none = it.tag == "adt" and it.a[1] == "None" and self.pid == "C20"
                self.ob(("C12",), none or it is rc.get(r, rc.by["ok"], "iter"), "untried alternatives are kept with the symbol", pl, "keeps %s" % self.show(it), p)
            return rcs[r] if rcs[r] == "retry" else "recog"
        if r is not None:
            self.unsure(ALL, "a recognised symbol keeps its tree", pl, "the call that produced it is not on the path")
            return "?"
        # a leaf
        tok = self.canon(p, proj(node, None, "token"))
        kids = proj(node, None, "child_nodes")
        self.ob(("C08", "C09"), self.empty_list(p, k, kids), "a leaf has no children", pl, "children %s" % self.show(kids), p)
        ty = proj(tok, None, "t_type")
        nt = self.nonterminal(p, k, O_n)
        eps = self.known(p, k, "eq", self.EPS, O_n)
        self.ob(("C08", "C12"), nt is False or eps is True, "only terminals and epsilon are leaves", pl, "the symbol is not known to be a terminal", p)
        self.ob(("C08", "C11"), self.equal(p, ty, O_n), "a leaf is labelled with the symbol it stands for", pl, "labelled %s" % self.show(ty), p)
        if it is not None:
            self.ob(("C12",), it.tag == "adt" and it.a[1] == "None" or it.tag == "it" and it.a[1] is it.a[2], "a leaf has no alternatives", pl, "keeps %s" % self.show(it), p)
        if ini is not None:
            self.ob(("C12", "C09"), self.equal(p, self.canon(p, ini), at), "a leaf remembers where it started", pl, "remembers %s" % self.show(self.canon(p, ini)), p)
        fin = self.canon(p, fin)
        lex = proj(tok, None, "lex")
        if eps is True:
            self.ob(("C09",), lex.tag == "adt" and lex.a[1] == "None", "an epsilon leaf carries no lexeme", pl, "lexeme %s" % self.show(lex), p)
            self.ob(("C09",), self.equal(p, fin, at), "an epsilon leaf consumes nothing", pl, "ends at %s" % self.show(fin), p)
        else:
            cur = mk("idx", self.TOK, at)
            same = self.equal(p, tok, cur) or self.equal(p, lex, proj(cur, None, "lex")) and self.known(p, k, "eq", ty, proj(cur, None, "t_type")) is True
            self.ob(("C09",), same, "a terminal leaf is the token at the current position", pl, "the leaf is %s" % self.show(tok), p)
            self.ob(("C09",), self.plus1(p, fin, at), "a terminal leaf consumes one token", pl, "ends at %s" % self.show(fin), p)
            self.ob(("C12", "C08"), eps is False or self.known(p, k, "eq", O_n, proj(mk("idx", self.TOK, at), None, "t_type")) is True, "epsilon matches no token", pl, "epsilon is not told apart", p)
        return "recog"

    def plus1(self, p, a, b):
        x, k = split(a)
        return self.equal(p, x, b) and k == 1 or self.equal(p, a, add(b, 1))

    def empty_list(self, p, k, v):
        if v.tag == "vec" and v.a[0].tag == "vid":
            try:
                return not self.seq(p, k, v.a[0])
            except Exotic:
                return v.a[1] is I(0)
        return False

    def source(self, p, t, variant, role):
        for x in p.rcs:
            if t is self.rc.get(x, self.rc.by[variant], role):
                return x
        return None

    def nonterminal(self, p, k, x):
        for kind, coll, neg in (("in", self.NTS, False), ("haskey", self.PRODS, False), ("haskey", self.TABLE, False), ("in", self.TS, True)):
            v = self.known(p, k, kind, coll, x)
            if v is not None and (v or coll is not self.TABLE):
                return v != neg
        return None

    # -- why a symbol failed
    def reason(self, c, inst, p, k, n, rcs):
        pl = self.place(inst)
        O_n = mk("idx", c.O, n)
        at = mk("cur", c.S, n)
        rule = "a symbol fails only when it cannot be derived here"
        fl = self.rc
        for r, how in rcs.items():
            for j in range(k):
                ev = p.ev[j]
                if ev.a[0] == "asm" and ev.a[1].a[0] == "var" and ev.a[1].a[1] is r:
                    v = ev.a[2].a[0] if isinstance(ev.a[2], T) else ev.a[2]
                    kd = fl.kind.get(v)
                    if kd == "err":
                        nt = self.nonterminal(p, k, O_n)
                        self.ob(("C12",), nt is True, rule, pl, "the symbol is parsed like a non-terminal without being one", p)
                        return
                    self.ob(("C14", "C12") if kd == "fix" else ("C12",), False, "a recognised symbol is kept", pl, "a %s result is treated as a failure" % kd, p)
                    return
        nt = self.nonterminal(p, k, O_n)
        eps = self.known(p, k, "eq", self.EPS, O_n)
        end = self.known(p, k, "lt", at, mk("len", self.TOK)) is False
        mis = self.known(p, k, "eq", O_n, proj(mk("idx", self.TOK, at), None, "t_type")) is False
        self.ob(("C12",), nt is False and eps is False and (end or mis), rule, pl,
                "fails with non-terminal=%s epsilon=%s past the end=%s mismatch=%s" % (nt, eps, end, mis), p)

    # -- a popped symbol that is not retried
    def dropped(self, c, inst, p, k, el, retried):
        pl = self.place(inst)
        rule = "a symbol is given up only when it has no alternative left"
        ec = c.ec
        kind = None
        if el.tag == "adt":
            kind = el.a[1]
        none = False
        for ev in p.ev[:k]:
            if ev.a[0] == "asm" and ev.a[1].a[0] == "var":
                x = ev.a[1].a[1]
                v = ev.a[2].a[0] if isinstance(ev.a[2], T) else ev.a[2]
                if x is el:
                    kind = v
                for w in ec.vs:
                    if "iter" in ec.vs[w] and x is ec.get(el, w, "iter") and v == "None":
                        none = True
        for w in ec.vs:
            if "iter" in ec.vs[w] and not none:
                x = ec.get(el, w, "iter")
                for y in (x, proj(x, "Some", "0")):
                    if y is not None and any(z.tag == "len" and z.a[0] is y for ev in p.ev[:k] if ev.a[0] == "asm" for z in subterms(ev.a[1])):
                        none = none or self.known(p, k, "lt", I(0), mk("len", y)) is False or self.known(p, k, "ieq", mk("len", y), I(0)) is True
        if kind is None and len(c.kinds) == 1:
            kind = list(c.kinds)[0]
        if kind is not None and ec.kind.get(kind) == "fix":
            self.ob(("C12",), True, rule, pl)
            return
        ok = none
        why = "untried alternatives are dropped"
        for r, e in retried.items():
            if e is not el:
                continue
            for ev in p.ev[:k]:
                if ev.a[0] == "asm" and ev.a[1].a[0] == "var" and ev.a[1].a[1] is r:
                    v = ev.a[2].a[0] if isinstance(ev.a[2], T) else ev.a[2]
                    if self.rc.kind.get(v) == "err":
                        ok = True
                    else:
                        ok = False
                        why = "the result of a retry is dropped"
        self.ob(("C12",), ok, rule, pl, why, p)

    # ------------------------------------------------------------------ outcomes
    def outcomes(self):
        eng = self.eng
        pl = where(self.H)
        kinds = set()
        for kind, st in self.outs:
            word = list(eng.events(st.log))
            ctx0 = Ctx()
            ctx0.S = self.S
            for evs, m in linear(eng, word):
                c = self.ctx_of(evs)
                p = self.mkpath(c, None, evs, m, st)
                if p is None:
                    continue
                p.inst, p.head = None, 0
                if kind == "panic":
                    self.ob(("C10",), False, "the parser never panics", pl, "can panic: %s" % self.panic_of(p), p)
                    continue
                kinds.add(self.outcome(c, p, st))
        self.ob(("C10",), True, "every panic of the parser is unreachable", pl)
        self.tries()

    def panic_of(self, p):
        for ev in reversed(p.ev):
            if ev.a[0] == "panic":
                return show(ev.a[1]) if isinstance(ev.a[1], T) else str(ev.a[1])
        return "?"

    def ctx_of(self, evs):
        """the attempt the path went through last"""
        c = None
        for ev in evs:
            if ev.a[0] == "H":
                inst = self.eng.insts.get(ev.a[1])
                if inst in self.attempts:
                    c = self.attempts[inst]
            elif ev.a[0] == "L":
                inst = self.eng.insts.get(ev.a[1])
                if inst in self.attempts:
                    c = self.attempts[inst]
        if c is None:
            c = self.__dict__.get("ctx_none")
            if c is None:
                c = self.ctx_none = Ctx()
                c.S, c.ec, c.kinds = self.S, self.ec, set(self.ec.kind)
                c.O = mk("idx", self.PO, mk("sym", "none"))
                c.inst = None
                c.loops = []
        return c

    def attempt_end(self, c, p):
        """(index of the event after the last attempt loop, head it was left from)"""
        last = None
        for k, ev in enumerate(p.ev):
            if ev.a[0] == "X" and self.eng.insts.get(ev.a[1]) is c.inst and c.inst is not None:
                last = k
        return last

    def left_full(self, c, p, k):
        """was the attempt loop left (at event k) with every symbol recognised?"""
        gid = p.ev[k].a[2].a[0]
        es = set()
        for n in c.inst.groups[gid]:
            es |= c.ends.get(n, set()) if hasattr(c, "ends") else set()
        return es

    def kinds_left(self, c, p):
        """kinds of the recognised symbols after the attempt"""
        f = self.foralls(p)
        ks = set(c.kinds)
        if f is not None:
            ks &= f
        return ks

    def outcome(self, c, p, st):
        pl = where(self.H)
        rc = self.rc
        ret = subst(st.ret, p.m)
        ret = subst(ret, p.res)
        if ret.tag != "adt":
            # handed on unchanged from an inner call?
            self.unsure(ALL, "results are built from their parts", pl, self.show(ret))
            return None
        v = ret.a[1]
        kd = rc.kind[v]
        ends = None
        k = self.attempt_end(c, p)
        if kd == "ok":
            node = rc.get(ret, v, "node")
            self.ob(("C08", "C11"), self.canon(p, label_of(node)) is self.SYM, "a tree is labelled with the symbol it was asked for", pl, "labelled %s" % self.show(label_of(node)), p)
            lex = proj(proj(node, None, "token"), None, "lex")
            self.ob(("C09",), lex.tag == "adt" and lex.a[1] == "None", "inner nodes carry no lexeme", pl, "lexeme %s" % self.show(lex), p)
            if k is None or "done" not in (self.left_full(c, p, k) or {"?"}) or self.left_full(c, p, k) != {"done"}:
                self.ob(("C08", "C12"), False, "success needs every symbol of the right-hand side", pl, "reported without a completed attempt", p)
                return kd
            self.ob(("C08", "C12"), True, "success needs every symbol of the right-hand side", pl)
            ks = self.kinds_left(c, p)
            fixed = [x for x in ks if c.ec.kind[x] != "ok"]
            self.ob(("C14", "C08"), not fixed, "a fix never ends up in a plain tree", pl, "a symbol that was fixed may be among the parts", p)
            self.parts(c, p, proj(node, None, "child_nodes"), "children are the trees of the symbols, in order", ("C08", "C09"), lambda x, kk: c.ec.get(HOLE, kk, "node") if c.ec.kind[kk] == "ok" else None, ks)
            if "init" in rc.vs[v]:
                i = rc.get(ret, v, "init")
                self.ob(("C12", "C09"), self.canon(p, i) is self.POS or self.equal(p, self.canon(p, i), self.POS), "a tree starts where its symbol was asked for", pl, "starts at %s" % self.show(i), p)
            self.endpos(c, p, rc.get(ret, v, "final"), pl)
            if "iter" in rc.vs[v]:
                it = rc.get(ret, v, "iter")
                it = proj(it, "Some", "0") if rc.vs[v].get("iter_opt") and it.tag == "adt" and it.a[1] == "Some" else it
                x = c.O.a[1] if c.O.tag == "idx" and c.O.a[0] is self.PO else None
                x = subst(x, p.m) if x is not None else None
                ok = it.tag == "it" and it.a[0] is self.PO and x is not None and self.equal(p, it.a[1], add(x, 1)) and self.equal(p, it.a[2], mk("len", self.PO)) and it.a[4] in (False, FALSE)
                if self.pid == "C20":
                    ok = ok or it.tag == "adt" and it.a[1] == "None" or it.tag == "it" and it.a[1] is it.a[2]
                self.ob(("C12",), ok, "the alternatives not tried yet stay available", pl, "hands back %s after trying %s" % (self.show(it), self.show(x)), p)
            return kd
        if kd == "fix":
            fx = rc.get(ret, v, "fixed")
            lab = proj(fx, None, "symbol_to_derive")
            self.ob(("C14", "C11"), self.canon(p, lab) is self.SYM, "a fix is reported under the symbol that was asked for", pl, "reported under %s" % self.show(lab), p)
            prod = proj(fx, None, "fixed_production")
            fin = rc.get(ret, v, "final")
            ext = self.exts(p)
            src = [e for e in ext if prod is proj(proj(e.a[3], "Some", "0"), None, "production")]
            if src:
                e = src[-1]
                self.ob(("C14",), fin is proj(proj(e.a[3], "Some", "0"), None, "final_token_position"), "parsing resumes at the position the solver returned", pl, "resumes at %s" % self.show(fin), p)
                self.ob(("C14",), self.answer(p, e) == "Some", "a fix is used only if the solver supplied one", pl, "", p)
                self.consult(c, p, e)
                return "ext"
            if prod.tag != "adt":
                self.ob(("C14",), False, "a fix comes from the solver or from a fixed part", pl, "reports %s" % self.show(prod), p)
                return kd
            if k is None or self.left_full(c, p, k) != {"done"}:
                self.ob(("C14", "C12"), False, "a fixed production has every symbol of the right-hand side", pl, "reported without a completed attempt", p)
                return kd
            self.ob(("C14",), self.some_fixed(c, p), "a fixed production contains a fixed part", pl, "no part is known to be fixed", p)
            parts = proj(prod, None, "fixed_parts")
            PT = "FixedProductionPart"

            def want(x, kk):
                role = "node" if c.ec.kind[kk] == "ok" else "fixed"
                return ("Ok" if role == "node" else "Fixed", c.ec.get(HOLE, kk, role))
            self.parts(c, p, parts, "parts of a fixed production are the symbols, in order", ("C14",), want, set(c.kinds))
            self.endpos(c, p, fin, pl)
            for e in ext:
                self.ob(("C13", "C14"), False, "the solver is consulted only after failure", pl, "consulted although a production was completed", p)
            return kd
        # failure
        fs = rc.get(ret, v, "failed")
        lab = proj(fs, None, "symbol_to_derive")
        self.ob(("C11",), self.canon(p, lab) is self.SYM, "a failure names the symbol that could not be derived", pl, "names %s" % self.show(lab), p)
        F = proj(fs, None, "failed_productions")
        self.failures(c, p, F)
        F_known = self.entry_flag(p)
        ext = self.exts(p)
        sol = self.solver(p)
        for e in ext:
            self.consult(c, p, e)
            self.ob(("C14",), self.answer(p, e) == "None", "a fix the solver supplied is used", pl, "the solver's answer is dropped", p)
        if not ext:
            self.ob(("C13",), F_known is False or sol is False, "the solver is consulted before failing on a single path", pl, "fails without consulting it (single path: %s, solver: %s)" % (F_known, sol), p)
        return kd

    def solver(self, p):
        for at, v in self.facts(p, None):
            if at.a[0] == "var" and at.a[1] is self.SOLVER:
                return v == "Some"
        return None

    def exts(self, p):
        return [e for e in p.ev if e.a[0] == "ext" and e.a[1].a[0] in ("fix_failed_production", "fix_failed_productions")]

    def answer(self, p, e):
        for ev in p.ev:
            if ev.a[0] == "asm" and ev.a[1].a[0] == "var" and ev.a[1].a[1] is e.a[3]:
                v = ev.a[2]
                return v.a[0] if isinstance(v, T) else v
        return None

    def endpos(self, c, p, fin, pl):
        n = self.left_len(c, p)
        want = mk("cur", c.S, n) if n is not None else None
        self.ob(("C09", "C12", "C14"), want is not None and self.equal(p, self.canon(p, fin), want), "a result ends where its last symbol ends", pl, "ends at %s" % self.show(self.canon(p, fin)), p)

    def left_len(self, c, p):
        """length of the stack when the attempt was left"""
        n = None
        for ev in p.ev:
            if ev.a[0] == "H" and self.eng.insts.get(ev.a[1]) is c.inst:
                n = self.veclen(self.head_state(c.inst, ev.a[2].a[0]), c.S)
        return n

    def some_fixed(self, c, p):
        for ev in p.ev:
            if ev.a[0] == "asm" and ev.a[1].a[0] == "var":
                ks = self.skinds(c, ev.a[1].a[1], ev.a[2])
                if ks and all(c.ec.kind[x] == "fix" for x in ks):
                    return True
            if ev.a[0] == "H" and ev.a[2].a[0] > 0 and self.through_fixed(c, ev):
                return True
            if ev.a[0] == "X":
                inst = self.eng.insts.get(ev.a[1])
                if inst is not None and not self.touches(inst, c.S):
                    for n, adds in self.counts(inst).items():
                        if self.fact_pos(p, n) and all(self.past_fixed(c, w) for w in adds):
                            return True
        return all(c.ec.kind[x] == "fix" for x in self.kinds_left(c, p))

    def past_fixed(self, c, word):
        """does the way round the loop pass an element known to be fixed?"""
        for at, v in quant.assumptions(word):
            ks = self.skinds(c, at.a[1], v) if at.a[0] == "var" else None
            if ks and all(c.ec.kind[x] == "fix" for x in ks):
                return True
        return False

    def through_fixed(self, c, ev):
        """is every way to this head of the loop past an element known to be fixed?"""
        inst = self.eng.insts.get(ev.a[1])
        if inst is None or self.touches(inst, c.S):
            return False
        memo = inst.__dict__.setdefault("_tf", {})
        if ckey(c) not in memo:
            ok = set()
            for n, (i, w, j, steps) in enumerate(inst.edges):
                good = True
                for evs, m in linear(self.eng, w):
                    q = self.mkpath(c, self.head_state(inst, i), evs, m, inst.ends[n], of=inst)
                    if q is None:
                        continue
                    hit = False
                    for e in q.ev:
                        if e.a[0] == "asm" and e.a[1].a[0] == "var":
                            ks = self.skinds(c, e.a[1].a[1], e.a[2])
                            hit = hit or bool(ks) and all(c.ec.kind[x] == "fix" for x in ks)
                    good = good and hit
                if good:
                    ok.add(n)
            memo[ckey(c)] = ok
        reach, work = {0}, [0]
        while work:
            h = work.pop()
            for n, (i, w, j, steps) in enumerate(inst.edges):
                if i == h and n not in memo[ckey(c)] and j not in reach:
                    reach.add(j)
                    work.append(j)
        return ev.a[2].a[0] not in reach

    def parts(self, c, p, lst, rule, tags, want, ks):
        """the list holds, for every recognised symbol in order, what `want` says"""
        pl = where(self.H)
        try:
            segs, ln = self.segs_of(p, len(p.ev), lst)
        except Exotic as x:
            self.exotic(tags, rule, pl, x, p)
            return
        if segs is None:
            self.unsure(tags, rule, pl, "not a list built here: %s" % self.show(lst))
            return
        n = self.left_len(c, p)
        tot = Lin()
        for s in segs:
            tot = tot + s.n
        E = self.eqs(p)
        if n is None:
            self.unsure(tags, rule, pl, "length of the stack")
            return
        if not self.ob(tags, E.zero(tot - lin_of(n)) and E.zero(ln - tot), rule, pl, "%s parts for %s symbols" % (tot, self.show(n)), p):
            return
        if len(segs) != 1:
            if segs or not E.zero(lin_of(n)):
                self.unsure(tags, rule, pl, "list put together from %d pieces" % len(segs))
            return
        s = segs[0]
        self.elems(c, p, s, Lin(), rule, tags, want, ks, pl)

    def elems(self, c, p, s, off, rule, tags, want, ks, pl):
        E = self.eqs(p)
        ok = s.base is c.S and s.a == 1 and E.zero(s.b - off)
        self.ob(tags, ok, rule, pl, "element i is taken from %s[%s*i + %s]" % (self.show(s.base), s.a, s.b), p)
        if not ok:
            return
        covered = set()
        for conds, val in s.alts:
            kk = None
            for at, v in conds:
                if at.a[0] == "var" and at.a[1] is HOLE:
                    kk = v
            for x in ([kk] if kk else sorted(ks)):
                if x not in ks:
                    continue
                w = want(HOLE, x)
                if w is None:
                    continue
                if isinstance(w, tuple):
                    good = val.tag == "adt" and val.a[1] == w[0] and len(val.a[2]) == 1 and val.a[2][0][1] is w[1]
                else:
                    good = val is w
                covered.add(x)
                self.ob(tags, good, rule, pl, "a %s symbol becomes %s" % (x, self.show(val)), p)
        miss = [x for x in ks if x not in covered and want(HOLE, x) is not None]
        self.ob(tags, not miss, rule, pl, "nothing is made of %s symbols" % miss, p)

    # -- failures of the candidates
    def failures(self, c, p, F):
        pl = where(self.H)
        rule = "one failure per candidate, in order"
        if F.tag != "vec":
            self.ob(("C12", "C11"), False, rule, pl, "reports %s" % self.show(F), p)
            return
        vid = F.a[0]
        try:
            segs = self.count(p, vid)
        except Exotic as x:
            self.exotic(("C12", "C11"), rule, pl, x, p)
            return
        E = self.eqs(p)
        tot = Lin()
        for n, inst in segs:
            tot = tot + n
        n1 = E.zero(lin_of(F.a[1]) - tot)
        full = E.zero(tot - lin_of(mk("len", self.PO)))
        self.ob(("C12",), n1 and full, rule, pl, "%s failures for %s candidates" % (tot, self.show(mk("len", self.PO))), p)
        if vid not in self.__dict__.setdefault("flists", {}):
            self.flists[vid] = True

    def count(self, p, vid):
        """segments (length, loop) of a list, each iteration appending exactly one element"""
        out = []
        on = False
        for k, ev in enumerate(p.ev):
            a = ev.a
            if a[0] == "new" and a[1] is vid:
                out, on = [], True
            elif a[0] == "push" and a[1] is vid:
                out.append((Lin({}, 1), None))
            elif a[0] in ("clear", "pop", "vmut", "vrev", "vinsert", "unkw") and a[1] is vid:
                raise Exotic("the list of failures is edited")
            elif a[0] == "copyof" and a[1] is vid:
                raise Exotic("copy")
            elif a[0] == "L":
                inst = self.eng.insts.get(a[1])
                if inst is not None and self.touches(inst, vid):
                    head = [e.a[2].a[0] for e in p.ev[k + 1:] if e.a[0] == "H" and e.a[1] is inst.t]
                    if not head:
                        raise Exotic("interrupted")
                    cnt = None
                    for n in reach_edges(inst, head[0]):
                        i, w, j, steps = inst.edges[n]
                        for evs, m in linear(self.eng, w):
                            cc = self.ctx_of(evs)
                            q = self.mkpath(cc, self.head_state(inst, i), evs, m, inst.ends[n], of=inst)
                            if q is None:
                                continue
                            ps = [e for e in q.ev if e.a[0] == "push" and e.a[1] is vid]
                            vs = [e for e in q.ev if e.a[0] == "visit" and e.a[1] is self.PO]
                            if len(ps) != len(vs) or len(ps) > 1:
                                if len(vs) == 1:
                                    self.ob(("C12", "C11"), False, "one failure per candidate, in order", self.place(inst), "%d failures are recorded for a candidate" % len(ps), q)
                                raise Exotic("an iteration adds %d elements" % len(ps))
                            for e in ps:
                                if e.a[2].tag != "phi":
                                    raise Exotic("position")
                                cnt = e.a[2]
                    if cnt is None:
                        continue
                    out.append((lin_of(subst(cnt, p.m) if cnt in p.m else cnt) - lin_of(inst.inits[cnt]), inst))
        if not on:
            raise Exotic("list made elsewhere")
        return out

    def consult(self, c, p, e):
        """a call of the solver"""
        pl = where(self.H)
        args = e.a[2].a
        F = self.entry_flag(p)
        self.ob(("C13",), F is True, "the solver is consulted only on a single path", pl, "the flag is %s" % F, p)
        self.ob(("C13",), args[0] is proj(self.SOLVER, "Some", "0") and self.solver(p) is True, "the configured solver is consulted", pl, "", p)
        self.ob(("C13",), self.equal(p, args[1], self.TOK), "the solver sees the whole input", pl, "sees %s" % self.show(args[1]), p)
        self.ob(("C13",), self.equal(p, self.canon(p, args[2]), self.POS), "the solver sees where the symbol starts", pl, "sees %s" % self.show(args[2]), p)
        one = self.single(p)
        if e.a[1].a[0] == "fix_failed_production":
            self.ob(("C13",), one is True, "the single-production call is made exactly for one candidate", pl, "made for several candidates", p)
            rule = "the solver sees the failed production"
            vid = None
            for ev in p.ev:
                if ev.a[0] == "alt" and ev.a[3] is args[3] and self.equal(p, ev.a[2], I(0)):
                    vid = ev.a[1]
            if args[3].tag == "idx" and self.equal(p, args[3].a[1], I(0)):
                vid = args[3].a[0]
            if vid is None:
                vid = self.only_push(p, args[3])
            if vid is None:
                self.ob(("C13",), False, rule, pl, "sees %s" % self.show(args[3]), p)
            else:
                self.flist(p, vid, rule)
        else:
            self.ob(("C13",), one is False, "the single-production call is made exactly for one candidate", pl, "the list call is made for a single candidate", p)
            rule = "the solver sees all failed productions"
            if args[3].tag != "vec":
                self.ob(("C13",), False, rule, pl, "sees %s" % self.show(args[3]), p)
            else:
                self.flist(p, args[3].a[0], rule, args[3].a[1])

    def only_push(self, p, t):
        for ev in p.ev:
            if ev.a[0] == "push" and ev.a[3] is t:
                return ev.a[1]
        return None

    def flist(self, p, vid, rule, ln=None):
        pl = where(self.H)
        try:
            segs = self.count(p, vid)
        except Exotic as x:
            self.exotic(("C13",), rule, pl, x, p)
            return
        tot = Lin()
        for n, inst in segs:
            tot = tot + n
        E = self.eqs(p)
        ok = E.zero(tot - lin_of(mk("len", self.PO))) and (ln is None or E.zero(lin_of(ln) - tot))
        self.ob(("C13",), ok, rule, pl, "sees %s of %s failed productions" % (tot, self.show(mk("len", self.PO))), p)

    # -- the loop over the candidates
    def tries(self):
        done = set()
        for c in self.attempts.values():
            for T_ in c.parents:
                if T_ is None or T_ in done:
                    continue
                done.add(T_)
                self.try_loop(T_)

    def try_loop(self, inst):
        pl = self.place(inst)
        eng = self.eng
        for n, (i, w, j, steps) in enumerate(inst.edges):
            for evs, m in linear(eng, w):
                c = self.ctx_of(evs)
                p = self.mkpath(c, self.head_state(inst, i), evs, m, inst.ends[n], of=inst)
                if p is None:
                    continue
                p.inst, p.head = inst, i
                k = self.attempt_end(c, p)
                if k is None:
                    continue
                ends = self.left_full(c, p, k)
                self.ob(("C12",), ends == {"fail"}, "the next candidate is tried only after a failure", pl, "a candidate is left after %s" % sorted(ends), p)
                fp = [e for e in p.ev if e.a[0] == "push" and e.a[3].tag == "adt" and e.a[3].a[0].endswith("FailedProduction")]
                self.ob(("C12", "C11"), len(fp) == 1, "one failure per candidate, in order", pl, "%d failures are recorded for a candidate" % len(fp), p)
                for e in fp:
                    self.split_of(c, inst, p, e)
        # candidates in order, each once
        for gid in inst.groups:
            for coll in loops.visited(eng, inst):
                if coll is self.PO:
                    cov = loops.coverage(eng, inst, coll, None)
                    bad = [x for x in (cov.why,) if x and "leaves the loop" not in x]
                    self.ob(("C12",), not bad and not cov.reverse, "candidates are tried in order, each once", pl, str(cov.why if not cov.reverse else "in reverse"), None)

    def split_of(self, c, inst, p, e):
        """C11: parsed + failed + pending is the right-hand side tried"""
        pl = self.place(inst)
        fp = e.a[3]
        k = p.ev.index(e)
        N = self.left_len(c, p)
        if N is None:
            self.unsure(("C11",), "failure report", pl, "length of the stack")
            return
        E = self.eqs(p)
        O = subst(c.O, p.m)
        fs = proj(fp, None, "failed_symbol")
        lab = self.canon(p, proj(fs, None, "symbol_to_derive"))
        self.ob(("C11",), self.equal(p, lab, mk("idx", c.O, N)), "the failed symbol follows the parsed ones", pl, "names %s after %s parsed symbols" % (self.show(lab), self.show(N)), p)
        if fs.tag == "adt":
            kids = proj(fs, None, "failed_productions")
            nt = self.nonterminal(p, k, mk("idx", c.O, N))
            self.ob(("C11", "C12"), self.empty_list(p, k, kids) and nt is False, "a failed terminal has no failed productions", pl, "reports %s" % self.show(kids), p)
        else:
            r = [x for x in p.rcs if fs is self.rc.get(x, self.rc.by["err"], "failed")]
            self.ob(("C11",), bool(r), "the failure reported is the one of the symbol", pl, "reports %s" % self.show(fs), p)
        # parsed
        rule = "parsed entries are the recognised symbols, in order"
        lst = proj(fp, None, "parsed_symbols")
        try:
            segs, ln = self.segs_of(p, k, lst)
        except Exotic as x:
            self.exotic(("C11",), rule, pl, x, p)
            segs = False
        if segs is None:
            self.ob(("C11",), False, rule, pl, "reports %s" % self.show(lst), p)
        elif segs is not False:
            tot = Lin()
            for s in segs:
                tot = tot + s.n
            ok = E.zero(tot - lin_of(N)) and E.zero(ln - tot)
            self.ob(("C11",), ok, rule, pl, "%s entries for %s symbols" % (tot, self.show(N)), p)
            if ok and len(segs) == 1:
                def want(x, kk):
                    role = "node" if c.ec.kind[kk] == "ok" else "fixed"
                    return ("Ok" if role == "node" else "Fix", c.ec.get(HOLE, kk, role))
                self.elems(c, p, segs[0], Lin(), rule, ("C11",), want, set(c.kinds), pl)
            elif ok and segs:
                self.unsure(("C11",), rule, pl, "list put together from %d pieces" % len(segs))
        rule = "pending symbols are the rest of the right-hand side"
        lst = proj(fp, None, "pending_symbols")
        try:
            segs, ln = self.segs_of(p, k, lst)
        except Exotic as x:
            self.exotic(("C11",), rule, pl, x, p)
            return
        if segs is None:
            self.ob(("C11",), False, rule, pl, "reports %s" % self.show(lst), p)
            return
        tot = Lin()
        for s in segs:
            tot = tot + s.n
        want = lin_of(mk("len", c.O)) - lin_of(N) - Lin({}, 1)
        ok = E.zero(tot - want) and E.zero(ln - tot)
        self.ob(("C11",), ok, rule, pl, "%s pending symbols, expected %s" % (tot, want), p)
        if ok and len(segs) == 1:
            s = segs[0]
            good = s.base is c.O and s.a == 1 and E.zero(s.b - lin_of(N) - Lin({}, 1)) and all(v is HOLE for cs, v in s.alts)
            self.ob(("C11",), good, rule, pl, "element i is %s of %s[%s*i + %s]" % (self.show(s.alts[0][1]), self.show(s.base), s.a, s.b), p)
        elif ok and segs:
            self.unsure(("C11",), rule, pl, "list put together from %d pieces" % len(segs))

    # ------------------------------------------------------------------ parse_from_tokens
    def entry(self):
        prog = self.prog
        b = method(prog, "RecursiveDescentParser", "parse_from_tokens")

        def setup(e, args):
            e.cut = {self.H.u}
            e.headpos = True
        eng, args, outs = analyse(prog, b, self.rep, None, 1500000, setup)
        M = Entry(self, eng, args, b)
        M.run(outs)


def inst_words(inst):
    return [x[1] for x in inst.edges] + [x[1] for x in inst.exits]


class Entry(Parser):
    """the public entry: first pass without, second pass with the solver"""

    def __init__(self, o, eng, args, body):
        self.__dict__.update({k: v for k, v in o.__dict__.items() if k in ("prog", "rep", "pid", "r", "seen", "lc", "H", "rc", "pr")})
        self.eng, self.b = eng, body
        self.SELF = [a for a, t in zip(args, body.locals[1:]) if strip_ref(t).get("p", "").endswith("RecursiveDescentParser")][0]
        self.IN = [a for a in args if a is not self.SELF][0]
        self.POS = I(0)
        self.PO = self.FLAG = None
        self.common()

    def run(self, outs):
        pl = where(self.b)
        seen = set()
        self.rounds(self.eng, [i for i in self.eng.insts.values() if not any(ev.a[0] == "rc" for x in inst_words(i) for ev in x)])
        for inst in self.eng.insts.values():
            if any(ev.a[0] == "rc" for w in [x[1] for x in inst.edges] + [x[1] for x in inst.exits] for ev in w):
                # how often the loop goes round is not followed
                self.unsure(("C08", "C09", "C10", "C11", "C12", "C13", "C14"), "outcomes of a parse", pl, "the passes over the input are made in a loop")
                return
        for kind, st in outs:
            word = list(self.eng.events(st.log))
            for evs, m in linear(self.eng, word):
                C = Ctx()
                C.kinds = set()
                C.O = None
                p = self.mkpath(C, None, evs, m, st)
                if p is None:
                    continue
                if kind == "panic":
                    self.panics(p, pl)
                    continue
                seen.add(self.result(p, st, pl))
        self.ob(("C08", "C09", "C12", "C13", "C14"), True, "outcomes of a parse", pl)

    def panics(self, p, pl):
        """only the empty input is refused"""
        vs = [ev.a[1] for ev in p.ev if ev.a[0] == "new" and ev.a[2].a[0] == "vec"]
        ok = False
        for v in vs:
            try:
                if not self.is_input(p, v):
                    continue
            except Exotic:
                continue
            n = self.len_of(p, v)
            if n is not None and self.equal(p, n, I(0)):
                ok = True
        self.ob(("C10",), ok, "only the empty input is refused", pl, "panics (%s) on other inputs" % self.panic_of(p), p)

    def len_of(self, p, v):
        tot = Lin()
        for s in self.seq(p, len(p.ev), v):
            tot = tot + s.n
        return tot

    def is_input(self, p, v):
        """the list holds the tokens handed in, all of them, in order"""
        segs = self.seq(p, len(p.ev), v)
        if len(segs) != 1:
            return False
        s = segs[0]
        if s.base is None or s.a != 1 or not self.eqs(p).zero(s.b) or any(val is not HOLE or cs for cs, val in s.alts):
            return False
        if not (s.base is self.IN or s.base.tag == "vid" and False):
            return False
        E = self.eqs(p)
        return E.zero(s.n - lin_of(mk("len", s.base)))

    def result(self, p, st, pl):
        rc = self.rc
        ret = subst(subst(st.ret, p.m), p.res)
        calls = [(k, ev) for k, ev in enumerate(p.ev) if ev.a[0] == "rc"]
        if not calls:
            self.ob(("C08", "C12"), False, "a parse derives the initial symbol", pl, "returns %s without parsing" % self.show(ret), p)
            return
        if len(calls) > 2:
            self.unsure(("C12", "C13"), "at most two passes", pl, "%d passes" % len(calls))
            return
        kinds = []
        for n, (k, ev) in enumerate(calls):
            a = ev.a[2].a
            g = lambda r: a[self.pr[r]]
            tok = g("tokens")
            self.ob(("C08", "C12", "C13"), g("self") is self.SELF, "the parser itself is used", pl, "", p)
            self.ob(("C08", "C11"), g("sym") is self.INI, "a parse derives the initial symbol", pl, "derives %s" % self.show(g("sym")), p)
            self.ob(("C09", "C12", "C13"), self.equal(p, g("pos"), I(0)), "a parse starts at the first token", pl, "starts at %s" % self.show(g("pos")), p)
            try:
                v = tok.a[0] if tok.tag == "vec" else None
                ok = v is not None and self.is_input(p, v) and self.eqs(p).zero(lin_of(tok.a[1]) - self.len_of(p, v))
                self.ob(("C09", "C13"), ok, "the whole input is parsed, in order", pl, "parses %s" % self.show(tok), p)
            except Exotic as x:
                self.exotic(("C09", "C13"), "the whole input is parsed, in order", pl, x, p)
                v = tok.a[0] if tok.tag == "vec" else None
            self.TOK = v if v is not None else tok
            # candidates
            try:
                ok, why = self.row(p, k, g("cands"), self.INI, I(0), g("sym"), g("pos"))
                if ok is False:
                    # the token's own content may have been followed back to the input
                    self.TOK, keep = self.IN, self.TOK
                    ok2, why2 = self.row(p, k, g("cands"), self.INI, I(0), g("sym"), g("pos"))
                    if ok2:
                        ok = ok2
                if ok is None:
                    self.unsure(("C08", "C12"), "candidates are the table row", pl, why)
                else:
                    self.ob(("C08", "C12") if n == 0 else ("C08", "C12", "C13"), ok, "candidates are the table row", pl, why, p)
            except Exotic as x:
                self.exotic(("C08", "C12"), "candidates are the table row", pl, x, p)
            res = None
            for e2 in p.ev[k:]:
                if e2.a[0] == "asm" and e2.a[1].a[0] == "var" and e2.a[1].a[1] is ev.a[3]:
                    x = e2.a[2]
                    res = x.a[0] if isinstance(x, T) else x
            kinds.append(rc.kind.get(res))
            fl = g("flag")
            if n == 0:
                self.ob(("C13",), fl is FALSE, "the first pass leaves the solver out", pl, "passes %s" % self.show(fl), p)
            else:
                self.ob(("C13",), fl is TRUE, "the second pass may consult the solver", pl, "passes %s" % self.show(fl), p)
                self.ob(("C13", "C12"), kinds[0] == "err" and self.solver(p) is True, "the second pass is made only after failure and with a solver", pl, "the first pass gave %s, solver %s" % (kinds[0], self.solver(p)), p)
        if len(calls) == 1:
            self.ob(("C13",), kinds[0] in ("ok", "fix") or self.solver(p) is False, "a failed parse is repeated with the solver", pl, "the first pass gave %s, solver %s" % (kinds[0], self.solver(p)), p)
        x = calls[-1][1].a[3]
        kd = kinds[-1]
        tags = {"ok": ("C08", "C09", "C14"), "err": ("C11", "C12"), "fix": ("C14",)}.get(kd)
        if tags is None:
            self.ob(("C08", "C12", "C14"), False, "results are handed on unchanged", pl, "the result is not looked at", p)
            return
        rule = "results are handed on unchanged"
        if kd == "err" and ret is x:
            ok = True
        elif ret.tag != "adt":
            ok = False
        else:
            pay = ret.a[2][0][1] if len(ret.a[2]) == 1 else None
            if kd == "ok":
                ok = ret.a[1] == "Ok" and pay is not None and proj(pay, None, "root") is rc.get(x, rc.by["ok"], "node")
            elif kd == "fix":
                ok = ret.a[1] == "Fix" and pay is rc.get(x, rc.by["fix"], "fixed")
            else:
                ok = ret.a[1] == "Err" and pay is rc.get(x, rc.by["err"], "failed")
        self.ob(tags, ok, rule, pl, "a %s result becomes %s" % (kd, self.show(ret)), p)
        return kd


def check(pid):
    def f(prog, rep, tier):
        p = Parser(prog, rep, pid)
        try:
            p.run()
        except Exotic as x:
            raise Undecided(str(x))
    return f
