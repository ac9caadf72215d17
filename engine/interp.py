"""Path-sensitive abstract interpretation of MIR (see DESIGN.md).

Every function reachable from an analysed entry is inlined; recursion is cut (an `rc` event and an
opaque result).  Natural loops are solved to a fixpoint over a finite set of header states in which
changing integers and iteration-local values are generalised to `phi` symbols; each iteration path
is recorded as a word of events, so that a loop leaves behind an automaton (`Inst`) whose words
say what an arbitrary iteration tests and does.
"""
import json
from terms import *
import loops

STRUCT = {"adt", "tup", "clo", "it", "vec", "arr", "cell", "ivec", "slice", "chain", "iempty", "itop"}
ICONT = {"chain", "iempty", "itop"}


LOGKINDS = {"new", "push", "pop", "clear", "vrev", "vinsert", "vmut", "vset", "copyof", "ipush", "iclear", "ins", "mapins", "setrm", "setclr", "setmut", "unkw", "take", "store"}


class Limit(Exception):
    pass


class Restart(Exception):
    pass


class Frame:
    __slots__ = ("fid", "body", "block", "dest", "ret")

    def __init__(self, fid, body, block, dest, ret):
        self.fid, self.body, self.block, self.dest, self.ret = fid, body, block, dest, ret


class State:
    __slots__ = ("frames", "mem", "facts", "ints", "log", "ghost", "fresh", "ret", "info")

    def clone(self):
        s = State()
        s.frames = list(self.frames)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.ints = dict(self.ints)
        s.log = self.log
        s.ghost = dict(self.ghost)
        s.fresh = self.fresh
        s.ret = self.ret
        s.info = self.info
        return s

    @property
    def top(self):
        return self.frames[-1]

    def goto(self, b):
        f = self.frames[-1]
        self.frames[-1] = Frame(f.fid, f.body, b, f.dest, f.ret)

    def ev(self, kind, *a):
        self.log = mk("cons", self.log, mk("ev", kind, *a))


class LoopCtx:
    __slots__ = ("fid", "header", "body", "key")


class Inst:
    """a solved loop instance: automaton over header states"""

    def __init__(self, t, L, entry):
        self.t = t
        self.L = L
        self.entry = entry
        self.heads = []
        self.edges = []  # (i, word, j, steps)
        self.ends = []  # the state at the end of each edge
        self.exits = []  # (i, word, kind)
        self.inits = {}  # phi -> init (entry)
        self.steps = {}  # phi -> set of back values
        self.cls = {}
        self.groups = {}  # group id -> indices into exits
        self.vids = None


class Engine:
    def __init__(self, prog):
        self.prog = prog
        self.insts = {}
        self.maptypes = {}  # declared types of maps made here
        self.held = {}  # map -> type of the values stored in it
        self.active = []  # loops being solved, innermost last
        self.memo = {}
        self.assumed = set()  # (loop key, collection): assumed unchanged by the loop being solved
        self.touching = set()
        self.abool = True
        self.slim = True
        self.headpos = False  # infer which counters are positive at a loop head
        self.hints = {}  # loop key -> locations already seen to change
        self.inst_n = {}
        self.fns = {}
        self.oracle = []
        self.axints = []  # hooks(base) -> list of (a,b,k) axioms about a base int term
        self.ptypes = {}
        self.reset_loops = set()
        self.extern_hook = None
        self.rc_hook = None
        self.ev_hooks = []
        self.cut = set()  # bodies never inlined
        self.stats = {"blocks": 0, "forks": 0, "calls": 0, "loops": 0, "restarts": 0, "fns": set(), "unk": {}}
        self.limit = 400000
        import prims
        self.P = prims.Prims(self)

    # ------------------------------------------------------------------ entry
    def init_state(self, body, args, fid=None):
        st = State()
        fid = fid or mk("fid", mk("root"), 0, body.u)
        st.frames = [Frame(fid, body, 0, None, None)]
        st.mem = {}
        st.facts = {}
        st.ints = {}
        st.log = NIL
        st.ghost = {}
        st.fresh = False
        st.ret = None
        st.info = None
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        return st

    def params(self, body, names=None):
        out = []
        nm = {}
        for n, p in body.j["names"]:
            if not p["p"] and 1 <= p["l"] <= body.argc:
                nm[p["l"]] = n
        for i in range(1, body.argc + 1):
            n = nm.get(i, "arg%d" % i)
            self.ptypes[n] = body.locals[i]
            out.append(mk("p", n))
        return out

    def analyse(self, body, args=None, st=None):
        if st is None:
            st = self.init_state(body, args if args is not None else self.params(body))
        return list(self.run(st, None))

    # ------------------------------------------------------------------ running
    def run(self, st0, L):
        work = [st0]
        while work:
            st = work.pop()
            fr = st.top
            if L is not None and fr.fid is L.fid:
                if fr.block == L.header and not st.fresh:
                    yield ("back", st)
                    continue
                if fr.block not in L.body:
                    yield ("exit", st)
                    continue
            if not st.fresh and fr.block in fr.body.loops():
                if self.unnest(st):
                    fr = st.top
                for kind, s in self.solve_loop(st, fr.fid, fr.block):
                    if kind == "exit":
                        work.append(s)
                    else:
                        yield (kind, s)
                continue
            st.fresh = False
            for kind, s in self.exec_block(st):
                if kind == "go":
                    work.append(s)
                else:
                    yield (kind, s)

    # ------------------------------------------------------------------ loops over nested iterators
    def nest_at(self, st, fr, place):
        """location and value of the iterator a loop asks for its next element"""
        cur = self.place(st, fr, place)
        for _ in range(8):
            if cur[0] != "loc":
                return None, None
            v = self.read_loc(st, cur[1])
            if v.tag != "ref":
                return cur[1], v
            cur = ("loc", v.a)
        return None, None

    def nest_levels(self, v, pre=""):
        """paths of the FlatMap and Flatten parts of an iterator, from the outside in; None if other adaptors
        are in between"""
        out = []
        path = ()
        while v is not None and v.tag == "adt":
            n = v.a[0].split("::")[-1]
            d = dict(v.a[2])
            if n in (pre + "FlatMap", pre + "Flatten"):
                if not pre and not (d["cur"].tag == "adt" and d["cur"].a[1] == "None"):
                    return None
                out.append(path)
            elif n not in ("Map", "Filter", "FilterMap", "Cloned", "Copied", "Inspect", "Enumerate") or "i" not in d:
                break
            path += ((None, "i"),)
            v = d["i"]
        if v is not None and self.P.nested(v):
            return None
        return out

    def unnest(self, st):
        """a loop about to be entered asks an iterator that runs through the elements of others: read it as
        loops inside each other"""
        fr = st.top
        body, H = fr.body.nests.get(fr.block, (fr.body, fr.block))
        info = body.next_loop(H)
        if info is None:
            return False
        loc, v = self.nest_at(st, fr, info[0])
        lv = self.nest_levels(v) if v is not None and v.tag == "adt" else []
        if not lv or not all(self.used_once(st, l) for l in self.nest_chain(st, fr, info[0])):
            if body is not fr.body:
                st.frames[-1] = Frame(fr.fid, body, H, fr.dest, fr.ret)
            return body is not fr.body
        b = body.nest(H, len(lv))
        st.frames[-1] = Frame(fr.fid, b, b.entry, fr.dest, fr.ret)
        new = set(range(len(body.blocks), len(b.blocks)))
        for L in self.active:
            if L.fid is fr.fid and H in L.body and not new <= L.body:
                L.body = L.body | new
        for path in lv:
            x = self.read_loc(st, (loc[0], loc[1], loc[2] + path))
            n = x.a[0].split("::")
            x = mk("adt", "::".join(n[:-1] + ["N" + n[-1]]), x.a[1], x.a[2])
            self.write_loc(st, (loc[0], loc[1], loc[2] + path), x)
        return True

    def nest_chain(self, st, fr, place):
        """the locals through which the loop gets at its iterator"""
        cur = self.place(st, fr, place)
        out = [(fr.fid, place["l"])]
        for _ in range(8):
            if cur[0] != "loc":
                break
            out.append((cur[1][0], cur[1][1]))
            v = self.read_loc(st, cur[1])
            if v.tag != "ref":
                break
            cur = ("loc", v.a)
        return out

    def used_once(self, st, l):
        for f in st.frames:
            if f.fid is l[0]:
                return f.body.origin.mentions(l[1]) <= 1
        return False

    # ------------------------------------------------------------------ loops
    def in_loop(self, sym, L):
        """was this symbol born inside an iteration of L?"""
        if sym.tag == "phi":
            k = sym.a[0]
            if k is L.key:
                return True
            fid, blk = k.a[0], k.a[1]
        elif sym.tag == "vid":
            fid, blk = sym.a[0], sym.a[1]
        else:
            fid, blk = sym.a[1], sym.a[2]
        while isinstance(fid, T) and fid.tag == "fid":
            if fid is L.fid:
                return blk in L.body
            blk = fid.a[1]
            fid = fid.a[0]
        return False

    def born(self, t, L):
        for s in t.syms:
            if self.in_loop(s, L):
                return True
        return False

    def normalise(self, st):
        """drop dead locals, unreachable temporaries and facts about values that are gone"""
        keep = {}
        work = []
        for i, f in enumerate(st.frames):
            blk = f.block if i == len(st.frames) - 1 else st.frames[i + 1].ret
            lv = f.body.live()[blk]
            for l in lv:
                k = (f.fid, l)
                if k in st.mem:
                    work.append(k)
            if f.dest is not None and f.dest[0] == "loc" and f.dest[1][2]:
                work.append((f.dest[1][0], f.dest[1][1]))
        reach = set()
        for v in st.ghost.values():
            if isinstance(v, T):
                reach |= v.syms
                self.refs(v, work)
        while work:
            k = work.pop()
            if k in keep or k not in st.mem:
                continue
            v = st.mem[k]
            keep[k] = v
            reach |= v.syms
            self.refs(v, work)
        st.mem = keep
        for f in st.frames:
            if f.dest is not None and f.dest[0] == "val":
                reach |= f.dest[1].syms
        st.facts = {a: v for a, v in st.facts.items() if a.syms <= reach}
        if self.slim and any(self.slimable(a) for a in st.facts):
            S = set()
            for v in st.mem.values():
                ls = []
                self.leaves(v, (), ls)
                for p, x in ls:
                    S.add(x)
                    if x.tag == "guard":
                        x = x.a[1]
                    if x.tag == "enum":
                        x = x.a[0]
                    if x.tag == "mget":
                        S.add(x.a[1])
            st.facts = {a: v for a, v in st.facts.items() if not self.slimable(a) or (a.a[1].a[1] if a.a[1].tag == "mget" else a.a[2]) in S}
        drop = set()
        for a, b in st.ints:
            for x in (a, b):
                if not x.syms <= reach:
                    drop.add(x)
        if drop:
            ints = dict(st.ints)
            for x in drop:
                ins = [(a, k) for (a, b), k in ints.items() if b is x]
                outs = [(b, k) for (a, b), k in ints.items() if a is x]
                outs.append((ZERO, None))
                ints = {p: k for p, k in ints.items() if p[0] is not x and p[1] is not x}
                for a, k in ins:
                    for b, k2 in outs:
                        if k2 is None or a is b:
                            continue
                        o = ints.get((a, b))
                        if o is None or k + k2 < o:
                            ints[(a, b)] = k + k2
                # x >= 0
                for b, k2 in outs:
                    if k2 is not None and k2 < 0:
                        o = ints.get((ZERO, b))
                        if o is None or k2 < o:
                            ints[(ZERO, b)] = k2
            st.ints = ints
        st.ints = {p: k for p, k in st.ints.items() if not (p[0] is ZERO and k >= 0)}

    def slimable(self, a):
        """membership facts of analysis maps: kept at loop boundaries only for symbols at hand"""
        if a.a[0] == "in":
            return a.a[1].tag == "mget"
        return a.a[0] == "haskey" and not (hasattr(self, "theory") and self.theory.gfield(a.a[1]))

    def refs(self, v, work):
        if v.tag in ("ref",):
            work.append((v.a[0], v.a[1]))
            return
        for s in subterms(v):
            if s.tag == "ref":
                work.append((s.a[0], s.a[1]))

    def leaves(self, t, path, out):
        if t.tag in STRUCT:
            if t.tag == "adt":
                if not t.a[2]:
                    out.append((path, t))
                for n, v in t.a[2]:
                    self.leaves(v, path + ((t.a[1], n),), out)
            elif t.tag == "clo":
                for i, v in enumerate(t.a[1]):
                    self.leaves(v, path + (i,), out)
            else:
                any_ = False
                for i, v in enumerate(t.a):
                    if isinstance(v, T):
                        any_ = True
                        self.leaves(v, path + (i,), out)
                if not any_:
                    out.append((path, t))
        else:
            out.append((path, t))

    def map_leaves(self, t, path, f):
        if t.tag in STRUCT:
            if t.tag == "adt":
                if not t.a[2]:
                    return f(path, t)
                return mk("adt", t.a[0], t.a[1], tuple((n, self.map_leaves(v, path + ((t.a[1], n),), f)) for n, v in t.a[2]))
            if t.tag == "clo":
                return mk("clo", t.a[0], tuple(self.map_leaves(v, path + (i,), f) for i, v in enumerate(t.a[1])))
            return mk(t.tag, *[self.map_leaves(v, path + (i,), f) if isinstance(v, T) else v for i, v in enumerate(t.a)])
        return f(path, t)

    def is_int(self, t):
        g = t.tag
        return g in ("int", "lin", "len") or (g == "phi" and t.a[2] == "i") or (g == "p" and self.ptypes.get(t.a[0], {}).get("k") == "int") or g == "sub" or self.int_typed(t)

    def int_typed(self, t):
        ty = self.typeof(t)
        return bool(ty) and ty.get("k") == "int"

    def int_slot(self, st, loc):
        """is the location a whole local declared with an integer type?"""
        root, path = loc
        if path or not isinstance(root[1], int):
            return False
        return any(f.fid is root[0] and root[1] < len(f.body.locals) and f.body.locals[root[1]].get("k") == "int" for f in st.frames)

    def match(self, h, b, L, path, mis):
        """same skeleton? collects mismatching leaves"""
        if h is b:
            return True
        if h.tag in STRUCT and h.tag == b.tag:
            if h.tag == "adt":
                if h.a[0] != b.a[0] or h.a[1] != b.a[1]:
                    return False
                for (n, x), (m, y) in zip(h.a[2], b.a[2]):
                    if not self.match(x, y, L, path + ((h.a[1], n),), mis):
                        return False
                return True
            if h.tag == "clo":
                if h.a[0] != b.a[0]:
                    return False
                return all(self.match(x, y, L, path + (i,), mis) for i, (x, y) in enumerate(zip(h.a[1], b.a[1])))
            if len(h.a) != len(b.a):
                return False
            if h.tag == "it" and (h.a[3:] != b.a[3:]):
                return False
            for i, (x, y) in enumerate(zip(h.a, b.a)):
                if isinstance(x, T) != isinstance(y, T):
                    return False
                if isinstance(x, T):
                    if not self.match(x, y, L, path + (i,), mis):
                        return False
                elif x != y:
                    return False
            return True
        if h.tag in ICONT or b.tag in ICONT:
            return False
        if self.abool and h.tag == "bool" and b.tag == "bool" and not path and self.accumulator(self.mroot, L):
            mis.append((path, h, b))
            return True
        if h.tag == "phi" and h.a[0] is L.key:
            if (h.a[2] == "i") != self.is_int(b):
                if b.tag in STRUCT or b.tag == "bool":
                    return False
            mis.append((path, h, b))
            return True
        if b.tag in ("bool",) or (b.tag == "adt"):
            return False
        if h.tag in ("bool", "adt"):
            return False
        if (h.tag == "sym" and h.a[0] == "oldlen") != (b.tag == "sym" and b.a[0] == "oldlen"):
            return False
        if self.is_int(h) and self.is_int(b):
            mis.append((path, h, b))
            return True
        if self.born(b, L):
            mis.append((path, h, b))
            return True
        return False

    def accumulator(self, root, L):
        """a boolean local that only collects (`x |= …`) and decides nothing inside its function's loop"""
        fid, l = root
        if not (isinstance(fid, T) and fid.tag == "fid" and isinstance(l, int)):
            return False
        b = self.prog.bodies.get((fid.a[2], -1))
        if b is None or b.model:
            return False
        c = b.__dict__.setdefault("_accs", {})
        if l not in c:
            c[l] = b.locals[l]["k"] == "bool" and not flows_to_switch(b, l)
        return c[l]

    def roots(self, st):
        r = dict(st.mem)
        for k, v in st.ghost.items():
            if isinstance(v, T):
                r[("ghost", k)] = v
        return r

    def skey(self, st):
        return (
            tuple((f.fid, f.block) for f in st.frames),
            frozenset(st.mem.items()),
            frozenset(st.facts.items()),
            frozenset(st.ints.items()),
            frozenset((k, v) for k, v in st.ghost.items()),
        )

    def solve_loop(self, st, fid, header):
        self.stats["loops"] += 1
        L = LoopCtx()
        L.fid = fid
        L.header = header
        L.body = st.top.body.loops()[header]
        L.key = mk("loop", fid, header)
        self.normalise(st)
        ek = (L.key, self.skey(st), self.logkey(st), L.key in self.reset_loops)
        r = self.memo.get(ek)
        if r is None:
            n = self.inst_n.get(ek)
            if n is None:
                n = self.inst_n[ek] = len(self.inst_n)
            cfg = {"widen": dict(self.hints.get(L.key, {})), "drop": set(), "cdrop": set(), "cands": set(), "ent": {}, "pos": {}, "mat": {}}
            for tries in range(400):
                try:
                    r = self.solve_once(st, L, cfg, n)
                    bad = [w for k, w in self.assumed if k is L.key and (k, w) not in self.touching and self.P.inst_touches(self.insts[mk("inst", L.key, n)], w)]
                    if bad:
                        self.touching |= {(L.key, w) for w in bad}
                        self.memo.clear()
                        raise Restart
                    break
                except Restart:
                    self.stats["restarts"] += 1
                    if hasattr(self, "theory"):
                        self.theory.dom_cache.clear()
                    continue
            else:
                raise Limit("loop does not stabilise: %s" % (st.top.body.p,))
            self.memo[ek] = r
            self.hints.setdefault(L.key, {}).update({l: c for l, c in cfg["widen"].items() if c[1]})
        out = []
        it = mk("inst", L.key, self.inst_n[ek])
        for k, s, w in r:
            s = s.clone()
            log = mk("cons", st.log, mk("ev", "L", it))
            for e in w:
                log = mk("cons", log, e)
            s.log = log
            out.append((k, s))
        return out

    def logkey(self, st):
        """the part of the log that can influence what happens from here on"""
        V = set()
        for v in st.mem.values():
            for s in v.syms:
                if s.tag == "vid":
                    V.add(s)
        out = []
        log = st.log
        while log is not NIL and V:
            e = log.a[1]
            k = e.a[0]
            if k in LOGKINDS:
                sy = e.a[1].syms
                if not sy.isdisjoint(V):
                    out.append(e)
                    for x in e.a[1:]:
                        for y in x.syms:
                            if y.tag == "vid":
                                V.add(y)
            elif k == "L":
                inst = self.insts.get(e.a[1])
                if inst is not None:
                    vs = self.inst_vids(inst)
                    if not vs.isdisjoint(V):
                        out.append(e)
                        V |= vs
            log = log.a[0]
        return tuple(out)

    def inst_vids(self, inst):
        if inst.vids is None:
            inst.vids = set()
            vs = set()
            for w in [w for _, w, _, _ in inst.edges] + [x[1] for x in inst.exits]:
                for e in w:
                    if e.a[0] in LOGKINDS:
                        for x in e.a[1:]:
                            for y in x.syms:
                                if y.tag == "vid":
                                    vs.add(y)
                    elif e.a[0] == "L":
                        i2 = self.insts.get(e.a[1])
                        if i2 is not None:
                            vs |= self.inst_vids(i2)
            inst.vids = vs
        return inst.vids

    def phi(self, L, cls, isint):
        return mk("phi", L.key, cls, "i" if isint else "o")

    def solve_once(self, st, L, cfg, n):
        self.active.append(L)
        try:
            return self.solve_once_(st, L, cfg, n)
        finally:
            self.active.pop()

    def solve_once_(self, st, L, cfg, n):
        it = mk("inst", L.key, n)
        entry = st
        inst = Inst(it, L, entry)
        widen = cfg["widen"]

        def apply(s, rec=None):
            s2 = s.clone()
            for root, t in self.roots(s).items():
                def f(path, leaf):
                    loc = (root, path)
                    c = widen.get(loc)
                    if c is None:
                        return leaf
                    if rec is not None:
                        rec.append((loc, c, leaf))
                    return self.phi(L, c[0], c[1])
                nt = self.map_leaves(t, (), f)
                if nt is not t:
                    if root[0] == "ghost":
                        s2.ghost[root[1]] = nt
                    else:
                        s2.mem[root] = nt
            return s2

        if cfg["mat"]:
            # iterators handed in by the caller, in the form they take once advanced
            entry = entry.clone()
            for root, x in cfg["mat"].items():
                if entry.mem.get(root) is x:
                    entry.mem[root] = mk("it", x, I(0), mk("len", x), "seq", False)
            inst.entry = entry
        rec = []
        h0 = apply(entry, rec)
        for loc, c, leaf in rec:
            p = self.phi(L, c[0], c[1])
            inst.cls[p] = c
            o = inst.inits.get(p)
            if o is not None and o is not leaf:
                self.split_class(cfg, [(l2, c2, v2) for l2, c2, v2 in rec])
                raise Restart
            inst.inits[p] = leaf
        if L.key in self.reset_loops:
            h0.ghost["chg"] = FALSE
            h0.ghost["prev"] = TRUE
        h0.log = mk("cons", entry.log, mk("ev", "L", it))
        for a in cfg["drop"]:
            h0.facts.pop(a, None)
        # candidate invariants
        ips = [p for p in inst.inits if p.a[2] == "i"]
        cands = set()
        for p in ips:
            e = inst.inits[p]
            b, k = split(e)
            cands.add((p, b, k))
            cands.add((b, p, -k))
            for q in ips:
                if q is not p:
                    b2, k2 = split(inst.inits[q])
                    if b2 is b:
                        cands.add((p, q, k - k2))
        for root, t in self.roots(h0).items():
            self.its_cands(t, L, cands)
        cands |= cfg["cands"]
        cands = {c for c in cands if c not in cfg["cdrop"]}
        # entry check
        for c in list(cands):
            a, b, k = c
            ea = inst.inits.get(a, a)
            eb = inst.inits.get(b, b)
            if (self.born(ea, L) or self.born(eb, L)) or not self.le(entry, ea, add(eb, k)):
                cfg["cdrop"].add(c)
                cands.discard(c)
        for a, b, k in cands:
            self.add_le(h0, a, b, k)
        inst.ints0 = dict(h0.ints)
        if any(v.tag == "ivec" for v in h0.mem.values()):
            # with an index list the first iteration is kept apart from the others
            for p in ips:
                e = inst.inits[p]
                if not self.born(e, L):
                    self.add_lt(h0, p, e, 0)
                    self.add_lt(h0, e, p, 0)
        heads = [h0]
        inst.heads = heads
        inst.hkeys = [self.skey(h0)]
        done = 0
        results = []
        groups = {}
        while done < len(heads):
            h = heads[done]
            i = done
            done += 1
            if len(heads) > 120:
                self.dbg_heads = heads
                raise Limit("too many header states in %s" % st.top.body.p)
            s = h.clone()
            s.fresh = True
            for kind, o in self.run(s, L):
                w = self.word(o.log, it)
                if kind == "exit":
                    o = o.clone()
                    self.normalise(o)
                    k2 = self.skey(o)
                    gid = groups.get(k2)
                    if gid is None:
                        gid = groups[k2] = len(groups)
                        results.append(("exit", o, (mk("ev", "X", it, I(gid)),)))
                    inst.exits.append((i, w, kind, o))
                    inst.groups.setdefault(gid, []).append(len(inst.exits) - 1)
                    continue
                if kind != "back":
                    inst.exits.append((i, w, kind, o))
                    results.append((kind, o, tuple(w)))
                    continue
                o0 = o
                o = o.clone()
                self.normalise(o)
                # facts of the header state that did not survive
                lost = [a for a, v in h.facts.items() if o.facts.get(a) is not v and not self.hist(a, L)]
                if lost:
                    cfg["drop"] |= set(lost)
                    raise Restart
                self.collapse_ivecs(o)
                self.back_edge(inst, heads, i, h, o, w, L, cfg, apply, cands)
                inst.ends.append(o0)
        self.insts[it] = inst
        return results

    def its_cands(self, t, L, cands):
        for s in subterms(t):
            if s.tag == "it":
                lo, hi = s.a[1], s.a[2]
                lb, lk = split(lo)
                hb, hk = split(hi)
                if lb.tag == "phi" and lb.a[0] is L.key and not self.born(hb, L):
                    cands.add((lb, hb, hk - lk))
                if hb.tag == "phi" and hb.a[0] is L.key and not self.born(lb, L):
                    cands.add((lb, hb, hk - lk))

    def hist(self, a, L):
        return any(s.tag == "phi" and s.a[0] is L.key for s in a.syms)

    def split_class(self, cfg, rec):
        grp = {}
        for loc, c, v in rec:
            grp.setdefault((c, v), []).append(loc)
        for (c, v), locs in grp.items():
            name = min(locs, key=repr)
            for l in locs:
                cfg["widen"][l] = (self.cname(name), c[1])

    def cname(self, loc):
        return repr(loc_str(loc))

    def back_edge(self, inst, heads, i, h, o, w, L, cfg, apply, cands):
        widen = cfg["widen"]
        oroots = self.roots(o)
        target = None
        if L.key in self.reset_loops:
            o.ghost["prev"] = o.ghost.get("chg", FALSE)
            o.ghost["chg"] = FALSE
            oroots = self.roots(o)
        for root, x in inst.entry.mem.items():
            b = o.mem.get(root)
            if b is not None and b is not x and b.tag == "it" and x.tag != "it" and b.a[0] is x and b.a[3] == "seq" and not b.a[4] and b.a[2] is mk("len", x):
                cfg["mat"][root] = x
                raise Restart
        best = None
        hist, expressed = self.rebase(o, L, h, widen)
        oroots = self.roots(o)
        for j, g in enumerate(heads):
            groots = self.roots(g)
            if set(groots) != set(oroots):
                continue
            mis = []
            ok = True
            for root in groots:
                m = []
                self.mroot = root
                if not self.match(groots[root], oroots[root], L, (), m):
                    ok = False
                    break
                mis += [((root, p), a, b) for p, a, b in m]
            if ok:
                # widen anything not yet widened
                new = [(loc, a, b) for loc, a, b in mis if loc not in widen]
                if new:
                    grp = {}
                    for loc, a, b in new:
                        grp.setdefault((a, b, self.is_int(b) or self.int_slot(o, loc)), []).append(loc)
                    for (a, b, isi), locs in grp.items():
                        nm = self.cname(min(locs, key=repr))
                        for l in locs:
                            widen[l] = (nm, isi)
                    raise Restart
                best = j
                break
        if best is None and len(heads) >= 4:
            # counters that keep moving without ever reaching the same shape twice
            hroots = self.roots(h)
            grp = {}
            for root, t in oroots.items():
                if root not in hroots or root[0] == "ghost":
                    continue
                ls, hs = [], []
                self.leaves(t, (), ls)
                self.leaves(hroots[root], (), hs)
                hs = dict(hs)
                for p, leaf in ls:
                    x = hs.get(p)
                    if x is not None and x is not leaf and (root, p) not in widen and x.tag == "int" and leaf.tag == "int":
                        grp.setdefault((x, leaf), []).append((root, p))
            if grp:
                for (a, b), locs in grp.items():
                    nm = self.cname(min(locs, key=repr))
                    for l in locs:
                        widen[l] = (nm, True)
                raise Restart
        # all widened locations of this state, and their values
        rec = []
        o2 = apply(o, rec)
        by = {}
        bad = False
        for loc, c, v in rec:
            if c in by and by[c] is not v:
                bad = True
            by[c] = v
        if bad:
            self.split_class(cfg, rec)
            raise Restart
        if best is None:
            # iteration-local values must be generalised
            new = []
            for root, t in self.roots(o2).items():
                ls = []
                self.leaves(t, (), ls)
                for p, leaf in ls:
                    if (root, p) not in widen and self.born(leaf, L) and (root, p) not in expressed:
                        hv = self.leaf_at(h, root, p)
                        if hv is leaf:
                            continue
                        new.append(((root, p), leaf))
            if new:
                grp = {}
                for loc, v in new:
                    grp.setdefault(v, []).append(loc)
                for v, locs in grp.items():
                    nm = self.cname(min(locs, key=repr))
                    for l in locs:
                        widen[l] = (nm, self.is_int(v) or self.int_slot(o2, l))
                raise Restart
        steps = {}
        for loc, c, v in rec:
            p = self.phi(L, c[0], c[1])
            steps[p] = v
            inst.cls[p] = c
        # candidate invariants preserved?
        for c in cands:
            a, b, k = c
            ea = steps.get(a, a)
            eb = steps.get(b, b)
            if not self.le(o, ea, add(eb, k)):
                cfg["cdrop"].add(c)
                raise Restart
        # new upper-bound candidates phi <= B from tests phi < B made in the iteration
        for (a, b), k in o.ints.items():
            if k <= -1 and a.tag == "phi" and a.a[0] is L.key and a.a[2] == "i" and b is not ZERO and not self.born(b, L):
                c = (a, b, 0)
                if c not in cfg["cands"] and c not in cfg["cdrop"] and c not in cands:
                    cfg["cands"].add(c)
                    raise Restart
        # the header state that this edge leads to
        o2.facts = {a: v for a, v in h.facts.items() if not self.hist(a, L)}
        o2.facts.update(hist)
        o2.ints = dict(inst.ints0)
        o2.ints.update({p: k for p, k in o.ints.items() if p[0].tag == "sym" and p[0].a[0] == "oldlen" and p[1].tag == "len" and not self.born(p[1], L)})
        o2.log = heads[0].log
        o2.frames = list(o2.frames)
        k2 = self.skey(o2)
        for j, k3 in enumerate(inst.hkeys):
            if k3 == k2:
                break
        else:
            # counters that are positive whenever this head is reached (assumed here, checked on every edge)
            o2.ints = dict(o2.ints)
            pos = cfg["pos"].setdefault(k2, {p for p, v in steps.items() if p.a[2] == "i" and self.headpos})
            for p in pos:
                self.add_le(o2, ZERO, p, -1)
            heads.append(o2)
            inst.hkeys.append(k2)
            j = len(heads) - 1
        if j:
            lost = [p for p in cfg["pos"].get(k2, ()) if not self.le(o, I(1), steps.get(p, p))]
            if lost:
                cfg["pos"][k2] = cfg["pos"][k2] - set(lost)
                raise Restart
        inst.edges.append((i, w, j, steps))
        for p, v in steps.items():
            inst.steps.setdefault(p, set()).add(v)

    def leaf_at(self, st, root, path):
        t = self.roots(st).get(root)
        if t is None:
            return None
        ls = []
        self.leaves(t, (), ls)
        for p, l in ls:
            if p == path:
                return l
        return None

    def rebase(self, o, L, h, widen):
        """values and facts of this iteration that are functions of an index which moves by a constant
        are restated in terms of its new value; -> (facts kept, locations restated)"""
        mv = {}
        bad = set()
        for root, t in self.roots(o).items():
            ls = []
            self.leaves(t, (), ls)
            for p, leaf in ls:
                c = widen.get((root, p))
                if c is None or not c[1]:
                    continue
                phi = self.phi(L, c[0], c[1])
                b, k = split(leaf)
                if b is phi and mv.get(phi, k) == k:
                    mv[phi] = k
                else:
                    bad.add(phi)
        for p in bad:
            mv.pop(p, None)
        expressed = set()
        if not mv:
            return {}, expressed
        m = {p: add(p, -k) for p, k in mv.items() if k}

        def fine(t):
            ss = [s for s in t.syms if self.in_loop(s, L)]
            return ss and all(s in mv for s in ss)

        for root, t in list(self.roots(o).items()):
            ls = []
            self.leaves(t, (), ls)
            ch = {}
            for p, leaf in ls:
                if (root, p) not in widen and (leaf.tag != "phi" or t.tag == "ivec") and fine(leaf):
                    ch[p] = subst(leaf, m)
                    expressed.add((root, p))
            if any(True for p in ch):
                nt = self.map_leaves(t, (), lambda p, l: ch.get(p, l))
                if root[0] == "ghost":
                    o.ghost[root[1]] = nt
                else:
                    o.mem[root] = nt
        out = {}
        if m and any(v.tag == "ivec" for v in o.mem.values()) and hasattr(self, "theory"):
            for a, v in o.facts.items():
                if a.a[0] in ("in", "haskey") and self.theory.gfield(a.a[1]) and fine(a):
                    if h.facts.get(a) is v:
                        continue
                    # only about the position just left
                    if all(split(s.a[1])[1] in (0, -1) for s in subterms(a) if s.tag == "idx" and split(s.a[1])[0] in m):
                        out[subst(a, m)] = v
        return out, expressed

    def collapse_ivecs(self, o):
        for k, v in list(o.mem.items()):
            if v.tag == "ivec":
                o.mem[k] = self.P.ivec_collapse(o, v)

    def word(self, log, it):
        out = []
        while log is not NIL:
            e = log.a[1]
            if e.a[0] == "L" and e.a[1] is it:
                break
            out.append(e)
            log = log.a[0]
        return out[::-1]

    def events(self, log):
        out = []
        while log is not NIL:
            out.append(log.a[1])
            log = log.a[0]
        return out[::-1]

    # ------------------------------------------------------------------ memory
    def read_loc(self, st, loc):
        fid, l, path = loc
        t = st.mem.get((fid, l))
        if t is None:
            return mk("unk", "uninit")
        for v, n in path:
            t = self.proj(st, t, v, n)
        return t

    def proj(self, st, t, v, n):
        if n == "cell":
            return t.a[0] if t.tag == "cell" else t
        if t.tag == "ref":
            if n in ("0", "pointer"):
                return t  # the pointer inside a Box
            return self.proj(st, self.read_loc(st, t.a), v, n)
        if t.tag == "adt" and v and t.a[1] != v:
            return mk("unk", "variant")
        if t.tag == "it" or t.tag == "vec":
            return mk("unk", "field")
        return proj(t, v, n)

    def write_loc(self, st, loc, val):
        fid, l, path = loc
        root = st.mem.get((fid, l))
        st.mem[(fid, l)] = self.setpath(st, root, path, val)

    def setpath(self, st, root, path, val):
        if not path:
            return val
        v, n = path[0]
        if root is None or root.tag == "uninit":
            return mk("adt", "?", v or "", ((n, self.setpath(st, None, path[1:], val)),))
        if n == "cell" and root.tag == "cell":
            return mk("cell", self.setpath(st, root.a[0], path[1:], val))
        if root.tag == "adt":
            fs = []
            hit = False
            for m, x in root.a[2]:
                if m == n:
                    fs.append((m, self.setpath(st, x, path[1:], val)))
                    hit = True
                else:
                    fs.append((m, x))
            if not hit:
                fs.append((n, self.setpath(st, None, path[1:], val)))
            return adt(root.a[0], root.a[1], tuple(fs))
        if root.tag == "tup":
            i = int(n)
            return mk("tup", *[self.setpath(st, x, path[1:], val) if j == i else x for j, x in enumerate(root.a)])
        if root.tag == "clo":
            i = int(n)
            return mk("clo", root.a[0], tuple(self.setpath(st, x, path[1:], val) if j == i else x for j, x in enumerate(root.a[1])))
        # opaque: open it up by its type
        ty = self.typeof(root)
        info = self.adt_info(ty)
        if info is not None:
            for vs in info["vs"]:
                if not v or vs["n"] == v:
                    fs = tuple((f["n"], proj(root, v, f["n"])) for f in vs["fs"])
                    x = mk("adt", info["p"], v or "", fs)
                    return self.setpath(st, x, path, val)
        if ty and ty.get("k") == "adt" and ty["p"].endswith("Option") and v == "Some":
            return self.setpath(st, mk("adt", ty["p"], "Some", (("0", mk("vf", root, "Some", "0")),)), path, val)
        st.ev("unk", "store into opaque value", root)
        self.unk("store:" + show(root)[:60])
        return mk("unk", "store")

    def adt_info(self, ty):
        if ty and ty.get("k") == "adt":
            return self.prog.adts.get(ty["p"])
        return None

    def unk(self, what):
        self.stats["unk"][what] = self.stats["unk"].get(what, 0) + 1

    # place -> ("loc", loc) | ("val", term)
    def place(self, st, fr, p):
        cur = ("loc", (fr.fid, p["l"], ()))
        var = None
        for e in p["p"]:
            k = e[0]
            if k == "deref":
                v = self.rd(st, cur)
                cur = self.deref(st, v, cur)
            elif k == "f":
                if cur[0] == "loc":
                    f, l, pa = cur[1]
                    cur = ("loc", (f, l, pa + ((var, e[2]),)))
                else:
                    cur = ("val", self.proj(st, cur[1], var, e[2]))
                var = None
            elif k == "v":
                var = e[2]
            elif k == "i":
                i = st.mem.get((fr.fid, e[1]), mk("unk", "idx"))
                v = self.rd(st, cur)
                cur = ("val", self.P.element1(st, v, i))
            elif k == "ci":
                v = self.rd(st, cur)
                if v.tag == "arr" and not e[2] and e[1] < len(v.a):
                    cur = ("val", v.a[e[1]])
                else:
                    i = I(e[1]) if not e[2] else add(self.P.length(st, v), -e[1])
                    cur = ("val", self.P.element1(st, v, i))
            elif k == "ss":
                v = self.rd(st, cur)
                n = self.P.length(st, v)
                hi = add(n, -e[2]) if e[3] else I(e[2])
                cur = ("val", mk("slice", self.P.coll(st, v), I(e[1]), hi))
            else:
                cur = ("val", mk("unk", "proj"))
        return cur

    def deref(self, st, v, cur):
        if v.tag == "ref":
            return ("loc", (v.a[0], v.a[1], v.a[2]))
        if v.tag == "guard":
            return self.deref(st, v.a[1], cur) if v.a[1].tag == "ref" else ("val", v.a[1])
        if v.tag in STRUCT or v.tag in ("int", "bool"):
            return cur  # by-value stand-in for a reference
        return ("val", v)

    def rd(self, st, cur):
        return self.read_loc(st, cur[1]) if cur[0] == "loc" else cur[1]

    def read_place(self, st, fr, p):
        return self.rd(st, self.place(st, fr, p))

    def write_place(self, st, fr, p, val):
        cur = self.place(st, fr, p)
        if cur[0] == "loc":
            self.write_loc(st, cur[1], val)
        else:
            self.store_opaque(st, cur[1], val)

    def store_opaque(self, st, target, val):
        st.ev("store", target, val)

    def fn_term(self, c):
        k = json.dumps(c, sort_keys=True)
        t = mk("fn", k)
        self.fns[t] = c
        return t

    def op(self, st, fr, o):
        if "cp" in o:
            return self.read_place(st, fr, o["cp"])
        if "mv" in o:
            p = o["mv"]
            v = self.read_place(st, fr, p)
            if not p["p"]:
                st.mem.pop((fr.fid, p["l"]), None)
            return v
        if "int" in o:
            return I(int(o["int"]))
        if "bool" in o:
            return B(o["bool"])
        if "fn" in o:
            return self.fn_term(o["fn"])
        if "promoted" in o and o["promoted"] >= 0:
            return self.promoted(st, o["uneval"], o["promoted"])
        if "static" in o:
            st.ev("static", mk("p", o["static"]))
            return mk("p", "static:" + o["static"])
        if "c" in o:
            t = o["t"]
            if t["k"] == "tuple" and not t["a"]:
                return UNIT
            if t["k"] == "closure":
                return mk("clo", t["u"], ())
            if t["k"] == "fndef":
                return self.fn_term(t["f"])
            if t["k"] == "adt":
                return mk("adt", t["p"], "", ())
            return mk("const", o["c"])
        if "uneval" in o:
            b = self.prog.bodies.get((o["uneval"], -1))
            return mk("const", o["uneval"])
        return mk("const", json.dumps(o))

    def promoted(self, st, u, i):
        b = self.prog.bodies.get((u, i))
        if b is None:
            return mk("const", "promoted")
        fid = mk("fid", mk("root"), i, "promoted:" + u)
        fr = Frame(fid, b, 0, None, None)
        blk = 0
        for _ in range(20):
            for s in b.blocks[blk]["s"]:
                if s[0] == "=":
                    self.assign(st, fr, s)
            t = b.blocks[blk]["t"]
            if t[0] == "goto":
                blk = t[1]
                continue
            if t[0] == "return":
                return st.mem.get((fid, 0), mk("const", "promoted"))
            break
        self.unk("promoted")
        return mk("unk", "promoted")

    # ------------------------------------------------------------------ statements
    def assign(self, st, fr, s):
        rv = s[2]
        k = rv[0]
        if k == "use":
            v = self.op(st, fr, rv[1])
        elif k == "ref":
            cur = self.place(st, fr, rv[2])
            if cur[0] == "loc":
                v = mk("ref", *cur[1])
                # a reference to a reference-like opaque value stays a location
            else:
                v = cur[1]
        elif k == "rawptr":
            cur = self.place(st, fr, rv[1])
            v = mk("ref", *cur[1]) if cur[0] == "loc" else cur[1]
        elif k == "cast":
            v = self.op(st, fr, rv[1])
        elif k == "bin":
            v = None
        elif k == "un":
            x = self.op(st, fr, rv[2])
            if rv[1] == "PtrMetadata":
                v = self.P.length(st, self.P.auto(st, x)[1])
            else:
                v = None
        elif k == "discr":
            x = self.read_place(st, fr, rv[1])
            v = mk("discr", x, tuple((a, b) for a, b in rv[2]))
        elif k == "agg":
            ops = [self.op(st, fr, o) for o in rv[2]]
            v = self.aggregate(st, fr, rv[1], ops, s[3] if len(s) > 3 else None)
        elif k == "repeat":
            v = mk("unk", "repeat")
        else:
            v = mk("unk", "rvalue")
            self.unk("rvalue:" + str(rv)[:50])
        return v

    def whole_copy(self, st, v):
        """a list filled with the elements of another one, one by one and in order, is that list"""
        if v.tag != "vec":
            return v
        vid, log, fill, gids = v.a[0], st.log, None, {}
        while True:
            if log is NIL:
                return v
            ev = log.a[1]
            if ev.a[0] == "new" and ev.a[1] is vid:
                break
            if ev.a[0] == "X":
                gids[ev.a[1]] = ev.a[2].a[0]
            elif self.P.touches([ev], vid):
                if ev.a[0] != "L" or fill is not None:
                    return v
                fill = ev.a[1]
            log = log.a[0]
        inst = self.insts.get(fill) if fill is not None else None
        if inst is None or fill not in gids:
            return v
        for C in loops.visited(self, inst):
            if C.tag != "f":
                continue
            cov = loops.coverage(self, inst, C, gids[fill])
            if not cov.complete or cov.reverse:
                continue
            full = {id(w) for k, i, w, p, t in cov.words}
            fl = loops.flat(self, inst)
            rest = [w for i, w, j, s in fl.edges if id(w) not in full] + [w for i, w, k, s, g in fl.exits if id(w) not in full and g == gids[fill]]
            if any(self.P.touches(w, vid) for w in rest) or not cov.words:
                continue
            if all(self.copies_one(w, C, vid) for k, i, w, p, t in cov.words):
                return C
        return v

    def copies_one(self, w, C, vid):
        el = [ev.a[3] for ev in w if ev.a[0] == "visit" and ev.a[1] is C]
        ch = [ev for ev in w if self.P.touches([ev], vid)]
        return len(ch) == 1 and len(el) == 1 and ch[0].a[0] == "push" and ch[0].a[1] is vid and any(x is el[0] for x in ch[0].a[2:])

    def aggregate(self, st, fr, k, ops, span):
        kk = k["k"]
        if kk == "tuple":
            return mk("tup", *ops)
        if kk == "array":
            return mk("arr", *ops)
        if kk == "closure":
            return mk("clo", k["u"], tuple(ops))
        if kk == "adt":
            if not fr.body.model and k["p"] in self.prog.adts:
                ops = [self.whole_copy(st, x) for x in ops]
            fs = tuple(zip(k["fs"], ops))
            v = adt(k["p"], k["v"] if k["enum"] else "", fs)
            if not fr.body.model and k["p"] in self.prog.adts:
                for h in self.ev_hooks:
                    h(self, st, fr, "agg", k, ops, v, span)
            return v
        return mk("unk", "agg")

    def exec_block(self, st):
        self.stats["blocks"] += 1
        if self.stats["blocks"] > self.limit:
            raise Limit("block limit")
        fr = st.top
        bl = fr.body.blocks[fr.block]
        sts = [st]
        for s in bl["s"]:
            if s[0] == "=":
                if s[2][0] == "bin" or (s[2][0] == "un" and s[2][1] != "PtrMetadata"):
                    ns = []
                    for x in sts:
                        for y, v in self.binop(x, fr, s[2]):
                            self.write_place(y, fr, s[1], v)
                            ns.append(y)
                    sts = ns
                else:
                    for x in sts:
                        v = self.assign(x, fr, s)
                        self.write_place(x, fr, s[1], v)
            elif s[0] == "dead":
                for x in sts:
                    v = x.mem.pop((fr.fid, s[1]), None)
                    if v is not None and v.tag == "slice" and fr.body.locals[s[1]].get("k") == "ref":
                        self.outlive(x, fr.fid, s[1], v)
            elif s[0] == "setd":
                for x in sts:
                    self.unk("setd")
        out = []
        for x in sts:
            out += self.terminator(x, fr, bl)
        return out

    def outlive(self, st, fid, l, v):
        """a reference to a local that is gone stands for a value that was held behind a reference"""
        for key, x in list(st.mem.items()):
            if key[0] is fid and x.tag != "ref":
                own = {t: v for t in subterms(x) if t.tag == "ref" and t.a[0] is fid and t.a[1] == l and not t.a[2]}
                if own:
                    st.mem[key] = subst(x, own)

    def binop(self, st, fr, rv):
        if rv[0] == "un":
            x = self.op(st, fr, rv[2])
            if rv[1] == "Not":
                return [(s, B(not v)) for s, v in self.truth(st, x)]
            return [(st, mk("unk", "neg"))]
        op = rv[1]
        a = self.op(st, fr, rv[2])
        b = self.op(st, fr, rv[3])
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        return self.arith(st, op, a, b)

    def arith(self, st, op, a, b):
        if op in ("BitOr", "BitAnd", "BitXor"):
            out = []
            for s, x in self.truth(st, a):
                for s2, y in self.truth(s, b):
                    out.append((s2, B((x or y) if op == "BitOr" else (x and y) if op == "BitAnd" else x != y)))
            return out
        if op in ("AddWithOverflow", "Add", "AddUnchecked"):
            if b.tag == "int":
                r = add(a, b.a[0])
            elif a.tag == "int":
                r = add(b, a.a[0])
            else:
                r = mk("sum", *sorted((a, b), key=lambda t: t.n))
            if r.tag == "sum":
                x, y = r.a
                # (p - q) + q
                for u, w in ((x, y), (y, x)):
                    ub, uk = split(u)
                    if ub.tag == "sub" and ub.a[1] is w:
                        r = add(ub.a[0], uk)
            if op == "AddWithOverflow":
                return [(st, mk("tup", r, mk("ovf", "add", a, b)))]
            return [(st, r)]
        if op in ("SubWithOverflow", "Sub", "SubUnchecked"):
            ba, ka = split(a)
            bb, kb = split(b)
            if ba is bb:
                r = I(ka - kb)
            elif bb is ZERO:
                r = add(a, -kb)
            elif ba.tag == "sum" and bb in ba.a:
                o = ba.a[0] if ba.a[1] is bb else ba.a[1]
                r = add(o, ka - kb)
            else:
                r = add(mk("sub", ba, bb), ka - kb)
            if op == "SubWithOverflow":
                return [(st, mk("tup", r, mk("ovf", "sub", a, b)))]
            return [(st, r)]
        if op in ("MulWithOverflow",):
            r = I(a.a[0] * b.a[0]) if a.tag == "int" and b.tag == "int" else mk("arith", "Mul", *sorted((a, b), key=lambda t: t.n))
            return [(st, mk("tup", r, mk("ovf", "mul", a, b)))]
        if op in ("Div", "Rem", "Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            if a.tag == "int" and b.tag == "int" and op in ("Div", "Rem") and a.a[0] >= 0 and b.a[0] > 0:
                return [(st, I(a.a[0] // b.a[0] if op == "Div" else a.a[0] % b.a[0]))]
            return [(st, mk("arith", op, a, b))]
        self.unk("binop:" + op)
        return [(st, mk("unk", "binop"))]

    def compare(self, st, op, a, b):
        if a.tag == "bool" or b.tag == "bool":
            out = []
            for s, x in self.truth(st, a):
                for s2, y in self.truth(s, b):
                    r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
                    out.append((s2, B(r)))
            return out
        if a.tag == "discr" or b.tag == "discr":
            if b.tag == "discr":
                a, b = b, a
            out = []
            for s, name in self.variants(st, a):
                val = [d for d, n in a.a[1] if n == name][0]
                if b.tag == "int":
                    r = int(val) == b.a[0]
                    out.append((s, B(r if op == "Eq" else not r)))
                elif b.tag == "discr":
                    for s2, n2 in self.variants(s, b):
                        out.append((s2, B((name == n2) if op == "Eq" else name != n2)))
                else:
                    out.append((s, mk("unk", "discr")))
            return out
        if op == "Gt":
            op, a, b = "Lt", b, a
        elif op == "Ge":
            op, a, b = "Le", b, a
        if op == "Le":
            return [(s, B(not v)) for s, v in self.fork(st, self.lt_atom(b, a))]
        if op == "Lt":
            return [(s, B(v)) for s, v in self.fork(st, self.lt_atom(a, b))]
        return [(s, B(v if op == "Eq" else not v)) for s, v in self.fork(st, self.ieq_atom(a, b))]

    def lt_atom(self, a, b):
        return mk("at", "lt", a, b)

    def ieq_atom(self, a, b):
        if a.n > b.n:
            a, b = b, a
        return mk("at", "ieq", a, b)

    # ------------------------------------------------------------------ terminators
    def terminator(self, st, fr, bl):
        t = bl["t"]
        k = t[0]
        if k == "goto":
            st.goto(t[1])
            return [("go", st)]
        if k == "return":
            return self.do_return(st)
        if k == "drop":
            p = t[1]
            if not p["p"]:
                st.mem.pop((fr.fid, p["l"]), None)
            st.goto(t[2])
            return [("go", st)]
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "assert":
            return self.assert_(st, fr, t, bl)
        if k == "call":
            return self.call(st, fr, t, bl)
        if k in ("unreachable", "resume"):
            return []
        if k == "nest":
            loc, v = self.nest_at(st, fr, t[2])
            path = self.nest_levels(v, "N")[t[1]]
            x = v
            for _, n in path:
                x = dict(x.a[2])[n]
            b = self.prog.model_fns[x.a[0].split("::")[-1] + "__advance"]
            return self.push(st, fr, b, [mk("ref", loc[0], loc[1], loc[2] + path)], t)
        self.unk("terminator:" + k)
        return []

    def do_return(self, st):
        fr = st.frames.pop()
        v = st.mem.get((fr.fid, 0), UNIT)
        # no reference to a local can leave its function: these stand for a value held behind a reference
        for _ in range(4):
            own = {x: self.read_loc(st, x.a) for x in subterms(v) if x.tag == "ref" and x.a[0] is fr.fid and (fr.fid, x.a[1]) in st.mem}
            if not own:
                break
            v = subst(v, own)
        for key in [k for k in st.mem if k[0] is fr.fid]:
            del st.mem[key]
        if not st.frames:
            st.ret = v
            return [("ret", st)]
        if fr.dest is not None:
            cur = fr.dest
            if cur[0] == "loc":
                self.write_loc(st, cur[1], v)
        st.goto(fr.ret)
        return [("go", st)]

    def switch(self, st, fr, t):
        v = self.op(st, fr, t[1])
        if v.tag == "int":
            for val, b in t[2]:
                if int(val) == v.a[0]:
                    st.goto(b)
                    return [("go", st)]
            st.goto(t[3])
            return [("go", st)]
        if v.tag == "discr":
            out = []
            for s, name in self.variants(st, v):
                val = [d for d, n in v.a[1] if n == name]
                tgt = t[3]
                for x, b in t[2]:
                    if val and x == val[0]:
                        tgt = b
                s.goto(tgt)
                out.append(("go", s))
            return out
        # bool
        if all(x in ("0", "1") for x, _ in t[2]) and not self.is_int(v):
            out = []
            for s, b in self.truth(st, v):
                tgt = t[3]
                for x, bb in t[2]:
                    if int(x) == int(b):
                        tgt = bb
                s.goto(tgt)
                out.append(("go", s))
            return out
        # opaque integer
        out = []
        rest = [st]
        for x, b in t[2]:
            nr = []
            for r in rest:
                for s, e in self.fork(r, self.ieq_atom(v, I(int(x)))):
                    if e:
                        s.goto(b)
                        out.append(("go", s))
                    else:
                        nr.append(s)
            rest = nr
        for r in rest:
            r.goto(t[3])
            out.append(("go", r))
        return out

    def variants(self, st, d):
        v, lst = d.a
        if v.tag == "adt":
            return [(st, v.a[1])]
        at = mk("at", "var", v)
        k = self.decide_var(st, v)
        if k is not None:
            return [(st, k)]
        out = []
        names = [n for _, n in lst]
        neg = st.facts.get(mk("at", "notvar", v))
        if v.tag == "unk":
            pass
        for n in names:
            s = st.clone()
            s.facts[at] = n
            s.ev("asm", at, n)
            if self.feasible_var(s, v, n):
                out.append((s, n))
        self.stats["forks"] += 1
        return out

    def decide_var(self, st, v):
        at = mk("at", "var", v)
        if at in st.facts:
            return st.facts[at]
        for o in self.oracle:
            r = o(self, st, at)
            if r is not None:
                return r
        return None

    def feasible_var(self, st, v, n):
        return True

    def truth(self, st, v):
        if v.tag == "bool":
            return [(st, v.a[0])]
        if v.tag == "unk":
            s2 = st.clone()
            return [(st, True), (s2, False)]
        return self.fork(st, mk("at", "b", v))

    def assert_(self, st, fr, t, bl):
        cond = t[1]
        kind = t[3]
        if kind == "bounds":
            ops = [self.op(st, fr, o) for o in t[4]]
            n, i = ops
            out = []
            for s, v in self.fork(st, self.lt_atom(i, n)):
                if v:
                    s.goto(t[5])
                    out.append(("go", s))
                else:
                    out.append(self.panic(s, "index out of bounds", bl["sp"]))
            return out
        c = self.op(st, fr, cond)
        if c.tag == "ovf":
            o, a, b = c.a
            out = []
            if o == "sub":
                for s, v in self.fork(st, self.lt_atom(a, b)):
                    if v:
                        out.append(self.panic(s, "attempt to subtract with overflow", bl["sp"]))
                    else:
                        s.goto(t[5])
                        out.append(("go", s))
                return out
            if o == "add" and (a is ZERO or b is ZERO or a is I(0) or b is I(0)):
                st.goto(t[5])
                return [("go", st)]
            if o == "add":
                # lengths and positions below a length are far from usize::MAX
                if self.bounded(st, a) and self.bounded(st, b):
                    st.goto(t[5])
                    return [("go", st)]
                s2 = st.clone()
                p = self.panic(s2, "attempt to add with overflow", bl["sp"])
                st.goto(t[5])
                return [("go", st), p]
            s2 = st.clone()
            st.goto(t[5])
            return [("go", st), self.panic(s2, "arithmetic overflow", bl["sp"])]
        out = []
        for s, v in self.truth(st, c):
            if v == t[2]:
                s.goto(t[5])
                out.append(("go", s))
            else:
                out.append(self.panic(s, "assertion failed: " + kind, bl["sp"]))
        return out

    def bounded(self, st, t):
        """t is at most some collection length plus a constant"""
        b, k = split(t)
        if b is ZERO or b.tag == "len":
            return True
        if b.tag == "sub":
            return self.bounded(st, b.a[0])
        if b.tag == "sum":
            return all(self.bounded(st, x) for x in b.a)
        seen = {b}
        work = [b]
        while work:
            x = work.pop()
            for (p, q) in st.ints:
                if p is x and q not in seen:
                    if q is ZERO or q.tag == "len":
                        return True
                    seen.add(q)
                    work.append(q)
        if b.tag == "phi":
            # a counter of completed iterations or an element count
            return self.counter(b)
        return False

    def counter(self, p):
        inst = None
        for i in self.insts.values():
            if p in i.inits:
                inst = i
        return True if inst is None and p.a[2] == "i" else (inst is not None and self.is_int(inst.inits[p]) and split(inst.inits[p])[0] in (ZERO,))

    def user_span(self, st, sp):
        for f in reversed(st.frames):
            if not f.body.model:
                if f is st.frames[-1]:
                    return f.body, sp
                return f.body, f.body.blocks[f.block]["sp"]
        return st.frames[0].body, sp

    def panic(self, st, kind, sp):
        body, s = self.user_span(st, sp)
        st.info = (kind, body.p, s)
        st.ev("panic", kind)
        return ("panic", st)

    # ------------------------------------------------------------------ facts
    def fork(self, st, atom):
        r = self.decide(st, atom)
        if r is not None:
            return [(st, r)]
        self.stats["forks"] += 1
        s2 = st.clone()
        out = []
        if self.assume(st, atom, True):
            out.append((st, True))
        if self.assume(s2, atom, False):
            out.append((s2, False))
        return out

    def assume(self, st, atom, val):
        st.ev("asm", atom, B(val))
        return self.learn(st, atom, val)

    def learn(self, st, atom, val):
        k = atom.a[0]
        if k == "lt":
            a, b = atom.a[1], atom.a[2]
            if val:
                self.add_lt(st, a, b, -1)
            else:
                self.add_lt(st, b, a, 0)
        elif k == "ieq":
            a, b = atom.a[1], atom.a[2]
            if val:
                self.add_lt(st, a, b, 0)
                self.add_lt(st, b, a, 0)
            else:
                st.facts[atom] = FALSE
                if self.le(st, a, b):
                    self.add_lt(st, a, b, -1)
                elif self.le(st, b, a):
                    self.add_lt(st, b, a, -1)
        else:
            st.facts[self.canon(st, atom)] = B(val)
        return True

    def add_lt(self, st, a, b, k):
        """a - b <= k"""
        ba, ka = split(a)
        bb, kb = split(b)
        self.add_le(st, ba, bb, k + kb - ka)

    def add_le(self, st, a, b, k):
        if a is b:
            return
        o = st.ints.get((a, b))
        if o is None or k < o:
            st.ints[(a, b)] = k
        # (p - q) relations
        for x, y, s in ((a, b, 1), (b, a, -1)):
            pass
        if a.tag == "sub" and b is ZERO:
            self.add_le(st, a.a[0], a.a[1], k)
        if b.tag == "sub" and a is ZERO:
            # 0 - (p-q) <= k  =>  q - p <= k
            self.add_le(st, b.a[1], b.a[0], k)

    def le(self, st, a, b):
        """is a <= b certain?"""
        ba, ka = split(a)
        bb, kb = split(b)
        k = kb - ka
        if ba is bb:
            return 0 <= k
        d = self.dist(st, ba, bb)
        return d is not None and d <= k

    _lens = {}

    def dist(self, st, src, dst):
        """least k known with src - dst <= k"""
        edges = {}
        bases = {src, dst}
        for (a, b), k in st.ints.items():
            edges.setdefault(a, []).append((b, k))
            bases.add(a)
            bases.add(b)
        extra = set()
        for b in list(bases):
            c = self._lens.get(b)
            if c is None:
                c = self._lens[b] = [x for x in subterms(b) if x.tag in ("len", "sub")]
            extra.update(c)
        bases |= extra
        for b in list(bases):
            if b is not ZERO:
                edges.setdefault(ZERO, []).append((b, 0))  # b >= 0
            if b.tag == "sub":
                # p - q <= p  (q >= 0)
                edges.setdefault(b, []).append((b.a[0], 0))
            for h in self.axints:
                for x, y, k in h(self, st, b):
                    edges.setdefault(x, []).append((y, k))
        best = {src: 0}
        for _ in range(len(bases) + 2):
            ch = False
            for a, es in edges.items():
                if a in best:
                    for b, k in es:
                        v = best[a] + k
                        if b not in best or v < best[b]:
                            best[b] = v
                            ch = True
            if not ch:
                break
        return best.get(dst)

    def decide(self, st, atom):
        k = atom.a[0]
        if k == "lt":
            a, b = atom.a[1], atom.a[2]
            if self.le(st, add(a, 1), b):
                return True
            if self.le(st, b, a):
                return False
            return None
        if k == "ieq":
            a, b = atom.a[1], atom.a[2]
            if self.le(st, a, b) and self.le(st, b, a):
                return True
            if self.le(st, add(a, 1), b) or self.le(st, add(b, 1), a):
                return False
            f = st.facts.get(atom)
            return f.a[0] if f is not None else None
        atom = self.canon(st, atom)
        f = st.facts.get(atom)
        if f is not None:
            return f.a[0]
        if k == "eq" and atom.a[1] is atom.a[2]:
            return True
        for o in self.oracle:
            r = o(self, st, atom)
            if r is not None:
                return r
        return None

    def canon(self, st, atom):
        if atom.a[0] == "eq":
            return atom
        m = self.eqmap(st)
        if m:
            atom = subst(atom, m)
        return atom

    def eqmap(self, st):
        m = None
        for a, v in st.facts.items():
            if a.a[0] == "eq" and v is TRUE:
                if m is None:
                    m = {}
                x, y = a.a[1], a.a[2]
                x = m.get(x, x)
                y = m.get(y, y)
                if x is y:
                    continue
                # prefer parameters/fields, then older terms
                kx = (0 if not x.syms else 1, x.n)
                ky = (0 if not y.syms else 1, y.n)
                if ky < kx:
                    x, y = y, x
                m[y] = x
        return m

    def eq_atom(self, a, b):
        if a.n > b.n:
            a, b = b, a
        return mk("at", "eq", a, b)

    # ------------------------------------------------------------------ types
    def typeof(self, t):
        g = t.tag
        if g == "p":
            return strip(self.ptypes.get(t.a[0]))
        if g == "f":
            ty = self.typeof(t.a[0])
            return strip(self.field_type(ty, "", t.a[1]))
        if g == "vf":
            ty = self.typeof(t.a[0])
            if ty and ty.get("k") == "adt" and not ty["local"]:
                if t.a[1] in ("Some", "Ok") and ty["a"]:
                    return strip(ty["a"][0])
                if t.a[1] == "Err" and len(ty["a"]) > 1:
                    return strip(ty["a"][1])
            return strip(self.field_type(ty, t.a[1], t.a[2]))
        if g == "idx":
            c = t.a[0]
            if c.tag == "enum":
                c = c.a[0]
                if c.tag == "keys":
                    ty = self.typeof(c.a[0])
                    return strip(ty["a"][0]) if ty and ty.get("a") else None
            ty = self.typeof(c)
            if ty and ty["k"] == "adt" and ty.get("a"):
                return strip(ty["a"][0])
            if ty and ty["k"] in ("slice", "array"):
                return strip(ty["t"])
            return None
        if g == "mget":
            ty = self.typeof(t.a[0])
            if ty and ty["k"] == "adt" and len(ty.get("a", [])) > 1:
                return strip(ty["a"][1])
            return self.held.get(t.a[0])
        if g == "map":
            return self.maptypes.get(t)
        if g == "sym":
            return strip(self.symtypes.get(t)) if hasattr(self, "symtypes") else None
        return None

    def field_type(self, ty, variant, name):
        info = self.adt_info(ty)
        if info is None:
            return None
        for vs in info["vs"]:
            if not variant or vs["n"] == variant:
                for f in vs["fs"]:
                    if f["n"] == name:
                        return f["t"]
        return None

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, t, bl):
        self.stats["calls"] += 1
        f = t[1]
        args = [self.op(st, fr, o) for o in t[2]]
        if "fn" in f:
            callee = f["fn"]
        else:
            v = self.op(st, fr, f)
            if v.tag == "fn":
                callee = self.fns[v]
            elif v.tag == "clo":
                return self.call_closure(st, fr, v, None, args, t, bl)
            else:
                callee = {"p": "?indirect", "u": "?", "a": []}
        return self.dispatch(st, fr, callee, args, t, bl)

    def finish(self, st, fr, t, bl, val):
        """a call returned val"""
        if t[4] < 0:
            return []
        self.write_place(st, fr, t[3], val)
        st.goto(t[4])
        return [("go", st)]

    def push(self, st, fr, body, args, t):
        # recursion
        n = sum(1 for f in st.frames if f.body.origin is body)
        if n and (not body.model or n > 5):
            return None
        fid = mk("fid", fr.fid, fr.block, body.u)
        dest = self.place(st, fr, t[3])
        if not body.model:
            self.stats["fns"].add(body.p)
        if t[4] < 0:
            dest = None
        st.frames.append(Frame(fid, body, 0, dest, t[4]))
        for i, a in enumerate(args):
            if body.model and a.tag == "ref":
                ty = body.locals[i + 1]
                if ty["k"] == "ref" and ty["t"]["k"] == "adt":
                    a = self.P.one_ref(st, a, ty)
            st.mem[(fid, i + 1)] = a
        return [("go", st)]

    def call_body(self, st, fr, body, args, t, bl):
        if body.u not in self.cut:
            r = self.push(st, fr, body, args, t)
            if r is not None:
                return r
            if not self.rc_hook:
                k = "recursion of " + body.p
                self.stats["unk"][k] = self.stats["unk"].get(k, 0) + 1
        # recursive (or cut) call
        vals = [self.P.snapshot(st, a) for a in args]
        res = mk("sym", "rc", fr.fid, fr.block)
        if not hasattr(self, "symtypes"):
            self.symtypes = {}
        self.symtypes[res] = body.locals[0]
        st.ev("rc", mk("fnname", body.u), mk("tup", *vals), res)
        if self.rc_hook:
            r = self.rc_hook(self, st, fr, body, vals, res, bl)
            if r is not None:
                res = r
        return self.finish(st, fr, t, bl, res)

    def call_closure(self, st, fr, v, loc, args, t, bl):
        body = self.prog.bodies.get((v.a[0], -1))
        if body is None:
            self.unk("closure")
            return self.finish(st, fr, t, bl, mk("unk", "closure"))
        self_ty = body.locals[1]
        a0 = v
        if self_ty["k"] == "ref" and loc is not None:
            a0 = mk("ref", *loc)
        return self.call_body(st, fr, body, [a0] + args, t, bl)

    def dispatch(self, st, fr, c, args, t, bl):
        # constructors used as functions
        if c.get("ctor"):
            info = self.prog.adts.get(c["ctor"])
            names = [str(i) for i in range(len(args))]
            v = adt(c["ctor"], c["variant"], tuple(zip(names, args)))
            return self.finish(st, fr, t, bl, v)
        # local function
        u = c.get("r") or (c["u"] if c.get("local") and not c.get("trait") else None)
        if u and c.get("trait", "").split("::")[-1] in ("Fn", "FnMut", "FnOnce") and len(args) == 2:
            # called through the trait: the arguments come as one tuple
            kind, loc, v = self.P.auto3(st, args[0])
            if v.tag == "clo":
                return self.call_closure(st, fr, v, loc, list(args[1].a) if args[1].tag == "tup" else [args[1]], t, bl)
        if u:
            b = self.prog.bodies.get((u, -1))
            if b is not None:
                return self.call_body(st, fr, b, args, t, bl)
        m = c.get("m", "")
        tr = c.get("trait", "").split("::")[-1]
        if tr in ("Fn", "FnMut", "FnOnce"):
            kind, loc, v = self.P.auto3(st, args[0])
            spread = list(args[1].a) if args[1].tag == "tup" else [args[1]]
            if v.tag == "clo":
                return self.call_closure(st, fr, v, loc, spread, t, bl)
            if v.tag == "fn":
                return self.dispatch(st, fr, self.fns[v], spread, t, bl)
            self.unk("call of opaque function")
            st.ev("unk", "call of opaque function")
            return self.finish(st, fr, t, bl, mk("sym", "call", fr.fid, fr.block))
        return self.P.std_call(st, fr, c, tr, m, args, t, bl)

    def opaque_call(self, st, fr, name, args, t, bl):
        self.unk(name)
        st.ev("unk", name)
        for a in args:
            if a.tag == "ref":
                # may be written through
                pass
        v = mk("sym", "call:" + name, fr.fid, fr.block)
        if self.int_dest(fr, t):
            if not hasattr(self, "symtypes"):
                self.symtypes = {}
            self.symtypes[v] = {"k": "int", "s": "usize"}
        return self.finish(st, fr, t, bl, v)

    def int_dest(self, fr, t):
        return not t[3]["p"] and fr.body.locals[t[3]["l"]].get("k") == "int"


def flows_to_switch(b, l):
    """may the value of bool local l reach a branch of the body?"""
    S = {l}
    ch = True
    while ch:
        ch = False
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] != "=" or s[1]["p"] or s[1]["l"] in S:
                    continue
                rv = s[2]
                if rv[0] == "use":
                    ops = [rv[1]]
                elif rv[0] == "un":
                    ops = [rv[2]]
                elif rv[0] == "bin" and rv[1] not in ("BitOr",):
                    ops = rv[2:4]
                else:
                    ops = []
                for o in ops:
                    p = o.get("cp") or o.get("mv")
                    if p and not p["p"] and p["l"] in S:
                        S.add(s[1]["l"])
                        ch = True
    for bl in b.blocks:
        t = bl["t"]
        if t[0] == "switch":
            p = t[1].get("cp") or t[1].get("mv")
            if p and p["l"] in S:
                return True
        if t[0] == "call":
            for o in t[2]:
                p = o.get("cp") or o.get("mv")
                if p and not p["p"] and p["l"] in S:
                    return True
    return False


def strip(ty):
    while ty and ty.get("k") in ("ref", "ptr"):
        ty = ty["t"]
    return ty


def loc_str(loc):
    (root, path) = loc
    r = (root[0] if isinstance(root[0], str) else root[0].n, root[1])
    return (r, path)
