"""Loads exported MIR and computes CFG facts (natural loops, liveness)."""
import json
import re


class Multi:
    def __init__(self, l):
        self.l = l

    def add(self, x):
        self.l.append(x)


class Body:
    def __init__(self, j, model):
        self.j = j
        self.u = j["u"]
        self.p = j["p"]
        self.model = model
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.span = j["span"]
        self.name = j.get("name", "closure")
        self.kind = j["kind"]
        self.key = (self.u, j["promoted"])
        self._loops = None
        self._live = None
        self.origin = self
        self.nests = {}

    def succs(self, i):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] >= 0 else []
        if k == "assert":
            return [t[5]]
        if k == "nest":
            return [t[4]]
        return []

    # ------------------------------------------- loops over nested iterators
    def next_loop(self, H):
        """(place of the iterator, block that looks at the answer, index of None among its targets, block
        after the loop) for a loop `while let Some(x) = it.next()` whose header is H"""
        c = self.__dict__.setdefault("_nexts", {})
        if H not in c:
            c[H] = self.next_loop_(H)
        return c[H]

    def next_loop_(self, H):
        t = self.blocks[H]["t"]
        if t[0] != "call" or t[4] < 0 or len(t[2]) != 1 or "mv" not in t[2][0] or t[3]["p"]:
            return None
        c = t[1].get("fn")
        if not c or c.get("m") != "next" or not c.get("trait", "").endswith("Iterator"):
            return None
        r = t[2][0]["mv"]
        if r["p"]:
            return None
        place = None
        refs = {}
        for s in self.blocks[H]["s"]:
            if s[0] == "=" and not s[1]["p"] and s[2][0] == "ref":
                p = s[2][2]
                if p["l"] in refs:
                    q = refs[p["l"]]
                    if not p["p"] or p["p"][0][0] != "deref":
                        return None
                    p = {"l": q["l"], "p": q["p"] + p["p"][1:]}
                refs[s[1]["l"]] = p
        place = refs.get(r["l"])
        T = t[4]
        b = self.blocks[T]
        if place is None or b["t"][0] != "switch" or sum(T in self.succs(i) for i in range(len(self.blocks))) != 1:
            return None
        d = [s for s in b["s"] if s[0] == "=" and s[2][0] == "discr" and s[2][1] == t[3]]
        o = b["t"][1]
        if not d or (o.get("mv") or o.get("cp")) != d[-1][1]:
            return None
        names = dict(d[-1][2][2])
        for i, (v, tgt) in enumerate(b["t"][2]):
            if names.get(v) == "None":
                return place, T, i, tgt
        if any(names.get(v) == "Some" for v, tgt in b["t"][2]):
            return place, T, -1, b["t"][3]
        return None

    def nest(self, H, n):
        """this body with the loop at H turned into n+1 loops inside each other; the new entry is `entry`"""
        c = self.__dict__.setdefault("_variants", {})
        if (H, n) in c:
            return c[(H, n)]
        place, T, i, E = self.next_loop(H)
        inside = self.loops()[H]
        blocks = [dict(b, t=list(b["t"])) for b in self.blocks]
        k0 = len(blocks)
        flag = {"l": len(self.locals), "p": []}

        def A(k):
            return k0 + 2 * (k - 1)

        def to(b):
            return A(n) if b == H else b

        for x, b in enumerate(blocks):
            if x in inside:
                continue
            t = b["t"]
            if t[0] == "goto":
                t[1] = to(t[1])
            elif t[0] == "switch":
                t[2] = [[v, to(y)] for v, y in t[2]]
                t[3] = to(t[3])
            elif t[0] == "drop":
                t[2] = to(t[2])
            elif t[0] == "call":
                t[4] = to(t[4])
            elif t[0] == "assert":
                t[5] = to(t[5])
        t = blocks[T]["t"]
        if i < 0:
            t[3] = A(1)
        else:
            t[2] = [[v, A(1) if j == i else y] for j, (v, y) in enumerate(t[2])]
        for k in range(1, n + 1):
            blocks.append({"s": [], "t": ["nest", k - 1, place, flag, A(k) + 1], "sp": blocks[H].get("sp"), "cl": False})
            blocks.append({"s": [], "t": ["switch", {"mv": flag}, [["0", A(k + 1) if k < n else E]], A(k - 1) if k > 1 else H], "sp": blocks[H].get("sp"), "cl": False})
        b = Body(dict(self.j, blocks=blocks, locals=self.locals + [{"k": "bool"}]), self.model)
        b.origin = self.origin
        b.nests = dict(self.nests)
        b.nests[A(n)] = (self, H)
        b.entry = A(n)
        c[(H, n)] = b
        return b

    def mentions(self, l):
        """how often a local is used, other than to be set or dropped"""
        n = 0
        for b in self.blocks:
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[0] == "=":
                    acc = []
                    u = Multi(acc)
                    self._uses_rv(s[2], u)
                    if s[1]["p"]:
                        self._uses_place(s[1], u)
                    n += acc.count(l)
            t = b["t"]
            acc = []
            u = Multi(acc)
            if t[0] == "switch" or t[0] == "assert":
                self._uses_op(t[1], u)
            elif t[0] == "call":
                self._uses_op(t[1], u)
                for o in t[2]:
                    self._uses_op(o, u)
            n += acc.count(l)
        return n

    # -------------------------------------------------------------- loops
    def loops(self):
        """header -> set of body blocks (natural loops, merged by header)"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        order, seen = [], set()
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {b: None for b in rpo}
        dom[0] = {0}
        allb = set(rpo)
        for b in rpo[1:]:
            dom[b] = allb
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                d = set.intersection(*[dom[p] for p in preds[b]]) | {b} if preds[b] else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self.reachable = allb
        self._loops = loops
        return loops

    # ----------------------------------------------------------- liveness
    def _uses_place(self, p, acc, isdef=False):
        if p["p"] or not isdef:
            acc.add(p["l"])
        for e in p["p"]:
            if e[0] == "i":
                acc.add(e[1])

    def _uses_op(self, o, acc):
        if "cp" in o:
            self._uses_place(o["cp"], acc)
        elif "mv" in o:
            self._uses_place(o["mv"], acc)

    def _uses_rv(self, r, acc):
        k = r[0]
        if k in ("use", "repeat"):
            self._uses_op(r[1], acc)
        elif k in ("ref", ):
            self._uses_place(r[2], acc)
        elif k in ("rawptr", "discr"):
            self._uses_place(r[1], acc)
        elif k == "cast":
            self._uses_op(r[1], acc)
        elif k == "bin":
            self._uses_op(r[2], acc)
            self._uses_op(r[3], acc)
        elif k == "un":
            self._uses_op(r[2], acc)
        elif k == "agg":
            for o in r[2]:
                self._uses_op(o, acc)

    def live(self):
        """live-in sets per block; address-taken locals are always live"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        taken = set()
        gen, kill = [set() for _ in range(n)], [set() for _ in range(n)]
        for i, bl in enumerate(self.blocks):
            if bl["cl"]:
                continue
            g, k = gen[i], kill[i]
            for s in bl["s"]:
                u = set()
                if s[0] == "=":
                    self._uses_rv(s[2], u)
                    if s[1]["p"]:
                        self._uses_place(s[1], u)
                    g |= u - k
                    if not s[1]["p"]:
                        k.add(s[1]["l"])
                    if s[2][0] in ("ref",):
                        if not any(e[0] == "deref" for e in s[2][2]["p"]):
                            taken.add(s[2][2]["l"])
                    if s[2][0] == "rawptr":
                        taken.add(s[2][1]["l"])
                elif s[0] == "setd":
                    g |= {s[1]["l"]} - k
            t = bl["t"]
            u = set()
            if t[0] == "switch":
                self._uses_op(t[1], u)
            elif t[0] == "drop":
                self._uses_place(t[1], u)
            elif t[0] == "call":
                self._uses_op(t[1], u)
                for o in t[2]:
                    self._uses_op(o, u)
                if t[3]["p"]:
                    self._uses_place(t[3], u)
            elif t[0] == "assert":
                self._uses_op(t[1], u)
            elif t[0] == "return":
                u.add(0)
            elif t[0] == "nest":
                u.add(t[2]["l"])
            g |= u - k
            if t[0] in ("call", "nest") and not t[3]["p"]:
                k.add(t[3]["l"])
        li = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.succs(i):
                    out |= li[s]
                new = gen[i] | (out - kill[i])
                if new != li[i]:
                    li[i] = new
                    ch = True
        self.taken = taken
        self._live = li
        return li


class Program:
    def __init__(self, repo_json, model_json):
        self.bodies = {}
        self.model_fns = {}
        # a double-ended queue is a list with two ends
        text = open(repo_json).read().replace("std::collections::VecDeque", "std::vec::Vec")
        text = re.sub(r"std::collections::vec_deque::(Iter|IterMut)\b", r"std::slice::\1", text).replace("std::collections::vec_deque::", "std::vec::")
        self.repo = json.loads(text)
        models = json.load(open(model_json))
        for j in models["bodies"]:
            b = Body(j, True)
            self.bodies[b.key] = b
            if j["kind"] == "Fn":
                self.model_fns[j["name"]] = b
        for j in self.repo["bodies"]:
            b = Body(j, False)
            self.bodies[b.key] = b
        self.adts = {a["p"]: a for a in self.repo["adts"]}
        self.model_adts = {a["p"]: a for a in models["adts"]}
        self.crate = self.repo["crate"]
        # trait impls of local types: (trait path, adt path, method) -> body
        self.impl_methods = {}
        for b in self.bodies.values():
            if b.model or "impl_trait" not in b.j:
                continue
            st = b.j["self_ty"]
            if st["k"] == "adt":
                self.impl_methods[(b.j["impl_trait"].split("::")[-1], st["p"], b.name)] = b

    def local_bodies(self):
        return [b for b in self.bodies.values() if not b.model]

    def find(self, suffix):
        return [b for b in self.bodies.values() if not b.model and b.p.endswith(suffix)]
