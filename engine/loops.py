"""Reading loop automata: flattening of loops that share a cursor (filter, skip_while, peek loops …)
and coverage (does the loop visit every element of a collection, once each, in order?)."""
from terms import *


class Flat:
    __slots__ = ("inst", "edges", "exits", "inits", "ok")


def wsub(eng, w, m):
    """a word with the heads of an outer loop substituted, in the loops inside it as well"""
    if not m:
        return tuple(w)
    memo = {}
    out = []
    for ev in w:
        if ev.a[0] in ("L", "X"):
            it = derive(eng, ev.a[1], m)
            out.append(mk("ev", ev.a[0], it, *ev.a[2:]))
        else:
            out.append(subst(ev, m, memo))
    return tuple(out)


def derive(eng, it, m):
    """the loop instance `it` with the substitution m applied throughout"""
    inst = eng.insts.get(it)
    if inst is None:
        return it
    free = inst.__dict__.get("_free")
    if free is None:
        free = set()
        for t in inner_terms(eng, inst):
            free |= t.syms
        for v in inst.inits.values():
            free |= v.syms
        inst._free = free
    m = {k: v for k, v in m.items() if k in free and k not in inst.inits}
    if not m:
        return it
    cache = eng.__dict__.setdefault("derived", {})
    key = (it, frozenset(m.items()))
    if key in cache:
        return cache[key]
    t = cache[key] = mk("inst", it.a[0], "d%d" % len(cache))
    d = type(inst)(t, inst.L, state_sub(eng, inst.entry, m))
    memo = {}
    d.heads = [state_sub(eng, h, m) for h in inst.heads]
    d.edges = [(i, wsub(eng, w, m), j, {p: subst(v, m, memo) for p, v in steps.items()}) for i, w, j, steps in inst.edges]
    d.ends = inst.ends
    d.exits = [(x[0], wsub(eng, x[1], m)) + tuple(x[2:]) for x in inst.exits]
    d.inits = {p: subst(v, m, memo) for p, v in inst.inits.items()}
    d.steps = {p: {subst(v, m, memo) for v in vs} for p, vs in inst.steps.items()}
    d.cls = inst.cls
    d.groups = inst.groups
    d.ints0 = inst.ints0
    d.hkeys = inst.hkeys
    eng.insts[t] = d
    return t


def state_sub(eng, st, m):
    s = st.clone()
    memo = {}
    s.mem = {k: subst(v, m, memo) for k, v in st.mem.items()}
    s.ghost = {k: subst(v, m, memo) if isinstance(v, T) else v for k, v in st.ghost.items()}
    s.facts = {subst(a, m, memo): v for a, v in st.facts.items()}
    s.ints = {}
    for (a, b), k in st.ints.items():
        (a, p), (b, q) = split(subst(a, m, memo)), split(subst(b, m, memo))
        eng.add_le(s, a, b, k - p + q)
    return s


def flat(eng, inst, depth=0):
    """(edges [(i, word, j, steps)], exits [(i, word, kind, state, gid)]) with loops that continue the
    same cursor expanded in place"""
    c = getattr(inst, "flat", None)
    if c is not None:
        return c
    f = Flat()
    f.inst = inst
    f.inits = dict(inst.inits)
    f.edges = []
    f.exits = []
    gid = {}
    for g, idxs in inst.groups.items():
        for k in idxs:
            gid[k] = g
    for i, w, j, steps in inst.edges:
        for src, w2, m, inner, dst in expand(eng, inst, i, w, depth):
            if inner is None:
                f.edges.append((src, w2, j, {p: subst(v, m) for p, v in steps.items()}))
            else:
                f.edges.append((src, w2, dst, inner))
    for k, (i, w, kind, st) in enumerate(inst.exits):
        for src, w2, m, inner, dst in expand(eng, inst, i, w, depth):
            if inner is None:
                f.exits.append((src, w2, kind, st, gid.get(k)))
            else:
                f.edges.append((src, w2, dst, inner))
    # drop duplicates (the same inner edges reached from several outer words)
    seen = set()
    es = []
    for e in f.edges:
        k = (e[0], e[1], e[2], frozenset(e[3].items()))
        if k not in seen:
            seen.add(k)
            es.append(e)
    f.edges = es
    index_visits(eng, inst, f)
    inst.flat = f
    return f


def index_visits(eng, inst, f):
    """loops that walk a collection by index: the accesses C[i], i the loop's counter, are visits"""
    cur = {p for p in f.inits if p.a[2] == "i"}
    if not cur:
        return
    words = [w for i, w, j, s in f.edges] + [w for i, w, kind, st, g in f.exits]
    direct = {(ev.a[1]) for w in words for ev in w if ev.a[0] == "visit"}
    found = set()  # (C, phi, offset)
    for w in words:
        for ev in w:
            if ev.a[0] in ("L", "X"):
                continue
            for t in subterms(ev):
                if t.tag != "idx" or t.a[0] in direct:
                    continue
                b, k = split(t.a[1])
                if b in cur and k in (0, -1) and not eng.born(t.a[0], inst.L):
                    found.add((t.a[0], b, k))
            # accesses inside nested loops
        for ev in w:
            if ev.a[0] == "L":
                i2 = eng.insts.get(ev.a[1])
                if i2 is None:
                    continue
                for t in inner_terms(eng, i2):
                    if t.tag == "idx" and t.a[0] not in direct:
                        b, k = split(t.a[1])
                        if b in cur and k in (0, -1) and not eng.born(t.a[0], inst.L):
                            found.add((t.a[0], b, k))
    for C, phi, k in found:
        step = add(phi, 1) if k == 0 else add(phi, -1)
        moves = [s.get(phi) for i, w, j, s in f.edges]
        if not all(m is None or m is phi or m is step for m in moves) or not any(m is step for m in moves):
            continue
        ln = mk("len", C)
        pos = add(phi, k)

        def bounded(w):
            for at, v in asms(w):
                if at.a[0] == "lt" and v is TRUE and (at.a[1] is pos or k == -1 and at.a[1] is I(0) and at.a[2] is phi):
                    return True
            return False

        ini = f.inits.get(phi)
        edges = []
        for i, w, j, s in f.edges:
            if s.get(phi) is step and bounded(w):
                w = (mk("ev", "visit", C, pos, mk("idx", C, pos)),) + tuple(w)
            edges.append((i, w, j, s))
        exits = []
        for i, w, kind, st, g in f.exits:
            if bounded(w) and any(t.tag == "idx" and t.a[0] is C and t.a[1] is pos for ev in w for t in subterms(ev)):
                w = (mk("ev", "visit", C, pos, mk("idx", C, pos)),) + tuple(w)
            exits.append((i, w, kind, st, g))
        f.edges, f.exits = edges, exits


def inner_terms(eng, inst):
    """every term that occurs in the words of the loop and of the loops inside it"""
    c = inst.__dict__.get("_terms")
    if c is None:
        c = inst.__dict__["_terms"] = list(inner_terms_(eng, inst, set(), set()))
    return c


def inner_terms_(eng, inst, insts, seen):
    if inst.t in insts:
        return
    insts.add(inst.t)
    for w in [x[1] for x in inst.edges] + [x[1] for x in inst.exits]:
        for ev in w:
            if ev.a[0] == "L":
                i2 = eng.insts.get(ev.a[1])
                if i2 is not None:
                    yield from inner_terms_(eng, i2, insts, seen)
            elif ev.a[0] != "X":
                yield from subterms(ev, seen)


def expand(eng, inst, i0, w, depth):
    """expansions of a word from head i0: (source head, word, substitution, steps or None, target head or
    None).  Heads of an inner loop that continues the same cursor become extra heads `(outer, loop, n)`."""
    for k, ev in enumerate(w):
        if ev.a[0] != "L":
            continue
        i2 = eng.insts.get(ev.a[1])
        if i2 is None or depth > 5:
            continue
        # (a loop that never comes round is a plain branch)
        m = shared(eng, inst, i2) if i2.edges else dict(i2.inits)
        if not m and i2.edges:
            continue
        f2 = flat(eng, i2, depth + 1)

        def name(h):
            return i0 if h == 0 else (i0, ev.a[1], h)

        out = []
        pre = tuple(w[:k])
        gid = None
        rest = tuple(w[k + 1:])
        if rest and rest[0].a[0] == "X" and rest[0].a[1] is ev.a[1]:
            gid = rest[0].a[2].a[0]
            rest = rest[1:]
        for (i, w2, j, steps) in f2.edges:
            st = {}
            for psi, v in steps.items():
                if psi in m and v is not psi:
                    st[m[psi]] = subst(v, m)
            out.append((name(i), pre + wsub(eng, w2, m), m, st, name(j)))
        for (i, w2, kind, s, g) in f2.exits:
            if gid is None and kind == "exit":
                continue
            if gid is not None and (kind != "exit" or g != gid):
                continue
            for src, w3, m3, inner, dst in expand(eng, inst, i0, wsub(eng, tuple(w2) + rest, m), depth + 1):
                mm = dict(m)
                mm.update(m3)
                out.append((name(i) if src == i0 else src, pre + w3, mm, inner, dst))
        return out
    return [(i0, tuple(w), {}, None, None)]


def head_state(eng, inst, h):
    """the state at a head of the flattened loop"""
    if isinstance(h, tuple):
        i2 = eng.insts.get(h[1])
        if i2 is not None:
            return head_state(eng, i2, h[2])
        h = h[0]
        return head_state(eng, inst, h)
    if h < len(inst.heads):
        return inst.heads[h]
    return inst.entry


def shared(eng, inst, i2):
    """inner phis that continue an outer cursor: inner phi -> outer phi"""
    m = {}
    for psi, ini in i2.inits.items():
        if ini.tag == "phi" and ini in inst.inits and psi.a[2] == "i":
            # both move by one
            mv = i2.steps.get(psi, set())
            if mv and all(v in (add(psi, 1), add(psi, -1), psi) for v in mv) and any(v is not psi for v in mv):
                if ini in looked_at(eng, inst) or psi in looked_at(eng, i2):
                    m[psi] = ini
    return m


def looked_at(eng, inst):
    """the counters of a loop it reads elements or makes decisions with (a counter of which neither is true
    only counts, like the length of a list that is filled)"""
    c = inst.__dict__.get("_looked")
    if c is None:
        c = inst.__dict__["_looked"] = set()
        for w in [x[1] for x in inst.edges] + [x[1] for x in inst.exits]:
            for ev in w:
                if ev.a[0] == "L":
                    i2 = eng.insts.get(ev.a[1])
                    if i2 is not None:
                        l2 = looked_at(eng, i2)
                        c |= {t for t in l2 if t.tag == "phi"}
                        for psi, ini in i2.inits.items():
                            if psi in l2:
                                c |= {t for t in subterms(ini) if t.tag == "phi"}
                elif ev.a[0] == "asm":
                    c |= {t for t in subterms(ev.a[1]) if t.tag == "phi"}
                elif ev.a[0] in ("visit", "alt"):
                    c |= {t for t in subterms(ev) if t.tag == "phi"}
                else:
                    c |= {u for t in subterms(ev) if t.tag == "idx" for u in subterms(t.a[1]) if u.tag == "phi"}
    return c


def asms(w):
    for ev in w:
        if ev.a[0] == "asm":
            yield ev.a[1], ev.a[2]


class Cover:
    def __init__(self):
        self.complete = True
        self.words = []  # (kind, head, word, position, target)
        self.why = None
        self.his = set()
        self.reverse = False
        self.start = None  # where it begins, if that is all that keeps it from being complete
        self.others = False


def visited(eng, inst):
    f = flat(eng, inst)
    cs = []
    for i, w, j, s in f.edges:
        for ev in w:
            if ev.a[0] == "visit" and ev.a[1] not in cs:
                cs.append(ev.a[1])
    for i, w, kind, st, g in f.exits:
        for ev in w:
            if ev.a[0] == "visit" and ev.a[1] not in cs:
                cs.append(ev.a[1])
    return cs


def live(eng, inst, gid):
    """the states of the loop that can have been reached when it is left through the exits of a group"""
    f = flat(eng, inst)
    ok = {i for i, w, kind, st, g in f.exits if kind == "exit" and g == gid}
    grow = True
    while grow:
        grow = False
        for i, w, j, s in f.edges:
            if j in ok and i not in ok:
                ok.add(i)
                grow = True
    return ok


def coverage(eng, inst, C, gid=None):
    """are all elements of C visited by the loop (exactly once, in order) when it is left through
    the exits of group `gid` (any normal exit if None)?"""
    cache = inst.__dict__.setdefault("covers", {})
    c = cache.get((C, gid))
    if c is None:
        c = cache[(C, gid)] = coverage_(eng, inst, C, gid)
    return c


def coverage_(eng, inst, C, gid):
    f = flat(eng, inst)
    cov = Cover()
    ln = mk("len", C)

    def fail(why):
        cov.complete = False
        cov.others = True
        if cov.why is None:
            cov.why = why

    # cursor position per head: phi or constant
    def pos_of(word):
        return [ev.a[2] for ev in word if ev.a[0] == "visit" and ev.a[1] is C]

    # collect the cursor phis
    cursors = set()
    for i, w, j, s in f.edges:
        for p in pos_of(w):
            b, k = split(p)
            if b.tag == "phi" and b in f.inits or b.tag == "phi" and b.a[0] is inst.L.key:
                cursors.add(b)
    allw = [(i, w, ("edge", j), s) for i, w, j, s in f.edges] + [(i, w, ("exit", kind, g), {}) for i, w, kind, st, g in f.exits if gid is None or (kind == "exit" and g == gid)]
    for i, w, tgt, s in allw:
        ps = pos_of(w)
        if not ps:
            continue
        if len(ps) > 1:
            fail("several elements in one iteration")
        p = ps[0]
        b, k = split(p)
        cov.words.append((tgt[0], i, w, p, tgt))
        if tgt[0] == "edge":
            if b in cursors:
                if k == 0:
                    if s.get(b) is not add(b, 1):
                        fail("cursor does not advance by one")
                    ini = f.inits.get(b)
                    if ini is not None and not (ini.tag == "int" and ini.a[0] == 0):
                        cov.complete = False
                        cov.why = cov.why or "does not start at the first element"
                        if cov.start not in (None, ini):
                            cov.others = True
                        cov.start = ini
                elif k == -1:
                    cov.reverse = True
                    if s.get(b) is not add(b, -1):
                        fail("cursor does not go back by one")
                    ini = f.inits.get(b)
                    if ini is None or not eng_eq(eng, inst, ini, ln):
                        fail("does not start at the last element")
                else:
                    fail("odd position")
            elif p.tag == "int" and p.a[0] == 0:
                if not any(x in cursors and v is I(1) for x, v in s.items()):
                    fail("first element visited without moving on")
            else:
                fail("position is not the cursor")
    # early exits
    fin = {}
    work = [(0, False)]
    seen = set()
    while work:
        i, done = work.pop()
        if (i, done) in seen:
            continue
        seen.add((i, done))
        for h, w, tgt, s in allw:
            if h != i:
                continue
            d = done or exhausted(w, C, ln, cursors, cov, inst.entry)
            if tgt[0] == "exit":
                if tgt[1] == "exit" and not d:
                    fail("leaves the loop before the last element")
                continue
            work.append((tgt[1], d))
    if not cov.words:
        fail("never visited")
    return cov


def eng_eq(eng, inst, a, b):
    if a is b:
        return True
    st = inst.entry
    return eng.le(st, a, b) and eng.le(st, b, a)


def exhausted(w, C, ln, cursors, cov, entry):
    """does the word establish that the cursor has reached the end?"""
    for at, v in asms(w):
        if at.a[0] == "lt" and v is FALSE:
            lo, hi = at.a[1], at.a[2]
            if (split(lo)[0] in cursors or lo is I(0)) and is_len(hi, C, ln, entry):
                cov.his.add(hi)
                return True
            if split(hi)[0] in cursors and lo is I(0):
                cov.his.add(ln)
                return True
        if at.a[0] == "ieq" and v is TRUE:
            x, y = at.a[1], at.a[2]
            for p, q in ((x, y), (y, x)):
                if split(p)[0] in cursors and (is_len(q, C, ln, entry) or q is I(0)):
                    cov.his.add(ln if q is I(0) else q)
                    return True
    return False


def is_len(t, C, ln, entry):
    if t is ln:
        return True
    if C.tag == "vid":
        for v in entry.mem.values():
            for s in subterms(v):
                if s.tag in ("vec", "ivec") and s.a[0] is C and s.a[1] is t:
                    return True
                if s.tag == "it" and s.a[0] is C and s.a[2] is t:
                    return True
    return False
