"""Primitive std operations: base collections, iterators, cells, memory; everything else of std is
either a model function (models/models.rs, analysed inline) or an opaque call."""
import re
from terms import *

OPT = "std::option::Option"
NONE = mk("adt", OPT, "None", ())
RANGES = {"std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom", "std::ops::RangeTo", "std::ops::RangeFull", "std::ops::RangeToInclusive"}
PANICS = {"begin_panic", "panic_fmt", "panic", "panic_display", "unreachable_display", "panic_str", "panic_bounds_check", "panic_explicit", "assert_failed", "panic_const", "panic_str_2015", "unwrap_failed", "expect_failed", "panic_nounwind"}


def some(v):
    return adt(OPT, "Some", (("0", v),))


def tyname(p):
    """last type segment of a method path"""
    m = re.search(r"<impl ([^>]*?)>::\w+$", p)
    if m:
        x = m.group(1).strip("&' ")
        if x.startswith("["):
            return "Vec"
        return x.split("::")[-1].split("<")[0]
    p = re.sub(r"::<[^<>]*(<[^<>]*(<[^<>]*>[^<>]*)*>[^<>]*)*>", "", p)
    seg = p.split("::")
    return seg[-2] if len(seg) > 1 else ""


def strip_ref(ty):
    while ty and ty.get("k") in ("ref", "ptr"):
        ty = ty["t"]
    return ty


def holds_set(x):
    """a set is part of the value itself, not of what it was computed from"""
    if not isinstance(x, T):
        return isinstance(x, tuple) and any(holds_set(y) for y in x)
    return x.tag == "set" or x.tag in ("adt", "tup", "some", "box") and any(holds_set(y) for y in x.a)


TOUCH = {"new", "push", "pop", "clear", "vrev", "vinsert", "vmut", "vset", "copyof", "ipush", "iclear", "ins", "mapins", "setrm", "setclr", "setmut", "unkw", "take", "store"}


# operations on a list of positions that change nothing but the order, or are modelled for such lists
IVEC_FINE = {
    "new", "with_capacity", "reserve", "shrink_to_fit", "as_slice", "leak", "len", "is_empty", "push", "clear", "reverse", "sort", "sort_by",
    "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "dedup", "swap", "rotate_left", "rotate_right", "get", "iter",
    "first", "last", "contains", "extend", "extend_from_slice", "append", "to_vec", "from_iter", "into_iter", "clone", "split_first", "split_last",
}


def is_option(t):
    return isinstance(t, dict) and t.get("k") == "adt" and t.get("p", "").split("::")[-1] == "Option"


class Prims:
    def __init__(self, eng):
        self.eng = eng
        self.none = NONE

    # ------------------------------------------------------------- references
    def auto3(self, st, v):
        loc = None
        n = 0
        while n < 30:
            n += 1
            if v.tag == "ref":
                loc = v.a
                v = self.eng.read_loc(st, v.a)
            elif v.tag == "guard":
                v = v.a[1]
                if v.tag != "ref":
                    loc = None
            else:
                break
        return ("loc" if loc is not None else "val", loc, v)

    def auto(self, st, v):
        k, loc, x = self.auto3(st, v)
        return k, x

    def val(self, st, v):
        return self.auto3(st, v)[2]

    def deep(self, st, v, depth=0):
        """value with references replaced by what they point to"""
        if depth > 8:
            return v
        v = self.val(st, v)
        if v.tag == "adt":
            return adt(v.a[0], v.a[1], tuple((n, self.deep(st, x, depth + 1)) for n, x in v.a[2]))
        if v.tag == "tup":
            return mk("tup", *[self.deep(st, x, depth + 1) for x in v.a])
        if v.tag == "arr":
            return mk("arr", *[self.deep(st, x, depth + 1) for x in v.a])
        if v.tag == "clo":
            return mk("clo", v.a[0], tuple(self.deep(st, x, depth + 1) for x in v.a[1]))
        return v

    snapshot = deep

    # ------------------------------------------------------------- lengths, elements
    def length(self, st, v):
        v = self.val(st, v)
        if v.tag in ("vec", "ivec"):
            return v.a[1]
        if v.tag == "arr":
            return I(len(v.a))
        if v.tag == "slice":
            return self.sub(v.a[2], v.a[1])
        if v.tag == "set":
            return mk("len", mk("enum", v))
        if v.tag == "map":
            return mk("len", mk("enum", mk("keys", v)))
        if v.tag == "it":
            return self.sub(v.a[2], v.a[1])
        return mk("len", v)

    def sub(self, a, b):
        ba, ka = split(a)
        bb, kb = split(b)
        if ba is bb:
            return I(ka - kb)
        if bb is ZERO:
            return add(a, -kb)
        return add(mk("sub", ba, bb), ka - kb)

    def coll(self, st, v):
        v = self.val(st, v)
        if v.tag == "vec":
            return v.a[0]
        if v.tag == "ivec":
            return v.a[2]
        if v.tag == "slice":
            return v.a[0]
        return v

    def element1(self, st, v, i):
        v = self.val(st, v)
        if v.tag == "slice":
            return self.element_c(st, v.a[0], self.plus(v.a[1], i))
        if v.tag == "arr":
            if i.tag == "int" and i.a[0] < len(v.a):
                return v.a[i.a[0]]
            return mk("unk", "arrayelem")
        return self.element_c(st, self.coll(st, v), i)

    def plus(self, a, b):
        if a.tag == "int":
            return add(b, a.a[0])
        if b.tag == "int":
            return add(a, b.a[0])
        return mk("sum", *sorted((a, b), key=lambda t: t.n))

    def element_c(self, st, c, i):
        r = self.elements_c(st, c, i)
        if len(r) == 1 and r[0][1] is not None:
            return r[0][1]
        return mk("idx", c, i)

    def elements(self, st, v, i):
        """[(state, value)] — forks over the alternatives"""
        v = self.val(st, v)
        if v.tag == "slice":
            return self.fork_el(st, v.a[0], self.plus(v.a[1], i))
        if v.tag == "arr":
            return self.arr_el(st, v, i)
        return self.fork_el(st, self.coll(st, v), i)

    def arr_el(self, st, v, i):
        if i.tag == "int":
            return [(st, v.a[i.a[0]])] if 0 <= i.a[0] < len(v.a) else [(st, mk("unk", "arrayelem"))]
        out = []
        for k, x in enumerate(v.a):
            s = st.clone()
            if self.eng.decide(s, self.eng.ieq_atom(i, I(k))) is False:
                continue
            self.eng.assume(s, self.eng.ieq_atom(i, I(k)), True)
            out.append((s, x))
        return out

    def fork_el(self, st, c, i):
        alts = self.elements_c(st, c, i)
        if len(alts) == 1 and not alts[0][0]:
            v = alts[0][1]
            return [(st, v if v is not None else mk("idx", c, i))]
        out = []
        for n, (assum, val, tag) in enumerate([a if len(a) == 3 else a + (None,) for a in alts]):
            s = st.clone()
            ok = True
            s.ev("alt", c, i, val, I(n), I(len(alts)))
            for atom, b in assum:
                if atom.a[0] == "var":
                    s.facts[atom] = b
                    s.ev("asm", atom, b)
                    continue
                d = self.eng.decide(s, atom)
                if d is not None and d != b:
                    ok = False
                    break
                if d is None:
                    self.eng.assume(s, atom, b)
            if ok:
                out.append((s, val))
        return out

    def elements_c(self, st, c, i):
        """alternatives for element i of a collection: [(assumptions, value|None[, tag])]"""
        e = self.eng
        if c.tag == "enum":
            s = c.a[0]
            if s.tag == "set":
                alts = self.content(st, s)
                if alts is not None and alts:
                    return [(a, v) for a, v in self.select(st, c, i, alts)]
            if s.tag == "keys" and s.a[0].tag == "map":
                alts = self.content(st, s.a[0])
                if alts is not None and alts:
                    return [(a, v) for a, v in self.select(st, c, i, alts)]
            return [((), mk("idx", c, i))]
        if c.tag == "vid":
            r = self.vec_el(st, c, i)
            if r is not None:
                return r
            return [((), mk("idx", c, i))]
        return [((), mk("idx", c, i))]

    def select(self, st, c, i, alts):
        """turn content alternatives (inst phis free) into alternatives for one element"""
        out = []
        for assum, val in alts:
            syms = set(val.syms)
            for a, b in assum:
                syms |= a.syms
            m = {}
            for s in syms:
                if s.tag == "phi" and not self.phi_live(st, s):
                    m[s] = mk("phi", mk("sel", s.a[0], c, i), s.a[1], s.a[2])
            if m:
                val = subst(val, m)
                assum = tuple((subst(a, m), b) for a, b in assum)
            out.append((assum, val))
        return out

    def phi_live(self, st, s):
        """does the loop this phi belongs to still enclose the current point?"""
        k = s.a[0]
        if k.tag == "cpy":
            return False  # an unknown element of a copied set
        if k.tag != "loop":
            return True
        fid, hdr = k.a[0], k.a[1]
        for f in st.frames:
            if f.fid is fid:
                return f.body.loops().get(hdr) and f.block in f.body.loops()[hdr]
        return False

    # the content of a local set / key set of a local map, as alternatives
    def content(self, st, s):
        e = self.eng
        return self.content_at(s, st, st.log, 0)

    def content_at(self, want, st, log, depth):
        e = self.eng
        alts = []
        gone = []
        # (backwards: what was removed later cannot be what is in the set now, unless put back, which has been seen)
        while log is not NIL:
            ev = log.a[1]
            k = ev.a[0]
            n0 = len(alts)
            if k == "new" and ev.a[1] is want.a[0]:
                return self.dedup(alts)
            if k == "ins" and ev.a[1] is want and want.tag == "set":
                alts.append(((), ev.a[2]))
            elif k == "mapins" and ev.a[1] is want:
                alts.append(((), ev.a[2]))
            elif k == "setrm" and ev.a[1] is want and want.tag == "set":
                gone.append(ev.a[2])
            elif k == "copyof" and ev.a[1] is want.a[0] and want.tag == "set":
                src = ev.a[2]
                if src.tag == "set":
                    r = self.content_at(src, st, log.a[0], depth + 1) if depth < 4 else None
                    if r is None:
                        return None
                    alts += r
                elif src.tag in ("mget", "f"):
                    i = mk("phi", mk("cpy", want.a[0]), 0, "i")
                    c = mk("enum", src)
                    alts.append((((mk("at", "lt", i, mk("len", c)), True),), mk("idx", c, i)))
                else:
                    return None
                return self.dedup(alts[:n0] + [(a + tuple((e.eq_atom(x, v), False) for x in gone), v) for a, v in alts[n0:]])
            elif k in ("setrm", "setclr", "setmut", "unkw") and ev.a[1] is want:
                return None
            elif k == "X" and alts:
                i2 = e.insts.get(ev.a[1])
                if i2 is not None:
                    ea = None
                    for q, (a, v) in enumerate(alts):
                        if any(s.tag == "phi" and s.a[0] is i2.L.key for s in v.syms):
                            ea = self.exit_assum(ev) if ea is None else ea
                            alts[q] = (a + tuple(x for x in self.relevant(ea, v) if x not in a), v)
            elif k == "L":
                inst = e.insts.get(ev.a[1])
                if inst is None:
                    if self.cur_touches(st, ev.a[1], want):
                        return None
                else:
                    r = self.inst_content(inst, want, (), 0)
                    if r is None:
                        return None
                    alts += r
            if gone and len(alts) > n0:
                alts[n0:] = [(a + tuple((e.eq_atom(x, v), False) for x in gone), v) for a, v in alts[n0:]]
            log = log.a[0]
        return None

    def dedup(self, alts):
        seen = set()
        out = []
        for a in alts:
            if a not in seen:
                seen.add(a)
                out.append(a)
        return out

    def cur_touches(self, st, it, want):
        """may the loop `it`, which is being solved, change this collection? (assumed not, then verified)"""
        k = (it.a[0], want)
        if k in self.eng.touching:
            return True
        self.eng.assumed.add(k)
        return False

    def touches(self, word, want):
        for ev in word:
            if ev.a[0] == "copyof":
                if ev.a[1] is want or want.tag in ("set", "map", "vec") and ev.a[1] is want.a[0]:
                    return True
                continue
            if ev.a[0] in TOUCH and any(x is want for x in ev.a[1:]):
                return True
            if want.tag == "rowsof" and ev.a[0] in TOUCH and isinstance(ev.a[1], T) and ev.a[1].tag == "mget" and ev.a[1].a[0] is want.a[0]:
                return True
            if ev.a[0] in ("setrm", "setclr", "setmut") and ev.a[1].tag == "mget" and ev.a[1].a[0] is want:
                return True
            if ev.a[0] == "L":
                inst = self.eng.insts.get(ev.a[1])
                if inst is not None and self.inst_touches(inst, want):
                    return True
        return False

    def inst_touches(self, inst, want):
        c = inst.touch.get(want) if hasattr(inst, "touch") else None
        if not hasattr(inst, "touch"):
            inst.touch = {}
        if want in inst.touch:
            return inst.touch[want]
        r = any(self.touches(w, want) for _, w, _, _ in inst.edges) or any(self.touches(x[1], want) for x in inst.exits)
        inst.touch[want] = r
        return r

    def inst_content(self, inst, want, pre, depth):
        if depth > 4:
            return None
        if not self.inst_touches(inst, want):
            return []
        alts = []
        words = [w for _, w, _, _ in inst.edges] + [x[1] for x in inst.exits if x[2] == "exit"]
        for w in words:
            assum = list(pre)
            for ev in w:
                k = ev.a[0]
                if k == "asm":
                    v = ev.a[2]
                    assum.append((ev.a[1], v.a[0] if isinstance(v, T) else v))
                elif (k == "ins" or k == "mapins") and ev.a[1] is want:
                    alts.append((self.relevant(assum, ev.a[2]), ev.a[2]))
                elif k in ("setrm", "setclr") and ev.a[1] is want:
                    continue  # (what is said to be in it may have gone)
                elif k in ("setmut", "unkw", "store") and ev.a[1] is want:
                    return None
                elif k in ("new", "copyof") and ev.a[1] is want.a[0]:
                    return None
                elif k == "L":
                    i2 = self.eng.insts.get(ev.a[1])
                    if i2 is None:
                        continue
                    r = self.inst_content(i2, want, tuple(assum), depth + 1)
                    if r is None:
                        return None
                    alts += r
                elif k == "X":
                    assum += self.exit_assum(ev)
        return alts

    def exit_assum(self, ev):
        """what every way of leaving a loop through this exit establishes"""
        i2 = self.eng.insts.get(ev.a[1])
        if i2 is None:
            return []
        common = None
        for ix in i2.groups.get(ev.a[2].a[0], ()):
            here = {(x.a[1], x.a[2].a[0] if isinstance(x.a[2], T) else x.a[2]) for x in i2.exits[ix][1] if x.a[0] == "asm"}
            common = here if common is None else common & here
        return sorted(common or (), key=lambda q: (q[0].n, q[1]))

    def relevant(self, assum, val):
        """assumptions usable about an element (positional bookkeeping excluded)"""
        out = []
        for a, b in assum:
            if a.a[0] in ("b",):
                continue
            if a.a[0] in ("in", "haskey") and b is False and not self.shared(a.a[1]):
                continue  # not stable under later insertions
            out.append((a, b))
        return tuple(out)

    def shared(self, x):
        """part of something the analysed function has only shared access to"""
        while x.tag in ("f", "mget", "idx") and isinstance(x.a[0], T):
            x = x.a[0]
        if x.tag != "p":
            return False
        ty = self.eng.ptypes.get(x.a[0])
        return bool(ty) and ty["k"] == "ref" and not ty.get("m")

    # element i of a local vec
    def vec_el(self, st, vid, i):
        e = self.eng
        log = st.log
        found = []
        while log is not NIL:
            ev = log.a[1]
            k = ev.a[0]
            if k == "new" and ev.a[1] is vid:
                break
            if k == "push" and ev.a[1] is vid:
                j, val = ev.a[2], ev.a[3]
                d = e.decide(st, e.ieq_atom(i, j))
                if d is True:
                    return found + [((), val)] if not found else found + [(((e.ieq_atom(i, j), True),), val)]
                if d is None:
                    found.append((((e.ieq_atom(i, j), True),), val))
            elif k == "copyof" and ev.a[1] is vid:
                src = ev.a[2]
                r = self.elements_c(st, src, i)
                return found + r if found else r
            elif k in ("pop", "clear", "vrev", "vinsert", "vmut", "vset") and ev.a[1] is vid:
                if k == "clear":
                    break
                if k == "vrev":
                    n = ev.a[2]
                    save = st.log
                    st2 = st.clone()
                    st2.log = log.a[0]
                    if found:
                        return None
                    return self.elements_c(st2, vid, add(self.sub(n, i), -1))
                if k == "pop":
                    j = ev.a[2]
                    # the popped position has been overwritten or is out of range
                    pass
                else:
                    return None
            elif k == "L":
                inst = e.insts.get(ev.a[1])
                if inst is None:
                    if self.cur_touches(st, ev.a[1], vid):
                        return None
                elif self.inst_touches(inst, vid):
                    r = self.vec_loop_el(st, inst, vid, i)
                    if r is None:
                        return None
                    if found:
                        # later direct pushes and an earlier loop
                        return None
                    # earlier pushes before the loop?
                    st2 = st.clone()
                    st2.log = log.a[0]
                    start = r[1]
                    if start is not None and start.tag == "int" and start.a[0] == 0:
                        return r[0]
                    return None
            log = log.a[0]
        return found if found else None

    def vec_content(self, st, vid, depth=0):
        """what has been put into a local vec, in whatever order: [(assumptions, value)]; None if unknown"""
        e = self.eng
        alts = []
        log = st.log
        while log is not NIL:
            ev = log.a[1]
            k = ev.a[0]
            if k == "new" and ev.a[1] is vid:
                return self.dedup(alts)
            if k == "push" and ev.a[1] is vid:
                alts.append(((), ev.a[3]))
            elif k in ("vinsert", "vmut", "vset", "copyof", "unkw", "store") and ev.a[1] is vid:
                return None
            elif k == "L":
                inst = e.insts.get(ev.a[1])
                if inst is None:
                    if self.cur_touches(st, ev.a[1], vid):
                        return None
                else:
                    r = self.vec_inst_content(inst, vid, (), 0)
                    if r is None:
                        return None
                    alts += r
            log = log.a[0]
        return None

    def vec_inst_content(self, inst, vid, pre, depth):
        if depth > 4:
            return None
        if not self.inst_touches(inst, vid):
            return []
        alts = []
        for w in [w for _, w, _, _ in inst.edges] + [x[1] for x in inst.exits if x[2] == "exit"]:
            assum = list(pre)
            for ev in w:
                k = ev.a[0]
                if k == "asm":
                    v = ev.a[2]
                    assum.append((ev.a[1], v.a[0] if isinstance(v, T) else v))
                elif k == "push" and ev.a[1] is vid:
                    alts.append((self.relevant(assum, ev.a[3]), ev.a[3]))
                elif k in ("new", "copyof", "vinsert", "vmut", "vset", "unkw", "store") and ev.a[1] is vid:
                    return None
                elif k == "L":
                    i2 = self.eng.insts.get(ev.a[1])
                    if i2 is None:
                        continue
                    r = self.vec_inst_content(i2, vid, tuple(assum), depth + 1)
                    if r is None:
                        return None
                    alts += r
                elif k == "X":
                    assum += self.exit_assum(ev)
        return alts

    def vec_loop_el(self, st, inst, vid, i):
        """element i of a vec filled by loop inst; -> (alts, start index)"""
        e = self.eng
        pushes = []
        for w in [x[1] for x in inst.exits if x[2] == "exit"]:
            if self.touches(w, vid):
                return None
        per_edge = []
        nested = False
        for (h, w, j, steps) in inst.edges:
            n = 0
            for ev in w:
                if ev.a[0] == "push" and ev.a[1] is vid:
                    n += 1
                    pushes.append((w, ev.a[2], ev.a[3], steps))
                elif ev.a[0] == "new" and ev.a[1] is vid:
                    return None
                elif ev.a[0] in ("pop", "clear", "vrev", "vinsert", "vmut", "vset", "copyof") and ev.a[1] is vid:
                    return None
                elif ev.a[0] == "L":
                    i2 = e.insts.get(ev.a[1])
                    if i2 is not None and self.inst_touches(i2, vid):
                        nested = True
            per_edge.append(n)
        if nested or not pushes:
            return None
        one = all(n == 1 for n in per_edge)
        if one:
            # position-preserving: element i is the value pushed at position i
            alts = []
            for w, at, val, steps in pushes:
                b, k = split(at)
                if b.tag != "phi" or steps.get(b) is not add(b, 1):
                    return None
                ini = inst.inits.get(b)
                if ini is None:
                    return None
                # all int phis that advance in lock step
                m = {b: add(i, -k)}
                for p, s in steps.items():
                    if p is b or p.a[2] != "i":
                        continue
                    d = self.const_step(p, s)
                    pi = inst.inits.get(p)
                    if d is None or pi is None:
                        continue
                    pb, pk = split(pi)
                    ib, ik = split(ini)
                    if d == 1:
                        if pb is ib:
                            m[p] = add(i, -k + pk - ik)
                        elif ib is ZERO:
                            m[p] = self.plus(add(i, -k - ik), pi)
                    elif d == -1 and ib is ZERO:
                        m[p] = self.sub(pi, add(i, -k - ik))
                v = subst(val, m)
                assum = []
                if len(pushes) > 1:
                    for ev in w:
                        if ev.a[0] == "asm":
                            vv = ev.a[2]
                            at2 = subst(ev.a[1], m)
                            assum.append((at2, vv.a[0] if isinstance(vv, T) else vv))
                for s in list(v.syms):
                    if s.tag == "phi" and s.a[0] is inst.L.key:
                        return None
                alts.append((tuple(assum), v))
            ini = inst.inits.get(split(pushes[0][1])[0])
            return alts, ini
        # filtered: some iterations push nothing
        out = []
        for w, at, val, steps in pushes:
            assum = []
            for ev in w:
                if ev.a[0] == "asm":
                    vv = ev.a[2]
                    assum.append((ev.a[1], vv.a[0] if isinstance(vv, T) else vv))
            out.append((self.relevant(assum, val), val))
        b, k = split(pushes[0][1])
        ini = inst.inits.get(b, b)
        if k:
            ini = add(ini, k)
        return self.select(st, vid, i, self.dedup(out)), ini

    def const_step(self, p, s):
        b, k = split(s)
        return k if b is p else None

    # ------------------------------------------------------------- index lists
    # contents of a list of positions: iempty; chain(coll, k): exactly the positions m >= k of coll with
    # everything in coll[k..m) vanishing; itop(why): something else.  Why: "dead": a chain that has become
    # useless because the symbol before it cannot vanish; "stale": such a list with further positions;
    # "gap": positions are missing; none: not understood
    def ivec_collapse(self, st, v):
        c = v.a[2]
        if c.tag == "chain":
            coll, k = c.a
            for d in (1, 2, 3):
                if self.eng.le(st, I(d), k) and self.nullable(st, mk("idx", coll, add(k, -d))) is False:
                    return mk("ivec", v.a[0], v.a[1], mk("itop", "dead"))
        return v

    def ivec_coll(self, st, v, x):
        """the collection that x is a position of"""
        if v.a[2].tag == "chain":
            return v.a[2].a[0]
        b, k = split(x)
        if b.tag == "len" and k == -1:
            return b.a[0]
        for a, b in st.facts.items():
            if a.a[0] in ("in", "nt", "term", "lt"):
                for s in subterms(a):
                    if s.tag == "idx" and s.a[1] is x and s.a[0].tag != "enum":
                        return s.a[0]
        coll = None
        for s in list(st.mem.values()):
            for t in subterms(s):
                if t.tag == "idx" and t.a[1] is x and t.a[0].tag != "enum":
                    coll = t.a[0]
        return coll

    def ivec_pushes(self, st, v, x):
        """[(state, list after the push)], split on whether the symbol at x can vanish where that matters"""
        e = self.eng
        c = v.a[2]
        coll = self.ivec_coll(st, v, x)
        if coll is not None and c.tag in ("iempty", "chain"):
            el = mk("idx", coll, x)
            last = e.decide(st, e.ieq_atom(add(x, 1), mk("len", coll))) is True
            if not last and self.nullable(st, el) is None:
                return [(s, self.ivec_push(s, v, x)) for s, b in e.fork(st, mk("at", "nullable", el))]
        return [(st, self.ivec_push(st, v, x))]

    def ivec_push(self, st, v, x):
        e = self.eng
        vid, n, c = v.a
        nc = mk("itop")
        coll = self.ivec_coll(st, v, x)
        if c.tag == "itop" and c.a:
            nc = mk("itop", "stale" if c.a[0] == "dead" else c.a[0])
        elif coll is not None:
            el = mk("idx", coll, x)
            nu = self.nullable(st, el)
            ln = mk("len", coll)
            last = e.decide(st, e.ieq_atom(add(x, 1), ln)) is True
            if c.tag == "iempty":
                if nu is False or last:
                    nc = mk("chain", coll, x)
                elif nu is True:
                    nc = mk("itop", "gap")
            elif c.tag == "chain" and c.a[0] is coll:
                if c.a[1] is x:
                    nc = c
                elif nu is True and e.decide(st, e.ieq_atom(c.a[1], add(x, 1))) is True:
                    nc = mk("chain", coll, x)
                elif nu is False:
                    nc = mk("itop", "stale")
                elif nu is True and e.le(st, add(x, 2), c.a[1]):
                    nc = mk("itop", "gap")
        st.ev("ipush", vid, x)
        return mk("ivec", vid, add(n, 1), nc)

    def nullable(self, st, x):
        for h in self.eng.oracle:
            f = getattr(h, "nullable", None)
            if f is not None:
                r = f(self.eng, st, x)
                if r is not None:
                    return r
        for a, b in st.facts.items():
            if a.a[0] == "nullable" and a.a[1] is x:
                return b.a[0]
        return None

    # ------------------------------------------------------------- mutation bookkeeping
    def place_owned(self, loc):
        """does the place hold a value of its own (and not a reference)? None: unknown"""
        fid, l, path = loc
        if not (isinstance(fid, T) and fid.tag == "fid" and isinstance(l, int)):
            return None
        b = self.eng.prog.bodies.get((fid.a[2], -1))
        if b is None:
            return None
        ty = b.locals[l]
        for v, n in path:
            if ty.get("k") == "tuple" and str(n).isdigit():
                ty = ty["a"][int(n)]
                continue
            info = self.eng.adt_info(ty)
            if info is None:
                return None
            fs = [f for vs in info["vs"] if not v or vs["n"] == v for f in vs["fs"] if f["n"] == n]
            if not fs:
                return None
            ty = fs[0]["t"]
        if ty.get("k") == "adt" and ty["p"].split("::")[-1] in ("Vec", "HashSet", "HashMap"):
            return True
        return False if ty.get("k") == "ref" else None

    def own(self, st, fr, loc, v, kind):
        """a collection that is about to be changed: an owned copy of a caller's one becomes a local one"""
        if loc is None or v.tag in ("vec", "ivec", "set", "map", "cell", "slice") or not self.place_owned(loc):
            return v
        vid = mk("vid", fr.fid, fr.block, 7)
        self.forget(st, vid)
        st.ev("new", vid, mk("k", kind))
        st.ev("copyof", vid, v)
        r = mk("vec", vid, mk("len", v)) if kind == "vec" else mk(kind, vid)
        self.eng.write_loc(st, loc, r)
        return r

    def purge(self, st, target, keep_true=False, keep_false=False, grew=False):
        """forget facts about a collection whose content changes"""
        for a in list(st.facts):
            if a.a[0] in ("in", "haskey") and self.may_alias(st, a.a[1], target):
                v = st.facts[a]
                if (keep_true and v is TRUE) or (keep_false and v is FALSE):
                    continue
                del st.facts[a]
            elif a.a[0] not in ("in", "haskey") and self.mentions_len(a, target):
                del st.facts[a]
        self.old_lengths(st, target, grew)
        for p in list(st.ints):
            if self.mentions_len(p[0], target) or (self.mentions_len(p[1], target) and not grew):
                del st.ints[p]

    def old_lengths(self, st, target, grew):
        """a length remembered in a variable no longer is the length of the collection"""
        if target.tag not in ("set", "map", "mget"):
            return
        e = self.eng
        for key, v in list(st.mem.items()):
            # (a running iteration excludes changes of what it runs over)
            if v.tag in ("it", "adt", "clo", "tup") and any(x.tag == "it" for x in subterms(v)):
                continue
            cut = [x for x in subterms(v) if x.tag == "len" and self.mentions_len(x, target)]
            if not cut:
                continue
            m = {}
            for j, x in enumerate(cut):
                n = mk("sym", "oldlen", key[0], -2, key[1], j)
                while any(n in o.syms for k2, o in st.mem.items() if k2 != key):
                    j += 10
                    n = mk("sym", "oldlen", key[0], -2, key[1], j)
                if not hasattr(e, "symtypes"):
                    e.symtypes = {}
                e.symtypes[n] = {"k": "int", "s": "usize"}
                for q in [q for q in st.ints if n in q[0].syms or n in q[1].syms]:
                    del st.ints[q]
                for a in [a for a in st.facts if n in a.syms]:
                    del st.facts[a]
                m[x] = n
            st.mem[key] = subst(v, m)
            if grew:
                for x, n in m.items():
                    st.ints[(n, x)] = -1

    def mentions_len(self, t, target):
        if target.tag not in ("set", "map", "mget"):
            pass
        for s in subterms(t):
            if s.tag == "len":
                c = s.a[0]
                if c.tag == "enum":
                    c = c.a[0]
                    if c.tag == "keys":
                        c = c.a[0]
                if c is target:
                    return True
                if c.tag == "mget" and target.tag == "mget" and c.a[0] is target.a[0]:
                    return True
        return False

    def may_alias(self, st, a, b):
        if a is b:
            return True
        if a.tag == "mget" and b.tag == "mget" and a.a[0] is b.a[0]:
            d = self.eng.decide(st, self.eng.eq_atom(a.a[1], b.a[1]))
            return d is not False
        return False

    # ------------------------------------------------------------- dispatch
    def std_call(self, st, fr, c, tr, m, args, t, bl):
        e = self.eng
        p = c["p"]
        ty = tyname(p) if not tr else tr
        fin = lambda v: e.finish(st, fr, t, bl, v)
        # panics
        if t[4] < 0:
            if m in PANICS or "panic" in p or "fail" in p:
                return [e.panic(st, "explicit panic", bl["sp"])]
            if m in ("exit", "abort"):
                return [e.panic(st, "process exit", bl["sp"])]
        if tr:
            r = self.trait_call(st, fr, c, tr, m, args, t, bl, fin)
            if r is not None:
                return r
        else:
            if ty == "Vec" and args and m not in IVEC_FINE:
                k, loc, v = self.auto3(st, args[0])
                if v.tag == "ivec" and loc is not None:
                    # content and length are no longer known
                    e.write_loc(st, loc, mk("ivec", v.a[0], mk("sym", "n", fr.fid, fr.block), mk("itop")))
                    st.ev("imut", v.a[0])
                    if m in ("truncate", "retain", "retain_mut", "insert"):
                        return fin(UNIT)
                    if m in ("remove", "swap_remove"):
                        return fin(mk("sym", "removed", fr.fid, fr.block))
                    if m != "pop":
                        return e.opaque_call(st, fr, p, args, t, bl)
            h = getattr(self, "p_%s__%s" % (ty, m), None)
            if h is not None:
                r = h(st, fr, c, args, t, bl, fin)
                if r is not None:
                    return r
            if ty in ("Arguments",) or "fmt" in p:
                return fin(mk("const", "fmt"))
        # model functions
        b = self.model_for(st, ty, tr, m, args)
        if b is not None:
            if tr in ("Iterator", "DoubleEndedIterator") and args and args[0].tag == "adt" and args[0].a[0] in RANGES:
                it = self.range_it(args[0])
                if it is not None and it.a[2] is not None and it.a[1] is not None:
                    args = [it] + list(args[1:])
            r = e.push(st, fr, b, args, t)
            if r is not None:
                return r
            return e.opaque_call(st, fr, "recursive model " + b.name, args, t, bl)
        return e.opaque_call(st, fr, p, args, t, bl)

    def model_for(self, st, ty, tr, m, args):
        fns = self.eng.prog.model_fns
        v = self.val(st, args[0]) if args else None
        if tr:
            if v is not None and v.tag == "adt":
                n = v.a[0].split("::")[-1]
                if self.nested(v):
                    b = fns.get("%s__%s__deep" % (n, m))
                    if b is not None:
                        return b
                b = fns.get("%s__%s" % (n, m))
                if b is not None:
                    if m == "next" and n in ("FlatMap", "Flatten"):
                        self.eng.unk("%s::next" % n)
                    return b
            if tr in ("Sub", "BitOr", "BitAnd", "BitXor") and v is not None:
                vt = self.eng.typeof(v)
                if v.tag == "set" or vt and vt.get("k") == "adt" and vt["p"].split("::")[-1] in ("HashSet", "BTreeSet"):
                    return fns.get("HashSet__%s" % m)
            return fns.get("%s__%s" % (tr, m))
        if ty in ("VecDeque", "LinkedList"):
            pass
        n = "%s__%s" % (ty, m)
        if n in fns:
            return fns[n]
        if ty in ("iter", "mem", "sources", "once", "empty", "from_fn", "successors") and m in fns:
            return fns[m]
        return None

    def few(self, v):
        """number of elements of an iterator over one to three given values, else 0"""
        if v.tag == "it" and v.a[1].tag == "int" and v.a[2].tag == "int":
            n = v.a[2].a[0] - v.a[1].a[0]
            return n if 0 < n < 4 else 0
        if v.tag == "arr":
            return len(v.a) if 0 < len(v.a) < 4 else 0
        if v.tag != "adt":
            return 0
        n = v.a[0].split("::")[-1]
        d = dict(v.a[2])
        if n == "OptIter":
            return 1
        if n == "Option" and v.a[1] == "Some":
            return 1
        if n == "Chain":
            a = d["a"]
            x, y = self.few(a.a[2][0][1]) if a.tag == "adt" and a.a[1] == "Some" else 0, self.few(d["b"])
            return x + y if x and y and x + y < 4 else 0
        if n in ("Map", "Filter", "Cloned", "Copied", "FilterMap", "Inspect", "Rev", "Enumerate") and "i" in d:
            return self.few(d["i"])
        return 0

    def nested(self, v):
        """an iterator that runs through the elements of other iterators"""
        if v.tag != "adt":
            return False
        if v.a[0].split("::")[-1] in ("FlatMap", "Flatten"):
            return True
        return any(n in ("i", "a", "b") and self.nested(x) for n, x in v.a[2]) or v.a[1] == "Some" and self.nested(v.a[2][0][1])

    def trait_call(self, st, fr, c, tr, m, args, t, bl, fin):
        e = self.eng
        v0 = self.val(st, args[0]) if args else None
        # implementation in the analysed crate, chosen by the dynamic value or the static type
        if not c.get("local"):
            b = None
            if v0 is not None and v0.tag == "adt" and v0.a[0] in e.prog.adts:
                b = e.prog.impl_methods.get((tr, v0.a[0], m))
            if b is None and c.get("a"):
                ty = strip_ref(c["a"][0])
                if ty and ty.get("k") == "adt" and ty.get("local"):
                    b = e.prog.impl_methods.get((tr, ty["p"], m))
            if b is None and v0 is not None and tr in ("PartialEq", "Clone", "Iterator", "Default", "From", "Into", "AsRef", "Borrow", "Index", "Deref", "Extend"):
                ty = e.typeof(v0)
                if ty and ty.get("k") == "adt" and ty.get("local"):
                    b = e.prog.impl_methods.get((tr, ty["p"], m))
            if b is not None and not b.j.get("derived"):
                a2 = list(args)
                for i, a in enumerate(a2):
                    a2[i] = self.one_ref(st, a, b.locals[i + 1])
                return e.call_body(st, fr, b, a2, t, bl)
        h = getattr(self, "t_%s__%s" % (tr, m), None)
        if h is not None:
            return h(st, fr, c, args, t, bl, fin)
        h = getattr(self, "t_%s" % tr, None)
        if h is not None:
            return h(st, fr, c, args, t, bl, fin)
        if c.get("local"):
            # a trait of the analysed crate with an unknown implementation
            ty = v0
            b = None
            if v0 is not None:
                sty = e.typeof(v0)
                if v0.tag == "adt":
                    b = e.prog.impl_methods.get((tr, v0.a[0], m))
                elif sty and sty.get("k") == "adt":
                    b = e.prog.impl_methods.get((tr, sty["p"], m))
            if b is not None:
                return e.call_body(st, fr, b, args, t, bl)
            vals = [self.snapshot(st, a) for a in args]
            res = mk("sym", "ext", fr.fid, fr.block)
            self.retype(st, fr, t, res)
            st.ev("ext", mk("fnname", m), mk("tup", *vals), res)
            for hk in e.ev_hooks:
                hk(e, st, fr, "ext", c, vals, res, bl["sp"])
            return fin(res)
        return None

    def one_ref(self, st, a, ty):
        """drop surplus references"""
        if ty["k"] != "ref":
            return a
        while a.tag == "ref":
            x = self.eng.read_loc(st, a.a)
            if x.tag in ("ref", "guard") and ty["t"]["k"] != "ref":
                a = x
            else:
                break
        return a

    def retype(self, st, fr, t, res):
        e = self.eng
        if not hasattr(e, "symtypes"):
            e.symtypes = {}
        if not t[3]["p"]:
            e.symtypes[res] = fr.body.locals[t[3]["l"]]

    # ------------------------------------------------------------- traits
    def t_Deref(self, st, fr, c, args, t, bl, fin):
        a = args[0]
        if a.tag == "ref":
            v = self.eng.read_loc(st, a.a)
            if v.tag == "guard":
                return fin(v.a[1])
            if v.tag == "ref":
                return fin(v)
        if a.tag == "guard":
            return fin(a.a[1])
        return fin(a)

    t_DerefMut = t_Deref

    def ident(self, st, fr, c, args, t, bl, fin):
        return fin(args[0])

    t_Borrow = ident
    t_BorrowMut = ident
    t_AsRef = ident
    t_AsMut = ident
    t_ToOwned__to_owned = None

    def t_Clone__clone(self, st, fr, c, args, t, bl, fin):
        return self.clone_value(st, fr, args[0], t, bl, fin)

    def clone_value(self, st, fr, a, t, bl, fin):
        k, loc, v = self.auto3(st, a)
        return fin(self.cloned(st, fr, v))

    t_ToOwned__to_owned = t_Clone__clone

    def cloned(self, st, fr, v, n=0):
        if v.tag == "vec":
            vid = mk("vid", fr.fid, fr.block, n)
            st.ev("new", vid, mk("k", "vec"))
            st.ev("copyof", vid, v.a[0])
            return mk("vec", vid, v.a[1])
        if v.tag == "ivec":
            return v
        if v.tag in ("set", "map"):
            vid = mk("vid", fr.fid, fr.block, n)
            st.ev("new", vid, mk("k", v.tag))
            st.ev("copyof", vid, v)
            return mk(v.tag, vid)
        if v.tag == "adt":
            return adt(v.a[0], v.a[1], tuple((nm, self.cloned(st, fr, self.val(st, x) if x.tag == "guard" else x, n * 10 + j + 1)) for j, (nm, x) in enumerate(v.a[2])))
        if v.tag == "tup":
            return mk("tup", *[self.cloned(st, fr, x, n * 10 + j + 1) for j, x in enumerate(v.a)])
        if v.tag == "cell":
            return mk("cell", self.cloned(st, fr, v.a[0], n * 10 + 1))
        return v

    def eqcall(self, st, fr, c, args, t, bl, neg):
        e = self.eng
        a, b = self.val(st, args[0]), self.val(st, args[1])
        ty = strip_ref(c["a"][0]) if c.get("a") else None
        if a.tag == "adt" and a.a[0] == OPT or (ty and ty.get("p") == OPT):
            mb = e.prog.model_fns.get("Option__ne" if neg else "Option__eq")
            return e.push(st, fr, mb, args, t)
        out = []
        isint = (ty and ty.get("k") == "int") or (e.is_int(a) and e.is_int(b))
        if ty and ty.get("k") == "bool" or a.tag == "bool" or b.tag == "bool":
            for s, r in e.compare(st, "Ne" if neg else "Eq", a, b):
                out += e.finish(s, fr, t, bl, r)
            return out
        atom = e.ieq_atom(a, b) if isint else e.eq_atom(a, b)
        for s, r in e.fork(st, atom):
            out += e.finish(s, fr, t, bl, B(r != neg))
        return out

    def t_PartialEq__eq(self, st, fr, c, args, t, bl, fin):
        return self.eqcall(st, fr, c, args, t, bl, False)

    def t_PartialEq__ne(self, st, fr, c, args, t, bl, fin):
        # an implementation in the crate that only defines eq
        e = self.eng
        ty = strip_ref(c["a"][0]) if c.get("a") else None
        if ty and ty.get("k") == "adt" and ty.get("local"):
            b = e.prog.impl_methods.get(("PartialEq", ty["p"], "eq"))
            if b is not None:
                st.ev("noteq")
                e.unk("derived ne")
                return e.opaque_call(st, fr, "PartialEq::ne of a local type", args, t, bl)
        return self.eqcall(st, fr, c, args, t, bl, True)

    def t_Iterator__eq(self, st, fr, c, args, t, bl, fin, neg=False):
        """two whole sequences compared"""
        e = self.eng
        xs = []
        for a in args:
            loc, it = self.iter_val(st, a, c if not xs else {})
            if it is None or it.tag != "it" or it.a[3] != "seq" or it.a[4] is not False or it.a[1] is not I(0) or it.a[2] is not mk("len", it.a[0]):
                return None
            xs.append(it.a[0])
        out = []
        for s, r in e.fork(st, e.eq_atom(*xs)):
            out += e.finish(s, fr, t, bl, B(r != neg))
        return out

    def t_Iterator__ne(self, st, fr, c, args, t, bl, fin):
        return self.t_Iterator__eq(st, fr, c, args, t, bl, fin, True)

    def t_Sub__sub(self, st, fr, c, args, t, bl, fin, op="SubWithOverflow"):
        """arithmetic on references to integers"""
        e = self.eng
        a, b = self.val(st, args[0]), self.val(st, args[1])
        if not (e.is_int(a) and e.is_int(b)):
            return None
        ((s, v),) = e.arith(st, op, a, b)
        r, ovf = v.a
        if op == "SubWithOverflow":
            out = []
            for s2, lt in e.fork(s, e.lt_atom(a, b)):
                out += [e.panic(s2, "attempt to subtract with overflow", bl["sp"])] if lt else e.finish(s2, fr, t, bl, r)
            return out
        if b.tag == "int" or a.tag == "int" or e.bounded(s, a) and e.bounded(s, b):
            return e.finish(s, fr, t, bl, r)
        return None

    def t_Add__add(self, st, fr, c, args, t, bl, fin):
        return self.t_Sub__sub(st, fr, c, args, t, bl, fin, "AddWithOverflow")

    def t_PartialOrd(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        m = c["m"]
        a, b = self.val(st, args[0]), self.val(st, args[1])
        op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}.get(m)
        if op is None or not (e.is_int(a) and e.is_int(b)):
            return None
        out = []
        for s, r in e.compare(st, op, a, b):
            out += e.finish(s, fr, t, bl, r)
        return out

    def t_Default__default(self, st, fr, c, args, t, bl, fin):
        ty = c["a"][0] if c.get("a") else None
        v = self.default(st, fr, ty)
        return fin(v) if v is not None else None

    def default(self, st, fr, ty):
        if not ty:
            return None
        if ty["k"] == "bool":
            return FALSE
        if ty["k"] == "int":
            return I(0)
        if ty["k"] == "adt":
            n = ty["p"].split("::")[-1]
            if n == "Vec":
                return self.new_vec(st, fr, ty["a"][0] if ty.get("a") else None)
            if n == "HashSet":
                return self.new_coll(st, fr, "set")
            if n == "HashMap":
                return self.new_coll(st, fr, "map")
            if n == "Option":
                return NONE
            if n == "RefCell":
                x = self.default(st, fr, ty["a"][0])
                return mk("cell", x) if x is not None else None
        return None

    # conversions
    def t_From__from(self, st, fr, c, args, t, bl, fin):
        v = self.val(st, args[0])
        if v.tag == "arr" and c.get("a"):
            return self.from_array(st, fr, strip_ref(c["a"][0]), v, fin)
        return fin(args[0])

    def from_array(self, st, fr, ty, v, fin):
        n = ty["p"].split("::")[-1] if ty and ty.get("k") == "adt" else ""
        if n == "Vec":
            return fin(self.vec_of(st, fr, v.a))
        if n == "HashSet":
            s = self.new_coll(st, fr, "set")
            for x in v.a:
                st.ev("ins", s, x, mk("unk", "res"))
            return fin(s)
        if n == "HashMap":
            s = self.new_coll(st, fr, "map")
            for x in v.a:
                st.ev("mapins", s, proj(x, None, "0"), proj(x, None, "1"))
            return fin(s)
        return fin(v)

    t_Into__into = ident

    # iterators
    def t_IntoIterator__into_iter(self, st, fr, c, args, t, bl, fin):
        a = args[0]
        k, loc, v = self.auto3(st, a)
        if v.tag == "it" or (v.tag == "adt" and self.is_iter_adt(v)):
            if a.tag == "ref":
                return fin(a)
            return fin(v)
        r = self.iter_of(st, v)
        if r is not None:
            return fin(r)
        if v.tag == "adt" and v.a[0] == OPT:
            b = self.eng.prog.model_fns["Option__iter" if a.tag == "ref" else "Option__into_iter"]
            return self.eng.push(st, fr, b, args, t)
        if v.tag == "adt" and v.a[0] in RANGES:
            r = self.range_it(v)
            if r is not None:
                return fin(r)
        if v.tag == "adt" and v.a[0] in self.eng.prog.adts:
            return fin(a)
        # opaque: decide by static type
        ty = self.eng.typeof(v) or (strip_ref(c["a"][0]) if c.get("a") else None)
        if a.tag == "ref" and ty and (ty.get("k") == "param" or ty.get("k") == "adt" and ty["p"].split("::")[-1] in ("Iter", "IntoIter", "IterMut", "Drain", "Range", "Map", "Rev", "Filter", "Peekable")):
            # `&mut I`: the iterator itself stays where it is
            return fin(a)
        r = self.iter_opaque(st, v, ty)
        if r is not None:
            return fin(r)
        return fin(a)

    def is_iter_adt(self, v):
        n = v.a[0].split("::")[-1]
        return (n + "__next") in self.eng.prog.model_fns or ("Iterator", v.a[0], "next") in self.eng.prog.impl_methods

    def range_it(self, v):
        n = v.a[0].split("::")[-1]
        f = dict(v.a[2])
        if n == "Range":
            return mk("it", mk("range"), f.get("start"), f.get("end"), "range", False)
        if n == "RangeInclusive":
            return mk("it", mk("range"), f.get("start"), add(f.get("end"), 1), "range", False)
        return None

    def iter_of(self, st, v, mode=None):
        if v.tag == "vec":
            return mk("it", v.a[0], I(0), v.a[1], "seq", False)
        if v.tag == "ivec":
            if v.a[2].tag == "iempty":
                return mk("it", v.a[2], I(0), I(0), "seq", False)
            return mk("it", v.a[2], I(0), mk("len", v.a[2]), "seq", False)
        if v.tag == "arr":
            return mk("it", v, I(0), I(len(v.a)), "seq", False)
        if v.tag == "slice":
            return mk("it", v.a[0], v.a[1], v.a[2], "seq", False)
        if v.tag == "set":
            c = mk("enum", v)
            return mk("it", c, I(0), mk("len", c), "seq", False)
        if v.tag == "map":
            c = mk("enum", mk("keys", v))
            return mk("it", c, I(0), mk("len", c), mode or "kv", False)
        return None

    def iter_opaque(self, st, v, ty, mode=None):
        n = ty["p"].split("::")[-1] if ty and ty.get("k") == "adt" else (ty or {}).get("k")
        if n in ("Vec", "slice", "array", "Iter", "IntoIter", "Drain", "IterMut"):
            if n in ("Iter", "IntoIter", "IterMut", "Drain") and ty and "hash" in ty.get("p", ""):
                return None
            return mk("it", v, I(0), mk("len", v), "seq", False)
        if n == "HashSet":
            c = mk("enum", v)
            return mk("it", c, I(0), mk("len", c), "seq", False)
        if n == "HashMap":
            c = mk("enum", mk("keys", v))
            return mk("it", c, I(0), mk("len", c), mode or "kv", False)
        if n == "Range":
            return mk("it", mk("range"), proj(v, None, "start"), proj(v, None, "end"), "range", False)
        if n == "param" or ty is None:
            # a caller-supplied iterator: an arbitrary finite sequence
            return mk("it", v, I(0), mk("len", v), "seq", False)
        return None

    def iter_val(self, st, a, c):
        """the iterator behind a, materialised at its location"""
        k, loc, v = self.auto3(st, a)
        if v.tag == "it":
            return loc, v
        if v.tag == "adt":
            if v.a[0] in RANGES:
                r = self.range_it(v)
                return loc, r
            return loc, None
        if v.tag == "unk":
            return loc, None
        ty = self.eng.typeof(v) or (strip_ref(c["a"][0]) if c.get("a") else None)
        r = self.iter_opaque(st, v, ty)
        return loc, r

    def it_el(self, st, it, i):
        """[(state, item)] for position i of iterator it"""
        coll, lo, hi, mode, rev = it.a
        if mode == "range":
            return [(st, i)]
        out = []
        for s, x in self.fork_el(st, coll, i):
            if coll.tag == "enum" or mode in ("keys", "kv", "values"):
                src = coll.a[0]
                if src.tag == "keys":
                    mp = src.a[0]
                    if mode == "keys":
                        out.append((s, x))
                    elif mode == "values":
                        out.append((s, mk("mget", mp, x)))
                    else:
                        out.append((s, mk("tup", x, mk("mget", mp, x))))
                    continue
            if coll.tag == "arr":
                for s2, y in self.arr_el(s, coll, i):
                    out.append((s2, y))
                continue
            if coll.tag == "iempty":
                continue
            out.append((s, x))
        return out

    def next_(self, st, fr, c, args, t, bl, fin, back):
        e = self.eng
        loc, it = self.iter_val(st, args[0], c)
        if it is None:
            v = self.val(st, args[0])
            if v.tag == "adt":
                return None
            return None
        coll, lo, hi, mode, rev = it.a
        out = []
        if rev:
            back = not back
        for s, b in e.fork(st, e.lt_atom(lo, hi)):
            if not b:
                if loc is not None:
                    e.write_loc(s, loc, it)
                out += e.finish(s, fr, t, bl, NONE)
                continue
            i = add(hi, -1) if back else lo
            nit = mk("it", coll, lo, i, mode, rev) if back else mk("it", coll, add(lo, 1), hi, mode, rev)
            for s2, x in self.it_el(s, it, i):
                if loc is not None:
                    e.write_loc(s2, loc, nit)
                else:
                    s2.ev("unk", "next on a temporary")
                s2.ev("visit", coll, i, x)
                out += e.finish(s2, fr, t, bl, some(x))
        return out

    def t_Iterator__next(self, st, fr, c, args, t, bl, fin):
        return self.next_(st, fr, c, args, t, bl, fin, False)

    def t_DoubleEndedIterator__next_back(self, st, fr, c, args, t, bl, fin):
        return self.next_(st, fr, c, args, t, bl, fin, True)

    def t_ExactSizeIterator__len(self, st, fr, c, args, t, bl, fin):
        loc, it = self.iter_val(st, args[0], c)
        if it is None:
            return None
        return fin(self.sub(it.a[2], it.a[1]))

    def t_Iterator__flat_map(self, st, fr, c, args, t, bl, fin):
        a = c.get("a") or []
        o = len(a) > 1 and is_option(a[1])
        return self.eng.push(st, fr, self.eng.prog.model_fns["Iterator__filter_map" if o else "Iterator__flat_map"], args, t)

    def t_Iterator__flatten(self, st, fr, c, args, t, bl, fin):
        o = is_option(self.item_type(self.val(st, args[0])))
        return self.eng.push(st, fr, self.eng.prog.model_fns["Iterator__flatten__opt" if o else "Iterator__flatten"], args, t)

    def item_type(self, v):
        """type of the items of a mapped iterator, or None"""
        if v.tag == "adt" and v.a[0].split("::")[-1] == "Map":
            f = dict(v.a[2]).get("f")
            b = self.eng.prog.bodies.get((f.a[0], -1)) if f is not None and f.tag == "clo" else None
            return b.locals[0] if b is not None else None
        if v.tag == "adt" and v.a[0].split("::")[-1] in ("Filter", "Rev", "Skip", "Take", "Inspect"):
            return self.item_type(dict(v.a[2])["i"])
        return None

    def t_Iterator__rev(self, st, fr, c, args, t, bl, fin):
        loc, it = self.iter_val(st, args[0], c)
        if it is None:
            b = self.eng.prog.model_fns["Iterator__rev__adt"]
            return self.eng.push(st, fr, b, args, t)
        return fin(mk("it", *it.a[:4], not it.a[4]))

    def t_Iterator__skip(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        loc, it = self.iter_val(st, args[0], c)
        if it is None or it.a[4]:
            b = e.prog.model_fns["Iterator__skip__adt"]
            return e.push(st, fr, b, args, t)
        coll, lo, hi, mode, rev = it.a
        n = args[1]
        nlo = self.plus(lo, n)
        out = []
        for s, b in e.fork(st, e.lt_atom(hi, nlo)):
            out += e.finish(s, fr, t, bl, mk("it", coll, hi if b else nlo, hi, mode, rev))
        return out

    def t_Iterator__nth(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        loc, it = self.iter_val(st, args[0], c)
        if args[1] is I(0):
            return self.next_(st, fr, c, args[:1], t, bl, fin, False)
        if it is None or it.a[4]:
            return e.push(st, fr, e.prog.model_fns["Iterator__nth"], args, t)
        coll, lo, hi, mode, rev = it.a
        i = self.plus(lo, args[1])
        out = []
        for s, b in e.fork(st, e.lt_atom(i, hi)):
            if not b:
                if loc is not None:
                    e.write_loc(s, loc, mk("it", coll, hi, hi, mode, rev))
                out += e.finish(s, fr, t, bl, NONE)
                continue
            for s2, x in self.it_el(s, it, i):
                if loc is not None:
                    e.write_loc(s2, loc, mk("it", coll, add(i, 1), hi, mode, rev))
                out += e.finish(s2, fr, t, bl, some(x))
        return out

    def t_Iterator__take(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        loc, it = self.iter_val(st, args[0], c)
        if it is None or it.a[4]:
            b = e.prog.model_fns["Iterator__take__adt"]
            return e.push(st, fr, b, args, t)
        coll, lo, hi, mode, rev = it.a
        nhi = self.plus(lo, args[1])
        out = []
        for s, b in e.fork(st, e.lt_atom(nhi, hi)):
            out += e.finish(s, fr, t, bl, mk("it", coll, lo, nhi if b else hi, mode, rev))
        return out

    def t_Iterator__by_ref(self, st, fr, c, args, t, bl, fin):
        return fin(args[0])

    def t_Iterator__count(self, st, fr, c, args, t, bl, fin):
        loc, it = self.iter_val(st, args[0], c)
        if it is None:
            return None
        return fin(self.sub(it.a[2], it.a[1]))

    def t_Iterator__last(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        loc, it = self.iter_val(st, args[0], c)
        if it is None:
            return None
        coll, lo, hi, mode, rev = it.a
        out = []
        for s, b in e.fork(st, e.lt_atom(lo, hi)):
            if not b:
                out += e.finish(s, fr, t, bl, NONE)
            else:
                for s2, x in self.it_el(s, it, lo if rev else add(hi, -1)):
                    out += e.finish(s2, fr, t, bl, some(x))
        return out

    def t_Iterator__fuse(self, st, fr, c, args, t, bl, fin):
        return fin(args[0])

    def t_Iterator__size_hint(self, st, fr, c, args, t, bl, fin):
        return None

    def t_Iterator__collect(self, st, fr, c, args, t, bl, fin):
        ty = c["a"][-1] if c.get("a") else None
        return self.from_iter(st, fr, ty, args[0], t, bl, fin)

    def t_FromIterator__from_iter(self, st, fr, c, args, t, bl, fin):
        ty = c["a"][0] if c.get("a") else None
        return self.from_iter(st, fr, ty, args[0], t, bl, fin)

    def from_iter(self, st, fr, ty, a, t, bl, fin):
        e = self.eng
        if not ty or ty["k"] != "adt":
            return None
        n = ty["p"].split("::")[-1]
        if n == "Box":
            n = "Vec"
        if n == "BTreeSet":
            n = "HashSet"
        b = self.few(self.val(st, a)) and e.prog.model_fns.get(n + "__from_iter__small") or self.nested(self.val(st, a)) and e.prog.model_fns.get(n + "__from_iter__deep") or e.prog.model_fns.get(n + "__from_iter")
        if b is None:
            return None
        if n in ("Option", "Result") and ty.get("a") and ty["a"][0].get("p", "").split("::")[-1] != "Vec":
            return None
        return e.push(st, fr, b, [a], t)

    def t_Iterator__partition(self, st, fr, c, args, t, bl, fin):
        return self.eng.push(st, fr, self.eng.prog.model_fns["Iterator__partition__vec"], args, t)

    def t_Iterator__unzip(self, st, fr, c, args, t, bl, fin):
        return self.eng.push(st, fr, self.eng.prog.model_fns["Iterator__unzip__vec"], args, t)

    def t_Extend__extend(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        v = self.val(st, args[0])
        n = {"vec": "Vec", "ivec": "Vec", "set": "HashSet", "map": "HashMap"}.get(v.tag)
        if n is None:
            ty = strip_ref(c["a"][0]) if c.get("a") else None
            ty = e.typeof(v) or ty
            if ty and ty.get("k") == "adt":
                n = ty["p"].split("::")[-1]
                if n in ("RefMut",):
                    n = ty["a"][0]["p"].split("::")[-1]
        b = len(args) > 1 and self.few(self.val(st, args[1])) and e.prog.model_fns.get("%s__extend__small" % n) or len(args) > 1 and self.nested(self.val(st, args[1])) and e.prog.model_fns.get("%s__extend__deep" % n) or e.prog.model_fns.get("%s__extend" % n)
        if b is None:
            return None
        return e.push(st, fr, b, args, t)

    def t_Index__index(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        ix = self.val(st, args[1])
        ty = e.typeof(v)
        if v.tag == "map" or (ty and ty.get("k") == "adt" and ty["p"].endswith("HashMap")):
            return e.push(st, fr, e.prog.model_fns["HashMap__index"], args, t)
        n = self.length(st, v)
        if ix.tag == "adt":
            return self.slice_index(st, fr, v, ix, n, t, bl, fin, True)
        out = []
        for s, b in e.fork(st, e.lt_atom(ix, n)):
            if not b:
                out.append(e.panic(s, "index out of bounds", bl["sp"]))
                continue
            for s2, x in self.elements(s, v, ix):
                out += e.finish(s2, fr, t, bl, x)
        return out

    def slice_index(self, st, fr, v, ix, n, t, bl, fin, panics):
        e = self.eng
        f = dict(ix.a[2])
        nm = ix.a[0].split("::")[-1]
        lo = f.get("start", I(0))
        hi = f.get("end", n)
        if nm in ("RangeInclusive", "RangeToInclusive"):
            hi = add(hi, 1)
        base = self.coll(st, v)
        off = v.a[1] if v.tag == "slice" else I(0)
        out = []
        for s, bad1 in e.fork(st, e.lt_atom(hi, lo)):
            if bad1:
                out += [e.panic(s, "slice index out of order", bl["sp"])] if panics else e.finish(s, fr, t, bl, NONE)
                continue
            for s2, bad2 in e.fork(s, e.lt_atom(n, hi)):
                if bad2:
                    out += [e.panic(s2, "slice index out of range", bl["sp"])] if panics else e.finish(s2, fr, t, bl, NONE)
                    continue
                sl = mk("slice", base, self.plus(off, lo), self.plus(off, hi))
                out += e.finish(s2, fr, t, bl, sl if panics else some(sl))
        return out

    def t_IndexMut__index_mut(self, st, fr, c, args, t, bl, fin):
        return None

    # operators on bool/ints through traits
    def t_BitOrAssign__bitor_assign(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        if loc is None:
            return None
        out = []
        for s, x in e.truth(st, v):
            for s2, y in e.truth(s, self.val(s, args[1])):
                e.write_loc(s2, loc, B(x or y))
                out += e.finish(s2, fr, t, bl, UNIT)
        return out

    def t_Try__branch(self, st, fr, c, args, t, bl, fin):
        v = self.val(st, args[0])
        ty = strip_ref(c["a"][0]) if c.get("a") else None
        n = (v.a[0] if v.tag == "adt" else ty["p"]).split("::")[-1]
        return self.eng.push(st, fr, self.eng.prog.model_fns[n + "__branch"], args, t)

    def t_FromResidual__from_residual(self, st, fr, c, args, t, bl, fin):
        v = self.val(st, args[0])
        n = v.a[0].split("::")[-1] if v.tag == "adt" else strip_ref(c["a"][0])["p"].split("::")[-1]
        return self.eng.push(st, fr, self.eng.prog.model_fns[n + "__from_residual"], args, t)

    # ------------------------------------------------------------- Vec
    def new_vec(self, st, fr, ety, n=0):
        vid = mk("vid", fr.fid, fr.block, n)
        self.forget(st, vid)
        st.ev("new", vid, mk("k", "vec"))
        if ety and ety.get("k") == "int":
            return mk("ivec", vid, I(0), mk("iempty"))
        return mk("vec", vid, I(0))

    def new_coll(self, st, fr, kind, n=0):
        vid = mk("vid", fr.fid, fr.block, n)
        self.forget(st, vid)
        st.ev("new", vid, mk("k", kind))
        return mk(kind, vid)

    def forget(self, st, vid):
        for a in [a for a in st.facts if vid in a.syms]:
            del st.facts[a]
        for p in [p for p in st.ints if vid in p[0].syms or vid in p[1].syms]:
            del st.ints[p]

    def vec_of(self, st, fr, items):
        v = self.new_vec(st, fr, {"k": "int"} if items and all(self.eng.is_int(x) for x in items) else None)
        for x in items:
            if v.tag == "ivec":
                v = self.ivec_push(st, v, x)
            else:
                st.ev("push", v.a[0], v.a[1], x)
                v = mk("vec", v.a[0], add(v.a[1], 1))
        return v

    def p_Vec__new(self, st, fr, c, args, t, bl, fin):
        return fin(self.new_vec(st, fr, c["a"][0] if c.get("a") else None))

    p_Vec__with_capacity = p_Vec__new

    def unit(self, st, fr, c, args, t, bl, fin):
        return fin(UNIT)

    p_Vec__reserve = unit
    p_Vec__shrink_to_fit = unit
    p_HashMap__reserve = unit
    p_HashSet__reserve = unit
    p_Vec__as_slice = ident
    p_Vec__as_mut_slice = ident
    p_Vec__leak = ident

    def p_Vec__len(self, st, fr, c, args, t, bl, fin):
        return fin(self.length(st, args[0]))

    def p_Vec__push(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        v = self.own(st, fr, loc, v, "vec")
        x = args[1]
        if v.tag == "ivec" and loc is not None:
            out = []
            for s, nv in self.ivec_pushes(st, v, self.val(st, x)):
                e.write_loc(s, loc, nv)
                out += e.finish(s, fr, t, bl, UNIT)
            return out
        if holds_set(x):
            # one summary stands for the sets of all iterations
            e.unk("sets held in a list")
        if v.tag == "vec" and loc is not None:
            st.ev("push", v.a[0], v.a[1], x)
            for h in e.ev_hooks:
                h(e, st, fr, "push", v, x, None, bl["sp"])
            e.write_loc(st, loc, mk("vec", v.a[0], add(v.a[1], 1)))
            return fin(UNIT)
        self.purge(st, v)
        st.ev("push", v, mk("len", v), self.snapshot(st, x))
        return fin(UNIT)

    def p_Vec__pop(self, st, fr, c, args, t, bl, fin, bare=False):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        v = self.own(st, fr, loc, v, "vec")
        out = []
        if v.tag == "ivec":
            e.write_loc(st, loc, mk("ivec", v.a[0], mk("sym", "n", fr.fid, fr.block), mk("itop")))
            return fin(mk("sym", "pop", fr.fid, fr.block))
        if v.tag != "vec" or loc is None:
            st.ev("unkw", v)
            return e.opaque_call(st, fr, "pop of opaque vec", args, t, bl)
        n = v.a[1]
        for s, b in e.fork(st, e.lt_atom(I(0), n)):
            if not b:
                out += e.finish(s, fr, t, bl, NONE)
                continue
            i = add(n, -1)
            r = self.vec_el(s, v.a[0], i)
            e.write_loc(s, loc, mk("vec", v.a[0], i))
            if r is not None and len(r) == 1 and not r[0][0] and r[0][1] is not None:
                x = r[0][1]
            else:
                x = mk("sym", "pop", fr.fid, fr.block)
                for a in [a for a in s.facts if x in a.syms]:
                    del s.facts[a]
                for q in [q for q in s.ints if x in q[0].syms or x in q[1].syms]:
                    del s.ints[q]
                if c.get("a"):
                    if not hasattr(e, "symtypes"):
                        e.symtypes = {}
                    e.symtypes[x] = c["a"][0]
            s.ev("pop", v.a[0], i, x)
            for h in e.ev_hooks:
                h(e, s, fr, "pop", v, x, i, bl["sp"])
            out += e.finish(s, fr, t, bl, x if bare else some(x))
        return out

    def p_Vec__clear(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        v = self.own(st, fr, loc, v, "vec")
        if v.tag == "ivec":
            st.ev("iclear", v.a[0])
            e.write_loc(st, loc, mk("ivec", v.a[0], I(0), mk("iempty")))
            return fin(UNIT)
        if v.tag == "vec" and loc is not None:
            st.ev("clear", v.a[0])
            e.write_loc(st, loc, mk("vec", v.a[0], I(0)))
            return fin(UNIT)
        self.purge(st, v)
        st.ev("unkw", v)
        return fin(UNIT)

    def p_Vec__truncate(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        v = self.own(st, fr, loc, v, "vec")
        if v.tag == "vec" and loc is not None:
            out = []
            for s, b in e.fork(st, e.lt_atom(args[1], v.a[1])):
                if b:
                    s.ev("vmut", v.a[0])
                    e.write_loc(s, loc, mk("vec", v.a[0], args[1]))
                out += e.finish(s, fr, t, bl, UNIT)
            return out
        st.ev("unkw", v)
        return fin(UNIT)

    def p_Vec__reverse(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        v = self.own(st, fr, loc, v, "vec")
        if v.tag == "ivec":
            return fin(UNIT)
        if v.tag == "vec":
            st.ev("vrev", v.a[0], v.a[1])
        else:
            st.ev("unkw", v)
        return fin(UNIT)

    def p_Vec__insert(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        v = self.own(st, fr, loc, v, "vec")
        if v.tag == "vec" and loc is not None:
            st.ev("vinsert", v.a[0], args[1], args[2])
            for h in e.ev_hooks:
                h(e, st, fr, "vinsert", v, args[2], args[1], bl["sp"])
            e.write_loc(st, loc, mk("vec", v.a[0], add(v.a[1], 1)))
            return fin(UNIT)
        st.ev("vinsert", v, args[1], args[2])
        self.purge(st, v)
        return fin(UNIT)

    def vec_mut(self, st, fr, c, args, t, bl, fin):
        """an operation that reorders or drops elements"""
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        v = self.own(st, fr, loc, v, "vec")
        if v.tag == "ivec":
            return fin(UNIT)
        if v.tag == "vec" and loc is not None:
            st.ev("vmut", v.a[0], mk("k", c["m"]))
            n = mk("sym", "n", fr.fid, fr.block)
            if not hasattr(e, "symtypes"):
                e.symtypes = {}
            e.symtypes[n] = {"k": "int", "s": "usize"}
            e.write_loc(st, loc, mk("vec", v.a[0], n if c["m"] not in ("sort", "sort_by", "sort_by_key", "sort_unstable", "swap", "rotate_left", "rotate_right", "sort_unstable_by", "sort_unstable_by_key") else v.a[1]))
        else:
            st.ev("vmut", v, mk("k", c["m"]))
            self.purge(st, v)
        return fin(UNIT)

    p_Vec__sort = vec_mut
    p_Vec__sort_by = vec_mut
    p_Vec__sort_by_key = vec_mut
    p_Vec__sort_unstable = vec_mut
    p_Vec__sort_unstable_by = vec_mut
    p_Vec__sort_unstable_by_key = vec_mut
    p_Vec__dedup = vec_mut
    p_Vec__dedup_by = vec_mut
    p_Vec__dedup_by_key = vec_mut
    p_Vec__retain = vec_mut
    p_Vec__retain_mut = vec_mut
    p_Vec__swap = vec_mut
    p_Vec__rotate_left = vec_mut
    p_Vec__rotate_right = vec_mut

    def p_Vec__remove(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        v = self.own(st, fr, loc, v, "vec")
        n = self.length(st, v)
        out = []
        for s, b in e.fork(st, e.lt_atom(args[1], n)):
            if not b:
                out.append(e.panic(s, "index out of bounds", bl["sp"]))
                continue
            if v.tag == "vec" and loc is not None and args[1] is add(n, -1):
                # the last element: same as pop
                out += self.p_Vec__pop(s, fr, c, args[:1], t, bl, fin, True)
                continue
            x = self.element1(s, v, args[1])
            if v.tag == "vec" and loc is not None:
                s.ev("vmut", v.a[0], mk("k", c["m"]))
                e.write_loc(s, loc, mk("vec", v.a[0], add(n, -1)))
            else:
                s.ev("vmut", v, mk("k", c["m"]))
            out += e.finish(s, fr, t, bl, x)
        return out

    p_Vec__swap_remove = p_Vec__remove

    def p_Vec__drain(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        v = self.own(st, fr, loc, v, "vec")
        ix = self.val(st, args[1])
        if v.tag == "vec" and loc is not None and ix.tag == "adt" and ix.a[0].endswith("RangeFull"):
            vid = mk("vid", fr.fid, fr.block, 0)
            self.forget(st, vid)
            st.ev("new", vid, mk("k", "vec"))
            st.ev("copyof", vid, v.a[0])
            st.ev("clear", v.a[0])
            e.write_loc(st, loc, mk("vec", v.a[0], I(0)))
            # elements are read from before the clear
            return fin(mk("it", v.a[0], I(0), v.a[1], "seq", False))
        return None

    def p_Vec__get(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        ix = self.val(st, args[1])
        if ix.tag == "adt":
            return self.slice_index(st, fr, v, ix, self.length(st, v), t, bl, fin, False)
        out = []
        for s, b in e.fork(st, e.lt_atom(ix, self.length(st, v))):
            if not b:
                out += e.finish(s, fr, t, bl, NONE)
                continue
            if v.tag == "vec":
                r = self.vec_el(s, v.a[0], ix)
                if r is None:
                    x = mk("idx", v.a[0], ix)
                    out += e.finish(s, fr, t, bl, some(x))
                    continue
            for s2, x in self.elements(s, v, ix):
                out += e.finish(s2, fr, t, bl, some(x))
        return out

    def p_Vec__get_mut(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        v = self.own(st, fr, loc, v, "vec")
        if v.tag == "vec":
            st.ev("vmut", v.a[0], mk("k", "get_mut"))
            return e.opaque_call(st, fr, "get_mut on local vec", args, t, bl)
        return self.p_Vec__get(st, fr, c, args, t, bl, fin)

    def p_Vec__iter(self, st, fr, c, args, t, bl, fin):
        k, loc, v = self.auto3(st, args[0])
        r = self.iter_of(st, v) or mk("it", v, I(0), mk("len", v), "seq", False)
        return fin(r)

    def p_Vec__iter_mut(self, st, fr, c, args, t, bl, fin):
        k, loc, v = self.auto3(st, args[0])
        v = self.own(st, fr, loc, v, "vec")
        if v.tag == "vec":
            st.ev("vmut", v.a[0], mk("k", "iter_mut"))
        return self.p_Vec__iter(st, fr, c, args, t, bl, fin)

    def p_Vec__split_at(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        n = self.length(st, v)
        base = self.coll(st, v)
        off = v.a[1] if v.tag == "slice" else I(0)
        out = []
        for s, bad in e.fork(st, e.lt_atom(n, args[1])):
            if bad:
                out.append(e.panic(s, "split index out of range", bl["sp"]))
                continue
            mid = self.plus(off, args[1])
            out += e.finish(s, fr, t, bl, mk("tup", mk("slice", base, off, mid), mk("slice", base, mid, self.plus(off, n))))
        return out

    def p_Vec__split_off(self, st, fr, c, args, t, bl, fin):
        return None

    def p_IntoIter__as_slice(self, st, fr, c, args, t, bl, fin):
        loc, it = self.iter_val(st, args[0], c)
        if it is None or it.a[4]:
            return None
        return fin(mk("slice", it.a[0], it.a[1], it.a[2]))

    p_Iter__as_slice = p_IntoIter__as_slice

    def p_Box__new_uninit(self, st, fr, c, args, t, bl, fin):
        l = "box%d" % fr.block
        st.mem[(fr.fid, l)] = mk("uninit")
        return fin(mk("ref", fr.fid, l, ()))

    def p_Box__new(self, st, fr, c, args, t, bl, fin):
        return fin(args[0])

    def p_boxed__box_assume_init_into_vec_unsafe(self, st, fr, c, args, t, bl, fin):
        v = self.val(st, args[0])
        while v.tag == "adt" and v.a[2]:
            v = v.a[2][0][1]
        if v.tag != "arr":
            return None
        if args[0].tag == "ref":
            st.mem.pop((args[0].a[0], args[0].a[1]), None)
        return fin(self.vec_of(st, fr, v.a))

    def p_Vec__into_vec(self, st, fr, c, args, t, bl, fin):
        v = self.val(st, args[0])
        while v.tag == "adt" and v.a[2]:
            v = v.a[2][0][1]
        if v.tag == "arr":
            return fin(self.vec_of(st, fr, v.a))
        return fin(args[0])

    def p_Vec__from_elem(self, st, fr, c, args, t, bl, fin):
        return None

    # ------------------------------------------------------------- HashSet
    def p_HashSet__new(self, st, fr, c, args, t, bl, fin):
        return fin(self.new_coll(st, fr, "set"))

    p_HashSet__with_capacity = p_HashSet__new
    p_HashSet__with_hasher = p_HashSet__new
    p_HashSet__with_capacity_and_hasher = p_HashSet__new

    def p_HashMap__new(self, st, fr, c, args, t, bl, fin):
        m = self.new_coll(st, fr, "map")
        ty = fr.body.locals[t[3]["l"]] if not fr.body.model and not t[3]["p"] else None
        if ty and ty.get("k") == "adt" and ty["p"].endswith("HashMap"):
            self.eng.maptypes[m] = ty
        return fin(m)

    def p_Entry__or_default(self, st, fr, c, args, t, bl, fin):
        ty = c["a"][1] if len(c.get("a") or ()) > 1 else None
        v = self.default(st, fr, ty)
        if v is None:
            return None
        return self.eng.push(st, fr, self.eng.prog.model_fns["Entry__or_insert"], [args[0], v], t)

    def holds(self, m, v):
        ty = self.eng.typeof(v)
        if ty is None and v.tag in ("vec", "set"):
            ty = {"k": "adt", "p": "std::vec::Vec" if v.tag == "vec" else "std::collections::HashSet", "local": False, "a": []}
        h = self.eng.held
        h[m] = ty if ty and h.get(m, ty) == ty else None

    p_HashMap__with_capacity = p_HashMap__new
    p_HashMap__with_hasher = p_HashMap__new

    def p_RandomState__new(self, st, fr, c, args, t, bl, fin):
        return fin(mk("const", "hasher"))

    def in_atom(self, s, x):
        return mk("at", "in", s, x)

    def member(self, st, S, x):
        """the atom that decides whether x is in S: for an unchanged copy, membership in what it copies"""
        return self.in_atom(self.copied_set(st, S) if S.tag == "set" else S, x)

    def copied_set(self, st, S):
        log, since = st.log, []
        while log is not NIL:
            ev = log.a[1]
            if ev.a[0] == "copyof" and ev.a[1] is S.a[0]:
                src = ev.a[2]
                if src.tag == "mget" and not any(self.alters(y, src.a[0]) for y in since):
                    return src
                return S
            if ev.a[0] == "new" and ev.a[1] is S.a[0] or len(since) > 200:
                return S
            if self.touches([ev], S):
                return S
            since.append(ev)
            log = log.a[0]
        return S

    def alters(self, ev, m):
        """may this event change one of the sets of the map m?"""
        if ev.a[0] in TOUCH and (ev.a[0] != "new") and any(x is m or isinstance(x, T) and x.tag == "mget" and x.a[0] is m for x in ev.a[1:]):
            return True
        if ev.a[0] == "L":
            inst = self.eng.insts.get(ev.a[1])
            if inst is None:
                return True
            c = inst.__dict__.setdefault("altering", {}) if hasattr(inst, "__dict__") else {}
            if m not in c:
                c[m] = any(self.alters(y, m) for w in [x[1] for x in inst.edges] + [x[1] for x in inst.exits] for y in w)
            return c[m]
        return False

    def p_HashSet__len(self, st, fr, c, args, t, bl, fin):
        return fin(self.length(st, self.setval(st, args[0])))

    def setval(self, st, a, fr=None):
        k, loc, v = self.auto3(st, a)
        if v.tag == "cell":
            v = self.val(st, v.a[0])
        elif fr is not None:
            v = self.own(st, fr, loc, v, "set")
        return v

    def mapval(self, st, a, fr):
        k, loc, v = self.auto3(st, a)
        return self.own(st, fr, loc, v, "map")

    def set_len(self, v):
        return mk("len", mk("enum", v))

    def p_HashSet__contains(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        s_, x = self.setval(st, args[0]), self.val(st, args[1])
        out = []
        for s, b in e.fork(st, self.member(st, s_, x)):
            out += e.finish(s, fr, t, bl, B(b))
        return out

    def p_HashSet__insert(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        S, x = self.setval(st, args[0], fr), self.val(st, args[1])
        out = []
        for s, b in e.fork(st, self.in_atom(S, x)):
            if not b:
                self.purge(s, S, keep_true=True, grew=True)
                if hasattr(e, "theory") and S.tag == "mget" and any(a.a[0] == "nullable" for a in s.facts) and e.theory.firstlike(s, S.a[0]) is not None:
                    for a in [a for a, v in s.facts.items() if a.a[0] == "nullable" and v is FALSE]:
                        del s.facts[a]
                e.changed(s, S) if hasattr(e, "changed") else None
            s.ev("ins", S, x, B(not b))
            s.facts[e.canon(s, self.in_atom(S, x))] = TRUE
            for h in e.ev_hooks:
                h(e, s, fr, "ins", S, x, B(not b), bl["sp"])
            out += e.finish(s, fr, t, bl, B(not b))
        return out

    def p_HashSet__remove(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        S, x = self.setval(st, args[0], fr), self.val(st, args[1])
        out = []
        for s, b in e.fork(st, self.member(st, S, x)):
            self.purge(s, S, keep_false=True)
            s.ev("setrm", S, x)
            s.facts[e.canon(s, self.in_atom(S, x))] = FALSE
            out += e.finish(s, fr, t, bl, B(b))
        return out

    def p_HashSet__clear(self, st, fr, c, args, t, bl, fin):
        S = self.setval(st, args[0], fr)
        self.purge(st, S)
        st.ev("setclr", S)
        return fin(UNIT)

    def p_HashSet__iter(self, st, fr, c, args, t, bl, fin):
        S = self.setval(st, args[0])
        k = mk("enum", S)
        return fin(mk("it", k, I(0), mk("len", k), "seq", False))

    def p_HashSet__drain(self, st, fr, c, args, t, bl, fin):
        S = self.setval(st, args[0], fr)
        st.ev("setmut", S)
        k = mk("enum", S)
        return fin(mk("it", k, I(0), mk("len", k), "seq", False))

    # ------------------------------------------------------------- HashMap
    def key_atom(self, m, k):
        return mk("at", "haskey", m, k)

    def p_HashMap__len(self, st, fr, c, args, t, bl, fin):
        return fin(mk("len", mk("enum", mk("keys", self.val(st, args[0])))))

    def p_HashMap__get(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        m, k = self.val(st, args[0]), self.val(st, args[1])
        out = []
        for s, b in e.fork(st, self.key_atom(m, k)):
            if b:
                out += e.finish(s, fr, t, bl, some(self.map_value(s, m, k)))
            else:
                out += e.finish(s, fr, t, bl, NONE)
        return out

    def map_value(self, st, m, k):
        return mk("mget", m, k)

    p_HashMap__get_mut = p_HashMap__get

    def p_HashMap__contains_key(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        m, k = self.val(st, args[0]), self.val(st, args[1])
        out = []
        for s, b in e.fork(st, self.key_atom(m, k)):
            out += e.finish(s, fr, t, bl, B(b))
        return out

    def p_HashMap__insert(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        m, k = self.mapval(st, args[0], fr), self.val(st, args[1])
        v = self.snapshot(st, args[2])
        self.purge(st, m, keep_true=True)
        tgt = mk("mget", m, k)
        for a in list(st.facts):
            if any(s.tag == "mget" and s.a[0] is m for s in subterms(a)):
                d = [s for s in subterms(a) if s.tag == "mget" and s.a[0] is m]
                if any(self.may_alias(st, s, tgt) for s in d):
                    del st.facts[a]
        st.ev("mapins", m, k, v)
        self.holds(m, v)
        st.facts[e.canon(st, self.key_atom(m, k))] = TRUE
        for h in e.ev_hooks:
            h(e, st, fr, "mapins", m, k, v, bl["sp"])
        res = mk("sym", "old", fr.fid, fr.block)
        self.retype(st, fr, t, res)
        return fin(res)

    def p_HashMap__remove(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        m, k = self.mapval(st, args[0], fr), self.val(st, args[1])
        out = []
        for s, b in e.fork(st, self.key_atom(m, k)):
            self.purge(s, m, keep_false=True)
            s.ev("setrm", m, k)
            out += e.finish(s, fr, t, bl, some(mk("mget", m, k)) if b else NONE)
        return out

    def map_iter(mode):
        def f(self, st, fr, c, args, t, bl, fin):
            m = self.val(st, args[0])
            k = mk("enum", mk("keys", m))
            return fin(mk("it", k, I(0), mk("len", k), mode, False))
        return f

    p_HashMap__iter = map_iter("kv")
    p_HashMap__iter_mut = map_iter("kv")
    p_HashMap__drain = map_iter("kv")
    p_HashMap__keys = map_iter("keys")
    p_HashMap__into_keys = map_iter("keys")
    p_HashMap__values = map_iter("values")
    p_HashMap__values_mut = map_iter("values")
    p_HashMap__into_values = map_iter("values")

    def p_HashMap__clear(self, st, fr, c, args, t, bl, fin):
        m = self.mapval(st, args[0], fr)
        self.purge(st, m)
        st.ev("setclr", m)
        return fin(UNIT)

    def p_HashMap__retain(self, st, fr, c, args, t, bl, fin):
        m = self.mapval(st, args[0], fr)
        self.purge(st, m, keep_false=True)
        st.ev("setmut", m)
        return fin(UNIT)

    # ------------------------------------------------------------- RefCell & co
    def p_RefCell__new(self, st, fr, c, args, t, bl, fin):
        return fin(mk("cell", args[0]))

    p_Cell__new = p_RefCell__new

    def target(self, st, a):
        """what a cell reference designates"""
        k, loc, v = self.auto3(st, a)
        if v.tag == "cell" and loc is not None:
            return mk("ref", loc[0], loc[1], loc[2] + ((None, "cell"),))
        if v.tag == "cell":
            return v.a[0]
        return v

    def borrow(self, st, fr, args, t, bl, mut):
        e = self.eng
        tg = self.target(st, args[0])
        outs = [st]
        res = []
        done = []
        for key, v in list(st.mem.items()):
            for s in subterms(v):
                if s.tag == "guard" and (mut or s.a[0]):
                    done.append(s.a[1])
        cur = st
        for o in dict.fromkeys(done):
            if o is tg:
                res.append(e.panic(cur, "already borrowed", bl["sp"]))
                return res
            if o.tag == "mget" and tg.tag == "mget" and o.a[0] is tg.a[0]:
                nxt = None
                for s, b in e.fork(cur, e.eq_atom(o.a[1], tg.a[1])):
                    if b:
                        res.append(e.panic(s, "already borrowed", bl["sp"]))
                    else:
                        nxt = s
                if nxt is None:
                    return res
                cur = nxt
        return res + e.finish(cur, fr, t, bl, mk("guard", mut, tg))

    def p_RefCell__borrow(self, st, fr, c, args, t, bl, fin):
        return self.borrow(st, fr, args, t, bl, False)

    def p_RefCell__borrow_mut(self, st, fr, c, args, t, bl, fin):
        return self.borrow(st, fr, args, t, bl, True)

    def p_RefCell__get_mut(self, st, fr, c, args, t, bl, fin):
        return fin(self.target(st, args[0]))

    def p_RefCell__into_inner(self, st, fr, c, args, t, bl, fin):
        v = self.val(st, args[0])
        return fin(v.a[0] if v.tag == "cell" else v)

    p_Cell__into_inner = p_RefCell__into_inner

    def p_RefCell__take(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        tg = self.target(st, args[0])
        v = self.val(st, tg)
        if tg.tag == "ref":
            e.write_loc(st, tg.a, self.default_like(st, fr, v))
        else:
            st.ev("take", v)
        return fin(v)

    p_Cell__take = p_RefCell__take

    def default_like(self, st, fr, v):
        if v.tag == "set" or v.tag == "map":
            return self.new_coll(st, fr, v.tag, 7)
        if v.tag == "vec":
            return self.new_vec(st, fr, None, 7)
        if v.tag == "bool":
            return FALSE
        if self.eng.is_int(v):
            return I(0)
        if v.tag == "adt" and v.a[0] == OPT:
            return NONE
        return mk("unk", "default")

    def p_Cell__get(self, st, fr, c, args, t, bl, fin):
        tg = self.target(st, args[0])
        return fin(self.val(st, tg))

    def p_Cell__set(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        tg = self.target(st, args[0])
        if tg.tag == "ref":
            e.write_loc(st, tg.a, args[1])
        else:
            st.ev("store", tg, args[1])
        return fin(UNIT)

    p_RefCell__replace = None

    def p_RefCell__replace(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        tg = self.target(st, args[0])
        v = self.val(st, tg)
        if tg.tag == "ref":
            e.write_loc(st, tg.a, args[1])
        else:
            st.ev("store", tg, args[1])
        return fin(v)

    p_Cell__replace = p_RefCell__replace

    # ------------------------------------------------------------- mem
    def p_mem__replace(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        a = args[0]
        if a.tag == "guard":
            a = a.a[1]
        if a.tag == "ref":
            # innermost place that is not itself a reference
            while True:
                v = e.read_loc(st, a.a)
                if v.tag == "ref" and args[1].tag != "ref":
                    a = v
                elif v.tag == "guard" and args[1].tag != "guard":
                    a = v.a[1]
                    if a.tag != "ref":
                        break
                else:
                    break
        if a.tag == "ref":
            v = e.read_loc(st, a.a)
            e.write_loc(st, a.a, args[1])
            return fin(v)
        st.ev("store", a, args[1])
        return fin(a)

    def p_mem__take(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, loc, v = self.auto3(st, args[0])
        if loc is not None:
            e.write_loc(st, loc, self.default_like(st, fr, v))
        else:
            st.ev("take", v)
        return fin(v)

    def p_mem__swap(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        k, l1, v1 = self.auto3(st, args[0])
        k, l2, v2 = self.auto3(st, args[1])
        if l1 is None or l2 is None:
            return None
        e.write_loc(st, l1, v2)
        e.write_loc(st, l2, v1)
        return fin(UNIT)

    p_mem__drop = unit
    p_mem__forget = unit

    # ------------------------------------------------------------- ints
    def p_usize__saturating_sub(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        a, b = self.val(st, args[0]), self.val(st, args[1])
        out = []
        for s, lt in e.fork(st, e.lt_atom(a, b)):
            out += e.finish(s, fr, t, bl, I(0) if lt else self.sub(a, b))
        return out

    def p_usize__wrapping_sub(self, st, fr, c, args, t, bl, fin):
        return None

    def p_usize__checked_sub(self, st, fr, c, args, t, bl, fin):
        e = self.eng
        a, b = self.val(st, args[0]), self.val(st, args[1])
        out = []
        for s, lt in e.fork(st, e.lt_atom(a, b)):
            out += e.finish(s, fr, t, bl, NONE if lt else some(self.sub(a, b)))
        return out

    def p_usize__checked_add(self, st, fr, c, args, t, bl, fin):
        a, b = self.val(st, args[0]), self.val(st, args[1])
        return fin(some(self.plus(a, b)))

    def p_usize__saturating_add(self, st, fr, c, args, t, bl, fin):
        a, b = self.val(st, args[0]), self.val(st, args[1])
        return fin(self.plus(a, b))

    p_usize__wrapping_add = p_usize__saturating_add

    def minmax(self, st, fr, args, t, bl, mx):
        e = self.eng
        a, b = self.val(st, args[0]), self.val(st, args[1])
        if not (e.is_int(a) and e.is_int(b)) and not e.int_dest(fr, t):
            return None
        out = []
        for s, lt in e.fork(st, e.lt_atom(a, b)):
            out += e.finish(s, fr, t, bl, b if lt == mx else a)
        return out

    def t_Ord__min(self, st, fr, c, args, t, bl, fin):
        return self.minmax(st, fr, args, t, bl, False)

    def t_Ord__max(self, st, fr, c, args, t, bl, fin):
        return self.minmax(st, fr, args, t, bl, True)

    def p_cmp__min(self, st, fr, c, args, t, bl, fin):
        return self.minmax(st, fr, args, t, bl, False)

    def p_cmp__max(self, st, fr, c, args, t, bl, fin):
        return self.minmax(st, fr, args, t, bl, True)

    def p_Option__unwrap_or_default(self, st, fr, c, args, t, bl, fin):
        v = self.default(st, fr, c["a"][0] if c.get("a") else None)
        if v is None:
            return None
        return self.eng.push(st, fr, self.eng.prog.model_fns["Option__unwrap_or"], [args[0], v], t)

    def p_Result__unwrap_or_default(self, st, fr, c, args, t, bl, fin):
        v = self.default(st, fr, c["a"][0] if c.get("a") else None)
        if v is None:
            return None
        return self.eng.push(st, fr, self.eng.prog.model_fns["Result__unwrap_or"], [args[0], v], t)

    def p_RangeInclusive__new(self, st, fr, c, args, t, bl, fin):
        return fin(mk("adt", "std::ops::RangeInclusive", "", (("start", args[0]), ("end", args[1]))))

    def p_convert__identity(self, st, fr, c, args, t, bl, fin):
        return fin(args[0])
