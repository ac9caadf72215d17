"""Hash-consed abstract terms."""


class T:
    __slots__ = ("tag", "a", "n", "syms", "h")

    def __repr__(self):
        return show(self)


_TAB = {}
_N = [0]
SYMTAGS = {"phi", "sym", "vid"}
EMPTY = frozenset()


def mk(tag, *a):
    k = (tag, a)
    t = _TAB.get(k)
    if t is None:
        t = T()
        t.tag = tag
        t.a = a
        _N[0] += 1
        t.n = _N[0]
        s = set()
        _collect(a, s)
        if tag in SYMTAGS:
            s.add(t)
        t.syms = frozenset(s) if s else EMPTY
        _TAB[k] = t
    return t


def _collect(a, s):
    for x in a:
        if isinstance(x, T):
            if x.syms:
                s |= x.syms
        elif isinstance(x, tuple):
            _collect(x, s)


def I(k):
    return mk("int", k)


def B(b):
    return TRUE if b else FALSE


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("tup")
NIL = mk("nil")
ZERO = mk("zero")


def split(t):
    """int term -> (base, k)"""
    if t.tag == "int":
        return ZERO, t.a[0]
    if t.tag == "lin":
        return t.a[0], t.a[1]
    return t, 0


def lin(base, k):
    if base is ZERO:
        return I(k)
    if k == 0:
        return base
    return mk("lin", base, k)


def add(t, k):
    b, c = split(t)
    return lin(b, c + k)


def adt(path, variant, fields):
    """fields: tuple of (name, term); eta-contracted when it rebuilds an existing value"""
    if fields:
        base = None
        ok = True
        for n, v in fields:
            if variant is None or variant == "":
                if v.tag == "f" and v.a[1] == n:
                    b = v.a[0]
                else:
                    ok = False
                    break
            else:
                if v.tag == "vf" and v.a[1] == variant and v.a[2] == n:
                    b = v.a[0]
                else:
                    ok = False
                    break
            if base is None:
                base = b
            elif base is not b:
                ok = False
                break
        if ok and base is not None and len(fields) == NFIELDS.get((path, variant or ""), len(fields)) and ETA.get((path, variant or ""), True):
            return base
    return mk("adt", path, variant or "", tuple(fields))


NFIELDS = {}
ETA = {}
CANON_PROJ = []  # hooks (base, variant, field) -> term | None


def proj(base, variant, name):
    if base.tag == "adt":
        for n, v in base.a[2]:
            if n == name:
                return v
        return mk("unk", "nofield")
    if base.tag in ("tup", "clo"):
        items = base.a if base.tag == "tup" else base.a[1]
        try:
            return items[int(name)]
        except (ValueError, IndexError):
            return mk("unk", "noelem")
    for h in CANON_PROJ:
        r = h(base, variant, name)
        if r is not None:
            return r
    if variant:
        return mk("vf", base, variant, name)
    return mk("f", base, name)


def rebuild(tag, a):
    if tag == "lin":
        return add(a[0], a[1])
    if tag == "f":
        return proj(a[0], None, a[1])
    if tag == "vf":
        return proj(a[0], a[1], a[2])
    if tag == "adt":
        return adt(a[0], a[1], a[2])
    return mk(tag, *a)


def subst(t, m, memo=None):
    """replace subterms by the (T -> T) mapping m"""
    if memo is None:
        memo = {}
    return _sub(t, m, memo)


def _sub(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    na = _suba(t.a, m, memo)
    if na is t.a or na == t.a:
        r = t
    else:
        r = rebuild(t.tag, na)
    memo[t] = r
    return r


def _suba(a, m, memo):
    out = None
    for i, x in enumerate(a):
        if isinstance(x, T):
            y = _sub(x, m, memo)
        elif isinstance(x, tuple):
            y = _suba(x, m, memo)
        else:
            y = x
        if y is not x and out is None:
            out = list(a[:i])
        if out is not None:
            out.append(y)
    return a if out is None else tuple(out)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    yield from _subts(t.a, seen)


def _subts(a, seen):
    for x in a:
        if isinstance(x, T):
            yield from subterms(x, seen)
        elif isinstance(x, tuple):
            yield from _subts(x, seen)


def short(p):
    return p.split("::")[-1] if isinstance(p, str) else str(p)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    a = t.a
    g = t.tag
    s = lambda x: show(x, d + 1)
    if g == "int":
        return str(a[0])
    if g == "bool":
        return str(a[0])
    if g == "lin":
        return "%s%+d" % (s(a[0]), a[1])
    if g == "p":
        return str(a[0])
    if g == "f":
        return "%s.%s" % (s(a[0]), a[1])
    if g == "vf":
        return "%s.%s.%s" % (s(a[0]), a[1], a[2])
    if g == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if g == "mget":
        return "%s{%s}" % (s(a[0]), s(a[1]))
    if g == "len":
        return "len(%s)" % s(a[0])
    if g == "adt":
        return "%s%s{%s}" % (short(a[0]), "::" + a[1] if a[1] else "", ", ".join("%s:%s" % (n, s(v)) for n, v in a[2]))
    if g == "tup":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if g == "phi":
        return "φ%s" % (t.n)
    if g == "vid":
        return "v%d" % t.n
    if g == "sym":
        return "%s%d" % (a[0], t.n)
    if g == "ref":
        return "&%s" % (a[1],)
    if g == "clo":
        return "closure"
    if g == "ev":
        return a[0] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    if g == "at":
        return a[0] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    if g == "cons":
        return "log"
    return g + "(" + ", ".join(s(x) for x in a) + ")"
