"""Quantified reading of effect logs: which loops were completed, over what, and what every
iteration established or did."""
from terms import *
import loops
from prims import TOUCH


def loops_in(word):
    """completed or interrupted loops of a word: (index, inst term, gid or None)"""
    for k, ev in enumerate(word):
        if ev.a[0] == "L":
            gid = None
            if k + 1 < len(word) and word[k + 1].a[0] == "X" and word[k + 1].a[1] is ev.a[1]:
                gid = word[k + 1].a[2].a[0]
            yield k, ev.a[1], gid


def every(eng, word, seen=None):
    """all events of a word, those of nested loops included"""
    if seen is None:
        seen = set()
    for ev in word:
        yield ev
        if ev.a[0] == "L":
            inst = eng.insts.get(ev.a[1])
            if inst is None or ev.a[1] in seen:
                continue
            seen.add(ev.a[1])
            for i, w, j, s in inst.edges:
                yield from every(eng, w, seen)
            for x in inst.exits:
                yield from every(eng, x[1], seen)


def paths(eng, word, cap=64):
    """the word with every completed loop followed by its possible leaving iterations: list of event
    lists (over-approximation: nested alternatives multiplied, capped -> None)"""
    out = [[]]
    skip = False
    for k, ev in enumerate(word):
        if skip:
            skip = False
            continue
        if ev.a[0] == "L":
            for o in out:
                o.append(ev)
            if k + 1 < len(word) and word[k + 1].a[0] == "X" and word[k + 1].a[1] is ev.a[1]:
                inst = eng.insts.get(ev.a[1])
                skip = True
                if inst is None:
                    continue
                x = word[k + 1]
                alts = []
                for ix in inst.groups[x.a[2].a[0]]:
                    alts += paths(eng, inst.exits[ix][1], cap)
                out = [o + [x] + a for o in out for a in alts]
                if len(out) > cap:
                    raise OverflowError("too many paths")
        else:
            for o in out:
                o.append(ev)
    return out


def assumptions(path):
    for ev in path:
        if ev.a[0] == "asm":
            v = ev.a[2]
            yield ev.a[1], (v.a[0] if isinstance(v, T) else v)


def state_of(eng, base, *words):
    """a state in which the assumptions of the words hold (on top of a base state's facts)"""
    st = base.clone()
    for w in words:
        for at, v in assumptions(w):
            add_fact(eng, st, at, v)
    return st


def add_fact(eng, st, at, v):
    try:
        if at.a[0] == "var":
            st.facts[at] = v
        else:
            eng.learn(st, at, v)
    except Exception:
        pass


class It:
    """one way an element is handled by a completed loop"""
    __slots__ = ("word", "pos", "val", "kind", "head", "tgt", "inst")

    def __init__(self, inst, word, pos, val, kind, head, tgt):
        self.inst, self.word, self.pos, self.val, self.kind, self.head, self.tgt = inst, word, pos, val, kind, head, tgt


def iterations(eng, it, gid):
    """for each collection completely visited by the loop when left through gid:
    (collection, [It])"""
    inst = eng.insts.get(it)
    if inst is None:
        return
    c = inst.__dict__.setdefault("_iters", {})
    if gid not in c:
        c[gid] = list(iterations_(eng, inst, gid))
    yield from c[gid]


def iterations_(eng, inst, gid):
    for C in loops.visited(eng, inst):
        cov = loops.coverage(eng, inst, C, gid)
        if cov.complete:
            yield C, its_of(inst, C, cov), cov


def its_of(inst, C, cov):
    its = []
    for kind, i, w, p, tgt in cov.words:
        val = None
        for ev in w:
            if ev.a[0] == "visit" and ev.a[1] is C and ev.a[2] is p:
                val = ev.a[3]
        its.append(It(inst, w, p, val, kind, i, tgt))
    return its


def unmoved(eng, inst, its, st, gid=None):
    """the iterations that can have happened, given what is known when the loop has been left: a counter
    that only grows and still has its initial value was never moved, and a state from which the loop is not
    left this way was never reached"""
    f = loops.flat(eng, inst)
    if gid is not None:
        ok = loops.live(eng, inst, gid)
        if 0 in ok:
            its = [x for x in its if x.head in ok and (x.kind == "exit" or x.tgt[1] in ok)]
    still = set()
    for phi, ini in f.inits.items():
        if phi.a[2] != "i" or ini.tag != "int":
            continue
        vs = [s[phi] for i, w, j, s in f.edges if phi in s]
        if not all(split(v)[0] is phi and split(v)[1] >= 0 for v in vs) or all(v is phi for v in vs):
            continue
        if eng.le(st, phi, ini):
            still.add(phi)
    for phi, ini in f.inits.items():
        if ini in (TRUE, FALSE) and st.facts.get(mk("at", "b", phi)) is ini:
            other = FALSE if ini is TRUE else TRUE
            if all(s.get(phi, phi) in (phi, other) for i, w, j, s in f.edges):
                still.add(phi)
    if not still:
        return its
    moved = {id(w) for i, w, j, s in f.edges if any(phi in s and s[phi] is not phi for phi in still)}
    return [x for x in its if id(x.word) not in moved]


def partial(eng, it, gid, C):
    """(first position, [It]) for a loop that visits C from a given position to its end"""
    inst = eng.insts.get(it)
    if inst is None or C not in loops.visited(eng, inst):
        return None
    cov = loops.coverage(eng, inst, C, gid)
    if cov.complete or cov.others or cov.start is None or cov.start.tag != "int":
        return None
    return cov.start.a[0], its_of(inst, C, cov)


def other_words(eng, inst, its, gid=None):
    """words of the (flattened) loop that visit nothing of the collection"""
    used = {id(x.word) for x in its}
    f = loops.flat(eng, inst)
    out = [w for i, w, j, s in f.edges if id(w) not in used]
    out += [w for i, w, kind, st, g in f.exits if kind == "exit" and id(w) not in used and (gid is None or g == gid)]
    return out


def touches(eng, word, want):
    return eng.P.touches(word, want)


class Grouping:
    """a local map holding, for each left-hand side, the list of its productions in order"""

    def __init__(self, map_, ok, why=None):
        self.map, self.ok, self.why = map_, ok, why


def growing(eng, path):
    """(counter, initial value) of the loops of a path whose counters never go down"""
    for ev in path:
        if ev.a[0] != "L":
            continue
        inst = eng.insts.get(ev.a[1])
        if inst is None:
            continue
        for phi, ini in inst.inits.items():
            if phi.a[2] != "i":
                continue
            ok = True
            for v in inst.steps.get(phi, ()):
                b, k = split(v)
                ok = ok and b is phi and k >= 0
            if ok:
                yield phi, ini


def causes(eng, word, st):
    """for what is known after a loop of the word, the iterations one of which must have happened:
    [(index of the loop event, [word of the iteration])].  A loop left from a state it does not start in has
    been brought there; a counter that differs from its initial value has been moved."""
    for k, ev in enumerate(word):
        if ev.a[0] != "L":
            continue
        inst = eng.insts.get(ev.a[1])
        if inst is None or not (k + 1 < len(word) and word[k + 1].a[0] == "X"):
            continue
        heads = {inst.exits[ix][0] for ix in inst.groups[word[k + 1].a[2].a[0]]}
        if heads and 0 not in heads:
            # forwards from the start, never through an exit head
            back = set(heads)
            yield k, [w for i, w, j, s in inst.edges if j in back and i not in back]
        for phi, ini in inst.inits.items():
            if phi.a[2] == "i" and ini.tag == "int" and (eng.decide(st, eng.ieq_atom(phi, ini)) is False or eng.decide(st, eng.lt_atom(ini, phi)) is True):
                yield k, [w for i, w, j, s in inst.edges if s.get(phi, phi) is not phi]
            elif ini in (TRUE, FALSE):
                v = st.facts.get(mk("at", "b", phi))
                if v is not None and v is not ini:
                    yield k, [w for i, w, j, s in inst.edges if s.get(phi, phi) is not phi and s.get(phi, phi) is not ini]
