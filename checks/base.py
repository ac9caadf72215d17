"""Shared machinery of the checks: export of /repo's MIR, field roles, reports and evidence."""
import fcntl
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "engine"))
sys.setrecursionlimit(40000)

import interp  # noqa: E402
import mir  # noqa: E402
import theory  # noqa: E402
from terms import *  # noqa: E402,F403

CHECKER = "bash check.sh <property> <tier>"
TRUSTED = [
    "rustc nightly (MIR construction, callee resolution)",
    "driver/main.rs (MIR export)",
    "models/models.rs and engine/prims.py (semantics of the std functions used)",
    "engine/ (abstract interpreter, loop solving) and the Python interpreter",
    "lawful Eq/Hash/Clone of the symbol type",
]


class Undecided(Exception):
    pass


def die(msg, code=2):
    print(msg)
    sys.stdout.flush()
    os._exit(code)


def build():
    r = subprocess.run(["bash", os.path.join(V, "build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        die("cannot build the exporter:\n" + r.stderr[-3000:])


def export(extra=()):
    """MIR of /repo's current working tree"""
    B = os.path.join(V, "build")
    os.makedirs(B, exist_ok=True)
    tgt = os.path.join(B, "tgt.%d" % os.getpid())
    out = os.path.join(B, "repo.%d.json" % os.getpid())
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "")
    sr = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, env=env).stdout.strip()
    env.update(
        VERIF_MIR_OUT=out,
        LD_LIBRARY_PATH=sr + "/lib",
        RUSTC_WORKSPACE_WRAPPER=os.path.join(B, "mirdump"),
        CARGO_TARGET_DIR=tgt,
        CARGO_NET_OFFLINE="true",
    )
    env.pop("RUSTFLAGS", None)
    try:
        r = subprocess.run(["cargo", "+nightly", "check", "--lib", "--offline", "-q"], cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            die("cannot export the MIR of %s:\n%s" % (REPO, r.stderr[-3000:]))
        p = mir.Program(out, os.path.join(B, "models.json"))
    finally:
        shutil.rmtree(tgt, ignore_errors=True)
        if os.path.exists(out):
            os.remove(out)
    return p


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obligations = []
        self.violations = []
        self.undecided = []
        self.engines = []
        self.cover = {}
        self.level = "proof"
        self.assumptions = []

    def ok(self, rule, where):
        self.obligations.append((rule, where, "discharged"))

    def bad(self, rule, where, detail, path=None):
        self.obligations.append((rule, where, "violated"))
        self.violations.append({"rule": rule, "where": where, "detail": detail, "path": path or []})

    def unsure(self, rule, where, detail):
        self.obligations.append((rule, where, "undecided"))
        self.undecided.append({"rule": rule, "where": where, "detail": detail})

    def check(self, cond, rule, where, detail="", path=None, eng=None):
        if cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, detail, path)
        return bool(cond)

    def use(self, eng, name):
        self.engines.append((name, eng))

    def known(self):
        out = []
        p = os.path.join(V, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) site=(.*?) :: (.*)", l.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def unmodelled(self):
        unk = {}
        for n, e in self.engines:
            for k, v in e.stats["unk"].items():
                unk[k] = unk.get(k, 0) + v
        return unk

    def analysed(self):
        return {
            n: {
                "functions": sorted(e.stats["fns"]),
                "blocks_interpreted": e.stats["blocks"],
                "path_forks": e.stats["forks"],
                "calls": e.stats["calls"],
                "loops_solved": len(e.insts),
                "unmodelled_calls": e.stats["unk"],
            }
            for n, e in self.engines
        }

    def finish(self):
        sys.stdout.flush()
        unk = self.unmodelled()
        known = self.known()
        real = []
        for v in self.violations:
            hit = [k for k in known if k[0] == "%s@%s" % (v["rule"], v["where"])]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, hit[0][1]))
            else:
                real.append(v)
        if real and unk:
            # constructs outside the modelled part of std: nothing can be concluded from a failed proof
            for v in real:
                if not v.get("definite"):
                    self.undecided.append(dict(v, note="unmodelled constructs: %s" % sorted(unk)))
            real = [v for v in real if v.get("definite")]
        rp = None
        for f in glob.glob(os.path.join(V, "replay", self.pid + "-*.json")):
            os.remove(f)
        if real:
            os.makedirs(os.path.join(V, "replay"), exist_ok=True)
            for i, v in enumerate(real):
                f = os.path.join(V, "replay", "%s-%d.json" % (self.pid, i))
                json.dump(v, open(f, "w"), indent=1, default=str)
                rp = rp or f
        nob = len(self.obligations)
        disch = sum(1 for o in self.obligations if o[2] == "discharged")
        cov = {
            "obligations": nob,
            "discharged": disch,
            "checker_cmd": "bash check.sh %s %s" % (self.pid, self.tier),
            "trusted_base": TRUSTED + self.assumptions,
            "undecided": self.undecided[:20],
            "rules": {},
            "analysed": {},
        }
        rules = {}
        for r, w, s in self.obligations:
            d = rules.setdefault(r, {"sites": [], "count": 0})
            d["count"] += 1
            if w not in d["sites"] and len(d["sites"]) < 12:
                d["sites"].append(w)
        cov["rules"] = rules
        cov["analysed"] = self.analysed()
        cov.update(self.cover)
        EV = os.environ.get("VERIF_EVID") or os.path.join(V, "evidence")
        os.makedirs(EV, exist_ok=True)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": self.level,
            "coverage": cov,
            "wall_s": round(time.time() - self.t0, 3),
        }
        f = os.path.join(EV, self.pid + ".json")
        json.dump(ev, open(f + ".tmp%d" % os.getpid(), "w"), indent=1, default=str)
        os.replace(f + ".tmp%d" % os.getpid(), f)
        for u in self.undecided[:5]:
            print("UNDECIDED property=%s %s at %s: %s" % (self.pid, u["rule"], u["where"], u["detail"]))
        print("%s: %d obligations, %d discharged, %d violations, %d undecided, %.1f s" % (self.pid, nob, disch, len(real), len(self.undecided), time.time() - self.t0))
        for v in real[:8]:
            print("  %s at %s: %s" % (v["rule"], v["where"], v["detail"]))
        if real:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


# ---------------------------------------------------------------------- program queries
def adt_named(prog, name):
    c = [a for a in prog.adts if a.split("::")[-1] == name]
    if not c:
        raise Undecided("no type named " + name)
    return c[0]


def method(prog, adt, name):
    """the inherent method of a local type"""
    for b in prog.local_bodies():
        if b.j["promoted"] != -1 or b.kind == "Closure" or "impl_trait" in b.j:
            continue
        st = b.j.get("self_ty")
        if st and st.get("p", "").split("::")[-1] == adt and b.name == name:
            return b
    raise Undecided("no method %s::%s" % (adt, name))


def trait_method(prog, tr, adt, name):
    for (t, a, m), b in prog.impl_methods.items():
        if t == tr and a.split("::")[-1] == adt and m == name:
            return b
    return None


def strip_ref(ty):
    while ty and ty.get("k") == "ref":
        ty = ty["t"]
    return ty


def where(b):
    return "%s (%s:%s)" % (b.p, b.span[0], b.span[1])


def analyse(prog, body, rep=None, th=None, limit=3000000, setup=None):
    """fresh engine, analysed body; th(eng, args) installs a theory"""
    e = interp.Engine(prog)
    e.limit = limit
    args = e.params(body)
    if th:
        th(e, args)
    if setup:
        setup(e, args)
    outs = e.analyse(body, args)
    if rep is not None:
        rep.use(e, body.p)
    return e, args, outs


def roles(prog, rep=None):
    """which private field plays which part, read off the accessors"""
    r = theory.Roles()
    r.gpath = adt_named(prog, "ContextFreeGrammar")
    r.ppath = adt_named(prog, "ContextFreeGrammarProduction")
    r.ffpath = adt_named(prog, "FirstFollowSymbols")
    r.tpath = adt_named(prog, "RecursiveDescentParserTransitions")
    r.parser = adt_named(prog, "RecursiveDescentParser")
    r.token = adt_named(prog, "Token")
    r.pin, r.pout = "input", "output"

    def field(adt, name, get):
        b = method(prog, adt, name)
        e, args, outs = analyse(prog, b, rep)
        fs = set()
        for k, s in outs:
            for x in get(e, args, s):
                fs.add(x)
        return fs

    def ret_field(e, args, s):
        t = s.ret
        if t is not None and t.tag == "ref":
            t = e.read_loc(s, t.a)
        if t is not None and t.tag == "f" and t.a[0] is args[0]:
            yield t.a[1]

    def fact_field(*kinds):
        def g(e, args, s):
            for at in s.facts:
                if at.a[0] in kinds and at.a[1].tag == "f" and at.a[1].a[0] is args[0]:
                    yield at.a[1].a[1]
        return g

    def one(fs, default):
        fs = set(fs)
        if len(fs) == 1:
            return fs.pop()
        return default

    G, F = "ContextFreeGrammar", "FirstFollowSymbols"
    r.eps = one(field(G, "get_epsilon_symbol", ret_field), "epsilon_symbol")
    r.ini = one(field(G, "get_initial_symbol", ret_field), "initial_symbol")
    r.prods = one(field(G, "get_productions", fact_field("haskey")), "productions")
    r.nts = one(field(G, "is_non_terminal", fact_field("in")), "non_terminal_symbols_set")
    r.ts = one(field(G, "is_terminal", fact_field("in")), "terminal_symbols_set")
    r.first = one(field(F, "get_first_symbols", fact_field("haskey")), "first_symbols")
    r.follow = one(field(F, "get_follow_symbols", fact_field("haskey")), "follow_symbols")
    r.table = one(field("RecursiveDescentParserTransitions", "get_productions", fact_field("haskey")), "table")
    return r


def field_of(t, name):
    return proj(t, None, name)


# ---------------------------------------------------------------------- whole-crate facts
def statements(b):
    for i, bl in enumerate(b.blocks):
        if bl.get("cl"):
            continue
        for s in bl["s"]:
            yield i, s


def agg_sites(prog, path, reach=None):
    """bodies that build a value of this type field by field"""
    out = []
    for b in prog.local_bodies():
        for i, s in statements(b):
            if s[0] == "=" and s[2][0] == "agg":
                k = s[2][1]
                if isinstance(k, dict) and k.get("p") == path or isinstance(k, (list, tuple)) and path in [x for x in k if isinstance(x, str)]:
                    out.append((b, i, s))
    return out


def mentions_adt(ty, path):
    if not isinstance(ty, dict):
        return False
    if ty.get("k") == "adt" and ty.get("p") == path:
        return True
    for v in ty.values():
        if isinstance(v, dict) and mentions_adt(v, path):
            return True
        if isinstance(v, list) and any(mentions_adt(x, path) for x in v):
            return True
    return False


def owns_adt(ty, path):
    """mentions the type other than behind a reference"""
    if not isinstance(ty, dict) or ty.get("k") in ("ref", "ptr"):
        return False
    if ty.get("k") == "adt" and ty.get("p") == path:
        return True
    for v in ty.values():
        if isinstance(v, dict) and owns_adt(v, path):
            return True
        if isinstance(v, list) and any(owns_adt(x, path) for x in v):
            return True
    return False
