"""C16 (immutability and sharing), C17 (value types), C18 (parser constructors)."""
from base import *

# constructor argument order -> public field
CTORS = {
    ("Token", "new"): ("lex", "t_type"),
    ("AbstractSyntaxNode", "new"): ("child_nodes", "token"),
    ("AbstractSyntaxTree", "new"): ("root",),
    ("ContextFreeGrammarProduction", "new"): ("input", "output"),
    ("FailedProduction", "new"): ("failed_symbol", "parsed_symbols", "pending_symbols"),
    ("FailedSymbol", "new"): ("failed_productions", "symbol_to_derive"),
    ("FixedProduction", "new"): ("fixed_parts",),
    ("FixedSymbol", "new"): ("fixed_production", "symbol_to_derive"),
}

# std types without interior mutability (their contents are walked)
PLAIN = {"HashMap", "HashSet", "BTreeMap", "BTreeSet", "Vec", "VecDeque", "Option", "Result", "Box", "Rc", "Arc", "String", "PhantomData",
         "RandomState", "BuildHasherDefault", "DefaultHasher", "Global", "Range", "RangeInclusive", "Ordering", "Cow", "Wrapping", "Reverse",
         "NonZero", "Duration", "IntoIter", "Iter"}
MUTABLE = {"Cell", "RefCell", "UnsafeCell", "SyncUnsafeCell", "OnceCell", "LazyCell", "Mutex", "RwLock", "OnceLock", "LazyLock", "Once", "Condvar",
           "AtomicBool", "AtomicUsize", "AtomicIsize", "AtomicU8", "AtomicU16", "AtomicU32", "AtomicU64", "AtomicI8", "AtomicI16", "AtomicI32",
           "AtomicI64", "AtomicPtr", "Atomic", "Sender", "Receiver", "SyncSender", "JoinHandle", "File", "Stdin", "Stdout", "Stderr", "Instant",
           "LocalKey", "Ref", "RefMut", "MutexGuard"}
STATEFUL = ("std::env::", "std::fs::", "std::net::", "std::process::", "std::time::", "std::thread::", "std::os::",
            "std::io::stdin", "std::ptr::write", "core::ptr::write")
SUBJECTS = ("ContextFreeGrammar", "FirstFollowSymbols", "RecursiveDescentParserTransitions", "RecursiveDescentParser")


def c17(prog, rep, tier):
    for (a, m), fields in sorted(CTORS.items()):
        b = method(prog, a, m)
        e, args, outs = analyse(prog, b, rep)
        ok = bool(outs) and len(args) == len(fields)
        why = "takes %d arguments" % len(args)
        for k, s in outs:
            if k != "ret":
                ok, why = False, "can panic"
                continue
            for f, x in zip(fields, args):
                v = e.P.val(s, proj(s.ret, None, f)) if s.ret.tag != "unk" else s.ret
                if v is not x:
                    ok, why = False, "field %s holds %s instead of the argument %s" % (f, show(v), show(x))
            if s.ret.tag == "adt":
                for n, v in s.ret.a[2]:
                    if n not in fields:
                        pass
        rep.check(ok, "constructor stores every argument in its field", where(b), why)
        pubs = {f["n"]: f["pub"] for v in prog.adts[adt_named(prog, a)]["vs"] for f in v["fs"]}
        for f in fields:
            rep.check(pubs.get(f), "field is readable", "%s.%s" % (a, f), "the field is not public")
    for a in ("Token", "ContextFreeGrammarProduction"):
        n = 0
        for (t, p, m), b in sorted(prog.impl_methods.items()):
            if t != "Clone" or p.split("::")[-1] != a:
                continue
            if m == "clone":
                n += 1
                e, args, outs = analyse(prog, b, rep)
                ok = bool(outs)
                for k, s in outs:
                    ok = ok and k == "ret" and same(e, s, s.ret, args[0], prog, a)
                rep.check(ok, "clone carries the same contents", where(b), "the clone is not made of the original's fields")
            elif m == "clone_from":
                e, args, outs = analyse(prog, b, rep)
                rep.unsure("clone carries the same contents", where(b), "clone_from is overridden")
        rep.check(n == 1, "type has a clone", a, "no Clone implementation found")
    n = 0
    for (t, p, m), b in sorted(prog.impl_methods.items()):
        if t != "PartialEq" or p.split("::")[-1] != "Token":
            continue
        n += m == "eq"
        e, args, outs = analyse(prog, b, rep)
        at = e.eq_atom(mk("f", args[0], "t_type"), mk("f", args[1], "t_type"))
        ok = bool(outs)
        seen = set()
        why = "the result is not %s of the two types" % ("equality" if m == "eq" else "inequality")
        for k, s in outs:
            if k != "ret" or s.ret.tag != "bool":
                ok = False
                continue
            d = e.decide(s, at)
            want = None if d is None else (d if m == "eq" else not d)
            if want is None or want != s.ret.a[0]:
                ok = False
                why = "answers %s where the types are %s" % (s.ret.a[0], {None: "not compared", True: "equal", False: "different"}[d])
            seen.add(s.ret.a[0])
        rep.check(ok and seen == {True, False}, "tokens are compared by type only", where(b), why)
    rep.check(n == 1, "tokens can be compared", "Token", "no PartialEq implementation found")


def same(e, s, v, x, prog, a):
    v = e.P.val(s, v)
    if v is x:
        return True
    if v.tag != "adt":
        return False
    return all(e.P.val(s, t) is mk("f", x, n) for n, t in v.a[2])


# ---------------------------------------------------------------------- C18
def c18(prog, rep, tier):
    pp = adt_named(prog, "RecursiveDescentParser")
    gp, fp, tp = adt_named(prog, "ContextFreeGrammar"), adt_named(prog, "FirstFollowSymbols"), adt_named(prog, "RecursiveDescentParserTransitions")
    fields = prog.adts[pp]["vs"][0]["fs"]
    gf = [f["n"] for f in fields if is_ref(f["t"], gp) or f["t"].get("p") == gp]
    tf = [f["n"] for f in fields if strip_ref(f["t"]).get("p") == tp]
    sf = [f["n"] for f in fields if is_solver(f["t"])]
    if not (len(gf) == len(tf) == len(sf) == 1):
        rep.unsure("parser fields", pp, "grammar %s, transitions %s, solver %s" % (gf, tf, sf))
        return
    gf, tf, sf = gf[0], tf[0], sf[0]
    ffrom = method(prog, "FirstFollowSymbols", "from")
    tfrom = method(prog, "RecursiveDescentParserTransitions", "from")
    makers = [b for b in prog.local_bodies() if b.j["promoted"] == -1 and b.kind != "Closure" and (b.j.get("pub") or "impl_trait" in b.j) and owns_adt(b.locals[0], pp)]
    names = {b.name for b in makers}
    for want in ("from_grammar", "from_grammar_and_first_follow_symbols", "from_grammar_and_solver"):
        rep.check(want in names, "constructor exists", want, "the public constructor is gone")
    rep.check(all(not f["pub"] for f in fields), "parser fields are private", pp, "a public field lets a parser be assembled otherwise")
    for b in makers:
        def setup(e, args):
            e.cut = {ffrom.u, tfrom.u}
        e, args, outs = analyse(prog, b, rep, setup=setup)
        rep.use(e, b.p)
        g = [a for a, t in zip(args, b.locals[1:]) if strip_ref(t).get("p") == gp]
        f = [a for a, t in zip(args, b.locals[1:]) if strip_ref(t).get("p") == fp]
        sp = find_adt(b.locals[0], pp)["a"][-1].get("s")
        sol = [(a, t) for a, t in zip(args, b.locals[1:]) if is_solver(t) and t["a"][0].get("s") == sp or t.get("k") == "param" and t.get("s") == sp]
        if len(g) != 1 or len(f) > 1 or len(sol) > 1:
            rep.unsure("parser is built from its arguments", where(b), "unexpected signature")
            continue
        rep.check(bool(outs), "constructor returns", where(b), "never returns")
        for k, s in outs:
            if k != "ret":
                rep.bad("constructor does not fail", where(b), "can panic")
                continue
            calls = {}
            for ev in e.events(s.log):
                if ev.a[0] == "rc":
                    calls[ev.a[3]] = (ev.a[1], ev.a[2].a)
            v = s.ret
            gr = e.P.val(s, proj(v, None, gf))
            rep.check(gr is g[0], "the parser keeps the grammar it was given", where(b), "field %s holds %s" % (gf, show(gr)))
            t = e.P.val(s, proj(v, None, tf))
            c = calls.get(t)
            ok = c is not None and c[0] is mk("fnname", tfrom.u)
            why = "field %s holds %s, which is not the table computed by RecursiveDescentParserTransitions::from" % (tf, show(t))
            if ok:
                a0, a1 = c[1][0], c[1][1]
                if a0 is not g[0]:
                    ok, why = False, "the table is built for another grammar"
                elif f:
                    if a1 is not f[0]:
                        ok, why = False, "the table is not built from the FIRST and FOLLOW sets passed in"
                else:
                    c1 = calls.get(a1)
                    if c1 is None or c1[0] is not mk("fnname", ffrom.u) or c1[1][0] is not g[0]:
                        ok, why = False, "the table is not built from the FIRST and FOLLOW sets of the grammar"
            rep.check(ok, "the table is that of the grammar", where(b), why)
            sv = e.P.val(s, proj(v, None, sf))
            if sol:
                if sol[0][1].get("k") == "adt":
                    ok = sv is sol[0][0] or sv.tag == "adt" and (sv.a[1] == "None" or e.P.val(s, proj(sv, "Some", "0")) is mk("vf", sol[0][0], "Some", "0"))
                else:
                    ok = sv.tag == "adt" and sv.a[1] == "Some" and e.P.val(s, proj(sv, "Some", "0")) is sol[0][0]
            else:
                ok = sv.tag == "adt" and sv.a[1] == "None"
            rep.check(ok, "a solver is configured exactly when one was given", where(b), "field %s holds %s" % (sf, show(sv)))
    for tr, a, m in prog.impl_methods:
        pass


def find_adt(t, p):
    if t.get("k") == "adt":
        if t["p"] == p:
            return t
        for x in t["a"]:
            r = find_adt(x, p)
            if r:
                return r
    return None


def is_ref(t, p):
    return t.get("k") == "ref" and t["t"].get("p") == p


def is_solver(t):
    return t.get("k") == "adt" and t.get("p", "").split("::")[-1] == "Option" and bool(t.get("a")) and t["a"][0].get("k") == "param"


# ---------------------------------------------------------------------- C16
def c16(prog, rep, tier):
    e = interp.Engine(prog)
    # every type reachable from the fields of the four types
    for name in SUBJECTS:
        p = adt_named(prog, name)
        seen = set()
        walk(prog, rep, {"k": "adt", "p": p, "a": []}, name, seen)
        for v in prog.adts[p]["vs"]:
            for f in v["fs"]:
                rep.check(not f["pub"], "field is private", "%s.%s" % (name, f["n"]), "a public field can be changed after construction")
    subj = {adt_named(prog, n) for n in SUBJECTS}
    # no public operation takes exclusive access
    for b in prog.local_bodies():
        if b.j["promoted"] != -1 or b.kind == "Closure":
            continue
        if not (b.j.get("pub") or "impl_trait" in b.j):
            continue
        for i in range(1, b.argc + 1):
            t = b.locals[i]
            if t.get("k") == "ref" and t.get("m") and strip_ref(t).get("p") in subj and b.name != "drop":
                rep.bad("no public operation takes exclusive access", where(b), "takes &mut %s" % strip_ref(t)["p"])
        for i in range(1, b.argc + 1):
            t = b.locals[i]
            if strip_ref(t).get("p") in subj:
                rep.ok("no public operation takes exclusive access", where(b))
        ret = b.locals[0]
        if has_mut_ref(ret):
            rep.bad("no public operation hands out exclusive access", where(b), "returns a mutable reference")
    # process-wide state
    for s in prog.repo["statics"]:
        inter = []
        find_mutable(prog, s["t"], inter, set())
        if s["mut"] or inter:
            rep.bad("no process-wide mutable state", "%s (%s)" % (s["p"], s["span"][0]), "static %s" % ("mut" if s["mut"] else "with interior mutability (%s)" % inter[0]))
    rep.ok("no process-wide mutable state", "%d statics" % len(prog.repo["statics"]))
    for s in prog.repo["unsafe_blocks"]:
        rep.bad("no unsafe code", str(s), "an unsafe block can change shared data")
    for im in prog.repo["impls"]:
        if im["unsafe"]:
            rep.bad("no unsafe code", str(im["span"]), "unsafe impl of %s" % im["trait"])
    rep.ok("no unsafe code", "%d bodies" % len(prog.local_bodies()))
    ncalls = 0
    for b in prog.local_bodies():
        if b.j.get("unsafe"):
            rep.bad("no unsafe code", where(b), "unsafe function")
        for bl in b.blocks:
            if bl.get("cl"):
                continue
            t = bl["t"]
            if t[0] != "call" or "fn" not in t[1]:
                continue
            ncalls += 1
            p = t[1]["fn"]["p"]
            q = p.replace("core::", "std::").replace("alloc::", "std::")
            if any(q.startswith(x.replace("core::", "std::")) for x in STATEFUL):
                rep.bad("no call reads or writes process-wide or hidden state", where(b), "calls %s" % p)
    rep.ok("no call reads or writes process-wide or hidden state", "%d call sites" % ncalls)
    witness(prog, rep)
    rep.cover["call_sites"] = ncalls


def has_mut_ref(t):
    if not isinstance(t, dict):
        return False
    if t.get("k") == "ref" and t.get("m"):
        return True
    return any(has_mut_ref(v) if isinstance(v, dict) else isinstance(v, list) and any(has_mut_ref(x) for x in v) for v in t.values())


def walk(prog, rep, t, path, seen):
    k = t.get("k")
    if k == "adt":
        p = t["p"]
        n = p.split("::")[-1]
        if p in prog.adts:
            if p in seen:
                return
            seen.add(p)
            for v in prog.adts[p]["vs"]:
                for f in v["fs"]:
                    walk(prog, rep, f["t"], "%s.%s" % (path, f["n"]), seen)
        elif n in MUTABLE or n.startswith("Atomic"):
            rep.bad("no interior mutability", path, "the field holds a %s: shared access can change it" % p)
            return
        elif n in PLAIN:
            rep.ok("no interior mutability", path)
        else:
            rep.unsure("no interior mutability", path, "unknown type %s" % p)
        for a in t.get("a", []):
            walk(prog, rep, a, path, seen)
    elif k == "ptr":
        rep.bad("no interior mutability", path, "the field holds a raw pointer")
    elif k == "ref":
        if t.get("m"):
            rep.bad("no interior mutability", path, "the field holds a mutable reference")
        walk(prog, rep, t["t"], path, seen)
    elif k == "dyn" or k == "other":
        rep.unsure("no interior mutability", path, "opaque type %s" % t)
    else:
        for v in t.values():
            if isinstance(v, dict):
                walk(prog, rep, v, path, seen)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        walk(prog, rep, x, path, seen)


def find_mutable(prog, t, out, seen):
    if t.get("k") == "adt":
        n = t["p"].split("::")[-1]
        if n in MUTABLE or n.startswith("Atomic"):
            out.append(t["p"])
        if t["p"] in prog.adts and t["p"] not in seen:
            seen.add(t["p"])
            for v in prog.adts[t["p"]]["vs"]:
                for f in v["fs"]:
                    find_mutable(prog, f["t"], out, seen)
    for v in t.values():
        if isinstance(v, dict):
            find_mutable(prog, v, out, seen)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    find_mutable(prog, x, out, seen)


WITNESS = """
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::recursive_descent_parser_transitions::RecursiveDescentParserTransitions;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::parser::parse_result::ParseResult;
use artlr_syntax::token::token::Token;

fn send<T: Send>() {}
fn sync<T: Sync>() {}

pub fn grammar_send<S: Send>() { send::<ContextFreeGrammar<S>>() }
pub fn grammar_sync<S: Sync>() { sync::<ContextFreeGrammar<S>>() }
pub fn first_follow_send<S: Send>() { send::<FirstFollowSymbols<S>>() }
pub fn first_follow_sync<S: Sync>() { sync::<FirstFollowSymbols<S>>() }
pub fn transitions_send<S: Send>() { send::<RecursiveDescentParserTransitions<S>>() }
pub fn transitions_sync<S: Sync>() { sync::<RecursiveDescentParserTransitions<S>>() }
pub fn parser_send<'a, L: Send + 'a, S: Send + Sync + 'a, X: SyntaxErrorSolver<L, S> + Send + 'a>() { send::<RecursiveDescentParser<'a, L, S, X>>() }
pub fn parser_sync<'a, L: Sync + 'a, S: Sync + 'a, X: SyntaxErrorSolver<L, S> + Sync + 'a>() { sync::<RecursiveDescentParser<'a, L, S, X>>() }
pub fn shared_parse<L: Clone, S: Clone + Eq + std::hash::Hash, X: SyntaxErrorSolver<L, S>>(p: &RecursiveDescentParser<'_, L, S, X>, t: Vec<Token<L, S>>) -> ParseResult<L, S> { p.parse_from_tokens(t.into_iter()) }
pub fn shared_query<S: Clone + Eq + std::hash::Hash>(g: &ContextFreeGrammar<S>, s: &S) -> bool { g.is_terminal(s) || g.is_non_terminal(s) || g.get_productions(s).is_some() }
"""


def witness(prog, rep):
    d = os.path.join(V, "build", "wit.%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    try:
        open(os.path.join(d, "Cargo.toml"), "w").write(
            '[package]\nname = "wit"\nversion = "0.0.0"\nedition = "2018"\n[dependencies]\nartlr_syntax = { path = "%s" }\n[workspace]\n' % os.path.abspath(REPO))
        open(os.path.join(d, "src", "lib.rs"), "w").write(WITNESS)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_NET_OFFLINE="true")
        env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "")
        r = subprocess.run(["cargo", "check", "--offline", "-q", "--message-format", "short"], cwd=d, env=env, capture_output=True, text=True)
        fns = re.findall(r"pub fn (\w+)", WITNESS)
        if r.returncode == 0:
            for f in fns:
                rep.ok("type-level witness compiles", f)
        else:
            lines = [l for l in r.stderr.splitlines() if "error" in l]
            hit = [l for l in lines if "cannot be sent between threads" in l or "cannot be shared between threads" in l or "E0596" in l]
            if hit:
                for l in hit:
                    m = re.search(r"lib\.rs:(\d+)", l)
                    f = WITNESS.splitlines()[int(m.group(1)) - 1] if m else "?"
                    rep.bad("type-level witness compiles", re.findall(r"pub fn (\w+)|$", f)[0], l)
            else:
                rep.unsure("type-level witness compiles", "witness", "; ".join(lines)[:400] or r.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
