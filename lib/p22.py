"""P22: each language version is served by exactly one variant.

Grammar part: the version guards of the alternatives of one choice are pairwise
disjoint, cover every version that can get there when every alternative is
guarded, and none is out of reach. Code part: every comparison of a language
version uses an existing version and both outcomes are possible there; chains of
version tests leave no gap between the versions they serve."""
from . import flow, grammar
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args

VERSION_VARS = ("qbk_version_n", "compatibility_version", "qbk_version", "version")


def is_version(n):
    """Does this expression denote a language version?"""
    n = strip(n, explicit=True)
    if n is None:
        return False
    if not ("unsigned" in n.type or n.type == "int"):
        return False
    if n.k in ("DeclRefExpr", "MemberExpr"):
        return (n.name or "").rstrip("_") in VERSION_VARS
    if n.k == "CXXMemberCallExpr":
        return last(n.callee or "") in VERSION_VARS
    return False


def const(n):
    s = strip(n, explicit=True)
    if s is None:
        return None
    if s.cv is not None:
        return s.cv
    return s.val if s.k == "IntegerLiteral" else None


def atom(n):
    """(version expression, op, constant) with the version on the left."""
    n = strip(n, explicit=True)
    if n is None or n.k != "BinaryOperator" or n.op not in ("<", ">", "<=", ">=", "==", "!="):
        return None
    a, b = n.ch
    if is_version(a) and const(b) is not None:
        return a, n.op, const(b)
    if is_version(b) and const(a) is not None:
        return b, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(n.op, n.op), const(a)
    return None


def sat(v, op, c):
    return {"<": v < c, ">": v > c, "<=": v <= c, ">=": v >= c, "==": v == c, "!=": v != c}[op]


# -- the set of versions -------------------------------------------------------
def supported(model):
    """Versions the tool accepts: integer bounds in the function that
    classifies versions."""
    best = None
    for f in model.fns():
        if f.d.get("rt", "").endswith("version_state"):
            cs = [const(x) for n in f.nodes.values() if n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">=")
                  for x in n.ch if const(x) is not None]
            hi = None
            for n in f.nodes.values():
                if n.k == "BinaryOperator" and n.op in ("<=", "<", ">", ">="):
                    for i in (0, 1):
                        c = const(n.ch[i])
                        if c is None:
                            continue
                        op = n.op if i == 1 else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[n.op]
                        if c > 100:
                            h = c if op in ("<=", ">") else c - 1
                            hi = h if hi is None else max(hi, h)
            best = hi
    if best is None or not 105 <= best <= 130:
        raise Broken("cannot find the newest supported version")
    return frozenset(range(100, best + 1))


# -- grammar ---------------------------------------------------------------------
def head(g, gr=None, depth=0):
    """Version guard an alternative starts with."""
    if g.k == "ver":
        return g
    if g.k in ("seq", "act", "scoped", "nocase", "lexeme"):
        return head(g.ch[0], gr, depth)
    if g.k == "rule" and gr is not None and depth < 3 and g.v in gr.rules and len(gr.rules[g.v]) == 1:
        return head(gr.rules[g.v][0][0], gr, depth + 1)
    return None


def rng(g, V):
    lo, hi = g.v[0], g.v[1]
    return frozenset(v for v in V if lo <= v < hi)


def short(k):
    return k.replace("quickbook::", "").split("<")[0] + ("::" + k.rsplit("::", 1)[-1] if "<" in k else "")


def fmt(vs):
    return ", ".join("%d.%d" % (v // 100, v % 100) for v in sorted(vs)) or "none"


def contexts(gr, V):
    """rule -> versions in which it can be entered."""
    ctx = {k: frozenset() for k in gr.rules}
    used = set()

    def uses(g, cur):
        """yield (rule, versions) for references inside g; returns versions left"""
        if g.k == "ver":
            return cur & rng(g, V)
        if g.k == "rule":
            if g.v in ctx:
                used.add(g.v)
                out.append((g.v, cur))
            return cur
        if g.k == "seq":
            for c in g.ch:
                cur = uses(c, cur)
            return cur
        if g.k == "alt":
            r = frozenset()
            for c in g.ch:
                r |= uses(c, cur)
            return r
        if g.k in ("opt", "star", "and", "not", "repeat"):
            for c in g.ch:
                uses(c, cur)
            return cur
        for i, c in enumerate(g.ch):
            r = uses(c, cur)
            if i == 0 and g.k in ("act", "scoped", "plus", "nocase", "lexeme"):
                cur = r
        return cur

    out = []
    for k, ds in gr.rules.items():
        for g, _, _ in ds:
            uses(g, V)
    for k in gr.rules:
        if k not in used:
            ctx[k] = V
    # rules entered from code (pointers in tables, parse calls)
    for f in gr.model.fns():
        for n in f.nodes.values():
            if n.k == "UnaryOperator" and n.op == "&" and grammar.tbase(n.type.rstrip("*")).endswith("classic::rule"):
                k = gr.key(n.ch[0])
                if k in ctx:
                    ctx[k] = V
            elif n.k in CONSTRUCTS and n.callee == "quickbook::grammar::grammar" and n.ch:
                k = gr.key(n.ch[0])
                if k in ctx:
                    ctx[k] = V
    ch = True
    while ch:
        ch = False
        out.clear()
        for k, ds in gr.rules.items():
            if ctx[k]:
                for g, _, _ in ds:
                    uses(g, ctx[k])
        for k, vs in out:
            if not vs <= ctx[k]:
                ctx[k] |= vs
                ch = True
    return ctx


def grammar_part(model, rep, V):
    gr = grammar.load(model)
    ctx = contexts(gr, V)
    nguard = 0

    def visit(g, cur, name):
        nonlocal nguard
        if g.k == "ver":
            nguard += 1
            lo, hi = g.v
            r = rng(g, V)
            for c, nm in ((lo, "lower"), (hi, "upper")):
                if c is None:
                    raise Broken("version bound is not a constant at %s" % g.where())
                if c and c != 999 and (c not in V):
                    rep.bad("versions exist", "%s/guard %s-%s" % (name, lo, hi), g.where(),
                            "version guard in rule '%s' names version %d which does not exist" % (name, c))
            if not r & cur:
                rep.bad("guard reachable", "%s/guard %s-%s" % (name, lo, hi), g.where(),
                        "the variant of '%s' for versions [%s, %s) can never apply (versions that get there: %s)" % (name, lo, hi, fmt(cur)))
            else:
                rep.ok("guard reachable", "%s [%s,%s)" % (name, lo, hi))
            return cur & r
        if g.k == "alt":
            hs = [(c, head(c, gr)) for c in g.ch]
            gd = [(c, h) for c, h in hs if h is not None]
            if len(gd) >= 2:
                for i in range(len(gd)):
                    for j in range(i):
                        a, b = rng(gd[i][1], V) & cur, rng(gd[j][1], V) & cur
                        if a & b and a != b:
                            rep.bad("variants disjoint", "%s/%s-%s" % (name, gd[i][1].v, gd[j][1].v), gd[i][0].where(),
                                    "two variants of '%s' both apply to version %s" % (name, fmt(a & b)))
                        else:
                            rep.ok("variants disjoint", "%s line %s" % (name, g.where()))
                if len(gd) == len(hs):
                    cov = frozenset()
                    for _, h in gd:
                        cov |= rng(h, V)
                    gap = cur - cov
                    if gap:
                        rep.bad("variants cover", "%s/gap" % name, g.where(),
                                "no variant of '%s' applies to version %s" % (name, fmt(gap)))
                    else:
                        rep.ok("variants cover", "%s line %s" % (name, g.where()))
            r = frozenset()
            for c in g.ch:
                r |= visit(c, cur, name)
            return r
        if g.k == "seq":
            for c in g.ch:
                cur = visit(c, cur, name)
            return cur
        if g.k in ("opt", "star", "and", "not", "repeat"):
            for c in g.ch:
                visit(c, cur, name)
            return cur
        for i, c in enumerate(g.ch):
            r = visit(c, cur, name)
            if i == 0 and g.k in ("act", "scoped", "plus", "nocase", "lexeme"):
                cur = r
        return cur

    dead = []
    for k, ds in gr.rules.items():
        for g, f, n in ds:
            if not any(x.k == "ver" for x in g.walk()):
                continue
            if not ctx[k]:
                rep.bad("guard reachable", short(k) + "/unused", n.where(), "rule '%s' is entered in no version" % short(k))
                continue
            visit(g, ctx[k], short(k))
    rep.expect(nguard >= 40, "only %d version guards in the grammar" % nguard)
    rep.extra["version guards"] = nguard
    # versions from which an element exists
    nel = 0
    for k, es in gr.symbols.items():
        for name, val, n, f, a in es:
            if val is None:
                continue
            for x in val.walk():
                if x.k in CONSTRUCTS and (x.cls or "").endswith("element_info") and len(x.ch) >= 4 and not x.copy:
                    c = const(x.ch[3])
                    nel += 1
                    if x.ch[3].k == "CXXDefaultArgExpr":
                        c = c or 0
                    if c is None:
                        raise Broken("element '%s' has a computed version at %s" % (name, n.where()))
                    if c and c not in V:
                        rep.bad("versions exist", "element %s" % name, n.where(), "element '%s' needs version %d which does not exist" % (name, c))
                    else:
                        rep.ok("versions exist", "element %s from %d" % (name, c))
    rep.expect(nel >= 40, "only %d elements with versions" % nel)


# -- the guard itself ------------------------------------------------------------
class Guard(Rule):
    def remember(self, key):
        return True

    def may_inline(self, call, t, ctx):
        return True


def guard_part(model, rep):
    """quickbook_range(lo, hi) matches exactly the versions lo <= v < hi."""
    fs = [f for f in model.fns() if f.cls and f.cls.endswith("quickbook_range") and f.cfg is not None and f.d.get("rt") in ("bool", "_Bool")
          and any(atom2(n) for n in f.nodes.values())]
    rep.expect(fs, "no version range test found")
    for f in fs:
        c = flow.Ctx(f)
        n0 = "quickbook::qbk_version_n"
        lk, uk = "this.lower", "this.upper"
        bad = None
        eqk = lambda a, b: "(%s == %s)" % tuple(sorted((a, b)))
        for rl in (-1, 0, 1):
            for ru in (-1, 0, 1):
                if rl <= 0 and ru >= 0 and (rl, ru) != (0, 0):
                    continue  # an empty range
                conds = {"(%s < %s)" % (n0, lk): rl < 0, "(%s < %s)" % (lk, n0): rl > 0, eqk(n0, lk): rl == 0,
                         "(%s < %s)" % (n0, uk): ru < 0, "(%s < %s)" % (uk, n0): ru > 0, eqk(n0, uk): ru == 0}
                res = Engine(Guard(model), model).run(f, frozenset(), conds)
                for r in res:
                    if r.kind != "return":
                        continue
                    if r.ret is None:
                        raise Broken("cannot evaluate the version range test at %s" % f.where())
                    if r.ret != (rl >= 0 and ru < 0):
                        bad = (rl, ru)
        if bad:
            rep.bad("range test", f.short(), f.where(), "the version range test is not lower <= version < upper")
        else:
            rep.ok("range test", f.short())
    # constructor and maker keep the order of the bounds
    for f in model.fns():
        if f.cls and f.cls.endswith("quickbook_range") and f.name == "quickbook_range" and len(f.params) == 2:
            for i in f.d.get("inits") or ():
                nm = i.get("member")
                node = f.nodes.get(i.get("init"))
                if nm in ("lower", "upper") and node is not None:
                    s = strip(node, explicit=True)
                    want = 0 if nm == "lower" else 1
                    if s is None or s.did != f.params[want]["did"]:
                        rep.bad("range test", f.short() + "/" + nm, f.where(), "the version range stores its bounds in the wrong order")
                    else:
                        rep.ok("range test", "%s = parameter %d" % (nm, want))
        elif (f.d.get("rt") or "").endswith("quickbook_range") and len(f.params) == 2:
            for n in f.nodes.values():
                if n.k in CONSTRUCTS and (n.cls or "").endswith("quickbook_range") and not n.copy and len(n.ch) == 2:
                    ds = [strip(a, explicit=True).did for a in n.ch]
                    if ds != [p["did"] for p in f.params]:
                        rep.bad("range test", f.short(), f.where(), "the bounds of a version guard are passed in the wrong order")
                    else:
                        rep.ok("range test", f.short())


def atom2(n):
    return n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">=") and any(is_version(c) for c in n.ch)


# -- code ------------------------------------------------------------------------
def writers(model):
    """Functions that may change the language version (transitively), and those
    that run a parser."""
    cg = flow.callgraph(model)
    base = set()
    for f in model.fns():
        for n in f.nodes.values():
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in flow.ASSIGN_OPS:
                l = strip(n.ch[0], explicit=True)
                if l is not None and is_version(l):
                    base.add(f.usr)
            elif is_call(n) and "swap" in last(n.callee or "") and any(is_version(a) for a in n.ch[1:] if a is not None):
                base.add(f.usr)
            elif is_call(n) and last(n.callee or "") == "parse" and "spirit" in (n.callee or ""):
                base.add(f.usr)
    rev = {}
    for a, bs in cg.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    seen = set(base)
    st = list(base)
    while st:
        for p in rev.get(st.pop(), ()):
            if p not in seen:
                seen.add(p)
                st.append(p)
    return seen


def code_part(model, rep, V):
    ncmp = 0
    wr = writers(model)
    # constants passed as a version parameter
    for f in model.fns():
        atoms = [(n, atom(n)) for n in f.nodes.values() if n.k == "BinaryOperator"]
        atoms = [(n, a) for n, a in atoms if a]
        for n in f.nodes.values():
            if is_call(n):
                _, args = call_args(n)
                for t in model.targets(n):
                    for p, a in zip(t.params, args):
                        if a is not None and p["name"].rstrip("_") in VERSION_VARS and const(a) is not None and "unsigned" in p["t"]:
                            if a.k != "CXXDefaultArgExpr" and const(a) != 0:
                                ncmp += 1
                                if const(a) not in V:
                                    rep.bad("versions exist", "%s/argument %d" % (f.short(), const(a)), n.where(),
                                            "%s passes version %d which does not exist" % (f.short(), const(a)))
                                else:
                                    rep.ok("versions exist", "%s passes %d" % (f.short(), const(a)))
        if not atoms:
            continue
        lo, hi = min(V), max(V)
        for n, (v, op, c) in atoms:
            if f.d.get("rt", "").endswith("version_state") or (c == 0 and op in ("==", "!=", ">")):
                continue
            ncmp += 1
            yes = {x for x in V if sat(x, op, c)}
            if not yes or yes == V:
                rep.bad("comparison decides", "%s/%s %d" % (f.short(), op, c), n.where(),
                        "version comparison in %s has the same outcome for every existing version" % f.short())
            else:
                rep.ok("comparison decides", "%s: %s %d" % (f.short(), op, c))
        feasible(model, f, rep, V, wr)
        chains(f, rep, V)
        siblings(f, rep, V)
    rep.expect(ncmp >= 40, "only %d version comparisons" % ncmp)
    rep.extra["version comparisons"] = ncmp


def feasible(model, f, rep, V, wr):
    """Interval dataflow: every branch on a version is possible both ways."""
    if f.cfg is None or f.d.get("rt", "").endswith("version_state"):
        return
    ctx = flow.Ctx(f)
    cfg = f.cfg
    top = {}
    inst = {cfg.entry: {}}
    for b in cfg.blocks.values():
        if b.label is not None and b.label.k == "CXXCatchStmt":
            inst[b.id] = {}
    work = list(inst)
    infeasible = {}
    reached = set()

    def key(v):
        return ctx.key(v) or "?"

    def kill(s, n):
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in flow.ASSIGN_OPS and is_version(n.ch[0]):
            k = key(n.ch[0])
            return {a: b for a, b in s.items() if a != k}
        if is_call(n) and not n.cm:
            ts = model.targets(n)
            if any(t.usr in wr for t in ts) or (not ts and last(n.callee or "") in ("parse", "operator()")):
                return {}
            if "swap" in last(n.callee or ""):
                return {}
        return s

    guard = 0
    while work and guard < 20000:
        guard += 1
        bid = work.pop()
        reached.add(bid)
        s = dict(inst[bid])
        b = cfg.blocks[bid]
        for e in b.elems:
            if not isinstance(e, dict):
                s = kill(s, e)
        outs = []
        a = atom(flow.branch_atom(b)) if b.cond is not None and len([x for x in b.succs if x is not None]) == 2 and b.tk != "SwitchStmt" else None
        truth_const = None
        for i, x in enumerate(b.succs):
            if x is None:
                continue
            s2 = s
            if a is not None and not (a[2] == 0):
                v, op, c = a
                k = key(v)
                cur = s.get(k, V)
                new = frozenset(y for y in cur if sat(y, op, c) == (i == 0))
                infeasible.setdefault((bid, i), True)
                if not new:
                    continue
                infeasible[(bid, i)] = False
                s2 = dict(s)
                s2[k] = new
            outs.append((x, s2))
        for x, s2 in outs:
            old = inst.get(x)
            if old is None:
                inst[x] = s2
                work.append(x)
            else:
                m = {k: old[k] | s2[k] for k in old if k in s2}
                m = {k: v for k, v in m.items() if v != V}
                if m != old:
                    inst[x] = m
                    work.append(x)
    for (bid, i), bad in infeasible.items():
        b = cfg.blocks[bid]
        if bad:
            n = flow.branch_atom(b)
            rep.bad("branches reachable", "%s/%s" % (f.short(), "then" if i == 0 else "else"), n.where(),
                    "in %s one outcome of a version test is impossible for every version that gets there" % f.short())
        else:
            rep.ok("branches reachable", "%s line %d" % (f.short(), flow.branch_atom(b).line))


def truth(n, V):
    """Versions for which a condition made of version tests only holds."""
    n = strip(n, explicit=True)
    if n is None:
        return None
    if n.k == "UnaryOperator" and n.op == "!":
        r = truth(n.ch[0], V)
        return None if r is None else V - r
    if n.k == "BinaryOperator" and n.op in ("&&", "||"):
        a, b = truth(n.ch[0], V), truth(n.ch[1], V)
        if a is None or b is None:
            return None
        return a & b if n.op == "&&" else a | b
    a = atom(n)
    if a is None:
        return None
    return frozenset(v for v in V if sat(v, a[1], a[2]))


def chains(f, rep, V):
    """if (A) .. else if (B) .. with version tests only and no final else: no
    version between two served ones is left out."""
    for n in f.nodes.values():
        if n.k != "IfStmt":
            continue
        p = n.parent
        if p is not None and p.k == "IfStmt" and len(p.ch) and p.ch[-1] is n and truth(cond_of(p), V) is not None:
            continue
        rest, served, cnt = V, frozenset(), 0
        cur = n
        while cur is not None and cur.k == "IfStmt":
            t = truth(cond_of(cur), V)
            if t is None:
                break
            cnt += 1
            served |= t & rest
            rest = rest - t
            cur = else_of(cur)
        if cnt >= 2 and cur is None:
            gap = [v for v in rest if any(s < v for s in served) and any(s > v for s in served)]
            if gap:
                rep.bad("chains without gap", f.short() + "/chain", n.where(), "a chain of version tests in %s leaves out version %s" % (f.short(), fmt(gap)))
            else:
                rep.ok("chains without gap", f.short())


def siblings(f, rep, V):
    """Two tests in a row, one for older and one for newer versions: together
    they serve every version, and none twice."""
    for n in f.nodes.values():
        if n.k != "CompoundStmt":
            continue
        ifs = [(c, truth(cond_of(c), V)) for c in n.kids() if c.k == "IfStmt" and else_of(c) is None]
        ifs = [(c, t) for c, t in ifs if t]
        for (a, ta), (b, tb) in zip(ifs, ifs[1:]):
            kinds = {shape(ta, V), shape(tb, V)}
            if kinds != {"old", "new"}:
                continue
            if ta & tb or (ta | tb) != V:
                rep.bad("chains without gap", f.short() + "/pair", b.where(), "two version tests in %s %s version %s" % (
                    f.short(), "both serve" if ta & tb else "leave out", fmt((ta & tb) or (V - ta - tb))))
            else:
                rep.ok("chains without gap", f.short())


def shape(t, V):
    if not t or t == V:
        return None
    if all(min(t) <= v <= max(t) for v in t) and len(t) == max(t) - min(t) + 1:
        if min(t) == min(V):
            return "old"
        if max(t) == max(V):
            return "new"
    return None


def cond_of(n):
    i = n.d.get("cond")
    return n.f.nodes.get(i) if i else (n.ch[0] if n.ch else None)


def else_of(n):
    i = n.d.get("else")
    if i:
        return n.f.nodes.get(i)
    return n.ch[2] if len(n.ch) > 2 else None


def run(model, rep):
    rep.rule("version guards of one choice are disjoint and cover every version that reaches it; every version comparison names an existing "
             "version and both its outcomes are possible; the guard tests lower <= version < upper")
    V = supported(model)
    rep.extra["versions"] = fmt(V)
    grammar_part(model, rep, V)
    guard_part(model, rep)
    code_part(model, rep, V)
