"""P06: recursion through templates and included files is depth-bounded.

Path rule: before text that was looked up by name (the body of a template, the
content of a file) is handed to the grammar, a nesting counter has been raised
and found to be within a constant limit, on every path from every action; the
counter is put back when the scope that raised it ends, and nothing else
writes it."""
from . import flow
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args, call_object


def field_of(n):
    n = strip(n, explicit=True)
    if n is not None and n.k == "MemberExpr" and n.dk != "func":
        return n.q
    return None


def is_int(t):
    t = (t or "").replace("const", "").replace("volatile", "").replace("&", "").strip()
    return t in ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "std::size_t", "size_t", "unsigned", "long long")


def raised(n):
    """(field, delta) when n counts a member up or down."""
    if n.k == "UnaryOperator" and n.op in ("++", "p++", "--", "p--"):
        q = field_of(n.ch[0])
        return (q, 1 if "+" in n.op else -1) if q else None
    if n.k == "CompoundAssignOperator" and n.op in ("+=", "-="):
        q = field_of(n.ch[0])
        return (q, 1 if n.op == "+=" else -1) if q else None
    if n.k == "BinaryOperator" and n.op == "=":
        q = field_of(n.ch[0])
        r = strip(n.ch[1], explicit=True)
        if q and r is not None and r.k == "BinaryOperator" and r.op in ("+", "-") and field_of(r.ch[0]) == q:
            return (q, 1 if r.op == "+" else -1)
    return None


def is_entry(n):
    """A call that runs the document grammar over some text."""
    if not is_call(n) or not (n.callee or "").endswith("::parse") or "spirit" not in n.callee:
        return False
    return any(is_call(x) and last(x.callee or "") == "grammar" for x in n.walk())


class Savers:
    """Classes whose objects put a member of another object back when they go:
    class -> {field}."""

    def __init__(self, model):
        self.of = {}
        for cls, d in flow.dtors(model).items():
            inits = {}
            for f in model.fns():
                if f.d.get("ctor") and f.cls == cls:
                    for i in f.d.get("inits", ()) or ():
                        e = f.nodes.get(i.get("init"))
                        if e is not None and i.get("member"):
                            q = field_of(e)
                            while q is None and e is not None and e.ch:
                                e = e.ch[0]
                                q = field_of(e)
                            if q:
                                inits[i["member"]] = q
                    for n in f.nodes.values():
                        if n.k == "BinaryOperator" and n.op == "=" or n.k == "CXXOperatorCallExpr" and n.op == "=":
                            l, r = (n.ch[0], n.ch[1]) if n.k == "BinaryOperator" else (n.ch[1], n.ch[2])
                            if field_of(l) and field_of(r) and field_of(l).rsplit("::", 1)[0] == cls:
                                inits[last(field_of(l))] = field_of(r)
            if not inits:
                continue
            r = Restored(model, cls, inits)
            res = Engine(r, model).run(d, frozenset())
            back = None
            for x in res:
                if x.kind == "return":
                    back = x.auto if back is None else back & x.auto
            if back:
                self.of[cls] = set(back)


class Restored(Rule):
    def __init__(self, model, cls, inits):
        Rule.__init__(self, model)
        self.cls, self.inits = cls, inits

    def may_inline(self, call, t, ctx):
        return t.cls == self.cls

    def step(self, n, auto, ctx, st):
        pair = None
        if n.k == "BinaryOperator" and n.op == "=":
            pair = n.ch[0], n.ch[1]
        elif n.k == "CXXOperatorCallExpr" and n.op == "=":
            pair = n.ch[1], n.ch[2]
        elif is_call(n) and last(n.callee or "") in ("swap", "invoke_swap"):
            o, args = call_args(n)
            args = ([o] if o is not None else []) + [a for a in args if a is not None]
            if len(args) == 2:
                pair = args
        if pair is None:
            return None
        a, b = field_of(pair[0]), field_of(pair[1])
        for x, y in ((a, b), (b, a)):
            if x and y and y.rsplit("::", 1)[0] == self.cls and self.inits.get(last(y)) == x:
                return [auto | {x}]
        return None


class Depth(Rule):
    width = 8

    def __init__(self, model, savers, counters):
        Rule.__init__(self, model)
        self.savers = savers
        self.counters = counters
        self.entries = {}
        self.owed = {}
        self.limits = {}

        def pred(f):
            return any(is_entry(n) or raised(n) and raised(n)[0] in counters for n in f.nodes.values())
        self.find_interesting(pred)

    def saved(self, t):
        return self.savers.of.get((t or "").replace("const ", "").strip(), ())

    def step(self, n, auto, ctx, st):
        if n.k == "DeclStmt":
            add = set()
            for v in n.d.get("vars", ()):
                for c in self.saved(v.get("t")):
                    if c in self.counters:
                        add.add(("saver", c, ctx.depth))
            return [auto | add] if add else None
        r = raised(n)
        if r and r[0] in self.counters:
            c, d = r
            if d < 0:
                return [frozenset(x for x in auto if x[1] != c or x[0] == "saver")]
            a = auto | {("up", c, 0)}
            if not any(x[0] == "saver" and x[1] == c for x in auto):
                a |= {("owed", c, 0)}
                self.owed.setdefault((c, ctx.fn.short()), n.where())
            return [a]
        if is_entry(n):
            org = self.origin(n, ctx)
            key = (n.where(), ctx.chain())
            ok = org == "own" or ctx_root(ctx).q == "main" or \
                any(("up", c, 0) in auto and ("within", c, 0) in auto for c in self.counters)
            old = self.entries.get(key)
            if old is None or old[0]:
                self.entries[key] = (ok, org, ctx.fn.short(), n.where(), [f for f in ctx.stack()][1:])
        return None

    def dtor(self, e, auto, ctx, st):
        t = e.get("t") or e.get("type") or ""
        cs = set(self.saved(t)) if t else set()
        if not cs:
            v = ctx.fn.vars().get(e.get("did") or e.get("dtor"))
            cs = set(self.saved(v.get("t"))) if v else set()
        if not cs:
            return None
        return [frozenset(x for x in auto if x[1] not in cs or x[2] != ctx.depth and x[0] == "saver")]

    def edge(self, cond, truth, auto, ctx, st):
        add = set()
        self.within(cond, truth, add, 0)
        return [auto | {("within", c, 0) for c in add}] if add else None

    def within(self, n, truth, add, depth):
        """Counters known to be below a constant when n has this truth."""
        n = strip(n, explicit=True)
        if n is None or depth > 8:
            return
        if n.k == "UnaryOperator" and n.op == "!":
            return self.within(n.ch[0], not truth, add, depth + 1)
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            if (n.op == "&&") == truth:
                self.within(n.ch[0], truth, add, depth + 1)
                self.within(n.ch[1], truth, add, depth + 1)
            return
        if n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">="):
            for i in (0, 1):
                e = strip(n.ch[i], explicit=True)
                r = raised(e) if e is not None else None
                q = r[0] if r and r[1] > 0 else field_of(e)
                lim = self.constant(n.ch[1 - i])
                if q in self.counters and lim is not None and not (isinstance(lim, int) and lim <= 0):
                    less = n.op in ("<", "<=")
                    if i:
                        less = not less
                    if less == truth:
                        self.limits.setdefault(q, set()).add(lim)
                        add.add(q)
            return
        if is_call(n):
            for t in self.model.targets(n):
                rs = [x for x in t.nodes.values() if x.k == "ReturnStmt" and x.ch]
                if len(rs) == 1:
                    self.within(rs[0].ch[0], truth, add, depth + 1)

    def constant(self, n):
        n = strip(n, explicit=True)
        if n is None:
            return None
        if isinstance(n.cv, int):
            return n.cv
        if n.k == "IntegerLiteral":
            return n.val
        return self.model_const(n)

    def model_const(self, n):
        if n.k in ("DeclRefExpr", "MemberExpr") and "const" in (n.type or "") and n.q not in self.counters:
            return n.q
        return None

    # -- where the text comes from -----------------------------------------
    def origin(self, call, ctx):
        _, args = call_args(call)
        return self.orig(args[0], ctx, 0)

    def orig(self, n, ctx, depth):
        n = strip(n, explicit=True)
        if n is None or depth > 25:
            return "?"
        if n.k in CONSTRUCTS and n.ch:
            return self.orig(n.ch[0], ctx, depth + 1)
        if n.k == "DeclRefExpr":
            if n.dk == "local":
                v = ctx.fn.vars().get(n.did)
                i = ctx.fn.nodes.get(v.get("init")) if v else None
                if i is not None and i.ch or i is not None and is_call(i) or i is not None and i.k in ("MemberExpr", "DeclRefExpr"):
                    return self.orig(i, ctx, depth + 1)
                return "?"
            if n.dk == "parm":
                pos = [k for k, p in enumerate(ctx.fn.params) if p["did"] == n.did]
                if pos and ctx.up is not None and ctx.call is not None:
                    _, args = call_args(ctx.call)
                    if pos[0] < len(args) and args[pos[0]] is not None:
                        return self.orig(args[pos[0]], ctx.up, depth + 1)
                t = ctx.fn.params[pos[0]]["t"] if pos else ""
                return "own" if "iterator" in t or "char *" in t or "char const" in t else "?"
            if n.dk == "global":
                return "own"
            return "?"
        if is_call(n):
            nm = last(n.callee or "")
            o = call_object(n)
            if nm in ("consume", "optional_consume"):
                return "own"        # part of the construct being converted
            if nm == "source":
                return "file"
            if o is not None:
                return self.orig(o, ctx, depth + 1)
            if n.ch[1:]:
                return self.orig(n.ch[1], ctx, depth + 1)
            return "?"
        if n.k == "MemberExpr":
            if n.q and n.q.endswith("template_symbol::content"):
                return "template"
            return self.orig(n.ch[0], ctx, depth + 1) if n.ch else "?"
        if n.k == "UnaryOperator" and n.ch:
            return self.orig(n.ch[0], ctx, depth + 1)
        return "?"


def ctx_root(ctx):
    while ctx.up is not None:
        ctx = ctx.up
    return ctx.fn


def run(model, rep):
    rep.rule("path rule with callees inlined: a nesting counter is raised and found within a constant limit before looked-up text "
             "(template bodies, files) is converted; whoever raises it puts it back; nothing else writes it")
    counters = set()
    for f in model.fns():
        for n in f.nodes.values():
            r = raised(n)
            if r and r[1] > 0 and n.ch and is_int(n.ch[0].type):
                counters.add(r[0])
    # a nesting counter is one that is compared with a constant somewhere
    savers = Savers(model)
    probe = Depth(model, savers, counters)
    compared = set()
    for f in model.fns():
        for n in f.nodes.values():
            if n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">="):
                for t in (True, False):
                    probe.within(n, t, compared, 0)
    counters &= compared
    rule = Depth(model, savers, counters)
    eng = Engine(rule, model)
    cg = flow.callgraph(model)
    called = set()
    for a, bs in cg.items():
        called |= {b for b in bs if b != a}
    entries = {f.usr for f in model.fns() if any(is_entry(n) for n in f.nodes.values())}
    reach = flow.reverse_reach(model, entries)
    roots = [f for f in model.fns() if f.usr in reach and f.usr not in called]
    guards = set()
    for f in roots:
        for r in eng.run(f, frozenset()):
            if r.kind == "return":
                for x in r.auto:
                    if x[0] == "owed":
                        guards.add(x[1])
                        where = rule.owed.get((x[1], f.short())) or next((w for (c, _), w in rule.owed.items() if c == x[1]), f.where())
                        rep.bad("counter restored", "restore %s" % last(x[1]), where,
                                "%s is raised and not put back when the expansion ends (reached from %s)" % (last(x[1]), f.short()))
    kinds = {}
    seen = {}
    for (where, chain), (ok, org, fn, w, st) in rule.entries.items():
        kinds[org] = kinds.get(org, 0) + 1
        opener = next((g.short() for g in st), fn)
        k = (w, opener)
        seen[k] = seen.get(k, True) and ok
        if not ok:
            rep.bad("re-entry", "unbounded %s via %s" % (fn, opener), w,
                    "text looked up by name (%s) is converted without a bound on the nesting: %s" % (org, chain))
    for (w, opener), ok in seen.items():
        if ok:
            rep.ok("re-entry", "%s via %s" % (w, opener))
    # nothing else writes the counters that bound the nesting
    used = {q for q in counters if q in rule.limits}
    for f in model.fns():
        for n in f.nodes.values():
            q = None
            if n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator":
                q = field_of(n.ch[0])
            if q in used and q is not None and not raised(n):
                src = field_of(n.ch[1])
                cls = src.rsplit("::", 1)[0] if src else None
                if cls in savers.of and q in savers.of[cls]:
                    rep.ok("writes", n.where())
                    continue
                rep.bad("writes", "write %s in %s" % (last(q), f.short()), n.where(),
                        "%s, which bounds the nesting, is overwritten in %s" % (last(q), f.short()))
    for q in used:
        rep.ok("counters", q)
    rep.extra["limits"] = {last(q): sorted(str(x) for x in v) for q, v in rule.limits.items()}
    rep.extra["entries_by_origin"] = kinds
    rep.extra["roots"] = [f.short() for f in roots]
    if not rep.violations:
        rep.expect(kinds.get("template") and kinds.get("file"), "no conversion of template bodies or of files was found")
        rep.at_least("counters", 1)
