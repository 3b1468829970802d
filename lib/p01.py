"""P01: every reported error ends in a failure exit status.

Automaton carried along every path: (pending, budget, owed)
  pending: an error was printed (or an exception swallowed) and not counted yet
  budget:  an error was counted just before it is printed
  owed:    errors were counted in a counter that dies with this function (or
           were returned to it), so the function must pass them on
"""
from . import flow
from .facts import strip, is_call
from .flow import Rule, Engine, last, call_args, call_object

OUTERR = "quickbook::detail::outerr"
# Exceptions that signal 'this operation does not apply' rather than an error;
# each is thrown only by default method bodies and handled by returning a value.
BENIGN_EXC = ("value_undefined_method",)


def counter_name(name):
    return bool(name) and "err" in name.lower() and "count" in name.lower() or (name or "") in ("errors", "error_count", "num_errors", "n_errors")


def integral(t):
    return t.replace("const ", "").rstrip("&") in ("int", "unsigned int", "long", "unsigned long", "std::size_t", "size_t", "short", "unsigned short")


def counter_did(n):
    n = strip(n, explicit=True)
    if n is not None and n.k in ("MemberExpr", "DeclRefExpr") and counter_name(n.name) and integral(n.type):
        return n
    return None


def is_parse(n):
    return is_call(n) and n.callee and (n.callee.startswith("boost::spirit::classic::") and last(n.callee) == "parse")


def is_err(n):
    return is_call(n) and n.callee == OUTERR


def is_count(n):
    if n.k == "UnaryOperator" and n.op in ("++", "p++"):
        return counter_did(n.ch[0])
    if n.k == "CompoundAssignOperator" and n.op == "+=":
        return counter_did(n.ch[0])
    if n.k == "BinaryOperator" and n.op == "=":
        # count = count + x
        l = counter_did(n.ch[0])
        r = strip(n.ch[1], explicit=True)
        if l is not None and r is not None and r.k == "BinaryOperator" and r.op == "+":
            return l
    return None


class ErrRule(Rule):
    eh = True

    def __init__(self, model):
        Rule.__init__(self, model)
        self.find_interesting(lambda f: any(is_err(n) or is_count(n) is not None or is_parse(n) or n.k == "CXXCatchStmt" for n in f.nodes.values()))
        # the diagnostics printers themselves are the primitive
        self.interesting = {u for u in self.interesting if model.functions[u].q != OUTERR}
        self.nerr = set()
        self.ncount = set()
        self.ncatch = set()

    def track(self, key):
        return ("expect" in key and "==" not in key) or self.monotone(key)

    def monotone(self, key):
        return counter_name(key.rsplit(".", 1)[-1].split("#")[0].split(":")[-1])

    def survives(self, key, call):
        return self.monotone(key)

    def local_root(self, n, ctx):
        """Does the counter die with the current function?"""
        n = strip(n, explicit=True)
        while n is not None and n.k == "MemberExpr":
            n = strip(n.ch[0], explicit=True) if n.ch else None
        if n is None or n.k == "CXXThisExpr":
            # member of the object at hand: resolve through the binding
            if ctx.this and "#" in ctx.this and ctx.up is not None:
                return "up"
            return None
        if n.k == "DeclRefExpr" and n.dk in ("local", "parm"):
            v = ctx.fn.vars().get(n.did)
            if v is None:
                return None
            if v["t"].endswith("&") or v["t"].endswith("*"):
                return None
            return "local"
        return None

    def step(self, n, auto, ctx, st):
        pend, budget, owed = auto
        if is_err(n):
            self.nerr.add(n.where())
            if budget:
                return [(pend, 0, owed)]
            return [(1, 0, owed)]
        c = is_count(n)
        if c is not None:
            self.ncount.add(n.where())
            if n.k == "UnaryOperator":
                amount = True
            else:
                amount = st.value(n.ch[1] if n.k == "CompoundAssignOperator" else n.ch[1])
            if amount is False:
                return None
            loc = self.local_root(c, ctx)
            if loc == "local":
                # counted in a counter owned here
                if n.k == "UnaryOperator" or amount:
                    return [(0, 0 if (pend == 1 or n.k != "UnaryOperator") else 1, 1)]
                return None
            if n.k == "UnaryOperator":
                return [(0, 0 if pend == 1 else 1, owed)]
            if amount:
                return [(0, 0, 0)]
            return None
        return None

    def catch(self, h, auto, ctx):
        self.ncatch.add(h.where())
        if any(b in (h.ext or "") for b in BENIGN_EXC):
            return auto
        return (2, 0, auto[2])

    def opaque(self, n, auto, c, ctx):
        if is_parse(n):
            # semantic actions run by the parser may count errors
            keys = {k for s in flow.relevant_keys(ctx) for k in s if self.monotone(k)}
            out = [(auto, c)]
            if keys:
                c2 = dict(c)
                owed = auto[2]
                for k in keys:
                    c2[k] = True
                out.append(((auto[0], auto[1], max(owed, self.owes(keys, ctx))), c2))
            return out
        return [(auto, c)]

    def owes(self, keys, ctx):
        for k in keys:
            root = k.split(".")[0]
            # a local (non reference) object of the current function
            for did, v in ctx.fn.vars().items():
                if v.get("kind") == "local" and not v["t"].endswith("&") and root.endswith("%s#%s" % (v["name"], did)):
                    return 1
        return 0


def run(model, rep):
    rep.rule("on every path of every function that can report an error (helpers inlined, exceptions followed into "
             "handlers) each error diagnostic and each swallowed exception is matched by a count or by a failing result; "
             "errors counted in a counter that dies with the function are returned; main turns them into a status that cannot wrap to 0; "
             "counters only grow")
    rule = ErrRule(model)
    eng = Engine(rule, model)
    cg = flow.callgraph(model)
    callers = {}
    for a, bs in cg.items():
        for b in bs:
            callers.setdefault(b, set()).add(a)
    mains = model.named("main")
    rep.expect(mains, "no main function")
    rep.expect(any(is_err(n) for f in model.fns() for n in f.nodes.values()), "no error diagnostics")
    roots = [model.functions[u] for u in sorted(rule.interesting)]
    expect_errors = None
    for f in roots:
        if not any(is_err(n) or is_count(n) is not None for n in f.nodes.values()) and \
                not any(t in rule.interesting for t in cg[f.usr]):
            continue
        rs = eng.run(f, (0, 0, 0))
        for r in rs:
            pend, budget, owed = r.auto
            if r.kind == "throw":
                continue
            at = r.node.line if r.node is not None else f.end
            where = "%s:%d" % (f.file, at)
            if f in mains:
                inverted = any(k for k, v in r.conds if v and "expect" in k and "err" in k.lower())
                if pend and r.ret is not True and not inverted:
                    rep.bad("exit status", f.short() + "/uncounted", where,
                            "main can return success on a path on which an error was printed")
                elif owed and not inverted and r.ret is not True:
                    rep.bad("exit status", f.short() + "/lost", where,
                            "main can return success although errors were counted")
                elif inverted and not owed and not pend and r.ret is False and \
                        not any(v for k, v in r.conds if rule.monotone(k)):
                    rep.bad("exit status", f.short() + "/inverted", where,
                            "expect-errors mode returns success without an error")
                else:
                    rep.ok("exit status", "main return at line %d: result %s, errors counted: %s" % (at, r.ret, bool(owed or pend)))
                if (owed or pend) and not inverted and r.node is not None and r.node.ch:
                    e = strip(r.node.ch[0], explicit=True)
                    if not safe_status(e, f):
                        rep.bad("exit status", f.short() + "/wraps", where,
                                "exit status is a raw error count, which the system truncates to 8 bits (256 errors exit 0)")
                continue
            if pend or owed:
                kind = "printed error not counted" if pend else "errors counted in a counter that is dropped"
                if r.ret is True and callers.get(f.usr):
                    rep.ok("result passed to callers", "%s returns failure to its callers" % f.short())
                    continue
                if owed and not pend and r.ret is True:
                    continue
                if callers.get(f.usr) and pend and distinct_failure(rs, r):
                    rep.ok("result passed to callers", "%s returns a distinguished failure" % f.short())
                    continue
                rep.bad("diagnostic counted", f.short() + ("/uncounted" if pend else "/dropped"), where,
                        "%s: a path from %s:%d to line %d leaves a %s" % (f.short(), f.file, f.line, at, kind))
            else:
                rep.ok("paths without uncounted error", n=1)
    # counters only grow
    for f in model.fns():
        for n in f.nodes.values():
            tgt = None
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in flow.ASSIGN_OPS and n.op != "+=":
                tgt = counter_did(n.ch[0])
                if tgt is not None and is_count(n) is not None:
                    tgt = None
            elif n.k == "UnaryOperator" and n.op in ("--", "p--"):
                tgt = counter_did(n.ch[0])
            if tgt is not None:
                rep.bad("counters only grow", "%s/%s reset" % (f.short(), tgt.name), n.where(),
                        "error counter '%s' is overwritten or decreased in %s" % (tgt.name, f.short()))
    rep.ok("counters only grow", "no counter is reset outside construction", n=max(1, len(rule.ncount)))
    # counts returned by functions are not discarded
    counting = set()
    for f in model.fns():
        for n in f.nodes.values():
            if n.k == "ReturnStmt" and n.ch and n.ch[0] is not None:
                e = strip(n.ch[0], explicit=True)
                if counter_did(e) is not None:
                    counting.add(f.usr)
    grew = True
    while grew:
        grew = False
        for f in model.fns():
            if f.usr in counting or not integral(f.d.get("rt", "")):
                continue
            for n in f.nodes.values():
                if n.k == "ReturnStmt" and n.ch and n.ch[0] is not None:
                    e = strip(n.ch[0], explicit=True)
                    if e is not None and is_call(e) and e.usr in counting:
                        counting.add(f.usr)
                        grew = True
    for f in model.fns():
        for n in f.nodes.values():
            if is_call(n) and n.usr in counting and n.usr not in {m.usr for m in mains}:
                p = n.parent
                while p is not None and p.k in ("ExprWithCleanups", "ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr"):
                    p = p.parent
                if p is None or p.k in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "SwitchStmt", "CaseStmt") and not used_as_cond(p, n):
                    rep.bad("count consumed", "%s/%s discarded" % (f.short(), last(n.callee)), n.where(),
                            "the error count returned by %s is discarded in %s" % (last(n.callee), f.short()))
                else:
                    rep.ok("count consumed", "%s uses the count returned by %s" % (f.short(), last(n.callee)))
    rep.extra["error_sites"] = len(rule.nerr)
    rep.extra["count_sites"] = len(rule.ncount)
    rep.extra["handlers"] = len(rule.ncatch)
    rep.extra["functions_analysed"] = len(rule.visited)
    rep.extra["states"] = rule.nstates
    if len(rule.nerr) < 20:
        from .facts import Broken
        raise Broken("only %d error sites analysed" % len(rule.nerr))
    rep.at_least("count consumed", 1)


def used_as_cond(p, n):
    c = p.d.get("cond")
    if not c:
        return False
    return any(x is n for x in p.f.nodes[c].walk())


def distinct_failure(rs, r):
    """Does this result tell the caller about the failure?"""
    if r.ret is None:
        return False
    return any(x.kind == "return" and not x.auto[0] and x.ret is not None and x.ret != r.ret for x in rs) and \
        not any(x.kind == "return" and not x.auto[0] and x.ret == r.ret for x in rs)


def safe_status(e, f):
    if e is None:
        return True
    if e.cv is not None:
        return 0 < e.cv % 256
    if e.k in ("IntegerLiteral",):
        return 0 < e.val % 256
    if e.type == "bool":
        return True
    if e.k == "ConditionalOperator":
        return all(safe_status(strip(x, explicit=True), f) or is_zero(strip(x, explicit=True)) for x in e.ch[1:])
    if e.k == "DeclRefExpr" and e.dk == "local":
        # a variable that only ever holds safe values
        ok = True
        v = f.vars().get(e.did)
        vals = []
        if v and v.get("init"):
            vals.append(f.nodes[v["init"]])
        for n in f.nodes.values():
            if n.k == "CompoundAssignOperator" or (n.k == "UnaryOperator" and n.op in ("++", "p++")):
                t = strip(n.ch[0])
                if t is not None and t.k == "DeclRefExpr" and t.did == e.did:
                    return False
            if n.k == "BinaryOperator" and n.op == "=":
                t = strip(n.ch[0])
                if t is not None and t.k == "DeclRefExpr" and t.did == e.did:
                    vals.append(n.ch[1])
        return bool(vals) and all(safe_status(strip(x, explicit=True), f) or is_zero(strip(x, explicit=True)) for x in vals)
    if is_call(e) and last(e.callee) in ("min",):
        return True
    return False


def is_zero(e):
    return e is not None and (e.cv == 0 or e.k == "IntegerLiteral" and e.val == 0)
