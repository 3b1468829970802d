"""Path-sensitive, call-inlining dataflow over the extracted control flow.

A rule is a finite automaton whose state is carried along every path of a
function.  The engine keeps, per program point, the set of (automaton state,
known branch conditions) pairs, so correlated branches (`if (has_title)` twice)
are not mixed up, and it enters repository functions that the rule cares about
with their parameters bound to the caller's expressions, so that code moved into
a helper is judged exactly as if it were still in place."""
from .facts import Broken, strip, is_call, CONSTRUCTS, TRANSPARENT, nonconst_ref

NON_MUTATING = {
    "begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "lower_bound",
    "upper_bound", "equal_range", "at", "front", "back", "operator[]",
    "operator*", "operator->", "get", "str", "data", "c_str", "size", "empty",
    "count", "top", "good", "fail", "base", "root", "first",
}

MAX_STATES = 60000


def last(name):
    """Last component of a qualified name (operators kept whole)."""
    if not name:
        return ""
    i = name.rfind("operator")
    if i >= 0 and (i == 0 or name[i - 1] == ":"):
        return name[i:]
    return name.rsplit("::", 1)[-1]


def call_object(n):
    """The object expression of a member call, or None."""
    if n.k == "CXXMemberCallExpr":
        m = strip(n.ch[0])
        if m is not None and m.k == "MemberExpr" and m.ch:
            return m.ch[0]
    return None


def call_args(n):
    """Argument expressions, parallel to n.pt; and the object (or None)."""
    if n.k == "CXXMemberCallExpr":
        return call_object(n), list(n.ch[1:])
    if n.k == "CXXOperatorCallExpr":
        a = list(n.ch[1:])
        pt = n.pt
        if pt is not None and len(pt) == len(a) - 1:
            return a[0], a[1:]
        return None, a
    if n.k == "CallExpr" or n.k == "UserDefinedLiteral":
        return None, list(n.ch[1:])
    return None, list(n.ch)


ASSIGN_OPS = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}


def mutated(f):
    """Ids of locals/parameters that are changed after initialisation."""
    r = getattr(f, "_mutated", None)
    if r is not None:
        return r
    r = set()

    def mark(n):
        n = strip(n, explicit=True)
        while n is not None and n.k in ("MemberExpr", "ArraySubscriptExpr"):
            n = strip(n.ch[0], explicit=True)
        if n is not None and n.k == "DeclRefExpr" and n.did:
            r.add(n.did)

    for n in f.nodes.values():
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ASSIGN_OPS:
            mark(n.ch[0])
        elif n.k == "UnaryOperator" and n.op in ("++", "--", "p++", "p--", "&"):
            mark(n.ch[0])
        elif is_call(n) or n.k in CONSTRUCTS:
            obj, args = call_args(n)
            if obj is not None and not n.cm and not n.sm and last(n.callee) not in NON_MUTATING:
                mark(obj)
            for p, a in zip(n.pt or (), args):
                if a is not None and nonconst_ref(p):
                    mark(a)
        elif n.k == "LambdaExpr":
            for c in n.caps or ():
                if c.get("ref"):
                    r.add(c["did"])
    f._mutated = r
    return r


class Ctx:
    """One activation of a function during the analysis."""
    __slots__ = ("fn", "env", "this", "up", "call", "depth", "keys", "rel", "cid")

    def __init__(self, fn, env=None, this=None, up=None, call=None):
        self.fn = fn
        self.env = env or {}
        self.this = this
        self.up = up
        self.call = call
        self.depth = up.depth + 1 if up else 0
        self.keys = {}
        self.rel = None
        self.cid = "" if up is None else (fn.usr or fn.q)

    def stack(self):
        c = self
        while c is not None:
            yield c.fn
            c = c.up

    def chain(self):
        return " <- ".join("%s" % c.short() for c in self.stack())

    # -- canonical names of expressions ------------------------------------
    def key(self, n):
        if n is None:
            return None
        k = self.keys.get(n.id, 0)
        if k == 0:
            self.keys[n.id] = None
            k = self._key(n)
            self.keys[n.id] = k
        return k

    def var_key(self, did):
        if did in self.env:
            return self.env[did]
        v = self.fn.vars().get(did)
        if v is not None and v.get("kind") == "local" and v.get("t", "").endswith("&") and v.get("init"):
            k = self.key(self.fn.nodes.get(v["init"]))
            if k is not None:
                return k
        return "%s:%s#%s" % (self.fn.tu, v["name"] if v else "?", did)

    def _key(self, n0):
        n = strip(n0, explicit=True)
        if n is None:
            return None
        k = n.k
        if n.cv is not None:
            return "k%s" % n.cv
        if k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"):
            return "k%s" % n.val
        if k == "StringLiteral":
            return "s" + repr(n.str)
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr":
            return "k0"
        if k == "DeclRefExpr":
            if n.dk in ("parm", "local"):
                return self.var_key(n.did)
            if n.dk == "enum":
                return "k%s" % n.val
            return n.q
        if k == "CXXThisExpr":
            return self.this or "this"
        if k == "MemberExpr":
            if n.dk in ("func", "enum", "global", "other"):
                return n.q if n.dk != "func" else None
            b = self.key(n.ch[0]) if n.ch else None
            return None if b is None else "%s.%s" % (b, n.name)
        if k == "UnaryOperator":
            b = self.key(n.ch[0])
            if b is None:
                return None
            if n.op == "*":
                return "*" + b if not b.startswith("&") else b[1:]
            if n.op == "&":
                return "&" + b if not b.startswith("*") else b[1:]
            if n.op == "!":
                return "!(" + b + ")"
            if n.op == "-":
                return "-(" + b + ")"
            return None
        if k == "BinaryOperator":
            return self.cmp_key(n.op, n.ch[0], n.ch[1])
        if k == "ArraySubscriptExpr":
            a, b = self.key(n.ch[0]), self.key(n.ch[1])
            return None if a is None or b is None else "%s[%s]" % (a, b)
        if k in CONSTRUCTS:
            ks = [self.key(c) for c in n.ch if c is not None and c.k != "CXXDefaultArgExpr"]
            if not ks or any(x is None for x in ks):
                return None
            if len(ks) == 1:
                return ks[0]
            return "%s(%s)" % (n.cls, ",".join(ks))
        if is_call(n):
            nm = last(n.callee)
            obj, args = call_args(n)
            if n.k == "CXXOperatorCallExpr":
                allargs = list(n.ch[1:])
                if n.op in ("*", "->") and len(allargs) == 1:
                    b = self.key(allargs[0])
                    return None if b is None else "*" + b
                if n.op in ("==", "!=", "<", ">", "<=", ">="):
                    return self.cmp_key(n.op, allargs[0], allargs[1])
                if n.op == "!":
                    b = self.key(allargs[0])
                    return None if b is None else "!(" + b + ")"
                if n.op == "[]":
                    a, b = self.key(allargs[0]), self.key(allargs[1])
                    return None if a is None or b is None else "%s[%s]" % (a, b)
                return None
            if obj is not None:
                if nm.startswith("operator ") and not args:
                    return self.key(obj)
                if n.cm or nm in NON_MUTATING:
                    b = self.key(obj)
                    ks = [self.key(a) for a in args]
                    if b is None or any(x is None for x in ks):
                        return None
                    if nm in ("get", "get_ptr"):
                        return b
                    return "%s.%s(%s)" % (b, nm, ",".join(ks))
                return None
            ks = [self.key(a) for a in args]
            if any(x is None for x in ks):
                return None
            for p in n.pt or ():
                if nonconst_ref(p) or p.endswith("&&"):
                    return None
            return "%s(%s)" % (n.callee, ",".join(ks))
        return None

    def cmp_key(self, op, a, b):
        ka, kb = self.key(a), self.key(b)
        if ka is None or kb is None:
            return None
        if op in (">", ">="):
            ka, kb = kb, ka
            op = {">": "<", ">=": "<="}[op]
        if op in ("==", "!=") and (not const_key(kb), kb) < (not const_key(ka), ka):
            ka, kb = kb, ka
        return "(%s %s %s)" % (ka, op, kb)


def const_key(k):
    return len(k) > 1 and k[0] == "k" and k[1:].lstrip("-").isdigit()


def norm(key, truth):
    """Normalise a condition key to a positive form."""
    while key:
        if key.startswith("!(") and key.endswith(")"):
            key, truth = key[2:-1], not truth
            continue
        if key.startswith("(") and key.endswith(")"):
            body = key[1:-1]
            if " != " in body:
                a, b = body.split(" != ", 1)
                key, truth = "(%s == %s)" % (a, b), not truth
                continue
            if " == " in body:
                a, b = body.split(" == ", 1)
                if a == "k0":
                    key, truth = b, not truth
                    continue
                if b == "k0":
                    key, truth = a, not truth
                    continue
            if " <= " in body:
                a, b = body.split(" <= ", 1)
                key, truth = "(%s < %s)" % (b, a), not truth
                continue
        return key, truth
    return key, truth


def const_truth(key):
    if key and key[0] == "k":
        try:
            return int(key[1:]) != 0
        except ValueError:
            return None
    return None


class Result:
    __slots__ = ("kind", "auto", "conds", "ret", "node")

    def __init__(self, kind, auto, conds, ret, node=None):
        self.kind, self.auto, self.conds, self.ret, self.node = kind, auto, conds, ret, node

    def tup(self):
        return (self.kind, self.auto, self.conds, self.ret, self.node.id if self.node is not None else None)


class Rule:
    """Base class: override the hooks."""
    max_depth = 8
    width = 12           # condition sets kept per automaton state and point
    eh = False            # propagate exceptions from calls into handlers

    def __init__(self, model):
        self.model = model
        self.reports = {}
        self.notes = {}
        self.visited = set()
        self.memo = {}
        self.interesting = set()
        self.nstates = 0

    # events ---------------------------------------------------------------
    def step(self, n, auto, ctx, st):
        """n: AST node executed. Return None (unchanged) or iterable of autos.
        `st` gives access to known conditions (st.value(node))."""
        return None

    def dtor(self, elem, auto, ctx, st):
        return None

    def edge(self, cond, truth, auto, ctx, st):
        """Branch taken. Return None (unchanged) or iterable of autos (empty:
        infeasible)."""
        return None

    def case_edge(self, sw, label, auto, ctx, st):
        return None

    # optional: flow_edge(from_block_id, to_block_id, auto, ctx) -> autos
    flow_edge = None

    def may_inline(self, call, target, ctx):
        return target.usr in self.interesting

    def after_call(self, call, target, auto, ret, ctx):
        return auto

    def track(self, key):
        return False

    def arg_key(self, ctx, arg):
        """The canonical name a parameter gets from its argument."""
        return ctx.key(arg)

    def remember(self, key):
        """Facts worth recording although they are tested only once (kept
        while all merged states agree on them)."""
        return False

    def catch(self, handler, auto, ctx):
        return auto

    def merge(self, states):
        """Merge states at one point inside a block (tuples with the automaton
        state first)."""
        return states

    def join(self, table, block, auto):
        """Widen a state that enters a block (table: kept per run of a function)."""
        return auto

    def report(self, where, msg, ctx=None, fn=None):
        key = (where, msg)
        if key not in self.reports:
            self.reports[key] = ctx.chain() if ctx is not None else (fn.short() if fn is not None else "")

    # -- set up --------------------------------------------------------------
    def find_interesting(self, pred):
        """Functions that contain an event (pred(fn)) or may call one."""
        base = {f.usr for f in self.model.fns() if pred(f)}
        cg = callgraph(self.model)
        rev = {}
        for a, bs in cg.items():
            for b in bs:
                rev.setdefault(b, set()).add(a)
        seen = set(base)
        st = list(base)
        while st:
            for p in rev.get(st.pop(), ()):
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        self.interesting = seen
        self.base = base
        return seen


class St:
    """View on the conditions known in one state."""
    __slots__ = ("conds", "ctx")

    def __init__(self, conds, ctx):
        self.conds = conds
        self.ctx = ctx

    def get(self, key):
        if key is None:
            return None
        t = const_truth(key)
        if t is not None:
            return t
        nk, tr = norm(key, True)
        v = self.conds.get(nk)
        if v is None and nk.startswith("(k") and " == " in nk:
            a, b = nk[1:-1].split(" == ", 1)
            if b.startswith("k"):
                v = a == b
            else:
                for (kk, vv) in self.conds.items():
                    if vv and kk.startswith("(k") and kk.endswith(" == " + b + ")") and kk != nk:
                        v = False
                        break
                if v is None and self.conds.get(b) is False:
                    v = False
        elif v is None and nk.startswith("k"):
            v = const_truth(nk)
        if v is None and not nk.startswith("("):
            for (kk, vv) in self.conds.items():
                if vv and kk.startswith("(k") and kk.endswith(" == " + nk + ")"):
                    return (kk[1:-1].split(" == ", 1)[0] != "k0") == tr
        if v is None:
            return None
        return v if tr else not v

    def value(self, n):
        """Truth value of an expression under the known conditions."""
        ctx = self.ctx
        n = strip(n, explicit=True)
        if n is None:
            return None
        if n.cv is not None:
            return n.cv != 0
        if is_call(n):
            v = self.conds.get("#%s:%d" % (ctx.cid, n.id))
            if v is not None:
                return v
        if n.k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"):
            return n.val != 0
        if n.k == "UnaryOperator" and n.op == "!":
            v = self.value(n.ch[0])
            return None if v is None else not v
        if n.k == "CXXOperatorCallExpr" and n.op == "!":
            v = self.value(n.ch[1])
            return None if v is None else not v
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            a, b = self.value(n.ch[0]), self.value(n.ch[1])
            if n.op == "&&":
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a or b:
                return True
            return False if a is False and b is False else None
        if n.k == "BinaryOperator" and n.op == "=":
            return self.value(n.ch[1])
        if n.k == "BinaryOperator" and n.op == ",":
            return self.value(n.ch[1])
        if n.k == "ConditionalOperator":
            c = self.value(n.ch[0])
            a, b = self.value(n.ch[1]), self.value(n.ch[2])
            if c is True:
                return a
            if c is False:
                return b
            return a if a == b else None
        if n.k == "BinaryOperator" and n.op in ("==", "!="):
            # comparing truth values with a known side
            for i in (0, 1):
                o = strip(n.ch[1 - i], explicit=True)
                if o is not None and o.cv == 0 or (o is not None and o.k in ("IntegerLiteral",) and o.val == 0):
                    v = self.value(n.ch[i])
                    if v is not None:
                        return (not v) if n.op == "==" else v
        if is_call(n) or n.k in CONSTRUCTS:
            v = self.conds.get("#%s:%d" % (ctx.cid, n.id))
            if v is not None:
                return v
            if n.callee and last(n.callee).startswith("operator ") and call_object(n) is not None:
                return self.value(call_object(n))
        v = self.get(ctx.key(n))
        if v is not None:
            return v
        if n.k == "DeclRefExpr" and n.dk == "local":
            init = stable_init(ctx.fn, n.did)
            if init is not None:
                return self.value(init)
        return None

    def learn(self, n, truth, conds):
        """Record that expression n has the given truth value."""
        ctx = self.ctx
        n = strip(n, explicit=True)
        if n is None:
            return
        if n.k == "UnaryOperator" and n.op == "!":
            return self.learn(n.ch[0], not truth, conds)
        if n.k == "CXXOperatorCallExpr" and n.op == "!":
            return self.learn(n.ch[1], not truth, conds)
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            if (n.op == "&&") == truth:
                self.learn(n.ch[0], truth, conds)
                self.learn(n.ch[1], truth, conds)
            else:
                # a && b is false: one known true makes the other false
                a = self.value(n.ch[0])
                b = self.value(n.ch[1])
                if a is not None and a != truth:
                    self.learn(n.ch[1], truth, conds)
                elif b is not None and b != truth:
                    self.learn(n.ch[0], truth, conds)
            return
        if n.k == "BinaryOperator" and n.op == "=":
            self.learn(n.ch[0], truth, conds)
            return
        if is_call(n) and n.callee and last(n.callee).startswith("operator ") and call_object(n) is not None:
            return self.learn(call_object(n), truth, conds)
        k = ctx.key(n)
        if k is not None and const_truth(k) is None:
            nk, tr = norm(k, truth)
            conds[nk] = tr
        if is_call(n):
            conds["#%s:%d" % (ctx.cid, n.id)] = truth
        if n.k == "DeclRefExpr" and n.dk == "local":
            init = stable_init(ctx.fn, n.did)
            if init is not None:
                self.learn(init, truth, conds)


def stable_init(f, did):
    """Initialiser of a never reassigned scalar local whose operands are never
    changed either (so it can stand for the condition)."""
    c = getattr(f, "_stable", None)
    if c is None:
        c = f._stable = {}
    if did in c:
        return c[did]
    c[did] = None
    v = f.vars().get(did)
    if v is not None and v.get("kind") == "local" and v.get("scalar") and v.get("init") and did not in mutated(f):
        init = f.nodes.get(v["init"])
        ok = init is not None
        if ok:
            for x in init.walk():
                if x.k == "DeclRefExpr" and x.dk in ("local", "parm") and x.did in mutated(f):
                    ok = False
                    break
                if is_call(x) and not x.cm and last(x.callee) not in NON_MUTATING and x.k == "CXXMemberCallExpr":
                    ok = False
                    break
                if x.k == "CXXThisExpr":
                    ok = False
                    break
        if ok:
            c[did] = init
    return c[did]


def callgraph(model):
    """usr -> set of repo function usrs it may enter directly (calls,
    constructors, destructors of locals, lambdas and function references)."""
    if model._cg is not None:
        return model._cg
    cg = {}
    dt = dtors(model)
    for f in model.fns():
        s = set()
        for n in f.nodes.values():
            if is_call(n) or n.k in CONSTRUCTS:
                for t in model.targets(n):
                    s.add(t.usr)
            elif n.k == "DeclRefExpr" and n.dk == "func" and n.usr in model.functions:
                s.add(n.usr)
            elif n.k == "LambdaExpr" and n.lambda_usr() if False else False:
                pass
            if n.k == "LambdaExpr" and n.d.get("lambda") in model.functions:
                s.add(n.d["lambda"])
        for v in f.vars().values():
            d = dt.get(v.get("t"))
            if d:
                s.add(d.usr)
        cg[f.usr] = s
    model._cg = cg
    return cg


def dtors(model):
    d = getattr(model, "_dtors", None)
    if d is None:
        d = {}
        for f in model.fns():
            if f.d.get("dtor") and f.cls:
                d[f.cls] = f
        model._dtors = d
    return d


def reverse_reach(model, usrs):
    cg = callgraph(model)
    rev = {}
    for a, bs in cg.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    seen = set(usrs)
    st = list(seen)
    while st:
        for p in rev.get(st.pop(), ()):
            if p not in seen:
                seen.add(p)
                st.append(p)
    return seen


def reach(model, usrs):
    cg = callgraph(model)
    seen = set(usrs)
    st = list(seen)
    while st:
        for p in cg.get(st.pop(), ()):
            if p not in seen:
                seen.add(p)
                st.append(p)
    return seen


def atoms(f):
    """Conditions tested in f: node -> list; used to decide what to remember."""
    a = getattr(f, "_atoms", None)
    if a is not None:
        return a
    a = []

    def add(n):
        n = strip(n, explicit=True)
        if n is None:
            return
        if n.k == "UnaryOperator" and n.op == "!":
            return add(n.ch[0])
        if n.k == "CXXOperatorCallExpr" and n.op == "!":
            return add(n.ch[1])
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            add(n.ch[0])
            add(n.ch[1])
            return
        if n.k == "BinaryOperator" and n.op == "=":
            return add(n.ch[0])
        a.append(n)
        if n.k == "DeclRefExpr" and n.dk == "local":
            i = stable_init(f, n.did)
            if i is not None:
                add(i)

    for n in f.nodes.values():
        if n.k in ("IfStmt", "WhileStmt", "DoStmt", "ForStmt", "SwitchStmt"):
            c = n.cond and f.nodes.get(n.cond)
            if c is not None:
                add(c)
                if n.k == "SwitchStmt":
                    add(c)
        elif n.k == "ConditionalOperator":
            add(n.ch[0])
        elif n.k == "ReturnStmt" and n.ch:
            add(n.ch[0])
            add(n.ch[0])
        elif is_call(n) and n.inrepo:
            for p, x in zip(n.pt or (), call_args(n)[1]):
                if p in ("bool", "int", "unsigned int", "const bool") and x is not None:
                    add(x)
    # bool locals initialised from a compound condition remember its parts
    f._atoms = a
    return a


def relevant_keys(ctx):
    if ctx.rel is None:
        cnt = {}
        for n in atoms(ctx.fn):
            k = ctx.key(n)
            if k is None:
                continue
            k, _ = norm(k, True)
            cnt[k] = cnt.get(k, 0) + 1
        rel = {k for k, c in cnt.items() if c >= 2}
        # equality tests against different constants of one expression
        base = {}
        for k, c in cnt.items():
            if k.startswith("(k") and " == " in k:
                b = k[1:-1].split(" == ", 1)[1]
                base.setdefault(b, []).append(k)
        for b, ks in base.items():
            if len(ks) >= 2 or b in cnt:
                rel.update(ks)
                rel.add(b)
        once = set(cnt)
        if ctx.up is not None:
            u = relevant_keys(ctx.up)
            rel |= u[0]
            once |= u[1]
            rel |= (set(cnt) & u[1])
        ctx.rel = (rel, once)
    return ctx.rel


def live_keys(ctx):
    """block id -> condition keys that may still be tested from there on."""
    f = ctx.fn
    cfg = f.cfg
    ats = {}
    for n in atoms(f):
        k = ctx.key(n)
        if k is not None:
            k = norm(k, True)[0]
            ks = ats.setdefault(n.id, set())
            ks.add(k)
            if k.startswith("(k") and " == " in k:
                ks.add(k[1:-1].split(" == ", 1)[1])
    own = {}
    base = {}
    for ks in ats.values():
        for k in ks:
            if k.startswith("(k") and " == " in k:
                base.setdefault(k[1:-1].split(" == ", 1)[1], set()).add(k)
    for b in cfg.blocks.values():
        s = set()
        for e in b.elems:
            if not isinstance(e, dict):
                s |= ats.get(e.id, set())
                if e.k == "DeclRefExpr" and e.dk == "local":
                    i = stable_init(f, e.did)
                    if i is not None:
                        for x in i.walk():
                            s |= ats.get(x.id, set())
        if b.cond is not None:
            for x in b.cond.walk():
                s |= ats.get(x.id, set())
        for k in list(s):
            s |= base.get(k, set())
        own[b.id] = s
    live = dict((b, set(s)) for b, s in own.items())
    ch = True
    order = sorted(cfg.blocks)
    while ch:
        ch = False
        for bid in order:
            b = cfg.blocks[bid]
            l = live[bid]
            n0 = len(l)
            for s in b.succs:
                if s is not None:
                    l |= live[s]
            if len(l) != n0:
                ch = True
    return live


def enclosing_try(n):
    """Handlers that see an exception raised at n (innermost first)."""
    out = []
    c = n
    p = n.parent
    while p is not None:
        if p.k == "CXXTryStmt" and p.ch and p.ch[0] is c:
            out.append(p)
        c, p = p, p.parent
    return out


class Engine:
    def __init__(self, rule, model):
        self.rule = rule
        self.model = model
        self.insts = 0

    def run(self, fn, auto, conds=None, env=None, this=None):
        """Analyse fn as an entry point. Returns list of Result."""
        ctx = Ctx(fn, env, this)
        return self._run(ctx, auto, frozenset((conds or {}).items()))

    def _run(self, ctx, auto, conds):
        f = ctx.fn
        cfg = f.cfg
        rule = self.rule
        rule.visited.add(f.usr)
        if cfg is None:
            return [Result("return", auto, conds, None)]
        handlers = {}
        for b in cfg.blocks.values():
            if b.label is not None and b.label.k == "CXXCatchStmt":
                handlers[b.label.id] = b.id
        seen = {}
        live = live_keys(ctx)
        inherited = None
        if ctx.up is not None:
            u = relevant_keys(ctx.up)
            inherited = u[0] | u[1]
        work = [(cfg.entry, auto, conds)]
        results = {}

        def emit(kind, a, c, ret, node=None):
            r = Result(kind, a, c, ret, node)
            results.setdefault(r.tup(), r)

        joins = {}

        def push(bid, a, c):
            lv = live[bid]
            a = rule.join(joins, bid, a)
            if c:
                c = frozenset(x for x in c if x[0] in lv or x[0][0] == "#" or rule.track(x[0]) or rule.remember(x[0]) or
                              (inherited is not None and x[0] in inherited))
            s = seen.setdefault(bid, {})
            g = (a, frozenset(x for x in c if rule.track(x[0]) or x[0] == Engine.RET))
            have = s.get(g)
            if have is None:
                s[g] = {c}
            elif isinstance(have, frozenset):
                # widened: keep only what all states agree on
                m = have & c
                if m == have:
                    return
                s[g] = m
                c = m
            else:
                if c in have or any(h <= c for h in have):
                    return
                have.add(c)
                if len(have) > rule.width:
                    m = c
                    for h in have:
                        m = m & h
                    s[g] = m
                    c = m
            work.append((bid, a, c))
            rule.nstates += 1

        def raise_from(node, a, c):
            """Exception raised at node."""
            tries = enclosing_try(node) if node is not None else []
            for t in tries:
                allcaught = False
                for h in t.ch[1:]:
                    if h is None:
                        continue
                    hb = handlers.get(h.id)
                    if hb is not None:
                        push(hb, rule.catch(h, a, ctx), c)
                    if h.ext == "...":
                        allcaught = True
                if allcaught:
                    return
            emit("throw", a, c, None, node)

        nproc = 0
        while work:
            bid, a0, c0 = work.pop()
            nproc += 1
            if nproc > MAX_STATES:
                raise Broken("state explosion in %s for %s" % (f.q, type(rule).__name__))
            b = cfg.blocks[bid]
            if bid == cfg.exit:
                emit("return", a0, c0, None)
                continue
            if bid == cfg.entry and f.d.get("ctor"):
                pass
            states = [(a0, dict(c0), None, None)]   # auto, conds, retval, retnode
            threw = False
            for e in b.elems:
                nxt = []
                for (a, c, ret, rn) in states:
                    if isinstance(e, dict):
                        if "dtor" in e:
                            st = St(c, ctx)
                            r = rule.dtor(e, a, ctx, st)
                            for a2 in ((a,) if r is None else r):
                                outs = self._dtor_call(e, a2, c, ctx)
                                for (a3, c3) in outs:
                                    nxt.append((a3, c3, ret, rn))
                        else:
                            st = St(c, ctx)
                            r = rule.dtor(e, a, ctx, st) if False else None
                            nxt.append((a, c, ret, rn))
                        continue
                    for (a2, c2, ret2, rn2) in self._elem(e, a, c, ret, rn, ctx, raise_from):
                        nxt.append((a2, c2, ret2, rn2))
                # dedupe
                if len(nxt) > 1:
                    d = {}
                    for (a, c, ret, rn) in rule.merge(nxt):
                        d[(a, frozenset(c.items()), ret, rn.id if rn is not None else None)] = (a, c, ret, rn)
                    nxt = list(d.values())
                states = nxt
                if not states:
                    break
            lastn = None
            for e in reversed(b.elems):
                if not isinstance(e, dict):
                    lastn = e
                    break
            for (a, c, ret, rn) in states:
                if b.noreturn:
                    continue
                if lastn is not None and lastn.k == "CXXThrowExpr":
                    raise_from(lastn, a, frozenset(c.items()))
                    continue
                if rn is not None:
                    # follow to exit directly, but run destructors on the way
                    pass
                self._branch(b, a, c, ret, rn, ctx, push, emit)
        return list(results.values())

    # return values travel to the exit block inside the conditions
    RET = "#ret"

    def _branch(self, b, a, c, ret, rn, ctx, push, emit):
        rule = self.rule
        if rn is not None:
            c = dict(c)
            c[self.RET] = (ret, rn.id)
        if len(b.succs) == 1:
            if b.succs[0] is not None:
                self._goto(b.succs[0], a, c, ctx, push, emit, b.id)
            return
        if not b.succs:
            return
        if b.tk == "SwitchStmt":
            st = St(c, ctx)
            sw = b.term
            key = ctx.key(b.cond) if b.cond is not None else None
            vals = []
            for s in b.succs:
                lab = ctx.fn.cfg.blocks[s].label if s is not None else None
                vals.append(lab)
            for i, s in enumerate(b.succs):
                if s is None:
                    continue
                lab = vals[i]
                c2 = dict(c)
                if key is not None and lab is not None and lab.k == "CaseStmt":
                    kk = "(k%s == %s)" % (lab.val, key)
                    v = St(c2, ctx).get(kk)
                    if v is False:
                        continue
                    if kk in relevant_keys(ctx)[0] or key in relevant_keys(ctx)[0] or rule.track(kk):
                        c2[kk] = True
                elif key is not None:
                    skip = False
                    for l2 in vals:
                        if l2 is not None and l2.k == "CaseStmt" and St(c2, ctx).get("(k%s == %s)" % (l2.val, key)) is True:
                            skip = True
                    if skip:
                        continue
                r = rule.case_edge(sw, lab, a, ctx, St(c2, ctx))
                for a2 in ((a,) if r is None else r):
                    self._goto(s, a2, c2, ctx, push, emit, b.id)
            return
        if b.tk == "CXXTryStmt" or b.cond is None or len(b.succs) != 2:
            for s in b.succs:
                if s is not None:
                    self._goto(s, a, c, ctx, push, emit, b.id)
            return
        cond = branch_atom(b)
        for i, s in enumerate(b.succs):
            if s is None:
                continue
            truth = i == 0
            st = St(c, ctx)
            v = st.value(cond)
            if v is not None and v != truth:
                continue
            c2 = dict(c)
            tmp = {}
            st.learn(cond, truth, tmp)
            rel = relevant_keys(ctx)[0]
            for k, t in tmp.items():
                if k in rel or rule.track(k) or rule.remember(k) or (k in c2):
                    c2[k] = t
            r = rule.edge(cond, truth, a, ctx, St(c2, ctx))
            for a2 in ((a,) if r is None else r):
                self._goto(s, a2, c2, ctx, push, emit, b.id)

    def _goto(self, s, a, c, ctx, push, emit, src=None):
        if self.rule.flow_edge is not None and src is not None:
            r = self.rule.flow_edge(src, s, a, ctx)
            if r is not None:
                for a2 in r:
                    self._goto(s, a2, c, ctx, push, emit)
                return
        if s == ctx.fn.cfg.exit:
            c = dict(c)
            ret, rid = c.pop(self.RET, (None, None))
            emit("return", a, frozenset(c.items()), ret, ctx.fn.nodes.get(rid) if rid else None)
            return
        push(s, a, frozenset(c.items()))

    def _kill(self, c, key):
        if key is None:
            return
        dead = [k for k in c if k is not self.RET and key in k and k[0] != "#" and k not in self.rule.pinned]
        for k in dead:
            del c[k]

    def _elem(self, n, a, c, ret, rn, ctx, raise_from):
        rule = self.rule
        k = n.k
        # generic condition bookkeeping
        if k in ("DeclStmt",):
            c = dict(c)
            for v in n.d.get("vars", ()):
                if v.get("static"):
                    continue
                vk = "%s:%s#%s" % (ctx.fn.tu, v["name"], v["did"])
                self._kill(c, vk)
                if v.get("init") and v.get("scalar"):
                    self._set(c, vk, ctx.fn.nodes.get(v["init"]), ctx)
        elif k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ASSIGN_OPS:
            lk = ctx.key(n.ch[0])
            c = dict(c)
            val = n.ch[1]
            if n.op == "=":
                st = St(c, ctx)
                v = st.value(val)
                vk = ctx.key(val)
                self._kill(c, lk)
                self._setval(c, lk, v, vk, ctx)
            elif n.op == "+=" and lk is not None and (St(c, ctx).get(lk) is True or St(c, ctx).value(val) is True) and rule.monotone(lk):
                self._kill(c, lk)
                c[lk] = True
            elif n.op == "|=" and lk is not None and St(c, ctx).get(lk) is True:
                pass
            elif lk is not None and n.op == "+=" and rule.monotone(lk) and St(c, ctx).value(val) is False:
                pass
            else:
                self._kill(c, lk)
        elif k == "UnaryOperator" and n.op in ("++", "--", "p++", "p--"):
            lk = ctx.key(n.ch[0])
            c = dict(c)
            self._kill(c, lk)
            if lk is not None and n.op in ("++", "p++") and rule.monotone(lk):
                c[lk] = True
        elif k == "ReturnStmt":
            st = St(c, ctx)
            v = st.value(n.ch[0]) if n.ch and n.ch[0] is not None else None
            c = dict(c)
            r = rule.step(n, a, ctx, st)
            if v is None and rule.fork_returns and ctx.depth and n.ch and n.ch[0] is not None and bare_bool(ctx.fn.d.get("rt")):
                # a helper that answers a question: both answers, each with what it implies
                out = []
                for truth in (True, False):
                    for a2 in ((a,) if r is None else r):
                        e = rule.edge(n.ch[0], truth, a2, ctx, st)
                        for a3 in ((a2,) if e is None else e):
                            out.append((a3, c, truth, n))
                return out
            return [(a2, c, v, n) for a2 in ((a,) if r is None else r)]
        st = St(c, ctx)
        r = rule.step(n, a, ctx, st)
        autos = (a,) if r is None else tuple(r)
        if not (is_call(n) or k in CONSTRUCTS):
            return [(a2, c, ret, rn) for a2 in autos]
        # calls
        out = []
        inl = [t for t in self.model.targets(n)] if not (k in CONSTRUCTS and n.elidable) else []
        inl = [t for t in inl if t.cfg is not None and rule.may_inline(n, t, ctx)
               and t.usr not in [g.usr for g in ctx.stack()] and ctx.depth < rule.max_depth]
        obj, args = call_args(n)
        for a2 in autos:
            if rule.eh and enclosing_try(n):
                raise_from(n, a2, frozenset((kk, vv) for kk, vv in c.items() if kk != self.RET))
            if not inl:
                c2 = dict(c)
                self._call_effects(c2, n, obj, args, ctx)
                for (a3, c3) in rule.opaque(n, a2, c2, ctx):
                    out.append((a3, c3, ret, rn))
                continue
            for t in inl:
                cctx = self._bind(n, t, obj, args, ctx)
                c1 = dict(c)
                self._bind_values(n, t, args, c1, ctx, cctx)
                for res in self._summary(cctx, rule.enter(n, t, args, a2, ctx, cctx), c1):
                    c2 = dict(res.conds)
                    c2.pop(self.RET, None)
                    # forget facts about the callee's own locals
                    for kk in [kk for kk in c2 if kk.startswith("#" + cctx.cid + ":") and cctx.cid]:
                        del c2[kk]
                    if self.RET in c:
                        c2[self.RET] = c[self.RET]
                    if res.kind == "throw":
                        raise_from(n, res.auto, frozenset(c2.items()))
                        continue
                    ck = "#%s:%d" % (ctx.cid, n.id)
                    c2.pop(ck, None)
                    if res.ret is not None:
                        c2[ck] = res.ret
                    a3 = rule.after_call(n, t, res.auto, res.ret, ctx)
                    out.append((a3, c2, ret, rn))
        return out

    def _dtor_call(self, e, a, c, ctx):
        rule = self.rule
        d = dtors(self.model).get(e["t"])
        if d is None or d.usr not in rule.interesting or ctx.depth >= rule.max_depth:
            return [(a, c)]
        if d.usr in [g.usr for g in ctx.stack()]:
            return [(a, c)]
        v = ctx.fn.vars().get(e["dtor"])
        cctx = Ctx(d, {}, "%s:%s#%s" % (ctx.fn.tu, v["name"] if v else "?", e["dtor"]), ctx, None)
        out = []
        keep = c.get(self.RET)
        c1 = dict(c)
        c1.pop(self.RET, None)
        for res in self._summary(cctx, a, c1):
            c2 = dict(res.conds)
            if keep is not None:
                c2[self.RET] = keep
            out.append((res.auto, c2))
        return out

    def _bind(self, n, t, obj, args, ctx):
        env = {}
        mut = mutated(t)
        for p, arg in zip(t.params, args):
            if arg is None:
                continue
            k = self.rule.arg_key(ctx, arg)
            byref = p["t"].endswith("&") or p["t"].endswith("&&")
            if k is not None and (byref or p["did"] not in mut):
                env[p["did"]] = k
        this = None
        if n.k in CONSTRUCTS:
            this = self._constructed(n, ctx)
        elif obj is not None:
            this = ctx.key(obj)
        elif n.k == "CallExpr" and t.d.get("cls") and not t.d.get("smethod"):
            this = ctx.this
        if this is None and t.d.get("cls"):
            this = "obj@%s:%d" % (ctx.fn.tu, n.id)
        return Ctx(t, env, this, ctx, n)

    def _constructed(self, n, ctx):
        p = n.parent
        hops = 0
        while p is not None and p.k in TRANSPARENT and hops < 5:
            p = p.parent
            hops += 1
        if p is not None and p.k == "DeclStmt":
            for v in p.d.get("vars", ()):
                if v.get("init"):
                    i = strip(ctx.fn.nodes.get(v["init"]))
                    if i is n:
                        return "%s:%s#%s" % (ctx.fn.tu, v["name"], v["did"])
        if p is not None and p.k == "CXXNewExpr":
            return "*new@%d" % p.id
        return None

    def _bind_values(self, n, t, args, c, ctx, cctx):
        st = St(c, ctx)
        add = {}
        for p, arg in zip(t.params, args):
            if arg is None or p["did"] in cctx.env:
                continue
            v = st.value(arg)
            pk = cctx.var_key(p["did"])
            self._kill(c, pk)
            if v is not None:
                add[pk] = v
        c.update(add)

    def _summary(self, cctx, a, c):
        c = {k: v for k, v in c.items() if k != self.RET}
        env = tuple(sorted(cctx.env.items(), key=lambda x: x[0]))
        memo = self.rule.memo
        mk = (cctx.fn.usr, env, cctx.this, a, frozenset(c.items()), tuple(g.usr for g in cctx.stack()) if self.rule.ctx_memo else cctx.up.fn.usr if cctx.up else None,
              frozenset(relevant_keys(cctx)[0]) if False else None)
        if mk in memo:
            return memo[mk]
        memo[mk] = []
        r = self._run(cctx, a, frozenset(c.items()))
        # forget facts on the callee's locals; facts on caller expressions stay
        out = {}
        names = ["%s:%s#%s" % (cctx.fn.tu, v["name"], did) for did, v in cctx.fn.vars().items() if did not in cctx.env]
        for res in r:
            cc = frozenset((k, v) for k, v in res.conds if not any(nm in k for nm in names) or k[0] == "#" and k == self.RET)
            x = Result(res.kind, res.auto, cc, res.ret, res.node)
            out.setdefault((x.kind, x.auto, x.conds, x.ret), x)
        memo[mk] = list(out.values())
        return memo[mk]

    def _set(self, c, key, init, ctx):
        if init is None:
            return
        v = St(c, ctx).value(init)
        self._setval(c, key, v, ctx.key(init), ctx)

    def _setval(self, c, key, v, vkey, ctx):
        if key is None:
            return
        if v is not None:
            c[key] = v
        if vkey is not None and vkey[0] == "k" and vkey != "k0" and vkey != "k1":
            c["(%s == %s)" % (vkey, key)] = True
        elif vkey is not None and vkey[0] not in "ks" and self.rule.copies and vkey != key:
            c["(%s == %s)" % ((vkey, key) if vkey < key else (key, vkey))] = True

    def _call_effects(self, c, n, obj, args, ctx):
        c.pop("#%s:%d" % (ctx.cid, n.id), None)
        if n.k in CONSTRUCTS and n.copy:
            return
        nm = last(n.callee)
        if obj is not None and not n.cm and not n.sm and nm not in NON_MUTATING:
            self._kill_member(c, ctx.key(obj), n)
        if n.k == "CXXOperatorCallExpr" and obj is None and n.op in ("=", "++", "--", "+=", "-="):
            self._kill(c, ctx.key(n.ch[1]))
        for p, arg in zip(n.pt or (), args):
            if arg is None:
                continue
            if nonconst_ref(p) or \
                    (p.endswith("*") and strip(arg) is not None and strip(arg).k == "UnaryOperator"):
                k = ctx.key(arg)
                if k is not None and self.rule.survives(k, n):
                    continue
                if k is not None and k[0] == "&":
                    k = k[1:]
                self._kill(c, k)

    def _kill_member(self, c, key, n):
        if key is None or self.rule.survives(key, n):
            return
        self._kill(c, key)


def predicates(model, asks):
    """Short loop-free functions that return whether something holds; asks
    tells whether a node is part of a question the rule understands."""
    out = set()
    for f in model.fns():
        if f.cfg is None or not bare_bool(f.d.get("rt")) or len(f.nodes) > 80:
            continue
        if any(n.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "LambdaExpr") for n in f.nodes.values()):
            continue
        if any(asks(n) for n in f.nodes.values()):
            out.add(f.usr)
    return out


def bare_bool(t):
    return (t or "").replace("const", "").strip() in ("bool", "_Bool")


def branch_atom(b):
    """The operand whose value decides the branch at the end of block b."""
    n = b.cond
    ids = {e.id for e in b.elems if not isinstance(e, dict)}
    while n is not None:
        s = strip(n)
        if s is not None and s.k == "BinaryOperator" and s.op in ("&&", "||"):
            if s.id in ids:
                return n
            if b.term is not None and b.term is s:
                # the block ends with the left operand
                n = s.ch[0]
            else:
                n = s.ch[1]
            continue
        if s is not None and s.k == "UnaryOperator" and s.op == "!" and s.id not in ids:
            # the negation itself was not evaluated here
            return n
        return n
    return n


Rule.enter = lambda self, call, target, args, auto, ctx, cctx: auto   # parameters passed by value
Rule.fork_returns = False
Rule.monotone = lambda self, key: False
Rule.survives = lambda self, key, call: False
Rule.ctx_memo = False
Rule.pinned = frozenset()  # assumed conditions that nothing invalidates
Rule.copies = False       # record `x == y` after `x = y`
Rule.opaque = lambda self, call, auto, conds, ctx: [(auto, conds)]
