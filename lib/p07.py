"""P07: scanners never look past the end of the text.

Typestate of every text iterator (character pointers, string iterators): a
character is read, and the iterator moved forward, only where a comparison has
shown that the iterator is not at the end.  Callees are analysed in the context
of their callers, so that a helper may rely on its caller's test.  Assertions
are not tests."""
import re

from . import flow
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args, call_object
from .p08 import bare, is_string, is_npos, assigned

CHAR = re.compile(r"\b(char|unsigned char|signed char)\b")


def text_iter(t):
    """Is t an iterator over characters?"""
    b = bare(t)
    if b.endswith("*"):
        return bool(re.match(r"^(unsigned |signed )?char\b[^*]*\*$", b.replace("const", "").strip())) or \
            bool(re.match(r"^(unsigned |signed )?char \*$", re.sub(r"\bconst\b ?", "", b)))
    if "__normal_iterator<" in b:
        inner = b.split("__normal_iterator<", 1)[1]
        return bool(re.match(r"^(const )?char\b", inner)) and "string" in inner.split(",", 1)[-1]
    return b in ("std::basic_string<char>::const_iterator", "std::basic_string<char>::iterator", "std::string::const_iterator", "std::string::iterator",
                 "quickbook::string_iterator", "quickbook::glob_iterator", "quickbook::string_view::const_iterator",
                 "boost::basic_string_view<char>::const_iterator")


def compares(n):
    if n.k == "BinaryOperator" and n.op in ("==", "!=", "<", ">", "<=", ">="):
        return n.ch[0], n.ch[1]
    if n.k == "CXXOperatorCallExpr" and n.op in ("==", "!=", "<", ">") and len(n.ch) == 3:
        return n.ch[1], n.ch[2]
    return None


def asks_end(n):
    c = compares(n)
    return bool(c and text_iter(c[0].type) and text_iter(c[1].type)) or asks_size(n)


def asks_size(n):
    c = compares(n)
    if c:
        return any(is_npos(x) or is_call(strip(x, explicit=True)) and last(strip(x, explicit=True).callee or "") in ("size", "length") for x in c if x is not None)
    return is_call(n) and last(n.callee or "") == "empty" and call_object(n) is not None and is_string(call_object(n).type)


class Bounds(Rule):
    width = 10
    fork_returns = True

    def __init__(self, model):
        Rule.__init__(self, model)
        self.bad = {}
        self.good = set()
        self.asks = flow.predicates(model, asks_end)
        self.hot = hot_params(model)
        self.find_interesting(lambda f: any(self.deref(n) is not None for n in f.nodes.values()))
        self.scans = {u for (u, i) in self.hot}
        self.own = {f.usr for f in model.fns() if any(self.deref(n) is not None or self.move(n) is not None for n in f.nodes.values())}
        for f in model.fns():
            if any((t.usr, i) in self.hot for n in f.nodes.values() if is_call(n) or n.k in CONSTRUCTS for t in model.targets(n)
                   for i, a in enumerate(call_args(n)[1]) if a is not None and text_iter(a.type) and strip(a, explicit=True).k != "StringLiteral"):
                self.own.add(f.usr)

    def may_inline(self, call, t, ctx):
        if t.usr in self.asks:
            return True
        if t.usr not in self.scans or self.exempt(t):
            return False
        a = [x for i, x in enumerate(call_args(call)[1]) if x is not None and (t.usr, i) in self.hot]
        return any(strip(x, explicit=True).k != "StringLiteral" for x in a)

    def exempt(self, t):
        return "tst" in (t.cls or "") or "lookback_iterator" in (t.cls or "")

    @staticmethod
    def deref(n):
        """The iterator expression a character is read through."""
        if n.k == "UnaryOperator" and n.op == "*" and text_iter(n.ch[0].type):
            return n.ch[0]
        if n.k == "CXXOperatorCallExpr" and n.op == "*" and len(n.ch) == 2 and text_iter(n.ch[1].type):
            return n.ch[1]
        return None

    @staticmethod
    def move(n):
        """(expression, +1/-1/None) when n moves a text iterator."""
        if n.k == "UnaryOperator" and n.op in ("++", "p++", "--", "p--") and text_iter(n.ch[0].type):
            return n.ch[0], 1 if "+" in n.op else -1
        if n.k == "CXXOperatorCallExpr" and n.op in ("++", "--") and text_iter(n.ch[1].type):
            return n.ch[1], 1 if n.op == "++" else -1
        if n.k == "CompoundAssignOperator" and n.op in ("+=", "-=") and text_iter(n.ch[0].type):
            return n.ch[0], None
        if n.k == "CXXOperatorCallExpr" and n.op in ("+=", "-=") and text_iter(n.ch[1].type):
            return n.ch[1], None
        return None

    # -- state -------------------------------------------------------------
    def fail(self, n, what, key, ctx):
        k = (ctx.fn.short(), what, n.where())
        if k not in self.bad:
            self.bad[k] = (n, key, ctx.chain())

    def is_ok(self, e, auto, ctx, st):
        x = strip(e, explicit=True)
        if x is None:
            return False
        m = self.move(x)
        if m is not None:
            return ("was", ctx.key(strip(m[0], explicit=True))) in auto if x.op == "p++" else \
                ("ok", ctx.key(strip(m[0], explicit=True))) in auto
        if x.k == "BinaryOperator" and x.op == "=" or x.k == "CXXOperatorCallExpr" and x.op == "=":
            return self.is_ok(x.ch[0 if x.k == "BinaryOperator" else 1], auto, ctx, st)
        if is_call(x) and last(x.callee or "") in ("begin", "cbegin") and call_object(x) is not None:
            return ("full", ctx.key(call_object(x))) in auto
        if x.k in CONSTRUCTS and x.ch:
            return self.is_ok(x.ch[0], auto, ctx, st)
        if x.k == "StringLiteral":
            return True
        if x.k == "BinaryOperator" and x.op in ("+", "-") or x.k == "CXXOperatorCallExpr" and x.op in ("+", "-"):
            a, b = (x.ch[0], x.ch[1]) if x.k == "BinaryOperator" else (x.ch[1], x.ch[2])
            if x.op == "-":
                return const(b) == 1 and self.is_ok(a, auto, ctx, st)
            return ("found", ctx.key(strip(b, explicit=True))) in auto or const(b) == 0 and self.is_ok(a, auto, ctx, st)
        if x.k == "ConditionalOperator":
            return self.is_ok(x.ch[1], auto, ctx, st) and self.is_ok(x.ch[2], auto, ctx, st)
        k = ctx.key(x)
        return k is not None and ("ok", k) in auto

    def put(self, auto, key, ok):
        a = frozenset(x for x in auto if x[1] != key)
        return a | {("ok", key)} if ok else a

    def step(self, n, auto, ctx, st):
        d = self.deref(n)
        if d is not None:
            if self.cstring(d, ctx):
                return None
            if self.is_ok(d, auto, ctx, st) or self.terminated(d, ctx):
                self.good.add((ctx.fn.short(), n.where()))
                return None
            k = ctx.key(strip(d, explicit=True))
            self.fail(n, "read", k, ctx)
            return [auto | {("ok", k)}] if k else None
        m = self.move(n)
        if m is not None:
            x = strip(m[0], explicit=True)
            k = ctx.key(x)
            if k is None or self.cstring(x, ctx):
                return None
            if m[1] == 1:
                a = self.put(auto, k, False)
                if ("ok", k) in auto or ("more", k) in auto and self.terminated(x, ctx):
                    self.good.add((ctx.fn.short(), n.where()))
                    return [a | {("was", k)}]
                self.fail(n, "advance", k, ctx)
                return [a]
            return [self.put(auto, k, m[1] == -1)]
        if n.k == "DeclStmt":
            a = auto
            for v in n.d.get("vars", ()):
                if text_iter(v.get("t")) and not (v.get("t") or "").rstrip().endswith("&"):
                    i = ctx.fn.nodes.get(v.get("init"))
                    a = self.put(a, ctx.var_key(v["did"]), i is not None and self.is_ok(i, auto, ctx, st))
            return [a] if a != auto else None
        if n.k == "BinaryOperator" and n.op == "=" or n.k == "CXXOperatorCallExpr" and n.op == "=":
            l, r = (n.ch[0], n.ch[1]) if n.k == "BinaryOperator" else (n.ch[1], n.ch[2])
            if text_iter(l.type):
                return [self.put(auto, ctx.key(strip(l, explicit=True)), self.is_ok(r, auto, ctx, st))]
            return None
        if is_call(n) and not self.inlined(n, ctx):
            obj, args = call_args(n)
            a = auto
            for p, x in zip(n.pt or (), args):
                if x is not None and flow.nonconst_ref(p) and text_iter(p):
                    a = self.put(a, ctx.key(strip(x, explicit=True)), False)
            if obj is not None and not n.cm and is_string(obj.type) and last(n.callee or "") not in ("begin", "end", "size", "data", "empty"):
                k = ctx.key(obj)
                a = frozenset(x for x in a if x != ("full", k))
            return [a] if a != auto else None
        return None

    def inlined(self, n, ctx):
        return any(self.may_inline(n, t, ctx) for t in self.model.targets(n))

    def cstring(self, e, ctx):
        """Text that ends with a null character is read up to and including it."""
        e = strip(e, explicit=True)
        if e is None:
            return False
        if e.k == "BinaryOperator" and e.op == "+":
            return self.cstring(e.ch[0], ctx)
        m = self.move(e)
        if m is not None:
            return self.cstring(m[0], ctx)
        if e.k == "DeclRefExpr":
            if e.dk == "parm":
                if e.did in ctx.env:
                    for p, a in zip(ctx.fn.params, call_args(ctx.call)[1] if ctx.call is not None else ()):
                        if p["did"] == e.did and a is not None:
                            return self.cstring(a, ctx.up)
                if ctx.call is not None:
                    for p, a in zip(ctx.fn.params, call_args(ctx.call)[1]):
                        if p["did"] == e.did and a is not None:
                            return self.cstring(a, ctx.up)
            if e.dk == "local":
                v = ctx.fn.vars().get(e.did)
                i = strip(ctx.fn.nodes.get(v.get("init")), explicit=True) if v and v.get("init") else None
                return i is not None and self.cstring(i, ctx)
        return e.k == "StringLiteral"

    def terminated(self, e, ctx):
        """A C string: a pointer that is tested through its characters only."""
        e = strip(e, explicit=True)
        if e is None or e.k != "DeclRefExpr" or not bare(e.type).endswith("*"):
            return False
        f = ctx.fn
        c = getattr(f, "_cstr", None)
        if c is None:
            c = f._cstr = {}
        if e.did not in c:
            tested = False
            for n in f.nodes.values():
                if n.k == "BinaryOperator" and n.op in ("==", "!=", "<", ">", "<=", ">=", "-"):
                    a, b = strip(n.ch[0], explicit=True), strip(n.ch[1], explicit=True)
                    for x, y in ((a, b), (b, a)):
                        if x is not None and x.k == "DeclRefExpr" and x.did == e.did and y is not None and bare(y.type).endswith("*"):
                            c[e.did] = False
                            return False
                d = self.deref(n)
                if d is not None and strip(d, explicit=True).did == e.did:
                    p = n.parent
                    while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr"):
                        p = p.parent
                    if p is not None and (p.k == "UnaryOperator" and p.op == "!" or p.k in ("ForStmt", "WhileStmt", "IfStmt", "DoStmt")
                                          or p.k == "BinaryOperator" and p.op in ("&&", "||")
                                          or p.k == "BinaryOperator" and p.op in ("==", "!=") and any(const(x) == 0 for x in p.ch)):
                        tested = True
            c[e.did] = tested
        return c[e.did]

    def enter(self, call, t, args, auto, ctx, cctx):
        a = auto
        for p, x in zip(t.params, args):
            if x is None or p["did"] in cctx.env and strip(x, explicit=True).k in ("DeclRefExpr", "MemberExpr"):
                continue
            if text_iter(p["t"]):
                a = self.put(a, cctx.var_key(p["did"]), self.is_ok(x, auto, ctx, None))
        return a

    # -- tests -------------------------------------------------------------
    def edge(self, cond, truth, auto, ctx, st):
        if in_assert(cond):
            return None
        add = set()
        self.tested(cond, truth, auto, ctx, add, 0)
        return [auto | add] if add else None

    def tested(self, n, truth, auto, ctx, add, depth):
        n = strip(n, explicit=True)
        if n is None or depth > 8:
            return
        if n.k == "UnaryOperator" and n.op == "!":
            return self.tested(n.ch[0], not truth, auto, ctx, add, depth + 1)
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            if (n.op == "&&") == truth:
                self.tested(n.ch[0], truth, auto, ctx, add, depth + 1)
                self.tested(n.ch[1], truth, auto, ctx, add, depth + 1)
            return
        ops = None
        if n.k == "BinaryOperator" and n.op in ("==", "!=", "<", ">"):
            ops = n.ch[0], n.ch[1]
        elif n.k == "CXXOperatorCallExpr" and n.op in ("==", "!=", "<", ">") and len(n.ch) == 3:
            ops = n.ch[1], n.ch[2]
        if ops and text_iter(ops[0].type) and text_iter(ops[1].type):
            a, b = ops
            if n.op in ("<", ">"):
                if truth:
                    self.mark(a if n.op == "<" else b, ctx, add)
                return
            if (n.op == "!=") == truth:
                # the one that is not the end
                self.mark(a, ctx, add)
                self.mark(b, ctx, add)
            return
        if n.k == "BinaryOperator" and n.op in ("==", "!=", "<", ">", "<=", ">="):
            for a, b, op in ((n.ch[0], n.ch[1], n.op), (n.ch[1], n.ch[0], MIRROR[n.op])):
                x, y = strip(a, explicit=True), strip(b, explicit=True)
                if x is None or y is None:
                    continue
                if is_npos(y) and op in ("==", "!=", "<") and (op == "==") != truth:
                    k = ctx.key(assigned(x))
                    if k:
                        add.add(("found", k))
                c = const(y)
                if is_call(x) and last(x.callee or "") in ("size", "length") and call_object(x) is not None and c is not None:
                    if (op == ">" and truth or op == "<=" and not truth) and c >= 0 or (op == ">=" and truth or op == "<" and not truth) and c >= 1 or \
                            c == 0 and (op == "!=" and truth or op == "==" and not truth) or c >= 1 and op == "==" and truth:
                        k = ctx.key(call_object(x))
                        if k:
                            add.add(("full", k))
            return
        d = self.deref(n)
        if d is not None:
            # a character that is not the terminator
            if truth:
                k = ctx.key(strip(d, explicit=True))
                if k:
                    add.add(("more", k))
            return
        if is_call(n) and last(n.callee or "") in ("size", "length") and call_object(n) is not None and truth:
            k = ctx.key(call_object(n))
            if k:
                add.add(("full", k))
            return
        if is_call(n) and last(n.callee or "") == "empty" and call_object(n) is not None:
            if not truth:
                k = ctx.key(call_object(n))
                if k:
                    add.add(("full", k))
            return
        if n.k == "DeclRefExpr" and n.dk == "local":
            i = flow.stable_init(ctx.fn, n.did)
            if i is not None:
                self.tested(i, truth, auto, ctx, add, depth + 1)

    def mark(self, e, ctx, add):
        e = strip(e, explicit=True)
        while e is not None:
            m = self.move(e)
            if m is not None and e.op != "p++" and e.op != "p--":
                e = strip(m[0], explicit=True)
            elif e.k == "BinaryOperator" and e.op == "=":
                e = strip(e.ch[0], explicit=True)
            elif e.k == "CXXOperatorCallExpr" and e.op == "=":
                e = strip(e.ch[1], explicit=True)
            else:
                break
        k = ctx.key(e)
        if k:
            add.add(("ok", k))


FIND = re.compile(r"^(r?find|find_(first|last)(_not)?_of)$")
GROW = {"append", "push_back", "reserve", "insert"}


def plain_char_string(t):
    return is_string(t) and "vector" not in bare(t)


class Index(Rule):
    """Characters read by index: a comparison with the size of the text, or the
    result of a successful search, has to cover the index."""
    width = 10
    fork_returns = True

    def __init__(self, model):
        Rule.__init__(self, model)
        self.bad = {}
        self.good = set()
        self.asks = flow.predicates(model, asks_size)
        self.skipped = set()
        self.find_interesting(lambda f: any(self.site(n) for n in f.nodes.values()))
        self.own = {f.usr for f in model.fns() if any(self.site(n) for n in f.nodes.values())}
        self.scans = set()
        for f in model.fns():
            ps = {p["did"] for p in f.params}
            if f.usr in self.own:
                for n in f.nodes.values():
                    s = self.site(n)
                    if s and any(x.k == "DeclRefExpr" and x.did in ps for e in s if e is not None for x in e.walk()):
                        self.scans.add(f.usr)

    def may_inline(self, call, t, ctx):
        return t.usr in self.scans or t.usr in self.asks

    @staticmethod
    def site(n):
        """(text, index) of a character access; index None is the last one."""
        if n.k == "CXXOperatorCallExpr" and n.op == "[]" and len(n.ch) == 3 and plain_char_string(n.ch[1].type):
            return n.ch[1], n.ch[2]
        if is_call(n) and last(n.callee or "") in ("front", "back", "pop_back") and call_object(n) is not None and plain_char_string(call_object(n).type):
            return call_object(n), None
        return None

    # -- index expressions ---------------------------------------------------
    def form(self, e, ctx):
        """(key, offset): an index as a variable plus a constant; key None for
        a constant, ("size", text) for the size of a text."""
        e = strip(e, explicit=True)
        if e is None:
            return None
        c = const(e)
        if c is not None:
            return None, c
        if e.k == "BinaryOperator" and e.op in ("+", "-"):
            a, b = self.form(e.ch[0], ctx), self.form(e.ch[1], ctx)
            if a is None or b is None:
                return None
            if b[0] is None:
                return a[0], a[1] + (b[1] if e.op == "+" else -b[1])
            if a[0] is None and e.op == "+":
                return b[0], a[1] + b[1]
            return None
        if e.k == "UnaryOperator" and e.op in ("++", "--", "p++", "p--"):
            k = ctx.key(strip(e.ch[0], explicit=True))
            if k is None:
                return None
            return k, {"p++": -1, "p--": 1}.get(e.op, 0)
        if e.k == "BinaryOperator" and e.op == "=":
            return self.form(e.ch[0], ctx)
        s = self.size_of(e, ctx)
        if s is not None:
            return ("size", s), 0
        k = ctx.key(e)
        return (k, 0) if k is not None else None

    @staticmethod
    def size_of(e, ctx):
        e = strip(e, explicit=True)
        if e is not None and is_call(e) and last(e.callee or "") in ("size", "length") and call_object(e) is not None:
            return ctx.key(call_object(e))
        return None

    def least(self, auto, s):
        return max([t[2] for t in auto if t[0] == "min" and t[1] == s] or [0])

    def below(self, auto, f, s):
        """The largest d such that form + d <= size(s), or None."""
        k, c = f
        best = None
        if k is None:
            return self.least(auto, s) - c
        if k == ("size", s):
            return -c
        for t in auto:
            if t[0] == "le" and t[1] == k and t[2] == s:
                d = t[3] - c
                best = d if best is None else max(best, d)
        return best

    def enough(self, auto, f, s):
        """Can the index not be negative?"""
        k, c = f
        if c >= 0:
            return True
        if k == ("size", s):
            return self.least(auto, s) >= -c
        return k is not None and any(t[0] == "pos" and t[1] == k and t[2] >= -c for t in auto)

    def drop(self, auto, key):
        return frozenset(t for t in auto if key not in t[1:3])

    def shift(self, auto, key, d):
        """key := key + d"""
        out = set()
        for t in auto:
            if t[0] == "le" and t[1] == key:
                out.add(("le", key, t[2], t[3] - d))
            elif t[0] == "pos" and t[1] == key:
                if t[2] + d > 0:
                    out.add(("pos", key, t[2] + d))
            elif t[0] == "res" and t[1] == key:
                pass
            else:
                out.add(t)
        if d > 0 and not any(t[0] == "pos" and t[1] == key for t in out):
            out.add(("pos", key, d))        # positions are unsigned
        return frozenset(out)

    def assign(self, auto, key, e, ctx):
        e = strip(e, explicit=True)
        if e is not None and e.k == "ConditionalOperator":
            # the arms have been weighed by the branch; keep what holds for both
            a, b = self.assign(auto, key, e.ch[1], ctx), self.assign(self.edge_facts(e.ch[0], False, auto, ctx), key, e.ch[2], ctx)
            arms = []
            for x, truth in ((e.ch[1], True), (e.ch[2], False)):
                arms.append(self.assign(self.edge_facts(e.ch[0], truth, auto, ctx), key, x, ctx))
            return self.meet(arms[0], arms[1], key)
        a = self.drop(auto, key)
        if e is None:
            return a
        if is_call(e) and FIND.match(last(e.callee or "")) and call_object(e) is not None:
            s = ctx.key(call_object(e))
            return a | {("res", key, s)} if s else a
        f = self.form(e, ctx)
        if f is None:
            return a
        if f[0] == key:
            return self.shift(auto, key, f[1])
        if f[0] is None:
            if f[1] > 0:
                return a | {("pos", key, f[1])}
            return a | {("zero", key, None)}
        if isinstance(f[0], tuple):
            s = f[0][1]
            n = self.least(auto, s) + f[1]
            a = a | {("le", key, s, -f[1])}
            return a | {("pos", key, n)} if n > 0 else a
        add = set()
        for t in auto:
            if t[1] == f[0] and t[0] == "le":
                add.add(("le", key, t[2], t[3] - f[1]))
            if t[1] == f[0] and t[0] == "res" and f[1] == 0:
                add.add(("res", key, t[2]))
            if t[1] == f[0] and t[0] == "pos" and t[2] + f[1] > 0:
                add.add(("pos", key, t[2] + f[1]))
            if t[1] == f[0] and t[0] == "zero":
                add.add(("pos", key, f[1]) if f[1] > 0 else ("zero", key, None))
        if f[1] > 0 and not any(t[0] == "pos" for t in add):
            add.add(("pos", key, f[1]))
        return a | add

    def meet(self, a, b, key):
        out = set(t for t in a if t in b)
        for t in a:
            if t[0] == "le" and t[1] == key:
                for u in b:
                    if u[0] == "le" and u[1:3] == t[1:3]:
                        out.add(("le", key, t[2], min(t[3], u[3])))
                if any(u[0] == "zero" and u[1] == key for u in b):
                    out.add(("le", key, t[2], min(0, t[3])))
        for t in b:
            if t[0] == "le" and t[1] == key and any(u[0] == "zero" and u[1] == key for u in a):
                out.add(("le", key, t[2], min(0, t[3])))
        return frozenset(out)

    # -- steps ---------------------------------------------------------------
    def step(self, n, auto, ctx, st):
        a = auto
        s = self.site(n)
        if s is not None:
            self.check(n, s, auto, ctx)
        if n.k == "DeclStmt":
            for v in n.d.get("vars", ()):
                if not (v.get("t") or "").rstrip().endswith("&"):
                    i = ctx.fn.nodes.get(v.get("init"))
                    a = self.assign(a, ctx.var_key(v["did"]), i, ctx) if i is not None else self.drop(a, ctx.var_key(v["did"]))
        elif n.k == "BinaryOperator" and n.op == "=":
            k = ctx.key(strip(n.ch[0], explicit=True))
            if k:
                a = self.assign(a, k, n.ch[1], ctx)
        elif n.k == "UnaryOperator" and n.op in ("++", "p++", "--", "p--"):
            k = ctx.key(strip(n.ch[0], explicit=True))
            if k:
                a = self.shift(a, k, 1 if "+" in n.op else -1)
        elif n.k == "CompoundAssignOperator":
            k = ctx.key(strip(n.ch[0], explicit=True))
            c = const(n.ch[1])
            if k:
                a = self.shift(a, k, c if n.op == "+=" else -c) if c is not None and n.op in ("+=", "-=") else self.drop(a, k)
        elif n.k == "CXXOperatorCallExpr" and n.op in ("=", "+=") and plain_char_string(n.ch[1].type):
            k = ctx.key(n.ch[1])
            if k:
                a = self.grow(a, k, n.ch[2]) if n.op == "+=" else self.drop(a, k)
        elif is_call(n) and not any(self.may_inline(n, t, ctx) for t in self.model.targets(n)):
            obj, args = call_args(n)
            for p, x in zip(n.pt or (), args):
                if x is not None and flow.nonconst_ref(p):
                    k = ctx.key(strip(x, explicit=True))
                    if k:
                        a = self.drop(a, k)
            if obj is not None and not n.cm and plain_char_string(obj.type):
                k = ctx.key(obj)
                nm = last(n.callee or "")
                if k and nm not in ("begin", "end", "data", "operator[]", "find", "front", "back", "at", "rbegin", "rend", "swap_") and not FIND.match(nm):
                    if nm in GROW:
                        a = self.grow(a, k, None)
                    elif nm == "erase" and args and args[0] is not None and not re.search("iterator", args[0].type or "") and \
                            all(x is None or x.k == "CXXDefaultArgExpr" or is_npos(x) for x in args[1:]):
                        # cut at an index: the index is the new size
                        f = self.form(args[0], ctx)
                        keep = {t for t in a if t[0] == "le" and t[2] == k and f is not None and t[1] == f[0] and t[3] >= 0}
                        a = self.drop(a, k)
                        if f is not None and isinstance(f[0], str):
                            a = a | {("le", f[0], k, -f[1])}
                    else:
                        a = self.drop(a, k)
        a = self.norm(a)
        return [a] if a != auto else None

    @staticmethod
    def norm(auto):
        """The strongest fact of each kind, within small constants."""
        best = {}
        for t in auto:
            if t[0] in ("le", "pos", "min"):
                v = t[-1]
                k = t[:-1]
                if v >= -2 if t[0] == "le" else v > 0:
                    best[k] = max(best.get(k, -9), min(v, 6 if t[0] == "min" else 3))
        return frozenset([t for t in auto if t[0] not in ("le", "pos", "min")] + [k + (v,) for k, v in best.items()])

    def grow(self, auto, s, what):
        """Text is added to s; one character when what is a char."""
        one = what is not None and CHAR.search(bare(what.type)) and not bare(what.type).endswith("*") and not is_string(what.type)
        if not one:
            return auto
        out = set()
        for t in auto:
            if t[0] == "le" and t[2] == s:
                out.add(("le", t[1], s, t[3] + 1))
            elif t[0] == "min" and t[1] == s:
                out.add(("min", s, t[2] + 1))
            else:
                out.add(t)
        if not any(t[0] == "min" and t[1] == s for t in out):
            out.add(("min", s, 1))
        return frozenset(out)

    def enter(self, call, t, args, auto, ctx, cctx):
        a = auto
        for p, x in zip(t.params, args):
            if x is None or p["did"] in cctx.env:
                continue
            k = cctx.var_key(p["did"])
            if plain_char_string(p["t"]):
                o = ctx.key(strip(x, explicit=True))
                if o:
                    ren = lambda v: k if v == o else v   # noqa: E731
                    a = self.drop(a, k)
                    a = a | {(u[0], ren(u[1])) + ((ren(u[2]),) if u[0] != "min" else (u[2],)) + u[3:] for u in auto if o in u[1:3]}
            elif not bare(p["t"]).endswith("*"):
                a = self.assign(a, k, x, ctx)
        return a

    def check(self, n, s, auto, ctx):
        o, i = s
        k = ctx.key(o)
        if k is None or is_call(strip(o, explicit=True)):
            self.skipped.add(n.where())     # stored positions: not decided
            return
        view = "view" in bare(o.type)
        p = n.parent
        while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr"):
            p = p.parent
        address = p is not None and p.k == "UnaryOperator" and p.op == "&"
        if i is None:
            f = (("size", k), -1) if last(n.callee) != "front" else (None, 0)
            need = 1
        else:
            f = self.form(i, ctx)
            need = 0 if address or not view else 1
        if f is not None:
            d = self.below(auto, f, k)
            if d is not None and d >= need and self.enough(auto, f, k):
                self.good.add((ctx.fn.short(), n.where()))
                return
            if f[0] is not None and i is not None and written(n):
                return              # a second cursor that follows the first one
            if f[0] is not None and any(t[0] == "zero" and t[1] == f[0] for t in auto) and f[1] == 0 and need == 0:
                self.good.add((ctx.fn.short(), n.where()))
                return
        key = (ctx.fn.short(), n.where())
        if key not in self.bad:
            self.bad[key] = (n, ctx.chain())

    # -- tests ---------------------------------------------------------------
    def edge(self, cond, truth, auto, ctx, st):
        if in_assert(cond):
            return None
        a = self.norm(self.edge_facts(cond, truth, auto, ctx))
        return [a] if a != auto else None

    def edge_facts(self, cond, truth, auto, ctx):
        add = set()
        self.tested(cond, truth, auto, ctx, add, 0)
        return auto | add

    def tested(self, n, truth, auto, ctx, add, depth):
        n = strip(n, explicit=True)
        if n is None or depth > 8:
            return
        if n.k == "UnaryOperator" and n.op == "!":
            return self.tested(n.ch[0], not truth, auto, ctx, add, depth + 1)
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            if (n.op == "&&") == truth:
                self.tested(n.ch[0], truth, auto, ctx, add, depth + 1)
                self.tested(n.ch[1], truth, auto, ctx, add, depth + 1)
            return
        if n.k == "BinaryOperator" and n.op in ("==", "!=", "<", ">", "<=", ">="):
            for a, b, op in ((n.ch[0], n.ch[1], n.op), (n.ch[1], n.ch[0], MIRROR[n.op])):
                if not truth:
                    op = NEG[op]
                self.compare(a, b, op, auto, ctx, add)
            return
        if is_call(n) and last(n.callee or "") == "empty" and call_object(n) is not None and not truth:
            k = ctx.key(call_object(n))
            if k:
                add.add(("min", k, 1))
            return
        s = self.size_of(n, ctx)
        if s is not None and truth:
            add.add(("min", s, 1))
            return
        k = ctx.key(n) if n.k in ("DeclRefExpr", "MemberExpr") else None
        if k and truth and "bool" not in bare(n.type):
            add.add(("pos", k, 1))
        if n.k == "DeclRefExpr" and n.dk == "local":
            i = flow.stable_init(ctx.fn, n.did)
            if i is not None:
                self.tested(i, truth, auto, ctx, add, depth + 1)

    def compare(self, a, b, op, auto, ctx, add):
        """a op b holds."""
        if is_npos(b):
            if op in ("!=", "<"):
                k = ctx.key(assigned(a))
                for t in auto:
                    if k and t[0] == "res" and t[1] == k:
                        add.add(("le", k, t[2], 1))
                        add.add(("min", t[2], 1))
            return
        fa, fb = self.form(a, ctx), self.form(b, ctx)
        if fa is None or fb is None:
            return
        # a < b, a <= b, a != b, a == b with b the size of a text
        if isinstance(fb[0], tuple):
            s, off = fb[0][1], -fb[1]
            if op in ("<", "!=", "<=", "=="):
                d = (1 if op in ("<", "!=") else 0)
                if fa[0] is None:
                    if op in ("<", "<=", "==") or fa[1] == 0:
                        m = fa[1] + d + off
                        if m > 0:
                            add.add(("min", s, m))
                elif isinstance(fa[0], str):
                    # x + c + d <= size - off'
                    add.add(("le", fa[0], s, fa[1] + d + off))
        if isinstance(fb[0], str) and isinstance(fa[0], str) and op in ("<", "<=", "=="):
            # below something that is itself within the text
            for t in auto:
                if t[0] == "le" and t[1] == fb[0]:
                    add.add(("le", fa[0], t[2], fa[1] - fb[1] + t[3] + (1 if op == "<" else 0)))
        if isinstance(fa[0], str) and fb[0] is None:
            c = fb[1] - fa[1]
            m = {">": c + 1, ">=": c, "==": c, "!=": 1 if c == 0 else 0}.get(op, 0)
            if m > 0:
                add.add(("pos", fa[0], m))


def written(n):
    """Is the character assigned to?"""
    p, c = n.parent, n
    while p is not None and p.k in ("ParenExpr",):
        p, c = p.parent, p
    return p is not None and p.k == "BinaryOperator" and p.op == "=" and p.ch[0] is c


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def hot_params(model):
    """(function, parameter index) of text iterators that the function reads
    through, itself or in what it calls."""
    hot = set()
    per = []
    for f in model.fns():
        idx = {p["did"]: i for i, p in enumerate(f.params) if text_iter(p["t"])}
        if not idx or f.cfg is None:
            continue
        copies = {}
        base = set()
        passes = []

        def vars_of(e):
            e = strip(e, explicit=True)
            if e is None:
                return set()
            if e.k == "DeclRefExpr":
                return {e.did}
            if e.k in ("UnaryOperator", "BinaryOperator", "ConditionalOperator", "CXXOperatorCallExpr") or e.k in CONSTRUCTS:
                out = set()
                for c in e.ch:
                    if c is not None and text_iter(c.type):
                        out |= vars_of(c)
                return out
            return set()
        for n in f.nodes.values():
            d = Bounds.deref(n)
            m = Bounds.move(n)
            if d is not None:
                base |= vars_of(d)
            elif m is not None:
                base |= vars_of(m[0])
            elif n.k == "DeclStmt":
                for v in n.d.get("vars", ()):
                    if text_iter(v.get("t")) and v.get("init"):
                        for w in vars_of(f.nodes.get(v["init"])):
                            copies.setdefault(v["did"], set()).add(w)
            elif n.k == "BinaryOperator" and n.op == "=" or n.k == "CXXOperatorCallExpr" and n.op == "=":
                l, r = (n.ch[0], n.ch[1]) if n.k == "BinaryOperator" else (n.ch[1], n.ch[2])
                for a in vars_of(l):
                    copies.setdefault(a, set()).update(vars_of(r))
            if is_call(n) or n.k in CONSTRUCTS:
                for t in model.targets(n):
                    for i, a in enumerate(call_args(n)[1]):
                        if a is not None and text_iter(a.type):
                            for w in vars_of(a):
                                passes.append((w, t.usr, i))
        per.append((f, idx, base, copies, passes))
    more = True
    while more:
        more = False
        for f, idx, base, copies, passes in per:
            h = set(base)
            h |= {w for (w, u, i) in passes if (u, i) in hot}
            st = list(h)
            while st:
                for w in copies.get(st.pop(), ()):
                    if w not in h:
                        h.add(w)
                        st.append(w)
            for did, i in idx.items():
                if did in h and (f.usr, i) not in hot:
                    hot.add((f.usr, i))
                    more = True
    return hot


MIRROR = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


def const(n):
    n = strip(n, explicit=True)
    if n is None:
        return None
    if isinstance(n.cv, int):
        return n.cv
    return n.val if n.k == "IntegerLiteral" else None


def in_assert(n):
    p = n.parent
    for _ in range(12):
        if p is None:
            return False
        if p.k == "ConditionalOperator":
            return any(is_call(x) and (x.callee or "").endswith("assert_fail") or is_call(x) and "assertion_failed" in (x.callee or "") for x in p.walk())
        if p.k in ("IfStmt", "CompoundStmt"):
            return False
        p = p.parent
    return False


def roots(model, rule):
    cg = flow.callgraph(model)
    called = set()
    for a, bs in cg.items():
        called |= {b for b in bs if b != a}
    out = []
    for f in model.fns():
        if f.usr in rule.own and f.cfg is not None and not rule.exempt(f):
            callers = [g for g in model.fns() if g.usr != f.usr and f.usr in cg.get(g.usr, ())]
            if f.usr not in rule.scans or not any(g.usr in rule.own and not rule.exempt(g) for g in callers):
                out.append(f)
    return out


def index_roots(model, rule):
    cg = flow.callgraph(model)
    out = []
    for f in model.fns():
        if f.usr in rule.own and f.cfg is not None:
            if f.usr not in rule.scans or not any(f.usr in cg.get(g.usr, ()) for g in model.fns() if g.usr != f.usr):
                out.append(f)
            else:
                out += [g for g in model.fns() if g.usr != f.usr and f.usr in cg.get(g.usr, ()) and g.cfg is not None]
    seen = {}
    for f in out:
        seen[f.usr] = f
    return list(seen.values())


def scan(eng, fns):
    """Analyse all of them; what could not be analysed is reported at the end."""
    broken = None
    for f in fns:
        try:
            eng.run(f, frozenset())
        except Broken as e:
            broken = e
    return broken


def run(model, rep):
    rep.rule("typestate of text iterators: read or advanced only where shown not to be at the end, callees in the context of their callers; "
             "index facts (below the size, at least so long, search result tested) at every character read by index")
    rule = Bounds(model)
    eng = Engine(rule, model)
    broken = scan(eng, roots(model, rule))
    for (fn, what, where), (n, key, chain) in sorted(rule.bad.items()):
        rep.bad("reads", "%s/%s" % (fn, what), where, "%s: a character is %s without a test that the end has not been reached (%s)" % (fn, "read" if what == "read" else "skipped", chain))
    rep.ok("reads", "reads and advances", len(rule.good))

    idx = Index(model)
    eng = Engine(idx, model)
    broken = broken or scan(eng, index_roots(model, idx))
    for (fn, where), (n, chain) in sorted(idx.bad.items()):
        rep.bad("index", "%s/index" % fn, where, "%s: a character is read by index without a test that covers the index (%s)" % (fn, chain))
    rep.ok("index", "characters read by index", len(idx.good))
    if broken is not None:
        raise broken
    rep.at_least("reads", 80)
    rep.at_least("index", 12)
