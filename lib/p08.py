"""P08: a lookup that found nothing is never used as if it had found something.

Typestate dataflow: a value that comes from a lookup 'may be absent' until a
branch has compared it; using it before (dereferencing it, taking it as a
position) is a violation.  Whether a function of the repository can return
'absent', and whether it needs its argument to be present, is worked out from
its own code first (fixpoint over the call graph)."""
import re

from . import flow, grammar
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args, call_object

STR = re.compile(r"(^|[ :<])(basic_string|string|basic_string_view|string_view|string_ref|basic_string_ref)\b")
STR_FIND = {"find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"}
ALG = {"find", "find_if", "find_if_not", "lower_bound", "upper_bound", "search", "adjacent_find", "find_first_of", "max_element", "min_element"}
C_NULL = {"strchr", "strrchr", "strstr", "strpbrk", "memchr", "getenv", "setlocale"}
NPOS = {18446744073709551615, -1, 4294967295}
POS_USE = {"substr": (0,), "erase": (0,), "at": (0,), "insert": (0,), "replace": (0,), "remove_prefix": (0,), "remove_suffix": (0,),
           "operator[]": (0,), "compare": (0,)}


def bare(t):
    return re.sub(r"\b(const|volatile)\b ?", "", t or "").rstrip("& ").strip()


def is_ptr(t):
    return bare(t).endswith("*")


def iterish(t):
    b = bare(t)
    if b.endswith("*"):
        return False
    b = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", b)))
    return "iterator" in b.split("<")[0].split("::")[-1] or "iterator" in b.split("<")[0] or "_Node_iterator" in b or "_Rb_tree" in b


def is_string(t):
    return bool(STR.search(bare(t).split("<")[0] if "<" in bare(t) else bare(t)))


def is_npos(n):
    n = strip(n, explicit=True)
    if n is None:
        return False
    if n.k in ("DeclRefExpr", "MemberExpr") and n.name == "npos":
        return True
    return isinstance(n.cv, int) and n.cv in NPOS


def is_null(n):
    n = strip(n, explicit=True)
    return n is not None and (n.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or n.k == "IntegerLiteral" and n.val == 0)


def lookup_kind(n, model, nullable):
    """What a call returns when it finds nothing: 'it', 'npos', 'null' or None."""
    if not is_call(n) or not n.callee:
        return None
    nm = last(n.callee)
    o = call_object(n)
    if o is not None:
        ot = bare(o.type)
        if nm in STR_FIND and (is_string(ot) or is_string(n.callee.rsplit("::", 1)[0])):
            return "npos"
        if nm == "find" and iterish(n.type):
            return "it"
        if nm in ("end", "cend") and not n.ch[1:] and iterish(n.type):
            return "it"
        if nm in ("lower_bound", "upper_bound") and iterish(n.type):
            return "it"
    elif nm in ALG and (n.callee.startswith("std::") or n.callee.startswith("boost::")):
        if "spirit" in n.callee and is_ptr(n.type):
            return "null"
        return "it"
    elif nm in C_NULL and is_ptr(n.type):
        return "null"
    elif n.callee in ("std::end", "boost::end"):
        return "it"
    for t in model.targets(n):
        if t.usr in nullable:
            return nullable[t.usr]
    return None


class Absent(Rule):
    """Automaton: frozenset of (key, kind) of values that may be absent."""
    width = 8

    def __init__(self, model, nullable, needs, fields, facts=None):
        Rule.__init__(self, model)
        self.facts = facts or Facts(model, nullable, needs, fields)
        self.nullable = nullable
        self.needs = needs
        self.fields = fields
        self.returning = False
        self.bad = {}
        self.ret = set()
        self.nuse = set()
        self.nlook = set()
        self.arg_bad = set()     # keys of parameters used unchecked

    def track(self, key):
        return False

    def remember(self, key):
        return True

    def may_inline(self, call, t, ctx):
        return False

    # -- values ------------------------------------------------------------
    def absent(self, n, auto, ctx, st, depth=0):
        """Kind in which the value of n may be absent here, or None."""
        n0 = n
        n = strip(n, explicit=True)
        if n is None or depth > 12:
            return None
        k = n.k
        if k == "ConditionalOperator":
            for c, truth in ((n.ch[1], True), (n.ch[2], False)):
                v = st.value(n.ch[0])
                if v is not None and v != truth:
                    continue
                a = auto - self.refuted(n.ch[0], truth, auto, ctx)
                x = self.absent(c, a, ctx, st, depth + 1)
                if x:
                    return x
            return None
        if k == "BinaryOperator" and n.op == "=":
            return self.absent(n.ch[1], auto, ctx, st, depth + 1)
        if k == "BinaryOperator" and n.op == ",":
            return self.absent(n.ch[1], auto, ctx, st, depth + 1)
        if k in CONSTRUCTS and len([c for c in n.ch if c is not None and c.k != "CXXDefaultArgExpr"]) == 1:
            return self.absent(n.ch[0], auto, ctx, st, depth + 1)
        if is_null(n) and (is_ptr(n.type) or is_ptr(n0.type) or "nullptr" in (n0.type or "")):
            return "null"
        key = ctx.key(n)
        if key is not None:
            for (q, kind) in auto:
                if q == key:
                    return kind
        if is_npos(n) and (n.name == "npos" or "unsigned" in (n0.type or "") or "size_t" in (n0.type or "") or "size_type" in (n0.type or "")):
            return "npos"
        if is_call(n):
            kd = lookup_kind(n, self.model, self.nullable)
            if kd:
                self.nlook.add((ctx.fn.usr, n.id))
                if self.known(n, key, kd, st) or self.always(n, kd, ctx):
                    return None
                return kd
            return None
        if k == "MemberExpr" and n.q in self.fields and is_ptr(n.type) and self.returning:
            if key is not None and ("ok:" + key, "") in auto or st.value(n):
                return None
            return "null"
        return None

    def known(self, n, key, kind, st):
        if kind == "null":
            return st.value(n) is True
        if key is None:
            return False
        for (kk, vv) in st.conds.items():
            if kk.startswith("(") and " == " in kk and vv is False and key in kk and \
                    (".end()" in kk or "k18446744073709551615" in kk or "k-1" in kk or "npos" in kk):
                a, b = kk[1:-1].split(" == ", 1)
                if key in (a, b):
                    return True
        return False

    def always(self, n, kind, ctx):
        """The lookup always finds something, for a reason that is itself
        checked in the source."""
        if kind != "null":
            return False
        k = (ctx.fn.usr, n.id)
        if k not in self.facts.memo:
            self.facts.memo[k] = self.facts.present(n, ctx.fn)
        return self.facts.memo[k]

    # -- branches ----------------------------------------------------------
    def refuted(self, cond, truth, auto, ctx, depth=0):
        """Tokens that are present if cond has this truth value."""
        n = strip(cond, explicit=True)
        if n is None or depth > 8:
            return frozenset()
        if n.k == "UnaryOperator" and n.op == "!":
            return self.refuted(n.ch[0], not truth, auto, ctx, depth + 1)
        if n.k == "CXXOperatorCallExpr" and n.op == "!":
            return self.refuted(n.ch[1], not truth, auto, ctx, depth + 1)
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            if (n.op == "&&") == truth:
                return self.refuted(n.ch[0], truth, auto, ctx, depth + 1) | self.refuted(n.ch[1], truth, auto, ctx, depth + 1)
            return frozenset()
        if n.k == "BinaryOperator" and n.op == ",":
            return self.refuted(n.ch[1], truth, auto, ctx, depth + 1)
        ops = None
        if n.k == "BinaryOperator" and n.op in ("==", "!=", "<", ">", "<=", ">="):
            ops = n.ch[0], n.ch[1]
        elif n.k == "CXXOperatorCallExpr" and n.op in ("==", "!=", "<", ">", "<=", ">=") and len(n.ch) == 3:
            ops = n.ch[1], n.ch[2]
        out = set()
        if ops:
            for a, b in (ops, ops[::-1]):
                x = assigned(a)
                k = ctx.key(x)
                if k is None:
                    continue
                for (q, kind) in auto:
                    if q != k:
                        continue
                    y = strip(b, explicit=True)
                    endish = self.endish(b, kind, ctx)
                    if n.op in ("==", "!="):
                        if endish and (n.op == "!=") == truth:
                            out.add((q, kind))
                        elif not endish and kind in ("npos", "null", "it") and (n.op == "==") == truth:
                            # equal to something that is present
                            yk = ctx.key(y)
                            if kind == "npos" and isinstance(y.cv, int) or not any(yk == q2 for q2, _ in auto) and kind != "it":
                                out.add((q, kind))
                        elif not endish and kind == "it" and (n.op == "!=") == truth:
                            out.add((q, kind))
                    elif kind == "npos":
                        lt = n.op in ("<", "<=")
                        if a is ops[1]:
                            lt = not lt
                        if lt == truth and n.op in ("<", ">", "<=", ">="):
                            out.add((q, kind))
            return frozenset(out)
        x = assigned(n)
        k = ctx.key(x)
        if k is not None and truth:
            for (q, kind) in auto:
                if q == k and kind in ("null", "opt"):
                    out.add((q, kind))
        if n.k == "DeclRefExpr" and n.dk == "local":
            i = flow.stable_init(ctx.fn, n.did)
            if i is None:
                v = ctx.fn.vars().get(n.did)
                if v is not None and v.get("init") and n.did not in flow.mutated(ctx.fn) and bare(v.get("t")) == "bool":
                    i = ctx.fn.nodes.get(v["init"])
            if i is not None:
                out |= self.refuted(i, truth, auto, ctx, depth + 1)
        return frozenset(out)

    def endish(self, b, kind, ctx):
        y = strip(b, explicit=True)
        if y is None:
            return False
        if kind == "npos":
            return is_npos(y)
        if kind == "null":
            return is_null(y)
        if is_call(y) and last(y.callee or "") in ("end", "cend"):
            return True
        return False

    def edge(self, cond, truth, auto, ctx, st):
        out = self.refuted(cond, truth, auto, ctx)
        new = set()
        n = strip(cond, explicit=True)
        # a pointer member found to be set
        self.set_members(n, truth, ctx, new)
        if out or new:
            return [(auto - out) | new]
        return None

    def set_members(self, n, truth, ctx, new, depth=0):
        n = strip(n, explicit=True)
        if n is None or depth > 6:
            return
        if n.k == "UnaryOperator" and n.op == "!":
            return self.set_members(n.ch[0], not truth, ctx, new, depth + 1)
        if n.k == "BinaryOperator" and n.op in ("&&", "||") and (n.op == "&&") == truth:
            self.set_members(n.ch[0], truth, ctx, new, depth + 1)
            self.set_members(n.ch[1], truth, ctx, new, depth + 1)
            return
        if n.k == "BinaryOperator" and n.op in ("==", "!=") and (n.op == "!=") == truth:
            for a, b in ((0, 1), (1, 0)):
                if is_null(n.ch[b]):
                    return self.set_members(n.ch[a], True, ctx, new, depth + 1)
        if truth and n.k == "MemberExpr" and n.q in self.fields:
            k = ctx.key(n)
            if k:
                new.add(("ok:" + k, ""))

    # -- events ------------------------------------------------------------
    def put(self, auto, key, kind):
        a = frozenset(x for x in auto if x[0] != key and x[0] != "ok:" + key and not x[0].startswith("ok:" + key + ".") and
                      not x[0].startswith("ok:*" + key))
        return a | {(key, kind)} if kind else a

    def step(self, n, auto, ctx, st):
        k = n.k
        if k == "DeclStmt":
            a = auto
            for v in n.d.get("vars", ()):
                key = ctx.var_key(v["did"])
                i = ctx.fn.nodes.get(v.get("init"))
                t = v.get("t") or ""
                if t.endswith("&") and not is_ptr(t):
                    continue
                a = self.put(a, key, self.absent(i, auto, ctx, st) if i is not None and holds(t) else None)
            return [a] if a != auto else None
        if k == "ReturnStmt" and n.ch and n.ch[0] is not None:
            # a member that is null at times is what makes an accessor a
            # lookup; how its own class uses it is that class's protocol
            self.returning = True
            kd = self.absent(n.ch[0], auto, ctx, st)
            self.returning = False
            if kd:
                self.ret.add(kd)
            return None
        self.uses(n, auto, ctx, st)
        if k == "BinaryOperator" and n.op == "=" or k == "CXXOperatorCallExpr" and n.op == "=":
            l, r = (n.ch[0], n.ch[1]) if k == "BinaryOperator" else (n.ch[1], n.ch[2])
            key = ctx.key(strip(l, explicit=True))
            if key is None:
                return None
            if holds(l.type) or holds(strip(l, explicit=True).type):
                if is_ptr(l.type) and st.get(key) is True:
                    return [self.put(auto, key, None)]      # the condition that tested r
                return [self.put(auto, key, self.absent(r, auto, ctx, st))]
            return [self.put(auto, key, None)]
        if k in ("CompoundAssignOperator",) or k == "UnaryOperator" and n.op in ("++", "--", "p++", "p--") or \
                k == "CXXOperatorCallExpr" and n.op in ("++", "--", "+=", "-="):
            l = n.ch[1] if k == "CXXOperatorCallExpr" else n.ch[0]
            key = ctx.key(strip(l, explicit=True))
            if key is not None:
                return [self.put(auto, key, None)]
        if is_call(n) or k in CONSTRUCTS:
            obj, args = call_args(n)
            a = auto
            for p, x in zip(n.pt or (), args):
                if x is not None and flow.nonconst_ref(p):
                    key = ctx.key(strip(x, explicit=True))
                    if key is not None:
                        a = self.put(a, key, None)
            return [a] if a != auto else None
        return None

    def use(self, e, n, auto, ctx, st, kinds, how):
        kd = self.absent(e, auto, ctx, st)
        x = strip(e, explicit=True)
        if x is not None and (kd or lookup_ish(x, self)):
            self.nuse.add((ctx.fn.usr, n.id))
        if kd in kinds:
            key = ctx.key(x)
            self.bad.setdefault((n.id, how), (n, x, kd, how, ctx.fn))
            return True
        return False

    def uses(self, n, auto, ctx, st):
        k = n.k
        if k == "UnaryOperator" and n.op == "*":
            self.use(n.ch[0], n, auto, ctx, st, ("it", "null"), "dereferenced")
        elif k == "MemberExpr" and n.arrow and n.ch:
            b = strip(n.ch[0], explicit=True)
            if b is not None and b.k != "CXXThisExpr":
                if is_call(b) and b.k == "CXXOperatorCallExpr" and b.op == "->":
                    return
                self.use(n.ch[0], n, auto, ctx, st, ("it", "null"), "dereferenced")
        elif k == "CXXOperatorCallExpr" and n.op in ("*", "->") and len(n.ch) == 2:
            self.use(n.ch[1], n, auto, ctx, st, ("it", "null"), "dereferenced")
        elif k == "ArraySubscriptExpr":
            self.use(n.ch[0], n, auto, ctx, st, ("null",), "indexed")
            self.use(n.ch[1], n, auto, ctx, st, ("npos",), "used as an index")
        elif k == "CXXOperatorCallExpr" and n.op == "[]":
            self.use(n.ch[2], n, auto, ctx, st, ("npos",), "used as an index")
        elif k == "BinaryOperator" and n.op in ("+", "-") and is_ptr(n.type):
            self.use(n.ch[1], n, auto, ctx, st, ("npos",), "added to a pointer")
        elif k == "CXXOperatorCallExpr" and n.op in ("+", "-", "+=", "-=") and len(n.ch) == 3 and iterish(n.ch[1].type):
            self.use(n.ch[2], n, auto, ctx, st, ("npos",), "added to an iterator")
        if is_call(n) and n.callee:
            nm = last(n.callee)
            obj, args = call_args(n)
            if obj is not None and nm in POS_USE and is_string(obj.type):
                for i in POS_USE[nm]:
                    if i < len(args) and args[i] is not None:
                        self.use(args[i], n, auto, ctx, st, ("npos",), "used as a position")
            if obj is None and nm in ("next", "prev", "advance") and len(args) == 2 and args[1] is not None:
                self.use(args[1], n, auto, ctx, st, ("npos",), "added to an iterator")
            if obj is not None and nm == "erase" and args and args[0] is not None and iterish(args[0].type) and len(args) == 1:
                self.use(args[0], n, auto, ctx, st, ("it",), "erased")
        if k in CONSTRUCTS and len(n.ch) >= 2 and is_string(n.type) and n.ch[1] is not None:
            # (pointer, length): npos or anything taken from it is no length
            l = strip(n.ch[1], explicit=True)
            if l is not None and l.k == "BinaryOperator" and l.op in ("-", "+"):
                l = strip(l.ch[0], explicit=True)
            if is_ptr(n.ch[0].type) and l is not None:
                self.use(l, n, auto, ctx, st, ("npos",), "taken as a length")
        if is_call(n) or k in CONSTRUCTS:
            obj, args = call_args(n)
            for t in self.model.targets(n) if is_call(n) else self.ctor_targets(n):
                nd = self.needs.get(t.usr)
                if not nd:
                    continue
                for i, (kd, where) in nd.items():
                    if i < len(args) and args[i] is not None:
                        self.use(args[i], n, auto, ctx, st, (kd,), "passed to %s, which uses it (%s)" % (t.short(), where))

    def ctor_targets(self, n):
        try:
            return self.model.targets(n)
        except Exception:
            return []


class Facts:
    """Reasons why a lookup in the source cannot fail, each read off the code."""

    def __init__(self, model, nullable, needs, fields):
        self.model, self.nullable, self.needs, self.fields = model, nullable, needs, fields
        self.memo = {}
        self.used = {}
        self._gr = None

    def grammars(self):
        if self._gr is None:
            self._gr = grammar.Grammars(self.model)
        return self._gr

    def present(self, n, fn):
        for why in ("registered", "constant_args", "never_empty", "child"):
            if getattr(self, why)(n, fn):
                self.used[why] = self.used.get(why, 0) + 1
                return True
        return False

    # symbol tables: a literal key the owner's constructor registers
    def registered(self, n, fn):
        if call_object(n) is not None or last(n.callee) != "find":
            return False
        _, args = call_args(n)
        if len(args) != 2:
            return False
        s = strip(args[1], explicit=True)
        t = strip(args[0], explicit=True)
        if s is None or s.k != "StringLiteral" or t is None or t.k != "MemberExpr":
            return False
        cls = t.q.rsplit("::", 1)[0]
        for e in self.grammars().symbols.get(t.q, ()):
            if e[0] == s.str and e[3].q.rsplit("::", 1) == [cls, last(cls)]:
                return True
        return False

    # a callee that only returns 'absent' for other (constant) arguments
    def constant_args(self, n, fn):
        ts = [t for t in self.model.targets(n) if t.usr in self.nullable]
        _, args = call_args(n)
        if len(ts) != 1 or ts[0].cfg is None:
            return False
        t = ts[0]
        c = flow.Ctx(t)
        conds = {}
        for p, a in zip(t.params, args):
            x = strip(a, explicit=True)
            if bare(p["t"]) == "bool" and x is not None and x.k == "CXXBoolLiteralExpr":
                conds[c.var_key(p["did"])] = bool(x.val)
        if not conds:
            return False
        r = Absent(self.model, self.nullable, self.needs, self.fields, self)
        Engine(r, self.model).run(t, frozenset(), conds)
        return not r.ret

    # members and locals that hold a tree with at least one node
    def never_empty(self, n, fn):
        if last(n.callee) != "root":
            return False
        o = strip(call_object(n), explicit=True)
        if o is None:
            return False
        if o.k == "MemberExpr":
            return self.filled_member(o.q)
        if o.k == "DeclRefExpr" and o.dk == "local":
            i = flow_init(fn, o.did)
            i = strip(i, explicit=True) if i is not None else None
            while i is not None and i.k in CONSTRUCTS and i.ch:
                i = strip(i.ch[0], explicit=True)
            return i is not None and is_call(i) and last(i.callee) == "chunk_document" and self.every_document_is_chunked()
        return False

    def filled_member(self, q):
        k = ("member", q)
        if k in self.memo:
            return self.memo[k]
        cls, m = q.rsplit("::", 1)
        ok = False
        ctors = [f for f in self.model.fns() if f.d.get("ctor") and f.cls == cls and not implicit(f)]
        if ctors:
            ok = True
        for f in ctors:
            ini = [f.nodes.get(i.get("init")) for i in f.d.get("inits", ()) or () if i.get("member") == m]
            did = None
            if len(ini) == 1 and ini[0] is not None:
                for x in ini[0].walk():
                    if x.k == "DeclRefExpr" and x.dk == "parm":
                        did = x.did
            pos = [i for i, p in enumerate(f.params) if p["did"] == did]
            if not pos:
                ok = False
                break
            for g in self.model.fns():
                for x in g.nodes.values():
                    if x.k in CONSTRUCTS and f in self.model.targets(x):
                        _, args = call_args(x)
                        a = strip(args[pos[0]], explicit=True) if pos[0] < len(args) else None
                        while a is not None and a.k in CONSTRUCTS and a.ch:
                            a = strip(a.ch[0], explicit=True)
                        if a is None or not is_call(a) or last(a.callee) != "extract":
                            ok = False
        if ok:
            # nothing takes it away again
            for g in self.model.fns():
                for x in g.nodes.values():
                    if is_call(x) and (x.op == "=" or last(x.callee or "") in ("swap", "move", "extract", "release")):
                        for a in ([call_object(x)] if x.op != "=" and call_object(x) is not None else []) + list(x.ch[1:]):
                            a = strip(a, explicit=True)
                            if a is not None and a.k == "MemberExpr" and a.q == q:
                                ok = False
        self.memo[k] = ok
        return ok

    def every_document_is_chunked(self):
        """The root element of a document is a document type, and each document
        type is an element the chunker makes a chunk of."""
        if "chunked" in self.memo:
            return self.memo["chunked"]
        types = set()
        for k, es in self.grammars().symbols.items():
            if k.endswith("::doc_types"):
                types |= {e[0] for e in es}
        chunks = set()
        for f in self.model.fns():
            for x in f.nodes.values():
                if is_call(x) and last(x.callee or "") == "insert" and call_object(x) is not None:
                    o = strip(call_object(x), explicit=True)
                    if o is not None and o.name == "chunk_types":
                        chunks |= {y.str for y in x.walk() if y.k == "StringLiteral"}
        self.memo["chunked"] = bool(types) and None not in types and types <= chunks
        self.doc_types = (len(types), len(chunks))
        return self.memo["chunked"]

    # a node reached through children() has a parent
    def child(self, n, fn):
        if last(n.callee) != "parent":
            return False
        o = strip(call_object(n), explicit=True)
        return o is not None and o.k == "DeclRefExpr" and self.is_child(fn, o.did, 0)

    def is_child(self, fn, did, depth):
        k = ("child", fn.usr, did)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = True          # optimistic: a cycle adds no other source
        ok = True
        srcs = []
        pos = [i for i, p in enumerate(fn.params) if p["did"] == did]
        if pos:
            sites = 0
            for g in self.model.fns():
                for x in g.nodes.values():
                    if is_call(x) and any(t.usr == fn.usr for t in self.model.targets(x)):
                        _, args = call_args(x)
                        sites += 1
                        srcs.append((g, args[pos[0]] if pos[0] < len(args) else None))
            ok = sites > 0
        v = fn.vars().get(did)
        if v is not None and v.get("init"):
            srcs.append((fn, fn.nodes.get(v["init"])))
        for x in fn.nodes.values():
            if x.k == "BinaryOperator" and x.op == "=":
                l = strip(x.ch[0], explicit=True)
                if l is not None and l.k == "DeclRefExpr" and l.did == did:
                    srcs.append((fn, x.ch[1]))
        for g, e in srcs:
            e = strip(e, explicit=True)
            if e is not None and e.k == "DeclRefExpr":
                ok = ok and depth < 6 and self.is_child(g, e.did, depth + 1)
            elif is_call(e) and last(e.callee or "") == "children":
                pass
            elif is_call(e) and last(e.callee or "") in ("next", "prev"):
                b = strip(call_object(e), explicit=True)
                ok = ok and b is not None and b.k == "DeclRefExpr" and depth < 6 and self.is_child(g, b.did, depth + 1)
            else:
                ok = False
        self.memo[k] = ok and bool(srcs)
        return self.memo[k]


def implicit(f):
    """A copy or move constructor: what it holds was in another object."""
    return len(f.params) == 1 and bare(f.params[0]["t"]).rstrip("&").rstrip() .split("::")[-1] == last(f.cls or "")


def flow_init(fn, did):
    v = fn.vars().get(did)
    return fn.nodes.get(v["init"]) if v is not None and v.get("init") else None


def assigned(n):
    n = strip(n, explicit=True)
    while n is not None and n.k == "BinaryOperator" and n.op == "=":
        n = strip(n.ch[0], explicit=True)
    while n is not None and n.k == "CXXOperatorCallExpr" and n.op == "=":
        n = strip(n.ch[1], explicit=True)
    return n


def lookup_ish(x, rule):
    return is_call(x) and lookup_kind(x, rule.model, rule.nullable) is not None or x.k == "MemberExpr" and x.q in rule.fields


def holds(t):
    b = bare(t)
    return is_ptr(t) or iterish(t) or b in ("unsigned long", "std::size_t", "size_t", "unsigned int", "int", "long", "unsigned long long") or \
        b.endswith("size_type") or b.endswith("difference_type") or b == "auto"


def null_fields(model):
    """Pointer members that are null at some time."""
    out = set()
    for f in model.fns():
        for n in f.nodes.values():
            if n.k == "BinaryOperator" and n.op == "=" and is_null(n.ch[1]):
                l = strip(n.ch[0], explicit=True)
                if l is not None and l.k == "MemberExpr" and is_ptr(l.type):
                    out.add(l.q)
        for i in f.d.get("inits", ()) or ():
            e = f.nodes.get(i.get("init"))
            if i.get("member") and e is not None and is_ptr(e.type) and (is_null(e) or e.k == "ImplicitValueInitExpr"):
                out.add(f.q.rsplit("::", 1)[0] + "::" + i["member"])
    return out


def analyse(model):
    fields = null_fields(model)
    nullable, needs = {}, {}
    fns = [f for f in model.fns() if f.cfg is not None]
    rounds = 0
    while rounds < 8:
        rounds += 1
        changed = False
        allbad = {}
        nuse, nlook = set(), set()
        facts = Facts(model, nullable, needs, fields)
        for f in fns:
            r = Absent(model, nullable, needs, fields, facts)
            Engine(r, model).run(f, frozenset())
            allbad[f.usr or id(f)] = r.bad
            nuse |= r.nuse
            nlook |= r.nlook
            rt = bare(f.d.get("ret") or f.d.get("rt") or "")
            for kd in r.ret:
                if f.usr not in nullable:
                    nullable[f.usr] = kd
                    changed = True
            # parameters that must be present
            for i, p in enumerate(f.params):
                if not is_ptr(p["t"]) or p["t"].endswith("&") and False:
                    continue
                if f.usr in needs and i in needs[f.usr]:
                    continue
                r2 = Absent(model, nullable, needs, set(), facts)
                key = flow.Ctx(f).var_key(p["did"])
                Engine(r2, model).run(f, frozenset({(key, "null")}))
                for b in r2.bad.values():
                    x = b[1]
                    if x is not None and x.k == "DeclRefExpr" and x.did == p["did"]:
                        needs.setdefault(f.usr, {})[i] = ("null", b[0].where())
                        changed = True
                        break
        if not changed:
            break
    return nullable, needs, fields, allbad, nuse, nlook, facts


def run(model, rep):
    rep.rule("typestate: the result of a lookup (iterator, position, pointer) is not used before a branch has found it present; "
             "functions that can return 'absent' and arguments that must be present are inferred from the code")
    nullable, needs, fields, allbad, nuse, nlook, facts = analyse(model)
    rep.extra["functions_that_can_return_absent"] = len(nullable)
    rep.extra["arguments_that_must_be_present"] = sum(len(v) for v in needs.values())
    bad = 0
    for u, bs in allbad.items():
        for (n, x, kd, how, f) in bs.values():
            what = {"it": "the end", "npos": "npos", "null": "null"}[kd]
            name = x.name if x is not None and x.name else (last(x.callee or "") + "()" if x is not None and is_call(x) else "a lookup")
            bad += 1
            rep.bad("lookups", "%s/%s" % (f.short(), name), n.where(), "%s can be %s where it is %s in %s" % (name, what, how, f.short()))
    rep.ok("lookups", "uses of lookup results", max(0, len(nuse) - bad))
    rep.at_least("lookups", 1)
    rep.extra["lookups_seen"] = len(nlook)
    rep.extra["uses_seen"] = len(nuse)
    rep.extra["lookups_that_cannot_fail"] = facts.used
    if len(nuse) < 20 or len(nlook) < 60:
        raise Broken("only %d lookups and %d uses recognised" % (len(nlook), len(nuse)))
