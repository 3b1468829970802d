"""Backward provenance: where can the value of an expression come from?

Flow-insensitive, field-based, interprocedural: every definition of a variable,
parameter, field, global or return value in the whole program contributes.  The
answer over-approximates the origins, so "no origin of kind X" is a proof within
the front end's view of the program (no aliasing through raw memory)."""
from . import flow
from .facts import strip, is_call, CONSTRUCTS, nonconst_ref
from .flow import last, call_args, call_object

ASSIGN = flow.ASSIGN_OPS
# outside functions that only read what they are given by reference
PURE = ("make_pair", "forward", "move", "make_shared", "make_tuple", "tie")


class Prov:
    def __init__(self, model, classify=None, this_flows=False):
        self.model = model
        self.this_flows = this_flows
        self.classify = classify or (lambda f, n, p: None)
        self.defs = {}
        self.owner = {}
        self.params = {}
        for f in model.fns():
            for did in f.vars():
                self.owner.setdefault((f.tu, did), f)
        self._index()

    # -- slots -------------------------------------------------------------
    def var_slot(self, f, did):
        if did in f.vars():
            return ("var", f.usr, did)
        o = self.owner.get((f.tu, did))
        return ("var", o.usr if o else f.usr, did)

    def slot(self, f, n, depth=0):
        """The storage an lvalue expression denotes (or is part of)."""
        n = strip(n, explicit=True)
        if n is None or depth > 30:
            return None
        if n.k == "DeclRefExpr":
            if n.dk in ("parm", "local"):
                return self.var_slot(f, n.did)
            if n.dk in ("enum", "func"):
                return None
            return ("global", n.q)
        if n.k == "MemberExpr":
            if n.dk == "field" and n.q and n.q.startswith("quickbook"):
                return ("field", n.q)
            if n.dk in ("global", "other") and n.q:
                return ("global", n.q)
            return self.slot(f, n.ch[0], depth + 1) if n.ch else None
        if n.k in ("UnaryOperator", "ArraySubscriptExpr"):
            return self.slot(f, n.ch[0], depth + 1)
        if n.k == "CXXOperatorCallExpr" and len(n.ch) > 1:
            return self.slot(f, n.ch[1], depth + 1)
        if is_call(n):
            o = call_object(n)
            if o is not None:
                return self.slot(f, o, depth + 1)
            for p, a in zip(n.pt or (), n.ch[1:]):
                if a is not None and nonconst_ref(p):
                    return self.slot(f, a, depth + 1)
        if n.k in CONSTRUCTS and len(n.kids()) == 1:
            return self.slot(f, n.kids()[0], depth + 1)
        return None

    def _add(self, slot, f, n):
        if slot is not None and n is not None:
            self.defs.setdefault(slot, []).append((f, n))

    def _link(self, slot, other):
        if slot is not None and other is not None and slot != other:
            self.defs.setdefault(slot, []).append((None, other))

    def _index(self):
        m = self.model
        for g in m.globals.values():
            if g.init is not None:
                self._add(("global", g.q), g, g.init)
        for f in m.fns():
            for i in f.d.get("inits", ()):
                e = f.nodes.get(i.get("init"))
                if e is not None and i.get("member"):
                    nm = i["member"]
                    self._add(("field", nm if "::" in nm else "%s::%s" % (f.cls, nm)), f, e)
            for p in f.params:
                pass
            for n in list(f.nodes.values()):
                if n.k == "DeclStmt":
                    for v in n.d.get("vars", ()):
                        if v.get("init"):
                            self._add(self.var_slot(f, v["did"]), f, f.nodes.get(v["init"]))
                            if v.get("t", "").endswith("&"):
                                self._link(self.slot(f, f.nodes.get(v["init"])), self.var_slot(f, v["did"]))
                elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ASSIGN:
                    self._add(self.slot(f, n.ch[0]), f, n.ch[1])
                elif n.k == "ReturnStmt" and n.kids():
                    self._add(("ret", f.usr), f, n.kids()[0])
                elif n.k == "InitListExpr":
                    self._initlist(f, n)
                elif n.k == "CXXForRangeStmt":
                    pass
                elif is_call(n) or n.k in CONSTRUCTS:
                    self._call(f, n)

    def _initlist(self, f, n):
        t = (n.type or "").replace("const ", "").replace("struct ", "").strip()
        for c in self.model.classes.values():
            if c["q"] == t or c["q"].endswith("::" + t):
                for fld, e in zip(c.get("fields", ()), n.ch):
                    if e is not None:
                        self._add(("field", c["q"] + "::" + fld["name"]), f, e)
                return

    def _call(self, f, n):
        obj, args = call_args(n)
        ts = [t for t in self.model.targets(n) if t.body is not None]
        if n.k == "CXXOperatorCallExpr" and obj is None and args:
            # free operators: a << b, a += b
            if n.op in ("<<", "+=", "=", "|=") and len(args) == 2:
                self._add(self.slot(f, args[0]), f, args[1])
        if n.k == "CXXOperatorCallExpr" and n.op in ("=", "+=", "<<", "|=") and obj is not None and args and not ts:
            self._add(self.slot(f, obj), f, args[0])
        elif obj is not None and not n.cm and not n.sm and not ts and last(n.callee or "") not in flow.NON_MUTATING:
            s = self.slot(f, obj)
            for a in args:
                self._add(s, f, a)
        for t in ts:
            ps = t.params
            for p, a in zip(ps, args):
                if a is None:
                    continue
                sl = ("var", t.usr, p["did"])
                self.params.setdefault(sl, []).append((n, f, a))
                if nonconst_ref(p["t"]) or p["t"].rstrip().endswith("*") and not p["t"].lstrip().startswith("const "):
                    self._link(self.slot(f, a), sl)
            if obj is not None:
                self.params.setdefault(("this", t.usr), []).append((n, f, obj))
        if not ts:
            for i, (p, a) in enumerate(zip(n.pt or (), args)):
                if a is None:
                    continue
                out = nonconst_ref(p)
                s = strip(a, explicit=True)
                if s is not None and is_call(s) and last(s.callee or "") in ("back_inserter", "inserter", "front_inserter"):
                    out = True
                if out and last(n.callee or "") not in ("back_inserter", "inserter", "front_inserter", "operator<<", "operator>>") + PURE:
                    sl = self.slot(f, a)
                    for j, b in enumerate(args):
                        if j != i:
                            self._add(sl, f, b)
                    if obj is not None:
                        self._add(sl, f, obj)

    # -- origins -------------------------------------------------------------
    # Work items are (function, node or slot, calls entered): a parameter
    # reached after entering a call is resolved to that call's argument only.
    DEPTH = 6

    def origins(self, f, n, trail=False):
        out = set()
        seen = set()
        st = [(f, n, ())]
        while st:
            f, n, cx = st.pop()
            if f is None:
                self._slot_defs(n, cx, seen, out, st)
                continue
            n = strip(n, explicit=True)
            if n is None or (id(n), cx) in seen:
                continue
            seen.add((id(n), cx))
            c = self.classify(f, n, self)
            if c is not None:
                if isinstance(c, list):
                    st += [(f, x, cx) for x in c]
                else:
                    out.add(c)
                continue
            self._expr(f, n, cx, seen, out, st)
        return out

    def _slot_defs(self, s, cx, seen, out, st):
        if s is None:
            return
        if s[0] in ("field", "global"):
            cx = ()
        if (s, cx) in seen:
            return
        seen.add((s, cx))
        ds = self.defs.get(s, [])
        ps = self.params.get(s, [])
        for f, x in ds:
            st.append((f, x, cx))
        if s[0] in ("var", "this"):
            if cx and any(t.usr == s[1] for t in self.model.targets(cx[-1][1])):
                f0, call = cx[-1]
                for n, f, a in ps:
                    if n is call:
                        st.append((f, a, cx[:-1]))
            else:
                for n, f, a in ps:
                    st.append((f, a, ()))
        if not ds and not ps:
            if s[0] == "var":
                f = self.model.by_usr(s[1])
                v = f.vars().get(s[2]) if f is not None else None
                if v is not None and v.get("kind") == "param":
                    out.add(("param", "%s(%s)" % (f.q, v["name"]), ""))
            elif s[0] != "this":
                out.add(("undefined",) + tuple(map(str, s[1:])))

    def _expr(self, f, n, cx, seen, out, st):
        k = n.k
        if k in ("StringLiteral", "IntegerLiteral", "CharacterLiteral", "FloatingLiteral", "CXXBoolLiteralExpr"):
            out.add(("lit", str(n.str if k == "StringLiteral" else n.val), n.where()))
            return
        if k == "DeclRefExpr":
            if n.dk == "enum":
                out.add(("lit", n.q or "", n.where()))
            elif n.dk != "func":
                s = self.slot(f, n)
                # a local of an enclosing function (captured) has no call context
                st.append((None, s, cx if s is not None and s[0] == "var" and s[1] == f.usr else ()))
            return
        if k == "MemberExpr":
            s = self.slot(f, n)
            if s is not None and s[0] in ("field", "global") and (n.dk != "func"):
                st.append((None, s, ()))
            elif n.ch:
                st.append((f, n.ch[0], cx))
            return
        if k == "CXXThisExpr":
            # members reached through it are slots of their own; what is left
            # is a call of an outside function on the object as a whole
            if self.this_flows:
                st.append((None, ("this", f.usr), cx))
            return
        if k == "LambdaExpr":
            return
        if is_call(n):
            ts = [t for t in self.model.targets(n) if t.body is not None]
            obj, args = call_args(n)
            if ts:
                c2 = (cx + ((f, n),))[-self.DEPTH:]
                if any(c[1] is n for c in cx):
                    c2 = cx            # recursion
                for t in ts:
                    st.append((None, ("ret", t.usr), c2))
                return
            r = [(f, a, cx) for a in args if a is not None]
            if obj is not None:
                r.append((f, obj, cx))
            if not r:
                out.add(("call", n.callee or "?", n.where()))
            st += r
            return
        ch = n.ch[1:] if k == "ConditionalOperator" else n.ch
        st += [(f, c, cx) for c in ch if c is not None]

    def origins_of_field(self, q):
        out = set()
        st = []
        self_seen = set()
        self._slot_defs(("field", q), (), self_seen, out, st)
        for f, n, cx in list(st):
            if f is not None:
                out |= self.origins(f, n)
        return out
