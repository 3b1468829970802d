"""P10: settings scoped to a file, template or block are restored afterwards.

The state of a conversion is read out of the program: every field of
quickbook::state, of the main grammar's local state, and the language version.
An abstract interpreter carries, for every field that is not known to have the
value it had at the start, which value it has instead (that of another place
it was saved in, a constant, something written, something a nested parse may
have written) and the depth of every stack relative to the start.

 * Every semantic action and every start/success/failure/cleanup quadruple of
   a scoped parser is interpreted with its callees inlined, over all paths.
 * The grammar is then interpreted over these: sequences run their parts in
   order, an alternative that fails after a part has matched leaves what that
   part's actions did, a scoped parser runs its quadruple around its content,
   a rule contributes what it was found to leave changed (least fixpoint).
 * A nested parse inside an action (a template body, an included file) changes
   what the rules it starts from leave changed.

Judged: what every rule leaves changed, and what the functions that open a
scope for a file or template leave changed, is only what is meant to
accumulate.
"""
from .facts import strip, is_call, Broken
from .flow import Engine, Ctx, Rule, call_args, last, reverse_reach, CONSTRUCTS, ASSIGN_OPS, const_key
from . import grammar, p05, p14

PUSH = {"push", "push_back", "save"}
POP = {"pop", "pop_back", "restore"}
# what a parse may leave changed: the document's own accumulating state, and
# the parse's result registers
ACCUMULATE = {
    "S.order_pos": "numbers only grow",
    "S.error_count": "counts the whole run",
    "S.warned_about_breaks": "warn once per run",
    "S.document": "the document tree",
    "S.callouts": "collected for the whole of a code block",
    "S.dependencies": "collected for the whole run",
    "S.source_mode_next": "applies to what comes next",
    "S.source_mode_next_pos": "applies to what comes next",
    "S.out": "the output itself", "S.phrase": "the output itself",
    "S.values": "values handed to the next action",
    "S.grammar_": "",
    "L.block_type": "result of the indentation check that precedes its use",
    "L.info": "result of the element lookup that precedes its use",
    "L.element_type": "result of the element that precedes its use",
    "L.mark": "delimiter of the markup that is being parsed",
    "L.list_stack": "depth is judged separately",
}
# lists that collect for what follows: being added to or used up is their
# purpose, being exchanged for another is not
INPLACE = {"S.anchors"}
# what a document, file or template may change for the rest of its own scope
SCOPED = {"S.macro", "S.templates", "S.source_mode"}
STACK_TYPES = ("quickbook::collector", "quickbook::template_stack", "std::stack<", "quickbook::value_builder")
LISTS = ("S.out", "S.phrase", "S.in_list_save", "S.tagged_source_mode_stack")
PAIRS = (("start_file", "end_file"), ("start_file_with_docinfo", "end_file"))
VERSION = "quickbook::qbk_version_n"


def bare(t):
    t = (t or "").replace("const ", "").strip()
    while t.endswith(("&", "*", " ")):
        t = t[:-1]
    return t


class Interp(Rule):
    max_depth = 10
    width = 4
    copies = False
    # a call in a try block may throw: what it changed is taken to be undone by
    # the destructors that run (the functions called are judged on their own)
    eh = True

    def __init__(self, model, nested, ptr_field=None, version=None, assume=None, summary=None):
        Rule.__init__(self, model)
        self.summary = summary          # fn -> set of outcomes, or None to inline it
        self.nested = nested            # node, fn -> set of locations a nested parse changes
        self.ptr_field = ptr_field      # what (l.*ptr) is in the current scoped parser
        self.version = version
        self.assume = assume              # parameter name -> enumerator name
        self.interesting = relevant_functions(model)
        self.popped = popped_fields(model)
        self.bad = []

    # -- locations ---------------------------------------------------------
    def loc(self, n, ctx):
        n = strip(n, explicit=True)
        if n is None:
            return None
        if n.k == "DeclRefExpr" and n.q == VERSION:
            return "V"
        if n.k == "MemberExpr" and n.dk == "field":
            q = n.q or ""
            if q.startswith("quickbook::state::"):
                return "S." + n.name
            if q.startswith("quickbook::main_grammar_local::"):
                return "L." + n.name
            if bare(n.type) == "quickbook::value_builder":
                return "B"
            if q.startswith(("quickbook::value_parser::", "quickbook::document_state::")):
                return None
            k = ctx.key(n)
            return "M:" + k if k else None
        if n.k == "BinaryOperator" and n.op in (".*", "->*"):
            return self.ptr_field or "P"
        if n.k == "DeclRefExpr" and n.dk in ("local", "parm"):
            k = ctx.key(n)
            if k is None:
                return None
            # a reference to a tracked place
            for v in (ctx.fn.vars().get(n.did),):
                if v is not None and v.get("kind") == "local" and (v.get("t") or "").endswith("&") and v.get("init"):
                    return self.loc(ctx.fn.nodes.get(v["init"]), ctx)
            x, p = ctx, n
            if n.dk == "parm":
                l = self.param_loc(n, ctx)
                if l is not None:
                    return l
            return "M:" + k
        if n.k in CONSTRUCTS and len([c for c in n.ch if c is not None and c.k != "CXXDefaultArgExpr"]) == 1:
            return self.loc([c for c in n.ch if c is not None][0], ctx)
        if is_call(n) and last(n.callee) in ("move", "forward", "ref") and n.ch:
            o, a = call_args(n)
            return self.loc(a[0], ctx) if a else None
        return None

    def param_loc(self, n, ctx):
        """The caller's place a reference parameter is bound to."""
        if ctx.up is None or ctx.call is None:
            return None
        for p, arg in zip(ctx.fn.params, call_args(ctx.call)[1]):
            if p["did"] == n.did and p["t"].endswith("&") and arg is not None:
                return self.loc(arg, ctx.up)
        return None

    def is_stack(self, loc, n):
        if loc is None:
            return False
        if loc == "B":
            return True
        if loc[0] == "M":
            return False
        t = bare(strip(n, explicit=True).type)
        if t.startswith(STACK_TYPES):
            return True
        q = strip(n, explicit=True).q
        return q in self.popped

    # -- values --------------------------------------------------------------
    def get(self, d, loc):
        return d.get(loc, ("o", loc, 0))

    def eval(self, n, d, ctx):
        n = strip(n, explicit=True)
        if n is None:
            return "w"
        if n.cv is not None:
            try:
                return ("c", int(n.cv))
            except (TypeError, ValueError):
                pass
        if n.k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"):
            return ("c", int(n.val))
        if n.k == "DeclRefExpr" and n.dk == "enum":
            return ("c", int(n.val))
        if n.k == "ConditionalOperator":
            c = self.truth(n.ch[0], d, ctx)
            if c is None:
                a, b = self.eval(n.ch[1], d, ctx), self.eval(n.ch[2], d, ctx)
                return a if a == b else "w"
            return self.eval(n.ch[1] if c else n.ch[2], d, ctx)
        if n.k == "UnaryOperator" and n.op == "!":
            t = self.truth(n.ch[0], d, ctx)
            return "w" if t is None else ("c", int(not t))
        if n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">=", "==", "!=", "&", "|", "+", "&&", "||", "-"):
            if n.op in ("==", "!="):
                e = self.enum_test(n, ctx)
                if e is not None:
                    return ("c", int(e == (n.op == "==")))
            if n.op in ("&&", "||"):
                a, b = self.truth(n.ch[0], d, ctx), self.truth(n.ch[1], d, ctx)
                stop = n.op == "||"
                if a is stop or b is stop:
                    return ("c", int(stop))
                return "w" if a is None or b is None else ("c", int(not stop))
            if n.op in ("==", "!="):
                k = self.kind_test(n, d, ctx)
                if k is not None:
                    return "w" if k[1] is None else ("c", int((k[1] == "syn") == (n.op == "==")))
            a, b = self.num(n.ch[0], d, ctx), self.num(n.ch[1], d, ctx)
            if a[0] == "c" and b[0] == "c":
                x, y = a[1], b[1]
                return ("c", int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y,
                                  "&": x & y, "|": x | y, "+": x + y, "-": x - y, "&&": bool(x and y), "||": bool(x or y)}[n.op]))
            if n.op == "&" and a[0] == "o" and b[0] == "c" and ("b", "%s&%d" % (a[1], b[1])) in d:
                return ("c", int(d[("b", "%s&%d" % (a[1], b[1]))]))
            if n.op == "&" and (a == ("c", 0) or b == ("c", 0)):
                return ("c", 0)
            if n.op in ("+", "-") and a[0] == "o" and b[0] == "c":
                return ("o", a[1], a[2] + (b[1] if n.op == "+" else -b[1]))
            return "w"
        if is_call(n):
            o, a = call_args(n)
            nm = last(n.callee)
            if o is not None and nm in ("top", "back") and not a:
                l = self.loc(o, ctx)
                if l == "L.list_stack":
                    return ("item", d.get("topkind"))
                if self.is_stack(l, o):
                    tops = d.get(("^", l), ())
                    return tops[-1] if tops else ("below", l)
            if o is not None and nm.startswith("operator ") and not a:
                return self.eval(o, d, ctx)
            return self.helper(n, d, ctx)
        if n.k == "DeclRefExpr" and n.dk == "parm":
            k = ctx.key(n)
            if k is not None and const_key(k):
                return ("c", int(k[1:]))
        if bare(n.type) == "quickbook::list_stack_item" or (n.type or "").endswith("list_stack_item"):
            k = self.item_kind(n, d, ctx)
            return ("item", k)
        l = self.loc(n, ctx)
        if l is None:
            return "w"
        return self.get(d, l)

    def helper(self, n, d, ctx):
        """What a small function that only computes a value answers."""
        ts = [t for t in self.model.targets(n) if t.cfg is not None]
        if len(ts) != 1 or len(ts[0].nodes) > 120 or ts[0].usr in self.interesting or ctx.depth > 8 or ts[0].body is None:
            return "w"
        t = ts[0]
        cctx = Ctx(t, {}, "this", ctx, n)
        r = self.body(t.body, d, cctx)
        return r if r is not None and r != "?" else "w"

    def body(self, s, d, ctx):
        """The value a statement returns, None if it goes on, '?' if unknown."""
        if s is None:
            return None
        if s.k == "CompoundStmt":
            for c in s.ch:
                r = self.body(c, d, ctx)
                if r is not None:
                    return r
            return None
        if s.k == "ReturnStmt":
            return self.eval(s.ch[0], d, ctx) if s.ch else "?"
        if s.k == "IfStmt":
            c = [x for x in s.ch if x is not None]
            t = self.truth(c[0], d, ctx)
            if t is None:
                return "?"
            return self.body(c[1], d, ctx) if t else self.body(c[2], d, ctx) if len(c) > 2 else None
        if s.k in ("NullStmt", "ParenExpr", "ConditionalOperator", "CStyleCastExpr"):
            return None
        return "?"

    def case_edge(self, sw, label, auto, ctx, st):
        # a switch over the assumed parameter
        if not self.assume:
            return None
        c = [x for x in sw.ch if x is not None]
        x = c[0] if c else None
        x = strip(x, explicit=True)
        r = self.root_param(x, ctx) if x is not None else None
        if r not in self.assume:
            return None
        names = [last(e.q) for e in label.walk() if e.k == "DeclRefExpr" and e.dk == "enum"] if label is not None and label.k == "CaseStmt" else None
        if names is not None:
            return None if names[:1] == [self.assume[r]] else ()
        known = {last(e.q) for k in sw.walk() if k.k == "CaseStmt" for e in k.ch[0].walk() if e.k == "DeclRefExpr" and e.dk == "enum"}
        return () if self.assume[r] in known else None

    def num(self, n, d, ctx):
        v = self.eval(n, d, ctx)
        if v[0] == "o" and v[1] == "V" and self.version is not None:
            return ("c", self.version + v[2])
        return v

    def truth(self, n, d, ctx):
        v = self.num(n, d, ctx)
        return bool(v[1]) if v[0] == "c" else None

    def enum_test(self, n, ctx):
        """Comparison of the assumed parameter (through the calls) with an enumerator."""
        if not self.assume:
            return None
        a, b = strip(n.ch[0], explicit=True), strip(n.ch[1], explicit=True)
        for x, y in ((a, b), (b, a)):
            if x is not None and y is not None and x.k == "DeclRefExpr" and x.dk == "parm" and \
                    y.k == "DeclRefExpr" and y.dk == "enum" and self.root_param(x, ctx) in self.assume:
                return last(y.q) == self.assume[self.root_param(x, ctx)]
        return None

    def root_param(self, x, ctx):
        x = strip(x, explicit=True)
        while x is not None and x.k == "DeclRefExpr" and x.dk == "parm" and ctx.up is not None:
            for p, arg in zip(ctx.fn.params, call_args(ctx.call)[1] if ctx.call is not None else ()):
                if p["did"] == x.did:
                    x, ctx = strip(arg, explicit=True), ctx.up
                    break
            else:
                return None
        return x.name if x is not None and x.k == "DeclRefExpr" and x.dk == "parm" else None

    # -- updates -------------------------------------------------------------
    def put(self, d, loc, v, const=True):
        if not self.watched(loc):
            return
        if v[0] == "below":
            # the value the field had at that depth: nothing is known to have
            # been pushed here, so the field is as it was there
            return
        if v == ("o", loc, 0) or loc[0] == "M" and (v in ("w", "h") or v[0] == "o" and v[1][0] == "M" or v[0] == "c" and not const):
            d.pop(loc, None)
        elif v[0] == "o" and abs(v[2]) > 4:
            d[loc] = "w"
        else:
            d[loc] = v

    def count(self, d, name, by):
        v = d.get(("#", name), 0) + by
        if v:
            d[("#", name)] = max(-4, min(4, v))
        else:
            d.pop(("#", name), None)

    def push(self, d, loc, v):
        self.count(d, loc, 1)
        if v is not None:
            d[("^", loc)] = (d.get(("^", loc), ()) + (v,))[-6:]
        elif ("^", loc) in d:
            d[("^", loc)] = d[("^", loc)] + ("?",)

    def pop(self, d, loc):
        self.count(d, loc, -1)
        t = d.get(("^", loc), ())[:-1]
        if t:
            d[("^", loc)] = t
        else:
            d.pop(("^", loc), None)
        # what was written to the level that goes is gone with it
        if (loc, "top") in d:
            d.pop((loc, "top"))

    def canon(self, d):
        """An open list is one entry on the list stack and one level of output;
        the two stand for each other."""
        n = d.get(("#", "syn"), 0)
        if n and all(d.get(("#", x), 0) == n for x in LISTS):
            for x in LISTS + ("syn",):
                d.pop(("#", x), None)
                t = d.pop(("^", x), None)
                if x == "S.in_list_save" and t and n > 0:
                    self.put(d, "S.in_list", t[0] if t[0] != "?" else "w")
        return d

    def step(self, n, auto, ctx, st):
        k = n.k
        if k == "CXXThrowExpr":
            return ()
        if k == "DeclStmt":
            cur, ch = [auto], False
            for v in n.d.get("vars", ()):
                if v.get("init") and not (v.get("t") or "").endswith("&"):
                    i = ctx.fn.nodes.get(v["init"])
                    l = "M:%s:%s#%s" % (ctx.fn.tu, v["name"], v["did"])
                    nxt = []
                    for a in cur:
                        d = dict(a)
                        x = self.eval(i, d, ctx)
                        if bare(v.get("t")) == "bool" and (x == "w" or x[0] == "o"):
                            both = [(t, self.suppose(i, t, a, ctx)) for t in (True, False)]
                            if any(e is not None for t, e in both):
                                # what the answer says is known from here on
                                ch = True
                                for t, e in both:
                                    for a2 in ((a,) if e is None else e):
                                        d = dict(a2)
                                        d[l] = ("c", int(t))
                                        nxt.append(frozenset(d.items()))
                                continue
                        old = d.get(l)
                        self.put(d, l, x, bare(v.get("t")) == "bool")
                        ch = ch or d.get(l) != old
                        nxt.append(frozenset(d.items()))
                    cur = nxt
            return tuple(cur) if ch else None
        if k == "BinaryOperator" and n.op == "=" or k == "CXXOperatorCallExpr" and n.op == "=" and len(n.ch) >= 3:
            a, b = (n.ch[0], n.ch[1]) if k == "BinaryOperator" else (n.ch[1], n.ch[2])
            return self.assign(n, a, b, auto, ctx)
        if k in ("CompoundAssignOperator", "BinaryOperator") and n.op in ASSIGN_OPS or \
                k == "CXXOperatorCallExpr" and n.op in ("+=", "-=", "|=", "&="):
            a, b = (n.ch[0], n.ch[1]) if k != "CXXOperatorCallExpr" else (n.ch[1], n.ch[2])
            l = self.loc(a, ctx)
            if self.watched(l):
                d = dict(auto)
                cur, x = self.get(d, l), self.eval(b, d, ctx)
                if n.op in ("+=", "-=") and cur[0] == "o" and x[0] == "c":
                    self.put(d, l, ("o", cur[1], cur[2] + (x[1] if n.op == "+=" else -x[1])))
                else:
                    self.put(d, l, "w")
                return (frozenset(d.items()),)
            return None
        if k == "UnaryOperator" and n.op in ("++", "--", "p++", "p--"):
            l = self.loc(n.ch[0], ctx)
            if self.watched(l):
                d = dict(auto)
                cur = self.get(d, l)
                by = 1 if "+" in n.op else -1
                self.put(d, l, (cur[0], cur[1], cur[2] + by) if cur[0] == "o" else "h" if cur == "h" else "w")
                return (frozenset(d.items()),)
            return None
        if is_call(n):
            return self.call(n, auto, ctx)
        return None

    def watched(self, l):
        return l is not None and l not in ACCUMULATE

    def assign(self, n, a, b, auto, ctx):
        d = dict(auto)
        sa = strip(a, explicit=True)
        # *find(state.macro, "...") = value: one entry of the macros
        if sa is not None and sa.k in ("UnaryOperator", "CXXOperatorCallExpr") and sa.op == "*":
            for x in sa.walk():
                l = self.loc(x, ctx) if x.k == "MemberExpr" else None
                if l == "S.macro":
                    v = [y for y in b.walk() if y.k == "MemberExpr" and self.loc(y, ctx) == "S.current_path"]
                    src = self.get(d, "S.current_path") if v else "w"
                    self.put(d, "S.macro#", ("o", "S.macro#", 0) if src == ("o", "S.current_path", 0) else "w")
                    return (frozenset(d.items()),)
            return None
        l = self.loc(a, ctx)
        if l is None:
            return None
        v = self.eval(b, d, ctx)
        local = v[1] if v[0] == "o" and v[1][0] == "M" and v[2] == 0 else None
        if (v == "w" or local) and l[:2] in ("S.", "L.") and self.watched(l) and bare(sa.type) == "bool":
            # one or the other, and known from here on
            out = []
            for x in (0, 1):
                d = dict(auto)
                self.put(d, l, ("c", x))
                if local:
                    d[local] = ("c", x)
                out.append(frozenset(d.items()))
            return out
        self.put(d, l, v, bare(strip(a, explicit=True).type) == "bool")
        if l == "S.macro":
            v = self.eval(b, d, ctx)
            if v == ("o", "S.macro", 0):
                d.pop("S.macro#", None)
        return (frozenset(d.items()),)

    def call(self, n, auto, ctx):
        nm = last(n.callee)
        o, args = call_args(n)
        if nm in ("invoke_swap", "swap"):
            x, y = (args[0], args[1]) if len(args) == 2 else (o, args[0]) if o is not None and len(args) == 1 else (None, None)
            if x is not None:
                lx, ly = self.loc(x, ctx), self.loc(y, ctx)
                if lx in ("S.out", "S.phrase") or ly in ("S.out", "S.phrase") or lx is None and ly is None:
                    return None
                d = dict(auto)
                vx = self.get(d, lx) if lx else "w"
                vy = self.get(d, ly) if ly else "w"
                self.put(d, lx, vy)
                self.put(d, ly, vx)
                if "S.macro" in (lx, ly):
                    d.pop("S.macro#", None)
                return (frozenset(d.items()),)
        if o is not None:
            l = self.loc(o, ctx)
            if l is not None and self.is_stack(l, o):
                d = dict(auto)
                if nm in PUSH:
                    if l == "L.list_stack":
                        self.list_push(d, n, args, ctx)
                    else:
                        self.push(d, l, self.eval(args[0], d, ctx) if args else None)
                    return (frozenset(self.canon(d).items()),)
                if nm in POP:
                    if l == "L.list_stack":
                        self.list_pop(d, n, ctx)
                    else:
                        self.pop(d, l)
                    return (frozenset(self.canon(d).items()),)
                if l == "S.templates" and not n.cm and nm not in ("top", "find", "top_scope", "find_top_scope", "start_template"):
                    if d.get(("#", l), 0) > 0:
                        d[(l, "top")] = 1
                    else:
                        self.put(d, l, "w")
                    return (frozenset(d.items()),)
                return None
            if l == "S.document":
                for op, cl in PAIRS:
                    if nm in (op, cl):
                        d = dict(auto)
                        self.count(d, "document file", 1 if nm == op else -1)
                        return (frozenset(d.items()),)
            if l == "S.macro" and not n.cm and not [t for t in self.model.targets(n) if t.cfg is not None]:
                d = dict(auto)
                if self.get(d, l) == ("o", l, 0):
                    self.put(d, l, "w")
                return (frozenset(d.items()),)
        # macro.add(...) through operator= / operator() of the symbol table
        if n.k == "CXXOperatorCallExpr" and n.op in ("()", ",") and args:
            o = strip(n.ch[1], explicit=True) if len(n.ch) > 1 else None
            if o is not None and o.k == "MemberExpr" and o.name == "add" and o.ch:
                o = o.ch[0]
            l = self.loc(o, ctx)
            if l == "S.macro":
                d = dict(auto)
                self.put(d, l, "w")
                return (frozenset(d.items()),)
        if self.summary is not None and not is_parse(n):
            ts = [t for t in self.model.targets(n) if t.cfg is not None and t.usr in self.interesting]
            if ts and all(self.whole(t) for t in ts):
                out = set()
                for t in ts:
                    for oc in self.summary(t, self.version):
                        out.add(self.compose(auto, oc))
                return out
        if is_parse(n):
            e = self.nested(n, ctx.fn)
            d = dict(auto)
            for l in e:
                if l == "S.templates" and d.get(("#", l), 0) > 0:
                    d[(l, "top")] = 1
                elif l == "S.macro#":
                    continue
                else:
                    self.put(d, l, "h")
            return (frozenset(d.items()),)
        # a place handed to other code by a non-const reference
        if not [t for t in self.model.targets(n) if t.cfg is not None and t.usr in self.interesting]:
            d = None
            for p, a in zip(n.pt or (), args):
                if a is not None and p.endswith("&") and not p.startswith("const ") and not p.endswith("&&"):
                    l = self.loc(a, ctx)
                    if l is not None and l[:2] in ("S.", "L.") or l == "V":
                        if l in ACCUMULATE or l in INPLACE or self.is_stack(l, a) or bare(strip(a, explicit=True).type).startswith("quickbook::state"):
                            continue
                        d = dict(auto) if d is None else d
                        self.put(d, l, "w")
            if d is not None:
                return (frozenset(d.items()),)
        return None

    def whole(self, t):
        """Judged on its own and applied as a whole where it is called."""
        return (len(t.nodes) > 250 or t.usr in reparsing(self.model)) and not t.d.get("inits") and not t.d.get("dtor")

    def compose(self, auto, oc):
        d0, d = dict(auto), dict(auto)
        for k, v in oc:
            if isinstance(k, tuple):
                if k[0] == "#":
                    self.count(d, k[1], v)
                continue
            if k == "S.templates" and d0.get(("#", k), 0) > 0:
                d[(k, "top")] = 1
            elif v[0] == "c":
                self.put(d, k, v)
            elif v[0] == "o" and v[1][0] != "M":
                b = self.get(d0, v[1])
                self.put(d, k, (b[0], b[1], b[2] + v[2]) if b[0] == "o" else b if v[2] == 0 else "w")
            else:
                self.put(d, k, "h")
        return frozenset(self.canon(d).items())

    # the list stack: syntactic lists and roots
    def item_kind(self, c, d, ctx):
        c = strip(c, explicit=True)
        while c is not None:
            if c.k in CONSTRUCTS:
                a = [strip(x, explicit=True) for x in c.ch if x is not None and x.k != "CXXDefaultArgExpr"]
                if len(a) >= 2:
                    return "syn"
                c = a[0] if a else None
                continue
            if c.k == "DeclRefExpr" and c.dk == "enum":
                return "syn" if c.name == "syntactic_list" else "root"
            pl = self.item_place(c, ctx)
            if pl == "top":
                return d.get("topkind")
            x = self.get(d, pl) if pl is not None else self.get(d, self.loc(c, ctx)) if self.loc(c, ctx) else ("w",)
            return x[1] if x[0] == "item" else None
        return None

    def list_push(self, d, n, args, ctx):
        kind = self.item_kind(args[0], d, ctx) if args else None
        if kind is None:
            self.bad.append(("list-item", ctx.fn, n, "an entry of unknown kind is put on the list stack"))
            kind = "root"
        self.count(d, kind, 1)
        d["topkind"] = kind

    def list_pop(self, d, n, ctx):
        kind = d.get("topkind")
        if kind is None:
            self.bad.append(("list-item", ctx.fn, n, "the list stack is popped without knowing that the entry is the one meant"))
            kind = "root"
        self.count(d, kind, -1)
        d.pop("topkind", None)

    def item_place(self, n, ctx, depth=0):
        """'top' for the top of the list stack, the place of a copy of an
        entry, or None."""
        b = strip(n, explicit=True)
        if b is None or depth > 6:
            return None
        if is_call(b) and last(b.callee) == "top" and self.loc(call_args(b)[0], ctx) == "L.list_stack":
            return "top"
        if b.k == "DeclRefExpr" and b.dk == "local":
            v = ctx.fn.vars().get(b.did)
            if v is not None and (v.get("t") or "").endswith("&") and v.get("init"):
                return self.item_place(ctx.fn.nodes.get(v["init"]), ctx, depth + 1)
            return self.loc(b, ctx)
        return None

    def kind_test(self, c, d, ctx):
        """The entry a comparison with syntactic_list looks at, and its kind."""
        if c is None or c.k != "BinaryOperator" or c.op not in ("==", "!="):
            return None
        m, e = strip(c.ch[0], explicit=True), strip(c.ch[1], explicit=True)
        if e is not None and e.k == "MemberExpr":
            m, e = e, m
        if m is None or m.k != "MemberExpr" or m.name != "type" or e is None or e.k != "DeclRefExpr" or \
                e.dk != "enum" or e.name != "syntactic_list":
            return None
        pl = self.item_place(m.ch[0], ctx)
        if pl is None:
            return None
        if pl == "top":
            return pl, d.get("topkind")
        v = self.get(d, pl)
        return (pl, v[1]) if v[0] == "item" else None

    def edge(self, cond, truth, auto, ctx, st):
        t = self.truth(cond, dict(auto), ctx)
        if t is not None and t != truth:
            return ()
        return self.suppose(cond, truth, auto, ctx)

    def suppose(self, cond, truth, auto, ctx):
        """The states in which the condition has this answer; None if nothing
        is learnt."""
        d = dict(auto)
        c = strip(cond, explicit=True)
        while c is not None and c.k == "UnaryOperator" and c.op == "!":
            c, truth = strip(c.ch[0], explicit=True), not truth
        if c is None:
            return None
        if c.k == "BinaryOperator" and c.op in ("&&", "||"):
            stop = c.op == "||"
            first = {t: self.suppose(c.ch[0], t, auto, ctx) for t in (True, False)}
            if truth == (not stop):
                out, learnt = [], first[truth] is not None
                for a in ((auto,) if first[truth] is None else first[truth]):
                    e = self.suppose(c.ch[1], truth, a, ctx)
                    learnt = learnt or e is not None
                    out += [a] if e is None else list(e)
                return tuple(out) if learnt else None
            out, learnt = [], first[stop] is not None
            out += [auto] if first[stop] is None else list(first[stop])
            for a in ((auto,) if first[not stop] is None else first[not stop]):
                e = self.suppose(c.ch[1], stop, a, ctx)
                learnt = learnt or e is not None
                out += [a] if e is None else list(e)
            return tuple(set(out)) if learnt else None
        k = self.kind_test(c, d, ctx)
        if k is not None:
            is_syn = truth == (c.op == "==")
            if k[1] is not None and (k[1] == "syn") != is_syn:
                return ()
            if k[0] == "top":
                d["topkind"] = "syn" if is_syn else "root"
                return (frozenset(d.items()),)
            return None
        if c.k == "BinaryOperator" and c.op in ("==", "!=") and any(
                x is not None and x.k == "IntegerLiteral" and int(x.val) == 0 for x in (strip(y, explicit=True) for y in c.ch)):
            # (flags & bit) != 0
            x = [strip(y, explicit=True) for y in c.ch]
            x = x[0] if x[1] is not None and x[1].k == "IntegerLiteral" else x[1]
            if x is not None and x.k == "BinaryOperator" and x.op == "&":
                c, truth = x, truth == (c.op == "!=")
        if c.k == "BinaryOperator" and c.op == "&":
            a, b = self.num(c.ch[0], d, ctx), self.num(c.ch[1], d, ctx)
            if a[0] == "o" and b[0] == "c":
                kk = ("b", "%s&%d" % (a[1], b[1]))
                if kk in d and d[kk] != truth:
                    return ()
                d[kk] = truth
                return (frozenset(d.items()),)
        # a saver member or flag whose value is a plain unknown boolean
        l = self.loc(c, ctx) if bare(c.type) == "bool" else None
        if l is not None:
            v = self.get(d, l)
            if v[0] == "o" and v[2] == 0 and v[1][0] != "M" and (l[0] == "M" or any(
                    isinstance(k, str) and k[0] == "M" and x == v for k, x in auto)):
                # learn the value of the original
                kk = ("b", v[1])
                if kk in d and d[kk] != truth:
                    return ()
                d[kk] = truth
                return (frozenset(d.items()),)
        return None

    def enter(self, call, t, args, auto, ctx, cctx):
        inits = t.d.get("inits")
        auto = gone(auto, [cctx.var_key(p["did"]) for p in t.params if p["did"] not in cctx.env] +
                    ([cctx.this] if inits and cctx.this and cctx.this != ctx.this else []))
        d = dict(auto)
        ch = False
        for p, arg in zip(t.params, args):
            if arg is None or p["t"].endswith("&"):
                continue
            v = self.eval(arg, d, ctx)
            if p["did"] in cctx.env:
                if v[0] == "c" and "(" in cctx.env[p["did"]]:
                    d["M:" + cctx.env[p["did"]]] = v
                    ch = True
                continue
            if v[0] in ("o", "c") and (v[0] == "c" or v[1][0] != "M"):
                d["M:" + cctx.var_key(p["did"])] = v
                ch = True
        if inits and cctx.this:
            for i in inits:
                if not i.get("member") or not i.get("init"):
                    continue
                node = t.nodes.get(i["init"])
                v = self.eval(node, d, cctx)
                l = "M:%s.%s" % (cctx.this, i["member"])
                if v[0] == "o" and v[1][0] == "M" and "scope" in i["member"] + (bare(strip(node, explicit=True).type) or ""):
                    d[l] = v
                self.put(d, l, v) if v[0] != "o" or v[1][0] != "M" else None
                ch = True
        return frozenset(d.items()) if ch else auto

    def may_inline(self, call, t, ctx):
        if t.usr not in self.interesting or is_parse(call):
            return False
        if self.summary is not None and self.whole(t):
            return False
        o, a = call_args(call)
        if o is not None:
            l = self.loc(o, ctx)
            if l is not None and self.is_stack(l, o) and last(call.callee) in PUSH | POP:
                return False
        return True

    def after_call(self, call, t, auto, ret, ctx):
        # what was learnt about a parameter is known of the member it was kept in
        if t.d.get("inits"):
            own = {"M:%s:%s#%s" % (t.tu, p["name"], p["did"]) for p in t.params}
            d = dict(auto)
            kept = [(k, v[1]) for k, v in auto if isinstance(k, str) and k[0] == "M" and v[0] == "o" and v[2] == 0 and v[1] in own]
            for k, src in kept:
                d.pop(k)
                for f, b in auto:
                    if isinstance(f, tuple) and f[0] == "b" and (f[1] == src or f[1].startswith(src + "&")):
                        d[("b", k + f[1][len(src):])] = b
            auto = frozenset(d.items())
        auto = frozenset((k, v) for k, v in auto if not (isinstance(k, str) and k[0] == "M" and k.endswith(")")))
        # the callee's own places are gone
        return gone(auto, ["%s:%s#%s" % (t.tu, v["name"], did) for did, v in t.vars().items()])

    def track(self, key):
        return False


def gone(auto, names):
    """Forget places that no longer exist."""
    pre = tuple("M:" + x for x in names)

    def dead(k):
        if isinstance(k, tuple):
            k = k[1] if k[0] == "b" else ""
        return k.startswith(pre) and any(k == p or k[len(p):len(p) + 1] in (".", "&") for p in pre if k.startswith(p))
    if not any(dead(k) for k, _ in auto):
        return auto
    return frozenset((k, v) for k, v in auto if not dead(k))


class Walk(Engine):
    def _dtor_call(self, e, a, c, ctx):
        v = ctx.fn.vars().get(e["dtor"])
        nm = "%s:%s#%s" % (ctx.fn.tu, v["name"] if v else "?", e["dtor"])
        return [(gone(a2, [nm]), c2) for a2, c2 in Engine._dtor_call(self, e, a, c, ctx)]


def is_parse(n):
    return is_call(n) and (n.callee or "").startswith("boost::spirit::classic::") and last(n.callee) == "parse"


def reparsing(model):
    if getattr(model, "_p10_reparse", None) is None:
        model._p10_reparse = set(reverse_reach(model, {f.usr for f in model.fns() if any(is_parse(n) for n in f.nodes.values())}))
    return model._p10_reparse


def popped_fields(model):
    if getattr(model, "_p10_popped", None) is None:
        s = set()
        for f in model.fns():
            for n in f.nodes.values():
                if is_call(n) and last(n.callee) in ("pop_back",):
                    o = strip(call_args(n)[0], explicit=True)
                    if o is not None and o.k == "MemberExpr" and (o.q or "").startswith("quickbook::state::"):
                        s.add(o.q)
        model._p10_popped = s
    return model._p10_popped


def state_place(n):
    n = strip(n, explicit=True)
    return n is not None and (
        n.k == "MemberExpr" and n.dk == "field" and (
            (n.q or "").startswith(("quickbook::state::", "quickbook::main_grammar_local::")) or
            bare(n.type) in ("quickbook::value_builder",)) or
        n.k == "DeclRefExpr" and n.q == VERSION or
        n.k == "BinaryOperator" and n.op in (".*", "->*"))


def writes(f):
    """Does the function itself write the conversion's state?"""
    for n in f.nodes.values():
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ASSIGN_OPS and state_place(n.ch[0]):
            return True
        if n.k == "UnaryOperator" and n.op in ("++", "--", "p++", "p--") and state_place(n.ch[0]):
            return True
        if n.op == "=" and n.k in ("BinaryOperator", "CXXOperatorCallExpr"):
            x = strip(n.ch[0] if n.k == "BinaryOperator" else n.ch[1], explicit=True)
            if x is not None and x.k in ("UnaryOperator", "CXXOperatorCallExpr") and x.op == "*" and any(state_place(y) for y in x.walk()):
                return True
        if is_call(n):
            if is_parse(n):
                return True
            o, a = call_args(n)
            if o is not None and not n.cm and state_place(o) and last(n.callee) not in ("empty", "begin", "end", "str", "get", "size", "top"):
                return True
            if n.k == "CXXOperatorCallExpr" and len(n.ch) > 1:
                if n.op in ("=", "++", "--", "+=") and state_place(n.ch[1]):
                    return True
                x = strip(n.ch[1], explicit=True)
                if n.op == "()" and x is not None and x.k == "MemberExpr" and x.name == "add" and x.ch and state_place(x.ch[0]):
                    return True
            for p, x in zip(n.pt or (), a):
                if x is not None and p.endswith("&") and not p.startswith("const ") and state_place(x):
                    return True
    return False


def relevant_functions(model):
    """Functions that write the conversion's state or may call one that does,
    and the constructors and destructors of what they keep it in."""
    if getattr(model, "_p10_rel", None) is None:
        base = {f.usr for f in model.fns() if f.cfg is not None and writes(f)}
        cls = {f.cls for f in model.fns() if f.usr in base and f.cls}
        for f in model.fns():
            if f.cls in cls and f.cfg is not None and (f.d.get("dtor") or f.d.get("inits")) and \
                    f.cls not in ("quickbook::state", "quickbook::main_grammar_local", "quickbook::collector"):
                base.add(f.usr)
        model._p10_rel = set(reverse_reach(model, base))
    return model._p10_rel


# -- the grammar --------------------------------------------------------------

def changed(auto, keep=()):
    """What an abstract state leaves changed: places and stack depths."""
    out = set()
    for k, v in auto:
        if isinstance(k, tuple) and k[0] == "#":
            out.add("depth of " + k[1])
        elif isinstance(k, str) and (k[:2] in ("S.", "L.") or k in ("V", "P", "B")):
            out.add(k)
    return out


NORMAL = {"S.explicit_list": ("c", 0)}       # consumed by what follows


def outcome(auto, scoped=False):
    """The part of an abstract state that outlives the action: scope-restored
    places with what they hold, stack depths."""
    out = {}
    for k, v in auto:
        if isinstance(k, tuple) and k[0] == "#":
            out[k] = v
        elif isinstance(k, str) and (k[:2] in ("S.", "L.") or k in ("V", "P", "B")) and (scoped or k not in SCOPED):
            out[k] = v
    return frozenset(out.items())


class Grammar:
    versions = (105, 106, 107)

    def __init__(self, model):
        self.model = model
        self.gr = grammar.load(model)
        self.null = p05.Null(self.gr, model)
        self.match = {}              # rule key -> set of outcomes when it matches
        self.fail = {}               # ... when it does not
        self.scoped_changes = {}     # rule key -> macros, templates, source mode changed
        self.memo = {}
        self.origin = {}             # place -> functions that change it
        self.problems = {}
        self.unknown = set()
        self.fns = set()
        self.quads = set()
        self.notes = []
        self.parses = {}
        self.opened = []
        self.sums = {}
        # which functions may parse again
        self.reparse = reparsing(model)

    # -- nested parses -------------------------------------------------------
    def entry_keys(self, n):
        if n.id not in self.parses or self.parses[n.id][0] is not n:
            keys = set()
            for a in n.walk():
                if a.k == "MemberExpr":
                    k = self.gr.key(a)
                    keys |= {k} & set(self.gr.rules)
                    keys |= self.public_rules().get(a.q, set())
                t = bare(a.type)
                if t.startswith("quickbook::") and a.k in ("DeclRefExpr",) + tuple(CONSTRUCTS):
                    k = self.gr.start_rule(t)
                    keys |= {k} & set(self.gr.rules)
            self.parses[n.id] = (n, keys)
        return self.parses[n.id][1]

    def public_rules(self):
        """Members of the grammar object -> the rules they start from."""
        if getattr(self, "_public", None) is None:
            self._public = {}
            for f in self.model.fns():
                for i in f.d.get("inits") or ():
                    n = f.nodes.get(i.get("init") or 0)
                    if f.cls is None or n is None or not f.cls.startswith("quickbook::") or "grammar" not in f.cls:
                        continue
                    ks = {self.gr.key(a) for a in n.walk() if a.k == "MemberExpr"} & set(self.gr.rules)
                    if ks:
                        self._public.setdefault("%s::%s" % (f.cls, i["member"]), set()).update(ks)
        return self._public

    def entries(self):
        if getattr(self, "_entries", None) is None:
            self._entries = {}
            for f in self.model.fns():
                for n in f.nodes.values():
                    if is_parse(n):
                        for k in self.entry_keys(n):
                            self._entries.setdefault(k, (f, n))
        return self._entries

    def nested(self, n, fn):
        keys = self.entry_keys(n) or set(self.entries())
        out = set()
        for k in keys:
            out |= self.scoped_changes.get(k, set())
            for o in self.match.get(k, set()) | self.fail.get(k, set()):
                for l, v in o:
                    if isinstance(l, str) and NORMAL.get(l) != v:
                        out.add(l)
        return frozenset(out)

    # -- actions -------------------------------------------------------------
    def run(self, fn, auto, ver, this, ptr=None):
        # only what the function can see: the object's own places and the state
        own = {v[1] for k, v in auto if isinstance(k, str) and k.startswith("M:" + this + ".") and v[0] == "o"}

        def other(k):
            if isinstance(k, str):
                return k.startswith("M:") and not k.startswith("M:" + this + ".")
            return k[0] == "b" and not k[1].startswith("M:" + this + ".") and k[1].split("&")[0] not in own
        vis = frozenset((k, v) for k, v in auto if not other(k))
        hidden = frozenset((k, v) for k, v in auto if other(k) and isinstance(k, str))
        facts = frozenset((k, v) for k, v in auto if other(k) and isinstance(k, tuple))
        key = (fn.usr, vis, ver, this, ptr, self.round if fn.usr in self.reparse else 0)
        if key not in self.memo:
            r = Interp(self.model, self.nested, ptr, ver, None, self.summary)
            res = set()
            for x in Walk(r, self.model).run(fn, vis, this=this):
                if x.kind != "return":
                    continue
                a = frozenset((k, v) for k, v in x.auto if not (isinstance(k, str) and (
                    k == "topkind" or k.startswith("M:") and not k.startswith("M:" + this + "."))
                    or isinstance(k, tuple) and k[0] == "b" and k[1].startswith("M:") and not k[1].startswith("M:" + this + ".")))
                res.add((a, x.ret))
            for b in r.bad:
                self.problems.setdefault(b[:1] + (b[1].q, b[2].line if hasattr(b[2], "line") else 0), b)
            self.fns.add(fn.usr)
            self.memo[key] = res
        out = set()
        for a, ret in self.memo[key]:
            for k, v in a - vis:
                if isinstance(k, str) and k[:2] in ("S.", "L.") or k == "V":
                    self.origin.setdefault(k, set()).add(fn.usr)
            out.add((a | hidden | facts if not facts - a else a | hidden | frozenset(x for x in facts if x[0] not in dict(a)), ret))
        return out

    def summary(self, fn, ver):
        key = (fn.usr, ver, self.round if fn.usr in self.reparse else 0)
        if key not in self.sums:
            self.sums[key] = {frozenset()}          # recursion: grows with the rounds
            r = Interp(self.model, self.nested, None, ver, None, self.summary)
            res = set()
            for x in Walk(r, self.model).run(fn, frozenset(), this="this"):
                if x.kind == "return":
                    res.add(outcome(x.auto, True))
            for b in r.bad:
                self.problems.setdefault(b[:1] + (b[1].q, b[2].line if hasattr(b[2], "line") else 0), b)
            self.fns.add(fn.usr)
            for o in res:
                for k, v in o:
                    if isinstance(k, str):
                        self.origin.setdefault(k, set()).add(fn.usr)
            self.sums[key] = self.limit(res)
        return self.sums[key]

    def functions(self, x, f):
        fs = p14.action_functions(self.model, self.gr, x, f)
        real = [g for g in fs if not (g.cls or "").startswith("quickbook::member_action")]
        return [g for g in (real or fs) if g.cfg is not None]

    def act(self, x, f, autos, ver):
        v = strip(x.v, explicit=True)
        if v is not None and v.k == "CXXOperatorCallExpr" and v.op == "=" and "phoenix::actor" in (v.callee or ""):
            out = set()
            places = [a for a in v.ch[1].walk() if a.k == "MemberExpr" and a.dk == "field" and state_place(a)]
            for a in autos:
                d = dict(a)
                for pl in places:
                    q = pl.q or ""
                    l = ("S." if q.startswith("quickbook::state::") else "L.") + pl.name
                    if l in ACCUMULATE:
                        continue
                    c = strip(v.ch[2], explicit=True)
                    val = ("c", int(c.val)) if c is not None and (c.k in ("CXXBoolLiteralExpr", "IntegerLiteral") or c.k == "DeclRefExpr" and c.dk == "enum") else "w"
                    d[l] = val
                    self.origin.setdefault(l, set()).add(f.usr)
                out.add(frozenset(d.items()))
            return out
        fs = self.functions(x, f)
        if not fs:
            t = (v.type or "") if v is not None else ""
            if not (v is not None and v.k == "CXXOperatorCallExpr" and "phoenix" in t):
                self.unknown.add((f.q, v))
            return set(autos)
        out = set()
        for a in autos:
            for g in fs:
                for r, _ in self.run(g, a, ver, "act"):
                    out.add(self.keep(r, "act"))
        return out

    def keep(self, a, this):
        return frozenset((k, v) for k, v in a if not (isinstance(k, str) and k.startswith("M:" + this + ".") or
                                                      isinstance(k, tuple) and k[0] == "b" and k[1].startswith("M:" + this + ".")))

    # -- scoped parsers --------------------------------------------------------
    def initial(self, impl):
        out = {}
        for g in self.model.fns():
            if g.cls == impl and g.d.get("inits") and g.name == last(impl).split("<")[0]:
                for i in g.d["inits"]:
                    n = strip(g.nodes.get(i.get("init") or 0), explicit=True)
                    if n is not None and n.k in ("CXXBoolLiteralExpr", "IntegerLiteral"):
                        out[i["member"]] = ("c", int(n.val))
        return out

    def pointer(self, ob, f):
        """The member a scoped value is bound to."""
        o = strip(ob, explicit=True) if ob is not None else None
        nodes = []
        if o is not None:
            for y in o.walk():
                if y.k == "DeclRefExpr" and y.did in f.vars() and f.vars()[y.did].get("init"):
                    nodes.append(f.nodes.get(f.vars()[y.did]["init"]))
        for nd in nodes:
            for y in nd.walk() if nd is not None else ():
                if y.q and y.q.startswith("quickbook::main_grammar_local::") and y.k == "DeclRefExpr":
                    return "L." + last(y.q)
        return None

    def scoped(self, x, f, autos, ver):
        impl, ob = x.v
        this = "scope%d" % x.n.id
        fns = {nm: [g for g in p14.member_fns(self.model, impl, nm) if g.cfg is not None] for nm in
               ("start", "success", "failure", "cleanup", "result")}
        if "set_scoped_value" in impl:
            # instantiations of the same template: take the one for this type
            for nm in fns:
                same = [g for g in fns[nm] if g.cls == impl]
                fns[nm] = same or fns[nm]
        ptr = self.pointer(ob, f)
        self.quads.add((impl, ptr))
        init = {("M:%s.%s" % (this, k)): v for k, v in self.initial(impl).items()}
        ok, no = set(), set()
        for a in autos:
            d = dict(a)
            d.update(init)
            a = frozenset(d.items())
            rs = set()
            if fns["start"]:
                for g in fns["start"]:
                    rs |= self.run(g, a, ver, this, ptr)
            else:
                rs.add((a, True))
            for s, r in rs:
                if r is not False:
                    ok.add(s)
                if r is False or r is None:
                    no.add(s)
        m, fl = self.ev(x.ch[0], f, ok, ver)
        if fns["result"]:
            m = fl = m | fl
        good = self.after(fns["success"], m, ver, this, ptr)
        bad = self.after(fns["failure"], fl, ver, this, ptr) | no
        good = self.after(fns["cleanup"], good, ver, this, ptr)
        bad = self.after(fns["cleanup"], bad, ver, this, ptr)
        known = {k for a in autos for k, v in a if isinstance(k, tuple) and k[0] == "b"}

        def leave(a):
            return frozenset((k, v) for k, v in self.keep(a, this) if not (isinstance(k, tuple) and k[0] == "b") or k in known)
        return {leave(a) for a in good}, {leave(a) for a in bad}

    def after(self, fns, autos, ver, this, ptr):
        if not fns:
            return set(autos)
        out = set()
        for a in autos:
            for g in fns:
                out |= {r for r, _ in self.run(g, a, ver, this, ptr)}
        return out

    # -- parsers ---------------------------------------------------------------
    def apply(self, a, o):
        d = dict(a)
        for k, v in o:
            if isinstance(k, tuple):
                continue
            d[k] = v if v[0] == "c" else "h"
        return frozenset(d.items())

    def ref(self, keys, autos):
        m, f = set(), set()
        for k in keys:
            self.used.add(k)
            for o in self.match.get(k, ()):
                m |= {self.apply(a, o) for a in autos}
            for o in self.fail.get(k, ()):
                f |= {self.apply(a, o) for a in autos}
        return m, f

    def token(self, g):
        if g.k == "rule":
            return ("rule", g.v)
        if g.k in ("str", "ch"):
            return ("str", str(g.v))
        return None

    def seen_ahead(self, g):
        """What a lookahead has found to come next."""
        while g.k == "act":
            g = g.ch[0]
        if g.k != "and":
            return None
        g = g.ch[0]
        out = []
        for c in (g.ch if g.k == "seq" else [g]):
            t = self.token(c)
            if t is None:
                break
            out.append(t)
        return tuple(out)

    def seq(self, g, f, autos, ver, ahead):
        """The parts in order; a part that a lookahead has already found to
        come next does not fail."""
        m, fl = set(autos), set()
        for c in g.ch:
            if not m:
                break
            m, f2, ahead = self.known(c, f, m, ver, ahead)
            fl |= f2
            ahead = self.seen_ahead(c) or ahead
        return m, fl, ahead

    def known(self, g, f, autos, ver, ahead):
        if ahead:
            if self.token(g) == ahead[0]:
                m, f2 = self.ev(g, f, autos, ver)
                return m, set(), ahead[1:]
            if g.k == "seq":
                return self.seq(g, f, autos, ver, ahead)
            if g.k == "act":
                m, fl, rest = self.known(g.ch[0], f, autos, ver, ahead)
                return self.act(g, f, m, ver), fl, rest
            if g.k == "rule":
                keys = list(self.null.defs(g.v) or ())
                if len(keys) == 1 and len(self.gr.rules.get(keys[0], ())) == 1 and keys[0] not in self.opened:
                    self.used.add(keys[0])
                    self.opened.append(keys[0])
                    g2, f2, n2 = self.gr.rules[keys[0]][0]
                    m, fl, rest = self.known(g2, f2, {self.visible(a) for a in autos}, ver, ahead)
                    self.opened.pop()
                    return {self.apply(a, self.strip_depth(outcome(o))) for a in autos for o in m}, \
                        {self.apply(a, self.strip_depth(outcome(o))) for a in autos for o in fl}, ()
        m, fl = self.ev(g, f, autos, ver)
        return m, fl, ahead if g.k in ("eps", "and", "not", "ver", "cond") else ()

    def visible(self, a):
        return frozenset((k, v) for k, v in a if isinstance(k, str) and v[0] == "c" and k[:2] in ("S.", "L."))

    def ev(self, g, f, autos, ver):
        autos = set(autos)
        k = g.k
        if not autos:
            return set(), set()
        if k == "seq":
            m, fl, _ = self.seq(g, f, autos, ver, ())
            return m, fl
        if k in ("alt", "xor"):
            m, cur = set(), autos
            for c in g.ch:
                m2, cur = self.ev(c, f, cur, ver)
                m |= m2
            return m, cur
        if k == "opt" or k == "maybe":
            m, fl = self.ev(g.ch[0], f, autos, ver)
            return m | fl, set()
        if k in ("star", "plus", "repeat", "listp"):
            seen, cur, out, first = set(autos), autos, set(), True
            ff = set()
            while cur:
                m = cur
                exits = set()
                for c in g.ch:
                    m, f2 = self.ev(c, f, m, ver)
                    exits |= f2
                if first and k != "star":
                    ff |= exits
                else:
                    out |= exits
                if k in ("plus", "repeat", "listp"):
                    out |= m
                first = False
                cur = m - seen
                seen |= m
            return out | (autos if k == "star" and not out else set()), ff if k != "star" else set()
        if k == "act":
            m, fl = self.ev(g.ch[0], f, autos, ver)
            return self.act(g, f, m, ver), fl
        if k == "rule":
            keys = self.null.defs(g.v) or ()
            if not keys:
                return autos, autos
            return self.ref(keys, autos)
        if k == "lazy":
            return self.ref(p14.stored_rules(self.model, self.gr, self.null, g), autos)
        if k == "scoped":
            return self.scoped(g, f, autos, ver)
        if k == "eps":
            return autos, set()
        if k == "ver":
            lo, hi = g.v
            inn = (lo is None or ver >= lo) and (hi is None or hi == 0 or ver < hi)
            return (autos, set()) if inn else (set(), autos)
        if k in ("and", "not", "negch"):
            return autos, autos
        if not g.ch:
            return autos, autos
        # any other combination: its parts in order, any of which may fail
        m, fl = autos, set(autos)
        for c in g.ch:
            m2, f2 = self.ev(c, f, m, ver)
            m, fl = m | m2, fl | f2 | m2
        return m, fl

    def limit(self, outs):
        if len(outs) <= 24:
            return outs
        d = {}
        for o in outs:
            for k, v in o:
                d[k] = v if d.get(k, v) == v or isinstance(k, tuple) else "h"
        return {frozenset(), frozenset(d.items())}

    def fixpoint(self):
        work = set()
        self.round = 0
        self.used = set()
        live = set()
        todo = list(self.entries())
        # rules reachable from the parses of the program
        while todo:
            k = todo.pop()
            if k in live or k not in self.gr.rules:
                continue
            live.add(k)
            for g, f, n in self.gr.rules[k]:
                for x in g.walk():
                    if x.k == "rule":
                        todo += list(self.null.defs(x.v) or ())
                    elif x.k == "lazy":
                        todo += list(p14.stored_rules(self.model, self.gr, self.null, x))
        self.live = live
        for self.round in range(1, 30):
            change = False
            for k in sorted(live, key=str):
                m, fl = set(), set()
                sc = set()
                for g, f, n in self.gr.rules[k]:
                    for ver in self.versions:
                        m2, f2 = self.ev(g, f, {frozenset()}, ver)
                        for a in m2 | f2:
                            sc |= {l for l, v in a if l in SCOPED}
                            for l, v in a:
                                if isinstance(l, tuple) and l[0] == "#":
                                    self.problems[("depth", k, l[1])] = ("depth", k, (f, n), v, ver, l[1])
                        m |= {self.strip_depth(outcome(a)) for a in m2}
                        fl |= {self.strip_depth(outcome(a)) for a in f2}
                        for x in g.walk():
                            for kk in (self.null.defs(x.v) or () if x.k == "rule" else p14.stored_rules(self.model, self.gr, self.null, x) if x.k == "lazy" else ()):
                                sc |= self.scoped_changes.get(kk, set())
                m, fl = self.limit(m), self.limit(fl)
                if m != self.match.get(k) or fl != self.fail.get(k, set()) or sc != self.scoped_changes.get(k, set()):
                    change = True
                    self.match[k], self.fail[k], self.scoped_changes[k] = m, fl, sc
            if not change:
                return
        raise Broken("the effects of the grammar do not reach a fixpoint")

    def strip_depth(self, o):
        return frozenset((k, v) for k, v in o if not isinstance(k, tuple))


# -- what is judged ------------------------------------------------------------

# what must reach the file that imports (or, before 1.6, includes) another
REACHES = {("import", 105): {"S.macro", "S.templates", "S.source_mode"}, ("import", 106): {"S.macro", "S.templates"},
           ("import", 107): {"S.macro", "S.templates"}, ("include", 105): {"S.templates"}}
# functions that must restore the scope, however they do it
OPENERS = ("quickbook::call_template", "quickbook::load_quickbook")
# what a file or template may leave changed on purpose: an imported file adds
# to the scope it is imported into; before 1.6 templates and the source mode
# were not scoped by file
BY_DESIGN = {("import", 105): {"S.macro", "S.templates", "S.source_mode"}, ("import", 106): {"S.macro", "S.templates"},
             ("import", 107): {"S.macro", "S.templates"}, ("include", 105): {"S.templates", "S.source_mode"}}


def savers(model):
    """Classes whose destructor gives a place of the conversion's state back."""
    out = set()
    for f in model.fns():
        if f.d.get("dtor") and f.cls and any(state_place(n) for n in f.nodes.values()):
            out.add(f.cls)
    return out


def load_types(model, fn):
    """The values the function (or what it calls) tells apart by a parameter."""
    ps = [p["name"] for p in fn.params if "tag_type" in p["t"] or "load_type" in p["name"]]
    return [{ps[0]: t} for t in ("include", "import")] if ps else [None]


def run(model, rep):
    rep.rule("an abstract interpreter follows every field of the conversion's state through every semantic action, every scoped parser "
             "and every rule of the grammar, for language versions before 1.6, 1.6 and 1.7: what a parse leaves changed is only what "
             "is meant to accumulate, every stack is as deep after a rule as before, list items are closed by what opened them, and a "
             "template call or included file leaves macros, templates, source mode, version, paths and section level as they were, while "
             "an imported file's macros and templates do reach the importing one")
    g = Grammar(model)
    g.fixpoint()
    for f, v in sorted(g.unknown, key=str):
        rep.expect(False, "%s: an action of the grammar is not understood" % (v.where() if v is not None else f))
    depth = {}
    for key, p in g.problems.items():
        if p[0] == "depth":
            depth.setdefault(p[1], []).append(p)
        else:
            kind, fn, n, msg = p
            rep.bad("list items", "%s %s" % (kind, fn.short()), n.where(), msg)
    for k in sorted(g.live):
        for p in depth.get(k, ()):
            f, n = p[2]
            rep.bad("stack depth", "%s %s" % (k, key_name(p)), n.where(),
                    "after the rule %s the stack of %s can be %+d deep compared with before (language version %d)" % (
                        last(k), place(key_name(p)), p[3], p[4]))
        if k not in depth:
            rep.ok("stack depth", "rule " + k)
    for k, (f, n) in sorted(g.entries().items()):
        left = {}
        for o in g.match.get(k, set()) | g.fail.get(k, set()):
            for l, v in o:
                if isinstance(l, str) and NORMAL.get(l) != v:
                    left.setdefault(l, set()).add(v)
        for l in sorted(left):
            src = []
            for r in sorted(g.live):
                if any(l2 == l and v != "h" and NORMAL.get(l) != v for o in g.match.get(r, set()) | g.fail.get(r, set()) for l2, v in o):
                    src.append(r)
            fns = sorted({model.functions[u].short() for u in g.origin.get(l, ())})
            where = n
            if src:
                where = g.gr.rules[src[0]][0][2]
            rep.bad("left changed", "%s %s" % (last(k), l), where.where(),
                    "a parse that starts from %s can leave %s changed (%s); written by %s" % (
                        last(k), place(l), "first left so by " + ", ".join(last(r) for r in src[:4]) if src else "by a nested parse",
                        ", ".join(fns[:5])))
        if not left:
            rep.ok("left changed", "parse from " + k)
    sv = savers(model)
    done = 0
    for f in sorted(model.fns(), key=lambda f: f.q):
        if f.cfg is None or f.d.get("inits") or f.d.get("dtor"):
            continue
        vs = [v for v in f.vars().values() if v.get("kind") == "local" and bare(v.get("t")) in sv]
        if not vs and f.q not in OPENERS:
            continue
        done += 1
        for assume in load_types(model, f):
            kind = list(assume.values())[0] if assume else "call"
            for ver in Grammar.versions:
                r = Interp(model, g.nested, None, ver, assume, g.summary)
                bads, kept = {}, set()
                n = 0
                for x in Walk(r, model).run(f, frozenset(), this="this"):
                    if x.kind != "return":
                        continue
                    n += 1
                    kept |= {l for l, v in x.auto if isinstance(l, str)}
                    for l, v in x.auto:
                        if isinstance(l, tuple):
                            if l[0] == "#":
                                bads.setdefault("depth of " + l[1], v)
                        elif (l[:2] in ("S.", "L.") or l == "V" or l == "B") and l not in BY_DESIGN.get((kind, ver), ()) and NORMAL.get(l) != v \
                                and v != ("o", "S.callout_depth", -1) and l not in INPLACE:
                            bads.setdefault(l, v)
                what = "%s (%s, version %s)" % (f.short(), kind, {105: "before 1.6"}.get(ver, "1.%d" % (ver - 100)))
                rep.expect(n, "%s: no path returns" % what)
                for l in sorted(bads):
                    if f.short().endswith("end_callouts") and l == "S.source_mode_next":
                        continue
                    rep.bad("scope restored", "%s %s %s" % (f.short(), kind, l), f.where(),
                            "%s can leave %s changed for what follows" % (what, place(l)))
                if not bads:
                    rep.ok("scope restored", what)
                for l in sorted(REACHES.get((kind, ver), ())):
                    if l in kept:
                        rep.ok("reaches", "%s: %s" % (what, place(l)))
                    else:
                        rep.bad("reaches", "%s %s %s" % (f.short(), kind, l), f.where(),
                                "%s never lets %s set in the file reach what follows" % (what, place(l)))
    rep.extra["rules"] = len(g.live)
    rep.extra["functions_interpreted"] = sorted(model.functions[u].short() for u in g.fns)
    rep.extra["scoped_parsers"] = sorted("%s %s" % (i, p or "") for i, p in g.quads)
    rep.extra["rounds"] = g.round
    if not rep.violations:
        rep.at_least("stack depth", 150)
        rep.at_least("left changed", 6)
        rep.at_least("scope restored", 9)
        rep.at_least("reaches", 8)
        rep.expect(len(g.quads) >= 8, "fewer scoped parsers than expected")


def key_name(p):
    return p[5] if len(p) > 5 else "?"


def place(l):
    return {"V": "the language version", "B": "the value builder", "S.macro#": "the __FILENAME__ macro"}.get(
        l, l.replace("S.", "state.").replace("L.", "the grammar's ") if isinstance(l, str) else str(l))
