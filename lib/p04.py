"""P04: generated markup is well nested on every path.

Every function that writes markup is run over all its paths with an automaton
that scans the text written to each buffer: the stack of open elements and the
position inside a tag.  A closing tag must close the innermost open element;
when the function ends the buffers are where they were when it began.  A
function that leaves something open is judged as part of its callers; one that
nothing calls directly (an action of the grammar) must do the same on every
path and must have a counterpart that undoes it."""
import re

from . import p03, flow, grammar
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args

NAME = re.compile(r"[-\w:.]")
EMPTY = ((), (), "t", "")
DEEP = 14
WRONG = ((), (), "x", "")       # after a mistake was reported
VOID = ("img", "br", "hr", "link", "meta", "input")     # elements of HTML that have no end
SHARED = ("out", "phrase")      # the buffers of the document: what one action opens another may close


def is_message(n):
    """A stream for the user, not for the document."""
    n = strip(n, explicit=True)
    if n is None:
        return True
    if is_call(n) and last(n.callee or "") in ("outerr", "outwarn", "out"):
        return True
    return n.k == "DeclRefExpr" and (n.q or "").startswith("std::")


def origin(ctx, n):
    """The expression whose text an expression stands for: through names given
    to it, copies and views."""
    for _ in range(8):
        x = strip(n, explicit=True)
        if x is None:
            return n
        kids = [c for c in x.kids() if c.k != "CXXDefaultArgExpr"] if x.k in CONSTRUCTS else ()
        if len(kids) == 1 and ("string" in (x.type or "") or "markup" in (x.type or "")):
            n = kids[0]
        elif x.k == "CXXMemberCallExpr" and last(x.callee or "") in ("to_s", "c_str", "data", "str") and "string" in (call_args(x)[0].type or "") and "stream" not in (call_args(x)[0].type or ""):
            n = call_args(x)[0]
        elif x.k == "DeclRefExpr" and x.dk == "local" and ctx is not None and constant(ctx.fn, x.did):
            n = ctx.fn.nodes[ctx.fn.vars()[x.did]["init"]]
        else:
            return x
    return n


def constant(f, did):
    """Is a text local only given its value where it is defined?"""
    v = f.vars().get(did)
    t = (v or {}).get("t", "")
    if v is None or v.get("kind") != "local" or not v.get("init") or did in flow.mutated(f):
        return False
    if not ("string" in t or "char" in t and "*" in t) or "stream" in t:
        return False
    c = getattr(f, "_consttext", None)
    if c is None:
        c = f._consttext = {}
    if did not in c:
        ok = True
        if not t.startswith("const ") or "&" in t:
            for n in f.nodes.values():
                o = None
                if n.k == "CXXOperatorCallExpr" and n.op in ("=", "+=", "<<", ">>") or n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", "+="):
                    o = n.ch[1] if n.k == "CXXOperatorCallExpr" else n.ch[0]
                elif n.k == "CXXMemberCallExpr" and not n.cm:
                    o = call_args(n)[0]
                if o is not None:
                    o = strip(o, explicit=True)
                    if o is not None and o.k == "DeclRefExpr" and o.did == did:
                        ok = False
                if is_call(n):
                    for p, a in zip(n.pt or (), call_args(n)[1]):
                        y = strip(a, explicit=True) if a is not None else None
                        if y is not None and y.k == "DeclRefExpr" and y.did == did and flow.nonconst_ref(p):
                            ok = False
        c[did] = ok
    return c[did]


def flat(n, ctx=None):
    """Pieces of a string concatenation, in order."""
    x = strip(n, explicit=True)
    if x is None:
        return []
    y = origin(ctx, x)
    if y is not x and (y.k in ("ConditionalOperator", "StringLiteral") or y.k == "CXXOperatorCallExpr" and y.op == "+"):
        return flat(y, ctx)
    if x.k == "CXXOperatorCallExpr" and x.op == "+" and len(x.ch) == 3 and "string" in (x.type or ""):
        return flat(x.ch[1], ctx) + flat(x.ch[2], ctx)
    if x.k in CONSTRUCTS and len([c for c in x.kids() if c.k != "CXXDefaultArgExpr"]) == 1 and "string" in (x.type or ""):
        return flat([c for c in x.kids() if c.k != "CXXDefaultArgExpr"][0], ctx)
    if x.k == "ConditionalOperator":
        return [("or", flat(x.ch[1], ctx), flat(x.ch[2], ctx), x.ch[0])]
    if x.k == "StringLiteral":
        return [("lit", x.str, x)]
    if x.k == "CharacterLiteral":
        return [("lit", chr(int(x.val)) if 0 <= int(x.val) < 128 else "\0")]
    return [("expr", x)]


class Scan:
    """The scanner: (closed below, open, mode, pending text)."""

    @staticmethod
    def feed(s, text, bad, html=False):
        under, stack, mode, buf = s
        given, wrong = bad, []

        def bad(msg):
            wrong.append(msg)
            given(msg)
        for c in text:
            if mode == "x" or wrong:
                return WRONG
            if mode == "t":
                if c == "<":
                    mode, buf = "n", ""
                elif c == ">":
                    # the end of a tag that the caller began
                    under, mode = Scan.below(under, ">"), "t"
            elif mode == "n":
                if not buf and c in "!?":
                    mode, buf = "!", c
                elif c in " \n\t":
                    if buf.startswith("/"):
                        continue
                    stack, mode, buf = stack + (buf,), "a", ""
                elif c == ">" or c == "/" and buf and not buf.startswith("/"):
                    if buf.startswith("/"):
                        nm = buf[1:]
                        if stack and stack[-1] == nm:
                            stack = stack[:-1]
                        elif html and nm in VOID:
                            pass
                        elif stack:
                            bad("'</%s>' is written where <%s> is open" % (nm, stack[-1]))
                            stack = stack[:-1]
                        else:
                            under = Scan.below(under, nm)
                        mode, buf = "t", ""
                    elif c == "/":
                        stack, mode, buf = stack + (buf,), "/", ""
                    elif html and (buf in VOID):
                        mode, buf = "t", ""
                    else:
                        stack, mode, buf = stack + (buf,), "t", ""
                elif c in "<\"'=":
                    bad("'%s' is written inside the tag <%s" % (c, buf))
                else:
                    buf = (buf + c)[-200:]
            elif mode == "a":
                if c == ">":
                    mode = "t"
                    if html and stack and stack[-1] in VOID:
                        stack = stack[:-1]
                elif c == "/":
                    mode = "/"
                elif c in "\"'":
                    mode = c
                elif c == "<":
                    bad("'<' is written inside the tag <%s" % (stack[-1] if stack else "?"))
            elif mode in "\"'":
                if c == mode:
                    mode = "a"
                elif c == "<":
                    bad("'<' is written inside an attribute of <%s" % (stack[-1] if stack else "?"))
            elif mode == "/":
                if c == ">":
                    stack, mode = stack[:-1], "t"
                elif c not in " \n\t":
                    mode = "a"
            elif mode == "!":
                buf = (buf + c)[-3:] if not buf.startswith("!--") else "!--" + (buf[3:] + c)[-2:]
                if buf == "!--":
                    pass
                if c == ">" and (not buf.startswith("!--") or buf.endswith("->")):
                    mode, buf = "t", ""
            elif mode == "u":
                # after markup whose attributes may still be open
                if c == ">":
                    mode = "t"
                elif c == "<":
                    mode, buf = "n", ""
        for nm in set(stack):
            if stack.count(nm) > 3:
                bad("<%s> is opened again and again and not closed" % nm)
        for nm in set(under):
            if under.count(nm) > 3 or len(under) > 9:
                bad("</%s> is written again and again where none is open" % nm)
        return WRONG if wrong else (under, stack[-DEEP:] if len(stack) > DEEP else stack, mode, buf)

    @staticmethod
    def below(under, nm):
        """Closed below what this function opened; a loop counts as many."""
        if under and under[-1] in (nm, nm + " *"):
            return under[:-1] + (nm + " *",)
        return (under + (nm,))[:DEEP]

    @staticmethod
    def name(s, sym):
        """A name that is not known here becomes part of a tag."""
        under, stack, mode, buf = s
        if mode == "n":
            return (under, stack, mode, (buf + "{" + sym + "}")[-200:])
        return s


class Nest(Rule):
    """Automaton: tuple of (buffer, scanner state), content buffers left out."""
    width = 24
    max_depth = 7

    def __init__(self, model, writers, table):
        Rule.__init__(self, model)
        self.w = writers
        self.table = table
        self.inline = set()
        self.bads = {}
        self.events = 0
        self.given = {}

    def remember(self, key):
        return True

    def may_inline(self, call, t, ctx):
        return t.usr in self.inline and not any(c.usr == t.usr for c in ctx.stack())

    def track(self, key):
        return False

    def arg_key(self, ctx, arg):
        return ctx.key(origin(ctx, arg)) if "string" in (arg.type or "") or "char" in (arg.type or "") else ctx.key(arg)

    # -- state
    @staticmethod
    def get(auto, key):
        for k, s in auto:
            if k == key:
                return s
        return EMPTY

    @staticmethod
    def put(auto, key, s):
        return tuple(sorted([(k, v) for k, v in auto if k != key] + ([(key, s)] if s != EMPTY else []), key=str))

    def note(self, n, ctx):
        def bad(msg):
            self.bads.setdefault((n.where(), msg), ctx.chain())
        return bad

    def markup(self, ctx, n):
        """(pre or post, key of the markup) of an expression of the table."""
        x = strip(origin(ctx, n), explicit=True)
        if x is None or x.k != "MemberExpr" or x.name not in ("pre", "post") or not x.ch or "markup" not in (x.ch[0].type or ""):
            return None
        return x.name, x.ch[0]

    def resolve(self, ctx, n):
        """Literal text of an expression, also through parameters."""
        n = origin(ctx, n)
        k = ctx.key(n)
        if k and k.startswith("s'") or k and k.startswith('s"'):
            try:
                import ast
                return ast.literal_eval(k[1:])
            except (ValueError, SyntaxError):
                return None
        if k and k.startswith("k") and (n.type or "").replace("const ", "").strip() in ("char", "unsigned char"):
            try:
                return chr(int(k[1:]))
            except ValueError:
                return None
        return None

    def entry(self, ctx, n):
        """The table's entry for a constant tag."""
        x = strip(n, explicit=True)
        for _ in range(3):
            if x is not None and x.k == "DeclRefExpr" and x.dk == "local":
                i = None
                for d in ctx.fn.nodes.values():
                    if d.k == "DeclStmt":
                        for v in d.d.get("vars", ()):
                            if v["did"] == x.did and v.get("init"):
                                i = ctx.fn.nodes.get(v["init"])
                x = strip(i, explicit=True) if i is not None else None
                while x is not None and x.k in CONSTRUCTS and len(x.kids()) == 1:
                    x = strip(x.kids()[0], explicit=True)
        if x is not None and is_call(x) and last(x.callee or "") == "get_markup":
            a = call_args(x)[1]
            if a and a[0] is not None:
                k = ctx.key(a[0])
                if k and k[1:].lstrip("-").isdigit():
                    return self.table.get(int(k[1:]))
        return None

    def returned(self, n, auto, ctx):
        """Does a function give its caller the name of the element it opened?"""
        if "string" not in (ctx.fn.d.get("rt") or "") or not n.ch or n.ch[0] is None:
            return None
        x = strip(origin(ctx, n.ch[0]), explicit=True)
        k = ctx.key(x)
        t = self.resolve(ctx, n.ch[0])
        if t is None and x is not None and x.k in CONSTRUCTS and not [c for c in x.kids() if c.k != "CXXDefaultArgExpr"]:
            t = ""
        if t is None and x is not None and x.k == "StringLiteral":
            t = x.str
        if t is not None:
            return [self.put(auto, "#returned", ((), ("'" + t,), "t", ""))]
        for _, s in auto:
            if k and s[1] and s[1][-1] == "{" + k + "}":
                return [self.put(auto, "#returned", ((), (s[1][-1],), "t", ""))]
        return None

    def survives(self, key, call):
        # what a conversion function is asked to write does not change whether
        # its caller has something to write
        return any("html_gen" in p or "quickbook::state" in p for p in call.pt or ())

    def write(self, n, auto, ctx, key, pieces, st):
        autos = {auto}
        html = key.endswith(".html")
        for p in pieces:
            nxt = set()
            for a in autos:
                if p[0] == "or":
                    v = st.value(p[3])
                    for b in ((1, 2) if v is None else (1,) if v else (2,)):
                        nxt |= self.write(n, a, ctx, key, p[b], st)
                    continue
                s = self.get(a, key)
                if p[0] == "lit":
                    s = Scan.feed(s, p[1], self.note(n, ctx), html)
                else:
                    m = self.markup(ctx, p[1])
                    t = self.resolve(ctx, p[1])
                    if m is not None:
                        e = self.entry(ctx, m[1])
                        k = "markup " + str(ctx.key(m[1]))
                        if e is not None:
                            s = Scan.feed(s, e[0 if m[0] == "pre" else 1] or "", self.note(n, ctx))
                        elif s == WRONG:
                            pass
                        elif m[0] == "pre":
                            s = (s[0], s[1] + (k,), "u", "")
                        else:
                            mode = s[2] if s[2] != "u" else "t"
                            s = Scan.feed((s[0], s[1], mode, s[3]), "</", self.note(n, ctx))
                            s = Scan.feed((s[0], s[1], s[2], s[3] + k), ">", self.note(n, ctx))
                    elif t is not None:
                        s = Scan.feed(s, t, self.note(n, ctx), html)
                    else:
                        s = Scan.name(s, ctx.key(origin(ctx, p[1])) or "?")
                nxt.add(self.put(a, key, s))
            autos = nxt
        return autos

    def step(self, n, auto, ctx, st):
        key, arg = None, None
        if n.k == "CXXOperatorCallExpr" and n.op == "<<" and len(n.ch) > 2:
            b = p03.stream_base(n.ch[1])
            if b is None or is_message(b):
                return None
            t = b.type or ""
            if is_call(b) and last(b.callee or "") == "get" and call_args(b)[0] is not None:
                key, arg = ctx.key(call_args(b)[0]), n.ch[2]
            elif p03.is_collector(t) or "stream" in t:
                key, arg = ctx.key(b), n.ch[2]
            else:
                return None
            key = key or "?"
        elif n.k in ("CXXOperatorCallExpr", "CompoundAssignOperator") and n.op == "+=" and "string" in (n.ch[-2].type or ""):
            key, arg = ctx.key(n.ch[-2]) or "?", n.ch[-1]
        elif n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.ch) == 3 and "string" in (n.ch[1].type or ""):
            k = ctx.key(n.ch[1])
            ps = flat(n.ch[2], ctx)
            if k and (any(p[0] != "expr" for p in ps) or self.get(auto, k) != EMPTY and not any(y.k == "DeclRefExpr" and ctx.key(y) == k for y in n.ch[2].walk())):
                return self.write(n, self.put(auto, k, EMPTY), ctx, k, ps, st)
            return None
        elif n.k == "ReturnStmt":
            return self.returned(n, auto, ctx)
        elif n.k == "CXXMemberCallExpr":
            o, args = call_args(n)
            nm = last(n.callee or "")
            if nm in ("begin_section", "end_section") and "document_state" in (n.callee or ""):
                s = self.get(auto, "#section")
                s = (s[0], s[1] + ("section",), "t", "") if nm[0] == "b" else \
                    (s[0], s[1][:-1], "t", "") if s[1] else (Scan.below(s[0], "section"), (), "t", "")
                return [self.put(auto, "#section", (s[0], s[1][-DEEP:], s[2], s[3]))]
            if o is not None and "string" in (o.type or "") and nm in ("append", "push_back") and args and args[0] is not None:
                key, arg = ctx.key(o) or "?", args[0]
                x = strip(arg, explicit=True)
                if len(args) > 1 and is_call(x) and last(x.callee or "") in ("begin", "cbegin"):
                    arg = call_args(x)[0]           # append(s.begin(), s.end())
                elif len(args) > 1:
                    return None
            elif o is not None and "string" in (o.type or "") and nm in ("clear",):
                k = ctx.key(o)
                return [self.put(auto, k, EMPTY)] if k else None
        elif n.k == "DeclStmt":
            r = None
            for v in n.d.get("vars", ()):
                e = ctx.fn.nodes.get(v.get("init"))
                if e is not None and "string" in v.get("t", "") and "view" not in v.get("t", "") and not v["t"].endswith("&"):
                    k = ctx.var_key(v["did"])
                    ps = flat(e, ctx)
                    if k and any(p[0] != "expr" for p in ps):
                        r = self.write(n, self.put(auto, k, EMPTY), ctx, k, ps, st)
            return r
        if arg is None:
            return None
        self.events += 1
        return self.write(n, auto, ctx, key, flat(arg, ctx), st)


def writes_markup(f):
    for n in f.nodes.values():
        if n.k == "StringLiteral" and n.str and ("<" in n.str or ">" in n.str or n.str.startswith("/")):
            return True
        if n.k == "MemberExpr" and n.name in ("pre", "post") and n.ch and "markup" in (n.ch[0].type or ""):
            return True
    return False


def read_table(model, rep):
    """The markup table: tag -> (pre, post); each entry balanced by itself."""
    out = {}
    for f in model.fns():
        for n in f.nodes.values():
            if n.k != "InitListExpr" or "markup" not in (n.type or "") or "[" in (n.type or "") or len(n.ch) != 3 or n.ch[0] is None:
                continue
            tag = next((x for x in n.ch[0].walk() if x.k == "DeclRefExpr" and x.dk == "enum"), None)
            if tag is None:
                continue
            t = [next((x.str for x in c.walk() if x.k == "StringLiteral"), "") if c is not None else "" for c in n.ch[1:]]
            out[int(tag.val)] = (t[0], t[1], last(tag.q or tag.name or ""), n)
    for tag, (a, b, name, n) in sorted(out.items()):
        msgs = []
        s = Scan.feed(EMPTY, a, msgs.append)
        if s[2] in "\"'":
            s = Scan.feed(s, "\">", msgs.append)
        s = Scan.feed(s, b, msgs.append)
        if s != EMPTY or msgs:
            rep.bad("markup table", name, n.where(), "the opening markup '%s' is not closed by '%s'" % (a, b))
        else:
            rep.ok("markup table", name)
    return out


def shared(k):
    return k.rsplit(".", 1)[-1] in SHARED or k.startswith("#")


def closed(auto, keep=()):
    """The effect with the parts that do not matter left out."""
    out = []
    sec = Nest.get(auto, "#section")
    for k, s in auto:
        if k == "#returned" and k not in keep:
            continue
        if s == WRONG:
            continue
        if s[2] == "u":
            s = (s[0], s[1], "t", "")
        if sec != EMPTY and shared(k):
            # a section opened or closed together with the document's own record of it
            n = len(sec[0])
            if s[0][:n] == sec[0] and s[1][:len(sec[1])] == sec[1]:
                s = (s[0][n:], s[1][len(sec[1]):], s[2], s[3])
        if s != EMPTY:
            out.append((k, s))
    return tuple(out)


def section_ok(auto):
    """The sections recorded are the section elements written."""
    sec = Nest.get(auto, "#section")
    if sec == EMPTY or any(s == WRONG for _, s in auto):
        return True
    return any(shared(k) and k[0] != "#" and s[0][:len(sec[0])] == sec[0] and s[1][:len(sec[1])] == sec[1] for k, s in auto)


def show(e):
    return "; ".join("%s: %s%s%s" % (re.sub(r"^[^:]*:|#\d+", "", k), "closes %s " % ",".join(s[0]) if s[0] else "",
                                     "opens %s " % ",".join(s[1]) if s[1] else "",
                                     "ends inside a tag" if s[2] not in "tu" else "") for k, s in e) or "nothing"


LISTS = ("start_list", "end_list", "start_list_item", "end_list_item")


class Judge:
    def __init__(self, model, rep):
        self.model, self.rep = model, rep
        self.table = read_table(model, rep)
        self.callers, self.sites = {}, {}
        self.res = {}
        for f in model.fns():
            for n in f.nodes.values():
                if is_call(n) or n.k in CONSTRUCTS:
                    for t in model.targets(n):
                        self.callers.setdefault(t.usr, {})[f.usr] = f
                        self.sites.setdefault(t.usr, []).append((f, n))
        self.rule = Nest(model, None, self.table)
        self.roles = {}
        self.gr = grammar.load(model)

    def one(self, f):
        self.rule.bads = {}
        e0 = self.rule.events
        rs = [r for r in Engine(self.rule, self.model).run(f, ()) if r.kind != "throw"]
        self.res[f.usr] = (f, {r.auto for r in rs}, dict(self.rule.bads), self.rule.events - e0)
        return self.res[f.usr]

    def role(self, f, es):
        """What a function that leaves something open is part of."""
        left = {closed(e) for e in es}
        if left <= {()}:
            return "section" if any(Nest.get(e, "#section") != EMPTY for e in es) else None
        if f.name in LISTS and f.cls == "quickbook::state":
            return "list"
        if all(shared(k) and not s[0] and len(s[1]) == 1 and s[1][0].startswith("markup ") for e in left for k, s in e):
            return "markup"
        if f.name in ("pre", "post") and any(s[0] or s[1] for e in left for k, s in e if shared(k)):
            return "document"
        if not self.callers.get(f.usr):
            return "action"
        return None

    def all(self):
        fns = {}
        for f in self.model.fns():
            if f.q.startswith("quickbook") and f.cfg is not None and writes_markup(f):
                fns.setdefault(f.usr, f)
        # what is called first, so that it is known what is left open
        called = {}
        for u, cs in self.callers.items():
            for c in cs:
                called.setdefault(c, set()).add(u)
        order = {}

        def visit(u):
            st = [(u, iter(sorted(called.get(u, ()))))]
            order[u] = None
            while st:
                v, it = st[-1]
                for w in it:
                    if w not in order:
                        order[w] = None
                        st.append((w, iter(sorted(called.get(w, ())))))
                        break
                else:
                    order[v] = len(order)
                    done.append(v)
                    st.pop()
        done = []
        for u in sorted(fns):
            if u not in order:
                visit(u)
        pos = {u: i for i, u in enumerate(done)}
        work = sorted(fns, key=lambda u: pos[u])
        again = {}
        while work:
            u = work.pop(0)
            f, es, bads, n = self.one(fns[u])
            if u in self.rule.inline:
                continue
            r = self.roles[u] = self.role(f, es)
            if {closed(e) for e in es} <= {()} or r is not None or not self.callers.get(u):
                continue
            self.rule.inline.add(u)
            self.rule.memo.clear()
            for c, cf in self.callers[u].items():
                if cf.cfg is None or not cf.q.startswith("quickbook") or again.get(c, 0) > 6:
                    continue
                fns.setdefault(c, cf)
                if c not in pos:
                    visit(c)
                    pos.update((v, i) for i, v in enumerate(done))
                if c not in work:
                    again[c] = again.get(c, 0) + 1
                    work.append(c)
            work.sort(key=lambda v: pos[v])
        return fns

    # -- the parts that one action opens and another closes
    def markup_only(self, f, es):
        """Opening markup without the closing: only for markup that is whole."""
        ok = True
        for cf, n in self.sites.get(f.usr, []):
            p = n.parent
            while p is not None and p.k not in ("CaseStmt", "SwitchStmt", "CompoundStmt"):
                p = p.parent
            vals = []
            while p is not None and p.k == "CaseStmt":
                vals.append(p.val)
                p = p.parent
            if not vals:
                self.rep.expect(False, "%s: the markup %s is used for is not known" % (n.where(), f.short()))
                return
            for v in vals:
                e = self.table.get(int(v)) if v is not None else None
                if e is None:
                    self.rep.expect(False, "%s: no markup is known for case %s" % (n.where(), v))
                    return
                s = Scan.feed(EMPTY, e[0], lambda m: None)
                if s != EMPTY:
                    ok = False
                    self.rep.bad("nesting", f.short(), f.where(), "only the opening markup '%s' is written for %s" % (e[0].strip(), e[2]))
        if ok:
            self.rep.ok("markup that is whole", f.short())

    def lists(self, fs):
        """start/end of lists and items undo each other."""
        byname = {f.name: (f, es) for f, es in fs}
        for a, b in (("start_list", "end_list"), ("start_list_item", "end_list_item")):
            if a not in byname or b not in byname:
                f = byname.get(a, byname.get(b))[0]
                self.rep.bad("lists", f.short(), f.where(), "what it opens or closes has no counterpart")
                continue
            def forms(f, close):
                out = {}
                mk = [v["did"] for v in f.params]
                for v in ([ord("#"), ord("*")] if mk else [None]):
                    ctx = flow.Ctx(f)
                    cs = {}
                    if v is not None:
                        k = ctx.var_key(mk[0])
                        for c in (ord("#"), ord("*")):
                            cs["(k%d == %s)" % (c, k)] = c == v
                    self.rule.memo.clear()
                    self.rule.given = cs
                    rs = [r for r in Engine(self.rule, self.model).run(f, (), cs) if r.kind != "throw"]
                    self.rule.given = {}
                    out[v] = {tuple((k.rsplit(".", 1)[-1], s[0] if close else s[1], s[1] if close else s[0], s[2]) for k, s in closed(r.auto)) for r in rs}
                return out
            x, y = forms(byname[a][0], False), forms(byname[b][0], True)
            for v in x:
                ok = x[v] == y[v] and len(x[v]) == 1 and all(len(e) == 1 and len(e[0][1]) == 1 and not e[0][2] for e in x[v])
                if ok:
                    self.rep.ok("lists", "%s/%s %s" % (a, b, chr(v) if v else ""))
                else:
                    self.rep.bad("lists", "%s/%s" % (a, b), byname[b][0].where(), "for a list with mark %s, %s opens %s but %s closes %s" % (
                        chr(v) if v else "", a, sorted(x[v], key=str), b, sorted(y[v], key=str)))

    def document(self, fs):
        """The element of the document is closed by what it was opened with."""
        openers, closers = {}, {}
        for f, es in fs:
            if any(s[0] for e in es for k, s in closed(e)):
                closers[f.usr] = (f, es)
            else:
                openers[f.usr] = (f, es)
        for f, es in openers.values():
            bad = None
            for e in es:
                c = closed(e)
                ret = Nest.get(e, "#returned")[1]
                if c == ():
                    if ret != ("'",):
                        bad = "returns %s although it has opened nothing" % (ret,)
                elif len(c) != 1 or len(c[0][1][1]) != 1 or c[0][1][2] != "t" or ret != c[0][1][1]:
                    bad = "leaves %s and returns %s" % (show(c), ret)
            if bad:
                self.rep.bad("document", f.short(), f.where(), bad)
            else:
                self.rep.ok("document", f.short())
        for f, es in closers.values():
            ps = {}
            for p in f.params:
                if "string" in (p.get("t") or ""):
                    ps["{%s}" % flow.Ctx(f).var_key(p["did"])] = flow.Ctx(f).var_key(p["did"])
            names = {s[0][-1] for e in es for k, s in closed(e) if s[0]}
            bad = None
            if len(names) != 1 or not names <= set(ps):
                bad = "closes %s, which it was not given" % ", ".join(sorted(names - set(ps)) or sorted(names))
            else:
                key = ps[names.pop()]
                for empty in (True, False):
                    self.rule.memo.clear()
                    self.rule.given = cs = {key + ".empty()": empty}
                    for r in Engine(self.rule, self.model).run(f, (), cs):
                        c = closed(r.auto)
                        want = () if empty else ("{%s}" % key,)
                        if r.kind != "throw" and (tuple(x for _, s in c for x in s[0]) != want or any(s[1] for _, s in c)):
                            bad = "for %s document type %s" % ("an empty" if empty else "a", show(c))
                    self.rule.given = {}
            if bad:
                self.rep.bad("document", f.short(), f.where(), bad)
            else:
                self.rep.ok("document", f.short())
        callers = {}
        for u in list(openers) + list(closers):
            for cf, n in self.sites.get(u, []):
                callers[cf.usr] = cf
        for u, cf in sorted(callers.items(), key=lambda e: e[1].where()):
            r = Pair(self.model, set(openers), set(closers))
            rs = [x for x in Engine(r, self.model).run(cf, 0) if x.kind != "throw"]
            for m, w in r.bads:
                self.rep.bad("document", cf.short(), w, m)
            if any(x.auto for x in rs):
                self.rep.bad("document", cf.short(), cf.where(), "returns without closing the document it opened")
            elif not r.bads:
                self.rep.ok("document", "%s: opened and closed" % cf.short())

    def actions(self, fs):
        """Actions of the grammar that open or close an element: every way the
        grammar can go through them pairs them up."""
        delta = {}
        for f, es in fs:
            fx = {tuple((re.sub(r"^[^:]*:|#\d+", "", k), s[0], s[1], s[2]) for k, s in closed(e)) for e in es}
            if len(fx) != 1 or len(next(iter(fx))) != 1 or next(iter(fx))[0][3] != "t":
                self.rep.bad("nesting", f.short(), f.where(), "leaves %s" % " or ".join(sorted(show(closed(e)) for e in es)))
                continue
            delta[f.usr] = next(iter(fx))[0]
        if not delta:
            return
        seen = set()
        g = self.gr

        def uses(x, follow):
            """Does a parser run one of the actions itself?"""
            return any(y.k == "act" and any(t.usr in delta for t in self.acts(y)) or y.k == "rule" and y.v in follow for y in x.walk())
        follow, done, why = set(), {}, {}
        for _ in range(6):
            grown = False
            for key in sorted(g.rules):
                if key in follow:
                    continue
                for i, (x, f, n) in enumerate(g.rules[key]):
                    if not uses(x, follow):
                        continue
                    for y in x.walk():
                        if y.k == "act":
                            seen |= {t.usr for t in self.acts(y) if t.usr in delta}
                    w = Walk(self, delta, follow)
                    ok, fail = w.run(x, ())
                    bad = sorted(set(w.bads))
                    if ok - {()}:
                        bad.append("the rule can match with %s left open" % "/".join(e for s in ok for _, e in s))
                    if fail - {()}:
                        bad.append("the rule can fail with %s left open" % "/".join(e for s in fail for _, e in s))
                    done[(key, i)] = (bad, n)
                    if bad:
                        why[key] = 1
            for key in list(why):
                # a part of other rules is judged there
                if key not in follow and any(y.k == "rule" and y.v == key for k2 in g.rules if k2 != key for x, f, n in g.rules[k2] for y in x.walk()) and \
                        not any(y.k == "rule" and y.v == key for x, f, n in g.rules[key] for y in x.walk()):
                    follow.add(key)
                    grown = True
                    for e in [e for e in done if e[0] == key]:
                        done.pop(e)
            why.clear()
            if not grown:
                break
        for (key, i), (bad, n) in sorted(done.items()):
            for m in bad:
                self.rep.bad("actions", "%s: %s" % (last(key), m), n.where(), m)
            if not bad:
                self.rep.ok("actions", "%s %s" % (last(key), n.where()))
        for f, es in fs:
            if f.usr in delta and f.usr not in seen:
                self.rep.bad("nesting", f.short(), f.where(), "leaves %s" % show(closed(next(iter(es)))))

    def acts(self, y):
        return self.gr.action_fns(y.v, y.n.f)


class Walk:
    """All ways through a parser: what is open when it matches or fails."""

    def __init__(self, judge, delta, follow):
        self.j, self.delta, self.follow, self.bads = judge, delta, follow, []
        self.inside = []

    def act(self, y, s):
        for t in self.j.acts(y):
            d = self.delta.get(t.usr)
            if d is None:
                continue
            for c in d[1]:
                if s and s[-1] == (d[0], c):
                    s = s[:-1]
                else:
                    self.bads.append("%s is run where no %s is open" % (last(t.q), c))
            s = s + tuple((d[0], c) for c in d[2])
        return s[-6:]

    def run(self, g, s):
        k = g.k
        if k == "seq":
            cur, fail = {s}, set()
            for c in g.ch:
                nxt = set()
                for x in cur:
                    a, b = self.run(c, x)
                    nxt |= a
                    fail |= b
                cur = nxt
            return cur, fail
        if k == "alt":
            ok, cur = set(), {s}
            for c in g.ch:
                nxt = set()
                for x in cur:
                    a, b = self.run(c, x)
                    ok |= a
                    nxt |= b
                cur = nxt
            return ok, cur
        if k in ("star", "plus", "opt", "repeat"):
            ok, fail, todo, seen = set(), set(), [s], set()
            first = k in ("plus",) or k == "repeat" and (g.v or (1,))[0] not in (0, None)
            if not first:
                ok.add(s)
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                a, b = self.run(g.ch[0], x)
                if k == "opt":
                    return ok | a | b, set()
                ok |= a | b if not (first and x == s) else a
                if first and x == s:
                    fail |= b
                todo += list(a)
            return ok, fail
        if k == "act":
            a, b = self.run(g.ch[0], s)
            return {self.act(g, x) for x in a}, b
        if k == "rule" and g.v in self.follow and g.v not in self.inside:
            ok, fail = set(), set()
            self.inside.append(g.v)
            for x, f, n in self.j.gr.rules.get(g.v, ()):
                a, b = self.run(x, s)
                ok |= a
                fail |= b
            self.inside.pop()
            return ok, fail
        if k == "eps":
            return {s}, set()
        if k == "fail":
            return set(), {s}
        if k in ("and", "not", "look", "diff", "isect", "nocase", "lexeme", "directive", "scoped", "seqor", "xor", "listp", "confixbody") and g.ch:
            a, b = self.run(g.ch[0], s)
            return a | (b if k == "not" else set()), b | a if k in ("and", "not", "diff", "isect", "scoped") else b | {s}
        return {s}, {s}


class Pair(Rule):
    width = 8
    max_depth = 2

    def __init__(self, model, openers, closers):
        Rule.__init__(self, model)
        self.o, self.c, self.bads = openers, closers, []

    def may_inline(self, call, t, ctx):
        return False

    def step(self, n, auto, ctx, st):
        if not is_call(n):
            return None
        ts = {t.usr for t in self.model.targets(n)}
        if ts & self.o:
            if auto:
                self.bads.append(("a document is opened where one is open", n.where()))
            return [1]
        if ts & self.c:
            if not auto:
                self.bads.append(("a document is closed where none is open", n.where()))
            src = False
            for a in call_args(n)[1]:
                x = strip(a, explicit=True)
                x = strip(origin(ctx, x), explicit=True)
                if x is not None and x.k == "DeclRefExpr" and x.dk == "local":
                    i = ctx.fn.nodes.get((ctx.fn.vars().get(x.did) or {}).get("init"))
                    if i is not None and any(is_call(y) and {t.usr for t in self.model.targets(y)} & self.o for y in i.walk()):
                        src = True
                elif x is not None and any(is_call(y) and {t.usr for t in self.model.targets(y)} & self.o for y in x.walk()):
                    src = True
            if not src:
                self.bads.append(("what closes the document is not given what opening it returned", n.where()))
            return [0]
        return None


class Items(Rule):
    """Lists as the grammar drives them: (an item is open, lists more than stacked)."""
    width = 16
    max_depth = 4

    def __init__(self, model, roles):
        Rule.__init__(self, model)
        self.roles, self.bads = roles, {}
        self.kinds = {int(n.val) for f in model.fns() for n in f.nodes.values()
                      if n.k == "DeclRefExpr" and n.dk == "enum" and (n.q or "").endswith("list_stack_item::syntactic_list")}
        self.find_interesting(lambda f: any(is_call(n) and any(t.usr in roles for t in model.targets(n)) for n in f.nodes.values()))

    def may_inline(self, call, t, ctx):
        return t.usr in self.interesting and t.usr not in self.roles

    def track(self, key):
        return False

    def remember(self, key):
        return "list_stack.top()" in key

    def bad(self, n, m):
        self.bads.setdefault((n.where(), m), 1)

    def mark(self, n, ctx, d):
        """Is a list started and ended with the mark on the list stack?"""
        a = call_args(n)[1]
        if not a or a[0] is None:
            return True
        k = ctx.key(a[0])
        for _ in range(3):
            x = strip(a[0], explicit=True)
            if x is not None and x.k == "MemberExpr" and x.name == "mark":
                y = strip(x.ch[0], explicit=True) if x.ch else None
                if y is not None and is_call(y) and last(y.callee or "") == "top":
                    # the list has to be the one on top of the stack now
                    return d == (1 if last(n.callee or "") == "start_list" else 0)
                return True
            if x is not None and x.k == "DeclRefExpr" and x.dk == "parm" and ctx.up is not None:
                return True         # given by the caller
            i = None
            if x is not None and x.k == "DeclRefExpr" and x.dk == "local":
                i = ctx.fn.nodes.get((ctx.fn.vars().get(x.did) or {}).get("init"))
            for m in ctx.fn.nodes.values():
                if m.k in CONSTRUCTS and "list_stack_item" in (m.cls or "") and len(m.kids()) > 1 and k and k == ctx.key(m.kids()[0]):
                    return True
            if i is None:
                return False
            a = [i]
        return False

    def stacked(self, n, ctx, st):
        """+1/-1: an entry of the list stack is pushed or popped."""
        if n.k != "CXXMemberCallExpr" or last(n.callee or "") not in ("push", "pop", "emplace"):
            return 0
        o, args = call_args(n)
        if o is None or "list_stack_item" not in (o.type or ""):
            return 0
        if last(n.callee) == "pop":
            k = ctx.key(o)
            for e in self.kinds:
                if k and st.get("(k%d == %s.top().type)" % (e, k)) is False:
                    return 0    # a block, not a list
            return -1
        for x in args[0].walk() if args else ():
            if x.k in CONSTRUCTS and "list_stack_item" in (x.cls or "") and not x.copy and len([c for c in x.kids()]) == 1:
                return 0        # a block, not a list
        return 1

    def step(self, n, auto, ctx, st):
        item, d = auto
        s = self.stacked(n, ctx, st)
        if s:
            d += s
            if abs(d) > 3:
                self.bad(n, "the list stack is changed without starting or ending a list")
                d = 0
            return [(item, d)]
        if not is_call(n):
            return None
        nm = next((self.roles[t.usr] for t in self.model.targets(n) if t.usr in self.roles), None)
        if nm is None:
            return None
        if nm in ("start_list", "end_list") and not self.mark(n, ctx, d):
            self.bad(n, "the mark given to %s is not that of the entry on the list stack" % nm)
        if nm == "start_list":
            if not item:
                self.bad(n, "a list is started outside of an item")
            return [(False, d - 1)]
        if nm == "end_list":
            if item:
                self.bad(n, "a list is ended while its item is open")
            return [(True, d + 1)]
        if nm == "start_list_item":
            if item:
                self.bad(n, "an item is started while one is open")
            return [(True, d)]
        if not item:
            self.bad(n, "an item is ended where none is open")
        return [(False, d)]


def run(model, rep):
    rep.rule("on every path each element opened in a buffer is closed in order, each tag and attribute begun is finished")
    rep.rule("sections written are the sections recorded; the document element, list elements and elements spanning grammar actions are closed by their counterparts, on every way through the code and the grammar that opens them")
    j = Judge(model, rep)
    fns = j.all()
    groups = {}
    for u in sorted(fns, key=lambda x: fns[x].where()):
        f, es, bads, events = j.res[u]
        if u in j.rule.inline:
            continue
        for (w, msg), chain in sorted(bads.items()):
            rep.bad("nesting", "%s: %s" % (f.short(), msg), w, "%s (%s)" % (msg, chain))
        for e in es:
            if not section_ok(e):
                rep.bad("sections", f.short(), f.where(), "a section is recorded as %s but the output %s" % (
                    show((("section", Nest.get(e, "#section")),)), show(tuple(x for x in e if x[0][0] != "#"))))
                break
        else:
            if any(Nest.get(e, "#section") != EMPTY for e in es):
                rep.ok("sections", f.short())
        if {closed(e) for e in es} <= {()}:
            if not bads and events:
                rep.ok("nesting", f.short())
            continue
        if j.roles.get(u):
            groups.setdefault(j.roles[u], []).append((f, es))
        else:
            rep.bad("nesting", f.short(), f.where(), "leaves %s" % " | ".join(sorted({show(closed(e)) for e in es})[:5]))
    for f, es in groups.get("markup", ()):
        j.markup_only(f, es)
    if groups.get("list"):
        j.lists(groups["list"])
        roles = {f.usr: f.name for f, es in groups["list"]}
        r = Items(model, roles)
        tops = [f for f in model.fns() if f.usr in r.interesting and f.usr not in roles and f.cfg is not None and
                not any(c in r.interesting and c not in roles for c in j.callers.get(f.usr, {}))]
        for f in sorted(tops, key=lambda f: f.where()):
            r.bads = {}
            rs = [x for x in Engine(r, model).run(f, (True, 0)) if x.kind != "throw"]
            for (w, m) in sorted(r.bads):
                rep.bad("lists", "%s: %s" % (f.short(), m), w, m)
            if any(not x.auto[0] for x in rs):
                rep.bad("lists", f.short(), f.where(), "can return between two items of a list")
            elif any(x.auto[1] for x in rs):
                rep.bad("lists", f.short(), f.where(), "can return with a list stack that differs from the lists written")
            elif not r.bads:
                rep.ok("lists", f.short())
    if groups.get("document"):
        j.document(groups["document"])
    j.actions(groups.get("action", []))
    rep.at_least("nesting", 50)
    rep.at_least("sections", 3)
    rep.at_least("lists", 4)
    rep.at_least("actions", 1)
    rep.at_least("document", 3)
    rep.extra.update({"functions": len(fns), "judged inside their callers": sorted(fns[u].short() for u in j.rule.inline),
                      "markup table": len(j.table), "writes": j.rule.events})
