"""P20: highlighting and code processing lose no characters.

Coverage analysis of the code grammars as extracted from the program: for every
highlighter, (1) whatever an expression consumes lies under an action that
prints the whole matched range or under an escape of the language (a macro, a
callout, a ``-escape), (2) one round of the top-level loop accepts any next
byte, so nothing is left unmatched, (3) the printing actions print the whole
range on every path (path-sensitive), and every source mode's grammar is run
over the whole text.  For code snippets the text is copied through a cursor:
(4) the cursor is only moved after the text before it was copied, and no
snippet is opened or closed before that."""
import string

from . import flow, grammar, p05
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args, call_object

ALL = frozenset(range(256))
SPACE = frozenset(b" \t\n\v\f\r")
BLANK = frozenset(b" \t")
EOL = frozenset(b"\r\n")


def cls_set(name):
    t = {"anychar_p": ALL, "space_p": SPACE, "blank_p": BLANK,
         "alpha_p": frozenset(string.ascii_letters.encode()),
         "alnum_p": frozenset((string.ascii_letters + string.digits).encode()),
         "digit_p": frozenset(string.digits.encode()),
         "xdigit_p": frozenset(string.hexdigits.encode()),
         "punct_p": frozenset(string.punctuation.encode()),
         "lower_p": frozenset(string.ascii_lowercase.encode()),
         "upper_p": frozenset(string.ascii_uppercase.encode()),
         "print_p": frozenset(range(32, 127)), "graph_p": frozenset(range(33, 127)),
         "cntrl_p": frozenset(list(range(32)) + [127])}
    return t.get(name)


def chset(s):
    """Characters of a chset definition string."""
    out = set()
    i = 0
    b = s.encode("latin-1", "replace") if isinstance(s, str) else s
    while i < len(b):
        if i + 2 < len(b) and b[i + 1] == ord("-"):
            out |= set(range(b[i], b[i + 2] + 1))
            i += 3
        else:
            out.add(b[i])
            i += 1
    return frozenset(out)


# ---------------------------------------------------------------- actions

def is_iter(t):
    t = (t or "")
    return "iterator" in t or "char" in t and t.replace("const", "").replace(" ", "").rstrip("&") == "char*"


PRINTS = ("print_char", "print_string", "operator<<", "append", "write", "put", "add", "add_at_pos", "operator+=", "push_back",
          "insert", "unindent_and_add")


class Prints(Rule):
    """Is the whole range [first, last) of the action written on every path?
    States: 0 nothing yet, 1 a character is due, 2 it was written, 3 all done."""
    copies = True
    width = 20
    max_depth = 5

    def __init__(self, model, fn, cursor=None):
        Rule.__init__(self, model)
        self.fn = fn
        ps = [p for p in fn.params if is_iter(p["t"])]
        self.first = ps[0]["did"] if ps else None
        self.last = ps[1]["did"] if len(ps) > 1 else None
        self.bads = []

    def may_inline(self, call, t, ctx):
        if t.cfg is None or last(call.callee or "") in PRINTS:
            return False
        _, args = call_args(call)
        kinds = [self.kind(a, ctx) for a in args if a is not None]
        return "first" in kinds and "last" in kinds

    def enter(self, call, t, args, auto, ctx, cctx):
        return auto

    # what an expression stands for
    def kind(self, n, ctx, depth=0):
        n = strip(n, explicit=True)
        if n is None or depth > 12:
            return None
        if n.k == "DeclRefExpr":
            if n.dk == "parm":
                if ctx.up is None:
                    return "first" if n.did == self.first else "last" if n.did == self.last else None
                pos = [k for k, p in enumerate(ctx.fn.params) if p["did"] == n.did]
                if pos and ctx.call is not None:
                    _, args = call_args(ctx.call)
                    if pos[0] < len(args) and args[pos[0]] is not None:
                        return self.kind(args[pos[0]], ctx.up, depth + 1)
                return None
            if n.dk == "local":
                v = ctx.fn.vars().get(n.did)
                if v is not None and v.get("init"):
                    return self.kind(ctx.fn.nodes.get(v["init"]), ctx, depth + 1)
            return None
        if n.k in CONSTRUCTS or is_call(n):
            o, args = call_args(n)
            nm = last(n.callee or "")
            if o is not None and nm in ("base", "get", "str", "c_str", "data", "to_s", "begin"):
                k = self.kind(o, ctx, depth + 1)
                return k
            if o is not None and nm == "end":
                return "last" if self.kind(o, ctx, depth + 1) == "whole" else self.kind(o, ctx, depth + 1)
            ks = []
            for a in ([o] if o is not None else []) + list(args):
                if a is None or a.k == "CXXDefaultArgExpr":
                    continue
                ks.append(self.kind(a, ctx, depth + 1))
            if nm == "operator-" or n.k == "CXXOperatorCallExpr" and n.op == "-":
                return "length" if ks == ["last", "first"] else None
            if len(ks) == 1:
                return ks[0]
            if ks[:2] in (["first", "last"], ["first", "length"]):
                return "whole"
            if len(ks) > 2 and "whole" in ks:
                return "whole"
            return None
        if n.k == "BinaryOperator" and n.op == "-":
            ks = [self.kind(c, ctx, depth + 1) for c in n.ch]
            return "length" if ks == ["last", "first"] else None
        if n.k == "ImplicitCastExpr" and n.ch:
            return self.kind(n.ch[0], ctx, depth + 1)
        return None

    def printing(self, n):
        return is_call(n) and (last(n.callee or "") in PRINTS)

    def under_print(self, n):
        p = n.parent
        while p is not None:
            if self.printing(p):
                return True
            if p.k in ("CompoundStmt", "WhileStmt", "ForStmt", "IfStmt", "DeclStmt"):
                return False
            p = p.parent
        return False

    @staticmethod
    def held_in(n):
        """The declaration that keeps the value of this expression."""
        p = n.parent
        while p is not None and p.k in ("ImplicitCastExpr", "UnaryOperator", "CXXOperatorCallExpr", "ParenExpr",
                                        "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"):
            p = p.parent
        return p if p is not None and p.k == "DeclStmt" else None

    def step(self, n, auto, ctx, st):
        if n.k in ("UnaryOperator", "CXXOperatorCallExpr") and n.op in ("++", "p++"):
            x = n.ch[0] if n.k == "UnaryOperator" else n.ch[1]
            if self.kind(x, ctx) == "first" and auto != 3:
                if self.under_print(n):
                    return [2]
                if auto == 1 and self.held_in(n) is not None:
                    return [5]       # char c = *first++;
                if auto == 1:
                    self.bads.append(n.where())
                    return [9]
                return None
        if self.printing(n):
            o, args = call_args(n)
            xs = list(args) if n.k != "CXXOperatorCallExpr" else list(n.ch[2:])
            ks = [self.kind(a, ctx) for a in xs if a is not None]
            if "whole" in ks or "first" in ks and ("last" in ks or "length" in ks):
                return [3] if auto != 9 else None
            for a in xs:
                if a is None:
                    continue
                ys = list(a.walk())
                for y in a.walk():
                    if y.k == "DeclRefExpr" and y.dk == "local":
                        v = ctx.fn.vars().get(y.did)
                        i = ctx.fn.nodes.get(v["init"]) if v is not None and v.get("init") else None
                        if i is not None and not is_iter(v["t"]):
                            ys += list(i.walk())
                for y in ys:
                    if y.k in ("UnaryOperator",) and y.op == "*" and self.kind(y.ch[0], ctx) == "first" or \
                            y.k == "CXXOperatorCallExpr" and y.op == "*" and self.kind(y.ch[1], ctx) == "first":
                        return [2] if auto in (0, 1, 2, 5) else None
        if n.k == "DeclStmt":
            # for (char c : whole) print(c)
            for v in n.d.get("vars", ()):
                if v.get("name", "").startswith("__range") and v.get("init") and \
                        self.kind(ctx.fn.nodes.get(v["init"]), ctx) == "whole":
                    for lp in ctx.fn.nodes.values():
                        if lp.k == "CXXForRangeStmt" and any(c is n for c in lp.ch) and self.each(lp):
                            return [3] if auto != 9 else None
        return None

    def each(self, lp):
        body = lp.ch[-1]
        if body is None:
            return False
        if any(x.k in ("IfStmt", "SwitchStmt", "ContinueStmt", "BreakStmt", "ConditionalOperator") for x in body.walk()):
            return False
        return any(self.printing(x) for x in body.walk())

    def edge(self, cond, truth, auto, ctx, st):
        n = strip(cond, explicit=True)
        while n is not None and (n.k == "UnaryOperator" and n.op == "!"):
            n, truth = strip(n.ch[0], explicit=True), not truth
        if n is None:
            return None
        op, a, b = None, None, None
        if n.k == "BinaryOperator":
            op, a, b = n.op, n.ch[0], n.ch[1]
        elif n.k == "CXXOperatorCallExpr" and len(n.ch) == 3:
            op, a, b = n.op, n.ch[1], n.ch[2]
        if op in ("==", "!=", "<"):
            ks = [self.kind(a, ctx), self.kind(b, ctx)]
            if sorted(str(x) for x in ks) == ["first", "last"]:
                same = truth == (op == "==")
                if auto in (3, 9):
                    return None
                if auto == 5:
                    self.bads.append(n.where())
                    return [9]
                if same:
                    return [3] if auto in (0, 2) else [auto]
                return [1]
        return None


def whole_range(model, fn):
    """(True, None) when fn prints [first, last) on every path, else where not."""
    r = Prints(model, fn)
    if r.first is None or r.last is None:
        return False, fn.where()
    res = Engine(r, model).run(fn, 0)
    outs = {x.auto for x in res if x.kind == "return"}
    if outs == {3}:
        return True, None
    return False, (r.bads[0] if r.bads else fn.where())


def reports_error(model, fn):
    us = flow.reach(model, {fn.usr})
    return any(last(n.callee or "") == "outerr" for u in us if u in model.functions
               for n in model.functions[u].nodes.values() if is_call(n))


class Kept(Rule):
    """Text diverted by push_output is read before pop_output and written
    after it.  States: 0, 1 read, 2 popped, 3 written."""
    max_depth = 4

    def may_inline(self, call, t, ctx):
        return t.cfg is not None and t.name not in ("push_output", "pop_output") and len(t.nodes) < 120 and \
            any(is_call(n) and last(n.callee or "") in ("pop_output", "swap", "str", "operator<<") for n in t.nodes.values())

    def step(self, n, auto, ctx, st):
        if not is_call(n):
            return None
        nm = last(n.callee or "")
        if nm == "pop_output":
            return [2 if auto == 1 else 9]
        o, args = call_args(n)
        xs = ([o] if o is not None else []) + [a for a in args if a is not None]

        def coll(x):
            x = strip(x, explicit=True)
            return x is not None and x.k == "MemberExpr" and x.name in ("phrase", "out") and "state" in (x.q or "")
        if nm in ("swap", "str", "invoke_swap", "get") and any(coll(x) for x in xs) and auto == 0:
            return [1]
        if n.k == "CXXOperatorCallExpr" and n.op == "<<" and auto == 2 and coll(n.ch[1]):
            return [3]
        return None


class Must(Rule):
    """A write to the output on every path."""
    max_depth = 4

    def may_inline(self, call, t, ctx):
        return t.cfg is not None and any(self.out(n) for n in t.nodes.values()) or \
            t.cfg is not None and t.name == "operator()" and (t.cls or "").startswith("quickbook::")

    def out(self, n):
        if is_call(n) and n.k == "CXXOperatorCallExpr" and n.op == "<<" and "collector" in (strip(n.ch[1]).type or "") or \
                is_call(n) and last(n.callee or "") in ("print_string", "print_char"):
            return True
        return False

    def step(self, n, auto, ctx, st):
        return [1] if self.out(n) else None


class Actions:
    """What the semantic actions of a grammar do with the text they match."""

    def __init__(self, model, gr):
        self.model, self.gr = model, gr
        self.memo = {}
        self.why = {}

    def fns(self, g, f):
        out = [t for t in self.gr.action_fns(g.v, f) if t.cfg is not None]
        v = strip(g.v, explicit=True)
        # &Class::member given to bind / member_action
        seen = {t.usr for t in out}
        tys = {v.type} if v is not None else set()
        for t in list(tys):
            b = (t or "").replace("const ", "").rstrip("&* ").strip()
            if b.startswith("quickbook::") and not b.startswith("quickbook::member_action"):
                hs = [h for h in self.model.fns() if h.name == "operator()" and h.cls == b and h.usr not in seen]
                two = [h for h in hs if len([p for p in h.params if is_iter(p["t"])]) == 2]
                out += two or hs
        return [t for t in out if not (t.cls or "").startswith("quickbook::member_action")]

    def role(self, g, f):
        roles = set()
        for t in self.fns(g, f):
            roles.add(self.fn_role(t))
        if not roles:
            return "none"
        return roles.pop() if len(roles) == 1 else "mixed:" + ",".join(sorted(roles))

    def fn_role(self, t):
        if t.usr in self.memo:
            return self.memo[t.usr]
        self.memo[t.usr] = r = self._role(t)
        return r

    def calls(self, t, *names):
        us = flow.reach(self.model, {t.usr})
        for u in us:
            g = self.model.functions.get(u)
            if g is None or len(us) > 60:
                continue
            for n in g.nodes.values():
                if is_call(n) and last(n.callee or "") in names:
                    return True
        return False

    def direct(self, t, *names):
        return any(is_call(n) and last(n.callee or "") in names for n in t.nodes.values())

    def _role(self, t):
        ps = [p for p in t.params if is_iter(p["t"])]
        if self.direct(t, "pop_output") or self.helper(t, "pop_output"):
            res = Engine(Kept(self.model), self.model).run(t, 0)
            outs = {x.auto for x in res if x.kind == "return"}
            if outs == {3}:
                return "close"
            self.why[t.usr] = "%s drops the text converted in the escape" % t.short()
            return "loses"
        if self.direct(t, "push_output") or self.helper(t, "push_output"):
            return "open"
        if self.direct(t, "add_callout") or self.helper(t, "add_callout"):
            res = Engine(Must(self.model), self.model).run(t, 0)
            if {x.auto for x in res if x.kind == "return"} == {1}:
                return "callout"
            self.why[t.usr] = "%s does not write the callout on every path" % t.short()
            return "loses"
        if len(ps) >= 2:
            ok, where = whole_range(self.model, t)
            if ok:
                return "prints"
            marks = self.marks(t)
            if marks:
                return "mark"
            if any(Prints(self.model, t).printing(n) for n in t.nodes.values()) and not reports_error(self.model, t):
                self.why[t.usr] = "%s does not print the whole matched range on every path (%s)" % (t.short(), where)
                return "loses"
            if reports_error(self.model, t):
                return "error"
            self.why[t.usr] = "%s prints nothing of what it matched" % t.short()
            return "nothing"
        if t.params and "string" in t.params[0]["t"]:
            res = Engine(Must(self.model), self.model).run(t, 0)
            if {x.auto for x in res if x.kind == "return"} == {1}:
                return "macro"
            self.why[t.usr] = "%s does not write the macro's text on every path" % t.short()
            return "loses"
        if reports_error(self.model, t):
            return "error"
        return "nothing"

    def helper(self, t, name):
        return any(is_call(n) and any(h.cls == t.cls and self.direct(h, name) for h in self.model.targets(n)) for n in t.nodes.values())

    def marks(self, t):
        """Stores the whole range in members on every path."""
        r = Prints(self.model, t)

        class C:
            pass
        got = set()
        from .flow import Ctx
        ctx = Ctx(t)
        for n in t.nodes.values():
            l = rr = None
            if n.k == "BinaryOperator" and n.op == "=":
                l, rr = n.ch
            elif n.k == "CXXOperatorCallExpr" and n.op == "=":
                l, rr = n.ch[1], n.ch[2]
            if l is not None and strip(l).k == "MemberExpr":
                k = r.kind(rr, ctx)
                if k:
                    got.add(k)
        cond = any(n.k in ("IfStmt", "ConditionalOperator", "SwitchStmt") for n in t.nodes.values())
        return not cond and ("whole" in got or {"first", "last"} <= got)


# ---------------------------------------------------------------- coverage

class Coverage:
    def __init__(self, model, gr, null, acts, rep):
        self.model, self.gr, self.null, self.acts, self.rep = model, gr, null, acts, rep
        self.done = {}
        self.problems = []
        self.own = set()

    def zero(self, g):
        """Never consumes."""
        k = g.k
        if k in ("eps", "and", "not", "cond", "ver", "look", "guard", "end"):
            return True
        if k == "str":
            return g.v == ""
        if k in ("seq", "alt", "act", "opt", "star", "plus", "nocase", "lexeme", "confixbody"):
            return all(self.zero(c) for c in (g.ch if k != "confixbody" else g.ch[:1]))
        if k == "diff":
            return self.zero(g.ch[0])
        return False

    def bad(self, g, f, what):
        n = g.n
        self.problems.append((n.where() if n is not None else f.where(), what, n))

    def cov(self, g, f, mode, lit=None):
        """Report what g consumes outside any printing action."""
        k = g.k
        if self.zero(g) and k != "act":
            return
        if k == "act":
            role = self.acts.role(g, f)
            for t in self.acts.fns(g, f):
                w = self.acts.why.get(t.usr)
                if w and role in ("loses",):
                    self.bad(g, f, w)
                    return
            if role == "prints":
                self.rep.ok("printed tokens", g.where())
                self.inner(g.ch[0], f, mode)
                return
            if role == "macro":
                self.rep.ok("macros", g.where())
                return
            if role == "callout":
                self.rep.ok("callouts", g.where())
                if not self.must(g.ch[0], f, "mark", set()):
                    self.bad(g, f, "the text of this callout is not recorded on every way of matching it")
                return
            if role == "open":
                self.rep.ok("escapes", g.where())
                return
            if role == "close":
                self.rep.ok("escapes", g.where())
                self.cov(g.ch[0], f, "escape", None)
                return
            return self.cov(g.ch[0], f, mode, lit)
        if k in ("seq", "alt", "seqor", "xor", "listp"):
            if k == "seq" and mode == "escape" and any(self.has(c, f, "error") for c in g.ch):
                self.rep.ok("reported", g.where())
                return
            for c in g.ch:
                self.cov(c, f, mode, lit)
            return
        if k in ("star", "plus", "opt", "repeat", "nocase", "lexeme"):
            return self.cov(g.ch[0], f, mode, lit)
        if k == "confixbody":
            return self.cov(g.ch[0], f, mode, lit)
        if k == "diff":
            return self.cov(g.ch[0], f, mode, lit)
        if k == "isect":
            before = len(self.problems)
            best = None
            for c in g.ch:
                del self.problems[before:]
                self.cov(c, f, mode, lit)
                new = self.problems[before:]
                if best is None or len(new) < len(best):
                    best = list(new)
            del self.problems[before:]
            self.problems += best or []
            return
        if k == "rule":
            ds = self.null.defs(g.v)
            if g.v.startswith("start:") or ds is None or not all(d.rsplit("::", 1)[0] in self.own for d in ds):
                # another grammar: the document's, run over the text of an escape
                if mode == "escape" and g.v.startswith("start:"):
                    return
                if mode == "escape" and ds and all(d.startswith("quickbook::quickbook_grammar") for d in ds):
                    return
                return self.bad(g, f, "text matched by another grammar is not written")
            for d in ds:
                if (d, mode) in self.done:
                    self.problems += [p for p in self.done[(d, mode)] if p not in self.problems]
                    continue
                self.done[(d, mode)] = []
                before = len(self.problems)
                for g2, f2, _ in self.gr.rules[d]:
                    self.cov(g2, f2, mode, lit)
                self.done[(d, mode)] = list(self.problems[before:])
            return
        if k == "str" and mode == "escape":
            return              # the closing delimiter
        return self.bad(g, f, "characters are consumed here and not written (%s)" % self.text(g))

    def inner(self, g, f, mode):
        pass

    def text(self, g):
        n = g.n
        if g.k == "str":
            return repr(g.v)
        if g.k in ("class", "set"):
            return str(g.v)
        return g.k

    def has(self, g, f, role):
        for x in g.walk():
            if x.k == "act" and self.acts.role(x, f) == role:
                return True
        return False

    def must(self, g, f, role, seen):
        """An action of this role runs whenever g matches."""
        k = g.k
        if k == "act":
            return self.acts.role(g, f) == role or self.must(g.ch[0], f, role, seen)
        if k in ("seq",):
            return any(self.must(c, f, role, seen) for c in g.ch)
        if k == "alt":
            return all(self.must(c, f, role, seen) for c in g.ch)
        if k in ("plus", "confixbody", "nocase", "lexeme", "diff", "isect"):
            return self.must(g.ch[0], f, role, seen)
        if k == "rule":
            ds = self.null.defs(g.v)
            if not ds or g.v in seen:
                return False
            return all(self.must(g2, f2, role, seen | {g.v}) for d in ds for g2, f2, _ in self.gr.rules[d])
        return False

    # -- acceptance --------------------------------------------------------
    def always(self, g, depth=0):
        """Matches whatever follows (possibly nothing)."""
        k = g.k
        if k in ("star", "opt", "eps"):
            return True
        if k == "act":
            return self.always(g.ch[0], depth + 1)
        if k == "seq":
            return all(self.always(c, depth + 1) for c in g.ch)
        if k == "alt":
            return any(self.always(c, depth + 1) for c in g.ch)
        if k == "rule" and depth < 12:
            ds = self.null.defs(g.v)
            return bool(ds) and len(ds) == 1 and all(self.always(g2, depth + 1) for d in ds for g2, _, _ in self.gr.rules[d])
        return False

    def single(self, g, depth=0):
        """Set of bytes when g matches exactly one byte of a set."""
        k = g.k
        if k == "class":
            return cls_set(g.v)
        if k == "set":
            return chset(g.v) if g.v is not None else None
        if k == "str" and g.v is not None and len(g.v) == 1:
            return frozenset([ord(g.v) & 255])
        if k == "act":
            return self.single(g.ch[0], depth + 1)
        if k == "alt":
            s = [self.single(c, depth + 1) for c in g.ch]
            return None if None in s else frozenset().union(*s)
        if k == "diff":
            a, b = self.single(g.ch[0]), self.single(g.ch[1])
            return None if a is None or b is None else a - b
        if k == "eol":
            return EOL
        if k == "negch":
            a = self.single(g.ch[0])
            return None if a is None else ALL - a
        if k == "rule" and depth < 10:
            ds = self.null.defs(g.v)
            if ds and len(ds) == 1:
                r = [self.single(g2, depth + 1) for d in ds for g2, _, _ in self.gr.rules[d]]
                return r[0] if len(r) == 1 else None
        return None

    def accept(self, g, depth=0):
        """Next bytes on which g surely matches and consumes at least one."""
        if depth > 15:
            return frozenset()
        k = g.k
        s = self.single(g)
        if s is not None:
            return s
        if k == "consume":
            return ALL if total_parser(self.model, g) else frozenset()
        if k == "act":
            return self.accept(g.ch[0], depth + 1)
        if k == "alt":
            return frozenset().union(*[self.accept(c, depth + 1) for c in g.ch])
        if k in ("plus", "star"):
            return self.accept(g.ch[0], depth + 1)
        if k == "rule":
            ds = self.null.defs(g.v)
            if not ds or len(ds) != 1:
                return frozenset()
            out = None
            for d in ds:
                for g2, _, _ in self.gr.rules[d]:
                    a = self.accept(g2, depth + 1)
                    out = a if out is None else out & a
            return out or frozenset()
        if k == "seq":
            return self.seq(list(g.ch), depth)
        return frozenset()

    def seq(self, ch, depth):
        if not ch:
            return frozenset()
        a, rest = ch[0], ch[1:]
        inner = a
        while inner.k == "act":
            inner = inner.ch[0]
        if inner.k == "not":
            s = self.single(inner.ch[0])
            if s is None:
                return frozenset()
            return (ALL - s) & self.seq(rest, depth + 1)
        if inner.k == "and":
            s = self.single(inner.ch[0])
            if s is None:
                return frozenset()
            return s & self.seq(rest, depth + 1)
        if inner.k == "eps":
            return self.seq(rest, depth + 1)
        tail = all(self.always(c) for c in rest)
        if inner.k in ("star", "plus"):
            s = self.single(inner.ch[0])
            if s is None:
                return self.seq(rest, depth + 1) if False else frozenset()
            if tail and rest and not self.seq(rest, depth + 1):
                return s
            r = self.seq(rest, depth + 1)
            out = frozenset()
            # after the run the next byte is outside s (or there is none,
            # and then everything was consumed and printed)
            if tail or ALL - s <= r:
                out |= s
            if inner.k == "star":
                out |= r - s
            return out
        if inner.k == "opt":
            return frozenset()
        s = self.accept(a, depth + 1)
        return s if tail else frozenset()


def total_parser(model, g):
    """A hand-written parser that fails only at the end of the text."""
    n = g.n
    t = None
    if n is not None:
        t = (n.type or n.rt or n.cls or "").replace("const ", "").rstrip("& ")
    fs = [f for f in model.fns() if f.name == "parse" and f.cls and t and f.cls.split("<")[0] == t.split("<")[0]]
    if not fs:
        return False
    for f in fs:
        r = AtEnd(model)
        Engine(r, model).run(f, False)
        if r.bad:
            return False
    return True


class AtEnd(Rule):
    def __init__(self, model):
        Rule.__init__(self, model)
        self.bad = []

    def step(self, n, auto, ctx, st):
        if is_call(n) and last(n.callee or "") == "no_match" and not auto:
            self.bad.append(n.where())
        return None

    def edge(self, cond, truth, auto, ctx, st):
        n = strip(cond, explicit=True)
        while n is not None and n.k == "UnaryOperator" and n.op == "!":
            n, truth = strip(n.ch[0], explicit=True), not truth
        if n is not None and is_call(n) and last(n.callee or "") == "at_end":
            return [truth]
        return None


# ---------------------------------------------------------------- snippets

class Cursor(Rule):
    """last_code_pos (the cursor: a text iterator member the class compares
    with its range) moves only when the text before it was copied."""
    copies = True
    width = 40

    def __init__(self, model, cls, cursor, stack):
        Rule.__init__(self, model)
        self.cls, self.cursor, self.stack = cls, cursor, stack
        self.bads = {}
        self.find_interesting(lambda f: f.cls == cls)

    def may_inline(self, call, t, ctx):
        return t.cls == self.cls

    def is_cursor(self, n):
        n = strip(n, explicit=True)
        return n is not None and n.k == "MemberExpr" and n.name == self.cursor and (n.q or "").startswith(self.cls)

    def step(self, n, auto, ctx, st):
        copied, flushed = auto
        if is_call(n) and last(n.callee or "") in ("add", "append") and n.k == "CXXMemberCallExpr":
            _, args = call_args(n)
            for a in args:
                if a is not None and any(self.is_cursor(x) for x in a.walk()):
                    # view(cursor, pos - cursor)
                    return [(True, flushed)]
        l = None
        if n.k == "BinaryOperator" and n.op == "=":
            l = n.ch[0]
        elif n.k == "CXXOperatorCallExpr" and n.op == "=":
            l = n.ch[1]
        if l is not None and self.is_cursor(l):
            if not copied:
                self.bads[(n.where(), "moved")] = ctx.chain()
            return [(False, True)]
        if is_call(n):
            o, args = call_args(n)
            so = strip(o, explicit=True) if o is not None else None
            # opening, closing or storing a snippet
            if so is not None and so.k == "MemberExpr" and (so.q or "").startswith(self.cls) and last(n.callee or "") == "get_pos":
                if not flushed:
                    self.bads[(n.where(), "cut")] = ctx.chain()
        return None

    def edge(self, cond, truth, auto, ctx, st):
        copied, flushed = auto
        n = strip(cond, explicit=True)
        while n is not None and (n.k == "UnaryOperator" and n.op == "!" or n.k == "CXXOperatorCallExpr" and n.op == "!"):
            n, truth = strip(n.ch[0] if n.k == "UnaryOperator" else n.ch[1], explicit=True), not truth
        if n is None:
            return None
        if n.k == "BinaryOperator" and n.op in ("==", "!="):
            if self.is_cursor(n.ch[0]) or self.is_cursor(n.ch[1]):
                if truth == (n.op == "=="):
                    return [(True, flushed)]      # nothing before it
                return None
        if is_call(n) and last(n.callee or "").startswith("operator ") and call_object(n) is not None:
            n = strip(call_object(n), explicit=True)
        if n is not None and n.k == "MemberExpr" and n.name == self.stack and not truth:
            return [(True, flushed)]              # not inside a snippet
        return None


def snippets(model, gr, null, acts, rep):
    """The snippet grammars and their cursor."""
    classes = {}
    for k, ds in gr.rules.items():
        for g, f, n in ds:
            for x in g.walk():
                if x.k == "act":
                    for t in acts.fns(x, f):
                        if t.cls and "snippet" in t.cls:
                            classes.setdefault(t.cls, {}).setdefault(k, []).append((x, f, t))
    if not classes:
        raise Broken("no code snippet actions found")
    for cls, rules in classes.items():
        fns = [f for f in model.fns() if f.cls == cls]
        # the cursor: an iterator member assigned from a parameter and used in a copy
        cands = {}
        for f in fns:
            for n in f.nodes.values():
                if is_call(n) and last(n.callee or "") in ("add", "append"):
                    _, args = call_args(n)
                    for a in args:
                        if a is not None:
                            for x in a.walk():
                                if x.k == "MemberExpr" and is_iter(x.type) and (x.q or "").startswith(cls):
                                    cands.setdefault(x.name, 0)
        written = {}
        for f in fns:
            if f.d.get("ctor"):
                continue
            for n in f.nodes.values():
                if n.k == "BinaryOperator" and n.op == "=" and strip(n.ch[0]).k == "MemberExpr":
                    nm = strip(n.ch[0]).name
                    r = strip(n.ch[1], explicit=True)
                    if nm in cands:
                        written.setdefault(nm, []).append((f, n, r))
        marks = set()
        for f in fns:
            if acts.marks(f):
                for n in f.nodes.values():
                    if n.k == "BinaryOperator" and n.op == "=" and strip(n.ch[0]).k == "MemberExpr":
                        marks.add(strip(n.ch[0]).name)
        cursors = [c for c in written if c not in marks]
        if len(cursors) != 1:
            raise Broken("cannot tell the copy position among %s of %s" % (sorted(written), cls))
        stacks = [fl for fl in {x.name for f in fns for x in f.nodes.values() if x.k == "MemberExpr" and "shared_ptr" in (x.type or "") and (x.q or "").startswith(cls + "::")}
                  if fl != "next"]
        stack = next((s for s in stacks if "stack" in s), stacks[0] if len(stacks) == 1 else None)
        rule = Cursor(model, cls, cursors[0], stack)
        eng = Engine(rule, model)
        roots = {}
        for k, xs in rules.items():
            for x, f, t in xs:
                roots[t.usr] = t
        for t in roots.values():
            n0 = len(rule.bads)
            eng.run(t, (False, False))
            if len(rule.bads) == n0:
                rep.ok("snippet text copied", t.short())
        for (w, what), chain in rule.bads.items():
            msg = "the copy position is moved past text that was not copied" if what == "moved" else \
                "a snippet is opened or cut before the text in front of it was copied"
            rep.bad("snippet text copied", "%s in %s" % (what, chain.split(" <- ")[0]), w, "%s (%s)" % (msg, chain))
        # actions that use the marked text
        uses = set()
        for f in fns:
            if acts.marks(f) or f.d.get("ctor"):
                continue
            if any(n.k == "MemberExpr" and n.name in marks for n in f.nodes.values()):
                uses.add(f.usr)
        cov = Coverage(model, gr, null, acts, rep)
        for k, xs in rules.items():
            for x, f, t in xs:
                if flow.reach(model, {t.usr}) & uses and not acts.marks(t):
                    if cov.must(x.ch[0], f, "mark", set()):
                        rep.ok("marked text", x.where())
                    else:
                        rep.bad("marked text", "%s without mark" % t.short(), x.where(),
                                "%s uses the marked text but can match without marking any" % t.short())
        marked(model, rep, cls, fns, marks, roots, acts, stack)
        stored(model, rep, cls, fns)


class Marked(Rule):
    """Marked text is copied unless it is empty or outside a snippet."""
    width = 40

    def __init__(self, model, cls, marks, stack):
        Rule.__init__(self, model)
        self.cls, self.marks, self.stack = cls, marks, stack

    def may_inline(self, call, t, ctx):
        return t.cls == self.cls

    def step(self, n, auto, ctx, st):
        if is_call(n) and last(n.callee or "") in ("add", "append", "unindent_and_add", "start_snippet_impl"):
            for a in call_args(n)[1]:
                if a is not None and any(x.k == "MemberExpr" and x.name in self.marks for x in a.walk()):
                    return [True]
        elif n.k in CONSTRUCTS and "string" in (n.cls or "") and n.ch and not n.copy and \
                any(x.k == "MemberExpr" and x.name in self.marks for c in n.ch if c is not None for x in c.walk()):
            return [True] if "string_view" not in n.cls and "string_ref" not in n.cls else None
        return None

    def edge(self, cond, truth, auto, ctx, st):
        n = strip(cond, explicit=True)
        while n is not None and (n.k == "UnaryOperator" and n.op == "!" or n.k == "CXXOperatorCallExpr" and n.op == "!"):
            n, truth = strip(n.ch[0] if n.k == "UnaryOperator" else n.ch[1], explicit=True), not truth
        if n is None:
            return None
        if n.k == "BinaryOperator" and n.op in ("==", "!="):
            ms = [strip(c, explicit=True) for c in n.ch]
            if all(m is not None and m.k == "MemberExpr" and m.name in self.marks for m in ms):
                return [True] if truth == (n.op == "==") else None
        if is_call(n) and last(n.callee or "").startswith("operator ") and call_object(n) is not None:
            n = strip(call_object(n), explicit=True)
        if n is not None and n.k == "MemberExpr" and n.name == self.stack and not truth and not self.opens(ctx.fn):
            return [True]
        return None

    def opens(self, fn):
        return any(is_call(x) and last(x.callee or "") == "start_snippet_impl" for x in fn.nodes.values())


def marked(model, rep, cls, fns, marks, roots, acts, stack):
    for t in roots.values():
        if acts.marks(t) or not any(n.k == "MemberExpr" and n.name in marks for u in flow.reach(model, {t.usr})
                                    if u in model.functions and model.functions[u].cls == cls for n in model.functions[u].nodes.values()):
            continue
        r = Marked(model, cls, marks, stack)
        res = Engine(r, model).run(t, False)
        if all(x.auto for x in res if x.kind == "return"):
            rep.ok("marked text", t.short())
        else:
            rep.bad("marked text", "%s drops mark" % t.short(), t.where(),
                    "%s does not use the text its grammar marked on every path" % t.short())


def stored(model, rep, cls, fns):
    """What was collected for a snippet ends up in the stored symbol."""
    for f in fns:
        pushes = [n for n in f.nodes.values() if is_call(n) and last(n.callee or "") in ("push_back", "emplace_back") and
                  any("template_symbol" in (x.cls or x.type or "") for x in n.walk())]
        if not pushes:
            continue

        class Store(Rule):
            def step(self, n, auto, ctx, st):
                if is_call(n) and last(n.callee or "") == "add" and len(call_args(n)[1]) >= 3:
                    return [max(auto, 1)]
                if n in pushes:
                    return [2] if auto == 1 else [auto]
                return None
        res = Engine(Store(model), model).run(f, 0)
        if all(x.auto == 2 for x in res if x.kind == "return"):
            rep.ok("snippet stored", f.short())
        else:
            rep.bad("snippet stored", f.short(), f.where(), "%s can end a snippet without storing its content" % f.short())


# ---------------------------------------------------------------- run

def parse_calls(model, gr, f):
    """(grammar class, call) for every parse run in f."""
    for n in f.nodes.values():
        if is_call(n) and (n.callee or "").startswith(grammar.SP) and last(n.callee) == "parse" and grammar.tbase(n.rt) == grammar.SP + "parse_info":
            for a in n.ch[1:]:
                s = strip(a, explicit=True)
                if s is None:
                    continue
                c = (s.cls or s.type or "").replace("const ", "").rstrip("& ").strip()
                if c.startswith("quickbook::"):
                    yield c, n


def run(model, rep):
    rep.rule("coverage of every highlighter grammar by printing actions and escapes; the top-level loop accepts any byte; printing actions print "
             "their whole range on every path; snippet text is copied before the copy position moves")
    gr = grammar.load(model)
    null = p05.Null(gr, model)
    acts = Actions(model, gr)
    hl = {}
    for f in model.fns():
        for c, n in parse_calls(model, gr, f):
            start = gr.start_rule(c)
            if start is not None and start in gr.rules:
                hl.setdefault(c, []).append((start, f, n))
    owners = {}
    for c, xs in hl.items():
        ns = {k.rsplit("::", 1)[0] for k in gr.rules if k.startswith(c + "::definition")}
        owners[c] = ns
    code = []
    for c, xs in sorted(hl.items()):
        # a highlighter: its actions write to the output
        roles = set()
        for k in gr.rules:
            if k.rsplit("::", 1)[0] in owners[c]:
                for g, f, n in gr.rules[k]:
                    for x in g.walk():
                        if x.k == "act":
                            for t in acts.fns(x, f):
                                roles.add(t.cls or "")
        if any("highlight" in r for r in roles) or "highlight" in c:
            code.append(c)
    for c in code:
        cov = Coverage(model, gr, null, acts, rep)
        cov.own = owners[c]
        start = hl[c][0][0]
        for g, f, n in gr.rules[start]:
            cov.cov(g, f, "code")
            body = g
            while body.k == "act":
                body = body.ch[0]
            if body.k not in ("star", "plus"):
                rep.bad("all text matched", "%s loop" % last(c), n.where(), "the start rule of %s is not a repetition over the text" % last(c))
                continue
            acc = cov.accept(body.ch[0])
            if acc >= ALL:
                rep.ok("all text matched", last(c))
            else:
                miss = sorted(ALL - acc)
                rep.bad("all text matched", "%s remainder" % last(c), n.where(),
                        "highlighting with %s stops at some text (for example at byte %d); the rest is dropped" % (last(c), miss[0]))
        for (w, what, n) in cov.problems:
            rep.bad("covered", "%s %s" % (last(c), what), w, "%s: %s" % (last(c), what))
        if not cov.problems:
            rep.ok("covered", c)
        for (start, f, n) in hl[c]:
            whole(model, rep, f, n, c)
    rep.expect(len(code) >= 3, "only %d highlighters found" % len(code))
    snippets(model, gr, null, acts, rep)
    code_blocks(model, rep, {f.usr for c in code for (_, f, _) in hl[c]})
    if not rep.violations:
        rep.at_least("all text matched", 3)
        rep.at_least("printed tokens", 10)
        rep.at_least("snippet text copied", 5)


def whole(model, rep, f, n, c):
    """parse(first, last, grammar) over the function's own range."""
    r = Prints(model, f)
    from .flow import Ctx
    args = call_args(n)[1]
    ks = [r.kind(a, Ctx(f)) for a in args[:2]]
    if ks != ["first", "last"] or (r.first in flow.mutated(f) and any(
            x.k in ("UnaryOperator", "CXXOperatorCallExpr") and x.op in ("++", "p++", "+=", "--") for x in f.nodes.values())):
        rep.bad("whole text", "%s range" % last(c), n.where(), "%s is not run over the whole text given to %s" % (last(c), f.short()))
    else:
        rep.ok("whole text", last(c))


class Coded(Rule):
    """The highlighted text stays in the output: what is in the phrase buffer
    after highlighting is read before the buffer is cleared."""
    width = 20

    def __init__(self, model, hls):
        Rule.__init__(self, model)
        self.hls = hls
        self.bads = {}
        self.find_interesting(lambda f: f.usr in hls)

    def may_inline(self, call, t, ctx):
        return t.usr in self.interesting and t.usr not in self.hls

    def coll(self, x):
        x = strip(x, explicit=True)
        return x.name if x is not None and x.k == "MemberExpr" and x.name in ("phrase", "out") and "state" in (x.q or "") else None

    def step(self, n, auto, ctx, st):
        if not is_call(n):
            return None
        nm = last(n.callee or "")
        if any(t.usr in self.hls for t in self.model.targets(n)):
            return ["full"]
        o, args = call_args(n)
        if nm in ("str", "swap") and o is not None and self.coll(o) == "phrase" and auto == "full":
            return ["read"]
        if nm in ("clear", "pop", "pop_output") and auto == "full" and (o is not None and self.coll(o) == "phrase" or nm == "pop_output"):
            self.bads[n.where()] = ctx.chain()
            return ["lost"]
        return None


def code_blocks(model, rep, hls):
    cg = flow.callgraph(model)
    callers = [f for f in model.fns() if cg.get(f.usr, set()) & hls]
    rep.expect(bool(callers), "nothing calls the highlighter")
    for f in callers:
        r = Coded(model, hls)
        Engine(r, model).run(f, "none")
        for w, ch in r.bads.items():
            rep.bad("code kept", f.short(), w, "the highlighted code is discarded in %s" % f.short())
        if not r.bads:
            rep.ok("code kept", f.short())
