"""P21: escaping and unescaping are inverse tables.

The table of each encoder (what it writes for each of the 256 byte values) is
read out of the code by conditional constant propagation: the branch conditions
on the current character are folded for each byte value and the strings written
on the remaining paths are collected.  The decoder's table is read out of its
grammar."""
import re

from . import flow, grammar
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args, call_object

CHARS = {"char", "signed char", "unsigned char"}
XML = {"<": "&lt;", ">": "&gt;", "&": "&amp;", '"': "&quot;"}
CT = {
    "isalnum": lambda c: chr(c).isalnum() and c < 128, "isalpha": lambda c: chr(c).isalpha() and c < 128,
    "isdigit": lambda c: 48 <= c <= 57, "isspace": lambda c: c in (9, 10, 11, 12, 13, 32),
    "isupper": lambda c: 65 <= c <= 90, "islower": lambda c: 97 <= c <= 122,
    "isxdigit": lambda c: 0 <= c < 128 and chr(c) in "0123456789abcdefABCDEF",
    "ispunct": lambda c: 33 <= c < 127 and not chr(c).isalnum(), "iscntrl": lambda c: c < 32 or c == 127,
    "isgraph": lambda c: 33 <= c < 127, "isprint": lambda c: 32 <= c < 127,
}


def bare(t):
    return (t or "").replace("const ", "").replace("volatile ", "").rstrip("&").strip()


def wrap(v, t):
    t = bare(t)
    if not isinstance(v, int):
        return v
    if t == "unsigned char":
        return v & 255
    if t in ("char", "signed char"):
        return ((v & 255) ^ 128) - 128
    if t == "bool":
        return int(v != 0)
    if t in ("unsigned int",):
        return v & 0xffffffff
    if t in ("unsigned long",):
        return v & 0xffffffffffffffff
    return v


class Fold(Rule):
    """Automaton: text written for the current character so far ('' = none)."""
    width = 16
    max_depth = 6

    def __init__(self, model, subject_keys, value, inplace=False):
        Rule.__init__(self, model)
        self.subj = subject_keys      # canonical names that denote the current character
        self.value = value
        self.results = set()
        self.inplace = inplace
        self.evaluating = 0
        self.param = None

    def track(self, key):
        return False

    def remember(self, key):
        return False

    def may_inline(self, call, t, ctx):
        return ctx.depth < 6

    # -- folding --------------------------------------------------------------
    def is_subject(self, n, ctx):
        k = ctx.key(n)
        return k is not None and k in self.subj

    def ev(self, n, ctx, depth=0):
        """Constant value (int or str) of an expression, or None."""
        if n is None or depth > 40:
            return None
        if n.cv is not None and isinstance(n.cv, int):
            return n.cv
        k = n.k
        if k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"):
            return int(n.val)
        if k == "StringLiteral":
            return n.str
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return 0
        if bare(n.type) in CHARS and k in ("DeclRefExpr", "UnaryOperator", "CXXOperatorCallExpr", "ArraySubscriptExpr", "CXXMemberCallExpr", "MemberExpr") \
                and self.is_subject(n, ctx):
            return wrap(self.value, n.type)
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr"):
            v = self.ev(n.ch[-1], ctx, depth + 1)
            if n.ck == "PointerToBoolean" and isinstance(v, str):
                return 1
            return wrap(v, n.type)
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr"):
            return self.ev(n.ch[0], ctx, depth + 1) if n.ch else None
        if k == "UnaryOperator":
            v = self.ev(n.ch[0], ctx, depth + 1)
            if v is None:
                return None
            if n.op == "!":
                return int(not v) if not isinstance(v, str) else 0
            if not isinstance(v, int):
                return None
            return {"-": -v, "+": v, "~": ~v}.get(n.op)
        if k == "ConditionalOperator":
            c = self.ev(n.ch[0], ctx, depth + 1)
            if c is None:
                return None
            return self.ev(n.ch[1] if c else n.ch[2], ctx, depth + 1)
        if k == "BinaryOperator":
            a, b = self.ev(n.ch[0], ctx, depth + 1), self.ev(n.ch[1], ctx, depth + 1)
            if n.op == "&&":
                return 0 if a == 0 or b == 0 else (1 if a is not None and b is not None else None)
            if n.op == "||":
                if (a is not None and a != 0) or (b is not None and b != 0):
                    return 1
                return 0 if a == 0 and b == 0 else None
            if n.op == ",":
                return b
            if a is None or b is None:
                return None
            if isinstance(a, str) or isinstance(b, str):
                if n.op in ("==", "!=") and (a == 0 or b == 0):
                    return int(n.op == "!=")
                return None
            try:
                v = {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b,
                     "+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}.get(n.op)
                if v is None:
                    if n.op == "/":
                        v = int(a / b)
                    elif n.op == "%":
                        v = a - int(a / b) * b
                    elif n.op == ">>":
                        v = a >> b
                    elif n.op == "<<":
                        v = a << b
            except (ZeroDivisionError, ValueError):
                return None
            return wrap(int(v), n.type) if v is not None else None
        if k == "ArraySubscriptExpr":
            a, b = self.ev(n.ch[0], ctx, depth + 1), self.ev(n.ch[1], ctx, depth + 1)
            if isinstance(a, str) and isinstance(b, int) and 0 <= b <= len(a):
                return ord(a[b]) if b < len(a) else 0
            return None
        if k == "DeclRefExpr":
            if self.param and n.did == self.param[1] and ctx.fn.usr == self.param[0]:
                return wrap(self.param[2], n.type) if n.did not in flow.mutated(ctx.fn) else None
            if n.dk in ("local", "slocal", "global", "static"):
                v = ctx.fn.vars().get(n.did)
                if v is not None and v.get("init") and n.did not in flow.mutated(ctx.fn):
                    return wrap(self.ev(ctx.fn.nodes.get(v["init"]), ctx, depth + 1), n.type)
            if n.dk == "parm" and n.did not in flow.mutated(ctx.fn):
                key = ctx.key(n)
                if key and key.startswith("s'") or key and key.startswith('s"'):
                    return eval(key[1:])
                if key and flow.const_key(key):
                    return wrap(int(key[1:]), n.type)
                if ctx.up is not None and ctx.call is not None:
                    i = [j for j, p in enumerate(ctx.fn.params) if p["did"] == n.did]
                    _, args = call_args(ctx.call)
                    if i and i[0] < len(args) and args[i[0]] is not None:
                        return wrap(self.ev(args[i[0]], ctx.up, depth + 1), n.type)
            return None
        if is_call(n):
            nm = last(n.callee or "")
            obj, args = call_args(n)
            if nm in CT and len(args) == 1:
                v = self.ev(args[0], ctx, depth + 1)
                return None if v is None or not isinstance(v, int) else int(0 <= v < 256 and CT[nm](v))
            if nm in ("tolower", "toupper") and len(args) == 1:
                v = self.ev(args[0], ctx, depth + 1)
                if isinstance(v, int):
                    if nm == "tolower" and 65 <= v <= 90:
                        return v + 32
                    if nm == "toupper" and 97 <= v <= 122:
                        return v - 32
                return v
            if nm in ("strchr", "memchr") and len(args) >= 2:
                s, v = self.ev(args[0], ctx, depth + 1), self.ev(args[1], ctx, depth + 1)
                if isinstance(s, str) and isinstance(v, int):
                    if v & 255 == 0:
                        return 1
                    return int(chr(v & 255) in s)
                return None
            if nm in ("find", "find_first_of") and obj is None:
                return None
            return self.ret_of(n, ctx)
        if k in CONSTRUCTS and len([c for c in n.ch if c is not None and c.k != "CXXDefaultArgExpr"]) == 1:
            return self.ev(n.ch[0], ctx, depth + 1)
        return None

    def ret_of(self, n, ctx):
        """Value a repository function returns for the current character."""
        if self.evaluating > 3:
            return None
        ts = self.model.targets(n)
        if len(ts) != 1 or ts[0].cfg is None:
            return None
        t = ts[0]
        vals = set()
        sub = Returns(self)
        eng = Engine(sub, self.model)
        obj, args = call_args(n)
        env = {}
        for p, a in zip(t.params, args):
            if a is not None:
                k = ctx.key(a)
                if k is not None:
                    env[p["did"]] = k
        c2 = flow.Ctx(t, env, None, ctx, n)
        self.evaluating += 1
        try:
            eng._run(c2, "", frozenset())
        finally:
            self.evaluating -= 1
        vals = sub.vals
        if len(vals) == 1:
            return next(iter(vals))
        return None

    # -- paths ------------------------------------------------------------------
    def edge(self, cond, truth, auto, ctx, st):
        v = self.ev(cond, ctx)
        if v is None:
            return None
        t = bool(v) if not isinstance(v, str) else True
        return None if t == truth else []

    def case_edge(self, sw, label, auto, ctx, st):
        cond = ctx.fn.nodes.get(sw.d.get("cond")) if sw is not None and sw.d.get("cond") else None
        v = self.ev(cond, ctx) if cond is not None else None
        if not isinstance(v, int):
            return None
        labels = [x.val for x in sw.walk() if x.k == "CaseStmt"]
        if label is not None and label.k == "CaseStmt":
            return None if label.val == v else []
        return [] if v in labels else None

    # -- what is written --------------------------------------------------------
    def text(self, a, ctx, depth=0):
        """Text an argument of an output operation stands for; '\\0' if unknown."""
        n = strip(a, explicit=True)
        if n is None:
            return None
        v = self.ev(a, ctx)
        if isinstance(v, str):
            try:
                v.encode("latin-1")
                return v
            except UnicodeError:
                return v.encode("utf-8", "surrogateescape").decode("latin-1")
        if bare(a.type) in CHARS and isinstance(v, int):
            return chr(v & 255)
        if isinstance(v, int) and bare(n.type) in CHARS:
            return chr(v & 255)
        if n.k == "DeclRefExpr" and n.dk == "local":
            d = ctx.fn.vars().get(n.did)
            i = strip(ctx.fn.nodes.get(d["init"]), explicit=True) if d and d.get("init") else None
            if i is not None and i.k == "InitListExpr":
                s = ""
                for e in i.ch:
                    v = self.ev(e, ctx)
                    if v == 0:
                        break
                    s += chr(v & 255) if isinstance(v, int) else "\0"
                return s
        return "\0"

    def emitted(self, n, ctx):
        """Text written by a node, or None."""
        if n.k == "CXXOperatorCallExpr" and n.op in ("<<", "+=") or n.k == "CompoundAssignOperator" and n.op == "+=":
            a = n.ch[-1]
            l = n.ch[-2]
            t = (l.type or "") + (n.type or "")
            if n.k == "CompoundAssignOperator" or not ("stream" in t or "basic_string" in t or "std::string" in t or "collector" in t):
                return None
            return self.text(a, ctx)
        if n.k == "CXXMemberCallExpr" and last(n.callee or "") in ("append", "push_back", "put", "write", "operator+=", "operator<<"):
            o = call_object(n)
            if o is not None and re.search(r"stream|basic_string|std::string|collector", o.type or ""):
                if last(n.callee) == "append" and len(n.ch) > 2 and bare(n.ch[2].type) in CHARS:
                    return self.text(n.ch[2], ctx)
                return self.text(n.ch[1], ctx)
        if n.k == "BinaryOperator" and n.op == "=" and self.is_subject(n.ch[0], ctx):
            return self.text(n.ch[1], ctx)
        if n.k == "BinaryOperator" and n.op == "=" and bare(n.ch[0].type) in CHARS:
            return None
        return None

    def step(self, n, auto, ctx, st):
        t = self.emitted(n, ctx)
        if t is not None:
            if self.inplace and not (n.k == "BinaryOperator"):
                return None
            if len(auto) > 24:
                return None
            return [auto + t] if not self.inplace else [t]
        if self.advances(n, ctx):
            self.results.add(auto)
            return [""]
        return None

    def advances(self, n, ctx):
        if n.k == "UnaryOperator" and n.op in ("++", "p++") or n.k == "CXXOperatorCallExpr" and n.op == "++":
            k = ctx.key(n.ch[0] if n.k == "UnaryOperator" else n.ch[1])
            return k is not None and any(k in s for s in self.subj)
        if n.k == "CompoundAssignOperator" and n.op == "+=":
            k = ctx.key(n.ch[0])
            return k is not None and any(k in s for s in self.subj)
        return False


class Returns(Rule):
    def __init__(self, fold):
        Rule.__init__(self, fold.model)
        self.fold = fold
        self.vals = set()

    def may_inline(self, call, t, ctx):
        return False

    def edge(self, cond, truth, auto, ctx, st):
        return self.fold.edge(cond, truth, auto, ctx, st)

    def case_edge(self, sw, label, auto, ctx, st):
        return self.fold.case_edge(sw, label, auto, ctx, st)

    def step(self, n, auto, ctx, st):
        if n.k == "ReturnStmt" and n.ch:
            self.vals.add(self.fold.ev(n.ch[0], ctx))
        return None


class Subjects(Rule):
    """Finds what denotes the character being encoded: the char expressions that
    are written as they are."""
    width = 4

    def __init__(self, model, inplace):
        Rule.__init__(self, model)
        self.keys = set()
        self.f = Fold(model, set(), 0)
        self.inplace = inplace

    def track(self, key):
        return False

    def may_inline(self, call, t, ctx):
        return ctx.depth < 6

    def step(self, n, auto, ctx, st):
        a = None
        if n.k == "CXXOperatorCallExpr" and n.op in ("<<", "+="):
            a = n.ch[-1]
        elif n.k == "CXXMemberCallExpr" and last(n.callee or "") in ("append", "push_back", "put", "operator+=", "operator<<") and len(n.ch) > 1:
            a = n.ch[-1]
        elif self.inplace and n.k == "BinaryOperator" and n.op == "=" and bare(n.ch[0].type) in CHARS:
            a = n.ch[0]
        elif self.inplace and n.k == "CXXOperatorCallExpr" and n.op == "=" and bare(n.ch[1].type) in CHARS:
            a = n.ch[1]
        if a is not None:
            x = strip(a, explicit=True)
            if x is not None and bare(x.type) in CHARS and x.cv is None and x.k not in ("CharacterLiteral",):
                self.add(x, ctx)
        return None

    def add(self, x, ctx, depth=0):
        k = ctx.key(x)
        if k is None or depth > 6:
            return
        self.keys.add(k)
        if x.k == "DeclRefExpr" and x.dk == "local":
            v = ctx.fn.vars().get(x.did)
            if v is not None and v.get("init"):
                i = strip(ctx.fn.nodes.get(v["init"]), explicit=True)
                if i is not None and i.cv is None and bare(i.type) in CHARS:
                    self.add(i, ctx, depth + 1)


def table(model, f, inplace=False, env=None):
    """byte value -> set of texts written for it."""
    s = Subjects(model, inplace)
    Engine(s, model).run(f, "")
    if not s.keys:
        raise Broken("cannot find the character %s encodes" % f.q)
    per_char = any(p["t"].replace("const ", "").rstrip("& ") in CHARS for p in f.params)
    out = {}
    for v in range(256):
        c = v - 256 if v > 127 else v
        r = Fold(model, s.keys, c, inplace)
        for res in Engine(r, model).run(f, ""):
            if res.kind == "return" and per_char:
                r.results.add(res.auto)
        out[v] = r.results
    return out


def show(v):
    return "'%s'" % chr(v) if 32 < v < 127 else "byte 0x%02x" % v


class NoMatch(Exception):
    pass


class Unknown(Exception):
    pass


class Matcher:
    """What a grammar does with one given text: the actions that run, in order
    (alternatives are ordered and are not retried, as in Spirit)."""

    def __init__(self, gr):
        self.gr = gr

    def match(self, g, s, p, depth=0):
        """-> (end, [(action node, function, matched text)])"""
        if depth > 60:
            raise Unknown("recursion")
        k = g.k
        if k == "seq":
            acts = []
            for c in g.ch:
                p, a = self.match(c, s, p, depth + 1)
                acts += a
            return p, acts
        if k in ("alt",):
            for c in g.ch:
                try:
                    return self.match(c, s, p, depth + 1)
                except NoMatch:
                    pass
            raise NoMatch()
        if k in ("star", "plus"):
            acts, n = [], 0
            while p < len(s):
                try:
                    q, a = self.match(g.ch[0], s, p, depth + 1)
                except NoMatch:
                    break
                if q == p:
                    break
                p, n = q, n + 1
                acts += a
            if k == "plus" and not n:
                raise NoMatch()
            return p, acts
        if k == "opt":
            try:
                return self.match(g.ch[0], s, p, depth + 1)
            except NoMatch:
                return p, []
        if k == "act":
            q, a = self.match(g.ch[0], s, p, depth + 1)
            return q, a + [(g, s[p:q])]
        if k == "str":
            if s.startswith(g.v, p):
                return p + len(g.v), []
            raise NoMatch()
        if k == "diff":
            q, a = self.match(g.ch[0], s, p, depth + 1)
            try:
                q2, _ = self.match(g.ch[1], s, p, depth + 1)
            except NoMatch:
                return q, a
            if q2 < q:
                return q, a
            raise NoMatch()
        if k == "class":
            if p >= len(s):
                raise NoMatch()
            c = ord(s[p])
            t = "is" + str(g.v)[:-2]
            if g.v == "anychar_p" or CT.get(t, lambda c: False)(c):
                return p + 1, []
            raise NoMatch()
        if k == "num":
            hexa = "hex" in str(g.v)
            ok = "0123456789abcdefABCDEF" if hexa else "0123456789"
            q = p
            while q < len(s) and s[q] in ok:
                q += 1
            if q == p:
                raise NoMatch()
            return q, []
        if k == "eps":
            return p, []
        if k == "end":
            if p == len(s):
                return p, []
            raise NoMatch()
        if k == "rule":
            ds = self.gr.rules.get(g.v)
            if not ds and str(g.v).startswith("start:"):
                ds = self.gr.rules.get(self.gr.start_rule(g.v[6:]))
            if not ds or len(ds) != 1:
                raise Unknown("rule %s" % g.v)
            return self.match(ds[0][0], s, p, depth + 1)
        if k == "sym":
            best = None
            for name, val, node, fn in self.gr.symbols.get(g.v, ()):
                if name and s.startswith(name, p) and (best is None or len(name) > len(best)):
                    best = name
            if best is None:
                raise NoMatch()
            return p + len(best), []
        raise Unknown("parser %s" % k)


def literals(gr, g, seen=None):
    seen = set() if seen is None else seen
    for x in g.walk():
        if x.k == "str":
            yield x.v
        elif x.k == "rule" and x.v not in seen:
            seen.add(x.v)
            for d in gr.rules.get(x.v, ()):
                for y in literals(gr, d[0], seen):
                    yield y


def utf8(c):
    return chr(c).encode("utf-8").decode("latin-1")


class Action:
    """What a semantic action appends."""

    def __init__(self, model, gr, rep):
        self.model, self.gr, self.rep = model, gr, rep
        self.tabs = {}

    def value(self, g, text, fn):
        """Text appended by an action, or None if it cannot be told."""
        fs = [t for t in self.gr.action_fns(g.v, fn) if t.cfg is not None]
        lits = [c.val for c in g.v.walk() if c.k in ("CharacterLiteral", "IntegerLiteral") and isinstance(c.val, int)]
        if len(fs) != 1 or len(lits) > 1:
            return None
        t = fs[0]
        ps = t.params
        if len(ps) == 1 and bare(ps[0]["t"]) in CHARS:
            if t not in self.tabs:
                self.tabs[t] = table(self.model, t)
            c = lits[0] & 255 if lits else (ord(text) if len(text) == 1 else None)
            if c is None:
                return None
            r = self.tabs[t].get(c)
            return next(iter(r)) if r and len(r) == 1 else None
        if len(ps) == 1 and bare(ps[0]["t"]) in ("unsigned int", "int", "unsigned long"):
            v = lits[0] if lits else None
            if v is None:
                num = [x for x in g.walk() if x.k == "num"]
                if len(num) != 1:
                    return None
                v = int(text, 16 if "hex" in str(num[0].v) else 10)
            r = number_text(self.model, t, v)
            return next(iter(r)) if len(r) == 1 else None
        return None


def number_text(model, f, v):
    """Text a function of one number appends for the number v."""
    r = Fold(model, set(), 0)
    did = f.params[0]["did"]
    r.param = (f.usr, did, v)
    out = set()
    for res in Engine(r, model).run(f, ""):
        if res.kind == "return":
            out.add(res.auto)
    return out


def decoder_start(model, gr):
    """(start rule body, function) of the grammar decode_string parses with."""
    out = []
    for f in model.named("quickbook::detail::decode_string"):
        if f.cfg is None:
            continue
        todo, seen = [f], set()
        while todo:
            h = todo.pop()
            if h in seen:
                continue
            seen.add(h)
            for n in h.nodes.values():
                t = grammar.tbase(n.type)
                k = gr.start_rule(t) if n.type and n.k in CONSTRUCTS or n.k == "DeclRefExpr" and n.dk == "local" else None
                if k:
                    for d in gr.rules.get(k, ()):
                        if d[0] not in [o[0] for o in out]:
                            out.append(d)
                if is_call(n):
                    todo += [x for x in model.targets(n) if x.cfg is not None]
    return out


def decoder(model, rep, tabs):
    gr = grammar.load(model)
    ds = decoder_start(model, gr)
    rep.expect(ds, "the grammar of decode_string was not found")
    body, fn = ds[0][0], ds[0][1]
    m, act = Matcher(gr), Action(model, gr, rep)
    import html

    def decode(s):
        """Decoded text, or None where it cannot be told."""
        try:
            end, acts = m.match(body, s, 0)
        except (NoMatch, Unknown):
            return None
        if end != len(s):
            return s[:0] + "<stops after %r>" % s[:end]
        out = ""
        for g, text in acts:
            v = act.value(g, text, fn)
            if v is None:
                return None
            out += v
        return out
    where = body.where()
    known = 0
    for q in ("quickbook::detail::encode_string", "quickbook::detail::print_char"):
        f, t, _ = tabs[q]
        for v in range(1, 256):
            if len(t[v]) != 1:
                continue
            e = next(iter(t[v]))
            d = decode(e)
            if d is None:
                continue
            known += 1
            if d == chr(v):
                rep.ok("decoded", "%s of %s" % (show(v), f.short()))
            else:
                rep.bad("decoded", "%s/%s" % (f.short(), show(v)), where,
                        "%s writes %r for %s, which decode_string turns into %r" % (f.short(), e, show(v), d))
    if known < 400:
        raise Broken("only %d characters could be decoded: the decoding grammar is not understood" % known)
    for l in sorted(set(literals(gr, body))):
        if l.endswith(";") and l[:-1].isalnum():
            want = html.unescape("&" + l)
            d = decode("&" + l)
            if d is None or want.startswith("&"):
                continue
            w = "".join(utf8(ord(c)) for c in want)
            if d == w:
                rep.ok("entities", "&" + l)
            else:
                rep.bad("entities", l, where, "the entity &%s is decoded to %r, but it stands for %r" % (l, d, want))
    n = 0
    vals = [1, 0x20, 0x26, 0x3c, 0x41, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xe9, 0xff, 0x100, 0x17f, 0x3ff, 0x400, 0x555, 0x6aa, 0x7ff,
            0x800, 0x801, 0x83f, 0x840, 0xfff, 0x1000, 0x20ac, 0x2aaa, 0x5555, 0x7fff, 0x8000, 0xd7ff, 0xe000, 0xfffd,
            0x10000, 0x10001, 0x1003f, 0x10040, 0x10fff, 0x11000, 0x1f600, 0x2aaaa, 0x3ffff, 0x40000, 0x55555, 0x80000,
            0xaaaaa, 0xfffff, 0x100000, 0x10fffd]
    for v in vals:
        for s in ("&#%d;" % v, "&#x%x;" % v, "&#x%X;" % v):
            d = decode(s)
            if d is None:
                continue
            n += 1
            if d == utf8(v):
                rep.ok("numeric references", s)
            else:
                rep.bad("numeric references", "U+%04X %s" % (v, s[:3]), where,
                        "the reference %s is decoded to the bytes %s instead of the UTF-8 of U+%04X (%s)" % (
                            s, d.encode("latin-1", "replace").hex(" "), v, utf8(v).encode("latin-1").hex(" ")))
    for v in (0x110000, 0x7fffffff, 0xffffffff):
        d = decode("&#%d;" % v)
        if d is None:
            continue
        try:
            d.encode("latin-1").decode("utf-8")
            rep.ok("numeric references", "&#%d;" % v)
        except UnicodeError:
            rep.bad("numeric references", "%d" % v, where, "the reference &#%d; is decoded to bytes that are not UTF-8" % v)
    rep.extra["decoded_references"] = n


def run(model, rep):
    rep.rule("for each of the 256 byte values, each encoder writes exactly the entity (special characters) or the byte itself (all others), "
             "found by folding the branch conditions on the character")
    rep.rule("the reader maps each entity the encoders write back to the same character, and maps no entity to a different one than XML does")
    tabs = {}
    for q, kind in (("quickbook::detail::encode_string", "xml"), ("quickbook::detail::print_char", "xml"),
                    ("quickbook::detail::print_string", "xml"),
                    ("quickbook::detail::escape_uri", "uri"), ("quickbook::detail::partially_escape_uri", "part"),
                    ("quickbook::detail::make_identifier", "id")):
        fs = [f for f in model.named(q) if f.cfg is not None]
        rep.expect(fs, "%s not found" % q)
        for f in fs:
            tabs[q] = (f, table(model, f, kind == "id"), kind)
    for q, (f, t, kind) in tabs.items():
        for v in range(256):
            ch = chr(v)
            got = t[v]
            rep_got = ", ".join(sorted(repr(x) for x in got)) or "nothing"
            if kind == "xml":
                want = XML.get(ch, ch)
                good = got == {want}
                msg = "%s writes %s for %s instead of %r" % (f.short(), rep_got, show(v), want)
            elif kind in ("uri", "part"):
                pct = {"%%%02X" % v, "%%%02x" % v}
                if ch.isalnum() and v < 128 or ch in "-_.~":
                    good = got == {ch}
                    msg = "%s writes %s for the unreserved character %s" % (f.short(), rep_got, show(v))
                elif ch == "%":
                    good = got and got <= pct | {ch} and bool(got & pct)
                    msg = "%s writes %s for '%%'" % (f.short(), rep_got)
                elif v > 127 or v < 33 or ch in '"<>{}|^`[]' or v == 127:
                    if v == 0:
                        continue
                    good = got and got <= pct
                    msg = "%s writes %s for %s, which must be percent-escaped" % (f.short(), rep_got, show(v))
                elif kind == "uri" and ch in ":&=#+":
                    good = got and got <= pct
                    msg = "%s writes %s for the delimiter %s, which must be percent-escaped in a path" % (f.short(), rep_got, show(v))
                elif kind == "part" and ch in ":&=#+?/":
                    good = got == {ch}
                    msg = "%s writes %s for the delimiter %s of a URL" % (f.short(), rep_got, show(v))
                else:
                    good = got and got <= pct | {ch}
                    msg = "%s writes %s for %s" % (f.short(), rep_got, show(v))
            else:
                want = ch.lower() if ch.isalnum() and v < 128 else "_"
                good = {x or ch for x in got} == {want}
                msg = "%s turns %s into %s instead of %r" % (f.short(), show(v), rep_got, want)
            if good:
                rep.ok("encoder tables", "%s %s" % (f.short(), show(v)))
            else:
                rep.bad("encoder tables", "%s/%s" % (f.short(), show(v)), "%s:%d" % (f.file, f.line), msg)
    decoder(model, rep, tabs)
    rep.extra["encoders"] = sorted(tabs)
    rep.at_least("encoder tables", 1200)
