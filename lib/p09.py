"""P09: bytes outside ASCII are classified and encoded safely.

Plain `char` is signed here, so a byte above 0x7f is a negative number.  Every
place where the numeric value of a char matters (table index, classification
function, widening to an unsigned type, arithmetic used for encoding, range
tests) must go through unsigned char or be reached only with the value known to
be non-negative (path-sensitive)."""
from . import flow
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args, call_object

CTYPE = {"isalnum", "isalpha", "isdigit", "isspace", "isupper", "islower", "ispunct", "isxdigit", "iscntrl", "isprint",
         "isgraph", "isblank", "toupper", "tolower"}
CHARS = {"char", "signed char"}
WIDE = {"int", "long", "short", "long long"}
UNSIGNED = {"unsigned int", "unsigned long", "unsigned short", "unsigned long long", "char32_t", "char16_t", "wchar_t"}
INDEXED = ("std::basic_string", "basic_string", "std::string", "std::vector", "vector<", "std::array", "std::bitset", "std::deque",
           "quickbook::string_view", "boost::string_view", "basic_string_view", "boost::array")


def bare(t):
    t = (t or "").replace("const ", "").replace(" const", "").replace("volatile ", "").rstrip("&").strip()
    return t


def noncast(n):
    """Strip only implicit conversions."""
    while n is not None and n.k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
                                    "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr"):
        n = n.ch[0] if n.ch else None
    return n


CASTS = ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr")


class Neg:
    """Which char-typed subexpressions make an expression possibly negative."""

    def __init__(self, model):
        self.model = model
        self.calls = None

    def culprits(self, f, n, depth=0):
        n = noncast(n)
        if n is None or depth > 12:
            return []
        if n.cv is not None:
            return []
        if n.k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"):
            return []
        t = bare(n.type)
        if n.k in CASTS:
            if t in ("unsigned char", "bool"):
                return []
            return self.culprits(f, n.ch[-1], depth + 1)
        if n.k == "ConditionalOperator":
            return self.culprits(f, n.ch[1], depth + 1) + self.culprits(f, n.ch[2], depth + 1)
        if n.k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.op == "&":
                for c in n.ch:
                    v = strip(c, explicit=True)
                    if c.cv is not None and c.cv >= 0 or v is not None and v.k in ("IntegerLiteral", "CharacterLiteral") and (v.val or 0) >= 0:
                        return []
            if n.op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                return []
            if n.op in (",", "="):
                return self.culprits(f, n.ch[1], depth + 1)
            return self.culprits(f, n.ch[0], depth + 1) + self.culprits(f, n.ch[1], depth + 1)
        if n.k == "UnaryOperator" and n.op in ("-", "+", "~", "++", "--", "p++", "p--") and t not in CHARS:
            return self.culprits(f, n.ch[0], depth + 1)
        if t in CHARS:
            return [n]
        if n.k == "DeclRefExpr" and n.dk == "local" and t in WIDE | UNSIGNED:
            out = []
            for e in self.local_defs(f, n.did):
                out += self.culprits(f, e, depth + 2)
            return out
        if n.k == "DeclRefExpr" and n.dk == "parm" and t in WIDE:
            out = []
            for g, a in self.args(f, n.did):
                if self.culprits(g, a, depth + 4):
                    return [n]
            return out
        return []

    def local_defs(self, f, did):
        for n in f.nodes.values():
            if n.k == "DeclStmt":
                for v in n.d.get("vars", ()):
                    if v["did"] == did and v.get("init"):
                        yield f.nodes.get(v["init"])
            elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in flow.ASSIGN_OPS:
                l = strip(n.ch[0], explicit=True)
                if l is not None and l.k == "DeclRefExpr" and l.did == did:
                    yield n.ch[1]

    def args(self, f, did):
        if self.calls is None:
            self.calls = {}
            for g in self.model.fns():
                for n in g.nodes.values():
                    if is_call(n):
                        for t in self.model.targets(n):
                            self.calls.setdefault(t.usr, []).append((g, n))
        i = [k for k, p in enumerate(f.params) if p["did"] == did]
        if not i:
            return
        for g, n in self.calls.get(f.usr, ()):
            _, a = call_args(n)
            if i[0] < len(a) and a[i[0]] is not None:
                yield g, a[i[0]]


def sinks(f, neg):
    """(node, value expression, what) of each use of a char's numeric value."""
    for n in f.nodes.values():
        if n.k == "CallExpr" and last(n.callee or "") in CTYPE and n.pt and bare(n.pt[0]) == "int" and len(n.pt) == 1:
            yield n, n.ch[1], "is passed to %s" % last(n.callee)
        elif n.k == "ArraySubscriptExpr":
            a, b = n.ch[0], n.ch[1]
            yield n, b, "is used as an index"
        elif n.k == "CXXOperatorCallExpr" and n.op == "[]" and any(x in (n.ch[1].type or "") for x in INDEXED) and "map" not in (n.ch[1].type or ""):
            yield n, n.ch[2], "is used as an index"
        elif n.k == "CXXMemberCallExpr" and last(n.callee or "") in ("at", "test", "set", "reset") and len(n.ch) > 1 and n.pt and \
                bare(n.pt[0]) in UNSIGNED and call_object(n) is not None and any(x in (call_object(n).type or "") for x in INDEXED):
            yield n, n.ch[1], "is used as an index"
        elif n.k == "BinaryOperator" and n.op in ("+", "-") and (n.type or "").rstrip().endswith("*"):
            for i in (0, 1):
                if not (n.ch[i].type or "").rstrip().endswith("*"):
                    yield n, n.ch[i], "is used as an offset"
        elif n.k == "BinaryOperator" and n.op in ("/", "%", ">>", "<<", "|") and not (n.type or "").endswith("*"):
            for c in n.ch:
                x = noncast(c)
                if x is not None and bare(x.type) in CHARS and x.k not in ("CharacterLiteral",) and x.cv is None:
                    yield n, x, "takes part in %s arithmetic" % n.op
        elif (n.k == "ImplicitCastExpr" and n.ck == "IntegralCast" or n.k in CASTS) and bare(n.type) in UNSIGNED:
            x = noncast(n.ch[-1])
            if x is not None and bare(x.type) in CHARS and x.cv is None and x.k != "CharacterLiteral":
                yield n, x, "is widened to an unsigned type"


class Guard(Rule):
    width = 40

    def __init__(self, model, todo):
        Rule.__init__(self, model)
        self.todo = todo          # node id -> [(culprit, what)]
        self.bad = {}
        self.keys = set()

    def may_inline(self, call, t, ctx):
        return False

    def track(self, key):
        return any(k in key for k in self.keys)

    remember = track

    def step(self, n, auto, ctx, st):
        for c, what in self.todo.get(n.id, ()):
            if not self.nonneg(c, ctx, st):
                self.bad.setdefault((n.id, what), (n, c, what))
        return None

    def nonneg(self, c, ctx, st):
        c = strip(c, explicit=True)
        ks = {ctx.key(c)}
        x = c
        # a copy of another char
        for _ in range(3):
            if x is not None and x.k == "DeclRefExpr" and x.dk == "local":
                v = ctx.fn.vars().get(x.did)
                if v is None or not v.get("init") or x.did in flow.mutated(ctx.fn):
                    break
                x = strip(ctx.fn.nodes.get(v["init"]), explicit=True)
                ks.add(ctx.key(x) if x is not None else None)
            else:
                break
        ks.discard(None)
        for k in ks:
            for cond, v in st.conds.items():
                if not isinstance(cond, str):
                    continue
                if cond.startswith("(") and cond.endswith(")"):
                    body = cond[1:-1]
                    if " < " in body:
                        a, b = body.split(" < ", 1)
                        if a == k and flow.const_key(b) and int(b[1:]) >= 0 and v is False:
                            return True
                        if b == k and flow.const_key(a) and int(a[1:]) >= -1 and v is True:
                            return True
                    if " == " in body and v is True:
                        a, b = body.split(" == ", 1)
                        if b == k and flow.const_key(a) and int(a[1:]) >= 0:
                            return True
                elif v is True and any(cond.endswith("%s(%s)" % (nm, k)) for nm in CTYPE):
                    return True
        return False


def one_sided(f):
    """Range tests of a plain char that misplace bytes above 0x7f."""
    for n in f.nodes.values():
        if n.k != "BinaryOperator" or n.op not in ("<", "<=", ">", ">=", "==", "!="):
            continue
        for i in (0, 1):
            x, y = noncast(n.ch[i]), n.ch[1 - i]
            if x is None or bare(x.type) not in CHARS or x.cv is not None or x.k == "CharacterLiteral":
                continue
            v = y.cv
            if v is None:
                s = strip(y, explicit=True)
                v = s.val if s is not None and s.k in ("IntegerLiteral", "CharacterLiteral") else None
            if v is None:
                continue
            op = n.op if i == 0 else {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(n.op, n.op)
            yield n, x, op, v


def mixed(f):
    """Comparisons that a byte above 0x7f can never satisfy as meant: a plain
    (signed) char against an unsigned one, or a case label out of range."""
    for n in f.nodes.values():
        if n.k == "BinaryOperator" and n.op in ("<", "<=", ">", ">=", "==", "!="):
            a, b = noncast(n.ch[0]), noncast(n.ch[1])
            if a is None or b is None:
                continue
            for x, y in ((a, b), (b, a)):
                if bare(x.type) == "unsigned char" and x.cv is None:
                    if bare(y.type) in CHARS and y.cv is None and y.k != "CharacterLiteral":
                        yield n, False, "a signed char is compared with an unsigned one"
                    elif isinstance(y.cv, int) and y.cv < 0 or y.k == "CharacterLiteral" and (y.val or 0) < 0:
                        yield n, False, "an unsigned char is compared with a negative value"
                    else:
                        yield n, True, "unsigned comparison"
        elif n.k == "SwitchStmt" and n.d.get("cond"):
            c = noncast(f.nodes.get(n.d["cond"]))
            if c is None or bare(c.type) not in CHARS | {"unsigned char"}:
                continue
            lo, hi = (0, 255) if bare(c.type) == "unsigned char" else (-128, 127)
            for x in n.walk():
                if x.k == "CaseStmt" and isinstance(x.val, int):
                    yield x, lo <= x.val <= hi, "case %d of a switch on a %s" % (x.val, bare(c.type)) + \
                        ("" if lo <= x.val <= hi else " can never be reached")


def high_bit(ctx, y, k):
    """A test that separates bytes above 0x7f: c & 0x80, c < 0, (unsigned char)c > 0x7f."""
    if y.k != "BinaryOperator":
        return False
    for i in (0, 1):
        v = y.ch[1 - i].cv
        if v is None:
            v = getattr(strip(y.ch[1 - i], explicit=True), "val", None)
        if not isinstance(v, int) or ctx.key(strip(y.ch[i], explicit=True)) != k:
            continue
        op = y.op if i == 0 else {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(y.op, y.op)
        if op == "&" and v & 0xff == 0x80:
            return True
        if op in ("<", ">=") and v in (0, 128) or op in ("<=", ">") and v in (-1, 127):
            return True
    return False


def has_lower(f, n, x):
    ctx = flow.Ctx(f)
    k = ctx.key(strip(x, explicit=True))
    top = n
    while top.parent is not None and (top.parent.k in ("ParenExpr", "ImplicitCastExpr") or top.parent.k == "BinaryOperator" and top.parent.op in ("&&", "||")):
        top = top.parent
    if any(high_bit(ctx, y, k) for y in top.walk()):
        return True         # high bytes are told apart by the same condition
    top = n
    while top.parent is not None and (top.parent.k in ("ParenExpr", "ImplicitCastExpr") or top.parent.k == "BinaryOperator" and top.parent.op == "&&"):
        top = top.parent
    for y in top.walk():
        if y is n or y.k != "BinaryOperator":
            continue
        for z, x2, op, v in ((y, noncast(y.ch[i]), (y.op if i == 0 else {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(y.op)),
                              (y.ch[1 - i].cv if y.ch[1 - i].cv is not None else getattr(strip(y.ch[1 - i], explicit=True), "val", None)))
                             for i in (0, 1)):
            if x2 is not None and op in (">", ">=") and isinstance(v, int) and v >= -1 and ctx.key(strip(x2, explicit=True)) == k:
                return True
    return False


def run(model, rep):
    rep.rule("the numeric value of a plain char is used only via unsigned char or where it is known to be non-negative")
    neg = Neg(model)
    nsink = 0
    nfun = 0
    nct = 0
    for f in model.fns():
        todo = {}
        allk = []
        for n, e, what in sinks(f, neg):
            nsink += 1
            if "passed to" in what:
                nct += 1
            cs = neg.culprits(f, e)
            if cs:
                for c in cs:
                    todo.setdefault(n.id, []).append((c, what))
                allk.append((n, what))
            else:
                rep.ok("char values", "%s: %s" % (f.short(), what))
        nfun += 1
        if todo:
            if f.cfg is None:
                bad = {(n.id, w): (n, None, w) for n, w in allk}
            else:
                r = Guard(model, todo)
                ctx = flow.Ctx(f)
                for cs in todo.values():
                    for c, w in cs:
                        x = strip(c, explicit=True)
                        for _ in range(3):
                            k = ctx.key(x) if x is not None else None
                            if k:
                                r.keys.add(k)
                            v = ctx.fn.vars().get(x.did) if x is not None and x.k == "DeclRefExpr" else None
                            x = strip(f.nodes.get(v["init"]), explicit=True) if v and v.get("init") else None
                Engine(r, model).run(f, None)
                bad = r.bad
            for n, w in allk:
                if (n.id, w) in bad:
                    rep.bad("char values", "%s/%s" % (f.short(), w), n.where(),
                            "in %s a char that can be negative (a byte above 0x7f) %s" % (f.short(), w))
                else:
                    rep.ok("char values", "%s: guarded, %s" % (f.short(), w))
        for n, x, op, v in one_sided(f):
            if v > 127 or v < (-128 if op in ("==", "!=") else 0):
                rep.bad("range tests", "%s/compare %d" % (f.short(), v), n.where(),
                        "in %s a signed char is compared with %d, which it can never reach" % (f.short(), v))
            elif op in ("<", "<=") and v > 0 and not has_lower(f, n, x):
                rep.bad("range tests", "%s/below %d" % (f.short(), v), n.where(),
                        "in %s bytes above 0x7f (negative chars) are taken for characters below %d" % (f.short(), v))
            else:
                rep.ok("range tests", "%s %s %d" % (f.short(), op, v))
        for n, good, what in mixed(f):
            if good:
                rep.ok("range tests", "%s: %s" % (f.short(), what))
            else:
                rep.bad("range tests", "%s/%s" % (f.short(), what), n.where(), "in %s %s" % (f.short(), what))
        # classification functions used as callbacks
        for n in f.nodes.values():
            if n.k == "DeclRefExpr" and n.dk == "func" and last(n.q or "") in CTYPE and (n.q in CTYPE or (n.q or "").startswith("std::")):
                p = n.parent
                while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr", "UnaryOperator"):
                    p = p.parent
                if p is not None and p.k == "CallExpr" and p.ch and noncast(p.ch[0]) is n:
                    continue
                if p is not None and "locale" in str(p.pt):
                    continue
                rep.bad("char values", "%s/%s callback" % (f.short(), last(n.q)), n.where(),
                        "in %s %s is applied to plain chars" % (f.short(), last(n.q)))
    rep.expect(nsink >= 40 and nct >= 8, "only %d uses of char values found (%d classifications)" % (nsink, nct))
    rep.extra["functions"] = nfun
