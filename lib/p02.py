"""P02: a failed write of an output file is never silent (stream typestate)."""
from . import flow
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args, call_object
from .p01 import is_err

TESTS = {"fail": True, "bad": True, "good": False, "is_open": False, "operator bool": False, "operator!": True}
BADBIT, FAILBIT = 1, 4
FLUSH = {"flush", "close"}
READ_ONLY = {"rdstate", "tellp", "width", "precision", "fill", "flags", "rdbuf", "getloc"}


def is_ofstream(t):
    t = t.replace("const ", "")
    return "ofstream" in t and not t.endswith("*")


def is_ostream(t):
    return "ostream" in t or "ofstream" in t or "basic_ios" in t


class StreamRule(Rule):
    def __init__(self, model):
        Rule.__init__(self, model)

        def pred(f):
            if any(is_ofstream(v.get("t", "")) for v in f.vars().values()):
                return True
            if any("ostream" in p["t"] and p["t"].endswith("&") for p in f.params):
                return f.q != "quickbook::detail::outerr" and "stream" not in (f.cls or "")
            return False
        self.find_interesting(pred)
        self.streams = {}
        self.bad = {}

    def track(self, key):
        return False

    def root(self, n, ctx):
        """Key of the stream an expression denotes (through << chains)."""
        n = strip(n, explicit=True)
        for _ in range(200):
            if n is None:
                return None
            if is_call(n) and n.k == "CXXOperatorCallExpr" and n.op == "<<":
                n = strip(n.ch[1], explicit=True)
                continue
            if n.k == "CXXMemberCallExpr" and last(n.callee) in ("operator<<", "write", "put", "flush"):
                n = strip(call_object(n), explicit=True)
                continue
            break
        if n is None or not is_ostream(n.type):
            return None
        return ctx.key(n)

    def get(self, auto, key):
        for k, s, x in auto:
            if k == key:
                return s, x
        return None

    def put(self, auto, key, s, x=None):
        old = self.get(auto, key)
        if x is None:
            x = old[1] if old else 0
        return frozenset([e for e in auto if e[0] != key] + [(key, s, x)])

    def failmsg(self, key, what, where):
        self.bad.setdefault((key, what), where)

    def step(self, n, auto, ctx, st):
        if n.k == "DeclStmt":
            a = auto
            for v in n.d.get("vars", ()):
                if is_ofstream(v["t"]) and not v["t"].endswith("&"):
                    key = "%s:%s#%s" % (ctx.fn.tu, v["name"], v["did"])
                    self.streams[key] = (n.where(), v["name"], ctx.fn.short())
                    opened = False
                    i = strip(ctx.fn.nodes.get(v.get("init", 0)))
                    if i is not None and len(i.kids()) > 0:
                        opened = True
                    a = self.put(a, key, "open" if opened else "closed", 0)
            return [a] if a is not auto else None
        if is_err(n):
            if any(s == "failed" for _, s, _ in auto):
                return [frozenset((k, "reported" if s == "failed" else s, x) for k, s, x in auto)]
            return None
        if is_call(n):
            nm = last(n.callee)
            if n.k == "CXXMemberCallExpr":
                key = self.root(call_object(n), ctx)
                cur = self.get(auto, key) if key else None
                if cur:
                    if nm in FLUSH:
                        if cur[0] == "dirty" or nm == "close" and cur[0] == "flushed":
                            return [self.put(auto, key, "flushed" if nm == "flush" else "closedw")]
                        return None
                    if nm == "open":
                        return [self.put(auto, key, "open")]
                    if nm == "exceptions" and call_args(n)[1]:
                        return [self.put(auto, key, cur[0], self.mask(call_args(n)[1][0]))]
                    if nm == "clear":
                        if cur[0] in ("dirty", "closedw") or cur[0] == "flushed" and not cur[1] & BADBIT:
                            self.failmsg(key, "has its error state cleared before it was tested", n.where())
                        return None
                    if nm in TESTS or nm in READ_ONLY or nm == "setstate":
                        return None
                    if nm == "operator<<" and self.flushing(n):
                        return [self.put(auto, key, "flushed" if cur[0] != "failed" else "failed")]
                    return [self.write(auto, key, cur)]
            if n.k == "CXXOperatorCallExpr" and n.op == "<<":
                key = self.root(n.ch[1], ctx)
                cur = self.get(auto, key) if key else None
                if cur:
                    if self.flushing(n):
                        return [self.put(auto, key, "flushed" if cur[0] not in ("failed", "reported") else cur[0])]
                    return [self.write(auto, key, cur)]
        return None

    def mask(self, a):
        """Bits of an exceptions() argument (libstdc++: bad 1, fail 4)."""
        if a is None:
            return 0
        m = 0
        for x in a.walk():
            if x.k in ("DeclRefExpr", "MemberExpr"):
                m |= {"badbit": BADBIT, "failbit": FAILBIT}.get(x.name, 0)
        return m or (a.cv or 0)

    def write(self, auto, key, cur):
        if cur[0] in ("failed", "reported"):
            return auto
        return self.put(auto, key, "dirty")

    def flushing(self, n):
        a = strip(n.ch[-1], explicit=True)
        if a is not None and a.k == "DeclRefExpr" and a.name in ("endl", "flush"):
            return True
        if a is not None and a.k == "UnaryOperator" and a.ch:
            a = strip(a.ch[0])
            return a is not None and a.name in ("endl", "flush")
        return False

    def opaque(self, n, auto, c, ctx):
        if is_call(n):
            nm = last(n.callee)
            key = None
            if n.k == "CXXMemberCallExpr" and nm in TESTS:
                key = self.root(call_object(n), ctx)
            elif n.k == "CXXOperatorCallExpr" and n.op == "!":
                key = self.root(n.ch[1], ctx)
                nm = "operator!"
            cur = self.get(auto, key) if key else None
            if cur:
                out = []
                tag = "#%s:%d" % (ctx.cid, n.id)
                failing = TESTS[nm]
                if cur[0] not in ("failed", "reported"):
                    c2 = dict(c)
                    c2[tag] = not failing
                    s2 = {"open": "ok", "flushed": "ok", "closedw": "ok"}.get(cur[0], cur[0])
                    if nm in ("is_open", "bad") and cur[0] != "open":
                        s2 = cur[0] if nm == "is_open" else s2
                    out.append((self.put(auto, key, s2), c2))
                c3 = dict(c)
                c3[tag] = failing
                out.append((self.put(auto, key, "failed" if cur[0] != "reported" else "reported"), c3))
                return out
        # passed on to code we do not enter: assume it writes
        obj, args = call_args(n)
        a = auto
        for p, arg in zip(n.pt or (), args):
            if arg is None or p.startswith("const ") or not is_ostream(p):
                continue
            key = self.root(arg, ctx)
            cur = self.get(a, key) if key else None
            if cur and not (n.k == "CXXOperatorCallExpr" and n.op in ("<<", "!")):
                a = self.write(a, key, cur)
        return [(a, c)]

    def dtor(self, e, auto, ctx, st):
        v = ctx.fn.vars().get(e["dtor"])
        if v is None:
            return None
        key = "%s:%s#%s" % (ctx.fn.tu, v["name"], v["did"])
        cur = self.get(auto, key)
        if cur is None:
            return None
        s, x = cur
        where = self.streams[key][0]
        rest = frozenset(en for en in auto if en[0] != key)
        if s == "dirty":
            self.failmsg(key, "is destroyed with unwritten (buffered) data whose write is never checked", where)
        elif s == "flushed" and not x & BADBIT or s == "closedw" and not x & FAILBIT:
            self.failmsg(key, "is flushed or closed but its state is not tested afterwards", where)
        elif s == "failed":
            return [rest | {("pending", "failed", 0)}]
        return [rest]

    def after_call(self, call, target, auto, ret, ctx):
        return auto


def run(model, rep):
    rep.rule("typestate of every output file stream on every path (helpers inlined): opened -> tested -> written -> flushed/closed -> tested; "
             "a stream found failed leads to an error report or an exception; data still buffered at destruction is a violation")
    rule = StreamRule(model)
    eng = Engine(rule, model)
    owners = [f for f in model.fns() if any(is_ofstream(v.get("t", "")) and v.get("kind") == "local" and not v["t"].endswith("&") for v in f.vars().values())]
    # function that returns a stream or stores one in an object is outside the rule
    for c in model.classes.values():
        for fl in c["fields"]:
            if is_ofstream(fl["t"]):
                raise Broken("output stream kept in a class member (%s::%s): not modelled" % (c["q"], fl["name"]))
    rep.expect(owners, "no output file streams")
    cg = flow.callgraph(model)
    callers = {}
    for a, bs in cg.items():
        for b in bs:
            callers.setdefault(b, set()).add(a)
    up = flow.reverse_reach(model, [f.usr for f in owners])
    for u in sorted(up):
        f = model.functions[u]
        if f.usr not in {o.usr for o in owners} and callers.get(u):
            continue
        for r in eng.run(f, frozenset()):
            if r.kind == "throw":
                continue
            if any(s == "failed" for _, s, _ in r.auto):
                if callers.get(u):
                    continue     # judged in the callers
                rep.bad("failure reported", f.short() + "/silent", "%s:%d" % (f.file, r.node.line if r.node else f.end),
                        "%s can end after a failed open or write without reporting it" % f.short())
            else:
                rep.ok("failure reported")
    # owners whose callers exist were analysed from the roots too
    for key, (where, name, fn) in rule.streams.items():
        bad = [(w, m) for (k, m), w in rule.bad.items() if k == key]
        if bad:
            for w, m in bad:
                rep.bad("stream checked", "%s/%s" % (fn, name), w, "output stream '%s' in %s %s" % (name, fn, m))
        else:
            rep.ok("stream checked", "%s in %s (%s)" % (name, fn, where))
    rep.at_least("stream checked", 2)
    rep.extra["functions_analysed"] = len(rule.visited)
