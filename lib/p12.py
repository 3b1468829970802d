"""P12: every consulted file is recorded.

Typestate of paths: a path that is read, listed or tested for existence while a
document is converted has been given to the dependency tracker; and the tracker
keeps and writes everything it was given."""
import re

from . import flow
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args, call_object
from .p08 import bare

FS = "boost::filesystem::"
TRACKER = "dependency_tracker"
TESTS = {"exists", "status", "symlink_status", "file_size", "last_write_time", "is_regular_file", "is_empty", "is_symlink", "is_other", "canonical",
         "hard_link_count", "read_symlink"}
LISTS = re.compile(r"\b(recursive_)?directory_iterator\b")
OPENS = {"fopen", "open", "open64", "load_string_file", "opendir", "stat", "lstat", "access"}


def is_path(t):
    b = bare(t)
    return bool(re.search(r"(^|[ :])(path|quickbook_path)$", b))


def path_box(t):
    """A container (or an iterator over one) of quickbook paths."""
    b = bare(t)
    return "quickbook_path" in b and "<" in b


def deref(n):
    return n.k == "UnaryOperator" and n.op == "*" or n.k == "CXXOperatorCallExpr" and n.op == "*" and len(n.ch) == 2


class Recorded(Rule):
    width = 8
    max_depth = 7

    def __init__(self, model):
        Rule.__init__(self, model)
        self.bad = {}
        self.good = {}
        self.pairs = set()
        self.find_interesting(lambda f: any(self.event(n) for n in f.nodes.values()))
        self.listers = self.reach(lambda n: self.lists(n) is not None)
        self.inl = set()
        for f in model.fns():
            if f.usr in self.interesting and any(is_path(p["t"]) or path_box(p["t"]) or f.usr in self.base and "string" in bare(p["t"]) for p in f.params):
                if not self.tracker(f):
                    self.inl.add(f.usr)

    def reach(self, pred):
        base = {f.usr for f in self.model.fns() if any(pred(n) for n in f.nodes.values())}
        cg = flow.callgraph(self.model)
        more = True
        while more:
            more = False
            for a, bs in cg.items():
                if a not in base and bs & base:
                    base.add(a)
                    more = True
        return base

    @staticmethod
    def tracker(f):
        return (f.cls or "").endswith(TRACKER)

    def may_inline(self, call, t, ctx):
        return t.usr in self.inl

    # -- events --------------------------------------------------------------
    def event(self, n):
        return self.records(n) is not None or self.reads(n) is not None or self.tests(n) is not None or self.lists(n) is not None

    @staticmethod
    def records(n):
        if is_call(n) and last(n.callee or "") in ("add_dependency", "add_glob_match", "add_glob") and TRACKER in (n.callee or ""):
            return last(n.callee), call_args(n)[1][0]
        return None

    @staticmethod
    def reads(n):
        """The path expression of an operation that reads a file."""
        if n.k in CONSTRUCTS and "ifstream" in bare(n.type) + " " + (n.type or "") or n.k in CONSTRUCTS and "ifstream" in (n.type or ""):
            ks = [c for c in n.ch if c is not None and c.k != "CXXDefaultArgExpr"]
            if ks and not n.copy:
                return ks[0]
        if is_call(n) and last(n.callee or "") == "open" and call_object(n) is not None and \
                re.search(r"ifstream|basic_fstream|filebuf", call_object(n).type or ""):
            return n.ch[1]
        if n.k == "CallExpr" and last(n.callee or "") in OPENS and "::" not in (n.callee or "::").replace(FS, ""):
            a = [c for c in call_args(n)[1] if c is not None]
            return a[0] if a else None
        return None

    @staticmethod
    def tests(n):
        if n.k == "CallExpr" and (n.callee or "").startswith(FS) and last(n.callee) in TESTS:
            a = call_args(n)[1]
            if a and a[0] is not None and is_path(a[0].type):
                return a[0]
        return None

    @staticmethod
    def lists(n):
        if n.k in CONSTRUCTS and LISTS.search(n.type or "") and not n.copy:
            ks = [c for c in n.ch if c is not None and c.k != "CXXDefaultArgExpr"]
            if ks and is_path(ks[0].type):
                return ks[0]
        return None

    # -- paths ---------------------------------------------------------------
    def pkey(self, e, ctx):
        e = strip(e, explicit=True)
        if e is None:
            return None
        if e.k in CONSTRUCTS and len([c for c in e.ch if c is not None and c.k != "CXXDefaultArgExpr"]) == 1 and \
                (is_path(e.ch[0].type) or "string" in bare(e.ch[0].type)):
            return self.pkey(e.ch[0], ctx)
        k = ctx.key(e)
        if k is not None:
            return k
        if e.k == "CXXOperatorCallExpr" and len(e.ch) == 3 and e.op in ("/", "+"):
            a, b = self.pkey(e.ch[1], ctx), self.pkey(e.ch[2], ctx)
            return None if a is None or b is None else "(%s %s %s)" % (a, e.op, b)
        if is_call(e) and call_object(e) is not None and e.cm and not [c for c in call_args(e)[1] if c is not None]:
            a = self.pkey(call_object(e), ctx)
            return None if a is None else "%s.%s()" % (a, last(e.callee or ""))
        if e.k == "MemberExpr" and e.ch:
            a = self.pkey(e.ch[0], ctx)
            return None if a is None else "%s.%s" % (a, e.name)
        return None

    def base_of(self, e, ctx, depth=0):
        """The variable a directory is derived from."""
        e = strip(e, explicit=True)
        if e is None or depth > 6:
            return None
        if e.k in CONSTRUCTS and e.ch:
            return self.base_of(e.ch[0], ctx, depth + 1)
        if is_call(e) and call_object(e) is not None and last(e.callee or "") == "parent_path":
            return self.base_of(call_object(e), ctx, depth + 1)
        if e.k == "MemberExpr" and e.name in ("file_path", "path") and e.ch:
            return self.base_of(e.ch[0], ctx, depth + 1)
        if e.k == "DeclRefExpr" and e.dk == "local" and e.did not in flow.mutated(ctx.fn):
            v = ctx.fn.vars().get(e.did)
            i = ctx.fn.nodes.get(v.get("init")) if v and v.get("init") else None
            i = strip(i, explicit=True)
            if i is not None and not deref(i) and (i.k in CONSTRUCTS or is_call(i) or i.k == "MemberExpr"):
                b = self.base_of(i, ctx, depth + 1)
                if b is not None:
                    return b
        return ctx.key(e)

    def element(self, e, ctx):
        """Is e (part of) an element of a container of paths?"""
        e = strip(e, explicit=True)
        while e is not None and e.k == "MemberExpr" and e.ch:
            e = strip(e.ch[0], explicit=True)
        if e is None:
            return False
        if e.k == "CXXOperatorCallExpr" and e.op in ("->", "*") or e.k == "UnaryOperator" and e.op == "*":
            return path_box(e.ch[-1].type if e.k == "UnaryOperator" else e.ch[1].type)
        return False

    def recorded(self, e, auto, ctx):
        if self.element(e, ctx):
            return True
        k = self.pkey(e, ctx)
        return k is not None and any(t[0] == "rec" and (t[1] == k or k.startswith(t[1] + ".")) for t in auto)

    def drop(self, auto, k):
        return frozenset(t for t in auto if t[0] != "rec" or not (t[1] == k or k in re.split(r"[ ()]", t[1]) or t[1].startswith(k + ".")))

    def state_about(self, ctx):
        return any("quickbook::state" == bare(p["t"]) for g in ctx.stack() for p in g.params) or \
            any(g.cls and g.cls.endswith("quickbook::state") for g in ctx.stack())

    # -- steps ---------------------------------------------------------------
    def step(self, n, auto, ctx, st):
        a = auto
        r = self.records(n)
        if r is not None:
            if r[0] == "add_glob":
                x = strip(r[1], explicit=True)
                d = p = None
                if x.k == "CXXOperatorCallExpr" and x.op == "/":
                    d, p = self.base_of(x.ch[1], ctx), self.pkey(x.ch[2], ctx)
                a = frozenset(t for t in a if t[0] != "glob") | {("glob", d, p)}
            else:
                k = self.pkey(r[1], ctx)
                if k:
                    a = frozenset(t for t in a if not (t[0] == "pend" and t[1] == k)) | {("rec", k)}
            return [a]
        p = self.reads(n)
        if p is not None and not self.tracker(ctx.fn):
            self.judge("reads", n, self.recorded(p, a, ctx), "a file is read that has not been given to the dependency tracker", ctx)
        p = self.tests(n)
        if p is not None and not self.tracker(ctx.fn) and self.state_about(ctx) and not self.compared(p, ctx):
            if self.recorded(p, a, ctx) or any(t[0] == "glob" for t in a):
                self.judge("tests", n, True, "", ctx)
            else:
                k = self.pkey(p, ctx)
                a = a | {("pend", k or "?", ctx.fn.short(), n.where())}
        p = self.lists(n)
        if p is not None and self.state_about(ctx):
            self.judge("listings", n, any(t[0] == "glob" for t in a), "a directory is listed without its glob having been recorded", ctx)
        if is_call(n):
            self.pair(n, a, ctx)
        v = self.inserted(n)
        if v is not None:
            x = strip(v, explicit=True)
            ok = self.recorded(x, a, ctx) or self.has(x, a, ctx)
            self.judge("candidates", n, ok, "a path is kept for reading without having been given to the dependency tracker", ctx)
        if n.k == "DeclStmt":
            for v in n.d.get("vars", ()):
                i = strip(ctx.fn.nodes.get(v.get("init")), explicit=True)
                if (v.get("t") or "").rstrip().endswith("&") and not (is_path(v["t"])):
                    continue
                if is_path(v.get("t")) or "string" in bare(v.get("t") or ""):
                    k = ctx.var_key(v["did"])
                    rec = i is not None and (self.recorded(i, a, ctx) or deref(i) and self.element(i, ctx) or self.copied(i, a, ctx))
                    a = self.drop(a, k)
                    if rec:
                        a = a | {("rec", k)}
        elif n.k == "CXXOperatorCallExpr" and n.op in ("=", "/=", "+=") and (is_path(n.ch[1].type) or "string" in bare(n.ch[1].type)):
            k = ctx.key(n.ch[1])
            if k:
                rec = n.op == "=" and self.recorded(n.ch[2], a, ctx)
                a = self.drop(a, k)
                if rec:
                    a = a | {("rec", k)}
        return [a] if a != auto else None

    def copied(self, i, auto, ctx):
        return i.k in CONSTRUCTS and len(i.ch) == 1 and self.recorded(i.ch[0], auto, ctx)

    def has(self, x, auto, ctx):
        """A path object whose file is recorded."""
        if x is None:
            return False
        if x.k in CONSTRUCTS and "quickbook_path" in bare(x.type) and x.ch:
            return self.recorded(x.ch[0], auto, ctx) or self.has(strip(x.ch[0], explicit=True), auto, ctx)
        k = self.pkey(x, ctx)
        return k is not None and any(t[0] == "rec" and t[1].startswith(k + ".") for t in auto)

    @staticmethod
    def inserted(n):
        if is_call(n) and last(n.callee or "") in ("insert", "push_back", "emplace", "emplace_back", "push_front") and call_object(n) is not None and \
                path_box(call_object(n).type):
            a = [c for c in call_args(n)[1] if c is not None]
            if a and "quickbook_path" in bare(a[-1].type) and "<" not in bare(a[-1].type):
                return a[-1]
        return None

    def compared(self, p, ctx):
        """Paths that are only compared with each other."""
        k = self.pkey(p, ctx)
        for m in ctx.fn.nodes.values():
            if m.k == "CallExpr" and (m.callee or "") == FS + "equivalent" and k is not None:
                if any(c is not None and self.pkey(c, ctx) == k for c in call_args(m)[1]):
                    return True
        return False

    def pair(self, n, auto, ctx):
        """The listing is made in the directory, and with the pattern, recorded."""
        ts = [t for t in self.model.targets(n) if t.usr in self.listers and t.usr in self.inl]
        if not ts or any(g.usr in self.listers and self.lists_in(g) for g in ctx.stack()):
            return
        g = [t for t in auto if t[0] == "glob"]
        loc = [a for a in call_args(n)[1] if a is not None and is_path(a.type) and not path_box(a.type)]
        if not g or not loc:
            return
        b = self.base_of(loc[0], ctx)
        ps = {self.pkey(a, ctx) for a in call_args(n)[1] if a is not None}
        ok = (g[0][1] is None or b is None or g[0][1] == b) and (g[0][2] is None or g[0][2] in ps or not any(self.texty(a) for a in call_args(n)[1]))
        self.pairs.add(n.where())
        self.judge("listings", n, ok, "the glob recorded is not in the directory that is listed (%s, listed %s)" % (show(g[0][1]), show(b)), ctx)

    @staticmethod
    def texty(a):
        return a is not None and re.search(r"string", bare(a.type))

    def lists_in(self, g):
        return any(self.lists(n) is not None for n in g.nodes.values())

    def judge(self, group, n, ok, msg, ctx):
        k = (group, ctx.fn.short(), n.where())
        if ok:
            self.good.setdefault(k, ctx.chain())
        elif k not in self.bad:
            self.bad[k] = (msg, ctx.chain())

    def finish(self, f, results):
        for r in results:
            for t in r.auto:
                if t[0] == "pend":
                    self.bad.setdefault(("tests", t[2], t[3]), ("whether a file exists is tested, and the file is not given to the dependency tracker", f.short()))


def show(k):
    return re.sub(r"[^:]*:([^:#]*)#\d+", r"\1", k or "?")


def boxy(t):
    return bool(re.match(r"^std::(map|set|multimap|multiset|vector|list|deque|unordered_\w+)<", bare(t)))


def mentions(e, key, ctx):
    return any(x.k in ("DeclRefExpr", "MemberExpr") and ctx.key(x) == key for x in e.walk())


STORE = {"insert", "emplace", "push_back", "emplace_back", "try_emplace", "insert_or_assign"}


class Stored(Rule):
    """A method that is given a path stores it on every path to its end."""

    def __init__(self, model, key):
        Rule.__init__(self, model)
        self.pkey = key

    def may_inline(self, call, t, ctx):
        return (t.cls or "").endswith(TRACKER) or any(boxy(p["t"]) for p in t.params)

    def step(self, n, auto, ctx, st):
        if n.k == "CXXOperatorCallExpr" and n.op == "[]" and boxy(n.ch[1].type) and mentions(n.ch[2], self.pkey, ctx):
            return [True]
        if is_call(n) and last(n.callee or "") in STORE and call_object(n) is not None and boxy(call_object(n).type) and \
                any(a is not None and mentions(a, self.pkey, ctx) for a in call_args(n)[1]):
            return [True]
        return None


class Written(Rule):
    """Everything stored is written, whatever the flags."""
    width = 24

    def __init__(self, model, boxes):
        Rule.__init__(self, model)
        self.boxes = boxes
        self.bad = {}
        self.named = set()
        self.items = set()

    def may_inline(self, call, t, ctx):
        return (t.cls or "").endswith(TRACKER) or t.file.startswith("dependency_tracker") and \
            any(boxy(p["t"]) or "ostream" in (p["t"] or "") or "pair<" in (p["t"] or "") for p in t.params)

    def box(self, e, ctx):
        e = strip(e, explicit=True)
        if e is None or not boxy(e.type):
            return None
        k = ctx.key(e)
        if k is None:
            return None
        for b in self.boxes:
            if k == "this." + b or k.endswith("." + b):
                return b
        return k

    def fail(self, n, what, ctx):
        self.bad.setdefault((ctx.fn.short(), what), (n.where() if n is not None else ctx.fn.short(), ctx.chain()))

    def step(self, n, auto, ctx, st):
        a = auto
        if n.k == "DeclStmt":
            for v in n.d.get("vars", ()):
                i = strip(ctx.fn.nodes.get(v.get("init")), explicit=True)
                if i is None:
                    continue
                k = ctx.var_key(v["did"])
                while i is not None and i.k in CONSTRUCTS and len(i.ch) == 1:
                    i = strip(i.ch[0], explicit=True)
                if i is None:
                    continue
                b = self.box(i, ctx) if v["name"].startswith("__range") else \
                    self.box(call_object(i), ctx) if is_call(i) and last(i.callee or "") in ("begin", "cbegin") and call_object(i) is not None else None
                if b is not None:
                    a = frozenset(t for t in a if not (t[0] == "local" and t[1] == b))
                    if b in self.boxes:
                        a = a | {("seen", b)}
                    a = frozenset(t for t in a if not (t[0] == "item" and b == t[1] + ".second"))
                if deref(i) and re.search(r"pair<|path|string", v.get("t") or ""):
                    old = ("item", k)
                    if old in a:
                        self.fail(n, "an entry is left out", ctx)
                        a = a - {old}
                    self.items.add(n.where())
                    a = frozenset(t for t in a if t[0] != "via" or t[2] != k) | {("item", k)}
                elif not deref(i):
                    for t in a:
                        if t[0] == "item" and self.clear(a, [i], ctx) != a and t not in self.clear(a, [i], ctx):
                            a = a | {("via", k, t[1])}
        elif is_call(n) and last(n.callee or "") in STORE and call_object(n) is not None and boxy(call_object(n).type):
            b = self.box(call_object(n), ctx)
            args = [x for x in call_args(n)[1] if x is not None]
            a = self.clear(a, args, ctx)
            if b is not None and b not in self.boxes:
                a = a | {("local", b)}
        elif n.k == "CXXOperatorCallExpr" and n.op == "<<" or is_call(n) and last(n.callee or "") in ("write", "put", "operator<<"):
            a = self.clear(a, [c for c in n.ch if c is not None], ctx)
        return [a] if a != auto else None

    def clear(self, auto, args, ctx):
        out = set(auto)
        for t in auto:
            if t[0] == "item":
                for x in args:
                    for y in x.walk():
                        if y.k in ("MemberExpr", "DeclRefExpr"):
                            k = ctx.key(y)
                            if ("via", k, t[1]) in auto:
                                out.discard(t)
                            if k == t[1] and not self.mapped(y) or k == t[1] + ".first":
                                if self.holds_more(y, t[1], ctx):
                                    self.named.add(t[1])     # the entries below it are still to be written
                                else:
                                    out.discard(t)
        return frozenset(out)

    @staticmethod
    def mapped(y):
        return "pair<" in (y.type or "")

    @staticmethod
    def holds_more(y, key, ctx):
        """Does the entry consist of a name and a collection?"""
        if y.k == "MemberExpr" and y.name == "first" and y.ch:
            t = bare(strip(y.ch[0], explicit=True).type)
            return bool(re.search(r",\s*std::(set|vector|list|map)<", t)) or "glob" in t
        return False

    def edge(self, cond, truth, auto, ctx, st):
        """An entry that is known not to exist need not be written."""
        n, t = strip(cond, explicit=True), truth
        while n is not None and n.k == "UnaryOperator" and n.op == "!":
            n, t = strip(n.ch[0], explicit=True), not t
        if n is not None and not t:
            k = ctx.key(n)
            if k and k.endswith(".second"):
                a = auto - {("item", k[:-7])}
                return [a]
        return None

    def end(self, f, results):
        for r in results:
            if r.kind != "return":
                continue
            for b in self.boxes:
                if ("seen", b) not in r.auto:
                    self.bad.setdefault((f.short(), "%s is not written" % b), ("%s:%s" % (f.file, f.line), f.short()))
            for t in r.auto:
                if t[0] == "item":
                    self.bad.setdefault((f.short(), "an entry is left out"), ("%s:%s" % (f.file, f.line), f.short()))
                if t[0] == "local":
                    self.bad.setdefault((f.short(), "a collected list is not written"), ("%s:%s" % (f.file, f.line), f.short()))


def roots(model, rule):
    cg = flow.callgraph(model)
    out = []
    for f in model.fns():
        if f.usr not in rule.interesting or f.cfg is None or rule.tracker(f):
            continue
        if f.usr in rule.inl and any(g.usr in rule.interesting and f.usr in cg.get(g.usr, ()) and g.usr != f.usr for g in model.fns()):
            continue
        if f.usr in rule.base or f.usr in rule.inl or any(t in rule.inl for t in cg.get(f.usr, ())):
            out.append(f)
    return out


def run(model, rep):
    rep.rule("typestate of paths from the dependency tracker to every read, listing and existence test; what the tracker is given is stored, kept and written")
    rule = Recorded(model)
    eng = Engine(rule, model)
    for f in roots(model, rule):
        rule.finish(f, eng.run(f, frozenset()))
    for (g, fn, where), (msg, chain) in sorted(rule.bad.items()):
        rep.bad(g, "%s/%s" % (fn, g), where, "%s: %s (%s)" % (fn, msg, chain))
    for k in sorted(rule.good):
        if k not in rule.bad:
            rep.ok(k[0], "%s in %s (%s)" % (k[2], k[1], rule.good[k]))

    cls = [c for c in model.classes.values() if c["name"] == TRACKER]
    if not cls:
        raise Broken("no %s class" % TRACKER)
    cls = cls[0]
    boxes = [f["name"] for f in cls["fields"] if boxy(f["t"])]
    if not boxes:
        raise Broken("the dependency tracker has no containers")
    meths = [f for f in model.fns() if (f.cls or "").endswith(TRACKER) and f.cfg is not None]
    for f in meths:
        ps = [p for p in f.params if is_path(p["t"])]
        if ps and len(f.params) == 1 and not f.d.get("cmethod"):
            r = Stored(model, "%s:%s#%s" % (f.tu, ps[0]["name"], ps[0]["did"]))
            res = Engine(r, model).run(f, False)
            if any(x.kind == "return" and not x.auto for x in res):
                rep.bad("stored", f.short(), "%s:%s" % (f.file, f.line), "%s can return without having stored the path it was given" % f.short())
            else:
                rep.ok("stored", f.short())
        if any("ostream" in (p["t"] or "") for p in f.params):
            w = Written(model, boxes)
            w.end(f, Engine(w, model).run(f, frozenset()))
            for (fn, what), (where, chain) in sorted(w.bad.items()):
                rep.bad("written", "%s/%s" % (fn, what), where, "%s: %s (%s)" % (fn, what, chain))
            rep.ok("written", "entries written in %s" % f.short(), len(w.items))
    removed(model, rep, boxes)
    for g, n in (("reads", 2), ("listings", 2), ("tests", 1), ("candidates", 4), ("stored", 3), ("written", 4), ("kept", 5)):
        rep.at_least(g, n)


def removed(model, rep, boxes):
    """Nothing takes entries away, and there is one tracker per document."""
    for f in model.fns():
        for n in f.nodes.values():
            o = None
            if is_call(n) and last(n.callee or "") in ("clear", "erase", "swap", "extract", "operator="):
                o = call_object(n) if n.k == "CXXMemberCallExpr" else n.ch[1] if len(n.ch) > 1 else None
            if n.k == "CXXOperatorCallExpr" and n.op == "=":
                o = n.ch[1]
            o = strip(o, explicit=True) if o is not None else None
            if o is not None and (bare(o.type).endswith(TRACKER) or o.k == "MemberExpr" and o.name in boxes and TRACKER in (o.q or "")):
                rep.bad("kept", "%s/removed" % f.short(), n.where(), "%s takes recorded dependencies away" % f.short())
            if is_call(n) and TRACKER + "::" in (n.callee or ""):
                r = call_object(n)
                r = strip(r, explicit=True) if r is not None else None
                if r is not None and r.k == "DeclRefExpr" and r.dk == "local" and not (ctxless_ref(f, r.did)):
                    rep.bad("kept", "%s/other tracker" % f.short(), n.where(), "%s records in a dependency tracker of its own" % f.short())
                elif r is not None:
                    rep.ok("kept", n.where())
            if n.k in CONSTRUCTS and n.copy and bare(n.type).endswith(TRACKER):
                rep.bad("kept", "%s/copied" % f.short(), n.where(), "%s copies the dependency tracker" % f.short())


def ctxless_ref(f, did):
    v = f.vars().get(did)
    return v is not None and (v.get("t") or "").endswith("&")
