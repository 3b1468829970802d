"""P19: no decision depends on uninitialised memory.

Definite assignment, in three parts: scalar locals (and the scalar parts of local
objects that their constructor leaves unset), the scalar members every
constructor leaves unset, and members that a grammar's actions set before other
parts of the same grammar read them."""
import re

from . import flow, grammar
from .facts import strip, is_call, CONSTRUCTS, Broken, nonconst_ref
from .flow import Rule, Engine, last, call_args, call_object

BUILTIN = {"bool", "char", "int", "long", "short", "long long", "unsigned int", "unsigned char", "signed char", "unsigned short",
           "unsigned long", "unsigned long long", "double", "float", "wchar_t"}


class Types:
    def __init__(self, model):
        self.enums = {k.split("@")[0] for k in model.enums}

    def scalar(self, t):
        t = (t or "").replace("const ", "").replace(" const", "").replace("volatile ", "").strip()
        return t.endswith("*") or "::*" in t or t in BUILTIN or t in self.enums

    def array(self, t):
        m = re.match(r"^(.*)\[\d+\]$", (t or "").strip())
        return m is not None and self.scalar(m.group(1))


def up(n):
    p = n.parent
    while p is not None and p.k in ("ParenExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups"):
        n, p = p, p.parent
    return n, p


def is_read(n):
    """Does evaluating the lvalue expression n (at its use) read its value?
    True / False / 'ref' (handed out by reference or address)."""
    c, p = n, n.parent
    while p is not None and p.k == "ParenExpr":
        c, p = p, p.parent
    if p is None:
        return False
    if p.k == "ImplicitCastExpr":
        if p.ck == "LValueToRValue":
            return True
        if p.ck == "NoOp":
            return is_read(p)
        if p.ck == "ArrayToPointerDecay":
            return "ref"
        return False
    if p.k == "CompoundAssignOperator" and p.ch[0] is c or p.k == "UnaryOperator" and p.op in ("++", "--", "p++", "p--"):
        return True
    if p.k == "BinaryOperator" and p.op == "=" and p.ch[0] is c:
        return False
    if p.k == "BinaryOperator" and p.op in flow.ASSIGN_OPS and p.ch[0] is c:
        return True
    if p.k == "UnaryOperator" and p.op == "&":
        return "ref"
    if p.k == "MemberExpr":
        return False
    if is_call(p) or p.k in CONSTRUCTS:
        obj, args = call_args(p)
        for t, a in zip(p.pt or (), args):
            if a is c:
                if nonconst_ref(t):
                    return "ref"
                return True if t.endswith("&") else False
        return "ref"
    if p.k in ("DeclStmt", "LambdaExpr", "InitListExpr", "ReturnStmt", "ConditionalOperator", "MaterializeTemporaryExpr"):
        return "ref"
    return False


# ---------------------------------------------------------------------------
# part 1: what constructors leave unset
# ---------------------------------------------------------------------------

class CtorRule(Rule):
    """Automaton: the set of members (by qualified name) assigned so far."""
    width = 8

    def __init__(self, model, fields, fns):
        Rule.__init__(self, model)
        self.fields = fields
        self.reads = []
        self.mention = fns

    def may_inline(self, call, t, ctx):
        return t.usr in self.mention

    def track(self, key):
        return False

    def step(self, n, auto, ctx, st):
        if n.k == "BinaryOperator" and n.op == "=":
            l = strip(n.ch[0], explicit=True)
            if l is not None and l.k == "MemberExpr" and l.q in self.fields and self.mine(l, ctx):
                return [auto | {l.q}]
        elif n.k == "MemberExpr" and n.q in self.fields and n.q not in auto and self.mine(n, ctx):
            r = is_read(n)
            if r is True:
                self.reads.append((n.q, n, ctx.fn))
            elif r == "ref":
                return [auto | {n.q}]
        return None

    def mine(self, n, ctx):
        return (ctx.key(n) or "").startswith("this.")


def ctor_unset(model, T, mention):
    """(class record, ctor, set of member names left unset) for each constructor
    that leaves a scalar member without a value, transitively."""
    ctors = {}
    for f in model.fns():
        if f.d.get("ctor"):
            ctors.setdefault(f.d["clsusr"], []).append(f)
    out = {}
    reads = []
    stats = [0, 0]
    for u, c in sorted(model.classes.items()):
        fields = {"%s::%s" % (c["q"], x["name"]): x for x in c["fields"] if T.scalar(x["t"]) or T.array(x["t"])}
        if not fields:
            continue
        for f in ctors.get(u, ()):
            if f.d.get("copy") or f.d.get("defaulted") and len(f.params) == 1:
                continue
            if len(f.params) == 1 and f.params[0]["t"].replace("const ", "").rstrip("& ") == c["ts"]:
                # copy or move: judged like any other, but implicit ones copy everything
                if f.body is None:
                    continue
            have = set()
            delegated = False
            for q, x in fields.items():
                if x.get("init"):
                    have.add(q)
            inits = f.d.get("inits", ())
            order = []
            for i in inits:
                m = i.get("member")
                if m is None:
                    if i.get("base") and i["base"].split("<")[0] == c["q"].split("<")[0] and not any(
                            b.split("<")[0] == c["q"].split("<")[0] for b in c["bases"]):
                        delegated = True
                    continue
                order.append((m.split("::")[-1], i))
            if delegated:
                continue
            for nm, i in order:
                q = "%s::%s" % (c["q"], nm)
                e = f.nodes.get(i.get("init") or 0)
                if e is not None:
                    for x in e.walk():
                        if x.k == "MemberExpr" and x.q in fields and x.q not in have and x.ch and strip(x.ch[0]) is not None and \
                                strip(x.ch[0]).k == "CXXThisExpr" and is_read(x) is True:
                            reads.append((x.q, x, f))
                have.add(q)
            stats[0] += 1
            stats[1] += len(fields)
            missing = set(fields) - have
            if missing and f.cfg is not None:
                r = CtorRule(model, missing, mention)
                unset = set()
                for res in Engine(r, model).run(f, frozenset()):
                    if res.kind == "return":
                        unset |= missing - set(res.auto)
                reads += r.reads
                missing = unset
            if missing:
                out.setdefault(c["q"], []).append((f, missing, c))
    return out, reads, stats


# ---------------------------------------------------------------------------
# part 2: locals
# ---------------------------------------------------------------------------

class LocalRule(Rule):
    """Automaton: keys of storage that has no value yet."""

    width = 24

    def __init__(self, model, T, unset, members, readers):
        Rule.__init__(self, model)
        self.T = T
        self.unset = unset            # ctor usr -> member names
        self.members = members        # class type -> [(member path)] through members
        self.readers = readers        # field -> usrs that (transitively) read it
        self.bad = {}
        self.seen = {}
        self.find_interesting(lambda f: any(nonconst_ref(p["t"]) and T.scalar(p["t"].rstrip("& ")) for p in f.params))

    def track(self, key):
        return False

    def step(self, n, auto, ctx, st):
        if n.k == "DeclStmt":
            a = auto
            for v in n.d.get("vars", ()):
                if v.get("static"):
                    continue
                key = "%s:%s#%s" % (ctx.fn.tu, v["name"], v["did"])
                a = frozenset(x for x in a if x != key and not x.startswith(key + "."))
                t = v["t"]
                if not v.get("init") and (self.T.scalar(t) or self.T.array(t)):
                    a |= {key}
                    self.seen[key] = (v["name"], n, ctx.fn)
                else:
                    i = strip(ctx.fn.nodes.get(v.get("init") or 0))
                    for m in self.left_by(i):
                        a |= {key + "." + m}
                        self.seen[key + "." + m] = (v["name"] + "." + m, n, ctx.fn)
            return [a] if a != auto else None
        if n.k == "BinaryOperator" and n.op == "=":
            return self.assigned(ctx.key(n.ch[0]), auto)
        if n.k == "CXXOperatorCallExpr" and n.op == "=":
            return self.assigned(ctx.key(n.ch[1]), auto)
        if n.k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") and auto:
            k = ctx.key(n)
            if k is None:
                return None
            if k in auto:
                r = is_read(n)
                if r is True:
                    self.bad.setdefault(k, (n, ctx.fn))
                elif r == "ref":
                    _, p = up(n)
                    if p is not None and (is_call(p) or p.k in CONSTRUCTS) and any(self.may_inline(p, t, ctx) for t in self.model.targets(p)):
                        return None
                    return [auto - {k}]
        if (is_call(n) or n.k in CONSTRUCTS) and auto:
            obj, args = call_args(n)
            ts = self.model.targets(n)
            for a in [obj] + list(args):
                k = ctx.key(a) if a is not None else None
                if k is None:
                    continue
                k = k.lstrip("&*")
                for x in auto:
                    if x.startswith(k + ".") and any(t.usr in self.readers.get(last(x.replace(".", "::")), ()) for t in ts):
                        self.bad.setdefault(x, (n, ctx.fn))
        return None

    def assigned(self, k, auto):
        if k is None:
            return None
        a = frozenset(x for x in auto if x != k and not x.startswith(k + "."))
        if k.endswith("]"):
            base = k[:k.index("[")]
            a = frozenset(x for x in a if x != base)
        return [a] if a != auto else None

    def left_by(self, i):
        """Member paths a construction leaves unset."""
        if i is None or i.k not in CONSTRUCTS:
            return []
        out = []
        for t in self.model.targets(i):
            out += self.members.get(t.usr, ())
        return out

    def opaque(self, n, auto, c, ctx):
        obj, args = call_args(n)
        a = auto
        for p, arg in zip(n.pt or (), args):
            if arg is None:
                continue
            k = ctx.key(arg)
            if k and nonconst_ref(p):
                a = a - {k}
            elif k and k.startswith("&"):
                a = a - {k[1:]}
        return [(a, c)]


# ---------------------------------------------------------------------------
# part 3: members set by a grammar's actions before they are read
# ---------------------------------------------------------------------------

class FieldRule(Rule):
    """Automaton: has the field (any object) been assigned?"""
    width = 8

    def __init__(self, model, q, mention):
        Rule.__init__(self, model)
        self.q = q
        self.mention = mention
        self.reads = []

    def may_inline(self, call, t, ctx):
        return t.usr in self.mention

    def track(self, key):
        return False

    def step(self, n, auto, ctx, st):
        if n.k == "BinaryOperator" and n.op == "=":
            l = strip(n.ch[0], explicit=True)
            if l is not None and l.k == "MemberExpr" and l.q in self.q:
                return [True]
        elif n.k == "CXXOperatorCallExpr" and n.op == "=":
            l = strip(n.ch[1], explicit=True)
            if l is not None and l.k == "MemberExpr" and l.q in self.q:
                return [True]
        elif n.k == "MemberExpr" and n.q in self.q and not auto and is_read(n) is True:
            self.reads.append((n, ctx.fn))
        return None


class GrammarProof:
    """Is the field assigned on every way through the grammar to each read?"""

    def __init__(self, model, gr, q, mention):
        self.model, self.gr, self.q, self.mention = model, gr, q, mention
        self.memo = {}
        self.fn_memo = {}
        self.bad = []
        self.nreads = 0
        self.nwrites = 0
        self.touched = set()
        self.stack = set()

    def applies(self):
        """Do grammar expressions or actions touch the member?"""
        for lst in self.gr.rules.values():
            for g, f, n in lst:
                if f.usr in self.mention and any(x.k == "MemberExpr" and x.q in self.q for x in n.walk()):
                    return True
                for y in g.walk():
                    if y.k == "act":
                        for h in self.gr.action_fns(y.v, f) + self.functors(y.v, f):
                            if h.usr in self.mention:
                                return True
        return False

    def all(self):
        for g, f, n in self.gr.exprs:
            self.walk(g, f, False)

    def fn(self, f, s):
        k = (f.usr, s)
        if k in self.fn_memo:
            return self.fn_memo[k]
        self.fn_memo[k] = s
        if f.usr not in self.mention:
            return s
        r = FieldRule(self.model, self.q, self.mention)
        out = [res.auto for res in Engine(r, self.model).run(f, s) if res.kind == "return"]
        for n, g in r.reads:
            self.bad.append((n, g))
        o = bool(out) and all(out)
        if o and not s:
            self.nwrites += 1
        self.nreads += 1
        self.touched.add(f.usr)
        self.fn_memo[k] = o
        return o

    def expr(self, v, s, seen=None):
        """A phoenix expression or action object."""
        if v is None or not hasattr(v, "walk"):
            return s
        seen = set() if seen is None else seen
        if v.id in seen:
            return s
        seen.add(v.id)
        w = False
        for x in v.walk():
            if x.k == "MemberExpr" and x.q in self.q:
                if self.phoenix_assigned(x):
                    w = True
                    self.nwrites += 1
                elif self.pointer_to(x):
                    pass
                else:
                    self.nreads += 1
                    if not s:
                        self.bad.append((x, x.f if hasattr(x, "f") else None))
        return s or w

    def pointer_to(self, x):
        _, p = up(x)
        return p is not None and p.k == "UnaryOperator" and p.op == "&"

    def phoenix_assigned(self, x):
        c, p = x, x.parent
        hops = 0
        while p is not None and hops < 12:
            hops += 1
            if p.k == "CXXOperatorCallExpr" and p.op == "=" and len(p.ch) > 2:
                return c is p.ch[1]
            if p.k == "CXXMemberCallExpr" and last(p.callee or "") == "operator=":
                o = call_object(p)
                return any(y is x for y in o.walk())
            c, p = p, p.parent
        return False

    def action(self, v, f, s):
        s = self.expr(v, s)
        fns = self.gr.action_fns(v, f) if v is not None and hasattr(v, "walk") else []
        t = (v.type or "") if v is not None and hasattr(v, "type") else ""
        fns += self.functors(v, f)
        for g in fns:
            s = self.fn(g, s) or s
        return s

    def functors(self, v, f):
        out = []
        if v is None or not hasattr(v, "walk"):
            return out
        types = {(x.type or "").replace("const ", "").rstrip("& ") for x in v.walk() if x.type}
        for t in types:
            if t.startswith("quickbook::"):
                out += [g for g in self.model.fns() if g.cls == t and last(g.q) == "operator()"]
        return out

    def walk(self, g, f, s):
        k = g.k
        if k in ("seq",):
            for c in g.ch:
                s = self.walk(c, f, s)
            return s
        if k in ("alt", "xor", "seqor"):
            outs = [self.walk(c, f, s) for c in g.ch]
            return all(outs)
        if k == "act":
            s = self.walk(g.ch[0], f, s)
            return self.action(g.v, f, s)
        if k in ("star", "opt"):
            for c in g.ch:
                self.walk(c, f, s)
            return s
        if k == "repeat":
            o = s
            for c in g.ch:
                o = self.walk(c, f, s)
            return o if g.v and isinstance(g.v[0], int) and g.v[0] > 0 else s
        if k == "rule":
            return self.rule(g.v, s)
        if k in ("cond", "lazy"):
            self.expr(g.v if hasattr(g.v, "walk") else g.n, s)
            return s
        if k in ("not",):
            for c in g.ch:
                self.walk(c, f, s)
            return s
        if k == "confixbody" or k == "diff" or k == "isect":
            o = self.walk(g.ch[0], f, s)
            for c in g.ch[1:]:
                self.walk(c, f, s)
            return o
        if k == "scoped":
            impl = g.v[0] if g.v else None
            if g.v and len(g.v) > 1:
                self.expr(g.v[1], s)
            fns = [x for x in self.model.fns() if x.cls == impl] if impl else []
            for x in fns:
                if last(x.q) == "start":
                    s = self.fn(x, s) or s
            o = s
            for c in g.ch:
                o = self.walk(c, f, o)
            for x in fns:
                if last(x.q) in ("success", "result", "failure", "cleanup"):
                    self.fn(x, o)
            return o
        for c in g.ch:
            s = self.walk(c, f, s)
        return s

    def rule(self, key, s):
        if key and key.startswith("start:"):
            if key == "start:quickbook::grammar":
                r = s
                for k2 in self.gr.rules:
                    if k2.startswith("quickbook::quickbook_grammar::impl::"):
                        self.rule(k2, s)
                return s
            k2 = self.gr.start_rule(key[6:])
            return self.rule(k2, s) if k2 else s
        k = (key, s)
        if k in self.memo:
            return self.memo[k]
        if k in self.stack:
            return s
        self.stack.add(k)
        outs = []
        for g, f, n in self.gr.rules.get(key, ()):
            outs.append(self.walk(g, f, s))
        self.stack.discard(k)
        o = bool(outs) and all(outs) or s
        self.memo[k] = o
        return o


class Proofs:
    def __init__(self, model, T, gr, mention, unset_list):
        self.model, self.T, self.gr, self.mention = model, T, gr, mention
        self.sites = {}
        for f in model.fns():
            for n in f.nodes.values():
                if n.k in CONSTRUCTS:
                    for t in model.targets(n):
                        self.sites.setdefault(t.usr, []).append((f, n))
        self.init_sites = {}
        for f in model.fns():
            for i in f.d.get("inits", ()):
                e = strip(f.nodes.get(i.get("init") or 0))
                if e is not None and e.k in CONSTRUCTS and i.get("member"):
                    for t in model.targets(e):
                        self.init_sites.setdefault(t.usr, []).append((f, i["member"].split("::")[-1], e))
        # ctor usr -> member paths left unset, through members
        self.members = {}
        work = []
        for q, f, c in unset_list:
            self.members.setdefault(f.usr, set()).add(last(q))
            work.append(f.usr)
        while work:
            u = work.pop()
            for g, m, e in self.init_sites.get(u, ()):
                new = {m + "." + x for x in self.members[u]} - self.members.get(g.usr, set())
                if new and len(next(iter(new)).split(".")) < 6:
                    self.members.setdefault(g.usr, set()).update(new)
                    work.append(g.usr)
        # field name -> functions that read it, directly or in what they call
        self.readers = {}
        rev = {}
        for a, bs in flow.callgraph(model).items():
            for b in bs:
                rev.setdefault(b, set()).add(a)
        for q, f, c in unset_list:
            direct = {g.usr for u in mention.get(q, ()) for g in (model.functions[u],)
                      for n in g.nodes.values() if n.k == "MemberExpr" and n.q == q and is_read(n) is True}
            st = list(direct)
            while st:
                for p in rev.get(st.pop(), ()):
                    if p not in direct:
                        direct.add(p)
                        st.append(p)
            self.readers.setdefault(last(q), set()).update(direct)

    def prove(self, q, f, c):
        self.problems = []
        readers = [g for u in self.mention.get(q, ()) for g in (self.model.functions[u],)
                   if any(n.k == "MemberExpr" and n.q == q and is_read(n) is not False for n in g.nodes.values())]
        if not readers:
            return "never read", []
        if self.scoped(q, c):
            return "set by start() of the scoped action", []
        if self.created(q, f, strong=True):
            return "set by the code that creates the object", []
        p = GrammarProof(self.model, self.gr, self.whole(q, c), self.mention_of(q, c))
        if p.applies():
            p.all()
            if p.nreads and p.nwrites and not p.bad:
                return "set by an earlier action of the grammar (%d reads)" % p.nreads, []
            if p.bad:
                return None, p.bad
        if self.mapped(q, c):
            return "set wherever the container creates the element", []
        if self.created(q, f):
            return "set by the code that creates the object", []
        return None, []

    def whole(self, q, c):
        """The member itself and members whose assignment assigns it."""
        s = {q}
        for k in self.model.classes.values():
            for x in k["fields"]:
                if x["t"] == c["ts"]:
                    s.add("%s::%s" % (k["q"], x["name"]))
        return s

    def mention_of(self, q, c):
        m = set()
        for x in self.whole(q, c):
            m |= self.mention.get(x, set())
        return flow.reverse_reach(self.model, m)

    def scoped(self, q, c):
        def bases(k, seen):
            for b in k["bases"]:
                b0 = b.split("<")[0]
                yield b0
                for k2 in self.model.classes.values():
                    if k2["q"] == b0 and k2["usr"] not in seen:
                        for y in bases(k2, seen | {k2["usr"]}):
                            yield y
        if not any(last(b) == "scoped_action_base" for b in bases(c, {c["usr"]})):
            return False
        starts = [g for g in self.model.fns() if g.cls == c["q"] and g.name == "start"]
        if not starts:
            return False
        for g in starts:
            r = FieldRule(self.model, {q}, self.mention.get(q, set()))
            for res in Engine(r, self.model).run(g, False):
                if res.kind == "return" and not res.auto:
                    return False
            if r.reads:
                return False
        return True

    def mapped(self, q, c):
        """Objects only ever created by operator[] of a container, each time as
        part of an assignment to the member."""
        for u, l in self.sites.items():
            g = self.model.functions.get(u)
            if g is not None and g.d.get("ctor") and g.d["clsusr"] == c["usr"] and not (
                    len(g.params) == 1 and c["name"] in g.params[0]["t"]):
                if l:
                    return False
        if not c.get("userctor"):
            return True         # a container value-initialises it to zero
        n = 0
        for g in self.model.fns():
            for x in g.nodes.values():
                if x.k == "CXXOperatorCallExpr" and x.op == "[]" and (x.rt or x.type or "").replace("const ", "").rstrip("& ") == c["ts"]:
                    n += 1
                    _, p = up(x)
                    if p is None or p.k != "MemberExpr" or p.q != q or is_read(p) is not False:
                        return False
        return n > 0

    def created(self, q, f, depth=0, strong=False):
        """Every place that creates the object sets the member before the end of
        the creating function, or creates a local that LocalRule judges."""
        if depth > 4:
            return False
        sites = self.sites.get(f.usr, ())
        if not sites:
            return False
        for g, n in sites:
            _, p = up(n)
            if g.d.get("ctor") and any(strip(g.nodes.get(i.get("init") or 0)) is n for i in g.d.get("inits", ())):
                if not self.created(q, g, depth + 1, strong):
                    return False
                continue
            if p is not None and p.k == "CXXBindTemporaryExpr":
                _, p = up(p)
            if p is not None and p.k == "DeclStmt":
                if strong:
                    return False
                continue
            r = CreateRule(self.model, q, n, self.mention.get(q, set()))
            for res in Engine(r, self.model).run(g, "none"):
                if res.kind == "return" and res.auto == "pending":
                    return False
            if r.reads:
                return False
        return True


class CreateRule(Rule):
    width = 8

    def __init__(self, model, q, site, mention):
        Rule.__init__(self, model)
        self.q, self.site, self.mention = q, site, mention
        self.reads = []

    def may_inline(self, call, t, ctx):
        return t.usr in self.mention

    def track(self, key):
        return False

    def step(self, n, auto, ctx, st):
        if n is self.site:
            return ["pending"]
        if auto == "pending":
            if n.k == "BinaryOperator" and n.op == "=":
                l = strip(n.ch[0], explicit=True)
                if l is not None and l.k == "MemberExpr" and l.q == self.q:
                    return ["set"]
            elif n.k == "MemberExpr" and n.q == self.q and is_read(n) is True:
                self.reads.append(n)
        return None


def run(model, rep):
    rep.rule("every scalar local is assigned on every path before it is read")
    rep.rule("every constructor gives each scalar member a value, or the member is assigned before anything reads it "
             "(by the code that creates the object, by start() of a scoped action, or by an earlier action of the same grammar)")
    T = Types(model)
    mention = {}
    for f in model.fns():
        for n in f.nodes.values():
            if n.k == "MemberExpr" and n.q:
                mention.setdefault(n.q, set()).add(f.usr)
    allm = {}
    for c in model.classes.values():
        for x in c["fields"]:
            if T.scalar(x["t"]) or T.array(x["t"]):
                q = "%s::%s" % (c["q"], x["name"])
                allm[q] = mention.get(q, set())
    reachm = set()
    for q in allm:
        reachm |= allm[q]
    unset, reads, stats = ctor_unset(model, T, reachm)
    rep.expect(stats[0] >= 60, "only %d constructors with scalar members found" % stats[0])
    for q, n, f in {(q, n.where(), f.usr): (q, n, f) for q, n, f in reads}.values():
        rep.bad("constructors", "%s/reads %s" % (f.short(), q), n.where(), "%s reads %s before giving it a value" % (f.short(), q))
    unset_list = sorted(((q, f, c) for lst in unset.values() for f, ms, c in lst for q in ms), key=lambda x: (x[0], x[1].line))
    for f, n in ((f, n) for f in model.fns() if f.d.get("ctor") and f.d["clsusr"] in model.classes for n in (0,)):
        rep.ok("constructors", f.short())
    gr = grammar.load(model)
    ctx = Proofs(model, T, gr, mention, unset_list)
    for q, f, c in unset_list:
        how, problems = ctx.prove(q, f, c)
        if how:
            rep.ok("members set later", "%s: %s" % (q, how))
        else:
            w = problems[0] if problems else (None, None)
            rep.bad("members set later", "%s" % q, "%s:%d" % (f.file, f.line) if w[0] is None else w[0].where(),
                    "%s is given no value by the constructor at %s:%d and %s" % (
                        q, f.file, f.line, "is read here before it is set" if w[0] is not None else "is not always set before it is read"))
    # locals
    rule = LocalRule(model, T, None, ctx.members, ctx.readers)
    nloc = 0
    for f in model.fns():
        if f.cfg is None:
            continue
        want = False
        for n in f.nodes.values():
            if n.k == "DeclStmt":
                for v in n.d.get("vars", ()):
                    if v.get("static"):
                        continue
                    if not v.get("init") and (T.scalar(v["t"]) or T.array(v["t"])):
                        want = True
                    elif v.get("init") and rule.left_by(strip(f.nodes.get(v["init"]))):
                        want = True
        if want:
            Engine(rule, model).run(f, frozenset())
    for k, (nm, n, f) in sorted(rule.seen.items()):
        if k in rule.bad:
            x, g = rule.bad[k]
            rep.bad("locals", "%s/%s" % (f.short(), nm), x.where(),
                    "%s (declared in %s) can be used before it is given a value" % (nm, f.short()))
        else:
            rep.ok("locals", "%s in %s" % (nm, f.short()))
    rep.at_least("locals", 8)
    rep.at_least("members set later", 8)
