"""P05: parsing always makes progress.

Grammar part: no repetition has a body that can match the empty string, no rule
can reach itself without consuming a character, symbol tables hold no empty name.
Code part: on every path around every loop, something that decides when the loop
ends is advanced."""
import ast

from . import flow, grammar, loops
from .facts import strip, is_call, CONSTRUCTS, Broken, nonconst_ref
from .flow import Rule, Engine, last, call_args, call_object, ASSIGN_OPS, NON_MUTATING


# -- grammar -----------------------------------------------------------------
class Null:
    def __init__(self, gr, model):
        self.gr = gr
        self.model = model
        self.lazy_rules = set()
        for f in model.fns():
            for n in f.nodes.values():
                if n.k == "UnaryOperator" and n.op == "&" and grammar.tbase(n.type.rstrip("*")).endswith("classic::rule"):
                    k = gr.key(n.ch[0])
                    if k is not None:
                        self.lazy_rules.add(k)
        self.gstart = set()
        for f in model.fns():
            for n in f.nodes.values():
                if n.k in CONSTRUCTS and n.callee == "quickbook::grammar::grammar" and n.ch:
                    k = gr.key(n.ch[0])
                    if k is not None and k in gr.rules:
                        self.gstart.add(k)
        self.nullable = {k: False for k in gr.rules}
        ch = True
        while ch:
            ch = False
            for k, ds in gr.rules.items():
                if not self.nullable[k] and any(self.null(g) for g, _, _ in ds):
                    self.nullable[k] = True
                    ch = True

    def defs(self, key):
        if key in self.gr.rules:
            return {key}
        if key.startswith("start:"):
            r = self.gr.start_rule(key[6:])
            if r in self.gr.rules:
                return {r}
            return self.gstart
        return None

    def rule_null(self, key):
        d = self.defs(key)
        if d is None:
            return True
        return any(self.nullable.get(x, True) for x in d)

    def lazy(self):
        return {k for k in self.lazy_rules if k in self.gr.rules}

    def own_result(self, impl):
        """Does a scoped action decide success itself?"""
        return any(f.name == "result" and f.cls and f.cls.split("<")[0] == impl.split("<")[0] for f in self.model.fns()) 

    def null(self, g):
        k = g.k
        if k == "seq" and any(c.k == "cond" and c.v is not None for c in self.flat(g)) and self.guarded(g):
            return False
        if k in ("str",):
            return g.v == ""
        if k in ("class", "eol", "num", "sym", "consume", "dynch", "dynstr", "set", "negch", "fail"):
            return False
        if k in ("eps", "end", "and", "not", "cond", "ver", "look", "guard", "star", "opt", "confixbody"):
            return True
        if k in ("seq",):
            return all(self.null(c) for c in g.ch)
        if k in ("alt", "seqor"):
            return any(self.null(c) for c in g.ch)
        if k == "xor":
            return any(self.null(c) for c in g.ch)
        if k in ("plus", "act", "nocase", "lexeme", "diff", "listp"):
            return self.null(g.ch[0])
        if k == "isect":
            return all(self.null(c) for c in g.ch)
        if k == "repeat":
            return g.v[0] == 0 or self.null(g.ch[0])
        if k == "scoped":
            return self.own_result(g.v[0]) or self.null(g.ch[0])
        if k == "rule":
            return self.rule_null(g.v)
        if k == "lazy":
            return any(self.nullable.get(x, True) for x in self.lazy())
        return True

    # `X [action] >> eps_p(member == value)`: the guard may say that X matched
    # something, if the action only stores that value for a non-empty match
    def flat(self, g, depth=0):
        if g.k == "seq":
            return [y for c in g.ch for y in self.flat(c, depth)]
        if g.k == "rule" and depth < 3:
            ds = self.defs(g.v) or ()
            if len(ds) == 1 and len(self.gr.rules[list(ds)[0]]) == 1:
                inner = self.gr.rules[list(ds)[0]][0][0]
                if inner.k in ("seq", "act", "cond"):
                    return self.flat(inner, depth + 1) if inner.k == "seq" else [inner]
        return [g]

    def guarded(self, g):
        have = set()
        for c in self.flat(g):
            if c.k == "act":
                have = self.action_facts(c)
            elif c.k == "cond" and c.v is not None:
                ms = [x.q for x in c.v.walk() if x.k == "MemberExpr" and x.dk == "field"]
                vs = [x.val for x in c.v.walk() if x.k == "DeclRefExpr" and x.dk == "enum"]
                eq = any(x.k == "CXXOperatorCallExpr" and x.op == "==" for x in c.v.walk())
                if eq and len(vs) == 1 and any((m, vs[0]) in have for m in ms):
                    return True
        return False

    def action_facts(self, act):
        f = self.fn_of(act)
        out = None
        for t in self.gr.action_fns(act.v, f) if f is not None else ():
            if t.cfg is None:
                continue
            s = nonempty_values(self.model, t)
            out = s if out is None else out & s
        return out or set()

    def fn_of(self, g):
        return g.n.f if hasattr(g.n, "f") else None

    def left(self, g):
        """Rules that may be entered before g consumed anything."""
        k = g.k
        if k == "rule":
            return set(self.defs(g.v) or ())
        if k == "lazy":
            return set(self.lazy())
        if k == "seq":
            out = set()
            for c in g.ch:
                out |= self.left(c)
                if not self.null(c):
                    break
            return out
        out = set()
        for c in g.ch:
            out |= self.left(c)
        return out


class Stores(Rule):
    """Which (member, value) stores can happen although the matched range was
    empty: paths on which the action's own range parameters are equal, or a
    length computed from them compared as greater than something unsigned."""
    copies = True
    width = 30

    def __init__(self, model):
        Rule.__init__(self, model)
        self.stores = {}

    def may_inline(self, call, t, ctx):
        return False

    def remember(self, key):
        return True

    def edge(self, cond, truth, auto, ctx, st):
        n = strip(cond, explicit=True)
        if n is not None and n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">="):
            lo, hi = (n.ch[0], n.ch[1]) if n.op in ("<", "<=") else (n.ch[1], n.ch[0])
            strict = n.op in ("<", ">")
            if not truth:
                lo, hi, strict = hi, lo, not strict
            s = strip(lo)
            if strict and s is not None and (n.ch[0].type.startswith("unsigned") or s.val == 0 or s.cv == 0):
                k = ctx.key(hi)
                if k is not None:
                    return [auto | {k}]
        return None

    def step(self, n, auto, ctx, st):
        if n.k == "BinaryOperator" and n.op == "=":
            l = strip(n.ch[0], explicit=True)
            if l is not None and l.k == "MemberExpr" and l.dk == "field":
                for v, extra in self.values(n.ch[1], ctx, st):
                    pos = auto | extra
                    ok = any(self.length(k, ctx) for k in pos)
                    self.stores.setdefault((l.q, v), []).append(ok)
        return None

    def values(self, n, ctx, st):
        s = strip(n, explicit=True)
        if s is not None and s.k == "ConditionalOperator":
            v = st.value(s.ch[0])
            out = []
            for truth, c in ((True, s.ch[1]), (False, s.ch[2])):
                if v is None or v == truth:
                    r = self.edge(s.ch[0], truth, frozenset(), ctx, st)
                    e = r[0] if r else frozenset()
                    out += [(x, y | e) for x, y in self.values(c, ctx, st)]
            return out
        k = ctx.key(n)
        if k is not None and k[0] == "k" and k[1:].lstrip("-").isdigit():
            return [(int(k[1:]), frozenset())]
        return [(None, frozenset())]

    def length(self, key, ctx):
        """Is key the length of the whole matched range?"""
        f = ctx.fn
        for did, v in f.vars().items():
            if v.get("init") and key == ctx.var_key(did):
                i = f.nodes.get(v["init"])
                if i is None or did in flow.mutated(f):
                    continue
                if self.measures(i, f):
                    return True
        for n in f.nodes.values():
            if is_call(n) and ctx.key(n) == key and self.measures(n, f):
                return True
        return False

    def measures(self, n, f):
        c = strip(n, explicit=True)
        if c is None:
            return False
        ps = [p["did"] for p in f.params]
        if c.k == "BinaryOperator" and c.op == "-":
            args = [c.ch[1], c.ch[0]]
        elif is_call(c):
            _, args = call_args(c)
            t = self.model.targets(c)
            if not (t and all(zero_on_empty(self.model, x) for x in t)) and last(c.callee or "") != "distance":
                return False
        else:
            return False
        if len(args) != 2 or len(ps) < 2:
            return False
        for a, want in zip(args, ps[:2]):
            ids = {x.did for x in a.walk() if x.k == "DeclRefExpr" and x.dk in ("parm", "local")}
            if ids != {want}:
                return False
        return True


class EmptyRange(Rule):
    copies = True

    def remember(self, key):
        return True

    def may_inline(self, call, t, ctx):
        return False


def zero_on_empty(model, t):
    """t(first, first) == 0"""
    if t.cfg is None or len(t.params) != 2:
        return False
    r = EmptyRange(model)
    c = flow.Ctx(t)
    a, b = sorted(c.var_key(p["did"]) for p in t.params)
    res = Engine(r, model).run(t, frozenset(), {"(%s == %s)" % (a, b): True})
    return bool(res) and all(x.kind == "return" and x.ret is False for x in res)


def nonempty_values(model, f):
    r = Stores(model)
    Engine(r, model).run(f, frozenset())
    return {k for k, oks in r.stores.items() if k[1] is not None and all(oks)
            and not any(k2[0] == k[0] and k2[1] is None for k2 in r.stores)}


def grammar_part(model, rep):
    gr = grammar.load(model)
    nl = Null(gr, model)
    nrep = 0
    exprs = [(k, g, f, n) for k, ds in gr.rules.items() for g, f, n in ds]
    exprs += [("parse call in " + f.short(), g, f, n) for g, f, n in gr.exprs]
    for k, g, f, n in exprs:
        for x in g.walk():
            if x.k in ("star", "plus", "listp") or (x.k == "repeat" and x.v[1] is None):
                nrep += 1
                name = k.replace("quickbook::", "").split(":")[-1] if "definition" not in k else k.split("<")[0].replace("quickbook::", "") + "::" + k.rsplit("::", 1)[-1]
                if nl.null(x.ch[0]):
                    rep.bad("repetition consumes", "%s/%s" % (name, "empty repetition"), x.where(),
                            "the body of a repetition in rule '%s' can match without consuming input, so the parser stays at one position forever" % name)
                else:
                    rep.ok("repetition consumes", "%s in %s" % (x.where(), name))
            if x.k in ("unknown", "maybe", "directive"):
                if g.k == "unknown" or k.startswith("parse call"):
                    continue
                raise Broken("parser of unknown kind %s at %s" % (x.v, x.where()))
    # left recursion
    edges = {k: set() for k in gr.rules}
    for k, ds in gr.rules.items():
        for g, _, _ in ds:
            edges[k] |= {e for e in nl.left(g) if e in edges}
    for k in sorted(edges):
        seen = set()
        st = list(edges[k])
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += edges[x]
        if k in seen:
            g, f, n = gr.rules[k][0]
            rep.bad("no left recursion", k.rsplit("::", 1)[-1] + "/left recursion", n.where(),
                    "rule '%s' can invoke itself without consuming input first" % k)
        else:
            rep.ok("no left recursion", k)
    # symbol tables
    for k, es in gr.symbols.items():
        for name, val, n, f, a in es:
            if name == "":
                rep.bad("symbol names", k + "/empty name", n.where(), "an empty name is added to symbol table %s" % k)
            else:
                rep.ok("symbol names", "%s: %s" % (k.rsplit("::", 1)[-1], name or "computed"))
    # the custom parsers written here
    for cls, kind in gr.custom.items():
        if kind == "consume":
            rep.ok("parser classes consume", cls)
        elif kind == "maybe":
            rep.bad("parser classes consume", cls, cls, "parser %s can report a match without having advanced" % cls)
    rep.expect(nrep >= 100, "only %d grammar repetitions" % nrep)
    rep.expect(len(gr.rules) >= 150, "only %d rules" % len(gr.rules))
    rep.extra["rules"] = len(gr.rules)
    rep.extra["repetitions"] = nrep


# -- loops ---------------------------------------------------------------------
def root_of(key):
    return key.lstrip("*&")


def lvalues(n):
    """Variables and member chains read in an expression."""
    for x in n.walk():
        if x.k == "DeclRefExpr" and x.dk in ("local", "parm", "global"):
            yield x
        elif x.k == "MemberExpr" and x.dk == "field":
            yield x
        elif x.k == "CXXThisExpr":
            continue


class Progress(Rule):
    max_depth = 5
    width = 4
    copies = True

    def __init__(self, model, f):
        Rule.__init__(self, model)
        self.f = f
        self.loops = {}
        self.vars = {}
        self.all = set()
        self.bad = {}
        self.checked = set()

    def setup(self, ctx):
        f = self.f
        for l in loops.loops(f):
            if l.stmt is not None and l.stmt.k == "CXXForRangeStmt":
                t = f.cfg.blocks[l.head].term
                if t is not None and t.k == "CXXForRangeStmt":
                    continue
            vs = {}
            nodes = []
            for (b, s, i) in l.exits:
                x = f.cfg.blocks[b]
                seen = set()
                st = [b]
                while st:
                    y = st.pop()
                    if y in seen or y not in l.body:
                        continue
                    seen.add(y)
                    blk = f.cfg.blocks[y]
                    if blk.cond is not None and len([q for q in blk.succs if q is not None]) > 1:
                        nodes.append(blk.cond)
                    else:
                        st += [p for p, _ in blk.preds]
            flags = set()
            for c in nodes:
                self._collect(c, ctx, vs, flags)
            # a flag decides: what is tested in the loop decides about the flag
            if flags:
                for b in l.body:
                    c = f.cfg.blocks[b].cond
                    if c is not None and len(f.cfg.blocks[b].succs) > 1:
                        self._collect(c, ctx, vs, set())
            self._closure(l, ctx, vs, flags)
            self.vars[l.head] = frozenset(vs)
            self.loops[l.head] = l
            self.all |= set(vs)

    def _closure(self, l, ctx, vs, flags):
        """A branch inside the loop that decides whether one of the deciding
        variables is advanced decides as well."""
        cfg = self.f.cfg

        def reach(s):
            seen = set()
            st = [s]
            while st:
                x = st.pop()
                if x is None or x in seen or x not in l.body or x == l.head:
                    continue
                seen.add(x)
                st += cfg.blocks[x].succs
            return seen
        ch = True
        while ch:
            ch = False
            adv = {b for b in l.body if any(not isinstance(e, dict) and self.writes(e, ctx, vs) for e in cfg.blocks[b].elems)}
            for b in l.body:
                blk = cfg.blocks[b]
                ss = [s for s in blk.succs if s is not None]
                if blk.cond is None or len(ss) < 2 or any(s not in l.body for s in ss):
                    continue
                rs = [reach(s) & adv for s in ss]
                if any(r != rs[0] for r in rs):
                    n0 = len(vs)
                    self._collect(blk.cond, ctx, vs, flags)
                    ch = ch or len(vs) != n0

    def writes(self, n, ctx, vs):
        if n.k == "UnaryOperator" and n.op in ("++", "--", "p++", "p--") or \
                n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ASSIGN_OPS:
            return self.hits(ctx.key(n.ch[0]), vs)
        if n.k == "CXXOperatorCallExpr" and n.op in ("++", "--", "p++", "p--", "=", "+=", "-=", ">>"):
            return any(self.hits(ctx.key(x), vs) for x in (n.ch[1:] if n.op == ">>" else n.ch[1:2]))
        return False

    def _collect(self, c, ctx, vs, flags):
        for x in lvalues(c):
            k = ctx.key(x)
            if k is not None and not (k[0] == "k" and k[1:].lstrip("-").isdigit()):
                vs[root_of(k)] = 1
                if x.type == "bool" and x.k == "DeclRefExpr":
                    flags.add(k)
                # iterator computed from another variable
                if x.k == "DeclRefExpr" and x.dk == "local":
                    i = flow.stable_init(self.f, x.did)
                    if i is not None:
                        self._collect(i, ctx, vs, flags)

    def hits(self, key, vs):
        if key is None:
            return False
        k = root_of(key)
        for v in vs:
            if v == k or v.startswith(k + ".") or k.startswith(v + ".") or v.startswith(k + "[") or k.startswith(v + "["):
                return True
        return False

    def relevant(self, key):
        return self.hits(key, self.all)

    def may_inline(self, call, t, ctx):
        if t.cfg is None:
            return False
        obj, args = call_args(call)
        if obj is not None and not call.cm and not call.sm and self.relevant(ctx.key(obj)):
            return True
        if obj is None and t.d.get("cls") and not t.d.get("smethod") and not t.d.get("const") and "this" in "".join(self.all):
            return False
        for p, a in zip(call.pt or (), args):
            if a is not None and nonconst_ref(p) and self.relevant(ctx.key(a)):
                return True
        return False

    def advance(self, auto, key):
        out = frozenset(h for h in auto if not self.hits(key, self.vars[h[0]]))
        return None if out == auto else [out]

    def half(self, auto, key, what):
        if not what:
            return None
        out = set()
        for h in auto:
            if not self.hits(key, self.vars[h[0]]):
                out.add(h)
            elif h[1] is None:
                out.add((h[0], (key,) + what))
            elif h[1][0] == key and h[1][2] == what[1] and h[1][1] != what[0]:
                continue
            else:
                out.add(h)
        return [frozenset(out)]

    def step(self, n, auto, ctx, st):
        if not auto:
            return None
        if n.k == "UnaryOperator" and n.op in ("++", "--", "p++", "p--"):
            return self.advance(auto, ctx.key(n.ch[0]))
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ASSIGN_OPS:
            if n.op == "=":
                r = self.moves(n.ch[0], n.ch[1], ctx)
                if r is not True:
                    return self.half(auto, ctx.key(n.ch[0]), r)
            return self.advance(auto, ctx.key(n.ch[0]))
        if n.k == "CXXOperatorCallExpr" and n.op in ("++", "--", "p++", "p--", "=", "+=", "-=", "<<", ">>"):
            if self.model.targets(n) and any(self.may_inline(n, t, ctx) for t in self.model.targets(n)):
                return None
            if n.op == "=" and len(n.ch) > 2:
                r = self.moves(n.ch[1], n.ch[2], ctx)
                if r is not True:
                    return self.half(auto, ctx.key(n.ch[1]), r)
            a = None
            for x in (n.ch[1:] if n.op == ">>" else n.ch[1:2]):
                r = self.advance(auto if a is None else a[0], ctx.key(x))
                a = r or a
            return a
        if n.k == "DeclStmt":
            # a fresh value for a variable the loop tests
            for v in n.d.get("vars", ()):
                pass
            return None
        if is_call(n) or n.k in CONSTRUCTS:
            ts = [t for t in self.model.targets(n) if t.cfg is not None and self.may_inline(n, t, ctx)
                  and t.usr not in [g.usr for g in ctx.stack()] and ctx.depth < self.max_depth]
            if ts:
                return None
            obj, args = call_args(n)
            a = auto
            if obj is not None and not n.cm and not n.sm and last(n.callee) not in NON_MUTATING:
                r = self.advance(a, ctx.key(obj))
                a = r[0] if r else a
            for p, x in zip(n.pt or (), args):
                if x is None:
                    continue
                if nonconst_ref(p) or (p.endswith("*") and strip(x) is not None and strip(x).k == "UnaryOperator" and strip(x).op == "&"):
                    k = ctx.key(x)
                    r = self.advance(a, k)
                    a = r[0] if r else a
            if obj is None or (obj is not None and strip(obj) is not None and strip(obj).k == "CXXThisExpr"):
                # a member function of the same object may change any member
                for t in self.model.targets(n):
                    if t.d.get("cls") and not t.d.get("smethod") and not t.d.get("const"):
                        r = self.advance(a, ctx.this or "this")
                        a = r[0] if r else a
            return None if a is auto else [a]
        return None

    # membership tests: after `scan until one of "ab"` the character is 'a' or 'b'
    def remember(self, key):
        return self.member_key(key) is not None or (key.startswith("(k") and " == *" in key)

    def member_key(self, key):
        """(characters, tested expression) of a membership test."""
        i = key.find("(s")
        if i <= 0 or not key.endswith(")") or key[:i] not in member_tests(self.model):
            return None
        body = key[i + 1:-1]
        q = body[1]
        j = 2
        while j < len(body) and body[j] != q:
            j += 2 if body[j] == "\\" else 1
        if body[j + 1:j + 2] != ",":
            return None
        return ast.literal_eval(body[1:j + 1]), body[j + 2:]

    def edge(self, cond, truth, auto, ctx, st):
        for k, v in st.conds.items():
            if v is True and isinstance(k, str) and "(s" in k:
                m = self.member_key(k)
                if m and all(st.conds.get("(k%d == %s)" % (ord(c), m[1])) is False for c in m[0]):
                    return []
        return None

    def moves(self, lhs, rhs, ctx):
        """True, or not if lhs = rhs can leave a position where it is (x = x,
        x = s.find(c, x)). Looking for a character of a set and then for one
        outside it moves, so those searches are returned as such."""
        kl, kr = ctx.key(lhs), ctx.key(rhs)
        if kl is not None and kl == kr:
            return False
        r = strip(rhs, explicit=True)
        if r is not None and is_call(r) and "find" in last(r.callee):
            _, args = call_args(r)
            for a in args[1:] if len(args) > 1 else ():
                if a is not None and ctx.key(a) == kl:
                    nm = last(r.callee)
                    if nm in ("find_first_of", "find_first_not_of") and ctx.key(args[0]) is not None:
                        return (nm, ctx.key(args[0]))
                    return False
            # std::find(it, end, c) starting at the variable itself
            if r.k == "CallExpr" and args and args[0] is not None and ctx.key(args[0]) == kl:
                return False
        return True

    def flow_edge(self, b, s, auto, ctx):
        if ctx.up is not None:
            return None
        out = auto
        for h in list(out):
            if s not in self.loops[h[0]].body:
                out = out - {h}
        if s in self.loops:
            self.checked.add(s)
            l = self.loops[s]
            if b in l.body and b in l.backs:
                if any(h[0] == s for h in out):
                    self.bad.setdefault(s, b)
            # what inner loops still owe stays theirs; arm this one
            out = frozenset(h for h in out if h[0] != s) | {(s, None)}
        return None if out is auto else [out]


Progress.live_all = True


class Member(Rule):
    def __init__(self, model):
        Rule.__init__(self, model)
        self.ok = True
        self.n = 0

    def remember(self, key):
        return True

    def step(self, n, auto, ctx, st):
        if n.k == "ReturnStmt":
            v = st.value(n.ch[0])
            if v is not False:
                p, c = [ctx.var_key(q["did"]) for q in ctx.fn.params]
                a, b = sorted(["*" + p, c])
                self.n += 1
                if v is None or st.get("(%s == %s)" % (a, b)) is not True:
                    self.ok = False
        return None


def member_tests(model):
    """Functions f(set, c) that are only true if c equals a character of set."""
    r = getattr(model, "_member_tests", None)
    if r is None:
        r = set()
        for f in model.fns():
            if f.cfg is not None and [p["t"].replace(" ", "") for p in f.params] == ["constchar*", "char"]:
                m = Member(model)
                Engine(m, model).run(f, frozenset())
                if m.ok and m.n:
                    r.add(f.q)
        model._member_tests = r
    return r


def key_of_loop(f, l):
    same = sorted(x.head for x in loops.loops(f))
    return "%s/loop" % f.short()


def run(model, rep):
    rep.rule("every grammar repetition has a body that consumes; no rule reaches itself before consuming; no empty symbol; "
             "on every path around every loop a variable that decides its end is advanced (calls inlined)")
    grammar_part(model, rep)
    nl = 0
    for f in model.fns():
        ls = loops.loops(f)
        if not ls:
            continue
        if f.d.get("inst") and f.name == "definition":
            continue
        rule = Progress(model, f)
        eng = Engine(rule, model)
        ctx = flow.Ctx(f)
        rule.setup(ctx)
        if not rule.loops:
            nl += len(ls)
            rep.ok("loops advance", "%s (range loop)" % f.short(), n=len(ls))
            continue
        eng.run(f, frozenset())
        for l in ls:
            nl += 1
            h = l.head
            at = f.cfg.blocks[h]
            line = l.stmt.line if l.stmt is not None else f.line
            if h in rule.bad:
                bb = f.cfg.blocks[rule.bad[h]]
                vs = ", ".join(sorted(v.split(":")[-1].split("#")[0] for v in rule.vars[h])) or "nothing"
                rep.bad("loops advance", key_of_loop(f, l), "%s:%d" % (f.file, line),
                        "a path around a loop in %s changes none of what decides its end (%s)" % (f.short(), vs))
            else:
                rep.ok("loops advance", "%s line %d" % (f.short(), line))
    rep.expect(nl >= 120, "only %d loops" % nl)
    rep.extra["loops"] = nl
