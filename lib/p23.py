"""P23: what the grammar stores is what the handlers take.

Grammar part: for every language version, the sequences of values that the
parse actions can have stored when a handler is called, including what failed
alternatives leave behind, as an automaton over value kinds and tags.
Code part: the handlers are run over those automata; every consume must have a
value (of the tag it asks for) to take, every finish must find none left, and
every accessor must be applied to a kind of value that supports it."""
from . import flow, grammar, p05, p11, p14
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args

END = "end"
STALE = "stale"
VERSIONS = (100, 101, 102, 103, 104, 105, 106, 107)


class Tok(tuple):
    """(kind, tag, language, safe[, stale]): kind q source text, m converted
    markup, p converted plain text, i number, L list, n nothing; stale when an
    alternative that failed stored it."""
    __slots__ = ()

    @property
    def stale(self):
        return len(self) > 4

    @property
    def kind(self):
        return self[0]

    @property
    def tag(self):
        return self[1]

    @property
    def lang(self):
        return self[2]

    @property
    def safe(self):
        return self[3]


NIL = Tok(("n", 0, None, True))
TOP = Tok(("?", None, None, False))


class Net:
    """One automaton for all languages of one version."""

    def __init__(self):
        self.out = []                # node -> [(token or None, node)]
        self.info = {}

    def node(self):
        self.out.append([])
        return len(self.out) - 1

    def edge(self, a, b, tok=None):
        if (tok, b) not in self.out[a]:
            self.out[a].append((tok, b))

    def closure(self, ns):
        seen = set(ns)
        st = list(ns)
        while st:
            for t, b in self.out[st.pop()]:
                if t is None and b not in seen:
                    seen.add(b)
                    st.append(b)
        return seen

    def next(self, nodes, ends):
        """What may come next: {(token, node after)} and END."""
        r = set()
        c = self.closure(nodes)
        for a in c:
            for t, b in self.out[a]:
                if t is not None:
                    r.add((t, b))
        live = self.live(ends)
        r = {(t, b) for t, b in r if b in live}
        if c & ends:
            r.add(END)
        return frozenset(r)

    def live(self, ends):
        k = ("live", ends)
        if k not in self.info:
            rev = {}
            for a, es in enumerate(self.out):
                for _, b in es:
                    rev.setdefault(b, []).append(a)
            seen = set(ends)
            st = list(ends)
            while st:
                for a in rev.get(st.pop(), ()):
                    if a not in seen:
                        seen.add(a)
                        st.append(a)
            self.info[k] = frozenset(seen)
        return self.info[k]

    def tokens(self, start, ends):
        seen = set()
        st = [start]
        out = set()
        live = self.live(frozenset(ends))
        while st:
            a = st.pop()
            if a in seen or a not in live:
                continue
            seen.add(a)
            for t, b in self.out[a]:
                if b in live:
                    if t is not None:
                        out.add(t)
                    st.append(b)
        return out, seen

    def many(self, start, ends, tag):
        """Can more than one value with this tag be stored on one way?  Must at least one be?"""
        live = self.live(frozenset(ends))
        best = {start: 0}
        st = [(start, 0)]
        seen = {(start, 0)}
        counts = set()
        while st:
            a, c = st.pop()
            if a in ends:
                counts.add(c)
            for t, b in self.out[a]:
                if b not in live:
                    continue
                c2 = min(2, c + (1 if t is not None and t.tag == tag else 0))
                if (b, c2) not in seen:
                    seen.add((b, c2))
                    st.append((b, c2))
        return counts

    def canonical(self, start, ends):
        """Equal for starts with the same language (deterministic automaton,
        states numbered breadth first)."""
        ends = frozenset(ends)
        live = self.live(ends)
        num = {}
        order = []

        def name(ns):
            ns = frozenset(x for x in self.closure(ns) if x in live)
            if ns not in num:
                num[ns] = len(order)
                order.append(ns)
            return num[ns]
        name({start})
        rows = []
        i = 0
        while i < len(order):
            ns = order[i]
            by = {}
            for a in ns:
                for t, b in self.out[a]:
                    if t is not None and b in live:
                        by.setdefault(t, set()).add(b)
            rows.append((bool(ns & ends), tuple((t, name(by[t])) for t in sorted(by, key=repr))))
            i += 1
        return tuple(rows)

    def always(self, start, end, tag, present):
        """Tags found on every way on which `tag` is (not) present."""
        live = self.live(frozenset([end]))
        best = {(start, 0): frozenset()}
        st = [(start, 0)]
        while st:
            a, c = st.pop()
            have = best[(a, c)]
            for t, b in self.out[a]:
                if b not in live:
                    continue
                c2 = 1 if c or t is not None and t.tag == tag else 0
                if c2 and not present:
                    continue
                h2 = have | ({t.tag} if t is not None else frozenset())
                old = best.get((b, c2))
                new = h2 if old is None else old & h2
                if old is None or new != old:
                    best[(b, c2)] = new
                    st.append((b, c2))
        return best.get((end, 1 if present else 0))

    def sorted_copy(self, start, end):
        """The same values in the order of their tags; which values come with
        which others is kept."""
        toks, _ = self.tokens(start, [end])
        tags = sorted({t.tag for t in toks})
        needs = {t: self.always(start, end, t, 1) or frozenset() for t in tags}
        s = self.node()
        level = {(frozenset(), frozenset()): s}     # (must still come, must not come)
        for tag in tags:
            ts = {t for t in toks if t.tag == tag}
            counts = self.many(start, {end}, tag)
            nxt = {}

            def to(must, no):
                later = {u for u in tags if u > tag}
                k = (frozenset(must) & later, frozenset(no) & later)
                if k not in nxt:
                    nxt[k] = self.node()
                return nxt[k]
            for (must, no), cur in level.items():
                if tag not in no:
                    b = to(must | needs[tag], no)
                    for t in ts:
                        self.edge(cur, b, t)
                        if 2 in counts:
                            self.edge(b, b, t)
                if 0 in counts and tag not in must:
                    self.edge(cur, to(must, no | {u for u in tags if tag in needs[u]}))
            level = nxt
        e = self.node()
        for n in level.values():
            self.edge(n, e)
        return s, e


class Shapes:
    def __init__(self, model, gr, version):
        self.model, self.gr, self.v = model, gr, version
        self.null = p05.Null(gr, model)
        self.net = Net()
        self.memo = {}
        self.seeds = {}              # function usr -> {(start node, end node)}
        self.where = {}
        self.nofail_ = {k: False for k in gr.rules}
        self.emits_ = {k: False for k in gr.rules}
        self.langs = {}
        self.nscopes = 0
        self.fix()
        self.pairs = rule_pairs(model, gr)

    # -- which rules store values, which cannot fail ---------------------------
    def defs(self, key):
        return self.null.defs(key) or ()

    def fix(self):
        ch = True
        while ch:
            ch = False
            for k, ds in self.gr.rules.items():
                if not self.emits_[k] and any(self.emits(g) for g, _, _ in ds):
                    self.emits_[k] = ch = True
                if not self.nofail_[k] and ds and all(self.nofail(g) for g, _, _ in ds):
                    self.nofail_[k] = ch = True

    def events(self, g):
        """Value events of an action node, innermost first."""
        return act_events(self.model, self.gr, g)

    def emits(self, g):
        k = g.k
        if k == "scoped":
            kind = scope_kind(g)
            if kind in ("list", "value"):
                return True
            if kind == "save":
                return False
            if scope_release(self.model, g):
                return True
        if k == "act" and self.events(g):
            return True
        if k == "rule":
            if any(self.emits_[d] for d in self.defs(g.v)):
                return True
            return g.v in self.dynamic_rules()
        if k == "lazy":
            return True
        return any(self.emits(c) for c in g.ch)

    def dynamic_rules(self):
        return set()

    def nofail(self, g):
        k = g.k
        if k == "seq":
            known = set()
            for c in g.ch:
                if not self.nofail(c) and not (c.k == "rule" and c.v in known):
                    return False
                known = ahead(c)
            return True
        if k in ("eps", "star", "opt"):
            return True
        if k == "ver":
            return self.ver(g)
        if k == "alt":
            return any(self.nofail(c) for c in g.ch)
        if k in ("act",):
            return self.nofail(g.ch[0])
        if k == "scoped":
            return scope_kind(g) in ("list", "value", "save") and self.nofail(g.ch[0])
        if k == "rule":
            ds = self.defs(g.v)
            return bool(ds) and all(self.nofail_[d] for d in ds)
        return False

    def ver(self, g):
        lo, hi = g.v if len(g.v) == 2 else (g.v[0], 999)
        return lo <= self.v < hi

    # -- composition -----------------------------------------------------------
    def attempt(self, g, P, cx, lazy):
        """go, where parsing carries on after a failure: what was stored until
        then is marked."""
        m, f = self.go(g, P, cx, lazy)
        if STALE in cx or not f or f <= P:
            return m, f
        return m, self.go(g, P, cx + (STALE,), lazy)[1]

    def fresh(self, *key):
        if key not in self.memo:
            self.memo[key] = self.net.node()
        return self.memo[key]

    def go(self, g, P, cx, lazy=None):
        """P: {(scope start, node)} before g; returns the sets after a match
        and after a failure."""
        k = g.k
        if not P:
            return set(), set()
        if k == "ver":
            return (P, set()) if self.ver(g) else (set(), P)
        if k == "fail":
            return set(), P
        if k == "rule" and lazy is not None and g.v == lazy[0]:
            return self.rule(lazy[1], P, cx, g)
        if k == "lazy":
            if lazy is None:
                raise Broken("a stored rule is run outside a value list at %s" % g.where())
            return self.rule(lazy[1], P, cx, g)
        if not self.emits(g):
            return P, (set() if self.nofail(g) else P)
        if k in ("seq",):
            F = set()
            known = set()
            for c in g.ch:
                P, f = self.go(c, P, cx, lazy)
                if not (c.k == "rule" and c.v in known):
                    F |= f
                known = ahead(c)
            return P, F
        if k == "alt":
            M = set()
            Q = P
            for c in g.ch:
                if self.reports(c):
                    # the document is rejected anyway
                    P = Q
                m, p = self.attempt(c, P, cx, lazy)
                _, Q = self.go(c, Q, cx, lazy) if Q != P or p != P else (m, p)
                P = p
                M |= m
            return M, P
        if k in ("opt",):
            m, f = self.attempt(g.ch[0], P, cx, lazy)
            return m | f, set()
        if k in ("star", "plus", "repeat", "listp"):
            starts = {}
            todo = list(P)
            M, F = set(), set()
            first_fail = set()
            if k == "plus":
                m, first_fail = self.attempt(g.ch[0], P, cx + ("first",), lazy)
                todo = list(m)
            done = set()
            while todo:
                s, n = todo.pop()
                l = self.fresh("loop", id(g), s, cx)
                self.net.edge(n, l)
                if (s, l) in done:
                    continue
                done.add((s, l))
                m, f = self.attempt(g.ch[0], {(s, l)}, cx + ("loop",), lazy)
                F |= f
                M.add((s, l))
                for s2, n2 in m:
                    if s2 == s:
                        self.net.edge(n2, l)
                    else:
                        todo.append((s2, n2))
            return M | F, first_fail
        if k == "act":
            m, f = self.go(g.ch[0], P, cx, lazy)
            for e in self.events(g):
                m = self.event(e, m, g, cx)
            return m, f
        if k == "scoped":
            return self.scoped(g, P, cx, lazy)
        if k == "rule":
            M, F = set(), set()
            for d in self.defs(g.v):
                m, f = self.rule(d, P, cx, g)
                M |= m
                F |= f
            return M, F
        if k in ("and", "not"):
            m, f = self.go(g.ch[0], P, cx, lazy)
            return (m, f) if k == "and" else (f, m)
        if k in ("nocase", "lexeme", "look") and len(g.ch) == 1:
            return self.go(g.ch[0], P, cx, lazy)
        raise Broken("values are stored inside a %s parser at %s" % (k, g.where()))

    def rule(self, key, P, cx, site):
        if not self.emits_.get(key):
            return P, (set() if self.nofail_.get(key) else P)
        c2 = cx + ((key, id(site)),)
        if any(isinstance(c, tuple) and c[0] == key for c in cx):
            raise Broken("rule %s stores values recursively" % key)
        M, F = set(), set()
        for g, _, _ in self.gr.rules[key]:
            m, f = self.go(g, P, c2, None)
            M |= m
            F |= f
        return M, F

    @staticmethod
    def mark(tok, cx):
        return Tok(tuple(tok) + ("stale",)) if STALE in cx else tok

    def reports(self, g):
        """Does matching g report an error (whatever it matches)?"""
        if g.k == "act" and reports_error(self.model, self.gr, g):
            return True
        if g.k in ("seq", "act", "scoped", "nocase"):
            return any(self.reports(c) for c in g.ch)
        if g.k == "alt":
            return all(self.reports(c) for c in g.ch)
        return False

    def event(self, e, P, g, cx):
        out = set()
        for s, n in P:
            if e[0] == "tok":
                b = self.fresh("tok", id(g), e, s, cx)
                self.net.edge(n, b, self.mark(e[1], cx))
                out.add((s, b))
            elif e[0] == "sort":
                k = ("sort", id(g), s, n)
                if k not in self.memo:
                    self.memo[k] = self.net.sorted_copy(s, n)
                out.add(self.memo[k])
            elif e[0] == "release":
                self.seeds.setdefault(e[1], set()).add((s, n))
                x = self.fresh("rel", id(g), cx)
                out.add((x, x))
        return out

    def scoped(self, g, P, cx, lazy):
        kind = scope_kind(g)
        if kind == "save":
            return P, (set() if self.nofail(g) else P)
        if kind == "value":
            m, f = self.go(g.ch[0], P, cx, lazy)
            t = self.mark(Tok((value_kind(self, g.ch[0]), scope_tag(g) or 0, None, False)), cx)
            out = set()
            for s, n in m:
                b = self.fresh("val", id(g), s, cx)
                self.net.edge(n, b, t)
                out.add((s, b))
            return out, f
        if kind == "list":
            toks = []
            tag = scope_tag(g)
            if tag is not None:
                toks.append((tag, self.language(g, cx, lazy)))
            else:
                dyn = dynamic(g)
                ps = self.pairs.get(dyn[0]) if dyn else None
                if not ps:
                    raise Broken("the rules that may run in the value list at %s were not found" % g.where())
                ns = None
                if dyn[2] is not None:
                    pass
                for t, rk, spaces in ps:
                    al = self.allowed(g)
                    if al is not None and not (t in al):
                        continue
                    toks.append((t, self.language(g, cx, (dyn[1], rk))))
            out = set()
            for s, n in P:
                b = self.fresh("list", id(g), s, cx)
                for t, l in toks:
                    if l is not None:
                        self.net.edge(n, b, self.mark(Tok(("L", t, l, False)), cx))
                out.add((s, b))
            if not any(l is not None for _, l in toks):
                out = set()
            return out, (set() if self.nofail(g) else P)
        # some other scope: transparent, unless it takes the values
        for usr in scope_release(self.model, g):
            P = self.event(("release", usr), P, g, cx)
        return self.go(g.ch[0], P, cx, lazy)

    def allowed(self, g):
        """Tags a symbol table before the list can have selected."""
        return self.sym_tags.get(id(g))

    def language(self, g, cx, lazy):
        k = ("lang", id(g), lazy, self.v)
        if k not in self.langs:
            self.langs[k] = None
            s = self.net.node()
            m, f = self.go(g.ch[0], {(s, s)}, (k,), lazy)
            # what a release inside the list leaves is only what came later
            starts = {a for a, _ in m}
            ids = len(self.net.info)
            if m:
                ends = frozenset(n for _, n in m)
                L = ("lang", frozenset(starts), ends)
                self.langs[k] = L
        return self.langs[k]

    def build(self):
        self.sym_tags = symbol_tags(self.model, self.gr)
        done = 0
        for key, ds in sorted(self.gr.rules.items()):
            for g, _, _ in ds:
                for x in g.walk():
                    if x.k == "scoped" and scope_kind(x) == "save":
                        s = self.net.node()
                        self.go(x.ch[0], {(s, s)}, (("save", id(x)),))
                        done += 1
        for key in sorted(starts(self.model, self.gr, self.null)):
            s = self.net.node()
            m, f = self.rule(key, {(s, s)}, (), None) if self.emits_.get(key) else ({(s, s)}, {(s, s)})
            self.langs[("start", key)] = (m, f, s)
            done += 1
        self.nscopes = done
        return self


def ahead(g):
    """Rules known to match right after g."""
    if g.k == "and" and len(g.ch) == 1 and g.ch[0].k == "rule":
        return {g.ch[0].v}
    if g.k == "act":
        return ahead(g.ch[0])
    if g.k == "seq" and g.ch:
        return ahead(g.ch[-1])
    return set()


def starts(model, gr, null):
    return {k for k in null.gstart}


# -- reading the grammar's value actions ------------------------------------------
def scope_kind(g):
    impl = str(g.v[0]).split("::")[-1].split("<")[0]
    return {"value_builder_save": "save", "value_builder_list": "list", "to_value_scoped_action": "value"}.get(impl)


def scope_release(model, g):
    if scope_kind(g) is not None:
        return ()
    out = []
    for nm in ("start", "success", "failure", "cleanup"):
        for f in p14.member_fns(model, g.v[0], nm):
            if releases(model, f):
                out.append(f.usr)
    return out


def reports_error(model, gr, act):
    """Does the action count an error?"""
    c = gr.__dict__.setdefault("_reports_error", {})
    if id(act) not in c:
        fs = p14.action_functions(model, gr, act, act.n.f if act.n is not None and hasattr(act.n, "f") else None)
        c[id(act)] = any(counts_error(f) for f in fs)
    return c[id(act)]


def counts_error(f):
    for n in f.nodes.values():
        if n.k == "UnaryOperator" and n.op == "++":
            x = strip(n.ch[0], explicit=True)
            if x is not None and x.k == "MemberExpr" and x.name == "error_count":
                return True
    return False


def releases(model, f):
    c = model.__dict__.setdefault("_releases", {})
    if f.usr not in c:
        c[f.usr] = releases_(f)
    return c[f.usr]


def releases_(f):
    return any(is_call(n) and last(n.callee or "") == "release" and "value_parser" in (n.callee or "") for n in f.nodes.values())


def tag_of(x):
    """Constant tag of an expression, None when it is computed."""
    for y in x.walk():
        if y.k == "DeclRefExpr" and y.dk == "enum" and y.q and not y.q.startswith("phoenix"):
            return y.val
    return None


def scope_tag(g):
    e = g.v[1] if len(g.v) > 1 else None
    if e is None:
        return 0
    t = tag_of(e)
    if t is not None:
        return t
    if dynamic(g):
        return None
    return 0


def dynamic(g):
    """(member the tag is read from, rule key run, None) of a computed list."""
    e = g.v[1] if len(g.v) > 1 else None
    if e is None:
        return None
    tagm = None
    for x in e.walk():
        if x.k == "MemberExpr" and x.dk == "field" and "tag" in (x.name or "") and "grammar" not in (x.type or ""):
            tagm = x.q
    if tagm is None:
        return None
    rk = None
    for x in g.ch[0].walk():
        if x.k == "lazy":
            rk = "lazy"
        elif x.k == "rule" and x.v.rsplit("::", 1)[0] == tagm.rsplit("::", 1)[0] and rk is None:
            rk = x.v
    return (tagm, rk, None)


def rule_pairs(model, gr):
    """Which rule goes with which tag, per member the tag is later read from."""
    out = {}
    # objects that hold a tag and the address of a rule
    for f in model.fns():
        for n in f.nodes.values():
            if n.k in CONSTRUCTS and not n.copy and n.cls and len(n.ch) >= 2:
                rk = None
                for x in n.walk():
                    if x.k == "UnaryOperator" and x.op == "&":
                        kk = gr.key(x.ch[0])
                        if kk in gr.rules:
                            rk = kk
                if rk is None:
                    continue
                tags = []
                loop = False
                for a in n.ch:
                    x = strip(a, explicit=True)
                    if x is None:
                        continue
                    if x.dk == "enum" and "::tags" not in (x.q or "") and "tags" in (x.q or ""):
                        tags.append(x.val)
                    elif x.k == "DeclRefExpr" and x.dk in ("local", "parm") and x.type and "int" in x.type:
                        for ns in loop_tags(model, f, n):
                            tags += list(p11.enums(model, ns))
                for fld in class_fields(model, n.cls):
                    if "tag" in fld:
                        for t in tags or [0]:
                            out.setdefault(n.cls + "::" + fld, []).append((t, rk, None))
    # table[tag] = &rule
    tab = {}
    for f in model.fns():
        for n in f.nodes.values():
            if n.k == "BinaryOperator" and n.op == "=" and n.ch[1] is not None:
                r = strip(n.ch[1], explicit=True)
                if r is None or r.k != "UnaryOperator" or r.op != "&":
                    continue
                rk = gr.key(r.ch[0])
                l = strip(n.ch[0], explicit=True)
                if rk not in gr.rules or l is None or l.k != "CXXOperatorCallExpr" or l.op != "[]":
                    continue
                t = tag_of(l.ch[2])
                m = strip(l.ch[1], explicit=True)
                if t is None or m is None:
                    continue
                tab.setdefault(m.q or "", []).append((t, rk, None))
    # functions that store a tag and a rule
    for f in model.fns():
        tags, rules = [], []
        for n in f.nodes.values():
            if n.k == "BinaryOperator" and n.op == "=":
                l = strip(n.ch[0], explicit=True)
                if l is not None and l.k == "MemberExpr" and l.dk == "field" and "tag" in (l.name or ""):
                    tags.append((l.q, n.ch[1]))
            if n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.ch) == 3 and grammar.tbase(n.ch[1].type).endswith("rule"):
                l = strip(n.ch[1], explicit=True)
                if l is not None and l.k == "MemberExpr":
                    rules.append(n.ch[2])
        for q, tv in tags:
            for r in rules:
                src = [x.q for x in r.walk() if x.k == "MemberExpr" and x.q in tab]
                if src:
                    for s in src:
                        out.setdefault(q, []).extend(tab[s])
                else:
                    rk = gr.key(strip(r, explicit=True))
                    if rk in gr.rules:
                        out.setdefault(q, []).append((tag_of(tv) or 0, rk, None))
    return out


def loop_tags(model, f, n):
    """Tag namespaces of the loops whose variable is used in n."""
    found = False
    seen = set()
    todo = [x.did for x in n.walk() if x.k == "DeclRefExpr" and x.dk == "local"]
    while todo:
        d = todo.pop()
        if d in seen:
            continue
        seen.add(d)
        v = f.vars().get(d)
        if v is None or not v.get("init"):
            continue
        i = f.nodes[v["init"]]
        for y in [i] + list(i.walk()):
            if is_call(y) and (y.callee or "").endswith("::tags"):
                found = True
                yield y.callee.split("::")[-2]
            elif y.k == "DeclRefExpr" and y.dk == "local":
                todo.append(y.did)
    if not found:
        for x in p11.looped_tags(model, f, n):
            yield x


def class_fields(model, cls):
    for c in model.classes.values():
        if c["q"] == cls:
            return [x["name"] for x in c.get("fields", ())]
    return []


def symbol_tags(model, gr):
    """For each computed value list that follows a symbol table: the tags that
    table holds."""
    tags = {}
    for k, es in gr.symbols.items():
        vals = set()
        for name, val, n, f, a in es:
            if val is None:
                continue
            x = strip(val, explicit=True)
            t = tag_of(x) if x is not None else None
            if t is not None:
                vals.add(t)
            else:
                for ns in loop_tags(model, f, n):
                    vals |= set(p11.enums(model, ns))
        tags[k] = vals
    out = {}
    for ds in gr.rules.values():
        for g, _, _ in ds:
            for x in g.walk():
                if x.k != "seq":
                    continue
                syms, other = set(), False
                for c in x.ch:
                    for y in c.walk():
                        if y.k == "scoped" and scope_kind(y) == "list" and dynamic(y) and y is c:
                            if syms and not any(z.k == "lazy" for z in y.walk()):
                                al = set()
                                for s in syms:
                                    al |= tags.get(s, set())
                                # a fallback assigns the tag itself
                                fb = any(z.k == "act" and fallback(model, gr, z) for d in x.ch for z in d.walk())
                                out[id(y)] = al | ({0} if fb else set())
                        elif y.k == "sym":
                            syms.add(y.v)
    return out


def fallback(model, gr, act):
    for x in act.v.walk() if act.v is not None else ():
        t = p14.bare(x.type)
        if not t.startswith("quickbook::"):
            continue
        for f in p14.member_fns(model, t, "operator()"):
            for n in f.nodes.values():
                if n.k == "BinaryOperator" and n.op == "=":
                    l = strip(n.ch[0], explicit=True)
                    if l is not None and l.k == "MemberExpr" and "tag" in (l.name or "") and tag_of(n.ch[1]) == 0:
                        return True
    return False


def act_events(model, gr, g):
    c = gr.__dict__.setdefault("_value_events", {})
    if id(g) in c:
        return c[id(g)]
    out = []
    v = g.v
    if v is not None and hasattr(v, "walk"):
        found = False
        for x in v.walk():
            if x.k == "CXXOperatorCallExpr" and x.op == "()" and "function<" in (x.callee or ""):
                if "value_entry" in x.callee:
                    args = [a for a in x.ch[2:] if a is not None and a.k != "CXXDefaultArgExpr"]
                    ph = [a for a in args if tag_of(a) is None]
                    tg = [tag_of(a) for a in args if tag_of(a) is not None]
                    kind = "q" if len(ph) == 2 else "i" if len(ph) == 1 else None
                    if kind is None:
                        raise Broken("value entry with %d arguments at %s" % (len(args), x.where()))
                    out.append(("tok", Tok((kind, tg[0] if tg else 0, None, kind == "i" or safe(gr, g.ch[0])))))
                    found = True
                elif "value_sort" in x.callee:
                    out.append(("sort",))
                    found = True
        if not found:
            f = v.f if hasattr(v, "f") else None
            for t in p14.action_functions(model, gr, g, g.n.f if g.n is not None and hasattr(g.n, "f") else None):
                if releases(model, t):
                    out.append(("release", t.usr))
    c[id(g)] = out
    return out


SAFE_CLASS = {"alnum_p", "alpha_p", "digit_p", "xdigit_p", "blank_p", "space_p", "upper_p", "lower_p", "cntrl_p"}
SPECIAL = set("&<>\"'")


def safe(gr, g, depth=0):
    """Can the matched text contain none of the characters special in markup?"""
    k = g.k
    if depth > 12:
        return False
    if k == "class":
        return g.v in SAFE_CLASS
    if k in ("eol", "eps", "end", "num", "and", "not", "ver", "cond", "guard", "look", "fail"):
        return True
    if k == "str":
        return not (set(g.v) & SPECIAL)
    if k == "set":
        try:
            from .p20 import set_chars
            return not (set(set_chars(g)) & SPECIAL)
        except Exception:
            vs = str(g.v)
            return not (set(vs) & SPECIAL)
    if k == "sym":
        es = gr.symbols.get(g.v)
        return bool(es) and all(name is not None and not (set(name) & SPECIAL) for name, _, _, _, _ in es)
    if k == "diff":
        return safe(gr, g.ch[0], depth + 1)
    if k == "isect":
        return any(safe(gr, c, depth + 1) for c in g.ch)
    if k == "rule":
        ds = gr.rules.get(g.v)
        return bool(ds) and all(safe(gr, x, depth + 1) for x, _, _ in ds)
    if k in ("seq", "alt", "star", "plus", "opt", "act", "repeat", "nocase", "seqor", "xor"):
        return all(safe(gr, c, depth + 1) for c in g.ch)
    return False


def value_kind(sh, g):
    """Is the text collected inside a value scope markup or plain text?"""
    k = ("vk", id(g), sh.v)
    if k in sh.memo:
        return sh.memo[k]
    plain = False
    seen = set()
    st = [g]
    while st:
        x = st.pop()
        if x.k == "ver" or x.k == "seq" and any(c.k == "ver" and not sh.ver(c) for c in x.ch):
            continue
        if x.k == "scoped" and scope_kind(x) == "value" and x is not g:
            continue
        if x.k == "act" and raw_printer(sh.model, sh.gr, x) and not safe(sh.gr, x.ch[0]):
            plain = True
            break
        if x.k == "rule":
            for d in sh.defs(x.v):
                if d not in seen:
                    seen.add(d)
                    st += [y for y, _, _ in sh.gr.rules[d]]
        st += list(x.ch)
    sh.memo[k] = "p" if plain else "m"
    return sh.memo[k]


def raw_printer(model, gr, act):
    """Does the action write the matched characters as they are?"""
    c = gr.__dict__.setdefault("_raw_printer", {})
    if id(act) not in c:
        r = False
        for f in p14.action_functions(model, gr, act, act.n.f if act.n is not None and hasattr(act.n, "f") else None):
            r = r or writes_raw(f)
        c[id(act)] = r
    return c[id(act)]


def writes_raw(f):
    """`collector << *first` or `collector << ch` with a parameter."""
    ps = {p["did"] for p in f.params}
    for n in f.nodes.values():
        if n.k == "CXXOperatorCallExpr" and n.op == "<<" and len(n.ch) == 3 and n.ch[2] is not None:
            x = strip(n.ch[2], explicit=True)
            if x is not None and (x.type or "").replace("const ", "") in ("char", "unsigned char"):
                if any(y.k == "DeclRefExpr" and y.did in ps for y in x.walk()):
                    return True
    return False


# -- running the handlers ------------------------------------------------------------
def is_value(t):
    b = (t or "").replace("const ", "").rstrip("&* ").strip()
    return b in ("quickbook::value", "quickbook::detail::value_base", "quickbook::detail::value_ref",
                 "quickbook::detail::value_counted", "value", "value_ref") or b.endswith("value_base::iterator::reference") \
        or b in ("quickbook::value_consumer::reference", "reference")


def is_consumer(t):
    b = (t or "").replace("const ", "").rstrip("&* ").strip()
    return b in ("quickbook::value_consumer", "value_consumer")


def has_values(t):
    return is_value(t) or is_consumer(t) or "value>" in (t or "") and "quickbook::value" in (t or "")


class Take(Rule):
    """auto: frozenset of (key, value) pairs; a value is ("v", tokens) or
    ("c", language, options) or ("t", key of the value its tag is from)."""
    copies = True
    width = 16
    max_depth = 7

    def __init__(self, model, shapes, record):
        Rule.__init__(self, model)
        self.sh = shapes
        self.net = shapes.net
        self.rec = record
        self.seed = None
        self.bads = {}

    # -- automaton values
    @staticmethod
    def get(a, k):
        for kk, v in a:
            if kk == k:
                return v
        return None

    @staticmethod
    def put(a, k, v):
        return frozenset([(kk, vv) for kk, vv in a if kk != k] + ([(k, v)] if v is not None else []))

    def bad(self, n, msg, ctx):
        self.bads.setdefault((n.where(), msg), ctx.chain())

    def may_inline(self, call, t, ctx):
        if t.cfg is None or (t.cls or "").startswith(("quickbook::value", "quickbook::detail::value")):
            return False
        if releases(self.model, t):
            return False             # parses something else, with values of its own
        return any(has_values(p["t"]) for p in t.params) or is_value(t.d.get("rt"))

    def open(self, tok):
        """A consumer over a value."""
        if tok.kind == "L":
            _, ss, ends = tok.lang
            return self.net.next(ss, ends)
        return None

    def tokens(self, n, a, ctx, depth=0):
        """Tokens an expression of value type can stand for; None unknown."""
        n = strip(n, explicit=True)
        if n is None or depth > 10:
            return None
        r = self.get(a, ("n", ctx.cid, n.id))
        if r is not None and r[0] == "v":
            return r[1]
        if n.k == "DeclRefExpr" and n.dk in ("local", "parm"):
            r = self.get(a, ctx.var_key(n.did))
            return r[1] if r is not None and r[0] == "v" else None
        if n.k == "MemberExpr" and n.dk == "field":
            r = self.get(a, ctx.key(n)) if ctx.key(n) else None
            return r[1] if r is not None and r[0] == "v" else None
        if n.k in CONSTRUCTS:
            ks = [c for c in n.kids() if c.k != "CXXDefaultArgExpr"]
            if len(ks) == 1:
                return self.tokens(ks[0], a, ctx, depth + 1)
            if not ks and is_value(n.cls or n.type):
                return frozenset([NIL])
            return None
        if n.k in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups") and n.ch:
            return self.tokens(n.ch[0], a, ctx, depth + 1)
        if n.k == "CXXOperatorCallExpr" and n.op == "*" and len(n.ch) > 1:
            return self.tokens(n.ch[1], a, ctx, depth + 1)
        if is_call(n):
            nm = last(n.callee or "")
            if nm == "empty_value":
                return frozenset([NIL])
            if nm == "qbk_value":
                return frozenset([Tok(("q", tag_of(n) or 0, None, False))])
            if nm == "encoded_value":
                return frozenset([Tok(("p", 0, None, False))])
            if nm == "back":
                o, _ = call_args(n)
                return self.tokens(o, a, ctx, depth + 1)
        return None

    def asserted(self, n, a, ctx):
        """The condition of an assertion, when it is only about values that are
        followed here."""
        x, c = n.parent, None
        while x is not None and c is None:
            if x.k in ("ConditionalOperator", "IfStmt"):
                c = [y for y in x.ch if y is not None][0]
            x = x.parent
        if c is None:
            return None
        calls = [y for y in [c] + list(c.walk()) if is_call(y)]
        calls = [y for y in calls if not (y.callee or "").startswith(("__builtin", "boost::"))]
        if not calls:
            return None
        for y in calls:
            if not (y.callee or "").startswith(("quickbook::value_consumer::", "quickbook::detail::value_base::")):
                return None
            if last(y.callee) not in ("check", "is_list", "is_encoded"):
                return None
            o, _ = call_args(y)
            s = strip(o, explicit=True) if o is not None else None
            k = self.consumer_key(s, ctx) if s is not None and is_consumer(s.type) else ctx.key(s) if s is not None else None
            if k is None or self.get(a, k) is None:
                return None
        return c

    def consumer_key(self, n, ctx):
        n = strip(n, explicit=True)
        if n is None:
            return None
        if n.k == "DeclRefExpr" and n.dk in ("local", "parm"):
            return ctx.var_key(n.did)
        return None

    def make_consumer(self, n, a, ctx, x):
        """options for a consumer built from expression x"""
        toks = self.tokens(x, a, ctx)
        if toks is None:
            return None
        return self.consumer_of(n, toks, ctx)

    def consumer_of(self, n, toks, ctx):
        opts, ends, ok = set(), set(), True
        langs = set()
        for t in toks:
            if t.kind == "L":
                _, ss, es = t.lang
                opts |= self.net.next(ss, es)
                langs.add(es)
            elif t.kind == "?":
                return None
            else:
                ok = False
        if not ok:
            self.bad(n, "a value that is not a list is taken apart (%s)" % kinds(toks), ctx)
        if len(langs) != 1:
            es = frozenset().union(*langs) if langs else frozenset()
        else:
            es = list(langs)[0]
        return ("c", es, frozenset(opts))

    # -- events
    def step(self, n, a, ctx, st):
        k = n.k
        if k == "DeclStmt":
            for v in n.d.get("vars", ()):
                i = ctx.fn.nodes.get(v["init"]) if v.get("init") else None
                key = ctx.var_key(v["did"])
                if i is not None and is_consumer(v.get("t")):
                    c = self.copied(i, a, ctx)
                    if c is not None and END in c[2] and len(c[2]) > 1:
                        # what is learnt from the copy is known of the original
                        src = self.consumer_key(i, ctx)
                        out = []
                        for o in (frozenset([END]), c[2] - {END}):
                            b = self.put(a, src, ("c", c[1], o))
                            out.append(self.put(b, key, ("c", c[1], o)))
                        return out
                if i is not None and (v.get("t") or "").replace("const ", "") == "bool":
                    out = []
                    for t in (True, False):
                        r = self.edge(i, t, a, ctx, st) if self.decided(i) else None
                        out += [self.put(b, key, ("b", t)) for b in (r if r is not None else [a])]
                    return out if self.decided(i) else [self.put(a, key, None)]
                a = self.define(n, v.get("t"), key, i, a, ctx)
            return [a]
        if k == "UnaryOperator" and n.op in ("++", "--"):
            s = strip(n.ch[0], explicit=True)
            key = ctx.var_key(s.did) if s is not None and s.k == "DeclRefExpr" and s.dk in ("local", "parm") else None
            r = self.get(a, key) if key is not None else None
            if r is not None and r[0] == "#":
                return [self.put(a, key, ("#", min(2, r[1] + 1)) if n.op == "++" else None)]
            return None
        if k in ("BinaryOperator", "CompoundAssignOperator") and (n.op or "").endswith("=") and n.op not in ("==", "!=", "<=", ">="):
            s = strip(n.ch[0], explicit=True)
            key = ctx.var_key(s.did) if s is not None and s.k == "DeclRefExpr" and s.dk in ("local", "parm") else None
            r = self.get(a, key) if key is not None else None
            if r is not None and r[0] in "#b":
                return [self.put(a, key, None)]
        if k == "ReturnStmt" and n.kids() and ctx.depth and is_value(ctx.fn.d.get("rt")):
            t = self.tokens(n.kids()[0], a, ctx)
            return [self.put(a, "ret", ("v", t) if t is not None else None)]
        if k == "ReturnStmt" and n.kids() and ctx.depth and "value>" in (ctx.fn.d.get("rt") or ""):
            t = self.tokens(n.kids()[0], a, ctx)
            return [self.put(a, "ret", ("v", t) if t is not None else None)]
        if k in CONSTRUCTS and is_consumer(n.cls) and not n.copy:
            x = n.kids()
            if len(x) == 1 and not is_consumer(x[0].type):
                c = self.make_consumer(n, a, ctx, x[0])
                return [self.put(a, ("n", ctx.cid, n.id), c)]
            return None
        if not is_call(n):
            return None
        cal = n.callee or ""
        nm = last(cal)
        o, args = call_args(n)
        if nm in ("__assert_fail", "assertion_failed", "assertion_failed_msg"):
            t = self.asserted(n, a, ctx)
            if t is not None:
                self.bad(t, "an assertion about the values may fail", ctx)
            return None
        if nm == "release" and "value_parser" in cal:
            if self.seed is not None and not ctx.depth:
                return [self.put(a, ("n", ctx.cid, n.id), ("v", frozenset([self.seed])))]
            return None
        if cal.startswith("quickbook::value_consumer::") and "iterator" not in cal:
            return self.consumer_call(n, nm, o, args, a, ctx)
        if nm == "operator++" and "value_consumer::iterator" in cal or n.k == "CXXOperatorCallExpr" and n.op == "++" and \
                "value_consumer::iterator" in (cal or ""):
            ck = self.range_of(n.ch[1], ctx)
            c = self.get(a, ck) if ck else None
            if c is not None and c[0] == "c":
                return [self.put(a, ck, ("c", c[1], self.advance(c, None)))]
            return None
        if cal.startswith("quickbook::detail::value_base::") and nm in ACCESS and "iterator" not in cal:
            toks = self.tokens(o, a, ctx)
            self.rec.setdefault((ctx.fn.usr, n.id, nm), [n, set(), False])
            e = self.rec[(ctx.fn.usr, n.id, nm)]
            if toks is None:
                e[2] = True
            else:
                e[1] |= toks
                wrong = {t for t in toks if t.kind not in ACCESS[nm] and t.kind != "?"}
                if wrong:
                    self.bad(n, "%s is applied to %s" % (nm, kinds(wrong)), ctx)
            return None
        if nm == "operator=" and is_value(o.type if o is not None else None) and args:
            t = self.tokens(args[0], a, ctx)
            key = ctx.key(strip(o, explicit=True))
            if key is not None:
                return [self.put(a, key, ("v", t) if t is not None else None)]
            return None
        if n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.ch) == 3 and has_values(n.ch[1].type):
            t = self.tokens(n.ch[2], a, ctx)
            key = ctx.key(strip(n.ch[1], explicit=True))
            if key is not None:
                return [self.put(a, key, ("v", t) if t is not None else None)]
            return None
        if nm in ("push_back", "insert", "emplace_back") and o is not None and has_values(o.type) and args:
            key = ctx.key(strip(o, explicit=True))
            t = self.tokens(args[-1], a, ctx)
            if key is not None:
                old = self.get(a, key)
                if t is None:
                    return [self.put(a, key, ("v", frozenset([TOP])))]
                return [self.put(a, key, ("v", (old[1] if old else frozenset()) | t))]
        return None

    def copied(self, i, a, ctx):
        """The state of the consumer that is copied."""
        k = self.consumer_key(i, ctx)
        s = strip(i, explicit=True)
        while k is None and s is not None and s.k in CONSTRUCTS and len(s.kids()) == 1:
            s = strip(s.kids()[0], explicit=True)
            k = self.consumer_key(s, ctx)
        r = self.get(a, k) if k is not None and s is not None and is_consumer(s.type) else None
        return r if r is not None and r[0] == "c" else None

    def decided(self, i):
        """Does the truth of this expression say something about values?"""
        for x in [i] + list(i.walk()):
            if is_call(x) and (x.callee or "").startswith(("quickbook::value_consumer::", "quickbook::detail::value_base::")):
                return True
            if x.k in ("BinaryOperator", "CXXOperatorCallExpr") and x.op in ("&&", "||"):
                return False
        return False

    def define(self, n, t, key, i, a, ctx):
        if i is None:
            return a
        if (t or "").replace("const ", "").replace("unsigned ", "") in ("int", "long", "std::size_t", "size_t", "unsigned"):
            s = strip(i, explicit=True)
            if s is not None and (s.k == "IntegerLiteral" or s.cv is not None) and (s.val == 0 or s.cv == 0):
                return self.put(a, key, ("#", 0))
            return self.put(a, key, None)
        if is_consumer(t):
            c = self.copied(i, a, ctx)
            if c is not None:
                return self.put(a, key, c)
        if is_consumer(t):
            src = self.loop_source(i, ctx)
            if src is not None:
                tk = self.elements(n, src, a, ctx)
                return self.put(a, key, self.consumer_of(n, tk, ctx) if tk is not None else None)
            for x in [i] + list(i.walk()):
                r = self.get(a, ("n", ctx.cid, x.id))
                if r is not None and r[0] == "c":
                    return self.put(a, key, r)
            return self.put(a, key, None)
        if is_value(t) or (t or "").startswith("std::vector<quickbook::value"):
            # the loop variable of a range for
            src = self.loop_source(i, ctx)
            if src is not None:
                tk = self.elements(n, src, a, ctx)
                return self.put(a, key, ("v", tk) if tk is not None else None)
            tk = self.tokens(i, a, ctx)
            if tk is None and (t or "").startswith("std::vector") and not any(is_call(x) for x in i.walk()):
                tk = frozenset()
            return self.put(a, key, ("v", tk) if tk is not None else None)
        s = strip(i, explicit=True)
        if s is not None and is_call(s) and last(s.callee or "") == "get_tag":
            o, _ = call_args(s)
            vk = ctx.key(strip(o, explicit=True)) if o is not None else None
            if vk is not None:
                return self.put(a, key, ("t", vk))
        return a

    def elements(self, n, src, a, ctx):
        """What a loop over src runs over."""
        if is_value(src.type):
            tk = self.tokens(src, a, ctx)
            if tk is None:
                return None
            wrong = {x for x in tk if x.kind not in "Ln?"}
            if wrong:
                self.bad(n, "a value that is not a list is taken apart (%s)" % kinds(wrong), ctx)
            if any(x.kind == "?" for x in tk):
                return None
            out = set()
            for x in tk:
                if x.kind == "L":
                    for s0 in x.lang[1]:
                        out |= self.net.tokens(s0, x.lang[2])[0]
            self.fresh_only(n, out, ctx)
            return frozenset(out)
        ck = ctx.key(strip(src, explicit=True))
        c = self.get(a, ck) if ck is not None else None
        if c is not None and c[0] == "c":
            out = frozenset(o[0] for o in c[2] if o != END)
            self.fresh_only(n, out, ctx)
            return out
        if c is not None and c[0] == "v":
            return c[1]
        return None

    def loop_source(self, i, ctx):
        for x in [i] + list(i.walk()):
            if x.k == "CXXOperatorCallExpr" and x.op == "*" and len(x.ch) > 1:
                return self.range_expr(x.ch[1], ctx)
        return None

    def range_of(self, n, ctx):
        s = self.range_expr(n, ctx)
        return ctx.key(s) if s is not None else None

    def range_expr(self, n, ctx):
        """The consumer or container an iterator runs over."""
        n = strip(n, explicit=True)
        if n is None or n.k != "DeclRefExpr":
            return None
        v = ctx.fn.vars().get(n.did)
        if v is None or not v.get("init"):
            return None
        for x in ctx.fn.nodes[v["init"]].walk():
            if x.k == "DeclRefExpr" and x.dk in ("local", "parm") and x.did != n.did:
                w = ctx.fn.vars().get(x.did)
                if w is not None and w["name"].startswith("__range") and w.get("init"):
                    return strip(ctx.fn.nodes[w["init"]], explicit=True)
                return x
            if x.k == "MemberExpr" and x.dk == "field":
                return x
        return None

    def advance(self, c, tag):
        nodes = {o[1] for o in c[2] if o != END and (tag is None or o[0].tag == tag)}
        return self.net.next(nodes, c[1]) if nodes else frozenset()

    def consumer_call(self, n, nm, o, args, a, ctx):
        ck = self.consumer_key(o, ctx)
        c = self.get(a, ck) if ck is not None else None
        args = [x for x in args if x is not None and x.k != "CXXDefaultArgExpr"]
        tag = self.const_tag(args[0], ctx) if args else None
        asked = bool(args)
        if nm in ("consume", "optional_consume", "finish"):
            e = self.rec.setdefault((ctx.fn.usr, n.id, nm), [n, set(), False])
            if c is None:
                e[2] = True
            else:
                e[1] |= {x if x == END else x[0] for x in c[2]}
        if c is None:
            return None
        opts = c[2]
        if nm == "consume":
            if not opts:
                return []            # cannot be reached with these values
            if END in opts:
                self.bad(n, "a value is taken although all may have been taken already", ctx)
            if asked and tag is not None:
                wrong = {x[0] for x in opts if x != END and x[0].tag != tag}
                if wrong:
                    self.bad(n, "a value with one tag is asked for where the next may have another (%s)" % kinds(wrong), ctx)
            toks = frozenset(x[0] for x in opts if x != END and (tag is None or x[0].tag == tag))
            if not toks:
                return []
            self.fresh_only(n, toks, ctx)
            a = self.put(a, ("n", ctx.cid, n.id), ("v", toks))
            return [self.put(a, ck, ("c", c[1], self.advance(c, tag)))]
        if nm == "optional_consume":
            toks = frozenset(x[0] for x in opts if x != END and (tag is None or x[0].tag == tag))
            rest = frozenset(x for x in opts if x == END or asked and (tag is None or x[0].tag != tag))
            if not toks and not rest:
                return []
            self.fresh_only(n, toks, ctx)
            a = self.put(a, ("n", ctx.cid, n.id), ("v", toks | (frozenset([NIL]) if rest else frozenset())))
            return [self.put(a, ck, ("c", c[1], rest | (self.advance(c, tag) if toks else frozenset())))]
        if nm == "finish":
            left = {x[0] for x in opts if x != END}
            if left:
                self.bad(n, "values may be left (%s)" % kinds(left), ctx)
            if END not in opts:
                return []
            return [self.put(a, ck, ("c", c[1], frozenset([END])))]
        return None

    def fresh_only(self, n, toks, ctx):
        old = {t for t in toks if t.stale}
        if old:
            self.bad(n, "a value stored by an alternative that failed is taken (%s)" % kinds(old), ctx)

    def const_tag(self, x, ctx):
        x = strip(x, explicit=True)
        if x is None:
            return None
        if x.dk == "enum":
            return x.val
        if x.cv is not None:
            return x.cv
        if x.k == "IntegerLiteral":
            return x.val
        if x.k == "DeclRefExpr" and x.dk == "parm" and ctx.up is not None and ctx.call is not None:
            _, args = call_args(ctx.call)
            for i, p in enumerate(ctx.fn.params):
                if p["did"] == x.did and i < len(args):
                    return self.const_tag(args[i], ctx.up)
        return None

    # -- calls
    def enter(self, call, t, args, a, ctx, cctx):
        for p, x in zip(t.params, args):
            if x is None:
                continue
            key = cctx.var_key(p["did"])
            if p["did"] in cctx.env:
                continue
            if is_value(p["t"]):
                tk = self.tokens(x, a, ctx)
                a = self.put(a, key, ("v", tk) if tk is not None else None)
            elif is_consumer(p["t"]):
                c = None
                for y in [x] + list(x.walk()):
                    c = c or self.get(a, ("n", ctx.cid, y.id))
                a = self.put(a, key, c)
        # what the caller remembers about its own expressions is kept
        return a

    def after_call(self, call, t, a, ret, ctx):
        r = self.get(a, "ret")
        a = self.put(a, "ret", None)
        cid = t.usr or t.q
        pre = "%s:" % t.tu
        mine = {"%s:%s#%s" % (t.tu, v["name"], did) for did, v in t.vars().items()}
        a = frozenset((k, v) for k, v in a if not (isinstance(k, tuple) and k[1] == cid) and k not in mine)
        if r is not None:
            a = self.put(a, ("n", ctx.cid, call.id), r)
        return a

    def dtor(self, e, a, ctx, st):
        # the functions that release the values may drop them (conditional
        # text that is not wanted); a handler of one element takes them all
        v = ctx.fn.vars().get(e["dtor"])
        if v is None or not ctx.depth or not is_consumer(v.get("t")):
            return None
        c = self.get(a, ctx.var_key(v["did"]))
        left = {x[0] for x in c[2] if x != END} if c is not None else ()
        if left:
            n = ctx.fn.nodes.get(v.get("init")) or (ctx.fn.body if hasattr(ctx.fn, "body") else None)
            if n is not None:
                self.bad(n, "values are never taken (%s)" % kinds(left), ctx)
        return None

    @staticmethod
    def sig(auto):
        return frozenset((k, v if v[0] != "v" else "v") for k, v in auto)

    def merge(self, states):
        groups = {}
        for x in states:
            g = (self.sig(x[0]), frozenset(x[1].items()), x[2], x[3].id if x[3] is not None else None)
            if g in groups:
                d = dict(groups[g][0])
                groups[g] = (frozenset((k, ("v", v[1] | d[k][1]) if v[0] == "v" else v) for k, v in x[0]),) + tuple(x[1:])
            else:
                groups[g] = x
        return list(groups.values())

    def join(self, table, block, auto):
        sig = self.sig(auto)
        old = table.get((block, sig))
        if old is None:
            table[(block, sig)] = auto
            return auto
        d = dict(old)
        new = frozenset((k, ("v", v[1] | d[k][1]) if v[0] == "v" else v) for k, v in auto)
        table[(block, sig)] = new
        return new

    # -- tests
    def edge(self, cond, truth, a, ctx, st):
        n = strip(cond, explicit=True)
        while n is not None and n.k == "UnaryOperator" and n.op == "!":
            n, truth = strip(n.ch[0], explicit=True), not truth
        if n is None:
            return None
        v = self.truth(n, a, ctx)
        if v is not None and v != truth:
            return []
        v = version_test(n, self.sh.v)
        if v is not None:
            return None if v == truth else []
        if n.k == "DeclRefExpr" and n.dk == "local":
            r = self.get(a, ctx.var_key(n.did))
            if r is not None and r[0] == "b":
                return None if r[1] == truth else []
        if n.k == "BinaryOperator" and n.op in SWAP:
            for x, y, op in ((n.ch[0], n.ch[1], n.op), (n.ch[1], n.ch[0], SWAP[n.op])):
                s, c = strip(x, explicit=True), strip(y, explicit=True)
                if s is None or c is None or s.k != "DeclRefExpr" or c.k != "IntegerLiteral":
                    continue
                r = self.get(a, ctx.var_key(s.did))
                if r is None or r[0] != "#":
                    continue
                poss = {cmp(op, z, c.val) for z in ([r[1]] if r[1] < 2 else range(2, max(4, c.val + 3)))}
                return None if truth in poss else []
        if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.op in ("==", "!="):
            x, y = (n.ch[0], n.ch[1]) if n.k == "BinaryOperator" else (n.ch[1], n.ch[2])
            for p, q in ((x, y), (y, x)):
                t = self.const_tag(q, ctx)
                vk = self.tag_source(p, a, ctx)
                if t is not None and vk is not None:
                    return self.keep(a, vk, lambda k: (k.tag == t) == (truth == (n.op == "==")))
            if n.k == "CXXOperatorCallExpr" and "value_consumer::iterator" in (x.type or ""):
                ck = self.range_of(x, ctx)
                c = self.get(a, ck) if ck else None
                if c is not None and c[0] == "c":
                    more = truth == (n.op == "!=")
                    o = frozenset(z for z in c[2] if (z != END) == more)
                    return [self.put(a, ck, ("c", c[1], o))] if o else []
            return None
        if not is_call(n):
            return None
        cal, nm = n.callee or "", last(n.callee or "")
        o, args = call_args(n)
        args = [z for z in args if z is not None and z.k != "CXXDefaultArgExpr"]
        if cal.startswith("quickbook::value_consumer::") and nm == "check":
            ck = self.consumer_key(o, ctx)
            c = self.get(a, ck) if ck else None
            if c is None or c[0] != "c":
                return None
            if args:
                t = self.const_tag(args[0], ctx)
                if t is None:
                    return None
                keep = frozenset(z for z in c[2] if (z != END and z[0].tag == t) == truth)
            else:
                keep = frozenset(z for z in c[2] if (z != END) == truth)
            return [self.put(a, ck, ("c", c[1], keep))] if keep else []
        if cal.startswith("quickbook::detail::value_base::"):
            s = strip(o, explicit=True) if o is not None else None
            vk = ctx.key(s) if s is not None and s.k in ("DeclRefExpr", "MemberExpr") else None
            if vk is None:
                return None
            if nm == "check":
                return self.keep(a, vk, lambda k: k.kind == "?" or (k.kind != "n") == truth)
            if nm == "empty":
                return self.keep(a, vk, lambda k: k.kind != "L" or self.may_be_empty(k)) if truth else \
                    self.keep(a, vk, lambda k: k.kind != "n")
            if nm == "is_encoded":
                return self.keep(a, vk, lambda k: k.kind == "?" or (k.kind in "mp") == truth)
            if nm == "is_list":
                return self.keep(a, vk, lambda k: k.kind == "?" or (k.kind == "L") == truth)
        return None

    def truth(self, n, a, ctx, depth=0):
        """What a condition comes to, where the state settles it."""
        n = strip(n, explicit=True)
        if n is None or depth > 12:
            return None
        if n.k == "UnaryOperator" and n.op == "!":
            v = self.truth(n.ch[0], a, ctx, depth + 1)
            return None if v is None else not v
        if n.k == "BinaryOperator" and n.op in ("||", "&&"):
            x, y = (self.truth(c, a, ctx, depth + 1) for c in n.ch[:2])
            if n.op == "||":
                return True if x or y else False if x is False and y is False else None
            return False if x is False or y is False else True if x and y else None
        if not is_call(n):
            return None
        if last(n.callee or "") == "__builtin_expect":
            return self.truth(call_args(n)[1][0], a, ctx, depth + 1)
        if not (n.callee or "").startswith("quickbook::value_consumer::") or last(n.callee) != "check":
            return None
        o, args = call_args(n)
        args = [z for z in args if z is not None and z.k != "CXXDefaultArgExpr"]
        ck = self.consumer_key(o, ctx)
        c = self.get(a, ck) if ck is not None else None
        if c is None or c[0] != "c":
            return None
        if args:
            t = self.const_tag(args[0], ctx)
            if t is None:
                return None
            r = {z != END and z[0].tag == t for z in c[2]}
        else:
            r = {z != END for z in c[2]}
        return r.pop() if len(r) == 1 else None

    def may_be_empty(self, k):
        return END in self.open(k)

    def keep(self, a, vk, pred):
        r = self.get(a, vk)
        if r is None or r[0] != "v":
            return None
        ks = frozenset(k for k in r[1] if pred(k))
        return [self.put(a, vk, ("v", ks))] if ks else []

    def tag_source(self, p, a, ctx):
        p = strip(p, explicit=True)
        if p is None:
            return None
        if is_call(p) and last(p.callee or "") == "get_tag":
            o, _ = call_args(p)
            s = strip(o, explicit=True)
            return ctx.key(s) if s is not None else None
        if p.k == "DeclRefExpr":
            r = self.get(a, ctx.var_key(p.did))
            if r is not None and r[0] == "t":
                return r[1]
        return None

    def case_edge(self, sw, label, a, ctx, st):
        p = None
        for x in sw.ch:
            if x is not None and x.k not in ("CompoundStmt", "DeclStmt"):
                p = x
                break
        vk = self.tag_source(p, a, ctx) if p is not None else None
        if vk is None:
            return None
        if label is not None and label.k == "CaseStmt":
            t = label.val
            return self.keep(a, vk, lambda k: k.tag == t)
        vals = {x.val for x in sw.walk() if x.k == "CaseStmt"}
        return self.keep(a, vk, lambda k: k.tag not in vals)


SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def cmp(op, x, y):
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]


# which kinds support which accessor
ACCESS = {"get_quickbook": "qmp", "get_encoded": "mpi", "get_int": "i", "get_file": "qmp", "get_position": "qmp"}
NAMES = {"q": "source text", "m": "converted text", "p": "converted plain text", "i": "a number", "L": "a list", "n": "no value",
         "?": "an unknown value"}


def kinds(ts):
    return ", ".join(sorted({"%s%s" % (NAMES[t.kind], " (tag %s)" % t.tag if t.tag else "") for t in ts if t != END}))[:160]


def version_test(n, v):
    """Value of a comparison of the language version with a constant."""
    if n.k != "BinaryOperator" or n.op not in ("<", "<=", ">", ">=", "==", "!="):
        return None
    ops = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y,
           ">=": lambda x, y: x >= y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y}
    xs = [strip(c, explicit=True) for c in n.ch]
    vals = []
    for x in xs:
        if x is None:
            return None
        if x.k == "DeclRefExpr" and (x.q or "").endswith("qbk_version_n"):
            vals.append(v)
        else:
            c = x.cv if x.cv is not None else x.val if x.k == "IntegerLiteral" else None
            if c is None:
                return None
            vals.append(c)
    if not any(x.k == "DeclRefExpr" and (x.q or "").endswith("qbk_version_n") for x in xs):
        return None
    return ops[n.op](*vals)


def analyse(model):
    """Run everything; returns (findings, record, statistics)."""
    c = model.__dict__.setdefault("_p23", None)
    if c is not None:
        return c
    gr = grammar.load(model)
    bads, rec = {}, {}
    stats = {"versions": list(VERSIONS), "scopes": 0, "seeds": 0, "handlers": set(), "states": 0}
    recv = {}
    for v in VERSIONS:
        sh = Shapes(model, gr, v).build()
        stats["scopes"] += sh.nscopes
        stats["states"] += len(sh.net.out)
        # values left when a start rule ends are released by the caller
        extra = {}
        for (k, key), val in [(kk, vv) for kk, vv in sh.langs.items() if kk[0] == "start"]:
            m, f, s = val
            for fn, usr in start_consumers(model, gr, sh, key):
                extra.setdefault(usr, set()).update(m)
                extra[usr].update(f)
        for usr, ps in list(sh.seeds.items()) + list(extra.items()):
            fn = model.by_usr(usr)
            starts_ = {}
            for s, n in ps:
                starts_.setdefault(s, set()).add(n)
            seen = set()
            for s, ns in sorted(starts_.items()):
                cn = sh.net.canonical(s, ns)
                if cn in seen:
                    continue
                seen.add(cn)
                r = Take(model, sh, {})
                r.seed = Tok(("L", 0, ("lang", frozenset([s]), frozenset(ns)), False))
                Engine(r, model).run(fn, frozenset())
                stats["seeds"] += 1
                stats["handlers"].add(fn.short())
                for k, msg in r.bads.items():
                    bads.setdefault(k, (v, msg))
                for k, (n, toks, unk) in r.rec.items():
                    e = rec.setdefault(k, [n, set(), False, set()])
                    e[1] |= toks
                    e[2] = e[2] or unk
                    e[3].add(v)
    model.__dict__["_p23"] = (bads, rec, stats)
    return model.__dict__["_p23"]


def start_consumers(model, gr, sh, key):
    """Functions that take the values after parsing with this start rule."""
    out = []
    if not key.endswith("doc_info_details"):
        return out
    for f in model.fns():
        if f.cfg is not None and releases(model, f) and not any(u == f.usr for u in sh.seeds):
            out.append((f, f.usr))
    return out


def run(model, rep):
    rep.rule("for all value sequences the grammar can produce (each language version, with what failed alternatives leave "
                "behind): a consume has a value with the tag it asks for, a finish finds none left, and an accessor is applied to "
                "a kind of value that has it")
    bads, rec, stats = analyse(model)
    for (where, msg), (v, chain) in sorted(bads.items()):
        fn = chain.split(" <- ")[0]
        rep.bad("values match", "%s: %s" % (fn, msg.split(" (")[0]), where,
                "%s (language version %.1f; %s)" % (msg, v / 100.0, chain))
    unk, takes = [], 0
    for (usr, nid, nm), e in sorted(rec.items(), key=lambda x: (x[1][0].where(), x[0][2])):
        if e[2] and not e[1]:
            unk.append("%s %s" % (e[0].where(), nm))
            continue
        rep.ok("values match", "%s %s" % (nm, e[0].where()))
        takes += nm in ("consume", "optional_consume", "finish")
    rep.expect(takes >= 60, "only %d places that take values were reached" % takes)
    rep.expect(len(stats["handlers"]) >= 4, "only %d functions that take over the stored values were found" % len(stats["handlers"]))
    rep.at_least("values match", 130)
    rep.extra.update({"sites reached only with values of templates or macros (not judged)": unk, "handlers": sorted(stats["handlers"]),
                      "value scopes composed": stats["scopes"], "distinct value languages run": stats["seeds"],
                      "automaton nodes": stats["states"], "language versions": stats["versions"]})
