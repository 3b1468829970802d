"""Reads the Spirit grammars out of the type-checked program.

Every parser expression (an expression whose type derives from a Spirit parser,
whatever function or header it is built in) is turned into a small parsing
expression tree; rules are identified by the member or variable they are stored
in, so it does not matter where or in which order they are defined."""
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import last, call_args, call_object

SP = "boost::spirit::classic::"


class G:
    __slots__ = ("k", "ch", "v", "n")

    def __init__(self, k, ch=(), v=None, n=None):
        self.k, self.ch, self.v, self.n = k, tuple(ch), v, n

    def walk(self):
        yield self
        for c in self.ch:
            for x in c.walk():
                yield x

    def where(self):
        return self.n.where() if self.n is not None else "?"

    def __repr__(self):
        a = []
        if self.v is not None and not hasattr(self.v, "id"):
            a.append(repr(self.v))
        a += [repr(c) for c in self.ch]
        return "%s(%s)" % (self.k, ", ".join(a))


CLASSES = {"anychar_p", "alnum_p", "alpha_p", "blank_p", "space_p", "punct_p", "graph_p",
           "digit_p", "xdigit_p", "print_p", "lower_p", "upper_p", "cntrl_p"}


def tbase(t):
    t = (t or "").replace("const ", "").strip()
    return t.split("<")[0].rstrip("&* ")


def is_parser_type(t):
    b = tbase(t)
    if b.startswith(SP):
        return last(b) in PARSER_TYPES
    return False


PARSER_TYPES = {"rule", "sequence", "alternative", "kleene_star", "positive", "optional", "difference",
                "intersection", "action", "chlit", "strlit", "chset", "symbols", "empty_match_parser",
                "negated_empty_match_parser", "negated_char_parser", "condition_parser", "epsilon_parser",
                "anychar_parser", "alnum_parser", "alpha_parser", "blank_parser", "space_parser", "punct_parser",
                "graph_parser", "eol_parser", "end_parser", "confix_parser", "contiguous", "inhibit_case",
                "fixed_loop", "finite_loop", "infinite_loop", "lazy_parser", "init_closure_parser",
                "functor_parser", "uint_parser", "int_parser", "real_parser", "range", "parser", "if_parser",
                "if_else_parser", "while_parser", "sequential_or", "exclusive_or", "nothing_parser", "digit_parser",
                "xdigit_parser", "print_parser", "refactor_action_parser", "chseq"}


class Grammars:
    def __init__(self, model):
        self.model = model
        self.rules = {}          # key -> list of (G, fn, node)
        self.exprs = []          # (G, fn) parser expressions not assigned to a rule
        self.symbols = {}        # key -> list of (name or None, value node, node, fn)
        self.custom = {}         # custom parser class -> G kind
        self._locals = {}
        self._collect()

    # -- semantic actions ------------------------------------------------------
    def action_fns(self, v, f):
        """Functions a semantic action expression runs (function objects: their
        call operators; member_action and the like: the member given)."""
        out = []
        seen = set()
        st = [v]
        while st:
            e = st.pop()
            if e is None or e.id in seen:
                continue
            seen.add(e.id)
            for x in e.walk():
                if x.k == "DeclRefExpr" and x.dk == "func":
                    t = self.model.functions.get(x.usr)
                    if t is not None:
                        out.append(t)
                elif x.k == "DeclRefExpr" and x.dk in ("local",):
                    d = f.vars().get(x.did)
                    if d is not None and d.get("init"):
                        st.append(f.nodes.get(d["init"]))
        return out

    # -- keys ---------------------------------------------------------------
    def key(self, n):
        n = strip(n, explicit=True)
        if n is None:
            return None
        if n.k == "MemberExpr":
            return n.q
        if n.k == "DeclRefExpr":
            if n.dk in ("local", "parm"):
                return "%s:%s#%s" % (n.f.tu if hasattr(n.f, "tu") else "", n.name, n.did)
            return n.q
        if n.k == "UnaryOperator" and n.op in ("*", "&"):
            return self.key(n.ch[0])
        return None

    def _collect(self):
        done = set()
        for f in self.model.fns():
            if f.name == "operator[]" or "scoped_parser" in f.q:
                pass
            for n in f.nodes.values():
                if n.k == "CXXOperatorCallExpr" and n.op == "=" and tbase(n.rt) == SP + "rule":
                    k = self.key(n.ch[1])
                    rhs = n.ch[2]
                    r = strip(rhs)
                    if k is None:
                        continue
                    g = self.build(rhs, f)
                    if (g is None or g.k == "unknown") and tbase(r.type) == SP + "rule":
                        g = G("lazy", (), rhs, n)
                    if g is None:
                        raise Broken("cannot read the definition of rule %s at %s" % (k, n.where()))
                    if (k, n.where()) in done:
                        continue
                    done.add((k, n.where()))
                    self.rules.setdefault(k, []).append((g, f, n))
                elif n.k in CONSTRUCTS and tbase(n.cls) == SP + "rule" and not n.copy and n.kids():
                    p = n.parent
                    # rule x = expr;
                    while p is not None and p.k != "DeclStmt" and p.k in ("ExprWithCleanups", "MaterializeTemporaryExpr", "ImplicitCastExpr", "CXXBindTemporaryExpr"):
                        p = p.parent
                    if p is not None and p.k == "DeclStmt":
                        for v in p.d.get("vars", ()):
                            if v.get("init") and strip(f.nodes.get(v["init"])) is n:
                                g = self.build(n.kids()[0], f)
                                if g is not None:
                                    self.rules.setdefault("%s:%s#%s" % (f.tu, v["name"], v["did"]), []).append((g, f, n))
                elif is_call(n) and n.callee and n.callee.startswith(SP) and last(n.callee) == "parse" and tbase(n.rt) == SP + "parse_info":
                    for a in n.ch[1:]:
                        if a is None:
                            continue
                        g = self.build(a, f)
                        if g is not None and g.k != "unknown":
                            self.exprs.append((g, f, n))
                self._symbols(n, f)

    def _symbols(self, n, f):
        # sym.add("x", v)("y", w)   /  sym = "a", "b"   / sym.add(begin, end, v)
        if n.k == "CXXOperatorCallExpr" and n.op in ("()", ",") and "symbol_inserter" in (n.callee or "") or \
                n.k == "CXXOperatorCallExpr" and n.op == "=" and tbase(n.rt) in (SP + "symbol_inserter",) and "symbols" in (n.callee or ""):
            args = list(n.ch[1:])
            root = args[0]
            hops = 0
            while root is not None and hops < 400:
                hops += 1
                r = strip(root, explicit=True)
                if r is None:
                    break
                if r.k == "CXXOperatorCallExpr" and r.op in ("()", ",", "="):
                    root = r.ch[1]
                    continue
                if r.k == "MemberExpr" and r.name == "add" and tbase(r.type) == SP + "symbol_inserter":
                    root = r.ch[0]
                    continue
                break
            k = self.key(root)
            s = strip(args[1], explicit=True) if len(args) > 1 else None
            name = s.str if s is not None and s.k == "StringLiteral" else None
            val = args[2] if len(args) > 2 else None
            if k is not None:
                self.symbols.setdefault(k, []).append((name, val, n, f, args[1] if len(args) > 1 else None))

    # -- expressions ----------------------------------------------------------
    def build(self, n0, f, env=None, depth=0):
        n = strip(n0)
        if n is None or depth > 30:
            return None
        if n.k in ("CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXConstCastExpr"):
            return self.build(n.ch[-1], f, env, depth)
        if n.k == "StringLiteral":
            return G("str", (), n.str, n)
        if n.k == "CharacterLiteral" or (n.k == "IntegerLiteral" and n.type == "char"):
            return G("str", (), chr(n.val & 255), n)
        if n.k in ("DeclRefExpr", "MemberExpr"):
            nm = n.name
            if n.dk == "global" and (n.q or "").startswith(SP):
                if nm == "eps_p" or nm == "epsilon_p":
                    return G("eps", (), None, n)
                if nm == "end_p":
                    return G("end", (), None, n)
                if nm == "eol_p":
                    return G("eol", (), None, n)
                if nm == "nothing_p":
                    return G("fail", (), None, n)
                if nm in CLASSES:
                    return G("class", (), nm, n)
                if nm.endswith("_p"):
                    return G("num", (), nm, n)
            if env and n.k == "DeclRefExpr" and n.did in env:
                return env[n.did]
            t = tbase(n.type)
            if t == SP + "rule":
                return G("rule", (), self.key(n), n)
            if t == SP + "symbols":
                return G("sym", (), self.key(n), n)
            if t == SP + "functor_parser":
                return G("sym", (), self.key(n), n)
            if t in (SP + "uint_parser", SP + "int_parser", SP + "real_parser"):
                return G("num", (), nm, n)
            if t.startswith("quickbook::") or is_parser_type(n.type):
                if n.k == "DeclRefExpr" and n.dk == "local":
                    v = f.vars().get(n.did)
                    if v is not None and v.get("init") and is_parser_type(n.type):
                        g = self.build(f.nodes.get(v["init"]), f, env, depth + 1)
                        if g is not None:
                            return g
                c = self.custom_kind(n.type)
                if c is not None:
                    return G(c, (), None, n)
                gr = self.grammar_start(n.type)
                if gr is not None:
                    return gr
            return G("unknown", (), n.type, n)
        if n.k in CONSTRUCTS:
            t = tbase(n.cls)
            kids = [c for c in n.kids() if c.k != "CXXDefaultArgExpr"]
            if t == SP + "chset":
                s = strip(kids[0]) if kids else None
                return G("set", (), s.str if s is not None and s.k == "StringLiteral" else None, n)
            if t in (SP + "uint_parser", SP + "int_parser", SP + "real_parser"):
                return G("num", (), last(t), n)
            if t == SP + "chlit":
                return self.chlit(kids[0], n)
            if t == SP + "strlit" and kids:
                s = strip(kids[0], explicit=True)
                return G("str", (), s.str if s.k == "StringLiteral" else None, n)
            if t == SP + "rule" and kids:
                return self.build(kids[0], f, env, depth + 1)
            if is_parser_type(n.cls) and len(kids) == 1:
                return self.build(kids[0], f, env, depth + 1)
            c = self.custom_kind(n.cls)
            if c is not None:
                return G(c, (), None, n)
            gr = self.grammar_start(n.cls)
            if gr is not None:
                return gr
            return None
        if n.k == "ConditionalOperator":
            a, b = self.build(n.ch[1], f, env, depth + 1), self.build(n.ch[2], f, env, depth + 1)
            if a is None or b is None:
                return None
            return G("alt", (a, b), None, n)
        if not is_call(n):
            return None
        callee = n.callee or ""
        lst = last(callee)
        if n.k == "CXXOperatorCallExpr":
            a = n.ch[1:]
            op = n.op
            rt = tbase(n.rt)
            if op == "()":
                ot = tbase(strip(a[0]).type if strip(a[0]) is not None else "")
                if last(ot) == "epsilon_parser":
                    if rt == SP + "condition_parser":
                        return G("cond", (), n, n)
                    g = self.build(a[1], f, env, depth + 1)
                    return G("and", (g or G("unknown", n=n),), None, n)
                if last(ot) == "confix_parser_gen":
                    gs = [self.build(x, f, env, depth + 1) for x in a[1:]]
                    if any(g is None for g in gs) or len(gs) != 3:
                        return None
                    return self.confix(gs, n)
                if rt == "quickbook::scoped_parser_gen":
                    return None
                if rt == SP + "init_closure_parser":
                    return self.build(a[0], f, env, depth + 1)
                if ot in (SP + "uint_parser",):
                    return G("num", (), "uint", n)
            if op == "[]":
                ob = strip(a[0])
                ot = tbase(ob.type)
                lot = last(ot)
                if rt == SP + "action":
                    g = self.build(a[0], f, env, depth + 1)
                    return None if g is None else G("act", (g,), a[1], n)
                body = self.build(a[1], f, env, depth + 1)
                if body is None:
                    return None
                if lot == "fixed_loop_gen":
                    cnt = None
                    c = strip(ob.ch[1]) if ob.k == "CallExpr" and len(ob.ch) > 1 else None
                    if c is not None:
                        cnt = c.cv if c.cv is not None else c.val
                    return G("repeat", (body,), (cnt, cnt), n)
                if lot in ("finite_loop_gen", "infinite_loop_gen", "nofix"):
                    c = strip(ob.ch[1])
                    lo = c.cv if c.cv is not None else c.val
                    return G("repeat", (body,), (lo, None), n)
                if lot == "inhibit_case_parser_gen" or lot == "inhibit_case_parser_gen_base":
                    return G("nocase", (body,), None, n)
                if lot in ("lexeme_parser_gen",):
                    return G("lexeme", (body,), None, n)
                if lot == "lookback_gen":
                    return G("look", (body,), None, n)
                if ot == "quickbook::scoped_parser_gen":
                    impl = None
                    t = ob.type
                    i = t.find("<")
                    impl = tbase_first(t[i + 1:])
                    if impl == "..." or not impl:
                        m = ob.callee or ""
                        i = m.find("<")
                        impl = tbase_first(m[i + 1:])
                    return G("scoped", (body,), (impl, ob), n)
                c = self.directive_kind(ot)
                return G(c or "directive", (body,), ot, n)
            if op in (">>", "|", "-", "&", "||", "^", "%") and len(a) == 2:
                x, y = self.build(a[0], f, env, depth + 1), self.build(a[1], f, env, depth + 1)
                if x is None or y is None:
                    return None
                k = {">>": "seq", "|": "alt", "-": "diff", "&": "isect", "||": "seqor", "^": "xor", "%": "listp"}[op]
                ch = (x, y)
                if k in ("seq", "alt"):
                    # flatten the left spine (only through unparenthesised syntax it makes no difference)
                    ch = (x.ch if x.k == k else (x,)) + (y.ch if y.k == k else (y,))
                return G(k, ch, None, n)
            if op in ("*", "+", "!", "~") and len(a) == 1:
                if tbase(n.rt).startswith("quickbook::"):
                    c = self.custom_kind(n.rt)
                    return G(c or "unknown", (), None, n)
                x = self.build(a[0], f, env, depth + 1)
                if op == "*" and (x is None or x.k == "unknown"):
                    # dereferenced pointer to a rule
                    if tbase(n.rt).endswith("rule"):
                        return G("lazy", (), a[0], n)
                if x is None:
                    return None
                if op == "~":
                    if x.k == "and":
                        return G("not", x.ch, None, n)
                    if x.k == "not":
                        return G("and", x.ch, None, n)
                    if x.k == "cond":
                        return G("cond", (), None, n)
                    return G("negch", (x,), None, n)
                return G({"*": "star", "+": "plus", "!": "opt"}[op], (x,), None, n)
            return None
        if callee.startswith(SP):
            a = list(n.ch[1:])
            if lst == "ch_p":
                return self.chlit(a[0], n)
            if lst == "str_p":
                s = strip(a[0], explicit=True)
                if s.k == "StringLiteral":
                    return G("str", (), s.str, n)
                if s.k == "CharacterLiteral":
                    return G("str", (), chr(s.val & 255), n)
                return G("dynstr", (), None, n)
            if lst == "chset_p":
                s = strip(a[0], explicit=True)
                return G("set", (), s.str if s.k == "StringLiteral" else None, n)
            if lst == "range_p":
                return G("set", (), None, n)
            if lst == "lazy_p":
                return G("lazy", (), a[0], n)
            if lst == "f_chlit" or lst == "f_strlit":
                return G("dynstr", (), None, n)
        # a repository function returning a parser: read its body
        for t in self.model.targets(n):
            if is_parser_type(n.rt) or (n.rt or "").startswith(SP):
                env2 = {}
                obj, args = call_args(n)
                for p, arg in zip(t.params, args):
                    if arg is not None:
                        g = self.build(arg, f, env, depth + 1)
                        if g is not None:
                            env2[p["did"]] = g
                for m in t.nodes.values():
                    if m.k == "ReturnStmt" and m.ch:
                        return self.build(m.ch[0], t, env2, depth + 1)
        if tbase(n.rt) == "quickbook::quickbook_range":
            # version test: arguments are constants
            args = list(n.ch[1:])
            vals = []
            for a in args:
                s = strip(a, explicit=True)
                if s is not None and a.k == "CXXDefaultArgExpr":
                    vals.append(a.cv if a.cv is not None else 999)
                else:
                    vals.append(a.cv if a.cv is not None else (s.cv if s.cv is not None else s.val))
            while len(vals) < 2:
                vals.append(999)
            return G("ver", (), tuple(vals), n)
        c = self.custom_kind(n.rt or "")
        if c is not None:
            return G(c, (), None, n)
        if is_parser_type(n.rt):
            return G("unknown", (), n.rt, n)
        return None

    def chlit(self, a, n):
        s = strip(a, explicit=True)
        v = None
        if s is not None:
            v = s.cv if s.cv is not None else s.val if s.k in ("CharacterLiteral", "IntegerLiteral") else None
        if v is not None:
            return G("str", (), chr(v & 255), n)
        return G("dynch", (), s, n)

    def confix(self, gs, n):
        op, body, cl = gs
        # confix_p(open, body, close): open >> (body refactored with - close) >> close
        return G("seq", (op, G("confixbody", (body, cl), None, n), cl), "confix", n)

    def grammar_start(self, t):
        """cl::grammar<> object: the rule its definition starts with."""
        b = (t or "").replace("const ", "").rstrip("& ")
        return G("rule", (), "start:" + tbase(b), None) if self.start_rule(tbase(b)) else None

    def start_rule(self, cls):
        for f in self.model.fns():
            if f.name == "start" and f.q.startswith(cls + "::definition"):
                for m in f.nodes.values():
                    if m.k == "ReturnStmt" and m.ch:
                        return self.key(m.ch[0])
        return None

    def directive_kind(self, ot):
        return None

    def custom_kind(self, t):
        """Classify a parser class written in the repository from its parse
        function: 'guard' (never consumes), 'consume' (consumes when it
        matches)."""
        b = tbase(t)
        if not b.startswith("quickbook::"):
            return None
        if b in self.custom:
            return self.custom[b]
        self.custom[b] = None
        fs = [f for f in self.model.fns() if f.name == "parse" and f.cls == b]
        if not fs:
            return None
        kinds = set()
        for f in fs:
            k = "guard"
            for n in f.nodes.values():
                if n.callee and last(n.callee) in ("create_match",):
                    k = "consume" if self.advances_before(f, n) else "maybe"
            kinds.add(k)
        self.custom[b] = kinds.pop() if len(kinds) == 1 else "maybe"
        return self.custom[b]

    def advances_before(self, f, node):
        """Is every path to node preceded by an increment of the scanner?"""
        def inc(e):
            return isinstance(e, dict) is False and ((e.k == "CXXOperatorCallExpr" or e.k == "UnaryOperator") and e.op in ("++", "p++"))
        cfg = f.cfg
        seen = set()
        st = [cfg.entry]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            blk = cfg.blocks[b]
            stop = False
            for e in blk.elems:
                if e is node:
                    return False
                if inc(e):
                    stop = True
                    break
            if not stop:
                for s in blk.succs:
                    if s is not None:
                        st.append(s)
        return True


def tbase_first(s):
    """First template argument in s."""
    d = 0
    for i, c in enumerate(s):
        if c == "<":
            d += 1
        elif c == ">":
            if d == 0:
                return s[:i].strip()
            d -= 1
        elif c == "," and d == 0:
            return s[:i].strip()
    return s.strip()


def load(model):
    g = getattr(model, "_grammars", None)
    if g is None:
        g = model._grammars = Grammars(model)
    return g
