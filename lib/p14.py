"""P14: text inside a false conditional has no effect.

Two rules.  (1) Suspend: the scoped action that sets the conditional flag keeps
it false once false, makes it false exactly when the tested macro's presence is
not what was asked for, diverts the output before the content is parsed when it
makes it false, and throws the diverted output away afterwards.  (2) Effects:
from every semantic action that the grammar can run inside a conditional
phrase, with the flag false, no path reaches something whose effect outlives
the phrase."""
from . import flow, grammar, p05
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args, call_object, NON_MUTATING

FLAG = "quickbook::state::conditional"

# services of the document: what they do stays when the phrase is thrown away
SERVICES = {"quickbook::document_state": "identifiers and sections",
            "quickbook::template_stack": "templates",
            "quickbook::dependency_tracker": "dependencies"}
# parts of the state that stay when the phrase is thrown away
FIELDS = {"macro": "macros", "templates": "templates", "anchors": "anchors", "error_count": "error count",
          "callouts": "callouts", "callout_depth": "callouts", "dependencies": "dependencies",
          "imported": "imported", "source_mode": "source mode", "source_mode_next": "next source mode",
          "current_file": "current file", "current_path": "current path", "xinclude_base": "xinclude base",
          "min_section_level": "section level", "strict_mode": "strict mode"}

# empty while the flag is false (put aside by the action that clears it), so
# dropping or exchanging them does nothing; adding does
SET_ASIDE = ("anchors",)


def bare(t):
    return (t or "").replace("const ", "").replace("volatile ", "").rstrip("&* ").strip()


def is_flag(n):
    n = strip(n, explicit=True)
    return n is not None and n.k == "MemberExpr" and n.q == FLAG


def flag_truth(fn, n, depth=0):
    """True/False when n means the flag / its negation."""
    n = strip(n, explicit=True)
    if n is None or depth > 6:
        return None
    if is_flag(n):
        return True
    if n.k == "UnaryOperator" and n.op == "!":
        v = flag_truth(fn, n.ch[0], depth + 1)
        return None if v is None else not v
    if n.k == "BinaryOperator" and n.op in ("==", "!="):
        for i in (0, 1):
            v = flag_truth(fn, n.ch[i], depth + 1)
            o = strip(n.ch[1 - i], explicit=True)
            c = None if o is None else (o.cv if o.cv is not None else o.val)
            if v is not None and isinstance(c, (int, bool)):
                return v if bool(c) == (n.op == "==") else not v
    if n.k == "DeclRefExpr" and n.dk == "local" and n.did not in flow.mutated(fn):
        v = fn.vars().get(n.did)
        if v is not None and v.get("init"):
            return flag_truth(fn, fn.nodes.get(v["init"]), depth + 1)
    return None


def state_field(n):
    """Field of quickbook::state the expression is (part of)."""
    n = strip(n, explicit=True)
    hops = 0
    while n is not None and hops < 12:
        hops += 1
        if n.k == "MemberExpr" and n.dk != "func":
            if (n.q or "").startswith("quickbook::state::"):
                return n.name
            n = strip(n.ch[0], explicit=True) if n.ch else None
            continue
        if n.k == "ArraySubscriptExpr" or n.k == "UnaryOperator":
            n = strip(n.ch[0], explicit=True)
            continue
        if n.k == "CXXOperatorCallExpr" and n.op in ("[]", "*", "->", "<<"):
            n = strip(n.ch[1], explicit=True)
            continue
        if n.k == "CXXMemberCallExpr":
            n = strip(call_object(n), explicit=True)
            continue
        return None
    return None


def syntax(model, fn):
    """Reports on the text itself: the grammar's own functions and the actions
    that print a syntax error."""
    c = fn.cls or ""
    return last(c) in SYNTAX or c in grammar_classes(model)


def grammar_classes(model):
    """Classes that own grammar rules."""
    g = getattr(model, "_grammar_classes", None)
    if g is None:
        g = model._grammar_classes = {k.rsplit("::", 1)[0] for k in grammar.load(model).rules if "::" in k}
    return g


class Effects(Rule):
    """With the flag false: nothing whose effect stays."""
    fork_returns = True
    width = 10
    max_depth = 10

    def __init__(self, model, report_errors=True):
        Rule.__init__(self, model)
        self.found = {}
        self.report_errors = report_errors
        self.nchecked = 0
        self.find_interesting(lambda f: any(self.effect(n) for n in f.nodes.values()))
        self.interesting |= flow.predicates(model, is_flag)

    def may_inline(self, call, target, ctx):
        return target.usr in self.interesting and target.cls not in SERVICES

    def effect(self, n):
        if is_call(n):
            if last(n.callee or "") == "outerr" and (n.callee or "").startswith("quickbook::"):
                return "reports an error"
            obj, args = call_args(n)
            if obj is not None and not n.cm and not n.sm:
                t = bare(strip(obj).type if strip(obj) is not None else "")
                c = (n.callee or "").rsplit("::", 1)[0]
                for s, what in SERVICES.items():
                    if (t == s or c == s) and last(n.callee) not in NON_MUTATING:
                        return "changes %s (%s)" % (what, last(n.callee))
                fl = state_field(obj)
                if fl in FIELDS and last(n.callee) not in NON_MUTATING and \
                        not (fl in SET_ASIDE and last(n.callee) in ("clear", "swap")):
                    return "changes %s" % FIELDS[fl]
            elif n.k == "CXXOperatorCallExpr" and n.op in ("=", "+=", "<<", "++"):
                if n.op != "<<":
                    fl = state_field(n.ch[1])
                    if fl in FIELDS:
                        return "changes %s" % FIELDS[fl]
            for p, a in zip(n.pt or (), args):
                if a is not None and flow.nonconst_ref(p):
                    s = strip(a)
                    fl = state_field(a)
                    if fl in FIELDS and not self.model.targets(n) and s.k == "MemberExpr" and \
                            not (fl in SET_ASIDE and last(n.callee or "") in ("swap", "invoke_swap")):
                        return "changes %s" % FIELDS[fl]
        elif n.k in CONSTRUCTS:
            if "basic_ifstream" in (n.cls or "") or "basic_ofstream" in (n.cls or ""):
                return "opens a file"
        elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in flow.ASSIGN_OPS or \
                n.k == "UnaryOperator" and n.op in ("++", "--", "p++", "p--"):
            fl = state_field(n.ch[0])
            if fl in FIELDS:
                r = strip(n.ch[1], explicit=True) if len(n.ch) > 1 else None
                if fl == "source_mode_next" and n.op == "=" and r is not None and (r.cv == 0 or r.val == 0):
                    return None     # used up; it is never set in there
                return "changes %s" % FIELDS[fl]
        return None

    def step(self, n, auto, ctx, st):
        e = self.effect(n)
        if e is None:
            return None
        if e in ("reports an error", "changes error count") and any(syntax(self.model, g) for g in ctx.stack()):
            return None
        self.nchecked += 1
        self.found.setdefault((n.where(), e), ctx.chain())
        return None

    def edge(self, cond, truth, auto, ctx, st):
        v = flag_truth(ctx.fn, cond)
        if v is not None and v == truth:
            return []
        return None


def member_fns(model, cls, name):
    return [f for f in model.fns() if f.name == name and f.cls and f.cls.split("<")[0] == cls.split("<")[0]]


def inside(model, gr, null):
    """(rule keys, semantic actions as (name, function)) that can run inside
    the content of the scoped actions in `gates`."""
    gates = {f.cls for f in model.fns() if f.name == "start" and f.cls and
             any(n.k in ("BinaryOperator",) and n.op == "=" and is_flag(n.ch[0]) for n in f.nodes.values())}
    if not gates:
        # the assignment may sit in a helper of the class
        gates = {f.cls for f in model.fns() if f.cls and
                 any(n.k == "BinaryOperator" and n.op == "=" and is_flag(n.ch[0]) for n in f.nodes.values())
                 and member_fns(model, f.cls, "start")}
    work, keys, acts = [], set(), []
    for k, ds in gr.rules.items():
        for g, f, n in ds:
            for x in g.walk():
                if x.k == "scoped" and x.v[0] in gates:
                    work.append((x.ch[0], f))
    seen = set()
    while work:
        g, f = work.pop()
        for x in g.walk():
            if x.k == "act":
                acts.append((x, f))
            elif x.k == "scoped":
                acts.append((x, f))
            nxt = ()
            if x.k == "rule":
                nxt = null.defs(x.v) or ()
            elif x.k == "lazy":
                nxt = stored_rules(model, gr, null, x)
            for k in nxt:
                if k not in seen:
                    seen.add(k)
                    for g2, f2, _ in gr.rules[k]:
                        work.append((g2, f2))
    return gates, seen, acts


def stored_rules(model, gr, null, g):
    """Rules a lazy parser may run: those whose address was put in an object of
    the class the rule pointer is read from."""
    cls = None
    if g.v is not None:
        for x in g.v.walk():
            if x.k == "MemberExpr" and "rule<" in (x.type or "") and x.type.rstrip().endswith(("*", "* const")):
                cls = x.q.rsplit("::", 1)[0]
    if cls is None:
        return null.lazy()
    out = set()
    for f in model.fns():
        for n in f.nodes.values():
            if n.k in CONSTRUCTS and n.cls == cls:
                for x in n.walk():
                    if x.k == "UnaryOperator" and x.op == "&":
                        k = gr.key(x.ch[0])
                        if k in gr.rules:
                            out.add(k)
    return out or null.lazy()


def action_functions(model, gr, x, f):
    if x.k == "scoped":
        out = []
        for nm in ("start", "success", "failure", "cleanup", "result"):
            out += member_fns(model, x.v[0], nm)
        return out
    out = list(gr.action_fns(x.v, f))
    v = strip(x.v, explicit=True)
    for y in ([v] + list(v.walk()) if v is not None else ()):
        t = bare(y.type)
        if t.startswith("quickbook::"):
            out += [g for g in member_fns(model, t, "operator()") if g not in out]
    return out


SYNTAX = ("error_action", "error_message_action")


class Suspend(Rule):
    """Carries what the start/cleanup pair does with the output."""
    max_depth = 6
    width = 40

    def __init__(self, model):
        Rule.__init__(self, model)
        self.bads = {}
        self.find_interesting(lambda f: any(self.ev(n) for n in f.nodes.values()))
        self.interesting |= flow.predicates(model, is_flag)

    fork_returns = False

    def ev(self, n):
        if is_call(n) and last(n.callee or "") in ("push_output", "pop_output"):
            return last(n.callee)
        if n.k == "BinaryOperator" and n.op == "=" and is_flag(n.ch[0]):
            return "set"
        return None

    def may_inline(self, call, t, ctx):
        return t.usr in self.interesting and t.name not in ("push_output", "pop_output")

    def track(self, key):
        return key.endswith(".conditional") or key.startswith("this.")

    remember = track

    def survives(self, key, call):
        # what the state's own operations do not touch
        return call.callee is not None and last(call.callee) in ("push_output", "pop_output", "swap")

    def step(self, n, auto, ctx, st):
        e = self.ev(n)
        d, anch = auto
        if e == "push_output":
            return [(d + 1, anch)]
        if e == "pop_output":
            if d <= 0:
                return [(-99, anch)]
            return [(d - 1, anch)]
        if is_call(n) and last(n.callee or "") in ("swap", "invoke_swap"):
            o, args = call_args(n)
            if any(state_field(a) == "anchors" for a in ([o] if o is not None else []) + list(args) if a is not None):
                return [(d, (anch + 1) % 2)]
        if d > 0 and not e:
            # diverted text must not be carried over
            if is_call(n) and n.k != "CXXMemberCallExpr" or n.k == "CXXMemberCallExpr":
                o, args = call_args(n)
                fl = state_field(o) if o is not None else None
                for a in args:
                    if a is not None and strip(a) is not None and strip(a).k == "MemberExpr" and \
                            state_field(a) in ("out", "phrase") and last(n.callee or "") not in ("clear",):
                        self.bads[(n.where(), "the text of a false conditional phrase is kept")] = ctx.chain()
                if fl in ("out", "phrase") and last(n.callee or "") in ("swap", "str", "get"):
                    self.bads[(n.where(), "the text of a false conditional phrase is kept")] = ctx.chain()
        return None


class Polarity:
    """Evaluates the expression assigned to the flag for given answers of the
    lookup and of `was the test a positive one`."""

    def __init__(self, model, fn):
        self.model, self.fn = model, fn

    def val(self, n, found, positive, depth=0):
        n0 = n
        n = strip(n, explicit=True)
        if n is None or depth > 12:
            return None
        v = lambda x: self.val(x, found, positive, depth + 1)
        if n.k in ("CXXBoolLiteralExpr", "IntegerLiteral"):
            return bool(n.val)
        if n.k == "CXXNullPtrLiteralExpr" or n.k == "GNUNullExpr":
            return False
        if n.k == "UnaryOperator" and n.op == "!":
            a = v(n.ch[0])
            return None if a is None else not a
        if n.k == "BinaryOperator":
            a, b = v(n.ch[0]), v(n.ch[1])
            if n.op == "&&":
                return False if a is False or b is False else (True if a and b else None)
            if n.op == "||":
                return True if a or b else (False if a is False and b is False else None)
            if a is None or b is None:
                return None
            if n.op in ("==", "!=", "^"):
                return (a == b) == (n.op == "==")
        if n.k == "ConditionalOperator":
            c = v(n.ch[0])
            return None if c is None else v(n.ch[1] if c else n.ch[2])
        if n.k == "DeclRefExpr" and n.dk == "local":
            d = self.fn.vars().get(n.did)
            if d is not None and d.get("init") and n.did not in flow.mutated(self.fn):
                return v(self.fn.nodes.get(d["init"]))
        if is_call(n):
            if last(n.callee or "") == "find":
                return found
            if last(n.callee or "") == "empty" and "string" in (n.callee or ""):
                return positive
            ts = self.model.targets(n)
            if len(ts) == 1:
                rs = [x for x in ts[0].nodes.values() if x.k == "ReturnStmt" and x.ch]
                if len(rs) == 1:
                    return Polarity(self.model, ts[0]).val(rs[0].ch[0], found, positive, depth + 1)
        return None


def suspend(model, rep, gates):
    for cls in sorted(gates):
        starts = member_fns(model, cls, "start")
        cleanups = member_fns(model, cls, "cleanup")
        if not starts or not cleanups:
            raise Broken("%s sets the conditional flag but has no start/cleanup" % cls)
        flagkeys = set()
        for f in starts + cleanups:
            from .flow import Ctx
            c = Ctx(f)
            for n in f.nodes.values():
                if is_flag(n) and c.key(n):
                    flagkeys.add(c.key(n))
        if not flagkeys:
            # through helpers: the reference member of the class
            raise Broken("%s: the flag is not reached through a member" % cls)
        for before in (False, True):
            rule = Suspend(model)
            eng = Engine(rule, model)
            for s in starts:
                for r in eng.run(s, (0, 0), conds={k: before for k in flagkeys}):
                    if r.kind != "return":
                        continue
                    d = dict(r.conds)
                    after = {d.get(k) for k in flagkeys}
                    after = after.pop() if len(after) == 1 else None
                    depth, anch = r.auto
                    if not before:
                        if after is not False:
                            rep.bad("stays false", "%s::start re-enables" % last(cls), s.where(),
                                    "inside a false conditional phrase %s can set the flag again, so nested content becomes live" % s.short())
                            continue
                        rep.ok("stays false", s.where())
                    elif after is not True:
                        if after is None:
                            # which way it went is not known on this path
                            rep.bad("output diverted", "%s::start undecided" % last(cls), s.where(),
                                    "%s does not divert the output according to the flag it sets" % s.short())
                        elif depth != 1:
                            rep.bad("output diverted", "%s::start keeps output" % last(cls), s.where(),
                                    "%s makes the conditional false without diverting the output of the phrase" % s.short())
                        elif anch != 1:
                            rep.bad("output diverted", "%s::start keeps anchors" % last(cls), s.where(),
                                    "%s leaves pending anchors where the text of the false conditional phrase can use them up" % s.short())
                        else:
                            rep.ok("output diverted", s.where())
                    for c in cleanups:
                        conds = {k: v for k, v in r.conds if k != Engine.RET}
                        for r2 in Engine(rule, model).run(c, r.auto, conds=conds):
                            if r2.kind != "return":
                                continue
                            d2 = dict(r2.conds)
                            fl = {d2.get(k) for k in flagkeys}
                            if r2.auto[0] != 0:
                                rep.bad("output thrown away", "%s::cleanup output" % last(cls), c.where(),
                                        "the output diverted for a false conditional phrase is not dropped by %s" % c.short())
                            elif r2.auto[1] != 0:
                                rep.bad("output thrown away", "%s::cleanup anchors" % last(cls), c.where(),
                                        "the anchors put aside for a false conditional phrase are not put back by %s" % c.short())
                            elif fl != {before}:
                                rep.bad("flag restored", "%s::cleanup flag" % last(cls), c.where(),
                                        "%s does not put the conditional flag back" % c.short())
                            else:
                                rep.ok("output thrown away", c.where())
            for (w, msg) in rule.bads:
                rep.bad("output thrown away", "%s keeps text" % last(cls), w, msg)
        # which way round
        n_pol = 0
        seen = set()
        for f in model.fns():
            if f.cls != cls or f.name == "cleanup":
                continue
            for n in f.nodes.values():
                if n.k == "BinaryOperator" and n.op == "=" and is_flag(n.ch[0]):
                    p = Polarity(model, f)
                    tab = [p.val(n.ch[1], fo, po) for fo in (False, True) for po in (False, True)]
                    if None in tab:
                        rv = strip(n.ch[1], explicit=True)
                        if rv is not None and rv.k == "MemberExpr":
                            continue    # restoring a saved value
                        if tab != [None] * 4:
                            continue
                        raise Broken("cannot evaluate the condition at %s" % n.where())
                    if len(set(tab)) == 1:
                        seen.add(tab[0])
                        continue        # a constant, set on a branch
                    n_pol += 1
                    if tab != [True, False, False, True]:
                        rep.bad("condition", "%s polarity" % last(cls), n.where(),
                                "the flag is not `the macro is defined` for a plain condition and its opposite for a negated one")
                    else:
                        rep.ok("condition", n.where())
        if not n_pol and not seen:
            raise Broken("no assignment of the conditional flag from a macro lookup was found in %s" % cls)


def run(model, rep):
    rep.rule("with the conditional flag false no path from any semantic action the grammar can run inside a conditional phrase reaches a "
             "lasting effect; the scoped action that makes the flag false diverts the output, drops it, and never turns the flag on again")
    gr = grammar.load(model)
    null = p05.Null(gr, model)
    gates, keys, acts = inside(model, gr, null)
    if not gates:
        raise Broken("no scoped action sets the conditional flag")
    suspend(model, rep, gates)
    rule = Effects(model)
    eng = Engine(rule, model)
    done = {}
    for x, f in acts:
        if x.k == "scoped" and x.v[0] in gates:
            continue
        for t in action_functions(model, gr, x, f):
            if t.usr in done or t.cfg is None:
                continue
            done[t.usr] = t
            if t.cls and last(t.cls) in SYNTAX:
                rep.ok("syntax errors", t.short())
                continue
            before = dict(rule.found)
            eng.run(t, 0)
            new = [k for k in rule.found if k not in before]
            for (w, e) in new:
                rep.bad("effects", "%s: %s" % (t.short(), e), w,
                        "inside a false conditional %s %s (%s)" % (t.short(), e, rule.found[(w, e)]))
            if not new:
                rep.ok("effects", t.short())
    rep.extra["rules_inside"] = len(keys)
    rep.extra["actions_inside"] = sorted(t.short() for t in done.values())
    if not rep.violations:
        rep.at_least("effects", 12)
        rep.at_least("stays false", 1)
        rep.at_least("output diverted", 1)
