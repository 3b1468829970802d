"""P11: every construct the grammar accepts has an effect in the output.

Grammar tables are compared with the dispatcher, the markup table, the document
information handling, the highlighter selection and the HTML back end; for every
dispatched tag the paths of its handler (helpers inlined) are followed to see
that something is written, reported or recorded."""
import re

from . import flow, grammar
from .facts import strip, is_call, CONSTRUCTS, Broken, nonconst_ref
from .flow import Rule, Engine, last, call_args, call_object

Q = "quickbook::"


def enums(model, name):
    """Enumerators of the tag enumeration `name`."""
    for e in model.enums.values():
        if e["q"].endswith("::%s_enum" % name):
            return {c["val"]: name + "::" + c["name"] for c in e["consts"] if not c["name"].endswith("_index")}
    raise Broken("no tag enumeration " + name)


def all_tags(model):
    out = {}
    for e in model.enums.values():
        if e["q"].endswith("tags_enum") or e["q"].endswith("attributes_enum"):
            nm = e["q"].rsplit("::", 2)[-2]
            for c in e["consts"]:
                if not c["name"].endswith("_index"):
                    out[c["val"]] = nm + "::" + c["name"]
    return out


def looped_tags(model, f, n):
    """A tag taken from a loop over X::tags(): all enumerators of X."""
    for x in f.nodes.values():
        if is_call(x) and (x.callee or "").endswith("::tags") and not [a for a in x.ch[1:] if a is not None]:
            yield x.callee.split("::")[-2]


def enum_consts(e):
    return [x.val for x in e.walk() if x.k == "DeclRefExpr" and x.dk == "enum"]


# -- what the grammar hands to the dispatcher -------------------------------------
def element_tags(model, rep, gr):
    names = all_tags(model)
    tags = {}          # tag -> where
    own = []           # elements without a tag: (name, rule key, where)
    nel = 0
    seen = {}
    for k, es in gr.symbols.items():
        for name, val, n, f, a in es:
            if name is not None and not k.endswith("::macro"):
                if name in seen.setdefault(k, {}):
                    rep.bad("names unique", "%s/%s" % (k.rsplit("::", 1)[-1], name), n.where(),
                            "'%s' is added twice to %s; the second definition is never used" % (name, k.rsplit("::", 1)[-1]))
                else:
                    seen[k][name] = 1
                    rep.ok("names unique", "%s %s" % (k.rsplit("::", 1)[-1], name))
            if val is None:
                continue
            for x in val.walk():
                if x.k in CONSTRUCTS and (x.cls or "").endswith("element_info") and not x.copy and len(x.ch) >= 2:
                    nel += 1
                    rk = None
                    for y in x.ch[1].walk():
                        if y.k == "UnaryOperator" and y.op == "&":
                            rk = gr.key(y.ch[0])
                            break
                    t = strip(x.ch[2], explicit=True) if len(x.ch) > 2 and x.ch[2] is not None else None
                    label = name or "computed name"
                    if rk is None or rk not in gr.rules:
                        rep.bad("element rules defined", "element %s" % label, n.where(), "element '%s' has no grammar rule" % label)
                    else:
                        rep.ok("element rules defined", "%s -> %s" % (label, rk.rsplit("::", 1)[-1]))
                    c = None
                    if t is not None:
                        c = t.cv if t.cv is not None else (t.val if t.k in ("IntegerLiteral",) or t.dk == "enum" else None)
                    if c is None and t is not None:
                        got = False
                        for ns in looped_tags(model, f, n):
                            for v in enums(model, ns):
                                tags.setdefault(v, n.where())
                                got = True
                        if not got:
                            raise Broken("element '%s' has a computed tag at %s" % (label, n.where()))
                    elif not c:
                        own.append((label, rk, n.where()))
                    else:
                        tags.setdefault(c, n.where())
    rep.expect(nel >= 40, "only %d elements" % nel)
    # lists under an element action
    nl = 0
    for k, ds in gr.rules.items():
        for g, f, n in ds:
            for x in g.walk():
                if x.k != "act" or x.v is None:
                    continue
                if not any(grammar.tbase(y.type).endswith("element_action") for y in x.v.walk()):
                    continue
                st = [x.ch[0]]
                while st:
                    y = st.pop()
                    if y.k == "scoped" and y.v and "values_parser" not in str(y.v[0]) or y.k == "scoped":
                        cs = enum_consts(y.v[1]) if y.v and y.v[1] is not None else []
                        if cs:
                            nl += 1
                            for c in cs:
                                tags.setdefault(c, y.where())
                            continue
                    st += y.ch
    rep.expect(nl >= 6, "only %d tagged lists" % nl)
    return names, tags, own


# -- the dispatcher ----------------------------------------------------------------
def const_value(n, st, ctx, depth=0):
    """Constant an expression has under the known conditions, or None."""
    n = strip(n, explicit=True)
    if n is None or depth > 12:
        return None
    if n.cv is not None:
        return n.cv
    k = ctx.key(n)
    if k is not None:
        if flow.const_key(k):
            return int(k[1:])
        for c, v in st.conds.items():
            if v is True and isinstance(c, str) and c.startswith("(k") and c.endswith(" == " + k + ")"):
                a = c[1:].split(" == ", 1)[0]
                if flow.const_key(a):
                    return int(a[1:])
    if n.k == "ConditionalOperator":
        v = st.value(n.ch[0])
        if v is None:
            return None
        return const_value(n.ch[1] if v else n.ch[2], st, ctx, depth + 1)
    if n.k == "DeclRefExpr" and n.dk == "local":
        v = ctx.fn.vars().get(n.did)
        if v is not None and v.get("init") and n.did not in flow.mutated(ctx.fn):
            return const_value(ctx.fn.nodes.get(v["init"]), st, ctx, depth + 1)
    return None


def is_state(t):
    return "quickbook::state" in t and "state_save" not in t


def is_sink(n):
    t = n.type if n is not None else ""
    return grammar.tbase(t) in (Q + "collector", Q + "string_stream") or "collector" in t


class Dispatch(Rule):
    """Follows each tag from the dispatcher into its handler."""
    max_depth = 4
    width = 60
    eh = False

    def __init__(self, model, table):
        Rule.__init__(self, model)
        self.table = table
        self.markup_uses = {}
        self.noeffect = {}
        self.effect = set()
        self.tag = None

        def wants(f):
            return any(is_call(n) and last(n.callee or "") == "get_markup" for n in f.nodes.values())
        self.find_interesting(wants)

    def remember(self, key):
        return key.startswith("(k") and (".get_tag()" in key)

    def may_inline(self, call, t, ctx):
        if t.usr == ctx.fn.usr or last(t.q) == "get_markup":
            return False
        if t.usr in self.interesting and ctx.depth < 2:
            return True
        return ctx.depth == 0 and any(is_state(p["t"]) for p in t.params)

    def step(self, n, auto, ctx, st):
        if is_call(n) and last(n.callee or "") == "get_markup":
            a = n.ch[1] if n.k == "CallExpr" else None
            c = const_value(a, st, ctx)
            if c is not None:
                self.markup_uses.setdefault(c, n.where())
            else:
                self.markup_uses.setdefault(None, []).append(n.where())
        e = self.is_effect(n, ctx)
        if e and auto is not True:
            return [e]
        return None

    def is_effect(self, n, ctx):
        if any(last(f.q) == "write_anchors" for f in ctx.stack()):
            return False        # anchors are written for the surroundings, not for this construct
        if is_call(n) and last(n.callee or "") == "write_anchors":
            return False
        if n.k == "CXXOperatorCallExpr" and n.op in ("()", ",") and (n.callee or "").startswith(grammar.SP):
            return self.state_member(n.ch[1])      # the inserter of a symbol table
        if n.k in ("UnaryOperator", "BinaryOperator", "CompoundAssignOperator") and n.op in ("++", "p++", "=", "+=", "|=", "--", "p--"):
            m = strip(n.ch[0], explicit=True)
            if m is not None and m.k == "MemberExpr" and m.name == "error_count":
                return "R"          # rejected, with an error
            return self.state_member(n.ch[0])
        if n.k == "CXXOperatorCallExpr" and n.op in ("<<", "=", "+="):
            a = n.ch[1]
            s = strip(a, explicit=True)
            root = s
            while root is not None and root.k == "CXXOperatorCallExpr" and root.op == "<<":
                root = strip(root.ch[1], explicit=True)
            if root is None:
                return False
            if root.k == "ConditionalOperator" and n.op == "<<":
                return all(is_sink(strip(x, explicit=True)) for x in root.ch[1:]) and self.state_member(root.ch[1], sinks=True)
            if n.op == "<<":
                return is_sink(root) and self.state_member(root, sinks=True)
            return self.state_member(root)
        if is_call(n):
            ts = [t for t in self.model.targets(n) if t.cfg is not None and self.may_inline(n, t, ctx) and ctx.depth < self.max_depth]
            if ts:
                return False
            if last(n.callee or "") == "parse" and (n.callee or "").startswith(grammar.SP):
                return True             # the grammar's own actions produce output
            obj, args = call_args(n)
            if obj is not None and not n.cm and not n.sm:
                o = strip(obj, explicit=True)
                if o is not None and o.k == "DeclRefExpr" and is_state(o.type):
                    return True
                if self.state_member(obj) and last(n.callee) not in flow.NON_MUTATING and last(n.callee) != "get":
                    return True
            for p, a in zip(n.pt or (), args):
                if a is None or not nonconst_ref(p):
                    continue
                s = strip(a, explicit=True)
                if s is not None and is_state(s.type) and s.k == "DeclRefExpr":
                    if self.acts(n) is True:
                        return True
                    if self.acts(n):
                        return "R"
                elif s is not None and self.state_member(s, sinks=True):
                    return True
                elif s is not None and is_call(s) and call_object(s) is not None and self.state_member(call_object(s), sinks=True):
                    return True
        return False

    def edge(self, cond, truth, auto, ctx, st):
        """A definition that exists already may be kept as it is."""
        c = strip(cond, explicit=True)
        if not auto and truth and c is not None and c.k == "DeclRefExpr":
            v = ctx.fn.vars().get(c.did)
            i = strip(ctx.fn.nodes.get(v["init"]), explicit=True) if v and v.get("init") else None
            if i is not None and is_call(i) and last(i.callee or "").startswith("find"):
                return ["R"]
        return None

    def acts(self, call):
        """Does a function that is given the state write, report or record
        something (other than a diagnostic or pending anchors)?"""
        ts = [t for t in self.model.targets(call) if t.cfg is not None]
        if not ts:
            return True
        rs = [self.fn_acts(t) for t in ts]
        return True if True in rs else "R" if "R" in rs else False

    def fn_acts(self, f):
        memo = self.model.__dict__.setdefault("_p11_acts", {})
        if f.usr in memo:
            return memo[f.usr]
        memo[f.usr] = False
        if last(f.q) == "write_anchors":
            return False
        ctx = flow.Ctx(f)
        r = False
        for n in f.nodes.values():
            e = self.is_effect(n, ctx)
            if e is True:
                r = True
                break
            r = r or e
            if is_call(n):
                obj, args = call_args(n)
                if any(a is not None and strip(a, explicit=True) is not None and is_state(strip(a, explicit=True).type) for a in args):
                    e = self.acts(n) if any(t.cfg is not None for t in self.model.targets(n)) else False
                    if e is True:
                        r = True
                        break
                    r = r or e
        memo[f.usr] = r
        return r

    def state_member(self, n, sinks=False):
        n = strip(n, explicit=True)
        first = None
        while n is not None:
            if n.k == "MemberExpr":
                first = n
                n = strip(n.ch[0], explicit=True) if n.ch else None
            elif is_call(n) and call_object(n) is not None:
                n = strip(call_object(n), explicit=True)
            elif n.k == "CXXOperatorCallExpr" and n.op in ("[]", "*", "->"):
                n = strip(n.ch[1], explicit=True)
            elif n.k == "ArraySubscriptExpr":
                n = strip(n.ch[0], explicit=True)
            else:
                break
        if first is None or n is None or not is_state(n.type):
            return False
        if first.name in ("values",):
            return False
        return True


def dispatcher(model):
    best = None
    for f in model.fns():
        if f.cls and f.cls.endswith("element_action") and f.name == "operator()":
            best = f
    if best is None:
        raise Broken("the element dispatcher was not found")
    return best


def dispatch_part(model, rep, names, tags, table):
    f = dispatcher(model)
    # the expression dispatched on
    ctx = flow.Ctx(f)
    nok = 0
    for tag in sorted(tags):
        r = Dispatch(model, table)
        key = None
        fs = [f]
        for n in f.nodes.values():
            if is_call(n) and last(n.callee or "") == "get_tag" and call_object(n) is not None:
                key = ctx.key(n)
        if key is None:
            # the switch may sit in a helper taking the value
            raise Broken("dispatcher %s does not look at the tag" % f.short())
        conds = {"(k%d == %s)" % (tag, key): True}
        for n in f.nodes.values():
            if n.k == "MemberExpr" and n.name == "conditional":
                k = ctx.key(n)
                if k:
                    conds[k] = True
        for n in f.nodes.values():      # there is a value to act on
            if is_call(n) and last(n.callee or "") == "check" and call_object(n) is not None and ctx.key(n):
                conds[ctx.key(n)] = True
        name = names.get(tag, str(tag))
        r.pinned = frozenset(conds)
        r.track = lambda k, conds=conds: k in conds
        r.remember = lambda k: k.startswith("(k") and ".get_tag()" in k
        res = Engine(r, model).run(f, False, dict(conds))
        any_effect = any(x.auto is True for x in res)
        # paths that did nothing, except the early exit for an empty value
        quiet = [x for x in res if x.kind == "return" and not x.auto]
        if not any_effect:
            rep.bad("tag handled", "%s/unhandled" % name, tags[tag],
                    "%s is accepted by the grammar but nothing is done for it in %s" % (name, f.short()))
        elif quiet:
            x = quiet[0]
            rep.bad("tag handled", "%s/sometimes ignored" % name, x.node.where() if x.node is not None else f.where(),
                    "there is a path on which %s is silently ignored" % name)
        else:
            nok += 1
            rep.ok("tag handled", name)
        for c, where in r.markup_uses.items():
            if c is None:
                continue
            if c not in table:
                rep.bad("markup defined", "%s/no markup" % names.get(c, c), where, "the markup of %s is used but not defined" % names.get(c, c))
            else:
                rep.ok("markup defined", "%s at %s" % (names.get(c, c), where))
        if r.markup_uses.get(None):
            rep.extra.setdefault("markup lookups with unknown tag", sorted(set(r.markup_uses[None])))
    rep.expect(nok >= 40, "only %d handled tags" % nok)
    return f


# -- markup table ------------------------------------------------------------------
def markup_table(model):
    """tag -> (pre, post, node) from the initialiser of the markup array."""
    out = {}
    holders = list(model.fns()) + list(model.globals.values())
    for f in holders:
        for n in f.nodes.values():
            if n.k == "InitListExpr" and (n.type or "").endswith("markup") and len(n.ch) == 3:
                t = strip(n.ch[0], explicit=True)
                c = n.ch[0].cv if n.ch[0] is not None and n.ch[0].cv is not None else (t.val if t is not None else None)
                v = []
                for x in n.ch[1:]:
                    s = strip(x, explicit=True)
                    v.append(s.str if s is not None and s.k == "StringLiteral" else None)
                if c is not None:
                    out.setdefault(c, (v[0], v[1], n))
    return out


# -- other users of the table (outside the dispatcher) --------------------------------
class Uses(Rule):
    width = 60

    def __init__(self, model):
        Rule.__init__(self, model)
        self.uses = {}
        self.unknown = []
        self.find_interesting(lambda f: any(is_call(n) and last(n.callee or "") == "get_markup" for n in f.nodes.values()))

    def remember(self, key):
        return key.startswith("(k")

    def may_inline(self, call, t, ctx):
        return t.usr in self.interesting and last(t.q) != "get_markup"

    def step(self, n, auto, ctx, st):
        if is_call(n) and last(n.callee or "") == "get_markup" and n.k == "CallExpr":
            c = self.consts(n.ch[1], st, ctx)
            if c:
                for x in c:
                    self.uses.setdefault(x, n)
            else:
                self.unknown.append(n)
        return None

    def consts(self, n, st, ctx):
        c = const_value(n, st, ctx)
        if c is not None:
            return [c]
        s = strip(n, explicit=True)
        if s is not None and s.k == "ConditionalOperator":
            return self.consts(s.ch[1], st, ctx) + self.consts(s.ch[2], st, ctx)
        if s is not None and s.k == "DeclRefExpr" and s.dk == "local" and s.did not in flow.mutated(ctx.fn):
            v = ctx.fn.vars().get(s.did)
            if v is not None and v.get("init"):
                return self.consts(ctx.fn.nodes.get(v["init"]), st, ctx)
        return []


def table_part(model, rep, names, table):
    for f in model.fns():
        if not any(is_call(n) and last(n.callee or "") == "get_markup" for n in f.nodes.values()):
            continue
        r = Uses(model)
        Engine(r, model).run(f, None)
        for c, n in r.uses.items():
            if c not in table and c != 0:
                rep.bad("markup defined", "%s/no markup" % names.get(c, c), n.where(), "the markup of %s is used but not defined" % names.get(c, c))
            elif c:
                rep.ok("markup defined", "%s at %s" % (names.get(c, c), n.where()))
    seen = {}
    for c, (pre, post, n) in table.items():
        if pre is None:
            rep.bad("markup defined", "%s/null" % names.get(c, c), n.where(), "the opening markup of %s is missing" % names.get(c, c))


def marks_part(model, rep, gr, names, table):
    """Each simple-markup character maps to a tag with markup."""
    n0 = 0
    for k, ds in gr.rules.items():
        for g, f, n in ds:
            sets = [x for x in g.walk() if x.k == "act" and x.ch[0].k == "set" and x.ch[0].v]
            fns = []
            for x in g.walk():
                if x.k == "act" and x.v is not None:
                    for y in x.v.walk():
                        t = grammar.tbase(y.type)
                        for h in model.fns():
                            if h.cls == t and h.name == "operator()" and [p["t"] for p in h.params] == ["char"] and \
                                    any(is_call(z) and last(z.callee or "") == "get_markup" for z in h.nodes.values()):
                                fns.append(h)
            if not sets or not fns:
                continue
            chars = set("".join(x.ch[0].v for x in sets))
            for h in set(fns):
                hc = flow.Ctx(h)
                pk = hc.var_key(h.params[0]["did"])
                for c in sorted(chars):
                    r = Uses(model)
                    conds = {"(k%d == %s)" % (ord(x), pk): x == c for x in chars}
                    r.pinned = frozenset(conds)
                    r.track = lambda k, conds=conds: k in conds
                    Engine(r, model).run(h, None, conds)
                    n0 += 1
                    if not r.uses and r.unknown:
                        raise Broken("cannot find the tag of mark '%s'" % c)
                    bad = [t for t in r.uses if t not in table]
                    if bad or not r.uses:
                        rep.bad("marks mapped", "mark %s" % c, h.where(), "the mark '%s' is accepted but has no markup" % c)
                    else:
                        rep.ok("marks mapped", "%s -> %s" % (c, ", ".join(names.get(t, str(t)) for t in r.uses)))
    rep.expect(n0 >= 3, "no simple markup found")


# -- document information ---------------------------------------------------------
class Consume(Rule):
    def __init__(self, model, tags, rep):
        Rule.__init__(self, model)
        self.tags = tags
        self.rep = rep
        self.seen = {}
        self.order = {}

    def tag_arg(self, n, ctx):
        obj, args = call_args(n)
        nm = last(n.callee or "")
        for a in args:
            if a is None:
                continue
            s = strip(a, explicit=True)
            c = a.cv if a.cv is not None else (s.val if s is not None and s.dk == "enum" else None)
            if c in self.tags and (s is None or s.k != "IntegerLiteral"):
                return c
        return None

    def may_inline(self, call, t, ctx):
        return False

    def step(self, n, auto, ctx, st):
        if not is_call(n) or not last(n.callee or "").startswith(("consume", "optional_consume")):
            return None
        c = self.tag_arg(n, ctx)
        if c is None:
            return None
        self.seen.setdefault(c, n)
        if auto and c < auto:
            self.order.setdefault((c, auto), n)
        return [max(auto or 0, c)]


def docinfo_part(model, rep, gr, names):
    attrs = dict(enums(model, "doc_attributes"))
    attrs.update(enums(model, "doc_info_attributes"))
    infot = enums(model, "doc_info_tags")
    # grammar rules per attribute
    ruled = {}
    for f in model.fns():
        for n in f.nodes.values():
            if n.k == "CXXOperatorCallExpr" and n.op == "[]" and "map" in (n.callee or ""):
                s = strip(n.ch[2], explicit=True)
                if s is None:
                    continue
                c = s.cv if s.cv is not None else (s.val if s.dk == "enum" else None)
                p = n.parent
                while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr"):
                    p = p.parent
                if c in attrs and p is not None and p.k == "BinaryOperator" and p.op == "=":
                    ruled[c] = p
    for c, nm in sorted(attrs.items()):
        if c not in ruled:
            rep.bad("attribute rules", nm + "/no rule", "doc_info_grammar.cpp", "document attribute %s is accepted but has no grammar rule" % nm)
        else:
            rep.ok("attribute rules", nm)
    # consumption, in the order of the sorted value list
    fns = []
    for f in model.fns():
        cs = {s.val for n in f.nodes.values() if is_call(n) and last(n.callee or "").startswith("consume")
              for a in n.ch for s in [strip(a, explicit=True) if a is not None else None]
              if s is not None and s.dk == "enum" and s.val in attrs}
        if cs:
            fns.append((f, cs))
    rep.expect(fns, "document attributes are not consumed anywhere")
    alltags = set(attrs) | set(infot)
    seen = {}
    for f, cs in fns:
        r = Consume(model, alltags, rep)
        Engine(r, model).run(f, 0)
        seen.update(r.seen)
        for (c, a), n in r.order.items():
            if c in attrs:
                rep.bad("attributes consumed in order", names[c] + "/order", n.where(),
                        "%s is consumed after %s although the sorted list holds it before; its value is never seen" % (names[c], names[a]))
    for c, nm in sorted(attrs.items()):
        if c not in seen:
            rep.bad("attributes consumed", nm + "/ignored", fns[0][0].where(), "document attribute %s is accepted but never consumed" % nm)
        else:
            rep.ok("attributes consumed", nm)
    # each consumed value is used
    for f, cs in fns:
        for n in f.nodes.values():
            if not ((n.k == "CXXOperatorCallExpr" or n.k == "BinaryOperator") and n.op == "="):
                continue
            l = strip(n.ch[1] if n.k == "CXXOperatorCallExpr" else n.ch[0], explicit=True)
            rhs = n.ch[2] if n.k == "CXXOperatorCallExpr" else n.ch[1]
            if l is None or l.k != "MemberExpr" or l.dk != "field":
                continue
            c = None
            for x in rhs.walk():
                if x.k == "DeclRefExpr" and x.dk == "enum" and x.val in attrs:
                    c = x.val
            if c is None:
                continue
            if not read_somewhere(model, l.q, l):
                rep.bad("attributes used", attrs[c] + "/unused", n.where(), "the value of document attribute %s is stored but never used" % attrs[c])
            else:
                rep.ok("attributes used", "%s in %s" % (attrs[c], l.q.rsplit("::", 1)[-1]))


def read_somewhere(model, field, own):
    for f in model.fns():
        for n in f.nodes.values():
            if n.k != "MemberExpr" or n.q != field or n is own:
                continue
            p = n.parent
            while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr"):
                p = p.parent
            if p is None:
                continue
            if p.k == "MemberExpr" and p.name in ("empty", "check", "size"):
                continue
            if (p.k == "BinaryOperator" and p.op == "=" and strip(p.ch[0]) is n) or \
                    (p.k == "CXXOperatorCallExpr" and p.op == "=" and strip(p.ch[1]) is n):
                continue
            return True
    return False


# -- source modes --------------------------------------------------------------------
class Modes(Rule):
    def __init__(self, model):
        Rule.__init__(self, model)
        self.hit = set()
        self.find_interesting(lambda f: False)

    def may_inline(self, call, t, ctx):
        return any(grammar.tbase(p["t"]).endswith("tag_type") or p["t"] in ("int",) for p in t.params) and ctx.depth < 3

    def remember(self, key):
        return key.startswith("(k")

    def step(self, n, auto, ctx, st):
        if is_call(n) and last(n.callee or "") == "parse":
            return [True]
        return None


def modes_part(model, rep):
    modes = enums(model, "source_mode_tags")
    n0 = 0
    for f in model.fns():
        ps = [n for n in f.nodes.values() if is_call(n) and last(n.callee or "") == "parse" and (n.callee or "").startswith(grammar.SP)]
        if f.cfg is None or not ps:
            continue
        keys = set()
        ctx = flow.Ctx(f)
        for n in f.nodes.values():
            if n.k == "CaseStmt" and n.val in modes:
                p = n.parent
                while p is not None and p.k != "SwitchStmt":
                    p = p.parent
                if p is not None:
                    c = f.nodes.get(p.cond) if isinstance(p.cond, int) else None
                    if c is not None:
                        keys.add(ctx.key(c))
            elif n.k == "BinaryOperator" and n.op in ("==", "!="):
                for i in (0, 1):
                    s = strip(n.ch[i], explicit=True)
                    if s is not None and s.dk == "enum" and s.val in modes:
                        keys.add(ctx.key(n.ch[1 - i]))
        keys.discard(None)
        if len(keys) != 1:
            continue
        key = keys.pop()
        for v, nm in sorted(modes.items()):
            r = Modes(model)
            r.track = lambda k, key=key: key in k
            r.pinned = frozenset(["(k%d == %s)" % (v, key)])
            res = Engine(r, model).run(f, False, {"(k%d == %s)" % (v, key): True})
            n0 += 1
            if any(x.kind == "return" and not x.auto for x in res) or not any(x.auto for x in res):
                rep.bad("source modes", "%s/%s" % (f.short(), nm), f.where(), "source mode %s selects no highlighter in %s: the code is not written" % (nm, f.short()))
            else:
                rep.ok("source modes", "%s in %s" % (nm, f.short()))
    rep.expect(n0 >= 3, "the highlighter selection was not found")


# -- the HTML back end ------------------------------------------------------------------
TAG = re.compile(r"<([A-Za-z][\w:.-]*)(?=[\s>/\"=]|$)")
HTML_FILES_CLASSES = ("html_gen", "html_printer", "docinfo_gen")


def html_part(model, rep, table):
    cg = flow.callgraph(model)
    # the HTML side: everything reached from functions that handle the HTML
    # generator's types
    html = {f.usr for f in model.fns() if any(c in p["t"] for p in f.params for c in HTML_FILES_CLASSES)
            or (f.cls and any(f.cls.endswith(c) for c in HTML_FILES_CLASSES))}
    handled = set()
    nreg = 0
    for f in model.fns():
        for n in f.nodes.values():
            if is_call(n) and last(n.callee or "") in ("emplace", "insert", "operator[]"):
                o = call_object(n) or (n.ch[1] if n.k == "CXXOperatorCallExpr" else None)
                s = strip(o, explicit=True) if o is not None else None
                if s is not None and "node_parsers" in (s.name or ""):
                    for a in n.ch[1:]:
                        if a is not None:
                            for x in a.walk():
                                if x.k == "StringLiteral":
                                    handled.add(x.str)
                                    nreg += 1
        if f.usr in html:
            for n in f.nodes.values():
                if n.k == "StringLiteral" and n.str:
                    handled.add(n.str)
    rep.expect(nreg >= 40, "only %d registered HTML element handlers" % nreg)
    # elements the BoostBook writer emits: literals written to output
    emitted = {}
    for f in model.fns():
        if f.usr in html or not (any("state" in p["t"] or "collector" in p["t"] or "doc_info_values" in p["t"] for p in f.params) or f.cls):
            continue
        for n in f.nodes.values():
            if n.k == "StringLiteral" and n.str and written(n):
                for t in TAG.findall(n.str):
                    emitted.setdefault(t, n)
    for c, (pre, post, n) in table.items():
        for t in TAG.findall(pre or ""):
            emitted.setdefault(t, n)
    rep.expect(len(emitted) >= 35, "only %d emitted elements" % len(emitted))
    for t in sorted(emitted):
        if t in handled:
            rep.ok("HTML handles", t)
        else:
            rep.bad("HTML handles", "element %s" % t, emitted[t].where(), "element <%s> is generated but the HTML output has no handler for it" % t)


def written(n):
    """Is the literal streamed or appended to something?"""
    p = n.parent
    hops = 0
    while p is not None and hops < 6:
        hops += 1
        if p.k == "CXXOperatorCallExpr" and p.op in ("<<", "+", "+="):
            return True
        if p.k in ("ImplicitCastExpr", "ParenExpr", "ConditionalOperator", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXConstructExpr"):
            p = p.parent
            continue
        return False
    return False


def actions_part(model, rep, gr, own):
    """Elements without a tag act through the actions of their own rule."""
    def has_action(k, seen):
        if k in seen or k not in gr.rules:
            return False
        seen.add(k)
        for g, f, n in gr.rules[k]:
            for x in g.walk():
                if x.k == "act":
                    return True
                if x.k == "scoped" and x.v and "values" not in str(x.v[0]):
                    return True
                if x.k == "rule" and has_action(x.v, seen):
                    return True
        return False
    for name, rk, where in own:
        if rk is None or not has_action(rk, set()):
            rep.bad("untagged elements act", "element %s" % name, where, "element '%s' has neither a tag nor an action" % name)
        else:
            rep.ok("untagged elements act", name)


def run(model, rep):
    rep.rule("every tag the grammar can produce reaches a handler that writes, records or reports; every tag whose markup is looked up has one; "
             "document attributes have rules, are consumed in order and used; source modes have highlighters; emitted elements have HTML handlers")
    gr = grammar.load(model)
    names, tags, own = element_tags(model, rep, gr)
    table = markup_table(model)
    rep.expect(len(table) >= 25, "only %d markup entries" % len(table))
    dispatch_part(model, rep, names, tags, table)
    table_part(model, rep, names, table)
    marks_part(model, rep, gr, names, table)
    docinfo_part(model, rep, gr, names)
    modes_part(model, rep)
    actions_part(model, rep, gr, own)
    html_part(model, rep, table)
    rep.extra["tags"] = len(tags)
