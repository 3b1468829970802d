"""P16: every identifier in the output comes from the identifier registry.

Writing side: the text written right before a value (`... id="`) tells which
attribute the value is written to; along every path the suffix of the text
written so far is tracked.  What is written to an id attribute must, by
provenance, be an id the registry issued.  An issued id (a placeholder until
the document is complete) may only be written to attributes in which
placeholders are replaced.  Reading side: what leaves the converter comes from
the replacement of placeholders.  HTML: ids come from the document, or are
generated where they were found to be free and registered before the next."""
import re

from . import p03, flow
from .facts import strip, is_call, CONSTRUCTS
from .flow import Rule, Engine, last, call_args
from .prov import Prov

ATTR = re.compile(r"[\s<\"']([A-Za-z_:][-\w:.]*)\s*=\s*[\"']([^\"'<>\0]*)$")
FIXED = re.compile(r"[\s<\"'](?:[A-Za-z_]+:)?id\s*=\s*([\"'])([^\"'<>]+)\1")
PART = re.compile(r"(?:[\s<\"']|^\0?)(?:[A-Za-z_:][-\w:.]{0,24}(?:\s*=\s*(?:[\"'][^\"'<>]{0,30})?)?)?$")


def tail(s):
    """The part of the text written that can still become `name="`."""
    m = PART.search(s[-40:])
    if not m:
        return "\0"
    t = re.sub(r"\s+", " ", m.group(0))
    return t if t.strip() else " "


def flat(n):
    """Pieces of a string concatenation, in order."""
    x = strip(n, explicit=True)
    if x is None:
        return []
    if x.k == "CXXOperatorCallExpr" and x.op == "+" and len(x.ch) == 3 and "string" in (x.type or ""):
        return flat(x.ch[1]) + flat(x.ch[2])
    if x.k in CONSTRUCTS and len([c for c in x.kids() if c.k != "CXXDefaultArgExpr"]) == 1 and "string" in (x.type or ""):
        return flat(x.kids()[0])
    if x.k == "ConditionalOperator":
        return [("or", flat(x.ch[1]), flat(x.ch[2]))]
    if x.k == "StringLiteral":
        return [("lit", x.str, x)]
    if x.k == "CharacterLiteral":
        return [("lit", chr(int(x.val)) if 0 <= int(x.val) < 128 else "\0")]
    return [("expr", x)]


class Writes(Rule):
    """Automaton: the end of the text written so far."""
    width = 8
    max_depth = 3

    def __init__(self, model, sinks, record):
        Rule.__init__(self, model)
        self.sinks = sinks
        self.rec = record
        self.at = {}
        self.joined, self.fixed = {}, {}
        for f, n, a, what in sinks.out:
            self.at.setdefault(id(n), []).append(a)
        self.lits = {}
        self.litprov = Prov(model, self.only_lits)
        self.find_interesting(lambda f: any(id(n) in self.at for n in f.nodes.values()))

    @staticmethod
    def only_lits(f, n, p):
        if is_call(n) and "string" in (n.type or "") and n.k != "CXXOperatorCallExpr":
            return ("x",)
        return None

    def may_inline(self, call, t, ctx):
        return False

    def track(self, key):
        return False

    def values(self, f, n):
        """All texts an expression can have, None if it isn't known."""
        if id(n) not in self.lits:
            r = None
            if n.k == "DeclRefExpr" and n.dk in ("local", "global", "other", "parm") and "char" in (n.type or ""):
                os = self.litprov.origins(f, n)
                if os and len(os) <= 12 and all(o[0] == "lit" for o in os):
                    r = sorted({o[1] for o in os})
            self.lits[id(n)] = r
        return self.lits[id(n)]

    def feed(self, f, pieces, sufs):
        for p in pieces:
            if p[0] == "or":
                sufs = self.feed(f, p[1], set(sufs)) | self.feed(f, p[2], set(sufs))
            elif p[0] == "lit":
                out = set()
                for s in sufs:
                    t = p[1]
                    if s.startswith("\1") and t:
                        if t[0] not in "\"'":
                            self.joined[s[1:]] = t
                        s = "\0"
                    for m in FIXED.finditer(s + t):
                        self.fixed[(f.usr, m.group(2))] = (f, p[2] if len(p) > 2 else None)
                    out.add(tail(s + t) if t else s)
                sufs = out
            else:
                hit = None
                for s in sufs:
                    if s.startswith("\1"):
                        self.joined[s[1:]] = "more text"
                        continue
                    m = ATTR.search(s)
                    if m:
                        hit = "%s#%d" % (f.usr, p[1].id)
                        self.rec.setdefault(hit, (f, p[1], set()))[2].add((m.group(1), m.group(2)))
                v = self.values(f, p[1])
                if hit:
                    sufs = {"\1" + hit}
                else:
                    sufs = {tail(s + x) for s in sufs for x in v} if v else {"\0"}
        return sufs

    def step(self, n, auto, ctx, st):
        f = ctx.fn
        if id(n) in self.at:
            r = {auto}
            for a in self.at[id(n)]:
                r = self.feed(f, flat(a), r)
            return r
        if n.k == "CXXOperatorCallExpr" and n.op == "<<" and len(n.ch) > 2 and p03.stream_base(n.ch[1]) is not None and \
                "stream" in (p03.stream_base(n.ch[1]).type or ""):
            return self.feed(f, flat(n.ch[2]), {auto})
        if n.k in ("CXXOperatorCallExpr", "CompoundAssignOperator") and n.op == "+=" and len(n.ch) >= 2 and "string" in (n.ch[-2].type or ""):
            return self.feed(f, flat(n.ch[-1]), {auto})
        if n.k == "DeclStmt":
            for v in n.d.get("vars", ()):
                e = f.nodes.get(v.get("init"))
                if e is not None and "string" in v.get("t", ""):
                    ps = flat(e)
                    if ps and all(p[0] == "lit" for p in ps):
                        return {auto} | self.feed(f, ps, {""})
        if is_call(n):
            if n.callee in p03.ENCODERS:
                _, args = call_args(n)
                if len(args) >= 2 and args[0] is not None:
                    return self.feed(f, [("expr", args[0])], {auto})
            o, args = call_args(n)
            if o is not None and last(n.callee or "") == "append" and "string" in (o.type or "") and args and args[0] is not None:
                return self.feed(f, flat(args[0]), {auto})
            if n.k == "CXXOperatorCallExpr" and n.op == "+" and "string" in (n.type or ""):
                p = n.parent
                while p is not None and (p.k in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "ParenExpr")
                                         or p.k in CONSTRUCTS):
                    p = p.parent
                if p is None or not (p.k == "CXXOperatorCallExpr" and p.op in ("+", "+=", "<<")):
                    self.feed(f, flat(n), {""})
        return None


class Ids:
    def __init__(self, model, sinks):
        self.model = model
        self.prov = Prov(model, self.classify)
        self.builders = {}

    def classify(self, f, n, p):
        if n.k == "StringLiteral" and n.str == "":
            return ("empty",)
        if n.k in ("StringLiteral", "CharacterLiteral"):
            return ("literal", str(n.str if n.k == "StringLiteral" else n.val), n.where())
        if p03.bare(n.type) in p03.NUMBER:
            return ("number",)
        if (n.type or "").rstrip().endswith("*") and "char" not in n.type and n.k not in ("UnaryOperator",):
            return ("object",)           # what it holds is read through its fields
        if not is_call(n):
            if n.k == "MemberExpr" and n.dk == "field" and (n.q or "").endswith("::id_placeholder::unresolved_id"):
                return ("text", "unresolved id", n.where())
            return None
        q, nm = n.callee or "", last(n.callee or "")
        if q.endswith("id_placeholder::to_string"):
            return ("issued",)
        if nm == "replace_placeholders":
            return ("document",)
        if nm in ("get_encoded", "get_quickbook"):
            return self.value(f, n, nm)
        if nm == "get_attribute":
            _, args = call_args(n)
            ls = [x.str for a in args if a is not None for x in a.walk() if x.k == "StringLiteral"]
            return ("attribute", ls[0] if ls else "?")
        if nm == "set_attribute":
            return ("attribute", "set")
        if nm in ("str", "release", "swap") and n.ch and p03.is_collector((call_args(n)[0].type if call_args(n)[0] is not None else "")):
            return ("text", "output", n.where())
        if q.endswith(("make_identifier", "normalize_id")):
            return ("text", "text turned into an identifier", n.where())
        return None

    def value(self, f, n, nm):
        """A value taken from a builder that only code fills."""
        o, _ = call_args(n)
        root = self.builder(f, o)
        if root is None or nm != "get_encoded":
            return ("text", "text of the document", n.where())
        ins = self.inserts().get(root, ())
        got = set()
        for g, a in ins:
            for x in a.walk():
                if is_call(x) and last(x.callee or "") in ("encoded_value", "encoded_qbk_value"):
                    for y in call_args(x)[1]:
                        if y is not None and y.k != "CXXDefaultArgExpr" and ("string" in (y.type or "") or "char" in (y.type or "")):
                            got |= self.prov.origins(g, y)
        if not got:
            return ("text", "text of the document", n.where())
        bad = [x for x in got if x[0] not in ("issued", "object")]
        return bad[0] if bad else ("issued",)

    def inserts(self):
        if not self.builders:
            for f in self.model.fns():
                for n in f.nodes.values():
                    if is_call(n) and last(n.callee or "") == "insert":
                        o, args = call_args(n)
                        x = strip(o, explicit=True) if o is not None else None
                        if x is not None and x.k == "MemberExpr" and "value_builder" in (x.type or "") and args:
                            self.builders.setdefault(x.q, []).append((f, args[-1]))
            self.builders.setdefault(None, [])
        return self.builders

    def builder(self, f, o):
        """The value builder field a value comes from, if that is unique and
        code (not the grammar) fills it."""
        def cl(g, n, p):
            if is_call(n) and last(n.callee or "") == "release":
                b, _ = call_args(n)
                x = strip(b, explicit=True) if b is not None else None
                if x is not None and x.k == "MemberExpr" and "value_builder" in (x.type or ""):
                    return ("builder", x.q)
            if is_call(n) and n.k == "CXXMemberCallExpr" and call_args(n)[0] is not None:
                return [call_args(n)[0]]
            return None
        pr = self.__dict__.setdefault("_bprov", None)
        if pr is None:
            pr = self._bprov = Prov(self.model, cl)
        os = pr.origins(f, o) if o is not None else set()
        bs = {x[1] for x in os if x[0] == "builder"}
        if len(bs) == 1 and all(x[0] == "builder" for x in os) and self.inserts().get(list(bs)[0]):
            return list(bs)[0]
        return None


def describe(x):
    if x[0] == "literal":
        return "the fixed text '%s'" % x[1]
    return " ".join(str(y) for y in x[1:2]) or x[0]


def replaced_attributes(model):
    p = Prov(model)
    return {o[1] for o in p.origins_of_field("quickbook::xml_processor::id_attributes") if o[0] == "lit" and re.match(r"[a-z]", o[1] or "")}


def html_ids(model, ids, rep):
    n_sites = 0
    for f in model.fns():
        for n in f.nodes.values():
            if not is_call(n):
                continue
            _, args = call_args(n)
            for i in range(len(args) - 1):
                a, b = args[i], args[i + 1]
                if a is None or b is None or [x.str for x in a.walk() if x.k == "StringLiteral"] != ["id"]:
                    continue
                if not any(any("html_printer" in q["t"] for q in t.params) for t in model.targets(n)):
                    continue
                n_sites += 1
                os = {o for o in ids.prov.origins(f, b) if o[0] not in ("attribute", "issued", "empty", "object")}
                if ("number",) in os:            # a page without an id is given a fixed name with its number
                    os = {o for o in os if o[0] not in ("number", "literal")}
                if os:
                    rep.bad("HTML ids", "%s" % f.short(), n.where(),
                            "the id of an HTML element is %s, not an id of the document" % ", ".join(sorted(map(describe, os))[:3]))
                else:
                    rep.ok("HTML ids", "%s %s" % (f.short(), n.where()))
    rep.expect(n_sites >= 3, "only %d places that write ids in HTML were found" % n_sites)


class Free(Rule):
    """Automaton: names known to be free, and whether one was given out and
    not registered yet: (names known to be free, place where one was given out,
    names registered)."""
    width = 16

    def __init__(self, model):
        Rule.__init__(self, model)
        self.sites = 0
        self.bads = {}
        self.prov = Prov(model)

    def may_inline(self, call, t, ctx):
        return False

    def track(self, key):
        return False

    @staticmethod
    def registry(n):
        for x in n.walk():
            if x.k == "MemberExpr" and (x.q or "").endswith("::fragment_ids"):
                return True
        return False

    def local(self, f, n):
        """The initialiser of a local that is never changed."""
        x = strip(n, explicit=True) if n is not None else None
        for _ in range(3):
            if x is None or x.k != "DeclRefExpr" or x.dk != "local":
                break
            ds = [d for d in self.prov.defs.get(self.prov.var_slot(f, x.did), ()) if d[0] is not None]
            if len(ds) != 1:
                break
            x = strip(ds[0][1], explicit=True)
        return x

    def names(self, n, ctx):
        """Name a find/count/emplace on the registry is about."""
        xs = list(n.walk())
        for x in list(xs):
            if x.k == "DeclRefExpr" and x.dk == "local" and "iterator" in (x.type or ""):
                y = self.local(ctx.fn, x)
                if y is not None and y is not x:
                    xs += list(y.walk())
        for x in xs:
            if is_call(x) and last(x.callee or "") in ("find", "count", "emplace", "insert"):
                o, args = call_args(x)
                if o is not None and self.registry(o) and args and args[0] is not None:
                    return last(x.callee), ctx.key(strip(args[0], explicit=True))
        return None, None

    def edge(self, cond, truth, auto, ctx, st):
        c = self.local(ctx.fn, cond)
        neg = False
        while c is not None and c.k == "UnaryOperator" and c.op == "!":
            neg = not neg
            c = self.local(ctx.fn, c.ch[0])
        if c is None:
            return None
        what, k = self.names(c, ctx)
        if k is None:
            return None
        t = truth != neg
        free = None
        if what == "find" and c.k in ("CXXOperatorCallExpr", "BinaryOperator") and c.op in ("==", "!="):
            free = t == (c.op == "==")
        elif what == "count":
            free = not t
            if c.k == "BinaryOperator":
                free = t == (c.op == "==")
        elif what in ("emplace", "insert"):
            free = t
        if free:
            return [(auto[0] | {k}, auto[1], auto[2])]
        return None

    def step(self, n, auto, ctx, st):
        if is_call(n):
            nm = last(n.callee or "")
            o, args = call_args(n)
            if nm == "set_attribute" and len(args) == 2 and ctx.fn.file == "bb2html.cpp":
                self.sites += 1
                k = ctx.key(strip(args[1], explicit=True))
                if k not in auto[0]:
                    self.bads[n.where()] = (ctx.fn, "an id is given to an element without a test that no other element has it")
                return [(auto[0], None if k in auto[2] else n.where(), auto[2])]
            if nm in ("emplace", "insert") and o is not None and self.registry(o):
                k = ctx.key(strip(args[0], explicit=True)) if args and args[0] is not None else None
                return [(auto[0], None, auto[2] | {k})]
            if o is not None and not n.cm and n.k == "CXXMemberCallExpr" and nm not in flow.NON_MUTATING or n.k == "CXXOperatorCallExpr" and n.op in ("=", "+="):
                x = strip(o if o is not None else n.ch[1], explicit=True)
                k = ctx.key(x) if x is not None else None
                if k in auto[0] or k in auto[2]:
                    return [(auto[0] - {k}, auto[1], auto[2] - {k})]
        return None


def generated(model, rep):
    r = None
    for f in model.fns():
        if f.file != "bb2html.cpp" or f.cfg is None or not any(is_call(n) and last(n.callee or "") == "set_attribute" for n in f.nodes.values()):
            continue
        r = Free(model)
        outs = Engine(r, model).run(f, (frozenset(), None, frozenset()))
        for w, (g, msg) in sorted(r.bads.items()):
            rep.bad("generated ids", g.short(), w, msg)
        for w in sorted({o.auto[1] for o in outs if o.kind != "throw"} - {None}):
                rep.bad("generated ids", "%s: registered" % f.short(), w, "an id is given to an element and not registered, so that it can be given out again")
        if not r.bads:
            rep.ok("generated ids", f.short())
    rep.expect(r is not None, "no place that gives ids to elements of the HTML tree")


def leaves(model, sinks, rep):
    """What is written to the output, or given to the HTML converter, had its
    placeholders replaced."""
    def cl(f, n, p):
        if is_call(n):
            nm = last(n.callee or "")
            if nm == "replace_placeholders":
                return ("replaced",)
            if nm == "replace_placeholders_with_unresolved_ids":
                return ("unresolved",)
            o, _ = call_args(n)
            if o is not None and p03.is_collector(o.type) or "ostringstream" in (o.type or "" if o is not None else ""):
                return ("collected",)
        if n.k == "MemberExpr" and n.dk == "field" and p03.is_collector(n.type):
            return ("collected",)
        return None
    pr = Prov(model, cl)
    n_out = 0
    html = callees(model, "boostbook_to_html")
    for f in model.fns():
        if f.usr in html:
            continue
        for n in list(f.nodes.values()):
            args = []
            if n.k == "CXXOperatorCallExpr" and n.op == "<<" and len(n.ch) > 2:
                b = p03.stream_base(n.ch[1])
                if b is not None and "fstream" in (b.type or "") and not (f.cls or "").endswith("dependency_tracker"):
                    args = [n.ch[2]]
            elif is_call(n) and last(n.callee or "") == "boostbook_to_html":
                args = [call_args(n)[1][0]]
            for a in args:
                os = pr.origins(f, a)
                if not any(o[0] in ("replaced", "unresolved", "collected") for o in os):
                    continue
                n_out += 1
                bad = sorted({o[0] for o in os if o[0] in ("unresolved", "collected")})
                if bad:
                    rep.bad("placeholders replaced", "%s %s" % (f.short(), last(n.callee or "")), n.where(),
                            "the document leaves the converter %s" % ("with the ids of the placeholders before they were made unique"
                                                                      if "unresolved" in bad else "with id placeholders in it"))
                else:
                    rep.ok("placeholders replaced", "%s %s" % (f.short(), n.where()))
    rep.expect(n_out >= 2, "only %d places where the document leaves the converter were found" % n_out)


def callees(model, name):
    """Everything the HTML converter calls."""
    out, st = set(), [f for f in model.fns() if f.name == name]
    while st:
        f = st.pop()
        if f.usr in out:
            continue
        out.add(f.usr)
        for n in f.nodes.values():
            if is_call(n) or n.k in CONSTRUCTS:
                st += [t for t in model.targets(n) if t.body is not None]
    return out


def run(model, rep):
    rep.rule("what is written between the quotes of an id attribute is, on every path and from every source, an id issued by the registry")
    rep.rule("an issued id is only written to attributes whose placeholders are replaced")
    rep.rule("the text that leaves the converter comes from the replacement of placeholders")
    rep.rule("an id added to the HTML tree was found to be unused and is registered at once")
    sinks = p03.Sinks(model)
    rec = {}
    w = Writes(model, sinks, rec)
    fns = [f for f in model.fns() if f.q.startswith("quickbook") and f.cfg is not None and f.file not in ("html_printer.cpp",) and
           any(x.k == "StringLiteral" and "=" in (x.str or "") or x.k == "CharacterLiteral" for x in f.nodes.values())]
    seen = set()
    for f in fns:
        if f.usr in seen:
            continue
        seen.add(f.usr)
        Engine(w, model).run(f, "")
    ids = Ids(model, sinks)
    attrs = replaced_attributes(model)
    rep.expect("id" in attrs and len(attrs) >= 3, "the attributes whose placeholders are replaced were not found: %s" % sorted(attrs))
    used = {}
    for (_, text), (f, x) in sorted(w.fixed.items()):
        rep.bad("ids issued", "%s: the fixed text '%s'" % (f.short(), text), x.where() if x is not None else f.where(),
                "the fixed text '%s' is written as an id without being issued by the registry" % text)
    for hit, (f, n, names) in sorted(rec.items(), key=lambda e: (e[1][1].where(), e[1][1].id)):
        os = ids.prov.origins(f, n)
        if any(o[0] == "issued" for o in os) and (hit in w.joined or any(pre for _, pre in names)):
            rep.bad("placeholder attributes", "%s: joined" % f.short(), n.where(),
                    "a placeholder is written as part of a longer attribute value, where it is not replaced by its id")
        for a in sorted({a for a, _ in names}):
            used[a] = used.get(a, 0) + 1
            base = a.split(":")[-1]
            if base == "id":
                bad = {o for o in os if o[0] not in ("issued", "empty", "object")}
                if bad:
                    rep.bad("ids issued", "%s: %s" % (f.short(), describe(sorted(bad, key=str)[0])), n.where(),
                            "%s is written as an id without being issued by the registry" % describe(sorted(bad, key=str)[0]))
                else:
                    rep.ok("ids issued", "%s %s" % (f.short(), n.where()))
            if any(o[0] == "issued" for o in os):
                if a in attrs:
                    rep.ok("placeholder attributes", "%s %s" % (a, n.where()))
                else:
                    rep.bad("placeholder attributes", "%s: %s" % (f.short(), a), n.where(),
                            "a placeholder is written to the attribute '%s', where it is not replaced by its id" % a)
    leaves(model, sinks, rep)
    html_ids(model, ids, rep)
    generated(model, rep)
    rep.at_least("ids issued", 10)
    rep.at_least("placeholder attributes", 10)
    rep.extra.update({"attributes written": used, "attributes with replaced placeholders": sorted(attrs), "functions": len(seen)})
