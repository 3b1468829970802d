"""P03: document text reaches the output markup only in escaped form.

Every place that adds text to generated markup (an output collector, the HTML
being written, the value of a macro, an output file) is a sink.  Where the
text comes from is followed backwards through the program; it must be the
tool's own literals and numbers, text already converted, an id placeholder, or
the result of an escaping function.  What a stored value holds (source text,
plain text or converted markup) is what the analysis of P23 found for the
accessor that reads it."""
from . import grammar, p11, p14, p21, p23, flow
import re

from .facts import strip, is_call, CONSTRUCTS
from .flow import last, call_args
from .prov import Prov

ENCODERS = {"quickbook::detail::encode_string", "quickbook::detail::print_char", "quickbook::detail::print_string"}
NUMBER = {"int", "unsigned int", "unsigned long", "long", "bool", "short", "unsigned short", "unsigned", "std::size_t", "size_t"}
SPECIAL = set("&<>\"")
# Attributes of value tags whose text the author wrote as raw markup.
RAW_TAGS = {"phrase_tags::escape": "'''raw markup'''", "template_tags::escape": "template of '''raw markup'''",
            "doc_info_tags::escaped_attribute": "'''raw markup''' in document information"}

# the classes that hold values: what goes in and out of them is judged at the
# accessors, by what the grammar can have stored
VALUES = re.compile(r"quickbook::(detail::)?value(_[a-z_]+)?$|quickbook::detail::[a-z_]*value[a-z_]*(::.*)?$|quickbook::value_[a-z]+(::.*)?$")


def bare(t):
    return (t or "").replace("const ", "").replace("struct ", "").replace("class ", "").rstrip("&* ").strip()


def is_collector(t):
    b = bare(t)
    return b.endswith("quickbook::collector") or b == "collector" or b.endswith("string_stream")


def is_ostream(t):
    b = bare(t)
    return b in ("std::ostream", "std::basic_ostream<char>", "std::basic_ostream<char, std::char_traits<char>>")


def stream_base(n):
    n = strip(n, explicit=True)
    while n is not None and n.k == "CXXOperatorCallExpr" and n.op == "<<":
        n = strip(n.ch[1], explicit=True)
    return n


class Sinks:
    """Places that add text to markup: (function, node, argument, what)."""

    def __init__(self, model):
        self.model = model
        self.skip = set()
        fs = [f for f in model.fns() if f.q.startswith("quickbook")]
        self.stream_fns = self.markup_streams(fs)
        self.out = []
        for f in fs:
            if f.q in ENCODERS or (f.cls or "").split("::")[-1] in ("collector", "string_stream") or self.own_operator(f):
                continue
            for n in list(f.nodes.values()):
                self.visit(f, n)

    def own_operator(self, f):
        return f.q == "quickbook::operator<<" and f.params and is_collector(f.params[0]["t"])

    def markup_streams(self, fs):
        """Parameters of type ostream& that are bound to an output collector."""
        got = set()
        work = True
        while work:
            work = False
            for f in fs:
                for n in f.nodes.values():
                    if n.k == "DeclStmt":
                        for v in n.d.get("vars", ()):
                            if is_ostream(v.get("t")) and v.get("init") and (f.usr, v["did"]) not in got and \
                                    self.markup_stream(f, f.nodes[v["init"]], got):
                                got.add((f.usr, v["did"]))
                                work = True
                    if not is_call(n):
                        continue
                    _, args = call_args(n)
                    for t in self.model.targets(n):
                        for p, a in zip(t.params, args):
                            if a is None or (t.usr, p["did"]) in got or not is_ostream(p["t"]):
                                continue
                            if self.markup_stream(f, a, got):
                                got.add((t.usr, p["did"]))
                                work = True
        return got

    def markup_stream(self, f, a, got):
        for x in a.walk():
            if is_call(x) and (x.callee or "").split("::")[-1] == "get" and is_collector((call_args(x)[0].type if call_args(x)[0] is not None else "")):
                return True
            if x.k == "DeclRefExpr" and (f.usr, x.did) in got:
                return True
        return False

    def add(self, f, n, a, what):
        if a is not None:
            self.out.append((f, n, a, what))

    def visit(self, f, n):
        if n.k == "CXXOperatorCallExpr" and n.op in ("<<", "+=", "=") and len(n.ch) > 2:
            b = stream_base(n.ch[1])
            if b is None:
                return
            if n.op == "<<":
                if is_collector(b.type):
                    self.add(f, n, n.ch[2], "output")
                elif b.k == "DeclRefExpr" and (f.usr, b.did) in self.stream_fns:
                    self.add(f, n, n.ch[2], "output")
                elif "fstream" in (b.type or "") and not (f.cls or "").endswith("dependency_tracker"):
                    self.add(f, n, n.ch[2], "file")
                elif is_call(b) and last(b.callee or "") == "get" and call_args(b)[0] is not None and is_collector(call_args(b)[0].type):
                    self.add(f, n, n.ch[2], "output")
            if n.op in ("+=", "=") and self.is_macro(f, n.ch[1]):
                self.add(f, n, n.ch[2], "macro")
            if n.op in ("+=", "=") and self.is_html(b):
                self.add(f, n, n.ch[2], "HTML")
        elif n.k == "CXXOperatorCallExpr" and n.op == "()" and "symbol_inserter<std::" in (n.callee or "") and "string" in n.callee:
            self.add(f, n, n.ch[-1], "macro")
        elif n.k == "CXXMemberCallExpr":
            o, args = call_args(n)
            if o is None:
                return
            nm = last(n.callee or "")
            if is_collector(o.type) and nm == "append":
                for a in args:
                    self.add(f, n, a, "output")
            elif self.is_html(strip(o, explicit=True)) and nm in ("append", "push_back", "insert", "assign", "replace"):
                for a in args:
                    self.add(f, n, a, "HTML")

    def is_macro(self, f, x, depth=0):
        """The value found in a symbol table, written through the pointer."""
        x = strip(x, explicit=True)
        if x is None or depth > 4:
            return False
        if x.k == "UnaryOperator" and x.op == "*":
            y = strip(x.ch[0], explicit=True)
            if y is not None and y.k == "DeclRefExpr" and y.dk == "local":
                for d in f.nodes.values():
                    if d.k == "DeclStmt":
                        for v in d.d.get("vars", ()):
                            if v["did"] == y.did and v.get("init"):
                                y = strip(f.nodes.get(v["init"]), explicit=True)
                                break
            return y is not None and is_call(y) and "spirit::classic" in (y.callee or "") and last(y.callee or "") == "find"
        if x.k == "DeclRefExpr" and x.dk == "local":
            for d in f.nodes.values():
                if d.k == "DeclStmt":
                    for v in d.d.get("vars", ()):
                        if v["did"] == x.did and v.get("init") and v.get("t", "").endswith("&"):
                            return self.is_macro(f, f.nodes.get(v["init"]), depth + 1)
        return False

    def is_html(self, b):
        return b is not None and b.k == "MemberExpr" and (b.q or "").endswith("html_printer::html")


class Reach(p21.Fold):
    """Which nodes can be reached when the language version is `value`, or when
    a character variable holds `value`?"""
    width = 60

    def __init__(self, model, value, keys=(), marks=()):
        p21.Fold.__init__(self, model, set(keys), value)
        self.hit = set()
        self.marks = marks
        self.vers = not keys
        self.find_interesting(lambda f: any(id(n) in marks for n in f.nodes.values()))

    def may_inline(self, call, t, ctx):
        return ctx.depth < 5 and t.usr in self.interesting

    def ev(self, n, ctx, depth=0):
        x = strip(n, explicit=True) if n is not None else None
        if x is not None and x.k == "DeclRefExpr":
            if self.vers and (x.q or "").endswith("qbk_version_n"):
                return self.value
            k = ctx.key(x)
            if k in self.subj and bare(x.type) == "bool":
                return self.value
            if k and k.startswith("k") and k[1:].lstrip("-").isdigit():
                return int(k[1:])
        return p21.Fold.ev(self, n, ctx, depth)

    def step(self, n, auto, ctx, st):
        if id(n) in self.marks:
            self.hit.add(id(n))
        return None


def reached(model, fn, value, node, keys=()):
    r = Reach(model, value, keys, {id(node)})
    flow.Engine(r, model).run(fn, "")
    return id(node) in r.hit


class Origins:
    def __init__(self, model):
        self.model = model
        self.gr = grammar.load(model)
        _, self.rec, self.stats = p23.analyse(model)
        self.prov = Prov(model, self.classify, True)
        self.member_calls = self.find_member_calls()
        self.attached = self.find_attached()
        self.tags = p11.all_tags(model)
        self.at = {}

    def find_member_calls(self):
        """Functions called through a member pointer kept in a function object:
        {usr: [(function, call)]} for calls of that object."""
        objs = {}
        for f in self.model.fns():
            for n in f.nodes.values():
                if n.k == "UnaryOperator" and n.op == "&":
                    x = strip(n.ch[0], explicit=True)
                    if x is not None and x.k == "DeclRefExpr" and x.dk in ("func", "method", "other") or x is not None and x.k == "DeclRefExpr" and x.usr:
                        p = n
                        while p is not None and p.k != "DeclStmt":
                            p = p.parent
                        if p is None:
                            continue
                        for v in p.d.get("vars", ()):
                            i = f.nodes.get(v.get("init"))
                            if i is not None and any(y is n for y in i.walk()):
                                objs.setdefault((f.usr, v["did"]), set()).add(x.usr)
        out = {}
        for f in self.model.fns():
            for n in f.nodes.values():
                if n.k == "CXXOperatorCallExpr" and n.op == "()" and len(n.ch) > 1:
                    o = strip(n.ch[1], explicit=True)
                    if o is not None and o.k == "DeclRefExpr":
                        for u in objs.get((f.usr, o.did), ()):
                            out.setdefault(u, []).append((f, n))
        return out

    def find_attached(self):
        """usr of an action function -> grammar actions it is attached to."""
        out = {}
        for ds in self.gr.rules.values():
            for g, f, _ in ds:
                for x in g.walk():
                    if x.k == "act":
                        for fn in p14.action_functions(self.model, self.gr, x, f):
                            out.setdefault(fn.usr, []).append(x)
        return out

    def classify(self, f, n, p):
        if not hasattr(f, "cls"):                # initialiser of a global
            return ("ok", "literal", "") if n.k in ("StringLiteral", "CharacterLiteral") or bare(n.type) in NUMBER else None
        if n.k == "MemberExpr" and n.dk == "field" and (n.q or "").startswith(("quickbook::string_stream", "quickbook::collector")):
            return ("ok", "collected", "")
        if VALUES.match(f.cls or "") and not is_call(n):
            return ("ok", "value internals", "")
        t = bare(n.type)
        if n.k == "DeclRefExpr" and n.dk == "local" and t in ("char", "unsigned char") and self.tested_char(f, n):
            return ("ok", "tested character", "")
        if n.k == "MemberExpr" and n.name == "first" and n.ch and "pair<" in (n.ch[0].type or ""):
            ks = self.keys_of(f, n)
            if ks:
                return ks
        if t in NUMBER:
            return ("ok", "number", "")
        if t == "char" and f.usr in self.attached and p23.writes_raw(f) and any(
                y.k == "DeclRefExpr" and y.dk == "parm" for y in n.walk()):
            return ("ok", "characters of plain text values", "")     # see plain_text()
        if n.k in ("StringLiteral", "CharacterLiteral"):
            return ("ok", "literal", "")
        if is_call(n):
            nm = last(n.callee or "")
            q = n.callee or ""
            if q in ENCODERS:
                return ("ok", "escaped", "")
            if nm == "decode_string":
                return ("RAW", "decoded text", n.where())
            if nm in ("get_encoded", "get_quickbook"):
                return self.accessor(f, n, nm)
            if nm in ("source",) and "file" in q:
                return ("RAW", "text of a file", n.where())
            if q.endswith("get_markup"):
                return ("ok", "markup table", "")
            if t == "char*" or nm in ("strftime",):
                return None
            if nm == "to_string" and "id_placeholder" in q:
                return ("ok", "id placeholder", "")
            if q.endswith("make_identifier"):
                return ("ok", "identifier", "")
            if self.uri_escape(n):
                return ("ok", "escaped URL", "")
            if p23.is_value(n.type):
                return self.value(f, n, nm)
        if is_collector(t):
            return ("ok", "collected", "")
        if n.k == "MemberExpr" and n.dk == "field" and (n.q or "").endswith(("id_placeholder::unresolved_id", "id_placeholder::id")):
            return ("RAW", "id", n.where())
        return None

    def tested_char(self, f, n):
        """A character that is known not to be special where it is used."""
        if f.cfg is None:
            return False
        k = "%s:%s#%s" % (f.tu, n.name, n.did)
        c = self.__dict__.setdefault("_tested", {})
        if id(n) not in c:
            c[id(n)] = not any(reached(self.model, f, ord(ch), n, (k,)) for ch in SPECIAL)
        return c[id(n)]

    def keys_of(self, f, n):
        """Keys put into the map whose element's key is read."""
        out = []
        for x in f.nodes.values():
            if x.k == "CXXMemberCallExpr" and last(x.callee or "") in ("insert", "emplace", "push_back"):
                _, args = call_args(x)
                for a in args:
                    for y in (a.walk() if a is not None else ()):
                        if is_call(y) and last(y.callee or "") == "make_pair" or y.k in CONSTRUCTS and "pair<" in (y.type or ""):
                            b = [z for z in (call_args(y)[1] if is_call(y) else y.kids()) if z is not None]
                            if len(b) == 2:
                                out.append(b[0])
            elif x.k == "CXXOperatorCallExpr" and x.op == "[]" and len(x.ch) == 3 and "map<" in (x.ch[1].type or ""):
                out.append(x.ch[2])
        return out

    def value(self, f, n, nm):
        """What get_encoded() gives for the value a call returns."""
        obj, args = call_args(n)
        if nm in ("encoded_value", "encoded_qbk_value"):
            return [a for a in args if a is not None and a.k != "CXXDefaultArgExpr" and bare(a.type) not in NUMBER] or None
        if nm in ("qbk_value", "int_value", "empty_value"):
            return ("ok", "no converted text", "")
        e = self.rec_at(f, n, nm)
        if e is not None and e[1]:
            for t in e[1]:
                if t.kind == "p" and not t.safe:
                    return ("RAW", "plain text", n.where())
            return ("ok", "converted", "")
        return None

    def uri_escape(self, n):
        """A URL escaper whose list of kept characters has no special one."""
        for t in self.model.targets(n):
            if t.body is None or not t.q.startswith("quickbook::detail::") or "escape_uri" not in t.q:
                continue
            for c in t.nodes.values():
                if is_call(c) and "escape_uri" in (c.callee or ""):
                    lits = [x.str for x in c.walk() if x.k == "StringLiteral"]
                    if lits and not any(set(l) & SPECIAL for l in lits):
                        return True
        return False

    def accessor(self, f, n, nm):
        e = self.rec.get((f.usr, n.d.get("id", None), nm)) or self.rec_at(f, n, nm)
        toks = {t for t in (e[1] if e else ()) if t.kind not in ("n",)}
        self.at[n.where()] = n
        if not toks:
            o, _ = call_args(n)
            if nm == "get_encoded":
                return [o] if o is not None else None
            toks = self.by_tag(f, o)
            if not toks:
                if o is not None and self.author_markup(f, o, n):
                    return ("ok", "author's own markup", "")
                return ("RAW", "source text", n.where())
        out = None
        for t in toks:
            if t.kind == "m" and nm == "get_encoded":
                continue
            if t.safe or nm == "get_quickbook" and self.tags.get(t.tag) in RAW_TAGS:
                continue
            tag = "" if t.tag in (0, None) else str(self.tags.get(t.tag, t.tag))
            out = ("RAW", "plain text" if t.kind == "p" else "source text", n.where(), tag)
            break
        return out or ("ok", "converted", "")

    def by_tag(self, f, o):
        """What the grammar stores with the tags that a value was taken by."""
        def classify(g, n, p):
            if is_call(n) and n.k != "CXXOperatorCallExpr":
                _, args = call_args(n)
                for a in args:
                    if a is not None and "value" not in (a.type or "") and p23.tag_of(a) in self.tags:
                        return ("tag", p23.tag_of(a))
            return None
        if o is None:
            return set()
        os = Prov(self.model, classify).origins(f, o) if not hasattr(self, "_tagprov") else None
        if not os or any(x[0] != "tag" for x in os):
            return set()
        if not hasattr(self, "_stored"):
            self._stored = {}
            for ds in self.gr.rules.values():
                for g, gf, _ in ds:
                    for x in g.walk():
                        if x.k == "act":
                            for e in p23.act_events(self.model, self.gr, x):
                                if e[0] == "tok":
                                    self._stored.setdefault(e[1].tag, set()).add(e[1])
        out = set()
        for x in os:
            ts = self._stored.get(x[1])
            if not ts:
                return set()
            out |= ts
        return out

    def author_markup(self, f, o, n):
        """The content of a template defined as raw markup is written as the
        author gave it, where the content is known to be tagged so."""
        x = strip(o, explicit=True)
        for _ in range(3):
            if x is not None and x.k == "DeclRefExpr" and x.dk == "local":
                ds = [d for d in self.prov.defs.get(self.prov.var_slot(f, x.did), ()) if d[0] is not None]
                if len(ds) == 1:
                    x = strip(ds[0][1], explicit=True)
                    if x is not None and x.k in CONSTRUCTS and len(x.kids()) == 1:
                        x = strip(x.kids()[0], explicit=True)
        if x is None or x.k != "MemberExpr" or not (x.q or "").endswith("template_symbol::content"):
            return False
        if not hasattr(self, "_flags"):
            self._flags = flag_prov(self.model)
        ts = only_when(self.model, self._flags, f, n)
        return bool(ts) and all(self.tags.get(t) in RAW_TAGS for t in ts)

    def rec_at(self, f, n, nm):
        if not hasattr(self, "_recn"):
            self._recn = {(id(e[0]), k[2]): e for k, e in self.rec.items()}
        return self._recn.get((id(n), nm))

    def origins(self, f, a):
        todo = self.prov.origins(f, a)
        out, seen = set(), set()
        todo = list(todo)
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            if o[0] in ("ok", "lit"):
                continue
            if o[0] == "param":
                more = self.param(o)
                if more is not None:
                    todo += more
                    continue
            if o[0] == "undefined":
                more = self.undefined(o)
                if more is not None:
                    todo += more
                    continue
            out.add(o)
        return out

    def before(self, f, x, version):
        """Is the text only read for language versions before this one?"""
        n = self.at.get(x[2]) if x[0] == "RAW" and len(x) > 2 else None
        return n is not None and not any(reached(self.model, f, v, n) for v in p23.VERSIONS if v >= version) \
            and any(reached(self.model, f, v, n) for v in p23.VERSIONS if v < version)

    def param(self, o):
        q, nm = o[1].rstrip(")").rsplit("(", 1)
        out = None
        for f in self.model.fns():
            if f.q != q:
                continue
            for i, p in enumerate(f.params):
                if p["name"] != nm:
                    continue
                if "basic_string<char" in p["t"] or p["t"].replace("const ", "").startswith("std::string"):
                    if f.usr in self.attached or self.forwarded(f):
                        out = [("ok", "macro value", "")]      # the values added are sinks
                if "char" in p["t"] and "*" in p["t"]:
                    for g, c in self.member_calls.get(f.usr, ()):
                        out = (out or []) + list(self.prov.origins(g, c.ch[-1]))
                if out is None and f.usr in self.attached:
                    acts = self.attached[f.usr]
                    if all(p23.safe(self.gr, x.ch[0]) for x in acts):
                        out = [("ok", "characters without markup", "")]
        return out

    def forwarded(self, f):
        return f.usr in self.member_calls or any(f.usr in self.attached for _ in (0,))

    def undefined(self, o):
        return None


MEANING = {"source text": "text of the source file", "plain text": "text that was not converted", "decoded text": "text whose entities were decoded",
           "text of a file": "the text of a file", "id": "an id"}


def run(model, rep):
    rep.rule("whatever is added to generated markup is, on every path that leads to it, a literal or number of the tool, text that was "
             "converted or escaped, an id placeholder, or markup the author wrote as such")
    rep.rule("characters that the grammar writes as they are become part of a value known to hold plain text, never of the output")
    s = Sinks(model)
    o = Origins(model)
    old, kinds, grp = 0, {}, {}
    for f, n, a, what in s.out:
        kinds[what] = kinds.get(what, 0) + 1
        os = o.origins(f, a)
        if os and f.file == "doc_info_actions.cpp":
            # versions before 1.6 write document information as the author gave it
            os2 = {x for x in os if not o.before(f, x, 106)}
            old += len(os) - len(os2)
            os = os2
        if not os:
            rep.ok("output escaped", "%s %s" % (n.where(), f.short()))
            continue
        seen = set()
        for x in sorted(os, key=str):
            if x[0] == "RAW":
                key = "%s: %s%s" % (f.short(), x[1], " of " + x[3] if len(x) > 3 and x[3] else "")
                msg = "%s (from %s) is written to the %s without being escaped" % (MEANING.get(x[1], x[1]), x[2], {
                    "file": "output file"}.get(what, what))
            else:
                key = "%s: %s" % (f.short(), " ".join(map(str, x[:2])))
                msg = "text of unknown origin (%s) is written to the %s" % (" ".join(map(str, x)), what)
            if key not in seen:
                seen.add(key)
                rep.bad("output escaped", key, n.where(), msg)
    plain_text(model, o.gr, rep)
    for k, least in (("output", 180), ("HTML", 12), ("macro", 1), ("file", 2)):
        rep.expect(kinds.get(k, 0) >= least, "only %d places that add text to the %s were found" % (kinds.get(k, 0), k))
    rep.at_least("output escaped", 200)
    rep.at_least("plain text", 20)
    rep.extra.update({"sinks": kinds, "raw markup by design": sorted(set(RAW_TAGS.values())),
                      "document information written raw before 1.6 (by design)": old})


# -- characters written as they are -------------------------------------------------
def outside(model, gr, null, start, met):
    """Unsafe raw-printing actions that a start rule reaches without entering a
    scope which makes a value of the text."""
    out, seen, st = [], {start}, [(g, False) for g, _, _ in gr.rules.get(start, ())]
    seen = {(start, False)}
    while st:
        x, inside = st.pop()
        inside = inside or x.k == "scoped" and p23.scope_kind(x) == "value"
        if x.k == "act":
            met.add(id(x))
        if not inside and x.k == "act" and p23.raw_printer(model, gr, x) and not p23.safe(gr, x.ch[0]):
            out.append(x)
        if x.k == "rule":
            for d in null.defs(x.v) or ():
                if (d, inside) not in seen:
                    seen.add((d, inside))
                    st += [(y, inside) for y, _, _ in gr.rules[d]]
        st += [(y, inside) for y in x.ch]
    return out


def flag_prov(model):
    """Follows a flag back to the comparison of a tag with a constant, or to a
    test for a value with a given tag."""
    def classify(f, n, p):
        if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.op == "==":
            t = p23.tag_of(n)
            return ("tag", t) if t is not None else ("other", n.where())
        if n.k == "CXXBoolLiteralExpr":
            return ("no",) if str(n.val) in ("0", "False", "false") else ("other", n.where())
        if is_call(n) and n.k != "CXXOperatorCallExpr":
            for a in call_args(n)[1]:
                if a is not None and p23.tag_of(a) is not None:
                    return ("tag", p23.tag_of(a))
        return None
    return Prov(model, classify)


def only_when(model, pr, f, n):
    """The tags one of which must have been found for the node to be reached."""
    if f.cfg is None:
        return None
    for did, v in f.vars().items():
        if v.get("t", "").replace("const ", "") != "bool":
            continue
        if reached(model, f, 0, n, ("%s:%s#%s" % (f.tu, v["name"], did),)):
            continue
        os, todo = set(), []
        pr._slot_defs(pr.var_slot(f, did), (), set(), os, todo)
        for g, x, _ in todo:
            os |= pr.origins(g, x)
        if os and all(o[0] in ("tag", "no") for o in os):
            return {o[1] for o in os if o[0] == "tag"}
    return None


def flagged_tags(model, gr, key):
    """Tags for which a start rule is used: it is only reached when a flag is
    set, and the flag is the comparison of a tag with a constant."""
    member = None
    for f in model.fns():
        for i in f.d.get("inits", ()):
            e = f.nodes.get(i.get("init"))
            if e is not None and i.get("member") and any(x.k in CONSTRUCTS and x.callee == "quickbook::grammar::grammar" and x.ch and
                                                         gr.key(x.ch[0]) == key for x in e.walk()):
                member = last(i["member"])
    if member is None:
        return None

    pr = flag_prov(model)
    tags, uses = set(), 0
    for f in model.fns():
        for n in f.nodes.values():
            if n.k != "MemberExpr" or n.name != member or bare(n.type) not in ("quickbook::grammar", "grammar") or f.cfg is None:
                continue
            uses += 1
            ts = only_when(model, pr, f, n)
            if not ts:
                return None
            tags |= ts
    return tags if uses else None


def plain_text(model, gr, rep):
    """Characters written as they are only become part of plain text values."""
    null = p05_null(gr, model)
    starts = sorted(null.gstart | null.lazy_rules)
    raw = {id(x): (x, k) for k, ds in gr.rules.items() for g, _, _ in ds for x in g.walk()
           if x.k == "act" and p23.raw_printer(model, gr, x) and not p23.safe(gr, x.ch[0])}
    rep.expect(len(raw) >= 8, "only %d places where the grammar writes characters as they are" % len(raw))
    met = set()
    for key in starts:
        acts = outside(model, gr, null, key, met)
        if not acts:
            rep.ok("plain text", "start rule %s" % key)
            continue
        tags = flagged_tags(model, gr, key)
        if tags:
            # the rule is used while a list with this tag is handled: it must
            # be inside a value scope wherever the grammar makes such a list
            bad = [x for k2 in starts if k2 != key for x in lists_outside(gr, null, k2, tags)]
            if not bad:
                rep.ok("plain text", "start rule %s" % key)
                continue
            acts = bad
        for x in acts:
            w = x.n.where() if x.n is not None else key
            rep.bad("plain text", "%s" % key, w, "characters of the document are written as they are at %s, reached from '%s' outside "
                    "any value scope, so they end up in the output" % (w, key))


    for i, (x, k) in sorted(raw.items(), key=lambda e: e[1][1]):
        if i not in met:
            w = x.n.where() if x.n is not None else k
            rep.bad("plain text", k, w, "characters of the document are written as they are at %s by the rule %s" % (w, k))


def p05_null(gr, model):
    from . import p05
    return p05.Null(gr, model)


def lists_outside(gr, null, start, tags):
    out, seen, st = [], {start}, [g for g, _, _ in gr.rules.get(start, ())]
    while st:
        x = st.pop()
        if x.k == "scoped" and p23.scope_kind(x) == "value":
            continue
        if x.k == "scoped" and p23.scope_kind(x) == "list" and p23.scope_tag(x) in tags:
            out.append(x)
        if x.k == "rule":
            for d in null.defs(x.v) or ():
                if d not in seen:
                    seen.add(d)
                    st += [y for y, _, _ in gr.rules[d]]
        st += list(x.ch)
    return out
