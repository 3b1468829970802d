"""P17: no view of text outlives the text it refers to.

A view (string_view, iterator or pointer into text) starts where it is taken
from a text that owns its characters.  From every place that keeps a view
(returns it, puts it in a member, container or global, gives it a name) the
places it can have been taken are found through the whole program; a text that
is a temporary or a local that ends first may not be among them.  A view with
a name may not be used after the text was changed.  An object that keeps
positions in a file given with the file keeps the file."""
import re

from . import flow
from .facts import strip, is_call, CONSTRUCTS, nonconst_ref
from .flow import last, call_args, call_object
from .prov import Prov

SKIP = ("ImplicitCastExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ParenExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CXXDefaultArgExpr")
STORES = ("push_back", "push_front", "insert", "emplace", "emplace_back", "assign", "push", "emplace_front", "operator[]", "operator=", "insert_or_assign")
CHANGES = ("clear", "append", "assign", "push_back", "pop_back", "insert", "erase", "replace", "resize", "swap", "reserve", "shrink_to_fit", "operator=", "operator+=", "emplace_back", "emplace")


KEEPS_FILE = re.compile(r"(boost::)?(intrusive_ptr<.*file>|quickbook::file_ptr|file_ptr)$")
POINTER = re.compile(r"quickbook::[\w:<> ]*?\*( const)?$")
NOT_OWNED = re.compile(r"^(const )?(struct )?(quickbook::)?(mapped_)?file( const)? ?[*&]|^(const )?(boost::)?intrusive_ptr<[^<>]*file>( const)? ?[*&]|^(const )?(quickbook::)?file_ptr( const)? ?[*&]|^(const )?(quickbook::)?value( const)? ?[*&]|value_ref$|value_proxy$")


def bare(t):
    t = (t or "").replace("const ", "").replace("struct ", "").replace("class ", "")
    return re.sub(r"\s+", " ", t).rstrip("&* ").strip() if not t.rstrip().endswith("*") else re.sub(r"\s+", " ", t).strip()


def is_owner(t):
    """std::string (or a type converted to one)."""
    b = bare(t)
    return b in ("std::string", "std::basic_string<char>", "std::vector<char>") or b.startswith("std::basic_string<char,")


def is_view(t):
    t = (t or "").strip()
    if t.endswith("&") and not t.endswith("*&"):
        t = t[:-1].strip()
    b = t.replace("const ", "").replace(" const", "").replace("struct ", "").strip()
    if b.endswith("*"):
        return b.replace(" ", "") in ("char*",)
    return b in ("quickbook::string_view", "string_view", "parse_iterator", "string_iterator", "quickbook::string_iterator", "quickbook::parse_iterator") or \
        b.startswith(("boost::basic_string_view<", "boost::string_view", "std::basic_string_view<", "quickbook::lookback_iterator<const char", "quickbook::lookback_iterator<char",
                      "lookback_iterator<const char", "boost::iterator_range<const char", "__gnu_cxx::__normal_iterator<const char", "__gnu_cxx::__normal_iterator<char",
                      "boost::iterator_range<std::string"))


def view_args(t):
    """Which template arguments of a container are views."""
    b = bare(t)
    i = b.find("<")
    if i < 0 or not b[:i].startswith(("std::", "boost::")) or is_view(t) or is_owner(t):
        return []
    out, d, cur = [], 0, ""
    for c in b[i + 1:]:
        if c == "<":
            d += 1
        elif c == ">":
            if d == 0:
                break
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return [is_view(x) for x in out]


def raw(n):
    """Without the wrapping; tells if a temporary is made on the way."""
    temp = None
    while n is not None:
        if n.k == "MaterializeTemporaryExpr":
            temp = n
            n = n.ch[0] if n.ch else None
        elif n.k in SKIP and n.kids():
            n = n.kids()[-1] if n.k != "CXXDefaultArgExpr" else n.kids()[0]
        else:
            break
    return n, temp


def is_seq(t):
    """A text, a sequence that moves its elements, or what keeps a file."""
    return is_owner(t) or bare(t).startswith("std::vector<") or bool(KEEPS_FILE.match(bare(t)))


def is_iter(t):
    return "__normal_iterator<" in (t or "")


def held(v):
    """How a variable refers to a part of something: 'view' or 'ref'."""
    t = (v.get("t") or "").rstrip()
    if is_view(t) or is_iter(t) and not t.endswith(("&", "*")):
        return "view"
    return "ref" if t.endswith(("&", "*")) else None


class Views:
    """Where a view can have been taken.  Results: (kind, function, did or
    None, node): kind temp / local / call-temp."""

    def __init__(self, model):
        self.model = model
        self.prov = Prov(model)
        self.taken = 0

    def origins(self, f, n, up=True):
        out, seen = set(), set()
        st = [("v", f, n, ())]
        while st:
            what, f, n, cx = st.pop()
            if n is None:
                continue
            key = (what, id(n), cx)
            if key in seen:
                continue
            seen.add(key)
            (self.view if what == "v" else self.owner)(f, n, cx, out, st, up)
        return out

    def param(self, what, f, did, cx, st, up, byref):
        """A parameter: what the callers give."""
        s = ("var", f.usr, did)
        ps = self.prov.params.get(s, [])
        if cx:
            f0, call = cx[-1]
            for n, g, a in ps:
                if n is call:
                    st.append((what, g, a, cx[:-1]))
        elif up:
            for n, g, a in ps:
                st.append((what, g, a, ()))
        if what == "v":
            for g, e in self.prov.defs.get(s, []):
                if g is not None:
                    st.append(("v", g, e, cx))

    def enter(self, what, f, n, cx, st):
        ts = [t for t in self.model.targets(n) if t.body is not None]
        if not ts or any(c[1] is n for c in cx) or len(cx) > 5:
            return bool(ts)
        for t in ts:
            for m in t.nodes.values():
                if m.k == "ReturnStmt" and m.kids():
                    st.append((what, t, m.kids()[0], cx + ((f, n),)))
        return True

    def view(self, f, n, cx, out, st, up):
        n, temp = raw(n)
        if n is None:
            return
        if is_owner(n.type) and n.k not in ("MemberExpr", "DeclRefExpr") or is_owner(n.type):
            st.append(("o", f, n if temp is None else temp, cx))
            return
        k = n.k
        if k in CONSTRUCTS or k in ("InitListExpr", "CXXTemporaryObjectExpr"):
            for c in n.kids():
                if is_owner(c.type):
                    st.append(("o", f, c, cx))
                elif is_view(c.type):
                    st.append(("v", f, c, cx))
            return
        if k == "ConditionalOperator":
            st += [("v", f, c, cx) for c in n.ch[1:]]
            return
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            st += [("v", f, c, cx) for c in n.ch if c is not None and is_view(c.type)]
            return
        if k == "UnaryOperator":
            if n.op == "&":
                x = strip(n.ch[0], explicit=True)
                if x is not None and x.k == "CXXOperatorCallExpr" and x.op in ("[]", "*") and len(x.ch) > 1:
                    st.append(("v", f, x.ch[1], cx))
                elif x is not None and x.k in ("ArraySubscriptExpr", "UnaryOperator"):
                    st.append(("v", f, x.ch[0], cx))
            elif n.op in ("++", "--", "p++", "p--"):
                st.append(("v", f, n.ch[0], cx))
            return
        if k == "DeclRefExpr":
            if n.dk == "local":
                for g, e in self.prov.defs.get(self.prov.var_slot(f, n.did), []):
                    if g is not None:
                        st.append(("v", g, e, cx if g is f else ()))
                v = f.vars().get(n.did)
                if v is not None and re.search(r"\[\d*\]$", v.get("t", "")) and not v.get("static"):
                    out.add(("local", f, n.did, n))
            elif n.dk == "parm":
                o = self.prov.owner.get((f.tu, n.did), f) if n.did not in f.vars() else f
                self.param("v", o, n.did, cx if o is f else (), st, up, False)
            return
        if k == "MemberExpr":
            return          # kept: judged where it is put there
        if is_call(n):
            if self.enter("v", f, n, cx, st):
                return
            o, args = call_args(n)
            if n.k == "CXXOperatorCallExpr":
                args = [a for a in n.ch[1:]]
                o = None
            for a in ([o] if o is not None else []) + [a for a in args if a is not None]:
                x, t = raw(a)
                if is_owner(a.type):
                    st.append(("o", f, a, cx))
                elif is_view(a.type):
                    st.append(("v", f, a, cx))
            return

    def owner(self, f, n, cx, out, st, up):
        self.taken += 1
        n, temp = raw(n)
        if n is None:
            return
        k = n.k
        byval = is_call(n) and not (n.rt or "").rstrip().endswith(("&", "*"))
        if temp is not None or byval or k in CONSTRUCTS:
            out.add(("temp", f, None, n))
            return
        if k == "ConditionalOperator":
            st += [("o", f, c, cx) for c in n.ch[1:]]
            return
        if k == "DeclRefExpr":
            v = f.vars().get(n.did)
            g = f
            if v is None and n.dk in ("local", "parm"):
                g = self.prov.owner.get((f.tu, n.did), f)
                v = g.vars().get(n.did)
            if v is None:
                return
            t = v.get("t", "").rstrip()
            if v.get("static"):
                return
            if n.dk == "parm" or v.get("kind") == "param":
                if t.endswith("&"):
                    self.param("o", g, n.did, cx if g is f else (), st, up, True)
                else:
                    out.add(("local", g, n.did, n))
            elif t.endswith("&"):
                i = g.nodes.get(v.get("init"))
                x, tmp = raw(i)
                if x is not None and (tmp is not None or x.k in CONSTRUCTS or is_call(x) and not (x.rt or "").rstrip().endswith("&")):
                    out.add(("local", g, n.did, n))     # its life is extended
                elif i is not None:
                    st.append(("o", g, i, cx if g is f else ()))
            else:
                out.add(("local", g, n.did, n))
            return
        if k == "MemberExpr":
            b = strip(n.ch[0], explicit=True) if n.ch else None
            if b is None or "*" in (b.type or "") or b.k == "CXXThisExpr":
                return
            if b.k in ("DeclRefExpr", "MemberExpr") or is_call(b) or b.k in CONSTRUCTS:
                st.append(("o", f, n.ch[0], cx))
            return
        if k in ("ArraySubscriptExpr", "UnaryOperator"):
            x = strip(n.ch[0], explicit=True)
            if k == "ArraySubscriptExpr":
                st.append(("o", f, n.ch[0], cx))
            return
        if is_call(n):
            if self.enter("o", f, n, cx, st):
                return
            # a reference to a part: of a container, not of what an iterator or pointer refers to
            o, args = call_args(n)
            if n.k == "CXXOperatorCallExpr":
                o = n.ch[1] if len(n.ch) > 1 and n.op in ("[]", "=", "+=", "<<") else None
            if o is not None and not any(s in (o.type or "") for s in ("iterator", "*", "_ptr")):
                st.append(("o", f, o, cx))


def scope(f, did):
    """The block a local is declared in (chain from the inside out)."""
    for n in f.nodes.values():
        if n.k == "DeclStmt" and any(v["did"] == did for v in n.d.get("vars", ())):
            return n
    return None


def ancestors(n):
    out = []
    while n is not None:
        if n.k in ("CompoundStmt", "ForStmt", "WhileStmt", "IfStmt", "CXXForRangeStmt", "CXXCatchStmt", "LambdaExpr", "SwitchStmt", "DoStmt"):
            out.append(n)
        n = n.parent
    return out


def outlives(f, owner, holder):
    """Does a local text live at least as long as a local that refers to it?"""
    po = f.vars().get(owner, {}).get("kind") == "param"
    ph = f.vars().get(holder, {}).get("kind") == "param"
    if po:
        return True
    if ph:
        return False
    a, b = scope(f, owner), scope(f, holder)
    if a is None or b is None:
        return True
    sa, sb = ancestors(a), ancestors(b)
    if not sa:
        return True
    return sa[0] in sb


def base_local(f, n):
    """The local object an lvalue is part of (not through pointers or
    references)."""
    for _ in range(10):
        n = strip(n, explicit=True)
        if n is None:
            return None
        if n.k == "MemberExpr":
            b = n.ch[0] if n.ch else None
            if b is None or "*" in ((strip(b, explicit=True) or b).type or ""):
                return None
            n = b
        elif n.k == "CXXOperatorCallExpr" and n.op == "[]":
            n = n.ch[1]
        elif n.k == "DeclRefExpr" and n.dk in ("local", "parm"):
            v = f.vars().get(n.did)
            if v is None or v.get("static") or v.get("t", "").rstrip().endswith(("&", "*")):
                return None
            return n.did
        else:
            return None
    return None


class Check:
    def __init__(self, model, rep):
        self.model, self.rep = model, rep
        self.views = Views(model)

    def grown(self):
        """Sequences kept in objects that change after they were made."""
        if not hasattr(self, "_grown"):
            self._grown = {}
            for f in self.model.fns():
                for n in f.nodes.values():
                    if n.k == "CXXMemberCallExpr" and last(n.callee or "") in CHANGES and not n.cm:
                        o = strip(call_object(n), explicit=True) if call_object(n) is not None else None
                        if o is not None and o.k == "MemberExpr" and is_seq(o.type) and not is_owner(o.type):
                            self._grown.setdefault(o.q or o.name, n.where())
        return self._grown

    def pointer(self, f, n, e, what):
        """A pointer that is kept: not to an element of such a sequence."""
        st, seen, ok = [("p", f, e)], set(), True
        v = self.views
        while st:
            k, g, x = st.pop()
            x = strip(x, explicit=True) if x is not None else None
            if x is None or (k, id(x)) in seen:
                continue
            seen.add((k, id(x)))
            if x.k == "ConditionalOperator":
                st += [(k, g, c) for c in x.ch[1:]]
            elif x.k == "UnaryOperator" and x.op == "&" and k == "p":
                st.append(("o", g, x.ch[0]))
            elif x.k == "UnaryOperator" and x.op == "*" and k == "o":
                st.append(("p", g, x.ch[0]))
            elif x.k == "DeclRefExpr" and x.dk in ("local", "parm"):
                o = g if x.did in g.vars() else v.prov.owner.get((g.tu, x.did), g)
                t = (o.vars().get(x.did) or {}).get("t", "").rstrip()
                if k == "o" and not t.endswith("&"):
                    continue
                s = ("var", o.usr, x.did)
                st += [(k, h, a) for _, h, a in v.prov.params.get(s, [])]
                if k == "p":
                    st += [("p", h, a) for h, a in v.prov.defs.get(s, []) if h is not None]
                else:
                    st.append(("o", o, o.nodes.get((o.vars().get(x.did) or {}).get("init"))))
            elif is_call(x):
                ts = [t for t in self.model.targets(x) if t.body is not None]
                for t in ts:
                    st += [(k, t, m.kids()[0]) for m in t.nodes.values() if m.k == "ReturnStmt" and m.kids()]
                if not ts and k == "o":
                    ok = self.element("pointers", f, n, x, what, g) and ok
            elif x.k == "ArraySubscriptExpr":
                continue
            elif x.k == "MemberExpr" and k == "o" and x.ch and "*" not in ((strip(x.ch[0], explicit=True) or x).type or "*"):
                st.append(("o", g, x.ch[0]))
        if ok:
            self.rep.ok("pointers", "%s: %s" % (f.short(), what))

    def element(self, group, f, n, e, what=None, g=None):
        """A view kept of a text that is an element of such a sequence."""
        st, seen, good = [e], set(), True
        where = f.short() + (": " + what if what else "")
        f = g or f
        while st:
            x, t = raw(st.pop())
            if x is None or x.id in seen:
                continue
            seen.add(x.id)
            if x.k == "MemberExpr":
                if is_seq(x.type) and not is_owner(x.type):
                    w = self.grown().get(x.q or x.name)
                    if w:
                        good = False
                        self.rep.bad(group, "%s: element of %s" % (where, x.name), n.where(), "%s an element of %s is kept, whose elements are moved at %s" % ("a pointer to" if what else "a view of", x.name, w))
                elif x.ch:
                    st.append(x.ch[0])
            elif x.k in CONSTRUCTS or x.k == "ConditionalOperator":
                st += [c for c in x.ch if c is not None and (is_owner(c.type) or is_view(c.type) or is_iter(c.type))]
            elif x.k == "DeclRefExpr" and x.dk == "local":
                t = (f.vars().get(x.did) or {}).get("t", "")
                i = f.nodes.get((f.vars().get(x.did) or {}).get("init"))
                if i is not None and (is_view(t) or is_iter(t) or t.rstrip().endswith("&")):
                    st.append(i)
            elif is_call(x) and not self.model.targets(x):
                if x.k == "CXXMemberCallExpr":
                    if last(x.callee or "") in ("begin", "end", "back", "front", "at", "data", "c_str", "substr", "insert", "emplace_back"):
                        st.append(call_object(x))
                elif x.k == "CXXOperatorCallExpr" and x.op in ("->", "*", "[]", "+"):
                    st.append(x.ch[1])
            elif x.k == "UnaryOperator" and x.op == "&":
                st.append(x.ch[0])
        return good

    def keep(self, group, f, n, e, what, holder=None, up=True):
        """A view that is kept: it may not be of a text that ends first."""
        bad = []
        if holder is None:
            self.element(group, f, n, e)
        for kind, g, did, x in self.views.origins(f, e, up):
            if kind == "temp":
                if g is f and holder is not None and self.extended(x):
                    continue
                bad.append("a temporary (%s)" % x.where())
            elif holder is not None and g is f and outlives(f, did, holder):
                continue
            else:
                bad.append("%s, a local of %s" % (g.vars().get(did, {}).get("name", "?"), g.short()))
        if bad:
            for b in sorted(set(bad)):
                self.rep.bad(group, "%s: %s of %s" % (f.short(), what, b), n.where(), "%s refers to the text of %s, which ends first" % (what, b))
        else:
            self.rep.ok(group, "%s: %s" % (f.short(), what))

    @staticmethod
    def extended(x):
        return False

    def find_short(self):
        """Classes of which objects are only made as locals and temporaries."""
        m = self.model
        made = " ".join([(g.d.get("t") or g.d.get("type") or "") for g in m.globals.values()] +
                        [n.type or "" for f in m.fns() for n in f.nodes.values() if n.k == "CXXNewExpr"] +
                        [n.type or "" for f in m.fns() for n in f.nodes.values() if is_call(n) and last(n.callee or "") in ("make_shared", "make_unique", "allocate_shared")])
        words = set(re.findall(r"\b\w+\b(?!::)", made))
        parts = [(c["q"], fl["t"]) for c in m.classes.values() for fl in c.get("fields", ())]
        self.short = set()
        for _ in range(4):          # a part of such an object is one too
            ws = set(words)
            for q, t in parts:
                if not (q in self.short and t.rstrip()[-1:] not in "&*>"):
                    ws |= set(re.findall(r"\b\w+\b(?!::)", t))
            self.short = {c["q"] for c in m.classes.values() if last(c["q"]) not in ws}

    def created(self, f, n):
        """An object of such a class: what it is given is alive as long as it."""
        ts = [t for t in self.model.targets(n) if t.body is not None or t.d.get("inits")]
        for t in ts:
            self.bound(f, n, t)
            if t.cls not in self.short:
                continue
            kept = set()
            for i in t.d.get("inits", ()):
                e = t.nodes.get(i.get("init"))
                if e is not None and i.get("member") and is_view(self.field_type(t.cls, i["member"]) or ""):
                    kept |= {x.did for x in e.walk() if x.k == "DeclRefExpr"}
            p = n.parent
            while p is not None and p.k in SKIP + ("MaterializeTemporaryExpr", "CXXConstructExpr"):
                p = p.parent
            holder = None
            if p is not None and p.k == "DeclStmt":
                for v in p.d.get("vars", ()):
                    i = f.nodes.get(v.get("init"))
                    if i is not None and any(x is n for x in i.walk()):
                        holder = v["did"]
                if holder is None:
                    continue
            elif p is None or p.k not in ("CXXThrowExpr", "ReturnStmt"):
                continue
            for q, a in zip(t.params, n.ch):
                if q["did"] in kept and a is not None:
                    self.keep("members", f, n, a, "what %s keeps" % last(t.cls), holder=holder, up=False)

    def bound(self, f, n, t):
        """Members that are references are not bound to temporaries."""
        fields = {fl["name"]: fl["t"] for c in self.model.classes.values() if c["q"] == t.cls for fl in c.get("fields", ())}
        refs = {}
        for i in t.d.get("inits", ()):
            e = strip(t.nodes.get(i.get("init")), explicit=True) if t.nodes.get(i.get("init")) is not None else None
            if e is not None and i.get("member") and e.k == "DeclRefExpr" and fields.get(last(i["member"]), "").rstrip().endswith("&"):
                refs[e.did] = last(i["member"])
        if not refs:
            return
        p = n.parent
        while p is not None and p.k in SKIP + ("MaterializeTemporaryExpr", "CXXConstructExpr"):
            p = p.parent
        if p is None or p.k not in ("DeclStmt", "CXXNewExpr", "ReturnStmt", "CXXThrowExpr"):
            return
        for q, a in zip(t.params, n.ch):
            if q["did"] in refs and a is not None:
                x, temp = raw(a)
                if temp is not None:
                    self.rep.bad("bound", "%s: %s" % (f.short(), refs[q["did"]]), n.where(), "the member %s refers to a temporary" % refs[q["did"]])
                else:
                    self.rep.ok("bound", "%s: %s" % (f.short(), refs[q["did"]]))

    def run(self):
        m = self.model
        self.find_short()
        for f in m.fns():
            if not f.q.startswith("quickbook") and f.file != "quickbook.cpp":
                continue
            rt = f.d.get("rt") or ""
            for i in f.d.get("inits", ()):
                e = f.nodes.get(i.get("init"))
                if e is None or not i.get("member") or is_view(f.cls) or re.search(r"(lookback_iterator|string_view)(<|$)", f.cls or ""):
                    continue            # a view itself: judged where it is kept
                t = self.field_type(f.cls, i["member"])
                if t and is_view(t):
                    self.keep("members", f, e, e, "member %s" % last(i["member"]), up=f.cls not in self.short)
                elif t and POINTER.search(t):
                    self.pointer(f, e, e, "member %s" % last(i["member"]))
            for n in list(f.nodes.values()):
                if n.k == "ReturnStmt" and n.kids():
                    if is_view(rt) or is_owner(rt) and rt.rstrip().endswith("&"):
                        if is_view(rt):
                            self.keep("returned", f, n, n.kids()[0], "the view returned", up=False)
                        else:
                            self.ref(f, n)
                elif n.k == "DeclStmt":
                    for v in n.d.get("vars", ()):
                        e = f.nodes.get(v.get("init"))
                        if e is not None and is_view(v.get("t")):
                            if v.get("static"):
                                self.keep("globals", f, n, e, "static %s" % v["name"])
                            else:
                                self.keep("named", f, n, e, v["name"], holder=v["did"], up=False)
                elif n.k == "BinaryOperator" and n.op == "=" and is_view(n.ch[0].type):
                    self.assigned(f, n, n.ch[0], n.ch[1])
                elif n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.ch) == 3 and is_view(n.ch[1].type):
                    self.assigned(f, n, n.ch[1], n.ch[2])
                elif n.k == "BinaryOperator" and n.op == "=" and POINTER.search(n.ch[0].type or "") and (strip(n.ch[0], explicit=True) or n).k == "MemberExpr":
                    self.pointer(f, n, n.ch[1], strip(n.ch[0], explicit=True).name)
                elif n.k == "InitListExpr":
                    self.aggregate(f, n)
                elif n.k in CONSTRUCTS:
                    self.created(f, n)
                elif is_call(n):
                    self.container(f, n)
                    self.parsed(f, n)
        for g in m.globals.values():
            if g.init is not None and is_view(g.d.get("t") or g.d.get("type")):
                self.rep.ok("globals", g.q)

    def parsed(self, f, n):
        """The document grammar keeps positions of what it parses."""
        if last(n.callee or "") not in ("parse", "phrase_parse") or self.model.targets(n) or len(n.ch) < 3:
            return
        args = [a for a in call_args(n)[1] if a is not None]
        if not any("quickbook_grammar" in (x.type or "") or "quickbook_grammar" in (x.rt or "") for a in args for x in a.walk()):
            return
        for a in args[:2]:
            if is_view(a.type):
                self.keep("parsed", f, n, a, "text given to the grammar")

    def ref(self, f, n):
        out, seen = set(), set()
        st = [("o", f, n.kids()[0], ())]
        while st:
            w, g, x, cx = st.pop()
            if x is None or (id(x), cx) in seen:
                continue
            seen.add((id(x), cx))
            self.views.owner(g, x, cx, out, st, False)
        if out:
            self.rep.bad("returned", "%s: reference" % f.short(), n.where(), "the reference returned is to a text that ends with the function")
        else:
            self.rep.ok("returned", "%s: reference" % f.short())

    def field_type(self, cls, name):
        for c in self.model.classes.values():
            if c["q"] == cls or (cls or "").startswith(c["q"] + "<"):
                for fl in c.get("fields", ()):
                    if fl["name"] == last(name):
                        return fl["t"]
        return None

    def assigned(self, f, n, lhs, rhs):
        x = strip(lhs, explicit=True)
        if x is not None and x.k == "DeclRefExpr" and x.dk in ("local", "parm"):
            v = f.vars().get(x.did)
            if v is not None and not v.get("static") and not v.get("t", "").rstrip().endswith("&"):
                self.keep("named", f, n, rhs, x.name, holder=x.did, up=False)
                return
        h = base_local(f, lhs)
        self.keep("members", f, n, rhs, (x.name if x is not None and x.name else "what is assigned"), holder=h, up=h is None and not self.callers(f, lhs))

    def callers(self, f, n):
        """An object the caller has (a reference parameter, or the object of a
        short-lived class): what the caller gives lives where it does."""
        for _ in range(10):
            n = strip(n, explicit=True)
            if n is None:
                return False
            if n.k == "CXXThisExpr":
                return f.cls in self.short
            if n.k == "MemberExpr":
                n = n.ch[0] if n.ch else None
                if n is None:
                    return f.cls in self.short
            elif n.k == "CXXOperatorCallExpr" and n.op == "[]":
                n = n.ch[1]
            else:
                return n.k == "DeclRefExpr" and n.dk == "parm"
        return False

    def aggregate(self, f, n):
        t = bare(n.type)
        for c in self.model.classes.values():
            if c["q"] == t:
                for fl, e in zip(c.get("fields", ()), n.ch):
                    if e is not None and is_view(fl["t"]):
                        p = n.parent
                        while p is not None and p.k != "DeclStmt" and p.k in SKIP + ("MaterializeTemporaryExpr",):
                            p = p.parent
                        h = None
                        if p is not None and p.k == "DeclStmt" and len(p.d.get("vars", ())) == 1:
                            h = p.d["vars"][0]["did"]
                        self.keep("members", f, n, e, "member %s" % fl["name"], holder=h, up=h is None)
                return

    def container(self, f, n):
        nm = last(n.callee or "")
        o, args = call_args(n)
        if n.k == "CXXOperatorCallExpr":
            if n.op not in ("[]", "="):
                return
            o, args = n.ch[1], list(n.ch[2:])
            nm = "operator" + n.op
        if o is None or nm not in STORES or self.model.targets(n):
            return
        va = view_args(o.type)
        if not any(va):
            return
        holder = base_local(f, o)
        pos = 0
        for a in args:
            if a is None:
                continue
            if is_view(a.type) or is_owner(a.type) and (pos < len(va) and va[pos]):
                self.keep("containers", f, n, a, "what is put in %s" % (strip(o, explicit=True).name or "a container"), holder=holder, up=holder is None)
            pos += 1


class Changed:
    """A named view is not used after the text it was taken from changed."""

    def __init__(self, check):
        self.c, self.model, self.rep = check, check.model, check.rep

    def owners(self, f, e, ctx, ref=False):
        """Keys of the texts and sequences of this function a view, iterator
        or reference is taken from."""
        out = set()
        st = [e]
        seen = set()
        while st:
            n = st.pop()
            n, temp = raw(n)
            if n is None or n.id in seen or temp is not None and is_owner(n.type):
                continue
            seen.add(n.id)
            if n.k in ("DeclRefExpr", "MemberExpr") and is_seq(n.type) and (n is not raw(e)[0]):
                k = ctx.key(n)
                if k:
                    out.add(k)
            elif n.k in ("DeclRefExpr", "MemberExpr") and is_owner(n.type) and not ref:
                k = ctx.key(n)
                if k:
                    out.add(k)
            elif n.k in CONSTRUCTS or n.k == "ConditionalOperator" or n.k in ("BinaryOperator",):
                st += [c for c in n.ch if c is not None and (is_owner(c.type) or is_view(c.type) or is_iter(c.type))]
            elif n.k == "UnaryOperator" and n.op == "&":
                st.append(n.ch[0])
            elif n.k == "MemberExpr" and n.ch and "*" not in ((strip(n.ch[0], explicit=True) or n).type or "*"):
                b = strip(n.ch[0], explicit=True)
                if is_call(b) and (b.rt or "").rstrip().endswith("&"):
                    st.append(b)
            elif n.k == "CXXOperatorCallExpr" and n.op == "[]" and is_seq(n.ch[1].type):
                st.append(n.ch[1])
            elif is_call(n) and KEEPS_FILE.match(bare((call_object(n) or n).type)) and last(n.callee or "") == "get":
                st.append(call_object(n))
            elif n.k == "CXXOperatorCallExpr" and n.op == "*" and KEEPS_FILE.match(bare(n.ch[1].type)):
                st.append(n.ch[1])
            elif is_call(n) and (is_view(n.rt) or is_iter(n.rt) or (n.rt or "").rstrip().endswith("&") and n.k == "CXXMemberCallExpr" and is_seq((call_object(n) or n).type)):
                if self.model.targets(n):
                    continue
                st += [c for c in n.ch if c is not None and (is_owner(c.type) or is_view(c.type) or is_iter(c.type))]
                if n.k == "CXXMemberCallExpr":
                    st.append(call_object(n))
            elif n.k == "DeclRefExpr" and n.dk == "local":
                i = f.nodes.get((f.vars().get(n.did) or {}).get("init"))
                if i is not None and (is_view(n.type) or is_iter(n.type)):
                    st.append(i)
        return out

    def changes(self, n, ctx, keys):
        if n.k == "CXXMemberCallExpr" and last(n.callee or "") in CHANGES and not n.cm:
            o, args = call_args(n)
            if o is not None and is_seq(o.type) and (is_owner(o.type) or last(n.callee) != "pop_back"):
                ks = {ctx.key(o)}
                if last(n.callee) == "swap":
                    ks |= {ctx.key(a) for a in args if a is not None}
                return bool(ks & keys)
        if n.k == "CXXOperatorCallExpr" and n.op in ("=", "+=") and len(n.ch) > 1 and is_seq(n.ch[1].type):
            return ctx.key(n.ch[1]) in keys
        if is_call(n) and not self.model.targets(n) and n.k != "CXXOperatorCallExpr":
            for p, a in zip(n.pt or (), call_args(n)[1]):
                if a is not None and nonconst_ref(p) and is_seq(p) and ctx.key(a) in keys:
                    return True
        return False

    def run(self):
        for f in self.model.fns():
            if f.cfg is None or not f.q.startswith("quickbook"):
                continue
            ctx = None
            for n in list(f.nodes.values()):
                vs = []
                if n.k == "DeclStmt":
                    vs = [(v["did"], f.nodes.get(v.get("init")), v["name"], held(v) == "ref") for v in n.d.get("vars", ()) if held(v) and v.get("init")]
                    vs = [v for v in vs if v[1] is not None and not (v[3] and f.vars()[v[0]]["t"].rstrip().endswith("*") and (raw(v[1])[0] is None or raw(v[1])[0].k != "UnaryOperator" and last(raw(v[1])[0].callee or "") != "get"))]
                elif n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.op == "=":
                    l, r = (n.ch[0], n.ch[1]) if n.k == "BinaryOperator" else (n.ch[1], n.ch[2]) if len(n.ch) > 2 else (None, None)
                    x = strip(l, explicit=True) if l is not None else None
                    if x is not None and x.k == "DeclRefExpr" and x.dk in ("local", "parm") and (is_view(x.type) or is_iter(x.type)):
                        vs = [(x.did, r, x.name, False)]
                for did, e, name, ref in vs:
                    if e is None:
                        continue
                    ctx = ctx or flow.Ctx(f)
                    keys = self.owners(f, e, ctx, ref)
                    if keys:
                        self.path(f, ctx, n, did, name, keys, ref)

    def path(self, f, ctx, start, did, name, keys, ref):
        cfg = f.cfg
        at = None
        for b in cfg.blocks.values():
            for i, e in enumerate(b.elems):
                if e is start:
                    at = (b.id, i + 1)
        if at is None:
            return
        seen = set()
        st = [(at[0], at[1], None)]
        bad = None
        while st and bad is None:
            bid, i, ch = st.pop()
            b = cfg.blocks[bid]
            dead = False
            for e in b.elems[i:]:
                if isinstance(e, dict):
                    continue
                if e.k == "DeclStmt" and any(v["did"] == did for v in e.d.get("vars", ())) or \
                        not ref and e.k in ("BinaryOperator", "CXXOperatorCallExpr") and e.op == "=" and self.target(e) == did:
                    dead = True
                    break
                if e.k == "DeclRefExpr" and e.did == did and ch is not None and (ref or not self.written(e)):
                    bad = (e, ch)
                    break
                if ch is None and self.changes(e, ctx, keys):
                    ch = e
            if dead or bad:
                continue
            for s in b.succs:
                if s is not None and (s, ch is not None) not in seen:
                    seen.add((s, ch is not None))
                    st.append((s, 0, ch))
        if bad:
            self.rep.bad("unchanged", "%s: %s" % (f.short(), name), bad[0].where(), "%s is used after the text it refers to was changed at %s" % (name, bad[1].where()))
        else:
            self.rep.ok("unchanged", "%s: %s" % (f.short(), name))

    @staticmethod
    def target(e):
        l = e.ch[0] if e.k == "BinaryOperator" else e.ch[1] if len(e.ch) > 1 else None
        x = strip(l, explicit=True) if l is not None else None
        return x.did if x is not None and x.k == "DeclRefExpr" else None

    @staticmethod
    def written(e):
        p = e.parent
        while p is not None and p.k in SKIP:
            p = p.parent
        return p is not None and p.k in ("BinaryOperator", "CXXOperatorCallExpr") and p.op == "=" and Changed.target(p) == e.did


def with_file(model, rep):
    """Positions given together with their file (values together with their
    list) are kept together with it."""
    for f in model.fns():
        if not f.d.get("ctor") or not f.q.startswith("quickbook"):
            continue
        fields = {fl["name"]: fl["t"] for c in model.classes.values() if c["q"] == f.cls for fl in c.get("fields", ())}
        files = {p["did"] for p in f.params if KEEPS_FILE.match(bare(p["t"])) or NOT_OWNED.match(p["t"])}
        views = {p["did"] for p in f.params if is_view(p["t"])}
        if not files:
            continue
        kept, owned = [], False
        for i in f.d.get("inits", ()):
            e = f.nodes.get(i.get("init"))
            if e is None or not i.get("member"):
                continue
            t = fields.get(last(i["member"]), "")
            uses = {x.did for x in e.walk() if x.k == "DeclRefExpr"}
            if is_view(t) and uses & (views | files) or "iterator" in t and uses & files:
                kept.append(last(i["member"]))
            elif uses & files and not NOT_OWNED.search(t) and not t.rstrip().endswith(("&", "*")):
                owned = True
        if kept:
            if owned:
                rep.ok("with the file", f.short())
            else:
                rep.bad("with the file", f.short(), f.where(), "keeps %s, which refer into what it is given, but not what they refer to" % ", ".join(kept))


def owned(model, rep, short):
    """Objects that are kept have files and values of their own."""
    for c in model.classes.values():
        if not c["q"].startswith("quickbook") or c["q"] in short:
            continue
        for fl in c.get("fields", ()):
            if NOT_OWNED.search(fl["t"]):
                rep.bad("owned", "%s::%s" % (c["q"], fl["name"]), "", "%s is kept without keeping what it refers to" % fl["t"])
            elif KEEPS_FILE.match(bare(fl["t"])) or bare(fl["t"]) in ("quickbook::value", "value"):
                rep.ok("owned", "%s::%s" % (c["q"], fl["name"]))


def run(model, rep):
    rep.rule("a view that is kept (returned, in a member, container, static or a variable) is not of a temporary or of a local that ends first")
    rep.rule("a view with a name is not used after the text it was taken from was changed")
    rep.rule("an iterator or reference into a text or vector with a name is not used after it was changed; a view or pointer that is kept is not to an element of a vector that changes")
    rep.rule("text given to the document grammar, whose actions keep positions of it, is not of a temporary or local")
    rep.rule("an object that keeps positions in a file given with it keeps the file alive; an object that keeps a file or value owns a share of it")
    rep.rule("a member that is a reference is not bound to a temporary")
    c = Check(model, rep)
    c.run()
    Changed(c).run()
    with_file(model, rep)
    owned(model, rep, c.short)
    rep.at_least("members", 5)
    rep.at_least("returned", 10)
    rep.at_least("named", 40)
    rep.at_least("containers", 3)
    rep.at_least("with the file", 2)
    rep.at_least("owned", 4)
    rep.at_least("pointers", 20)
    rep.at_least("parsed", 4)
    rep.extra.update({"texts views are taken from": c.views.taken})
