"""P15: command-line options are consulted as declared and reach their setting."""
from . import flow
from .facts import strip, is_call, CONSTRUCTS, Broken, nonconst_ref
from .flow import Rule, Engine, last, call_args, call_object, Ctx

ADD = "boost::program_options::options_description_easy_init::operator()"
# Two spellings of one setting: where the output goes.
SHARED = [{"output-file", "output-dir"}]
# Other locations default to places derived from the input file's.
DEFAULTS = {"input-file"}


def literal(n):
    n = strip(n, explicit=True)
    for _ in range(6):
        if n is None:
            return None
        if n.k == "StringLiteral":
            return n.str
        if n.k in CONSTRUCTS and n.kids():
            n = strip(n.kids()[0], explicit=True)
            continue
        return None
    return None


def declared(model):
    opts = {}
    for f in model.fns():
        for n in f.nodes.values():
            if n.k == "CXXOperatorCallExpr" and n.callee == ADD:
                args = n.ch[2:]
                name = literal(args[0])
                if name is None:
                    raise Broken("option name is not a literal at " + n.where())
                lng = name.split(",")[0]
                t = None
                if n.pt and len(n.pt) == 3 or (n.pt and len(n.pt) == 2 and "value_semantic" in n.pt[1]):
                    for x in args[1].walk():
                        if is_call(x) and x.rt and "typed_value<" in x.rt:
                            t = x.rt.split("typed_value<", 1)[1]
                            depth, out = 0, ""
                            for c in t:
                                if c == "<":
                                    depth += 1
                                if c == ">":
                                    if depth == 0:
                                        break
                                    depth -= 1
                                if c == "," and depth == 0:
                                    break
                                out += c
                            t = out.strip()
                    if t is None:
                        t = "?"
                if lng in opts:
                    opts[lng]["dup"] = n
                opts.setdefault(lng, {"type": t, "node": n, "f": f})
    return opts


def is_vm(n):
    n = strip(n, explicit=True)
    return n is not None and "variables_map" in (n.type or "")


class Reads:
    """Where options are read: name -> list of (kind, node, function, type)."""

    def __init__(self, model):
        self.model = model
        self.items = []       # (name, kind, node, f, type)
        # functions reading an option whose name is a parameter: (usr, param index, kind, type)
        self.via = {}
        for f in model.fns():
            for n in f.nodes.values():
                r = self.read(n)
                if r is None:
                    continue
                kind, namen, typ = r
                lit = literal(namen)
                if lit is not None:
                    self.items.append((lit, kind, n, f, typ))
                    continue
                v = strip(namen, explicit=True)
                for _ in range(4):
                    if v is not None and v.k in CONSTRUCTS and v.kids():
                        v = strip(v.kids()[0], explicit=True)
                idx = None
                if v is not None and v.k == "DeclRefExpr" and v.dk == "parm":
                    for i, p in enumerate(f.params):
                        if p["did"] == v.did:
                            idx = i
                if idx is None:
                    raise Broken("option read with a computed name at " + n.where())
                self.via.setdefault(f.usr, []).append((idx, kind, typ))
        done = set()
        work = list(self.via)
        while work:
            u = work.pop()
            if u in done:
                continue
            done.add(u)
            for f in model.fns():
                for n in f.nodes.values():
                    if is_call(n) and n.usr == u:
                        obj, args = call_args(n)
                        for idx, kind, typ in self.via[u]:
                            lit = literal(args[idx]) if idx < len(args) else None
                            if lit is None:
                                raise Broken("option helper called with a computed name at " + n.where())
                            self.items.append((lit, kind, n, f, typ))
                            if kind == "as":
                                self.items.append((lit, "guard-in-helper", n, f, typ))

    def read(self, n):
        if n.k == "CXXMemberCallExpr" and last(n.callee) == "count" and is_vm(call_object(n)):
            return "count", call_args(n)[1][0], None
        if n.k == "CXXMemberCallExpr" and n.callee == "boost::program_options::variable_value::as":
            o = strip(call_object(n), explicit=True)
            if o is not None and o.k == "CXXOperatorCallExpr" and o.op == "[]":
                t = n.rt.replace("const ", "").rstrip("&")
                return "as", o.ch[2], t
            if o is not None and is_call(o):
                a = call_args(o)[1]
                if a:
                    return "as", a[0], n.rt.replace("const ", "").rstrip("&")
        return None


class Guard(Rule):
    """Every value read happens where the option is known to be present."""

    def __init__(self, model, reads):
        Rule.__init__(self, model)
        self.nodes = {}
        for name, kind, n, f, t in reads.items:
            if kind == "as":
                self.nodes.setdefault((f.usr, n.id), set()).add(name)
        self.unguarded = {}
        self.seen = set()
        self.interesting = set()

    width = 3

    def remember(self, key):
        return ".count(" in key

    def step(self, n, auto, ctx, st):
        names = self.nodes.get((ctx.fn.usr, n.id))
        if names:
            for name in names:
                self.seen.add(name)
                good = any(v and ".count(" in k and repr(name) in k for k, v in st.conds.items())
                if not good:
                    self.unguarded.setdefault(name, n)
        return None


def fields_written(model, f, reads, opts):
    """option -> set of destinations (settings) its value or presence decides."""
    taint = {}        # var did -> set(options)
    src = {}
    for name, kind, n, g, t in reads.items:
        if g is f:
            src.setdefault(n.id, set()).add((name, "data" if kind == "as" else "ctl"))

    def expr_taint(e):
        out = set()
        if e is None:
            return out
        for x in e.walk():
            out |= src.get(x.id, set())
            if x.k == "DeclRefExpr" and x.did in taint:
                out |= taint[x.did]
        return out

    for _ in range(4):
        for n in f.nodes.values():
            if n.k == "DeclStmt":
                for v in n.d.get("vars", ()):
                    if v.get("init"):
                        t = expr_taint(f.nodes[v["init"]])
                        if t:
                            taint.setdefault(v["did"], set()).update(t)
            elif is_call(n) or n.k in CONSTRUCTS:
                obj, args = call_args(n)
                ts = set()
                for a in args:
                    if a is not None:
                        ts |= expr_taint(a)
                if ts:
                    for p, a in zip(n.pt or (), args):
                        s = strip(a, explicit=True) if a is not None else None
                        if s is not None and s.k == "DeclRefExpr" and s.dk == "local" and nonconst_ref(p):
                            taint.setdefault(s.did, set()).update(ts)
            elif n.k == "CXXForRangeStmt":
                t = expr_taint(f.nodes.get(n.range))
                if t and n.loopvar:
                    taint.setdefault(n.loopvar, set()).update(t)
            elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in flow.ASSIGN_OPS:
                s = strip(n.ch[0], explicit=True)
                if s is not None and s.k == "DeclRefExpr" and s.dk == "local":
                    t = expr_taint(n.ch[1])
                    if t:
                        taint.setdefault(s.did, set()).update(t)

    dest = {}

    def add(names, d, kind=None):
        for name, k in names:
            dest.setdefault(name, set()).add((d, kind or k))

    def setting(n):
        n = strip(n, explicit=True)
        if n is None:
            return None
        if n.k == "MemberExpr" and n.dk == "field":
            return n.q
        if n.k == "DeclRefExpr" and n.dk in ("global",):
            return n.q
        if n.k == "DeclRefExpr" and n.dk == "local":
            return "local " + n.name
        return None

    def control(n):
        out = set()
        c, p = n, n.parent
        while p is not None:
            if p.k == "IfStmt" and c.id in (p.d.get("then"), p.d.get("else")):
                out |= {(a, "ctl") for a, b in expr_taint(f.nodes.get(p.cond))}
            elif p.k == "ConditionalOperator" and c is not p.ch[0]:
                out |= {(a, "ctl") for a, b in expr_taint(p.ch[0])}
            elif p.k == "SwitchStmt" and c.id == p.d.get("body"):
                out |= {(a, "ctl") for a, b in expr_taint(f.nodes.get(p.cond))}
            c, p = p, p.parent
        return out

    for n in f.nodes.values():
        tgt = None
        val = None
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in flow.ASSIGN_OPS:
            tgt, val = setting(n.ch[0]), n.ch[1]
        elif n.k == "CXXOperatorCallExpr" and n.op in ("=", "+=", "|=", "/="):
            tgt, val = setting(n.ch[1]), n.ch[2]
        elif n.k == "ReturnStmt":
            tgt, val = "return", n.ch[0] if n.ch else None
        if tgt:
            add(expr_taint(val), tgt)
            add(control(n), tgt)
            continue
        if is_call(n):
            ts = expr_taint(n)
            obj, args = call_args(n)
            if ts and n.inrepo:
                add({t for t in ts}, "call " + last(n.callee))
            if ts:
                for a in args:
                    if a is None:
                        continue
                    for x in a.walk():
                        s = setting(x) if x.k in ("MemberExpr", "DeclRefExpr") else None
                        if s and not s.startswith("local ") and not x.type.startswith("const") and a is not args[0]:
                            add({t for t in ts if t[1] == "data"}, s)
            ctl = control(n)
            if ctl and n.callee and not n.cm:
                add(ctl, "call " + last(n.callee))
    return dest


def run(model, rep):
    rep.rule("each declared option is read under its declared name and type, its value only where it is present; its value flows to a "
             "setting of its own that is consulted elsewhere; no switch over a setting falls from one alternative into the next")
    opts = declared(model)
    rep.expect(len(opts) >= 15, "%d options declared" % len(opts))
    reads = Reads(model)
    by = {}
    for it in reads.items:
        by.setdefault(it[0], []).append(it)
    for name, o in sorted(opts.items()):
        its = by.get(name, [])
        if o.get("dup") is not None:
            rep.bad("declared once", name + "/dup", o["dup"].where(), "option --%s is declared twice" % name)
        if not its:
            rep.bad("option consulted", name + "/unread", o["node"].where(), "option --%s is declared but never consulted" % name)
            continue
        as_reads = [i for i in its if i[1] == "as"]
        if o["type"] is not None and not as_reads:
            rep.bad("option consulted", name + "/value", o["node"].where(), "the value of option --%s is never read" % name)
            continue
        bad = False
        for i in as_reads:
            if o["type"] is None:
                rep.bad("type", name + "/flag", i[2].where(), "option --%s takes no value but one is read" % name)
                bad = True
            elif o["type"] != "?" and norm_type(i[4]) != norm_type(o["type"]):
                rep.bad("type", name + "/type", i[2].where(), "option --%s is declared as %s but read as %s" % (name, o["type"], i[4]))
                bad = True
        if not bad:
            rep.ok("option consulted", "--%s: %s" % (name, ", ".join(sorted({"%s@%d" % (i[1], i[2].line) for i in its}))))
    for name, its in sorted(by.items()):
        if name not in opts:
            rep.bad("read is declared", name + "/undeclared", its[0][2].where(), "option '%s' is read but not declared" % name)
        else:
            rep.ok("read is declared", n=len(its))
    # presence test before value
    g = Guard(model, reads)
    eng = Engine(g, model)
    for f in {i[3].usr: i[3] for i in reads.items if i[1] == "as"}.values():
        eng.run(f, ())
    for name, n in sorted(g.unguarded.items()):
        if any(i[0] == name and i[1] == "guard-in-helper" for i in reads.items):
            continue
        rep.bad("presence tested", name + "/unguarded", n.where(), "the value of --%s is read where the option may be absent" % name)
    rep.ok("presence tested", n=max(0, len(g.seen) - len(g.unguarded)))
    accumulates(model, rep, reads)
    # destinations
    dest = {}
    for f in {i[3].usr: i[3] for i in reads.items}.values():
        for k, v in fields_written(model, f, reads, opts).items():
            dest.setdefault(k, set()).update(v)
    data = {}
    for name in sorted(opts):
        d = dest.get(name, set())
        if not d:
            its = by.get(name)
            if its:
                rep.bad("reaches a setting", name + "/noeffect", its[0][2].where(), "option --%s is read but decides no setting" % name)
            continue
        rep.ok("reaches a setting", "--%s -> %s" % (name, ", ".join(sorted({x[0].replace("quickbook::", "") for x in d})[:6])))
        for x, kind in d:
            if kind == "data" and "::" in x:
                data.setdefault(x, set()).add(name)
    for x, names in sorted(data.items()):
        names = names - DEFAULTS or names
        if len(names) > 1 and not any(names <= x for x in SHARED):
            rep.bad("own setting", x + "/shared", opts[sorted(names)[0]]["node"].where(),
                    "options %s are stored in the same setting %s" % (", ".join("--" + n for n in sorted(names)), x))
        else:
            rep.ok("own setting", "%s <- %s" % (x.replace("quickbook::", ""), ",".join(sorted(names))))
    valued = [n for n, o in opts.items() if o["type"] is not None]
    for name in sorted(valued):
        d = dest.get(name, set())
        if name in by and not any(k == "data" and "::" in x for x, k in d) and not any(k == "ctl" and "::" in x for x, k in d) and name != "input-file":
            rep.bad("reaches a setting", name + "/value-lost", opts[name]["node"].where(), "the value of --%s is not stored in any setting" % name)
    # settings are consulted
    settings = {x for n in opts for x, k in dest.get(n, ()) if x.startswith("quickbook::")}
    reads_of = {}
    for f in model.fns():
        for n in f.nodes.values():
            if (n.k == "MemberExpr" and n.dk == "field" or n.k == "DeclRefExpr" and n.dk == "global") and n.q in settings:
                if not is_write(n):
                    reads_of.setdefault(n.q, set()).add(f.q)
    for s in sorted(settings):
        users = {u for u in reads_of.get(s, ())}
        if not users:
            rep.bad("setting consulted", s + "/unused", "quickbook.cpp:1", "setting %s is set from the command line but never consulted" % s.replace("quickbook::", ""))
        else:
            rep.ok("setting consulted", "%s read in %s" % (s.replace("quickbook::", ""), sorted(users)[0].replace("quickbook::", "")))
    # fall through
    for f in model.fns():
        for sw, lab, b in fallthroughs(f):
            c = strip(f.nodes.get(sw.cond), explicit=False) if sw.cond else None
            if not enum_switch(sw, model) or annotated(b, lab):
                continue
            rep.bad("no fall through", "%s/case %s" % (f.short(), label_name(lab)), "%s:%d" % (f.file, lab.line),
                    "switch in %s: control falls through into '%s'" % (f.short(), label_name(lab)))
        n = sum(1 for x in f.nodes.values() if x.k == "SwitchStmt")
        if n:
            rep.ok("no fall through", n=n)
    rep.at_least("option consulted", 12)
    rep.at_least("no fall through", 5)


LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")


def accumulates(model, rep, reads):
    """Where an option has several values or parts, a later one must not undo
    what an earlier one set: a variable of the surrounding code that the rounds
    of a loop add to is not also overwritten by one of them."""
    files = {i[3].file for i in reads.items}
    n_ok = 0
    for f in model.fns():
        if f.file not in files or f.cfg is None:
            continue
        vs = f.vars()
        for loop in f.nodes.values():
            if loop.k not in LOOPS:
                continue
            inner = {x.d["did"] if "did" in x.d else None for x in loop.walk()}
            decl = set()
            for x in loop.walk():
                if x.k == "DeclStmt":
                    decl |= {v["did"] for v in x.d.get("vars", ())}
            ups = {}
            for x in loop.walk():
                did, kind = None, None
                if x.k == "CompoundAssignOperator" and x.op in ("|=", "+=", "&=", "^="):
                    did, kind = target(x.ch[0]), "add"
                elif x.k == "BinaryOperator" and x.op == "=":
                    did = target(x.ch[0])
                    kind = "add" if any(y.k == "DeclRefExpr" and y.did == did for y in x.ch[1].walk()) else "set"
                if did is None or did in decl or did not in vs:
                    continue
                if leaves(x, loop):
                    continue
                ups.setdefault(did, []).append((kind, x))
            for did, us in ups.items():
                if len(us) < 2:
                    continue
                sets = [x for k, x in us if k == "set"]
                adds = [x for k, x in us if k == "add"]
                consts = {x.ch[1].cv for x in sets}
                header = [x for x in sets if x.parent is loop]
                if header:
                    continue
                if sets and (adds or len(consts) > 1 and None not in consts and all(isinstance(c, int) and c and not c & (c - 1) for c in consts)):
                    v = vs[did]
                    rep.bad("values add up", "%s/%s" % (f.short(), v["name"]), sets[0].where(),
                            "in %s '%s' is overwritten by one value of an option that can have several; what the values before it set is lost" % (
                                f.short(), v["name"]))
                else:
                    n_ok += 1
                    rep.ok("values add up", "%s: %s" % (f.short(), vs[did]["name"]))
    return n_ok


def target(n):
    s = strip(n, explicit=True)
    return s.did if s is not None and s.k == "DeclRefExpr" and s.dk == "local" else None


def leaves(x, loop):
    """The round the assignment is made in is the last one."""
    n = x
    while n is not None and n is not loop:
        p = n.parent
        if p is not None and p.k == "CompoundStmt":
            for y in p.ch[p.ch.index(n) + 1:]:
                if y is not None and y.k in ("BreakStmt", "ReturnStmt", "GotoStmt"):
                    return True
        n = p
    return False


def norm_type(t):
    return t.replace("std::__cxx11::", "std::").replace(" ", "").replace("std::string", "std::basic_string<char>")


def is_write(n):
    c, p = n, n.parent
    while p is not None and p.k in ("ParenExpr",):
        c, p = p, p.parent
    if p is None:
        return False
    if p.k == "BinaryOperator" and p.op == "=" and p.ch[0] is c:
        return True
    if p.k == "CXXOperatorCallExpr" and p.op == "=" and p.ch[1] is c:
        return True
    if p.k == "MemberExpr" and p.name in ("clear", "operator="):
        return True
    if is_call(p) and last(p.callee) in ("back_inserter",):
        return True
    return False


def enum_switch(sw, model):
    for x in sw.walk():
        if x.k == "CaseStmt" and owner(x) is sw:
            return any(y.k == "DeclRefExpr" and y.dk == "enum" for y in (x.ch[0].walk() if x.ch and x.ch[0] is not None else ()))
    return False


def annotated(b, lab):
    for e in b.elems:
        if not isinstance(e, dict) and (e.k == "AttributedStmt" or "FALLTHROUGH" in (e.mac or "").upper()):
            return True
    return b.term is not None and b.term.k == "AttributedStmt"


def label_name(lab):
    if lab.k == "DefaultStmt":
        return "default"
    for x in lab.walk():
        if x.k == "DeclRefExpr" and x.dk == "enum":
            return x.name
    return str(lab.val)


def fallthroughs(f):
    if f.cfg is None:
        return
    cfg = f.cfg
    reach = cfg.reachable()
    for b in cfg.blocks.values():
        if b.label is None or b.label.k not in ("CaseStmt", "DefaultStmt") or b.id not in reach:
            continue
        for (p, i) in b.preds:
            if p not in reach:
                continue
            pb = cfg.blocks[p]
            if pb.tk == "SwitchStmt":
                continue
            if pb.noreturn:
                continue
            if pb.label is not None and pb.label.k in ("CaseStmt", "DefaultStmt") and not [e for e in pb.elems if not isinstance(e, dict) and e.k not in ("IntegerLiteral", "DeclRefExpr", "ImplicitCastExpr", "ConstantExpr", "NullStmt")]:
                # stacked labels; their own entry is checked separately
                if all(cfg.blocks[q].tk == "SwitchStmt" or True for q, _ in pb.preds):
                    continue
            # labels are also targets of loops around the switch: only count
            # straight-line flow from another alternative of the same switch
            sw = owner(b.label)
            src = None
            for e in pb.elems:
                if not isinstance(e, dict):
                    src = e
            if src is None and pb.term is not None:
                src = pb.term
            if src is None or pb.noreturn:
                continue
            if inside(src, sw) and assert_like(pb) is False:
                yield sw, b.label, pb


def assert_like(pb):
    """Blocks whose only content is an assert(false)."""
    es = [e for e in pb.elems if not isinstance(e, dict)]
    return bool(es) and all((e.mac or "").endswith("assert") for e in es)


def owner(lab):
    p = lab.parent
    while p is not None and p.k != "SwitchStmt":
        p = p.parent
    return p


def inside(n, sw):
    while n is not None:
        if n is sw:
            return True
        n = n.parent
    return False
