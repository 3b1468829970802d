"""P13: the output is a function of the input.

No iteration whose order is unspecified may have an order-dependent effect; no
value may come from addresses, the environment, randomness, or the clock outside
the documented date handling."""
import re

from . import flow
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args, call_object

BANNED = {
    "rand": "random numbers", "random": "random numbers", "srand": "random numbers", "rand_r": "random numbers", "drand48": "random numbers",
    "getenv": "the environment", "secure_getenv": "the environment", "getpid": "the process id", "getppid": "the process id",
    "gethostname": "the host", "getuid": "the user", "getlogin": "the user", "tmpnam": "a temporary name", "clock": "the clock",
    "gettimeofday": "the clock", "clock_gettime": "the clock", "times": "the clock", "ftime": "the clock",
    "setlocale": "the locale", "unique_path": "random numbers", "temp_directory_path": "the environment",
    "last_write_time": "file times", "pthread_self": "thread identity", "hash_value": None,
}
CLOCK = {"time", "localtime", "gmtime", "localtime_r", "gmtime_r", "mktime", "timegm"}
NOW = re.compile(r"(std|boost)::chrono::.*::now$|boost::posix_time::.*(local_time|universal_time)$|(random_device|system_clock).*")
ORDERED = ("std::set<", "std::map<", "std::multiset<", "std::multimap<")
COMMUTING = {"insert", "emplace", "erase", "count", "find", "add_glob_match", "add_dependency", "add_glob"}


def is_unordered(t):
    t = t or ""
    return "unordered_" in t.split("<", 1)[0] or "hash_map" in t or "hash_set" in t


def pointer_keyed(t):
    t = t or ""
    m = re.match(r"(?:const )?(?:std::|boost::container::)?(?:multi)?(set|map)<(.*)", t)
    if not m:
        return False
    depth = 0
    arg = ""
    for c in m.group(2):
        if c in "<(":
            depth += 1
        elif c in ">)":
            if depth == 0:
                break
            depth -= 1
        elif c == "," and depth == 0:
            break
        arg += c
    return arg.rstrip().endswith("*")


def alias_types(model, t):
    return t


def loops_over(model):
    """(function, loop node, kind, container type) of loops with unspecified order."""
    for f in model.fns():
        for n in f.nodes.values():
            if n.k not in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                continue
            yield f, n


def order_source(f, loop, resolve):
    """Why the loop's order is unspecified, or None."""
    heads = []
    if loop.k == "CXXForRangeStmt":
        # the range is the initialiser of the first DeclStmt
        heads = [c for c in loop.ch if c is not None]
        for h in heads:
            for x in h.walk():
                if x is loop:
                    continue
                if x.k in ("DeclRefExpr", "MemberExpr") or is_call(x):
                    t = resolve(x.type)
                    if is_unordered(t) and in_header(loop, x):
                        return "hash table"
                    if pointer_keyed(t) and in_header(loop, x):
                        return "container ordered by addresses"
                    if "directory_iterator" in t and in_header(loop, x):
                        return "directory listing"
        return None
    for x in loop.walk():
        if x is loop or not in_header(loop, x):
            continue
        if is_call(x) and last(x.callee or "") in ("begin", "end", "cbegin", "cend"):
            o = call_object(x)
            if o is not None:
                t = resolve(o.type)
                if is_unordered(t):
                    return "hash table"
                if pointer_keyed(t):
                    return "container ordered by addresses"
        if x.k == "DeclRefExpr" and "directory_iterator" in resolve(x.type):
            return "directory listing"
    return None


def in_header(loop, x):
    body = loop_body(loop)
    y = x
    while y is not None and y is not loop:
        if y is body:
            return False
        y = y.parent
    return True


def loop_body(loop):
    if loop.k == "DoStmt":
        return loop.ch[0]
    return loop.ch[-1]


class Order:
    def __init__(self, model, rep, resolve):
        self.model = model
        self.rep = rep
        self.resolve = resolve
        self.memo = {}

    def ordered(self, t):
        t = self.resolve(t or "").replace("const ", "").strip()
        t = t.rstrip("& ")
        return t.startswith(ORDERED) or is_unordered(t) or "::set<" in t[:20] or "dependency_tracker" in t

    def bad_effect(self, f, root, local, depth=0):
        """An order-dependent effect among root's nodes; local: ids of variables
        that live within one round."""
        for n in root.walk():
            r = self.node_effect(f, n, local, depth)
            if r:
                return r
        return None

    def base(self, f, n):
        n = strip(n, explicit=True)
        while n is not None:
            if n.k == "MemberExpr":
                if n.ch and n.dk == "field":
                    m = strip(n.ch[0], explicit=True)
                    if m is None or m.k == "CXXThisExpr":
                        return n
                    n = m
                    continue
                return n
            if n.k in ("ArraySubscriptExpr", "UnaryOperator"):
                n = strip(n.ch[0], explicit=True)
            elif n.k == "CXXOperatorCallExpr":
                n = strip(n.ch[1], explicit=True)
            elif is_call(n) and call_object(n) is not None:
                n = strip(call_object(n), explicit=True)
            else:
                break
        return n

    def is_local(self, f, n, local):
        b = self.base(f, n)
        return b is not None and b.k == "DeclRefExpr" and b.did in local

    def node_effect(self, f, n, local, depth):
        if n.k in ("BreakStmt", "ReturnStmt") and depth == 0 and n.k == "BreakStmt":
            return None
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in flow.ASSIGN_OPS:
            if self.is_local(f, n.ch[0], local):
                return None
            rhs = strip(n.ch[1], explicit=True)
            if n.op == "=" and rhs is not None and (rhs.cv is not None or rhs.k.endswith("Literal")):
                return None
            if n.op in ("|=", "&=", "+=", "-=", "^=") and n.k == "CompoundAssignOperator":
                return None        # commutative on numbers
            return n
        if n.k == "CXXOperatorCallExpr" and n.op in ("=", "+=", "<<", "/="):
            if self.is_local(f, n.ch[1], local):
                return None
            return n
        if not is_call(n) and n.k not in CONSTRUCTS:
            return None
        obj, args = call_args(n)
        ts = [t for t in self.model.targets(n) if t.body is not None]
        if obj is not None and not n.cm and not n.sm and n.k == "CXXMemberCallExpr":
            nm = last(n.callee or "")
            if not self.is_local(f, obj, local):
                if nm in flow.NON_MUTATING:
                    pass
                elif self.ordered(obj.type) and nm in COMMUTING:
                    return None
                elif ts:
                    for t in ts:
                        r = self.fn_effect(t, depth)
                        if r:
                            return n
                elif nm.startswith("operator "):
                    pass
                else:
                    return n
        for i, (p, a) in enumerate(zip(n.pt or (), args)):
            if a is None or not flow.nonconst_ref(p) or self.is_local(f, a, local):
                continue
            if ts:
                continue
            if self.ordered(a.type):
                continue
            s = strip(a, explicit=True)
            if s is not None and s.k == "DeclRefExpr" or s is not None and s.k == "MemberExpr":
                if last(n.callee or "") in ("begin", "end", "get", "distance"):
                    continue
                return n
        if ts and n.k != "CXXMemberCallExpr":
            refs = [a for p, a in zip(n.pt or (), args) if a is not None and flow.nonconst_ref(p) and not self.is_local(f, a, local)]
            if refs:
                for t in ts:
                    r = self.fn_effect(t, depth)
                    if r:
                        return n
        return None

    def fn_effect(self, t, depth):
        if t.usr in self.memo:
            return self.memo[t.usr]
        self.memo[t.usr] = None
        local = set()
        for did, v in t.vars().items():
            if v.get("kind") == "local" and not v.get("t", "").endswith("&"):
                local.add(did)
            elif v.get("kind") == "param" and not (flow.nonconst_ref(v["t"]) or v["t"].rstrip().endswith("*")):
                local.add(did)
        r = None
        if depth < 6 and t.body is not None:
            r = self.bad_effect(t, t.body, local, depth + 1)
        self.memo[t.usr] = r
        return r


def sorted_after(f, loop, n):
    """Is the container the loop fills sorted afterwards in the function?"""
    b = None
    x = n
    o = call_object(n) if is_call(n) else None
    if o is None:
        return False
    s = strip(o, explicit=True)
    if s is None or s.k not in ("DeclRefExpr", "MemberExpr"):
        return False
    for y in f.nodes.values():
        if is_call(y) and last(y.callee or "") in ("sort", "stable_sort") and y.line >= loop.line:
            for z in y.walk():
                if z.k == s.k and (z.did == s.did if s.k == "DeclRefExpr" else z.q == s.q):
                    return True
    return False


class ClockRule(Rule):
    def __init__(self, model):
        Rule.__init__(self, model)
        self.hit = []
        self.find_interesting(lambda f: any(is_clock(n) for n in f.nodes.values()))

    def step(self, n, auto, ctx, st):
        if is_clock(n):
            self.hit.append((n, ctx.chain()))
        return None


def is_clock(n):
    return n.k == "CallExpr" and (n.callee or "").replace("std::", "") in ("time", "localtime", "gmtime")


def run(model, rep):
    rep.rule("loops over hash tables, address-ordered containers and directory listings have only order-independent effects; "
             "no value comes from addresses, randomness, the environment, or the clock outside the date settings (and with --debug not at all); "
             "the order of set keys distinguishes every field")

    def resolve(t):
        return t or ""
    # canonical types: use desugared type when the extractor provides it
    od = Order(model, rep, resolve)
    nl = 0
    for f, loop in loops_over(model):
        nl += 1
        why = order_source(f, loop, resolve)
        if why is None:
            continue
        local = set()
        for x in loop.walk():
            if x.k == "DeclStmt":
                for v in x.d.get("vars", ()):
                    if not v.get("t", "").endswith("&") or "const " in v.get("t", ""):
                        local.add(v["did"])
        for x in loop.walk():       # the iterator itself
            if x.k == "DeclRefExpr" and in_header(loop, x) and "iterator" in (x.type or ""):
                local.add(x.did)
        e = od.bad_effect(f, loop_body(loop), local)
        if e is not None and not sorted_after(f, loop, e):
            rep.bad("unordered iteration", "%s/%s" % (f.short(), why), e.where(),
                    "%s: the effect of each round depends on the order of a %s" % (f.short(), why))
        else:
            rep.ok("unordered iteration", "%s: %s, order-independent" % (f.short(), why))
    rep.ok("loops examined", "%d loops" % nl, nl)
    # other uses of an unordered container's order
    nb = 0
    for f in model.fns():
        for n in f.nodes.values():
            if is_call(n) and last(n.callee or "") in ("begin", "cbegin"):
                o = call_object(n)
                t = resolve(o.type) if o is not None else ""
                if is_unordered(t) or pointer_keyed(t):
                    nb += 1
                    p = n.parent
                    inloop = False
                    while p is not None:
                        if p.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                            inloop = True
                            break
                        if is_call(p) and last(p.callee or "") not in ("begin", "operator="):
                            rep.bad("unordered iteration", "%s/%s" % (f.short(), last(p.callee)), n.where(),
                                    "%s passes the unordered elements of a container to %s" % (f.short(), last(p.callee)))
                            break
                        p = p.parent
    # banned sources
    ncall = 0
    for f in model.fns():
        for n in f.nodes.values():
            if n.k in CONSTRUCTS and NOW.match(n.cls or ""):
                rep.bad("no other inputs", "%s/%s" % (f.short(), n.cls), n.where(), "%s uses %s" % (f.short(), n.cls))
            if not is_call(n) or not n.callee:
                continue
            ncall += 1
            q = n.callee
            nm = last(q)
            ext = not any(True for t in model.targets(n))
            if ext and n.k == "CallExpr" and (q == nm or q.startswith(("std::", "boost::filesystem::", "__gnu"))) and BANNED.get(nm):
                rep.bad("no other inputs", "%s/%s" % (f.short(), nm), n.where(), "%s depends on %s (%s)" % (f.short(), BANNED[nm], q))
            elif NOW.match(q):
                rep.bad("no other inputs", "%s/%s" % (f.short(), nm), n.where(), "%s depends on the clock (%s)" % (f.short(), q))
            elif n.k == "CXXMemberCallExpr" and nm == "operator<<" and n.pt and n.pt[0].replace("const ", "").strip() in ("void *", "void *const"):
                rep.bad("no addresses in output", "%s/pointer" % f.short(), n.where(), "%s writes an address" % f.short())
            elif n.k == "CXXOperatorCallExpr" and n.op == "<<" and n.pt and n.pt[-1].replace("const ", "").strip() == "void *":
                a = n.ch[-1]
                rep.bad("no addresses in output", "%s/pointer" % f.short(), n.where(), "%s writes an address" % f.short())
            elif nm in ("hash_value", "operator()") and "hash<" in q and n.pt and n.pt[0].rstrip("& const").endswith("*"):
                pass
    rep.ok("no other inputs", "%d calls" % ncall, ncall)
    # comparison of object addresses
    for f in model.fns():
        for n in f.nodes.values():
            if n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">="):
                t = [(strip(c).type if strip(c) is not None else "") or "" for c in n.ch[:2]]
                if all(x.replace("const", "").strip().endswith("*") and "char" not in x and ("quickbook" in x or "struct" in x or "class" in x) for x in t):
                    rep.bad("no address comparisons", "%s" % f.short(), n.where(), "%s orders objects by their addresses" % f.short())
    # the clock
    nc = 0
    for f in model.fns():
        cl = [n for n in f.nodes.values() if is_clock(n)]
        if not cl:
            continue
        nc += len(cl)
        # reached with the debug option set?
        for g in entries_with_debug(model, f):
            ctx = flow.Ctx(g)
            conds = {}
            for n in g.nodes.values():
                if is_call(n) and last(n.callee or "") == "count" and any(x.k == "StringLiteral" and x.str == "debug" for x in n.walk()):
                    k = ctx.key(n)
                    if k:
                        conds[k] = True
                elif n.k in ("DeclRefExpr", "MemberExpr") and (n.q or "").endswith("debug_mode"):
                    conds[ctx.key(n)] = True
            r = ClockRule(model)
            r.pinned = frozenset(conds)
            r.track = lambda k, c=frozenset(conds): k in c
            Engine(r, model).run(g, None, conds)
            if r.hit:
                rep.bad("clock only for dates", "%s/debug" % g.short(), r.hit[0][0].where(), "the clock is used although --debug fixes the date")
            else:
                rep.ok("clock only for dates", "%s: not read with --debug" % g.short())
    rep.expect(nc >= 1, "no use of the clock found")
    # the results of the clock: only the two time settings
    from . import prov
    p = prov.Prov(model, lambda f, n, q: ("clock", "", n.where()) if is_clock(n) else None)
    near = {f.usr for f in model.fns() if any(is_clock(n) for n in f.nodes.values())}
    near |= {f.usr for f in model.fns() if any(t.usr in near for n in f.nodes.values() if is_call(n) for t in model.targets(n))}
    for s, ds in list(p.defs.items()):
        ds = [d for d in ds if d[0] is not None and getattr(d[0], "usr", None) in near]
        if s[0] not in ("global", "field"):
            continue
        direct = False
        for f, n in ds:
            if f is None or not hasattr(n, "walk"):
                continue
            os = p.origins(f, n)
            if any(o[0] == "clock" for o in os):
                direct = True
        if direct:
            nm = s[1].rsplit("::", 1)[-1]
            t = gtype(model, s)
            if "tm" in t:
                rep.ok("clock only for dates", nm)
            elif s[0] == "global":
                rep.bad("clock only for dates", nm, "quickbook.cpp", "%s takes its value from the clock" % nm)
    # users of the time settings format a date
    for f in model.fns():
        for n in f.nodes.values():
            if n.k == "DeclRefExpr" and n.dk not in ("parm", "local", "func", "enum") and (n.type or "").replace("struct ", "").strip() in ("tm *", "tm*"):
                q = n.parent
                while q is not None and q.k in ("ImplicitCastExpr", "ParenExpr"):
                    q = q.parent
                if q is not None and (q.k == "BinaryOperator" and q.op == "=" or is_call(q) and last(q.callee or "") == "strftime"):
                    rep.ok("date uses", "%s" % f.short())
                elif q is not None and q.k == "DeclStmt":
                    continue
                else:
                    rep.bad("date uses", "%s" % f.short(), n.where(), "the current time is used for something else than formatting a date in %s" % f.short())
    # ordering of keys
    keyed = {}
    for f in model.fns():
        if f.name == "operator<" and (f.cls or f.params):
            c = f.cls or f.params[0]["t"].replace("const", "").replace("&", "").strip()
            keyed[c] = f
    nk = 0
    for c, f in keyed.items():
        cs = [x for x in model.classes.values() if x["q"] == c or x["q"].endswith("::" + c)]
        if not cs or not used_as_key(model, c):
            continue
        fields = {fl["name"] for fl in cs[0].get("fields", ())}
        read = {n.name for g in reach1(model, f) for n in g.nodes.values() if n.k == "MemberExpr"}
        nk += 1
        miss = fields - read
        if miss:
            rep.bad("keys distinguish", "%s/%s" % (c.rsplit("::", 1)[-1], ",".join(sorted(miss))), f.where(),
                    "the order of %s ignores %s: which of two entries is kept depends on the order of insertion" % (c, ", ".join(sorted(miss))))
        else:
            rep.ok("keys distinguish", c)
    rep.expect(nk >= 1, "no ordered key class")


def reach1(model, f):
    out = [f]
    for n in f.nodes.values():
        if is_call(n):
            out += [t for t in model.targets(n) if t.cls == f.cls]
    return out


def used_as_key(model, c):
    short = c.rsplit("::", 1)[-1]
    pat = re.compile(r"(set|map)<(?:const )?(?:[\w:]*::)?%s\b" % re.escape(short))
    for f in model.fns():
        for p in f.params:
            if pat.search(p["t"]):
                return True
        for v in f.vars().values():
            if pat.search(v.get("t", "")):
                return True
    return False


def gtype(model, s):
    if s[0] == "global":
        for g in model.globals.values():
            if g.q == s[1]:
                return g.d.get("t", "")
        return ""
    from .p18 import field_type
    return field_type(model, s[1])


def entries_with_debug(model, f):
    """The function itself, or the callers in which the debug option is visible."""
    rev = flow.reverse_reach(model, {f.usr})
    out = []
    for g in model.fns():
        if g.usr in rev and g.cfg is not None:
            if any(x.k == "StringLiteral" and x.str == "debug" for n in g.nodes.values()
                   if is_call(n) and last(n.callee or "") == "count" for x in n.walk()):
                out.append(g)
    return out
