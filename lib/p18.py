"""P18: only requested files are written.

Provenance of every path that is opened for writing or created, a list of calls
that must not occur at all, and path-sensitive guards on the optional outputs."""
from . import flow, prov
from .facts import strip, is_call, CONSTRUCTS, Broken
from .flow import Rule, Engine, last, call_args, call_object

FS = "boost::filesystem::"
FORBIDDEN = {
    "remove", "remove_all", "rename", "copy", "copy_file", "copy_directory", "resize_file", "permissions",
    "last_write_time", "create_symlink", "create_hard_link", "create_directory_symlink", "copy_symlink",
}
C_FORBIDDEN = {
    "remove", "rename", "unlink", "unlinkat", "rmdir", "mkdir", "system", "popen", "execl", "execlp", "execle", "execv",
    "execvp", "execve", "fork", "vfork", "posix_spawn", "fopen", "freopen", "open", "open64", "openat", "creat", "mkstemp",
    "tmpfile", "tmpnam", "truncate", "ftruncate", "chmod", "chown", "symlink", "link", "rmdir", "fdopen", "truncate64",
    "_wfopen", "_wsystem", "_popen",
}
CREATE = {"create_directory", "create_directories"}
OUT_OPTIONS = {"output-file", "output-dir", "output-deps", "output-checked-locations"}
LITS = {".html", ".xml", "html", "index.html", ""}


def is_writer_type(t):
    t = (t or "").replace("const ", "")
    return ("ofstream" in t or "fstream" in t and "ifstream" not in t) and not t.endswith("*")


def writers(model):
    """(function, node, path expression) of each place that opens for writing."""
    for f in model.fns():
        for n in f.nodes.values():
            if n.k in CONSTRUCTS and is_writer_type(n.type) and not n.copy:
                ks = [c for c in n.ch if c is not None and c.k != "CXXDefaultArgExpr"]
                if ks:
                    yield f, n, ks[0]
            elif is_call(n) and last(n.callee or "") == "open":
                o = call_object(n)
                if o is not None and is_writer_type(o.type):
                    yield f, n, n.ch[1]
            elif is_call(n) and (n.callee or "").startswith(FS) and last(n.callee) in CREATE:
                yield f, n, n.ch[1]


def neutralises(x, did):
    """Does the call replace every '.' in the local 'did' (by something without one)?"""
    if not is_call(x) or last(x.callee or "") not in ("replace_all", "replace", "replace_all_copy", "replace_copy"):
        return False
    _, args = call_args(x)
    args = [strip(a, explicit=True) for a in args if a is not None]
    if not any(y.k == "DeclRefExpr" and y.did == did for a in args[:2] if a is not None for y in a.walk()):
        return False
    lits = [(a.str if a.str is not None else chr(a.val)) for a in args if a is not None and (a.str is not None or a.k == "CharacterLiteral")]
    return len(lits) == 2 and lits[0] == "." and "." not in lits[1]


class Dots(Rule):
    """Uses of a local reached without its dots having been replaced."""

    def __init__(self, model, f, did):
        Rule.__init__(self, model)
        self.did = did
        self.unsafe = set()

    def may_inline(self, call, t, ctx):
        return False

    def step(self, n, auto, ctx, st):
        if n.k == "DeclRefExpr" and n.did == self.did and auto == 0:
            self.unsafe.add(n.id)
        if neutralises(n, self.did):
            return [1]
        return None


def dot_loop(f, did):
    """A loop, run unconditionally, that replaces each '.' of the local."""
    for x in f.nodes.values():
        if x.k not in ("ForStmt", "WhileStmt", "CXXForRangeStmt"):
            continue
        y = x.parent
        while y is not None and y.k not in ("IfStmt", "SwitchStmt", "ForStmt", "WhileStmt", "DoStmt", "ConditionalOperator"):
            y = y.parent
        if y is not None or not any(z.k == "DeclRefExpr" and z.did == did for z in x.walk()):
            continue
        test = [z for z in x.walk() if z.k in ("BinaryOperator",) and z.op == "==" and any(
            w is not None and strip(w, explicit=True) is not None and strip(w, explicit=True).k == "CharacterLiteral" and strip(w, explicit=True).val == 46 for w in z.ch)]
        put = [z for z in x.walk() if z.k == "BinaryOperator" and z.op == "=" and strip(z.ch[1], explicit=True) is not None and
               (strip(z.ch[1], explicit=True).k == "ConditionalOperator" or
                strip(z.ch[1], explicit=True).k == "CharacterLiteral" and strip(z.ch[1], explicit=True).val != 46)]
        put += [z for z in x.walk() if z.k == "CXXOperatorCallExpr" and z.op == "+=" or z.k == "CXXMemberCallExpr" and last(z.callee or "") in ("push_back", "append")]
        if test and put:
            return True
    return False


def sanitised(f, n, model):
    """Is n a local from whose text every '.' is replaced, on every path, before
    it is used here (so it can name neither a parent directory nor another
    suffix)?"""
    if n.k != "DeclRefExpr" or n.dk not in ("local", "parm"):
        return False
    memo = model.__dict__.setdefault("_dots", {})
    k = (f.usr or id(f), n.did)
    if k not in memo:
        if dot_loop(f, n.did):
            memo[k] = set()
        elif any(neutralises(x, n.did) for x in f.nodes.values()):
            r = Dots(model, f, n.did)
            Engine(r, model).run(f, 0)
            memo[k] = r.unsafe
        else:
            memo[k] = None
    return memo[k] is not None and n.id not in memo[k]


def classify(f, n, p):
    if n.k == "CXXOperatorCallExpr" and n.op == "[]" and "variables_map" in (n.ch[1].type or ""):
        s = [x.str for x in n.walk() if x.k == "StringLiteral"]
        return ("opt", s[0] if s else "?", n.where())
    if n.k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"):
        return []
    if sanitised(f, n, p.model):
        return ("sanitised id", "", n.where())
    if is_call(n) and last(n.callee or "") in ("replace_all_copy",):
        return None
    return None


class Raw(Rule):
    """No path that equals the input file's is taken as output path."""

    def __init__(self, model, prov_, fields):
        Rule.__init__(self, model)
        self.prov = prov_
        self.fields = fields
        self.bad = []
        self.n = 0

    def may_inline(self, call, t, ctx):
        return False

    def step(self, n, auto, ctx, st):
        if n.k == "DeclStmt":
            out = set(auto)
            for v in n.d.get("vars", ()):
                i = ctx.fn.nodes.get(v.get("init"))
                if i is not None and "filesystem::path" in (v.get("t") or "") and self.is_input(i, ctx, auto):
                    out.add(ctx.var_key(v["did"]))
            return [frozenset(out)]
        if n.k == "CXXOperatorCallExpr" and n.op in ("=", "/=", "+=") or n.k == "BinaryOperator" and n.op == "=":
            l, r = (n.ch[1], n.ch[2]) if n.k == "CXXOperatorCallExpr" else (n.ch[0], n.ch[1])
            ls = strip(l, explicit=True)
            if ls is None:
                return None
            k = ctx.key(ls)
            raw = n.op == "=" and self.is_input(r, ctx, auto)
            if ls.k == "MemberExpr" and ls.q in self.fields:
                self.n += 1
                if raw:
                    self.bad.append(n)
            if k is not None and ls.k == "DeclRefExpr":
                return [auto | {k} if raw else auto - {k}]
            return None
        if n.k == "CXXMemberCallExpr" and not n.cm:
            o = call_object(n)
            k = ctx.key(o) if o is not None else None
            if k in auto and last(n.callee or "") in ("replace_extension", "remove_filename", "replace_filename", "append", "concat"):
                return [auto - {k}]
        return None

    def is_input(self, n, ctx, auto):
        n = strip(n, explicit=True)
        if n is None:
            return False
        if n.k == "DeclRefExpr":
            k = ctx.key(n)
            if k in auto:
                return True
            return False
        if is_call(n) or n.k in CONSTRUCTS:
            if n.k in CONSTRUCTS and len(n.kids()) == 1:
                return self.is_input(n.kids()[0], ctx, auto)
            if (n.callee or "").startswith(FS):
                return False        # parent_path(), filename(), p / "x"
            # a conversion of the option's value
            o = self.prov.origins(ctx.fn, n)
            return any(x[0] == "opt" and x[1] == "input-file" for x in o)
        return False


class Guarded(Rule):
    """Which writers are reached under assumed options."""
    max_depth = 6

    def __init__(self, model, sites):
        Rule.__init__(self, model)
        self.sites = sites
        self.hit = {}
        fns = {id(f) for f, n in sites}
        self.find_interesting(lambda f: id(f) in fns)
        self.ids = {id(n) for f, n in sites}

    def step(self, n, auto, ctx, st):
        if id(n) in self.ids:
            self.hit.setdefault(id(n), (n, [x for x in ctx.stack()][0:6], ctx))
        return None


def run(model, rep):
    rep.rule("no call that removes, renames, executes or opens files by other means; every path opened for writing or created "
             "originates only from the output options, the input file's name with its suffix replaced, or ids with '.' neutralised; "
             "an output that was not requested is not opened; the output is never the input")
    p = prov.Prov(model, classify)
    # 1. forbidden calls
    ncalls = 0
    for f in model.fns():
        for n in f.nodes.values():
            if not is_call(n) or not n.callee:
                continue
            ncalls += 1
            q = n.callee
            nm = last(q)
            if (q.startswith(FS) or q.startswith("std::filesystem::")) and nm in FORBIDDEN and n.k == "CallExpr":
                rep.bad("no other file operations", "%s/%s" % (f.short(), nm), n.where(), "%s calls %s" % (f.short(), q))
            elif n.k == "CallExpr" and (q in C_FORBIDDEN or q.startswith("std::") and q[5:] in C_FORBIDDEN and "::" not in q[5:]
                                        and not ("remove" in q and len(n.ch) > 2)):
                rep.bad("no other file operations", "%s/%s" % (f.short(), nm), n.where(), "%s calls %s" % (f.short(), q))
    rep.ok("no other file operations", "%d calls" % ncalls, ncalls)

    # 2. provenance of written paths
    sites = list(writers(model))
    rep.expect(len([1 for f, n, e in sites if is_writer_type(n.type) or n.k in CONSTRUCTS]) >= 3, "output streams not found")
    used = set()
    for f, n, e in sites:
        os = p.origins(f, e)
        opts = {o[1] for o in os if o[0] == "opt"}
        used |= opts
        wrong = []
        for o in sorted(os):
            if o[0] == "opt" and o[1] not in OUT_OPTIONS | {"input-file"}:
                wrong.append("the value of --%s" % o[1])
            elif o[0] == "lit" and o[1] not in LITS:
                wrong.append("the text %r (%s)" % (o[1], o[2]))
            elif o[0] in ("call", "param", "undefined"):
                wrong.append("%s %s" % (o[0], o[1]))
        if not opts & (OUT_OPTIONS | {"input-file"}):
            wrong.append("no output option")
        dep = opts & {"output-deps", "output-checked-locations"}
        if dep and opts - dep:
            wrong.append("both the dependency and the document options (%s)" % ", ".join(sorted(opts)))
        if wrong:
            rep.bad("written paths", "%s/%s" % (f.short(), last(n.callee or n.cls or "")), n.where(),
                    "a path opened for writing in %s comes from %s" % (f.short(), "; ".join(wrong[:4])))
        else:
            rep.ok("written paths", "%s <- %s" % (f.short(), ", ".join(sorted(opts))))
    for o in sorted(OUT_OPTIONS - used):
        rep.bad("written paths", "option " + o, "quickbook.cpp", "no written file originates from --%s" % o)

    # 3. default output name is not the input name
    fields = {n.q for f in model.fns() for n in f.nodes.values()
              if n.k == "MemberExpr" and n.dk == "field" and n.name == "output_path" and n.q}
    outfields = set()
    for s in p.defs:
        if s[0] == "field" and "filesystem::path" in field_type(model, s[1]):
            outfields.add(s[1])
    outfields = {q for q in outfields if any(reaches(p, f, e, q) for f, n, e in sites)}
    rep.expect(outfields, "no output path setting")
    nraw = 0
    for f in model.fns():
        if f.cfg is None or not any(n.k == "MemberExpr" and n.q in outfields for n in f.nodes.values()):
            continue
        r = Raw(model, p, outfields)
        Engine(r, model).run(f, frozenset())
        nraw += r.n
        for n in r.bad:
            rep.bad("default output name", "%s/input as output" % f.short(), n.where(), "the output path can be the input file's own path")
    rep.ok("default output name", "%d assignments of output paths" % nraw, nraw)
    rep.expect(nraw >= 3, "assignments of the output path not found")

    # 4. the output is compared with the input before it is written
    ok = False
    where = "quickbook.cpp"
    for f in model.fns():
        for n in f.nodes.values():
            if is_call(n) and last(n.callee or "") == "equivalent" and (n.callee or "").startswith(FS):
                sides = [{x[1] for x in p.origins(f, a) if x[0] == "opt"} for a in n.ch[1:3]]
                for a, b in (sides, sides[::-1]):
                    if "input-file" in a and "output-file" in b:
                        if controls_error(f, n):
                            ok = True
                        where = n.where()
    if ok:
        rep.ok("output is not the input", where)
    else:
        rep.bad("output is not the input", "overwrites input", where, "nothing prevents the output from overwriting the input file")

    # 5. optional outputs
    guards(model, rep, p, sites, outfields)


def field_type(model, q):
    memo = model.__dict__.setdefault("_fieldtypes", {})
    if not memo:
        for c in model.classes.values():
            for fl in c.get("fields", ()):
                memo[c["q"] + "::" + fl["name"]] = fl.get("t", "")
    return memo.get(q, "")


def reaches(p, f, e, q):
    """Does field q contribute to the expression?"""
    seen = getattr(p, "_reach", None)
    if seen is None:
        seen = p._reach = {}
    k = id(e)
    if k not in seen:
        hit = set()
        old = p._slot_defs

        def sd(s, cx, seen_, out, st):
            if s is not None and s[0] == "field":
                hit.add(s[1])
            return old(s, cx, seen_, out, st)
        p._slot_defs = sd
        try:
            p.origins(f, e)
        finally:
            p._slot_defs = old
        seen[k] = hit
    return q in seen[k]


def controls_error(f, call):
    """The call is (part of) the condition of a branch that counts an error."""
    n = call
    while n is not None and n.k not in ("IfStmt",):
        n = n.parent
    if n is None or not isinstance(n.cond, int):
        return False
    c = f.nodes.get(n.cond)
    if call not in list(c.walk()):
        return False
    neg = False
    x = call.parent
    while x is not None and x is not n:
        if x.k == "UnaryOperator" and x.op == "!":
            neg = not neg
        x = x.parent
    br = f.nodes.get(n.d.get("else") if neg else n.d.get("then"))
    if br is None:
        return False
    for x in br.walk():
        if x.k == "UnaryOperator" and x.op in ("++", "p++") or x.k == "CompoundAssignOperator" or x.k in ("ReturnStmt", "CXXThrowExpr"):
            return True
    return False


def guards(model, rep, p, sites, outfields):
    """A file whose option is absent is not opened; in no-output mode no
    document is opened."""
    stream_sites = [(f, n) for f, n, e in sites if not (is_call(n) and last(n.callee or "") in CREATE)]
    fns = {id(f) for f, n in stream_sites}
    rev = flow.reverse_reach(model, {f.usr for f, n in stream_sites})
    n0 = 0
    for f in model.fns():
        if f.cfg is None or f.usr not in rev:
            continue
        ctx = flow.Ctx(f)
        # path options tested with empty()
        for q in sorted(outfields):
            keys = set()
            for n in f.nodes.values():
                if n.k == "MemberExpr" and n.q == q:
                    k = ctx.key(n)
                    if k:
                        keys.add(k)
            if not keys:
                continue
            direct = [(g, s, e) for g, s, e in sites if reaches(p, g, e, q)]
            # style-less options: default is empty, so the file must be guarded
            opts = set()
            for o in p.origins_of_field(q):
                if o[0] == "opt":
                    opts.add(o[1])
            if not opts & {"output-deps", "output-checked-locations"}:
                continue
            for k in sorted(keys):
                r = ByArg(model, f, q, k)
                cond = {k + ".empty()": True}
                r.pinned = frozenset(cond)
                r.track = lambda x, c=frozenset(cond): x in c
                Engine(r, model).run(f, None, cond)
                n0 += 1
                if r.bad:
                    rep.bad("unrequested output", "%s/%s" % (f.short(), last(q)), r.bad[0].where(),
                            "%s uses %s as a file to write although it is empty (its option was not given)" % (f.short(), last(q)))
                else:
                    rep.ok("unrequested output", "%s guards %s" % (f.short(), last(q)))
    rep.expect(n0 >= 2, "uses of the dependency options not found")
    # no-output mode
    n1 = 0
    doc_sites = [(g, s) for g, s, e in sites if not (is_call(s) and last(s.callee or "") in CREATE)
                 and not ({o[1] for o in p.origins(g, e) if o[0] == "opt"} & {"output-deps", "output-checked-locations"})]
    rep.expect(doc_sites, "document output streams not found")
    for f in model.fns():
        if f.cfg is None or f.usr not in rev:
            continue
        ctx = flow.Ctx(f)
        ks = {ctx.key(n) for n in f.nodes.values() if n.k == "MemberExpr" and (n.q or "").endswith("::style") and "output_style" in (n.type or "")}
        ks.discard(None)
        if not ks or f.name == "main":
            continue
        r = Guarded(model, doc_sites)
        cond = {k: False for k in ks}
        r.pinned = frozenset(cond)
        r.track = lambda x, c=frozenset(cond): x in c or any(y in x for y in c)
        Engine(r, model).run(f, None, cond)
        n1 += 1
        if r.hit:
            n, st, c = list(r.hit.values())[0]
            rep.bad("unrequested output", "%s/no output" % f.short(), n.where(), "a document is written although no output was requested (%s)" % c.chain())
        else:
            rep.ok("unrequested output", "%s writes no document with style output_none" % f.short())
    rep.expect(n1 >= 1, "no-output mode not found")


class ByArg(Rule):
    def __init__(self, model, fn, q, key):
        Rule.__init__(self, model)
        self.bad = []
        self.q = q
        self.fkey = key

    def may_inline(self, call, t, ctx):
        return False

    def step(self, n, auto, ctx, st):
        if n.k in CONSTRUCTS and is_writer_type(n.type) or is_call(n):
            _, args = call_args(n)
            if n.k in CONSTRUCTS:
                args = list(n.ch)
            for a in args:
                s = strip(a, explicit=True) if a is not None else None
                if s is not None and s.k == "MemberExpr" and s.q == self.q and ctx.key(s) == self.fkey:
                    if n.k in CONSTRUCTS or any(t.body is not None for t in self.model.targets(n)) or last(n.callee or "") == "open":
                        self.bad.append(n)
        return None
