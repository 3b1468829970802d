"""Model of the quickbook sources built from the facts dumped by qbfacts.

The facts are extracted from /repo's current working tree on every run (all
translation units, with the compiler front end), so rules built on this module
see resolved declarations, types, calls and control flow, never text."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QB_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class Broken(Exception):
    """The analysis cannot give an answer (not the same as a violation)."""


FLAGS = ["-std=c++11", "-w", "-I", os.path.join(VERIF, "shim"),
         "-include", "boost/core/invoke_swap.hpp",
         "-DBOOST_FILESYSTEM_NO_DEPRECATED"]


def ensure_tool():
    r = subprocess.run([os.path.join(VERIF, "tool", "build.sh")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("building qbfacts failed:\n" + r.stdout[-2000:])


def extract(src, root, files, include=True, tag="repo"):
    """Run qbfacts over files; returns list of (file, parsed json)."""
    ensure_tool()
    tool = os.path.join(BUILD, "qbfacts")
    flags = list(FLAGS)
    if include:
        flags += ["-I", src]
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="facts-", dir=BUILD)
    errors = []

    def one(f):
        out = os.path.join(tmp, os.path.basename(f) + ".json")
        r = subprocess.run([tool, root, out, f, "--"] + flags,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            errors.append((f, r.stdout[-3000:]))
            return f, None
        with open(out) as fh:
            return f, fh.read()

    try:
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(one, files))
    finally:
        for n in os.listdir(tmp):
            os.unlink(os.path.join(tmp, n))
        os.rmdir(tmp)
    if errors:
        raise Broken("front end failed on " + ", ".join(e[0] for e in errors) +
                     "\n" + errors[0][1])
    return res


class Node:
    __slots__ = ("f", "id", "k", "d", "ch", "parent", "_strip")

    def __init__(self, f, d):
        self.f = f
        self.id = d["id"]
        self.k = d["k"]
        self.d = d
        self.ch = ()
        self.parent = None
        self._strip = None

    def get(self, key, default=None):
        return self.d.get(key, default)

    def __getattr__(self, name):
        # shorthand for dumped attributes: n.t, n.op, n.callee, ...
        if name.startswith("__"):
            raise AttributeError(name)
        return self.d.get(name)

    @property
    def line(self):
        return self.d.get("l", 0)

    @property
    def type(self):
        return self.d.get("t", "")

    def kids(self):
        return [c for c in self.ch if c is not None]

    def walk(self):
        stack = [self]
        while stack:
            n = stack.pop()
            yield n
            for c in reversed(n.ch):
                if c is not None:
                    stack.append(c)

    def where(self):
        return "%s:%d" % (self.f.file, self.line)

    def __repr__(self):
        return "<%s#%d %s %s>" % (self.k, self.id, self.where(),
                                  self.d.get("callee") or self.d.get("name") or self.d.get("op") or "")


TRANSPARENT = {"ImplicitCastExpr", "ParenExpr", "ExprWithCleanups",
               "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
               "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr",
               "CXXDefaultInitExpr", "FullExpr"}


def strip(n, explicit=False, copies=True):
    """Look through nodes that do not change the denoted value."""
    while n is not None:
        if n.k in TRANSPARENT:
            if n.k == "ImplicitCastExpr" and n.ck in ("UserDefinedConversion", "ConstructorConversion"):
                n2 = n.ch[0] if n.ch else None
                n = n2
                continue
            n = n.ch[0] if n.ch else None
        elif explicit and n.k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr",
                                  "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXDynamicCastExpr"):
            n = n.ch[-1] if n.ch else None
        elif copies and n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.copy and len(n.kids()) == 1:
            n = n.kids()[0]
        else:
            return n
    return n


CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral")
CONSTRUCTS = ("CXXConstructExpr", "CXXTemporaryObjectExpr")


def is_call(n):
    return n.k in CALLS


class Function:
    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.usr = d["usr"]
        self.q = d["q"]
        self.name = d["name"]
        self.file = d["file"]
        self.line = d["line"]
        self.end = d.get("end", d["line"])
        self.cls = d.get("cls")
        self.params = d["params"]
        self.nodes = {}
        for nd in d["nodes"]:
            self.nodes[nd["id"]] = Node(self, nd)
        for n in self.nodes.values():
            ch = n.d.get("ch")
            if ch:
                n.ch = tuple(self.nodes.get(c) for c in ch)
            if n.k == "DeclStmt":
                n.ch = tuple(self.nodes.get(v["init"]) for v in n.d.get("vars", ()) if "init" in v)
        for n in self.nodes.values():
            for c in n.ch:
                if c is not None and c.parent is None:
                    c.parent = n
        self.body = self.nodes.get(d["body"])
        self.cfg = Cfg(self, d["cfg"]) if "cfg" in d else None
        self._vars = None

    @property
    def key(self):
        return self.q

    def short(self):
        return self.q.replace("quickbook::", "")

    def where(self):
        return "%s:%d" % (self.file, self.line)

    def vars(self):
        """did -> var record for locals and parameters."""
        if self._vars is None:
            v = {}
            for p in self.params:
                v[p["did"]] = dict(p, kind="param")
            for n in self.nodes.values():
                if n.k == "DeclStmt":
                    for x in n.d.get("vars", ()):
                        v[x["did"]] = dict(x, kind="local", node=n)
                elif n.k == "CXXCatchStmt" and n.exd:
                    v[n.exd] = {"did": n.exd, "name": "<exc>", "t": n.ext, "kind": "exc"}
            self._vars = v
        return self._vars

    def calls(self, *names):
        for n in self.nodes.values():
            if is_call(n) or n.k in CONSTRUCTS:
                if not names or n.callee in names:
                    yield n

    def __repr__(self):
        return "<fn %s %s>" % (self.q, self.where())


class Block:
    __slots__ = ("id", "elems", "term", "tk", "cond", "label", "succs", "preds", "noreturn", "d")


class Cfg:
    def __init__(self, f, d):
        self.f = f
        self.blocks = {}
        for b in d["blocks"]:
            x = Block()
            x.id = b["b"]
            x.d = b
            x.elems = []
            for e in b["e"]:
                if isinstance(e, int):
                    n = f.nodes.get(e)
                    if n is not None:
                        x.elems.append(n)
                else:
                    x.elems.append(e)
            x.term = f.nodes.get(b.get("term"))
            x.tk = b.get("tk")
            x.cond = f.nodes.get(b.get("cond"))
            x.label = f.nodes.get(b.get("label"))
            x.succs = b["s"]
            x.noreturn = b.get("noreturn", False)
            x.preds = []
            self.blocks[x.id] = x
        for x in self.blocks.values():
            for i, s in enumerate(x.succs):
                if s is not None:
                    self.blocks[s].preds.append((x.id, i))
        self.entry = d["entry"]
        self.exit = d["exit"]

    def reachable(self):
        seen = {self.entry}
        st = [self.entry]
        # catch handlers are entered by exceptions: treat as reachable roots
        for b in self.blocks.values():
            if b.label is not None and b.label.k == "CXXCatchStmt" and b.id not in seen:
                seen.add(b.id)
                st.append(b.id)
        while st:
            b = self.blocks[st.pop()]
            for s in b.succs:
                if s is not None and s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def edge_label(self, b, i):
        """Describe edge i of block b: ('true'|'false', cond) for two-way
        branches, ('case', node) for switches, else (None, None)."""
        if b.term is None or len(b.succs) < 2:
            return None, None
        if b.tk == "SwitchStmt":
            s = b.succs[i]
            lab = self.blocks[s].label if s is not None else None
            return "case", lab
        if b.tk in ("CXXTryStmt",):
            return None, None
        if len(b.succs) == 2 and b.cond is not None:
            return ("true" if i == 0 else "false"), b.cond
        return None, None


class Model:
    def __init__(self, loaded, strict=True):
        self.functions = {}
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.tus = [os.path.basename(f) for f, _ in loaded]
        self.raw_count = 0
        for f, text in loaded:
            tu = os.path.basename(f)
            try:
                items = json.loads(text)
            except ValueError as e:
                raise Broken("bad facts for %s: %s" % (tu, e))
            for it in items:
                k = it["kind"]
                if k == "function":
                    key = it["usr"] or (it["file"], it["line"], it["q"])
                    self.raw_count += 1
                    if key in self.functions:
                        continue
                    self.functions[key] = Function(it, tu)
                elif k == "class":
                    self.classes.setdefault(it["usr"] or it["q"], it)
                elif k == "enum":
                    self.enums.setdefault(it["q"] + "@%s:%d" % (it["file"], it["line"]), it)
                elif k == "global":
                    key = it["usr"] or it["q"]
                    if key in self.globals and not ("init" in it and "init" not in self.globals[key].d):
                        continue
                    self.globals[key] = GlobalVar(it, tu)
        self._byname = {}
        for f in self.functions.values():
            self._byname.setdefault(f.q, []).append(f)
        self._overrides = {}
        for f in self.functions.values():
            for o in f.d.get("overrides", ()):
                self._overrides.setdefault(o, []).append(f)
        self._cg = None

    def fns(self):
        return self.functions.values()

    def named(self, q):
        return self._byname.get(q, [])

    def by_usr(self, usr):
        return self.functions.get(usr)

    def targets(self, call):
        """Repo functions a call may enter directly (resolved, incl. overrides)."""
        out = []
        u = call.usr
        if u:
            f = self.functions.get(u)
            if f:
                out.append(f)
            out += self._overrides.get(u, [])
        return out

    def cls(self, q):
        return [c for c in self.classes.values() if c["q"] == q]


class GlobalVar:
    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.q = d["q"]
        self.file = d["file"]
        self.line = d["line"]
        self.name = d["name"]
        self.nodes = {}
        for nd in d.get("nodes", ()):
            self.nodes[nd["id"]] = Node(self, nd)
        for n in self.nodes.values():
            ch = n.d.get("ch")
            if ch:
                n.ch = tuple(self.nodes.get(c) for c in ch)
        for n in self.nodes.values():
            for c in n.ch:
                if c is not None and c.parent is None:
                    c.parent = n
        self.init = self.nodes.get(d.get("init"))


_model = None


def source_files(repo=None):
    src = os.path.join(repo or REPO, "src")
    return sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".cpp"))


def load(repo=None):
    """Facts for the current working tree of /repo."""
    global _model
    repo = repo or REPO
    if _model is not None and _model[0] == repo:
        return _model[1]
    src = os.path.realpath(os.path.join(repo, "src"))
    files = source_files(repo)
    if len(files) < 30:
        raise Broken("only %d translation units found in %s" % (len(files), src))
    cache = None
    if os.environ.get("QB_CACHE"):  # development only
        h = hashlib.sha256()
        for fn in sorted(os.listdir(src)):
            h.update(fn.encode())
            h.update(open(os.path.join(src, fn), "rb").read())
        h.update(open(os.path.join(VERIF, "tool", "qbfacts.cpp"), "rb").read())
        cache = os.path.join(os.environ["QB_CACHE"], h.hexdigest()[:20] + ".json")
        if os.path.exists(cache):
            loaded = json.load(open(cache))
            m = Model(loaded)
            _model = (repo, m)
            return m
    loaded = extract(src, src + "/", files)
    if cache:
        os.makedirs(os.environ["QB_CACHE"], exist_ok=True)
        json.dump(loaded, open(cache, "w"))
    m = Model(loaded)
    if len(m.functions) < 500:
        raise Broken("only %d function bodies extracted" % len(m.functions))
    _model = (repo, m)
    return m


def load_fixture(path):
    """Facts for a self-test fixture (a file in /verif/selftest)."""
    root = os.path.dirname(os.path.realpath(path)) + "/"
    loaded = extract(root, root, [path])
    return Model(loaded)


def nonconst_ref(t):
    """Is the parameter type an lvalue reference to something modifiable?"""
    t = t.rstrip()
    if not t.endswith("&") or t.endswith("&&"):
        return False
    b = t[:-1].rstrip()
    if b.endswith("const") and (len(b) == 5 or not (b[-6].isalnum() or b[-6] == "_")):
        return False
    if b.endswith("*"):
        return True
    return not b.startswith("const ")
