"""Natural loops of a function's control flow graph."""


def dominators(cfg):
    ids = list(cfg.blocks)
    reach = cfg.reachable()
    order = []
    seen = set()
    roots = [cfg.entry] + [b.id for b in cfg.blocks.values()
                           if b.label is not None and b.label.k == "CXXCatchStmt"]
    for root in roots:
        if root in seen:
            continue
        st = [(root, iter([s for s in cfg.blocks[root].succs if s is not None]))]
        seen.add(root)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter([x for x in cfg.blocks[s].succs if x is not None])))
                    break
            else:
                order.append(b)
                st.pop()
    order.reverse()
    allb = set(order)
    dom = {b: set(allb) for b in order}
    for r in roots:
        dom[r] = {r}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b in roots:
                continue
            ps = [p for p, _ in cfg.blocks[b].preds if p in allb]
            if not ps:
                d = {b}
            else:
                d = set.intersection(*[dom[p] for p in ps]) | {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    return dom


class Loop:
    __slots__ = ("head", "body", "backs", "stmt", "exits")


def loops(f):
    """List of Loop (merged per head)."""
    r = getattr(f, "_loops", None)
    if r is not None:
        return r
    out = {}
    cfg = f.cfg
    if cfg is None:
        f._loops = []
        return []
    dom = dominators(cfg)
    for b, d in dom.items():
        for s in cfg.blocks[b].succs:
            if s is not None and s in d:
                l = out.get(s)
                if l is None:
                    l = out[s] = Loop()
                    l.head, l.body, l.backs = s, {s}, set()
                l.backs.add(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x in l.body:
                        continue
                    l.body.add(x)
                    for p, _ in cfg.blocks[x].preds:
                        if p in dom and p not in l.body:
                            st.append(p)
    for l in out.values():
        l.exits = []
        for b in l.body:
            for i, s in enumerate(cfg.blocks[b].succs):
                if s is not None and s not in l.body:
                    l.exits.append((b, s, i))
        l.stmt = None
        for b in list(l.body):
            t = cfg.blocks[b].term
            if t is not None and t.k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt"):
                if b == l.head or b in l.backs:
                    l.stmt = t
    f._loops = list(out.values())
    return f._loops
