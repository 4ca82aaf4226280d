"""C13: every combination accumulates into zeroed sparse grids and runs its phases in order."""
from ..core import Ctx, canon, strip, walk, dispatches
from ..explore import Explorer, Client
from .c05 import PREFIX, skip
from .c18 import Model as Buffers, short, norm, rooted, FILL

HIER = "combigrid::DistributedHierarchization::"
IO = "combigrid::DistributedSparseGridIO::"
COM = "combigrid::CombiCom::"
UP = ("combigrid::ProcessGroupWorker", "combigrid::SparseGridWorker", "combigrid::TaskWorker")


def mentions(c, what):
    if not isinstance(c, tuple) or not c:
        return False
    if c[0] == "field" and c[2] == what or c[0] == "call" and short(c[1]) == what:
        return True
    return any(mentions(x, what) for x in c[1:] if isinstance(x, tuple))


class Model:
    def __init__(self, p):
        self.p = p
        self.b = Buffers(p)
        own = {}
        for f in p.fns.values():
            if f.body is None:
                continue
            own[f.key] = {e for n in f.calls() for e in self.prim(n)}
            if "DistributedSparseGridDataContainer" in f.q and f.key in self.b.direct:
                own[f.key] = own[f.key] | {"Z"}
        out = {f.key: {g.key for n in f.calls() for g in p.callees(n)} | {l["f"] for l in f.lambdas()} for f in p.fns.values() if f.body is not None}
        self.reach = {k: set(v) for k, v in own.items()}
        rev = {}
        for k, cs in out.items():
            for c in cs:
                rev.setdefault(c, set()).add(k)
        work = list(self.reach)
        while work:
            k = work.pop()
            for c in rev.get(k, ()):
                if not self.reach[k] <= self.reach[c]:
                    self.reach[c] |= self.reach[k]
                    work.append(c)
        self._loops = {}

    def prim(self, n):
        q = n.get("n") or ""
        if q.startswith(HIER):
            s = short(q)
            if s.startswith("hierarchize"):
                return ("H",)
            if s.startswith("dehierarchize"):
                return ("D",)
        if short(q) == "addDistributedFullGrid":
            return ("A",)
        if short(q) == "extractFromUniformSG":
            return ("X",)
        if q.startswith(IO) and short(q).startswith("write"):
            return ("W",)
        if q.startswith(COM) and "Reduce" in short(q) and "Size" not in short(q) and short(q).startswith("distributed"):
            return ("G",)
        return ()

    def local(self, c):
        """declaration of a local variable given by its canonical form"""
        f = self.p.fns.get(c[1])
        return f.root().vars().get(c[2]) if f is not None else None

    def alias(self, c, names, depth=0):
        """the expression is rooted at a local reference that was bound to something with one of the names"""
        while isinstance(c, tuple) and c and c[0] != "var":
            nx = [x for x in c[1:] if isinstance(x, tuple)]
            if not nx:
                return False
            c = nx[0]
        if not isinstance(c, tuple) or not c or depth > 4:
            return False
        v = self.local(c)
        if v is None or not (v.get("t") or "").rstrip().endswith(("&", "*")):
            return False
        for x in walk(v.get("init") or v.get("rangeof")):
            if x.get("k") in ("mem", "call") and short(x.get("n") or x.get("m")) in names:
                return True
            if x.get("k") == "ref" and x.get("d") in self.p.fns[c[1]].root().vars() and self.alias(("var", c[1], x["d"], x.get("n")), names, depth + 1):
                return True
        return False

    def loops(self, f):
        r = self._loops.get(f.key)
        if r is None:
            r = self._loops[f.key] = {}
            for n in f.nodes():
                if n.get("k") in ("for", "rfor", "while"):
                    key = n.get("range") if n["k"] == "rfor" else n.get("cond")
                    if key is None or not n.get("body"):
                        continue
                    ev = set()
                    for x in walk(n["body"]):
                        if x.get("k") == "call":
                            ev |= set(self.prim(x))
                            for g in self.p.callees(x):
                                ev |= self.reach.get(g.key, set())
                    if ev or f.key in self.b.direct:
                        r[id(key)] = id(n)
        return r


class Phases(Client):
    """state: frozenset of facts: ("it", loop) a loop was entered; ("z", grid, buffer) zeroed; ("st", grid, stage); ("fg", state of the task grids)"""

    def __init__(self, m, root):
        self.m, self.root = m, root
        self.bad, self.ends, self.n = {}, set(), 0

    def inline(self, fn, call, ctx):
        if skip(fn) or fn.q.startswith((HIER, COM)):
            return False
        if set(self.m.prim(call)):
            return False
        if fn.key in self.m.b.change and fn.file.startswith("src/sparsegrid/") and self.m.reach.get(fn.key, set()) & {"Z"} and len(list(fn.nodes())) < 250:
            return True
        r = self.m.reach.get(fn.key, set())
        return bool(r & set("HDAXG")) or "Z" in r and fn.q.startswith(UP)

    def grid(self, c):
        """which sparse grids an expression denotes"""
        for name, field, get in (("combined", "combinedUniDSGVector_", "getCombinedUniDSGVector"), ("extra", "extraUniDSGVector_", "getExtraUniDSGVector")):
            if mentions(c, field) or mentions(c, get) or self.m.alias(c, (field, get)):
                return name
        return ("grid", norm(c))

    def full(self, c, n, ctx):
        """which full grids: the tasks' grids, or one made on the spot"""
        while isinstance(c, tuple) and c and c[0] in ("deref", "addr", "field", "call", "obj"):
            if mentions(c, "getDistributedFullGrid"):
                return "tasks"
            nx = [x for x in c[1:] if isinstance(x, tuple)]
            if not nx:
                return "tasks"
            c = nx[0]
        if isinstance(c, tuple) and c and c[0] == "var":
            v = self.m.local(c)
            if v is not None and not (v.get("t") or "").rstrip().endswith(("&", "*")):
                return ("fg", c)
        return "tasks"

    def note(self, what, msg, n):
        self.bad.setdefault(what, (msg, n.get("l")))

    def step(self, st, node, ctx, ex, facts):
        m, n = self.m, node.ast
        if node.kind != "op":
            return (st,)
        # zeroing and re-allocation of buffers
        for mem, base, how, arg in m.b.events(n, ctx, lambda e: ex.canon(e, ctx)):
            if mem not in m.b.data:
                continue
            g = self.grid(base)
            z = ("z", g, mem)
            if how == "clear":
                st = st | {z}
            elif how == "assign" or how == "element" and n.get("k") == "call" and short(n.get("n")) in FILL:
                zero = how == "assign" or any(ex.cnst(ex.value(x, ctx, facts)) == 0 or "new" == ex.value(x, ctx, facts)[0] for x in n.get("a", [])[1:])
                if zero:
                    st = frozenset(x for x in st if x[:2] != ("st", g)) | {z}
            elif how == "resize":
                pass            # the old values stay
        if n.get("k") != "call":
            return (st,)
        if short(n.get("n")) == "allocateDifferentSubspaces" and n.get("obj") is not None:
            g = self.grid(ex.canon(n["obj"], ctx))
            st = frozenset(x for x in st if x[:2] not in (("in", g), ("st", g)))
            if n.get("a") and mentions(ex.canon(n["a"][0], ctx), "getIngroupSubspaces"):
                st = st | {("in", g, True)}
        for e in m.prim(n):
            self.n += 1
            st = self.event(st, e, n, ctx, ex)
        return (st,)

    def event(self, st, e, n, ctx, ex):
        objs = [ex.canon(x, ctx) for x in ([n["obj"]] if n.get("obj") is not None else []) + n.get("a", [])]
        fg = self.full(objs[0] if objs else None, n, ctx)
        if e in "HD":
            cur = [x for x in st if x[0] == "fg" and x[1] == fg]
            v = cur[0][2] if cur else None
            if e == "H":
                if v == "hier":
                    # the same sweep over all grids
                    if not any(x == ("last", "H") for x in st):
                        self.note("twice", "grids are hierarchized that are hierarchized already", n)
                v = "hier"
            else:
                if v == "nodal" and not any(x == ("last", "D") for x in st):
                    self.note("twice", "grids are dehierarchized that are not hierarchized", n)
                v = "nodal"
            st = frozenset(x for x in st if not (x[0] == "fg" and x[1] == fg)) | {("fg", fg, v)}
        elif e == "A":
            g = self.grid(objs[0])
            stage = [x[2] for x in st if x[0] == "st" and x[1] == g]
            if stage and stage[0] in ("reduced", "extracted"):
                self.note("again", "component grids are added to a sparse grid that was already reduced or written back, without zeroing it in between", n)
            elif not stage:
                miss = sorted(b for b in self.m.b.data if ("z", g, b) not in st)
                if miss:
                    st = st | {("A0", ",".join(miss))}
            hs = [x[2] for x in st if x[0] == "fg" and x[1] == "tasks"]
            if hs and hs[0] == "nodal":
                self.note("nodal", "grids that are not hierarchized are added to the sparse grid", n)
            if not hs:
                st = st | {("A1",)}
            st = frozenset(x for x in st if x[:2] != ("st", g) and x[:2] != ("z", g)) | {("st", g, "accumulated")}
        elif e == "G":
            gs = [self.grid(c) for c in objs if self.grid(c) in ("combined", "extra")] or [self.grid(objs[0])]
            g = gs[0]
            if not any(x[:2] == ("st", g) for x in st):
                st = st | {("G0",)}
            st = frozenset(x for x in st if x[:2] != ("st", g)) | {("st", g, "reduced")}
        elif e == "X":
            gs = [self.grid(c) for c in objs if self.grid(c) in ("combined", "extra")] or [self.grid(c) for c in objs[1:2]]
            for g in gs:
                stage = [x[2] for x in st if x[0] == "st" and x[1] == g]
                if stage == ["accumulated"] and ("in", g, True) not in st:
                    self.note("early", "results are written back before the reduction across groups was made", n)
                if stage == ["accumulated"] or stage == ["reduced"]:
                    st = frozenset(x for x in st if x[:2] != ("st", g)) | {("st", g, "extracted")}
            st = frozenset(x for x in st if not (x[0] == "fg" and x[1] == fg)) | {("fg", fg, "back")}
        st = frozenset(x for x in st if x[0] != "last") | {("last", e)}
        return st

    def edge(self, st, node, lab, ctx, ex, facts):
        if node.kind != "branch":
            return st
        l = self.m.loops(ctx.fn).get(id(node.ast))
        if l is None:
            return st
        if lab is True:
            return st | {("it", l)}
        if lab is False:
            if ("it", l) not in st:
                return None
            return st - {("it", l)}
        return st

    def leave(self, st, kind, ctx, ex, node):
        if kind == "exit":
            self.ends.add(frozenset(x for x in st if x[0] in ("fg", "A0", "A1", "G0", "st")))


def run(env, rep):
    rep.rule = ("phases of a combination on every path of the workers' functions (helpers inlined, loops entered at least once): component grids are added only to sparse grids whose data and compensation buffers were zeroed on the path, "
                "only when hierarchized, never to an already reduced sparse grid; subspaces shared between groups are reduced before they are extracted; grids that received results are dehierarchized before the sequence ends; nothing is (de)hierarchized twice")
    p = env.prog(False)
    m = Model(p)
    callers = p.callers()
    fns = [f for f in p.src_fns(PREFIX) if f.body is not None and not skip(f) and not f.is_lambda and f.q.startswith(UP) and
           m.reach.get(f.key, set()) & set("HDAXG")]
    roots = [f for f in fns if not dispatches(f)]
    keys = {f.key for f in roots}
    for f in sorted(roots, key=lambda f: f.key):
        cl = Phases(m, f)
        Explorer(p, cl).run(f, frozenset())
        rep.count("functions explored")
        rep.count("phase events on paths", cl.n)
        r = m.reach[f.key]
        up = {c.root().key for c, n in callers.get(f.key, []) if c.root().key != f.key and p.src(c) and p.fns[c.root().key].q.startswith(UP)}
        inner = bool(up) and up <= keys
        v = dict(cl.bad)
        for st in cl.ends:
            for x in st:
                if x[0] == "A0" and (not inner or "Z" in r):
                    v["unzeroed|" + x[1]] = ("component grids are added to a sparse grid whose %s was not zeroed since the last combination" % x[1], f.l)
                if x[0] == "A1" and (not inner or "H" in r):
                    v["unhierarchized"] = ("component grids are added to the sparse grid without being hierarchized before", f.l)
                if x[0] == "fg" and x[2] == "back" and ("D" in r or not inner and "W" not in r):
                    v["left"] = ("grids that received the combined solution are left hierarchized", f.l)
                if x[0] == "G0" and (not inner or "A" in r):
                    v["empty"] = ("a sparse grid is reduced across groups that nothing was added to", f.l)
                if x[0] == "st" and x[2] == "accumulated" and not inner and "G" in r and not any(y[0] == "in" for y in st) and x[1] == "combined" and "X" not in r:
                    v["unreduced"] = ("a sequence ends with locally accumulated data that was never reduced across groups", f.l)
        for what, (msg, line) in sorted(v.items()):
            rep.violation("%s|%s" % (what, f.q), "%s: %s" % (f.q.split("::")[-1], msg), "%s:%s" % (f.file, line))
        if not v:
            rep.ok(f.key, "%s: phases %s in order (%d end states)" % (f.q, "".join(sorted(r)), len(cl.ends)))
    rep.need("functions explored", 8)
    rep.need("phase events on paths", 20)
    rep.assumptions = ["loops over tasks, grids and subspace chunks are entered at least once",
                       "a worker that only hierarchizes and reduces is completed by the command that distributes the result (command order: C01, C02)"]
