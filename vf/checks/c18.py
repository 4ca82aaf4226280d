"""C18: buffers of a distributed sparse grid never outlive the subspace sizes they were laid out for."""
from ..core import AnalysisError, Ctx, canon, simple_return, strip, walk, show
from ..explore import Explorer, Client
from .c05 import PREFIX, skip

GRID, BOX = "AnyDistributedSparseGrid", "DistributedSparseGridDataContainer"
THROUGH = ("operator[]", "at", "data", "begin", "end", "front", "back", "rbegin", "rend", "operator*", "operator->", "get", "operator+", "next")
FILL = ("fill", "fill_n", "iota", "generate", "generate_n", "transform", "copy", "copy_n", "memset", "memcpy", "partial_sum", "exclusive_scan")


def short(n):
    return (n or "").split("<")[0].split("::")[-1]


def norm(c):
    """the object behind references, pointers and smart pointers"""
    while isinstance(c, tuple) and c:
        if c[0] in ("deref", "addr"):
            c = c[1]
        elif c[0] == "call" and short(c[1]) in ("operator->", "operator*", "get") and len(c) == 3:
            c = c[2][1] if c[2][0] == "obj" else c[2]
        elif c[0] == "field":
            return ("field", c[2], norm(c[3]))
        else:
            break
    return c


def rooted(c, names):
    """(field, base) if the canonical lvalue lies inside one of the named members"""
    for _ in range(30):
        if not isinstance(c, tuple) or not c:
            return None
        if c[0] == "field":
            if c[2] in names:
                return c[2], norm(c[3])
            return None
        if c[0] in ("sub", "deref", "addr", "elem"):
            c = c[1]
        elif c[0] == "bin" and c[1] in ("+", "-"):
            c = c[2]
        elif c[0] == "call" and short(c[1]) in THROUGH and len(c) > 2:
            c = c[2][1] if c[2][0] == "obj" else c[2]
        else:
            return None
    return None


def has(c, names):
    if not isinstance(c, tuple):
        return False
    if c and c[0] == "field" and c[2] in names:
        return True
    return any(has(x, names) for x in c)


class Model:
    def __init__(self, p):
        self.p = p
        self.sizes = None
        for f in p.fns.values():
            if f.q.endswith("::%s::getSubspaceDataSizes" % GRID):
                r = simple_return(f)
                r = strip(r) if r else None
                if r is not None and r.get("k") == "mem":
                    self.sizes = r["n"]
        self.data, self.ptrs, self.sets, self.all, self.box = set(), set(), set(), set(), set()
        for k, r in p.recs.items():
            if r.get("dep"):
                continue
            if r["q"].endswith("::" + BOX):
                for f in r["fields"]:
                    t = f["t"]
                    if t.endswith("&"):
                        continue
                    self.all.add(f["n"])
                    if t.startswith("std::vector<"):
                        (self.ptrs if t[12:].split(",")[0].rstrip().endswith("*") else self.data).add(f["n"])
                    elif t.startswith(("std::set<", "std::unordered_set<")):
                        self.sets.add(f["n"])
            else:
                for f in r["fields"]:
                    if "::%s<" % BOX in f["t"]:
                        self.box.add(f["n"])
        self.buf = self.data | self.ptrs
        self.mine = self.buf | self.sets
        # which pointer table describes which buffer
        self.pair, self.offsets = {}, []
        self.loops = {}
        for f in p.src_fns(PREFIX):
            if f.body is None or skip(f):
                continue
            for n in f.nodes():
                if n.get("k") == "asg":
                    l = rooted(canon(n["c"][0], Ctx(f)), self.ptrs)
                    if l:
                        r = canon(n["c"][1], Ctx(f))
                        for d in self.data:
                            if has(r, {d}):
                                self.pair.setdefault(d, set()).add(l[0])
                                self.offsets.append((f, l[0], d, n))
        # functions that (transitively) mention the sizes / the buffers / change them
        self.reads_sizes, self.touch, self.change = set(), set(), set()
        own = {}
        for f in p.fns.values():
            if f.body is None:
                continue
            m = {n["n"] for n in f.nodes() if n.get("k") == "mem"}
            if self.sizes in m:
                self.reads_sizes.add(f.key)
            if m & self.buf:
                self.touch.add(f.key)
            if m & (self.buf | self.sets | {self.sizes}) and self.writes(f):
                self.change.add(f.key)
        out = {f.key: {g.key for n in f.calls() for g in p.callees(n)} for f in p.fns.values() if f.body is not None}
        for f in p.fns.values():
            if f.body is not None and f.key not in self.change and p.src(f) and any(
                    p.fns[k].q.endswith("::getSubspaceDataSizes") for k in out[f.key] if k in p.fns) and self.writes(f):
                self.change.add(f.key)
        self.direct = set(self.change)
        rev = {}
        for k, cs in out.items():
            for c in cs:
                rev.setdefault(c, set()).add(k)
        for s in (self.reads_sizes, self.touch, self.change):
            work = list(s)
            while work:
                for k in rev.get(work.pop(), ()):
                    if k not in s:
                        s.add(k)
                        work.append(k)

    def writes(self, f):
        c = Ctx(f)
        return any(True for n in f.nodes() for e in self.events(n, c, lambda e: canon(e, c)))

    def events(self, n, ctx, cn):
        """(member, base, how, argument) of the modifications a single node performs itself"""
        names = self.mine | {self.sizes}
        k = n.get("k")
        if k == "asg":
            l = rooted(cn(n["c"][0]), names)
            if l and self.through_ref(n["c"][0], ctx):
                whole = strip(n["c"][0]).get("k") == "mem"
                yield l[0], l[1], "assign" if whole else "element", n["c"][1]
        elif k == "un" and n.get("op") in ("++", "--", "post++", "post--", "p++", "p--"):
            l = rooted(cn(n["c"][0]), names)
            if l and self.through_ref(n["c"][0], ctx):
                yield l[0], l[1], "element", None
        elif k == "call":
            nm = short(n.get("n"))
            if n.get("op") == "=" and n.get("obj") is not None:
                l = rooted(cn(n["obj"]), names)
                if l:
                    yield l[0], l[1], "assign" if strip(n["obj"]).get("k") == "mem" else "element", (n.get("a") or [None])[0]
                return
            if n.get("obj") is not None and nm in ("clear", "resize", "assign", "swap", "push_back", "emplace_back", "insert", "erase", "emplace"):
                o = cn(n["obj"])
                if o[0] == "field" and o[2] in names:
                    yield o[2], norm(o[3]), nm, (n.get("a") or [None])[0]
            f = self.p.fns.get(n.get("f"))
            for x, t in zip(n.get("a", []), n.get("pt", [])):
                mut = (t.endswith("&") or t.endswith("*")) and not t.startswith("const ") and "const *" not in t
                fill = nm in FILL and "iterator" in t
                if not mut and not fill and not (nm in FILL and f is None):
                    continue
                if t.startswith("const "):
                    continue
                if f is not None and not t.endswith("*") and f.body is not None:
                    continue        # followed into the callee
                if nm in ("swap",) and f is not None:
                    continue
                l = rooted(cn(x), names)
                if l:
                    yield l[0], l[1], "element", None

    def through_ref(self, e, ctx):
        """an assignment to a by-value copy of an element is no write to the container"""
        e = strip(e)
        if e.get("k") != "ref":
            return True
        v = ctx.fn.vars().get(e["d"])
        if v is None:
            return True
        return v.get("t", "").endswith(("&", "*"))

    def loop_writes(self, f):
        """branch expression -> pointer tables assigned in the loop it controls"""
        r = self.loops.get(f.key)
        if r is None:
            r = self.loops[f.key] = {}
            for n in f.nodes():
                if n.get("k") in ("for", "while", "rfor"):
                    key = n.get("range") if n["k"] == "rfor" else n.get("cond")
                    if key is None or not n.get("body"):
                        continue
                    w = set()
                    c = Ctx(f)
                    for x in walk(n["body"]):
                        for m, b, how, a in self.events(x, c, lambda e: canon(e, c)):
                            if m in self.ptrs:
                                w.add(m)
                    if w:
                        r[id(key)] = w
        return r

    def derives(self, e, ctx, ex, facts, seen=()):
        """True/False/None(unknown): the expression is computed from the current subspace sizes"""
        c = ex.value(e, ctx, facts) if ex else canon(e, ctx)
        return self.derives_c(c, ctx, seen)

    def derives_c(self, c, ctx, seen=()):
        if not isinstance(c, tuple) or not c:
            return False
        if c[0] == "field" and c[2] == self.sizes:
            return True
        if c[0] == "call":
            nm = c[1].split("<")[0]
            if any(self.p.fns[k].q == nm or self.p.fns[k].q.split("<")[0] == nm for k in self.reads_sizes if k in self.p.fns):
                return True
        if c[0] == "var":
            f = self.p.fns.get(c[1])
            if f is None or c in seen:
                return False
            if any(x["id"] == c[2] for x in f.params):
                return None
            res = False
            for n in f.nodes():
                src = None
                if n.get("k") == "asg" and strip(n["c"][0]).get("k") == "ref" and strip(n["c"][0]).get("d") == c[2]:
                    src = n["c"][1]
                elif n.get("k") == "decl":
                    for v in n["vars"]:
                        if v["id"] == c[2] and v.get("init"):
                            src = v["init"]
                if src is not None:
                    r = self.derives_c(canon(src, Ctx(f)), ctx, seen + (c,))
                    if r:
                        return True
                    if r is None:
                        res = None
            return res
        res = False
        for x in c[1:]:
            r = self.derives_c(x, ctx, seen) if isinstance(x, tuple) else False
            if r:
                return True
            if r is None:
                res = None
        return res


class Stale(Client):
    """state: frozenset of (container, buffer) laid out for other sizes than the current ones"""

    def __init__(self, m, root, inl):
        self.m, self.root, self.inl = m, root, inl
        self.problems, self.ends, self.open = {}, {}, set()
        self.seen = 0
        self.large = False

    def inline(self, fn, call, ctx):
        if fn.key not in self.m.change or skip(fn):
            return False
        return (
            fn.key in self.inl or BOX in fn.q or fn.file.startswith("src/sparsegrid/") and len(list(fn.nodes())) < 60)

    def box(self, base, member):
        """identity of the container a buffer member belongs to"""
        if isinstance(base, tuple) and base and base[0] == "field" and base[1] in self.m.box:
            return ("grid", base[2])
        return ("box", base)

    def step(self, st, node, ctx, ex, facts):
        m = self.m
        if node.kind == "branch":
            w = m.loop_writes(ctx.fn).get(id(node.ast))
            if w:
                st = frozenset(x for x in st if x[1] not in w)
            return (st,)
        if node.kind != "op":
            return (st,)
        n = node.ast
        if n.get("k") == "call":
            # a callee that uses the buffers of a stale container
            for g in m.p.callees(n):
                if g.key in m.touch and not self.inline(g, n, ctx) and g.body is not None and short(g.q) not in ("isSubspaceDataCreated",):
                    for x in [n.get("obj")] + list(n.get("a", [])):
                        if x is None:
                            continue
                        o = norm(ex.canon(x, ctx))
                        hit = sorted(b for c, b in st if not b.startswith("-") and (c == ("grid", o) or c == ("box", o)))
                        if hit and g.key not in m.change:
                            self.problems.setdefault(("accessed", short(g.q)), (
                                "%s is called while %s of the grid still have the layout of the previous subspace sizes" % (short(g.q), ", ".join(hit)), n.get("l")))
        for mem, base, how, arg in m.events(n, ctx, lambda e: ex.canon(e, ctx)):
            self.seen += 1
            if mem == m.sizes:
                if how in ("element", "assign") and arg is not None and n.get("k") in ("asg", "call"):
                    l = n["c"][0] if n.get("k") == "asg" else n.get("obj")
                    a, b = ex.value(l, ctx, facts), ex.value(arg, ctx, facts)
                    if any(k == ("==",) + tuple(sorted((a, b), key=repr)) and v is True for k, v in facts):
                        continue       # writes the value that is there
                if (("grid", base), "*") in st:
                    continue
                st = st | {(("grid", base), b) for b in m.buf if (("grid", base), "-" + b) not in st}
                continue
            box = self.box(base, mem)
            if mem in m.sets:
                if any(v is True and k[0] == "truth" and k[1][0] == "call" and short(k[1][1]) == "empty" and rooted(k[1][2][1], m.sets) for k, v in facts if isinstance(k, tuple)):
                    continue           # nothing was allocated before
                if how == "swap":
                    continue
                st = st | {(box, b) for b in m.buf}
                continue
            st = frozenset(x for x in st if x != (box, mem))
            if how == "clear":
                st = st | {(box, "-" + mem)}
                if mem in m.data:
                    for q in m.pair.get(mem, ()):
                        if (box, "-" + q) not in st:
                            st = st | {(box, q)}
            elif mem in m.ptrs:
                st = st | {(box, "-" + mem)} if n.get("k") == "call" and short(n.get("n")) in FILL else frozenset(x for x in st if x != (box, "-" + mem))
            elif mem in m.data and how in ("resize", "assign"):
                st = frozenset(x for x in st if x != (box, "-" + mem))
                d = None if arg is None else m.derives(arg, ctx, ex, facts)
                v = ex.value(arg, ctx, facts) if arg is not None else ("none",)
                if ex.cnst(v) == 0 or how == "assign" and v[0] in ("new", "ilist") and len(v) <= 2:
                    d = True
                    st = st | {(box, "-" + mem)}
                if how == "assign" and len(n.get("a", [])) != 2 and n.get("k") == "call":
                    d = True
                if d is False:
                    self.problems.setdefault(("sized", mem), ("%s is allocated with a size that is not computed from the current subspace sizes" % mem, n.get("l")))
                if d is None:
                    self.open.add(mem)
                if (box, "-" + mem) not in st or not all((box, "-" + q) in st for q in m.pair.get(mem, ())):
                    st = st | {(box, q) for q in m.pair.get(mem, ())}
                    st = frozenset(x for x in st if x not in {(box, "-" + q) for q in m.pair.get(mem, ())})
            elif mem in m.data and how == "swap":
                pass
        return (st,)

    def edge(self, st, node, lab, ctx, ex, facts):
        if node.kind == "branch" and lab in (True, False) and node.extra != "rfor":
            c, s = ex.value(node.ast, ctx, facts), lab
            while c[0] == "un" and c[1] == "!":
                c, s = c[2], not s
            if c[0] == "call" and short(c[1]) == "empty" and s and len(c) > 2 and c[2][0] == "obj" and c[2][1][0] == "field" and c[2][1][2] in self.m.data:
                box = self.box(norm(c[2][1][3]), c[2][1][2])
                st = frozenset(x for x in st if x != (box, c[2][1][2]))
        return st

    def leave(self, st, kind, ctx, ex, node):
        if kind == "exit":
            for c, b in st:
                if not b.startswith("-"):
                    self.ends.setdefault((c, b), node)


def swapping(rep, p, m):
    for f in sorted(p.src_fns(PREFIX), key=lambda f: f.key):
        if BOX not in f.q or short(f.q.split("::")[-1]) != "swap" or f.body is None:
            continue
        rep.count("swap functions")
        got = set()
        for n in f.calls():
            if short(n.get("n")) == "swap":
                xs = ([n["obj"]] if n.get("obj") is not None else []) + n.get("a", [])
                ns = [canon(x, Ctx(f)) for x in xs]
                if len(ns) == 2 and all(x[0] == "field" for x in ns) and ns[0][2] == ns[1][2]:
                    got.add(ns[0][2])
        for n in f.nodes():
            if n.get("k") == "asg" or n.get("op") == "=":
                for x in walk(n):
                    if x.get("k") == "mem":
                        got.add(x["n"])
        miss = sorted(m.all - got)
        if miss:
            rep.violation("swap|%s|%s" % (f.q, ",".join(miss)), "swap exchanges data and layout only partly: %s stay" % ", ".join(miss), f.where())
        else:
            rep.ok((f.key, "swap"), "%s exchanges all of %s" % (f.q, ", ".join(sorted(m.all))))


def run(env, rep):
    rep.rule = ("typestate of every grid's buffers (data, compensation, pointer tables) over all paths of every function that changes subspace sizes, the set of allocated subspaces or a buffer: "
                "a change of sizes or of the allocated set makes all buffers stale unless they are empty; clearing or re-allocating from the current sizes and rewriting the pointers makes them valid; "
                "no function returns to code that does not repair it, and no callee uses a buffer, while one is stale; swap exchanges all parts of a container")
    for debug in (False, True):
        p = env.prog(debug)
        m = Model(p)
        if not m.sizes or not m.data or not m.ptrs:
            rep.violation("layout|model", "the sizes or buffers of the sparse grid were not found", "")
            return
        roots = {f.key: f for f in p.src_fns(PREFIX) if f.key in m.direct and not skip(f) and f.body is not None and "~" not in f.q
                 and not f.is_lambda}
        inl, done, callers = set(), {}, p.callers()
        todo = dict(roots)
        level = {k: 0 for k in roots}
        while todo:
            k, f = todo.popitem()
            cl = Stale(m, f, inl - {k})
            ex = Explorer(p, cl)
            for l in f.lambdas():
                cl.inl = cl.inl | {l["f"]}
            if level[k]:
                ex.MAX = 60000
            try:
                ex.run(f, frozenset())
            except AnalysisError:
                if not level[k]:
                    raise
                cl.large = True        # nothing is known to be repaired here
            done[k] = cl
            if (cl.ends or cl.open) and k not in inl and level[k] < 2:
                inl.add(k)
                for c, n in callers.get(k, []):
                    c = c.root()
                    if c.key != k and p.src(c) and not skip(c):
                        todo[c.key] = c
                        level[c.key] = max(level.get(c.key, 0), level[k] + 1)
        for k, cl in sorted(done.items()):
            f = p.fns[k]
            if cl.large:
                continue
            rep.count("functions explored")
            rep.count("events on paths", cl.seen)
            for (rule, d), (msg, line) in sorted(cl.problems.items()):
                rep.violation("%s|%s|%s" % (rule, f.q, d), msg, "%s:%s" % (f.file, line))
            if not cl.ends and not cl.problems:
                rep.ok((k, debug), "%s: %d change(s) of sizes or buffers" % (f.q, cl.seen))
                continue
            cs = {c.root().key for c, n in callers.get(k, []) if c.root().key != k and p.src(c) and not skip(c)}
            if k in inl and cs and all(not done[c].large and (not done[c].ends or c in inl) for c in cs if c in done):
                rep.ok((k, debug), "%s is completed by every caller" % f.q)
                continue
            if p.overriders.get(k) and not cs:
                rep.ok((k, debug), "%s is overridden where there are buffers" % f.q)
                continue
            bs = sorted({b for c, b in cl.ends})
            if bs:
                rep.violation("stale|%s|%s" % (f.q, ",".join(bs)),
                              "%s changes subspace sizes or the allocated set and returns with %s laid out for the previous ones" % (f.q, ", ".join(bs)), f.where())
        for f, q, d, n in m.offsets:
            rep.count("pointer assignments")
            if m.derives_c(canon(n["c"][1], Ctx(f)), None) is False:
                rep.violation("offset|%s|%s" % (f.q, q), "the offset stored in %s is not computed from the current subspace sizes" % q, "%s:%s" % (f.file, n.get("l")))
            else:
                rep.ok((f.key, q, debug), "%s: %s is set from %s and the current sizes" % (f.q, q, d))
        swapping(rep, p, m)
    rep.need("pointer assignments", 2)
    rep.need("functions explored", 10)
    rep.need("events on paths", 20)
    rep.need("swap functions", 1)
    rep.assumptions = ["a loop that assigns the entries of a pointer table assigns all of them",
                       "two grid expressions with different canonical forms are different grids"]
