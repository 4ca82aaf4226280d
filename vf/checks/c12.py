"""C12: dehierarchization undoes exactly what hierarchization did."""
import re
from ..core import canon, strip, walk, dispatches, Ctx
from ..explore import Explorer, Client
from .c05 import skip
from .c18 import short
from . import c12_kernels as K

DIR = "src/hierarchization/"
CLS = "combigrid::DistributedHierarchization::"
UP = ("combigrid::ProcessGroupWorker", "combigrid::SparseGridWorker", "combigrid::TaskWorker")
BASE = "combigrid::BasisFunctionBasis"


def base_name(s):
    return s.split("<")[0].split("(")[0].split("::")[-1]


def undo(name):
    return name[2:] if name.startswith("de") else name


class Model:
    def __init__(self, p):
        self.p = p
        self.fns = [f for f in p.fns.values() if f.body is not None and f.file.startswith(DIR)]
        out = {f.key: {g.key for n in f.calls() for g in p.callees(n)} | {l["f"] for l in f.lambdas()} for f in p.fns.values() if f.body is not None}
        self.out = out
        self.casts = {f.key for f in self.fns if any(n.get("ck") == "CXXDynamicCastExpr" for n in f.nodes())}
        self._reach, self._written = {}, {}
        self.kernels = {f.key: f for f in self.fns if not f.is_lambda and f.params and f.params[0]["t"].rstrip().endswith("*") and "kernel" in f.q}
        self.leafs = {f.key for f in self.fns if not f.is_lambda and f.params and self.grid_param(f) and not (self.reach(f.key) | {f.key}) & self.casts}
        self.exch = {f.key for f in self.fns if not f.is_lambda and f.params and f.params[0]["t"].startswith("const combigrid::DistributedFullGrid<") and
                     any("RemoteDataCollector" in q["t"] and not q["t"].startswith("const") for q in f.params)}
        self.classes = sorted({r["t"]: r for r in p.subclasses(BASE)}.values(), key=lambda r: r["t"])
        self.anc = {r["t"]: self.ancestors(r["t"]) for r in self.classes}

    def grid_param(self, f):
        t = f.params[0]["t"]
        return t.startswith("combigrid::DistributedFullGrid<") and t.rstrip().endswith("&")

    def reach(self, k):
        r = self._reach.get(k)
        if r is None:
            r, todo = set(), [k]
            while todo:
                for c in self.out.get(todo.pop(), ()):
                    if c not in r:
                        r.add(c)
                        todo.append(c)
            self._reach[k] = r
        return r

    def ancestors(self, t):
        r, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x in r:
                continue
            r.add(x)
            todo += list((self.p.recs.get(x) or {}).get("bases", []))
        return r

    # -- truth of a condition for one basis and boundary flag
    def truth(self, e, fn, case, depth=0):
        v = self.val(e, fn, case, depth)
        return None if v is None else bool(v)

    def val(self, e, fn, case, depth=0):
        if e is None or depth > 12:
            return None
        k = e.get("k")
        basis, flag = case
        if k in ("icast", "paren", "cast", "clean", "bindtmp", "mat"):
            if e.get("ck") == "CXXDynamicCastExpr":
                t = e["t"].replace("const ", "").rstrip("*& ").replace("*const", "").strip()
                t = t.rstrip("* ")
                return 1 if t in self.anc[basis] else 0
            cs = e.get("c") or []
            return self.val(cs[0], fn, case, depth + 1) if len(cs) == 1 else None
        if k == "lit":
            try:
                return int(str(e["v"]).rstrip("uUlL"), 0)
            except ValueError:
                return {"true": 1, "false": 0}.get(str(e["v"]))
        if k == "null_ptr":
            return 0
        if k == "un" and e["op"] == "!":
            v = self.val(e["c"][0], fn, case, depth + 1)
            return None if v is None else int(not v)
        if k == "bin":
            op = e["op"]
            a, b = (self.val(x, fn, case, depth + 1) for x in e["c"])
            if op == "&&":
                return 0 if a == 0 or b == 0 else (1 if a and b else None)
            if op == "||":
                return 1 if a or b else (0 if a == 0 and b == 0 else None)
            if a is None or b is None:
                return None
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}.get(op)
        if k == "ref":
            i = self.init(e, fn)
            return self.val(i, fn, case, depth + 1) if i is not None else None
        if k == "call":
            if short(e.get("n")) in ("operator[]", "at") and e.get("obj") is not None and any(
                    x.get("k") == "call" and short(x.get("n")) == "returnBoundaryFlags" for x in walk(self.origin(e["obj"], fn))):
                return flag
            for g in self.p.callees(e):
                if g.file.startswith(DIR) and g.body is not None:
                    rets = [n for n in g.nodes() if n.get("k") == "ret"]
                    if len(rets) == 1 and rets[0].get("e") is not None:
                        return self.val(rets[0]["e"], g, case, depth + 1)
            return None
        return None

    def init(self, e, fn):
        """initialiser of a local variable that is never assigned again"""
        f = fn.root()
        v = f.vars().get(e.get("d"))
        if v is None or v.get("init") is None:
            return None
        w = self._written.get(f.key)
        if w is None:
            w = self._written[f.key] = {strip(n["c"][0]).get("d") for n in f.nodes() if n.get("k") == "asg" or n.get("k") == "un" and n.get("op") in ("++", "--", "&")}
        return None if e["d"] in w else v["init"]

    def origin(self, e, fn):
        e, n = strip(e), 0
        while e.get("k") == "ref" and n < 5:
            i = self.init(e, fn)
            if i is None:
                break
            e, n = strip(i), n + 1
        return e

    def act(self, fn, call):
        """what a leaf does: the kernels it runs, or itself"""
        ks = sorted({self.kname(k) for k in self.reach(fn.key) if k in self.kernels})
        return tuple(ks) if ks else (base_name(fn.q),)

    def kname(self, k):
        f = self.kernels[k]
        ta = k[len(f.q):].split("(")[0]
        return base_name(f.q) + ("" if "," not in ta else "<" + ta.strip("<>").split(",", 1)[1] + ">" if ta.startswith("<") and "std::complex" not in ta else "<" + ta.strip("<>").rsplit(",", 1)[1] + ">")


class Dispatch(Client):
    """state: (guards, exchange, entered)"""

    def __init__(self, m, case, root):
        self.m, self.case, self.root = m, case, root
        self.acts, self.refused, self.silent = {}, [], []
        self.loops = {}

    def inline(self, fn, call, ctx):
        if fn.key in self.m.leafs or fn.key in self.m.exch or fn.body is None or skip(fn):
            return False
        r = self.m.reach(fn.key)
        return fn.file.startswith(DIR) and bool(r & (self.m.leafs | self.m.exch))

    def norm(self, c, ctx):
        m = self.m

        def go(c):
            if not isinstance(c, tuple) or not c:
                return c
            if c[0] == "var":
                f = m.p.fns.get(c[1])
                if f is not None:
                    for i, q in enumerate(f.root().params):
                        if q["id"] == c[2]:
                            return ("p", i) if f.key == self.root.key else ("v", q["t"])
                    v = f.root().vars().get(c[2])
                    return ("v", (v or {}).get("t"))
                return ("v", None)
            return tuple(go(x) if isinstance(x, tuple) else x for x in c)
        return go(c)

    def conds(self, e, t, ctx, ex, depth=0):
        e = strip(e)
        if e.get("k") == "ref" and depth < 6:
            i = self.m.init(e, ctx.fn)
            if i is not None and "bool" in e.get("t", ""):
                return self.conds(i, t, ctx, ex, depth + 1)
        if e.get("k") == "un" and e.get("op") == "!":
            return self.conds(e["c"][0], not t, ctx, ex, depth)
        if e.get("k") == "bin" and (e["op"] == "&&" and t or e["op"] == "||" and not t):
            return self.conds(e["c"][0], t, ctx, ex, depth) | self.conds(e["c"][1], t, ctx, ex, depth)
        return self.guards(self.norm(ex.canon(e, ctx), ctx), t)

    def guards(self, c, t):
        if c[0] == "un" and c[1] == "!":
            return self.guards(c[2], not t)
        if c[0] == "bin" and (c[1] == "&&" and t or c[1] == "||" and not t):
            return self.guards(c[2], t) | self.guards(c[3], t)
        if c[0] == "bin" and c[1] in ("<", ">", "<=", ">=", "!=", "=="):
            op, a, b = c[1:4]
            if op in (">", "<="):
                op, a, b = {">": "<", "<=": ">="}[op], b, a
            if op in (">=", "!="):
                op, t = {">=": "<", "!=": "=="}[op], not t
            if op == "==":
                a, b = sorted((a, b), key=repr)
            return frozenset({(op, a, b, t)})
        return frozenset({("is", c, t)})

    def step(self, st, node, ctx, ex, facts):
        if st is None:
            return ()
        n = node.ast
        if node.kind != "op" or n is None or n.get("k") != "call":
            return (st,)
        g, x, it = st
        for f in self.m.p.callees(n):
            if f.key in self.m.exch:
                x = (base_name(f.q), tuple(self.norm(ex.canon(a, ctx), ctx) for a, q in zip(n["a"], f.params) if "&" not in q["t"]))
            elif f.key in self.m.leafs:
                args = tuple(self.norm(ex.canon(a, ctx), ctx) for a, q in zip(n["a"], f.params) if "&" not in q["t"])
                self.acts.setdefault((self.m.act(f, n), args), []).append((g, x, n.get("l")))
                it = ("done",)
        return ((g, x, it),)

    def edge(self, st, node, lab, ctx, ex, facts):
        g, x, it = st
        if node.kind != "branch" or lab not in (True, False):
            return st
        f = ctx.fn
        loops = self.loops.get(f.key)
        if loops is None:
            loops = self.loops[f.key] = {id(n.get("cond")) for n in f.nodes() if n.get("k") in ("for", "while")} | {id(n.get("range")) for n in f.nodes() if n.get("k") == "rfor"}
        if id(node.ast) in loops:
            if lab is True:
                return None if it else (g, x, ("in",))
            if it == ("in",) and not any(a for a in g if a[0] in ("<", "is", "==")):
                self.silent.append(node.ast.get("l"))
            return st if it else None
        t = self.m.truth(node.ast, f, self.case)
        if t is not None:
            return st if t == lab else None
        g = g | self.conds(node.ast, lab, ctx, ex)
        if any(a[:-1] + (not a[-1],) in g for a in g):
            return None         # the two outcomes of one condition
        return (g, x, it)

    def leave(self, st, kind, ctx, ex, node):
        if kind == "exc":
            self.refused.append(st[0])
            return
        self.ends = getattr(self, "ends", [])
        self.ends.append(st)


def understood(a):
    """a condition on parameters and the dimension only"""
    return all(x[0] != "v" or x[1] is not None and "bool" not in x[1] and "vector" not in x[1] for x in flat(a[1]) if isinstance(x, tuple) and x) and \
        a[0] != "is" or a[0] == "is" and isinstance(a[1], tuple) and a[1][0] == "call"


def run(env, rep):
    rep.rule = ("for every basis class and boundary flag the path through hierarchize and through dehierarchize is followed: both refuse, or both run a pair of partner kernels with the same template arguments, the same arguments and "
                "under the same conditions; two bases never share a kernel; non-local kernels get the full exchange; every update step of a kernel is undone by its partner in reverse order with inverse weights; "
                "all call sites pass the same dimensions, bases and minimum level to both")
    p = env.prog(False)
    m = Model(p)
    tops = {}
    for f in m.fns:
        if f.q in (CLS + "hierarchize", CLS + "dehierarchize") and not f.is_lambda and (f.key in m.casts or m.reach(f.key) & m.casts) and len(f.params) == 4:
            et = f.params[0]["t"]
            tops.setdefault(et, {})[short(f.q)] = f
    names = {}
    for et, d in sorted(tops.items()):
        if set(d) != {"hierarchize", "dehierarchize"}:
            continue
        rep.count("element types")
        used = {}
        for r in m.classes:
            b = r["t"]
            for flag in (0, 1, 2):
                res = {}
                for w, f in d.items():
                    cl = Dispatch(m, (b, flag), f)
                    Explorer(p, cl).run(f, (frozenset(), None, None))
                    res[w] = cl
                    rep.count("dispatch paths", len(cl.acts) + len(cl.refused))
                H, D = res["hierarchize"], res["dehierarchize"]
                tag = "%s, boundary %d, %s" % (b.split("::")[-1], flag, et.split("<", 1)[1].rstrip("> &"))
                key = "%s|boundary %d" % (b, flag)
                where = "%s:%s" % (d["dehierarchize"].file, d["dehierarchize"].l)
                bad = False

                def viol(what, msg, l=None):
                    nonlocal bad
                    bad = True
                    rep.violation("%s|%s" % (what, key), "%s: %s" % (tag, msg), where if l is None else "%s:%s" % (d["dehierarchize"].file, l))
                for w, cl in res.items():
                    if not cl.acts and not cl.refused:
                        viol("silent", "%s neither runs a kernel nor refuses the basis" % w)
                    for (ks, args), occ in cl.acts.items():
                        for k in ks:
                            if k.startswith("de") != (w == "dehierarchize"):
                                viol("direction", "%s runs %s" % (w, k), occ[0][2])
                if bool(H.acts) != bool(D.acts):
                    viol("refused", "only one of hierarchize and dehierarchize supports it")
                elif H.acts:
                    h = {(tuple(undo(k) for k in ks), args): {g for g, x, l in occ} for (ks, args), occ in H.acts.items()}
                    dd = {(tuple(undo(k) for k in ks), args): {g for g, x, l in occ} for (ks, args), occ in D.acts.items()}
                    hk, dk = {k for k, a in h}, {k for k, a in dd}
                    if hk != dk:
                        viol("kernel", "hierarchized with %s but dehierarchized with the inverse of %s" % (sorted(hk), sorted(dk)))
                    elif set(h) != set(dd):
                        viol("arguments", "the kernels are run with different dimension or minimum level")
                    elif h != dd and all(understood(a) for v in list(h.values()) + list(dd.values()) for g in v for a in g):
                        viol("condition", "the kernels are run under different conditions")
                    for w, cl in res.items():
                        for (ks, args), occ in cl.acts.items():
                            for g, x, l in occ:
                                if x is None:
                                    viol("exchange", "%s runs %s without neighbouring data being exchanged" % (w, ks), l)
                                elif "All" not in x[0]:
                                    if not all("hat" in k or "NoBoundary" in k for k in ks):
                                        viol("exchange", "%s runs %s on the data of hat neighbours only" % (w, ks), l)
                                    elif len(x[1]) == 2 and len(args) == 2 and x[1] != args:
                                        viol("exchange", "%s exchanges for another dimension or minimum level than it transforms" % w, l)
                                    elif ("Dehier" in x[0]) != (w == "dehierarchize"):
                                        viol("exchange", "%s exchanges the data needed for the opposite transform" % w, l)
                    if flag:
                        for (ks, args) in H.acts:
                            used.setdefault((ks, flag), set()).add(b)
                if not bad:
                    rep.ok("dispatch|%s|%s" % (et, key), "%s: %s" % (tag, "refused" if not H.acts else "%s / %s" % (sorted(H.acts)[0][0], sorted(D.acts)[0][0])))
        for (ks, flag), bs in sorted(used.items()):
            if len(bs) > 1:
                rep.violation("shared|%s" % ",".join(sorted(bs)), "%s are transformed with the same kernel %s" % (" and ".join(sorted(x.split("::")[-1] for x in bs)), ks), "%s:%s" % (d["hierarchize"].file, d["hierarchize"].l))
            else:
                rep.ok("own|%s|%s|%d" % (et, ks, flag), "%s is used by one basis only" % (ks,))
    K.run(p, m, rep)
    sites(p, m, rep)
    level_bounds(p, rep)
    rep.need("element types", 1)
    rep.need("dispatch paths", 30)
    pass
    rep.need("call sites", 4)
    rep.assumptions = ["rounding: kernels are inverse in exact arithmetic, not bit by bit",
                       "periodic kernels rely on equal values at both ends"]


class Sites(Client):
    def __init__(self, m, h):
        self.m, self.h = m, h
        self.found = []

    def inline(self, fn, call, ctx):
        if skip(fn) or fn.file.startswith(DIR):
            return False
        return bool(self.m.reach(fn.key) & self.h) and fn.q.startswith(UP)

    def step(self, st, node, ctx, ex, facts):
        n = node.ast
        if node.kind == "op" and n is not None and n.get("k") == "call":
            for f in self.m.p.callees(n):
                if f.key in self.h and len(n.get("a", [])) == 4:
                    cs = [self.full(n["a"][i], ctx, ex) for i in (1, 2, 3)]
                    self.found.append((short(f.q).startswith("de"), cs, ctx.fn, n))
        return (st,)

    def full(self, e, ctx, ex):
        """canonical argument without the path to the parameters; fresh vectors by their initialiser"""
        c = ex.canon(e, ctx)
        if c[0] == "var":
            v = (self.m.p.fns[c[1]].root().vars() if c[1] in self.m.p.fns else {}).get(c[2])
            if v is not None and v.get("init") is not None:
                c = ("init", ex.canon(v["init"], ctx))
        return c


def leafname(c):
    """last member or getter of a canonical access path"""
    if not isinstance(c, tuple) or not c:
        return None
    if c[0] == "field":
        return c[2].rstrip("_").lower()
    if c[0] == "call":
        s = short(c[1])
        return (s[3:] if s.startswith("get") else s).rstrip("_").lower()
    if c[0] in ("new", "init") and len(c) > 1:
        if any(isinstance(x, tuple) and (x[0] == "lit" and str(x[1]) in ("0", "0.") or x[0] == "zero") for x in flat(c)):
            return "zero"
    return None


def flat(c):
    yield c
    for x in c[1:]:
        if isinstance(x, tuple) and x:
            yield from flat(x)


def level_bounds(p, rep):
    """helpers that decide which values are exchanged or updated work down to the level their caller was given"""
    def bound(f):
        if f.params and f.params[-1].get("n", "").startswith("lmin") and re.fullmatch(r"(const )?(signed char|char|int|short|unsigned char|long)( ?&)?", f.params[-1].get("t") or ""):
            return f.params[-1]
        return None
    for f in p.src_fns(("src/hierarchization/",)):
        b = None if f.is_lambda else bound(f)
        if f.body is None or b is None:
            continue
        for n in f.calls():
            g = p.fns.get(n.get("f"))
            if g is None or bound(g) is None or len(n.get("a", ())) != len(g.params):
                continue
            a = n["a"][-1]
            e = strip(a)
            if a.get("k") == "defarg" or e is not None and e.get("k") == "lit" or \
                    e is not None and e.get("k") == "bin" and any(x.get("k") == "ref" and x.get("d") == b["id"] for x in walk(e)):
                rep.violation("bound|%s|%s" % (f.q, g.q), "%s does not pass the level it was given (%s) on to %s" % (short(f.q), b["n"], short(g.q)), p.loc(f, n) if hasattr(p, "loc") else "%s:%s" % (f.file, n.get("l")))
            else:
                rep.ok("bound|%s|%s|%s" % (f.key, g.q, n.get("l")), "%s -> %s" % (f.q, g.q))


def sites(p, m, rep):
    h = {f.key for f in m.fns if f.q.startswith(CLS) and not f.is_lambda and base_name(f.q) in ("hierarchize", "dehierarchize", "dehierarchizeDFG", "hierarchizeDFG") and len(f.params) == 4}
    if not h:
        return
    per = {True: {}, False: {}}
    roots = [f for f in p.src_fns(("src/manager/",)) if f.body is not None and not f.is_lambda and f.q.startswith(UP[0]) and m.reach(f.key) & h and not dispatches(f)]
    inner = {c for f in roots for c in m.out[f.key]}
    for f in sorted(roots, key=lambda f: f.key):
        if f.key in inner:
            continue
        cl = Sites(m, h)
        Explorer(p, cl).run(f, ())
        for de, cs, g, n in cl.found:
            per[de].setdefault((g.root().q, g.file), {})[tuple(leafname(c) for c in cs)] = n.get("l")
    want = {}
    for (q, fl), d in per[False].items():
        for k in d:
            want[k] = q
    for de in (False, True):
        for (q, fl), d in sorted(per[de].items()):
            rep.count("call sites", len(d))
            if any(None in k for k in list(d) + list(want)):
                rep.count("call sites with arguments that are not resolved")
                continue
            if want and set(d) != set(want):
                rep.violation("site|%s" % q, "%s %s with (%s) while grids are hierarchized with (%s)" % (q.split("::")[-1], "dehierarchizes" if de else "hierarchizes",
                              "; ".join(sorted("/".join(k) for k in d)), "; ".join(sorted("/".join(k) for k in want))), "%s:%s" % (fl, sorted(d.values())[0]))
            else:
                rep.ok("site|%s" % q, "%s: %s" % (q, "; ".join(sorted("/".join(k) for k in d))))
