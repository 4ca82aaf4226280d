"""C15: thread-parallel loops do not race."""
from ..core import strip, walk, subnodes
from .c05 import PREFIX, skip
from .c18 import short

PROTECTED = ("critical", "atomic", "single", "master", "masked", "ordered")
PRIV = ("priv",)
CONSTISH = {"operator[]", "at", "begin", "end", "data", "back", "front", "find", "rbegin", "rend", "get", "c_str", "size", "empty", "lower_bound",
            "upper_bound", "operator*", "operator->", "cbegin", "cend", "real", "imag", "equal_range", "first", "second", "count", "load", "operator()", "value", "str"}
DEST = {"std::copy": (2,), "std::copy_n": (2,), "std::fill": (0,), "std::fill_n": (0,), "std::transform": (-2,), "std::iota": (0,), "std::sort": (0,), "std::replace": (0,),
        "std::reverse": (0,), "std::swap": (0, 1), "std::generate": (0,), "std::exclusive_scan": (2,), "std::partial_sum": (2,), "std::for_each": (0,), "memcpy": (0,), "memset": (0,),
        "std::memcpy": (0,), "std::memset": (0,), "std::move_backward": (2,), "std::copy_if": (2,)}
PURE = ("std::move", "std::forward", "std::get", "std::make_pair", "std::addressof", "std::begin", "std::end", "std::data", "std::distance", "std::next", "std::prev", "std::advance",
        "std::min", "std::max", "std::tie", "std::ref")
GROW = {"insert", "push_back", "emplace", "emplace_back", "erase", "clear", "resize", "assign", "pop_back", "push_front", "emplace_front", "emplace_hint", "reserve", "swap", "splice", "merge"}
STREAMS = ("std::cout", "std::cerr", "std::clog")


def is_ptr(t):
    t = (t or "").replace("const", "").rstrip("& ").rstrip()
    return t.endswith("*") or "iterator" in t


def is_ref(t):
    return (t or "").rstrip().endswith("&")


def join(a, b):
    if a == PRIV:
        return b
    if b == PRIV:
        return a
    return ("sh", a[1] and b[1], a[2])


class Env:
    """what the names of a function mean inside a region"""
    __slots__ = ("fn", "this", "params", "dep", "mine", "outer", "clause", "ptrs", "depth", "via")

    def __init__(self, fn, depth=0, via=()):
        self.fn, self.depth, self.via = fn, depth, via
        self.this = PRIV
        self.params = {}        # id -> location (reference or pointer parameters)
        self.dep = set()        # ids of variables that differ between iterations
        self.mine = set()       # ids declared inside the region
        self.clause = set()     # ids made private by a clause
        self.outer = False      # other locals of this function are shared by the threads


class Region:
    def __init__(self, p, f, n, chk):
        self.p, self.f, self.n, self.chk = p, f, n, chk
        self.bad, self.writes, self.seen = {}, 0, set()
        e = self.env = Env(f)
        e.outer = True
        e.this = ("sh", False, "the object") if f.root().cls else PRIV
        for q in f.root().params:
            if is_ref(q["t"]) or is_ptr(q["t"]):
                e.params[q["id"]] = ("sh", False, q.get("n"))
        self.clauses(n, e)
        e.mine = self.declared(n.get("body"))
        self.loopvars(n, e)
        self.spread(n.get("body"), e)

    def clauses(self, n, e):
        for c in n.get("cl", []):
            if c["k"] in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
                for v in c["vars"]:
                    v = strip(v)
                    if v.get("k") == "ref":
                        e.clause.add(v["d"])

    def declared(self, b):
        r = set()
        for x in walk(b):
            if x.get("k") == "decl":
                for v in x["vars"]:
                    if v.get("g") != "static":
                        r.add(v["id"])
                    for y in v.get("bind", []):
                        r.add(y["id"])
            elif x.get("k") == "rfor":
                r.add(x["var"]["id"])
                for y in x["var"].get("bind", []):
                    r.add(y["id"])
            elif x.get("k") == "lambda":
                for q in x["params"]:
                    r.add(q["id"])
            elif x.get("k") == "try":
                for h in x["h"]:
                    if h.get("var"):
                        r.add(h["var"]["id"])
        return r

    def loopvars(self, n, e):
        if "for" not in n["d"].split():
            return
        k = next((c.get("v", 1) for c in n.get("cl", []) if c["k"] == "collapse"), 1)
        b = n.get("body")
        while k > 0 and b is not None:
            while b is not None and b.get("k") == "seq" and len([x for x in b["c"] if x]) >= 1:
                b = next((x for x in b["c"] if x and x.get("k") in ("for", "rfor")), None)
            if b is None:
                break
            if b.get("k") == "rfor":
                e.dep.add(b["var"]["id"])
                for y in b["var"].get("bind", []):
                    e.dep.add(y["id"])
            elif b.get("k") == "for":
                for x in walk(b.get("init")):
                    if x.get("k") == "decl":
                        for v in x["vars"]:
                            e.dep.add(v["id"])
                            e.mine.add(v["id"])
                    elif x.get("k") == "asg" and strip(x["c"][0]).get("k") == "ref":
                        e.dep.add(strip(x["c"][0])["d"])
                        e.clause.add(strip(x["c"][0])["d"])
            b, k = b.get("body"), k - 1

    def spread(self, b, e):
        """variables that depend on the iteration"""
        again = True
        while again:
            again = False
            for x in walk(b):
                k = x.get("k")
                tgt = src = None
                if k == "decl":
                    for v in x["vars"]:
                        if v.get("init") is not None and v["id"] not in e.dep and self.isdep(v["init"], e):
                            e.dep.add(v["id"])
                            for y in v.get("bind", []):
                                e.dep.add(y["id"])
                            again = True
                    continue
                if k == "rfor" and x["var"]["id"] not in e.dep and self.isdep(x["range"], e):
                    e.dep.add(x["var"]["id"])
                    for y in x["var"].get("bind", []):
                        e.dep.add(y["id"])
                    again = True
                if k == "omp":
                    m = len(e.dep)
                    if any(w in x["d"].split() for w in ("atomic", "critical")):
                        # a value drawn from a shared counter under protection differs between the threads
                        for y in walk(x.get("body")):
                            if y.get("k") == "asg" and strip(y["c"][0]).get("k") == "ref" and strip(y["c"][0])["d"] in e.mine and any(
                                    z.get("k") == "un" and z.get("op") in ("++", "--") or z.get("k") == "asg" and z is not y for z in walk(y["c"][1])):
                                e.dep.add(strip(y["c"][0])["d"])
                    self.loopvars(x, e)
                    self.clauses(x, e)
                    again = again or len(e.dep) != m
                if k == "asg":
                    tgt, src = strip(x["c"][0]), x["c"][1]
                elif k == "call" and x.get("op") in ("=", "+=", "-="):
                    a = ([x["obj"]] if x.get("obj") is not None else []) + x.get("a", [])
                    if len(a) == 2:
                        tgt, src = strip(a[0]), a[1]
                elif k == "call" and x.get("obj") is not None and not x.get("mc") and x.get("a"):
                    tgt = strip(x["obj"])
                    src = x
                    if tgt.get("k") == "ref" and tgt["d"] not in e.dep and (tgt["d"] in e.mine or tgt.get("tls")) and any(self.isdep(y, e) for y in x["a"]):
                        e.dep.add(tgt["d"])
                        again = True
                    continue
                elif k == "call" and x.get("obj") is None:
                    # results through reference or pointer arguments
                    for y, t in zip(x.get("a", []), x.get("pt", [])):
                        y = strip(y)
                        if y.get("k") == "un" and y.get("op") == "&":
                            y = strip(y["c"][0])
                        elif not is_ref(t) or t.startswith("const"):
                            continue
                        if y.get("k") == "ref" and y.get("d") not in e.dep and y.get("d") in e.mine and any(self.isdep(z, e) for z in x["a"]):
                            e.dep.add(y["d"])
                            again = True
                    continue
                if tgt is not None:
                    while tgt is not None and tgt.get("k") in ("sub",):
                        tgt = strip(tgt["c"][0])
                    if tgt is not None and tgt.get("k") == "call" and short(tgt.get("n")) == "operator[]" and tgt.get("obj") is not None:
                        tgt = strip(tgt["obj"])
                    if tgt is not None and tgt.get("k") == "ref" and tgt.get("d") not in e.dep and (tgt.get("d") in e.mine or tgt.get("d") in e.clause or tgt.get("tls")) and self.isdep(src, e):
                        e.dep.add(tgt["d"])
                        again = True

    def isdep(self, x, e):
        for y in walk(x):
            if y.get("k") == "ref" and y.get("d") in e.dep:
                return True
            if y.get("k") == "call" and short(y.get("n")) in ("omp_get_thread_num", "get_id"):
                return True
        return False

    # -- locations
    def loc(self, x, e, d=0):
        """storage an lvalue denotes"""
        x = strip(x)
        if x is None or d > 14:
            return PRIV
        k = x.get("k")
        if k == "this":
            return e.this
        if k == "ref":
            return self.var(x, e, d)
        if k == "mem":
            if "atomic" in (x.get("t") or ""):
                return PRIV
            base = x.get("b")
            if base is None:
                return e.this
            b = strip(base)
            if b.get("k") == "this":
                return self.name(e.this, x)
            r = self.ptr(base, e, d + 1) if is_ptr(b.get("t")) else self.loc(base, e, d + 1)
            return self.name(r, x)
        if k == "sub":
            r = self.ptr(x["c"][0], e, d + 1)
            return self.idx(r, self.isdep(x["c"][1], e))
        if k == "un" and x.get("op") == "*":
            return self.ptr(x["c"][0], e, d + 1)
        if k == "un" and x.get("op") in ("++", "--", "&"):
            return self.loc(x["c"][0], e, d + 1)
        if k == "cond":
            return join(self.loc(x["c"][1], e, d + 1), self.loc(x["c"][2], e, d + 1))
        if k == "asg":
            return self.loc(x["c"][0], e, d + 1)
        if k == "call":
            return self.call(x, e, d)
        return PRIV

    def name(self, r, x):
        return r if r == PRIV or r[1] else ("sh", False, x.get("n") or x.get("m") or r[2])

    def idx(self, r, dep):
        return ("sh", True, r[2]) if r != PRIV and dep else r

    def var(self, x, e, d):
        i, g = x.get("d"), x.get("g")
        if x.get("tls") or "atomic" in (x.get("t") or "") or "mutex" in (x.get("t") or ""):
            return PRIV
        if g in ("global", "smember", "static"):
            if x.get("q") in STREAMS or (x.get("t") or "").startswith("const "):
                return PRIV
            return ("sh", False, x.get("n"))
        if i in e.clause:
            return PRIV
        v = e.fn.root().vars().get(i)
        if v is None:
            return PRIV
        if i in e.params:
            return e.params[i] if is_ref(v["t"]) else PRIV
        if i in e.mine or not e.outer:
            if is_ref(v["t"]):
                if v.get("rangeof") is not None:
                    r = self.loc(v["rangeof"], e, d + 1)
                    return self.idx(r, i in e.dep)
                if v.get("init") is not None:
                    return self.loc(v["init"], e, d + 1)
            return PRIV
        if is_ref(v["t"]) and v.get("init") is not None:
            return self.loc(v["init"], e, d + 1)
        return ("sh", False, x.get("n"))

    def ptr(self, x, e, d=0):
        """storage a pointer or iterator points into"""
        x = strip(x)
        if x is None or d > 14:
            return PRIV
        k = x.get("k")
        if k == "this":
            return e.this
        if k == "un" and x.get("op") == "&":
            return self.loc(x["c"][0], e, d + 1)
        if k == "un" and x.get("op") in ("++", "--"):
            return self.ptr(x["c"][0], e, d + 1)
        if k == "bin" and x.get("op") in ("+", "-"):
            a, b = x["c"]
            if not is_ptr(strip(a).get("t")) and is_ptr(strip(b).get("t")):
                a, b = b, a
            return self.idx(self.ptr(a, e, d + 1), self.isdep(b, e))
        if k == "cond":
            return join(self.ptr(x["c"][1], e, d + 1), self.ptr(x["c"][2], e, d + 1))
        if k in ("new", "alloc", "null_ptr", "lit", "str"):
            return PRIV
        if k == "ref":
            i = x.get("d")
            v = e.fn.root().vars().get(i)
            if x.get("tls"):
                return PRIV
            if i in e.params:
                r = e.params[i]
                return self.idx(r, i in e.dep)
            if v is None:
                return PRIV
            if "[" in (v.get("t") or "") and not is_ptr(v.get("t")):
                return self.loc(x, e, d + 1)
            r = self.ptr(v["init"], e, d + 1) if v.get("init") is not None else PRIV
            if v.get("rangeof") is not None:
                r = self.loc(v["rangeof"], e, d + 1)
            return self.idx(r, i in e.dep)
        if k == "mem" or k == "sub":
            return self.loc(x, e, d + 1)
        if k == "call":
            return self.call(x, e, d)
        return PRIV

    def call(self, x, e, d):
        """storage behind the result of a call"""
        t = x.get("t") or ""
        nm = x.get("n") or ""
        dep = any(self.isdep(a, e) for a in x.get("a", []))
        if x.get("obj") is not None:
            o = x["obj"]
            r = self.ptr(o, e, d + 1) if is_ptr(strip(o).get("t")) and short(nm) not in ("operator=",) else self.loc(o, e, d + 1)
            if short(nm) in CONSTISH and strip(o).get("k") == "ref" and strip(o).get("d") in e.dep:
                r = self.idx(r, True)
            # accessor of a repo class that hands out a copy
            gs = [g for g in self.p.callees(x) if g.body is not None]
            if gs and not is_ref(gs[0].d.get("rt") or gs[0].d.get("t") or "&") and not is_ptr(t):
                return PRIV
            return self.idx(r, dep)
        if nm in ("std::move", "std::forward") and x.get("a"):
            return self.loc(x["a"][0], e, d + 1)
        if x.get("op") and x.get("a"):
            r = self.ptr(x["a"][0], e, d + 1) if is_ptr(strip(x["a"][0]).get("t")) else self.loc(x["a"][0], e, d + 1)
            return self.idx(r, any(self.isdep(a, e) for a in x["a"][1:]))
        if is_ptr(t) or is_ref(t):
            r = PRIV
            for a in x.get("a", []):
                s = self.ptr(a, e, d + 1) if is_ptr(strip(a).get("t")) else self.loc(a, e, d + 1)
                if s != PRIV:
                    r = s
                    break
            return self.idx(r, dep)
        return PRIV

    # -- effects
    def go(self):
        self.stmt(self.n.get("body"), self.env)
        return self

    def write(self, l, x, e, what):
        self.writes += 1
        if l == PRIV or l[1]:
            return
        q = e.fn.root().q
        k = "%s|%s|%s" % (self.f.root().q, q, l[2])
        self.bad.setdefault(k, (l[2], what, e.fn.file, x.get("l"), e.via))

    def stmt(self, x, e):
        if x is None:
            return
        k = x.get("k")
        if k == "omp" and any(w in x["d"].split() for w in PROTECTED):
            return
        if k == "omp" and "parallel" in x["d"].split() and x is not self.n:
            return              # a region of its own
        if k == "lambda":
            return              # where it is called
        if k == "seq" and any(c and c.get("k") == "decl" and any("lock" in (v.get("t") or "") for v in c["vars"]) for c in x["c"]):
            return
        if k == "asg" and not (x.get("op") in ("=", None) and self.constant(x["c"][1])):
            self.write(self.loc(x["c"][0], e), x, e, "assigned")
        elif k == "un" and x.get("op") in ("++", "--"):
            t = strip(x["c"][0])
            self.write(self.loc(t, e), x, e, "incremented")
        elif k in ("call", "ctor"):
            self.invoke(x, e)
        for c in subnodes(x):
            self.stmt(c, e)

    def constant(self, x):
        """the same scalar whichever thread writes it"""
        x = strip(x)
        if x.get("k") == "call":
            return (x.get("n") or "").startswith("omp_get_") and "thread_num" not in x["n"] and "team_num" not in x["n"]
        return x.get("k") in ("lit", "int", "bool", "float", "num", "const", "true", "false")

    def invoke(self, x, e):
        nm = x.get("n") or ""
        args = x.get("a", [])
        if x.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--", "%=", "|=", "&=") and not any(g.body is not None and g.file.startswith(PREFIX) for g in self.p.callees(x)):
            o = x["obj"] if x.get("obj") is not None else (args[0] if args else None)
            if o is not None and not ("iterator" in (strip(o).get("t") or "") and x["op"] in ("++", "--") and False):
                self.write(self.loc(o, e), x, e, "assigned")
            return
        gs = self.p.callees(x)
        if nm.startswith("combigrid::") and not gs:
            return
        if gs and all(g.body is None or not g.file.startswith(PREFIX) or skip(g) for g in gs):
            return              # implemented outside of the sources: the task of a user
        gs = [g for g in gs if g.body is not None and g.file.startswith(PREFIX) and not skip(g)]
        if gs:
            for g in gs[:6]:
                self.enter(g, x, e)
            return
        for key, pos in DEST.items():
            if nm == key or nm.startswith(key + "<"):
                for i in pos:
                    if -len(args) <= i < len(args):
                        a = args[i]
                        self.write(self.ptr(a, e) if is_ptr(strip(a).get("t")) else self.loc(a, e), x, e, "written by " + nm)
                return
        if nm.startswith(PURE) or nm.startswith("operator<<") or x.get("op") in ("<<", ">>"):
            return
        if x.get("obj") is not None:
            o = x["obj"]
            t = strip(o).get("t") or ""
            if short(nm) == "operator[]" and not x.get("mc") and ("map<" in nm or "map<" in t):
                l = self.loc(o, e)
                self.write(l if l == PRIV else ("sh", l[1] if self.deep(o) else False, l[2]), x, e, "extended (operator[] of a map)")
            if short(nm) in GROW and self.shared_slot(o, e):
                l = self.loc(o, e)
                self.write(l if l == PRIV else ("sh", False, l[2]), x, e, "modified by %s" % short(nm))
            elif not x.get("mc") and not x.get("ms") and short(nm) not in CONSTISH and "atomic" not in t and "mutex" not in t and "stream" not in t and not x.get("op") == "()":
                self.write(self.ptr(o, e) if is_ptr(t) else self.loc(o, e), x, e, "modified by %s" % short(nm))
        if nm.startswith(("std::", "boost::")) and not nm.startswith("std::swap"):
            return
        for a, t in zip(args, x.get("pt", [])):
            t = t.strip()
            if nm.startswith("MPI_") and ("ompi_" in t and t.count("*") < 2 and "status" not in t or any(self.isdep(b, e) for b in args)):
                continue        # handles; a message selected by the iteration
            if is_ptr(t) and not t.startswith("const ") or is_ref(t) and not t.startswith("const ") and not t.endswith("&&"):
                if is_ptr(t):
                    self.write(self.ptr(a, e), x, e, "written by " + short(nm))
                else:
                    self.write(self.loc(a, e), x, e, "written by " + short(nm))

    def deep(self, o):
        """an element of a container, not a container of its own"""
        return any(y.get("k") == "sub" or y.get("k") == "call" and short(y.get("n")) in ("operator[]", "at") for y in walk(o))

    def shared_slot(self, o, e):
        """an element chosen by a computed key, which several iterations may yield"""
        for y in walk(o):
            if y.get("k") == "sub":
                keys = [y["c"][1]]
            elif y.get("k") == "call" and short(y.get("n")) in ("operator[]", "at"):
                keys = y.get("a", [])
            else:
                continue
            for k in keys:
                for z in walk(k):
                    v = e.fn.root().vars().get(z.get("d")) if z.get("k") == "ref" else None
                    for w in walk(v["init"]) if v is not None and v.get("init") is not None else (z,):
                        if w.get("k") == "call" and (w.get("n") or "").startswith("combigrid::") and short(w.get("n")) not in ("operator[]", "at"):
                            return True
                        if w.get("k") == "bin" and w.get("op") in ("/", "%"):
                            return True
        return False

    def enter(self, g, x, e):
        if e.depth > 7:
            return
        n = Env(g, e.depth + 1, e.via + ((g.q, x.get("l")),))
        if g.is_lambda and g.root().key == e.fn.root().key:
            n.fn, n.this, n.params, n.clause, n.outer = g, e.this, dict(e.params), e.clause, e.outer
            n.dep, n.mine = set(e.dep), set(e.mine) | self.declared(g.body)
        elif g.is_lambda:
            return
        ps = g.params
        args = x.get("a", [])
        if not g.is_lambda:
            if x.get("obj") is not None and not x.get("ms"):
                o = x["obj"]
                n.this = self.ptr(o, e) if is_ptr(strip(o).get("t")) else self.loc(o, e)
            elif x.get("k") == "ctor":
                n.this = PRIV
            elif g.cls and e.fn.root().cls and not x.get("ms"):
                n.this = e.this
        for q, a in zip(ps, args):
            if is_ref(q["t"]):
                n.params[q["id"]] = self.loc(a, e)
            elif is_ptr(q["t"]):
                n.params[q["id"]] = self.ptr(a, e)
            else:
                n.mine.add(q["id"])
            if self.isdep(a, e):
                n.dep.add(q["id"])
        if not g.is_lambda:
            if n.this == PRIV and all(v == PRIV for v in n.params.values()) and not self.chk.statics(g):
                return
        key = (g.key, n.this, tuple(sorted((k, v) for k, v in n.params.items())), tuple(sorted(n.dep)))
        if key in self.seen:
            return
        self.seen.add(key)
        self.chk.entered += 1
        self.spread(g.body, n)
        self.stmt(g.body, n)


class Check:
    def __init__(self, p):
        self.p, self.entered = p, 0
        own, out = {}, {}
        for f in p.fns.values():
            if f.body is None:
                continue
            own[f.key] = any(n.get("k") == "ref" and n.get("g") in ("static", "global", "smember") and not (n.get("t") or "").startswith("const ") for n in f.nodes())
            out[f.key] = {g.key for n in f.calls() for g in p.callees(n)} | {l["f"] for l in f.lambdas()}
        rev = {}
        for k, cs in out.items():
            for c in cs:
                rev.setdefault(c, set()).add(k)
        todo = [k for k, v in own.items() if v]
        r = set(todo)
        while todo:
            for c in rev.get(todo.pop(), ()):
                if c not in r:
                    r.add(c)
                    todo.append(c)
        self._statics = r

    def statics(self, g):
        return g.key in self._statics


def regions(p):
    for f in p.src_fns(PREFIX):
        if f.body is None or skip(f):
            continue
        stack = [(f.body, False)]
        while stack:
            x, inside = stack.pop()
            if x is None:
                continue
            if x.get("k") == "omp":
                w = x["d"].split()
                if "parallel" in w or "teams" in w or ("for" in w or "sections" in w or "taskloop" in w) and not inside:
                    yield f, x
                if "parallel" in w:
                    inside = True
            for c in subnodes(x):
                stack.append((c, inside))


def run(env, rep):
    rep.rule = ("in every OpenMP region (and loop shared among threads) each write reachable from its body, through calls, goes to storage of the thread (declared inside, private or reduction clause, thread_local), "
                "is inside a critical, atomic or single construct, or addresses an element selected by the iteration; anything else is written by several threads at once")
    p = env.prog(False)
    chk = Check(p)
    done = set()
    for f, n in regions(p):
        r = Region(p, f, n, chk).go()
        rep.count("regions")
        rep.count("writes classified", r.writes)
        tag = "%s|%s" % (f.root().q, n["d"])
        for k, (v, what, fl, l, via) in sorted(r.bad.items()):
            rep.violation(k, "%s: %s is %s by several threads at once%s" % (f.root().q.split("::")[-1], v, what, "" if not via else " (through %s)" % " > ".join(q.split("::")[-1] for q, _ in via)),
                          "%s:%s" % (fl, l), ["%s:%s region in %s" % (f.file, n.get("l"), f.root().q)] + ["called: %s (line %s)" % (q, ln) for q, ln in via])
        if not r.bad:
            rep.ok("%s|%s|%s" % (f.key, n["d"], r.writes), "%s: %s, %d writes" % (f.root().q, n["d"], r.writes))
    rep.count("calls followed", chk.entered)
    rep.need("regions", 10)
    rep.need("writes classified", 20)
    rep.assumptions = ["distinct iterations select distinct elements when the index depends on the iteration (layout of subspaces: C18)",
                       "only writes are compared with writes of the same storage; a read of another iteration's element is not decided",
                       "MPI calls from several threads need MPI_THREAD_MULTIPLE and are not decided here"]
