"""Program model over the extracted facts: call graph, expression canonicalisation, CFG."""
import re
from . import facts
from .facts import AnalysisError

EXPR_LIST = ("bin", "asg", "un", "sub", "cond", "cast", "icast", "ilist", "new", "delete", "throw", "other",
             "defarg")


def kids(e):
    """sub-expressions of an expression node, in (a possible) evaluation order."""
    k = e.get("k")
    if k == "call":
        r = []
        if "obj" in e:
            r.append(e["obj"])
        if "fe" in e:
            r.append(e["fe"])
        r += e.get("a", [])
        return [x for x in r if x]
    if k == "ctor":
        return [x for x in e.get("a", []) if x]
    if k in ("mem", "dmem"):
        return [e["b"]] if e.get("b") else []
    if k == "asg":
        return [e["c"][1], e["c"][0]]
    if k == "lambda":
        return [c["e"] for c in e.get("caps", []) if c.get("e")]
    if k in EXPR_LIST:
        return [x for x in e.get("c", []) if x]
    return []


STMT_FIELDS = ("init", "cdecl", "cond", "inc", "then", "else", "body", "range", "e", "v")


def subnodes(s):
    """direct children, statements and expressions alike"""
    k = s.get("k")
    if k in ("seq",):
        return [x for x in s["c"] if x]
    if k == "decl":
        return [v["init"] for v in s["vars"] if v.get("init")]
    if k == "try":
        return [s["body"]] + [h["body"] for h in s["h"]]
    if k in ("if", "for", "rfor", "while", "do", "switch", "case", "default", "return", "label"):
        return [s[f] for f in STMT_FIELDS if isinstance(s.get(f), dict)]
    if k == "omp":
        return [s["body"]] if s.get("body") else []
    r = kids(s)
    if k == "lambda" and s.get("body"):
        r = r + [s["body"]]
    return r


def walk(n, lambdas=True):
    """pre-order over all nodes."""
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        yield x
        if x.get("k") == "lambda" and not lambdas:
            ch = kids(x)
        else:
            ch = subnodes(x)
        st.extend(reversed(ch))


def constant_trips(s, limit=8):
    """how often the body of a loop runs if that is a small constant (and the body calls something), else None"""
    k = s.get("k")
    n = None
    if k == "rfor":
        r = strip(s.get("range"))
        if r is not None:
            m = re.search(r"(?:^(?:const )?std::array<.*, (\d+)>|\[(\d+)\])(?: *&)?$", r.get("t") or "")
            if m:
                n = int(m.group(1) or m.group(2))
    elif k == "for":
        i, c, inc = s.get("init"), strip(s.get("cond")), strip(s.get("inc"))
        if i is not None and i.get("k") == "decl" and len(i["vars"]) == 1 and c is not None and c.get("k") == "bin" and c.get("op") in ("<", "<=", "!=") and \
                inc is not None and inc.get("k") == "un" and inc.get("op") == "++":
            d = i["vars"][0]["id"]

            def val(e):
                e = strip(e)
                v = None if e is None else e.get("v") if e.get("k") == "lit" else e.get("cv")
                try:
                    return int(str(v), 0)
                except ValueError:
                    return None
            a, l, b = val(i["vars"][0].get("init")), strip(c["c"][0]), val(c["c"][1])
            if a is not None and b is not None and l.get("k") == "ref" and l.get("d") == d and \
                    any(x.get("k") == "ref" and x.get("d") == d for x in walk(inc)) and not changed_in(s.get("body"), d):
                n = b - a + (1 if c["op"] == "<=" else 0)
    if n is None or not 0 < n <= limit or not any(x.get("k") == "call" for x in walk(s.get("body") or {})):
        return None
    return n


def dispatches(f):
    """a function that selects between many handlers by a number (the workers' signal loop)"""
    return any(n.get("k") == "switch" and sum(1 for x in walk(n.get("body") or {}) if x.get("k") == "case") >= 8 for n in f.nodes())


def changed_in(body, d):
    for x in walk(body or {}):
        if x.get("k") == "asg" or x.get("k") == "un" and x.get("op") in ("++", "--", "&"):
            t = strip(x["c"][0])
            if t is not None and t.get("k") == "ref" and t.get("d") == d:
                return True
    return False


def strip(e):
    while e is not None and e.get("k") in ("cast", "icast", "defarg") and e.get("c") and e.get("ck") != "CXXDynamicCastExpr":
        e = e["c"][0]
    # copy/move construction of the same thing is transparent
    if e is not None and e.get("k") == "ctor" and len(e.get("a", [])) == 1:
        cls = e.get("cls", "")
        a = strip(e["a"][0])
        at = (a or {}).get("t", "")
        if cls and cls.split("<")[0] == at.replace("const ", "").split("<")[0]:
            return a
    if e is not None and e.get("k") == "call" and e.get("n") in ("std::move", "std::forward", "std::as_const") and e.get("a"):
        return strip(e["a"][0])
    return e


NONMOD = ("data", "begin", "end", "at", "back", "front", "rbegin", "rend", "size", "empty", "find", "get", "c_str",
          "lower_bound", "upper_bound")


def is_assert(n):
    """n is an `assert(...)` expansion (debug build)"""
    return any(x.get("k") == "call" and x.get("n") == "__assert_fail" for x in walk(n))


SCALAR = re.compile(r"^(const )?(bool|char|short|int|long|unsigned.*|size_t|std::size_t|u?int\d+_t|[\w:]*Type|float|double)$")


class Fn:
    __slots__ = ("d", "prog", "_defs", "_cfg", "_lams", "_calls", "key", "q", "name", "file", "l", "_vars", "is_lambda",
                 "outer", "_single", "_mod", "_tracked")

    def __init__(self, d, prog, is_lambda=False, outer=None):
        self.d, self.prog = d, prog
        self.key, self.q, self.name = d["key"], d["q"], d["name"]
        self.file, self.l = d["file"], d["l"]
        self._defs = self._cfg = self._lams = self._calls = self._vars = self._single = self._tracked = None
        self.is_lambda, self.outer = is_lambda, outer

    @property
    def body(self):
        return self.d.get("body")

    @property
    def params(self):
        return self.d["params"]

    @property
    def cls(self):
        return self.d.get("clsq")

    def root(self):
        """outermost function (lambda bodies share its variable ids)"""
        f = self
        while f.outer is not None:
            f = f.outer
        return f

    def calls(self):
        if self._calls is None:
            self._calls = [n for n in self.nodes() if n.get("k") in ("call", "ctor")]
        return self._calls

    def nodes(self):
        for i in self.d.get("inits", []):
            if i.get("e"):
                yield from walk(i["e"])
        if self.body:
            yield from walk(self.body)

    def vars(self):
        """declared variables: id -> info (includes params, lambda params)"""
        if self._vars is None:
            r = {}
            f = self.root()
            for p in f.params:
                r[p["id"]] = p
            for n in f.nodes():
                if n.get("k") == "decl":
                    for v in n["vars"]:
                        r[v["id"]] = v
                elif n.get("k") == "rfor":
                    r[n["var"]["id"]] = dict(n["var"], rangeof=n["range"])
                elif n.get("k") == "lambda":
                    for p in n["params"]:
                        r[p["id"]] = dict(p, lamparam=True)
                elif n.get("k") == "try":
                    for h in n["h"]:
                        if h.get("var"):
                            r[h["var"]["id"]] = h["var"]
            self._vars = r
        return self._vars

    def single(self):
        """ids of locals never modified after their declaration -> init expr"""
        if self._single is None:
            f = self.root()
            if f is not self:
                self._single = f.single()
                return self._single
            mod = set()

            def lhs(e):
                e = strip(e)
                while e is not None:
                    k = e.get("k")
                    if k == "ref":
                        mod.add(e["d"])
                        return
                    if k == "mem":
                        if e.get("arrow"):
                            return
                        e = strip(e.get("b"))
                    elif k == "sub":
                        e = strip(e["c"][0])
                    elif k == "un" and e["op"] == "*":
                        return
                    elif k == "call" and e.get("op") == "[]":
                        e = strip(e.get("obj"))
                    elif k == "cond":
                        lhs(e["c"][1])
                        e = strip(e["c"][2])
                    else:
                        return

            for n in f.nodes():
                k = n.get("k")
                if k == "asg":
                    lhs(n["c"][0])
                elif k == "un" and n["op"] in ("++", "--", "&"):
                    lhs(n["c"][0])
                elif k in ("call", "ctor"):
                    for a, t in zip(n.get("a", []), n.get("pt", [])):
                        if t.endswith("&") and not t.startswith("const ") and not t.endswith("&&"):
                            lhs(a)
                    if k == "call" and n.get("obj") is not None and not n.get("mc") and n.get("n") != "lambda" and \
                            not ((n.get("n") or "").startswith(("std::", "__gnu_cxx", "boost::")) and
                                 (n.get("n") or "").split("::")[-1] in NONMOD):
                        if n.get("op") in ("=", "+=", "-=", "++", "--", "<<", ">>", "*=", "|=", "&=") or "op" not in n:
                            lhs(n["obj"])
                elif k == "lambda":
                    for c in n.get("caps", []):
                        pass
            self._mod = mod
            r = {}
            for i, v in f.vars().items():
                if i not in mod and v.get("init") is not None and not v.get("rangeof"):
                    r[i] = v["init"]
            self._single = r
        return self._single

    def tracked(self):
        """ids of scalar locals whose every change is a plain assignment or ++/-- in this body (no alias)"""
        f = self.root()
        if f is not self:
            return f.tracked()
        if self._tracked is None:
            bad = set()

            def ids(e):
                return {x["d"] for x in walk(e) if x.get("k") == "ref" and "d" in x}
            for n in f.nodes():
                k = n.get("k")
                if k == "un" and n["op"] == "&":
                    bad |= ids(n["c"][0])
                elif k in ("call", "ctor"):
                    for a, t in zip(n.get("a", []), n.get("pt", [])):
                        if t.endswith("&") and not t.startswith("const "):
                            bad |= ids(a)
                    if n.get("fe") is not None or len(n.get("pt", [])) < len(n.get("a", [])):
                        for a in n.get("a", []):
                            bad |= ids(a)
                elif k == "lambda" and n.get("body"):
                    for x in walk(n["body"]):
                        if x.get("k") == "asg" or x.get("k") == "un" and x["op"] in ("++", "--"):
                            bad |= ids(x["c"][0])
                elif k == "decl":
                    for v in n["vars"]:
                        if v.get("t", "").endswith("&") and not v.get("t", "").startswith("const ") and v.get("init"):
                            bad |= ids(v["init"])
                elif k == "omp" and n.get("body"):
                    for x in walk(n["body"]):
                        if x.get("k") == "asg" or x.get("k") == "un" and x["op"] in ("++", "--"):
                            bad |= ids(x["c"][0])
            self._tracked = {i for i, v in f.vars().items() if i not in bad and not v.get("rangeof") and SCALAR.match(v.get("t", ""))}
        return self._tracked

    def modified(self):
        """ids of locals / parameters that may change after their declaration"""
        self.root().single()
        return self.root()._mod

    def lambdas(self):
        if self._lams is None:
            self._lams = [n for n in self.nodes() if n.get("k") == "lambda"]
        return self._lams

    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg

    def where(self, n=None):
        return "%s:%d" % (self.file, (n or {}).get("l") or self.l)

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.q, self.file, self.l)


class Program:
    def __init__(self, debug=False, repo=None):
        raw = facts.load(debug=debug, repo=repo)
        self.raw = raw
        self.fns = {}
        for k, d in raw["fns"].items():
            self.fns[k] = Fn(d, self)
        self.recs = raw["recs"]
        self.enums = raw["enums"]
        self.gvars = raw["gvars"]
        self.tmpls = raw["tmpls"]
        self.tus = raw["tus"]
        # lambdas become functions of their own
        for f in list(self.fns.values()):
            self._reg_lams(f)
        self.by_q = {}
        for f in self.fns.values():
            self.by_q.setdefault(f.q, []).append(f)
        self.overriders = {}
        for f in self.fns.values():
            for o in f.d.get("overrides", []):
                self.overriders.setdefault(o, []).append(f)
        self._callers = None

    def _reg_lams(self, f):
        for n in f.lambdas():
            if n["f"] in self.fns:
                continue
            d = {"key": n["f"], "q": "lambda", "name": "lambda", "file": f.file, "l": n["l"], "params": n["params"],
                 "ret": "?", "body": n["body"], "el": n["l"]}
            self.fns[n["f"]] = Fn(d, self, True, f)

    def src(self, f):
        return f.file.startswith("src/") or f.file.startswith("third_level_manager/")

    def src_fns(self, prefixes=("src/",), simft=False):
        return [f for f in self.fns.values() if f.file.startswith(tuple(prefixes))
                and (simft or not f.file.startswith("src/mpi_fault_simulator/")) and not f.is_lambda]

    def callees(self, call, virt=True):
        """repo functions a call node may run."""
        k = call.get("f")
        r = []
        f = self.fns.get(k) if k else None
        if f is not None:
            r.append(f)
        if virt and call.get("virt"):
            st, seen = [k], set()
            while st:
                x = st.pop()
                for o in self.overriders.get(x, []):
                    if o.key not in seen:
                        seen.add(o.key)
                        r.append(o)
                        st.append(o.key)
        return r

    def callers(self):
        if self._callers is None:
            c = {}
            for f in self.fns.values():
                if f.is_lambda:
                    continue
                for n in f.calls():
                    for g in self.callees(n):
                        c.setdefault(g.key, []).append((f, n))
                for n in f.nodes():
                    if n.get("k") == "fref" and n.get("f") in self.fns:
                        c.setdefault(n["f"], []).append((f, n))
            self._callers = c
        return self._callers

    def rec(self, q):
        """non-dependent records with qualified name q (instantiations share it)"""
        return [r for t, r in self.recs.items() if r["q"] == q and not r["dep"]]

    def find(self, q):
        return self.by_q.get(q, [])

    def subclasses(self, t):
        out, st = [], [t]
        while st:
            x = st.pop()
            for r in self.recs.values():
                if not r["dep"] and x in r["bases"]:
                    out.append(r)
                    st.append(r["t"])
        return out


# ---------------------------------------------------------------- canonical expressions
class Ctx:
    """calling context: bindings of a function's parameters to caller expressions."""
    __slots__ = ("fn", "bind", "this", "parent", "depth", "call")

    def __init__(self, fn, bind=None, this=None, parent=None):
        self.fn, self.bind, self.this, self.parent = fn, bind or {}, this, parent
        self.call = None
        self.depth = parent.depth + 1 if parent else 0

    def stack(self):
        c, r = self, []
        while c:
            r.append(c.fn.key)
            c = c.parent
        return r


def enter(ctx, call, callee):
    """context for running `callee` from `call` evaluated in ctx."""
    b = {}
    for p, a in zip(callee.params, call.get("a", [])):
        b[p["id"]] = (a, ctx)
    this = None
    if call.get("obj") is not None:
        this = (call["obj"], ctx)
    c = Ctx(callee, b, this, ctx)
    c.call = call
    if callee.is_lambda:
        # captured variables keep the ids of the enclosing function
        x = ctx
        while x is not None and x.fn.root() is not callee.root():
            x = x.parent
        if x is not None:
            nb = dict(x.bind)
            nb.update(b)
            c.bind = nb
            c.this = x.this
    return c


def simple_return(f):
    """the expression of a function whose body is just `return e;` (ignoring asserts / nulls)"""
    b = f.body
    if not b or b.get("k") != "seq":
        return None
    st = [x for x in b["c"] if x and x.get("k") not in ("null", "cast") and not (x.get("k") == "cond" and is_assert(x))]
    if len(st) == 1 and st[0].get("k") == "return" and st[0].get("e"):
        return st[0]["e"]
    return None


def canon(e, ctx, inline=True, depth=0):
    """canonical tree (nested tuples) of an expression; single-assignment locals, bound parameters
    and trivially-returning repo functions are expanded."""
    e = strip(e)
    if e is None:
        return ("none",)
    if depth > 24:
        return ("deep",)
    k = e.get("k")
    D = depth + 1
    prog = ctx.fn.prog
    if k == "lit":
        return ("lit", e["v"])
    if k == "str":
        return ("str", e["v"])
    if k == "enum":
        return ("enum", e["q"])
    if k == "this":
        if ctx.this is not None:
            t = canon(ctx.this[0], ctx.this[1], inline, D)
            return t
        return ("this",)
    if k == "ref":
        if e.get("g") in ("global", "smember"):
            if e.get("cv") is not None and "const" in e.get("t", ""):
                return ("gconst", e["q"], e["cv"])
            return ("gvar", e["q"])
        i = e["d"]
        if i in ctx.bind:
            a, c2 = ctx.bind[i]
            return canon(a, c2, inline, D)
        s = ctx.fn.single()
        if i in s:
            return canon(s[i], ctx, inline, D)
        v = ctx.fn.vars().get(i)
        if v is not None and v.get("rangeof") is not None:
            return ("elem", canon(v["rangeof"], ctx, inline, D))
        return ("var", ctx.fn.root().key, i, e["n"])
    if k == "mem":
        if e.get("mk") == "static":
            return ("gvar", e.get("cls", "") + "::" + e["n"])
        return ("field", e.get("cls", ""), e["n"], canon(e["b"], ctx, inline, D))
    if k == "call":
        if inline and e.get("f") in prog.fns and not e.get("op"):
            f = prog.fns[e["f"]]
            if not (e.get("virt") and prog.overriders.get(f.key)):
                r = simple_return(f)
                if r is not None and f.key not in ctx.stack() and ctx.depth < 12:
                    return canon(r, enter(ctx, e, f), inline, D)
        nm = e.get("n") or "(indirect)"
        r = ["call", nm]
        if e.get("ta"):
            r[1] = nm + "<" + ",".join(e["ta"]) + ">"
        if e.get("obj") is not None:
            r.append(("obj", canon(e["obj"], ctx, inline, D)))
        elif e.get("fe") is not None:
            r.append(("fe", canon(e["fe"], ctx, inline, D)))
        r += [canon(a, ctx, inline, D) for a in e.get("a", [])]
        return tuple(r)
    if k == "ctor":
        return tuple(["new", e.get("cls", "")] + [canon(a, ctx, inline, D) for a in e.get("a", [])])
    if k == "un":
        if e["op"] == "&":
            x = canon(e["c"][0], ctx, inline, D)
            if x[0] == "deref":
                return x[1]
            return ("addr", x)
        if e["op"] == "*":
            x = canon(e["c"][0], ctx, inline, D)
            if x[0] == "addr":
                return x[1]
            return ("deref", x)
        return ("un", e["op"], canon(e["c"][0], ctx, inline, D))
    if k in ("bin", "asg"):
        if e.get("cv") is not None:
            return ("lit", e["cv"])
        return (k, e["op"], canon(e["c"][0], ctx, inline, D), canon(e["c"][1], ctx, inline, D))
    if k == "sub":
        return ("sub", canon(e["c"][0], ctx, inline, D), canon(e["c"][1], ctx, inline, D))
    if k == "cond":
        return tuple(["cond"] + [canon(x, ctx, inline, D) for x in e["c"]])
    if k == "sizeof":
        return ("sizeof", e["of"])
    if k == "fref":
        return ("fref", e.get("n"), tuple(e.get("ta", [])))
    if k == "lambda":
        return ("lambda", e["f"])
    if k == "ilist":
        return tuple(["ilist"] + [canon(x, ctx, inline, D) for x in e["c"]])
    if k == "new":
        return tuple(["alloc", e["of"]] + [canon(x, ctx, inline, D) for x in e["c"]])
    if k in ("null_ptr", "zero"):
        return (k,)
    if k == "cast":
        return ("dyncast", e.get("t"), canon(e["c"][0], ctx, inline, D))
    return tuple([k] + [canon(x, ctx, inline, D) for x in kids(e)])


def show(c, depth=0):
    """short text of a canonical tree"""
    if not isinstance(c, tuple):
        return str(c)
    if depth > 6:
        return "..."
    h = c[0]
    s = lambda x: show(x, depth + 1)
    if h in ("lit", "str", "enum", "gvar"):
        return str(c[1]).replace("combigrid::", "")
    if h == "gconst":
        return c[1].replace("combigrid::", "")
    if h == "var":
        return c[3]
    if h == "field":
        return s(c[3]) + "." + c[2] if c[3] != ("this",) else c[2]
    if h == "this":
        return "this"
    if h == "call":
        a = [s(x[1]) + "." if isinstance(x, tuple) and x and x[0] == "obj" else None for x in c[2:3]]
        o = a[0] if a and a[0] else ""
        rest = c[3:] if o else c[2:]
        return o + c[1].replace("combigrid::", "") + "(" + ", ".join(s(x) for x in rest) + ")"
    if h == "addr":
        return "&" + s(c[1])
    if h == "deref":
        return "*" + s(c[1])
    if h in ("bin", "asg"):
        return s(c[2]) + " " + c[1] + " " + s(c[3])
    if h == "sub":
        return s(c[1]) + "[" + s(c[2]) + "]"
    if h == "elem":
        return "elem(" + s(c[1]) + ")"
    return h + "(" + ", ".join(s(x) for x in c[1:]) + ")"


def text(e):
    """short source-like text of a raw expression"""
    e = strip(e)
    if e is None:
        return ""
    k = e.get("k")
    if k in ("lit", "str"):
        return str(e["v"])
    if k in ("ref", "enum", "fref"):
        return e.get("n", "?").split("::")[-1]
    if k == "mem":
        b = e.get("b")
        return (text(b) + "." if b and b.get("k") != "this" else "") + e["n"].split("::")[-1]
    if k == "call":
        if e.get("op") == "[]":
            return text(e["obj"]) + "[" + text(e["a"][0]) + "]"
        if e.get("op"):
            xs = ([e["obj"]] if e.get("obj") else []) + e.get("a", [])
            return (" " + e["op"] + " ").join(text(x) for x in xs)
        o = e.get("obj")
        return (text(o) + "." if o and strip(o).get("k") != "this" else "") + (e.get("n") or "?").split("::")[-1] + "(" + \
            ", ".join(text(a) for a in e.get("a", [])) + ")"
    if k == "this":
        return "this"
    if k == "un":
        return e["op"] + text(e["c"][0])
    if k in ("bin", "asg"):
        return text(e["c"][0]) + " " + e["op"] + " " + text(e["c"][1])
    if k == "sub":
        return text(e["c"][0]) + "[" + text(e["c"][1]) + "]"
    if k == "ctor":
        return e.get("cls", "").split("::")[-1] + "(" + ", ".join(text(a) for a in e.get("a", [])) + ")"
    if k == "sizeof":
        return "sizeof(" + e["of"] + ")"
    return k


# ---------------------------------------------------------------- control flow graph
class Node:
    __slots__ = ("i", "kind", "ast", "succ", "pred", "extra")

    def __init__(self, i, kind, ast, extra=None):
        self.i, self.kind, self.ast, self.extra = i, kind, ast, extra
        self.succ, self.pred = [], []

    def __repr__(self):
        return "N%d:%s@%s" % (self.i, self.kind, (self.ast or {}).get("l"))


OPK = ("call", "ctor", "asg", "new", "delete", "throw", "lambda")


class CFG:
    """kinds: entry exit excexit op branch(ast=cond expr, succ labels True/False or case) decl ret dtor
    omp_begin omp_end loop(ast=loop stmt) join"""

    def __init__(self, fn):
        self.fn = fn
        self.nodes = []
        self.entry = self.new("entry", None)
        self.exit = self.new("exit", None)
        self.exc = self.new("excexit", None)
        self.scopes = []      # list of lists of destructible vars
        self.brk, self.cont = [], []
        self.handlers = []
        self.labels, self.gotos = {}, []
        cur = [(self.entry, None)]
        for i in fn.d.get("inits", []):
            if i.get("e"):
                cur = self.expr(i["e"], cur)
                n = self.new("init", i["e"], i["n"])
                self.link(cur, n)
                cur = [(n, None)]
        if fn.body:
            cur = self.stmt(fn.body, cur)
        self.link(cur, self.exit)
        for src, name in self.gotos:
            if name in self.labels:
                self.link([(src, None)], self.labels[name])
        for n in self.nodes:
            for m, lab in n.succ:
                m.pred.append((n, lab))

    def new(self, kind, ast, extra=None):
        n = Node(len(self.nodes), kind, ast, extra)
        self.nodes.append(n)
        return n

    def link(self, cur, n):
        for m, lab in cur:
            m.succ.append((n, lab))

    # expressions: only effectful operations become nodes
    def expr(self, e, cur):
        if e is None or not cur:
            return cur
        k = e.get("k")
        if k == "bin" and e["op"] in ("&&", "||"):
            t, f = self.cond(e, cur)
            j = self.new("join", None)
            self.link(t + f, j)
            return [(j, None)]
        if k == "cond":
            t, f = self.cond(e["c"][0], cur)
            t = self.expr(e["c"][1], t)
            f = self.expr(e["c"][2], f)
            j = self.new("join", None)
            self.link(t + f, j)
            return [(j, None)] if t or f else []
        for c in kids(e):
            cur = self.expr(c, cur)
        if k in OPK or (k == "un" and e["op"] in ("++", "--")):
            n = self.new("op", e)
            self.link(cur, n)
            if self.handlers:
                self.handlers[-1].append((n, "exc"))
            if k == "throw":
                self.unwind(n)
                return []
            if k == "call" and (e.get("n") in ("abort", "exit", "_exit", "std::abort", "std::exit", "std::terminate",
                                               "__assert_fail")):
                return []
            return [(n, None)]
        return cur

    def unwind(self, n):
        if self.handlers:
            self.handlers[-1].append((n, None))
        else:
            cur = self.dtors(0, [(n, None)])
            self.link(cur, self.exc)

    def cond(self, e, cur):
        """-> (true ends, false ends)"""
        k = e.get("k")
        if k in ("icast",) and e.get("c"):
            return self.cond(e["c"][0], cur)
        if k == "bin" and e["op"] == "&&":
            t, f = self.cond(e["c"][0], cur)
            t2, f2 = self.cond(e["c"][1], t)
            return t2, f + f2
        if k == "bin" and e["op"] == "||":
            t, f = self.cond(e["c"][0], cur)
            t2, f2 = self.cond(e["c"][1], f)
            return t + t2, f2
        if k == "un" and e["op"] == "!":
            t, f = self.cond(e["c"][0], cur)
            return f, t
        if k == "lit" and e["v"] in ("true", "false", "0", "1") or e.get("cv") is not None and k in ("ref", "bin", "un", "enum"):
            v = e.get("cv") if e.get("cv") is not None else e["v"]
            truth = v not in ("false", "0")
            return (cur, []) if truth else ([], cur)
        cur = self.expr(e, cur)
        if not cur:
            return [], []
        n = self.new("branch", e)
        self.link(cur, n)
        return [(n, True)], [(n, False)]

    def dtors(self, upto, cur):
        for sc in reversed(self.scopes[upto:]):
            for v in reversed(sc):
                if not cur:
                    return cur
                n = self.new("dtor", v)
                self.link(cur, n)
                cur = [(n, None)]
        return cur

    def push(self):
        self.scopes.append([])

    def pop(self, cur):
        cur = self.dtors(len(self.scopes) - 1, cur)
        self.scopes.pop()
        return cur

    def stmt(self, s, cur):
        if s is None:
            return cur
        k = s.get("k")
        if k == "seq":
            self.push()
            for c in s["c"]:
                cur = self.stmt(c, cur)
            return self.pop(cur)
        if k == "decl":
            for v in s["vars"]:
                if v.get("init"):
                    cur = self.expr(v["init"], cur)
                if not cur:
                    cur = []
                n = self.new("decl", v)
                self.link(cur, n)
                if cur:
                    cur = [(n, None)]
                    if v.get("g") == "local":
                        self.scopes[-1].append(v) if self.scopes else None
            return cur
        if not cur and k not in ("case", "default", "label", "switch", "seq") and not self._has_label(s):
            return cur
        if k == "if":
            self.push()
            if s.get("init"):
                cur = self.stmt(s["init"], cur)
            if s.get("cdecl"):
                cur = self.stmt(s["cdecl"], cur)
            if s.get("cx") and s.get("cv") is not None:
                if s["cv"]:
                    cur = self.stmt(s["then"], cur)
                elif s.get("else"):
                    cur = self.stmt(s["else"], cur)
                return self.pop(cur)
            t, f = self.cond(s["cond"], cur)
            t = self.block(s["then"], t)
            if s.get("else"):
                f = self.block(s["else"], f)
            return self.pop(t + f)
        if k in ("for", "while", "rfor", "do"):
            self.push()
            if s.get("init"):
                cur = self.stmt(s["init"], cur)
            if k == "rfor":
                cur = self.expr(s["range"], cur)
            head = self.new("loop", s)
            self.link(cur, head)
            self.brk.append(([], len(self.scopes)))
            self.cont.append(([], len(self.scopes)))
            cur = [(head, None)]
            out = []
            trips = constant_trips(s)
            if trips is not None:
                # a constant number of iterations: one copy of the body for each
                for i in range(trips + 1):
                    if k == "rfor":
                        b = self.new("branch", s["range"], "rfor")
                        self.link(cur, b)
                        t, f = [(b, True)], [(b, False)]
                    else:
                        t, f = self.cond(s["cond"], cur)
                    if i == trips:
                        out = f
                        break
                    cur = self.block(s["body"], t) + self.cont[-1][0]
                    self.cont[-1] = ([], len(self.scopes))
                    if s.get("inc") and cur:
                        cur = self.expr(s["inc"], cur)
                    if not cur:
                        break
            elif k == "do":
                cur = self.block(s["body"], cur)
                cur = cur + self.cont[-1][0]
                if cur:
                    t, f = self.cond(s["cond"], cur)
                    self.link(t, head)
                    out = f
            else:
                if k == "rfor":
                    b = self.new("branch", s["range"], "rfor")
                    self.link(cur, b)
                    t, f = [(b, True)], [(b, False)]
                elif s.get("cond"):
                    if s.get("cdecl"):
                        cur = self.stmt(s["cdecl"], cur)
                    t, f = self.cond(s["cond"], cur)
                else:
                    t, f = cur, []
                b = self.block(s["body"], t)
                b = b + self.cont[-1][0]
                if s.get("inc") and b:
                    b = self.expr(s["inc"], b)
                self.link(b, head)
                out = f
            out = out + self.brk.pop()[0]
            self.cont.pop()
            end = self.new("loopend", s)
            self.link(out, end)
            return self.pop([(end, None)] if out else [])
        if k == "switch":
            self.push()
            if s.get("init"):
                cur = self.stmt(s["init"], cur)
            cur = self.expr(s["cond"], cur)
            head = self.new("switch", s)
            self.link(cur, head)
            self.brk.append(([], len(self.scopes)))
            sw = {"head": head, "default": False}
            self._sw = getattr(self, "_sw", [])
            self._sw.append(sw)
            cur = self.stmt(s["body"], [])
            self._sw.pop()
            out = cur + self.brk.pop()[0]
            if not sw["default"]:
                out = out + [(head, "nodefault")]
            return self.pop(out)
        if k in ("case", "default"):
            sw = self._sw[-1]
            n = self.new("join", None)
            if k == "case":
                sw["head"].succ.append((n, ("case", s.get("cv"), text(s["v"]))))
            else:
                sw["default"] = True
                sw["head"].succ.append((n, "default"))
            self.link(cur, n)
            return self.stmt(s["body"], [(n, None)])
        if k == "break":
            if self.brk:
                tgt, depth = self.brk[-1]
                tgt.extend(self.dtors(depth, cur))
            return []
        if k == "continue":
            if self.cont:
                tgt, depth = self.cont[-1]
                tgt.extend(self.dtors(depth, cur))
            return []
        if k == "return":
            if s.get("e"):
                cur = self.expr(s["e"], cur)
            n = self.new("ret", s)
            self.link(cur, n)
            cur = self.dtors(0, [(n, None)])
            self.link(cur, self.exit)
            return []
        if k == "goto":
            n = self.new("join", s)
            self.link(cur, n)
            self.gotos.append((n, s["n"]))
            return []
        if k == "label":
            n = self.new("join", s)
            self.labels[s["n"]] = n
            self.link(cur, n)
            return self.stmt(s["body"], [(n, None)])
        if k == "try":
            self.handlers.append([])
            out = self.stmt(s["body"], cur)
            ex = self.handlers.pop()
            for h in s["h"]:
                if ex:
                    n = self.new("catch", h)
                    self.link(ex, n)
                    out = out + self.stmt(h["body"], [(n, None)])
            return out
        if k == "omp":
            b = self.new("omp_begin", s)
            self.link(cur, b)
            cur = [(b, None)]
            if s.get("body"):
                cur = self.stmt(s["body"], cur)
            e = self.new("omp_end", s)
            self.link(cur, e)
            return [(e, None)]
        if k == "null":
            return cur
        # expression statement
        cur = self.expr(s, cur)
        if cur:
            n = self.new("stmt", s)
            self.link(cur, n)
            return [(n, None)]
        return cur

    def block(self, s, cur):
        self.push()
        cur = self.stmt(s, cur)
        return self.pop(cur)

    def _has_label(self, s):
        return any(x.get("k") in ("case", "default", "label") for x in walk(s, lambdas=False))


# generic forward dataflow -----------------------------------------------------------
def forward(cfg, init, transfer, join, bottom=None, edge=None):
    """worklist dataflow; state at node entry. transfer(node, state)->state; edge(node, label, state)->state|None"""
    inn = {cfg.entry.i: init}
    work = [cfg.entry]
    cnt = 0
    while work:
        n = work.pop()
        cnt += 1
        if cnt > 200000:
            raise AnalysisError("dataflow did not converge in " + cfg.fn.q)
        st = transfer(n, inn[n.i])
        for m, lab in n.succ:
            s2 = edge(n, lab, st) if edge else st
            if s2 is None:
                continue
            old = inn.get(m.i)
            new = s2 if old is None else join(old, s2)
            if old is None or new != old:
                inn[m.i] = new
                work.append(m)
    return inn
