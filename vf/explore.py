"""Path-sensitive exploration of a function with the repo callees a client cares about inlined.

A client sees the CFG nodes in order together with its own (hashable) state; conditions over values that do
not change are remembered, so correlated branches are not mixed; integer locals holding constants are tracked."""
from .core import Ctx, enter, canon, strip, kids, AnalysisError

STABLE_CALLS = ("empty", "size", "operator==", "operator!=", "operator bool", "get", "data", "operator*", "operator->",
                "operator[]", "at", "front", "back", "length", "theMPISystem")


READ = {"begin", "end", "rbegin", "rend", "operator[]", "at", "data", "front", "back", "find", "operator*", "operator->", "get", "cbegin", "cend",
        "size", "empty", "count", "c_str", "operator()", "operator bool", "length", "lower_bound", "upper_bound"}


def lvalue_fields(e):
    """names of the members on the path of an lvalue"""
    r = set()
    for _ in range(20):
        e = strip(e)
        if e is None:
            break
        k = e.get("k")
        if k == "mem":
            r.add(e["n"])
            e = e.get("b")
        elif k in ("un", "sub", "cast", "icast") and e.get("c"):
            e = e["c"][0]
        elif k == "call" and e.get("obj") is not None:
            e = e["obj"]
        else:
            break
    return r


def own_field_writes(n):
    """members a single expression node may modify itself"""
    k = n.get("k")
    if k == "asg":
        return lvalue_fields(n["c"][0])
    if k == "un" and n.get("op") in ("++", "--", "post++", "post--", "p++", "p--"):
        return lvalue_fields(n["c"][0])
    if k in ("call", "ctor"):
        r = set()
        if n.get("obj") is not None and not n.get("mc") and (n.get("n") or "").split("::")[-1] not in READ:
            r |= lvalue_fields(n["obj"])
        for x, t in zip(n.get("a", []), n.get("pt", [])):
            if (t.endswith("&") or t.endswith("*")) and not t.startswith("const "):
                r |= lvalue_fields(x)
        return r
    return ()


def field_writes(prog):
    """function key -> names of the members it may modify, directly or through repo functions"""
    r = getattr(prog, "_field_writes", None)
    if r is None:
        own, out = {}, {}
        for f in prog.fns.values():
            if f.body is None:
                continue
            w = set()
            for n in f.nodes():
                w |= set(own_field_writes(n))
            own[f.key] = w
            out[f.key] = {g.key for n in f.calls() for g in prog.callees(n)}
        r = {k: set(v) for k, v in own.items()}
        rev = {}
        for k, cs in out.items():
            for c in cs:
                rev.setdefault(c, set()).add(k)
        work = list(r)
        while work:
            k = work.pop()
            for c in rev.get(k, ()):
                if not r[k] <= r[c]:
                    r[c] |= r[k]
                    work.append(c)
        prog._field_writes = r
    return r


class Client:
    def step(self, st, node, ctx, ex, facts):
        """-> iterable of successor states"""
        return (st,)

    def edge(self, st, node, lab, ctx, ex, facts):
        """-> state or None (infeasible for this client)"""
        return st

    def leave(self, st, kind, ctx, ex, node):
        """root function finished: kind 'exit' or 'exc'"""

    def inline(self, fn, call, ctx):
        return False

    def switch_value(self, node, ctx, ex):
        return None


class Ret:
    """a returned truth value seen as a branch"""
    __slots__ = ("kind", "ast", "i", "extra", "succ")

    def __init__(self, node, e):
        self.kind, self.ast, self.i, self.extra, self.succ = "branch", e, node.i, None, node.succ


class Explorer:
    RETURNS = False   # follow the truth values inlined functions return
    MAX = 1500000
    KEEP = True     # keep what is known about members a callee does not modify (otherwise every non-const member call forgets it)

    def __init__(self, prog, client):
        self.prog, self.client = prog, client
        self._ctx = {}
        self._canon = {}
        self._once = {}
        self.visited = 0
        self.graph = None

    # -- canonical expressions with the constants known on this path
    def canon(self, e, ctx):
        k = (id(e), id(ctx))
        r = self._canon.get(k)
        if r is None:
            r = self._canon[k] = (canon(e, ctx), e)
        return r[0]

    def value(self, e, ctx, facts):
        return self.subst(self.canon(e, ctx), facts)

    def subst(self, c, facts):
        if not isinstance(c, tuple) or not c:
            return c
        if c[0] == "var":
            for k, v in facts:
                if k == ("val", c[1], c[2]):
                    return v
            return c
        if c[0] in ("lit", "str", "enum", "gvar", "gconst", "fref"):
            return c
        if c[0] == "call" and self.RETURNS:
            for k, v in facts:
                if k[0] == "cval" and k[1] == c:
                    return v
        r = tuple(self.subst(x, facts) if isinstance(x, tuple) else x for x in c)
        if r[0] == "cond" and len(r) == 4 and isinstance(r[1], tuple):
            v = self.decided(r[1])
            if v is not None:
                return r[2] if v else r[3]
        return r

    def decided(self, c):
        """truth of a canonical condition over constants, or None"""
        if c[0] == "un" and c[1] == "!":
            v = self.decided(c[2])
            return None if v is None else not v
        if c[0] == "bin" and c[1] in ("&&", "||"):
            a, b = self.decided(c[2]), self.decided(c[3])
            if c[1] == "||":
                return True if a or b else (False if a is False and b is False else None)
            return False if a is False or b is False else (True if a and b else None)
        if c[0] == "bin" and c[1] in ("==", "!=", "<", ">", "<=", ">="):
            a, b = self.cnst(c[2]), self.cnst(c[3])
            if a is None or b is None:
                return None
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[c[1]]
        v = self.cnst(c)
        return None if v is None else bool(v)

    def cnst(self, c):
        """integer value of a canonical tree or None"""
        if not isinstance(c, tuple):
            return None
        if c[0] == "lit":
            try:
                return int(str(c[1]).rstrip("uUlL"), 0)
            except ValueError:
                return {"true": 1, "false": 0, "nullptr": 0}.get(str(c[1]))
        if c[0] == "gconst":
            try:
                return int(c[2])
            except (ValueError, TypeError):
                return {"true": 1, "false": 0}.get(str(c[2]))
        if c[0] == "enum" and len(c) > 2:
            return c[2]
        if c[0] in ("zero", "null_ptr"):
            return 0
        if c[0] == "new" and len(c) == 3:
            return self.cnst(c[2])
        if c[0] == "un" and c[1] == "-":
            v = self.cnst(c[2])
            return None if v is None else -v
        return None

    def cond_key(self, e, ctx, facts):
        """-> (key, sense) ; key None if the condition is not a stable one; or (True/False, None) if decided"""
        c = self.value(e, ctx, facts)
        return self.cond_key_c(c, ctx)

    def cond_key_c(self, c, ctx):
        sense = True
        while c[0] == "un" and c[1] == "!":
            c, sense = c[2], not sense
        op = None
        if c[0] == "bin" and c[1] in ("==", "!="):
            op, a, b = c[1], c[2], c[3]
        elif c[0] == "call" and c[1].split("<")[0].split("::")[-1] in ("operator==", "operator!="):
            xs = [x[1] if isinstance(x, tuple) and x and x[0] in ("obj",) else x for x in c[2:]]
            if len(xs) == 2:
                op, a, b = c[1].split("<")[0].split("::")[-1][8:], xs[0], xs[1]
        if op:
            va, vb = self.cnst(a), self.cnst(b)
            if va is not None and vb is not None:
                return ((va == vb) == (op == "==")) == sense, None
            if {a[0], b[0]} in ({"addr", "zero"}, {"addr", "null_ptr"}) and not (a[0] == b[0]):
                x = a if a[0] == "addr" else b
                if len(x) > 1 and isinstance(x[1], tuple) and x[1][0] in ("var", "field"):
                    return (op == "!=") == sense, None
            if a[0] == "enum" and b[0] == "enum":
                return ((a == b) == (op == "==")) == sense, None
            if a[0] == "str" and b[0] == "str":
                return ((a == b) == (op == "==")) == sense, None
            if op == "!=":
                sense = not sense
            key = ("==",) + tuple(sorted((a, b), key=repr))
        elif c[0] == "bin" and c[1] in ("<", ">", "<=", ">="):
            va, vb = self.cnst(c[2]), self.cnst(c[3])
            if va is not None and vb is not None:
                r = {"<": va < vb, ">": va > vb, "<=": va <= vb, ">=": va >= vb}[c[1]]
                return r == sense, None
            o, a, b = c[1], c[2], c[3]
            if o in (">", "<="):
                o, a, b = {">": "<", "<=": ">="}[o], b, a
            if o == ">=":
                sense = not sense
            key = ("<", a, b)
        else:
            v = self.cnst(c)
            if v is not None:
                return bool(v) == sense, None
            key = ("truth", c)
        if not self.stable(key, ctx):
            return None, sense
        return key, sense

    def stable(self, c, ctx):
        if not isinstance(c, tuple):
            return True
        if not c:
            return True
        h = c[0]
        if h == "var":
            f = self.prog.fns.get(c[1])
            return f is not None and (c[2] not in f.modified() or c[2] in f.tracked())
        if h in ("elem", "deref", "asg", "lambda", "alloc"):
            return False
        if h == "call":
            n = c[1].split("<")[0].split("::")[-1]
            if n not in STABLE_CALLS:
                return False
        return all(self.stable(x, ctx) for x in c[1:] if isinstance(x, tuple))

    def ctx_of(self, ctx, call, callee):
        k = (id(ctx), id(call), callee.key)
        r = self._ctx.get(k)
        if r is None:
            r = self._ctx[k] = (enter(ctx, call, callee), ctx, call)
        return r[0]

    @staticmethod
    def _mentions(c, fk):
        if not isinstance(c, tuple):
            return False
        if len(c) >= 3 and c[0] in ("var", "val") and c[1] == fk:
            return True
        return any(Explorer._mentions(x, fk) for x in c)

    @staticmethod
    def _has_field(c, name=None):
        if not isinstance(c, tuple):
            return False
        if c and c[0] == "field" and (name is None or c[2] == name):
            return True
        return any(Explorer._has_field(x, name) for x in c)

    def run(self, fn, st0, facts0=frozenset(), bind=None):
        """explores fn from its entry; returns nothing (the client records)"""
        root = Ctx(fn, bind or {})
        cfg = fn.cfg()
        start = (root, cfg.entry, (), frozenset(facts0), st0)
        seen = {self._k(start)}
        work = [start]
        self.start = self._k(start)
        self.roots = getattr(self, "roots", [])
        self.roots.append(root)   # keeps the context alive (its id is part of the keys)
        while work:
            ctx, node, stack, facts, st = work.pop()
            self.visited += 1
            if self.visited > self.MAX:
                raise AnalysisError("exploration of %s too large" % fn.q)
            k0 = self._k((ctx, node, stack, facts, st)) if self.graph is not None else None
            if k0 is not None:
                self.graph.setdefault(k0, [])
            for nx in self._succ(ctx, node, stack, facts, st):
                if nx is None:
                    continue
                k = self._k(nx)
                if k0 is not None:
                    self.graph[k0].append(k)
                if k not in seen:
                    seen.add(k)
                    work.append(nx)

    def _k(self, s):
        return (id(s[0]), s[1].i, tuple((id(a), b.i) for a, b in s[2]), s[3], s[4])

    def _succ(self, ctx, node, stack, facts, st):
        cl = self.client
        kind, ast = node.kind, node.ast
        if node.kind in ("exit", "excexit"):
            if not stack:
                cl.leave(st, "exit" if kind == "exit" else "exc", ctx, self, node)
                return
            (cctx, cnode), rest = stack[-1], stack[:-1]
            fk = ctx.fn.root().key
            if self.RETURNS:
                rv = [v for k, v in facts if k == ("ret", ctx.fn.key)]
                facts = frozenset(f for f in facts if f[0] != ("ret", ctx.fn.key))
                if self._wanted(cctx, cnode):
                    c = self.canon(cnode.ast, cctx)
                    facts = frozenset(f for f in facts if f[0] != ("cval", c))
                    if rv and kind == "exit":
                        facts = facts | {(("cval", c), rv[0])}
            if ctx.fn.root() is not cctx.fn.root():
                facts = frozenset(f for f in facts if not self._mentions(f[0], fk))
            if kind == "excexit":
                # propagate to a handler of the caller or further out
                hs = [m for m, lab in cnode.succ if lab == "exc"]
                if hs:
                    for m in hs:
                        yield (cctx, m, rest, facts, st)
                else:
                    yield (cctx, cctx.fn.cfg().exc, rest, facts, st)
                return
            for m, lab in cnode.succ:
                if lab != "exc":
                    yield (cctx, m, rest, facts, st)
            return
        # callee inlining
        if kind == "op" and ast.get("k") in ("call", "ctor"):
            g = None
            f = self.prog.fns.get(ast.get("f")) if ast.get("f") else None
            if f is None and ast.get("k") == "call" and ast.get("fe") is not None:
                c = self.canon(ast["fe"], ctx)
                if c[0] == "lambda":
                    f = self.prog.fns.get(c[1])
            if f is None and ast.get("k") == "call" and ast.get("obj") is not None and \
                    (ast.get("n") == "lambda" or ast.get("op") == "()"):
                c = self.canon(ast["obj"], ctx)
                if c[0] == "lambda":
                    f = self.prog.fns.get(c[1])
            cands = []
            if f is not None and f.body is not None:
                cands = [f]
            if ast.get("virt"):
                cands = [x for x in self.prog.callees(ast) if x.body is not None]
            cands = [x for x in cands if x.key not in ctx.stack() and len(stack) < 14 and cl.inline(x, ast, ctx)]
            if cands:
                for st2 in cl.step(st, node, ctx, self, facts):
                    for g in cands:
                        c2 = self.ctx_of(ctx, ast, g)
                        f2 = frozenset(x for x in facts if not self._mentions(x[0], g.root().key)) \
                            if g.root() is not ctx.fn.root() else facts
                        yield (c2, g.cfg().entry, stack + ((ctx, node),), f2, st2)
                return
        for st2 in cl.step(st, node, ctx, self, facts):
            f2 = self._upd(node, ctx, facts)
            if kind == "switch":
                yield from self._switch(ctx, node, stack, f2, st2)
                continue
            if kind == "ret" and self.RETURNS and stack and ast is not None and ast.get("e") is not None and self._wanted(*stack[-1]):
                yield from self._return(ctx, node, stack, f2, st2)
                continue
            key = sense = None
            if kind == "branch" and node.extra != "rfor":
                key, sense = self.cond_key(ast, ctx, f2)
            for m, lab in node.succ:
                f3 = f2
                if kind == "branch" and lab in (True, False) and node.extra != "rfor":
                    if key is True or key is False:
                        if sense is None and key != lab:
                            continue
                    elif key is not None:
                        val = lab == sense
                        known = [v for k, v in f2 if k == key]
                        if known and known[0] != val:
                            continue
                        if not known:
                            # x==A known true and x==B asked, A != B constants
                            if val and key[0] == "==" and self._contradict(key, f2):
                                continue
                            f3 = f2 | {(key, val)}
                s3 = cl.edge(st2, node, lab, ctx, self, f3)
                if s3 is None:
                    continue
                yield (ctx, m, stack, f3, s3)

    def _wanted(self, cctx, cnode):
        """the caller keeps the truth value this call returns (and has no second call like it)"""
        a = cnode.ast
        if a is None or a.get("k") != "call" or a.get("t") != "bool":
            return False
        f = cctx.fn.root()
        k = (f.key, a.get("f"))
        r = self._once.get(k)
        if r is None:
            r = self._once[k] = sum(1 for n in f.nodes() if n.get("k") == "call" and n.get("f") == a.get("f")) == 1 and \
                any(n.get("k") == "decl" and any(strip(v.get("init")) is a for v in n["vars"] if v.get("init") is not None) for n in f.nodes())
        return r

    def _return(self, ctx, node, stack, facts, st):
        """a truth value is returned: its two outcomes are followed separately"""
        cl = self.client
        e = node.ast["e"]
        key, sense = self.cond_key(e, ctx, facts)
        fake = Ret(node, e)
        for m, lab in node.succ:
            if lab == "exc":
                yield (ctx, m, stack, facts, st)
                continue
            for val in (True, False):
                f3 = facts
                if key is True or key is False:
                    if sense is None and key != val:
                        continue
                elif key is not None:
                    w = val == sense
                    known = [v for k, v in facts if k == key]
                    if known and known[0] != w:
                        continue
                    if not known:
                        if w and key[0] == "==" and self._contradict(key, facts):
                            continue
                        f3 = facts | {(key, w)}
                s3 = cl.edge(st, fake, val, ctx, self, f3)
                if s3 is None:
                    continue
                yield (ctx, m, stack, f3 | {(("ret", ctx.fn.key), ("lit", "true" if val else "false"))}, s3)

    def _contradict(self, key, facts):
        a, b = key[1], key[2]
        ca, cb = self.cnst(a), self.cnst(b)
        enum = lambda x: x[0] in ("enum", "str") or self.cnst(x) is not None
        for k, v in facts:
            if v is True and isinstance(k, tuple) and k and k[0] == "==":
                for x, c in ((a, b), (b, a)):
                    if enum(c) and not enum(x):
                        for y, d in ((k[1], k[2]), (k[2], k[1])):
                            if y == x and enum(d) and d != c and not (self.cnst(d) is not None and self.cnst(d) == self.cnst(c)):
                                return True
        return False

    def _switch(self, ctx, node, stack, facts, st):
        cl = self.client
        v = cl.switch_value(node, ctx, self)
        c = self.value(node.ast["cond"], ctx, facts)
        if v is None:
            v = self.cnst(c)
        ename = c[1] if c[0] == "enum" else None
        if v is None and ename is None:
            for k, val in facts:
                if val is True and isinstance(k, tuple) and k[0] == "==" and c in (k[1], k[2]):
                    o = k[2] if k[1] == c else k[1]
                    v = self.cnst(o)
        taken = False
        if v is not None:
            for m, lab in node.succ:
                if isinstance(lab, tuple) and lab[1] is not None and str(lab[1]) == str(v):
                    s3 = cl.edge(st, node, lab, ctx, self, facts)
                    if s3 is not None:
                        yield (ctx, m, stack, facts, s3)
                    taken = True
            if not taken:
                for m, lab in node.succ:
                    if lab in ("default", "nodefault"):
                        s3 = cl.edge(st, node, lab, ctx, self, facts)
                        if s3 is not None:
                            yield (ctx, m, stack, facts, s3)
            return
        for m, lab in node.succ:
            s3 = cl.edge(st, node, lab, ctx, self, facts)
            if s3 is not None:
                yield (ctx, m, stack, facts, s3)

    def _upd(self, node, ctx, facts):
        """facts after node"""
        kind, a = node.kind, node.ast
        if kind == "decl":
            vid = a["id"]
            fk = ctx.fn.root().key
            facts = frozenset(x for x in facts if not (isinstance(x[0], tuple) and self._mvar(x[0], fk, vid)))
            if a.get("init") is not None and vid in ctx.fn.modified():
                c = self.value(a["init"], ctx, facts)
                if self.cnst(c) is not None or c[0] == "enum":
                    facts = facts | {(("val", fk, vid), c)}
            return facts
        if kind == "op" and a.get("k") == "asg":
            l = strip(a["c"][0])
            if l.get("k") == "ref":
                fk, vid = ctx.fn.root().key, l["d"]
                facts = frozenset(x for x in facts if not self._mvar(x[0], fk, vid))
                if a["op"] == "=":
                    c = self.value(a["c"][1], ctx, facts)
                    if self.cnst(c) is not None or c[0] == "enum":
                        facts = facts | {(("val", fk, vid), c)}
            elif l.get("k") == "mem":
                nm = l["n"]
                facts = frozenset(x for x in facts if not self._has_field(x[0], nm))
            return facts
        if kind == "op" and a.get("k") == "un":
            l = strip(a["c"][0])
            if l.get("k") == "ref":
                fk, vid = ctx.fn.root().key, l["d"]
                facts = frozenset(x for x in facts if not self._mvar(x[0], fk, vid))
            elif l.get("k") == "mem":
                facts = frozenset(x for x in facts if not self._has_field(x[0], l["n"]))
            return facts
        if kind == "op" and a.get("k") == "call":
            # locals passed by address / reference lose their constant
            kill = set()
            for x in a.get("a", []):
                y = strip(x)
                if y is not None and y.get("k") == "un" and y["op"] == "&":
                    z = strip(y["c"][0])
                    if z.get("k") == "ref":
                        kill.add(z["d"])
            for x, t in zip(a.get("a", []), a.get("pt", [])):
                if t.endswith("&") and not t.startswith("const "):
                    z = strip(x)
                    if z is not None and z.get("k") == "ref":
                        kill.add(z["d"])
            if kill:
                fk = ctx.fn.root().key
                facts = frozenset(x for x in facts if not any(self._mvar(x[0], fk, v) for v in kill))
            if not self.KEEP and a.get("f") in self.prog.fns and not a.get("mc") and a.get("obj") is not None:
                return frozenset(x for x in facts if not self._has_field(x[0]))
            w = set(own_field_writes(a))
            for g in self.prog.callees(a):
                w |= field_writes(self.prog).get(g.key, set())
            if w:
                facts = frozenset(x for x in facts if not any(self._has_field(x[0], nm) for nm in w))
        return facts

    def _mvar(self, c, fk, vid):
        if not isinstance(c, tuple):
            return False
        if len(c) >= 3 and c[0] in ("var", "val") and c[1] == fk and c[2] == vid:
            return True
        return any(self._mvar(x, fk, vid) for x in c)
