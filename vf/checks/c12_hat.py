"""Kernels that walk the levels with running powers of two (offset, step size, number of steps).

The exponents of the running quantities are linear in the number of the level; they are read off the initial values and the updates at the
end of the level loop. A kernel then is: for every level the distance t of the parents (as an exponent), the first point, the step size, the
number of points, and the linear update of a point by its parents. Anything that does not fit this form is left undecided."""
from fractions import Fraction as Q
from ..core import strip, walk
from .c12_kernels import Unknown, add


def lin_sub(a, v, b):
    """a with v replaced by b"""
    c = a.get(v, 0)
    r = {k: x for k, x in a.items() if k != v}
    return add(r, b, c) if c else r


class Hat:
    def __init__(self, f):
        self.f = f
        ps = [q["id"] for q in f.params]
        self.data = ps[0]
        self.env = {}           # id -> ("lin", form) | ("pow", form)
        for i, p in enumerate(ps[1:]):
            self.env[p] = ("lin", {"lmax" if i == 0 else "lmin": Q(1)})
        self.loop = None
        for s in self.flat(f.body):
            if s.get("k") == "decl":
                for v in s["vars"]:
                    if v.get("init") is not None:
                        self.env[v["id"]] = self.val(v["init"])
            elif s.get("k") in ("for", "while"):
                if self.loop is not None:
                    raise Unknown("second loop")
                self.loop = s
                self.levels(s)
            elif s.get("k") in ("return", "null"):
                pass
            elif s.get("k") == "asg" and self.loop is None and strip(s["c"][0]).get("k") == "ref" and s.get("op") == "=":
                self.env[strip(s["c"][0])["d"]] = self.val(s["c"][1])
            else:
                raise Unknown("statement")
        if self.loop is None:
            raise Unknown("no level loop")

    def flat(self, s):
        if s is None:
            return []
        if s.get("k") == "seq":
            return [y for x in s["c"] if x for y in self.flat(x)]
        if s.get("k") == "omp":
            return self.flat(s.get("body"))
        return [s]

    # -- integers
    def val(self, e, env=None):
        env = self.env if env is None else env
        e = strip(e)
        k = e.get("k")
        if k == "lit":
            n = int(str(e["v"]).rstrip("uUlL"))
            return ("lin", {(): Q(n)} if n else {})
        if k == "ref":
            if e["d"] not in env:
                raise Unknown("variable")
            return env[e["d"]]
        if k == "bin" and e["op"] in ("+", "-"):
            a, b = self.lin(e["c"][0], env), self.lin(e["c"][1], env)
            return ("lin", add(a, b, 1 if e["op"] == "+" else -1))
        if k == "bin" and e["op"] in ("<<", ">>"):
            return ("pow", add(self.pow(e["c"][0], env), self.lin(e["c"][1], env), 1 if e["op"] == "<<" else -1))
        if k == "bin" and e["op"] in ("*", "/") and strip(e["c"][1]).get("k") == "lit" and str(strip(e["c"][1])["v"]) == "2":
            return ("pow", add(self.pow(e["c"][0], env), {(): Q(1)}, 1 if e["op"] == "*" else -1))
        if k == "bin" and e["op"] == "*" and strip(e["c"][0]).get("k") == "lit" and str(strip(e["c"][0])["v"]) == "2":
            return ("pow", add(self.pow(e["c"][1], env), {(): Q(1)}))
        if k == "sub" or k == "call" and (e.get("n") or "").endswith("operator[]"):
            b, i = (e["c"][0], e["c"][1]) if k == "sub" else (e.get("obj"), e["a"][-1])
            b = strip(b)
            if b is not None and b.get("n") == "powerOfTwo" or b is not None and str(b.get("q", "")).endswith("powerOfTwo"):
                return ("pow", self.lin(i, env))
        raise Unknown("integer")

    def lin(self, e, env):
        t, v = self.val(e, env)
        if t != "lin":
            raise Unknown("power in a sum")
        return v

    def pow(self, e, env):
        t, v = self.val(e, env)
        if t == "pow":
            return v
        c = v.get((), 0)
        if set(v) <= {()} and c > 0 and c.denominator == 1 and c & (c - 1) == 0 if isinstance(c, int) else set(v) <= {()} and c > 0 and int(c) & (int(c) - 1) == 0:
            n = int(c).bit_length() - 1
            return {(): Q(n)} if n else {}
        raise Unknown("no power of two")

    # -- the loop over levels
    def levels(self, s):
        cond = strip(s.get("cond"))
        if cond is None or cond.get("k") != "bin" or cond["op"] not in ("<", "<=", ">", ">="):
            raise Unknown("condition")
        if s.get("init") is not None:
            for x in self.flat(s["init"]):
                if x.get("k") != "decl":
                    raise Unknown("init")
                for v in x["vars"]:
                    self.env[v["id"]] = self.val(v["init"])
        l, op = strip(cond["c"][0]), cond["op"]
        other = cond["c"][1]
        if l.get("k") != "ref" or l["d"] not in self.env or l["d"] not in self.changed(s):
            l, other = strip(cond["c"][1]), cond["c"][0]
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
        if l.get("k") != "ref" or l["d"] not in self.env:
            raise Unknown("level")
        lv = l["d"]
        self.step = self.inc(s, lv)
        bound = self.lin(other, self.env)
        if op == "<":
            bound = add(bound, {(): Q(1)}, -1)
        elif op == ">":
            bound = add(bound, {(): Q(1)})
        if (self.step > 0) != (op in ("<", "<=")):
            raise Unknown("direction")
        start = self.env[lv][1] if self.env[lv][0] == "lin" else None
        if start is None:
            raise Unknown("start")
        self.count = add(bound, start, -1) if self.step > 0 else add(start, bound, -1)      # number of levels - 1
        body = self.flat(s["body"])
        run = self.changed(s["body"]) - {lv}
        inner = [i for i, x in enumerate(body) if x.get("k") in ("for", "while")]
        if len(inner) != 1:
            raise Unknown("inner loop")
        # running quantities: symbols at the beginning of a level
        env = dict(self.env)
        env[lv] = ("lin", add(start, {"k": Q(self.step)}))
        self.running = {}
        for v in run:
            if v in self.env:
                self.running[v] = self.pow_of(self.env[v])
                env[v] = ("pow", {("r", v): Q(1)})
        self.level_env = env
        self.inner(body[:inner[0]], body[inner[0]], env)
        # updates behind the inner loop
        if self.moved in self.running:
            env[self.moved] = None
        e2 = dict(env)
        for x in body[inner[0] + 1:]:
            if x.get("k") != "asg" or strip(x["c"][0]).get("k") != "ref":
                raise Unknown("update")
            d = strip(x["c"][0])["d"]
            if d == lv:
                raise Unknown("level changed")
            if x["op"] == "=":
                e2[d] = self.val2(x["c"][1], e2)
            elif x["op"] in ("<<=", ">>="):
                e2[d] = ("pow", add(self.pow(x["c"][0], e2), self.lin(x["c"][1], e2), 1 if x["op"] == "<<=" else -1))
            elif x["op"] in ("*=", "/=") and str(strip(x["c"][1]).get("v")) == "2":
                e2[d] = ("pow", add(self.pow(x["c"][0], e2), {(): Q(1)}, 1 if x["op"] == "*=" else -1))
            else:
                raise Unknown("update")
        self.solve(e2)

    def val2(self, e, env):
        r = self.val(e, env)
        if r is None:
            raise Unknown("moved offset")
        return r

    def pow_of(self, v):
        if v[0] == "pow":
            return v[1]
        c = v[1].get((), 0)
        if set(v[1]) <= {()} and c > 0 and int(c) & (int(c) - 1) == 0:
            n = int(c).bit_length() - 1
            return {(): Q(n)} if n else {}
        raise Unknown("start value")

    def changed(self, s):
        r = set()
        for x in walk(s):
            if x.get("k") == "asg" and strip(x["c"][0]).get("k") == "ref":
                r.add(strip(x["c"][0])["d"])
            elif x.get("k") == "un" and x.get("op") in ("++", "--") and strip(x["c"][0]).get("k") == "ref":
                r.add(strip(x["c"][0])["d"])
        return r & (set(self.env) | {None})

    def inc(self, s, lv):
        x = strip(s.get("inc"))
        if x is None:
            raise Unknown("increment")
        if x.get("k") == "un" and x["op"] in ("++", "--") and strip(x["c"][0]).get("d") == lv:
            return 1 if x["op"] == "++" else -1
        raise Unknown("increment")

    def solve(self, e2):
        """exponents as linear forms of the level number k"""
        slope, form = {}, {}
        todo = dict(self.running)
        self.irregular = False
        nxt = {}
        for v in todo:
            r = e2.get(v)
            if r is None:
                raise Unknown("moved offset")
            nxt[v] = self.pow_of(r) if r[0] == "pow" or r[0] == "lin" else None
        for _ in range(len(todo) + 1):
            for v, e0 in todo.items():
                if v in form:
                    continue
                n = nxt[v]
                deps = [s for s in n if isinstance(s, tuple) and s and s[0] == "r"]
                if deps == [("r", v)] and n[("r", v)] == 1:
                    d = {k: x for k, x in n.items() if k != ("r", v)}
                    if set(d) - {()}:
                        raise Unknown("slope")
                    form[v] = add(e0, {"k": d.get((), Q(0))}) if d.get((), 0) else dict(e0)
                elif all(s[1] in form for s in deps):
                    for s in deps:
                        n = lin_sub(n, s, form[s[1]])
                    # value at k + 1
                    g = lin_sub(n, "k", {"k": Q(1), (): Q(-1)})
                    at0 = {k: x for k, x in g.items() if k != "k"}
                    if at0 != {k: x for k, x in e0.items() if x}:
                        self.irregular = True
                    form[v] = g
        if set(form) != set(todo):
            raise Unknown("mutual updates")
        self.form = form

    def res(self, p):
        """exponent with the running quantities replaced"""
        for s in [x for x in p if isinstance(x, tuple) and x and x[0] == "r"]:
            p = lin_sub(p, s, self.form[s[1]])
        return p

    # -- the points of a level
    def inner(self, pre, loop, env):
        vals = {}
        self.offs = {}

        def idx(e, loc):
            """index as sum of named powers: {name: factor}"""
            e = strip(e)
            if e.get("k") == "ref":
                if e["d"] in loc:
                    return loc[e["d"]]
                if e["d"] in env and env[e["d"]] is not None and env[e["d"]][0] == "pow":
                    return {("v", e["d"]): Q(1)}
                raise Unknown("index")
            if e.get("k") == "lit":
                n = int(e["v"])
                return {(): Q(n)} if n else {}
            if e.get("k") == "bin" and e["op"] in ("+", "-"):
                return add(idx(e["c"][0], loc), idx(e["c"][1], loc), 1 if e["op"] == "+" else -1)
            if e.get("k") == "bin" and e["op"] == "*":
                for a, b in ((0, 1), (1, 0)):
                    x = strip(e["c"][a])
                    if x.get("k") == "lit":
                        return {k: v * Q(str(x["v"])) for k, v in idx(e["c"][b], loc).items()}
                    if x.get("k") == "ref" and ("ctr", x["d"]) in loc:
                        r = idx(e["c"][b], loc)
                        return {("*", k): v for k, v in r.items()}
            raise Unknown("index")

        def form(e, loc):
            e = strip(e)
            k = e.get("k")
            if k == "ref" and e["d"] in vals:
                return vals[e["d"]]
            if k == "sub" and strip(e["c"][0]).get("d") == self.data:
                c = frozenset(idx(e["c"][1], loc).items())
                return cells.get(c, {c: Q(1)})
            if k == "bin" and e["op"] in ("+", "-"):
                return add(form(e["c"][0], loc), form(e["c"][1], loc), 1 if e["op"] == "+" else -1)
            if k == "bin" and e["op"] == "*" or k == "call" and e.get("op") == "*":
                a = e["c"] if k == "bin" else e["a"]
                for i, j in ((0, 1), (1, 0)):
                    try:
                        w = num(a[i])
                    except Unknown:
                        continue
                    return {c: x * w for c, x in form(a[j], loc).items()}
            if k == "un" and e["op"] == "-":
                return {c: -x for c, x in form(e["c"][0], loc).items()}
            raise Unknown("value")

        def num(e):
            e = strip(e)
            if e.get("k") == "lit":
                return Q(str(e["v"]).rstrip("fF"))
            if e.get("k") == "un" and e["op"] == "-":
                return -num(e["c"][0])
            if e.get("k") == "ctor" and len(e.get("a", [])) == 1:
                return num(e["a"][0])
            raise Unknown("number")

        cells = {}
        for x in pre:
            if x.get("k") == "decl":
                for v in x["vars"]:
                    vals[v["id"]] = form(v["init"], {})
            elif x.get("k") == "asg" and strip(x["c"][0]).get("k") == "ref" and x["op"] == "=":
                vals[strip(x["c"][0])["d"]] = form(x["c"][1], {})
            else:
                raise Unknown("before the points")
        carried0 = dict(vals)
        if loop.get("k") != "for":
            raise Unknown("points")
        ini = self.flat(loop.get("init"))
        if len(ini) != 1 or ini[0].get("k") != "decl" or len(ini[0]["vars"]) != 1:
            raise Unknown("points")
        cv = ini[0]["vars"][0]
        c0 = strip(cv["init"])
        cond = strip(loop["cond"])
        if c0.get("k") != "lit" or str(c0["v"]) != "0" or cond.get("k") != "bin" or cond["op"] not in ("<", "!=") or strip(cond["c"][0]).get("d") != cv["id"] or self.inc(loop, cv["id"]) != 1:
            raise Unknown("points")
        self.npoints = self.pow(cond["c"][1], env)
        # one point
        loc, moved, step = {("ctr", cv["id"]): True}, None, None
        assigned, order = {}, []
        self.target = None
        for x in self.flat(loop["body"]):
            if x.get("k") == "decl":
                for v in x["vars"]:
                    try:
                        vals[v["id"]] = form(v["init"], loc)
                    except Unknown:
                        loc[v["id"]] = idx(v["init"], loc)
            elif x.get("k") == "asg":
                l = strip(x["c"][0])
                if l.get("k") == "sub" and strip(l["c"][0]).get("d") == self.data:
                    c = frozenset(idx(l["c"][1], loc).items())
                    r = form(x["c"][1], loc)
                    if x["op"] in ("+=", "-="):
                        r = add(cells.get(c, {c: Q(1)}), r, 1 if x["op"] == "+=" else -1)
                    elif x["op"] != "=":
                        raise Unknown("write")
                    if self.target not in (None, c):
                        raise Unknown("two points")
                    self.target = c
                    cells[c] = r
                elif l.get("k") == "ref" and l["d"] in vals and x["op"] == "=":
                    assigned[l["d"]] = vals[l["d"]] = form(x["c"][1], loc)
                elif l.get("k") == "ref" and l["d"] in env and x["op"] in ("+=",):
                    if moved is not None:
                        raise Unknown("two offsets")
                    moved, step = l["d"], idx(x["c"][1], loc)
                    loc[moved] = add({("v", moved): Q(1)}, step)
                else:
                    raise Unknown("statement")
            else:
                raise Unknown("statement")
        if self.target is None or moved is None:
            raise Unknown("no point")
        self.moved = moved
        # values carried from point to point: what they were at the first point must be what the previous point left
        self.conds = []
        for v, r in assigned.items():
            if v in carried0:
                # r is in terms of the offset of the previous point; moving on adds step
                a = {k: w for k, w in carried0[v].items()}
                b = {}
                for k, w in r.items():
                    d = dict(k)
                    if d.get(("v", moved), 0) != 1:
                        raise Unknown("carried")
                    b[frozenset(add(d, step, -1).items())] = w
                self.conds.append((a, b))
        self.update, self.stride = cells[self.target], step

    def absolute(self, d):
        """sum of named powers -> {exponent: factor}"""
        r = {}
        for k, w in dict(d).items():
            if k == () or not (isinstance(k, tuple) and k[0] == "v"):
                raise Unknown("index")
            p = self.res(self.level_env_pow(k[1]))
            # powers of two: fold factors
            f = w
            key = frozenset((a, b) for a, b in p.items() if b)
            r[key] = r.get(key, 0) + f
            if r[key] == 0:
                del r[key]
        return self.fold(r)

    def level_env_pow(self, v):
        if v in self.running:
            return {("r", v): Q(1)}
        return self.pow_of(self.env[v])

    def fold(self, r):
        """2 * 2^e -> 2^(e+1)"""
        again = True
        while again:
            again = False
            for k, w in list(r.items()):
                if w in (2, -2, 4, -4):
                    del r[k]
                    d = add(dict(k), {(): Q(1)})
                    kk = frozenset(d.items())
                    r[kk] = r.get(kk, 0) + w / 2
                    if r[kk] == 0:
                        del r[kk]
                    again = True
                    break
        return frozenset(r.items())

    def normal(self):
        """(range of t, first point, stride, number of points, weights) in terms of t, the exponent of the distance to the parents"""
        if self.irregular:
            return None
        tgt = dict(self.target)
        rel = {}
        for c, w in self.update.items():
            d = add(dict(c), tgt, -1)
            rel[self.absolute(d) if d else frozenset()] = w
        for a, b in self.conds:
            A = {self.absolute(dict(k)): w for k, w in a.items()}
            B = {self.absolute(dict(k)): w for k, w in b.items()}
            if A != B:
                return None
        dist = {next(iter(k))[0] for k in rel if k and len(k) == 1}
        if len(dist) != 1 or any(len(k) > 1 or k and abs(next(iter(k))[1]) != 1 for k in rel):
            raise Unknown("parents")
        t = dict(next(iter(dist)))
        s = t.get("k", 0)
        if s not in (1, -1):
            return None
        # k = (t - t0) / s
        t0 = {a: b for a, b in t.items() if a != "k"}
        back = add({"t": Q(1) * s}, t0, -1 * s)

        def conv(p):
            return frozenset(lin_sub(dict(p), "k", back).items())
        first = self.absolute(tgt)
        if len(first) != 1:
            raise Unknown("first point")
        end = lin_sub(t, "k", self.count)
        lo, hi = (t0, end) if s > 0 else (end, t0)
        z = lambda d: frozenset((a, b) for a, b in d.items() if b)
        w = {("own" if not k else next(iter(k))[1]): x for k, x in rel.items()}
        stride = self.absolute(self.stride)
        return (z(lo), z(hi)), s, frozenset((conv(e), f) for e, f in first), frozenset((conv(e), f) for e, f in stride), conv(self.res(self.npoints)), w


def compare(f, g):
    """problems of g as the inverse of f; Unknown if not decided"""
    H, D = Hat(f), Hat(g)
    a, b = H.normal(), D.normal()
    if a is None and b is None:
        raise Unknown("both irregular")
    if a is None or b is None:
        return [("levels", "the running offsets, step sizes and distances do not describe the same points on every level")]
    bad = []
    if a[0] != b[0]:
        bad.append(("levels", "the levels visited differ"))
    if a[1] == b[1]:
        bad.append(("order", "levels are visited in the same order, not in reverse"))
    if a[2:5] != b[2:5]:
        bad.append(("points", "the points updated on a level differ"))
    own = a[5].get("own", 0)
    if own == 0 or {k: -w / own if k != "own" else 1 / own for k, w in a[5].items()} != b[5]:
        bad.append(("weights", "the weights do not undo each other"))
    return bad
