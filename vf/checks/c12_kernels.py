"""Update steps of the one-dimensional kernels, read off as linear forms of grid values: the inverse kernel must undo them in reverse order.

A kernel is decided when it is a loop over levels whose body updates grid values by fixed linear combinations of themselves and their
neighbours; the hat kernels' running offsets are decided in c12_hat.py; a kernel written in another way is left undecided and never reported."""
from fractions import Fraction as Q
from ..core import strip, walk


DEBUG = False


class Unknown(Exception):
    pass


def add(a, b, f=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v * f
        if r[k] == 0:
            del r[k]
    return r


def fz(d):
    return frozenset(d.items())


class Kernel:
    def __init__(self, f):
        self.f = f
        self.data = f.params[0]["id"]
        self.ints = {q["id"]: {("p", i): Q(1)} for i, q in enumerate(f.params) if i}
        self.vals = {}
        self.steps, self.range = [], None
        self.mode = "out"
        self.block(f.body)
        if self.range is None or not self.steps:
            raise Unknown("no level loop")

    # -- expressions
    def num(self, e):
        e = strip(e)
        if e.get("k") == "lit":
            try:
                return Q(str(e["v"]).rstrip("fFlLuU"))
            except ValueError:
                raise Unknown("literal")
        if e.get("k") == "un" and e.get("op") in ("-", "+"):
            return self.num(e["c"][0]) * (-1 if e["op"] == "-" else 1)
        if e.get("k") == "ctor" and len(e.get("a", [])) == 1:
            return self.num(e["a"][0])
        if e.get("k") == "bin" and e["op"] in ("*", "/", "+", "-"):
            a, b = self.num(e["c"][0]), self.num(e["c"][1])
            if e["op"] == "/" and (b == 0 or "int" in e.get("t", "")):
                raise Unknown("division")
            return {"*": a * b, "+": a + b, "-": a - b, "/": a / (b or 1)}[e["op"]]
        raise Unknown("number")

    def idx(self, e):
        """integer expression as a linear form"""
        e = strip(e)
        k = e.get("k")
        if k == "lit":
            v = Q(str(e["v"]).rstrip("uUlL"))
            return {1: v} if v else {}
        if k == "ref":
            if e.get("d") in self.ints:
                return self.ints[e["d"]]
            raise Unknown("variable %s" % e.get("n"))
        if k == "bin" and e["op"] in ("+", "-"):
            return add(self.idx(e["c"][0]), self.idx(e["c"][1]), 1 if e["op"] == "+" else -1)
        if k == "bin" and e["op"] == "*":
            a, b = self.idx(e["c"][0]), self.idx(e["c"][1])
            for x, y in ((a, b), (b, a)):
                if set(x) <= {1}:
                    return {n: v * x.get(1, 0) for n, v in y.items()} if x else {}
        if k == "bin" and e["op"] == "<<":
            a = self.idx(e["c"][0])
            p = self.power(self.idx(e["c"][1]))
            if set(a) == {1}:
                return {n: v * a[1] for n, v in p.items()}
            if len(a) == 1:
                (s, v), = a.items()
                if isinstance(s, tuple) and s[0] == "pow":
                    return {m: w * v for m, w in self.power(add(dict(s[1]), self.idx(e["c"][1]))).items()}
        if k == "sub" and strip(e["c"][0]).get("n") == "powerOfTwo":
            return self.power(self.idx(e["c"][1]))
        if k == "call" and (e.get("n") or "").endswith("powerOfTwoByBitshift") and e.get("a"):
            return self.power(self.idx(e["a"][0]))
        raise Unknown("index")

    def power(self, x):
        c = x.get(1, Q(0))
        rest = {k: v for k, v in x.items() if k != 1}
        if c.denominator != 1 or c < 0 or c > 20:
            raise Unknown("power")
        return {("pow", fz(rest)): Q(2 ** int(c))} if rest else {1: Q(2 ** int(c))}

    def cell(self, e):
        e = strip(e)
        if e.get("k") == "sub":
            b = strip(e["c"][0])
            if b.get("k") == "ref" and b.get("d") == self.data:
                return fz(self.idx(e["c"][1]))
        return None

    def lin(self, e):
        """value as a linear form of grid values"""
        e = strip(e)
        k = e.get("k")
        c = self.cell(e)
        if c is not None:
            return {c: Q(1)}
        if k == "ref" and e.get("d") in self.vals:
            return self.vals[e["d"]]
        if k == "bin" and e["op"] in ("+", "-"):
            return add(self.lin(e["c"][0]), self.lin(e["c"][1]), 1 if e["op"] == "+" else -1)
        if k == "un" and e["op"] == "-":
            return {n: -v for n, v in self.lin(e["c"][0]).items()}
        if k == "bin" and e["op"] in ("*", "/"):
            for a, b in ((e["c"][0], e["c"][1]), (e["c"][1], e["c"][0])):
                try:
                    w = self.num(a if e["op"] == "*" else e["c"][1])
                except Unknown:
                    continue
                if e["op"] == "/":
                    if w == 0:
                        raise Unknown("division")
                    return {n: v / w for n, v in self.lin(e["c"][0]).items()}
                return {n: v * w for n, v in self.lin(b).items()}
        raise Unknown("value %s" % k)

    # -- statements
    def block(self, s):
        if s is None:
            return
        k = s.get("k")
        if k == "seq":
            for x in s["c"]:
                self.block(x)
        elif k == "decl":
            for v in s["vars"]:
                self.declare(v)
        elif k == "if":
            t = self.const(s["cond"])
            self.block(s.get("then") if t else s.get("else"))
        elif k == "asg":
            self.assign(s)
        elif k == "for":
            self.loop(s)
        elif k in ("null", "ret"):
            if k == "ret" and self.mode != "out":
                raise Unknown("return")
        elif k in ("cast", "icast") and s.get("c"):
            self.block(s["c"][0])
        else:
            if any(x.get("k") in ("call", "asg", "un") for x in walk(s)):
                raise Unknown("statement %s" % k)

    def const(self, e):
        e = strip(e)
        if e.get("k") == "lit" and str(e["v"]) in ("true", "false", "0", "1"):
            return str(e["v"]) in ("true", "1")
        if e.get("k") == "un" and e["op"] == "!":
            return not self.const(e["c"][0])
        raise Unknown("condition")

    def declare(self, v):
        i = v.get("init")
        if i is None:
            raise Unknown("uninitialised")
        try:
            x = self.idx(i)
            self.ints[v["id"]] = x
            if not v["t"].startswith("const"):
                self.ints[v["id"]] = x
        except Unknown:
            self.vals[v["id"]] = self.lin(i)

    def assign(self, s):
        l = strip(s["c"][0])
        r = self.lin(s["c"][1])
        if s["op"] in ("+=", "-="):
            r = add(self.lin(l), r, 1 if s["op"] == "+=" else -1)
        elif s["op"] != "=":
            raise Unknown("assignment")
        c = self.cell(l)
        if c is not None:
            self.write(c, r)
        elif l.get("k") == "ref" and l.get("d") in self.vals:
            self.vals[l["d"]] = r
        else:
            raise Unknown("target")

    def write(self, c, r):
        if self.mode == "out":
            raise Unknown("write outside the level loop")
        # values read before must not be stale copies of what is overwritten
        for k, v in self.vals.items():
            if c in v:
                v2 = self.live.get(k, True)
                if v2:
                    raise Unknown("copy of an overwritten value")
        self.out.append((c, r))

    def bounds(self, s):
        """-> (variable id, first, bound, step, strict less)"""
        i = s.get("init") or {}
        if i.get("k") != "decl" or len(i["vars"]) != 1:
            raise Unknown("loop")
        v = i["vars"][0]
        c, inc = strip(s["cond"]), strip(s["inc"])
        if c.get("k") != "bin" or strip(c["c"][0]).get("d") != v["id"]:
            raise Unknown("loop condition")
        if inc.get("k") == "un" and inc["op"] in ("++", "--", "post++", "post--", "++pre", "--pre"):
            d = {1: Q(1 if "++" in inc["op"] else -1)}
        elif inc.get("k") == "asg" and inc["op"] in ("+=", "-="):
            d = self.idx(inc["c"][1])
            if inc["op"] == "-=":
                d = {k: -x for k, x in d.items()}
        else:
            raise Unknown("loop step")
        return v["id"], self.idx(v["init"]), c["op"], self.idx(c["c"][1]), d

    def loop(self, s):
        v, first, op, bound, d = self.bounds(s)
        if self.mode == "out":
            if self.range is not None:
                raise Unknown("two level loops")
            one = {1: Q(1)}
            if d == one and op in ("<", "!=", "<="):
                lo, hi = first, bound if op != "<=" else add(bound, one)
                up = True
            elif d == {1: Q(-1)} and op in (">=", ">"):
                lo, hi = bound if op == ">=" else add(bound, one), add(first, one)
                up = False
            else:
                raise Unknown("level loop")
            self.range = (fz(lo), fz(hi), up)
            self.ints[v] = {"L": Q(1)}
            self.mode, self.out, self.live = "level", [], {}
            self.block(s["body"])
            self.steps = self.out
            self.mode = "out"
            return
        if self.mode != "level" or op not in ("<",):
            raise Unknown("inner loop")
        self.ints[v] = {"i": Q(1)}
        entry = dict(self.vals)
        back = lambda r, by: {fz(add(dict(c), by)): w for c, w in r.items()}
        # a carried value is its value at entry, moved along with i
        for k, r in entry.items():
            self.vals[k] = {fz(add(add(dict(c), first, -1), {"i": Q(1)})): w for c, w in r.items()}
        guess = dict(self.vals)
        carried = {x["c"][0].get("d") for x in walk(s["body"]) if x.get("k") == "asg"} & set(entry)
        for k in list(self.vals):
            if k not in carried:
                self.vals[k] = entry[k]
        out, self.out = self.out, []
        self.mode = "inner"
        lv, self.live = self.live, {k: False for k in self.vals}
        self.block(s["body"])
        self.mode = "level"
        inner, self.out, self.live = self.out, out, lv
        for k in carried:
            if self.vals[k] != back(guess[k], d):
                raise Unknown("carried value")
        for k in list(self.vals):
            if k in carried:
                del self.vals[k]
                self.dead = True
        self.restore(carried, inner)
        for c, r in inner:
            if c != fz({"i": Q(1)}):
                raise Unknown("loop target")
            self.out.append((("each", fz(first), fz(bound), fz(d)), {fz(add(dict(x), {"i": Q(1)}, -1)) if ("i" in dict(x)) else ("abs", x): w for x, w in r.items()}))

    def restore(self, carried, inner):
        """a carried value may be assigned anew, not read, after its loop"""
        for k in carried:
            self.vals[k] = {("after",): Q(1)}


def groups(k, periodic):
    """update steps as alternating groups of even and odd points: [(parity, {target: (self, {offset: weight})})]"""
    s = ("pow", fz({"L": Q(1)}))
    top = ("pow", fz({("p", 1): Q(1)}))

    def par(x):
        d = dict(x)
        d.pop(top, None)
        v = d.pop(s, Q(0))
        if d or v.denominator != 1:
            raise Unknown("offset")
        return int(v) % 2
    res = []
    for t, r in k.steps:
        if ("after",) in r:
            raise Unknown("stale value")
        if t[0:1] == ("each",) if isinstance(t, tuple) else False:
            _, first, bound, d = t
            if dict(d) != {s: Q(2)} or dict(bound) != {top: Q(1)}:
                raise Unknown("stride")
            pt = par(first)
            if dict(first) not in ({s: Q(1)}, {s: Q(2)}):
                raise Unknown("start")
            own = r.get(frozenset(), Q(0))
            oth = {x: w for x, w in r.items() if x != frozenset()}
            for x in oth:
                if isinstance(x, tuple) and x and x[0] == "abs" or par(x) != 1:
                    raise Unknown("neighbour")
            name = ("each", first)
        else:
            pt = par(t)
            z, e = frozenset(), fz({top: Q(1)})
            if t not in (z, e):
                raise Unknown("point")
            if r == {z: Q(1)} and t == e:
                name, own, oth = ("copy",), Q(1), {}
            else:
                if periodic:
                    own = r.get(z, Q(0)) + r.get(e, Q(0))
                    oth = {x: w for x, w in r.items() if x not in (z, e)}
                else:
                    own = r.get(t, Q(0))
                    oth = {x: w for x, w in r.items() if x != t}
                for x in oth:
                    if par(x) != 1:
                        raise Unknown("neighbour")
                name = ("at", t)
        if own == 0:
            raise Unknown("not invertible")
        if not res or res[-1][0] != pt:
            res.append((pt, {}))
        if name in res[-1][1]:
            raise Unknown("updated twice")
        res[-1][1][name] = (own, oth)
    return res


def show(name):
    return {"each": "inner points", "copy": "end point copy", "at": "end point"}[name[0]]


def run(p, m, rep):
    ks = {m.kname(k): f for k, f in m.kernels.items() if k[len(f.q):].startswith("<double")}
    for n, f in sorted(ks.items()):
        if n.startswith("de"):
            continue
        g = ks.get("de" + n)
        if g is None:
            continue
        rep.count("kernel pairs")
        periodic = "true" in n
        try:
            H, D = Kernel(f), Kernel(g)
            gh, gd = groups(H, periodic), groups(D, periodic)
        except (Unknown, KeyError, TypeError, IndexError, AttributeError, ValueError):
            from .c12_hat import compare
            try:
                bad = compare(f, g)
            except (Unknown, KeyError, TypeError, IndexError, AttributeError, ValueError) as x:
                rep.count("kernel pairs not decided")
                if DEBUG:
                    print("not decided", n, repr(x))
                continue
            rep.count("kernel pairs decided")
            for what, msg in bad:
                rep.violation("inverse %s|%s" % (what, g.q + ("<periodic>" if periodic else "")), "%s and its inverse: %s" % (n, msg), "%s:%s" % (g.file, g.l))
            if not bad:
                rep.ok("inverse|" + n, "de%s undoes %s: same points and parents on every level, levels reversed" % (n, n))
            continue
        rep.count("kernel pairs decided")
        where = "%s:%s" % (g.file, g.l)
        bad = []
        if H.range[:2] != D.range[:2]:
            bad.append(("levels", "the levels it visits are not those that %s visited" % n))
        if H.range[2] == D.range[2]:
            bad.append(("order", "levels are visited in the same order as by %s, not in reverse" % n))
        if [x[0] for x in gd] != [x[0] for x in reversed(gh)]:
            bad.append(("steps", "the update steps of %s are not undone in reverse order" % n))
        else:
            for (pa, a), (pb, b) in zip(reversed(gh), gd):
                for name in sorted(set(a) | set(b), key=repr):
                    if name not in a or name not in b:
                        bad.append(("missing", "%s: updated by only one of the kernels" % show(name)))
                        continue
                    own, oth = a[name]
                    want = (1 / own, {x: -w / own for x, w in oth.items()})
                    if b[name] != want:
                        bad.append(("weights", "%s: the weights do not undo those of %s" % (show(name), n)))
        for what, msg in bad:
            rep.violation("inverse %s|%s" % (what, g.q + ("<periodic>" if periodic else "")), "%s: %s" % (g.q.split("::")[-1], msg), where)
        if not bad:
            rep.ok("inverse|" + n, "de%s undoes %s: %d steps per level, levels reversed" % (n, n, sum(len(x[1]) for x in gh)))
