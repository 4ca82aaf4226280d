"""C16: systems and broker speak the same third-level protocol."""
from ..core import Ctx, canon, strip, show, AnalysisError
from ..explore import Client, Explorer

SOCK = "combigrid::ClientSocket::"
BOUND = 16        # primitive transfers per session that are followed (two rounds of data in each direction)
NUM = "<number>"


def relevant(p):
    """functions that (transitively) transfer something over a third-level connection"""
    prim = lambda n: prim_kind(n.get("n") or "")
    direct = set()
    work = []
    for f in p.fns.values():
        if f.body and not f.file.startswith("tests/") and f.cls not in ("combigrid::ClientSocket", "combigrid::NetworkUtils") and any(prim(n) for n in f.calls()):
            r = f.root()
            if r.key not in direct:
                direct.add(r.key)
                work.append(r)
            if f.key != r.key:
                direct.add(f.key)
    callers = p.callers()
    while work:
        f = work.pop()
        for g, _ in callers.get(f.key, []):
            for h in (g, g.root()):
                if h.key not in direct:
                    direct.add(h.key)
                    work.append(h)
    return direct


def prim_kind(name):
    if name.startswith(SOCK):
        m = name[len(SOCK):]
        if m.startswith("sendallPrefixed"):
            return "s"
        if m.startswith("recvallPrefixed"):
            return "r"
        if m.startswith("sendallBinary"):
            return "sb"
        if m.startswith("recvallBinary"):
            return "rb"
        if m.startswith("sendall"):
            return "s?"
        if m.startswith("recvall"):
            return "r?"
    if name == "combigrid::NetworkUtils::forward":
        return "fw"
    return None


def lit(c):
    """text of a canonical string expression that is a literal"""
    while isinstance(c, tuple) and c:
        if c[0] == "str":
            return c[1]
        if c[0] in ("new", "ctor", "cast", "obj", "ref"):
            xs = [x for x in c[1:] if isinstance(x, tuple) and x and x[0] not in ("zero",)]
            if not xs:
                return None
            c = xs[0]
            continue
        if c[0] in ("gconst", "gvar"):
            return None
        return None
    return None


def var_of(c):
    while isinstance(c, tuple) and c and c[0] in ("asg", "obj", "call", "new"):
        if c[0] == "call" and "operator=" not in c[1]:
            return None
        xs = [x for x in c[1:] if isinstance(x, tuple)]
        if not xs:
            return None
        c = xs[0]
    if isinstance(c, tuple) and c and c[0] in ("var", "field"):
        return c
    return None


class Words(Client):
    """state: (events, bindings of string variables to receive events)"""

    def __init__(self, prog, rel, role, bound=BOUND, broker=False):
        self.broker, self.nrelay, self.norelay = broker, 0, {}
        self.prog, self.rel, self.role = prog, rel, role
        self.words = set()
        self.silent = {}       # messages that are silently ignored
        self.where = {}
        self.sizes = []
        self.cut = 0
        self.bound = bound

    def inline(self, fn, call, ctx):
        return fn.key in self.rel or (fn.is_lambda and fn.root().key in self.rel)

    def step(self, st, node, ctx, ex, facts):
        ev, b = st
        n = node.ast
        if node.kind == "decl":
            b = self.unbind(b, ("var", ctx.fn.root().key, n["id"]))
            if n.get("init") is not None:
                c = ex.canon(n["init"], ctx)
                b = tuple(x for x in b if x[0] != ("expr", c))
            return ((ev, b),)
        if node.kind != "op":
            return (st,)
        if n.get("k") == "asg":
            l = strip(n["c"][0])
            if l is not None and l.get("k") == "ref":
                b = self.unbind(b, ("var", ctx.fn.root().key, l["d"]))
            return ((ev, b),)
        if n.get("k") != "call":
            return (st,)
        if n.get("op") == "=" or (n.get("n") or "").endswith("operator="):
            l = strip(n.get("obj") or n["a"][0])
            if l is not None and l.get("k") == "ref":
                return ((ev, self.unbind(b, ("var", ctx.fn.root().key, l["d"]))),)
        k = prim_kind(n.get("n") or "")
        if k is None:
            return (st,)
        if k == "fw":
            e = ("fw", self.who(n["a"][0], ctx, ex), self.who(n["a"][1], ctx, ex))
        else:
            who = self.who(n["obj"], ctx, ex)
            if k == "s":
                c = ex.value(n["a"][0], ctx, facts)
                t = lit(c)
                e = ("s", who, t if t is not None else NUM)
                if t is None:
                    self.numc = c
            elif k == "r":
                e = ("r", who, None)
                # passed by reference: an older binding of that variable is void
                v = var_of(ex.canon(n["a"][0], ctx))
                if v is not None:
                    b = self.unbind(b, v[:3])
            elif k in ("sb", "rb"):
                ta = n.get("ta") or []
                e = (k, who, ta[0] if ta else None)
                if k == "sb":
                    self.sizes.append((ctx.fn, n, getattr(self, "numc", None), ex.value(n["a"][1], ctx, facts), e[2]))
            else:
                e = (k, who, n.get("n"))
        self.where.setdefault(e, ctx.fn.where(n))
        if len(ev) >= self.bound:
            self.cut += 1
            return ()
        return ((ev + (e,), b),)

    def who(self, e, ctx, ex):
        """role of the connection; a reference names the same object whatever is done through it"""
        c = ex.canon(e, ctx)
        for _ in range(8):
            v = self.ref_in(c)
            if v is None:
                break
            x = ctx
            while x is not None and x.fn.root().key != v[1]:
                x = x.parent
            if x is None:
                break
            c = ex.canon(x.fn.root().vars()[v[2]]["init"], x)
        return self.role(c)

    def ref_in(self, c):
        st = [c]
        while st:
            x = st.pop()
            if not isinstance(x, tuple):
                continue
            if len(x) >= 3 and x[0] == "var":
                f = self.prog.fns.get(x[1])
                v = f.vars().get(x[2]) if f is not None else None
                if v is not None and v.get("t", "").endswith("&") and v.get("init") is not None:
                    return x
            st.extend(x)
        return None

    @staticmethod
    def unbind(b, v):
        return tuple(x for x in b if x[0][:3] != v[:3])

    def edge(self, st, node, lab, ctx, ex, facts):
        if node.kind != "branch" or node.extra == "rfor" or lab not in (True, False):
            return st
        c = ex.canon(node.ast, ctx)
        want = lab
        while c[0] == "un" and c[1] == "!":
            c, want = c[2], not want
        op = None
        if c[0] == "bin" and c[1] in ("==", "!="):
            op, a, d = c[1], c[2], c[3]
            for x, y in ((a, d), (d, a)):
                if isinstance(x, tuple) and x[0] == "call" and x[1].split("<")[0].endswith("compare") and y == ("lit", "0"):
                    xs = [q[1] if q[0] == "obj" else q for q in x[2:] if isinstance(q, tuple)]
                    if len(xs) == 2:
                        a, d = xs
        elif c[0] == "call" and c[1].split("<")[0].split("::")[-1] in ("operator==", "operator!="):
            xs = [x[1] if isinstance(x, tuple) and x and x[0] == "obj" else x for x in c[2:]]
            if len(xs) == 2:
                op, a, d = c[1].split("<")[0].split("::")[-1][8:], xs[0], xs[1]
        z = self.zero_test(c, want)
        if z is not None:
            v, zero = z
            ev, b = st
            rs = [j for j, e in enumerate(ev) if e[0] == "r"]
            if not rs or not self.received(v):
                return st
            k = ("zero", v, rs[-1])
            for x in b:
                if x[0] == k:
                    return st if x[1] == zero else None
            return (ev, b + ((k, zero),))
        if op is None:
            return st
        ta, td = lit(ex.subst(a, facts)), lit(ex.subst(d, facts))
        if (ta is None) == (td is None):
            return st
        t, v = (ta, d) if ta is not None else (td, a)
        if op == "!=":
            want = not want
        ev, b = st
        key = var_of(v)
        key = key[:3] if key is not None else ("expr", v)
        i = None
        for x in b:
            if x[0] == key:
                i = x[1]
        if i is None:
            rs = [j for j, e in enumerate(ev) if e[0] == "r"]
            if not rs:
                return st
            i = rs[-1]
            b = b + ((key, i),)
        e = ev[i]
        cur = e[2]
        if want:
            if isinstance(cur, str) and cur != t or isinstance(cur, frozenset) and t in cur:
                return None
            new = t
        else:
            if cur == t:
                return None
            new = cur if isinstance(cur, str) else (cur or frozenset()) | {t}
        return (ev[:i] + ((e[0], e[1], new),) + ev[i + 1:], b)

    @staticmethod
    def zero_test(c, want):
        """(variable, it is zero) if the branch decides that"""
        if c[0] == "var":
            return c[:3], not want
        if c[0] == "bin" and len(c) == 4:
            for x, y, o in ((c[2], c[3], c[1]), (c[3], c[2], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(c[1], c[1]))):
                while isinstance(x, tuple) and x and x[0] == "cast" and isinstance(x[-1], tuple):
                    x = x[-1]
                if isinstance(x, tuple) and x and x[0] == "var" and isinstance(y, tuple) and y[0] == "lit":
                    n = str(y[1]).rstrip("uUlL")
                    if n == "0" and o in ("==", "!=", ">") or n == "1" and o in ("<", ">="):
                        return x[:3], want == (o in ("==", "<"))
        return None

    def received(self, v):
        """an integer that only receiving changes"""
        f = self.prog.fns.get(v[1])
        if f is None:
            return False
        d = f.vars().get(v[2])
        if d is None or d.get("t", "").replace("const ", "") not in ("unsigned long", "long", "size_t"):
            return False
        return not any(n.get("k") == "asg" and n.get("op") != "=" and strip(n["c"][0]).get("d") == v[2] or
                       n.get("k") == "un" and n["op"] in ("++", "--") and strip(n["c"][0]).get("d") == v[2] for n in f.nodes())

    def relay(self, ev, b):
        """the broker passes each announced size on at once and forwards that many bytes"""
        for i, e in enumerate(ev):
            if e[0] == "r" and e[2] is None:
                nx = ev[i + 1] if i + 1 < len(ev) else None
                peer = "O" if e[1] == "I" else "I"
                if nx is None or nx[0] != "s" or nx[2] != NUM or nx[1] != peer:
                    return "a size announced by one system is not passed on to the other before anything else happens"
                zero = any(x[0][0] == "zero" and x[0][2] == i and x[1] for x in b)
                n2 = ev[i + 2] if i + 2 < len(ev) else None
                if not zero and (n2 is None or n2 != ("fw", e[1], peer)):
                    return "a size other than zero is passed on to the other system but the data is not forwarded"
            elif e[0] == "fw":
                if i < 2 or ev[i - 2][:2] != ("r", e[1]) or ev[i - 2][2] is not None or ev[i - 1][0] != "s":
                    return "data is forwarded without its size having been passed on before"
        return None

    def leave(self, st, kind, ctx, ex, node):
        if kind != "exit":
            return
        ev = st[0]
        if self.broker:
            self.nrelay += sum(1 for e in ev if e[0] == "fw")
            r = self.relay(ev, st[1])
            if r is not None:
                self.norelay.setdefault(r, ev)
        for e in ev:
            if e[0] == "r" and isinstance(e[2], frozenset):
                self.silent.setdefault(e[2], (ctx.fn, ev))
                return
        self.words.add(tuple((e[0], e[1], NUM) if e[0] == "r" and e[2] is None else e for e in ev))


def simulate(A, B, K):
    """runs the three fixed sequences against each other; -> None if everything matches, else a description.
    A is the system that asks first, B the other one (None: not involved)"""
    q = {("I", "K"): [], ("K", "I"): [], ("O", "K"): [], ("K", "O"): []}
    pos = {"I": 0, "O": 0, "K": 0}
    seq = {"I": A, "O": B or (), "K": K}
    while True:
        moved = False
        for who in ("I", "O"):
            while pos[who] < len(seq[who]):
                k, _, v = seq[who][pos[who]]
                if k in ("s", "sb"):
                    q[(who, "K")].append((k, v))
                else:
                    c = q[("K", who)]
                    if not c:
                        break
                    x = c[0]
                    if (k == "r") != (x[0] == "s") or (x[1] != v and not (k == "r" and v == NUM)):   # text that is not inspected
                        return "the system expects %s but the broker delivers %s" % (say(k, v), say(*x))
                    c.pop(0)
                pos[who] += 1
                moved = True
        while pos["K"] < len(K):
            e = K[pos["K"]]
            if e[0] == "s":
                q[("K", e[1])].append(("s", e[2]))
            elif e[0] == "r":
                c = q[(e[1], "K")]
                if not c:
                    break
                if c[0] != ("s", e[2]):
                    return "the broker expects %s but the system sends %s" % (say("r", e[2]), say(*c[0]))
                c.pop(0)
            elif e[0] == "fw":
                c = q[(e[1], "K")]
                if not c:
                    break
                if c[0][0] != "sb":
                    return "the broker forwards data but the system sends %s" % say(*c[0])
                q[("K", e[2])].append(c.pop(0))
            else:
                return "the broker transfers raw data"
            pos["K"] += 1
            moved = True
        if not moved:
            break
    for who in ("I", "O", "K"):
        if pos[who] < len(seq[who]):
            return "%s waits forever for %s" % ("the broker" if who == "K" else "a system", say(seq[who][pos[who]][0], seq[who][pos[who]][2]))
    if any(q.values()):
        return "a message or data is never received"
    return None


def say(k, v):
    if k in ("sb", "rb"):
        return "data of type %s" % v
    return "a number" if v == NUM else "'%s'" % v


def poly(c):
    """linear form {symbol: coefficient}, sizeof kept symbolic as part of the symbol"""
    if not isinstance(c, tuple):
        return None
    if c[0] == "lit":
        try:
            return {(): int(str(c[1]).rstrip("uUlL"), 0)}
        except ValueError:
            return None
    if c[0] == "bin" and c[1] in ("+", "-", "*"):
        a, b = poly(c[2]), poly(c[3])
        if a is None or b is None:
            return None
        out = {}
        if c[1] == "*":
            for x, i in a.items():
                for y, j in b.items():
                    k = tuple(sorted(x + y, key=repr))
                    out[k] = out.get(k, 0) + i * j
        else:
            out = dict(a)
            for y, j in b.items():
                out[y] = out.get(y, 0) + (j if c[1] == "+" else -j)
        return {k: v for k, v in out.items() if v}
    if c[0] in ("cast",) and isinstance(c[-1], tuple):
        return poly(c[-1])
    return {(c,): 1}


def run(env, rep):
    rep.rule = ("all sequences of transfers a system performs for one third-level request (messages by text, numbers, binary data by element type) are enumerated from the source, "
                "likewise those of the broker for each request text; for every sequence of a system there is a partner sequence of a second system and a broker sequence such that the three "
                "run to completion with every message expected, every piece of data forwarded to the peer and received with the type it was sent with; a received text that equals none of the texts "
                "it is compared with never leads to a normal return; the announced number of bytes is the size of the elements plus the byte-order mark")
    rep.assumptions = ["the two systems take the same number of data rounds and have the same configuration", "at most %d transfers of a system per session are followed" % BOUND]
    for debug in (False, True):
        one(env.prog(debug), rep, "debug" if debug else "release")
    rep.need("system sequences", 12)
    rep.need("broker sequences", 5)
    rep.need("matched sessions", 12)
    rep.need("announced sizes", 3)


def one(p, rep, build):
    rel = relevant(p)
    # ---- broker
    pm = [f for f in p.fns.values() if f.body and f.cls == "combigrid::ThirdLevelManager" and f.key in rel and
          any("basic_string" in q.get("t", "") for q in f.params) and len(f.params) >= 2]
    callers = p.callers()
    pm = [f for f in pm if any(g.cls == "combigrid::ThirdLevelManager" and any("recvallPrefixed" in str(n.get("n")) or n.get("f") in rel for n in g.calls())
                               for g, _ in callers.get(f.key, []))] or pm
    pm = [f for f in pm if f.name == "processMessage"] or pm[:1]
    if not pm:
        raise AnalysisError("the broker's message dispatch was not found")
    broker = pm[0]
    sysp = [q for q in broker.params if "basic_string" not in q.get("t", "")]
    msgp = [q for q in broker.params if "basic_string" in q.get("t", "")]

    def brole(c):
        return "I" if initiator(c, broker, sysp) else "O"
    mid = msgp[0].get("d", msgp[0].get("id"))
    for bound in (24, 18, 14, 12):
        bw = Words(p, rel, brole, bound, True)
        ex = Explorer(p, bw)
        ex.RETURNS = True
        ex.MAX = 400000 if bound > 12 else 1500000
        try:
            ex.run(broker, ((("r", "I", None),), ((("var", broker.key, mid), 0),)))
            break
        except AnalysisError:
            if bound == 12:
                raise
    kwords = {}
    for w in bw.words:
        kwords.setdefault(w[0][2], set()).add(w)
    rep.count("broker sequences", len(bw.words))
    rep.count("%s: transfers beyond the bound" % build, bw.cut)
    ignored(rep, bw, "the broker")
    rep.count("forwarded data in broker sequences", bw.nrelay)
    for r, ev in bw.norelay.items():
        rep.violation("relay|%s" % r[:30], r, broker.where(), ["%s %s %s" % e for e in ev])
    if not bw.norelay:
        rep.ok((build, "relay"), "the broker passes every announced size on and forwards the data (%s)" % build)
    # ---- systems
    roots = []
    for f in p.fns.values():
        if f.body and f.key in rel and f.file.startswith("src/") and not f.is_lambda and f.cls not in ("combigrid::ThirdLevelUtils", "combigrid::ThirdLevelManager",
                                                                                                      "combigrid::System", "combigrid::NetworkUtils"):
            cs = [g for g, _ in callers.get(f.key, []) if g.root().file.startswith("src/") and g.root().key != f.key and g.root().key in rel]
            if not cs:
                roots.append(f)
        elif f.body and f.key in rel and f.cls == "combigrid::ThirdLevelUtils" and f.name.startswith("~"):
            roots.append(f)
    whole, parts = {}, {}
    for f in sorted(roots, key=lambda f: f.key):
        cw = Words(p, rel, lambda c: "me")
        cx = Explorer(p, cw)
        cx.RETURNS = True
        cx.run(f, ((), ()))
        ignored(rep, cw, "a system")
        rep.count("entry points of systems")
        for fn, n, c, size, ty in cw.sizes:
            announced(rep, fn, n, c, size, ty, build)
        for w in cw.words:
            cur = None
            for e in w:
                if e[0] == "s" and (e[2] in kwords or (e[2] != NUM and e[2].startswith("ready_to"))):
                    cur = []
                    whole.setdefault(inst(f), {}).setdefault(e[2], {}).setdefault(id(cur), (cur, f, cw))
                elif cur is None:
                    cur = []
                    parts.setdefault(inst(f), {}).setdefault(id(cur), (cur, f, cw))
                cur.append(e)
    for ins, ops in sorted(whole.items()):
        for opener, ws in sorted(ops.items()):
            uniq, users = {}, {}
            for w, f, cw in ws.values():
                uniq.setdefault(tuple(w), (f, cw))
                users.setdefault(tuple(w), {})[f.q] = f
            tails = {tuple(w) for w, _, _ in parts.get(ins, {}).values()}
            cand = {}
            for w in uniq:
                longer = [w + t for t in tails if len(w + t) <= BOUND]
                # a request that is finished by another operation (write now, read and report ready later)
                cand[w] = longer if any(x in uniq for x in longer) else [w] + longer
            borrow = {}
            every = [c for cs in cand.values() for c in cs]
            for w, (f, cw) in sorted(uniq.items(), key=repr):
                rep.count("system sequences")
                ks = kwords.get(opener)
                if not ks:
                    rep.violation("message|%s|%s" % (f.q, opener), "the broker does not recognise '%s'" % opener, cw.where.get(w[0], f.where()))
                    continue
                why, ok = None, None
                for a in cand[w]:
                    for k in ks:
                        solo = all("O" not in e[1:] for e in k)
                        for b in ([None] if solo else every):
                            for x, y in ((a, b), (b, a)) if b is not None else ((a, None),):
                                r = simulate(x, y, k)
                                if r is None:
                                    ok = (x, y, k)
                                    break
                                if x is a and (b is None or len(b) == len(a)):
                                    why = why or r
                            if ok:
                                break
                        if ok:
                            break
                    if ok:
                        break
                if ok:
                    if w not in ok[:2]:
                        borrow.update(users[w])
                    rep.count("matched sessions")
                    rep.ok((build, f.key, opener, w), "%s (%s): %s completes with the broker" % (f.q, build, "; ".join(say(e[0], e[2]) if e[0] != "r" else "<" + str(e[2]) for e in w)[:160]))
                else:
                    nolast = [e[2] for e in w if e[0] == "r" and e[2] != NUM]
                    rep.violation("session|%s|%s|%s" % (f.q, opener, nolast[0] if nolast else ""), "no run of the broker and a second system completes this request: %s" % why,
                                  f.where(), ["%s %s" % (e[0], say(e[0], e[2])) for e in w])
            lenders = {f.q for w, f, _ in parts.get(ins, {}).values()}
            if len(borrow) > len(lenders):
                for f in borrow.values():
                    rep.violation("unfinished|%s|%s" % (f.q, opener), "%s leave a request '%s' unfinished but only %s finish one" %
                                  (", ".join(sorted(borrow)), opener, ", ".join(sorted(lenders))), f.where())


def inst(f):
    s = f.d.get("cls") or ""
    return s if "<" in s else ""


def initiator(c, broker, sysp):
    """the canonical system expression is systems_[<index parameter of the dispatch function>]"""
    ids = {(broker.key, q.get("d", q.get("id"))) for q in sysp}
    st = [c]
    while st:
        x = st.pop()
        if not isinstance(x, tuple):
            continue
        if x and x[0] in ("call", "elem", "index", "sub") and any(isinstance(y, tuple) and y and y[0] == "var" and tuple(y[1:3]) in ids for y in x[1:]):
            return True
        if x and x[0] == "var" and tuple(x[1:3]) in ids and x is c:
            return True
        st.extend(y for y in x if isinstance(y, tuple) and not (x[0] == "bin"))
    return False


def ignored(rep, cw, who):
    for texts, (f, ev) in sorted(cw.silent.items(), key=repr):
        rep.violation("ignored|%s|%s" % (f.q, ",".join(sorted(texts))), "%s returns normally after a received message that is none of %s" %
                      (who, ", ".join("'%s'" % t for t in sorted(texts))), f.where())


def announced(rep, fn, n, c, size, ty, build):
    u = None
    if isinstance(c, tuple) and c[0] == "call" and c[1].split("<")[0].endswith("to_string"):
        u = c[2]
    if u is None:
        return
    rep.count("announced sizes")
    a = poly(u)
    b = poly(("bin", "+", ("bin", "*", size, ("sizeof", ty)), ("lit", "1")))
    if a is not None and a != b:
        rep.violation("size|%s" % fn.q, "announces %s bytes but sends %s" % (show(u), show(("bin", "+", ("bin", "*", size, ("sizeof", ty)), ("lit", "1")))), fn.where(n))
    else:
        rep.ok((build, fn.key, "size"), "%s announces elements times size plus the byte-order mark" % fn.q)
