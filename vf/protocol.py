"""Extraction of the message language of manager methods and of the worker's command handlers (shared by C01/C02)."""
from .core import Ctx, canon, strip, walk, show, AnalysisError
from .explore import Client, Explorer
from .mpi import SIG, arg, comm_class, dtype, norm_type, find_in, COMPLETE_ONE, COMPLETE_ARR

CHANNELS = ("global", "thirdLevel")
TAG_SIGNAL, TAG_STATUS = "TRANSFER_SIGNAL_TAG", "TRANSFER_STATUS_TAG"


def const_of(c):
    return Explorer.cnst(None, c) if c else None


class Relevance:
    """functions that may take part in the manager/worker exchange, directly or for certain communicator arguments"""

    def __init__(self, prog):
        self.prog = prog
        self.direct, self.par = set(), {}
        fns = list(prog.fns.values())
        calls = {}
        for f in fns:
            calls[f.key] = [n for n in f.nodes() if n.get("k") == "call"] if not f.is_lambda else \
                [n for n in walk(f.body) if n.get("k") == "call"] if f.body else []
        work = True

        def note(f, c, why):
            if comm_class(c) in CHANNELS:
                if f.key not in self.direct:
                    self.direct.add(f.key)
                    return True
                return False
            v = find_in(c, lambda x: bool(x) and x[0] == "var")
            if v is not None and v[1] == f.root().key:
                ids = [p["id"] for p in f.params]
                if v[2] in ids:
                    s = self.par.setdefault(f.key, set())
                    i = ids.index(v[2])
                    if i not in s:
                        s.add(i)
                        return True
            return False

        for f in fns:
            ctx = Ctx(f)
            for n in calls[f.key]:
                s = SIG.get(n.get("n"))
                if s and "comm" in s and n["n"] not in ("MPI_Comm_rank", "MPI_Comm_size", "MPI_Comm_group", "MPI_Probe") and \
                        arg(n, s["comm"]) is not None:
                    note(f, canon(arg(n, s["comm"]), ctx), n)
        # completing a request kept in a member belongs to the exchange too
        for f in fns:
            for n in calls[f.key]:
                if n.get("n") in COMPLETE_ONE + COMPLETE_ARR and len(n.get("a", [])) > 1:
                    a = canon(arg(n, 0 if n["n"] in COMPLETE_ONE else 1), Ctx(f))
                    if find_in(a, lambda x: bool(x) and x[0] == "field" and "ProcessGroupManager" in str(x[1])):
                        self.direct.add(f.key)
        while work:
            work = False
            for f in fns:
                ctx = None
                for n in calls[f.key]:
                    for g in prog.callees(n):
                        if g.key in self.direct and f.key not in self.direct:
                            self.direct.add(f.key)
                            work = True
                        for i in self.par.get(g.key, ()):
                            a = arg(n, i)
                            if a is None:
                                continue
                            ctx = ctx or Ctx(f)
                            work |= note(f, canon(a, ctx), n)
                # a lambda in the body that takes part makes the function take part
                if f.key not in self.direct:
                    for l in f.lambdas():
                        if l["f"] in self.direct:
                            self.direct.add(f.key)
                            work = True
        # calling the worker loop or a task is not part of the exchange of one command
        self.calls = calls

    def inline(self, g, call, ctx, ex):
        if g.key in self.direct:
            return True
        for i in self.par.get(g.key, ()):
            a = arg(call, i)
            if a is not None and comm_class(ex.canon(a, ctx)) in CHANNELS:
                return True
        return False


def serialized_class(fn):
    """class that is (de)serialized in the function performing the transfer"""
    for n in fn.nodes():
        if n.get("k") == "call" and n.get("op") in ("<<", ">>", "&") and n.get("obj") is not None or \
                n.get("k") == "call" and n.get("op") in ("<<", ">>") and n.get("a"):
            o = strip(n.get("obj") or n["a"][0])
            t = (o or {}).get("t", "") or ""
            if "archive" in t:
                x = strip(n["a"][-1])
                ty = norm_type(x.get("t", ""))
                return ty.replace("*", "").strip()
    return None


def sources(ctx, ex):
    """names of the variables whose value the transfer function was given"""
    r = set()
    for a in ctx.call.get("a", []):
        c = ex.canon(a, ctx.parent)
        v = find_in(c, lambda x: bool(x) and x[0] in ("var", "field"))
        if c[0] in ("addr", "var", "field", "deref") and v is not None:
            r.add(v[3] if v[0] == "var" else v[2])
        break
    return frozenset(r)


def sinks(ctx):
    """names (locals, parameters of callees) under which the value received in ctx.fn is used by its callers"""
    names = set()
    while ctx.parent is not None and ctx.call is not None:
        up, call = ctx.parent, ctx.call
        f = up.fn
        # the variable that receives the value: an out-parameter (&x) or the variable initialised by the call
        vids = set()
        for a in call.get("a", []):
            y = strip(a)
            if y is not None and y.get("k") == "un" and y["op"] == "&":
                z = strip(y["c"][0])
                if z.get("k") == "ref" and z.get("g") in ("local", "param"):
                    vids.add(z["d"])
            break
        if not vids:
            for i, v in f.vars().items():
                if v.get("init") is not None and any(x is call for x in walk(v["init"], lambdas=False)) and \
                        strip_all(v["init"]) is call:
                    vids.add(i)
            for n in f.calls():
                ps = call_params(f.prog, n)
                for k, a in enumerate(n.get("a", [])):
                    if strip_all(a) is call and k < len(ps):
                        names.add(ps[k])
        for i in vids:
            names.add(f.vars()[i]["n"])
            for n in f.calls():
                ps = call_params(f.prog, n)
                for k, a in enumerate(n.get("a", [])):
                    z = strip_all(a)
                    if z is not None and z.get("k") == "ref" and z.get("d") == i and k < len(ps) and \
                            not (n is call):
                        names.add(ps[k])
        ret = False
        for n in f.nodes():
            if n.get("k") == "return" and n.get("e") is not None:
                z = strip_all(n["e"])
                if z is call or z is not None and z.get("k") == "ref" and z.get("d") in vids:
                    ret = True
        if not ret:
            break
        ctx = up
    return frozenset(names)


def call_params(prog, n):
    f = prog.fns.get(n.get("f"))
    return [p["n"] for p in f.params] if f is not None and f.file.startswith("src/") else []


def strip_all(e):
    """through casts, one-element lists and single-argument constructions"""
    while True:
        e = strip(e)
        if e is None:
            return None
        if e.get("k") in ("ctor",) and len([a for a in e.get("a", []) if a]) >= 1 and e.get("cls", "").startswith("std::"):
            e = e["a"][0]
        elif e.get("k") in ("ilist", "other", "temp", "bind") and len(e.get("c", [])) == 1:
            e = e["c"][0]
        else:
            return e


def core_event(e):
    """event without the names of the values"""
    return e if e[0] == "coll" else e[:5]


class Proto(Client):
    """state: (pending receives, label).  Events are tuples in the manager's view."""

    def __init__(self, prog, rel, side, signal=None):
        self.prog, self.rel, self.side, self.signal = prog, rel, side, signal
        self.unknown = []
        self.exits = {}       # config state -> tail
        self.where = {}
        self.nevents = 0
        self.sends_of = {}

    def inline(self, fn, call, ctx):
        return self.rel.inline(fn, call, ctx, self.ex)

    def event(self, n, ctx, ex, facts):
        s = SIG.get(n.get("n"))
        if not s or "comm" not in s:
            return None
        if n["n"] in ("MPI_Comm_rank", "MPI_Comm_size", "MPI_Comm_group", "MPI_Probe", "MPI_Iprobe", "MPI_Barrier"):
            return None
        ch = comm_class(ex.canon(arg(n, s["comm"]), ctx))
        if ch not in CHANNELS:
            return None
        d = s.get("dir")
        if d is None:
            ety = dtype(ex.canon(arg(n, s["bufs"][0][2]), ctx)) if s["bufs"] else None
            return ("coll", ch, n["n"], None, ety, None, None)
        tagc = ex.value(arg(n, s["tag"]), ctx, facts)
        tag = tagc[1].split("::")[-1] if tagc[0] == "gconst" else ex.cnst(tagc)
        if tag is None:
            tag = show(tagc)
        ety = dtype(ex.canon(arg(n, s["bufs"][0][2]), ctx))
        if self.side == "worker":
            d = {"s": "r", "r": "s"}[d]
        cls = serialized_class(ctx.fn) if ety == "char" else None
        names = frozenset()
        if cls is not None and ctx.call is not None:
            names = sources(ctx, ex) if self.side == "manager" else sinks(ctx)
        return (d, ch, tag, ety, cls, names)

    def step(self, st, node, ctx, ex, facts):
        pend, _ = st
        n = node.ast
        if node.kind != "op" or n.get("k") != "call":
            return ((pend, None),) if st[1] is not None else (st,)
        name = n.get("n") or ""
        if name in COMPLETE_ONE or name in COMPLETE_ARR:
            a = ex.canon(arg(n, 0 if name in COMPLETE_ONE else 1), ctx)
            hit = [p for p in pend if p[0] == a or self._same_req(p[0], a)]
            if hit:
                rest = tuple(p for p in pend if p not in hit)
                out = [((rest), ("EV", tuple(p[1] for p in hit)))]
                if "Test" in name:
                    out.append((pend, None))
                return tuple(out)
            return ((pend, None),)
        ev = self.event(n, ctx, ex, facts)
        if ev is None:
            return ((pend, None),)
        self.where.setdefault(ev, ctx.fn.where(n))
        s = SIG[name]
        if ev[0] != "coll" and ev[2] == TAG_SIGNAL:
            if self.side == "worker":
                return (((), ("SIG", self.signal, ())),)
            buf = ex.canon(arg(n, 0), ctx)
            v = ex.subst(buf[1], facts) if buf[0] == "addr" else None
            sv = ex.cnst(v) if v is not None else None
            if sv is None:
                self.unknown.append((ctx.fn.where(n), show(v) if v else "?"))
                return ()
            return (((), ("SIG", sv, tuple(p[1] for p in pend))),)
        self.nevents += 1
        if name == "MPI_Irecv":
            return ((pend + ((ex.canon(arg(n, s["req"]), ctx), ev),), None),)
        return ((pend, ("EV", (ev,))),)

    @staticmethod
    def _same_req(p, a):
        return False

    def edge(self, st, node, lab, ctx, ex, facts):
        if node.kind == "branch" and node.extra != "rfor" and lab in (True, False):
            c = ex.canon(node.ast, ctx)
            neg = False
            while c[0] == "un" and c[1] == "!":
                c, neg = c[2], not neg
            want = self.decide(c)
            if want is not None and (want != neg) != lab:
                return None
        return st

    def decide(self, c):
        """truth of a condition that depends on the role of the process"""
        op = None
        if c[0] == "bin" and c[1] in ("==", "!="):
            op, a, b = c[1], c[2], c[3]
            names = {str(find_name(x)) for x in (a, b)}
            if names in ({"localRank_", "masterRank_"}, {"getLocalRank", "getMasterRank"}, {"localRank_", "getMasterRank"},
                         {"getLocalRank", "masterRank_"}):
                v = self.side == "worker"
                return v if op == "==" else not v
            if names == {"worldRank_", "managerRankWorld_"} or names == {"getWorldRank", "getManagerRankWorld"}:
                v = self.side == "manager"
                return v if op == "==" else not v
            if self.side == "worker":
                for x, y in ((a, b), (b, a)):
                    k = const_of(y)
                    if k is not None and is_signal(x, self.prog, self.rel):
                        return (k == self.signal) == (op == "==")
        return None

    def switch_value(self, node, ctx, ex):
        if self.side == "worker":
            c = ex.canon(node.ast["cond"], ctx)
            if is_signal(c, self.prog, self.rel):
                return self.signal
        return None

    def leave(self, st, kind, ctx, ex, node):
        self.last_leave = (st, kind)


def find_name(c):
    if c[0] == "field":
        return c[2]
    if c[0] == "call":
        return c[1].split("::")[-1]
    return c


def signal_fns(prog, rel):
    r = getattr(rel, "_sigfns", None)
    if r is None:
        r = set()
        for f in prog.fns.values():
            for n in rel.calls[f.key]:
                if n.get("n") in ("MPI_Recv", "MPI_Irecv"):
                    t = canon(arg(n, 4), Ctx(f))
                    if t[0] == "gconst" and t[1].endswith(TAG_SIGNAL):
                        r.add(f.key)
        rel._sigfns = r
    return r


def is_signal(c, prog, rel):
    """the value was received with the signal tag"""
    sf = signal_fns(prog, rel)
    if c[0] == "call":
        q = c[1].split("<")[0]
        return any(prog.fns[k].q == q for k in sf)
    if c[0] == "var":
        f = prog.fns.get(c[1])
        if f is None:
            return False
        for n in f.calls():
            if n.get("n") in ("MPI_Recv", "MPI_Irecv") or n.get("f") in sf:
                if n.get("n") == "MPI_Recv":
                    t = canon(arg(n, 4), Ctx(f))
                    if not (t[0] == "gconst" and t[1].endswith(TAG_SIGNAL)):
                        continue
                for a in n.get("a", []):
                    for x in walk(a):
                        if x.get("k") == "ref" and x.get("d") == c[2]:
                            return True
        # assigned from a call to a receiving function
        for n in f.nodes():
            if n.get("k") == "asg":
                l = strip(n["c"][0])
                if l.get("k") == "ref" and l.get("d") == c[2]:
                    r = strip(n["c"][1])
                    if r.get("k") == "call" and r.get("f") in sf:
                        return True
            if n.get("k") == "decl":
                for v in n["vars"]:
                    if v["id"] == c[2] and v.get("init") is not None:
                        r = strip(v["init"])
                        if r.get("k") == "call" and r.get("f") in sf:
                            return True
    return False


class Lang:
    """nondeterministic automaton: trans[state] -> list of (event|None, state)"""

    def __init__(self):
        self.t = {}
        self.start = set()
        self.acc = set()

    def add(self, a, ev, b):
        self.t.setdefault(a, []).append((ev, b))

    def closure(self, S):
        S = set(S)
        w = list(S)
        while w:
            x = w.pop()
            for ev, y in self.t.get(x, ()):
                if ev is None and y not in S:
                    S.add(y)
                    w.append(y)
        return frozenset(S)

    def step(self, S):
        r = {}
        for x in S:
            for ev, y in self.t.get(x, ()):
                if ev is not None:
                    r.setdefault(ev, set()).add(y)
        return {e: self.closure(v) for e, v in r.items()}

    def union(self, other, tag):
        m = lambda x: (tag, x)
        for a, l in other.t.items():
            for ev, b in l:
                self.add(m(a), ev, m(b))
        self.start |= {m(x) for x in other.start}
        self.acc |= {m(x) for x in other.acc}

    def words(self, n=3, maxlen=14):
        out, q = [], [((), self.closure(self.start))]
        while q and len(out) < n:
            w, S = q.pop(0)
            if S & self.acc:
                out.append(w)
            if len(w) < maxlen:
                for e, T in sorted(self.step(S).items(), key=repr):
                    q.append((w + (e,), T))
            if len(q) > 2000:
                break
        return out


def compare(A, B, mapev=core_event, limit=20000):
    """shortest word in exactly one of the languages -> (word, in_A) or None"""
    a0, b0 = A.closure(A.start), B.closure(B.start)
    seen = {(a0, b0)}
    q = [((), a0, b0)]
    while q:
        w, a, b = q.pop(0)
        if bool(a & A.acc) != bool(b & B.acc):
            return w, bool(a & A.acc)
        sa, sb = {}, {}
        for src, dst, L in ((a, sa, A), (b, sb, B)):
            for e, S in L.step(src).items():
                dst[mapev(e)] = frozenset(dst.get(mapev(e), frozenset()) | S)
        for e in sorted(set(sa) | set(sb), key=repr):
            x, y = sa.get(e, frozenset()), sb.get(e, frozenset())
            if (x, y) not in seen:
                seen.add((x, y))
                if len(seen) > limit:
                    raise AnalysisError("automata too large")
                q.append((w + (e,), x, y))
    return None


def explore(prog, rel, fn, side, signal=None):
    """-> (dict signal -> Lang, client)"""
    cl = Proto(prog, rel, side, signal)
    ex = Explorer(prog, cl)
    cl.ex = ex
    ex.graph = {}
    ex.run(fn, ((), None))
    cfg = fn.cfg()
    langs = {}
    label = lambda k: k[4][1]
    states = list(ex.graph)
    sigs = {}
    for k in states:
        l = label(k)
        if l is not None and l[0] == "SIG":
            sigs.setdefault(l[1], set()).add(k)
    if not sigs:
        return {}, cl, ex
    base = Lang()
    for k, outs in ex.graph.items():
        for m in outs:
            l = label(m)
            if l is None:
                base.add(k, None, m)
            elif l[0] == "EV":
                prev = k
                for i, e in enumerate(l[1]):
                    nxt = m if i == len(l[1]) - 1 else (m, "ev", i, k)
                    base.add(prev, e, nxt)
                    prev = nxt
            else:   # SIG: previous segment ends here
                chain(base, k, l[2])
        is_root_exit = k[1] == cfg.exit.i and not k[2] and k[0] == id(ex.roots[-1])
        if is_root_exit:
            chain(base, k, tuple(p[1] for p in k[4][0]))
    for s, ks in sigs.items():
        L = Lang()
        L.t, L.acc = base.t, base.acc
        L.start = set(ks)
        langs[s] = L
    return langs, cl, ex


def chain(base, k, tail):
    prev = k
    for i, e in enumerate(tail):
        nxt = (k, "tail", i)
        base.add(prev, e, nxt)
        prev = nxt
    base.acc.add(prev)


def roots(prog, rel, cls):
    """methods of cls that take part and are entry points (called from elsewhere, or by nobody)"""
    callers = prog.callers()
    out = []
    for f in prog.src_fns():
        if f.cls == cls and f.key in rel.direct:
            cs = callers.get(f.key, [])
            if not cs or any(g.cls != cls for g, _ in cs):
                out.append(f)
    return out
