"""C06: all ranks of a communicator call the same collectives in the same order."""
from ..core import Ctx, canon, enter, strip, walk, subnodes, kids
from ..mpi import SIG, arg, find_in
from .c05 import PREFIX, skip
from .c10 import Dom
from .c18 import short

ALL = frozenset(("mpiworld", "world", "global", "local", "globalReduce", "thirdLevel", "outputGroup", "output", "subspace", "file"))
NONE = frozenset()
# communicators whose members differ in the value
DIFFER = {
    "mpiworld": ALL, "world": ALL, "global": ALL,
    "local": frozenset(("mpiworld", "world", "local", "thirdLevel", "outputGroup", "output", "file")),
    "thirdLevel": frozenset(("mpiworld", "world", "local", "thirdLevel", "outputGroup", "output", "file")),
    "globalReduce": frozenset(("mpiworld", "world", "global", "globalReduce", "subspace", "outputGroup", "output")),
    "outputGroup": frozenset(("mpiworld", "world", "local", "globalReduce", "subspace", "outputGroup", "output", "file")),
    "output": frozenset(("mpiworld", "world", "local", "globalReduce", "subspace", "outputGroup", "output", "file")),
    "subspace": frozenset(("globalReduce", "subspace")),
}
MEMBER = {
    "outputGroup": frozenset(("mpiworld", "world", "global", "local", "globalReduce", "subspace")),
    "output": frozenset(("mpiworld", "world", "global", "local", "globalReduce", "subspace")),
    "global": frozenset(("mpiworld", "world", "local", "thirdLevel", "outputGroup", "output")),
}
MANAGER = frozenset(("mpiworld", "world", "global", "thirdLevel"))
SOURCES = {"getWorldRank": "world", "getGlobalRank": "global", "getLocalRank": "local", "getGlobalReduceRank": "globalReduce", "getOutputGroupRank": "outputGroup",
           "getThirdLevelRank": "thirdLevel", "getProcessGroupNumber": "globalReduce", "isProcessGroupMaster": "local"}
FIELDS = {"worldRank_": "world", "globalRank_": "global", "localRank_": "local", "globalReduceRank_": "globalReduce", "outputGroupRank_": "outputGroup", "thirdLevelRank_": "thirdLevel"}
# what the process holds: parts of grids differ within a group, tasks between groups
HOLDS = {"getNrLocalElements": "local", "getLocalSizes": "local", "getUpperBounds": "local", "getRawDataSize": "local", "getAccumulatedDataSize": "local", "getDataSize": "local",
         "getAllocatedDataSize": "local", "getTasks": "globalReduce", "getNumPointsOnThisPartition": "local"}
HELD = {"tasks_": "globalReduce"}
UNIFORM = ("getManagerRank", "getManagerRankWorld", "getMasterRank", "getThirdLevelManagerRank", "getNumGroups", "getNumProcs", "getWorldSize", "getOutputRankInGlobalReduceComm", "isInitialized")
PART = frozenset(("mpiworld", "world", "local", "globalReduce", "subspace", "outputGroup"))
ROOT_ONLY = {"MPI_Reduce": 1, "MPI_Ireduce": 1, "MPI_Gather": 3, "MPI_Gatherv": 3, "MPI_Scan": 1, "MPI_Exscan": 1}
SPREADS = {"MPI_Bcast": (0,), "MPI_Ibcast": (0,), "MPI_Allreduce": (1,), "MPI_Iallreduce": (1,), "MPI_Allgather": (3,), "MPI_Allgatherv": (3,)}
BROADCASTS = ("broadcastClass", "broadcastContainer")
# what each process sees for itself, at its own time
OWN_VIEW = ("std::filesystem::exists", "std::filesystem::is_regular_file", "std::filesystem::file_size", "std::filesystem::is_empty", "access", "stat", "rand", "std::rand", "time", "std::time", "clock", "getpid",
            "MPI_Wtime", "omp_get_thread_num", "std::chrono::_V2::steady_clock::now", "std::chrono::_V2::system_clock::now", "std::chrono::high_resolution_clock::now")
RECV = {"MPI_Recv": 0, "MPI_Irecv": 0}


class Traces:
    """hash-consed sequences of collectives: trees over EMPTY, ANY (error), ("c", coll, rest), ("if", cond, a, b), ("loop", body, rest), ..."""

    def __init__(self):
        self.ids, self.val, self.fm = {}, [], {}
        self.EMPTY = self.mk(("e",))
        self.ANY = self.mk(("any",))
        self.BRK = self.mk(("brk",))
        self.CNT = self.mk(("cnt",))
        self.RET = self.mk(("ret",))

    def mk(self, t):
        i = self.ids.get(t)
        if i is None:
            i = self.ids[t] = len(self.val)
            self.val.append(t)
        return i

    def seq(self, a, b):
        """a followed by b"""
        return self._seq(a, b, {})

    def _seq(self, a, b, m):
        if a == self.EMPTY:
            return b
        if b == self.EMPTY:
            return a
        if a in m:
            return m[a]
        v = self.val[a]
        if v[0] in ("any", "brk", "cnt", "ret"):
            r = a
        elif v[0] == "c":
            r = self.mk(("c", v[1], self._seq(v[2], b, m)))
        elif v[0] == "loop":
            r = self.mk(("loop", v[1], self._seq(v[2], b, m)))
        elif v[0] == "if":
            r = self.alt(v[1], self._seq(v[2], b, m), self._seq(v[3], b, m))
        else:
            r = b
        m[a] = r
        return r

    def alt(self, c, a, b):
        if a == b or b == self.ANY:
            return a
        if a == self.ANY:
            return b
        return self.mk(("if", c, a, b))

    def close(self, a, m=None):
        """the trace of a whole function: returns end it"""
        m = {} if m is None else m
        if a in m:
            return m[a]
        v = self.val[a]
        if v[0] == "ret":
            r = self.EMPTY
        elif v[0] == "c":
            r = self.mk(("c", v[1], self.close(v[2], m)))
        elif v[0] == "loop":
            r = self.mk(("loop", v[1], self.close(v[2], m)))
        elif v[0] == "if":
            r = self.alt(v[1], self.close(v[2], m), self.close(v[3], m))
        else:
            r = a
        m[a] = r
        return r

    def filter(self, a, n):
        """only what happens on communicators in n"""
        k = (a, n)
        if k in self.fm:
            return self.fm[k]
        v = self.val[a]
        if v[0] == "c":
            r = self.filter(v[2], n)
            if v[1][1] in n:
                r = self.mk(("c", v[1], r))
        elif v[0] == "loop":
            b, r = self.filter(v[1], n), self.filter(v[2], n)
            if not self.silent(b):
                r = self.mk(("loop", b, r))
        elif v[0] == "if":
            r = self.alt(v[1], self.filter(v[2], n), self.filter(v[3], n))
        else:
            r = a
        self.fm[k] = r
        return r

    def silent(self, a, m=None):
        m = set() if m is None else m
        if a in m:
            return True
        m.add(a)
        v = self.val[a]
        if v[0] == "c":
            return False
        if v[0] == "loop":
            return self.silent(v[1], m) and self.silent(v[2], m)
        if v[0] == "if":
            return self.silent(v[2], m) and self.silent(v[3], m)
        return True

    def same(self, a, b, m=None):
        m = {} if m is None else m
        if a == b:
            return True
        k = (a, b)
        if k in m:
            return m[k]
        va, vb = self.val[a], self.val[b]
        m[k] = True
        if va[0] == "any" or vb[0] == "any":
            r = True
        elif va[0] == "if" and vb[0] == "if" and va[1] == vb[1]:
            r = self.same(va[2], vb[2], m) and self.same(va[3], vb[3], m)
        elif va[0] == "if" and va[1][0] == "rank":
            # judged on its own
            r = self.same(va[2], b, m) or self.same(va[3], b, m)
        elif vb[0] == "if" and vb[1][0] == "rank":
            r = self.same(a, vb[2], m) or self.same(a, vb[3], m)
        elif va[0] != vb[0]:
            r = self.silent(a) and self.silent(b)
        elif va[0] == "c":
            r = va[1][:2] == vb[1][:2] and self.same(va[2], vb[2], m)
        elif va[0] == "loop":
            r = self.same(va[1], vb[1], m) and self.same(va[2], vb[2], m)
        elif va[0] == "if":
            r = self.same(va[2], vb[2], m) and self.same(va[3], vb[3], m)
        else:
            r = self.silent(a) and self.silent(b)
        m[k] = r
        return r

    def first(self, a):
        """some collective in a"""
        st, seen = [a], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            v = self.val[x]
            if v[0] == "c":
                return v[1]
            st += [y for y in v[1:] if isinstance(y, int)]
        return None


class Summary:
    __slots__ = ("trace", "ret", "outs", "fields")

    def __init__(self, trace, ret=NONE, outs=None, fields=None):
        self.trace, self.ret, self.outs, self.fields = trace, ret, outs or {}, fields or {}


class Analysis:
    def __init__(self, p):
        self.p, self.T, self.dom = p, Traces(), Dom(p)
        self.memo, self.active = {}, set()
        self.bad, self.conds, self.colls = {}, {}, set()
        self.interesting = self._interesting()

    def _interesting(self):
        p = self.p
        own, rev = set(), {}
        for f in p.fns.values():
            if f.body is None:
                continue
            for n in f.nodes():
                if n.get("k") == "call" and (SIG.get(n.get("n"), {}).get("coll") or n.get("n") in RECV or n.get("n") in ("MPI_Comm_rank", "MPI_Cart_rank") or short(n.get("n")) in SOURCES
                                             or short(n.get("n")) in ("isWorldManager", "isThirdLevelManager", "getFilePartNumber")):
                    own.add(f.key)
                elif n.get("k") == "mem" and n.get("m") in FIELDS:
                    own.add(f.key)
            for n in f.calls():
                for g in p.callees(n):
                    rev.setdefault(g.key, set()).add(f.key)
            for l in f.lambdas():
                rev.setdefault(l["f"], set()).add(f.key)
        todo = list(own)
        r = set(own)
        while todo:
            for c in rev.get(todo.pop(), ()):
                if c not in r:
                    r.add(c)
                    todo.append(c)
        return r

    # -- per function
    def function(self, f, ctx, taints, ctl=NONE):
        """taints: parameter id -> set of communicators over which the argument differs"""
        comms = tuple(sorted((q["id"], str(self.commclass(canon_param(q, f, ctx), f, ctx))) for q in f.params if "MPI_Comm" in q["t"] or "CommunicatorType" in q["t"] or "communicator" in q["t"])) \
            if ctx.parent is not None else ()
        key = (f.key, comms, frozenset((k, v) for k, v in taints.items() if v), ctl)
        if key in self.memo:
            return self.memo[key]
        if key in self.active or len(self.active) > 60:
            return Summary(self.T.EMPTY)
        self.active.add(key)
        s = Walk(self, f, ctx, taints, ctl).run()
        self.active.discard(key)
        self.memo[key] = s
        return s

    def commclass(self, c, f, ctx):
        d = self.dom.comm(c)
        if d and len(d) == 1:
            return next(iter(d))
        if d:
            return "/".join(sorted(d))
        return ("expr", c)


def canon_param(q, f, ctx):
    b = ctx.bind.get(q["id"])
    if b is None:
        return ("var", f.root().key, q["id"])
    return canon(b[0], b[1])


def manager(e):
    e = strip(e)
    return e is not None and (e.get("k") == "mem" and (e.get("m") or e.get("n")) in ("managerRankWorld_", "managerRank_") or e.get("k") == "call" and short(e.get("n")) in ("getManagerRankWorld", "getManagerRank"))


class Walk:
    def __init__(self, A, f, ctx, taints, ctl=NONE):
        self.A, self.p, self.T, self.f, self.ctx = A, A.p, A.T, f, ctx
        self.env = dict(taints)
        self.control, self.frames = [NONE], []
        self.ret, self.ctrace, self.ctaint, self.loops = NONE, {}, {}, {}
        self.files, self.spread, self.ctl = {}, {}, ctl

    def run(self):
        b = self.f.body
        for x in self.f.d.get("inits", []) or []:
            if isinstance(x, dict) and x.get("e"):
                self.expr(x["e"])
        self.stmt(b)
        self.pending = NONE
        t = self.back(b, self.T.EMPTY)
        t = self.T.close(t)
        outs = {}
        for i, q in enumerate(self.f.params):
            if (q["t"].rstrip().endswith(("&", "*")) and not q["t"].startswith("const ")) and self.env.get(q["id"]):
                outs[i] = self.env[q["id"]]
        return Summary(t, self.ret, outs, {k: v for k, v in self.env.items() if isinstance(k, tuple) and v})

    # -- forward: what differs between ranks
    def cur(self):
        return self.control[-1]

    def key(self, x):
        x = strip(x)
        while x is not None:
            k = x.get("k")
            if k == "ref":
                return x.get("d")
            if k == "mem":
                return ("f", x.get("m") or x.get("n"))
            if k == "un" and x.get("op") in ("&", "*"):
                x = strip(x["c"][0])
            elif k == "sub":
                x = strip(x["c"][0])
            elif k == "call" and x.get("obj") is not None and not (x.get("n") or "").startswith("combigrid::"):
                x = strip(x["obj"])
            elif k == "bin":
                x = strip(x["c"][0])
            else:
                return None
        return None

    def set(self, k, n, weak=False, agreed=NONE):
        if k is None:
            return
        self.env[k] = (self.env.get(k, NONE) | n) if weak else n
        for fr in self.frames:
            fr[k] = fr[k] & agreed if k in fr else agreed

    def leave(self, n, fr):
        """a section that only some ranks run is over: what it assigned differs"""
        for k, ag in fr.items():
            if n - ag:
                self.env[k] = self.env.get(k, NONE) | (n - ag)

    def expr(self, x):
        """communicators over which the value differs; visits calls on the way"""
        x = strip(x)
        if x is None:
            return NONE
        k = x.get("k")
        if k == "ref":
            n = self.env.get(x.get("d"), NONE)
            v = None
            return n
        if k == "mem":
            m = x.get("m") or x.get("n")
            n = self.expr(x["b"]) if x.get("b") else NONE
            if m in FIELDS and "MPISystem" in (self.f.root().cls or ""):
                n = n | DIFFER[FIELDS[m]]
            if m in HELD and "TaskWorker" in (self.f.root().cls or ""):
                n = n | DIFFER[HELD[m]]
            return n | self.env.get(("f", m), NONE)
        if k == "bin" and x.get("op") in ("==", "!=") and any(manager(y) for y in x["c"]):
            for y in x["c"]:
                self.expr(y)
            return MANAGER
        if k == "bin" and x.get("op") in ("==", "!="):
            cs = [canon(y, self.ctx) for y in x["c"]]
            for a, b in ((0, 1), (1, 0)):
                if find_in(cs[b], lambda z: z and z[0] == "gvar" and "comm_null" in str(z[1])):
                    self.expr(x["c"][a])
                    c = self.A.commclass(cs[a], self.f, self.ctx)
                    return MEMBER.get(c, NONE)
        if k == "asg":
            n = self.expr(x["c"][1])
            l = strip(x["c"][0])
            t = self.expr(l)
            self.set(self.key(l), n if x.get("op") == "=" else n | t, weak=x.get("op") != "=" or l.get("k") not in ("ref", "mem"), agreed=self.agreed(x["c"][1]))
            return n
        if k == "lambda":
            return NONE
        if k == "cond":
            a = self.expr(x["c"][0])
            self.ctaint[id(x)] = a
            b = self.expr(x["c"][1]) | self.expr(x["c"][2])
            return a | b
        if k in ("bin",) and x.get("op") in ("&&", "||"):
            a = self.expr(x["c"][0])
            self.ctaint[id(x)] = a
            b = self.expr(x["c"][1])
            return a | b
        if k == "call":
            return self.call(x)
        n = NONE
        for y in kids(x):
            n = n | self.expr(y)
        if k == "ctor":
            gs = [g for g in self.p.callees(x) if g.body is not None and g.key in self.A.interesting]
            if gs:
                s = self.A.function(gs[0], enter(self.ctx, x, gs[0]), self.argtaints(gs[0], x))
                self.ctrace[id(x)] = s.trace
        return n

    def argtaints(self, g, x):
        r = {}
        for q, a in zip(g.params, x.get("a", [])):
            t = self.peek(a)
            if t:
                r[q["id"]] = t
        if g.is_lambda:
            for k, v in self.env.items():
                if v:
                    r.setdefault(k, v)
        elif x.get("obj") is None or strip(x["obj"]).get("k") == "this":
            for k, v in self.env.items():
                if isinstance(k, tuple) and v:
                    r.setdefault(k, v)
        return {k: v for k, v in r.items() if not isinstance(k, tuple)}

    def peek(self, a):
        """taint without visiting calls again"""
        a = strip(a)
        if a is None:
            return NONE
        if a.get("k") == "ref":
            return self.env.get(a.get("d"), NONE)
        n = NONE
        for y in kids(a):
            n = n | self.peek(y)
        return n

    def call(self, x):
        A = self.A
        nm = x.get("n") or ""
        args = x.get("a", [])
        ats = [self.expr(a) for a in args]
        obj = self.expr(x["obj"]) if x.get("obj") is not None else NONE
        if x.get("fe") is not None and x.get("obj") is None:
            self.expr(x["fe"])
        s = SIG.get(nm)
        if s is not None:
            r = self.mpi(x, nm, s, ats)
            return r
        if nm == "MPI_Comm_rank" or nm == "MPI_Cart_rank":
            pass
        sn = short(nm)
        if "MPISystem" in nm:
            if sn in SOURCES:
                return DIFFER[SOURCES[sn]]
            if sn in ("isWorldManager", "isThirdLevelManager"):
                return MANAGER
            if sn == "getFilePartNumber":
                return PART
            if sn in UNIFORM or sn.endswith("Comm") or sn.endswith("Comms") or sn == "Instance":
                return NONE
        if sn in ("getCommRank", "getCommunicatorRank") and args:
            return self.rank_of(args[0])
        if sn in HOLDS and nm.startswith("combigrid::") and not (sn == "getUpperBounds" and args):
            return DIFFER[HOLDS[sn]]
        if sn in ("getRank", "getMpiRank") and "DistributedFullGrid" in nm:
            return DIFFER["local"]
        if nm in OWN_VIEW or sn in ("is_open", "good", "fail", "bad", "eof") and nm.startswith("std::basic_"):
            return ALL
        gs = [g for g in self.p.callees(x) if g.body is not None and g.file.startswith(PREFIX) and not skip(g)]
        val = NONE
        for a in ats:
            val = val | a
        if sn in BROADCASTS and nm.startswith("combigrid::") and len(args) > 1:
            ci = next((i for i, t in enumerate(x.get("pt", [])) if "ompi_communicator" in t or "MPI_Comm" in t), len(args) - 1)
            self.spread_over(self.key(args[0]), A.commclass(canon(args[ci], self.ctx), self.f, self.ctx))
        hot = [g for g in gs if g.key in A.interesting]
        if hot:
            val = NONE
            ss = []
            for g in hot[:4]:
                t = {}
                for q, n in zip(g.params, ats):
                    if n:
                        t[q["id"]] = n
                if g.is_lambda and g.root().key == self.f.root().key:
                    for k, v in self.env.items():
                        if v:
                            t.setdefault(k, v)
                elif x.get("obj") is None or strip(x["obj"]).get("k") == "this":
                    for k, v in self.env.items():
                        if isinstance(k, tuple) and v:
                            t.setdefault(k, v)
                ss.append(A.function(g, enter(self.ctx, x, g), t, self.ctl | self.cur()))
            tr = ss[0].trace
            if any(y.trace != tr for y in ss):
                q = next((y.trace for y in ss if y.trace != tr), tr)
                tr = self.T.alt(("virt", nm), tr, q)
            self.ctrace[id(x)] = tr
            for y in ss:
                val = val | y.ret
                for i, n in y.outs.items():
                    if i < len(args):
                        self.set(self.key(args[i]), n, weak=True)
                if x.get("obj") is None or strip(x["obj"]).get("k") == "this":
                    for k, n in y.fields.items():
                        self.env[k] = self.env.get(k, NONE) | n
            # arguments that came back uniform
            for i, a in enumerate(args):
                k = self.key(a)
                if k is not None and self.env.get(k) and i < len(hot[0].params) and hot[0].params[i]["t"].rstrip().endswith(("&", "*")) and not hot[0].params[i]["t"].startswith("const "):
                    if all(i not in y.outs for y in ss) and not self.frames:
                        self.env[k] = NONE
            return val | obj
        # output arguments of other calls
        if self.frames or val:
            for a, t in zip(args, x.get("pt", [])):
                t = t.strip()
                if t.endswith(("&", "*")) and not t.startswith("const ") and not t.endswith("&&") and not t.startswith("combigrid::"):
                    self.set(self.key(a), NONE, weak=True, agreed=self.agreed(x))
            if x.get("obj") is not None and not x.get("mc") and not nm.startswith("combigrid::") and sn not in ("operator[]", "at", "begin", "end", "data", "get", "operator->", "operator*", "back", "front", "size"):
                self.set(self.key(x["obj"]), val, weak=True)
        if x.get("op") == "=" and x.get("obj") is not None:
            k = strip(x["obj"]).get("k")
            self.set(self.key(x["obj"]), val, weak=k not in ("ref", "mem"))
        return val | obj

    def rank_of(self, a):
        c = self.A.commclass(canon(a, self.ctx), self.f, self.ctx)
        if c in DIFFER:
            return DIFFER[c]
        if isinstance(c, str):
            r = frozenset()
            for y in c.split("/"):
                r |= DIFFER.get(y, NONE)
            return r
        return frozenset((c,))

    def comm_of(self, x, s):
        if "comm" in s:
            a = arg(x, s["comm"])
            return self.A.commclass(canon(a, self.ctx), self.f, self.ctx) if a is not None else None
        if "fh" in s:
            k = self.key(arg(x, s["fh"]))
            return self.files.get(k, "file")
        return None

    def mpi(self, x, nm, s, ats):
        c = self.comm_of(x, s)
        args = x.get("a", [])
        if nm == "MPI_Comm_rank":
            self.set(self.key(args[1]), self.rank_of(args[0]))
            return NONE
        if nm in RECV:
            self.set(self.key(args[0]), NONE, weak=True)
            return NONE
        if nm == "MPI_File_open":
            self.files[self.key(args[-1])] = c
        if s.get("coll"):
            self.ctrace[id(x)] = self.T.mk(("c", (nm, c, "%s:%s" % (self.f.file, x.get("l"))), self.T.EMPTY))
            self.A.colls.add((self.f.key, x.get("l"), nm))
        if nm in SPREADS:
            for i in SPREADS[nm]:
                k = self.key(args[i])
                self.spread_over(k, c)
        elif nm in ROOT_ONLY:
            self.set(self.key(args[ROOT_ONLY[nm]]), frozenset((c,)), weak=True)
        return NONE

    def spread_over(self, k, c):
        """after a broadcast or allreduce the members of c agree"""
        if k is None:
            return
        self.spread[k] = c
        if self.env.get(k):
            self.env[k] = self.env[k] - DIFFER.get(c, NONE) - {c}

    def agreed(self, *es):
        """communicators over which something used here has been spread"""
        r = NONE
        for e in es:
            for y in walk(e):
                k = y.get("d") if y.get("k") == "ref" else ("f", y.get("m") or y.get("n")) if y.get("k") == "mem" else None
                if k in self.spread:
                    c = self.spread[k]
                    r = r | DIFFER.get(c, NONE) | {c}
        return r

    def branch(self, n, *ss):
        fr = {}
        self.control.append(self.cur() | n)
        self.frames.append(fr)
        for s in ss:
            if s is not None:
                self.stmt(s)
        self.frames.pop()
        self.control.pop()
        return fr

    def stmt(self, x):
        if x is None:
            return
        k = x.get("k")
        if k == "seq":
            for c in x["c"]:
                if c:
                    self.stmt(c)
        elif k == "decl":
            for v in x["vars"]:
                if v.get("init") is not None:
                    n = self.expr(v["init"])
                    self.env[v["id"]] = n
                    for y in walk(v["init"]):
                        kk = y.get("d") if y.get("k") == "ref" else None
                        if kk in self.spread:
                            self.spread.setdefault(v["id"], self.spread[kk])
                    for y in v.get("bind", []):
                        self.env[y["id"]] = self.env[v["id"]]
        elif k == "if":
            self.stmt(x.get("init"))
            self.stmt(x.get("cdecl"))
            n = self.expr(x.get("cond"))
            self.ctaint[id(x)] = n
            before = dict(self.env)
            f1 = self.branch(n, x.get("then"))
            mid = self.env
            self.env = dict(before)
            f2 = self.branch(n, x.get("else"))
            for kk, v in mid.items():
                if v:
                    self.env[kk] = self.env.get(kk, NONE) | v
            self.leave(n, f1)
            self.leave(n, f2)
        elif k in ("for", "while", "do", "rfor"):
            self.stmt(x.get("init"))
            for i in range(2):
                if k == "rfor":
                    n = self.expr(x.get("range"))
                    self.env[x["var"]["id"]] = n
                else:
                    if x.get("cdecl"):
                        self.stmt(x.get("cdecl"))
                    n = self.expr(x.get("cond"))
                self.ctaint[id(x)] = n | self.ctaint.get(id(x), NONE)
                fr = self.branch(n, x.get("body"))
                if x.get("inc"):
                    self.expr(x["inc"])
                self.leave(n, fr)
        elif k == "switch":
            self.stmt(x.get("init"))
            n = self.expr(x.get("cond"))
            self.ctaint[id(x)] = n
            self.leave(n, self.branch(n, x.get("body")))
        elif k in ("case", "default", "label"):
            self.stmt(x.get("body"))
        elif k == "try":
            self.stmt(x["body"])
            for h in x["h"]:
                self.stmt(h["body"])
        elif k == "return":
            n = self.expr(x.get("e")) if x.get("e") else NONE
            self.ret = self.ret | n | self.cur()
        elif k == "omp":
            self.stmt(x.get("body"))
        else:
            self.expr(x)

    # -- backward: what happens next
    def etrace(self, x, k):
        """collectives of an expression, then k"""
        if x is None:
            return k
        x = x if x.get("k") in ("call", "ctor", "cond", "bin", "asg") else strip(x)
        if x is None:
            return k
        kk = x.get("k")
        if kk == "lambda":
            return k
        if kk == "throw":
            return self.T.ANY
        if kk == "cond" or kk == "bin" and x.get("op") in ("&&", "||"):
            a = self.etrace(x["c"][1], k)
            b = self.etrace(x["c"][2], k) if kk == "cond" else k
            r = self.decide(x, a, b, x["c"][0])
            return self.etrace(x["c"][0], r)
        if kk in ("call", "ctor"):
            t = self.ctrace.get(id(x))
            if t is not None:
                k = self.T.seq(t, k)
            if (x.get("n") or "") in ("MPI_Abort", "abort", "exit", "std::abort", "std::exit"):
                return self.T.ANY
        for y in reversed(kids(x)):
            k = self.etrace(y, k)
        return k

    def decide(self, x, a, b, cond):
        n = self.ctaint.get(id(x), NONE)
        if a == b:
            return a
        if n:
            q = "%s|%s" % (self.f.root().q, canon(cond, self.ctx) if cond is not None else "")
            self.A.conds[(self.f.key, x.get("l"))] = q
            fa, fb = self.T.filter(a, n), self.T.filter(b, n)
            if not self.T.same(fa, fb):
                self.report(x, fa, fb, n)
            return self.T.alt(("rank", self.f.key, x.get("l")), a, b)
        try:
            c = canon(cond, self.ctx) if cond is not None else ()
        except RecursionError:
            c = ()
        return self.T.alt(("c", c), a, b)

    def report(self, x, fa, fb, n):
        T = self.T
        # first difference
        while True:
            va, vb = T.val[fa], T.val[fb]
            if va[0] == "c" and vb[0] == "c" and va[1][:2] == vb[1][:2]:
                fa, fb = va[2], vb[2]
                continue
            break
        ca, cb = T.first(fa), T.first(fb)
        c = ca or cb
        q = self.f.root().q
        self.A.bad.setdefault("branch|%s|%s|%s" % (q, c[0] if c else "", name(c[1]) if c else ""),
                              ("%s: a condition whose outcome differs between the ranks of the %s communicator decides whether %s is called on it (%s)" %
                               (short(q), name(c[1]) if c else "?", c[0] if c else "a collective", c[2] if c else ""), self.f, x.get("l"),
                               ["one way: %s" % (ca and "%s at %s" % (ca[0], ca[2]) or "no (further) collective"), "other way: %s" % (cb and "%s at %s" % (cb[0], cb[2]) or "no (further) collective")]))

    def back(self, x, k):
        T = self.T
        if x is None:
            return k
        kd = x.get("k")
        if kd == "seq":
            for c in reversed(x["c"]):
                if c:
                    k = self.back(c, k)
            return k
        if kd == "decl":
            for v in reversed(x["vars"]):
                if v.get("init") is not None:
                    k = self.etrace(v["init"], k)
            return k
        if kd == "if":
            a = self.back(x.get("then"), k)
            b = self.back(x.get("else"), k)
            cond = x.get("cond")
            r = self.decide(x, a, b, cond)
            r = self.etrace(cond, r)
            r = self.back(x.get("cdecl"), r)
            return self.back(x.get("init"), r)
        if kd in ("for", "while", "do", "rfor"):
            b = self.etrace(x.get("inc"), T.EMPTY) if x.get("inc") else T.EMPTY
            if x.get("cond") is not None:
                b = T.seq(b, self.etrace(x["cond"], T.EMPTY))
            body = self.back(x.get("body"), b)
            n = self.ctaint.get(id(x), NONE)
            if not T.silent(body):
                if n:
                    self.A.conds[(self.f.key, x.get("l"))] = "loop"
                    fb = T.filter(body, n)
                    if not T.silent(fb):
                        self.report(x, fb, T.EMPTY, n)
            if T.silent(body) and not self.leaves(body):
                r = k
            else:
                r = T.mk(("loop", body, k))
                if self.leaves(body):
                    # a return inside leaves out the rest
                    r = T.mk(("loop", body, k))
            if kd != "do" and x.get("cond") is not None:
                r = self.etrace(x["cond"], r)
            if kd == "rfor":
                r = self.etrace(x.get("range"), r)
            return self.back(x.get("init"), r)
        if kd == "switch":
            return self.switch(x, k)
        if kd in ("case", "default", "label"):
            return self.back(x.get("body"), k)
        if kd == "try":
            return self.back(x["body"], k)
        if kd == "return":
            return self.etrace(x.get("e"), T.RET) if x.get("e") else T.RET
        if kd == "break":
            return T.BRK
        if kd == "continue":
            return T.CNT
        if kd == "throw":
            return T.ANY
        if kd == "omp":
            return self.back(x.get("body"), k)
        return self.etrace(x, k)

    def leaves(self, a):
        st, seen = [a], set()
        while st:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            v = self.T.val[y]
            if v[0] == "ret":
                return True
            st += [z for z in v[2:] if isinstance(z, int)] if v[0] in ("c", "if") else [z for z in v[1:] if isinstance(z, int)]
        return False

    def switch(self, x, k):
        T = self.T
        b = x.get("body")
        items = [c for c in b["c"] if c] if b is not None and b.get("k") == "seq" else [b]
        # each label: statements from there to the end, break ends the switch
        starts = [i for i, c in enumerate(items) if c and c.get("k") in ("case", "default")]
        res = None
        cases = []
        for i in starts:
            t = T.EMPTY
            for c in reversed(items[i:]):
                t = self.back(c, t)
            cases.append(T.seq(self.brk(t), k))
        if not any(items[i].get("k") == "default" for i in starts):
            cases.append(k)
        r = cases[-1] if cases else k
        for i, t in enumerate(reversed(cases[:-1])):
            r = self.decide(x, t, r, x.get("cond")) if self.ctaint.get(id(x)) else T.alt(("sw", id(x), i), t, r)
        return self.etrace(x.get("cond"), r)

    def brk(self, a, m=None):
        m = {} if m is None else m
        if a in m:
            return m[a]
        T = self.T
        v = T.val[a]
        if v[0] == "brk":
            r = T.EMPTY
        elif v[0] == "c":
            r = T.mk(("c", v[1], self.brk(v[2], m)))
        elif v[0] == "loop":
            r = T.mk(("loop", v[1], self.brk(v[2], m)))
        elif v[0] == "if":
            r = T.alt(v[1], self.brk(v[2], m), self.brk(v[3], m))
        else:
            r = a
        m[a] = r
        return r


def name(c):
    return c if isinstance(c, str) else "given" if isinstance(c, tuple) and c and c[0] == "expr" else str(c and c[0])


def run(env, rep):
    rep.rule = ("wherever a condition (branch, loop, early return) may come out differently on the ranks of a communicator - it stems from their own rank, from membership, from data only some of them obtained - "
                "both outcomes continue with the same sequence of collectives on that communicator")
    import sys
    sys.setrecursionlimit(20000)
    p = env.prog(False)
    A = Analysis(p)
    n = 0
    for f in p.src_fns(PREFIX):
        if f.body is None or skip(f) or f.is_lambda or f.key not in A.interesting:
            continue
        A.function(f, Ctx(f, {}), {})
        n += 1
    rep.count("functions analysed", n)
    rep.count("contexts", len(A.memo))
    rep.count("collective calls", len(A.colls))
    rep.count("rank-dependent conditions compared", len(A.conds))
    for k, (msg, f, l, tr) in sorted(A.bad.items()):
        rep.violation(k, msg, "%s:%s" % (f.file, l), tr)
    badf = {k.split("|")[1] for k in A.bad}
    for (fk, l), q in sorted(A.conds.items(), key=str):
        fn = p.fns[fk].root().q
        if fn not in badf:
            rep.ok("cond|%s|%s" % (fk, l), "%s line %s: both outcomes lead to the same collectives" % (fn, l))
    for fk, l, nm in sorted(A.colls, key=str):
        rep.ok("coll|%s|%s|%s" % (fk, l, nm), "%s: %s" % (p.fns[fk].root().q, nm))
    rep.need("collective calls", 40)
    rep.need("functions analysed", 40)
    rep.assumptions = ["parameters and configuration are the same on all ranks unless the analysis sees otherwise",
                       "error paths (exceptions, abort) end the run and are not compared",
                       "local sizes and contents of received data are not followed into loop counts across functions"]
