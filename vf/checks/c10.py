"""C10: peer and root ranks belong to the communicator they are used with."""
from ..core import Ctx, canon, enter, strip, show, walk
from ..mpi import SIG, arg, comm_class, find_in, SYS

RANKS = {"worldRank_": {"world"}, "globalRank_": {"global"}, "localRank_": {"local"}, "globalReduceRank_": {"globalReduce"},
         "managerRank_": {"global"}, "managerRankWorld_": {"world"}, "managerRankFT_": {"spare"}, "masterRank_": {"local"},
         "thirdLevelRank_": {"thirdLevel"}, "thirdLevelManagerRank_": {"thirdLevel"}, "outputGroupRank_": {"outputGroup"},
         "pgroupRootID_": {"global"}, "thirdLevelPG_": {"global", "globalReduce"}}
GETTERS = {"getWorldRank": {"world"}, "getGlobalRank": {"global"}, "getLocalRank": {"local"}, "getGlobalReduceRank": {"globalReduce"},
           "getManagerRank": {"global"}, "getManagerRankWorld": {"world"}, "getMasterRank": {"local"}, "getThirdLevelRank": {"thirdLevel"},
           "getThirdLevelManagerRank": {"thirdLevel"}, "getOutputGroupRank": {"outputGroup"}, "getOutputRankInGlobalReduceComm": {"globalReduce"},
           "getProcessGroupNumber": {"global", "globalReduce"}}
SIZES = {"getNumProcs": {"local", "thirdLevel"}, "nprocs_": {"local", "thirdLevel"}, "getNumGroups": {"global", "globalReduce"}, "ngroup_": {"global", "globalReduce"}}
WORLD_OK = ("combigrid::MPISystem", "combigrid::Stats", "combigrid::mpimemory")
NOCOMM = ("MPI_Comm_rank", "MPI_Comm_size", "MPI_Comm_group")


def one_of(d):
    return None if d is None else [d]


class Dom:
    def __init__(self, p):
        self.p = p

    def comm(self, c):
        """set of communicator names, or None"""
        if not isinstance(c, tuple) or not c:
            return None
        if c[0] == "cond":
            a, b = self.comm(c[2]), self.comm(c[3])
            return None if a is None or b is None else a | b
        r = comm_class(c)
        if r is not None:
            return {r}
        if find_in(c, lambda x: x and x[0] == "gvar" and str(x[1]).endswith("ompi_mpi_comm_world")):
            return {"mpiworld"}
        if find_in(c, lambda x: x and ((x[0] == "call" and str(x[1]).startswith(SYS + "getSpareCommFT")) or (x[0] == "field" and x[2] == "spareCommFT_"))):
            return {"spare"}
        if find_in(c, lambda x: x and x[0] == "field" and x[2] == "subspacesByComm_"):
            return {"subspace"}
        if find_in(c, lambda x: x and ((x[0] == "field" and "MPICartesianUtils" in str(x[1]) and x[2] == "comm_") or
                                       (x[0] == "call" and str(x[1]).split("::")[-1] == "getCommunicator" and "DistributedFullGrid" in str(x[1])))):
            return {"local"}
        return None

    def rank(self, c, ctx, depth=0):
        """-> alternatives, each the set of communicators the number is a rank of (empty set: any, e.g. a literal); None: not known"""
        if not isinstance(c, tuple) or not c or depth > 8:
            return None
        h = c[0]
        if h in ("lit", "gconst", "zero"):
            return [set()]
        if h == "un" and c[1] == "-":
            return [set()]
        if h in ("obj", "cast", "new") and len(c) >= 2:
            return self.rank(c[-1], ctx, depth + 1)
        if h == "cond":
            a, b = self.rank(c[2], ctx, depth + 1), self.rank(c[3], ctx, depth + 1)
            return None if a is None or b is None else a + b
        if h == "bin" and c[1] == "%":
            return one_of(self.size(c[3], ctx.fn, ctx))
        if h == "field":
            if c[2] in RANKS:
                return [RANKS[c[2]]]
            if c[2] == "MPI_SOURCE":
                return one_of(self.status(c[3]))
            return None
        if h == "call":
            n = str(c[1]).split("<")[0].split("::")[-1]
            if n in GETTERS and "MPISystem" in str(c[1]):
                return [GETTERS[n]]
            if n in ("getCommRank", "getCommunicatorRank") and len(c) > 2:
                return one_of(self.comm(c[-1]))
            if "MPICartesianUtils" in str(c[1]) and ("Rank" in n or "Neighbor" in n or "Neighbour" in n):
                return [{"local"}]
            if "DistributedFullGrid" in str(c[1]) and (n in ("getRank", "getMpiRank", "getNeighbours") or "Neighbor" in n):
                return [{"local"}]
            return None
        if h == "var":
            f = self.p.fns.get(c[1])
            if f is None:
                return None
            return self.local(f, c[2], Ctx(f, {}) if ctx is None else self.frame(ctx, f), depth)
        return None

    @staticmethod
    def frame(ctx, f):
        x = ctx
        while x is not None and x.fn.root() is not f:
            x = x.parent
        return x or Ctx(f, {})

    def status(self, c):
        if not (isinstance(c, tuple) and c[0] == "var"):
            return None
        f = self.p.fns.get(c[1])
        out = set()
        for n in f.calls() if f else ():
            s = SIG.get(n.get("n"))
            if s and "comm" in s and any(canon(a, Ctx(f, {})) == ("addr", c) for a in n["a"]):
                d = self.comm(canon(arg(n, s["comm"]), Ctx(f, {})))
                if d is None:
                    return None
                out |= d
        return out or None

    def local(self, f, vid, ctx, depth):
        """a local that is not a plain alias: assignments, rank queries and loop bounds"""
        out = []
        bounded = False
        outs = {"MPI_Comm_rank": (1,), "MPI_Cart_rank": (2,), "MPI_Cart_shift": (3, 4)}
        for n in f.nodes():
            k = n.get("k")
            if k == "call" and n.get("n") in outs:
                for i in outs[n["n"]]:
                    t = strip(n["a"][i])
                    if t is not None and t.get("k") == "un" and t["op"] == "&" and strip(t["c"][0]).get("d") == vid:
                        d = self.comm(canon(n["a"][0], ctx))
                        if d is None:
                            return None
                        out.append(d)
            if k in ("for", "while") and n.get("cond"):
                c = strip(n["cond"])
                if c is not None and c.get("k") == "bin" and c.get("op") in ("<", "<=", "!="):
                    l = strip(c["c"][0])
                    if l is not None and l.get("k") == "ref" and l.get("d") == vid:
                        d = self.size(canon(c["c"][1], ctx), f, ctx)
                        if d is None:
                            return None
                        bounded = True
                        out.append(d)
        if not bounded:
            for n in f.nodes():
                if n.get("k") == "asg":
                    l = strip(n["c"][0])
                    if l is not None and l.get("k") == "ref" and l.get("d") == vid:
                        d = self.rank(canon(n["c"][1], ctx), ctx, depth + 1) if n.get("op") == "=" else None
                        if d is None:
                            return None
                        out += d
                elif n.get("k") == "decl":
                    for v in n["vars"]:
                        if v.get("id") == vid and v.get("init"):
                            d = self.rank(canon(v["init"], ctx), ctx, depth + 1)
                            if d is None:
                                return None
                            out += d
                elif n.get("k") == "call" and n.get("n") not in outs:
                    for a in n.get("a", []):
                        t = strip(a)
                        if t is not None and t.get("k") == "un" and t["op"] == "&" and strip(t["c"][0]).get("d") == vid:
                            return None
        return out or None

    def size(self, c, f, ctx):
        r = find_in(c, lambda x: x and ((x[0] == "call" and str(x[1]).split("::")[-1] in SIZES and "MPISystem" in str(x[1])) or
                                        (x[0] == "field" and x[2] in SIZES and "MPISystem" in str(x[1]))))
        if r is not None:
            return SIZES[str(r[1]).split("::")[-1] if r[0] == "call" else r[2]]
        r = find_in(c, lambda x: x and x[0] == "call" and str(x[1]).split("<")[0].split("::")[-1] in ("getCommSize", "getCommunicatorSize"))
        if r is not None:
            d = self.comm(r[-1])
            return d if d is not None else ({"local"} if "DistributedFullGrid" in str(r[1]) or "MPICartesianUtils" in str(r[1]) else None)
        if find_in(c, lambda x: x and x[0] == "field" and x[2] == "pgroups_"):
            return {"global", "globalReduce"}
        r = find_in(c, lambda x: x and x[0] == "var")
        if r is not None:
            g = self.p.fns.get(r[1])
            for n in g.calls() if g else ():
                if n.get("n") == "MPI_Comm_size":
                    t = strip(n["a"][-1])
                    if t is not None and t.get("k") == "un" and strip(t["c"][0]).get("d") == r[2]:
                        return self.comm(canon(n["a"][0], self.frame(ctx, g)))
        return None


def run(env, rep):
    rep.rule = ("for every point-to-point or rooted call, rank and communicator arguments are traced through parameters to all callers; where both origins are known (rank getters and members of the MPI system, "
                "rank queries, loop bounds that are sizes of a communicator, received statuses) the rank was obtained for that communicator; ranks of the global reduction are only used with the communicator of a group of "
                "subspaces if its size was compared first; Cartesian communicators keep the ranks of the communicator they stem from; the world communicator is only used by the set-up, statistics and memory reports")
    rep.assumptions = ["group i has rank i in the global and in the global reduce communicator", "ranks of unknown origin (user arguments, decomposition tables) are accepted"]
    p = env.prog(False)
    dom = Dom(p)
    callers = p.callers()
    for f in p.src_fns(("src/",)):
        if not f.body or "mpi_fault_simulator" in f.file:
            continue
        for n in f.calls():
            s = SIG.get(n.get("n"))
            if n.get("n") == "MPI_Cart_create":
                rep.count("Cartesian communicators")
                r = canon(n["a"][4], Ctx(f, {}))
                if r != ("lit", "0") and r != ("lit", "false"):
                    rep.violation("reorder|%s" % f.q, "MPI_Cart_create may reorder the ranks (%s) although ranks of the original communicator are used with the Cartesian one" % show(r), f.where(n))
                else:
                    rep.ok(("reorder", f.key, n["l"]), "%s keeps the ranks" % f.q)
            if not s or "comm" not in s:
                continue
            peers = [s[x] for x in ("peer", "root", "peer2") if x in s]
            rep.count("communication calls")
            one(p, dom, rep, f, n, s, peers, callers)
    rep.need("communication calls", 60)
    rep.need("resolved rank uses", 30)
    rep.need("Cartesian communicators", 1)


def guard_site(f, n, ctx):
    """a throw that depends on the size of the communicator used in n"""
    for x in f.nodes():
        if x.get("k") == "if" and any(y.get("k") == "throw" for y in walk(x.get("then") or {})):
            c = canon(x["cond"], ctx)
            if find_in(c, lambda y: y and (y[0] == "call" and "Size" in str(y[1]))) or find_in(c, lambda y: y and y[0] == "var" and is_size(f, y[2])):
                return True
    return False


def is_size(f, vid):
    for n in f.calls():
        if n.get("n") == "MPI_Comm_size":
            t = strip(n["a"][-1])
            if t is not None and t.get("k") == "un" and strip(t["c"][0]).get("d") == vid:
                return True
    return False


def params_in(c, fn):
    ids = {q["id"] for q in fn.params}
    return find_in(c, lambda x: x and x[0] == "var" and x[1] == fn.key and x[2] in ids) is not None


def one(p, dom, rep, f, n, s, peers, callers):
    done = set()
    # call chains, outermost first, as long as a parameter is involved
    work = [[(f, n)]]
    while work:
        ch = work.pop()
        ctx = Ctx(ch[0][0], {})
        for (g, m), (h, _) in zip(ch, ch[1:]):
            ctx = enter(ctx, m, h)
        cm = canon(arg(n, s["comm"]), ctx)
        rks = [canon(arg(n, i), ctx) for i in peers]
        top = ch[0][0]
        if (params_in(cm, top.root()) or any(params_in(r, top.root()) for r in rks)) and len(ch) < 6:
            cs = [(g, m) for g, m in callers.get(top.root().key, []) if g.file.startswith("src/") and all(g.key != x.key for x, _ in ch)]
            if cs and not top.is_lambda:
                work.extend([[x] + ch for x in cs])
                continue
        d = dom.comm(cm)
        where = " <- ".join(x.q for x, _ in reversed(ch))
        if d is None:
            continue
        if n["n"] not in NOCOMM and (d & {"mpiworld", "world"}):
            ok = any((x.cls or "") in WORLD_OK or x.q.startswith(WORLD_OK) for x, _ in ch)
            key = ("world", top.q)
            if key not in done:
                done.add(key)
                rep.count("uses of the world communicator")
                if not ok:
                    rep.violation("world|%s|%s" % (f.q, top.q), "%s communicates on the world communicator (%s)" % (where, n["n"]), top.where(ch[0][1]))
                else:
                    rep.ok(("world", f.key, n["l"]), None)
        for r in rks:
            k = dom.rank(r, ctx)
            if k is None:
                rep.count("rank uses of unknown origin")
                continue
            rep.count("resolved rank uses")
            bad = [x for x in k if x and not x & d and not ("mpiworld" in d and "world" in x) and
                   not (d == {"subspace"} and "globalReduce" in x and guard_site(f, n, ctx))]
            if bad:
                key = "pair|%s|%s|%s" % (f.q, top.q, show(r)[-60:])
                if key not in done:
                    done.add(key)
                    rep.violation(key, "%s uses %s, a rank of the %s communicator, with the %s communicator (%s)" %
                                  (n["n"], show(r), "/".join(sorted(bad[0])), "/".join(sorted(d)), where), f.where(n))
            else:
                rep.ok((f.key, n["l"], top.key, r), "%s: %s belongs to the %s communicator" % (f.q, show(r)[-60:], "/".join(sorted(d))))
