"""C11: exchange files are announced after writing, read after the announcement, removed after reading."""
from ..core import Ctx, canon, strip, walk, dispatches, subnodes, show
from ..explore import Explorer, Client
from .c05 import PREFIX, skip

LOW = ("combigrid::DistributedSparseGridIO::", "combigrid::mpiio::", "combigrid::MPIFile")
SYNC = ("MPI_Barrier", "MPI_Bcast", "MPI_Allreduce", "MPI_Allgather")
RANKY = ("isProcessGroupMaster", "isWorldManager", "isMaster", "getOutputGroupComm", "getOutputComm", "getProcessGroupNumber", "getWorldRank",
         "getLocalRank", "getOutputGroupRank", "getOutputRank", "getCommRank", "getGlobalReduceRank", "getMasterRank")


def short(n):
    return (n or "").split("<")[0].split("::")[-1]


class Model:
    """which functions (transitively) create announcements T, look for them E, write W / read R exchange data, remove X"""

    def __init__(self, p):
        self.p = p
        own = {}
        for f in p.fns.values():
            if f.body is None:
                continue
            s = set()
            for n in f.nodes():
                e = self.prim(f, n)
                if e:
                    s.add(e)
            own[f.key] = s
        out = {f.key: {g.key for n in f.calls() for g in p.callees(n)} | {l["f"] for l in f.lambdas()} for f in p.fns.values() if f.body is not None}
        self.reach = {k: set(v) for k, v in own.items()}
        rev = {}
        for k, cs in out.items():
            for c in cs:
                rev.setdefault(c, set()).add(k)
        work = list(self.reach)
        while work:
            k = work.pop()
            for c in rev.get(k, ()):
                if not self.reach[k] <= self.reach[c]:
                    self.reach[c] |= self.reach[k]
                    work.append(c)
        # low-level I/O is one event
        for k in self.reach:
            f = p.fns[k]
            if f.q.startswith(LOW):
                self.reach[k] &= {"W", "R", "S"}
        self._scope = {}

    def prim(self, f, n):
        k = n.get("k")
        if k == "call":
            nm = n.get("n") or ""
            if nm.startswith("MPI_File_write"):
                return "W"
            if nm.startswith("MPI_File_read"):
                return "R"
            if nm == "std::filesystem::exists":
                return "E"
            if nm in ("std::filesystem::remove", "remove", "std::remove", "unlink") and len(n.get("a", [])) == 1:
                return "X" if not f.q.startswith(LOW) else None
            if nm in SYNC:
                return "S"
        if k == "decl":
            for v in n["vars"]:
                if self.announcement(f, v):
                    return "T"
        if k == "ctor" and self.bare(n) and self.temp(f, n):
            return "T"
        return None

    @staticmethod
    def bare(n):
        return short(n.get("cls")) in ("basic_ofstream", "ofstream", "basic_fstream") and len(n.get("a", [])) >= 1

    def temp(self, f, n):
        return False

    def announcement(self, f, v):
        """an output file that is opened and never written to"""
        i = strip(v.get("init")) if v.get("init") else None
        t = v.get("t", "")
        if i is None or not ("ofstream" in t):
            return False
        args = i.get("a", []) if i.get("k") in ("ctor", "call") else []
        if not args:
            return False
        for n in f.nodes():
            if n.get("k") == "ref" and n.get("d") == v["id"]:
                return False if self.used(f, v["id"]) else True
        return True

    def used(self, f, d):
        for n in f.nodes():
            if n.get("k") in ("call", "ctor"):
                for x in [n.get("obj")] + n.get("a", []):
                    if x is not None and strip(x).get("k") == "ref" and strip(x).get("d") == d:
                        if short(n.get("n")) not in ("close", "is_open", "good", "fail", "operator bool", "operator!", "exceptions", "flush"):
                            return True
        return False

    def events(self, n):
        """events a call leads to"""
        r = set()
        for g in self.p.callees(n):
            r |= self.reach.get(g.key, set())
        return r

    def names(self, c, out):
        """functions and lambdas mentioned in a canonical expression"""
        if not isinstance(c, tuple) or not c:
            return
        if c[0] == "lambda":
            out.add(("l", c[1]))
        if c[0] == "call":
            out.add(("c", c[1].split("<")[0]))
        for x in c[1:]:
            self.names(x, out)

    def looks(self, c):
        """+1: the condition is true only if the announcement is there, -1: only if it is not, 0: unrelated, None: not all of them"""
        s = 1
        while c[0] == "un" and c[1] == "!":
            c, s = c[2], -s
        if c[0] == "bin" and c[1] in ("==", "!=") and c[3][0] == "lit" and str(c[3][1]) in ("true", "false"):
            if (c[1] == "==") != (str(c[3][1]) == "true"):
                s = -s
            return (self.looks(c[2]) or 0) * s
        if c[0] == "bin" and c[1] == "&&" and s == 1:
            a, b = self.looks(c[2]), self.looks(c[3])
            return 1 if 1 in (a, b) else 0
        if c[0] == "bin" and c[1] == "||" and s == -1:
            a, b = self.looks(c[2]), self.looks(c[3])
            return -1 if 1 in (a, b) else 0
        if c[0] != "call":
            return 0
        xs = set()
        self.names(c, xs)
        hit = ("c", "std::filesystem::exists") in xs
        for k, x in xs:
            if k == "l" and "E" in self.reach.get(x, ()):
                hit = True
            if k == "c" and any("E" in self.reach.get(f.key, ()) and f.q == x for f in self.p.by_q(x)):
                hit = True
        if not hit:
            return 0
        for k, x in xs:
            for f in ([self.p.fns[x]] if k == "l" and x in self.p.fns else self.p.by_q(x) if k == "c" else []):
                if "E" in self.reach.get(f.key, ()) and any(short(n.get("n")) in ("any_of", "none_of") for n in f.calls()):
                    return None
        if any(k == "c" and short(x) in ("any_of", "none_of") for k, x in xs):
            return None
        return s

    def scopes(self, f):
        """id of a condition -> (events below the then branch / loop body, events below the else branch, kind)"""
        r = self._scope.get(f.key)
        if r is None:
            r = self._scope[f.key] = {}

            def below(n):
                s = set()
                if n:
                    for x in walk(n):
                        e = self.prim(f, x)
                        if e:
                            s.add(e)
                        if x.get("k") == "call":
                            s |= self.events(x)
                        if x.get("k") == "lambda":
                            s |= self.reach.get(x["f"], set())
                return s
            for n in f.nodes():
                k = n.get("k")
                if k == "if":
                    v = (below(n.get("then")), below(n.get("else")), "if", n)
                    for x in walk(n["cond"]):
                        r.setdefault(id(x), v)
                elif k in ("for", "rfor", "while"):
                    key = n.get("range") if k == "rfor" else n.get("cond")
                    if key is not None:
                        wait = any(x.get("k") == "while" and self.looks(canon(x["cond"], Ctx(f))) == -1 for x in walk(n["body"])) if n.get("body") else False
                        v = (below(n.get("body")), set(), "wait" if wait else "loop", n)
                        for x in walk(key):
                            r[id(x)] = v
        return r


def ranky(c):
    if not isinstance(c, tuple) or not c:
        return False
    if c[0] == "call" and short(c[1]) in RANKY:
        return True
    if c[0] == "field" and ("rank" in c[2].lower() or "comm" in c[2].lower()) and "MPISystem" in c[1]:
        return True
    return any(ranky(x) for x in c[1:] if isinstance(x, tuple))


class Order(Client):
    """state: set of flags  W data written, T announced, t announcement is another rank's, E seen, e seen by another rank, S synchronised since,
    R reading was done, X removed"""

    def __init__(self, m, root):
        self.m, self.root = m, root
        self.bad, self.ends, self.n = {}, set(), 0

    def inline(self, fn, call, ctx):
        if fn.q.startswith(LOW) or skip(fn):
            return False
        return bool(self.m.reach.get(fn.key, set()) & set("WTERX"))

    def note(self, what, msg, n):
        self.bad.setdefault(what, (msg, n.get("l")))

    def event(self, st, e, n, ctx):
        self.n += 1
        st = set(st)
        if e == "W":
            if "T" in st and "W" in st:
                self.note("written after", "exchange data is written after it has been announced", n)
            st.add("W")
        elif e == "T":
            if "W" not in st:
                st.add("T0")
            st.add("T")
        elif e == "E":
            st.add("E")
            st.discard("S")
        elif e == "S":
            if st & {"E", "e"}:
                st.add("S")
        elif e == "R":
            if not st & {"E", "e"}:
                st.add("R0")
            elif "S" not in st:
                st.add("R1")
            if "X" in st:
                self.note("read after removal", "exchange files are read after they have been removed", n)
            st.add("R")
        elif e == "X":
            if "R" not in st:
                st.add("X0")
            st.add("X")
        return frozenset(st)

    def step(self, st, node, ctx, ex, facts):
        m = self.m
        n = node.ast
        if node.kind == "decl":
            if m.announcement(ctx.fn, n):
                st = self.event(st, "T", n, ctx)
            return (st,)
        if node.kind != "op" or n.get("k") != "call":
            return (st,)
        e = m.prim(ctx.fn, n)
        if e and e != "E":
            return (self.event(st, e, n, ctx),)
        ev = m.events(n)
        if "W" in ev and not ev & {"T"}:
            st = self.event(st, "W", n, ctx)
        if "R" in ev and not ev & {"E", "X"}:
            if any(self.inline(g, n, ctx) for g in m.p.callees(n)):
                if "X" in st:
                    self.note("read after removal", "exchange files are read after they have been removed", n)
                st = st | {"R"}
            else:
                st = self.event(st, "R", n, ctx)
        if "X" in ev and not ev & {"R", "E"} and not "X" in st:
            st = self.event(st, "X", n, ctx)
        if "R" in ev and "E" in ev and "X" not in ev:
            st = st | {"R"}        # a reading phase that waits for its files one by one
        if "S" in ev and not ev & set("WTRX"):
            st = self.event(st, "S", n, ctx)
        return (st,)

    def edge(self, st, node, lab, ctx, ex, facts):
        if node.kind != "branch":
            return st
        sc = self.m.scopes(ctx.fn).get(id(node.ast))
        if lab in (True, False) and node.extra != "rfor":
            c = ex.value(node.ast, ctx, facts)
            l = self.m.looks(c)
            if l is None:
                if sc and (sc[2] != "if" or True):
                    self.note("some", "reading starts as soon as any announcement is there, not the matching one", node.ast)
            elif l and (l == 1) == lab:
                st = self.event(st, "E", node.ast, ctx)
                # a look-up that tells the others
                xs = set()
                self.m.names(c, xs)
                for k, x in xs:
                    if k == "c" and any("S" in self.m.reach.get(f.key, ()) for f in self.m.p.by_q(x)):
                        st = st | {"S"}
            if sc and sc[2] == "if" and ranky(c):
                mine, other = (sc[0], sc[1]) if lab else (sc[1], sc[0])
                if "T" in other and "T" not in mine:
                    st = st | {"t"}
                if "E" in other and "E" not in mine:
                    st = (st | {"e"}) - {"S"}
        if sc and sc[2] == "wait" and lab is False:
            st = self.event(st, "E", node.ast, ctx)
        return st

    def leave(self, st, kind, ctx, ex, node):
        if kind == "exit":
            self.ends.add(st)


def token(p, f):
    return [x for x in f.params if "token" in x["n"].lower() and "string" in x.get("t", "")]


def run(env, rep):
    rep.rule = ("order of events on every path of every function that handles exchange files and their announcements (helpers inlined): announcement = an output file opened and left empty, or a parameter named as token; "
                "data is written and closed before the announcement, never after it; every path that writes announces, except on ranks whose announcement another rank makes; "
                "reading follows a look-up with positive outcome and a synchronisation with the rank that looked; removal follows reading; token and file belong to the same index")
    p = env.prog(False)
    idx = {}
    for f in p.fns.values():
        idx.setdefault(f.q, []).append(f)
    p.by_q = lambda q: idx.get(q, [])
    m = Model(p)
    callers = p.callers()
    fns = [f for f in p.src_fns(PREFIX) if f.body is not None and not skip(f) and not f.is_lambda and not f.q.startswith(LOW)]
    roots = [f for f in fns if m.reach.get(f.key, set()) & {"T", "X"} or m.reach.get(f.key, set()) >= {"E", "R"}
             or token(p, f) and m.reach.get(f.key, set()) & {"W", "R", "E"}]
    # the dispatch loop only strings independent exchanges together
    roots = [f for f in roots if token(p, f) or m.reach.get(f.key, set()) & {"W", "R"} and not dispatches(f) or
             any(m.prim(f, n) == "T" for n in f.nodes())]
    has_reader = {}
    for f in sorted(roots, key=lambda f: f.key):
        cl = Order(m, f)
        ex = Explorer(p, cl)
        ex.run(f, frozenset())
        r = m.reach.get(f.key, set())
        rep.count("functions explored")
        rep.count("events on paths", cl.n)
        v = dict(cl.bad)
        up = [c.root() for c, n in callers.get(f.key, []) if p.src(c) and c.root().key != f.key]
        judged = {g.key for g in roots}
        inner = bool(up) and all(c.key in judged for c in up)
        tk = token(p, f)
        fl = set().union(*cl.ends) if cl.ends else set()
        if "T" in r and "T0" in fl and ("W" in r or not inner):
            v["announced"] = ("the announcement is created on a path where the exchange data has not been written yet", f.l)
        if tk and "W" in r:
            for st in cl.ends:
                if "W" in st and not st & {"T", "t"}:
                    v["unannounced"] = ("exchange data is written but not announced on some path", f.l)
        if "R" in r and (tk or "E" in r):
            if "R0" in fl:
                v["read"] = ("exchange data is read on a path where its announcement has not been seen", f.l)
            if "R1" in fl:
                v["unsynchronised"] = ("ranks read exchange data without having synchronised with the rank that saw the announcement", f.l)
        if tk and "E" in r and "R" not in r:
            for st in cl.ends:
                if "e" in st and "S" not in st:
                    v["unsynchronised"] = ("ranks do not wait for the rank that looks for the announcement", f.l)
        if "X0" in fl and ("R" in r or not inner):
            v["removed"] = ("exchange files are removed on a path where they have not been read yet", f.l)
        for what, (msg, line) in sorted(v.items()):
            rep.violation("%s|%s" % (what, f.q), "%s: %s" % (f.q.split("::")[-1], msg), "%s:%s" % (f.file, line))
        if not v:
            rep.ok(f.key, "%s: %s in order on %d end state(s)" % (f.q, "".join(sorted(r)), len(cl.ends)))
        has_reader[f.key] = r
    matching(rep, p, m, fns)
    rep.need("functions explored", 6)
    rep.need("events on paths", 10)
    rep.need("name sites", 3)
    rep.assumptions = ["closing an MPI file is collective and completes the writing of all its writers (every opened file is closed: C08)",
                       "the dispatch loop of the worker strings independent exchanges together; its cases are judged through the functions they call"]


# ------------------------------------------------------------------ names

def flat(c):
    """a string concatenation as a list of parts"""
    if not isinstance(c, tuple):
        return [c]
    if c[0] == "call" and short(c[1]) == "operator+":
        r = []
        for x in c[2:]:
            r += flat(x[1] if isinstance(x, tuple) and x and x[0] == "obj" else x)
        return r
    if c[0] == "bin" and c[1] == "+":
        return flat(c[2]) + flat(c[3])
    if c[0] == "new" and (len(c) == 3 or len(c) > 2 and "path" in c[1]):
        return flat(c[2])
    if c[0] == "call" and short(c[1]) == "to_string" and len(c) == 3:
        return [("num", c[2])]
    return [c]


class Names(Client):
    """follows the values of string locals; records the name used at every site"""

    def __init__(self, m):
        self.m, self.sites = m, []

    def val(self, e, st, ctx, ex, facts):
        return flat(self.put(ex.value(e, ctx, facts), dict(st)))

    def put(self, c, env):
        if not isinstance(c, tuple) or not c:
            return c
        if c[0] == "var" and (c[1], c[2]) in env:
            parts = env[(c[1], c[2])]
            return self.join(parts)
        if c[0] in ("lit", "str", "enum", "gvar", "gconst", "fref"):
            return c
        return tuple(self.put(x, env) if isinstance(x, tuple) else x for x in c)

    @staticmethod
    def join(parts):
        r = parts[0]
        for x in parts[1:]:
            r = ("bin", "+", r, x)
        return r

    def step(self, st, node, ctx, ex, facts):
        n = node.ast
        env = dict(st)
        if node.kind == "decl":
            if "string" in n.get("t", "") and n.get("init") is not None and n["id"] in ctx.fn.modified():
                env[(ctx.fn.root().key, n["id"])] = tuple(self.val(n["init"], st, ctx, ex, facts))
            if self.m.announcement(ctx.fn, n):
                self.site("T", strip(n["init"])["a"][0], st, ctx, ex, facts)
            return (frozenset(env.items()),)
        if node.kind == "op" and n.get("k") == "call":
            o = strip(n["obj"]) if n.get("obj") is not None else None
            if n.get("op") in ("=", "+=") and o is not None and o.get("k") == "ref":
                k = (ctx.fn.root().key, o["d"])
                new = self.val(n["a"][0], st, ctx, ex, facts)
                if n["op"] == "+=":
                    new = list(env.get(k, (("?",),))) + new
                env[k] = tuple(new)
            elif n.get("n") in ("std::filesystem::remove", "std::filesystem::exists"):
                self.site("X" if n["n"].endswith("remove") else "E", n["a"][0], st, ctx, ex, facts)
            else:
                ev = self.m.events(n)
                if "E" in ev and not ev & {"R", "W", "T", "X"} and n.get("a"):
                    self.site("E", n["a"][0], st, ctx, ex, facts)
                elif "R" in ev and not "E" in ev:
                    for x, t in zip(n.get("a", []), n.get("pt", [])):
                        if "string" in t and "vector" not in t:
                            self.site("R", x, st, ctx, ex, facts)
        return (frozenset(env.items()),)

    def edge(self, st, node, lab, ctx, ex, facts):
        """remembers whether the output communicator is split (several file parts)"""
        if node.kind == "branch" and lab in (True, False) and node.extra != "rfor":
            c, s = ex.value(node.ast, ctx, facts), lab
            while c[0] == "un" and c[1] == "!":
                c, s = c[2], not s
            if c[0] == "bin" and c[1] in ("==", "!=") and any(x[0] == "call" and short(x[1]) == "getOutputComm" for x in c[2:4]):
                v = (c[1] == "==") == s
                known = [y for k, y in st if k == ("nul",)]
                if known and known[0] != v:
                    return None
                return st | {(("nul",), v)}
        return st

    def site(self, kind, e, st, ctx, ex, facts):
        nul = [v for k, v in st if k == ("nul",)]
        self.sites.append((kind, self.val(e, st, ctx, ex, facts), nul[0] if nul else None, e.get("l"), e))


def base_of(parts):
    """(parameter id, index) of the name the parts start with"""
    c = parts[0] if parts else None
    idx = None
    for _ in range(8):
        if not isinstance(c, tuple) or not c:
            return None
        if c[0] == "call" and short(c[1]) in ("operator[]", "at", "c_str") and len(c) > 2:
            if len(c) > 3:
                idx = c[3]
            c = c[2][1]
        elif c[0] == "elem":
            idx = ("each",)
            c = c[1]
        elif c[0] == "var":
            return c, idx
        else:
            return None
    return None


def matching(rep, p, m, fns):
    suffix = {}
    for f in sorted(fns, key=lambda f: f.key):
        own = {m.prim(f, n) for n in f.nodes()}
        ev = set().union(set(), *[m.events(n) for n in f.calls()])
        if not (own & {"T", "X"} or ("E" in (own | ev) and "R" in ev and token(p, f))) or not f.q.startswith("combigrid::SparseGridWorker"):
            continue
        cl = Names(m)
        Explorer(p, cl).run(f, frozenset())
        tk = {x["id"] for x in token(p, f)}
        seen = {}
        for kind, parts, nul, line, e in cl.sites:
            b = base_of(parts)
            if b is None or b[0][1] != f.key:
                continue
            is_tok = b[0][2] in tk
            rest = tuple(x[1] if x[0] == "str" else "#" for x in parts[1:])
            rep.count("name sites")
            if is_tok and kind in "TEX":
                suffix.setdefault(nul, {}).setdefault(rest, (f, kind, line))
            seen.setdefault(kind if not (kind == "X" and is_tok) else "x", set()).add((b[1], nul, is_tok, rest))
        for k in ("R",):
            for i, nul, is_tok, rest in seen.get(k, ()):
                es = {j for j, nul2, t2, r2 in seen.get("E", ()) if t2 and (nul is None or nul2 is None or nul2 == nul)}
                if "E" in seen and i not in es:
                    rep.violation("index|%s" % f.q, "the file that is read (index %s) is not the one whose announcement was seen (index %s)" % (
                        show(i) if i else "-", ", ".join(show(j) if j else "-" for j in es)), f.where())
                elif "E" in seen:
                    rep.ok((f.key, "index", repr(i)), "%s reads the file whose token was seen" % f.q)
    for nul, d in sorted(suffix.items(), key=lambda x: str(x[0])):
        if nul is None:
            continue
        if len(d) > 1:
            a = ["%s in %s" % ("+".join(map(str, k)) or "(no suffix)", v[0].q.split("::")[-1]) for k, v in sorted(d.items(), key=repr)]
            rep.violation("suffix|%s" % nul, "the names of announcements disagree between writing, looking and removing: " + "; ".join(a), list(d.values())[0][0].where())
        else:
            rep.ok(("suffix", nul), "announcement names agree (%s)" % ("+".join(map(str, list(d)[0])) or "no suffix"))
