"""C20: the outcome of fallible I/O, compression and socket operations is observed in the release program."""
from ..core import walk, strip, kids, text, Ctx

SRC_PREFIX = ("src/", "third_level_manager/", "tools/")

# fallible primitive -> how the outcome is delivered: return value
PRIM = {"MPI_File_open", "MPI_File_read", "MPI_File_read_all", "MPI_File_read_at", "MPI_File_read_at_all", "MPI_File_write",
        "MPI_File_write_all", "MPI_File_write_at", "MPI_File_write_at_all", "MPI_File_write_ordered", "MPI_File_read_ordered",
        "MPI_File_write_shared", "MPI_File_read_shared",
        "LZ4F_compressFrame", "LZ4F_decompress", "LZ4F_createDecompressionContext", "LZ4F_createCompressionContext",
        "LZ4F_compressBegin", "LZ4F_compressUpdate", "LZ4F_compressEnd", "LZ4F_flush", "LZ4_compress_default",
        "LZ4_decompress_safe", "LZ4F_getFrameInfo",
        "send", "recv", "connect", "bind", "listen", "accept", "socket", "sendto", "recvfrom"}
# count of what was transferred, delivered through an out parameter of a query on the status
COUNT = {"MPI_Get_count": 2, "MPI_Get_elements": 2, "LZ4F_decompress": 2}
STATUS_COUNT = ("MPI_Get_count", "MPI_Get_elements")
ABORT = {"abort", "exit", "_exit", "std::abort", "std::exit", "std::terminate", "MPI_Abort", "std::rethrow_exception"}


class Use:
    """observability of values inside one function"""

    def __init__(self, an, f):
        self.an, self.f = an, f
        self.parent = {}
        roots = [i["e"] for i in f.d.get("inits", []) if i.get("e")] + ([f.body] if f.body else [])
        st = list(roots)
        for r in roots:
            self.parent[id(r)] = None
        while st:
            n = st.pop()
            from ..core import subnodes
            for c in subnodes(n):
                self.parent[id(c)] = n
                st.append(c)
            if n.get("k") == "decl":
                for v in n["vars"]:
                    if v.get("init"):
                        self.parent[id(v["init"])] = dict(k="vinit", v=v, decl=n)
        self.refs = {}
        for n in f.nodes():
            if n.get("k") == "ref" and "d" in n:
                self.refs.setdefault(n["d"], []).append(n)
        self.inits = {id(i["e"]): i for i in f.d.get("inits", []) if i.get("e")}

    # -- does the value of node n influence what the caller of f (or the control flow) gets to see?
    def observed(self, n, seen=None):
        seen = seen if seen is not None else set()
        cur = n
        while True:
            p = self.parent.get(id(cur))
            if p is None:
                return id(cur) in self.inits      # initialises a member
            k = p.get("k")
            if k == "vinit":
                return self.var(p["v"]["id"], seen, p["v"], p["decl"])
            if k in ("cast", "icast", "un", "defarg", "other", "ilist", "mem", "dmem", "sub"):
                if k == "cast" and p.get("t") == "void":
                    return False
                cur = p
                continue
            if k == "bin":
                if p["op"] == "," and p["c"][0] is cur:
                    return False
                cur = p
                continue
            if k == "cond":
                if cur is p["c"][0]:
                    # the selected value carries the outcome
                    if self.branches_differ(p["c"][1], p["c"][2], seen):
                        return True
                cur = p
                continue
            if k == "asg":
                if cur is p["c"][1] or p["op"] != "=":
                    if self.store(p["c"][0], seen, p if p["op"] == "=" else None):
                        return True
                cur = p      # value of the assignment expression
                if cur is None:
                    return False
                q = self.parent.get(id(cur))
                if q is None or q.get("k") in ("seq", "if", "for", "while", "do", "rfor", "case", "default", "omp", "label"):
                    if q is not None and q.get("k") in ("if", "while", "do", "for") and q.get("cond") is cur:
                        return self.control(q, seen)
                    return False
                continue
            if k == "return":
                return self.returned()
            if k == "throw":
                return True
            if k in ("if", "while", "do", "for", "switch"):
                if p.get("cond") is cur:
                    return self.control(p, seen)
                return False
            if k in ("call", "ctor"):
                r = self.passed(p, cur, seen)
                if r is True:
                    return True
                if r == "value":
                    cur = p
                    continue
                return False
            return False

    def returned(self):
        if self.an.raise_only:
            return False
        if self.f.is_lambda:
            return True
        self.an.carrier(self.f)
        return True

    def store(self, lhs, seen, at=None):
        l = strip(lhs)
        while l is not None and (l.get("k") == "sub" or (l.get("k") == "call" and l.get("op") == "[]")):
            l = strip(l["c"][0] if l["k"] == "sub" else l.get("obj"))
        if l is None:
            return False
        if l.get("k") == "ref":
            if l.get("g") in ("global", "smember"):
                return not self.an.raise_only
            v = self.f.vars().get(l["d"]) or {}
            if any(p["id"] == l["d"] for p in self.f.params) and v.get("t", "").endswith("&"):
                return not self.an.raise_only
            return self.var(l["d"], seen, v, at if l is strip(lhs) else None)
        if l.get("k") in ("mem",) or (l.get("k") == "un" and l["op"] == "*"):
            return not self.an.raise_only
        return False

    # -- document order; the stretch of the function in which a value just stored is still there
    def number(self):
        if not hasattr(self, "first"):
            self.first, self.last, c = {}, {}, 0
            from ..core import subnodes

            def go(n):
                nonlocal c
                self.first[id(n)] = c
                c += 1
                for x in subnodes(n):
                    go(x)
                self.last[id(n)] = c
                c += 1
            if self.f.body:
                go(self.f.body)
        return self.first

    def overwrites(self, s, vid, calls):
        """statement s certainly overwrites the variable (and does nothing before that but compute the new value)"""
        s = strip(s)
        if s is None:
            return False
        if calls:
            return any(x.get("k") == "call" and calls(x) for x in walk(s)) and s.get("k") in ("call", "asg", "decl")
        if s.get("k") == "asg" and s["op"] == "=":
            l = strip(s["c"][0])
            return l is not None and l.get("k") == "ref" and l.get("d") == vid
        return False

    def alive(self, vid, at, calls=None):
        """(first, last) document positions between which the value stored at node at can be read, None if not known"""
        self.number()
        if id(at) not in self.first:
            return None
        cur, loop = at, False
        while cur is not None:
            up = self.parent.get(id(cur))
            if up is None:
                return None
            if up.get("k") in ("for", "while", "do", "rfor", "lambda", "try", "switch"):
                return None
            if up.get("k") == "seq":
                i = [j for j, x in enumerate(up["c"]) if x is cur]
                for x in up["c"][i[0] + 1:] if i else ():
                    if any(y.get("k") in ("break", "continue", "goto", "label", "case", "default") for y in walk(x)):
                        return None
                    if self.overwrites(x, vid, calls):
                        return self.first[id(at)], self.last[id(x)]
            cur = up
        return None

    def var(self, vid, seen, v, at=None):
        key = ("v", vid) if at is None else ("v", vid, id(at))
        if ("v", vid) in seen or key in seen:
            return False
        seen.add(key)
        got = False
        span = self.alive(vid, at) if at is not None else None
        for r in self.refs.get(vid, []):
            if span is not None and not span[0] < self.first.get(id(r), span[0] + 1) < span[1]:
                continue
            if not self.is_target(r) and self.observed(r, seen):
                got = True       # no early exit: all ways of passing it on are collected
        return got

    def is_target(self, r):
        p = self.parent.get(id(r))
        return p is not None and p.get("k") == "asg" and p["op"] == "=" and p["c"][0] is r

    def passed(self, call, cur, seen):
        nm = call.get("n") or call.get("cls") or ""
        base = nm.split("<")[0]
        op = call.get("op")
        if nm in ABORT or base in ABORT:
            return True
        if base.endswith("isError") or base in ("std::min", "std::max", "std::move", "std::forward", "std::abs", "abs"):
            return "value"
        if op in ("<<",):
            # printing is not reporting, except into a string stream that is used (ignored here)
            return False
        if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "!", "&", "|", "()", "[]"):
            return "value"
        if op in ("=", "+=", "-="):
            o = call.get("obj") or (call.get("a") or [None])[0]
            if o is not None and o is not cur:
                return True if self.store(o, seen) else False
            return "value"
        callees = self.an.p.callees(call)
        if callees:
            for i, a in enumerate(call.get("a", [])):
                if a is cur:
                    for g in callees:
                        if i < len(g.params) and self.an.param_observed(g, i):
                            return True
                    return "value" if any(self.an.param_returned(g, i) for g in callees if i < len(g.params)) else False
            if call.get("obj") is cur:
                return "value"
            return False
        if call.get("k") == "ctor":
            return "value"
        if base in ("MPI_Allreduce", "MPI_Reduce", "MPI_Bcast", "MPI_Send", "MPI_Gather", "MPI_Allgather"):
            return True
        if call.get("obj") is not None and cur is not call.get("obj"):
            # container.push_back(result) / resize: data of a local object
            if base.split("::")[-1] in ("push_back", "emplace_back", "insert", "store"):
                o = strip(call["obj"])
                if o.get("k") == "ref" and o.get("g") == "local":
                    return self.var(o["d"], seen, {})
                return True
            return False
        if call.get("obj") is cur:
            return "value"
        return False

    # -- control dependence
    def control(self, st, seen):
        k = st.get("k")
        if k == "if":
            return self.branches_differ(st.get("then"), st.get("else"), seen, st)
        if k == "switch":
            return self.effectful(st.get("body"), seen)
        # loop condition: ends the loop; what follows must tell
        return True if self.effectful(st.get("body"), seen) else False

    def branches_differ(self, a, b, seen, st=None):
        ea, eb = self.effectful(a, seen), self.effectful(b, seen)
        return bool(ea or eb)

    def effectful(self, s, seen):
        """s contains something besides console output that distinguishes having executed it"""
        if s is None:
            return False
        got = False
        for n in walk(s):
            k = n.get("k")
            if k == "throw":
                got = True
            if k == "return":
                rs = self.an.returns(self.f)
                e = n.get("e")
                if self.an.raise_only:
                    continue
                if e is None:
                    got = True      # leaves early: what follows is skipped
                    continue
                if len({text(x) + str(strip(x).get("v", "")) for x in rs}) > 1:
                    self.returned()
                    got = True
                continue
            if k in ("break", "continue", "goto"):
                if self.an.raise_only:
                    continue
                got = True
            if k == "call" and (n.get("n") or "") in ABORT:
                got = True
            if k == "asg" and self.store(n["c"][0], seen):
                got = True
            if k == "call" and n.get("f") in self.an.p.fns and self.an.may_report(self.an.p.fns[n["f"]]):
                got = True
            if k == "call" and (n.get("n") or "") in PRIM and not self.an.raise_only:
                got = True
        return got


class Analysis:
    def __init__(self, p):
        self.p = p
        self.uses = {}
        self.carriers = {}
        self.todo = []
        self.raise_only = False
        self._po, self._pr, self._mr, self._rets = {}, {}, {}, {}

    def use(self, f):
        r = self.uses.get(f.key)
        if r is None:
            r = self.uses[f.key] = Use(self, f)
        return r

    def carrier(self, f):
        if f.key not in self.carriers:
            self.carriers[f.key] = f
            self.todo.append(f)

    def returns(self, f):
        if f.key not in self._rets:
            r = []
            for n in walk(f.body, lambdas=False) if f.body else ():
                if n.get("k") == "return" and n.get("e"):
                    r.append(n["e"])
            self._rets[f.key] = r
        return self._rets[f.key]

    def param_observed(self, g, i):
        k = (g.key, i, self.raise_only)
        if k not in self._po:
            self._po[k] = False
            if g.body:
                before = dict(self.carriers)
                todo = list(self.todo)
                u = self.use(g)
                got = False
                vid = g.params[i]["id"]
                for r in u.refs.get(vid, []):
                    if not u.is_target(r) and u.observed(r, {("v", vid)}):
                        # being returned is not yet being observed
                        if g.key in self.carriers and g.key not in before:
                            self._pr[k] = True
                        else:
                            got = True
                self.carriers, self.todo = before, todo
                self._po[k] = got
        return self._po[k]

    def param_returned(self, g, i):
        self.param_observed(g, i)
        return self._pr.get((g.key, i, self.raise_only), False)

    def may_report(self, g, depth=0):
        if g.key in self._mr:
            return self._mr[g.key]
        self._mr[g.key] = False
        r = False
        if g.body:
            for n in walk(g.body):
                if n.get("k") == "throw" or (n.get("k") == "call" and (n.get("n") or "") in ABORT):
                    r = True
                elif n.get("k") == "call" and n.get("f") in self.p.fns and depth < 6 and self.may_report(self.p.fns[n["f"]], depth + 1):
                    r = True
                if r:
                    break
        self._mr[g.key] = r
        return r


def run(env, rep):
    rep.rule = ("in the program without assertions: the return value of every parallel-file open/read/write, LZ4 and socket call, and of every "
                "repository function whose return value is derived from such an outcome, reaches a throw/abort, a branch that changes what is done or "
                "returned (console output does not count), a member/out parameter or the caller; for file reads and writes the transferred "
                "count is also examined.")
    p = env.prog(False)
    an = Analysis(p)
    fns = [f for f in p.fns.values() if f.file.startswith(SRC_PREFIX) and f.body and not f.file.startswith("src/mpi_fault_simulator")]
    seen = set()
    for f in sorted(fns, key=lambda f: f.key):
        if f.is_lambda:
            continue
        for n in f.calls():
            nm = (n.get("n") or "").lstrip(":")
            if nm in PRIM and n.get("k") == "call":
                rep.count("fallible calls")
                check(an, rep, f, n, nm, "outcome", "discarded")
            if nm in STATUS_COUNT and from_file(p, f, n) or nm == "LZ4F_decompress":
                check_count(an, rep, f, n, nm)
            if nm.startswith(("MPI_File_read", "MPI_File_write")) and nm in PRIM:
                check_short(an, rep, f, n, nm)
    done = set()
    callers = p.callers()
    while an.todo:
        g = an.todo.pop()
        if g.key in done:
            continue
        done.add(g.key)
        rep.count("functions returning an outcome")
        for f, n in callers.get(g.key, []):
            if not f.file.startswith(SRC_PREFIX) or n.get("k") != "call":
                continue
            rep.count("calls of functions returning an outcome")
            check(an, rep, f, n, g.q, "outcome returned", "discarded")
    weak_counts(an, rep, fns, callers)
    rep.need("fallible calls", 20)
    rep.need("functions returning an outcome", 6)


def observed(an, f, nodes, seen):
    """raised inside f, or else passed on by f (which makes f's callers responsible)"""
    an.raise_only = True
    try:
        if any(an.use(f).observed(n, set(seen)) for n in nodes):
            return True
    finally:
        an.raise_only = False
    r = False
    for n in nodes:
        if an.use(f).observed(n, set(seen)):
            r = True
    return r


def fields_written(g):
    return {strip(n["c"][0])["n"] for n in g.nodes() if n.get("k") == "asg" and strip(n["c"][0]).get("k") == "mem"}


def queried(an, f, n, callees):
    """the outcome is also kept in the object and a query of that state is observed in the same function"""
    if n.get("obj") is None:
        return False
    o = text(n["obj"])
    for g in callees:
        fw = fields_written(g)
        for m in f.calls():
            if m is n or m.get("obj") is None or text(m["obj"]) != o or not m.get("mc"):
                continue
            for h in an.p.callees(m):
                fr = {x["n"] for x in h.nodes() if x.get("k") == "mem"}
                if fr & fw and observed(an, f, [m], ()):
                    return True
    return False


def check(an, rep, f, n, nm, what, verb):
    if observed(an, f, [n], ()) or queried(an, f, n, an.p.callees(n)):
        rep.ok((f.key, n.get("l"), nm), "%s: outcome of %s is examined or passed on" % (f.where(n), nm))
    else:
        rep.violation("ignored|%s|%s" % (f.q, nm), "the %s by %s is not examined in %s (neither raised, nor passed on, nor does it change what is done)"
                      % (what, nm, f.q), f.where(n))


def status_var(a):
    a = strip(a)
    if a.get("k") == "un" and a["op"] == "&":
        a = strip(a["c"][0])
    return a.get("d") if a.get("k") == "ref" else None


def from_file(p, f, n):
    """the status queried by n was (or may have been) filled by a file transfer"""
    v = status_var(n["a"][0])
    if v is None:
        return False
    for m in f.calls():
        if (m.get("n") or "").startswith("MPI_File_") and status_var(m["a"][-1]) == v:
            return True
    i = [k for k, q in enumerate(f.params) if q["id"] == v]
    if i:
        for c, m in p.callers().get(f.key, []):
            if i[0] < len(m.get("a", [])):
                w = status_var(m["a"][i[0]])
                if any((x.get("n") or "").startswith("MPI_File_") and x.get("a") and status_var(x["a"][-1]) == w for x in c.calls()):
                    return True
    return False


def check_count(an, rep, f, n, nm):
    a = strip(n["a"][COUNT[nm]])
    if a.get("k") == "un" and a["op"] == "&":
        a = strip(a["c"][0])
    if a.get("k") != "ref":
        return
    rep.count("transfer counts")
    u = an.use(f)
    uses = []
    for r in u.refs.get(a["d"], []):
        q = u.parent.get(id(r))
        if q is not None and q.get("k") == "un" and q["op"] == "&" or u.is_target(r):
            continue
        uses.append(r)
    if observed(an, f, uses, {("v", a["d"])}):
        rep.ok((f.key, n.get("l"), nm), "%s: transferred count is examined or passed on" % f.where(n))
    else:
        rep.violation("count|%s|%s" % (f.q, nm), "the number of transferred values is not examined in %s" % f.q, f.where(n))


def check_short(an, rep, f, n, nm):
    """the status of a file transfer must be queried for its count"""
    a = strip(n["a"][-1])
    if a.get("k") == "un" and a["op"] == "&":
        a = strip(a["c"][0])
    if a.get("k") == "ref" and "d" in a:
        u = an.use(f)
        span = u.alive(a["d"], n, lambda x: x is not n and (x.get("n") or "").startswith("MPI_File_") and x.get("a") and status_var(x["a"][-1]) == a["d"])

        def reads(m):
            return span is None or span[0] < u.first.get(id(m), span[0] + 1) < span[1]
        for m in f.calls():
            if (m.get("n") or "") in STATUS_COUNT and reads(m):
                b = strip(m["a"][0])
                if b.get("k") == "un":
                    b = strip(b["c"][0])
                if b.get("k") == "ref" and b.get("d") == a["d"]:
                    return
        # passed to a helper
        for m in f.calls():
            if m is n or m.get("f") not in an.p.fns or not reads(m):
                continue
            for x in m.get("a", []):
                if any(y.get("k") == "ref" and y.get("d") == a["d"] for y in walk(x)):
                    return
    rep.violation("short|%s|%s" % (f.q, nm), "an incomplete transfer by %s in %s is not detected: the count of its status is never queried" % (nm, f.q),
                  f.where(n))


CMP = ("==", "!=", "<", ">", "<=", ">=")


def count_vars(p, f, carriers):
    """variables of f that hold a number of transferred values, and calls that return one"""
    vs, cs = {}, []
    for n in f.calls():
        nm = n.get("n") or ""
        if nm in STATUS_COUNT and from_file(p, f, n):
            a = strip(n["a"][COUNT[nm]])
            if a.get("k") == "un" and a["op"] == "&":
                a = strip(a["c"][0])
            if a.get("k") == "ref":
                vs[a["d"]] = n
        elif n.get("f") in carriers:
            cs.append(n)
    ids = {id(c) for c in cs}
    for n in walk(f.body):
        if n.get("k") == "decl":
            for v in n["vars"]:
                if v.get("init") is not None and id(strip(v["init"])) in ids:
                    vs[v["id"]] = strip(v["init"])
        elif n.get("k") == "asg" and n.get("op") == "=" and strip(n["c"][0]).get("k") == "ref" and id(strip(n["c"][1])) in ids:
            vs[strip(n["c"][0])["d"]] = strip(n["c"][1])
    return vs, ids


def weak_counts(an, rep, fns, callers):
    """a number of transferred values that is compared at all is compared with the expected number, not only with a constant"""
    p = an.p
    carriers, todo = set(), [f for f in fns if not f.is_lambda]
    for _ in range(3):
        for f in todo:
            vs, ids = count_vars(p, f, carriers)
            for e in an.returns(f):
                e = strip(e)
                if e.get("k") == "ref" and e.get("d") in vs or id(e) in ids:
                    carriers.add(f.key)
    for f in sorted(todo, key=lambda f: f.key):
        vs, ids = count_vars(p, f, carriers)
        if not vs and not ids:
            continue
        found = {}
        for n in walk(f.body):
            if n.get("k") != "bin" or n.get("op") not in CMP:
                continue
            for a, b in ((0, 1), (1, 0)):
                x, y = strip(n["c"][a]), strip(n["c"][b])
                key = x.get("d") if x.get("k") == "ref" and x.get("d") in vs else id(x) if id(x) in ids else None
                if key is not None:
                    found.setdefault(key, []).append((n, y.get("k") in ("int", "lit", "bool", "float") or y.get("v") is not None and y.get("k") != "ref"))
        for key, l in found.items():
            rep.count("comparisons of transfer counts", len(l))
            if all(w for _, w in l):
                rep.violation("weak|%s" % f.q, "%s: the number of transferred values is only compared with a constant, an incomplete transfer goes unnoticed" % f.q, f.where(l[0][0]))
            else:
                rep.ok((f.key, "weak", str(key) if not isinstance(key, int) or key < 10**6 else l[0][0].get("l")), "%s: the number of transferred values is compared with the expected one" % f.q)
