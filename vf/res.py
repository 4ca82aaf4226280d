"""Typestate of MPI handles: created, committed, released; which variable, container, member or caller owns them.

The state of a path is a set of entries (names, kind, status, site, many): `names` are the places that hold the
handle (a local, a container, a parameter, a member, the result of a call)."""
import re
from .core import Ctx, strip, walk, subnodes
from .explore import Client, Explorer

TYPES = {"request": "ompi_request_t", "type": "ompi_datatype_t", "group": "ompi_group_t", "op": "ompi_op_t", "info": "ompi_info_t",
         "file": "ompi_file_t", "win": "ompi_win_t"}
NONBLOCKING = re.compile(r"^MPI_(I(send|ssend|rsend|bsend|recv|mrecv|bcast|reduce|allreduce|barrier|gather|gatherv|allgather|allgatherv|scatter|scatterv|"
                         r"alltoall|alltoallv|alltoallw|scan|exscan|reduce_scatter|reduce_scatter_block|comm_dup)|Rget|Rput|File_i(read|write).*)$".replace("I(comm_dup", "I("))
ACQ = {"MPI_Type_contiguous": ("type", -1), "MPI_Type_vector": ("type", -1), "MPI_Type_indexed": ("type", -1), "MPI_Type_hvector": ("type", -1),
       "MPI_Type_dup": ("type", -1), "MPI_Op_create": ("op", 2), "MPI_Comm_group": ("group", 1), "MPI_Group_incl": ("group", -1),
       "MPI_Group_excl": ("group", -1), "MPI_Group_union": ("group", -1), "MPI_Group_difference": ("group", -1), "MPI_Group_intersection": ("group", -1),
       "MPI_Info_create": ("info", 0), "MPI_Info_dup": ("info", -1), "MPI_File_open": ("file", -1), "MPI_Win_create": ("win", -1), "MPI_Win_allocate": ("win", -1)}
REL = {"MPI_Type_free": ("type", 0), "MPI_Op_free": ("op", 0), "MPI_Group_free": ("group", 0), "MPI_Info_free": ("info", 0), "MPI_File_close": ("file", 0),
       "MPI_Win_free": ("win", 0), "MPI_Wait": ("request", 0), "MPI_Request_free": ("request", 0), "MPI_Waitall": ("request", 1)}
MOVERS = ("push_back", "emplace_back", "insert", "emplace", "push", "operator=", "assign", "swap")
OWNING = re.compile(r"^(const )?std::(vector|array|basic_string|deque)<")


def acquire(n):
    nm = n.get("n") or ""
    if not nm.startswith("MPI_"):
        return None
    if NONBLOCKING.match(nm):
        return "request", len(n["a"]) - 1
    if nm.startswith("MPI_Type_create_"):
        return "type", len(n["a"]) - 1
    if nm in ACQ:
        k, i = ACQ[nm]
        return k, i % len(n["a"])
    return None


def release(n):
    return REL.get(n.get("n") or "")


def is_handle_type(t):
    return any(x in (t or "") for x in TYPES.values())


def places(e, ctx, prog):
    """(name, is_element): the variable / member the handle expression denotes, seen from the outermost caller"""
    elem = False
    for _ in range(40):
        e = strip(e)
        if e is None:
            return None, elem
        k = e.get("k")
        if k in ("cast", "icast") and e.get("c"):
            e = e["c"][0]
        elif k == "un" and e.get("op") in ("&", "*"):
            e = e["c"][0]
        elif k == "sub":
            elem, e = True, e["c"][0]
        elif k == "ctor" and len(e.get("a", [])) == 1:
            e = e["a"][0]
        elif k == "call" and e.get("obj") is not None and (e.get("op") in ("[]", "*", "->") or
                                                         (e.get("n") or "").split("::")[-1] in ("data", "back", "front", "at", "begin", "end", "get")):
            if e.get("op") not in ("*", "->") and (e.get("n") or "").split("::")[-1] != "get":
                elem = True
            e = e["obj"]
        elif k == "mem" and e.get("cls") == "std::pair":
            e = e["b"]
        elif k == "mem":
            b, _ = places(e["b"], ctx, prog) if e.get("b") is not None and e["b"].get("k") != "this" else (("this",), False)
            return ("field", e.get("cls"), e["n"]), elem
        elif k == "ref":
            f = ctx.fn
            d = e["d"]
            if d in ctx.bind:
                e, c2 = ctx.bind[d]
                if c2 is None:
                    return None, elem
                ctx = c2
                continue
            if e.get("g") == "global":
                return ("global", e.get("q") or e.get("n")), elem
            de = decl_of(f.root(), d)
            if de is not None and de.get("t", "").endswith("&") and de.get("init") is not None:
                e = de["init"]
                continue
            rv = range_of(f.root(), d)
            if rv is not None:
                elem, e = True, rv
                continue
            return ("param" if e.get("g") == "param" else "var", f.root().key, d), elem
        else:
            return None, elem
    return None, elem


_CACHE = {}


def cached(what, f):
    r = _CACHE.get((what, f.key))
    return r[1] if r is not None and r[0] is f else None


def keep(what, f, v):
    _CACHE[(what, f.key)] = (f, v)
    return v


def _index(f):
    r = cached("index", f)
    if r is None:
        decls, ranges, blocks = {}, {}, {}

        def go(n, blk):
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k == "decl":
                for v in n["vars"]:
                    decls[v["id"]] = v
                    blocks[v["id"]] = blk
            if k in ("seq", "for", "rfor", "while", "do"):
                blk = blk + (id(n),)
            if k == "rfor":
                v = n.get("var") or {}
                if isinstance(v, dict) and "id" in v:
                    ranges[v["id"]] = n.get("range")
                    blocks[v["id"]] = blk
            where[id(n)] = blk
            for c in subnodes(n):
                go(c, blk)
        where = {}
        go(f.body, ())
        r = keep("index", f, (decls, ranges, blocks, where))
    return r


def decl_of(f, d):
    return _index(f)[0].get(d)


def range_of(f, d):
    return _index(f)[1].get(d)


def loop_start(n):
    """the constant > 0 an index loop starts at, else None"""
    for x in walk(n.get("init") or {}):
        for d in x.get("vars", ()) if x.get("k") == "decl" else ():
            v = strip(d.get("init"))
            if v is not None and v.get("k") == "lit":
                try:
                    return int(str(v.get("v")), 0) or None
                except ValueError:
                    return None
    return None


def stops_short(n):
    """the bound of an index loop is a container's size reduced by a constant"""
    c = strip(n.get("cond"))
    if c is None or c.get("k") != "bin" or c.get("op") not in ("<", "!="):
        return False
    b = strip(c["c"][1])
    while b is not None and b.get("k") in ("cast", "icast") and b.get("c"):
        b = strip(b["c"][0])
    if b is None or b.get("k") != "bin" or b.get("op") != "-":
        return False
    r = strip(b["c"][1])
    while r is not None and r.get("k") in ("cast", "icast") and r.get("c"):
        r = strip(r["c"][0])
    return r is not None and r.get("k") == "lit" and any(
        x.get("k") == "call" and (x.get("n") or "").split("::")[-1] == "size" for x in walk(b["c"][0]))


def sweeping(f):
    """loop condition/range -> release calls performed for each element in every iteration"""
    r = cached("sweep", f)
    if r is not None:
        return r
    r = keep("sweep", f, {})

    def rels(n, out):
        if not isinstance(n, dict) or n.get("k") in ("if", "switch", "lambda"):
            return
        if n.get("k") == "call" and release(n):
            out.append(n)
        for c in subnodes(n):
            rels(c, out)
    starts = {}
    for n in f.nodes():
        if n.get("k") == "for" and loop_start(n):
            starts[loop_start(n)] = starts.get(loop_start(n), 0) + 1
    for n in f.nodes():
        k = n.get("k")
        if k in ("for", "while", "rfor"):
            if k == "for" and (loop_start(n) and starts[loop_start(n)] == 1 or stops_short(n)):
                continue        # leaves out elements
            out = []
            rels(n.get("body"), out)
            if out:
                key = n.get("range") if k == "rfor" else n.get("cond")
                if key is not None:
                    for x in walk(key):
                        r.setdefault(id(x), []).extend(out)
    return r


class Handles(Client):
    """explores one function; self.problems: (rule, detail, message, line)"""

    def __init__(self, prog, exporting, kinds, fn):
        self.prog, self.exporting, self.kinds, self.fn = prog, exporting, kinds, fn
        self.problems = {}
        self.acquired = set()      # (kind, name)
        self.released = set()
        self.created = self.freed = 0
        self.kept = set()
        self.exits = []            # per returning path: the parameters that have been set (or are known to be null)

    def inline(self, fn, call, ctx):
        return fn.root().key in self.exporting or (fn.is_lambda and fn.root() is ctx.fn.root())

    def problem(self, rule, detail, msg, line):
        self.problems.setdefault((rule, detail), (msg, line))

    # -- helpers over the state
    @staticmethod
    def find(st, name, kind=None):
        return [e for e in st if name in e[0] and (kind is None or e[1] == kind)]

    def drop(self, st, es):
        return st - frozenset(es)

    def label(self, ctx, name):
        if name[0] in ("var", "param"):
            f = self.prog.fns.get(name[1])
            if f is not None:
                d = decl_of(f, name[2])
                if d is not None:
                    return d["n"]
                for p in f.params:
                    if p["id"] == name[2]:
                        return p["n"]
        return str(name[-1])

    def step(self, st, node, ctx, ex, facts):
        n = node.ast
        k = node.kind
        if k == "decl":
            return (self.on_decl(st, n, ctx),)
        if k == "op" and n.get("k") == "asg" and n.get("op") == "=":
            return (self.on_assign(st, n, ctx),)
        if k == "op" and n.get("k") == "call":
            return (self.on_call(st, n, ctx, ex, facts),)
        if k == "ret" and n.get("e") is not None and ctx.parent is not None:
            # the handle is now the result of the call
            names = self.names_in(n["e"], ctx)
            for e in list(st):
                if e[0] & names:
                    st = self.drop(st, [e]) | {(e[0] | {("result", id(ctx.call))},) + e[1:]}
        elif k == "ret" and n.get("e") is not None:
            names = self.names_in(n["e"], ctx)
            for e in list(st):
                if e[0] & names:
                    st = self.drop(st, [e]) | {(e[0] | {("returned",)},) + e[1:]}
        return (st,)

    def names_in(self, e, ctx):
        r = set()
        for x in walk(e):
            if x.get("k") == "call":
                r.add(("result", id(x)))
            if x.get("k") in ("ref", "mem") and is_handle_type(x.get("t")):
                p, _ = places(x, ctx, self.prog)
                if p is not None:
                    r.add(p)
        return r

    def on_decl(self, st, n, ctx):
        me = ("var", ctx.fn.root().key, n["id"])
        t = n.get("t", "")
        live = [e for e in self.find(st, me) if not (e[0] - {me})]
        for e in live:
            if e[2] == "undef":
                st = self.drop(st, [e])
        if not is_handle_type(t) or t.endswith("&"):
            return st
        if n.get("init") is None:
            for kd, tn in TYPES.items():
                if kd == "request" and kd in self.kinds and t == tn + " *":
                    st = st | {(frozenset({me}), kd, "undef", n.get("l"), False)}
            return st
        names = self.names_in(n["init"], ctx)
        for e in list(st):
            if e[0] & names and e[2] != "undef":
                st = self.drop(st, [e]) | {(e[0] | {me},) + e[1:]}
        return st

    def on_assign(self, st, n, ctx):
        l = n["c"][0]
        if not is_handle_type(strip(l).get("t")):
            return st
        me, elem = places(l, ctx, self.prog)
        if me is None:
            return st
        names = self.names_in(n["c"][1], ctx)
        st = self.overwrite(st, me, elem, ctx, n, names)
        for e in list(st):
            if e[0] & names and e[2] != "undef":
                st = self.drop(st, [e]) | {(e[0] | {me},) + e[1:4] + (e[4] or elem,)}
        if me[0] == "param":
            st = st | {(frozenset({("set", me)}), "set", "set", 0, False)}
        return st

    def overwrite(self, st, me, elem, ctx, n, moved=()):
        for e in self.find(st, me):
            if e[2] == "undef":
                st = self.drop(st, [e])
            elif not elem and not e[4] and e[2] in ("live", "raw") and not (e[0] & set(moved)) and e[0] == {me}:
                self.problem("overwritten", "%s %s" % (e[1], self.label(ctx, me)), "the %s handle %s is overwritten while the object it names is not released" % (e[1], self.label(ctx, me)), n.get("l"))
                st = self.drop(st, [e])
            elif not elem and e[2] == "freed":
                st = self.drop(st, [e])
        return st

    def on_call(self, st, n, ctx, ex, facts):
        nm = (n.get("n") or "").split("::")[-1]
        a = acquire(n)
        if a and a[0] in self.kinds:
            kind, i = a
            h = n["a"][i]
            me, elem = places(h, ctx, self.prog)
            st = self.uses(st, n, ctx, skip=i)
            if me is None:
                self.problem("unknown", nm, "cannot tell where the handle created by %s is kept" % nm, n.get("l"))
                return st
            if kind == "file":
                st = self.drop(st, self.find(st, me, kind))      # a failed attempt to open leaves nothing behind
            st = self.overwrite(st, me, elem, ctx, n)
            self.created += 1
            self.acquired.add((kind, me, n.get("l"), ctx.fn.root().q))
            st = st | {(frozenset({me}), kind, "raw" if kind == "type" else "live", n.get("l"), elem)}
            if me[0] == "param":
                st = st | {(frozenset({("set", me)}), "set", "set", 0, False)}
            if kind == "request":
                st = self.buffers(st, n, me, ctx)
            return st
        r = release(n)
        if r and r[0] in self.kinds:
            kind, i = r
            me, elem = places(n["a"][i], ctx, self.prog)
            self.freed += 1
            if me is None:
                return st
            self.released.add((kind, me))
            if nm == "MPI_Waitall":
                self.waitall_count(n, me, ctx)
            es = self.find(st, me, kind)
            for e in es:
                if e[2] == "undef":
                    self.problem("undefined", "%s %s" % (kind, self.label(ctx, me)), "%s on the handle %s, which no path before has set" % (nm, self.label(ctx, me)), n.get("l"))
                    st = self.drop(st, [e])
                elif e[2] == "freed" and kind != "request" and not elem and not e[4]:
                    self.problem("released twice", "%s %s" % (kind, self.label(ctx, me)), "%s releases %s again" % (nm, self.label(ctx, me)), n.get("l"))
                else:
                    if kind == "request" and e[2] == "live":
                        st = self.check_scope(st, e, me, n, ctx)
                    if elem and e[4] and nm != "MPI_Waitall":
                        continue        # one element; the sweep releases all of them
                    st = self.drop(st, [e])
                    if kind != "request":
                        st = st | {(e[0], kind, "freed", e[3], e[4])}
            if kind == "request":
                st = frozenset(x for x in st if not (x[1] == "buf" and ("of", me) in x[0]))
            return st
        if nm in ("MPI_Test", "MPI_Testall", "MPI_Waitany", "MPI_Waitsome", "MPI_Testany") and "request" in self.kinds:
            for x in n["a"]:
                me, elem = places(x, ctx, self.prog)
                if me is not None:
                    self.released.add(("request", me))
                    st = self.drop(st, self.find(st, me, "request"))
            return st
        if nm == "MPI_Type_commit":
            me, elem = places(n["a"][0], ctx, self.prog)
            if me is not None:
                for e in self.find(st, me, "type"):
                    if e[2] == "raw":
                        st = self.drop(st, [e]) | {(e[0], "type", "live", e[3], e[4])}
                    elif e[2] == "freed":
                        self.problem("used after release", "type %s" % self.label(ctx, me), "a datatype is committed after its release", n.get("l"))
            return st
        if (n.get("n") or "").startswith("MPI_"):
            return self.uses(st, n, ctx)
        # moved into a container
        if n.get("obj") is not None and nm in MOVERS:
            me, elem = places(n["obj"], ctx, self.prog)
            names = set()
            for x in n.get("a", []):
                names |= self.names_in(x, ctx)
            if me is not None and names:
                for e in list(st):
                    if e[0] & names and e[2] != "undef" and me not in e[0]:
                        if nm in ("push_back", "emplace_back", "insert", "emplace", "push"):
                            st = self.drop(st, [e]) | {(frozenset({me}), e[1], e[2], e[3], True)}
                        else:
                            st = self.drop(st, [e]) | {(e[0] | {me},) + e[1:4] + (e[4] or elem,)}
        # buffers in use must not be reallocated
        if "request" in self.kinds and n.get("obj") is not None and nm in ("resize", "clear", "push_back", "emplace_back", "assign", "reserve", "shrink_to_fit", "operator=", "swap"):
            me, elem = places(n["obj"], ctx, self.prog)
            if me is not None and not elem:
                for e in st:
                    if e[1] == "buf" and ("buffer", me) in e[0]:
                        self.problem("buffer changed", self.label(ctx, me), "%s() on %s while a non-blocking operation uses it" % (nm, self.label(ctx, me)), n.get("l"))
        return st

    def uses(self, st, n, ctx, skip=None):
        for i, x in enumerate(n.get("a", [])):
            if i == skip:
                continue
            for y in walk(x):
                if y.get("k") in ("ref", "mem") and is_handle_type(y.get("t")):
                    me, elem = places(y, ctx, self.prog)
                    if me is None:
                        continue
                    for e in self.find(st, me):
                        if e[2] == "freed" and not e[4]:
                            self.problem("used after release", "%s %s" % (e[1], self.label(ctx, me)), "%s uses %s after its release" % (n.get("n"), self.label(ctx, me)), n.get("l"))
                        if e[2] == "raw" and not (n.get("n") or "").startswith("MPI_Type_"):
                            self.problem("not committed", "type %s" % self.label(ctx, me), "%s uses the datatype %s, which has not been committed" % (n.get("n"), self.label(ctx, me)), n.get("l"))
        return st

    # -- buffers of non-blocking operations
    def owner(self, e, ctx):
        """the local container or variable that owns the storage a buffer argument points to"""
        for _ in range(20):
            e = strip(e)
            if e is None:
                return None
            k = e.get("k")
            if k in ("cast", "icast"):
                e = e["c"][0]
            elif k == "un" and e.get("op") == "&":
                e = e["c"][0]
                for _ in range(10):
                    e = strip(e)
                    if e.get("k") == "sub":
                        e = e["c"][0]
                    elif e.get("k") == "call" and e.get("op") == "[]" and e.get("obj") is not None:
                        e = e["obj"]
                    elif e.get("k") in ("cast", "icast"):
                        e = e["c"][0]
                    else:
                        break
                break
            elif k == "call" and e.get("obj") is not None and (e.get("n") or "").split("::")[-1] in ("data", "c_str"):
                e = e["obj"]
                break
            elif k == "ref" and e.get("d") in ctx.bind:
                e, ctx = ctx.bind[e["d"]]
            elif k == "ref" and "[" in (e.get("t") or ""):
                break
            else:
                return None
        e = strip(e)
        if e.get("k") != "ref":
            return None
        me, elem = places(e, ctx, self.prog)
        return me

    def buffers(self, st, n, req, ctx):
        for i, t in enumerate(n.get("pt", [])):
            cnt = strip(n["a"][i + 1]) if i + 1 < len(n["a"]) else None
            if cnt is not None and cnt.get("k") == "lit" and str(cnt.get("v")) == "0":
                continue
            if t in ("void *", "const void *") and i < len(n["a"]):
                me = self.owner(n["a"][i], ctx)
                if me is None or me[0] != "var":
                    continue
                d = decl_of(self.prog.fns[me[1]], me[2])
                if d is None or d.get("static") or "thread_local" in str(d.get("sc", "")):
                    continue
                if me[1] != self.fn.root().key:
                    # local of an inlined callee: the operation must be completed there
                    if req[0] != "var" or req[1] != me[1]:
                        self.problem("buffer outlived", self.label(ctx, me), "%s uses the local buffer %s, but the request is completed by the caller" % (n.get("n"), self.label(ctx, me)), n.get("l"))
                    continue
                if req[0] in ("param", "field", "global"):
                    self.problem("buffer outlived", self.label(ctx, me), "%s uses the local buffer %s, but the request outlives the function" % (n.get("n"), self.label(ctx, me)), n.get("l"))
                st = st | {(frozenset({("buffer", me), ("of", req)}), "buf", "buf", n.get("l"), False)}
        return st

    def check_scope(self, st, e, req, n, ctx):
        """the completing call lies inside the block that declares the buffer"""
        for b in st:
            if b[1] == "buf" and any(("of", r) in b[0] for r in e[0]):
                for x in b[0]:
                    if x[0] == "buffer":
                        f = self.prog.fns[x[1][1]]
                        if ctx.fn.root() is f:
                            decls, _, blocks, where = _index(f)
                            bl, at = blocks.get(x[1][2], ()), where.get(id(n))
                            if at is not None and bl != at[:len(bl)]:
                                self.problem("buffer scope", self.label(ctx, x[1]), "the buffer %s goes out of scope before the operation is completed" % self.label(ctx, x[1]), n.get("l"))
        return st

    def waitall_count(self, n, me, ctx):
        c = strip(n["a"][0])
        while c is not None and c.get("k") in ("cast", "icast"):
            c = strip(c["c"][0])
        if c is None:
            return
        if c.get("k") == "call" and (c.get("n") or "").split("::")[-1] == "size":
            r, _ = places(c["obj"], ctx, self.prog)
            if r is not None and r != me:
                self.problem("wrong count", self.label(ctx, me), "MPI_Waitall waits for as many requests as %s has elements" % self.label(ctx, r), n.get("l"))
        elif c.get("k") == "bin" and c.get("op") == "-" or c.get("k") == "lit":
            self.problem("wrong count", self.label(ctx, me), "MPI_Waitall does not wait for all requests", n.get("l"))

    # -- loops that release every element
    def edge(self, st, node, lab, ctx, ex, facts):
        if node.kind == "branch" and lab is False:
            for call in sweeping(ctx.fn.root() if not ctx.fn.is_lambda else ctx.fn).get(id(node.ast), ()):
                r = release(call)
                if r[0] not in self.kinds:
                    continue
                me, elem = places(call["a"][r[1]], ctx, self.prog)
                if me is None:
                    continue
                for e in self.find(st, me, r[0]):
                    if e[4]:
                        if r[0] == "request" and e[2] == "live":
                            st = self.check_scope(st, e, me, call, ctx)
                        st = self.drop(st, [e])
                        if r[0] == "request":
                            st = frozenset(x for x in st if not (x[1] == "buf" and ("of", me) in x[0]))
        if node.kind == "branch" and lab in (True, False) and node.extra != "rfor" and "request" in self.kinds and ctx.parent is None:
            key, sense = ex.cond_key(node.ast, ctx, facts)
            if isinstance(key, tuple):
                val = lab == sense
                v = None
                if key[0] == "==" and val:
                    for x, y in ((key[1], key[2]), (key[2], key[1])):
                        if x[0] == "var" and y[0] in ("zero", "null_ptr"):
                            v = x
                elif key[0] == "truth" and not val and key[1][0] == "var":
                    v = key[1]
                if v is not None:
                    st = st | {(frozenset({("set", ("param", v[1], v[2]))}), "set", "set", 0, False)}
        return st

    def leave(self, st, kind, ctx, ex, node):
        if kind != "exit":
            return
        for e in st:
            if e[2] in ("live", "raw") and e[1] in self.kinds:
                self.kept |= {x for x in e[0] if x[0] == "field"}
                if any(x[0] in ("param", "field", "global", "returned") for x in e[0]):
                    continue
                own = [x for x in e[0] if x[0] == "var" and x[1] == self.fn.root().key]
                foreign = [x for x in e[0] if x[0] == "var" and x[1] != self.fn.root().key]
                if not own and foreign:
                    continue        # reported for that function
                name = self.label(ctx, own[0]) if own else "result"
                self.problem("not completed" if e[1] == "request" else "not released", "%s %s" % (e[1], name),
                             "a path leaves the function without %s the %s %s created in line %s" % (
                                 "completing" if e[1] == "request" else "releasing", e[1], name, e[3]), e[3])
        self.exits.append(frozenset(x[1] for e in st if e[1] == "set" for x in e[0]))


def exporting(prog, prefixes, skip):
    """functions that hand handles to, or take them from, their callers and touch them"""
    def ht(f):
        ts = [p.get("t", "") for p in f.params] + [f.d.get("ret", "") or "", f.d.get("rt", "") or ""]
        return any(is_handle_type(t) for t in ts)
    fns = [f for f in prog.src_fns(prefixes) if f.body and not skip(f)]
    touch = {f.key for f in fns if any(acquire(n) or release(n) or n.get("n") == "MPI_Type_commit" or (n.get("n") or "").startswith("MPI_Test") for n in f.calls())}
    exp = {f.key for f in fns if f.key in touch and ht(f)}
    changed = True
    cand = [f for f in fns if ht(f) and f.key not in exp]
    while changed:
        changed = False
        for f in cand:
            if f.key not in exp and any(n.get("f") in exp for n in f.calls()):
                exp.add(f.key)
                changed = True
    roots = [f for f in fns if f.key in touch or any(n.get("f") in exp for n in f.calls())]
    return exp, roots
