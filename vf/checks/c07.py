"""C07: the datatype passed to a communication or file call describes the element type of the buffer."""
import re
from ..core import Ctx, canon, enter, show, strip, text, walk
from ..mpi import SIG, MPI_CONST, call_name, norm_type, find_in
from .c19 import pointee, sizeofs, W

ABS = "combigrid::abstraction::"
CREATE = {  # datatype constructor -> (old type argument, new type argument)
    "MPI_Type_contiguous": (1, 2), "MPI_Type_vector": (3, 4), "MPI_Type_create_hvector": (3, 4), "MPI_Type_indexed": (3, 4),
    "MPI_Type_create_hindexed": (3, 4), "MPI_Type_create_indexed_block": (3, 4), "MPI_Type_create_hindexed_block": (3, 4),
    "MPI_Type_create_subarray": (5, 6), "MPI_Type_create_resized": (0, 3), "MPI_Type_dup": (0, 1), "MPI_Type_create_darray": (8, 9)}
REDUCE = ("MPI_Reduce", "MPI_Ireduce", "MPI_Allreduce", "MPI_Iallreduce", "MPI_Exscan", "MPI_Scan")
RAW = {"char", "unsigned char", "signed char", "byte", "void"}


class Types:
    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.table()

    # ---- the translation table, read from the code
    def table(self):
        self.t2e, self.e2m = {}, {}
        for f in self.p.src_fns(("src/",)):
            if not f.body:
                continue
            if f.name.startswith("getabstractionDataType") and f.d.get("targs"):
                r = [n for n in f.nodes() if n.get("k") == "return" and n.get("e")]
                if len(r) == 1:
                    c = canon(r[0]["e"], Ctx(f))
                    e = find_in(c, lambda x: x[:1] == ("enum",))
                    if e:
                        self.t2e[norm_type(f.d["targs"][0])] = (e[1].split("::")[-1], f)
            elif f.q.endswith("abstraction::getMPIDatatype"):
                self.conv = f
                self.switch(f)

    def switch(self, f):
        """enum constant -> MPI datatype from the switch / if chain of getMPIDatatype"""
        from ..explore import Explorer, Client

        class Cl(Client):
            pass
        for n in f.nodes():
            if n.get("k") == "switch":
                labels, body = [], n["body"]["c"] if n["body"].get("k") == "seq" else [n["body"]]
                for s in flat(body):
                    if s.get("k") == "case":
                        labels.append(canon(s["v"], Ctx(f)))
                    elif s.get("k") == "default":
                        labels.append(("default",))
                    elif s.get("k") == "return" and s.get("e"):
                        m = mpi_const(canon(s["e"], Ctx(f)))
                        for l in labels:
                            e = find_in(l, lambda x: x[:1] == ("enum",))
                            self.e2m[e[1].split("::")[-1] if e else str(l)] = (m, s)
                        labels = []
                    elif s.get("k") in ("break", "throw") or any(x.get("k") == "throw" for x in walk(s)):
                        for l in labels:
                            e = find_in(l, lambda x: x[:1] == ("enum",))
                            self.e2m[e[1].split("::")[-1] if e else str(l)] = ("refused", s)
                        labels = []
            elif n.get("k") == "if":
                c = canon(n["cond"], Ctx(f))
                e = find_in(c, lambda x: x[:1] == ("enum",))
                if e and c[:2] in (("bin", "=="),):
                    for s in walk(n["then"]):
                        if s.get("k") == "return" and s.get("e"):
                            self.e2m.setdefault(e[1].split("::")[-1], (mpi_const(canon(s["e"], Ctx(f))), s))

    # ---- resolution of a datatype expression: set of element types, empty if unknown
    def resolve(self, e, ctx, depth=0):
        c = canon(e, ctx)
        return self.resolve_c(c, e, ctx, depth)

    def resolve_c(self, c, e, ctx, depth):
        m = mpi_const(c)
        if m is not None:
            return {m}
        x = find_in(c, lambda x: x[:1] == ("enum",) and "type_" in str(x[1]))
        if x is not None and find_in(c, lambda y: y[:1] == ("call",) and "getMPIDatatype" in str(y[1])):
            en = x[1].split("::")[-1]
            return {self.e2m[en][0]} if en in self.e2m else set()
        x = find_in(c, lambda x: x[:1] == ("call",) and "getabstractionDataType<" in str(x[1]))
        if x is not None:
            t = norm_type(x[1].split("getabstractionDataType<", 1)[1][:-1])
            en = self.t2e.get(t, (None,))[0]
            return {self.e2m[en][0]} if en in self.e2m else set()
        if depth > 5:
            return set()
        # a function that returns the type
        y = strip(e) if e is not None else None
        if y is not None and y.get("k") == "call" and y.get("f") in self.p.fns:
            g = self.p.fns[y["f"]]
            r = set()
            if g.body:
                for n in g.nodes():
                    if n.get("k") == "return" and n.get("e"):
                        r |= self.resolve(n["e"], enter(ctx, y, g), depth + 1)
            if r:
                return r
        return self.derived(c, ctx, depth)

    def derived(self, c, ctx, depth):
        """derived datatypes: created into this variable, or into what it was obtained from"""
        f = ctx.fn
        vs = set()

        def go(x):
            if isinstance(x, tuple):
                if x[:1] == ("var",):
                    vs.add(x[2])
                for y in x:
                    go(y)
        go(c)
        r = set()
        fns = [(f, ctx)]
        created = False
        for n in f.calls():
            nm = call_name(n)
            if nm in CREATE:
                o, w = CREATE[nm]
                tgt = canon(n["a"][w], ctx)
                tv = set()
                go2(tgt, tv)
                if tv & vs:
                    created = True
                    r |= self.resolve(n["a"][o], ctx, depth + 1)
        if created:
            return r
        # obtained from functions the variable is filled by
        for n in f.nodes():
            if n.get("k") == "decl":
                for v in n["vars"]:
                    if v.get("d", v.get("id")) in vs and v.get("init"):
                        r |= self.from_calls(v["init"], ctx, depth)
            elif n.get("k") == "asg" and strip(n["c"][0]).get("d") in vs:
                r |= self.from_calls(n["c"][1], ctx, depth)
            elif n.get("k") == "rfor":
                pass
        if r:
            return r
        # elements of containers: whatever datatypes this function and what it calls create
        for n in f.calls():
            g = self.p.fns.get(n.get("f"))
            if g is not None and g.body and "Datatype" in (n.get("t") or "") + str(c)[:400] + "ompi_datatype_t" and \
                    "ompi_datatype_t" in (n.get("t") or ""):
                r |= self.created_in(g, enter(ctx, n, g), depth + 1)
        if not r:
            r = self.created_in(f, ctx, depth + 1)
        return r

    def from_calls(self, e, ctx, depth):
        r = set()
        for n in walk(e):
            if n.get("k") == "call" and n.get("f") in self.p.fns:
                g = self.p.fns[n["f"]]
                if g.body:
                    r |= self.created_in(g, enter(ctx, n, g), depth + 1)
        return r

    def created_in(self, g, ctx, depth):
        r = set()
        if depth > 5:
            return r
        for n in g.calls():
            nm = call_name(n)
            if nm in CREATE:
                r |= self.resolve(n["a"][CREATE[nm][0]], ctx, depth + 1)
        if not r:
            for n in g.calls():
                h = self.p.fns.get(n.get("f"))
                if h is not None and h.body and "ompi_datatype_t" in (n.get("t") or "") and h.key not in ctx.stack():
                    r |= self.created_in(h, enter(ctx, n, h), depth + 1)
        return r


def go2(x, tv):
    if isinstance(x, tuple):
        if x[:1] == ("var",):
            tv.add(x[2])
        for y in x:
            go2(y, tv)


def flat(stmts):
    for s in stmts:
        if not s:
            continue
        yield s
        if s.get("k") in ("case", "default") and isinstance(s.get("body"), dict):
            yield from flat([s["body"]])
        elif s.get("k") == "seq":
            yield from flat(s["c"])


def mpi_const(c):
    r = find_in(c, lambda x: x[:1] == ("gvar",) and str(x[1]).split("::")[-1] in MPI_CONST)
    if r is None:
        return None
    if find_in(c, lambda x: x[:1] == ("enum",)) is not None:
        return None
    return MPI_CONST[str(r[1]).split("::")[-1]]


def compatible(t, d, reduction):
    if t == d:
        return True
    if t in W and d in W and W[t] == W[d]:
        # same size integers: the bits arrive unchanged, only ordering reductions see the sign
        return not reduction or t.replace("unsigned ", "") != t.replace("unsigned ", "") or t.startswith("unsigned") == d.startswith("unsigned")
    if t == "void":
        return True
    return False


def elem(e, ctx, p, depth=0):
    """element type of the buffer argument, None for MPI_IN_PLACE / null"""
    x = e
    while x is not None and x.get("k") in ("cast", "icast") and x.get("c"):
        x = x["c"][0]
    if x is None or x.get("k") in ("lit", "null_ptr", "zero"):
        return None
    t = (x.get("t") or "").strip()
    m = re.match(r"(.*?) ?\(\*\)\s*\[\d*\]$", t) or re.match(r"(.*?) ?\[\d*\]$", t)
    if m:
        return norm_type(m.group(1))
    t, y = pointee(x)
    if t in RAW and y is not None:
        # a parameter or local of raw type: the type behind the cast that initialised it
        if y.get("k") == "ref" and y.get("d") in ctx.bind:
            a, c2 = ctx.bind[y["d"]]
            return elem(a, c2, p, depth + 1)
        if y.get("k") == "ref":
            s = ctx.fn.single().get(y.get("d"))
            if s is not None and depth < 6:
                r = elem(s, ctx, p, depth + 1)
                return r if r is not None else t
        if y.get("k") == "call" and y.get("n") in ("reinterpret_cast",):
            return t
    if t is not None and t.startswith("std::array<"):
        t = norm_type(re.match(r"std::array<(.*), \d+>", t).group(1))
    return t


def run(env, rep):
    rep.rule = ("for each buffer argument of each communication or parallel-file call, in every instantiation: the element type of the buffer "
                "(behind casts) equals the element type the datatype argument denotes, where datatypes are resolved through the library's own "
                "table, constants and derived types; raw byte datatypes need a count scaled with the size of that very element and no arithmetic "
                "reduction; a custom reduction is instantiated for the buffer's element type; the count queried from a status uses the type of "
                "the transfer; the table maps every type to a datatype of exactly this type")
    rep.assumptions.append("integers of the same width and different signedness are accepted where only bits are transported")
    p = env.prog(False)
    ty = Types(p, rep)
    # table
    for t, (e, f) in sorted(ty.t2e.items()):
        m = ty.e2m.get(e, (None, None))[0]
        rep.count("table entries")
        if m is None or m == "refused":
            rep.violation("table|%s" % t, "element type %s is translated to %s, for which there is no communication datatype" % (t, e), f.where())
        elif not compatible(t, m, True):
            rep.violation("table|%s" % t, "element type %s is translated to %s, which is communicated as %s" % (t, e, m), f.where())
        else:
            rep.ok(("table", t), "%s -> %s -> %s" % (t, e, m))
    for e, (m, s) in sorted(ty.e2m.items()):
        nm = e.replace("type_", "", 1)
        want = {"double_complex": "std::complex<double>", "float_complex": "std::complex<float>", "long_long": "long"}.get(
            nm, norm_type(nm.replace("_", " ") if nm not in ("size_t",) and not nm.endswith("_t") else nm))
        want = {"int16_t": "short", "uint16_t": "unsigned short", "int8_t": "signed char", "uint8_t": "unsigned char"}.get(want, want)
        if m in (None, "refused") or e.startswith("("):
            continue
        rep.count("datatype names")
        if not compatible(want, m, True):
            rep.violation("name|%s" % e, "%s is communicated as %s" % (e, m), ty.conv.where(s))
        else:
            rep.ok(("name", e), None)
    # calls
    callers = p.callers()
    seen = set()
    for f in p.src_fns(("src/", "third_level_manager/")):
        if not f.body or "mpi_fault_simulator" in f.file:
            continue
        for n in f.calls():
            s = SIG.get(call_name(n))
            if s and s["bufs"]:
                site(p, ty, rep, f, n, s, callers)
            elif call_name(n) == "MPI_Get_count":
                getcount(p, ty, rep, f, n)
    rep.need("typed buffers", 80)
    rep.need("table entries", 8)


def site(p, ty, rep, f, n, s, callers):
    ctxs = [Ctx(f)]
    nm = call_name(n)
    red = nm in REDUCE
    for b, ci, di in s["bufs"]:
        if di >= len(n["a"]):
            continue
        for ctx in expand(p, f, [n["a"][b], n["a"][di]], callers):
            t = elem(n["a"][b], ctx, p)
            if t is None:
                continue
            cnt = canon(n["a"][ci], ctx)
            if cnt == ("lit", "0") or cnt == ("lit", 0):
                continue
            rep.count("typed buffers")
            ds = {norm_type(x) for x in ty.resolve(n["a"][di], ctx)}
            where = f.where(n)
            key = "%s|%s|%s|%s" % ("type", f.q, nm, text(n["a"][b])[:60])
            if not ds:
                rep.count("datatypes not resolved")
                rep.ok((f.key, n.get("l"), b), None)
                continue
            bad = None
            for d in sorted(ds):
                if d in RAW and t not in RAW:
                    if not any(x.replace(" ", "") == t.replace(" ", "") for x in sizeofs(cnt)):
                        bad = "holds %s but is described as %s without scaling the count by its size" % (t, d)
                    elif red:
                        op = canon(n["a"][s["op"]], ctx)
                        opn = str(find_in(op, lambda x: x[:1] == ("gvar",)))
                        if not any(x in opn for x in ("bor", "band", "bxor", "replace")):
                            bad = "holds %s but is reduced byte by byte" % t
                        elif d != "byte":
                            bad = "is reduced bitwise as %s, which supports no bitwise reduction" % d
                elif t in RAW and d not in RAW:
                    if t == "void":
                        continue
                    bad = "holds %s but is described as %s" % (t, d)
                elif t in RAW and d in RAW:
                    continue
                elif not compatible(t, d, red and ordering(canon(n["a"][s["op"]], ctx)) if red else False):
                    bad = "holds %s but is described as %s" % (t, d)
                if bad:
                    break
            if not bad and red and s.get("op") is not None:
                o = custom_op(f, n["a"][s["op"]], ctx)
                if o is not None and o != t:
                    bad = "holds %s but is reduced by an operator for %s" % (t, o)
            if bad:
                rep.violation(key, "the buffer %s of %s in %s %s" % (text(n["a"][b]), nm, f.q, bad), where,
                              trace=["reached from " + " <- ".join(ctx.stack_names()) if hasattr(ctx, "stack_names") else ""])
            else:
                rep.ok((f.key, n.get("l"), b), "%s: %s of %s is communicated as %s" % (where, text(n["a"][b])[:50], t, "/".join(sorted(ds))))


def ordering(op):
    s = str(op)
    return "max" in s or "min" in s


def custom_op(f, e, ctx):
    """element type a user defined operator was created for in this function"""
    x = strip(e)
    if x is None or x.get("k") != "ref":
        return None
    for c in f.calls():
        if call_name(c) == "MPI_Op_create":
            t = canon(c["a"][2], ctx)
            if find_in(t, lambda y: y[:1] == ("var",) and y[2] == x.get("d")) is not None:
                fr = strip(c["a"][0])
                for y in walk(c["a"][0]):
                    if y.get("k") == "fref" and y.get("ta"):
                        return norm_type(y["ta"][0])
    return None


def expand(p, f, args, callers, depth=0):
    """contexts to judge a call in: the callers' arguments where buffer or datatype is a raw parameter"""
    need = set()
    pars = {q["d"] if "d" in q else q.get("id"): i for i, q in enumerate(f.params)}
    for a in args:
        for x in walk(a):
            if x.get("k") == "ref" and x.get("d") in pars:
                t = f.params[pars[x["d"]]].get("t", "")
                if "ompi_datatype_t" in t or re.match(r"(const )?(void|char) ?(const )?\*", t):
                    need.add(x["d"])
    if not need or depth > 3:
        return [Ctx(f)]
    out = []
    for g, call in callers.get(f.key, []):
        if not g.body or "mpi_fault_simulator" in g.file:
            continue
        out.append(enter(Ctx(g), call, f))
    return out or [Ctx(f)]


def getcount(p, ty, rep, f, n):
    """MPI_Get_count(&status, type, &n): the type of the transfer that filled the status"""
    st = strip(n["a"][0])
    ids = {x.get("d") for x in walk(n["a"][0]) if x.get("k") == "ref"}
    ctx = Ctx(f)
    mine = {norm_type(x) for x in ty.resolve(n["a"][1], ctx)}
    if not mine:
        return
    for c in f.calls():
        s = SIG.get(call_name(c))
        if not s or c is n:
            continue
        last = c["a"][-1] if c.get("a") else None
        if last is None or not any(x.get("k") == "ref" and x.get("d") in ids for x in walk(last)):
            continue
        rep.count("queried counts")
        for b, ci, di in s["bufs"][-1:]:
            other = {norm_type(x) for x in ty.resolve(c["a"][di], ctx)}
            if other and other != mine:
                rep.violation("count|%s|%s" % (f.q, call_name(c)), "the count of a transfer of %s by %s is queried as %s in %s" %
                              ("/".join(sorted(other)), call_name(c), "/".join(sorted(mine)), f.q), f.where(n))
            else:
                rep.ok((f.key, n.get("l"), "count"), None)
