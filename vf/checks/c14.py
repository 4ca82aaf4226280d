"""C14: every combination variant is handled or refused everywhere it matters."""
from ..core import Ctx, canon, strip, walk, AnalysisError
from ..explore import Client, Explorer

VARIANTS = ("sparseGridReduce", "subspaceReduce", "outgroupSparseGridReduce", "chunkedOutgroupSparseGridReduce")
STEPS = ("distributedGlobalSparseGridReduce", "distributedGlobalSubspaceReduce", "reduceSubspaceSizes", "setSubspaceCommunicators",
         "setOutgroupCommunicator", "asyncBcastDsgData", "asyncBcastOutgroupDsgData", "copyDataFrom", "allocateDifferentSubspaces",
         "createKahanBuffer")
# steps every variant may perform in passing; not what distinguishes them
COMMON = {"createKahanBuffer"}
OWNERS = ("combigrid::SparseGridWorker", "combigrid::ProcessGroupWorker")
R = "refused"
SG, SU, OU, CH = VARIANTS
# what each operation has to do for each variant (steps that may be performed; R: none of them, and the error is raised)
def same(s):
    return {v: s for v in VARIANTS}


GR, SR, BC, BO, CP, AL = ("distributedGlobalSparseGridReduce", "distributedGlobalSubspaceReduce", "asyncBcastDsgData", "asyncBcastOutgroupDsgData",
                          "copyDataFrom", "allocateDifferentSubspaces")
SIZES = {SG: ["reduceSubspaceSizes"], SU: ["setSubspaceCommunicators"], OU: ["setOutgroupCommunicator"], CH: ["setOutgroupCommunicator"]}
SPEC = {
    "reduceLocalAndGlobal": {SG: [GR], SU: [SR], OU: [SR], CH: R},
    "reduceSubspaceSizesBetweenGroups": SIZES, "initCombinedUniDSGVector": SIZES, "initCombinedDSGVector": SIZES,
    "reduceExtraSubspaceSizes": SIZES, "reduceExtraSubspaceSizesFileBased": SIZES,
    "startSingleBroadcastDSGs": {SG: [BC], SU: R, OU: [BO], CH: R},
    "waitForThirdLevelCombiResult": {SG: [BC], SU: R, OU: [BO], CH: R},
    "writeDSGsToDisk": {SG: [CP], SU: R, OU: [CP], CH: []},
    "combineThirdLevelFileBasedWrite": {SG: [CP], SU: R, OU: [CP], CH: []},
    "combineAtOnce": {SG: [GR], SU: [SR], OU: [SR], CH: [SR, AL]},
    "combineSystemWide": {SG: [GR], SU: [SR], OU: [SR], CH: R},
    "combineSystemWideAndWrite": {SG: [GR, CP], SU: [SR], OU: [SR, CP], CH: [SR, AL, CP]},
    "combineThirdLevel": {SG: [BC, CP], SU: R, OU: [BO, CP], CH: R},
    "combineThirdLevelFileBasedReadReduce": {SG: [BC, CP], SU: R, OU: [BO, CP], CH: [BO, AL, CP]},
    "combineReadDistributeSystemWide": {SG: [BC, CP], SU: R, OU: [BO, CP], CH: [BO, AL, CP]},
    "combineThirdLevelFileBased": {SG: [BC, CP], SU: R, OU: [BO, CP], CH: [BO, AL, CP]},
}
# compensation buffers are made for exactly these variants when the sparse grids are set up
KAHAN = {"initCombinedUniDSGVector": (SG, SU, OU), "initCombinedDSGVector": (SG, SU, OU)}


def variant_of(c):
    """name of the enumerator of a canonical expression"""
    if isinstance(c, tuple) and c and c[0] == "enum":
        n = str(c[1]).split("::")[-1]
        return n if n in VARIANTS else None
    return None


class Steps(Client):
    def __init__(self, prog, rel, variant):
        self.prog, self.rel, self.variant = prog, rel, variant
        self.may, self.exc, self.exits = set(), False, 0

    def inline(self, fn, call, ctx):
        return fn.key in self.rel or (fn.is_lambda and fn.root().key in self.rel)

    def step(self, st, node, ctx, ex, facts):
        n = node.ast
        if node.kind == "op" and n.get("k") == "call":
            s = step_name(n)
            if s:
                return (st | {s},)
        return (st,)

    def edge(self, st, node, lab, ctx, ex, facts):
        if node.kind == "branch" and node.extra != "rfor" and lab in (True, False):
            w = self.decide(ex.canon(node.ast, ctx))
            if w is not None and w != lab:
                return None
            if w is not None:
                return st | {"?"}
        return st

    def decide(self, c):
        if c[0] == "un" and c[1] == "!":
            w = self.decide(c[2])
            return None if w is None else not w
        if c[0] == "bin" and c[1] in ("==", "!="):
            for x, y in ((c[2], c[3]), (c[3], c[2])):
                v = variant_of(x)
                if v is not None and variant_of(y) is None:
                    return (v == self.variant) == (c[1] == "==")
        if c[0] == "bin" and c[1] in ("||", "&&"):
            a, b = self.decide(c[2]), self.decide(c[3])
            if c[1] == "||":
                return True if a or b else (False if a is False and b is False else None)
            return False if a is False or b is False else (True if a and b else None)
        return None

    def switch_value(self, node, ctx, ex):
        for m, lab in node.succ:
            if isinstance(lab, tuple) and is_variant_switch(node):
                return VARIANTS.index(self.variant)
        return None

    def leave(self, st, kind, ctx, ex, node):
        if kind == "exit":
            self.exits += 1
            self.may |= st - {"?"}
        elif "?" in st:
            self.exc = True


def is_variant_switch(node):
    return "CombinationVariant" in str((node.ast.get("cond") or {}).get("t", "")) or any(
        variant_name(x) for x in walk(node.ast) if x.get("k") == "enum")


def variant_name(x):
    return str(x.get("q", "")).split("::")[-1] in VARIANTS


def step_name(n):
    nm = (n.get("n") or "").split("::")[-1]
    return nm if nm in STEPS else None


def relevance(p):
    """functions that perform steps or look at the variant, and everything that calls them"""
    rel, work = set(), []
    dispatch = set()
    for f in p.src_fns(("src/",)):
        if not f.body:
            continue
        d = any(n.get("k") == "enum" and variant_name(n) for n in f.nodes())
        if d:
            dispatch.add(f.key)
        if d or any(step_name(n) for n in f.calls()):
            rel.add(f.key)
            work.append(f)
    callers = p.callers()
    while work:
        f = work.pop()
        for g, _ in callers.get(f.key, []):
            h = g.root()
            if h.key not in rel and h.file.startswith("src/"):
                rel.add(h.key)
                work.append(h)
    return rel, dispatch


def behaviour(p, rel, f, v):
    cl = Steps(p, rel, v)
    ex = Explorer(p, cl)
    ex.KEEP = False
    ex.run(f, frozenset())
    return cl


class Values(Client):
    """records the calls of interest with the constants known on the path"""

    def __init__(self, want, inl, sw=None):
        self.want, self.inl, self.sw = want, inl, sw
        self.seen, self.exits, self.exc = set(), 0, 0
        self.ret = set()

    def inline(self, fn, call, ctx):
        return self.inl(fn)

    def step(self, st, node, ctx, ex, facts):
        n = node.ast
        if node.kind == "op" and n.get("k") == "call":
            nm = (n.get("n") or "").split("::")[-1]
            if nm in self.want:
                i = self.want[nm]
                v = ex.cnst(ex.value(n["a"][i], ctx, facts)) if i < len(n.get("a", [])) else None
                return (st | {(nm, v)},)
        return (st,)

    def switch_value(self, node, ctx, ex):
        return self.sw(node, ctx, ex) if self.sw else None

    def leave(self, st, kind, ctx, ex, node):
        if kind == "exit":
            self.exits += 1
            self.seen |= st
        else:
            self.exc += 1


class Ops(Client):
    """reduction operators used by an allreduce on paths that return"""

    def __init__(self):
        self.ops, self.exits = set(), 0

    def step(self, st, node, ctx, ex, facts):
        n = node.ast
        if node.kind == "op" and n.get("k") == "call" and (n.get("n") or "") in ("MPI_Allreduce", "MPI_Iallreduce"):
            t = repr(ex.canon(n["a"][4], ctx))
            o = [x for x in ("max", "min", "sum") if "mpi_op_" + x in t or "MPI_" + x.upper() in t]
            return (st | {o[0] if o else t},)
        return (st,)

    def inline(self, fn, call, ctx):
        return fn.root() is ctx.fn.root()

    def leave(self, st, kind, ctx, ex, node):
        if kind == "exit":
            self.exits += 1
            self.ops |= st or {"none"}


def bound(f, name_or_index, value):
    p = f.params[name_or_index]
    return {p["id"]: ({"k": "lit", "v": str(value), "l": 0, "t": "int"}, Ctx(f))}, frozenset({(("val", f.root().key, p["id"]), ("lit", str(value)))})


def norms(env, rep, p):
    signals = {}
    for f in p.src_fns(("src/",)):
        if f.q.split("::")[-1] == "getLpNorms" and f.cls == "combigrid::ProcessGroupManager" and f.body:
            sent = {}
            for v in (0, 1, 2, 3, -1):
                b, facts = bound(f, 0, v)
                cl = Values({"sendSignalToProcessGroup": 0}, lambda g: g.cls == "combigrid::ProcessGroupManager" and g.q.split("::")[-1] not in ("sendSignalToProcessGroup", "setProcessGroupBusyAndReceive"))
                Explorer(p, cl).run(f, frozenset(), facts, b)
                rep.count("norm selectors")
                if v in (3, -1):
                    if cl.exits or not cl.exc:
                        rep.violation("norm-refused|%s|%d" % (f.q, v), "there is no signal for the norm with p=%d but it is not refused" % v, f.where())
                    else:
                        rep.ok((f.key, v), "%s refuses p=%d" % (f.q, v))
                    continue
                s = {x for n, x in cl.seen if n == "sendSignalToProcessGroup"}
                if len(s) != 1 or None in s:
                    raise AnalysisError("no unique signal for p=%d in %s: %s" % (v, f.q, s))
                sent[v] = s.pop()
            signals[f.key] = (f, sent)
    for f in p.src_fns(("src/",)):
        if f.q.split("::")[-1] != "wait" or f.cls != "combigrid::ProcessGroupWorker" or not f.body:
            continue
        for _, (g, sent) in sorted(signals.items()):
            if g.key.count("complex") != f.key.count("complex"):
                continue
            for v, sig in sorted(sent.items()):
                cl = Values({"getLpNorm": 0, "getLpNorms": 0}, lambda h: h.q.split("::")[-1] in ("getLpNorms",) and h.file.startswith("src/") or h.is_lambda,
                            lambda node, ctx, ex: sig if any(isinstance(l, tuple) and str(l[1]) == str(sig) for _, l in node.succ) else None)
                Explorer(p, cl).run(f, frozenset())
                got = {x for n, x in cl.seen if n == "getLpNorm"} or {x for n, x in cl.seen if n == "getLpNorms"}
                rep.count("norm selectors")
                if got != {v}:
                    rep.violation("norm|%s|%d" % (f.q, v), "the manager asks for the norm with p=%d by signal %s, the worker computes %s" % (v, sig, sorted(map(str, got))), f.where())
                else:
                    rep.ok((f.key, v), "p=%d is asked for by signal %s, which computes p=%d" % (v, sig, v))
    for f in p.src_fns(("src/",)):
        if f.q.split("::")[-1] == "getLpNorm" and f.cls == "combigrid::DistributedFullGrid" and f.body:
            for v, want in ((-1, None), (0, {"max"}), (1, {"sum"}), (2, {"sum"})):
                b, facts = bound(f, 0, v)
                cl = Ops()
                Explorer(p, cl).run(f, frozenset(), facts, b)
                rep.count("norm selectors")
                if want is None and cl.exits:
                    rep.violation("norm-refused|%s|%d" % (f.q, v), "negative p is not refused", f.where())
                elif want is not None and cl.ops != want:
                    rep.violation("norm-op|%s|%d" % (f.q, v), "the norm with p=%d is combined over the ranks by %s instead of %s" % (v, sorted(cl.ops), sorted(want)), f.where())
                else:
                    rep.ok((f.key, v), "%s with p=%d: %s" % (f.q, v, "refused" if want is None else want))


MPI_OF = {"type_char": ("char",), "type_float": ("float",), "type_double": ("double",), "type_long_double": ("long_double",),
          "type_double_complex": ("c_double_complex", "dblcplex", "cxx_dblcplex", "double_complex"), "type_float_complex": ("c_float_complex", "c_complex", "cplex"),
          "type_long_long": ("long_long_int", "long_long"), "type_long": ("long",), "type_size_t": ("unsigned_long", "uint64_t", "unsigned_long_long"),
          "type_int16_t": ("int16_t",), "type_int32_t": ("int32_t",), "type_uint32_t": ("uint32_t",)}
CPP_OF = {"char": "type_char", "float": "type_float", "double": "type_double", "long double": "type_long_double", "std::complex<double>": "type_double_complex",
          "std::complex<float>": "type_float_complex", "long long": "type_long_long", "long": "type_long", "unsigned long": "type_size_t",
          "unsigned int": "type_uint32_t", "int": "type_int32_t", "short": "type_int16_t"}


class Ret(Client):
    def __init__(self):
        self.rets, self.exits, self.exc = set(), 0, 0

    def inline(self, fn, call, ctx):
        return fn.file.startswith("src/")

    def step(self, st, node, ctx, ex, facts):
        if node.kind == "ret" and node.ast.get("e") is not None:
            return (ex.value(node.ast["e"], ctx, facts),)
        return (st,)

    def leave(self, st, kind, ctx, ex, node):
        if kind == "exit":
            self.exits += 1
            self.rets.add(st)
        else:
            self.exc += 1


def names_in(c):
    if isinstance(c, str):
        yield c
    elif isinstance(c, tuple):
        for x in c:
            yield from names_in(x)


def datatypes(env, rep, p):
    import re
    for f in p.src_fns(("src/",)):
        nm = f.q.split("::")[-1]
        if nm == "getMPIDatatype" and f.body and len(f.params) == 1:
            vals = enum_values(p)
            if len(vals) < 10:
                raise AnalysisError("the enumeration of element datatypes was not found")
            for e, v in sorted(vals.items()):
                b, facts = bound(f, 0, v)
                cl = Ret()
                Explorer(p, cl).run(f, (), facts, b)
                rep.count("element datatypes")
                if e == "type_unknown":
                    if cl.exits:
                        rep.violation("datatype-refused|%s|%s" % (f.q, e), "an unknown element type is not refused", f.where())
                    else:
                        rep.ok((f.key, e), "%s refuses type_unknown" % f.q)
                    continue
                got = set()
                for r in cl.rets:
                    got |= {re.sub("^ompi_mpi_|^MPI_", "", x).lower() for x in names_in(r) if x.startswith(("ompi_mpi_", "MPI_"))} or {"nothing"}
                if not cl.exits and cl.exc:
                    rep.ok((f.key, e), "%s refuses %s" % (f.q, e))
                elif not got <= set(MPI_OF.get(e, ())) or not got:
                    rep.violation("datatype|%s|%s" % (f.q, e), "%s is mapped to %s" % (e, ", ".join(sorted(got)) or "nothing"), f.where())
                else:
                    rep.ok((f.key, e), "%s: %s -> %s" % (f.q, e, ", ".join(sorted(got))))
        m = re.search("getabstractionDataType<(.*)>$", f.key.split("(")[0]) if nm.startswith("getabstractionDataType") else None
        if m and f.body:
            t = m.group(1).replace("std::__cxx11::", "").strip()
            cl = Ret()
            Explorer(p, cl).run(f, ())
            got = {str(r[1]).split("::")[-1] for r in cl.rets if r and r[0] == "enum"}
            rep.count("element datatypes")
            if cl.exits and got != {CPP_OF.get(t)}:
                rep.violation("type|%s|%s" % (f.q, t), "the element type %s is taken for %s" % (t, ", ".join(sorted(got)) or "nothing"), f.where())
            else:
                rep.ok(f.key, "%s: %s" % (t, ", ".join(sorted(got)) or "refused"))


def enum_values(p):
    r = {}
    for f in p.src_fns(("src/",)):
        for n in f.nodes():
            if n.get("k") == "enum" and str(n.get("q", "")).split("::")[-1].startswith("type_"):
                r[str(n["q"]).split("::")[-1]] = n.get("cv")
    return r


def run(env, rep):
    rep.rule = ("for each operation and each value of the combination variant the function is explored with that value decided at every comparison and switch (helpers inlined); the steps it may perform are exactly those "
                "specified for the pair, and refused pairs end in an exception without performing any; "
                "each element datatype either yields the datatype meant for it or an error; norm selectors map to the signal, and signals to the norm, meant for them, all others are refused")
    p = env.prog(False)
    rel, dispatch = relevance(p)
    rep.count("functions that distinguish variants", len(dispatch))
    seen = set()
    for f in sorted(p.src_fns(("src/",)), key=lambda f: f.key):
        nm = f.q.split("::")[-1]
        if not f.body or f.cls not in OWNERS or nm not in SPEC or f.key not in rel:
            continue
        seen.add(nm)
        for v in VARIANTS:
            want = SPEC[nm][v]
            cl = behaviour(p, rel, f, v)
            rep.count("operation/variant pairs")
            got = cl.may - COMMON
            if want == R:
                if got or not cl.exc:
                    rep.violation("refuse|%s|%s" % (f.q, v), "%s has to be refused but %s" % (v, "performs " + ", ".join(sorted(got)) if got else "is silently accepted"), f.where())
                    continue
            elif got != set(want):
                miss, extra = set(want) - got, got - set(want)
                rep.violation("steps|%s|%s" % (f.q, v), "for %s: %s%s" % (v, "never performs " + ", ".join(sorted(miss)) if miss else "",
                                                                      (" and " if miss and extra else "") + ("performs " + ", ".join(sorted(extra)) if extra else "")), f.where())
                continue
            elif nm in KAHAN and ("createKahanBuffer" in cl.may) != (v in KAHAN[nm]):
                rep.violation("kahan|%s|%s" % (f.q, v), "for %s the compensation buffer is %s" % (v, "never created" if v in KAHAN[nm] else "created"), f.where())
                continue
            rep.ok((f.key, v), "%s with %s: %s" % (f.q, v, want if want == R else ", ".join(sorted(want)) or "no variant-specific step"))
    for nm in sorted(set(SPEC) - seen):
        rep.count("specified operations not found")
    norms(env, rep, p)
    datatypes(env, rep, p)
    rep.need("operation/variant pairs", 60)
    rep.need("norm selectors", 10)
    rep.need("element datatypes", 20)
    rep.assumptions = ["the table of steps per variant is the one documented with the enumeration (CombinationVariant) and was reviewed against the code",
                       "steps inside a loop over grids are taken to be performed (there is at least one grid)"]


def table(env):
    p = env.prog(False)
    rel, dispatch = relevance(p)
    out = {}
    for f in p.src_fns(("src/",)):
        if f.body and f.cls in OWNERS and f.key in rel and "<double>" in f.key:
            nm = f.q.split("::")[-1]
            r = {}
            for v in VARIANTS:
                try:
                    cl = behaviour(p, rel, f, v)
                    r[v] = (sorted(cl.may), cl.exc)
                except AnalysisError as e:
                    r[v] = str(e)
            out[nm] = r
    return out
