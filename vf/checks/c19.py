"""C19: sizes, offsets and byte counts are computed in full width."""
import re
from ..core import Ctx, canon, show, strip, text, walk, subnodes
from ..mpi import norm_type, find_in

W = {"int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "char": 8, "unsigned char": 8, "signed char": 8,
     "short": 16, "unsigned short": 16}
FW = {"float": 24, "double": 53, "long double": 64}
FOLD = {"std::accumulate": 1, "std::reduce": 1, "std::transform_reduce": None, "std::inner_product": 2, "std::exclusive_scan": 2}
MEMF = {"memset": (0, None, 2), "memcpy": (0, 1, 2), "memmove": (0, 1, 2)}


# names of functions that give sizes of the data (not counts of ranks, groups, dimensions or grids)
LARGE = re.compile(r"(DataSize|[nN]umElements\w*|NumDOFs|FileSize|getNumElements\w*|getAllocated\w*)$")


def width(t):
    return W.get(norm_type(t or ""))


def elem_of_iter(t):
    m = re.search(r"__normal_iterator<([^,]+?) ?\*", t) or re.search(r"_Deque_iterator<([^,]+),", t) or \
        re.search(r"_(?:Rb_tree|List|Fwd_list)\w*iterator<([\w: ]+)>", t) or re.match(r"([\w: ]+?) ?\*", t)
    return norm_type(m.group(1)) if m else None


def narrower(a, b):
    """True if the arithmetic type a cannot hold the values of b"""
    a, b = norm_type(a), norm_type(b)
    if a in W and b in W:
        return W[a] < W[b]
    if a in W and b in FW:
        return True
    if a in FW and b in FW:
        return FW[a] < FW[b]
    return False


def pointee(e):
    """element type behind a pointer expression, ignoring casts to void/char pointers"""
    while e is not None and e.get("k") in ("cast", "icast") and e.get("c"):
        e = e["c"][0]
    t = (e or {}).get("t", "").strip()
    if t.endswith("*const"):
        t = t[:-5].strip()
    return (norm_type(t[:-1]) if t.endswith("*") else None), e


def sizeofs(c):
    r = []

    def go(x):
        if not isinstance(x, tuple):
            return
        if x and x[0] == "sizeof":
            r.append(norm_type(x[1]))
        for y in x[1:]:
            go(y)
    go(c)
    return r


def container(c):
    """container whose data()/begin address c denotes, or whose size() it is"""
    if isinstance(c, tuple) and c[:1] == ("call",) and str(c[1]).rsplit("::", 1)[-1] in ("data", "size") and len(c) > 2 and \
            isinstance(c[2], tuple) and c[2][0] == "obj":
        return c[2][1]
    return None


def factors(c):
    if isinstance(c, tuple) and c[:2] == ("bin", "*"):
        return factors(c[2]) + factors(c[3])
    return [c]


def lvroot(e):
    """(kind, name) of the variable or field an lvalue belongs to"""
    e = strip(e)
    while e is not None:
        k = e.get("k")
        if k == "call" and (e.get("op") in ("[]", "*") or str(e.get("n", "")).rsplit("::", 1)[-1] in ("at", "front", "back")) and e.get("obj"):
            e = strip(e["obj"])
        elif k in ("sub", "un") and e.get("c"):
            e = strip(e["c"][0])
        elif k == "mem":
            return ("field", e.get("cls", ""), e["n"])
        elif k == "ref" and "d" in e:
            return ("var", e["d"])
        else:
            return None
    return None


LIM = re.compile(r"std::numeric_limits(<.*>)?::(min|max|lowest|infinity)$")


def limit_in(e):
    for n in walk(e):
        if n.get("k") == "call":
            m = LIM.match(n.get("n") or "")
            if m:
                neg = False
                return m.group(2), n.get("t", ""), n
    return None


def run(env, rep):
    rep.rule = ("(fold) std::accumulate/reduce/inner_product/exclusive_scan start with a value whose type is as wide as the elements, as the "
                "operator's type and as the integer the result is stored in; (sum) a compound assignment does not implicitly cut a wider "
                "right-hand side off; (cut) no 64 bit sum is implicitly stored in or returned as a narrower integer; (widen) no product and no loop sum is computed in 32 bit and then used as a 64 bit number; (bytes) byte "
                "counts of memset/memcpy/memmove use sizeof the element really stored there and the element count of that very container; "
                "(limit) a maximum search starts from lowest()/-infinity(), a minimum search from max()/infinity()")
    rep.assumptions.append("sums whose accumulator has the type of the summands are accepted unless the result is widened afterwards")
    seen = set()
    for dbg in (False, True):
        p = env.prog(dbg)
        fns = [f for f in p.src_fns(("src/", "third_level_manager/")) if f.body]
        for f in fns:
            one(f, rep, seen, dbg)
            if not dbg:
                limits(f, rep, seen)
    rep.need("fold", 10)
    rep.need("bytes", 8)
    rep.need("sum", 10)


class Site:
    """one obligation: counted once per construct, discharged unless a violation is reported for it"""
    cur = None

    def __init__(self, rep, seen, what, f, n):
        self.rep, self.f, self.n, self.what = rep, f, n, what
        k = (what, f.key, n.get("l"), text(n)[:80])
        self.new = k not in seen
        if self.new:
            seen.add(k)
            rep.count(what)

    def done(self, bad, sample):
        """bad: list of (detail, message)"""
        if not self.new:
            return
        for d, m in bad:
            self.rep.violation("%s|%s|%s" % (self.what, self.f.q, d), m, self.f.where(self.n))
        if not bad:
            self.rep.ok((self.what, self.f.key, self.n.get("l")), "%s: %s" % (self.f.where(self.n), sample))


def parents(f):
    par = {}
    st = [f.body]
    while st:
        x = st.pop()
        for c in subnodes(x):
            if isinstance(c, dict):
                par[id(c)] = x
                st.append(c)
    return par


def one(f, rep, seen, dbg):
    ctx = Ctx(f)
    par = None
    loopsum = {}
    for n in f.nodes():
        k = n.get("k")
        nm = n.get("n") or ""
        if k == "call" and nm in FOLD and n.get("ta"):
            ta = n["ta"]
            el = elem_of_iter(ta[0])
            init = next((t for t in ta[1:] if norm_type(t) in W or norm_type(t) in FW), None)
            if nm == "std::exclusive_scan" and len(ta) > 2:
                init = ta[2]
            if init is None:
                continue
            site = Site(rep, seen, "fold", f, n)
            bad = []
            wants = [(el, "its elements")] if el else []
            for t in ta[2:]:
                m = re.match(r"std::(plus|multiplies)<(.+)>$", t)
                if m and norm_type(m.group(2)) in W:
                    wants.append((m.group(2), "its operator"))
            if par is None:
                par = parents(f)
            d = dest_type(n, par, f)
            if d and nm != "std::exclusive_scan" and norm_type(init) in W and norm_type(d) in W:
                wants.append((d, "what its result is stored in"))
            for t, why in wants:
                if narrower(init, t):
                    bad.append((text(n["a"][0]) if n.get("a") else "",
                                "%s in %s starts with a value of type %s, narrower than %s (%s)" % (nm, f.q, init, why, norm_type(t))))
                    break
            site.done(bad, "%s in %s" % (nm, init))
        elif k == "call" and nm in ("MPI_Exscan", "MPI_Scan", "MPI_Allreduce", "MPI_Reduce", "MPI_Iallreduce", "MPI_Ireduce"):
            reduced(f, n, rep, seen)
        elif k == "call" and nm.replace("std::", "") in MEMF and n.get("a"):
            di, si, ni = MEMF[nm.replace("std::", "")]
            a = n["a"]
            if len(a) <= ni:
                continue
            dt, de = pointee(a[di])
            st_, se = pointee(a[si]) if si is not None else (None, None)
            c = canon(a[ni], ctx)
            so = sizeofs(c)
            site = Site(rep, seen, "bytes", f, n)
            bad = []
            ok_types = {t for t in (dt, st_) if t}
            raw = {"char", "unsigned char", "void", "byte", "signed char"}
            if ok_types and not (ok_types <= raw):
                typed = ok_types - raw
                if so and not any(_same(s, t) for s in so for t in typed):
                    bad.append((text(a[di]), "byte count %s in %s uses sizeof(%s) although the memory holds %s" %
                                (show(c), f.q, so[0], sorted(typed)[0])))
                elif not so and c[0] not in ("lit",) and container(c) is not None:
                    bad.append((text(a[di]), "byte count %s in %s counts elements of type %s, not bytes" % (show(c), f.q, sorted(typed)[0])))
            dc = container(canon(a[di], ctx))
            if dc is not None:
                for x in factors(c):
                    cc = container(x)
                    if cc is not None and cc != dc:
                        bad.append((text(a[di]), "byte count %s in %s is that of another container than %s" % (show(c), f.q, show(dc))))
            site.done(bad, "%s bytes" % show(c))
        elif k == "asg" and n.get("op") in ("+=", "-=", "*="):
            a, b = n["c"]
            wa = width(a.get("t"))
            x = b
            if x.get("k") == "icast":
                x = x["c"][0]
            wb = width(x.get("t"))
            if wa and wb and x.get("k") not in ("cast", "lit", "enum") and b.get("cv") is None and x.get("cv") is None:
                site = Site(rep, seen, "sum", f, n)
                bad = []
                if wa < wb and wb >= 64:
                    bad.append((text(a), "%s in %s adds a %s to a %s" % (text(n), f.q, norm_type(x["t"]), norm_type(a["t"]))))
                site.done(bad, text(n))
            if wa == 32 and wb and n["op"] == "+=" and strip(a).get("k") == "ref" and strip(b).get("v") not in ("1", "2", 1, 2):
                loopsum.setdefault(strip(a).get("d"), n)
        elif k == "icast" and width(n.get("t")) == 64 and n.get("c"):
            e = n["c"][0]
            if e.get("k") == "bin" and e["op"] in ("*", "<<") and width(e.get("t")) == 32 and e.get("cv") is None:
                Site(rep, seen, "widen", f, n).done(
                    [(text(e), "%s in %s is multiplied in 32 bit and then used as a 64 bit number" % (text(e), f.q))], "")
    # 64 bit sums that are cut off when they are returned or stored
    acc = None
    for n in f.nodes():
        k = n.get("k")
        tops = [n.get("e")] if k == "return" else [n["c"][1]] if k == "asg" and n.get("op") == "=" else \
            [v.get("init") for v in n["vars"]] if k == "decl" else []
        for x in tops:
            if x is None or x.get("k") != "icast" or x.get("cv") is not None or not x.get("c"):
                continue
            e = x["c"][0]
            a, b = width(x.get("t")), width(e.get("t"))
            if not (a and b == 64 and a < b) or e.get("cv") is not None:
                continue
            if acc is None:
                acc = accumulators(f)
            if any(is_sum(f.prog, y, acc) for y in walk(e, lambdas=False)):
                Site(rep, seen, "cut", f, n).done(
                    [(text(e)[:60], "the 64 bit sum %s in %s is stored in a %s" % (text(e), f.q, norm_type(x["t"])))], "")
    # sizes of the data that go through a narrow local on their way to a 64 bit number
    narrow = {}
    for n in f.nodes():
        for v in n["vars"] if n.get("k") == "decl" else ():
            i = v.get("init")
            if i is None or i.get("k") != "icast" or not i.get("c") or i.get("cv") is not None:
                continue
            if (width(v.get("t")) or 64) < 64 and width(i["c"][0].get("t")) == 64 and \
                    any(y.get("k") == "call" and LARGE.search(y.get("n") or "") for y in walk(i, lambdas=False)):
                narrow[v["id"]] = (v, n)
    if narrow:
        for n in f.nodes():
            if n.get("k") == "icast" and width(n.get("t")) == 64 and n.get("c"):
                e = strip(n["c"][0])
                if e is not None and e.get("k") == "ref" and e.get("d") in narrow:
                    v, d = narrow.pop(e["d"])
                    Site(rep, seen, "narrow", f, d).done(
                        [(v["n"], "%s in %s holds the 64 bit size %s in a %s and is used as a 64 bit number again" %
                          (v["n"], f.q, text(v["init"]), norm_type(v["t"])))], "")
    # sums in a 32 bit local that are used as 64 bit numbers
    if loopsum:
        inloop = set()

        def mark(s, inl):
            if not isinstance(s, dict):
                return
            if inl:
                inloop.add(id(s))
            l = inl or s.get("k") in ("for", "rfor", "while", "do")
            for c in subnodes(s):
                mark(c, l)
        mark(f.body, False)
        for n in f.nodes():
            if n.get("k") == "icast" and width(n.get("t")) == 64 and n.get("c"):
                e = strip(n["c"][0])
                if e is not None and e.get("k") == "ref" and e.get("d") in loopsum and id(loopsum[e["d"]]) in inloop:
                    s = loopsum[e["d"]]
                    # an index into a container is not a sum that is handed on
                    if par is None:
                        par = parents(f)
                    q = par.get(id(n))
                    if q is not None and (q.get("k") == "sub" or q.get("op") == "[]" or q.get("k") == "bin" and not remaining(q, n)):
                        continue
                    Site(rep, seen, "widen", f, s).done(
                        [(e.get("n"), "%s in %s sums up in 32 bit although the result is used as a 64 bit number" % (text(s), f.q))], "")


def remaining(q, n):
    """the sum is subtracted from a 64 bit quantity: what is left of it"""
    return q.get("op") == "-" and q["c"][1] is n and width(q["c"][0].get("t")) == 64 and q["c"][0].get("k") != "icast" and q["c"][0].get("cv") is None


def reduced(f, n, rep, seen):
    """the summands of a scan or reduction are not cut off before they are summed up"""
    a = n.get("a", [])
    if not any("mpi_op_sum" in repr(strip(x)) or strip(x).get("n") == "MPI_SUM" for x in a if isinstance(strip(x), dict)):
        return
    e = strip(a[0])
    if e is None or e.get("k") != "un" or e.get("op") != "&":
        return
    e = strip(e["c"][0])
    if e is None or e.get("k") != "ref" or width(e.get("t")) != 32:
        return
    v = f.vars().get(e.get("d")) or {}
    srcs = [v["init"]] if v.get("init") is not None else []
    srcs += [m["c"][1] for m in f.nodes() if m.get("k") == "asg" and strip(m["c"][0]).get("k") == "ref" and strip(m["c"][0]).get("d") == e.get("d")]
    site = Site(rep, seen, "reduced", f, n)
    bad = []
    for s in srcs:
        x = s
        while x is not None and x.get("k") in ("cast", "icast") and x.get("c"):
            x = x["c"][0]
        if x is not None and width(x.get("t")) == 64 and x.get("cv") is None:
            bad.append((text(s)[:60], "%s in %s sums up %s, which was cut down to 32 bit before" % (n.get("n"), f.q, text(x))))
            break
    site.done(bad, "summands of %s" % n.get("n"))


def accumulators(f):
    """64 bit locals that are summed up or multiplied with +=, *="""
    r = set()
    for n in f.nodes():
        if n.get("k") == "asg" and n.get("op") in ("+=", "*=") and width(n["c"][0].get("t")) == 64:
            e = strip(n["c"][0])
            if e is not None and e.get("k") == "ref" and "d" in e and n["c"][1].get("cv") is None:
                r.add(e["d"])
    return r


_SUMF = {}


def is_sum(p, e, acc, depth=0):
    if e.get("k") == "ref":
        return e.get("d") in acc
    if e.get("k") != "call":
        return False
    if e.get("n") in FOLD:
        return True
    g = p.fns.get(e.get("f"))
    if g is None or not g.body or depth > 4 or width(e.get("t")) != 64:
        return False
    if (id(p), g.key) not in _SUMF:
        _SUMF[(id(p), g.key)] = False
        a = accumulators(g)
        _SUMF[(id(p), g.key)] = any(n.get("k") == "return" and n.get("e") and
                                    any(is_sum(p, y, a, depth + 1) for y in walk(n["e"], lambdas=False)) for n in g.nodes())
    return _SUMF[(id(p), g.key)]


def _same(a, b):
    return a.replace(" ", "") == b.replace(" ", "")


def dest_type(n, par, f):
    """declared integer type the value of n is stored in or returned as (through implicit conversions only)"""
    x = n
    q = par.get(id(x))
    t = None
    while q is not None and q.get("k") == "icast":
        t = q.get("t")
        x, q = q, par.get(id(q))
    if q is not None and (q.get("k") in ("decl", "return") or (q.get("k") == "asg" and q["c"][1] is x)):
        return t
    return None


def limits(f, rep, seen):
    """objects that std::max/std::min searches accumulate into, and what they start from"""
    tg = {}
    for n in f.nodes():
        if n.get("k") == "asg" and n.get("op") == "=" or (n.get("k") == "call" and n.get("op") == "=" and n.get("obj")):
            lhs = n["c"][0] if n.get("k") == "asg" else n["obj"]
            rhs = strip(n["c"][1] if n.get("k") == "asg" else n["a"][0])
            if rhs is not None and rhs.get("k") == "call" and rhs.get("n") in ("std::max", "std::min") and len(rhs.get("a", [])) == 2:
                r = lvroot(lhs)
                if r is not None and any(lvroot(a) == r for a in rhs["a"]):
                    tg.setdefault(r, []).append((rhs["n"][5:], n))
    if not tg:
        return
    cls = f.cls
    scope = [f] if not cls else [g for g in f.prog.src_fns(("src/",)) if g.body and g.d.get("clsq") == cls and
                                 g.d.get("cls") == f.d.get("cls")]
    for r, uses in tg.items():
        kinds = {u[0] for u in uses}
        if len(kinds) != 1:
            continue
        kind = kinds.pop()
        for g in ([f] if r[0] == "var" else scope):
            for n in g.nodes():
                val = None
                if n.get("k") == "decl":
                    for v in n["vars"]:
                        if r == ("var", v.get("d", v.get("id"))) and v.get("init"):
                            val = v["init"]
                elif n.get("k") == "call" and n.get("obj") and str(n.get("n", "")).rsplit("::", 1)[-1] in ("resize", "assign") and \
                        lvroot(n["obj"]) == r and len(n.get("a", [])) == 2:
                    val = n["a"][1]
                elif n.get("k") == "call" and n.get("n") in ("std::fill", "std::fill_n") and n.get("a"):
                    b = strip(n["a"][0])
                    if b is not None and b.get("k") == "call" and b.get("obj") and lvroot(b["obj"]) == r:
                        val = n["a"][-1]
                elif n.get("k") == "asg" and n.get("op") == "=" and lvroot(n["c"][0]) == r:
                    val = n["c"][1]
                    if any(x.get("n") in ("std::max", "std::min") for x in walk(val) if x.get("k") == "call"):
                        val = None
                if val is None:
                    continue
                lim = limit_in(val)
                if lim is None:
                    continue
                which, t, ln = lim
                neg = any(x.get("k") == "un" and x.get("op") == "-" for x in walk(val))
                fl = norm_type(t) in FW
                low = which == "lowest" or (which == "min" and not fl) or (neg and which in ("max", "infinity"))
                high = which in ("max", "infinity") and not neg
                bad = []
                if (kind == "max" and not low) or (kind == "min" and not high):
                    bad.append((r[-1] if r[0] == "field" else which, "the search for a %simum in %s starts from %s%s of %s" %
                                (kind, g.q, "-" if neg else "", which, norm_type(t))))
                Site(rep, seen, "limit", g, ln).done(bad, "%simum search starts from %s" % (kind, which))
