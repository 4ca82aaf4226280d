"""C09: objects sent between processes arrive complete."""
import re
from ..core import Ctx, canon, strip, text, walk, subnodes
from ..mpi import norm_type

# members that are deliberately not transmitted: reason, and the method that sets them on the receiving side
MANAGER_ONLY = {("combigrid::CombiParameters", "levelsToIDs_"): "derived from levels_, used by the manager only",
                ("combigrid::CombiParameters", "combiDictionary_"): "derived from levels_ and coeffs_, used by the manager only"}
REBUILT = {("combigrid::WeibullFaults", "t_fault_"): "init", ("combigrid::WeibullFaults", "startTimeIteration_"): "init"}
RECEIVERS = ("combigrid::ProcessGroupWorker", "combigrid::TaskWorker", "combigrid::SparseGridWorker")
ARCH = re.compile(r"boost::archive::(text|binary|xml|polymorphic_\w+)_?(w?[io])archive")


def operands(f, prog, depth=0):
    """(expression, conditional) streamed to/from the archive parameter, in order"""
    out = []

    def arch_param(g):
        return {q.get("d", q.get("id")) for q in g.params if "archive" in q.get("t", "")}
    ids = arch_param(f)
    for n in walk(f.body):
        if n.get("k") == "lambda":
            ids |= {q.get("d", q.get("id")) for q in n.get("params", []) if "archive" in q.get("t", "") or "auto" in q.get("t", "") or
                    "type-parameter" in q.get("t", "")}

    def rooted(e):
        e = strip(e)
        while e is not None and e.get("op") in ("&", "<<", ">>") and e.get("k") in ("call", "bin"):
            e = strip((e.get("obj") or e["a"][0]) if e["k"] == "call" else e["c"][0])
        return e is not None and e.get("k") == "ref" and e.get("d") in ids

    def go(n, cond):
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "call" and n.get("op") in ("&", "<<", ">>"):
            l = n.get("obj") or n["a"][0]
            r = n["a"][-1]
            if rooted(l):
                go(l, cond)
                out.append((r, cond))
                return
        if k == "bin" and n.get("op") in ("&", "<<", ">>") and rooted(n["c"][0]):
            go(n["c"][0], cond)
            out.append((n["c"][1], cond))
            return
        if k == "call" and n.get("f") in prog.fns and not prog.fns[n["f"]].is_lambda and depth < 4 and any(rooted(a) for a in n.get("a", [])):
            g = prog.fns[n["f"]]
            if g.body and g.key != f.key:
                for e, c in operands(g, prog, depth + 1):
                    out.append((e, c or cond))
                return
        sub = cond or k in ("if", "for", "while", "do", "switch", "cond", "try")
        if k == "if" and n.get("cond"):
            go(n["cond"], cond)
            go(n.get("then"), not constexpr_true(n))
            go(n.get("else"), True)
            return
        for c in subnodes(n):
            go(c, sub)
    go(f.body, False)
    return out


def constexpr_true(n):
    c = strip(n["cond"])
    return c is not None and str(c.get("cv", c.get("v"))) in ("1", "true")


def run(env, rep):
    rep.rule = ("every non-static data member of a class with a serialize function is streamed unconditionally, and so is each base class that "
                "has state; a member that is not streamed is never read by code reachable from the receiving side (or is one of the listed "
                "members the receiving side sets itself); separate save/load functions stream the same members in the same order; all archives "
                "an object type is written to and read from are of one kind; every class serialized through a base pointer is exported under a "
                "name of its own")
    p = env.prog(False)
    # what the receiving side can execute
    reach = receiver_reach(p)
    rep.count("functions reachable on the receiving side", len(reach))
    classes = {}
    for f in p.fns.values():
        if f.body and f.cls and f.file.startswith("src/") and f.name in ("serialize", "save", "load") and \
                any("archive" in q.get("t", "") for q in f.params):
            classes.setdefault(f.cls, {}).setdefault(f.d.get("cls"), {}).setdefault(f.name, []).append(f)
    for cq, insts in sorted(classes.items()):
        for ct, fs in sorted(insts.items()):
            one(p, rep, cq, ct, fs, classes, reach)
    # archives
    kinds = {}
    for f in p.src_fns(("src/",)):
        if not f.body:
            continue
        for n in f.nodes():
            if n.get("k") == "call" and n.get("op") in ("<<", ">>") and (n.get("obj") or len(n.get("a", [])) > 1):
                l = strip(n.get("obj") or n["a"][0])
                m = ARCH.search((l or {}).get("t", ""))
                if m:
                    t = norm_type(re.sub(r"\bconst\b", "", n["a"][-1].get("t", "")).replace(" *", "*").replace("  ", " ")).strip()
                    kinds.setdefault(t, {}).setdefault(m.group(1), []).append((f, n))
    for t, ks in sorted(kinds.items()):
        rep.count("transmitted types")
        if len(ks) > 1:
            (k1, s1), (k2, s2) = sorted(ks.items(), key=lambda x: -len(x[1]))[:2]
            rep.violation("archive|%s|%s" % (t, s2[0][0].q), "%s is written or read as %s archive in %s but as %s archive in %s" %
                          (t, k2, s2[0][0].q, k1, s1[0][0].q), s2[0][0].where(s2[0][1]))
        else:
            rep.ok(("archive", t), "%s: all %d archives are %s" % (t[:60], sum(map(len, ks.values())), list(ks)[0]))
    exports(p, rep)
    rep.need("members", 30)
    rep.need("transmitted types", 3)
    rep.need("exported classes", 6)


def receiver_reach(p):
    st = [f for f in p.fns.values() if f.cls in RECEIVERS and f.body]
    seen = {f.key for f in st}
    while st:
        f = st.pop()
        for n in f.calls():
            for g in p.callees(n):
                if g.key not in seen and g.body:
                    seen.add(g.key)
                    st.append(g)
        for n in f.nodes():
            g = p.fns.get(n.get("f")) if n.get("k") == "lambda" else None
            if g is not None and g.key not in seen:
                seen.add(g.key)
                st.append(g)
    return seen


def field_of(e):
    e = strip(e)
    while e is not None and e.get("k") in ("un", "call", "ctor", "cast"):
        if e.get("k") == "call":
            if not e.get("a") and not e.get("obj"):
                return None
            e = strip(e.get("obj") or e["a"][-1])
        elif e.get("k") == "ctor":
            e = strip(e["a"][0]) if e.get("a") else None
        else:
            e = strip(e["c"][0])
    if e is not None and e.get("k") == "mem":
        b = strip(e.get("b"))
        if b is not None and b.get("k") == "this":
            return e["n"]
        return field_of(e.get("b")) if b is not None and b.get("k") == "mem" else e["n"]
    return None


def base_of(e):
    for n in walk(e):
        if n.get("k") == "call" and n.get("n") == "boost::serialization::base_object":
            return (n.get("ta") or [n.get("t", "")])[0]
    e = strip(e)
    if e is not None and e.get("k") == "un" and e.get("op") == "*" and strip(e["c"][0]).get("k") == "this":
        return e.get("t")
    return None


def one(p, rep, cq, ct, fs, classes, reach):
    rec = p.recs.get(ct)
    if rec is None:
        return
    main = fs.get("serialize") or fs.get("save")
    f = main[0]
    ops = operands(f, p)
    if "save" in fs and "load" in fs:
        a = [field_of(e) or base_of(e) or text(e) for e, _ in operands(fs["save"][0], p)]
        b = [field_of(e) or base_of(e) or text(e) for e, _ in operands(fs["load"][0], p)]
        rep.count("save/load pairs")
        if a != b:
            rep.violation("order|%s" % cq, "%s::save writes %s but load reads %s" % (cq, a, b), f.where())
        ops = operands(fs["save"][0], p)
    elif "serialize" in fs and not ops and ("save" in fs or "load" in fs):
        return
    done, cond = set(), set()
    bases = set()
    for e, c in ops:
        b = base_of(e)
        if b:
            bases.add(re.sub(r"\bconst\b|[&* ]", "", b).split("<")[0])
        n = field_of(e)
        if n:
            (cond if c else done).add(n)
    if cq == "combigrid::FullGrid":
        skip = {"basis_": "passed to the constructor that reads the file"}
    else:
        skip = {}
    for x in rec["fields"]:
        n = x["n"]
        if x.get("static"):
            continue
        rep.count("members")
        if n in done:
            rep.ok((cq, n), "%s::%s is streamed" % (cq, n))
            continue
        if n in skip:
            rep.ok((cq, n), None)
            continue
        if n in cond:
            rep.violation("conditional|%s|%s" % (cq, n), "member %s of %s is only streamed under a condition" % (n, cq), f.where())
            continue
        if (cq, n) in REBUILT:
            setters = [g for g in p.fns.values() if g.cls == cq and g.name == REBUILT[(cq, n)] and g.body and assigns(g, n)]
            if setters:
                rep.ok((cq, n), "%s::%s is set by %s() on the receiving side" % (cq, n, REBUILT[(cq, n)]))
                continue
        readers = [g for g in p.fns.values() if g.body and (g.key in reach or (cq, n) not in MANAGER_ONLY) and g.file.startswith("src/")
                   and not (g.cls == cq and g.name in (cq.split("::")[-1], "~" + cq.split("::")[-1]))
                   and reads(g, cq, n)]
        if readers:
            rep.violation("member|%s|%s" % (cq, n), "member %s of %s is not transmitted although %s reads it" %
                          (n, cq, readers[0].q), f.where())
        else:
            rep.ok((cq, n), "%s::%s is not streamed and never read on the receiving side" % (cq, n))
    def state_bases(r):
        for b in r["bases"]:
            br = p.recs.get(b)
            if br is None:
                continue
            if b.split("<")[0] in classes and any(not x.get("static") for x in br["fields"]):
                yield b.split("<")[0]
            elif b.split("<")[0] not in bases:
                yield from state_bases(br)
    for b in rec["bases"]:
        bq = b.split("<")[0]
        if bq in bases:
            rep.count("bases")
            rep.ok((cq, "base", bq), "%s streams its base class %s" % (cq, bq))
    for bq in state_bases(rec):
        rep.count("bases")
        if bq not in bases:
            rep.violation("base|%s|%s" % (cq, bq), "%s does not stream its base class %s, which has members" % (cq, bq), f.where())


def assigns(g, n):
    for x in g.nodes():
        if x.get("k") == "asg" or (x.get("k") == "call" and x.get("op") == "="):
            l = strip(x["c"][0] if x.get("k") == "asg" else (x.get("obj") or x["a"][0]))
            if l is not None and l.get("k") == "mem" and l["n"] == n:
                return True
    return False


def reads(g, cq, n):
    """g mentions the member other than as the target of a plain assignment"""
    targets = set()
    for x in g.nodes():
        if x.get("k") == "asg" and x.get("op") == "=":
            targets.add(id(strip(x["c"][0])))
        elif x.get("k") == "call" and x.get("op") == "=" and x.get("obj"):
            targets.add(id(strip(x["obj"])))
    return any(x.get("k") == "mem" and x["n"] == n and x.get("cls", "").split("<")[0] == cq and id(x) not in targets for x in g.nodes())


def exports(p, rep):
    guid = {}
    for k, f in p.fns.items():
        m = re.match(r"boost::serialization::guid<(.+)>\(\)$", k)
        if m and f.body:
            s = [n.get("v") for n in f.nodes() if n.get("k") == "str"]
            guid[m.group(1)] = s[0] if s else None
    # classes streamed through a pointer (or smart pointer): their concrete subclasses have to be exported
    ptr = set()
    for f in p.fns.values():
        if not f.body or not f.file.startswith("src/"):
            continue
        if f.name in ("serialize", "save", "load"):
            for e, _ in operands(f, p):
                t = e.get("t", "")
                for m in re.finditer(r"(combigrid::\w+)(?:<[^<>]*>)? ?\*", t):
                    ptr.add(m.group(1))
    rep.count("exported classes", len(guid))
    names = {}
    for c, g in guid.items():
        names.setdefault(g, []).append(c)
    for g, cs in names.items():
        if len(cs) > 1:
            rep.violation("guid|%s" % g, "%s are exported under the same name %s" % (" and ".join(sorted(cs)), g), "src/utils/BoostExports.hpp")
        else:
            rep.ok(("guid", g), None)
    for b in sorted(ptr):
        subs = [t for t in p.subclasses(b)]
        for r in subs:
            t = r["t"]
            if r.get("abstract") or not r["file"].startswith("src/") or "<" in t:
                continue
            rep.count("classes sent through a base pointer")
            if t not in guid:
                rep.violation("export|%s" % t, "%s can be sent through a pointer to %s but is not exported for serialization" % (t, b),
                              "%s:%s" % (r["file"], r["l"]))
            else:
                rep.ok(("export", t), "%s is exported as %s" % (t, guid[t]))
