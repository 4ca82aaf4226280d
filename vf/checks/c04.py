"""C04: operands whose relative evaluation order is unspecified do not both have ordered effects."""
from ..core import walk, kids, text, strip
from ..effects import Effects, last

SCOPE = ("src/", "third_level_manager/", "tools/", "examples/")
SEQ_OPS = {"<<", ">>", "=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=", "->", "->*", "&&", "||", ",", "[]"}


def unordered(n):
    """groups of operands of n that are evaluated in an order the language leaves open"""
    k = n.get("k")
    if k == "call":
        op = n.get("op")
        if op in SEQ_OPS:
            return []
        if op and n.get("obj") is not None and op != "()":
            return [n["obj"]] + n.get("a", [])
        return [a for a in n.get("a", []) if a]
    if k == "ctor":
        return [] if n.get("li") else [a for a in n.get("a", []) if a]
    if k == "bin" and n["op"] not in SEQ_OPS:
        return n["c"]
    return []


def advances(n):
    """a primitive step that advances a counter or stream"""
    k = n.get("k")
    if k == "un":
        return n["op"] in ("++", "--")
    if k == "asg":
        return n["op"] != "="
    if k == "call":
        return n.get("op") in (">>", "++", "--", "+=", "-=") or last(n.get("n")) in (
            "pop", "pop_back", "pop_front", "read", "get", "getline", "ignore", "push_back", "emplace_back", "append")
    return False


def ordered_effects(at, eff):
    """atoms of effects whose order is observable -> resource"""
    r = {}
    for a, w in at.items():
        if a[0] == "comm":
            r.setdefault(("external", "communication"), (a, w))
        elif a[0] == "io":
            r.setdefault(("external", "I/O"), (a, w))
        elif a[0] == "w":
            if a[1] == "static" and a[-1] == "set":
                continue
            if advances(eff.leaf(a, w)):
                r.setdefault(a, (a, w))
    return r


def run(env, rep):
    rep.rule = ("for every call argument list, constructor argument list and unsequenced operator in the repository: at most "
                "one operand communicates, at most one performs file or socket I/O, and no operand modifies an object (stream, "
                "counter, member) that another operand modifies or reads directly; effects are interprocedural summaries.")
    for dbg in (False,):
        p = env.prog(dbg)
        eff = Effects(p)
        for f in sorted(p.src_fns(SCOPE), key=lambda f: (f.file, f.l, f.key)):
            rep.count("functions")
            for n in f.nodes():
                ops = unordered(n)
                if len(ops) < 2:
                    continue
                rep.count("operand groups")
                es = [ordered_effects(eff.expr(o, f), eff) for o in ops]
                if not any(es):
                    continue
                rep.count("operand groups with effects")
                bad = None
                for i in range(len(ops)):
                    for j in range(len(ops)):
                        if i == j:
                            continue
                        for r, (a, w) in es[i].items():
                            if i < j and r in es[j]:
                                bad = (i, j, r, a, w)
                            elif r[0] == "w" and r[1] in ("local",) and reads_var(ops[j], r[2]) and \
                                    i != j and direct(ops[i], r[2]):
                                bad = (min(i, j), max(i, j), r, a, w)
                if bad:
                    i, j, r, a, w = bad
                    what = (n.get("n") or n.get("cls") or n.get("op") or n["k"])
                    res = r[1] if r[0] == "external" else "modification of " + " ".join(str(x) for x in r[1:] if not isinstance(x, int))
                    rep.violation("unordered|%s|%s|%s" % (f.q, what, res),
                                  "operands %d and %d of '%s' both involve %s and their evaluation order is unspecified: %s / %s"
                                  % (i + 1, j + 1, what, res, text(ops[i])[:60], text(ops[j])[:60]), f.where(n), eff.trace(a, w))
                else:
                    rep.ok((f.file, n.get("l"), n.get("n")), "%s: at most one ordered effect among the operands of %s" % (
                        f.where(n), n.get("n") or n.get("op") or n.get("cls")))
    rep.need("functions", 400)
    rep.need("operand groups", 2000)


def reads_var(e, vid):
    return any(x.get("k") == "ref" and x.get("d") == vid and x.get("g") in ("local", "param") for x in walk(e))


def direct(e, vid):
    """e itself (not through a call with unrelated meaning) increments / assigns the scalar variable"""
    for x in walk(e, lambdas=False):
        if x.get("k") == "un" and x["op"] in ("++", "--") or x.get("k") == "asg":
            y = strip(x["c"][0])
            if y.get("k") == "ref" and y.get("d") == vid:
                return True
    return False
