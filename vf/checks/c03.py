"""C03: debug and release builds do the same work.
R1 assertion conditions are effect free (interprocedural effect summaries).
R2 statements present in only one build mode are effect free on everything the other mode sees."""
import difflib
import json
from ..core import walk, subnodes, is_assert, text, strip
from ..effects import Effects

SCOPE = ("src/", "third_level_manager/")
# a debug-only consistency check may agree on a value over all ranks, if it goes to debug-only variables
CHECK_COLL = {"MPI_Allreduce", "MPI_Allgather", "MPI_Reduce"}


def norm(n):
    if isinstance(n, dict):
        return {k: norm(v) for k, v in n.items() if k not in ("d", "id", "_back", "l", "el") and not (k == "f" and n.get("k") == "lambda")}
    if isinstance(n, list):
        return [norm(x) for x in n]
    return n


def sig(n):
    return json.dumps(norm(n), sort_keys=True)


def trivial(s):
    """nothing, a void cast of a literal (assert with NDEBUG), or an assertion"""
    if s is None:
        return True
    k = s.get("k")
    if k == "null" or (k == "seq" and all(trivial(x) for x in s["c"])):
        return True
    if k in ("cast", "icast") and all(x.get("k") in ("cast", "icast", "lit") for x in walk(s)):
        return True
    return k in ("cond", "cast") and is_assert(s)


def stmts(n):
    """sub-statement structure: (list of child statements)"""
    return [x for x in subnodes(n)]


def diff(a, b, out):
    """a: release node, b: debug node; out gets ('debug'|'release', stmt, enclosing)"""
    if a is None or b is None:
        if b is not None and not trivial(b):
            out.append(("debug", b))
        if a is not None and not trivial(a):
            out.append(("release", a))
        return
    if sig(a) == sig(b):
        return
    ka, kb = a.get("k"), b.get("k")
    if ka == "seq" and kb == "seq":
        xa = [x for x in a["c"] if not trivial(x)]
        xb = [x for x in b["c"] if not trivial(x)]
        sa, sb = [sig(x) for x in xa], [sig(x) for x in xb]
        # statements at the same source line and of the same kind correspond
        ida = [(x.get("k"), x.get("l")) for x in xa]
        idb = [(x.get("k"), x.get("l")) for x in xb]
        sm = difflib.SequenceMatcher(a=ida, b=idb, autojunk=False)
        for op, i1, i2, j1, j2 in sm.get_opcodes():
            if op == "equal":
                for x, y in zip(xa[i1:i2], xb[j1:j2]):
                    diff(x, y, out)
            else:
                out += [("release", x) for x in xa[i1:i2]]
                out += [("debug", y) for y in xb[j1:j2]]
        return
    if ka == kb and ka in ("if", "for", "rfor", "while", "do", "switch", "case", "default", "try", "omp", "label"):
        ca, cb = subnodes(a), subnodes(b)
        if len(ca) == len(cb):
            heads = ("cond", "inc", "range", "init")
            for x, y in zip(ca, cb):
                diff(x, y, out)
            return
    if ka == kb and ka not in ("seq",):
        ca, cb = subnodes(a), subnodes(b)
        if len(ca) == len(cb) and len(ca):
            na, nb = dict(norm(a)), dict(norm(b))
            for x, y in zip(ca, cb):
                diff(x, y, out)
            return
    if trivial(a) and trivial(b):
        return
    if not trivial(b):
        out.append(("debug", b))
    if not trivial(a):
        out.append(("release", a))


def reads(body):
    """names of variables whose value is used (not only assigned)"""
    r = set()
    writes = set()
    for n in walk(body):
        if n.get("k") == "asg" and n.get("op") == "=":
            x = strip(n["c"][0])
            if x.get("k") == "ref":
                writes.add(id(x))
    for n in walk(body):
        if n.get("k") == "ref" and id(n) not in writes and n.get("g") in ("local", "param"):
            r.add(n["n"])
    return r


def describe(at):
    if at[0] in ("comm", "io"):
        return "%s:%s" % at[:2]
    return "writes " + " ".join(str(x) for x in at[1:] if not isinstance(x, int))


def run(env, rep):
    rel, dbg = env.prog(False), env.prog(True)
    eff = Effects(dbg)
    rep.rule = ("R1: every assertion condition is free of communication, file/socket I/O and writes to objects that "
                "outlive it (interprocedural effect summaries on the debug program). R2: every function is compared "
                "between the debug and the release program; statements present in one of them only must have no effect on "
                "data the other build reads, and may only communicate through a value-agreeing collective into "
                "variables of their own.")
    rep.assumptions = ["console output is not an effect", "thread-local scratch that is overwritten is not an effect"]
    done = set()
    for f in sorted(dbg.src_fns(SCOPE), key=lambda f: (f.file, f.l, f.key)):
        rep.count("functions")
        g = rel.fns.get(f.key)
        relreads = reads(g.body) if g is not None and g.body else set()
        relvars = {v["n"] for v in g.vars().values()} if g is not None else set()
        for n in f.nodes():
            if n.get("k") == "cond" and is_assert(n):
                rep.count("assertions")
                at = eff.expr(n["c"][0], f)
                bad = {}
                for a, w in at.items():
                    if a[0] == "w" and a[1] == "static" and a[-1] == "set":
                        continue
                    if a[0] == "w" and a[1] == "local":
                        nm = f.vars().get(a[2], {}).get("n")
                        if nm not in relvars or nm not in relreads:
                            continue   # the variable is not used in the release build
                    bad[a] = w
                if bad:
                    a = sorted(bad, key=lambda x: (x[0] != "comm", x[0] != "io", str(x)))[0]
                    key = "assert-effect|%s|%s" % (f.q, text(n["c"][0])[:80])
                    rep.violation(key, "assertion condition has an effect (%s): it is skipped in release builds" % describe(a),
                                  f.where(n), eff.trace(a, bad[a]))
                else:
                    u = (f.file, n.get("l"))
                    rep.ok(u, "assert at %s:%s effect free" % u if len(rep.samples) < 4 else None)
        if g is None or f.key in done:
            continue
        done.add(f.key)
        if not f.body or not g.body:
            continue
        out = []
        diff(g.body, f.body, out)
        for mode, s in out:
            if mode == "debug" and f.d.get("constexpr"):
                continue
            rep.count("build-mode-only statements")
            ff = f if mode == "debug" else g
            ef = eff
            at = ef.expr(s, ff)
            other = relreads if mode == "debug" else reads(f.body)
            othervars = relvars if mode == "debug" else {v["n"] for v in f.vars().values()}
            bad = {}
            for a, w in at.items():
                if a[0] == "comm" and a[1] in CHECK_COLL:
                    continue
                if a[0] == "w" and a[1] == "static" and a[-1] == "set":
                    continue
                if a[0] == "w" and a[1] == "local":
                    nm = ff.vars().get(a[2], {}).get("n")
                    if nm not in othervars or nm not in other:
                        continue
                bad[a] = w
            rets = [x for x in walk(s, lambdas=False) if x.get("k") in ("return", "break", "continue", "goto", "throw")
                    and not is_assert(x)]
            esc = [x for x in rets if x["k"] in ("return", "goto") or (x["k"] == "throw" and mode == "release") or
                   (x["k"] in ("break", "continue") and not _inside_loop(s, x))]
            # a variable declared in one mode only cannot be used in the other, so declarations are fine
            if bad:
                a = sorted(bad, key=lambda x: (x[0] != "comm", x[0] != "io", str(x)))[0]
                rep.violation("build-mode|%s|%s|%s" % (f.q, mode, describe(a) + (
                                  ":" + ff.vars().get(a[2], {}).get("n", "?") if a[:2] == ("w", "local") else "")),
                              "code compiled only in %s builds has an effect: %s" % (mode, describe(a)),
                              ff.where(s), ef.trace(a, bad[a]))
            elif esc:
                rep.violation("build-mode|%s|%s|leaves" % (f.q, mode),
                              "code compiled only in %s builds leaves the function or loop" % mode, ff.where(esc[0]))
            else:
                rep.ok((f.file, s.get("l")), "%s-only statement at %s without effect" % (mode, ff.where(s))
                       if len(rep.samples) < 10 else None)
    # functions that exist in one mode only are called in that mode only
    only = [k for k in dbg.fns if k not in rel.fns and not dbg.fns[k].is_lambda and dbg.fns[k].file.startswith(SCOPE)]
    rep.count("functions in one mode only", len(only))
    rep.need("functions", 400)
    rep.need("assertions", 300)


def _inside_loop(s, x):
    """break/continue x inside s binds to a loop or switch inside s"""
    def rec(n, inl):
        if n is x:
            return inl
        for c in subnodes(n):
            r = rec(c, inl or n.get("k") in ("for", "rfor", "while", "do", "switch"))
            if r is not None:
                return r
        return None
    return bool(rec(s, False))
