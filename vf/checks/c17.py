"""C17: every timing event that is started is stopped exactly once, on every path."""
from ..core import Ctx, canon, show
from ..explore import Explorer, Client

START, STOP = "combigrid::Stats::startEvent", "combigrid::Stats::stopEvent"
EXIT_KINDS = ("exit",)


class Bal(Client):
    """state: (open events as a sorted tuple of (name, n), events stopped without being open)"""

    def __init__(self, inl, rep):
        self.inl, self.rep = inl, rep
        self.ends = {}      # (open, missing) -> example
        self.bad = {}

    def inline(self, fn, call, ctx):
        return fn.key in self.inl

    def step(self, st, node, ctx, ex, facts):
        if node.kind != "op" or node.ast.get("k") != "call":
            return (st,)
        n = node.ast.get("n")
        if n not in (START, STOP):
            return (st,)
        self.rep.count("timing calls on paths")
        nm = show(ex.value(node.ast["a"][0], ctx, facts))
        op, miss = dict(st[0]), dict(st[1])
        if n == START:
            if miss.get(nm, 0):
                pass
            op[nm] = op.get(nm, 0) + 1
            if op[nm] > 1:
                self.bad.setdefault(("restarted", nm), (ctx, node))
                op[nm] = 1
        else:
            if op.get(nm, 0):
                op.pop(nm)
            else:
                miss[nm] = 1
                self.bad.setdefault(("stopped without being started", nm), (ctx, node))
        return ((tuple(sorted(op.items())), tuple(sorted(miss.items()))),)

    def leave(self, st, kind, ctx, ex, node):
        if kind == "exit":
            self.ends.setdefault(st, (ctx, node))


def run(env, rep):
    rep.rule = ("for every function that (directly, or through helpers that are not balanced by themselves) starts or stops timing events: "
                "on every path to a normal return each started event has been stopped exactly once, nothing is stopped that is not "
                "running and nothing is started that is still running. Paths that end in an exception are not returns.")
    rep.assumptions.append("event names are compared as canonical expressions; two different expressions name different events")
    p = env.prog(False)
    fns = [f for f in p.src_fns(("src/", "third_level_manager/")) if f.body and not f.q.startswith("combigrid::Stats::")]
    direct = [f for f in fns if any(n.get("n") in (START, STOP) for n in f.calls())]
    rep.count("functions with timing calls", len(direct))
    callers = p.callers()
    inl, todo, res, done = set(), {f.key: f for f in direct}, {}, set()
    # functions that are not balanced alone are judged in their callers
    while todo:
        k, f = todo.popitem()
        cl = Bal(inl - {k}, rep)
        # start/stop calls inside lambdas run where the lambda is called
        ex = Explorer(p, cl)
        for l in f.lambdas():
            cl.inl = cl.inl | {l["f"]}
        ex.run(f, ((), ()))
        bad = bool(cl.bad) or any(s != ((), ()) for s in cl.ends)
        res[k] = cl
        if bad:
            cs = [c for c, n in callers.get(k, []) if c.key != k and p.src(c)]
            if k not in inl:
                inl.add(k)
                for c in cs:
                    c = c.root()
                    if c.q.startswith("combigrid::Stats::"):
                        continue
                    todo[c.key] = c
    # a function that is unbalanced alone is accepted if it has callers and all of them are balanced with it inlined
    bad = {k for k, cl in res.items() if cl.bad or any(s != ((), ()) for s in cl.ends)}
    for k in sorted(res):
        f, cl = p.fns[k], res[k]
        if k not in bad:
            rep.ok(f.key, "%s: all paths balanced (%d end states)" % (f.q, len(cl.ends)))
            continue
        cs = {c.root().key for c, n in callers.get(k, []) if p.src(c)} - {k}
        if cs and not (cs & bad):
            rep.ok(f.key, "%s: balanced in all its callers" % f.q)
            continue
        if cs & bad and not direct_blame(f, cl):
            continue
        msgs = []
        for (what, nm), (ctx, node) in cl.bad.items():
            msgs.append(("%s %s" % (nm, what), ctx.fn.where(node.ast)))
        for s, (ctx, node) in cl.ends.items():
            for nm, c in s[0]:
                msgs.append(("%s still running on return" % nm, f.where()))
        for m, w in msgs:
            rep.violation("timing|%s|%s" % (f.q, m), "timing event %s in %s" % (m, f.q), w)
    rep.need("functions with timing calls", 20)


def direct_blame(f, cl):
    return any(n.get("n") in (START, STOP) for n in f.calls())
