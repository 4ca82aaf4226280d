"""C02: command / status alternation on the manager's side of every process group."""
from ..core import Ctx, canon, strip, walk
from ..explore import Client, Explorer
from .. import protocol as P
from .c01 import constants, data_type
from ..mpi import SIG, arg, comm_class, find_in, COMPLETE_ONE, COMPLETE_ARR

PGW = "combigrid::ProcessGroupWorker"
PGM = "combigrid::ProcessGroupManager"


def has_field(c, cls):
    return find_in(c, lambda x: bool(x) and x[0] == "field" and cls in str(x[1]))


class Alt(Client):
    """states: unknown (at entry), clean, sent, pending, ('test', previous, var)"""

    def __init__(self, prog, rel, rep, root, status_fields):
        self.prog, self.rel, self.rep, self.root, self.sf = prog, rel, rep, root, status_fields
        self.bad = {}
        self.open = False
        self.n = {"S": 0, "R": 0, "W": 0, "read": 0}

    def inline(self, fn, call, ctx):
        return fn.cls == PGM or self.rel.inline(fn, call, ctx, self.ex)

    def fail(self, kind, msg, ctx, n):
        self.bad.setdefault(kind, (msg, ctx.fn.where(n)))

    def step(self, st, node, ctx, ex, facts):
        n = node.ast
        base = st[1] if isinstance(st, tuple) else st
        if node.kind in ("branch", "ret", "decl", "stmt", "op", "init", "switch") and n is not None:
            self.reads(st, base, node, ctx)
        if node.kind != "op" or n.get("k") != "call":
            return (st,)
        name = n.get("n") or ""
        if name in COMPLETE_ONE + COMPLETE_ARR:
            a = ex.canon(arg(n, 0 if name in COMPLETE_ONE else 1), ctx)
            if has_field(a, PGM):
                self.n["W"] += 1
                if "Test" in name:
                    fl = ex.canon(arg(n, 1), ctx)
                    return (("test", base, fl[1] if fl[0] == "addr" else fl),)
                return ("clean",) if base != "sent" else ("sent",)
            return (st,)
        s = SIG.get(name)
        if not s or not s.get("dir") or comm_class(ex.canon(arg(n, s["comm"]), ctx)) != "global":
            return (st,)
        t = ex.canon(arg(n, s["tag"]), ctx)
        tag = t[1].split("::")[-1] if t[0] == "gconst" else None
        if s["dir"] == "s" and tag == P.TAG_SIGNAL:
            self.n["S"] += 1
            if base != "clean":
                self.fail("signal-" + base, {
                    "unknown": "a command is sent although the status answering an earlier command may still be outstanding",
                    "pending": "a command is sent while the status answering the previous command is still outstanding",
                    "sent": "a second command is sent before a receive for the status of the first is posted"}[base], ctx, n)
            return ("sent",)
        if s["dir"] == "r" and tag == P.TAG_STATUS:
            self.n["R"] += 1
            if base != "sent":
                self.fail("listen-" + base, {
                    "unknown": "a status receive is posted without a command having been sent",
                    "clean": "a status receive is posted without a command having been sent",
                    "pending": "a second status receive is posted while one is still outstanding"}[base], ctx, n)
            return ("clean",) if name == "MPI_Recv" else ("pending",)
        return (st,)

    def leave(self, st, kind, ctx, ex, node):
        if kind == "exit" and (st[1] if isinstance(st, tuple) else st) == "sent":
            self.open = True

    def reads(self, st, base, node, ctx):
        if st == "clean" or (isinstance(st, str) and st == "sent"):
            return
        n = node.ast
        roots = [n]
        if node.kind == "decl":
            roots = [n.get("init")] if n.get("init") else []
        elif node.kind == "ret":
            roots = [n.get("e")] if n.get("e") else []
        elif node.kind == "switch":
            roots = [n.get("cond")]
        elif node.kind == "op":
            if n.get("k") == "asg":
                roots = [n["c"][1]]
            elif n.get("k") == "call":
                if (n.get("n") or "").startswith("MPI_"):
                    return
                roots = n.get("a", [])
            else:
                return
        elif node.kind == "stmt":
            return
        for r in roots:
            for x in walk(r, lambdas=False):
                if x.get("k") == "mem" and x.get("n") in self.sf and PGM in str(x.get("cls")):
                    self.n["read"] += 1
                    self.fail("read", "the status is read although the message that carries it may still be arriving", ctx, x)

    def edge(self, st, node, lab, ctx, ex, facts):
        if isinstance(st, tuple) and node.kind == "branch" and lab in (True, False):
            c = ex.canon(node.ast, ctx)
            neg = False
            while c[0] == "un" and c[1] == "!":
                c, neg = c[2], not neg
            if c[0] == "bin" and c[1] in ("==", "!=") and (Explorer.cnst(None, c[3]) == 0):
                neg ^= c[1] == "=="
                c = c[2]
            if c == st[2]:
                done = lab != neg
                return ("clean" if st[1] != "sent" else "sent") if done else st[1]
        return st


def status_fields(prog, rel):
    """members that serve as buffer of a status receive"""
    r = set()
    for f in prog.src_fns():
        if f.cls != PGM:
            continue
        for n in f.calls():
            if n.get("n") in ("MPI_Irecv", "MPI_Recv"):
                t = canon(arg(n, 4), Ctx(f))
                if t[0] == "gconst" and t[1].endswith(P.TAG_STATUS):
                    c = canon(arg(n, 0), Ctx(f))
                    if c[0] == "addr" and c[1][0] == "field":
                        r.add(c[1][2])
    return r


def unheard(p, rel, f):
    """commands f may leave without listening for their status although the group sends one"""
    consts, _ = constants(p)
    name = {v: k for k, v in consts.items()}
    L, _, _ = P.explore(p, rel, f, "manager")
    dt = data_type(f)
    out = []
    for s, l in L.items():
        if all(any(e[2] == P.TAG_STATUS for e in w) for w in l.words(50)):
            continue
        for g in p.find(PGW + "::wait"):
            if data_type(g) == dt and isinstance(s, int):
                W, _, _ = P.explore(p, rel, g, "worker", s)
                if W.get(s) is not None and any(e[2] == P.TAG_STATUS for w in W[s].words(50) for e in w):
                    out.append(name.get(s, s))
    return out


def run(env, rep):
    rep.rule = ("typestate over every path of every entry point of ProcessGroupManager (unknown -> wait -> clean -> send command -> sent -> "
                "post status receive -> pending -> wait -> clean): a command only in 'clean', a status receive only in 'sent', "
                "a method leaves 'sent' before it returns unless the group never answers that command, the status variable read only when no receive into it can be outstanding; nothing is assumed about the state at entry.")
    p = env.prog(False)
    rel = P.Relevance(p)
    sf = status_fields(p, rel)
    rep.count("status variables", len(sf))
    tot = {}
    for f in P.roots(p, rel, PGM):
        a = Alt(p, rel, rep, f, sf)
        ex = Explorer(p, a)
        a.ex = ex
        ex.run(f, "unknown")
        rep.count("entry points")
        rep.count("paths states", ex.visited)
        for k, v in a.n.items():
            rep.count("%s events" % {"S": "command", "R": "status receive", "W": "completion", "read": "status read"}[k], v)
        if a.open:
            for s in unheard(p, rel, f):
                a.bad.setdefault("unheard", ("returns without having posted a receive for the status with which the group answers the command %s; "
                                             "the next wait would not wait for it" % s, f.where()))
        for kind, (msg, where) in a.bad.items():
            rep.violation("%s|%s" % (kind, f.q), "%s: %s" % (f.q, msg), where)
        if not a.bad:
            rep.ok(f.key, "%s alternates commands and statuses on all paths" % f.q)
    # outside the class nobody touches the status request
    for f in p.src_fns():
        if f.cls == PGM:
            continue
        for n in f.calls():
            s = SIG.get(n.get("n"))
            if s and s.get("dir") == "s" and len(n.get("a", [])) > 5:
                t = canon(arg(n, s["tag"]), Ctx(f))
                if t[0] == "gconst" and t[1].endswith(P.TAG_SIGNAL):
                    rep.violation("bypass|%s" % f.q, "%s sends a command without the bookkeeping of ProcessGroupManager" % f.q, f.where(n))
    rep.need("entry points", 30)
    rep.need("command events", 30)
    rep.need("status receive events", 30)
    rep.need("completion events", 30)
