"""C01: the message languages of manager methods and worker handlers are dual to each other."""
from ..core import Ctx, canon, show
from ..explore import Explorer
from .. import protocol as P
from ..mpi import SIG, arg, comm_class

PGM, PGW, PM = "combigrid::ProcessGroupManager", "combigrid::ProcessGroupWorker", "combigrid::ProcessManager"
# the manager asks for a task it knows the group owns: the group's search for it always succeeds
SEARCHED = ("RESCHEDULE_REMOVE_TASK", "TRANSFER_TASK_TAG")


def data_type(f):
    k = f.key
    i = k.find("<")
    if i < 0:
        return ""
    d = 0
    for j in range(i, len(k)):
        d += {"<": 1, ">": -1}.get(k[j], 0)
        if d == 0:
            return k[i + 1:j]
    return ""


def ev_text(e):
    if e[0] == "coll":
        return "%s(%s) on %s" % (e[2], e[4], e[1])
    return "%s %s tag=%s on %s" % ("manager sends" if e[0] == "s" else "manager receives",
                                    e[4] or e[3], e[2], e[1])


def run(env, rep):
    rep.rule = ("per command constant: the language of messages (direction, communicator, tag, element type, serialized class) that any manager "
                "method sending it exchanges with the group master equals the dual of the language of the handler the "
                "worker's dispatch selects; the handler exists; command and tag constants are pairwise distinct; the dispatch refuses unknown commands.")
    rep.assumptions = ["loops with data-dependent trip counts are Kleene stars on both sides: equal counts are not decided",
                       "paths that throw are not part of a command's exchange",
                       "a task requested by RESCHEDULE_REMOVE_TASK is owned by the group (manager bookkeeping)"]
    p = env.prog(False)
    rel = P.Relevance(p)
    sigs, tags = constants(p)
    rep.count("signal constants", len(sigs))
    rep.count("tag constants", len(tags))
    for what, tab in (("command", sigs), ("tag", tags)):
        byv = {}
        for name, v in sorted(tab.items()):
            if v in byv:
                rep.violation("distinct|%s|%s=%s" % (what, byv[v], name), "%s constants %s and %s have the same value %s" % (
                    what, byv[v], name, v), "src/manager/ProcessGroupSignals.hpp" if what == "command" else "src/mpi/MPITags.hpp")
            else:
                byv[v] = name
                rep.ok((what, name))
    name_of = {v: k for k, v in sigs.items()}
    # worker side
    workers = {data_type(f): f for f in p.find(PGW + "::wait")}
    wl = {}
    for dt, f in workers.items():
        for v in sorted(set(sigs.values()) | {987654}):
            L, cl, ex = P.explore(p, rel, f, "worker", v)
            rep.count("worker paths", ex.visited)
            wl[dt, v] = (L.get(v), cl)
        x = wl[dt, 987654][0]
        if x is not None and x.words(1):
            rep.violation("dispatch|%s|unknown command accepted" % f.q,
                          "a command without handler is not refused with an error but handled as %s" % (x.words(1)[0],), f.where())
        else:
            rep.ok(("dispatch", dt), "%s refuses commands without handler" % f.q)
    # manager side
    sent = {}
    used = set()
    for f in P.roots(p, rel, PGM):
        dt = data_type(f)
        L, cl, ex = P.explore(p, rel, f, "manager")
        rep.count("manager methods")
        rep.count("manager paths", ex.visited)
        if cl.unknown:
            rep.count("methods with undetermined command")
        for s, lang in L.items():
            sent.setdefault((dt, s), []).append((f, lang, cl))
            used.add(f.key)
    for (dt, s), ms in sorted(sent.items(), key=lambda x: (x[0][0], x[0][1])):
        nm = name_of.get(s, str(s))
        w = wl.get((dt, s))
        if w is None:
            continue
        for f, lang, cl in ms:
            rep.count("manager command sites")
            key = "%s|%s" % (f.q, nm)
            if w[0] is None or not w[0].words(1):
                rep.violation("unhandled|" + key, "command %s sent by %s has no handler in the process group" % (nm, f.q), f.where())
                continue
            drop = SEARCHED[1] if nm == SEARCHED[0] else None
            W = without(w[0], drop) if drop else w[0]
            M = without(lang, drop) if drop else lang
            if drop:
                d0 = P.compare(lang, lang)
            d = P.compare(M, W)
            if d is not None:
                # a class that is only known on one side is not compared
                noc = lambda e: e if e[0] == "coll" else e[:4]
                d2 = P.compare(M, W, noc)
                if d2 is None and not all_known(lang, w[0]):
                    d = None
            roles(p, rel, rep, dt, nm, f, lang, w[0])
            if d is None:
                rep.ok((dt, f.q, nm), "%s/%s <%s>: %s" % (f.q, nm, dt, "; ".join(ev_text(e) for e in (lang.words(1) or [()])[0])))
                continue
            word, inm = d
            rep.violation("mismatch|" + key,
                          "after %s, %s allows a message sequence the other side does not: %s" % (
                              nm, ("the manager (%s)" % f.q) if inm else "the group's handler",
                              ", then ".join(ev_text(e) for e in word) or "(no message at all)"), f.where(),
                          ["manager: " + "; ".join(ev_text(e) for e in x) for x in lang.words(3)] +
                          ["group:   " + "; ".join(ev_text(e) for e in x) for x in w[0].words(3)])
    # traffic of the manager with the groups outside commands
    callers = p.callers()
    for f in p.src_fns():
        if f.cls in (PM,) and callers.get(f.key):
            for n in rel.calls[f.key]:
                sg = SIG.get(n.get("n"))
                hit = sg and sg.get("dir") and comm_class(canon(arg(n, sg["comm"]), Ctx(f))) == "global"
                for g in p.callees(n):
                    for i in rel.par.get(g.key, ()):
                        if arg(n, i) is not None and comm_class(canon(arg(n, i), Ctx(f))) == "global" and \
                                g.name in ("sendClass", "receiveClass", "send", "receive"):
                            hit = True
                if hit:
                    rep.violation("stray|%s|%s" % (f.q, n.get("n")), "the manager exchanges a message with a group outside of any command",
                                  f.where(n))
    rep.need("manager command sites", 30)
    rep.need("signal constants", 30)
    rep.need("tag constants", 8)


def constants(p):
    """command and tag constants: name -> value"""
    sigs, tags = {}, {}
    for g in p.gvars:
        v = g.get("cv")
        if v is None:
            continue
        if g.get("st", "").split("::")[-1].split(" ")[-1] == "SignalType":
            sigs[g["n"]] = int(v)
        elif g.get("file", "").endswith("MPITags.hpp") and g["n"] != "MAX_TAG":
            tags[g["n"]] = int(v)
    return sigs, tags


def without(L, tag):
    """language with the events of one tag made optional"""
    R = P.Lang()
    R.t = {a: l + [(None, b) for ev, b in l if ev is not None and ev[0] != "coll" and ev[2] == tag] for a, l in L.t.items()}
    R.start, R.acc = L.start, L.acc
    return R


def all_known(*ls):
    for L in ls:
        S = L.closure(L.start)
        seen, w = {S}, [S]
        while w:
            for e, T in L.step(w.pop()).items():
                if e[0] != "coll" and e[3] == "char" and e[4] is None:
                    return False
                if T not in seen:
                    seen.add(T)
                    w.append(T)
    return True


def roles(p, rel, rep, dt, nm, f, lang, W):
    """values of equal type are received in the order in which they are sent: if both sides name them alike, no
    two of them are exchanged"""
    for mw in lang.words(6):
        for ww in W.words(6):
            if [P.core_event(e) for e in mw] != [P.core_event(e) for e in ww]:
                continue
            idx = [i for i, e in enumerate(mw) if e[0] == "s" and e[4] is not None and e[5] and ww[i][5]]
            bad = None
            for x in range(len(idx)):
                for y in range(x + 1, len(idx)):
                    i, j = idx[x], idx[y]
                    a, b = mw[i][5], mw[j][5]
                    A, B = ww[i][5], ww[j][5]
                    if a & B and b & A and not (a & A) and not (b & B):
                        bad = (sorted(a & B)[0], sorted(b & A)[0])
            if idx:
                rep.count("named payload values", len(idx))
            if bad:
                rep.violation("exchanged|%s|%s" % (f.q, nm), "after %s the group takes the value the manager sends as '%s' for '%s' and vice versa"
                              % (nm, bad[0], bad[1]), f.where())
