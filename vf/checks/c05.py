"""C05: every non-blocking communication is completed before it is abandoned."""
from .. import res
from ..explore import Explorer

PREFIX = ("src/", "third_level_manager/")


def skip(f):
    return "mpi_fault_simulator" in f.file


def run(env, rep):
    rep.rule = ("all paths of every function that starts or completes non-blocking operations are explored (functions that pass request handles in or out are inlined into their callers, loops that wait for every element "
                "complete the container): at a return no request of a local is outstanding, none is overwritten, waited for undefined, or kept in a container that is waited for with another size; a local buffer in use is not "
                "resized and its block contains the completing call; requests of parameters are set on every path unless null; requests in members are completed by some function of the program")
    for debug in (False, True):
        p = env.prog(debug)
        exp, roots = res.exporting(p, PREFIX, skip)
        acq, rel = {}, set()
        for f in sorted(roots, key=lambda f: f.key):
            h = res.Handles(p, exp, {"request"}, f)
            ex = Explorer(p, h)
            ex.run(f, frozenset())
            if not h.created and not h.freed:
                continue
            rep.count("functions explored")
            rep.count("non-blocking operations and completions on paths", h.created + h.freed)
            for (rule, detail), (msg, line) in sorted(h.problems.items()):
                rep.violation("%s|%s|%s" % (rule, f.q, detail), msg, "%s:%s" % (f.file, line))
            for kind, me, line, q in h.acquired:
                if me[0] == "field":
                    acq.setdefault(me, (f, line))
            rel |= {me for kind, me in h.released}
            bad = bool(h.problems)
            for i, prm in enumerate(f.params):
                me = ("param", f.key, prm["id"])
                if any(a[1] == me for a in h.acquired):
                    rep.count("request parameters")
                    if any(me not in e for e in h.exits):
                        rep.violation("unset|%s|%s" % (f.q, prm["n"]), "the request handed to the caller in %s is not set on every path" % prm["n"], f.where())
                        bad = True
            if not bad:
                rep.ok((f.key, debug), "%s: %d operation(s) completed on all %d returning path(s)" % (f.q, h.created, len(h.exits)))
        for me, (f, line) in sorted(acq.items(), key=repr):
            rep.count("requests kept in members")
            if me not in rel:
                rep.violation("member|%s|%s" % (me[1], me[2]), "no function completes the request kept in member %s" % me[2], "%s:%s" % (f.file, line))
            else:
                rep.ok((me, debug), "the request in %s::%s is completed" % (me[1], me[2]))
    rep.need("functions explored", 20)
    rep.assumptions = ["the simulated-fault layer (src/mpi_fault_simulator) is not analysed", "paths that end in an exception are not required to complete their requests",
                       "MPI_Request_free hands the completion to MPI; the buffer is then the caller's"]
