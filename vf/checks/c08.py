"""C08: communication objects are committed before use and released exactly once."""
from .. import res
from ..core import strip, walk
from ..explore import Explorer
from .c05 import PREFIX, skip

KINDS = {"type", "group", "op", "info", "file", "win"}


def owners(env, rep, p):
    """classes whose destructor releases handles are not copied"""
    for f in sorted(p.src_fns(PREFIX), key=lambda f: f.key):
        if "~" not in f.q.split("::")[-1] or not f.body or skip(f):
            continue
        own = set()
        for n in f.calls():
            nm = n.get("n") or ""
            if nm in res.REL or nm == "MPI_Comm_free":
                i = res.REL.get(nm, ("comm", 0))[1]
                me, elem = res.places(n["a"][i], __import__("vf.core", fromlist=["Ctx"]).Ctx(f), p)
                if me is not None and me[0] == "field":
                    own.add((me[2], elem))
        if not own:
            continue
        cls = f.key[:f.key.index("::~")]
        rec = p.recs.get(cls)
        if rec is None:
            continue
        rep.count("owning classes")
        ms = rec.get("methods", [])
        last = rec["q"].split("::")[-1]
        copy = [m for m in ms if m["f"].endswith("(const %s &)" % cls)]
        move = [m for m in ms if m["f"].endswith("(%s &&)" % cls)]
        bad = False
        if any(not m["del"] for m in copy) or (not copy and not move):
            rep.violation("copied|%s" % rec["q"], "%s releases %s in its destructor but can be copied: the copy releases it again" % (rec["q"], ", ".join(sorted(x for x, _ in own))), f.where())
            bad = True
        for m in move:
            g = p.fns.get(m["f"])
            if m["del"] or g is None or g.body is None:
                continue
            if any(x.get("op") == "=" and x.get("k") == "call" for x in g.calls()) and m["n"] != "operator=":
                continue        # delegates to the assignment
            for x, elem in own:
                if elem:
                    continue
                reset = any(n.get("k") == "asg" and strip(n["c"][0]).get("k") == "mem" and strip(n["c"][0])["n"] == x and
                            (strip(n["c"][0]).get("b") or {}).get("k") != "this" for n in g.nodes())
                swap = any((n.get("n") or "").split("::")[-1] in ("swap", "exchange") for n in g.calls())
                if not reset and not swap:
                    rep.violation("moved|%s|%s" % (rec["q"], x), "moving %s leaves %s in the source, whose destructor releases it again" % (rec["q"], x), g.where())
                    bad = True
        if not bad:
            rep.ok(("owner", cls), "%s owns %s and is not copied" % (rec["q"], ", ".join(sorted(x for x, _ in own))))


def run(env, rep):
    rep.rule = ("typestate of every datatype, group, operator, info and file handle over all paths (functions passing handles in or out inlined, containers, pairs, references and results followed, loops over all elements release a container): "
                "committed before communication, not used after release, not released twice, not overwritten, released at every return unless handed to the caller or a member; members are released by a destructor or another function; "
                "classes that release handles in their destructor cannot be copied and empty the source when moved")
    for debug in (False, True):
        p = env.prog(debug)
        exp, roots = res.exporting(p, PREFIX, skip)
        acq, rel = {}, set()
        for f in sorted(roots, key=lambda f: f.key):
            h = res.Handles(p, exp, KINDS, f)
            Explorer(p, h).run(f, frozenset())
            if not h.created and not h.freed:
                continue
            rep.count("functions explored")
            rep.count("creations and releases on paths", h.created + h.freed)
            for (rule, detail), (msg, line) in sorted(h.problems.items()):
                rep.violation("%s|%s|%s" % (rule, f.q, detail), msg, "%s:%s" % (f.file, line))
            for e in h.kept:
                acq.setdefault(e, f)
            rel |= {me for kind, me in h.released}
            if not h.problems:
                rep.ok((f.key, debug), "%s: %d creation(s), %d release(s)" % (f.q, h.created, h.freed))
        for me, f in sorted(acq.items(), key=repr):
            rep.count("handles kept in members")
            if me not in rel:
                rep.violation("member|%s|%s" % (me[1], me[2]), "no function releases the object kept in member %s" % me[2], f.where())
            else:
                rep.ok((me, debug), "the object in %s::%s is released" % (me[1], me[2]))
        owners(env, rep, p)
    rep.need("functions explored", 15)
    rep.need("owning classes", 3)
    rep.assumptions = ["the simulated-fault layer is not analysed; communicators live as long as their owner and are covered by the owner rule only",
                       "a container of handles is released by a loop over it that releases unconditionally"]
