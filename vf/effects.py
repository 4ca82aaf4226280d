"""Interprocedural effect summaries: what a function may communicate, print, or modify."""
from .core import strip, kids, walk, subnodes, is_assert

# MPI calls that only query local state
MPI_QUERY = {
    "MPI_Comm_rank", "MPI_Comm_size", "MPI_Type_size", "MPI_Get_count", "MPI_Wtime", "MPI_Wtick", "MPI_Initialized",
    "MPI_Finalized", "MPI_Comm_group", "MPI_Group_size", "MPI_Group_rank", "MPI_Cart_get", "MPI_Cart_coords",
    "MPI_Cart_rank", "MPI_Cartdim_get", "MPI_Cart_shift", "MPI_Topo_test", "MPI_Get_address", "MPI_Error_string",
    "MPI_Error_class", "MPI_Comm_compare", "MPI_Type_get_envelope", "MPI_Type_get_contents", "MPI_Query_thread",
    "MPI_Type_get_extent", "MPI_Group_translate_ranks", "MPI_Comm_remote_size", "MPI_Comm_test_inter",
    "MPI_Aint_add", "MPI_Aint_diff", "MPI_Get_processor_name", "MPI_Get_version", "MPI_Get_elements", "MPI_File_get_size",
    "MPI_Type_get_true_extent", "MPI_Comm_get_attr", "MPI_Get_library_version", "MPI_Dims_create",
}
IO_FREE = {"fopen", "fread", "fwrite", "fclose", "fgets", "feof", "popen", "pclose",
           "recv", "send", "connect", "bind", "listen", "accept", "socket", "close", "select", "remove", "rename", "unlink",
           "sleep", "usleep", "system", "exit", "abort", "stat", "std::exit", "std::abort", "std::remove", "std::rename",
           "std::filesystem::remove", "std::filesystem::rename", "std::filesystem::create_directory", "mkdir",
           "std::this_thread::sleep_for", "std::getline", "std::filesystem::remove_all", "setsockopt", "write", "read",
           "std::filesystem::copy", "std::filesystem::create_directories", "std::system", "shutdown"}
# external non-const methods returning access without modifying the container
READ_METHODS = {"begin", "end", "rbegin", "rend", "operator[]", "at", "data", "front", "back", "find", "operator*",
                "operator->", "lower_bound", "upper_bound", "get", "cbegin", "cend", "size", "empty", "count", "c_str",
                "equal_range", "origin", "shape", "num_elements", "operator()", "operator bool", "str", "length", "good",
                "is_open", "fail", "eof", "operator!", "rdbuf", "tellg", "value", "load"}
READ_FREE = {"std::accumulate", "std::find", "std::find_if", "std::all_of", "std::any_of", "std::none_of", "std::count",
             "std::count_if", "std::max_element", "std::min_element", "std::is_sorted", "std::equal", "std::distance",
             "std::begin", "std::end", "std::cbegin", "std::cend", "std::min", "std::max", "std::get", "std::move",
             "std::forward", "std::lower_bound", "std::upper_bound", "std::inner_product", "std::addressof", "std::tie",
             "std::make_pair", "std::as_const", "std::next", "std::prev", "std::binary_search", "std::size", "std::data",
             "std::ref", "std::cref", "strlen", "strcmp", "std::lexicographical_compare", "std::minmax_element",
             "std::adjacent_find", "std::mismatch", "std::search", "std::is_permutation", "std::visit", "std::holds_alternative",
             "std::get_if", "std::isnan", "std::isfinite", "std::isinf", "std::reduce", "std::clamp", "boost::get",
             "std::operator==", "std::operator!=", "std::operator<", "std::ref", "std::swap_dummy"}
CONSOLE = ("std::cout", "std::cerr", "std::clog", "std::wcout")
STREAM_OUT = ("std::operator<<", "std::basic_ostream::operator<<")


def base_name(n):
    n = (n or "").split("<")[0] if not (n or "").split("::")[-1].startswith("operator") else (n or "")
    return n


def last(n):
    n = n or ""
    i = n.rfind("::")
    if "operator" in n:
        i = n.rfind("::", 0, n.find("operator") + 1)
    return n[i + 2:] if i >= 0 else n


def is_ptr(t):
    return t.rstrip().endswith("*") or t.rstrip().endswith("*const")


def mutable_ref(t):
    return t.endswith("&") and not t.endswith("&&") and not t.startswith("const ")


def mutable_ptr(t):
    t = t.strip()
    return (t.endswith("*") or t.endswith("*const")) and not t.startswith("const ")


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.sum = {}          # key -> {atom: witness}
        self._solve()

    # ---- lvalue roots
    def roots(self, e, fn, depth=0, deref=False):
        """objects an lvalue / pointer expression may designate or point to:
        ('local',id) ('this',) ('param',i) ('global',q) ('unknown',) ('temp',)"""
        e = strip(e)
        if e is None:
            return {("temp",)}
        if depth > 20:
            return {("unknown",)}
        k = e.get("k")
        D = depth + 1
        if k == "this":
            return {("this",)}
        if k == "ref":
            g = e.get("g")
            if g in ("global", "smember"):
                return {("global", e.get("q") or e.get("n"))}
            if g in ("static", "tls"):
                return {("static", fn.root().q + "::" + e["n"])}
            i = e["d"]
            v = fn.vars().get(i)
            pi = [n for n, p in enumerate(fn.root().params) if p["id"] == i]
            if pi:
                t = fn.root().params[pi[0]]["t"]
                if t.endswith("&") or is_ptr(t) or ("iterator" in t) or "shared_ptr" in t:
                    return {("param", pi[0])}
                return {("local", i)}
            if v is None:
                return {("unknown",)}
            t = v.get("t", "")
            if v.get("rangeof") is not None:
                if t.endswith("&") or is_ptr(t):
                    return self.roots(v["rangeof"], fn, D)
                return {("local", i)}
            if v.get("lamparam"):
                if t.endswith("&") or is_ptr(t):
                    return {("lamparam", i)}
                return {("local", i)}
            if t.endswith("&") or ((is_ptr(t) or "iterator" in t) and deref):
                if v.get("init") is not None:
                    r = self.roots(v["init"], fn, D, deref)
                    return r
                return {("unknown",)} if t.endswith("&") or deref else {("local", i)}
            return {("local", i)}
        if k == "mem":
            if e.get("mk") == "static":
                return {("global", e.get("cls", "") + "::" + e["n"])}
            return self.roots(e["b"], fn, D, deref or bool(e.get("arrow")))
        if k == "sub":
            return self.roots(e["c"][0], fn, D, True)
        if k == "un":
            if e["op"] == "*":
                return self.roots(e["c"][0], fn, D, True)
            if e["op"] == "&":
                return self.roots(e["c"][0], fn, D, False)
            return self.roots(e["c"][0], fn, D, deref)
        if k == "cond":
            return self.roots(e["c"][1], fn, D, deref) | self.roots(e["c"][2], fn, D, deref)
        if k == "bin":
            r = set()
            for c in e["c"]:
                x = self.roots(c, fn, D, deref)
                r |= x
            return {x for x in r if x != ("temp",)} or {("temp",)}
        if k == "asg":
            return self.roots(e["c"][0], fn, D, deref)
        if k == "call":
            n = e.get("n") or ""
            if n.endswith("theMPISystem") or n.endswith("::instance"):
                return {("global", n)}
            if e.get("obj") is not None:
                return self.roots(e["obj"], fn, D, True)
            r = set()
            for a in (e.get("a", [])[:1] if e.get("op") in ("<<", ">>") else e.get("a", [])):
                r |= self.roots(a, fn, D, True)
            t = e.get("t", "")
            if e.get("f") in self.prog.fns and not (t.endswith("&") or is_ptr(t)) and e.get("vk") != "l":
                return {("temp",)}
            return {x for x in r if x != ("temp",)} or {("temp",)}
        if k in ("ctor", "new", "ilist", "lambda"):
            r = set()
            for a in kids(e):
                r |= self.roots(a, fn, D, True)
            return {("temp",)} | {x for x in r if x[0] in ("lamparam",)}
        return {("temp",)}

    # ---- direct effects of a node
    def node(self, n, fn, atoms, lookup=True):
        """adds atoms (atom -> witness) for the immediate effect of n (not of its children)"""
        k = n.get("k")

        def w(expr, deref=False, why=None):
            for r in self.roots(expr, fn, 0, deref):
                if r[0] == "global" and r[1] in CONSOLE:
                    continue
                if r[0] == "static":
                    over = why in ("resize", "assign", "clear", "operator=", "=", "call", "init")
                    r = r + ("set" if over else "accumulate",)
                if r[0] != "temp":
                    atoms.setdefault(("w",) + r, (fn, n, why))

        if k == "asg":
            w(n["c"][0], False, n["op"])
        elif k == "un" and n["op"] in ("++", "--"):
            w(n["c"][0])
        elif k == "delete":
            for r in self.roots(n["c"][0], fn, 0, True):
                if r[0] == "static":
                    r = r + ("accumulate",)
                if r[0] != "temp":
                    atoms.setdefault(("w",) + r, (fn, n, "delete"))
        elif k in ("call", "ctor"):
            if last(n.get("n")) in ("back", "front") and n.get("obj"):
                o = strip(n["obj"])
                if o.get("k") == "call" and o.get("op") == "[]":
                    o["_back"] = True   # map[k].back(): well defined only if the entry exists already
            f = n.get("f")
            callees = self.prog.callees(n) if lookup else []
            nm = n.get("n") or ""
            if nm.startswith("MPI_"):
                if nm not in MPI_QUERY:
                    atoms.setdefault(("comm", nm), (fn, n, None))
                for a, t in zip(n.get("a", []), n.get("pt", [])):
                    if mutable_ptr(t) and strip(a).get("k") not in ("null_ptr",) and t not in ("MPI_Comm", "MPI_Datatype"):
                        if t.replace("struct ", "").startswith("ompi_") and not t.endswith("**"):
                            continue   # handle types are pointers in this MPI
                        w(a, True, nm)
                return
            if callees and (f in self.prog.fns or n.get("virt")):
                for g in callees:
                    for at, wit in list(self.sum.get(g.key, {}).items()):
                        self._map(at, n, g, fn, atoms)
                if f in self.prog.fns:
                    return
            if n.get("fe") is not None and not nm:
                # indirect call
                fe = strip(n["fe"])
                if fe.get("k") == "lambda":
                    g = self.prog.fns.get(fe["f"])
                    if g:
                        for at in list(self.sum.get(g.key, {})):
                            self._map(at, n, g, fn, atoms)
                return
            if nm == "lambda" or nm.endswith("::operator()"):
                return
            if base_name(nm) in IO_FREE or nm in IO_FREE:
                atoms.setdefault(("io", nm), (fn, n, None))
            l = last(nm)
            if k == "ctor":
                for a, t in zip(n.get("a", []), n.get("pt", [])):
                    if mutable_ref(t) and not n.get("cls", "").startswith(("std::", "boost::", "__gnu")):
                        w(a, False, nm)
                if n.get("cls", "").startswith(("std::basic_ofstream", "std::ofstream", "std::basic_ifstream", "std::ifstream",
                                                "std::basic_fstream", "std::fstream")) and n.get("a"):
                    atoms.setdefault(("io", n["cls"]), (fn, n, None))
                return
            if n.get("obj") is not None or n.get("op"):
                o = n.get("obj")
                args = n.get("a", [])
                if o is None and args:
                    o, args = args[0], args[1:]
                op = n.get("op")
                isio = op in ("<<", ">>") or l in ("write", "read", "open", "close", "flush", "put", "putback", "seekg", "ignore")
                if op in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "%=", "<<=", ">>=", "++", "--", "<<", ">>"):
                    pt = (n.get("pt") or [""])[0]
                    if n.get("obj") is not None or mutable_ref(pt):
                        w(o, False, l)
                elif op == "[]" and ("map" in nm) and not n.get("_back"):
                    w(o, False, l)
                elif not op and not n.get("mc") and not n.get("ms") and l not in READ_METHODS and n.get("obj") is not None:
                    w(o, False, l)
                if isio:
                    ot = (strip(o) or {}).get("t", "")
                    for r in self.roots(o, fn):
                        if r[0] == "global" and r[1] in ("std::cin",):
                            atoms.setdefault(("io", r[1]), (fn, n, None))
                    if "fstream" in ot:
                        atoms.setdefault(("io", "fstream"), (fn, n, None))
                if op == ">>" and args:
                    w(args[0], False, l)
                if op:
                    return
                for a, t in zip(n.get("a", []), n.get("pt", [])):
                    if mutable_ref(t) and base_name(nm) not in READ_FREE and not nm.startswith("std::"):
                        w(a, False, nm)
                return
            if base_name(nm) in READ_FREE:
                return
            for a, t in zip(n.get("a", []), n.get("pt", [])):
                if mutable_ref(t):
                    w(a, False, nm)
                elif mutable_ptr(t) or "iterator" in t:
                    ro = base_name(nm) in ("std::copy", "std::transform", "std::copy_if", "std::copy_n", "std::partial_sum")
                    if ro and a is n["a"][0]:
                        continue
                    if ro and len(n["a"]) > 1 and a is n["a"][1] and base_name(nm) != "std::copy_n":
                        continue
                    if "const_iterator" in t or "<const" in t:
                        continue
                    w(a, True, nm)

    def _map(self, at, call, g, fn, atoms0):
        """callee atom -> caller atom"""
        atoms = {}
        self._map0(at, call, g, fn, atoms)
        for a, w in atoms.items():
            if not (a[0] == "w" and a[1] == "global" and a[2] in CONSOLE):
                atoms0.setdefault(a, w)

    def _map0(self, at, call, g, fn, atoms):
        wit = (fn, call, g)
        if at[0] in ("comm", "io"):
            atoms.setdefault(at, wit)
            return
        if at[0] != "w":
            return
        r = at[1:]
        if r[0] == "this":
            if call.get("k") == "ctor":
                return
            o = call.get("obj")
            if g.is_lambda:
                atoms.setdefault(at, wit)
                return
            if o is None:
                atoms.setdefault(("w", "this"), wit)
                return
            for x in self.roots(o, fn, 0, True):
                if x[0] == "static":
                    x = x + ("set",)
                if x[0] != "temp":
                    atoms.setdefault(("w",) + x, wit)
        elif r[0] == "param":
            if g.is_lambda:
                return
            args = call.get("a", [])
            if r[1] < len(args):
                for x in self.roots(args[r[1]], fn, 0, True):
                    if x[0] == "static":
                        x = x + ("set",)
                    if x[0] != "temp":
                        atoms.setdefault(("w",) + x, wit)
        elif r[0] == "lamparam":
            # parameter of a lambda invoked here
            for p, a in zip(g.params, call.get("a", [])):
                if p["id"] == r[1]:
                    for x in self.roots(a, fn, 0, True):
                        if x[0] == "static":
                            x = x + ("set",)
                        if x[0] != "temp":
                            atoms.setdefault(("w",) + x, wit)
        elif r[0] == "local":
            if g.is_lambda:
                atoms.setdefault(at, wit)
        else:
            atoms.setdefault(at, wit)

    def _solve(self):
        fns = self.prog.fns
        cached = {}
        for f in fns.values():
            self.sum[f.key] = {}
        # which lambdas run: treat a lambda's effects as happening where it is created (over-approximation)
        callers = {}
        nodes = {}
        for f in fns.values():
            ns = []
            for n in (walk(f.body, lambdas=False) if f.body else ()):
                if n.get("k") in ("asg", "un", "delete", "call", "ctor", "lambda"):
                    ns.append(n)
            for i in f.d.get("inits", []):
                if i.get("e"):
                    for n in walk(i["e"], lambdas=False):
                        if n.get("k") in ("asg", "un", "delete", "call", "ctor", "lambda"):
                            ns.append(n)
            nodes[f.key] = ns
            for n in ns:
                if n["k"] in ("call", "ctor"):
                    for g in self.prog.callees(n):
                        callers.setdefault(g.key, set()).add(f.key)
                elif n["k"] == "lambda":
                    callers.setdefault(n["f"], set()).add(f.key)
        self.nodes = nodes
        work = list(fns)
        inw = set(work)
        while work:
            k = work.pop()
            inw.discard(k)
            f = fns[k]
            old = self.sum[k]
            atoms = dict(old)
            for n in nodes[k]:
                if n["k"] == "lambda":
                    g = fns.get(n["f"])
                    if g is not None:
                        for at in list(self.sum[g.key]):
                            if at[0] == "w" and at[1] == "lamparam":
                                continue
                            if at[0] == "w" and at[1] == "local" and at[2] in {p["id"] for p in g.params}:
                                continue
                            atoms.setdefault(at, (f, n, g))
                else:
                    self.node(n, f, atoms)
            # locals of a non-lambda do not outlive it
            if not f.is_lambda:
                atoms = {a: w for a, w in atoms.items() if not (a[0] == "w" and a[1] in ("local", "lamparam"))}
            if len(atoms) != len(old):
                self.sum[k] = atoms
                for c in callers.get(k, ()):
                    if c not in inw:
                        inw.add(c)
                        work.append(c)

    def expr(self, e, fn):
        """atoms of evaluating expression / statement e in fn (locals included)"""
        atoms = {}
        for n in walk(e, lambdas=False):
            if n.get("k") == "lambda":
                g = self.prog.fns.get(n["f"])
                if g is not None:
                    for at in self.sum[g.key]:
                        if at[0] == "w" and at[1] == "lamparam":
                            continue
                        if at[0] == "w" and at[1] == "local" and at[2] in {p["id"] for p in g.params}:
                            continue
                        atoms.setdefault(at, (fn, n, g))
            elif n.get("k") in ("asg", "un", "delete", "call", "ctor"):
                self.node(n, fn, atoms)
        # variables declared inside e do not outlive it
        decl = set()
        for n in walk(e):
            if n.get("k") == "decl":
                decl |= {v["id"] for v in n["vars"]}
            elif n.get("k") == "lambda":
                decl |= {v["id"] for v in n["params"]}
            elif n.get("k") == "rfor":
                decl.add(n["var"]["id"])
        return {a: w for a, w in atoms.items() if not (a[0] == "w" and a[1] == "local" and a[2] in decl)}

    def leaf(self, atom, wit):
        """the primitive operation behind an atom"""
        seen = set()
        while wit:
            fn, n, g = wit
            if g is None or isinstance(g, str) or g.key in seen:
                return n
            seen.add(g.key)
            nx = self.sum[g.key].get(atom)
            if nx is None:
                cand = [w for a, w in self.sum[g.key].items() if a[0] == atom[0]]
                nx = cand[0] if cand else None
            if nx is None:
                return n
            wit = nx

    def trace(self, atom, wit, limit=8):
        out = []
        while wit and limit:
            fn, n, g = wit
            out.append("%s in %s: %s" % (fn.where(n), fn.q, (n.get("n") or n.get("k") or "")))
            limit -= 1
            if g is None or isinstance(g, str):
                break
            nx = self.sum[g.key].get(atom)
            if nx is None:
                cand = [w for a, w in self.sum[g.key].items() if a[0] == atom[0]]
                nx = cand[0] if cand else None
            wit = nx
        return out
