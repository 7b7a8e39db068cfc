"""Effects: state shared between separate objects, and sources of results that no input determines.

Two dataflow analyses over every function of the sources (all translation units, every instantiation):
 - which variables of static storage are changed after their initialisation, and where they are read; references to them are
   followed through functions that hand them out and through local references;
 - where the results of calls to clocks, random sources, the environment, files or threads can go."""
from drive import prog
from prog import strip
from export import BrokenAnalysis

IMPURE = {"time", "clock", "gettimeofday", "clock_gettime", "ftime", "rand", "rand_r", "srand", "random", "srandom", "drand48",
          "lrand48", "mrand48", "erand48", "getenv", "secure_getenv", "std::getenv", "std::rand", "std::srand", "std::time",
          "std::clock", "getpid", "gettid", "pthread_self", "fopen", "open", "read", "fread", "fgets", "scanf", "std::fopen",
          "std::fread", "std::getline", "std::async", "arc4random", "getrandom", "getentropy", "std::system", "system",
          "std::random_shuffle", "sched_getcpu", "gethostname", "getcwd", "usleep", "sleep", "std::get_id"}
IMPURECLS = ("random_device", "mersenne_twister_engine", "linear_congruential_engine", "subtract_with_carry_engine",
             "basic_ifstream", "basic_fstream", "basic_ofstream", "thread", "jthread", "condition_variable", "future", "promise")
HARMLESS = ("mutex", "recursive_mutex", "shared_mutex", "once_flag", "atomic_flag", "locale", "basic_ostream")


def impure(ref):
    qn = strip(ref.get("qn") or "")
    if qn in IMPURE and not ref.get("repo"):
        return qn
    if qn.startswith("std::chrono::") and qn.split("::")[-1] == "now":
        return qn
    if qn.startswith("std::this_thread::"):
        return qn
    cn = strip(ref.get("clsn") or "")
    if cn.startswith("std::") and cn.split("::")[-1] in IMPURECLS and not ref.get("dtor"):
        return "%s::%s" % (cn, ref.get("n"))
    return None


def kids(n):
    if isinstance(n, dict):
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                yield v
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield v


class Site:
    __slots__ = ("file", "line", "fn", "use", "in_init")

    def __init__(self, file, line, fn, use):
        self.file, self.line, self.fn, self.use = file, line, fn, use

    def __str__(self):
        return "%s:%s (%s)" % (self.file, self.line, self.fn)


def base_var(n):
    """the variable or handed-out reference an expression denotes a part of"""
    while isinstance(n, dict):
        k = n.get("k")
        if k in ("var", "call", "mcall"):
            return n
        if k == "mem" and not n.get("arrow"):
            n = n.get("e")
        elif k == "sub":
            n = n.get("a")
        elif k == "cast":
            n = n.get("e")
        else:
            return None
    return None


class Effects:
    def __init__(self, p=None):
        self.p = p or prog()
        self.fns = []          # (tu, func, body nodes)
        self.gv = {}           # gu -> (tu, description)
        for tn in self.p.order:
            for u, g in self.p.tus[tn].get("gvars", {}).items():
                old = self.gv.get(u)
                if old is None or (not old[1].get("def") and g.get("def")):
                    self.gv[u] = (tn, g)
        seen = set()
        for u, l in self.p.funcs.items():
            for tn, f in l:
                key = (u, f["file"], f["line"])
                if key in seen or f.get("body") is None:
                    continue
                seen.add(key)
                self.fns.append((tn, u, f))
        if not self.fns:
            raise BrokenAnalysis("no functions exported")
        self.uses = {}         # gu -> [Site]
        self.collect()

    # ------------------------------------------------------------ static storage
    def collect(self):
        """uses of every static object, through accessors and local references"""
        acc = {}               # function usr -> set of gu handed out by reference
        for guard in range(5):
            new = {}
            self.uses = {}
            for tn, u, f in self.fns:
                self.scan(tn, u, f, acc, new)
            if new == acc:
                break
            acc = new
        self.accessors = acc

    def scan(self, tn, u, f, acc, new):
        alias = {}
        ref = self.p.ref(tn, u) or {}
        rt = self.p.ty(tn, f.get("ret"))
        outref = rt is not None and rt.k == "ref"

        def objs(n):
            b = base_var(n)
            if b is None:
                return set()
            if b.get("gu"):
                return {b["gu"]}
            if b["k"] == "var":
                return alias.get(b.get("v"), set())
            return acc.get(b.get("fn"), set())

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k == "decl":
                for d in n["d"]:
                    t = self.p.ty(tn, d["t"])
                    if t is not None and t.k == "ref" and isinstance(d.get("init"), dict):
                        o = objs(d["init"])
                        if o:
                            alias[d["v"]] = alias.get(d["v"], set()) | o
                    if d.get("static") and d.get("gu"):
                        # the initialiser runs once, on its own
                        walk(d.get("init"))
                        continue
                    walk(d.get("init"))
                return
            if k == "rfor":
                t = self.p.ty(tn, n["var"]["t"])
                o = objs(n.get("range"))
                if o and t is not None and t.k == "ref":
                    alias[n["var"]["v"]] = o
            if k == "ret" and outref:
                o = objs(n.get("e"))
                if o:
                    new[u] = new.get(u, set()) | o
            if k in ("var", "call", "mcall") and n.get("use"):
                o = objs(n)
                for g in o:
                    self.uses.setdefault(g, []).append(Site(f["file"], n.get("l"), f["qn"], n["use"]))
            for x in kids(n):
                walk(x)
        walk(f.get("body"))
        for i in f.get("inits", []):
            walk(i.get("e"))

    def table(self, tn, t, depth=0):
        """a type that holds functions by name and nothing else"""
        if t is None or depth > 5:
            return False
        if t.k == "ref":
            return self.table(tn, t.to, depth + 1)
        if t.k != "rec":
            return False
        if t.name == "std::function":
            return True
        if t.name in ("std::map", "std::unordered_map") and len(t.args) > 1:
            return self.table(tn, t.args[1], depth + 1)
        c = self.p.classes.get(t.usr)
        if c is not None and c[1]["fields"]:
            return all(self.table(c[0], self.p.ty(c[0], f["t"]), depth + 1) for f in c[1]["fields"])
        return False

    def harmless(self, tn, t):
        return t is not None and t.k == "rec" and (t.name.split("::")[-1] in HARMLESS or self.registry(t) or self.table(tn, t))

    def registry(self, t):
        return t is not None and t.k == "rec" and t.usr in self.p.classes and self.p.simple(t.usr) == "FactoryOp"

    def changing(self):
        """static objects some function changes after their initialisation: gu -> sites"""
        r = {}
        for u, (tn, g) in self.gv.items():
            if g["const"] or not g["repo"]:
                continue
            if self.harmless(tn, self.p.ty(tn, g["t"])):
                continue
            w = [s for s in self.uses.get(u, []) if s.use == "w"]
            if w:
                r[u] = w
        return r

    def shared(self):
        """static objects that are changed and whose content is used: [(description, changed at, used at)]"""
        out = []
        for u, w in self.changing().items():
            tn, g = self.gv[u]
            t = self.p.ty(tn, g["t"])
            us = self.uses.get(u, [])
            rd = [s for s in us if s.use in ("r", "m")]
            if not rd and t is not None and t.k == "rec":
                rd = us if len(us) > len(w[:1]) else []
            if rd and not self.renewed(u):
                out.append((u, g, w, rd))
        return out

    def renewed(self, u):
        """a static local that every call overwrites before it uses it"""
        tn, g = self.gv[u]
        t = self.p.ty(tn, g["t"])
        fields = None
        if t is not None and t.k == "rec" and t.usr in self.p.classes:
            fields = {self.p.fkey[f["usr"]] for c in self.p.hier(t.usr) for f in self.p.classes[c][1]["fields"]}

        def mentions(n):
            if isinstance(n, list):
                return any(mentions(x) for x in n)
            if not isinstance(n, dict):
                return False
            return n.get("gu") == u or any(mentions(x) for x in kids(n))

        def blocks(n):
            if isinstance(n, list):
                for x in n:
                    yield from blocks(x)
            elif isinstance(n, dict):
                if n.get("k") == "block":
                    yield n
                for x in kids(n):
                    yield from blocks(x)

        def whole(e):
            return isinstance(e, dict) and e.get("k") == "var" and e.get("gu") == u
        if not g["local"]:
            return False
        seen = False
        for tn2, fu, f in self.fns:
            for b in blocks(f.get("body")):
                at = [i for i, x in enumerate(b["s"]) if isinstance(x, dict) and x.get("k") == "decl" and
                      any(d.get("gu") == u for d in x["d"])]
                if not at:
                    continue
                seen = True
                todo = set(fields or ())
                fine = False
                for x in b["s"][at[0] + 1:]:
                    if not mentions(x):
                        continue
                    e = x.get("e") if isinstance(x, dict) and x.get("k") == "expr" else None
                    if not isinstance(e, dict):
                        break
                    if e["k"] == "assign" and e["op"] == "=" and not mentions(e["b"]):
                        if whole(e["a"]):
                            fine = True
                            break
                        if e["a"].get("k") == "mem" and whole(e["a"].get("e")):
                            todo.discard(self.p.fkey.get(e["a"]["fu"]))
                            if not todo:
                                fine = True
                                break
                            continue
                        break
                    if e["k"] == "opcall" and e["op"] == "=" and whole(e["args"][0]) and not mentions(e["args"][1]):
                        fine = True
                        break
                    if e["k"] == "mcall" and whole(e.get("e")) and not mentions(e.get("args")) and \
                            (self.p.ref(tn2, e.get("fn")) or {}).get("n") in ("clear", "assign"):
                        fine = True
                        break
                    break
                if not fine:
                    return False
        return seen

    # ------------------------------------------------------------ sources nothing determines
    def flows(self):
        """uses of undetermined sources whose value or effect can reach a result: [(source, Site, where it goes)]"""
        out = []
        self.sources = 0
        for tn, u, f in self.fns:
            out += self.flow(tn, f)
        return out

    def flow(self, tn, f):
        found = []
        tainted = {}
        p = self.p

        def stream(n):
            t = p.ty(tn, n.get("t")) if isinstance(n, dict) else None
            while t is not None and t.k == "ref":
                t = t.to
            return t is not None and t.k == "rec" and "ostream" in t.name

        def src(n):
            """the undetermined source an expression's value comes from, or None"""
            if isinstance(n, list):
                for x in n:
                    r = src(x)
                    if r:
                        return r
                return None
            if not isinstance(n, dict):
                return None
            k = n.get("k")
            if k == "lambda":
                return None
            if k == "var" and n.get("v") in tainted:
                return tainted[n["v"]]
            if n.get("fn") and k in ("call", "mcall", "opcall", "ctor"):
                ref = p.ref(tn, n["fn"])
                x = impure(ref) if ref else None
                if x:
                    return x
            if k == "cast" and n.get("ck") == "PointerToIntegral":
                return "the address of an object"
            for x in kids(n):
                r = src(x)
                if r:
                    return r
            return None

        def hit(n, s, how):
            found.append((s, Site(f["file"], n.get("l") if isinstance(n, dict) else f["line"], f["qn"], "m"), how))

        def local(n):
            b = base_var(n)
            return b is not None and b["k"] == "var" and not b.get("global")

        def walk(n, changed):
            if isinstance(n, list):
                for x in n:
                    walk(x, changed)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k == "decl":
                for d in n["d"]:
                    t = p.ty(tn, d["t"])
                    s = src(d.get("init"))
                    if s and d["v"] not in tainted:
                        tainted[d["v"]] = s
                        changed.append(1)
                    if s and d.get("static"):
                        hit(n, s, "is kept in a static variable")
                    # what happens inside the initialiser
                    walk(d.get("init"), changed)
                return
            if k == "assign":
                s = src(n.get("b"))
                if s:
                    if local(n.get("a")):
                        v = base_var(n["a"])["v"]
                        if v not in tainted:
                            tainted[v] = s
                            changed.append(1)
                    else:
                        hit(n, s, "is stored in an object")
            elif k == "ret":
                s = src(n.get("e"))
                if s:
                    hit(n, s, "is handed out")
            elif k in ("if", "while", "do", "for", "switch"):
                s = src(n.get("c"))
                if s:
                    hit(n, s, "decides what is done")
            elif k == "cond":
                s = src(n.get("c"))
                if s:
                    hit(n, s, "decides a value")
            elif k == "throw":
                s = src(n.get("e"))
                if s:
                    hit(n, s, "enters an exception")
            elif k == "rfor":
                s = src(n.get("range"))
                if s:
                    hit(n, s, "is iterated over")
            elif k in ("call", "mcall", "ctor", "opcall"):
                ref = p.ref(tn, n.get("fn")) if n.get("fn") else None
                if ref is not None and ref.get("repo"):
                    s = src(n.get("args", []))
                    if s:
                        hit(n, s, "is passed to %s" % ref.get("qn"))
                elif k == "mcall" and not stream(n.get("e")):
                    s = src(n.get("args", []))
                    if s:
                        o = n.get("e")
                        if local(o):
                            v = base_var(o)["v"]
                            if v not in tainted:
                                tainted[v] = s
                                changed.append(1)
                        elif not (ref or {}).get("const") and not src(o):
                            hit(n, s, "is stored in an object")
                elif k == "opcall" and n.get("op") in ("=", "+=", "-=") and len(n.get("args", [])) == 2:
                    s = src(n["args"][1])
                    if s:
                        if local(n["args"][0]):
                            v = base_var(n["args"][0])["v"]
                            if v not in tainted:
                                tainted[v] = s
                                changed.append(1)
                        else:
                            hit(n, s, "is stored in an object")
                elif ref is not None and k in ("call", "ctor"):
                    x = impure(ref)
                    if x:
                        self.sources += 1
                    if x and (x.split("::")[-1] in ("async", "system", "srand", "random_shuffle", "thread", "jthread")):
                        hit(n, x, "is started")
            for x in kids(n):
                walk(x, changed)
        for guard in range(6):
            changed = []
            found.clear()
            self_src = self.sources
            walk(f.get("body"), changed)
            for i in f.get("inits", []):
                s = src(i.get("e"))
                if s:
                    hit({"l": i.get("l")}, s, "initialises a member")
                walk(i.get("e"), changed)
            if not changed:
                break
            self.sources = self_src
        return found


def check(out, tier, seed):
    ef = Effects()
    out.rules.append("no object of static storage is changed after its initialisation and used (references followed through "
                     "functions and local names), except the registry object and tables of functions; no clock, random "
                     "source, environment, file, thread or address can reach a result, a member, a branch or an exception")
    ch = ef.shared()
    bad = {u for u, *_ in ch}
    n = 0
    for u, (tn, g) in sorted(ef.gv.items()):
        if not g["repo"]:
            continue
        n += 1
        us = ef.uses.get(u, [])
        t = ef.p.ty(tn, g["t"])
        kind = "constant" if g["const"] else "registry" if ef.registry(t) else "table of functions" if ef.table(tn, t) else \
            "not changed" if not [s for s in us if s.use == "w"] else "changed, not used" if u not in bad else "changed and used"
        out.items.append({"static_object": g["n"], "declared": "%s:%s" % (g["file"], g["line"]), "kind": kind,
                          "uses": len(us), "status": "violated" if u in bad else "established"})
        if u not in bad:
            out.decided += 1
    for u, g, w, rd in ch:
        out.alarm("static/%s/%s" % (g["file"].split("/")[-1], g["n"]), "%s %s is shared by every object that runs this code: changed at %s, used at %s" % (
            "static variable" if g["local"] else "variable", g["n"], ", ".join(sorted({str(s) for s in w}))[:300],
            ", ".join(sorted({str(s) for s in rd}))[:300]), "%s:%s" % (g["file"], g["line"]),
            "declared %s:%s" % (g["file"], g["line"]))
    for s, site, how in ef.flows():
        out.alarm("source/%s/%s" % (s, site.fn), "the result of %s %s in %s" % (s, how, site.fn), str(site))
    out.count("functions", len(ef.fns))
    out.count("static_objects", n)
    out.count("undetermined_sources", ef.sources)
    out.decided += len(ef.fns)
    if len(ef.fns) < 100:
        raise BrokenAnalysis("only %d functions seen" % len(ef.fns))
