"""Abstract interpreter over the resolved syntax tree.

Domain: value numbers (terms.py) x container shapes (values.py) x linear facts (facts.py), with trace partitioning
at branches, calls inlined, loops summarised by recurrence/reduction templates that are verified inductively, or
widened to unknown."""
from values import *
from terms import _collect
from facts import Facts
from prog import strip
import re

MAXDEPTH = 60
MAXSTATES = 6000
MAXUNROLL = 40


class State:
    __slots__ = ("store", "frames", "facts", "events", "exc", "pc", "line")

    def __init__(self):
        self.store = {}
        self.frames = []
        self.facts = Facts()
        self.events = ()
        self.exc = None
        self.pc = ()
        self.line = None

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.frames = [f.copy() for f in self.frames]
        s.facts = self.facts.copy()
        s.events, s.exc, s.pc, s.line = self.events, self.exc, self.pc, self.line
        return s

    def assume(self, c):
        """adds a branch condition; False when infeasible"""
        ok = self.facts.assume(c)
        if ok and c != T:
            self.pc = self.pc + (c,)
        return ok


class Frame:
    __slots__ = ("env", "this", "tu", "fn", "file")

    def __init__(self, tu, fn, this=None, env=None, file=None):
        self.tu, self.fn, self.this, self.file = tu, fn, this, file
        self.env = env if env is not None else {}

    def copy(self):
        return Frame(self.tu, self.fn, self.this, dict(self.env), self.file)


FUNCTORS = {"less": "<", "greater": ">", "equal_to": "==", "not_equal_to": "!=", "less_equal": "<=", "greater_equal": ">=",
            "plus": "+", "minus": "-", "multiplies": "*", "divides": "/"}
ARRLEN = re.compile(r"std::array<.*, (\d+)>$")


def same_value(a, b):
    try:
        return a == b
    except Exception:
        return False


def asbit(p):
    """the condition behind a number that is 0 or 1, or None"""
    c = p.const()
    if c is not None:
        return F if c == 0 else T if c == 1 else None
    a = p.single()
    if a is not None:
        at = by_id(a) if isinstance(a, int) else a
        if at.key[0] == "ite" and at.key[2] == ONE:
            return at.key[1]
    q = (ONE - p).single()
    if q is not None:
        at = by_id(q) if isinstance(q, int) else q
        if at.key[0] == "ite" and at.key[2] == ONE:
            return c_not(at.key[1])
    return None


class Engine:
    nit = 0          # names are never reused: interned symbols keep their sort
    nfresh = 0

    def __init__(self, prog):
        self.prog = prog
        self.nloc = 0
        self.hooks = {}        # (class simple name, method name) -> f(engine, st, obj, args, node, ref)
        self.depth = 0
        self.steps = 0
        self.funcs_seen = set()
        self.dtors = {}
        self.heap_ty = {}
        self.small = set()
        self.touched = set()       # changing static objects an analysis came across
        self.validator = None       # (state, validator, method, arguments) -> accepts, rejects, either (None)
        self.wraps = []        # counters that may run over: (facts, condition, place, bits)
        self.lost = None       # reasons of the paths given up, when the client goes on without them
        import stdmodel
        self.std = stdmodel.Std(self)

    # ------------------------------------------------------------------ helpers
    def newloc(self, tag="l"):
        self.nloc += 1
        return "%s%d" % (tag, self.nloc)

    def alloc(self, st, v, tag="l"):
        l = self.newloc(tag)
        st.store[l] = v
        return LV(l)

    def fresh(self, what, isint=False, nn=False):
        Engine.nfresh += 1
        return P(atom(("opq", what, self.nfresh), isint, nn))

    def itatom(self):
        Engine.nit += 1
        return atom(("it", self.nit), True, True)

    def repn(self, x, count):
        """piece: the value x repeated count times"""
        from loops import rbound
        return ("rep", rbound(x), count, T, (("e", x),))

    def defaultinit0(self, s, t, n):
        """value-initialised object"""
        if t is not None and t.k == "rec" and t.usr in self.prog.classes:
            return self.defaultinit(s, t, n)
        return self.default(t, s, True)

    def undecided(self, why, node=None, st=None):
        f = st.frames[-1] if st and st.frames else None
        where = ""
        if f is not None:
            where = " at %s:%s (%s)" % ((f.file or "?").split("/")[-1], node.get("l") if isinstance(node, dict) else "?",
                                        f.fn)
        raise Undecided(why + where)

    def ty(self, st, i):
        return self.prog.ty(st.frames[-1].tu, i)

    def tick(self):
        self.steps += 1
        if self.steps > 4000000:
            raise Undecided("analysis budget exhausted")

    # ------------------------------------------------------------------ symbolic values
    def symval(self, t, key, depth=0):
        if t is None:
            return Opq(key)
        k = t.k
        if k == "int":
            return P(atom(key, True, not t.sg))
        if k == "enum":
            return P(atom(key, True, True))
        if k == "float":
            return P(atom(key))
        if k == "bool":
            return c_bool(atom(key))
        if k == "ptr":
            return PtrV(("sym", key), t.to)
        if k == "rec":
            n = t.name
            if n == "std::basic_string":
                return SA(key)
            if n in ("std::vector", "std::deque", "std::list", "std::initializer_list"):
                return SeqV(t.args[0], key, ZERO, P(atom(("len", key), True, True)), ())
            if n in ("std::map", "std::unordered_map"):
                return MapV(t.args[0], t.args[1], key, ())
            if n in ("std::set", "std::unordered_set"):
                return MapV(t.args[0], None, key, ())
            if n == "std::pair":
                return Struct("std::pair", {"first": self.symval(t.args[0], ("fld", key, "first")),
                                            "second": self.symval(t.args[1], ("fld", key, "second"))})
            if n in ("std::unique_ptr", "std::shared_ptr"):
                return PtrV(("sym", key), t.args[0], n[5:])
            if n == "std::function":
                return Func("sym", key, t)
            if n == "std::optional":
                return OptV(c_bool(atom(("fld", key, "has"))), self.symval(t.args[0], ("fld", key, "val")), t.args[0])
            if n.endswith("::basic_json"):
                return Json("sym", key)
            if t.usr in self.prog.classes:
                if self.is_operator(t.usr):
                    return Struct("?" + t.usr, {"__key": ("k", key)})
                return self.symstruct(t.usr, key, depth)
        return Opq(key, t)

    def is_operator(self, usr):
        return any(self.prog.simple(u) == "Operator" for u in self.prog.hier(usr))

    def symstruct(self, usr, key, depth=0):
        f = {}
        for c in self.prog.hier(usr):
            tn, cc = self.prog.classes[c]
            for fd in cc["fields"]:
                k = self.prog.fkey[fd["usr"]]
                f[k] = self.symval(self.prog.fty[k], ("fld", key, fd["n"]), depth + 1)
        return Struct(usr, f)

    def default(self, t, st=None, zero=False):
        """value-initialised / default constructed value of type t"""
        if t is None:
            return Opq("?")
        k = t.k
        if k in ("int", "enum", "float"):
            return ZERO if zero else self.uninit(t)
        if k == "bool":
            return F if zero else c_bool(atom(("uninit", self.nextfresh())))
        if k == "ptr":
            return PtrV(None, t.to) if zero else PtrV(("sym", ("uninit", self.nextfresh())), t.to)
        if k == "rec":
            n = t.name
            if n == "std::basic_string":
                return S("")
            if n in ("std::vector", "std::deque", "std::list", "std::initializer_list"):
                return empty_seq(t.args[0])
            if n in ("std::map", "std::unordered_map"):
                return MapV(t.args[0], t.args[1], None, ())
            if n in ("std::set", "std::unordered_set"):
                return MapV(t.args[0], None, None, ())
            if n == "std::array":
                m = ARRLEN.search(t.s)
                if m is None:
                    raise Undecided("length of %s" % t.s)
                return SeqV(t.args[0], None, ZERO, ZERO, [("e", self.default(t.args[0], st, zero)) for _ in range(int(m.group(1)))])
            if n == "std::tuple":
                return Struct("std::tuple", {str(i): self.default(a, st, zero) for i, a in enumerate(t.args)})
            if n == "std::pair":
                return Struct("std::pair", {"first": self.default(t.args[0], st, zero),
                                            "second": self.default(t.args[1], st, zero)})
            if n in ("std::unique_ptr", "std::shared_ptr"):
                return PtrV(None, t.args[0], n[5:])
            if n == "std::function":
                return Func("null", None)
            if n == "std::optional":
                return OptV(F, None, t.args[0])
            if n.endswith("::basic_json"):
                return Json("null")
        return Opq(("default", t.s), t)

    def nextfresh(self):
        Engine.nfresh += 1
        return self.nfresh

    def uninit(self, t):
        Engine.nfresh += 1
        return P(atom(("uninit", self.nfresh), t.k != "float", False))

    # ------------------------------------------------------------------ memory
    def read(self, st, lv):
        if lv.loc not in st.store:
            self.heap(st, lv.loc)
        v = st.store[lv.loc]
        for i, stp in enumerate(lv.path):
            v = self.step(st, v, stp)
        return v

    def heap(self, st, loc):
        if isinstance(loc, tuple) and loc[0] == "heap":
            t = self.heap_ty.get(loc)
            st.store[loc] = self.symval(t, ("deref", loc[1]))
            return
        raise Undecided("dangling location %s" % (loc,))

    def step(self, st, v, s):
        if s[0] == "f":
            if isinstance(v, Struct):
                if s[1] in v.f:
                    return v.f[s[1]]
                if "__key" in v.f:
                    return self.symval(self.prog.fty.get(s[1]), ("fld", v.f["__key"][1], s[1]))
                raise Undecided("no field %s in %s" % (s[1], v.cls))
            if isinstance(v, Opq):
                return self.symval(self.prog.fty.get(s[1]), ("fld", v.key, s[1]))
            raise Undecided("field %s of %r" % (s[1], v))
        if s[0] == "m":
            r = self.map_get(st, v, s[1])
            if r is None:
                raise Undecided("map entry %r not resolved" % (s[1],))
            return r
        if s[0] == "i":
            return self.seq_get(st, v, s[1])
        if s[0] == "o":
            return v.v
        if s[0] == "mk":
            return s[1]
        if s[0] == "j":
            if isinstance(v, Json):
                if v.kind == "obj":
                    for k, x in v.a:
                        if k == s[1]:
                            return x
                    return Json("null")
                if v.kind == "null":
                    return Json("null")
                return Json("sym", ("jget", v.a, s[1]))
        raise Undecided("path step %r" % (s,))

    def map_get(self, st, m, key):
        if isinstance(m, Opq):
            raise Undecided("entry of unknown map")
        for k, v, c in m.ents:
            q = st.facts.query(self.val_eq(k, key))
            if q is True:
                return None if v is ABSENT else v
            if q is None:
                return None
        if m.base is not None:
            return UNIT if m.vty is None else self.symval(m.vty, ("get", m.base, key))
        return None

    def val_eq(self, a, b):
        if a is b or a == b:
            return T
        if isinstance(a, Str) and isinstance(b, Str):
            return str_eq(a, b)
        if isnum(a) and isnum(b):
            return c_eq(a - b)
        if iscond(a) and iscond(b):
            return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            return self.ptr_eq(a, b)
        if isinstance(a, Struct) and isinstance(b, Struct) and a.f.keys() == b.f.keys() and "__key" not in a.f:
            return c_and(*[self.val_eq(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            x, y = self.flat(a), self.flat(b)
            if x is not None and y is not None:
                if len(x) != len(y):
                    return F
                return c_and(*[self.val_eq(p, q) for p, q in zip(x, y)])
        if isinstance(a, MapV) and isinstance(b, MapV) and a.base is None and b.base is None:
            ea = [(k, v) for k, v, c in a.ents if v is not ABSENT]
            eb = [(k, v) for k, v, c in b.ents if v is not ABSENT]
            if all(c == T for m in (a, b) for k, v, c in m.ents if v is not ABSENT):
                known = [(self.val_eq(k, q), v, w) for k, v in ea for q, w in eb]
                if all(c in (T, F) for c, v, w in known):
                    # keys with a known relation: same key set and equal values
                    if len(ea) != len(eb):
                        return F
                    hit = [(v, w) for c, v, w in known if c == T]
                    return c_and(*[self.val_eq(v, w) if v is not UNIT else T for v, w in hit]) if len(hit) == len(ea) else F
        x, y = sorted([a, b], key=repr)
        return c_bool(atom(("veq", x, y)))

    def ptr_eq(self, a, b):
        if a.to is None and b.to is None:
            return T
        if a.to is None or b.to is None:
            x = b if a.to is None else a
            if isinstance(x.to, LV):
                return F
            return c_bool(atom(("null", x.to[1])))
        if isinstance(a.to, LV) and isinstance(b.to, LV):
            return T if a.to == b.to else F
        x, y = sorted([a, b], key=repr)
        return c_bool(atom(("peq", x.to, y.to)))

    def flat(self, s):
        """list of element values of a fully explicit sequence, or None"""
        if s.base is not None:
            c = (s.hi - s.lo).const()
            if c != 0:
                return None
        r = []
        for p in s.tail:
            if p[0] != "e":
                return None
            r.append(p[1])
        return r

    def seq_elem(self, s, idx):
        return self.symval(s.ety, ("at", s.base, idx))

    def seq_get(self, st, s, idx):
        if isinstance(s, Opq):
            return self.symval(s.ty.args[0] if s.ty is not None and s.ty.args else None, ("at", s.key, idx))
        if isinstance(s, Str):
            if s.const() is not None and idx.const() is not None and 0 <= idx.const() < len(s.const()):
                return P(ord(s.const()[int(idx.const())]))
            return P(atom(("app", "char", s, idx), True))
        if not isinstance(s, SeqV):
            raise Undecided("index into %r" % (s,))
        off = idx
        if s.base is not None:
            n0 = s.hi - s.lo
            q = T if not s.tail else c_lt(st.facts.norm(idx - n0))
            q = st.facts.query(q)
            if q is True:
                return self.seq_elem(s, s.lo + idx)
            if q is None:
                raise Undecided("position %s in %r not resolved" % (show(idx), s))
            off = idx - n0
        for p in s.tail:
            n = psize(p)
            d = st.facts.norm(off)
            if p[0] == "e":
                if d.const() == 0 or st.facts.query(c_eq(d)) is True:
                    return p[1]
            elif p[0] == "rep" and p[3] == T and len(p[4]) == 1 and p[4][0][0] == "e":
                if st.facts.query(c_lt(off - n)) is True:
                    return deep(p[4][0][1], Sub({p[1]: off}))
            off = off - n
        raise Undecided("element %s of %r" % (show(idx), s))

    def settle(self, st, lv, idx):
        """forks so that seq_get(lv, idx) is resolved; -> list of states"""
        s = self.read(st, lv)
        if not isinstance(s, SeqV) or not s.tail:
            return [st]
        out = []
        cur = [st]
        if s.base is not None:
            n0 = s.hi - s.lo
            nxt = []
            for x in cur:
                for b, y in self.branch(x, c_lt(idx - n0)):
                    if b:
                        out.append(y)
                    else:
                        nxt.append(y)
            cur = nxt
            off = idx - n0
        else:
            off = idx
        for i, p in enumerate(s.tail):
            nxt = []
            n = psize(p)
            last = i == len(s.tail) - 1
            for x in cur:
                if last:
                    out.append(x)
                    continue
                for b, y in self.branch(x, c_lt(off - n)):
                    (out if b else nxt).append(y)
            cur = nxt
            off = off - n
        return out

    def write(self, st, lv, v):
        if lv.loc not in st.store:
            self.heap(st, lv.loc)
        st.store[lv.loc] = self.upd(st, st.store[lv.loc], lv.path, v)

    def upd(self, st, old, path, v):
        if not path:
            return v
        s = path[0]
        if s[0] == "f":
            if not isinstance(old, Struct):
                raise Undecided("write field of %r" % (old,))
            if len(path) == 1:
                return old.set(s[1], v)
            return old.set(s[1], self.upd(st, self.step(st, old, s), path[1:], v))
        if s[0] == "m":
            if not isinstance(old, MapV):
                raise Undecided("write entry of %r" % (old,))
            ents = list(old.ents)
            for i, (k, x, c) in enumerate(ents):
                q = st.facts.query(self.val_eq(k, s[1]))
                if q is True:
                    ents[i] = (k, self.upd(st, x, path[1:], v), c)
                    return MapV(old.kty, old.vty, old.base, ents)
                if q is None:
                    raise Undecided("aliasing map keys %r %r" % (k, s[1]))
            if old.base is not None:
                x = self.symval(old.vty, ("get", old.base, s[1]))
                ents.append((s[1], self.upd(st, x, path[1:], v), T))
                return MapV(old.kty, old.vty, old.base, ents)
            raise Undecided("write to missing entry %r" % (s[1],))
        if s[0] == "i":
            if not isinstance(old, SeqV):
                raise Undecided("write element of %r" % (old,))
            off = s[1] - (old.hi - old.lo)
            tail = list(old.tail)
            for i, p in enumerate(tail):
                d = st.facts.norm(off)
                if p[0] == "e" and d.const() == 0:
                    tail[i] = ("e", self.upd(st, p[1], path[1:], v))
                    return SeqV(old.ety, old.base, old.lo, old.hi, tail)
                off = off - psize(p)
            # front / back element of the base region
            n0 = st.facts.norm(old.hi - old.lo)
            if old.base is not None and st.facts.norm(s[1] - n0 + 1).const() == 0:
                x = self.upd(st, self.seq_elem(old, old.hi - 1), path[1:], v)
                return SeqV(old.ety, old.base, old.lo, old.hi - 1, [("e", x)] + tail)
            raise Undecided("write to element %s of %r" % (show(s[1]), old))
        if s[0] == "o":
            return OptV(T, self.upd(st, old.v, path[1:], v), old.ty)
        if s[0] == "j" and isinstance(old, Json) and old.kind in ("obj", "null"):
            ents = list(old.a) if old.kind == "obj" else []
            for i, (k, x) in enumerate(ents):
                if k == s[1]:
                    ents[i] = (k, self.upd(st, x, path[1:], v))
                    break
            else:
                ents.append((s[1], self.upd(st, Json("null"), path[1:], v)))
            return Json("obj", tuple(ents))
        raise Undecided("write through %r" % (s,))

    def rv(self, st, x):
        return self.read(st, x) if isinstance(x, LV) else x

    def lv(self, st, x):
        return x if isinstance(x, LV) else self.alloc(st, x, "t")

    def deref(self, st, p, node=None):
        """-> LV"""
        if isinstance(p, IterV):
            return self.std.iter_deref(st, p, node)
        if not isinstance(p, PtrV):
            if isinstance(p, Opq):
                loc = ("heap", p.key)
                self.heap_ty.setdefault(loc, None)
                return LV(loc)
            self.undecided("dereference of %r" % (p,), node, st)
        if p.to is None:
            self.undecided("null dereference", node, st)
        if isinstance(p.to, LV):
            return p.to
        loc = ("heap", p.to[1])
        if loc not in self.heap_ty or self.heap_ty[loc] is None:
            self.heap_ty[loc] = p.ty
        return LV(loc)

    # ------------------------------------------------------------------ branching
    def branch(self, st, c):
        """-> [(True|False, state)]"""
        c = st.facts.norm(c) if st.facts.eqs else c
        q = st.facts.query(c)
        if q is True:
            return [(True, st)]
        if q is False:
            return [(False, st)]
        a = st
        b = st.copy()
        r = []
        if a.assume(c):
            r.append((True, a))
        if b.assume(c_not(c)):
            r.append((False, b))
        return r

    def truth(self, v, node=None, st=None):
        if iscond(v):
            return v
        if isnum(v):
            return c_ne(v)
        if isinstance(v, PtrV):
            return c_not(self.ptr_eq(v, PtrV(None)))
        if isinstance(v, OptV):
            return v.has
        if isinstance(v, Func):
            return F if v.kind == "null" else T
        if isinstance(v, Json):
            return c_bool(atom(("jbool", v)))
        if isinstance(v, Opq):
            return c_bool(atom(("truth", v.key)))
        self.undecided("truth value of %r" % (v,), node, st)

    # ------------------------------------------------------------------ expressions
    def evs(self, nodes, st):
        """evaluates a list of expressions left to right -> [(st, [values])]"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if s.exc is not None:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
            if len(cur) > MAXSTATES:
                raise Undecided("too many paths")
        return cur

    def bind(self, results, f):
        out = []
        for s, v in results:
            if s.exc is not None:
                out.append((s, None))
            else:
                out.extend(f(s, v))
        return out

    def bindl(self, nodes, st, f):
        return self.bind(self.evs(nodes, st), f)

    def ev(self, n, st):
        self.tick()
        if n is None:
            return [(st, None)]
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            self.undecided("expression %s" % n["k"], n, st)
        if "l" in n and st.frames:
            f = st.frames[-1]
            if st.line is None or f.file is None or not f.file.endswith("Operator.h"):
                st.line = (f.file, n["l"], f.fn)
        return m(n, st)

    def e_int(self, n, st):
        return [(st, P(int(n["v"])) if not isinstance(n["v"], bool) else (T if n["v"] else F))]

    def e_bool(self, n, st):
        return [(st, T if n["v"] else F)]

    def e_float(self, n, st):
        from fractions import Fraction
        return [(st, P(Fraction(float(n["v"]))))]

    def e_str(self, n, st):
        return [(st, S(n["v"]))]

    def e_null(self, n, st):
        return [(st, PtrV(None))]

    def e_this(self, n, st):
        for f in reversed(st.frames):
            if f.this is not None:
                return [(st, PtrV(f.this))]
            break
        self.undecided("this", n, st)

    def e_zero(self, n, st):
        return [(st, self.default(self.ty(st, n["t"]), st, True))]

    def e_fn(self, n, st):
        return [(st, Func("fn", n["fn"], st.frames[-1].tu))]

    def e_var(self, n, st):
        f = st.frames[-1]
        v = n["v"]
        if v in f.env:
            x = f.env[v]
            if x == "nullopt":
                return [(st, x)]
            return [(st, x)]
        if n.get("const") is not None and isinstance(n.get("const"), (int, float, str)) and not isinstance(n["const"], bool):
            try:
                return [(st, P(int(n["const"])))]
            except (TypeError, ValueError):
                pass
        if "global" in n:
            return self.std.global_var(st, n)
        self.undecided("variable %s" % v, n, st)

    def e_mem(self, n, st):
        def f(s, b):
            key = self.prog.fkey.get(n["fu"], n["f"])
            if n.get("arrow"):
                b = self.rv(s, b)
                if isinstance(b, IterV):
                    return self.bind(self.std.deref_iter(s, b, n), lambda s2, x: g(s2, x, key))
                if isinstance(b, PtrV) and b.to is None:
                    return [self.std.ub(s, "null pointer dereference", n)]
                b = self.deref(s, b, n)
            return g(s, b, key)

        def g(s, b, key):
            if isinstance(b, PairRef):
                if key == "first":
                    return [(s, b.key)]
                return [(s, b.lv.sub("m", b.key))]
            if isinstance(b, LV):
                if key in ("first", "second"):
                    v = self.read(s, b)
                    if isinstance(v, PairRef):
                        return g(s, v, key)
                return [(s, b.sub("f", key))]
            return [(s, self.step(s, b, ("f", key)))]
        return self.bind(self.ev(n["e"], st), f)

    def e_load(self, n, st):
        return self.bind(self.ev(n["e"], st), lambda s, v: [(s, self.load(s, v, n))])

    def load(self, s, v, n):
        if isinstance(v, BPtr):
            return self.std.tape_read(s, v, self.ty(s, n["t"]), n)
        return self.rv(s, v)

    def e_cast(self, n, st):
        ck = n["ck"]
        t = self.ty(st, n["t"])
        return self.bind(self.ev(n["e"], st), lambda s, v: [(s, self.cast(s, ck, v, t, n))])

    def cast(self, s, ck, v, t, n):
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion", "UserDefinedConversion",
                  "FunctionToPointerDecay", "ToVoid", "NonAtomicToAtomic", "ArrayToPointerDecay", "NoOp"):
            return v
        if ck == "NullToPointer":
            return PtrV(None, t.to if t else None)
        if ck == "IntegralCast":
            v = self.rv(s, v)
            if iscond(v):
                return ite(v, ONE, ZERO)
            return self.intcast(s, v, t)
        if ck in ("IntegralToFloating", "FloatingCast"):
            v = self.rv(s, v)
            if iscond(v):
                v = ite(v, ONE, ZERO)
            return self.single(v, t)
        if ck == "FloatingToIntegral":
            v = self.rv(s, v)
            if isnum(v):
                c = v.const()
                if c is not None:
                    return P(int(c))
                if v.isint():
                    return self.intcast(s, v, t)
                return P(atom(("app", "trunc", v), True, not t.sg))
            return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            return self.truth(self.rv(s, v), n, s)
        if ck == "Dynamic":
            v = self.rv(s, v)
            want = t.to if t is not None and t.k in ("ptr", "ref") else None
            if isinstance(v, PtrV) and isinstance(v.to, LV) and want is not None and want.usr in self.prog.classes:
                c = self.dyncls(s, v.to)
                if c is not None and not c.startswith("?") and c in self.prog.classes and want.usr not in self.prog.hier(c):
                    return PtrV(None, want)
            return v
        if ck == "BitCast":
            v = self.rv(s, v)
            if isinstance(v, PtrV) and isinstance(v.to, LV):
                st_ = self.ty(s, n["e"]["t"]) if n["e"].get("t") is not None else None
                return BPtr(v.to, ZERO, st_.to if st_ is not None else None)
            if isinstance(v, BPtr):
                return v
            return v
        self.undecided("cast %s" % ck, n, s)

    def single(self, v, t):
        """a number stored with single precision"""
        if t is not None and t.k == "float" and t.w == 4 and isnum(v) and v.const() is None:
            return narrow("f32", v)
        return v

    def intcast(self, s, v, t):
        if not isnum(v):
            return v
        if t.k == "enum" or t.w is None:
            return v
        c = v.const()
        bits = t.w * 8
        if c is not None:
            x = int(c)
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if t.sg else (0, (1 << bits) - 1)
            if lo <= x <= hi:
                return v
            x &= (1 << bits) - 1
            if t.sg and x >= 1 << (bits - 1):
                x -= 1 << bits
            return P(x)
        if t.w >= 8:
            return v
        # narrowing: identity for sizes, positions and loop counters, otherwise the value may change
        if all(self.is_small(by_id(a)) for a in v.atoms()):
            return v
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if t.sg else (0, (1 << bits) - 1)
        if v.isint() and s.facts.query(c_le(v - hi)) is True and s.facts.query(c_le(P(lo) - v)) is True:
            return v
        return narrow("%sint%d" % ("" if t.sg else "u", bits), v)

    def is_small(self, a):
        if a.key[0] in ("len", "it"):
            return True
        if a.key[0] == "app" and a.key[1] in ("strlen", "int32", "uint32", "int16", "msize"):
            return True
        if a.key[0] == "ite":
            return all(self.is_small(by_id(x)) for x in a.key[2].atoms())
        return a.id in self.small

    def e_un(self, n, st):
        op = n["op"]

        def f(s, v):
            if op in ("++", "--"):
                l = v
                x = self.rv(s, l)
                if isinstance(x, (IterV,)):
                    r = []
                    for s2, y in self.std.iter_step(s, x, 1 if op == "++" else -1, n):
                        self.write(s2, l, y)
                        r.append((s2, x if n.get("post") else l))
                    return r
                if isinstance(x, BPtr):
                    y = x.plus(ONE if op == "++" else -ONE)
                elif isnum(x):
                    t = self.ty(s, n["t"])
                    y = self.single(x + (1 if op == "++" else -1), t)
                    if t is not None and t.k == "int" and t.w and t.w < 4 and y.isint():
                        if y.const() is not None:
                            y = self.intcast(s, y, t)
                        elif op == "++" and any(by_id(a).key[0] == "it" for a in y.atoms()):
                            hi = (1 << (8 * t.w - (1 if t.sg else 0))) - 1
                            if s.facts.query(c_le(y - hi)) is not True and len(self.wraps) < 50:
                                self.wraps.append((s.facts.copy(), c_le(hi + 1 - y), st.line, 8 * t.w))
                        else:
                            y = self.intcast(s, y, t)
                else:
                    self.undecided("%s on %r" % (op, x), n, s)
                self.write(s, l, y)
                return [(s, x if n.get("post") else l)]
            if op == "&":
                if isinstance(v, LV):
                    return [(s, PtrV(v))]
                if isinstance(v, BPtr):
                    return [(s, v)]
                if isinstance(v, Func):
                    return [(s, v)]
                return [(s, PtrV(self.lv(s, v)))]
            x = self.rv(s, v)
            if op == "*":
                if isinstance(x, BPtr):
                    return [(s, x)]
                if isinstance(x, Func):
                    return [(s, x)]
                if isinstance(x, PtrV) and x.to is None:
                    return [self.std.ub(s, "null pointer dereference", n)]
                return [(s, self.deref(s, x, n))]
            if op == "!":
                return [(s, c_not(self.truth(x, n, s)))]
            if iscond(x):
                x = ite(x, ONE, ZERO)
            if op == "-":
                if isnum(x):
                    t = self.ty(s, n["t"])
                    if x.const() is not None and x.isint() and t is not None and t.k == "int" and not t.sg and t.w and t.w >= 4:
                        return [(s, P(-int(x.const()) % (1 << (8 * t.w))))]
                    return [(s, -x)]
            if op == "~" and isnum(x) and x.const() is not None:
                t = self.ty(s, n["t"])
                if t is not None and t.w:
                    k = -int(x.const()) - 1
                    return [(s, P(k if t.sg else k % (1 << 8 * t.w)))]
            if op == "+":
                return [(s, x)]
            self.undecided("unary %s on %r" % (op, x), n, s)
        return self.bind(self.ev(n["e"], st), f)

    def isfloat(self, st, i):
        t = self.ty(st, i)
        return t is not None and t.k == "float"

    def e_bin(self, n, st):
        op = n["op"]
        if op in ("&&", "||"):
            def f(s, a):
                c = self.truth(self.rv(s, a), n, s)
                out = []
                for b, s2 in self.branch(s, c):
                    if b == (op == "&&"):
                        out += self.bind(self.ev(n["b"], s2),
                                         lambda s3, x: [(s3, self.truth(self.rv(s3, x), n, s3))])
                    else:
                        out.append((s2, F if op == "&&" else T))
                return out
            return self.bind(self.ev(n["a"], st), f)
        if op == ",":
            return self.bind(self.ev(n["a"], st), lambda s, _: self.ev(n["b"], s))

        def g(s, vs):
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            real = self.nodefloat(s, n["a"]) or self.nodefloat(s, n["b"])
            return self.binop(s, op, a, b, real, self.ty(s, n["t"]), n)
        return self.bindl([n["a"], n["b"]], st, g)

    def nodefloat(self, st, n):
        t = n.get("t")
        return t is not None and self.isfloat(st, t)

    def binop(self, s, op, a, b, real, t, n):
        if isinstance(a, PtrV) and isnum(b) and op in ("+", "-") and isinstance(a.to, LV) and a.to.path and \
                a.to.path[-1][0] == "i":
            return [(s, PtrV(LV(a.to.loc, a.to.path[:-1] + (("i", a.to.path[-1][1] + (b if op == "+" else -b)),)), a.ty))]
        if isinstance(b, PtrV) and isnum(a) and op == "+":
            return self.binop(s, op, b, a, real, t, n)
        if isinstance(a, PtrV) and isinstance(b, PtrV) and op in ("-", "<", ">", "<=", ">=") and isinstance(a.to, LV) and \
                isinstance(b.to, LV) and a.to.path[:-1] == b.to.path[:-1] and a.to.loc == b.to.loc and a.to.path and \
                a.to.path[-1][0] == b.to.path[-1][0] == "i":
            return self.binop(s, op, a.to.path[-1][1], b.to.path[-1][1], False, t, n)
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            if op in ("==", "!="):
                a = a if isinstance(a, PtrV) else PtrV(None)
                b = b if isinstance(b, PtrV) else PtrV(None)
                c = self.ptr_eq(a, b)
                return [(s, c if op == "==" else c_not(c))]
        if isinstance(a, BPtr) and isnum(b) and op in ("+", "-"):
            return [(s, a.plus(b if op == "+" else -b))]
        if isinstance(b, BPtr) and isnum(a) and op == "+":
            return [(s, b.plus(a))]
        if isinstance(a, BPtr) and isinstance(b, BPtr) and op in ("==", "!=", "-"):
            if op == "-":
                return [(s, a.off - b.off)]
            c = self.val_eq(a, b)
            return [(s, c if op == "==" else c_not(c))]
        if iscond(a) and iscond(b) and op in ("==", "!=", "&", "|", "^"):
            eq = c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
            return [(s, {"==": eq, "!=": c_not(eq), "&": c_and(a, b), "|": c_or(a, b), "^": c_not(eq)}[op])]
        if iscond(a):
            a = ite(a, ONE, ZERO)
        if iscond(b):
            b = ite(b, ONE, ZERO)
        if not (isnum(a) and isnum(b)):
            if isinstance(a, Opq) or isinstance(b, Opq):
                if t is not None and t.k == "bool":
                    return [(s, c_bool(atom(("opq", op, self.nextfresh()))))]
                return [(s, self.fresh(op))]
            self.undecided("%s on %r, %r" % (op, a, b), n, s)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            d = a - b
            if not real and not d.isint():
                real = True
            if real and d.isint() and False:
                real = False
            if op == "<":
                c = c_lt(d, real)
            elif op == ">":
                c = c_lt(-d, real)
            elif op == "<=":
                c = c_le(d, real)
            elif op == ">=":
                c = c_le(-d, real)
            elif op == "==":
                c = c_eq(d)
            else:
                c = c_ne(d)
            return [(s, c)]
        if op in ("+", "-", "*"):
            d = a + b if op == "+" else a - b if op == "-" else a * b
            if d.const() is not None and t is not None and t.k == "int" and not t.sg and t.w and t.w >= 4 and d.isint():
                return [(s, P(int(d.const()) % (1 << (8 * t.w))))]      # wraps around
            if t is not None and t.k == "float":
                return [(s, self.single(d, t))]
        if op == "+":
            return [(s, d)]
        if op == "-":
            if t is not None and t.k == "int" and not t.sg and t.w and t.w >= 4 and d.isint() and \
                    s.facts.query(c_lt(d)) is True:
                return [(s, d + (1 << (8 * t.w)))]       # wraps around
            return [(s, d)]
        if op == "*":
            return [(s, d)]
        if op == "/":
            if t is not None and t.k == "float":
                return [(s, self.single(a * inv(b), t))]
            return [(s, self.idiv(a, b, s))]
        if op == "%":
            ca, cb = a.const(), b.const()
            if ca is not None and cb:
                q = abs(int(ca)) % abs(int(cb))
                return [(s, P(q if ca >= 0 else -q))]
            if cb is not None:
                return [(s, a - self.idiv(a, b, s) * cb)]
            return [(s, P(atom(("app", "mod", a, b), True)))]
        cb = b.const()
        if op in ("<<", ">>") and cb is not None and 0 <= cb < 63 and a.isint():
            return [(s, a * (1 << int(cb)) if op == "<<" else self.idiv(a, P(1 << int(cb)), s))]
        if op == "&" and cb is not None and cb >= 0 and (int(cb) + 1) & int(cb) == 0 and a.isint() and \
                s.facts.query(c_le(-a)) is True:
            return [(s, a - self.idiv(a, cb + 1, s) * (cb + 1))]
        ca = a.const()
        if op in ("&", "|", "^") and ca is not None and cb is not None and a.isint() and b.isint():
            x, y = int(ca), int(cb)
            return [(s, P(x & y if op == "&" else x | y if op == "|" else x ^ y))]
        if op in ("&", "|", "^"):
            p, q = asbit(a), asbit(b)
            if p is not None and q is not None:
                eq = c_or(c_and(p, q), c_and(c_not(p), c_not(q)))
                return [(s, ite({"&": c_and(p, q), "|": c_or(p, q), "^": c_not(eq)}[op], ONE, ZERO))]
        if op in ("<<", ">>", "&", "|", "^"):
            return [(s, P(atom(("app", op, a, b), True)))]
        self.undecided("operator %s" % op, n, s)

    def idiv(self, a, b, st=None):
        b = P(b)
        ca, cb = a.const(), b.const()
        if ca is not None and cb:
            q = abs(int(ca)) // abs(int(cb))
            return P(q if (ca >= 0) == (cb > 0) else -q)
        if cb == 1:
            return a
        if st is not None and st.facts.query(c_le(-a)) is not True:
            return P(atom(("app", "sdiv", a, b), True))
        return P(atom(("app", "idiv", a, b), True, True))

    def e_assign(self, n, st):
        op = n["op"]

        def f(s, vs):
            l, r = vs
            r = self.rv(s, r)
            if not isinstance(l, LV):
                self.undecided("assignment to %r" % (l,), n, s)
            if op == "=":
                if isinstance(r, tuple) and iscond(r):
                    t = self.ty(s, n["t"])
                    if t is not None and t.k in ("int", "float"):
                        r = ite(r, ONE, ZERO)
                self.write(s, l, r)
                return [(s, l)]
            cur = self.read(s, l)
            ct = self.ty(s, n.get("ct", n["t"]))
            real = ct is not None and ct.k == "float"
            out = []
            for s2, v in self.binop(s, op[:-1], cur, r, real, ct, n):
                lt = self.ty(s2, n["t"])
                if lt is not None and lt.k == "int" and real and isnum(v) and not v.isint():
                    v = P(atom(("app", "trunc", v), True, not lt.sg))
                if lt is not None and lt.k == "int" and isnum(v):
                    v = self.intcast(s2, v, lt)
                if lt is not None and lt.k == "bool" and isnum(v):
                    v = c_ne(v)
                self.write(s2, l, v)
                out.append((s2, l))
            return out
        # C++17: right operand first for '='
        def g(s, b):
            return self.bind(self.ev(n["a"], s), lambda s2, a: f(s2, [a, b]))
        return self.bind(self.ev(n["b"], st), lambda s, b: g(s, self.rv(s, b) if op != "=" or True else b))

    def e_cond(self, n, st):
        def f(s, c):
            out = []
            for b, s2 in self.branch(s, self.truth(self.rv(s, c), n, s)):
                out += self.ev(n["a"] if b else n["b"], s2)
            return out
        return self.bind(self.ev(n["c"], st), f)

    def e_sub(self, n, st):
        def f(s, vs):
            b = vs[0] if isinstance(vs[0], LV) and isinstance(self.read(s, vs[0]), (SeqV, Str)) else self.rv(s, vs[0])
            i = self.rv(s, vs[1])
            if isinstance(b, LV):
                return [(s2, b.sub("i", i)) for s2 in self.settle(s, b, i)]
            if isinstance(b, PtrV) and isinstance(b.to, LV) and b.to.path and b.to.path[-1][0] == "i":
                l = LV(b.to.loc, b.to.path[:-1] + (("i", b.to.path[-1][1] + i),))
                return [(s, l)]
            if isinstance(b, BPtr):
                return [(s, b.plus(i))]
            if isinstance(b, (SeqV, Str)):
                l = self.lv(s, b)
                return [(s, l.sub("i", i))]
            self.undecided("subscript of %r" % (b,), n, s)
        return self.bindl([n["a"], n["b"]], st, f)

    def e_lambda(self, n, st):
        fr = st.frames[-1]
        env = {}
        this = None
        cur = [st]
        for c in n["caps"]:
            if "this" in c:
                this = fr.this
                continue
            v = c["v"]
            if c.get("init") is not None:
                nx = []
                for s in cur:
                    for s2, x in self.ev(c["init"], s):
                        if c.get("byref"):
                            env[v] = ("ref", x)
                        else:
                            env[v] = ("val", self.rv(s2, x))
                        nx.append(s2)
                if len(nx) > 1:
                    self.undecided("capture forks", n, st)
                cur = nx
                continue
            x = fr.env.get(v)
            if x is None:
                if "global" in c:
                    continue
                if c.get("byref") and c.get("init") is None:
                    x = self.alloc(st, Opq(("uninit", self.nextfresh())), "v")
                    fr.env[v] = x
                    fr.env[("own", v)] = x          # captured by its own initialiser
                    env[v] = ("ref", x)
                    continue
                self.undecided("capture %s" % v, n, st)
            if c.get("byref"):
                env[v] = ("ref", x)
            else:
                env[v] = ("val", self.rv(st, x))
        return [(cur[0], Func("lambda", n, fr.tu, env, this))]

    def e_throw(self, n, st):
        if n.get("e") is None:
            st.exc = Exc("rethrow", None, n.get("l"))
            return [(st, None)]

        def f(s, v):
            t = self.ty(s, n["e"].get("t"))
            s.exc = Exc(t.name if t is not None else "?", self.rv(s, v), n.get("l"))
            return [(s, None)]
        try:
            return self.bind(self.ev(n["e"], st), f)
        except Undecided:
            raise

    def e_ilist(self, n, st):
        t = self.ty(st, n["t"])

        def f(s, vs):
            vs = [self.rv(s, v) for v in vs]
            if t is not None and t.k == "rec" and t.usr in self.prog.classes:
                tn, c = self.prog.classes[t.usr]
                fl = {}
                vals = list(vs)
                for u in reversed(self.prog.hier(t.usr)[1:]):
                    if vals and isinstance(vals[0], Struct):
                        fl.update(vals.pop(0).f)
                for fd in c["fields"]:
                    k = self.prog.fkey[fd["usr"]]
                    fl[k] = vals.pop(0) if vals else self.default(self.prog.fty[k], s, True)
                return [(s, Struct(t.usr, fl))]
            if t is not None and t.k == "rec" and t.name == "std::pair":
                return [(s, Struct("std::pair", {"first": vs[0], "second": vs[1]}))]
            if t is not None and t.k == "rec" and t.name == "std::array":
                if len(vs) == 1 and isinstance(vs[0], SeqV) and not (t.args[0] is not None and t.args[0].name == "std::array"):
                    vs = list(self.flat(vs[0]))
                d = self.default(t, s, True)
                k = len(self.flat(d)) - len(vs)
                return [(s, SeqV(t.args[0], None, ZERO, ZERO, [("e", v) for v in vs] +
                                 [("e", self.default(t.args[0], s, True)) for _ in range(k)]))]
            if t is not None and t.k in ("int", "float", "bool", "ptr", "enum"):
                return [(s, vs[0] if vs else self.default(t, s, True))]
            return [(s, SeqV(t.to if t is not None and t.to is not None else None, None, ZERO, ZERO,
                             [("e", v) for v in vs]))]
        return self.bindl(n["args"], st, f)

    def e_stdil(self, n, st):
        return self.bind(self.ev(n["e"], st), lambda s, v: [(s, self.rv(s, v))])

    def e_new(self, n, st):
        def f(s, v):
            l = self.alloc(s, self.rv(s, v), "n")
            return [(s, PtrV(l, None))]
        if n.get("e") is None:
            t = self.ty(st, n["t"])
            return f(st, self.default(t.to if t is not None else None, st))
        return self.bind(self.ev(n["e"], st), f)

    def e_delete(self, n, st):
        return self.bind(self.ev(n["e"], st), lambda s, v: [(s, None)])

    # ------------------------------------------------------------------ calls
    def e_call(self, n, st):
        def f(s, vs):
            if "fn" in n:
                return self.call(s, n["fn"], None, vs, n)
            return self.callval(s, self.rv(s, vs[0]), vs[1:], n)
        if "fn" in n:
            return self.bindl(n["args"], st, f)
        fp = n.get("fp")
        return self.bindl([fp] + n["args"], st, f)

    def e_mcall(self, n, st):
        if "fn" not in n:
            self.undecided("member pointer call", n, st)
        ref = self.prog.ref(st.frames[-1].tu, n["fn"])

        def f(s, vs):
            o, a = vs[0], vs[1:]
            if ref.get("static"):
                return self.call(s, n["fn"], None, a, n)
            if n.get("arrow"):
                o = self.rv(s, o)
                if isinstance(o, IterV):
                    return self.bind(self.std.deref_iter(s, o, n), lambda s2, x: self.mcall(s2, ref, x, a, n))
                if isinstance(o, PtrV) and o.to is None:
                    return [self.std.ub(s, "null pointer dereference", n)]
                o = self.deref(s, o, n)
            return self.mcall(s, ref, o, a, n)
        return self.bindl([n["e"]] + n["args"], st, f)

    def mcall(self, s, ref, o, args, n):
        return self.call(s, n["fn"], o, args, n)

    def e_opcall(self, n, st):
        ref = self.prog.ref(st.frames[-1].tu, n["fn"])

        def f(s, vs):
            if ref.get("cls") and not ref.get("static"):
                return self.call(s, n["fn"], vs[0], vs[1:], n)
            return self.call(s, n["fn"], None, vs, n)
        if n["op"] == "=" and len(n["args"]) == 2:
            # right operand is sequenced before the left one
            def g(s, vs):
                return f(s, [vs[1], vs[0]])
            return self.bindl([n["args"][1], n["args"][0]], st, g)
        return self.bindl(n["args"], st, f)

    def callval(self, s, v, args, n):
        """call of a function value"""
        cell = v if isinstance(v, LV) else None
        v = self.rv(s, v)
        if isinstance(v, PtrV) and isinstance(v.to, LV):
            cell = v.to
            v = self.read(s, v.to)
        if isinstance(v, Opq) and v.key[0] in FUNCTORS and len(args) == 2:
            a, b = self.rv(s, args[0]), self.rv(s, args[1])
            op = FUNCTORS[v.key[0]]
            if op in ("+", "-", "*", "/"):
                return self.std.applyop(s, None, op, [a, b], n)
            return self.std.userop(s, "operator" + op, [a, b], n)
        if not isinstance(v, Func):
            self.undecided("call of %r" % (v,), n, s)
        if v.kind == "fn":
            return self.call(s, v.a, None, args, n)
        if v.kind == "sym":
            t = v.b
            rt = None
            if t is not None and t.args and t.args[0] is not None:
                rt = t.args[0].to
            vals = tuple(self.rv(s, a) for a in args)
            return [(s, self.symval(rt, ("app", v.a) + vals))]
        if v.kind == "lambda":
            node = v.a
            fr = Frame(v.b, "lambda", v.this, {}, s.frames[-1].file if s.frames else None)
            for k, (m, x) in v.env.items():
                fr.env[k] = x if m == "ref" else self.alloc(s, x, "c")
            rs = self.run(s, fr, node["ps"], args, node["body"], self.prog.ty(v.b, node["ret"]), n)
            for s2, _ in rs:
                # captured copies changed by the call belong to the closure
                new = {}
                for k, (m, x) in v.env.items():
                    if m != "ref" and fr.env[k].loc in s2.store and self.read(s2, fr.env[k]) is not x:
                        new[k] = (m, self.read(s2, fr.env[k]))
                if new and any(not same_value(v.env[k][1], y) for k, (m, y) in new.items()):
                    if cell is None:
                        self.undecided("closure with changing state", n, s2)
                    self.write(s2, cell, Func("lambda", v.a, v.b, dict(v.env, **new), v.this))
            return rs
        if v.kind == "null":
            s.exc = Exc("std::bad_function_call", None, n.get("l"))
            return [(s, None)]
        if v.kind == "py":
            return v.a(self, s, args, n)
        self.undecided("call of %r" % (v,), n, s)

    def dyncls(self, s, o):
        v = self.rv(s, o)
        if isinstance(v, Struct):
            return v.cls
        return None

    def call(self, s, usr, obj, args, n):
        tu = s.frames[-1].tu
        ref = self.prog.ref(tu, usr)
        if ref is None:
            self.undecided("unresolved callee %s" % usr, n, s)
        name = ref["n"]
        if obj is not None and ref.get("virt") and not n.get("qual"):
            c = self.dyncls(s, obj)
            if name == "what" and isinstance(self.rv(s, obj), Str):
                return [(s, self.rv(s, obj))]
            if name == "what" and not args and (c is None or c.startswith("?")):
                return [(s, SA(("what", self.nextfresh())))]
            if c is None or c.startswith("?"):
                h = self.hooks.get(("?", name))
                if h:
                    return h(self, s, obj, args, n, ref)
                return self.external(s, ref, usr, obj, args, n)
            usr2 = self.prog.overrider(c, usr)
            if usr2 != usr:
                usr = usr2
                ref = self.prog.ref(tu, usr)
        cn = strip(ref.get("clsn") or "")
        h = self.hooks.get((cn.replace("rtbot::", "", 1), name))
        if h:
            r = h(self, s, obj, args, n, ref)
            if r is not None:
                return r
        if not ref.get("repo"):
            return self.std.call(s, ref, obj, args, n)
        fd = self.prog.func(tu, usr)
        if fd is None or fd[1].get("body") is None:
            if ref.get("lambda") or (ref.get("oo") == "()" and "lambda" in (ref.get("clsn") or "")):
                return self.callval(s, obj, args, n)
            if ref.get("copyassign") or ref.get("moveassign"):
                v = self.rv(s, args[0])
                self.write(s, obj, v)
                return [(s, obj)]
            if ref.get("dtor"):
                return [(s, None)]
            h = self.hooks.get(("", name))
            if h:
                return h(self, s, obj, args, n, ref)
            self.undecided("no definition of %s" % ref["qn"], n, s)
        if obj is not None and ref.get("oo") == "()" and isinstance(self.rv(s, obj), Func):
            return self.callval(s, obj, args, n)
        if ref.get("copyassign") or ref.get("moveassign"):
            if ref.get("defaulted"):
                v = self.rv(s, args[0])
                self.write(s, obj, v)
                return [(s, obj)]
        tn, f = fd
        this = None
        if obj is not None:
            this = self.lv(s, obj)
        fr = Frame(tn, f["qn"], this, {}, f["file"])
        self.funcs_seen.add((f["file"], f["line"], f["qn"]))
        rt = self.prog.ty(tn, f["ret"])
        return self.run(s, fr, f["ps"], args, f["body"], rt, n)

    def external(self, s, ref, usr, obj, args, n):
        """virtual call on an operator whose class is unknown"""
        v = self.rv(s, obj)
        key = v.f["__key"][1] if isinstance(v, Struct) and "__key" in v.f else ("obj", obj)
        vals = tuple(self.rv(s, a) for a in args)
        s.events = s.events + (("ext", ref["n"], key, vals, n.get("l")),)
        rt = self.prog.ty(self.reftu(s, usr), ref["ret"])
        if rt is not None and rt.k == "void":
            return [(s, None)]
        return [(s, self.symval(rt, ("ret", ref["n"], key, self.nextfresh())))]

    def reftu(self, s, usr):
        tu = s.frames[-1].tu
        if usr in self.prog.tus[tu]["fnrefs"]:
            return tu
        for t in self.prog.order:
            if usr in self.prog.tus[t]["fnrefs"]:
                return t
        return tu

    def run(self, s, fr, ps, args, body, rt, n):
        if len(s.frames) > MAXDEPTH:
            self.undecided("recursion too deep", n, s)
        for i, p in enumerate(ps):
            t = self.prog.ty(fr.tu, p["t"])
            if i < len(args):
                a = args[i]
            elif p.get("def") is not None:
                a = None
            else:
                a = None
            if a is None:
                if p.get("def") is None:
                    self.undecided("missing argument", n, s)
                s.frames.append(fr)
                rs = self.ev(p["def"], s)
                if len(rs) != 1:
                    self.undecided("default argument forks", n, s)
                s, a = rs[0]
                fr = s.frames.pop()
            if t is not None and t.k == "ref":
                fr.env[p["v"]] = a if isinstance(a, LV) or isinstance(a, PairRef) else self.alloc(s, a, "p")
            else:
                fr.env[p["v"]] = self.alloc(s, self.conv(self.rv(s, a), t), "p")
        s.frames.append(fr)
        out = []
        for k, s2, v in self.ex(body, s):
            f2 = s2.frames.pop()
            if k == "t":
                out.append((s2, None))
                continue
            if k == "r" or k == "n":
                if v is not None and not (rt is not None and rt.k == "ref"):
                    v = self.rv(s2, v) if isinstance(v, LV) else v
                out.append((s2, v))
                continue
            self.undecided("stray %s" % k, n, s2)
        if len(out) > MAXSTATES:
            raise Undecided("too many paths")
        return out

    def conv(self, v, t):
        if t is None:
            return v
        if iscond(v) and t.k in ("int", "float"):
            return ite(v, ONE, ZERO)
        return v

    # ------------------------------------------------------------------ construction
    def e_ctor(self, n, st):
        t = self.ty(st, n["t"])
        ref = self.prog.ref(st.frames[-1].tu, n["fn"])

        def f(s, vs):
            return self.construct(s, t, ref, n["fn"], vs, n)
        return self.bindl(n["args"], st, f)

    def construct(self, s, t, ref, usr, vs, n):
        cls = ref.get("cls")
        if not ref.get("repo") or cls not in self.prog.classes:
            if "lambda" in (ref.get("clsn") or "") and vs:
                return [(s, self.rv(s, vs[0]))]
            return self.std.construct(s, t, ref, vs, n)
        if ref.get("copy") or ref.get("move"):
            fd = self.prog.func(s.frames[-1].tu, usr)
            if ref.get("defaulted") or fd is None or fd[1].get("body") is None:
                v = self.rv(s, vs[0])
                if isinstance(v, Struct) and v.cls != cls and v.cls in self.prog.classes and cls in self.prog.hier(v.cls):
                    keep = {self.prog.fkey[f["usr"]] for c in self.prog.hier(cls) for f in self.prog.cls(c)["fields"]}
                    v = Struct(cls, {k: x for k, x in v.f.items() if k in keep})
                return [(s, v)]
        l = self.alloc(s, Struct(cls, {}), "o")
        return self.bind(self.runctor(s, l, cls, usr, vs, n), lambda s2, _: [(s2, self.take(s2, l))])

    def take(self, s, l):
        """value of a freshly constructed object; keeps the cell when it was captured"""
        return s.store[l.loc]

    def fieldinit(self, s, l, cls):
        pass

    def runctor(self, s, l, cls, usr, args, n):
        """executes constructor usr on the object at l (fields of cls and its bases) -> [(st,None)]"""
        tu = s.frames[-1].tu
        fd = self.prog.func(tu, usr)
        ref = self.prog.ref(tu, usr)
        tn, cc = self.prog.classes[cls]
        if fd is None or (fd[1].get("body") is None and not fd[1].get("inits")):
            # implicit or defaulted
            if ref.get("copy") or ref.get("move"):
                v = self.rv(s, args[0])
                o = self.read(s, l)
                keys = [self.prog.fkey[f["usr"]] for c in self.prog.hier(cls) for f in self.prog.cls(c)["fields"]]
                for k in keys:
                    if k in v.f:
                        o = o.set(k, v.f[k])
                self.write(s, l, o)
                return [(s, None)]
            inits, fr, body, file = [], Frame(tn, cc["n"], l, {}, cc["file"]), None, cc["file"]
            ps = []
        else:
            tn, f = fd
            inits, body, ps = f.get("inits") or [], f.get("body"), f["ps"]
            fr = Frame(tn, f["qn"], l, {}, f["file"])
            self.funcs_seen.add((f["file"], f["line"], f["qn"]))
        if len(s.frames) > MAXDEPTH:
            self.undecided("recursion too deep", n, s)
        for i, p in enumerate(ps):
            t = self.prog.ty(fr.tu, p["t"])
            if i < len(args):
                a = args[i]
            else:
                s.frames.append(fr)
                rs = self.ev(p["def"], s)
                s, a = rs[0]
                fr = s.frames.pop()
            if t is not None and t.k == "ref":
                fr.env[p["v"]] = a if isinstance(a, (LV, PairRef)) else self.alloc(s, a, "p")
            else:
                fr.env[p["v"]] = self.alloc(s, self.conv(self.rv(s, a), t), "p")
        s.frames.append(fr)
        cur = [(s, None)]
        for i in inits:
            if "deleg" in i:
                cur = self.bind(cur, lambda s2, _, i=i: self.initbase(s2, l, cls, i["e"]))
        deleg = any("deleg" in i for i in inits)
        if not deleg:
            done = set()
            for b in cc["bases"]:
                if b not in self.prog.classes:
                    continue
                e = next((i["e"] for i in inits if i.get("base") == b), None)
                cur = self.bind(cur, lambda s2, _, b=b, e=e: self.initbase(s2, l, b, e))
            byf = {i["fu"]: i for i in inits if "fu" in i}
            for fdl in cc["fields"]:
                k = self.prog.fkey[fdl["usr"]]
                e = byf[fdl["usr"]]["e"] if fdl["usr"] in byf else fdl.get("init")

                def setf(s2, _, k=k, e=e):
                    ft = self.prog.fty[k]
                    if e is None:
                        v = self.defaultinit(s2, ft, n)
                        self.write(s2, l.sub("f", k), v)
                        return [(s2, None)]

                    def w(s3, v):
                        if not (ft is not None and ft.k == "ref"):
                            v = self.conv(self.rv(s3, v), ft)
                        else:
                            v = PtrV(v)
                        self.write(s3, l.sub("f", k), v)
                        return [(s3, None)]
                    return self.bind(self.ev(e, s2), w)
                if fdl["usr"] not in byf and e is not None and tn != fr.tu:
                    pass
                cur = self.bind(cur, setf)
        out = []
        for s2, _ in cur:
            if s2.exc is not None:
                s2.frames.pop()
                out.append((s2, None))
                continue
            if body is None:
                s2.frames.pop()
                out.append((s2, None))
                continue
            for k, s3, v in self.ex(body, s2):
                s3.frames.pop()
                out.append((s3, None))
        return out

    def defaultinit(self, s, t, n):
        if t is not None and t.k == "rec" and t.usr in self.prog.classes:
            r = self.makedefault(s, t.usr, n)
            return r
        return self.default(t, s)

    def makedefault(self, s, cls, n):
        """default constructed object of repo class cls (no forks)"""
        usr = None
        for m in self.prog.cls(cls).get("methods", []):
            r = self.prog.ref(self.prog.classes[cls][0], m)
            if r and r.get("ctor") and not r["ps"]:
                usr = m
        l = self.alloc(s, Struct(cls, {}), "o")
        if usr is None:
            fl = {}
            for c in self.prog.hier(cls):
                for f in self.prog.cls(c)["fields"]:
                    k = self.prog.fkey[f["usr"]]
                    fl[k] = self.default(self.prog.fty[k], s)
            return Struct(cls, fl)
        rs = self.runctor(s, l, cls, usr, [], n)
        if len(rs) != 1 or rs[0][0] is not s:
            raise Undecided("default constructor of %s forks" % cls)
        return self.take(s, l)

    def initbase(self, s, l, b, e):
        if e is None:
            usr = None
            for m in self.prog.cls(b).get("methods", []):
                r = self.prog.ref(self.prog.classes[b][0], m)
                if r and r.get("ctor") and all(False for _ in r["ps"]):
                    usr = m
            if usr is None:
                for f in self.prog.cls(b)["fields"]:
                    k = self.prog.fkey[f["usr"]]
                    self.write(s, l.sub("f", k), self.defaultinit(s, self.prog.fty[k], {}))
                return [(s, None)]
            return self.runctor(s, l, b, usr, [], {})
        while e["k"] == "cast":
            e = e["e"]
        if e["k"] == "ctor":
            def f(s2, vs):
                return self.runctor(s2, l, b, e["fn"], vs, e)
            return self.bindl(e["args"], s, f)
        if e["k"] == "inhctor":
            fr = s.frames[-1]
            return self.runctor(s, l, b, e["fn"], list(fr.env.values()), e)

        def g(s2, v):
            v = self.rv(s2, v)
            o = self.read(s2, l)
            for k, x in v.f.items():
                o = o.set(k, x)
            self.write(s2, l, o)
            return [(s2, None)]
        return self.bind(self.ev(e, s), g)

    # ------------------------------------------------------------------ statements
    def ex(self, n, st):
        """-> [(kind, st, value)] kind n b c r t"""
        self.tick()
        if n is None:
            return [("n", st, None)]
        m = getattr(self, "s_" + n["k"], None)
        if m is None:
            # an expression used as a statement
            return self.fromev(self.ev(n, st))
        if "l" in n and st.frames:
            f = st.frames[-1]
            if st.line is None or f.file is None or not f.file.endswith("Operator.h"):
                st.line = (f.file, n["l"], f.fn)
        return m(n, st)

    def fromev(self, rs):
        return [("t" if s.exc is not None else "n", s, None) for s, v in rs]

    def s_nop(self, n, st):
        return [("n", st, None)]

    def s_block(self, n, st):
        cur = [("n", st, None)]
        for x in n["s"]:
            nxt = []
            for k, s, v in cur:
                if k != "n":
                    nxt.append((k, s, v))
                elif self.lost is None:
                    nxt.extend(self.ex(x, s))
                else:
                    try:
                        nxt.extend(self.ex(x, s))
                    except Undecided as ex:
                        self.lost.append(str(ex))
            cur = nxt
            if len(cur) > MAXSTATES:
                raise Undecided("too many paths")
        return self.leave(n, cur)

    def leave(self, n, cur):
        """destructors of the block's own variables, latest first"""
        for x in reversed(n["s"]):
            if not isinstance(x, dict) or x.get("k") != "decl":
                continue
            for d in reversed(x["d"]):
                if d.get("static"):
                    continue
                nxt = []
                for k, s, v in cur:
                    lv = s.frames[-1].env.get(d["v"]) if s.frames else None
                    t = self.ty(s, d["t"]) if s.frames else None
                    usr = self.dtor(t.usr) if t is not None and t.k == "rec" else None
                    if usr is None or not isinstance(lv, LV):
                        nxt.append((k, s, v))
                        continue
                    exc, s.exc = s.exc, None
                    if v is not None and isinstance(v, LV) and k == "r":
                        v = self.rv(s, v) if v.loc == lv.loc else v
                    for s2, _ in self.call(s, usr, lv, [], {"qual": True, "l": d.get("l")}):
                        s2.frames[-1].env.pop(d["v"], None)
                        if s2.exc is None:
                            s2.exc = exc
                        nxt.append((k, s2, v))
                cur = nxt
        return cur

    def dtor(self, cls):
        """a destructor of the sources with a body of its own"""
        if cls not in self.prog.classes:
            return None
        if cls not in self.dtors:
            self.dtors[cls] = None
            tn, cc = self.prog.classes[cls]
            for m in cc.get("methods", []):
                r = self.prog.ref(tn, m)
                if r and r.get("dtor"):
                    fd = self.prog.func(tn, m)
                    if fd is not None and fd[1].get("body") is not None and fd[1]["body"].get("s"):
                        self.dtors[cls] = m
        return self.dtors[cls]

    def s_expr(self, n, st):
        return self.fromev(self.ev(n["e"], st))

    def s_decl(self, n, st):
        cur = [st]
        out = []
        for d in n["d"]:
            nxt = []
            for s in cur:
                for s2, _ in self.declare(d, s):
                    if s2.exc is not None:
                        out.append(("t", s2, None))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [("n", s, None) for s in cur]

    def declare(self, d, st, given=None):
        """declares variable d -> [(st,None)]. given: already evaluated initialiser"""
        t = self.ty(st, d["t"])
        if d.get("static") and not d.get("const"):
            return self.std.static_local(st, d, t)

        def f(s, v):
            env = s.frames[-1].env
            if t is not None and t.k == "ref":
                env[d["v"]] = v if isinstance(v, (LV, PairRef, BPtr)) else self.alloc(s, v, "r")
            else:
                if isinstance(v, PairRef):
                    v = Struct("std::pair", {"first": v.key, "second": self.read(s, v.lv.sub("m", v.key))})
                own = env.pop(("own", d["v"]), None)
                if own is not None:
                    self.write(s, own, self.conv(self.rv(s, v), t))
                    env[d["v"]] = own
                else:
                    env[d["v"]] = self.alloc(s, self.conv(self.rv(s, v), t), "v")
            if d.get("bind"):
                base = env[d["v"]]
                self.bindings(s, d, base)
            return [(s, None)]
        if given is not None:
            return f(st, given)
        if d.get("init") is None:
            v = self.defaultinit(st, t, d)
            return f(st, v)
        return self.bind(self.ev(d["init"], st), f)

    def bindings(self, s, d, base):
        env = s.frames[-1].env
        if isinstance(base, LV):
            bv_ = self.read(s, base)
            if isinstance(bv_, PairRef):
                base = bv_
        for i, b in enumerate(d["bind"]):
            if isinstance(base, PairRef):
                x = base.key if i == 0 else base.lv.sub("m", base.key)
            else:
                v = self.read(s, base)
                if isinstance(v, Struct) and v.cls == "std::pair":
                    x = base.sub("f", "first" if i == 0 else "second")
                elif isinstance(v, Struct) and v.cls == "std::tuple":
                    x = base.sub("f", str(i))
                elif isinstance(v, SeqV) and self.flat(v) is not None and i < len(self.flat(v)):
                    x = base.sub("i", P(i))
                elif isinstance(v, Struct) and "f" in b:
                    k = next((k for k in v.f if k.split("::")[-1] == b["f"]), None)
                    x = base.sub("f", k)
                else:
                    self.undecided("structured binding of %r" % (v,), d, s)
            env[b["v"]] = x if isinstance(x, LV) else self.alloc(s, x, "b")
            if b.get("hold"):
                env[b["hold"]] = env[b["v"]]

    def s_if(self, n, st):
        pre = [("n", st, None)]
        if n.get("init") is not None:
            pre = self.ex(n["init"], st)
        out = []
        for k, s, v in pre:
            if k != "n":
                out.append((k, s, v))
                continue
            if n.get("cv"):
                rs = self.declare(n["cv"], s)
            else:
                rs = [(s, None)]
            for s1, _ in rs:
                if s1.exc is not None:
                    out.append(("t", s1, None))
                    continue
                for s2, c in self.ev(n["c"], s1):
                    if s2.exc is not None:
                        out.append(("t", s2, None))
                        continue
                    for b, s3 in self.branch(s2, self.truth(self.rv(s2, c), n, s2)):
                        out.extend(self.ex(n["a"] if b else n.get("b"), s3))
        return out

    def s_ret(self, n, st):
        if n.get("e") is None:
            return [("r", st, None)]
        return [("t", s, None) if s.exc is not None else ("r", s, v) for s, v in self.ev(n["e"], st)]

    def s_break(self, n, st):
        return [("b", st, None)]

    def s_continue(self, n, st):
        return [("c", st, None)]

    def s_try(self, n, st):
        out = []
        for k, s, v in self.ex(n["body"], st):
            if k != "t":
                out.append((k, s, v))
                continue
            exc = s.exc
            # frames deeper than this one were popped on the way
            handled = False
            for h in n["h"]:
                if h.get("v") is None and h.get("t") is None:
                    m = True
                else:
                    m = self.std.catches(self.ty(s, h["t"]), exc)
                if m is None:
                    self.undecided("handler for %s" % exc.ty, n, s)
                if m:
                    s2 = s
                    s2.exc = None
                    if h.get("v"):
                        s2.frames[-1].env[h["v"]] = self.alloc(s2, exc.v if exc.v is not None else Opq(("exc", exc.ty)), "e")
                    for k3, s3, v3 in self.ex(h["body"], s2):
                        if k3 == "t" and s3.exc is not None and s3.exc.ty == "rethrow":
                            s3.exc = exc
                        out.append((k3, s3, v3))
                    handled = True
                    break
            if not handled:
                out.append((k, s, v))
        return out

    def s_switch(self, n, st):
        body = n["body"]["s"] if n["body"]["k"] == "block" else [n["body"]]
        flat = []   # (labels, stmt)
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x)
                x = x["s"]
            flat.append((labels, x))
        out = []
        for s, c in self.ev(n["c"], st):
            if s.exc is not None:
                out.append(("t", s, None))
                continue
            c = self.rv(s, c)
            rest = [s]
            deflt = None
            for i, (labels, x) in enumerate(flat):
                for l in labels:
                    if l["k"] == "default":
                        deflt = i
                        continue
                    nr = []
                    for s2 in rest:
                        (s3, cv), = self.ev(l["v"], s2)
                        for b, s4 in self.branch(s3, self.val_eq(c, self.rv(s3, cv))):
                            if b:
                                out.extend(self.runfrom(flat, i, s4))
                            else:
                                nr.append(s4)
                    rest = nr
            for s2 in rest:
                if deflt is not None:
                    out.extend(self.runfrom(flat, deflt, s2))
                else:
                    out.append(("n", s2, None))
        return out

    def runfrom(self, flat, i, s):
        cur = [("n", s, None)]
        for labels, x in flat[i:]:
            nxt = []
            for k, s2, v in cur:
                if k == "n":
                    nxt.extend(self.ex(x, s2))
                else:
                    nxt.append((k, s2, v))
            cur = nxt
        return [("n" if k == "b" else k, s2, v) for k, s2, v in cur]

    # ------------------------------------------------------------------ loops
    def s_while(self, n, st):
        if n.get("cv"):
            self.undecided("condition variable", n, st)
        return self.phased(st, lambda s: self.evc(n["c"], s), lambda s: self.ex(n["body"], s), lambda s: [(s, None)], n)

    def s_do(self, n, st):
        return self.phased(st, lambda s: self.evc(n["c"], s), lambda s: self.ex(n["body"], s), lambda s: [(s, None)], n,
                           dowhile=True)

    def s_for(self, n, st):
        out = []
        for k, s, v in self.ex(n.get("init"), st):
            if k != "n":
                out.append((k, s, v))
                continue
            c = (lambda s2: self.evc(n["c"], s2)) if n.get("c") is not None else (lambda s2: [(s2, T)])
            inc = (lambda s2: self.ev(n["inc"], s2)) if n.get("inc") is not None else (lambda s2: [(s2, None)])
            out.extend(self.phased(s, c, lambda s2: self.ex(n["body"], s2), inc, n))
        return out

    def phased(self, s, cond, body, inc, n, dowhile=False):
        """a loop that walks a sequence of several pieces by index or iterator is analysed piece by piece"""
        c = self.walked(s, cond, n)
        if c is None:
            return self.loop(s, cond, body, inc, n, dowhile)
        return self.phases(s, cond, body, inc, n, c[0], c[1], dowhile, c[2])

    def over(self, s, cond, body, inc, n, cell):
        """the loop of an algorithm whose iterator is held in cell"""
        it = self.read(s, cell)
        cuts = self.cuts(s, it.lv) if isinstance(it, IterV) and it.pos[0] == "i" else []
        if not cuts:
            return self.loop(s, cond, body, inc, n)
        return self.phases(s, cond, body, inc, n, lambda s2: self.read(s2, cell).pos[1], cuts)

    def phases(self, s, cond, body, inc, n, pos, cuts, dowhile=False, pure=True):
        """the loop in parts: each part ends where a boundary is reached and hands over to the next"""
        out, cur = [], [s]
        for c in cuts + [None]:
            def upto(s3, c=c):
                return [(s4, c_and(c_lt(pos(s4) - c), x) if s4.exc is None else x) for s4, x in cond(s3)]

            def part(s3, c=c):
                rs = []
                # a condition with effects is evaluated once: the boundary is found in the body, which the next part runs
                for b, s4 in [(False, s3)] if c is None or pure else self.branch(s3, c_le(c - pos(s3))):
                    if b:
                        rs.append(("P", s4, None))
                    else:
                        rs += [("B" if k == "b" else k, s5, v) for k, s5, v in body(s4)]
                return rs
            nxt = []
            for s3 in cur:
                for k, s4, v in self.loop(s3, upto if pure and c is not None else cond, part, inc, n, dowhile):
                    if k == ("n" if pure else "P"):
                        nxt.append(s4)
                    else:
                        out.append(("n" if k == "B" else k, s4, v))
            cur, dowhile = nxt, not pure
        return out + ([("n", s3, None) for s3 in cur])

    def walked(self, s, cond, n):
        """-> (position of the loop variable, inner boundaries of the sequence it runs through) or None"""
        names = n.get("names")
        if names is None:
            names = n["names"] = self.varsin(n.get("c"))
        found = []
        for x in names:
            try:
                ls = self.ev(x, s.copy())
            except Undecided:
                continue
            if len(ls) == 1 and ls[0][0].exc is None and isinstance(ls[0][1], LV):
                v = self.read(s, ls[0][1])
                if isinstance(v, IterV) and v.pos[0] == "i" and v.kind != "r" and self.cuts(s, v.lv, False) or isnum(v) and PIECES:
                    found.append(ls[0][1])
        if not found:
            return None
        many = [q for v in s.store.values() for q in self.seqs(v) if self.pieces(q, False)]
        if not many:
            return None
        try:
            rs = cond(s.copy())
        except Undecided:
            return None
        if len(rs) != 1 or rs[0][0].exc is not None:
            return None
        pure = rs[0][0].store == s.store
        s = rs[0][0]
        for l in found:
            v = self.read(s, l)
            if isinstance(v, IterV) and v.pos[0] == "i":
                cuts = self.cuts(s, v.lv, False) if v.kind != "r" else []
                if cuts:
                    return (lambda s2: self.read(s2, l).pos[1]), cuts, pure
            elif isnum(v):
                for q in many:
                    size = q.hi - q.lo if q.base is not None else ZERO
                    for p in q.tail:
                        size = size + psize(p)
                    if rs[0][1] in (c_lt(v - size), c_not(c_eq(v - size))):
                        return (lambda s2: self.read(s2, l)), self.pieces(q), pure
        return None

    def varsin(self, c):
        """the variables a condition reads"""
        names = {}

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "var":
                    names.setdefault(x["v"], x)
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(c)
        return list(names.values())

    def seqs(self, v):
        if isinstance(v, SeqV):
            yield v
        elif isinstance(v, Struct):
            for x in v.f.values():
                yield from self.seqs(x)
        elif isinstance(v, MapV):
            for x in v.ents:
                yield from self.seqs(x[1])

    def evc(self, c, s):
        return self.bind(self.ev(c, s), lambda s2, v: [(s2, self.truth(self.rv(s2, v), c, s2))])

    def s_rfor(self, n, st):
        out = []
        for s, r in self.ev(n["range"], st):
            if s.exc is not None:
                out.append(("t", s, None))
                continue
            l = self.lv(s, r)
            begins = self.std.begin(s, l, n)
            for s2, it in begins:
                cell = self.alloc(s2, it, "i")

                def cond(s3):
                    return [(s4, c_not(x)) for s4, x in self.std.iter_eq(s3, self.read(s3, cell),
                                                                        self.std.end(s3, l, n), n)]

                def body(s3):
                    o = []
                    for s4, x in self.std.deref_iter(s3, self.read(s3, cell), n):
                        for s5, _ in self.rforvar(n["var"], s4, x):
                            if s5.exc is not None:
                                o.append(("t", s5, None))
                            else:
                                o.extend(self.ex(n["body"], s5))
                    return o

                def inc(s3):
                    o = []
                    for s4, x in self.std.iter_step(s3, self.read(s3, cell), 1, n):
                        self.write(s4, cell, x)
                        o.append((s4, None))
                    return o
                out.extend(self.over(s2, cond, body, inc, n, cell))
        return out

    def cuts(self, s, l, chunks=True):
        """inner boundaries between the summarised and the explicit pieces of a sequence"""
        return self.pieces(self.read(s, l), chunks)

    def pieces(self, v, chunks=True):
        if not chunks and isinstance(v, SeqV) and any(p[0] == "chunk" for p in v.tail):
            return []
        if not isinstance(v, SeqV) or all(p[0] == "e" for p in v.tail) and (v.base is None or not v.tail):
            return []
        r, n = [], ZERO
        prev = None
        for p in ([("b",)] if v.base is not None else []) + list(v.tail):
            if prev is not None and not (prev[0] == "e" and p[0] == "e"):
                r.append(n)
            n = n + ((v.hi - v.lo) if p[0] == "b" else psize(p))
            prev = p
        return r

    def rforvar(self, d, s, x):
        if d.get("init") is not None and d["init"].get("k") in ("cast", "ctor", "call", "mcall", "load"):
            # conversions in the loop variable's initialiser: json -> T
            conv = d["init"]
            t = self.ty(s, d["t"])
            v = x
            if t is not None and t.k == "rec":
                y = self.rv(s, v) if isinstance(v, LV) else v
                if isinstance(y, Json) and not t.name.endswith("basic_json"):
                    return self.bind(self.std.json_to(s, y, t, d), lambda s2, z: self.declare(d, s2, z))
        return self.declare(d, s, x)

    def loop(self, st, cond, body, inc, n, dowhile=False):
        from loops import run_loop
        return run_loop(self, st, cond, body, inc, n, dowhile)


class BPtr(V):
    """byte pointer: object at lv viewed as bytes, plus offset"""
    __slots__ = ("lv", "off", "ty")

    def __init__(self, lv, off, ty):
        self.lv, self.off, self.ty = lv, off, ty

    def plus(self, d):
        return BPtr(self.lv, self.off + d, self.ty)

    def __repr__(self):
        return "bytes(%r+%s)" % (self.lv, show(self.off))
