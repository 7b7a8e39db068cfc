"""Transfer functions of the standard library and JSON constructs the sources use."""
from values import *
from terms import _collect
from prog import strip
from fractions import Fraction
import json as pyjson
from algos import Algos, OUT

MAPS = ("std::map", "std::unordered_map", "std::set", "std::unordered_set")
SEQS = ("std::vector", "std::deque", "std::list", "std::initializer_list", "std::array")
PTRS = ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::__uniq_ptr_impl")

EXC_BASES = {
    "std::runtime_error": ["std::exception"], "std::out_of_range": ["std::logic_error", "std::exception"],
    "std::invalid_argument": ["std::logic_error", "std::exception"], "std::logic_error": ["std::exception"],
    "std::bad_optional_access": ["std::exception"], "std::bad_function_call": ["std::exception"],
    "std::length_error": ["std::logic_error", "std::exception"],
    "json::parse_error": ["json::exception", "std::exception"], "json::type_error": ["json::exception", "std::exception"],
    "json::out_of_range": ["json::exception", "std::exception"],
    "nlohmann::detail::parse_error": ["nlohmann::detail::exception", "std::exception"],
    "nlohmann::detail::type_error": ["nlohmann::detail::exception", "std::exception"],
    "nlohmann::detail::out_of_range": ["nlohmann::detail::exception", "std::exception"],
    "std::domain_error": ["std::logic_error", "std::exception"], "std::range_error": ["std::runtime_error", "std::exception"],
    "std::overflow_error": ["std::runtime_error", "std::exception"],
}


def skey(k):
    return k.const() if isinstance(k, Str) else None


def jsonty():
    t = Ty()
    t.k, t.s, t.n, t.usr, t.args, t.w, t.sg, t.to, t.name = "rec", "nlohmann::basic_json", None, None, [], None, None, None, \
        "nlohmann::basic_json"
    return t


class Std(Algos):
    def __init__(self, e):
        self.e = e
        self.assumed = set()

    # ------------------------------------------------------------------ dispatch
    def fam(self, s, ref, obj):
        c = strip(ref.get("clsn") or "")
        return c

    def call(self, s, ref, obj, args, n):
        e = self.e
        name = ref["n"]
        c = strip(ref.get("clsn") or "")
        if obj is None:
            return self.free(s, ref, name, args, n)
        if c in MAPS or c.startswith("std::_Rb_tree") and isinstance(e.rv(s, obj), MapV):
            return self.m_map(s, name, obj, args, n, ref)
        if c in SEQS:
            return self.m_seq(s, name, obj, args, n, ref)
        if c == "std::basic_string" or c == "std::basic_string_view":
            return self.m_str(s, name, obj, args, n, ref)
        if c in PTRS:
            return self.m_ptr(s, name, obj, args, n, ref)
        if c == "std::function":
            return self.m_func(s, name, obj, args, n, ref)
        if c in ("std::optional", "std::_Optional_base_impl"):
            return self.m_opt(s, name, obj, args, n, ref)
        if c in ("std::pair", "std::tuple"):
            if name == "operator=":
                x, o = e.rv(s, args[0]), e.rv(s, obj)
                if isinstance(x, PairRef):
                    x = Struct("std::pair", {"first": x.key, "second": e.read(s, x.lv.sub("m", x.key))})
                if isinstance(o, Struct) and o.cls == "tied":
                    for k, dst in o.f.items():
                        if dst is not None:
                            e.write(s, dst.to, x.f[k if k in x.f else ("first", "second")[int(k)]])
                    return [(s, obj)]
                e.write(s, obj, x)
                return [(s, obj)]
            if name == "swap":
                return self.swap(s, obj, args[0])
        if c in ("std::_Node_handle", "std::_Node_handle_common") and isinstance(e.rv(s, obj), Struct):
            h = e.rv(s, obj)
            if name in ("key", "mapped", "value"):
                return [(s, e.lv(s, obj).sub("f", "mapped" if name == "mapped" else "key"))]
            if name == "empty":
                return [(s, c_not(h.f["has"]))]
            if name == "operator bool":
                return [(s, h.f["has"])]
        if c == "std::_Bit_reference":
            if name == "operator=":
                e.write(s, obj, e.truth(e.rv(s, args[0]), n, s))
                return [(s, obj)]
            if name == "operator bool":
                return [(s, e.truth(e.rv(s, obj), n, s))]
            if name == "flip":
                e.write(s, obj, c_not(e.truth(e.rv(s, obj), n, s)))
                return [(s, None)]
        if c.endswith("iteration_proxy_value"):
            x = e.rv(s, obj)
            if isinstance(x, PairRef) and name in ("key", "value"):
                return [(s, x.key if name == "key" else x.lv.sub("m", x.key))]
        if c.endswith("basic_json"):
            return self.m_json(s, name, obj, args, n, ref)
        if name.startswith("operator") and isinstance(e.rv(s, obj), IterV):
            return self.m_iter(s, name, obj, args, n, ref)
        if c.endswith("iter_impl") and isinstance(e.rv(s, obj), IterV):
            return self.m_iter(s, name, obj, args, n, ref)
        if name == "base" and isinstance(e.rv(s, obj), IterV):
            return [(s, e.rv(s, obj))]
        if c.endswith("exception") or name == "what":
            return [(s, SA(("what", e.nextfresh())))]
        if "istream" in c or "ostream" in c or "iostream" in c or "stringstream" in c:
            st = e.rv(s, obj)
            if name == "operator<<" and isinstance(st, Stream):
                x = e.rv(s, args[0])
                t = e.prog.ty(e.reftu(s, n["fn"]), ref["ps"][0]) if ref.get("ps") else None
                if iscond(x):
                    x = ite(x, ONE, ZERO)
                if isnum(x) and isinstance(obj, LV):
                    y = Str((("n", x),)) if t is not None and t.k in ("int", "bool", "enum") else SA(("out", x))
                    e.write(s, obj, Stream(Str(st.s.p + y.p), st.pos))
                    return [(s, obj)]
                if not (isinstance(x, Func) or isinstance(x, Opq)):
                    e.undecided("stream output", n, s)
            if name == "str" and args:
                e.write(s, obj, Stream(self.asstr(e.rv(s, args[0]))))
                return [(s, None)]
            if name == "str":
                v = e.rv(s, obj)
                return [(s, v.s if isinstance(v, Stream) else SA(("stream", e.nextfresh())))]
            return [(s, obj)]
        if c.endswith("json_validator"):
            vals = tuple(e.rv(s, a) for a in args)
            s.events = s.events + (("validator", name, vals, n.get("l")),)
            said = e.validator and e.validator(s, e.rv(s, obj), name, vals)
            if said is True:
                return [(s, None)]
            b = s if said is False else s.copy()
            b.exc = Exc("std::exception", None, n.get("l"))
            b.pc = b.pc + (("b", atom(("rejects", name) + vals)),)
            if said is False:
                return [(b, None)]
            return [(s, None), (b, None)]
        e.undecided("no model of %s::%s" % (c, name), n, s)

    # ------------------------------------------------------------------ exceptions
    def throw(self, s, ty, n, v=None):
        s.exc = Exc(ty, v, n.get("l") if isinstance(n, dict) else None)
        return (s, None)

    def ub(self, s, what, n):
        s.events = s.events + (("ub", what, (s.frames[-1].file if s.frames else None), n.get("l") if n else None),)
        s.exc = Exc("UB", S(what), n.get("l") if n else None)
        return (s, None)

    def catches(self, ty, exc):
        if ty is None:
            return True
        n = ty.to.name if ty.k == "ref" and ty.to is not None else ty.name
        t = exc.ty
        if t == "UB":
            return False
        if t.startswith("json::"):
            t = "nlohmann::detail::" + t[6:]
        if n == t:
            return True
        bs = EXC_BASES.get(t)
        if bs is None:
            if t.split("::")[-1] == n.split("::")[-1]:
                return True
            if n == "std::exception":
                return True
            return None
        for b in bs:
            if b == n or b.split("::")[-1] == n.split("::")[-1] and b.startswith("std") == n.startswith("std"):
                return True
        return False

    # ------------------------------------------------------------------ coercion
    def coerce(self, s, v, t, n):
        """value stored in a container of element type t -> [(s, v)]"""
        e = self.e
        if isinstance(v, LV):
            v = e.rv(s, v)
        if isinstance(v, PairRef):
            v = Struct("std::pair", {"first": v.key, "second": e.read(s, v.lv.sub("m", v.key))})
        if t is None:
            return [(s, v)]
        if isinstance(v, Json) and not t.name.endswith("basic_json"):
            return self.json_to(s, v, t, n)
        if t.k == "rec" and t.name.endswith("basic_json") and not isinstance(v, Json):
            return [(s, Json("val", v))]
        if t.k == "rec" and t.name == "std::pair" and isinstance(v, SeqV):
            f = e.flat(v)
            if f is not None and len(f) == 2:
                v = Struct("std::pair", {"first": f[0], "second": f[1]})
        if t.k == "rec" and t.name in SEQS and isinstance(v, SeqV) and v.ety is None:
            v = SeqV(t.args[0], v.base, v.lo, v.hi, v.tail)
        if isinstance(v, Func) and t.k == "rec" and t.name == "std::function":
            return [(s, v)]
        return [(s, e.conv(v, t))]

    # ------------------------------------------------------------------ maps and sets
    def keyorder(self, s, ents):
        """entries sorted by key; forks on the order of unknown keys -> [(s, [entries])]"""
        e = self.e
        if all(skey(k) is not None for k, v, c in ents):
            return [(s, sorted(ents, key=lambda t: skey(t[0]).encode()))]
        if all(isnum(k) and k.const() is not None for k, v, c in ents):
            return [(s, sorted(ents, key=lambda t: t[0].const()))]
        if len(ents) < 2:
            return [(s, list(ents))]
        # insertion sort with forks
        cur = [(s, [])]
        for x in ents:
            nxt = []
            for s1, l in cur:
                stack = [(s1, 0)]
                while stack:
                    s2, i = stack.pop()
                    if i == len(l):
                        nxt.append((s2, l[:i] + [x]))
                        continue
                    for b, s3 in e.branch(s2, self.keylt(x[0], l[i][0])):
                        if b:
                            nxt.append((s3, l[:i] + [x] + l[i:]))
                        else:
                            stack.append((s3, i + 1))
            cur = nxt
        return cur

    def keylt(self, a, b):
        if isinstance(a, Str) and isinstance(b, Str):
            x, y = a.const(), b.const()
            if x is not None and y is not None:
                return T if x.encode() < y.encode() else F
            # common constant prefix decides
            pa, pb = list(a.p), list(b.p)
            while pa and pb and pa[0] == pb[0]:
                pa.pop(0), pb.pop(0)
            if pa and pb and pa[0][0] == "c" and pb[0][0] == "c":
                u, v = pa[0][1], pb[0][1]
                for p, q in zip(u, v):
                    if p != q:
                        return T if p < q else F
        if isnum(a) and isnum(b):
            return c_lt(a - b, not (a - b).isint())
        if repr(a) <= repr(b):
            return c_bool(atom(("slt", a, b)))
        return c_not(c_bool(atom(("slt", b, a))))

    def lookup(self, s, lv, key, n=None):
        """-> [(s, found)]; afterwards the entry is explicit"""
        e = self.e
        out = []
        todo = [s]
        m0 = e.read(s, lv)
        if isinstance(m0, Opq):
            e.undecided("lookup in unknown map", n, s)
        if not isinstance(m0, MapV):
            e.undecided("lookup in %r" % (m0,), n, s)
        cnt = len(m0.ents)
        for i in range(cnt):
            nxt = []
            for x in todo:
                m = e.read(x, lv)
                k, v, c = m.ents[i]
                for b, y in e.branch(x, e.val_eq(k, key)):
                    if not b:
                        nxt.append(y)
                        continue
                    if v is ABSENT:
                        out.append((y, False))
                        continue
                    for p, z in e.branch(y, c):
                        m = e.read(z, lv)
                        ents = list(m.ents)
                        ents[i] = (k, v, T) if p else (k, ABSENT, T)
                        if not p and m.base is None:
                            ents.pop(i)
                        e.write(z, lv, MapV(m.kty, m.vty, m.base, ents))
                        out.append((z, p))
            todo = nxt
        for x in todo:
            m = e.read(x, lv)
            if m.base is None:
                out.append((x, False))
                continue
            for p, z in e.branch(x, c_bool(atom(("has", m.base, key)))):
                m = e.read(z, lv)
                v = UNIT if m.vty is None else e.symval(m.vty, ("get", m.base, key))
                e.write(z, lv, MapV(m.kty, m.vty, m.base, m.ents + ((key, v if p else ABSENT, T),)))
                out.append((z, p))
        return out

    def map_put(self, s, lv, key, v):
        e = self.e
        m = e.read(s, lv)
        ents = []
        done = False
        for k, x, c in m.ents:
            if s.facts.query(e.val_eq(k, key)) is True:
                ents.append((k, v, T))
                done = True
            else:
                ents.append((k, x, c))
        if not done:
            ents.append((key, v, T))
        e.write(s, lv, MapV(m.kty, m.vty, m.base, ents))

    def map_del(self, s, lv, key):
        e = self.e
        m = e.read(s, lv)
        ents = []
        for k, x, c in m.ents:
            if s.facts.query(e.val_eq(k, key)) is True:
                if m.base is not None:
                    ents.append((k, ABSENT, T))
            else:
                ents.append((k, x, c))
        e.write(s, lv, MapV(m.kty, m.vty, m.base, ents))

    def map_size(self, m):
        r = ZERO
        if m.base is not None:
            if not m.ents:
                return P(atom(("len", m.base), True, True))
            r = P(atom(("len", m.base), True, True))
            for k, v, c in m.ents:
                had = ite(c_bool(atom(("has", m.base, k))), ONE, ZERO)
                r = r - had
                if v is not ABSENT:
                    r = r + ite(c, ONE, ZERO)
            return r
        for k, v, c in m.ents:
            if v is not ABSENT:
                r = r + ite(c, ONE, ZERO)
        return r

    def map_empty(self, m):
        if m.base is not None:
            sz = self.map_size(m)
            return c_le(sz)
        return c_and(*[c_not(c) for k, v, c in m.ents if v is not ABSENT])

    def m_map(self, s, name, obj, args, n, ref):
        e = self.e
        lv = e.lv(s, obj)
        m = e.read(s, lv)
        if isinstance(m, Opq):
            e.undecided("unknown map", n, s)
        if name in ("count", "contains"):
            r = []
            for k in self.asKey(s, args[0], m, n):
                s2, key = k
                for s3, b in self.lookup(s2, lv, key, n):
                    r.append((s3, (ONE if b else ZERO) if name == "count" else (T if b else F)))
            return r
        if name == "find":
            r = []
            for s2, key in self.asKey(s, args[0], m, n):
                for s3, b in self.lookup(s2, lv, key, n):
                    r.append((s3, IterV(lv, ("k", key), "map") if b else self.end(s3, lv, n)))
            return r
        if name == "at":
            r = []
            for s2, key in self.asKey(s, args[0], m, n):
                for s3, b in self.lookup(s2, lv, key, n):
                    r.append((s3, lv.sub("m", key)) if b else self.throw(s3, "std::out_of_range", n))
            return r
        if name == "operator[]":
            r = []
            for s2, key in self.asKey(s, args[0], m, n):
                for s3, b in self.lookup(s2, lv, key, n):
                    if not b:
                        self.map_put(s3, lv, key, e.defaultinit0(s3, m.vty, n))
                    r.append((s3, lv.sub("m", key)))
            return r
        if name in ("emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint"):
            if name == "emplace_hint" or (name == "insert" and len(args) == 2 and
                                          isinstance(e.rv(s, args[0]), IterV) and not isinstance(e.rv(s, args[1]), IterV)):
                args = args[1:]
            if name == "insert" and len(args) == 2 and isinstance(e.rv(s, args[0]), IterV):
                return self.map_insert_range(s, lv, args[0], args[1], n)
            a0 = e.rv(s, args[0])
            if len(args) == 1 and m.vty is None:
                if isinstance(a0, SeqV):
                    vs = e.flat(a0)
                    if vs is None:
                        e.undecided("insert range", n, s)
                    cur = [(s, None)]
                    for v in vs:
                        cur = e.bind(cur, lambda s2, _, v=v: self.insert1(s2, lv, v, UNIT, m, n, name))
                    return [(s2, None) for s2, _ in cur]
                return self.insert1(s, lv, a0, UNIT, m, n, name)
            if len(args) == 1:
                p = a0
                if isinstance(p, PairRef):
                    p = Struct("std::pair", {"first": p.key, "second": e.read(s, p.lv.sub("m", p.key))})
                if isinstance(p, SeqV):
                    f = e.flat(p)
                    if f is not None and len(f) == 2 and not isinstance(f[0], Struct):
                        p = Struct("std::pair", {"first": f[0], "second": f[1]})
                    elif f is not None and all(isinstance(x, Struct) for x in f):
                        cur = [(s, None)]
                        for x in f:
                            cur = e.bind(cur, lambda s2, _, x=x: self.insert1(s2, lv, x.f["first"], x.f["second"], m, n, name))
                        return [(s2, None) for s2, _ in cur]
                if not isinstance(p, Struct):
                    e.undecided("insert of %r" % (p,), n, s)
                return self.insert1(s, lv, p.f["first"], p.f["second"], m, n, name)
            src = [a for a in args[1:]]
            if len(src) == 0:
                v = e.defaultinit0(s, m.vty, n)
            elif len(src) == 1:
                v = e.rv(s, src[0])
            else:
                return e.bind(self.construct_by_args(s, m.vty, src, n),
                              lambda s2, v: self.insert1(s2, lv, a0, v, m, n, name))
            return self.insert1(s, lv, a0, v, m, n, name)
        if name == "erase":
            a = e.rv(s, args[0])
            if isinstance(a, IterV):
                if a.pos[0] != "k":
                    e.undecided("erase at %r" % (a,), n, s)
                r = []
                for s2, nx in self.iter_step(s, a, 1, n):
                    self.map_del(s2, lv, a.pos[1])
                    r.append((s2, nx))
                return r
            r = []
            for s2, key in self.asKey(s, a, m, n):
                for s3, b in self.lookup(s2, lv, key, n):
                    if b:
                        self.map_del(s3, lv, key)
                    r.append((s3, ONE if b else ZERO))
            return r
        if name == "clear":
            e.write(s, lv, MapV(m.kty, m.vty, None, ()))
            return [(s, None)]
        if name == "empty":
            return [(s, self.map_empty(m))]
        if name == "size":
            return [(s, self.map_size(m))]
        if name in ("begin", "cbegin"):
            return self.begin(s, lv, n)
        if name in ("end", "cend"):
            return [(s, self.end(s, lv, n))]
        if name in ("rbegin", "crbegin"):
            r = []
            for s2, es in self.present(s, lv, n):
                r.append((s2, IterV(lv, ("k", es[-1][0]) if es else ("end",), "rev")))
            return r
        if name in ("rend", "crend"):
            return [(s, IterV(lv, ("end",), "rev"))]
        if name == "swap":
            return self.swap(s, lv, args[0])
        if name == "merge":
            src = e.lv(s, args[0])
            out = []
            for s2, es in self.present(s, src, n):
                cur = [(s2, None)]
                for k, x, c in es:
                    def one(s3, _, k=k, x=x):
                        r = []
                        for s4, b in self.lookup(s3, lv, k, n):
                            if not b:
                                self.map_put(s4, lv, k, x)
                                self.map_del(s4, src, k)
                            r.append((s4, None))
                        return r
                    cur = e.bind(cur, one)
                out += cur
            return [(s2, None) for s2, _ in out]
        if name in ("lower_bound", "upper_bound", "equal_range"):
            out = []
            for s2, key in self.asKey(s, args[0], m, n):
                for s3, es in self.present(s2, lv, n):
                    def bound(st, upper):
                        cur, res = [(st, 0)], []
                        while cur:
                            s4, i = cur.pop()
                            if i == len(es):
                                res.append((s4, IterV(lv, ("end",), "map")))
                                continue
                            k = es[i][0]
                            c = self.keylt(key, k) if upper else c_not(self.keylt(k, key))
                            for b, s5 in e.branch(s4, c):
                                if b:
                                    res.append((s5, IterV(lv, ("k", k), "map")))
                                else:
                                    cur.append((s5, i + 1))
                        return res
                    if name == "equal_range":
                        out += [(s5, Struct("std::pair", {"first": a, "second": b})) for s4, a in bound(s3, False)
                                for s5, b in bound(s4, True)]
                    else:
                        out += bound(s3, name == "upper_bound")
            return out
        if name == "extract":
            a = e.rv(s, args[0])
            rs = [(s, a.pos[1])] if isinstance(a, IterV) and a.pos[0] == "k" else self.asKey(s, args[0], m, n)
            out = []
            for s2, key in rs:
                for s3, b in self.lookup(s2, lv, key, n):
                    x = e.read(s3, lv.sub("m", key)) if b and m.vty is not None else UNIT
                    if b:
                        self.map_del(s3, lv, key)
                    out.append((s3, Struct("node", {"has": T if b else F, "key": key, "mapped": x})))
            return out
        if name == "operator=":
            v = e.rv(s, args[0])
            if isinstance(v, SeqV):
                e.write(s, lv, MapV(m.kty, m.vty, None, ()))
                cur = [(s, None)]
                for x in e.flat(v):
                    cur = e.bind(cur, lambda s2, _, x=x: self.m_map(s2, "insert", lv, [x], n, {}))
                return [(s2, lv) for s2, _ in cur]
            e.write(s, lv, v)
            if ref.get("moveassign") and isinstance(args[0], LV):
                self.moved(s, args[0])
            return [(s, lv)]
        e.undecided("map::%s" % name, n, s)

    def moved(self, s, lv):
        e = self.e
        v = e.read(s, lv)
        if isinstance(v, MapV):
            e.write(s, lv, MapV(v.kty, v.vty, None, ()))
        elif isinstance(v, SeqV):
            e.write(s, lv, empty_seq(v.ety))
        elif isinstance(v, PtrV) and v.kind != "raw":
            e.write(s, lv, PtrV(None, v.ty, v.kind))

    def asKey(self, s, a, m, n):
        return self.coerce(s, a, m.kty, n)

    def insert1(self, s, lv, key, v, m, n, name):
        e = self.e
        r = []
        for s2, k in self.coerce(s, key, m.kty, n):
            if s2.exc is not None:
                r.append((s2, None))
                continue
            for s3, x in (self.coerce(s2, v, m.vty, n) if m.vty is not None else [(s2, v)]):
                if s3.exc is not None:
                    r.append((s3, None))
                    continue
                for s4, b in self.lookup(s3, lv, k, n):
                    if not b or name == "insert_or_assign":
                        self.map_put(s4, lv, k, x)
                    r.append((s4, Struct("std::pair", {"first": IterV(lv, ("k", k), "map"), "second": F if b else T})))
        return r

    def map_insert_range(self, s, lv, a, b, n):
        e = self.e
        m = e.read(s, lv)

        def body(s2, x):
            if isinstance(x, PairRef):
                x = Struct("std::pair", {"first": x.key, "second": e.read(s2, x.lv.sub("m", x.key))})
            x = e.rv(s2, x)
            if m.vty is None:
                rs = self.insert1(s2, lv, x, UNIT, m, n, "insert")
            else:
                rs = self.insert1(s2, lv, x.f["first"], x.f["second"], m, n, "insert")
            return [("t" if s3.exc is not None else "n", s3, None) for s3, _ in rs]
        return [(s2, None) for k, s2, v in self.each(s, e.rv(s, a), e.rv(s, b), body, n)]

    def present(self, s, lv, n):
        """explicit entries in key order with decided presence -> [(s, [(key, v, T)])]"""
        e = self.e
        m = e.read(s, lv)
        if m.base is not None:
            e.undecided("ordered walk over an unknown map", n, s)
        cur = [s]
        for i, (k, v, c) in enumerate(m.ents):
            if c == T or v is ABSENT:
                continue
            nxt = []
            for x in cur:
                for p, y in e.branch(x, c):
                    mm = e.read(y, lv)
                    ents = list(mm.ents)
                    ents[i] = (k, v, T) if p else (k, ABSENT, T)
                    e.write(y, lv, MapV(mm.kty, mm.vty, None, ents))
                    nxt.append(y)
            cur = nxt
        out = []
        for x in cur:
            mm = e.read(x, lv)
            ents = [t for t in mm.ents if t[1] is not ABSENT]
            if len(ents) != len(mm.ents):
                e.write(x, lv, MapV(mm.kty, mm.vty, None, ents))
            out.extend(self.keyorder(x, ents))
        return out

    # ------------------------------------------------------------------ iterators
    def begin(self, s, lv, n):
        e = self.e
        v = e.read(s, lv)
        if isinstance(v, MapV):
            if v.base is not None:
                if v.ents:
                    e.undecided("walk over a modified unknown map", n, s)
                return [(s, IterV(lv, ("i", ZERO), "map"))]
            return [(s2, IterV(lv, ("k", es[0][0]) if es else ("end",), "map")) for s2, es in self.present(s, lv, n)]
        if isinstance(v, (SeqV, Str)):
            return [(s, IterV(lv, ("i", ZERO), "seq"))]
        if isinstance(v, Json):
            return [(s, IterV(lv, ("i", ZERO), "json"))]
        if isinstance(v, Opq):
            return [(s, IterV(lv, ("i", ZERO), "seq"))]
        if isinstance(v, PtrV) and isinstance(v.to, LV):
            return self.begin(s, v.to, n)
        e.undecided("begin of %r" % (v,), n, s)

    def end(self, s, lv, n):
        e = self.e
        v = e.read(s, lv)
        if isinstance(v, MapV):
            if v.base is not None and not v.ents:
                return IterV(lv, ("i", self.map_size(v)), "map")
            return IterV(lv, ("end",), "map")
        if isinstance(v, SeqV):
            return IterV(lv, ("i", seq_len(v)), "seq")
        if isinstance(v, Str):
            return IterV(lv, ("i", self.strlen(v)), "seq")
        if isinstance(v, Json):
            return IterV(lv, ("i", self.json_size(v)), "json")
        if isinstance(v, Opq):
            return IterV(lv, ("i", P(atom(("len", v.key), True, True))), "seq")
        if isinstance(v, PtrV) and isinstance(v.to, LV):
            return self.end(s, v.to, n)
        e.undecided("end of %r" % (v,), n, s)

    def iter_eq(self, s, a, b, n):
        e = self.e
        if not isinstance(a, IterV) or not isinstance(b, IterV):
            e.undecided("iterator comparison %r %r" % (a, b), n, s)
        if a.pos[0] == "end" or b.pos[0] == "end":
            if a.pos[0] == b.pos[0]:
                return [(s, T)]
            o = b if a.pos[0] == "end" else a
            if o.pos[0] == "i":
                m = e.read(s, o.lv)
                return [(s, c_le(self.map_size(m) - o.pos[1]))] if isinstance(m, MapV) and m.base is not None and \
                    not m.ents else [(s, F)]
            return [(s, F)]
        if a.pos[0] == "k" and b.pos[0] == "k":
            return [(s, e.val_eq(a.pos[1], b.pos[1]))]
        if a.pos[0] == b.pos[0] == "r":
            return [(s, c_eq(a.pos[1] - b.pos[1]))]
        if a.pos[0] == "i" and b.pos[0] == "i":
            d = a.pos[1] - b.pos[1]
            v = e.read(s, a.lv)
            ln = None
            if isinstance(v, SeqV):
                ln = seq_len(v)
            elif isinstance(v, MapV):
                ln = self.map_size(v)
            elif isinstance(v, Json):
                ln = self.json_size(v)
            elif isinstance(v, Str):
                ln = self.strlen(v)
            elif isinstance(v, Opq):
                ln = P(atom(("len", v.key), True, True))
            if ln is not None and b.pos[1] == ln:
                return [(s, c_le(-d))]
            if ln is not None and a.pos[1] == ln:
                return [(s, c_le(d))]
            return [(s, c_eq(d))]
        e.undecided("iterator comparison %r %r" % (a, b), n, s)

    def iter_step(self, s, it, d, n):
        e = self.e
        if it.pos[0] == "i":
            return [(s, IterV(it.lv, ("i", it.pos[1] + (d if not isinstance(d, Poly) else d)), it.kind))]
        if isinstance(d, Poly):
            d = d.const()
            if d is None:
                e.undecided("iterator arithmetic", n, s)
            d = int(d)
        if it.pos[0] == "r":
            return [(s, IterV(it.lv, ("r", it.pos[1] + d), it.kind))]
        out = [(s, it)]
        fwd = (d > 0) != (it.kind == "rev")
        for _ in range(abs(d)):
            nxt = []
            for s1, i in out:
                for s2, es in self.present(s1, i.lv, n):
                    ks = [k for k, v, c in es]
                    if i.pos[0] == "end":
                        j = len(ks) if fwd == (it.kind == "rev") else len(ks)
                        if it.kind == "rev":
                            nk = None if not fwd else (ks[0] if ks else None)
                        else:
                            nk = None if fwd else (ks[-1] if ks else None)
                    else:
                        j = next((x for x, k in enumerate(ks) if s2.facts.query(e.val_eq(k, i.pos[1])) is True), None)
                        if j is None:
                            e.undecided("iterator to erased entry", n, s)
                        j = j + (1 if fwd else -1)
                        nk = ks[j] if 0 <= j < len(ks) else None
                    nxt.append((s2, IterV(i.lv, ("k", nk) if nk is not None else ("end",), i.kind)))
            out = nxt
        return out

    def iter_deref(self, s, it, n):
        r = self.deref_iter(s, it, n)
        if len(r) != 1:
            self.e.undecided("iterator dereference forks", n, s)
        return r[0][1]

    def deref_iter(self, s, it, n):
        """-> [(s, LV | PairRef | value)]"""
        e = self.e
        if it.pos[0] == "end":
            return [self.ub(s, "dereference of end()", n)]
        m = e.read(s, it.lv)
        if isinstance(m, MapV):
            if it.pos[0] == "i":
                key = e.symval(m.kty, ("keyat", m.base, it.pos[1]))
                if m.vty is None:
                    return [(s, key)]
                return [(s, PairRef(it.lv, key))]
            if m.vty is None:
                return [(s, it.pos[1])]
            return [(s, PairRef(it.lv, it.pos[1]))]
        if isinstance(m, Json):
            if m.kind == "obj":
                i = it.pos[1].const()
                if i is None:
                    e.undecided("element of a json object", n, s)
                if not 0 <= i < len(m.a):
                    return [self.ub(s, "dereference of end()", n)]
                return [(s, it.lv.sub("j", self.jkeys(m)[int(i)][0]))]
            if m.kind == "arr":
                (s2, x), = e.bind([(s, None)], lambda s2, _: [(s2, e.seq_get(s2, m.a, it.pos[1]))])
                return [(s2, x if isinstance(x, Json) else Json("val", x))]
            if m.kind == "val" and isinstance(m.a, SeqV):
                return [(s, Json("val", e.seq_get(s, m.a, it.pos[1])))]
            if m.kind == "sym":
                return [(s, Json("sym", ("at", m.a, it.pos[1])))]
            e.undecided("element of %r" % (m,), n, s)
        if isinstance(m, SeqV):
            idx = it.pos[1] if it.pos[0] == "i" else seq_len(m) - 1 - it.pos[1]
            if e.flat(m) is not None and idx.const() is not None and not 0 <= idx.const() < len(e.flat(m)):
                return [self.ub(s, "dereference of an iterator outside the sequence", n)]
            if self.isbytes(m):
                return [(s, it.lv.sub("i", idx))]
            return [(s2, it.lv.sub("i", idx)) for s2 in e.settle(s, it.lv, idx)]
        if isinstance(m, (Opq, Str)):
            return [(s, it.lv.sub("i", it.pos[1]))]
        e.undecided("dereference of %r" % (it,), n, s)

    def isbytes(self, v):
        return isinstance(v, SeqV) and v.ety is not None and v.ety.k == "int" and v.ety.w == 1

    def m_iter(self, s, name, obj, args, n, ref):
        e = self.e
        it = e.rv(s, obj)
        if name in ("operator*", "operator->"):
            if name == "operator->":
                r = []
                for s2, x in self.deref_iter(s, it, n):
                    r.append((s2, x if s2.exc is not None else self.asptr(s2, x)))
                return r
            return self.deref_iter(s, it, n)
        if name in ("operator++", "operator--"):
            d = 1 if name == "operator++" else -1
            r = []
            for s2, x in self.iter_step(s, it, d, n):
                e.write(s2, obj, x)
                r.append((s2, it if args else obj))
            return r
        if name in ("operator+=", "operator-="):
            d = e.rv(s, args[0])
            r = []
            for s2, x in self.iter_step(s, it, d if name == "operator+=" else -d, n):
                e.write(s2, obj, x)
                r.append((s2, obj))
            return r
        if name in ("operator+", "operator-"):
            d = e.rv(s, args[0])
            if isinstance(d, IterV):
                return [(s, it.pos[1] - d.pos[1])]
            return self.iter_step(s, it, d if name == "operator+" else -d, n)
        if name in ("operator==", "operator!="):
            return [(s2, c if name == "operator==" else c_not(c)) for s2, c in self.iter_eq(s, it, e.rv(s, args[0]), n)]
        if name == "operator[]":
            r = []
            for s2, x in self.iter_step(s, it, e.rv(s, args[0]), n):
                r.extend(self.deref_iter(s2, x, n))
            return r
        if name == "operator=":
            e.write(s, obj, e.rv(s, args[0]))
            return [(s, obj)]
        if name == "value" and it.kind == "json":
            return self.deref_iter(s, it, n)
        if name == "key" and it.kind == "json":
            m = e.read(s, it.lv)
            if isinstance(m, Json) and m.kind == "obj" and it.pos[1].const() is not None and 0 <= it.pos[1].const() < len(m.a):
                return [(s, S(self.jkeys(m)[int(it.pos[1].const())][0]))]
        e.undecided("iterator %s" % name, n, s)

    def asptr(self, s, x):
        if isinstance(x, LV):
            return PtrV(x)
        return PtrV(self.e.alloc(s, x, "d"))

    # ------------------------------------------------------------------ sequences
    def nonempty(self, s, lv, what, n):
        """-> [(s, ok)]"""
        e = self.e
        v = e.read(s, lv)
        ln = seq_len(v)
        r = []
        for b, s2 in e.branch(s, c_le(-ln + 1)):
            r.append((s2, b))
        return r

    def m_seq(self, s, name, obj, args, n, ref):
        e = self.e
        lv = e.lv(s, obj)
        v = e.read(s, lv)
        if isinstance(v, Opq):
            v = SeqV(v.ty.args[0] if v.ty is not None and v.ty.args else None, v.key, ZERO,
                     P(atom(("len", v.key), True, True)), ())
            e.write(s, lv, v)
        if not isinstance(v, SeqV):
            e.undecided("sequence %r" % (v,), n, s)
        if name in ("size", "length"):
            return [(s, seq_len(v))]
        if name == "empty":
            return [(s, c_le(seq_len(v)))]
        if name == "clear":
            e.write(s, lv, empty_seq(v.ety))
            return [(s, None)]
        if name in ("reserve", "shrink_to_fit"):
            return [(s, None)]
        if name in ("push_back", "emplace_back"):
            if len(args) == 1:
                rs = self.coerce(s, args[0], v.ety, n)
            else:
                rs = self.construct_by_args(s, v.ety, args, n)
            out = []
            for s2, x in rs:
                if s2.exc is None:
                    w = e.read(s2, lv)
                    e.write(s2, lv, SeqV(w.ety, w.base, w.lo, w.hi, w.tail + (("e", x),)))
                out.append((s2, None if name == "push_back" else lv.sub("i", seq_len(w))))
            return out
        if name in ("push_front", "emplace_front"):
            x = e.rv(s, args[0])
            if v.base is not None and (v.hi - v.lo).const() != 0:
                e.undecided("push_front on a symbolic sequence", n, s)
            e.write(s, lv, SeqV(v.ety, None, ZERO, ZERO, (("e", x),) + v.tail))
            return [(s, None)]
        if name in ("pop_front", "pop_back"):
            out = []
            for s2, ok in self.nonempty(s, lv, name, n):
                if not ok:
                    out.append(self.ub(s2, "%s on an empty sequence" % name, n))
                    continue
                out.extend((s3, None) for s3 in (self.popf(s2, lv, n) if name == "pop_front" else self.popb(s2, lv, n)))
            return out
        if name in ("front", "back"):
            out = []
            for s2, ok in self.nonempty(s, lv, name, n):
                if not ok:
                    out.append(self.ub(s2, "%s of an empty sequence" % name, n))
                    continue
                w = e.read(s2, lv)
                idx = ZERO if name == "front" else seq_len(w) - 1
                for s3 in e.settle(s2, lv, idx):
                    out.append((s3, lv.sub("i", idx)))
            return out
        if name in ("at", "operator[]"):
            i = e.rv(s, args[0])
            out = []
            if name == "at":
                ln = seq_len(v)
                for b, s2 in e.branch(s, c_and(c_le(-i) if not all(by_id(a).nn for a in i.atoms()) or True else T,
                                               c_lt(i - ln))):
                    if not b:
                        out.append(self.throw(s2, "std::out_of_range", n))
                    else:
                        out.extend((s3, lv.sub("i", i)) for s3 in e.settle(s2, lv, i))
                return out
            ln = seq_len(v)
            for b, s2 in e.branch(s, c_and(c_le(-i), c_lt(i - ln))):
                if not b:
                    out.append(self.ub(s2, "index out of range", n))
                else:
                    out.extend((s3, lv.sub("i", i)) for s3 in e.settle(s2, lv, i))
            return out
        if name in ("begin", "cbegin"):
            return self.begin(s, lv, n)
        if name in ("end", "cend"):
            return [(s, self.end(s, lv, n))]
        if name in ("rbegin", "crbegin"):
            return [(s, IterV(lv, ("r", ZERO), "seq"))]
        if name in ("rend", "crend"):
            return [(s, IterV(lv, ("r", seq_len(v)), "seq"))]
        if name == "fill" and len(args) == 1 and e.flat(v) is not None:
            x = e.rv(s, args[0])
            e.write(s, lv, SeqV(v.ety, None, ZERO, ZERO, [("e", x) for _ in e.flat(v)]))
            return [(s, None)]
        if name == "emplace" and args:
            rs = self.construct_by_args(s, v.ety, args[1:], n)
            return [y for s2, x in rs for y in (self.seq_insert(s2, lv, e.read(s2, lv), [args[0], x], n)
                                                if s2.exc is None else [(s2, None)])]
        if name == "capacity" or name == "max_size":
            return [(s, P(atom(("app", name, v), True, True)))]
        if name == "data":
            return [(s, PtrV(lv.sub("i", ZERO)))]
        if name == "insert":
            return self.seq_insert(s, lv, v, args, n)
        if name == "assign":
            a = e.rv(s, args[0])
            if len(args) == 2 and isinstance(a, IterV):
                e.write(s, lv, empty_seq(v.ety))
                return self.append_range(s, lv, a, e.rv(s, args[1]), n)
            if len(args) == 1 and isinstance(a, SeqV):
                e.write(s, lv, SeqV(v.ety, a.base, a.lo, a.hi, a.tail))
                return [(s, None)]
            if len(args) == 2 and isnum(a):
                x, c = e.rv(s, args[1]), a.const()
                e.write(s, lv, SeqV(v.ety, None, ZERO, ZERO, [("e", x)] * int(c) if c is not None and 0 <= c <= 64 else
                                    [e.repn(x, a)]))
                return [(s, None)]
        if name == "erase":
            a = e.rv(s, args[0])
            ln = seq_len(v)
            if len(args) == 1 and a.pos[0] == "i":
                if a.pos[1].const() == 0:
                    return [(s2, IterV(lv, ("i", ZERO), "seq")) for s2 in self.popf(s, lv, n)]
                f = e.flat(v)
                if f is not None and a.pos[1].const() is not None:
                    i = int(a.pos[1].const())
                    e.write(s, lv, SeqV(v.ety, None, ZERO, ZERO, [("e", x) for j, x in enumerate(f) if j != i]))
                    return [(s, a)]
            if len(args) == 2 and a.pos[1].const() == 0 and (e.rv(s, args[1]).pos[1] == ln):
                e.write(s, lv, empty_seq(v.ety))
                return [(s, a)]
            f = e.flat(v)
            if f is not None:
                b = e.rv(s, args[1]) if len(args) == 2 else None
                i = self.position(s, a, n)
                j = self.position(s, b, n) if b is not None else (i + 1 if i is not None else None)
                if i is not None and j is not None and a.pos[0] == "i" and 0 <= i <= j <= len(f):
                    e.write(s, lv, SeqV(v.ety, None, ZERO, ZERO, [("e", x) for k, x in enumerate(f) if not i <= k < j]))
                    return [(s, IterV(lv, ("i", P(i)), "seq"))]
                if i is not None and j is not None and a.pos[0] == "i" and not 0 <= i <= j <= len(f):
                    return [self.ub(s, "erase of a position outside the sequence", n)]
            e.undecided("erase", n, s)
        if name == "resize":
            k = e.rv(s, args[0])
            d = s.facts.norm(k - seq_len(v)).const()
            if d is not None and 0 <= d <= 64:
                x = e.rv(s, args[1]) if len(args) > 1 else e.default(v.ety, s, True)
                e.write(s, lv, SeqV(v.ety, v.base, v.lo, v.hi, v.tail + tuple(("e", x) for _ in range(int(d)))))
                return [(s, None)]
            if not len(v.tail) and v.base is None:
                x = e.rv(s, args[1]) if len(args) > 1 else e.default(v.ety, s, True)
                e.write(s, lv, SeqV(v.ety, None, ZERO, ZERO, (e.repn(x, k),)))
                return [(s, None)]
            if d is not None and d < 0 and e.flat(v) is not None and len(e.flat(v)) >= -d:
                e.write(s, lv, SeqV(v.ety, None, ZERO, ZERO, [("e", x) for x in e.flat(v)[:int(d)]]))
                return [(s, None)]
            e.undecided("resize", n, s)
        if name == "swap":
            return self.swap(s, lv, args[0])
        if name == "operator=":
            x = e.rv(s, args[0])
            if isinstance(x, SeqV):
                x = SeqV(v.ety, x.base, x.lo, x.hi, x.tail)
            e.write(s, lv, x)
            if ref.get("moveassign") and isinstance(args[0], LV):
                self.moved(s, args[0])
            return [(s, lv)]
        e.undecided("sequence::%s" % name, n, s)

    def popf(self, s, lv, n):
        e = self.e
        v = e.read(s, lv)
        out = []
        if v.base is not None:
            for b, s2 in e.branch(s, c_le(v.lo - v.hi + 1)):
                w = e.read(s2, lv)
                if b:
                    e.write(s2, lv, SeqV(w.ety, w.base, w.lo + 1, w.hi, w.tail))
                    out.append(s2)
                else:
                    out.extend(self.poptail(s2, lv, SeqV(w.ety, None, ZERO, ZERO, w.tail), n))
            return out
        return self.poptail(s, lv, v, n)

    def poptail(self, s, lv, v, n):
        e = self.e
        t = list(v.tail)
        if not t:
            return []
        p = t[0]
        if p[0] == "e":
            e.write(s, lv, SeqV(v.ety, None, ZERO, ZERO, t[1:]))
            return [s]
        if p[0] == "rep" and p[3] == T and len(p[4]) == 1 and p[4][0][0] == "e":
            out = []
            for b, s2 in e.branch(s, c_le(-p[2] + 1)):
                if b:
                    k = p[1]
                    np = ("rep", k, p[2] - 1, T, deep(p[4], Sub({k: P(k) + 1})))
                    e.write(s2, lv, SeqV(v.ety, None, ZERO, ZERO, [np] + t[1:]))
                    out.append(s2)
                else:
                    out.extend(self.poptail(s2, lv, SeqV(v.ety, None, ZERO, ZERO, t[1:]), n))
            return out
        e.undecided("pop_front of %r" % (v,), n, s)

    def popb(self, s, lv, n):
        e = self.e
        v = e.read(s, lv)
        t = list(v.tail)
        if t:
            p = t[-1]
            if p[0] == "e":
                e.write(s, lv, SeqV(v.ety, v.base, v.lo, v.hi, t[:-1]))
                return [s]
            if p[0] == "rep" and p[3] == T and len(p[4]) == 1 and p[4][0][0] == "e":
                out = []
                for b, s2 in e.branch(s, c_le(-p[2] + 1)):
                    if b:
                        e.write(s2, lv, SeqV(v.ety, v.base, v.lo, v.hi, t[:-1] + [("rep", p[1], p[2] - 1, T, p[4])]))
                        out.append(s2)
                    else:
                        e.write(s2, lv, SeqV(v.ety, v.base, v.lo, v.hi, t[:-1]))
                        out.extend(self.popb(s2, lv, n))
                return out
            e.undecided("pop_back of %r" % (v,), n, s)
        e.write(s, lv, SeqV(v.ety, v.base, v.lo, v.hi - 1, ()))
        return [s]

    def seq_insert(self, s, lv, v, args, n):
        e = self.e
        pos = e.rv(s, args[0])
        f = e.flat(v)
        at = self.position(s, pos, n) if f is not None and isinstance(pos, IterV) and pos.pos[0] == "i" else None
        if at is not None and 0 <= at < len(f) and not self.isbytes(v):
            new = None
            if len(args) == 3:
                a, b = self.asiter(s, e.rv(s, args[1])), self.asiter(s, e.rv(s, args[2]))
                if isnum(a) and a.const() is not None:
                    new = [e.rv(s, args[2])] * int(a.const())
                else:
                    r = self.span(s, a, b, n)
                    new = self.values(s, r) if r is not None else None
            elif len(args) == 2:
                x = e.rv(s, args[1])
                if isinstance(x, SeqV) and not (v.ety is not None and v.ety.k == "rec" and v.ety.name in SEQS):
                    new = e.flat(x)
                else:
                    new = [x]
                    if isinstance(x, PairRef):
                        new = None
            if new is not None:
                cur = [(s, ())]
                for x in new:
                    cur = [(s3, l + (y,)) for s2, l in cur for s3, y in self.coerce(s2, x, v.ety, n)]
                for s2, l in cur:
                    if s2.exc is None:
                        e.write(s2, lv, SeqV(v.ety, None, ZERO, ZERO, [("e", x) for x in list(f[:at]) + list(l) + list(f[at:])]))
                return [(s2, IterV(lv, ("i", P(at)), "seq")) for s2, l in cur]
        ln = seq_len(v)
        atend = isinstance(pos, IterV) and pos.pos[0] == "i" and s.facts.same(pos.pos[1], ln)
        if len(args) == 3:
            a, b = e.rv(s, args[1]), e.rv(s, args[2])
            if not atend:
                if isinstance(pos, IterV) and pos.pos[0] == "i" and pos.pos[1].const() == 0 and isinstance(a, IterV):
                    # prepend: build the other way round
                    src = e.alloc(s, empty_seq(v.ety), "x")
                    out = []
                    for s2, _ in self.append_range(s, src, a, b, n):
                        if s2.exc is None:
                            w, o = e.read(s2, src), e.read(s2, lv)
                            if o.base is not None and (o.hi - o.lo).const() != 0:
                                if w.base is None and not w.tail:
                                    out.append((s2, None))
                                    continue
                                e.undecided("prepend", n, s)
                            e.write(s2, lv, SeqV(o.ety, w.base, w.lo, w.hi, w.tail + o.tail))
                        out.append((s2, None))
                    return out
                e.undecided("insert in the middle", n, s)
            from engine import BPtr
            if isinstance(a, BPtr):
                self.append_bytes(s, lv, a, b, n)
                return [(s, pos)]
            if isinstance(a, IterV):
                return [(s2, pos) for s2, _ in self.append_range(s, lv, a, b, n)]
            if isnum(a):
                e.write(s, lv, SeqV(v.ety, v.base, v.lo, v.hi, v.tail + (e.repn(b, a),)))
                return [(s, pos)]
        if len(args) == 2:
            x = e.rv(s, args[1])
            if atend:
                if isinstance(x, SeqV) and not (v.ety is not None and v.ety.k == "rec" and v.ety.name in SEQS):
                    e.write(s, lv, SeqV(v.ety, v.base, v.lo, v.hi, v.tail + x.tail))
                    return [(s, pos)]
                e.write(s, lv, SeqV(v.ety, v.base, v.lo, v.hi, v.tail + (("e", x),)))
                return [(s, pos)]
            if pos.pos[0] == "i" and pos.pos[1].const() == 0 and v.base is None:
                e.write(s, lv, SeqV(v.ety, None, ZERO, ZERO, (("e", x),) + v.tail))
                return [(s, pos)]
        e.undecided("vector insert", n, s)

    def append_bytes(self, s, lv, a, b, n):
        e = self.e
        v = e.read(s, lv)
        from engine import BPtr
        if not isinstance(b, BPtr) or b.lv != a.lv:
            e.undecided("byte range", n, s)
        cnt = b.off - a.off
        x = e.read(s, a.lv)
        w = a.ty.w if a.ty is not None else None
        if isinstance(x, Str):
            p = ("chunk", ("str", x), cnt)
        elif a.off.const() == 0 and w is not None and cnt.const() == w:
            p = ("chunk", ("val", x, a.ty.s), cnt)
        else:
            p = ("chunk", ("part", x, a.ty.s if a.ty is not None else "?", a.off), cnt)
        e.write(s, lv, SeqV(v.ety, v.base, v.lo, v.hi, v.tail + (p,)))

    def append_range(self, s, lv, a, b, n):
        """append [a,b) to the sequence at lv -> [(s,None)]"""
        e = self.e
        v = e.read(s, lv)
        src = e.read(s, a.lv)
        if isinstance(src, Str) and a.pos[1].const() == 0 and s.facts.same(b.pos[1], self.strlen(src)):
            e.write(s, lv, SeqV(v.ety, v.base, v.lo, v.hi, v.tail + (("chunk", ("str", src), self.strlen(src)),)))
            return [(s, None)]
        if isinstance(src, SeqV) and a.pos[0] == "i" and b.pos[0] == "i":
            ln = seq_len(src)
            if a.pos[1].const() == 0 and s.facts.same(b.pos[1], ln):
                if src.base is None:
                    e.write(s, lv, SeqV(v.ety, v.base, v.lo, v.hi, v.tail + src.tail))
                    return [(s, None)]
                if v.base is None and not v.tail:
                    e.write(s, lv, SeqV(v.ety, src.base, src.lo, src.hi, src.tail))
                    return [(s, None)]
                k = e.itatom()
                p = ("rep", k, src.hi - src.lo, T, (("e", e.seq_elem(src, src.lo + P(k))),))
                e.write(s, lv, SeqV(v.ety, v.base, v.lo, v.hi, v.tail + (p,) + src.tail))
                return [(s, None)]
        if isinstance(src, Opq) or (self.isbytes(src) and src.base is not None):
            e.write(s, lv, SeqV(v.ety, v.base, v.lo, v.hi, v.tail + (("chunk", ("raw", src), b.pos[1] - a.pos[1]),)))
            return [(s, None)]

        def body(s2, x):
            if isinstance(x, PairRef):
                x = Struct("std::pair", {"first": x.key, "second": e.read(s2, x.lv.sub("m", x.key))})
            out = []
            for s3, y in self.coerce(s2, x, v.ety, n):
                if s3.exc is None:
                    w = e.read(s3, lv)
                    e.write(s3, lv, SeqV(w.ety, w.base, w.lo, w.hi, w.tail + (("e", y),)))
                out.append(("t" if s3.exc is not None else "n", s3, None))
            return out
        return [(s2, None) for k, s2, x in self.each(s, a, b, body, n)]

    def each(self, s, a, b, body, n):
        """runs body(s, element) for each element of [a,b) -> [(kind, s, v)]"""
        e = self.e
        cell = e.alloc(s, a, "i")

        def cond(s2):
            bb = b(s2) if callable(b) else b
            if bb.kind == "map" and bb.pos[0] == "end":
                bb = self.end(s2, bb.lv, n)
            return [(s3, c_not(x)) for s3, x in self.iter_eq(s2, e.read(s2, cell), bb, n)]

        def bd(s2):
            out = []
            for s3, x in self.deref_iter(s2, e.read(s2, cell), n):
                if s3.exc is not None:
                    out.append(("t", s3, None))
                else:
                    out.extend(body(s3, x))
            return out

        def inc(s2):
            out = []
            for s3, x in self.iter_step(s2, e.read(s2, cell), 1, n):
                e.write(s3, cell, x)
                out.append((s3, None))
            return out
        return e.over(s, cond, bd, inc, n if isinstance(n, dict) else {}, cell)

    def swap(self, s, a, b):
        e = self.e
        x, y = e.read(s, a), e.read(s, b)
        e.write(s, a, y)
        e.write(s, b, x)
        return [(s, None)]

    # ------------------------------------------------------------------ strings
    def strlen(self, v):
        r = ZERO
        if isinstance(v, Opq):
            return P(atom(("app", "strlen", v.key), True, True))
        for p in v.p:
            if p[0] == "c":
                r = r + len(p[1].encode())
            else:
                r = r + P(atom(("app", "strlen", p), True, True))
        return r

    def str_empty(self, v):
        if isinstance(v, Opq):
            return c_bool(atom(("sempty", v.key)))
        if not v.p:
            return T
        if any(p[0] in ("c", "n") or p[0] == "a" and isinstance(p[1], tuple) and p[1][:1] == ("dump",) for p in v.p):
            return F
        return str_eq(v, S(""))

    def m_str(self, s, name, obj, args, n, ref):
        e = self.e
        v = e.rv(s, obj)
        if isinstance(v, Opq):
            v = SA(v.key)
        if not isinstance(v, Str):
            e.undecided("string %r" % (v,), n, s)
        if name in ("size", "length"):
            return [(s, self.strlen(v))]
        if name == "empty":
            return [(s, self.str_empty(v))]
        if name in ("c_str", "data"):
            return [(s, v)]
        if name == "clear":
            e.write(s, obj, S(""))
            return [(s, None)]
        if name in ("operator=", "assign") and len(args) == 1:
            def w(s2, x):
                e.write(s2, obj, x)
                return [(s2, obj)]
            return e.bind(self.tostr(s, args[0], n), w)
        if name == "assign" and len(args) == 2:
            a, b = e.rv(s, args[0]), e.rv(s, args[1])
            x = self.str_range(s, a, b, n)
            e.write(s, obj, x)
            return [(s, obj)]
        if name in ("operator+=", "append", "push_back") and len(args) == 1:
            def w2(s2, x):
                cur = e.rv(s2, obj)
                e.write(s2, obj, Str(cur.p + x.p))
                return [(s2, obj)]
            return e.bind(self.tostr(s, args[0], n), w2)
        if name in ("begin", "cbegin"):
            return self.begin(s, e.lv(s, obj), n)
        if name in ("end", "cend"):
            return [(s, self.end(s, e.lv(s, obj), n))]
        if name == "compare":
            out = []
            if len(args) > 1:
                ks = [e.rv(s, a) for a in args]
                o = self.asstr(ks[2]) if len(ks) == 3 else None
                if o is None or v.const() is None or o.const() is None or ks[0].const() is None or ks[1].const() is None:
                    e.undecided("string::compare of a part", n, s)
                x = v.const()[int(ks[0].const()):int(ks[0].const() + ks[1].const())]
                return [(s, ZERO if x == o.const() else P(-1) if x < o.const() else ONE)]
            for s2, o in self.tostr(s, args[0], n):
                # 0 exactly when equal
                for same, s3 in e.branch(s2, str_eq(v, o)):
                    if same:
                        out.append((s3, ZERO))
                    elif v.const() is not None and o.const() is not None:
                        out.append((s3, P(-1) if v.const() < o.const() else ONE))
                    else:
                        out += [(s4, P(-1) if less else ONE)
                                for less, s4 in e.branch(s3, c_bool(atom(("strless", v, o))))]
            return out
        if name == "pop_back":
            if v.p and v.p[-1][0] == "c":
                e.write(s, obj, Str(v.p[:-1] + (("c", v.p[-1][1][:-1]),)))
                return [(s, None)]
            e.write(s, obj, SA(("popback", v)))
            return [(s, None)]
        if name in ("find", "rfind", "find_first_of", "find_last_of"):
            d = e.rv(s, args[0])
            d = self.asstr(d)
            c, dc = v.const(), d.const()
            npos = (1 << 64) - 1
            p0 = e.rv(s, args[1]) if len(args) > 1 else None
            p0 = (int(p0.const()) if isnum(p0) and p0.const() is not None else "?") if p0 is not None else None
            if len(args) > 2:
                e.undecided("string::%s of a prefix" % name, n, s)
            if c is not None and dc is not None and p0 != "?":
                if name == "find":
                    i = c.find(dc, p0 or 0)
                elif name == "rfind":
                    i = c.rfind(dc) if p0 is None else c.rfind(dc, 0, p0 + len(dc))
                else:
                    hits = [k for k, ch in enumerate(c) if ch in dc and (p0 is None or (k >= p0 if "first" in name else k <= p0))]
                    i = -1 if not hits else hits[0] if "first" in name else hits[-1]
                return [(s, P(i if i >= 0 else npos))]
            if p0 is not None and p0 != 0 or name not in ("find", "find_first_of") and p0 is not None:
                return [(s, P(atom(("app", "strfind", name, v, d) + tuple(e.rv(s, a) for a in args[1:]), True, True)))]
            if name in ("find", "find_first_of") and dc is not None and (name == "find" or len(dc) == 1):
                off = ZERO
                for p in v.p:
                    if p[0] == "c" and dc in p[1]:
                        return [(s, off + p[1].find(dc))]
                    off = off + self.strlen(Str((p,)))
            return [(s, P(atom(("app", "strfind", name, v, d), True, True)))]
        if name in ("starts_with", "ends_with") and v.const() is not None and self.asstr(e.rv(s, args[0])).const() is not None:
            return [(s, T if getattr(v.const(), name.replace("_", "").replace("with", "with"))(
                self.asstr(e.rv(s, args[0])).const()) else F)]
        if name in ("erase", "insert", "resize", "replace") and v.const() is not None:
            c = v.const()
            a = [e.rv(s, x) for x in args]
            ks = [int(x.const()) if isnum(x) and x.const() is not None else
                  int(x.pos[1].const()) if isinstance(x, IterV) and x.pos[0] == "i" and x.pos[1].const() is not None else
                  self.asstr(x).const() if isinstance(x, (Str, Opq)) else None for x in a]
            its = [isinstance(x, IterV) for x in a]
            new, r = None, obj
            if all(k is not None for k in ks):
                if name == "resize" and isinstance(ks[0], int):
                    new = c[:ks[0]] + (chr(ks[1]) if len(ks) > 1 else "\0") * max(0, ks[0] - len(c))
                    r = None
                elif name == "erase" and not any(its) and all(isinstance(k, int) for k in ks):
                    i = ks[0] if ks else 0
                    if i > len(c):
                        return [self.throw(s, "std::out_of_range", n)]
                    new = c[:i] + (c[i + ks[1]:] if len(ks) > 1 else "")
                elif name == "erase" and all(its):
                    j = ks[1] if len(ks) > 1 else ks[0] + 1
                    new = c[:ks[0]] + c[j:]
                    r = a[0]
                elif name == "insert" and len(ks) == 2 and isinstance(ks[0], int) and isinstance(ks[1], str) and not any(its):
                    new = c[:ks[0]] + ks[1] + c[ks[0]:]
                elif name == "insert" and len(ks) == 2 and its[0] and isinstance(ks[1], int):
                    new = c[:ks[0]] + chr(ks[1]) + c[ks[0]:]
                    r = a[0]
                elif name == "replace" and len(ks) == 3 and isinstance(ks[2], str) and not any(its):
                    new = c[:ks[0]] + ks[2] + c[ks[0] + ks[1]:]
            if new is not None:
                e.write(s, obj, S(new))
                return [(s, r)]
        if name == "substr":
            return [(s, self.substr(s, v, e.rv(s, args[0]) if args else ZERO, e.rv(s, args[1]) if len(args) > 1 else None))]
        if name in ("operator[]", "at", "back", "front") and v.const() is not None:
            c = v.const()
            i = e.rv(s, args[0]).const() if args else ZERO.const() if name == "front" else len(c) - 1
            if i is not None and 0 <= i < len(c):
                if isinstance(obj, LV):
                    return [(s, obj.sub("i", P(int(i))))]
                return [(s, P(ord(c[int(i)])))]
            if i is not None and name == "at":
                return [self.throw(s, "std::out_of_range", n)]
        if name in ("operator[]", "at", "back", "front"):
            return [(s, P(atom(("app", "char", v, name, e.rv(s, args[0]) if args else ZERO), True)))]
        if name == "swap":
            return self.swap(s, obj, args[0])
        if name == "reserve":
            return [(s, None)]
        e.undecided("string::%s" % name, n, s)

    def substr(self, s, v, a, ln):
        off = ZERO
        ps = list(v.p)
        # drop a prefix
        out = []
        start = None
        for i, p in enumerate(ps):
            if start is not None:
                out.append(p)
                continue
            n = self.strlen(Str((p,)))
            d = s.facts.norm(a - off).const()
            if d is not None and d == 0:
                start = i
                out.append(p)
            elif d is not None and p[0] == "c" and 0 < d <= len(p[1]):
                start = i
                out.append(("c", p[1][int(d):]))
            off = off + n
        if start is None:
            if s.facts.same(a, off):
                return S("")
            return SA(("substr", v, a, ln))
        if ln is None or (ln.const() is not None and ln.const() > 1 << 40):
            return Str(tuple(out))
        r = []
        left = ln
        for p in out:
            n = self.strlen(Str((p,)))
            d = s.facts.norm(left).const()
            if d == 0:
                return Str(tuple(r))
            if p[0] == "c" and d is not None and d <= len(p[1]):
                r.append(("c", p[1][:int(d)]))
                return Str(tuple(r))
            if s.facts.query(c_le(n - left)) is True:
                r.append(p)
                left = left - n
                continue
            return SA(("substr", v, a, ln))
        return Str(tuple(r))

    def asstr(self, v):
        if isinstance(v, Str):
            return v
        if isinstance(v, Opq):
            return SA(v.key)
        if isnum(v):
            c = v.const()
            if c is not None:
                return S(chr(int(c)))
            return SA(("chr", v))
        return None

    def tostr(self, s, x, n):
        e = self.e
        v = e.rv(s, x)
        if isinstance(v, Json):
            return self.json_to_str(s, v, n)
        r = self.asstr(v)
        if r is None:
            e.undecided("string from %r" % (v,), n, s)
        return [(s, r)]

    def str_range(self, s, a, b, n):
        e = self.e
        if isinstance(a, Str) and isnum(b):
            return self.substr(s, a, ZERO, b)
        if isinstance(a, IterV):
            src = e.read(s, a.lv)
            if isinstance(src, SeqV):
                return self.tape_str(s, src, a.pos[1], b.pos[1] - a.pos[1], n)
            if isinstance(src, Str):
                return self.substr(s, src, a.pos[1], b.pos[1] - a.pos[1])
        from engine import BPtr
        if isinstance(a, BPtr) and a.lv.path and a.lv.path[-1][0] == "i":
            base = LV(a.lv.loc, a.lv.path[:-1])
            off = a.lv.path[-1][1] + a.off
            ln = b if isnum(b) else (b.lv.path[-1][1] + b.off - off)
            return self.tape_str(s, e.read(s, base), off, ln, n)
        e.undecided("string from %r, %r" % (a, b), n, s)

    # ------------------------------------------------------------------ byte tape
    def locate(self, s, seq, off, n):
        """piece starting at byte offset off -> piece (with iteration atoms resolved) or None"""
        e = self.e
        if seq.base is not None:
            return None
        pos = ZERO
        for p in seq.tail:
            d = s.facts.norm(off - pos)
            if d.const() == 0 or (not d.const() and d.m and s.facts.query(c_eq(d)) is True):
                if p[0] != "rep":
                    return p
            sz = psize(p)
            if p[0] == "rep" and p[3] == T:
                r = self.in_rep(s, p, d)
                if r is not None:
                    return r
            pos = pos + sz
        return None

    def in_rep(self, s, p, d):
        """piece at offset d inside the repetition p"""
        k = p[1]
        inner = ZERO
        sizes = [psize(q) for q in p[4]]
        tot = ZERO
        for z in sizes:
            tot = tot + z
        cands = [by_id(a) for a in sorted(d.atoms()) if by_id(a).key[0] == "it"] + [None]
        for kk in cands:
            idx = P(kk) if kk is not None else None
            idxs = [idx] if idx is not None else []
            if idx is None:
                st = tot.const()
                if st and all((v / st).denominator == 1 for m, v in d.m.items() if m):
                    q = Poly({m: v / st for m, v in d.m.items() if m})
                    c = d.cpart()
                    qc = c // st
                    idxs = [q + P(qc)]
            for ix in idxs:
                pre = summation(tot, ix, k)
                rest = s.facts.norm(d - pre)
                if s.facts.query(c_lt(ix - p[2])) is not True or s.facts.query(c_le(-ix)) is not True:
                    continue
                o = ZERO
                for q, z in zip(p[4], sizes):
                    zz = psubst(z, Sub({k: ix}))
                    if s.facts.norm(rest - o).const() == 0:
                        if q[0] == "rep":
                            r = self.in_rep(s, deep(q, Sub({k: ix})), ZERO)
                            if r is not None:
                                return r
                        else:
                            return deep(q, Sub({k: ix}))
                    elif q[0] == "rep":
                        r = self.in_rep(s, deep(q, Sub({k: ix})), rest - o)
                        if r is not None:
                            return r
                    o = o + zz
        return None

    def tape_read(self, s, bp, ty, n):
        e = self.e
        lv = bp.lv
        if not (lv.path and lv.path[-1][0] == "i"):
            if bp.off.const() == 0:
                return e.read(s, lv)
            e.undecided("byte access to %r" % (bp,), n, s)
        seq = e.read(s, LV(lv.loc, lv.path[:-1]))
        off = lv.path[-1][1] + bp.off
        p = self.locate(s, seq, off, n) if isinstance(seq, SeqV) else None
        if p is not None and p[0] == "chunk" and p[1][0] == "val" and (p[2].const() == ty.w if ty is not None and ty.w else True):
            x = p[1][1]
            src = Ty._tab.get(p[1][2])
            if src is not None and ty is not None and (src.k == "float") != (ty.k == "float"):
                return self.tape_bad(s, seq, off, ty, n, "type")
            if src is not None and ty is not None and ty.k == "bool" and isnum(x):
                return c_ne(x)
            if iscond(x) and ty is not None and ty.k != "bool":
                return ite(x, ONE, ZERO)
            return x
        return self.tape_bad(s, seq, off, ty, n, "position")

    def tape_bad(self, s, seq, off, ty, n, why):
        e = self.e
        s.events = s.events + (("tape", why, s.frames[-1].file, n.get("l") if n else None, s.frames[-1].fn),)
        return e.symval(ty, ("opq", "tape", e.nextfresh()))

    def tape_str(self, s, seq, off, ln, n):
        e = self.e
        if s.facts.norm(ln).const() == 0:
            return S("")
        p = self.locate(s, seq, off, n)
        if p is not None and p[0] == "chunk" and p[1][0] == "str" and s.facts.same(p[2], ln):
            return p[1][1]
        s.events = s.events + (("tape", "string", s.frames[-1].file, n.get("l") if n else None, s.frames[-1].fn),)
        return SA(("opq", "tape", e.nextfresh()))

    # ------------------------------------------------------------------ pointers, functions, optionals
    def m_ptr(self, s, name, obj, args, n, ref):
        e = self.e
        v = e.rv(s, obj)
        if isinstance(v, Opq):
            v = PtrV(("sym", v.key), None, "unique_ptr")
        if name == "get":
            return [(s, PtrV(v.to, v.ty, "raw"))]
        if name in ("operator->",):
            return [(s, PtrV(v.to, v.ty, "raw"))]
        if name == "operator*":
            if isinstance(v, PtrV) and v.to is None:
                return [self.ub(s, "null pointer dereference", n)]
            return [(s, e.deref(s, v, n))]
        if name == "operator bool":
            return [(s, e.truth(v, n, s))]
        if name == "operator=":
            x = e.rv(s, args[0])
            if isinstance(x, PtrV):
                e.write(s, obj, PtrV(x.to, v.ty if v.ty is not None else x.ty, v.kind))
                c = strip(ref.get("clsn") or "")
                if isinstance(args[0], LV) and c == "std::unique_ptr" and x.kind == "unique_ptr":
                    e.write(s, args[0], PtrV(None, x.ty, x.kind))
                return [(s, obj)]
            e.undecided("pointer = %r" % (x,), n, s)
        if name == "reset":
            x = e.rv(s, args[0]) if args else PtrV(None)
            e.write(s, obj, PtrV(x.to, v.ty, v.kind))
            return [(s, None)]
        if name == "release":
            e.write(s, obj, PtrV(None, v.ty, v.kind))
            return [(s, PtrV(v.to, v.ty, "raw"))]
        if name == "swap":
            return self.swap(s, obj, args[0])
        e.undecided("pointer::%s" % name, n, s)

    def m_func(self, s, name, obj, args, n, ref):
        e = self.e
        v = e.rv(s, obj)
        if name == "operator()":
            return e.callval(s, v, args, n)
        if name == "operator=":
            e.write(s, obj, e.rv(s, args[0]))
            return [(s, obj)]
        if name == "operator bool":
            return [(s, e.truth(v, n, s))]
        if name == "swap":
            return self.swap(s, obj, args[0])
        e.undecided("function::%s" % name, n, s)

    def m_opt(self, s, name, obj, args, n, ref):
        e = self.e
        v = e.rv(s, obj)
        if name in ("has_value", "operator bool"):
            return [(s, v.has)]
        if name == "value":
            out = []
            for b, s2 in e.branch(s, v.has):
                out.append((s2, e.rv(s2, obj).v) if b else self.throw(s2, "std::bad_optional_access", n))
            return out
        if name == "operator*":
            out = []
            for b, s2 in e.branch(s, v.has):
                out.append((s2, v.v) if b else self.ub(s2, "dereference of an empty optional", n))
            return out
        if name == "operator->":
            return [(s, PtrV(e.lv(s, v.v)))]
        if name == "value_or":
            out = []
            for b, s2 in e.branch(s, v.has):
                out.append((s2, v.v if b else e.rv(s2, args[0])))
            return out
        if name in ("operator=", "emplace"):
            x = e.rv(s, args[0])
            if isinstance(x, OptV):
                e.write(s, obj, x)
            else:
                e.write(s, obj, OptV(T, e.conv(x, v.ty), v.ty))
            return [(s, obj)]
        if name == "reset":
            e.write(s, obj, OptV(F, None, v.ty))
            return [(s, None)]
        e.undecided("optional::%s" % name, n, s)

    # ------------------------------------------------------------------ json
    def json_size(self, j):
        if j.kind == "obj":
            return P(len(j.a))
        if j.kind == "arr":
            return seq_len(j.a)
        if j.kind == "val" and isinstance(j.a, SeqV):
            return seq_len(j.a)
        if j.kind == "null":
            return ZERO
        return P(atom(("len", j.a), True, True))

    def jkeys(self, j):
        """members in key order"""
        if j.kind != "obj":
            return []
        if not all(isinstance(k, str) for k, _ in j.a):
            raise Undecided("walk over a json object with unknown keys")
        return sorted(j.a, key=lambda t: t[0])

    def json_const(self, x):
        if isinstance(x, dict):
            return Json("obj", tuple((k, self.json_const(x[k])) for k in sorted(x)))
        if isinstance(x, list):
            return Json("arr", SeqV(None, None, ZERO, ZERO, [("e", self.json_const(y)) for y in x]))
        if x is None:
            return Json("null")
        if isinstance(x, bool):
            return Json("val", T if x else F)
        if isinstance(x, str):
            return Json("val", S(x))
        return Json("val", P(x))

    def json_is(self, j, name):
        """type query on a json of known kind -> bool or None"""
        k = {"obj": "object", "arr": "array", "null": "null"}.get(j.kind)
        if j.kind == "val":
            v = j.a
            k = "object" if isinstance(v, MapV) else "array" if isinstance(v, SeqV) else "string" if isinstance(v, Str) else \
                "boolean" if iscond(v) else "number" if isnum(v) else None
        if k is None:
            return None
        if name == "is_structured":
            return k in ("object", "array")
        if name == "is_primitive":
            return k not in ("object", "array")
        if name in ("is_number_integer", "is_number_float", "is_number_unsigned"):
            return None if k == "number" else False
        if name in ("is_object", "is_array", "is_null", "is_string", "is_boolean", "is_number"):
            return name == "is_" + k
        return None

    def json_get(self, s, j, key, n, how):
        """member access -> [(s, Json|None)] None: missing"""
        e = self.e
        if j.kind == "obj":
            for k, v in j.a:
                if k == key:
                    return [(s, v)]
            return [(s, None)]
        if j.kind == "sym":
            s.events = s.events + (("jread", j.a, key, how, n.get("l")),)
            return [(s, Json("sym", ("jf", j.a, key)))]
        if j.kind == "null":
            return [(s, None)]
        if j.kind == "val" and isinstance(j.a, MapV):
            for k, v, c in j.a.ents:
                if c == T and skey(k) == key and v is not ABSENT:
                    return [(s, Json("val", v))]
            if j.a.base is None:
                return [(s, None)]
        if j.kind == "val" and isinstance(j.a, (SeqV, Str)) or j.kind == "arr":
            return [self.throw(s, "json::type_error", n)]
        e.undecided("member %s of %r" % (key, j), n, s)

    def json_elem(self, s, j, i, n):
        e = self.e
        if j.kind == "arr" or (j.kind == "val" and isinstance(j.a, SeqV)):
            x = e.seq_get(s, j.a, i)
            return [(s, x if isinstance(x, Json) else Json("val", x))]
        if j.kind == "sym":
            return [(s, Json("sym", ("at", j.a, i)))]
        if j.kind == "val" and isinstance(j.a, Struct) and j.a.cls == "std::pair":
            return [(s, Json("val", j.a.f["first" if i.const() == 0 else "second"]))]
        e.undecided("element of %r" % (j,), n, s)

    def m_json(self, s, name, obj, args, n, ref):
        e = self.e
        j = e.rv(s, obj)
        if isinstance(j, Opq):
            j = Json("sym", j.key)
        if not isinstance(j, Json):
            e.undecided("json %r" % (j,), n, s)
        if name in ("at", "operator[]"):
            a = e.rv(s, args[0])
            if isinstance(a, Str):
                k = a.const()
                if k is None:
                    k = a
                if name == "operator[]" and j.kind in ("obj", "null") and isinstance(obj, LV) and not (ref or {}).get("cm"):
                    # may insert
                    ents = j.a if j.kind == "obj" else ()
                    if not any(x == k for x, _ in ents):
                        e.write(s, obj, Json("obj", tuple(ents) + ((k, Json("null")),)))
                    return [(s, obj.sub("j", k))]
                out = []
                for s2, v in self.json_get(s, j, k, n, name):
                    if s2.exc is not None:
                        out.append((s2, None))
                    elif v is None:
                        out.append(self.throw(s2, "json::out_of_range", n) if name == "at" else
                                   self.ub(s2, "member %s of a constant json object that lacks it" % k, n))
                    elif name == "at" and v.kind == "sym":
                        # at() throws when the member is missing
                        for b, s3 in e.branch(s2, c_bool(atom(("jhas", j.a, k)))):
                            out.append((s3, v) if b else self.throw(s3, "json::out_of_range", n))
                    else:
                        out.append((s2, v))
                return out
            if isnum(a):
                return self.json_elem(s, j, a, n)
        if name == "value":
            k = e.rv(s, args[0]).const()
            d = e.rv(s, args[1])
            t = self.argty(s, ref, 1, n)
            out = []
            for s2, v in self.json_get(s, j, k, n, "value"):
                if s2.exc is not None:
                    out.append((s2, None))
                    continue
                if v is None:
                    out.append((s2, d))
                elif v.kind == "sym":
                    s2.events = s2.events + (("jdefault", j.a, k, d, t.s if t else "?", n.get("l")),)
                    for b, s3 in e.branch(s2, c_bool(atom(("jhas", j.a, k)))):
                        if b:
                            out.extend(self.json_to(s3, v, t, n))
                        else:
                            out.append((s3, d))
                else:
                    out.extend(self.json_to(s2, v, t, n))
            return out
        if name == "get" or name.startswith("operator "):
            t = e.prog.ty(e.reftu(s, n["fn"]), ref["ret"])
            return self.json_to(s, j, t, n)
        if name == "get_to":
            out = []
            t = self.lvty(s, args[0], n)
            for s2, v in self.json_to(s, j, t, n):
                if s2.exc is None:
                    e.write(s2, args[0], v)
                out.append((s2, args[0]))
            return out
        if name == "dump":
            return [(s, SA(("dump", j)))]
        if name == "size":
            return [(s, self.json_size(j))]
        if name == "empty":
            return [(s, c_le(self.json_size(j)))]
        if name in ("contains", "count"):
            k = e.rv(s, args[0]).const()
            if j.kind == "obj":
                b = T if any(x == k for x, _ in j.a) else F
            else:
                b = c_bool(atom(("jhas", j.a, k)))
            return [(s, b if name == "contains" else ite(b, ONE, ZERO))]
        if name in ("begin", "cbegin"):
            return self.begin(s, e.lv(s, obj), n)
        if name in ("end", "cend"):
            return [(s, self.end(s, e.lv(s, obj), n))]
        if name in ("push_back", "emplace_back"):
            v = e.rv(s, args[0])
            a = j.a if j.kind == "arr" else empty_seq(None)
            e.write(s, obj, Json("arr", SeqV(None, a.base, a.lo, a.hi, a.tail + (("e", v if isinstance(v, Json) else
                                                                                  Json("val", v)),))))
            return [(s, None)]
        if name == "operator=":
            v = e.rv(s, args[0])
            e.write(s, obj, v if isinstance(v, Json) else Json("val", v))
            return [(s, obj)]
        if name.startswith("is_"):
            known = self.json_is(j, name)
            if known is not None:
                return [(s, T if known else F)]
            return [(s, c_bool(atom(("jis", name, j))))]
        if name == "items" and j.kind in ("obj", "null"):
            return [(s, e.alloc(s, MapV(None, jsonty(), None,
                                        [(S(k), v, T) for k, v in self.jkeys(j)]), "it"))]
        if name == "find" and j.kind in ("obj", "null") and e.rv(s, args[0]).const() is not None:
            k = e.rv(s, args[0]).const()
            ks = [x for x, _ in self.jkeys(j)]
            return [(s, IterV(e.lv(s, obj), ("i", P(ks.index(k) if k in ks else len(ks))), "json"))]
        if name == "clear":
            e.write(s, obj, Json("obj", ()) if j.kind == "obj" else Json("arr", empty_seq(None)) if j.kind == "arr" else Json("null"))
            return [(s, None)]
        if name == "update" and j.kind in ("obj", "null") and isinstance(e.rv(s, args[0]), Json) and e.rv(s, args[0]).kind == "obj" \
                and len(args) <= 2:
            d = dict(j.a if j.kind == "obj" else ())
            d.update(dict(e.rv(s, args[0]).a))
            e.write(s, obj, Json("obj", tuple(d.items())))
            return [(s, None)]
        if name == "erase" and j.kind == "obj" and isinstance(e.rv(s, args[0]), Str) and e.rv(s, args[0]).const() is not None:
            k = e.rv(s, args[0]).const()
            e.write(s, obj, Json("obj", tuple(t for t in j.a if t[0] != k)))
            return [(s, ONE if any(t[0] == k for t in j.a) else ZERO)]
        if name in ("front", "back") and j.kind in ("arr", "val"):
            return self.json_elem(s, j, ZERO if name == "front" else self.json_size(j) - 1, n)
        if name == "emplace" and len(args) == 2 and j.kind in ("obj", "null") and e.rv(s, args[0]).const() is not None:
            k = e.rv(s, args[0]).const()
            new = not any(t[0] == k for t in (j.a if j.kind == "obj" else ()))
            if new:
                v = e.rv(s, args[1])
                e.write(s, obj, Json("obj", tuple(j.a if j.kind == "obj" else ()) + ((k, v if isinstance(v, Json) else Json("val", v)),)))
            return [(s, Struct("std::pair", {"first": Opq(("iter", e.nextfresh())), "second": T if new else F}))]
        if name in ("begin", "items"):
            e.undecided("json %s" % name, n, s)
        e.undecided("json::%s" % name, n, s)

    def lvty(self, s, lv, n):
        a = n["args"][0] if n.get("args") else None
        return self.e.ty(s, a["t"]) if a is not None and "t" in a else None

    def argty(self, s, ref, i, n):
        e = self.e
        t = e.prog.ty(e.reftu(s, n["fn"]), ref["ret"])
        return t

    def json_to_str(self, s, j, n):
        return self.json_to(s, j, None, n, "string")

    def json_to(self, s, j, t, n, want=None):
        """conversion of a json value to a C++ value of type t -> [(s, v)]"""
        e = self.e
        if t is not None and t.k == "ref":
            t = t.to
        nm = want or (t.name if t is not None and t.k == "rec" else (t.k if t is not None else None))
        if nm is not None and nm.endswith("basic_json"):
            return [(s, j)]
        if j.kind == "sym":
            if t is not None and t.k == "rec" and t.usr in e.prog.classes:
                fj = self.find_from_json(s, t)
                if fj:
                    return self.run_from_json(s, fj, j, t, n)
            s.events = s.events + (("jget", j.a, t.s if t is not None else nm, n.get("l")),)
            if want == "string":
                return [(s, SA(("jv", j.a, "string")))]
            return [(s, e.symval(t, ("jv", j.a, t.s)))]
        if j.kind == "val":
            v = j.a
            if t is not None and t.k in ("int", "float"):
                if isnum(v):
                    if t.k == "int" and not v.isint():
                        return [(s, e.cast(s, "FloatingToIntegral", v, t, n))]
                    return [(s, e.intcast(s, v, t) if t.k == "int" else e.single(v, t))]
                if iscond(v):
                    return [self.throw(s, "json::type_error", n)]
                return [self.throw(s, "json::type_error", n)]
            if t is not None and t.k == "bool":
                return [(s, v)] if iscond(v) else [self.throw(s, "json::type_error", n)]
            if nm in ("std::basic_string", "string"):
                return [(s, v)] if isinstance(v, (Str, Opq)) else [self.throw(s, "json::type_error", n)]
            if isinstance(v, SeqV) and t is not None and t.name in SEQS:
                f = e.flat(v)
                if f is not None:
                    cur = [(s, ())]
                    for x in f:
                        cur = [(s3, vs + (("e", y),)) if s3.exc is None else (s3, vs)
                               for s2, vs in cur
                               for s3, y in ([(s2, None)] if s2.exc is not None else
                                             self.json_to(s2, x if isinstance(x, Json) else Json("val", x), t.args[0], n))]
                    return [(s2, SeqV(t.args[0], None, ZERO, ZERO, vs)) for s2, vs in cur]
                return [(s, SeqV(t.args[0], v.base, v.lo, v.hi, v.tail))]
            if isinstance(v, MapV) and t is not None and t.name in MAPS:
                return [(s, v)]
            if isinstance(v, Struct):
                return [(s, v)]
        if j.kind == "arr":
            return self.json_to(s, Json("val", j.a), t, n, want)
        if j.kind in ("obj", "null") and t is not None and t.k == "rec" and t.usr in e.prog.classes:
            fj = self.find_from_json(s, t)
            if fj:
                return self.run_from_json(s, fj, j, t, n)
        if j.kind == "obj" and t is not None and t.name in MAPS and len(t.args) > 1 and t.args[0].name == "std::basic_string":
            cur = [(s, ())]
            for k, x in sorted(j.a):
                cur = [(s3, es + ((S(k), y, T),)) if s3.exc is None else (s3, es)
                       for s2, es in cur
                       for s3, y in ([(s2, None)] if s2.exc is not None else
                                     self.json_to(s2, x if isinstance(x, Json) else Json("val", x), t.args[1], n))]
            return [(s2, MapV(t.args[0], t.args[1], None, es)) for s2, es in cur]
        if j.kind == "null" or j.kind == "obj" and t is not None and (t.k in ("int", "float", "bool") or t.name in SEQS) \
                or j.kind == "obj" and nm in ("std::basic_string", "string"):
            return [self.throw(s, "json::type_error", n)]
        e.undecided("conversion of %r to %s" % (j, t), n, s)

    def find_from_json(self, s, t, name="from_json"):
        e = self.e
        tu = s.frames[-1].tu if s.frames else None
        c = [(u, l) for u, l in e.prog.funcs.items() if l[0][1]["qn"].split("::")[-1].split("<")[0] == name]
        for want in (tu, None):
            for u, l in c:
                for tn, f in l:
                    if want is not None and tn != want:
                        continue
                    if len(f["ps"]) != 2:
                        continue
                    pt = e.prog.ty(tn, f["ps"][1]["t"])
                    if pt is not None and pt.k == "ref":
                        pt = pt.to
                    if pt is not None and pt.k == "rec" and pt.usr == t.usr:
                        return u, tn, f
        return None

    def run_from_json(self, s, fj, j, t, n):
        e = self.e
        u, tn, f = fj
        obj = e.alloc(s, e.makedefault(s, t.usr, n), "o")
        out = []
        for s2, _ in self.callfn(s, fj, [j, obj], n):
            out.append((s2, e.read(s2, obj) if s2.exc is None else None))
        return out

    def callfn(self, s, fj, args, n):
        e = self.e
        u, tn, f = fj
        from engine import Frame
        fr = Frame(tn, f["qn"], None, {}, f["file"])
        e.funcs_seen.add((f["file"], f["line"], f["qn"]))
        return e.run(s, fr, f["ps"], args, f["body"], None, n)

    def json_of(self, s, v, n, t=None):
        """json constructed from a C++ value -> [(s, Json)]"""
        e = self.e
        if isinstance(v, Json):
            return [(s, v)]
        if isinstance(v, Struct) and v.cls in e.prog.classes:
            class TT:
                pass
            tt = TT()
            tt.usr = v.cls
            tj = self.find_from_json1(s, v.cls)
            if tj:
                cell = e.alloc(s, Json("null"), "j")
                obj = e.alloc(s, v, "o")
                return [(s2, e.read(s2, cell) if s2.exc is None else None)
                        for s2, _ in self.callfn(s, tj, [cell, obj], n)]
        if isinstance(v, SeqV) and v.base is None and self.written(v):
            cur = [(s, ())]
            for x in e.flat(v) or ():
                cur = [(s3, js + (("e", j),)) for s2, js in cur if s2.exc is None
                       for s3, j in self.json_of(s2, x, n)] + [c for c in cur if c[0].exc is not None]
            return [(s2, Json("arr", SeqV(None, None, ZERO, ZERO, js)) if s2.exc is None else None) for s2, js in cur]
        if isinstance(v, MapV) and v.base is None and self.written(v) and \
                all(isinstance(k, Str) and k.const() is not None for k, x, c in v.ents):
            cur = [(s, ())]
            for k, x, c in v.ents:
                if x is ABSENT:
                    continue
                nxt = [y for y in cur if y[0].exc is not None]
                for s2, js in cur:
                    if s2.exc is None:
                        for b, s3 in e.branch(s2, c):
                            nxt += [(s4, js + ((k.const(), j),)) for s4, j in self.json_of(s3, x, n)] if b else [(s3, js)]
                cur = nxt
            return [(s2, Json("obj", js) if s2.exc is None else None) for s2, js in cur]
        return [(s, Json("val", v))]

    def truth(self, s, x, ref, n):
        """a literal handed over as bool"""
        if isnum(x):
            t = self.e.prog.ty(self.e.reftu(s, n["fn"]), ref["ps"][0]) if ref["ps"] else None
            if t is not None and t.k == "ref":
                t = t.to
            if t is not None and t.s.replace("const ", "") == "bool":
                return c_ne(x)
        return x

    def written(self, v):
        """contains objects with a to_json of their own"""
        e = self.e
        if isinstance(v, Struct):
            return v.cls in e.prog.classes
        if isinstance(v, SeqV):
            return e.flat(v) is not None and any(self.written(x) for x in e.flat(v))
        if isinstance(v, MapV):
            return any(x is not ABSENT and self.written(x) for k, x, c in v.ents)
        return False

    def find_from_json1(self, s, usr):
        e = self.e
        tu = s.frames[-1].tu if s.frames else None
        for want in (tu, None):
            for u, l in e.prog.funcs.items():
                for tn, f in l:
                    if f["qn"].split("::")[-1].split("<")[0] != "to_json" or len(f["ps"]) != 2:
                        continue
                    if want is not None and tn != want:
                        continue
                    pt = e.prog.ty(tn, f["ps"][1]["t"])
                    if pt is not None and pt.k == "ref":
                        pt = pt.to
                    if pt is not None and pt.usr == usr:
                        return u, tn, f
        return None

    def json_init(self, s, v):
        """json from an initialiser list value (a SeqV of json_ref values)"""
        e = self.e
        f = e.flat(v)
        if f is None:
            e.undecided("json initialiser", None, s)
        js = [x if isinstance(x, Json) else Json("val", x) for x in f]

        def ispair(x):
            if x.kind == "arr":
                y = e.flat(x.a)
                return y is not None and len(y) == 2 and isinstance(y[0], Json) and y[0].kind == "val" and \
                    isinstance(y[0].a, Str)
            return False
        if js and all(ispair(x) for x in js):
            r = []
            for x in js:
                k, val = e.flat(x.a)
                kk = k.a.const()
                r = [t for t in r if t[0] != kk] + [(kk, val)]
            return Json("obj", tuple(r))
        return Json("arr", SeqV(None, None, ZERO, ZERO, [("e", x) for x in js]))

    # ------------------------------------------------------------------ free functions
    def free(self, s, ref, name, args, n):
        e = self.e
        c = strip(ref.get("clsn") or "")
        vs = [e.rv(s, a) for a in args]
        if c.endswith("basic_json") and name == "parse":
            t = self.asstr(vs[0])
            if t.p and len(t.p) == 1 and t.p[0][0] == "a" and isinstance(t.p[0][1], tuple) and t.p[0][1][0] == "dump":
                return [(s, t.p[0][1][1])]
            if t.const() is not None:
                try:
                    return [(s, self.json_const(pyjson.loads(t.const(), parse_float=Fraction)))]
                except ValueError:
                    return [self.throw(s, "json::parse_error", n)]
            b = s.copy()
            out = []
            key = ("parse", t)
            ok = atom(("parses", t))
            if s.assume(c_bool(ok)):
                out.append((s, Json("sym", key)))
            if b.assume(c_not(c_bool(ok))):
                out.append(self.throw(b, "json::parse_error", n))
            return out
        if c.endswith("basic_json") and name in ("array", "object") and (not vs or isinstance(vs[0], SeqV)):
            if name == "object" and (not vs or not e.flat(vs[0])):
                return [(s, Json("obj", ()))]
            if name == "array":
                f = e.flat(vs[0]) if vs else []
                if f is not None:
                    return [(s, Json("arr", SeqV(None, None, ZERO, ZERO, [("e", x if isinstance(x, Json) else Json("val", x))
                                                                          for x in f])))]
        if c == "std::numeric_limits":
            t = e.prog.ty(e.reftu(s, n["fn"]), ref["ret"])
            if t is not None and t.k == "int":
                w = t.w * 8
                if name == "max":
                    return [(s, P((1 << (w - 1)) - 1 if t.sg else (1 << w) - 1))]
                if name in ("min", "lowest"):
                    return [(s, P(-(1 << (w - 1)) if t.sg else 0))]
            return [(s, P(atom(("app", "limit", name))))]
        if name in ("move", "forward", "as_const", "addressof", "move_if_noexcept", "ref", "cref", "launder") and len(args) == 1:
            if name == "addressof":
                return [(s, PtrV(e.lv(s, args[0])))]
            return [(s, args[0])]
        if name == "swap" and len(args) == 2:
            return self.swap(s, args[0], args[1])
        if name == "exchange" and len(args) == 2:
            old = vs[0]
            e.write(s, args[0], vs[1])
            return [(s, old)]
        if name in ("make_unique", "make_shared"):
            t = e.prog.ty(e.reftu(s, n["fn"]), ref["ret"])
            et = t.args[0]

            def w(s2, v):
                return [(s2, PtrV(e.alloc(s2, v, "n"), et, name[5:] + "_ptr"))]
            return e.bind(self.construct_by_args(s, et, args, n), w)
        if name == "make_pair":
            return [(s, Struct("std::pair", {"first": vs[0], "second": vs[1]}))]
        if name == "make_optional":
            return [(s, OptV(T, vs[0]))]
        if name == "to_string":
            v = vs[0]
            if iscond(v):
                v = ite(v, ONE, ZERO)
            if isnum(v) and (v.isint()):
                return [(s, Str((("n", v),)))]
            return [(s, SA(("fmt", v)))]
        if name == "pow":
            a, b = vs
            k = b.const() if isnum(b) else None
            if k is not None and k.denominator == 1 and 0 <= k <= (8 if a.const() is None else 64):
                return [(s, power(a, int(k)))]
            return [(s, app("pow", a, b))]
        if name in ("sqrt", "cos", "sin", "exp", "log", "fabs", "abs", "floor", "ceil", "round", "tan", "fmod", "isnan",
                    "isfinite", "isinf", "trunc", "cbrt", "hypot", "log2", "log10", "atan", "acos", "asin", "sinh", "cosh", "tanh",
                    "atan2", "exp2", "expm1", "log1p", "remainder", "copysign", "nearbyint", "rint", "lround", "llround", "signbit"):
            k = vs[0].const() if isnum(vs[0]) else None
            if k is not None and len(vs) == 1 and name in ("floor", "ceil", "trunc", "round", "lround", "llround"):
                fl = k.numerator // k.denominator
                return [(s, P(fl if name == "floor" else -((-k.numerator) // k.denominator) if name == "ceil" else int(k)
                              if name == "trunc" else (1 if k > 0 else -1) * ((abs(k) + Fraction(1, 2)).__floor__())))]
            if k is not None and name == "fmod" and vs[1].const():
                q = abs(k) - abs(vs[1].const()) * (abs(k) // abs(vs[1].const()))
                return [(s, P(q if k >= 0 else -q))]
            if k is not None and name in ("isnan", "isinf"):
                return [(s, F)]
            if k is not None and name == "isfinite":
                return [(s, T)]
            if k is not None and name == "sqrt" and k >= 0:
                import math
                p, q = math.isqrt(k.numerator), math.isqrt(k.denominator)
                if p * p == k.numerator and q * q == k.denominator:
                    return [(s, P(Fraction(p, q)))]
            if name in ("fabs", "abs") and len(vs) == 1:
                v = vs[0]
                if v.const() is not None:
                    return [(s, P(abs(v.const())))]
                out = []
                for b, s2 in e.branch(s, c_lt(v, not v.isint())):
                    out.append((s2, -v if b else v))
                return out
            if name in ("isnan", "isfinite", "isinf"):
                return [(s, c_bool(atom(("fp", name, vs[0]))))]
            if name == "sqrt" and vs[0].const() == 0:
                return [(s, ZERO)]
            return [(s, app(name, *vs, nonneg=(name == "sqrt")))]
        if name in ("min", "max") and len(vs) == 2 and all(isnum(v) for v in vs):
            d = vs[1] - vs[0]
            real = not d.isint()
            out = []
            # min: b < a ? b : a      max: a < b ? b : a
            c2 = c_lt(d, real) if name == "min" else c_lt(-d, real)
            for b, s2 in e.branch(s, c2):
                out.append((s2, vs[1] if b else vs[0]))
            return out
        if name in ("fmin", "fmax") and len(vs) == 2 and all(isnum(v) and v.const() is not None for v in vs):
            return [(s, (min if name == "fmin" else max)(vs, key=lambda p: p.const()))]
        if name in ("fmin", "fmax", "fma") and all(isnum(v) for v in vs):
            return [(s, app(name, *vs))]
        if name == "getline":
            return self.getline(s, args, vs, n)
        if name == "operator+" and len(vs) == 2:
            if isinstance(vs[0], IterV):
                return self.m_iter(s, name, args[0], args[1:], n, ref)
            if isinstance(vs[1], IterV):
                return self.iter_step(s, vs[1], vs[0], n)
            out = []
            for s2, a in self.tostr(s, vs[0], n):
                for s3, b in self.tostr(s2, vs[1], n):
                    out.append((s3, Str(a.p + b.p)))
            return out
        if name == "operator-" and len(vs) == 2 and isinstance(vs[0], IterV):
            return self.m_iter(s, name, args[0], args[1:], n, ref)
        if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and len(vs) == 2:
            return self.compare(s, name, vs[0], vs[1], n)
        if name == 'operator""s':
            return [(s, vs[0])]
        if name == "operator<<" or name == "operator>>":
            st = vs[0]
            if isinstance(st, Stream) and isinstance(args[0], LV):
                if isnum(vs[1]) and len(n.get("args", ())) == 2:
                    t = e.ty(s, n["args"][1].get("t"))
                    if t is not None and t.k == "int" and t.w == 1:
                        if vs[1].const() is None:
                            e.undecided("character output", n, s)
                        vs[1] = S(chr(int(vs[1].const())))
                x = self.asstr(vs[1]) if not isnum(vs[1]) else Str((("n", vs[1]),))
                if x is not None:
                    e.write(s, args[0], Stream(Str(st.s.p + x.p), st.pos))
            return [(s, args[0])]
        if name in ("endl", "flush"):
            return [(s, args[0] if args else None)]
        if name in ("begin", "cbegin"):
            return self.begin(s, e.lv(s, args[0]), n)
        if name in ("end", "cend"):
            return [(s, self.end(s, e.lv(s, args[0]), n))]
        if name in ("size", "ssize"):
            return self.call_method(s, "size", args[0], n, ref)
        if name == "empty":
            return self.call_method(s, "empty", args[0], n, ref)
        if name in ("next", "prev"):
            d = vs[1] if len(vs) > 1 else ONE
            return self.iter_step(s, vs[0], d if name == "next" else -d, n)
        if name == "advance":
            out = []
            for s2, x in self.iter_step(s, vs[0], vs[1], n):
                e.write(s2, args[0], x)
                out.append((s2, None))
            return out
        if name == "distance":
            a, b = vs
            if a.pos[0] == "i" and b.pos[0] == "i":
                return [(s, b.pos[1] - a.pos[1])]
            if a.kind == "map":
                cell = e.alloc(s, ZERO, "c")

                def cnt(s2, x):
                    e.write(s2, cell, e.read(s2, cell) + 1)
                    return [("n", s2, None)]
                return [(s2, e.read(s2, cell)) for k, s2, v in self.each(s, a, b, cnt, n)]
        if name in ("memcpy", "memmove"):
            return self.memcpy(s, args, vs, n)
        if name == "tie":
            return [(s, Struct("tied", {str(i): PtrV(a) if isinstance(a, LV) else None for i, a in enumerate(args)}))]
        if name in ("make_tuple", "forward_as_tuple"):
            return [(s, Struct("std::tuple", {str(i): x for i, x in enumerate(vs)}))]
        if name in ("isdigit", "isalpha", "isspace", "isalnum", "isupper", "islower", "toupper", "tolower") and len(vs) == 1 and \
                isnum(vs[0]) and vs[0].const() is not None and 0 <= vs[0].const() < 128:
            ch = chr(int(vs[0].const()))
            return [(s, P(ord(getattr(ch, name[2:])())) if name in ("toupper", "tolower") else
                     ONE if getattr(ch, name)() else ZERO)]
        if name in ("copy", "copy_n", "move") and len(vs) == 3 and (ref.get("qn") or "").startswith("std::"):
            r = self.copy_bytes(s, name, args, vs, n)
            if r is not None:
                return r
        if name in OUT and (ref.get("qn") or "").startswith("std::"):
            r = self.explicit(s, name, args, vs, n, ref)
            if r is not None:
                return r
        if name in ("sort", "stable_sort"):
            return self.sort(s, vs, n)
        if name in ("find", "find_if", "find_if_not", "any_of", "all_of", "none_of", "count", "count_if", "for_each", "accumulate",
                    "copy", "transform", "max_element", "min_element", "inner_product", "copy_if", "fill", "back_inserter",
                    "generate", "iota", "equal", "for_each_n", "reverse", "reduce"):
            if name == "back_inserter":
                return self.explicit(s, name, args, vs, n, ref)
            return self.algo(s, name, args, vs, n, ref)
        if name == "get" and len(vs) == 1:
            # std::get<I>(pair)
            ta = ref.get("targs") or []
            v = vs[0]
            if isinstance(v, Struct) and v.cls == "std::tuple" and ta and str(ta[0]) in v.f:
                k = str(ta[0])
                return [(s, args[0].sub("f", k) if isinstance(args[0], LV) else v.f[k])]
            if isinstance(v, Struct) and v.cls == "std::pair" and ta:
                k = "first" if str(ta[0]) == "0" else "second"
                return [(s, args[0].sub("f", k) if isinstance(args[0], LV) else v.f[k])]
        if name in ("dynamic_pointer_cast", "static_pointer_cast"):
            return [(s, vs[0])]
        if name in ("stoi", "stol", "stoul", "stoull", "stod"):
            v = self.asstr(vs[0])
            if v.const() is not None and v.const().isdigit():
                return [(s, P(int(v.const())))]
            if len(v.p) == 1 and v.p[0][0] == "n":
                return [(s, v.p[0][1])]
            return [(s, P(atom(("app", name, v), name != "stod")))]
        if name == "to_json" or name == "from_json":
            e.undecided(name, n, s)
        if name == "exit" or name == "abort" or name == "terminate":
            return [self.throw(s, "exit", n)]
        if name in ("size_t", "move_backward"):
            pass
        e.undecided("no model of %s" % ref["qn"], n, s)

    def call_method(self, s, name, obj, n, ref):
        e = self.e
        v = e.rv(s, obj)
        if isinstance(v, MapV):
            return self.m_map(s, name, obj, [], n, ref)
        if isinstance(v, SeqV):
            return self.m_seq(s, name, obj, [], n, ref)
        if isinstance(v, Str):
            return self.m_str(s, name, obj, [], n, ref)
        e.undecided("%s of %r" % (name, v), n, s)

    def compare(self, s, name, a, b, n):
        e = self.e
        if isinstance(a, IterV) and isinstance(b, IterV):
            if name in ("operator==", "operator!="):
                return [(s2, c if name == "operator==" else c_not(c)) for s2, c in self.iter_eq(s, a, b, n)]
            if a.pos[0] == "i" and b.pos[0] == "i":
                return e.binop(s, name[8:], a.pos[1], b.pos[1], False, None, n)
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            return e.binop(s, name[8:], a, b, False, None, n)
        if isinstance(a, Json) or isinstance(b, Json):
            o = b if isinstance(a, Json) else a
            j = a if isinstance(a, Json) else b
            if isinstance(o, Json):
                c = e.val_eq(a, b)
            else:
                if j.kind == "val":
                    c = e.val_eq(j.a, o)
                else:
                    c = c_bool(atom(("jeq", j, o)))
            return [(s, c if name == "operator==" else c_not(c))]
        if isinstance(a, Struct) and a.cls in ("tied", "std::tuple") and isinstance(b, Struct) and \
                b.cls in ("tied", "std::tuple"):
            fa, fb = [[(e.rv(s, q.to) if q is not None else None) if z.cls == "tied" else q for q in z.f.values()] for z in (a, b)]
            if name in ("operator==", "operator!="):
                c = c_and(*[e.val_eq(x, y) for x, y in zip(fa, fb)])
                return [(s, c if name == "operator==" else c_not(c))]
            r = self.lexical(s, name, SeqV(None, None, ZERO, ZERO, [("e", x) for x in fa]),
                             SeqV(None, None, ZERO, ZERO, [("e", x) for x in fb]), n)
            if r is not None:
                return r
        if isinstance(a, (Str, Opq)) and isinstance(b, (Str, Opq)):
            x, y = self.asstr(a), self.asstr(b)
            if name in ("operator==", "operator!="):
                c = str_eq(x, y)
                return [(s, c if name == "operator==" else c_not(c))]
            lt = self.keylt(x, y)
            gt = self.keylt(y, x)
            return [(s, {"operator<": lt, "operator>": gt, "operator<=": c_not(gt), "operator>=": c_not(lt)}[name])]
        if isinstance(a, OptV) or isinstance(b, OptV):
            if isinstance(a, OptV) and isinstance(b, OptV):
                if b.has == F:
                    c = c_not(a.has)
                elif a.has == F:
                    c = c_not(b.has)
                else:
                    c = c_or(c_and(a.has, b.has, e.val_eq(a.v, b.v)), c_and(c_not(a.has), c_not(b.has)))
            else:
                o, v = (a, b) if isinstance(a, OptV) else (b, a)
                c = c_and(o.has, e.val_eq(o.v, v)) if o.has != F else F
            if name in ("operator==", "operator!="):
                return [(s, c if name == "operator==" else c_not(c))]
        if isinstance(a, Func) or isinstance(b, Func):
            f = a if isinstance(a, Func) else b
            c = F if f.kind != "null" else T
            return [(s, c if name == "operator==" else c_not(c))]
        if name in ("operator==", "operator!="):
            c = e.val_eq(a, b)
            return [(s, c if name == "operator==" else c_not(c))]
        if isnum(a) and isnum(b):
            return e.binop(s, name[8:], a, b, not (a - b).isint(), None, n)
        r = self.lexical(s, name, a, b, n)
        if r is not None:
            return r
        if isinstance(a, Struct) and isinstance(b, Struct) and tuple(a.f) == tuple(b.f) == ("first", "second"):
            lt, gt = F, F
            for k in ("second", "first"):
                x, y = a.f[k], b.f[k]
                if not isnum(x) or not isnum(y):
                    e.undecided("%s on pairs" % name, n, s)
                lt = c_or(c_lt(x - y), c_and(c_eq(x - y), lt))
                gt = c_or(c_lt(y - x), c_and(c_eq(x - y), gt))
            return [(s, {"operator<": lt, "operator>": gt, "operator<=": c_not(gt), "operator>=": c_not(lt)}[name])]
        e.undecided("%s on %r %r" % (name, a, b), n, s)

    def lexical(self, s, name, a, b, n):
        """<, >, <=, >= of explicit sequences and pairs -> results or None"""
        e = self.e
        if name not in ("operator<", "operator>", "operator<=", "operator>="):
            return None
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            x, y = e.flat(a), e.flat(b)
        elif isinstance(a, Struct) and isinstance(b, Struct) and tuple(a.f) == tuple(b.f) == ("first", "second") and \
                not all(isnum(z) for z in list(a.f.values()) + list(b.f.values())):
            x, y = list(a.f.values()), list(b.f.values())
        else:
            return None
        if x is None or y is None:
            return None
        if name in ("operator>", "operator<="):
            x, y = y, x
        cur, out = [(s, 0)], []
        while cur:
            s2, k = cur.pop()
            if k == len(y) or k == len(x):
                out.append((s2, F if k == len(y) else T))
                continue
            for s3, lt in self.ask(s2, None, [x[k], y[k]], n):
                if lt:
                    out.append((s3, T))
                    continue
                for s4, gt in self.ask(s3, None, [y[k], x[k]], n):
                    if gt:
                        out.append((s4, F))
                    else:
                        cur.append((s4, k + 1))
        return [(s2, c if name in ("operator<", "operator>") else c_not(c)) for s2, c in out]

    def getline(self, s, args, vs, n):
        e = self.e
        st = vs[0]
        if not isinstance(st, Stream):
            e.undecided("getline", n, s)
        d = vs[2] if len(vs) > 2 else P(10)
        dc = d.const() if isnum(d) else None
        if dc is None:
            e.undecided("getline delimiter", n, s)
        ch = chr(int(dc))
        parts = list(st.s.p[st.pos:]) if not isinstance(st.pos, tuple) else list(st.pos)
        out, rest, found = [], [], False
        for i, p in enumerate(parts):
            if found:
                rest.append(p)
            elif p[0] == "c" and ch in p[1]:
                j = p[1].index(ch)
                out.append(("c", p[1][:j]))
                if p[1][j + 1:]:
                    rest.append(("c", p[1][j + 1:]))
                found = True
            else:
                if p[0] == "a" and ch != "\0":
                    self.assumed.add("operator ids contain no '%s'" % ch)
                out.append(p)
        e.write(s, args[1], Str(tuple(out)))
        e.write(s, args[0], Stream(st.s, tuple(rest)))
        return [(s, args[0])]

    def memcpy(self, s, args, vs, n):
        from engine import BPtr
        e = self.e
        dst, src, cnt = vs

        def norm(p):
            if isinstance(p, PtrV) and isinstance(p.to, LV):
                return BPtr(p.to, ZERO, None)
            return p
        dst, src = norm(dst), norm(src)
        if isinstance(src, BPtr) and isinstance(dst, BPtr) and src.lv.path and src.lv.path[-1][0] == "i" and \
                dst.off.const() == 0:
            t = dst.ty
            if t is None:
                t = self.ptr_arg_ty(s, n, 0)
            if t is None or t.w != cnt.const():
                e.undecided("memcpy size", n, s)
            e.write(s, dst.lv, self.tape_read(s, src, t, n))
            return [(s, args[0])]
        # into a byte sequence
        if isinstance(dst, BPtr) and dst.lv.path and dst.lv.path[-1][0] == "i":
            q = LV(dst.lv.loc, dst.lv.path[:-1])
            if self.isbytes(e.read(s, q)) and isinstance(src, BPtr):
                if src.ty is None:
                    src = BPtr(src.lv, src.off, self.ptr_arg_ty(s, n, 1))
                self.poke(s, q, dst.lv.path[-1][1] + dst.off, src, cnt, n)
                return [(s, args[0])]
        e.undecided("memcpy", n, s)

    def copy_bytes(self, s, name, args, vs, n):
        """byte-wise copies between objects and byte sequences -> results or None"""
        from engine import BPtr
        e = self.e
        a, b, d = vs
        if name == "copy_n":
            if not isnum(b):
                return None
            if isinstance(a, BPtr):
                b = a.plus(b)
            elif isinstance(a, IterV) and a.pos[0] == "i":
                b = IterV(a.lv, ("i", a.pos[1] + b), a.kind)
        if isinstance(a, BPtr) and isinstance(b, BPtr):
            if isinstance(d, Struct) and d.cls == "back_inserter" and self.isbytes(e.read(s, d.f["to"].to)):
                self.append_bytes(s, d.f["to"].to, a, b, n)
                return [(s, d)]
            if isinstance(d, IterV) and self.isbytes(e.read(s, d.lv)) and d.pos[0] == "i":
                return self.poke(s, d.lv, d.pos[1], a, b.off - a.off, n)
        if isinstance(a, IterV) and isinstance(d, BPtr) and self.isbytes(e.read(s, a.lv)) and a.pos[0] == "i" and \
                d.ty is not None and d.off.const() == 0 and (b.pos[1] - a.pos[1]).const() == d.ty.w:
            e.write(s, d.lv, self.tape_read(s, BPtr(a.lv.sub("i", a.pos[1]), ZERO, None), d.ty, n))
            return [(s, d)]
        return None

    def poke(self, s, lv, at, src, cnt, n):
        """overwrites cnt bytes at position at of the byte sequence by the bytes of an object"""
        e = self.e
        v = e.read(s, lv)
        if v.base is not None:
            e.undecided("bytes written into an unknown buffer", n, s)
        k, pos = s.facts.norm(cnt).const(), ZERO
        tail = list(v.tail)
        for i, p in enumerate(tail):
            if s.facts.same(pos, at):
                j, got = i, ZERO
                while j < len(tail) and not s.facts.same(got, cnt):
                    if k is not None and got.const() is not None and got.const() > k:
                        break
                    got = got + psize(tail[j])
                    j += 1
                if not s.facts.same(got, cnt):
                    if tail[i][0] == "rep" and tail[i][3] == T and k is not None and i + 1 == len(tail) and \
                            s.facts.query(c_le(cnt - psize(tail[i]))) is True:
                        # fresh bytes appended by resize
                        q = tail[i]
                        rest = ("rep", q[1], q[2] - cnt, q[3], q[4])
                        tail[i:i + 1] = [None, rest]
                        j = i + 1
                    else:
                        e.undecided("bytes written across pieces", n, s)
                tmp = e.alloc(s, empty_seq(v.ety), "b")
                self.append_bytes(s, tmp, src, src.plus(cnt), n)
                e.write(s, lv, SeqV(v.ety, None, ZERO, ZERO, tuple(tail[:i]) + tuple(e.read(s, tmp).tail) + tuple(tail[j:])))
                return [(s, None)]
            pos = pos + psize(p)
        e.undecided("bytes written at an unknown place", n, s)

    def ptr_arg_ty(self, s, n, i):
        a = n["args"][i]
        while a["k"] == "cast":
            a = a["e"]
        t = self.e.ty(s, a.get("t"))
        return t.to if t is not None and t.k == "ptr" else None

    def sort(self, s, vs, n):
        e = self.e
        lv = vs[0].lv
        v = e.read(s, lv)
        f = e.flat(v)
        if f is not None and len(f) <= 1:
            return [(s, None)]
        if f is not None and all(isnum(x) and x.const() is not None for x in f) and len(vs) == 2:
            e.write(s, lv, SeqV(v.ety, None, ZERO, ZERO, [("e", x) for x in sorted(f, key=lambda p: p.const())]))
            return [(s, None)]
        cmp = vs[2] if len(vs) > 2 else None
        if f is not None and len(f) <= 6:
            try:
                return self.insertion(s, lv, v, f, cmp, n)
            except Undecided:
                pass
        key = ("sorted", v, repr(cmp) if cmp is not None else None)
        ln = seq_len(v)
        e.write(s, lv, SeqV(v.ety, key, ZERO, ln, ()))
        return [(s, None)]

    def insertion(self, s, lv, v, f, cmp, n):
        """sorts explicit elements, one state per order that the facts leave open"""
        e = self.e
        cur = [(s, [])]
        for x in f:
            nxt = []
            todo = [(s2, r, len(r)) for s2, r in cur]
            while todo:
                s2, r, i = todo.pop()
                if i == 0:
                    nxt.append((s2, [x] + r))
                    continue
                if cmp is None:
                    rs = self.compare(s2, "operator<", x, r[i - 1], n)
                else:
                    rs = e.callval(s2, cmp, [x, r[i - 1]], n)
                for s3, c in rs:
                    if s3.exc is not None:
                        raise Undecided("comparison throws")
                    for b, s4 in e.branch(s3, e.truth(e.rv(s3, c), n, s3)):
                        if b:
                            todo.append((s4, r, i - 1))
                        else:
                            nxt.append((s4, r[:i] + [x] + r[i:]))
            cur = nxt
            if len(cur) > 200:
                raise Undecided("too many orders")
        out = []
        for s2, r in cur:
            e.write(s2, lv, SeqV(v.ety, None, ZERO, ZERO, [("e", x) for x in r]))
            out.append((s2, None))
        return out

    def algo(self, s, name, args, vs, n, ref):
        e = self.e
        a, b = vs[0], vs[1]
        if name == "find":
            key = vs[2]

            def body(s2, x):
                out = []
                y = e.rv(s2, x) if isinstance(x, LV) else x
                for s3, c in self.compare(s2, "operator==", y, key, n):
                    for t, s4 in e.branch(s3, c):
                        out.append(("b" if t else "n", s4, None))
                return out
            return self.walk(s, a, b, body, n, lambda s2, it: it)
        if name in ("find_if", "find_if_not"):
            return self.walk(s, a, b, self.pred(vs[2], n, "b", name == "find_if"), n, lambda s2, it: it)
        if name in ("any_of", "all_of", "none_of"):
            stop = name != "all_of"
            out = []
            for s2, it, hit in self.walk0(s, a, b, self.pred(vs[2], n, "b", stop), n):
                if s2.exc is not None:
                    out.append((s2, None))
                else:
                    out.append((s2, (T if hit else F) if name == "any_of" else (F if hit else T)))
            return out
        if name in ("count", "count_if"):
            cell = e.alloc(s, ZERO, "c")

            def body(s2, x):
                out = []
                if name == "count":
                    rs = self.compare(s2, "operator==", e.rv(s2, x) if isinstance(x, LV) else x, vs[2], n)
                else:
                    rs = e.callval(s2, vs[2], [x], n)
                for s3, c in rs:
                    if s3.exc is not None:
                        out.append(("t", s3, None))
                        continue
                    for t, s4 in e.branch(s3, e.truth(e.rv(s3, c), n, s3)):
                        if t:
                            e.write(s4, cell, e.read(s4, cell) + 1)
                        out.append(("n", s4, None))
                return out
            return [(s2, e.read(s2, cell)) for k, s2, v in self.each(s, a, b, body, n)]
        if name == "for_each":
            def body(s2, x):
                return [("t" if s3.exc is not None else "n", s3, None) for s3, _ in e.callval(s2, vs[2], [self.arg(s2, x)], n)]
            return [(s2, vs[2]) for k, s2, v in self.each(s, a, b, body, n)]
        if name in ("accumulate", "reduce"):
            cell = e.alloc(s, vs[2], "c")

            def body(s2, x):
                out = []
                if len(vs) > 3:
                    rs = e.callval(s2, vs[3], [e.read(s2, cell), self.arg(s2, x)], n)
                else:
                    rs = [(s2, e.read(s2, cell) + e.rv(s2, x))]
                for s3, v in rs:
                    if s3.exc is None:
                        e.write(s3, cell, e.rv(s3, v))
                    out.append(("t" if s3.exc is not None else "n", s3, None))
                return out
            return [(s2, e.read(s2, cell)) for k, s2, v in self.each(s, a, b, body, n)]
        if name in ("copy", "copy_if", "transform") and isinstance(vs[2], Struct) and vs[2].cls == "back_inserter":
            dst = vs[2].f["to"].to

            def push(s2, v):
                w = e.read(s2, dst)
                out = []
                for s3, y in self.coerce(s2, v, w.ety, n):
                    w = e.read(s3, dst)
                    e.write(s3, dst, SeqV(w.ety, w.base, w.lo, w.hi, w.tail + (("e", y),)))
                    out.append(("n", s3, None))
                return out

            def body(s2, x):
                if name == "copy":
                    return push(s2, e.rv(s2, x) if isinstance(x, LV) else x)
                out = []
                for s3, v in e.callval(s2, vs[3], [self.arg(s2, x)], n):
                    if s3.exc is not None:
                        out.append(("t", s3, None))
                    elif name == "transform":
                        out.extend(push(s3, e.rv(s3, v)))
                    else:
                        for t, s4 in e.branch(s3, e.truth(e.rv(s3, v), n, s3)):
                            out.extend(push(s4, e.rv(s4, x) if isinstance(x, LV) else x) if t else [("n", s4, None)])
                return out
            if name == "copy" and self.isbytes(e.read(s, dst)):
                return [(s2, vs[2]) for s2, _ in self.append_range(s, dst, a, b, n)]
            return [(s2, vs[2]) for k, s2, v in self.each(s, a, b, body, n)]
        if name in ("max_element", "min_element"):
            cell = e.alloc(s, a, "c")
            pos = e.alloc(s, a, "c")
            r = []
            # walks the whole range keeping the best iterator
            first = e.alloc(s, T, "c")

            def cond(s2):
                return [(s3, c_not(x)) for s3, x in self.iter_eq(s2, e.read(s2, pos), b, n)]

            def body(s2):
                out = []
                for s3, x in self.deref_iter(s2, e.read(s2, pos), n):
                    for s4, y in self.deref_iter(s3, e.read(s3, cell), n):
                        if len(vs) > 2:
                            rs = e.callval(s4, vs[2], [y, x] if name == "max_element" else [x, y], n)
                        else:
                            p, q = e.rv(s4, y), e.rv(s4, x)
                            if name == "min_element":
                                p, q = q, p
                            rs = e.binop(s4, "<", p, q, True, None, n)
                        for s5, c in rs:
                            for t, s6 in e.branch(s5, e.truth(e.rv(s5, c), n, s5)):
                                if t:
                                    e.write(s6, cell, e.read(s6, pos))
                                out.append(("n", s6, None))
                return out

            def inc(s2):
                out = []
                for s3, x in self.iter_step(s2, e.read(s2, pos), 1, n):
                    e.write(s3, pos, x)
                    out.append((s3, None))
                return out
            return [(s2, e.read(s2, cell)) for k, s2, v in e.over(s, cond, body, inc, n, pos)]
        if name == "inner_product":
            cell = e.alloc(s, vs[3], "c")
            other = e.alloc(s, vs[2], "c")

            def body(s2, x):
                out = []
                for s3, y in self.deref_iter(s2, e.read(s2, other), n):
                    e.write(s3, cell, e.read(s3, cell) + e.rv(s3, x) * e.rv(s3, y))
                    for s4, z in self.iter_step(s3, e.read(s3, other), 1, n):
                        e.write(s4, other, z)
                        out.append(("n", s4, None))
                return out
            return [(s2, e.read(s2, cell)) for k, s2, v in self.each(s, a, b, body, n)]
        e.undecided("std::%s" % name, n, s)

    def arg(self, s, x):
        if isinstance(x, PairRef):
            return self.e.alloc(s, x, "p")
        return x

    def pred(self, f, n, kind, stop):
        e = self.e

        def body(s2, x):
            out = []
            for s3, c in e.callval(s2, f, [self.arg(s2, x)], n):
                if s3.exc is not None:
                    out.append(("t", s3, None))
                    continue
                for t, s4 in e.branch(s3, e.truth(e.rv(s3, c), n, s3)):
                    out.append((kind if t == stop else "n", s4, None))
            return out
        return body

    def walk0(self, s, a, b, body, n):
        """like each, but reports the iterator where body broke: [(s, it, hit)]"""
        e = self.e
        cell = e.alloc(s, a, "i")
        hit = e.alloc(s, F, "h")

        def cond(s2):
            return [(s3, c_not(x)) for s3, x in self.iter_eq(s2, e.read(s2, cell), b, n)]

        def bd(s2):
            out = []
            for s3, x in self.deref_iter(s2, e.read(s2, cell), n):
                for k, s4, v in body(s3, x):
                    if k == "b":
                        e.write(s4, hit, T)
                    out.append((k, s4, v))
            return out

        def inc(s2):
            out = []
            for s3, x in self.iter_step(s2, e.read(s2, cell), 1, n):
                e.write(s3, cell, x)
                out.append((s3, None))
            return out
        r = []
        for k, s2, v in e.over(s, cond, bd, inc, n, cell):
            r.append((s2, e.read(s2, cell), e.read(s2, hit) == T))
        return r

    def walk(self, s, a, b, body, n, f):
        out = []
        for s2, it, hit in self.walk0(s, a, b, body, n):
            out.append((s2, it if hit else b))
        return out

    # ------------------------------------------------------------------ construction
    def construct_by_args(self, s, t, args, n):
        """object of type t direct-initialised from args -> [(s, v)]"""
        e = self.e
        if t is None:
            return [(s, e.rv(s, args[0]))]
        if t.k == "rec" and t.usr in e.prog.classes:
            tn, cc = e.prog.classes[t.usr]
            # unwrap json -> class conversions hidden in templates
            if len(args) == 1:
                v = e.rv(s, args[0])
                if isinstance(v, Json) and not t.name.endswith("basic_json"):
                    return self.json_to(s, v, t, n)
                if isinstance(v, Struct) and v.cls == t.usr:
                    return [(s, v)]
            best = None
            for m in cc.get("methods", []):
                r = e.prog.ref(tn, m)
                if not r or not r.get("ctor") or r.get("copy") or r.get("move"):
                    continue
                fd = e.prog.func(tn, m)
                ps = r["ps"]
                nd = 0
                if fd is not None:
                    nd = sum(1 for p in fd[1]["ps"] if p.get("def") is not None)
                if len(ps) - nd <= len(args) <= len(ps) and self.fits(s, tn, ps, args):
                    if best is None or len(ps) < len(best[1]):
                        best = (m, ps)
            if best is None and not args:
                return [(s, e.makedefault(s, t.usr, n))]
            if best is None:
                if not any((e.prog.ref(tn, m) or {}).get("ctor") and not (e.prog.ref(tn, m) or {}).get("copy") and
                           not (e.prog.ref(tn, m) or {}).get("move") and not (e.prog.ref(tn, m) or {}).get("default")
                           for m in cc.get("methods", [])):
                    fl, vals = {}, [e.rv(s, a) for a in args]
                    for fd in cc["fields"]:
                        k = e.prog.fkey[fd["usr"]]
                        fl[k] = vals.pop(0) if vals else e.default(e.prog.fty[k], s, True)
                    return [(s, Struct(t.usr, fl))]
                e.undecided("no constructor of %s for %d arguments" % (t, len(args)), n, s)
            l = e.alloc(s, Struct(t.usr, {}), "o")
            return e.bind(e.runctor(s, l, t.usr, best[0], args, n), lambda s2, _: [(s2, e.take(s2, l))])
        if not args:
            return [(s, e.default(t, s, True))]
        if t.k == "rec" and t.name == "std::pair" and len(args) == 2:
            def w(s2, x):
                return e.bind(self.coerce(s2, args[1], t.args[1], n),
                              lambda s3, y: [(s3, Struct("std::pair", {"first": x, "second": y}))])
            return e.bind(self.coerce(s, args[0], t.args[0], n), w)
        if len(args) == 1:
            return self.coerce(s, args[0], t, n)
        return self.construct0(s, t, args, n, {})

    def fits(self, s, tn, ps, args):
        e = self.e
        for p, a in zip(ps, args):
            t = e.prog.ty(tn, p["t"] if isinstance(p, dict) else p)
            if t is not None and t.k == "ref":
                t = t.to
            v = e.rv(s, a)
            if t is None:
                continue
            if isnum(v) and t.k not in ("int", "float", "enum", "bool"):
                return False
            if isinstance(v, Str) and not (t.k == "rec" and t.name == "std::basic_string"):
                return False
            if isinstance(v, SeqV) and not (t.k == "rec" and t.name in SEQS):
                return False
        return True

    def construct(self, s, t, ref, vs, n):
        """constructor call of a library class"""
        e = self.e
        if ref.get("move") and vs and isinstance(vs[0], LV):
            v = e.rv(s, vs[0])
            self.moved(s, vs[0])
            return [(s, v)]
        return self.construct0(s, t, vs, n, ref)

    def construct0(self, s, t, vs, n, ref):
        e = self.e
        nm = t.name if t is not None else ""
        v = [e.rv(s, x) for x in vs]
        if nm == "std::basic_string":
            if not v:
                return [(s, S(""))]
            if len(v) >= 2 and isnum(v[0]) and isnum(v[1]):
                k = v[0].const()
                if k is not None and v[1].const() is not None:
                    return [(s, S(chr(int(v[1].const())) * int(k)))]
                return [(s, SA(("rep", v[0], v[1])))]
            if len(v) >= 2 and not (isinstance(v[1], Opq)):
                from engine import BPtr
                if isinstance(v[0], (IterV, BPtr)) or (isnum(v[1]) and isinstance(v[0], Str)):
                    return [(s, self.str_range(s, v[0], v[1], n))]
            if isinstance(v[0], SeqV):
                f = e.flat(v[0])
                if f is not None:
                    return [(s, Str(tuple(x for y in f for x in self.asstr(y).p)))]
            return self.tostr(s, v[0], n)
        if nm in SEQS:
            et = t.args[0]
            if not v or (len(v) == 1 and isinstance(v[0], Opq) and v[0].ty is not None and "allocator" in v[0].ty.s):
                return [(s, empty_seq(et))]
            if isinstance(v[0], SeqV):
                x = v[0]
                if ref.get("copy") or ref.get("move") or x.ety is not None and x.ety is et and not isinstance(vs[0], LV):
                    return [(s, SeqV(et, x.base, x.lo, x.hi, x.tail))]
                f = e.flat(x)
                if f is not None:
                    cur = [(s, ())]
                    for y in f:
                        cur = [(s3, l + (("e", z),)) for s2, l in cur for s3, z in self.coerce(s2, y, et, n)]
                    return [(s2, SeqV(et, None, ZERO, ZERO, l)) for s2, l in cur]
                return [(s, SeqV(et, x.base, x.lo, x.hi, x.tail))]
            if isinstance(v[0], IterV) and len(v) >= 2:
                l = e.alloc(s, empty_seq(et), "q")
                return [(s2, e.read(s2, l) if s2.exc is None else None)
                        for s2, _ in self.append_range(s, l, v[0], v[1], n)]
            from engine import BPtr
            if isinstance(v[0], BPtr) and len(v) >= 2:
                l = e.alloc(s, empty_seq(et), "q")
                self.append_bytes(s, l, v[0], v[1], n)
                return [(s, e.read(s, l))]
            if isnum(v[0]):
                x = v[1] if len(v) > 1 and not (isinstance(v[1], Opq)) else e.defaultinit0(s, et, n)
                c = v[0].const()
                if c is not None and c <= 64:
                    return [(s, SeqV(et, None, ZERO, ZERO, [("e", x)] * int(c)))]
                return [(s, SeqV(et, None, ZERO, ZERO, [e.repn(x, v[0])]))]
        if nm in MAPS:
            kt, vt = t.args[0], (t.args[1] if nm.endswith("map") else None)
            if any("greater" in str(a) for a in t.args[1:]):
                e.undecided("container with an order of its own", n, s)
            if not v or isinstance(v[0], Opq) and v[0].key[0] in ("allocator", "less", "hash"):
                return [(s, MapV(kt, vt, None, ()))]
            if isinstance(v[0], MapV):
                return [(s, v[0])]
            if isinstance(v[0], SeqV) or isinstance(v[0], IterV):
                l = e.alloc(s, MapV(kt, vt, None, ()), "q")
                if isinstance(v[0], IterV):
                    return [(s2, e.read(s2, l)) for s2, _ in self.map_insert_range(s, l, v[0], v[1], n)]
                cur = [(s, None)]
                for x in e.flat(v[0]):
                    cur = e.bind(cur, lambda s2, _, x=x: self.m_map(s2, "insert", l, [x], n, {}))
                return [(s2, e.read(s2, l)) for s2, _ in cur]
        if nm == "std::pair":
            if not v:
                return [(s, e.default(t, s, True))]
            if len(v) == 2:
                def w(s2, x):
                    return e.bind(self.coerce(s2, v[1], t.args[1], n),
                                  lambda s3, y: [(s3, Struct("std::pair", {"first": x, "second": y}))])
                return e.bind(self.coerce(s, v[0], t.args[0], n), w)
            if isinstance(v[0], PairRef):
                return self.coerce(s, v[0], t, n)
            return [(s, v[0])]
        if nm in ("std::unique_ptr", "std::shared_ptr"):
            if not v:
                return [(s, PtrV(None, t.args[0], nm[5:]))]
            x = v[0]
            if isinstance(x, PtrV):
                if x.kind == "unique_ptr" and isinstance(vs[0], LV):
                    e.write(s, vs[0], PtrV(None, x.ty, x.kind))
                return [(s, PtrV(x.to, t.args[0], nm[5:]))]
        if nm == "std::function":
            if not v:
                return [(s, Func("null", None))]
            if isinstance(v[0], PtrV) and v[0].to is None:
                return [(s, Func("null", None))]
            return [(s, v[0])]
        if nm == "std::optional":
            if not v:
                return [(s, OptV(F, None, t.args[0]))]
            x = v[0]
            if isinstance(x, OptV):
                return [(s, OptV(x.has, x.v, t.args[0]))]
            return e.bind(self.coerce(s, x, t.args[0], n), lambda s2, y: [(s2, OptV(T, y, t.args[0]))])
        if nm == "std::nullopt_t" or nm.endswith("nullopt_t"):
            return [(s, OptV(F, None))]
        if nm.endswith("basic_json"):
            if not v:
                return [(s, Json("null"))]
            x = v[0]
            if isinstance(x, Json):
                return [(s, x)]
            if isinstance(x, SeqV) and (x.ety is None or x.ety.name.endswith("json_ref") or
                                        any(isinstance(y, Json) for y in (e.flat(x) or []))) and len(vs) >= 1 and \
                    self.isinit(n):
                return [(s, self.json_init(s, x))]
            if isinstance(x, PtrV) and x.to is None:
                return [(s, Json("null"))]
            return self.json_of(s, self.truth(s, x, ref, n), n)
        if nm.endswith("json_ref"):
            x = v[0] if v else Json("null")
            if isinstance(x, Json):
                return [(s, x)]
            if isinstance(x, SeqV) and self.isinit(n):
                return [(s, self.json_init(s, x))]
            return self.json_of(s, self.truth(s, x, ref, n), n)
        if nm.endswith("iterator") or nm.endswith("iter_impl") or "iterator" in nm:
            if v:
                return [(s, v[0])]
            return [(s, Opq(("iter", e.nextfresh())))]
        if nm in ("std::runtime_error", "std::invalid_argument", "std::logic_error", "std::out_of_range", "std::exception",
                  "std::domain_error", "std::length_error", "std::range_error", "std::overflow_error"):
            return [(s, v[0] if v else S(""))]
        if "stringstream" in nm:
            x = self.asstr(v[0]) if v and isinstance(v[0], (Str, Opq)) else S("")
            return [(s, Stream(x))]
        if nm == "std::array":
            return [(s, v[0] if v and isinstance(v[0], SeqV) else e.default(t, s, True))]
        if nm == "std::tuple":
            if len(v) == 1 and isinstance(v[0], Struct) and v[0].cls == "std::tuple":
                return [(s, v[0])]
            if not v:
                return [(s, e.default(t, s, True))]
            if len(v) == len(t.args) and not any(a is None or a.k == "ref" for a in t.args):
                cur = [(s, ())]
                for x, et in zip(v, t.args):
                    cur = [(s3, l + (y,)) for s2, l in cur for s3, y in self.coerce(s2, x, et, n)]
                return [(s2, Struct("std::tuple", {str(i): x for i, x in enumerate(l)})) for s2, l in cur]
        if nm == "std::basic_string_view":
            if not v:
                return [(s, S(""))]
            if len(v) == 2 and isinstance(v[0], Str) and isnum(v[1]):
                return [(s, self.str_range(s, v[0], v[1], n))]
            return self.tostr(s, v[0], n)
        if nm == "std::allocator" or nm in ("std::less", "std::equal_to", "std::hash", "std::greater", "std::plus", "std::minus",
                                            "std::multiplies", "std::not_equal_to", "std::less_equal", "std::greater_equal"):
            return [(s, Opq((nm[5:],), t))]
        if nm.endswith("json_validator"):
            return [(s, Opq(("validator", e.nextfresh()), t))]
        if len(v) == 1 and (t is None or t.k != "rec"):
            return [(s, v[0])]
        if len(v) == 1 and "exception" in nm:
            return [(s, v[0])]
        e.undecided("construction of %s" % t, n, s)

    def isinit(self, n):
        """the constructor argument is a braced list"""
        a = n.get("args") or []
        return bool(a) and isinstance(a[0], dict) and a[0].get("k") in ("stdil", "ilist")

    # ------------------------------------------------------------------ globals
    def global_var(self, st, n):
        e = self.e
        name = n.get("g") or n.get("v")
        q = str(n.get("n") or n.get("qn") or name)
        t = e.ty(st, n["t"])
        if "nullopt" in q or (t is not None and t.k == "rec" and t.name.endswith("nullopt_t")):
            return [(st, OptV(F, None))]
        u = n.get("gu")
        loc = ("global", u or str(name))
        if loc not in st.store:
            tn, g = e.prog.gvar(st.frames[-1].tu, u) if u else (None, None)
            if g is None or not g.get("def") or not g.get("repo") or isregistry(e, t):
                st.store[loc] = e.symval(t, ("g", str(name)))
            else:
                if u in e.prog.shared():
                    e.touched.add(g["n"])
                return [(s, LV(loc)) for s in self.initial(st, loc, tn, g, t)]
        elif u in e.prog.shared():
            e.touched.add(n.get("global"))
        return [(st, LV(loc))]

    def initial(self, st, loc, tn, g, t):
        """the value a static object has before the first use"""
        e = self.e
        if g.get("init") is None:
            st.store[loc] = e.default(t, st, True)
            return [st]
        from engine import Frame
        s = st.copy()
        s.frames.append(Frame(tn, "<static>", None, {}, g.get("file")))
        rs = e.ev(g["init"], s)
        if len(rs) != 1 or rs[0][0].exc is not None:
            e.undecided("initialisation of %s" % g["n"], {"l": g.get("line")}, st)
        s, v = rs[0]
        if t is not None and t.k == "ref":
            s.store[loc] = e.deref(s, v, {"l": 0}) if isinstance(v, LV) else v
        else:
            s.store[loc] = zeroed(e.conv(e.rv(s, v), t))
        s.frames.pop()
        return [s]

    def static_local(self, st, d, t):
        e = self.e
        u = d.get("gu")
        loc = ("static", u or str(d["v"]))
        if u in e.prog.shared():
            e.touched.add(d.get("n"))
        if loc in st.store:
            st.frames[-1].env[d["v"]] = LV(loc)
            return [(st, None)]
        tn, g = e.prog.gvar(st.frames[-1].tu, u) if u else (None, None)
        if g is None or isregistry(e, t):
            st.store[loc] = e.default(t, st, True)
            ss = [st]
        elif d.get("init") is not None:
            # in the scope of the function, which the initialiser may use
            out = []
            for s, v in e.ev(d["init"], st):
                if s.exc is None:
                    s.store[loc] = zeroed(e.conv(e.rv(s, v), t)) if t is None or t.k != "ref" else e.rv(s, v)
                    s.frames[-1].env[d["v"]] = LV(loc)
                out.append((s, None))
            return out
        else:
            ss = self.initial(st, loc, tn, g, t)
        for s in ss:
            s.frames[-1].env[d["v"]] = LV(loc)
        return [(s, None) for s in ss]


def isregistry(e, t):
    return t is not None and t.k == "rec" and t.usr in e.prog.classes and e.prog.simple(t.usr) == "FactoryOp"


def zeroed(v):
    """static storage is zero before anything else is written to it"""
    if isinstance(v, Struct):
        for k, x in list(v.f.items()):
            y = zeroed(x)
            if y is not x:
                v = v.set(k, y)
        return v
    if isinstance(v, Poly):
        m = {by_id(i): ZERO for i in v.atoms() if by_id(i).key[0] == "uninit"}
        return deep(v, Sub(m)) if m else v
    return v
