"""Abstract values other than numbers (Poly) and truth values (condition tuples)."""
from terms import *
from terms import _collect, CONDK


class Undecided(Exception):
    """the analysis meets a construct it has no transfer function for"""


class V(Val):
    __slots__ = ("_h",)

    def parts(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.parts() == o.parts())

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__,) + tuple(_hk(p) for p in self.parts()))
            return self._h

    def subst(self, f):
        ps = self.parts()
        ns = tuple(deep(p, f) for p in ps)
        if all(a is b or a == b for a, b in zip(ps, ns)):
            return self
        return type(self)(*ns)

    def collect(self, s):
        for p in self.parts():
            if isinstance(p, dict):
                for x in p.values():
                    _collect(x, s)
            else:
                _collect(p, s)


def _hk(p):
    if isinstance(p, dict):
        return tuple(sorted((k, hash(v)) for k, v in p.items()))
    if isinstance(p, list):
        return tuple(p)
    return p


class Ty:
    """a type, interned by its canonical spelling"""
    __slots__ = ("k", "s", "n", "usr", "args", "w", "sg", "to", "name")
    _tab = {}

    def __repr__(self):
        return self.s


class Str(V):
    """concatenation of parts: ('c', text) | ('n', Poly) printed number | ('a', key) opaque string"""
    __slots__ = ("p",)

    def __init__(self, p):
        r = []
        for x in p:
            if x[0] == "n":
                c = x[1].const()
                if c is not None and c.denominator == 1:
                    x = ("c", str(int(c)))
            if x[0] == "c":
                if x[1] == "":
                    continue
                if r and r[-1][0] == "c":
                    r[-1] = ("c", r[-1][1] + x[1])
                    continue
            r.append(x)
        self.p = tuple(r)

    def const(self):
        if not self.p:
            return ""
        if len(self.p) == 1 and self.p[0][0] == "c":
            return self.p[0][1]
        return None

    def __repr__(self):
        return "\"%s\"" % "".join(x[1] if x[0] == "c" else "{%s}" % show_key(x[1]) for x in self.p)


def S(x):
    return Str((("c", x),))


def SA(key):
    return Str((("a", key),))


def str_eq(a, b):
    """condition a == b"""
    if a.p == b.p:
        return T
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return T if ca == cb else F
    # common prefix / suffix
    pa, pb = list(a.p), list(b.p)
    while pa and pb and pa[0] == pb[0]:
        pa.pop(0), pb.pop(0)
    while pa and pb and pa[-1] == pb[-1]:
        pa.pop(), pb.pop()
    if pa and pb and pa[0][0] == "c" and pb[0][0] == "c":
        x, y = pa[0][1], pb[0][1]
        n = min(len(x), len(y))
        if x[:n] != y[:n]:
            return F
    if pa and pb and pa[-1][0] == "c" and pb[-1][0] == "c":
        x, y = pa[-1][1], pb[-1][1]
        n = min(len(x), len(y))
        if x[len(x) - n:] != y[len(y) - n:]:
            return F
    if len(pa) == 1 and len(pb) == 1 and pa[0][0] == "n" and pb[0][0] == "n" and \
            pa[0][1].isint() and pb[0][1].isint():
        return c_eq(pa[0][1] - pb[0][1])
    x, y = Str(tuple(pa)), Str(tuple(pb))
    if str(x) > str(y):
        x, y = y, x
    return c_bool(atom(("seq", x, y)))


class Struct(V):
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Struct(self.cls, d)

    def __repr__(self):
        return "%s{%s}" % (short(self.cls), ", ".join("%s: %s" % (k.split("::")[-1], vshow(v))
                                                      for k, v in self.f.items()))


def short(u):
    return u.split("@")[-1] if isinstance(u, str) else str(u)


def vshow(v):
    if isinstance(v, Poly):
        return show(v)
    if isinstance(v, tuple) and v and v[0] in CONDK:
        return show_cond(v)
    return repr(v)


PIECES = []     # set once a sequence of several pieces may exist


class SeqV(V):
    """base[lo..hi) followed by the tail pieces ('e',v) | ('rep',k,n,cond,pieces) | ('chunk',desc,n)"""
    __slots__ = ("ety", "base", "lo", "hi", "tail")

    def __init__(self, ety, base, lo, hi, tail):
        self.ety, self.base, self.lo, self.hi = ety, base, lo, hi
        self.tail = tuple(tail)
        if not PIECES and self.tail and (base is not None or self.tail[-1][0] == "rep" or self.tail[0][0] == "rep"):
            PIECES.append(1)

    def __repr__(self):
        r = []
        if self.base is not None:
            r.append("%s[%s..%s)" % (show_key(self.base), show(self.lo), show(self.hi)))
        for p in self.tail:
            if p[0] == "e":
                r.append(vshow(p[1]))
            elif p[0] == "rep":
                r.append("(%s | %s<%s%s)" % (SeqV(None, None, ZERO, ZERO, p[4]), show(p[1]), show(p[2]),
                                            "" if p[3] == T else ", " + show_cond(p[3])))
            else:
                r.append("<%s>" % (p[1],))
        return "[" + ", ".join(r) + "]"


def empty_seq(ety):
    return SeqV(ety, None, ZERO, ZERO, ())


def psize(p):
    if p[0] == "e":
        return ONE
    if p[0] == "rep":
        z = ZERO
        for q in p[4]:
            z = z + psize(q)
        return summation(ite(p[3], z, ZERO), p[2], p[1])
    return p[2]


def seq_len(s):
    n = s.hi - s.lo if s.base is not None or s.hi is not s.lo else ZERO
    c = 0
    for p in s.tail:
        if p[0] == "e":
            c += 1
        else:
            n = n + psize(p)
    return n + c if c else n


ABSENT = "absent"


class MapV(V):
    """overlay of entries (key, value|ABSENT, presence condition) over an optional symbolic base map.
    vty None: a set"""
    __slots__ = ("kty", "vty", "base", "ents")

    def __init__(self, kty, vty, base, ents):
        self.kty, self.vty, self.base = kty, vty, base
        self.ents = tuple(ents)

    def __repr__(self):
        r = ["%s: %s%s" % (vshow(k), "-" if v is ABSENT else vshow(v), "" if c == T else " if " + show_cond(c))
             for k, v, c in self.ents]
        if self.base is not None:
            r.append("**" + show_key(self.base))
        return "{" + ", ".join(r) + "}"


UNIT = S("")


class PtrV(V):
    """pointer: target LV, or None (null), or ('sym', key, nullcond)"""
    __slots__ = ("to", "ty", "kind")

    def __init__(self, to, ty=None, kind="raw"):
        self.to, self.ty, self.kind = to, ty, kind

    def parts(self):
        return (self.to,)

    def subst(self, f):
        n = deep(self.to, f) if isinstance(self.to, tuple) else self.to
        return self if n == self.to else PtrV(n, self.ty, self.kind)

    def __repr__(self):
        return "null" if self.to is None else "&%s" % (self.to if isinstance(self.to, LV) else show_key(self.to[1]))


class LV(V):
    __slots__ = ("loc", "path")

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, path

    def sub(self, *step):
        return LV(self.loc, self.path + (step,))

    def __repr__(self):
        return "@%s%s" % (self.loc, "".join("." + vshow(x[1]) if not isinstance(x[1], str) else "." + x[1]
                                            for x in self.path if len(x) > 1))


class IterV(V):
    """iterator into the container at lv. pos: ('k', key) map entry | ('end',) | ('i', Poly)"""
    __slots__ = ("lv", "pos", "kind")

    def __init__(self, lv, pos, kind):
        self.lv, self.pos, self.kind = lv, pos, kind

    def parts(self):
        return (self.lv, self.pos)

    def subst(self, f):
        return IterV(deep(self.lv, f), deep(self.pos, f), self.kind)

    def __repr__(self):
        return "iter(%s,%s)" % (self.lv, self.pos)


class PairRef(V):
    """what *it is for a map iterator: first is the key, second the entry"""
    __slots__ = ("lv", "key")

    def __init__(self, lv, key):
        self.lv, self.key = lv, key


class Func(V):
    """('lambda', tu, node, env, this) | ('fn', usr) | ('sym', key)"""
    __slots__ = ("kind", "a", "b", "env", "this")

    def __init__(self, kind, a, b=None, env=None, this=None):
        self.kind, self.a, self.b, self.env, self.this = kind, a, b, env, this

    def parts(self):
        return (self.kind, self.a if not isinstance(self.a, dict) else id(self.a), id(self.b) if isinstance(self.b, dict) else self.b,
                None if self.env is None else tuple(sorted(self.env.items())), self.this)

    def subst(self, f):
        if not self.env:
            return self
        return Func(self.kind, self.a, self.b, {k: deep(v, f) for k, v in self.env.items()}, self.this)

    def collect(self, s):
        for v in (self.env or {}).values():
            _collect(v, s)

    def __repr__(self):
        return "func(%s)" % self.kind


class OptV(V):
    __slots__ = ("has", "v", "ty")

    def __init__(self, has, v, ty=None):
        self.has, self.v, self.ty = has, v, ty

    def parts(self):
        return (self.has, self.v if self.has != F else None)

    def subst(self, f):
        return OptV(deep(self.has, f), deep(self.v, f), self.ty)

    def __repr__(self):
        return "opt(%s, %s)" % (show_cond(self.has), vshow(self.v))


class Opq(V):
    """a value about which nothing is known"""
    __slots__ = ("key", "ty")

    def __init__(self, key, ty=None):
        self.key, self.ty = key, ty

    def parts(self):
        return (self.key,)

    def subst(self, f):
        n = deep(self.key, f)
        return self if n == self.key else Opq(n, self.ty)

    def __repr__(self):
        return "opaque(%s)" % show_key(self.key)


class Json(V):
    """kind: 'obj' (tuple of (key, val)), 'arr' (SeqV of values), 'val' (a C++ value), 'sym' (key), 'null', 'text' (parse of Str)"""
    __slots__ = ("kind", "a")

    def __init__(self, kind, a=None):
        self.kind, self.a = kind, a

    def __repr__(self):
        return "json:%s(%s)" % (self.kind, vshow(self.a) if not isinstance(self.a, tuple) else
                                ", ".join(map(repr, self.a)))


class Stream(V):
    __slots__ = ("s", "pos")

    def __init__(self, s, pos=0):
        self.s, self.pos = s, pos


class Exc(V):
    __slots__ = ("ty", "v", "line")

    def __init__(self, ty, v, line=None):
        self.ty, self.v, self.line = ty, v, line


def isnum(v):
    return isinstance(v, Poly)


def iscond(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] in CONDK


def opaque_in(x):
    """keys of opaque values inside x"""
    r = []
    for i in atoms_of(x):
        k = by_id(i).key
        if k and k[0] in ("opq",):
            r.append(k)
    return r
