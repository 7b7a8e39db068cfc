"""Value-numbering domain: interned atoms, polynomials over them, and conditions.

A number is a polynomial with rational coefficients whose indeterminates are interned atoms (inputs, container
elements, uninterpreted applications, sums).  Two expressions that are equal as polynomials get the same value
number.  Division by a monomial is a negative exponent; division by anything else an ('inv', p) atom."""
from fractions import Fraction
import itertools

_atoms = {}
_list = []


class Atom:
    __slots__ = ("key", "id", "int", "nn", "_fv")

    def __repr__(self):
        return show_key(self.key)


def atom(key, isint=False, nonneg=False):
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.key, a.id, a.int, a.nn = key, len(_list), isint, nonneg
        a._fv = None
        _atoms[key] = a
        _list.append(a)
    return a


def by_id(i):
    return _list[i]


class Poly:
    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = m
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __ne__(self, o):
        return not self.__eq__(o)

    def __add__(self, o):
        o = P(o)
        if len(o.m) > len(self.m):
            self, o = o, self
        r = dict(self.m)
        for k, v in o.m.items():
            n = r.get(k, 0) + v
            if n:
                r[k] = n
            else:
                r.pop(k, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = mulmono(k1, k2)
                n = r.get(k, 0) + v1 * v2
                if n:
                    r[k] = n
                else:
                    r.pop(k, None)
        return Poly(r)

    __rmul__ = __mul__

    def const(self):
        """the constant value, or None"""
        if not self.m:
            return Fraction(0)
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def cpart(self):
        return self.m.get((), Fraction(0))

    def atoms(self):
        s = set()
        for k in self.m:
            for a, _ in k:
                s.add(a)
        return s

    def isint(self):
        return all(v.denominator == 1 for v in self.m.values()) and \
            all(e > 0 and _list[a].int for k in self.m for a, e in k)

    def cleared(self):
        """a multiple with integer coefficients"""
        from math import gcd
        den = 1
        for v in self.m.values():
            den = den * v.denominator // gcd(den, v.denominator)
        return self if den == 1 else Poly({k: v * den for k, v in self.m.items()})

    def lin(self, aid):
        """coefficient poly of atom (degree 1 only) and rest, or None"""
        c, r = {}, {}
        for k, v in self.m.items():
            e = dict(k).get(aid, 0)
            if e == 0:
                r[k] = v
            elif e == 1:
                c[tuple(x for x in k if x[0] != aid)] = v
            else:
                return None
        return Poly(c), Poly(r)

    def single(self):
        """the atom if this poly is exactly one atom"""
        if len(self.m) == 1:
            (k, v), = self.m.items()
            if v == 1 and len(k) == 1 and k[0][1] == 1:
                return _list[k[0][0]]
        return None

    def __repr__(self):
        return show(self)


def mulmono(k1, k2):
    if not k1:
        return k2
    if not k2:
        return k1
    d = dict(k1)
    for a, e in k2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            del d[a]
    return tuple(sorted(d.items()))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x.id, 1),): Fraction(1)})
    if isinstance(x, (int, Fraction)):
        return Poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, float):
        return P(Fraction(x))
    raise TypeError("P(%r)" % (x,))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def sym(name, isint=False, nonneg=False):
    return P(atom(("s", name), isint, nonneg))


def inv(p):
    if not p.m:
        return P(atom(("inv", p)))
    if len(p.m) == 1:
        (k, v), = p.m.items()
        return Poly({tuple((a, -e) for a, e in k): 1 / v})
    # common monomial factor and leading coefficient out
    k0 = min(p.m)
    ks = [dict(k) for k in p.m]
    common = {}
    for a in ks[0]:
        e = min((d.get(a, 0) for d in ks), key=abs)
        if all(a in d and (d[a] > 0) == (e > 0) for d in ks) and e:
            common[a] = e
    cm = tuple(sorted(common.items()))
    icm = tuple((a, -e) for a, e in cm)
    q = Poly({mulmono(k, icm): v for k, v in p.m.items()})
    lead = q.m[min(q.m)]
    q = Poly({k: v / lead for k, v in q.m.items()})
    return Poly({icm: 1 / lead}) * P(atom(("inv", q)))


def app(f, *args, isint=False, nonneg=False):
    return P(atom(("app", f) + tuple(args), isint, nonneg))


NARROW = {"%sint%d" % (u, b): (b, not u) for u in ("", "u") for b in (8, 16, 32)}
NARROW["f32"] = (0, True)


def isnarrow(name):
    return name in NARROW


def narrow(name, v):
    """v as it is kept in a type too small for it: intN, uintN, f32"""
    v = P(v)
    bits, sg = NARROW[name]
    c = v.const()
    if c is not None:
        if not bits:
            return v
        x = int(c) & ((1 << bits) - 1)
        return P(x - (1 << bits) if sg and x >> (bits - 1) else x)
    a = v.single()
    if a is not None and a.key[0] == "app" and a.key[1] in NARROW and bits:
        b, g = NARROW[a.key[1]]
        if b and (b == bits and g == sg or b < bits and (sg or not g)):
            return v
    if bits:
        # modulo 2^bits: what went through a type at least as wide on the way does not matter
        if all(x.denominator == 1 for x in v.m.values()):
            for i in v.atoms():
                k = _list[i].key
                if k[0] == "app" and k[1] in NARROW and NARROW[k[1]][0] >= bits and \
                        all(e > 0 for m in v.m for a, e in m if a == i):
                    return narrow(name, psubst(v, Sub({_list[i]: k[2]})))
    else:
        # rounded once, at the end
        for i in v.atoms():
            k = _list[i].key
            if k[:2] == ("app", "f32"):
                return narrow(name, psubst(v, Sub({_list[i]: k[2]})))
    return P(atom(("app", name, v), bool(bits), bool(bits) and not sg))


def power(p, n):
    r = ONE
    for _ in range(n):
        r = r * p
    return r


# ------------------------------------------------------------------ conditions
# ("T",) ("F",) ("le",p) int p<=0 ; ("rlt",p) p<0 ; ("rle",p) p<=0 ; ("eq",p) ; ("ne",p)
# ("b",atom) ("nb",atom) ; ("and",..) ("or",..)
T, F = ("T",), ("F",)


def flagatom(p):
    """an if-then-else of constants occurring linearly (a flag used as a number)"""
    for k in p.m:
        if len(k) == 1 and k[0][1] == 1:
            a = _list[k[0][0]]
            if a.key[0] == "ite" and a.key[2].const() is not None:
                return a
    return None


def lift(p, f):
    a = flagatom(p)
    if a is None:
        return None
    co, r = p.lin(a.id) or (None, None)
    if co is None:
        return None
    c = a.key[1]
    return c_or(c_and(c, f(co * a.key[2] + r)), c_and(c_not(c), f(r)))


def c_le(p, real=False):
    c = p.const()
    if c is not None:
        return T if c <= 0 else F
    x = lift(p, lambda q: c_le(q, real))
    if x is not None:
        return x
    if real:
        return ("rle", scale(p))
    return ("le", iscale(p))


def c_lt(p, real=False):
    c = p.const()
    if c is not None:
        return T if c < 0 else F
    x = lift(p, lambda q: c_lt(q, real))
    if x is not None:
        return x
    if real:
        return ("rlt", scale(p))
    return ("le", iscale(p + 1))


def scale(p):
    l = abs(p.m[min(p.m)])
    return p if l == 1 else Poly({k: v / l for k, v in p.m.items()})


def iscale(p):
    from math import gcd
    den = 1
    for v in p.m.values():
        den = den * v.denominator // gcd(den, v.denominator)
    g = 0
    for k, v in p.m.items():
        if k:
            g = gcd(g, abs(int(v * den)))
    if not g:
        return p
    r = {}
    for k, v in p.m.items():
        n = v * den
        if k:
            r[k] = n / g
        else:
            q = Fraction(int(n), g)
            r[k] = Fraction(-((-q.numerator) // q.denominator))  # ceil: p+c<=0 over ints
            if not r[k]:
                del r[k]
    return Poly(r)


def canon_eq(p):
    l = p.m[min(p.m)]
    return Poly({k: v / l for k, v in p.m.items()})


def c_eq(p):
    c = p.const()
    if c is not None:
        return T if c == 0 else F
    x = lift(p, c_eq)
    return x if x is not None else ("eq", canon_eq(p))


def c_ne(p):
    c = p.const()
    if c is not None:
        return T if c != 0 else F
    x = lift(p, c_ne)
    return x if x is not None else ("ne", canon_eq(p))


def c_not(c):
    k = c[0]
    if k == "T":
        return F
    if k == "F":
        return T
    if k == "le":
        return ("le", -c[1] + 1)
    if k == "rlt":
        return ("rle", -c[1])
    if k == "rle":
        return ("rlt", -c[1])
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "b":
        return ("nb", c[1])
    if k == "nb":
        return ("b", c[1])
    if k == "and":
        return c_or(*[c_not(x) for x in c[1:]])
    if k == "or":
        return c_and(*[c_not(x) for x in c[1:]])
    raise ValueError(c)


def c_and(*cs):
    r = []
    for c in cs:
        if c == F:
            return F
        if c == T:
            continue
        for x in (c[1:] if c[0] == "and" else (c,)):
            if c_not(x) in r:
                return F
            if x not in r:
                r.append(x)
    if not r:
        return T
    if len(r) == 1:
        return r[0]
    return ("and",) + tuple(r)


def c_or(*cs):
    r = []
    for c in cs:
        if c == T:
            return T
        if c == F:
            continue
        for x in (c[1:] if c[0] == "or" else (c,)):
            if c_not(x) in r:
                return T
            if x not in r:
                r.append(x)
    if not r:
        return F
    if len(r) == 1:
        return r[0]
    return ("or",) + tuple(r)


def c_bool(a):
    return ("b", a)


def ite(c, a, b):
    """numeric if-then-else"""
    if c == T:
        return a
    if c == F:
        return b
    if a == b:
        return a
    if c[0] in ("nb", "ne") or (c[0] == "rle" ):
        c, a, b = c_not(c), b, a
    # pull the common part out
    return b + P(atom(("ite", c, a - b), isint=(a - b).isint()))


# ------------------------------------------------------------------ deep substitution
class Val:
    """base class of the non numeric values of values.py; they implement subst(f)"""
    __slots__ = ()


def deep(x, f):
    """applies f: Atom -> Poly|None to every atom inside x (bottom-up rebuild)"""
    if isinstance(x, Poly):
        return psubst(x, f)
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in CONDK:
            return csubst(x, f)
        n = tuple(deep(y, f) for y in x)
        return x if n == x else n
    if isinstance(x, Atom):
        r = asubst(x, f)
        s = r.single()
        return s if s is not None else r
    if isinstance(x, Val):
        return x.subst(f)
    if isinstance(x, list):
        return [deep(y, f) for y in x]
    if isinstance(x, dict):
        return {k: deep(y, f) for k, y in x.items()}
    return x


CONDK = {"T", "F", "le", "rlt", "rle", "eq", "ne", "b", "nb", "and", "or"}


def csubst(c, f):
    k = c[0]
    if k in "TF":
        return c
    if k == "le":
        return c_le(psubst(c[1], f))
    if k == "rle":
        return c_le(psubst(c[1], f), True)
    if k == "rlt":
        return c_lt(psubst(c[1], f), True)
    if k == "eq":
        return c_eq(psubst(c[1], f))
    if k == "ne":
        return c_ne(psubst(c[1], f))
    if k in ("b", "nb"):
        a = deep(c[1], f)
        return (k, a)
    if k == "and":
        return c_and(*[csubst(x, f) for x in c[1:]])
    return c_or(*[csubst(x, f) for x in c[1:]])


def psubst(p, f):
    changed = False
    r = ZERO
    acc = {}
    for k, v in p.m.items():
        t = None
        for a, e in k:
            at = _list[a]
            n = asubst(at, f)
            if n.single() is not at:
                changed = True
            q = n if e > 0 else inv(n)
            q = power(q, abs(e))
            t = q if t is None else t * q
        if t is None:
            t = ONE
        r = r + t * v
    return r if changed else p


def asubst(a, f):
    n = f(a)
    if n is not None:
        return n
    k = a.key
    if k[0] == "s" or k[0] == "bv":
        return P(a)
    if not has_free(a, f):
        return P(a)
    nk = tuple(deep(x, f) for x in k)
    if nk == k:
        return P(a)
    return rebuild(nk, a.int, a.nn)


def has_free(a, f):
    d = getattr(f, "dom", None)
    if d is None:
        return True
    return bool(free_atoms(a) & d)


def free_atoms(a):
    """ids of all leaf atoms occurring (deeply) in atom a, including itself"""
    if a._fv is None:
        s = {a.id}
        if a.key[0] == "ps":
            _collect(a.key[2], s)
            s.discard(bv(a.key[1]).id)
            _collect(a.key[3], s)
        else:
            _collect(a.key, s)
        a._fv = frozenset(s)
    return a._fv


def _collect(x, s):
    if isinstance(x, Poly):
        for i in x.atoms():
            s |= free_atoms(_list[i])
    elif isinstance(x, tuple):
        for y in x:
            _collect(y, s)
    elif isinstance(x, Atom):
        s |= free_atoms(x)
    elif isinstance(x, Val):
        x.collect(s)


def atoms_of(x):
    s = set()
    _collect(x, s)
    return s


def rebuild(k, isint, nn):
    if k[0] == "inv":
        return inv(k[1])
    if k[0] == "app" and k[1] in NARROW:
        return narrow(k[1], k[2])
    if k[0] == "ite":
        if k[1] == T:
            return k[2]
        if k[1] == F:
            return ZERO
        if k[2] == ZERO:
            return ZERO
        return P(atom(k, isint, nn))
    if k[0] == "ps":
        lv, g = k[1], k[2]
        l = level(g) + 1
        if l > lv:
            g = psubst(g, Sub({bv(lv): P(bv(l))}))
            lv = l
        return psum_at(lv, g, k[3])
    if k[0] == "app" and k[1] == "idiv" and isinstance(k[2], Poly) and k[2].const() is not None and k[3].const():
        return P(int(k[2].const()) // int(k[3].const()))
    return P(atom(k, isint, nn))


class Sub:
    """substitution object: mapping atom id -> Poly"""

    def __init__(self, m):
        self.m = {a.id: P(p) for a, p in m.items()}
        self.dom = frozenset(self.m)

    def __call__(self, a):
        return self.m.get(a.id)


# ------------------------------------------------------------------ sums
# A partial sum ("ps", l, g, x) is PS_g(x) with PS_g(x+1) - PS_g(x) = g(x); g is a Poly over the bound variable bv(l).
# The level of a sum exceeds the levels of the sums inside it, so bound variables never clash.
def bv(l=1):
    return atom(("bv", l), True, True)


_lev = {}


def atomlevel(a):
    r = _lev.get(a.id)
    if r is None:
        r = 0
        if a.key[0] == "ps":
            r = a.key[1]
        r = max(r, level(a.key[1:]))
        _lev[a.id] = r
    return r


def level(x):
    """highest level of a sum inside x"""
    if isinstance(x, Poly):
        return max([atomlevel(_list[i]) for i in x.atoms()], default=0)
    if isinstance(x, Atom):
        return atomlevel(x)
    if isinstance(x, tuple):
        return max([level(y) for y in x if isinstance(y, (Poly, Atom, tuple, Val))], default=0)
    if isinstance(x, Val):
        return max([level(y) for y in x.parts()], default=0)
    return 0


def psum_at(lv, g, x):
    """PS_g(x): the antiderivative of sequence g (poly in bv) at index x, PS_g(x+1)-PS_g(x)=g(x).
    constant offsets of x are expanded"""
    c = x.cpart()
    if not (x - c).m and True:
        # PS_g(0) = 0 for a constant index
        n = int(c)
        r = ZERO
        if 0 <= n <= 64:
            for i in range(n):
                r = r + psubst(g, Sub({bv(lv): P(i)}))
            return r
        if -64 <= n < 0:
            for i in range(n, 0):
                r = r - psubst(g, Sub({bv(lv): P(i)}))
            return r
    if c.denominator == 1 and c and abs(c) <= 64:
        n = int(c)
        y = x - n
        r = P(atom(("ps", lv, g, y)))
        if n > 0:
            for i in range(n):
                r = r + psubst(g, Sub({bv(lv): y + i}))
        else:
            for i in range(n, 0):
                r = r - psubst(g, Sub({bv(lv): y + i}))
        return r
    return P(atom(("ps", lv, g, x)))


def first_index(x, b):
    """the first ('at', arr, idx) index (in a canonical order) that depends linearly on bv, searched deeply"""
    found = []

    def walk(y):
        if isinstance(y, Poly):
            for i in sorted(y.atoms(), key=lambda i: show_key(_list[i].key)):
                walk(_list[i])
        elif isinstance(y, Atom):
            walk(y.key)
        elif isinstance(y, tuple):
            if len(y) == 3 and y[0] == "at" and isinstance(y[2], Poly) and b.id in y[2].atoms():
                l = y[2].lin(b.id)
                if l and l[0].const() in (1, -1):
                    found.append((str(y[1]), l[0].const(), l[1]))
            for z in y:
                walk(z)
    walk(x)
    if not found:
        return None
    found.sort(key=lambda t: (t[0], -t[1], show(t[2])))
    return found[0][1], found[0][2]


def summation(body, n, k):
    """sum_{k=0}^{n-1} body(k) as a polynomial over canonical PS atoms. body: Poly in atom k (any Atom)."""
    total = ZERO
    if k.id not in atoms_of(body):
        return body * n
    lv = level(body) + 1
    b = bv(lv)
    body = psubst(body, Sub({k: P(b)}))
    # group monomials by their bv-dependent factor
    groups = {}
    for m, v in body.m.items():
        dep = tuple((a, e) for a, e in m if b.id in free_atoms(_list[a]))
        ind = tuple((a, e) for a, e in m if b.id not in free_atoms(_list[a]))
        groups[dep] = groups.get(dep, ZERO) + Poly({ind: v})
    for dep, coef in groups.items():
        if not dep:
            total = total + coef * n
            continue
        if dep == ((b.id, 1),):
            total = total + coef * (n * (n - 1)) * Fraction(1, 2)
            continue
        if dep == ((b.id, 2),):
            total = total + coef * ((n - 1) * n * (n * 2 - 1)) * Fraction(1, 6)
            continue
        g = Poly({dep: Fraction(1)})
        fi = first_index(g, b)
        lo, hi = ZERO, n
        if fi:
            s, off = fi
            if s == 1:  # index = bv + off : shift so that the index is bv
                g = psubst(g, Sub({b: P(b) - off}))
                lo, hi = off, off + n
            else:  # index = off - bv : i -> off - bv
                g = psubst(g, Sub({b: off - P(b)}))
                lo, hi = off - n + 1, off + 1
        # the level only counts the sums inside this factor
        l2 = level(g) + 1
        if l2 != lv:
            g = psubst(g, Sub({b: P(bv(l2))}))
        total = total + coef * (psum_at(l2, g, hi) - psum_at(l2, g, lo))
    return total


# ------------------------------------------------------------------ rational normal form
def ratnf(p, depth=0):
    """p as (num, den) without inv atoms / negative exponents at the top level"""
    num, den = ZERO, ONE
    for k, v in p.m.items():
        tn, td = Poly({(): v}), ONE
        for a, e in k:
            at = _list[a]
            if at.key[0] == "inv":
                n2, d2 = ratnf(at.key[1], depth + 1)
                if e > 0:
                    tn, td = tn * power(d2, e), td * power(n2, e)
                else:
                    tn, td = tn * power(n2, -e), td * power(d2, -e)
            elif e > 0:
                tn = tn * power(P(at), e)
            else:
                td = td * power(P(at), -e)
        if td == den:
            num = num + tn
        else:
            num, den = num * td + tn * den, den * td
    return num, den


# Identities between rational functions are decided by evaluation in a prime field at a fixed pseudo-random point: equal
# functions always agree, different ones disagree but for a chance of (degree / 2^61). Applications of the same function
# to equal arguments get the same field element.
PRIME = (1 << 61) - 1
_fv = {}


def mix(*xs):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big") % (PRIME - 2) + 1


def fval(p):
    t = 0
    for k, v in p.m.items():
        x = v.numerator % PRIME
        if v.denominator != 1:
            x = x * pow(v.denominator, -1, PRIME) % PRIME
        for i, e in k:
            x = x * pow(fatom(_list[i]), e, PRIME) % PRIME
        t += x
    return t % PRIME


def fatom(a):
    r = _fv.get(a.id)
    if r is None:
        k = a.key
        if k[0] == "inv":
            r = pow(fval(k[1]), -1, PRIME) if fval(k[1]) else mix("inv0", a.id)
        elif k[0] == "ite":
            r = mix("if", fkey(k[1])) * fval(k[2]) % PRIME
        elif k[0] in ("app", "at", "fld", "ps"):
            r = mix(fkey(k))
        else:
            r = mix("atom", a.id)
        r = r or 1
        _fv[a.id] = r
    return r


def fkey(k):
    if isinstance(k, Poly):
        return fval(k)
    if isinstance(k, Atom):
        return fatom(k)
    if isinstance(k, tuple):
        return tuple(fkey(x) for x in k)
    if isinstance(k, Val):
        return hash(k)
    return k


def same(a, b):
    """equal as rational functions of the atoms"""
    if a == b:
        return True
    d = a - b
    if not d.m:
        return True
    for k in d.m:
        for i, e in k:
            if e < 0 or _list[i].key[0] in ("inv", "app", "at", "fld", "ps", "ite"):
                return fval(d) == 0
    return False


# ------------------------------------------------------------------ printing
def show(p, depth=0):
    if isinstance(p, Poly):
        if not p.m:
            return "0"
        ts = []
        for k in sorted(p.m, key=lambda k: (-len(k), [show_key(_list[a].key, depth) for a, _ in k])):
            v = p.m[k]
            f = "*".join(show_key(_list[a].key, depth) + ("" if e == 1 else "^%d" % e) for a, e in k)
            if not f:
                f = str(v)
            elif v == -1:
                f = "-" + f
            elif v != 1:
                f = "%s*%s" % (v, f)
            ts.append(f)
        return " + ".join(ts).replace("+ -", "- ")
    if isinstance(p, Atom):
        return show_key(p.key, depth)
    if isinstance(p, tuple):
        if p and p[0] in CONDK:
            return show_cond(p)
        return show_key(p, depth)
    return str(p)


def show_cond(c):
    k = c[0]
    if k in "TF":
        return {"T": "true", "F": "false"}[k]
    if k in ("b", "nb"):
        return ("" if k == "b" else "!") + show(c[1])
    if k in ("and", "or"):
        return "(" + (" && " if k == "and" else " || ").join(show_cond(x) for x in c[1:]) + ")"
    op = {"le": "<=", "rlt": "<", "rle": "<=", "eq": "==", "ne": "!="}[k]
    pos = Poly({m: v for m, v in c[1].m.items() if v > 0})
    neg = Poly({m: -v for m, v in c[1].m.items() if v < 0})
    return "%s %s %s" % (show(pos), op, show(neg))


def show_key(k, depth=0):
    if isinstance(k, Atom):
        return show_key(k.key, depth)
    if isinstance(k, Poly):
        return show(k, depth)
    if not isinstance(k, tuple):
        return str(k)
    if not k:
        return "()"
    if depth > 8:
        return ".."
    d = depth + 1
    if k[0] == "s":
        return str(k[1])
    if k[0] == "bv":
        return "i" if k[1] == 1 else "i%d" % k[1]
    if k[0] == "at":
        return "%s[%s]" % (show_key(k[1], d), show(k[2], d))
    if k[0] == "fld":
        return "%s.%s" % (show_key(k[1], d), k[2])
    if k[0] == "inv":
        return "1/(%s)" % show(k[1], d)
    if k[0] == "app":
        return "%s(%s)" % (k[1], ", ".join(show_key(x, d) for x in k[2:]))
    if k[0] == "ite":
        return "[%s ? %s]" % (show_cond(k[1]), show(k[2], d))
    if k[0] == "ps":
        return "SUM{%s}(%s)" % (show(k[2], d), show(k[3], d))
    return "%s(%s)" % (k[0], ", ".join(show_key(x, d) for x in k[1:]))
