"""Concrete instances of a symbolic difference.

The value numbering is complete up to the equalities it knows, so two value graphs it cannot identify may still denote
the same number.  Before a difference is reported, an instance of the symbols is looked for that satisfies the path
facts and tells the two graphs apart.  Only value graphs are evaluated, no code."""
import math
import random
from fractions import Fraction
from values import *
from terms import _list


from compare import ANYNUM


class NoEval(Exception):
    pass


class Env:
    def __init__(self, e, facts, rng, scale):
        self.e, self.facts, self.rng, self.scale = e, facts, rng, scale
        self.leaf = {}
        self.sol = {a: p for a, p in facts.eqs}
        self.bound = {}
        self.approx = False
        self.depth = 0
        self.big = ()          # numbers at which a narrower type gives out

    # -------------------------------------------------- leaves
    def fresh(self, a, key):
        r = self.rng
        k = key[0] if isinstance(key, tuple) else None
        if k == "len":
            return r.randint(0, 5)
        if a.int:
            hi = self.scale
            lo = 0 if a.nn else -hi
            if self.big and r.random() < 0.5:
                return r.choice(self.big) + r.randint(-2, 2)
            return r.randint(lo, hi)
        x = r.random()
        if self.big and x < 0.4:
            return r.choice(self.big) + r.choice((0, 1, Fraction(0.1)))
        if x < 0.5:
            return r.randint(-4, 4)
        return Fraction(r.randint(-400, 400), r.choice((1, 2, 4, 8)))

    def ev(self, p):
        t = 0
        for k, v in p.m.items():
            x = v
            for i, e in k:
                y = self.atom(_list[i])
                if e < 0:
                    if y == 0:
                        raise NoEval("division by zero")
                    x = x * (Fraction(1) / y if not isinstance(y, float) else 1.0 / y) ** (-e)
                else:
                    x = x * y ** e
            t = t + x
        if isinstance(t, float) and (math.isinf(t) or math.isnan(t) and p != ANYNUM):
            raise NoEval("overflow")
        return t

    def key(self, k):
        """atom key with its index expressions evaluated"""
        if isinstance(k, Poly):
            return self.ev(k)
        if isinstance(k, Atom):
            return self.key(k.key)
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, V):
            return k
        return k

    def atom(self, a):
        if a.id in self.bound:
            return self.bound[a.id]
        if a.key == ("s", "any number"):
            return math.nan
        if a.id in self.sol:
            self.depth += 1
            if self.depth > 60:
                self.depth = 0
                raise NoEval("cyclic")
            r = self.ev(self.sol[a.id])
            self.depth -= 1
            return r
        k = a.key
        h = k[0]
        if h == "inv":
            y = self.ev(k[1])
            if y == 0:
                raise NoEval("division by zero")
            return Fraction(1) / y if not isinstance(y, float) else 1.0 / y
        if h == "ite":
            return self.ev(k[2]) if self.cond(k[1]) else 0
        if h == "ps":
            n = self.ev(k[3])
            if n != int(n) or abs(n) > 200:
                raise NoEval("sum")
            b = bv(k[1])
            old = self.bound.get(b.id)
            t = 0
            for i in range(0, int(n)) if n >= 0 else range(int(n), 0):
                self.bound[b.id] = i
                x = self.ev(k[2])
                t = t + x if n >= 0 else t - x
            if old is None:
                self.bound.pop(b.id, None)
            else:
                self.bound[b.id] = old
            return t
        if h == "app":
            return self.app(k)
        if h in ("any", "all"):
            raise NoEval(h)
        if h in ("opq", "hv", "lc", "bv"):
            raise NoEval(h)
        kk = self.key(k)
        if kk not in self.leaf:
            self.leaf[kk] = self.fresh(a, kk)
        return self.leaf[kk]

    def app(self, k):
        f = k[1]
        xs = [self.ev(x) if isinstance(x, Poly) else x for x in k[2:]]
        if not all(isinstance(x, (int, float, Fraction)) for x in xs):
            raise NoEval("app " + f)
        try:
            if f == "idiv":
                return xs[0] // xs[1]
            if f == "sdiv":
                q = abs(xs[0]) // abs(xs[1])
                return q if (xs[0] >= 0) == (xs[1] > 0) else -q
            if f == "mod":
                q = abs(xs[0]) % abs(xs[1])
                return q if xs[0] >= 0 else -q
            if f in ("trunc",):
                return int(xs[0])
            if f.startswith(("int", "uint")):
                bits = int(f.lstrip("uint"))
                x = int(xs[0]) & ((1 << bits) - 1)
                return x - (1 << bits) if f[0] == "i" and x >> (bits - 1) else x
            if f == "f32":
                import struct
                return Fraction(struct.unpack("f", struct.pack("f", float(xs[0])))[0])
            if f in ("&", "|", "^", "<<", ">>"):
                a, b = int(xs[0]), int(xs[1])
                return {"&": a & b, "|": a | b, "^": a ^ b}.get(f, a << b if f == "<<" and b < 64 else a >> b)
            if f == "abs" or f == "fabs":
                return abs(xs[0])
            if f == "floor":
                return math.floor(xs[0])
            if f == "ceil":
                return math.ceil(xs[0])
            self.approx = True
            g = [float(x) for x in xs]
            if f in ("sqrt", "pow", "sin", "cos", "tan", "exp", "log", "fmod", "acos", "asin", "atan", "log10", "log2",
                     "tanh", "cosh", "sinh", "atan2", "hypot"):
                return getattr(math, f)(*g)
            if f == "round":
                return math.floor(abs(g[0]) + 0.5) * (1 if g[0] >= 0 else -1)
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            raise NoEval("app " + f)
        raise NoEval("app " + f)

    # -------------------------------------------------- conditions
    def cond(self, c):
        k = c[0]
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "and":
            return all(self.cond(x) for x in c[1:])
        if k == "or":
            return any(self.cond(x) for x in c[1:])
        if k in ("b", "nb"):
            return self.flag(c[1]) == (k == "b")
        v = self.ev(c[1])
        if k in ("le", "rle"):
            return v <= 0
        if k == "rlt":
            return v < 0
        if k == "eq":
            return v == 0
        if k == "ne":
            return v != 0
        raise NoEval(k)

    def flag(self, a):
        if a in self.facts.bools:
            return self.facts.bools[a]
        k = a.key
        if k[0] in ("seq",):
            return False
        if k[0] == "any":
            n = self.ev(k[2])
            if n > 200:
                raise NoEval("long")
            old = self.bound.get(k[1].id)
            r = False
            for i in range(int(n)):
                self.bound[k[1].id] = i
                if self.cond(k[3]):
                    r = True
                    break
            if old is None:
                self.bound.pop(k[1].id, None)
            else:
                self.bound[k[1].id] = old
            return r
        if k[0] == "fp":
            return k[1] == "isfinite"
        if k[0] in ("opq", "hv", "lc"):
            raise NoEval(k[0])
        kk = ("flag", self.key(k))
        if kk not in self.leaf:
            self.leaf[kk] = self.rng.random() < 0.5
        return self.leaf[kk]

    # -------------------------------------------------- values
    def val(self, v, depth=0):
        if depth > 30:
            raise NoEval("depth")
        d = depth + 1
        if isinstance(v, Poly):
            return self.ev(v)
        if iscond(v):
            return 1 if self.cond(v) else 0
        if isinstance(v, Str):
            r = []
            for x in v.p:
                if x[0] == "c":
                    r.append(x[1])
                elif x[0] == "n":
                    n = self.ev(x[1])
                    r.append(str(int(n)) if n == int(n) else repr(float(n)))
                else:
                    r.append("<%s>" % (self.key(x[1]),))
            return "".join(r)
        if isinstance(v, Struct):
            return ("struct", tuple((k, self.val(v.f[k], d)) for k in sorted(v.f)))
        if isinstance(v, SeqV):
            return self.seq(v, d)
        if isinstance(v, MapV):
            if v.base is not None:
                raise NoEval("map")
            r = {}
            for k, x, c in v.ents:
                if x is ABSENT or not self.cond(c):
                    continue
                r[self.val(k, d)] = self.val(x, d)
            return r
        if isinstance(v, OptV):
            return self.val(v.v, d) if self.cond(v.has) else None
        if v is None:
            return None
        raise NoEval(type(v).__name__)

    def seq(self, s, d):
        r = []
        if s.base is not None:
            lo, hi = self.ev(s.lo), self.ev(s.hi)
            if hi - lo > 200:
                raise NoEval("long")
            for i in range(int(lo), int(hi)):
                if s.ety is None:
                    raise NoEval("element type")
                r.append(self.val(self.e.symval(s.ety, ("at", s.base, P(i))), d))
        for p in s.tail:
            self.piece(p, r, d)
        return r

    def piece(self, p, r, d):
        if p[0] == "e":
            r.append(self.val(p[1], d))
        elif p[0] == "rep":
            n = self.ev(p[2])
            if n > 200:
                raise NoEval("long")
            old = self.bound.get(p[1].id)
            for i in range(int(n)):
                self.bound[p[1].id] = i
                if self.cond(p[3]):
                    for q in p[4]:
                        self.piece(q, r, d)
            if old is None:
                self.bound.pop(p[1].id, None)
            else:
                self.bound[p[1].id] = old
        else:
            raise NoEval(p[0])


def constraints(f):
    """the facts as conditions"""
    r = []
    for p, k in f.le.items():
        r.append(("le" if k == "i" else "rle" if k == "r" else "rlt", p))
    for a, p in f.eqs:
        at = by_id(a)
        if at.nn:
            r.append(("le", -p))
    for p in f.nes:
        r.append(("ne", p))
    r += list(f.ors)
    return r


def nnleaf(env, r):
    pass


def violated(env, cs, alls):
    for c in cs:
        if not env.cond(c):
            return c
    for (k, n, c) in alls:
        m = env.ev(n)
        if m > 60:
            raise NoEval("long")
        for i in range(int(m)):
            env.bound[k.id] = i
            try:
                ok = env.cond(c)
            finally:
                env.bound.pop(k.id, None)
            if not ok:
                return deep(c, Sub({k: P(i)}))
    return None


def repair(env, c):
    """moves one symbol so that the violated condition c may hold"""
    rng = env.rng
    if c[0] == "or":
        c = rng.choice(c[1:])
    if c[0] == "and":
        for x in c[1:]:
            if not env.cond(x):
                c = x
                break
    if c[0] in ("b", "nb"):
        kk = ("flag", env.key(c[1].key))
        if kk in env.leaf:
            env.leaf[kk] = c[0] == "b"
            return True
        return False
    if c[0] in ("T", "F"):
        return False
    p = c[1]
    for guard in range(12):
        # through the solved symbols
        sol = [i for i in p.atoms() if i in env.sol]
        if not sol:
            break
        p = deep(p, Sub({by_id(i): env.sol[i] for i in sol}))
    cand = []
    v = env.ev(p)
    for i in p.atoms():
        l = p.lin(i)
        if l is None:
            continue
        a = _list[i]
        if a.id in env.bound:
            continue
        while a.key[0] in ("ite", "inv", "app", "ps"):
            break
        if a.key[0] in ("ite", "ps", "app", "inv"):
            continue
        co = env.ev(l[0])
        if co == 0:
            continue
        cand.append((a, co))
    if not cand:
        # change any symbol
        ks = [k for k in env.leaf if not isinstance(env.leaf[k], bool)]
        if not ks:
            return False
        k = rng.choice(ks)
        env.leaf[k] = env.leaf[k] + rng.choice((-3, -1, 1, 2))
        return True
    up = [x for x in cand if x[0].int and x[0].nn and x[1] < 0]
    # orders of times are met upwards
    a, co = rng.choice(up if up and c[0] in ("le", "rle", "rlt") and rng.random() < 0.75 else cand)
    kk = env.key(a.key)
    cur = env.leaf.get(kk, 0)
    slack = rng.choice((0, 0, 1, 1, 2, 5))
    if c[0] == "eq":
        t = 0
    elif c[0] == "ne":
        t = rng.choice((1, -1))
    elif c[0] == "rlt":
        t = -rng.choice((Fraction(1, 2), 1, 3))
    else:
        t = -slack
    new = cur + (t - v) / Fraction(co) if not isinstance(v, float) and not isinstance(co, float) else cur + (t - v) / co
    if a.int:
        if isinstance(new, float):
            new = math.floor(new)
        elif new != int(new):
            new = math.floor(new) if co > 0 else math.ceil(new)
        new = int(new)
    if a.nn and new < 0:
        new = 0
    env.leaf[kk] = new
    return True


def near(a, b, tol):
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        if isinstance(b, float) and math.isnan(b):
            return True
        if not tol and not isinstance(a, float) and not isinstance(b, float):
            return a == b
        x, y = float(a), float(b)
        return abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y))
    if type(a) != type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k], tol) for k in a)
    return a == b


def clean(v):
    """without empty lists and maps"""
    if isinstance(v, dict):
        r = {k: clean(x) for k, x in v.items()}
        return {k: x for k, x in r.items() if not (isinstance(x, (dict, list)) and not x)}
    return v


ANYVALUE = ("s", "any value")


def limits(x):
    """the numbers at which the types give out that x is cut to"""
    r = set()
    for i in atoms_of(x):
        k = by_id(i).key
        if k[0] == "app" and k[1] in NARROW:
            b, sg = NARROW[k[1]]
            r.add(1 << (b - 1 if sg else b) if b else 1 << 24)
    return sorted(r)


def search(e, facts, vals, extra=(), tries=60, seed=1):
    """an instance that satisfies the facts (and extra conditions) and gives the two values different results.
    vals: () when an instance of the facts is enough. -> description or None"""
    if facts.dead:
        return None
    cs = constraints(facts) + [c for c in extra if c != T]
    alls = list(facts.alls)
    rng = random.Random(seed)
    big = limits((vals, tuple(c[1:] for c in cs)))
    for t in range(tries):
        env = Env(e, facts, rng, (12, 60, 12, 1000)[t % 4])
        if big and t % 4:
            env.big = big
        try:
            ok = False
            for step in range(80 + 4 * len(cs) + (120 if alls else 0)):
                c = violated(env, cs, alls)
                if c is None:
                    ok = not negative(env)
                    break
                if not repair(env, c):
                    break
            if not ok:
                continue
            if not vals:
                return describe(env)
            a, b = clean(env.val(vals[0])), clean(env.val(vals[1]))
            if violated(env, cs, alls) is not None or negative(env):
                continue
            if not near(a, b, env.approx):
                return describe(env) + "; there %s against %s" % (short_val(a), short_val(b))
        except (NoEval, OverflowError, ZeroDivisionError, RecursionError):
            continue
    return None


def negative(env):
    for k, v in env.leaf.items():
        if isinstance(k, tuple) and k and k[0] == "len" and v < 0:
            return True
    return False


def short_val(v):
    if isinstance(v, Fraction):
        return str(int(v)) if v.denominator == 1 else "%g" % float(v)
    if isinstance(v, float):
        return "%g" % v
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "struct":
        return "{%s}" % ", ".join("%s: %s" % (k.split("::")[-1], short_val(x)) for k, x in v[1])
    if isinstance(v, dict):
        return "{%s}" % ", ".join("%s: %s" % (short_val(k) if not isinstance(k, str) else k, short_val(x)) for k, x in v.items())
    if isinstance(v, list):
        return "[%s]" % ", ".join(map(short_val, v))
    return str(v)


def describe(env):
    r = []
    for k, v in list(env.leaf.items())[:24]:
        r.append("%s=%s" % (showk(k), short_val(v)))
    return "for " + ", ".join(sorted(r)) if r else "always"


def showk(k):
    if not isinstance(k, tuple):
        return short_val(k) if isinstance(k, (int, Fraction, float)) else str(k)
    if k and k[0] in ("s", "cfg") and len(k) == 2:
        return str(k[1])
    if k and k[0] == "at" and len(k) == 3:
        return "%s[%s]" % (showk(k[1]), showk(k[2]))
    if k and k[0] == "fld":
        return "%s.%s" % (showk(k[1]), str(k[2]).split("::")[-1])
    if k and k[0] == "len":
        return "len(%s)" % showk(k[1])
    if k and k[0] == "W":
        return "window " + str(k[1])
    return "%s(%s)" % (k[0] if k else "", ",".join(showk(x) for x in k[1:]))
