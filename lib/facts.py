"""The relational part of the abstract state: linear bounds between value numbers, equalities, boolean facts.

A query never fails: it answers True (implied), False (the negation is implied) or None."""
from terms import *
from terms import _list, CONDK

DEPTH = 5


def _unit(m, v):
    return len(m) == 1 and m[0][1] == 1


class Facts:
    __slots__ = ("le", "eqs", "nes", "bools", "ors", "alls", "dead", "ax", "_memo")

    def __init__(self):
        self.le = {}     # Poly -> 'i' (int, p<=0) | 'r' (p<=0) | 's' (p<0 real)
        self.eqs = []    # (atom id, Poly) solved equalities, triangular
        self.nes = set()  # Poly != 0
        self.bools = {}  # Atom -> bool
        self.ors = []
        self.alls = []   # (k Atom, n Poly, cond): cond holds for all 0<=k<n
        self.dead = False
        self.ax = frozenset()
        self._memo = {}

    def copy(self):
        f = Facts()
        f.le = dict(self.le)
        f.eqs = list(self.eqs)
        f.nes = set(self.nes)
        f.bools = dict(self.bools)
        f.ors = list(self.ors)
        f.alls = list(self.alls)
        f.dead = self.dead
        f.ax = self.ax
        return f

    def axioms(self, c):
        """bounds of the integer quotients in c"""
        for p in c[1:]:
            if not isinstance(p, Poly):
                continue
            for i in p.atoms():
                if i in self.ax:
                    continue
                a = by_id(i)
                if a.key[0] == "app" and a.key[1] == "idiv" and a.key[3].const() and a.key[3].const() > 0:
                    self.ax = self.ax | {i}
                    x, n = a.key[2], a.key[3].const()
                    self._assume(c_le(P(a) * n - x))
                    self._assume(c_le(x - P(a) * n - (n - 1)))

    # ---- normalisation by solved equalities
    def norm(self, x):
        for a, p in self.eqs:
            x = deep(x, Sub({by_id(a): p}))
        return x

    def reso(self, x):
        """x with the if-then-else atoms decided by the facts resolved"""
        if not has_ite(x):
            return x
        for guard in range(30):
            hit = None
            for a in ites(x):
                q = self.query(a.key[1])
                if q is not None:
                    hit = (a, a.key[2] if q else ZERO)
                    break
            if hit is None:
                return x
            x = deep(x, Sub({hit[0]: hit[1]}))
        return x

    def reresolve(self):
        """bounds that mention an if-then-else which has become decided"""
        for p in [p for p in self.le if has_ite(p)]:
            q = self.reso(p)
            if q is not p and q != p:
                k = self.le.pop(p)
                self._memo = {}
                c = q.const()
                if c is not None:
                    if c > 0 or (c == 0 and k == "s"):
                        self.dead = True
                else:
                    self.assume(("le", iscale(q)) if k == "i" else (("rlt" if k == "s" else "rle"), scale(q)))

    def add(self, p, kind):
        """p <= 0 (< 0) without the bounds it makes redundant"""
        n = Poly({k: v for k, v in p.m.items() if k})
        lead = max(n.m) if n.m else None
        if lead is not None:
            for q in list(self.le):
                if len(q.m) - (() in q.m) == len(n.m) and lead in q.m:
                    r = q.m[lead] / n.m[lead]
                    if r > 0 and all(q.m.get(k) == v * r for k, v in n.m.items()):
                        a, b = p.cpart() * r, q.cpart()
                        if a > b or (a == b and (kind == "s" or self.le[q] != "s")):
                            del self.le[q]
                        elif b > a or self.le[q] == "s":
                            return
        self.le[p] = kind

    def assume(self, c):
        """adds c; returns False when the facts became contradictory"""
        r = self._assume(c)
        if r and self.le:
            self.reresolve()
            r = not self.dead
        return r

    def _assume(self, c):
        if self.dead:
            return False
        self._memo = {}
        k = c[0]
        if k == "T":
            return True
        if k == "F":
            self.dead = True
            return False
        if k == "and":
            for x in c[1:]:
                if not self.assume(x):
                    return False
            return True
        d = self.query(c)
        if d is True:
            return True
        if d is False:
            self.dead = True
            return False
        c = self.reso(self.norm(c))
        k = c[0]
        if k in ("T", "F", "and"):
            return self.assume(c)
        if k == "or":
            rest = []
            for x in c[1:]:
                q = self.query(x)
                if q is True:
                    return True
                if q is None:
                    rest.append(x)
            if not rest:
                self.dead = True
                return False
            if len(rest) == 1:
                return self.assume(rest[0])
            self.ors.append(c_or(*rest))
            return True
        if k == "le":
            p = c[1]
            if p in self.nes or -p in self.nes or canon_eq(p) in self.nes:
                p = iscale(p + 1)
            self.add(p, "i")
            # a <= b and b <= a : equality
            if self.query(("le", iscale(-c[1]))) is True:
                self.solve(c[1])
        elif k == "rle":
            if self.le.get(c[1]) != "s":
                p = c[1]
                self.add(p, "s" if p in self.nes or -p in self.nes or canon_eq(p) in self.nes else "r")
            if self.query(("rle", scale(-c[1]))) is True:
                self.solve(c[1])
        elif k == "rlt":
            self.add(c[1], "s")
        elif k == "eq":
            self.solve(c[1])
        elif k == "ne":
            p = c[1]
            self.nes.add(p)
            if p.isint():
                # integer: tighten bounds that touch
                for q in (p, -p):
                    if self.implied_le(q, "i") and not self.implied_le(q + 1, "i"):
                        self.add(iscale(q + 1), "i")
            else:
                for q in (p, -p):
                    if self.implied_le(q, "r"):
                        self.add(scale(q), "s")
        elif k == "b":
            self.bools[c[1]] = True
        elif k == "nb":
            self.bools[c[1]] = False
        self._memo = {}
        if self.ors:
            o, self.ors = self.ors, []
            for x in o:
                if not self.assume(x):
                    return False
        return not self.dead

    def solve(self, p):
        """assume p == 0: solve for an atom when possible"""
        p = self.norm(p)
        c = p.const()
        if c is not None:
            if c != 0:
                self.dead = True
            return
        best = None
        whole = p.cleared()
        ints = whole.isint()
        isint = p.isint()
        if ints:
            p = whole
        for m, v in p.m.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                l = p.lin(a)
                if l is None or l[0].const() is None:
                    continue
                if a in _deep_atoms(l[1]):
                    continue
                unit = abs(l[0].const()) == 1
                if isint and not unit:
                    continue
                at = by_id(a)
                # prefer to eliminate lengths and loop counters, keep constants of the configuration
                pri = {"it": 0, "len": 1}.get(at.key[0], 2)
                if at.key[0] == "s" and str(at.key[1]).startswith("cfg"):
                    pri = 3
                key = (0 if unit or not ints else 1, pri, -a)
                if best is None or key < best[0]:
                    best = (key, a, -(l[1]) * (1 / l[0].const()))
        if best is None:
            self.le[p] = "r" if not isint else "i"
            self.le[-p] = "r" if not isint else "i"
            return
        _, a, q = best
        at = by_id(a)
        s = Sub({at: q})
        self.eqs = [(b, deep(r, s)) for b, r in self.eqs]
        self.eqs.append((a, q))
        le, self.le = self.le, {}
        for r, kk in le.items():
            n = deep(r, s)
            c = n.const()
            if c is not None:
                if c > 0 or (c == 0 and kk == "s"):
                    self.dead = True
            else:
                self.le[n] = kk
        self._memo = {}
        for r, kk in le.items():
            n = deep(r, s)
            if n != r and not self.dead and n.const() is None:
                if self.implied_le(-n + (1 if kk == "i" else 0), "i" if kk == "i" else ("r" if kk == "s" else "s")):
                    self.dead = True
        if at.nn:
            n = -q
            c = n.const()
            if c is not None:
                if c > 0:
                    self.dead = True
            else:
                self.le[n] = "i" if at.int else "r"
        nes, self.nes = self.nes, set()
        for r in nes:
            n = deep(r, s)
            c = n.const()
            if c is not None:
                if c == 0:
                    self.dead = True
            else:
                self.nes.add(n)
        bo, self.bools = self.bools, {}
        for b, v in bo.items():
            nb = asubst(b, s).single() or b
            if self.bools.get(nb, v) != v:
                self.dead = True
            self.bools[nb] = v
        self.ors = [deep(o, s) for o in self.ors]
        self.alls = [(k, deep(n, s), deep(c, s)) for k, n, c in self.alls]
        # bounds that have become opposite
        for r in list(self.le):
            if r in self.le and -r in self.le and not self.dead and "s" not in (self.le[r], self.le[-r]) and \
                    self.norm(r).const() is None and any(_unit(m, v) for m, v in r.m.items()):
                self.solve(r)

    # ---- queries
    def query(self, c):
        k = c[0]
        if k == "T":
            return True
        if k == "F":
            return False
        if self.dead:
            return True
        m = self._memo.get(c, 0)
        if m != 0:
            return m
        c0 = c
        c = self.norm(c) if self.eqs else c
        if c[0] in ("le", "eq", "ne"):
            self.axioms(c)
        if has_ite(c):
            self._memo[c0] = None
            c = self.reso(c)
        r = self._query(c)
        if r is None and c[0] in ("le", "rle", "rlt", "eq", "ne") and has_ite(c):
            r = self.cases(c, 3)
        if r is None:
            for o in self.ors:
                if c in o[1:] and len(o) == 2:
                    r = True
        self._memo[c0] = r
        return r

    def cases(self, c, depth):
        """query by cases of an undecided if-then-else in c"""
        for a in ites(c):
            rs = set()
            for b in (True, False):
                f = self.copy()
                if not f._assume(a.key[1] if b else c_not(a.key[1])):
                    continue
                d = deep(c, Sub({a: a.key[2] if b else ZERO}))
                q = f._query(f.norm(d)) if not has_ite(d) else (f.cases(d, depth - 1) if depth > 1 else None)
                rs.add(q)
                if q is None:
                    break
            if len(rs) == 1 and None not in rs:
                return rs.pop()
            return None
        return None

    def _query(self, c):
        k = c[0]
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "and":
            rs = [self.query(x) for x in c[1:]]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if k == "or":
            rs = [self.query(x) for x in c[1:]]
            if any(r is True for r in rs):
                return True
            if c in self.ors:
                return True
            return False if all(r is False for r in rs) else None
        if k in ("b", "nb"):
            v = self.bools.get(c[1])
            if v is None:
                return None
            return v == (k == "b")
        if k == "le":
            if self.implied_le(c[1], "i"):
                return True
            if self.implied_le(-c[1] + 1, "i"):
                return False
            return None
        if k == "rle":
            if self.implied_le(c[1], "r"):
                return True
            if self.implied_le(-c[1], "s"):
                return False
            return None
        if k == "rlt":
            if self.implied_le(c[1], "s"):
                return True
            if self.implied_le(-c[1], "r"):
                return False
            return None
        if k in ("eq", "ne"):
            p = c[1]
            isint = p.isint()
            r = None
            if p in self.nes or -p in self.nes or canon_eq(p) in self.nes:
                r = False
            elif isint:
                if self.implied_le(p, "i") and self.implied_le(-p, "i"):
                    r = True
                elif self.implied_le(p + 1, "i") or self.implied_le(-p + 1, "i"):
                    r = False
            else:
                if self.implied_le(p, "r") and self.implied_le(-p, "r"):
                    r = True
                elif self.implied_le(p, "s") or self.implied_le(-p, "s"):
                    r = False
            if r is None:
                return None
            return r if k == "eq" else not r
        return None

    def implied_le(self, p, kind):
        """p <= 0 ('i','r') or p < 0 ('s') follows"""
        return self._prove(p, kind == "s", DEPTH, set())

    def _prove(self, p, strict, depth, seen):
        c = p.const()
        if c is not None:
            return c < 0 or (c == 0 and not strict)
        if (p, strict) in seen:
            return False
        seen.add((p, strict))
        # drop monomials that are certainly <= 0
        pos = []
        neg = []
        for m, v in p.m.items():
            if not m:
                continue
            if v > 0:
                pos.append((m, v))
            else:
                neg.append((m, v))
        if not pos:
            # all variable parts have negative coefficients
            if all(self._mono_nn(m) for m, _ in neg):
                c = p.cpart()
                if c < 0 or (c == 0 and not strict):
                    return True
        if depth == 0:
            return False
        # eliminate one monomial
        cand = pos if pos else neg
        m, v = max(cand, key=lambda t: (len(t[0]), t[0]))
        for f, kk in self._facts_with(m, v > 0):
            fv = f.m[m]
            lam = v / fv
            q = p - f * lam
            if self._prove(q, strict and kk != "s", depth - 1, seen):
                return True
        if not pos:
            # negative leftovers that are nonneg atoms may be dropped one at a time
            for m2, v2 in neg:
                if self._mono_nn(m2):
                    q = Poly({k: x for k, x in p.m.items() if k != m2})
                    if self._prove(q, strict, depth - 1, seen):
                        return True
        else:
            for m2, v2 in neg:
                if self._mono_nn(m2) and depth > 1:
                    q = Poly({k: x for k, x in p.m.items() if k != m2})
                    if self._prove(q, strict, depth - 2, seen):
                        return True
        return False

    def _facts_with(self, m, positive):
        r = []
        for f, kk in self.le.items():
            v = f.m.get(m)
            if v is not None and (v > 0) == positive:
                r.append((f, kk))
        r.sort(key=lambda t: len(t[0].m))
        return r[:12]

    def _mono_nn(self, m):
        neg = 0
        for a, e in m:
            if e % 2 == 0:
                continue
            if not by_id(a).nn:
                if self.le and any(f.m.get(((a, 1),)) == -1 and len(f.m) <= 2 and f.cpart() >= 0 and
                                   all(k in ((), ((a, 1),)) for k in f.m) for f in self.le):
                    continue
                return False
        return True

    def same(self, a, b):
        """value numbers equal under the facts"""
        if a == b:
            return True
        a, b = self.norm(a), self.norm(b)
        if a == b:
            return True
        from terms import same as s
        if s(a, b):
            return True
        d = a - b
        q = self._query(c_eq(d)) if d.const() is None else d.const() == 0
        if q is True:
            return True
        return self.zero(d, 6)

    def zero(self, d, depth):
        """d == 0 by cases of the if-then-else atoms in it"""
        from terms import same as s
        guard = 0
        while True:
            c = d.const()
            if c is not None:
                return c == 0
            it = first_ite(d)
            if it is None:
                return s(d, ZERO) or self._query(c_eq(d)) is True
            q = self.query(it.key[1])
            if q is None:
                break
            d = deep(d, Sub({it: it.key[2] if q else ZERO}))
            guard += 1
            if guard > 40:
                return False
        if depth == 0:
            return False
        for b in (True, False):
            f = self.copy()
            if not f.assume(it.key[1] if b else c_not(it.key[1])):
                continue
            x = f.norm(deep(d, Sub({it: it.key[2] if b else ZERO})))
            if not f.zero(x, depth - 1):
                return False
        return True

    def show(self):
        r = ["%s %s 0" % (show(p), "<" if k == "s" else "<=") for p, k in self.le.items()]
        r += ["%s = %s" % (show(by_id(a)), show(p)) for a, p in self.eqs]
        r += ["%s != 0" % show(p) for p in self.nes]
        r += [("" if v else "!") + show(a) for a, v in self.bools.items()]
        r += [show_cond(o) for o in self.ors]
        return r


_hi = {}


def has_ite(x):
    if isinstance(x, Poly):
        return any(_aite(by_id(i)) for i in x.atoms())
    if isinstance(x, Atom):
        return _aite(x)
    if isinstance(x, tuple):
        return any(has_ite(y) for y in x if isinstance(y, (Poly, Atom, tuple)))
    return False


def _aite(a):
    r = _hi.get(a.id)
    if r is None:
        r = _hi[a.id] = a.key[0] == "ite" or (a.key[0] in ("inv", "app", "ps", "at", "fld") and has_ite(a.key[1:]))
    return r


def ites(x, out=None):
    """the if-then-else atoms of x whose condition mentions no bound variable"""
    if out is None:
        out = []
    if isinstance(x, Poly):
        for i in sorted(x.atoms()):
            ites(by_id(i), out)
    elif isinstance(x, Atom):
        if _aite(x):
            if x.key[0] == "ite" and x not in out and \
                    not any(by_id(i).key[0] == "bv" for i in atoms_of(x.key[1])):
                out.append(x)
            if x.key[0] != "ps":
                ites(x.key[1:], out)
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (Poly, Atom, tuple)):
                ites(y, out)
    return out


def first_ite(p):
    """an if-then-else atom of p whose condition mentions no bound variable"""
    seen = set()

    def walk(x):
        if isinstance(x, Poly):
            for i in sorted(x.atoms()):
                r = walk(by_id(i))
                if r is not None:
                    return r
        elif isinstance(x, Atom):
            if x.id in seen:
                return None
            seen.add(x.id)
            if x.key[0] == "ite" and not any(by_id(i).key[0] == "bv" for i in atoms_of(x.key[1])):
                return x
            if x.key[0] in ("app", "inv", "ite"):
                return walk(x.key[1:])
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, (Poly, Atom)):
                    r = walk(y)
                    if r is not None:
                        return r
        return None
    return walk(p)


def _deep_atoms(p):
    s = set()
    for i in p.atoms():
        s |= free_atoms(by_id(i))
    return s
