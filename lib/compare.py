"""Equality of abstract values under facts."""
from values import *
from terms import _list
import terms


ANYNUM = P(terms.atom(("s", "any number")))


def flatmap(m):
    """explicit entries of a map, or None when some entry is conditional"""
    r = []
    for k, v, c in m.ents:
        if v is ABSENT:
            continue
        if c == F:
            continue
        if c != T:
            return None
        r.append((k, v))
    return r


def segs(e, facts, s):
    """sequence as a list of non-empty segments"""
    r = []
    if s.base is not None:
        lo, hi = facts.norm(s.lo), facts.norm(s.hi)
        d = hi - lo
        q = facts.query(c_le(d))
        if q is True or d.const() == 0:
            pass
        else:
            r.append(["b", s.base, lo, hi])
    for p in s.tail:
        if p[0] == "e":
            r.append(["e", p[1]])
        elif p[0] == "rep":
            n = facts.norm(psize(p))
            if n.const() == 0 or facts.query(c_le(n)) is True:
                continue
            c = facts.norm(p[2]).const()
            if c is not None and c <= 8 and p[3] == T:
                for i in range(int(c)):
                    sub = Sub({p[1]: P(i)})
                    for q in p[4]:
                        q = deep(q, sub)
                        r.append(["e", q[1]] if q[0] == "e" else ["p", q])
                continue
            r.append(["p", p])
        else:
            n = facts.norm(p[2])
            if n.const() == 0:
                continue
            r.append(["p", p])
    return r


def seq_same(e, facts, a, b, sa, sb):
    x, y = segs(e, facts, a), segs(e, facts, b)
    guard = 0
    while x or y:
        guard += 1
        if guard > 200:
            return None
        if not x or not y:
            rest = x or y
            if any(s[0] == "e" for s in rest):
                return False
            for s in rest:
                n = (s[3] - s[2]) if s[0] == "b" else psize(s[1])
                if facts.query(c_lt(-n)) is True:
                    return False
            return None if any(True for s in rest) else True
        p, q = x[0], y[0]
        if p[0] == "e" and q[0] == "e":
            r = vsame(e, facts, p[1], q[1], sa, sb)
            if r is not True:
                return r
            x.pop(0)
            y.pop(0)
            continue
        if p[0] == "b" and q[0] == "b" and p[1] == q[1]:
            if facts.same(p[2], q[2]):
                if facts.same(p[3], q[3]):
                    x.pop(0)
                    y.pop(0)
                    continue
                d = facts.query(c_le(p[3] - q[3]))
                if d is True:
                    y[0] = ["b", q[1], p[3], q[3]]
                    x.pop(0)
                    if facts.query(c_le(y[0][3] - y[0][2])) is True:
                        y.pop(0)
                    continue
                if d is False:
                    x[0] = ["b", p[1], q[3], p[3]]
                    y.pop(0)
                    continue
                return None
            if facts.query(c_eq(p[2] - q[2])) is False:
                # same source, shifted: elements differ in general
                return False
            return None
        if p[0] == "e" and q[0] == "b":
            p, q, x, y, sw = q, p, y, x, True
        if p[0] == "b" and q[0] == "e":
            if facts.query(c_lt(p[2] - p[3])) is not True:
                return None
            el = e.symval(elem_ty(a, b), ("at", p[1], p[2]))
            r = vsame(e, facts, el, q[1], sa, sb)
            if r is not True:
                return r
            x[0] = ["b", p[1], p[2] + 1, p[3]]
            if facts.query(c_le(p[3] - p[2] - 1)) is True:
                x.pop(0)
            y.pop(0)
            continue
        if p[0] == "p" and q[0] == "p":
            if p[1] == q[1]:
                x.pop(0)
                y.pop(0)
                continue
            u, v = p[1], q[1]
            cut = None
            if u[0] == "rep" and v[0] == "rep" and not facts.same(u[2], v[2]):
                # the longer repetition is split
                if facts.query(c_lt(u[2] - v[2])) is True:
                    cut, rest, n = y, v, u[2]
                elif facts.query(c_lt(v[2] - u[2])) is True:
                    cut, rest, n = x, u, v[2]
                else:
                    return None
                s2 = Sub({rest[1]: P(rest[1]) + n})
                rest = ["p", ("rep", rest[1], facts.norm(rest[2] - n), deep(rest[3], s2), deep(rest[4], s2))]
            if u[0] == "rep" and v[0] == "rep" and len(u[4]) == len(v[4]):
                f = facts.copy()
                k = u[1]
                f.assume(c_lt(P(k) - u[2]))
                sub = Sub({v[1]: P(k)})
                if f.norm(u[3]) != f.norm(deep(v[3], sub)):
                    return None
                for m, o in zip(u[4], deep(v[4], sub)):
                    if m[0] != "e" or o[0] != "e":
                        if m != o:
                            return None
                        continue
                    r = vsame(e, f, m[1], o[1], sa, sb)
                    if r is not True:
                        return r
                x.pop(0)
                y.pop(0)
                if cut is not None:
                    cut.insert(0, rest)
                continue
            return None
        if p[0] == "p" and q[0] == "b":
            p, q, x, y = q, p, y, x
        if p[0] == "b" and q[0] == "p":
            # a slice against a repetition that spells out its elements
            u, n = q[1], p[3] - p[2]
            if not (u[0] == "rep" and u[3] == T and len(u[4]) == 1 and u[4][0][0] == "e"):
                return None
            if facts.same(n, u[2]):
                rest = 0
            elif facts.query(c_le(n - u[2])) is True:
                rest = 1
            elif facts.query(c_le(u[2] - n)) is True:
                rest = 2
            else:
                return None
            f = facts.copy()
            f.assume(c_lt(P(u[1]) - (u[2] if rest == 2 else n)))
            el = e.symval(elem_ty(a, b), ("at", p[1], p[2] + P(u[1])))
            r = vsame(e, f, el, u[4][0][1], sa, sb)
            if r is not True:
                return r
            x.pop(0)
            y.pop(0)
            if rest == 1:
                s2 = Sub({u[1]: P(u[1]) + n})
                y.insert(0, ["p", ("rep", u[1], facts.norm(u[2] - n), T, deep(u[4], s2))])
            elif rest == 2:
                x.insert(0, ["b", p[1], facts.norm(p[2] + u[2]), p[3]])
            continue
        if p[0] == "e" and q[0] == "p":
            p, q, x, y = q, p, y, x
        if p[0] == "p" and q[0] == "e":
            u = p[1]
            if u[0] == "rep" and u[3] == T and len(u[4]) == 1 and u[4][0][0] == "e":
                if facts.query(c_lt(-u[2])) is True:
                    el = deep(u[4][0][1], Sub({u[1]: ZERO}))
                    r = vsame(e, facts, el, q[1], sa, sb)
                    if r is not True:
                        return r
                    body = deep(u[4], Sub({u[1]: P(u[1]) + 1}))
                    n = facts.norm(u[2] - 1)
                    y.pop(0)
                    if n.const() == 0 or facts.query(c_le(n)) is True:
                        x.pop(0)
                    else:
                        x[0] = ["p", ("rep", u[1], n, T, body)]
                    continue
            return None
        return None
    return True


def elem_ty(a, b):
    return a.ety or b.ety


def vsame(e, facts, a, b, sa=None, sb=None):
    """True: equal; False: different for some instance; None: unknown. sa, sb: stores for pointers"""
    if a is b:
        return True
    if isnum(a) and isnum(b):
        if a == ANYNUM or b == ANYNUM:
            return True
        return True if facts.same(a, b) else False
    if iscond(a) or iscond(b):
        if isnum(a):
            a = c_ne(a)
        if isnum(b):
            b = c_ne(b)
        if not (iscond(a) and iscond(b)):
            return None
        x, y = facts.norm(a), facts.norm(b)
        if x == y:
            return True
        p, q = facts.query(x), facts.query(y)
        if p is not None and q is not None:
            return p == q
        # a <=> b
        f = facts.copy()
        if f.assume(x) and f.query(y) is not True:
            return False
        f = facts.copy()
        if f.assume(c_not(x)) and f.query(y) is not False:
            return False
        return True
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        return seq_same(e, facts, a, b, sa, sb)
    if isinstance(a, MapV) and isinstance(b, MapV):
        if a.base != b.base:
            return None
        x, y = flatmap(a), flatmap(b)
        if x is None or y is None:
            return None
        if len(x) != len(y):
            return False if a.base is None else None
        y = list(y)
        res = True
        for k, v in x:
            for i, (k2, v2) in enumerate(y):
                if k == k2 or facts.query(e.val_eq(k, k2)) is True:
                    r = vsame(e, facts, v, v2, sa, sb)
                    if r is False:
                        return False
                    if r is None:
                        res = None
                    y.pop(i)
                    break
            else:
                return False
        return res
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.f.keys() != b.f.keys():
            return None
        res = True
        for k in a.f:
            r = vsame(e, facts, a.f[k], b.f[k], sa, sb)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if a.to is None or b.to is None:
            q = facts.query(e.ptr_eq(a, b))
            return q
        if isinstance(a.to, LV) and isinstance(b.to, LV) and sa is not None and sb is not None:
            if a.to == b.to and sa is sb:
                return True
            x, y = sa.get(a.to.loc), sb.get(b.to.loc)
            if a.to.path or b.to.path or x is None or y is None:
                return a.to == b.to or None
            return vsame(e, facts, x, y, sa, sb)
        return True if a == b else None
    if isinstance(a, Str) and isinstance(b, Str):
        q = facts.query(str_eq(a, b))
        return q if q is not None else False
    if isinstance(a, OptV) and isinstance(b, OptV):
        r = vsame(e, facts, a.has, b.has)
        if r is not True:
            return r
        if facts.query(a.has) is False:
            return True
        return vsame(e, facts, a.v, b.v, sa, sb)
    return True if a == b else None
