"""Library algorithms over fully explicit ranges (element count known).  Loops over ranges of unknown length are summarised
elsewhere; anything not covered here is left undecided."""
from terms import *
from values import *

OUT = ("reverse", "rotate", "fill", "fill_n", "generate", "generate_n", "iota", "copy_n", "copy_backward", "remove", "remove_if",
       "unique", "replace", "replace_if", "partition", "stable_partition", "stable_sort", "lower_bound", "upper_bound",
       "binary_search", "equal", "lexicographical_compare", "mismatch", "adjacent_difference", "partial_sum",
       "adjacent_find", "minmax_element", "swap_ranges", "iter_swap", "is_sorted", "clamp", "transform", "copy", "copy_if",
       "remove_copy_if", "remove_copy", "for_each_n", "set_union", "set_intersection", "set_difference", "includes", "merge",
       "transform_reduce", "inner_product", "accumulate", "move", "equal_range", "inserter", "front_inserter",
       "make_move_iterator", "make_reverse_iterator", "inclusive_scan", "exclusive_scan", "is_partitioned", "partition_point",
       "max", "min", "minmax", "nth_element", "partial_sort", "search")


class Algos:
    # -------------------------------------------------------------- ranges
    def asiter(self, s, x):
        """pointers into a sequence behave like its iterators"""
        if isinstance(x, PtrV) and isinstance(x.to, LV) and x.to.path and x.to.path[-1][0] == "i":
            lv = LV(x.to.loc, x.to.path[:-1])
            if isinstance(self.e.read(s, lv), SeqV):
                return IterV(lv, ("i", x.to.path[-1][1]), "seq")
        return x

    def position(self, s, it, n):
        """index of a sequence iterator (number of steps from the front)"""
        e = self.e
        v = e.read(s, it.lv)
        if not isinstance(v, SeqV) or e.flat(v) is None:
            return None
        c = s.facts.norm(it.pos[1]).const() if it.pos[0] in ("i", "r") else None
        if c is None:
            return None
        return int(c)

    def span(self, s, a, b, n):
        """-> list of references of the elements of [a,b), or None when the range is not explicit"""
        e = self.e
        if not isinstance(a, IterV) or not isinstance(b, IterV):
            return None
        m = e.read(s, a.lv)
        if isinstance(m, SeqV):
            i, j = self.position(s, a, n), self.position(s, b, n)
            if i is None or j is None or a.pos[0] != b.pos[0] or a.lv != b.lv or self.isbytes(m):
                return None
            ln = len(e.flat(m))
            if not 0 <= i <= j <= ln:
                return None
            r = range(i, j) if a.pos[0] == "i" else [ln - 1 - k for k in range(i, j)]
            return [a.lv.sub("i", P(k)) for k in r]
        if isinstance(m, MapV) and m.base is None and a.kind != "rev":
            r = self.present(s, a.lv, n)
            if len(r) != 1 or r[0][0] is not s:
                return None
            out, on = [], False
            for k, v, c in r[0][1]:
                if b.pos[0] == "k" and s.facts.query(e.val_eq(k, b.pos[1])) is True:
                    break
                if a.pos[0] == "k" and s.facts.query(e.val_eq(k, a.pos[1])) is True:
                    on = True
                if on:
                    out.append(k if m.vty is None else Struct("std::pair", {"first": k, "second": e.read(s, a.lv.sub("m", k))}))
            return out
        return None

    def values(self, s, refs):
        return [self.e.rv(s, x) for x in refs]

    def isout(self, x):
        return isinstance(x, Struct) and x.cls in ("back_inserter", "inserter", "front_inserter") or isinstance(x, IterV)

    def put(self, s, dst, vals, n):
        """writes vals to the output iterator -> [(s, advanced iterator)]"""
        e = self.e
        if isinstance(dst, Struct) and dst.cls in ("back_inserter", "inserter", "front_inserter"):
            lv = dst.f["to"].to
            c = e.read(s, lv)
            cur = [(s, None)]
            for x in vals:
                if isinstance(c, MapV):
                    cur = e.bind(cur, lambda s2, _, x=x: self.m_map(s2, "insert", lv, [x], n, {}))
                else:
                    nm = "push_front" if dst.cls == "front_inserter" else "push_back"
                    cur = e.bind(cur, lambda s2, _, x=x: self.m_seq(s2, nm, lv, [x], n, {}))
            if dst.cls == "inserter" and isinstance(c, SeqV):
                at = dst.f["at"]
                if not (at.pos[0] == "i" and s.facts.same(at.pos[1], seq_len(c))):
                    e.undecided("inserter in the middle", n, s)
            return [(s2, dst) for s2, _ in cur]
        i = self.position(s, dst, n)
        v = e.read(s, dst.lv)
        if i is None:
            e.undecided("output range", n, s)
        f = list(e.flat(v))
        if i + len(vals) > len(f):
            return [self.ub(s, "output past the end", n)]
        cur = [(s, ())]
        for x in vals:
            cur = [(s3, l + (y,)) for s2, l in cur for s3, y in self.coerce(s2, x, v.ety, n)]
        out = []
        for s2, l in cur:
            g = list(f)
            for k, x in enumerate(l):
                g[i + k if dst.pos[0] == "i" else len(g) - 1 - i - k] = x
            self.store(s2, dst.lv, g)
            out.append((s2, IterV(dst.lv, (dst.pos[0], P(i + len(l))), dst.kind)))
        return out

    def store(self, s, lv, vals):
        v = self.e.read(s, lv)
        self.e.write(s, lv, SeqV(v.ety, None, ZERO, ZERO, [("e", x) for x in vals]))

    def ask(self, s, f, args, n):
        """boolean outcome of a predicate or of a comparison (f None: <, '==': equality) -> [(s, bool)]"""
        e = self.e
        if f is None or f == "==":
            vs = [e.rv(s, a) for a in args]
            rs = self.userop(s, "operator<" if f is None else "operator==", vs, n)
        else:
            rs = e.callval(s, f, [self.arg(s, a) for a in args], n)
        out = []
        for s2, c in rs:
            if s2.exc is not None:
                out.append((s2, None))
            else:
                out.extend((s3, b) for b, s3 in e.branch(s2, e.truth(e.rv(s2, c), n, s2)))
        return out

    def userop(self, s, name, vs, n):
        """a comparison operator: the class's own when it has one"""
        e = self.e
        if isinstance(vs[0], Struct) and vs[0].cls in e.prog.classes:
            tn, cc = e.prog.classes[vs[0].cls]
            for m in cc.get("methods", []):
                r = e.prog.ref(tn, m)
                if r and r["n"] == name and len(r["ps"]) == 1:
                    return e.call(s, m, e.alloc(s, vs[0], "c"), [vs[1]], n)
            if name == "operator<":
                e.undecided("order of %s" % vs[0].cls, n, s)
        return self.compare(s, name, vs[0], vs[1], n)

    def fold(self, s, items, init, step):
        """step(s, acc, item) -> [(s, acc)]"""
        cur = [(s, init)]
        for x in items:
            nxt = []
            for s2, a in cur:
                if s2.exc is not None:
                    nxt.append((s2, a))
                else:
                    nxt.extend(step(s2, a, x))
            cur = nxt
            if len(cur) > 300:
                raise Undecided("too many cases in an algorithm")
        return cur

    def applyop(self, s, f, dflt, args, n):
        """binary operation -> [(s, v)]"""
        e = self.e
        if f is None:
            a, b = [e.rv(s, x) for x in args]
            if isinstance(a, (Str,)) or isinstance(b, Str):
                return [(s, Str(self.asstr(a).p + self.asstr(b).p))]
            return e.binop(s, dflt, a, b, not (isnum(a) and isnum(b) and (a - b).isint()), None, n)
        return [(s2, e.rv(s2, v) if s2.exc is None else None) for s2, v in e.callval(s, f, [self.arg(s, x) for x in args], n)]

    # -------------------------------------------------------------- algorithms
    def explicit(self, s, name, args, vs, n, ref):
        """-> results, or None when this call is not covered"""
        e = self.e
        vs = [self.asiter(s, x) for x in vs]
        if name in ("inserter", "front_inserter", "back_inserter"):
            return [(s, Struct(name, {"to": PtrV(e.lv(s, args[0])), "at": vs[1] if len(vs) > 1 else None}))]
        if name == "make_move_iterator":
            return [(s, vs[0])]
        if name == "clamp":
            out = []
            for s2, lo in self.ask(s, vs[3] if len(vs) > 3 else None, [vs[0], vs[1]], n):
                if lo:
                    out.append((s2, vs[1]))
                    continue
                for s3, hi in self.ask(s2, vs[3] if len(vs) > 3 else None, [vs[2], vs[0]], n):
                    out.append((s3, vs[2] if hi else vs[0]))
            return out
        if name in ("max", "min") and vs:
            items = None
            if isinstance(vs[0], SeqV):
                items, cmp = e.flat(vs[0]), vs[1] if len(vs) > 1 else None
            elif len(vs) >= 2:
                items, cmp = [vs[0], vs[1]], vs[2] if len(vs) > 2 else None
            if not items:
                return None
            return self.fold(s, items[1:], items[0], lambda s2, a, x: [
                (s3, x if b else a) for s3, b in self.ask(s2, cmp, [a, x] if name == "max" else [x, a], n)])
        if name == "iter_swap":
            out = []
            for s2, x in self.deref_iter(s, vs[0], n):
                for s3, y in self.deref_iter(s2, vs[1], n):
                    self.swap(s3, x, y)
                    out.append((s3, None))
            return out
        if name in ("fill_n", "generate_n", "copy_n", "for_each_n"):
            k = s.facts.norm(vs[1]).const() if isnum(vs[1]) else None
            if k is None:
                return None
            k = int(k)
            if name == "fill_n":
                return self.put(s, vs[0], [vs[2]] * k, n)
            if name == "generate_n":
                return [x for s2, l in self.fold(s, range(k), (), lambda s2, a, _: [
                    (s3, a + (e.rv(s3, v),)) for s3, v in e.callval(s2, vs[2], [], n)]) for x in self.put(s2, vs[0], l, n)]
            i = self.position(s, vs[0], n) if isinstance(vs[0], IterV) and vs[0].pos[0] == "i" else None
            if i is None:
                return None
            end = IterV(vs[0].lv, ("i", P(i + k)), vs[0].kind)
            if self.span(s, vs[0], end, n) is None:
                return None
            if name == "copy_n":
                return self.put(s, vs[2], self.values(s, self.span(s, vs[0], end, n)), n)
            return [(s2, end) for s2, _ in self.fold(s, self.span(s, vs[0], end, n), None, lambda s2, a, x:
                                                    e.callval(s2, vs[2], [x], n))]
        if len(vs) < 2:
            return None
        r = self.span(s, vs[0], vs[1], n)
        if r is None:
            return None
        seq = vs[0].lv
        inplace = isinstance(e.read(s, seq), SeqV)
        vals = self.values(s, r)

        def ret(s2, k):
            """iterator to the k-th element of the range"""
            it = vs[0]
            if not inplace:
                (s3, x), = self.iter_step(s2, it, k, n)
                return x
            return IterV(it.lv, (it.pos[0], it.pos[1] + k), it.kind)

        def setvals(s2, l):
            return self.put(s2, vs[0], l, n)
        if name == "copy" and self.isout(vs[2]):
            return self.put(s, vs[2], vals, n)
        if name == "move" and len(vs) == 3:
            for x in r:
                if isinstance(x, LV):
                    self.moved(s, x)
            return self.put(s, vs[2], vals, n)
        if name in ("copy_if", "remove_copy_if", "remove_copy") and self.isout(vs[2]):
            f = vs[3]
            out = []
            for s2, l in self.fold(s, range(len(r)), (), lambda s2, a, i: [
                    (s3, a + (vals[i],) if b == (name == "copy_if") else a) for s3, b in
                    (self.ask(s2, f, [r[i]], n) if name != "remove_copy" else self.ask(s2, "==", [vals[i], f], n))]):
                out += self.put(s2, vs[2], l, n) if s2.exc is None else [(s2, None)]
            return out
        if name == "transform":
            two = len(vs) > 4
            f = vs[-1]
            dst = vs[3] if two else vs[2]
            if not self.isout(dst):
                return None
            other = None
            if two:
                o = vs[2]
                i = self.position(s, o, n) if isinstance(o, IterV) else None
                if i is None:
                    return None
                other = self.span(s, o, IterV(o.lv, (o.pos[0], P(i + len(r))), o.kind), n)
                if other is None:
                    return [self.ub(s, "second range too short", n)]
            out = []
            for s2, l in self.fold(s, range(len(r)), (), lambda s2, a, i: [
                    (s3, a + (v,)) for s3, v in self.applyop(s2, f, None, [r[i]] + ([other[i]] if two else []), n)]):
                out += self.put(s2, dst, l, n) if s2.exc is None else [(s2, None)]
            return out
        if name in ("accumulate", "reduce"):
            f = vs[3] if len(vs) > 3 else None
            init = vs[2] if len(vs) > 2 else ZERO
            return self.fold(s, r, init, lambda s2, a, x: self.applyop(s2, f, "+", [a, x], n))
        if name in ("inner_product", "transform_reduce") and len(vs) in (4, 6):
            o = vs[2]
            i = self.position(s, o, n) if isinstance(o, IterV) else None
            if i is None:
                return None
            other = self.span(s, o, IterV(o.lv, (o.pos[0], P(i + len(r))), o.kind), n)
            if other is None:
                return [self.ub(s, "second range too short", n)]
            f, g = (vs[4], vs[5]) if len(vs) == 6 else (None, None)

            def step(s2, a, i):
                return e.bind(self.applyop(s2, g, "*", [r[i], other[i]], n), lambda s3, p: self.applyop(s3, f, "+", [a, p], n))
            return self.fold(s, range(len(r)), vs[3], step)
        if name == "lower_bound" or name == "upper_bound" or name == "binary_search" or name == "equal_range":
            f = vs[3] if len(vs) > 3 else None

            def bound(s2, upper):
                cur, out = [(s2, 0)], []
                while cur:
                    s3, k = cur.pop()
                    if k == len(r):
                        out.append((s3, k))
                        continue
                    for s4, b in self.ask(s3, f, [vs[2], r[k]] if upper else [r[k], vs[2]], n):
                        stop = b if upper else not b
                        if stop:
                            out.append((s4, k))
                        else:
                            cur.append((s4, k + 1))
                return out
            if name == "lower_bound":
                return [(s2, ret(s2, k)) for s2, k in bound(s, False)]
            if name == "upper_bound":
                return [(s2, ret(s2, k)) for s2, k in bound(s, True)]
            if name == "equal_range":
                return [(s3, Struct("std::pair", {"first": ret(s3, k), "second": ret(s3, j)})) for s2, k in bound(s, False)
                        for s3, j in bound(s2, True)]
            out = []
            for s2, k in bound(s, False):
                if k == len(r):
                    out.append((s2, F))
                else:
                    out += [(s3, F if b else T) for s3, b in self.ask(s2, f, [vs[2], r[k]], n)]
            return out
        if name in ("equal", "lexicographical_compare", "mismatch", "includes", "set_union", "set_intersection", "set_difference",
                    "merge", "swap_ranges", "search"):
            o = vs[2]
            if not isinstance(o, IterV):
                return None
            if len(vs) > 3 and isinstance(vs[3], IterV) and name != "swap_ranges":
                q = self.span(s, o, vs[3], n)
                rest = vs[4:]
            else:
                i = self.position(s, o, n)
                if i is None:
                    return None
                q = self.span(s, o, IterV(o.lv, (o.pos[0], P(i + len(r))), o.kind), n)
                rest = vs[3:]
                if q is None:
                    return [self.ub(s, "second range too short", n)]
            if q is None:
                return None
            qv = self.values(s, q)
            if name == "swap_ranges":
                return [(s3, it) for s2, it in self.put(s, o, vals, n) for s3, _ in setvals(s2, qv)]
            if name in ("equal", "mismatch"):
                f = rest[0] if rest else "=="
                if name == "equal" and len(r) != len(q):
                    return [(s, F)]
                cur, out = [(s, 0)], []
                while cur:
                    s2, k = cur.pop()
                    if k == min(len(r), len(q)):
                        out.append((s2, T if name == "equal" else k))
                        continue
                    for s3, b in self.ask(s2, f, [r[k], q[k]], n):
                        if b:
                            cur.append((s3, k + 1))
                        else:
                            out.append((s3, F if name == "equal" else k))
                if name == "equal":
                    return out
                return [(s2, Struct("std::pair", {"first": ret(s2, k), "second": self.iter_step(s2, o, P(k), n)[0][1]}))
                        for s2, k in out]
            if name == "lexicographical_compare":
                f = rest[0] if rest else None
                cur, out = [(s, 0)], []
                while cur:
                    s2, k = cur.pop()
                    if k == len(q):
                        out.append((s2, F))
                        continue
                    if k == len(r):
                        out.append((s2, T))
                        continue
                    for s3, b in self.ask(s2, f, [r[k], q[k]], n):
                        if b:
                            out.append((s3, T))
                            continue
                        for s4, c in self.ask(s3, f, [q[k], r[k]], n):
                            if c:
                                out.append((s4, F))
                            else:
                                cur.append((s4, k + 1))
                return out
            if name.startswith("set_") or name == "merge" or name == "includes":
                f = rest[1] if name != "includes" and len(rest) > 1 else rest[0] if name == "includes" and rest else None
                dst = rest[0] if name != "includes" else None
                # (position in r, position in q, output)
                cur, out = [(s, 0, 0, (), True)], []
                while cur:
                    s2, i, j, l, ok = cur.pop()
                    if i == len(r) or j == len(q):
                        if name in ("set_union", "merge"):
                            l = l + tuple(vals[i:]) + tuple(qv[j:])
                        elif name == "set_difference":
                            l = l + tuple(vals[i:])
                        elif name == "includes" and j < len(q):
                            ok = False
                        if name == "includes":
                            out.append((s2, T if ok else F))
                        else:
                            out += self.put(s2, dst, l, n)
                        continue
                    for s3, qlt in self.ask(s2, f, [q[j], r[i]], n):
                        if qlt:
                            cur.append((s3, i, j + 1, l + (qv[j],) if name in ("set_union", "merge") else l, False
                                        if name == "includes" else ok))
                            continue
                        if name == "merge":
                            cur.append((s3, i + 1, j, l + (vals[i],), ok))
                            continue
                        for s4, rlt in self.ask(s3, f, [r[i], q[j]], n):
                            if rlt:
                                cur.append((s4, i + 1, j, l + (vals[i],) if name in ("set_union", "set_difference") else l, ok))
                            else:
                                cur.append((s4, i + 1, j + 1,
                                            l + (vals[i],) if name in ("set_union", "set_intersection") else l, ok))
                return out
            return None
        if name in ("is_sorted", "adjacent_find"):
            f = vs[2] if len(vs) > 2 else (None if name == "is_sorted" else "==")
            cur, out = [(s, 1)], []
            while cur:
                s2, k = cur.pop()
                if k >= len(r):
                    out.append((s2, T if name == "is_sorted" else vs[1]))
                    continue
                for s3, b in self.ask(s2, f, [r[k], r[k - 1]] if name == "is_sorted" else [r[k - 1], r[k]], n):
                    if b:
                        out.append((s3, F if name == "is_sorted" else ret(s3, k - 1)))
                    else:
                        cur.append((s3, k + 1))
            return out
        if name == "minmax_element":
            f = vs[2] if len(vs) > 2 else None
            if not r:
                return [(s, Struct("std::pair", {"first": vs[1], "second": vs[1]}))]

            def step(s2, a, k):
                lo, hi = a
                out = []
                for s3, b in self.ask(s2, f, [r[k], r[lo]], n):
                    for s4, c in self.ask(s3, f, [r[k], r[hi]], n):
                        out.append((s4, (k if b else lo, hi if c else k)))
                return out
            return [(s2, Struct("std::pair", {"first": ret(s2, a[0]), "second": ret(s2, a[1])}))
                    for s2, a in self.fold(s, range(1, len(r)), (0, 0), step)]
        if name in ("adjacent_difference", "partial_sum", "inclusive_scan"):
            f = vs[3] if len(vs) > 3 else None
            out = []

            def step(s2, l, k):
                if k == 0:
                    return [(s2, (vals[0],))]
                if name == "adjacent_difference":
                    return [(s3, l + (v,)) for s3, v in self.applyop(s2, f, "-", [vals[k], vals[k - 1]], n)]
                return [(s3, l + (v,)) for s3, v in self.applyop(s2, f, "+", [l[-1], vals[k]], n)]
            for s2, l in self.fold(s, range(len(vals)), (), step):
                out += self.put(s2, vs[2], l, n) if s2.exc is None else [(s2, None)]
            return out
        if not inplace:
            return None
        if name == "reverse":
            return [(s2, None) for s2, _ in setvals(s, vals[::-1])]
        if name == "fill":
            return [(s2, None) for s2, _ in setvals(s, [vs[2]] * len(r))]
        if name == "iota":
            return [(s2, None) for s2, _ in setvals(s, [vs[2] + k for k in range(len(r))])]
        if name == "generate":
            out = []
            for s2, l in self.fold(s, r, (), lambda s2, a, _: [(s3, a + (e.rv(s3, v) if s3.exc is None else None,))
                                                               for s3, v in e.callval(s2, vs[2], [], n)]):
                out += setvals(s2, l) if s2.exc is None else [(s2, None)]
            return [(s2, None) for s2, _ in out]
        if name in ("remove", "remove_if", "unique", "replace", "replace_if", "partition", "stable_partition"):

            def dec(s2, a, k):
                kept, cut = a
                if name in ("remove", "replace"):
                    rs = self.ask(s2, "==", [vals[k], vs[2]], n)
                elif name == "unique":
                    if not kept:
                        return [(s2, (kept + (vals[k],), cut))]
                    rs = self.ask(s2, vs[2] if len(vs) > 2 else "==", [kept[-1], vals[k]], n)
                else:
                    rs = self.ask(s2, vs[2], [r[k]], n)
                out = []
                for s3, b in rs:
                    if s3.exc is not None:
                        out.append((s3, None))
                    elif name.startswith("replace"):
                        out.append((s3, (kept + (vs[3] if b else vals[k],), cut)))
                    elif name.endswith("partition"):
                        out.append((s3, (kept + (vals[k],), cut) if b else (kept, cut + (vals[k],))))
                    else:
                        out.append((s3, (kept, cut) if b else (kept + (vals[k],), cut)))
                return out
            out = []
            for s2, a in self.fold(s, range(len(r)), ((), ()), dec):
                if s2.exc is not None:
                    out.append((s2, None))
                    continue
                kept, cut = a
                # what lies behind the new end is unspecified
                rest = cut if name.endswith("partition") else tuple(
                    Opq(("leftover", e.nextfresh())) for _ in range(len(r) - len(kept)))
                if name == "partition" and len(cut) > 1:
                    e.undecided("order after std::partition", n, s2)
                g = list(e.flat(e.read(s2, seq)))
                base = self.position(s2, vs[0], n)
                for k, x in enumerate(kept + rest):
                    g[base + k if vs[0].pos[0] == "i" else len(g) - 1 - base - k] = x
                self.store(s2, seq, g)
                out.append((s2, None if name.startswith("replace") else ret(s2, len(kept))))
            return out
        if name == "rotate":
            q = self.span(s, vs[0], vs[1], n)
            whole = self.span(s, vs[0], vs[2], n)
            if whole is None:
                return None
            w = self.values(s, whole)
            return [(s2, ret(s2, len(w) - len(q))) for s2, _ in setvals(s, w[len(q):] + w[:len(q)])]
        if name in ("stable_sort", "sort") and len(r) <= 8:
            f = vs[2] if len(vs) > 2 else None
            cur = [(s, ())]
            for k in range(len(r)):
                nxt = []
                todo = [(s2, l, len(l)) for s2, l in cur]
                while todo:
                    s2, l, i = todo.pop()
                    if i == 0:
                        nxt.append((s2, (k,) + l))
                        continue
                    for s3, b in self.ask(s2, f, [vals[k], vals[l[i - 1]]], n):
                        if s3.exc is not None:
                            raise Undecided("comparison throws")
                        if b:
                            todo.append((s3, l, i - 1))
                        else:
                            nxt.append((s3, l[:i] + (k,) + l[i:]))
                cur = nxt
                if len(cur) > 200:
                    raise Undecided("too many orders")
            return [(s3, None) for s2, l in cur for s3, _ in setvals(s2, [vals[i] for i in l])]
        return None
