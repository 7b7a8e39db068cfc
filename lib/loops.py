"""Loops.

A loop is stepped while facts decide its condition. At the first undecided condition it is summarised: one iteration is
analysed from a head state in which every modified cell holds a loop-carried symbol; the resulting recurrences are
solved in closed form (induction variables, gated reductions, previous-iteration values, appended sequences, consumed
prefixes); the exits are analysed from the head state of the k-th iteration. A loop whose state does not fit is
unrolled when the shape of the state bounds it; otherwise the analysis answers `undecided`."""
from values import *
from facts import Facts
from terms import _collect, _list

MAXUNROLL = 40      # iterations entered without knowing the condition
MAXSTEPS = 2500      # iterations in all
MAXFORKS = 400


class NoSummary(Exception):
    pass


def iterate(e, h, cond, body, inc):
    """one iteration from head state h -> (continuing states, exits [(kind, st, v)])"""
    conts, exits = [], []
    for s1, c in cond(h):
        if s1.exc is not None:
            exits.append(("t", s1, None))
            continue
        for b, s2 in e.branch(s1, c):
            if not b:
                exits.append(("n", s2, None))
                continue
            for k, s3, v in body(s2):
                if k in ("n", "c"):
                    for s4, _ in inc(s3):
                        if s4.exc is not None:
                            exits.append(("t", s4, None))
                        else:
                            conts.append(s4)
                elif k == "b":
                    exits.append(("n", s3, None))
                else:
                    exits.append((k, s3, v))
    return conts, exits


def run_loop(e, st, cond, body, inc, n, dowhile=False):
    """-> [(kind, st, value)]"""
    out = []
    cur = [st]
    if dowhile:
        one = lambda s: [(s, T)]
        conts, exits = iterate(e, st, one, body, inc)
        out += exits
        cur = conts
    open_ = 0
    for it in range(MAXSTEPS):
        nxt = []
        if open_ > MAXUNROLL:
            break
        known = True
        for s in cur:
            if not decided(e, s, cond):
                known = False
                keep, e.lost = e.lost, None
                try:
                    snap = s.copy()
                    r, resume = summary(e, snap, cond, body, inc, n)
                    e.lost = keep
                    out += r
                    for x in resume:
                        out += run_loop(e, x, cond, body, inc, n)
                    continue
                except NoSummary as ex:
                    pass
                finally:
                    e.lost = keep
            conts, exits = iterate(e, s, cond, body, inc)
            out += exits
            nxt += conts
        cur = nxt
        open_ += not known
        if not cur:
            return out
        if len(cur) + len(out) > MAXFORKS:
            e.undecided("loop with too many paths", n, st)
    e.undecided("loop without a bound", n, st)


def decided(e, s, cond):
    p = s.copy()
    rs = cond(p)
    if len(rs) != 1:
        return False
    s1, c = rs[0]
    if s1.exc is not None:
        return True
    return s1.facts.query(c) is not None


# ---------------------------------------------------------------------------- cells
def getp(v, path):
    for k in path:
        v = v.ents[k][1] if isinstance(k, int) else v.f[k]
    return v


def setp(v, path, x):
    if not path:
        return x
    k = path[0]
    if isinstance(k, int):
        ents = list(v.ents)
        ents[k] = (ents[k][0], setp(ents[k][1], path[1:], x), ents[k][2])
        return MapV(v.kty, v.vty, v.base, ents)
    return v.set(k, setp(v.f[k], path[1:], x))


def changed(e, h, s):
    """cells of h whose value differs in s: list of (loc, path)"""
    r = []
    for loc, v in h.store.items():
        w = s.store.get(loc)
        if w is v or w == v:
            continue
        r += diff(v, w, loc, ())
    for loc in s.store:
        if loc not in h.store and isinstance(loc, tuple) and loc[0] == "heap":
            e.heap(h, loc)
            if s.store[loc] != h.store[loc]:
                r += diff(h.store[loc], s.store[loc], loc, ())
    return r


def diff(v, w, loc, path):
    if v is w or v == w:
        return []
    if isinstance(v, Struct) and isinstance(w, Struct) and v.cls == w.cls and v.f.keys() == w.f.keys():
        r = []
        for k in v.f:
            r += diff(v.f[k], w.f[k], loc, path + (k,))
        return r
    if isinstance(v, MapV) and isinstance(w, MapV) and v.base == w.base and len(v.ents) == len(w.ents) and \
            all(a[0] == b[0] and a[2] == b[2] and (a[1] is ABSENT) == (b[1] is ABSENT) for a, b in zip(v.ents, w.ents)):
        r = []
        for i, (a, b) in enumerate(zip(v.ents, w.ents)):
            if a[1] is not ABSENT:
                r += diff(a[1], b[1], loc, path + (i,))
        return r
    return [(loc, path)]


def cell_ok(v, w):
    """w can be a later value of a cell that held v"""
    if isnum(v) and isnum(w):
        return True
    if iscond(v) and iscond(w):
        return True
    if isinstance(v, SeqV) and isinstance(w, SeqV):
        if v.base != w.base:
            return False
        t = v.tail
        return w.tail[:len(t)] == t
    if isinstance(v, IterV) and isinstance(w, IterV):
        return v.lv == w.lv and v.kind == w.kind and v.pos[0] == w.pos[0] == "i"
    return False


def conform(e, h, s):
    for loc, path in changed(e, h, s):
        v, w = getp(h.store[loc], path), getp(s.store[loc], path)
        if not cell_ok(v, w):
            return False
    if s.events != h.events and tuple(s.events[len(h.events):]):
        return False
    return len(s.frames) == len(h.frames)


# ---------------------------------------------------------------------------- summaries
class Leaf:
    """one loop-carried quantity"""

    def __init__(self, kind, cell, v0, x):
        self.kind = kind      # num | bool | lo | hi | pos | tail
        self.cell = cell
        self.v0 = v0
        self.x = x            # Atom (num/bool) or chunk piece (tail)
        self.closed = None
        self.lin = None       # guessed constant step


def slim(g):
    """gate without the conjuncts the others imply"""
    if g[0] != "and":
        return g
    cs = list(g[1:])
    i = 0
    while i < len(cs) and len(cs) > 1:
        f = Facts()
        for j, c in enumerate(cs):
            if j != i:
                f.assume(c)
        if f.dead:
            return F
        if f.query(cs[i]) is True:
            cs.pop(i)
        else:
            i += 1
    return c_and(*cs)


def conjuncts(g):
    return list(g[1:]) if g[0] == "and" else ([] if g == T else [g])


def covers(gates):
    """the gates leave no case out"""
    def rest(i, f):
        if f.dead:
            return True
        if i == len(gates):
            return False
        for c in conjuncts(gates[i]):
            g = f.copy()
            if g.assume(c_not(c)) and not rest(i + 1, g):
                return False
        return True
    if len(gates) > 7:
        return False
    return rest(0, Facts())


def relative(gates):
    """-> (condition common to all gates, gates relative to it)"""
    common = [c for c in conjuncts(gates[0]) if all(c in conjuncts(g) for g in gates[1:])]
    rel = [c_and(*[c for c in conjuncts(g) if c not in common]) for g in gates]
    return c_and(*common), [slim(g) for g in rel]


def union(gates):
    if any(g == T for g in gates) or covers(gates):
        return T
    return c_or(*gates)


def grouped(vals, gates):
    _, gates = relative(gates)
    gr = []
    for v, g in zip(vals, gates):
        for x in gr:
            if x[0] == v:
                x[1].append(g)
                break
        else:
            gr.append((v, [g]))
    return gr


def merge_num(vals, gates):
    gr = grouped(vals, gates)
    d = next((x for x in gr if x[0] == ZERO), gr[-1])
    r = d[0]
    for v, gs in gr:
        if v is not d[0]:
            r = r + ite(union(gs), v - d[0], ZERO)
    return r


def merge_cond(vals, gates):
    gr = grouped(vals, gates)
    return c_or(*[c_and(union(gs), v) for v, gs in gr]) if len(gr) > 1 else gr[0][0]


def merge_val(vals, gates):
    if all(v == vals[0] for v in vals):
        return vals[0]
    if all(isnum(v) for v in vals):
        return merge_num(vals, gates)
    if all(iscond(v) for v in vals):
        return merge_cond(vals, gates)
    if all(isinstance(v, Struct) and v.cls == vals[0].cls and v.f.keys() == vals[0].f.keys() for v in vals):
        return Struct(vals[0].cls, {k: merge_val([v.f[k] for v in vals], gates) for k in vals[0].f})
    raise NoSummary("values of different shape")


def rbound(x):
    """a bound variable for a repeated piece that does not occur in x"""
    i = 0
    used = atoms_of(x)
    while True:
        a = atom(("rj", i), True, True)
        if a.id not in used:
            return a
        i += 1


def mk_rep(k, n, gate, pieces):
    """pieces repeated for k = 0..n-1, the bound variable renamed canonically"""
    if gate == F or n == ZERO:
        return ()
    b = rbound((gate, pieces))
    s = Sub({k: P(b)})
    return (("rep", b, n, deep(gate, s), deep(pieces, s)),)


def mentions(x, ids):
    return bool(atoms_of(x) & ids)


def summary(e, st, cond, body, inc, n):
    # which cells does an iteration change
    probe = st.copy()
    conts, _ = iterate(e, probe.copy(), cond, body, inc)
    for s in conts:
        for loc in s.store:
            if loc not in st.store and isinstance(loc, tuple) and loc[0] == "heap":
                e.heap(st, loc)
    good = [s for s in conts if conform(e, st, s)]
    if not good:
        raise NoSummary("no conforming iteration")
    cells = {}
    for s in good:
        for c in changed(e, st, s):
            cells.setdefault(c, []).append(s)
    k = e.itatom()
    guess = {}
    for (loc, path), ss in cells.items():
        v0 = getp(st.store[loc], path)
        if len(ss) == len(good):
            for part in ("num", "lo", "hi", "pos"):
                d = set()
                for s in ss:
                    a, b = comp(v0, part), comp(getp(s.store[loc], path), part)
                    d.add((b - a) if a is not None and b is not None else None)
                if len(d) == 1:
                    x = d.pop()
                    if x is not None and x.const() is not None:
                        guess[(loc, path, part)] = x
    live = set()      # the parts of sequences that change

    def note(a, s):
        grew = False
        for loc, path in changed(e, a, s):
            v, w = getp(a.store[loc], path), getp(s.store[loc], path)
            if isinstance(v, SeqV):
                for part, x, y in (("lo", v.lo, w.lo), ("hi", v.hi, w.hi), ("tail", v.tail, w.tail)):
                    if x != y and (loc, path, part) not in live:
                        live.add((loc, path, part))
                        grew = True
        return grew
    for s in good:
        note(st, s)
    for attempt in range(20):
        L = []
        h = st.copy()
        for loc, path in cells:
            v0 = getp(st.store[loc], path)
            parts, nv = carried(e, v0, (loc, path), guess, k, live)
            L += parts
            h.store[loc] = setp(h.store[loc], path, nv)
        base = len(h.pc)
        h0 = h.copy()
        conts, exits = iterate(e, h, cond, body, inc)
        for s in conts:
            for loc in s.store:
                if loc not in h0.store and isinstance(loc, tuple) and loc[0] == "heap":
                    e.heap(h0, loc)
                    e.heap(st, loc)
        good = [s for s in conts if conform(e, h0, s)]
        if not good:
            raise NoSummary("no conforming iteration")
        new = False
        for s in good:
            for c in changed(e, h0, s):
                if c not in cells:
                    cells[c] = []
                    new = True
            new |= note(h0, s)
        if new:
            continue
        gates = [c_and(*s.pc[base:]) for s in good]
        bad = []
        for l in L:
            if l.lin is not None:
                key = l.cell + (l.kind,)
                for s in good:
                    if comp(getp(s.store[l.cell[0]], l.cell[1]), l.kind) != l.v0 + l.lin * (P(k) + 1):
                        bad.append(key)
                        break
        if bad:
            for b in bad:
                guess.pop(b, None)
            continue
        break
    else:
        raise NoSummary("no fixpoint of the changed cells")
    cont = solve(e, L, good, gates, k)
    common, rel = relative(cont)
    cont = c_and(common, union(rel))
    # head state of iteration k
    H = st.copy()
    byc = {}
    for l in L:
        byc.setdefault(l.cell, []).append(l)
    for (loc, path), ls in byc.items():
        v = getp(st.store[loc], path)
        for l in ls:
            v = place(v, l, k)
        H.store[loc] = setp(H.store[loc], path, v)
    outs, resume = [], []
    # no iteration completed
    c0, x0 = iterate(e, st.copy(), cond, body, inc)
    outs += x0
    resume += [s for s in c0 if not conform(e, st, s)]
    # at least one
    if not H.assume(c_le(1 - P(k))):
        return outs, resume
    b = rbound(cont)
    H.facts.alls.append((b, P(k), deep(cont, Sub({k: P(b)}))))
    if not H.assume(deep(cont, Sub({k: P(k) - 1}))):
        return outs, resume
    H0 = H.copy()
    c1, x1 = iterate(e, H, cond, body, inc)
    outs += x1
    resume += [s for s in c1 if not conform(e, H0, s)]
    return outs, resume


def comp(v, part):
    if part == "num":
        return v if isnum(v) else None
    if part == "bool":
        return v if iscond(v) else None
    if part == "lo":
        return v.lo if isinstance(v, SeqV) else None
    if part == "hi":
        return v.hi if isinstance(v, SeqV) else None
    if part == "pos":
        return v.pos[1] if isinstance(v, IterV) and v.pos[0] == "i" else None
    return None


def carried(e, v0, cell, guess, k, live):
    """-> ([Leaf], value at the loop head)"""
    def num(part, x0):
        l = Leaf(part, cell, x0, None)
        g = guess.get(cell + (part,))
        if g is not None:
            l.lin = g
            l.closed = x0 + g * P(k)
            return l, l.closed
        l.x = atom(("lc", e.nextfresh()), x0.isint(), False)
        return l, P(l.x)
    if isnum(v0):
        l, v = num("num", v0)
        return [l], v
    if iscond(v0):
        l = Leaf("bool", cell, v0, atom(("lc", e.nextfresh())))
        return [l], c_bool(l.x)
    if isinstance(v0, IterV):
        if v0.pos[0] != "i":
            raise NoSummary("loop-carried %r" % (v0,))
        l, v = num("pos", v0.pos[1])
        return [l], IterV(v0.lv, ("i", v), v0.kind)
    if isinstance(v0, SeqV):
        ls = []
        lo, hi, tail = v0.lo, v0.hi, v0.tail
        if cell + ("lo",) in live:
            l, lo = num("lo", v0.lo)
            ls.append(l)
        if cell + ("hi",) in live:
            if v0.tail:
                raise NoSummary("sequence consumed at the end behind appended elements")
            l, hi = num("hi", v0.hi)
            ls.append(l)
        if cell + ("tail",) in live:
            t = Leaf("tail", cell, v0.tail, ("chunk", ("hole", e.nextfresh()), P(atom(("lc", e.nextfresh()), True, True))))
            ls.append(t)
            tail = v0.tail + (t.x,)
        return ls, SeqV(v0.ety, v0.base, lo, hi, tail)
    raise NoSummary("loop-carried %r" % (v0,))


def place(v, l, k):
    if l.kind in ("num", "bool"):
        return l.closed
    if l.kind == "pos":
        return IterV(v.lv, ("i", l.closed), v.kind)
    if l.kind == "lo":
        return SeqV(v.ety, v.base, l.closed, v.hi, v.tail)
    if l.kind == "hi":
        return SeqV(v.ety, v.base, v.lo, l.closed, v.tail)
    return SeqV(v.ety, v.base, v.lo, v.hi, l.v0 + l.closed)


def bool_subst(c, m):
    k = c[0]
    if k == "b" and c[1].id in m:
        return m[c[1].id]
    if k == "nb" and c[1].id in m:
        return c_not(m[c[1].id])
    if k == "and":
        return c_and(*[bool_subst(x, m) for x in c[1:]])
    if k == "or":
        return c_or(*[bool_subst(x, m) for x in c[1:]])
    return c


def solve(e, L, good, gates, k):
    K = P(k)
    prev = Sub({k: K - 1})
    todo = []
    for l in L:
        if l.lin is not None:
            continue
        us = []
        for s in good:
            w = getp(s.store[l.cell[0]], l.cell[1])
            if l.kind == "tail":
                m = len(l.v0) + 1
                us.append(w.tail[m:])
            else:
                us.append(comp(w, l.kind))
        todo.append([l, us])
    gates = list(gates)
    open_ = {l.x.id for l, _ in todo if l.kind != "tail"}
    open_ |= {l.x[2].atoms() and next(iter(l.x[2].atoms())) for l, _ in todo if l.kind == "tail"}

    def substitute(a, val):
        nonlocal gates
        if isnum(val):
            f = Sub({a: val})
            gates = [deep(g, f) for g in gates]
            for t in todo:
                t[1] = [deep(u, f) for u in t[1]]
        else:
            m = {a.id: val}
            gates = [bool_subst(g, m) for g in gates]
            for t in todo:
                t[1] = [bool_subst(u, m) if iscond(u) else u for u in t[1]]
        open_.discard(a.id)

    progress = True
    while todo and progress:
        progress = False
        for t in list(todo):
            l, us = t
            if l.kind == "tail":
                continue
            if l.kind == "bool":
                x = c_bool(l.x)
                E = None
                if all(u == x for u in us):
                    E = l.v0
                elif all(u == x or u == T for u in us):
                    g = union([gt for u, gt in zip(us, relative(gates)[1]) if u == T])
                    if not mentions(g, open_):
                        b = rbound(g)
                        E = c_or(l.v0, c_bool(atom(("any", b, K, deep(g, Sub({k: P(b)}))))))
                elif all(u == x or u == F for u in us):
                    g = union([gt for u, gt in zip(us, relative(gates)[1]) if u == F])
                    if not mentions(g, open_):
                        b = rbound(g)
                        E = c_and(l.v0, c_not(c_bool(atom(("any", b, K, deep(g, Sub({k: P(b)})))))))
                else:
                    m = merge_cond(us, gates)
                    if not mentions(m, open_):
                        E = c_or(c_and(c_le(1 - K), deep(m, prev)), c_and(c_eq(K), l.v0))
                if E is None:
                    continue
                l.closed = E
                todo.remove(t)
                substitute(l.x, E)
                progress = True
                continue
            x = P(l.x)
            ds = [u - x for u in us]
            if not any(mentions(d, open_) for d in ds) and \
                    (all(d == ds[0] for d in ds) or not any(mentions(g, open_) for g in gates)):
                D = ds[0] if all(d == ds[0] for d in ds) else merge_num(ds, gates)
                l.closed = l.v0 + (D * K if not mentions(D, {k.id}) else summation(D, K, k))
            else:
                if all(u == us[0] for u in us):
                    m = us[0]
                else:
                    m = merge_num(us, gates)
                if mentions(m, open_):
                    continue
                l.closed = ite(c_le(1 - K), deep(m, prev), l.v0)
            todo.remove(t)
            substitute(l.x, l.closed)
            progress = True
        for t in list(todo):
            l, us = t
            if l.kind != "tail":
                continue
            non = [i for i, u in enumerate(us) if u]
            if not non:
                l.closed = ()
            else:
                if any(mentions(us[i], open_) for i in non):
                    continue
                m = len(us[non[0]])
                if any(len(us[i]) != m or any(p[0] != "e" for p in us[i]) for i in non) and len(non) > 1:
                    raise NoSummary("appends differ between paths")
                gs = [gates[i] for i in non]
                gate = T if len(non) == len(us) else union([relative(gates)[1][i] for i in non])
                if mentions(gate, open_) or (len(non) > 1 and any(mentions(g, open_) for g in gs)):
                    continue
                if len(non) == 1:
                    pieces = us[non[0]]
                else:
                    pieces = tuple(("e", merge_val([us[i][j][1] for i in non], gs)) for j in range(m))
                l.closed = mk_rep(k, K, gate, pieces)
            todo.remove(t)
            size = ZERO
            for p in l.closed:
                size = size + psize(p)
            a = by_id(next(iter(l.x[2].atoms())))
            substitute(a, size)
            # references to the hole itself would be reads of the appended part
            progress = True
    for l, us in todo:
        if l.kind == "tail" or l.kind == "bool":
            raise NoSummary("recurrence not solved")
        l.closed = P(atom(("opq", "loop", e.nextfresh(), K), l.v0.isint(), False))
        open_.discard(l.x.id)
    # opaque recurrences may occur in other closed forms through their symbols
    m = {l.x: l.closed for l in L if l.lin is None and l.kind not in ("tail", "bool")}
    f = Sub(m)
    for l in L:
        l.closed = deep(l.closed, f)
    return [deep(g, f) for g in gates]
