"""What each operator has to do, as transition systems over abstract variables (see sim.py).

Time values are natural numbers, values are real numbers."""
import itertools
from values import *
from sim import Ev, UNDEF, ANYOUT, indices, prove_all, instantiate, Infeasible
from compare import ANYNUM
import terms

from fractions import Fraction

MANY = (4, 11)        # more ports, among them counts beyond one digit, on chosen histories only
PI = Fraction(3.1415926535897932)
MAXSZ = (1 << 64) - 1


# ---------------------------------------------------------------- sequences of messages
def seqvar(name, msgty):
    key = ("W", name)
    n = P(atom(("len", key), True, True))
    return SeqV(msgty, key, ZERO, n, ())


def push(w, m):
    return SeqV(w.ety, w.base, w.lo, w.hi, w.tail + (("e", m),))


def pop(ctx, w):
    """w without its first element; the caller knows that it is not empty"""
    if w.base is not None and ctx.when(c_lt(w.lo - w.hi)):
        return SeqV(w.ety, w.base, w.lo + 1, w.hi, w.tail)
    t = w.tail
    if not t:
        raise Undecided("specification pops an empty sequence")
    return SeqV(w.ety, None, ZERO, ZERO, t[1:])


def length(w):
    return seq_len(w)


class Spec:
    """base: data ports with bounded windows, one output"""
    name = None
    top = 130                # the largest number in the code histories are made for
    ordered = None           # times of the messages of a port: None any, "le" never smaller, "lt" growing

    def __init__(self, an):
        self.an = an
        self.e = an.e
        self._msgty = None
        self.tag = ""
        self.tier = "quick"

    def deep(self, quick, thorough):
        return quick if self.tier == "quick" else quick + thorough

    # -------------------------------------------------------- helpers
    def msgty(self, an=None):
        if self._msgty is None:
            u = self.an.cls("Message")
            self._msgty = self.an.p.tyof(lambda t: t.k == "rec" and t.usr == u)
        return self._msgty

    def t(self, m):
        return m.f["Message::time"]

    def v(self, m):
        return m.f["Message::value"]

    def msg(self, t, v):
        return self.an.msg(P(t), P(v))

    def at(self, ctx, w, i):
        """element i of w (i within it)"""
        i = P(i)
        n0 = w.hi - w.lo
        if w.base is not None:
            if not w.tail or ctx.when(c_lt(i - n0)):
                return self.e.symval(self.msgty(), ("at", w.base, w.lo + i))
        else:
            n0 = ZERO
        off = i - n0
        for p in w.tail:
            d = ctx.facts.norm(off)
            if p[0] == "e":
                if d.const() == 0 or ctx.when(c_eq(d)):
                    return p[1]
                off = off - 1
            else:
                raise Undecided("specification: element of a summarised piece")
        raise Undecided("specification: element %s of %r" % (show(i), w))

    def last(self, ctx, w):
        if w.tail and w.tail[-1][0] == "e":
            return w.tail[-1][1]
        return self.at(ctx, w, length(w) - 1)

    def first(self, ctx, w):
        if w.base is None:
            return w.tail[0][1]
        return self.at(ctx, w, 0)

    def agg(self, w, f):
        """sum of f(message, index) over w"""
        k = self.e.itatom()
        r = ZERO
        n = ZERO
        if w.base is not None:
            n = w.hi - w.lo
            m = self.e.symval(self.msgty(), ("at", w.base, w.lo + P(k)))
            r = summation(f(m, P(k)), n, k)
        for p in w.tail:
            if p[0] != "e":
                raise Undecided("specification: aggregate over a summarised piece")
            r = r + f(p[1], n)
            n = n + 1
        return r

    def total(self, w):
        return self.agg(w, lambda m, i: self.v(m))

    def isvalue(self, x):
        return x

    def drop(self, ctx, w, tm):
        """w without its leading messages older than tm"""
        while w.base is None or w.tail:
            # explicit elements
            if ctx.when(c_le(length(w))) or not ctx.when(c_lt(self.t(self.first(ctx, w)) - tm)):
                return w
            w = pop(ctx, w)
            if w.base is None and not w.tail:
                return w
        n = length(w)
        if ctx.when(c_le(n)):
            return w
        idx = indices(ctx.facts)
        cand = {ZERO: 1, n: 1}
        for i in idx:
            cand[i - w.lo] = cand[i - w.lo + 1] = 1
        if ctx.state is not None:
            for sq in seqs_of(ctx.state, w.base):
                cand[sq.lo - w.lo] = 1
        k = self.e.itatom()
        old = lambda i: c_lt(self.t(self.e.symval(self.msgty(), ("at", w.base, w.lo + i))) - tm)
        for d in cand:
            f = ctx.facts
            if f.query(c_le(-d)) is not True or f.query(c_le(d - n)) is not True:
                continue
            if f.query(c_eq(d - n)) is not True and f.query(old(d)) is not False:
                continue
            if d.m and prove_all(f, idx, k, d, old(P(k))) is not True:
                continue
            some = f.query(c_le(1 - d))
            if some is None:
                g = f.copy()
                if not g.assume(c_eq(d)):
                    some = f.assume(c_le(1 - d))
            if some and not (f.assume(old(d - 1)) and instantiate(f, (d - 1, d))):
                raise Infeasible()
            return SeqV(w.ety, w.base, f.norm(w.lo + d), w.hi, w.tail)
        raise Undecided("specification: number of dropped messages")

    # -------------------------------------------------------- interface of sim.Sim
    def configs(self):
        raise NotImplementedError

    def configs_for(self, tier):
        self.tier = tier
        return self.configs()

    def cfg(self, label, args, conds=(), **kw):
        """a configuration: arguments by constructor parameter position after the id"""
        cls = self.an.cls(self.name)
        idv = S("op")
        want = 1 + len(args)
        best = None
        for u, f, ps in self.an.ctors(cls):
            if len(ps) >= 1 and len(ps) == want:
                best = (u, ps)
        if best is None:
            for u, f, ps in self.an.ctors(cls):
                if len(ps) > want and want > 1:
                    best = (u, ps)
        if best is None:
            raise Undecided("no constructor of %s with %d parameters" % (self.name, want))
        c = {"cls": cls, "ctor": best[0], "args": [idv] + list(args), "conds": tuple(conds), "label": label, "id": idv,
             "op": self.name}
        c.update(kw)
        return c

    def small(self, cfg):
        """instances of the configuration with constant sizes, for the event histories"""
        return [cfg]

    def reach(self, cfg, v):
        """what is known of reachable states beyond inv: conditions and quantified conditions"""
        alls = []
        for p in list(self.ports(cfg)) + list(self.cports(cfg)):
            w = v.get("w " + p)
            if w is not None and w.base is not None and not w.tail:
                k = self.e.itatom()
                a = self.e.symval(self.msgty(), ("at", w.base, w.lo + P(k)))
                b = self.e.symval(self.msgty(), ("at", w.base, w.lo + P(k) + 1))
                alls.append((k, length(w) - 1, c_lt(self.t(a) - self.t(b))))
        return [], alls

    def arg(self, name, kind):
        k = ("cfg", name)
        if kind == "real":
            return P(atom(k))
        if kind == "int":
            return P(atom(k, True, False))
        if kind == "nat":
            return P(atom(k, True, True))
        if kind == "reals":
            return SeqV(None, k, ZERO, P(atom(("len", k), True, True)), ())
        raise ValueError(kind)

    def ports(self, cfg):
        """data ports and the bound of their buffers (None: unbounded)"""
        return {"i1": P(1)}

    def cports(self, cfg):
        return {}

    def bools(self, cfg):
        return ["pending %s" % p for p in self.ports(cfg)] + self.flags(cfg)

    def flags(self, cfg):
        return []

    def extra(self, cfg, bools):
        """further abstract variables"""
        return {}

    def ctor(self, ctx, cfg):
        v = {"pending %s" % p: False for p in self.ports(cfg)}
        for p in list(self.ports(cfg)) + list(self.cports(cfg)):
            v["w " + p] = empty_seq(self.msgty())
        v.update(self.init(ctx, cfg))
        return v

    def init(self, ctx, cfg):
        return {}

    def symbolic(self, cfg, bools):
        v = {}
        for p in list(self.ports(cfg)) + list(self.cports(cfg)):
            v["w " + p] = seqvar(p, self.msgty())
        v.update(self.extra(cfg, bools))
        return v

    def inv(self, cfg, v):
        r = []
        for p, mx in list(self.ports(cfg).items()) + list(self.cports(cfg).items()):
            n = length(v["w " + p])
            if mx is not None:
                r.append(c_le(n - mx))
            if v.get("pending " + p):
                r.append(c_le(1 - n))
        return r + self.invx(cfg, v)

    def invx(self, cfg, v):
        return []

    def env(self, cfg, v):
        """limits of the machine: buffers fit into memory"""
        return [c_le(length(v["w " + p]) - (1 << 31) + 1) for p, mx in
                list(self.ports(cfg).items()) + list(self.cports(cfg).items()) if mx is None]

    def cells(self, cfg, v):
        return {}

    def exprs(self, cfg, v):
        r = {}
        pend = []
        for p in self.ports(cfg):
            if v.get("pending " + p):
                pend.append(p)
        r["pending"] = MapV(None, None, None, [(S(p), UNIT, T) for p in sorted(pend)])
        for p in list(self.ports(cfg)) + list(self.cports(cfg)):
            r["window " + p] = v["w " + p]
            r["sum " + p] = self.total(v["w " + p])
        for b in self.flags(cfg):
            r[b] = T if v[b] else F
        r.update(self.exprx(cfg, v))
        return r

    def exprx(self, cfg, v):
        return {}

    def obs(self, cfg, v):
        r = []
        for p in self.ports(cfg):
            r.append(("getDataInputSize", [S(p)], length(v["w " + p])))
            r.append(("getDataInputSum", [S(p)], self.total(v["w " + p])))
        return r + self.obsx(cfg, v)

    def obsx(self, cfg, v):
        return []

    def events(self, cfg):
        r = []
        for p in self.ports(cfg):
            r.append(Ev("receiveData(%s)" % p, "receiveData", p))
        if len(self.ports(cfg)) == 1:
            r.append(Ev("receiveData()", "receiveData", ""))
        r.append(Ev("receiveData(unknown)", "receiveData", "?"))
        r.append(Ev("executeData()", "executeData", None, False))
        for p in self.cports(cfg):
            r.append(Ev("receiveControl(%s)" % p, "receiveControl", p))
        if self.cports(cfg):
            r.append(Ev("receiveControl(unknown)", "receiveControl", "?"))
            r.append(Ev("executeControl()", "executeControl", None, False))
        return r

    def inputs(self, cfg, v, ev, an):
        if not ev.arg:
            return [], None
        tm = ("s", "time" + self.tag) if ev.group is None else ("s", "time of group %d" % ev.group)
        m = an.msg(P(atom(tm, True, True)) if ev.at is None else P(ev.at), P(atom(("s", "value" + self.tag))) if ev.val is None else P(ev.val))
        port = ev.port
        if port == "?":
            port = "unknown port"
        return [m, S(port)], m

    def assume(self, cfg, v, ev, m):
        """admissible inputs: per port, times grow"""
        p = ev.port or next(iter(self.ports(cfg)))
        if m is None or not self.orders(cfg, p):
            return []
        w = v.get("w " + p)
        r = []
        if w is not None and w.base is not None and not w.tail:
            n = length(w)
            # (n = 0 or last.time < m.time) is only stated when n >= 1 is known
            r.append(c_or(c_le(n), self.later(self.t(self.e.symval(self.msgty(), ("at", w.base, w.hi - 1))), self.t(m))))
        return r

    def orders(self, cfg, p):
        """are the times of the messages of a port ordered?"""
        return self.ordered is not None and p != "?"

    def later(self, a, b):
        return c_lt(a - b) if self.ordered == "lt" else c_le(a - b)

    def chosen(self, cfg):
        """histories for a configuration with many ports: messages of one group have the same time, later groups later ones"""
        ps = list(self.ports(cfg))
        ex = Ev("executeData()", "executeData", None, False)

        def d(p, g, val=None):
            return Ev("receiveData(%s)" % p, "receiveData", p, group=g, val=val)
        yield [d(p, 0) for p in ps] + [ex] + [d(p, 1) for p in reversed(ps)] + [ex]
        for p in ps:
            # one port ahead of the others
            yield [d(p, 0), ex, d(p, 1)] + [d(q, 1) for q in ps if q != p] + [ex, ex]
            yield [d(q, 0) for q in ps if q != p] + [ex, d(p, 0), ex]
        if len(ps) < 6:
            # every port starts later than the one before it; all have the last message
            n = len(ps)
            for o in (ps, ps[::-1], ps[1:] + ps[:1]):
                yield [d(p, g) for i, p in enumerate(o) for g in range(i, n)] + [ex, ex]
                yield [d(p, g) for g in range(n) for i, p in enumerate(o) if g >= i and g - i < 2 or g == n - 1] + [ex, ex]

    def timed(self, cfg, rng):
        """histories with given times"""
        return ()

    def sized(self, cfg, n):
        """the configuration with size n, None when it has no size"""
        return None

    def gaps(self, cfg, n):
        return ()

    def probes(self, cfg, n):
        """histories that go through n messages, for a number n the code mentions: (configuration, events)"""
        ex = [e for e in self.events(cfg) if not e.arg]

        def d(p, g):
            c = p in self.cports(cfg)
            k = "receiveControl" if c else "receiveData"
            return Ev("%s(%s)" % (k, p), k, p, group=g, val=1 if c else None)
        sz = self.sized(cfg, n)
        for c in [sz] if sz is not None else [cfg]:
            ps = list(self.ports(c)) + list(self.cports(c))
            if len(ps) <= 3:
                a = []
                for g in range(n + 2):
                    a += [d(p, g) for p in ps] + ex
                yield c, a
                if None in self.ports(c).values():
                    for q in ps:
                        yield c, [d(q, g) for g in range(n + 1)] + [d(p, g) for p in ps if p != q for g in range(n + 1)] + \
                            ex * (n + 2)
            else:
                for s in self.chosen(c):
                    yield c, s

    def step(self, ctx, cfg, v, ev, m):
        if ev.method == "receiveData":
            if ev.port == "?":
                return ("throw", v)
            p = ev.port or next(iter(self.ports(cfg)))
            return self.receive(ctx, cfg, v, p, m)
        if ev.method == "executeData":
            return self.execute(ctx, cfg, v)
        if ev.method == "receiveControl":
            if ev.port == "?":
                return ("throw", v)
            return self.receivec(ctx, cfg, v, ev.port, m)
        if ev.method == "executeControl":
            return self.executec(ctx, cfg, v)
        raise Undecided("event %s" % ev)

    def receive(self, ctx, cfg, v, p, m):
        mx = self.ports(cfg)[p]
        w = v["w " + p]
        if mx is not None and ctx.when(c_le(mx - length(w))):
            w = pop(ctx, w)
        v["w " + p] = push(w, m)
        v["pending " + p] = True
        return ("ret", {}, v)

    def execute(self, ctx, cfg, v):
        ready = []
        for p, mx in self.ports(cfg).items():
            if v["pending " + p] and mx is not None and ctx.when(c_le(mx - length(v["w " + p]))):
                ready.append(p)
            v["pending " + p] = False
        if not ready:
            return ("ret", {}, v)
        out = self.process(ctx, cfg, v, ready)
        if out == "any":
            return ("any",)
        return ("ret", out, v)

    def process(self, ctx, cfg, v, ready):
        raise NotImplementedError

    def receivec(self, ctx, cfg, v, p, m):
        raise NotImplementedError

    def executec(self, ctx, cfg, v):
        return ("ret", {}, v)


def elem(c, i):
    """element of a sequence of numbers"""
    if c.base is None:
        return c.tail[int(P(i).const())][1]
    return P(atom(("at", c.base, P(i))))


def coeffs(spec, ns):
    r = []
    for n in ns:
        c = SeqV(None, None, ZERO, ZERO, [("e", P(atom(("cfg", "c%d" % (i + 1))))) for i in range(n)])
        r.append(spec.cfg("%d coefficients" % n, [c], n=P(n), c=c))
    return r


class Pointwise(Spec):
    """one message in, at most one message out, from that message alone"""
    formula = "value"

    def process(self, ctx, cfg, v, ready):
        m = self.last(ctx, v["w i1"])
        r = self.out(ctx, cfg, self.t(m), self.v(m))
        return {"o1": [self.msg(*r)]} if r is not None else {}


def simple(nm, argname, f):
    class C(Pointwise):
        name = nm

        def configs(self):
            a = self.arg(argname, "real") if argname else None
            return [self.cfg("any %s" % argname if argname else "", [a] if argname else [], a=a)]

        def out(self, ctx, cfg, t, v):
            return f(ctx, cfg["a"], t, v)
    C.__name__ = nm
    return C


Identity = simple("Identity", None, lambda ctx, a, t, v: (t, v))
Add = simple("Add", "value", lambda ctx, a, t, v: (t, v + a))
Scale = simple("Scale", "value", lambda ctx, a, t, v: (t, v * a))
Constant = simple("Constant", "value", lambda ctx, a, t, v: (t, a))
Power = simple("Power", "value", lambda ctx, a, t, v: (t, app("pow", v, a)))
GreaterThan = simple("GreaterThan", "value", lambda ctx, a, t, v: (t, v) if ctx.when(c_lt(a - v, True)) else None)
LessThan = simple("LessThan", "value", lambda ctx, a, t, v: (t, v) if ctx.when(c_lt(v - a, True)) else None)


class EqualTo(Pointwise):
    name = "EqualTo"

    def configs(self):
        a = self.arg("value", "real")
        return [self.cfg("any value", [a], a=a)]

    def out(self, ctx, cfg, t, v):
        return (t, v) if ctx.when(c_eq(v - cfg["a"])) else None


class TimeShift(Pointwise):
    name = "TimeShift"

    def configs(self):
        dt, times = self.arg("dt", "nat"), self.arg("times", "int")
        r = []
        for lab, c in (("forwards", [c_le(-times)]), ("backwards", [c_lt(times), c_le(1 - dt)]), ("null interval", [c_lt(times), c_eq(dt)])):
            r.append(self.cfg(lab, [dt, times], c, dt=dt, times=times, back=lab == "backwards"))
        return r

    def out(self, ctx, cfg, t, v):
        d = cfg["dt"] * cfg["times"]
        if cfg["back"]:
            return ((t + d) if ctx.when(c_lt(-d - t)) else ZERO, v)
        return (t + d, v)


class Count(Pointwise):
    name = "Count"

    def configs(self):
        return [self.cfg("", [])]

    def init(self, ctx, cfg):
        return {"count": ZERO}

    def extra(self, cfg, b):
        return {"count": P(atom(("s", "count"), True, True))}

    def exprx(self, cfg, v):
        return {"count": v["count"]}

    def process(self, ctx, cfg, v, ready):
        v["count"] = v["count"] + 1
        return {"o1": [self.msg(self.t(self.last(ctx, v["w i1"])), v["count"])]}


class CumulativeSum(Pointwise):
    name = "CumulativeSum"

    def configs(self):
        return [self.cfg("", [])]

    def init(self, ctx, cfg):
        return {"acc": ZERO}

    def extra(self, cfg, b):
        return {"acc": P(atom(("s", "accumulated")))}

    def exprx(self, cfg, v):
        return {"accumulated": v["acc"]}

    def process(self, ctx, cfg, v, ready):
        m = self.last(ctx, v["w i1"])
        v["acc"] = v["acc"] + self.v(m)
        return {"o1": [self.msg(self.t(m), v["acc"])]}


class Difference(Spec):
    name = "Difference"

    def ports(self, cfg):
        return {"i1": P(2)}

    def configs(self):
        return [self.cfg("useOldestTime=%s" % b, [T if b else F], old=b) for b in (True, False)]

    def process(self, ctx, cfg, v, ready):
        w = v["w i1"]
        a, b = self.at(ctx, w, 0), self.at(ctx, w, 1)
        return {"o1": [self.msg(self.t(b if cfg["old"] else a), self.v(b) - self.v(a))]}


class Window(Spec):
    """statistics over the last n messages"""

    def ports(self, cfg):
        return {"i1": cfg["n"]}

    def configs(self):
        n = self.arg("n", "nat")
        return [self.cfg("any n >= %d" % self.least, [n], [c_le(self.least - n), c_le(n - (1 << 31) + 1)], n=n)]
    least = 1

    def small(self, cfg):
        return [self.sized(cfg, n) for n in range(self.least, self.least + 3)]

    def sized(self, cfg, n):
        return self.cfg("n = %d" % n, [P(n)], n=self.size(P(n))) if n >= self.least else None

    def size(self, n):
        return n

    def process(self, ctx, cfg, v, ready):
        return self.stat(ctx, cfg, v, v["w i1"], cfg["n"])


class MovingAverage(Window):
    name = "MovingAverage"

    def stat(self, ctx, cfg, v, w, n):
        return {"o1": [self.msg(self.t(self.last(ctx, w)), self.total(w) * inv(n))]}


class StandardDeviation(Window):
    name = "StandardDeviation"
    least = 2

    def stat(self, ctx, cfg, v, w, n):
        a = self.total(w) * inv(n)
        s = self.agg(w, lambda m, i: (self.v(m) - a) * (self.v(m) - a))
        return {"o1": [self.msg(self.t(self.last(ctx, w)), app("sqrt", s * inv(n - 1)))]}


class FiniteImpulseResponse(Window):
    name = "FiniteImpulseResponse"

    def configs(self):
        c = self.arg("coeff", "reals")
        n = length(c)
        return [self.cfg("any coefficients", [c], [c_le(1 - n), c_le(n - (1 << 31) + 1)], n=n, c=c)]

    def small(self, cfg):
        return coeffs(self, (1, 2, 3))

    def sized(self, cfg, n):
        return coeffs(self, (n,))[0]

    def stat(self, ctx, cfg, v, w, n):
        c = cfg["c"]
        s = self.agg(w, lambda m, i: self.v(m) * elem(c, n - 1 - i))
        return {"o1": [self.msg(self.t(self.last(ctx, w)), s)]}


class PeakDetector(Window):
    name = "PeakDetector"

    def stat(self, ctx, cfg, v, w, n):
        k = self.e.itatom()
        mid = self.e.idiv(n, P(2))
        c = self.at(ctx, w, mid)
        if w.base is None:
            ok = all([ctx.when(c_le(self.v(p[1]) - self.v(c), True)) for p in w.tail])
            return {"o1": [c]} if ok else {}
        x = self.e.symval(self.msgty(), ("at", w.base, w.lo + P(k)))
        if ctx.when_all(k, n, c_le(self.v(x) - self.v(c), True)):
            return {"o1": [c]}
        return {}


class RelativeStrengthIndex(Window):
    name = "RelativeStrengthIndex"

    def configs(self):
        n = self.arg("n", "nat")
        return [self.cfg("any n >= 1", [n], [c_le(1 - n), c_le(n - (1 << 31) + 1)], n=n + 1)]

    def size(self, n):
        return n + 1

    def reach(self, cfg, v):
        c, a = Window.reach(self, cfg, v)
        if v.get("started"):
            c = c + [c_le(-v["gain"], True), c_le(-v["loss"], True)]
        return c, a

    def flags(self, cfg):
        return ["started"]

    def init(self, ctx, cfg):
        return {"started": False, "gain": UNDEF, "loss": UNDEF}

    def extra(self, cfg, b):
        if not b["started"]:
            return {"gain": UNDEF, "loss": UNDEF}
        return {"gain": P(atom(("s", "gain"))), "loss": P(atom(("s", "loss")))}

    def exprx(self, cfg, v):
        return {"gain": v["gain"], "loss": v["loss"]}

    def stat(self, ctx, cfg, v, w, n):
        per = n - 1

        def up(d):
            return ite(c_lt(-d, True), d, ZERO)

        def down(d):
            return ite(c_lt(d, True), -d, ZERO)
        if not v["started"]:
            k = self.e.itatom()

            def el(i):
                return self.v(self.e.symval(self.msgty(), ("at", w.base, w.lo + i)))
            if w.base is None:
                ds = [self.v(b[1]) - self.v(a[1]) for a, b in zip(w.tail, w.tail[1:])]
                g = sum(map(up, ds), ZERO) * inv(per)
                l = sum(map(down, ds), ZERO) * inv(per)
            else:
                d = el(P(k) + 1) - el(P(k))
                g = summation(up(d), per, k) * inv(per)
                l = summation(down(d), per, k) * inv(per)
        else:
            d = self.v(self.at(ctx, w, n - 1)) - self.v(self.at(ctx, w, n - 2))
            # one case per sign of the move
            if ctx.when(c_lt(-d, True)):
                gn, ls = d, ZERO
            elif ctx.when(c_lt(d, True)):
                gn, ls = ZERO, -d
            else:
                gn, ls = ZERO, ZERO
            g = (v["gain"] * (per - 1) + gn) * inv(per)
            l = (v["loss"] * (per - 1) + ls) * inv(per)
        v["started"] = True
        v["gain"], v["loss"] = g, l
        if ctx.when(c_lt(-l, True)):
            rs = g * inv(l)
            r = P(100) - P(100) * inv(ONE + rs)
        else:
            r = P(100)
        return {"o1": [self.msg(self.t(self.last(ctx, w)), r)]}


class AutoRegressive(Spec):
    """y(t) = x(t) + sum coeff[i] * y(t-1-i), zero before the first message; the buffer holds the past outputs"""
    name = "AutoRegressive"

    def configs(self):
        c = self.arg("coeff", "reals")
        n = length(c)
        return [self.cfg("any coefficients", [c], [c_le(1 - n), c_le(n - (1 << 31) + 1)], n=n, c=c),
                self.cfg("no coefficients", [SeqV(None, None, ZERO, ZERO, ())], bad=True)]

    def small(self, cfg):
        return [cfg] if cfg.get("bad") else coeffs(self, (1, 2, 3))

    def sized(self, cfg, n):
        return None if cfg.get("bad") else coeffs(self, (n,))[0]

    def ports(self, cfg):
        return {} if cfg.get("bad") else {"i1": cfg["n"]}

    def bools(self, cfg):
        return ["primed", "received"]

    def ctor(self, ctx, cfg):
        if cfg.get("bad"):
            return "throw"
        return {"primed": False, "received": False, "w i1": empty_seq(self.msgty())}

    def inv(self, cfg, v):
        n = length(v["w i1"])
        if v["received"]:
            return [c_eq(n - cfg["n"] - 1)]
        return [c_eq(n - (cfg["n"] if v["primed"] else 0))]

    def extra(self, cfg, b):
        if not b["primed"]:
            return {"w i1": empty_seq(self.msgty())}
        return {}

    def exprs(self, cfg, v):
        return {"window i1": v["w i1"], "sum i1": self.total(v["w i1"])}

    def total(self, w):
        r = ZERO
        for p in w.tail:
            if p[0] == "rep":
                continue          # zeros
            r = r + self.v(p[1])
        return r + Spec.total(self, SeqV(w.ety, w.base, w.lo, w.hi, ()))

    def events(self, cfg):
        return [Ev("receiveData(i1)", "receiveData", "i1"), Ev("receiveData()", "receiveData", ""),
                Ev("receiveData(unknown)", "receiveData", "?"), Ev("executeData()", "executeData", None, False)]

    def step(self, ctx, cfg, v, ev, m):
        if ev.method == "receiveData":
            if ev.port == "?":
                return ("throw", v)
            if v["received"]:
                return ("any",)
            w = v["w i1"]
            if not v["primed"]:
                z = self.e.repn(self.msg(0, 0), cfg["n"])
                w = SeqV(w.ety, None, ZERO, ZERO, (z,))
            v["primed"] = v["received"] = True
            v["w i1"] = push(w, m)
            return ("ret", {}, v)
        if not v["received"]:
            return ("any",)
        w, n, c = v["w i1"], cfg["n"], cfg["c"]
        m = self.last(ctx, w)
        k = self.e.itatom()
        y = self.v(m) + self.convolve(w, c, n, k)
        out = self.msg(self.t(m), y)
        if w.base is None:
            w = pop(ctx, self.flat(w))
            v["w i1"] = SeqV(w.ety, None, ZERO, ZERO, w.tail[:-1] + (("e", out),))
        else:
            v["w i1"] = SeqV(w.ety, w.base, w.lo + 1, w.hi - 1, (("e", out),))
        v["received"] = False
        return ("ret", {"o1": [out]}, v)


    def flat(self, w):
        t = []
        for p in w.tail:
            if p[0] == "rep":
                t += [("e", self.msg(0, 0))] * int(p[2].const())
            else:
                t.append(p)
        return SeqV(w.ety, None, ZERO, ZERO, t)

    def convolve(self, w, c, n, k):
        if w.base is None:
            t = self.flat(w).tail
            return sum((self.v(t[i][1]) * elem(c, len(t) - 2 - i) for i in range(len(t) - 1)), ZERO)
        past = self.e.symval(self.msgty(), ("at", w.base, w.lo + n - 1 - P(k)))
        return summation(self.v(past) * elem(c, P(k)), n, k)


class Routed(Spec):
    """n input ports forwarded to the outputs of the same number"""
    def numports(self):
        return self.deep((1, 2, 3), (4,))

    def configs(self):
        return [self.cfg("%d ports" % n, [P(n)], n=n) for n in self.numports()] + \
               [self.cfg("%d ports" % n, [P(n)], n=n, many=True) for n in MANY]

    def ports(self, cfg):
        return {"i%d" % i: P(1) for i in range(1, cfg["n"] + 1)}


class Output(Routed):
    name = "Output"

    def process(self, ctx, cfg, v, ready):
        return {"o" + p[1:]: [self.last(ctx, v["w " + p])] for p in ready}


class Input(Routed):
    name = "Input"

    def numports(self):
        return self.deep((1, 2), (3,))

    def flags(self, cfg):
        return ["sent %s" % p for p in self.ports(cfg)]

    def init(self, ctx, cfg):
        r = {}
        for p in self.ports(cfg):
            r["sent " + p] = False
            r["last " + p] = UNDEF
        return r

    def extra(self, cfg, b):
        r = {}
        for p in self.ports(cfg):
            r["last " + p] = self.msg(P(atom(("s", "last time " + p), True, True)), P(atom(("s", "last value " + p)))) \
                if b["sent " + p] else UNDEF
        return r

    def exprx(self, cfg, v):
        ps = [p for p in self.ports(cfg) if v["sent " + p]]
        r = {"last sent": MapV(None, self.msgty(), None, [(S(p), v["last " + p], T) for p in ps])}
        for p in ps:
            r["last time " + p] = self.t(v["last " + p])
            r["last value " + p] = self.v(v["last " + p])
            r["last message " + p] = v["last " + p]
        r["last times"] = MapV(None, self.msgty(), None, [(S(p), self.t(v["last " + p]), T) for p in ps])
        return r

    def process(self, ctx, cfg, v, ready):
        out = {}
        for p in ready:
            m = self.last(ctx, v["w " + p])
            if v["sent " + p] and not ctx.when(c_lt(self.t(v["last " + p]) - self.t(m))):
                continue
            v["sent " + p] = True
            v["last " + p] = m
            out["o" + p[1:]] = [m]
        return out


class Joined(Spec):
    """messages of all ports with the same time"""
    ordered = "le"

    def bools(self, cfg):
        return []

    def ctor(self, ctx, cfg):
        if cfg.get("bad"):
            return "throw"
        return {"w " + p: empty_seq(self.msgty()) for p in self.ports(cfg)}

    def ports(self, cfg):
        return {"i%d" % i: None for i in range(1, cfg["n"] + 1)}

    def events(self, cfg):
        r = [Ev("receiveData(%s)" % p, "receiveData", p) for p in self.ports(cfg)]
        return r + [Ev("receiveData(unknown)", "receiveData", "?"), Ev("executeData()", "executeData", None, False)]

    def receive(self, ctx, cfg, v, p, m):
        v["w " + p] = push(v["w " + p], m)
        return ("ret", {}, v)

    def invx(self, cfg, v):
        return []

    def step(self, ctx, cfg, v, ev, m):
        if ev.method == "executeData":
            return self.sync(ctx, cfg, v)
        return Spec.step(self, ctx, cfg, v, ev, m)

    def order(self, cfg, v):
        """facts: in each buffer times grow"""
        return []

    def sync(self, ctx, cfg, v):
        ps = list(self.ports(cfg))
        ws = {p: v["w " + p] for p in ps}
        for p in ps:
            if ctx.when(c_le(length(ws[p]))):
                return ("ret", {}, v)
        # the latest of the oldest messages
        top = ps[0]
        for p in ps[1:]:
            if ctx.when(c_lt(self.t(self.first(ctx, ws[top])) - self.t(self.first(ctx, ws[p])))):
                top = p
        tm = self.t(self.first(ctx, ws[top]))
        for p in ps:
            if p == top:
                continue
            ws[p] = self.drop(ctx, ws[p], tm)
            v["w " + p] = ws[p]
        for p in ps:
            if ctx.when(c_le(length(ws[p]))) or ctx.when(c_lt(tm - self.t(self.first(ctx, ws[p])))):
                return ("ret", {}, v)
        out = self.matched(ctx, cfg, {p: self.first(ctx, ws[p]) for p in ps}, tm)
        for p in ps:
            v["w " + p] = pop(ctx, ws[p])
        return ("ret", out, v)


def seqs_of(st, base):
    """the sequences in the state drawn from base"""
    out = []

    def walk(v):
        if isinstance(v, SeqV):
            if v.base == base:
                out.append(v)
        elif isinstance(v, Struct):
            for x in v.f.values():
                walk(x)
        elif isinstance(v, MapV):
            for k, x, c in v.ents:
                walk(x)
    for v in st.store.values():
        walk(v)
    return out


class Join(Joined):
    name = "Join"

    def configs(self):
        return [self.cfg("%d ports" % n, [P(n)], n=n) for n in self.deep((2, 3), (4,))] + \
               [self.cfg("%d ports" % n, [P(n)], n=n, bad=True) for n in (0, 1)] + \
               [self.cfg("%d ports" % n, [P(n)], n=n, many=True) for n in MANY]

    def matched(self, ctx, cfg, ms, tm):
        return {"o" + p[1:]: [m] for p, m in ms.items()}


def binary(nm, f):
    class C(Joined):
        name = nm

        def configs(self):
            return [self.cfg("", [], n=2)]

        def matched(self, ctx, cfg, ms, tm):
            r = f(ctx, self.v(ms["i1"]), self.v(ms["i2"]))
            if r is ANYOUT:
                return r
            return {} if r is None else {"o1": [self.msg(tm, r)]}
    C.__name__ = nm
    return C


Plus = binary("Plus", lambda c, a, b: a + b)
Minus = binary("Minus", lambda c, a, b: a - b)
Multiplication = binary("Multiplication", lambda c, a, b: a * b)
Division = binary("Division", lambda c, a, b: None if c.when(c_eq(b)) else a * inv(b))


def logic(f):
    """a value from one half on counts as true; the result is 0 or 1"""
    def g(c, a, b):
        return ONE if f(*[c.when(c_le(P(Fraction(1, 2)) - x, True)) for x in (a, b)]) else ZERO
    return g


And = binary("And", logic(lambda a, b: a and b))
Or = binary("Or", logic(lambda a, b: a or b))
GreaterThanStream = binary("GreaterThanStream", lambda c, a, b: a if c.when(c_lt(b - a, True)) else None)
LessThanStream = binary("LessThanStream", lambda c, a, b: a if c.when(c_lt(a - b, True)) else None)


class Linear(Joined):
    name = "Linear"

    def configs(self):
        r = []
        for n in self.deep((2, 3), (4,)):
            cs = [P(atom(("cfg", "c%d" % (i + 1)))) for i in range(n)]
            r.append(self.cfg("%d coefficients" % n, [SeqV(None, None, ZERO, ZERO, [("e", c) for c in cs])], n=n, cs=cs))
        for n in (0, 1):
            r.append(self.cfg("%d coefficients" % n, [SeqV(None, None, ZERO, ZERO, [("e", ONE)] * n)], n=n, bad=True))
        for n in MANY:
            cs = [P(atom(("cfg", "c%d" % (i + 1)))) for i in range(n)]
            r.append(self.cfg("%d coefficients" % n, [SeqV(None, None, ZERO, ZERO, [("e", c) for c in cs])], n=n, cs=cs, many=True))
        return r

    def matched(self, ctx, cfg, ms, tm):
        r = ZERO
        for i, c in enumerate(cfg["cs"]):
            r = r + self.v(ms["i%d" % (i + 1)]) * c
        return {"o1": [self.msg(tm, r)]}


class Variable(Spec):
    """the value of the latest definition at the time of the query"""
    ordered = "lt"
    name = "Variable"

    def orders(self, cfg, p):
        return p == "i1"

    def configs(self):
        a = self.arg("value", "real")
        return [self.cfg("any default", [a], a=a)]

    def ports(self, cfg):
        return {"i1": None}

    def cports(self, cfg):
        return {"c1": P(1)}

    def bools(self, cfg):
        return ["pending i1", "initialized"]

    def init(self, ctx, cfg):
        return {"initialized": False}

    def exprx(self, cfg, v):
        return {"default value": cfg["a"], "initialized": T if v["initialized"] else F}

    def invx(self, cfg, v):
        return [c_le(1 - length(v["w i1"]))] if v["pending i1"] else [c_le(length(v["w i1"]))]

    def receive(self, ctx, cfg, v, p, m):
        v["w " + p] = push(v["w " + p], m)
        v["pending " + p] = True
        return ("ret", {}, v)

    def receivec(self, ctx, cfg, v, p, m):
        w = v["w " + p]
        if ctx.when(c_le(1 - length(w))):
            w = pop(ctx, w)
        v["w " + p] = push(w, m)
        return ("ret", {}, v)

    def executec(self, ctx, cfg, v):
        return self.execute(ctx, cfg, v)

    def execute(self, ctx, cfg, v):
        w, c = v["w i1"], v["w c1"]
        if ctx.when(c_le(length(w))) or ctx.when(c_le(length(c))):
            return ("ret", {}, v)
        q = self.t(self.first(ctx, c))
        t0 = self.t(self.first(ctx, w))
        if ctx.when(c_lt(q - t0)):
            if v["initialized"]:
                return ("throw",)
            v["w c1"] = pop(ctx, c)
            return ("ret", {"o1": [self.msg(q, cfg["a"])]}, v)
        v["initialized"] = True
        d, prev = self.split(ctx, w, q)
        if ctx.when(c_le(length(d))):
            # every definition is older: the next one may come in between
            v["w i1"] = self.single(ctx, w)
            return ("ret", {}, v)
        h = self.first(ctx, d)
        v["w c1"] = pop(ctx, c)
        if ctx.when(c_eq(self.t(h) - q)):
            v["w i1"] = d
            return ("ret", {"o1": [self.msg(q, self.v(h))]}, v)
        v["w i1"] = prev
        return ("ret", {"o1": [self.msg(q, self.v(self.first(ctx, prev)))]}, v)

    def single(self, ctx, w):
        if w.base is not None and not w.tail:
            return SeqV(w.ety, w.base, w.hi - 1, w.hi, ())
        return SeqV(w.ety, None, ZERO, ZERO, w.tail[-1:])

    def split(self, ctx, w, q):
        """w without the definitions older than q, and the same with the last of those"""
        if w.base is None or w.tail:
            prev = w
            while not ctx.when(c_le(length(w))) and ctx.when(c_lt(self.t(self.first(ctx, w)) - q)):
                prev = w
                w = pop(ctx, w)
                if w.base is None and not w.tail:
                    break
            return w, prev
        d = self.drop(ctx, w, q)
        return d, SeqV(w.ety, w.base, d.lo - 1, w.hi, w.tail)


class Demultiplexer(Spec):
    ordered = "le"
    name = "Demultiplexer"

    def configs(self):
        return [self.cfg("%d ports" % n, [P(n)], n=n) for n in self.deep((1, 2), (3,))] + [self.cfg("0 ports", [P(0)], n=0, bad=True)] + \
               [self.cfg("%d ports" % n, [P(n)], n=n, many=True) for n in MANY]

    def ports(self, cfg):
        return {"i1": None}

    def cports(self, cfg):
        return {"c%d" % i: None for i in range(1, cfg["n"] + 1)}

    def bools(self, cfg):
        return []

    def ctor(self, ctx, cfg):
        if cfg.get("bad"):
            return "throw"
        return {"w " + p: empty_seq(self.msgty()) for p in list(self.ports(cfg)) + list(self.cports(cfg))}

    def events(self, cfg):
        r = Spec.events(self, cfg)
        if cfg["n"] == 1:
            r.append(Ev("receiveControl()", "receiveControl", ""))
        return r

    def chosen(self, cfg):
        cs = list(self.cports(cfg))
        ex = [Ev("executeData()", "executeData", None, False), Ev("executeControl()", "executeControl", None, False)]
        d = Ev("receiveData(i1)", "receiveData", "i1", group=0)

        def c(p, val):
            return Ev("receiveControl(%s)" % p, "receiveControl", p, group=0, val=val)
        yield [d] + [c(p, 1) for p in cs] + ex
        for p in cs:
            yield [c(q, 0 if q != p else 1) for q in cs] + [d] + ex
            yield [d] + [c(q, 1) for q in cs if q != p] + ex + [c(p, 0)] + ex

    def receive(self, ctx, cfg, v, p, m):
        v["w " + p] = push(v["w " + p], m)
        return ("ret", {}, v)

    def receivec(self, ctx, cfg, v, p, m):
        return self.receive(ctx, cfg, v, p or "c1", m)

    def executec(self, ctx, cfg, v):
        return self.execute(ctx, cfg, v)

    def execute(self, ctx, cfg, v):
        w = v["w i1"]
        if ctx.when(c_le(length(w))):
            return ("ret", {}, v)
        h = self.first(ctx, w)
        tm = self.t(h)
        ready, sel = 0, []
        for p in self.cports(cfg):
            c = v["w " + p] = self.drop(ctx, v["w " + p], tm)
            if ctx.when(c_le(length(c))):
                continue
            m = self.first(ctx, c)
            if not ctx.when(c_eq(self.t(m) - tm)):
                return ("throw",)
            if ctx.when(c_eq(self.v(m) - 1)):
                sel.append(p)
            elif not ctx.when(c_eq(self.v(m))):
                return ("throw",)
            ready += 1
        if ready < cfg["n"]:
            return ("ret", {}, v)
        v["w i1"] = pop(ctx, w)
        for p in self.cports(cfg):
            v["w " + p] = pop(ctx, v["w " + p])
        return ("ret", {"o" + p[1:]: [h] for p in sel}, v)


class Grid(Spec):
    """a number of points that depends on the time between messages"""
    ordered = "lt"

    def configs(self):
        dt = self.arg("dt", "nat")
        return [self.cfg("any interval > 0", [dt], [c_le(1 - dt)], dt=dt), self.cfg("null interval", [ZERO], dt=ZERO, bad=True)]

    def small(self, cfg):
        return [cfg] if cfg.get("bad") else [self.cfg("interval %d" % n, [P(n)], dt=P(n)) for n in (1, 2, 3)]

    TIMES = ((5, 6, 7, 8, 9, 10, 11), (0, 1, 2, 5, 6, 13), (7, 9, 10, 11, 20, 21, 23), (1, 4, 5, 6, 7, 12), (0, 3, 6, 7, 200, 201),
             (2, 3, 4, 5, 7, 8, 12, 13, 14))

    def timed(self, cfg, rng):
        if P(cfg["dt"]).const() is None:
            return
        ex = Ev("executeData()", "executeData", None, False)
        ts = list(self.TIMES)
        for i in range(self.deep(4, 30)):
            t, r = rng.randrange(4), []
            for j in range(8):
                r.append(t)
                t += rng.choice((1, 1, 1, 2, 2, 3, 4, 5, 7, 11))
            ts.append(r)
        for r in ts:
            s = []
            for t in r:
                s += [Ev("receiveData(i1) at %d" % t, "receiveData", "i1", at=t), ex]
            yield s

    top = 1500

    def gaps(self, cfg, n):
        """histories with gaps around n intervals"""
        ex = Ev("executeData()", "executeData", None, False)
        for c in self.small(cfg)[:2]:
            dt = int(P(c["dt"]).const())
            s = []
            for t in (1, 2, 4, 5, 5 + n * dt, 6 + n * dt, 7 + 2 * n * dt + 3 * dt, 9 + 2 * n * dt + 3 * dt):
                s += [Ev("receiveData(i1) at %d" % t, "receiveData", "i1", at=t), ex]
            yield c, s

    def ctor(self, ctx, cfg):
        if cfg.get("bad"):
            return "throw"
        return Spec.ctor(self, ctx, cfg)

    def count(self, ctx, inside):
        """the number of leading k >= 0 with inside(k) for a condition that turns false once"""
        cand = {}
        f = ctx.facts
        if isinstance(ctx.val, MapV):
            for sq in seqs_in(ctx.val):
                n = ZERO
                for p in sq.tail:
                    cand[f.norm(n)] = 1
                    n = n + psize(p)
                cand[f.norm(n)] = 1
                cand[f.norm(n) - 1] = 1
        for x in tuple(f.le) + tuple(p for _, p in f.eqs):
            for i in atoms_of(x):
                if by_id(i).key[0] == "it":
                    cand[P(by_id(i))] = cand[P(by_id(i)) + 1] = 1
        for n in cand:
            if f.query(c_le(-n)) is not True or f.query(inside(n)) is not False:
                continue
            if f.query(c_le(n)) is True or f.query(inside(n - 1)) is True:
                return n
        # constant numbers, case by case
        n = cases = 0
        while n < 2000 and cases < 8:
            q = f.query(inside(P(n)))
            if q is None:
                cases += 1
                q = ctx.when(inside(P(n)))
            if not q:
                return P(n)
            n += 1
        raise Undecided("specification: number of grid points")

    def points(self, n, f):
        """messages f(0) .. f(n-1)"""
        c = P(n).const()
        if c is not None:
            return [("e", f(P(i))) for i in range(int(c))]
        k = self.e.itatom()
        return [("rep", k, P(n), T, (("e", f(P(k))),))]

    def seq(self, pieces):
        return SeqV(self.msgty(), None, ZERO, ZERO, pieces)


class ConstantResampler(Grid):
    name = "ConstantResampler"

    def flags(self, cfg):
        return ["initiated"]

    def init(self, ctx, cfg):
        return {"initiated": False, "next": UNDEF, "value": UNDEF}

    def extra(self, cfg, b):
        if not b["initiated"]:
            return {"next": UNDEF, "value": UNDEF}
        return {"next": P(atom(("s", "next"), True, True)), "value": P(atom(("s", "last value")))}

    def exprx(self, cfg, v):
        return {"next emission": v["next"], "last value": v["value"]}

    def obsx(self, cfg, v):
        r = [("getInterval", [], cfg["dt"])]
        if v["initiated"]:
            r += [("getNextEmissionTime", [], v["next"]), ("getLastValue", [], v["value"])]
        return r

    def process(self, ctx, cfg, v, ready):
        m = self.last(ctx, v["w i1"])
        t, x = self.t(m), self.v(m)
        if not v["initiated"]:
            v["initiated"], v["next"], v["value"] = True, t + cfg["dt"], x
            return {}
        n, dt, y = v["next"], cfg["dt"], v["value"]
        k = self.count(ctx, lambda j: c_lt(n + j * dt - t))
        out = self.points(k, lambda j: self.msg(n + j * dt, y))
        if ctx.when(c_eq(n + k * dt - t)):
            out.append(("e", m))
            k = k + 1
        v["next"] = n + k * dt
        v["value"] = x
        return {"o1": self.seq(out)} if out else {}


class Interpolated(Grid):
    def init(self, ctx, cfg):
        return {"carry": ZERO}

    def extra(self, cfg, b):
        return {"carry": P(atom(("s", "carry"), True, True))}

    def exprx(self, cfg, v):
        return {"carry over": v["carry"]}

    def invx(self, cfg, v):
        n = self.ports(cfg)["i1"]
        return [c_le(v["carry"] - cfg["dt"] + 1), c_or(c_le(n - length(v["w i1"])), c_eq(v["carry"]))]

    def interval(self, ctx, cfg, v, a, b, f):
        """grid points after a up to b"""
        gap, dt, c = self.t(b) - self.t(a), cfg["dt"], v["carry"]
        k = self.count(ctx, lambda j: c_le((j + 1) * dt - c - gap))
        v["carry"] = gap + c - k * dt

        def point(j):
            d = (j + 1) * dt - c
            return self.msg(self.t(a) + d, f(d * inv(gap)))
        return self.points(k, point)


class CosineResampler(Interpolated):
    name = "CosineResampler"

    def ports(self, cfg):
        return {"i1": P(2)}

    def process(self, ctx, cfg, v, ready):
        w = v["w i1"]
        a, b = self.at(ctx, w, 0), self.at(ctx, w, 1)

        def val(mu):
            s = (ONE - app("cos", mu * P(PI))) * P(Fraction(1, 2))
            return self.v(a) * (ONE - s) + self.v(b) * s
        out = self.interval(ctx, cfg, v, a, b, val)
        return {"o1": self.seq(out)} if out else {}


class HermiteResampler(Interpolated):
    name = "HermiteResampler"

    def ports(self, cfg):
        return {"i1": P(4)}

    def flags(self, cfg):
        return ["started"]

    def init(self, ctx, cfg):
        return {"carry": ZERO, "started": False}

    def invx(self, cfg, v):
        return [c_le(v["carry"] - cfg["dt"] + 1), c_le(4 - length(v["w i1"]))] if v["started"] else [c_eq(v["carry"])]

    def process(self, ctx, cfg, v, ready):
        w = v["w i1"]
        m = [self.at(ctx, w, i) for i in range(4)]
        y = [self.v(x) for x in m]

        def val(mu):
            m0 = (y[2] - y[0]) * P(Fraction(1, 2))
            m1 = (y[3] - y[1]) * P(Fraction(1, 2))
            mu2, mu3 = mu * mu, mu * mu * mu
            return (2 * mu3 - 3 * mu2 + 1) * y[1] + (mu3 - 2 * mu2 + mu) * m0 + (mu3 - mu2) * m1 + (3 * mu2 - 2 * mu3) * y[2]
        out = []
        if not v["started"]:
            v["started"] = True
            # the curve before the second message needs a point that does not exist: its values are not specified
            out += self.interval(ctx, cfg, v, m[0], m[1], lambda mu: ANYNUM)
        out += self.interval(ctx, cfg, v, m[1], m[2], val)
        return {"o1": self.seq(out)} if out else {}


def seqs_in(v):
    if isinstance(v, SeqV):
        yield v
    elif isinstance(v, MapV):
        for k, x, c in v.ents:
            if x is not ABSENT:
                yield from seqs_in(x)


class Function(Pointwise):
    name = "Function"
    kinds = ("linear", "hermite")

    def configs(self):
        r = []
        for n in self.deep((2, 3, 4), (5, 6)):
            xs = [P(atom(("cfg", "x%d" % (i + 1)))) for i in range(n)]
            ys = [P(atom(("cfg", "y%d" % (i + 1)))) for i in range(n)]
            inc = [c_lt(a - b, True) for a, b in zip(xs, xs[1:])]
            for kind in self.kinds:
                r.append(self.cfg("%d points, %s" % (n, kind), [self.pts(xs, ys), S(kind)], inc, xs=xs, ys=ys, kind=kind))
            for o in itertools.permutations(range(n)) if n <= self.deep(3, 4) else [range(n)[::-1], (1, 0) + tuple(range(2, n))]:
                o = list(o)
                if o != sorted(o):
                    for kind in self.kinds:
                        r.append(self.cfg("%d points given in the order %s, %s" % (n, " ".join(str(i + 1) for i in o), kind),
                                          [self.pts([xs[i] for i in o], [ys[i] for i in o]), S(kind)], inc,
                                          xs=xs, ys=ys, kind=kind))
        for n in (0, 1):
            r.append(self.cfg("%d points" % n, [self.pts([ONE] * n, [ONE] * n), S("linear")], bad=True))
        r.append(self.cfg("unknown kind", [self.pts([ONE, P(2)], [ONE, ONE]), S("cubic")], bad=True))
        return r

    def pts(self, xs, ys):
        return SeqV(None, None, ZERO, ZERO, [("e", Struct("std::pair", {"first": a, "second": b})) for a, b in zip(xs, ys)])

    def ctor(self, ctx, cfg):
        return "throw" if cfg.get("bad") else Spec.ctor(self, ctx, cfg)

    def out(self, ctx, cfg, t, x):
        xs, ys = cfg["xs"], cfg["ys"]
        n = len(xs)
        i = 0
        while i < n - 2 and ctx.when(c_le(xs[i + 1] - x, True)):
            i += 1

        def slope(a, b):
            return (ys[b] - ys[a]) * inv(xs[b] - xs[a])

        def tangent(k):
            return slope(max(k - 1, 0), min(k + 1, n - 1))
        mu = (x - xs[i]) * inv(xs[i + 1] - xs[i])
        if cfg["kind"] == "linear":
            return (t, ys[i] + (ys[i + 1] - ys[i]) * mu)
        mu2, mu3 = mu * mu, mu * mu * mu
        return (t, (2 * mu3 - 3 * mu2 + 1) * ys[i] + (mu3 - 2 * mu2 + mu) * tangent(i) +
                (3 * mu2 - 2 * mu3) * ys[i + 1] + (mu3 - mu2) * tangent(i + 1))
