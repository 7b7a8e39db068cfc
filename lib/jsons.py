"""Operators in their JSON form: reading, documented defaults, writing, reading back."""
import re
import netcheck
from terms import by_id
from net import *
from drive import An
from defs import J, dump, static
from ports import Probe, queries, word


def num(name):
    return P(atom(("cfg", name), True, True))


def pts(n):
    return [(real("x%d" % i), real("y%d" % i)) for i in range(n)]


def fnode(an, id, points, kind):
    sp = specs.Function(an)
    c = sp.cfg("", [sp.pts([x for x, y in points], [y for x, y in points]), S(kind)],
               [c_lt(a[0] - b[0], True) for a, b in zip(points, points[1:])], xs=[x for x, y in points],
               ys=[y for x, y in points], kind=kind)

    class N:
        pass
    n = N()
    n.id, n.op, n.spec, n.cfg, n.outs = id, "Function", sp, c, ["o1"]
    n.cfg["id"] = S(id)
    n.cfg["args"] = [S(id)] + n.cfg["args"][1:] if len(n.cfg["args"]) == 3 else [S(id)] + list(n.cfg["args"])
    n.json = {"points": Json("arr", SeqV(None, None, ZERO, ZERO, [("e", J([x, y])) for x, y in points])),
              "interpolationType": S(kind)}
    return n


def cases(an):
    """(label, definition keys, keys that may be left out with the node they stand for, node, small node for histories)"""
    n, dt, c, v = num("n"), num("dt"), real("c"), real("value")
    r = []

    def add(label, nd, opt=(), *small):
        r.append((label, nd, opt, small or (nd,)))

    def N(kind, *a):
        return node(an, "x", kind, *a)
    for k in ("Identity", "Count", "CumulativeSum", "Plus", "Minus", "Multiplication", "Division", "And", "Or",
              "GreaterThanStream", "LessThanStream"):
        add(k, N(k))
    for k in ("Add", "Scale", "Constant", "Power", "LessThan", "GreaterThan", "EqualTo"):
        add(k, N(k, v))
    add("Variable", N("Variable", v), (("value", N("Variable", 0)),))
    for k in ("MovingAverage", "StandardDeviation", "PeakDetector", "RelativeStrengthIndex"):
        w = N(k, n)
        w.cfg["conds"] = (c_le(2 - n), c_le(n - (1 << 31) + 2))
        add(k, w, (), N(k, 3))
    for k, m in (("FiniteImpulseResponse", 3), ("AutoRegressive", 2), ("AutoRegressive", 1), ("Linear", 2), ("Linear", 11)):
        add("%s of %d" % (k, m), N(k, m))
    add("TimeShift", N("TimeShift", dt, 2), (("dt", N("TimeShift", 1, 2)), ("times", N("TimeShift", dt, 1)),
                                            ("dt times", N("TimeShift", 1, 1))), N("TimeShift", 3, 2), N("TimeShift", (1 << 33) + 3, 2))
    add("TimeShift backwards", N("TimeShift", dt, -2), (), N("TimeShift", 3, -2), N("TimeShift", (1 << 33) + 3, -2))
    for b in (True, False):
        add("Difference %s" % b, N("Difference", b), (("useOldestTime", N("Difference", True)),))
    for m in (2, 3, 11):
        add("Join of %d" % m, N("Join", m), (("numPorts", N("Join", 2)),))
    for k in ("Input", "Output", "Demultiplexer"):
        for m in (1, 2, 11):
            add("%s of %d" % (k, m), N(k, m), (("numPorts", N(k, 1)),))
    for k in ("CosineResampler", "HermiteResampler", "ConstantResampler"):
        add(k, N(k, dt), (), N(k, 3), N(k, (1 << 33) + 3))
    for k in ("linear", "hermite"):
        add("Function %s" % k, fnode(an, "x", pts(3), k), (("interpolationType", fnode(an, "x", pts(3), "linear")),))
    add("Pipeline", N("Pipeline", [("b", "Add"), ("a", "Minus"), ("m", "MovingAverage", 2)],
                      [("b", "o1", "a", "i2"), ("a", "o1", "m", "i1")]))
    return r


def definition(nd, without=""):
    d = {"type": S(nd.op), "id": S(nd.id)}
    d.update(nd.json)
    for k in without.split():
        del d[k]
    return Json("obj", tuple((k, x if isinstance(x, Json) else jv(x)) for k, x in d.items()))


def read(an, st, text):
    return an.e.call(st, static(an, an.cls("FactoryOp"), "readOp"), None, [text], {"k": "call", "l": 0})


def built(an, st, nd):
    """the operator made by its constructor, parameters in their range"""
    return [(s, o) for s, o in an.construct(st, nd.cfg["cls"], nd.cfg["ctor"], nd.cfg["args"]) if o is not None]


def target(an, s, v):
    v = an.e.rv(s, v)
    if isinstance(v, PtrV) and isinstance(v.to, LV):
        return v.to
    raise Undecided("readOp gives %s" % vshow(v))


def equal(an, s, x, y):
    """the two operators are alike, member by member"""
    a, b = an.e.rv(s, x), an.e.rv(s, y)
    if a.cls != b.cls or a.f.keys() != b.f.keys():
        return False
    return all(alike(an, s, a.f[k], b.f[k], x, y) for k in a.f)


def unset(v):
    """never assigned so far"""
    return isinstance(v, Poly) and any(by_id(i).key[0] == "uninit" for i in v.atoms())


def shape(n):
    """a lambda without the numbers its translation unit gives to types and variables"""
    if isinstance(n, dict):
        return {k: shape(v) for k, v in n.items() if k not in ("t", "ret")}
    if isinstance(n, list):
        return [shape(v) for v in n]
    return re.sub(r"#\d+$", "", n) if isinstance(n, str) else n


def alike(an, s, u, w, x, y):
    """one member; two functions are alike when they are the same code over alike captures (of their own objects)"""
    if isinstance(u, Func) and isinstance(w, Func) and u.kind == w.kind == "lambda":
        if shape(u.a) != shape(w.a) or (u.this, w.this) != (None, None) and (u.this, w.this) != (x, y):
            return False
        c, d = ({k.split("#")[0]: v for k, v in q.env.items()} for q in (u, w))
        return c.keys() == d.keys() and all(c[k][0] == d[k][0] and alike(an, s, c[k][1], d[k][1], x, y) for k in c)
    if unset(u) and unset(w):
        return True
    return vsame(an.e, s.facts, u, w, s.store, s.store) is True


def like(an, p, st, make, nd, what):
    """operators made by make(state) -> [(state, LV)] behave as nd"""
    same = True
    for s, o in make(st):
        p.h.steps += 1
        for s2, q in built(an, s, nd):
            if not equal(an, s2, o, q):
                same = False
    return same


def behave(an, p, st, make, nd, what):
    """histories on operators made by make against the specification"""
    def tag(k):
        return message(an, str(k + 1))
    data = list(nd.spec.ports(nd.cfg))
    ctl = list(nd.spec.cports(nd.cfg))

    class One:
        nodes = {"x": nd}
    nd.data, nd.ctl = data, ctl
    net = Net.__new__(Net)
    net.an, net.label, net.nodes, net.order, net.conns, net.entry = an, what, {"x": nd}, ["x"], [], "x"
    net.out, net.groups, net.filter, net.implicit = {}, {}, None, set()
    for s, o in make(st):
        queries(p, s, o, sorted(data), sorted(ctl), list(nd.outs))
    if p.h.found:
        return
    k = 3 if len(data) > 2 else 5
    seqs = [[Feed("x", data[i % len(data)]) for i in range(k)]]
    if len(data) > 1:
        seqs = [[Feed("x", data[i % min(3, len(data))]) for i in range(k)], [Feed("x", data[-1 - i % 2]) for i in range(k)]]
    h = p.h
    h.extra = observers(net)
    for sc in seqs:
        vs = net.start(an.e, None)
        h.run([(s, {"x": o}, vs) for s, o in make(st)], sc, lambda s, w, ev, k: direct(net, ev, k, s, w), model(net),
              ordered(net, sc))


def reading(an, st0, label, without, nd, small, want, wsmall, r):
    p = Probe(an, label)
    name = "readOp of %s%s" % (label, " without %s" % without if without else "")

    def make(d):
        def f(st):
            out = []
            for s, v in read(an, st.copy(), SA(("dump", definition(d, without)))):
                if s.exc is not None:
                    if s.exc.ty == "UB" or not positive(an, s, d):
                        p.say("%s throws %s" % (name, exc_str(s.exc)), s)
                    continue
                out.append((s, target(an, s, v)))
            return out
        return f

    def go():
        if not like(an, p, st0, make(nd), want, name) and not p.h.found:
            p.h.note("not alike member by member: histories instead")
            for d, w in zip(small, wsmall):
                behave(an, p, st0, make(d), w, name)
    netcheck.guarded(r, an, p.h, name, go)


def known(st, nd):
    """the parameters are in their documented range"""
    return all(st.facts.assume(c) for c in nd.cfg.get("conds", ()))


def positive(an, s, nd):
    """the constructor itself refuses the parameters on this path"""
    s = s.copy()
    s.exc = None
    return all(o is None for x, o in an.construct(s, nd.cfg["cls"], nd.cfg["ctor"], nd.cfg["args"]))


def parse(an, s, text):
    """the json value of a text that was dumped"""
    t = an.e.rv(s, text)
    if isinstance(t, Str) and len(t.p) == 1 and t.p[0][0] == "a" and isinstance(t.p[0][1], tuple) and t.p[0][1][0] == "dump":
        return t.p[0][1][1]
    raise Undecided("text %s" % vshow(t)[:200])


def member(j, k):
    if isinstance(j, Json) and j.kind == "obj":
        for n, v in j.a:
            if n == k:
                return v
    return None


def jequal(e, f, a, b, st):
    """same json content: True, False, None"""
    a, b = unj(a), unj(b)
    if isinstance(a, SeqV) and isinstance(b, SeqV) and a.base is None and b.base is None:
        x, y = [q[1] for q in a.tail], [q[1] for q in b.tail]
        if len(x) != len(y):
            return False
        rs = [jequal(e, f, u, w, st) for u, w in zip(x, y)]
        return False if False in rs else None if None in rs else True
    if isinstance(a, Json) and isinstance(b, Json) and a.kind == b.kind == "obj":
        if {k for k, x in a.a} != {k for k, x in b.a}:
            return False
        rs = [jequal(e, f, x, member(b, k), st) for k, x in a.a]
        return False if False in rs else None if None in rs else True
    if isinstance(a, Json) or isinstance(b, Json):
        return True if repr(a) == repr(b) else None
    return vsame(e, f, a, b, st, st)


def unj(x):
    if isinstance(x, Json):
        if x.kind in ("val", "arr") and not isinstance(x.a, Json):
            x = x.a
    if isinstance(x, Struct) and x.cls == "std::pair":
        return SeqV(None, None, ZERO, ZERO, [("e", x.f["first"]), ("e", x.f["second"])])
    return x


def writing(an, st0, label, nd, small, r):
    """the written form carries type, id and every parameter; read back it gives the same operator; use does not change it"""
    cls = an.cls("FactoryOp")
    if not known(st0, nd):
        raise Undecided("parameters of %s" % label)
    for used in (0, 2):
        d = small[0] if used else nd
        known(st0, d)
        p = Probe(an, label)
        name = "writeOp of %s%s" % (label, " after %d messages" % used if used else "")

        def go():
            want = definition(d)
            for s0, o in reado(an, st0, d):
                cur = [s0]
                for k in range(used):
                    nxt = []
                    for s in cur:
                        for s1, _ in an.method(s, o, "receiveData", [message(an, str(k)), S(list(d.spec.ports(d.cfg))[0])]):
                            for s2, _ in an.method(s1, o, "executeData", []) if s1.exc is None else ():
                                if s2.exc is None:
                                    nxt.append(s2)
                    cur = nxt
                for s in cur:
                    ptr = an.e.alloc(s, PtrV(o, kind="unique"), "u")
                    for s2, t in an.e.call(s, static(an, cls, "writeOp"), None, [ptr], {"k": "call", "l": 0}):
                        p.h.steps += 1
                        if s2.exc is not None:
                            p.say("%s throws %s" % (name, exc_str(s2.exc)), s2)
                            continue
                        j = parse(an, s2, t)
                        for k, x in want.a:
                            y = member(j, k)
                            q = False if y is None else jequal(an.e, s2.facts, x, y, s2.store)
                            if q is False:
                                p.say("%s: %s is %s, specified %s" % (name, k, y if y is None else vshow(unj(y))[:200],
                                                                      vshow(unj(x))[:200]), s2, () if y is None or isinstance(
                                                                          unj(x), Json) else (unj(y), unj(x)))
                            elif q is None:
                                p.h.note("%s: %s not compared" % (name, k))
                        if p.h.found:
                            return
                        back(s2, t)

        def back(s, t):
            def make(st):
                out = []
                for s3, v in read(an, st.copy(), t):
                    if s3.exc is not None:
                        p.say("%s: reading it back throws %s" % (name, exc_str(s3.exc)), s3)
                    else:
                        out.append((s3, target(an, s3, v)))
                return out
            if not like(an, p, s, make, d, name) and not p.h.found:
                p.h.note("not alike member by member: histories instead")
                if used:
                    behave(an, p, s, make, small[0], name)
        netcheck.guarded(r, an, p.h, name, go)


def reado(an, st0, nd):
    return [(s, target(an, s, v)) for s, v in read(an, st0.copy(), SA(("dump", definition(nd)))) if s.exc is None]


def job(i):
    an = An()
    st0, fac = registered(an)
    label, nd, opt, small = cases(an)[i]
    r = netcheck.result("json", label)
    reading(an, st0, label, "", nd, small, nd, small, r)
    for ks, w in opt:
        reading(an, st0, label, ks, nd, (nd,), w, (w,), r)
    writing(an, st0, label, nd, small, r)
    return r


def listed(an, r):
    """getProgram: the written form of every operator, a json list in the order of the ids"""
    st0, fac = registered(an)
    p = Probe(an, "getProgram")
    net = Net(an, "p", [("in", "Input", 2), ("b", "Add"), ("a", "Minus"), ("z", "MovingAverage", 3)] +
              [("k%d" % i, "Count") for i in range(9)],
              [("in", "o1", "b", "i1"), ("b", "o1", "a", "i1"), ("in", "o2", "a", "i2"), ("a", "o1", "z", "i1")])

    def go():
        for s, o in program(an, st0.copy(), net.program()):
            for s2, t in an.method(s, o, "getProgram", []):
                p.h.steps += 1
                t = an.e.rv(s2, t)
                lits = [x for x in t.p]
                ids = []
                for kind, x in lits:
                    if kind == "a" and isinstance(x, tuple) and x[0] == "dump":
                        ids.append(unj(member(x[1], "id")))
                text = "".join(x if kind == "c" else "#" for kind, x in lits) if all(
                    kind in "ac" for kind, x in lits) else None
                if text is None:
                    p.h.note("text %s" % vshow(t)[:200])
                elif text != "[%s]" % ",".join("#" * len(net.nodes)) or [i.const() for i in ids] != sorted(net.nodes):
                    p.say("getProgram gives %s with the operators %s" % (text, ids), s2)
    netcheck.guarded(r, an, p.h, "getProgram", go)


def job2():
    an = An()
    r = netcheck.result("json", "program")
    listed(an, r)
    return r


RULE = "readOp of the documented definition, with parameters left out or given, makes an operator equal member by member to " \
       "the one of the constructor for the documented values (histories against the specification where members differ); " \
       "writeOp carries type, id and every parameter and is read back to an equal operator"


def check(out, tier, seed):
    an = An()
    js = [("json: %s" % c[0], job, (i,)) for i, c in enumerate(cases(an))] + [("json: program", job2, ())]
    netcheck.collect(out, js, tier, RULE)
