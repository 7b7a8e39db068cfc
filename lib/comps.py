"""Composites: what their building functions refuse."""
import netcheck
import nets
from net import *
from drive import An
from ports import Probe, strs, word

KINDS = [("Input", 1), ("Output", 2), ("Add",), ("AutoRegressive", 2), ("Constant",), ("CosineResampler", 3), ("Count",),
         ("CumulativeSum",), ("Difference", False), ("Join", 2), ("Division",), ("Minus",), ("Linear", 2), ("EqualTo",),
         ("GreaterThan",), ("LessThan",), ("HermiteResampler", 5), ("Identity",), ("MovingAverage", 2),
         ("FiniteImpulseResponse", 2), ("Variable",), ("PeakDetector", 3), ("StandardDeviation", 3), ("Demultiplexer", 2),
         ("Power",), ("Scale",), ("TimeShift", 3, 2)]


def empty(an):
    cls = an.cls("Composite")
    ct = [u for u, f, ts in an.ctors(cls) if len(ts) == 1 and strtype(ts[0])]
    return [(s, o) for s, o in an.construct(an.state(cls), cls, ct[0], [S("c")]) if o is not None]


def create(an, s, o, kind, id):
    nd = node(an, id, *kind)
    return an.method(s, o, creator(an, nd.op), [S(id)] + nd.cfg["args"][1:])


def good(p, rs, what):
    out = []
    for s, v in rs:
        p.h.steps += 1
        if s.exc is not None:
            p.say("%s throws %s" % (what, exc_str(s.exc)), s)
        else:
            out.append((s, v))
    return out


def unique(an, kind, r):
    p = Probe(an, word(*kind))

    def go():
        for s, o in empty(an):
            for s1, v in good(p, create(an, s, o, kind, "x"), "create %s" % word(*kind)):
                p.expect(s1, v, S("x"), "result of create %s" % word(*kind))
                for k2 in KINDS:
                    p.throws(create(an, s1.copy(), o, k2, "x"), "create %s under the id of a %s" % (word(*k2), kind[0]))
                if kind[0] in ("Input", "Output"):
                    p.throws(create(an, s1.copy(), o, kind, "y"), "second %s" % kind[0].lower())
                data = ["i%d" % i for i in range(1, kind[1] + 1)] if kind[0] == "Input" else []
                outs = ["o%d" % i for i in range(1, kind[1] + 1)] if kind[0] == "Output" else []
                p.get(s1, o, "getDataInputs", [], strs(sorted(data)))
                p.get(s1, o, "getControlInputs", [], strs([]))
                p.get(s1, o, "getOutputs", [], strs(sorted(outs)))
    netcheck.guarded(r, an, p.h, "unique ids: %s" % word(*kind), go)


def wiring(an, r):
    p = Probe(an, "wiring")
    ops = [("in", ("Input", 2)), ("m", ("Minus",)), ("a", ("Add",)), ("d", ("Demultiplexer", 1)), ("o", ("Output", 1))]

    def go():
        m = message(an, "1")
        for s, o in empty(an):
            child = node(an, "k", "Count")
            for s1, k in an.construct(s, child.cfg["cls"], child.cfg["ctor"], child.cfg["args"]):
                for how in (k, PtrV(k)):
                    p.throws(an.method(s1.copy(), o, "connect", [how, S("o1"), S("i1")],
                                       pred=lambda ref, ts: len(ts) == 3 and (ts[0].k == "ptr") == isinstance(how, PtrV)),
                             "connect without an output operator")
            for name, args in (("receiveData", [m, S("i1")]), ("receiveControl", [m, S("c1")]), ("executeData", []),
                               ("executeControl", [])):
                p.throws(an.method(s.copy(), o, name, args), "%s without an input operator" % name)
            cur = [s]
            for id, kind in ops:
                cur = [s2 for s1 in cur for s2, v in good(p, create(an, s1, o, kind, id), "create %s" % id)]
            for s1 in cur:
                for args, ok in ((("in", "nobody", "o1", "i1"), 0), (("nobody", "m", "o1", "i1"), 0),
                                 (("in", "m", "o1", "i9"), 0), (("a", "a", "o9", "i1"), 0), (("a", "a", "o1", "i9"), 0), (("in", "m", "o9", "i1"), 0), (("in", "a", "", "i1"), 0),
                                 (("a", "m", "o1", ""), 0), (("a", "d", "o1", ""), 0), (("a", "m", "", "i2"), 1),
                                 (("in", "a", "o2", ""), 1), (("a", "o", "", ""), 1), (("m", "d", "", "c1"), 1)):
                    rs = an.method(s1.copy(), o, "createInternalConnection", [S(x) for x in args])
                    (good if ok else p.throws)(*((p, rs, "connection %s" % (args,)) if ok else (rs, "connection %s" % (args,))))
                for name, args in (("receiveData", [m, S("i3")]), ("receiveData", [m, S("")]), ("receiveControl", [m, S("c1")])):
                    p.throws(an.method(s1.copy(), o, name, args), "%s on an unknown port" % name)
                p.throws(an.method(s1.copy(), o, "getOperator", [S("nobody")]), "getOperator of an unknown id")
                for id, kind in ops:
                    for s2, v in good(p, an.method(s1.copy(), o, "getOperator", [S(id)]), "getOperator(%s)" % id):
                        v = an.e.rv(s2, v)
                        if isinstance(v, PtrV) and isinstance(v.to, LV):
                            p.expect(s2, an.fld(s2, v.to, "id"), S(id), "id of getOperator(%s)" % id)
    netcheck.guarded(r, an, p.h, "wiring", go)


def job(kind):
    an = An()
    r = netcheck.result("composite building", word(*kind) if kind else "wiring")
    if kind:
        unique(an, kind, r)
    else:
        wiring(an, r)
    return r


def check(out, tier, seed):
    js = [("composites: %s" % l, netcheck.network, ("composites", l, tier, seed)) for l in nets.composites()]
    js += [("building: %s" % word(*k), job, (k,)) for k in KINDS + [("Input", 11), ("Output", 11)]] + [("building: wiring", job, (None,))]
    netcheck.collect(out, js, tier, netcheck.RULE + "; ids are unique and mistakes in building are refused on every path")
