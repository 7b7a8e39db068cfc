"""Ports of operators: declaration, queries, and which connections are made, refused or rejected."""
import itertools
import netcheck
from net import *
from drive import An

SENDERS = [("Input", 1), ("Input", 2), ("Count",), ("Demultiplexer", 2), ("Join", 3), ("Variable",), ("MovingAverage", 2)]
CHILDREN = [("Identity",), ("CumulativeSum",), ("Minus",), ("Demultiplexer", 1), ("Demultiplexer", 3), ("Variable",), ("Input", 2),
            ("Join", 3), ("Output", 1)]
EVERY = [("Identity",), ("Add",), ("Scale",), ("Constant",), ("Power",), ("LessThan",), ("GreaterThan",), ("EqualTo",),
         ("TimeShift", 2, 1), ("Count",), ("CumulativeSum",), ("Difference", True), ("MovingAverage", 3),
         ("StandardDeviation", 3), ("FiniteImpulseResponse", 3), ("PeakDetector", 3), ("RelativeStrengthIndex", 3),
         ("AutoRegressive", 2), ("Plus",), ("Minus",), ("Multiplication",), ("Division",), ("And",), ("Or",),
         ("GreaterThanStream",), ("LessThanStream",), ("Linear", 3), ("Join", 2), ("Join", 4), ("Demultiplexer", 1),
         ("Demultiplexer", 3), ("Variable",), ("ConstantResampler", 5), ("CosineResampler", 5), ("HermiteResampler", 5),
         ("Input", 1), ("Input", 3), ("Output", 1), ("Output", 3)]


def word(*k):
    return " ".join(map(str, k))


class Probe:
    """one obligation: found holds the mismatches, as in History"""

    def __init__(self, an, label):
        self.an, self.e = an, an.e
        self.h = History(an, label)

    def say(self, what, s, vals=()):
        return self.h.alarm(what, s.facts, s, vals, None)

    def expect(self, s, got, want, what):
        got = self.e.rv(s, got)
        r = vsame(self.e, s.facts, got, want, s.store, s.store)
        if r is False:
            self.say("%s is %s, specified %s" % (what, vshow(got)[:300], vshow(want)[:300]), s, (got, want))
        elif r is None:
            self.h.note("%s not compared: %s" % (what, vshow(got)[:200]))

    def get(self, st, obj, name, args, want, what=None):
        """every path of a query returns want"""
        what = what or "%s(%s)" % (name, ", ".join(map(vshow, args)))
        for s, v in self.an.method(st.copy(), obj, name, args):
            self.h.steps += 1
            if s.exc is not None:
                self.say("%s throws %s" % (what, exc_str(s.exc)), s)
            else:
                self.expect(s, v, want, what)

    def throws(self, rs, what):
        for s, v in rs:
            self.h.steps += 1
            if s.exc is None:
                self.say("%s does not throw" % what, s)
            elif s.exc.ty == "UB":
                self.say("%s: %s" % (what, exc_str(s.exc)), s)


def strs(xs):
    return SeqV(None, None, ZERO, ZERO, [("e", S(x)) for x in xs])


def build(an, nd, st=None):
    st = st or an.state()
    return [(s, o) for s, o in an.construct(st, nd.cfg["cls"], nd.cfg["ctor"], nd.cfg["args"]) if o is not None]


def queries(p, s, o, data, ctl, outs):
    g = p.get
    g(s, o, "getDataInputs", [], strs(sorted(data)))
    g(s, o, "getControlInputs", [], strs(sorted(ctl)))
    g(s, o, "getAllInputs", [], strs(sorted(data) + sorted(ctl)))
    g(s, o, "getOutputs", [], strs(sorted(outs)))
    g(s, o, "getNumDataInputs", [], P(len(data)))
    g(s, o, "getNumControlInputs", [], P(len(ctl)))
    g(s, o, "getNumOutputPorts", [], P(len(outs)))
    g(s, o, "hasControlInputs", [], T if ctl else F)
    for x in list(data) + list(ctl) + ["o1", "x", ""]:
        g(s, o, "isDataInput", [S(x)], T if x in data else F)
        g(s, o, "isControlInput", [S(x)], T if x in ctl else F)


def addressed(p, st, o, data, ctl):
    """a message handed to a port: a declared one, or none named where there is just one"""
    an = p.an
    for name, mine, last in (("receiveData", data, "getDataInputLastMessage"),
                             ("receiveControl", ctl, "getControlInputLastMessage")):
        for x in ["", "x"] + data + ctl:
            what = "%s(%r)" % (name, x)
            rs = an.method(st.copy(), o, name, [message(an, "1"), S(x)])
            if x not in mine and (x or len(mine) != 1):
                p.throws(rs, what)
                continue
            for s, v in rs:
                p.h.steps += 1
                if s.exc is not None:
                    p.say("%s throws %s" % (what, exc_str(s.exc)), s)
                else:
                    p.get(s, o, last, [S(x or mine[0])], message(an, "1"), "%s after %s" % (last, what))


def declared(an, kind, r):
    """queries of a new operator; ports added to it"""
    nd = node(an, "op", *kind)
    p = Probe(an, word(*kind))

    def go():
        for st, o in build(an, nd):
            data, ctl, outs = list(nd.data), list(nd.ctl), list(nd.outs)
            queries(p, st, o, data, ctl, outs)
            addressed(p, st, o, data, ctl)
            for x in ["x", ""]:
                for name in ("getDataInputMessage", "getControlInputMessage"):
                    p.throws(an.method(st.copy(), o, name, [S(x), ZERO]), "%s(%r, 0)" % (name, x))
                for name in ("getDataInputLastMessage", "getControlInputLastMessage", "getDataInputFirstMessage",
                             "getDataInputSum"):
                    p.throws(an.method(st.copy(), o, name, [S(x)]), "%s(%r)" % (name, x))
            for name in ("getDataInputSize", "getDataInputMaxSize"):
                p.throws(an.method(st.copy(), o, name, [S("x")]), "%s(x)" % name)
            for name, mine in (("addDataInput", data), ("addControlInput", ctl)):
                p.throws(an.method(st.copy(), o, name, [S(""), ONE]), "%s without a name" % name)
                for x in data + ctl:
                    p.throws(an.method(st.copy(), o, name, [S(x), ONE]), "%s(%s), which exists," % (name, x))
                for s2, v in an.method(st.copy(), o, name, [S("new"), P(2)]):
                    if s2.exc is not None:
                        p.say("%s(new) throws %s" % (name, exc_str(s2.exc)), s2)
                        continue
                    mine.append("new")
                    queries(p, s2, o, data, ctl, outs)
                    addressed(p, s2, o, data, ctl)
                    for again in ("addDataInput", "addControlInput"):
                        p.throws(an.method(s2.copy(), o, again, [S("new"), ZERO]), "%s(new), which exists," % again)
                    mine.remove("new")
            for s2, v in an.method(st.copy(), o, "addOutput", [S("new")]):
                queries(p, s2, o, data, ctl, outs + ["new"])
    netcheck.guarded(r, an, p.h, "ports of %s" % word(*kind), go)


def names(ports):
    """names used in a connection: none, each declared port, one that is not declared"""
    return [""] + list(ports) + ["nowhere"]


def links(an, sender, child, r, tier):
    a, b = node(an, "a", *sender), node(an, "b", *child)
    ins = list(b.data) + list(b.ctl)
    for op, ip in itertools.product(names(a.outs), names(ins)):
        out, inp = op, ip
        if not out and len(a.outs) == 1:
            out = a.outs[0]
        if not inp and len(ins) == 1 and b.data:
            inp = ins[0]
        how = "throw" if not out or not inp else "made" if out in a.outs and inp in ins else "refused"
        for ptr in (True, False):
            h = History(an, "connect")
            h.extra = None

            def go():
                for st, x in build(an, a):
                    for s1, y in build(an, b, st):
                        for s2, v in an.method(s1, x, "connect", [PtrV(y) if ptr else y, S(op), S(ip)],
                                               pred=lambda ref, ts: len(ts) == 3 and (ts[0].k == "ptr") == ptr):
                            h.steps += 1
                            after(an, h, s2, v, x, y)

            def after(an, h, s, v, x, y):
                if s.exc is not None:
                    if how != "throw" or s.exc.ty == "UB":
                        h.alarm("connect(%s, %s) throws %s" % (op, ip, exc_str(s.exc)), s.facts, s, (), None)
                        return
                    s = s.copy()
                    s.exc = None
                elif how == "throw":
                    h.alarm("connect(%r, %r) does not throw though the port can not be deduced" % (op, ip), s.facts, s, (), None)
                    return
                else:
                    v = an.e.rv(s, v)
                    got = v.to if isinstance(v, PtrV) else v
                    if how == "made" and not (isinstance(got, LV) and got.loc == y.loc) or \
                            how == "refused" and not (isinstance(v, PtrV) and v.to is None):
                        h.alarm("connect(%r, %r) returns %s" % (op, ip, vshow(v)), s.facts, s, (), None)
                        return
                net = Net(an, "connect", [("a",) + sender, ("b",) + child],
                          [("a", out, "b", inp)] if how == "made" else [])
                h.extra = observers(net)
                sc = [Emit("a", {p: 1}) for p in a.outs]
                vs = net.start(an.e, None)
                h.run([(s, {"a": x, "b": y}, vs)], sc, lambda s, w, ev, k: direct(net, ev, k, s, w), model(net),
                      ordered(net, sc))
            netcheck.guarded(r, an, h, "%s to %s: connect(%s, %s)%s" % (word(*sender), word(*child), op or "-", ip or "-",
                                                                      "" if ptr else " by reference"), go)
            if r["alarms"]:
                return


def emitting(an, kind, r):
    """messages for an output port that does not exist are refused"""
    nd = node(an, "op", *kind)
    p = Probe(an, "emit")

    def go():
        for st, o in build(an, nd):
            net = Net(an, "emit", [("op",) + kind], [])
            for s, w, v in direct(net, Emit("op", {"nowhere": 1}), 0, st.copy(), {"op": o}):
                p.throws([(s, v)], "emit on a port that does not exist")
    netcheck.guarded(r, an, p.h, "emit on an unknown port of %s" % word(*kind), go)


def job(kind, what, tier):
    an = An()
    r = netcheck.result("ports", word(*what))
    if kind == "declared":
        declared(an, what, r)
        emitting(an, what, r)
    else:
        for c in CHILDREN:
            links(an, what, c, r, tier)
            if r["alarms"]:
                break
    return r


RULE = "port queries answer the declared ports; a connection is made exactly for declared ports, deduced ones only where there is " \
       "a single candidate, and a refused one leaves the behaviour unchanged"


def check(out, tier, seed):
    js = [("connect from %s" % word(*k), job, ("links", k, tier)) for k in SENDERS]
    js += [("ports of %s" % word(*k), job, ("declared", k, tier)) for k in EVERY]
    netcheck.collect(out, js, tier, RULE)
