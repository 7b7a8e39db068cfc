"""Definitions that have to be refused, and what has to be reported for them."""
import copy
import netcheck
from net import *
from drive import An
from ports import Probe


def J(x):
    """python data as json text content"""
    if isinstance(x, Json):
        return x
    if isinstance(x, dict):
        return Json("obj", tuple((k, J(v)) for k, v in sorted(x.items())))
    if isinstance(x, (list, tuple)):
        return Json("arr", SeqV(None, None, ZERO, ZERO, [("e", J(v)) for v in x]))
    if isinstance(x, str):
        return Json("val", S(x))
    if isinstance(x, bool):
        return Json("val", T if x else F)
    return Json("val", P(x))


def dump(x):
    return SA(("dump", J(x)))


def base():
    return {"entryOperator": "in", "output": {"j": ["o1"]},
            "operators": [{"type": "Input", "id": "in", "numPorts": 2}, {"type": "Add", "id": "a", "value": real("value")},
                          {"type": "Minus", "id": "j"}, {"type": "Demultiplexer", "id": "d", "numPorts": 1},
                          {"type": "Output", "id": "o", "numPorts": 2}],
            "connections": [{"from": "in", "to": "a", "fromPort": "o1"},
                            {"from": "a", "to": "j", "fromPort": "o1", "toPort": "i1"},
                            {"from": "in", "to": "j", "fromPort": "o2", "toPort": "i2"},
                            {"from": "j", "to": "d", "fromPort": "o1", "toPort": "i1"},
                            {"from": "j", "to": "d", "toPort": "c1"},
                            {"from": "d", "to": "o", "toPort": "i2"}]}


PARAMS = [({"type": "Add", "value": 1}, ("value",)), ({"type": "Scale", "value": 1}, ("value",)),
          ({"type": "Constant", "value": 1}, ("value",)), ({"type": "Power", "value": 1}, ("value",)),
          ({"type": "LessThan", "value": 1}, ("value",)), ({"type": "GreaterThan", "value": 1}, ("value",)),
          ({"type": "EqualTo", "value": 1}, ("value",)), ({"type": "MovingAverage", "n": 3}, ("n",)),
          ({"type": "StandardDeviation", "n": 3}, ("n",)), ({"type": "PeakDetector", "n": 3}, ("n",)),
          ({"type": "RelativeStrengthIndex", "n": 3}, ("n",)),
          ({"type": "FiniteImpulseResponse", "coeff": [1, 2]}, ("coeff",)),
          ({"type": "AutoRegressive", "coeff": [1, 2]}, ("coeff",)), ({"type": "Linear", "coeff": [1, 2]}, ("coeff",)),
          ({"type": "CosineResampler", "dt": 2}, ("dt",)), ({"type": "HermiteResampler", "dt": 2}, ("dt",)),
          ({"type": "ConstantResampler", "interval": 2}, ("interval",)),
          ({"type": "Function", "points": [[0, 1], [2, 3]]}, ("points",)),
          ({"type": "Pipeline", "prog": {"operators": [{"type": "Count", "id": "c"}], "connections": []}}, ("prog",))]
PLAIN = ["Identity", "Count", "CumulativeSum", "Difference", "Plus", "Minus", "Multiplication", "Division", "And", "Or",
         "GreaterThanStream", "LessThanStream", "Join", "Demultiplexer", "Variable", "TimeShift", "Input", "Output"]


def operators():
    """(label, operator definition, is it accepted)"""
    for d, req in PARAMS:
        full = dict(d, id="x")
        yield d["type"], full, True
        for k in list(req) + ["id"]:
            e = dict(full)
            del e[k]
            yield "%s without %s" % (d["type"], k), e, False
    for t in PLAIN:
        yield t, {"type": t, "id": "x"}, True
        yield "%s without id" % t, {"type": t}, False
    yield "operator of an unknown type", {"type": "Nothing", "id": "x"}, False
    yield "operator of an empty type", {"type": "", "id": "x"}, False
    yield "operator without type", {"id": "x"}, False
    yield "join of one port", {"type": "Join", "id": "x", "numPorts": 1}, False
    yield "linear of one coefficient", {"type": "Linear", "id": "x", "coeff": [real("c")]}, False
    yield "linear without coefficients", {"type": "Linear", "id": "x", "coeff": []}, False
    yield "autoregressive without coefficients", {"type": "AutoRegressive", "id": "x", "coeff": []}, False
    yield "cosine resampler of interval 0", {"type": "CosineResampler", "id": "x", "dt": 0}, False
    yield "hermite resampler of interval 0", {"type": "HermiteResampler", "id": "x", "dt": 0}, False
    yield "function of one point", {"type": "Function", "id": "x", "points": [[real("x"), real("y")]]}, False
    yield "function of an unknown method", {"type": "Function", "id": "x", "points": [[0, 1], [2, 3]],
                                            "interpolationType": "cubic"}, False
    inner = {"operators": [{"type": "Count", "id": "c"}, {"type": "Identity", "id": "i"}], "connections": [
        {"from": "c", "to": "i"}]}
    yield "pipeline", {"type": "Pipeline", "id": "x", "prog": inner}, True
    for label, bad in broken(inner):
        yield "pipeline: %s" % label, {"type": "Pipeline", "id": "x", "prog": bad}, False


def broken(d):
    """definitions of operators and connections with one mistake"""
    def but(f):
        e = copy.deepcopy(d)
        f(e)
        return e

    def drop(k):
        def f(e):
            del e[k]
        return f
    yield "no operators", but(drop("operators"))
    yield "no connections", but(drop("connections"))
    yield "operator of an unknown type", but(lambda e: e["operators"].append({"type": "Sum", "id": "s"}))
    yield "operator without id", but(lambda e: e["operators"].append({"type": "Count"}))
    yield "two operators of one id", but(lambda e: e["operators"].append({"type": "Count", "id": e["operators"][-1]["id"]}))
    yield "an operator listed twice", but(lambda e: e["operators"].append(dict(e["operators"][0])))
    for k in ("from", "to"):
        yield "connection %s an unknown operator" % k, but(lambda e: e["connections"][0].update({k: "nobody"}))
        yield "connection without %s" % k, but(lambda e: e["connections"][0].pop(k))
    for i in (0, len(d["connections"]) - 1):
        yield "connection %d from an unknown port" % i, but(lambda e: e["connections"][i].update({"fromPort": "o7"}))
        yield "connection %d to an unknown port" % i, but(lambda e: e["connections"][i].update({"toPort": "i7"}))


def programs():
    """(label, program definition, is it accepted)"""
    d = base()
    yield "program", d, True

    def but(f):
        e = copy.deepcopy(d)
        f(e)
        return e

    def drop(k):
        return but(lambda e: e.pop(k))
    yield "without output", drop("output"), True
    yield "empty output", but(lambda e: e.update(output={})), True
    yield "without entry", drop("entryOperator"), False
    yield "empty entry", but(lambda e: e.update(entryOperator="")), False
    yield "unknown entry", but(lambda e: e.update(entryOperator="nobody")), False
    yield "entry with control inputs", but(lambda e: e.update(entryOperator="d")), False
    yield "no operator at all", but(lambda e: e.update(operators=[], connections=[])), False
    yield "sender port not deducible", but(lambda e: e["connections"][0].pop("fromPort")), False
    yield "receiver port not deducible", but(lambda e: e["connections"][1].pop("toPort")), False
    yield "receiver port of a single control not deducible", but(lambda e: e["connections"][4].pop("toPort")), False
    for label, e in broken(d):
        yield label, e, False
    for label, op, ok in operators():
        if not ok:
            yield "with %s" % label, but(lambda e: e["operators"].append(op)), False
            yield "beginning with %s" % label, but(lambda e: e["operators"].insert(0, op)), False


def outcome(p, label, ok, rs):
    """rs: [(state, object or None)]"""
    for s, o in rs:
        p.h.steps += 1
        if ok and s.exc is not None:
            p.say("%s is refused with %s" % (label, exc_str(s.exc)), s)
        elif not ok and s.exc is None:
            p.say("%s is accepted" % label, s)
        elif s.exc is not None and s.exc.ty == "UB":
            p.say("%s: %s" % (label, exc_str(s.exc)), s)


def static(an, cls, name):
    for u in an.p.methods_named(cls, name):
        return u
    raise Undecided("no function %s" % name)


def refused(an, st0, fac, label, d, ok, r):
    """Program(text), and createProgram of the registry, which stays as it was when the text is refused"""
    p = Probe(an, label)

    def go():
        text = dump(d)
        outcome(p, label, ok, [(s, o) for s, o in program(an, st0.copy(), text)])
        cls = an.cls("FactoryOp")
        good = Net(an, "good", [("x", "Add"), ("y", "Count")], [("x", "o1", "y", "i1")])
        for s, v in an.method(st0.copy(), fac, "createProgram", [S("p"), text],
                              pred=lambda ref, ts: len(ts) == 2 and strtype(ts[1])):
            if ok:
                continue
            p.h.steps += 1
            if s.exc is None:
                # the registry may report the mistake as text, but must not know the program
                for s2, v2 in an.method(s.copy(), fac, "getProgramEntryOperatorId", [S("p")]):
                    if s2.exc is None:
                        p.say("createProgram accepts %s" % label, s2)
                continue
            if s.exc.ty == "UB":
                p.say("createProgram of %s: %s" % (label, exc_str(s.exc)), s)
                continue
            s = s.copy()
            s.exc = None
            for s2, v2 in an.method(s, fac, "createProgram", [S("p"), good.program()],
                                    pred=lambda ref, ts: len(ts) == 2 and strtype(ts[1])):
                if s2.exc is not None:
                    p.say("after createProgram of %s was refused the id is taken: %s" % (label, exc_str(s2.exc)), s2)
    netcheck.guarded(r, an, p.h, label, go)


def read(an, st0, label, d, ok, r):
    p = Probe(an, label)

    def go():
        cls = an.cls("FactoryOp")
        outcome(p, label, ok, an.e.call(st0.copy(), static(an, cls, "readOp"), None, [dump(d)], {"k": "call", "l": 0}))
    netcheck.guarded(r, an, p.h, "readOp: %s" % label, go)


def job(kind, part, parts):
    an = An()
    r = netcheck.result("definitions", kind)
    st0, fac = registered(an)
    todo = [x for i, x in enumerate(programs() if kind == "programs" else operators()) if i % parts == part]
    for label, d, ok in todo:
        if kind == "programs":
            refused(an, st0, fac, label, d, ok, r)
        else:
            read(an, st0, label, d, ok, r)
    return r


RULE = "a definition with a mistake makes every path end in an exception (nothing is read that is not there) and leaves no " \
       "program behind; correct definitions are accepted on every path"


def check(out, tier, seed):
    js = [("programs %d" % i, job, ("programs", i, 6)) for i in range(6)]
    js += [("operators %d" % i, job, ("operators", i, 2)) for i in range(2)]
    netcheck.collect(out, js, tier, RULE)
