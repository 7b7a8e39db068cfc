"""The networks that are analysed, and the properties stated over them."""
from net import *


def F(*xs):
    return [Feed("in", x) for x in xs]


def topologies():
    """label -> (ops, conns, options, scripts)"""
    r = {}

    def add(label, ops, conns, scripts, **kw):
        r[label] = (ops, conns, kw, scripts)
    i1 = [("in", "Input", 1)]
    add("fan-out to three operators", i1 + [("a", "Add"), ("b", "Scale"), ("c", "Count")],
        [("in", "o1", "b", "i1"), ("in", "o1", "a", "i1"), ("in", "o1", "c", "i1")],
        [F("i1", "i1", "i1"), [Emit("in", {"o1": 2}), Emit("in", {"o1": 1})]])
    add("a later copy on the same input", i1 + [("t", "TimeShift", 3, 1), ("s", "Identity"), ("c", "Count")],
        [("in", "o1", "s", "i1"), ("in", "o1", "t", "i1"), ("t", "o1", "s", "i1"), ("s", "o1", "c", "i1")],
        [[Emit("in", {"o1": 2}), Emit("in", {"o1": 1})], F("i1", "i1")], implicit={0: "from", 1: "to", 2: "both", 3: "to"})
    add("both inputs of one operator", i1 + [("m", "Minus"), ("o", "Output", 1)],
        [("in", "o1", "m", "i1"), ("in", "o1", "m", "i2"), ("m", "o1", "o", "i1")],
        [F("i1", "i1", "i1"), [Emit("in", {"o1": 2}), Emit("in", {"o1": 2})]])
    add("diamond", i1 + [("a", "Add"), ("b", "Scale"), ("j", "Minus"), ("o", "Output", 1)],
        [("in", "o1", "a", "i1"), ("in", "o1", "b", "i1"), ("a", "o1", "j", "i1"), ("b", "o1", "j", "i2"),
         ("j", "o1", "o", "i1")], [F("i1", "i1", "i1"), [Emit("in", {"o1": 3})]])
    add("diamond with a filter on one side", i1 + [("g", "GreaterThan"), ("b", "Identity"), ("j", "Join", 2), ("p", "Plus")],
        [("in", "o1", "g", "i1"), ("in", "o1", "b", "i1"), ("b", "o1", "j", "i2"), ("g", "o1", "j", "i1"),
         ("j", "o1", "p", "i1"), ("j", "o2", "p", "i2")], [F("i1", "i1", "i1", "i1")])
    add("shared target", i1 + [("a", "Add"), ("b", "Scale"), ("c", "CumulativeSum")],
        [("in", "o1", "a", "i1"), ("in", "o1", "b", "i1"), ("a", "o1", "c", "i1"), ("b", "o1", "c", "i1")],
        [F("i1", "i1"), [Emit("in", {"o1": 2})]], implicit=(0, 2))
    add("two entry ports joined", [("in", "Input", 2), ("j", "Join", 2), ("a", "Add"), ("o", "Output", 2)],
        [("in", "o1", "j", "i1"), ("in", "o2", "j", "i2"), ("j", "o1", "a", "i1"), ("a", "o1", "o", "i1"),
         ("j", "o2", "o", "i2")],
        [F("i1", "i2", "i1", "i2"), F("i2", "i2", "i1", "i1"), [Emit("in", {"o1": 2, "o2": 2})], F("i1", "i1", "i2", "i2"),
         [Feed("in", "i2", "i1"), Feed("in", "i1", "i1", run=False), Feed("in", "i2"), Feed("in")]])
    add("outputs crossed", [("in", "Input", 2), ("m", "Minus"), ("n", "Division")],
        [("in", "o1", "m", "i2"), ("in", "o2", "m", "i1"), ("in", "o1", "n", "i1"), ("in", "o2", "n", "i2")],
        [F("i1", "i2", "i2"), [Emit("in", {"o1": 1, "o2": 2}), Emit("in", {"o1": 1})]])
    add("windows in a row", i1 + [("m", "MovingAverage", 2), ("f", "FiniteImpulseResponse", 2), ("o", "Output", 1)],
        [("in", "o1", "m", "i1"), ("m", "o1", "f", "i1"), ("f", "o1", "o", "i1")],
        [F("i1", "i1", "i1", "i1")], implicit=(0, 1, 2))
    add("window against the signal", i1 + [("m", "MovingAverage", 2), ("d", "Minus"), ("p", "PeakDetector", 3)],
        [("in", "o1", "m", "i1"), ("m", "o1", "d", "i2"), ("in", "o1", "d", "i1"), ("d", "o1", "p", "i1")],
        [F("i1", "i1", "i1", "i1")])
    add("demultiplexer fed with its control", [("in", "Input", 2), ("x", "Demultiplexer", 1), ("y", "Identity")],
        [("in", "o1", "x", "i1"), ("in", "o2", "x", "c1"), ("x", "o1", "y", "i1")],
        [F("i1", "i2", "i1", "i2"), F("i2", "i1"), F("i1", "i1", "i2", "i2")])
    add("demultiplexer controlled by the same message", i1 + [("x", "Demultiplexer", 2), ("one", "Constant", 1),
                                                              ("zero", "Constant", 0), ("y", "Add"), ("z", "Scale")],
        [("in", "o1", "one", "i1"), ("in", "o1", "x", "i1"), ("in", "o1", "zero", "i1"), ("one", "o1", "x", "c1"),
         ("zero", "o1", "x", "c2"), ("x", "o1", "y", "i1"), ("x", "o2", "z", "i1")], [F("i1", "i1", "i1")])
    add("data and control on one output", i1 + [("x", "Demultiplexer", 1), ("y", "Count")],
        [("in", "o1", "x", "i1"), ("in", "o1", "x", "c1"), ("x", "o1", "y", "i1")], [F("i1", "i1"), [Emit("in", {"o1": 2})]])
    add("variable queried by the signal", [("in", "Input", 2), ("v", "Variable"), ("s", "Plus")],
        [("in", "o1", "v", "i1"), ("in", "o2", "v", "c1"), ("v", "o1", "s", "i1"), ("in", "o2", "s", "i2")],
        [F("i1", "i2", "i1", "i2"), F("i2", "i1", "i2")])
    add("shifted copy", i1 + [("t", "TimeShift", 2, 1), ("d", "Difference", True), ("j", "Linear", 2)],
        [("in", "o1", "t", "i1"), ("in", "o1", "j", "i1"), ("t", "o1", "j", "i2"), ("in", "o1", "d", "i1")],
        [F("i1", "i1", "i1")])
    add("feedback filter", i1 + [("r", "AutoRegressive", 2), ("l", "LessThan"), ("e", "EqualTo"), ("a", "And")],
        [("in", "o1", "r", "i1"), ("r", "o1", "l", "i1"), ("r", "o1", "e", "i1"), ("l", "o1", "a", "i1"),
         ("e", "o1", "a", "i2")], [F("i1", "i1", "i1")])
    add("deep chain with taps", i1 + [("a", "Add"), ("b", "Add"), ("c", "Add"), ("o", "Output", 3)],
        [("in", "o1", "a", "i1"), ("a", "o1", "b", "i1"), ("b", "o1", "c", "i1"), ("in", "o1", "o", "i1"),
         ("b", "o1", "o", "i2"), ("c", "o1", "o", "i3")], [F("i1", "i1"), [Emit("a", {"o1": 2}), Emit("b", {"o1": 1})]])
    add("three ports joined", [("in", "Input", 3), ("j", "Join", 3), ("m", "Multiplication")],
        [("in", "o1", "j", "i1"), ("in", "o2", "j", "i2"), ("in", "o3", "j", "i3"), ("j", "o3", "m", "i1"),
         ("j", "o1", "m", "i2")], [F("i1", "i2", "i3"), F("i3", "i1", "i2", "i2"), [Emit("in", {"o1": 1, "o2": 2, "o3": 1})]])
    return r


def composites():
    r = {}

    def add(label, ops, conns, scripts, **kw):
        r[label] = (ops, conns, kw, scripts)
    add("composite alone", [("in", "Input", 1), ("a", "Add"), ("b", "Scale"), ("j", "Minus"), ("o", "Output", 1)],
        [("in", "o1", "a", "i1"), ("in", "o1", "b", "i1"), ("a", "o1", "j", "i1"), ("b", "o1", "j", "i2"), ("j", "o1", "o", "i1")],
        [[Feed("c", "i1")] * 3], groups={"c": (["in", "a", "b", "j", "o"], "in", "o")})
    add("composite between operators", [("src", "Input", 2), ("in", "Input", 2), ("m", "MovingAverage", 2), ("o", "Output", 2),
                                        ("p", "Plus"), ("q", "Count")],
        [("in", "o1", "m", "i1"), ("m", "o1", "o", "i1"), ("in", "o2", "o", "i2"), ("src", "o1", "in", "i1"),
         ("src", "o2", "in", "i2"), ("o", "o1", "p", "i1"), ("o", "o2", "p", "i2"), ("src", "o1", "q", "i1")],
        [[Feed("src", x) for x in ("i1", "i2", "i1", "i2")], [Feed("src", x) for x in ("i1", "i1", "i2")],
         [Emit("src", {"o1": 2, "o2": 2})]], groups={"c": (["in", "m", "o"], "in", "o")})
    add("composite with control inside", [("in", "Input", 2), ("x", "Demultiplexer", 2), ("v", "Variable"), ("s", "Identity"),
                                          ("o", "Output", 2)],
        [("in", "o1", "x", "i1"), ("in", "o2", "x", "c1"), ("in", "o2", "x", "c2"), ("x", "o1", "v", "i1"),
         ("x", "o2", "v", "c1"), ("v", "o1", "o", "i1"), ("x", "o2", "o", "i2")],
        [[Feed("c", x) for x in ("i1", "i2", "i1", "i2")]], groups={"c": (["in", "x", "v", "s", "o"], "in", "o")})
    add("two composites", [("a1", "Input", 1), ("a2", "Add"), ("a3", "Output", 1), ("b1", "Input", 1), ("b2", "CumulativeSum"),
                           ("b3", "Output", 1), ("t", "Identity")],
        [("a1", "o1", "a2", "i1"), ("a2", "o1", "a3", "i1"), ("b1", "o1", "b2", "i1"), ("b2", "o1", "b3", "i1"),
         ("a3", "o1", "b1", "i1"), ("b3", "o1", "t", "i1")],
        [[Feed("ca", "i1")] * 3], groups={"ca": (["a1", "a2", "a3"], "a1", "a3"), "cb": (["b1", "b2", "b3"], "b1", "b3")})
    kinds = [("Add",), ("Autoregressive", 2), ("Constant",), ("CosineResampler", 3), ("Count",), ("CumulativeSum",),
             ("Difference", False), ("EqualTo",), ("GreaterThan",), ("LessThan",), ("HermiteResampler", 5), ("Identity",),
             ("MovingAverage", 2), ("FiniteImpulseResponse", 2), ("PeakDetector", 3), ("StandardDeviation", 3), ("Power",),
             ("Scale",), ("TimeShift", 3, 2), ("TimeShift", 4, -2)]
    for k in kinds:
        kind = "AutoRegressive" if k[0] == "Autoregressive" else k[0]
        add("composite of one %s%s" % (kind, " back" if kind == "TimeShift" and k[2] < 0 else ""),
            [("in", "Input", 1), ("x", kind) + k[1:], ("o", "Output", 1)],
            [("in", "o1", "x", "i1"), ("x", "o1", "o", "i1")],
            [[Feed("c", "i1")] * (3 if "Resampler" not in kind else 2)], groups={"c": (["in", "x", "o"], "in", "o")})
    add("composite of one Variable", [("in", "Input", 2), ("x", "Variable"), ("o", "Output", 1)],
        [("in", "o1", "x", "i1"), ("in", "o2", "x", "c1"), ("x", "o1", "o", "i1")],
        [[Feed("c", x) for x in ("i2", "i1", "i2")], [Feed("c", x) for x in ("i1", "i2", "i1")]],
        groups={"c": (["in", "x", "o"], "in", "o")})
    add("composite of one Demultiplexer", [("in", "Input", 4), ("x", "Demultiplexer", 3), ("o", "Output", 3)],
        [("in", "o1", "x", "i1"), ("in", "o2", "x", "c1"), ("in", "o3", "x", "c2"), ("in", "o4", "x", "c3"),
         ("x", "o1", "o", "i1"), ("x", "o2", "o", "i2"), ("x", "o3", "o", "i3")],
        [[Feed("c", x) for x in ("i1", "i2", "i4", "i3")]], groups={"c": (["in", "x", "o"], "in", "o")})
    add("composite of one Join of three", [("in", "Input", 3), ("x", "Join", 3), ("o", "Output", 3)],
        [("in", "o1", "x", "i1"), ("in", "o2", "x", "i2"), ("in", "o3", "x", "i3"), ("x", "o1", "o", "i1"), ("x", "o2", "o", "i2"),
         ("x", "o3", "o", "i3")],
        [[Feed("c", x) for x in ("i1", "i3", "i2", "i1")]], groups={"c": (["in", "x", "o"], "in", "o")})
    many = [("in", "o%d" % i, "o", "i%d" % (i % 11 + 1)) for i in range(1, 12)]
    add("composite of eleven ports", [("in", "Input", 11), ("o", "Output", 11)], many,
        [[Feed("c", x) for x in ("i10", "i2", "i11", "i10")]], groups={"c": (["in", "o"], "in", "o")})
    for kind in ("Minus", "Division", "Linear", "Join"):
        n = () if kind in ("Minus", "Division") else (2,)
        add("composite of one %s" % kind, [("in", "Input", 2), ("x", kind) + n, ("o", "Output", 1)],
            [("in", "o1", "x", "i1"), ("in", "o2", "x", "i2"), ("x", "o1", "o", "i1")],
            [[Feed("c", "i1"), Feed("c", "i2"), Feed("c", "i2")], [Feed("c", "i1", "i2"), Feed("c", "i2", run=False), Feed("c", "i1")]],
            groups={"c": (["in", "x", "o"], "in", "o")})
    return r


def pipelines():
    r = {}

    def add(label, ops, conns, scripts, **kw):
        r[label] = (ops, conns, kw, scripts)
    chain = ([("a", "Add"), ("m", "MovingAverage", 2)], [("a", "o1", "m", "i1")])
    add("pipeline alone", [("p", "Pipeline") + chain], [], [[Feed("p", "i1")] * 4])
    add("pipeline between operators", [("in", "Input", 1), ("p", "Pipeline") + chain, ("c", "Count"), ("j", "Minus")],
        [("in", "o1", "p", "i1"), ("p", "o1", "c", "i1"), ("in", "o1", "j", "i1"), ("p", "o1", "j", "i2")],
        [F("i1", "i1", "i1"), [Emit("in", {"o1": 3})]], implicit=(0, 1))
    two = ([("a", "Add"), ("b", "Scale"), ("g", "GreaterThan")], [("a", "o1", "g", "i1")])
    add("pipeline with two inputs and outputs", [("in", "Input", 2), ("p", "Pipeline") + two, ("m", "Plus")],
        [("in", "o1", "p", "i2"), ("in", "o2", "p", "i1"), ("p", "o1", "m", "i2"), ("p", "o2", "m", "i1")],
        [F("i1", "i2", "i1", "i2"), F("i2", "i2", "i1"),
         [Feed("p", "i1", "i2"), Feed("p", "i2", run=False), Feed("p", "i1", "i1"), Feed("p")]])
    meet = ([("a", "Add"), ("b", "Scale"), ("s", "Identity"), ("t", "CumulativeSum")],
            [("a", "o1", "s", "i1"), ("b", "o1", "s", "i1"), ("b", "o1", "t", "i1")])
    add("pipeline whose inputs meet in one operator", [("p", "Pipeline") + meet, ("c", "Count"), ("q", "Output", 1)],
        [("p", "o1", "c", "i1"), ("p", "o2", "q", "i1")],
        [[Feed("p", "i2", "i1", run=False), Feed("p"), Feed("p", "i2"), Feed("p", "i1", "i2", "i1")]])
    join = ([("j", "Join", 2), ("f", "Demultiplexer", 1), ("one", "Constant", 1)],
            [("j", "o1", "f", "i1"), ("j", "o2", "one", "i1"), ("one", "o1", "f", "c1")])
    add("pipeline that joins its inputs", [("in", "Input", 2), ("p", "Pipeline") + join, ("o", "Output", 1)],
        [("in", "o1", "p", "i1"), ("in", "o2", "p", "i2"), ("p", "o1", "o", "i1")],
        [F("i1", "i2", "i1", "i2"), F("i1", "i1", "i2", "i2")])
    add("one message to both inputs of a pipeline", [("in", "Input", 1), ("p", "Pipeline") + two, ("m", "Minus")],
        [("in", "o1", "p", "i1"), ("in", "o1", "p", "i2"), ("p", "o1", "m", "i1"), ("p", "o2", "m", "i2")],
        [F("i1", "i1", "i1"), [Emit("in", {"o1": 2})]])
    inner = ([("x", "CumulativeSum"), ("q", "Pipeline") + chain], [("x", "o1", "q", "i1")])
    add("pipeline in a pipeline", [("in", "Input", 1), ("p", "Pipeline") + inner, ("o", "Output", 1)],
        [("in", "o1", "p", "i1"), ("p", "o1", "o", "i1")], [F("i1", "i1", "i1")])
    paths = ([("a", "Identity"), ("b", "Scale"), ("c", "Add"), ("d", "Identity"), ("s", "Identity")],
             [("a", "o1", "b", "i1"), ("a", "o1", "c", "i1"), ("a", "o1", "d", "i1"), ("b", "o1", "s", "i1"), ("c", "o1", "s", "i1"), ("d", "o1", "s", "i1")])
    add("pipeline that puts out several messages at once", [("p", "Pipeline") + paths, ("k", "Count")],
        [("p", "o1", "k", "i1")], [[Feed("p", "i1")] * 3])
    fan = ([("a", "Identity"), ("b", "Add"), ("c", "Scale")], [("a", "o1", "b", "i1"), ("a", "o1", "c", "i1")])
    add("pipeline that branches", [("p", "Pipeline") + fan, ("d", "Division")],
        [("p", "o1", "d", "i1"), ("p", "o2", "d", "i2")], [[Feed("p", "i1")] * 3, [Emit("p", {"o1": 2, "o2": 2})]])
    return r


# ---------------------------------------------------------------- more event sequences, generated networks
def more(net, scripts, tier, seed):
    """the given event sequences; in the thorough tier longer random ones as well"""
    for s in scripts:
        yield s
    if tier == "quick":
        return
    rng = random.Random("%s %s" % (seed, net.label))
    feeds = sorted({(e.id,) + e.ports for s in scripts for e in s if isinstance(e, Feed)})
    emits = [e for s in scripts for e in s if isinstance(e, Emit)]
    for i in range(3):
        s = []
        for k in range(6):
            if emits and rng.random() < 0.3:
                e = rng.choice(emits)
                s.append(Emit(e.id, {p: rng.randrange(1, 3) for p in e.ports}))
            elif feeds:
                s.append(Feed(*rng.choice(feeds)))
        if s:
            yield s


def saving(net, scripts, tier, seed):
    """event sequences with the network saved and restored in between"""
    for i, s in enumerate(scripts[:1] if tier == "quick" else scripts):
        s = list(s)
        half = max(1, len(s) // 2)
        yield s[:half] + [Save(True), Save()] + s[half:] + [Save()] + s[-1:]
        if i == 0 and all(isinstance(x, Feed) and x.run for x in s[:2]) and len(s) > 1:
            # messages that wait for their execution are saved as well
            yield [Feed(x.id, *x.ports, run=False) for x in s[:2]] + [Save()] + [Feed(x) for x in sorted({x.id for x in s[:2]})]
        if tier != "quick":
            yield [Save()] + s[:half + 1] + [Save(), Save()] + s[half:]


KINDS = [("Identity",), ("Add",), ("Scale",), ("Count",), ("CumulativeSum",), ("Difference", True), ("Difference", False),
         ("GreaterThan",), ("LessThan",), ("EqualTo",), ("MovingAverage", 2), ("FiniteImpulseResponse", 2),
         ("PeakDetector", 3), ("AutoRegressive", 1), ("TimeShift", 3, 1), ("Output", 1), ("Output", 2),
         ("Plus",), ("Minus",), ("Division",), ("And",), ("GreaterThanStream",), ("Linear", 2), ("Join", 2), ("Join", 3),
         ("Demultiplexer", 1), ("Demultiplexer", 2), ("Variable",), ("Input", 1), ("Constant",)]


def generated(an, seed):
    """a random acyclic network: each input is fed by one earlier output, outputs fan out"""
    rng = random.Random("network %s" % seed)
    ops = [("in", "Input", rng.randrange(1, 4))]
    nodes = {"in": node(an, *ops[0])}
    outs = [("in", p) for p in nodes["in"].outs]
    conns = []
    for k in range(rng.randrange(3, 7)):
        kind = rng.choice(KINDS)
        id = "%s%d" % (rng.choice("zymkba"), k)
        ops.append((id,) + kind)
        nd = nodes[id] = node(an, *ops[-1])
        for p in list(nd.data) + list(nd.ctl):
            f, fp = rng.choice(outs[-6:])
            conns.append((f, fp, id, p))
        outs += [(id, p) for p in nd.outs]
    rng.shuffle(conns)
    ps = nodes["in"].data
    scripts = [[Feed("in", rng.choice(ps)) for i in range(3)]]
    scripts.append([Emit("in", {p: rng.randrange(0, 3) for p in nodes["in"].outs})])
    return ops, conns, {}, scripts
