"""The program registry (FactoryOp): programs by id, message buffers, life cycle."""
from net import *


class Call:
    """one call of the interface: kind and its arguments"""

    def __init__(self, kind, pid, *a):
        self.kind, self.pid, self.a = kind, pid, a

    def __repr__(self):
        return "%s(%s%s)" % (self.kind, self.pid, "".join(", " + (x.label if isinstance(x, Net) else str(x)) for x in self.a))


def strs(xs):
    return SeqV(None, None, ZERO, ZERO, [("e", S(x)) for x in xs])


class Registry:
    """the interface as methods of a FactoryOp object"""

    def __init__(self, an):
        self.an, self.e = an, an.e
        self.cls = an.cls("FactoryOp")

    def call(self, st, obj, name, args, pred=None):
        return self.an.method(st, obj, name, args, pred=pred)

    def do(self, st, obj, ev, k):
        an = self.an
        kind, pid, a = ev.kind, S(ev.pid), ev.a
        if kind == "create":
            rs = self.call(st, obj, "createProgram", [pid, a[0].program()],
                           lambda r, ts: len(ts) == 2 and strtype(ts[1]))
            return [(s, obj, None) for s, v in rs]
        if kind == "copy":
            out = []
            for s, b in self.call(st, obj, "serialize", [pid]):
                if s.exc is not None:
                    out.append((s, obj, None))
                    continue
                bl = b if isinstance(b, LV) else an.e.alloc(s, an.e.rv(s, b), "b")
                for s2, v in self.call(s, obj, "createProgram", [S(a[0]), bl],
                                       lambda r, ts: len(ts) == 2 and not strtype(ts[1])):
                    out.append((s2, obj, None))
            return out
        if kind == "delete":
            return self.ret(self.call(st, obj, "deleteProgram", [pid]), obj)
        if kind == "add":
            return self.ret(self.call(st, obj, "addToMessageBuffer", [pid, S(a[0]), message(an, str(k + 1))]), obj)
        if kind in ("process", "processDebug"):
            return self.ret(self.call(st, obj, "processMessageBuffer" + kind[7:], [pid]), obj)
        if kind in ("map", "mapDebug"):
            n = "processMessageMap" + kind[3:]
            arg = opmsg(a[1], st, a[0], k, self.cls, n)
            return self.ret(self.call(st, obj, n, [pid, arg]), obj)
        if kind == "entry":
            return self.ret(self.call(st, obj, "getProgramEntryOperatorId", [pid]), obj)
        if kind == "ports":
            return self.ret(self.call(st, obj, "getProgramEntryPorts", [pid]), obj)
        if kind == "filter":
            return self.ret(self.call(st, obj, "getProgramOutputFilter", [pid]), obj)
        raise Undecided("call %s" % kind)

    def ret(self, rs, obj):
        return [(s, obj, self.e.rv(s, v) if v is not None and s.exc is None else None) for s, v in rs]

    # model state: {"progs": {pid: (net, vs)}, "buf": {pid: {port: [messages]}}}
    def model(self, ctx, w, ev, k):
        an = self.an
        progs, buf = dict(w["progs"]), dict(w["buf"])
        kind, pid, a = ev.kind, ev.pid, ev.a

        def done(v):
            return v, {"progs": progs, "buf": buf}

        def known():
            if pid not in progs:
                raise Thrown("program %s is not known" % pid, w)
            return progs[pid]

        def feed(ports, debug):
            net, vs = known()
            if vs is None:
                raise AnyThing()
            vs = dict(vs)
            log = []
            for p in sorted(ports):
                if p not in net.nodes[net.entry].data:
                    # refused before anything was fed: nothing has changed but the buffer; otherwise left open
                    if log or p != min(ports):
                        progs[pid] = (net, None)
                    raise Thrown("port %s" % p, {"progs": progs, "buf": buf})
                for m in ports[p]:
                    net.feed(ctx, vs, net.entry, [(p, m)], True, log)
            progs[pid] = (net, vs)
            return net.result(log, keep=None if debug or not net.filter else net.filter)
        if kind == "create":
            if pid in progs:
                raise Thrown("program %s exists" % pid, w)
            progs[pid] = (a[0], a[0].start(self.e, None))
            return done(None)
        if kind == "copy":
            net, vs = known()
            if a[0] in progs:
                raise Thrown("program %s exists" % a[0], w)
            progs[a[0]] = (net, dict(vs))
            return done(None)
        if kind == "delete":
            r = pid in progs
            progs.pop(pid, None)
            buf.pop(pid, None)
            return done(T if r else F)
        if kind == "add":
            known()
            b = {p: list(ms) for p, ms in buf.get(pid, {}).items()}
            b.setdefault(a[0], []).append(message(an, str(k + 1)))
            buf[pid] = b
            return done(T)
        if kind in ("process", "processDebug"):
            known()
            b = buf.pop(pid, {})
            if not b:
                return done(MapV(None, None, None, ()))
            return done(feed(b, kind.endswith("Debug")))
        if kind in ("map", "mapDebug"):
            ms = {p: [message(an, "%d.%s.%d" % (k + 1, p, i)) for i in range(n)] for p, n in a[0].items()}
            return done(feed(ms, kind.endswith("Debug")))
        net, vs = known()
        if kind == "entry":
            return done(S(net.entry))
        if kind == "ports":
            return done(strs(sorted(net.nodes[net.entry].data)))
        if kind == "filter":
            return done(MapV(None, None, None, [(S(i), strs(ps), T) for i, ps in sorted((net.filter or {}).items())]))
        raise Undecided("call %s" % kind)


def programs(an):
    a = Net(an, "adder", [("in", "Input", 1), ("a", "Add"), ("o", "Output", 1)], [("in", "o1", "a", "i1"), ("a", "o1", "o", "i1")],
            filter={"o": ["o1"]})
    b = Net(an, "averages", [("in", "Input", 2), ("m", "MovingAverage", 2), ("j", "Minus"), ("o", "Output", 2)],
            [("in", "o1", "m", "i1"), ("m", "o1", "j", "i1"), ("in", "o2", "j", "i2"), ("j", "o1", "o", "i1"), ("in", "o2", "o", "i2")],
            filter={"o": ["o2", "o1"], "m": ["o1"]})
    c = Net(an, "unfiltered", [("x", "CumulativeSum"), ("y", "Count")], [("x", "o1", "y", "i1")])
    return a, b, c


def scripts(an):
    a, b, c = programs(an)
    C = Call
    return {
        "two programs side by side": [C("create", "p", a), C("create", "q", c), C("add", "p", "i1"), C("add", "q", "i1"),
                                      C("process", "p"), C("add", "q", "i1"), C("processDebug", "p"), C("process", "q"),
                                      C("process", "q")],
        "buffers are consumed once": [C("create", "p", a), C("process", "p"), C("add", "p", "i1"), C("add", "p", "i1"),
                                      C("process", "p"), C("process", "p"), C("add", "p", "i1"), C("process", "p")],
        "debug consumes as well": [C("create", "p", a), C("add", "p", "i1"), C("processDebug", "p"), C("process", "p"),
                                   C("add", "p", "i1"), C("process", "p"), C("processDebug", "p")],
        "delete forgets everything": [C("create", "p", c), C("add", "p", "i1"), C("delete", "p"), C("delete", "p"),
                                      C("create", "p", c), C("process", "p"), C("add", "p", "i1"), C("process", "p")],
        "delete leaves the others": [C("create", "p", c), C("create", "q", c), C("add", "q", "i1"), C("add", "p", "i1"),
                                     C("process", "q"), C("add", "q", "i1"), C("delete", "p"), C("process", "q"),
                                     C("entry", "q")],
        "ids are unique": [C("create", "p", a), C("map", "p", {"i1": 1}, a), C("create", "p", c)],
        "unknown program: add": [C("create", "p", c), C("add", "q", "i1"), C("create", "q", c), C("process", "q"),
                                 C("map", "q", {"i1": 1}, c)],
        "unknown program: process": [C("create", "p", a), C("process", "q"), C("create", "q", c), C("add", "q", "i1"),
                                     C("process", "p"), C("process", "q")],
        "unknown program: debug": [C("create", "p", a), C("processDebug", "q"), C("process", "p")],
        "unknown program: map": [C("create", "p", a), C("map", "q", {"i1": 1}, a), C("map", "p", {"i1": 1}, a)],
        "unknown program: mapDebug": [C("create", "p", a), C("mapDebug", "q", {"i1": 1}, a)],
        "unknown port": [C("create", "p", c), C("add", "p", "i1"), C("add", "p", "a"), C("process", "p"), C("process", "p"),
                         C("add", "p", "i1"), C("process", "p"), C("processDebug", "p")],
        "unknown port, debug": [C("create", "p", c), C("add", "p", "a"), C("processDebug", "p"), C("process", "p"),
                                C("add", "p", "i1"), C("processDebug", "p"), C("add", "p", "z"), C("add", "p", "i1"),
                                C("processDebug", "p"), C("processDebug", "p"), C("process", "p")],
        "unknown port, other program": [C("create", "p", c), C("create", "q", c), C("add", "q", "i1"), C("add", "p", "z"),
                                        C("process", "p"), C("process", "q"), C("map", "q", {"z": 1}, c),
                                        C("map", "q", {"i1": 1}, c)],
        "refused creation": [C("create", "p", c), C("add", "p", "i1"), C("create", "p", a), C("add", "p", "i1"),
                             C("process", "p"), C("copy", "p", "q"), C("copy", "q", "p"), C("map", "p", {"i1": 1}, c),
                             C("map", "q", {"i1": 1}, c)],
        "unknown program: entry": [C("create", "p", a), C("entry", "q")],
        "unknown program: ports": [C("create", "p", a), C("ports", "q")],
        "unknown program: filter": [C("create", "p", a), C("filter", "q")],
        "unknown program: serialize": [C("create", "p", a), C("copy", "q", "r")],
        "a copy goes its own way": [C("create", "p", c), C("map", "p", {"i1": 2}, c), C("copy", "p", "q"),
                                    C("map", "p", {"i1": 1}, c), C("map", "q", {"i1": 1}, c), C("mapDebug", "p", {"i1": 1}, c)],
        "a copy does not take the buffer along": [C("create", "p", c), C("add", "p", "i1"), C("copy", "p", "q"),
                                                  C("process", "q"), C("process", "p")],
        "copy to an existing id": [C("create", "p", c), C("create", "q", a), C("copy", "p", "q")],
        "ports in order": [C("create", "p", b), C("add", "p", "i2"), C("add", "p", "i1"), C("add", "p", "i2"), C("process", "p"),
                           C("map", "p", {"i1": 1, "i2": 1}, b)],
        "filters": [C("create", "p", b), C("filter", "p"), C("ports", "p"), C("entry", "p"), C("map", "p", {"i2": 1}, b),
                    C("map", "p", {"i1": 2, "i2": 1}, b), C("mapDebug", "p", {"i1": 1, "i2": 1}, b)],
        "queries without filter": [C("create", "q", c), C("filter", "q"), C("ports", "q"), C("entry", "q"),
                                   C("map", "q", {"i1": 2}, c)],
    }
