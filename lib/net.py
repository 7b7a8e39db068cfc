"""Networks of operators against the composition of their specifications.

A network is given by its operators, its connections (in order) and the operators that messages are fed to. What it has to
hand out is defined by composing the transition systems of specs.py with the delivery rule: a message put out on a port is
first delivered to every connection of that port, then every connected operator is executed in the order of the connections,
and whatever those put out is handled in the same way before the next message of the sender. The real network is built in
the abstract store (constructors, connect, program text) and every path of the code is analysed for arbitrary messages."""
from values import *
from compare import vsame
from sim import Ev, Mismatch, ANYOUT, run_spec, tidy, exc_str
from engine import State
import specs
import witness
import random
import time


class Thrown(Exception):
    """the specification asks for an exception; state: the model after it, when it is specified"""

    def __init__(self, text, state=None):
        Exception.__init__(self, text)
        self.state = state


class AnyThing(Exception):
    """the specification leaves the behaviour open"""


class Node:
    def __init__(self, an, id, op, args=(), json=None, **kw):
        self.id, self.op, self.json = id, op, dict(json or {})
        self.spec = getattr(specs, op)(an)
        self.cfg = self.spec.cfg("", list(args), **kw)
        self.cfg["id"] = S(id)
        self.cfg["args"] = [S(id)] + list(args)
        self.data = list(self.spec.ports(self.cfg))
        self.ctl = list(self.spec.cports(self.cfg))
        n = self.cfg.get("n")
        self.outs = ["o%d" % i for i in range(1, n + 1)] if op in ("Input", "Output", "Join", "Demultiplexer") else ["o1"]


OPS = {}


def real(name):
    return P(atom(("cfg", name)))


def nums(*names):
    return SeqV(None, None, ZERO, ZERO, [("e", real(x)) for x in names])


def node(an, id, kind, *a):
    """a network node by a short name of its kind"""
    if kind == "Pipeline":
        return Pipe(an, id, Net(an, id, *a))
    if kind in ("Identity", "Count", "CumulativeSum", "Plus", "Minus", "Multiplication", "Division", "And", "Or",
                "GreaterThanStream", "LessThanStream"):
        kw = {"n": 2} if kind not in ("Identity", "Count", "CumulativeSum") else {}
        kw["a"] = None
        return Node(an, id, kind, [], **kw)
    if kind in ("Add", "Scale", "Constant", "Power", "LessThan", "GreaterThan", "EqualTo", "Variable"):
        x = a[0] if a else real("%s of %s" % ("value", id))
        x = P(x)
        return Node(an, id, kind, [x], {"value": x}, a=x)
    if kind in ("Input", "Output", "Join", "Demultiplexer"):
        n = a[0] if a else 1
        return Node(an, id, kind, [P(n)], {"numPorts": P(n)}, n=n)
    if kind == "Difference":
        b = a[0] if a else True
        return Node(an, id, kind, [T if b else F], {"useOldestTime": T if b else F}, old=b)
    if kind in ("MovingAverage", "StandardDeviation", "PeakDetector"):
        return Node(an, id, kind, [P(a[0])], {"n": P(a[0])}, n=P(a[0]))
    if kind == "RelativeStrengthIndex":
        return Node(an, id, kind, [P(a[0])], {"n": P(a[0])}, n=P(a[0]) + 1)
    if kind in ("FiniteImpulseResponse", "AutoRegressive"):
        c = nums(*["c%d of %s" % (i, id) for i in range(a[0])])
        return Node(an, id, kind, [c], {"coeff": c}, n=P(a[0]), c=c)
    if kind == "Linear":
        c = nums(*["c%d of %s" % (i, id) for i in range(a[0])])
        return Node(an, id, kind, [c], {"coeff": c}, n=a[0], cs=[p[1] for p in c.tail])
    if kind == "TimeShift":
        return Node(an, id, kind, [P(a[0]), P(a[1])], {"dt": P(a[0]), "times": P(a[1])}, dt=P(a[0]), times=P(a[1]),
                    back=a[1] < 0)
    if kind in ("CosineResampler", "HermiteResampler", "ConstantResampler"):
        k = "interval" if kind == "ConstantResampler" else "dt"
        return Node(an, id, kind, [P(a[0])], {k: P(a[0])}, dt=P(a[0]))
    raise KeyError(kind)


class PipeSpec:
    """an inner network whose unconnected inputs and outputs are the ports i1.. and o1.., in the order of their names"""

    def __init__(self, an, net):
        self.an, self.e, self.net = an, an.e, net
        used_in = {(t, tp) for f, fp, t, tp in net.conns}
        used_out = {(f, fp) for f, fp, t, tp in net.conns}
        ins = sorted("%s:%s" % (i, p) for i, nd in net.nodes.items() for p in nd.data if (i, p) not in used_in)
        outs = sorted("%s:%s" % (i, p) for i, nd in net.nodes.items() for p in nd.outs if (i, p) not in used_out)
        self.ins = {"i%d" % (k + 1): tuple(x.split(":")) for k, x in enumerate(ins)}
        self.outs = {tuple(x.split(":")): "o%d" % (k + 1) for k, x in enumerate(outs)}

    def msgty(self):
        return next(iter(self.net.nodes.values())).spec.msgty()

    def ports(self, cfg):
        return dict.fromkeys(self.ins)

    def cports(self, cfg):
        return {}

    def ctor(self, ctx, cfg):
        return {"inner": self.net.start(self.e, None), "pending": ()}

    def step(self, ctx, cfg, v, ev, m):
        inner = dict(v["inner"])
        if ev.method == "receiveData":
            p = ev.port or (next(iter(self.ins)) if len(self.ins) == 1 else "")
            if p not in self.ins:
                return ("throw", v)
            id, port = self.ins[p]
            self.net.node_step(ctx, inner, id, "receiveData", port, m)
            return ("ret", {}, {"inner": inner, "pending": tuple(sorted(set(v["pending"]) | {(id, port)}, key=":".join))})
        if ev.method != "executeData":
            raise Undecided("event %s of a pipeline" % ev)
        log = []
        for id, port in v["pending"]:
            self.net.execute(ctx, inner, id, "executeData", log)
        out = {}
        for id, port, msg in log:
            if (id, port) in self.outs:
                out.setdefault(self.outs[(id, port)], []).append(msg)
        return ("ret", out, {"inner": inner, "pending": ()})

    def obs(self, cfg, v):
        return []


class Pipe:
    """a pipeline as a node of a network"""
    op = "Pipeline"

    def __init__(self, an, id, net):
        self.id, self.net = id, net
        self.spec = PipeSpec(an, net)
        cls = an.cls("Pipeline")
        self.cfg = {"cls": cls, "id": S(id), "args": [S(id), net.program(filter=None, entry=None)], "ctor": None}
        for u, f, ts in an.ctors(cls):
            if len(ts) == 2 and all(strtype(t) for t in ts):
                self.cfg["ctor"] = u
        if self.cfg["ctor"] is None:
            raise Undecided("no constructor of Pipeline from id and text")
        self.json = {"prog": net.tree(filter=None, entry=None)}
        self.data, self.ctl, self.outs = list(self.spec.ins), [], list(self.spec.outs.values())


class Net:
    """ops: [(id, kind, args...)]; conns: [(from, out port, to, in port)]; feeds: [(id, port)]"""

    def __init__(self, an, label, ops, conns, entry=None, feeds=None, filter=None, implicit=(), groups=None):
        self.an, self.label = an, label
        self.nodes = {o[0]: node(an, *o) for o in ops}
        self.order = [o[0] for o in ops]
        self.conns = conns
        self.entry = entry or ops[0][0]
        self.feeds = feeds or [(self.entry, p) for p in self.nodes[self.entry].data]
        self.filter = filter
        # connections made without naming a port: index -> the names left out ("from", "to", "both")
        self.implicit = implicit if isinstance(implicit, dict) else dict.fromkeys(implicit, "both")
        self.groups = groups or {}         # composite id -> (members, its input, its output)
        self.out = {}
        for f, fp, t, tp in conns:
            self.out.setdefault((f, fp), []).append((t, tp))

    # ------------------------------------------------------------ specified behaviour
    def start(self, e, facts):
        vs = {}
        for i, nd in self.nodes.items():
            vs[i] = nd.spec.ctor(NoCtx(e, facts), nd.cfg)
        return vs

    def node_step(self, ctx, vs, id, method, port, m):
        nd = self.nodes[id]
        ev = Ev(method, method, port, m is not None)
        v = dict(vs[id])
        r = nd.spec.step(ctx, nd.cfg, v, ev, m)
        if r[0] == "any":
            raise AnyThing()
        if r[0] == "throw":
            raise Thrown(id)
        if r[1] is ANYOUT:
            raise AnyThing()
        vs[id] = r[2]
        return r[1]

    def messages(self, seq):
        if isinstance(seq, (list, tuple)):
            return list(seq)
        if seq.base is not None and seq.hi - seq.lo != ZERO or any(p[0] != "e" for p in seq.tail):
            raise Undecided("specification: a varying number of messages in a network")
        return [p[1] for p in seq.tail]

    def feed(self, ctx, vs, id, ms, run, log):
        """deliver the messages (port, message) and execute -> log of (id, port, message)"""
        for port, m in ms:
            self.node_step(ctx, vs, id, "receiveData", port, m)
        if run:
            self.execute(ctx, vs, id, "executeData", log)

    def execute(self, ctx, vs, id, method, log):
        self.emit(ctx, vs, id, self.node_step(ctx, vs, id, method, None, None), log)

    def emit(self, ctx, vs, id, em, log):
        for port in sorted(em):
            for m in self.messages(em[port]):
                self.put(ctx, vs, id, port, m, log)

    def put(self, ctx, vs, id, port, m, log):
        log.append((id, port, m))
        to = self.out.get((id, port), ())
        for t, tp in to:
            if tp in self.nodes[t].data:
                self.node_step(ctx, vs, t, "receiveData", tp, m)
            else:
                self.node_step(ctx, vs, t, "receiveControl", tp, m)
        for t, tp in to:
            self.execute(ctx, vs, t, "executeData" if tp in self.nodes[t].data else "executeControl", log)

    def result(self, log, ids=None, keep=None):
        """the log as a ProgramMessage value"""
        d = {}
        for id, port, m in log:
            if keep is None or port in keep.get(id, ()):
                d.setdefault(id, {}).setdefault(port, []).append(m)
        return pmsg(next(iter(self.nodes.values())).spec, d)

    # ------------------------------------------------------------ construction in the abstract store
    def json(self, id):
        nd = self.nodes[id]
        ents = [("type", Json("val", S(nd.op))), ("id", Json("val", S(id)))]
        ents += [(k, jv(x)) for k, x in nd.json.items()]
        return Json("obj", tuple(ents))

    def named(self, i):
        """the port names given when connection i is made"""
        f, fp, t, tp = self.conns[i]
        how = self.implicit.get(i)
        return "" if how in ("from", "both") else fp, "" if how in ("to", "both") else tp

    def tree(self, filter="own", entry="own"):
        ops = Json("arr", SeqV(None, None, ZERO, ZERO, [("e", self.json(i)) for i in self.order]))
        cs = []
        for i, (f, fp, t, tp) in enumerate(self.conns):
            ents = [("from", Json("val", S(f))), ("to", Json("val", S(t)))]
            fp, tp = self.named(i)
            if fp:
                ents.append(("fromPort", Json("val", S(fp))))
            if tp:
                ents.append(("toPort", Json("val", S(tp))))
            cs.append(Json("obj", tuple(ents)))
        ents = [("operators", ops), ("connections", Json("arr", SeqV(None, None, ZERO, ZERO, [("e", c) for c in cs])))]
        en = self.entry if entry == "own" else entry
        if en is not None:
            ents.append(("entryOperator", Json("val", S(en))))
        fl = self.filter if filter == "own" else filter
        if fl is not None:
            ents.append(("output", Json("obj", tuple((k, Json("arr", SeqV(None, None, ZERO, ZERO, [
                ("e", Json("val", S(p))) for p in ps]))) for k, ps in sorted(fl.items())))))
        return Json("obj", tuple(ents))

    def program(self, filter="own", entry="own"):
        return SA(("dump", self.tree(filter, entry)))

    def build(self, st, h=None):
        """objects and connections -> [(state, {id: LV})]"""
        an, e = self.an, self.an.e
        inside = {m: g for g, (ms, i, o) in self.groups.items() for m in ms}
        cur = [(st, {})]
        for g in self.groups:
            cls = an.cls("Composite")
            ct = [u for u, f, ts in an.ctors(cls) if len(ts) == 1 and strtype(ts[0])]
            cur = [(s2, dict(objs, **{g: o})) for s, objs in cur for s2, o in an.construct(s, cls, ct[0], [S(g)])
                   if o is not None]
        for i in self.order:
            nd = self.nodes[i]
            nxt = []
            for s, objs in cur:
                if i in inside:
                    for s2, r in an.method(s, objs[inside[i]], creator(an, nd.op), nd.cfg["args"]):
                        if s2.exc is not None:
                            self.refused(h, s2, "a %s in a composite" % nd.op)
                        else:
                            nxt.append((s2, objs))
                    continue
                for s2, o in an.construct(s, nd.cfg["cls"], nd.cfg["ctor"], nd.cfg["args"]):
                    if o is not None:
                        d = dict(objs)
                        d[i] = o
                        nxt.append((s2, d))
            cur = nxt
        for k, (f, fp, t, tp) in enumerate(self.conns):
            nxt = []
            for s, objs in cur:
                fp, tp = self.named(k)
                ptr = k % 2 == 0
                if f in inside and t in inside and inside[f] == inside[t]:
                    for s2, r in an.method(s, objs[inside[f]], "createInternalConnection", [S(f), S(t), S(fp), S(tp)]):
                        if s2.exc is not None:
                            self.refused(h, s2, "connection %s of %s to %s of %s in a composite" % (fp, f, tp, t))
                        else:
                            nxt.append((s2, objs))
                    continue
                a, b = objs[inside.get(f, f)], objs[inside.get(t, t)]
                for s2, r in an.method(s, a, "connect", [PtrV(b) if ptr else b, S(fp), S(tp)],
                                       pred=lambda ref, ts: len(ts) == 3 and (ts[0].k == "ptr") == ptr):
                    if s2.exc is not None:
                        self.refused(h, s2, "connection %s of %s to %s of %s" % (fp, f, tp, t))
                    else:
                        nxt.append((s2, objs))
            cur = nxt
        return cur

    def refused(self, h, s, what):
        if h is None:
            raise Undecided("%s throws %s" % (what, exc_str(s.exc)))
        h.alarm("%s throws %s" % (what, exc_str(s.exc)), s.facts, s, (), None)


def creator(an, op):
    cls = an.cls("Composite")
    c = an.p.cls(cls)
    tn = an.p.classes[cls][0]
    for m in c["methods"]:
        f = an.p.ref(tn, m)
        if f and f["qn"].split("::")[-1].lower() == "create" + op.lower():
            return f["qn"].split("::")[-1]
    raise Undecided("a composite has no way to create a %s" % op)


class NoCtx:
    def __init__(self, e, facts):
        self.e, self.facts = e, facts
        self.state = self.val = None


def jv(x):
    if isinstance(x, Json):
        return x
    if isinstance(x, SeqV):
        return Json("arr", SeqV(None, None, ZERO, ZERO, [("e", jv(p[1])) for p in x.tail]))
    return Json("val", x)


def pmsg(spec, d):
    ents = []
    for id, ports in d.items():
        pe = [(S(p), SeqV(spec.msgty(), None, ZERO, ZERO, [("e", m) for m in ms]), T) for p, ms in ports.items()]
        ents.append((S(id), MapV(None, None, None, pe), T))
    return MapV(None, None, None, ents)


def message(an, tag):
    return an.msg(P(atom(("s", "time" + tag), True, True)), P(atom(("s", "value" + tag))))


class History:
    """Scripts of calls on an abstract world against a model; every path of the code, arbitrary messages.

    do(state, world, event, k) -> [(state, world, value)];  model(ctx, model state, event, k) -> (value or None, model state),
    raising Thrown / AnyThing."""

    def __init__(self, an, label, budget=60, cap=200, seed=1, tries=30, extra=None):
        self.an, self.e, self.label = an, an.e, label
        self.budget, self.cap, self.tries = budget, cap, tries
        self.rng = random.Random(seed)
        self.found = []
        self.skipped = {}
        self.steps = self.paths = 0
        self.complete = True           # every script was analysed to its end on every path
        self.extra = extra             # further comparison after a step: extra(state, facts, world, vs) -> [(what, vals)]
        self.t0 = time.process_time()
        self.e.steps = 0

    def note(self, x):
        self.skipped[x] = self.skipped.get(x, 0) + 1
        self.complete = False

    def alarm(self, what, f, s, vals, ev):
        w = None
        try:
            w = witness.search(self.e, f, vals, [], self.tries)
        except Undecided as ex:
            self.note("confirm: %s" % ex)
        if w is None:
            self.note("not confirmed: %s" % what[:200])
            return False
        m = Mismatch(what, facts=f, st=s, ev=ev, vals=vals, line=s.line)
        m.witness = w
        self.found.append(m)
        return True

    def run(self, inits, script, do, model, assume=None):
        todo = list(inits)
        for k, ev in enumerate(script):
            nxt = []
            for s, world, vs in todo:
                if time.process_time() - self.t0 > self.budget:
                    self.note("out of time")
                    return
                self.step(s, world, vs, ev, k, do, model, assume, nxt)
                if self.found:
                    return
            if len(nxt) > self.cap:
                self.note("more than %d paths" % self.cap)
                self.rng.shuffle(nxt)
                nxt = nxt[:self.cap]
            todo = nxt
        self.paths += len(todo)

    def step(self, st, world, vs, ev, k, do, model, assume, out):
        e = self.e
        st = st.copy()
        if assume is not None and not all(st.facts.assume(c) for c in assume(world, vs, ev, k)):
            return
        what = "event %d %s" % (k + 1, ev)
        try:
            e.lost = []
            rs = do(st, world, ev, k)
            for x in e.lost:
                self.note(x)
        except Undecided as ex:
            self.note(str(ex))
            return
        finally:
            e.lost = None
        for s2, w2, val in rs:
            self.steps += 1

            def case(ctx):
                v = dict(vs)
                try:
                    want, v = model(ctx, v, ev, k)
                    return ("ret", want, v)
                except Thrown as t:
                    return ("throw", str(t), t.state)
                except AnyThing:
                    return ("any",)
            try:
                cases = run_spec(e, s2.facts, case, s2, val=val)
            except Undecided as ex:
                self.note("specification: %s" % ex)
                continue
            for f, res in cases:
                if res[0] == "any":
                    continue
                if s2.exc is not None or res[0] == "throw":
                    if s2.exc is None or res[0] != "throw" or s2.exc.ty == "UB":
                        if self.alarm("%s %s" % (what, ("throws %s" % exc_str(s2.exc)) if s2.exc is not None else
                                                 "does not throw"), f, s2, (), ev):
                            return
                    elif res[2] is not None:
                        s3 = s2.copy()
                        s3.exc = None
                        s3.facts = f
                        out.append((s3, w2, res[2]))
                    continue
                want = res[1]
                if want is not None:
                    got = tidy(e, f, val) if isinstance(val, MapV) or val is None else val
                    wt = tidy(e, f, want) if isinstance(want, MapV) else want
                    if got is None or wt is None or vsame(e, f, got, wt, s2.store, s2.store) is not True:
                        if self.alarm("%s gives %s where %s is specified" % (
                                what, vshow(f.norm(val) if val is not None else val)[:500], vshow(f.norm(want))[:500]),
                                f, s2, (val, want), ev):
                            return
                        continue
                if self.extra is not None:
                    bad = False
                    s3 = s2.copy()
                    s3.facts = f.copy()
                    try:
                        for w, vals in self.extra(s3, w2, res[2]):
                            if self.alarm("after %s: %s" % (what, w), s3.facts, s3, vals, ev):
                                return
                            bad = True
                    except Undecided as ex:
                        self.note("observers: %s" % ex)
                    if bad:
                        continue
                s3 = s2.copy()
                s3.exc = None
                s3.facts = f
                out.append((s3, w2, res[2]))


# ---------------------------------------------------------------- networks built with connect()
class Feed:
    """messages delivered on the ports one after the other, then (run) one execution"""

    def __init__(self, id, *ports, run=True):
        self.id, self.ports, self.run = id, ports, run

    def __repr__(self):
        return "%s.%s%s" % (self.id, "+".join(self.ports) or "execute", "" if self.run else "...")

    def tags(self, k):
        return [(p, "%d" % (k + 1) if not i else "%d.%d" % (k + 1, i)) for i, p in enumerate(self.ports)]


class Emit:
    """messages put out directly: {port: number}"""

    def __init__(self, id, ports):
        self.id, self.ports = id, ports

    def __repr__(self):
        return "%s.emit(%s)" % (self.id, self.ports)


def seqmsg(net, ms):
    return SeqV(next(iter(net.nodes.values())).spec.msgty(), None, ZERO, ZERO, [("e", m) for m in ms])


def again(net, st, objs):
    """a second network of the same definition; the state of every operator is saved and restored into it"""
    an, e = net.an, net.an.e
    out = []
    for s, new in net.build(st):
        cur = [s]
        for id in sorted(new):
            nxt = []
            for s1 in cur:
                if s1.exc is not None:
                    nxt.append(s1)
                    continue
                for s2, b in an.method(s1, objs[id], "collect", []):
                    if s2.exc is not None:
                        nxt.append(s2)
                        continue
                    bl = b if isinstance(b, LV) else e.alloc(s2, e.rv(s2, b), "b")
                    r = e.std.begin(s2, bl, {"l": 0})
                    for s3, it in (r if isinstance(r, list) else [(s2, r)]):
                        for s4, _ in an.method(s3, new[id], "restore", [e.alloc(s3, it, "i")]):
                            nxt.append(s4)
            cur = nxt
        out += [(s1, new, None) for s1 in cur]
    return out


def direct(net, ev, k, st, objs):
    an = net.an
    if isinstance(ev, Save):
        if ev.keep:
            cur = [st]
            for id in sorted(objs):
                cur = [s2 for s1 in cur for s2, _ in (an.method(s1, objs[id], "collect", []) if s1.exc is None else [(s1, None)])]
            return [(s1, objs, None) for s1 in cur]
        return again(net, st, objs)
    out = []
    if isinstance(ev, Feed):
        cur = [st]
        for port, tag in ev.tags(k):
            cur = [s2 for s1 in cur for s2, _ in (an.method(s1, objs[ev.id], "receiveData", [message(an, tag), S(port)])
                                                  if s1.exc is None else [(s1, None)])]
        for s1 in cur:
            if s1.exc is not None or not ev.run:
                out.append((s1, objs, None))
                continue
            for s2, v in an.method(s1, objs[ev.id], "executeData", []):
                out.append((s2, objs, v))
        return out
    ents = []
    for p, n in sorted(ev.ports.items()):
        ents.append((S(p), seqmsg(net, [message(an, "%d.%s.%d" % (k + 1, p, i)) for i in range(n)]), T))
    arg = MapV(*mapty(an, st, objs[ev.id]), None, ents)
    for s2, v in an.method(st, objs[ev.id], "emit", [arg], pred=lambda r, ts: len(ts) == 1 and isopmsg(ts[0])):
        out.append((s2, objs, v))
    return out


def mapty(an, st, obj):
    """key and value types of the parameter of emit"""
    cls = an.e.rv(st, obj).cls
    for u in an.p.methods_named(cls, "emit"):
        r = an.p.ref(an.tu(cls), u)
        ts = [an.p.ty(an.tu(cls), t) for t in r["ps"]]
        if len(ts) == 1 and isopmsg(ts[0]):
            t = ts[0].to if ts[0].k == "ref" else ts[0]
            return t.args[0], t.args[1]
    raise Undecided("emit(OperatorMessage) not found")


def isopmsg(t):
    if t.k == "ref":
        t = t.to
    return t.k == "rec" and t.name == "std::map"


def model(net):
    def f(ctx, vs, ev, k):
        log = []
        if isinstance(ev, Save):
            return None, vs
        if isinstance(ev, Feed):
            g = net.groups.get(ev.id)
            net.feed(ctx, vs, g[1] if g else ev.id, [(p, message(net.an, t)) for p, t in ev.tags(k)], ev.run, log)
            if not ev.run:
                return None, vs
        else:
            for p, n in sorted(ev.ports.items()):
                for i in range(n):
                    net.put(ctx, vs, ev.id, p, message(net.an, "%d.%s.%d" % (k + 1, p, i)), log)
        return net.result(log), vs
    return f


def ordered(net, script):
    """times fed to the same port of an operator that assumes order grow"""
    last = {}
    conds = {}
    for k, ev in enumerate(script):
        if isinstance(ev, Feed):
            ks = [((ev.id, p), t) for p, t in ev.tags(k)]
            if net.nodes[net.groups[ev.id][1] if ev.id in net.groups else ev.id].op == "Input":
                continue
        elif isinstance(ev, Save):
            continue
        else:
            ks = [((ev.id, "out " + p), "%d.%s.%d" % (k + 1, p, i)) for p, n in sorted(ev.ports.items()) for i in range(n)]
        for key, tag in ks:
            t = P(atom(("s", "time" + tag), True, True))
            if key in last:
                conds.setdefault(k, []).append(c_lt(last[key] - t))
            last[key] = t
    return lambda world, vs, ev, k: conds.get(k, [])


def observers(net):
    """sizes of the buffers of every operator after a step"""
    an, e = net.an, net.an.e

    def f(st, objs, vs):
        for id, nd in net.nodes.items():
            if id not in objs:
                continue
            for name, args, want in nd.spec.obs(nd.cfg, vs[id]):
                for s2, val in an.method(st.copy(), objs[id], name, args):
                    if s2.exc is not None:
                        yield "%s.%s throws" % (id, name), ()
                        continue
                    val = e.rv(s2, val)
                    if vsame(e, s2.facts, val, want, s2.store, s2.store) is not True:
                        yield "%s.%s(%s) is %s, specified %s" % (id, name, ", ".join(map(repr, args)), vshow(val)[:200],
                                                                 vshow(want)[:200]), (val, want)
    return f


# ---------------------------------------------------------------- programs from their text
def registered(an):
    """state in which the operators are registered -> (state, factory object)"""
    cls = an.cls("FactoryOp")
    st = an.state(cls)
    ct = [c for c in an.ctors(cls) if not c[2]]
    if not ct:
        raise Undecided("FactoryOp has no default constructor")
    rs = [(s, o) for s, o in an.construct(st, cls, ct[0][0], [])]
    if len(rs) != 1 or rs[0][1] is None:
        raise Undecided("construction of FactoryOp: %d paths" % len(rs))
    return rs[0]


def strtype(t):
    if t.k == "ref":
        t = t.to
    return t.k == "rec" and t.name == "std::basic_string"


def program(an, st, text):
    """Program(text) -> [(state, LV or None)]"""
    cls = an.cls("Program")
    for u, f, ts in an.ctors(cls):
        if len(ts) == 1 and strtype(ts[0]):
            return an.construct(st, cls, u, [text])
    raise Undecided("no constructor of Program from a text")


def restored(an, st, data):
    cls = an.cls("Program")
    for u, f, ts in an.ctors(cls):
        if len(ts) == 1 and not strtype(ts[0]) and isseq(ts[0]):
            return an.construct(st, cls, u, [data])
    raise Undecided("no constructor of Program from bytes")


def isseq(t):
    if t.k == "ref":
        t = t.to
    return t.k == "rec" and t.name == "std::vector"


class Batch:
    """messages handed to a program in one call: {port: number}"""

    def __init__(self, ports, debug=False):
        self.ports, self.debug = ports, debug

    def __repr__(self):
        return "%s(%s)" % ("receiveDebug" if self.debug else "receive", self.ports)


class Save:
    """keep: go on with the one that was saved"""

    def __init__(self, keep=False):
        self.keep = keep

    def __repr__(self):
        return "save" if self.keep else "save and restore"


def opmsg(net, st, ports, k, cls, method):
    an = net.an
    ents = [(S(p), seqmsg(net, [message(an, "%d.%s.%d" % (k + 1, p, i)) for i in range(n)]), T)
            for p, n in sorted(ports.items())]
    kt, vt = None, None
    for u in an.p.methods_named(cls, method):
        r = an.p.ref(an.tu(cls), u)
        for t in r["ps"]:
            t = an.p.ty(an.tu(cls), t)
            if isopmsg(t):
                t = t.to if t.k == "ref" else t
                kt, vt = t.args[0], t.args[1]
    return MapV(kt, vt, None, ents)


def on_program(net, ev, k, st, obj):
    an = net.an
    cls = an.cls("Program")
    if isinstance(ev, Save):
        out = []
        for s1, b in an.method(st, obj, "serialize", []):
            if s1.exc is not None:
                out.append((s1, obj, None))
                continue
            if ev.keep:
                out.append((s1, obj, None))
                continue
            bl = b if isinstance(b, LV) else an.e.alloc(s1, an.e.rv(s1, b), "b")
            for s2, o2 in restored(an, s1, bl):
                out.append((s2, o2, None))
        return out
    m = "receiveDebug" if ev.debug else "receive"
    arg = opmsg(net, st, ev.ports, k, cls, m)
    return [(s2, obj, v) for s2, v in an.method(st, obj, m, [arg])]


def batch_model(net):
    def f(ctx, vs, ev, k):
        if isinstance(ev, Save):
            return None, vs
        log = []
        for p, n in sorted(ev.ports.items()):
            for i in range(n):
                net.feed(ctx, vs, net.entry, [(p, message(net.an, "%d.%s.%d" % (k + 1, p, i)))], True, log)
        return net.result(log, keep=None if ev.debug or not net.filter else net.filter), vs
    return f
