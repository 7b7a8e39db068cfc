"""Networks, programs, pipelines, composites and the registry against the composition of the operator specifications."""
import time
import jobs
import nets
import apis
from net import *
from drive import An, BrokenAnalysis
from values import *


def where(an, m):
    l = getattr(m, "line", None)
    return "%s:%s (%s)" % ((l[0] or "?"), l[1], l[2]) if l else "?"


def result(kind, label):
    return {"kind": kind, "label": label, "items": [], "alarms": []}


def take(r, an, h, name, t0):
    """one analysed script"""
    it = {"network": r["label"], "script": name[:300], "call_paths": h.steps, "paths_to_the_end": h.paths,
          "complete": h.complete, "wall_s": round(time.time() - t0, 2)}
    if h.skipped:
        it["notes"] = ["%s (x%d)" % (k[:300], v) for k, v in list(h.skipped.items())[:6]]
    r["items"].append(it)
    for m in h.found:
        c = [x[:300] for x in m.facts.show()[:40]]
        r["alarms"].append({"key": "%s/%s/%s" % (r["kind"], r["label"], name), "what": "%s, calls %s: %s" % (
            r["label"], name, m.what[:900]), "where": where(an, m),
            "detail": "conditions on the path:\n  %s\ninstance that separates the two:\n  %s" % ("\n  ".join(c), m.witness)})


def guarded(r, an, h, name, f):
    t0 = time.time()
    try:
        f()
    except Undecided as ex:
        h.note(str(ex))
    except BrokenAnalysis:
        raise
    except Exception as ex:
        h.note("internal: %s: %s" % (type(ex).__name__, ex))
    take(r, an, h, name, t0)


BUDGET = {"quick": 60, "thorough": 250}
CAP = {"quick": 120, "thorough": 600}


def network(kind, label, tier, seed, save=False):
    """operators connected by connect(), messages fed to single operators or put out by them"""
    an = An()
    r = result(("saved " if save else "") + kind, label)
    if kind == "generated networks":
        ops, conns, kw, scripts = nets.generated(an, label)
    else:
        ops, conns, kw, scripts = getattr(nets, kind)()[label]
    net = Net(an, label, ops, conns, **kw)
    st0 = None
    if kind in ("pipelines", "generated networks"):
        st0 = registered(an)[0]
    for sc in (nets.saving if save else nets.more)(net, scripts, tier, seed):
        h = History(an, label, budget=BUDGET[tier], cap=CAP[tier], extra=observers(net), seed=seed)

        def go():
            st = st0.copy() if st0 is not None else an.state()
            vs = net.start(an.e, None)
            ins = net.build(st, h)
            if h.found:
                return
            if not ins:
                raise Undecided("the network can not be built")
            h.run([(s, o, vs) for s, o in ins], sc, lambda s, w, ev, k: direct(net, ev, k, s, w), model(net), ordered(net, sc))
        guarded(r, an, h, " ".join(map(repr, sc)), go)
    return r


def progs(an):
    """programs: every network whose entry has no control inputs, with a filter or without"""
    r = {}
    for lab, (ops, conns, kw, scripts) in nets.topologies().items():
        r[lab] = (ops, conns, kw)
    for lab, (ops, conns, kw, scripts) in nets.pipelines().items():
        r[lab] = (ops, conns, kw)
    return r


FILTERS = ("none", "last", "all", "crossed")


def filtered(net, which):
    ids = list(net.nodes)
    if which == "none":
        return None
    if which == "last":
        return {ids[-1]: [net.nodes[ids[-1]].outs[0]]}
    if which == "all":
        return {i: list(net.nodes[i].outs) for i in ids}
    # ports in another order than that of the results, some that never appear
    return {ids[0]: list(reversed(net.nodes[ids[0]].outs)) + ["o9"], ids[-1]: list(net.nodes[ids[-1]].outs), "nobody": ["o1"]}


def prog_scripts(ps, save, tier, size):
    """-> (calls, times of a port grow)"""
    one = {p: 1 for p in ps}
    two = {p: 2 for p in ps}
    last, first = {ps[-1]: 1}, {ps[0]: 1}
    small = len(ps) < 2
    deep = tier != "quick"
    if len(ps) > 2:
        yield ([Save()] if save else []) + [Batch(one), Batch(first, True)] + ([Save()] if save else []) + [Batch(last)], True
        yield [Batch({ps[1]: 2}, True), Save(), Batch(first), Batch(last)] if save else [Batch({ps[0]: 1, ps[1]: 2, ps[2]: 1}, True)], True
        if deep:
            yield [Batch(first), Batch(last)] + ([Save()] if save else []) + [Batch({ps[1]: 1}), Batch(one)], True
        return
    if not save:
        yield [Batch(one), Batch(two), Batch(last)], not small
        yield [Batch(two, True), Batch(one)], True
        yield [Batch({ps[0]: 4})], size > 3
        yield [Batch(one), Batch(first, True), Batch(last)], False
        if deep:
            yield [Batch({ps[0]: 3}), Batch({ps[-1]: 2}, True), Batch(two), Batch(one, True)], True
            yield [Batch(two, True), Batch(last), Batch(one)], False
        return
    if small:
        yield [Save(), Batch(two), Save(), Batch(one), Batch(last, True)], False
        yield [Batch(one, True), Batch(first), Save(True), Save(), Batch(one, True), Batch(two, True)], True
    else:
        yield [Save(), Batch({ps[0]: 2}), Save(), Batch(last, True), Batch(one)], True
        yield [Batch(one), Batch(last), Save(True), Save(), Batch(one, True)], True
    if deep:
        yield [Batch({ps[0]: 2}), Save(), Batch({ps[-1]: 2}, True), Save(), Batch(one, True), Batch(one)], True
        yield [Batch(first), Save(), Batch(last), Save(), Batch(one)], False
        yield [Batch({p: 3 for p in ps}), Save(), Batch(one), Save(), Batch(two)], True


def text(kind, label, tier, seed, save):
    """programs built from their text"""
    an = An()
    r = result(kind, label)
    ops, conns, kw = progs(an)[label]
    st0, fac = registered(an)
    which = FILTERS if tier != "quick" and not save else \
        [FILTERS[sum(map(ord, label)) % 4], FILTERS[(sum(map(ord, label)) + 2) % 4]] if not save else ["none"]
    for fl in which:
        net = Net(an, label, ops, conns, **kw)
        net.filter = filtered(net, fl)
        for sc, grow in prog_scripts(net.nodes[net.entry].data, save, tier, len(net.nodes)):
            h = History(an, label, budget=BUDGET[tier], cap=CAP[tier], seed=seed)

            def go():
                vs = net.start(an.e, None)
                ins = []
                for s, o in program(an, st0.copy(), net.program()):
                    if o is None:
                        m = "the program is refused with %s" % exc_str(s.exc)
                        if h.alarm(m, s.facts, s, (), None):
                            return
                    else:
                        ins.append((s, o, vs))
                h.run(ins, sc, lambda s, w, ev, k: on_program(net, ev, k, s, w), batch_model(net),
                      ordered_batches(net, sc, grow))
            guarded(r, an, h, "filter %s: %s" % (fl, " ".join(map(repr, sc))), go)
            if r["alarms"]:
                return r
    return r


def ordered_batches(net, script, grow):
    """times handed to an operator that assumes order grow per port"""
    nd = net.nodes[net.entry]
    if nd.op == "Input" and not grow:
        return None
    last, conds = {}, {}
    for k, ev in enumerate(script):
        for p, n in sorted(getattr(ev, "ports", {}).items()):
            for i in range(n):
                t = P(atom(("s", "time%d.%s.%d" % (k + 1, p, i)), True, True))
                if p in last:
                    conds.setdefault(k, []).append(c_lt(last[p] - t))
                last[p] = t
    return lambda world, vs, ev, k: conds.get(k, [])


def registry(kind, label, tier, seed):
    an = An()
    r = result(kind, label)
    st0, fac = registered(an)
    reg = apis.Registry(an)
    sc = apis.scripts(an)[label]
    h = History(an, label, budget=BUDGET[tier], cap=CAP[tier], seed=seed)
    guarded(r, an, h, " ".join(map(repr, sc)),
            lambda: h.run([(st0.copy(), fac, {"progs": {}, "buf": {}})], sc, reg.do, reg.model))
    return r


def collect(out, js, tier, rule, limit=None):
    res = jobs.run(js, limit or (200 if tier == "quick" else 700), 600 if tier == "quick" else 840)
    for name in sorted(res):
        x = res[name]
        if x[0] == "time":
            out.skip("%s: out of time" % name)
            continue
        if x[0] == "err":
            if "BrokenAnalysis" in x[1]:
                raise BrokenAnalysis(x[1])
            out.skip("%s: %s" % (name, x[1]))
            continue
        r = x[1]
        for it in r["items"]:
            it = dict(it, kind=r["kind"])
            out.items.append(it)
            out.count("call_paths", it["call_paths"])
            out.count("paths_to_the_end", it["paths_to_the_end"])
            if it["complete"]:
                out.decided += 1
            elif it["call_paths"]:
                out.bounded += 1
                out.count("partial", 1)
            else:
                out.skip("%s %s: %s" % (name, it["script"], "; ".join(it.get("notes", []))[:500]))
        for a in r["alarms"]:
            out.alarm(a["key"], a["what"], a["where"], a["detail"])
    out.rules.append(rule)


RULE = "every path of the code for the call sequence, with arbitrary messages and parameters, gives the results and leaves the " \
       "observable state (accessors of every operator) that the composition of the operator specifications gives"


def check_networks(out, tier, seed):
    js = [("topologies: %s" % l, network, ("topologies", l, tier, seed)) for l in nets.topologies()]
    n = 16 if tier == "quick" else 120
    js += [("generated: %d" % i, network, ("generated networks", i, tier, seed)) for i in range(seed * 1000, seed * 1000 + n)]
    collect(out, js, tier, RULE)


def check_kind(kind):
    def f(out, tier, seed):
        collect(out, [("%s: %s" % (kind, l), network, (kind, l, tier, seed)) for l in getattr(nets, kind)()], tier, RULE)
    return f


def check_programs(out, tier, seed):
    an = An()
    collect(out, [("programs: %s" % l, text, ("programs", l, tier, seed, False)) for l in progs(an)], tier, RULE)


def check_saved(out, tier, seed):
    an = An()
    js = [("saved programs: %s" % l, text, ("saved programs", l, tier, seed, True)) for l in progs(an)]
    js += [("saved %s: %s" % (k, l), network, (k, l, tier, seed, True)) for k in ("composites", "pipelines", "topologies")
           for l in getattr(nets, k)()]
    collect(out, js, tier, RULE)


def check_registry(out, tier, seed):
    an = An()
    collect(out, [("registry: %s" % l, registry, ("registry", l, tier, seed)) for l in apis.scripts(an)], tier, RULE)
