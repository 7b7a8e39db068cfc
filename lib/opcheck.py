"""Operators against their specified behaviour: inductive agreement, else bounded histories (sim.py)."""
import random
import time
import jobs
import specs
import sim
import snap
from drive import An, BrokenAnalysis
from values import *


def where(an, cfg, m):
    f = None
    if getattr(m, "line", None):
        l = m.line
        f = "%s:%s (%s)" % ((l[0] or "?"), l[1], l[2])
    if f is None:
        f = an.p.simple(cfg["cls"])
    return f


def describe(m, wit):
    c = []
    for x in m.facts.show()[:40]:
        c.append(x[:300])
    return "conditions on the path:\n  %s\ninstance that separates the two:\n  %s" % ("\n  ".join(c), wit)


def literals(an, cls, viol, top=130):
    """the sizes the code of a class (and its bases) or the conditions of a mismatch mention"""
    r, seen, todo = set(), set(), []

    def walk(n):
        if isinstance(n, dict):
            if n.get("k") in ("int", "float") and not isinstance(n.get("v"), bool):
                try:
                    x = float(n["v"])
                    if x == int(x):
                        r.add(abs(int(x)))
                except (ValueError, OverflowError):
                    pass
            if isinstance(n.get("fn"), str) and "rtbot" in n["fn"]:
                todo.append(n["fn"])
            for k, x in n.items():
                if k != "names":
                    walk(x)
        elif isinstance(n, list):
            for x in n:
                walk(x)
    for c in an.p.hier(cls):
        tn, cc = an.p.classes[c]
        todo += cc["methods"]
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        f = an.p.func(None, m)
        if f is not None:
            walk(f[1].get("body"))
            walk(f[1].get("inits"))
    for m in viol[:20]:
        for p in list(m.facts.le) + list(m.facts.nes):
            x = p.m.get(())
            if x is not None and x == int(x):
                r.add(abs(int(x)))
    return sorted(x for x in r if 3 <= x <= top)


def probe(an, s, sp, cfg, base, budget, seed, hist=sim.Replay):
    """histories through the numbers of messages the code mentions -> (mismatches, steps)"""
    t0 = time.process_time()
    steps = 0
    ls = literals(an, cfg["cls"], base, sp.top)
    for f, l in [(sp.gaps, l) for l in ls] + [(sp.probes, l) for l in ls if l <= 130]:
        for n in (l + 1, l - 1):
            try:
                todo = list(f(cfg, n))
            except Undecided:
                continue
            for c, script in todo:
                if time.process_time() - t0 > budget:
                    return [], steps
                rp = hist(s, c, seed)
                if hist is not sim.Replay:
                    script = (script, script[-3:])
                rp.scripts = lambda n, length, script=script: [script]
                rp.run(budget=min(30, budget), cap=8)
                steps += rp.steps
                if rp.found:
                    return rp.found, steps
    return [], steps


def one(name, i, tier, seed, kind="behaviour"):
    """one configuration of one operator -> plain result"""
    an = An()
    sp = getattr(specs, name)(an)
    cfgs = sp.configs_for(tier)
    cfg = cfgs[i]
    r = {"op": name, "config": cfg["label"], "status": None, "notes": [], "alarms": []}
    t0 = time.time()
    s = (sim.Sim if kind == "behaviour" else snap.Snap)(an, sp, cfg)
    hist = sim.Replay if kind == "behaviour" else snap.Twin
    try:
        ok = not cfg.get("many") and s.run()
    except Undecided as ex:
        s.und.append(str(ex))
        ok = False
    except BrokenAnalysis:
        raise
    except Exception as ex:       # a construct the analysis has no rule for
        s.und.append("internal: %s: %s" % (type(ex).__name__, ex))
        ok = False
    r["stats"] = {k: v for k, v in s.stats.items() if k != "dropped"}
    if ok:
        r["status"] = "established"
        r["wall"] = time.time() - t0
        return r
    viol = list(s.viol)
    for m in s.viol[:40] if kind == "behaviour" and not an.e.touched else []:
        try:
            w = s.confirm(m)
        except Undecided:
            w = None
        except Exception as ex:
            r["notes"].append("confirm: %s: %s" % (type(ex).__name__, ex))
            w = None
        if w is not None:
            r["alarms"].append({"key": "%s/%s/%s" % (name, cfg["label"], m.ev.name if m.ev else "constructor"),
                                "what": "%s (%s): %s" % (name, cfg["label"], m.what[:700]), "where": where(an, cfg, m),
                                "detail": describe(m, w)})
            break
    r["notes"] += s.und[:4]
    if not r["alarms"] and s.viol:
        r["notes"].append("agreement not established: %s" % s.viol[0].what[:400])
    if not r["alarms"]:
        # event histories from the constructor
        budget = (100 if tier == "quick" else 400) * (1 if kind == "behaviour" else 0.4)
        rnd = random.Random(seed)
        smalls = sp.small(cfg)
        r["histories"] = 0
        for c in smalls:
            rp = hist(s, c, rnd.randrange(1 << 30))
            try:
                rp.run(n=6 if tier == "quick" else 20, length=5 if tier == "quick" else 7,
                       budget=budget / max(1, len(smalls)), cap=300 if tier == "quick" else 1500)
            except Exception as ex:
                r["notes"].append("histories: %s: %s" % (type(ex).__name__, ex))
            r["histories"] += rp.steps
            for k, v in rp.skipped.items():
                r["notes"].append("%s (x%d)" % (k[:200], v))
            for m in rp.found[:1]:
                r["alarms"].append({"key": "%s/%s/%s" % (name, c["label"], m.ev.name if m.ev else "constructor"),
                                    "what": "%s (%s): %s" % (name, c["label"], m.what[:700]), "where": where(an, c, m),
                                    "detail": describe(m, m.witness)})
            if r["alarms"]:
                break
        if not r["alarms"] and not cfg.get("many"):
            try:
                found, k = probe(an, s, sp, cfg, viol, budget, seed, hist)
                r["histories"] += k
                for m in found[:1]:
                    r["alarms"].append({"key": "%s/%s/%s" % (name, m.cfg["label"], m.ev.name if m.ev else "constructor"),
                                        "what": "%s (%s): %s" % (name, m.cfg["label"], m.what[:700]), "where": where(an, m.cfg, m),
                                        "detail": describe(m, m.witness)})
            except Exception as ex:
                r["notes"].append("long histories: %s: %s" % (type(ex).__name__, ex))
        if not r["alarms"]:
            r["status"] = "bounded" if r["histories"] else "undecided"
    if r["alarms"]:
        r["status"] = "violated"
    r["wall"] = time.time() - t0
    return r


RULES = {
    "behaviour": "inductive agreement with the specified transition system of each operator, for arbitrary messages and "
                 "parameters; where no inductive relation is found, every path of event histories from the constructor "
                 "with arbitrary messages",
    "snapshot": "the inductive relation between members and specified state is preserved by collect() followed by "
                "restore() into a new object, which reads exactly the bytes written; where that is not established, saved and "
                "restored operator are compared on every path of event histories from the constructor",
}


def check(out, names, tier, seed, limit=None, kind="behaviour"):
    an = An()
    js = []
    for n in names:
        sp = getattr(specs, n)(an)
        an.cls(n)
        for i, c in enumerate(sp.configs_for(tier)):
            js.append(("%s: %s" % (n, c["label"]), one, (n, i, tier, seed, kind)))
    res = jobs.run(js, limit or (300 if tier == "quick" else 800), 600 if tier == "quick" else 840)
    for name in sorted(res):
        x = res[name]
        if x[0] == "time":
            out.skip("%s: out of time" % name)
            continue
        if x[0] == "err":
            if "BrokenAnalysis" in x[1]:
                raise BrokenAnalysis(x[1])
            out.skip("%s: %s" % (name, x[1]))
            continue
        r = x[1]
        for k, v in r["stats"].items():
            if isinstance(v, int):
                out.count(k, v)
        item = {"operator": r["op"], "configuration": r["config"], "status": r["status"], "wall_s": round(r["wall"], 2)}
        item.update(r["stats"])
        if r["notes"]:
            item["notes"] = [t[:400] for t in r["notes"][:6]]
        if r.get("histories"):
            item["history_steps"] = r["histories"]
            out.count("history_steps", r["histories"])
        out.items.append(item)
        if r["status"] == "established":
            out.decided += 1
        elif r["status"] == "bounded":
            out.bounded += 1
        elif r["status"] == "undecided":
            out.skip("%s: %s" % (name, "; ".join(r["notes"])[:600]))
        for a in r["alarms"]:
            out.alarm(a["key"], a["what"], a["where"], a["detail"])
    out.rules.append(RULES[kind])
