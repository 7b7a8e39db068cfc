"""Snapshots: collect() followed by restore() into a freshly built operator of the same configuration.

The inductive relation between members and specification variables (sim.py) is inferred first; from every related state the
bytes written by collect() are read back by restore() of a new object and the result has to be related to the same
specification variables, so it answers every later message as the saved operator would have."""
from values import *
from compare import vsame
from sim import Sim, Replay, Mismatch, Ev, exc_str, tidy, groups
import itertools
import time

SNAP = Ev("save and restore", "collect", None, arg=False)


def roundtrip(an, e, st, obj, cls, usr, args):
    """-> [(state, new object or None when it throws, value of obj before, bytes left)]"""
    out = []
    for s1, o2 in an.construct(st, cls, usr, args):
        if o2 is None:
            out.append((s1, None, "constructor", None))
            continue
        for s2, b in an.method(s1, obj, "collect", []):
            if s2.exc is not None:
                out.append((s2, None, "collect", None))
                continue
            bl = b if isinstance(b, LV) else e.alloc(s2, e.rv(s2, b), "b")
            for s3, it in begin(e, s2, bl):
                cell = e.alloc(s3, it, "i")
                for s4, _ in an.method(s3, o2, "restore", [cell]):
                    if s4.exc is not None:
                        out.append((s4, None, "restore", None))
                    else:
                        out.append((s4, o2, None, rest(e, s4, bl, cell)))
    return out


def begin(e, s, l):
    r = e.std.begin(s, l, {"l": 0})
    return r if isinstance(r, list) else [(s, r)]


def rest(e, s, bl, cell):
    """condition: the whole snapshot was read"""
    it = e.read(s, cell)
    rs = e.std.iter_eq(s, it, e.std.end(s, bl, {"l": 0}), {"l": 0})
    return rs[0][1] if len(rs) == 1 else None


class Snap(Sim):
    def events(self):
        return self.spec.events(self.cfg) + [SNAP]

    def transition(self, mode, ev, final):
        if ev is not SNAP:
            return Sim.transition(self, mode, ev, final)
        r = self.related(mode)
        if r is None:
            return []
        st, vars = r
        before = st.store[self.obj.loc]
        found = []
        cfg = self.cfg
        for s2, o2, where, whole in roundtrip(self.an, self.e, st, self.obj, cfg["cls"], cfg["ctor"], cfg["args"]):
            self.stats["paths"] += 1

            def bad(what, vals=()):
                found.append(Mismatch("%s in %s: %s" % (SNAP, self.modestr(mode), what), facts=s2.facts, st=s2, ev=SNAP,
                                      mode=mode, cfg=cfg, line=s2.line, vals=vals, pre=vars))
            if o2 is None:
                if final:
                    bad("%s throws %s" % (where, exc_str(s2.exc)))
                continue
            if not final:
                for o in (self.obj, o2):
                    self.refine(mode, s2.store[o.loc], s2, vars, s2.facts, "%s/%s" % (SNAP, self.modestr(mode)))
                    if self.changed:
                        return []
                continue
            if whole is None or s2.facts.query(whole) is None:
                self.und.append("%s: end of the snapshot not resolved" % self.modestr(mode))
            elif s2.facts.query(whole) is not True:
                bad("restore does not read exactly what collect wrote")
            self.mapkeys(before, s2.store[o2.loc], bad)
            self.mapkeys(before, s2.store[self.obj.loc], bad)
            old = self.obj
            for o in (old, o2):
                self.stats["transitions"] += 1
                self.obj = o
                found += self.observe(s2, s2.facts, vars, SNAP, mode)
            self.obj = old
        return found

    def mapkeys(self, a, b, bad):
        if isinstance(a, Struct) and isinstance(b, Struct):
            for k in a.f:
                if k in b.f:
                    self.mapkeys(a.f[k], b.f[k], bad)
        elif isinstance(a, MapV) and isinstance(b, MapV) and a.ents and self.split(a):
            ka = {k for k, x, c in a.ents if x is not ABSENT}
            kb = {k for k, x, c in b.ents if x is not ABSENT}
            if ka != kb:
                bad("ports %s restored as %s" % (sorted(map(repr, ka)), sorted(map(repr, kb))))


def unset(x):
    """mentions a member that was never written"""
    if isinstance(x, Poly):
        return any(unset(by_id(i)) for i in x.atoms())
    if isinstance(x, Atom):
        return unset(x.key)
    if isinstance(x, V):
        return any(unset(p) for p in x.parts())
    if isinstance(x, dict):
        return any(unset(p) for p in x.values())
    if isinstance(x, (tuple, list)):
        return bool(x) and x[0] == "uninit" or any(unset(p) for p in x)
    return False


class Twin(Replay):
    """Event histories from the constructor; after a save and restore the saved and the restored operator are given the same
    events and have to answer alike. The specification only provides the messages and the accessors."""

    def observers(self):
        seen, r = set(), []
        names = self.spec.bools(self.cfg)
        for m in itertools.product((True, False), repeat=len(names)) if len(names) < 8 else \
                ((b,) * len(names) for b in (True, False)):
            vars = dict(zip(names, m))
            try:
                vars.update(self.spec.symbolic(self.cfg, dict(vars)))
                for name, args, want in self.spec.obs(self.cfg, vars):
                    if (name, repr(args)) not in seen:
                        seen.add((name, repr(args)))
                        r.append((name, args))
            except (Undecided, KeyError):
                pass
        return r

    def scripts(self, n, length):
        base = list(Replay.scripts(self, n, length))
        if self.cfg.get("many"):
            for s in base:
                yield s[:len(s) - 1], s[len(s) - 1:]
            return
        for i, s in enumerate(base):
            if i == 0 or s[0].at is not None:
                for k in range(0, len(s) - 1, 1 if i == 0 else 2):
                    yield s[:k], s[k:k + 5]
            else:
                k = self.rng.randrange(1, len(s) - 3)
                yield s[:k], s[k:k + 5]

    def run(self, n=6, length=5, budget=60, cap=300):
        self.t0, self.budget = time.process_time(), budget
        sim, old = self.sim, self.sim.cfg
        sim.cfg = self.cfg
        sim.viol = []
        cfg = self.cfg
        try:
            self.obsv = self.observers()
            inits = sim.init()
            for pre, post in self.scripts(n, length):
                todo = [(s, o, None, v, {}) for s, o, v in inits]
                for k, ev in enumerate(list(pre) + [SNAP] + list(post)):
                    nxt = []
                    for s, o, o2, v, last in todo:
                        if time.process_time() - self.t0 > budget:
                            return self.found
                        try:
                            self.e.lost = []
                            if ev is SNAP:
                                self.save(s, o, v, last, k, nxt)
                            else:
                                self.both(s, o, o2, v, last, ev, k, nxt)
                            for x in self.e.lost or ():
                                self.note(x)
                        except Undecided as ex:
                            self.note(str(ex))
                        finally:
                            self.e.lost = None
                        if self.found:
                            return self.found
                    if len(nxt) > cap:
                        self.rng.shuffle(nxt)
                        nxt = nxt[:cap]
                    todo = nxt
        except Undecided as ex:
            self.note(str(ex))
        finally:
            sim.cfg = old
            self.spec.tag = ""
        return self.found

    def bad(self, what, s, ev, vals=()):
        self.found.append(Mismatch(what, facts=s.facts, st=s, ev=ev, vals=vals, cfg=self.cfg, line=s.line))
        self.confirm()
        return bool(self.found)

    def save(self, st, obj, v, last, k, out):
        cfg = self.cfg
        for s2, o2, where, whole in roundtrip(self.an, self.e, st.copy(), obj, cfg["cls"], cfg["ctor"], cfg["args"]):
            self.steps += 1
            if o2 is None:
                if self.bad("event %d: %s throws %s" % (k + 1, where, exc_str(s2.exc)), s2, SNAP):
                    return
                continue
            if whole is not None and s2.facts.query(whole) is False:
                if self.bad("event %d: restore does not read exactly what collect wrote" % (k + 1), s2, SNAP):
                    return
            if self.alike(s2, obj, o2, "event %d %s" % (k + 1, SNAP), SNAP):
                return
            out.append((s2, obj, o2, v, last))

    def alike(self, st, o1, o2, what, ev):
        for name, args in self.obsv:
            for s1, x in self.an.method(st.copy(), o1, name, args):
                if s1.exc is not None:
                    continue
                x = self.e.rv(s1, x)
                if unset(x):
                    continue
                for s2, y in self.an.method(s1, o2, name, args):
                    if s2.exc is not None:
                        if self.bad("%s: %s throws %s on the restored operator" % (what, name, exc_str(s2.exc)), s2, ev):
                            return True
                        continue
                    y = self.e.rv(s2, y)
                    if vsame(self.e, s2.facts, x, y, s2.store, s2.store) is not True:
                        if self.bad("%s: %s(%s) is %s on the saved operator, %s on the restored one" % (
                                what, name, ", ".join(map(repr, args)), vshow(s2.facts.norm(x))[:300],
                                vshow(s2.facts.norm(y))[:300]), s2, ev, (x, y)):
                            return True
        return False

    def both(self, st, o1, o2, vars, last, ev, k, out):
        spec = self.spec
        spec.tag = "%d" % (k + 1)
        st = st.copy()
        args, inp = spec.inputs(self.cfg, vars, ev, self.an)
        for c in spec.assume(self.cfg, vars, ev, inp) + groups(spec, ev, inp):
            if not st.facts.assume(c):
                return
        p = ev.port or next(iter(spec.ports(self.cfg)))
        if inp is not None and spec.orders(self.cfg, p):
            if p in last and not st.facts.assume(spec.later(last[p], spec.t(inp))):
                return
            last = dict(last)
            last[p] = spec.t(inp)
        what = "event %d %s" % (k + 1, ev.name)
        for s1, x in self.an.method(st, o1, ev.method, args):
            self.steps += 1
            if s1.exc is not None and s1.exc.ty == "UB":
                continue
            if o2 is None:
                s1 = s1.copy()
                s1.exc = None
                out.append((s1, o1, None, vars, last))
                continue
            e1 = s1.exc
            s1 = s1.copy()
            s1.exc = None
            for s2, y in self.an.method(s1, o2, ev.method, args):
                if (s2.exc is None) != (e1 is None) or s2.exc is not None and s2.exc.ty != e1.ty:
                    if self.bad("%s: the saved operator %s, the restored one %s" % (
                            what, "throws %s" % exc_str(e1) if e1 else "returns",
                            "throws %s" % exc_str(s2.exc) if s2.exc else "returns"), s2, ev):
                        return
                    continue
                s2.exc = None
                if e1 is None:
                    u, w = tidy(self.e, s2.facts, x), tidy(self.e, s2.facts, y)
                    if u is not None and not unset(u) and (w is None or vsame(self.e, s2.facts, u, w) is not True):
                        if self.bad("%s: the saved operator hands out %s, the restored one %s" % (
                                what, vshow(s2.facts.norm(x))[:300], vshow(s2.facts.norm(y))[:300]), s2, ev, (x, y)):
                            return
                        continue
                if self.alike(s2, o1, o2, what, ev):
                    return
                out.append((s2.copy(), o1, o2, vars, last))
