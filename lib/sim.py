"""Inductive agreement of an operator with the specification of its behaviour.

The specification is a transition system over a few abstract variables (the window, the accumulated value, ...). A
relation between the members of the operator and the specification variables is inferred from the constructor and made
inductive (candidates that a transition does not preserve are dropped, the member is then unconstrained). From every
related pair of states each entry point is analysed for an arbitrary message: what the operator hands out, the
exceptions it throws and what its accessors answer have to agree with the specification."""
from values import *
from compare import vsame
from engine import Frame
import witness
import random
import time
import itertools

UNDEF = "undef"
ANYOUT = "any output"
DEBUG = False


def indices(facts):
    """the element positions the facts talk about"""
    idx = {}
    for x in (tuple(facts.le) + tuple(p for _, p in facts.eqs) + tuple(facts.nes)):
        for i in atoms_of(x):
            a = by_id(i)
            if a.key[0] in ("at", "fld"):
                y = a.key
                while y[0] == "fld":
                    y = y[1]
                if y[0] == "at" and isinstance(y[2], Poly):
                    idx[y[2]] = 1
    return idx


def prove_all(facts, idx, k, n, c):
    """True/False/None: c holds for all 0 <= k < n"""
    # a witness against it
    for w in idx:
        if facts.query(c_lt(w - n)) is True and facts.query(c_le(-w)) is True and \
                facts.query(deep(c, Sub({k: w}))) is False:
            return False
    f = facts.copy()
    f.assume(c_lt(P(k) - n))
    if f.dead:
        return True
    for w in sorted(idx, key=show):
        g = f.copy()
        if not g.assume(c_eq(P(k) - w)) or g.query(c) is True:
            if not f.assume(c_ne(P(k) - w)):
                return True
    if f.query(c) is True:
        return True
    if induction(facts, k, n, c):
        return True
    offs = set(idx) | {ZERO, ONE, -ONE}
    for (b, m, d) in facts.alls:
        for o in offs:
            oc = o.const()
            if oc is None:
                continue
            i = P(k) - o
            if f.query(c_le(-i)) is True and f.query(c_lt(i - m)) is True:
                g = f.copy()
                if not g.assume(deep(d, Sub({b: i}))) or g.query(c) is True:
                    return True
    return None


def induction(facts, k, n, c):
    """c(0), and c(k) => c(k+1), for 0 <= k < n"""
    if facts.query(deep(c, Sub({k: ZERO}))) is not True:
        return False
    f = facts.copy()
    if not f.assume(c_lt(P(k) + 1 - n)) or not f.assume(c):
        return True
    for (b, m, d) in facts.alls:
        for i in (P(k), P(k) + 1, P(k) - 1):
            if f.query(c_le(-i)) is True and f.query(c_lt(i - m)) is True:
                if not f.assume(deep(d, Sub({b: i}))):
                    return True
    return f.query(deep(c, Sub({k: P(k) + 1}))) is True


def instantiate(facts, at):
    """the quantified facts at these positions; False when they contradict the others"""
    for (b, m, d) in list(facts.alls):
        for i in at:
            if facts.query(c_le(-i)) is True and facts.query(c_lt(i - m)) is True:
                if not facts.assume(deep(d, Sub({b: i}))):
                    return False
    return not facts.dead


class SpecCtx:
    """decisions of the specification under the facts of one path of the code"""

    def __init__(self, e, facts, script, state=None, val=None):
        self.e, self.facts, self.script, self.i = e, facts, script, 0
        self.state, self.val = state, val      # hints only: what the code did on this path

    def when(self, c):
        q = self.facts.query(c)
        if q is not None:
            return q
        if self.i < len(self.script):
            b = self.script[self.i]
        else:
            b = True
            self.script.append(True)
        self.i += 1
        if not self.facts.assume(c if b else c_not(c)):
            raise Infeasible()
        return b

    def when_all(self, k, n, c):
        """for all 0 <= k < n: c"""
        facts = self.facts
        cn = facts.norm(n).const()
        if cn is not None and cn <= 12:
            return all([self.when(deep(c, Sub({k: P(i)}))) for i in range(int(cn))])
        idx = indices(facts)
        r = prove_all(facts, idx, k, n, c)
        if r is not None:
            return r
        raise Undecided("quantified condition not resolved")


class Infeasible(Exception):
    pass


def run_spec(e, facts, f, state=None, limit=400, val=None):
    """all cases of f under facts -> [(facts, result)]"""
    out = []
    script = []
    while True:
        ctx = SpecCtx(e, facts.copy(), script, state, val)
        try:
            r = f(ctx)
            out.append((ctx.facts, r))
        except Infeasible:
            pass
        if len(out) > limit:
            raise Undecided("too many cases of the specification")
        script = script[:max(ctx.i, 0)]
        while script and script[-1] is False:
            script.pop()
        if not script:
            return out
        script[-1] = False


class Ev:
    """one entry point of the operator: name, method, port, kind of argument"""

    def __init__(self, name, method, port=None, arg=True, group=None, val=None, at=None):
        self.name, self.method, self.port, self.arg = name, method, port, arg
        self.group, self.val = group, val      # chosen histories: messages of one group share a time; a given value
        self.at = at                           # a given time

    def __repr__(self):
        return self.name


class Mismatch:
    def __init__(self, what, **kw):
        self.what = what
        self.__dict__.update(kw)


class Sim:
    def __init__(self, an, spec, cfg):
        self.an, self.e, self.spec, self.cfg = an, an.e, spec, cfg
        self.viol = []
        self.und = []
        self.stats = {"paths": 0, "transitions": 0, "observations": 0, "modes": 0, "dropped": []}
        self.counter = 0

    # ------------------------------------------------------------ state leaves
    def leaves(self, st, v, path=()):
        if isinstance(v, Struct) and "__key" not in v.f:
            for k in v.f:
                yield from self.leaves(st, v.f[k], path + (k,))
        elif isinstance(v, MapV) and v.vty is not None and v.ents and self.split(v):
            for i, (k, x, c) in enumerate(v.ents):
                yield from self.leaves(st, x, path + (("ent", k),))
        else:
            yield path, v

    def split(self, m):
        return m.base is None and all(isinstance(x, Struct) and x.cls and "Input" in self.an.p.simple(x.cls) and c == T
                                      for k, x, c in m.ents)

    def get(self, v, path):
        for k in path:
            if isinstance(k, tuple):
                if not isinstance(v, MapV):
                    return None
                v = next((x for kk, x, c in v.ents if kk == k[1] and x is not ABSENT and c == T), None)
                if v is None:
                    return None
            else:
                if not isinstance(v, Struct) or k not in v.f:
                    return None
                v = v.f[k]
        return v

    def put(self, v, path, x):
        if not path:
            return x
        k = path[0]
        if isinstance(k, tuple):
            ents = [(kk, self.put(y, path[1:], x) if kk == k[1] else y, c) for kk, y, c in v.ents]
            return MapV(v.kty, v.vty, v.base, ents)
        return v.set(k, self.put(v.f[k], path[1:], x))

    # ------------------------------------------------------------ the run
    def run(self):
        """returns True when the agreement was established"""
        try:
            inits = self.init()
        except Undecided as ex:
            self.und.append("constructor: %s" % ex)
            return False
        ok = True
        for st, obj, vars0 in inits:
            ok &= self.agree(st, obj, vars0)
        if self.e.touched:
            self.und.append("the code changes objects all instances share: %s" % ", ".join(sorted(map(str, self.e.touched))))
        return ok and not self.viol and not self.und

    def init(self, start=None):
        an, e = self.an, self.e
        cls = self.cfg["cls"]
        s = an.state(cls) if start is None else start.copy()
        for c in self.cfg.get("conds", ()):
            if not s.assume(c):
                return []
        usr = self.cfg["ctor"]
        rs = an.construct(s, cls, usr, self.cfg["args"])
        out = []
        self.inits = 0
        for s2, o in rs:
            self.stats["paths"] += 1
            for f, r in run_spec(e, s2.facts, lambda ctx: self.spec.ctor(ctx, self.cfg)):
                if r == "throw":
                    if s2.exc is None:
                        self.report("constructor accepts %s" % self.cfg["label"], f, s2, None)
                    elif s2.exc.ty == "UB":
                        self.report("constructor: undefined behaviour", f, s2, None)
                    continue
                if s2.exc is not None:
                    self.report("constructor rejects %s (%s)" % (self.cfg["label"], s2.exc.ty), f, s2, None)
                    continue
                s3 = s2.copy()
                s3.facts = f.copy()
                out.append((s3, o, r))
        return out

    def report(self, what, facts, st, ev, definite=True, vals=()):
        self.viol.append(Mismatch(what, facts=facts, st=st, ev=ev, vals=vals, cfg=self.cfg))

    def infer(self, st0, obj, vars0):
        spec, e = self.spec, self.e
        self.base = st0
        self.obj = obj
        v0 = st0.store[obj.loc]
        self.lf = [p for p, v in self.leaves(st0, v0)]
        mode0 = self.mode(vars0)
        self.bad = set()
        self.narrow = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 120:
                self.und.append("relation does not stabilise")
                return False
            self.changed = False
            self.rel = {}
            self.reached = {mode0}
            self.seed(mode0, v0, st0, vars0, st0.facts)
            done = set()
            while not self.changed:
                todo = [(m, ev) for m in sorted(self.reached, key=repr) for ev in self.events()
                        if (m, ev.name) not in done]
                if not todo:
                    break
                mode, ev = todo[0]
                done.add((mode, ev.name))
                try:
                    self.transition(mode, ev, final=False)
                except Undecided as ex:
                    self.und.append("%s in %s: %s" % (ev, self.modestr(mode), ex))
                    return False
            if not self.changed:
                break
        self.stats["modes"] += len(self.reached)
        return True

    def agree(self, st0, obj, vars0):
        spec = self.spec
        if not self.infer(st0, obj, vars0):
            return False
        found = []
        for mode in sorted(self.reached, key=repr):
            for ev in self.events():
                found += self.transition(mode, ev, final=True)
        for m in found:
            self.viol.append(m)
        return not found

    def events(self):
        return self.spec.events(self.cfg)

    def mode(self, vars):
        return tuple((b, vars[b]) for b in self.spec.bools(self.cfg))

    # candidates -----------------------------------------------------------
    def seed(self, mode, v, st, vars, facts):
        """candidate descriptions of each member from one concrete pair of states"""
        ex = self.spec.exprs(self.cfg, vars)
        r = {}
        for p in self.lf:
            x = self.get(v, p)
            c = []
            t = self.leafty(p)
            if isnum(x) and t is not None and t.k == "bool":
                x = c_ne(x)
            if x is not None:
                for name, y in ex.items():
                    if y is UNDEF or (mode, p, name) in self.bad or isnum(x) != isnum(y):
                        continue
                    if isinstance(x, MapV) and isinstance(y, MapV) and (x.vty is None) != (y.vty is None):
                        continue
                    w = self.smalltype(t, y)
                    if (w is None or isnum(y) and y.const() is not None) and (mode, p, name) not in self.narrow and \
                            vsame(self.e, facts, x, y, st.store, st.store) is True:
                        c.append(name)
                    w = w or self.narrow.get((mode, p, name)) or narrowed(x)
                    if w is not None and isnum(x) and (mode, p, ("narrow", name, w)) not in self.bad and \
                            vsame(self.e, facts, x, narrow(w, y), st.store, st.store) is True:
                        c.append(("narrow", name, w))
                c.sort(key=lambda n: self.rank(p, n if isinstance(n, str) else n[1]) + (isinstance(n, str),))
                if isinstance(x, PtrV) and isinstance(x.to, LV) and not x.to.path and (mode, p, "owned") not in self.bad:
                    c.append(("owned", x.ty, x.kind, st.store.get(x.to.loc)))
                if self.constlike(x) and (mode, p, "const") not in self.bad:
                    c.append(("const", x))
            r[p] = c
        self.rel[mode] = r

    def smalltype(self, t, y):
        """the type of a member, when it may be too small for the number y"""
        if t is None or not isnum(y):
            return None
        if t.k == "float" and t.w == 4:
            return "f32"
        if t.k == "int" and t.w is not None and t.w < 8 and (y.const() is not None or not all(self.e.is_small(by_id(a)) for a in y.atoms())):
            return "%sint%d" % ("" if t.sg else "u", 8 * t.w)
        return None

    def rank(self, p, name):
        """the likelier description first (any order is sound)"""
        def words(x):
            w, cur = set(), ""
            for ch in x:
                if ch.isalpha():
                    if ch.isupper() and cur and not cur[-1].isupper():
                        w.add(cur.lower())
                        cur = ""
                    cur += ch
                else:
                    if cur:
                        w.add(cur.lower())
                    cur = ch if ch.isdigit() else ""
            if cur:
                w.add(cur.lower())
            return w
        a, b = words(self.pname(p)), words(name)
        k = sum(1 for x in a for y in b if x[:4] == y[:4])
        return (-k, name.startswith(("sum ", "window ", "pending")))

    def constlike(self, x):
        """a value built from the configuration only"""
        return cfgonly(x)

    def refine(self, mode, v, st, vars, facts, why):
        """drops the candidates that do not hold for this pair of states"""
        if mode not in self.rel:
            self.reached.add(mode)
            self.seed(mode, v, st, vars, facts)
            return
        ex = None
        failing = []
        for p in self.lf:
            c = self.rel[mode][p]
            if not c:
                continue
            x = self.get(v, p)
            y = c[0]
            if isinstance(y, tuple) and y[0] == "owned":
                if isinstance(x, PtrV) and isinstance(x.to, LV) and not x.to.path:
                    continue
                y = UNDEF
            elif isinstance(y, tuple) and y[0] == "const":
                y = y[1]
            elif isinstance(y, tuple) and y[0] == "narrow":
                if ex is None:
                    ex = self.spec.exprs(self.cfg, vars)
                y = ex[y[1]]
                y = y if y is UNDEF else narrow(self.rel[mode][p][0][2], y)
            else:
                if ex is None:
                    ex = self.spec.exprs(self.cfg, vars)
                y = ex[y]
            if x is not None and y is not UNDEF and vsame(self.e, facts, x, y, st.store, st.store) is True:
                continue
            failing.append((p, x, y))
        if not failing:
            return
        self.changed = True
        many = [f for f in failing if len(self.rel[mode][f[0]]) > 1]
        for p, x, y in many or failing:
            c = self.rel[mode][p][0]
            if DEBUG:
                print("DROP", mode, self.pname(p), str(c)[:60], why, "\n    ", vshow(facts.norm(x))[:900], "\n    ", y if y is UNDEF else vshow(facts.norm(y))[:900])
            self.stats["dropped"].append((mode, self.pname(p), str(c)[:60], why, str(x)[:200], str(y)[:200]))
            w = narrowed(x) if x is not None and isnum(x) else None
            if w is not None and isinstance(c, str) and y is not UNDEF and isnum(y) and (mode, p, c) not in self.narrow and \
                    vsame(self.e, facts, x, narrow(w, y)) is True:
                self.narrow[(mode, p, c)] = w      # the variable, in a type too small for it
                continue
            self.bad.add((mode, p, c if isinstance(c, str) or c[0] == "narrow" else c[0]))

    def pname(self, p):
        return ".".join(k.split("::")[-1] if isinstance(k, str) else "[%s]" % k[1] for k in p)

    # one transition ---------------------------------------------------------
    def related(self, mode):
        """a generic pair of related states in this mode -> (state, vars) or None when infeasible"""
        spec, e = self.spec, self.e
        st = self.base.copy()
        vars = dict(mode)
        vars.update(spec.symbolic(self.cfg, dict(mode)))
        for c in spec.inv(self.cfg, vars) + spec.env(self.cfg, vars):
            if not st.facts.assume(c):
                return None
        ex = spec.exprs(self.cfg, vars)
        v = st.store[self.obj.loc]
        for p in self.lf:
            c = self.rel[mode][p]
            if c and c[0][0] == "owned" and isinstance(c[0], tuple):
                self.counter += 1
                x = c[0][3]
                if not isinstance(x, Struct):
                    raise Undecided("owned object")
                x = self.havoc(x, ("hv", self.pname(p), self.counter))
                v = self.put(v, p, PtrV(e.alloc(st, x, "n"), c[0][1], c[0][2]))
            elif c:
                if isinstance(c[0], tuple) and c[0][0] == "narrow":
                    y = ex[c[0][1]]
                    y = y if y is UNDEF else narrow(c[0][2], y)
                else:
                    y = c[0][1] if isinstance(c[0], tuple) else ex[c[0]]
                if y is UNDEF:
                    raise Undecided("member described by an undefined variable")
                v = self.put(v, p, retyped(y, self.get(v, p)))
            else:
                self.counter += 1
                t = self.leafty(p)
                v = self.put(v, p, e.symval(t, ("hv", self.pname(p), self.counter)))
        st.store[self.obj.loc] = v
        for l, x in spec.cells(self.cfg, vars).items():
            st.store[l] = x
        return st, vars

    def havoc(self, x, key):
        """an arbitrary object of the class of x"""
        return Struct(x.cls, {k: self.e.symval(self.an.p.fty[k], ("fld", key, k)) for k in x.f})

    def leafty(self, p):
        k = [x for x in p if isinstance(x, str)]
        return self.an.p.fty.get(k[-1]) if k else None

    def transition(self, mode, ev, final):
        an, e, spec = self.an, self.e, self.spec
        r = self.related(mode)
        if r is None:
            return []
        st, vars = r
        args, inp = spec.inputs(self.cfg, vars, ev, self.an)
        for c in spec.assume(self.cfg, vars, ev, inp):
            if not st.facts.assume(c):
                return []
        pre = st.copy() if final else None
        cls = self.cfg["cls"]
        found = []
        e.wraps = []
        rs = an.method(st, self.obj, ev.method, args)
        if final:
            for f, c, line, bits in e.wraps:
                f = f.copy()
                if f.assume(c):
                    found.append(Mismatch("%s in %s: a counter of %d bits runs over" % (ev.name, self.modestr(mode), bits),
                                          facts=f, st=st, ev=ev, mode=mode, cfg=self.cfg, line=line, vals=()))
        for s2, val in rs:
            self.stats["paths"] += 1
            for f, res in run_spec(e, s2.facts, lambda ctx: spec.step(ctx, self.cfg, dict(vars), ev, inp), s2, val=val):
                self.stats["transitions"] += 1
                kind = res[0]
                if kind == "any":
                    continue
                if s2.exc is not None or kind == "throw":
                    if s2.exc is None or kind != "throw" or s2.exc.ty == "UB":
                        if final:
                            found.append(Mismatch(
                                "%s in %s: %s" % (ev.name, self.modestr(mode),
                                                  ("throws %s" % exc_str(s2.exc)) if s2.exc is not None else
                                                  "does not throw"), facts=f, st=s2, ev=ev, mode=mode, cfg=self.cfg,
                                got=s2.exc and s2.exc.ty, want=kind, line=s2.line, vals=(), pre=vars))
                        continue
                    nv = res[1] if len(res) > 1 else None
                    if nv is None:
                        continue
                else:
                    nv = res[2]
                    if final and res[1] is not ANYOUT:
                        want = self.emission(res[1])
                        q = self.same_out(f, val, want)
                        if q is not True:
                            found.append(Mismatch(
                                "%s in %s hands out %s where %s is specified" % (
                                    ev.name, self.modestr(mode), vshow(f.norm(val))[:600], vshow(f.norm(want))[:600]),
                                facts=f, st=s2, ev=ev, mode=mode, cfg=self.cfg, got=val, want=want, q=q,
                                line=s2.line, vals=(val, want), pre=vars))
                if final:
                    for c in spec.inv(self.cfg, nv):
                        if f.query(c) is not True:
                            self.und.append("%s in %s: invariant %s of the specification not established" % (
                                ev.name, self.modestr(mode), show_cond(c)[:200]))
                v = s2.store[self.obj.loc]
                m2 = self.mode(nv)
                if not final:
                    self.refine(m2, v, s2, nv, f, "%s/%s" % (ev.name, self.modestr(mode)))
                    if self.changed:
                        return []
                else:
                    found += self.observe(s2, f, nv, ev, mode)
        return found

    def emission(self, em):
        """specified hand-out {port: [messages] | SeqV} as a ProgramMessage value"""
        e = self.e
        if isinstance(em, V):
            return em
        ents = []
        for port, ms in em.items():
            if isinstance(ms, (list, tuple)):
                ms = SeqV(self.spec.msgty(self.an), None, ZERO, ZERO, [("e", m) for m in ms])
            ents.append((S(port), ms, T))
        if not ents:
            return MapV(None, None, None, ())
        return MapV(None, None, None, ((self.cfg["id"], MapV(None, None, None, ents), T),))

    def same_out(self, f, got, want):
        got = tidy(self.e, f, got)
        want = tidy(self.e, f, want)
        if got is None or want is None:
            return None
        return vsame(self.e, f, got, want)

    def observe(self, st, f, nv, ev, mode):
        out = []
        for name, args, want in self.spec.obs(self.cfg, nv):
            s = st.copy()
            s.facts = f.copy()
            s.exc = None
            try:
                for s2, val in self.an.method(s, self.obj, name, args):
                    self.stats["observations"] += 1
                    if s2.exc is not None:
                        out.append(Mismatch("after %s in %s: %s throws %s" % (ev, self.modestr(mode), name, exc_str(s2.exc)),
                                            facts=s2.facts, st=s2, ev=ev, mode=mode, cfg=self.cfg, vals=(), line=s2.line))
                        continue
                    val = self.e.rv(s2, val)
                    q = vsame(self.e, s2.facts, val, want, s2.store, s2.store)
                    if q is not True:
                        out.append(Mismatch("after %s in %s: %s(%s) is %s, specified %s" % (
                            ev, self.modestr(mode), name, ", ".join(map(repr, args)), vshow(s2.facts.norm(val))[:300],
                            vshow(s2.facts.norm(want))[:300]), facts=s2.facts, st=s2, ev=ev, mode=mode, cfg=self.cfg,
                            got=val, want=want, q=q, vals=(val, want), line=s2.line))
            except Undecided as ex:
                self.und.append("%s: %s" % (name, ex))
        return out

    # confirmation ---------------------------------------------------------
    def confirm(self, m, tries=60):
        """an instance of a mismatch, or None"""
        conds, alls = [], []
        if getattr(m, "pre", None) is not None:
            conds, alls = self.spec.reach(self.cfg, m.pre)
        f = m.facts
        if alls:
            f = f.copy()
            f.alls = f.alls + alls
        return witness.search(self.e, f, m.vals, conds, tries)

    def modestr(self, mode):
        return "state{%s}" % ", ".join("%s%s" % ("" if b else "not ", n) for n, b in mode) if mode else "any state"


class Replay:
    """Event histories from the constructor: every path of the code for arbitrary messages, against the specification.
    No relation has to be found, in exchange the length of the histories and the sizes are bounded."""

    def __init__(self, sim, cfg, seed=1):
        self.sim, self.cfg = sim, cfg
        self.an, self.e, self.spec = sim.an, sim.e, sim.spec
        self.rng = random.Random(seed)
        self.found = []
        self.skipped = {}
        self.steps = 0

    def scripts(self, n, length):
        if self.cfg.get("many"):
            yield from self.spec.chosen(self.cfg)
            return
        yield from self.spec.timed(self.cfg, self.rng)
        evs = self.spec.events(self.cfg)
        recv = [e for e in evs if e.arg and e.port not in ("", "?")]
        exe = [e for e in evs if not e.arg]
        rest = [e for e in evs if e not in recv and e not in exe]
        ex = {e.method: e for e in exe}

        def after(e):
            m = "executeControl" if e.method == "receiveControl" else "executeData"
            return [ex[m]] if m in ex else []
        a = []
        if not recv:
            return
        for i in range(max(length, 2 * len(recv))):
            e = recv[i % len(recv)]
            a += [e] + after(e)
        yield a
        for k in range(n):
            s = []
            while len(s) < 2 * length:
                e = self.rng.choice(recv)
                s.append(e)
                if self.rng.random() < 0.8:
                    s += after(e)
                if self.rng.random() < 0.12 and rest:
                    s.append(self.rng.choice(rest))
                if self.rng.random() < 0.1 and exe:
                    s.append(self.rng.choice(exe))
            yield s

    def run(self, n=6, length=5, budget=60, cap=300):
        t0 = time.process_time()
        sim = self.sim
        old = sim.cfg
        sim.cfg = self.cfg
        sim.viol = []
        try:
            inits = sim.init()
            self.found += [m for m in sim.viol]
            self.confirm()
            if self.found:
                return self.found
            for j, script in enumerate(self.scripts(n, length)):
                ends = self.play(inits, script, 0, t0, budget, cap)
                if ends is None:
                    return self.found
                if not self.e.touched:
                    continue
                # a further object after this one: what both share has changed by then
                self.rng.shuffle(ends)
                for s, o, v, last in ends[:6]:
                    sim.viol = []
                    more = sim.init(s)
                    self.found += list(sim.viol)
                    self.confirm()
                    if self.found or self.play(more, script, len(script), t0, budget, cap) is None:
                        return self.found
        except Undecided as ex:
            self.note(str(ex))
        finally:
            sim.cfg = old
            self.spec.tag = ""
        return self.found

    def play(self, inits, script, k0, t0, budget, cap):
        """the script on every initial state -> the states at its end, None when it is time to stop"""
        todo = [(s, o, v, {}) for s, o, v in inits]
        for k, ev in enumerate(script):
            nxt = []
            for s, o, v, last in todo:
                if time.process_time() - t0 > budget:
                    return None
                self.step(s, o, v, last, ev, k0 + k, nxt)
                if self.found:
                    return None
            if len(nxt) > cap:
                self.rng.shuffle(nxt)
                nxt = nxt[:cap]
            todo = nxt
        return todo

    def note(self, x):
        self.skipped[x] = self.skipped.get(x, 0) + 1

    def confirm(self):
        r = []
        for m in self.found:
            w = self.sim.confirm(m, 30)
            if w is not None:
                m.witness = w
                r.append(m)
        self.found = r

    def step(self, st, obj, vars, last, ev, k, out):
        spec, sim = self.spec, self.sim
        spec.tag = "%d" % (k + 1)
        st = st.copy()
        args, inp = spec.inputs(self.cfg, vars, ev, self.an)
        for c in spec.assume(self.cfg, vars, ev, inp) + groups(spec, ev, inp):
            if not st.facts.assume(c):
                return
        p = ev.port or next(iter(spec.ports(self.cfg)))
        if inp is not None and spec.orders(self.cfg, p):
            if p in last and not st.facts.assume(spec.later(last[p], spec.t(inp))):
                return
            last = dict(last)
            last[p] = spec.t(inp)
        what = "event %d %s" % (k + 1, ev.name)
        try:
            self.e.lost = []
            rs = self.an.method(st, obj, ev.method, args)
            for x in self.e.lost:
                self.note(x)
        except Undecided as ex:
            self.note(str(ex))
            return
        finally:
            self.e.lost = None
        for s2, val in rs:
            self.steps += 1
            try:
                cases = run_spec(self.e, s2.facts, lambda ctx: spec.step(ctx, self.cfg, dict(vars), ev, inp), s2, val=val)
            except Undecided as ex:
                self.note("specification: %s" % ex)
                continue
            for f, res in cases:
                kind = res[0]
                if kind == "any":
                    continue
                if s2.exc is not None or kind == "throw":
                    if s2.exc is None or kind != "throw" or s2.exc.ty == "UB":
                        self.found.append(Mismatch("%s %s" % (what, ("throws %s" % exc_str(s2.exc)) if s2.exc is not None
                                                             else "does not throw"), facts=f, st=s2, ev=ev, vals=(),
                                                   cfg=self.cfg, line=s2.line))
                        self.confirm()
                        if self.found:
                            return
                        continue
                    nv = res[1] if len(res) > 1 else None
                    if nv is None:
                        continue
                else:
                    nv = res[2]
                    if res[1] is not ANYOUT:
                        want = sim.emission(res[1])
                        if sim.same_out(f, val, want) is not True:
                            self.found.append(Mismatch("%s hands out %s where %s is specified" % (
                                what, vshow(f.norm(val))[:300], vshow(f.norm(want))[:300]), facts=f, st=s2, ev=ev,
                                vals=(outval(val), want), cfg=self.cfg, line=s2.line))
                            self.confirm()
                            if self.found:
                                return
                old = sim.obj if hasattr(sim, "obj") else None
                sim.obj = obj
                und = len(sim.und)
                for m in sim.observe(s2, f, nv, ev, ()):
                    m.what = "event %d: %s" % (k + 1, m.what)
                    self.found.append(m)
                del sim.und[und:]
                sim.obj = old
                self.confirm()
                if self.found:
                    return
                s3 = s2.copy()
                s3.exc = None
                s3.facts = f
                out.append((s3, obj, nv, last))


def narrowed(x):
    """the type a number was cut to"""
    if isnum(x) and len(x.m) == 1:
        (k, v), = x.m.items()
        if v == 1 and len(k) == 1 and k[0][1] == 1:
            a = by_id(k[0][0])
            if a.key[0] == "app" and isnarrow(a.key[1]):
                return a.key[1]
    return None


def groups(spec, ev, m):
    if ev.group:
        return [c_lt(P(atom(("s", "time of group %d" % (ev.group - 1)), True, True)) - spec.t(m))]
    return []


def outval(v):
    return v


def retyped(y, x):
    """y with the container types of x"""
    if isinstance(y, MapV) and isinstance(x, MapV):
        return MapV(x.kty, x.vty, y.base, y.ents)
    if isinstance(y, SeqV) and isinstance(x, SeqV):
        return SeqV(x.ety, y.base, y.lo, y.hi, y.tail)
    return y


def exc_str(x):
    return "%s%s" % (x.ty, " %r" % (x.v,) if x.v is not None else "")


def cfgonly(x):
    if isinstance(x, Poly):
        return all(cfgonly(by_id(i)) for i in x.atoms())
    if isinstance(x, Atom):
        return cfgkey(x.key)
    if isinstance(x, PtrV):
        return x.to is None
    if isinstance(x, V):
        return all(cfgonly(p) for p in x.parts())
    if isinstance(x, dict):
        return all(cfgonly(p) for p in x.values())
    if isinstance(x, (tuple, list)):
        return cfgkey(x) if x and x[0] in ("cfg", "at", "len", "fld", "get", "deref", "opq", "hv", "it", "lc", "uninit",
                                           "a", "sym") else all(cfgonly(p) for p in x)
    return True


def cfgkey(k):
    if k[0] == "cfg":
        return True
    if k[0] in ("at", "len", "fld", "get", "deref", "a", "sym"):
        return isinstance(k[1], tuple) and cfgkey(k[1])
    if k[0] in ("opq", "hv", "it", "lc", "uninit", "W", "s"):
        return False
    return all(cfgonly(p) for p in k[1:] if isinstance(p, (Poly, Atom, V, tuple, dict)))


def tidy(e, f, v):
    """ProgramMessage without empty entries; None when its shape is not known"""
    if v is None:
        return MapV(None, None, None, ())
    if isinstance(v, MapV):
        if v.base is not None:
            return None
        r = []
        for k, x, c in v.ents:
            if x is ABSENT:
                continue
            if c != T:
                q = f.query(c)
                if q is False:
                    continue
                if q is None:
                    return None
            y = tidy(e, f, x)
            if y is None:
                return None
            if isinstance(y, MapV) and not y.ents:
                continue
            if isinstance(y, SeqV):
                n = f.norm(seq_len(y))
                if n.const() == 0 or f.query(c_le(n)) is True:
                    continue
            r.append((k, y, T))
        return MapV(None, None, None, r)
    return v
