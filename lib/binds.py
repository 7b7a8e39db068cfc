"""The text interface (bindings): every function against the registry model, in the documented JSON forms."""
import netcheck
from apis import *
from apis import Registry as Base
from netcheck import BUDGET, CAP
from drive import An
from defs import J, dump, base
from jsons import unj
import jsons

UNIT = "bindings.cpp"


class Bindings(Base):
    def __init__(self, an):
        Base.__init__(self, an)
        self.fns = {}
        for u, l in an.p.funcs.items():
            for tn, f in l:
                if f["file"].endswith(UNIT) and "::" not in f["qn"]:
                    self.fns.setdefault(f["qn"], []).append((u, tn, f))
        if not self.fns:
            raise netcheck.BrokenAnalysis("no functions in %s" % UNIT)

    def start(self):
        """state in which the registry behind the functions is constructed"""
        st, fac = registered(self.an)
        seen = []
        for s, v in self.fn(st.copy(), "getProgramEntryOperatorId", [S("p")]):
            for k, v in s.store.items():
                if k not in st.store and isinstance(v, Struct) and v.cls == self.cls and k not in seen:
                    seen.append(k)
        if len(seen) != 1:
            raise Undecided("%d registries behind the functions" % len(seen))
        st.store[seen[0]] = self.e.rv(st, fac)
        return st

    def fn(self, st, name, args, pred=None):
        for u, tn, f in self.fns.get(name, ()):
            ts = [self.an.p.ty(tn, p["t"]) for p in f["ps"]]
            if len(ts) == len(args) and (pred is None or pred(ts)):
                xs = [self.e.alloc(st, x, "arg") if t.k == "ref" and not isinstance(x, LV) else x for x, t in zip(args, ts)]
                return self.e.call(st, u, None, xs, {"k": "call", "l": 0})
        raise netcheck.BrokenAnalysis("no function %s of %d parameters" % (name, len(args)))

    def text(self, rs):
        """results that are JSON texts, as values"""
        return [(s, None, plain(jsons.parse(self.an, s, v)) if s.exc is None else None) for s, v in rs]

    def word(self, rs):
        return [(s, None, self.e.rv(s, v) if s.exc is None and v is not None else None) for s, v in rs]

    def judge(self, doc, ok, want=None):
        """the validator refuses the documents equal to doc under the schema want"""
        root = {}

        def f(s, v, name, args):
            if name == "set_root_schema":
                s.store[("schema of", v)] = args[0]
                return True
            same = repr(args[0]) == repr(doc) and (want is None or repr(s.store.get(("schema of", v))) == repr(want))
            return ok if same else not ok
        return f

    def do(self, st, obj, ev, k):
        kind, pid, a = ev.kind, S(ev.pid), ev.a
        e = self.e
        if kind == "create":
            text = a[0].program()
            e.validator = self.judge(parsed(text), True)
            return self.word(self.fn(st, "createProgram", [pid, text], lambda ts: strtype(ts[1])))
        if kind == "invalid":
            text = a[0].program()
            e.validator = self.judge(parsed(text), False)
            rs = self.fn(st, "createProgram", [pid, text], lambda ts: strtype(ts[1]))
            return [(s, None, verdict(v)) for s, o, v in self.text(rs)]
        if kind == "copy":
            out = []
            for s, b in self.fn(st, "serializeProgram", [pid]):
                if s.exc is not None:
                    out.append((s, None, None))
                    continue
                bl = b if isinstance(b, LV) else e.alloc(s, e.rv(s, b), "b")
                for s2, v in self.fn(s, "createProgram", [S(a[0]), bl], lambda ts: not strtype(ts[1])):
                    out.append((s2, None, None))
            return out
        if kind == "delete":
            return self.word(self.fn(st, "deleteProgram", [pid]))
        if kind == "add":
            m = message(self.an, str(k + 1))
            return self.word(self.fn(st, "addToMessageBuffer", [pid, S(a[0]), m.f["Message::time"], m.f["Message::value"]]))
        if kind in ("process", "processDebug"):
            return self.text(self.fn(st, "processMessageBuffer" + kind[7:], [pid]))
        if kind in ("batch", "batchDebug"):
            ms = [message(self.an, "%d.%d" % (k + 1, i)) for i in range(len(a[0]))]
            cols = [[m.f["Message::time"] for m in ms], [m.f["Message::value"] for m in ms], [S(p) for p in a[0]]]
            if len(a) > 1:
                cols[a[1]] = cols[a[1]][:-1] if a[2] < 0 else cols[a[1]] + cols[a[1]][-1:]
            return self.text(self.fn(st, "processBatch" + kind[5:], [pid] + [
                SeqV(None, None, ZERO, ZERO, [("e", x) for x in c]) for c in cols]))
        if kind in ("map", "mapDebug", "native"):
            n = "processMessageMap" + ("Native" if kind == "native" else kind[3:])
            rs = self.fn(st, n, [pid, opmsg(a[1], st, a[0], k, self.cls, "processMessageMap")])
            return self.word(rs) if kind == "native" else self.text(rs)
        if kind == "entry":
            return self.word(self.fn(st, "getProgramEntryOperatorId", [pid]))
        if kind == "ports":
            return self.text(self.fn(st, "getProgramEntryPorts", [pid]))
        if kind == "filter":
            return self.text(self.fn(st, "getProgramOutputFilter", [pid]))
        raise Undecided("call %s" % kind)

    def model(self, ctx, w, ev, k):
        kind, a = ev.kind, ev.a
        if kind == "invalid":
            return verdict(None, False), w
        if kind in ("batch", "batchDebug"):
            if len(a) > 1:
                raise Thrown("columns of different lengths", w)
            if ev.pid not in w["progs"]:
                raise Thrown("unknown", w)
            buf = dict(w["buf"])
            b = {p: list(ms) for p, ms in buf.get(ev.pid, {}).items()}
            for i, p in enumerate(a[0]):
                b.setdefault(p, []).append(message(self.an, "%d.%d" % (k + 1, i)))
            if b:
                buf[ev.pid] = b
            v, w = Base.model(self, ctx, {"progs": w["progs"], "buf": buf}, Call("process" + kind[5:], ev.pid), k)
            return plain(v), w
        v, w = Base.model(self, ctx, w, Call("map", ev.pid, *a) if kind == "native" else ev, k)
        if kind == "create":
            return S(""), w
        if kind == "delete":
            return S("1" if v == T else "0"), w
        if kind == "add":
            return S("1"), w
        return v if kind in ("entry", "native", "copy") else plain(v), w


def verdict(v, valid=None):
    """the answer of a validation without the wording of its error"""
    if v is None:
        return MapV(None, None, None, [(S("valid"), T if valid else F, T)] + ([] if valid else [(S("error"), T, T)]))
    if not isinstance(v, MapV):
        return v
    return MapV(None, None, None, [(k, T if k == S("error") and (x == T or not isinstance(x, Json) and not isnum(x)) else cond(x), c)
                                   for k, x, c in v.ents])


def cond(x):
    return c_ne(x) if isnum(x) else x


def parsed(text):
    return text.p[0][1][1]


def plain(x):
    """a JSON value in a form that does not depend on how it was made"""
    x = unj(x) if isinstance(x, Json) else x
    if isinstance(x, Json) and x.kind == "obj":
        return MapV(None, None, None, [(S(k), plain(v), T) for k, v in x.a])
    if isinstance(x, Json) and x.kind == "arr":
        return plain(x.a)
    if isinstance(x, MapV) and x.base is None:
        return MapV(None, None, None, [(k, v if v is ABSENT else plain(v), c) for k, v, c in x.ents])
    if isinstance(x, SeqV) and x.base is None and all(p[0] == "e" for p in x.tail):
        return SeqV(None, None, ZERO, ZERO, [("e", plain(p[1])) for p in x.tail])
    if isinstance(x, Struct) and set(x.f) == {"Message::time", "Message::value"}:
        return MapV(None, None, None, [(S("time"), x.f["Message::time"], T), (S("value"), x.f["Message::value"], T)])
    return x


def more(an):
    a, b, c = programs(an)
    C = Call
    r = dict(scripts(an))
    r.update({
        "invalid text": [C("invalid", "p", a), C("create", "p", a), C("invalid", "p", c), C("map", "p", {"i1": 1}, a)],
        "invalid text leaves no program": [C("invalid", "p", c), C("add", "p", "i1"), C("create", "p", c), C("process", "p")],
        "batches": [C("create", "p", c), C("batch", "p", ("i1", "i1", "i1")), C("process", "p"), C("batch", "p", ()),
                    C("batchDebug", "p", ("i1",))],
        "batches of two ports": [C("create", "p", b), C("batch", "p", ("i2", "i1", "i2")), C("batchDebug", "p", ("i1", "i2"))],
        "batch with a message for no port": [C("create", "p", b), C("batch", "p", ("i1", "", "i2")), C("process", "p"),
                                             C("batch", "p", ("i2", "nowhere"))],
        "batch after buffered messages": [C("create", "p", c), C("add", "p", "i1"), C("batch", "p", ("i1", "i1")),
                                          C("add", "p", "i1"), C("batchDebug", "p", ()), C("process", "p")],
        "batch for an unknown program": [C("create", "p", c), C("batch", "q", ("i1",)), C("create", "q", c), C("process", "q")],
        "native results": [C("create", "p", b), C("native", "p", {"i1": 1, "i2": 1}, b), C("map", "p", {"i1": 1, "i2": 1}, b),
                           C("mapDebug", "p", {"i1": 1, "i2": 1}, b)],
    })
    for i, n in enumerate(("times", "values", "ports")):
        for d in (-1, 1):
            r["batch with %s %s" % (n, "missing" if d < 0 else "extra")] = [
                C("create", "p", c), C("add", "p", "i1"), C("batch", "p", ("i1", "i1"), i, d),
                C("batchDebug", "p", ("i1", "i1"), i, d), C("process", "p"), C("batch", "p", ("i1",))]
    return r


def job(label, tier, seed):
    an = An()
    r = netcheck.result("text interface", label)
    b = Bindings(an)
    sc = more(an)[label]
    h = History(an, label, budget=BUDGET[tier], cap=CAP[tier], seed=seed)
    netcheck.guarded(r, an, h, " ".join(map(repr, sc)),
                     lambda: h.run([(b.start(), None, {"progs": {}, "buf": {}})], sc, b.do, b.model))
    return r


def validation(label, tier, seed):
    """validate and validateOperator answer what the validator says about the given text under the right schema"""
    an = An()
    b = Bindings(an)
    r = netcheck.result("text interface", label)
    st = b.start()
    # one type name is the beginning of another, whichever comes first
    kinds = ("Add", "GreaterThanStream", "GreaterThan", "LessThan", "LessThanStream", "Join")

    def one(kind):
        return J({"properties": {"type": {"type": "string", "enum": [kind]}}, "required": [kind]})
    schema = J({"title": "program", "properties": {"operators": {"type": "array", "items": {"oneOf": [one(k) for k in kinds]}}}})
    seen = []
    for s, v in b.fn(st.copy(), "validate", [dump(base())]):
        seen += [k for k, x in s.store.items() if k not in st.store and k[0] in ("global", "static") and isinstance(x, Json) and
                 k not in seen]
    if len(seen) != 1:
        raise Undecided("%d schemas" % len(seen))
    st.store[seen[0]] = schema
    doc = J(base())
    op = J({"type": "Join", "id": "j"})
    for what, args, d, want in [("validate", [dump(base())], doc, schema)] + [
            ("validateOperator", [S(k), SA(("dump", op))], op, one(k)) for k in kinds]:
        for ok in (True, False):
            p = jsons.Probe(an, label)
            name = "%s %s, document %s" % (what, args[0].const() or "", "correct" if ok else "wrong")

            def go():
                an.e.validator = b.judge(d, ok, want)
                for s, o, v in b.text(b.fn(st.copy(), what, args)):
                    answer(p, name, s, v, ok)
            netcheck.guarded(r, an, p.h, name, go)
    for what, args in (("validate", [SA(("some", "text"))]), ("validateOperator", [S("Add"), SA(("some", "text"))]),
                       ("validateOperator", [S("Nothing"), SA(("dump", op))]), ("validateOperator", [S("Joint"), SA(("dump", op))]),
                       ("validateOperator", [S("Greater"), SA(("dump", op))]), ("validateOperator", [S("join"), SA(("dump", op))]),
                       ("validateOperator", [S(""), SA(("dump", op))])):
        p = jsons.Probe(an, label)

        def go2():
            def judge(s, v, name, args):
                return True
            an.e.validator = judge
            for s, o, v in b.text(b.fn(st.copy(), what, args)):
                bad = what == "validateOperator" and args[0].const() != "Add"
                ok = False if bad else not failed(s, an)
                answer(p, "%s of text that may not be JSON" % what if not bad else "validateOperator of an unknown type", s, v, ok)
        netcheck.guarded(r, an, p.h, "%s of %s" % (what, "an unknown type" if args[0].const() not in (None, "Add") else "any text"), go2)
    return r


def failed(s, an):
    """the text is not JSON on this path"""
    return s.facts.query(c_bool(atom(("parses", SA(("some", "text")))))) is False


def answer(p, name, s, v, ok):
    p.h.steps += 1
    if s.exc is not None:
        p.say("%s throws %s" % (name, exc_str(s.exc)), s)
        return
    got, want = verdict(v), verdict(None, ok)
    if vsame(p.e, s.facts, got, want, s.store, s.store) is not True:
        p.say("%s answers %s, specified %s" % (name, vshow(got)[:300], vshow(want)[:300]), s, (got, want))


RULE = "every path of the interface functions for each call sequence gives the registry model's result in its documented text " \
       "form; texts the validator refuses create nothing; columns of different length are refused before anything is buffered"


def check(out, tier, seed):
    an = An()
    js = [("text interface: %s" % l, job, (l, tier, seed)) for l in more(an)]
    js.append(("text interface: validation", validation, ("validation", tier, seed)))
    netcheck.collect(out, js, tier, RULE)
